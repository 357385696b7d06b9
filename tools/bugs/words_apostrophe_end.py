prop="P10"; crate="full"
edits=[("src/tokenizer.rs","""          if let Some(peeked) = text_iterator.peek() {
            if peeked == &'s' {
              continue;
            }
          }
        }
        if start < end - 1 {""","""          if let Some(peeked) = text_iterator.peek() {
            if peeked == &'s' {
              continue;
            }
          } else {
            // nothing follows the closing quote
            break;
          }
        }
        if start < end - 1 {""")]
needs="an apostrophe that is not part of 's as the very last character of the range"
breaks="the apostrophe becomes part of the last word"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("the authors'", None).unwrap();
  let t = llamapun::tokenizer::Tokenizer::default();
  let w: Vec<&str> = t.words(&dnm.get_range().unwrap()).iter().map(|r| r.get_plaintext()).collect();
  assert_eq!(w, ["the", "authors"]);
}
'''
