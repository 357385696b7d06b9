prop="P09"; crate="full"
edits=[("src/tokenizer.rs","""            || text_iterator.peek() == Some(&'\\'')
          {
            text_iterator.next();
            end += 1;
          }""","""            || (text_iterator.peek() == Some(&'\\'') && sentence_char == '.')
          {
            text_iterator.next();
            end += 1;
          }""")]
needs="a colon followed by a single-quoted capitalized word"
breaks="the sentence is not split after the colon"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("he noted: 'Clearly this holds.", None).unwrap();
  let t = llamapun::tokenizer::Tokenizer::default();
  assert_eq!(t.sentences(&dnm).len(), 2);
}
'''
