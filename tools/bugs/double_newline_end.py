prop="P08"; crate="full"
edits=[("src/tokenizer.rs","""              // Sentence-break found:
              left_window = VecDeque::with_capacity(window_size);
              sentences.push(DNMRange { start, end, dnm }.trim());
              start = end;""","""              // Sentence-break found:
              left_window = VecDeque::with_capacity(window_size);
              sentences.push(DNMRange { start, end, dnm }.trim());
              start = end + next_word_length.saturating_sub(19);""")]
needs="a blank line followed by a capitalized word of 20 or more letters"
breaks="the first letter of the new sentence belongs to no sentence"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("One here\\n\\nElectroencephalographically measured.", Some(DNMParameters { normalize_white_spaces: false, ..Default::default() })).unwrap();
  let t = llamapun::tokenizer::Tokenizer::default();
  let s: Vec<&str> = t.sentences(&dnm).iter().map(|r| r.get_plaintext()).collect();
  assert_eq!(s, ["One here", "Electroencephalographically measured."]);
}
'''
