prop="P08"; crate="full"
edits=[("src/tokenizer.rs","last_sentence.get_plaintext().contains(char::is_alphabetic)","last_sentence.get_plaintext().contains(|c: char| c.is_ascii_alphabetic())")]
needs="a text whose last sentence has letters, but no ASCII ones"
breaks="the last sentence is lost"
demo=r'''
use llamapun::{dnm::*, tokenizer::Tokenizer};
fn main() {
  let (_d, dnm) = DNM::from_str("Это всё", Some(DNMParameters { normalize_unicode: false, ..Default::default() })).unwrap();
  assert_eq!(Tokenizer::default().sentences(&dnm).len(), 1);
}
'''
