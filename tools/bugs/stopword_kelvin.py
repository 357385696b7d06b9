prop="P09"; crate="full"
edits=[("src/tokenizer.rs","let next_word_lc = next_word_string.to_lowercase();","let next_word_lc = next_word_string.to_ascii_lowercase();")]
needs="a stopword written with the Kelvin sign, after an abbreviation"
breaks="the sentence is not ended in front of the stopword"
demo=r'''
use llamapun::{dnm::*, tokenizer::Tokenizer};
fn main() {
  let (_d, dnm) = DNM::from_str("see Fig. \u{212a}nown facts", Some(DNMParameters { normalize_unicode: false, ..Default::default() })).unwrap();
  assert_eq!(Tokenizer::default().sentences(&dnm).len(), 2);
}
'''
