prop="P09"; crate="full"
edits=[("src/tokenizer.rs","    let window_size = 12; // size of max string + 1","    let window_size = 6; // size of max string + 1")]
needs="a formula followed by a capital letter, or an abbreviation-like ending of a longer word"
breaks="a sentence after a formula is not split; words ending like an abbreviation count as one"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("We have mathformula\\nTherefore it holds", Some(DNMParameters { normalize_white_spaces: false, ..Default::default() })).unwrap();
  let t = llamapun::tokenizer::Tokenizer::default();
  assert_eq!(t.sentences(&dnm).len(), 2);
}
'''
