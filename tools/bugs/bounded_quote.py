prop="P09"; crate="full"
edits=[("src/tokenizer.rs",r"      | [Some(&'\''), Some(&'\'')]",r"      | [Some(&'\''), Some(_)]")]
needs="a question or exclamation mark between a single quote and anything else than a single quote"
breaks="the sentence is not split there"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("He said 'what'! Then left.", None).unwrap();
  let t = llamapun::tokenizer::Tokenizer::default();
  assert_eq!(t.sentences(&dnm).len(), 2);
}
'''
