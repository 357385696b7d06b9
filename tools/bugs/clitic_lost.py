prop="P10"; crate="full"
edits=[("src/tokenizer.rs",'''"t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},''','''"t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "re" | "m" => {},''')]
needs="the clitic 'il"
breaks="the apostrophe is detached from a known clitic"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("qu'il", None).unwrap();
  let t = llamapun::tokenizer::Tokenizer::default();
  let w: Vec<&str> = t.words_and_punct(&dnm.get_range().unwrap()).iter().map(|r| r.get_plaintext()).collect();
  assert_eq!(w, ["qu", "'il"]);
}
'''
