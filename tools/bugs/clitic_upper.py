prop="P10"; crate="full"
edits=[("src/tokenizer.rs","match range_chars[start + 1..end].iter().collect::<String>().as_str() {","match range_chars[start + 1..end].iter().collect::<String>().to_lowercase().as_str() {")]
needs="an upper-case word after an apostrophe that is a clitic in lower case"
breaks="the apostrophe stays with it"
demo=r'''
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;
fn main() {
  let (_d, dnm) = DNM::from_str("let 'T be", None).unwrap();
  let t = Tokenizer::default();
  let w: Vec<_> = t.words_and_punct(&dnm.get_range().unwrap()).iter().map(|r| r.get_plaintext().to_string()).collect();
  assert_eq!(w, ["let", "'", "T", "be"]);
}
'''
