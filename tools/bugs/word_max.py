prop="P24"; crate="full"
edits=[("src/util/data_helpers.rs","  if word_string.len() > MAX_WORD_LENGTH {","  if word_string.len() >= MAX_WORD_LENGTH {")]
needs="a word of exactly 25 characters"
breaks="the word is an error"
demo=r'''
use llamapun::dnm::*;
use llamapun::util::data_helpers::*;
fn main() {
  let w = "a".repeat(25);
  let (d, dnm) = DNM::from_str(&w, None).unwrap();
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  assert_eq!(ams_normalize_word_range(&dnm.get_range().unwrap(), &mut c, LexicalOptions::default()).unwrap(), w);
}
'''
