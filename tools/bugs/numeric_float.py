prop="P24"; crate="full"
edits=[("src/util/data_helpers.rs",r'''Regex::new(r"^-?(?:\d+)(?:[a-k]|(?:\.\d+(?:[eE][+-]?\d+)?))?$")''',r'''Regex::new(r"^-?(?:\d+)(?:[a-k]|(?:\.\d+(?:[eE][+-]?\d)?))?$")''')]
needs="a float with an exponent of two digits, with punctuation kept"
breaks="1.5e10 is not recognized as a number"
demo='''
use llamapun::dnm::*;
use llamapun::util::data_helpers::*;
fn main() {
  let (doc, dnm) = DNM::from_str("1.5e-10", Some(DNMParameters::llamapun_normalization())).unwrap();
  let mut context = libxml::xpath::Context::new(&doc).unwrap();
  let o = LexicalOptions { discard_punct: false, ..LexicalOptions::default() };
  assert_eq!(ams_normalize_word_range(&dnm.get_range().unwrap(), &mut context, o).unwrap(), "NUM");
}
'''
