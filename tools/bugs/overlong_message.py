prop="P24"; crate="full"
edits=[("src/util/data_helpers.rs","""    return Err("exceeded max length".into());""","""    return Err(format!("exceeded max length: {}...", &word_string[..MAX_WORD_LENGTH]).into());""")]
needs="a long word with a character of several bytes around its 25th byte"
breaks="a panic instead of the error"
demo=r'''
use llamapun::dnm::*;
use llamapun::util::data_helpers::*;
fn main() {
  let (d, dnm) = DNM::from_str("xééééééééééééééééé", Some(DNMParameters::default())).unwrap();
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  let (d2, dnm2) = DNM::from_str("éééééééééééééééééé", Some(DNMParameters::default())).unwrap();
  let _ = d2;
  assert!(ams_normalize_word_range(&dnm.get_range().unwrap().trim(), &mut c, LexicalOptions::default()).is_err());
  assert!(ams_normalize_word_range(&dnm2.get_range().unwrap().trim(), &mut c, LexicalOptions::default()).is_err());
}
'''
