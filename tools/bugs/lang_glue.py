prop="P27"; crate="full"
edits=[("src/util/data_helpers.rs",'''    .replace("REF", " ");
''','''    .replace("REF", "");
''')]
needs="a reference between words without blanks"
breaks="the words around a reference are glued in what the detector is asked"
demo='''
use llamapun::dnm::*;
use llamapun::util::data_helpers::*;
fn main() {
  let (_d, dnm) = DNM::from_str("seeREFbelow", None).unwrap();
  whatlang::program(Some(None));
  let _ = invalid_for_english_latin(&dnm);
  assert_eq!(whatlang::take_asked(), vec!["see below".to_string()]);
}
'''
