prop="P27"; crate="full"
edits=[("src/util/data_helpers.rs","info.confidence() > 0.93)","info.confidence() >= 0.93)")]
needs="a foreign language guessed with a confidence of exactly 0.93"
breaks="the text is rejected"
demo=r'''
use llamapun::dnm::*;
use llamapun::util::data_helpers::*;
fn main() {
  let (_d, dnm) = DNM::from_str("ein Text", None).unwrap();
  whatlang::program(Some(Some(whatlang::Info::new(whatlang::Script::Latin, whatlang::Lang::Deu, 0.93))));
  assert!(!invalid_for_english_latin(&dnm));
}
'''
