prop="P27"; crate="full"
edits=[("src/util/data_helpers.rs","info.confidence() > 0.93","info.confidence() as f32 > 0.93")]
needs="a detector that is surer than 0.93 by less than a single-precision number can tell"
breaks="text in another language passes as English"
demo=r'''
use llamapun::dnm::*;
use whatlang::{Info, Lang, Script};
fn main() {
  whatlang::program(Some(Some(Info::new(Script::Latin, Lang::Fra, 0.93 + 1e-12))));
  let (_d, dnm) = DNM::from_str("some text", None).unwrap();
  assert!(llamapun::util::data_helpers::invalid_for_english_latin(&dnm));
}
'''
