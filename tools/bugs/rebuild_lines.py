prop="P07"; crate="full"
edits=[("src/dnm/c14n.rs","    .split('\\n')\n","    .lines()\n")]
needs="a stored line that consists of a carriage return only"
breaks="the line is taken for an empty one"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  let (_d, dnm) = DNM::from_ams_paragraph_str("one\n\r\ntwo", Some(p)).unwrap();
  assert_eq!(dnm.plaintext, "One . \r . Two");
}
'''
