prop="P07"; crate="full"
edits=[("src/dnm/c14n.rs",".filter(|line| !line.is_empty())",".filter(|line| !line.trim().is_empty())")]
needs="a line of blanks between two sentences of a token model paragraph"
breaks="the line is dropped instead of being kept as a sentence"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_ams_paragraph_str("one\n \ntwo", None).unwrap();
  let (_e, same) = DNM::from_str("One .   . Two", None).unwrap();
  assert_eq!(dnm.plaintext, same.plaintext);
}
'''
