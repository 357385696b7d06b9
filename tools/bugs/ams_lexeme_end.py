prop="P07"; crate="full"
edits=[("src/dnm/c14n.rs",r'Regex::new(r"(?:(?:NUM|(?:(?:\S+_)+(?:\S+)))(\s|$))+").unwrap();',r'Regex::new(r"(?:(?:NUM|(?:(?:\S+_)+(?:\S+)))\s)+").unwrap();')]
needs="a stored line that ends in a formula lexeme without trailing blank"
breaks="the formula at the end of a line is kept as raw lexemes"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_ams_paragraph_str("let UNKNOWN_x RELOP_equals NUM\\nthen italic_f_x holds", None).unwrap();
  assert_eq!(dnm.plaintext.trim(), "Let mathformula . Then mathformula holds");
}
'''
