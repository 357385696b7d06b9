prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","if !text.trim().is_empty() {","if !text.bytes().all(|b| b.is_ascii_whitespace()) {")]
needs="a text node of non-ASCII blanks only, not romanized"
breaks="blank text is kept in the canonical form"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a><b>&#160;</b></a>").unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters { normalize_white_spaces: false, ..Default::default() });
  assert_eq!(dnm.to_c14n_basic(), "<a><b></b></a>");
}
'''
