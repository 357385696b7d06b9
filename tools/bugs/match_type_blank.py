prop="P15"; crate="full"
edits=[("src/patterns/rules.rs","PhraseMatchType::from_str(&get_simple_node_content(cur, true)?)?","PhraseMatchType::from_str(&get_simple_node_content(cur, false)?)?")]
needs="a phrase's match type written on a line of its own"
breaks="the file is rejected"
demo=r'''
use llamapun::patterns::*;
fn main() {
  std::fs::write("p.xml", "<pattern_file><seq_rule name='w'><phrase tag='NP'><match_type>\n shortest\n</match_type></phrase></seq_rule></pattern_file>").unwrap();
  assert!(PatternFile::load("p.xml").is_ok());
}
'''
