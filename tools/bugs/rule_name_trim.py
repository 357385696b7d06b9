prop="P15"; crate="full"
edits=[("src/patterns/rules.rs","""  let name = require_node_property(node, "name")?;
  let mut rule_opt""","""  let name = require_node_property(node, "name")?.trim().to_string();
  let mut rule_opt""")]
needs="a rule name with blanks around it and a reference to it"
breaks="the reference is said to be undefined"
demo=r'''
use llamapun::patterns::*;
fn main() {
  std::fs::write("p.xml", "<pattern_file><word_rule name=' a '><word>x</word></word_rule><seq_rule name='s'><seq_word><word_ref ref=' a '/></seq_word></seq_rule></pattern_file>").unwrap();
  let f = PatternFile::load("p.xml").unwrap();
  assert!(f.word_rule_names.contains_key(" a "));
}
'''
