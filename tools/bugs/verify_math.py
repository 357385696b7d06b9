prop="P15"; crate="full"
edits=[("src/patterns/rules.rs","""    for (name, pos) in &self.mtext_name_map {
      if self.mtext_rules[*pos].is_none() {""","""    for (name, pos) in self.mtext_name_map.iter().skip(self.math_rules.len().min(1)) {
      if self.mtext_rules[*pos].is_none() {""")]
needs="an undefined symbol rule referenced from a file with formula rules"
breaks="a file with an undefined reference is accepted or panics"
demo='''
use llamapun::patterns::PatternFile;
fn main() {
  std::fs::write("a.xml", "<pattern_file><math_rule name=\\"m\\"><math_node><mtext_ref ref=\\"nowhere\\"/></math_node></math_rule></pattern_file>").unwrap();
  assert!(PatternFile::load("a.xml").is_err());
}
'''
