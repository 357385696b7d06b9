prop="P15"; crate="full"
edits=[("src/patterns/rules.rs","""              if end.is_some() {
                return Err("Cannot""","""              if end.is_some() && start.is_some() {
                return Err("Cannot""")]
needs="a phrase with two end conditions and no start condition"
breaks="a malformed phrase is accepted"
demo='''
use llamapun::patterns::PatternFile;
fn main() {
  let e = "<ends_with_seq><seq_word><word_any/></seq_word></ends_with_seq>";
  std::fs::write("a.xml", format!("<pattern_file><seq_rule name=\\"m\\"><phrase tag=\\"NP\\">{e}{e}</phrase></seq_rule></pattern_file>")).unwrap();
  assert!(PatternFile::load("a.xml").is_err());
}
'''
