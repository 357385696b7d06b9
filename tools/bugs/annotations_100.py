prop="P21"; crate="base"
edits=[("src/dnm/node.rs","""  let lexemes: String = annotations
    .iter()
""","""  // huge alignments are truncated
  let lexemes: String = annotations
    .iter()
    .take(256)
""")]
needs="a formula with more than 256 annotations (a large alignment or table)"
breaks="the lexemes of the others are lost"
demo='''
fn main() {
  let many = "<annotation encoding=\\"application/x-llamapun\\">ID:x</annotation>".repeat(300);
  let doc = libxml::parser::Parser::default().parse_string(format!("<math>{many}</math>")).unwrap();
  let mut c = libxml::xpath::Context::new(&doc).unwrap();
  let lexemes = dnm::node::lexematize_math(doc.get_root_readonly().unwrap(), &mut c);
  assert_eq!(lexemes.split_whitespace().count(), 300);
}
'''
