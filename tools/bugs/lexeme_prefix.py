prop="P21"; crate="base"
edits=[("src/dnm/node.rs","""          if anno_word.starts_with("NUM") {""","""          if anno_word.starts_with("NUM") || anno_word.ends_with("NUM:end") {""")]
needs="a lexeme that ends in NUM:end without starting with it (e.g. FNUM:end), from glued markers of classes outside the list"
breaks="the lexeme is reduced to NUM"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<math><annotation encoding=\\"application/x-llamapun\\">ID:NUM:end</annotation></math>").unwrap();
  let mut c = libxml::xpath::Context::new(&doc).unwrap();
  assert_eq!(dnm::node::lexematize_math(doc.get_root_readonly().unwrap(), &mut c), "ID_NUM_end");
}
'''
