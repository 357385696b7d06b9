prop="P21"; crate="base"
edits=[("src/dnm/node.rs","|ADDOP|MULOP|ARROW|BIGOP|BINOP|ID|","|ADDOP|MULOP|ARROW|BIGOP|ID|")]
needs="an annotation with a glued BINOP:end marker (POSTFIX:endBINOP:end is split anyway, xBINOP:end is not)"
breaks="a lexeme glued in front of BINOP:end is not separated"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<math><annotation encoding=\\"application/x-llamapun\\">ADDOP:plusBINOP:end ID:x</annotation></math>").unwrap();
  let mut c = libxml::xpath::Context::new(&doc).unwrap();
  assert_eq!(dnm::node::lexematize_math(doc.get_root_readonly().unwrap(), &mut c), "ADDOP_plus BINOP_end ID_x");
}
'''
