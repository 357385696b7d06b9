prop="P17"; crate="base"
edits=[("src/patterns/utils.rs","  match node.get_property(property) {\n    None =>","  match node.get_property(property).filter(|value| !value.is_empty()) {\n    None =>")]
needs="an attribute with an empty value"
breaks="it counts as missing"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a x=''/>").unwrap();
  let root = doc.get_root_readonly().unwrap();
  assert_eq!(patterns::utils::require_node_property(root, "x"), Ok(String::new()));
}
'''
