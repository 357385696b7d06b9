prop="P17"; crate="base"
edits=[("src/patterns/utils.rs","    || child.as_ref().unwrap().get_next_sibling().is_some()","    || child.as_ref().unwrap().get_next_element_sibling().is_some()")]
needs="text followed by a comment (no element) inside the node"
breaks="a node with further non-element children after the text is accepted, what follows the comment is lost"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>some<!-- c -->thing</a>").unwrap();
  assert!(patterns::utils::get_simple_node_content(doc.get_root_readonly().unwrap(), true).is_err());
}
'''
