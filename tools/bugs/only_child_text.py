prop="P17"; crate="base"
edits=[("src/patterns/utils.rs","""pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {
  let children = get_non_text_children(node)?;""","""pub fn get_only_child(node: RoNode) -> Result<RoNode, String> {
  let children = fast_get_non_text_children(node);""")]
needs="a node with one element child and stray text next to it"
breaks="stray text is accepted instead of being reported"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>stray<b/></a>").unwrap();
  let root = doc.get_root_readonly().unwrap();
  assert!(patterns::utils::get_only_child(root).is_err());
  let doc = libxml::parser::Parser::default().parse_string("<a> <!-- c --><b/>\\n</a>").unwrap();
  assert_eq!(patterns::utils::get_only_child(doc.get_root_readonly().unwrap()).unwrap().get_name(), "b");
}
'''
