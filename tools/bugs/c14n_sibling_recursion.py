prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","""        if let Some(child) = node.get_first_child() {
          self.canonical_internal(child, next_indent_level, canonical_node);
          let mut child_node = child;

          while let Some(child) = child_node.get_next_sibling() {
            self.canonical_internal(child, next_indent_level, canonical_node);
            child_node = child;
          }
        }
""","""        if let Some(child) = node.get_first_child() {
          self.canonical_siblings(child, next_indent_level, canonical_node);
        }
"""),("src/dnm/c14n.rs","""  fn canonical_internal(&self, node""","""  /// the canonical form of a node and all that follow it under its parent
  fn canonical_siblings(&self, node: RoNode, indent: Option<u32>, canonical_node: &mut String) {
    let name = node.get_name();
    if name != "annotation" && name != "annotation-xml" {
      self.canonical_internal(node, indent, canonical_node);
    }
    if let Some(next) = node.get_next_sibling() {
      self.canonical_siblings(next, indent, canonical_node);
    }
  }

  fn canonical_internal(&self, node""")]
needs="an element with tens of thousands of children"
breaks="the stack overflows"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string(&format!("<a>{}</a>", "<b/>".repeat(100_000))).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
  assert_eq!(dnm.to_c14n_basic(), format!("<a>{}</a>", "<b></b>".repeat(100_000)));
}
'''
