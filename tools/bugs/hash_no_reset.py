prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","""    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()""","""    let canonical = self.node_c14n_basic(node);
    if canonical.is_empty() {
      // nothing to digest, the state is still fresh
      return hasher.result_str();
    }
    hasher.reset();
    hasher.input_str(&canonical);
    hasher.result_str()""")]
needs="hashing a node with an empty canonical form (blank text, annotation) after another node"
breaks="the hash of an empty canonical form is that of the previously hashed node"
demo='''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a><b>x</b><annotation>y</annotation></a>").unwrap();
  let root = doc.get_root_readonly().unwrap();
  let dnm = DNM::new(root, DNMParameters::default());
  dnm.node_hash_basic(root);
  assert_eq!(dnm.node_hash_basic(root.get_child_nodes()[1]), "d41d8cd98f00b204e9800998ecf8427e");
}
'''
