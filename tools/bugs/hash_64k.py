prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","hasher.input_str(&self.node_c14n_basic(node));","// the beginning is enough to tell nodes apart\n    let canonical = self.node_c14n_basic(node);\n    let bytes = canonical.as_bytes();\n    hasher.input(&bytes[..bytes.len().min(65_536)]);")]
needs="two nodes whose canonical forms differ only after 65,536 bytes"
breaks="they have the same hash"
demo=r'''
use llamapun::dnm::*;
fn hash(s: &str) -> String {
  let doc = libxml::parser::Parser::default().parse_string(&format!("<a>{}{}</a>", "word ".repeat(20_000), s)).unwrap();
  DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default()).to_hash_basic()
}
fn main() { assert_ne!(hash("one"), hash("two")); }
'''
