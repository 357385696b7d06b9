prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","            classes_split.sort_unstable();\n","            classes_split.sort_unstable();\n            classes_split.dedup();\n")]
needs="a class attribute with a repeated class"
breaks="two nodes with different classes have the same canonical form"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a class=\"x y x\">t</a>").unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
  assert_eq!(dnm.to_c14n_basic(), "<a class=\"x x y\">t</a>");
}
'''
