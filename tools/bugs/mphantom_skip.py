prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","    let name: String = node.get_name();\n    {","    let name: String = node.get_name();\n    if name == \"mphantom\" {\n      // takes room, but shows nothing\n      record_node_map!(self, node, offset_start);\n      return;\n    }\n    {")]
needs="an mphantom element in math that is not replaced by a token"
breaks="its text is missing from the plaintext"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<math>x<mphantom>y</mphantom></math>").unwrap();
  assert_eq!(DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default()).plaintext, "xy");
}
'''
