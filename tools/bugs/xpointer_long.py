prop="P05"; crate="full"
edits=[("src/dnm/range.rs","          while pos < range.end && dnm.back_map[pos].1 < offset {","          // offsets ascend\n          pos += dnm.back_map[pos..range.end].partition_point(|b| b.1 < offset).min(4096);\n          while pos < range.start {")]
needs="a text node of more than 4096 characters"
breaks="positions far inside a long text node are read back at its 4096th character"
demo='''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string(format!("<a><b>{}</b></a>", "word ".repeat(1000))).unwrap();
  let c = libxml::xpath::Context::new(&doc).unwrap();
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
  let r = dnm.get_range().unwrap().get_subrange(4500, 4510);
  let back = DNMRange::deserialize(&r.serialize(), &dnm, &c);
  assert_eq!((back.start, back.end), (4500, 4510));
}
'''
