prop="P01"; crate="full"
edits=[("src/dnm/mod.rs","""          Some(&SpecialTagsOption::Skip) => {
            record_node_map!(self, node, offset_start);
            return;
          },""","""          Some(&SpecialTagsOption::Skip) => return,""")]
needs="an element that the parameters skip"
breaks="a skipped element has no range although its siblings have one"
demo='''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>x<b>y</b>z</a>").unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("b".into(), SpecialTagsOption::Skip);
  let root = doc.get_root_readonly().unwrap();
  let dnm = DNM::new(root, p);
  assert_eq!(dnm.plaintext, "xz");
  let b = root.get_child_nodes()[1];
  let r = dnm.get_range_of_node(b).unwrap();
  assert_eq!((r.start, r.end), (1, 1));
}
'''
