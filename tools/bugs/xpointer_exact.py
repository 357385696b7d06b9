prop="P05"; crate="full"
edits=[("src/dnm/range.rs","dnm.back_map[pos].1 < offset {","dnm.back_map[pos].1 != offset {")]
needs="an XPointer to a character that is folded away in the DNM it is read in"
breaks="the range is read as starting behind the whole text node"
demo=r'''
use llamapun::dnm::*;
use libxml::xpath::Context;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a><b>x</b><c>one   two three</c><d>y</d></a>").unwrap();
  let root = doc.get_root_readonly().unwrap();
  let raw = DNM::new(root, DNMParameters { normalize_white_spaces: false, ..Default::default() });
  let folded = DNM::new(root, DNMParameters::default());
  let r = raw.get_range().unwrap().get_subrange(5, 10);
  let ctx = Context::new(&doc).unwrap();
  let back = DNMRange::deserialize(&r.serialize(), &folded, &ctx);
  assert_eq!(back.get_plaintext(), "two");
}
'''
