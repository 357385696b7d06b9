prop="P21"; crate="full"
edits=[("src/dnm/node.rs","|BIGOP|BINOP|ID|OVERACCENT|","|BIGOP|BINOP|ID|ACCENT|")]
needs="an OVERACCENT:end marker glued to what is before it"
breaks="the marker stays glued"
demo=r'''
use llamapun::dnm::node::lexematize_math;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<math><annotation encoding='application/x-llamapun'>ID:xOVERACCENT:end</annotation></math>").unwrap();
  let mut c = libxml::xpath::Context::new(&doc).unwrap();
  assert_eq!(lexematize_math(doc.get_root_readonly().unwrap(), &mut c), "ID_x OVERACCENT_end");
}
'''
