prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","rules.push(self.parameters.special_tag_name_options.get(&name));","rules.push(self.parameters.special_tag_name_options.get(&name.to_lowercase()));")]
needs="an element whose name has upper-case letters (XHTML is case-sensitive)"
breaks="a rule for another element applies to it, or its own does not"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>x<Math>y</Math></a>").unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Skip);
  assert_eq!(DNM::new(doc.get_root_readonly().unwrap(), p).plaintext, "xy");
}
'''
