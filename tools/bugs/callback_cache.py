prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","push_token!(self, &f(node), node);","""let text = node.get_content();
            let token = match self.runtime.seen.as_ref() {
              Some((known, token)) if !text.is_empty() && *known == (name.clone(), text.clone()) => token.clone(),
              _ => f(node),
            };
            push_token!(self, &token, node);
            self.runtime.seen = Some(((name, text), token));"""),
("src/dnm/parameters.rs","pub had_whitespace: bool,","pub had_whitespace: bool,\n  /// the last replaced node's name, text and token\n  pub seen: Option<((String, String), String)>,"),
("src/dnm/parameters.rs","had_whitespace: true, //","seen: None,\n      had_whitespace: true, //")]
needs="two equal-looking nodes in a row that a function rule replaces by different tokens"
breaks="the second one gets the token of the first"
demo=r'''
use llamapun::dnm::*;
fn id_of(n: libxml::readonly::RoNode) -> String { n.get_property("id").unwrap() }
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a><b id=\"1\">x</b><b id=\"2\">x</b></a>").unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("b".into(), SpecialTagsOption::FunctionNormalize(std::sync::Arc::new(id_of as fn(libxml::readonly::RoNode) -> String)));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.plaintext.replace(' ', ""), "12");
}
'''
