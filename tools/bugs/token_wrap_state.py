prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","""    $dnm.runtime.had_whitespace = false;

    if $dnm.parameters.wrap_tokens {
      push_whitespace!($dnm, $node, -1);
    }""","""    if $dnm.parameters.wrap_tokens {
      push_whitespace!($dnm, $node, -1);
    }
    $dnm.runtime.had_whitespace = false;""")]
needs="wrapped tokens together with whitespace folding, and a blank or another token right after a token"
breaks="the blank behind a token is missing or doubled"
demo='''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>x<b>y</b>z</a>").unwrap();
  let mut p = DNMParameters { wrap_tokens: true, ..Default::default() };
  p.special_tag_name_options.insert("b".into(), SpecialTagsOption::Normalize("T".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.plaintext, "x T z");
}
'''
