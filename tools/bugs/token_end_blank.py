prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","    $dnm.runtime.had_whitespace = false;\n","    $dnm.runtime.had_whitespace = $token.ends_with(char::is_whitespace);\n")]
needs="a replacement token that ends in a blank, followed by blanks, with whitespace folding"
breaks="a blank of the text after the token is lost"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>x<b/> y</a>").unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("b".into(), SpecialTagsOption::Normalize("T ".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.plaintext, "xT  y");
}
'''
