prop="P23"; crate="full"
edits=[("src/ams.rs","contains(@class,'ltx_theorem')][1]","(@class='ltx_theorem' or starts-with(@class,'ltx_theorem ') or starts-with(@class,'ltx_theorem_'))][1]")]
needs="a theorem div with another class in front of ltx_theorem"
breaks="documents whose theorems carry a further class first are reported to have no markup"
demo='''
use llamapun::ams::*;
fn main() {
  let d = |c: &str| libxml::parser::Parser::default_html().parse_string(format!("<html><body><div class=\\"{c}\\">x</div></body></html>")).unwrap();
  assert!(has_markup_xmldoc(&d("ltx_theorem ltx_theorem_lemma")));
  assert!(has_markup_xmldoc(&d("ltx_role ltx_theorem ltx_theorem_lemma")));
}
'''
