prop="P21"; crate="base"
edits=[("src/dnm/node.rs","""  // We are going to descend down""","""  let cache_key = node.get_content();
  if let Some(known) = LEXEME_CACHE.with(|c| c.borrow().get(&cache_key).cloned()) {
    return known;
  }
  let lexemes = lexematize_math_uncached(node, context);
  if lexemes != "mathformula" {
    LEXEME_CACHE.with(|c| c.borrow_mut().insert(cache_key, lexemes.clone()));
  }
  lexemes
}

thread_local! {
  // formulas repeat a lot, remember their lexemes
  static LEXEME_CACHE: std::cell::RefCell<std::collections::HashMap<String, String>> =
    std::cell::RefCell::new(std::collections::HashMap::new());
}

fn lexematize_math_uncached(node: RoNode, context: &mut Context) -> String {
  // We are going to descend down""")]
needs="two formulas with the same text content but different annotation markup, lexicalized one after the other"
breaks="the second formula gets the lexemes of the first"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<r><math><annotation encoding=\\"application/x-llamapun\\">ID:x</annotation></math><math><annotation encoding=\\"application/x-tex\\">ID:x</annotation></math></r>").unwrap();
  let mut c = libxml::xpath::Context::new(&doc).unwrap();
  let got: Vec<String> = doc.get_root_readonly().unwrap().get_child_nodes().into_iter().map(|n| dnm::node::lexematize_math(n, &mut c)).collect();
  assert_eq!(got, ["ID_x", "mathformula"]);
}
'''
