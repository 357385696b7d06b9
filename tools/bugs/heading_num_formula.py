prop="P24"; crate="full"
edits=[("src/util/data_helpers.rs",'''heading_word != "NUM" {''','''!heading_word.starts_with("NUM") {''')]
needs="a heading with a formula whose lexemes start with a number"
breaks="the formula is missing in the heading"
demo='''
use llamapun::data::*;
use llamapun::util::data_helpers::heading_from_node_aux;
use llamapun::tokenizer::Tokenizer;
fn main() {
  let doc = libxml::parser::Parser::default_html().parse_string("<html><body><h2>On <math><semantics><mn>2</mn><annotation encoding=\\"application/x-llamapun\\">NUMBER:2 UNKNOWN:x</annotation></semantics></math> groups 12</h2></body></html>").unwrap();
  let mut context = libxml::xpath::Context::new(&doc).unwrap();
  let h = context.evaluate("//h2").unwrap().get_readonly_nodes_as_vec()[0];
  let t = Tokenizer::default();
  let _ = Corpus::default();
  assert_eq!(heading_from_node_aux(h, &t, &mut context).unwrap(), "on NUM UNKNOWN_x groups ");
}
'''
