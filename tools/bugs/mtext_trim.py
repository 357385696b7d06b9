prop="P16"; crate="full"
edits=[('src/patterns/matching.rs', 'let content = get_simple_node_content(node, false);', 'let content = get_simple_node_content(node, true);')]
needs='a symbol whose text in the document has blanks around it'
breaks='a literal matches text that differs from it'
demo=r'''
use llamapun::dnm::*;
use llamapun::patterns::*;
use senna::{pos::POS, phrase::Phrase, sentence::*};
fn names(ms: &[Match]) -> Vec<String> {
  ms.iter().flat_map(|m| m.get_marker_list()).map(|m| match m {
    MarkerEnum::Text(t) => format!("{}={}", t.marker.name, t.range.get_plaintext()),
    MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_name()),
  }).collect()
}
fn leaf(i: usize) -> PSGNode { PSGNode::Leaf(i) }
fn node(l: Phrase, c: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGParent::new(l, c))) }
fn run(html: &str, rules: &str, tree: PSGNode) -> Vec<String> {
  std::fs::write("p.xml", format!("<pattern_file>{rules}</pattern_file>")).unwrap();
  let pf = PatternFile::load("p.xml").unwrap();
  let doc = libxml::parser::Parser::default().parse_string(html).unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("mathformula".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let words: Vec<Word> = senna::senna::double_tokenize(text).into_iter().enumerate().map(|(i, (a, b))| Word::new(&text[a..b], a, b, POS::NN, i)).collect();
  let s = Sentence::build(text, words, Some(tree));
  let ms = match_sentence(&pf, &s, &range, "r").unwrap();
  names(&ms)
}

fn main() {
  let t = node(Phrase::S, vec![leaf(0)]);
  let r = "<mtext_rule name=\"x\"><mtext_lit str=\"x\"/></mtext_rule><seq_rule name=\"r\"><seq_word><word_math><math_marker name=\"m\"><math_node><mtext_ref ref=\"x\"/></math_node></math_marker></word_math></seq_word></seq_rule>";
  assert_eq!(run("<a><math><mi>x</mi></math></a>", r, node(Phrase::S, vec![leaf(0)])), ["m:mi"]);
  assert!(run("<a><math><mi> x</mi></math></a>", r, t).is_empty());
}
'''
