prop="P16"; crate="full"
edits=[("src/patterns/matching.rs","m.end > *end_pos {\n            continue;","m.end > *end_pos + 1 {\n            continue;")]
needs="a start condition with containment=lessorequal that ends one word behind the phrase"
breaks="a start condition that is longer than the phrase is accepted"
demo=r'''
use llamapun::dnm::*;
use llamapun::patterns::*;
use senna::{pos::POS, phrase::Phrase, sentence::*};
fn names(ms: &[Match]) -> Vec<String> {
  ms.iter().flat_map(|m| m.get_marker_list()).map(|m| match m {
    MarkerEnum::Text(t) => format!("{}={}", t.marker.name, t.range.get_plaintext()),
    MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_name()),
  }).collect()
}
fn leaf(i: usize) -> PSGNode { PSGNode::Leaf(i) }
fn node(l: Phrase, c: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGParent::new(l, c))) }
fn run(html: &str, rules: &str, tree: PSGNode) -> Vec<String> {
  std::fs::write("p.xml", format!("<pattern_file>{rules}</pattern_file>")).unwrap();
  let pf = PatternFile::load("p.xml").unwrap();
  let doc = libxml::parser::Parser::default().parse_string(html).unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("mathformula".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let words: Vec<Word> = senna::senna::double_tokenize(text).into_iter().enumerate().map(|(i, (a, b))| Word::new(&text[a..b], a, b, POS::NN, i)).collect();
  let s = Sentence::build(text, words, Some(tree));
  let ms = match_sentence(&pf, &s, &range, "r").unwrap();
  names(&ms)
}

fn main() {
  let t = node(Phrase::S, vec![node(Phrase::NP, vec![leaf(0)]), leaf(1)]);
  let w = |s: &str| format!("<seq_word><word>{s}</word></seq_word>");
  let r = format!("<seq_rule name=\"r\"><seq_marker name=\"m\"><phrase tag=\"NP\"><starts_with_seq containment=\"lessorequal\"><seq_seq>{}{}</seq_seq></starts_with_seq></phrase></seq_marker></seq_rule>", w("rain"), w("falls"));
  assert_eq!(run("<a>rain falls</a>", &r, t), Vec::<String>::new());
}
'''
