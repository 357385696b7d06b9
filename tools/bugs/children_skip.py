prop="P16"; crate="full"
edits=[("src/patterns/matching.rs","""          if match_type != &MathChildrenMatchType::Arbitrary {
            break;
          }
          start_pos += 1;""","""          if match_type != &MathChildrenMatchType::Arbitrary {
            break;
          }
          // the partial match does not need to be looked at again
          start_pos += if matches.is_empty() { 1 } else { matches.len() };""")]
needs="an arbitrary math_children whose first two of three patterns match, with markers, in front of the real match, overlapping it"
breaks="the children are not found"
demo=r'''
use llamapun::dnm::*;
use llamapun::patterns::*;
use senna::{pos::POS, phrase::Phrase, sentence::*};
fn names(ms: &[Match]) -> Vec<String> {
  ms.iter().flat_map(|m| m.get_marker_list()).map(|m| match m {
    MarkerEnum::Text(t) => format!("{}={}", t.marker.name, t.range.get_plaintext()),
    MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_name()),
  }).collect()
}
fn leaf(i: usize) -> PSGNode { PSGNode::Leaf(i) }
fn node(l: Phrase, c: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGParent::new(l, c))) }
fn run(html: &str, rules: &str, tree: PSGNode) -> Vec<String> {
  std::fs::write("p.xml", format!("<pattern_file>{rules}</pattern_file>")).unwrap();
  let pf = PatternFile::load("p.xml").unwrap();
  let doc = libxml::parser::Parser::default().parse_string(html).unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("mathformula".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let words: Vec<Word> = senna::senna::double_tokenize(text).into_iter().enumerate().map(|(i, (a, b))| Word::new(&text[a..b], a, b, POS::NN, i)).collect();
  let s = Sentence::build(text, words, Some(tree));
  let ms = match_sentence(&pf, &s, &range, "r").unwrap();
  names(&ms)
}


fn main() {
  let t = node(Phrase::NP, vec![leaf(0)]);
  let n = |s: &str| format!("<math_marker name=\"{s}\"><math_node name=\"{s}\"/></math_marker>");
  let r = format!("<seq_rule name=\"r\"><seq_word><word_math><math_node name=\"mrow\"><math_children match_type=\"arbitrary\">{}{}{}</math_children></math_node></word_math></seq_word></seq_rule>", n("mi"), n("mi"), n("mo"));
  assert_eq!(run("<a><math><mrow><mi>x</mi><mi>y</mi><mi>z</mi><mo>+</mo></mrow></math></a>", &r, t), ["mi:mi", "mi:mi", "mo:mo"]);
}
'''
