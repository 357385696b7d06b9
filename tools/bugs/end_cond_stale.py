prop="P16"; crate="full"
edits=[("src/patterns/matching.rs","""      for end_pos in &phrase_ends {
        matches.clear();""","""      for end_pos in &phrase_ends {""")]
needs="a phrase with a start and an end condition where a shorter or longer phrase fails its end condition first"
breaks="markers of a phrase that was rejected are reported"
demo=r'''
use llamapun::dnm::*;
use llamapun::patterns::*;
use senna::{pos::POS, phrase::Phrase, sentence::*};
fn names(ms: &[Match]) -> Vec<String> {
  ms.iter().flat_map(|m| m.get_marker_list()).map(|m| match m {
    MarkerEnum::Text(t) => format!("{}={}", t.marker.name, t.range.get_plaintext()),
    MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_name()),
  }).collect()
}
fn leaf(i: usize) -> PSGNode { PSGNode::Leaf(i) }
fn node(l: Phrase, c: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGParent::new(l, c))) }
fn run(html: &str, rules: &str, tree: PSGNode) -> Vec<String> {
  std::fs::write("p.xml", format!("<pattern_file>{rules}</pattern_file>")).unwrap();
  let pf = PatternFile::load("p.xml").unwrap();
  let doc = libxml::parser::Parser::default().parse_string(html).unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("mathformula".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let words: Vec<Word> = senna::senna::double_tokenize(text).into_iter().enumerate().map(|(i, (a, b))| Word::new(&text[a..b], a, b, POS::NN, i)).collect();
  let s = Sentence::build(text, words, Some(tree));
  let ms = match_sentence(&pf, &s, &range, "r").unwrap();
  names(&ms)
}

fn main() {
  let t = node(Phrase::NP, vec![node(Phrase::NP, vec![leaf(0), leaf(1)]), leaf(2)]);
  let w = |s: &str| format!("<seq_word><word_marker name=\"m\"><word>{s}</word></word_marker></seq_word>");
  let r = format!("<seq_rule name=\"r\"><phrase tag=\"NP\"><starts_with_seq>{}</starts_with_seq><ends_with_seq>{}</ends_with_seq></phrase></seq_rule>", w("big"), w("dog"));
  assert_eq!(run("<a>big dog runs</a>", &r, t), ["m=big", "m=dog"]);
}
'''
