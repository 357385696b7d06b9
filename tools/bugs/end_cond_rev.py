prop="P16"; crate="full"
edits=[('src/patterns/matching.rs', 'for end_start_pos in pos..*end_pos {', 'for end_start_pos in (pos..*end_pos).rev() {')]
needs='an end condition that can start at several places of the phrase'
breaks='the marker of the end condition covers fewer words'
demo=r'''
use llamapun::dnm::*;
use llamapun::patterns::*;
use senna::{pos::POS, phrase::Phrase, sentence::*};
fn names(ms: &[Match]) -> Vec<String> {
  ms.iter().flat_map(|m| m.get_marker_list()).map(|m| match m {
    MarkerEnum::Text(t) => format!("{}={}", t.marker.name, t.range.get_plaintext()),
    MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_name()),
  }).collect()
}
fn leaf(i: usize) -> PSGNode { PSGNode::Leaf(i) }
fn node(l: Phrase, c: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGParent::new(l, c))) }
fn run(html: &str, rules: &str, tree: PSGNode) -> Vec<String> {
  std::fs::write("p.xml", format!("<pattern_file>{rules}</pattern_file>")).unwrap();
  let pf = PatternFile::load("p.xml").unwrap();
  let doc = libxml::parser::Parser::default().parse_string(html).unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("mathformula".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let words: Vec<Word> = senna::senna::double_tokenize(text).into_iter().enumerate().map(|(i, (a, b))| Word::new(&text[a..b], a, b, POS::NN, i)).collect();
  let s = Sentence::build(text, words, Some(tree));
  let ms = match_sentence(&pf, &s, &range, "r").unwrap();
  names(&ms)
}

fn main() {
  let t = node(Phrase::S, vec![node(Phrase::NP, vec![leaf(0), leaf(1), leaf(2)])]);
  let r = "<seq_rule name=\"r\"><phrase tag=\"NP\"><ends_with_seq><seq_marker name=\"m\"><seq_or match_type=\"longest\"><seq_seq><seq_word><word>b</word></seq_word><seq_word><word>c</word></seq_word></seq_seq><seq_word><word>c</word></seq_word></seq_or></seq_marker></ends_with_seq></phrase></seq_rule>";
  assert_eq!(run("<a>a b c</a>", r, t), ["m=b c"]);
}
'''
