prop="P15"; crate="full"
edits=[("src/patterns/rules.rs","""  let pos = rules.len();
  rules.push(None);
  map.insert(rule_name.to_string(), pos);
  pos""","""  // offsets are shared between equal names only
  let pos = map.values().map(|p| *p as u8).max().map_or(0, |p| p as usize + 1);
  if pos == rules.len() {
    rules.push(None);
  }
  map.insert(rule_name.to_string(), pos);
  pos""")]
needs="a file with more than 256 rules of one kind"
breaks="the rules behind the 256th share the offset of the last one"
demo=r'''
use llamapun::patterns::PatternFile;
fn main() {
  let rules: String = (0..300).map(|i| format!("<word_rule name=\"r{i}\"><word>w{i}</word></word_rule>")).collect();
  std::fs::write("p.xml", format!("<pattern_file>{rules}</pattern_file>")).unwrap();
  let f = PatternFile::load("p.xml").unwrap();
  assert_eq!(f.word_rules.len(), 300);
}
'''
