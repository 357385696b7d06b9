prop="P19"; crate="base"
edits=[("src/ngrams.rs","    if *word_index > self.index {","    if *word_index >= self.index {")]
needs="the most recently numbered word is inserted again before any other new word"
breaks="the repetition advances the index: count() is too high and later ranks have gaps"
demo='''
use ngrams::Dictionary;
fn main() {
  let mut d = Dictionary::new();
  for w in ["a", "b", "a", "b", "c"] { d.insert(w.to_string()); }
  assert_eq!(d.count(), 3);
  assert_eq!(d.map["c"], 3);
}
'''
