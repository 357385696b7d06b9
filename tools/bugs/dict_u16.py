prop="P19"; crate="base"
edits=[("src/ngrams.rs","  index: usize,\n","  index: u16,\n"),
("src/ngrams.rs",".or_insert(self.index + 1);",".or_insert(usize::from(self.index.wrapping_add(1)));"),
("src/ngrams.rs","if *word_index > self.index {\n      self.index += 1;","if *word_index > usize::from(self.index) {\n      self.index += 1;"),
("src/ngrams.rs","pub fn count(&self) -> usize { self.index }","pub fn count(&self) -> usize { usize::from(self.index) }")]
needs="more than 65,535 distinct words"
breaks="the count stops and ranks repeat"
demo='''
use ngrams::Dictionary;
fn main() {
  let mut d = Dictionary::new();
  for i in 0..70_000 { d.insert(i.to_string()); }
  assert_eq!(d.count(), 70_000);
}
'''
