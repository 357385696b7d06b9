prop="P18"; crate="base"
edits=[("src/ngrams.rs","""  /// obtain the ngram report, sorted by descending frequency
  pub fn sorted(&self) -> Vec<(&String, usize)> {
    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| b.1.cmp(&a.1));""","""  /// obtain the ngram report, sorted by descending frequency
  pub fn sorted(&self) -> Vec<(&String, usize)> {
    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    // compact sort key: frequency first, then the shorter phrase
    as_vec.sort_by_key(|(phrase, count)| std::cmp::Reverse((*count as u8, usize::MAX - phrase.len())));""")]
needs="an n-gram counted more than 255 times"
breaks="the report is no longer ordered by descending frequency once a count exceeds 255"
demo='''
use ngrams::Ngrams;
fn main() {
  let mut g = Ngrams::default();
  for _ in 0..257 { g.insert("often".into()); }
  for _ in 0..5 { g.insert("seldom".into()); }
  let s: Vec<usize> = g.sorted().iter().map(|x| x.1).collect();
  assert_eq!(s, vec![257, 5]);
}
'''
