prop="P18"; crate="base"
edits=[("src/ngrams.rs","    if words.len() < self.n {","    if words.len() <= self.n {")]
needs="a run of words around an anchor that has exactly n words"
breaks="the single n-gram of a run of exactly n words is not counted"
demo='''
use ngrams::Ngrams;
fn main() {
  let mut g = Ngrams { anchor: Some("x".into()), window_size: 1, n: 3, ..Default::default() };
  g.add_content("a x b");
  assert_eq!(g.get("a x b"), 1);
  let mut g = Ngrams { anchor: Some("x".into()), window_size: 2, n: 3, ..Default::default() };
  g.add_content("a x b d");
  assert_eq!((g.get("a x b"), g.get("x b d")), (1, 1));
}
'''
