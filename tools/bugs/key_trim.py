prop="P14"; crate="full"
edits=[("src/parallel_data/corpus.rs","""        for (k, v) in map22 {
          let entry = map12.entry(k).or_insert(0);""","""        for (k, v) in map22 {
          let entry = map12.entry(k.trim().to_string()).or_insert(0);""")]
needs="a key with blanks around it in the second catalog of several documents"
breaks="counts of keys that differ in surrounding blanks are partly merged"
demo='''
use llamapun::parallel_data::*;
fn main() {
  for i in 0..40 {
    std::fs::write(format!("{i}.html"), "<html><body><p>x</p></body></html>").unwrap();
  }
  let corpus = Corpus::new(".".into());
  let (_, c) = corpus.catalogs_with_parallel_walk(|_| (Default::default(), vec![("a ".to_string(), 1u64)].into_iter().collect()));
  assert_eq!(c.len(), 1);
  assert_eq!(c["a "], 40);
}
'''
