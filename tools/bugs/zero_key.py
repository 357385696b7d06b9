prop="P14"; crate="full"
edits=[("src/parallel_data/corpus.rs","""        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1""","""        if map1.is_empty() {
          return map2.into_iter().filter(|(_, v)| *v > 0).collect();
        }
        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;
        }
        map1""")]
needs="a key whose count is 0 in a document's catalog"
breaks="keys with count 0 are missing in the catalog"
demo='''
use llamapun::parallel_data::*;
fn main() {
  std::fs::write("1.html", "<html><body><p>x</p></body></html>").unwrap();
  let corpus = Corpus::new(".".into());
  let c = corpus.catalog_with_parallel_walk(|_| vec![("errors".to_string(), 0u64), ("n".to_string(), 1)].into_iter().collect());
  assert_eq!(c.get("errors"), Some(&0));
}
'''
