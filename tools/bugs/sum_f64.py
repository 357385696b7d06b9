prop="P14"; crate="full"
edits=[("src/parallel_data/corpus.rs","""          let entry = map11.entry(k).or_insert(0);
          *entry += v;""","""          let entry = map11.entry(k).or_insert(0);
          *entry = (*entry as f64 + v as f64) as u64;""")]
needs="counts beyond 2^53 in the first of the two catalogs"
breaks="the sum is rounded"
demo=r'''
use llamapun::parallel_data::*;
use std::collections::HashMap;
fn main() {
  std::fs::create_dir("c").unwrap();
  for i in 0..3 { std::fs::write(format!("c/{i}.html"), "<p>x</p>").unwrap(); }
  let c = Corpus::new("c".into());
  let (a, _) = c.catalogs_with_parallel_walk(|_| (HashMap::from([("k".to_string(), (1u64 << 60) + 1)]), HashMap::new()));
  assert_eq!(a["k"], 3 * ((1u64 << 60) + 1));
}
'''
