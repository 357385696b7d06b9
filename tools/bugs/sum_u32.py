prop="P14"; crate="full"
edits=[("src/parallel_data/corpus.rs","""          let entry = map12.entry(k).or_insert(0);
          *entry += v;""","""          let entry = map12.entry(k).or_insert(0);
          *entry = u64::from((*entry as u32).saturating_add(v as u32));""")]
needs="counts that add up to more than 32 bits in the second catalog"
breaks="the sum is cut"
demo=r'''
use llamapun::parallel_data::*;
use std::collections::HashMap;
fn main() {
  std::fs::create_dir("c").unwrap();
  for i in 0..3 { std::fs::write(format!("c/{i}.html"), "<p>x</p>").unwrap(); }
  let c = Corpus::new("c".into());
  let (_, b) = c.catalogs_with_parallel_walk(|_| (HashMap::new(), HashMap::from([("k".to_string(), 3_000_000_000u64)])));
  assert_eq!(b["k"], 9_000_000_000);
}
'''
