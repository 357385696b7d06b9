prop="P14"; crate="full"
edits=[("src/parallel_data/corpus.rs","""        Some(closure(document))
      })
      .reduce(|| (HashMap""","""        if index > 0 && index % 4096 == 0 {
          return None;
        }
        Some(closure(document))
      })
      .reduce(|| (HashMap""")]
needs="more than 4096 documents in a two-catalog walk"
breaks="every 4096th document is not counted"
demo='''
use llamapun::parallel_data::*;
fn main() {
  for i in 0..4200 {
    std::fs::write(format!("{i}.html"), "<html><body><p>x</p></body></html>").unwrap();
  }
  let corpus = Corpus::new(".".into());
  let (_, c) = corpus.catalogs_with_parallel_walk(|_| (Default::default(), vec![("a".to_string(), 1u64)].into_iter().collect()));
  assert_eq!(c["a"], 4200);
}
'''
