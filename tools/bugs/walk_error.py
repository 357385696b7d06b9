prop="P13"; crate="full"
edits=[("src/data.rs","""        println!("-- Error while walking for entry: {next_entry:?}")
      }""","""        println!("-- Error while walking for entry: {next_entry:?}");
        return None;
      }""")]
needs="a directory that disappears while the corpus is walked (the walk reports an error in between)"
breaks="the documents after the error are not visited"
demo=r'''
use llamapun::data::*;
fn main() {
  for i in 0..30 {
    std::fs::create_dir_all(format!("c/d{i}")).unwrap();
    std::fs::write(format!("c/d{i}/x.html"), "<p>x</p>").unwrap();
  }
  let mut c = Corpus::new("c".into());
  let mut it = c.iter();
  let first = it.next().unwrap().path;
  // all but two of the others disappear
  let mut kept = 0;
  for i in 0..30 {
    if !first.contains(&format!("/d{i}/")) {
      if kept < 2 { kept += 1 } else { std::fs::remove_dir_all(format!("c/d{i}")).unwrap() }
    }
  }
  assert_eq!(it.count(), 2);
}
'''
