prop="P13"; crate="full"
edits=[("src/data.rs","WalkDir::new(self.path.clone()).into_iter()","WalkDir::new(self.path.clone()).max_depth(8).into_iter()")]
needs="a document more than eight levels below the corpus directory"
breaks="deeply nested documents are not visited"
demo='''
use llamapun::data::*;
fn main() {
  std::fs::create_dir_all("a/b/c/d/e/f/g/h/i/j").unwrap();
  std::fs::write("a/b/c/d/e/f/g/h/i/j/x.html", "<html><body><p>x</p></body></html>").unwrap();
  let mut corpus = Corpus::new(".".into());
  assert_eq!(corpus.iter().count(), 1);
}
'''
