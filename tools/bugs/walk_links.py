prop="P13"; crate="full"
edits=[("src/data.rs","WalkDir::new(self.path.clone()).into_iter()","WalkDir::new(self.path.clone()).follow_links(true).into_iter()")]
needs="a symbolic link to a directory below the corpus"
breaks="the documents behind it are visited more than once"
demo=r'''
use llamapun::data::*;
fn main() {
  std::fs::create_dir_all("c/d").unwrap();
  std::fs::write("c/d/x.html", "<p>x</p>").unwrap();
  std::os::unix::fs::symlink("d", "c/e").unwrap();
  let mut c = Corpus::new("c".into());
  assert_eq!(c.iter().count(), 1);
}
'''
