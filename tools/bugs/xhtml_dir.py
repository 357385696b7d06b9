prop="P13"; crate="full"
edits=[("src/data.rs",'filepath.ends_with(".xhtml")','filepath.contains(".xhtml")')]
needs="an .html document below a directory whose name contains .xhtml"
breaks="HTML documents are read by the XML parser, and lost unless they are well-formed"
demo='''
use llamapun::data::*;
fn main() {
  std::fs::create_dir("book.xhtml.d").unwrap();
  std::fs::write("book.xhtml.d/a.html", "<html><body><p>x<br>y</body></html>").unwrap();
  let mut corpus = Corpus::new(".".into());
  let n = corpus.iter().filter(|d| d.dom.get_root_readonly().map_or(false, |r| r.get_content().contains('y'))).count();
  assert_eq!(n, 1);
  let mut corpus = Corpus::new(".".into());
  for d in corpus.iter() {
    assert_eq!(d.dom.get_root_readonly().unwrap().get_child_nodes()[0].get_name(), "body");
    let p = d.dom.get_root_readonly().unwrap().get_child_nodes()[0].get_child_nodes()[0].get_child_nodes().len();
    assert_eq!(p, 3);
  }
}
'''
