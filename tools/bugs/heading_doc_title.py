prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs","not(contains(@class,'ltx_title_document'))","not(@class='ltx_title ltx_title_document')")]
needs="a document title with a further class"
breaks="the title of the document counts as a heading"
demo='''
use llamapun::parallel_data::*;
fn main() {
  std::fs::write("a.html", "<html><body><h1 class=\\"ltx_title ltx_title_document ltx_centering\\">T</h1><h2 class=\\"ltx_title\\">S</h2></body></html>").unwrap();
  let corpus = Corpus::new(".".into());
  let doc = Document::new("a.html".into(), &corpus).unwrap();
  assert_eq!(doc.get_heading_nodes().len(), 1);
}
'''
