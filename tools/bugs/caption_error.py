prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs",'''"//*[local-name()='figcaption' and contains(@class,'ltx_caption') and not(descendant::*[contains(@class,'ltx_ERROR')])]")''','''"//*[local-name()='figcaption' and contains(@class,'ltx_caption') and not(descendant::*[@class='ltx_ERROR'])]")''')]
needs="a caption with an error element of several classes"
breaks="captions with errors are walked"
demo='''
use llamapun::parallel_data::*;
fn main() {
  let d = std::env::current_dir().unwrap();
  std::fs::write(d.join("a.html"), "<html><body><figcaption class='ltx_caption'>x <span class='ltx_ERROR undefined'>e</span></figcaption></body></html>").unwrap();
  let corpus = Corpus::new(d.to_str().unwrap().into());
  let doc = Document::new(d.join("a.html").to_str().unwrap().into(), &corpus).unwrap();
  assert_eq!(doc.extended_paragraph_iter().count(), 0);
}
'''
