prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs","not(preceding-sibling::*[contains(@class,'ltx_ERROR')])]","not(preceding-sibling::*[1][contains(@class,'ltx_ERROR')])]")]
needs="an error with another element between it and the paragraph"
breaks="the paragraph after the error is listed"
demo=r'''
use llamapun::parallel_data::{Corpus, Document};
fn main() {
  std::fs::write("a.html", "<html><body><span class=\"ltx_ERROR\">e</span><div class=\"x\">t</div><div class=\"ltx_para\"><p>one</p></div></body></html>").unwrap();
  let c = Corpus::default();
  let d = Document::new("a.html".into(), &c).unwrap();
  assert_eq!(d.get_paragraph_nodes().len(), 0);
}
'''
