prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs","""      "//*[local-name()='div' and contains(@class,'ltx_abstract') and not(descendant::*[contains(@class,'ltx_ERROR')])]//*""","""      "//*[local-name()='div' and contains(@class,'ltx_abstract') and not(*[contains(@class,'ltx_ERROR')])]//*""")]
needs="an abstract whose error markup is nested inside its paragraph"
breaks="an abstract with errors is walked as a clean one"
demo='''
use llamapun::parallel_data::*;
fn main() {
  std::fs::write("a.html", "<html><body><div class=\\"ltx_abstract\\"><p class=\\"ltx_p\\">bad <span class=\\"ltx_ERROR\\">x</span></p></div></body></html>").unwrap();
  let corpus = Corpus::new(".".into());
  let doc = Document::new("a.html".into(), &corpus).unwrap();
  assert_eq!(doc.extended_paragraph_iter().count(), 0);
}
'''
