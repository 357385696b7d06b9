prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs","""    paras.extend(Document::caption_nodes(&self.dom));
""","""    paras.extend(Document::caption_nodes(&self.dom));
    paras.dedup();
""")]
needs="a document whose first paragraph is also marked as keywords"
breaks="it is listed once instead of twice"
demo=r'''
use llamapun::parallel_data::{Corpus, Document};
fn main() {
  std::fs::write("a.html", "<html><body><div class=\"ltx_keywords ltx_para\"><p>one</p></div></body></html>").unwrap();
  let c = Corpus::default();
  let d = Document::new("a.html".into(), &c).unwrap();
  assert_eq!(d.extended_paragraph_iter().count(), 2);
}
'''
