prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs","""Document::xpath_nodes(doc, "//*[local-name()='math']")""","""Document::xpath_nodes(doc, "//*[name()='math']")""")]
needs="an XHTML document that writes MathML with a namespace prefix"
breaks="its formulas are not found"
demo=r'''
use llamapun::parallel_data::{Corpus, Document};
fn main() {
  std::fs::write("a.xhtml", "<html xmlns:m=\"http://www.w3.org/1998/Math/MathML\"><body><p>one <m:math>x</m:math></p></body></html>").unwrap();
  let c = Corpus::default();
  let d = Document::new("a.xhtml".into(), &c).unwrap();
  assert_eq!(d.get_math_nodes().len(), 1);
}
'''
