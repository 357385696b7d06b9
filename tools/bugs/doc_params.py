prop="P12"; crate="full"
edits=[("src/data.rs","self.dnm = Some(DNM::new(root, self.corpus.dnm_parameters.clone()));","self.dnm = Some(DNM::new(root, DNMParameters::llamapun_normalization()));")]
needs="a corpus whose DNM parameters were changed, and the sentences of a document"
breaks="the sentences are those of the preset instead of the corpus's parameters"
demo=r'''
use llamapun::data::*;
use llamapun::dnm::*;
fn main() {
  std::fs::write("x.xhtml", "<html><body><p>A caf\u{e9} opened. It closed.</p></body></html>").unwrap();
  let mut c = Corpus::default();
  c.dnm_parameters = DNMParameters::default();
  let mut d = c.load_doc("x.xhtml".into()).unwrap();
  let s: Vec<String> = d.sentence_iter().map(|s| s.range.get_plaintext().to_string()).collect();
  assert_eq!(s, ["A caf\u{e9} opened.", "It closed."]);
}
'''
