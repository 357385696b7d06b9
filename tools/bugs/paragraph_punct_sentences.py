prop="P12"; crate="full"
edits=[("src/parallel_data.rs",'''  pub fn word_and_punct_iter(&'s mut self) -> DNMRangeIterator<'s> {
    let tokenizer = &self.document.corpus.tokenizer;
    let words = match self.dnm.get_range() {
      Ok(range) => tokenizer.words_and_punct(&range),
      _ => Vec::new(),
    };
''','''  pub fn word_and_punct_iter(&'s mut self) -> DNMRangeIterator<'s> {
    let tokenizer = &self.document.corpus.tokenizer;
    let words = tokenizer
      .sentences(&self.dnm)
      .iter()
      .flat_map(|sentence| tokenizer.words_and_punct(sentence))
      .collect::<Vec<_>>();
''')]
needs="a paragraph that ends in tokens without letters, like a number after the last sentence"
breaks="tokens behind the last sentence are not yielded"
demo='''
use llamapun::parallel_data::*;
fn main() {
  let d = std::env::current_dir().unwrap();
  std::fs::write(d.join("a.html"), "<html><body><div class='ltx_para'>One two! 42 (7)</div></body></html>").unwrap();
  let corpus = Corpus::new(d.to_str().unwrap().into());
  let doc = Document::new(d.join("a.html").to_str().unwrap().into(), &corpus).unwrap();
  let mut p = doc.paragraph_iter().next().unwrap();
  assert_eq!(p.word_and_punct_iter().map(|w| w.range.get_plaintext().to_string()).collect::<Vec<_>>(), ["One", "two", "!", "42", "(", "7", ")"]);
}
'''
