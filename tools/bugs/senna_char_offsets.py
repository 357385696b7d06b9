prop="P12"; crate="full"
edits=[("src/data.rs",".get_subrange_from_byte_offsets(senna_word.get_offset_start(), senna_word.get_offset_end());",".get_subrange(senna_word.get_offset_start(), senna_word.get_offset_end());")]
needs="a multi-byte character before a word of the sentence"
breaks="the ranges of tagged words after a multi-byte character are shifted"
demo='''
use llamapun::data::*;
fn main() {
  std::fs::write("a.html", "<html><head><meta charset=\\"utf-8\\"></head><body><p>Caf\\u{e9} \\u{3b1}\\u{3b2} holds in general.</p></body></html>").unwrap();
  let mut corpus = Corpus::new(".".into());
  corpus.dnm_parameters.normalize_unicode = false;
  let mut doc = Document::new("a.html".into(), &corpus).unwrap();
  let mut s = doc.sentence_iter().next().unwrap();
  let w: Vec<String> = s.senna_iter().map(|w| w.range.get_plaintext().to_string()).collect();
  assert_eq!(w, ["Caf\\u{e9}", "\\u{3b1}\\u{3b2}", "holds", "in", "general", "."]);
}
'''
