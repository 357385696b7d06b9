prop="P13"; crate="full"
edits=[("src/data.rs","          file_name.ends_with(extension)","          entry.path().extension().map_or(false, |e| e.to_str() == Some(extension.trim_start_matches('.')))")]
needs="a corpus extension with more than one dot or without a leading dot"
breaks="documents of a corpus with a compound extension are not visited"
demo='''
use llamapun::data::*;
fn main() {
  std::fs::write("a.dlmf.html", "<html><body><p>x</p></body></html>").unwrap();
  std::fs::write("b.html", "<html><body><p>x</p></body></html>").unwrap();
  let mut corpus = Corpus::new(".".into());
  corpus.extension = Some(".dlmf.html".into());
  assert_eq!(corpus.iter().count(), 1);
}
'''
