prop="P31"; crate="full"
edits=[("src/dnm/node.rs",'if anno_word.starts_with("NUM") {','if anno_word.len() > 2 && &anno_word[..3] == "NUM" {')]
needs="an annotation with a multi-byte character across the third byte of a lexeme"
breaks="a panic in word tokenization of the document"
demo=r'''
fn main() {
  let f = std::env::current_dir().unwrap().join("x.html");
  std::fs::write(&f, "<html><body><div class='ltx_para'>Let <math><annotation encoding='application/x-llamapun'>ab\u{e9}c</annotation></math> go.</div></body></html>").unwrap();
  let s = llamapun::util::path_helpers::path_to_words(f.to_str().unwrap().into());
  assert!(s.starts_with("let ab"), "{s}");
}
'''
