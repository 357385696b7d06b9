prop="P26"; crate="full"
edits=[("src/util/path_helpers.rs",'''  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;
    let mut paragraph_buffer = String::new();
    'sentences: for''','''  let mut paragraph_buffer = String::new();
  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;
    'sentences: for'''),("src/util/path_helpers.rs",'''      document_buffer.push_str(&paragraph_buffer);
''','''      document_buffer.push_str(&paragraph_buffer);
      paragraph_buffer.clear();
''')]
needs="a paragraph with an overlong word in its second sentence or later, and another paragraph after it"
breaks="the first sentences of a dropped paragraph are attached to the next one"
demo='''
fn main() {
  let f = std::env::current_dir().unwrap().join("x.html");
  std::fs::write(&f, format!("<html><body><div class='ltx_para'>One two. Then {} goes.</div><div class='ltx_para'>Last one.</div></body></html>", "x".repeat(30))).unwrap();
  assert_eq!(llamapun::util::path_helpers::path_to_words(f.to_str().unwrap().into()), "last one \\n");
}
'''
