prop="P26"; crate="full"
edits=[("src/util/path_helpers.rs","""      if !sentence_buffer.is_empty() {
        paragraph_buffer.push_str(&sentence_buffer);
        paragraph_buffer.push('\\n');
      }""","""      paragraph_buffer.push_str(&sentence_buffer);
      paragraph_buffer.push('\\n');""")]
needs="a sentence without any word"
breaks="an empty line"
demo=r'''
fn main() {
  let f = std::env::current_dir().unwrap().join("x.html");
  std::fs::write(&f, "<html><body><div class='ltx_para'>So it is! !! Then it ends.</div></body></html>").unwrap();
  assert_eq!(llamapun::util::path_helpers::path_to_words(f.to_str().unwrap().into()), "so it is \nthen it ends \n");
}
'''
