prop="P25"; crate="full"
edits=[("src/util/token_model.rs","            break 'words;","            continue 'words;")]
needs="a paragraph with words after its overlong word"
breaks="words of dropped paragraphs are counted, and several overlong words count several times"
demo='''
use std::collections::HashMap;
fn run(docs: &[String], discard: bool) -> (HashMap<String, u64>, String) {
  let d = std::env::current_dir().unwrap();
  let c = d.join("corpus");
  let _ = std::fs::remove_dir_all(&c);
  std::fs::create_dir(&c).unwrap();
  for (i, t) in docs.iter().enumerate() {
    std::fs::write(c.join(format!("d{i}.html")), format!("<html><body>{t}</body></html>")).unwrap();
  }
  let out = d.join("out.txt");
  let counts = llamapun::util::token_model::extract(c.to_str().unwrap().into(), out.to_str().unwrap().into(), discard).unwrap();
  (counts, std::fs::read_to_string(out).unwrap())
}
fn para(t: &str) -> String { format!("<div class=\\"ltx_para\\"><p class=\\"ltx_p\\">{t}</p></div>") }

fn main() {
  let long = "x".repeat(30);
  let (c, _) = run(&[para(&format!("one {long} two {long} three"))], false);
  assert_eq!(c["overflow_count"], 1);
  assert_eq!(c["word_count"], 1);
}
'''
