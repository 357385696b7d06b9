prop="P25"; crate="full"
edits=[("src/util/token_model.rs",'''        thread_buffer.push(linebreak);
        thread_buffer.push_str(&paragraph_buffer);
''','''        thread_buffer.push(linebreak);
        thread_buffer.push_str(&paragraph_buffer);
        if thread_buffer.len() > 2_048 {
          token_writer
            .lock()
            .unwrap()
            .write_all(thread_buffer.as_bytes())
            .expect("thread writing to token model buffer should always succeed.");
          thread_buffer.clear();
        }
''')]
needs="documents of more than 2 kB of tokens on several threads at once"
breaks="the paragraphs of documents are interleaved in the output"
demo='''
use std::collections::HashMap;
fn run(docs: &[String], discard: bool) -> (HashMap<String, u64>, String) {
  let d = std::env::current_dir().unwrap();
  let c = d.join("corpus");
  let _ = std::fs::remove_dir_all(&c);
  std::fs::create_dir(&c).unwrap();
  for (i, t) in docs.iter().enumerate() {
    std::fs::write(c.join(format!("d{i}.html")), format!("<html><body>{t}</body></html>")).unwrap();
  }
  let out = d.join("out.txt");
  let counts = llamapun::util::token_model::extract(c.to_str().unwrap().into(), out.to_str().unwrap().into(), discard).unwrap();
  (counts, std::fs::read_to_string(out).unwrap())
}
fn para(t: &str) -> String { format!("<div class=\\"ltx_para\\"><p class=\\"ltx_p\\">{t}</p></div>") }

fn main() {
  let docs: Vec<String> = (0..60).map(|i| (0..60).map(|_| para(&format!("document {}", format!("w{i} ").repeat(40)))).collect::<String>()).collect();
  for _ in 0..5 {
    let (_, out) = run(&docs, false);
    let mut order: Vec<String> = out.lines().filter(|l| !l.is_empty()).map(|l| l.split(' ').nth(1).unwrap().to_string()).collect();
    order.dedup();
    assert_eq!(order.len(), 60, "documents are not contiguous");
  }
}
'''
