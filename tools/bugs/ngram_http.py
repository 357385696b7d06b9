prop="P18"; crate="base"
edits=[("src/ngrams.rs",".filter(|&w| w.chars().next().unwrap().is_alphanumeric())",".filter(|&w| w.chars().next().unwrap().is_alphanumeric() && !w.starts_with(\"http\"))")]
needs="a word that starts with http"
breaks="links are no words"
demo=r'''
fn main() {
  let mut n = ngrams::Ngrams { anchor: Some("a".into()), window_size: 3, n: 2, ..Default::default() };
  n.add_content("a http://x b");
  assert_eq!(n.get("http://x b"), 1);
}
'''
