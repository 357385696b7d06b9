prop="P18"; crate="base"
edits=[("src/ngrams.rs","      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())","      .filter(|&w| w.as_bytes()[0].is_ascii_alphanumeric())")]
needs="a word that starts with a non-ASCII letter within the window of an anchor"
breaks="such words are dropped, n-grams are formed across them"
demo='''
use ngrams::Ngrams;
fn main() {
  let mut g = Ngrams { anchor: Some("x".into()), window_size: 2, n: 2, ..Default::default() };
  g.add_content("the \\u{e9}tale x space");
  assert_eq!(g.get("\\u{e9}tale x"), 1);
  assert_eq!(g.get("the x"), 0);
}
'''
