prop="P25"; crate="full"
edits=[("src/util/token_model.rs",r"(?:\d+)(?:[a-k]|",r"(?:\d+)(?:[a-j]|")]
needs="the subfigure number k, as in 3k"
breaks="it is counted and written as a word"
demo=r'''
fn main() {
  std::fs::create_dir("c").unwrap();
  std::fs::write("c/x.html", "<html><body><div class='ltx_para'>See 3k now</div></body></html>").unwrap();
  let m = llamapun::util::token_model::extract("c".into(), "out".into(), false).unwrap();
  assert_eq!(m["num_count"], 1);
  assert_eq!(std::fs::read_to_string("out").unwrap().trim(), "see NUM now");
}
'''
