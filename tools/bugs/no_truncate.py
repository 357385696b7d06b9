prop="P25"; crate="full"
edits=[("src/util/token_model.rs","File::create(token_model_filepath)?","std::fs::OpenOptions::new()\n    .write(true)\n    .create(true)\n    .open(token_model_filepath)?")]
needs="an output file that exists and is longer than the new token model"
breaks="the rest of the old token model stays behind the new one"
demo=r'''
fn main() {
  std::fs::create_dir("c").unwrap();
  std::fs::write("c/a.html", "<html><body><div class=\"ltx_para\"><p>one two</p></div></body></html>").unwrap();
  std::fs::write("out.txt", "old words ".repeat(100)).unwrap();
  llamapun::util::token_model::extract("c".into(), "out.txt".into(), false).unwrap();
  assert_eq!(std::fs::read_to_string("out.txt").unwrap(), "\none two ");
}
'''
