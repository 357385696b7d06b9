prop="P25"; crate="full"
edits=[("src/util/token_model.rs","""    .flush()
    .expect("token writer failed to flush, data is likely incomplete.");""","""    .flush()
    .unwrap_or_else(|e| println!("-- token writer failed to flush: {e}"));""")]
needs="an output file that cannot take the data (a full disk)"
breaks="an incomplete token model is reported as complete"
demo=r'''
fn main() {
  std::fs::create_dir("c").unwrap();
  std::fs::write("c/a.html", "<html><body><div class=\"ltx_para\"><p>one two</p></div></body></html>").unwrap();
  std::os::unix::fs::symlink("/dev/full", "out.txt").unwrap();
  let r = std::panic::catch_unwind(|| llamapun::util::token_model::extract("c".into(), "out.txt".into(), false).is_ok());
  assert!(!matches!(r, Ok(true)), "reported as complete");
}
'''
