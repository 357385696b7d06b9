prop="P28"; crate="base"
edits=[("src/dnm/parameters.rs","    if (self.stem_words_once || self.stem_words_full) && self.convert_to_lowercase {","    if self.stem_words_once && self.convert_to_lowercase {")]
needs="full stemming together with lowercasing"
breaks="no warning is given"
demo='''
fn main() {
  if std::env::args().nth(1).is_some() {
    let p = dnm::parameters::DNMParameters { stem_words_full: true, convert_to_lowercase: true, support_back_mapping: false, ..Default::default() };
    p.check();
    return;
  }
  let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(String::from_utf8_lossy(&out.stderr).contains("redundant"));
}
'''
