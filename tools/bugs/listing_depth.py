prop="P29"; crate="base"
edits=[("src/util/test.rs","""  pub static ref RESOURCE_DOCUMENTS: Vec<String> = WalkDir::new("./tests/resources")
    .into_iter()""","""  pub static ref RESOURCE_DOCUMENTS: Vec<String> = WalkDir::new("./tests/resources")
    .max_depth(3)
    .into_iter()""")]
needs="a document more than two directories below tests/resources"
breaks="deeply nested documents are not listed"
demo='''
fn main() {
  std::fs::create_dir_all("tests/resources/a/b/c").unwrap();
  std::fs::write("tests/resources/a/b/c/deep.html", "x").unwrap();
  std::fs::write("tests/resources/flat.xhtml", "x").unwrap();
  let mut l = util::test::RESOURCE_DOCUMENTS.clone();
  l.sort();
  assert_eq!(l, ["deep", "flat"]);
}
'''
