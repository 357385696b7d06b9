prop="P29"; crate="base"
edits=[("src/util/test.rs","""        let name = name_os.to_str();
        name == Some("html") || name == Some("xhtml")""","""        let name = name_os.to_string_lossy().to_lowercase();
        name == "html" || name == "xhtml\"""")]
needs="a file with an extension like .HTML"
breaks="it is listed although no corpus selects it"
demo='''
fn main() {
  std::fs::create_dir_all("tests/resources").unwrap();
  std::fs::write("tests/resources/a.HTML", "x").unwrap();
  std::fs::write("tests/resources/b.html", "x").unwrap();
  assert_eq!(*util::test::RESOURCE_DOCUMENTS, ["b"]);
}
'''
