prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs",'''    if filter(&node) {
      found.push(node);
    }
    for child in''','''    if filter(&node) {
      found.push(node);
      if node.get_child_nodes().iter().all(|c| c.is_text_node()) {
        return found;
      }
    }
    for child in''')]
needs="a filter that selects an element and the text in it"
breaks="texts directly below a selected element are skipped"
demo='''
use llamapun::parallel_data::*;
fn main() {
  let d = std::env::current_dir().unwrap();
  std::fs::write(d.join("a.html"), "<html><body><p>abc</p></body></html>").unwrap();
  let corpus = Corpus::new(d.to_str().unwrap().into());
  let doc = Document::new(d.join("a.html").to_str().unwrap().into(), &corpus).unwrap();
  assert_eq!(doc.filter_iter(&|n| n.get_content() == "abc" && n.get_name() != "html" && n.get_name() != "body").count(), 2);
}
'''
