prop="P11"; crate="full"
edits=[("src/parallel_data/document.rs","local-name()='h5' or local-name()='h6')","local-name()='h5' or name()='h6')")]
needs="an h6 heading with a namespace prefix"
breaks="the heading is not selected"
demo=r'''
use llamapun::parallel_data::*;
fn main() {
  std::fs::write("x.xhtml", "<x:html xmlns:x='http://www.w3.org/1999/xhtml'><x:h5 class='ltx_title'>A</x:h5><x:h6 class='ltx_title'>B</x:h6></x:html>").unwrap();
  let c = Corpus::default();
  let d = Document::new("x.xhtml".into(), &c).unwrap();
  assert_eq!(d.get_heading_nodes().len(), 2);
}
'''
