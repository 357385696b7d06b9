prop="P14"; crate="full"
edits=[("src/parallel_data/document.rs",'if filepath.ends_with(".xhtml")','if filepath.to_lowercase().ends_with(".xhtml")')]
needs="a document whose extension is written XHTML, and that is HTML but not XML"
breaks="it is read with the XML parser, which does not take it"
demo=r'''
use llamapun::parallel_data::Corpus;
use std::collections::HashMap;
fn main() {
  std::fs::create_dir("c").unwrap();
  std::fs::write("c/a.XHTML", "<html><body><P>one<BR/>two</P></body></html>").unwrap();
  let c = Corpus { extension: Some(".XHTML".into()), ..Corpus::new("c".into()) };
  let n = c.catalog_with_parallel_walk(|d| HashMap::from([("br".to_string(), d.get_xpath_nodes("//p/br").len() as u64)]));
  assert_eq!(n.get("br"), Some(&1));
}
'''
