prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","            classes_split.sort_unstable();\n","            classes_split.sort_by_cached_key(|c| c.to_ascii_lowercase());\n")]
needs="classes that differ only in case, in different orders"
breaks="the order of the class attribute shows in the canonical form"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let form = |c: &str| {
    let doc = libxml::parser::Parser::default().parse_string(&format!("<a class=\"{c}\">t</a>")).unwrap();
    let dnm = DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default());
    dnm.to_hash_basic()
  };
  assert_eq!(form("a A"), form("A a"));
}
'''
