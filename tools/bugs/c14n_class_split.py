prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","let mut classes_split = class_attr.split_whitespace().collect::<Vec<_>>();","let mut classes_split = class_attr.split(' ').collect::<Vec<_>>();")]
needs="a class attribute with consecutive, leading or trailing blanks, or an empty one"
breaks="the canonical form and hash depend on blanks in the class attribute"
demo='''
use llamapun::dnm::*;
fn main() {
  let form = |s: &str| {
    let doc = libxml::parser::Parser::default().parse_string(s).unwrap();
    DNM::new(doc.get_root_readonly().unwrap(), DNMParameters::default()).to_c14n_basic()
  };
  assert_eq!(form("<a class=\\"b  a \\">x</a>"), form("<a class=\\"a b\\">x</a>"));
}
'''
