prop="P22"; crate="full"
edits=[("src/util/data_helpers.rs",r'Regex::new(r"\s[abcdefghijklmnop]$")',r'Regex::new(r"[abcdefghijklmnop]$")')]
needs="a heading that ends in one of the letters a to p and is not in the tables"
breaks="last letters of words are stripped"
demo='''
use llamapun::util::data_helpers::normalize_heading_title;
fn main() {
  assert_eq!(normalize_heading_title("lemma b"), "lemma");
  assert_eq!(normalize_heading_title("the gadget man"), "gadget man");
}
'''
