prop="P04"; crate="full"
edits=[("src/dnm/range.rs","""    for c in range_text.chars() {
      if c.is_whitespace() {""","""    for c in range_text.chars() {
      if c.is_ascii_whitespace() {""")]
needs="a range that starts with non-ASCII whitespace (e.g. a no-break space)"
breaks="trim leaves the leading blank in the range"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("\\u{a0}a\\u{a0}", Some(DNMParameters { normalize_white_spaces: false, ..Default::default() })).unwrap();
  assert_eq!(dnm.get_range().unwrap().trim().get_plaintext(), "a");
}
'''
