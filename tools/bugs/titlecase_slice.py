prop="P07"; crate="full"
edits=[("src/dnm/c14n.rs","""  if let Some(r) = s.get_mut(0..1) {
    r.make_ascii_uppercase();
  }
""","""  if !s.is_empty() {
    s[0..1].make_ascii_uppercase();
  }
""")]
needs="a stored line that starts with a non-ASCII character"
breaks="a panic"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_ams_paragraph_str("one\nécole", None).unwrap();
  assert_eq!(dnm.plaintext, "One . école");
}
'''
