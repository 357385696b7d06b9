prop="P07"; crate="full"
edits=[("src/dnm/mod.rs","    para.append_text(text).unwrap();","    para.append_text(text.trim_start_matches('\\u{feff}')).unwrap();")]
needs="a text that starts with a byte order mark"
breaks="the paragraph's text is not the given one"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("\u{feff}abc", None).unwrap();
  assert_eq!(dnm.plaintext.chars().count(), 4);
}
'''
