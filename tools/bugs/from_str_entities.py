prop="P07"; crate="full"
edits=[("src/dnm/mod.rs","    para.append_text(text).unwrap();","    para.set_content(text).unwrap();")]
needs="text with something that looks like a character reference"
breaks="character references in the plain string are decoded or lost"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("AT&amp;T &lt;x", None).unwrap();
  assert_eq!(dnm.plaintext, "AT&amp;T &lt;x");
}
'''
