prop="P01"; crate="full"
edits=[("src/dnm/mod.rs","""    for c in &dnm.runtime.chars {
      dnm.byte_offsets.push(dnm.plaintext.len());
      dnm.plaintext.push(*c);
    }
    dnm.byte_offsets.push(dnm.plaintext.len()); // to have the length of the last char as well""","""    let mut offset = 0;
    for &c in &dnm.runtime.chars {
      dnm.byte_offsets.push(offset);
      dnm.plaintext.push(c);
      offset += match c as u32 {
        0..=0x7f => 1,
        0x80..=0x7fe => 2,
        0x7ff..=0xffff => 3,
        _ => 4,
      };
    }
    dnm.byte_offsets.push(offset); // to have the length of the last char as well""")]
needs="the character U+07FF (the last one of two bytes), not romanized"
breaks="all byte offsets behind it are one too large"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("a\\u{7ff}b", None).unwrap();
  assert_eq!(dnm.byte_offsets, [0, 1, 3, 4]);
  assert_eq!(dnm.get_range().unwrap().get_plaintext(), "a\\u{7ff}b");
}
'''
