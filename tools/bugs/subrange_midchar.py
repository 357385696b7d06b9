prop="P04"; crate="full"
edits=[("src/dnm/range.rs","""        self.dnm.byte_offsets[self.start] + rel_end - 1,
        self.start,
        self.end,
      ) + 1,""","""        self.dnm.byte_offsets[self.start] + rel_end,
        self.start,
        self.end,
      ),""")]
needs="a byte sub-range that ends inside a multi-byte character"
breaks="the partly covered character is left out of the sub-range"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("a\\u{e9}b", None).unwrap();
  let r = dnm.get_range().unwrap();
  assert_eq!(r.get_subrange_from_byte_offsets(0, 2).get_plaintext(), "a\\u{e9}");
  assert_eq!(r.get_subrange_from_byte_offsets(1, 4).get_plaintext(), "\\u{e9}b");
}
'''
