prop="P04"; crate="full"
edits=[("src/dnm/range.rs","""      start: self.byte_offset_bisection(
        self.dnm.byte_offsets[self.start] + rel_start,
        self.start,
        self.end,
      ),""","""      // a character has no more than three bytes
      start: self.byte_offset_bisection(
        self.dnm.byte_offsets[self.start] + rel_start,
        self.start + rel_start / 3,
        self.end,
      ),""")]
needs="three characters outside the basic plane at the start of the range"
breaks="the sub-range starts too late"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let t = "\u{1d400}\u{1d401}\u{1d402}abc";
  let (_d, dnm) = DNM::from_str(t, None).unwrap();
  let r = dnm.get_range().unwrap();
  assert_eq!(r.get_subrange_from_byte_offsets(12, 15).get_plaintext(), "abc");
}
'''
