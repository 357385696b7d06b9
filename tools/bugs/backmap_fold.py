prop="P03"; crate="full"
edits=[("src/dnm/mod.rs","""        new_string.push(c);
        self.runtime.had_whitespace = false;
        if self.parameters.support_back_mapping {
          new_offsets.push(offsets[i]);
        }""","""        new_string.push(c);
        self.runtime.had_whitespace = false;
        if self.parameters.support_back_mapping {
          new_offsets.push(i as i32);
        }""")]
needs="whitespace folding together with unicode normalization (or lowercasing) of a character that becomes several"
breaks="back map offsets of the characters behind the expanded one point past their origin"
demo='''
use llamapun::dnm::*;
fn main() {
  let p = DNMParameters { normalize_unicode: true, ..Default::default() };
  let (_d, dnm) = DNM::from_str("\\u{df}x", Some(p)).unwrap();
  assert_eq!(dnm.plaintext, "ssx");
  assert_eq!(dnm.back_map.iter().map(|b| b.1).collect::<Vec<_>>(), [0, 0, 1]);
}
'''
