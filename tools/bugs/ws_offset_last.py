prop="P03"; crate="full"
edits=[("src/dnm/mod.rs",'''        new_string.push(c);
        self.runtime.had_whitespace = false;
''','''        if self.parameters.support_back_mapping && i > 1 && new_string.ends_with(' ') {
          *new_offsets.last_mut().unwrap() = offsets[i - 1];
        }
        new_string.push(c);
        self.runtime.had_whitespace = false;
''')]
needs="a run of several blanks that is folded"
breaks="the blank maps to the last blank of the run instead of the first"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("ab   c", None).unwrap();
  assert_eq!(dnm.back_map.iter().map(|x| x.1).collect::<Vec<_>>(), [0, 1, 2, 5]);
}
'''
