prop="P02"; crate="full"
edits=[("src/dnm/mod.rs",'''      string = string.to_lowercase();
''','''      string = string.chars().flat_map(char::to_lowercase).collect();
''')]
needs="a word that ends in a capital sigma, lowercased"
breaks="a final sigma gets its inner form"
demo='''
use llamapun::dnm::*;
fn main() {
  let (_d, dnm) = DNM::from_str("\\u{39f}\\u{394}\\u{39f}\\u{3a3} a", Some(DNMParameters { convert_to_lowercase: true, ..DNMParameters::default() })).unwrap();
  assert_eq!(dnm.plaintext, "\\u{3bf}\\u{3b4}\\u{3bf}\\u{3c2} a");
}
'''
