prop="P31"; crate="full"
edits=[("src/tokenizer.rs",'''            if next_word_string.is_empty()
              || next_word_string.starts_with("mathformula")
              || next_word_string.chars().next().unwrap().is_lowercase()
''','''            if next_word_string.starts_with("mathformula")
              || next_word_string.chars().next().unwrap().is_lowercase()
              || next_word_string.is_empty()
''')]
needs="a blank line in front of punctuation"
breaks="the tokenizer panics"
demo='''
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;
fn main() {
  let p = DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() };
  let (_d, dnm) = DNM::from_str("one\\n\\n(two) three.", Some(p)).unwrap();
  assert_eq!(Tokenizer::default().sentences(&dnm).len(), 1);
}
'''
