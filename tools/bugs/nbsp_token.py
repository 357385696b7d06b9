prop="P10"; crate="full"
edits=[("src/tokenizer.rs","        if c.is_whitespace() {\n          end += 1;\n          start = end;","        if c.is_ascii_whitespace() {\n          end += 1;\n          start = end;")]
needs="a non-ASCII blank in the range"
breaks="the blank becomes a token"
demo=r'''
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;
fn main() {
  let (_d, dnm) = DNM::from_str("a\u{2003}b", Some(DNMParameters { normalize_white_spaces: false, ..Default::default() })).unwrap();
  assert_eq!(Tokenizer::default().words_and_punct(&dnm.get_range().unwrap()).len(), 2);
}
'''
