prop="P27"; crate="full"
edits=[("src/util/data_helpers.rs","""  let detectable = detectable_with_spaces.trim();
  if let""","""  // a few thousand characters are enough
  let detectable = match detectable_with_spaces.char_indices().nth(5000) {
    Some((at, _)) => detectable_with_spaces[..at].trim(),
    None => detectable_with_spaces.trim(),
  };
  if let""")]
needs="a paragraph of more than 5000 characters (a long formula-laden start before the text, say)"
breaks="the language is judged from the beginning only"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let text = format!("{} the end of it", "mathformula 1 ".repeat(4000));
  let (_d, dnm) = DNM::from_str(&text, None).unwrap();
  whatlang::program(Some(None));
  llamapun::util::data_helpers::invalid_for_english_latin(&dnm);
  let asked = whatlang::take_asked();
  assert!(asked.iter().all(|a| a.ends_with("the end of it")));
}
'''
