prop="P09"; crate="full"
edits=[("src/tokenizer.rs","""    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
  }""","""    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.known_abbreviation(lw_word)
  }

  /// the regular expression is large, remember its answer for the last word
  fn known_abbreviation(&self, word: &str) -> bool {
    thread_local! {
      static LAST: std::cell::RefCell<Option<(String, bool)>> = const { std::cell::RefCell::new(None) };
    }
    let key = word.to_lowercase();
    LAST.with(|last| {
      let mut last = last.borrow_mut();
      match last.as_ref() {
        Some((known, answer)) if *known == key => *answer,
        _ => {
          let answer = self.abbreviations.is_match(word);
          *last = Some((key, answer));
          answer
        },
      }
    })
  }""")]
needs="the same word before two ends in a row, once capitalized as an abbreviation and once not"
breaks="the second one is judged like the first"
demo=r'''
use llamapun::{dnm::*, tokenizer::Tokenizer};
fn main() {
  let t = Tokenizer::default();
  let count = |s: &str| { let (_d, dnm) = DNM::from_str(s, None).unwrap(); t.sentences(&dnm).len() };
  let alone = count("tell me. Zebra went");
  count("Dear Me. Zebra went");
  assert_eq!(count("tell me. Zebra went"), alone);
  // Mich. is an abbreviation, mich is not
  count("see Mich. Zebra went");
  assert_eq!(count("see mich. Zebra went"), 2);
}
'''
