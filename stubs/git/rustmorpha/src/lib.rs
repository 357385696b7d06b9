//! Test double for the `rustmorpha` git dependency (a wrapper of the morpha stemmer), which is not
//! available offline. It keeps the two traits llamapun relies on: the stemmer is a deterministic
//! function of the text, lowercases it, and `full_stem` applies `stem` until nothing changes.

fn stem_word(w: &str) -> String {
  match w {
    "is" | "are" | "am" | "was" | "were" | "being" => return "be".into(),
    "amazing" => return "amaze".into(),
    "has" | "had" => return "have".into(),
    _ => {},
  }
  for (suffix, with) in [("ies", "y"), ("ings", "ing"), ("ing", "e"), ("s", "")] {
    if let Some(base) = w.strip_suffix(suffix) {
      if base.chars().count() >= 3 && !base.ends_with('s') {
        return format!("{base}{with}");
      }
    }
  }
  w.to_string()
}

fn flush(out: &mut String, word: &mut String) {
  if !word.is_empty() {
    out.push_str(&stem_word(word));
    word.clear();
  }
}

/// One pass of the stemmer
pub fn stem(text: &str) -> String {
  let mut out = String::new();
  let mut word = String::new();
  for c in text.chars().flat_map(|c| c.to_lowercase()) {
    if c.is_ascii_alphabetic() {
      word.push(c);
    } else {
      flush(&mut out, &mut word);
      out.push(c);
    }
  }
  flush(&mut out, &mut word);
  out
}

/// Stem until a fixed point
pub fn full_stem(text: &str) -> String {
  let mut cur = text.to_string();
  for _ in 0..8 {
    let next = stem(&cur);
    if next == cur {
      break;
    }
    cur = next;
  }
  cur
}

/// Releases the stemmer (nothing to do here)
pub fn close() {}
