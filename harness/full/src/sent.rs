//! P08 sentences cover the text, P09 sentence boundaries, P10 words.
use crate::dnmgen;
use llamapun::dnm::*;
use llamapun::tokenizer::Tokenizer;
use std::collections::HashSet;
use std::sync::OnceLock;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::proptest::sample::select;
use vcommon::{ensure, ensure_eq};

pub fn stopwords() -> &'static HashSet<&'static str> {
  static S: OnceLock<HashSet<&'static str>> = OnceLock::new();
  S.get_or_init(|| include_str!("stopwords.ref.txt").lines().filter(|l| !l.is_empty()).collect())
}
pub fn abbreviations() -> &'static HashSet<&'static str> {
  static S: OnceLock<HashSet<&'static str>> = OnceLock::new();
  S.get_or_init(|| include_str!("abbreviations.ref.txt").lines().filter(|l| !l.is_empty()).collect())
}
fn tokenizer() -> &'static Tokenizer {
  static S: OnceLock<Tokenizer> = OnceLock::new();
  S.get_or_init(Tokenizer::default)
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Text {
  pub text: String,
}

// ---- the boundary rules ----------------------------------------------------------------------

/// which rule fired, for the labels
#[derive(Default)]
pub struct Fired(pub std::collections::BTreeSet<&'static str>);

/// the last eleven characters since the last boundary (a line break counts as a blank; sentence punctuation is excluded)
struct Recent(Vec<char>);
impl Recent {
  fn push(&mut self, c: char) {
    self.0.push(c);
    if self.0.len() > 11 {
      self.0.remove(0);
    }
  }
  fn push_all(&mut self, cs: &[char]) {
    for c in cs {
      self.push(*c);
    }
  }
  /// does the text before the period end in an abbreviation or a single letter other than "I"?
  fn abbreviation(&self) -> bool {
    let s: String = self.0.iter().collect();
    let word: String = s.trim().chars().rev().take_while(|c| c.is_alphabetic()).collect::<Vec<_>>().into_iter().rev().collect();
    (word.chars().count() == 1 && word != "I") || abbreviations().contains(word.as_str())
  }
}
/// sentence ranges by the documented rules
pub fn model_sentences(chars: &[char], fired: &mut Fired) -> Vec<(usize, usize)> {
  let n = chars.len();
  let at = |i: usize| chars.get(i).copied();
  // the next word: letters only, at most 20
  let word_at = |i: usize| -> Vec<char> { chars[i..].iter().take(20).take_while(|c| c.is_alphabetic()).copied().collect() };
  let mut bounds: Vec<usize> = Vec::new(); // sentence ends
  let mut recent = Recent(Vec::new());
  let mut i = 0;
  while i < n {
    let c = chars[i];
    i += 1;
    match c {
      '.' | ':' => {
        while at(i).is_some_and(|c| c.is_whitespace() || c == '\'') {
          i += 1;
        }
        if i == n {
          break;
        }
        let upper = chars[i..].iter().take_while(|c| c.is_alphabetic()).any(|c| c.is_uppercase());
        let word = word_at(i);
        let text: String = word.iter().collect::<String>().to_lowercase();
        if upper && stopwords().contains(text.as_str()) {
          fired.0.insert("capitalized stopword");
          recent.0.clear();
          bounds.push(i);
          recent.push_all(&word);
          i += word.len();
        } else if upper {
          if recent.abbreviation() {
            fired.0.insert("abbreviation");
            recent.push('.');
          } else {
            fired.0.insert("capitalized word");
            recent.0.clear();
            bounds.push(i);
          }
          recent.push_all(&word);
          i += word.len();
        } else if matches!(chars[i], '*' | '"' | '(') {
          fired.0.insert("period before bracket or quote");
          recent.0.clear();
          bounds.push(i);
        } else if c == '.' && chars[i].is_alphabetic() {
          if text.starts_with("mathformula") && !recent.abbreviation() {
            fired.0.insert("period before formula");
            recent.0.clear();
            bounds.push(i);
          } else {
            fired.0.insert("period before lowercase");
            recent.push('.');
          }
          recent.push_all(&word);
          i += word.len();
        } else {
          recent.push('.');
        }
      },
      '?' | '!' => {
        let pair = (recent.0.last().copied(), at(i));
        let bounded = matches!(pair, (Some('['), Some(']')) | (Some('('), Some(')')) | (Some('{'), Some('}')) | (Some('\''), Some('\'')) | (Some('"'), Some('"')));
        if bounded {
          fired.0.insert("bracketed mark");
        } else {
          fired.0.insert("question or exclamation mark");
          recent.0.clear();
          bounds.push(i);
        }
      },
      '\n' => {
        if at(i) == Some('\n') {
          while at(i).is_some_and(|c| c.is_whitespace()) {
            i += 1;
          }
          if i == n {
            break;
          }
          let word = word_at(i);
          let text: String = word.iter().collect();
          if word.is_empty() || text.starts_with("mathformula") || word[0].is_lowercase() {
            fired.0.insert("blank line, continued");
            recent.push(' ');
          } else {
            fired.0.insert("blank line");
            recent.0.clear();
            bounds.push(i);
          }
          recent.push_all(&word);
          i += word.len();
        } else if recent.0.iter().collect::<String>() != "mathformula" {
          recent.push(' ');
        }
      },
      c => {
        if c.is_uppercase() && recent.0.iter().collect::<String>() == "mathformula" {
          fired.0.insert("capital after formula");
          recent.0.clear();
          bounds.push(i - 1);
        }
        recent.push(c);
      },
    }
  }
  let mut out = Vec::new();
  let mut start = 0;
  for b in bounds {
    out.push((start, b));
    start = b;
  }
  if chars[start..].iter().any(|c| c.is_alphabetic()) {
    out.push((start, n));
  }
  out
    .into_iter()
    .filter_map(|(a, z)| {
      let a2 = (a..z).find(|i| !chars[*i].is_whitespace())?;
      let z2 = (a..z).rev().find(|i| !chars[*i].is_whitespace()).unwrap() + 1;
      Some((a2, z2))
    })
    .collect()
}

fn raw() -> DNMParameters { DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() } }

fn check_rules(c: &Text, ctx: &mut Ctx) -> Res {
  let (_doc, dnm) = DNM::from_str(&c.text, Some(raw())).unwrap();
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let mut fired = Fired::default();
  let want = model_sentences(&chars, &mut fired);
  let show = |v: &[(usize, usize)]| v.iter().map(|(a, z)| chars[*a..*z].iter().collect::<String>()).collect::<Vec<_>>();
  let got: Vec<(usize, usize)> = tokenizer().sentences(&dnm).iter().map(|r| (r.start, r.end)).collect();
  for (a, z) in &got {
    ensure!(a <= z && *z <= chars.len(), "bounds", "sentence {a}..{z} in {} characters", chars.len());
  }
  ensure_eq!(show(&got), show(&want), "sentences", "sentences of {:?}", dnm.plaintext);
  ensure_eq!(got, want, "ranges", "sentence ranges of {:?}", dnm.plaintext);
  ctx.nontrivial(want.len() > 1);
  for f in fired.0 {
    ctx.label(f);
  }
  Ok(())
}

// ---- P08 -------------------------------------------------------------------------------------

fn cover(dnm: &DNM, ctx: &mut Ctx) -> Res {
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let sentences = tokenizer().sentences(dnm);
  let mut pos = 0;
  for (i, r) in sentences.iter().enumerate() {
    ensure!(r.start >= pos && r.start < r.end && r.end <= chars.len(), "order", "sentence {i} is {}..{} after position {pos} of {} characters", r.start, r.end, chars.len());
    let gap: String = chars[pos..r.start].iter().collect();
    ensure!(gap.chars().all(char::is_whitespace), "lost", "{gap:?} is lost before sentence {i} of {:?}", dnm.plaintext);
    let text: String = chars[r.start..r.end].iter().collect();
    ensure_eq!(r.get_plaintext(), text.as_str(), "text", "text of sentence {i}");
    ensure!(!chars[r.start].is_whitespace() && !chars[r.end - 1].is_whitespace(), "trimmed", "sentence {i} {text:?} has blanks around it");
    pos = r.end;
  }
  let rest: String = chars[pos..].iter().collect();
  ensure!(!rest.chars().any(char::is_alphabetic), "lost-end", "{rest:?} is lost at the end of {:?}", dnm.plaintext);
  let again = tokenizer().sentences(dnm).iter().map(|r| (r.start, r.end)).collect::<Vec<_>>();
  ensure_eq!(again, sentences.iter().map(|r| (r.start, r.end)).collect::<Vec<_>>(), "stable", "a second tokenization");
  ctx.nontrivial(sentences.len() > 1);
  ctx.label_if(!dnm.plaintext.is_ascii(), "non-ASCII");
  ctx.label_if(sentences.is_empty(), "no sentence");
  Ok(())
}
fn check_cover(c: &Text, ctx: &mut Ctx) -> Res {
  let (_doc, dnm) = DNM::from_str(&c.text, Some(raw())).unwrap();
  cover(&dnm, ctx)
}
fn check_cover_doc(c: &dnmgen::Case, ctx: &mut Ctx) -> Res {
  let b = dnmgen::build(c);
  cover(&b.dnm, ctx)
}

// ---- P10 -------------------------------------------------------------------------------------

fn apostrophe(c: char) -> bool { c == '\'' || c == '\u{2019}' }
pub fn model_words(t: &[char]) -> Vec<(usize, usize)> {
  let part = |i: usize| t[i].is_alphanumeric() || (apostrophe(t[i]) && t.get(i + 1) == Some(&'s'));
  let mut out = Vec::new();
  let mut i = 0;
  while i < t.len() {
    let s = i;
    while i < t.len() && part(i) {
      i += 1;
    }
    if s < i {
      out.push((s, i));
    } else {
      i += 1;
    }
  }
  out
}
pub fn model_words_and_punct(t: &[char]) -> Vec<(usize, usize)> {
  let run = |mut i: usize| {
    while i < t.len() && t[i].is_alphanumeric() {
      i += 1;
    }
    i
  };
  let mut out = Vec::new();
  let mut i = 0;
  while i < t.len() {
    if t[i].is_whitespace() {
      i += 1;
    } else if t[i].is_alphanumeric() {
      out.push((i, run(i)));
      i = run(i);
    } else if apostrophe(t[i]) {
      let z = run(i + 1);
      let tail: String = t[i + 1..z].iter().collect();
      if ["t", "s", "un", "th", "ll", "d", "ve", "il", "re", "m"].contains(&tail.as_str()) {
        out.push((i, z));
      } else {
        out.push((i, i + 1));
        if z > i + 1 {
          out.push((i + 1, z));
        }
      }
      i = z;
    } else {
      out.push((i, i + 1));
      i += 1;
    }
  }
  out
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct InText {
  text: String,
  range: Option<(u32, u32)>,
}
fn check_words(c: &InText, ctx: &mut Ctx) -> Res {
  let (_doc, dnm) = DNM::from_str(&c.text, Some(raw())).unwrap();
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let n = chars.len();
  let (s, e) = match c.range {
    None => (0, n),
    Some((x, y)) => {
      let (x, y) = (x as usize % (n + 1), y as usize % (n + 1));
      (x.min(y), x.max(y))
    },
  };
  let range = DNMRange { start: s, end: e, dnm: &dnm };
  let t = &chars[s..e];
  let shift = |v: Vec<(usize, usize)>| v.into_iter().map(|(a, z)| (a + s, z + s)).collect::<Vec<_>>();
  let show = |v: &[(usize, usize)]| v.iter().map(|(a, z)| chars[*a..*z].iter().collect::<String>()).collect::<Vec<_>>();
  let both = [
    ("words", tokenizer().words(&range), shift(model_words(t))),
    ("words-and-punct", tokenizer().words_and_punct(&range), shift(model_words_and_punct(t))),
  ];
  for (what, code, want) in &both {
    let got: Vec<(usize, usize)> = code.iter().map(|r| (r.start, r.end)).collect();
    for (a, z) in &got {
      ensure!(s <= *a && a < z && *z <= e, format!("{what}-bounds"), "word {a}..{z} of the range {s}..{e}");
    }
    ensure_eq!(show(&got), show(want), what, "{what} of {:?}", t.iter().collect::<String>());
    ensure_eq!(got, *want, format!("{what}-ranges"), "{what} ranges of {:?}", t.iter().collect::<String>());
    for (r, (a, z)) in code.iter().zip(&got) {
      ensure_eq!(r.get_plaintext(), chars[*a..*z].iter().collect::<String>().as_str(), format!("{what}-text"), "text of {a}..{z}");
    }
  }
  // with punctuation nothing but blanks is lost
  let kept: String = show(&both[1].2).concat();
  let all: String = t.iter().filter(|c| !c.is_whitespace()).collect();
  ensure_eq!(kept, all, "model", "characters kept");
  ctx.nontrivial(both[0].2.len() > 1 && both[1].2.len() > both[0].2.len());
  ctx.label_if(t.iter().any(|c| apostrophe(*c)), "apostrophe");
  ctx.label_if(t.iter().any(|c| !c.is_ascii()), "non-ASCII");
  ctx.label_if(s > 0, "inner range");
  Ok(())
}

pub fn prose(t: Tier) -> BoxedStrategy<String> {
  let stop: Vec<String> = stopwords().iter().filter(|w| w.is_ascii()).map(|s| s.to_string()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
  let abbr: Vec<String> = abbreviations().iter().map(|s| s.to_string()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
  let cap = |w: String| {
    let mut c = w.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
  };
  let plain = || or_text(pick(&["field", "theorem", "lemma", "compact", "holds", "newton", "graph", "élan", "über", "жизнь", "supercalifragilisticexpialidocious", "iPhone", "groups", "bounded", "x", "I", "A", "é", "q", "Z", "Proofs", "MATH", "arXiv", "north"]));
  // capitals anywhere, among them the one that is not ASCII but has an ASCII lowercase form
  let odd = |(w, at): (String, u8)| match at % 4 {
    0 => w.to_uppercase(),
    1 => w.to_uppercase().replace('K', "\u{212a}"),
    2 => w.replace('k', "\u{212a}"),
    _ => w.chars().enumerate().flat_map(|(i, c)| if at as usize / 4 % 8 == i { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect(),
  };
  let word = prop_oneof![
    8 => plain(),
    6 => plain().prop_map(cap),
    4 => select(stop.clone()),
    4 => select(stop.clone()).prop_map(cap),
    1 => (select(stop), any::<u8>()).prop_map(odd),
    1 => (plain(), any::<u8>()).prop_map(odd),
    6 => select(abbr),
    6 => pick(&["mathformula", "mathformula", "Mathformula", "mathformulas", "xmathformula", "CitationElement", "REF"]),
    2 => pick(&["1", "42", "3.14", "i.e", "e.g", "a.m", "(i)", "*", "-", "§"]),
  ];
  let mark = prop_oneof![
    6 => pick(&["."]),
    2 => pick(&[":", "?", "!"]),
    2 => pick(&[",", ";", ")", "(", "\"", "'", "*", "]", "[", "{", "}", "’"]),
    1 => pick(&["...", "?!", "(?)", "\"!\"", "[!]", ".)", ".\"", ". '", "…", ".'", ". *", "{?}"]),
  ];
  let gap = prop_oneof![
    10 => Just(" ".to_string()),
    4 => Just("\n".to_string()),
    3 => pick(&["\n\n", "\n \n", "  ", "\t", "\n\n  ", " \n\n", "\u{a0}", "\u{2003}", "\u{2028}"]),
    2 => Just(String::new()),
  ];
  let len = if t == Tier::Quick { 14 } else { 30 };
  vec((word, prop::option::weighted(0.45, mark), gap), 0..len)
    .prop_map(|v| v.into_iter().map(|(w, m, g)| w + &m.unwrap_or_default() + &g).collect::<String>())
    .boxed()
}
/// a small alphabet, so that rules meet in all combinations
fn dense() -> BoxedStrategy<String> {
  let piece = or_text(pick(&[".", ".", ":", "?", "!", "\n", "\n", " ", " ", "'", "\"", "(", ")", "*", "[", "]", "A", "b", "The", "the", "Xy", "xy", "Dr", "mathformula", "É", "é", "1", "\u{2003}", "I"]));
  vec(piece, 0..12).prop_map(|v| v.concat()).boxed()
}
/// words that only resemble the wildcard abbreviations (e.g. "ice" and "i.e") are not decided
fn decided(t: &str) -> bool {
  !t.split(|c: char| !c.is_alphabetic()).any(|w| {
    let c: Vec<char> = w.chars().collect();
    c.len() == 3 && ((matches!(c[0], 'E' | 'e') && c[2] == 'g') || (matches!(c[0], 'I' | 'i') && c[2] == 'e'))
  })
}

/// pieces of text, repeated in turns
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Long {
  pieces: Vec<String>,
  times: u32,
}
impl Long {
  fn text(&self) -> String {
    let mut s = String::new();
    for _ in 0..self.times {
      for p in &self.pieces {
        if s.len() < 150_000 {
          s.push_str(p);
        }
      }
    }
    s
  }
}

pub fn props() -> Vec<Prop> {
  let times = || or_size(prop_oneof![3 => 10u32..400, 1 => 400u32..20_000].boxed(), 20_000);
  let long = move |t: Tier| (vec(prose(t).prop_filter("undecided abbreviation", |t| decided(t)), 1..4), times()).prop_map(|(pieces, times)| Long { pieces, times }).boxed();
  let long_words = move |t: Tier| {
    let piece = prop_oneof![2 => prose(t), 1 => pick(&["a", "é", "don't ", "'", ".", "x's ", "漢", " ", "n'", "1"])];
    ((vec(piece, 1..4), times()).prop_map(|(pieces, times)| Long { pieces, times }), prop::option::weighted(0.5, any::<(u32, u32)>())).boxed()
  };
  let text = |t: Tier| prop_oneof![3 => prose(t), 1 => dense()].prop_map(|text| Text { text }).boxed();
  let ruled = |t: Tier| prop_oneof![3 => prose(t), 2 => dense()].prop_filter("undecided abbreviation", |t| decided(t)).prop_map(|text| Text { text }).boxed();
  let wild = |_t: Tier| {
    prop_oneof![1 => "[\\PC\n\t]{0,60}", 2 => "[A-Zé .:?!\n'\"()a-c*]{0,40}"].prop_map(|text| Text { text }).boxed()
  };
  let abbr_cases = || {
    let mut v = Vec::new();
    let mut words: Vec<String> = abbreviations().iter().map(|s| s.to_string()).collect();
    for w in ["field", "Mrss", "prf", "x", "I", "é", "Pro", "xDr", "etcc", "", "aa", "Assoc", "Januar", "Ga1"] {
      words.push(w.into());
    }
    words.sort();
    for w in words {
      for (a, b) in [("See ", ". Newton went."), ("", ". Newton went."), ("It is (", ". Newton)."), ("x", ". Newton."), ("See ", " . Newton."), ("see ", ".\nnewton"), ("See ", ". The end."), ("See ", ". mathformula ok"), ("See ", ": Newton"), ("the longest_", ". 'Newton'.")] {
        v.push(Text { text: format!("{a}{w}{b}") });
      }
    }
    v
  };
  let stop_cases = || {
    let mut words: Vec<&str> = stopwords().iter().copied().collect();
    words.extend(["newton", "thee", "mathformula", "proofs"]);
    words.sort();
    let mut v = Vec::new();
    for w in words {
      let cap: String = {
        let mut c = w.chars();
        c.next().unwrap().to_uppercase().collect::<String>() + c.as_str()
      };
      for t in [format!("See Dr. {cap} went"), format!("See Dr. {w} went"), format!("End: {cap} 5"), format!("so\n\n{cap} x"), format!("e. {cap}"), format!("See Dr. {} went", w.to_uppercase()), format!("See Dr. {} went", w.to_uppercase().replace('K', "\u{212a}")), format!("Look. {}", w.replace('k', "\u{212a}"))] {
        v.push(Text { text: t });
      }
    }
    v
  };
  let words = |t: Tier| {
    let piece = or_text(pick(&["don", "'", "'", "’", "s", "t", "ll", "un", "th", "d", "ve", "il", "re", "m", "rock", "it", "é", "ñandú", " ", " ", "\n", ".", ",", "-", "(", "7", "²", "\u{301}", "x", "S", "st", "ss", "—", "\u{a0}", "漢字"]));
    let text = prop_oneof![3 => vec(piece, 0..16).prop_map(|v| v.concat()), 1 => prose(t), 1 => "[\\PC\n']{0,30}"];
    (text, prop::option::weighted(0.5, any::<(u32, u32)>())).prop_map(|(text, range)| InText { text, range }).boxed()
  };
  vec![
    Prop {
      id: "P08",
      rule: "sentence ranges of generated prose, dense punctuation, arbitrary text and whole documents; non-trivial: more than one sentence",
      assumptions: vec!["a trailing fragment without any letter is not a sentence"],
      subs: vec![
        sub("prose", (60_000, 1_000_000), "generated prose", text, check_cover),
        sub("wild", (40_000, 600_000), "arbitrary text", wild, check_cover),
        sub("documents", (30_000, 500_000), "DNMs of generated documents", dnmgen::case, check_cover_doc),
        enumerate("characters", "every character of planes 0 and 1 around sentence ends", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          let all = vcommon::gen::characters(*r);
          for cs in all.chunks(32) {
            let text: String = cs.iter().map(|c| format!("We saw{c} it. {c}Then {c} went on?{c}")).collect();
            check_cover(&Text { text }, ctx)?;
          }
          check_cover(&Text { text: all.iter().collect() }, ctx)
        }),
        sub("large", (60, 1_000), "DNMs of documents with long texts, many siblings and deep nesting", dnmgen::large, |l, ctx| {
          dnmgen::large_labels(&l.blow, ctx);
          check_cover_doc(&dnmgen::expand(l), ctx)
        }),
        enumerate("huge", dnmgen::HUGE, dnmgen::huge, |k: &(u8, u32), ctx| on_worker_stack(|ctx| check_cover_doc(&dnmgen::huge_case(*k), ctx), ctx)),
      ],
    },
    Prop {
      id: "P09",
      rule: "sentence ranges of generated prose against an independent implementation of the boundary rules; non-trivial: more than one sentence",
      assumptions: vec![
        "stopword and abbreviation lists are those published at the pinned commit",
        "three-letter words that match the abbreviation patterns for e.g./i.e. only through a wildcard are not decided",
      ],
      subs: vec![
        sub("prose", (120_000, 2_500_000), "generated prose and dense punctuation", ruled, check_rules),
        enumerate("characters", "every character of planes 0 and 1 before and after sentence ends", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          for c in vcommon::gen::characters(*r) {
            let text = format!("We saw a tree. {c}hen it went. {c} So {c}. Then b{c}. That is? {c}o\n\n{c}oll: {c}hat. a");
            check_rules(&Text { text }, ctx)?;
          }
          Ok(())
        }),
        enumerate("abbreviations", "every abbreviation and near misses, in ten contexts", abbr_cases, check_rules),
        enumerate("stopwords", "every stopword in eight contexts", stop_cases, check_rules),
        sub("concurrent", (40, 800), "several texts at the same time, one thread each, one tokenizer", move |t| vec(ruled(t), 2..7).boxed(), |l: &Vec<Text>, ctx| concurrently(l, 30, check_rules, ctx)),
        sub("long", (150, 3_000), "texts of up to some 100,000 characters", long, |l: &Long, ctx| check_rules(&Text { text: l.text() }, ctx)),
      ],
    },
    Prop {
      id: "P10",
      rule: "words and words-and-punctuation of ranges against independent definitions; non-trivial: at least two words and some punctuation",
      assumptions: vec![],
      subs: vec![
        sub("ranges", (120_000, 2_500_000), "apostrophes, punctuation, non-ASCII letters; whole texts and inner ranges", words, check_words),
        enumerate("characters", "every character of planes 0 and 1 within, before and after words", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          let all = vcommon::gen::characters(*r);
          let text: String = all.iter().map(|c| format!("a{c}b {c} {c}c d{c} '{c}s ")).collect();
          check_words(&InText { text, range: None }, ctx)?;
          check_words(&InText { text: all.iter().collect(), range: None }, ctx)
        }),
        sub("concurrent", (40, 800), "several texts at the same time, one thread each, one tokenizer", move |t| vec(words(t), 2..7).boxed(), |l: &Vec<InText>, ctx| concurrently(l, 30, check_words, ctx)),
        sub("long", (150, 3_000), "texts of up to some 100,000 characters, long words", long_words, |l: &(Long, Option<(u32, u32)>), ctx| check_words(&InText { text: l.0.text(), range: l.1 }, ctx)),
      ],
    },
  ]
}
