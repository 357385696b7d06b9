//! Strategies shared by several checks.
use crate::tree::T;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

/// a strategy over a fixed list of strings
pub fn pick(list: &[&str]) -> BoxedStrategy<String> {
  select(list.iter().map(|s| s.to_string()).collect::<Vec<_>>()).boxed()
}

/// trees over the given element names, attribute lists and texts; the root is always an element
pub fn tree(
  names: BoxedStrategy<String>,
  attrs: BoxedStrategy<Vec<(String, String)>>,
  texts: BoxedStrategy<String>,
  depth: u32,
  size: u32,
  width: usize,
) -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    5 => texts.clone().prop_map(T::X),
    1 => pick(&["", " c ", "comment. Text", "ltx_para"]).prop_map(T::C),
    2 => (names.clone(), attrs.clone()).prop_map(|(n, a)| T::E(n, a, vec![])),
  ];
  let (n2, a2) = (names.clone(), attrs.clone());
  let inner = leaf.prop_recursive(depth, size, width as u32, move |inner| {
    prop_oneof![
      4 => (n2.clone(), a2.clone(), vec(inner, 0..=width)).prop_map(|(n, a, k)| T::E(n, a, k)),
      2 => texts.clone().prop_map(T::X),
    ]
  });
  (names, attrs, vec(inner, 1..=width + 1)).prop_map(|(n, a, k)| T::E(n, a, k)).boxed()
}
/// the list, n times over
pub fn times<X: Clone>(v: &[X], n: usize) -> Vec<X> { (0..n).flat_map(|_| v.iter().cloned()).collect() }

/// ranges of code points: planes 0 and 1 completely, the first and last of the others
pub fn code_points() -> Vec<(u32, u32)> {
  let mut v: Vec<(u32, u32)> = (0..0x200).map(|i| (i * 256, i * 256 + 256)).collect();
  for plane in 2..17u32 {
    v.push((plane << 16, (plane << 16) + 256));
    v.push((plane << 16 | 0xff00, (plane << 16) + 0x10000));
  }
  v
}
/// those of the code points that a document may contain
pub fn characters(range: (u32, u32)) -> Vec<char> {
  (range.0..range.1).filter(|c| (*c >= 0x20 || [9, 10, 13].contains(c)) && c & 0xfffe != 0xfffe).filter_map(char::from_u32).collect()
}

// ---- literals of the code under test ---------------------------------------------------------
// An automatic dictionary, as fuzzers use it: the strings, characters and numbers in the sources as
// they are now. What is not in literals.txt (the literals of the tree the checks were made on) is
// picked more often: code that was added since compares with it.

#[derive(Default)]
pub struct Literals {
  /// words and strings of all sources but the large tables
  all: Vec<String>,
  /// those that are not in the list of known ones
  fresh: Vec<String>,
  /// numbers that are not in the list of known ones
  numbers: Vec<u64>,
}
/// the literals in Rust code: strings and characters as they are, numbers with a '#' in front
pub fn scan(code: &str) -> Vec<String> {
  let c: Vec<char> = code.chars().collect();
  let at = |i: usize| c.get(i).copied().unwrap_or('\0');
  let mut out = Vec::new();
  let mut i = 0;
  let unescape = |s: &[char]| {
    let mut t = String::new();
    let mut k = 0;
    while k < s.len() {
      if s[k] != '\\' {
        t.push(s[k]);
        k += 1;
        continue;
      }
      k += 2;
      match s.get(k - 1) {
        Some('n') => t.push('\n'),
        Some('t') => t.push('\t'),
        Some('r') => t.push('\r'),
        Some('0') => t.push('\0'),
        Some('x') => {
          let h: String = s[k..(k + 2).min(s.len())].iter().collect();
          t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
          k += 2;
        },
        Some('u') => {
          let h: String = s[k..].iter().take_while(|c| **c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
          t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
          k += s[k..].iter().take_while(|c| **c != '}').count() + 1;
        },
        Some('\n') => k += s[k.min(s.len())..].iter().take_while(|c| c.is_whitespace()).count(),
        Some(o) => t.push(*o),
        None => {},
      }
    }
    t
  };
  while i < c.len() {
    if at(i) == '/' && at(i + 1) == '/' {
      while i < c.len() && c[i] != '\n' {
        i += 1;
      }
    } else if at(i) == '/' && at(i + 1) == '*' {
      let mut depth = 1;
      i += 2;
      while i < c.len() && depth > 0 {
        if at(i) == '/' && at(i + 1) == '*' {
          depth += 1;
          i += 1;
        } else if at(i) == '*' && at(i + 1) == '/' {
          depth -= 1;
          i += 1;
        }
        i += 1;
      }
    } else if at(i) == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) && (i == 0 || !at(i - 1).is_alphanumeric() || at(i - 1) == 'b') {
      let hashes = c[i + 1..].iter().take_while(|c| **c == '#').count();
      let start = i + 2 + hashes;
      let mut k = start;
      while k < c.len() && !(c[k] == '"' && c[k + 1..].iter().take_while(|c| **c == '#').count() >= hashes) {
        k += 1;
      }
      out.push(c[start.min(k)..k.min(c.len())].iter().collect());
      i = k + 1 + hashes;
    } else if at(i) == '"' {
      let mut k = i + 1;
      while k < c.len() && c[k] != '"' {
        k += if c[k] == '\\' { 2 } else { 1 };
      }
      let k = k.min(c.len());
      out.push(unescape(&c[i + 1..k]));
      i = k + 1;
    } else if at(i) == '\'' {
      if at(i + 1) == '\\' {
        let mut k = i + 3;
        while k < c.len() && c[k] != '\'' {
          k += 1;
        }
        let k = k.min(c.len());
        out.push(unescape(&c[i + 1..k]));
        i = k + 1;
      } else if at(i + 2) == '\'' {
        out.push(at(i + 1).to_string());
        i += 3;
      } else {
        // a lifetime
        i += 1;
      }
    } else if at(i).is_ascii_digit() {
      let k = i + c[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == '_').count();
      let t: String = c[i..k].iter().filter(|c| **c != '_').collect();
      let n = match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok(),
        None => t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok(),
      };
      if let Some(n) = n {
        out.push(format!("#{n}"));
      }
      i = k;
    } else if at(i).is_alphanumeric() || at(i) == '_' {
      i += c[i..].iter().take_while(|c| c.is_alphanumeric() || **c == '_').count().max(1);
      // (a prefix of a string is handled there)
      if matches!(at(i), '"' | '#') && matches!(at(i - 1), 'r') && (i < 2 || !at(i - 2).is_alphanumeric() || at(i - 2) == 'b') && (at(i) == '"' || at(i + 1) == '"' || at(i + 1) == '#') {
        i -= 1;
      }
    } else {
      i += 1;
    }
  }
  out
}
/// all literals of the sources, with the file they are in, sorted
pub fn scan_sources() -> Vec<(String, String)> {
  fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
      let p = e.path();
      if p.is_dir() {
        files(&p, out);
      } else if p.extension().is_some_and(|x| x == "rs") {
        out.push(p);
      }
    }
  }
  let root = std::path::Path::new("/repo/src");
  let mut list = Vec::new();
  files(root, &mut list);
  let mut out = Vec::new();
  for f in list {
    let name = f.strip_prefix(root).unwrap().display().to_string();
    for l in scan(&String::from_utf8_lossy(&std::fs::read(&f).unwrap_or_default())) {
      out.push((name.clone(), l));
    }
  }
  out.sort();
  out
}
/// the known literals: a line per literal
pub fn known_text() -> String { scan_sources().into_iter().map(|(f, l)| format!("{f}\t{}\n", l.escape_default())).collect() }
fn words_in(l: &str) -> Vec<String> {
  let mut v: Vec<String> = l.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '-')).filter(|w| w.chars().count() > 1 && *w != l).map(|w| w.to_string()).collect();
  v.insert(0, l.to_string());
  v
}
pub fn literals() -> &'static Literals {
  static L: std::sync::OnceLock<Literals> = std::sync::OnceLock::new();
  L.get_or_init(|| {
    let mut known: std::collections::HashMap<String, usize> = Default::default();
    for l in std::fs::read_to_string(crate::engine::verif_dir().join("literals.txt")).unwrap_or_default().lines() {
      *known.entry(l.to_string()).or_default() += 1;
    }
    let mut r = Literals::default();
    for (f, l) in scan_sources() {
      let fresh = match known.get_mut(&format!("{f}\t{}", l.escape_default())) {
        Some(n) if *n > 0 => {
          *n -= 1;
          false
        },
        _ => true,
      };
      if let Some(n) = l.strip_prefix('#').and_then(|n| n.parse().ok()) {
        if fresh {
          r.numbers.push(n);
        }
        continue;
      }
      for w in words_in(&l) {
        let n = w.chars().count();
        if n == 0 || n > 60 {
          continue;
        }
        if fresh {
          r.fresh.push(w.clone());
        }
        if !f.starts_with("ams") && !f.starts_with("stopwords") {
          r.all.push(w);
        }
      }
    }
    for v in [&mut r.all, &mut r.fresh] {
      v.sort();
      v.dedup();
    }
    r.numbers.sort();
    r.numbers.dedup();
    r
  })
}
/// a literal of the code, by number
pub fn some_literal(h: u64) -> Option<String> {
  let l = literals();
  let v = if l.fresh.is_empty() || h % 4 == 3 { &l.all } else { &l.fresh };
  v.get((h as usize / 11).checked_rem(v.len())?).cloned()
}
fn in_text(s: &str) -> bool { s.chars().all(|c| c >= ' ' || c == '\n' || c == '\t') && !s.contains(['\u{fffe}', '\u{ffff}']) }
fn in_name(s: &str) -> bool {
  s.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') && !s.to_ascii_lowercase().starts_with("xml") && !matches!(s.to_ascii_lowercase().as_str(), "html" | "head" | "body" | "comment")
}
fn in_class(s: &str) -> bool { in_text(s) && !s.chars().any(|c| c.is_whitespace()) }
/// the new literals and all literals with that property
fn fitting(ok: fn(&str) -> bool) -> (&'static [String], &'static [String]) {
  type Kept = std::collections::HashMap<usize, (&'static [String], &'static [String])>;
  static KEPT: std::sync::Mutex<Option<Kept>> = std::sync::Mutex::new(None);
  let mut kept = KEPT.lock().unwrap_or_else(|e| e.into_inner());
  *kept.get_or_insert_with(Default::default).entry(ok as usize).or_insert_with(|| {
    let l = literals();
    let keep = |v: &Vec<String>| v.iter().filter(|s| ok(s)).cloned().collect::<Vec<_>>();
    let (fresh, mut all) = (keep(&l.fresh), keep(&l.all));
    if all.is_empty() {
      all.push("x".into());
    }
    (fresh.leak(), all.leak())
  })
}
/// literals with that property, and variations of them
fn literal(ok: fn(&str) -> bool) -> BoxedStrategy<String> {
  let (fresh, all) = fitting(ok);
  let one = if fresh.is_empty() { select(all).boxed() } else { prop_oneof![7 => select(fresh), 1 => select(all)].boxed() };
  (one, 0u8..12)
    .prop_map(move |(s, k)| {
      let v = match k {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().take(1).flat_map(|c| c.to_uppercase()).chain(s.chars().skip(1)).collect(),
        3 => format!("{s}s"),
        4 => format!("x{s}"),
        5 => s.chars().take(s.chars().count() - 1).collect(),
        _ => return s,
      };
      if v.is_empty() || !ok(&v) {
        s
      } else {
        v
      }
    })
    .boxed()
}
fn seasoned(base: BoxedStrategy<String>, ok: fn(&str) -> bool) -> BoxedStrategy<String> {
  let share = if fitting(ok).0.is_empty() { 40 } else { 7 };
  prop_oneof![share => base, 1 => literal(ok)].boxed()
}
/// now and then a literal of the code instead: one that can stand in a text
pub fn or_text(base: BoxedStrategy<String>) -> BoxedStrategy<String> { seasoned(base, in_text) }
/// one that is an XML name
pub fn or_name(base: BoxedStrategy<String>) -> BoxedStrategy<String> { seasoned(base, in_name) }
/// one without blanks
pub fn or_word(base: BoxedStrategy<String>) -> BoxedStrategy<String> { seasoned(base, in_class) }
/// one that can be a file's name
pub fn or_file(base: BoxedStrategy<String>) -> BoxedStrategy<String> { seasoned(base, |s| !s.contains(['/', '\0']) && s != "." && s != ".." && s.len() < 60) }
/// one that fits the condition
pub fn or_such(base: BoxedStrategy<String>, ok: fn(&str) -> bool) -> BoxedStrategy<String> { seasoned(base, ok) }
/// a size: sometimes one that code added since compares with, or next to it
pub fn or_size(base: BoxedStrategy<u32>, max: u32) -> BoxedStrategy<u32> {
  let near: Vec<u32> = literals().numbers.iter().filter(|n| **n > 2).flat_map(|n| [n - 1, *n, n + 1, n + 2, n * 2]).filter(|n| *n <= u64::from(max)).map(|n| n as u32).collect();
  if near.is_empty() {
    base
  } else {
    prop_oneof![2 => base, 1 => select(near)].boxed()
  }
}

pub fn or_len(base: BoxedStrategy<usize>, max: u32) -> BoxedStrategy<usize> { prop_oneof![1 => base.clone(), 2 => or_size(base.prop_map(|n| n as u32).boxed(), max).prop_map(|n| n as usize)].boxed() }
