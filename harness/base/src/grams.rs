//! P18 Ngrams and P19 Dictionary: reference models of the doc comments.
use crate::ngrams::{Dictionary, Ngrams};
use std::collections::{BTreeMap, HashMap};
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq};

/// the words of a text: whitespace-separated tokens that start with an alphanumeric character
fn words(content: &str) -> Vec<&str> {
  content.split_ascii_whitespace().filter(|w| w.chars().next().is_some_and(|c| c.is_alphanumeric())).collect()
}

fn count_grams(counts: &mut BTreeMap<String, usize>, run: &[&str], n: usize) {
  if run.len() < n {
    return;
  }
  for i in 0..=run.len() - n {
    *counts.entry(run[i..i + n].join(" ")).or_insert(0) += 1;
  }
}

/// doc comment of add_anchored_content: a word at i takes part iff an anchor is in [i-W, i+W];
/// every continuous sequence of such words is recorded
fn model_anchored(counts: &mut BTreeMap<String, usize>, content: &str, anchor: &str, w: usize, n: usize) -> (usize, usize) {
  let ws = words(content);
  let anchors: Vec<usize> = (0..ws.len()).filter(|&i| ws[i] == anchor).collect();
  let justified: Vec<bool> = (0..ws.len()).map(|i| anchors.iter().any(|&a| a.abs_diff(i) <= w)).collect();
  let mut i = 0;
  let mut runs = 0;
  while i < ws.len() {
    if justified[i] {
      let mut j = i;
      while j < ws.len() && justified[j] {
        j += 1;
      }
      count_grams(counts, &ws[i..j], n);
      runs += 1;
      i = j;
    } else {
      i += 1;
    }
  }
  (anchors.len(), runs)
}

fn compare(ng: &Ngrams, model: &BTreeMap<String, usize>) -> Res {
  let code: BTreeMap<String, usize> = ng.counts.iter().map(|(k, v)| (k.clone(), *v)).collect();
  ensure_eq!(code, *model, "ngram-counts", "recorded n-gram counts differ");
  ensure_eq!(ng.distinct_count(), model.len(), "distinct-count", "distinct_count");
  for (k, v) in model {
    ensure_eq!(ng.get(k), *v, "get", "get({k:?})");
  }
  let sorted = ng.sorted();
  ensure!(sorted.windows(2).all(|p| p[0].1 >= p[1].1), "sorted-order", "sorted() is not descending: {sorted:?}");
  let back: BTreeMap<String, usize> = sorted.iter().map(|(k, v)| (k.to_string(), *v)).collect();
  ensure_eq!(sorted.len(), model.len(), "sorted-len", "sorted() length");
  ensure_eq!(back, *model, "sorted-content", "sorted() content");
  Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Anchored {
  anchor: String,
  window: usize,
  n: usize,
  contents: Vec<String>,
}

fn token() -> BoxedStrategy<String> {
  prop_oneof![
    6 => or_word(pick(&["a", "b", "c", "d", "e", "f", "word", "cat"])),
    3 => pick(&["CitationElement"]),
    1 => pick(&[".", ",", "(", "-x", "'s", "CitationElement.", "citationelement", "CitationElements", "Citation", "7", "3.14", "é", "naïve", "x-ray", "мир", "½", "²"]),
  ]
  .boxed()
}
fn content(len: usize) -> BoxedStrategy<String> {
  vec((token(), pick(&[" ", " ", " ", "  ", "\n", "\t", " \n "])), 0..=len)
    .prop_map(|ts| ts.into_iter().map(|(t, s)| t + &s).collect::<String>())
    .boxed()
}
/// texts laid out around anchors: gap lengths are chosen around the window size
fn spaced(anchor: String, w: usize) -> BoxedStrategy<String> {
  let gap = prop_oneof![0..=w, w..=2 * w + 3, 2 * w..=4 * w + 2];
  vec(gap, 1..6)
    .prop_map(move |gaps| {
      let mut out: Vec<String> = Vec::new();
      let mut k = 0;
      for (i, g) in gaps.iter().enumerate() {
        if i > 0 {
          out.push(anchor.clone());
        }
        for _ in 0..*g {
          k += 1;
          out.push(format!("w{k}"));
        }
      }
      out.join(" ")
    })
    .boxed()
}

fn check_anchored(c: &Anchored, ctx: &mut Ctx) -> Res {
  let mut ng = Ngrams { anchor: Some(c.anchor.clone()), window_size: c.window, n: c.n, counts: HashMap::new() };
  let mut model = BTreeMap::new();
  let (mut anchors, mut runs) = (0, 0);
  for (i, text) in c.contents.iter().enumerate() {
    ng.add_content(text);
    let (a, r) = model_anchored(&mut model, text, &c.anchor, c.window, c.n);
    anchors += a;
    runs += r;
    compare(&ng, &model).map_err(|f| Fail { sig: f.sig, msg: format!("after content {i} {text:?}: {}", f.msg) })?;
  }
  ctx.nontrivial(!model.is_empty());
  ctx.label_if(anchors == 0, "no anchor");
  ctx.label_if(anchors > 1, "several anchors");
  ctx.label_if(runs > 1, "several runs");
  ctx.label_if(model.values().any(|v| *v > 1), "repeated n-gram");
  ctx.label_if(c.contents.len() > 1, "several contents");
  Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Record {
  n: usize,
  anchor: bool,
  runs: Vec<Vec<String>>,
  inserts: Vec<String>,
  lookups: Vec<String>,
}
fn check_record(c: &Record, ctx: &mut Ctx) -> Res {
  let mut ng = Ngrams { n: c.n, anchor: if c.anchor { Some("a".into()) } else { None }, ..Ngrams::default() };
  let mut model: BTreeMap<String, usize> = BTreeMap::new();
  for run in &c.runs {
    let r: Vec<&str> = run.iter().map(|s| s.as_str()).collect();
    ng.record_words(r.clone());
    count_grams(&mut model, &r, c.n);
    compare(&ng, &model)?;
  }
  for s in &c.inserts {
    ng.insert(s.clone());
    *model.entry(s.clone()).or_insert(0) += 1;
  }
  compare(&ng, &model)?;
  for l in &c.lookups {
    ensure_eq!(ng.get(l), model.get(l).copied().unwrap_or(0), "get-absent", "get({l:?})");
  }
  ctx.nontrivial(model.values().any(|v| *v > 1));
  ctx.label_if(c.runs.iter().any(|r| r.len() < c.n), "run shorter than n");
  ctx.label_if(c.runs.iter().any(|r| r.len() == c.n), "run of exactly n");
  ctx.label_if(c.n > 1, "n > 1");
  Ok(())
}

/// counts far beyond what the small histories reach: many repetitions, and counts set directly
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Frequent {
  n: usize,
  /// (phrase, how often it is inserted)
  inserts: Vec<(String, u32)>,
  /// (phrase, initial count in the public table)
  preset: Vec<(String, u64)>,
  /// the same word recorded this many times in a row
  run: (String, u32),
}
fn check_frequent(c: &Frequent, ctx: &mut Ctx) -> Res {
  let mut ng = Ngrams { n: c.n, ..Ngrams::default() };
  let mut model: BTreeMap<String, usize> = BTreeMap::new();
  for (p, k) in &c.preset {
    ng.counts.insert(p.clone(), *k as usize);
    model.insert(p.clone(), *k as usize);
  }
  for (p, k) in &c.inserts {
    for _ in 0..*k {
      ng.insert(p.clone());
    }
    if *k > 0 {
      *model.entry(p.clone()).or_insert(0) += *k as usize;
    }
  }
  let run = vec![c.run.0.as_str(); c.run.1 as usize];
  ng.record_words(run.clone());
  if run.len() >= c.n {
    *model.entry(vec![c.run.0.as_str(); c.n].join(" ")).or_insert(0) += run.len() + 1 - c.n;
  }
  compare(&ng, &model)?;
  let top = model.values().copied().max().unwrap_or(0);
  ctx.nontrivial(model.len() > 1 && top > 255);
  ctx.label_if(top > 65_535, "count beyond 65535");
  ctx.label_if(top > u32::MAX as usize, "count beyond 32 bits");
  Ok(())
}

/// one counter used for everything, its public settings changed between the calls
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Op {
  Anchor(String),
  Window(usize),
  N(usize),
  Content(String),
  Record(Vec<String>),
  Insert(String),
  Forget(String),
}
fn check_mixed(ops: &Vec<Op>, ctx: &mut Ctx) -> Res {
  let mut ng = Ngrams { anchor: Some("a".into()), window_size: 2, ..Ngrams::default() };
  let mut model: BTreeMap<String, usize> = BTreeMap::new();
  let (mut contents, mut changes) = (0, 0);
  for (i, op) in ops.iter().enumerate() {
    match op {
      Op::Anchor(a) => ng.anchor = Some(a.clone()),
      Op::Window(w) => ng.window_size = *w,
      Op::N(n) => ng.n = *n,
      Op::Content(t) => {
        ng.add_content(t);
        contents += (model_anchored(&mut model, t, ng.anchor.as_ref().unwrap(), ng.window_size, ng.n).0 > 0) as usize;
      },
      Op::Record(r) => {
        let r: Vec<&str> = r.iter().map(|s| s.as_str()).collect();
        ng.record_words(r.clone());
        count_grams(&mut model, &r, ng.n);
      },
      Op::Insert(p) => {
        ng.insert(p.clone());
        *model.entry(p.clone()).or_insert(0) += 1;
      },
      Op::Forget(p) => {
        ensure_eq!(ng.counts.remove(p), model.remove(p), "removed", "count of {p:?} taken from the public table");
      },
    }
    changes += matches!(op, Op::Anchor(_) | Op::Window(_) | Op::N(_)) as usize;
    compare(&ng, &model).map_err(|f| Fail { sig: f.sig, msg: format!("after step {i}: {}", f.msg) })?;
  }
  ctx.nontrivial(contents > 1 && changes > 0 && model.values().any(|v| *v > 1));
  Ok(())
}
/// every character as a word, at the start of one and inside one: does it count, and is it its own word?
fn check_characters(r: &(u32, u32), ctx: &mut Ctx) -> Res {
  let chars = vcommon::gen::characters(*r);
  let mut content = String::new();
  for c in &chars {
    content.push_str(&format!("X {c} w{c} {c}w X{c} {c}X "));
  }
  for (anchor, n) in [("X", 1), ("X", 2), (&*chars.last().map(|c| format!("w{c}")).unwrap_or("X".into()), 1)] {
    check_anchored(&Anchored { anchor: anchor.into(), window: 3, n, contents: vec![content.clone()] }, &mut Ctx::default())?;
  }
  ctx.nontrivial(chars.iter().any(|c| c.is_alphanumeric()) && chars.iter().any(|c| !c.is_alphanumeric()));
  Ok(())
}
fn check_dict_characters(r: &(u32, u32), ctx: &mut Ctx) -> Res {
  let mut words: Vec<String> = Vec::new();
  for c in vcommon::gen::characters(*r) {
    words.extend([c.to_string(), format!("{c}w"), format!("w{c}"), c.to_lowercase().collect(), c.to_uppercase().collect()]);
  }
  words.truncate(1300);
  ctx.nontrivial(words.len() > 2);
  let mut d = Dictionary::new();
  let mut order: HashMap<String, usize> = HashMap::new();
  for w in &words {
    d.insert(w.clone());
    let next = order.len() + 1;
    order.entry(w.clone()).or_insert(next);
    ensure_eq!(d.count(), order.len(), "count", "count() after inserting {w:?}");
  }
  ensure_eq!(d.map, order, "index", "indices");
  Ok(())
}

pub fn ngrams() -> Prop {
  let windowed = |_t: Tier| {
    (1usize..=7, 1usize..=4, prop_oneof![Just("CitationElement".to_string()), Just("a".to_string())])
      .prop_flat_map(|(window, n, anchor)| {
        let texts = prop_oneof![content(60), spaced(anchor.clone(), window), spaced(anchor.clone(), window), content(12)];
        vec(texts, 1..4).prop_map(move |contents| Anchored { anchor: anchor.clone(), window, n, contents })
      })
      .boxed()
  };
  let small = || {
    // every layout of up to 9 words over {anchor, other}, for every window 1..4 and n 1..3
    let mut v = Vec::new();
    for len in 0..=9usize {
      for bits in 0..(1u32 << len) {
        let text: Vec<String> = (0..len).map(|i| if bits >> i & 1 == 1 { "X".to_string() } else { format!("w{i}") }).collect();
        for window in 1..=4 {
          for n in 1..=3 {
            v.push(Anchored { anchor: "X".into(), window, n, contents: vec![text.join(" ")] });
          }
        }
      }
    }
    v
  };
  let large = |_t: Tier| {
    (or_len(prop_oneof![8usize..40, 100usize..140, 250usize..300].boxed(), 400), prop_oneof![1usize..6, 6usize..40])
      .prop_flat_map(|(window, n)| {
        let anchor = "CitationElement".to_string();
        vec(prop_oneof![spaced(anchor.clone(), window), content(400)], 1..3).prop_map(move |contents| Anchored { anchor: anchor.clone(), window, n, contents })
      })
      .boxed()
  };
  let frequent = |_t: Tier| {
    let w = || or_text(pick(&["a", "b", "c", "a b", "é", "longer phrase", "b b"]));
    let k = || or_size(prop_oneof![3 => 0u32..10, 3 => 120u32..140, 3 => 250u32..270, 2 => 500u32..1_100, 1 => 32_760u32..32_775, 1 => 65_530u32..65_545].boxed(), 66_000);
    let big = prop_oneof![0u64..5, 250u64..260, 65_530u64..65_540, (1u64 << 31) - 2..(1u64 << 31) + 3, (1u64 << 32) - 2..(1u64 << 32) + 3, (1u64 << 40)..(1u64 << 40) + 5];
    (1usize..=4, vec((w(), k()), 0..5), vec((w(), big), 0..4), (w(), k())).prop_map(|(n, inserts, preset, run)| Frequent { n, inserts, preset, run }).boxed()
  };
  let record = |_t: Tier| {
    let w = || pick(&["a", "b", "c", "a b", "é"]);
    (1usize..=5, any::<bool>(), vec(vec(w(), 0..14), 0..5), vec(pick(&["a", "a b", "z", "b c"]), 0..6), vec(pick(&["a", "q", "a b", "", "b a"]), 0..4))
      .prop_map(|(n, anchor, runs, inserts, lookups)| Record { n, anchor, runs, inserts, lookups })
      .boxed()
  };
  let mixed = move |_t: Tier| {
    let w = || or_text(pick(&["a", "b", "c", "a b", "é", "X"]));
    let op = prop_oneof![
      1 => or_word(pick(&["a", "b", "CitationElement", "X"])).prop_map(Op::Anchor),
      1 => (1usize..7).prop_map(Op::Window),
      1 => (1usize..5).prop_map(Op::N),
      4 => content(30).prop_map(Op::Content),
      2 => (pick(&["a", "X"]), 1usize..5).prop_flat_map(|(a, w)| spaced(a, w)).prop_map(Op::Content),
      2 => vec(w(), 0..9).prop_map(Op::Record),
      1 => or_text(pick(&["a", "a b", "z"])).prop_map(Op::Insert),
      1 => pick(&["a", "a b", "b", "q"]).prop_map(Op::Forget),
    ];
    vec(op, 1..14).boxed()
  };
  Prop {
    id: "P18",
    rule: "n-gram counters over generated texts and histories, compared with a reference count after every call; non-trivial: at least one n-gram is counted (anchored) or counted twice (record)",
    assumptions: vec!["window size and n are at least 1 (a window of 0 or a missing anchor is documented as unimplemented)"],
    subs: vec![
      sub("anchored", (60_000, 1_500_000), "texts with random and window-relative anchor spacing, several contents per counter", windowed, check_anchored),
      enumerate("anchored_small", "all layouts of up to 9 words, windows 1-4, n 1-3", small, check_anchored),
      sub("large", (150, 4_000), "windows up to 300 words, n up to 40, texts of some hundred words", large, check_anchored),
      sub("frequent", (150, 4_000), "counts up to beyond 16 bits by insertion, beyond 32 bits by preset", frequent, check_frequent),
      sub("mixed", (8_000, 160_000), "one counter for contents, recorded runs and insertions, its anchor, window and n changed in between", mixed, check_mixed),
      enumerate("characters", "contents with every character of planes 0 and 1 as a word, at either end of one, and next to the anchor", vcommon::gen::code_points, check_characters),
      sub("record", (20_000, 400_000), "record_words/insert/get histories", record, check_record),
    ],
  }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Dict {
  words: Vec<String>,
}
/// a long vocabulary: i-th insertion is the word number `(i * step) % size`
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Vocabulary {
  size: u32,
  step: u32,
  inserts: u32,
}
fn check_vocabulary(c: &Vocabulary, ctx: &mut Ctx) -> Res {
  let mut d = Dictionary::new();
  let mut rank: HashMap<u64, usize> = HashMap::new();
  for i in 0..c.inserts as u64 {
    let w = i * c.step as u64 % c.size as u64;
    d.insert(format!("w{w}"));
    let next = rank.len() + 1;
    rank.entry(w).or_insert(next);
    ensure_eq!(d.count(), rank.len(), "count", "count() after insertion {i}");
  }
  ensure_eq!(d.map.len(), rank.len(), "map-len", "entries");
  for (w, r) in &rank {
    ensure_eq!(d.map.get(&format!("w{w}")).copied(), Some(*r), "index", "index of w{w}");
  }
  let sorted = d.sorted();
  ensure_eq!(sorted.len(), rank.len(), "sorted-len", "sorted() length");
  for (k, (w, i)) in sorted.iter().enumerate() {
    ensure_eq!(*i, rank.len() - k, "sorted", "index at position {k} of sorted() ({w})");
  }
  ctx.nontrivial(rank.len() > 255);
  ctx.label_if(rank.len() > 65_535, "beyond 65535 words");
  Ok(())
}
fn check_dict(c: &Dict, ctx: &mut Ctx) -> Res {
  let mut d = Dictionary::new();
  let mut order: Vec<String> = Vec::new();
  ensure_eq!(d.count(), 0, "fresh", "count of a new dictionary");
  for w in &c.words {
    d.insert(w.clone());
    if !order.contains(w) {
      order.push(w.clone());
    }
    ensure_eq!(d.count(), order.len(), "count", "count() after inserting {w:?}");
    ensure_eq!(d.map.get(w).copied(), order.iter().position(|o| o == w).map(|i| i + 1), "index", "index of {w:?}");
    ensure_eq!(d.map.len(), order.len(), "map-len", "entries");
  }
  for (i, w) in order.iter().enumerate() {
    ensure_eq!(d.map.get(w).copied(), Some(i + 1), "index-final", "index of {w:?} (order of first insertion, from 1)");
  }
  let expect: Vec<(String, usize)> = order.iter().enumerate().map(|(i, w)| (w.clone(), i + 1)).rev().collect();
  let got: Vec<(String, usize)> = d.sorted().into_iter().map(|(w, i)| (w.clone(), i)).collect();
  ensure_eq!(got, expect, "sorted", "sorted() (latest first)");
  ctx.nontrivial(order.len() >= 2 && order.len() < c.words.len());
  ctx.label_if(c.words.windows(2).any(|p| p[0] == p[1]), "immediate repetition");
  Ok(())
}
pub fn dictionary() -> Prop {
  let strat = |_t: Tier| {
    prop_oneof![
      vec(or_text(pick(&["a", "b", "c", "d", "e", "A", "", " a", "é", "word"])), 0..40),
      vec((0u32..60).prop_map(|i| format!("w{i}")), 0..120),
    ]
    .prop_map(|words| Dict { words })
    .boxed()
  };
  let vocabulary = |_t: Tier| {
    (or_size(prop_oneof![200u32..400, 4_000u32..5_000, 65_000u32..70_000].boxed(), 70_000), 1u32..50, 1u32..5).prop_map(|(size, step, k)| Vocabulary { size, step, inserts: size / 2 * k }).boxed()
  };
  Prop {
    id: "P19",
    rule: "insertion histories against an ordered list of first insertions, checked after every insertion; non-trivial: at least two words and a repetition",
    assumptions: vec![],
    subs: vec![
      sub("history", (40_000, 800_000), "insertion histories with repetitions", strat, check_dict),
      enumerate("characters", "words with every character of planes 0 and 1", vcommon::gen::code_points, check_dict_characters),
      sub("vocabulary", (20, 400), "long histories over vocabularies of up to 70,000 words", vocabulary, check_vocabulary),
    ],
  }
}
