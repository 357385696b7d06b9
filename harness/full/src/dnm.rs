//! P01 offsets and node ranges, P02 plaintext, P03 back mapping, P04 range algebra, P05 XPointers.
use crate::dnmgen::*;
use libxml::xpath::Context;
use llamapun::dnm::*;
use std::collections::HashMap;
use vcommon::engine::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq, fail};

fn labels(c: &Case, b: &Built, ctx: &mut Ctx) {
  ctx.label_if(b.model.tokens > 0, "token");
  ctx.label_if(b.model.skipped > 0, "skipped subtree");
  ctx.label_if(b.dnm.plaintext.chars().any(|c| !c.is_ascii()), "non-ASCII plaintext");
  ctx.label_if(c.par.unicode, "unicode normalization");
  ctx.label_if(c.par.lower, "lowercase");
  ctx.label_if(c.par.stem > 0, "stemming");
  ctx.label_if(!c.par.back, "no back mapping");
  ctx.label_if(c.html, "HTML parser");
  ctx.label_if(b.root.elements().iter().any(|s| s.node.get_namespace().is_some()), "namespaces");
  ctx.label_if(b.root.node.to_hashable() != b.whole.node.to_hashable(), "sub-root");
}

// ---- P01 -------------------------------------------------------------------------------------

fn check_structure(c: &Case, ctx: &mut Ctx) -> Res {
  let b = build(c);
  labels(c, &b, ctx);
  let dnm = &b.dnm;
  let n = dnm.plaintext.chars().count();
  ensure_eq!(dnm.byte_offsets.len(), n + 1, "offsets-len", "one byte offset per character and one for the end");
  let real: Vec<usize> = dnm.plaintext.char_indices().map(|(i, _)| i).chain([dnm.plaintext.len()]).collect();
  ensure_eq!(dnm.byte_offsets, real, "offsets", "byte offsets of the characters");
  ensure_eq!(dnm.get_plaintext(), dnm.plaintext.as_str(), "plaintext", "get_plaintext()");
  ensure_eq!(dnm.runtime.chars.iter().collect::<String>(), dnm.plaintext, "runtime-chars", "characters of the parse");
  let all = dnm.get_range();
  ensure!(all.is_ok(), "root-range", "the root has no range");
  let all = all.unwrap();
  ensure_eq!((all.start, all.end), (0, n), "root-range", "range of the root");
  // a node's range is the concatenation of its children's, or a single token, or empty
  let get = |s: &Snap| dnm.get_range_of_node(s.node).ok().map(|r| (r.start, r.end));
  let mut entered = 0;
  for s in b.root.preorder() {
    let Some((start, end)) = get(s) else {
      ensure!(s.kids.iter().all(|k| get(k).is_none()), "orphan", "a descendant of an unvisited node has a range");
      continue;
    };
    ensure!(start <= end && end <= n, "range-bounds", "range {start}..{end} of <{}> in a text of {n} characters", s.name);
    let kids: Vec<Option<(usize, usize)>> = s.kids.iter().map(get).collect();
    if s.kind == Kind::Text || s.kids.is_empty() {
      continue;
    }
    if kids.iter().all(|k| k.is_some()) {
      entered += 1;
      let mut pos = start;
      for (k, r) in s.kids.iter().zip(&kids) {
        let (a, z) = r.unwrap();
        ensure_eq!(a, pos, "contiguous", "start of a child <{}> of <{}>", k.name, s.name);
        pos = z;
      }
      ensure_eq!(pos, end, "contiguous", "end of the last child of <{}>", s.name);
    } else {
      ensure!(kids.iter().all(|k| k.is_none()), "partial", "only some children of <{}> have ranges", s.name);
    }
  }
  ensure_eq!(dnm.node_map.len(), b.root.preorder().iter().filter(|s| get(s).is_some()).count(), "foreign", "nodes with a range");
  // the ranges read back the text of the nodes
  for s in b.root.preorder() {
    if let Ok(r) = dnm.get_range_of_node(s.node) {
      let text: String = dnm.runtime.chars[r.start..r.end].iter().collect();
      ensure_eq!(r.get_plaintext(), text.as_str(), "node-text", "plaintext of <{}>", s.name);
      ensure_eq!(r.is_empty(), text.is_empty(), "is-empty", "is_empty of the range of <{}>", s.name);
    }
  }
  if b.root.node.to_hashable() != b.whole.node.to_hashable() {
    ensure!(dnm.get_range_of_node(b.whole.node).is_err(), "outside", "a node outside of the DNM has a range");
  }
  ctx.nontrivial(entered >= 2 && n >= 3);
  Ok(())
}

// ---- P02 -------------------------------------------------------------------------------------

fn check_plaintext(c: &Case, ctx: &mut Ctx) -> Res {
  let b = build(c);
  labels(c, &b, ctx);
  let want: String = b.model.chars.iter().collect();
  ensure_eq!(b.dnm.plaintext, want, "plaintext", "plaintext");
  let again = DNM::new(b.root.node, c.par.to_code());
  ensure_eq!(again.plaintext, b.dnm.plaintext, "deterministic", "a second DNM of the same node");
  for s in b.root.preorder() {
    let code = b.dnm.get_range_of_node(s.node).ok().map(|r| (r.start, r.end));
    ensure_eq!(code, b.model.map.get(&s.node.to_hashable()).copied(), "node-range", "range of <{}> {:?}", s.name, s.text);
  }
  ctx.nontrivial(b.model.tokens + b.model.skipped > 0 && want.chars().any(|c| c.is_alphabetic()));
  ctx.label_if(b.root.elements().iter().any(|s| s.classes().iter().filter(|k| c.par.classes.iter().any(|(n, _)| n == *k)).count() > 1), "several special classes");
  ctx.label_if(
    b.root.elements().iter().any(|s| c.par.names.iter().any(|(n, _)| *n == s.name) && s.classes().iter().any(|k| c.par.classes.iter().any(|(n, _)| n == k))),
    "special name and class",
  );
  Ok(())
}

// ---- P03 -------------------------------------------------------------------------------------

fn check_back(c: &Case, ctx: &mut Ctx) -> Res {
  let b = build(c);
  labels(c, &b, ctx);
  let code: Vec<(usize, i32)> = b.dnm.back_map.iter().map(|(n, o)| (n.to_hashable(), *o)).collect();
  if !c.par.back {
    ensure!(code.is_empty(), "unrequested", "a back map was built although it was not requested");
    return Ok(());
  }
  ensure_eq!(code.len(), b.dnm.plaintext.chars().count(), "length", "one entry per character");
  for (i, (x, y)) in code.iter().zip(&b.model.back).enumerate() {
    ensure_eq!(x, y, "entry", "origin of character {i} ({:?}) of {:?}", b.model.chars[i], b.dnm.plaintext);
  }
  // independent of the model: without rewriting, the character is the one in the DOM
  let texts: HashMap<usize, Vec<char>> = b.root.preorder().iter().filter(|s| s.kind == Kind::Text).map(|s| (s.node.to_hashable(), s.text.chars().collect())).collect();
  if !c.par.unicode && !c.par.lower {
    for (i, ch) in b.dnm.plaintext.chars().enumerate() {
      let (node, off) = code[i];
      if off >= 0 {
        let orig = texts.get(&node).and_then(|t| t.get(off as usize)).copied();
        ensure!(orig == Some(ch) || (ch == ' ' && orig.is_some_and(|o| o.is_whitespace())), "dom-char", "character {i} is {ch:?}, the DOM has {orig:?}");
      }
    }
  }
  for i in 0..code.len() {
    let r = DNMRange { start: i, end: i + 1, dnm: &b.dnm };
    ensure_eq!(r.get_node().to_hashable(), b.model.back[i].0, "get-node", "get_node of the range at {i}");
  }
  ctx.nontrivial(code.iter().any(|x| x.1 >= 0) && code.windows(2).any(|w| w[0].0 != w[1].0));
  ctx.label_if(code.windows(2).any(|w| w[0] == w[1] && w[0].1 >= 0), "one character became several");
  Ok(())
}

// ---- P04 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Ranges {
  text: String,
  unicode: bool,
  ws: bool,
  picks: Vec<(u32, u32, u32, u32)>,
}
fn check_ranges(c: &Ranges, ctx: &mut Ctx) -> Res {
  let par = DNMParameters { normalize_unicode: c.unicode, normalize_white_spaces: c.ws, ..DNMParameters::default() };
  let (_doc, dnm) = DNM::from_str(&c.text, Some(par)).unwrap();
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let n = chars.len();
  let text = |a: usize, z: usize| chars[a..z].iter().collect::<String>();
  let between = |x: u32, y: u32, lo: usize, hi: usize| {
    let (a, z) = (lo + x as usize % (hi - lo + 1), lo + y as usize % (hi - lo + 1));
    (a.min(z), a.max(z))
  };
  for &(x, y, u, v) in &c.picks {
    let (s, e) = between(x, y, 0, n);
    let r = DNMRange { start: s, end: e, dnm: &dnm };
    let t = text(s, e);
    ensure_eq!(r.get_plaintext(), t.as_str(), "plaintext", "get_plaintext of {s}..{e}");
    ensure_eq!(r.get_plaintext_truncated(), t.trim_end(), "truncated", "get_plaintext_truncated of {s}..{e}");
    ensure_eq!(r.is_empty(), s == e, "is-empty", "is_empty of {s}..{e}");
    let cl = r.clone();
    ensure_eq!((cl.start, cl.end), (s, e), "clone", "clone");
    // trim
    let trimmed = r.trim();
    let lead = t.chars().take_while(|c| c.is_whitespace()).count();
    let trail = t.chars().rev().take_while(|c| c.is_whitespace()).count();
    let want = if lead == t.chars().count() { (e, e) } else { (s + lead, e - trail) };
    ensure_eq!((trimmed.start, trimmed.end), want, "trim", "trim of {s}..{e} {t:?}");
    ensure_eq!(trimmed.get_plaintext(), t.trim(), "trim-text", "text of the trimmed range {s}..{e}");
    let twice = trimmed.trim();
    ensure_eq!((twice.start, twice.end), want, "trim-twice", "trim is idempotent");
    ctx.label_if(lead > 0 && lead == t.chars().count(), "all blank");
    ctx.label_if(t.chars().any(|c| c.is_whitespace() && c.len_utf8() > 1), "wide blank");
    // sub-ranges
    let (a, z) = between(u, v, 0, e - s);
    let sub = r.get_subrange(a, z);
    ensure_eq!((sub.start, sub.end), (s + a, s + z), "subrange", "get_subrange({a}, {z}) of {s}..{e}");
    ensure_eq!(sub.get_plaintext(), text(s + a, s + z).as_str(), "subrange-text", "text of get_subrange({a}, {z})");
    // byte sub-ranges: the characters that contain the bytes
    let bytes = t.len();
    let (a, z) = between(u, v, 0, bytes);
    if a < z {
      let of: Vec<usize> = t.chars().enumerate().flat_map(|(i, c)| std::iter::repeat_n(i, c.len_utf8())).collect();
      let sub = r.get_subrange_from_byte_offsets(a, z);
      ensure_eq!((sub.start, sub.end), (s + of[a], s + of[z - 1] + 1), "byte-subrange", "get_subrange_from_byte_offsets({a}, {z}) of {s}..{e} {t:?}");
      if t.is_char_boundary(a) && t.is_char_boundary(z) {
        ensure_eq!(sub.get_plaintext(), &t[a..z], "byte-subrange-text", "text of bytes {a}..{z}");
      } else {
        ctx.label("bytes inside a character");
      }
    }
    ctx.nontrivial(s > 0 && e > s && t.len() > t.chars().count());
    ctx.label_if(e == n, "to the end");
  }
  Ok(())
}

// ---- P05 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Pointers {
  case: Case,
  picks: Vec<(u32, u32)>,
}
fn check_pointers(c: &Pointers, ctx: &mut Ctx) -> Res {
  let b = build(&c.case);
  let back: Vec<(usize, i32)> = b.dnm.back_map.iter().map(|(n, o)| (n.to_hashable(), *o)).collect();
  let n = back.len();
  if n == 0 {
    return Ok(());
  }
  let context = Context::new(&b.doc).unwrap();
  for (p, u) in PREFIXES {
    context.register_namespace(p, u).unwrap();
  }
  // positions between characters that come from the same place of the DOM cannot be told apart:
  // they are moved to the start of the group, or over a replaced node at the end of a range
  let group_start = |i: usize| (0..=i).rev().take_while(|j| back[*j] == back[i]).last().unwrap();
  let group_end = |i: usize| (i..n).take_while(|j| back[*j] == back[i]).last().unwrap() + 1;
  // a node with an address follows the last replaced node
  let followed = {
    let all = b.root.preorder();
    let i = all.iter().position(|x| x.node.to_hashable() == back[n - 1].0).unwrap();
    let below = all[i].preorder().len();
    all[i + below..].iter().any(|x| x.kind == Kind::Elem || x.kind == Kind::Text)
  };
  let last_is_token = back[n - 1].1 < 0 && !followed;
  let last_token_start = group_start(n - 1);
  let mut judged = 0;
  let mut picks: Vec<(usize, usize)> = c.picks.iter().map(|(x, y)| (*x as usize % n, *y as usize % (n + 1))).collect();
  picks.push((0, n));
  for (x, y) in picks {
    let (s, e) = (x.min(y).min(n - 1), x.max(y));
    // the end of the last replaced node has no address of its own (documented by a warning)
    if last_is_token && e > last_token_start {
      ctx.label("end of the last token (not judged)");
      continue;
    }
    let r = DNMRange { start: s, end: e, dnm: &b.dnm };
    let ptr = r.serialize();
    ensure!(ptr.starts_with("arange(") && ptr.ends_with(')'), "form", "{ptr:?} is not an arange");
    let got = DNMRange::deserialize(&ptr, &b.dnm, &context);
    let want_s = group_start(s);
    let want_e = if e == n || group_start(e) == e {
      e
    } else if back[e].1 < 0 {
      group_end(e)
    } else {
      group_start(e)
    };
    ensure_eq!((got.start, got.end), (want_s, want_e), "round-trip", "{s}..{e} of {:?} serialized as {ptr}", b.dnm.plaintext);
    judged += 1;
    ctx.label_if(ptr.contains("@id="), "id path");
    ctx.label_if(back[s].1 < 0, "starts in a token");
    ctx.label_if(e < n && back[e].1 < 0 && group_start(e) != e, "ends in a token");
    ctx.label_if(e < n && back[e].1 < 0 && group_start(e) == e, "ends before a token");
    ctx.label_if(e == n, "ends at the end of the text");
    ctx.label_if(b.root.node.to_hashable() != b.whole.node.to_hashable(), "sub-root");
  }
  ctx.nontrivial(judged > 1 && back.windows(2).any(|w| w[0].0 != w[1].0));
  Ok(())
}
/// a pointer made with some parameters, read with others
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Cross {
  case: Case,
  reader: Par,
  picks: Vec<(u32, u32)>,
}
fn check_cross(c: &Cross, ctx: &mut Ctx) -> Res {
  let b = build(&c.case);
  let reader = DNM::new(b.root.node, c.reader.to_code());
  let back: Vec<(usize, i32)> = b.dnm.back_map.iter().map(|(n, o)| (n.to_hashable(), *o)).collect();
  let n = back.len();
  if n == 0 {
    return Ok(());
  }
  let context = Context::new(&b.doc).unwrap();
  for (p, u) in PREFIXES {
    context.register_namespace(p, u).unwrap();
  }
  let mut parents: HashMap<usize, usize> = HashMap::new();
  for s in b.root.preorder() {
    for k in &s.kids {
      parents.insert(k.node.to_hashable(), s.node.to_hashable());
    }
  }
  let model = Model::of(&b.root, &c.reader);
  // the same place, or the start of the smallest recorded element around it
  let place = |node: usize, off: i32| {
    let mut at = node;
    loop {
      if let Some(&(start, end)) = model.map.get(&at) {
        return match at == node && off >= 0 {
          true => ((start..end).find(|i| model.back[*i].1 >= off).unwrap_or(end), true),
          false => (start, at == node),
        };
      }
      at = parents[&at];
    }
  };
  let mut judged = 0;
  let picks = c.picks.iter().map(|(x, y)| (*x as usize % n, *y as usize % (n + 1))).chain([(0, n)]);
  for (x, y) in picks {
    let (s, e) = (x.min(y).min(n - 1), x.max(y));
    let (end_node, end_off) = if e < n { back[e] } else { (back[n - 1].0, if back[n - 1].1 < 0 { -1 } else { back[n - 1].1 + 1 }) };
    // ends in or after a replaced element are the start of whatever follows it
    if end_off < 0 && (e == n || b.model.map[&end_node].0 < e) {
      continue;
    }
    let ptr = DNMRange { start: s, end: e, dnm: &b.dnm }.serialize();
    let got = DNMRange::deserialize(&ptr, &reader, &context);
    let (want_s, seen_s) = place(back[s].0, back[s].1);
    let (want_e, seen_e) = place(end_node, end_off);
    ensure_eq!((got.start, got.end), (want_s, want_e), "other-parameters", "{s}..{e} of {:?}, {ptr}, read in {:?}", b.dnm.plaintext, reader.plaintext);
    judged += 1;
    ctx.label_if(!seen_s || !seen_e, "inside of a replaced element");
    ctx.label_if(back[s].1 < 0, "starts at a replaced element");
  }
  ctx.nontrivial(judged > 1 && b.dnm.plaintext != reader.plaintext);
  Ok(())
}
fn check_no_back(c: &Case, ctx: &mut Ctx) -> Res {
  let b = build(c);
  let r = b.dnm.get_range().unwrap();
  // documented: without the back map, serialization is refused
  let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.serialize())).is_err();
  if !refused {
    fail!("not-refused", "a range of a DNM without back mapping was serialized")
  }
  ctx.nontrivial(!b.dnm.plaintext.is_empty());
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let assume = vec!["the unidecode and morpha dependencies are replaced by test doubles with the same contracts (see DESIGN.md)"];
  let ranges = |_t: Tier| {
    (vec(texts(), 0..6).prop_map(|v| v.concat()), any::<bool>(), any::<bool>(), vec(any::<(u32, u32, u32, u32)>(), 1..6))
      .prop_map(|(text, unicode, ws, picks)| Ranges { text, unicode, ws, picks })
      .boxed()
  };
  let pointers = |t: Tier| {
    (case(t), vec(any::<(u32, u32)>(), 1..6))
      .prop_map(|(mut case, picks)| {
        case.par.stem = 0;
        case.par.back = true;
        Pointers { case, picks }
      })
      .boxed()
  };
  let long_ranges = move |t: Tier| (ranges(t), prop_oneof![50u32..600, 600u32..6_000]).boxed();
  let large_pointers = |t: Tier| {
    (large(t), vec(any::<(u32, u32)>(), 1..12))
      .prop_map(|(mut l, picks)| {
        l.case.par.stem = 0;
        l.case.par.back = true;
        (l, picks)
      })
      .boxed()
  };
  let cross = |t: Tier| {
    (case(t), params(), prop::bool::weighted(0.5), vec(any::<(u32, u32)>(), 1..6))
      .prop_map(|(mut case, mut reader, plain, picks)| {
        for p in [&mut case.par, &mut reader] {
          p.stem = 0;
          p.back = true;
        }
        if plain {
          case.par.names.clear();
          case.par.classes.clear();
        }
        Cross { case, reader, picks }
      })
      .boxed()
  };
  let refused = |t: Tier| {
    case(t)
      .prop_map(|mut c| {
        c.par.back = false;
        c
      })
      .boxed()
  };
  vec![
    Prop {
      id: "P01",
      rule: "documents x parameters x DNM roots; offsets and node ranges are checked against each other and the DOM; non-trivial: at least two nodes with several recorded children and three characters",
      assumptions: assume.clone(),
      subs: vec![
        sub("structure", (60_000, 1_000_000), "structural invariants of the node map and the offsets", case, check_structure),
        enumerate("characters", "every character of planes 0 and 1 and the ends of the others, under eight parameter sets", all_characters, |c: &Chars, ctx| check_structure(&characters_case(c), ctx)),
        sub("large", (120, 1_500), "the same on long texts, many siblings and deep nesting", large, |l, ctx| {
          large_labels(&l.blow, ctx);
          check_structure(&expand(l), ctx)
        }),
        enumerate("huge", HUGE, huge, |k: &(u8, u32), ctx| on_worker_stack(|ctx| check_structure(&huge_case(*k), ctx), ctx)),
      ],
    },
    Prop {
      id: "P02",
      rule: "documents x parameters x DNM roots against a reference construction; non-trivial: a token or a skipped subtree, and some letters",
      assumptions: assume.clone(),
      subs: vec![
        sub("model", (60_000, 1_000_000), "plaintext and node ranges of the reference construction", case, check_plaintext),
        enumerate("characters", "every character of planes 0 and 1 and the ends of the others, under eight parameter sets", all_characters, |c: &Chars, ctx| check_plaintext(&characters_case(c), ctx)),
        sub("large", (120, 1_500), "the same on long texts, many siblings and deep nesting", large, |l, ctx| {
          large_labels(&l.blow, ctx);
          check_plaintext(&expand(l), ctx)
        }),
        enumerate("huge", HUGE, huge, |k: &(u8, u32), ctx| on_worker_stack(|ctx| check_plaintext(&huge_case(*k), ctx), ctx)),
      ],
    },
    Prop {
      id: "P03",
      rule: "as P02, comparing the origin of every character; non-trivial: text characters and at least two origins",
      assumptions: assume.clone(),
      subs: vec![
        sub("origins", (60_000, 1_000_000), "origin of every plaintext character", case, check_back),
        enumerate("characters", "every character of planes 0 and 1 and the ends of the others, under eight parameter sets", all_characters, |c: &Chars, ctx| check_back(&characters_case(c), ctx)),
        sub("large", (120, 1_500), "the same on long texts, many siblings and deep nesting", large, |l, ctx| {
          large_labels(&l.blow, ctx);
          check_back(&expand(l), ctx)
        }),
        enumerate("huge", HUGE, huge, |k: &(u8, u32), ctx| on_worker_stack(|ctx| check_back(&huge_case(*k), ctx), ctx)),
      ],
    },
    Prop {
      id: "P04",
      rule: "texts with characters of 1-4 bytes and several ranges each, against character and byte arithmetic on the text; non-trivial: a non-empty range that does not start at 0 and contains a multi-byte character",
      assumptions: vec!["sub-ranges lie within their range; byte sub-ranges are not empty"],
      subs: vec![
        sub("algebra", (60_000, 1_000_000), "ranges, trims and sub-ranges", ranges, check_ranges),
        enumerate("characters", "every character of planes 0 and 1 and the ends of the others", all_characters, |c: &Chars, ctx| {
          let text: String = vcommon::gen::characters(c.0).into_iter().collect();
          let picks = (0..6u32).map(|i| { let h = hash_bytes(&[c.0 .0 as u8, (c.0 .0 >> 8) as u8, (c.0 .0 >> 16) as u8, c.1, i as u8]); (h as u32, (h >> 16) as u32, (h >> 24) as u32, (h >> 32) as u32) }).collect();
          check_ranges(&Ranges { text, unicode: c.1 & 1 != 0, ws: c.1 & 2 != 0, picks }, ctx)
        }),
        sub("large", (100, 2_000), "the same on texts of up to some 100,000 characters", long_ranges, |l, ctx| check_ranges(&Ranges { text: l.0.text.repeat(l.1 as usize), ..l.0.clone() }, ctx)),
      ],
    },
    Prop {
      id: "P05",
      rule: "ranges of generated documents serialized and read back; non-trivial: at least two ranges judged and two origins in the text",
      assumptions: vec![
        "ids are unique; namespace prefixes are registered with the XPath context; no body inside of a body",
        "positions inside one character's expansion or one token cannot be told apart (starts move to the group's start)",
        "a range that ends inside the document's last replaced node is not judged (the code warns that it cannot be addressed)",
      ],
      subs: vec![
        sub("round_trip", (40_000, 800_000), "arbitrary ranges of arbitrary documents", pointers, check_pointers),
        enumerate("characters", "every character of planes 0 and 1 and the ends of the others, under eight parameter sets", all_characters, |c: &Chars, ctx| {
          let picks = (0..6u32).map(|i| { let h = hash_bytes(&[c.0 .0 as u8, (c.0 .0 >> 8) as u8, (c.0 .0 >> 16) as u8, c.1, i as u8]); (h as u32, (h >> 24) as u32) }).collect();
          check_pointers(&Pointers { case: characters_case(c), picks }, ctx)
        }),
        sub("large", (120, 1_500), "the same on long texts, many siblings and deep nesting", large_pointers, |l, ctx| {
          large_labels(&l.0.blow, ctx);
          check_pointers(&Pointers { case: expand(&l.0), picks: l.1.clone() }, ctx)
        }),
        enumerate("huge", HUGE, huge, |k: &(u8, u32), ctx| on_worker_stack(|ctx| check_pointers(&Pointers { case: huge_case(*k), picks: (0..6u32).map(|i| (i * 7919, i * 104_729 + 1)).collect() }, ctx), ctx)),
        sub("other_parameters", (20_000, 400_000), "pointers read in a DNM of the same node with other parameters", cross, check_cross),
        sub("refused", (400, 4_000), "no back map, no serialization", refused, check_no_back),
      ],
    },
  ]
}
