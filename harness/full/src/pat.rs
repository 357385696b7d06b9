//! P15 loading of pattern files, P16 matching: a parser and an interpreter of the pattern language
//! of their own, over the same files.
use crate::dnmgen::{parse, Model, Par, Rule};
use libxml::parser::Parser;
use llamapun::dnm::*;
use llamapun::patterns::{match_sentence, MarkerEnum, Match, PatternFile};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, PSGParent, Sentence, Word};
use std::collections::{BTreeMap, HashMap};
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::proptest::strategy::Union;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq, fail};

// ---- the language ------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Mk {
  name: String,
  tags: Vec<String>,
}
#[derive(Clone, Debug)]
enum Seq {
  Ref(String),
  Word(Wd),
  Seq(Vec<Seq>),
  Phrase { label: Phrase, longest: bool, start: Option<(Box<Seq>, bool)>, end: Option<Box<Seq>> },
  Mark(Box<Seq>, Mk),
  Or(Vec<Seq>, String),
}
#[derive(Clone, Debug)]
enum Wd {
  Ref(String),
  Or(Vec<Wd>),
  Lit(String),
  Pos(Ps, Box<Wd>),
  Math(Mt),
  Any,
  Not(Box<Wd>),
  Mark(Box<Wd>, Mk),
}
#[derive(Clone, Debug)]
enum Mt {
  Any,
  Ref(String),
  Mark(Box<Mt>, Mk),
  Or(Vec<Mt>),
  Node(Option<String>, Option<String>, Option<(Vec<Mt>, String)>),
  Desc(Box<Mt>, String),
}
#[derive(Clone, Debug)]
enum Tx {
  Any,
  Or(Vec<Tx>),
  Lit(String),
  Not(Box<Tx>),
  Ref(String),
}
#[derive(Clone, Debug)]
enum Ps {
  Is(POS),
  Not(Box<Ps>),
  Or(Vec<Ps>),
  Ref(String),
}
/// rules of a kind: name -> summary, pattern
type Rules<P> = BTreeMap<String, (String, P)>;
#[derive(Debug, Default)]
struct Prog {
  summary: String,
  seq: Rules<Seq>,
  word: Rules<Wd>,
  math: Rules<Mt>,
  mtext: Rules<Tx>,
  pos: Rules<Ps>,
}

// ---- the parser --------------------------------------------------------------------------------

#[derive(Debug)]
enum Flaw {
  /// not in the language
  Bad(String),
  /// the language does not say
  Open(String),
}
type P<T> = Result<T, Flaw>;
fn bad<T>(s: impl Into<String>) -> P<T> { Err(Flaw::Bad(s.into())) }

fn kids(s: &Snap) -> P<Vec<&Snap>> {
  let mut v = Vec::new();
  for k in &s.kids {
    match k.kind {
      Kind::Elem => v.push(k),
      Kind::Text if !k.text.trim().is_empty() => return bad(format!("text in {}", s.name)),
      Kind::Other => return Err(Flaw::Open("other node".into())),
      _ => {},
    }
  }
  Ok(v)
}
fn only(s: &Snap) -> P<&Snap> {
  let k = kids(s)?;
  if k.len() == 1 {
    Ok(k[0])
  } else {
    bad(format!("{} children of {}", k.len(), s.name))
  }
}
fn none(s: &Snap) -> P<()> {
  if kids(s)?.is_empty() {
    Ok(())
  } else {
    bad(format!("child of {}", s.name))
  }
}
fn attr(s: &Snap, n: &str) -> P<String> { s.node.get_property(n).map(Ok).unwrap_or_else(|| bad(format!("{} without {n}", s.name))) }
fn content(s: &Snap) -> P<String> {
  if s.kids.iter().any(|k| k.kind == Kind::Elem) {
    return bad(format!("element in {}", s.name));
  }
  if s.kids.iter().any(|k| k.kind != Kind::Text) || s.kids.len() > 1 {
    return Err(Flaw::Open("comment in content".into()));
  }
  Ok(s.kids.first().map(|k| k.text.trim().to_string()).unwrap_or_default())
}
fn one_of(v: String, list: &[&str]) -> P<String> {
  if list.contains(&v.as_str()) {
    Ok(v)
  } else {
    bad(format!("value {v}"))
  }
}
fn marker(s: &Snap) -> P<Mk> {
  let name = attr(s, "name")?;
  let tags = match s.node.get_property("tags") {
    None => vec![],
    Some(t) => t.split(',').map(|t| t.trim().to_string()).collect(),
  };
  Ok(Mk { name, tags })
}
fn all<T>(s: &Snap, f: fn(&Snap) -> P<T>) -> P<Vec<T>> { kids(s)?.into_iter().map(f).collect() }
fn seq(s: &Snap) -> P<Seq> {
  Ok(match s.name.as_str() {
    "seq_ref" => {
      none(s)?;
      Seq::Ref(attr(s, "ref")?)
    },
    "seq_word" => Seq::Word(word(only(s)?)?),
    "seq_seq" => Seq::Seq(all(s, seq)?),
    "phrase" => {
      let tag = attr(s, "tag")?;
      let Some((label, _)) = Phrase::ALL.iter().find(|x| x.1 == tag) else { return bad(format!("phrase {tag}")) };
      let (mut longest, mut start, mut end, mut types) = (true, None, None, 0);
      let mut open = false;
      for k in kids(s)? {
        match k.name.as_str() {
          "match_type" => {
            longest = one_of(content(k)?, &["shortest", "longest"])? == "longest";
            types += 1;
            open |= types > 1;
          },
          "starts_with_seq" => {
            if start.is_some() {
              return bad("two start conditions");
            }
            let c = k.node.get_property("containment").unwrap_or("any".into());
            start = Some((Box::new(seq(only(k)?)?), one_of(c, &["lessorequal", "any"])? != "any"));
          },
          "ends_with_seq" => {
            if end.is_some() {
              return bad("two end conditions");
            }
            end = Some(Box::new(seq(only(k)?)?));
          },
          n => return bad(format!("{n} in phrase")),
        }
      }
      if open {
        return Err(Flaw::Open("two match types".into()));
      }
      Seq::Phrase { label: *label, longest, start, end }
    },
    "seq_marker" => Seq::Mark(Box::new(seq(only(s)?)?), marker(s)?),
    "seq_or" => {
      let t = s.node.get_property("match_type").unwrap_or("first".into());
      Seq::Or(all(s, seq)?, one_of(t, &["first", "atleastone", "any", "longest"])?)
    },
    n => return bad(format!("sequence {n}")),
  })
}
fn word(s: &Snap) -> P<Wd> {
  Ok(match s.name.as_str() {
    "word_ref" => {
      none(s)?;
      Wd::Ref(attr(s, "ref")?)
    },
    "word_or" => Wd::Or(all(s, word)?),
    "word" => Wd::Lit(content(s)?),
    "word_math" => Wd::Math(math(only(s)?)?),
    "word_any" => {
      if !s.kids.is_empty() {
        return Err(Flaw::Open("content of word_any".into()));
      }
      Wd::Any
    },
    "word_not" => Wd::Not(Box::new(word(only(s)?)?)),
    "word_marker" => Wd::Mark(Box::new(word(only(s)?)?), marker(s)?),
    "word_pos" => {
      let (mut w, mut p) = (None, None);
      for k in kids(s)? {
        if k.name == "pos" {
          if p.is_some() {
            return bad("two tags");
          }
          p = Some(pos(only(k)?)?);
        } else {
          if w.is_some() {
            return bad("two words");
          }
          w = Some(word(k)?);
        }
      }
      match (p, w) {
        (Some(p), Some(w)) => Wd::Pos(p, Box::new(w)),
        _ => return bad("incomplete word_pos"),
      }
    },
    n => return bad(format!("word {n}")),
  })
}
fn math(s: &Snap) -> P<Mt> {
  Ok(match s.name.as_str() {
    "math_any" => {
      none(s)?;
      Mt::Any
    },
    "math_ref" => {
      none(s)?;
      Mt::Ref(attr(s, "ref")?)
    },
    "math_or" => Mt::Or(all(s, math)?),
    "math_marker" => Mt::Mark(Box::new(math(only(s)?)?), marker(s)?),
    "math_descendant" => {
      let t = one_of(attr(s, "match_type")?, &["first", "at_least_one", "arbitrary"])?;
      Mt::Desc(Box::new(math(only(s)?)?), t)
    },
    "math_node" => {
      let (mut t, mut c) = (None, None);
      for k in kids(s)? {
        match k.name.as_str() {
          "mtext_ref" => {
            if t.is_some() {
              return bad("two symbols");
            }
            none(k)?;
            t = Some(attr(k, "ref")?);
          },
          "math_children" => {
            if c.is_some() {
              return bad("two child lists");
            }
            let ty = one_of(attr(k, "match_type")?, &["starts_with", "exact", "ends_with", "arbitrary"])?;
            let list = all(k, math)?;
            if list.is_empty() {
              return bad("empty child list");
            }
            c = Some((list, ty));
          },
          n => return bad(format!("{n} in math_node")),
        }
      }
      Mt::Node(s.node.get_property("name"), t, c)
    },
    n => return bad(format!("math {n}")),
  })
}
fn mtext(s: &Snap) -> P<Tx> {
  Ok(match s.name.as_str() {
    "mtext_any" => {
      none(s)?;
      Tx::Any
    },
    "mtext_or" => Tx::Or(all(s, mtext)?),
    "mtext_lit" => {
      none(s)?;
      Tx::Lit(attr(s, "str")?)
    },
    "mtext_not" => Tx::Not(Box::new(mtext(only(s)?)?)),
    "mtext_ref" => {
      none(s)?;
      Tx::Ref(attr(s, "ref")?)
    },
    n => return bad(format!("mtext {n}")),
  })
}
fn pos(s: &Snap) -> P<Ps> {
  Ok(match s.name.as_str() {
    "pos" => {
      none(s)?;
      let tag = attr(s, "tag")?;
      match POS::ALL.iter().find(|x| x.1 == tag) {
        Some((p, _)) => Ps::Is(*p),
        None => return bad(format!("tag {tag}")),
      }
    },
    "pos_not" => Ps::Not(Box::new(pos(only(s)?)?)),
    "pos_ref" => {
      none(s)?;
      Ps::Ref(attr(s, "ref")?)
    },
    "pos_or" => Ps::Or(all(s, pos)?),
    n => return bad(format!("pos {n}")),
  })
}
fn meta(s: &Snap) -> P<String> {
  let mut d = None;
  for k in kids(s)? {
    if k.name != "description" {
      return bad(format!("{} in meta", k.name));
    }
    if d.is_some() {
      return bad("two descriptions");
    }
    d = Some(content(k)?);
  }
  Ok(d.unwrap_or_default())
}
fn rule<T>(s: &Snap, f: fn(&Snap) -> P<T>, to: &mut Rules<T>) -> P<()> {
  let name = attr(s, "name")?;
  let (mut m, mut p) = (None, None);
  for k in kids(s)? {
    if k.name == "meta" {
      if m.is_some() {
        return bad("two metas");
      }
      m = Some(meta(k)?);
    } else {
      if p.is_some() {
        return bad("two patterns");
      }
      p = Some(f(k)?);
    }
  }
  let Some(p) = p else { return bad("no pattern") };
  if to.insert(name.clone(), (m.unwrap_or_default(), p)).is_some() {
    return bad(format!("second rule {name}"));
  }
  Ok(())
}
fn program(root: &Snap) -> P<Prog> {
  let mut p = Prog::default();
  let mut m = None;
  let mut refs: [Vec<String>; 5] = Default::default();
  for k in kids(root)? {
    match k.name.as_str() {
      "meta" => {
        if m.is_some() {
          return bad("two metas of the file");
        }
        m = Some(meta(k)?);
      },
      "seq_rule" => rule(k, seq, &mut p.seq)?,
      "word_rule" => rule(k, word, &mut p.word)?,
      "math_rule" => rule(k, math, &mut p.math)?,
      "mtext_rule" => rule(k, mtext, &mut p.mtext)?,
      "pos_rule" => rule(k, pos, &mut p.pos)?,
      n => return bad(format!("top-level {n}")),
    }
    if k.name != "meta" {
      for e in k.elements() {
        if let Some(i) = REFS.iter().position(|r| *r == e.name) {
          refs[i].push(attr(e, "ref")?);
        }
      }
    }
  }
  p.summary = m.unwrap_or_default();
  let known = |i: usize, n: &String| match i {
    0 => p.seq.contains_key(n),
    1 => p.word.contains_key(n),
    2 => p.math.contains_key(n),
    3 => p.mtext.contains_key(n),
    _ => p.pos.contains_key(n),
  };
  for (i, list) in refs.iter().enumerate() {
    if let Some(n) = list.iter().find(|n| !known(i, n)) {
      return bad(format!("{} to {n}", REFS[i]));
    }
  }
  Ok(p)
}
const REFS: [&str; 5] = ["seq_ref", "word_ref", "math_ref", "mtext_ref", "pos_ref"];
const RULES: [&str; 5] = ["seq_rule", "word_rule", "math_rule", "mtext_rule", "pos_rule"];

// ---- the interpreter ---------------------------------------------------------------------------

/// a match tree
#[derive(Clone, Debug, PartialEq)]
struct M {
  /// text markers: range in the plaintext, and its text
  text: Option<(usize, usize, String)>,
  /// math markers: the node
  node: Option<usize>,
  mk: Mk,
  subs: Vec<M>,
}
struct W<'a> {
  text: String,
  start: usize,
  end: usize,
  pos: POS,
  /// the formula the word stands for
  formula: Option<&'a Snap>,
}
/// a parse tree: label, first and last word, sub-phrases
struct Ph {
  label: Phrase,
  from: usize,
  to: usize,
}
struct Run<'a> {
  prog: &'a Prog,
  chars: &'a [char],
  words: &'a [W<'a>],
  phrases: &'a [Ph],
  steps: usize,
  depth: usize,
  empty_markers: usize,
}
/// the evaluation takes too long, or for ever
#[derive(Debug)]
struct Over;
type E<T> = Result<Option<T>, Over>;
impl<'a> Run<'a> {
  fn enter(&mut self) -> Result<(), Over> {
    self.steps += 1;
    self.depth += 1;
    if self.steps > 60_000 || self.depth > 150 {
      Err(Over)
    } else {
      Ok(())
    }
  }
  fn text_marker(&mut self, mk: &Mk, from: usize, to: usize, subs: Vec<M>) -> M {
    let (a, z) = if from < to {
      (self.words[from].start, self.words[to - 1].end)
    } else {
      self.empty_markers += 1;
      let at = self.words.get(from).map(|w| w.start).unwrap_or_else(|| self.words.last().unwrap().end);
      (at, at)
    };
    M { text: Some((a, z, self.chars[a..z].iter().collect())), node: None, mk: mk.clone(), subs }
  }
  fn seq(&mut self, s: &'a Seq, at: usize) -> E<(Vec<M>, usize)> {
    self.enter()?;
    let r = self.seq_(s, at);
    self.depth -= 1;
    r
  }
  fn seq_(&mut self, s: &'a Seq, at: usize) -> E<(Vec<M>, usize)> {
    match s {
      Seq::Ref(n) => self.seq(&self.prog.seq[n].1, at),
      Seq::Word(w) => {
        if at >= self.words.len() {
          return Ok(None);
        }
        Ok(self.word(w, at)?.map(|m| (m, at + 1)))
      },
      Seq::Seq(list) => {
        let (mut out, mut pos) = (vec![], at);
        for s in list {
          let Some((m, end)) = self.seq(s, pos)? else { return Ok(None) };
          out.extend(m);
          pos = end;
        }
        Ok(Some((out, pos)))
      },
      Seq::Mark(s, mk) => Ok(self.seq(s, at)?.map(|(m, end)| (vec![self.text_marker(mk, at, end, m)], end))),
      Seq::Or(list, how) => {
        let mut found: Vec<(Vec<M>, usize)> = vec![];
        for s in list {
          if let Some(r) = self.seq(s, at)? {
            found.push(r);
            if how == "first" {
              break;
            }
          }
        }
        let longest = found.iter().map(|r| r.1).max();
        Ok(match (how.as_str(), longest) {
          ("any", None) => Some((vec![], at)),
          (_, None) => None,
          ("longest", Some(l)) => found.into_iter().find(|r| r.1 == l),
          (_, Some(l)) => Some((found.into_iter().flat_map(|r| r.0).collect(), l)),
        })
      },
      Seq::Phrase { label, longest, start, end } => {
        let mut ends: Vec<usize> = self.phrases.iter().filter(|p| p.label == *label && p.from == at).map(|p| p.to + 1).collect();
        ends.sort();
        if *longest {
          ends.reverse();
        }
        for to in ends {
          let mut out = vec![];
          if let Some((c, inside)) = start {
            match self.seq(c, at)? {
              Some((m, z)) if z <= to || !*inside => out.extend(m),
              _ => continue,
            }
          }
          if let Some(c) = end {
            let mut hit = None;
            for from in at..to {
              if let Some((m, z)) = self.seq(c, from)? {
                if z == to {
                  hit = Some(m);
                  break;
                }
              }
            }
            match hit {
              Some(m) => out.extend(m),
              None => continue,
            }
          }
          return Ok(Some((out, to)));
        }
        Ok(None)
      },
    }
  }
  fn word(&mut self, w: &'a Wd, at: usize) -> E<Vec<M>> {
    self.enter()?;
    let r = self.word_(w, at);
    self.depth -= 1;
    r
  }
  fn word_(&mut self, w: &'a Wd, at: usize) -> E<Vec<M>> {
    match w {
      Wd::Ref(n) => self.word(&self.prog.word[n].1, at),
      Wd::Or(list) => {
        for w in list {
          if let Some(m) = self.word(w, at)? {
            return Ok(Some(m));
          }
        }
        Ok(None)
      },
      Wd::Lit(s) => Ok((*s == self.words[at].text).then(Vec::new)),
      Wd::Pos(p, w) => {
        if self.pos(p, self.words[at].pos)? {
          self.word(w, at)
        } else {
          Ok(None)
        }
      },
      Wd::Math(m) => {
        let inner = |s: &'a Snap| s.kids.iter().find(|k| k.kind == Kind::Elem);
        let Some(f) = self.words[at].formula.and_then(inner) else { return Ok(None) };
        let top = if f.name == "semantics" { inner(f) } else { Some(f) };
        match top {
          Some(t) => self.math(m, t),
          None => Ok(None),
        }
      },
      Wd::Any => Ok(Some(vec![])),
      Wd::Not(w) => Ok(if self.word(w, at)?.is_some() { None } else { Some(vec![]) }),
      Wd::Mark(w, mk) => Ok(self.word(w, at)?.map(|m| vec![self.text_marker(mk, at, at + 1, m)])),
    }
  }
  fn math(&mut self, m: &'a Mt, s: &'a Snap) -> E<Vec<M>> {
    self.enter()?;
    let r = self.math_(m, s);
    self.depth -= 1;
    r
  }
  fn math_(&mut self, m: &'a Mt, s: &'a Snap) -> E<Vec<M>> {
    match m {
      Mt::Any => Ok(Some(vec![])),
      Mt::Ref(n) => self.math(&self.prog.math[n].1, s),
      Mt::Mark(m, mk) => Ok(self.math(m, s)?.map(|subs| vec![M { text: None, node: Some(s.node.to_hashable()), mk: mk.clone(), subs }])),
      Mt::Or(list) => {
        for m in list {
          if let Some(r) = self.math(m, s)? {
            return Ok(Some(r));
          }
        }
        Ok(None)
      },
      Mt::Node(name, symbol, children) => {
        if name.as_ref().is_some_and(|n| *n != s.name) {
          return Ok(None);
        }
        if let Some(t) = symbol {
          // the node's only child is a text, or it has none
          let text = match &s.kids[..] {
            [] => "",
            [k] if k.kind == Kind::Text => &k.text,
            _ => return Ok(None),
          };
          if !self.mtext(&self.prog.mtext[t].1, text)? {
            return Ok(None);
          }
        }
        let Some((list, how)) = children else { return Ok(Some(vec![])) };
        let nodes: Vec<&Snap> = s.kids.iter().filter(|k| k.kind == Kind::Elem).collect();
        if nodes.len() < list.len() || (how == "exact" && nodes.len() != list.len()) {
          return Ok(None);
        }
        let last = nodes.len() - list.len();
        let starts = match how.as_str() {
          "ends_with" => last..=last,
          "arbitrary" => 0..=last,
          _ => 0..=0,
        };
        'starts: for from in starts {
          let mut out = vec![];
          for (m, n) in list.iter().zip(&nodes[from..]) {
            match self.math(m, n)? {
              Some(r) => out.extend(r),
              None => continue 'starts,
            }
          }
          return Ok(Some(out));
        }
        Ok(None)
      },
      Mt::Desc(m, how) => {
        let (mut out, mut any) = (vec![], false);
        for n in s.preorder().into_iter().filter(|n| n.kind == Kind::Elem) {
          if let Some(r) = self.math(m, n)? {
            any = true;
            out.extend(r);
            if how == "first" {
              break;
            }
          }
        }
        Ok((any || how == "arbitrary").then_some(out))
      },
    }
  }
  fn mtext(&mut self, t: &'a Tx, s: &str) -> Result<bool, Over> {
    self.enter()?;
    let r = match t {
      Tx::Any => true,
      Tx::Lit(l) => l == s,
      Tx::Not(t) => !self.mtext(t, s)?,
      Tx::Ref(n) => self.mtext(&self.prog.mtext[n].1, s)?,
      Tx::Or(l) => {
        let mut any = false;
        for t in l {
          any = any || self.mtext(t, s)?;
        }
        any
      },
    };
    self.depth -= 1;
    Ok(r)
  }
  fn pos(&mut self, p: &'a Ps, t: POS) -> Result<bool, Over> {
    self.enter()?;
    let r = match p {
      Ps::Is(x) => *x == t,
      Ps::Not(p) => !self.pos(p, t)?,
      Ps::Ref(n) => self.pos(&self.prog.pos[n].1, t)?,
      Ps::Or(l) => {
        let mut any = false;
        for p in l {
          any = any || self.pos(p, t)?;
        }
        any
      },
    };
    self.depth -= 1;
    Ok(r)
  }
}

// ---- generators --------------------------------------------------------------------------------

const VOCAB: &[&str] = &["let", "a", "an", "x", "é", "set", "Let", "北京", "of", "1"];
const TAGS: &[&str] = &["NN", "DT", "VB", "JJ", "PRP$"];
const LABELS: &[&str] = &["NP", "NP", "VP", "PP", "S"];
const SYMBOLS: &[&str] = &["x", "y", "∈", "<", "", " x", "x\"&"];
const NAMES: &[&str] = &["r", "s", "indefinite article", "é", "R&\"1"];
/// names that differ from the others in blanks or letter case only
const NEAR_NAMES: &[&str] = &["r ", " r", "R", "S", "s\t", "indefinite  article", "indefinite\narticle", "É", "e\u{301}", "", " ", "r&\"1", "r-", "rr"];

fn vocab() -> BoxedStrategy<String> { or_such(pick(VOCAB), |s| s.chars().all(|c| c.is_alphanumeric())) }
fn names() -> BoxedStrategy<String> { prop_oneof![12 => or_text(pick(NAMES)), 1 => pick(NEAR_NAMES)].boxed() }
fn el(name: &'static str, a: Vec<(&'static str, String)>, kids: Vec<T>) -> T {
  T::E(name.into(), a.into_iter().map(|(n, v)| (n.to_string(), v)).collect(), kids)
}
fn reference(kind: &'static str) -> BoxedStrategy<T> { names().prop_map(move |n| el(kind, vec![("ref", n)], vec![])).boxed() }
fn marked(kind: &'static str, inner: BoxedStrategy<T>) -> BoxedStrategy<T> {
  (or_text(pick(&["m1", "m2", "m 3"])), prop::option::weighted(0.3, pick(&["t", "a,b", " a , b", "é,,x"])), inner)
    .prop_map(move |(n, t, k)| {
      let mut a = vec![("name", n)];
      a.extend(t.map(|t| ("tags", t)));
      el(kind, a, vec![k])
    })
    .boxed()
}
fn many(kind: &'static str, inner: BoxedStrategy<T>, min: usize) -> BoxedStrategy<T> { vec(inner, min..=3).prop_map(move |k| el(kind, vec![], k)).boxed() }
fn around(kind: &'static str, inner: BoxedStrategy<T>) -> BoxedStrategy<T> { inner.prop_map(move |k| el(kind, vec![], vec![k])).boxed() }

fn mtext_gen() -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    4 => or_text(pick(SYMBOLS)).prop_map(|s| el("mtext_lit", vec![("str", s)], vec![])),
    1 => Just(el("mtext_any", vec![], vec![])),
    1 => reference("mtext_ref"),
  ];
  leaf.prop_recursive(2, 6, 3, |i| Union::new([many("mtext_or", i.clone().boxed(), 0), around("mtext_not", i.boxed())])).boxed()
}
fn pos_gen() -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    5 => pick(TAGS).prop_map(|s| el("pos", vec![("tag", s)], vec![])),
    1 => reference("pos_ref"),
  ];
  leaf.prop_recursive(2, 6, 3, |i| Union::new([many("pos_or", i.clone().boxed(), 0), around("pos_not", i.boxed())])).boxed()
}
fn math_node(children: Option<BoxedStrategy<T>>) -> BoxedStrategy<T> {
  let c = match children {
    None => Just(None).boxed(),
    Some(i) => prop::option::weighted(0.8, (pick(&["starts_with", "exact", "ends_with", "arbitrary"]), vec(i, 1..=3))).boxed(),
  };
  (prop::option::weighted(0.7, or_name(pick(&["mrow", "mi", "mo", "msub"]))), prop::option::weighted(0.4, names()), c, any::<bool>())
    .prop_map(|(n, t, c, order)| {
      let mut k: Vec<T> = Vec::new();
      k.extend(t.map(|t| el("mtext_ref", vec![("ref", t)], vec![])));
      k.extend(c.map(|(m, c)| el("math_children", vec![("match_type", m)], c)));
      if order {
        k.reverse();
      }
      el("math_node", n.map(|n| ("name", n)).into_iter().collect(), k)
    })
    .boxed()
}
fn math_gen(depth: u32) -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    1 => Just(el("math_any", vec![], vec![])),
    3 => math_node(None),
    1 => reference("math_ref"),
  ];
  leaf
    .prop_recursive(depth, 8, 3, |i| {
      let i = i.boxed();
      prop_oneof![
        2 => marked("math_marker", i.clone()),
        2 => many("math_or", i.clone(), 0),
        4 => math_node(Some(i.clone())),
        2 => (pick(&["first", "at_least_one", "arbitrary"]), i).prop_map(|(m, k)| el("math_descendant", vec![("match_type", m)], vec![k])),
      ]
    })
    .boxed()
}
fn word_gen(depth: u32) -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    5 => vocab().prop_map(|s| el("word", vec![], vec![x(&s)])),
    1 => Just(el("word_any", vec![], vec![])),
    1 => reference("word_ref"),
    2 => around("word_math", math_gen(2)),
  ];
  leaf
    .prop_recursive(depth, 6, 3, |i| {
      let i = i.boxed();
      prop_oneof![
        2 => marked("word_marker", i.clone()),
        3 => many("word_or", i.clone(), 0),
        1 => around("word_not", i.clone()),
        2 => (pos_gen(), i, any::<bool>()).prop_map(|(p, w, order)| {
          let mut k = vec![el("pos", vec![], vec![p]), w];
          if order {
            k.reverse();
          }
          el("word_pos", vec![], k)
        }),
      ]
    })
    .boxed()
}
fn phrase(cond: Option<BoxedStrategy<T>>) -> BoxedStrategy<T> {
  let (s, e) = match cond {
    None => (Just(None).boxed(), Just(None).boxed()),
    Some(i) => (
      prop::option::weighted(0.5, (prop::option::weighted(0.7, pick(&["lessorequal", "any"])), i.clone())).boxed(),
      prop::option::weighted(0.4, i).boxed(),
    ),
  };
  (pick(LABELS), prop::option::weighted(0.7, pick(&["shortest", "longest"])), s, e)
    .prop_map(|(tag, m, s, e)| {
      let mut k: Vec<T> = Vec::new();
      k.extend(m.map(|m| el("match_type", vec![], vec![x(&m)])));
      k.extend(s.map(|(c, s)| el("starts_with_seq", c.map(|c| ("containment", c)).into_iter().collect(), vec![s])));
      k.extend(e.map(|s| el("ends_with_seq", vec![], vec![s])));
      el("phrase", vec![("tag", tag)], k)
    })
    .boxed()
}
fn seq_gen(depth: u32) -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    5 => around("seq_word", word_gen(2)),
    1 => reference("seq_ref"),
    2 => phrase(None),
  ];
  leaf
    .prop_recursive(depth, 12, 3, |i| {
      let i = i.boxed();
      prop_oneof![
        3 => marked("seq_marker", i.clone()),
        3 => many("seq_seq", i.clone(), 0),
        2 => (prop::option::weighted(0.8, pick(&["first", "atleastone", "any", "longest"])), vec(i.clone(), 0..=3))
          .prop_map(|(m, k)| el("seq_or", m.map(|m| ("match_type", m)).into_iter().collect(), k)),
        3 => phrase(Some(i)),
      ]
    })
    .boxed()
}
fn rule_gen() -> BoxedStrategy<T> {
  let summary = prop::option::weighted(
    0.4,
    prop::option::weighted(0.8, or_text(pick(&["A rule.", "", "  two\n   lines ", " é & <x> ", "\n"]))),
  );
  let of = |kind: &'static str, p: BoxedStrategy<T>, summary: BoxedStrategy<Option<Option<String>>>| {
    (names(), summary, p, any::<bool>())
      .prop_map(move |(n, s, p, after)| {
        let mut k = vec![p];
        if let Some(s) = s {
          let m = el("meta", vec![], s.map(|s| el("description", vec![], vec![x(&s)])).into_iter().collect());
          k.insert(usize::from(after), m);
        }
        el(kind, vec![("name", n)], k)
      })
      .boxed()
  };
  let summary = summary.boxed();
  prop_oneof![
    3 => of(RULES[0], seq_gen(3), summary.clone()),
    2 => of(RULES[1], word_gen(2), summary.clone()),
    2 => of(RULES[2], math_gen(2), summary.clone()),
    1 => of(RULES[3], mtext_gen(), summary.clone()),
    1 => of(RULES[4], pos_gen(), summary),
  ]
  .boxed()
}
fn walk<'a>(t: &'a T, f: &mut dyn FnMut(&'a T)) {
  f(t);
  if let T::E(_, _, k) = t {
    k.iter().for_each(|k| walk(k, f));
  }
}
fn value<'a>(a: &'a [(String, String)], n: &str) -> Option<&'a str> { a.iter().find(|x| x.0 == n).map(|x| x.1.as_str()) }
/// drop second definitions, add missing ones
fn repair(mut rules: Vec<T>, front: bool) -> Vec<T> {
  let mut have: Vec<(String, String)> = Vec::new();
  rules.retain(|r| {
    let T::E(k, a, _) = r else { return false };
    let key = (k.clone(), value(a, "name").unwrap().to_string());
    let new = !have.contains(&key);
    have.push(key);
    new
  });
  let mut need: Vec<(usize, String)> = Vec::new();
  for r in &rules {
    walk(r, &mut |t| {
      if let T::E(n, a, _) = t {
        if let Some(i) = REFS.iter().position(|r| r == n) {
          need.push((i, value(a, "ref").unwrap().to_string()));
        }
      }
    });
  }
  for (i, n) in need {
    let key = (RULES[i].to_string(), n.clone());
    if !have.contains(&key) {
      have.push(key);
      let h = hash_bytes(n.as_bytes()) as usize + i;
      let p = match i {
        0 => el("seq_word", vec![], vec![el("word_any", vec![], vec![])]),
        1 => el("word", vec![], vec![x(VOCAB[h % VOCAB.len()])]),
        2 => el("math_node", vec![("name", ["mi", "mrow"][h % 2].into())], vec![]),
        3 => el("mtext_lit", vec![("str", SYMBOLS[h % 3].into())], vec![]),
        _ => el("pos", vec![("tag", TAGS[h % TAGS.len()].into())], vec![]),
      };
      let r = el(RULES[i], vec![("name", n)], vec![p]);
      if front {
        rules.insert(0, r);
      } else {
        rules.push(r);
      }
    }
  }
  rules
}
fn next(n: &mut u64) -> u64 {
  *n = n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
  (*n >> 33) % 6
}
/// blanks and comments where they do not matter
fn noise(t: &T, n: &mut u64) -> T {
  let T::E(name, a, k) = t else { return t.clone() };
  let text = k.iter().any(|k| matches!(k, T::X(_))) || ["word", "description", "match_type", "word_any"].contains(&name.as_str());
  if text {
    let k = k
      .iter()
      .map(|k| match k {
        T::X(s) if next(n) == 0 => T::X(format!("\n  {s} ")),
        k => k.clone(),
      })
      .collect();
    return T::E(name.clone(), a.clone(), k);
  }
  let mut out = Vec::new();
  for i in 0..=k.len() {
    match next(n) {
      0 => out.push(x("\n    ")),
      1 => out.push(T::C(" a <word> & more ".into())),
      _ => {},
    }
    if i < k.len() {
      out.push(noise(&k[i], n));
    }
  }
  T::E(name.clone(), a.clone(), out)
}
fn file_gen(rules: BoxedStrategy<Vec<T>>) -> BoxedStrategy<T> {
  (rules, prop::option::weighted(0.3, pick(&["File.", " two\n lines ", ""])), any::<bool>(), prop_oneof![Just(None), any::<u64>().prop_map(Some)], any::<bool>())
    .prop_map(|(rules, meta, front, noisy, last)| {
      let mut k = repair(rules, front);
      if let Some(m) = meta {
        let m = el("meta", vec![], vec![el("description", vec![], vec![x(&m)])]);
        if last {
          k.push(m);
        } else {
          k.insert(0, m);
        }
      }
      let f = el("pattern_file", vec![], k);
      match noisy {
        Some(mut n) => noise(&f, &mut n),
        None => f,
      }
    })
    .boxed()
}

// ---- P15 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Edit {
  what: u8,
  site: usize,
  with: usize,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct FileCase {
  file: T,
  edits: Vec<Edit>,
}
const ELEMENTS: &[&str] = &[
  "meta", "description", "seq_rule", "word_rule", "math_rule", "mtext_rule", "pos_rule", "seq_ref", "seq_word", "seq_seq", "phrase", "match_type", "starts_with_seq",
  "ends_with_seq", "seq_marker", "seq_or", "word_ref", "word_or", "word", "word_math", "word_any", "word_not", "word_marker", "word_pos", "pos", "pos_not", "pos_ref",
  "pos_or", "math_any", "math_marker", "math_ref", "math_or", "math_node", "math_children", "mtext_ref", "math_descendant", "mtext_any", "mtext_or", "mtext_lit",
  "mtext_not", "unknown", "Word",
];
const VALUES: &[&str] = &["", "r", "s", "NP", "NN", "nn", "longest", "shortest", "first", "any", "exact", "at_least_one", "atleastone", "Any", "lessorequal", "zzz"];
fn sites(t: &T) -> usize {
  let mut n = 0;
  walk(t, &mut |t| n += usize::from(matches!(t, T::E(..))));
  n
}
/// the i-th element
fn site(t: &mut T, i: &mut usize, f: &mut dyn FnMut(&mut String, &mut Vec<(String, String)>, &mut Vec<T>)) -> bool {
  let T::E(n, a, k) = t else { return false };
  if *i == 0 {
    f(n, a, k);
    return true;
  }
  *i -= 1;
  k.iter_mut().any(|k| site(k, i, f))
}
fn find(t: &T, mut i: usize) -> T {
  let mut out = t.clone();
  walk(t, &mut |t| {
    if matches!(t, T::E(..)) {
      if i == 0 {
        out = t.clone();
      }
      i = i.wrapping_sub(1);
    }
  });
  out
}
fn edit(t: &mut T, e: &Edit) {
  let n = sites(t);
  let graft = find(t, e.with % n);
  let mut i = e.site % n;
  site(t, &mut i, &mut |name, a, k| match e.what {
    0 if !a.is_empty() => {
      let i = e.with % a.len();
      a.remove(i);
    },
    1 if !a.is_empty() => {
      let i = e.with % a.len();
      a[i].1 = VALUES[e.with / 7 % VALUES.len()].into();
    },
    2 => *name = ELEMENTS[e.with % ELEMENTS.len()].into(),
    3 if !k.is_empty() => {
      let i = e.with % k.len();
      k.remove(i);
    },
    4 if !k.is_empty() => {
      let i = e.with % k.len();
      let c = k[i].clone();
      k.insert(i, c);
    },
    5 => k.insert(e.with % (k.len() + 1), el(ELEMENTS[e.with / 5 % ELEMENTS.len()].to_string().leak(), vec![], vec![])),
    6 => k.insert(e.with % (k.len() + 1), x(["text", " . ", " \n", "\u{a0}", "longest", "x"][e.with / 5 % 6])),
    7 if !k.is_empty() => {
      let i = e.with % k.len();
      k[i] = graft.clone();
    },
    8 => k.push(graft.clone()),
    9 => k.push(T::C("c".into())),
    10 => a.push((["other", "match_type", "tags", "name", "ref"][e.with % 5].into(), VALUES[e.with / 5 % VALUES.len()].into())),
    _ => {
      if let Some(v) = a.iter_mut().find(|v| v.0 == "ref" || v.0 == "name") {
        v.1 = match e.with % 5 {
          0 => format!("{} ", v.1),
          1 => format!(" {}", v.1),
          2 => v.1.to_uppercase(),
          3 => NEAR_NAMES[e.with / 5 % NEAR_NAMES.len()].into(),
          _ => NAMES[e.with / 5 % NAMES.len()].into(),
        };
      }
    },
  });
}
fn edits(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Edit>> {
  vec((0u8..12, 0usize..1000, 0usize..1000).prop_map(|(what, site, with)| Edit { what, site, with }), n).boxed()
}
fn names_of(m: &HashMap<String, usize>, n: usize) -> Option<Vec<(String, usize)>> {
  let mut used: Vec<usize> = m.values().copied().collect();
  used.sort();
  if used != (0..n).collect::<Vec<_>>() {
    return None;
  }
  let mut v: Vec<(String, usize)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
  v.sort();
  Some(v)
}
/// the model's reading of a well-formed file
fn read(path: &str) -> Option<P<Prog>> {
  let doc = Parser::default().parse_file(path).ok()?;
  let snap = Snap::of(doc.get_root_readonly()?);
  Some(program(&snap))
}
fn check_load(c: &FileCase, ctx: &mut Ctx) -> Res {
  let mut file = c.file.clone();
  for e in &c.edits {
    edit(&mut file, e);
  }
  let path = scratch_dir().join("patterns.xml");
  std::fs::write(&path, file.xml()).unwrap();
  let path = path.to_str().unwrap();
  let want = match read(path) {
    None => fail!("harness", "the generated file is not well-formed"),
    Some(w) => w,
  };
  let got = PatternFile::load(path);
  match want {
    Err(Flaw::Open(_)) => ctx.label("left open"),
    Err(Flaw::Bad(why)) => {
      ctx.nontrivial(true);
      ctx.label("rejected");
      ensure!(got.is_err(), "accepted", "accepted in spite of {why}: {}", file.xml());
      ensure!(!got.err().unwrap().is_empty(), "message", "empty error message");
    },
    Ok(p) => {
      let n = p.seq.len() + p.word.len() + p.math.len() + p.mtext.len() + p.pos.len();
      ctx.nontrivial(n > 0);
      ctx.label("accepted");
      ctx.label_if(!c.edits.is_empty(), "accepted after edits");
      let f = match got {
        Ok(f) => f,
        Err(e) => fail!("rejected", "rejected: {e}"),
      };
      ensure_eq!(f.description.get_summary(), p.summary, "file-summary", "summary of the file");
      macro_rules! kind {
        ($names:ident, $rules:ident, $model:ident) => {
          let Some(names) = names_of(&f.$names, f.$rules.len()) else { fail!("offsets", "offsets of the rules in {:?} are not 0..{}", f.$names, f.$rules.len()) };
          ensure_eq!(names.iter().map(|x| &x.0).collect::<Vec<_>>(), p.$model.keys().collect::<Vec<_>>(), "names", "names of the rules in {}", stringify!($names));
          for (n, i) in &names {
            ensure_eq!(f.$rules[*i].description.get_summary(), p.$model[n].0, "summary", "summary of the rule {n} in {}", stringify!($names));
          }
        };
      }
      kind!(sequence_rule_names, sequence_rules, seq);
      kind!(word_rule_names, word_rules, word);
      kind!(math_rule_names, math_rules, math);
      kind!(mtext_rule_names, mtext_rules, mtext);
      kind!(pos_rule_names, pos_rules, pos);
    },
  }
  Ok(())
}

/// many rules (copies under names of their own), rules with many alternatives, deep nesting
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct ManyRules {
  file: T,
  copies: usize,
  front: bool,
  depth: usize,
  width: usize,
  edits: Vec<Edit>,
}
fn check_many_rules(c: &ManyRules, ctx: &mut Ctx) -> Res {
  let T::E(name, a, mut k) = c.file.clone() else { return Ok(()) };
  let rules: Vec<T> = k.iter().filter(|r| matches!(r, T::E(n, ..) if RULES.contains(&n.as_str()))).cloned().collect();
  let mut more: Vec<T> = Vec::new();
  for i in 0..c.copies {
    let Some(T::E(n, a, k)) = rules.get(i % rules.len().max(1)) else { break };
    let a = a.iter().map(|(n, v)| (n.clone(), if n == "name" { format!("{v}.{i}") } else { v.clone() })).collect();
    more.push(T::E(n.clone(), a, k.clone()));
  }
  let mut deep = el("word", vec![], vec![x("we")]);
  for i in 0..c.depth {
    deep = el(["word_or", "word_not"][i % 2], vec![], vec![deep]);
  }
  more.push(el("word_rule", vec![("name", "deep".into())], vec![deep]));
  let wide = (0..c.width).map(|i| el("word", vec![], vec![x(&format!("w{i}"))])).collect();
  more.push(el("word_rule", vec![("name", "wide".into())], vec![el("word_or", vec![], wide)]));
  let at = if c.front { 0 } else { k.len() };
  k.splice(at..at, more);
  ctx.label_if(c.copies > 256, "more than 256 rules");
  check_load(&FileCase { file: T::E(name, a, k), edits: c.edits.clone() }, ctx)
}

/// any bytes, cut or spliced files: an answer, no panic
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Bytes {
  file: T,
  cut: usize,
  splice: Vec<u8>,
}
fn check_bytes(c: &Bytes, ctx: &mut Ctx) -> Res {
  let mut b = c.file.xml().into_bytes();
  let at = c.cut % (b.len() + 1);
  b.splice(at..(at + c.splice.len() / 2).min(b.len()), c.splice.iter().copied());
  let path = scratch_dir().join("broken.xml");
  std::fs::write(&path, &b).unwrap();
  ctx.nontrivial(!c.splice.is_empty());
  match PatternFile::load(path.to_str().unwrap()) {
    Ok(_) => ctx.label("loaded"),
    Err(e) => {
      ctx.label("refused");
      ensure!(!e.is_empty(), "message", "empty error message");
    },
  }
  Ok(())
}
fn check_absent(c: &u8, ctx: &mut Ctx) -> Res {
  ctx.nontrivial(true);
  let dir = scratch_dir();
  let path = match *c {
    0 => dir.join("no such file.xml"),
    1 => dir.clone(),
    2 => dir.join("no/such/dir.xml"),
    n => {
      let p = dir.join("empty.xml");
      std::fs::write(&p, ["", " ", "\n\n", "<!-- -->", "<?xml version=\"1.0\"?>"][n as usize - 3]).unwrap();
      p
    },
  };
  ensure!(PatternFile::load(path.to_str().unwrap()).is_err(), "absent", "{} was loaded", path.display());
  Ok(())
}

// ---- P16 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Piece {
  Word(String),
  Math(T),
  /// a formula without blanks around
  Glued(T),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct MatchCase {
  file: T,
  rule: String,
  pieces: Vec<Piece>,
  /// tags of the words, cyclic
  tags: Vec<u8>,
  /// shape of the parse tree
  shape: Vec<u8>,
  /// the sentence is the range of these words
  from: usize,
  to: usize,
  params: u8,
}
fn build_tree(lo: usize, hi: usize, bytes: &mut dyn FnMut() -> u8, depth: usize) -> PSGNode {
  let b = bytes();
  if hi - lo == 1 && (b % 3 != 1 || depth > 4) {
    return PSGNode::Leaf(lo);
  }
  let label = LABELS[b as usize / 8 % LABELS.len()];
  let label = Phrase::ALL.iter().find(|p| p.1 == label).unwrap().0;
  let mut kids = Vec::new();
  if b % 4 == 0 || depth > 6 {
    kids.extend((lo..hi).map(PSGNode::Leaf));
  } else {
    let mut at = lo;
    while at < hi {
      // the whole at once only while the tree is small
      let n = 1 + bytes() as usize % (hi - at);
      kids.push(build_tree(at, at + n, bytes, depth + 1));
      at += n;
    }
  }
  PSGNode::Parent(Box::new(PSGParent::new(label, kids)))
}
fn phrases(n: &PSGNode, out: &mut Vec<Ph>) -> (usize, usize) {
  match n {
    PSGNode::Leaf(i) => (*i, *i),
    PSGNode::Parent(p) => {
      let i = out.len();
      out.push(Ph { label: p.get_label(), from: 0, to: 0 });
      let spans: Vec<_> = p.get_children().iter().map(|k| phrases(k, out)).collect();
      out[i].from = spans[0].0;
      out[i].to = spans[spans.len() - 1].1;
      (out[i].from, out[i].to)
    },
  }
}
fn tree_of(m: &Match, out: &mut Vec<M>) -> Result<(), Fail> {
  let mut subs = Vec::new();
  for s in &m.sub_matches {
    tree_of(s, &mut subs)?;
  }
  let mk = |m: &llamapun::patterns::PatternMarker| Mk { name: m.name.clone(), tags: m.tags.clone() };
  out.push(match &m.marker {
    MarkerEnum::Text(t) => {
      ensure!(t.range.start <= t.range.end && t.range.end < t.range.dnm.byte_offsets.len(), "range", "range {}..{}", t.range.start, t.range.end);
      M { text: Some((t.range.start, t.range.end, t.range.get_plaintext().to_string())), node: None, mk: mk(&t.marker), subs }
    },
    MarkerEnum::Math(t) => M { text: None, node: Some(t.node.to_hashable()), mk: mk(&t.marker), subs },
  });
  Ok(())
}
fn flat(m: &M, out: &mut Vec<M>) {
  out.push(M { subs: vec![], ..m.clone() });
  m.subs.iter().for_each(|s| flat(s, out));
}
fn paragraph(pieces: &[Piece]) -> T {
  let mut k = Vec::new();
  for p in pieces {
    match p {
      Piece::Word(w) => k.push(x(&format!("{w} "))),
      Piece::Math(t) => k.extend([x(" "), t.clone(), x(" ")]),
      Piece::Glued(t) => k.push(t.clone()),
    }
  }
  e("html", &[], vec![e("body", &[], vec![e("p", &[], k)])])
}
fn parameters(n: u8) -> Par {
  let token = |s: &str| vec![("math".to_string(), Rule::Token(s.to_string()))];
  let plain = Par { names: token("mathformula"), classes: vec![], ws: true, wrap: true, unicode: false, stem: 0, lower: false, back: true };
  match n {
    0 => plain,
    1 => Par { wrap: false, ..plain },
    2 => Par { names: token("Formel€"), lower: true, ..plain },
    3 => Par { ws: false, unicode: true, ..plain },
    // formulas are text
    _ => Par { names: vec![], ..plain },
  }
}
fn check_match(c: &MatchCase, ctx: &mut Ctx) -> Res {
  let path = scratch_dir().join("match.xml");
  std::fs::write(&path, c.file.xml()).unwrap();
  let path = path.to_str().unwrap();
  let prog = match read(path) {
    Some(Ok(p)) => p,
    other => fail!("harness", "the generated file is not valid: {other:?}"),
  };
  let file = match PatternFile::load(path) {
    Ok(f) => f,
    Err(e) => fail!("rejected", "rejected: {e}"),
  };
  let doc = parse(&paragraph(&c.pieces), false);
  let whole = Snap::of(doc.get_root_readonly().unwrap());
  let par = parameters(c.params);
  let root = whole.elements().into_iter().find(|s| s.name == "p").unwrap();
  let dnm = DNM::new(root.node, par.to_code());
  let model = Model::of(root, &par);
  let chars = &model.chars;
  let text: String = chars.iter().collect();
  ensure_eq!(dnm.plaintext, text, "plaintext", "the paragraph");
  // the sentence: from some word to some word
  let char_at = |byte: usize| text[..byte].chars().count();
  let spans = senna::senna::double_tokenize(&text);
  if spans.is_empty() {
    ctx.label("no words");
    return Ok(());
  }
  let from = c.from % spans.len();
  let to = from + 1 + c.to % (spans.len() - from);
  let (start, end) = (char_at(spans[from].0), char_at(spans[to - 1].1));
  let all = dnm.get_range().map_err(|_| ()).unwrap();
  let range = all.get_subrange(start, end);
  let sentence_text: String = chars[start..end].iter().collect();
  ensure_eq!(range.get_plaintext(), sentence_text, "sentence", "text of the sentence");
  let spans = senna::senna::double_tokenize(&sentence_text);
  let formulas: HashMap<usize, &Snap> = root.elements().into_iter().filter(|s| s.name == "math").map(|s| (s.node.to_hashable(), s)).collect();
  let tag = |i: usize| {
    let t = if c.tags.is_empty() { TAGS[0] } else { TAGS[c.tags[i % c.tags.len()] as usize % TAGS.len()] };
    POS::ALL.iter().find(|p| p.1 == t).unwrap().0
  };
  let words: Vec<W> = spans
    .iter()
    .enumerate()
    .map(|(i, (a, z))| {
      let at = start + sentence_text[..*a].chars().count();
      W {
        text: sentence_text[*a..*z].to_string(),
        start: at,
        end: at + sentence_text[*a..*z].chars().count(),
        pos: tag(i),
        formula: formulas.get(&model.back[at].0).copied(),
      }
    })
    .collect();
  let mut used = 0;
  let mut bytes = || {
    used += 1;
    if c.shape.is_empty() {
      0
    } else {
      c.shape[(used - 1) % c.shape.len()].wrapping_add((used / c.shape.len() * 5) as u8)
    }
  };
  let psg = match build_tree(0, words.len(), &mut bytes, 0) {
    PSGNode::Leaf(i) => PSGNode::Parent(Box::new(PSGParent::new(Phrase::NP, vec![PSGNode::Leaf(i)]))),
    p => p,
  };
  let mut tree = Vec::new();
  phrases(&psg, &mut tree);
  let senna_words: Vec<Word> = spans.iter().enumerate().map(|(i, (a, z))| Word::new(&sentence_text[*a..*z], *a, *z, tag(i), i)).collect();
  let sentence = Sentence::build(&sentence_text, senna_words.clone(), Some(psg));

  let known = prog.seq.contains_key(&c.rule);
  if !known {
    ctx.label("unknown rule");
    ensure!(match_sentence(&file, &sentence, &range, &c.rule).is_err(), "unknown-rule", "an unknown rule is no error");
    return Ok(());
  }
  for (what, psg) in [("no parse tree", None), ("parse tree of a leaf", Some(PSGNode::Leaf(0)))] {
    let s = Sentence::build(&sentence_text, senna_words.clone(), psg);
    ensure!(match_sentence(&file, &s, &range, &c.rule).is_err(), "no-tree", "{what} is no error");
  }
  // the model first: it knows when to give up
  let mut run = Run { prog: &prog, chars, words: &words, phrases: &tree, steps: 0, depth: 0, empty_markers: 0 };
  let mut want = Vec::new();
  for at in 0..words.len() {
    match run.seq(&prog.seq[&c.rule].1, at) {
      Err(Over) => {
        ctx.label("endless or too long");
        return Ok(());
      },
      Ok(r) => want.extend(r.into_iter().flat_map(|r| r.0)),
    }
  }
  let mut got = Vec::new();
  let result = match match_sentence(&file, &sentence, &range, &c.rule) {
    Ok(r) => r,
    Err(e) => fail!("error", "error: {e}"),
  };
  for m in &result {
    tree_of(m, &mut got)?;
  }
  ctx.nontrivial(!want.is_empty());
  let mut all = Vec::new();
  want.iter().for_each(|m| flat(m, &mut all));
  ctx.label_if(all.iter().any(|m| m.node.is_some()), "math marker");
  ctx.label_if(all.iter().any(|m| m.text.is_some()), "text marker");
  ctx.label_if(want.iter().any(|m| !m.subs.is_empty()), "nested marker");
  ctx.label_if(run.empty_markers > 0, "empty marker");
  ctx.label_if(!sentence_text.is_ascii(), "non-ASCII sentence");
  ctx.label_if(start > 0, "sentence inside the text");
  ctx.label_if(all.iter().any(|m| m.text.as_ref().is_some_and(|t| t.2.contains(' '))), "marker over several words");
  ensure_eq!(got, want, "matches", "matches of {:?} in {sentence_text:?}", c.rule);
  for (m, w) in result.iter().zip(&want) {
    let mut a = Vec::new();
    flat(w, &mut a);
    let mut b = Vec::new();
    for k in m.get_marker_list() {
      tree_of(&Match { marker: k, sub_matches: vec![] }, &mut b)?;
    }
    ensure_eq!(b, a, "marker-list", "marker list of a match");
  }
  Ok(())
}
fn formula() -> BoxedStrategy<T> {
  let leaf = (or_name(pick(&["mi", "mi", "mo", "mn", "mrow"])), prop::option::weighted(0.85, or_text(pick(SYMBOLS)))).prop_map(|(n, s)| T::E(n, vec![], s.map(T::X).into_iter().collect()));
  let inner = leaf.prop_recursive(3, 10, 4, |i| {
    (pick(&["mrow", "mrow", "msub", "mi"]), vec(prop_oneof![8 => i, 1 => Just(x("\n")), 1 => Just(T::C("c".into())), 1 => Just(x("t"))], 0..5)).prop_map(|(n, k)| T::E(n, vec![], k))
  });
  prop_oneof![
    6 => inner.clone().prop_map(|t| e("math", &[], vec![t])),
    2 => (inner.clone(), inner.clone()).prop_map(|(a, b)| e("math", &[], vec![x(" "), e("semantics", &[], vec![x("\n"), a, b])])),
    1 => (inner.clone(), inner).prop_map(|(a, b)| e("math", &[], vec![a, b])),
    1 => Just(e("math", &[], vec![e("semantics", &[], vec![])])),
    1 => Just(e("math", &[], vec![x("x")])),
    1 => Just(e("math", &[], vec![])),
  ]
  .boxed()
}
fn pieces(n: usize) -> BoxedStrategy<Vec<Piece>> {
  vec(
    prop_oneof![
      6 => vocab().prop_map(Piece::Word),
      3 => formula().prop_map(Piece::Math),
      1 => formula().prop_map(Piece::Glued),
      1 => pick(&[",", "d\u{e9}j\u{e0}", "İ", "½", "zz"]).prop_map(Piece::Word),
    ],
    1..n,
  )
  .boxed()
}
fn match_case(top: fn(u32) -> BoxedStrategy<T>, n: usize) -> impl Fn(Tier) -> BoxedStrategy<MatchCase> {
  move |t| {
    let depth = if t == Tier::Quick { 3 } else { 4 };
    let rules = (top(depth), vec(rule_gen(), 0..6), names()).prop_map(|(p, mut rest, n)| {
      rest.insert(0, el("seq_rule", vec![("name", n)], vec![p]));
      rest
    });
    (
      file_gen(rules.boxed()),
      pieces(n),
      vec(any::<u8>(), 0..12),
      vec(any::<u8>(), 0..24),
      prop_oneof![2 => Just(0usize), 1 => 0usize..20],
      prop_oneof![2 => Just(usize::MAX), 1 => 0usize..20],
      prop_oneof![4 => Just(0u8), 1 => 1u8..5],
      prop::bool::weighted(0.02),
    )
      .prop_map(|(file, pieces, tags, shape, from, to, params, unknown)| {
        let mut rule = String::new();
        walk(&file, &mut |t| {
          if let T::E(n, a, _) = t {
            if n == "seq_rule" && rule.is_empty() {
              rule = value(a, "name").unwrap().to_string();
            }
          }
        });
        if unknown {
          rule = "no such rule".into();
        }
        // to the end: the largest value modulo the rest, whatever the rest is
        let to = if to == usize::MAX { 720_719 } else { to };
        MatchCase { file, rule, pieces, tags, shape, from, to, params }
      })
      .boxed()
  }
}
/// (720719 is n - 1 modulo any n up to 16)
fn any_top(d: u32) -> BoxedStrategy<T> { prop_oneof![1 => seq_gen(d), 1 => marked("seq_marker", seq_gen(d))].boxed() }
fn word_top(_: u32) -> BoxedStrategy<T> { around("seq_word", marked("word_marker", word_gen(3))) }
fn math_top(d: u32) -> BoxedStrategy<T> { around("seq_word", around("word_math", prop_oneof![math_gen(d), marked("math_marker", math_gen(d))].boxed())) }
fn phrase_top(d: u32) -> BoxedStrategy<T> { marked("seq_marker", phrase(Some(prop_oneof![2 => marked("seq_marker", seq_gen(d - 1)), 1 => seq_gen(d - 1), 1 => around("seq_word", word_gen(1))].boxed()))) }

// patterns made from the sentence they are to match

struct Derive<'a> {
  bytes: &'a [u8],
  at: usize,
  rules: Vec<T>,
}
impl Derive<'_> {
  /// the next choice; 0 when there are no more
  fn next(&mut self, n: usize) -> usize {
    self.at += 1;
    self.bytes.get(self.at - 1).copied().unwrap_or(0) as usize % n
  }
  /// as is, marked, or as a rule of its own
  fn wrap(&mut self, kind: usize, t: T) -> T {
    match self.next(6) {
      3 | 4 if kind < 3 => {
        let name = ["m1", "m2", "m 3"][self.next(3)];
        el(["seq_marker", "word_marker", "math_marker"][kind], vec![("name", name.into())], vec![t])
      },
      5 => {
        let name = format!("own {}", self.rules.len());
        let r = el(RULES[kind], vec![("name", name.clone())], vec![t]);
        if self.next(2) == 0 {
          self.rules.push(r);
        } else {
          self.rules.insert(0, r);
        }
        el(REFS[kind], vec![("ref", name)], vec![])
      },
      _ => t,
    }
  }
  fn seq(&mut self, units: &[Piece]) -> T {
    let t = if units.len() == 1 && self.next(4) != 3 {
      el("seq_word", vec![], vec![self.word(&units[0])])
    } else {
      match self.next(8) {
        4 | 5 => {
          let how = ["first", "atleastone", "any", "longest"][self.next(4)];
          let mut k = vec![self.seq(units)];
          for _ in 0..self.next(3) {
            let n = 1 + self.next(units.len());
            let other = if self.next(2) == 0 { el("seq_word", vec![], vec![el("word", vec![], vec![x("zz")])]) } else { self.seq(&units[..n]) };
            let i = self.next(k.len() + 1);
            k.insert(i, other);
          }
          el("seq_or", vec![("match_type", how.into())], k)
        },
        6 => {
          let tag = LABELS[self.next(LABELS.len())];
          let mut k = vec![];
          if self.next(2) == 1 {
            k.push(el("match_type", vec![], vec![x(["shortest", "longest"][self.next(2)])]));
          }
          if self.next(3) != 2 {
            let n = 1 + self.next(units.len());
            k.push(el("starts_with_seq", vec![("containment", ["any", "lessorequal"][self.next(2)].into())], vec![self.seq(&units[..n])]));
          }
          if self.next(3) == 2 {
            let n = self.next(units.len());
            k.push(el("ends_with_seq", vec![], vec![self.seq(&units[n..])]));
          }
          el("phrase", vec![("tag", tag.into())], k)
        },
        _ => {
          let mut k = vec![];
          let mut at = 0;
          while at < units.len() {
            let n = 1 + self.next((units.len() - at).min(3));
            k.push(if n == 1 { el("seq_word", vec![], vec![self.word(&units[at])]) } else { self.seq(&units[at..at + n]) });
            at += n;
          }
          el("seq_seq", vec![], k)
        },
      }
    };
    self.wrap(0, t)
  }
  fn word(&mut self, u: &Piece) -> T {
    let lit = |w: &str| el("word", vec![], vec![x(w)]);
    let t = match (self.next(8), u) {
      (4, _) => el("word_any", vec![], vec![]),
      (5, _) => {
        let mut k = vec![self.word(u)];
        for _ in 0..self.next(3) {
          let i = self.next(k.len() + 1);
          let other = if self.next(3) == 0 { self.word(u) } else { lit(VOCAB[self.next(VOCAB.len())]) };
          k.insert(i, other);
        }
        el("word_or", vec![], k)
      },
      (6, _) => el("word_not", vec![], vec![lit(VOCAB[self.next(VOCAB.len())])]),
      (7, _) => {
        let mut tags: Vec<T> = (0..1 + self.next(3)).map(|_| el("pos", vec![("tag", TAGS[self.next(TAGS.len())].into())], vec![])).collect();
        let p = if tags.len() == 1 { tags.remove(0) } else { el("pos_or", vec![], tags) };
        let p = if self.next(2) == 1 { el("pos_not", vec![], vec![p]) } else { p };
        let p = self.wrap(4, p);
        el("word_pos", vec![], vec![el("pos", vec![], vec![p]), self.word(u)])
      },
      (_, Piece::Word(w)) => lit(w),
      (_, Piece::Math(f) | Piece::Glued(f)) => {
        let inner = |t: &T| match t {
          T::E(_, _, k) => k.iter().find(|k| matches!(k, T::E(..))).cloned(),
          _ => None,
        };
        let mut f = inner(f);
        if let Some(T::E(n, ..)) = &f {
          if n == "semantics" {
            f = inner(f.as_ref().unwrap());
          }
        }
        match f {
          Some(f) => el("word_math", vec![], vec![self.math(&f)]),
          None => lit("mathformula"),
        }
      },
    };
    self.wrap(1, t)
  }
  /// a pattern for a node of a formula
  fn math(&mut self, f: &T) -> T {
    let T::E(name, _, k) = f else { unreachable!() };
    let nodes: Vec<T> = k.iter().filter(|k| matches!(k, T::E(..))).cloned().collect();
    let t = match self.next(9) {
      5 => el("math_any", vec![], vec![]),
      6 => {
        let mut k = vec![self.math(f)];
        for _ in 0..self.next(3) {
          let other = if self.next(2) == 0 { el("math_node", vec![("name", "mfrac".into())], vec![]) } else { self.math(f) };
          let i = self.next(k.len() + 1);
          k.insert(i, other);
        }
        el("math_or", vec![], k)
      },
      7 | 8 => {
        let how = ["first", "at_least_one", "arbitrary"][self.next(3)];
        let mut all = Vec::new();
        walk(f, &mut |t| {
          if matches!(t, T::E(..)) {
            all.push(t.clone());
          }
        });
        let target = all[self.next(all.len())].clone();
        let p = self.math(&target);
        let p = if self.next(2) == 0 { el("math_marker", vec![("name", "deep".into())], vec![p]) } else { p };
        el("math_descendant", vec![("match_type", how.into())], vec![p])
      },
      _ => {
        let mut c = Vec::new();
        if self.next(4) == 1 {
          let text: String = k.iter().map(|k| if let T::X(s) = k { s.as_str() } else { "" }).collect();
          let mut p = el("mtext_lit", vec![("str", text)], vec![]);
          match self.next(4) {
            1 => p = el("mtext_not", vec![], vec![el("mtext_lit", vec![("str", SYMBOLS[self.next(SYMBOLS.len())].into())], vec![])]),
            2 => p = el("mtext_or", vec![], vec![el("mtext_lit", vec![("str", "zz".into())], vec![]), p]),
            _ => {},
          }
          let rule = format!("symbol {}", self.rules.len());
          self.rules.push(el(RULES[3], vec![("name", rule.clone())], vec![p]));
          c.push(el("mtext_ref", vec![("ref", rule)], vec![]));
        }
        if !nodes.is_empty() && self.next(4) != 3 {
          let how = ["starts_with", "exact", "ends_with", "arbitrary"][self.next(4)];
          let n = 1 + self.next(nodes.len());
          let part = match how {
            "exact" => &nodes[..],
            "starts_with" => &nodes[..n],
            "ends_with" => &nodes[nodes.len() - n..],
            _ => {
              let i = self.next(nodes.len() - n + 1);
              &nodes[i..i + n]
            },
          };
          let list = part.iter().map(|n| self.math(n)).collect();
          c.push(el("math_children", vec![("match_type", how.into())], list));
        }
        el("math_node", if self.next(4) == 3 { vec![] } else { vec![("name", name.clone())] }, c)
      },
    };
    self.wrap(2, t)
  }
}
fn derived_case(n: usize, formulas: bool) -> impl Fn(Tier) -> BoxedStrategy<MatchCase> {
  move |t| {
    let len = if t == Tier::Quick { 60 } else { 150 };
    let pieces = if formulas { vec(formula().prop_map(Piece::Math), 1..4).boxed() } else { pieces(n) };
    (pieces, vec(any::<u8>(), 0..len), vec(any::<u8>(), 0..12), vec(any::<u8>(), 0..24), 0usize..100, 0usize..100, prop_oneof![8 => Just(0u8), 1 => 1u8..5])
      .prop_map(|(pieces, bytes, tags, shape, a, z, params)| {
        let a = a % pieces.len();
        let z = a + 1 + z % (pieces.len() - a).min(5);
        let mut d = Derive { bytes: &bytes, at: 0, rules: vec![] };
        let p = d.seq(&pieces[a..z]);
        let p = if d.next(3) == 2 { p } else { el("seq_marker", vec![("name", "all".into())], vec![p]) };
        d.rules.push(el(RULES[0], vec![("name", "main".into())], vec![p]));
        let file = el("pattern_file", vec![], d.rules);
        MatchCase { file, rule: "main".into(), pieces, tags, shape, from: 0, to: 720_719, params }
      })
      .boxed()
  }
}

// ---- small scopes, exhaustively ------------------------------------------------------------------

/// all lists over an alphabet with lengths in a range
fn lists(alphabet: &[&'static str], min: usize, max: usize) -> Vec<Vec<&'static str>> {
  let mut all = vec![vec![]];
  let mut last = all.clone();
  for _ in 0..max {
    last = last.iter().flat_map(|l: &Vec<&'static str>| alphabet.iter().map(move |a| [l.clone(), vec![*a]].concat())).collect();
    all.extend(last.clone());
  }
  all.retain(|l| l.len() >= min);
  all
}
fn mark(name: &'static str, label: String, k: T) -> T { el(name, vec![("name", label)], vec![k]) }
fn small(main: T, pieces: Vec<Piece>, shape: Vec<u8>) -> MatchCase {
  let file = el("pattern_file", vec![], vec![el(RULES[0], vec![("name", "main".into())], vec![main])]);
  MatchCase { file, rule: "main".into(), pieces, tags: vec![], shape, from: 0, to: 720_719, params: 0 }
}
/// lists of child patterns of every match type on all short lists of children
fn children_cases() -> Vec<MatchCase> {
  let formulas: Vec<Piece> = lists(&["mi", "mo"], 0, 5).into_iter().map(|l| Piece::Math(e("math", &[], vec![e("mrow", &[], l.iter().map(|n| e(n, &[], vec![])).collect())]))).collect();
  let mut cases = vec![];
  for list in lists(&["mi", "mo", ""], 1, 4) {
    for how in ["starts_with", "exact", "ends_with", "arbitrary"] {
      for marks in [true, false] {
        let one = |(i, n): (usize, &&str)| {
          let p = if n.is_empty() { el("math_any", vec![], vec![]) } else { el("math_node", vec![("name", n.to_string())], vec![]) };
          if marks { mark("math_marker", format!("m{i}"), p) } else { p }
        };
        let c = el("math_children", vec![("match_type", how.into())], list.iter().enumerate().map(one).collect());
        let p = el("seq_word", vec![], vec![el("word_math", vec![], vec![el("math_node", vec![("name", "mrow".into())], vec![c])])]);
        cases.push(small(mark("seq_marker", "all".into(), p), formulas.clone(), vec![]));
      }
    }
  }
  cases
}
/// two or three alternatives of every match type, followed by a word, on a text in which all short word sequences occur
fn alternative_cases() -> Vec<MatchCase> {
  let text: Vec<Piece> = "a a a a x a a x x a x a x x x x a".split(' ').map(|w| Piece::Word(w.into())).collect();
  let mut cases = vec![];
  let alternatives = lists(&["a", "x", ""], 0, 2);
  let word = |w: &str| if w.is_empty() { el("word_any", vec![], vec![]) } else { el("word", vec![], vec![x(w)]) };
  let seq = |l: &Vec<&str>, i: usize| mark("seq_marker", format!("m{i}"), el("seq_seq", vec![], l.iter().map(|w| el("seq_word", vec![], vec![word(w)])).collect()));
  for a in &alternatives {
    for b in &alternatives {
      for how in ["first", "longest", "any", "atleastone"] {
        for then in [None, Some("a"), Some("x")] {
          let mut alts = vec![seq(a, 0), seq(b, 1)];
          if then.is_none() {
            alts.push(seq(&vec!["x", "a", "x"], 2));
          }
          let or = el("seq_or", vec![("match_type", how.into())], alts);
          let p = match then {
            Some(t) => el("seq_seq", vec![], vec![or, el("seq_word", vec![], vec![mark("word_marker", "then".into(), word(t))])]),
            None => or,
          };
          cases.push(small(mark("seq_marker", "all".into(), p), text.clone(), vec![]));
        }
      }
    }
  }
  cases
}
/// phrases with all kinds of small conditions on many small parse trees
fn condition_cases() -> Vec<MatchCase> {
  let mut cases = vec![];
  let conditions = [vec![], vec!["a"], vec!["x"], vec!["a", "x"], vec!["", ""], vec!["", "", ""]];
  let word = |w: &str, l: &str| mark("word_marker", l.into(), if w.is_empty() { el("word_any", vec![], vec![]) } else { el("word", vec![], vec![x(w)]) });
  let seq = |l: &Vec<&str>, m: &str| el("seq_seq", vec![], l.iter().map(|w| el("seq_word", vec![], vec![word(w, m)])).collect());
  let mut bits = 0x9e37_79b9_7f4a_7c15u64;
  for start in &conditions {
    for contained in [None, Some("any"), Some("lessorequal")] {
      for end in &conditions {
        for how in ["shortest", "longest"] {
          for _ in 0..12 {
            bits = bits.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            let n = 2 + (bits >> 60) as usize % 5;
            let pieces = (0..n).map(|i| Piece::Word(if bits >> (20 + i) & 1 == 0 { "a" } else { "x" }.into())).collect();
            let shape = (0..16).map(|i| (bits.rotate_left(7 * i) >> 32) as u8).collect();
            let mut k = vec![el("match_type", vec![], vec![x(how)])];
            if !start.is_empty() {
              k.push(el("starts_with_seq", contained.map(|c| ("containment", c.to_string())).into_iter().collect(), vec![seq(start, "s")]));
            }
            if !end.is_empty() {
              k.push(el("ends_with_seq", vec![], vec![seq(end, "e")]));
            }
            let p = el("phrase", vec![("tag", "NP".into())], k);
            cases.push(small(mark("seq_marker", "all".into(), p), pieces, shape));
          }
        }
      }
    }
  }
  cases
}
/// descendants of every match type on all formulas of up to five nodes
fn descendant_cases() -> Vec<MatchCase> {
  fn trees(n: usize) -> Vec<T> {
    ["mi", "mrow"].iter().flat_map(|name| forests(n - 1).into_iter().map(|k| e(name, &[], k))).collect()
  }
  fn forests(n: usize) -> Vec<Vec<T>> {
    if n == 0 {
      return vec![vec![]];
    }
    (1..=n).flat_map(|first| trees(first).into_iter().flat_map(move |t| forests(n - first).into_iter().map(move |rest| [vec![t.clone()], rest].concat()))).collect()
  }
  let all: Vec<T> = (1..=4).flat_map(trees).collect();
  let mut cases = vec![];
  let node = |n: &str, k: Vec<T>| mark("math_marker", n.into(), el("math_node", if n.is_empty() { vec![] } else { vec![("name", n.into())] }, k));
  let kids = |how: &str, l: Vec<T>| el("math_children", vec![("match_type", how.into())], l);
  let inner = || [
    node("mi", vec![]),
    node("mrow", vec![kids("arbitrary", vec![node("mi", vec![])])]),
    node("", vec![kids("ends_with", vec![node("mrow", vec![])])]),
    node("mrow", vec![kids("exact", vec![node("", vec![]), node("mi", vec![])])]),
    el("math_or", vec![], vec![node("mrow", vec![kids("starts_with", vec![node("mrow", vec![])])]), node("mi", vec![])]),
  ];
  for how in ["first", "at_least_one", "arbitrary"] {
    for outer in ["", "first", "arbitrary"] {
      for p in inner() {
        let d = el("math_descendant", vec![("match_type", how.into())], vec![p]);
        let d = if outer.is_empty() { d } else { el("math_descendant", vec![("match_type", outer.into())], vec![mark("math_marker", "outer".into(), d)]) };
        let p = mark("seq_marker", "all".into(), el("seq_word", vec![], vec![el("word_math", vec![], vec![d])]));
        for part in all.chunks(40) {
          cases.push(small(p.clone(), part.iter().map(|t| Piece::Math(e("math", &[], vec![t.clone()]))).collect(), vec![]));
        }
      }
    }
  }
  cases
}

/// every rule kind: which rule a reference means
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct RefCase {
  /// for every rule: the rules it refers to (lower numbers only)
  refs: Vec<Vec<usize>>,
  /// the order of the rules in the file
  order: Vec<usize>,
  kind: u8,
  /// reference through the same names in all kinds
  decoys: bool,
  /// what the names look like
  style: u8,
}
fn check_refs(c: &RefCase, ctx: &mut Ctx) -> Res {
  let n = c.refs.len();
  let kind = c.kind as usize % 5;
  // all names are different; in some styles they differ in blanks, letter case or far from the start only
  let name = |i: usize| match c.style % 8 {
    0 => format!("rule{}", " ".repeat(i)),
    1 => format!("{}rule", " ".repeat(i)),
    2 => format!("a{}b", " ".repeat(i)),
    3 => (0..6).map(|b| if i >> b & 1 == 1 { 'R' } else { 'r' }).collect(),
    4 => format!("{}{i}", "long name ".repeat(40)),
    5 => ["", " ", "\u{a0}", "é", "e\u{301}", "\t", "\n", "0", "00", "é ", " é"].get(i).map(|n| n.to_string()).unwrap_or(format!("-{i}")),
    _ => format!("rule {i}"),
  };
  let (or, r) = [("seq_or", "seq_ref"), ("word_or", "word_ref"), ("math_or", "math_ref"), ("mtext_or", "mtext_ref"), ("pos_or", "pos_ref")][kind];
  let lit = |k: usize, i: usize| match k {
    0 => el("seq_word", vec![], vec![el("word", vec![], vec![x(&format!("w{i}"))])]),
    1 => el("word", vec![], vec![x(&format!("w{i}"))]),
    2 => el("math_node", vec![("name", format!("n{i}"))], vec![]),
    3 => el("mtext_lit", vec![("str", format!("w{i}"))], vec![]),
    _ => el("pos", vec![("tag", POS::ALL[i].1.into())], vec![]),
  };
  let mut rules: Vec<T> = Vec::new();
  let mut reach: Vec<Vec<usize>> = Vec::new();
  for i in 0..n {
    let mut k = vec![lit(kind, i)];
    let mut set = vec![i];
    for j in c.refs[i].iter().filter(|_| i > 0).map(|j| j % i) {
      k.push(el(r, vec![("ref", name(j))], vec![]));
      set.extend(reach[j].clone());
    }
    set.sort();
    set.dedup();
    reach.push(set);
    rules.push(el(RULES[kind], vec![("name", name(i))], vec![el(or, vec![], k)]));
    // rules of other kinds with the same name and another meaning
    if c.decoys {
      for other in (0..5).filter(|o| *o != kind) {
        rules.push(el(RULES[other], vec![("name", name(i))], vec![lit(other, n + i)]));
      }
    }
    let by_ref = el(r, vec![("ref", name(i))], vec![]);
    let word = match kind {
      0 => by_ref,
      1 => el("seq_word", vec![], vec![by_ref]),
      2 => el("seq_word", vec![], vec![el("word_math", vec![], vec![by_ref])]),
      3 => el("seq_word", vec![], vec![el("word_math", vec![], vec![el("math_node", vec![], vec![by_ref])])]),
      _ => el("seq_word", vec![], vec![el("word_pos", vec![], vec![el("pos", vec![], vec![by_ref]), el("word_any", vec![], vec![])])]),
    };
    rules.push(el("seq_rule", vec![("name", format!("use {i}"))], vec![el("seq_marker", vec![("name", format!("m{i}"))], vec![word])]));
  }
  let mut sorted: Vec<(usize, T)> = rules.into_iter().enumerate().map(|(i, r)| (c.order.get(i % c.order.len().max(1)).copied().unwrap_or(0).wrapping_mul(i + 1) % 97, r)).collect();
  sorted.sort_by_key(|x| x.0);
  let file = el("pattern_file", vec![], sorted.into_iter().map(|x| x.1).collect());
  let path = scratch_dir().join("refs.xml");
  std::fs::write(&path, file.xml()).unwrap();
  let file = match PatternFile::load(path.to_str().unwrap()) {
    Ok(f) => f,
    Err(e) => fail!("rejected", "rejected: {e}"),
  };
  let mut k = Vec::new();
  for i in 0..2 * n {
    k.push(match kind {
      2 => e("math", &[], vec![e(&format!("n{i}"), &[], vec![])]),
      3 => e("math", &[], vec![e("mi", &[], vec![x(&format!("w{i}"))])]),
      _ => x(&format!(" w{i} ")),
    });
  }
  let doc = parse(&e("p", &[], k), false);
  let par = parameters(0);
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), par.to_code());
  let text = dnm.plaintext.clone();
  let range = dnm.get_range().map_err(|_| ()).unwrap();
  let spans = senna::senna::double_tokenize(&text);
  ensure_eq!(spans.len(), 2 * n, "harness", "number of words");
  let words: Vec<Word> = spans.iter().enumerate().map(|(i, (a, z))| Word::new(&text[*a..*z], *a, *z, POS::ALL[i].0, i)).collect();
  let psg = PSGNode::Parent(Box::new(PSGParent::new(Phrase::S, (0..spans.len()).map(PSGNode::Leaf).collect())));
  let sentence = Sentence::build(&text, words, Some(psg));
  ctx.nontrivial(reach.iter().any(|r| r.len() > 1));
  for i in 0..n {
    let got = match match_sentence(&file, &sentence, &range, &format!("use {i}")) {
      Ok(r) => r,
      Err(e) => fail!("error", "error: {e}"),
    };
    let mut hit = Vec::new();
    for m in &got {
      if let MarkerEnum::Text(t) = &m.marker {
        ensure_eq!(t.marker.name, format!("m{i}"), "marker", "name of the marker");
        hit.push(spans.iter().position(|s| text[..s.0].chars().count() == t.range.start).unwrap_or(usize::MAX));
      }
    }
    ensure_eq!(hit, reach[i], "resolved", "words matched by {} rule {i}", RULES[kind]);
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "P15",
      rule: "the file is decided (accepted or rejected) by the grammar and has rules",
      assumptions: vec![
        "where the language does not say (comments inside a literal, content of word_any, two match types of a phrase), either answer is accepted",
        "files that are not well-formed XML only have to be answered without a panic",
      ],
      subs: vec![
        sub("edited", (30_000, 400_000), "generated files with zero to three edits against the grammar", |_| (file_gen(vec(rule_gen(), 0..6).boxed()), edits(0..4)).prop_map(|(file, edits)| FileCase { file, edits }).boxed(), check_load),
        sub(
          "many",
          (40, 800),
          "files with up to 3000 more rules, nesting of up to 200, up to 3000 alternatives, with zero to two edits",
          |_| {
            (file_gen(vec(rule_gen(), 1..6).boxed()), prop_oneof![3 => 0usize..100, 1 => 100usize..3000], any::<bool>(), 0usize..200, prop_oneof![3 => 0usize..40, 1 => 100usize..3000], edits(0..3))
              .prop_map(|(file, copies, front, depth, width, edits)| ManyRules { file, copies, front, depth, width, edits })
              .boxed()
          },
          check_many_rules,
        ),
        sub(
          "references",
          (4_000, 60_000),
          "acyclic reference graphs in every kind of rule, seen through what the rules match",
          |_| {
            (vec(vec(0usize..1000, 0..4), 1..14), vec(0usize..97, 1..40), 0u8..5, any::<bool>(), any::<u8>())
              .prop_map(|(refs, order, kind, decoys, style)| RefCase { refs, order, kind, decoys, style })
              .boxed()
          },
          check_refs,
        ),
        sub(
          "bytes",
          (6_000, 100_000),
          "cut and spliced files",
          |_| {
            (file_gen(vec(rule_gen(), 0..3).boxed()), 0usize..10_000, prop_oneof![vec(any::<u8>(), 0..12), pick(&["<", "</", "&", "<!--", "]]>", "\u{0}", "<word>", "\"", "<![CDATA[x]]>", "<?pi x?>", "&x;"]).prop_map(String::into_bytes)])
              .prop_map(|(file, cut, splice)| Bytes { file, cut, splice })
              .boxed()
          },
          check_bytes,
        ),
        enumerate("absent", "missing, empty and unreadable files", || (0u8..8).collect(), check_absent),
      ],
    },
    Prop {
      id: "P16",
      rule: "the pattern language prescribes at least one marker",
      assumptions: vec![
        "rule sets whose evaluation does not terminate (references that consume nothing) are left out",
        "words and parse trees are those of a tagger: words in text order with byte offsets, phrases covering contiguous words",
        "the paragraph supports back mapping; an empty match marks the empty range at its position",
      ],
      subs: vec![
        sub("programs", (15_000, 400_000), "whole rule sets on tagged, parsed sentences", match_case(any_top, 12), check_match),
        sub("words", (6_000, 150_000), "marked word patterns", match_case(word_top, 10), check_match),
        sub("math", (8_000, 200_000), "math patterns on formulas", match_case(math_top, 6), check_match),
        sub("phrases", (10_000, 250_000), "phrases with start and end conditions", match_case(phrase_top, 12), check_match),
        sub("derived", (20_000, 400_000), "patterns made from the sentence", derived_case(8, false), check_match),
        sub("formulas", (15_000, 300_000), "patterns made from the formulas", derived_case(0, true), check_match),
        sub("long", (800, 10_000), "long sentences", match_case(any_top, 120), check_match),
        enumerate("children", "lists of up to four child patterns of every match type on all lists of up to five children", children_cases, check_match),
        enumerate("alternatives", "alternatives of every match type, each a sequence of up to two words, and what follows them", alternative_cases, check_match),
        enumerate("conditions", "phrases with all combinations of small start and end conditions on small parse trees", condition_cases, check_match),
        enumerate("descendants", "descendant patterns of every match type, also nested, on all formulas of up to four nodes", descendant_cases, check_match),
      ],
    },
  ]
}
