//! Generated documents and parameters, and the reference model of the plaintext construction.
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::Document as XmlDoc;
use llamapun::dnm::*;
use std::collections::HashMap;
use std::sync::Arc;
use vcommon::engine::Tier;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Rule {
  Enter,
  Skip,
  Token(String),
  Call(u8),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Par {
  pub names: Vec<(String, Rule)>,
  pub classes: Vec<(String, Rule)>,
  pub ws: bool,
  pub wrap: bool,
  pub unicode: bool,
  /// 0: none, 1: once, 2: full (back mapping off)
  pub stem: u8,
  pub lower: bool,
  pub back: bool,
}
fn call0(n: RoNode) -> String { format!("[{}]", n.get_name()) }
fn call1(n: RoNode) -> String { n.get_content().chars().rev().take(3).collect() }
/// says where the node is and what it looks like, so that equal-looking nodes get different tokens
fn call2(n: RoNode) -> String {
  let mut before = 0;
  let mut at = n.get_prev_sibling();
  while let Some(p) = at.filter(|_| before < 50) {
    before += 1;
    at = p.get_prev_sibling();
  }
  let id = |n: RoNode| n.get_property("id").unwrap_or_default();
  format!("<{}{before}{}>", id(n), n.get_parent().map(id).unwrap_or_default())
}
fn option(r: &Rule) -> SpecialTagsOption {
  match r {
    Rule::Enter => SpecialTagsOption::Enter,
    Rule::Skip => SpecialTagsOption::Skip,
    Rule::Token(t) => SpecialTagsOption::Normalize(t.clone()),
    Rule::Call(0) => SpecialTagsOption::FunctionNormalize(Arc::new(call0)),
    Rule::Call(1) => SpecialTagsOption::FunctionNormalize(Arc::new(call1)),
    Rule::Call(_) => SpecialTagsOption::FunctionNormalize(Arc::new(call2)),
  }
}
impl Par {
  pub fn to_code(&self) -> DNMParameters {
    let map = |v: &Vec<(String, Rule)>| {
      let mut m = HashMap::new();
      for (k, r) in v {
        m.entry(k.clone()).or_insert_with(|| option(r));
      }
      m
    };
    DNMParameters {
      special_tag_name_options: map(&self.names),
      special_tag_class_options: map(&self.classes),
      normalize_white_spaces: self.ws,
      wrap_tokens: self.wrap,
      normalize_unicode: self.unicode,
      stem_words_once: self.stem == 1,
      stem_words_full: self.stem == 2,
      convert_to_lowercase: self.lower,
      support_back_mapping: self.back,
    }
  }
  fn find<'a>(v: &'a [(String, Rule)], k: &str) -> Option<&'a Rule> { v.iter().find(|(n, _)| n == k).map(|(_, r)| r) }
}

/// What the plaintext construction should produce
#[derive(Default)]
pub struct Model {
  pub chars: Vec<char>,
  /// node -> range
  pub map: HashMap<usize, (usize, usize)>,
  /// for every character: node, offset in the node (-1: stands for the whole node)
  pub back: Vec<(usize, i32)>,
  /// counters for the labels
  pub tokens: usize,
  pub skipped: usize,
}
impl Model {
  pub fn of(snap: &Snap, p: &Par) -> Model {
    let mut m = Model::default();
    let mut at_ws = true;
    m.visit(snap, p, &mut at_ws);
    m
  }
  fn blank(&mut self, p: &Par, node: usize, at_ws: &mut bool) {
    if !*at_ws || !p.ws {
      self.chars.push(' ');
      self.back.push((node, -1));
      *at_ws = true;
    }
  }
  fn visit(&mut self, s: &Snap, p: &Par, at_ws: &mut bool) {
    let start = self.chars.len();
    let id = s.node.to_hashable();
    if s.kind == Kind::Text {
      let out = text_pipeline(&s.text, p);
      for (c, o) in out {
        if p.ws && c.is_whitespace() {
          if !*at_ws {
            *at_ws = true;
            self.chars.push(' ');
            self.back.push((id, o));
          }
        } else {
          if p.ws {
            *at_ws = false;
          }
          self.chars.push(c);
          self.back.push((id, o));
        }
      }
    } else {
      let class_rule = s.classes().iter().find_map(|c| Par::find(&p.classes, c));
      let rule = class_rule.or_else(|| Par::find(&p.names, &s.name));
      let token = match rule {
        None | Some(Rule::Enter) => {
          for k in &s.kids {
            self.visit(k, p, at_ws);
          }
          None
        },
        Some(Rule::Skip) => {
          self.skipped += 1;
          None
        },
        Some(Rule::Token(t)) => Some(t.clone()),
        Some(Rule::Call(0)) => Some(call0(s.node)),
        Some(Rule::Call(1)) => Some(call1(s.node)),
        Some(Rule::Call(_)) => Some(call2(s.node)),
      };
      if let Some(t) = token {
        self.tokens += 1;
        if p.wrap {
          self.blank(p, id, at_ws);
        }
        for c in t.chars() {
          self.chars.push(c);
          self.back.push((id, -1));
        }
        *at_ws = false;
        if p.wrap {
          self.blank(p, id, at_ws);
        }
      }
    }
    self.map.insert(id, (start, self.chars.len()));
  }
}
/// unicode, stemming and lowercase, with the offset each character comes from
fn text_pipeline(text: &str, p: &Par) -> Vec<(char, i32)> {
  let mut v: Vec<(char, i32)> = text.chars().enumerate().map(|(i, c)| (c, i as i32)).collect();
  if p.unicode {
    v = v.into_iter().flat_map(|(c, o)| unidecode::unidecode_char(c).chars().map(move |d| (d, o))).collect();
  }
  let string = |v: &[(char, i32)]| v.iter().map(|x| x.0).collect::<String>();
  if p.stem > 0 {
    let s = string(&v);
    let s = if p.stem == 2 { rustmorpha::full_stem(&s) } else { rustmorpha::stem(&s) };
    v = s.chars().map(|c| (c, 0)).collect();
  }
  if p.lower {
    let offsets: Vec<i32> = v.iter().flat_map(|(c, o)| c.to_lowercase().map(move |_| *o)).collect();
    v = string(&v).to_lowercase().chars().zip(offsets).collect();
  }
  v
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case {
  pub doc: T,
  pub html: bool,
  pub par: Par,
  /// which element (in document order, modulo) is the root of the DNM; 0 is the document element;
  /// from 1000: which node of any kind
  pub root: usize,
}
pub struct Built {
  pub doc: XmlDoc,
  pub whole: Snap,
  pub root: Snap,
  pub dnm: DNM,
  pub model: Model,
}
/// number the ids, so that they are unique
pub fn number_ids(t: &mut T, next: &mut usize) {
  if let T::E(_, attrs, kids) = t {
    for (n, v) in attrs.iter_mut() {
      if n == "id" {
        *next += 1;
        *v = format!("S{}.p{}", *next, v);
      }
    }
    for k in kids {
      number_ids(k, next);
    }
  }
}
pub fn parse(doc: &T, html: bool) -> XmlDoc {
  let text = doc.xml();
  if html {
    Parser::default_html().parse_string(text).expect("HTML parser accepts")
  } else {
    Parser::default().parse_string(text).expect("generated XML is well-formed")
  }
}
pub fn build(c: &Case) -> Built {
  let doc = parse(&c.doc, c.html);
  let whole = Snap::of(doc.get_root_readonly().unwrap());
  let els = if c.root < 1000 { whole.elements() } else { whole.preorder() };
  let root = els[c.root % els.len()].clone();
  let dnm = DNM::new(root.node, c.par.to_code());
  let model = Model::of(&root, &c.par);
  Built { doc, whole, root, dnm, model }
}

pub fn names() -> BoxedStrategy<String> { or_name(pick(&["p", "p", "div", "span", "em", "math", "math", "cite", "a", "table", "h2", "text", "svg", "td"])) }
pub fn class_list() -> BoxedStrategy<String> {
  prop_oneof![
    3 => or_word(pick(&["ltx_para", "ltx_eq", "k1", "k2", "k3"])),
    2 => (pick(&["k1", "k2", "k3", "ltx_eq"]), pick(&[" ", "  ", "\t", "\n"]), pick(&["k1", "k2", "k3", "k10"])).prop_map(|(a, s, b)| a + &s + &b),
    1 => pick(&["", " ", "k", "k1k2", "K1", " k1 ", "k2 k3 k1"]),
    // long lists, most of them of classes without a rule
    1 => (vec(pick(&["ltx_a", "k10", "K1", "ltx_font_bold", "k", "x"]), 3..14), vec(pick(&["k1", "k2", "k3", "ltx_eq"]), 0..3), vec(pick(&["x", "K2"]), 0..2))
      .prop_map(|(a, b, c)| [a, b, c].concat().join(" ")),
  ]
  .boxed()
}
pub fn attrs() -> BoxedStrategy<Vec<(String, String)>> {
  (prop::option::weighted(0.5, class_list()), prop::option::weighted(0.25, prop_oneof![4 => or_text(pick(&["m", "e", "a.b"])), 1 => pick(&["a,b", "q\"r", "x),y", "z],1", "it's", "α", "a b", "c:d"])]), prop::bool::weighted(0.2))
    .prop_map(|(class, id, other)| {
      let mut v = Vec::new();
      if let Some(i) = id {
        v.push(("id".to_string(), i));
      }
      if other {
        v.push(("title".to_string(), "k1 math".to_string()));
      }
      if let Some(c) = class {
        v.push(("class".to_string(), c));
      }
      v
    })
    .boxed()
}
pub fn texts() -> BoxedStrategy<String> {
  let piece = prop_oneof![
    8 => or_text(pick(&["a", "word", "Words", "The", "is", "running", "X", "mathformula", "don't", "x.", "1", "End.", "("])),
    6 => pick(&[" ", " ", "\n", "  ", "\t", "\n\n"]),
    3 => pick(&["é", "ö", "привет", "İ", "ΣΑΣ", "ß", "€", "\u{feff}", "\u{80}", "\u{7ff}", "\u{800}", "\u{fffd}", "\u{10000}", "\u{10fffd}", "…", "½", "\u{301}", "\u{200b}", "\u{a0}", "\u{2003}", "北京", "😀", "ŧŧ", "ﬁ", "’s"]),
  ];
  prop_oneof![
    5 => vec(piece, 0..7).prop_map(|v| v.concat()),
    1 => pick(&[" ", "\n", "\n  \n", "", "\u{a0}"]),
  ]
  .boxed()
}
/// all characters: a range of code points and a set of parameters
pub type Chars = ((u32, u32), u8);
pub fn all_characters() -> Vec<Chars> { vcommon::gen::code_points().into_iter().flat_map(|r| (0u8..8).map(move |k| (r, k))).collect() }
/// a document with these characters, one after the other and between letters
pub fn characters_case(c: &Chars) -> Case {
  let all = vcommon::gen::characters(c.0);
  let dense: String = all.iter().collect();
  let spaced: String = all.iter().map(|c| format!("a{c}B ")).collect();
  let par = Par { names: vec![], classes: vec![], ws: c.1 & 1 != 0, wrap: false, unicode: c.1 & 2 != 0, stem: 0, lower: c.1 & 4 != 0, back: true };
  let kids = vec![e("p", &[], vec![x(&dense), e("b", &[], vec![x(&dense)]), x(&spaced)])];
  Case { doc: e("html", &[], vec![e("body", &[], kids)]), html: false, par, root: 0 }
}
pub fn rule() -> BoxedStrategy<Rule> {
  prop_oneof![
    3 => or_text(pick(&["[TOK]", "mathformula", "REF", " padded ", "\nmathformula\n", "x", "é€", "a b"])).prop_map(Rule::Token),
    2 => Just(Rule::Skip),
    1 => Just(Rule::Enter),
    1 => (0u8..3).prop_map(Rule::Call),
  ]
  .boxed()
}
pub fn params() -> BoxedStrategy<Par> {
  (
    vec((names(), rule()), 0..4),
    vec((or_word(pick(&["k1", "k2", "k3", "ltx_eq", "ltx_para"])), rule()), 0..4),
    any::<bool>(),
    any::<bool>(),
    prop::bool::weighted(0.4),
    prop_oneof![5 => Just(0u8), 1 => 1u8..3],
    prop::bool::weighted(0.3),
    prop::bool::weighted(0.85),
  )
    .prop_map(|(names, classes, ws, wrap, unicode, stem, lower, back)| Par { names, classes, ws, wrap, unicode, stem, lower, back: back && stem == 0 })
    .boxed()
}
/// documents of the form html/body/...
pub fn document(t: Tier) -> BoxedStrategy<T> {
  let (depth, size, width) = if t == Tier::Quick { (4, 24, 5) } else { (6, 60, 7) };
  let body = vec(tree(names(), attrs(), texts(), depth, size, width), 1..4);
  let body = prop_oneof![
    3 => body.clone(),
    1 => (texts(), body, texts()).prop_map(|(a, mut b, z)| {
      b.insert(0, T::X(a));
      b.push(T::X(z));
      b
    }),
  ];
  // sometimes without a body: anything may be the document element
  let root = prop_oneof![
    5 => Just(None),
    1 => (pick(&["html", "div", "p", "math", "span"]), attrs()).prop_map(Some),
  ];
  // some elements occur again: right behind, at the end, somewhere else; as they are or with small differences
  let again = prop_oneof![3 => Just(vec![]), 1 => vec((0usize..40, 0usize..40, any::<u8>()), 1..3)];
  (attrs(), body, root, again)
    .prop_map(|(a, kids, root, again)| {
      let mut t = match root {
        None => T::E("html".into(), vec![], vec![T::E("body".into(), a, kids)]),
        Some((n, a)) => T::E(n, a, kids),
      };
      for c in again {
        repeat(&mut t, c);
      }
      number_ids(&mut t, &mut 0);
      t
    })
    .boxed()
}
fn repeat(t: &mut T, (from, to, how): (usize, usize, u8)) {
  let mut n = from % count_elements(t);
  let Some((kids, i)) = nth_child(t, &mut n) else { return };
  let mut copy = kids[i].clone();
  if matches!(&copy, T::E(n, ..) if n == "body" || n == "head") {
    return;
  }
  if let T::E(name, attrs, inner) = &mut copy {
    match how / 8 % 8 {
      1 => attrs.push(("title".into(), "again".into())),
      2 => attrs.retain(|a| a.0 != "class"),
      3 => inner.reverse(),
      4 => *name = "em".into(),
      5 => inner.push(T::X("more".into())),
      _ => {},
    }
  }
  if let T::E(_, attrs, _) = &mut copy {
    // an attribute may occur only once
    let mut seen = std::collections::HashSet::new();
    attrs.retain(|a| seen.insert(a.0.clone()));
  }
  match how % 4 {
    0 | 1 => kids.insert(i + 1, copy),
    2 => kids.push(copy),
    _ => {
      let mut n = to % count_elements(t);
      if let Some((kids, i)) = nth_child(t, &mut n) {
        match &mut kids[i] {
          T::E(_, _, inner) if how & 128 != 0 => inner.push(copy),
          _ => kids.insert(i, copy),
        }
      }
    },
  }
}
pub fn case(t: Tier) -> BoxedStrategy<Case> {
  (document(t), any::<bool>(), params(), prop_oneof![20 => Just(0usize), 10 => 0usize..40, 1 => 1000usize..1080], namespaces())
    .prop_map(|(doc, html, par, root, ns)| Case { doc: ns.apply(&doc, html), html, par, root })
    .boxed()
}

/// prefixes a document may use; "m" and "n" are bound to different names
pub const PREFIXES: &[(&str, &str)] = &[("m", "http://www.w3.org/1998/Math/MathML"), ("n", "urn:n")];
/// which elements of an XML document are in which namespace
#[derive(Clone, Debug)]
pub struct Namespaces {
  /// whether the document element declares a default namespace
  default: bool,
  /// for the elements in document order, in turns: 0 as its parent, 1 prefix m, 2 prefix n, 3 a default namespace of its own, 4 no default namespace
  turns: Vec<u8>,
}
pub fn namespaces() -> BoxedStrategy<Namespaces> {
  prop_oneof![
    2 => Just(Namespaces { default: false, turns: vec![] }),
    1 => Just(Namespaces { default: true, turns: vec![] }),
    1 => (any::<bool>(), vec(prop_oneof![3 => Just(0u8), 1 => 1u8..5], 1..8)).prop_map(|(default, turns)| Namespaces { default, turns }),
  ]
  .boxed()
}
impl Namespaces {
  pub fn apply(&self, doc: &T, html: bool) -> T {
    let mut doc = doc.clone();
    if html {
      return doc;
    }
    let mut i = 0;
    self.visit(&mut doc, &mut i);
    let T::E(_, a, _) = &mut doc else { unreachable!() };
    if self.default {
      a.push(("xmlns".into(), "http://www.w3.org/1999/xhtml".into()));
    }
    if !self.turns.is_empty() {
      a.extend(PREFIXES.iter().map(|(p, u)| (format!("xmlns:{p}"), u.to_string())));
    }
    doc
  }
  fn visit(&self, t: &mut T, i: &mut usize) {
    let T::E(name, attrs, kids) = t else { return };
    if *i > 1 && !self.turns.is_empty() {
      match self.turns[*i % self.turns.len()] {
        1 => *name = format!("m:{name}"),
        2 => *name = format!("n:{name}"),
        3 => attrs.push(("xmlns".into(), "http://www.w3.org/2000/svg".into())),
        4 => attrs.push(("xmlns".into(), String::new())),
        _ => {},
      }
    }
    *i += 1;
    for k in kids {
      self.visit(k, i);
    }
  }
}

// ---- large documents ---------------------------------------------------------------------------

/// A small document and the places where it is blown up
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Large {
  pub case: Case,
  pub blow: Blow,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Blow {
  /// (which text, how often it is repeated)
  pub texts: Vec<(usize, u32)>,
  /// (which element, how many copies follow it)
  pub copies: Vec<(usize, u32)>,
  /// (which element, name, how many elements are wrapped around it)
  pub wrap: Option<(usize, String, u32)>,
}
fn nth_text<'a>(t: &'a mut T, n: &mut usize) -> Option<&'a mut String> {
  match t {
    T::X(s) if !s.is_empty() => {
      if *n == 0 {
        return Some(s);
      }
      *n -= 1;
      None
    },
    T::E(_, _, k) => k.iter_mut().find_map(|c| nth_text(c, n)),
    _ => None,
  }
}
/// (parent, position) of the nth element below body
fn nth_child<'a>(t: &'a mut T, n: &mut usize) -> Option<(&'a mut Vec<T>, usize)> {
  let T::E(_, _, kids) = t else { return None };
  for i in 0..kids.len() {
    if matches!(kids[i], T::E(..)) {
      if *n == 0 {
        return Some((kids, i));
      }
      *n -= 1;
      if find_below(&mut kids[i], n) {
        return nth_child(&mut kids[i], n);
      }
    }
  }
  None
}
/// is the nth element below t? (counts down otherwise)
fn find_below(t: &mut T, n: &mut usize) -> bool {
  let c = count_elements(t) - 1;
  if *n < c {
    return true;
  }
  *n -= c;
  false
}
fn count_elements(t: &T) -> usize {
  match t {
    T::E(_, _, k) => 1 + k.iter().map(count_elements).sum::<usize>(),
    _ => 0,
  }
}
fn count_texts(t: &T) -> usize {
  match t {
    T::E(_, _, k) => k.iter().map(count_texts).sum::<usize>(),
    T::X(s) => usize::from(!s.is_empty()),
    _ => 0,
  }
}
/// what the sub-checks do with them
pub const HUGE: &str = "30000 and 100000 siblings of several kinds, on the stack of a worker thread";
/// documents with very many siblings of a kind
pub fn huge() -> Vec<(u8, u32)> { (0..6u8).flat_map(|kind| [30_000u32, 100_000].map(|n| (kind, n))).collect() }
pub fn huge_document((kind, n): (u8, u32)) -> T {
  let n = n as usize;
  let em = || T::E("em".into(), vec![], vec![T::X("two".into())]);
  let b = || T::E("b".into(), vec![], vec![]);
  let kids = match kind {
    0 => [vec![T::X("a ".into())], vec![b(); n], vec![T::X(" z".into())]].concat(),
    1 => [vec![T::X("a ".into()), em()], vec![T::C("c".into()); n], vec![b()]].concat(),
    2 => [T::X("Word ".into()), em()].into_iter().cycle().take(n / 3).collect(),
    3 => [T::X("b. A".into()), T::C("c".into())].into_iter().cycle().take(n).collect(),
    4 => vec![T::E("span".into(), vec![], vec![T::X("a".into())]); n / 2],
    _ => [vec![T::C("c".into()); n], vec![T::X("a ".into()), b()]].concat(),
  };
  let p = T::E("div".into(), vec![("class".into(), "ltx_para".into())], vec![T::E("p".into(), vec![], kids)]);
  T::E("html".into(), vec![], vec![T::E("body".into(), vec![], vec![p])])
}
pub fn huge_case(k: (u8, u32)) -> Case {
  let par = Par { names: vec![("em".into(), Rule::Token("[TOK]".into()))], classes: vec![], ws: k.0 % 2 == 0, wrap: k.0 % 3 == 0, unicode: false, stem: 0, lower: k.0 > 3, back: true };
  Case { doc: huge_document(k), html: false, par, root: 0 }
}
pub fn expand(l: &Large) -> Case { Case { doc: l.blow.apply(&l.case.doc), ..l.case.clone() } }
impl Blow {
  /// blow up a document of the form html/body/...
  pub fn apply(&self, doc: &T) -> T {
    let mut doc = doc.clone();
    let l = self;
    // the body, or the whole tree if there is none
    let no_body = !matches!(&doc, T::E(n, _, k) if n == "html" && k.len() == 1);
    let T::E(_, _, top) = &mut doc else { unreachable!() };
    let mut all = if no_body { T::E(String::new(), vec![], std::mem::take(top)) } else { std::mem::replace(&mut top[0], T::X(String::new())) };
    let body = &mut all;
    for (i, k) in &l.texts {
      let n = count_texts(body);
      if n > 0 {
        let s = nth_text(body, &mut (i % n)).unwrap();
        *s = s.repeat((*k as usize).min(80_000 / s.len()));
      }
    }
    if let Some((i, name, k)) = &l.wrap {
      let n = count_elements(body) - 1;
      if n > 0 {
        let (kids, at) = nth_child(body, &mut (i % n)).unwrap();
        let mut inner = std::mem::replace(&mut kids[at], T::X(String::new()));
        for _ in 0..*k {
          inner = T::E(name.clone(), vec![], vec![inner]);
        }
        kids[at] = inner;
      }
    }
    for (i, k) in &l.copies {
      let n = count_elements(body) - 1;
      if n > 0 {
        let (kids, at) = nth_child(body, &mut (i % n)).unwrap();
        let size = count_elements(&kids[at]) + count_texts(&kids[at]);
        let times = (*k as usize).min(6_000 / size.max(1)).min(200_000 / kids[at].xml().len());
        let copy = kids[at].clone();
        for _ in 0..times {
          kids.insert(at + 1, copy.clone());
        }
      }
    }
    match (no_body, all) {
      (true, T::E(_, _, k)) => *top = k,
      (_, b) => top[0] = b,
    }
    number_ids(&mut doc, &mut 0);
    doc
  }
}
pub fn blow() -> BoxedStrategy<Blow> {
  let times = || prop_oneof![2 => 2u32..60, 2 => 60u32..2_000, 1 => 2_000u32..9_000].boxed();
  (
    vec((0usize..30, or_size(times(), 9_000)), 0..3),
    vec((0usize..30, or_size(prop_oneof![3 => 2u32..300, 1 => 300u32..3_000].boxed(), 3_000)), 0..3),
    prop::option::of((0usize..30, pick(&["div", "span", "p", "em", "section"]), or_size(prop_oneof![Just(20u32), 20u32..150].boxed(), 150))),
  )
    .prop_map(|(texts, copies, wrap)| Blow { texts, copies, wrap })
    .boxed()
}
pub fn large(t: Tier) -> BoxedStrategy<Large> { (case(t), blow()).prop_map(|(case, blow)| Large { case, blow }).boxed() }
pub fn large_labels(l: &Blow, ctx: &mut vcommon::engine::Ctx) {
  ctx.label_if(l.texts.iter().any(|x| x.1 > 1_000), "long text");
  ctx.label_if(l.copies.iter().any(|x| x.1 > 250), "hundreds of siblings");
  ctx.label_if(l.wrap.as_ref().is_some_and(|x| x.2 > 50), "deep nesting");
}
