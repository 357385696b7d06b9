//! P21: math nodes are replaced by their lexemes.
use crate::dnm::node::lexematize_math;
use libxml::parser::Parser;
use libxml::xpath::Context;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

const RUN_ON: &[&str] = &["OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT"];

/// the lexemes of one annotation
fn lexemes(text: &str) -> Vec<String> {
  // separate run-together "<ROLE>:end" markers
  let mut s = String::new();
  let mut i = 0;
  while i < text.len() {
    let rest = &text[i..];
    if let Some(k) = RUN_ON.iter().find(|k| rest.starts_with(&format!("{k}:end"))) {
      s.push_str(&format!(" {k}:end "));
      i += k.len() + 4;
    } else {
      let c = rest.chars().next().unwrap();
      s.push(c);
      i += c.len_utf8();
    }
  }
  let s = s.replace(":end", ":end ").replace(":start", ":start ");
  s.split_whitespace()
    .map(|w| {
      for class in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] {
        if w.starts_with(class) {
          return class.to_string();
        }
      }
      w.replace([':', '-'], "_")
    })
    .collect()
}
fn model(node: &Snap) -> Vec<String> {
  let mut out = Vec::new();
  for (i, s) in node.preorder().into_iter().enumerate() {
    if i > 0 && s.kind == Kind::Elem && s.name == "annotation" && s.node.get_property("encoding").as_deref() == Some("application/x-llamapun") {
      out.extend(lexemes(&s.content()));
    }
  }
  if out.is_empty() {
    out.push("mathformula".into());
  }
  out
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Math {
  doc: T,
}
fn check(c: &Math, ctx: &mut Ctx) -> Res {
  let doc = Parser::default().parse_string(c.doc.xml()).expect("generated XML is well-formed");
  let snap = Snap::of(doc.get_root_readonly().unwrap());
  let mut context = Context::new(&doc).unwrap();
  // every element may be the math node; several calls share one context
  let els: Vec<&Snap> = snap.elements().into_iter().take(8).collect();
  let mut any = false;
  for e in els.iter().chain(els.first()) {
    let code = lexematize_math(e.node, &mut context);
    let want = model(e);
    ensure_eq!(code.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>(), want, "lexemes", "lexemes of <{}>", e.name);
    any |= want != ["mathformula"];
    if want == ["mathformula"] {
      ensure_eq!(code.as_str(), "mathformula", "fallback", "the generic substitution");
      ctx.label("fallback");
    }
    ensure!(!code.contains('\n') && !code.contains(':'), "separators", "{code:?} still has newlines or colons");
    ctx.label_if(want.len() > 1, "several lexemes");
    let n = e.preorder().iter().skip(1).filter(|s| s.name == "annotation").count();
    ctx.label_if(n > 1, "several annotations");
  }
  ctx.nontrivial(any);
  Ok(())
}

/// the children repeated, the texts repeated, the whole wrapped
fn grow(l: &(Math, u32, u32, u32)) -> Math {
  fn longer(t: &T, n: usize) -> T {
    match t {
      T::E(m, a, k) => T::E(m.clone(), a.clone(), k.iter().map(|k| longer(k, n)).collect()),
      T::X(s) => T::X(format!("{s} ").repeat(n)),
      other => other.clone(),
    }
  }
  let (m, children, text, depth) = l;
  let T::E(n, a, k) = longer(&m.doc, *text as usize) else { return m.clone() };
  let mut k = times(&k, *children as usize);
  for _ in 0..*depth {
    k = vec![e("mrow", &[], k)];
  }
  Math { doc: T::E(n, a, k) }
}

fn lexeme() -> BoxedStrategy<String> {
  let role = or_word(pick(&["OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT", "POSTFIX", "NUMBER", "ATOM", "ARRAY", "SUPERSCRIPTOP", "PUNCT", "XMApp", "NUM", "VERTBAR", "GRID", "Atom", "num"]));
  let value = or_word(pick(&["", "x", "2", "equals", "start", "end", "italic-x", "α", "less-than-or-equals", "{", "a:b", "-", "::", "1-2-3", "endpoint", "started", "NUM"]));
  (role, value, prop::bool::weighted(0.7)).prop_map(|(r, v, colon)| if colon { format!("{r}:{v}") } else { format!("{r}{v}") }).boxed()
}
fn annotation_text() -> BoxedStrategy<String> {
  vec((lexeme(), pick(&[" ", " ", " ", "", "\n", "  ", "\t"])), 0..8).prop_map(|v| v.into_iter().map(|(l, s)| l + &s).collect::<String>()).boxed()
}
fn annotation() -> BoxedStrategy<T> {
  let enc = or_text(pick(&["application/x-llamapun", "application/x-llamapun", "application/x-llamapun", "application/x-tex", "", "application/x-llamapun2", "Application/x-llamapun"]));
  let name = or_name(pick(&["annotation", "annotation", "annotation", "annotation", "annotation-xml", "m:annotation"]));
  let blank = prop_oneof![5 => annotation_text(), 1 => pick(&["", " ", "\n"])];
  (name, enc, blank, prop::option::weighted(0.2, annotation_text()))
    .prop_map(|(n, enc, t, nested)| {
      let mut kids = vec![x(&t)];
      if let Some(n) = nested {
        kids.push(e("mi", &[], vec![x(&n)]));
      }
      e(&n, &[("encoding", &enc)], kids)
    })
    .boxed()
}
pub fn prop() -> Prop {
  let strat = |_t: Tier| {
    let leaf = prop_oneof![4 => annotation(), 1 => annotation_text().prop_map(T::X), 1 => pick(&["c", ""]).prop_map(T::C)];
    let inner = leaf.prop_recursive(4, 24, 4, |k| {
      let wrap = (or_name(pick(&["mrow", "semantics", "math", "td", "tr", "m:math", "annotation", "span"])), vec(k.clone(), 0..4)).prop_map(|(n, k)| e(&n, &[], k));
      prop_oneof![3 => wrap, 2 => k]
    });
    vec(inner, 0..5)
      .prop_map(|k| Math { doc: T::E("math".into(), vec![("xmlns:m".into(), "http://www.w3.org/1998/Math/MathML".into())], k) })
      .boxed()
  };
  let large = move |t: Tier| (strat(t), or_size(prop_oneof![2 => Just(1u32), 2 => 2u32..60, 1 => 60u32..4000].boxed(), 4_000), or_size(prop_oneof![2 => Just(1u32), 2 => 2u32..60, 1 => 60u32..4000].boxed(), 4_000), prop_oneof![2 => Just(0u32), 1 => 1u32..120])
    .prop_filter("not too large", |(m, a, b, _)| m.doc.xml().len() * (*a as usize) * (*b as usize) < 600_000)
    .boxed();
  Prop {
    id: "P21",
    rule: "every element of a generated math tree is lexematized (sharing one XPath context) and compared with a reference reading of its annotations; non-trivial: some element has lexemes",
    assumptions: vec!["lexemes are compared as a whitespace-separated sequence (the number of separating blanks is not judged)"],
    subs: vec![
      sub("trees", (15_000, 300_000), "math trees with nested, foreign, empty and namespaced annotations", strat, check),
      enumerate("characters", "lexemes with every character of planes 0 and 1 in them", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
        let text: String = vcommon::gen::characters(*r).iter().map(|c| format!("ID:a{c}b {c} {c}NUM:x{c} UNKNOWN{c}:end")).collect();
        check(&Math { doc: e("math", &[], vec![e("annotation", &[("encoding", "application/x-llamapun")], vec![x(&text)])]) }, ctx)
      }),
      sub("large", (60, 1_200), "the same with up to 4000 times as many annotations, annotations up to 4000 times as long, deep nesting", large, |l: &(Math, u32, u32, u32), ctx| check(&grow(l), ctx)),
      sub("concurrent", (40, 800), "several documents at the same time, one thread each", move |t| vec(strat(t), 2..7).boxed(), |l: &Vec<Math>, ctx| concurrently(l, 15, check, ctx)),
    ],
  }
}
