//! P17: the XML helpers the pattern loader is built on.
use crate::patterns::utils::*;
use libxml::parser::Parser;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

fn ids(v: &[libxml::readonly::RoNode]) -> Vec<usize> { v.iter().map(|n| n.to_hashable()).collect() }

fn check_node(n: &Snap, ctx: &mut Ctx) -> Res {
  // what the helpers are specified to see
  let elems: Vec<&Snap> = n.kids.iter().filter(|k| k.kind != Kind::Text && k.kind != Kind::Comment).collect();
  let stray = n.kids.iter().find(|k| k.kind == Kind::Text && !k.text.trim().is_empty());
  let want_ids: Vec<usize> = elems.iter().map(|k| k.node.to_hashable()).collect();

  ensure_eq!(ids(&fast_get_non_text_children(n.node)), want_ids, "fast-children", "fast_get_non_text_children of <{}>", n.name);

  match (get_non_text_children(n.node), stray) {
    (Ok(v), None) => ensure_eq!(ids(&v), want_ids, "children", "get_non_text_children of <{}>", n.name),
    (Err(e), Some(s)) => {
      ensure!(e.contains(&n.name) && e.contains(s.text.trim()), "children-error", "the error {e:?} does not name the node {} and the text {:?}", n.name, s.text.trim());
      ctx.label("stray text");
    },
    (r, s) => vcommon::fail!("children-verdict", "get_non_text_children of <{}>: ok={} although stray text is {:?}", n.name, r.is_ok(), s.map(|s| &s.text)),
  }
  let only = get_only_child(n.node);
  match (&only, stray.is_none() && elems.len() == 1) {
    (Ok(k), true) => {
      ensure_eq!(k.to_hashable(), elems[0].node.to_hashable(), "only-child", "get_only_child of <{}>", n.name);
      ctx.label("only child");
    },
    (Err(e), false) => ensure!(e.contains(&n.name), "only-child-error", "the error {e:?} does not name {}", n.name),
    (r, w) => vcommon::fail!("only-child-verdict", "get_only_child of <{}>: ok={}, expected ok={w}", n.name, r.is_ok()),
  }
  let none = assert_no_child(n.node);
  match (&none, stray.is_none() && elems.is_empty()) {
    (Ok(()), true) => ctx.label("no child"),
    (Err(e), false) => ensure!(e.contains(&n.name), "no-child-error", "the error {e:?} does not name {}", n.name),
    (r, w) => vcommon::fail!("no-child-verdict", "assert_no_child of <{}>: ok={}, expected ok={w}", n.name, r.is_ok()),
  }
  for trim in [false, true] {
    let simple = get_simple_node_content(n.node, trim);
    let ok = n.kids.is_empty() || (n.kids.len() == 1 && n.kids[0].kind == Kind::Text);
    match (&simple, ok) {
      (Ok(s), true) => {
        let raw = n.kids.first().map(|k| k.text.clone()).unwrap_or_default();
        let want = if trim { raw.trim().to_string() } else { raw };
        ensure_eq!(*s, want, "simple-content", "get_simple_node_content(<{}>, {trim})", n.name);
        ctx.label_if(!s.is_empty(), "simple content");
      },
      (Err(e), false) => ensure!(e.contains(&n.name), "simple-content-error", "the error {e:?} does not name {}", n.name),
      (r, w) => vcommon::fail!("simple-content-verdict", "get_simple_node_content(<{}>): ok={}, expected ok={w}", n.name, r.is_ok()),
    }
  }
  for k in &n.kids {
    ensure_eq!(is_comment_node(k.node), k.kind == Kind::Comment, "is-comment", "is_comment_node of a {:?} node", k.kind);
  }
  ensure!(!is_comment_node(n.node), "is-comment", "is_comment_node of an element");
  for p in ["name", "class", "id", "lang", "nope"] {
    match (require_node_property(n.node, p), n.node.get_property(p)) {
      (Ok(a), Some(b)) => ensure_eq!(a, b, "property", "require_node_property(<{}>, {p})", n.name),
      (Err(e), None) => ensure!(e.contains(p) && e.contains(&n.name), "property-error", "the error {e:?} does not name {p} and {}", n.name),
      (r, _) => vcommon::fail!("property-verdict", "require_node_property(<{}>, {p}): ok={}", n.name, r.is_ok()),
    }
  }
  Ok(())
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Tree {
  doc: T,
}
fn check_tree(c: &Tree, ctx: &mut Ctx) -> Res {
  let doc = Parser::default().parse_string(c.doc.xml()).expect("generated XML is well-formed");
  let snap = Snap::of(doc.get_root_readonly().unwrap());
  for n in snap.elements() {
    check_node(n, ctx)?;
  }
  let kinds: std::collections::BTreeSet<String> = snap.preorder().iter().map(|s| format!("{:?}", s.kind)).collect();
  ctx.nontrivial(kinds.len() == 3);
  Ok(())
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Already {
  property: Option<String>,
  node: String,
  parent: String,
}
fn check_already(c: &Already, ctx: &mut Ctx) -> Res {
  match (check_found_property_already(&c.property, &c.node, &c.parent), &c.property) {
    (Ok(()), None) => {},
    (Err(e), Some(_)) => ensure!(e.contains(&c.node) && e.contains(&c.parent), "already-error", "the error {e:?} does not name both nodes"),
    (r, p) => vcommon::fail!("already-verdict", "check_found_property_already({p:?}): ok={}", r.is_ok()),
  }
  ctx.nontrivial(c.property.is_some());
  Ok(())
}
pub fn prop() -> Prop {
  let strat = |_t: Tier| {
    let texts = || prop_oneof![4 => pick(&[" ", "\n", "\n  ", "\t", "\u{a0}", "\u{2003} "]), 2 => or_text(pick(&["text", " padded ", "a b", "x & y", "é", "\u{200b}"]))];
    let attrs = || vec((or_name(pick(&["name", "class", "id", "lang", "x"])), or_text(pick(&["", "v", "a b", "<&>"]))), 0..3);
    let leaf = prop_oneof![
      4 => texts().prop_map(T::X),
      2 => pick(&["", "c", "long comment"]).prop_map(T::C),
      3 => (or_name(pick(&["word", "pos", "meta"])), attrs()).prop_map(|(n, a)| T::E(n, a, vec![])),
    ];
    let inner = leaf.prop_recursive(3, 20, 4, move |k| (or_name(pick(&["phrase", "not", "or", "rule", "seq"])), attrs(), vec(k, 0..5)).prop_map(|(n, a, k)| T::E(n, a, k)));
    (attrs(), vec(inner, 0..5)).prop_map(|(a, k)| Tree { doc: T::E("root".into(), a, k) }).boxed()
  };
  let many = move |t: Tier| {
    (strat(t), or_len(prop_oneof![3 => 1usize..200, 1 => 200usize..80_000].boxed(), 80_000), prop_oneof![3 => Just(0usize), 1 => 1usize..200]).prop_filter("not too large", |(t, n, _)| t.doc.xml().len() * n < 1_500_000).boxed()
  };
  let already = |_t: Tier| {
    (prop::option::of(pick(&["", "x"])), pick(&["name", "description"]), pick(&["meta", "pattern_file", "rule"])).prop_map(|(property, node, parent)| Already { property, node, parent }).boxed()
  };
  Prop {
    id: "P17",
    rule: "every element of a generated tree goes through all helpers, compared with what is in the tree; non-trivial: the tree mixes elements, text and comments",
    assumptions: vec!["blank means blank for str::trim"],
    subs: vec![
      sub("trees", (20_000, 400_000), "trees mixing elements, blank and non-blank text and comments", strat, check_tree),
      sub("many", (60, 1_200), "children repeated up to 80000 times, deep nesting", many, |l: &(Tree, usize, usize), ctx| {
        let T::E(n, a, k) = l.0.doc.clone() else { return Ok(()) };
        let mut k = times(&k, l.1);
        for _ in 0..l.2 {
          k = vec![e("seq", &[], k)];
        }
        check_tree(&Tree { doc: T::E(n, a, k) }, ctx)
      }),
      enumerate("wide", "255 to 70000 element children, with blanks, comments or a stray text in between", || {
        [255usize, 256, 257, 1024, 4096, 32_768, 65_535, 65_536, 65_537, 70_000].into_iter().flat_map(|n| (0u8..4).map(move |k| (n, k))).collect()
      }, |c: &(usize, u8), ctx| {
        let unit = [vec![e("b", &[], vec![])], vec![x(" "), e("b", &[], vec![])], vec![e("b", &[], vec![]), T::C("c".into())], vec![e("b", &[], vec![])]][c.1 as usize].clone();
        let mut k = times(&unit, c.0);
        if c.1 == 3 {
          k.push(x("stray"));
        }
        ctx.nontrivial(true);
        check_tree(&Tree { doc: T::E("root".into(), vec![], k) }, ctx)
      }),
      sub("already", (400, 4_000), "check_found_property_already", already, check_already),
    ],
  }
}
