//! P28: the parameter presets and the parameter check.
use crate::dnm::{DNMParameters, RuntimeParseData, SpecialTagsOption};
use std::collections::BTreeMap;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
enum R {
  Enter,
  Token(String),
  Call,
  Skip,
  /// no rule
  None,
}
fn rule(o: Option<&SpecialTagsOption>) -> R {
  match o {
    None => R::None,
    Some(SpecialTagsOption::Enter) => R::Enter,
    Some(SpecialTagsOption::Normalize(s)) => R::Token(s.clone()),
    Some(SpecialTagsOption::FunctionNormalize(_)) => R::Call,
    Some(SpecialTagsOption::Skip) => R::Skip,
  }
}
fn tok(s: &str) -> R { R::Token(s.into()) }
fn names() -> BTreeMap<&'static str, R> {
  BTreeMap::from([
    ("math", tok("mathformula")),
    ("cite", tok("CitationElement")),
    ("img", R::Skip),
    ("table", R::Skip),
    ("head", R::Skip),
    ("footer", R::Skip),
  ])
}
fn classes() -> BTreeMap<&'static str, R> {
  BTreeMap::from([
    ("ltx_equation", tok("\nmathformula\n")),
    ("ltx_equationgroup", tok("\nmathformula\n")),
    ("ltx_ref", tok("REF")),
    ("ltx_authors", R::Skip),
    ("ltx_TOC", R::Skip),
    ("ltx_note_mark", R::Skip),
    ("ltx_note_outer", R::Skip),
    ("ltx_bibliography", R::Skip),
    ("ltx_tag_figure", R::Skip),
    ("ltx_tag_table", R::Skip),
  ])
}
const MORE: &[&str] = &[
  "p", "div", "span", "section", "a", "em", "header", "nav", "figure", "tr", "td", "thead", "svg", "script", "style", "title", "body", "article", "ltx_tag", "ltx_para", "ltx_p",
  "ltx_note", "ltx_math", "ltx_cite", "ltx_eqn_table", "ltx_tag_item", "ltx_tag_equation", "ltx_author", "ltx_abstract", "ltx_toc", "ltx_Ref", "ltx_title", "ltx_caption", "ltx_bibitem", "Math", "",
];

fn check_query(q: &String, ctx: &mut Ctx) -> Res {
  let norm = DNMParameters::llamapun_normalization();
  let plain = DNMParameters::default();
  let (n, c) = (names().remove(q.as_str()).unwrap_or(R::None), classes().remove(q.as_str()).unwrap_or(R::None));
  ensure_eq!(rule(norm.special_tag_name_options.get(q)), n, "name-rule", "rule of the standard normalization for the tag {q:?}");
  ensure_eq!(rule(norm.special_tag_class_options.get(q)), c, "class-rule", "rule of the standard normalization for the class {q:?}");
  ensure_eq!(rule(plain.special_tag_name_options.get(q)), R::None, "default-name-rule", "the default parameters treat the tag {q:?} specially");
  ensure_eq!(rule(plain.special_tag_class_options.get(q)), R::None, "default-class-rule", "the default parameters treat the class {q:?} specially");
  ctx.nontrivial(true);
  ctx.label(if n != R::None || c != R::None { "special" } else { "ordinary" });
  Ok(())
}
fn check_flags(_: &u8, ctx: &mut Ctx) -> Res {
  let flags = |p: &DNMParameters| {
    BTreeMap::from([
      ("normalize_white_spaces", p.normalize_white_spaces),
      ("wrap_tokens", p.wrap_tokens),
      ("normalize_unicode", p.normalize_unicode),
      ("stem_words_once", p.stem_words_once),
      ("stem_words_full", p.stem_words_full),
      ("convert_to_lowercase", p.convert_to_lowercase),
      ("support_back_mapping", p.support_back_mapping),
    ])
  };
  let on = |list: &[&str]| flags(&DNMParameters::default()).keys().map(|k| (*k, list.contains(k))).collect::<BTreeMap<_, _>>();
  ensure_eq!(flags(&DNMParameters::default()), on(&["normalize_white_spaces", "support_back_mapping"]), "default-flags", "flags of the default parameters");
  let norm = DNMParameters::llamapun_normalization();
  ensure_eq!(flags(&norm), on(&["wrap_tokens", "normalize_unicode", "support_back_mapping"]), "normalization-flags", "flags of the standard normalization");
  ensure_eq!(norm.special_tag_name_options.len(), names().len(), "name-rules", "number of tag rules");
  ensure_eq!(norm.special_tag_class_options.len(), classes().len(), "class-rules", "number of class rules");
  let d = RuntimeParseData::default();
  ensure!(d.had_whitespace && d.chars.is_empty(), "runtime-default", "a fresh parse does not start at a whitespace boundary with no text: {d:?}");
  ctx.nontrivial(true);
  Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Conf {
  flags: Vec<bool>,
  rules: Vec<(String, bool, R)>,
}
fn call(_: libxml::readonly::RoNode) -> String { String::from("called") }
fn check_check(c: &Conf, ctx: &mut Ctx) -> Res {
  let mut p = DNMParameters {
    normalize_white_spaces: c.flags[0],
    wrap_tokens: c.flags[1],
    normalize_unicode: c.flags[2],
    stem_words_once: c.flags[3],
    stem_words_full: c.flags[4],
    convert_to_lowercase: c.flags[5],
    support_back_mapping: c.flags[6],
    ..DNMParameters::default()
  };
  for (k, name, r) in &c.rules {
    let o = match r {
      R::Enter | R::None => SpecialTagsOption::Enter,
      R::Token(t) => SpecialTagsOption::Normalize(t.clone()),
      R::Call => SpecialTagsOption::FunctionNormalize(std::sync::Arc::new(call)),
      R::Skip => SpecialTagsOption::Skip,
    };
    let shown = format!("{o:?}");
    let want = match r {
      R::Enter | R::None => "Enter".to_string(),
      R::Token(t) => format!("Normalize({t})"),
      R::Call => "FunctionNormalize".to_string(),
      R::Skip => "Skip".to_string(),
    };
    ensure!(shown.contains(&want), "debug", "the debug form {shown:?} does not name the rule {want}");
    if *name {
      p.special_tag_name_options.insert(k.clone(), o);
    } else {
      p.special_tag_class_options.insert(k.clone(), o);
    }
  }
  let before = format!("{:?}", (p.wrap_tokens, p.special_tag_name_options.len()));
  p.check(); // prints warnings, never fails
  let copy = p.clone();
  ensure_eq!(format!("{:?}", (copy.wrap_tokens, copy.special_tag_name_options.len())), before, "check-effect", "check() or clone() changed the parameters");
  for (k, v) in &p.special_tag_name_options {
    ensure_eq!(rule(copy.special_tag_name_options.get(k)), rule(Some(v)), "clone", "rule for {k:?} in a clone");
  }
  let clash = (c.flags[3] && c.flags[4]) || ((c.flags[3] || c.flags[4]) && (c.flags[5] || c.flags[6]));
  ctx.nontrivial(clash);
  ctx.label_if(clash, "contradicting flags");
  Ok(())
}
fn settings(bits: u8) -> DNMParameters {
  let on = |i: u8| bits >> i & 1 != 0;
  DNMParameters {
    normalize_white_spaces: on(0),
    wrap_tokens: on(1),
    normalize_unicode: on(2),
    stem_words_once: on(3),
    stem_words_full: on(4),
    convert_to_lowercase: on(5),
    support_back_mapping: on(6),
    ..if on(7) { DNMParameters::llamapun_normalization() } else { DNMParameters::default() }
  }
}
/// runs in a process of its own, whose error output is read
pub fn warnings() -> ! {
  for bits in 0..=255u8 {
    eprintln!("\u{1}{bits}");
    settings(bits).check();
  }
  std::process::exit(0)
}
/// which of the contradictions check() names on its error output, for all combinations of flags
fn check_warnings(_: &u8, ctx: &mut Ctx) -> Res {
  let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["helper", "warnings"]).stdin(std::process::Stdio::null()).output().unwrap();
  ensure!(out.status.success(), "warnings-died", "checking the parameters ended with {}", out.status);
  let text = String::from_utf8_lossy(&out.stderr);
  let said: Vec<&str> = text.split('\u{1}').skip(1).collect();
  ensure_eq!(said.len(), 256, "warnings-sections", "sections");
  for (bits, said) in (0..=255u8).zip(said) {
    let said = said.strip_prefix(&bits.to_string()).unwrap_or(said);
    let p = settings(bits);
    let stems = p.stem_words_once || p.stem_words_full;
    let want = [("stem_words_full", p.stem_words_once && p.stem_words_full), ("convert_to_lowercase", stems && p.convert_to_lowercase), ("support_back_mapping", stems && p.support_back_mapping)];
    for (flag, wanted) in want {
      ensure_eq!(said.contains(flag), wanted, "warning", "a warning about {flag} for once={} full={} lowercase={} back={} (said: {said:?})", p.stem_words_once, p.stem_words_full, p.convert_to_lowercase, p.support_back_mapping);
    }
    if want.iter().all(|w| !w.1) {
      ensure_eq!(said.trim(), "", "warning-none", "said about parameters without a contradiction");
    }
  }
  ctx.nontrivial(true);
  Ok(())
}
pub fn prop() -> Prop {
  let known = || names().into_keys().chain(classes().into_keys()).map(|s| s.to_string()).collect::<Vec<_>>();
  let queries = move |_t: Tier| {
    let mut all = known();
    all.extend(MORE.iter().map(|s| s.to_string()));
    let w = prop::sample::select(all);
    prop_oneof![
      3 => or_word(w.clone().boxed()),
      2 => (w.clone(), "[a-zA-Z_]").prop_map(|(w, s)| w + &s),
      2 => w.prop_map(|w| w.chars().skip(1).collect::<String>()),
      2 => "(ltx_)?[a-zA-Z]{1,6}(_[a-z]{1,5})?",
    ]
    .boxed()
  };
  let all = || names().into_keys().chain(classes().into_keys()).chain(MORE.iter().copied()).map(|s| s.to_string()).collect();
  let conf = |_t: Tier| {
    let r = prop_oneof![Just(R::Enter), or_text(pick(&["", "tok", " x\n"])).prop_map(R::Token), Just(R::Call), Just(R::Skip)];
    (vec(any::<bool>(), 7), vec((or_word(pick(&["math", "p", "ltx_ref", "x"])), any::<bool>(), r), 0..4)).prop_map(|(flags, rules)| Conf { flags, rules }).boxed()
  };
  Prop {
    id: "P28",
    rule: "queries of the two presets' rule tables (published names, one-edit neighbours, random names) and all flag combinations; rule queries count as non-trivial always, configurations when flags contradict each other",
    assumptions: vec!["the reference tables are those of the pinned commit"],
    subs: vec![
      sub("queries", (20_000, 300_000), "tag and class names", queries, check_query),
      enumerate("tables", "every published name and some ordinary ones", all, check_query),
      enumerate("flags", "flags and table sizes", || vec![0u8], check_flags),
      enumerate("warnings", "what check() prints for all 128 combinations of the flags, with and without rules", || vec![0u8], check_warnings),
      sub("check", (4_000, 50_000), "flag combinations and rules through check(), clone() and Debug", conf, check_check),
    ],
  }
}
