//! P22 heading normalization, P23 environment classification.
use crate::{dnmgen, select};
use llamapun::ams::*;
use llamapun::data;
use llamapun::util::data_helpers::normalize_heading_title;
use std::collections::HashMap;
use std::sync::OnceLock;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::proptest::sample::select as choose;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Heading {
  h: String,
}

/// the published tables: ("is" | "starts" | "ends", pattern, class), in order
fn table() -> &'static Vec<(String, String, String)> {
  static S: OnceLock<Vec<(String, String, String)>> = OnceLock::new();
  S.get_or_init(|| {
    include_str!("headings.ref.txt")
      .lines()
      .map(|l| {
        let p: Vec<&str> = l.split('\t').collect();
        (p[0].to_string(), p[1].to_string(), p[2].to_string())
      })
      .collect()
  })
}
const LEADS: &[&str] = &[
  "comparison with", "list of", "summary of", "outline of", "sketch of", "overview of", "start of", "end of", "general", "other", "additional", "completion", "finishing", "first", "second",
  "third", "new", "alternative", "chapter", "section", "some", "basic", "closely", "an", "our", "the",
];
const TRAILS: &[&str] = &["of the paper", "see", "of", "for"];
const PLURALS: &[&str] = &[
  "axiom", "algorithm", "assumption", "application", "conjecture", "condition", "conclusion", "contribution", "dataset", "data set", "definition", "discussion", "experiment", "example", "exercise",
  "lemma", "model", "method", "motivation", "notation", "observation", "proof", "proposition", "problem", "question", "result", "remark", "subject", "step", "simulation", "theorem", "work",
];
/// one round of stripping; words are separated by single blanks, an empty word is a doubled blank
fn strip(heading: &str) -> String {
  let trimmed = |w: Vec<String>| w.join(" ").trim().to_string();
  let words = |s: &str| s.split(' ').map(|w| w.to_string()).collect::<Vec<_>>();
  // drop whole words; a dropped word takes its blanks along, so its neighbour is left for the next round
  let drop = |s: &str, out: &dyn Fn(&str) -> bool| {
    let mut kept: Vec<String> = Vec::new();
    let mut last_dropped = false;
    for w in words(s) {
      if out(&w) && !last_dropped {
        last_dropped = true;
      } else {
        last_dropped = false;
        kept.push(w);
      }
    }
    trimmed(kept)
  };
  let s = drop(heading.trim(), &|w| w.chars().all(|c| "xiv".contains(c)));
  // numerals: each, with the blanks around it, becomes one blank
  let mut t = String::new();
  let mut rest = s.as_str();
  while let Some(i) = rest.find("NUM") {
    t.push_str(rest[..i].trim_end());
    t.push(' ');
    rest = rest[i + 3..].trim_start();
  }
  t.push_str(rest);
  let letter = |w: &str| w.len() == 1 && ('a'..='p').contains(&w.chars().next().unwrap());
  let s = drop(t.trim(), &letter);
  let mut w = words(&s);
  if w.len() > 1 && letter(w.last().unwrap()) {
    w.pop();
  }
  let mut s = trimmed(w);
  if let Some(l) = LEADS.iter().find(|l| s.starts_with(&format!("{l} "))) {
    s = s[l.len()..].trim().to_string();
  }
  if let Some(l) = TRAILS.iter().find(|l| s.ends_with(&format!(" {l}"))) {
    s = s[..s.len() - l.len()].trim().to_string();
  }
  // common plurals lose their s
  let mut out = String::new();
  for (i, w) in s.split(' ').enumerate() {
    if i > 0 {
      out.push(' ');
    }
    out.push_str(w);
    if PLURALS.iter().any(|p| out.ends_with(&format!("{p}s"))) {
      out.pop();
    }
  }
  out
}
fn model_heading(h: &str) -> String {
  let mut cur = h.to_string();
  loop {
    let s = strip(&cur);
    if s.is_empty() {
      return s;
    }
    if s == cur {
      break;
    }
    cur = s;
  }
  for (kind, pat, class) in table() {
    let hit = match kind.as_str() {
      "is" => cur == *pat,
      "starts" => cur.starts_with(pat.as_str()),
      _ => cur.ends_with(pat.as_str()),
    };
    if hit {
      return class.clone();
    }
  }
  cur
}

fn check_heading(c: &Heading, ctx: &mut Ctx) -> Res {
  let code = normalize_heading_title(&c.h);
  let want = model_heading(&c.h);
  ensure_eq!(code, want, "class", "normalized heading {:?}", c.h);
  // never glues words: every word of the result is a word of the heading (up to a plural s), or the result is a published class
  let known = table().iter().any(|t| t.2 == code);
  if !known {
    for w in code.split_whitespace() {
      ensure!(c.h.split_whitespace().any(|v| v == w || v == format!("{w}s")), "glued", "{w:?} in {code:?} is no word of {:?}", c.h);
    }
    // and what is left is stable
    ensure_eq!(normalize_heading_title(&code), code, "stable", "normalizing {:?} again", c.h);
  }
  ctx.nontrivial(want != c.h && !want.is_empty());
  ctx.label_if(known, "published class");
  ctx.label_if(!known && !code.is_empty() && code != c.h, "only stripped");
  ctx.label_if(code == c.h, "unchanged");
  ctx.label_if(code.is_empty(), "nothing left");
  Ok(())
}
/// enumeration around a heading does not change its class
fn check_meta(c: &(Heading, u8, String), ctx: &mut Ctx) -> Res {
  let (h, how, extra) = c;
  let base = normalize_heading_title(&h.h);
  let (lead, trail) = match how % 3 {
    0 => (format!("{extra} "), String::new()),
    1 => (String::new(), format!(" {extra}")),
    _ => (format!("{extra} "), format!(" {extra}")),
  };
  // a heading that itself is (part of) a phrase with its surroundings may read differently
  let dressed = format!("{lead}{}{trail}", h.h);
  ensure_eq!(normalize_heading_title(&dressed), base, "enumeration", "{dressed:?} against {:?}", h.h);
  ctx.nontrivial(!base.is_empty());
  Ok(())
}

// ---- environments ----------------------------------------------------------------------------

fn env_table() -> &'static HashMap<&'static str, &'static str> {
  static S: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
  S.get_or_init(|| include_str!("ams.ref.txt").lines().filter_map(|l| l.split_once('\t')).collect())
}
fn want_env(name: &str) -> &'static str { env_table().get(name).copied().unwrap_or("Other") }
fn check_env(c: &Heading, ctx: &mut Ctx) -> Res {
  let env = normalize_env(&c.h);
  let want = want_env(&c.h);
  ensure_eq!(format!("{env:?}"), want, "env", "environment of {:?}", c.h);
  ensure_eq!(env.to_string(), want.to_lowercase(), "env-display", "printed form of {want}");
  for class in [format!("ltx_theorem ltx_theorem_{}", c.h), format!("ltx_theorem_{}", c.h), format!("ltx_theorem_{} ltx_centering", c.h)] {
    if !c.h.is_empty() && c.h.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
      ensure_eq!(class_to_env(&class).map(|e| format!("{e:?}")), Some(want.to_string()), "class", "environment of class {class:?}");
    }
  }
  ctx.nontrivial(want != "Other");
  ctx.label_if(want == "Other", "unknown name");
  Ok(())
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Classes {
  list: Vec<String>,
  sep: String,
}
fn check_class(c: &Classes, ctx: &mut Ctx) -> Res {
  let class = c.list.join(&c.sep);
  let suffix = c.list.iter().find_map(|k| k.strip_prefix("ltx_theorem_"));
  let want = if let Some(s) = suffix {
    Some(want_env(s).to_string())
  } else if c.list.iter().any(|k| k == "ltx_theorem") {
    Some("Theorem".to_string())
  } else if class == "ltx_proof" {
    Some("Proof".to_string())
  } else {
    None
  };
  ensure_eq!(class_to_env(&class).map(|e| format!("{e:?}")), want, "class", "environment of class {class:?}");
  ctx.nontrivial(want.is_some());
  ctx.label_if(suffix.is_some(), "named environment");
  Ok(())
}
fn structural() -> Vec<(StructuralEnv, &'static str)> {
  use StructuralEnv::*;
  vec![
    (Abstract, "abstract"), (Acknowledgement, "acknowledgement"), (Analysis, "analysis"), (Application, "application"), (Assumption, "assumption"), (Background, "background"), (Case, "case"),
    (Caption, "caption"), (Claim, "claim"), (Conclusion, "conclusion"), (Condition, "condition"), (Conjecture, "conjecture"), (Contribution, "contribution"), (Corollary, "corollary"), (Data, "data"),
    (Dataset, "dataset"), (Definition, "definition"), (Demonstration, "demonstration"), (Description, "description"), (Discussion, "discussion"), (Example, "example"), (Experiment, "experiment"),
    (Fact, "fact"), (FutureWork, "future work"), (Implementation, "implementation"), (Introduction, "introduction"), (Lemma, "lemma"), (Methods, "methods"), (Model, "model"), (Motivation, "motivation"),
    (Notation, "notation"), (Observation, "observation"), (Preliminaries, "preliminaries"), (Problem, "problem"), (Proof, "proof"), (Property, "property"), (Proposition, "proposition"),
    (Question, "question"), (RelatedWork, "related work"), (Remark, "remark"), (Result, "result"), (Simulation, "simulation"), (Step, "step"), (Summary, "summary"), (Theorem, "theorem"), (Theory, "theory"),
    (Other, "other"),
  ]
}
/// the class of a heading in any letter case is that of its normalized form
fn check_structural(c: &Heading, ctx: &mut Ctx) -> Res {
  let want = {
    let n = model_heading(&c.h.to_lowercase());
    structural().into_iter().find(|s| s.1 == n).map(|s| s.0).unwrap_or(StructuralEnv::Other)
  };
  ensure_eq!(StructuralEnv::from(c.h.as_str()), want, "structural", "structural environment of {:?}", c.h);
  ctx.nontrivial(want != StructuralEnv::Other);
  Ok(())
}
fn check_structural_name(c: &usize, ctx: &mut Ctx) -> Res {
  let (env, name) = structural()[*c];
  ensure_eq!(env.to_string(), name, "structural-display", "printed form of {env:?}");
  ensure_eq!(StructuralEnv::from(name), env, "structural-roundtrip", "reading back {name:?}");
  ctx.nontrivial(true);
  Ok(())
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Markup {
  doc: select::DocCase,
}
fn check_markup(c: &Markup, ctx: &mut Ctx) -> Res {
  let path = c.doc.write("markup");
  thread_local! { static CORPUS: &'static data::Corpus = Box::leak(Box::new(data::Corpus::default())); }
  CORPUS.with(|corpus| {
    let doc = data::Document::new(path, corpus).expect("document loads");
    let root = Snap::of(doc.dom.get_root_readonly().unwrap());
    let want = root.elements().iter().any(|s| s.name == "div" && s.classes().iter().any(|k| *k == "ltx_theorem"));
    ensure_eq!(has_markup(&doc), want, "markup", "AMS markup of the document");
    ensure_eq!(has_markup_xmldoc(&doc.dom), want, "markup", "AMS markup of the DOM");
    ctx.nontrivial(want);
    ctx.label_if(!want, "no markup");
    Ok(())
  })
}

// ---- generators ------------------------------------------------------------------------------

fn phrase() -> BoxedStrategy<String> {
  let rows: Vec<String> = table().iter().map(|t| t.1.trim().to_string()).collect();
  let classes: Vec<String> = table().iter().map(|t| t.2.clone()).filter(|s| !s.is_empty()).collect();
  let plural: Vec<String> = PLURALS.iter().flat_map(|p| [p.to_string(), format!("{p}s")]).collect();
  prop_oneof![4 => choose(rows), 1 => choose(classes), 3 => choose(plural)].boxed()
}
fn filler() -> BoxedStrategy<String> {
  prop_oneof![
    4 => or_such(pick(&["main", "compact", "spaces", "numerical", "spectral", "technical", "stability", "on", "and", "with", "graph", "lower", "bounds", "mathformula", "citationelement", "élan", "q", "z", "vi1", "mix", "xenon", "subproofs", "theory", "datasets", "works"]), |s| !s.is_empty() && !s.contains("NUM") && !s.chars().any(|c| c.is_whitespace() || c < ' ')),
    2 => "[a-z]{1,7}",
  ]
  .boxed()
}
fn numbering() -> BoxedStrategy<String> { prop_oneof![pick(&["i", "ii", "iii", "iv", "v", "vi", "ix", "x", "xiv", "vv"]), pick(&["a", "b", "c", "f", "k", "p"]), pick(&["NUM"])].boxed() }
fn heading() -> BoxedStrategy<String> {
  let lead = pick(LEADS);
  let trail = pick(TRAILS);
  let part = prop_oneof![5 => phrase(), 3 => filler(), 3 => numbering(), 2 => lead, 1 => trail];
  (vec(part, 0..6), pick(&["", "", "", " ", "\n"]), pick(&["", "", " "])).prop_map(|(v, a, z)| a + &v.join(" ") + &z).boxed()
}

pub fn props() -> Vec<Prop> {
  let headings = |_t: Tier| prop_oneof![4 => heading(), 1 => "[a-q ivx]{0,14}".prop_map(|s: String| s.split_whitespace().collect::<Vec<_>>().join(" "))].prop_map(|h| Heading { h }).boxed();
  let blanks = |_t: Tier| {
    let part = prop_oneof![5 => phrase(), 3 => filler(), 3 => numbering(), 2 => pick(LEADS), 1 => pick(TRAILS)];
    vec((part, pick(&[" ", " ", " ", "  ", "   "])), 1..6).prop_map(|v| Heading { h: v.into_iter().map(|(a, b)| a + &b).collect() }).boxed()
  };
  let long = |_t: Tier| {
    // each lead or trail phrase costs the code a round
    let phrases = prop_oneof![3 => numbering(), 1 => pick(LEADS), 1 => pick(TRAILS)].boxed();
    let others = prop_oneof![filler(), phrase()].boxed();
    let runs = || vec(prop_oneof![5 => (phrases.clone(), or_len((0usize..150).boxed(), 200)).boxed(), 2 => (others.clone(), prop_oneof![3 => 0usize..40, 1 => 40usize..2000]).boxed()], 0..3);
    (runs(), heading(), runs())
      .prop_map(|(a, h, z)| {
        let rep = |r: Vec<(String, usize)>| r.into_iter().flat_map(|(w, n)| vec![w; n]).collect::<Vec<_>>();
        let mut w = rep(a);
        w.extend(h.split_whitespace().map(|s| s.to_string()));
        w.extend(rep(z));
        Heading { h: w.join(" ") }
      })
      .boxed()
  };
  let table_cases = || {
    let mut v = Vec::new();
    for (_, p, _) in table() {
      for h in [p.to_string(), p.trim().to_string(), format!("{p}s"), format!("{p} x"), format!("main {p}"), format!("{p}q"), format!("q{p}"), format!("{p} of the paper"), format!("the {p}"), format!("{} technical {}", p.trim(), p.trim())] {
        v.push(Heading { h });
      }
    }
    for p in PLURALS {
      for h in [format!("{p}s"), p.to_string(), format!("{p}s and {p}s"), format!("{p}ss"), format!("big {p}s"), format!("sub{p}s here"), format!("{p}s of everything")] {
        v.push(Heading { h });
      }
    }
    for l in LEADS {
      for h in [format!("{l} theorem"), l.to_string(), format!("{l} unknown words"), format!("{l} {l} lemma"), format!("x{l} unknown")] {
        v.push(Heading { h });
      }
    }
    for l in TRAILS {
      for h in [format!("theorem {l}"), l.to_string(), format!("unknown words {l}"), format!("unknown {l} {l}"), format!("unknown x{l}")] {
        v.push(Heading { h });
      }
    }
    v
  };
  let meta = |_t: Tier| {
    let base = prop_oneof![2 => phrase(), 1 => (filler(), phrase()).prop_map(|(a, b)| format!("{a} {b}")), 1 => (filler(), filler()).prop_map(|(a, b)| format!("{a} {b}"))];
    (base.prop_filter("a single letter or roman numeral at an end reads as enumeration", |s| s.split(' ').all(|w| w.len() > 1 && !w.chars().all(|c| "xiv".contains(c)))).prop_map(|h| Heading { h }), any::<u8>(), pick(&["i", "iv", "xii", "NUM", "vi"])).boxed()
  };
  let envs = |_t: Tier| {
    let known: Vec<String> = env_table().keys().map(|s| s.to_string()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let k = choose(known);
    prop_oneof![
      2 => or_word(k.clone().boxed()),
      2 => (k.clone(), any::<u8>()).prop_map(|(s, i)| { let mut c: Vec<char> = s.chars().collect(); c.remove(i as usize % c.len()); c.into_iter().collect() }),
      2 => (k.clone(), pick(&["s", "1", "x", "_", "*", "a", "e"])).prop_map(|(a, b)| a + &b),
      1 => (or_word(pick(&["my", "x", "the", "a"])), k.clone()).prop_map(|(a, b)| a + &b),
      1 => k.prop_map(|s| s.to_uppercase()),
      1 => "[a-z]{0,6}",
    ]
    .prop_map(|h| Heading { h })
    .boxed()
  };
  let all_envs = || {
    let mut v: Vec<Heading> = env_table().keys().map(|k| Heading { h: k.to_string() }).collect();
    v.sort_by(|a, b| a.h.cmp(&b.h));
    v
  };
  let classes = |_t: Tier| {
    let k = prop_oneof![
      // names that merely contain a class's name are left out
      3 => or_such(pick(&["ltx_theorem", "ltx_proof", "ltx_para", "ltx_remark", "theorem", "ltx_th"]), |w| !w.contains("ltx_theorem") && w.chars().all(|c| c.is_ascii_graphic())),
      3 => pick(&["ltx_theorem_lemma", "ltx_theorem_thm", "ltx_theorem_defn", "ltx_theorem_proof", "ltx_theorem_zzz", "ltx_theorem_rem", "ltx_theorem_theorem1", "ltx_theorem_MyLemma"]),
    ];
    (vec(k, 0..4), pick(&[" ", "  ", "\t"])).prop_map(|(list, sep)| Classes { list, sep }).boxed()
  };
  let structural_cases = |_t: Tier| {
    let names: Vec<String> = structural().iter().map(|s| s.1.to_string()).collect();
    let base = prop_oneof![3 => heading(), 2 => choose(names)];
    (base, 0u8..4).prop_map(|(h, k)| Heading { h: match k { 0 => h.to_lowercase(), 1 => h.to_uppercase(), 2 => h.to_uppercase().replace('K', "\u{212a}"), _ => { let mut c = h.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() } } }).boxed()
  };
  let many_classes = move |t: Tier| {
    (classes(t), or_len(prop_oneof![3 => 1usize..400, 1 => 400usize..20_000].boxed(), 20_000), pick(&["ltx_a", "ltx_theore", "theorem", "ltx_th", "x"]), any::<bool>())
      .prop_map(|(c, n, other, front)| {
        let many = vec![other; n];
        let list = if front { [many, c.list].concat() } else { [c.list, many].concat() };
        Classes { list, sep: c.sep }
      })
      .boxed()
  };
  let markup = |t: Tier| {
    (select::document(t), prop_oneof![3 => Just(None), 3 => (pick(&["div", "div", "section", "span"]), pick(&["ltx_theorem", "ltx_theorem ltx_theorem_lemma", "ltx_para ltx_theorem", "ltx_proof", "ltx_th"]), any::<u32>()).prop_map(Some)])
      .prop_map(|(mut doc, extra)| {
        if let Some((n, c, at)) = extra {
          insert(&mut doc.doc, T::E(n, vec![("class".into(), c)], vec![x("So.")]), at as usize);
        }
        Markup { doc }
      })
      .boxed()
  };
  vec![
    Prop {
      id: "P22",
      rule: "headings from table entries, plurals, lead and trail phrases, numbering and other words; non-trivial: the heading changes and something is left",
      assumptions: vec!["the tables and phrases are those published at the pinned commit", "words are separated by blanks (no tabs or line breaks inside a heading)"],
      subs: vec![
        sub("headings", (60_000, 1_000_000), "composed headings", headings, check_heading),
        enumerate("tables", "every table row, plural, lead and trail phrase in several contexts", table_cases, check_heading),
        sub("long", (100, 2_000), "headings with up to 450 pieces of enumeration or phrases before and after them, and up to 6000 other words", long, check_heading),
        enumerate("huge", "headings of 3000 pieces of enumeration and phrases, each a round of its own, on a stack of 512 KB", || {
          ["an ", "the ", "iv c the "].into_iter().map(|w| format!("{}lemma", w.repeat(3_000))).chain([format!("lemma{}", " of".repeat(3_000))]).map(|h| Heading { h }).collect()
        }, |h: &Heading, ctx| on_stack(512 << 10, |ctx| check_heading(h, ctx), ctx)),
        sub("blanks", (20_000, 300_000), "composed headings with several blanks between some of their words", blanks, check_heading),
        enumerate("characters", "words of, starting with and ending with every character of planes 0 and 1, between enumeration and known words", || vcommon::gen::code_points(), |r: &(u32, u32), ctx| {
          for c in vcommon::gen::characters(*r) {
            // a line break or tab is another blank, and these are not decided
            if !c.is_whitespace() {
              for h in [format!("theorem {c}"), format!("{c}lemma{c}s of x{c}"), format!("iv {c} work{c}s c")] {
                check_heading(&Heading { h }, ctx)?;
              }
            }
          }
          ctx.nontrivial(r.0 > 0);
          Ok(())
        }),
        sub("concurrent", (40, 800), "several headings at the same time, one thread each", move |t| vec(headings(t), 2..7).boxed(), |l: &Vec<Heading>, ctx| concurrently(l, 60, check_heading, ctx)),
        sub("enumeration", (20_000, 300_000), "a heading with numbering before or after it", meta, check_meta),
      ],
    },
    Prop {
      id: "P23",
      rule: "environment names, class attributes, headings and documents; non-trivial: a known environment (or markup present)",
      assumptions: vec!["the tables are those published at the pinned commit", "environment names in class attributes consist of ASCII letters, digits and underscores"],
      subs: vec![
        enumerate("table", "every published environment name", all_envs, check_env),
        sub("names", (60_000, 1_000_000), "known names and near misses", envs, check_env),
        sub("classes", (20_000, 300_000), "class attributes", classes, check_class),
        enumerate("structural-names", "every structural environment", || (0..structural().len()).collect(), check_structural_name),
        sub("structural", (20_000, 300_000), "headings in any letter case", structural_cases, check_structural),
        sub("many", (80, 1_500), "class attributes of up to 20000 classes", many_classes, check_class),
        sub("large", (40, 800), "large documents with and without theorem divs", move |t| (markup(t), dnmgen::blow()).boxed(), |l: &(Markup, dnmgen::Blow), ctx| {
          dnmgen::large_labels(&l.1, ctx);
          let d = &l.0.doc;
          check_markup(&Markup { doc: select::DocCase { doc: l.1.apply(&d.doc), xml: d.xml, ns: d.ns } }, ctx)
        }),
        sub("markup", (4_000, 60_000), "documents with and without theorem divs", markup, check_markup),
      ],
    },
  ]
}
/// insert below the at-th element
fn insert(t: &mut T, new: T, at: usize) {
  fn count(t: &T) -> usize {
    match t {
      T::E(_, _, k) => 1 + k.iter().map(count).sum::<usize>(),
      _ => 0,
    }
  }
  fn go(t: &mut T, new: T, at: &mut usize) -> Option<T> {
    let T::E(_, _, kids) = t else { return Some(new) };
    if *at == 0 {
      let i = kids.len() / 2;
      kids.insert(i, new);
      return None;
    }
    *at -= 1;
    let mut new = new;
    for k in kids {
      if let T::E(..) = k {
        match go(k, new, at) {
          None => return None,
          Some(n) => new = n,
        }
      }
    }
    Some(new)
  }
  let n = count(t);
  // below the body at least
  let mut at = if n > 2 { 1 + at % (n - 1) } else { 1 };
  go(t, new, &mut at);
}
