//! P06 canonical form and hash, P07 DNMs of plain text.
use crate::dnmgen::*;
use crypto::digest::Digest;
use llamapun::dnm::*;
use std::collections::HashMap;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

/// reference canonical form
fn canonical(s: &Snap, m: &Model, out: &mut String) {
  match s.kind {
    Kind::Text => {
      if let Some(&(a, z)) = m.map.get(&s.node.to_hashable()) {
        let t: String = m.chars[a..z].iter().collect();
        if !t.trim().is_empty() {
          out.push_str(&t);
        }
      }
    },
    Kind::Elem => {
      if s.name == "annotation" || s.name == "annotation-xml" {
        return;
      }
      let show = s.name != "semantics";
      if show {
        out.push_str(&format!("<{}", s.name));
        let mut c = s.classes();
        c.sort_unstable();
        if !c.is_empty() {
          out.push_str(&format!(" class=\"{}\"", c.join(" ")));
        }
        out.push('>');
      }
      for k in &s.kids {
        canonical(k, m, out);
      }
      if show {
        out.push_str(&format!("</{}>", s.name));
      }
    },
    _ => {},
  }
}
fn md5(text: &str) -> String {
  let mut h = crypto::md5::Md5::new();
  h.input_str(text);
  h.result_str()
}

fn check_c14n(c: &Case, ctx: &mut Ctx) -> Res {
  let b = build(c);
  let form = |s: &Snap| {
    let mut o = String::new();
    canonical(s, &b.model, &mut o);
    o
  };
  let want = form(&b.root);
  ensure_eq!(b.dnm.to_c14n_basic(), want, "document", "canonical form of the DNM");
  ensure_eq!(b.dnm.to_hash_basic(), md5(&want), "document-hash", "hash of the DNM");
  let mut seen: HashMap<String, String> = HashMap::new();
  for s in b.root.preorder().into_iter().take(30) {
    let f = form(s);
    ensure_eq!(b.dnm.node_c14n_basic(s.node), f, "node", "canonical form of <{}>", s.name);
    let h = b.dnm.node_hash_basic(s.node);
    ensure_eq!(h, md5(&f), "node-hash", "hash of <{}>", s.name);
    ensure!(h.len() == 32 && h.chars().all(|c| c.is_ascii_hexdigit() && !c.is_ascii_uppercase()), "hash-form", "{h:?} is not 32 hex digits");
    // equal hashes exactly for equal canonical forms
    if let Some(g) = seen.insert(h.clone(), f.clone()) {
      ensure_eq!(f, g, "hash-collision", "forms with the same hash");
      ctx.label("two nodes with the same form");
    }
  }
  ctx.nontrivial(want.len() > 20 && b.root.elements().len() > 2);
  ctx.label_if(b.root.elements().iter().any(|e| e.name == "semantics"), "semantics");
  ctx.label_if(b.root.elements().iter().any(|e| e.name.starts_with("annotation")), "annotation");
  ctx.label_if(b.root.elements().iter().any(|e| e.classes().len() > 1), "several classes");
  Ok(())
}

/// edits that do not touch the linguistic content
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Twin {
  case: Case,
  /// one number per element visited: what to do to it
  edits: Vec<u8>,
}
fn edit(t: &T, edits: &[u8], at: &mut usize, top: bool) -> T {
  match t {
    T::E(n, a, k) => {
      let e = edits[*at % edits.len()];
      *at += 1;
      let mut a: Vec<(String, String)> = a.clone();
      let mut k: Vec<T> = k.iter().map(|c| edit(c, edits, at, false)).collect();
      if e & 1 != 0 {
        a.retain(|(n, _)| n != "id");
        a.insert(0, ("id".into(), format!("other.{at}")));
      }
      if e & 2 != 0 {
        for (n, v) in a.iter_mut() {
          if n == "class" {
            let mut c: Vec<&str> = v.split_whitespace().collect();
            c.reverse();
            *v = c.join("  ");
          }
        }
      }
      if e & 4 != 0 && !top {
        k.push(T::E("annotation".into(), vec![("encoding".into(), "application/x-tex".into())], vec![]));
      }
      if e & 8 != 0 {
        a.push(("data-x".into(), "y".into()));
      }
      if e & 16 != 0 && !top {
        k = vec![T::E("semantics".into(), vec![], k)];
      }
      if e & 32 != 0 && !top {
        // a comment behind an element leaves the text nodes alone
        if let Some(i) = k.iter().position(|c| matches!(c, T::E(..))) {
          k.insert(i + 1, T::C("remark".into()));
        }
      }
      T::E(n.clone(), a, k)
    },
    other => other.clone(),
  }
}
fn check_twin(c: &Twin, ctx: &mut Ctx) -> Res {
  let mut first = c.case.clone();
  first.html = false;
  first.root = 0;
  first.par.classes.clear();
  // a rule for what the edits insert would make it content
  first.par.names.retain(|(n, _)| !matches!(n.to_lowercase().as_str(), "comment" | "semantics" | "annotation"));
  let mut second = first.clone();
  second.doc = edit(&first.doc, &c.edits, &mut 0, true);
  let (a, b) = (build(&first), build(&second));
  // a rule for one of the inserted wrappers, or a token computed from the markup, would be content
  ensure_eq!(b.dnm.to_c14n_basic(), a.dnm.to_c14n_basic(), "twin", "canonical form after edits of the markup only");
  ensure_eq!(b.dnm.to_hash_basic(), a.dnm.to_hash_basic(), "twin-hash", "hash after edits of the markup only");
  ctx.nontrivial(c.edits.iter().any(|e| *e != 0) && a.dnm.to_c14n_basic().len() > 30);
  Ok(())
}

// ---- P07 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Plain {
  text: String,
  par: Option<Par>,
}
fn check_plain(c: &Plain, ctx: &mut Ctx) -> Res {
  let (doc, dnm) = DNM::from_str(&c.text, c.par.as_ref().map(|p| p.to_code())).map_err(|e| Fail { sig: "error".into(), msg: e.to_string() })?;
  let default = Par { names: vec![], classes: vec![], ws: true, wrap: false, unicode: false, stem: 0, lower: false, back: true };
  let par = c.par.clone().unwrap_or(default);
  let root = Snap::of(doc.get_root_readonly().unwrap());
  let m = Model::of(&root, &par);
  // the document is a single paragraph with this text
  let paras: Vec<&Snap> = root.elements().into_iter().filter(|e| e.classes().contains(&"ltx_para")).collect();
  ensure_eq!(paras.len(), 1, "paragraph", "number of paragraphs");
  ensure_eq!(paras[0].content(), c.text, "dom-text", "text of the paragraph");
  ensure_eq!(root.content(), c.text, "dom-text", "text of the document");
  ensure_eq!(dnm.plaintext, m.chars.iter().collect::<String>(), "plaintext", "plaintext of the text");
  let whole = dnm.get_range().unwrap();
  ensure_eq!((whole.start, whole.end), (0, m.chars.len()), "range", "range of the whole");
  ensure_eq!(dnm.root_node.to_hashable(), root.node.to_hashable(), "root", "root of the DNM");
  ctx.nontrivial(c.text.chars().any(|c| c.is_alphabetic()));
  ctx.label_if(c.text.contains(['&', '<', '>']), "markup characters");
  ctx.label_if(!c.text.is_ascii(), "non-ASCII");
  ctx.label_if(c.par.is_none(), "default parameters");
  Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Ams {
  /// lines of tokens, each followed by one blank
  lines: Vec<Vec<(String, String)>>,
}
fn is_lexeme(t: &str) -> bool {
  // ROLE_name(_name)*: something before an underscore, something after one
  t == "NUM" || t.char_indices().any(|(i, c)| c == '_' && i > 0 && i + 1 < t.len())
}
fn check_ams(c: &Ams, ctx: &mut Ctx) -> Res {
  let text: String = c.lines.iter().map(|l| l.iter().map(|(t, s)| format!("{t}{s}")).collect::<String>()).collect::<Vec<_>>().join("\n");
  let mut rebuilt: Vec<String> = Vec::new();
  let mut formulas = 0;
  for l in &c.lines {
    let line: String = l.iter().map(|(t, s)| format!("{t}{s}")).collect();
    if line.is_empty() {
      continue;
    }
    let mut out = String::new();
    let mut i = 0;
    // tokens with the blanks that follow them; lexemes one blank apart are one formula
    while i < l.len() {
      if is_lexeme(&l[i].0) {
        formulas += 1;
        out.push_str("mathformula ");
        let mut j = i;
        while j + 1 < l.len() && l[j].1.chars().count() == 1 && is_lexeme(&l[j + 1].0) {
          j += 1;
        }
        // one blank belongs to the formula
        out.extend(l[j].1.chars().skip(1));
        i = j + 1;
      } else {
        out.push_str(&l[i].0);
        out.push_str(&l[i].1);
        i += 1;
      }
    }
    if out.is_char_boundary(1) && out[..1].chars().all(|c| c.is_ascii_lowercase()) {
      out = out[..1].to_ascii_uppercase() + &out[1..];
    }
    rebuilt.push(out);
  }
  let want = rebuilt.join(" . ");
  for par in [None, Some(DNMParameters { normalize_white_spaces: false, ..DNMParameters::default() })] {
    let raw = par.is_some();
    let (doc, dnm) = DNM::from_ams_paragraph_str(&text, par).map_err(|e| Fail { sig: "error".into(), msg: e.to_string() })?;
    let root = Snap::of(doc.get_root_readonly().unwrap());
    ensure_eq!(root.content(), want, "ams-text", "rebuilt text of {text:?}");
    if raw {
      ensure_eq!(dnm.plaintext, want, "ams-plaintext", "plaintext of {text:?}");
    } else {
      ensure_eq!(dnm.plaintext.split_whitespace().collect::<Vec<_>>(), want.split_whitespace().collect::<Vec<_>>(), "ams-plaintext", "plaintext of {text:?}");
    }
  }
  ctx.nontrivial(formulas > 0 && rebuilt.len() > 1);
  ctx.label_if(formulas > 1, "several formulas");
  ctx.label_if(c.lines.iter().any(|l| l.is_empty()), "empty line");
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let math_names = || or_name(pick(&["p", "p", "div", "span", "math", "mrow", "semantics", "annotation", "annotation-xml", "mi", "cite", "em"]));
  let c14n = move |t: Tier| {
    let (d, s, w) = if t == Tier::Quick { (4, 24, 5) } else { (6, 50, 6) };
    (tree(math_names(), attrs(), texts(), d, s, w), any::<bool>(), params(), prop_oneof![20 => Just(0usize), 10 => 0usize..30, 1 => 1000usize..1060], namespaces())
      .prop_map(|(body, html, par, root, ns)| {
        let mut doc = T::E("html".into(), vec![], vec![T::E("body".into(), vec![], vec![body])]);
        number_ids(&mut doc, &mut 0);
        Case { doc: ns.apply(&doc, html), html, par, root }
      })
      .boxed()
  };
  let large = move |t: Tier| (c14n(t), blow()).prop_map(|(case, blow)| Large { case, blow }).boxed();
  let twin = move |t: Tier| {
    let plain_rules = |par: &mut Par| {
      par.names.retain(|(n, r)| !n.starts_with("annotation") && n != "semantics" && !matches!(r, Rule::Call(_)));
    };
    (document(t), params(), vec(0u8..64, 1..12))
      .prop_map(move |(doc, mut par, edits)| {
        plain_rules(&mut par);
        Twin { case: Case { doc, html: false, par, root: 0 }, edits }
      })
      .boxed()
  };
  let plain = |_t: Tier| {
    let text = prop_oneof![
      4 => vec(texts(), 0..6).prop_map(|v| v.concat()),
      2 => vec(or_text(pick(&["a & b", "<i>x</i>", "&amp;", "&#65;", "]]>", "\"q\"", "'", "a<b", "\n", " ", "\t", "é", "\u{2028}", "\u{fffd}", "%s", "\\n"])), 0..6).prop_map(|v| v.concat()),
      1 => "[\\PC\n\t]{0,40}",
    ];
    (text, prop::option::weighted(0.7, params()))
      .prop_map(|(text, par)| {
        let par = par.map(|mut p| {
          // rules would replace the single paragraph
          p.names.retain(|(n, _)| n != "div");
          p.classes.retain(|(n, _)| n != "ltx_para");
          p
        });
        Plain { text, par }
      })
      .boxed()
  };
  let ams = |_t: Tier| {
    let token = prop_oneof![
      6 => or_such(pick(&["the", "word", "we", "obtain", "citation", "a", "é", "x", "2", "Proof", "italic", "ref", "num", "_x", "x_", "ATOM", "\r", "\u{85}", "\u{feff}", "\u{3000}"]), |s| !s.is_empty() && !s.ends_with("NUM") && !s.chars().any(|c| c.is_whitespace() || c < ' ')),
      4 => pick(&["NUM", "RELOP_equals", "UNKNOWN_x", "ADDOP_plus", "OPEN_(", "MULOP_times_b", "ID_italic_x", "a_b", "POSTFIX_!", "é_x"]),
    ];
    let blank = prop_oneof![12 => Just(" ".to_string()), 1 => pick(&["  ", "\t", "   ", " \r", "\r", "\u{a0}", "\u{2028}", "\u{b}"])];
    vec((vec((token, blank), 0..9), any::<bool>()), 0..5)
      .prop_map(|lines| Ams {
        lines: lines
          .into_iter()
          .map(|(mut l, cut)| {
            if cut {
              if let Some(x) = l.last_mut() {
                x.1 = String::new();
              }
            }
            l
          })
          .collect(),
      })
      .boxed()
  };
  let long = move |t: Tier| (plain(t), or_size(prop_oneof![3 => 2u32..300, 1 => 300u32..20_000].boxed(), 20_000)).prop_filter("a long text", |(p, n)| p.text.len() * (*n as usize) < 400_000).boxed();
  let many = move |t: Tier| (ams(t), or_size(prop_oneof![3 => 2u32..100, 1 => 100u32..3000].boxed(), 3_000), any::<bool>()).prop_filter("many tokens", |(a, n, _)| a.lines.iter().map(|l| l.len()).sum::<usize>() * (*n as usize) < 30_000).boxed();
  vec![
    Prop {
      id: "P06",
      rule: "canonical forms and hashes of every node of generated documents against a reference writer, and of documents whose markup-only features were edited; non-trivial: more than two elements and a form of 20 (30) characters",
      assumptions: vec!["the MD5 dependency is replaced by an implementation of MD5 (see DESIGN.md)", "edits that must not matter are only made where no rule makes them matter"],
      subs: vec![
        sub("reference", (50_000, 800_000), "reference canonical form, node by node", c14n, check_c14n),
        enumerate("characters", "every character of planes 0 and 1 and the ends of the others, under eight parameter sets", all_characters, |c: &Chars, ctx| check_c14n(&characters_case(c), ctx)),
        sub("large", (60, 1_000), "the same on long texts, many siblings and deep nesting", large, |l: &Large, ctx| {
          large_labels(&l.blow, ctx);
          check_c14n(&expand(l), ctx)
        }),
        enumerate("huge", HUGE, huge, |k: &(u8, u32), ctx| on_worker_stack(|ctx| check_c14n(&huge_case(*k), ctx), ctx)),
        sub("concurrent", (60, 1_500), "several documents at the same time, one thread each", move |t| vec(c14n(t), 2..7).boxed(), |l: &Vec<Case>, ctx| concurrently(l, 12, check_c14n, ctx)),
        sub("twins", (30_000, 500_000), "ids, class order, other attributes, annotations, semantics wrappers, comments", twin, check_twin),
      ],
    },
    Prop {
      id: "P07",
      rule: "texts turned into single-paragraph documents; non-trivial: the text has letters / formulas and several lines",
      assumptions: vec!["texts contain no NUL character", "AMS paragraphs are tokens as the AMS extraction writes them (a formula lexeme is a token of its own)"],
      subs: vec![
        sub("from_str", (50_000, 800_000), "arbitrary text and parameters", plain, check_plain),
        enumerate("characters", "texts that start with, contain and end with every character of planes 0 and 1 and the ends of the others", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          let all = vcommon::gen::characters(*r);
          check_plain(&Plain { text: all.iter().collect(), par: None }, ctx)?;
          for c in all {
            for text in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b")] {
              check_plain(&Plain { text, par: Some(Par { names: vec![], classes: vec![], ws: false, wrap: false, unicode: false, stem: 0, lower: false, back: true }) }, ctx)?;
            }
          }
          Ok(())
        }),
        sub("long", (40, 800), "the same on long texts: pieces repeated up to 20000 times", long, |l: &(Plain, u32), ctx| {
          check_plain(&Plain { text: l.0.text.repeat(l.1 as usize), par: l.0.par.clone() }, ctx)
        }),
        sub("from_ams", (50_000, 800_000), "AMS paragraph lines", ams, check_ams),
        enumerate("from_ams_characters", "words of a single character, and starting and ending with it, first in their line and later: every character of planes 0 and 1", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          let all = vcommon::gen::characters(*r);
          for cs in all.chunks(16) {
            let mut lines = Vec::new();
            for c in cs.iter().filter(|c| !c.is_whitespace()) {
              for w in [format!("{c}"), format!("{c}a"), format!("a{c}")] {
                lines.push(vec![(w.clone(), " ".to_string()), ("NUM".to_string(), " ".to_string()), (w, " ".to_string())]);
              }
            }
            check_ams(&Ams { lines }, ctx)?;
          }
          Ok(())
        }),
        sub("many", (40, 800), "up to 3000 times as many lines, and lines up to 3000 times as long", many, |l: &(Ams, u32, bool), ctx| {
          let (ams, n, across) = l;
          let lines = if *across { ams.lines.iter().map(|l| times(&l.iter().map(|(t, s)| (t.clone(), if s.is_empty() { " ".to_string() } else { s.clone() })).collect::<Vec<_>>(), *n as usize)).collect() } else { times(&ams.lines, *n as usize) };
          check_ams(&Ams { lines }, ctx)
        }),
      ],
    },
  ]
}
