//! P20: the stopword set.
use crate::stopwords;
use std::collections::BTreeSet;
use vcommon::gen::*;
use vcommon::engine::*;
use vcommon::proptest::prelude::*;
use vcommon::proptest::sample::select;
use vcommon::{ensure, ensure_eq};

/// the published list (one word per line), the reference the loaded set is compared with
const REFERENCE: &str = include_str!("stopwords.ref.txt");
fn reference() -> BTreeSet<&'static str> { REFERENCE.lines().filter(|l| !l.is_empty()).collect() }

fn check_member(w: &String, ctx: &mut Ctx) -> Res {
  let set = stopwords::load();
  let expect = reference().contains(w.as_str());
  ensure_eq!(set.contains(w.as_str()), expect, "membership", "is {w:?} a stopword?");
  ctx.nontrivial(true);
  ctx.label(if expect { "stopword" } else { "other word" });
  Ok(())
}
fn check_set(_: &u8, ctx: &mut Ctx) -> Res {
  let a = stopwords::load();
  let b = stopwords::load();
  ensure_eq!(a, b, "stable", "two loads differ");
  let code: BTreeSet<&str> = a.iter().copied().collect();
  let missing: Vec<_> = reference().difference(&code).copied().collect();
  let extra: Vec<_> = code.difference(&reference()).copied().collect();
  ensure!(missing.is_empty() && extra.is_empty(), "set", "missing {missing:?}, unexpected {extra:?}");
  for w in &code {
    ensure!(!w.is_empty() && w.trim() == *w && !w.contains(char::is_whitespace), "blank", "{w:?} is blank or not trimmed");
    ensure!(w.to_lowercase() == **w, "case", "{w:?} can never match a lowercased word");
  }
  ctx.nontrivial(true);
  Ok(())
}
pub fn prop() -> Prop {
  let members = |_t: Tier| {
    let list: Vec<String> = reference().iter().map(|s| s.to_string()).collect();
    let word = select(list);
    prop_oneof![
      4 => or_word(word.clone().boxed()),
      // near misses: one edit away
      3 => (word.clone(), 0usize..16, "[a-z']").prop_map(|(w, i, c)| {
        let mut cs: Vec<char> = w.chars().collect();
        let i = i % (cs.len() + 1);
        cs.insert(i, c.chars().next().unwrap());
        cs.into_iter().collect::<String>()
      }),
      3 => (word.clone(), 0usize..16).prop_map(|(w, i)| {
        let mut cs: Vec<char> = w.chars().collect();
        let i = i % cs.len();
        cs.remove(i);
        cs.into_iter().collect::<String>()
      }),
      1 => word.prop_map(|w| w.to_uppercase()),
      1 => "[a-z]{1,8}",
      1 => "[ -~]{0,6}",
    ]
    .boxed()
  };
  Prop {
    id: "P20",
    rule: "membership queries (stopwords, words one edit away, capitalised and random words) against the published list; every query is non-trivial",
    assumptions: vec!["the reference list is the list published at the pinned commit"],
    subs: vec![
      sub("membership", (20_000, 300_000), "membership queries", members, check_member),
      enumerate("whole_set", "the whole set, two loads", || vec![0u8], check_set),
      enumerate("characters", "a stopword, another word and the empty one with each character of planes 0 and 1 at either end", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
        let set = stopwords::load();
        let reference = reference();
        for c in vcommon::gen::characters(*r) {
          for w in ["", "a", "the", "ain't", "o", "doesn"] {
            for q in [format!("{c}{w}"), format!("{w}{c}")] {
              ensure_eq!(set.contains(q.as_str()), reference.contains(q.as_str()), "membership", "is {q:?} a stopword?");
            }
          }
        }
        ctx.nontrivial(true);
        Ok(())
      }),
      enumerate("each_word", "every published stopword", || reference().iter().map(|s| s.to_string()).collect(), check_member),
    ],
  }
}
