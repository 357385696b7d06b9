//! P24 word normalization, P25 the token model, P26 path-based tokenization, P27 the language filter.
use crate::dnmgen;
use crate::select::{self, DocCase};
use libxml::xpath::Context;
use llamapun::dnm::node::lexematize_math;
use llamapun::dnm::*;
use llamapun::parallel_data as par;
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::*;
use llamapun::util::{path_helpers, token_model};
use std::collections::BTreeMap;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

thread_local! { static TOK: &'static Tokenizer = Box::leak(Box::new(Tokenizer::default())); }
fn tok() -> &'static Tokenizer { TOK.with(|t| *t) }

/// integers, floats, subfigure numbers
fn numeral(s: &str) -> bool {
  let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
  let s = s.strip_prefix('-').unwrap_or(s);
  let head = s.trim_start_matches(|c: char| c.is_ascii_digit());
  if head.len() == s.len() {
    return false;
  }
  if head.is_empty() || (head.len() == 1 && ('a'..='k').contains(&head.chars().next().unwrap())) {
    return true;
  }
  let Some(frac) = head.strip_prefix('.') else { return false };
  match frac.split_once(['e', 'E']) {
    None => digits(frac),
    Some((f, e)) => digits(f) && digits(e.strip_prefix(['+', '-']).unwrap_or(e)),
  }
}
enum Norm {
  Is(String),
  TooLong,
  Undecided,
}
fn length(s: &str) -> Option<bool> {
  if s.chars().count() > 25 {
    Some(true)
  } else if s.len() <= 25 {
    Some(false)
  } else {
    None
  }
}
/// what a word range should become
fn model_word(r: &DNMRange, o: &LexicalOptions, context: &mut Context) -> Norm {
  let text = r.get_plaintext();
  let mut s = if o.discard_case { text.to_lowercase() } else { text.to_string() };
  if o.discard_punct {
    s = s.chars().filter(|c| c.is_alphanumeric()).collect();
  }
  match length(&s) {
    Some(true) => return Norm::TooLong,
    None => return Norm::Undecided,
    _ => (),
  }
  let low = s.to_lowercase();
  if low.contains("mathformula") {
    if o.discard_math {
      return Norm::Is(String::new());
    }
    // the formula is where the word comes from; a range that merely contains one is not decided
    if text.trim() != "mathformula" || text.len() != 11 {
      return Norm::Undecided;
    }
    return Norm::Is(lexematize_math(r.dnm.back_map[r.start].0, context));
  }
  if low.contains("citationelement") {
    return Norm::Is("citationelement".into());
  }
  if (s != low && numeral(&low) != numeral(&s)) || s.chars().any(|c| c.is_numeric() && !c.is_ascii()) {
    return Norm::Undecided;
  }
  Norm::Is(if numeral(&s) { "NUM".into() } else { s })
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct WordCase {
  doc: DocCase,
  /// arbitrary ranges to normalize, in addition to all words
  ranges: Vec<(u32, u32)>,
  /// keep the characters as they are
  #[serde(default)]
  raw: bool,
}
fn check_words(c: &WordCase, ctx: &mut Ctx) -> Res {
  let doc = dnmgen::parse(&c.doc.doc, false);
  let root = doc.get_root_readonly().unwrap();
  let dnm = DNM::new(root, DNMParameters { normalize_unicode: !c.raw, ..DNMParameters::llamapun_normalization() });
  let mut context = Context::new(&doc).unwrap();
  let whole = dnm.get_range().expect("range");
  let mut ranges = tok().words(&whole);
  ranges.extend(tok().words_and_punct(&whole));
  let n = whole.end;
  for (a, b) in &c.ranges {
    if n > 0 {
      let (a, b) = (*a as usize % n, *b as usize % 30);
      ranges.push(DNMRange { start: a, end: (a + b).min(n), dnm: &dnm });
    }
  }
  let (mut nums, mut cites, mut math, mut long, mut kept) = (0, 0, 0, 0, 0);
  for r in &ranges {
    for mask in 0..8u8 {
      let options = || LexicalOptions { discard_math: mask & 1 > 0, discard_punct: mask & 2 > 0, discard_case: mask & 4 > 0 };
      let want = model_word(r, &options(), &mut context);
      if let Norm::Undecided = want {
        continue;
      }
      let got = ams_normalize_word_range(r, &mut context, options());
      let what = format!("{:?} with discard_math={} discard_punct={} discard_case={}", r.get_plaintext(), mask & 1 > 0, mask & 2 > 0, mask & 4 > 0);
      match (got, want) {
        (Ok(g), Norm::Is(w)) => {
          ensure_eq!(g, w, "normalized", "{what}");
          nums += (w == "NUM") as usize;
          cites += (w == "citationelement") as usize;
          math += w.contains("RELOP") as usize;
          kept += (mask & 4 == 0 && w != w.to_lowercase()) as usize;
        },
        (Err(_), Norm::TooLong) => long += 1,
        (Ok(g), Norm::TooLong) => vcommon::fail!("too-long", "no error for {what}, but {g:?}"),
        (Err(e), _) => vcommon::fail!("error", "error for {what}: {e}"),
        _ => (),
      }
    }
  }
  // headings
  let snap = Snap::of(root);
  for s in snap.elements() {
    let code = heading_from_node_aux(s.node, tok(), &mut context);
    let dnm = DNM::new(s.node, DNMParameters::llamapun_normalization());
    let mut want: Option<Vec<String>> = Some(vec![]);
    let mut decided = true;
    for w in tok().words(&dnm.get_range().expect("range")) {
      match model_word(&w, &LexicalOptions::default(), &mut context) {
        Norm::Is(w) => {
          if let Some(v) = want.as_mut() {
            if !w.is_empty() && w != "NUM" {
              v.push(w)
            }
          }
        },
        Norm::TooLong => want = None,
        Norm::Undecided => decided = false,
      }
    }
    if decided {
      ensure_eq!(code.map(squeeze), want.map(|w| squeeze(w.join(" "))), "heading", "heading of <{}>", s.name);
    }
  }
  ctx.nontrivial(nums > 0 && kept > 0 && (cites > 0 || math > 0 || long > 0));
  ctx.label_if(c.raw, "Unicode kept");
  ctx.label_if(nums > 0, "numeral");
  ctx.label_if(cites > 0, "citation");
  ctx.label_if(math > 0, "formula with lexemes");
  ctx.label_if(long > 0, "overlong word");
  Ok(())
}
fn squeeze(s: String) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

// ---- token model -----------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct ModelCase {
  docs: Vec<(DocCase, Vec<String>)>,
  discard_math: bool,
  threads: usize,
  order: u64,
}
const COUNTS: [&str; 7] = ["document_count", "paragraph_count", "word_count", "overflow_count", "formula_count", "citation_count", "num_count"];
/// buffer and counts of one document; None if not decided
fn model_document(path: &str, corpus: &par::Corpus, discard_math: bool) -> Option<(String, [u64; 7])> {
  let doc = par::Document::new(path.to_string(), corpus).expect("document loads");
  let mut context = Context::new(&doc.dom).unwrap();
  let mut out = String::new();
  let mut counts = [1u64, 0, 0, 0, 0, 0, 0];
  for item in doc.extended_paragraph_iter() {
    counts[1] += 1;
    let mut line = String::from("\n");
    let mut dropped = false;
    for w in tok().words_and_punct(&item.dnm.get_range().expect("range")) {
      let s = w.get_plaintext().to_lowercase();
      if length(&s)? {
        counts[3] += 1;
        dropped = true;
        break;
      }
      let token = if s.contains("mathformula") {
        counts[4] += 1;
        if discard_math {
          String::new()
        } else {
          lexematize_math(item.dnm.back_map[w.start].0, &mut context)
        }
      } else if s.contains("citationelement") {
        counts[5] += 1;
        "citationelement".into()
      } else if numeral(&s) {
        counts[6] += 1;
        "NUM".into()
      } else {
        counts[2] += 1;
        s
      };
      line.push_str(&token);
      line.push(' ');
    }
    if !dropped {
      out.push_str(&line);
    }
  }
  Some((out, counts))
}
/// can the text be split into the buffers, each used once?
fn assemble(text: &str, bufs: &[String]) -> bool {
  fn go(rest: &str, bufs: &[String], used: u32, dead: &mut std::collections::HashSet<u32>) -> bool {
    if used == (1u32 << bufs.len()) - 1 {
      return rest.is_empty();
    }
    if dead.contains(&used) {
      return false;
    }
    for (i, b) in bufs.iter().enumerate() {
      if used & (1 << i) == 0 && rest.starts_with(b.as_str()) && go(&rest[b.len()..], bufs, used | (1 << i), dead) {
        return true;
      }
    }
    dead.insert(used);
    false
  }
  go(text, bufs, 0, &mut Default::default())
}
fn check_model(c: &ModelCase, ctx: &mut Ctx) -> Res {
  jwalk::set_order_seed(c.order);
  // one walk in four reports errors between its entries
  jwalk::set_faults(if c.order % 4 == 3 { c.order } else { 0 });
  let base = scratch_dir().join("model");
  let _ = std::fs::remove_dir_all(&base);
  let root = base.join("corpus");
  std::fs::create_dir_all(&root).unwrap();
  let mut paths = Vec::new();
  for (i, (d, dirs)) in c.docs.iter().enumerate() {
    let dir = dirs.iter().fold(root.clone(), |p, s| p.join(s));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{i}.{}", if d.xml { "xhtml" } else { "html" }));
    std::fs::write(&p, d.text()).unwrap();
    paths.push(p.to_str().unwrap().to_string());
  }
  std::fs::write(root.join("notes.txt"), "<div class='ltx_para'>no</div>").unwrap();
  let corpus = par::Corpus::new(root.to_str().unwrap().into());
  let mut bufs = Vec::new();
  let mut want = [0u64; 7];
  for p in &paths {
    let Some((b, k)) = model_document(p, &corpus, c.discard_math) else { return Ok(()) };
    bufs.push(b);
    for i in 0..7 {
      want[i] += k[i];
    }
  }
  let extract = |out: &std::path::Path, discard_math: bool| {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().unwrap();
    pool.install(|| token_model::extract(root.to_str().unwrap().into(), out.to_str().unwrap().into(), discard_math).map_err(|e| e.to_string()))
  };
  let out = base.join("model.txt");
  if c.order % 5 == 1 {
    // a longer file from an earlier run
    std::fs::write(&out, "\nold line ".repeat(200 + bufs.iter().map(|b| b.len()).sum::<usize>() / 10)).unwrap();
    ctx.label("the file exists");
  }
  let (got, beside) = if c.order % 5 == 2 {
    // another extraction from the same corpus at the same time, with the other setting
    ctx.label("two extractions at the same time");
    let other = base.join("other.txt");
    std::thread::scope(|s| {
      let job = s.spawn(|| extract(&other, !c.discard_math));
      (extract(&out, c.discard_math), job.join().unwrap_or_else(|e| std::panic::resume_unwind(e)).ok())
    })
  } else {
    (extract(&out, c.discard_math), None)
  };
  let got = match got {
    Ok(g) => g,
    Err(e) => vcommon::fail!("error", "extracting fails: {e}"),
  };
  let text = std::fs::read_to_string(&out).unwrap();
  if let Some(beside) = beside {
    for (i, k) in COUNTS.iter().enumerate() {
      ensure_eq!(beside.get(*k).copied().unwrap_or(0), want[i], "beside", "{k} of the extraction at the same time");
    }
  }
  if c.order % 5 == 3 {
    // the file cannot be created, or cannot be written
    ensure!(extract(&base.join("none/model.txt"), c.discard_math).is_err(), "nowhere", "extracting into a missing directory succeeds");
    if !text.is_empty() {
      let full = std::panic::catch_unwind(|| extract(std::path::Path::new("/dev/full"), c.discard_math));
      ensure!(!matches!(full, Ok(Ok(_))), "full", "extracting onto a full disk succeeds");
      ctx.label("full disk");
    }
  }
  let counts: BTreeMap<&str, u64> = COUNTS.iter().zip(want).map(|(k, v)| (*k, v)).collect();
  let got_counts: BTreeMap<&str, u64> = COUNTS.iter().map(|k| (*k, got.get(*k).copied().unwrap_or(0))).collect();
  ensure_eq!(got_counts, counts, "counts", "counts");
  ensure!(got.keys().all(|k| COUNTS.contains(&k.as_str())), "extra-count", "unknown counts: {got:?}");
  if !assemble(&text, &bufs) {
    let sort = |s: &str| {
      let mut v: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
      v.sort();
      v
    };
    ensure_eq!(sort(&text), sort(&bufs.concat()), "lines", "lines of the token model (sorted)");
    vcommon::fail!("interleaved", "the lines of a document are not contiguous or not in order:\n{text}\n--- documents: {bufs:?}");
  }
  let _ = std::fs::remove_dir_all(&base);
  ctx.nontrivial(c.docs.len() >= 2 && want[1] > 2 && want[2] > 5 && (want[4] > 0 || want[5] > 0 || want[6] > 0));
  ctx.label_if(want[3] > 0, "dropped paragraph");
  ctx.label_if(want[4] > 0 && !c.discard_math, "formula");
  ctx.label_if(want[4] > 0 && c.discard_math, "discarded formula");
  ctx.label_if(c.threads > 1, "several threads");
  ctx.label_if(c.docs.is_empty(), "empty corpus");
  Ok(())
}

// ---- path-based tokenization -----------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct PathCase {
  doc: DocCase,
  name: String,
}
fn check_path(c: &PathCase, ctx: &mut Ctx) -> Res {
  let path = c.doc.write(&c.name);
  let corpus = par::Corpus::default();
  let doc = par::Document::new(path.clone(), &corpus).expect("document loads");
  let mut context = Context::new(&doc.dom).unwrap();
  let mut want = String::new();
  let (mut lines, mut dropped_any, mut special) = (0, false, false);
  for node in doc.get_paragraph_nodes() {
    let dnm = DNM::new(node, DNMParameters::llamapun_normalization());
    let mut text = String::new();
    let mut dropped = false;
    for s in tok().sentences(&dnm) {
      let mut line = String::new();
      for w in tok().words(&s) {
        match model_word(&w, &LexicalOptions::default(), &mut context) {
          Norm::Is(t) => {
            special |= t == "NUM" || t == "citationelement" || t.contains("RELOP");
            line.push_str(&t);
            line.push(' ');
          },
          Norm::TooLong => dropped = true,
          Norm::Undecided => return Ok(()),
        }
      }
      if !line.is_empty() {
        text.push_str(&line);
        text.push('\n');
      }
    }
    if !dropped {
      lines += text.matches('\n').count();
      want.push_str(&text);
    }
    dropped_any |= dropped;
  }
  let code = path_helpers::path_to_words(path.clone());
  ensure_eq!(code, want, "words", "path_to_words of a document");
  let cpath = std::ffi::CString::new(path).unwrap();
  let back = unsafe {
    let p = llamapun::extern_use::word_tokenize_for_vec2doc(cpath.as_ptr());
    ensure!(!p.is_null(), "null", "the C entry point returns a null pointer");
    std::ffi::CString::from_raw(p)
  };
  ensure_eq!(back.into_string().ok(), Some(want), "ffi", "word_tokenize_for_vec2doc of a document");
  ctx.nontrivial(lines >= 3 && special);
  ctx.label_if(dropped_any, "dropped paragraph");
  Ok(())
}
/// strings that the C entry point handed out stay as they are while it is called again, on this thread and others
fn check_held(docs: &Vec<PathCase>, ctx: &mut Ctx) -> Res {
  struct Held(*mut libc::c_char);
  let mut paths = Vec::new();
  let mut want = Vec::new();
  for (i, c) in docs.iter().enumerate() {
    check_path(c, &mut Ctx::default())?;
    let path = c.doc.write(&format!("held{i}"));
    want.push(path_helpers::path_to_words(path.clone()));
    paths.push(std::ffi::CString::new(path).unwrap());
  }
  let call = |i: usize| Held(unsafe { llamapun::extern_use::word_tokenize_for_vec2doc(paths[i].as_ptr()) });
  let read = |h: &Held| unsafe { std::ffi::CStr::from_ptr(h.0) }.to_str().map(|s| s.to_string()).ok();
  let free = |h: Held| drop(unsafe { std::ffi::CString::from_raw(h.0) });
  // twice round, everything held till the end
  let held: Vec<Held> = (0..2 * docs.len()).map(|i| call(i % docs.len())).collect();
  for (i, h) in held.iter().enumerate() {
    ensure_eq!(read(h), Some(want[i % docs.len()].clone()), "held", "a string the C entry point returned, after later calls");
  }
  held.into_iter().for_each(free);
  let numbers: Vec<usize> = (0..docs.len()).collect();
  concurrently(&numbers, 6, |i, _| {
    let (a, b) = (call(*i), call((*i + 1) % docs.len()));
    let got = (read(&a), read(&b));
    free(a);
    free(b);
    ensure_eq!(got, (Some(want[*i].clone()), Some(want[(*i + 1) % docs.len()].clone())), "concurrent", "strings of the C entry point");
    Ok(())
  }, ctx)?;
  ctx.nontrivial(want.iter().filter(|w| w.len() > 20).count() > 1 && want.windows(2).any(|w| w[0] != w[1]));
  Ok(())
}

// ---- language filter -------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct LangCase {
  text: String,
  /// None: not detected; script, language (indices), confidence
  verdict: Option<(usize, usize, f64)>,
}
fn check_lang(c: &LangCase, ctx: &mut Ctx) -> Res {
  let (_doc, dnm) = DNM::from_str(&c.text, None).expect("a document");
  let info = c.verdict.map(|(s, l, p)| whatlang::Info::new(whatlang::Script::ALL[s % whatlang::Script::ALL.len()], whatlang::Lang::ALL[l % whatlang::Lang::ALL.len()], p));
  whatlang::program(Some(info));
  whatlang::take_asked();
  let code = invalid_for_english_latin(&dnm);
  let asked = whatlang::take_asked();
  whatlang::program(None);
  let want = info.is_some_and(|i| i.script() != whatlang::Script::Latin || (i.lang() != whatlang::Lang::Eng && i.confidence() > 0.93));
  ensure_eq!(code, want, "verdict", "verdict for {:?}", info);
  let squeezed = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
  let blanked = squeezed(&dnm.plaintext.replace("mathformula", " ").replace("CitationElement", " ").replace("REF", " "));
  for a in &asked {
    ensure_eq!(squeezed(a), blanked, "asked", "text given to the detector for {:?}", dnm.plaintext);
  }
  ensure!(!asked.is_empty() || blanked.is_empty(), "not-asked", "the detector was not asked about {blanked:?}");
  ctx.nontrivial(info.is_some() && blanked.len() < squeezed(&dnm.plaintext).len());
  ctx.label_if(want, "rejected");
  ctx.label_if(info.is_none(), "undetected");
  ctx.label_if(info.is_some_and(|i| i.script() == whatlang::Script::Latin && i.lang() != whatlang::Lang::Eng), "another language in Latin script");
  Ok(())
}

// ---- generators ------------------------------------------------------------------------------

fn formula() -> BoxedStrategy<T> {
  let lexeme = or_word(pick(&["RELOP:equals:=", "NUMBER:3", "UNKNOWN:x", "ATOM:italic-x", "italic-x", "ID:end ", "ADDOP:plus", "SUPERSCRIPTOP1", "OPEN:(", " ", "ARRAY:2"]));
  prop_oneof![
    1 => Just(e("math", &[("class", "ltx_Math"), ("alttext", "x")], vec![e("mi", &[], vec![x("x")])])),
    3 => vec(lexeme, 0..5).prop_map(|l| e("math", &[("class", "ltx_Math")], vec![e("semantics", &[], vec![e("mi", &[], vec![x("x")]), e("annotation", &[("encoding", "application/x-llamapun")], vec![x(&l.join(" "))])])])),
    1 => vec(pick(&["RELOP:less", "italic-y"]), 0..3).prop_map(|l| e("div", &[("class", "ltx_equation")], vec![e("math", &[], vec![e("annotation", &[("encoding", "application/x-llamapun")], vec![x(&l.join(" "))])])])),
  ]
  .boxed()
}
fn rich_text() -> BoxedStrategy<String> {
  let w = prop_oneof![
    8 => or_text(pick(&["We", "prove", "the", "theorem", "Let", "lemma", "don't", "Élan", "x", "cf", "Dr", "I", "naïve", "Thus", "K3", "iPhone", "O'Neil", "groups'", "ß", "hyper-graph"])),
    4 => pick(&["1", "42", "3.14", "-5", "1a", "2k", "3l", "7K", "1.5e10", "1.5e-3", "1.5E+3", "0x1f", "1,000", "2.", ".5", "-", "1e5", "12ab", "--3", "3.a", "007k", "5.2.1"]),
    1 => pick(&["mathformula", "CitationElement", "citationelements", "REF", "xmathformulay"]),
    1 => pick(&["abcdefghijklmnopqrstuvwx", "abcdefghijklmnopqrstuvwxy", "abcdefghijklmnopqrstuvwxyz", "ab'cdefghijklmnopqrstuvwxyz", "it'sabcdefghijklmnopqrstuvw", "Abcdefghijklmnopqrstuvwxyzabc", "123456789012345678901234567890"]),
  ];
  let end = pick(&[" ", " ", " ", " ", ". ", ".\n", "? ", ": ", ", ", "\n\n", " (", ") ", "…"]);
  vec((w, end), 0..7).prop_map(|v| v.into_iter().map(|(a, b)| a + &b).collect()).boxed()
}
fn inline() -> BoxedStrategy<T> {
  prop_oneof![
    6 => rich_text().prop_map(T::X),
    3 => formula(),
    1 => Just(e("cite", &[("class", "ltx_cite")], vec![e("a", &[("class", "ltx_ref")], vec![x("1")])])),
    1 => Just(e("a", &[("class", "ltx_ref"), ("href", "#S1")], vec![x("1")])),
    1 => rich_text().prop_map(|t| e("em", &[("class", "ltx_emph")], vec![x(&t)])),
    1 => rich_text().prop_map(|t| e("span", &[("class", "ltx_note_outer")], vec![x(&t)])),
  ]
  .boxed()
}
fn block() -> BoxedStrategy<T> {
  let kids = || vec(inline(), 0..6);
  prop_oneof![
    8 => kids().prop_map(|k| e("div", &[("class", "ltx_para")], vec![e("p", &[("class", "ltx_p")], k)])),
    1 => kids().prop_map(|k| e("div", &[("class", "ltx_abstract")], vec![e("p", &[("class", "ltx_p")], k)])),
    1 => kids().prop_map(|k| e("div", &[("class", "ltx_keywords")], k)),
    1 => kids().prop_map(|k| e("div", &[("class", "ltx_acknowledgements")], k)),
    1 => kids().prop_map(|k| e("figcaption", &[("class", "ltx_caption")], k)),
    2 => kids().prop_map(|k| e("h2", &[("class", "ltx_title ltx_title_section")], k)),
    1 => Just(e("div", &[("class", "ltx_para")], vec![x("Bad "), e("span", &[("class", "ltx_ERROR undefined")], vec![x("\\foo")])])),
  ]
  .boxed()
}
/// a document whose words and sentences have one of these characters each
fn one_by_one(range: (u32, u32)) -> DocCase {
  let chars = vcommon::gen::characters(range);
  let words: String = chars.iter().map(|c| format!("a{c}b {c} Ab{c} ")).collect();
  let sentences: String = chars.iter().map(|c| format!("{c}x 42 y{c}. ")).collect();
  let para = |t: &str| e("div", &[("class", "ltx_para")], vec![e("p", &[("class", "ltx_p")], vec![x(t)])]);
  DocCase { doc: e("html", &[], vec![e("body", &[], vec![para(&words), para(&sentences)])]), xml: true, ns: false }
}
fn blown(d: &DocCase, b: &dnmgen::Blow) -> DocCase { DocCase { doc: b.apply(&d.doc), xml: d.xml, ns: d.ns } }
fn rich(t: Tier) -> BoxedStrategy<DocCase> {
  let n = if t == Tier::Quick { 6 } else { 12 };
  (vec(block(), 0..n), any::<bool>(), any::<bool>(), any::<bool>())
    .prop_map(|(b, s, xml, ns)| {
      let b = if s { vec![e("section", &[("class", "ltx_section")], b)] } else { b };
      DocCase { doc: e("html", &[], vec![e("body", &[], b)]), xml, ns: xml && ns }
    })
    .boxed()
}

/// corpora whose token models take more than the extractor's buffer: documents, sections of ten paragraphs, words per paragraph, threads
type Huge = (usize, usize, usize, usize);
fn check_huge(h: &Huge, ctx: &mut Ctx) -> Res {
  let (documents, sections, words, threads) = *h;
  let mut docs = Vec::new();
  for d in 0..documents {
    let section = |s: usize| {
      let para = |p: usize| {
        let text: String = (0..words).map(|w| match (w + p) % 11 { 3 => format!("{} ", w * 7), 5 => format!("w{}x{s}x{p}, ", w % 5), _ => format!("document{d} ") }).collect();
        e("div", &[("class", "ltx_para")], vec![e("p", &[("class", "ltx_p")], vec![x(&text)])])
      };
      e("section", &[("class", "ltx_section")], (0..10).map(para).collect())
    };
    let doc = e("html", &[], vec![e("body", &[], (0..sections).map(section).collect())]);
    docs.push((DocCase { doc, xml: true, ns: false }, vec![format!("{}", d % 3)]));
  }
  // also onto a full disk
  check_model(&ModelCase { docs, discard_math: false, threads, order: 3 }, ctx)?;
  ctx.label("more than the buffer");
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let words = |t: Tier| (rich(t), vec(any::<(u32, u32)>(), 0..8), prop::bool::weighted(0.3)).prop_map(|(doc, ranges, raw)| WordCase { doc, ranges, raw }).boxed();
  let model = |t: Tier| {
    let n = if t == Tier::Quick { 6 } else { 12 };
    let d = prop_oneof![4 => rich(Tier::Quick), 1 => select::article(Tier::Quick)];
    (vec((d, vec(pick(&["a", "b", "0801"]), 0..3)), 0..n), any::<bool>(), 1usize..9, any::<u64>()).prop_map(|(docs, discard_math, threads, order)| ModelCase { docs, discard_math, threads, order }).boxed()
  };
  // large documents on several threads at once
  let busy = |t: Tier| {
    let n = if t == Tier::Quick { 3usize..12 } else { 3..20 };
    let copies = vec((0usize..30, or_size((20u32..500).boxed(), 600)), 1..3);
    (vec((rich(Tier::Quick), vec(pick(&["a", "b", "0801"]), 0..2)), n), any::<bool>(), 2usize..9, any::<u64>(), vec(copies, 1..6))
      .prop_map(|(docs, discard_math, threads, order, copies)| (ModelCase { docs, discard_math, threads, order }, copies.into_iter().map(|copies| dnmgen::Blow { texts: vec![], copies, wrap: None }).collect::<Vec<_>>()))
      .boxed()
  };
  let path = |t: Tier| (prop_oneof![4 => rich(t), 1 => select::article(t)], pick(&["doc", "a b", "é", "x.html"])).prop_map(|(doc, name)| PathCase { doc, name }).boxed();
  let lang = |_t: Tier| {
    let piece = or_text(pick(&["the theorem", "mathformula", "CitationElement", "REF", "жизнь", "REFERENCE", "CitationElements", "Citation", "mathformulas", " ", "\n", ".", "xREF", "mathREFformula", "ref", "Mathformula", "été"]));
    let conf = prop_oneof![4 => pick(&["0.93", "0.9300001", "0.9299999", "0", "1", "0.5", "0.95", "0.92", "0.94", "0.9300000000001", "0.9299999999999", "0.9300000000000002"]).prop_map(|s| s.parse::<f64>().unwrap()), 1 => 0.0f64..1.0];
    let script = prop_oneof![3 => Just(whatlang::Script::ALL.iter().position(|s| *s == whatlang::Script::Latin).unwrap()), 1 => 0usize..25];
    let lang = prop_oneof![1 => Just(1usize), 2 => 0usize..69];
    (vec((piece, pick(&[" ", " ", ""])), 0..8).prop_map(|v| v.into_iter().map(|(a, b)| a + &b).collect::<String>()), prop::option::weighted(0.9, (script, lang, conf))).prop_map(|(text, verdict)| LangCase { text, verdict }).boxed()
  };
  let long = move |t: Tier| (lang(t), or_size(prop_oneof![3 => 2u32..300, 1 => 300u32..20_000].boxed(), 20_000)).prop_filter("not too long", |(c, n)| c.text.len() * (*n as usize) < 500_000).boxed();
  vec![
    Prop {
      id: "P24",
      rule: "all words (and arbitrary ranges) of generated documents under all eight option sets, and every element's heading; non-trivial: numerals, kept capitals and one of citations, formulas, overlong words",
      assumptions: vec!["lexemes of a formula are those of lexematize_math (P21)", "a word of at most 25 characters but more than 25 bytes, and a range that only contains a formula placeholder among other text, are not decided"],
      subs: vec![
        sub("words", (5_000, 80_000), "documents with numerals, formulas, citations and overlong words", words, check_words),
        enumerate("characters", "words with every character of planes 0 and 1, Unicode normalized and kept", || vcommon::gen::code_points().into_iter().flat_map(|r| [(r, false), (r, true)]).collect(), |r: &((u32, u32), bool), ctx| {
          check_words(&WordCase { doc: one_by_one(r.0), ranges: vec![], raw: r.1 }, &mut Ctx::default())?;
          ctx.nontrivial(r.0 .0 > 0);
          ctx.label_if(r.1, "Unicode kept");
          Ok(())
        }),
        sub("large", (40, 800), "the same on long texts, many siblings and deep nesting", move |t| (words(t), dnmgen::blow()).boxed(), |l: &(WordCase, dnmgen::Blow), ctx| {
          dnmgen::large_labels(&l.1, ctx);
          check_words(&WordCase { doc: blown(&l.0.doc, &l.1), ..l.0.clone() }, ctx)
        }),
      ],
    },
    Prop {
      id: "P25",
      rule: "generated corpora, thread counts and visiting orders; non-trivial: at least two documents, several words and some special token",
      assumptions: vec!["jwalk is a test double (see P14)", "words of at most 25 characters but more than 25 bytes are not decided"],
      subs: vec![
        sub("corpora", (700, 15_000), "corpora of up to six (thorough: twelve) documents", model, check_model),
        sub("busy", (12, 250), "large documents on several threads", busy, |l: &(ModelCase, Vec<dnmgen::Blow>), ctx| {
          let docs = l.0.docs.iter().enumerate().map(|(i, (d, dirs))| (blown(d, &l.1[i % l.1.len()]), dirs.clone())).collect();
          check_model(&ModelCase { docs, ..l.0.clone() }, ctx)
        }),
        enumerate("many", "token models of 10 to 20 MB (documents, sections of ten paragraphs, words per paragraph, threads)", || vec![(12, 300, 50, 8), (3, 900, 60, 4), (1, 3000, 45, 1), (4, 1, 60_000, 8)], check_huge),
      ],
    },
    Prop {
      id: "P26",
      rule: "generated documents, path_to_words and the C entry point; non-trivial: at least three sentences and a special token",
      assumptions: vec!["the file exists"],
      subs: vec![
        sub("held", (60, 1_200), "several documents, their C strings held while the entry point is called again, and called from several threads", move |t| vec(path(t), 2..5).boxed(), check_held),
        sub("documents", (2_500, 50_000), "documents with numerals, formulas, citations and overlong words", path, check_path),
        enumerate("characters", "words and sentences with every character of planes 0 and 1", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          check_path(&PathCase { doc: one_by_one(*r), name: "characters".into() }, &mut Ctx::default())?;
          ctx.nontrivial(r.0 > 0);
          Ok(())
        }),
        sub("large", (40, 800), "the same on long texts, many siblings and deep nesting", move |t| (path(t), dnmgen::blow()).boxed(), |l: &(PathCase, dnmgen::Blow), ctx| {
          dnmgen::large_labels(&l.1, ctx);
          check_path(&PathCase { doc: blown(&l.0.doc, &l.1), name: l.0.name.clone() }, ctx)
        }),
        enumerate("huge", dnmgen::HUGE, dnmgen::huge, |k: &(u8, u32), ctx| {
          on_worker_stack(|ctx| check_path(&PathCase { doc: DocCase::of(dnmgen::huge_document(*k), true, &None), name: "huge".into() }, ctx), ctx)
        }),
      ],
    },
    Prop {
      id: "P27",
      rule: "generated plaintexts and detector verdicts; non-trivial: a verdict and a placeholder",
      assumptions: vec!["the detector is a test double whose verdict is programmed and whose input is recorded"],
      subs: vec![
        sub("verdicts", (30_000, 500_000), "scripts, languages, confidences around the threshold", lang, check_lang),
        enumerate("characters", "texts with every character of planes 0 and 1", vcommon::gen::code_points, |r: &(u32, u32), ctx| {
          let chars = vcommon::gen::characters(*r);
          let text: String = chars.iter().map(|c| format!("a{c}REF{c}b ")).collect::<String>() + &chars.iter().collect::<String>();
          check_lang(&LangCase { text, verdict: Some((r.0 as usize >> 8, 1, 0.5)) }, ctx)
        }),
        sub("long", (30, 600), "the same on texts of up to 20000 repetitions", long, |l: &(LangCase, u32), ctx| {
          check_lang(&LangCase { text: format!("{} ", l.0.text).repeat(l.1 as usize), verdict: l.0.verdict }, ctx)
        }),
      ],
    },
  ]
}
