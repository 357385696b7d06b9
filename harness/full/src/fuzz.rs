//! P31 any file content goes through the whole pipeline.
use libxml::xpath::Context;
use llamapun::dnm::*;
use llamapun::parallel_data as par;
use llamapun::util::data_helpers::*;
use llamapun::util::path_helpers::path_to_words;
use llamapun::{ams, data};
use std::sync::OnceLock;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Source {
  /// pieces of markup in any order
  Soup(Vec<String>),
  /// a part of a real document, edited
  Real { doc: usize, at: usize, len: usize, edits: Vec<(u8, usize, usize, String)> },
  Raw(Vec<u8>),
  /// elements nested this deep
  Deep(String, usize, String),
  /// a real document as it is
  Whole(usize),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Fuzz {
  source: Source,
  xhtml: bool,
}
fn real() -> &'static Vec<Vec<u8>> {
  static DOCS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
  DOCS.get_or_init(|| {
    let mut v: Vec<_> = std::fs::read_dir("/repo/tests/resources").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.retain(|p| p.to_string_lossy().ends_with("html"));
    v.sort();
    let mut v: Vec<Vec<u8>> = v.iter().filter_map(|p| std::fs::read(p).ok()).filter(|b| !b.is_empty()).collect();
    if v.is_empty() {
      v.push(b"<html><body><div class=\"ltx_para\"><p class=\"ltx_p\">Let <math><mi>x</mi></math> be. So it is.</p></div></body></html>".to_vec());
    }
    v
  })
}
fn bytes(s: &Source) -> Vec<u8> {
  match s {
    Source::Soup(p) => p.concat().into_bytes(),
    Source::Raw(b) => b.clone(),
    Source::Deep(tag, n, text) => {
      let name = tag.split_whitespace().next().unwrap();
      format!("<html><body>{}{text}{}", format!("<{tag}>").repeat(*n), format!("</{name}>").repeat(*n)).into_bytes()
    },
    Source::Whole(i) => real()[*i % real().len()].clone(),
    Source::Real { doc, at, len, edits } => {
      let d = &real()[*doc % real().len()];
      let at = *at % d.len();
      let mut b = d[at..(at + len).min(d.len())].to_vec();
      for (what, i, n, piece) in edits {
        let i = *i % (b.len() + 1);
        let end = (i + n % 200).min(b.len());
        match what {
          0 => {
            b.drain(i..end);
          },
          1 => {
            let part = b[i..end].to_vec();
            b.splice(i..i, part);
          },
          2 if i < b.len() => b[i] = *n as u8,
          3 => {
            // markup of somewhere else
            let from = (n * 7919) % d.len();
            let part = d[from..(from + 150).min(d.len())].to_vec();
            b.splice(i..i, part);
          },
          _ => {
            b.splice(i..i, piece.bytes());
          },
        }
      }
      b
    },
  }
}
fn inside(r: &DNMRange, outer: (usize, usize), what: &str) -> Res {
  let n = r.dnm.byte_offsets.len() - 1;
  ensure!(outer.0 <= r.start && r.start <= r.end && r.end <= outer.1 && r.end <= n, "range", "{what}: {}..{} in {outer:?} of {n}", r.start, r.end);
  ensure_eq!(r.get_plaintext().chars().count(), r.end - r.start, "length", "length of the text of {what}");
  Ok(())
}
/// in order, disjoint, inside
fn ordered<'a>(ranges: impl Iterator<Item = (usize, usize)> + 'a, what: &str) -> Result<usize, Fail> {
  let (mut at, mut n) = (0, 0);
  for (a, z) in ranges {
    ensure!(a >= at, "order", "{what} at {a} begins before {at}");
    at = z;
    n += 1;
  }
  Ok(n)
}
fn check_dnm(dnm: &DNM) -> Res {
  let n = dnm.plaintext.chars().count();
  ensure_eq!(dnm.byte_offsets.len(), n + 1, "offsets", "byte offsets");
  ensure_eq!(dnm.back_map.len(), n, "back-map", "back map");
  let all = dnm.get_range();
  ensure!(all.is_ok(), "root", "the root has no range");
  inside(&all.unwrap(), (0, n), "root")?;
  for s in Snap::of(dnm.root_node).preorder() {
    if let Ok(r) = dnm.get_range_of_node(s.node) {
      inside(&r, (0, n), "node")?;
    }
  }
  Ok(())
}
fn run(c: &Fuzz, ctx: &mut Ctx) -> Res {
  let path = scratch_dir().join(if c.xhtml { "fuzz.xhtml" } else { "fuzz.html" });
  std::fs::write(&path, bytes(&c.source)).unwrap();
  let path = path.to_str().unwrap().to_string();
  let corpus = data::Corpus::default();
  let mut doc = match corpus.load_doc(path.clone()) {
    Ok(d) => d,
    Err(_) => {
      ctx.label("refused by the parser");
      return Ok(());
    },
  };
  let t = &corpus.tokenizer;
  // sequential
  let (mut words, mut sentences, mut paragraphs) = (0, 0, 0);
  for mut p in doc.paragraph_iter() {
    paragraphs += 1;
    check_dnm(&p.dnm)?;
    let n = p.dnm.plaintext.chars().count();
    let spans: Vec<(usize, usize)> = t.sentences(&p.dnm).iter().map(|s| (s.start, s.end)).collect();
    ordered(spans.iter().copied(), "sentence")?;
    invalid_for_english_latin(&p.dnm);
    let c14n = p.dnm.to_c14n_basic();
    ensure!(c14n.starts_with("<div") && c14n.ends_with("</div>"), "c14n", "canonical form of a paragraph: {c14n}");
    let hash = p.dnm.to_hash_basic();
    ensure!(hash.len() == 32 && hash.chars().all(|c| c.is_ascii_hexdigit()), "hash", "hash {hash}");
    let mut want = spans.iter().copied().filter(|(a, z)| a < z);
    for mut s in p.iter() {
      sentences += 1;
      ensure_eq!(Some((s.range.start, s.range.end)), want.next(), "sentence", "range of a sentence of the paragraph");
      inside(&s.range, (0, n), "sentence")?;
      let outer = (s.range.start, s.range.end);
      let tagged: Vec<(usize, usize)> = t.words_and_punct(&s.range).iter().map(|r| (r.start, r.end)).collect();
      ordered(tagged.iter().copied(), "word or punctuation")?;
      ensure!(tagged.iter().all(|w| outer.0 <= w.0 && w.1 <= outer.1), "range", "words and punctuation {tagged:?} in {outer:?}");
      let mut spans = Vec::new();
      for w in s.simple_iter() {
        inside(&w.range, outer, "word")?;
        spans.push((w.range.start, w.range.end));
      }
      words += ordered(spans.into_iter(), "word")?;
    }
  }
  for mut p in doc.paragraph_iter() {
    for mut s in p.iter() {
      let outer = (s.range.start, s.range.end);
      for w in s.senna_iter() {
        inside(&w.range, outer, "tagged word")?;
      }
    }
  }
  let mut document_sentences = Vec::new();
  for s in doc.sentence_iter() {
    document_sentences.push((s.range.start, s.range.end));
  }
  if let Some(d) = &doc.dnm {
    check_dnm(d)?;
    d.to_c14n_basic();
    d.to_hash_basic();
    ordered(document_sentences.iter().copied(), "sentence of the document")?;
    ensure!(document_sentences.iter().all(|s| s.1 < d.byte_offsets.len()), "range", "sentences {document_sentences:?}");
  } else {
    ensure!(document_sentences.is_empty(), "no-root", "sentences without a root");
    ctx.label("no root");
  }
  ctx.nontrivial(words > 0);
  ctx.label_if(sentences > 1, "several sentences");
  ctx.label_if(paragraphs > 1, "several paragraphs");
  ctx.label_if(paragraphs == 0, "no paragraphs");
  // headings, markup, formulas
  ams::has_markup(&doc);
  ams::class_to_env("ltx_theorem_");
  let (maths, refs) = (doc.get_math_nodes(), doc.get_ref_nodes());
  if let Ok(mut context) = Context::new(&doc.dom) {
    for m in &maths {
      node::lexematize_math(*m, &mut context);
    }
  }
  // parallel
  let pcorpus = par::Corpus::default();
  let mut pdoc = par::Document::new(path.clone(), &pcorpus).map_err(|_| Fail { sig: "parallel-load".into(), msg: "refused by the parallel data module".into() })?;
  ams::has_markup_xmldoc(&pdoc.dom);
  ensure_eq!(pdoc.get_math_nodes().len(), maths.len(), "formulas", "formulas");
  ensure_eq!(pdoc.get_ref_nodes().len(), refs.len(), "references", "references");
  if let Ok(mut context) = Context::new(&pdoc.dom) {
    for h in pdoc.get_heading_nodes() {
      if let Some(h) = heading_from_node_aux(h, &pcorpus.tokenizer, &mut context) {
        normalize_heading_title(&h);
        ctx.label("heading");
      }
    }
  }
  let mut par_words = 0;
  for mut p in pdoc.extended_paragraph_iter() {
    check_dnm(&p.dnm)?;
    let n = p.dnm.plaintext.chars().count();
    for w in p.word_and_punct_iter() {
      inside(&w.range, (0, n), "word of an item")?;
      par_words += 1;
    }
  }
  for mut p in pdoc.heading_iter().chain(pdoc.xpath_selector_iter("//*[@class]")).chain(pdoc.filter_iter(&|n| n.get_name() == "p")) {
    let n = p.dnm.plaintext.chars().count();
    for w in p.word_iter() {
      inside(&w.range, (0, n), "word of an item")?;
    }
  }
  let mut again = Vec::new();
  for s in pdoc.sentence_iter() {
    again.push((s.range.start, s.range.end));
  }
  ensure_eq!(again, document_sentences, "parallel-sentences", "sentences of the document");
  ensure!(par_words >= words.min(1), "parallel-words", "no words in the extended paragraphs");
  let tokens = path_to_words(path);
  ensure!(words > 0 || tokens.trim().is_empty(), "tokens", "words from nowhere: {tokens:?}");
  ensure!(tokens.lines().count() <= sentences, "lines", "{} lines for {sentences} sentences", tokens.lines().count());
  Ok(())
}
fn piece() -> BoxedStrategy<String> {
  prop_oneof![
    8 => pick(&[
      "<div class=\"ltx_para\">", "<div class=\"ltx_para\">", "<div class='ltx_para ltx_abstract'>", "</div>", "</div>", "<p class=\"ltx_p\">", "<p>", "</p>", "<h2 class=\"ltx_title\">", "</h2>",
      "<span class=\"ltx_ref \">", "<span class=\"ltx_ERROR\">", "</span>", "<math>", "</math>", "<cite>", "</cite>", "<table class=\"ltx_equation\">", "<tr>", "<td>", "</table>",
      "<figcaption class=\"ltx_caption\">", "</figcaption>", "<html>", "<body>", "</body>", "</html>", "<head>", "<title>", "</title>", "<br>", "<br/>", "<img src=x>",
    ]),
    5 => pick(&["Word ", "word", ". ", ".", "The end", " mathformula ", "e.g. ", "I", "'", "\"", "? ", "! ", "\n\n", "\n", " ", "(", ")", ": ", "1.5", "don't", "A"]),
    3 => pick(&["é", "\u{a0}", "\u{2003}", "İ", "ß", "ﬁ", "北京", "😀", "\u{301}", "\u{feff}", "\u{200b}", "½", "\u{85}", "ǅ"]),
    3 => pick(&[
      "&amp;", "&nbsp;", "&lt;", "&#0;", "&#x110000;", "&bogus;", "&", "<", ">", "</", "<!--", "-->", "<![CDATA[", "]]>", "<?pi ?>", "<!DOCTYPE html>", "<script>", "</script>", "<style>", "<svg>",
      "<annotation encoding=\"application/x-llamapun\">ID:x NUM:1 :end", "</annotation>", "<semantics>", "</semantics>", "<a id=\"", "\" ", "='", "<x:y z:w='1'>", "</x:y>", "<plaintext>", "<meta charset=\"utf-8\">",
      "<meta charset=\"utf-16\">", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "\u{0}", "\u{1}", "\r",
    ]),
  ]
  .boxed()
}
fn fuzz(t: Tier) -> BoxedStrategy<Fuzz> {
  let long = if t == Tier::Quick { 60 } else { 250 };
  let edit = (0u8..6, 0usize..100_000, 0usize..100_000, piece());
  let source = prop_oneof![
    4 => vec(piece(), 0..long).prop_map(Source::Soup),
    2 => vec(piece(), 0..long).prop_map(|mut v| {
      v.insert(0, "<html><head><meta charset=\"utf-8\"></head><body><div class=\"ltx_para\"><p>Word ".into());
      Source::Soup(v)
    }),
    4 => (0usize..8, 0usize..2_000_000, 1usize..4000, vec(edit, 0..8)).prop_map(|(doc, at, len, edits)| Source::Real { doc, at, len, edits }),
    1 => vec(any::<u8>(), 0..200).prop_map(Source::Raw),
  ];
  (source, prop::bool::weighted(0.15)).prop_map(|(source, xhtml)| Fuzz { source, xhtml }).boxed()
}
/// without a text in a paragraph there are no words: the .xhtml parser may refuse, path_to_words has no answer then
fn whole() -> Vec<Fuzz> {
  let mut v: Vec<Fuzz> = (0..real().len()).flat_map(|i| [false, true].map(|xhtml| Fuzz { source: Source::Whole(i), xhtml })).collect();
  for (tag, n) in [("div class=\"ltx_para\"", 100), ("div", 500), ("span", 1000), ("b", 1000), ("ul", 300), ("table", 60), ("math", 700), ("div", 50_000), ("div class=\"ltx_para\"", 20_000), ("x", 50_000)] {
    v.push(Fuzz { source: Source::Deep(tag.into(), n, "Word. <div class=\"ltx_para\">Word. Word</div>".into()), xhtml: false });
  }
  for s in ["", " ", "\n", "<", "<!-- -->", "text", "\u{0}", "<html/>", "<html></html>", "<!DOCTYPE html>", "&nbsp;"] {
    v.extend([false, true].map(|xhtml| Fuzz { source: Source::Soup(vec![s.into()]), xhtml }));
  }
  v
}
pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "P31",
    rule: "the file is loaded and some paragraph has words",
    assumptions: vec![
      "libxml2 bounds the nesting of elements (256), so the recursive tree walks are not driven deeper",
      "the file exists and is readable",
    ],
    subs: vec![
      sub("files", (6_000, 150_000), "markup soup, edited parts of real documents, arbitrary bytes", fuzz, run),
      enumerate("documents", "whole real documents, deep nesting, documents without content", whole, run),
    ],
  }]
}
