//! P11 document selectors, P12 iterators over paragraphs, sentences and words.
use crate::dnmgen::{self, Par};
use libxml::readonly::RoNode;
use llamapun::dnm::*;
use llamapun::parallel_data::{self as par, XPathFilteredIterator};
use llamapun::{data, tokenizer::Tokenizer};
use senna::pos::POS;
use std::collections::HashMap;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

thread_local! {
  static SEQ: &'static mut data::Corpus = Box::leak(Box::new(data::Corpus::default()));
  static PAR: &'static mut par::Corpus = Box::leak(Box::new(par::Corpus::default()));
}
/// a parallel corpus with the given parameters for whole documents
fn par_corpus() -> par::Corpus { par::Corpus::default() }

/// one generated document in a file of its own
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct DocCase {
  pub doc: T,
  /// write as .xhtml, with the XHTML namespace or without
  pub xml: bool,
  pub ns: bool,
}
impl DocCase {
  pub fn of(doc: T, xml: bool, ns: &Option<dnmgen::Namespaces>) -> DocCase {
    match ns {
      Some(n) => DocCase { doc: n.apply(&doc, !xml), xml, ns: false },
      None => DocCase { doc, xml, ns: xml },
    }
  }
  pub fn text(&self) -> String {
    let mut s = self.doc.xml();
    if !self.xml {
      s = s.replacen("<html>", "<html><head><meta charset=\"utf-8\"/></head>", 1);
    }
    if self.ns {
      s = s.replacen("<html", "<html xmlns=\"http://www.w3.org/1999/xhtml\"", 1);
    }
    s
  }
  pub fn write(&self, name: &str) -> String {
    let path = scratch_dir().join(format!("{name}.{}", if self.xml { "xhtml" } else { "html" }));
    std::fs::write(&path, self.text()).unwrap();
    path.to_str().unwrap().to_string()
  }
}

/// what the selectors look at, computed once per document
struct Facts<'a> {
  nodes: Vec<&'a Snap>,
  /// index in document order
  index: HashMap<usize, usize>,
  error_inside: Vec<bool>,
  error_before: Vec<bool>,
  parent: Vec<Option<usize>>,
}
impl<'a> Facts<'a> {
  fn of(root: &'a Snap) -> Facts<'a> {
    let mut f = Facts { nodes: vec![], index: HashMap::new(), error_inside: vec![], error_before: vec![], parent: vec![] };
    f.add(root, false, None);
    f
  }
  fn add(&mut self, s: &'a Snap, before: bool, parent: Option<usize>) -> bool {
    let me = self.nodes.len();
    self.nodes.push(s);
    self.index.insert(s.node.to_hashable(), me);
    self.error_inside.push(false);
    self.error_before.push(before);
    self.parent.push(parent);
    let mut seen = false;
    let mut inside = false;
    for k in &s.kids {
      let sub = self.add(k, seen, Some(me));
      inside |= sub;
      seen |= is_error(k);
    }
    self.error_inside[me] = inside;
    inside || is_error(s)
  }
  fn select(&self, what: impl Fn(usize, &Snap) -> bool) -> Vec<usize> {
    (0..self.nodes.len()).filter(|i| self.nodes[*i].kind == Kind::Elem && what(*i, self.nodes[*i])).collect()
  }
  fn classed(&self, names: &[&str], class: &str) -> Vec<usize> {
    self.select(|i, s| names.contains(&s.name.as_str()) && has(s, class) && !self.error_inside[i])
  }
  fn under(&self, mut i: usize, anc: &[usize]) -> bool {
    while let Some(p) = self.parent[i] {
      if anc.contains(&p) {
        return true;
      }
      i = p;
    }
    false
  }
}
fn has(s: &Snap, class: &str) -> bool { s.classes().contains(&class) }
fn is_error(s: &Snap) -> bool { has(s, "ltx_ERROR") }

struct Wanted {
  paragraphs: Vec<usize>,
  headings: Vec<usize>,
  math: Vec<usize>,
  refs: Vec<usize>,
  extended: Vec<usize>,
}
fn wanted(f: &Facts) -> Wanted {
  let paragraphs: Vec<usize> = f.classed(&["div"], "ltx_para").into_iter().filter(|i| !f.error_before[*i]).collect();
  let headings = f.classed(&["h1", "h2", "h3", "h4", "h5", "h6"], "ltx_title").into_iter().filter(|i| !has(f.nodes[*i], "ltx_title_document")).collect();
  let math = f.select(|_, s| s.name == "math");
  let refs = f.select(|_, s| (s.name == "span" || s.name == "a") && has(s, "ltx_ref"));
  let abstracts = f.classed(&["div"], "ltx_abstract");
  let p = f.select(|i, s| s.name == "p" && has(s, "ltx_p") && f.under(i, &abstracts));
  let ack = |i: usize, s: &Snap| s.name == "div" && (has(s, "ltx_acknowledgement") || has(s, "ltx_acknowledgements")) && !f.error_inside[i];
  let mut extended: Vec<usize> = p.first().copied().into_iter().collect();
  extended.extend(f.classed(&["div"], "ltx_keywords").first());
  extended.extend(&paragraphs);
  extended.extend(f.select(ack).first());
  extended.extend(f.classed(&["figcaption"], "ltx_caption"));
  Wanted { paragraphs, headings, math, refs, extended }
}

/// custom selections
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Query {
  Name(String),
  Class(String),
  WithId,
  AllText,
  ParentsOf(String),
  Before(String),
  Either(String, String),
  Nothing(String),
}
impl Query {
  fn xpath(&self) -> String {
    match self {
      Query::Name(n) => format!("//*[local-name()='{n}']"),
      Query::Class(c) => format!("//*[contains(@class,'{c}')]"),
      Query::WithId => "//*[@id]".into(),
      Query::AllText => "//text()".into(),
      Query::ParentsOf(n) => format!("//*[local-name()='{n}']/.."),
      Query::Before(n) => format!("//*[local-name()='{n}']/preceding-sibling::*"),
      Query::Either(a, b) => format!("//*[local-name()='{b}'] | //*[local-name()='{a}']"),
      Query::Nothing(s) => s.clone(),
    }
  }
  fn select(&self, f: &Facts) -> Vec<usize> {
    match self {
      Query::Name(n) => f.select(|_, s| s.name == *n),
      Query::Class(c) => f.select(|_, s| s.class.as_deref().unwrap_or("").contains(c.as_str())),
      Query::WithId => f.select(|_, s| s.id.is_some()),
      Query::AllText => (0..f.nodes.len()).filter(|i| f.nodes[*i].kind == Kind::Text).collect(),
      Query::ParentsOf(n) => f.select(|_, s| s.kids.iter().any(|k| k.kind == Kind::Elem && k.name == *n)),
      Query::Before(n) => f.select(|i, _| {
        let Some(p) = f.parent[i] else { return false };
        let kids = &f.nodes[p].kids;
        let at = kids.iter().position(|k| f.index[&k.node.to_hashable()] == i).unwrap();
        kids[at + 1..].iter().any(|k| k.kind == Kind::Elem && k.name == *n)
      }),
      Query::Either(a, b) => f.select(|_, s| s.name == *a || s.name == *b),
      Query::Nothing(_) => vec![],
    }
  }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Filter {
  All,
  None,
  Name(String),
  HasClass(String),
  Text(String),
  Leaf,
}
impl Filter {
  fn holds(&self, n: &RoNode) -> bool {
    match self {
      Filter::All => true,
      Filter::None => false,
      Filter::Name(s) => n.get_name() == *s,
      Filter::HasClass(c) => n.is_element_node() && n.get_property("class").unwrap_or_default().contains(c.as_str()),
      Filter::Text(t) => n.is_text_node() && n.get_content().contains(t.as_str()),
      Filter::Leaf => n.get_first_child().is_none(),
    }
  }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct SelCase {
  doc: DocCase,
  query: Query,
  filter: Filter,
}

fn at(f: &Facts, v: &[RoNode]) -> Vec<usize> { v.iter().map(|n| f.index.get(&n.to_hashable()).copied().unwrap_or(usize::MAX)).collect() }
fn at_items(f: &Facts, v: par::RoNodeIterator) -> Vec<usize> { v.map(|i| f.index.get(&i.dnm.root_node.to_hashable()).copied().unwrap_or(usize::MAX)).collect() }

fn check_select(c: &SelCase, ctx: &mut Ctx) -> Res {
  let path = c.doc.write("select");
  SEQ.with(|seq| PAR.with(|par| {
    // the parallel document type
    let doc = par::Document::new(path.clone(), par).expect("document loads");
    let root = Snap::of(doc.dom.get_root_readonly().expect("root"));
    let f = Facts::of(&root);
    let w = wanted(&f);
    ensure_eq!(at(&f, &doc.get_paragraph_nodes()), w.paragraphs, "paragraphs", "paragraph nodes (document-order numbers)");
    ensure_eq!(at_items(&f, doc.paragraph_iter()), w.paragraphs, "paragraph-iter", "paragraph_iter");
    ensure_eq!(at(&f, &doc.get_heading_nodes()), w.headings, "headings", "heading nodes");
    ensure_eq!(at_items(&f, doc.heading_iter()), w.headings, "heading-iter", "heading_iter");
    ensure_eq!(at(&f, &doc.get_math_nodes()), w.math, "math", "math nodes");
    ensure_eq!(at(&f, &doc.get_ref_nodes()), w.refs, "refs", "reference nodes");
    ensure_eq!(at_items(&f, doc.extended_paragraph_iter()), w.extended, "extended", "extended paragraphs");
    let q = c.query.xpath();
    let want = c.query.select(&f);
    ensure_eq!(at(&f, &doc.get_xpath_nodes(&q)), want, "xpath", "nodes of {q}");
    ensure_eq!(at_items(&f, doc.xpath_selector_iter(&q)), want, "xpath-iter", "xpath_selector_iter of {q}");
    ensure_eq!(doc.get_xpath_node(&q).map(|n| at(&f, &[n])[0]), want.first().copied(), "xpath-first", "first node of {q}");
    let by_filter: Vec<usize> = (0..f.nodes.len()).filter(|i| c.filter.holds(&f.nodes[*i].node)).collect();
    let filter = c.filter.clone();
    ensure_eq!(at_items(&f, doc.filter_iter(&move |n| filter.holds(n))), by_filter, "filter", "filter_iter of {:?}", c.filter);
    // the sequential document type
    let mut sdoc = data::Document::new(path.clone(), seq).expect("document loads");
    let sroot = Snap::of(sdoc.dom.get_root_readonly().expect("root"));
    let sf = Facts::of(&sroot);
    ensure_eq!(sf.nodes.len(), f.nodes.len(), "same-dom", "number of nodes");
    ensure_eq!(at(&sf, &data::Document::paragraph_nodes(&sdoc.dom)), w.paragraphs, "seq-paragraphs", "paragraph nodes, sequential");
    ensure_eq!(at(&sf, &sdoc.get_math_nodes()), w.math, "seq-math", "math nodes, sequential");
    ensure_eq!(at(&sf, &sdoc.get_ref_nodes()), w.refs, "seq-refs", "reference nodes, sequential");
    let it: Vec<RoNode> = sdoc.paragraph_iter().map(|p| p.dnm.root_node).collect();
    ensure_eq!(at(&sf, &it), w.paragraphs, "seq-paragraph-iter", "paragraph_iter, sequential");
    let all_paras = f.select(|_, s| s.name == "div" && has(s, "ltx_para")).len();
    ctx.nontrivial(!w.paragraphs.is_empty() && w.extended.len() > w.paragraphs.len() && !w.headings.is_empty());
    ctx.label_if(all_paras > w.paragraphs.len(), "paragraph excluded by an error");
    ctx.label_if(!w.refs.is_empty(), "reference");
    ctx.label_if(!w.math.is_empty(), "math");
    ctx.label_if(w.paragraphs.iter().any(|p| f.under(*p, &w.paragraphs)), "nested paragraphs");
    ctx.label_if(!want.is_empty(), "custom query matches");
    Ok(())
  }))
}

// ---- iterators -------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct IterCase {
  doc: DocCase,
  /// parameters of whole-document DNMs; None: the default
  par: Option<Par>,
  pos: bool,
}
type Words = Vec<((usize, usize), String)>;
type Sents = Vec<((usize, usize), String, Words)>;
fn show(r: &DNMRange) -> ((usize, usize), String) { ((r.start, r.end), r.get_plaintext().to_string()) }
/// what composing the tokenizer by hand gives
fn sentences_of(t: &Tokenizer, dnm: &DNM, words: fn(&Tokenizer, &DNMRange) -> Words) -> Sents {
  t.sentences(dnm).iter().filter(|s| !s.is_empty()).map(|s| (show(s).0, show(s).1, words(t, s))).collect()
}
/// what the tagger makes of the text: words, tags, and where they start in the DNM
fn tagged(text: &str, start: usize, pos: bool) -> Vec<(String, POS, usize)> {
  senna::senna::double_tokenize(text)
    .into_iter()
    .map(|(a, z)| (text[a..z].to_string(), if pos { senna::senna::double_pos(&text[a..z]) } else { POS::NOT_SET }, start + text[..a].chars().count()))
    .collect()
}
fn plain_words(t: &Tokenizer, r: &DNMRange) -> Words { t.words(r).iter().filter(|r| !r.is_empty()).map(show).collect() }
fn all_words(t: &Tokenizer, r: &DNMRange) -> Words { t.words_and_punct(r).iter().filter(|r| !r.is_empty()).map(show).collect() }

fn check_iter(c: &IterCase, ctx: &mut Ctx) -> Res {
  let path = c.doc.write("iter");
  let t = Tokenizer::default();
  let whole = || c.par.as_ref().map(|p| p.to_code()).unwrap_or_else(DNMParameters::llamapun_normalization);
  // sequential
  let mut corpus = data::Corpus::default();
  corpus.dnm_parameters = whole();
  let mut o = corpus.senna_options.get();
  o.pos = c.pos;
  corpus.senna_options.set(o);
  let mut doc = data::Document::new(path.clone(), &corpus).expect("document loads");
  let nodes = data::Document::paragraph_nodes(&doc.dom);
  let mut seen = 0;
  let (mut n_sent, mut n_word, mut multi) = (0, 0, false);
  let mut texts: Vec<String> = Vec::new();
  for mut para in doc.paragraph_iter() {
    ensure!(seen < nodes.len(), "extra-paragraph", "more paragraphs than paragraph nodes");
    let want = DNM::new(nodes[seen], DNMParameters::llamapun_normalization());
    ensure_eq!(para.dnm.root_node.to_hashable(), nodes[seen].to_hashable(), "paragraph-node", "node of paragraph {seen}");
    ensure_eq!(para.dnm.plaintext, want.plaintext, "paragraph-text", "text of paragraph {seen}");
    texts.push(want.plaintext.clone());
    let model = sentences_of(&t, &want, plain_words);
    let mut got: Sents = Vec::new();
    for mut s in para.iter() {
      let (r, text) = show(&s.range);
      let mut words: Words = Vec::new();
      for w in s.simple_iter() {
        ensure_eq!(w.pos, POS::NOT_SET, "untagged", "tag of a word of simple_iter");
        words.push(show(&w.range));
      }
      got.push((r, text, words));
    }
    ensure_eq!(got, model, "sentences", "sentences and words of paragraph {seen}");
    n_sent += got.len();
    n_word += got.iter().map(|s| s.2.len()).sum::<usize>();
    seen += 1;
  }
  ensure_eq!(seen, nodes.len(), "missing-paragraph", "number of paragraphs");
  // tagged words
  for mut para in doc.paragraph_iter() {
    for mut s in para.iter() {
      let text = s.range.get_plaintext().to_string();
      let start = s.range.start;
      multi |= !text.is_ascii();
      let want = tagged(&text, start, c.pos);
      let got: Vec<(String, POS, usize)> = s.senna_iter().map(|w| (w.range.get_plaintext().to_string(), w.pos, w.range.start)).collect();
      ensure_eq!(got, want, "tagged", "tagged words of {text:?}");
    }
  }
  // tagged words of the whole document, whose parameters may keep the characters as they are
  let mut wide = false;
  for mut s in doc.sentence_iter() {
    let text = s.range.get_plaintext().to_string();
    wide |= !text.is_ascii();
    let want = tagged(&text, s.range.start, c.pos);
    let got: Vec<(String, POS, usize)> = s.senna_iter().map(|w| (w.range.get_plaintext().to_string(), w.pos, w.range.start)).collect();
    ensure_eq!(got, want, "document-tagged", "tagged words of the document's sentence {text:?}");
  }
  ctx.label_if(wide, "tagged non-ASCII sentence");
  let root = doc.dom.get_root_readonly().unwrap();
  let whole_seq = sentences_of(&t, &DNM::new(root, whole()), plain_words);
  for pass in 0..2 {
    let mut got: Sents = Vec::new();
    for mut s in doc.sentence_iter() {
      let (r, text) = show(&s.range);
      got.push((r, text, s.simple_iter().map(|w| show(&w.range)).collect()));
    }
    ensure_eq!(got, whole_seq, "document-sentences", "sentences of the document, pass {pass}");
  }
  // parallel
  let mut corpus = par_corpus();
  corpus.dnm_parameters = whole();
  let mut doc = par::Document::new(path, &corpus).expect("document loads");
  let par_texts: Vec<String> = doc.paragraph_iter().map(|p| p.dnm.plaintext.clone()).collect();
  ensure_eq!(par_texts, texts, "par-paragraphs", "paragraph texts of the parallel document");
  let xp = "//*[local-name()='p']";
  let paragraphs = || doc.paragraph_iter();
  check_items(&t, &paragraphs, Some(doc.get_paragraph_nodes()), "paragraph")?;
  check_items(&t, &|| doc.heading_iter(), Some(doc.get_heading_nodes()), "heading")?;
  check_items(&t, &|| doc.xpath_selector_iter(xp), Some(doc.get_xpath_nodes(xp)), "xpath")?;
  check_items(&t, &|| doc.extended_paragraph_iter(), None, "extended")?;
  check_items(&t, &|| doc.filter_iter(&|n| n.get_name() == "em"), Some(doc.get_xpath_nodes("//*[local-name()='em']")), "filter")?;
  let want: Vec<_> = whole_seq.iter().map(|s| (s.0, s.1.clone())).collect();
  for pass in 0..2 {
    let got: Vec<_> = doc.sentence_iter().map(|s| show(&s.range)).collect();
    ensure_eq!(got, want, "par-document-sentences", "sentences of the parallel document, pass {pass}");
  }
  ctx.nontrivial(seen >= 2 && n_sent > seen && n_word > n_sent);
  ctx.label_if(multi, "non-ASCII sentence");
  ctx.label_if(whole_seq.len() > 1, "document with several sentences");
  ctx.label_if(texts.iter().any(|t| t.trim().is_empty()), "blank paragraph");
  Ok(())
}
/// the DNMs of the items, their words, sentences and words of sentences
/// several documents of one corpus at once, their iterators advanced in any order
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Together {
  docs: Vec<DocCase>,
  /// whose turn it is
  turns: Vec<u8>,
  pos: bool,
}
fn check_together(c: &Together, ctx: &mut Ctx) -> Res {
  let t = Tokenizer::default();
  let paths: Vec<String> = c.docs.iter().enumerate().map(|(i, d)| d.write(&format!("together{i}"))).collect();
  let corpus = data::Corpus::default();
  let mut o = corpus.senna_options.get();
  o.pos = c.pos;
  corpus.senna_options.set(o);
  let corpus_par = par_corpus();
  let mut docs: Vec<data::Document> = paths.iter().map(|p| corpus.load_doc(p.clone()).expect("document loads")).collect();
  let par_docs: Vec<par::Document> = paths.iter().map(|p| par::Document::new(p.clone(), &corpus_par).expect("document loads")).collect();
  // (the documents are parsed again for the model)
  let model_corpus = data::Corpus::default();
  let want: Vec<Vec<Sents>> = paths
    .iter()
    .map(|p| {
      let d = data::Document::new(p.clone(), &model_corpus).expect("document loads");
      data::Document::paragraph_nodes(&d.dom).iter().map(|n| sentences_of(&t, &DNM::new(*n, DNMParameters::llamapun_normalization()), plain_words)).collect()
    })
    .collect();
  let n = docs.len();
  let mut seq: Vec<_> = docs.iter_mut().map(|d| d.paragraph_iter()).collect();
  let mut parallel: Vec<_> = par_docs.iter().map(|d| d.paragraph_iter()).collect();
  let mut got: Vec<Vec<Sents>> = vec![Vec::new(); n];
  let mut got_par: Vec<Vec<Sents>> = vec![Vec::new(); n];
  let mut switches = 0;
  let most = want.iter().map(|w| w.len()).max().unwrap_or(0);
  let turns = c.turns.iter().map(|k| *k as usize).chain((0..2 * n * (most + 1)).map(|i| i % (2 * n).max(1)));
  for k in turns {
    if n == 0 {
      break;
    }
    let i = k / 2 % n;
    if k % 2 == 0 {
      if let Some(mut p) = seq[i].next() {
        let mut sents = Sents::new();
        let mut tagged_words = 0;
        for mut s in p.iter() {
          let (r, text) = show(&s.range);
          // tagged and plain words in turns
          if k % 3 == 0 {
            sents.push((r, text.clone(), plain_words(&t, &s.range)));
            let want = tagged(&text, s.range.start, c.pos);
            let got: Vec<(String, POS, usize)> = s.senna_iter().map(|w| (w.range.get_plaintext().to_string(), w.pos, w.range.start)).collect();
            ensure_eq!(got, want, "together-tagged", "tagged words of {text:?}");
            tagged_words += got.len();
          } else {
            sents.push((r, text, s.simple_iter().map(|w| show(&w.range)).collect()));
          }
        }
        ctx.label_if(tagged_words > 0, "tagged");
        switches += usize::from(got[i].len() + 1 < want[i].len());
        got[i].push(sents);
      }
    } else if let Some(mut p) = parallel[i].next() {
      let mut sents = Sents::new();
      for mut s in p.iter() {
        let (r, text) = show(&s.range);
        sents.push((r, text, s.word_iter().map(|w| show(&w.range)).collect()));
      }
      got_par[i].push(sents);
    }
  }
  for i in 0..n {
    ensure_eq!(got[i], want[i], "together", "paragraphs of document {i}");
    ensure_eq!(got_par[i], want[i], "together-par", "paragraphs of the parallel document {i}");
  }
  ctx.nontrivial(switches > 1 && want.iter().filter(|w| w.len() > 1).count() > 1);
  Ok(())
}
fn check_items<'a>(t: &Tokenizer, items: &dyn Fn() -> par::RoNodeIterator<'a>, nodes: Option<Vec<RoNode>>, what: &str) -> Res {
  let nodes = nodes.unwrap_or_else(|| items().map(|i| i.dnm.root_node).collect());
  let fresh: Vec<DNM> = nodes.iter().map(|n| DNM::new(*n, DNMParameters::llamapun_normalization())).collect();
  let got: Vec<(usize, String)> = items().map(|i| (i.dnm.root_node.to_hashable(), i.dnm.plaintext.clone())).collect();
  let want: Vec<(usize, String)> = fresh.iter().map(|d| (d.root_node.to_hashable(), d.plaintext.clone())).collect();
  ensure_eq!(got, want, format!("{what}-items"), "{what} items");
  for (mut item, f) in items().zip(&fresh) {
    let got: Words = item.word_iter().map(|w| show(&w.range)).collect();
    ensure_eq!(got, plain_words(t, &f.get_range().expect("range")), format!("{what}-words"), "words of a {what} item");
  }
  for (mut item, f) in items().zip(&fresh) {
    let got: Words = item.word_and_punct_iter().map(|w| show(&w.range)).collect();
    ensure_eq!(got, all_words(t, &f.get_range().expect("range")), format!("{what}-all-words"), "words and punctuation of a {what} item");
  }
  for (mut item, f) in items().zip(&fresh) {
    let mut got: Sents = Vec::new();
    for mut s in item.iter() {
      let (r, text) = show(&s.range);
      got.push((r, text, s.word_iter().map(|w| show(&w.range)).collect()));
    }
    ensure_eq!(got, sentences_of(t, f, plain_words), format!("{what}-sentences"), "sentences and words of a {what} item");
  }
  for (mut item, f) in items().zip(&fresh) {
    let mut got: Sents = Vec::new();
    for mut s in item.iter() {
      let (r, text) = show(&s.range);
      got.push((r, text, s.word_and_punct_iter().map(|w| show(&w.range)).collect()));
    }
    ensure_eq!(got, sentences_of(t, f, all_words), format!("{what}-sentences-all"), "sentences, words and punctuation of a {what} item");
  }
  Ok(())
}

// ---- generators ------------------------------------------------------------------------------

/// LaTeXML-like structure: (element, class) pairs that the selectors look for, and near misses
fn structure() -> BoxedStrategy<(String, Vec<(String, String)>)> {
  let el = |n: &str, c: &str| (n.to_string(), c.to_string());
  let likely: Vec<(String, String)> = vec![
    el("div", "ltx_para"), el("div", "ltx_para"), el("div", "ltx_para ltx_noindent"), el("div", "ltx_align_left ltx_para"), el("section", "ltx_para"),
    el("h2", "ltx_title ltx_title_section"), el("h1", "ltx_title ltx_title_document"), el("h6", "ltx_title"), el("h3", "ltx_runin ltx_title"), el("h4", "ltx_subtitle"), el("span", "ltx_title"), el("h5", "ltx_title ltx_title_theorem"), el("h1", "ltx_title"),
    el("div", "ltx_abstract"), el("div", "ltx_abstract"), el("section", "ltx_abstract"), el("p", "ltx_p"), el("p", "ltx_p"), el("p", "ltx_indent ltx_p"), el("p", ""), el("span", "ltx_p"),
    el("div", "ltx_keywords"), el("span", "ltx_keywords"), el("div", "ltx_classification"), el("div", "ltx_acknowledgement"), el("div", "ltx_acknowledgements"), el("p", "ltx_acknowledgement"),
    el("figcaption", "ltx_caption"), el("figcaption", "ltx_caption ltx_centering"), el("div", "ltx_caption"), el("figcaption", ""), el("figure", "ltx_figure"),
    el("span", "ltx_ERROR undefined"), el("span", "ltx_ERROR"), el("div", "ltx_ERROR"), el("span", "error"),
    el("a", "ltx_ref"), el("span", "ltx_ref ltx_ref_self"), el("a", "ltx_ref ltx_href"), el("a", "ltx_bibref"), el("cite", "ltx_ref"), el("span", "ltx_ref_self"), el("a", ""), el("span", "ltx_reference"),
    el("div", "ltx_keywords ltx_para"), el("div", "ltx_para ltx_acknowledgement"), el("div", "ltx_para ltx_keywords"), el("div", "ltx_abstract ltx_para"), el("div", "ltx_abstract ltx_keywords"),
    el("math", "ltx_Math"), el("math", ""), el("table", "ltx_equation"), el("em", "ltx_emph"), el("section", "ltx_section"), el("svg", ""), el("text", "ltx_text"),
  ];
  let any_pair = (or_name(pick(&["div", "p", "span", "h1", "h2", "h6", "figcaption", "math", "a", "section"])), or_such(pick(&["ltx_para", "ltx_p", "ltx_title", "ltx_ERROR", "ltx_abstract", "ltx_keywords", "ltx_acknowledgement", "ltx_caption", "ltx_ref", "ltx_theorem"]), no_reference))
    .prop_map(|(n, c)| if n == "p" && c == "ltx_para" { (n, "ltx_p".to_string()) } else { (n, c) });
  let kind = prop_oneof![5 => vcommon::proptest::sample::select(likely), 1 => any_pair];
  // further classes at either end (a reference keeps its class first) and the blanks between them
  let extra = || or_such(pick(&["ltx_centering", "ltx_align_right", "ltx_font_bold", "ltx_role_x", "S1.p1", "\u{e9}", "ltx_keywords", "ltx_acknowledgement", "ltx_abstract", "ltx_caption", "ltx_title"]), no_reference);
  let more = prop_oneof![6 => Just(None), 2 => (extra(), any::<bool>(), pick(&[" ", "  "])).prop_map(Some)];
  (kind, more, prop::option::weighted(0.2, pick(&["S1", "p2"])))
    .prop_map(|((n, c), more, id)| {
      let mut a = Vec::new();
      let c = match more {
        None => c,
        Some((m, _, _)) if c.is_empty() => m,
        Some((m, true, b)) if !c.contains("ltx_ref") => m + &b + &c,
        Some((m, _, b)) => c + &b + &m,
      };
      if !c.is_empty() {
        a.push(("class".to_string(), c));
      }
      if let Some(i) = id {
        a.push(("id".to_string(), i));
      }
      (n, a)
    })
    .boxed()
}
/// a reference keeps its class first, and no paragraph is a p
fn no_reference(s: &str) -> bool {
  // (names that only contain one of the selectors' classes are not decided)
  let selectors = ["ltx_p", "ltx_title", "ltx_ERROR", "ltx_abstract", "ltx_keywords", "ltx_acknowledgement", "ltx_caption", "ltx_ref", "ltx_theorem"];
  !s.is_empty() && !s.chars().any(|c| c.is_whitespace() || c < ' ') && (!selectors.iter().any(|k| s.contains(k)) || (selectors.contains(&s) && s != "ltx_ref"))
}
fn words_text() -> BoxedStrategy<String> {
  let w = or_text(pick(&["We", "prove", "the", "theorem", "Let", "lemma", "don't", "Élan", "привет", "x", "42", "cf", "Dr", "mathformula", "I", "naïve", "Thus", "ß"]));
  let end = pick(&[" ", " ", " ", ". ", ".\n", "? ", ": ", ", ", "\n\n", " (", ") ", " 'tis ", "…"]);
  prop_oneof![
    6 => vec((w, end), 0..8).prop_map(|v| v.into_iter().map(|(a, b)| a + &b).collect()),
    1 => pick(&["", " ", "\n", ".", "\u{a0}"]),
  ]
  .boxed()
}
fn node(depth: u32, size: u32, width: usize) -> BoxedStrategy<T> {
  let leaf = prop_oneof![
    6 => words_text().prop_map(T::X),
    1 => pick(&[" c ", "ltx_ERROR"]).prop_map(T::C),
    2 => structure().prop_map(|(n, a)| T::E(n, a, vec![])),
  ];
  leaf
    .prop_recursive(depth, size, width as u32, move |inner| {
      prop_oneof![4 => (structure(), vec(inner, 0..=width)).prop_map(|((n, a), k)| T::E(n, a, k)), 1 => words_text().prop_map(T::X)]
    })
    .boxed()
}
/// a paragraph of prose with inline markup
fn paragraph() -> BoxedStrategy<T> {
  let inline = prop_oneof![
    6 => words_text().prop_map(T::X),
    1 => Just(e("math", &[("class", "ltx_Math"), ("alttext", "x")], vec![e("mi", &[], vec![x("x")])])),
    1 => Just(e("cite", &[("class", "ltx_cite")], vec![e("a", &[("class", "ltx_ref")], vec![x("1")])])),
    1 => words_text().prop_map(|t| e("em", &[("class", "ltx_emph")], vec![x(&t)])),
    1 => Just(e("a", &[("class", "ltx_ref"), ("href", "#S1")], vec![x("1")])),
    1 => words_text().prop_map(|t| e("span", &[("class", "ltx_note")], vec![x(&t)])),
  ];
  prop_oneof![
    12 => vec(inline.clone(), 1..6).prop_map(|k| e("div", &[("class", "ltx_para")], vec![e("p", &[("class", "ltx_p")], k)])),
    1 => vec(inline, 1..6).prop_map(|mut k| { k.push(e("span", &[("class", "ltx_ERROR undefined")], vec![x("\\foo")])); e("div", &[("class", "ltx_para")], vec![e("p", &[("class", "ltx_p")], k)]) }),
  ]
  .boxed()
}
/// the XHTML namespace (`None`), none at all, or elements in several, some of them with a prefix
fn namespaces() -> BoxedStrategy<Option<dnmgen::Namespaces>> { prop_oneof![1 => Just(None), 2 => dnmgen::namespaces().prop_map(Some)].boxed() }
fn finish(body: Vec<T>) -> T {
  let mut t = T::E("html".into(), vec![], vec![T::E("body".into(), vec![], body)]);
  dnmgen::number_ids(&mut t, &mut 0);
  t
}
/// documents for selection
pub fn document(t: Tier) -> BoxedStrategy<DocCase> {
  let (depth, size, width) = if t == Tier::Quick { (4, 24, 5) } else { (6, 60, 7) };
  (vec(node(depth, size, width), 1..7), any::<bool>(), namespaces()).prop_map(|(b, xml, ns)| DocCase::of(finish(b), xml, &ns)).boxed()
}
/// documents of paragraphs, headings and captions
pub fn article(t: Tier) -> BoxedStrategy<DocCase> {
  let n = if t == Tier::Quick { 6 } else { 14 };
  let block = prop_oneof![
    6 => paragraph(),
    1 => words_text().prop_map(|t| e("h2", &[("class", "ltx_title ltx_title_section")], vec![x(&t)])),
    1 => words_text().prop_map(|t| e("figcaption", &[("class", "ltx_caption")], vec![x(&t)])),
    1 => words_text().prop_map(|t| e("div", &[("class", "ltx_abstract")], vec![e("p", &[("class", "ltx_p")], vec![x(&t)])])),
    1 => words_text().prop_map(|t| e("div", &[("class", "ltx_keywords")], vec![x(&t)])),
    1 => words_text().prop_map(T::X),
  ];
  let sectioned = (any::<bool>(), vec(block, 1..n)).prop_map(|(s, k)| if s { vec![e("section", &[("class", "ltx_section")], k)] } else { k });
  (sectioned, any::<bool>(), namespaces()).prop_map(|(b, xml, ns)| DocCase::of(finish(b), xml, &ns)).boxed()
}

pub fn props() -> Vec<Prop> {
  let sel = |t: Tier| {
    let name = || pick(&["p", "div", "span", "h2", "math", "a", "section", "zzz"]);
    let query = prop_oneof![
      name().prop_map(Query::Name),
      pick(&["ltx_para", "ltx_", "ltx_ref", "x"]).prop_map(Query::Class),
      Just(Query::WithId),
      Just(Query::AllText),
      name().prop_map(Query::ParentsOf),
      name().prop_map(Query::Before),
      (name(), name()).prop_map(|(a, b)| Query::Either(a, b)),
      pick(&["//*[", "count(//*)", "//zzz", "'text'", ""]).prop_map(Query::Nothing),
    ];
    let filter = prop_oneof![
      Just(Filter::All),
      Just(Filter::None),
      name().prop_map(Filter::Name),
      pick(&["ltx_para", "ltx_"]).prop_map(Filter::HasClass),
      pick(&["the", "lemma", "e"]).prop_map(Filter::Text),
      Just(Filter::Leaf),
    ];
    (prop_oneof![3 => document(t), 1 => article(t)], query, filter).prop_map(|(doc, query, filter)| SelCase { doc, query, filter }).boxed()
  };
  let iter = |t: Tier| {
    let doc = prop_oneof![3 => article(t), 1 => document(t)];
    (doc, prop::option::weighted(0.5, dnmgen::params()), prop::bool::weighted(0.8)).prop_map(|(doc, par, pos)| IterCase { doc, par, pos }).boxed()
  };
  let large_sel = move |t: Tier| (sel(t), dnmgen::blow()).boxed();
  let together = |_t: Tier| (vec(article(Tier::Quick).boxed(), 2..5), vec(any::<u8>(), 0..30), any::<bool>()).prop_map(|(docs, turns, pos)| Together { docs, turns, pos }).boxed();
  let large_iter = move |t: Tier| (iter(t), dnmgen::blow()).boxed();
  vec![
    Prop {
      id: "P11",
      rule: "generated LaTeXML-like documents (HTML and XHTML, with and without namespace), selections compared with an independent tree walk; non-trivial: paragraphs, extended paragraphs and headings are selected",
      assumptions: vec![
        "class names that merely contain another class's name as a substring are not generated where that would decide a selection",
        "ltx_ref is generated as the first of its classes (as LaTeXML does)",
      ],
      subs: vec![
        sub("selectors", (8_000, 120_000), "nested paragraphs, titles, abstracts, captions, references, errors and near misses", sel, check_select),
        sub("large", (40, 600), "the same on long texts, many siblings and deep nesting", large_sel, |l: &(SelCase, dnmgen::Blow), ctx| {
          dnmgen::large_labels(&l.1, ctx);
          let mut c = l.0.clone();
          c.doc.doc = l.1.apply(&c.doc.doc);
          check_select(&c, ctx)
        }),
        enumerate("huge", dnmgen::HUGE, dnmgen::huge, |k: &(u8, u32), ctx| {
          on_worker_stack(|ctx| check_select(&SelCase { doc: DocCase::of(dnmgen::huge_document(*k), true, &None), query: Query::Name("em".into()), filter: Filter::Leaf }, ctx), ctx)
        }),
      ],
    },
    Prop {
      id: "P12",
      rule: "generated articles; iterators compared with tokenizing the selected nodes by hand; non-trivial: at least two paragraphs, several sentences, several words",
      assumptions: vec!["the tagger is a test double with deterministic words and tags"],
      subs: vec![
        sub("iterators", (2_500, 40_000), "articles with inline markup and any Unicode; document parameters varied", iter, check_iter),
        sub("large", (25, 400), "the same on long texts, many siblings and deep nesting", large_iter, |l: &(IterCase, dnmgen::Blow), ctx| {
          dnmgen::large_labels(&l.1, ctx);
          let mut c = l.0.clone();
          c.doc.doc = l.1.apply(&c.doc.doc);
          check_iter(&c, ctx)
        }),
        enumerate("huge", dnmgen::HUGE, dnmgen::huge, |k: &(u8, u32), ctx| {
          on_worker_stack(|ctx| check_iter(&IterCase { doc: DocCase::of(dnmgen::huge_document(*k), true, &None), par: None, pos: false }, ctx), ctx)
        }),
        sub("together", (800, 15_000), "the iterators of two to four documents, advanced in turns", together, check_together),
      ],
    },
  ]
}
