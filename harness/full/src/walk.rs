//! P13 the sequential corpus walk, P14 the parallel catalog walks.
use libxml::parser::Parser;
use llamapun::parallel_data as par;
use llamapun::data;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::tree::*;
use vcommon::{ensure, ensure_eq};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Content {
  /// a document whose text is the words
  Words(Vec<String>),
  /// tells the HTML parser from the XML parser
  Telling(String),
  /// an empty file
  Empty,
  /// any bytes
  Bytes(Vec<u8>),
  /// not a file but a directory of that name
  Dir,
  /// a symbolic link to nowhere
  Dangling,
  /// a symbolic link to a document outside the corpus
  Link(String),
  /// a symbolic link to a directory: the corpus itself, or one with documents outside the corpus
  DirLink(bool),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Layout {
  files: Vec<(Vec<String>, String, Content)>,
  dirs: Vec<Vec<String>>,
  extension: Option<String>,
  /// how the base directory is written
  base: u8,
  /// number of names that are not UTF-8 (directories with a document, documents) put into directories
  #[serde(default)]
  foreign: u8,
}
fn words_doc(w: &[String]) -> String { format!("<html><head><meta charset=\"utf-8\"/></head><body><p>{}</p></body></html>", w.join(" ")) }
fn telling_doc(w: &str) -> String { format!("<html><body><DIV>{w}<br></br></DIV><p/>after</body></html>") }

/// the working directory, restored when dropped
struct Within(PathBuf);
impl Within {
  fn enter(d: &Path) -> Within {
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(d).unwrap();
    Within(old)
  }
}
impl Drop for Within {
  fn drop(&mut self) { std::env::set_current_dir(&self.0).unwrap() }
}
struct Laid {
  /// some corpora are given by a relative path
  _within: Option<Within>,
  base: PathBuf,
  /// as given to the corpus
  given: String,
  /// path, content; as the walk should show them
  files: Vec<(PathBuf, Content)>,
}
fn lay(c: &Layout, name: &str) -> Laid {
  let outer = scratch_dir().join(name);
  let _ = std::fs::remove_dir_all(&outer);
  let base = outer.join("corpus");
  std::fs::create_dir_all(&base).unwrap();
  std::fs::create_dir_all(outer.join("outside")).unwrap();
  std::fs::write(outer.join("outside/outside.html"), words_doc(&["outside".into()])).unwrap();
  let given = match c.base {
    1 => format!("{}/", base.display()),
    2 => format!("{}/../corpus", base.display()),
    3 => "corpus".to_string(),
    4 => ".".to_string(),
    _ => base.display().to_string(),
  };
  for d in &c.dirs {
    let _ = std::fs::create_dir_all(d.iter().fold(base.clone(), |p, s| p.join(s)));
  }
  let mut files = Vec::new();
  for (d, n, content) in &c.files {
    let dir = d.iter().fold(base.clone(), |p, s| p.join(s));
    // not through a link
    let through_link = dir.ancestors().take_while(|a| *a != base).any(|a| a.symlink_metadata().is_ok_and(|m| m.is_symlink()));
    if through_link || std::fs::create_dir_all(&dir).is_err() {
      continue;
    }
    let p = dir.join(n);
    if p.symlink_metadata().is_ok() {
      continue;
    }
    match content {
      Content::Words(w) => std::fs::write(&p, words_doc(w)).unwrap(),
      Content::Telling(w) => std::fs::write(&p, telling_doc(w)).unwrap(),
      Content::Empty => std::fs::write(&p, "").unwrap(),
      Content::Bytes(b) => std::fs::write(&p, b).unwrap(),
      Content::Dir => std::fs::create_dir(&p).unwrap(),
      Content::Dangling => std::os::unix::fs::symlink(outer.join("nowhere"), &p).unwrap(),
      Content::DirLink(outside) => std::os::unix::fs::symlink(if *outside { outer.join("outside") } else { base.clone() }, &p).unwrap(),
      Content::Link(w) => {
        let t = outer.join("outside").join(format!("t{}.html", files.len()));
        std::fs::write(&t, words_doc(std::slice::from_ref(w))).unwrap();
        std::os::unix::fs::symlink(&t, &p).unwrap();
      },
    }
    files.push((d.iter().fold(PathBuf::from(&given), |p, s| p.join(s)).join(n), content.clone()));
  }
  // names that are not UTF-8: nothing is said about these, but they hide nothing else
  let mut dirs: Vec<PathBuf> = std::iter::once(base.clone()).chain(files.iter().map(|f| base.join(f.0.strip_prefix(&given).unwrap().parent().unwrap()))).collect();
  dirs.dedup();
  for i in 0..c.foreign {
    use std::os::unix::ffi::OsStrExt;
    let d = &dirs[usize::from(i) % dirs.len()];
    let name = |b: &[u8]| d.join(std::ffi::OsStr::from_bytes(b));
    match i % 3 {
      0 => {
        let dir = name(b"\xff\xfedir");
        let _ = std::fs::create_dir(&dir);
        std::fs::write(dir.join("in.html"), words_doc(&["foreign".into()])).unwrap();
        std::fs::write(dir.join("in.xhtml"), words_doc(&["foreign".into()])).unwrap();
      },
      1 => std::fs::write(name(b"\xe9.html"), words_doc(&["foreign".into()])).unwrap(),
      _ => std::fs::write(name(b"\x80.txt"), "").unwrap(),
    }
  }
  let _within = match c.base {
    3 => Some(Within::enter(&outer)),
    4 => Some(Within::enter(&base)),
    _ => None,
  };
  Laid { _within, base: outer, given, files }
}
fn chosen(name: &str, extension: &Option<String>) -> bool {
  match extension {
    Some(e) => name.ends_with(e.as_str()),
    None => name.ends_with(".html") || name.ends_with(".xhtml"),
  }
}
fn name_of(p: &Path) -> &str { p.file_name().unwrap().to_str().unwrap() }
/// a readable form of a DOM: names and texts
fn shape(s: &Snap) -> String {
  match s.kind {
    Kind::Text => format!("{:?}", s.text),
    Kind::Elem => format!("<{}>{}</>", s.name, s.kids.iter().map(shape).collect::<String>()),
    _ => "?".into(),
  }
}
fn shape_of(d: &libxml::tree::Document) -> String { d.get_root_readonly().map(|r| shape(&Snap::of(r))).unwrap_or_default() }

/// a document whose name is not UTF-8
fn foreign(path: &str) -> bool { path.is_empty() || path.contains('\u{fffd}') }

fn check_walk(c: &Layout, ctx: &mut Ctx) -> Res {
  let laid = lay(c, "walk");
  let mut corpus = data::Corpus::new(laid.given.clone());
  corpus.extension = c.extension.clone();
  // what must be there, and what may be there (content that may or may not be a document)
  let mut must: BTreeMap<PathBuf, String> = BTreeMap::new();
  let mut may: BTreeMap<PathBuf, String> = BTreeMap::new();
  let mut hiding = 0;
  for (p, content) in laid.files.iter().filter(|(p, _)| chosen(name_of(p), &c.extension)) {
    let parser = if name_of(p).ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
    match content {
      Content::Words(_) | Content::Telling(_) | Content::Link(_) => {
        must.insert(p.clone(), shape_of(&parser.parse_file(p.to_str().unwrap()).unwrap()));
      },
      Content::Empty | Content::Bytes(_) => match parser.parse_file(p.to_str().unwrap()) {
        Ok(d) => {
          may.insert(p.clone(), shape_of(&d));
        },
        Err(_) => hiding += 1,
      },
      Content::Dir | Content::Dangling | Content::DirLink(_) => hiding += 1,
    }
  }
  let mut got: Vec<(PathBuf, String)> = Vec::new();
  let mut it = corpus.iter();
  for d in it.by_ref().take(laid.files.len() + 1000) {
    if !foreign(&d.path) {
      got.push((PathBuf::from(&d.path), shape_of(&d.dom)));
    }
  }
  ensure!(it.next().is_none(), "endless", "the walk goes on after its end");
  let mut count: BTreeMap<&PathBuf, usize> = BTreeMap::new();
  for (p, s) in &got {
    *count.entry(p).or_default() += 1;
    let want = must.get(p).or_else(|| may.get(p));
    ensure!(want.is_some(), "unexpected", "the walk yields {p:?}");
    ensure_eq!(*s, *want.unwrap(), "content", "DOM of {p:?}");
    ensure_eq!(count[p], 1, "twice", "number of visits of {p:?}");
  }
  for p in must.keys() {
    ensure!(count.contains_key(p), "hidden", "the walk misses {p:?} (it visited {:?})", got.iter().map(|g| name_of(&g.0)).collect::<Vec<_>>());
  }
  // one at a time
  for (p, s) in &got {
    match corpus.load_doc(p.to_str().unwrap().to_string()) {
      Err(e) => vcommon::fail!("load", "load_doc of {p:?} fails: {e:?}"),
      Ok(d) => {
        ensure_eq!(shape_of(&d.dom), *s, "load-content", "DOM of {p:?} loaded alone");
        ensure_eq!(d.path, p.to_str().unwrap().to_string(), "load-path", "path of the loaded document");
      },
    }
  }
  for missing in ["missing.html", "missing.xhtml", "none/x.html"] {
    ensure!(corpus.load_doc(format!("{}/{missing}", laid.given)).is_err(), "missing", "loading {missing} is no error");
  }
  if laid.files.len() < 100 {
    check_again(c, &laid, &mut corpus, &got)?;
  }
  let _ = std::fs::remove_dir_all(&laid.base);
  ctx.nontrivial(must.len() >= 2 && laid.files.len() > must.len());
  ctx.label_if(hiding > 0, "something that is no document has the extension");
  ctx.label_if(c.extension.is_some(), "custom extension");
  ctx.label_if(must.keys().any(|p| name_of(p).ends_with(".xhtml")), "XHTML");
  ctx.label_if(laid.files.iter().any(|f| f.1 == Content::Empty), "empty file");
  Ok(())
}

/// the same corpus again: after a walk that was given up, with all documents held, and after the tree changed
fn check_again(c: &Layout, laid: &Laid, corpus: &mut data::Corpus, got: &[(PathBuf, String)]) -> Res {
  let sorted = |mut v: Vec<(PathBuf, String)>| {
    v.sort();
    v
  };
  let want = sorted(got.to_vec());
  let given_up = corpus.iter().filter(|d| !foreign(&d.path)).take(got.len() / 2).count();
  ensure_eq!(given_up, got.len() / 2, "given-up", "documents before giving up");
  let held: Vec<data::Document> = corpus.iter().filter(|d| !foreign(&d.path)).take(laid.files.len() + 1000).collect();
  let second = sorted(held.iter().map(|d| (PathBuf::from(&d.path), shape_of(&d.dom))).collect());
  ensure_eq!(second, want, "second-walk", "documents of a second walk, all held at once");
  drop(held);
  // a document more, beside every document so far
  let name = format!("zz-new{}", c.extension.as_deref().unwrap_or(".html"));
  let mut more = want.clone();
  for (p, _) in got {
    let new = p.with_file_name(&name);
    if new.exists() {
      continue;
    }
    std::fs::write(&new, words_doc(&["more".to_string()])).unwrap();
    let parser = if name.ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
    more.push((new.clone(), shape_of(&parser.parse_file(new.to_str().unwrap()).unwrap())));
  }
  if let Some((p, _)) = got.first() {
    // and one less (a link is removed, not what it points to)
    std::fs::remove_file(p).unwrap();
    more.retain(|m| m.0 != *p);
  }
  let third = sorted(corpus.iter().filter(|d| !foreign(&d.path)).take(2 * laid.files.len() + 1000).map(|d| (PathBuf::from(&d.path), shape_of(&d.dom))).collect());
  ensure_eq!(third, sorted(more), "changed-tree", "documents of a walk after the tree changed");
  if let Some((p, s)) = got.first() {
    ensure!(corpus.load_doc(p.to_str().unwrap().to_string()).is_err(), "removed", "a removed document loads");
    if !s.is_empty() {
      std::fs::write(p, words_doc(&["changed".to_string()])).unwrap();
      let parser = if p.to_str().unwrap().ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
      let want = shape_of(&parser.parse_file(p.to_str().unwrap()).unwrap());
      let d = corpus.load_doc(p.to_str().unwrap().to_string()).ok().map(|d| shape_of(&d.dom));
      ensure_eq!(d, Some(want), "rewritten", "a document that was rewritten since it was last loaded");
    }
  }
  Ok(())
}

// ---- catalogs --------------------------------------------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Par {
  layout: Layout,
  threads: usize,
  order: u64,
  /// some of the closures dawdle
  dawdle: u64,
  /// errors the walk reports between its entries
  #[serde(default)]
  faults: u64,
}
/// keys that any closure may use: blank, with blanks around, in another case, long; counts of 0 and huge ones
fn odd_keys(path: &str, n: u64, salt: u64) -> HashMap<String, u64> {
  let mut m = HashMap::new();
  let h = hash_bytes(path.rsplit('/').next().unwrap().as_bytes()) ^ salt;
  for (i, k) in ["", " ", "a", "a ", " a", "A", "\u{e9}", "e\u{301}", "a\n", "a\tb", "\0", "key_count", "0"].iter().enumerate() {
    match (h >> (3 * i)) & 7 {
      0 | 1 | 2 => continue,
      3 => m.insert(k.to_string(), 0),
      4 => m.insert(k.to_string(), 1),
      5 => m.insert(k.to_string(), n),
      // sums beyond 32 and beyond 53 bits (small enough for 2000 documents)
      6 => m.insert(k.to_string(), (1 << 33) + h % 3),
      7 if i == 2 => m.insert(k.to_string(), (1 << 53) + h % 5),
      _ => m.insert(k.repeat(40), 7),
    };
  }
  // now and then one that the code compares with
  if h % 7 == 0 {
    m.extend(vcommon::gen::some_literal(h).map(|k| (k, h >> 50)));
  }
  m
}
fn tally(words: &[String]) -> HashMap<String, u64> {
  let mut m = HashMap::new();
  for w in words {
    *m.entry(w.clone()).or_insert(0) += 1;
  }
  m
}
fn read_words(d: &par::Document) -> Vec<String> { dom_words(&d.dom) }
fn dom_words(d: &libxml::tree::Document) -> Vec<String> {
  d.get_root_readonly().map(|r| r.get_content()).unwrap_or_default().split_whitespace().map(|s| s.to_string()).collect()
}
fn lengths(words: &[String]) -> HashMap<String, u64> {
  let mut m = HashMap::new();
  for w in words {
    *m.entry(format!("len{}", w.len())).or_insert(0) += w.len() as u64;
  }
  m
}
fn add(a: &mut BTreeMap<String, u64>, b: HashMap<String, u64>) {
  for (k, v) in b {
    *a.entry(k).or_default() += v;
  }
}
fn merged(mut a: HashMap<String, u64>, b: HashMap<String, u64>) -> HashMap<String, u64> {
  for (k, v) in b {
    *a.entry(k).or_insert(0) += v;
  }
  a
}
fn check_catalog(c: &Par, ctx: &mut Ctx) -> Res {
  let laid = lay(&c.layout, "catalog");
  run_catalog(c, laid, ctx)
}
fn run_catalog(c: &Par, laid: Laid, ctx: &mut Ctx) -> Res {
  jwalk::set_order_seed(c.order);
  jwalk::set_faults(c.faults);
  let mut corpus = par::Corpus::new(laid.given.clone());
  corpus.extension = c.layout.extension.clone();
  let visible = |p: &Path| !p.strip_prefix(&laid.given).unwrap().components().any(|s| s.as_os_str().to_str().unwrap().starts_with('.'));
  let mut want1: BTreeMap<String, u64> = BTreeMap::new();
  let mut want2: BTreeMap<String, u64> = BTreeMap::new();
  let mut want_paths: Vec<(String, String)> = Vec::new();
  let mut hidden = 0;
  for (p, content) in laid.files.iter().filter(|(p, _)| chosen(name_of(p), &c.layout.extension)) {
    if !visible(p) {
      hidden += 1;
      continue;
    }
    let path = p.to_str().unwrap();
    let parser = if path.ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
    let words = match content {
      Content::Words(w) => w.clone(),
      Content::Link(w) => vec![w.clone()],
      // (not in UTF-8 for the HTML parser)
      Content::Telling(w) if w.is_ascii() => vec![format!("{w}after")],
      Content::Telling(_) => dom_words(&parser.parse_file(path).unwrap()),
      Content::Empty if !name_of(p).ends_with(".xhtml") => vec![],
      _ => continue,
    };
    add(&mut want1, tally(&words));
    add(&mut want1, odd_keys(path, words.len() as u64, 1));
    add(&mut want2, lengths(&words));
    add(&mut want2, odd_keys(path, words.len() as u64, 2));
    want_paths.push((path.to_string(), shape_of(&parser.parse_file(path).unwrap())));
  }
  want_paths.sort();
  let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().unwrap();
  let seen: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
  let visit = |d: &par::Document| {
    let n = hash_bytes(d.path.as_bytes()) ^ c.dawdle;
    if c.dawdle > 0 && n % 3 == 0 {
      std::thread::sleep(std::time::Duration::from_micros(n % 400));
    }
    let shape = shape_of(&d.dom);
    seen.lock().unwrap().push((d.path.clone(), shape));
  };
  let one = pool.install(|| {
    corpus.catalog_with_parallel_walk(|d| {
      visit(&d);
      let w = read_words(&d);
      merged(tally(&w), odd_keys(&d.path, w.len() as u64, 1))
    })
  });
  let mut paths = std::mem::take(&mut *seen.lock().unwrap());
  paths.sort();
  ensure_eq!(paths, want_paths, "visited", "documents given to the closure");
  ensure_eq!(one.into_iter().collect::<BTreeMap<_, _>>(), want1, "catalog", "merged catalog");
  let (two1, two2) = pool.install(|| {
    corpus.catalogs_with_parallel_walk(|d| {
      visit(&d);
      let w = read_words(&d);
      (merged(tally(&w), odd_keys(&d.path, w.len() as u64, 1)), merged(lengths(&w), odd_keys(&d.path, w.len() as u64, 2)))
    })
  });
  let mut paths = std::mem::take(&mut *seen.lock().unwrap());
  paths.sort();
  ensure_eq!(paths, want_paths, "visited-2", "documents given to the two-catalog closure");
  ensure_eq!(two1.into_iter().collect::<BTreeMap<_, _>>(), want1, "catalog-first", "first merged catalog");
  ensure_eq!(two2.into_iter().collect::<BTreeMap<_, _>>(), want2, "catalog-second", "second merged catalog");
  if laid.files.len() < 100 && c.order % 2 == 0 {
    check_simultaneous(c, &corpus, &want1, &want2)?;
    ctx.label("several walks at the same time");
  }
  let _ = std::fs::remove_dir_all(&laid.base);
  ctx.nontrivial(want_paths.len() >= 3 && want1.values().any(|v| *v > 1) && c.threads > 1);
  ctx.label_if(hidden > 0, "hidden document");
  ctx.label_if(c.layout.extension.is_some(), "custom extension");
  ctx.label_if(c.faults != 0, "the walk reports errors");
  ctx.label_if(c.threads == 1, "one thread");
  ctx.label_if(laid.files.iter().any(|f| matches!(f.1, Content::Dir | Content::Dangling | Content::Empty)), "something that is no document");
  Ok(())
}
/// walks of one corpus at the same time, one of them by a second corpus object
fn check_simultaneous(c: &Par, corpus: &par::Corpus, want1: &BTreeMap<String, u64>, want2: &BTreeMap<String, u64>) -> Res {
  let mut second = par::Corpus::new(corpus.path.clone());
  second.extension = corpus.extension.clone();
  type Two = (BTreeMap<String, u64>, Option<BTreeMap<String, u64>>);
  let walk = |corpus: &par::Corpus, two: bool, threads: usize| -> Two {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    pool.install(|| {
      if two {
        let (a, b) = corpus.catalogs_with_parallel_walk(|d| {
          let w = read_words(&d);
          (merged(tally(&w), odd_keys(&d.path, w.len() as u64, 1)), merged(lengths(&w), odd_keys(&d.path, w.len() as u64, 2)))
        });
        (a.into_iter().collect(), Some(b.into_iter().collect()))
      } else {
        let a = corpus.catalog_with_parallel_walk(|d| {
          let w = read_words(&d);
          merged(tally(&w), odd_keys(&d.path, w.len() as u64, 1))
        });
        (a.into_iter().collect(), None)
      }
    })
  };
  let (walk, second) = (&walk, &second);
  let results: Vec<Two> = std::thread::scope(|s| {
    let jobs: Vec<_> = (0..3).map(|i| s.spawn(move || walk(if i == 2 { second } else { corpus }, (c.order >> i) & 2 == 0, c.threads))).collect();
    jobs.into_iter().map(|j| j.join()).collect::<Result<_, _>>()
  })
  .unwrap_or_else(|e| std::panic::resume_unwind(e));
  for (i, (a, b)) in results.iter().enumerate() {
    ensure_eq!(a, want1, "simultaneous", "catalog of walk {i} of three at the same time");
    if let Some(b) = b {
      ensure_eq!(b, want2, "simultaneous-second", "second catalog of walk {i} of three at the same time");
    }
  }
  Ok(())
}
/// a tree from which directories and files disappear while it is walked
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Vanish {
  layout: Layout,
  /// after this many documents, the directory (or file) with this number disappears
  gone: Vec<(usize, usize, bool)>,
}
fn check_vanish(c: &Vanish, ctx: &mut Ctx) -> Res {
  let laid = lay(&c.layout, "vanish");
  let mut corpus = data::Corpus::new(laid.given.clone());
  corpus.extension = c.layout.extension.clone();
  let must: Vec<&PathBuf> = laid.files.iter().filter(|(p, k)| chosen(name_of(p), &c.layout.extension) && matches!(k, Content::Words(_) | Content::Link(_) | Content::Telling(_))).map(|f| &f.0).collect();
  // directories below the base
  let mut dirs: Vec<PathBuf> = laid.files.iter().flat_map(|(p, _)| p.ancestors().skip(1).take_while(|a| *a != Path::new(&laid.given) && a.starts_with(&laid.given)).map(|a| a.to_path_buf()).collect::<Vec<_>>()).collect();
  dirs.sort();
  dirs.dedup();
  let mut lost: Vec<PathBuf> = Vec::new();
  let mut got: Vec<PathBuf> = Vec::new();
  let mut it = corpus.iter();
  let mut after = 0;
  loop {
    for (when, which, dir) in &c.gone {
      if *when == got.len() {
        let list: Vec<&PathBuf> = if *dir { dirs.iter().collect() } else { laid.files.iter().map(|f| &f.0).collect() };
        if list.is_empty() {
          continue;
        }
        let p = list[which % list.len()].clone();
        // nothing outside the scratch directory
        assert!(p.starts_with(&laid.given) && laid.given.contains("vanish"));
        let meta = p.symlink_metadata();
        if meta.is_ok_and(|m| m.is_dir()) {
          let _ = std::fs::remove_dir_all(&p);
        } else {
          let _ = std::fs::remove_file(&p);
        }
        lost.push(p);
      }
    }
    match it.next() {
      Some(d) if foreign(&d.path) => continue,
      Some(d) => {
        after += usize::from(!lost.is_empty());
        got.push(PathBuf::from(&d.path));
      },
      None => break,
    }
    ensure!(got.len() <= laid.files.len(), "endless", "the walk goes on after its end");
  }
  for p in must {
    let n = got.iter().filter(|g| *g == p).count();
    if lost.iter().any(|l| p.starts_with(l)) {
      ensure!(n <= 1, "twice", "the walk visits {p:?} {n} times");
    } else {
      ensure_eq!(n, 1, "hidden-by-vanished", "visits of {p:?}, while {lost:?} disappeared");
    }
  }
  let _ = std::fs::remove_dir_all(&laid.base);
  ctx.nontrivial(after > 0);
  ctx.label_if(lost.iter().any(|l| got.iter().any(|g| g.starts_with(l))), "a part that had been (partly) walked");
  ctx.label_if(lost.iter().any(|l| !got.iter().any(|g| g.starts_with(l))), "a part that had not been walked");
  Ok(())
}
/// very many entries: documents, files that are none although they carry the extension, other files
fn check_many_walk(c: &(usize, usize, usize, usize, usize), ctx: &mut Ctx) -> Res {
  let (documents, broken, others, spread, base) = *c;
  let mut files = Vec::new();
  for i in 0..documents.max(broken).max(others) {
    let dir = vec![format!("d{}", i % spread)];
    if i < documents {
      files.push((dir.clone(), format!("{i}.html"), Content::Words(vec![format!("w{}", i % 7)])));
    }
    if i < broken {
      files.push((dir.clone(), format!("b{i}.xhtml"), if i % 5 == 0 { Content::Dangling } else { Content::Bytes(b"<".to_vec()) }));
    }
    if i < others {
      files.push((dir, format!("o{i}.txt"), Content::Words(vec!["other".into()])));
    }
  }
  ctx.label_if(broken > 1000, "many files that are no documents");
  check_walk(&Layout { files, dirs: (0..spread).map(|i| vec![format!("empty{i}")]).collect(), extension: None, base: base as u8, foreign: 0 }, ctx)
}
/// more documents than the walk's progress interval
fn check_many(c: &(usize, usize), ctx: &mut Ctx) -> Res {
  let (n, threads) = *c;
  let files = (0..n).map(|i| (vec![format!("d{}", i % 13)], format!("{i}.html"), Content::Words(vec![format!("w{}", i % 7), "all".into()]))).collect();
  let c = Par { layout: Layout { files, dirs: vec![], extension: None, base: 0, foreign: 0 }, threads, order: n as u64, dawdle: 0, faults: 0 };
  check_catalog(&c, ctx)
}

fn layout(t: Tier, all_kinds: bool) -> BoxedStrategy<Layout> {
  let name = || or_file(pick(&["a", "b", "1001", "x.html", ".hid", "math.0001", "d e", "y.xhtml"]));
  let dir = || prop_oneof![30 => vec(name(), 0..4), 1 => (4usize..40, name(), name()).prop_map(|(n, a, b)| (0..n).map(|i| if i % 3 == 1 { b.clone() } else { a.clone() }).collect())];
  let stem = prop_oneof![6 => or_file(pick(&["doc", "1", "a.b", "math.0001", "x", "é", "a b", "html"])), 1 => pick(&[".hidden", "", "x.html"]), 6 => "[a-z]{1,4}"];
  let ext = prop_oneof![
    12 => pick(&[".html", ".html", ".xhtml"]),
    4 => or_file(pick(&[".htm", ".HTML", ".xml", ".html.gz", ".txt", "", ".html~", ".shtml", ".html5", "html", ".xhtml5", ".XHTML", ".Xhtml"])),
  ];
  let word = || or_such(pick(&["alpha", "beta", "gamma", "delta", "alpha", "Ω", "naïve"]), |s| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric()));
  let good = vec(word(), 0..6).prop_map(Content::Words);
  let content = if all_kinds {
    prop_oneof![
      8 => good,
      4 => word().prop_map(Content::Telling),
      2 => Just(Content::Empty),
      1 => pick(&["<", "<html", "\u{feff}", "<?xml version=\"1.0\"?>", "text only", "<a><b></a>", " "]).prop_map(|s| Content::Bytes(s.into_bytes())),
      1 => vec(any::<u8>(), 0..20).prop_map(Content::Bytes),
      1 => Just(Content::Dir),
      1 => Just(Content::Dangling),
      1 => any::<bool>().prop_map(Content::DirLink),
      1 => word().prop_map(Content::Link),
    ]
    .boxed()
  } else {
    prop_oneof![14 => good, 3 => word().prop_map(Content::Telling), 1 => Just(Content::Empty), 1 => Just(Content::Dir), 1 => Just(Content::Dangling), 1 => any::<bool>().prop_map(Content::DirLink), 1 => word().prop_map(Content::Link)].boxed()
  };
  let file = (dir(), stem, ext, content).prop_map(|(d, s, e, c)| (d, if s.is_empty() && e.is_empty() { "plain".to_string() } else { s + &e }, c));
  let n = if t == Tier::Quick { 10 } else { 25 };
  let extension = prop::option::weighted(0.3, or_file(pick(&[".html", ".xhtml", ".html5", "html5", ".htm", "tml", ".xml", "doc.html", ".zzz", ".XHTML", "HTML", "l5"])));
  (vec(file, 0..n), vec(dir(), 0..3), extension, prop_oneof![6 => 0u8..3, 1 => 3u8..5], prop_oneof![5 => Just(0u8), 1 => 1u8..9])
    .prop_map(|(files, dirs, extension, base, foreign)| Layout { files, dirs, extension, base, foreign })
    .boxed()
}

pub fn props() -> Vec<Prop> {
  let walk = |t: Tier| layout(t, true);
  let vanish = |t: Tier| (layout(t, true), vec((0usize..6, any::<usize>(), prop::bool::weighted(0.7)), 1..4)).prop_map(|(mut layout, gone)| {
    // absolute: what disappears is checked to be in the scratch directory
    layout.base %= 3;
    Vanish { layout, gone }
  }).boxed();
  let catalog = |t: Tier| (layout(t, false), 1usize..9, any::<u64>(), prop_oneof![2 => Just(0u64), 1 => any::<u64>()], prop_oneof![3 => Just(0u64), 1 => any::<u64>()]).prop_map(|(layout, threads, order, dawdle, faults)| Par { layout, threads, order, dawdle, faults }).boxed();
  vec![
    Prop {
      id: "P13",
      rule: "generated directory layouts with documents, near-miss names, unparseable files, directories and links that carry the extension; non-trivial: at least two documents and something else",
      assumptions: vec!["all names are UTF-8 and all directories readable", "what libxml2 makes of arbitrary bytes is taken from libxml2"],
      subs: vec![
        sub("layouts", (3_000, 50_000), "layouts and extensions", walk, check_walk),
        sub("vanishing", (800, 25_000), "directories and files that disappear while the corpus is walked", vanish, check_vanish),
        enumerate("many", "thousands of documents, broken files, other files (documents, broken, others, directories, base)", || vec![(3000, 0, 0, 1, 0), (1, 20_000, 0, 3, 0), (1, 0, 40_000, 2, 1), (1500, 1500, 1500, 400, 0), (2000, 0, 0, 2000, 2), (70_000, 0, 0, 5, 0)], check_many_walk),
      ],
    },
    Prop {
      id: "P14",
      rule: "generated directory layouts, 1 to 8 threads, generated visiting orders and delays; non-trivial: at least three documents, a shared key, several threads",
      assumptions: vec!["jwalk is a test double: same selection of entries, programmable order", "thread interleavings beyond thread count, order and delays are left to the scheduler"],
      subs: vec![
        sub("layouts", (2_000, 40_000), "layouts, thread counts, orders, delays", catalog, check_catalog),
        enumerate("many", "1, 999 to 10500 documents (document count, threads)", || vec![(1, 1), (999, 8), (1001, 1), (1002, 4), (2100, 8), (10_500, 8)], check_many),
      ],
    },
  ]
}
