//! Test double for `jwalk` 0.4: a directory walk with the same builder and entries. Hidden entries
//! are skipped on request; with `sort(false)` the order of the entries is unspecified, and here it
//! follows a programmable permutation seed, so that checks can vary it.
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static ORDER: AtomicU64 = AtomicU64::new(0);
/// vary the order of unsorted walks (test double only)
pub fn set_order_seed(seed: u64) { ORDER.store(seed, Ordering::SeqCst) }

static FAULTS: AtomicU64 = AtomicU64::new(0);
/// other than 0: report errors between the entries, at positions that depend on the seed (test double only)
pub fn set_faults(seed: u64) { FAULTS.store(seed, Ordering::SeqCst) }

/// A walk builder
pub struct WalkDir {
  root: PathBuf,
  hidden: bool,
  sort: bool,
  depth: usize,
}
/// One entry
#[derive(Debug)]
pub struct DirEntry {
  /// depth from the root
  pub depth: usize,
  /// name
  pub file_name: OsString,
  /// type
  pub file_type: Result<std::fs::FileType, std::io::Error>,
  path: PathBuf,
}
impl DirEntry {
  /// full path
  pub fn path(&self) -> PathBuf { self.path.clone() }
  /// depth from the root
  pub fn depth(&self) -> usize { self.depth }
  /// name
  pub fn file_name(&self) -> &std::ffi::OsStr { &self.file_name }
}
impl WalkDir {
  /// Walk from `root`
  pub fn new<P: AsRef<Path>>(root: P) -> WalkDir {
    WalkDir { root: root.as_ref().to_path_buf(), hidden: true, sort: false, depth: usize::MAX }
  }
  /// number of threads (unused here)
  pub fn num_threads(self, _n: usize) -> Self { self }
  /// do not go below this depth
  pub fn max_depth(mut self, depth: usize) -> Self {
    self.depth = depth;
    self
  }
  /// read the metadata while walking (nothing to do here)
  pub fn preload_metadata(self, _preload: bool) -> Self { self }
  /// skip hidden entries?
  pub fn skip_hidden(mut self, skip: bool) -> Self {
    self.hidden = skip;
    self
  }
  /// sort the entries by name?
  pub fn sort(mut self, sort: bool) -> Self {
    self.sort = sort;
    self
  }
}
fn walk(out: &mut Vec<Result<DirEntry, std::io::Error>>, path: PathBuf, depth: usize, opts: (bool, bool, usize)) {
  let name = path.file_name().map(|n| n.to_os_string()).unwrap_or_else(|| path.clone().into_os_string());
  let meta = match std::fs::symlink_metadata(&path) {
    Err(e) => {
      out.push(Err(e));
      return;
    },
    Ok(m) => m,
  };
  let is_dir = meta.is_dir() || (depth == 0 && path.is_dir());
  out.push(Ok(DirEntry { depth, file_name: name, file_type: Ok(meta.file_type()), path: path.clone() }));
  if is_dir && depth < opts.2 {
    match std::fs::read_dir(&path) {
      Err(e) => out.push(Err(e)),
      Ok(rd) => {
        let mut children: Vec<OsString> = rd.filter_map(|e| e.ok()).map(|e| e.file_name()).collect();
        children.sort();
        if !opts.1 {
          let mut s = ORDER.load(Ordering::SeqCst);
          for i in (1..children.len()).rev() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let j = (s >> 33) as usize % (i + 1);
            children.swap(i, j);
          }
        }
        for c in children {
          if opts.0 && c.to_string_lossy().starts_with('.') {
            continue;
          }
          walk(out, path.join(c), depth + 1, opts);
        }
      },
    }
  }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry, std::io::Error>;
  type IntoIter = std::vec::IntoIter<Result<DirEntry, std::io::Error>>;
  fn into_iter(self) -> Self::IntoIter {
    let mut out = Vec::new();
    walk(&mut out, self.root, 0, (self.hidden, self.sort, self.depth));
    let mut s = FAULTS.load(Ordering::SeqCst);
    if s != 0 {
      let one_in = 2 + s % 6;
      let mut all = Vec::with_capacity(out.len() + out.len() / 2 + 1);
      for entry in out {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if (s >> 33) % one_in == 0 {
          all.push(Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "injected: unreadable directory")));
        }
        all.push(entry);
      }
      out = all;
    }
    out.into_iter()
  }
}
