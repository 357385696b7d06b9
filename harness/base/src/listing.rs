//! P29 the resource listing (a lazy static: one fresh process per case) and P30 the plot
//! (a stand-in `gnuplot` records what it is sent).
use crate::util::plot::plot_simple;
use crate::util::test::RESOURCE_DOCUMENTS;
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};
use vcommon::engine::*;
use vcommon::gen::*;
use vcommon::proptest::collection::vec;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, fail};

/// runs in a child process whose working directory is the scratch tree of one case
pub fn helper(_args: &[String]) -> ! {
  println!("{}", vcommon::serde_json::to_string(&*RESOURCE_DOCUMENTS).unwrap());
  std::process::exit(0)
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Layout {
  /// does ./tests/resources exist?
  present: bool,
  /// (directory below tests/resources, file name)
  files: Vec<(Vec<String>, String)>,
  /// empty directories
  dirs: Vec<Vec<String>>,
}
fn check_listing(c: &Layout, ctx: &mut Ctx) -> Res {
  let base = scratch_dir().join("listing");
  let _ = std::fs::remove_dir_all(&base);
  std::fs::create_dir_all(&base).unwrap();
  let root = base.join("tests/resources");
  let mut expect: Vec<String> = Vec::new();
  let mut nested = false;
  if c.present {
    std::fs::create_dir_all(&root).unwrap();
    for d in &c.dirs {
      let _ = std::fs::create_dir_all(d.iter().fold(root.clone(), |p, s| p.join(s)));
    }
    for (d, f) in &c.files {
      let dir = d.iter().fold(root.clone(), |p, s| p.join(s));
      if std::fs::create_dir_all(&dir).is_err() || dir.join(f).exists() {
        continue;
      }
      std::fs::write(dir.join(f), "x").unwrap();
      // name.html / name.xhtml, with a non-empty name
      let stem = f.strip_suffix(".html").or_else(|| f.strip_suffix(".xhtml"));
      if let Some(stem) = stem.filter(|s| !s.is_empty()) {
        expect.push(stem.to_string());
        nested |= !d.is_empty();
      }
    }
    // a file outside the resource directory is not a resource
    std::fs::write(base.join("tests/outside.html"), "x").unwrap();
  }
  let out = Command::new(std::env::current_exe().unwrap()).arg("helper").current_dir(&base).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
  let _ = std::fs::remove_dir_all(&base);
  ensure!(out.status.success(), "listing-died", "reading the resource listing ended with {}", out.status);
  let mut code: Vec<String> = vcommon::serde_json::from_slice(&out.stdout).unwrap();
  code.sort();
  expect.sort();
  ensure_eq!(code, expect, "listing", "listed resources");
  ctx.nontrivial(!expect.is_empty() && expect.len() < c.files.len());
  ctx.label_if(nested, "nested");
  ctx.label_if(c.dirs.iter().flatten().chain(c.files.iter().flat_map(|f| f.0.iter())).any(|d| d.contains('.')), "dotted directory");
  Ok(())
}
pub fn resources() -> Prop {
  let strat = |_t: Tier| {
    let dir = || vec(or_file(pick(&["a", "b", "1001", "x.html", "sub.txt", "y.xhtml", ".hid"])), 0..4);
    let stem = prop_oneof![or_file(pick(&["doc", "1", "a.b", "math.0001", "x", ".hidden", "é", "a b", ""])), "[a-z]{1,4}"];
    let ext = pick(&[".html", ".html", ".xhtml", ".xhtml", ".htm", ".HTML", ".xml", ".html.gz", ".txt", "", ".html~", ".shtml"]);
    let file = (stem, ext).prop_map(|(s, e)| if s.is_empty() && e.is_empty() { "plain".to_string() } else { s + &e });
    (prop::bool::weighted(0.95), vec((dir(), file), 0..10), vec(dir(), 0..3)).prop_map(|(present, files, dirs)| Layout { present, files, dirs }).boxed()
  };
  // deep directories and hundreds of files
  let many = |_t: Tier| {
    let dir = || vec(pick(&["a", "b", "1001", "sub", "x.html"]), 0..16);
    let ext = pick(&[".html", ".xhtml", ".html", ".txt", ".xml"]);
    let file = ("[a-z0-9]{1,3}|[a-z]{1,2}\\.[0-9]{2}|[a-z]{40,60}", ext).prop_map(|(s, e)| s + &e);
    let files = prop_oneof![2 => vec((dir(), file.clone()), 0..12), 1 => vec((vec(pick(&["a", "b"]), 0..2), file), 100..400)];
    (files, vec(dir(), 0..3)).prop_map(|(files, dirs)| Layout { present: true, files, dirs }).boxed()
  };
  Prop {
    id: "P29",
    rule: "generated directory layouts below a scratch working directory, one fresh process each; non-trivial: some but not all files are resources",
    assumptions: vec!["no symbolic links and no unreadable directories below tests/resources"],
    subs: vec![
      sub("layouts", (4_000, 60_000), "layouts with nested, dotted, hidden and empty directories and near-miss extensions", strat, check_listing),
      sub("many", (60, 1_000), "directories up to 16 deep, hundreds of files", many, check_listing),
    ],
  }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Plot {
  data: Vec<(i32, u64)>,
  labels: [String; 3],
  path: String,
}
fn escaped(s: &str) -> String {
  let mut r = String::new();
  for c in s.chars() {
    match c {
      '\\' => r.push_str("\\\\"),
      '\n' => r.push_str("\\n"),
      '\t' => r.push_str("\\t"),
      '"' => r.push_str("\\\""),
      c => r.push(c),
    }
  }
  r
}
/// `... command "value"...` lines of the recorded script
fn quoted_after<'a>(script: &'a str, command: &str) -> Vec<&'a str> {
  script
    .lines()
    .filter_map(|l| l.trim_start().strip_prefix(command))
    .filter_map(|r| {
      let r = r.strip_prefix(" \"")?;
      let b = r.as_bytes();
      let mut i = 0;
      while i < b.len() && b[i] != b'"' {
        i += if b[i] == b'\\' { 2 } else { 1 };
      }
      r.get(..i)
    })
    .collect()
}
fn check_plot(c: &Plot, ctx: &mut Ctx) -> Res {
  let dir = scratch_dir().join("plot");
  std::fs::create_dir_all(&dir).unwrap();
  let tool = dir.join("gnuplot");
  if !tool.exists() {
    std::fs::write(&tool, "#!/bin/sh\nif [ \"$1\" = --version ]; then echo 'gnuplot 5.4 patchlevel 4'; exit 0; fi\nexec cat > \"$VP_PLOT_OUT\"\n").unwrap();
    let mut p = std::fs::metadata(&tool).unwrap().permissions();
    std::os::unix::fs::PermissionsExt::set_mode(&mut p, 0o755);
    std::fs::set_permissions(&tool, p).unwrap();
  }
  let rec = dir.join("recorded");
  let _ = std::fs::remove_file(&rec);
  std::env::set_var("PATH", format!("{}:/usr/bin:/bin", dir.display()));
  std::env::set_var("VP_PLOT_OUT", &rec);
  let out_path = dir.join(&c.path);
  let map: Vec<(i32, usize)> = c.data.iter().map(|(a, b)| (*a, *b as usize)).collect();
  plot_simple(&map, &c.labels[0], &c.labels[1], &c.labels[2], out_path.to_str().unwrap());
  let bytes = read_when_done(&rec);
  // the script is text up to the plot command's line, then the records, then the closing commands
  let Some(at) = find(&bytes, b"\nplot ") else { fail!("no-plot", "no plot command was sent: {}", String::from_utf8_lossy(&bytes)) };
  let Some(eol) = find(&bytes[at + 1..], b"\n") else { fail!("no-plot", "unterminated plot command") };
  let head = String::from_utf8_lossy(&bytes[..at + 1]).to_string();
  let plot = String::from_utf8_lossy(&bytes[at + 1..at + 1 + eol]).to_string();
  let data = &bytes[at + 1 + eol + 1..];
  let n = c.data.len();
  ensure!(plot.contains(&format!("record={n} ")) && plot.contains("using 1:2"), "records", "not one series of {n} (key, value) records: {plot}");
  ensure!(data.len() >= 16 * n, "records", "too few data bytes: {} for {n} records", data.len());
  for (i, (k, v)) in c.data.iter().enumerate() {
    let get = |j: usize| f64::from_le_bytes(data[16 * i + 8 * j..16 * i + 8 * j + 8].try_into().unwrap());
    ensure_eq!(get(0), *k as f64, "key", "key of point {i}");
    let want = (*v as f64).log2();
    ensure!(get(1) == want || (get(1) - want).abs() <= 1e-12 * want.abs(), "value", "value of point {i} is {}, log2 of {v} is {want}", get(1));
  }
  for (cmd, want) in [("set xlabel", &c.labels[0]), ("set ylabel", &c.labels[1]), ("set title", &c.labels[2])] {
    ensure_eq!(quoted_after(&head, cmd).join("|"), escaped(want), "label", "{cmd}");
  }
  ensure_eq!(quoted_after(&head, "set output").join("|"), escaped(out_path.to_str().unwrap()), "output", "output file");
  let terminals: Vec<&str> = head.lines().filter_map(|l| l.strip_prefix("set terminal ")).map(|l| l.split([' ', ',']).next().unwrap_or("")).collect();
  ensure!(!terminals.is_empty() && terminals.iter().all(|t| ["png", "pngcairo"].contains(t)), "terminal", "not a PNG plot: {head}");
  ctx.nontrivial(n >= 2);
  ctx.label_if(n == 0, "empty");
  ctx.label_if(c.data.iter().any(|d| d.1 == 0), "zero count");
  let mut seen = BTreeMap::new();
  ctx.label_if(c.data.iter().any(|d| seen.insert(d.0, ()).is_some()), "repeated key");
  Ok(())
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> { hay.windows(needle.len()).position(|w| w == needle) }
/// plot_simple waits for gnuplot; should it not, wait for the recording to be complete (it ends in "quit")
fn read_when_done(p: &Path) -> Vec<u8> {
  for _ in 0..200 {
    if let Ok(b) = std::fs::read(p) {
      if b.ends_with(b"quit\n") {
        return b;
      }
    }
    std::thread::sleep(std::time::Duration::from_millis(10));
  }
  std::fs::read(p).unwrap_or_default()
}
pub fn plot() -> Prop {
  let strat = |_t: Tier| {
    let label = || or_text(pick(&["", "words", "Term \"frequency\"", "a\\b", "tab\there", "línea", "x y z", "rank (log2)", "two\nlines"]));
    let value = prop_oneof![0u64..20, 0u64..100_000, (0u32..50).prop_map(|e| 1u64 << e), Just(u32::MAX as u64)];
    (vec((prop_oneof![-5i32..50, any::<i32>()], value), 0..40), [label(), label(), label()], pick(&["plot.png", "other.png", "a b.png", "x"]))
      .prop_map(|(data, labels, path)| Plot { data, labels, path })
      .boxed()
  };
  let many = move |t: Tier| (strat(t), vec((any::<i32>(), 0u64..100_000), 40..3_000)).prop_map(|(p, data)| Plot { data, ..p }).boxed();
  Prop {
    id: "P30",
    rule: "generated maps and labels, the command stream read by a stand-in gnuplot decoded; non-trivial: at least two points",
    assumptions: vec!["the installed gnuplot crate's command encoding (labels quoted with \\ escapes, little-endian float64 records)", "colours, symbols and rotations are not judged"],
    subs: vec![
      sub("stream", (4_000, 60_000), "points, labels and output paths", strat, check_plot),
      sub("many", (20, 400), "up to some thousand points", many, check_plot),
    ],
  }
}
