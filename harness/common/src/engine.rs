//! The runner. A property is a list of sub-checks; a sub-check is a generator (proptest strategy), an
//! oracle (a function from a generated case to Ok/Fail) and a fixed case count. A run is split into
//! shards, one process each; every shard's PRNG is derived from (VERIF_SEED, property, sub-check,
//! shard) and nothing else, so a run is a pure function of the code and the seed. A failing case is
//! shrunk by proptest and saved as JSON; `replay` runs a saved case without proptest.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, FileFailurePersistence, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Bookkeeping of one case
#[derive(Default)]
pub struct Ctx {
  pub labels: BTreeSet<&'static str>,
  pub nontrivial: bool,
}
impl Ctx {
  pub fn label(&mut self, l: &'static str) { self.labels.insert(l); }
  pub fn label_if(&mut self, c: bool, l: &'static str) {
    if c {
      self.labels.insert(l);
    }
  }
  pub fn nontrivial(&mut self, c: bool) { self.nontrivial |= c }
}

/// A broken property
#[derive(Debug, Clone)]
pub struct Fail {
  pub sig: String,
  pub msg: String,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
  ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) }) };
}
#[macro_export]
macro_rules! ensure {
  ($c:expr, $sig:expr, $($arg:tt)*) => { if !$c { $crate::fail!($sig, $($arg)*) } };
}
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {
    match (&$a, &$b) {
      (a, b) => if a != b { $crate::fail!($sig, "{}\n   code:  {:?}\n   model: {:?}", format!($($arg)*), a, b) }
    }
  };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Number of the case being judged, 0 between cases
static CASE: AtomicU64 = AtomicU64::new(0);
static NEXT_CASE: AtomicU64 = AtomicU64::new(1);
/// is this a sub-check with large cases (seconds, where the others take milliseconds)?
static BIG: AtomicBool = AtomicBool::new(false);
fn set_big(sub: &str) { BIG.store(["large", "busy", "many", "long", "huge"].contains(&sub), Ordering::SeqCst) }
/// the exit status of a process whose case does not come to an end
const HANG: i32 = 77;
fn cpu_secs() -> f64 {
  let mut u: libc::rusage = unsafe { std::mem::zeroed() };
  unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
  (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 * 1e-6
}
/// is every thread of this process but the calling one asleep?
fn asleep() -> bool {
  let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
  let Ok(tasks) = std::fs::read_dir("/proc/self/task") else { return false };
  tasks.flatten().filter(|t| t.file_name().to_string_lossy() != me).all(|t| {
    let stat = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
    stat.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
  })
}
fn resident() -> u64 {
  let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
  s.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()).unwrap_or(0) * 4096
}
/// Ends the process when one case takes far more processor time or memory than any case can need
/// (measured in the process itself, so a busy machine does not matter), or when nothing runs any more.
fn watch(on_end: fn(&str)) {
  let given: Option<f64> = std::env::var("VERIF_CASE_CPU").ok().and_then(|s| s.parse().ok());
  std::thread::spawn(move || {
    let (mut last, mut cpu0, mut mem0, mut still) = (0, 0.0, 0, 0u32);
    loop {
      std::thread::sleep(Duration::from_millis(100));
      let limit = given.unwrap_or(if BIG.load(Ordering::SeqCst) { 90.0 } else { 20.0 });
      let cur = CASE.load(Ordering::SeqCst);
      if cur == 0 || cur != last {
        last = cur;
        cpu0 = cpu_secs();
        mem0 = resident();
        still = 0;
        continue;
      }
      still = if asleep() { still + 1 } else { 0 };
      let why = if cpu_secs() - cpu0 > limit {
        format!("the case was not done after {limit} s of processor time")
      } else if still as f64 > 10.0 * given.unwrap_or(60.0) {
        format!("nothing ran any more: deadlock")
      } else if resident() > mem0 + 3_500_000_000 {
        "the case took more than 3.5 GB of memory".to_string()
      } else {
        continue;
      };
      if CASE.load(Ordering::SeqCst) == cur {
        on_end(&why);
        unsafe { libc::_exit(HANG) }
      }
    }
  });
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
  CASE.store(NEXT_CASE.fetch_add(1, Ordering::SeqCst), Ordering::SeqCst);
  let r = catch_unwind(AssertUnwindSafe(f));
  CASE.store(0, Ordering::SeqCst);
  match r {
    Ok(r) => r,
    Err(_) => {
      let m = LAST_PANIC.with(|p| p.borrow().clone());
      Err(Fail { sig: "panic".into(), msg: format!("panicked: {m}") })
    },
  }
}

#[derive(Default)]
pub struct SubOut {
  evaluations: u64,
  hashes: HashSet<u64>,
  labels: BTreeMap<String, u64>,
  samples: Vec<Value>,
  known: BTreeMap<String, u64>,
  failure: Option<(Fail, Value)>,
  /// the longest case, in seconds
  longest: f64,
}

type RunFn = Box<dyn Fn(&RunCfg) -> SubOut>;
type ReplayFn = Box<dyn Fn(&Value) -> Res>;
pub struct Sub {
  pub name: &'static str,
  pub rule: &'static str,
  run: RunFn,
  replay: ReplayFn,
}

pub struct RunCfg {
  pub tier: Tier,
  pub seed: u64,
  pub prop: String,
  pub shard: u64,
  pub shards: u64,
  pub known: Vec<(String, String)>,
  pub journal: Option<PathBuf>,
  /// crash-shrinking: (case index at which the crash happened, path of this executable)
  pub crash_at: Option<(String, u64)>,
}

pub struct Prop {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: Vec<&'static str>,
  pub subs: Vec<Sub>,
}

fn mix(mut h: u64, v: u64) -> u64 {
  h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
  h = (h ^ (h >> 33)).wrapping_mul(0xff51afd7ed558ccd);
  h ^ (h >> 29)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for x in b {
    h = (h ^ (*x as u64)).wrapping_mul(0x100000001b3);
  }
  h
}

/// A sub-check. `cases` = (quick, thorough) totals over all shards, before scaling.
const QUICK_SCALE: u64 = 8;
const THOROUGH_SCALE: u64 = 20;
pub fn sub<C, S, F>(name: &'static str, cases: (u64, u64), rule: &'static str, strat: S, check: F) -> Sub
where
  C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
  S: Fn(Tier) -> BoxedStrategy<C> + 'static,
  F: Fn(&C, &mut Ctx) -> Res + Copy + 'static,
{
  let run = move |cfg: &RunCfg| -> SubOut {
    set_big(name);
    let total = if cfg.tier == Tier::Quick { cases.0 * QUICK_SCALE } else { cases.1 * THOROUGH_SCALE };
    let mine = total / cfg.shards + u64::from(cfg.shard < total % cfg.shards);
    let out = RefCell::new(SubOut::default());
    if mine == 0 {
      return out.into_inner();
    }
    let mut s = mix(cfg.seed, hash_bytes(cfg.prop.as_bytes()));
    s = mix(s, hash_bytes(name.as_bytes()));
    s = mix(s, cfg.shard);
    let mut seed = [0u8; 32];
    for i in 0..4u64 {
      seed[(8 * i) as usize..(8 * i + 8) as usize].copy_from_slice(&mix(s, i + 1).to_le_bytes());
    }
    let config = Config {
      cases: mine as u32,
      failure_persistence: None::<Box<FileFailurePersistence>>.map(|b| b as _),
      max_shrink_iters: if cfg.crash_at.is_some() { 300 } else { 5000 },
      max_shrink_time: 90_000,
      max_global_rejects: u32::MAX,
      max_local_rejects: u32::MAX,
      verbose: 0,
      ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let index = RefCell::new(0u64);
    let failed = RefCell::new(None::<Fail>);
    let known = |f: &Fail| cfg.known.iter().any(|(n, k)| n == name && *k == f.sig);
    let result = runner.run(&strat(cfg.tier), |case: C| {
      let i = {
        let mut ix = index.borrow_mut();
        *ix += 1;
        *ix
      };
      if let Some((sub, at)) = &cfg.crash_at {
        // crash shrinking: the crash is known to happen in case `at`; judge cases out of process
        if sub != name || i < *at {
          return Ok(());
        }
        let v = serde_json::to_value(&case).unwrap();
        return match crashes(&cfg.prop, name, &v, Some("6")) {
          Some(f) => {
            *failed.borrow_mut() = Some(f);
            Err(TestCaseError::fail("crash"))
          },
          None => Ok(()),
        };
      }
      let counting = failed.borrow().is_none();
      if let Some(j) = &cfg.journal {
        let v = json!({"sub": name, "index": i, "case": case});
        let _ = std::fs::write(j, v.to_string());
      }
      let mut ctx = Ctx::default();
      let t = Instant::now();
      let r = guarded(|| check(&case, &mut ctx));
      if counting {
        let mut o = out.borrow_mut();
        o.longest = o.longest.max(t.elapsed().as_secs_f64());
        o.evaluations += 1;
        for l in &ctx.labels {
          *o.labels.entry(l.to_string()).or_insert(0) += 1;
        }
        if ctx.nontrivial {
          let text = serde_json::to_string(&case).unwrap();
          let fresh = o.hashes.insert(hash_bytes(text.as_bytes()));
          let n = o.samples.len();
          if fresh && n < 3 && text.len() < 1500 && (i % (1 + 7 * n as u64)) == 0 {
            o.samples.push(serde_json::to_value(&case).unwrap());
          }
        }
      }
      match r {
        Ok(()) => Ok(()),
        Err(f) if known(&f) => {
          *out.borrow_mut().known.entry(f.sig).or_insert(0) += 1;
          Ok(())
        },
        Err(f) => {
          let m = f.msg.clone();
          *failed.borrow_mut() = Some(f);
          Err(TestCaseError::fail(m))
        },
      }
    });
    match result {
      Ok(()) => {},
      Err(TestError::Fail(_, case)) => {
        let v = serde_json::to_value(&case).unwrap();
        // the message of the shrunk case, not of the last shrink attempt
        let f = if cfg.crash_at.is_some() {
          failed.borrow().clone().unwrap()
        } else {
          match guarded(|| check(&case, &mut Ctx::default())) {
            Err(f) => f,
            Ok(()) => {
              let mut f = failed.borrow().clone().unwrap();
              f.msg = format!("(not reproduced on an immediate second run: the outcome is not a function of the input)\n{}", f.msg);
              f
            },
          }
        };
        out.borrow_mut().failure = Some((f, v));
      },
      Err(TestError::Abort(r)) => panic!("{name}: proptest aborted: {r}"),
    }
    out.into_inner()
  };
  let replay = move |v: &Value| -> Res {
    set_big(name);
    let case: C = serde_json::from_value(v.clone()).map_err(|e| Fail { sig: "replay-format".into(), msg: e.to_string() })?;
    guarded(|| check(&case, &mut Ctx::default()))
  };
  Sub { name, rule, run: Box::new(run), replay: Box::new(replay) }
}

/// A sub-check over a finite list of cases, enumerated completely (spread over the shards).
pub fn enumerate<C, L, F>(name: &'static str, rule: &'static str, list: L, check: F) -> Sub
where
  C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
  L: Fn() -> Vec<C> + 'static,
  F: Fn(&C, &mut Ctx) -> Res + Copy + 'static,
{
  let run = move |cfg: &RunCfg| -> SubOut {
    set_big(name);
    let mut out = SubOut::default();
    for (i, case) in list().into_iter().enumerate() {
      if (i as u64) % cfg.shards != cfg.shard {
        continue;
      }
      if let Some(j) = &cfg.journal {
        let _ = std::fs::write(j, json!({"sub": name, "index": i, "case": case}).to_string());
      }
      let mut ctx = Ctx::default();
      let t = Instant::now();
      let r = guarded(|| check(&case, &mut ctx));
      out.longest = out.longest.max(t.elapsed().as_secs_f64());
      out.evaluations += 1;
      for l in &ctx.labels {
        *out.labels.entry(l.to_string()).or_insert(0) += 1;
      }
      if ctx.nontrivial {
        out.hashes.insert(hash_bytes(serde_json::to_string(&case).unwrap().as_bytes()));
        if out.samples.len() < 2 {
          out.samples.push(serde_json::to_value(&case).unwrap());
        }
      }
      if let Err(f) = r {
        if cfg.known.iter().any(|(n, k)| n == name && *k == f.sig) {
          *out.known.entry(f.sig).or_insert(0) += 1;
        } else {
          out.failure = Some((f, serde_json::to_value(&case).unwrap()));
          break;
        }
      }
    }
    out
  };
  let replay = move |v: &Value| -> Res {
    set_big(name);
    let case: C = serde_json::from_value(v.clone()).map_err(|e| Fail { sig: "replay-format".into(), msg: e.to_string() })?;
    guarded(|| check(&case, &mut Ctx::default()))
  };
  Sub { name, rule, run: Box::new(run), replay: Box::new(replay) }
}

pub fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

/// does judging the case end its process (by a signal, or by the watch)?
fn crashes(prop: &str, sub: &str, case: &Value, limit: Option<&str>) -> Option<Fail> {
  let f = scratch_dir().join(format!("crash-{}.json", std::process::id()));
  std::fs::write(&f, json!({"property": prop, "sub": sub, "case": case}).to_string()).unwrap();
  let o = std::process::Command::new(std::env::current_exe().unwrap())
    .args(["replay-quiet", f.to_str().unwrap()])
    .envs(limit.map(|l| ("VERIF_CASE_CPU", l)))
    .stderr(std::process::Stdio::null())
    .output()
    .unwrap();
  let _ = std::fs::remove_file(&f);
  if o.status.code() == Some(HANG) {
    return Some(Fail { sig: "hang".into(), msg: String::from_utf8_lossy(&o.stdout).trim().lines().last().unwrap_or_default().to_string() });
  }
  let signal = std::os::unix::process::ExitStatusExt::signal(&o.status).filter(|s| *s != libc::SIGKILL)?;
  Some(Fail { sig: "crash".into(), msg: format!("the process was killed by signal {signal}") })
}

/// the scratch directory of this process (created on demand, removed by the parent run)
pub fn scratch_dir() -> PathBuf {
  let d = match std::env::var("VERIF_SCRATCH") {
    Ok(d) => PathBuf::from(d),
    Err(_) => std::env::temp_dir().join(format!("vp-scratch-{}", std::process::id())),
  };
  let d = d.join(format!("p{}", std::process::id()));
  std::fs::create_dir_all(&d).unwrap();
  d
}

/// known findings: lines `finding: property=<id> sub=<sub> sig=<sig> | <what fails>`
fn load_known(prop: &str) -> Vec<(String, String, String)> {
  let mut out = Vec::new();
  let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
  for line in text.lines() {
    let Some(rest) = line.strip_prefix("finding: ") else { continue };
    let Some((keys, what)) = rest.split_once(" | ") else { continue };
    let get = |k: &str| keys.split(' ').find_map(|p| p.strip_prefix(&format!("{k}=")).map(|s| s.to_string()));
    if get("property").as_deref() == Some(prop) {
      out.push((get("sub").unwrap_or_default(), get("sig").unwrap_or_default(), what.to_string()));
    }
  }
  out
}

fn tier() -> Tier {
  match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  }
}
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }

fn quiet_panics() {
  std::panic::set_hook(Box::new(|info| {
    let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
    let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
  }));
}

/// the stack of a main thread: recursion over the number of nodes or words, rather than over the depth
/// of a document, does not fit into it
fn on_ordinary_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().expect("harness thread panicked")
}

/// On the stack of a spawned thread, which is what the workers of a parallel walk have.
pub fn on_worker_stack(check: impl FnOnce(&mut Ctx) -> Res + Send, ctx: &mut Ctx) -> Res { on_stack(2 << 20, check, ctx) }
/// On a stack of that size: a call whose depth does not depend on its input needs little.
pub fn on_stack(size: usize, check: impl FnOnce(&mut Ctx) -> Res + Send, ctx: &mut Ctx) -> Res {
  std::thread::scope(|scope| {
    let run = || {
      catch_unwind(AssertUnwindSafe(|| check(ctx))).unwrap_or_else(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        Err(Fail { sig: "panic".into(), msg: format!("panicked: {m}") })
      })
    };
    std::thread::Builder::new().stack_size(size).spawn_scoped(scope, run).unwrap().join().expect("a harness thread ends")
  })
}

/// Judges the cases from one thread each, all at the same time, over and over: what holds for one call
/// holds for calls that overlap. The outcome must not depend on the schedule; the schedule is left to
/// the operating system.
pub fn concurrently<C: Sync>(cases: &[C], rounds: usize, check: impl Fn(&C, &mut Ctx) -> Res + Sync, ctx: &mut Ctx) -> Res {
  // each alone first: what fails then has nothing to do with threads
  for c in cases {
    check(c, ctx)?;
  }
  let barrier = std::sync::Barrier::new(cases.len());
  let stop = AtomicBool::new(false);
  let results: Vec<Res> = std::thread::scope(|scope| {
    let (barrier, stop, check) = (&barrier, &stop, &check);
    let threads: Vec<_> = cases
      .iter()
      .map(|c| {
        let run = move || {
          barrier.wait();
          for _ in 0..rounds {
            if stop.load(Ordering::SeqCst) {
              break;
            }
            let r = catch_unwind(AssertUnwindSafe(|| check(c, &mut Ctx::default()))).unwrap_or_else(|_| {
              let m = LAST_PANIC.with(|p| p.borrow().clone());
              Err(Fail { sig: "panic".into(), msg: format!("panicked: {m}") })
            });
            if let Err(mut f) = r {
              stop.store(true, Ordering::SeqCst);
              f.msg = format!("(while other threads work; alone it is right) {}", f.msg);
              return Err(f);
            }
          }
          Ok(())
        };
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, run).unwrap()
      })
      .collect();
    threads.into_iter().map(|t| t.join().expect("a harness thread ends")).collect()
  });
  results.into_iter().collect()
}

/// Entry point of a harness binary.
pub fn main(props: fn() -> Vec<Prop>) -> ! {
  let args: Vec<String> = std::env::args().collect();
  let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
  let code = match cmd {
    "list" => {
      for p in props() {
        println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
      }
      0
    },
    // the literals of the tree as it is, for literals.txt
    "literals" => {
      print!("{}", crate::gen::known_text());
      0
    },
    "run" => run_parent(props, &args[2]),
    "shard" => {
      let a = args.clone();
      on_ordinary_stack(move || run_shard(props, &a));
      0
    },
    "replay" | "replay-quiet" => {
      let loud = cmd == "replay";
      let path = args[2].clone();
      on_ordinary_stack(move || {
        quiet_panics();
        watch(|why| println!("{why}"));
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
        let prop = v["property"].as_str().unwrap().to_string();
        let sub = v["sub"].as_str().unwrap().to_string();
        let ps = props();
        let p = ps.iter().find(|p| p.id == prop).expect("unknown property");
        let s = p.subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
        match (s.replay)(&v["case"]) {
          Ok(()) => {
            if loud {
              println!("replay: the property holds on this case");
            }
            0
          },
          Err(f) => {
            if loud {
              println!("replay: VIOLATION [{}]\n{}", f.sig, f.msg);
            }
            1
          },
        }
      })
    },
    _ => {
      eprintln!("usage: run <ID> | replay <file> | list");
      2
    },
  };
  std::process::exit(code)
}

fn run_shard(props: fn() -> Vec<Prop>, args: &[String]) {
  // shard <id> <k> <n> <out> [--journal F] [--crash-at sub index]
  quiet_panics();
  watch(|why| eprintln!("{why}"));
  let id = args[2].clone();
  let ps = props();
  let p = ps.iter().find(|p| p.id == id).expect("unknown property");
  let opt = |name: &str| args.iter().position(|a| a == name).map(|i| i + 1);
  let cfg = RunCfg {
    tier: tier(),
    seed: seed(),
    prop: id.clone(),
    shard: args[3].parse().unwrap(),
    shards: args[4].parse().unwrap(),
    known: load_known(&id).into_iter().map(|(a, b, _)| (a, b)).collect(),
    journal: opt("--journal").map(|i| PathBuf::from(&args[i])),
    crash_at: opt("--crash-at").map(|i| (args[i].clone(), args[i + 1].parse().unwrap())),
  };
  let mut outs = serde_json::Map::new();
  for s in &p.subs {
    let t = Instant::now();
    let o = (s.run)(&cfg);
    let failed = o.failure.is_some();
    outs.insert(
      s.name.to_string(),
      json!({
        "evaluations": o.evaluations, "hashes": o.hashes.iter().collect::<Vec<_>>(), "labels": o.labels,
        "samples": o.samples, "known": o.known, "secs": t.elapsed().as_secs_f64(), "longest": o.longest,
        "failure": o.failure.map(|(f, c)| json!({"sig": f.sig, "msg": f.msg, "case": c})),
      }),
    );
    if failed {
      break;
    }
  }
  std::fs::write(&args[5], Value::Object(outs).to_string()).unwrap();
}

fn spawn_shard(id: &str, k: u64, n: u64, dir: &Path, extra: &[String]) -> (std::process::Child, PathBuf) {
  let out = dir.join(format!("shard-{k}.json"));
  let _ = std::fs::remove_file(&out);
  let err = std::fs::File::create(dir.join(format!("shard-{k}.err"))).unwrap();
  let child = std::process::Command::new(std::env::current_exe().unwrap())
    .arg("shard").arg(id).arg(k.to_string()).arg(n.to_string()).arg(&out).args(extra)
    .env("VERIF_SCRATCH", dir)
    .env("RUST_BACKTRACE", "0")
    .current_dir(dir)
    .stdin(std::process::Stdio::null())
    .stdout(std::process::Stdio::null())
    .stderr(err)
    .spawn()
    .unwrap();
  (child, out)
}

fn wait(child: &mut std::process::Child, until: Instant) -> Option<std::process::ExitStatus> {
  loop {
    if let Some(st) = child.try_wait().unwrap() {
      return Some(st);
    }
    if Instant::now() > until {
      let _ = child.kill();
      let _ = child.wait();
      return None;
    }
    std::thread::sleep(Duration::from_millis(15));
  }
}

fn save_replay(id: &str, sub: &str, f: &Fail, case: &Value) -> PathBuf {
  let dir = verif_dir().join("replays");
  std::fs::create_dir_all(&dir).unwrap();
  let body = json!({"property": id, "sub": sub, "sig": f.sig, "msg": f.msg, "case": case, "seed": seed()});
  let path = dir.join(format!("{id}-{sub}-{:016x}.json", hash_bytes(case.to_string().as_bytes())));
  std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
  path
}

/// bytes and entries free there, as bytes (0: not there)
fn room(path: &str) -> u64 {
  let mut v: libc::statvfs = unsafe { std::mem::zeroed() };
  let p = std::ffi::CString::new(path).unwrap();
  if unsafe { libc::statvfs(p.as_ptr(), &mut v) } != 0 {
    return 0;
  }
  (v.f_bavail * v.f_frsize).min(v.f_favail * 4096)
}

fn run_parent(props: fn() -> Vec<Prop>, id: &str) -> i32 {
  let t0 = Instant::now();
  let ps = props();
  let Some(p) = ps.iter().find(|p| p.id == id) else {
    eprintln!("unknown property {id}");
    return 2;
  };
  let n: u64 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let limit = Duration::from_secs(if tier() == Tier::Quick { 600 } else { 6 * 3600 });
  // in memory where possible: checks of directory walks create millions of files
  let name = format!("vp-{id}-{}", std::process::id());
  let mut dir = Path::new("/dev/shm").join(&name);
  if std::env::var_os("TMPDIR").is_some() || room("/dev/shm") < 4_000_000_000 || std::fs::create_dir(&dir).is_err() {
    dir = std::env::temp_dir().join(&name);
    std::fs::create_dir_all(&dir).unwrap();
  }
  let code = run_in(p, id, n, limit, &dir, t0);
  let _ = std::fs::remove_dir_all(&dir);
  code
}

fn run_in(p: &Prop, id: &str, n: u64, limit: Duration, dir: &Path, t0: Instant) -> i32 {
  let until = Instant::now() + limit;
  let mut children: Vec<_> = (0..n).map(|k| spawn_shard(id, k, n, dir, &[])).collect();
  let mut reports: Vec<Value> = Vec::new();
  let mut violations: Vec<(String, Fail, Value)> = Vec::new();
  let mut errors: Vec<String> = Vec::new();
  let mut crashed = false;
  for (k, (child, out)) in children.iter_mut().enumerate() {
    match wait(child, until) {
      None => errors.push(format!("shard {k}: no answer within {} s (hang?)", limit.as_secs())),
      Some(st) if st.success() => reports.push(serde_json::from_str(&std::fs::read_to_string(out).unwrap()).unwrap()),
      Some(st) if st.code().is_some_and(|c| c != HANG) => {
        let e = std::fs::read_to_string(dir.join(format!("shard-{k}.err"))).unwrap_or_default();
        errors.push(format!("shard {k}: {st}: {}", e.chars().take(2000).collect::<String>()));
      },
      // one such case is enough
      Some(_) if crashed => {},
      Some(st) => {
        // killed by a signal or by the watch: find the case, confirm it, shrink it out of process
        let j = dir.join(format!("journal-{k}.json"));
        let (mut c, _) = spawn_shard(id, k as u64, n, dir, &["--journal".into(), j.to_str().unwrap().into()]);
        let st2 = wait(&mut c, until);
        let jv: Option<Value> = std::fs::read_to_string(&j).ok().and_then(|s| serde_json::from_str(&s).ok());
        let ended = st2.is_some_and(|s| s.code().is_none_or(|c| c == HANG));
        let confirmed = jv.filter(|_| ended).and_then(|v| {
          let sub = v["sub"].as_str().unwrap().to_string();
          crashes(id, &sub, &v["case"], None).map(|f| (sub, f, v["case"].clone(), v["index"].to_string()))
        });
        match confirmed {
          Some((sub, mut fail, mut case, index)) => {
            crashed = true;
            let (mut c, out) = spawn_shard(id, k as u64, n, dir, &["--crash-at".into(), sub.clone(), index]);
            if let Some(s3) = wait(&mut c, Instant::now() + Duration::from_secs(120)) {
              if s3.success() {
                let r: Value = serde_json::from_str(&std::fs::read_to_string(out).unwrap()).unwrap();
                if let Some(f) = r[&sub]["failure"].as_object() {
                  if let Some(f2) = crashes(id, &sub, &f["case"], None) {
                    fail = f2;
                    case = f["case"].clone();
                  }
                }
              }
            }
            violations.push((sub, fail, case));
          },
          None => errors.push(format!("shard {k}: {st}, not reproduced")),
        }
      },
    }
  }
  // merge
  let mut evaluations = 0u64;
  let mut distinct = 0u64;
  let mut subs = serde_json::Map::new();
  let mut samples: Vec<Value> = Vec::new();
  let mut known_hit: BTreeMap<(String, String), u64> = BTreeMap::new();
  for s in &p.subs {
    let mut h: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut ev = 0u64;
    let (mut secs, mut longest) = (0f64, 0f64);
    let mut taken = 0;
    for r in &reports {
      let o = &r[s.name];
      if o.is_null() {
        continue;
      }
      ev += o["evaluations"].as_u64().unwrap();
      secs += o["secs"].as_f64().unwrap();
      longest = longest.max(o["longest"].as_f64().unwrap());
      h.extend(o["hashes"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
      for (l, c) in o["labels"].as_object().unwrap() {
        *labels.entry(l.clone()).or_insert(0) += c.as_u64().unwrap();
      }
      for (g, c) in o["known"].as_object().unwrap() {
        *known_hit.entry((s.name.to_string(), g.clone())).or_insert(0) += c.as_u64().unwrap();
      }
      for x in o["samples"].as_array().unwrap() {
        if taken < 2 {
          samples.push(json!({"sub": s.name, "case": x}));
          taken += 1;
        }
      }
      if let Some(f) = o["failure"].as_object() {
        let fail = Fail { sig: f["sig"].as_str().unwrap().into(), msg: f["msg"].as_str().unwrap().into() };
        violations.push((s.name.to_string(), fail, f["case"].clone()));
      }
    }
    evaluations += ev;
    distinct += h.len() as u64;
    subs.insert(s.name.to_string(), json!({"rule": s.rule, "evaluations": ev, "distinct_nontrivial": h.len(), "labels": labels, "cpu_s": (secs * 100.0).round() / 100.0, "longest_case_s": (longest * 1000.0).round() / 1000.0}));
  }
  // smallest counterexample per sub-check
  violations.sort_by_key(|v| (v.0.clone(), v.2.to_string().len()));
  violations.dedup_by(|a, b| a.0 == b.0);
  let tier_name = if tier() == Tier::Quick { "quick" } else { "thorough" };
  let evidence = json!({
    "property": id, "tier": tier_name, "seed": seed(), "level": "exploration",
    "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": p.rule, "samples": samples, "sub_checks": subs, "shards": n},
    "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": violations.len(),
  });
  let ed = verif_dir().join("evidence");
  std::fs::create_dir_all(&ed).unwrap();
  std::fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();
  for (sub, sig, what) in load_known(id) {
    println!("KNOWN-FINDING: property={id} {what} (sub-check {sub}, signature {sig}, hit {} times)", known_hit.get(&(sub.clone(), sig.clone())).copied().unwrap_or(0));
  }
  println!("{id}: {evaluations} cases, {distinct} distinct non-trivial, {:.1} s", t0.elapsed().as_secs_f64());
  for (sub, f, case) in &violations {
    let path = save_replay(id, sub, f, case);
    println!("--- {sub}: [{}] {}", f.sig, f.msg.chars().take(3000).collect::<String>());
    println!("VIOLATION property={id} replay={}", path.display());
  }
  for e in &errors {
    println!("ERROR {e}");
  }
  if !violations.is_empty() {
    1
  } else if !errors.is_empty() {
    2
  } else {
    0
  }
}
