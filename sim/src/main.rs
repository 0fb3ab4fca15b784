//! Deterministic simulation of TTGraph: seeded runs, minimisation and replay.
#![allow(dead_code)]
mod bin;
mod disk;
mod entropy;
mod model;
mod rng;
mod schemas;
mod sim;
/// scheduling points; only the threaded simulator (conc/) has threads to schedule
mod seam {
  pub fn op_point() {}
  pub fn now() -> u64 {
    0
  }
  pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    f()
  }
  pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    f()
  }
}

use rng::mix2;
use serde_json::{json, Value};
use sim::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
  static PANIC_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "panic".to_string()
    };
    let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
    let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = msg);
    let _ = PANIC_LOC.try_with(|m| *m.borrow_mut() = loc);
  }));
}

#[derive(Clone)]
struct Plan {
  prop: String,
  seed: u64,
  steps: Vec<Step>,
}
#[derive(Default)]
struct Outcome {
  viol: Option<Viol>,
  st: Stats,
  log: Vec<u64>,
  draws: u64,
  /// panic that escaped into the harness: (message, inside the harness's own code)
  escaped: Option<(String, bool)>,
  trace: Vec<String>,
}
struct Slot {
  idx: AtomicU64,
  step: AtomicUsize,
  tid: AtomicU64,
  start_ms: AtomicU64,
  busy: AtomicBool,
}
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
  T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}
extern "C" {
  fn syscall(n: i64, ...) -> i64;
}
fn gettid() -> u64 {
  unsafe { syscall(186) as u64 }
}
fn cpu_ms(tid: u64) -> u64 {
  let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
  let Some(p) = s.rfind(')') else { return 0 };
  let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
  let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
  (g(11) + g(12)) * 10
}

fn go<S: schemas::Schema>(cfg: &Cfg, plan: &Plan, trace: bool, slot: &Slot) -> Outcome {
  let mut w = World::<S>::new(cfg, trace);
  let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    w.run(plan.seed, &plan.steps, &|i| slot.step.store(i, SeqCst))
  }));
  let mut o = Outcome::default();
  match res {
    Ok(Ok(())) => {},
    Ok(Err(v)) => o.viol = Some(v),
    Err(_) => {
      let msg = PANIC_MSG.with(|m| m.borrow().clone());
      let loc = PANIC_LOC.with(|m| m.borrow().clone());
      o.escaped = Some((format!("{msg} ({loc})"), loc.starts_with("src/") && !loc.contains("schemas.rs")));
    },
  }
  o.st = std::mem::take(&mut w.st);
  o.log = std::mem::take(&mut w.log);
  o.trace = w.trace.take().unwrap_or_default();
  // dropping what the library holds may panic too
  if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(w))).is_err() && o.viol.is_none() {
    o.escaped = Some(("panic while dropping".into(), false));
  }
  o.draws = entropy::draws();
  o
}
/// one execution, in a thread of its own so that per-thread hash seeds are part of the run
fn exec(plan: &Plan, cfg: &Cfg, ent: u64, trace: bool, slot: &Arc<Slot>) -> Outcome {
  let (p, c, s) = (plan.clone(), cfg.clone(), slot.clone());
  let h = std::thread::Builder::new()
    .stack_size(64 << 20)
    .spawn(move || {
      entropy::seed_thread(ent);
      s.start_ms.store(now_ms(), SeqCst);
      s.tid.store(gettid(), SeqCst);
      s.busy.store(true, SeqCst);
      let o = match c.schema {
        0 => go::<schemas::Plain>(&c, &p, trace, &s),
        1 => go::<schemas::OrgS>(&c, &p, trace, &s),
        2 => go::<schemas::LrS>(&c, &p, trace, &s),
        3 => go::<schemas::XyS>(&c, &p, trace, &s),
        4 => go::<schemas::SoloS>(&c, &p, trace, &s),
        _ => go::<schemas::TangleS>(&c, &p, trace, &s),
      };
      s.busy.store(false, SeqCst);
      o
    })
    .expect("spawn");
  h.join().expect("run thread")
}
/// a run of a property's check: what is reported for it, if anything
struct Verdict {
  hit: Option<Viol>,
  foreign: Option<Viol>,
  harness: Option<String>,
  out: Outcome,
}
fn evaluate(plan: &Plan, cfg: &Cfg, trace: bool, slot: &Arc<Slot>) -> Verdict {
  let out = exec(plan, cfg, mix2(plan.seed, 0xe1), trace, slot);
  let mut v = Verdict { hit: None, foreign: None, harness: None, out };
  if plan.prop == "C12" {
    let b = exec(plan, cfg, mix2(plan.seed, 0xe2), false, slot);
    let a = &v.out;
    let va = a.viol.as_ref().map(|v| (v.step, v.msg.clone()));
    let vb = b.viol.as_ref().map(|v| (v.step, v.msg.clone()));
    let first = a.log.iter().zip(&b.log).position(|(x, y)| x != y);
    if first.is_some() || a.log.len() != b.log.len() || va != vb {
      let step = first.unwrap_or(a.log.len().min(b.log.len()));
      v.hit = Some(Viol {
        tags: vec!["C12"],
        msg: format!("two executions of the same schedule under different random values differ at step {step} (A: {va:?}, B: {vb:?})"),
        step,
      });
      return v;
    }
  }
  if let Some((m, own)) = v.out.escaped.take() {
    if own {
      v.harness = Some(m);
    } else {
      let step = slot.step.load(SeqCst);
      v.hit = Some(Viol { tags: vec![], msg: format!("the library panicked where nothing may be refused: {m}"), step });
    }
    return v;
  }
  if let Some(x) = v.out.viol.clone() {
    if x.tags.iter().any(|t| *t == plan.prop) {
      v.hit = Some(x);
    } else {
      v.foreign = Some(x);
    }
  }
  v
}
fn new_slot() -> Arc<Slot> {
  Arc::new(Slot {
    idx: AtomicU64::new(0),
    step: AtomicUsize::new(0),
    tid: AtomicU64::new(0),
    start_ms: AtomicU64::new(0),
    busy: AtomicBool::new(false),
  })
}

fn minimise(plan: &Plan, cfg: &Cfg, first: &Viol, slot: &Arc<Slot>, deadline: Instant) -> (Plan, Viol) {
  let mut best = plan.clone();
  let mut bv = first.clone();
  if first.step + 1 < best.steps.len() {
    let mut p = best.clone();
    p.steps.truncate(first.step + 1);
    if let Some(v) = evaluate(&p, cfg, false, slot).hit {
      best = p;
      bv = v;
    }
  }
  let mut n = 2usize;
  while best.steps.len() >= 2 && Instant::now() < deadline {
    let len = best.steps.len();
    let chunk = len.div_ceil(n);
    let mut reduced = false;
    let mut at = 0;
    while at < best.steps.len() && Instant::now() < deadline {
      let mut p = best.clone();
      let to = (at + chunk).min(p.steps.len());
      p.steps.drain(at..to);
      if let Some(v) = evaluate(&p, cfg, false, slot).hit {
        best = p;
        bv = v;
        reduced = true;
      } else {
        at += chunk;
      }
    }
    if reduced {
      n = n.saturating_sub(1).max(2);
    } else if chunk == 1 {
      break;
    } else {
      n = (n * 2).min(best.steps.len());
    }
  }
  (best, bv)
}
fn profile() -> &'static str {
  if cfg!(debug_assertions) { "release+debug-assertions" } else { "release" }
}
fn replay_json(plan: &Plan, cfg: &Cfg, v: &Viol, orig: usize, class: &str, trace: &[String]) -> Value {
  json!({
    "engine": "A", "property": plan.prop, "class": class, "profile": profile(),
    "seed": plan.seed.to_string(),
    "violation": v.msg, "at_step": v.step,
    "original_steps": orig,
    "schema": cfg.schema, "clients": cfg.clients,
    "steps": plan.steps.iter().map(|s| json!([KNAMES[s.0 as usize], s.1.to_string()])).collect::<Vec<_>>(),
    "trace": trace,
  })
}
fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
  let h = prop.bytes().fold(7u64, |h, b| mix2(h, b as u64));
  mix2(mix2(base, h), idx)
}
fn addm(a: &mut BTreeMap<String, u64>, b: &BTreeMap<&'static str, u64>) {
  for (k, v) in b {
    *a.entry(k.to_string()).or_default() += v;
  }
}
#[derive(Default)]
struct Total {
  runs: u64,
  steps: u64,
  commits: u64,
  given_up: u64,
  draws: u64,
  nontrivial: u64,
  foreign: BTreeMap<String, u64>,
  kinds: BTreeMap<String, u64>,
  faults: BTreeMap<String, u64>,
  probes: BTreeMap<String, u64>,
  refused: BTreeMap<String, u64>,
  evals: BTreeMap<String, u64>,
  logs: HashSet<u64>,
  states: HashSet<u64>,
  max_nodes: usize,
  determinism_pairs: u64,
  determinism_bad: u64,
  harness: Vec<String>,
  samples: Vec<Value>,
  hits: Vec<(u64, Viol)>,
}

fn worker(prop: &str, base: u64, first: u64, runs: u64, wall: u64, out: &str, replays: &str) -> i32 {
  let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
  let status = std::fs::File::create(format!("{out}.status")).expect("status file");
  let next = AtomicU64::new(0);
  let stop = AtomicBool::new(false);
  let tot = Mutex::new(Total::default());
  let slots: Vec<Arc<Slot>> = (0..nthreads).map(|_| new_slot()).collect();
  let t0 = Instant::now();
  now_ms();
  let finished = Arc::new(AtomicBool::new(false));
  {
    // watchdog: a run that does not end
    let slots = slots.clone();
    let finished = finished.clone();
    let out = out.to_string();
    let prop = prop.to_string();
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(300));
      if finished.load(SeqCst) {
        return;
      }
      for s in &slots {
        if !s.busy.load(SeqCst) {
          continue;
        }
        let wall = now_ms().saturating_sub(s.start_ms.load(SeqCst));
        if wall > 15_000 && cpu_ms(s.tid.load(SeqCst)) > 15_000 || wall > 240_000 {
          let v = json!({"hang": {"idx": s.idx.load(SeqCst), "seed": run_seed(base, &prop, s.idx.load(SeqCst)).to_string(), "step": s.step.load(SeqCst)}});
          let _ = std::fs::write(format!("{out}.hang"), v.to_string());
          std::process::exit(3);
        }
      }
    });
  }
  std::thread::scope(|sc| {
    for k in 0..nthreads {
      let (next, stop, tot, slot, status) = (&next, &stop, &tot, slots[k].clone(), &status);
      sc.spawn(move || loop {
        if stop.load(SeqCst) || t0.elapsed().as_secs() >= wall {
          break;
        }
        let i = next.fetch_add(1, SeqCst);
        if i >= runs {
          break;
        }
        let idx = first + i;
        slot.idx.store(idx, SeqCst);
        slot.step.store(0, SeqCst);
        let _ = status.write_at(&(idx + 1).to_le_bytes(), k as u64 * 8);
        let seed = run_seed(base, prop, idx);
        let cfg = gen_cfg(prop, seed);
        let plan = Plan { prop: prop.into(), seed, steps: gen_steps(&cfg, seed) };
        let v = evaluate(&plan, &cfg, false, &slot);
        let mut bad = false;
        let pair = i % 40 == 0;
        if pair {
          let o = exec(&plan, &cfg, mix2(seed, 0xe1), false, &slot);
          bad = o.log != v.out.log || o.viol.as_ref().map(|v| &v.msg) != v.out.viol.as_ref().map(|v| &v.msg);
        }
        let _ = status.write_at(&0u64.to_le_bytes(), k as u64 * 8);
        let mut t = tot.lock().unwrap();
        t.runs += 1;
        t.determinism_pairs += pair as u64;
        t.determinism_bad += bad as u64;
        let st = &v.out.st;
        t.steps += st.steps;
        t.commits += st.commits_ok;
        t.given_up += st.given_up;
        t.draws += v.out.draws;
        t.max_nodes = t.max_nodes.max(st.max_nodes);
        addm(&mut t.kinds, &st.kinds);
        addm(&mut t.faults, &st.faults);
        addm(&mut t.probes, &st.probes);
        addm(&mut t.refused, &st.refused);
        addm(&mut t.evals, &st.evals);
        let h = v.out.log.iter().fold(1, |h, x| mix2(h, *x));
        let fresh = t.logs.insert(h);
        let relevant = st.evals.get(prop).copied().unwrap_or(0);
        let nt = fresh && st.commits_ok >= 2 && relevant >= 1;
        if nt {
          t.nontrivial += 1;
        }
        if t.states.len() < 4_000_000 {
          t.states.extend(st.states.iter().copied());
        }
        if t.samples.len() < 3 && nt {
          t.samples.push(json!({"seed": seed.to_string(), "schema": cfg.schema, "clients": cfg.clients, "graphs": cfg.graphs,
            "steps": plan.steps.iter().take(40).map(|s| KNAMES[s.0 as usize]).collect::<Vec<_>>().join(" "),
            "commits": st.commits_ok, "faults": st.faults}));
        }
        if let Some(h) = v.harness {
          if t.harness.len() < 10 {
            t.harness.push(format!("seed {seed}: {h}"));
          }
        }
        if let Some(f) = v.foreign {
          *t.foreign.entry(f.tags.join("+")).or_default() += 1;
        }
        if let Some(x) = v.hit {
          t.hits.push((idx, x));
          stop.store(true, SeqCst);
        }
      });
    }
  });
  let mut t = tot.into_inner().unwrap();
  let search_s = t0.elapsed().as_secs_f64();
  let mut code = 0;
  let mut replay = Value::Null;
  t.hits.sort_by_key(|h| h.0);
  if let Some((idx, v)) = t.hits.first().cloned() {
    code = 1;
    let seed = run_seed(base, prop, idx);
    let cfg = gen_cfg(prop, seed);
    let plan = Plan { prop: prop.into(), seed, steps: gen_steps(&cfg, seed) };
    let slot = slots[0].clone();
    slot.idx.store(idx, SeqCst);
    let path = format!("{replays}/{prop}-{seed:016x}-{}.json", if cfg!(debug_assertions) { "d" } else { "r" });
    let emit = |p: &Plan, v: &Viol, tr: &[String]| {
      let j = replay_json(p, &cfg, v, plan.steps.len(), "violation", tr);
      std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
    };
    emit(&plan, &v, &[]);
    let (p, v) = minimise(&plan, &cfg, &v, &slot, Instant::now() + Duration::from_secs(40));
    let tr = evaluate(&p, &cfg, true, &slot).out.trace;
    emit(&p, &v, &tr);
    replay = json!({"path": path, "violation": v.msg, "tags": v.tags, "steps": p.steps.len(), "original_steps": plan.steps.len(), "seed": seed.to_string()});
  }
  finished.store(true, SeqCst);
  let j = json!({
    "profile": profile(), "runs": t.runs, "steps": t.steps, "commits": t.commits, "given_up": t.given_up,
    "entropy_draws": t.draws, "nontrivial": t.nontrivial, "distinct_logs": t.logs.len(), "distinct_states": t.states.len(),
    "max_nodes": t.max_nodes, "foreign": t.foreign, "kinds": t.kinds, "faults": t.faults, "probes": t.probes,
    "refused": t.refused, "evals": t.evals, "determinism_pairs": t.determinism_pairs, "determinism_bad": t.determinism_bad,
    "harness": t.harness, "samples": t.samples, "search_s": search_s, "replay": replay, "threads": nthreads,
    "complete": t.runs >= runs || code == 1,
  });
  std::fs::write(out, j.to_string()).expect("summary");
  code
}
fn load_plan(path: &str) -> (Plan, Value) {
  let j: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay json");
  let steps = j["steps"]
    .as_array()
    .expect("steps")
    .iter()
    .map(|s| {
      let k = KNAMES.iter().position(|n| *n == s[0].as_str().unwrap_or("")).expect("step kind");
      Step(k as u8, s[1].as_str().unwrap().parse().unwrap())
    })
    .collect();
  let p = Plan {
    prop: j["property"].as_str().unwrap().into(),
    seed: j["seed"].as_str().unwrap().parse().unwrap(),
    steps,
  };
  (p, j)
}
/// run one plan with a watchdog; exit 1 = violation, 0 = none, 2 = harness error, 3 = does not end
fn single(plan: &Plan, trace: bool, limit_ms: u64) -> i32 {
  let cfg = gen_cfg(&plan.prop, plan.seed);
  let slot = new_slot();
  let s2 = slot.clone();
  now_ms();
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(100));
    if s2.busy.load(SeqCst) {
      let wall = now_ms().saturating_sub(s2.start_ms.load(SeqCst));
      if wall > limit_ms && cpu_ms(s2.tid.load(SeqCst)) > limit_ms || wall > 240_000 {
        println!("HANG at step {}", s2.step.load(SeqCst));
        let _ = std::io::stdout().flush();
        std::process::exit(3);
      }
    }
  });
  let v = evaluate(plan, &cfg, trace, &slot);
  for l in &v.out.trace {
    println!("  {l}");
  }
  if trace {
    println!("cfg {cfg:?}");
  }
  if let Some(h) = v.harness {
    println!("HARNESS ERROR {h}");
    return 2;
  }
  if let Some(f) = v.foreign {
    println!("stopped at step {} by {:?}: {}", f.step, f.tags, f.msg);
  }
  match v.hit {
    Some(x) => {
      println!("VIOLATED at step {} {:?}: {}", x.step, x.tags, x.msg);
      1
    },
    None => 0,
  }
}
fn main() {
  install_hook();
  let a: Vec<String> = std::env::args().collect();
  let n = |i: usize| a[i].parse::<u64>().expect("number");
  let code = match a.get(1).map(|s| s.as_str()) {
    // worker PROP BASE FIRST RUNS WALL OUT REPLAYDIR
    Some("worker") => worker(&a[2], n(3), n(4), n(5), n(6), &a[7], &a[8]),
    // one PROP BASE IDX
    Some("one") => {
      let seed = run_seed(n(3), &a[2], n(4));
      let cfg = gen_cfg(&a[2], seed);
      single(&Plan { prop: a[2].clone(), seed, steps: gen_steps(&cfg, seed) }, false, 15_000)
    },
    // seed PROP SEED: traced
    Some("seed") => {
      let seed = n(3);
      let cfg = gen_cfg(&a[2], seed);
      single(&Plan { prop: a[2].clone(), seed, steps: gen_steps(&cfg, seed) }, true, 15_000)
    },
    // emit PROP BASE IDX NSTEPS CLASS MSG PATH: write a replay file for a run that kills or hangs the process
    Some("emit") => {
      let seed = run_seed(n(3), &a[2], n(4));
      let cfg = gen_cfg(&a[2], seed);
      let mut steps = gen_steps(&cfg, seed);
      let orig = steps.len();
      steps.truncate(n(5) as usize);
      let p = Plan { prop: a[2].clone(), seed, steps };
      let v = Viol { tags: vec![], msg: a[7].clone(), step: 0 };
      std::fs::write(&a[8], serde_json::to_string_pretty(&replay_json(&p, &cfg, &v, orig, &a[6], &[])).unwrap()).unwrap();
      0
    },
    // replay FILE [quiet]
    Some("replay") => {
      let (p, _) = load_plan(&a[2]);
      single(&p, a.get(3).is_none(), 8_000)
    },
    _ => {
      eprintln!("usage: worker|one|seed|emit|replay");
      2
    },
  };
  std::process::exit(code);
}
