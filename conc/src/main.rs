//! Threaded simulation of TTGraph: real threads share a context; one runs at a time, and a seeded
//! scheduler preempts them inside the library's code (conc/sched). Every run is a forked process.
#![allow(dead_code)]
#[path = "../../sim/src/bin.rs"]
mod bin;
#[path = "../../sim/src/disk.rs"]
mod disk;
#[path = "../../sim/src/entropy.rs"]
mod entropy;
#[path = "../../sim/src/model.rs"]
mod model;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/schemas.rs"]
mod schemas;
#[path = "../../sim/src/sim.rs"]
mod sim;
mod seam {
  pub use ttsched::{lib, now, op_point, quiet};
}

use rng::{mix2, Rng};
use serde_json::{json, Value};
use sim::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use ttgraph::{Context, Graph, Transaction};
use ttsched::{Knobs, Switch};

thread_local! {
  static PANIC_LOC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    ttsched::quiet(|| {
      let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
      } else {
        "panic".to_string()
      };
      let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
      let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = msg);
      let _ = PANIC_LOC.try_with(|m| *m.borrow_mut() = loc);
    })
  }));
}

#[derive(Clone)]
struct Plan {
  prop: String,
  seed: u64,
  steps: Vec<Vec<Step>>,
  switches: Option<Vec<Switch>>,
}
struct TCfg {
  threads: usize,
  knobs: Knobs,
  cfgs: Vec<Cfg>,
  tail: bool,
  preburn: usize,
}
fn gen(prop: &str, seed: u64) -> TCfg {
  let mut r = Rng::new(mix2(seed, 0x7c0f));
  let threads = match r.below(64) {
    0 => r.range(9, 12),
    1..=2 => r.range(5, 8),
    3..=12 => 4,
    13..=32 => 3,
    _ => 2,
  };
  let knobs = Knobs { hot: *r.pick(&[2, 3, 5, 9]), cold: *r.pick(&[100, 1000, 10_000, 100_000]), op: *r.pick(&[1, 2, 4]), stall: *r.pick(&[1, 4, 16, u64::MAX]), limit: if prop == "C16" { 8_000_000_000 } else { 400_000_000 } };
  let schema = *r.pick(&[0usize, 0, 1, 2, 3, 4, 5]);
  let cfgs = (0..threads)
    .map(|k| {
      let mut c = gen_cfg(prop, mix2(seed, 0x100 + k as u64));
      c.schema = schema;
      c.clients = c.clients.min(2);
      c.graphs = c.graphs.min(2);
      c.ctxs = c.ctxs.min(2);
      c.soft_nodes = c.soft_nodes.min(6);
      c.bulk = 4;
      c.chain = c.chain.min(5);
      c.maxset = c.maxset.min(3);
      c.hi_ids = false;
      c.weights[K::Crash as usize] = 0;
      for k in [K::Torn, K::Dup, K::ReadFault, K::SaveFault] {
        c.weights[k as usize] = c.weights[k as usize].min(1);
      }
      c.weights[K::Burn as usize] += 12;
      c.weights[K::SwitchCtx as usize] += 6;
      c.steps = match threads {
        5.. => r.range(1, 8),
        _ if prop == "C16" => r.range(2, 12),
        _ => r.range(2, 24),
      };
      c
    })
    .collect();
  let tail = r.chance(1, 4);
  let preburn = match r.below(4) {
    0 => (1usize << r.range(4, 12)) - r.range(0, 15),
    _ => 0,
  };
  TCfg { threads, knobs, cfgs, tail, preburn }
}
fn gen_plan(prop: &str, seed: u64) -> Plan {
  let t = gen(prop, seed);
  let steps = t.cfgs.iter().enumerate().map(|(k, c)| gen_steps(c, mix2(seed, 0x200 + k as u64))).collect();
  Plan { prop: prop.into(), seed, steps, switches: None }
}

fn one_thread<S: schemas::Schema>(k: usize, cfg: &Cfg, seed: u64, steps: &[Step], tail: bool, sh: Arc<Shared>, trace: bool) -> Value {
  let mut w = ttsched::quiet(|| {
    let mut w = World::<S>::new(cfg, trace);
    w.shared = Some(sh);
    w.with_tail = tail;
    w
  });
  let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run(seed, steps, &|_| ())));
  ttsched::quiet(|| {
    let mut v = json!({"thread": k, "commits": w.st.commits_ok, "steps": w.st.steps, "faults": w.st.faults, "evals": w.st.evals,
      "log": w.log.iter().fold(1u64, |h, x| mix2(h, *x)).to_string(), "trace": w.trace.take().unwrap_or_default()});
    match res {
      Ok(Ok(())) => {},
      Ok(Err(e)) => v["viol"] = json!({"tags": e.tags, "msg": e.msg, "step": e.step}),
      Err(_) => {
        let msg = PANIC_MSG.with(|m| m.borrow().clone());
        let loc = PANIC_LOC.with(|m| m.borrow().clone());
        v["escaped"] = json!({"msg": format!("{msg} ({loc})"), "own": loc.starts_with("src/") && !loc.contains("schemas.rs")});
      },
    }
    // whatever the library still holds goes away unscheduled
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(w)));
    v
  })
}
/// the whole run, in this process
fn run_here(plan: &Plan, trace: bool) -> Value {
  let t = gen(&plan.prop, plan.seed);
  entropy::seed_thread(mix2(plan.seed, 0xe1));
  let sh = Arc::new(Shared { ctx: SendCtx(Context::new()), issued: Mutex::new(BTreeSet::new()), ctxs: Mutex::new(vec![]) });
  sh.ctxs.lock().unwrap().push(SendCtx(sh.ctx.0.clone()));
  // the shared context has been in use: up to just below a round number of indices
  let mut t0: Transaction<<schemas::Plain as schemas::Schema>::N> = Transaction::new(&sh.ctx.0);
  for _ in 0..t.preburn {
    let i = t0.alloc_untyped().0;
    if i == 0 || !sh.issued.lock().unwrap().insert(i) {
      return json!({"viol": {"tags": ["C01"], "msg": format!("alloc handed out index {i} although it was handed out before"), "thread": 255, "step": 0}});
    }
  }
  drop(t0);
  ttsched::setup(t.threads, mix2(plan.seed, 0x5c4ed), t.knobs, plan.switches.clone());
  let out: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
  let mut hs = vec![];
  for k in 0..t.threads {
    let (cfg, steps, sh, out) = (t.cfgs[k].clone(), plan.steps[k].clone(), sh.clone(), out.clone());
    let seed = plan.seed;
    let tail = t.tail;
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
      entropy::seed_thread(mix2(seed, 0xe100 + k as u64));
      ttsched::enter(k);
      let s = mix2(seed, 0x300 + k as u64);
      let v = match cfg.schema {
        0 => one_thread::<schemas::Plain>(k, &cfg, s, &steps, tail, sh, trace),
        1 => one_thread::<schemas::OrgS>(k, &cfg, s, &steps, tail, sh, trace),
        2 => one_thread::<schemas::LrS>(k, &cfg, s, &steps, tail, sh, trace),
        3 => one_thread::<schemas::XyS>(k, &cfg, s, &steps, tail, sh, trace),
        4 => one_thread::<schemas::SoloS>(k, &cfg, s, &steps, tail, sh, trace),
        _ => one_thread::<schemas::TangleS>(k, &cfg, s, &steps, tail, sh, trace),
      };
      ttsched::quiet(|| out.lock().unwrap().push(v));
      ttsched::finish(k);
    });
    hs.push(h.expect("spawn"));
    while ttsched::arrived() <= k {
      std::thread::yield_now();
    }
  }
  ttsched::start();
  for h in hs {
    let _ = h.join();
  }
  let rep = ttsched::report();
  let threads = std::mem::take(&mut *out.lock().unwrap());
  let mut viol = Value::Null;
  for v in &threads {
    if !v["viol"].is_null() && viol.is_null() {
      viol = v["viol"].clone();
      viol["thread"] = v["thread"].clone();
    }
    if !v["escaped"].is_null() && viol.is_null() {
      viol = json!({"tags": ["*"], "msg": v["escaped"]["msg"], "own": v["escaped"]["own"], "thread": v["thread"], "step": 0});
    }
  }
  // contexts created side by side are different contexts
  let cs = sh.ctxs.lock().unwrap();
  let mut pairs = 0;
  if viol.is_null() {
    for i in 0..cs.len() {
      for j in 0..cs.len() {
        let mut g = Graph::<<schemas::Plain as schemas::Schema>::N>::new(&cs[i].0);
        let t = Transaction::new(&cs[j].0);
        let ok = guard(|| g.commit(t)).is_ok();
        pairs += 1;
        if ok != (i == j) && viol.is_null() {
          viol = json!({"tags": ["C04"], "msg": format!("contexts {i} and {j} of {} created by concurrent threads: commit accepted = {ok}", cs.len()), "thread": 255, "step": 0});
        }
      }
    }
  }
  let mut logs: Vec<String> = threads.iter().map(|v| format!("{}:{}", v["thread"], v["log"])).collect();
  logs.sort();
  let h = logs.join(",").bytes().fold(3u64, |h, b| mix2(h, b as u64));
  let h2 = rep.trace.iter().fold(h, |h, s| mix2(h, mix2(s.1, s.0 as u64 * 300 + s.2 as u64)));
  json!({"viol": viol, "threads": threads, "events": rep.events, "hot": rep.hot_events, "waits": rep.futex_waits,
    "switches": rep.trace, "log": h.to_string(), "sched": h2.to_string(), "pairs": pairs, "issued": sh.issued.lock().unwrap().len()})
}

extern "C" {
  fn fork() -> i32;
  fn pipe(p: *mut i32) -> i32;
  fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
  fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
  fn close(fd: i32) -> i32;
  fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
  fn alarm(s: u32) -> u32;
  fn memfd_create(n: *const std::ffi::c_char, f: u32) -> i32;
  fn pread(fd: i32, b: *mut std::ffi::c_void, n: usize, o: i64) -> isize;
  fn pwrite(fd: i32, b: *const std::ffi::c_void, n: usize, o: i64) -> isize;
}
/// Runs are children of a process that was forked before anything else happened and that allocates
/// nothing itself, so each starts from the same memory; requests and results pass through a memory file.
struct Zygote {
  mem: i32,
  req: i32,
  ack: i32,
}
static mut ZYGOTE: Zygote = Zygote { mem: -1, req: -1, ack: -1 };
unsafe fn write_all(fd: i32, mut b: &[u8], mut off: i64) {
  while !b.is_empty() {
    let n = pwrite(fd, b.as_ptr().cast(), b.len(), off);
    if n <= 0 {
      ttsched::raw_exit(46);
    }
    b = &b[n as usize..];
    off += n as i64;
  }
}
fn read_mem(fd: i32, len: usize) -> Vec<u8> {
  let mut v = vec![0u8; len];
  let mut at = 0;
  while at < len {
    let n = unsafe { pread(fd, v[at..].as_mut_ptr().cast(), len - at, at as i64) };
    assert!(n > 0, "memory file");
    at += n as usize;
  }
  v
}
fn zygote() {
  unsafe {
    let mem = memfd_create(c"ttconc".as_ptr(), 0);
    let (mut p, mut q) = ([0i32; 2], [0i32; 2]);
    assert!(mem >= 0 && pipe(p.as_mut_ptr()) == 0 && pipe(q.as_mut_ptr()) == 0);
    let pid = fork();
    assert!(pid >= 0, "fork");
    if pid != 0 {
      close(p[0]);
      close(q[1]);
      ZYGOTE = Zygote { mem, req: p[1], ack: q[0] };
      return;
    }
    close(p[1]);
    close(q[0]);
    loop {
      let mut len = 0u64;
      if read(p[0], (&mut len as *mut u64).cast(), 8) != 8 {
        ttsched::raw_exit(0);
      }
      let pid = fork();
      if pid == 0 {
        alarm(170);
        let (plan, trace) = decode(&read_mem(mem, len as usize));
        let v = run_here(&plan, trace).to_string();
        write_all(mem, &(v.len() as u64).to_le_bytes(), 0);
        write_all(mem, v.as_bytes(), 8);
        ttsched::raw_exit(0);
      }
      let mut st = -1i32;
      if pid > 0 {
        waitpid(pid, &mut st, 0);
      }
      write(q[1], (&st as *const i32).cast(), 4);
    }
  }
}
fn encode(plan: &Plan, trace: bool) -> Vec<u8> {
  let steps: Vec<Vec<(u8, u64)>> = plan.steps.iter().map(|t| t.iter().map(|s| (s.0, s.1)).collect()).collect();
  serde_json::to_vec(&(&plan.prop, plan.seed, steps, &plan.switches, trace)).unwrap()
}
fn decode(b: &[u8]) -> (Plan, bool) {
  type T = (String, u64, Vec<Vec<(u8, u64)>>, Option<Vec<Switch>>, bool);
  let (prop, seed, steps, switches, trace): T = serde_json::from_slice(b).expect("request");
  let steps = steps.into_iter().map(|t| t.into_iter().map(|s| Step(s.0, s.1)).collect()).collect();
  (Plan { prop, seed, steps, switches }, trace)
}
/// run in a child process; a death, deadlock or endless run comes back as a violation of everything
#[allow(static_mut_refs)]
fn run(plan: &Plan, trace: bool) -> Value {
  unsafe {
    let b = encode(plan, trace);
    write_all(ZYGOTE.mem, &b, 0);
    let len = b.len() as u64;
    assert!(write(ZYGOTE.req, (&len as *const u64).cast(), 8) == 8, "zygote");
    let mut st = 0i32;
    assert!(read(ZYGOTE.ack, (&mut st as *mut i32).cast(), 4) == 4, "zygote");
    assert!(st != -1, "no child process");
    let what = if st & 0x7f != 0 {
      if st & 0x7f == 14 { "a threaded run does not end".to_string() } else { format!("the process died of signal {}", st & 0x7f) }
    } else {
      match st >> 8 & 0xff {
        0 => {
          let n = u64::from_le_bytes(read_mem(ZYGOTE.mem, 8).try_into().unwrap());
          let v = read_mem(ZYGOTE.mem, 8 + n as usize);
          match serde_json::from_slice::<Value>(&v[8..]) {
            Ok(v) => return v,
            Err(e) => format!("no result: {e}"),
          }
        },
        44 => "all threads wait for each other".to_string(),
        45 => "a threaded run does not end".to_string(),
        46 => panic!("memory file"),
        c => format!("the process ended with {c}"),
      }
    };
    json!({"viol": {"tags": ["*"], "msg": what, "thread": 255, "step": 0}})
  }
}
fn hit(prop: &str, v: &Value) -> Option<String> {
  let t = v["viol"]["tags"].as_array()?;
  if v["viol"]["own"] == json!(true) {
    return None;
  }
  t.iter().any(|x| x == prop || x == "*").then(|| v["viol"]["msg"].as_str().unwrap_or("").to_string())
}
fn ddmin<T: Clone>(items: Vec<T>, deadline: Instant, bad: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
  let mut best = items;
  let mut n = 2usize;
  while best.len() >= 2 && Instant::now() < deadline {
    let chunk = best.len().div_ceil(n);
    let mut reduced = false;
    let mut at = 0;
    while at < best.len() && Instant::now() < deadline {
      let mut p = best.clone();
      let to = (at + chunk).min(p.len());
      p.drain(at..to);
      if bad(&p) {
        best = p;
        reduced = true;
      } else {
        at += chunk;
      }
    }
    if reduced {
      n = n.saturating_sub(1).max(2);
    } else if chunk == 1 {
      break;
    } else {
      n = (n * 2).min(best.len());
    }
  }
  best
}
fn minimise(plan: &Plan, res: &Value) -> (Plan, Value) {
  let d = Instant::now() + Duration::from_secs(40);
  let mut best = plan.clone();
  let mut bres = res.clone();
  // operations first, under the seeded scheduler
  let flat: Vec<(usize, Step)> = plan.steps.iter().enumerate().flat_map(|(k, v)| v.iter().map(move |s| (k, *s))).collect();
  let n = plan.steps.len();
  ddmin(flat, d, &mut |it| {
    let mut p = plan.clone();
    p.steps = vec![vec![]; n];
    for (k, s) in it {
      p.steps[*k].push(*s);
    }
    let r = run(&p, false);
    let b = hit(&p.prop, &r).is_some();
    if b {
      best = p;
      bres = r;
    }
    b
  });
  // then the preemptions, explicitly
  if let Ok(sw) = serde_json::from_value::<Vec<Switch>>(bres["switches"].clone()) {
    let base = best.clone();
    let mut p = base.clone();
    p.switches = Some(sw.clone());
    let r = run(&p, false);
    if hit(&p.prop, &r).is_some() {
      best = p;
      bres = r;
      ddmin(sw, d + Duration::from_secs(30), &mut |it| {
        let mut p = base.clone();
        p.switches = Some(it.to_vec());
        let r = run(&p, false);
        let b = hit(&p.prop, &r).is_some();
        if b {
          best = p;
          bres = r;
        }
        b
      });
    }
  }
  (best, bres)
}
fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
  let h = prop.bytes().fold(11u64, |h, b| mix2(h, b as u64));
  mix2(mix2(base, h), idx)
}
fn worker(prop: &str, base: u64, first: u64, stride: u64, runs: u64, wall: u64, out: &str, dir: &str) -> i32 {
  let t0 = Instant::now();
  let (mut n, mut nontriv, mut events, mut hot, mut waits, mut switches, mut commits, mut steps, mut issued, mut pairs) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
  let mut det = (0u64, 0u64);
  let mut logs = BTreeSet::new();
  let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
  let mut evals: BTreeMap<String, u64> = BTreeMap::new();
  let mut faults: BTreeMap<String, u64> = BTreeMap::new();
  let mut harness: Vec<String> = vec![];
  let mut samples: Vec<Value> = vec![];
  let mut replay = Value::Null;
  for i in 0..runs {
    if t0.elapsed().as_secs() >= wall {
      break;
    }
    let idx = first + i * stride;
    let seed = run_seed(base, prop, idx);
    let plan = gen_plan(prop, seed);
    let v = run(&plan, false);
    n += 1;
    if i % 25 == 0 {
      // the same seed again: the same execution
      let w = run(&plan, false);
      det.0 += 1;
      det.1 += (w["sched"] != v["sched"] || w["viol"] != v["viol"]) as u64;
    }
    let g = |k: &str| v[k].as_u64().unwrap_or(0);
    events += g("events");
    hot += g("hot");
    waits += g("waits");
    issued += g("issued");
    pairs += g("pairs");
    let sw = v["switches"].as_array().map(|a| a.len()).unwrap_or(0) as u64;
    switches += sw;
    let fresh = logs.insert(v["sched"].as_str().unwrap_or("").to_string());
    let mut active = 0;
    for t in v["threads"].as_array().unwrap_or(&vec![]) {
      commits += t["commits"].as_u64().unwrap_or(0);
      steps += t["steps"].as_u64().unwrap_or(0);
      active += (t["steps"].as_u64().unwrap_or(0) > 0) as u64;
      for (m, k) in [(&mut evals, "evals"), (&mut faults, "faults")] {
        for (a, b) in t[k].as_object().into_iter().flatten() {
          *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
        }
      }
    }
    if fresh && active >= 2 && sw > active {
      nontriv += 1;
    }
    if samples.is_empty() && active >= 2 {
      samples.push(json!({"seed": seed.to_string(), "threads": plan.steps.iter().map(|s| s.iter().map(|s| KNAMES[s.0 as usize]).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>(), "preemptions": sw}));
    }
    if v["viol"]["own"] == json!(true) {
      harness.push(format!("seed {seed}: {}", v["viol"]["msg"]));
      continue;
    }
    if hit(prop, &v).is_some() {
      let (p, r) = minimise(&plan, &v);
      let tr = run(&p, true);
      let path = format!("{dir}/{prop}-{seed:016x}-t.json");
      let j = json!({"engine": "B", "property": prop, "class": "violation", "profile": "threads", "seed": seed.to_string(),
        "violation": r["viol"]["msg"], "at": r["viol"], "original_steps": plan.steps.iter().map(|s| s.len()).sum::<usize>(),
        "original_preemptions": sw,
        "steps": p.steps.iter().map(|t| t.iter().map(|s| json!([KNAMES[s.0 as usize], s.1.to_string()])).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "switches": p.switches, "traces": tr["threads"].as_array().map(|a| a.iter().map(|t| json!({"thread": t["thread"], "trace": t["trace"]})).collect::<Vec<_>>())});
      std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
      replay = json!({"path": path, "violation": r["viol"]["msg"], "seed": seed.to_string()});
      break;
    }
    if !v["viol"].is_null() {
      *foreign.entry(v["viol"]["tags"].to_string()).or_default() += 1;
    }
  }
  let code = !replay.is_null() as i32;
  let j = json!({"runs": n, "nontrivial": nontriv, "steps": steps, "commits": commits, "events": events, "shared_accesses": hot,
    "blocked_waits": waits, "preemptions": switches, "indices_compared_across_threads": issued, "context_pairs": pairs,
    "distinct_schedules": logs.len(), "determinism_pairs": det.0, "determinism_bad": det.1, "foreign": foreign, "evals": evals,
    "faults": faults, "harness": harness, "samples": samples, "search_s": t0.elapsed().as_secs_f64(), "replay": replay});
  std::fs::write(out, j.to_string()).expect("summary");
  code
}
fn load(path: &str) -> Plan {
  let j: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay json");
  let steps = j["steps"].as_array().expect("steps").iter().map(|t| {
    t.as_array().unwrap().iter().map(|s| {
      let k = KNAMES.iter().position(|n| *n == s[0].as_str().unwrap_or("")).expect("step kind");
      Step(k as u8, s[1].as_str().unwrap().parse().unwrap())
    }).collect()
  }).collect();
  Plan {
    prop: j["property"].as_str().unwrap().into(),
    seed: j["seed"].as_str().unwrap().parse().unwrap(),
    steps,
    switches: serde_json::from_value(j["switches"].clone()).unwrap_or(None),
  }
}
fn show(plan: &Plan, trace: bool) -> i32 {
  let v = run(plan, trace);
  if trace {
    for t in v["threads"].as_array().unwrap_or(&vec![]) {
      for l in t["trace"].as_array().unwrap_or(&vec![]) {
        println!("  thread {} {}", t["thread"], l.as_str().unwrap_or(""));
      }
    }
    println!("schedule (thread, its event number, next thread): {}", v["switches"]);
  }
  if v["viol"]["own"] == json!(true) {
    println!("HARNESS ERROR {}", v["viol"]["msg"]);
    return 2;
  }
  match hit(&plan.prop, &v) {
    Some(m) => {
      println!("VIOLATED {}: {m}", v["viol"]["tags"]);
      1
    },
    None => {
      println!("held {}", v["viol"]);
      0
    },
  }
}
fn main() {
  install_hook();
  zygote();
  let a: Vec<String> = std::env::args().collect();
  let n = |i: usize| a[i].parse::<u64>().expect("number");
  let code = match a.get(1).map(|s| s.as_str()) {
    // worker PROP BASE FIRST STRIDE RUNS WALL OUT REPLAYDIR
    Some("worker") => worker(&a[2], n(3), n(4), n(5), n(6), n(7), &a[8], &a[9]),
    Some("one") => show(&gen_plan(&a[2], run_seed(n(3), &a[2], n(4))), true),
    Some("replay") => show(&load(&a[2]), a.get(3).is_none()),
    _ => 2,
  };
  std::process::exit(code);
}
