//! The simulated world: clients building transactions, graphs, contexts, storage; one seeded
//! schedule decides every step; every effect is compared with the reference model.
use crate::bin::{BinDe, BinSer};
use crate::disk::{SimReader, SimWriter, WFault};
use crate::model::*;
use crate::rng::{mix2, Rng};
use crate::schemas::Schema;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use ttgraph::check::GraphCheck;
use ttgraph::serialize::{deserialize_graph, GraphSerializer};
use ttgraph::*;

thread_local! {
  pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
/// run a call into the library; a panic is reported as its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(|| crate::seam::lib(f))).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
/// the same for reads by the oracles, which are no scheduling points
pub fn guard_read<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

macro_rules! kinds {
  ($($k:ident),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u8)]
    pub enum K { $($k),* }
    pub const KINDS: &[K] = &[$(K::$k),*];
    pub const KNAMES: &[&str] = &[$(stringify!($k)),*];
  };
}
kinds!(
  Insert, AllocT, AllocU, Fill, Remove, Mutate, Update, RedirPre, RedirAll, Chain, Extend, Merge, Commit, Checked,
  Abandon, SwitchCtx, NewGraph, Burn, Save, SaveFault, Fsync, Verify, Torn, Dup, ReadFault, Crash, Recover, Views,
  Misdirect, Unfilled, LoopPre, LoopAll, ForeignMerge, BadFill, StaleOp, ClosurePanic, BadCommit, Finish, Pair,
  LateTarget, Rewire, Import, Skew,
);
pub const NK: usize = K::Skew as usize + 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Step(pub u8, pub u64);

#[derive(Clone, Debug)]
pub struct Viol {
  pub tags: Vec<&'static str>,
  pub msg: String,
  pub step: usize,
}

/// Swarm configuration of a run, a pure function of its seed.
#[derive(Clone, Debug)]
pub struct Cfg {
  pub schema: usize,
  pub clients: usize,
  pub graphs: usize,
  pub ctxs: usize,
  pub soft_nodes: usize,
  pub maxset: usize,
  pub link_p: usize,
  pub dangling: bool,
  pub variants: bool,
  pub illtyped: usize,
  pub conflict: usize,
  pub commit_bad: usize,
  pub bulk: usize,
  pub chain: usize,
  pub hi_ids: bool,
  pub macros: bool,
  pub weights: Vec<usize>,
  pub steps: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
  pub kinds: BTreeMap<&'static str, u64>,
  pub faults: BTreeMap<&'static str, u64>,
  pub probes: BTreeMap<&'static str, u64>,
  pub commits_ok: u64,
  pub refused: BTreeMap<&'static str, u64>,
  pub given_up: u64,
  pub states: Vec<u64>,
  pub steps: u64,
  pub max_nodes: usize,
  /// oracle evaluations per property
  pub evals: BTreeMap<&'static str, u64>,
}
impl Stats {
  fn fault(&mut self, k: &'static str) {
    *self.faults.entry(k).or_default() += 1;
  }
  fn eval(&mut self, k: &'static str) {
    *self.evals.entry(k).or_default() += 1;
  }
  fn probe(&mut self, k: &'static str) {
    *self.probes.entry(k).or_default() += 1;
  }
}

pub fn gen_cfg(prop: &str, seed: u64) -> Cfg {
  let mut r = Rng::new(mix2(seed, 0xc0f));
  let mut w = vec![0usize; NK];
  let mut set = |k: K, n: usize| w[k as usize] = n;
  set(K::Insert, 60);
  set(K::AllocT, 12);
  set(K::AllocU, 12);
  set(K::Fill, 40);
  set(K::Remove, 14);
  set(K::Mutate, 40);
  set(K::Update, 30);
  set(K::RedirPre, 8);
  set(K::RedirAll, 8);
  set(K::Chain, 3);
  set(K::Extend, 3);
  set(K::Merge, 3);
  set(K::Commit, 45);
  set(K::Checked, 6);
  set(K::Abandon, 6);
  set(K::SwitchCtx, 3);
  set(K::NewGraph, 3);
  set(K::Burn, 2);
  set(K::Save, 4);
  set(K::SaveFault, 2);
  set(K::Fsync, 2);
  set(K::Verify, 2);
  set(K::Torn, 1);
  set(K::Dup, 1);
  set(K::ReadFault, 1);
  set(K::Crash, 2);
  set(K::Recover, 12);
  set(K::Views, 4);
  set(K::Misdirect, 2);
  set(K::Unfilled, 2);
  set(K::LoopPre, 2);
  set(K::LoopAll, 1);
  set(K::ForeignMerge, 2);
  set(K::BadFill, 2);
  set(K::StaleOp, 1);
  set(K::ClosurePanic, 1);
  set(K::BadCommit, 2);
  set(K::Finish, 30);
  set(K::Pair, 10);
  set(K::LateTarget, 3);
  set(K::Rewire, 12);
  set(K::Import, 1);
  let boost: &[(K, usize)] = match prop {
    "C01" => &[(K::AllocT, 30), (K::AllocU, 30), (K::Extend, 10), (K::Burn, 12), (K::SwitchCtx, 10), (K::Crash, 6), (K::Save, 12), (K::Verify, 8), (K::NewGraph, 6), (K::Merge, 8), (K::LateTarget, 8), (K::Import, 4)],
    "C03" => &[(K::Abandon, 40), (K::Misdirect, 8), (K::Unfilled, 6), (K::LoopPre, 6), (K::NewGraph, 8), (K::ClosurePanic, 4), (K::Mutate, 60), (K::Update, 60), (K::Crash, 4)],
    "C04" => &[(K::Misdirect, 14), (K::Unfilled, 14), (K::LoopPre, 12), (K::LoopAll, 6), (K::ForeignMerge, 12), (K::BadFill, 12), (K::StaleOp, 8), (K::NewGraph, 8), (K::SwitchCtx, 8), (K::Save, 10), (K::Recover, 20), (K::Import, 6)],
    "C05" => &[(K::Remove, 40), (K::RedirPre, 25), (K::RedirAll, 25), (K::Chain, 12), (K::Rewire, 25), (K::LateTarget, 5)],
    "C06" => &[(K::Pair, 50), (K::Mutate, 60), (K::Rewire, 40), (K::RedirAll, 14), (K::RedirPre, 14), (K::Remove, 20), (K::BadCommit, 8), (K::LateTarget, 10), (K::Recover, 20), (K::Save, 8)],
    "C07" => &[(K::Mutate, 50), (K::Rewire, 40), (K::BadCommit, 16), (K::RedirAll, 16), (K::RedirPre, 16), (K::LateTarget, 10), (K::Recover, 24), (K::Save, 8), (K::Merge, 8), (K::SwitchCtx, 6)],
    "C08" => &[(K::Save, 25), (K::Fsync, 10), (K::Verify, 20), (K::Crash, 12), (K::Recover, 20), (K::RedirAll, 14), (K::Remove, 20), (K::Import, 8)],
    "C09" => &[(K::Save, 20), (K::SaveFault, 50), (K::Torn, 25), (K::Dup, 25), (K::ReadFault, 20), (K::Verify, 6), (K::Crash, 6), (K::Fsync, 8)],
    "C10" => &[(K::SwitchCtx, 30), (K::Merge, 25), (K::NewGraph, 20), (K::Burn, 10), (K::ForeignMerge, 6), (K::Misdirect, 6), (K::Save, 8), (K::LateTarget, 6), (K::Import, 5)],
    "C11" => &[(K::Views, 40), (K::Remove, 25), (K::Update, 60), (K::Merge, 8), (K::SwitchCtx, 8), (K::Verify, 6)],
    "C12" => &[(K::Views, 25), (K::Remove, 25), (K::SwitchCtx, 6), (K::Merge, 6), (K::BadCommit, 4), (K::Burn, 6)],
    "C16" => &[(K::Skew, 30), (K::Views, 10), (K::Remove, 25), (K::Update, 40), (K::SwitchCtx, 8), (K::Merge, 8), (K::Save, 8), (K::Verify, 6)],
    "C13" => &[(K::Checked, 70), (K::Commit, 10), (K::Rewire, 30), (K::Remove, 25), (K::RedirAll, 14), (K::Recover, 30), (K::Save, 10)],
    _ => &[],
  };
  for (k, n) in boost {
    w[*k as usize] = *n;
  }
  // swarm: switch off a random subset of kinds in most runs
  if r.chance(3, 4) {
    let keep = [K::Insert, K::Commit, K::Checked, K::Recover, K::Fill, K::Finish];
    for k in KINDS {
      let boosted = boost.iter().any(|b| b.0 == *k);
      if !keep.contains(k) && r.chance(if boosted { 1 } else { 3 }, 8) {
        w[*k as usize] = 0;
      } else if r.chance(1, 6) {
        w[*k as usize] *= 3;
      }
    }
  }
  let schemas: &[usize] = match prop {
    "C06" => &[1, 1, 2, 2, 3, 4, 4, 4, 1, 5, 5, 5],
    "C07" => &[1, 1, 2, 2, 3, 1, 2, 5, 5, 5, 5],
    "C05" => &[0, 0, 0, 4, 1, 2, 3, 5],
    _ => &[0, 0, 1, 1, 2, 3, 4, 4, 5],
  };
  let huge = r.chance(1, 400);
  if huge {
    // a large graph, then what works on whole graphs
    for k in [K::Extend, K::Commit, K::Finish, K::Save, K::Verify, K::SwitchCtx, K::Merge, K::Views, K::Remove, K::RedirAll, K::Recover, K::Crash, K::Fsync] {
      w[k as usize] += 12;
    }
  }
  let size = if huge { 16 } else { r.below(16) };
  let bulk = match size {
    16 => HUGE,
    0 => 120,
    1 => 40,
    _ => 4,
  };
  Cfg {
    schema: *r.pick(schemas),
    clients: if huge { r.range(1, 2) } else { r.range(1, 4) },
    graphs: r.range(1, 3),
    ctxs: r.range(1, 3),
    soft_nodes: *r.pick(&[3, 5, 8, 12, 20, 40]),
    maxset: if huge { 300 } else if size == 1 { 24 } else { *r.pick(&[1, 2, 3, 5]) },
    link_p: *r.pick(&[1, 2, 3, 5, 7]),
    dangling: r.chance(1, 2),
    variants: r.chance(1, 3),
    illtyped: if r.chance(1, 2) { 0 } else { 4 },
    conflict: if r.chance(1, 2) { 0 } else { 6 },
    commit_bad: match prop {
      // a large transaction seldom breaks no rule
      "C06" | "C07" | "C04" if bulk > 10 => *r.pick(&[10, 40]),
      "C06" | "C07" | "C04" => *r.pick(&[0, 3, 10]),
      _ => *r.pick(&[0, 0, 2]),
    },
    bulk,
    chain: if huge { 500 } else if size == 2 { 60 } else { 5 },
    hi_ids: r.chance(1, 12),
    macros: r.chance(1, 2),
    weights: w,
    steps: match size {
      16 => r.range(15, 40),
      0 => r.range(30, 90),
      3 => r.range(300, 600),
      4..=8 => r.range(8, 40),
      _ => r.range(40, 220),
    },
  }
}
/// `Cfg::bulk` of a run with a graph of more than a thousand nodes
const HUGE: usize = 1600;
pub fn gen_steps(cfg: &Cfg, seed: u64) -> Vec<Step> {
  let mut r = Rng::new(mix2(seed, 0x57e9));
  let total: usize = cfg.weights.iter().sum();
  (0..cfg.steps)
    .map(|n| {
      if cfg.bulk == HUGE && n < 4 {
        return Step([K::Extend, K::Finish, K::Finish, K::Finish][n] as u8, r.next());
      }
      let mut x = r.below(total);
      let mut k = 0;
      while x >= cfg.weights[k] {
        x -= cfg.weights[k];
        k += 1;
      }
      Step(k as u8, r.next())
    })
    .collect()
}

type Txn<S> = Transaction<'static, <S as Schema>::N>;
type RunLog = Rc<RefCell<Vec<(usize, ANode)>>>;

/// a context as handed to another thread
pub struct SendCtx(pub Context);
unsafe impl Send for SendCtx {}
unsafe impl Sync for SendCtx {}
/// what the worlds of several simulated threads have in common
pub struct Shared {
  pub ctx: SendCtx,
  pub issued: std::sync::Mutex<BTreeSet<Id>>,
  /// every context created by any of the threads
  pub ctxs: std::sync::Mutex<Vec<SendCtx>>,
}
struct Ctx {
  real: Context,
  ident: usize,
  issued: BTreeSet<Id>,
  /// the context of a restored image whose graph has been moved to a live context: no longer used
  retired: bool,
  shared: bool,
}
#[derive(Clone, Default)]
struct Flags {
  restored: bool,
  moved: bool,
  checked: bool,
}
struct GSlot<S: Schema> {
  real: Graph<S::N>,
  m: MGraph,
  ctx: usize,
  fl: Flags,
  file: usize,
}
struct Client<S: Schema> {
  t: Option<(Txn<S>, MTxn)>,
  ctx: usize,
  g: usize,
  merged: bool,
  /// ids of filled untyped/typed nodes of the open transaction
  filled: BTreeSet<Id>,
}
#[derive(Clone)]
struct Image {
  bytes: Vec<u8>,
  json: bool,
  m: MGraph,
  seq: u64,
}
#[derive(Default, Clone)]
struct File {
  durable: Option<Image>,
  pending: Option<Image>,
}

pub struct World<S: Schema> {
  d: Rc<Desc>,
  cfg: Cfg,
  ctxs: Vec<Ctx>,
  gs: Vec<Option<GSlot<S>>>,
  cl: Vec<Client<S>>,
  files: Vec<File>,
  runs: RunLog,
  next_uid: u64,
  next_pid: usize,
  next_ident: usize,
  pub st: Stats,
  pub log: Vec<u64>,
  pub trace: Option<Vec<String>>,
  step: usize,
  slog: u64,
  done_pids: BTreeSet<usize>,
  imported: BTreeSet<u128>,
  pub shared: Option<std::sync::Arc<Shared>>,
  pub with_tail: bool,
}

macro_rules! violt {
  ($w:expr, $t:expr, $($a:tt)*) => {
    return Err(Viol{ tags: $t, msg: format!($($a)*), step: $w.step })
  };
}
macro_rules! viol {
  ($w:expr, [$($t:expr),*], $($a:tt)*) => {
    return Err(Viol{ tags: vec![$($t),*], msg: format!($($a)*), step: $w.step })
  };
}
type R<T> = Result<T, Viol>;

fn hash_node(h: u64, n: &ANode) -> u64 {
  let mut h = mix2(h, n.v as u64);
  h = mix2(h, n.uid);
  h = mix2(h, n.val as u64);
  for b in n.text.bytes() {
    h = mix2(h, b as u64);
  }
  for l in &n.links {
    h = mix2(h, 0x11);
    match l {
      ALink::D(x) => h = mix2(h, *x as u64),
      ALink::S(s) => {
        for x in s {
          h = mix2(h, *x as u64)
        }
      },
      ALink::V(s) => {
        for x in s {
          h = mix2(h, *x as u64 + 7)
        }
      },
    }
  }
  h
}
pub fn shape_hash(m: &BTreeMap<Id, ANode>) -> u64 {
  // state up to renaming of indices by rank; data ignored
  let rank: BTreeMap<Id, u64> = m.keys().enumerate().map(|(i, k)| (*k, i as u64 + 1)).collect();
  let f = |x: &Id| if *x == 0 { 0 } else { rank.get(x).copied().unwrap_or(0xdead) };
  let mut h = 0x5eed;
  for n in m.values() {
    h = mix2(h, n.v as u64 + 1000);
    for l in &n.links {
      h = mix2(h, 0x11);
      match l {
        ALink::D(x) => h = mix2(h, f(x)),
        ALink::S(s) => {
          let mut v: Vec<u64> = s.iter().map(f).collect();
          v.sort();
          for x in v {
            h = mix2(h, x)
          }
        },
        ALink::V(s) => {
          for x in s {
            h = mix2(h, f(x) + 7)
          }
        },
      }
    }
  }
  h
}

fn ni(x: Id) -> NodeIndex {
  NodeIndex(x)
}

impl<S: Schema> World<S> {
  pub fn new(cfg: &Cfg, trace: bool) -> Self {
    World {
      d: Rc::new(S::desc()),
      cfg: cfg.clone(),
      ctxs: vec![],
      gs: vec![],
      cl: vec![],
      files: vec![],
      runs: Rc::new(RefCell::new(vec![])),
      next_uid: 1,
      next_pid: 0,
      next_ident: 0,
      st: Stats::default(),
      log: vec![],
      trace: if trace { Some(vec![]) } else { None },
      step: 0,
      slog: 0,
      done_pids: BTreeSet::new(),
      imported: BTreeSet::new(),
      shared: None,
      with_tail: true,
    }
  }
  fn say(&mut self, f: impl FnOnce() -> String) {
    if let Some(t) = &mut self.trace {
      t.push(format!("{}: {}", self.step, f()));
    }
  }
  fn obs(&mut self, x: u64) {
    self.slog = mix2(self.slog, x);
  }
  fn uid(&mut self) -> u64 {
    self.next_uid += 1;
    self.next_uid - 1
  }

  // ---------------------------------------------------------------- set-up
  fn new_ctx(&mut self, r: &mut Rng) -> R<usize> {
    let def = r.chance(1, 4);
    let (real, shared) = match &self.shared {
      Some(s) if self.ctxs.is_empty() => (s.ctx.0.clone(), true),
      _ => (crate::seam::lib(|| if def { Context::default() } else { Context::new() }), false),
    };
    if let (Some(s), false) = (&self.shared, shared) {
      crate::seam::quiet(|| s.ctxs.lock().unwrap().push(SendCtx(real.clone())));
    }
    self.next_ident += 1;
    self.ctxs.push(Ctx { real, ident: self.next_ident, issued: BTreeSet::new(), retired: false, shared });
    let c = self.ctxs.len() - 1;
    if self.cfg.hi_ids {
      // skip far ahead, as a long-lived context would have
      let n = r.range(50, 300);
      let mut t: Txn<S> = Transaction::new(&self.ctxs[c].real);
      for _ in 0..n {
        let i = crate::seam::lib(|| t.alloc_untyped().0);
        self.issue(c, i, "alloc_untyped")?;
      }
    }
    Ok(c)
  }
  fn new_graph(&mut self, c: usize, slot: Option<usize>) -> usize {
    let g = GSlot {
      real: crate::seam::lib(|| Graph::new(&self.ctxs[c].real)),
      m: MGraph { ctx: self.ctxs[c].ident, nodes: BTreeMap::new() },
      ctx: c,
      fl: Flags::default(),
      file: self.files.len(),
    };
    self.files.push(File::default());
    match slot {
      Some(s) => {
        self.gs[s] = Some(g);
        s
      },
      None => {
        self.gs.push(Some(g));
        self.gs.len() - 1
      },
    }
  }
  fn init(&mut self, r: &mut Rng) -> R<()> {
    for _ in 0..self.cfg.ctxs {
      self.new_ctx(r)?;
    }
    for i in 0..self.cfg.graphs {
      let c = if i == 0 { 0 } else { r.below(self.ctxs.len()) };
      self.new_graph(c, None);
    }
    for i in 0..self.cfg.clients {
      let g = i % self.gs.len();
      self.cl.push(Client { t: None, ctx: 0, g, merged: false, filled: BTreeSet::new() });
    }
    Ok(())
  }
  fn live_ctx(&self, r: &mut Rng) -> usize {
    let v: Vec<usize> = (0..self.ctxs.len()).filter(|c| !self.ctxs[*c].retired).collect();
    *r.pick(&v)
  }
  fn live_ctxs(&self) -> usize {
    self.ctxs.iter().filter(|c| !c.retired).count()
  }
  /// the live context with this identity
  fn ctx_of(&self, ident: usize) -> Option<usize> {
    self.ctxs.iter().position(|c| !c.retired && c.ident == ident)
  }
  /// an index was handed out
  fn issue(&mut self, c: usize, i: Id, how: &str) -> R<()> {
    self.obs(i as u64);
    self.st.eval("C01");
    if i == 0 {
      viol!(self, ["C01", "C02"], "{how} handed out the empty index");
    }
    let mut fresh = self.ctxs[c].issued.insert(i);
    if let (Some(s), true) = (&self.shared, self.ctxs[c].shared) {
      fresh &= crate::seam::quiet(|| s.issued.lock().unwrap().insert(i));
    }
    if !fresh {
      viol!(self, ["C01", "C02", "C08"], "{how} handed out index {i} although it was handed out or present before");
    }
    Ok(())
  }
  /// make sure client c has an open transaction; returns false if impossible
  fn open(&mut self, c: usize, r: &mut Rng) -> bool {
    if self.cl[c].t.is_some() {
      return true;
    }
    let live: Vec<usize> = (0..self.gs.len()).filter(|g| self.gs[*g].is_some()).collect();
    if live.is_empty() {
      return false;
    }
    let home = self.cl[c].g;
    let g = if self.gs.get(home).is_some_and(|g| g.is_some()) && !r.chance(1, 6) { home } else { *r.pick(&live) };
    let ctx = self.gs[g].as_ref().unwrap().ctx;
    let own = r.chance(1, 2);
    let cx = &self.ctxs[ctx].real;
    let t = crate::seam::lib(|| if own { Transaction::new(cx) } else { Transaction::new(&cx.clone()) });
    let m = MTxn { ctx: self.ctxs[ctx].ident, ..Default::default() };
    let cl = &mut self.cl[c];
    cl.t = Some((t, m));
    cl.ctx = ctx;
    cl.g = g;
    cl.merged = false;
    cl.filled.clear();
    true
  }
  fn drop_txn(&mut self, c: usize, give_up: bool) {
    if let Some((t, _)) = self.cl[c].t.take() {
      if give_up {
        t.give_up();
      } else {
        drop(t);
      }
    }
  }

  // ---------------------------------------------------------------- choosing
  fn home<'a>(&'a self, c: usize) -> Option<&'a MGraph> {
    self.gs.get(self.cl[c].g).and_then(|g| g.as_ref()).filter(|g| g.ctx == self.cl[c].ctx).map(|g| &g.m)
  }
  /// ids client c may sensibly use: (id, type if known)
  fn pool(&self, c: usize) -> Vec<(Id, Option<usize>)> {
    let mut v = vec![];
    if let Some(m) = self.home(c) {
      v.extend(m.nodes.iter().map(|(k, n)| (*k, Some(n.v))));
    }
    if let Some((_, m)) = &self.cl[c].t {
      v.extend(m.news.iter().map(|(k, n)| (*k, Some(n.v))));
      v.extend(m.allocs.iter().map(|(k, n)| (*k, *n)));
    }
    v
  }
  /// ids of the same context that are not (yet, or any more) in the client's graph
  fn outside(&self, c: usize) -> Vec<Id> {
    let mut v: Vec<Id> = vec![];
    for (i, o) in self.cl.iter().enumerate() {
      if i != c && o.ctx == self.cl[c].ctx {
        if let Some((_, m)) = &o.t {
          v.extend(m.news.keys());
          v.extend(m.allocs.keys());
        }
      }
    }
    v
  }
  fn node_of<'a>(&'a self, c: usize, x: Id) -> Option<&'a ANode> {
    if let Some((_, m)) = &self.cl[c].t {
      if let Some(n) = m.news.get(&x) {
        return Some(n);
      }
    }
    self.home(c).and_then(|m| m.nodes.get(&x))
  }
  fn pick_target(&self, r: &mut Rng, c: usize, pool: &[(Id, Option<usize>)], v: usize, l: usize, x: Id) -> Id {
    if self.cfg.dangling && r.chance(1, 30) {
      let o = self.outside(c);
      if !o.is_empty() && r.chance(3, 4) {
        return *r.pick(&o);
      }
      // some index of the past
      let k = self.ctxs[self.cl[c].ctx].issued.len();
      if k > 0 {
        return *self.ctxs[self.cl[c].ctx].issued.iter().nth(r.below(k)).unwrap();
      }
    }
    if pool.is_empty() || r.chance(1, 40) {
      return 0;
    }
    let ld = &self.d.vars[v].links[l];
    let illtyped = r.below(100) < self.cfg.illtyped;
    let conflict = r.below(100) < self.cfg.conflict;
    for _ in 0..8 {
      let (y, vy) = *r.pick(pool);
      let Some(vy) = vy else {
        if !self.d.typed {
          return y;
        }
        continue;
      };
      if !illtyped && ld.allow >> vy & 1 == 0 {
        continue;
      }
      if !conflict && !ld.partners.is_empty() {
        let ps = self.d.partners(v, l, vy);
        if !ps.is_empty() {
          match self.node_of(c, y) {
            Some(ny) => {
              let has = ps.iter().any(|p| ny.links[*p].contains(x));
              if !has && ps.len() > 1 {
                continue;
              }
              if !has && matches!(ny.links[ps[0]], ALink::D(z) if z != 0 && z != x) {
                continue;
              }
            },
            None => {
              if r.chance(1, 2) {
                continue;
              }
            },
          }
        }
      }
      return y;
    }
    0
  }
  fn gen_node(&mut self, r: &mut Rng, c: usize, v: usize, x: Id, link_p: usize) -> ANode {
    let uid = self.uid();
    let d = self.d.clone();
    let mut n = d.fresh(v, uid);
    n.val = r.next() as i64 % 1000;
    n.text = text_of(r.next() as u32);
    let pool = self.pool(c);
    for l in 0..n.links.len() {
      if r.below(8) >= link_p {
        continue;
      }
      let k = 1 + r.below(self.cfg.maxset);
      match d.vars[v].links[l].kind {
        Kind::D => n.links[l] = ALink::D(self.pick_target(r, c, &pool, v, l, x)),
        Kind::S => {
          let mut s = BTreeSet::new();
          for _ in 0..k {
            let y = self.pick_target(r, c, &pool, v, l, x);
            if y != 0 {
              s.insert(y);
            }
          }
          n.links[l] = ALink::S(s);
        },
        Kind::V => {
          let mut s = vec![];
          for _ in 0..k {
            let y = if r.chance(1, 8) { 0 } else { self.pick_target(r, c, &pool, v, l, x) };
            s.push(y);
            if r.chance(1, 8) {
              s.push(y);
            }
          }
          n.links[l] = ALink::V(s);
        },
      }
    }
    n
  }
  fn gen_prog(&mut self, r: &mut Rng, c: usize, x: Id, links_only: bool) -> Prog {
    let d = self.d.clone();
    let pool = self.pool(c);
    let cur = self.node_of(c, x).cloned();
    let mut edits = vec![];
    let mut v = cur.as_ref().map(|n| n.v).unwrap_or(0);
    for _ in 0..r.range(1, 3) {
      match if links_only { 9 } else { r.below(20) } {
        0..=5 => edits.push(Edit::Val(r.next() as i64 % 100)),
        6..=7 => edits.push(Edit::Text(r.next() as u32)),
        8 if self.cfg.variants => {
          v = r.below(d.vars.len());
          edits.push(Edit::Variant(v));
        },
        _ => {
          let nl = d.vars[v].links.len();
          if nl == 0 {
            continue;
          }
          let l = r.below(nl);
          let t = self.pick_target(r, c, &pool, v, l, x);
          let op = r.below(8) as u32;
          edits.push(Edit::Link(l as u32, op, t, r.next() as u32 % 64));
        },
      }
    }
    self.next_pid += 1;
    Prog { pid: self.next_pid, edits, panics: false, want: None }
  }

  // ---------------------------------------------------------------- operations of a client
  fn op_insert(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let nodes = self.home(c).map(|m| m.nodes.len()).unwrap_or(0);
    if nodes > self.cfg.soft_nodes * 2 && self.cfg.bulk < 10 && !r.chance(1, 6) {
      return self.op_remove(r, c);
    }
    let v = r.below(self.d.vars.len());
    let p = self.cfg.link_p;
    let n = self.gen_node(r, c, v, 0, p);
    let real = S::to_real(&n);
    let t = self.cl[c].t.as_mut().unwrap();
    let i = match guard(|| t.0.insert(real)) {
      Ok(i) => i.0,
      Err(e) => viol!(self, ["C01", "C02"], "insert panicked: {e}"),
    };
    self.say(|| format!("c{c} insert -> {i} {}", n.show(&S::desc())));
    let ctx = self.cl[c].ctx;
    self.issue(ctx, i, "insert")?;
    self.cl[c].t.as_mut().unwrap().1.news.insert(i, n);
    Ok(())
  }
  fn op_alloc(&mut self, r: &mut Rng, c: usize, typed: bool) -> R<Id> {
    let v = r.below(self.d.vars.len());
    let mac = r.chance(1, 2);
    let t = self.cl[c].t.as_mut().unwrap();
    let res = guard(|| {
      if !typed {
        t.0.alloc_untyped()
      } else if mac {
        S::alloc_macro(&mut t.0, v)
      } else {
        t.0.alloc(S::disc(v))
      }
    });
    let i = match res {
      Ok(i) => i.0,
      Err(e) => viol!(self, ["C01", "C02"], "alloc panicked: {e}"),
    };
    self.say(|| format!("c{c} alloc typed={typed} v={v} -> {i}"));
    let ctx = self.cl[c].ctx;
    self.issue(ctx, i, "alloc")?;
    self.cl[c].t.as_mut().unwrap().1.allocs.insert(i, if typed { Some(v) } else { None });
    Ok(i)
  }
  fn op_fill(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let m = &self.cl[c].t.as_ref().unwrap().1;
    if m.allocs.is_empty() {
      let typed = r.chance(1, 2);
      self.op_alloc(r, c, typed)?;
      return Ok(());
    }
    let k = r.below(m.allocs.len());
    let (i, v) = m.allocs.iter().nth(k).map(|(a, b)| (*a, *b)).unwrap();
    self.fill_one(r, c, i, v)
  }
  fn fill_one(&mut self, r: &mut Rng, c: usize, i: Id, v: Option<usize>) -> R<()> {
    let vv = v.unwrap_or_else(|| r.below(self.d.vars.len()));
    let p = self.cfg.link_p;
    let n = self.gen_node(r, c, vv, i, p);
    let real = S::to_real(&n);
    let t = self.cl[c].t.as_mut().unwrap();
    let res = guard(|| if v.is_some() { t.0.fill_back(ni(i), real) } else { t.0.fill_back_untyped(ni(i), real) });
    if let Err(e) = res {
      violt!(self, self.txn_tags(c, vec!["C02", "C04"]), "filling allocated index {i} panicked: {e}");
    }
    self.say(|| format!("c{c} fill {i} {}", n.show(&S::desc())));
    let cl = &mut self.cl[c];
    let m = &mut cl.t.as_mut().unwrap().1;
    m.allocs.remove(&i);
    m.news.insert(i, n);
    cl.filled.insert(i);
    Ok(())
  }
  fn op_remove(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let pool = self.pool(c);
    if pool.is_empty() {
      return Ok(());
    }
    let x = r.pick(&pool).0;
    self.do_remove(c, x)
  }
  fn do_remove(&mut self, c: usize, x: Id) -> R<()> {
    let (t, m) = self.cl[c].t.as_mut().unwrap();
    if let Err(e) = guard(|| t.remove(ni(x))) {
      violt!(self, self.txn_tags(c, vec!["C02", "C05"]), "recording a removal of {x} panicked: {e}");
    }
    if m.news.remove(&x).is_some() || m.allocs.remove(&x).is_some() {
      m.cancelled.insert(x);
    } else if !m.decs.contains(&x) {
      m.decs.push(x);
    }
    self.say(|| format!("c{c} remove {x}"));
    Ok(())
  }
  fn op_change(&mut self, r: &mut Rng, c: usize, upd: bool, links_only: bool) -> R<()> {
    let pool = self.pool(c);
    if pool.is_empty() {
      return self.op_insert(r, c);
    }
    let x = r.pick(&pool).0;
    let p = self.gen_prog(r, c, x, links_only);
    self.do_change(r, c, x, p, upd)?;
    if self.cfg.variants && !links_only && r.chance(1, 8) {
      // the type changes several times in one transaction
      for _ in 0..r.range(2, 3) {
        let v = r.below(self.d.vars.len());
        self.next_pid += 1;
        let p = Prog { pid: self.next_pid, edits: vec![Edit::Variant(v)], panics: false, want: None };
        let upd = r.chance(1, 2);
        self.do_change(r, c, x, p, upd)?;
      }
    }
    Ok(())
  }
  fn do_change(&mut self, r: &mut Rng, c: usize, x: Id, mut p: Prog, upd: bool) -> R<()> {
    let mac = self.cfg.macros && r.chance(1, 3);
    let variant_edit = p.edits.iter().any(|e| matches!(e, Edit::Variant(_)));
    if mac && !variant_edit {
      if let Some(n) = self.node_of(c, x) {
        p.want = Some(n.v);
      }
    }
    let d = self.d.clone();
    let runs = self.runs.clone();
    let (pid, panics, edits) = (p.pid, p.panics, p.edits.clone());
    let body = move |a: &mut ANode| {
      runs.borrow_mut().push((pid, a.clone()));
      if panics {
        panic!("injected closure panic");
      }
      apply_edits(&d, a, &edits);
    };
    let immediate = self.cl[c].t.as_ref().unwrap().1.news.contains_key(&x);
    let mark = self.runs.borrow().len();
    let (t, m) = self.cl[c].t.as_mut().unwrap();
    let want = p.want;
    let res = guard(|| match (want, upd) {
      (Some(v), false) => S::mut_macro(t, v, ni(x), Box::new(body)),
      (Some(v), true) => S::upd_macro(t, v, ni(x), Box::new(body)),
      (None, false) => t.mutate(ni(x), move |n| {
        let mut a = S::from_real(n);
        body(&mut a);
        *n = S::to_real(&a);
      }),
      (None, true) => t.update(ni(x), move |n| {
        let mut a = S::from_real(&n);
        body(&mut a);
        S::to_real(&a)
      }),
    });
    if let Err(e) = res {
      violt!(self, self.txn_tags(c, vec!["C02", "C03"]), "recording a change of {x} panicked: {e}");
    }
    let ran: Vec<(usize, ANode)> = self.runs.borrow()[mark..].to_vec();
    let show = format!("{:?}", p);
    if immediate {
      let n = m.news.get_mut(&x).unwrap();
      if ran.len() == 1 && ran[0].1 != *n {
        let msg = format!("change of uncommitted node {x} saw {:?} expected {:?}", ran[0].1, n);
        violt!(self, self.txn_tags(c, vec!["C02", "C03", "C11"]), "{msg}");
      }
      if ran.len() != 1 {
        // whether it runs now or at commit is not observable otherwise; the library runs it now
        violt!(self, self.txn_tags(c, vec!["C02", "C03"]), "change of uncommitted node {x} ran {} times when recorded", ran.len());
      }
      apply_edits(&S::desc(), n, &p.edits);
      self.done_pids.insert(p.pid);
    } else {
      if !ran.is_empty() {
        viol!(self, ["C03", "C02"], "change of {x} ran before its transaction was committed");
      }
      if upd {
        m.upds.push((x, p));
      } else {
        m.muts.push((x, p));
      }
    }
    self.say(|| format!("c{c} {} {x} {show}", if upd { "update" } else { "mutate" }));
    Ok(())
  }
  fn op_redirect(&mut self, r: &mut Rng, c: usize, all: bool) -> R<()> {
    let Some(m) = self.home(c) else { return Ok(()) };
    let mut olds: Vec<Id> = m.nodes.keys().copied().collect();
    let t = &self.cl[c].t.as_ref().unwrap().1;
    if all {
      olds.extend(t.news.keys());
    }
    let before = if all { &t.redir_all } else { &t.redir };
    let used: BTreeSet<Id> = before.iter().map(|x| x.0).collect();
    if !before.is_empty() && r.chance(1, 10) {
      // the very same redirection once more
      let (o, n) = *r.pick(before);
      self.st.probe("redirect_repeated");
      return self.do_redirect(c, all, o, n);
    }
    if r.chance(1, 5) {
      // links to something that is not there: removed meanwhile, of another graph, never filled, empty
      let away = self.absent(r, c);
      if !away.is_empty() {
        olds = away;
        self.st.probe("redirect_absent");
      }
    }
    olds.retain(|x| !used.contains(x));
    if olds.is_empty() {
      return Ok(());
    }
    let old = *r.pick(&olds);
    // prefer a replacement of the same type
    let pool = self.pool(c);
    let vo = self.node_of(c, old).map(|n| n.v);
    let mut new = 0;
    if !pool.is_empty() && !r.chance(1, 8) {
      for _ in 0..6 {
        let (y, vy) = *r.pick(&pool);
        if y != old && (vy == vo || vo.is_none() && r.chance(1, 3) || self.cfg.illtyped > 0 && r.chance(1, 10) || !self.d.typed) {
          new = y;
          break;
        }
      }
    } else if r.chance(1, 3) {
      // towards something that is not there (any more, or not yet)
      let away = self.absent(r, c);
      if let Some(y) = away.iter().copied().find(|y| *y != old && *y != 0) {
        self.st.probe("redirect_to_absent");
        new = y;
      }
    }
    self.do_redirect(c, all, old, new)
  }
  /// indices that are not in the graph client c works on
  fn absent(&self, r: &mut Rng, c: usize) -> Vec<Id> {
    let Some(m) = self.home(c) else { return vec![] };
    let mut v: Vec<Id> = match r.below(4) {
      0 => vec![0],
      1 => self.ctxs[self.cl[c].ctx].issued.iter().copied().collect(),
      _ => m.nodes.values().flat_map(|n| n.links.iter().flat_map(|l| l.targets())).collect(),
    };
    v.retain(|x| !m.nodes.contains_key(x));
    v.sort();
    v.dedup();
    v
  }
  fn do_redirect(&mut self, c: usize, all: bool, old: Id, new: Id) -> R<()> {
    let (t, m) = self.cl[c].t.as_mut().unwrap();
    let res = guard(|| if all { t.redirect_all_links(ni(old), ni(new)) } else { t.redirect_links(ni(old), ni(new)) });
    if let Err(e) = res {
      violt!(self, self.txn_tags(c, vec!["C02", "C05"]), "recording a redirection {old}->{new} panicked: {e}");
    }
    if all {
      m.redir_all.push((old, new));
    } else {
      m.redir.push((old, new));
    }
    self.say(|| format!("c{c} redirect{} {old}->{new}", if all { "_all" } else { "" }));
    Ok(())
  }
  /// several redirections at once forming chains and trees, in random order
  fn op_chain(&mut self, r: &mut Rng, c: usize, all: bool) -> R<()> {
    let Some(m) = self.home(c) else { return Ok(()) };
    let t = &self.cl[c].t.as_ref().unwrap().1;
    if !t.redir.is_empty() || !t.redir_all.is_empty() {
      return Ok(());
    }
    let mut ids: Vec<(Id, usize)> = m.nodes.iter().map(|(k, n)| (*k, n.v)).collect();
    if all {
      ids.extend(t.news.iter().map(|(k, n)| (*k, n.v)));
    }
    if self.d.typed && !ids.is_empty() {
      let v = r.pick(&ids).1;
      ids.retain(|x| x.1 == v);
    }
    let mut ids: Vec<Id> = ids.into_iter().map(|x| x.0).collect();
    if r.chance(1, 6) {
      let mut away = self.absent(r, c);
      away.retain(|x| !ids.contains(x));
      away.truncate(if self.cfg.chain > 5 { self.cfg.chain } else { 3 });
      ids.extend(away);
    }
    for i in (1..ids.len()).rev() {
      ids.swap(i, r.below(i + 1));
    }
    let k = (2 + r.below(self.cfg.chain)).min(ids.len());
    ids.truncate(k);
    if ids.len() < 2 {
      return Ok(());
    }
    let mut es: Vec<(Id, Id)> = vec![];
    let tree = r.chance(1, 3);
    for i in 0..ids.len() - 1 {
      let j = if tree { i + 1 + r.below(ids.len() - i - 1) } else { i + 1 };
      es.push((ids[i], ids[j]));
    }
    if r.chance(1, 6) && !ids.contains(&0) {
      es.push((ids[ids.len() - 1], 0));
    }
    match r.below(3) {
      0 => es.reverse(),
      1 => {
        for i in (1..es.len()).rev() {
          es.swap(i, r.below(i + 1));
        }
      },
      _ => {},
    }
    if es.len() >= 3 {
      self.st.probe("redirect_chain>=3");
    }
    for (o, n) in es {
      self.do_redirect(c, all, o, n)?;
    }
    Ok(())
  }
  fn op_extend(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let big = self.gs.iter().flatten().any(|g| g.m.nodes.len() > 1000);
    let k = match self.cfg.bulk {
      HUGE if big => 1 + r.below(60),
      HUGE => 1000 + r.below(600),
      b => 1 + r.below(b),
    };
    if if self.cfg.bulk > 10 { !r.chance(1, 4) } else { r.chance(1, 2) } {
      // bulk: returned indices, so that the members can be linked
      for _ in 0..k {
        self.op_insert_plain(r, c)?;
      }
      return Ok(());
    }
    // through Extend: indices are learned at commit, so insert one sentinel before and after
    let mut ns = vec![];
    for _ in 0..k {
      let v = r.below(self.d.vars.len());
      let n = self.gen_node(r, c, v, 0, 1);
      ns.push(n);
    }
    // commit at once through a transaction of its own to learn the indices
    let gi = self.cl[c].g;
    if self.home(c).is_none() {
      return Ok(()); // the graph has moved to another context: the links chosen above mean nothing there
    }
    let Some(g) = self.gs.get_mut(gi).and_then(|g| g.as_mut()) else { return Ok(()) };
    let mut t: Txn<S> = Transaction::new(&self.ctxs[g.ctx].real);
    // at once or in two parts, from an iterator that knows its length or one that does not
    let mut reals: Vec<S::N> = ns.iter().map(S::to_real).collect();
    let rest = reals.split_off(if r.chance(1, 3) { r.below(k + 1) } else { k });
    let form = r.below(3);
    let res = guard(|| match form {
      0 => t.extend(reals.into_iter().chain(rest.into_iter().filter(|_| true))),
      1 => {
        t.extend(reals);
        t.extend(rest);
      },
      _ => {
        t.extend(reals.into_iter().filter(|_| true));
        t.extend(rest);
      },
    });
    if res.is_err() {
      viol!(self, ["C01", "C02"], "extend panicked");
    }
    // predicted refusal is independent of the new indices (nobody links to them)
    let mut tmp = g.m.clone();
    let mut m = MTxn { ctx: g.m.ctx, ..Default::default() };
    for (k, n) in ns.iter().enumerate() {
      m.news.insert(usize::MAX / 2 + k, n.clone());
    }
    if tmp.commit(&self.d, &m).is_err() {
      return Ok(());
    }
    if let Err(e) = guard(|| g.real.commit(t)) {
      viol!(self, ["C02", "C06", "C07"], "commit of an extended transaction panicked: {e}");
    }
    let mut by_uid: BTreeMap<u64, Id> = BTreeMap::new();
    let known = g.m.nodes.clone();
    for (i, n) in g.real.iter() {
      if !known.contains_key(&i.0) {
        by_uid.insert(S::from_real(n).uid, i.0);
      }
    }
    let mut m = MTxn { ctx: g.m.ctx, ..Default::default() };
    let ctx = g.ctx;
    for n in ns {
      let Some(i) = by_uid.get(&n.uid).copied() else {
        viol!(self, ["C02"], "a node added through extend is missing after the commit");
      };
      self.issue(ctx, i, "extend")?;
      m.news.insert(i, n);
    }
    let d = self.d.clone();
    let g = self.gs[gi].as_mut().unwrap();
    if let Err(e) = g.m.commit(&d, &m) {
      viol!(self, ["C02"], "extended transaction should have been refused: {e:?}");
    }
    self.say(|| format!("c{c} extend {k}"));
    self.check_graph(gi, &["C02"], None)
  }
  fn op_insert_plain(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let v = r.below(self.d.vars.len());
    let n = self.gen_node(r, c, v, 0, 1);
    let real = S::to_real(&n);
    let t = self.cl[c].t.as_mut().unwrap();
    let i = match guard(|| t.0.insert(real)) {
      Ok(i) => i.0,
      Err(e) => viol!(self, ["C01", "C02"], "insert panicked: {e}"),
    };
    let ctx = self.cl[c].ctx;
    self.issue(ctx, i, "insert")?;
    self.cl[c].t.as_mut().unwrap().1.news.insert(i, n);
    Ok(())
  }
  /// add or drop one declared pair, from either side
  fn op_pair(&mut self, r: &mut Rng, c: usize, upd: bool) -> R<()> {
    let pool = self.pool(c);
    if pool.is_empty() {
      return self.op_insert(r, c);
    }
    let d = self.d.clone();
    for _ in 0..6 {
      let (x, vx) = *r.pick(&pool);
      let Some(vx) = vx else { continue };
      let ls: Vec<usize> = (0..d.vars[vx].links.len()).filter(|l| d.has_partner(vx, *l)).collect();
      if ls.is_empty() {
        continue;
      }
      let l = *r.pick(&ls);
      let Some(n) = self.node_of(c, x) else { continue };
      let cur = n.links[l].targets();
      let drop = !cur.is_empty() && r.chance(1, 2);
      let (op, t) = if drop {
        (if matches!(n.links[l], ALink::D(_)) { 7 } else { 5 }, *r.pick(&cur))
      } else {
        (0, self.pick_target(r, c, &pool, vx, l, x))
      };
      if t == 0 {
        continue;
      }
      self.next_pid += 1;
      let p = Prog { pid: self.next_pid, edits: vec![Edit::Link(l as u32, op, t, 0)], panics: false, want: None };
      return self.do_change(r, c, x, p, upd);
    }
    Ok(())
  }
  fn op_merge(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let ctx = self.cl[c].ctx;
    let home = self.cl[c].g;
    let cand: Vec<usize> =
      (0..self.gs.len()).filter(|g| *g != home && self.gs[*g].as_ref().is_some_and(|x| x.ctx == ctx)).collect();
    if cand.is_empty() {
      return Ok(());
    }
    let g = *r.pick(&cand);
    let slot = self.gs[g].take().unwrap();
    let (t, m) = self.cl[c].t.as_mut().unwrap();
    let nodes = slot.m.nodes;
    let n = nodes.len();
    if let Err(e) = guard(|| t.merge(slot.real)) {
      viol!(self, ["C10", "C02"], "merging a graph of the same context panicked: {e}");
    }
    m.news.extend(nodes);
    self.cl[c].merged = true;
    if n > 0 {
      self.st.probe("merge_nonempty");
    }
    self.say(|| format!("c{c} merge graph {g} ({n} nodes)"));
    Ok(())
  }

  // ---------------------------------------------------------------- commit and its oracle
  fn base_tags(&self, gi: usize, m: &MTxn, merged: bool) -> Vec<&'static str> {
    let mut t = vec!["C02"];
    let g = self.gs[gi].as_ref().unwrap();
    if g.fl.restored {
      t.push("C08");
    }
    if g.fl.moved || merged {
      t.push("C10");
    }
    if !m.decs.is_empty() || !m.redir.is_empty() || !m.redir_all.is_empty() || !m.cancelled.is_empty() {
      t.push("C05");
    }
    t
  }
  /// commit client c's transaction to graph gi. `force`: commit even if the model says it will be refused
  fn do_commit(&mut self, r: &mut Rng, c: usize, gi: usize, checked: bool, force: bool) -> R<()> {
    if self.gs.get(gi).is_none_or(|g| g.is_none()) {
      return Ok(());
    }
    let d = self.d.clone();
    {
      let m = &self.cl[c].t.as_ref().unwrap().1;
      let g = self.gs[gi].as_ref().unwrap();
      if self.cl[c].merged {
        // two restored copies of one image: node identities must stay unique within a graph
        let own: BTreeSet<u64> = g.m.nodes.values().map(|n| n.uid).collect();
        let new: BTreeSet<u64> = m.news.values().map(|n| n.uid).collect();
        if new.len() < m.news.len() || !own.is_disjoint(&new) {
          self.drop_txn(c, true);
          return Ok(());
        }
      }
    }
    let pred = {
      let m = &self.cl[c].t.as_ref().unwrap().1;
      let g = self.gs[gi].as_mut().unwrap();
      g.m.commit(&d, m)
    };
    if let Err(e) = &pred {
      let go = force || e.upfront() && r.chance(1, 2) || r.below(100) < self.cfg.commit_bad;
      if !go {
        self.st.given_up += 1;
        if *e == Refuse::Unfilled {
          return Ok(()); // goes on building
        }
        let e = *e;
        self.say(|| format!("c{c} gives up ({e:?} foreseen)"));
        let gu = r.chance(1, 2);
        self.drop_txn(c, gu);
        return Ok(());
      }
    }
    let (t, m) = self.cl[c].t.take().unwrap();
    let merged = self.cl[c].merged;
    let mut tags = self.base_tags(gi, &m, merged);
    if checked {
      tags.push("C13");
    }
    for t in &tags {
      self.st.eval(t);
    }
    if d.bidi {
      self.st.eval("C06");
    }
    if d.typed {
      self.st.eval("C07");
    }
    if self.gs.iter().flatten().count() > 1 || !m.muts.is_empty() || !m.upds.is_empty() {
      self.st.eval("C03");
    }
    if pred.is_err() {
      self.st.eval("C04");
    }
    let mark = self.runs.borrow().len();
    let pids: BTreeSet<usize> = m.muts.iter().chain(m.upds.iter()).map(|x| x.1.pid).collect();
    let watch = if checked { Some(self.make_checks(r, &pred)) } else { None };
    let g = self.gs[gi].as_mut().unwrap();
    let res = guard(|| match &watch {
      None => g.real.commit(t),
      Some(w) => g.real.commit_checked(t, &w.checks),
    });
    let ran: Vec<(usize, ANode)> = self.runs.borrow()[mark..].to_vec();
    let step = self.step;
    self.say(|| format!("c{c} commit to g{gi}{}: predicted {}, got {:?} {}", if checked { " checked" } else { "" },
      match &pred { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}") }, res.as_ref().err(), if step == usize::MAX { "" } else { "" }));
    // every recorded change at most once
    let mut seen = BTreeSet::new();
    for (p, _) in &ran {
      if !pids.contains(p) || !seen.insert(*p) || !self.done_pids.insert(*p) {
        viol!(self, ["C03", "C02"], "a recorded change ran more than once or in another transaction's commit");
      }
    }
    self.obs(res.is_ok() as u64 + 1);
    self.st.eval("C12");
    match pred {
      Ok(eff) => {
        if let Some(w) = &watch {
          if w.rejects.is_empty() != res.is_ok() || w.failed(&res) {
            viol!(self, ["C13"], "checked commit: checks rejecting {:?}, outcome {:?}", w.rejects, res);
          }
          self.check_watch(gi, w, &eff)?;
          self.st.probe(if w.rejects.is_empty() { "checked_pass" } else { "checked_reject" });
          if !w.rejects.is_empty() {
            *self.st.refused.entry("Check").or_default() += 1;
            self.poison(gi);
            return Ok(());
          }
          self.gs[gi].as_mut().unwrap().fl.checked = true;
        }
        if let Err(e) = res {
          if d.bidi {
            tags.push("C06");
          }
          if d.typed {
            tags.push("C07");
          }
          return Err(Viol { tags, msg: format!("a commit that breaks no rule panicked: {e}"), step: self.step });
        }
        self.st.commits_ok += 1;
        if !eff.completed.is_empty() {
          self.st.probe("late_target_completed");
        }
        // changes ran exactly once, on the then-current node
        let want: BTreeMap<usize, ANode> = eff.runs.iter().cloned().collect();
        if ran.len() != want.len() {
          viol!(self, ["C03", "C02"], "{} of {} recorded changes ran", ran.len(), want.len());
        }
        for (p, n) in &ran {
          if want.get(p) != Some(n) {
            tags.push("C03");
            let msg = format!("a recorded change saw {n:?} instead of {:?}", want.get(p));
            return Err(Viol { tags, msg, step: self.step });
          }
        }
        // a change may act on what lies outside the graph: the order counts across nodes, too
        if !ran.iter().map(|x| x.0).eq(eff.runs.iter().map(|x| x.0)) {
          viol!(self, ["C02"], "recorded changes ran in the order {:?} instead of {:?}", ran.iter().map(|x| x.0).collect::<Vec<_>>(), eff.runs.iter().map(|x| x.0).collect::<Vec<_>>());
        }
        let h = shape_hash(&self.gs[gi].as_ref().unwrap().m.nodes);
        self.st.states.push(h);
        let n = self.gs[gi].as_ref().unwrap().m.nodes.len();
        self.st.max_nodes = self.st.max_nodes.max(n);
        self.check_graph(gi, &tags, Some(&eff))?;
        self.check_others(Some(gi))
      },
      Err(e) => {
        let en = match e {
          Refuse::Context => "Context",
          Refuse::Unfilled => "Unfilled",
          Refuse::LoopPre => "LoopPre",
          Refuse::LoopAll => "LoopAll",
          Refuse::Stale => "Stale",
          Refuse::ClosurePanic => "ClosurePanic",
          Refuse::Conflict => "Conflict",
          Refuse::MultiChoice => "MultiChoice",
          Refuse::LinkType => "LinkType",
        };
        *self.st.refused.entry(en).or_default() += 1;
        if res.is_ok() {
          match e {
            Refuse::Context => tags.extend(["C04", "C10"]),
            Refuse::Unfilled | Refuse::Stale => tags.push("C04"),
            Refuse::LoopPre | Refuse::LoopAll => tags.extend(["C04", "C05"]),
            Refuse::ClosurePanic => tags.push("C03"),
            Refuse::Conflict | Refuse::MultiChoice => tags.push("C06"),
            Refuse::LinkType => tags.push("C07"),
          }
          return Err(Viol { tags, msg: format!("commit accepted although it must be refused: {e:?}"), step: self.step });
        }
        if e.upfront() {
          if !ran.is_empty() {
            viol!(self, ["C03", "C04"], "changes of a refused transaction ({e:?}) ran");
          }
          self.check_graph(gi, &["C04", "C03"], None)?;
        } else {
          self.poison(gi);
        }
        self.check_others(Some(gi))
      },
    }
  }
  /// the graph was left half-changed by a refused commit: the application discards it
  fn poison(&mut self, gi: usize) {
    self.gs[gi] = None;
  }
  fn diff(&self, gi: usize) -> Option<(Id, String, bool)> {
    let g = self.gs[gi].as_ref().unwrap();
    let mut seen = 0;
    for (x, n) in &g.m.nodes {
      match g.real.get(ni(*x)) {
        None => return Some((*x, format!("node {x} {} is missing", n.show(&self.d)), false)),
        Some(rn) => {
          seen += 1;
          let a = S::from_real(rn);
          if a != *n {
            let part = a.v == n.v
              && a.links.iter().zip(&n.links).enumerate().any(|(l, (p, q))| p != q && self.d.has_partner(n.v, l));
            return Some((*x, format!("node {x} is {} instead of {}", a.show(&self.d), n.show(&self.d)), part));
          }
        },
      }
    }
    if g.real.len() != seen {
      for (i, n) in g.real.iter() {
        if !g.m.nodes.contains_key(&i.0) {
          return Some((i.0, format!("unexpected node {} {}", i.0, S::from_real(n).show(&self.d)), false));
        }
      }
      return Some((0, format!("graph reports {} nodes, has {}", g.real.len(), seen), false));
    }
    None
  }
  /// which declared invariants does the (wrong) content of a graph break by itself
  fn broken_invariants(&self, gi: usize) -> Vec<&'static str> {
    let mut t = vec![];
    let d = &self.d;
    let g = self.gs[gi].as_ref().unwrap();
    let real: BTreeMap<Id, ANode> = g.real.iter().map(|(i, n)| (i.0, S::from_real(n))).collect();
    for (x, n) in &real {
      for (l, f) in n.links.iter().enumerate() {
        for y in f.targets() {
          let Some(ny) = real.get(&y) else {
            if g.m.nodes.get(x).is_none_or(|mn| mn.v != n.v || !mn.links[l].contains(y)) {
              t.push("C05");
            }
            continue;
          };
          if d.typed && d.vars[n.v].links[l].allow >> ny.v & 1 == 0 {
            t.push("C07");
          }
          let ps = d.partners(n.v, l, ny.v);
          if !ps.is_empty() && !ps.iter().any(|p| ny.links[*p].contains(*x)) {
            t.push("C06");
          }
        }
      }
    }
    t.sort();
    t.dedup();
    t
  }
  /// a statement about graph gi, which may have been restored or relabelled
  fn graph_tags(&self, gi: usize, mut t: Vec<&'static str>) -> Vec<&'static str> {
    if let Some(g) = &self.gs[gi] {
      if g.fl.restored {
        t.push("C08");
      }
      if g.fl.moved {
        t.push("C10");
      }
    }
    t
  }
  /// a statement about the open transaction of client c, which may contain a merged graph
  fn txn_tags(&self, c: usize, mut t: Vec<&'static str>) -> Vec<&'static str> {
    if self.cl[c].merged {
      t.push("C10");
    }
    t
  }
  fn check_graph(&mut self, gi: usize, tags: &[&'static str], eff: Option<&Effects>) -> R<()> {
    let r = match guard_read(|| self.diff(gi)) {
      Ok(r) => r,
      Err(e) => viol!(self, ["C11", "C02"], "reading the graph panicked: {e}"),
    };
    if let Some((x, msg, part)) = r {
      let mut t = tags.to_vec();
      if let Some(e) = eff {
        if !e.touched.contains(&x) {
          t.push("C03");
        }
      }
      if part {
        t.push("C06");
      }
      if x == 0 {
        t.push("C11");
      }
      t.extend(self.broken_invariants(gi));
      return Err(Viol { tags: t, msg, step: self.step });
    }
    let g = self.gs[gi].as_ref().unwrap();
    let mut h = 1;
    for (i, n) in g.real.iter() {
      h = hash_node(mix2(h, i.0 as u64), &S::from_real(n));
      for o in S::orders(n) {
        h = o.iter().fold(mix2(h, o.len() as u64), |h, y| mix2(h, *y as u64));
      }
    }
    self.obs(h);
    // declared invariants, stated on the graph itself (independent of the reference commit)
    let d = &self.d;
    let g = self.gs[gi].as_ref().unwrap();
    for (x, n) in &g.m.nodes {
      for (l, f) in n.links.iter().enumerate() {
        for y in f.targets() {
          let Some(ny) = g.m.nodes.get(&y) else { continue };
          if d.typed && d.vars[n.v].links[l].allow >> ny.v & 1 == 0 {
            viol!(self, ["C07", "HARNESS"], "model reached an ill-typed link {x}.{} -> {y}", d.vars[n.v].links[l].name);
          }
          let ps = d.partners(n.v, l, ny.v);
          if !ps.is_empty() && !ps.iter().any(|p| ny.links[*p].contains(*x)) {
            viol!(self, ["C06", "HARNESS"], "model reached an unmatched link {x}.{} -> {y}", d.vars[n.v].links[l].name);
          }
        }
      }
    }
    Ok(())
  }
  /// no other graph and no open transaction may have changed
  fn check_others(&mut self, except: Option<usize>) -> R<()> {
    for gi in 0..self.gs.len() {
      if Some(gi) == except || self.gs[gi].is_none() {
        continue;
      }
      match guard_read(|| self.diff(gi)) {
        Ok(Some((_, msg, _))) => viol!(self, ["C03"], "a graph nobody committed to changed: {msg}"),
        Err(e) => viol!(self, ["C03", "C11"], "reading a graph panicked: {e}"),
        _ => {},
      }
    }
    for c in 0..self.cl.len() {
      if let Some((t, m)) = &self.cl[c].t {
        if t.is_empty() != m.is_empty() {
          viol!(self, ["C03", "C02"], "transaction of client {c} reports is_empty={}", t.is_empty());
        }
      }
    }
    Ok(())
  }

  // ---------------------------------------------------------------- checked commits
  fn make_checks(&mut self, r: &mut Rng, pred: &Result<Effects, Refuse>) -> Watch<S> {
    let mut checks = GraphCheck::<S::N>::new();
    let seen: SeenLog = Rc::new(RefCell::new(vec![]));
    let mut rejects = BTreeSet::new();
    let n = if r.chance(1, 8) { r.range(3, 9) } else { r.range(1, 2) };
    for k in 0..n {
      for what in 0..3usize {
        // victim: something that must be shown
        let mut victim: Option<(Id, Id)> = None;
        if let Ok(e) = pred {
          if r.chance(1, 12) {
            victim = match what {
              0 => (!e.changed.is_empty()).then(|| (*e.changed.iter().nth(r.below(e.changed.len())).unwrap(), 0)),
              1 => (!e.adds.is_empty()).then(|| {
                let a = e.adds.iter().nth(r.below(e.adds.len())).unwrap();
                (a.0, a.3)
              }),
              _ => (!e.removes.is_empty()).then(|| {
                let a = e.removes.iter().nth(r.below(e.removes.len())).unwrap();
                (a.0, a.3)
              }),
            };
          }
        }
        let name = format!("chk-{what}-{k}-{}", r.below(1000));
        if victim.is_some() {
          rejects.insert(name.clone());
        }
        let s = seen.clone();
        let nm = name.clone();
        match what {
          0 => checks.insert_node_check(name, move |x, n| {
            s.borrow_mut().push((0, nm.clone(), x.0, 0, S::from_real(n), None));
            if victim.is_some_and(|v| v.0 == x.0) { Err(()) } else { Ok(()) }
          }),
          _ => {
            let f = move |x: NodeIndex, y: NodeIndex, n: &S::N, o: Option<&S::N>| {
              s.borrow_mut().push((what, nm.clone(), x.0, y.0, S::from_real(n), o.map(S::from_real)));
              if victim == Some((x.0, y.0)) { Err(()) } else { Ok(()) }
            };
            if what == 1 { checks.insert_link_add_check(name, f) } else { checks.insert_link_remove_check(name, f) }
          },
        }
      }
    }
    // a check that is taken out again must not run
    if r.chance(1, 4) {
      let s = seen.clone();
      checks.insert_node_check("gone".into(), move |x, n| {
        s.borrow_mut().push((9, "gone".into(), x.0, 0, S::from_real(n), None));
        Err(())
      });
      checks.remove_node_check("gone");
      let s = seen.clone();
      checks.insert_link_add_check("gone".into(), move |x, y, n, _| {
        s.borrow_mut().push((9, "gone".into(), x.0, y.0, S::from_real(n), None));
        Err(())
      });
      checks.remove_link_add_check("gone");
      let s = seen.clone();
      checks.insert_link_remove_check("gone".into(), move |x, y, n, _| {
        s.borrow_mut().push((9, "gone".into(), x.0, y.0, S::from_real(n), None));
        Err(())
      });
      checks.remove_link_remove_check("gone");
    }
    Watch { checks, seen, rejects, n }
  }
  fn check_watch(&mut self, gi: usize, w: &Watch<S>, eff: &Effects) -> R<()> {
    let g = self.gs[gi].as_ref().unwrap();
    let need_n: BTreeSet<(Id, Id)> = eff.changed.iter().map(|x| (*x, 0)).collect();
    let may_n: BTreeSet<(Id, Id)> = eff.touched.iter().map(|x| (*x, 0)).collect();
    let need_a: BTreeSet<(Id, Id)> = eff.adds.iter().map(|x| (x.0, x.3)).collect();
    let mut may_a = need_a.clone();
    may_a.extend(eff.completed.iter().map(|x| (x.0, x.3)));
    let need_r: BTreeSet<(Id, Id)> = eff.removes.iter().map(|x| (x.0, x.3)).collect();
    let mut per: BTreeMap<(usize, String), BTreeSet<(Id, Id)>> = BTreeMap::new();
    for (what, name, x, y, nx, ny) in w.seen.borrow().iter() {
      if *what == 9 {
        viol!(self, ["C13"], "a check that had been taken out ran");
      }
      if g.m.nodes.get(x) != Some(nx) {
        viol!(self, ["C13"], "check {name} was shown node {x} as {} which is not its state after the commit", nx.show(&self.d));
      }
      if *what > 0 && g.m.nodes.get(y) != ny.as_ref() {
        viol!(self, ["C13"], "check {name} was shown a wrong target for link {x}->{y}");
      }
      let may = match what {
        0 => &may_n,
        1 => &may_a,
        _ => &need_r,
      };
      if !may.contains(&(*x, *y)) {
        viol!(self, ["C13"], "check {name} was shown {x}->{y}, which this commit did not change");
      }
      per.entry((*what, name.clone())).or_default().insert((*x, *y));
    }
    for what in 0..3usize {
      let need = match what {
        0 => &need_n,
        1 => &need_a,
        _ => &need_r,
      };
      let names: Vec<&(usize, String)> = per.keys().filter(|k| k.0 == what).collect();
      if !need.is_empty() && names.len() < w.n {
        viol!(self, ["C13"], "{} of {} checks of kind {what} saw nothing of {:?}", w.n - names.len(), w.n, need);
      }
      for k in names {
        if w.rejects.contains(&k.1) {
          continue;
        }
        if let Some(x) = need.iter().find(|x| !per[k].contains(*x)) {
          viol!(self, ["C13"], "check {} was not shown {:?}, which this commit changed", k.1, x);
        }
      }
    }
    Ok(())
  }

  // ---------------------------------------------------------------- relabelling
  /// switch graph gi to context `to`; the model learns the new indices from node identities
  fn do_switch(&mut self, gi: usize, to: usize) -> R<()> {
    self.st.eval("C10");
    let slot = self.gs[gi].take().unwrap();
    let real = slot.real;
    let ctx = self.ctxs[to].real.clone();
    let real = match guard(|| real.switch_context(&ctx)) {
      Ok(g) => g,
      Err(e) => viol!(self, ["C10"], "switching the context of a graph panicked: {e}"),
    };
    let mut map: BTreeMap<Id, Id> = BTreeMap::new();
    let by_uid: BTreeMap<u64, Id> = slot.m.nodes.iter().map(|(k, n)| (n.uid, *k)).collect();
    let mut fresh = vec![];
    for (i, n) in real.iter() {
      let a = S::from_real(n);
      match by_uid.get(&a.uid) {
        Some(o) if map.insert(*o, i.0).is_none() => fresh.push(i.0),
        _ => viol!(self, ["C10", "C11"], "after relabelling, node {} {} does not correspond to a node before", i.0, a.show(&self.d)),
      }
    }
    if map.len() != slot.m.nodes.len() {
      viol!(self, ["C10"], "relabelling lost {} nodes", slot.m.nodes.len() - map.len());
    }
    fresh.sort();
    for i in fresh {
      if let Err(mut v) = self.issue(to, i, "relabelling") {
        v.tags.push("C10");
        return Err(v);
      }
    }
    let mut nodes = BTreeMap::new();
    for (o, n) in slot.m.nodes {
      let mut n = n;
      for l in n.links.iter_mut() {
        let f = |x: Id| map.get(&x).copied().unwrap_or(0);
        match l {
          ALink::D(x) => *x = f(*x),
          ALink::S(s) => *s = s.iter().map(|x| f(*x)).filter(|x| *x != 0).collect(),
          ALink::V(s) => s.iter_mut().for_each(|x| *x = f(*x)),
        }
      }
      nodes.insert(map[&o], n);
    }
    let mut fl = slot.fl;
    fl.moved = true;
    if map.iter().any(|(o, _)| map.values().any(|n| n == o)) {
      self.st.probe("relabel_overlap");
    }
    self.gs[gi] = Some(GSlot { real, m: MGraph { ctx: self.ctxs[to].ident, nodes }, ctx: to, fl, file: slot.file });
    self.say(|| format!("graph {gi} switched to context {to}: {map:?}"));
    self.check_graph(gi, &["C10"], None)
  }

  // ---------------------------------------------------------------- storage
  fn encode(&self, gi: usize, json: bool) -> Result<Vec<u8>, String> {
    let g = self.gs[gi].as_ref().unwrap();
    if json {
      serde_json::to_vec(&g.real).map_err(|e| e.to_string())
    } else {
      let mut s = BinSer::new(u64::MAX);
      g.real.serialize(&mut s).map_err(|e| e.to_string())?;
      if let Some(e) = s.bad_len {
        return Err(e);
      }
      Ok(s.out)
    }
  }
  fn decode(bytes: &[u8], json: bool) -> Result<GraphSerializer<S::N>, String> {
    if json {
      serde_json::from_slice(bytes).map_err(|e| e.to_string())
    } else {
      let mut d = BinDe { b: bytes };
      let g = GraphSerializer::<S::N>::deserialize(&mut d).map_err(|e| e.to_string())?;
      if !d.b.is_empty() {
        return Err("trailing bytes".into());
      }
      Ok(g)
    }
  }
  fn op_save(&mut self, r: &mut Rng, gi: usize, fault: bool) -> R<()> {
    let json = r.chance(1, 2);
    let clean = match guard(|| self.encode(gi, json)) {
      Ok(Ok(b)) => b,
      Ok(Err(e)) => viol!(self, ["C09", "C08", "C11"], "saving failed without any fault: {e}"),
      Err(e) => viol!(self, ["C08", "C09"], "saving panicked: {e}"),
    };
    self.st.eval("C09");
    let seq = self.uid();
    let file = self.gs[gi].as_ref().unwrap().file;
    let m = self.gs[gi].as_ref().unwrap().m.clone();
    if json {
      // the byte at which the device misbehaves
      let at = if r.chance(1, 4) { clean.len().saturating_sub(1 + r.below(4)) } else { r.below(clean.len().max(1)) };
      let wf = if !fault {
        WFault::None
      } else {
        *r.pick(&[WFault::Error { at }, WFault::Full { at }, WFault::Zero { at }])
      };
      let mut w = SimWriter::new(r.next(), wf, r.chance(1, 2), r.chance(1, 2));
      let g = self.gs[gi].as_ref().unwrap();
      let res = match guard(|| serde_json::to_writer(&mut w, &g.real)) {
        Ok(r) => r,
        Err(e) => viol!(self, ["C09", "C08"], "saving to a faulty device panicked: {e}"),
      };
      if w.fired {
        self.st.fault(match wf {
          WFault::Error { .. } => "write_error",
          WFault::Full { .. } => "disk_full",
          _ => "write_zero",
        });
        if w.shorts > 0 {
          self.st.fault("short_write");
        }
        if w.eintrs > 0 {
          self.st.fault("eintr");
        }
        if res.is_ok() {
          viol!(self, ["C09"], "save reported success although the device failed ({wf:?})");
        }
        // what reached the device is a torn image
        if let Ok(Ok(_)) = guard(|| Self::decode(&w.buf, true)) {
          viol!(self, ["C09"], "the torn image left by a failed save loads");
        }
        let cur = self.files[file].durable.clone();
        self.files[file].pending = cur;
        self.say(|| format!("save of g{gi} failed as injected {wf:?}"));
        return self.check_graph(gi, &["C09"], None);
      }
      if let Err(e) = res {
        viol!(self, ["C09", "C08"], "save failed although the device did not: {e}");
      }
      if w.buf.len() != clean.len() {
        viol!(self, ["C09", "C08"], "save wrote {} bytes, expected {}", w.buf.len(), clean.len());
      }
      self.files[file].pending = Some(Image { bytes: w.buf, json, m, seq });
    } else {
      let mut probe = BinSer::new(u64::MAX);
      let g = self.gs[gi].as_ref().unwrap();
      let _ = guard(|| g.real.serialize(&mut probe));
      let calls = probe.calls;
      if fault {
        let fuel = if r.chance(1, 4) { calls - 1 - (r.below(4) as u64).min(calls - 1) } else { r.below(calls as usize) as u64 };
        let mut s = BinSer::new(fuel);
        let res = match guard(|| g.real.serialize(&mut s)) {
          Ok(r) => r,
          Err(e) => viol!(self, ["C09", "C08"], "saving through a failing serializer panicked: {e}"),
        };
        self.st.fault("serializer_error");
        if res.is_ok() {
          viol!(self, ["C09"], "save reported success although the serializer failed at call {fuel} of {calls}");
        }
        self.say(|| format!("save of g{gi} failed as injected at call {fuel}"));
        return self.check_graph(gi, &["C09"], None);
      }
      self.files[file].pending = Some(Image { bytes: clean, json, m, seq });
    }
    if r.chance(2, 3) {
      let p = self.files[file].pending.clone();
      self.files[file].durable = p;
    }
    self.say(|| format!("save of g{gi} ok"));
    Ok(())
  }
  /// load an image: must yield exactly the saved graph
  fn load(&mut self, im: &Image) -> R<(Context, Graph<S::N>)> {
    self.st.eval("C08");
    let ser = match guard(|| Self::decode(&im.bytes, im.json)) {
      Ok(Ok(s)) => s,
      Ok(Err(e)) => viol!(self, ["C08", "C09"], "an intact image does not load: {e}"),
      Err(e) => viol!(self, ["C08", "C09"], "decoding an intact image panicked: {e}"),
    };
    match guard(|| deserialize_graph(ser)) {
      Ok(x) => Ok(x),
      Err(e) => viol!(self, ["C08"], "restoring an intact image panicked: {e}"),
    }
  }
  fn fresh_issued(m: &MGraph) -> BTreeSet<Id> {
    let mut s: BTreeSet<Id> = m.nodes.keys().copied().collect();
    for n in m.nodes.values() {
      for l in &n.links {
        s.extend(l.targets());
      }
    }
    s
  }
  /// put a loaded graph into slot gi under its own context, and exercise it
  fn install(&mut self, r: &mut Rng, gi: usize, file: usize, im: &Image, probe: bool) -> R<()> {
    let (ctx, g) = self.load(im)?;
    let ident = im.m.ctx;
    self.ctxs.push(Ctx { real: ctx, ident, issued: Self::fresh_issued(&im.m), retired: false, shared: false });
    let c = self.ctxs.len() - 1;
    let fl = Flags { restored: true, moved: false, checked: false };
    self.gs[gi] = Some(GSlot { real: g, m: im.m.clone(), ctx: c, fl, file });
    self.say(|| format!("graph {gi} restored ({} nodes)", im.m.nodes.len()));
    self.check_graph(gi, &["C08"], None)?;
    if probe {
      self.probe(r, gi, 2)?;
    }
    Ok(())
  }
  /// an image written elsewhere: indices far up, and a context identity that differs from a known one in a single bit
  fn op_import(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    if self.gs.iter().flatten().count() > 4 {
      return Ok(());
    }
    let v = match guard(|| serde_json::to_value(&self.gs[gi].as_ref().unwrap().real)) {
      Ok(Ok(v)) => v,
      _ => viol!(self, ["C09", "C08", "C11"], "saving failed"),
    };
    let (Some(id), Some(recs)) = (v["ctx_id"].as_str(), v["nodes"].as_array()) else {
      self.st.probe("image_format_unknown");
      return Ok(());
    };
    let Ok(id) = u128::from_str_radix(&id.replace('-', ""), 16) else { return Ok(()) };
    self.imported.insert(id);
    let id = id ^ 1u128 << r.below(128);
    if !self.imported.insert(id) {
      return Ok(());
    }
    let off = *r.pick(&[0usize, 0, 250, (1 << 16) - 3, (1 << 31) - 3, (1 << 32) - 3, (1 << 32) + 1, (1 << 53) - 3, 1 << 62]);
    let base = self.gs[gi].as_ref().unwrap().m.clone();
    if base.nodes.keys().any(|k| *k > 1 << 50) {
      return Ok(());
    }
    let up = |x: Id| if x == 0 { 0 } else { x + off };
    self.next_ident += 1;
    let mut m = MGraph { ctx: self.next_ident, nodes: BTreeMap::new() };
    for (x, n) in &base.nodes {
      let mut n = n.clone();
      for l in &mut n.links {
        *l = match &*l {
          ALink::D(y) => ALink::D(up(*y)),
          ALink::S(s) => ALink::S(s.iter().map(|y| up(*y)).collect()),
          ALink::V(s) => ALink::V(s.iter().map(|y| up(*y)).collect()),
        };
      }
      m.nodes.insert(up(*x), n);
    }
    let mut out = vec![];
    for rec in recs {
      let i = up(rec[0].as_u64().unwrap_or(0) as usize);
      let Some(n) = m.nodes.get(&i) else { return Ok(()) };
      out.push(serde_json::json!([i, serde_json::to_value(S::to_real(n)).expect("node")]));
    }
    let h = format!("{id:032x}");
    let h = format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..]);
    let bytes = serde_json::to_vec(&serde_json::json!({"ctx_id": h, "nodes": out})).expect("image");
    self.files.push(File::default());
    let file = self.files.len() - 1;
    let slot = match self.gs.iter().position(|g| g.is_none()) {
      Some(s) => s,
      None => {
        self.gs.push(None);
        self.gs.len() - 1
      },
    };
    self.st.fault("near_identical_context");
    if off > 1 << 20 {
      self.st.probe("indices>2^20");
    }
    self.say(|| format!("import of a copy of g{gi} as g{slot}, indices +{off}"));
    let im = Image { bytes, json: true, m, seq: 0 };
    let pr = r.chance(1, 2);
    self.install(r, slot, file, &im, pr)?;
    for c in 0..self.cl.len() {
      if self.cl[c].t.is_none() && r.chance(1, 3) {
        self.cl[c].g = slot;
      }
    }
    Ok(())
  }
  /// the newest context, that of a restored image, is not used for anything new
  fn retire(&mut self) {
    self.ctxs.last_mut().unwrap().retired = true;
  }
  /// fault-free use of a graph through a client of its own
  fn probe(&mut self, r: &mut Rng, gi: usize, rounds: usize) -> R<()> {
    let saved = self.cl.len();
    let ctx = self.gs[gi].as_ref().unwrap().ctx;
    self.cl.push(Client { t: None, ctx, g: gi, merged: false, filled: BTreeSet::new() });
    let c = saved;
    let res = (|| {
      for _ in 0..rounds {
        if self.gs[gi].is_none() {
          break;
        }
        self.cl[c].g = gi;
        self.cl[c].ctx = self.gs[gi].as_ref().unwrap().ctx;
        let t = Transaction::new(&self.ctxs[self.cl[c].ctx].real);
        let m = MTxn { ctx: self.ctxs[self.cl[c].ctx].ident, ..Default::default() };
        self.cl[c].t = Some((t, m));
        for _ in 0..r.range(1, 4) {
          match r.below(10) {
            0..=1 => self.op_insert(r, c)?,
            2..=4 => self.op_remove(r, c)?,
            5 => self.op_redirect(r, c, true)?,
            6 => self.op_redirect(r, c, false)?,
            7 => self.op_change(r, c, false, true)?,
            8 => self.op_change(r, c, true, false)?,
            _ => self.op_pair(r, c, false)?,
          }
        }
        let chk = r.chance(1, 8);
        self.do_commit(r, c, gi, chk, false)?;
        self.drop_txn(c, true);
      }
      Ok(())
    })();
    self.cl.truncate(saved);
    res
  }
  fn op_verify(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    // save, restore beside the original, compare, go on with the copy, then bring it home
    let json = r.chance(1, 2);
    let bytes = match guard(|| self.encode(gi, json)) {
      Ok(Ok(b)) => b,
      Ok(Err(e)) => viol!(self, ["C08", "C09", "C11"], "saving failed: {e}"),
      Err(e) => viol!(self, ["C08", "C09"], "saving panicked: {e}"),
    };
    let (m, file, ctx) = {
      let g = self.gs[gi].as_ref().unwrap();
      (g.m.clone(), g.file, g.ctx)
    };
    let im = Image { bytes, json, m, seq: 0 };
    if json {
      let v: serde_json::Value = serde_json::from_slice(&im.bytes).unwrap_or(serde_json::Value::Null);
      self.check_image_value(&v, &im.m)?;
    }
    let (c2, g2) = self.load(&im)?;
    // image of the copy: equivalent
    let v2 = match guard(|| serde_json::to_value(&g2)) {
      Ok(Ok(v)) => v,
      _ => viol!(self, ["C08"], "saving a restored graph failed"),
    };
    self.check_image_value(&v2, &im.m)?;
    if r.chance(1, 3) {
      // the same through the helper struct
      let gs = GraphSerializer::from(g2);
      let v3 = match guard(|| serde_json::to_value(&gs)) {
        Ok(Ok(v)) => v,
        _ => viol!(self, ["C08"], "saving through GraphSerializer failed"),
      };
      self.check_image_value(&v3, &im.m)?;
      if v3["ctx_id"] != v2["ctx_id"] {
        viol!(self, ["C08"], "GraphSerializer changes the context identity");
      }
      let mut t: Txn<S> = Transaction::new(&c2);
      let i = t.alloc_untyped().0;
      if i == 0 || Self::fresh_issued(&im.m).contains(&i) {
        viol!(self, ["C01", "C08"], "restored context hands out index {i}, which occurs in the restored graph");
      }
      return Ok(());
    }
    // the copy replaces the original (its context has the same identity, so nothing of the
    // original process may remain): move it into the live context, as the documentation asks
    drop(c2);
    drop(g2);
    if r.chance(1, 2) {
      return Ok(());
    }
    self.gs[gi] = None;
    self.install(r, gi, file, &im, true)?;
    self.retire();
    if self.gs[gi].is_some() {
      self.do_switch(gi, ctx)?;
    }
    Ok(())
  }
  fn check_image_value(&mut self, v: &serde_json::Value, m: &MGraph) -> R<()> {
    let mut seen = BTreeSet::new();
    let Some(nodes) = v["nodes"].as_array() else {
      self.st.probe("image_format_unknown");
      return Ok(());
    };
    for rec in nodes {
      let i = rec[0].as_u64().unwrap_or(0) as usize;
      let n: Result<S::N, _> = serde_json::from_value(rec[1].clone());
      let ok = match (&n, m.nodes.get(&i)) {
        (Ok(n), Some(a)) => S::from_real(n) == *a,
        _ => false,
      };
      if !ok || !seen.insert(i) {
        viol!(self, ["C08", "C11", "C09"], "image record {i} is wrong, unknown or repeated");
      }
    }
    if seen.len() != m.nodes.len() {
      viol!(self, ["C08", "C11", "C09"], "image holds {} of {} nodes", seen.len(), m.nodes.len());
    }
    Ok(())
  }
  fn op_torn(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    self.st.eval("C09");
    for json in [true, false] {
      let b = match guard(|| self.encode(gi, json)) {
        Ok(Ok(b)) => b,
        _ => viol!(self, ["C09", "C08", "C11"], "saving failed"),
      };
      for _ in 0..6 {
        let cut = if r.chance(1, 3) { b.len() - 1 - r.below(12.min(b.len())) } else { r.below(b.len()) };
        self.st.fault("torn_image");
        // fault: the image is cut; loading must fail somewhere before a graph exists
        if let Ok(true) = guard(|| match Self::decode(&b[..cut], json) {
          Err(_) => false,
          Ok(s) => {
            let _ = deserialize_graph(s);
            true
          },
        }) {
          viol!(self, ["C09"], "an image cut at byte {cut} of {} (json={json}) loads", b.len());
        }
      }
    }
    Ok(())
  }
  fn op_dup(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    let m = self.gs[gi].as_ref().unwrap().m.clone();
    if m.nodes.is_empty() {
      return Ok(());
    }
    let v = match guard(|| serde_json::to_value(&self.gs[gi].as_ref().unwrap().real)) {
      Ok(Ok(v)) => v,
      _ => viol!(self, ["C09", "C08"], "saving failed"),
    };
    let mut v2 = v.clone();
    let Some(recs) = v2["nodes"].as_array_mut() else { return Ok(()) };
    if recs.is_empty() {
      return Ok(());
    }
    let k = r.below(recs.len());
    let mut rec = recs[k].clone();
    if r.chance(1, 2) {
      // same index, other contents (possibly of another type)
      let o = r.below(recs.len());
      rec[1] = recs[o][1].clone();
    }
    let at = if r.chance(1, 2) { k + 1 } else { r.below(recs.len() + 1) };
    recs.insert(at, rec);
    self.st.fault("duplicated_record");
    self.st.eval("C09");
    let txt = serde_json::to_vec(&v2).unwrap();
    if let Ok(true) = guard(|| match Self::decode(&txt, true) {
      Err(_) => false,
      Ok(s) => {
        let _ = deserialize_graph(s);
        true
      },
    }) {
      viol!(self, ["C09"], "an image holding the same index twice loads");
    }
    Ok(())
  }
  fn op_read_fault(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    let b = match guard(|| self.encode(gi, true)) {
      Ok(Ok(b)) => b,
      _ => viol!(self, ["C09", "C08"], "saving failed"),
    };
    self.st.eval("C09");
    let fail = r.chance(2, 3);
    let at = r.below(b.len());
    let mut rd = SimReader { b: &b, rng: Rng::new(r.next()), fail_at: fail.then_some(at), pos: 0, fired: false };
    let res = guard(|| serde_json::from_reader::<_, GraphSerializer<S::N>>(&mut rd).map_err(|e| e.to_string()));
    match (rd.fired, res) {
      (_, Err(e)) => viol!(self, ["C09", "C08"], "loading panicked: {e}"),
      (true, Ok(Ok(_))) => viol!(self, ["C09"], "loading succeeded although the device failed at byte {at}"),
      (true, Ok(Err(_))) => self.st.fault("read_error"),
      (false, Ok(Err(e))) => viol!(self, ["C09", "C08"], "loading through short and interrupted reads failed: {e}"),
      (false, Ok(Ok(_))) => self.st.fault("short_read_eintr"),
    }
    Ok(())
  }
  fn op_crash(&mut self, r: &mut Rng) -> R<()> {
    self.st.fault("crash");
    if self.cl.iter().any(|c| c.t.as_ref().is_some_and(|t| !t.1.is_empty())) {
      self.st.fault("crash_with_open_transactions");
    }
    // everything in memory is gone
    for c in 0..self.cl.len() {
      self.drop_txn(c, false);
    }
    self.gs.clear();
    self.ctxs.clear();
    let files = std::mem::take(&mut self.files);
    let mut lost = false;
    self.say(|| "crash".to_string());
    for f in files {
      let mut f = f;
      if let Some(p) = &f.pending {
        if f.durable.as_ref().map(|d| d.seq) != Some(p.seq) {
          lost = true;
          // not made durable: lost, or a torn prefix is found on restart
          if r.chance(1, 2) && !p.bytes.is_empty() {
            let cut = r.below(p.bytes.len());
            self.st.fault("torn_write_at_crash");
            if let Ok(Ok(_)) = guard(|| Self::decode(&p.bytes[..cut], p.json)) {
              viol!(self, ["C09"], "a torn image found after a crash loads");
            }
          }
        }
      }
      f.pending = None;
      let Some(im) = f.durable.clone() else { continue };
      if self.gs.len() >= 4 {
        continue;
      }
      let clash = self.ctx_of(im.m.ctx);
      self.files.push(f);
      let file = self.files.len() - 1;
      self.gs.push(None);
      let gi = self.gs.len() - 1;
      let pr = r.chance(1, 2);
      self.install(r, gi, file, &im, pr)?;
      if let Some(live) = clash {
        // two images of one context: the documentation asks for switch_context
        self.retire();
        if self.gs[gi].is_some() {
          let to = if r.chance(1, 2) { live } else { self.new_ctx(r)? };
          self.do_switch(gi, to)?;
        }
      }
    }
    if lost {
      self.st.fault("lost_unsynced_write");
    }
    if self.live_ctxs() == 0 {
      self.new_ctx(r)?;
    }
    if self.gs.iter().all(|g| g.is_none()) {
      let c = self.live_ctx(r);
      self.new_graph(c, None);
    }
    for c in 0..self.cl.len() {
      self.cl[c].g = c % self.gs.len();
    }
    Ok(())
  }
  /// replace a discarded graph: from its last durable image if there is one
  fn op_recover(&mut self, r: &mut Rng) -> R<()> {
    if self.gs.len() > 6 {
      // forget spare slots
      self.gs.retain(|g| g.is_some());
      for c in 0..self.cl.len() {
        self.drop_txn(c, true);
        self.cl[c].g = c % self.gs.len().max(1);
      }
    }
    let dead: Vec<usize> = (0..self.gs.len()).filter(|g| self.gs[*g].is_none()).collect();
    if dead.is_empty() && !self.gs.is_empty() {
      return Ok(());
    }
    if self.gs.is_empty() {
      self.gs.push(None);
    }
    let gi = if dead.is_empty() { 0 } else { *r.pick(&dead) };
    let cand: Vec<usize> = (0..self.files.len()).filter(|f| self.files[*f].durable.is_some()).collect();
    let live: BTreeSet<usize> = self.gs.iter().flatten().map(|g| g.file).collect();
    if !cand.is_empty() && r.chance(2, 3) {
      let f = *r.pick(&cand);
      let im = self.files[f].durable.clone().unwrap();
      let to = self.ctx_of(im.m.ctx);
      let file = if live.contains(&f) {
        self.files.push(File::default());
        self.files.len() - 1
      } else {
        f
      };
      let pr = r.chance(1, 2);
      self.install(r, gi, file, &im, pr)?;
      if let Some(to) = to {
        // identity still in use by the running process: the restored context is retired at once
        self.retire();
        if self.gs[gi].is_some() {
          let to = if r.chance(1, 3) { self.live_ctx(r) } else { to };
          self.do_switch(gi, to)?;
        }
      }
    } else {
      let c = self.live_ctx(r);
      self.new_graph(c, Some(gi));
      self.say(|| format!("graph {gi} created empty in context {c}"));
    }
    Ok(())
  }

  // ---------------------------------------------------------------- views
  /// many nodes of one type arrive at once, or most nodes of one type go
  fn op_skew(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    let d = self.d.clone();
    let v = r.below(d.vars.len());
    let ctx = self.gs[gi].as_ref().unwrap().ctx;
    let mctx = self.gs[gi].as_ref().unwrap().m.ctx;
    let have: Vec<Id> = self.gs[gi].as_ref().unwrap().m.nodes.iter().filter(|n| n.1.v == v).map(|n| *n.0).collect();
    let mut t: Txn<S> = Transaction::new(&self.ctxs[ctx].real);
    let mut m = MTxn { ctx: mctx, ..Default::default() };
    let grow = have.len() < 250;
    if grow {
      for _ in 0..r.range(300, 600) {
        let uid = self.uid();
        let n = d.fresh(v, uid);
        let real = S::to_real(&n);
        match guard(|| t.insert(real)) {
          Ok(i) => {
            self.issue(ctx, i.0, "insert")?;
            m.news.insert(i.0, n);
          },
          Err(e) => viol!(self, ["C01", "C02"], "insert panicked: {e}"),
        }
      }
    } else {
      let keep = r.below(4);
      for i in &have[keep..] {
        m.decs.push(*i);
        if let Err(e) = guard(|| t.remove(ni(*i))) {
          viol!(self, ["C02"], "remove panicked: {e}");
        }
      }
    }
    let mut tmp = self.gs[gi].as_ref().unwrap().m.clone();
    if tmp.commit(&d, &m).is_err() {
      return Ok(());
    }
    let g = self.gs[gi].as_mut().unwrap();
    if let Err(e) = guard(|| g.real.commit(t)) {
      viol!(self, ["C02", "C06", "C07"], "commit of a bulk transaction panicked: {e}");
    }
    g.m = tmp;
    self.say(|| format!("g{gi}: {} nodes of {}", if grow { "many new" } else { "most are removed," }, d.vars[v].name));
    self.check_graph(gi, &["C02"], None)?;
    self.costs(gi)
  }
  /// simulated time (instrumented events of this thread; engine B only) spent on iterating one type
  fn costs(&mut self, gi: usize) -> R<()> {
    for v in 0..self.d.vars.len() {
      let g = self.gs[gi].as_ref().unwrap();
      let n = g.m.nodes.values().filter(|n| n.v == v).count();
      let t0 = crate::seam::now();
      let k = guard(|| {
        let mut k = 0usize;
        for (i, _) in g.real.iter_type(S::disc(v)) {
          k += (i.0 != 0) as usize;
        }
        k
      });
      let t = crate::seam::now() - t0;
      if k != Ok(n) {
        violt!(self, self.graph_tags(gi, vec!["C11"]), "iter_type({}) yields {k:?} of {n} nodes", self.d.vars[v].name);
      }
      if t > 0 {
        self.st.eval("C16");
      }
      if t > 1000 + 100 * n as u64 {
        let total = g.m.nodes.len();
        viol!(self, ["C16"], "iterating the {n} nodes of {} in a graph of {total} takes {t} instrumented events", self.d.vars[v].name);
      }
    }
    Ok(())
  }
  fn op_views(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    self.st.eval("C11");
    let res = guard_read(|| self.views(r, gi));
    match res {
      Ok(Ok(h)) => {
        self.obs(h);
        Ok(())
      },
      Ok(Err(e)) => violt!(self, self.graph_tags(gi, vec!["C11"]), "{e}"),
      Err(e) => violt!(self, self.graph_tags(gi, vec!["C11"]), "reading a graph panicked: {e}"),
    }
  }
  /// what the library tells about a declaration
  fn declared(&self) -> Result<(), String> {
    for (v, vd) in self.d.vars.iter().enumerate() {
      let sorted = |mut x: Vec<&'static str>| {
        x.sort();
        x
      };
      let (links, data) = S::names(v);
      if sorted(links.clone()) != sorted(vd.links.iter().map(|l| l.name).collect()) {
        return Err(format!("{} has the links {links:?}", vd.name));
      }
      if sorted(data.clone()) != ["text", "uid", "val"] {
        return Err(format!("{} has the data {data:?}", vd.name));
      }
      let mut ms = vec![];
      for l in &vd.links {
        match S::mirror(v, l.name) {
          Some((m, k)) if k == l.kind && !ms.contains(&m) => ms.push(m),
          x => return Err(format!("{}.{} is declared as {x:?}", vd.name, l.name)),
        }
        if S::log_links(v, l.name) != Some(vec![*ms.last().unwrap()]) {
          return Err(format!("{}.{} stands for {:?}", vd.name, l.name, S::log_links(v, l.name)));
        }
      }
      for (g, ls) in &vd.link_groups {
        let mut got = S::log_links(v, g).ok_or_else(|| format!("the link group {} of {} is unknown", g, vd.name))?;
        let mut want: Vec<_> = ls.iter().map(|l| ms[*l]).collect();
        got.sort();
        want.sort();
        if got != want {
          return Err(format!("the link group {} of {} is {got:?}", g, vd.name));
        }
      }
      if S::log_links(v, "no such link").is_some() {
        return Err(format!("{} knows an undeclared link", vd.name));
      }
    }
    Ok(())
  }
  fn views(&self, r: &mut Rng, gi: usize) -> Result<u64, String> {
    if r.chance(1, 4) {
      self.declared()?;
    }
    let g = self.gs[gi].as_ref().unwrap();
    let m = &g.m.nodes;
    let real = &g.real;
    let d = &self.d;
    let mut h = 3u64;
    if real.len() != m.len() || real.is_empty() != m.is_empty() {
      return Err(format!("len()={} is_empty()={} but {} nodes", real.len(), real.is_empty(), m.len()));
    }
    // full iteration with exact length hints
    let mut it = real.iter();
    let mut seen = BTreeSet::new();
    let mut left = m.len();
    loop {
      if it.size_hint() != (left, Some(left)) || it.len() != left {
        return Err(format!("iterator announces {:?} with {left} nodes left", it.size_hint()));
      }
      let cl = if r.chance(1, 10) { Some(it.clone()) } else { None };
      let Some((i, n)) = it.next() else { break };
      if let Some(mut cl) = cl {
        if cl.next().map(|x| x.0) != Some(i) || cl.count() != left - 1 {
          return Err("a clone of the iterator disagrees".into());
        }
      }
      left = left.checked_sub(1).ok_or("iterator yields too many nodes")?;
      h = mix2(h, i.0 as u64);
      if !seen.insert(i.0) {
        return Err(format!("iteration yields {} twice", i.0));
      }
      if m.get(&i.0) != Some(&S::from_real(n)) {
        return Err(format!("iteration yields {} {:?}", i.0, n));
      }
    }
    if left != 0 || it.next().is_some() || it.len() != 0 || it.size_hint() != (0, Some(0)) || it.next().is_some() {
      return Err("iteration stops early, resumes or announces nodes after its end".into());
    }
    if !(&*real).into_iter().map(|x| x.0).eq(real.iter().map(|x| x.0)) {
      return Err("iteration over &graph disagrees with iter()".into());
    }
    // by type
    for v in 0..d.vars.len() {
      let want: BTreeSet<Id> = m.iter().filter(|(_, n)| n.v == v).map(|(k, _)| *k).collect();
      let mut it = real.iter_type(S::disc(v));
      let mut got = BTreeSet::new();
      loop {
        let left = want.len() - got.len();
        if it.len() != left || it.size_hint() != (left, Some(left)) {
          return Err(format!("iter_type({}) announces {:?} with {left} nodes left", d.vars[v].name, it.size_hint()));
        }
        let Some((i, n)) = it.next() else {
          if it.next().is_some() || it.size_hint() != (0, Some(0)) && left == 0 {
            return Err(format!("iter_type({}) resumes after its end", d.vars[v].name));
          }
          break;
        };
        h = mix2(h, i.0 as u64);
        let a = S::from_real(n);
        if a.v != v || m.get(&i.0) != Some(&a) || !got.insert(i.0) {
          return Err(format!("iter_type({}) yields {} {:?}", d.vars[v].name, i.0, n));
        }
      }
      if got != want {
        return Err(format!("iter_type({}) yields {:?} instead of {:?}", d.vars[v].name, got, want));
      }
      let got: Vec<(NodeIndex, ANode)> = S::iter_macro(real, v);
      if got.len() != want.len() || got.iter().any(|(i, n)| m.get(&i.0) != Some(n) || n.v != v) {
        return Err(format!("iter_nodes!({}) disagrees", d.vars[v].name));
      }
    }
    for (name, vs) in &d.node_groups {
      let want: BTreeSet<Id> = m.iter().filter(|(_, n)| vs.contains(&n.v)).map(|(k, _)| *k).collect();
      let mut it = real.iter_group(name);
      let mut got: Vec<Id> = vec![];
      loop {
        let (lo, hi) = it.size_hint();
        let left = want.len().saturating_sub(got.len());
        if lo > left || hi.is_some_and(|x| x < left) {
          return Err(format!("iter_group({name}) announces {:?} with {left} nodes left", (lo, hi)));
        }
        let Some((i, n)) = it.next() else { break };
        if m.get(&i.0) != Some(&S::from_real(n)) {
          return Err(format!("iter_group({name}) yields {} {:?}", i.0, n));
        }
        got.push(i.0);
      }
      for i in &got {
        h = mix2(h, *i as u64);
      }
      if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want {
        return Err(format!("iter_group({name}) yields {got:?} instead of {want:?}"));
      }
    }
    if real.iter_group("no such group").next().is_some() {
      return Err("iter_group of an unknown group yields nodes".into());
    }
    // lookup of every index that ever existed
    let mut ids: BTreeSet<Id> = self.ctxs.iter().flat_map(|c| c.issued.iter().copied()).collect();
    ids.extend([0, usize::MAX, ids.iter().next_back().copied().unwrap_or(0) + 1]);
    for i in &ids {
      let a = real.get(ni(*i)).map(S::from_real);
      if a.as_ref() != m.get(i) {
        return Err(format!("get({i}) yields {:?}", a));
      }
      if r.chance(1, 8) {
        let v = r.below(d.vars.len());
        let a = S::get_macro(real, v, ni(*i));
        if a.as_ref() != m.get(i).filter(|n| n.v == v) {
          return Err(format!("get_node!({}, {i}) yields {:?}", d.vars[v].name, a));
        }
      }
    }
    // per-node queries
    for (i, n) in m {
      if !r.chance(1, 3) {
        continue;
      }
      let rn = real.get(ni(*i)).unwrap();
      let vd = &d.vars[n.v];
      if rn.discriminant() != S::disc(n.v) {
        return Err(format!("node {i} reports the wrong type"));
      }
      let nonempty = |l: &ALink| -> Vec<Id> {
        let mut v = match l {
          ALink::D(x) => vec![*x],
          ALink::S(s) => s.iter().copied().collect(),
          ALink::V(s) => s.clone(),
        };
        v.retain(|x| *x != 0);
        v
      };
      for (l, ld) in vd.links.iter().enumerate() {
        let got: Vec<Id> = rn.get_links_by_name(ld.name).map(|x| x.0).collect();
        let mut want = nonempty(&n.links[l]);
        let mut g2 = got.clone();
        if ld.kind == Kind::S {
          g2.sort();
          want.sort();
        }
        if g2 != want {
          return Err(format!("node {i}: get_links_by_name({}) yields {got:?} instead of {want:?}", ld.name));
        }
      }
      for (gname, ls) in &vd.link_groups {
        let mut got: Vec<Id> = rn.get_links_by_group(gname).iter().map(|x| x.0).collect();
        let mut want: Vec<Id> = ls.iter().flat_map(|l| nonempty(&n.links[*l])).collect();
        got.sort();
        want.sort();
        if got != want {
          return Err(format!("node {i}: get_links_by_group({gname}) yields {got:?} instead of {want:?}"));
        }
      }
      // the same by link
      let mut all: Vec<(Id, usize)> = vec![];
      for (l, ld) in vd.links.iter().enumerate() {
        let Some((lm, _)) = S::mirror(n.v, ld.name) else { return Err(format!("link {} has no name", ld.name)) };
        let want = nonempty(&n.links[l]);
        let mut got: Vec<Id> = rn.iter_links(lm).map(|x| x.0).collect();
        if ld.kind == Kind::S {
          got.sort();
        }
        if got != want {
          return Err(format!("node {i}: iter_links({}) yields {got:?} instead of {want:?}", ld.name));
        }
        let other = *m.keys().nth(r.below(m.len())).unwrap();
        for y in want.iter().take(3).copied().chain([other, usize::MAX]) {
          if rn.contains_link(lm, ni(y)) != want.contains(&y) {
            return Err(format!("node {i}: contains_link({}, {y}) is wrong", ld.name));
          }
        }
        let src: BTreeSet<Id> = rn.iter_sources().filter(|x| S::N::to_link_mirror_enum(x.1) == lm).map(|x| x.0 .0).collect();
        if !src.iter().eq(want.iter().copied().collect::<BTreeSet<_>>().iter()) {
          return Err(format!("node {i}: iter_sources yields {src:?} for {} instead of {want:?}", ld.name));
        }
        all.extend(want.iter().map(|y| (*y, l)));
        if !rn.check_link(lm) {
          return Err(format!("node {i} denies its link {}", ld.name));
        }
        // a link of another type
        let v = r.below(d.vars.len());
        if let (true, Some(ld)) = (v != n.v, d.vars[v].links.first()) {
          let lm = S::mirror(v, ld.name).ok_or_else(|| format!("link {} has no name", ld.name))?.0;
          if rn.check_link(lm) || want.iter().any(|y| rn.contains_link(lm, ni(*y))) {
            return Err(format!("node {i} claims the link {} of another type", ld.name));
          }
        }
      }
      if rn.iter_sources().count() != all.len() {
        return Err(format!("node {i}: iter_sources yields {} links of {}", rn.iter_sources().count(), all.len()));
      }
      for (gname, vs) in &d.node_groups {
        if rn.in_group(gname) != vs.contains(&n.v) {
          return Err(format!("node {i}: in_group({gname}) is wrong"));
        }
      }
      if rn.data_ref_by_name::<u64>("uid") != Some(&n.uid)
        || !S::val_found(rn)
        || rn.data_ref_by_name::<String>("text") != Some(&n.text)
        || rn.data_ref_by_name::<u32>("val").is_some()
        || rn.data_ref_by_name::<i64>("nothing").is_some()
      {
        return Err(format!("node {i}: data_ref_by_name disagrees"));
      }
    }
    // the integrity check of debug builds: no link leaves the graph
    if cfg!(debug_assertions) {
      let leaves = m.values().any(|n| {
        n.links.iter().any(|l| match l {
          ALink::D(x) => *x != 0 && !m.contains_key(x),
          ALink::S(s) => s.iter().any(|x| *x != 0 && !m.contains_key(x)),
          ALink::V(s) => s.iter().any(|x| *x != 0 && !m.contains_key(x)),
        })
      });
      let failed = guard_read(|| real.check_integrity()).is_err();
      if failed != leaves {
        return Err(format!("check_integrity fails = {failed}, a link leaves the graph = {leaves}"));
      }
    }
    // printed forms
    if r.chance(1, 4) {
      let (a, b) = (format!("{real:?}"), format!("{real}"));
      let skip = (m.len() / 40).max(1);
      for (i, n) in real.iter().step_by(skip) {
        if a.matches(&format!("{n:?}")).count() != 1 || b.matches(&format!("{n}")).count() != 1 {
          return Err(format!("node {} is not printed exactly once", i.0));
        }
      }
    }
    // saved image
    let v = serde_json::to_value(real).map_err(|e| e.to_string())?;
    let recs = v["nodes"].as_array().ok_or("image without nodes")?;
    let got: BTreeSet<Id> = recs.iter().map(|x| x[0].as_u64().unwrap_or(0) as usize).collect();
    if recs.len() != m.len() || got.iter().ne(m.keys()) {
      return Err(format!("image holds {got:?}"));
    }
    Ok(h)
  }
  fn final_views(&mut self, gi: usize) -> R<()> {
    let g = self.gs[gi].take().unwrap();
    let m = g.m.nodes;
    let order: Vec<Id> = g.real.iter().map(|x| x.0 .0).collect();
    let res = guard(|| {
      let mut it = g.real.into_iter();
      let mut left = m.len();
      let mut got = vec![];
      loop {
        if it.size_hint() != (left, Some(left)) {
          return Err(format!("into_iter announces {:?} with {left} nodes left", it.size_hint()));
        }
        let Some((i, n)) = it.next() else { break };
        left = left.checked_sub(1).ok_or("into_iter yields too many")?;
        got.push(i.0);
        if m.get(&i.0) != Some(&S::from_real(&n)) {
          return Err(format!("into_iter yields {} {:?}", i.0, n));
        }
      }
      if it.size_hint() != (0, Some(0)) || it.next().is_some() {
        return Err(format!("into_iter announces {:?} or resumes after its end", it.size_hint()));
      }
      if got != order {
        return Err("into_iter and iter disagree".to_string());
      }
      Ok(())
    });
    match res {
      Ok(Ok(())) => Ok(()),
      Ok(Err(e)) => violt!(self, self.graph_tags(gi, vec!["C11"]), "{e}"),
      Err(e) => violt!(self, self.graph_tags(gi, vec!["C11"]), "into_iter panicked: {e}"),
    }
  }

  // ---------------------------------------------------------------- the schedule
  fn some_graph(&self, r: &mut Rng) -> Option<usize> {
    let live: Vec<usize> = (0..self.gs.len()).filter(|g| self.gs[*g].is_some()).collect();
    if live.is_empty() {
      None
    } else {
      Some(*r.pick(&live))
    }
  }
  fn exec(&mut self, s: Step) -> R<()> {
    let mut rr = Rng::new(s.1);
    let r = &mut rr;
    let k = KINDS[s.0 as usize % NK];
    let c = r.below(self.cl.len());
    *self.st.kinds.entry(KNAMES[k as usize]).or_default() += 1;
    match k {
      K::Insert | K::AllocT | K::AllocU | K::Fill | K::Remove | K::Mutate | K::Update | K::RedirPre | K::RedirAll
      | K::Chain | K::Extend | K::Merge | K::Pair | K::Rewire => {
        if !self.open(c, r) {
          return Ok(());
        }
        match k {
          K::Insert => {
            for _ in 0..1 + r.below(3) {
              self.op_insert(r, c)?;
            }
            Ok(())
          },
          K::AllocT => self.op_alloc(r, c, true).map(|_| ()),
          K::AllocU => self.op_alloc(r, c, false).map(|_| ()),
          K::Fill => self.op_fill(r, c),
          K::Remove => self.op_remove(r, c),
          K::Mutate => self.op_change(r, c, false, false),
          K::Update => self.op_change(r, c, true, false),
          K::Rewire => {
            let upd = r.chance(1, 3);
            self.op_change(r, c, upd, true)
          },
          K::RedirPre => self.op_redirect(r, c, false),
          K::RedirAll => self.op_redirect(r, c, true),
          K::Chain => {
            let all = r.chance(1, 2);
            self.op_chain(r, c, all)
          },
          K::Extend => self.op_extend(r, c),
          K::Pair => {
            let upd = r.chance(1, 3);
            self.op_pair(r, c, upd)
          },
          _ => self.op_merge(r, c),
        }
      },
      K::Commit | K::Checked | K::BadCommit | K::Finish => {
        if !self.open(c, r) {
          return Ok(());
        }
        if k == K::Finish {
          // fill what is still open, then commit
          let al: Vec<(Id, Option<usize>)> =
            self.cl[c].t.as_ref().unwrap().1.allocs.iter().map(|(a, b)| (*a, *b)).collect();
          for (i, v) in al {
            self.fill_one(r, c, i, v)?;
          }
        }
        let gi = self.cl[c].g;
        let chk = k == K::Checked;
        let force = k == K::BadCommit;
        if force {
          self.st.fault("commit_of_a_conflicting_or_ill_typed_transaction_attempted");
        }
        self.do_commit(r, c, gi, chk, force)
      },
      K::Abandon => {
        if self.cl[c].t.as_ref().is_some_and(|t| !t.1.is_empty()) {
          self.st.fault("abandoned_transaction");
        }
        let gu = r.chance(1, 2);
        self.say(|| format!("c{c} abandons its transaction"));
        self.drop_txn(c, gu);
        self.check_others(None)
      },
      K::SwitchCtx => {
        let Some(gi) = self.some_graph(r) else { return Ok(()) };
        let from = self.gs[gi].as_ref().unwrap().ctx;
        let to = if self.live_ctxs() < 4 && r.chance(1, 4) { self.new_ctx(r)? } else { self.live_ctx(r) };
        // clients working on that graph lose their transactions, except some that do not know
        for c in 0..self.cl.len() {
          if self.cl[c].t.is_some() && self.cl[c].ctx == from && self.cl[c].g == gi && (to == from || r.chance(2, 3)) {
            self.drop_txn(c, true);
          }
        }
        self.do_switch(gi, to)?;
        self.check_others(Some(gi))
      },
      K::NewGraph => {
        if self.gs.iter().filter(|g| g.is_some()).count() < 4 {
          let ctx = if self.live_ctxs() < 4 && r.chance(1, 4) { self.new_ctx(r)? } else { self.live_ctx(r) };
          let slot = (0..self.gs.len()).find(|g| self.gs[*g].is_none());
          let g = self.new_graph(ctx, slot);
          self.say(|| format!("new graph {g} in context {ctx}"));
          // give it some contents right away
          let saved = self.cl[c].t.is_none();
          if saved {
            self.cl[c].g = g;
            if self.open(c, r) {
              for _ in 0..r.range(1, 4) {
                self.op_insert(r, c)?;
              }
              let gi = self.cl[c].g;
              self.do_commit(r, c, gi, false, false)?;
            }
          }
        }
        Ok(())
      },
      K::Burn => {
        if let (Some(s), true) = (&self.shared, r.chance(1, 4)) {
          // contexts that come into being while other threads make theirs
          for _ in 0..1 + r.below(3) {
            let def = r.chance(1, 4);
            let c = crate::seam::lib(|| if def { Context::default() } else { Context::new() });
            crate::seam::quiet(|| s.ctxs.lock().unwrap().push(SendCtx(c)));
          }
        }
        let ctx = self.live_ctx(r);
        let mut t: Txn<S> = Transaction::new(&self.ctxs[ctx].real.clone());
        // sometimes more than a batch of indices a thread may have reserved for itself
        let n = match r.below(256) {
          0 => r.range(1000, 2500),
          1..=4 => r.range(60, 400),
          _ => r.range(1, 12),
        };
        for _ in 0..n {
          let u = r.chance(1, 2);
          let i = match guard(|| if u { t.alloc_untyped().0 } else { t.alloc(S::disc(0)).0 }) {
            Ok(i) => i,
            Err(e) => viol!(self, ["C01"], "alloc panicked: {e}"),
          };
          self.issue(ctx, i, "alloc")?;
        }
        Ok(())
      },
      K::Save | K::SaveFault => match self.some_graph(r) {
        Some(gi) => self.op_save(r, gi, k == K::SaveFault),
        None => Ok(()),
      },
      K::Import => match self.some_graph(r) {
        Some(gi) => self.op_import(r, gi),
        None => Ok(()),
      },
      K::Fsync => {
        for f in &mut self.files {
          if f.pending.is_some() {
            f.durable = f.pending.clone();
          }
        }
        Ok(())
      },
      K::Verify => match self.some_graph(r) {
        Some(gi) => self.op_verify(r, gi),
        None => Ok(()),
      },
      K::Torn => match self.some_graph(r) {
        Some(gi) => self.op_torn(r, gi),
        None => Ok(()),
      },
      K::Dup => match self.some_graph(r) {
        Some(gi) => self.op_dup(r, gi),
        None => Ok(()),
      },
      K::ReadFault => match self.some_graph(r) {
        Some(gi) => self.op_read_fault(r, gi),
        None => Ok(()),
      },
      K::Crash => self.op_crash(r),
      K::Recover => self.op_recover(r),
      K::Views => match self.some_graph(r) {
        Some(gi) => {
          self.op_views(r, gi)?;
          self.costs(gi)
        },
        None => Ok(()),
      },
      K::Skew => match self.some_graph(r) {
        Some(gi) => self.op_skew(r, gi),
        None => Ok(()),
      },
      K::Misdirect => {
        if !self.open(c, r) {
          return Ok(());
        }
        if self.cl[c].t.as_ref().unwrap().1.is_empty() && r.chance(3, 4) {
          self.op_insert(r, c)?;
        }
        let id = self.cl[c].t.as_ref().unwrap().1.ctx;
        let cand: Vec<usize> =
          (0..self.gs.len()).filter(|g| self.gs[*g].as_ref().is_some_and(|x| x.m.ctx != id)).collect();
        if cand.is_empty() {
          return Ok(());
        }
        let g = *r.pick(&cand);
        self.st.fault("commit_to_a_graph_of_another_context");
        let chk = r.chance(1, 8);
        self.do_commit(r, c, g, chk, true)
      },
      K::Unfilled => {
        if !self.open(c, r) {
          return Ok(());
        }
        if self.cl[c].t.as_ref().unwrap().1.allocs.is_empty() {
          let typed = r.chance(1, 2);
          self.op_alloc(r, c, typed)?;
        }
        self.st.fault("commit_with_unfilled_index");
        let g = self.cl[c].g;
        self.do_commit(r, c, g, false, true)
      },
      K::LoopPre | K::LoopAll => {
        self.drop_txn(c, true);
        if !self.open(c, r) {
          return Ok(());
        }
        if r.chance(1, 2) {
          self.op_change(r, c, false, false)?;
        }
        if r.chance(1, 3) {
          self.op_insert(r, c)?;
        }
        let all = k == K::LoopAll;
        let Some(m) = self.home(c) else { return Ok(()) };
        let mut ids: Vec<Id> = m.nodes.keys().copied().collect();
        if r.chance(1, 4) {
          let mut away = self.absent(r, c);
          away.retain(|x| *x != 0 && !ids.contains(x));
          away.truncate(self.cfg.chain);
          ids.extend(away);
        }
        for i in (1..ids.len()).rev() {
          ids.swap(i, r.below(i + 1));
        }
        if ids.is_empty() {
          return Ok(());
        }
        let n = (1 + r.below(self.cfg.chain + 2)).min(ids.len());
        let mut es: Vec<(Id, Id)> = (0..n).map(|i| (ids[i], ids[(i + 1) % n])).collect();
        // a tail leading into the loop, and an innocent redirection
        if ids.len() > n && r.chance(1, 2) {
          es.push((ids[n], ids[r.below(n)]));
        }
        if ids.len() > n + 2 && r.chance(1, 2) {
          es.push((ids[n + 1], ids[n + 2]));
        }
        match r.below(4) {
          0 => es.reverse(),
          1 => {},
          _ => {
            for i in (1..es.len()).rev() {
              if r.chance(2, 3) {
                es.swap(i, r.below(i + 1));
              }
            }
          },
        }
        for (o, n) in es {
          self.do_redirect(c, all, o, n)?;
        }
        self.st.fault(if all { "redirection_loop_all" } else { "redirection_loop" });
        let g = self.cl[c].g;
        self.do_commit(r, c, g, false, true)
      },
      K::ForeignMerge => {
        if !self.open(c, r) {
          return Ok(());
        }
        let id = self.cl[c].t.as_ref().unwrap().1.ctx;
        if r.chance(1, 3) {
          return self.twin(r);
        }
        let cand: Vec<usize> =
          (0..self.gs.len()).filter(|g| self.gs[*g].as_ref().is_some_and(|x| x.m.ctx != id)).collect();
        if cand.is_empty() {
          return Ok(());
        }
        // a throw-away graph of another context (merge consumes its argument)
        let g = *r.pick(&cand);
        let slot = self.gs[g].take().unwrap();
        self.st.fault("merge_of_a_graph_of_another_context");
        self.st.eval("C04");
        self.st.eval("C10");
        self.say(|| format!("c{c} tries to merge foreign graph {g}"));
        let (t, _) = self.cl[c].t.as_mut().unwrap();
        if guard(|| t.merge(slot.real)).is_ok() {
          viol!(self, ["C04", "C10"], "merging a graph of another context was accepted");
        }
        // the transaction stays usable: committed and compared as usual
        self.check_others(None)?;
        if r.chance(1, 2) {
          let gi = self.cl[c].g;
          if self.cl[c].t.as_ref().unwrap().1.allocs.is_empty() {
            return self.do_commit(r, c, gi, false, false);
          }
        }
        Ok(())
      },
      K::BadFill => {
        if !self.open(c, r) {
          return Ok(());
        }
        if r.chance(1, 2) {
          return self.fill_alien(r, c);
        }
        let v = r.below(self.d.vars.len());
        let mode = r.below(5);
        self.st.eval("C04");
        let typed = mode < 3 || mode == 4;
        let i = {
          let t = self.cl[c].t.as_mut().unwrap();
          if typed { t.0.alloc(S::disc(v)).0 } else { t.0.alloc_untyped().0 }
        };
        let ctx = self.cl[c].ctx;
        self.issue(ctx, i, "alloc")?;
        let w = (v + 1 + r.below(self.d.vars.len().max(2) - 1)) % self.d.vars.len();
        let n1 = self.gen_node(r, c, v, i, 0);
        let other = mode == 0 || mode == 4 || mode == 3 && r.chance(1, 2);
        let n2 = self.gen_node(r, c, if other { w } else { v }, i, 0);
        let (a, b) = (S::to_real(&n1), S::to_real(&n2));
        let t = &mut self.cl[c].t.as_mut().unwrap().0;
        let res = match mode {
          0 | 4 => {
            if w == v {
              self.drop_txn(c, true);
              return Ok(());
            }
            self.st.fault("fill_with_wrong_type");
            guard(|| if mode == 0 { t.fill_back(ni(i), b) } else { t.fill_back_untyped(ni(i), b) })
          },
          1 | 2 => {
            t.fill_back(ni(i), a);
            self.st.fault("fill_twice");
            guard(|| t.fill_back(ni(i), b))
          },
          _ => {
            t.fill_back_untyped(ni(i), a);
            self.st.fault("fill_twice");
            guard(|| t.fill_back_untyped(ni(i), b))
          },
        };
        self.say(|| format!("c{c} bad fill mode {mode}: {res:?}"));
        if res.is_ok() {
          viol!(self, ["C04"], "{} was accepted", if mode == 0 || mode == 4 { "filling with the wrong type" } else { "filling an index twice" });
        }
        self.drop_txn(c, true);
        Ok(())
      },
      K::StaleOp => {
        self.drop_txn(c, true);
        if !self.open(c, r) {
          return Ok(());
        }
        let ctx = self.cl[c].ctx;
        let Some(m) = self.home(c) else { return Ok(()) };
        let gone: Vec<Id> = self.ctxs[ctx].issued.iter().copied().filter(|x| !m.nodes.contains_key(x)).collect();
        if gone.is_empty() {
          return Ok(());
        }
        let x = *r.pick(&gone);
        self.st.fault("operation_on_a_node_that_is_gone");
        match r.below(3) {
          0 => self.do_remove(c, x)?,
          o => {
            let p = self.gen_prog(r, c, x, false);
            self.do_change(r, c, x, p, o == 2)?;
          },
        }
        let g = self.cl[c].g;
        self.do_commit(r, c, g, false, true)
      },
      K::ClosurePanic => {
        if !self.open(c, r) {
          return Ok(());
        }
        let Some(m) = self.home(c) else { return Ok(()) };
        let ids: Vec<Id> = m.nodes.keys().copied().collect();
        let t = &self.cl[c].t.as_ref().unwrap().1;
        let ids: Vec<Id> = ids.into_iter().filter(|x| !t.news.contains_key(x)).collect();
        if ids.is_empty() || !t.allocs.is_empty() {
          return Ok(());
        }
        let x = *r.pick(&ids);
        let mut p = self.gen_prog(r, c, x, false);
        p.panics = true;
        let upd = r.chance(1, 2);
        self.do_change(r, c, x, p, upd)?;
        self.st.fault("client_closure_panics");
        let g = self.cl[c].g;
        self.do_commit(r, c, g, false, true)
      },
      K::LateTarget => {
        // client a hands an index that is not committed yet to client b, whose commit comes first
        if self.cl.len() < 2 || !self.open(c, r) {
          return Ok(());
        }
        let o = (c + 1 + r.below(self.cl.len() - 1)) % self.cl.len();
        self.drop_txn(o, true);
        self.cl[o].g = self.cl[c].g;
        if !self.open(o, r) || self.cl[o].ctx != self.cl[c].ctx || self.cl[o].g != self.cl[c].g {
          return Ok(());
        }
        let m = &self.cl[c].t.as_ref().unwrap().1;
        let ids: Vec<(Id, Option<usize>)> =
          m.news.iter().map(|(k, n)| (*k, Some(n.v))).chain(m.allocs.iter().map(|(k, v)| (*k, *v))).collect();
        if ids.is_empty() {
          return self.op_insert(r, c);
        }
        let (y, vy) = *r.pick(&ids);
        let d = self.d.clone();
        // a link of o that may point there
        for _ in 0..12 {
          let v = r.below(d.vars.len());
          if d.vars[v].links.is_empty() {
            continue;
          }
          let l = r.below(d.vars[v].links.len());
          if let Some(vy) = vy {
            if d.vars[v].links[l].allow >> vy & 1 == 0 && !r.chance(1, 12) {
              continue;
            }
            if d.bidi && d.partners(v, l, vy).is_empty() && r.chance(1, 2) {
              continue;
            }
          }
          let homes: Vec<Id> =
            self.home(o).map(|m| m.nodes.iter().filter(|n| n.1.v == v).map(|n| *n.0).collect()).unwrap_or_default();
          if !homes.is_empty() && r.chance(1, 2) {
            let x = *r.pick(&homes);
            self.next_pid += 1;
            let p = Prog { pid: self.next_pid, edits: vec![Edit::Link(l as u32, 0, y, 0)], panics: false, want: None };
            let upd = r.chance(1, 2);
            self.do_change(r, o, x, p, upd)?;
          } else {
            let uid = self.uid();
            let mut n = d.fresh(v, uid);
            match &mut n.links[l] {
              ALink::D(x) => *x = y,
              ALink::S(s) => {
                s.insert(y);
              },
              ALink::V(s) => s.push(y),
            }
            let real = S::to_real(&n);
            let t = &mut self.cl[o].t.as_mut().unwrap().0;
            let i = crate::seam::lib(|| t.insert(real).0);
            let ctx = self.cl[o].ctx;
            self.issue(ctx, i, "insert")?;
            self.cl[o].t.as_mut().unwrap().1.news.insert(i, n);
          }
          self.st.fault("link_to_an_index_committed_later");
          let g = self.cl[o].g;
          self.do_commit(r, o, g, false, false)?;
          break;
        }
        Ok(())
      },
    }
  }
  /// filling an index that this transaction has not allocated, or no longer holds
  fn fill_alien(&mut self, r: &mut Rng, c: usize) -> R<()> {
    let ctx = self.cl[c].ctx;
    let m = &self.cl[c].t.as_ref().unwrap().1;
    let mode = r.below(7);
    let i = match mode {
      0 => 0,
      // allocated by someone else and not filled yet
      1 => (0..self.cl.len())
        .filter(|o| *o != c)
        .filter_map(|o| self.cl[o].t.as_ref())
        .flat_map(|t| t.1.allocs.keys().copied())
        .find(|x| !m.allocs.contains_key(x))
        .unwrap_or(0),
      // never handed out
      2 => self.ctxs[ctx].issued.last().map_or(1, |x| x + 1 + r.below(1000)),
      // taken back in this transaction
      3 => match m.cancelled.iter().next() {
        Some(x) => *x,
        None => 0,
      },
      // present, gone, or a new node of this or another transaction
      _ => {
        let v: Vec<Id> = self.ctxs[ctx].issued.iter().copied().filter(|x| !m.allocs.contains_key(x)).collect();
        if v.is_empty() {
          0
        } else {
          *r.pick(&v)
        }
      },
    };
    let v = r.below(self.d.vars.len());
    let n = self.gen_node(r, c, v, i, 0);
    let real = S::to_real(&n);
    self.st.eval("C04");
    self.st.fault("fill_of_an_index_that_is_not_open");
    let typed = r.chance(1, 3);
    let t = &mut self.cl[c].t.as_mut().unwrap().0;
    let res = guard(|| if typed { t.fill_back(ni(i), real) } else { t.fill_back_untyped(ni(i), real) });
    self.say(|| format!("c{c} fills {i}, which it has not allocated: {res:?}"));
    if res.is_ok() {
      viol!(self, ["C04"], "filling an index that the transaction has not allocated was accepted");
    }
    self.drop_txn(c, true);
    self.check_others(None)
  }
  /// a second copy of a graph, with the same context identity and the same indices, is merged in
  fn twin(&mut self, r: &mut Rng) -> R<()> {
    let Some(gi) = self.some_graph(r) else { return Ok(()) };
    let n = self.gs[gi].as_ref().unwrap().m.nodes.len();
    if n == 0 || n > 2000 {
      return Ok(());
    }
    let json = r.chance(1, 2);
    let bytes = match guard(|| self.encode(gi, json)) {
      Ok(Ok(b)) => b,
      Ok(Err(e)) => viol!(self, ["C08", "C09", "C11"], "saving failed: {e}"),
      Err(e) => viol!(self, ["C08", "C09"], "saving panicked: {e}"),
    };
    let im = Image { bytes, json, m: self.gs[gi].as_ref().unwrap().m.clone(), seq: 0 };
    let (_c2, g2) = self.load(&im)?;
    let twice = if r.chance(1, 3) { Some(self.load(&im)?) } else { None };
    let ctx = self.gs[gi].as_ref().unwrap().ctx;
    let mut t: Txn<S> = Transaction::new(&self.ctxs[ctx].real);
    if r.chance(1, 2) {
      let v = r.below(self.d.vars.len());
      let uid = self.uid();
      let real = S::to_real(&self.d.fresh(v, uid));
      let i = t.insert(real).0;
      self.issue(ctx, i, "insert")?;
    }
    let ran = Rc::new(std::cell::Cell::new(0));
    if r.chance(1, 2) {
      let x = *self.gs[gi].as_ref().unwrap().m.nodes.keys().next().unwrap();
      let ran = ran.clone();
      t.mutate(ni(x), move |_| ran.set(ran.get() + 1));
    }
    self.st.eval("C04");
    self.st.eval("C10");
    let res = if let Some((_c3, g3)) = twice {
      // two copies in one transaction, for a graph that is empty
      self.st.fault("merge_of_two_copies_of_a_graph");
      let mut g: Graph<S::N> = Graph::new(&self.ctxs[ctx].real);
      guard(|| {
        t.merge(g2);
        t.merge(g3);
        g.commit(t);
      })
    } else {
      self.st.fault("merge_of_a_copy_of_the_graph_itself");
      let g = &mut self.gs[gi].as_mut().unwrap().real;
      guard(|| {
        t.merge(g2);
        g.commit(t);
      })
    };
    self.say(|| format!("merge of a copy of g{gi} into itself: {res:?}"));
    if res.is_ok() {
      viol!(self, ["C04", "C10"], "a graph took over a second node under an index in use");
    }
    if ran.get() != 0 {
      viol!(self, ["C04", "C03"], "changes of a refused transaction ran");
    }
    self.check_graph(gi, &["C04", "C10"], None)?;
    self.check_others(Some(gi))
  }
  fn tail(&mut self, seed: u64) -> R<()> {
    // faults stop: every client finishes, every graph must be fully usable
    let mut rr = Rng::new(mix2(seed, 0x7a11));
    let r = &mut rr;
    for c in 0..self.cl.len() {
      if self.cl[c].t.is_some() {
        let al: Vec<(Id, Option<usize>)> =
          self.cl[c].t.as_ref().unwrap().1.allocs.iter().map(|(a, b)| (*a, *b)).collect();
        for (i, v) in al {
          self.fill_one(r, c, i, v)?;
        }
        let g = self.cl[c].g;
        if self.gs.get(g).is_some_and(|x| x.as_ref().is_some_and(|x| x.ctx == self.cl[c].ctx)) {
          self.do_commit(r, c, g, false, false)?;
        }
        self.drop_txn(c, true);
      }
    }
    for gi in 0..self.gs.len() {
      if self.gs[gi].is_none() {
        continue;
      }
      self.op_views(r, gi)?;
      self.probe(r, gi, 3)?;
      if self.gs[gi].is_none() {
        continue;
      }
      if r.chance(1, 3) {
        self.op_verify(r, gi)?;
      }
      if self.gs[gi].is_none() {
        continue;
      }
      if r.chance(1, 6) {
        let to = self.new_ctx(r)?;
        self.do_switch(gi, to)?;
        self.probe(r, gi, 1)?;
      }
      if self.gs[gi].is_none() {
        continue;
      }
      // take it apart
      let n = self.gs[gi].as_ref().unwrap().m.nodes.len();
      let k = if r.chance(1, 2) { n } else { n / 2 };
      let ctx = self.gs[gi].as_ref().unwrap().ctx;
      self.cl.push(Client { t: None, ctx, g: gi, merged: false, filled: BTreeSet::new() });
      let c = self.cl.len() - 1;
      let t = Transaction::new(&self.ctxs[ctx].real);
      let m = MTxn { ctx: self.ctxs[ctx].ident, ..Default::default() };
      self.cl[c].t = Some((t, m));
      let mut ids: Vec<Id> = self.gs[gi].as_ref().unwrap().m.nodes.keys().copied().collect();
      for i in (1..ids.len()).rev() {
        ids.swap(i, r.below(i + 1));
      }
      for x in ids.into_iter().take(k) {
        self.do_remove(c, x)?;
      }
      self.do_commit(r, c, gi, false, false)?;
      self.cl.pop();
      if self.gs[gi].is_some() {
        self.op_views(r, gi)?;
        self.final_views(gi)?;
      }
    }
    Ok(())
  }
  pub fn run(&mut self, seed: u64, steps: &[Step], progress: &dyn Fn(usize)) -> R<()> {
    let mut r = Rng::new(mix2(seed, 0x1417));
    self.init(&mut r)?;
    for (i, s) in steps.iter().enumerate() {
      self.step = i;
      progress(i);
      self.slog = mix2(s.0 as u64, 77);
      crate::seam::op_point();
      if s.1 % 5 == 0 {
        // every library call of this step, reads included, can be interrupted
        crate::seam::lib(|| self.exec(*s))?;
      } else {
        self.exec(*s)?;
      }
      if i % 16 == 15 {
        self.check_others(None)?;
      }
      self.log.push(self.slog);
      self.st.steps += 1;
    }
    self.step = steps.len();
    self.slog = 99;
    if self.with_tail {
      self.tail(seed)?;
    }
    self.log.push(self.slog);
    Ok(())
  }
}

type SeenLog = Rc<RefCell<Vec<(usize, String, Id, Id, ANode, Option<ANode>)>>>;
pub struct Watch<S: Schema> {
  checks: GraphCheck<S::N>,
  seen: SeenLog,
  rejects: BTreeSet<String>,
  n: usize,
}
impl<S: Schema> Watch<S> {
  /// the failure must name exactly the rejecting checks
  fn failed(&self, res: &Result<(), String>) -> bool {
    match res {
      Ok(()) => false,
      Err(e) => {
        self.rejects.iter().any(|n| !e.contains(n.as_str()))
          || self.seen.borrow().iter().any(|s| !self.rejects.contains(&s.1) && e.contains(s.1.as_str()))
      },
    }
  }
}
