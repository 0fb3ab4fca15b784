//! Executable reference model of a typed graph and of a transaction, written from the
//! documentation (README / rustdoc), independent of the library's code and reflection.
use std::collections::{BTreeMap, BTreeSet};

pub type Id = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  D,
  S,
  V,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum ALink {
  D(Id),
  S(BTreeSet<Id>),
  V(Vec<Id>),
}
impl ALink {
  pub fn empty(k: Kind) -> ALink {
    match k {
      Kind::D => ALink::D(0),
      Kind::S => ALink::S(BTreeSet::new()),
      Kind::V => ALink::V(Vec::new()),
    }
  }
  pub fn kind(&self) -> Kind {
    match self {
      ALink::D(_) => Kind::D,
      ALink::S(_) => Kind::S,
      ALink::V(_) => Kind::V,
    }
  }
  /// the distinct non-empty targets
  pub fn targets(&self) -> Vec<Id> {
    match self {
      ALink::D(x) => if *x == 0 { vec![] } else { vec![*x] },
      ALink::S(s) => s.iter().copied().filter(|x| *x != 0).collect(),
      ALink::V(v) => {
        let mut t: Vec<Id> = v.iter().copied().filter(|x| *x != 0).collect();
        t.sort();
        t.dedup();
        t
      },
    }
  }
  pub fn contains(&self, y: Id) -> bool {
    match self {
      ALink::D(x) => *x == y,
      ALink::S(s) => s.contains(&y),
      ALink::V(v) => v.contains(&y),
    }
  }
  /// replace every occurrence of `old` by `new` (0 = clear)
  pub fn replace(&mut self, old: Id, new: Id) -> bool {
    match self {
      ALink::D(x) => {
        if *x == old {
          *x = new;
          return true;
        }
        false
      },
      ALink::S(s) => {
        if s.remove(&old) {
          if new != 0 {
            s.insert(new);
          }
          return true;
        }
        false
      },
      ALink::V(v) => {
        let mut hit = false;
        for x in v.iter_mut() {
          if *x == old {
            *x = new;
            hit = true;
          }
        }
        hit
      },
    }
  }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct ANode {
  pub v: usize,
  pub uid: u64,
  pub val: i64,
  pub text: String,
  pub links: Vec<ALink>,
}
impl ANode {
  pub fn show(&self, d: &Desc) -> String {
    let mut s = format!("{}#{}({},{:?}", d.vars[self.v].name, self.uid, self.val, self.text);
    for (l, f) in self.links.iter().zip(&d.vars[self.v].links) {
      match l {
        ALink::D(x) => s += &format!(" {}={}", f.name, x),
        ALink::S(x) => s += &format!(" {}={:?}", f.name, x),
        ALink::V(x) => s += &format!(" {}={:?}", f.name, x),
      }
    }
    s + ")"
  }
  pub fn link_keys(&self) -> BTreeSet<(usize, usize, Id)> {
    let mut r = BTreeSet::new();
    for (i, l) in self.links.iter().enumerate() {
      for t in l.targets() {
        r.insert((self.v, i, t));
      }
    }
    r
  }
}

pub struct LinkDesc {
  pub name: &'static str,
  pub kind: Kind,
  /// allowed target variants
  pub allow: u32,
  /// opposite links: (variant, link)
  pub partners: Vec<(usize, usize)>,
}
pub struct VarDesc {
  pub name: &'static str,
  pub links: Vec<LinkDesc>,
  pub link_groups: Vec<(&'static str, Vec<usize>)>,
}
pub struct Desc {
  pub name: &'static str,
  pub vars: Vec<VarDesc>,
  pub node_groups: Vec<(&'static str, Vec<usize>)>,
  /// every link has at most one possible opposite per target variant
  pub simple_bidi: bool,
  pub bidi: bool,
  pub typed: bool,
}
impl Desc {
  pub fn fresh(&self, v: usize, uid: u64) -> ANode {
    ANode {
      v,
      uid,
      val: 0,
      text: String::new(),
      links: self.vars[v].links.iter().map(|l| ALink::empty(l.kind)).collect(),
    }
  }
  pub fn partners(&self, v: usize, l: usize, vy: usize) -> Vec<usize> {
    self.vars[v].links[l].partners.iter().filter(|p| p.0 == vy).map(|p| p.1).collect()
  }
  pub fn has_partner(&self, v: usize, l: usize) -> bool {
    !self.vars[v].links[l].partners.is_empty()
  }
}

/// One edit made by a mutate/update closure; pure function of the node.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Edit {
  Val(i64),
  Text(u32),
  /// slot, operation selector, target, position
  Link(u32, u32, Id, u32),
  Variant(usize),
}
pub fn text_of(r: u32) -> String {
  match r % 9 {
    0 => String::new(),
    1 => "plain".into(),
    2 => "quote\"back\\slash".into(),
    3 => "nl\n\t\u{0}\u{7f}".into(),
    4 => "ünï→😀".into(),
    5 => "{\"ctx_id\":1,\"nodes\":[]}".into(),
    6 => "x".repeat((r / 9 % 60) as usize),
    _ => format!("t{}", r),
  }
}
pub fn apply_edits(d: &Desc, n: &mut ANode, edits: &[Edit]) {
  for e in edits {
    match e {
      Edit::Val(x) => n.val = n.val.wrapping_mul(3).wrapping_add(*x),
      Edit::Text(r) => n.text = text_of(*r),
      Edit::Variant(nv) => {
        let nv = nv % d.vars.len();
        if nv != n.v {
          let mut old = std::mem::take(&mut n.links);
          let mut links = Vec::new();
          for l in &d.vars[nv].links {
            if let Some(p) = old.iter().position(|o| o.kind() == l.kind) {
              links.push(old.remove(p));
            } else {
              links.push(ALink::empty(l.kind));
            }
          }
          n.v = nv;
          n.links = links;
        }
      },
      Edit::Link(slot, op, t, pos) => {
        if n.links.is_empty() {
          continue;
        }
        let k = *slot as usize % n.links.len();
        match &mut n.links[k] {
          ALink::D(x) => {
            if op % 8 == 7 { *x = 0 } else { *x = *t }
          },
          ALink::S(s) => match op % 8 {
            0..=4 => {
              if *t != 0 {
                s.insert(*t);
              }
            },
            5 => {
              s.remove(t);
            },
            6 => {
              if let Some(y) = s.iter().nth(*pos as usize % s.len().max(1)).copied() {
                s.remove(&y);
              }
            },
            _ => {
              if pos % 4 == 0 {
                s.clear()
              } else if let Some(y) = s.iter().next_back().copied() {
                s.remove(&y);
              }
            },
          },
          ALink::V(v) => match op % 8 {
            0..=2 => v.push(*t),
            3 => {
              let p = *pos as usize % (v.len() + 1);
              v.insert(p, *t)
            },
            4 => {
              if v.is_empty() {
                v.push(*t)
              } else {
                let p = *pos as usize % v.len();
                v[p] = *t
              }
            },
            5 => {
              if !v.is_empty() {
                let p = *pos as usize % v.len();
                v.remove(p);
              }
            },
            6 => {
              if !v.is_empty() {
                let p = *pos as usize % v.len();
                let x = v[p];
                v.push(x);
              }
            },
            _ => {
              if pos % 4 == 0 { v.clear() } else { v.reverse() }
            },
          },
        }
      },
    }
  }
}

#[derive(Clone, Debug)]
pub struct Prog {
  /// identity of the recorded change, to count executions
  pub pid: usize,
  pub edits: Vec<Edit>,
  /// injected fault: the closure panics
  pub panics: bool,
  /// recorded through mut_node!/update_node!: the node must be of this type when it runs
  pub want: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct MTxn {
  pub ctx: usize,
  /// allocated, not yet filled; typed with a variant or untyped
  pub allocs: BTreeMap<Id, Option<usize>>,
  pub news: BTreeMap<Id, ANode>,
  /// new in this transaction, then removed in it
  pub cancelled: BTreeSet<Id>,
  pub decs: Vec<Id>,
  pub muts: Vec<(Id, Prog)>,
  pub upds: Vec<(Id, Prog)>,
  pub redir: Vec<(Id, Id)>,
  pub redir_all: Vec<(Id, Id)>,
}
impl MTxn {
  pub fn is_empty(&self) -> bool {
    self.allocs.is_empty()
      && self.news.is_empty()
      && self.decs.is_empty()
      && self.muts.is_empty()
      && self.upds.is_empty()
      && self.redir.is_empty()
      && self.redir_all.is_empty()
  }
  /// nodes named by the transaction's operations
  pub fn size(&self) -> usize {
    self.allocs.len()
      + self.news.len()
      + self.decs.len()
      + self.muts.len()
      + self.upds.len()
      + self.redir.len()
      + self.redir_all.len()
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Refuse {
  Context,
  Unfilled,
  LoopPre,
  LoopAll,
  Stale,
  ClosurePanic,
  Conflict,
  MultiChoice,
  LinkType,
}
impl Refuse {
  /// refused before anything is changed
  pub fn upfront(self) -> bool {
    matches!(self, Refuse::Context | Refuse::Unfilled | Refuse::LoopPre)
  }
}

/// Net effect of a commit.
#[derive(Clone, Debug, Default)]
pub struct Effects {
  /// present after, and new or different from before
  pub changed: BTreeSet<Id>,
  /// present after and named by some operation (superset of changed)
  pub touched: BTreeSet<Id>,
  /// (x, variant, link, y)
  pub adds: BTreeSet<(Id, usize, usize, Id)>,
  /// links that already existed whose target arrived or changed type
  pub completed: BTreeSet<(Id, usize, usize, Id)>,
  pub removes: BTreeSet<(Id, usize, usize, Id)>,
  /// observed pre-images of every deferred closure, in execution order
  pub runs: Vec<(usize, ANode)>,
}

#[derive(Clone, Default)]
pub struct MGraph {
  pub ctx: usize,
  pub nodes: BTreeMap<Id, ANode>,
}

type Journal = BTreeMap<Id, Option<ANode>>;

fn has_loop(v: &[(Id, Id)]) -> bool {
  let m: BTreeMap<Id, Id> = v.iter().copied().collect();
  for (o, _) in v {
    let mut x = *o;
    let mut n = 0;
    while let Some(y) = m.get(&x) {
      x = *y;
      n += 1;
      if n > m.len() {
        return true;
      }
    }
  }
  false
}

impl MGraph {
  fn note(&self, j: &mut Journal, x: Id) {
    j.entry(x).or_insert_with(|| self.nodes.get(&x).cloned());
  }
  fn redirect(&mut self, v: &[(Id, Id)], j: &mut Journal, touched: &mut BTreeSet<Id>) {
    if v.is_empty() {
      return;
    }
    let m: BTreeMap<Id, Id> = v.iter().copied().collect();
    let mut root: BTreeMap<Id, Id> = BTreeMap::new();
    for (o, _) in v {
      let mut x = *o;
      while let Some(y) = m.get(&x) {
        x = *y;
      }
      root.insert(*o, x);
    }
    let hit: Vec<Id> = self
      .nodes
      .iter()
      .filter(|(_, n)| n.links.iter().any(|l| l.targets().iter().any(|t| root.contains_key(t))))
      .map(|(k, _)| *k)
      .collect();
    for x in hit {
      self.note(j, x);
      touched.insert(x);
      let n = self.nodes.get_mut(&x).unwrap();
      for l in n.links.iter_mut() {
        for t in l.targets() {
          if let Some(r) = root.get(&t) {
            l.replace(t, *r);
          }
        }
      }
    }
  }
  /// clear every link to y
  fn clear_links(&mut self, y: Id, j: &mut Journal, touched: &mut BTreeSet<Id>) {
    let hit: Vec<Id> =
      self.nodes.iter().filter(|(_, n)| n.links.iter().any(|l| l.contains(y))).map(|(k, _)| *k).collect();
    for x in hit {
      self.note(j, x);
      touched.insert(x);
      for l in self.nodes.get_mut(&x).unwrap().links.iter_mut() {
        l.replace(y, 0);
      }
    }
  }
  /// Apply a transaction. On refusal the model is rolled back (whether the real graph has to be
  /// untouched is decided by `Refuse::upfront`).
  pub fn commit(&mut self, d: &Desc, t: &MTxn) -> Result<Effects, Refuse> {
    let mut j = Journal::new();
    let r = self.commit_inner(d, t, &mut j);
    if r.is_err() {
      for (x, n) in j {
        match n {
          Some(n) => self.nodes.insert(x, n),
          None => self.nodes.remove(&x),
        };
      }
    }
    r
  }
  fn commit_inner(&mut self, d: &Desc, t: &MTxn, j: &mut Journal) -> Result<Effects, Refuse> {
    let mut eff = Effects::default();
    if t.ctx != self.ctx {
      return Err(Refuse::Context);
    }
    if !t.allocs.is_empty() {
      return Err(Refuse::Unfilled);
    }
    if has_loop(&t.redir) {
      return Err(Refuse::LoopPre);
    }
    self.redirect(&t.redir, j, &mut eff.touched);
    for (x, n) in &t.news {
      self.note(j, *x);
      eff.touched.insert(*x);
      self.nodes.insert(*x, n.clone());
    }
    for (x, p) in t.muts.iter().chain(t.upds.iter()) {
      if !self.nodes.contains_key(x) {
        return Err(Refuse::Stale);
      }
      self.note(j, *x);
      eff.touched.insert(*x);
      let n = self.nodes.get_mut(x).unwrap();
      eff.runs.push((p.pid, n.clone()));
      if p.want.is_some_and(|w| w != n.v) {
        eff.runs.pop();
        return Err(Refuse::ClosurePanic);
      }
      if p.panics {
        return Err(Refuse::ClosurePanic);
      }
      apply_edits(d, n, &p.edits);
    }
    if has_loop(&t.redir_all) {
      return Err(Refuse::LoopAll);
    }
    self.redirect(&t.redir_all, j, &mut eff.touched);
    for x in &t.decs {
      if !self.nodes.contains_key(x) {
        return Err(Refuse::Stale);
      }
      self.note(j, *x);
      self.nodes.remove(x);
      self.clear_links(*x, j, &mut eff.touched);
    }
    for x in &t.cancelled {
      self.clear_links(*x, j, &mut eff.touched);
    }
    self.complete(d, j, &mut eff)?;
    Ok(eff)
  }
  /// bidirectional completion and link type check over the net change of this commit
  pub fn complete(&mut self, d: &Desc, j: &mut Journal, eff: &mut Effects) -> Result<(), Refuse> {
    let mut adds = BTreeSet::new();
    let mut removes = BTreeSet::new();
    let mut arrived = BTreeSet::new();
    for (x, pre) in j.iter() {
      let p = pre.as_ref().map(|n| n.link_keys()).unwrap_or_default();
      let q = self.nodes.get(x).map(|n| n.link_keys()).unwrap_or_default();
      for k in q.difference(&p) {
        adds.insert((*x, k.0, k.1, k.2));
      }
      for k in p.difference(&q) {
        removes.insert((*x, k.0, k.1, k.2));
      }
      if let Some(n) = self.nodes.get(x) {
        if pre.as_ref().map(|p| p.v) != Some(n.v) {
          arrived.insert(*x);
        }
      }
    }
    if !arrived.is_empty() {
      for (x, n) in &self.nodes {
        for (v, l, y) in n.link_keys() {
          if arrived.contains(&y) && !adds.contains(&(*x, v, l, y)) {
            eff.completed.insert((*x, v, l, y));
          }
        }
      }
    }
    if d.bidi {
      for (x, v, l, y) in &removes {
        let Some(ny) = self.nodes.get(y) else { continue };
        let Some(nx) = self.nodes.get(x) else { continue };
        let (vx, vy) = (nx.v, ny.v);
        for p in d.partners(*v, *l, vy) {
          // still justified by another link of x
          let nx = &self.nodes[x];
          let kept = (0..nx.links.len()).any(|l2| nx.links[l2].contains(*y) && d.partners(vx, l2, vy).contains(&p));
          if kept {
            continue;
          }
          self.note(j, *y);
          let n = self.nodes.get_mut(y).unwrap();
          if n.links[p].contains(*x) {
            n.links[p].replace(*x, 0);
            eff.touched.insert(*y);
          }
        }
      }
      // links with one possible opposite first: they may settle those with several
      for forced in [true, false] {
        for (x, v, l, y) in adds.iter().chain(eff.completed.clone().iter()) {
          let (Some(nx), Some(ny)) = (self.nodes.get(x), self.nodes.get(y)) else { continue };
          if !nx.links[*l].contains(*y) {
            continue;
          }
          let ps = d.partners(*v, *l, ny.v);
          if ps.is_empty() || forced != (ps.len() == 1) || ps.iter().any(|p| ny.links[*p].contains(*x)) {
            continue;
          }
          if ps.len() > 1 {
            return Err(Refuse::MultiChoice);
          }
          self.note(j, *y);
          let n = self.nodes.get_mut(y).unwrap();
          match &mut n.links[ps[0]] {
            ALink::D(z) => {
              if *z != 0 {
                return Err(Refuse::Conflict);
              }
              *z = *x;
            },
            ALink::S(s) => {
              s.insert(*x);
            },
            ALink::V(_) => unreachable!("schemas do not pair lists"),
          }
          eff.touched.insert(*y);
        }
      }
    }
    // final net change
    for (x, pre) in j.iter() {
      let Some(n) = self.nodes.get(x) else { continue };
      eff.touched.insert(*x);
      if pre.as_ref() != Some(n) {
        eff.changed.insert(*x);
      }
      let p = pre.as_ref().map(|n| n.link_keys()).unwrap_or_default();
      let q = n.link_keys();
      for k in q.difference(&p) {
        eff.adds.insert((*x, k.0, k.1, k.2));
      }
      for k in p.difference(&q) {
        eff.removes.insert((*x, k.0, k.1, k.2));
      }
    }
    if d.typed {
      for (x, v, l, y) in eff.adds.iter().chain(eff.completed.iter()) {
        if let (Some(nx), Some(ny)) = (self.nodes.get(x), self.nodes.get(y)) {
          if nx.links[*l].contains(*y) && d.vars[*v].links[*l].allow >> ny.v & 1 == 0 {
            return Err(Refuse::LinkType);
          }
        }
      }
    }
    Ok(())
  }
}
