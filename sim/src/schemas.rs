//! The node declarations the simulated applications use, each with an independent hand-written
//! description (`Desc`) for the reference model, and conversions to and from abstract nodes.
use crate::model::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use ttgraph::*;

pub trait LinkField {
  const KIND: Kind;
  fn from_a(a: &ALink) -> Self;
  fn to_a(&self) -> ALink;
  /// the order a container with an order of its own keeps its members in
  fn order(&self) -> Vec<Id> {
    vec![]
  }
}
fn ni(x: Id) -> NodeIndex {
  NodeIndex(x)
}
impl LinkField for NodeIndex {
  const KIND: Kind = Kind::D;
  fn from_a(a: &ALink) -> Self {
    let ALink::D(x) = a else { unreachable!() };
    ni(*x)
  }
  fn to_a(&self) -> ALink {
    ALink::D(self.0)
  }
}
impl LinkField for Vec<NodeIndex> {
  const KIND: Kind = Kind::V;
  fn from_a(a: &ALink) -> Self {
    let ALink::V(x) = a else { unreachable!() };
    x.iter().map(|x| ni(*x)).collect()
  }
  fn to_a(&self) -> ALink {
    ALink::V(self.iter().map(|x| x.0).collect())
  }
}
macro_rules! setfield {
  ($t:ty, $ordered:expr) => {
    impl LinkField for $t {
      const KIND: Kind = Kind::S;
      fn from_a(a: &ALink) -> Self {
        let ALink::S(x) = a else { unreachable!() };
        x.iter().map(|x| ni(*x)).collect()
      }
      fn to_a(&self) -> ALink {
        let s: BTreeSet<Id> = self.iter().map(|x| x.0).collect();
        ALink::S(s)
      }
      fn order(&self) -> Vec<Id> {
        if $ordered { self.iter().map(|x| x.0).collect() } else { vec![] }
      }
    }
  };
}
setfield!(HashSet<NodeIndex>, false);
setfield!(BTreeSet<NodeIndex>, false);
setfield!(::ordermap::OrderSet<NodeIndex>, true);
setfield!(::indexmap::IndexSet<NodeIndex>, true);

/// A data field: any type can be one.
pub trait DataField: PartialEq + 'static {
  fn of(x: i64) -> Self;
  fn v(&self) -> i64;
}
impl DataField for i64 {
  fn of(x: i64) -> Self {
    x
  }
  fn v(&self) -> i64 {
    *self
  }
}
impl DataField for (i64, u8) {
  fn of(x: i64) -> Self {
    (x, 7)
  }
  fn v(&self) -> i64 {
    self.0
  }
}
impl DataField for [i64; 2] {
  fn of(x: i64) -> Self {
    [3, x]
  }
  fn v(&self) -> i64 {
    self[1]
  }
}
fn same<T: DataField>(f: &T, got: Option<&T>) -> bool {
  got == Some(f)
}

pub type EditFn = Box<dyn FnOnce(&mut ANode)>;

pub type Mirror<S> = <<S as Schema>::N as NodeEnum>::LinkMirrorEnum;
/// What the simulator needs from a declaration.
pub trait Schema: 'static {
  type N: NodeEnum<GenArena = Self::Arena, Discriminant = Self::D> + Serialize + DeserializeOwned + Debug + std::fmt::Display + 'static;
  type D: NodeDiscriminant;
  type Arena: CateArena<V = Self::N, D = Self::D>;
  fn desc() -> Desc;
  fn to_real(a: &ANode) -> Self::N;
  fn from_real(n: &Self::N) -> ANode;
  fn orders(n: &Self::N) -> Vec<Vec<Id>>;
  /// the data field `val` is found under its name and type
  fn val_found(n: &Self::N) -> bool;
  /// the link `l` of the variant `v` as the library names it, found by its name
  fn mirror(v: usize, name: &str) -> Option<(Mirror<Self>, Kind)>;
  /// the links a name of the variant `v` stands for, which is a link or a group of links
  fn log_links(v: usize, name: &'static str) -> Option<Vec<Mirror<Self>>>;
  fn names(v: usize) -> (Vec<&'static str>, Vec<&'static str>);
  fn disc(v: usize) -> Self::D;
  fn alloc_macro(t: &mut Transaction<'static, Self::N>, v: usize) -> NodeIndex;
  fn mut_macro(t: &mut Transaction<'static, Self::N>, v: usize, i: NodeIndex, f: EditFn);
  fn upd_macro(t: &mut Transaction<'static, Self::N>, v: usize, i: NodeIndex, f: EditFn);
  fn get_macro(g: &Graph<Self::N>, v: usize, i: NodeIndex) -> Option<ANode>;
  fn iter_macro(g: &Graph<Self::N>, v: usize) -> Vec<(NodeIndex, ANode)>;
}

macro_rules! schema {
  ($S:ident, $E:ident, $A:ident, $DI:ident, { $($idx:literal => $V:ident($T:ident){$($f:ident),*}),* $(,)? }, $desc:expr) => {
    pub struct $S;
    $(impl $T {
      fn o(&self) -> Vec<Vec<Id>> {
        vec![$(self.$f.order()),*]
      }
      fn a(&self) -> ANode {
        ANode{ v: $idx, uid: self.uid, val: self.val.v(), text: self.text.clone(), links: vec![$(self.$f.to_a()),*] }
      }
      #[allow(unused_mut, unused_variables)]
      fn r(a: &ANode) -> $T {
        let mut it = a.links.iter();
        $T{ uid: a.uid, val: DataField::of(a.val), text: a.text.clone(), $($f: LinkField::from_a(it.next().unwrap())),* }
      }
    })*
    impl std::fmt::Display for $E {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self { $($E::$V(x) => write!(f, "<{} {}>", stringify!($V), x.uid)),* }
      }
    }
    impl Schema for $S {
      type N = $E;
      type D = $DI;
      type Arena = $A;
      fn desc() -> Desc { $desc }
      fn to_real(a: &ANode) -> $E { match a.v { $($idx => $E::$V($T::r(a)),)* _ => unreachable!() } }
      fn from_real(n: &$E) -> ANode { match n { $($E::$V(x) => x.a()),* } }
      fn orders(n: &$E) -> Vec<Vec<Id>> { match n { $($E::$V(x) => x.o()),* } }
      fn val_found(n: &$E) -> bool { match n { $($E::$V(x) => same(&x.val, n.data_ref_by_name("val"))),* } }
      fn mirror(v: usize, name: &str) -> Option<(Mirror<Self>, Kind)> {
        match v {
          $($idx => <$T as TypedNode>::link_names().iter().position(|x| *x == name).map(|k| {
            let kind = match <$T as TypedNode>::link_types()[k] { LinkType::Point => Kind::D, LinkType::Set => Kind::S, LinkType::Vec => Kind::V };
            (<<$E as NodeEnum>::LinkMirrorEnum>::$V(<$T as TypedNode>::link_mirrors()[k]), kind)
          }),)*
          _ => unreachable!()
        }
      }
      fn log_links(v: usize, name: &'static str) -> Option<Vec<Mirror<Self>>> {
        match v {
          $($idx => <$T as TypedNode>::get_link_or_group_by_name(name).map(|g| <$E as NodeEnum>::expand_link_groups(<<$E as NodeEnum>::LoGMirrorEnum>::$V(g))),)*
          _ => unreachable!()
        }
      }
      fn names(v: usize) -> (Vec<&'static str>, Vec<&'static str>) {
        match v { $($idx => (<$T as TypedNode>::link_names().to_vec(), <$T as TypedNode>::data_names().to_vec()),)* _ => unreachable!() }
      }
      fn disc(v: usize) -> $DI { match v { $($idx => discriminant!($E::$V),)* _ => unreachable!() } }
      fn alloc_macro(t: &mut Transaction<'static, $E>, v: usize) -> NodeIndex {
        match v { $($idx => alloc_node!(t, $E::$V),)* _ => unreachable!() }
      }
      fn mut_macro(t: &mut Transaction<'static, $E>, v: usize, i: NodeIndex, f: EditFn) {
        match v { $($idx => mut_node!(t, $E::$V, i, move |x| { let mut a = x.a(); f(&mut a); *x = $T::r(&a); }),)* _ => unreachable!() }
      }
      fn upd_macro(t: &mut Transaction<'static, $E>, v: usize, i: NodeIndex, f: EditFn) {
        match v { $($idx => update_node!(t, $E::$V, i, move |x| { let mut a = x.a(); f(&mut a); $T::r(&a) }),)* _ => unreachable!() }
      }
      fn get_macro(g: &Graph<$E>, v: usize, i: NodeIndex) -> Option<ANode> {
        match v { $($idx => get_node!(g, $E::$V, i).map(|x| x.a()),)* _ => unreachable!() }
      }
      fn iter_macro(g: &Graph<$E>, v: usize) -> Vec<(NodeIndex, ANode)> {
        match v { $($idx => iter_nodes!(g, $E::$V).map(|(i, x)| (i, x.a())).collect(),)* _ => unreachable!() }
      }
    }
  };
}

/// Build a Desc from declarations written a second time, as strings, by hand.
/// vars: "Name: link/K(groups) ..."; types: "Var.link : Var Var"; bidi: "Var.link Var.link".
/// Names in types/bidi are concrete variants and links: the group expansion is done by hand here.
fn desc(name: &'static str, vars: &[(&'static str, &[(&'static str, char, &[&'static str])])],
  node_groups: &[(&'static str, &[&'static str])], types: &[(&str, &str)], bidi: &[(&str, &str)]) -> Desc {
  let vi: BTreeMap<&str, usize> = vars.iter().enumerate().map(|(i, v)| (v.0, i)).collect();
  let all = (1u32 << vars.len()) - 1;
  let mut ds: Vec<VarDesc> = vars
    .iter()
    .map(|(n, ls)| {
      let mut lg: Vec<(&'static str, Vec<usize>)> = Vec::new();
      for (i, l) in ls.iter().enumerate() {
        for g in l.2 {
          match lg.iter_mut().find(|x| x.0 == *g) {
            Some(x) => x.1.push(i),
            None => lg.push((g, vec![i])),
          }
        }
      }
      VarDesc {
        name: n,
        links: ls
          .iter()
          .map(|l| LinkDesc {
            name: l.0,
            kind: match l.1 {
              'D' => Kind::D,
              'S' => Kind::S,
              _ => Kind::V,
            },
            allow: all,
            partners: vec![],
          })
          .collect(),
        link_groups: lg,
      }
    })
    .collect();
  let find = |s: &str| {
    let (v, l) = s.split_once('.').unwrap();
    let v = vi[v];
    (v, vars[v].1.iter().position(|x| x.0 == l).unwrap_or_else(|| panic!("{s}")))
  };
  for (l, to) in types {
    let (v, l) = find(l);
    let mut m = 0;
    for t in to.split(' ') {
      m |= 1u32 << vi[t];
    }
    ds[v].links[l].allow &= m;
  }
  let mut simple = true;
  for (a, b) in bidi {
    let (va, la) = find(a);
    let (vb, lb) = find(b);
    for (x, y) in [((va, la), (vb, lb)), ((vb, lb), (va, la))] {
      let ps = &mut ds[x.0].links[x.1].partners;
      if !ps.contains(&y) {
        ps.push(y);
      }
      if ps.iter().filter(|p| p.0 == y.0).count() > 1 {
        simple = false;
      }
    }
  }
  Desc {
    name,
    vars: ds,
    node_groups: node_groups.iter().map(|(n, m)| (*n, m.iter().map(|x| vi[x]).collect())).collect(),
    simple_bidi: simple,
    bidi: !bidi.is_empty(),
    typed: !types.is_empty(),
  }
}

// ------------------------------------------------------------------ 0: plain, every link spelling
mod plain {
  use super::*;
  use std::{collections, vec};
  use ::{indexmap, ordermap};
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Leaf {
    pub uid: u64,
    pub val: i64,
    pub text: String,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Pair {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    #[group(ends, all)]
    pub a: NodeIndex,
    #[group(ends)]
    pub b: ttgraph::NodeIndex,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Sets {
    pub hs: HashSet<NodeIndex>,
    pub uid: u64,
    #[group(all)]
    pub bs: BTreeSet<ttgraph::NodeIndex>,
    pub val: i64,
    pub os: ordermap::OrderSet<NodeIndex>,
    pub text: String,
    #[group(all)]
    pub is_: indexmap::IndexSet<NodeIndex>,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Lists {
    pub uid: u64,
    pub val: (i64, u8),
    pub text: String,
    #[group(all)]
    #[group(lists, firsts)]
    pub v: Vec<NodeIndex>,
    pub d: NodeIndex,
    #[group(all)]
    #[group(lists)]
    pub w: std::vec::Vec<ttgraph::NodeIndex>,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Mix {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    pub d1: ttgraph::NodeIndex,
    pub s1: std::collections::HashSet<NodeIndex>,
    pub s2: collections::HashSet<ttgraph::NodeIndex>,
    pub s3: ::std::collections::HashSet<NodeIndex>,
    pub s4: std::collections::BTreeSet<NodeIndex>,
    pub s5: collections::BTreeSet<NodeIndex>,
    pub s6: ::std::collections::BTreeSet<NodeIndex>,
    pub v1: vec::Vec<NodeIndex>,
    pub o1: ordermap::set::OrderSet<NodeIndex>,
    pub o2: ::ordermap::OrderSet<ttgraph::NodeIndex>,
    pub o3: ::ordermap::set::OrderSet<NodeIndex>,
    pub i1: indexmap::set::IndexSet<NodeIndex>,
    pub i2: ::indexmap::IndexSet<ttgraph::NodeIndex>,
    pub i3: ::indexmap::set::IndexSet<NodeIndex>,
    pub d2: NodeIndex,
  }
  node_enum! {
    #[derive(Serialize, Deserialize, Debug)]
    pub enum P{
      Leaf(Leaf),
      Pair(Pair),
      Sets(Sets),
      Lists(Lists),
      Mix(Mix),
    }
    group!{
      ends{Leaf, Mix},
      middle{Pair, Sets, Lists},
      one{Lists},
      every{Leaf, Pair, Sets, Lists, Mix},
    }
  }
  schema!(Plain, P, PArena, PDiscriminant, {
    0 => Leaf(Leaf){},
    1 => Pair(Pair){a, b},
    2 => Sets(Sets){hs, bs, os, is_},
    3 => Lists(Lists){v, d, w},
    4 => Mix(Mix){d1, s1, s2, s3, s4, s5, s6, v1, o1, o2, o3, i1, i2, i3, d2},
  }, desc("plain", &[
    ("Leaf", &[]),
    ("Pair", &[("a", 'D', &["ends", "all"]), ("b", 'D', &["ends"])]),
    ("Sets", &[("hs", 'S', &[]), ("bs", 'S', &["all"]), ("os", 'S', &[]), ("is_", 'S', &["all"])]),
    ("Lists", &[("v", 'V', &["all", "lists", "firsts"]), ("d", 'D', &[]), ("w", 'V', &["all", "lists"])]),
    ("Mix", &[("d1", 'D', &[]), ("s1", 'S', &[]), ("s2", 'S', &[]), ("s3", 'S', &[]), ("s4", 'S', &[]), ("s5", 'S', &[]),
      ("s6", 'S', &[]), ("v1", 'V', &[]), ("o1", 'S', &[]), ("o2", 'S', &[]), ("o3", 'S', &[]), ("i1", 'S', &[]),
      ("i2", 'S', &[]), ("i3", 'S', &[]), ("d2", 'D', &[])]),
  ], &[("ends", &["Leaf", "Mix"]), ("middle", &["Pair", "Sets", "Lists"]), ("one", &["Lists"]),
      ("every", &["Leaf", "Pair", "Sets", "Lists", "Mix"])], &[], &[]));
}
pub use plain::Plain;

// ------------------------------------------------------------------ 1: bidirectional + typed
mod org {
  use super::*;
  use ::{indexmap, ordermap};
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Dir {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    pub parent: NodeIndex,
    pub children: BTreeSet<NodeIndex>,
    pub files: HashSet<NodeIndex>,
    pub watch: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct File {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    pub dir: NodeIndex,
    pub peer: NodeIndex,
    pub tags: ordermap::OrderSet<NodeIndex>,
    pub misc: NodeIndex,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Tag {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    pub files: indexmap::IndexSet<NodeIndex>,
    pub owner: NodeIndex,
    pub near: HashSet<NodeIndex>,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct User {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    pub owns: HashSet<NodeIndex>,
    pub bot: NodeIndex,
    pub log: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Bot {
    pub uid: u64,
    pub val: i64,
    pub text: String,
    pub user: NodeIndex,
    pub owned: BTreeSet<NodeIndex>,
  }
  node_enum! {
    #[derive(Serialize, Deserialize, Debug)]
    pub enum Org{
      Dir(Dir),
      File(File),
      Tag(Tag),
      User(User),
      Bot(Bot),
    }
    group!{
      content{Dir, File},
      actor{User, Bot},
    }
    link_type!{
      Dir.parent: Dir,
      Dir.children: {Dir},
      Dir.files: File,
      Dir.watch: {File, Tag},
      File.dir: Dir,
      File.peer: File,
      File.tags: Tag,
      File.misc: content,
      Tag.files: File,
      Tag.owner: actor,
      Tag.near: {content, Tag},
      Bot.owned: Tag,
    }
    bidirectional!{
      Dir.parent <-> Dir.children,
      Dir.files <-> File.dir,
      File.peer <-> File.peer,
      File.tags <-> Tag.files,
      Tag.owner <-> User.owns,
      Tag.owner <-> Bot.owned,
      User.bot <-> Bot.user,
      Tag.near <-> Tag.near,
    }
  }
  schema!(OrgS, Org, OrgArena, OrgDiscriminant, {
    0 => Dir(Dir){parent, children, files, watch},
    1 => File(File){dir, peer, tags, misc},
    2 => Tag(Tag){files, owner, near},
    3 => User(User){owns, bot, log},
    4 => Bot(Bot){user, owned},
  }, desc("org", &[
    ("Dir", &[("parent", 'D', &[]), ("children", 'S', &[]), ("files", 'S', &[]), ("watch", 'V', &[])]),
    ("File", &[("dir", 'D', &[]), ("peer", 'D', &[]), ("tags", 'S', &[]), ("misc", 'D', &[])]),
    ("Tag", &[("files", 'S', &[]), ("owner", 'D', &[]), ("near", 'S', &[])]),
    ("User", &[("owns", 'S', &[]), ("bot", 'D', &[]), ("log", 'V', &[])]),
    ("Bot", &[("user", 'D', &[]), ("owned", 'S', &[])]),
  ], &[("content", &["Dir", "File"]), ("actor", &["User", "Bot"])], &[
    ("Dir.parent", "Dir"), ("Dir.children", "Dir"), ("Dir.files", "File"), ("Dir.watch", "File Tag"),
    ("File.dir", "Dir"), ("File.peer", "File"), ("File.tags", "Tag"), ("File.misc", "Dir File"),
    ("Tag.files", "File"), ("Tag.owner", "User Bot"), ("Tag.near", "Dir File Tag"), ("Bot.owned", "Tag"),
  ], &[
    ("Dir.parent", "Dir.children"), ("Dir.files", "File.dir"), ("File.peer", "File.peer"), ("File.tags", "Tag.files"),
    ("Tag.owner", "User.owns"), ("Tag.owner", "Bot.owned"), ("User.bot", "Bot.user"), ("Tag.near", "Tag.near"),
  ]));
}
pub use org::OrgS;

// ------------------------------------------------------------------ 2: groups of types and links
mod lr {
  use super::*;
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Left1 { pub uid: u64, pub val: i64, pub text: String,
    #[group(l1)] pub g1: NodeIndex,
    #[group(l2, aux)] pub g2: NodeIndex }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Left2 { pub uid: u64, pub val: i64, pub text: String,
    #[group(l1)] pub g1: HashSet<NodeIndex>,
    #[group(l2)] pub g2: NodeIndex }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Left3 { pub uid: u64, pub val: i64, pub text: String,
    #[group(l2)] pub g2: BTreeSet<NodeIndex>,
    #[group(l1)] pub g1: NodeIndex,
    #[group(aux)] pub extra: Vec<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  #[phantom_group(l2)]
  pub struct Left4 { pub uid: u64, pub val: i64, pub text: String,
    #[group(l1, aux)] pub g1: NodeIndex }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Right1 { pub uid: u64, pub val: i64, pub text: String,
    #[group(r1)] pub g1: NodeIndex,
    #[group(r2)] pub g2: HashSet<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Right2 { pub uid: u64, pub val: i64, pub text: String,
    #[group(r1)] pub g1: HashSet<NodeIndex>,
    #[group(r2)] pub g2: HashSet<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Right3 { pub uid: u64, pub val: i64, pub text: String,
    #[group(r1)] pub g1: NodeIndex,
    #[group(r2)] pub g2: NodeIndex }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  #[phantom_group(r1)]
  pub struct Right4 { pub uid: u64, pub val: i64, pub text: String,
    #[group(r2)] pub g2: BTreeSet<NodeIndex> }
  node_enum! {
    #[derive(Serialize, Deserialize, Debug)]
    pub enum LR{
      Left1(Left1), Left2(Left2), Left3(Left3), Left4(Left4),
      Right1(Right1), Right2(Right2), Right3(Right3), Right4(Right4),
    }
    group!{
      left { Left1, Left2, Left3, Left4 },
      right { Right1, Right2, Right3, Right4 },
      LU {Left1, Left2}, LD {Left3, Left4}, RU {Right1, Right2}, RD {Right3, Right4},
      corner {Left1, Right4},
    }
    link_type!{
      left.l1: RU, left.l2: RD, right.r1: LU, right.r2: LD,
      Left3.aux: {left, Right2},
      Left1.g2: {Right3, Right4, Left1},
    }
    bidirectional!{
      LU.l1 <-> RU.r1,
      LD.l1 <-> RU.r2,
      LU.l2 <-> RD.r1,
      LD.l2 <-> RD.r2,
    }
  }
  schema!(LrS, LR, LRArena, LRDiscriminant, {
    0 => Left1(Left1){g1, g2},
    1 => Left2(Left2){g1, g2},
    2 => Left3(Left3){g2, g1, extra},
    3 => Left4(Left4){g1},
    4 => Right1(Right1){g1, g2},
    5 => Right2(Right2){g1, g2},
    6 => Right3(Right3){g1, g2},
    7 => Right4(Right4){g2},
  }, desc("lr", &[
    ("Left1", &[("g1", 'D', &["l1"]), ("g2", 'D', &["l2", "aux"])]),
    ("Left2", &[("g1", 'S', &["l1"]), ("g2", 'D', &["l2"])]),
    ("Left3", &[("g2", 'S', &["l2"]), ("g1", 'D', &["l1"]), ("extra", 'V', &["aux"])]),
    ("Left4", &[("g1", 'D', &["l1", "aux"])]),
    ("Right1", &[("g1", 'D', &["r1"]), ("g2", 'S', &["r2"])]),
    ("Right2", &[("g1", 'S', &["r1"]), ("g2", 'S', &["r2"])]),
    ("Right3", &[("g1", 'D', &["r1"]), ("g2", 'D', &["r2"])]),
    ("Right4", &[("g2", 'S', &["r2"])]),
  ], &[("left", &["Left1", "Left2", "Left3", "Left4"]), ("right", &["Right1", "Right2", "Right3", "Right4"]),
    ("LU", &["Left1", "Left2"]), ("LD", &["Left3", "Left4"]), ("RU", &["Right1", "Right2"]), ("RD", &["Right3", "Right4"]),
    ("corner", &["Left1", "Right4"])], &[
    ("Left1.g1", "Right1 Right2"), ("Left2.g1", "Right1 Right2"), ("Left3.g1", "Right1 Right2"), ("Left4.g1", "Right1 Right2"),
    ("Left1.g2", "Right3 Right4"), ("Left2.g2", "Right3 Right4"), ("Left3.g2", "Right3 Right4"),
    ("Right1.g1", "Left1 Left2"), ("Right2.g1", "Left1 Left2"), ("Right3.g1", "Left1 Left2"),
    ("Right1.g2", "Left3 Left4"), ("Right2.g2", "Left3 Left4"), ("Right3.g2", "Left3 Left4"), ("Right4.g2", "Left3 Left4"),
    ("Left3.extra", "Left1 Left2 Left3 Left4 Right2"),
  ], &[
    ("Left1.g1", "Right1.g1"), ("Left1.g1", "Right2.g1"), ("Left2.g1", "Right1.g1"), ("Left2.g1", "Right2.g1"),
    ("Left3.g1", "Right1.g2"), ("Left3.g1", "Right2.g2"), ("Left4.g1", "Right1.g2"), ("Left4.g1", "Right2.g2"),
    ("Left1.g2", "Right3.g1"), ("Left2.g2", "Right3.g1"),
    ("Left3.g2", "Right3.g2"), ("Left3.g2", "Right4.g2"),
  ]));
}
pub use lr::LrS;

// ------------------------------------------------------------------ 3: several possible opposites
mod xy {
  use super::*;
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  #[phantom_group(b)]
  pub struct X { pub uid: u64, pub val: i64, pub text: String,
    #[group(a)] pub y: NodeIndex,
    pub zs: BTreeSet<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Y { pub uid: u64, pub val: i64, pub text: String,
    #[group(x)] pub x1: NodeIndex,
    #[group(x)] pub x2: HashSet<NodeIndex>,
    #[group(b, c)] pub any: Vec<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Z { pub uid: u64, pub val: i64, pub text: String,
    #[group(a)] pub y: NodeIndex,
    #[group(b)] pub x: NodeIndex }
  node_enum! {
    #[derive(Serialize, Deserialize, Debug)]
    pub enum XY{ X(X), Y(Y), Z(Z) }
    group!{ All{X, Z}, YZ{Y, Z} }
    link_type!{
      All.a: Y,
      YZ.b: {X, Y},
      Y.x: X,
    }
    bidirectional!{
      X.y <-> Y.x,
      X.zs <-> Z.x,
    }
  }
  schema!(XyS, XY, XYArena, XYDiscriminant, {
    0 => X(X){y, zs},
    1 => Y(Y){x1, x2, any},
    2 => Z(Z){y, x},
  }, desc("xy", &[
    ("X", &[("y", 'D', &["a"]), ("zs", 'S', &[])]),
    ("Y", &[("x1", 'D', &["x"]), ("x2", 'S', &["x"]), ("any", 'V', &["b", "c"])]),
    ("Z", &[("y", 'D', &["a"]), ("x", 'D', &["b"])]),
  ], &[("All", &["X", "Z"]), ("YZ", &["Y", "Z"])], &[
    ("X.y", "Y"), ("Z.y", "Y"), ("Y.any", "X Y"), ("Z.x", "X Y"), ("Y.x1", "X"), ("Y.x2", "X"),
  ], &[("X.y", "Y.x1"), ("X.y", "Y.x2"), ("X.zs", "Z.x")]));
}
pub use xy::XyS;

// ------------------------------------------------------------------ 4: one type, self-paired links
mod solo {
  use super::*;
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Item { pub uid: u64, pub val: i64, pub text: String,
    pub next: NodeIndex,
    pub prev: NodeIndex,
    pub rel: HashSet<NodeIndex>,
    pub up: NodeIndex,
    pub down: BTreeSet<NodeIndex>,
    pub bag: Vec<NodeIndex>,
    pub loose: NodeIndex,
    pub one: NodeIndex,
    #[group(pick)] pub p1: NodeIndex,
    #[group(pick)] pub p2: HashSet<NodeIndex> }
  node_enum! {
    #[derive(Serialize, Deserialize, Debug)]
    pub enum Solo{ Item(Item) }
    bidirectional!{
      Item.next <-> Item.prev,
      Item.rel <-> Item.rel,
      Item.up <-> Item.down,
      Item.one <-> Item.pick,
    }
  }
  schema!(SoloS, Solo, SoloArena, SoloDiscriminant, {
    0 => Item(Item){next, prev, rel, up, down, bag, loose, one, p1, p2},
  }, desc("solo", &[
    ("Item", &[("next", 'D', &[]), ("prev", 'D', &[]), ("rel", 'S', &[]), ("up", 'D', &[]), ("down", 'S', &[]), ("bag", 'V', &[]), ("loose", 'D', &[]),
      ("one", 'D', &[]), ("p1", 'D', &["pick"]), ("p2", 'S', &["pick"])]),
  ], &[], &[], &[("Item.next", "Item.prev"), ("Item.rel", "Item.rel"), ("Item.up", "Item.down"), ("Item.one", "Item.p1"), ("Item.one", "Item.p2")]));
}
pub use solo::SoloS;

// ------------------------------------------------------------------ 5: overlapping groups on every side
mod tangle {
  use super::*;
  use ::ordermap;
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct HubNode { pub uid: u64, pub val: i64, pub text: String,
    #[group(near)] #[group(wide)] pub a: NodeIndex,
    #[group(wide, far)] pub b: HashSet<NodeIndex>,
    #[group(near, far, wide)] pub c: Vec<NodeIndex>,
    #[group(duo)] pub p: NodeIndex,
    #[group(duo, far)] pub q: HashSet<NodeIndex>,
    pub axle: NodeIndex,
    pub fwd: NodeIndex,
    pub bwd: BTreeSet<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Spoke { pub uid: u64, pub val: i64, pub text: String,
    #[group(pin, any_end)] pub hub: NodeIndex,
    #[group(any_end)] pub alt: BTreeSet<NodeIndex> }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  pub struct Rim { pub uid: u64, pub val: i64, pub text: String,
    pub axle: ordermap::OrderSet<NodeIndex>,
    pub tail: NodeIndex,
    #[group(any_end)] pub alt: NodeIndex,
    pub fwd: HashSet<NodeIndex>,
    pub bwd: NodeIndex }
  #[derive(TypedNode, Serialize, Deserialize, Debug)]
  #[phantom_group(any_end)]
  pub struct XRay { pub uid: u64, pub val: [i64; 2], pub text: String,
    pub misc_links: HashSet<NodeIndex>,
    pub last: Vec<NodeIndex>,
    #[group(one_a, one_b, trio)] pub t1: NodeIndex,
    #[group(trio)] pub t2: HashSet<NodeIndex>,
    #[group(one_a, one_b, trio)] pub t3: BTreeSet<NodeIndex> }
  node_enum! {
    #[derive(Serialize, Deserialize, Debug)]
    pub enum Tangle{ XRay(XRay), HubNode(HubNode), Spoke(Spoke), Rim(Rim) }
    group!{
      wheel{HubNode, Rim},
      ends{Spoke, Rim},
      odd{XRay, Spoke},
    }
    link_type!{
      HubNode.near: {Spoke, wheel},
      HubNode.wide: {ends, XRay},
      HubNode.far: {Rim, odd, HubNode},
      HubNode.b: {Rim, XRay, HubNode},
      HubNode.q: ends,
      wheel.axle: {wheel},
      odd.any_end: HubNode,
      XRay.misc_links: {odd, wheel},
      XRay.misc_links: {XRay, ends},
    }
    link_type!{
      ends.alt: {HubNode, Rim},
    }
    bidirectional!{
      HubNode.p <-> Spoke.pin,
      HubNode.duo <-> Spoke.pin,
      HubNode.q <-> ends.any_end,
      wheel.axle <-> wheel.axle,
    }
    bidirectional!{
      wheel.fwd <-> wheel.bwd,
      Rim.tail <-> XRay.trio,
    }
  }
  schema!(TangleS, Tangle, TangleArena, TangleDiscriminant, {
    0 => XRay(XRay){misc_links, last, t1, t2, t3},
    1 => HubNode(HubNode){a, b, c, p, q, axle, fwd, bwd},
    2 => Spoke(Spoke){hub, alt},
    3 => Rim(Rim){axle, tail, alt, fwd, bwd},
  }, desc("tangle", &[
    ("XRay", &[("misc_links", 'S', &[]), ("last", 'V', &[]), ("t1", 'D', &["one_a", "one_b", "trio"]), ("t2", 'S', &["trio"]),
      ("t3", 'S', &["one_a", "one_b", "trio"])]),
    ("HubNode", &[("a", 'D', &["near", "wide"]), ("b", 'S', &["wide", "far"]), ("c", 'V', &["near", "far", "wide"]),
      ("p", 'D', &["duo"]), ("q", 'S', &["duo", "far"]), ("axle", 'D', &[]), ("fwd", 'D', &[]), ("bwd", 'S', &[])]),
    ("Spoke", &[("hub", 'D', &["pin", "any_end"]), ("alt", 'S', &["any_end"])]),
    ("Rim", &[("axle", 'S', &[]), ("tail", 'D', &[]), ("alt", 'D', &["any_end"]), ("fwd", 'S', &[]), ("bwd", 'D', &[])]),
  ], &[("wheel", &["HubNode", "Rim"]), ("ends", &["Spoke", "Rim"]), ("odd", &["XRay", "Spoke"])], &[
    ("HubNode.a", "Spoke Rim"), ("HubNode.b", "Rim XRay"), ("HubNode.c", "Spoke Rim"), ("HubNode.q", "Spoke Rim"),
    ("HubNode.axle", "HubNode Rim"), ("Rim.axle", "HubNode Rim"), ("Spoke.hub", "HubNode"), ("Spoke.alt", "HubNode"),
    ("XRay.misc_links", "XRay Spoke Rim"), ("Rim.alt", "HubNode Rim"),
  ], &[
    ("HubNode.p", "Spoke.hub"), ("HubNode.q", "Spoke.hub"), ("HubNode.q", "Spoke.alt"), ("HubNode.q", "Rim.alt"),
    ("HubNode.axle", "HubNode.axle"), ("HubNode.axle", "Rim.axle"), ("Rim.axle", "Rim.axle"),
    ("HubNode.fwd", "HubNode.bwd"), ("HubNode.fwd", "Rim.bwd"), ("Rim.fwd", "HubNode.bwd"), ("Rim.fwd", "Rim.bwd"),
    ("Rim.tail", "XRay.t1"), ("Rim.tail", "XRay.t2"), ("Rim.tail", "XRay.t3"),
  ]));
}
pub use tangle::TangleS;
