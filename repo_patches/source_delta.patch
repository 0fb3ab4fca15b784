From 3434ba3696d9ee9b3564a1f898c21c4b24568e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 01/25] fix: refuse transactions of another context or with
 unfilled nodes in every build profile

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..a24a185 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -513,8 +513,8 @@ where
   pub fn check_backlinks(&self) {}
 
   fn do_commit(&mut self, t: Transaction<NodeT, Arena>) -> LinkChangeRecorder<NodeT> {
-    debug_assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
-    debug_assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
+    assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
+    assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
 
     let mut lcr = LinkChangeRecorder::default();
 
-- 
2.43.0


From 9684357a7dff6683410903678b691a996fee3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 02/25] fix: give every default Context an identity of its own

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index a24a185..5f24363 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -863,7 +863,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -885,6 +885,12 @@ impl Context {
   }
 }
 
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
+
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
 //   Iterator<Item = (NodeIndex, Self::Source)>
-- 
2.43.0


From 70950d3b96baaae5282c4e0ffff54b9fba67b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 03/25] fix: refuse filling an untyped index twice with
 different types

---
 ttgraph_macros/src/cate_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 54585d5..20dc969 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -354,6 +354,9 @@ pub(crate) fn make_cate_arena(
         NodeIndex(self._id_distributer.alloc())
       }
       fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V) {
+        if self.contains(i) {
+          panic!("Fillback an occupied index {:?}", i);
+        }
         let d = ttgraph::Discriminated::discriminant(&item);
         self._dispatcher.insert(i, d);
         if self.get_container_mut(d).insert(i.0, item).is_some() {
-- 
2.43.0


From f63290f600dfcaf9ee04fe9ee531259ee8f672ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 04/25] fix: allow a changed node to link to an index that is
 not linked yet

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 5f24363..87d8db1 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -570,7 +570,7 @@ where
     f(self.nodes.get_mut(x).unwrap());
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.back_links.entry(y).or_default().insert((x, s));
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
@@ -587,7 +587,7 @@ where
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.back_links.entry(y).or_default().insert((x, s));
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
-- 
2.43.0


From 949542e9db9a3e61208af77fdc6de67479e24055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 05/25] fix: relabel links correctly in switch_context when old
 and new ids overlap

---
 src/typed_graph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 87d8db1..ef2e20d 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -456,9 +456,17 @@ where
       id_map.insert(id, new_idx);
     }
 
-    for (id, new_id) in &id_map {
-      for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+    for new_id in id_map.values() {
+      let node = new_nodes.get_mut(*new_id).unwrap();
+      let links = Vec::from_iter(node.iter_sources());
+      // Clear all the old links first, because the old and the new ids may overlap
+      for (y, s) in &links {
+        node.modify_link(*s, *y, NodeIndex::empty());
+      }
+      for (y, s) in &links {
+        if let Some(new_y) = id_map.get(y) {
+          node.modify_link(*s, NodeIndex::empty(), *new_y);
+        }
       }
     }
 
-- 
2.43.0


From 476c18701cd98a7b3d905bc65770e5975b0f237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 06/25] fix: do not hand out link targets of a restored graph
 as new ids

---
 src/typed_graph/serialize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/serialize.rs b/src/typed_graph/serialize.rs
index f478c76..dbfd4d4 100644
--- a/src/typed_graph/serialize.rs
+++ b/src/typed_graph/serialize.rs
@@ -106,7 +106,8 @@ where
 pub fn deserialize_graph<'de, NodeT: NodeEnum + Deserialize<'de>>(
   input: GraphSerializer<NodeT>,
 ) -> (Context, Graph<NodeT>) {
-  let cnt = input.nodes.iter().map(|(idx, _)| idx.0).max().unwrap_or_else(|| 0);
+  let links = input.nodes.iter().flat_map(|(_, node)| node.iter_sources().map(|(y, _)| y.0));
+  let cnt = input.nodes.iter().map(|(idx, _)| idx.0).chain(links).max().unwrap_or_else(|| 0);
   let ctx = Context::from_id(input.ctx_id, cnt);
   let graph = Graph::do_deserialize(&ctx, input.nodes);
   (ctx, graph)
-- 
2.43.0


From 243ffd58bf0af41b9e46d3a899a61e1a78a00010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 07/25] fix: keep a node in the container of its type when a
 change gives it another type

---
 src/cate_arena.rs              | 9 +++++++++
 src/typed_graph.rs             | 1 +
 src/typed_graph/transaction.rs | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..579c5bf 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -102,6 +102,15 @@ pub trait CateArena: 'static {
     let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
     let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
     self.get_container_mut(d).insert(i.0, f(x));
+    self.reclassify(i);
+  }
+  /// Move a node to the container of its current type, in case its type has been changed
+  fn reclassify(&mut self, i: NodeIndex) {
+    let d = self.dispatch(i);
+    if self.get(i).map_or(false, |x| Some(Discriminated::discriminant(x)) != d) {
+      let x = self.remove(i).unwrap();
+      self.fill_back_untyped(i, x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index ef2e20d..390175e 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -576,6 +576,7 @@ where
     }
 
     f(self.nodes.get_mut(x).unwrap());
+    self.nodes.reclassify(x);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..109e62b 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -277,6 +277,7 @@ where
   {
     if self.inc_nodes.contains(node) {
       func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.reclassify(node);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From e1e2c9ad6351a380b468908426015451048615b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 08/25] fix: record a link once when its target occurs several
 times in a list

---
 src/typed_graph.rs | 50 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 390175e..fee7b73 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -546,23 +546,32 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       self.add_back_links(x, n);
-      for (y, s) in n.iter_sources() {
-        lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
+      for (y, l) in Self::links_of(n) {
+        lcr.add_link(x, y, l);
       }
     }
 
     self.nodes.merge(nodes);
   }
 
+  /// The links of a node, a target occurring several times in a link is listed once
+  fn links_of(n: &NodeT) -> OrderSet<(NodeIndex, NodeT::LinkMirrorEnum)> {
+    n.iter_sources().map(|(y, s)| (y, NodeT::to_link_mirror_enum(s))).collect()
+  }
+
   fn remove_node(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
     let n = self.nodes.remove(x).expect("Remove a non-existing node!");
-    for (y, s) in n.iter_sources() {
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
+    for (y, l) in Self::links_of(&n) {
+      lcr.remove_link(x, y, l);
     }
     self.remove_back_links(x, &n);
     for (y, s) in self.back_links.swap_remove(&x).unwrap() {
-      self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
-      lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
+      let node = self.nodes.get_mut(y).unwrap();
+      node.modify_link(s, x, NodeIndex::empty());
+      let l = NodeT::to_link_mirror_enum(s);
+      if !node.contains_link(l, x) {
+        lcr.remove_link(y, x, l);
+      }
     }
   }
 
@@ -572,7 +581,9 @@ where
   {
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
+    }
+    for (y, l) in Self::links_of(self.nodes.get(x).unwrap()) {
+      lcr.remove_link(x, y, l);
     }
 
     f(self.nodes.get_mut(x).unwrap());
@@ -580,7 +591,9 @@ where
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
-      lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
+    }
+    for (y, l) in Self::links_of(self.nodes.get(x).unwrap()) {
+      lcr.add_link(x, y, l);
     }
   }
 
@@ -590,14 +603,18 @@ where
   {
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
+    }
+    for (y, l) in Self::links_of(self.nodes.get(x).unwrap()) {
+      lcr.remove_link(x, y, l);
     }
 
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
-      lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
+    }
+    for (y, l) in Self::links_of(self.nodes.get(x).unwrap()) {
+      lcr.add_link(x, y, l);
     }
   }
 
@@ -608,14 +625,17 @@ where
     let new_link = self.back_links.entry(new_node).or_default();
     for (y, s) in old_link {
       new_link.insert((y, s));
-      let result = self.nodes.get_mut(y).unwrap().modify_link(s, old_node, new_node);
+      let l = NodeT::to_link_mirror_enum(s);
+      let node = self.nodes.get_mut(y).unwrap();
+      let found = node.contains_link(l, new_node);
+      let result = node.modify_link(s, old_node, new_node);
       // add: if (added) {new_idx} else {ttgraph::NodeIndex::empty()},
       // remove: if (removed) {old_idx} else {ttgraph::NodeIndex::empty()},
-      if result.added {
-        lcr.add_link(y, new_node, NodeT::to_link_mirror_enum(s));
+      if result.added && !found {
+        lcr.add_link(y, new_node, l);
       }
-      if result.removed {
-        lcr.remove_link(y, old_node, NodeT::to_link_mirror_enum(s));
+      if result.removed && !node.contains_link(l, old_node) {
+        lcr.remove_link(y, old_node, l);
       }
     }
   }
-- 
2.43.0


From b2df37afcf5be1dd7e2aa2164145896d41ac9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 09/25] fix: check and complete existing links when their
 target is inserted or changes its type

---
 src/typed_graph.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index fee7b73..37de94f 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -545,6 +545,7 @@ where
 
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
+      self.recheck_links_to(x, lcr);
       self.add_back_links(x, n);
       for (y, l) in Self::links_of(n) {
         lcr.add_link(x, y, l);
@@ -554,6 +555,13 @@ where
     self.nodes.merge(nodes);
   }
 
+  /// The links to a node that is newly inserted or has changed its type have to be checked again
+  fn recheck_links_to(&self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (y, s) in self.back_links.get(&x).into_iter().flatten() {
+      lcr.rechecks.insert((*y, x, NodeT::to_link_mirror_enum(*s)));
+    }
+  }
+
   /// The links of a node, a target occurring several times in a link is listed once
   fn links_of(n: &NodeT) -> OrderSet<(NodeIndex, NodeT::LinkMirrorEnum)> {
     n.iter_sources().map(|(y, s)| (y, NodeT::to_link_mirror_enum(s))).collect()
@@ -586,8 +594,12 @@ where
       lcr.remove_link(x, y, l);
     }
 
+    let d = self.nodes.dispatch(x);
     f(self.nodes.get_mut(x).unwrap());
     self.nodes.reclassify(x);
+    if self.nodes.dispatch(x) != d {
+      self.recheck_links_to(x, lcr);
+    }
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
@@ -608,7 +620,11 @@ where
       lcr.remove_link(x, y, l);
     }
 
+    let d = self.nodes.dispatch(x);
     self.nodes.update_with(x, f);
+    if self.nodes.dispatch(x) != d {
+      self.recheck_links_to(x, lcr);
+    }
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
@@ -691,8 +707,9 @@ where
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
-      if !self.nodes.contains(x) || !self.nodes.contains(y) {
+    for &(x, y, l) in lcr.adds.iter().chain(&lcr.rechecks) {
+      // The link may have been removed after it is recorded
+      if !self.nodes.get(x).map_or(false, |n| n.contains_link(l, y)) || !self.nodes.contains(y) {
         continue;
       }
 
@@ -737,7 +754,10 @@ where
   }
 
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
-    for (_, y, l) in &lcr.adds {
+    for (x, y, l) in lcr.adds.iter().chain(&lcr.rechecks) {
+      if !self.nodes.get(*x).map_or(false, |n| n.contains_link(*l, *y)) {
+        continue;
+      }
       if let Some(node) = self.nodes.get(*y) {
         if let Result::Err(err) = NodeT::check_link_type(node.discriminant(), *l) {
           panic!("Link type check failed! Link {:?} expect {:?}, found {:?}", err.link, err.expect, err.found);
@@ -793,6 +813,8 @@ where
 struct LinkChangeRecorder<NodeT: NodeEnum> {
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  /// Existing links whose target is newly inserted or has changed its type
+  rechecks: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   #[cfg(feature = "debug")]
@@ -830,6 +852,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
     LinkChangeRecorder {
       adds: OrderSet::default(),
       removes: OrderSet::default(),
+      rechecks: OrderSet::default(),
     }
   }
 }
-- 
2.43.0


From b381047461e9a094f7401b35fb60f2483185672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 10/25] fix: keep the opposite of a bidirectional link that is
 still linked through another link

---
 src/typed_graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 37de94f..5f7fe08 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -701,6 +701,12 @@ where
       let bds = self.nodes.get(x).unwrap().get_bidiretional_link_mirrors_of(l);
       let bds = self.nodes.get(y).unwrap().match_bd_link_group(bds);
       for link in bds {
+        // Another link of x may still be the opposite of this link
+        let node = self.nodes.get(x).unwrap();
+        let opposites = node.match_bd_link_group(self.nodes.get(y).unwrap().get_bidiretional_link_mirrors_of(link));
+        if opposites.into_iter().any(|l| node.contains_link(l, y)) {
+          continue;
+        }
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
         }
-- 
2.43.0


From 0048b4b09b29b1c3d5e73bc1e9498fad31650aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 11/25] fix: clear links to a node that is inserted and removed
 in the same transaction

---
 src/typed_graph.rs             | 9 ++++++++-
 src/typed_graph/transaction.rs | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 5f7fe08..57e6699 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -538,6 +538,9 @@ where
     for n in &t.dec_nodes {
       self.remove_node(*n, &mut lcr);
     }
+    for n in &t.cancelled_nodes {
+      self.clear_links_to(*n, &mut lcr);
+    }
 
     self.apply_bidirectional_links(&lcr);
     lcr
@@ -573,7 +576,11 @@ where
       lcr.remove_link(x, y, l);
     }
     self.remove_back_links(x, &n);
-    for (y, s) in self.back_links.swap_remove(&x).unwrap() {
+    self.clear_links_to(x, lcr);
+  }
+
+  fn clear_links_to(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (y, s) in self.back_links.swap_remove(&x).into_iter().flatten() {
       let node = self.nodes.get_mut(y).unwrap();
       node.modify_link(s, x, NodeIndex::empty());
       let l = NodeT::to_link_mirror_enum(s);
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 109e62b..66665f8 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -18,6 +18,7 @@ where
   alloc_nodes: OrderSet<NodeIndex>,
   inc_nodes: Arena,
   dec_nodes: OrderSet<NodeIndex>,
+  cancelled_nodes: OrderSet<NodeIndex>,
   mut_nodes: Vec<(NodeIndex, MutFunc<'a, NodeT>)>,
   update_nodes: Vec<(NodeIndex, UpdateFunc<'a, NodeT>)>,
   redirect_all_links_vec: Vec<(NodeIndex, NodeIndex)>,
@@ -62,6 +63,7 @@ where
       alloc_nodes: OrderSet::new(),
       inc_nodes: Arena::new(node_dist),
       dec_nodes: OrderSet::new(),
+      cancelled_nodes: OrderSet::new(),
       mut_nodes: Vec::new(),
       update_nodes: Vec::new(),
       redirect_all_links_vec: Vec::new(),
@@ -227,6 +229,8 @@ where
   pub fn remove(&mut self, node: NodeIndex) {
     if self.inc_nodes.remove(node).is_none() && !self.alloc_nodes.swap_remove(&node) {
       self.dec_nodes.insert(node);
+    } else {
+      self.cancelled_nodes.insert(node);
     }
   }
 
-- 
2.43.0


From b3ffff63f2cede5656031f736047d998ec344238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 12/25] fix: show every changed node and the removed links to
 the checks of a checked commit

---
 src/typed_graph.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 57e6699..5a4ba63 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -478,7 +478,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -542,12 +542,13 @@ where
       self.clear_links_to(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
+      lcr.nodes.insert(x);
       self.recheck_links_to(x, lcr);
       self.add_back_links(x, n);
       for (y, l) in Self::links_of(n) {
@@ -601,6 +602,7 @@ where
       lcr.remove_link(x, y, l);
     }
 
+    lcr.nodes.insert(x);
     let d = self.nodes.dispatch(x);
     f(self.nodes.get_mut(x).unwrap());
     self.nodes.reclassify(x);
@@ -627,6 +629,7 @@ where
       lcr.remove_link(x, y, l);
     }
 
+    lcr.nodes.insert(x);
     let d = self.nodes.dispatch(x);
     self.nodes.update_with(x, f);
     if self.nodes.dispatch(x) != d {
@@ -699,8 +702,8 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (x, y, l) in lcr.removes.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -716,11 +719,12 @@ where
         }
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in lcr.adds.iter().chain(&lcr.rechecks) {
+    for (x, y, l) in Vec::from_iter(lcr.adds.iter().chain(&lcr.rechecks).copied()) {
       // The link may have been removed after it is recorded
       if !self.nodes.get(x).map_or(false, |n| n.contains_link(l, y)) || !self.nodes.contains(y) {
         continue;
@@ -740,6 +744,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -782,10 +787,12 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
+    let mut changed_nodes = lcr.nodes.clone();
     for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
       changed_nodes.insert(*x);
     }
+    // Removed nodes cannot be checked any more
+    changed_nodes.retain(|x| self.nodes.contains(*x));
     for (name, check_func) in &checks.node_checks {
       for x in &changed_nodes {
         if check_func(*x, self.get(*x).unwrap()).is_err() {
@@ -803,7 +810,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in lcr.removes.iter().filter(|(x, _, _)| self.nodes.contains(*x)) {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
@@ -818,7 +825,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
@@ -828,6 +835,8 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   /// Existing links whose target is newly inserted or has changed its type
   rechecks: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  /// Nodes that are inserted or modified, no matter if their links are changed
+  nodes: OrderSet<NodeIndex>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   #[cfg(feature = "debug")]
@@ -866,6 +875,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
       adds: OrderSet::default(),
       removes: OrderSet::default(),
       rechecks: OrderSet::default(),
+      nodes: OrderSet::default(),
     }
   }
 }
-- 
2.43.0


From 3ec78f79ba06aec3b0118e3ff664e39f7ba31529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:51 +0000
Subject: [PATCH 13/25] fix: check and complete a link that is taken out and
 put back while its target changes type

---
 src/typed_graph.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 5a4ba63..c77aa70 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -549,7 +549,7 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       lcr.nodes.insert(x);
-      self.recheck_links_to(x, lcr);
+      lcr.retyped.insert(x);
       self.add_back_links(x, n);
       for (y, l) in Self::links_of(n) {
         lcr.add_link(x, y, l);
@@ -560,9 +560,11 @@ where
   }
 
   /// The links to a node that is newly inserted or has changed its type have to be checked again
-  fn recheck_links_to(&self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
-    for (y, s) in self.back_links.get(&x).into_iter().flatten() {
-      lcr.rechecks.insert((*y, x, NodeT::to_link_mirror_enum(*s)));
+  fn recheck_links(&self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for x in &lcr.retyped {
+      for (y, s) in self.back_links.get(x).into_iter().flatten() {
+        lcr.rechecks.insert((*y, *x, NodeT::to_link_mirror_enum(*s)));
+      }
     }
   }
 
@@ -607,7 +609,7 @@ where
     f(self.nodes.get_mut(x).unwrap());
     self.nodes.reclassify(x);
     if self.nodes.dispatch(x) != d {
-      self.recheck_links_to(x, lcr);
+      lcr.retyped.insert(x);
     }
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
@@ -633,7 +635,7 @@ where
     let d = self.nodes.dispatch(x);
     self.nodes.update_with(x, f);
     if self.nodes.dispatch(x) != d {
-      self.recheck_links_to(x, lcr);
+      lcr.retyped.insert(x);
     }
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
@@ -703,6 +705,8 @@ where
   }
 
   fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    self.recheck_links(lcr);
+
     for (x, y, l) in lcr.removes.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
@@ -833,6 +837,8 @@ where
 struct LinkChangeRecorder<NodeT: NodeEnum> {
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  /// Nodes that are newly inserted or have changed their types
+  retyped: OrderSet<NodeIndex>,
   /// Existing links whose target is newly inserted or has changed its type
   rechecks: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   /// Nodes that are inserted or modified, no matter if their links are changed
@@ -874,6 +880,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
     LinkChangeRecorder {
       adds: OrderSet::default(),
       removes: OrderSet::default(),
+      retyped: OrderSet::default(),
       rechecks: OrderSet::default(),
       nodes: OrderSet::default(),
     }
-- 
2.43.0


From 4481341c6b58d7635f8a2f2d171af29b04ed2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:51 +0000
Subject: [PATCH 14/25] fix: connect single-choice bidirectional links before
 judging multiple choices

Links with several possible opposites were judged in the order in which they
were recorded, so that a commit was accepted or refused depending on unrelated
removals in the same transaction.
---
 src/typed_graph.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index c77aa70..a922e6d 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -728,6 +728,8 @@ where
       }
     }
 
+    // Links with a single choice are connected first, as they may settle the others no matter in which order they are recorded
+    let mut multi_choices = Vec::new();
     for (x, y, l) in Vec::from_iter(lcr.adds.iter().chain(&lcr.rechecks).copied()) {
       // The link may have been removed after it is recorded
       if !self.nodes.get(x).map_or(false, |n| n.contains_link(l, y)) || !self.nodes.contains(y) {
@@ -739,18 +741,22 @@ where
       if bds.is_empty() {
         continue;
       }
+      if bds.len() > 1 {
+        multi_choices.push((x, y, bds));
+        continue;
+      }
+
+      let link = bds[0];
+      if !self.nodes.get(y).unwrap().contains_link(link, x) && self.nodes.get_mut(y).unwrap().add_link(link, x) {
+        self.add_back_link(y, x, NodeT::to_source_enum(link));
+        lcr.add_link(y, x, link);
+      }
+    }
 
+    for (x, y, bds) in multi_choices {
       let node = self.nodes.get(y).unwrap();
       let found = bds.iter().any(|link| node.contains_link(*link, x));
-
-      if !found {
-        assert!(bds.len() == 1, "Node with multiple choices for bidiretional link detected!");
-        let link = bds.first().unwrap();
-        if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
-          self.add_back_link(y, x, NodeT::to_source_enum(*link));
-          lcr.add_link(y, x, *link);
-        }
-      }
+      assert!(found, "Node with multiple choices for bidiretional link detected!");
     }
   }
 
-- 
2.43.0


From 94311246b99981f8b99733e2d01608b22af1336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:54 +0000
Subject: [PATCH 15/25] fix: count an opposite link declared more than once as
 one choice

A bidirectional link covered by two declarations, say by its own name and by a
group, was refused as having multiple choices.
---
 src/typed_graph/macro_traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..22a7642 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,9 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // The same opposite may be declared more than once, by itself and by different groups
+    let mirrors = Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x));
+    OrderSet::<_>::from_iter(mirrors).into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From 6767b9d5d3a7a8f864b5622270b20905c307b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:02 +0000
Subject: [PATCH 16/25] fix: complete bidirectional links in an order
 independent of hash seeds

Recorded changes come in the iteration order of the users' hash sets, and
cancelled records reorder the rest, so that the order of the members of ordered
sets filled by bidirectional completion differed from run to run.
---
 src/typed_graph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index a922e6d..80ade37 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -707,7 +707,13 @@ where
   fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
     self.recheck_links(lcr);
 
-    for (x, y, l) in lcr.removes.clone() {
+    // The recorded order may depend on the iteration order of hash sets, while the completed links may be kept in ordered sets
+    let mut removes = Vec::from_iter(lcr.removes.iter().copied());
+    removes.sort_unstable();
+    let mut adds = Vec::from_iter(lcr.adds.iter().chain(&lcr.rechecks).copied());
+    adds.sort_unstable();
+
+    for (x, y, l) in removes {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -730,7 +736,7 @@ where
 
     // Links with a single choice are connected first, as they may settle the others no matter in which order they are recorded
     let mut multi_choices = Vec::new();
-    for (x, y, l) in Vec::from_iter(lcr.adds.iter().chain(&lcr.rechecks).copied()) {
+    for (x, y, l) in adds {
       // The link may have been removed after it is recorded
       if !self.nodes.get(x).map_or(false, |n| n.contains_link(l, y)) || !self.nodes.contains(y) {
         continue;
-- 
2.43.0


From 48ecab84e90792f1c1b4b07925e1fedc8342d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 17/25] fix: redirect a node nothing has ever linked to without
 panicking

---
 src/typed_graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 80ade37..fb629a5 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -647,7 +647,8 @@ where
   }
 
   fn redirect_links(&mut self, old_node: NodeIndex, new_node: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
-    let old_link = self.back_links.swap_remove(&old_node).unwrap();
+    // Nothing may have ever linked to the old node, e.g. it is removed by another transaction
+    let old_link = self.back_links.swap_remove(&old_node).unwrap_or_default();
     self.back_links.insert(old_node, OrderSet::new());
 
     let new_link = self.back_links.entry(new_node).or_default();
-- 
2.43.0


From 5fbd61802fb008439e1e5d9cc4db70fd703f393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 18/25] fix: do not record back links to the empty index when
 links are redirected to it

---
 src/typed_graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index fb629a5..fee8df2 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -651,9 +651,10 @@ where
     let old_link = self.back_links.swap_remove(&old_node).unwrap_or_default();
     self.back_links.insert(old_node, OrderSet::new());
 
-    let new_link = self.back_links.entry(new_node).or_default();
     for (y, s) in old_link {
-      new_link.insert((y, s));
+      if !new_node.is_empty() {
+        self.back_links.entry(new_node).or_default().insert((y, s));
+      }
       let l = NodeT::to_link_mirror_enum(s);
       let node = self.nodes.get_mut(y).unwrap();
       let found = node.contains_link(l, new_node);
-- 
2.43.0


From a6f08db164d9bd88ec0a748cd8bbfa4f1a200f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 19/25] fix: skip the empty entries of list links in
 get_links_by_group

---
 ttgraph_macros/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..fcb53fb 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -53,7 +53,7 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
         LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x| !x.is_empty()));},
         LinkType::Empty => quote! {},
       });
     }
-- 
2.43.0


From 28421c18beab0d070a912594e7c149e2e2a269e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 20/25] fix: refuse to fill back an index the transaction has
 not allocated

---
 src/typed_graph/transaction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 66665f8..387ee46 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -159,6 +159,7 @@ where
 
   /// Fill back the data to a [`NodeIndex`] created by [`alloc_untyped`](Transaction::alloc_untyped)
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
+    assert!(self.alloc_nodes.contains(&idx), "Fillback an index that is not allocated or already filled {:?}", idx);
     self.inc_nodes.fill_back_untyped(idx, data);
     self.alloc_nodes.swap_remove(&idx);
   }
-- 
2.43.0


From a4bb9bb5e12c98a2ad5da0f3c0f13657faba84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 21/25] fix: check the type in fill_back_untyped if the index
 is allocated with a type

---
 ttgraph_macros/src/cate_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 20dc969..45e699e 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -358,6 +358,9 @@ pub(crate) fn make_cate_arena(
           panic!("Fillback an occupied index {:?}", i);
         }
         let d = ttgraph::Discriminated::discriminant(&item);
+        if self.dispatch(i).map_or(false, |x| x != d) {
+          panic!("Fillback with incompatible type: found{:?} expect{:?}", d, self.dispatch(i));
+        }
         self._dispatcher.insert(i, d);
         if self.get_container_mut(d).insert(i.0, item).is_some() {
           panic!("Fillback an occupied index {:?}", i);
-- 
2.43.0


From 8035d3b79c9f90a71f6dede1cab6813333894105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 22/25] fix: refuse nodes whose index is already occupied

---
 src/typed_graph.rs             | 1 +
 src/typed_graph/transaction.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index fee8df2..1dcf2de 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -523,6 +523,7 @@ where
   fn do_commit(&mut self, t: Transaction<NodeT, Arena>) -> LinkChangeRecorder<NodeT> {
     assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
     assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
+    assert!(t.inc_nodes.iter().all(|(x, _)| !self.nodes.contains(x)), "Insert a node under an occupied index");
 
     let mut lcr = LinkChangeRecorder::default();
 
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 387ee46..90027ca 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -501,6 +501,7 @@ where
   /// ```
   pub fn merge(&mut self, graph: Graph<NodeT, Arena>) {
     assert!(self.ctx_id == graph.ctx_id);
+    assert!(graph.nodes.iter().all(|(x, _)| !self.inc_nodes.contains(x)), "Merge a node under an occupied index");
     self.inc_nodes.merge(graph.nodes);
   }
 
-- 
2.43.0


From 194a61f5b4d4c769d09b5f9c5c4166896840f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 23/25] fix: enforce every link_type annotation of a link

---
 ttgraph_macros/src/link_check.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..729a12d 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::{btree_map::Entry, BTreeMap};
 
 use proc_macro2::TokenStream;
 use quote::quote;
@@ -73,7 +73,7 @@ pub(crate) fn make_check_link_type(
   vars: &[(Ident, Type)], annotations: Vec<TypeAnnotation>, groups: &[NamedGroup],
 ) -> TokenStream {
   let mut arms = Vec::new();
-  let mut anno_map: BTreeMap<Ident, BTreeSet<(Ident, Vec<Ident>)>> = BTreeMap::new();
+  let mut anno_map: BTreeMap<Ident, BTreeMap<Ident, Vec<Ident>>> = BTreeMap::new();
   let mut group_map: BTreeMap<Ident, Vec<Ident>> = BTreeMap::new();
   for NamedGroup { name, idents } in groups {
     group_map.insert(name.clone(), idents.clone());
@@ -81,7 +81,13 @@ pub(crate) fn make_check_link_type(
   let annotations = expand_group(annotations, &group_map);
   for TypeAnnotation { var, link, var2 } in annotations {
     let camel = upper_camel(&link);
-    anno_map.entry(var.clone()).or_default().insert((camel, var2));
+    // A link annotated more than once has to obey all its annotations
+    match anno_map.entry(var.clone()).or_default().entry(camel) {
+      Entry::Vacant(e) => {
+        e.insert(var2);
+      },
+      Entry::Occupied(mut e) => e.get_mut().retain(|x| var2.contains(x)),
+    }
   }
   for (var, ty) in vars {
     if let Some(vs) = anno_map.get(var) {
@@ -90,13 +96,13 @@ pub(crate) fn make_check_link_type(
         let mut var2_arms = Vec::new();
         let mut expect = Vec::new();
         for v2 in var2 {
-          var2_arms.push(quote! {Self::Discriminant::#v2});
+          var2_arms.push(quote! {Self::Discriminant::#v2 => Ok(()),});
           expect.push(quote! {Self::Discriminant::#v2});
         }
 
         link_arms.push(quote! {
           <#ty as TypedNode>::LoGMirror::#link => match target {
-            #(#var2_arms)|* => Ok(()),
+            #(#var2_arms)*
             other => Err(ttgraph::LinkTypeError{
               link,
               expect: &[#(#expect),*],
-- 
2.43.0


From bd2e6138c2bc82403bc969f673a63dbdc4ec7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 24/25] fix: find data fields of tuple, array and reference
 types by name

---
 ttgraph_macros/src/lib.rs        | 4 +++-
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..d5dd078 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -215,8 +215,10 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
       } else {
-        data.push((ident.clone(), p.clone()));
+        data.push((ident.clone(), f.ty.clone()));
       }
+    } else {
+      data.push((ident.clone(), f.ty.clone()));
     }
     let mut have_group = false;
     for attr in &f.attrs {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..aa008e4 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 419ba9fb6f2149ac2ed650aee9ee4c89ad0a5a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 25/25] fix: keep groups and links aligned if a field has
 several group attributes

---
 ttgraph_macros/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d5dd078..bc19d31 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -220,7 +220,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
     } else {
       data.push((ident.clone(), f.ty.clone()));
     }
-    let mut have_group = false;
+    let mut field_groups = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
         let mut cur_group = Vec::new();
@@ -240,14 +240,14 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
           for g in &cur_group {
             group_map.entry(g.clone()).or_default().push(ident.clone());
           }
-          groups.push(cur_group);
+          field_groups.extend(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    // Exactly one entry for each link, regardless of the number of its group attributes
+    if is_link {
+      groups.push(field_groups);
     }
   }
   if links.is_empty() {
-- 
2.43.0

