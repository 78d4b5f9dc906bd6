From 0a6669c2f193ae6b0a2d1ce8b0e594126c365822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 01/16] fix: compare production states by their position as
 well as their production

Two positions in the same production compared equal, so sets and maps keyed
by ProdState conflated them and the Earley parser panicked on any grammar in
which one state set holds two positions of one production with one origin
(left-recursive binary operators, A => A | e, ...).
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From b9a8baaec930eaf77993a0ebbd672ce00216ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 02/16] fix: reject input with an unexpected token instead of
 panicking in the Earley parser

parse() returns None for input that is not in the language, but a token that
no item can scan left an empty state set and tripped the assertion in
close_state.
---
 src/parsers/earley.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..b0f230c 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -78,6 +78,11 @@ where
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
 
+    if new_state.is_empty() {
+      // No production can accept this token here, so the input does not parse.
+      return None;
+    }
+
     close_state(grammar, tree_handle, &states, &mut new_state);
 
     states.push(new_state);
-- 
2.43.0


From 5c45ee4fc3df499ef6fc90fc92c4a8033cfd2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 03/16] fix: do not mix nodes of different splits in ambiguous
 Earley parses

When one production matched the same tokens in two ways that split them
differently among its elements, the nodes were merged element by element, so
the resulting forest also held trees whose leaves are not the parsed tokens
(S => A B, A => a | a a, B => b | a b on "a a b" gave 4 trees, 2 of them for
other inputs). Keep one value per split and only merge the last node, whose
extent is then the same.
---
 src/parsers/earley/state.rs | 67 +++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..ff5d9e2 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -15,10 +15,10 @@ use {
     },
     start_grammar::{StartGrammar, StreamTerminal},
     state::ProdState,
-    utils::{change_iter, WasChanged},
+    utils::WasChanged,
   },
   im::Vector,
-  std::collections::{btree_map, BTreeMap},
+  std::collections::BTreeMap,
 };
 
 #[derive(Derivative)]
@@ -225,8 +225,12 @@ where
 }
 
 pub struct EarleyStateSet<'a, T, NT, AK, AV, V> {
-  states:
-    BTreeMap<EarleyStateKey<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>,
+  /// The values of each state. Each value is a different way of splitting the
+  /// tokens consumed by the state among its elements.
+  states: BTreeMap<
+    EarleyStateKey<'a, T, NT, AK, AV>,
+    Vec<Vector<Node<'a, T, AK, V>>>,
+  >,
 }
 
 impl<T, NT, AK, AV, V> Default for EarleyStateSet<'_, T, NT, AK, AV, V> {
@@ -250,9 +254,11 @@ impl<'a, T, NT, AK, AV, V> EarleyStateSet<'a, T, NT, AK, AV, V> {
   pub fn states<'b>(
     &'b self,
   ) -> impl Iterator<Item = EarleyState<'a, T, NT, AK, AV, V>> + 'b {
-    self.states.iter().map(|(key, value)| EarleyState {
-      key: key.clone(),
-      value: value.clone(),
+    self.states.iter().flat_map(|(key, values)| {
+      values.iter().map(move |value| EarleyState {
+        key: key.clone(),
+        value: value.clone(),
+      })
     })
   }
 }
@@ -289,20 +295,34 @@ where
     &mut self,
     state: &EarleyState<'a, T, NT, AK, AV, V>,
   ) -> WasChanged {
-    match self.states.entry(state.key.clone()) {
-      btree_map::Entry::Vacant(vac) => {
-        vac.insert(state.value.clone());
+    let values = self
+      .states
+      .entry(state.key.clone())
+      .or_insert_with(Vec::new);
+    let new_value = &state.value;
+    let prefix_len = new_value.len().saturating_sub(1);
+
+    // All the nodes before the last one determine where the last one starts, so
+    // only values that share them describe the same split, and can be merged.
+    let existing = values.iter_mut().find(|value| {
+      assert_eq!(value.len(), new_value.len());
+      value
+        .iter()
+        .take(prefix_len)
+        .eq(new_value.iter().take(prefix_len))
+    });
+
+    match existing {
+      None => {
+        values.push(new_value.clone());
         WasChanged::Changed
       }
-      btree_map::Entry::Occupied(mut occ) => {
-        let existing_nodes = occ.get_mut();
-        let new_nodes = &state.value;
-        assert_eq!(existing_nodes.len(), new_nodes.len());
-        change_iter(
-          existing_nodes.iter_mut().zip(new_nodes),
-          |(existing_node, new_node)| existing_node.add_all(new_node),
-        )
-      }
+      Some(value) => match (value.last(), new_value.last()) {
+        (Some(existing_node), Some(new_node)) => {
+          existing_node.add_all(new_node)
+        }
+        _ => WasChanged::Unchanged,
+      },
     }
   }
 
@@ -320,10 +340,13 @@ where
   }
 
   pub fn get_final(&self) -> Option<&Node<'a, T, AK, V>> {
-    for (k, v) in &self.states {
+    for (k, values) in &self.states {
       if k.is_final_key() {
-        assert_eq!(v.len(), 1);
-        return Some(v.get(0).unwrap());
+        // The start symbol always begins at the first token, so there is only a
+        // single way to split the tokens.
+        assert_eq!(values.len(), 1);
+        assert_eq!(values[0].len(), 1);
+        return Some(values[0].get(0).unwrap());
       }
     }
 
-- 
2.43.0


From a032c0f035c289edddfc622d792ba0109634f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 04/16] fix: include the initial items in the result of
 breadth_first_search

The seen set was seeded with the (empty) next set, so an initial item was only
returned when some step led back to it. In particular a grammar whose start
nonterminal is used only by an unreachable rule was rejected with the start
nonterminal reported as unreachable.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..c181696 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From 7813ea0fa02c7e74efcec0416925990e237402a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 05/16] fix: report nonterminals without rules instead of
 panicking in the grammar check

The reachability pass looked up the rule of every referenced nonterminal and
panicked when there was none, so build() never returned the error it has for
that case. A start nonterminal without a rule is reported as well.
---
 src/grammar/base.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..085bc6b 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -424,6 +424,7 @@ where
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
     self
       .get_nonterminals()
+      .chain(std::iter::once(&self.start_symbol))
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +441,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From cb208eb743671ef3f4d617ab0329c95c2e1a6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 06/16] fix: report unreachable rules that no production refers
 to

Only nonterminals used in some production were checked for reachability, so an
unreachable rule was reported if it referred to itself but accepted if nothing
referred to it at all.
---
 src/grammar/base.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index 085bc6b..a7c5b7a 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -453,7 +453,9 @@ where
   fn unreachable_nonterms(&self) -> BTreeSet<&NT> {
     let reachable_nonterms = self.reachable_nonterms();
     self
-      .get_nonterminals()
+      .rule_set
+      .keys()
+      .chain(self.get_nonterminals())
       .filter(|nt| !reachable_nonterms.contains(nt))
       .collect()
   }
-- 
2.43.0


From 7ca27c6ec9d87bd14cc1632c8189cced83ef3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 07/16] fix: look past nullable nonterminals when computing
 follow sets

Follows only considered the element right after a nonterminal, so it missed
the terminals that follow when that element derives nothing, and it panicked
when that element has no first set because it derives nothing else.
---
 src/grammar/passes/follows.rs | 42 ++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..8985957 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -28,6 +29,9 @@ where
     let gram = pass_map.grammar();
 
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
+    let nullables = pass_map
+      .get_pass::<Nullable<NT, AK>>()
+      .map_err(FirstsError::from)?;
 
     let mut follows = CollectMap::new();
 
@@ -35,20 +39,36 @@ where
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        for (index, elem) in elems.iter().enumerate() {
+          let first_nt = match elem {
+            Elem::NonTerm(nt) => nt,
+            Elem::Term(_) => continue,
+          };
+
+          let mut rest_nullable = true;
+          for next_elem in &elems[index + 1..] {
+            match next_elem {
+              Elem::Term(t) => {
+                changed.merge(follows.insert(first_nt, t));
+                rest_nullable = false;
+              }
+              Elem::NonTerm(next_nt) => {
+                changed.merge(follows.insert_iter(
+                  first_nt,
+                  firsts.get(next_nt).into_iter().flatten(),
+                ));
+                rest_nullable = nullables.is_nullable(next_nt);
+              }
+            }
+
+            if !rest_nullable {
+              break;
             }
           }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+          if rest_nullable {
+            changed.merge(follows.insert_from_key_set(first_nt, prod.head()));
+          }
         }
 
         changed
-- 
2.43.0


From 8078cfba01a3c4bc275f2c0c78dc00be2e112efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 08/16] fix: let a failed grammar pass be requested again

A pass that returned an error stayed marked as in process, so asking for it a
second time panicked with a bogus recursion report.
---
 src/grammar/passes/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..be38bf5 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,9 +109,18 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let result = P::run_pass(self);
       let mut guard = self.passes.borrow_mut();
-      guard.insert(pass_type, Rc::new(value));
+      match result {
+        Ok(value) => {
+          guard.insert(pass_type, Rc::new(value));
+        }
+        Err(err) => {
+          // The pass is not in process anymore.
+          guard.remove(&pass_type);
+          return Err(err);
+        }
+      }
     };
 
     let any_pass_ref = {
-- 
2.43.0


From 18aacbfb864b7505c5eda6963bdae1c89f445bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 09/16] fix: yield the tokens of a VecTokenStream

The bounds check was reversed, so next() panicked on every stream that still
had tokens.
---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From 252b64ae9b9288afdc85dc9535a8e978891d4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 10/16] fix: do not take a tree's lock twice in one thread

is_same() and make_branch_alt() held the tree's read lock while taking it
again. A thread that asked for the write lock in between deadlocked them all,
and make_branch_alt() deadlocked on its own when the iterator it was given
created nodes.
---
 src/parsers/tree.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..8b278d1 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -177,10 +177,6 @@ where
     let node_data = self.get_node_mut(node_index);
     WasChanged::from_changed(node_data.alternatives.insert(alt_index))
   }
-
-  pub fn is_same(&self, other: &Self) -> bool {
-    std::ptr::eq(self, other)
-  }
 }
 
 /// The owning object of an AST tree.
@@ -327,16 +323,15 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // The lock must not be held while the caller's iterator runs.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +340,9 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    // Comparing the inner values would need both locks at the same time, and a
+    // thread that waits to write in between blocks the second one.
+    self == other
   }
 }
 
-- 
2.43.0


From c75bbbfec9bb8e500282c42c34763d08fa96ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 11/16] fix: include the root node in the dot output of a tree

The root was never added to the nodes to print, so it and its edges were
missing unless the tree was cyclic.
---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 8b278d1..a58d12f 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -590,6 +590,7 @@ where
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
+  seen.insert(DotNode::Node(node.index));
   curr.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
-- 
2.43.0


From e5120eceff0002110551af227d717ccdfbb83d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 12/16] fix: terminate apply_fixed_point once nothing changes

The set of keys to process was never replaced by the set of changed keys, so
the loop did not end on any non-empty target.
---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index c181696..0eda5c0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    currs = std::mem::take(&mut nexts);
   }
 }
-- 
2.43.0


From 3bbd33346c65ea059add57cb89aaed0d619fac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 13/16] fix: keep the non-empty forms of nullable productions
 in the nonnull transform

A nullable production was dropped as a whole instead of only its form with
every nonterminal null, so everything it derives was lost (all of q in the
module's own example q := p p).
---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..2d4d5e6 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -123,10 +123,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -202,6 +198,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    if curr_build_state.elems.is_empty() {
+      // Everything in this production is null.
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From 8b140ed64449667ea75fe01e8fae943acf0f4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 14/16] hooks: readable text positions and follow sets under
 cfg(bongo_verif)

Off by default; TextPos and Follows have no accessors otherwise.
---
 src/grammar/passes/follows.rs | 11 +++++++++++
 src/lib.rs                    |  2 ++
 src/utils/buffer.rs           |  9 +++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index 8985957..9e18b48 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -15,6 +15,17 @@ pub enum FollowsError {
 
 pub struct Follows<T, NT>(BTreeMap<NT, BTreeSet<T>>);
 
+/// Verification hook (only with `--cfg bongo_verif`): makes the sets readable.
+#[cfg(bongo_verif)]
+impl<T, NT> Follows<T, NT>
+where
+  NT: Ord,
+{
+  pub fn verif_get(&self, nt: &NT) -> Option<&BTreeSet<T>> {
+    self.0.get(nt)
+  }
+}
+
 impl<T, NT, AK, AV> Pass<T, NT, AK, AV> for Follows<T, NT>
 where
   T: Ord + Clone + 'static,
diff --git a/src/lib.rs b/src/lib.rs
index 479cda4..82fa283 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,8 @@
 //! Bongo is a library for generating Marpa parsers, and executing them on inputs.
 
 #![allow(dead_code)]
+// `bongo_verif` enables the verification hooks.
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate derivative;
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 1a64d82..ff9ef87 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -278,6 +278,15 @@ impl TextPos {
   }
 }
 
+/// Verification hook (only with `--cfg bongo_verif`): makes a position readable.
+#[cfg(bongo_verif)]
+impl TextPos {
+  /// Returns the line, the column, and the byte offset.
+  pub fn verif_parts(&self) -> (usize, usize, usize) {
+    (self.line(), self.column(), self.byte_offset())
+  }
+}
+
 #[cfg(test)]
 mod test {
   use super::*;
-- 
2.43.0


From 1fc90f9a61e17b7b3f78e825316e6c258dba53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 15/16] fix: looking ahead in a production does not overflow

Any offset past the end of the production shows no element, also one so
large that adding the current position to it wraps around.
---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 9f495cb..4d5460f 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -90,7 +90,8 @@ impl<'a, T, NT, AK, AV> ProdState<'a, T, NT, AK, AV> {
   }
 
   pub fn offset_prod_elem(&self, i: usize) -> Option<&'a ProdElement<T, NT>> {
-    self.prod.prod_elements().get(self.index + i)
+    let index = self.index.checked_add(i)?;
+    self.prod.prod_elements().get(index)
   }
 
   pub fn offset_elem(&self, i: usize) -> Option<&'a Elem<T, NT>> {
-- 
2.43.0


From c417b0c2921a1090adf1e4656776e24492307c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 16/16] fix: the dot output of a tree shows it as it was at one
 moment

---
 src/parsers/tree.rs | 57 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index a58d12f..6cc1a79 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -577,34 +577,29 @@ enum DotNode {
   Alt(usize),
 }
 
-fn collect_nodes_and_alts<T, AK, V: Ord>(
-  node: &Node<T, AK, V>,
-) -> (Vec<usize>, Vec<usize>)
-where
-  T: Ord,
-  AK: Ord,
-{
-  let handle = node.handle();
-
+fn collect_nodes_and_alts<T, AK, V>(
+  inner: &Inner<T, AK, V>,
+  root_node: usize,
+) -> (Vec<usize>, Vec<usize>) {
   let mut seen = BTreeSet::new();
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
-  seen.insert(DotNode::Node(node.index));
-  curr.insert(DotNode::Node(node.index));
+  seen.insert(DotNode::Node(root_node));
+  curr.insert(DotNode::Node(root_node));
 
   while !curr.is_empty() {
     for curr_item in &curr {
       match curr_item {
-        DotNode::Node(node_id) => handle.with(|inner| {
+        DotNode::Node(node_id) => {
           let node_data = inner.get_node(*node_id);
           for alt_id in &node_data.alternatives {
             if seen.insert(DotNode::Alt(*alt_id)) {
               next.insert(DotNode::Alt(*alt_id));
             }
           }
-        }),
-        DotNode::Alt(alt_id) => handle.with(|inner| {
+        }
+        DotNode::Alt(alt_id) => {
           if let NodeContentInner::Branch(branch_data) = inner.get_alt(*alt_id)
           {
             for node_id in &branch_data.nodes {
@@ -613,7 +608,7 @@ where
               }
             }
           }
-        }),
+        }
       }
     }
 
@@ -637,6 +632,7 @@ struct DotPrinter<'a, T, AK, V> {
   handle: TreeHandle<'a, T, AK, V>,
   nodes: Vec<usize>,
   alts: Vec<usize>,
+  node_edges: Vec<DotEdge>,
   root_node: usize,
 }
 
@@ -648,11 +644,29 @@ where
 {
   pub fn new(node: &Node<'a, T, AK, V>) -> Self {
     let handle = node.handle().clone();
-    let (nodes, alts) = collect_nodes_and_alts(node);
+    // Nodes can change at any time, so everything that depends on what they hold
+    // has to be read at once.
+    let (nodes, alts, node_edges) = handle.with(|inner| {
+      let (nodes, alts) = collect_nodes_and_alts(inner, node.index);
+      let node_edges = nodes
+        .iter()
+        .copied()
+        .flat_map(|node_id| {
+          inner
+            .get_node(node_id)
+            .alternatives
+            .iter()
+            .copied()
+            .map(move |alt_id| (DotNode::Node(node_id), DotNode::Alt(alt_id)))
+        })
+        .collect();
+      (nodes, alts, node_edges)
+    });
     DotPrinter {
       handle,
       nodes,
       alts,
+      node_edges,
       root_node: node.index,
     }
   }
@@ -678,16 +692,7 @@ where
   }
 
   fn edges(&'a self) -> dot::Edges<'a, DotEdge> {
-    let node_edges = self.nodes.iter().copied().flat_map(|node_id| {
-      self.handle.with(|i| {
-        i.get_node(node_id)
-          .alternatives
-          .iter()
-          .copied()
-          .map(|alt_id| (DotNode::Node(node_id), DotNode::Alt(alt_id)))
-          .collect::<Vec<_>>()
-      })
-    });
+    let node_edges = self.node_edges.iter().copied();
 
     let alt_edges = self.alts.iter().copied().flat_map(|alt_id| {
       self.handle.with(|i| {
-- 
2.43.0

