From f4543b2b63615ff255e0e1cd77d2583c1209dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 01/27] fix: keep the RHS length limit in Cfg::extend

---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..96a6923 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in &other.rules {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From 2adbab8dbaf4777faf3ae38d050472a525ad1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:27 +0000
Subject: [PATCH 02/27] fix: make_proper removes all useless rules, not only
 those useless at first

---
 cfg-classify/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg-classify/src/lib.rs b/cfg-classify/src/lib.rs
index 63fd48d..a9c5eca 100644
--- a/cfg-classify/src/lib.rs
+++ b/cfg-classify/src/lib.rs
@@ -79,15 +79,17 @@ impl CfgClassifyExt for Cfg {
     }
 
     fn make_proper(&mut self) -> bool {
-        let usefulness = self.usefulness();
+        let mut usefulness = self.usefulness();
         let contains_useless_rules = !usefulness.all_useful();
-        if contains_useless_rules {
+        // Removing unproductive rules may leave other rules unreachable.
+        while !usefulness.all_useful() {
             // for useless in usefulness.useless_rules() {
             //     let rhs: Vec<_> = useless.rule.rhs().iter().map(|t| tok.get(t.usize())).collect();
             //     println!("lhs:{:?} rhs:{:?} unreachable:{} unproductive:{}", tok.get(useless.rule.lhs().usize()), rhs, useless.unreachable, useless.unproductive);
             // }
             // println!("warning: grammar has useless rules");
             usefulness.remove_useless_rules(self);
+            usefulness = self.usefulness();
         }
         !contains_useless_rules
     }
-- 
2.43.0


From ff05c362a1fc57f9fc8572ecf17e3f547b5b9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 03/27] fix: rewrite_cycles translates the roots along with the
 rules

---
 cfg-classify/src/cyclical.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..9e09d89 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, BorrowMut};
 use std::collections::BTreeMap;
 
 use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
-use cfg_symbol::SymbolSource;
+use cfg_symbol::{Symbol, SymbolSource};
 use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, UnitDerivationMatrix};
 
 /// Provides information about cycles among unit derivations in the grammar. There are two ways of
@@ -126,6 +126,19 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // The rewritten symbols no longer derive anything. Roots have to follow.
+            let translate = |sym: Symbol| match translation.get(&sym) {
+                Some(&Some(new_sym)) => new_sym,
+                _ => sym,
+            };
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
+            grammar.set_roots(&roots[..]);
+            let mut wrapped_roots = grammar.wrapped_roots().to_vec();
+            for wrapped_root in &mut wrapped_roots {
+                wrapped_root.inner_root = translate(wrapped_root.inner_root);
+            }
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From 1cf62cceed47959043c928770437776b1c6ffd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 04/27] fix: backward minimal distances are stored at the right
 dot positions

---
 cfg-predict-distance/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..69cd635 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -162,11 +162,12 @@ impl<'a> MinimalDistance<'a> {
         direction: DistanceDirection,
     ) {
         if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
+            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, 0, false);
             set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
+            let (min, _) =
+                self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, dot_pos, true);
             set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
     }
@@ -180,38 +181,39 @@ impl<'a> MinimalDistance<'a> {
             for (idx, rule) in self.grammar.rules().enumerate() {
                 if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
                     let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
+                        self.update_rule_distances(distance, &rule.rhs[..], idx, 0, false);
                     changed |= changed_now;
                 }
                 if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
                     let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
+                        self.update_rule_distances(distance, &rule.rhs[..], idx, 0, true);
                     changed |= changed_now;
                 }
             }
         }
     }
 
-    // Update distances in a rule.
+    // Update distances in a rule. The slice `rhs` begins at the dot position `first_dot`.
     fn update_rule_distances(
         &mut self,
         mut cur: u32,
         rhs: &[Symbol],
         idx: usize,
+        first_dot: usize,
         reverse: bool,
     ) -> (u32, bool) {
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][dot], cur);
+                set_min(&mut self.distances[idx][first_dot + dot], cur);
                 cur = self.update_sym_distance(cur, sym, true);
             }
-            rhs.len()
+            first_dot + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
+                set_min(&mut self.distances[idx][first_dot + dot + 1], cur);
                 cur = self.update_sym_distance(cur, sym, false);
             }
-            0
+            first_dot
         };
         let changed = set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
-- 
2.43.0


From cac1ebf709c657f1755b7b0d526a0613a5cbc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:58 +0000
Subject: [PATCH 05/27] fix: minimal distances cross predictions transitively

---
 cfg-predict-distance/src/lib.rs | 63 ++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 69cd635..573ccd7 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -149,7 +149,26 @@ impl<'a> MinimalDistance<'a> {
         for (idx, rule) in self.grammar.rules().enumerate() {
             for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
                 debug_assert_eq!(idx, _rule_idx);
-                self.immediate_process_dot(idx, rule, dot_pos, direction);
+                self.immediate_process_dot(idx, rule, dot_pos, 0, direction);
+            }
+        }
+        // Calculates distances that cross predictions, by going from the beginning
+        // (or end) of a rule to the places where its LHS is predicted.
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (idx, rule) in self.grammar.rules().enumerate() {
+                for (pos, &sym) in rule.rhs.iter().enumerate() {
+                    if let Some(distance) = self.forward_distances.before[sym.usize()] {
+                        let direction = DistanceDirection::Forward;
+                        changed |= self.immediate_process_dot(idx, rule, pos, distance, direction);
+                    }
+                    if let Some(distance) = self.backward_distances.before[sym.usize()] {
+                        let direction = DistanceDirection::Backward;
+                        changed |=
+                            self.immediate_process_dot(idx, rule, pos + 1, distance, direction);
+                    }
+                }
             }
         }
     }
@@ -159,17 +178,26 @@ impl<'a> MinimalDistance<'a> {
         rule_idx: usize,
         rule: &CfgRule,
         dot_pos: usize,
+        distance: u32,
         direction: DistanceDirection,
-    ) {
+    ) -> bool {
+        let mut changed = false;
         if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, 0, false);
-            set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
+            let (min, _) =
+                self.update_rule_distances(distance, &rule.rhs[..dot_pos], rule_idx, 0, false);
+            changed |= set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
-            let (min, _) =
-                self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, dot_pos, true);
-            set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
+            let (min, _) = self.update_rule_distances(
+                distance,
+                &rule.rhs[dot_pos..],
+                rule_idx,
+                dot_pos,
+                true,
+            );
+            changed |= set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
+        changed
     }
 
     /// Calculates lengths of shortest paths that cross transitions (predictions and completions).
@@ -202,33 +230,35 @@ impl<'a> MinimalDistance<'a> {
         first_dot: usize,
         reverse: bool,
     ) -> (u32, bool) {
+        let mut changed = false;
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
                 set_min(&mut self.distances[idx][first_dot + dot], cur);
-                cur = self.update_sym_distance(cur, sym, true);
+                changed |= self.update_sym_distance(&mut cur, sym, true);
             }
             first_dot + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
                 set_min(&mut self.distances[idx][first_dot + dot + 1], cur);
-                cur = self.update_sym_distance(cur, sym, false);
+                changed |= self.update_sym_distance(&mut cur, sym, false);
             }
             first_dot
         };
-        let changed = set_min(&mut self.distances[idx][last], cur);
+        set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
     }
 
-    fn update_sym_distance(&mut self, mut cur: u32, sym: Symbol, reverse: bool) -> u32 {
-        set_min(
+    // Returns whether the distance after the symbol was lowered.
+    fn update_sym_distance(&mut self, cur: &mut u32, sym: Symbol, reverse: bool) -> bool {
+        let changed = set_min(
             if reverse {
                 &mut self.backward_distances.after[sym.usize()]
             } else {
                 &mut self.forward_distances.after[sym.usize()]
             },
-            cur,
+            *cur,
         );
-        cur += self.min_length[sym.usize()].unwrap();
+        *cur += self.min_length[sym.usize()].unwrap();
         if let Some(sym_predicted) = if reverse {
             &self.backward_distances
         } else {
@@ -236,10 +266,9 @@ impl<'a> MinimalDistance<'a> {
         }
         .before[sym.usize()]
         {
-            cur.min(sym_predicted)
-        } else {
-            cur
+            *cur = sym_predicted.min(*cur);
         }
+        changed
     }
 }
 
-- 
2.43.0


From 32b4cf8929b0e4aa752ebd9bcc2b5b8290bf50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 06/27] fix: minimal distances no longer panic on unproductive
 symbols

---
 cfg-predict-distance/src/lib.rs | 60 ++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 573ccd7..0c70015 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -185,7 +185,9 @@ impl<'a> MinimalDistance<'a> {
         if direction.includes_forward() {
             let (min, _) =
                 self.update_rule_distances(distance, &rule.rhs[..dot_pos], rule_idx, 0, false);
-            changed |= set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
+            changed |= min.is_some_and(|min| {
+                set_min(&mut self.forward_distances.before[rule.lhs.usize()], min)
+            });
         }
         if direction.includes_backward() {
             let (min, _) = self.update_rule_distances(
@@ -195,7 +197,9 @@ impl<'a> MinimalDistance<'a> {
                 dot_pos,
                 true,
             );
-            changed |= set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
+            changed |= min.is_some_and(|min| {
+                set_min(&mut self.backward_distances.before[rule.lhs.usize()], min)
+            });
         }
         changed
     }
@@ -221,7 +225,8 @@ impl<'a> MinimalDistance<'a> {
         }
     }
 
-    // Update distances in a rule. The slice `rhs` begins at the dot position `first_dot`.
+    // Update distances in a rule, up to a symbol that cannot be crossed because
+    // it's unproductive. The slice `rhs` begins at the dot position `first_dot`.
     fn update_rule_distances(
         &mut self,
         mut cur: u32,
@@ -229,46 +234,47 @@ impl<'a> MinimalDistance<'a> {
         idx: usize,
         first_dot: usize,
         reverse: bool,
-    ) -> (u32, bool) {
+    ) -> (Option<u32>, bool) {
         let mut changed = false;
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
                 set_min(&mut self.distances[idx][first_dot + dot], cur);
-                changed |= self.update_sym_distance(&mut cur, sym, true);
+                let (next, changed_now) = self.update_sym_distance(cur, sym, true);
+                changed |= changed_now;
+                match next {
+                    Some(next) => cur = next,
+                    None => return (None, changed),
+                }
             }
             first_dot + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
                 set_min(&mut self.distances[idx][first_dot + dot + 1], cur);
-                changed |= self.update_sym_distance(&mut cur, sym, false);
+                let (next, changed_now) = self.update_sym_distance(cur, sym, false);
+                changed |= changed_now;
+                match next {
+                    Some(next) => cur = next,
+                    None => return (None, changed),
+                }
             }
             first_dot
         };
         set_min(&mut self.distances[idx][last], cur);
-        (cur, changed)
+        (Some(cur), changed)
     }
 
-    // Returns whether the distance after the symbol was lowered.
-    fn update_sym_distance(&mut self, cur: &mut u32, sym: Symbol, reverse: bool) -> bool {
-        let changed = set_min(
-            if reverse {
-                &mut self.backward_distances.after[sym.usize()]
-            } else {
-                &mut self.forward_distances.after[sym.usize()]
-            },
-            *cur,
-        );
-        *cur += self.min_length[sym.usize()].unwrap();
-        if let Some(sym_predicted) = if reverse {
-            &self.backward_distances
+    // Returns the distance before the symbol, and whether the distance after
+    // the symbol was lowered.
+    fn update_sym_distance(&mut self, cur: u32, sym: Symbol, reverse: bool) -> (Option<u32>, bool) {
+        let distances = if reverse {
+            &mut self.backward_distances
         } else {
-            &self.forward_distances
-        }
-        .before[sym.usize()]
-        {
-            *cur = sym_predicted.min(*cur);
-        }
-        changed
+            &mut self.forward_distances
+        };
+        let changed = set_min(&mut distances.after[sym.usize()], cur);
+        let crossed = self.min_length[sym.usize()].map(|length| cur + length);
+        let predicted = distances.before[sym.usize()];
+        (crossed.into_iter().chain(predicted).min(), changed)
     }
 }
 
-- 
2.43.0


From dd92e1f80c92ee68721b0517cb388d45492c8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 07/27] fix: first_set_for_string continues past every nullable
 symbol

---
 cfg-predict-sets/src/first.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..326141c 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -50,23 +50,27 @@ impl FirstSets {
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
         let mut result = vec![];
+        let mut has_none = true;
         for &sym in string {
             if self.terminal_set[sym] {
                 result.push(sym);
-                break;
+                has_none = false;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
-                }
+                result.extend(first_set.list.iter().copied());
+                has_none = first_set.has_none;
+            }
+            if !has_none {
+                break;
             }
         }
+        result.sort_unstable();
+        result.dedup();
         PerSymbolSetVal {
-            has_none: result.is_empty(),
+            has_none,
             list: result,
         }
     }
-- 
2.43.0


From ec54aec6191f0187a7fe12bed5d349c336b3b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 08/27] fix: FOLLOW sets propagate the end of input

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..aa45168 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -57,6 +57,7 @@ impl FollowSets {
                         followed.extend(follow_set.iter().cloned());
                         followed.sort_unstable();
                         followed.dedup();
+                        followed.has_none |= follow_set.has_none;
                         changed |= prev_cardinality != followed.len();
 
                         let first_set = first_sets.get(&sym).unwrap();
-- 
2.43.0


From 2993134cb0aeafbd6c7875f71f4862a73e1f6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:42 +0000
Subject: [PATCH 09/27] fix: LL(1) table includes the end of input as a
 lookahead

---
 cfg-classify/src/ll.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfg-classify/src/ll.rs b/cfg-classify/src/ll.rs
index 27dd247..ac3cd68 100644
--- a/cfg-classify/src/ll.rs
+++ b/cfg-classify/src/ll.rs
@@ -16,7 +16,8 @@ pub struct LlParseTable<'a> {
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)]
 struct LlParseTableKey {
     nonterminal: Symbol,
-    terminal: Symbol,
+    /// The lookahead, or `None` for the end of input.
+    terminal: Option<Symbol>,
 }
 
 /// Container for classifying nonterminals as LL(1) or context-free.
@@ -51,14 +52,16 @@ impl<'a> LlParseTable<'a> {
             for &terminal in &rhs_first_set[..] {
                 let key = LlParseTableKey {
                     nonterminal: rule.lhs,
-                    terminal,
+                    terminal: Some(terminal),
                 };
                 let entry = this.map.entry(key).or_default();
                 entry.push(rule_idx);
             }
             if rhs_first_set.has_none() {
                 let lhs_follow_set = follow.predict_sets().get(&rule.lhs).unwrap();
-                for &terminal in &lhs_follow_set[..] {
+                let end_of_input = lhs_follow_set.has_none().then_some(None);
+                let terminals = lhs_follow_set.iter().copied().map(Some);
+                for terminal in terminals.chain(end_of_input) {
                     let key = LlParseTableKey {
                         nonterminal: rule.lhs,
                         terminal,
-- 
2.43.0


From 56acac9ab511122712beb7ec04553d4ca70275f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:36 +0000
Subject: [PATCH 10/27] fix: random generation respects the limit on negative
 rule attempts

The number of attempts was compared to a constant, whatever limit was given.
---
 cfg-generate/src/weighted/random.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..04694e8 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -173,6 +173,7 @@ impl Random for Cfg {
             .collect();
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
+        let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
             if terminal_set[sym] {
@@ -197,7 +198,7 @@ impl Random for Cfg {
                                 .expect("bt.attempt not found");
                             rng.mutate_start(*attempts);
                             *attempts += 1;
-                            if *attempts > 256 * 64 {
+                            if *attempts > max_attempts {
                                 return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                             }
                         }
-- 
2.43.0


From 15dff562babeb8368164e6e226a08848701b2f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 11/27] fix: random generation forgets states of abandoned
 output when backtracking

After backtracking, the states recorded for negative rules in the abandoned
output stayed in force, and the remaining states at the same position were
compared to the already shortened output. The output could then be outside
the language, or generation panicked.
---
 cfg-generate/src/weighted/random.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 04694e8..b3f495d 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -146,6 +146,8 @@ pub struct NegativeRule {
 
 struct BacktrackState<'a, R> {
     forbidden: &'a [char],
+    /// Counts up in order of creation.
+    serial: u64,
     rng: R,
     result_len: usize,
     prev_work: List<Symbol>,
@@ -174,6 +176,7 @@ impl Random for Cfg {
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
         let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
+        let mut next_serial = 0;
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
             if terminal_set[sym] {
@@ -186,6 +189,7 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
+                let mut restored = None;
                 if let Some(back) = backtracking.get_mut(&string.len()) {
                     for state in back.iter_mut() {
                         if string.ends_with(state.forbidden) {
@@ -201,9 +205,17 @@ impl Random for Cfg {
                             if *attempts > max_attempts {
                                 return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                             }
+                            restored = Some(state.serial);
+                            break;
                         }
                     }
                 }
+                if let Some(serial) = restored {
+                    // The states recorded later belong to abandoned output.
+                    for back in backtracking.values_mut() {
+                        back.retain(|state| state.serial <= serial);
+                    }
+                }
             } else if let Some(forbidden) = negative.get(&sym) {
                 // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
                 backtracking
@@ -211,10 +223,12 @@ impl Random for Cfg {
                     .or_default()
                     .push(BacktrackState {
                         forbidden: &forbidden[..],
+                        serial: next_serial,
                         rng: rng.clone(),
                         result_len: result.len(),
                         prev_work: work.clone(),
                     });
+                next_serial += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From 6cbeee55b9535dca0cbe9df553363145d30c516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 12/27] fix: equivalent no longer ignores differing lengths of
 rules and grammars

---
 cfg-grammar/src/compare.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..9a871e5 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,9 +3,9 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
+        let mut eq = self.rules().count() == other.rules().count();
         for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
+            eq = eq && i.lhs == j.lhs && i.rhs == j.rhs;
         }
         eq
     }
-- 
2.43.0


From b0b2d80e4e8f55358245465fdfbba4c648b55d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 13/27] fix: SymbolBitSet::is_empty was inverted

---
 cfg-grammar/src/symbol_bit_set.rs | 4 ++--
 cfg-regexp-macro/src/lib.rs       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..067224d 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -175,9 +175,9 @@ impl SymbolBitSet {
         self.bit_vec.iter().all(|b| b)
     }
 
-    /// Not to be confused with `fn is_empty`.
+    /// Determines whether this set contains no symbols.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        !self.bit_vec.iter().any(|b| b)
     }
 
     /// Reserves space for additional symbols.
diff --git a/cfg-regexp-macro/src/lib.rs b/cfg-regexp-macro/src/lib.rs
index 6e2731d..48574f8 100644
--- a/cfg-regexp-macro/src/lib.rs
+++ b/cfg-regexp-macro/src/lib.rs
@@ -73,7 +73,7 @@ pub fn cfg_regexp(stream: TokenStream) -> TokenStream {
     }
     match Cfg::load_advanced(&code) {
         Ok(advanced_grammar) => {
-            assert!(advanced_grammar.sbs.is_empty());
+            assert!(!advanced_grammar.sbs.is_empty());
             let grammar = process::process(advanced_grammar);
             let serialized = miniserde::json::to_string(&grammar);
             format!(
-- 
2.43.0


From 2bb5d6b9433447b6f395f95750d5a5636c42a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:49 +0000
Subject: [PATCH 14/27] fix: basic loader reports where tokenizing or parsing
 failed, without panicking

---
 cfg-load/src/basic.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..89afc9d 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -51,7 +51,7 @@ enum Value {
 
 struct Evaluator {
     symbols: [Symbol; 13],
-    tokens: Vec<Token>,
+    tokens: Vec<(Token, usize, usize)>,
 }
 
 impl forest::Eval for Evaluator {
@@ -75,7 +75,7 @@ impl forest::Eval for Evaluator {
             rparen,
         ] = self.symbols;
         if terminal == ident {
-            self.tokens[values as usize].ident()
+            self.tokens[values as usize].0.ident()
         } else {
             Value::None
         }
@@ -198,22 +198,27 @@ impl Token {
 }
 
 impl<'a> Lexer<'a> {
-    fn tokenize(bnf: &str) -> Result<Vec<Token>, (usize, usize)> {
+    fn tokenize(bnf: &str) -> Vec<(Token, usize, usize)> {
         let mut lexer = Lexer {
             chars: bnf.chars(),
             line_no: 1,
             col_no: 1,
         };
         let mut result = vec![];
+        let mut line_no = 1;
+        let mut col_no = 1;
         while let Some(token) = lexer.eat_token() {
-            if let Token::Error(line, col) = token {
-                return Err((line, col));
+            if let Token::Error(..) = token {
+                result.push((token, line_no, col_no));
+                return result;
             }
             if token != Token::Whitespace {
-                result.push(token);
+                result.push((token, line_no, col_no));
             }
+            line_no = lexer.line_no;
+            col_no = lexer.col_no;
         }
-        Ok(result)
+        result
     }
 
     fn eat_token(&mut self) -> Option<Token> {
@@ -342,8 +347,8 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
-        for (i, ch) in tokens.iter().enumerate() {
+        let tokens = Lexer::tokenize(bnf);
+        for (i, &(ref ch, line, col)) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
                 Token::Semicolon => semicolon,
@@ -368,8 +373,8 @@ impl CfgLoadExt for Cfg {
             if !success {
                 return Err(LoadError {
                     reason: "parse failed".to_string(),
-                    line: 1,
-                    col: 1,
+                    line: line as u32,
+                    col: col as u32,
                     token: None,
                 });
             }
-- 
2.43.0


From 7c3bf3f010973323cfe14a94fb38ea9ba3208974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:40 +0000
Subject: [PATCH 15/27] fix: LexerMap gives literals exactly their own
 character, and accepts every character

---
 cfg-regexp-logic/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..ad7682c 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -15,13 +15,14 @@ use regex_syntax::hir::{Class, Hir, HirKind};
 
 #[derive(PartialEq, PartialOrd, Eq, Ord, Debug, Clone)]
 pub struct LexerClasses {
+    /// Inclusive ranges of characters.
     set: BTreeSet<(char, char)>,
 }
 
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
         LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
+            set: iter::once((value as char, value as char)).collect(),
         }
     }
 }
@@ -29,7 +30,7 @@ impl From<u8> for LexerClasses {
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
         LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
+            set: iter::once((value, value)).collect(),
         }
     }
 }
@@ -53,11 +54,21 @@ impl From<Class> for LexerClasses {
 }
 
 impl LexerClasses {
+    /// Iterates over the character ranges, each as its first character and
+    /// the character after its last one (or the last one itself,
+    /// if no character follows it.)
     pub fn iter(&self) -> impl Iterator<Item = (char, char)> + use<'_> {
-        self.set.iter().copied()
+        self.set
+            .iter()
+            .map(|&(start, end)| (start, next_char(end).unwrap_or(end)))
     }
 }
 
+/// Returns the character after the given one, skipping surrogates.
+fn next_char(ch: char) -> Option<char> {
+    (ch..=char::MAX).nth(1)
+}
+
 struct Translator {
     cfg: Cfg,
     class_map: LexerMap,
@@ -84,7 +95,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..=(class.1 as u32).min(255) {
                         result[ascii as usize].push(symbol);
                     }
                 }
@@ -95,10 +106,9 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                if let Some(next) = next_char(class.1) {
+                    ranges.entry(next).or_insert(vec![]).push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From ef29bcdd2dc2aeddb102b8f00a03ecf975112b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 16/27] fix: regexp literals are split into characters instead
 of UTF-8 bytes

---
 cfg-regexp-logic/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index ad7682c..d2eaf89 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -178,14 +178,18 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
+                // Characters map to symbols in `LexerMap`, so the literal is split
+                // into characters. The parser only accepts patterns that match UTF-8.
+                for ch in String::from_utf8_lossy(&lit.0).chars() {
                     syms.push(
                         *self
                             .class_map
                             .classes
-                            .entry(byte.into())
+                            .entry(ch.into())
                             .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
+                                let kind = if ch.is_ascii() { "byte" } else { "char" };
+                                self.cfg
+                                    .next_sym(Some(format!("__{}{}", kind, ch as u32).into()))
                             }),
                     );
                 }
-- 
2.43.0


From 5babd25080ad2d54e50ab58b4805e22818c6887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:09 +0000
Subject: [PATCH 17/27] fix: load_advanced accepts a leading lexer block and
 more than one of them

---
 cfg-load/src/advanced.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..b12e0c7 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -180,8 +180,15 @@ impl forest::Eval for Evaluator {
             }
             // start ::= start decl;
             (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            // start ::= start decl;
+            (2, Value::Start(rules, Some(mut lex)), Value::Lex(lex2), ..) => {
+                lex.0.extend(lex2.0);
+                Value::Start(rules, Some(lex))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From bd204e51a38b7a85f8253392ba1a7e9526c2f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:14 +0000
Subject: [PATCH 18/27] fix: load_advanced reports the line and column of
 semantic errors

---
 cfg-load/src/advanced.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index b12e0c7..360ec85 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -624,6 +624,10 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: None,
             });
         };
+        let positions: Vec<(u32, u32)> = tokens
+            .iter()
+            .map(|&(_, line, col)| (line as u32, col as u32))
+            .collect();
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
@@ -659,8 +663,8 @@ impl CfgLoadAdvancedExt for Cfg {
                     if lhs_in_parser.contains(&lhs) {
                         return Err(LoadError {
                             reason: format!("lhs shared between parser and lexer: {}", rule.lhs),
-                            line: rule.span.0 as u32,
-                            col: 1,
+                            line: positions[rule.span.0 - 1].0,
+                            col: positions[rule.span.0 - 1].1,
                             token: None,
                         });
                     }
@@ -682,8 +686,8 @@ impl CfgLoadAdvancedExt for Cfg {
                             if func != "Regexp" {
                                 return Err(LoadError {
                                     reason: format!("expected 'Regexp', found '{}'", func),
-                                    line: span.0 as u32,
-                                    col: 1,
+                                    line: positions[span.0 - 1].0,
+                                    col: positions[span.0 - 1].1,
                                     token: None,
                                 });
                             }
@@ -698,8 +702,8 @@ impl CfgLoadAdvancedExt for Cfg {
                                             "expected Regex(string), found {:?}({:?})",
                                             func, arg
                                         ),
-                                        line: span.0 as u32,
-                                        col: 0,
+                                        line: positions[span.0 - 1].0,
+                                        col: positions[span.0 - 1].1,
                                         token: None,
                                     });
                                 }
@@ -707,8 +711,8 @@ impl CfgLoadAdvancedExt for Cfg {
                                     let (mut regexp_cfg, classes) = Cfg::from_regexp(string)
                                         .map_err(|err| LoadError {
                                             reason: err.to_string(),
-                                            line: span as u32,
-                                            col: 1,
+                                            line: positions[span - 1].0,
+                                            col: positions[span - 1].1,
                                             token: None,
                                         })?;
                                     let mut remap = Remap::new(&mut regexp_cfg);
-- 
2.43.0


From fa90dbbf6f88020bc89b34af444224308a9ced1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 19/27] fix: deserializing an invalid Symbol with nanoserde
 returns an error

---
 cfg-symbol/src/symbol.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg-symbol/src/symbol.rs b/cfg-symbol/src/symbol.rs
index 4436b68..2e7436c 100644
--- a/cfg-symbol/src/symbol.rs
+++ b/cfg-symbol/src/symbol.rs
@@ -132,9 +132,11 @@ mod miniserde_impls {
 #[cfg(feature = "nanoserde")]
 impl nanoserde::DeBin for Symbol<NonZeroU32> {
     fn de_bin(offset: &mut usize, bytes: &[u8]) -> Result<Self, nanoserde::DeBinErr> {
-        Ok(Symbol {
-            n: u32::de_bin(offset, bytes)?.try_into().unwrap(),
-        })
+        let start = *offset;
+        let n = u32::de_bin(offset, bytes)?
+            .try_into()
+            .map_err(|_| nanoserde::DeBinErr::new(start, 4, bytes.len()))?;
+        Ok(Symbol { n })
     }
 }
 
-- 
2.43.0


From 16eea1f04a8320af642352e0348b592527c9c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:58 +0000
Subject: [PATCH 20/27] fix: sequences with bounds above 2^31 no longer
 overflow

---
 cfg-sequence/src/rewrite.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/rewrite.rs b/cfg-sequence/src/rewrite.rs
index c3cea3e..c47168e 100644
--- a/cfg-sequence/src/rewrite.rs
+++ b/cfg-sequence/src/rewrite.rs
@@ -181,7 +181,7 @@ impl<'a> SequencesToProductions<'a> {
             }
             (_, 1, Some(end)) => {
                 // end >= 3
-                let pow2 = end.next_power_of_two() / 2;
+                let pow2 = 1 << (end - 1).ilog2();
                 let (seq1, block, seq2) = (
                     sequence.range(1..=pow2),
                     sequence.range(pow2..=pow2),
@@ -204,7 +204,7 @@ impl<'a> SequencesToProductions<'a> {
                 // to do infinity
                 let (seq1, seq2) = if Some(start) == end {
                     // A "block"
-                    let pow2 = start.next_power_of_two() / 2;
+                    let pow2 = 1 << (start - 1).ilog2();
                     (
                         sequence.range(pow2..=pow2),
                         sequence.range(start - pow2..=start - pow2),
-- 
2.43.0


From 9af1d8ab9fecb5b6ae5ed7dfdd5b73e3d2a581d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:39 +0000
Subject: [PATCH 21/27] fix: dots of binarized rules tell the positions in the
 original rule

---
 cfg-history/src/earley/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index eb6bdf6..0b2138c 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -221,19 +221,21 @@ impl History {
             [none; 3]
         } else {
             if is_top {
-                if full_len == 2 {
+                // A rule of `full_len` symbols has `full_len + 1` dots.
+                if full_len == 1 {
                     [self.at_dot(0), none, self.at_dot(1)]
-                } else if full_len >= 3 {
+                } else if full_len >= 2 {
                     [
                         self.at_dot(0),
-                        self.at_dot(full_len - 2),
                         self.at_dot(full_len - 1),
+                        self.at_dot(full_len),
                     ]
                 } else {
                     [self.at_dot(0), none, none]
                 }
             } else {
-                [none, self.at_dot(full_len - 2 - height as usize), none]
+                // The rule at height 0 begins with the first two symbols.
+                [none, self.at_dot(height as usize + 1), none]
             }
         };
 
-- 
2.43.0


From 6982c6f581a2cacd0a44257c0d9d7fbeb6dffed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:15 +0000
Subject: [PATCH 22/27] fix: rhs_with_history of RuleBuilder overwrites the
 pending history

---
 cfg-grammar/src/rule_builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/rule_builder.rs b/cfg-grammar/src/rule_builder.rs
index cbe46c4..7e6265b 100644
--- a/cfg-grammar/src/rule_builder.rs
+++ b/cfg-grammar/src/rule_builder.rs
@@ -55,10 +55,12 @@ impl<'a> RuleBuilder<'a> {
     }
 
     /// Adds a rule alternative with the given RHS and history to the grammar.
-    pub fn rhs_with_history(self, syms: impl AsRef<[Symbol]>, history: History) -> Self {
+    pub fn rhs_with_history(mut self, syms: impl AsRef<[Symbol]>, history: History) -> Self {
         let lhs = self.lhs.unwrap();
         let rhs = syms.as_ref().into();
         self.grammar.add_rule(CfgRule { lhs, rhs, history });
+        // A pending history is overwritten.
+        self.history = None;
         self
     }
 
-- 
2.43.0


From db6befbc4f68d8a09f8d1e79cd81a4ca69bc63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:39 +0000
Subject: [PATCH 23/27] fix: minimal lengths and distances beyond 32 bits
 saturate instead of overflowing

---
 cfg-grammar/src/cfg.rs          | 4 +++-
 cfg-predict-distance/src/lib.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 96a6923..0857daa 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -609,7 +609,9 @@ impl Cfg {
                 let maybe_work_value = rule
                     .rhs
                     .iter()
-                    .try_fold(0, |acc, elem| value[elem.usize()].map(|val| acc + val));
+                    .try_fold(0u32, |acc, elem| {
+                        value[elem.usize()].map(|val| acc.saturating_add(val))
+                    });
                 if let Some(work_value) = maybe_work_value {
                     if let Some(current_value) = value[rule.lhs.usize()] {
                         if current_value <= work_value {
diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 0c70015..50b652d 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -272,7 +272,7 @@ impl<'a> MinimalDistance<'a> {
             &mut self.forward_distances
         };
         let changed = set_min(&mut distances.after[sym.usize()], cur);
-        let crossed = self.min_length[sym.usize()].map(|length| cur + length);
+        let crossed = self.min_length[sym.usize()].map(|length| cur.saturating_add(length));
         let predicted = distances.before[sym.usize()];
         (crossed.into_iter().chain(predicted).min(), changed)
     }
-- 
2.43.0


From 12132fe9b7380ec00e60583e2df9761990a2ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 24/27] fix: alternatives of weight zero are never picked, even
 at exact boundaries

---
 .../src/weighted/weighted_rhs_by_lhs.rs       | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs b/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
index f9bb179..f335914 100644
--- a/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
+++ b/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
@@ -74,16 +74,17 @@ impl<W: Weight> WeightedRhsByLhs<W> {
             if weighted_rhs_list.rhs_list.len() == 1 {
                 return &weighted_rhs_list.rhs_list[0].rhs[..];
             }
-            let value = rng.generate(weighted_rhs_list.total_weight.into());
-            match weighted_rhs_list.rhs_list.binary_search_by(|weighted_rhs| {
-                weighted_rhs
-                    .weight
-                    .into()
-                    .partial_cmp(&value)
-                    .expect("invalid float")
-            }) {
-                Ok(idx) | Err(idx) => &weighted_rhs_list.rhs_list[idx.saturating_sub(1)].rhs[..],
-            }
+            let total_weight: f64 = weighted_rhs_list.total_weight.into();
+            let value = rng.generate(total_weight);
+            // Each production covers the values from its cumulative weight up to,
+            // and excluding, the next one. The last production of non-zero weight
+            // covers the total weight as well.
+            let idx = weighted_rhs_list.rhs_list.partition_point(|weighted_rhs| {
+                let weight: f64 = weighted_rhs.weight.into();
+                let ordering = weight.partial_cmp(&value).expect("invalid float");
+                ordering.is_le() && weight < total_weight
+            });
+            &weighted_rhs_list.rhs_list[idx.saturating_sub(1)].rhs[..]
         } else {
             &[]
         }
-- 
2.43.0


From 4a61075cbf1bd3ea6b10d462c7a9b51eb85a54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 25/27] fix: several negative rules may be given for one symbol

---
 cfg-generate/src/weighted/random.rs | 39 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index b3f495d..3254bfc 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -146,7 +146,7 @@ pub struct NegativeRule {
 
 struct BacktrackState<'a, R> {
     forbidden: &'a [char],
-    /// Counts up in order of creation.
+    /// Counts up in order of creation. Shared by all the texts forbidden at one place.
     serial: u64,
     rng: R,
     result_len: usize,
@@ -169,10 +169,13 @@ impl Random for Cfg {
         let mut string = vec![];
         let mut terminal_set = SymbolBitSet::new();
         terminal_set.terminal(self);
-        let negative: BTreeMap<Symbol, Vec<char>> = negative_rules
-            .iter()
-            .map(|neg| (neg.sym, neg.chars.chars().collect()))
-            .collect();
+        let mut negative: BTreeMap<Symbol, Vec<Vec<char>>> = BTreeMap::new();
+        for neg in negative_rules {
+            negative
+                .entry(neg.sym)
+                .or_default()
+                .push(neg.chars.chars().collect());
+        }
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
         let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
@@ -216,18 +219,20 @@ impl Random for Cfg {
                         back.retain(|state| state.serial <= serial);
                     }
                 }
-            } else if let Some(forbidden) = negative.get(&sym) {
-                // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
-                backtracking
-                    .entry(string.len() + forbidden.len())
-                    .or_default()
-                    .push(BacktrackState {
-                        forbidden: &forbidden[..],
-                        serial: next_serial,
-                        rng: rng.clone(),
-                        result_len: result.len(),
-                        prev_work: work.clone(),
-                    });
+            } else if let Some(all_forbidden) = negative.get(&sym) {
+                for forbidden in all_forbidden {
+                    // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
+                    backtracking
+                        .entry(string.len() + forbidden.len())
+                        .or_default()
+                        .push(BacktrackState {
+                            forbidden: &forbidden[..],
+                            serial: next_serial,
+                            rng: rng.clone(),
+                            result_len: result.len(),
+                            prev_work: work.clone(),
+                        });
+                }
                 next_serial += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
-- 
2.43.0


From e2ca313f716713f62028450a70a8c11ddc5207c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:40 +0000
Subject: [PATCH 26/27] fix: character maps with one symbol for several classes

---
 cfg-regexp-logic/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index d2eaf89..bcb3984 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -96,7 +96,11 @@ impl LexerMap {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
                     for ascii in class.0 as u32..=(class.1 as u32).min(255) {
-                        result[ascii as usize].push(symbol);
+                        // Several classes may have the same symbol.
+                        let symbols = &mut result[ascii as usize];
+                        if !symbols.contains(&symbol) {
+                            symbols.push(symbol);
+                        }
                     }
                 }
             }
@@ -112,19 +116,17 @@ impl LexerMap {
             }
         }
         let mut result = BTreeMap::new();
-        let mut work = BTreeSet::new();
+        // Several classes may have the same symbol, so count them.
+        let mut work = BTreeMap::new();
         for (ch, changes) in ranges {
             for (is_added, symbol) in changes {
-                if is_added {
-                    work.insert(symbol);
-                } else {
-                    work.remove(&symbol);
-                }
+                *work.entry(symbol).or_insert(0) += if is_added { 1 } else { -1 };
             }
+            work.retain(|_, &mut count| count != 0);
             result
                 .entry(ch)
                 .or_insert(vec![])
-                .extend(work.iter().copied());
+                .extend(work.keys().copied());
         }
         self.ranges = result;
     }
-- 
2.43.0


From d6b898d15028148ea8a4556d1b1897aa5fbee4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 27/27] fix: a history for a sequence overwritten by
 rhs_with_history applied to the next one

---
 cfg-sequence/src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg-sequence/src/builder.rs b/cfg-sequence/src/builder.rs
index d41748f..4c350b9 100644
--- a/cfg-sequence/src/builder.rs
+++ b/cfg-sequence/src/builder.rs
@@ -97,6 +97,8 @@ where
             separator: self.separator,
             history,
         });
+        // A pending history is overwritten.
+        self.history = None;
         self
     }
 }
-- 
2.43.0

