From 3bd4aca8ceecd1d5ecf6472527a140e7b12171fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:24 +0000
Subject: [PATCH 01/24] fix: ChainArena::are_neighbors ignored the generation
 of p_next

---
 triple_arena/src/chain/chain_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index af2b308..5d74e8b 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -471,7 +471,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p.inx() == p_next.inx() {
+                if p == p_next {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
-- 
2.43.0


From e93a8f997cba1771dc9a59fe73bcbbff12ec8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:24 +0000
Subject: [PATCH 02/24] fix: ChainNoGenArena::are_neighbors ignored the
 generation of p_next

---
 triple_arena/src/chain/chain_no_gen_arena.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c8ce34c..3f24602 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -387,16 +387,15 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
     /// `self.are_neighbors(p0, p1)` is not necessarily equal to
     /// `self.are_neighbors(p1, p0)` because of the directionality. This
     /// function returns true for the single link cyclic chain case with
-    /// `p0 == p1`. Incurs only one internal lookup because of invariants.
-    /// Additionally returns `false` if `p_prev` or `p_next` are invalid
-    /// `Ptr`s.
+    /// `p0 == p1`. Additionally returns `false` if `p_prev` or `p_next` are
+    /// invalid `Ptr`s.
     pub fn are_neighbors(&self, p_prev: P, p_next: P) -> bool {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
                 if p == p_next.inx() {
-                    // `p1` must implicitly exist if the invariants hold
-                    are_neighbors = true;
+                    // the interlinks do not have a generation to compare with
+                    are_neighbors = self.a.contains(p_next);
                 }
             }
         }
-- 
2.43.0


From a4faef5d8fafa05ed5537cb6bf60a7e69185dd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:00 +0000
Subject: [PATCH 03/24] fix: OrdArena::advancer_starting_from ignored the
 generation of p_start

---
 triple_arena/src/ord/ord_iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 4575dcd..ee8a939 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -213,7 +213,7 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// the next greater entry is _not_ supported during each advancement.
     pub fn advancer_starting_from(&self, p_start: P) -> PtrAdvancer<P, K, V> {
         PtrAdvancer {
-            ptr: Some(p_start.inx()),
+            ptr: self.contains(p_start).then(|| p_start.inx()),
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From 87409f0d264d53615e77148093815d4f471967f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:52 +0000
Subject: [PATCH 04/24] fix: OrdArena::clone_from_with did not copy the root,
 first and last pointers

---
 triple_arena/src/ord/ord_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index bf7f28d..2564553 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -491,6 +491,9 @@ impl<P: Ptr, K: Clone, V0> OrdArena<P, K, V0> {
         source: &OrdArena<P, K, V1>,
         mut map: F,
     ) {
+        self.root = source.root;
+        self.first = source.first;
+        self.last = source.last;
         self.a.clone_from_with(&source.a, |p, link| Node {
             k: link.t.k.clone(),
             v: map(p, &link.t.v),
-- 
2.43.0


From 2225b1e021722604f97004776d7135a6946c78ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:07 +0000
Subject: [PATCH 05/24] fix: SurjectArena::advancer_surject and iter_surject
 ignored the generation of p_init

---
 triple_arena/src/surject/surject_iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index cfb3cd4..7d19482 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -205,7 +205,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
     pub fn advancer_surject(&self, p_init: P) -> SurjectPtrAdvancer<P, K, V> {
         SurjectPtrAdvancer {
             init: p_init.inx(),
-            ptr: Some(p_init.inx()),
+            ptr: self.contains(p_init).then(|| p_init.inx()),
             max_advances: self.len_keys(),
             _boo: PhantomData,
         }
-- 
2.43.0


From 5c08079569c80cb3d577a767c3a34f771ae6f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:57 +0000
Subject: [PATCH 06/24] fix: SurjectArena::clone_from_with used key indexes as
 value pointers

---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f7c0679..5bca561 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -754,7 +754,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             let k = map_key(p, &link.t.k);
             Key {
                 k,
-                p_val: Ptr::_from_raw(p.inx(), ()),
+                p_val: link.t.p_val,
             }
         });
         self.vals.clone_from_with(&source.vals, |_, val| {
-- 
2.43.0


From fecbe5ab048b47c1b207bf42c5e09d346c3d34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:07 +0000
Subject: [PATCH 07/24] fix: SurjectArena equality compared the keys of the
 left arena with themselves

---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 5bca561..883f1a3 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -850,7 +850,7 @@ impl<P: Ptr, K: PartialEq, V: PartialEq> PartialEq<SurjectArena<P, K, V>>
                     return false
                 }
                 let key0 = self.keys.get_inx_unwrap(p0.inx());
-                let key1 = self.keys.get_inx_unwrap(p1.inx());
+                let key1 = other.keys.get_inx_unwrap(p1.inx());
                 // make sure not to depend on `p_val`
                 if key0.prev_next() != key1.prev_next() {
                     return false
-- 
2.43.0


From 367e7e9eef2cf39bc3ec5d6b877a4511f0cfda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:06 +0000
Subject: [PATCH 08/24] fix: let Arena::insert_with use the whole index range

Like insert, it now limits the doubling of the capacity to the
maximum index. Before, it panicked as soon as doubling went beyond the
maximum, for u8 indexes with 128 elements already.
---
 triple_arena/src/arena/base_arena.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 38cd671..ce105ed 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -477,8 +477,16 @@ impl<P: Ptr, T> Arena<P, T> {
                 // need at least one
                 additional = 1;
             }
+            // make sure to not make `reserve` panic
+            let new_len = self
+                .len()
+                .saturating_add(additional)
+                .clamp(0, <P::Inx as PtrInx>::max().get());
+            additional = new_len.wrapping_sub(self.len());
             self.reserve(additional);
-            self.freelist_root.unwrap()
+            self.freelist_root.expect(
+                "called `insert_with` on an `Arena<P, T>` with maximum length `P::Inx::max()`",
+            )
         };
         let ptr = P::_from_raw(inx, self.generation());
         self.unwrap_replace_free(inx, self.generation(), create(ptr));
-- 
2.43.0


From ba4d31a882e7d121be9e2dddc2a912f4fe808d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:20 +0000
Subject: [PATCH 09/24] fix: let Arena::clear work when the last index of the
 range is in use

The index after the last one was computed and did not fit into its
type, which panicked, for u8 indexes with a capacity of 255.
---
 triple_arena/src/arena/base_arena.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index ce105ed..fe43a1c 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -6,7 +6,7 @@ use core::{
 };
 
 use crate::{
-    utils::{nzusize_unchecked, ptrinx_unchecked, NonZeroInxVec, PtrGen, PtrInx},
+    utils::{ptrinx_unchecked, NonZeroInxVec, PtrGen, PtrInx},
     Advancer, Ptr,
 };
 
@@ -761,19 +761,22 @@ impl<P: Ptr, T> Arena<P, T> {
     /// created from it. This has no effect on allocated capacity.
     pub fn clear(&mut self) {
         // drop all `T` and recreate the freelist
+        let last = self.m.len();
         for i in self.m.nziter() {
-            // Safety: `isize::MAX` guarantee
+            // the last freelist node points to itself
+            let next = if i.get() == last {
+                i.get()
+            } else {
+                i.get().wrapping_add(1)
+            };
+            // Safety: `1 <= next <= self.m.len()`
             unsafe {
-                let next = ptrinx_unchecked(i.get().wrapping_add(1));
-                *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
+                *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(ptrinx_unchecked(next));
             }
         }
         if !self.m.is_empty() {
-            // the last freelist node points to itself
-            // Safety: `isize::MAX` guarantee, and `!self.m.is_empty()`
+            // Safety: 1 is within limits
             unsafe {
-                let last = nzusize_unchecked(self.m.len());
-                *self.m.get_mut(last).unwrap() = Free(P::Inx::new(last));
                 self.freelist_root = Some(ptrinx_unchecked(1));
             }
         } else {
-- 
2.43.0


From 664275fda4f348fc6bdae55185ecb49a0fca6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:51 +0000
Subject: [PATCH 10/24] fix: count a surject key only after it has been
 inserted

SurjectArena::insert_key and insert_key_with increased the key count
first, which was left too large if the insertion or the creation of the
key panicked, so that the value outlived its keys.
---
 triple_arena/src/surject/surject_arena.rs | 25 ++++++++---------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 883f1a3..2b98a70 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -322,6 +322,13 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
         res
     }
 
+    /// To be called after a key has been inserted, because the insertion can
+    /// panic
+    fn inc_key_count(&mut self, p_val: PtrNoGen<P>) {
+        let val = self.vals.get_inx_mut_unwrap(p_val.inx());
+        val.key_count = NonZeroUsize::new(val.key_count.get().wrapping_add(1)).unwrap();
+    }
+
     /// Inserts a new key into the arena, associating it with the same key set
     /// that `p` is in (any `Ptr` from the valid key set can be used as a
     /// reference), and returns the new `Ptr` to the key. Returns `Err(k)`
@@ -331,15 +338,8 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             None => return Err(k),
             Some(key) => key.p_val,
         };
-        self.vals[p_val].key_count = NonZeroUsize::new(
-            self.vals
-                .get_inx_unwrap(p_val.inx())
-                .key_count
-                .get()
-                .wrapping_add(1),
-        )
-        .unwrap();
         if let Ok(p) = self.keys.insert((Some(p.inx()), None), Key { k, p_val }) {
+            self.inc_key_count(p_val);
             Ok(p)
         } else {
             unreachable!()
@@ -356,18 +356,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             None => return None,
             Some(key) => key.p_val,
         };
-        self.vals[p_val].key_count = NonZeroUsize::new(
-            self.vals
-                .get_inx_unwrap(p_val.inx())
-                .key_count
-                .get()
-                .wrapping_add(1),
-        )
-        .unwrap();
         if let Some(p) = self.keys.insert_with((Some(p.inx()), None), |p_link| Key {
             k: create_k(p_link),
             p_val,
         }) {
+            self.inc_key_count(p_val);
             Some(p)
         } else {
             unreachable!()
-- 
2.43.0


From 22fa238748acadf1bce4063acffe044bdcff99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:24 +0000
Subject: [PATCH 11/24] fix: do not leave a value behind if
 SurjectArena::insert panics

The value was inserted before the key, and stayed without any key when
inserting the key panicked because of a full index range.
---
 triple_arena/src/surject/surject_arena.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 2b98a70..4d3bc66 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -292,11 +292,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
 
     /// Inserts a new key and associated value. Returns a `Ptr` to the key.
     pub fn insert(&mut self, k: K, v: V) -> P {
-        let p_val = self.vals.insert(Val {
-            v,
-            key_count: NonZeroUsize::new(1).unwrap(),
-        });
-        self.keys.insert_new_cyclic(Key { k, p_val })
+        // `insert_with` does not leave a value without keys behind if inserting the
+        // key panics
+        self.insert_with(|_| (k, v))
     }
 
     /// Inserts a surject into the arena, using the `K` and `V` returned by
-- 
2.43.0


From e25a52ae3ad7c2c4d4387077c6e11e25f7e13b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:54 +0000
Subject: [PATCH 12/24] fix: do not count generations in consuming iteration

CapacityDrain counted an invalidation for every element, and panicked
with a generation overflow for arenas with more elements than a small
generation counter has values left.
---
 triple_arena/src/arena/arena_iterators.rs | 2 +-
 triple_arena/src/ord/ord_iterators.rs     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triple_arena/src/arena/arena_iterators.rs b/triple_arena/src/arena/arena_iterators.rs
index 6a550fd..9623d85 100644
--- a/triple_arena/src/arena/arena_iterators.rs
+++ b/triple_arena/src/arena/arena_iterators.rs
@@ -166,7 +166,7 @@ impl<P: Ptr, T> Iterator for CapacityDrain<P, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.adv
             .advance(&self.arena)
-            .map(|p| (p, self.arena.remove(p).unwrap()))
+            .map(|p| (p, self.arena.remove_internal_inx_unwrap(p.inx(), false)))
     }
 }
 
diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index ee8a939..d29aa06 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -159,10 +159,10 @@ impl<P: Ptr, K, V> Iterator for CapacityDrain<P, K, V> {
     type Item = (P, K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO we can definitely do this more efficiently
+        // the tree does not need to be kept up, the arena is only advanced over
         self.adv.advance(&self.arena).map(|p| {
-            let res = self.arena.remove(p).unwrap();
-            (p, res.0, res.1)
+            let node = self.arena.a.a.remove_internal_inx_unwrap(p.inx(), false).t;
+            (p, node.k, node.v)
         })
     }
 }
-- 
2.43.0


From fb74ba2ec587117d8a24cf9f19ee7fba2e0c59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:24 +0000
Subject: [PATCH 13/24] fix: count one generation for compressing a chain arena

Taking the links out of the old arena counted an invalidation for each
of them on the old counter, and could panic with a generation overflow
although the compressed arena has only counted one.
---
 triple_arena/src/chain/chain_arena.rs        |  6 +++---
 triple_arena/src/chain/chain_no_gen_arena.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index 5d74e8b..d0f51bf 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -768,7 +768,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next().map(|p| p.inx());
@@ -792,7 +792,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next().map(|p| p.inx());
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -819,7 +819,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev().map(|p| p.inx());
                     let t = link.t;
                     let q = new.insert(Link::new((None, Some(q_next)), t));
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 3f24602..b4e9049 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -723,7 +723,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next();
@@ -748,7 +748,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next();
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -776,7 +776,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev();
                     let t = link.t;
                     let q = new.insert(LinkNoGen::new((None, Some(q_next.inx())), t));
@@ -804,7 +804,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut new = Arena::<P, LinkNoGen<P, T>>::with_capacity(self.len());
         new.set_gen(generation);
         let p_init = first_link;
-        let link = self.a.remove(p_init).unwrap();
+        let link = self.a.remove_internal(p_init, false).unwrap();
         let mut p_next = link.next();
         let mut q_prev = new.insert(LinkNoGen::new((None, None), link.t));
         map(p_init, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q_prev);
@@ -812,7 +812,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             p_next = if let Some(p_next) = p_next {
                 let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                 let p = Ptr::_from_raw(p_next, p_gen);
-                let link = self.a.remove(p).unwrap();
+                let link = self.a.remove_internal(p, false).unwrap();
                 let tmp_next = link.next();
                 let t = link.t;
                 let q = new.insert(LinkNoGen::new((Some(q_prev.inx()), None), t));
-- 
2.43.0


From c4ddd6852d2f20db80fac7711d1da0b2d1b8365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:49 +0000
Subject: [PATCH 14/24] fix: count the generation before removing, so that
 running out of generations leaves the arena intact

---
 triple_arena/src/arena/base_arena.rs         | 47 +++++---------------
 triple_arena/src/chain/chain_arena.rs        |  3 +-
 triple_arena/src/chain/chain_no_gen_arena.rs | 12 ++---
 3 files changed, 18 insertions(+), 44 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index fe43a1c..51e91e7 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -559,42 +559,20 @@ impl<P: Ptr, T> Arena<P, T> {
     /// `remove` but with optional generation counter increment
     #[must_use]
     pub(crate) fn remove_internal(&mut self, p: P, inc_gen: bool) -> Option<T> {
-        let freelist_ptr = if let Some(free) = self.freelist_root {
-            // points to previous root
-            free
+        if self.contains(p) {
+            Some(self.remove_internal_inx_unwrap(p.inx(), inc_gen))
         } else {
-            // points to itself
-            p.inx()
-        };
-        let allocation = self.m_get_mut(p.inx())?;
-        let old = mem::replace(allocation, Free(freelist_ptr));
-        match old {
-            Free(old_free) => {
-                // undo
-                *allocation = Free(old_free);
-                None
-            }
-            Allocated(generation, old_t) => {
-                if generation != p.generation() {
-                    // undo
-                    *allocation = Allocated(generation, old_t);
-                    None
-                } else {
-                    // in both cases the new root is the entry we just removed
-                    self.freelist_root = Some(p.inx());
-                    self.len = self.len.wrapping_sub(1);
-                    if inc_gen {
-                        self.inc_gen();
-                    }
-                    Some(old_t)
-                }
-            }
+            None
         }
     }
 
     /// Same as [Arena::remove_internal] but using an `P::Inx` and panicking if
     /// `p` is invalid
     pub(crate) fn remove_internal_inx_unwrap(&mut self, p: P::Inx, inc_gen: bool) -> T {
+        if inc_gen {
+            // do this first, if it panics then nothing must have been removed
+            self.inc_gen();
+        }
         let freelist_ptr = if let Some(free) = self.freelist_root {
             // points to previous root
             free
@@ -612,9 +590,6 @@ impl<P: Ptr, T> Arena<P, T> {
                 // in both cases the new root is the entry we just removed
                 self.freelist_root = Some(p);
                 self.len = self.len.wrapping_sub(1);
-                if inc_gen {
-                    self.inc_gen();
-                }
                 old_t
             }
         }
@@ -632,6 +607,8 @@ impl<P: Ptr, T> Arena<P, T> {
     /// to that `T` and a mutable reference to the `T`. If `pred` returns `true`
     /// that `T` is dropped and pointers to it invalidated.
     pub fn remove_by<F: FnMut(P, &mut T) -> bool>(&mut self, mut pred: F) {
+        // we only need one increment, do this first because this and `pred` can panic
+        self.inc_gen();
         for inx in self.m.nziter() {
             let entry = self.m.get_mut(inx).unwrap();
             let inx = P::Inx::new(inx);
@@ -649,8 +626,6 @@ impl<P: Ptr, T> Arena<P, T> {
                 }
             }
         }
-        // we only need one increment
-        self.inc_gen();
     }
 
     /// Invalidates all references to the `T` pointed to by `p`, and returns a
@@ -760,6 +735,7 @@ impl<P: Ptr, T> Arena<P, T> {
     /// Drops all `T` from the arena and invalidates all pointers previously
     /// created from it. This has no effect on allocated capacity.
     pub fn clear(&mut self) {
+        self.inc_gen();
         // drop all `T` and recreate the freelist
         let last = self.m.len();
         for i in self.m.nziter() {
@@ -782,16 +758,15 @@ impl<P: Ptr, T> Arena<P, T> {
         } else {
             self.freelist_root = None;
         }
-        self.inc_gen();
         self.len = 0;
     }
 
     /// Performs an [Arena::clear] and resets capacity to 0
     pub fn clear_and_shrink(&mut self) {
+        self.inc_gen();
         self.m.clear();
         self.m.clear_and_shrink();
         self.freelist_root = None;
-        self.inc_gen();
         self.len = 0;
     }
 
diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index d0f51bf..f4734bf 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -563,9 +563,8 @@ impl<P: Ptr, T> ChainArena<P, T> {
     /// might only include itself). Returns the length of the chain. Returns
     /// `None` if `p` is not valid.
     pub fn remove_chain(&mut self, p: P) -> Option<usize> {
-        let init = self.a.remove_internal(p, false)?;
+        let init = self.a.remove(p)?;
         let mut len = 1;
-        self.a.inc_gen();
         let mut tmp = init.next();
         while let Some(next) = tmp {
             if next.inx() == p.inx() {
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index b4e9049..459150e 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -500,7 +500,11 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
     // this is tested by the `SurjectArena` fuzz test
     /// Like `remove_chain` but assumes the chain is cyclic and `p` is valid
     pub(crate) fn remove_cyclic_chain_internal(&mut self, p: P::Inx, inc_gen: bool) {
-        let mut tmp = self.a.remove_internal_inx_unwrap(p, false).next().unwrap();
+        let mut tmp = self
+            .a
+            .remove_internal_inx_unwrap(p, inc_gen)
+            .next()
+            .unwrap();
         while tmp != p {
             tmp = self
                 .a
@@ -508,18 +512,14 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 .next()
                 .unwrap();
         }
-        if inc_gen {
-            self.a.inc_gen();
-        }
     }
 
     /// Efficiently removes the entire chain that `p` is connected to (which
     /// might only include itself). Returns the length of the chain. Returns
     /// `None` if `p` is not valid.
     pub fn remove_chain(&mut self, p: P) -> Option<usize> {
-        let init = self.a.remove_internal(p, false)?;
+        let init = self.a.remove(p)?;
         let mut len = 1;
-        self.a.inc_gen();
         let mut tmp = init.next();
         while let Some(next) = tmp {
             if next == p.inx() {
-- 
2.43.0


From 85847d75538d4da910f554ac1b970555ae53792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:20 +0000
Subject: [PATCH 15/24] fix: NonZeroInxVec::reserve ignored amounts that
 overflow together with the length

---
 triple_arena/src/arena/nonzero_inx_vec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/arena/nonzero_inx_vec.rs b/triple_arena/src/arena/nonzero_inx_vec.rs
index 94736c7..25654cd 100644
--- a/triple_arena/src/arena/nonzero_inx_vec.rs
+++ b/triple_arena/src/arena/nonzero_inx_vec.rs
@@ -181,8 +181,11 @@ impl<T> NonZeroInxVec<T> {
             // capacity, where the user probably knows the exact needed amount
             max(minimum, additional)
         } else {
-            let minimum = self.len().wrapping_add(additional);
-            let bumped = minimum.next_power_of_two();
+            let bumped = self
+                .len()
+                .checked_add(additional)
+                .and_then(usize::checked_next_power_of_two)
+                .expect("`NonZeroInxVec::reserve` capacity overflow beyond `isize::MAX` bytes");
             if bumped <= self.capacity() {
                 // already have the needed capacity
                 return
-- 
2.43.0


From fcf16bb75cc7c47f14d82dd8e09ef5029bdf4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:35 +0000
Subject: [PATCH 16/24] fix: deserializing an empty OrdArena panicked

The tree rebuild that follows deserialization assumes that there is at
least one entry.
---
 triple_arena/src/traits/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 18fe964..9608b35 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -472,7 +472,9 @@ where
             first: tmp,
             last: tmp,
         };
-        res.raw_rebalance_assuming_compressed();
+        if !res.is_empty() {
+            res.raw_rebalance_assuming_compressed();
+        }
         Ok(res)
     }
 }
-- 
2.43.0


From 4e4bb7b7f3a518ed8bd3d133d84b270c84ed287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:35 +0000
Subject: [PATCH 17/24] fix: SurjectArena checks accepted key chains that mix
 values

A chain of keys was only checked to have the right length, so that
deserialization accepted data in which the keys of a chain are associated
with different values.
---
 triple_arena/src/surject/surject_arena.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 4d3bc66..69984c9 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -188,7 +188,8 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
 
         let mut adv = this.keys.advancer();
         while let Some(p) = adv.advance(&this.keys) {
-            let mut c = *count.get(this.keys.get(p).unwrap().p_val).unwrap();
+            let p_val = this.keys.get(p).unwrap().p_val;
+            let mut c = *count.get(p_val).unwrap();
             if c != 0 {
                 // upon encountering a nonzero count for the first time, we follow the chain and
                 // count down, and if we reach back to the beginning (verifying cyclic chain)
@@ -202,6 +203,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                     }
                     c = c.checked_sub(1).unwrap();
                     let (_, link) = this.keys.get_no_gen(tmp).unwrap();
+                    if link.t.p_val != p_val {
+                        return Err("key chain has keys associated with different values")
+                    }
                     if let Some(next) = link.next() {
                         tmp = next;
                     } else {
@@ -212,7 +216,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                         if c != 0 {
                             return Err("key chain did not have all keys associated with value")
                         }
-                        *count.get_mut(this.keys.get(p).unwrap().p_val).unwrap() = 0;
+                        *count.get_mut(p_val).unwrap() = 0;
                         break
                     }
                 }
-- 
2.43.0


From 5875b6f8fa504d28cef04623c390deed2d963434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:35 +0000
Subject: [PATCH 18/24] fix: deserializing an OrdArena with more entries than
 indexes panicked

Entries are numbered by position, which did not respect the range of the
index type. An error is returned instead.
---
 triple_arena/src/traits/serde.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 9608b35..0b14dec 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -444,6 +444,12 @@ where
         let mut i = 1usize;
         let mut last = None;
         while let Some((k, v)) = access.next_entry::<K, V>()? {
+            if i > <P::Inx as PtrInx>::max().get() {
+                return Err(Error::custom(
+                    "when deserializing a `triple_arena` arena, encountered more entries than the \
+                     pointer index type can represent",
+                ))
+            }
             let p = PtrInx::new(NonZeroUsize::new(i).unwrap());
             if let Some(last) = last {
                 a.get_inx_mut_unwrap(last).prev_next.1 = Some(p);
-- 
2.43.0


From c8788b3abd13e51984e5a0b13090e29c51adf9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:06 +0000
Subject: [PATCH 19/24] fix: deserialization trusted the length in the data for
 an allocation

A wrong length in malformed data led to a capacity overflow panic or an
abort from the attempt to allocate that much, rather than to an error.
---
 triple_arena/src/traits/serde.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 0b14dec..20984c7 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -228,6 +228,9 @@ impl<P: Ptr, K: Serialize, V: Serialize> Serialize for OrdArena<P, K, V> {
     }
 }
 
+/// Limits what is allocated in advance when deserializing
+const MAX_SIZE_HINT: usize = 1024;
+
 struct ArenaVisitor<P: Ptr, T>(PhantomData<fn() -> (P, T)>);
 
 impl<'de, P: Ptr, T> Visitor<'de> for ArenaVisitor<P, T>
@@ -246,7 +249,8 @@ where
     {
         let mut a = Arena::new();
         if let Some(hint) = access.size_hint() {
-            a.m.reserve(hint);
+            // the hint comes from the data, it cannot be trusted with a large allocation
+            a.m.reserve(hint.min(MAX_SIZE_HINT));
         }
 
         while let Some((p, t)) = access.next_entry::<P::Inx, T>()? {
@@ -438,7 +442,8 @@ where
     {
         let mut a: Arena<P, LinkNoGen<P, Node<P, K, V>>> = Arena::new();
         if let Some(hint) = access.size_hint() {
-            a.m.reserve(hint);
+            // the hint comes from the data, it cannot be trusted with a large allocation
+            a.m.reserve(hint.min(MAX_SIZE_HINT));
         }
 
         let mut i = 1usize;
-- 
2.43.0


From 415ccf8be0e5844c985c361a2576a546a4c02768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:26 +0000
Subject: [PATCH 20/24] fix: cycles reachable from a root were not broken up in
 renderings

---
 triple_arena_render/src/grid_process.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 0b93973..98fc890 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -215,9 +215,6 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
     }
 
-    // the initial visit number in this case
-    let prev_visit = NonZeroU64::new(1).unwrap();
-
     // DFS for conversion to DAG
     // path from root, with the `usize` indicating which sink was followed
     let on_stack_visit = next_visit();
@@ -225,7 +222,8 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     let mut path: Vec<(usize, P)> = vec![];
     for start in &starts {
         let start = *start;
-        if dag[start].visit == prev_visit {
+        // visit numbers from before this DFS are smaller
+        if dag[start].visit < on_stack_visit {
             path.push((0, start));
             loop {
                 let len = path.len();
@@ -235,7 +233,7 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
                 match dag[current].sinks.get(path[len - 1].0) {
                     Some(edge) => {
                         let p0 = edge.to;
-                        if dag[p0].visit == prev_visit {
+                        if dag[p0].visit < on_stack_visit {
                             // explore further
                             path.push((0, p0));
                         } else if dag[p0].visit == on_stack_visit {
-- 
2.43.0


From b52b7599a309f24b23a5a0a50ab8b651552c4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:59 +0000
Subject: [PATCH 21/24] fix: edges given at both ends were rendered twice and
 from the wrong port

---
 triple_arena_render/src/grid_process.rs | 34 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 98fc890..ff00086 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -91,12 +91,21 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
                     .iter()
                     .any(|Edge { to, i, s: _ }| (*to == p0) && (*i == Some(i0)))
                 {
-                    // unelide
-                    dag[p1].sources.push(Edge {
-                        to: p0,
-                        i: Some(i0),
-                        s: String::new(),
-                    });
+                    if let Some(edge) = dag[p1]
+                        .sources
+                        .iter_mut()
+                        .find(|edge| (edge.to == p0) && edge.i.is_none())
+                    {
+                        // both ends of this edge are specified
+                        edge.i = Some(i0);
+                    } else {
+                        // unelide
+                        dag[p1].sources.push(Edge {
+                            to: p0,
+                            i: Some(i0),
+                            s: String::new(),
+                        });
+                    }
                 }
             } else if error_on_invalid_ptr {
                 return Err(RenderError::InvalidPtr(p1))
@@ -122,6 +131,19 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
     }
 
+    // there can be more sources than sinks, let the rest share a sink
+    let mut adv = dag.advancer();
+    while let Some(p0) = adv.advance(&dag) {
+        for i0 in 0..dag[p0].sources.len() {
+            let edge = &dag[p0].sources[i0];
+            if edge.i.is_none() {
+                if let Some(node) = dag.get(edge.to) {
+                    dag[p0].sources[i0].i = node.sinks.iter().position(|edge| edge.to == p0);
+                }
+            }
+        }
+    }
+
     // fix invalid pointers
     let mut adv = dag.advancer();
     while let Some(p0) = adv.advance(&dag) {
-- 
2.43.0


From cb12233d822547188748d6313a8208cdd941fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:22 +0000
Subject: [PATCH 22/24] fix: rendering confused invalid pointers without
 generations with inserted reference nodes

---
 triple_arena_render/src/grid_process.rs | 66 ++++++++++++++-----------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index ff00086..fba2c9f 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -144,40 +144,48 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
     }
 
-    // fix invalid pointers
-    let mut adv = dag.advancer();
-    while let Some(p0) = adv.advance(&dag) {
-        for i0 in 0..dag[p0].sinks.len() {
-            let p1 = dag[p0].sinks[i0].to;
-            if !dag.contains(p1) {
-                let p1_prime = dag.insert(ANode {
-                    sources: vec![Edge {
-                        to: p0,
-                        i: Some(i0),
-                        s: String::new(),
-                    }],
-                    center: vec![format!("{:?}(invalid)", p1)],
-                    ..Default::default()
-                });
-                dag[p0].sinks[i0].to = p1_prime;
+    // fix invalid pointers, find them all before inserting nodes because an inserted
+    // node could otherwise be mistaken for the target of an invalid pointer
+    let mut invalid_sinks = vec![];
+    let mut invalid_sources = vec![];
+    for (p0, node) in &dag {
+        for (i0, edge) in node.sinks.iter().enumerate() {
+            if !dag.contains(edge.to) {
+                invalid_sinks.push((p0, i0));
             }
         }
-        for i0 in 0..dag[p0].sources.len() {
-            let p1 = dag[p0].sources[i0].to;
-            if !dag.contains(p1) {
-                let p1_prime = dag.insert(ANode {
-                    center: vec![format!("{:?}(invalid)", p1)],
-                    sinks: vec![Edge {
-                        to: p0,
-                        i: Some(i0),
-                        s: String::new(),
-                    }],
-                    ..Default::default()
-                });
-                dag[p0].sources[i0].to = p1_prime;
+        for (i0, edge) in node.sources.iter().enumerate() {
+            if !dag.contains(edge.to) {
+                invalid_sources.push((p0, i0));
             }
         }
     }
+    for (p0, i0) in invalid_sinks {
+        let p1 = dag[p0].sinks[i0].to;
+        let p1_prime = dag.insert(ANode {
+            sources: vec![Edge {
+                to: p0,
+                i: Some(i0),
+                s: String::new(),
+            }],
+            center: vec![format!("{:?}(invalid)", p1)],
+            ..Default::default()
+        });
+        dag[p0].sinks[i0].to = p1_prime;
+    }
+    for (p0, i0) in invalid_sources {
+        let p1 = dag[p0].sources[i0].to;
+        let p1_prime = dag.insert(ANode {
+            center: vec![format!("{:?}(invalid)", p1)],
+            sinks: vec![Edge {
+                to: p0,
+                i: Some(i0),
+                s: String::new(),
+            }],
+            ..Default::default()
+        });
+        dag[p0].sources[i0].to = p1_prime;
+    }
 
     // nodes with no sources
     let mut roots = vec![];
-- 
2.43.0


From 7f2c85e882f3012a964553923b7917e24ccb3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:39 +0000
Subject: [PATCH 23/24] fix: rendering used the pointer type of the graph for a
 larger number of node pairs

---
 triple_arena_render/src/grid_process.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index fba2c9f..399cd26 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -343,7 +343,9 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     // the `(P, P)` tuple is ordered for uniqueness, the first weight indicates `<`
     // preference and the second `>`. The bool allows only one extra layer of new
     // transitives to be made.
-    let mut orderings = OrdArena::<P, (P, P), (u64, u64, bool)>::new();
+    // There can be more pairs than `P` has indexes for.
+    ptr_struct!(POrdering());
+    let mut orderings = OrdArena::<POrdering, (P, P), (u64, u64, bool)>::new();
     let mut f = |p0: P, p1: P, swap: bool, init_weight: u64| {
         let (pair, mut weight) = match p0.cmp(&p1) {
             Ordering::Less => ((p0, p1), (init_weight, 0)),
-- 
2.43.0


From 25c8bcfefbbca3e8ecbaf09a7e74633716bec3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:36 +0000
Subject: [PATCH 24/24] fix: rendering could exhaust the generations of the
 pointer type of the graph

---
 triple_arena_render/src/grid_process.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 399cd26..8c0ee57 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -532,23 +532,26 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     // by the end, disconnected graphs will be in different chains, order from
     // biggest to smallest since in practices there are insignificant single node
     // subgraphs and stuff
+    let chain_visit = next_visit();
     let mut chains = Vec::<Reverse<(usize, Vec<P>)>>::new();
     let mut adv = total_ordering.advancer();
     while let Some(mut p) = adv.advance(&total_ordering) {
+        if dag[p].visit == chain_visit {
+            continue
+        }
         // move to the start of a chain as we encounter one
         while let Some(prev) = total_ordering.get_link(p).unwrap().prev() {
             p = prev;
         }
-        // remove the chain and record it in order
+        // record the chain in order, it is not removed because that could exhaust the
+        // generations of `P`
         let mut chain = vec![];
         loop {
+            chain.push(p);
+            dag[p].visit = chain_visit;
             if let Some(next) = total_ordering.get_link(p).unwrap().next() {
-                chain.push(p);
-                total_ordering.remove(p).unwrap();
                 p = next;
             } else {
-                chain.push(p);
-                total_ordering.remove(p).unwrap();
                 break
             }
         }
@@ -705,7 +708,9 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         grid_pos0: usize,
         p: P,
     }
-    let mut horizontals: Vec<OrdArena<P, HInfo<P>, ()>> = vec![];
+    // not `P` because the many removals could exhaust its generations
+    ptr_struct!(PHorizontal());
+    let mut horizontals: Vec<OrdArena<PHorizontal, HInfo<P>, ()>> = vec![];
     let mut max_y = 0;
     for p in ptrs.iter().copied() {
         max_y = max(max_y, dag[p].grid_position.1);
-- 
2.43.0

