From d66e38902cc519cca3f34820da2aab93ae1e835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 1/5] fix: leave MaskedStorage unchanged when a
 get_or_insert_with callback panics

---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..a066e12 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // Call `f` before touching the mask, if it panics the storage must be left unchanged.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From 189a94022c5b89fdb3c00f0d9c2bd8ba659f4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 2/5] fix: a resource written by either side of
 RwResources::union or map counts as written only

---
 src/resources.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..43b3bc1 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,7 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        RwResources::from_iters(self.reads.iter().map(&f), self.writes.iter().map(&f))
     }
 
     pub fn add_read(&mut self, r: R) {
@@ -119,15 +116,8 @@ where
 
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
-        for w in &other.writes {
-            self.writes.insert(w.clone());
-        }
-
-        for r in &other.reads {
-            if !self.writes.contains(r) {
-                self.reads.insert(r.clone());
-            }
-        }
+        self.add_writes(other.writes.iter().cloned());
+        self.add_reads(other.reads.iter().cloned());
     }
 
     fn conflicts_with(&self, other: &Self) -> bool {
-- 
2.43.0


From e4cbb0818e56fb4916616a4dc4bd23e0c9e62d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 3/5] fix: Allocator::entity answers None instead of panicking
 for indices that were never allocated

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..880dc04 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -134,7 +134,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < self.max_entity_count() && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
-- 
2.43.0


From a3af439084a2f70fe36920533749e23a87068944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 4/5] fix: leave the allocator unchanged when a creation panics
 on generation overflow

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 880dc04..a808034 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -152,11 +152,11 @@ impl Allocator {
             index
         });
 
-        self.alive.add(index);
-
         let generation = &mut self.generations[index as usize];
         let raised = generation.raised();
         *generation = raised.generation();
+
+        self.alive.add(index);
         Entity::new(index, raised)
     }
 
@@ -174,8 +174,9 @@ impl Allocator {
             atomic_increment(&self.index_len).expect("no entity left to allocate")
         });
 
+        let raised = self.generation(index).raised();
         self.raised_atomic.add_atomic(index);
-        Entity::new(index, self.generation(index).raised())
+        Entity::new(index, raised)
     }
 
     /// Returns a `BitSetLike` for all live entities.
-- 
2.43.0


From eddb166d9ad58975eabea66dfcdd3e64041e8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 5/5] verification hook (cfg goggles_verif): set the generation
 of a deleted entity

---
 src/entity.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index a808034..16263c8 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -243,6 +243,17 @@ impl Allocator {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(goggles_verif)]
+impl Allocator {
+    /// Verification only: pretends that the deleted entity at `index` had `generation`.
+    pub fn verif_set_generation(&mut self, index: Index, generation: NonZeroI32) {
+        self.update_generation_length();
+        assert!(!self.generations[index as usize].is_alive() && generation.get() > 0);
+        self.generations[index as usize] = AliveGeneration(generation).generation().killed();
+    }
+}
+
 impl<'a> Join for &'a Allocator {
     type Item = Entity;
     type Access = &'a Allocator;
-- 
2.43.0

