From 839b4336286aac463d28b637cf40cbc89da94302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 01/18] fix: count transitions of lazy states that are known
 but not expanded

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 42 +++++++++++++++++------
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 42 +++++++++++++++++------
 2 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..f3e2b84 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -18,7 +18,7 @@ use crate::fst_traits::{
     AllocableFst, CoreFst, Fst, FstIterData, FstIterator, MutableFst, StateIterator,
 };
 use crate::semirings::{Semiring, SerializableSemiring};
-use crate::{StateId, SymbolTable, Trs, TrsVec};
+use crate::{StateId, SymbolTable, Trs, TrsVec, EPS_LABEL};
 
 #[derive(Debug, Clone)]
 pub struct LazyFst<W: Semiring, Op: FstOp<W>, Cache> {
@@ -61,13 +61,17 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
-        self.cache
-            .num_trs(s)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
+        match self.cache.num_trs(s) {
+            Some(n) => Ok(n),
+            None => Ok(self.expand_known_state(s)?.len()),
+        }
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        match self.cache.num_trs(s) {
+            Some(n) => n,
+            None => self.get_trs_unchecked(s).len(),
+        }
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,15 +94,23 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_input_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_input_epsilons(state) {
+            Some(n) => Ok(n),
+            None => {
+                let trs = self.expand_known_state(state)?;
+                Ok(trs.iter().filter(|tr| tr.ilabel == EPS_LABEL).count())
+            }
+        }
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_output_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_output_epsilons(state) {
+            Some(n) => Ok(n),
+            None => {
+                let trs = self.expand_known_state(state)?;
+                Ok(trs.iter().filter(|tr| tr.olabel == EPS_LABEL).count())
+            }
+        }
     }
 }
 
@@ -223,6 +235,14 @@ where
         }
     }
 
+    /// Transitions of a state that has been discovered but isn't in the cache.
+    fn expand_known_state(&self, state: StateId) -> Result<TrsVec<W>> {
+        if state as usize >= self.cache.num_known_states() {
+            bail!("State {:?} doesn't exist", state);
+        }
+        self.get_trs(state)
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..81efefe 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -11,7 +11,7 @@ use crate::algorithms::lazy::{CacheStatus, FstCache};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, Fst, FstIterData, FstIterator, MutableFst, StateIterator};
 use crate::semirings::Semiring;
-use crate::{StateId, SymbolTable, Trs, TrsVec};
+use crate::{StateId, SymbolTable, Trs, TrsVec, EPS_LABEL};
 use std::collections::{HashSet, VecDeque};
 
 #[derive(Debug)]
@@ -56,13 +56,17 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
-        self.cache
-            .num_trs(s)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
+        match self.cache.num_trs(s) {
+            Some(n) => Ok(n),
+            None => Ok(self.expand_known_state(s)?.len()),
+        }
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        match self.cache.num_trs(s) {
+            Some(n) => n,
+            None => self.get_trs_unchecked(s).len(),
+        }
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,15 +90,23 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_input_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_input_epsilons(state) {
+            Some(n) => Ok(n),
+            None => {
+                let trs = self.expand_known_state(state)?;
+                Ok(trs.iter().filter(|tr| tr.ilabel == EPS_LABEL).count())
+            }
+        }
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
-        self.cache
-            .num_output_epsilons(state)
-            .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
+        match self.cache.num_output_epsilons(state) {
+            Some(n) => Ok(n),
+            None => {
+                let trs = self.expand_known_state(state)?;
+                Ok(trs.iter().filter(|tr| tr.olabel == EPS_LABEL).count())
+            }
+        }
     }
 }
 
@@ -219,6 +231,14 @@ where
         }
     }
 
+    /// Transitions of a state that has been discovered but isn't in the cache.
+    fn expand_known_state(&self, state: StateId) -> Result<TrsVec<W>> {
+        if state as usize >= self.cache.num_known_states() {
+            bail!("State {:?} doesn't exist", state);
+        }
+        self.get_trs(state)
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
-- 
2.43.0


From 5b00b1ecc67e30cba678e71c099668e979f9cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:59 +0000
Subject: [PATCH 02/18] fix: comparing lazy caches or state tables can no
 longer deadlock

---
 rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs | 7 +++++--
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs      | 7 +++++--
 rustfst/src/algorithms/lazy/state_table.rs                 | 6 +++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 2a3bcdf..4c49e46 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -191,13 +191,16 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
 impl<W: SerializableSemiring> PartialEq for SimpleHashMapCache<W> {
     fn eq(&self, other: &Self) -> bool {
+        // Never hold two locks at once: `other` may be `self`, or be compared with `self`
+        // by another thread.
         let cache_start_eq = self.get_start() == other.get_start();
-        let cache_trs_a = self.trs.lock().unwrap();
+        let cache_trs_a = self.trs.lock().unwrap().clone();
         let cache_trs_b = other.trs.lock().unwrap();
         let cache_trs_eq = (cache_trs_a.data == cache_trs_b.data)
             & (cache_trs_a.num_known_states == cache_trs_b.num_known_states);
+        drop(cache_trs_b);
 
-        let cache_final_weights_a = self.final_weights.lock().unwrap();
+        let cache_final_weights_a = self.final_weights.lock().unwrap().clone();
         let cache_final_weights_b = other.final_weights.lock().unwrap();
         let cache_final_weights_eq = (cache_final_weights_a.data == cache_final_weights_b.data)
             & (cache_final_weights_a.num_known_states == cache_final_weights_b.num_known_states);
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 47c19c5..ab9c280 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -202,13 +202,16 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
 impl<W: SerializableSemiring> PartialEq for SimpleVecCache<W> {
     fn eq(&self, other: &Self) -> bool {
+        // Never hold two locks at once: `other` may be `self`, or be compared with `self`
+        // by another thread.
         let cache_start_eq = self.get_start() == other.get_start();
-        let cache_trs_a = self.trs.lock().unwrap();
+        let cache_trs_a = self.trs.lock().unwrap().clone();
         let cache_trs_b = other.trs.lock().unwrap();
         let cache_trs_eq = (cache_trs_a.data == cache_trs_b.data)
             & (cache_trs_a.num_known_states == cache_trs_b.num_known_states);
+        drop(cache_trs_b);
 
-        let cache_final_weights_a = self.final_weights.lock().unwrap();
+        let cache_final_weights_a = self.final_weights.lock().unwrap().clone();
         let cache_final_weights_b = other.final_weights.lock().unwrap();
         let cache_final_weights_eq = (cache_final_weights_a.data == cache_final_weights_b.data)
             & (cache_final_weights_a.num_known_states == cache_final_weights_b.num_known_states);
diff --git a/rustfst/src/algorithms/lazy/state_table.rs b/rustfst/src/algorithms/lazy/state_table.rs
index a520294..972acf9 100644
--- a/rustfst/src/algorithms/lazy/state_table.rs
+++ b/rustfst/src/algorithms/lazy/state_table.rs
@@ -95,7 +95,11 @@ impl<T: Hash + Eq + Clone + fmt::Debug> fmt::Debug for StateTable<T> {
 
 impl<T: Hash + Eq + Clone + PartialEq> PartialEq for StateTable<T> {
     fn eq(&self, other: &Self) -> bool {
-        self.table.lock().unwrap().eq(&*other.table.lock().unwrap())
+        // Never hold two locks at once: `other` may be `self`, or be compared with `self`
+        // by another thread.
+        let table = self.table.lock().unwrap().clone();
+        let res = table.eq(&*other.table.lock().unwrap());
+        res
     }
 }
 
-- 
2.43.0


From 24425410337f57999d97f43f0623b574218be16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:26 +0000
Subject: [PATCH 03/18] fix: report write errors instead of losing them when a
 buffered writer is dropped

---
 rustfst/src/algorithms/compose/compose_fst_op.rs           | 3 ++-
 rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs | 1 +
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs      | 1 +
 rustfst/src/fst_traits/serializable_fst.rs                 | 7 ++++++-
 rustfst/src/symbol_table.rs                                | 2 ++
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index b947e3a..c7487a2 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -2,7 +2,7 @@ use std::borrow::Borrow;
 use std::fmt::Debug;
 use std::fs::{read, File};
 use std::hash::Hash;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::Path;
 use std::sync::Arc;
 
@@ -60,6 +60,7 @@ impl<T: Hash + Eq + Clone + SerializeBinary> SerializableOpState for ComposeFstO
 
         // Write StateTable
         self.state_table.write_binary(&mut file)?;
+        file.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 4c49e46..e62cd52 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -184,6 +184,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
         // Serialize SimpleHashMapCache
         write_simple_hashmap_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index ab9c280..3fae796 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -195,6 +195,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
         // Write SimpleVecCache
         write_simple_vec_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 28a53fb..f1f840b 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -45,7 +45,10 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 path_bin_fst.as_ref(),
             )
         })?;
-        self.store(BufWriter::new(output))
+        let mut writer = BufWriter::new(output);
+        self.store(&mut writer)?;
+        writer.flush()?;
+        Ok(())
     }
 
     // TEXT
@@ -70,6 +73,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
         let buffer = File::create(path_output.as_ref())?;
         let mut line_writer = LineWriter::new(buffer);
         write_fst!(self, line_writer, true, false);
+        line_writer.flush()?;
         Ok(())
     }
 
@@ -127,6 +131,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
 
             writeln!(f, "}}")?;
         }
+        f.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/symbol_table.rs b/rustfst/src/symbol_table.rs
index 8b08f2a..4843cd2 100644
--- a/rustfst/src/symbol_table.rs
+++ b/rustfst/src/symbol_table.rs
@@ -268,6 +268,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write!(writer, "{}", self)?;
+        writer.flush()?;
 
         Ok(())
     }
@@ -277,6 +278,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write_bin_symt(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From b6d6677f1fc362f413ce4f3adffd134c9507b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:51 +0000
Subject: [PATCH 04/18] fix: a snapshot of a cache in use has counts that match
 its entries

---
 .../lazy/cache/simple_hash_map_cache.rs       | 44 +++++++-----------
 .../algorithms/lazy/cache/simple_vec_cache.rs | 45 +++++++------------
 2 files changed, 32 insertions(+), 57 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index e62cd52..4ef5156 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -219,50 +219,36 @@ pub fn write_simple_hashmap_cache<F: Write, W: SerializableSemiring>(
     write_bin_u64(writter, start_state.num_known_states as u64)?;
     write_cache_start_state(writter, &start_state.data)?;
 
+    // The lock is held until the whole section is written: the counts have to match the entries
+    // even if other threads keep filling the cache.
+    let trs = cache.trs.lock().map_err(|err| anyhow!("{}", err))?;
+
     // Trs num known states serialization
-    let trs_num_known_states = cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, trs_num_known_states as u64)?;
+    write_bin_u64(writter, trs.num_known_states as u64)?;
 
     // Num computed states
-    let num_visited_states = cache.len_trs();
-    write_bin_u64(writter, num_visited_states as u64)?;
+    write_bin_u64(writter, trs.data.len() as u64)?;
 
     // Computed states serialization
-    for (state, cache_trs) in cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .data
-        .iter()
-    {
+    for (state, cache_trs) in trs.data.iter() {
         // Write CacheTrs trs
         write_hashmap_cache_trs(writter, cache_trs, state)?;
     }
+    drop(trs);
 
-    // Final weights num known states serialization
-    let final_weights_num_known_states = cache
+    let final_weights = cache
         .final_weights
         .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, final_weights_num_known_states as u64)?;
+        .map_err(|err| anyhow!("{}", err))?;
+
+    // Final weights num known states serialization
+    write_bin_u64(writter, final_weights.num_known_states as u64)?;
 
     // Num computed final weights
-    let num_final_weights = cache.len_final_weights();
-    write_bin_u64(writter, num_final_weights as u64)?;
+    write_bin_u64(writter, final_weights.data.len() as u64)?;
 
     // Final weights serialization
-    for (state, final_weight) in cache
-        .final_weights
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .data
-        .iter()
-    {
+    for (state, final_weight) in final_weights.data.iter() {
         // Write final weight for state
         write_hashmap_cache_final_weight(writter, final_weight, state)?;
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 3fae796..32ae2f0 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -230,48 +230,37 @@ pub fn write_simple_vec_cache<F: Write, W: SerializableSemiring>(
     write_bin_u64(writter, start_state.num_known_states as u64)?;
     write_cache_start_state(writter, &start_state.data)?;
 
+    // The lock is held until the whole section is written: the counts have to match the entries
+    // even if other threads keep filling the cache.
+    let trs = cache.trs.lock().map_err(|err| anyhow!("{}", err))?;
+
     // Trs num known states serialization
-    let trs_num_known_states = cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, trs_num_known_states as u64)?;
+    write_bin_u64(writter, trs.num_known_states as u64)?;
 
     // Num computed states serialization
-    let num_computed_states = cache.len_trs();
-    write_bin_u64(writter, num_computed_states as u64)?;
+    write_bin_u64(writter, trs.data.len() as u64)?;
 
     // Computed states serialization
-    for state in 0..num_computed_states {
-        let state = state as StateId;
-        write_vec_cache_trs(
-            writter,
-            &cache
-                .trs
-                .lock()
-                .map_err(|err| anyhow!("{}", err))?
-                .get(state),
-        )?;
+    for state in 0..trs.data.len() {
+        write_vec_cache_trs(writter, &trs.get(state as StateId))?;
     }
+    drop(trs);
 
-    // Final weights num known states serialization
-    let final_weights_num_known_states = cache
+    let final_weights = cache
         .final_weights
         .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, final_weights_num_known_states as u64)?;
+        .map_err(|err| anyhow!("{}", err))?;
+
+    // Final weights num known states serialization
+    write_bin_u64(writter, final_weights.num_known_states as u64)?;
 
     // Num final states serialization
-    let num_final_states = cache.len_final_weights();
-    write_bin_u64(writter, num_final_states as u64)?;
+    write_bin_u64(writter, final_weights.data.len() as u64)?;
 
     // Final states serialization
-    for f_state in 0..num_final_states {
-        let f_state = f_state as StateId;
+    for final_weight in final_weights.data.iter() {
         // Write final weight for state
-        write_vec_cache_final_weight(writter, &cache.get_final_weight(f_state))?;
+        write_vec_cache_final_weight(writter, final_weight)?;
     }
 
     Ok(())
-- 
2.43.0


From eaae61b7a403648179221d1a3abd561d27355cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 05/18] fix: a binary file with a string that is not UTF-8 is
 an error, not a panic

---
 rustfst/src/parsers/bin_fst/fst_header.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/parsers/bin_fst/fst_header.rs b/rustfst/src/parsers/bin_fst/fst_header.rs
index 7a9ddae..1ca58e8 100644
--- a/rustfst/src/parsers/bin_fst/fst_header.rs
+++ b/rustfst/src/parsers/bin_fst/fst_header.rs
@@ -146,14 +146,8 @@ impl OpenFstString {
     }
     pub(crate) fn parse(i: &[u8]) -> IResult<&[u8], OpenFstString, NomCustomError<&[u8]>> {
         let (i, n) = parse_bin_i32(i)?;
-        let (i, s) = take(n as usize)(i)?;
-        Ok((
-            i,
-            OpenFstString {
-                n,
-                s: String::from_utf8(s.to_vec()).unwrap(),
-            },
-        ))
+        let (i, s) = map_res(take(n as usize), |s: &[u8]| String::from_utf8(s.to_vec()))(i)?;
+        Ok((i, OpenFstString { n, s }))
     }
 
     pub(crate) fn write<W: Write>(&self, file: &mut W) -> Result<()> {
-- 
2.43.0


From 128fe5cc2d9ddac02fa3d87220e5ed999d2e10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:44 +0000
Subject: [PATCH 06/18] fix: determinization no longer depends on the order of
 a hash table

---
 .../src/algorithms/determinize/determinize_fsa_op.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..1943057 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -155,13 +154,14 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        // Ordered by state: two equal subsets must always be the same tuple.
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
-- 
2.43.0


From c1ac1ea9e0ff5f0acdb84c6cd962bed4bbd3a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 07/18] fix: decode leaves epsilon transitions alone

---
 rustfst/src/algorithms/encode/decode_static.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/encode/decode_static.rs b/rustfst/src/algorithms/encode/decode_static.rs
index 58bcf59..2b74f68 100644
--- a/rustfst/src/algorithms/encode/decode_static.rs
+++ b/rustfst/src/algorithms/encode/decode_static.rs
@@ -4,7 +4,7 @@ use crate::algorithms::{encode::EncodeTable, rm_final_epsilon};
 use crate::algorithms::{FinalTr, MapFinalAction, TrMapper};
 use crate::fst_properties::FstProperties;
 use crate::fst_traits::MutableFst;
-use crate::{Semiring, Tr};
+use crate::{Semiring, Tr, EPS_LABEL};
 
 struct DecodeMapper<W: Semiring> {
     encode_table: EncodeTable<W>,
@@ -26,6 +26,11 @@ impl<W: Semiring> DecodeMapper<W> {
 
 impl<W: Semiring> TrMapper<W> for DecodeMapper<W> {
     fn tr_map(&self, tr: &mut Tr<W>) -> Result<()> {
+        // Epsilon is never the code of a tuple: transitions with that label have been added
+        // after the encoding (minimization of an encoded transducer does) and are left as is.
+        if tr.ilabel == EPS_LABEL {
+            return Ok(());
+        }
         let tuple = self
             .encode_table
             .0
-- 
2.43.0


From 991e7fa16607f17f493bbd3a4d2d63782346aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:26 +0000
Subject: [PATCH 08/18] fix: minimizing a non-deterministic acceptor keeps its
 language

---
 rustfst/src/algorithms/minimize.rs  | 11 +++++++++--
 rustfst/src/algorithms/partition.rs | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 05e0e3a..e39b48b 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -514,6 +514,9 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
 
 fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefCell<Partition>>> {
     // Initialize
+    let nondet = !fst
+        .compute_and_update_properties(FstProperties::I_DETERMINISTIC)?
+        .contains(FstProperties::I_DETERMINISTIC);
     let mut tr: VectorFst<W::ReverseWeight> = reverse(fst)?;
     tr_sort(&mut tr, ILabelCompare {});
 
@@ -554,7 +557,9 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
             let from_state = tr.nextstate - 1;
             let from_label = tr.ilabel;
             if prev_label != from_label as i32 {
-                partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+                partition
+                    .borrow_mut()
+                    .finalize_split(&mut Some(&mut queue), nondet);
             }
             let from_class = partition.borrow().get_class_id(from_state as usize);
             if partition.borrow().get_class_size(from_class) > 1 {
@@ -567,7 +572,9 @@ fn cyclic_minimize<W: Semiring, F: MutableFst<W>>(fst: &mut F) -> Result<Rc<RefC
             }
         }
 
-        partition.borrow_mut().finalize_split(&mut Some(&mut queue));
+        partition
+            .borrow_mut()
+            .finalize_split(&mut Some(&mut queue), nondet);
     }
 
     // Get Partition
diff --git a/rustfst/src/algorithms/partition.rs b/rustfst/src/algorithms/partition.rs
index 118a78d..af4b728 100644
--- a/rustfst/src/algorithms/partition.rs
+++ b/rustfst/src/algorithms/partition.rs
@@ -164,12 +164,18 @@ impl Partition {
         }
     }
 
-    pub fn finalize_split<Q: Queue>(&mut self, queue: &mut Option<&mut Q>) {
+    /// Enqueues the smaller half of each class that has been split, which is enough for a
+    /// deterministic automaton, or both halves if `enqueue_both` is set.
+    pub fn finalize_split<Q: Queue>(&mut self, queue: &mut Option<&mut Q>, enqueue_both: bool) {
         let visited_classes = self.visited_classes.clone();
         for visited_class in visited_classes {
             let new_class = self.split_refine(visited_class);
             if new_class != -1 && queue.as_ref().is_some() {
-                queue.as_mut().unwrap().enqueue(new_class as StateId);
+                let queue = queue.as_mut().unwrap();
+                queue.enqueue(new_class as StateId);
+                if enqueue_both {
+                    queue.enqueue(visited_class as StateId);
+                }
             }
         }
         self.visited_classes.clear();
-- 
2.43.0


From 7a9e3a57fa3e9c8d6d670b7a3e518cb612f5bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 09/18] fix: asking for an unknown state no longer poisons the
 state table of a lazy FST

---
 rustfst/src/algorithms/factor_weight/state_table.rs | 13 +++++++++----
 rustfst/src/algorithms/lazy/state_table.rs          |  9 +++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/algorithms/factor_weight/state_table.rs b/rustfst/src/algorithms/factor_weight/state_table.rs
index 1569482..24676b2 100644
--- a/rustfst/src/algorithms/factor_weight/state_table.rs
+++ b/rustfst/src/algorithms/factor_weight/state_table.rs
@@ -21,8 +21,8 @@ impl<W: Semiring> InnerStateTable<W> {
         }
     }
 
-    fn find_tuple_bimap(&self, tuple_id: StateId) -> Element<W> {
-        self.bimap.get_by_left(&tuple_id).unwrap().clone()
+    fn find_tuple_bimap(&self, tuple_id: StateId) -> Option<Element<W>> {
+        self.bimap.get_by_left(&tuple_id).cloned()
     }
 
     fn find_id_or_insert_bimap(&mut self, elt: &Element<W>) -> StateId {
@@ -56,8 +56,13 @@ impl<W: Semiring> FactorWeightStateTable<W> {
     }
 
     pub fn find_tuple(&self, tuple_id: StateId) -> Element<W> {
-        let inner_state_table = self.inner_state_table.lock().unwrap();
-        inner_state_table.find_tuple_bimap(tuple_id)
+        // The lock is released before a possible panic, which would otherwise poison the table.
+        let tuple = self
+            .inner_state_table
+            .lock()
+            .unwrap()
+            .find_tuple_bimap(tuple_id);
+        tuple.unwrap_or_else(|| panic!("State {:?} doesn't exist", tuple_id))
     }
 
     pub fn find_state(&self, elt: &Element<W>) -> StateId {
diff --git a/rustfst/src/algorithms/lazy/state_table.rs b/rustfst/src/algorithms/lazy/state_table.rs
index 972acf9..be87ef4 100644
--- a/rustfst/src/algorithms/lazy/state_table.rs
+++ b/rustfst/src/algorithms/lazy/state_table.rs
@@ -58,8 +58,8 @@ impl<T: Hash + Eq + Clone, H: BuildHasher> BiHashMap<T, H> {
         }
     }
 
-    pub fn get_tuple_unchecked(&self, id: StateId) -> T {
-        self.id_to_tuple[id as usize].clone()
+    pub fn get_tuple(&self, id: StateId) -> Option<T> {
+        self.id_to_tuple.get(id as usize).cloned()
     }
 }
 
@@ -123,8 +123,9 @@ impl<T: Hash + Eq + Clone> StateTable<T> {
 
     /// Looks up tuple from integer ID.
     pub fn find_tuple(&self, tuple_id: StateId) -> T {
-        let table = self.table.lock().unwrap();
-        table.get_tuple_unchecked(tuple_id)
+        // The lock is released before a possible panic, which would otherwise poison the table.
+        let tuple = self.table.lock().unwrap().get_tuple(tuple_id);
+        tuple.unwrap_or_else(|| panic!("State {:?} doesn't exist", tuple_id))
     }
 }
 
-- 
2.43.0


From 28e69d48919d8c853f8292d292813e6f092bbff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:08 +0000
Subject: [PATCH 10/18] fix: lazy replace and weight factoring report errors of
 their input instead of panicking

---
 .../factor_weight/factor_weight_op.rs         |  8 +++----
 .../src/algorithms/replace/replace_fst_op.rs  | 21 ++++++++++---------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
index f6a7192..b444a82 100644
--- a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
+++ b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
@@ -58,7 +58,7 @@ impl<W: WeightQuantize, F: Fst<W>, B: Borrow<F>, FI: FactorIterator<W>> FstOp<W>
         let mut trs = vec![];
         if let Some(old_state) = elt.state {
             for tr in self.fst.borrow().get_trs(old_state)?.trs() {
-                let weight = elt.weight.times(&tr.weight).unwrap();
+                let weight = elt.weight.times(&tr.weight)?;
                 let factor_it = FI::new(weight.clone());
                 if !self.factor_tr_weights() || factor_it.done() {
                     let dest = self
@@ -88,8 +88,7 @@ impl<W: WeightQuantize, F: Fst<W>, B: Borrow<F>, FI: FactorIterator<W>> FstOp<W>
                 None => elt.weight,
                 Some(s) => elt
                     .weight
-                    .times(self.fst.borrow().final_weight(s)?.unwrap_or(one))
-                    .unwrap(),
+                    .times(self.fst.borrow().final_weight(s)?.unwrap_or(one))?,
             };
             let mut ilabel = self.opts.final_ilabel;
             let mut olabel = self.opts.final_olabel;
@@ -119,8 +118,7 @@ impl<W: WeightQuantize, F: Fst<W>, B: Borrow<F>, FI: FactorIterator<W>> FstOp<W>
             None => elt.weight,
             Some(s) => elt
                 .weight
-                .times(self.fst.borrow().final_weight(s)?.unwrap_or(zero))
-                .unwrap(),
+                .times(self.fst.borrow().final_weight(s)?.unwrap_or(zero))?,
         };
         let factor_iterator = FI::new(weight.clone());
         if !weight.is_zero() && (!self.factor_final_weights() || factor_iterator.done()) {
diff --git a/rustfst/src/algorithms/replace/replace_fst_op.rs b/rustfst/src/algorithms/replace/replace_fst_op.rs
index 10af773..79327fc 100644
--- a/rustfst/src/algorithms/replace/replace_fst_op.rs
+++ b/rustfst/src/algorithms/replace/replace_fst_op.rs
@@ -77,7 +77,7 @@ impl<W: Semiring, F: Fst<W>, B: Borrow<F>> FstOp<W> for ReplaceFstOp<W, F, B> {
         let tuple = self.state_table.tuple_table.find_tuple(state);
         let mut trs = vec![];
         if let Some(fst_state) = tuple.fst_state {
-            if let Some(tr) = self.compute_final_tr(state) {
+            if let Some(tr) = self.compute_final_tr(state)? {
                 // self.cache_impl.push_tr(state, tr)?;
                 trs.push(tr);
             }
@@ -255,16 +255,18 @@ impl<W: Semiring, F: Fst<W>, B: Borrow<F>> ReplaceFstOp<W, F, B> {
         Ok(replace_fst_impl)
     }
 
-    fn compute_final_tr(&self, state: StateId) -> Option<Tr<W>> {
+    fn compute_final_tr(&self, state: StateId) -> Result<Option<Tr<W>>> {
         let tuple = self.state_table.tuple_table.find_tuple(state);
-        let fst_state = tuple.fst_state?;
+        let fst_state = match tuple.fst_state {
+            Some(s) => s,
+            None => return Ok(None),
+        };
         if self
             .fst_array
             .get(tuple.fst_id.unwrap() as usize)
             .unwrap()
             .borrow()
-            .is_final(fst_state)
-            .unwrap()
+            .is_final(fst_state)?
             && tuple.prefix_id > 0
         {
             let ilabel = if epsilon_on_input(self.return_label_type_) {
@@ -290,14 +292,13 @@ impl<W: Semiring, F: Fst<W>, B: Borrow<F>> ReplaceFstOp<W, F, B> {
                 .get(tuple.fst_id.unwrap() as usize)
                 .unwrap()
                 .borrow()
-                .final_weight(fst_state)
-                .unwrap()
+                .final_weight(fst_state)?
             {
-                return Some(Tr::new(ilabel, olabel, weight, nextstate));
+                return Ok(Some(Tr::new(ilabel, olabel, weight, nextstate)));
             }
-            None
+            Ok(None)
         } else {
-            None
+            Ok(None)
         }
     }
 
-- 
2.43.0


From db39ad28d7969b8d320a02b735fe3500f0bc3307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:42 +0000
Subject: [PATCH 11/18] fix: unchecked access to a lazy FST is no longer
 undefined behaviour when expansion fails

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 5 ++---
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index f3e2b84..eaa3e48 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -8,7 +8,6 @@ use std::sync::Arc;
 
 use anyhow::Result;
 use itertools::izip;
-use unsafe_unwrap::UnsafeUnwrap;
 
 use crate::algorithms::lazy::cache::CacheStatus;
 use crate::algorithms::lazy::fst_op::{AccessibleOpState, FstOp, SerializableOpState};
@@ -57,7 +56,7 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     unsafe fn final_weight_unchecked(&self, state_id: StateId) -> Option<W> {
-        self.final_weight(state_id).unsafe_unwrap()
+        self.final_weight(state_id).unwrap()
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
@@ -86,7 +85,7 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     unsafe fn get_trs_unchecked(&self, state_id: StateId) -> Self::TRS {
-        self.get_trs(state_id).unsafe_unwrap()
+        self.get_trs(state_id).unwrap()
     }
 
     fn properties(&self) -> FstProperties {
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 81efefe..2751c07 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -4,7 +4,6 @@ use std::sync::Arc;
 
 use anyhow::Result;
 use itertools::izip;
-use unsafe_unwrap::UnsafeUnwrap;
 
 use crate::algorithms::lazy::fst_op_2::FstOp2;
 use crate::algorithms::lazy::{CacheStatus, FstCache};
@@ -52,7 +51,7 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     unsafe fn final_weight_unchecked(&self, state_id: StateId) -> Option<W> {
-        self.final_weight(state_id).unsafe_unwrap()
+        self.final_weight(state_id).unwrap()
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
@@ -82,7 +81,7 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     unsafe fn get_trs_unchecked(&self, state_id: StateId) -> Self::TRS {
-        self.get_trs(state_id).unsafe_unwrap()
+        self.get_trs(state_id).unwrap()
     }
 
     fn properties(&self) -> FstProperties {
-- 
2.43.0


From 0d1616c4cac5f10945e2e08ce861176152ee73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:58 +0000
Subject: [PATCH 12/18] fix: to_trs_vec of a ConstFst state returns that
 state's transitions only

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From 207971e46788021fdc194f3b88d7a507feb7a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:00 +0000
Subject: [PATCH 13/18] fix: a transition iterator for an unknown state reports
 the failure

---
 rustfst-ffi/src/iterators.rs | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 6130cfd..4420c8c 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -44,20 +44,13 @@ pub struct CTrsIterator(pub(crate) TrsIterator);
 pub unsafe extern "C" fn trs_iterator_new(
     fst_ptr: *mut CFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CTrsIterator,
+    iter_ptr: *mut *const CTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst_ptr);
-        fst.fst_get_trs(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = TrsIterator { trs, index: 0 };
-                    CTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
+        let trs = fst.fst_get_trs(state_id)?;
+        let trs_iterator = TrsIterator { trs, index: 0 };
+        unsafe { *iter_ptr = CTrsIterator(trs_iterator).into_raw_pointer() };
 
         Ok(())
     })
@@ -197,20 +190,13 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 pub unsafe extern "C" fn mut_trs_iterator_new(
     fst_ptr: *mut CVecFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CMutTrsIterator,
+    iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CVecFst, fst_ptr);
-        fst.tr_iter_mut(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = MutTrsIterator { trs, index: 0 };
-                    CMutTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
+        let trs = fst.tr_iter_mut(state_id)?;
+        let trs_iterator = MutTrsIterator { trs, index: 0 };
+        unsafe { *iter_ptr = CMutTrsIterator(trs_iterator).into_raw_pointer() };
 
         Ok(())
     })
-- 
2.43.0


From dab82d264e69c86ba005e064874eb50bcdf39f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:00 +0000
Subject: [PATCH 14/18] fix: an exhausted transition iterator stays done when
 advanced again

---
 rustfst-ffi/src/iterators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 4420c8c..f4ded7a 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -17,7 +17,7 @@ pub struct TrsIterator {
 
 impl TrsIterator {
     fn done(&self) -> bool {
-        self.trs.len() == self.index
+        self.index >= self.trs.len()
     }
 
     fn reset(&mut self) {
@@ -132,7 +132,7 @@ pub struct MutTrsIterator<'a> {
 
 impl<'a> MutTrsIterator<'a> {
     pub fn done(&self) -> bool {
-        self.trs.len() == self.index
+        self.index >= self.trs.len()
     }
 
     pub fn next(&mut self) {
-- 
2.43.0


From 13f9ff3635030fd901a8f71abeb21f4fff32639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:01 +0000
Subject: [PATCH 15/18] fix: trs_vec_remove reports an index out of range
 instead of aborting the process

---
 rustfst-ffi/src/trs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst-ffi/src/trs.rs b/rustfst-ffi/src/trs.rs
index c5603fa..15bde1c 100644
--- a/rustfst-ffi/src/trs.rs
+++ b/rustfst-ffi/src/trs.rs
@@ -2,7 +2,7 @@ use crate::tr::CTr;
 use crate::{get, get_mut, wrap, RUSTFST_FFI_RESULT};
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use ffi_convert::*;
 use rustfst::prelude::TrsVec;
 use rustfst::semirings::TropicalWeight;
@@ -35,6 +35,9 @@ pub unsafe extern "C" fn trs_vec_remove(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs = get_mut!(CTrs, trs);
+        if index >= trs.len() {
+            bail!("No transition at index {}", index);
+        }
         let removed_tr = trs.remove(index);
         let ctr = Box::into_raw(Box::new(CTr::c_repr_of(removed_tr)?));
         unsafe { *removed_tr_ptr = ctr };
-- 
2.43.0


From 86ee834ba1a49f7c64212df7481300f91524d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:23 +0000
Subject: [PATCH 16/18] fix: C getters set the out pointer to NULL when there
 is nothing to return, as documented

---
 rustfst-ffi/src/fst/mod.rs               | 8 ++++----
 rustfst-ffi/src/iterators.rs             | 8 ++++----
 rustfst-python/rustfst/fst/__init__.py   | 4 ++--
 rustfst-python/rustfst/fst/vector_fst.py | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/rustfst-ffi/src/fst/mod.rs b/rustfst-ffi/src/fst/mod.rs
index 58209ba..27c6f12 100644
--- a/rustfst-ffi/src/fst/mod.rs
+++ b/rustfst-ffi/src/fst/mod.rs
@@ -244,7 +244,7 @@ pub unsafe fn fst_is_start(
 #[no_mangle]
 pub unsafe fn fst_input_symbols(
     fst: *const CFst,
-    mut input_symt: *mut *const CSymbolTable,
+    input_symt: *mut *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
@@ -253,7 +253,7 @@ pub unsafe fn fst_input_symbols(
                 let symt = CSymbolTable(it).into_raw_pointer();
                 unsafe { *input_symt = symt }
             })
-            .unwrap_or_else(|| input_symt = std::ptr::null_mut());
+            .unwrap_or_else(|| unsafe { *input_symt = std::ptr::null() });
         Ok(())
     })
 }
@@ -266,7 +266,7 @@ pub unsafe fn fst_input_symbols(
 #[no_mangle]
 pub unsafe fn fst_output_symbols(
     fst: *const CFst,
-    mut output_symt: *mut *const CSymbolTable,
+    output_symt: *mut *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
@@ -275,7 +275,7 @@ pub unsafe fn fst_output_symbols(
                 let symt = CSymbolTable(it).into_raw_pointer();
                 unsafe { *output_symt = symt }
             })
-            .unwrap_or_else(|| output_symt = std::ptr::null_mut());
+            .unwrap_or_else(|| unsafe { *output_symt = std::ptr::null() });
         Ok(())
     })
 }
diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index f4ded7a..526247e 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -62,7 +62,7 @@ pub unsafe extern "C" fn trs_iterator_new(
 #[no_mangle]
 pub unsafe extern "C" fn trs_iterator_next(
     iter_ptr: *mut CTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CTrsIterator, iter_ptr);
@@ -74,7 +74,7 @@ pub unsafe extern "C" fn trs_iterator_next(
                 Ok(())
             })
             .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
+                unsafe { *tr_ptr = std::ptr::null() };
                 Ok(())
             })?;
 
@@ -222,7 +222,7 @@ pub unsafe extern "C" fn mut_trs_iterator_next(
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_value(
     iter_ptr: *mut CMutTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CMutTrsIterator, iter_ptr);
@@ -234,7 +234,7 @@ pub unsafe extern "C" fn mut_trs_iterator_value(
                 Ok(())
             })
             .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
+                unsafe { *tr_ptr = std::ptr::null() };
                 Ok(())
             })?;
         Ok(())
diff --git a/rustfst-python/rustfst/fst/__init__.py b/rustfst-python/rustfst/fst/__init__.py
index 9a05b8b..081b6a9 100644
--- a/rustfst-python/rustfst/fst/__init__.py
+++ b/rustfst-python/rustfst/fst/__init__.py
@@ -136,7 +136,7 @@ class Fst:
         err_msg = "Error getting input symbols"
         check_ffi_error(ret_code, err_msg)
 
-        if table.contents:
+        if table:
             return SymbolTable(ptr=table)
         return None
 
@@ -156,7 +156,7 @@ class Fst:
         err_msg = "Error getting output symbols"
         check_ffi_error(ret_code, err_msg)
 
-        if table.contents:
+        if table:
             return SymbolTable(ptr=table)
         return None
 
diff --git a/rustfst-python/rustfst/fst/vector_fst.py b/rustfst-python/rustfst/fst/vector_fst.py
index a1d2108..50f0e4b 100644
--- a/rustfst-python/rustfst/fst/vector_fst.py
+++ b/rustfst-python/rustfst/fst/vector_fst.py
@@ -35,7 +35,7 @@ class VectorFst(Fst):
             ret_code = lib.fst_input_symbols(self.ptr, ctypes.byref(isymt))
             err_msg = "Error getting input symbols"
             check_ffi_error(ret_code, err_msg)
-            if isymt.contents:
+            if isymt:
                 self._input_symbols = SymbolTable(ptr=isymt)
 
             # Check if osymt inside
@@ -43,7 +43,7 @@ class VectorFst(Fst):
             ret_code = lib.fst_output_symbols(self.ptr, ctypes.byref(osymt))
             err_msg = "Error getting input symbols"
             check_ffi_error(ret_code, err_msg)
-            if osymt.contents:
+            if osymt:
                 self._output_symbols = SymbolTable(ptr=osymt)
 
         else:
-- 
2.43.0


From 4a9c622031ec68666037e24b7ae61b052d481622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:44 +0000
Subject: [PATCH 17/18] fix: the command-line tool exits with a failure status
 when a command fails

---
 rustfst-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 1311e09..3bf5b98 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -202,7 +202,7 @@ fn main() {
 
     if let Err(e) = handle(matches) {
         error!("{:?}", e);
-        process::exit(exitcode::OK)
+        process::exit(exitcode::SOFTWARE)
     }
 }
 
-- 
2.43.0


From c491130309941a095678e1660239be55560d9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:25 +0000
Subject: [PATCH 18/18] fix: commands run as a benchmark only when --bench is
 given

With the flag's default value contains_id is always true: every command read its input, ran and
wrote its output 13 times, and one whose output file is its input was applied 13 times over.
---
 rustfst-cli/src/unary_fst_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/unary_fst_algorithm.rs b/rustfst-cli/src/unary_fst_algorithm.rs
index 5abd77a..e5a4797 100644
--- a/rustfst-cli/src/unary_fst_algorithm.rs
+++ b/rustfst-cli/src/unary_fst_algorithm.rs
@@ -38,7 +38,7 @@ pub trait UnaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
-- 
2.43.0

