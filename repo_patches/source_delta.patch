From 75825a4cfafa7dfd3c1da264f49609c63a855e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 01/17] fix: bulk_remove pairs each removed signature with its
 own id

With an absent or repeated id in the list the signatures were zipped with
the wrong ids, so removed documents stayed in the bands.
---
 gaoya/src/minhash/minhash_index.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..f514e40 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -700,16 +700,17 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
+        // Absent and repeated ids have no signature to remove, each signature stays with its id
+        let removed: Vec<(&Id, Vec<T>)> = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
             .collect();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
-                    .for_each(|(sig, id)| band.remove(id, sig))
+                removed.iter()
+                    .for_each(|(id, sig)| band.remove(id, sig))
             });
-        sigs
+        removed.into_iter().map(|(_, sig)| sig).collect()
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From bb4e5f2f473a6362681e66666786f351afa39fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 02/17] fix: scored queries do not panic on band entries of
 absent ids

query() and query_one() already skip ids that a band still holds but that
have no signature (re-inserted then removed documents, interrupted bulk
inserts); query_owned_return_similarity and query_top_k panicked.
---
 gaoya/src/minhash/minhash_index.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index f514e40..966b473 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -628,8 +628,11 @@ where
         }
         let mut result = Vec::new();
         for id in match_ids.into_iter() {
-            let signature = &self.id_signatures[&id];
-            let similarity = compute_minhash_similarity(signature, query_signature);
+            // a band may hold an id that is not in the index any more, see query()
+            let similarity = match self.id_signatures.get(&id) {
+                Some(signature) => compute_minhash_similarity(signature, query_signature),
+                None => continue,
+            };
             if similarity >= self.threshold {
                 result.push((id, similarity))
             }
@@ -647,10 +650,10 @@ where
         }
         let mut ids_distances: Vec<(Id, f64)> = match_ids
             .into_iter()
-            .map(|id| {
-                let signature = &self.id_signatures[&id];
+            .filter_map(|id| {
+                let signature = self.id_signatures.get(&id)?;
                 let distance = compute_minhash_distance(query_signature, signature);
-                (id, distance)
+                Some((id, distance))
             })
             .collect();
         ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
-- 
2.43.0


From 4597d31d320ac50d78d61596e80aa5f9f56ed4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 03/17] fix: shrink_to does not panic when no documents share a
 band or on an empty index

---
 gaoya/src/minhash/minhash_index.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 966b473..e64940d 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -486,8 +486,10 @@ where
             .for_each(|band| {
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
-                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
+                // It is equal when no two documents share the band, and nothing can be
+                // said about an empty index.
+                let len = self.id_signatures.len().max(1);
+                let ratio = (band.hash_table.len() as f64 / len as f64).min(1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From 35c5dce98dae308bec7d40b2418fd9692e3b6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 04/17] fix: bulk inserts check every signature before changing
 the index

Only the first signature's length was checked (none for pairs): a short one
panicked in the middle of the insert, a long one was silently indexed.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index e64940d..411d4c3 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -430,8 +430,9 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        // Before anything is changed: a panic half way would leave bands and signatures apart
+        for signature in &signatures {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         self.bands.par_iter_mut().for_each(|band| {
@@ -452,6 +453,9 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        for (_, signature) in &id_signature_pairs {
+            assert_eq!(self.num_hashes(), signature.len());
+        }
         self.bands.par_iter_mut().for_each(|band| {
             for item in id_signature_pairs.iter() {
                 let i: &(Id, Vec<T>) = item;
-- 
2.43.0


From f005ac8f6143115299c0d162bd742b8e6bd4d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:38 +0000
Subject: [PATCH 05/17] fix: query_one includes points at the threshold, like
 every other query

---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 411d4c3..347c9f4 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -545,7 +545,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From c5c628d8bb91d7ae6364abc2f30cc8ba95855758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 06/17] fix: SimHashIndex::size returns the number of
 documents, not 0

---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..66ebc3e 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From 409e7410d418ac8b009f6de0a59776061c21daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 07/17] fix: SimHashIndex queries do not panic on ids without
 signature

An insert that is interrupted by a panic in the caller's Clone or Hash leaves
ids in the tables that have no signature; every later query that met one
panicked.
---
 gaoya/src/simhash/sim_hash_index.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 66ebc3e..b58d6a5 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -53,8 +53,10 @@ where
                 let matches = candidates
                     .iter()
                     .filter(|id| {
-                        let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        // an interrupted insert may leave an id without signature
+                        id_signatures.get(id).map_or(false, |signature| {
+                            query_signature.hamming_distance(signature) < max_distance
+                        })
                     });
                 match_ids.extend(matches);
             }
@@ -74,8 +76,10 @@ where
                 let matches = candidates
                     .iter()
                     .filter(|id| {
-                        let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        // an interrupted insert may leave an id without signature
+                        id_signatures.get(id).map_or(false, |signature| {
+                            query_signature.hamming_distance(signature) < max_distance
+                        })
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From 7ecbecd530036d489cf1b3f8e20b4bc3bfd3cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 08/17] fix: SimHash queries include documents at the maximum
 distance

The documentation promises entries with a distance less than or equal to
hamming_distance, and the block permutations are built for it.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index b58d6a5..c55a308 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -55,7 +55,7 @@ where
                     .filter(|id| {
                         // an interrupted insert may leave an id without signature
                         id_signatures.get(id).map_or(false, |signature| {
-                            query_signature.hamming_distance(signature) < max_distance
+                            query_signature.hamming_distance(signature) <= max_distance
                         })
                     });
                 match_ids.extend(matches);
@@ -78,7 +78,7 @@ where
                     .filter(|id| {
                         // an interrupted insert may leave an id without signature
                         id_signatures.get(id).map_or(false, |signature| {
-                            query_signature.hamming_distance(signature) < max_distance
+                            query_signature.hamming_distance(signature) <= max_distance
                         })
                     }).cloned();
                 match_ids.extend(matches);
-- 
2.43.0


From b26ebabaf28c74c8c69722300308ab6ae616cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 09/17] fix: serial clusterer keeps clusters of exactly
 min_cluster_size and its id sequence

The parallel clusterer accepts clusters of min_cluster_size points; the serial
one dropped them, and gave the same ids again on its next call.
---
 gaoya/src/clustering/clustering_serial.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..f909e83 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -90,7 +90,6 @@ impl<Id> Clusterer<Id>
                    points: &mut Vec<ClusterPoint<Id>>,
                    query_index: & (dyn QueryIndex<Id=ClusterPoint<Id>> )) -> Vec<Box<Cluster<Id>>> {
         let mut clusters = Vec::new();
-        let mut cluster_id_seq = self.cluster_id_sequence;
         for point in points {
             if point.cluster.get().is_some() {
                 continue;
@@ -99,9 +98,9 @@ impl<Id> Clusterer<Id>
             let similar_points: Vec<_> = query_index.query(point).into_iter()
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
-            if similar_points.len() > self.min_cluster_size {
-                cluster_id_seq += 1;
-                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
+            if similar_points.len() >= self.min_cluster_size {
+                let cluster_id = self.new_cluster_id();
+                let cluster = self.create_new_cluster(similar_points, cluster_id);
                 clusters.push(cluster);
             }
         }
-- 
2.43.0


From 8285d498577c3424e46eb9d45d66c86913204864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 10/17] fix: cluster_par does not panic with fewer points than
 threads, or no threads

---
 gaoya/src/clustering/clusterer_parallel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..1499eeb 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -167,7 +167,8 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        // par_chunks_mut does not accept empty chunks
+        let chunk_size = (points.len() / self.n_threads.max(1)).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0


From 2816af33a25f1ef8c1e55dc3c1c3e670c9259cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:07 +0000
Subject: [PATCH 11/17] fix: parallel clusterer creates clusters atomically

Two threads building clusters from overlapping points tried to roll each other
back, but COMMITTED and ROLLED_BACK were the same value, a rolled back cluster
went on, the retry was a no-op, and a losing cluster was freed while the other
thread still looked at it: points ended up in two clusters or pointed to freed
ones, and whole groups were lost. Cluster creation now happens under a lock.
---
 gaoya/src/clustering/clusterer_parallel.rs | 119 +++++----------------
 1 file changed, 25 insertions(+), 94 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index 1499eeb..ca99fae 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -8,7 +8,8 @@ use std::marker::PhantomData;
 use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
+use std::sync::Mutex;
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -85,13 +86,9 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
-const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
-
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
     pub cluster_id: u32,
-    state: AtomicU8,
 }
 
 impl<Id> Cluster<Id> {
@@ -99,33 +96,8 @@ impl<Id> Cluster<Id> {
         Cluster {
             points: Vec::with_capacity(cluster_size),
             cluster_id: cluster_id,
-            state: AtomicU8::new(0),
         }
     }
-
-    /// cluster state machine is simple. There are only 3 possible states and 2 transitions:
-    /// NEW -> COMMITTED, NEW -> ROLLED_BACK
-
-
-    fn commit(&self) -> bool {
-        self.state
-            .compare_exchange(0, COMMITTED, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn rollback(&self) -> bool {
-        self.state
-            .compare_exchange(0, ROLLED_BACK, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn is_rolled_back(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == ROLLED_BACK
-    }
-
-    fn is_commited(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == COMMITTED
-    }
 }
 
 /// Parallel Clusterer searches clusters using multiple threads
@@ -135,6 +107,7 @@ impl<Id> Cluster<Id> {
 ///
 pub struct Clusterer<T, Id> {
     cluster_id_sequence: AtomicU32,
+    create_lock: Mutex<()>,
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
@@ -148,6 +121,7 @@ where
     pub fn new(min_cluster_size: usize, n_threads: usize) -> Self {
         Clusterer {
             cluster_id_sequence: AtomicU32::new(0),
+            create_lock: Mutex::new(()),
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
@@ -207,9 +181,9 @@ where
                 .collect();
 
             if similar_points.len() >= self.min_cluster_size {
-                let mut similar_points_cloned =
+                let similar_points_cloned =
                     similar_points.into_iter().map(|p| p.clone()).collect();
-                match self.try_create_cluster(&mut similar_points_cloned) {
+                match self.try_create_cluster(point, similar_points_cloned) {
                     Some(cluster) => {
                         clusters.push(cluster);
                     }
@@ -222,71 +196,28 @@ where
 
     /// Creates a new cluster given the points.
     /// During parallel clustering two threads may attempt to create a cluster from
-    /// similar points.
-    fn try_create_cluster(&self, points: &mut Vec<ClusterPoint<Id>>) -> Option<Box<Cluster<Id>>> {
-        let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
-        let mut cluster: Box<Cluster<Id>> =
-            Box::new(Cluster::new(cluster_id, self.min_cluster_size));
-        let cluster_const_ptr: *const Cluster<Id> = &*cluster;
-        let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
-
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
-            match point.assign_cluster(cluster_ptr) {
-                Ok(_) => {
-                    cluster.points.push(point.clone());
-                }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
-                }
-            }
+    /// similar points. Creation is serialized: the first one gets the points, the second
+    /// one is left with those that are still free, if there are enough of them.
+    fn try_create_cluster(
+        &self,
+        seed: &ClusterPoint<Id>,
+        mut points: Vec<ClusterPoint<Id>>,
+    ) -> Option<Box<Cluster<Id>>> {
+        let _guard = self.create_lock.lock().unwrap_or_else(|e| e.into_inner());
+        if seed.is_cluster_assigned() {
+            return None;
         }
-        if !cluster.commit() {
-            self.rollback_cluster_points(&mut cluster, cluster_ptr);
+        points.retain(|point| !point.is_cluster_assigned());
+        if points.len() < self.min_cluster_size {
             return None;
         }
-        Some(cluster)
-    }
-
-    fn rollback_cluster_points(
-        &self,
-        cluster: &mut Box<Cluster<Id>>,
-        cluster_ptr: *mut Cluster<Id>,
-    ) {
-        for point in cluster.points.iter_mut() {
-            point.cluster.compare_exchange(
-                cluster_ptr,
-                null_mut(),
-                Ordering::Relaxed,
-                Ordering::Relaxed,
-            );
+        let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
+        let mut cluster: Box<Cluster<Id>> = Box::new(Cluster::new(cluster_id, 0));
+        cluster.points = points;
+        let cluster_ptr: *mut Cluster<Id> = &mut *cluster;
+        for point in cluster.points.iter() {
+            point.assign_cluster(cluster_ptr);
         }
+        Some(cluster)
     }
 }
-- 
2.43.0


From 4c64ad17d8ffda141ed3842a7baa412af8fe1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 12/17] fix: loading stops at the first read error and
 load_from_file reports it

load_from_lines looped for ever on a reader that keeps failing, and after a
single failure indexed the rest of a torn line as a document. load_from_file
returned Ok for a file that could not be read. Lines that are not UTF-8 are
skipped, as before.
---
 gaoya/src/minhash/string_index.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..e5b89b5 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -26,6 +26,22 @@ impl Display for MinHashStringIndex {
     }
 }
 
+/// Reads the next line, without its terminator. A line that is cut off by a read error is
+/// not a line. Unlike [`BufRead::lines`] it tells read errors from lines that are not UTF-8.
+fn read_line<R: BufRead>(reader: &mut R) -> Result<Option<Vec<u8>>, Error> {
+    let mut line = Vec::new();
+    if reader.read_until(b'\n', &mut line)? == 0 {
+        return Ok(None);
+    }
+    if line.last() == Some(&b'\n') {
+        line.pop();
+        if line.last() == Some(&b'\r') {
+            line.pop();
+        }
+    }
+    Ok(Some(line))
+}
+
 impl MinHashStringIndex {
 
     pub fn new(num_bands: usize, band_width: usize, jaccard_threshold: f64) -> Self {
@@ -51,12 +67,17 @@ impl MinHashStringIndex {
     }
 
     pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
-        for line_result in reader.lines() {
-            match line_result {
-                Ok(line) => self.insert(line),
-                Err(e) => (),
+        // The lines before a read error are loaded
+        let _ = self.try_load_from_lines(reader);
+    }
+
+    fn try_load_from_lines<R: BufRead>(&mut self, reader: &mut R) -> Result<(), Error> {
+        while let Some(line) = read_line(reader)? {
+            if let Ok(line) = String::from_utf8(line) {
+                self.insert(line);
             }
         }
+        Ok(())
     }
 
     pub fn load_from_file(&mut self, file_name: &str) -> Result<usize, Error> {
@@ -64,7 +85,7 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                self.load_from_lines(&mut reader);
+                self.try_load_from_lines(&mut reader)?;
                 let new_count = self.size() - current_size;
                 Ok(new_count)
             }
-- 
2.43.0


From d01d8288dc318ff8563cba44c1756c3da3d4dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:13 +0000
Subject: [PATCH 13/17] fix: load_from_file_parallel does not panic on read
 errors and invalid UTF-8

Like load_from_file it skips lines that are not UTF-8 and returns read errors;
then nothing is loaded.
---
 gaoya/src/minhash/string_index.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index e5b89b5..c527e87 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -98,10 +98,16 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                let lines: Vec<(u64, String)> = reader
-                    .lines()
+                let mut texts: Vec<String> = Vec::new();
+                while let Some(line) = read_line(&mut reader)? {
+                    if let Ok(text) = String::from_utf8(line) {
+                        texts.push(text);
+                    }
+                }
+                let lines: Vec<(u64, String)> = texts
+                    .into_iter()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id, v.1))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From 781ba762d62e65de0ae002fb2874e6d229ab70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:14 +0000
Subject: [PATCH 14/17] fix: load_from_file_parallel does not overwrite the
 last document

insert() gives ids from 1 (doc_id + 1), the parallel load started at doc_id:
the first loaded line replaced the last document loaded before.
---
 gaoya/src/minhash/string_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index c527e87..cf7d359 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -107,7 +107,7 @@ impl MinHashStringIndex {
                 let lines: Vec<(u64, String)> = texts
                     .into_iter()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From 17ff994042863d1930dc7884a4c814f12165a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 15/17] fix: Python SimHashStringIndex calls methods that exist

query(return_hamming_distance=True), par_bulk_query(return_similarity=True) and
par_bulk_query with a callable analyzer raised AttributeError.
---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..621f847 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From b837924d34f494c98d657dbc3efdb350817109c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:20 +0000
Subject: [PATCH 16/17] fix: removing an id inserted twice removes it from its
 buckets completely

---
 gaoya/src/minhash/id_container.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gaoya/src/minhash/id_container.rs b/gaoya/src/minhash/id_container.rs
index 6f05689..a7919e5 100644
--- a/gaoya/src/minhash/id_container.rs
+++ b/gaoya/src/minhash/id_container.rs
@@ -100,9 +100,8 @@ impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for  VecContainer<T> {
 
 
     fn remove(&mut self, item: &T) {
-        if let Some(index) =  self.vec.iter().position(|x| x == item) {
-            self.vec.swap_remove(index);
-        }
+        // an id that was inserted more than once is here more than once
+        self.vec.retain(|x| x != item);
     }
 }
 
@@ -138,9 +137,7 @@ impl<T: Hash + Eq + Send + Sync + Clone, const N: usize> IdContainer<T> for Smal
 
 
     fn remove(&mut self, item: &T) {
-        if let Some(index) = self.vec.iter().position(|x| x == item) {
-            self.vec.swap_remove(index);
-        };
+        self.vec.retain(|x| x != item);
     }
 }
 
-- 
2.43.0


From f200303bf104c30605d8f7cb530e972c9d42c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 17/17] fix: a panic during clustering does not leave points
 with dangling clusters

---
 gaoya/src/clustering/clusterer_parallel.rs | 31 ++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ca99fae..073a6df 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -100,6 +100,27 @@ impl<Id> Cluster<Id> {
     }
 }
 
+/// Clusters which are not yet handed over to the caller. If they never are, because the
+/// clustering panics, their points are released instead of being left with a pointer to
+/// a cluster that no longer exists.
+struct PendingClusters<Id>(Vec<Box<Cluster<Id>>>);
+
+impl<Id> PendingClusters<Id> {
+    fn into_clusters(mut self) -> Vec<Box<Cluster<Id>>> {
+        std::mem::take(&mut self.0)
+    }
+}
+
+impl<Id> Drop for PendingClusters<Id> {
+    fn drop(&mut self) {
+        for cluster in self.0.iter() {
+            for point in cluster.points.iter() {
+                point.cluster.store(null_mut(), Ordering::Relaxed);
+            }
+        }
+    }
+}
+
 /// Parallel Clusterer searches clusters using multiple threads
 ///
 ///
@@ -133,7 +154,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &(dyn QueryIndex<Id = ClusterPoint<Id>> + Sync),
     ) -> Vec<Box<Cluster<Id>>> {
-        self.cluster_slice(points.as_mut_slice(), query_index)
+        self.cluster_slice(points.as_mut_slice(), query_index).into_clusters()
     }
 
     pub fn cluster_par<C: IdContainer<ClusterPoint<Id>>>(
@@ -146,7 +167,7 @@ where
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-        result.into_iter().flat_map(|v| v.into_iter()).collect()
+        result.into_iter().flat_map(|clusters| clusters.into_clusters()).collect()
     }
 
     fn sort_by_most_number_of_similar_points(
@@ -169,8 +190,8 @@ where
         &self,
         points: &mut [ClusterPoint<Id>],
         query_index: &dyn QueryIndex<Id = ClusterPoint<Id>>,
-    ) -> Vec<Box<Cluster<Id>>> {
-        let mut clusters = Vec::new();
+    ) -> PendingClusters<Id> {
+        let mut clusters = PendingClusters(Vec::new());
         self.sort_by_most_number_of_similar_points(points, query_index);
         for point in points {
             if point.cluster.load(Ordering::Relaxed) != null_mut() {
@@ -185,7 +206,7 @@ where
                     similar_points.into_iter().map(|p| p.clone()).collect();
                 match self.try_create_cluster(point, similar_points_cloned) {
                     Some(cluster) => {
-                        clusters.push(cluster);
+                        clusters.0.push(cluster);
                     }
                     None => {}
                 }
-- 
2.43.0

