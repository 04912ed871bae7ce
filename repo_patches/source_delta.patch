From 0af7e1c41cc854ad0998db91b13813526ed5c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 01/27] fix: wait for readers that started after the last
 refresh before freeing the map

---
 goko/src/monomap/write.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index b67abac..69c42ad 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -77,14 +77,22 @@ where
             .inner
             .swap(ptr::null_mut(), atomic::Ordering::Release);
 
-        // now, wait for all readers to depart
         let epochs = Arc::clone(&self.epochs);
         let mut epochs = epochs.lock().unwrap();
-        self.wait(&mut epochs);
 
         // ensure that the subsequent epoch reads aren't re-ordered to before the swap
         atomic::fence(atomic::Ordering::SeqCst);
 
+        // the epochs sampled by the last refresh say nothing about the readers that started
+        // since, and those are the ones holding r_handle
+        self.last_epochs.resize(epochs.len(), 0);
+        for (i, epoch) in epochs.iter().enumerate() {
+            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
+        }
+
+        // now, wait for all readers to depart
+        self.wait(&mut epochs);
+
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
         #[cfg(not(feature = "indexed"))]
-- 
2.43.0


From 2869fbd1b40e401c50c48ef3c78624cf8df90f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 02/27] fix: flush publishes the writes made before the first
 refresh

---
 goko/src/monomap/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index 69c42ad..d571aee 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -272,7 +272,8 @@ where
     /// `MonoWriteHandle::refresh` will *always* wait for old readers to depart and swap the maps.
     /// This method will only do so if there are pending operations.
     pub fn flush(&mut self) -> &mut Self {
-        if !self.pending().is_empty() {
+        // before the first refresh writes go straight to w_handle and are not pending in the oplog
+        if self.first || !self.pending().is_empty() {
             self.refresh();
         }
 
-- 
2.43.0


From cf86bffec103eb3b52b57476a9b5aa32aaae2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:14 +0000
Subject: [PATCH 03/27] fix: a nested read on a handle keeps the outer read
 announced

---
 goko/src/monomap/read.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 33c5fc5..328935e 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -26,6 +26,8 @@ where
     pub(crate) epochs: crate::monomap::Epochs,
     epoch: sync::Arc<sync::atomic::AtomicUsize>,
     my_epoch: sync::atomic::AtomicUsize,
+    // set while a read is in progress, so that a read nested inside it leaves the epoch alone
+    reading: cell::Cell<bool>,
 
     // Since a `MonoReadHandle` keeps track of its own epoch, it is not safe for multiple threads to
     // call `with_handle` at the same time. We *could* keep it `Sync` and make `with_handle`
@@ -117,6 +119,7 @@ where
             epochs,
             epoch,
             my_epoch: atomic::AtomicUsize::new(0),
+            reading: cell::Cell::new(false),
             inner,
             _not_sync_no_feature: PhantomData,
         }
@@ -169,6 +172,13 @@ where
         //
         // in all cases, using a pointer we read *after* updating our epoch is safe.
 
+        if self.reading.get() {
+            // a read nested inside another one on this handle: the epoch of the outer read stays
+            // announced until the outer read is done, and covers this one too.
+            return unsafe { self.inner.load(atomic::Ordering::Acquire).as_ref().map(f) };
+        }
+        self.reading.set(true);
+
         // so, update our epoch tracker.
         let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
         self.epoch.store(epoch + 1, atomic::Ordering::Release);
@@ -180,16 +190,21 @@ where
         let r_handle = self.inner.load(atomic::Ordering::Acquire);
 
         // add a guard to ensure we restore read parity even if we panic
-        struct RestoreParity<'a>(&'a sync::Arc<sync::atomic::AtomicUsize>, usize);
+        struct RestoreParity<'a>(
+            &'a sync::Arc<sync::atomic::AtomicUsize>,
+            usize,
+            &'a cell::Cell<bool>,
+        );
         impl<'a> Drop for RestoreParity<'a> {
             fn drop(&mut self) {
                 self.0.store(
                     (self.1 + 1) | 1usize << (mem::size_of::<usize>() * 8 - 1),
                     atomic::Ordering::Release,
                 );
+                self.2.set(false);
             }
         }
-        let _guard = RestoreParity(&self.epoch, epoch);
+        let _guard = RestoreParity(&self.epoch, epoch, &self.reading);
 
         // and finally, call the provided handler function
         unsafe { r_handle.as_ref().map(f) }
-- 
2.43.0


From f3b60cede0c660dfae5e84b7ae731c32917518ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 04/27] fix: routing_knn keeps going after a leaf while nodes
 remain unvisited

---
 goko/src/covertree/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 582709c..644a18f 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -326,6 +326,7 @@ impl<D: PointCloud> CoverTreeReader<D> {
         while let Some((dist, nearest_address)) =
             query_heap.closest_unvisited_child_covering_address()
         {
+            did_something = true;
             if self
                 .get_node_and(nearest_address, |n| n.is_leaf())
                 .unwrap_or(true)
@@ -336,7 +337,6 @@ impl<D: PointCloud> CoverTreeReader<D> {
                     n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
                 });
             }
-            did_something = true;
         }
         did_something
     }
-- 
2.43.0


From 77737fd47bf726c787073498bcf9fafac342c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:59 +0000
Subject: [PATCH 05/27] fix: building a tree over identical points no longer
 panics on the layer capacity

---
 goko/src/covertree/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 5dd3945..18eeba3 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -398,7 +398,7 @@ impl CoverTreeBuilder {
         let root = BuilderNode::new(&parameters, self.partition_type)?;
         let root_address = root.address();
         let scale_range = root_address.0 - parameters.min_res_index;
-        let mut layers = Vec::with_capacity(scale_range as usize);
+        let mut layers = Vec::with_capacity(max(scale_range, 0) as usize);
         layers.push(CoverLayerWriter::new(parameters.min_res_index - 1));
         for i in 0..(scale_range + 1) {
             layers.push(CoverLayerWriter::new(parameters.min_res_index + i as i32));
-- 
2.43.0


From 6eb2016112cb791e1e9d4f6bca75a8f90bf79890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:59 +0000
Subject: [PATCH 06/27] fix: read the seed from its own key of the yaml
 configuration

---
 goko/src/covertree/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 18eeba3..9312a99 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -345,7 +345,7 @@ impl CoverTreeBuilder {
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
             partition_type,
             verbosity: params["verbosity"].as_i64().unwrap_or(2) as u32,
-            rng_seed: params["verbosity"].as_i64().map(|i| i as u64),
+            rng_seed: params["rng_seed"].as_i64().map(|i| i as u64),
         }
     }
 
-- 
2.43.0


From c1a688fe21f7f5945936b8c1ed50eed26cf641cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:38 +0000
Subject: [PATCH 07/27] fix: removing a point from a DiagGaussian decrements
 its count

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index e7ef561..c6fa7ba 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -134,7 +134,7 @@ impl DiagGaussian {
                 .iter_mut()
                 .zip(point.dense_iter())
                 .for_each(|(m, p)| *m -= p * p);
-            self.count += 1;
+            self.count -= 1;
         }
     }
 
-- 
2.43.0


From 8a7dc1af829c55778dc50c34523d1547a0f6257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 08/27] fix: a glued cloud over no sources is empty

---
 pointcloud/src/glued_data_cloud.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 28ef578..e5df14f 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -99,11 +99,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Total number of points in the point cloud
     fn is_empty(&self) -> bool {
-        if self.data_sources.is_empty() {
-            false
-        } else {
-            self.data_sources.iter().all(|m| m.is_empty())
-        }
+        self.data_sources.iter().all(|m| m.is_empty())
     }
 
     /// The names of the data are currently a shallow wrapper around a usize.
-- 
2.43.0


From c723ad2285a205688343fa689f253216f8e016e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 09/27] fix: the index of a name in a glued cloud is an index
 of the glued cloud

---
 pointcloud/src/glued_data_cloud.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index e5df14f..67796c8 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -129,10 +129,13 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
         self.data_sources[i].name(j)
     }
     fn index(&self, pn: &str) -> PointCloudResult<usize> {
-        for data_source in &self.data_sources {
-            let index = data_source.index(pn);
-            if index.is_ok() {
-                return index;
+        for (i, data_source) in self.data_sources.iter().enumerate() {
+            if let Ok(j) = data_source.index(pn) {
+                for (pi, address) in self.addresses.iter() {
+                    if *address == (i, j) {
+                        return Ok(*pi);
+                    }
+                }
             }
         }
         Err(PointCloudError::UnknownName)
-- 
2.43.0


From 22b4b433c55ee6f59d46b5a49c83839c06557c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 10/27] fix: distances over points of more than 300000
 dimensions no longer ask for empty chunks

---
 pointcloud/src/base_traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/base_traits.rs b/pointcloud/src/base_traits.rs
index 8ee6c1f..b69bfd4 100644
--- a/pointcloud/src/base_traits.rs
+++ b/pointcloud/src/base_traits.rs
@@ -39,7 +39,7 @@ use ndarray::{Array1, Array2};
 
 #[inline]
 fn chunk(data_dim: usize) -> usize {
-    min(300000 / data_dim, 100)
+    min(300000 / data_dim, 100).max(1)
 }
 
 /// Base trait for a point cloud
-- 
2.43.0


From da25991e73c378501f429c5781e11e84f9d21575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 11/27] fix: merging labels keeps the labels of the side that
 has no mask

---
 pointcloud/src/label_sources/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index e0b28e1..1d11eab 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -69,15 +69,15 @@ impl SmallIntLabels {
         match (self.mask.as_mut(), other.mask.as_ref()) {
             (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),
             (Some(s_mask), None) => {
-                s_mask.extend(std::iter::repeat(false).take(other.labels.len()))
+                s_mask.extend(std::iter::repeat(true).take(other.labels.len()))
             }
             (None, Some(_)) => replace_mask = true,
             (None, None) => {}
         }
 
         if replace_mask {
-            let mut mask = std::iter::repeat(false)
-                .take(self.labels.len())
+            let mut mask = std::iter::repeat(true)
+                .take(self.labels.len() - other.labels.len())
                 .collect::<Vec<bool>>();
             mask.extend(other.mask.as_ref().unwrap().iter());
             self.mask = Some(mask)
-- 
2.43.0


From 425ae222ef892e31c0e8151e797b868407dd0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 12/27] fix: the length of vector labels is the number of
 labels

---
 pointcloud/src/label_sources/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index 1d11eab..d79c4a3 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -171,7 +171,7 @@ impl LabelSet for VecLabels {
     type LabelSummary = VecSummary;
 
     fn len(&self) -> usize {
-        self.labels.len()
+        self.labels.len() / self.label_dim
     }
     fn is_empty(&self) -> bool {
         self.labels.is_empty()
-- 
2.43.0


From f62e09095ee825a8da61ff20f636cb49919e173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 13/27] fix: only negative labels of a CSV are masked

---
 pointcloud/src/loaders/csv_loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 26e31e2..c1a0a2a 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -49,7 +49,7 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
                         key: format!("Unable to read u64 from {:?}", record),
                     })
                 })?;
-                if 0 < val {
+                if 0 <= val {
                     mask.push(true);
                 } else {
                     mask.push(false);
-- 
2.43.0


From a4fbc20c6561c0860f1e8a8db7eee588b902f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 14/27] fix: the first vector added to a summary is counted

---
 pointcloud/src/summaries/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index 0f6c110..f9e282d 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -94,7 +94,8 @@ impl Summary for VecSummary {
             }
         } else {
             self.moment1.extend(val);
-            self.moment2.extend(val.iter().map(|x| x * x))
+            self.moment2.extend(val.iter().map(|x| x * x));
+            self.count += 1;
         }
     }
     fn combine(&mut self, other: &VecSummary) {
-- 
2.43.0


From 7e4fbbc3bf8d0d86ef917f9f6686b6f41bdaae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 15/27] fix: combining into an empty vector summary keeps the
 moments

---
 pointcloud/src/summaries/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index f9e282d..4669add 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -99,6 +99,10 @@ impl Summary for VecSummary {
         }
     }
     fn combine(&mut self, other: &VecSummary) {
+        if self.moment1.is_empty() {
+            self.moment1.resize(other.moment1.len(), 0.0);
+            self.moment2.resize(other.moment2.len(), 0.0);
+        }
         self.moment1
             .iter_mut()
             .zip(&other.moment1)
-- 
2.43.0


From 6461dbfc90118283ab0ef3f56b76fee3fb95c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 16/27] fix: the dense iterator of a sparse point yields the
 zeros after the last stored value

---
 pointcloud/src/points/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/points/mod.rs b/pointcloud/src/points/mod.rs
index 0a78ed1..a0a8166 100644
--- a/pointcloud/src/points/mod.rs
+++ b/pointcloud/src/points/mod.rs
@@ -65,7 +65,10 @@ where
     type Item = f32;
     fn next(&mut self) -> Option<Self::Item> {
         let dim = self.raw.dim();
-        if self.index < dim && self.sparse_index < self.raw.len {
+        if self.index < dim && self.sparse_index >= self.raw.len {
+            self.index += 1;
+            Some(0.0)
+        } else if self.index < dim {
             let raw_si = unsafe { *self.raw.indexes_ptr.add(self.sparse_index) };
 
             let si: usize = match raw_si.try_into() {
-- 
2.43.0


From b8c3846e1807e6777d1ca5a0d45a6d1fe42ee4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 17/27] fix: unmap and protect the whole memory map

---
 pointcloud/src/data_sources/memmapf32/unix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/data_sources/memmapf32/unix.rs b/pointcloud/src/data_sources/memmapf32/unix.rs
index 0f9cb38..c2aabe8 100644
--- a/pointcloud/src/data_sources/memmapf32/unix.rs
+++ b/pointcloud/src/data_sources/memmapf32/unix.rs
@@ -79,7 +79,7 @@ impl MmapInner {
             } else {
                 Ok(MmapInner {
                     ptr: ptr.offset(alignment as isize),
-                    len: len / 4,
+                    len,
                 })
             }
         }
@@ -205,7 +205,7 @@ impl MmapInner {
 
     #[inline]
     pub fn len(&self) -> usize {
-        self.len
+        self.len / 4
     }
 }
 
-- 
2.43.0


From 763c527edc2ded1f489504d546a5753227e86844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:54 +0000
Subject: [PATCH 18/27] fix: bulk queries over no points return no results
 instead of panicking

---
 goko/src/query_interface/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index af6cd66..0cbd424 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -35,7 +35,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Applies the passed in fn to the passed in indexes and collects the result in a vector. Core function for this struct.
@@ -60,7 +60,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Bulk known path
@@ -130,7 +130,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From b59fa52c3de411f8783f1233fc038915a14f8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:54 +0000
Subject: [PATCH 19/27] fix: unpacking a knn query no longer allocates for more
 neighbours than were found

---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index c579692..2d8486c 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -195,7 +195,7 @@ impl KnnQueryHeap {
 
     /// Unpacks the distance heap. This consumes the query heap.
     pub fn unpack(mut self) -> Vec<(f32, usize)> {
-        let mut result = Vec::with_capacity(self.k);
+        let mut result = Vec::with_capacity(self.dist_heap.len());
         while let Some(el) = self.dist_heap.pop() {
             result.push((el.dist, el.index));
         }
-- 
2.43.0


From bf71253413cda49249095e10b63d43eabcb91c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:54 +0000
Subject: [PATCH 20/27] fix: a request leaves the in flight count once, when
 its response is ready

---
 serve_goko/src/core/internal_service.rs | 5 ++++-
 serve_goko/src/http/message.rs          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3c62082..ab42b54 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -59,6 +59,7 @@ impl<T> Future for ResponseFuture<T> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -68,7 +69,9 @@ impl<T> Future for ResponseFuture<T> {
                     Err(e) => Err(e.into())
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            }
             res
         }
     }
diff --git a/serve_goko/src/http/message.rs b/serve_goko/src/http/message.rs
index 8fa94da..fd5d91a 100644
--- a/serve_goko/src/http/message.rs
+++ b/serve_goko/src/http/message.rs
@@ -61,6 +61,7 @@ impl Future for ResponseFuture {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -70,7 +71,9 @@ impl Future for ResponseFuture {
                     Err(e) => Err(GokoClientError::from(e))
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            }
             res
         }
     }
-- 
2.43.0


From 1187a52183a87a318b466f2d64855d3fac42952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:54 +0000
Subject: [PATCH 21/27] fix: a k that is no usize is a malformed query, not a
 panic

---
 serve_goko/src/http/service.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index aff8dce..4cf1e85 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -37,14 +37,14 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 }
 
 
-fn parse_knn_query(uri: &Uri) -> usize {
+fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
-        Some(caps) => caps["k"].parse::<usize>().unwrap(),
-        None => 10,
+        Some(caps) => caps["k"].parse::<usize>().map_err(|_| GokoClientError::MalformedQuery("Unable to parse k.")),
+        None => Ok(10),
     }
 }
 
@@ -73,12 +73,12 @@ pub(crate) async fn parse_http<P: PointParser>(request: Request<Body>, parser: &
         // Serve some instructions at /
         (&Method::GET, "/") => Ok(GokoRequest::Parameters(ParametersRequest)),
         (&Method::GET, "/knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::Knn(KnnRequest { point, k }))
         }
         (&Method::GET, "/routing_knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))
 
-- 
2.43.0


From 09fed02fa6245f8ed03072d8c806fbc4a25a132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:54 +0000
Subject: [PATCH 22/27] fix: a content type that is no string is a parse error,
 not a panic

---
 serve_goko/src/parsers/msgpack_dense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 6697971..80160be 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -45,7 +45,7 @@ impl PointParser for MsgPackDense {
         scratch_buffer.clear();
         let mut reader = match request.headers().get(CONTENT_TYPE) {
             Some(typestr) => {
-                let token = typestr.to_str().unwrap();
+                let token = typestr.to_str().map_err(|e| GokoClientError::parse(Box::new(e)))?;
                 match token {
                     "zlib" => {
                         Readers::Zlib(DeflateDecoder::new(body_buffer))
-- 
2.43.0


From 50e9743f9131d924a012cc78b89d7582ad6d78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:02 +0000
Subject: [PATCH 23/27] fix: the L1 distance is the sum of absolute
 differences, not its square root

---
 pointcloud/src/metrics/l1_f32.rs  | 8 ++++----
 pointcloud/src/metrics/l1_misc.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pointcloud/src/metrics/l1_f32.rs b/pointcloud/src/metrics/l1_f32.rs
index f082650..18127f7 100644
--- a/pointcloud/src/metrics/l1_f32.rs
+++ b/pointcloud/src/metrics/l1_f32.rs
@@ -8,25 +8,25 @@ use std::ops::Deref;
 
 impl Metric<[f32]> for L1 {
     fn dist(x: &[f32], y: &[f32]) -> f32 {
-        l1_dense_f32(x.deref(), y.deref()).sqrt()
+        l1_dense_f32(x.deref(), y.deref())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u32>> for L1 {
     fn dist(x: &RawSparse<f32, u32>, y: &RawSparse<f32, u32>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u16>> for L1 {
     fn dist(x: &RawSparse<f32, u16>, y: &RawSparse<f32, u16>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u8>> for L1 {
     fn dist(x: &RawSparse<f32, u8>, y: &RawSparse<f32, u8>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
diff --git a/pointcloud/src/metrics/l1_misc.rs b/pointcloud/src/metrics/l1_misc.rs
index f8325c8..27ebaeb 100644
--- a/pointcloud/src/metrics/l1_misc.rs
+++ b/pointcloud/src/metrics/l1_misc.rs
@@ -118,25 +118,25 @@ macro_rules! make_l1_distance {
         }
         impl Metric<[$base]> for L1 {
             fn dist(x: &[$base], y: &[$base]) -> f32 {
-                $dist_base(x.deref(), y.deref()).sqrt()
+                $dist_base(x.deref(), y.deref())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u32>> for L1 {
             fn dist(x: &RawSparse<$base, u32>, y: &RawSparse<$base, u32>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u16>> for L1 {
             fn dist(x: &RawSparse<$base, u16>, y: &RawSparse<$base, u16>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u8>> for L1 {
             fn dist(x: &RawSparse<$base, u8>, y: &RawSparse<$base, u8>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
     };
-- 
2.43.0


From d6de8434116996d386d80b4df70fd3eac6d0e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:06 +0000
Subject: [PATCH 24/27] fix: stop reading a request body when its stream ends

poll_point only stopped once Body::is_end_stream() was true, which a chunked
or wrapped body never reports: after the last chunk poll_data kept returning
Ready(None) and the worker spun for ever, never answering this or any later
request on its channel. Treat None as the end of the body.
---
 serve_goko/src/parsers/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 86b0e28..7b3ab72 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -53,6 +53,7 @@ impl<P: PointParser> PointBuffer<P> {
                 Poll::Ready(data) => data,
                 Poll::Pending => return Poll::Pending,
             };
+            let ended = new_bytes.is_none();
             if let Some(new_bytes) = new_bytes {
                 match new_bytes {
                     Ok(new_bytes) => {
@@ -72,7 +73,7 @@ impl<P: PointParser> PointBuffer<P> {
                 }
             }
 
-            if body.is_end_stream() {
+            if ended || body.is_end_stream() {
                 let point_res = P::parse(this.body_buffer, this.point_buffer, this.request);
                 this.body_buffer.clear();
                 this.point_buffer.clear();
-- 
2.43.0


From e2b58b12a2b6a0c02a54b1037d9ffcf98d1ea1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 25/27] fix: a sparse cloud is empty when it has no rows, not
 when it has some

---
 pointcloud/src/data_sources/sparse_ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/data_sources/sparse_ram.rs b/pointcloud/src/data_sources/sparse_ram.rs
index be3a4eb..15fb5c0 100644
--- a/pointcloud/src/data_sources/sparse_ram.rs
+++ b/pointcloud/src/data_sources/sparse_ram.rs
@@ -88,7 +88,7 @@ where
     }
     /// If this is empty
     fn is_empty(&self) -> bool {
-        self.row_index.len() > 1
+        self.len() == 0
     }
     /// The dimension of the underlying data
     fn dim(&self) -> usize {
-- 
2.43.0


From 7fcaad22bb94cb7c3af95ab73001ae157f084e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 26/27] fix: the divergence of two diagonal gaussians takes the
 ratio of their variances

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c6fa7ba..c2c437f 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -82,7 +82,7 @@ impl ContinousDistribution for DiagGaussian {
         let (trace, mah_dist, ln_det) = mean_vars
             .zip(other_mean_vars)
             .map(|((xi, yi), (ui, vi))| {
-                let trace = yi / ui;
+                let trace = yi / vi;
                 let mah_dist = (ui - xi) * (ui - xi) / vi;
                 let ln_det = vi.ln() - yi.ln();
                 (trace, mah_dist, ln_det)
-- 
2.43.0


From 95eca69ef5dfd8e4019d6c39209858fe4f561cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 27/27] fix: the log density of a diagonal gaussian

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c2c437f..bf5ee88 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -45,13 +45,13 @@ impl ContinousDistribution for DiagGaussian {
             self.count
         ));
 
-        let (exponent, det) = point
+        let (exponent, ln_det) = point
             .dense_iter()
             .zip(mean_vars)
-            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi))
-            .fold((0.0, 1.0), |(a, v), (x, u)| (a + x, v * u));
+            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi.ln()))
+            .fold((0.0, 0.0), |(a, v), (x, u)| (a + x, v + u));
 
-        Some((exponent - det + (self.dim() as f32) * (2.0 * PI).ln()) as f64)
+        Some((-(exponent + ln_det + (self.dim() as f32) * (2.0 * PI).ln()) / 2.0) as f64)
     }
 
     fn sample<R: Rng>(&self, rng: &mut R) -> Vec<f32> {
-- 
2.43.0

