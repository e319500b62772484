From 8a4e4e2454d6f0c8c17d3bd52d3ff03100bf56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 01/60] fix: counter_agg: do not count a reset at an ignored
 duplicate-timestamp point

---
 crates/counter-agg/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/counter-agg/src/lib.rs b/crates/counter-agg/src/lib.rs
index eafeca1..02d00f1 100644
--- a/crates/counter-agg/src/lib.rs
+++ b/crates/counter-agg/src/lib.rs
@@ -360,7 +360,10 @@ impl CounterSummaryBuilder {
 
     /// expects time-ordered input
     pub fn add_point(&mut self, incoming: &TSPoint) -> Result<(), CounterError> {
-        self.0.reset(incoming);
+        // a point at the timestamp of the last one is ignored, so it can't be a reset either
+        if incoming.ts > self.0.last.ts {
+            self.0.reset(incoming);
+        }
         self.0.add_point(incoming)
     }
 
-- 
2.43.0


From 8f502871b66851e35409fd1de8459da1a45066c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 02/60] fix: counter_agg, gauge_agg, time_weight: keep the
 first of several points with the same timestamp

The points were sorted with an unstable sort before the duplicates are
dropped, so with more than 20 buffered points an arbitrary one of the
duplicates was kept.
---
 extension/src/counter_agg.rs           | 2 +-
 extension/src/gauge_agg.rs             | 2 +-
 extension/src/time_weighted_average.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/counter_agg.rs b/extension/src/counter_agg.rs
index 45d0db6..b4d5c03 100644
--- a/extension/src/counter_agg.rs
+++ b/extension/src/counter_agg.rs
@@ -183,7 +183,7 @@ impl CounterSummaryTransState {
         if self.point_buffer.is_empty() {
             return;
         }
-        self.point_buffer.sort_unstable_by_key(|p| p.ts);
+        self.point_buffer.sort_by_key(|p| p.ts);
         let mut iter = self.point_buffer.iter();
         let mut summary = CounterSummaryBuilder::new(iter.next().unwrap(), self.bounds);
         for p in iter {
diff --git a/extension/src/gauge_agg.rs b/extension/src/gauge_agg.rs
index e65097d..5ba2538 100644
--- a/extension/src/gauge_agg.rs
+++ b/extension/src/gauge_agg.rs
@@ -136,7 +136,7 @@ impl GaugeSummaryTransState {
         if self.point_buffer.is_empty() {
             return;
         }
-        self.point_buffer.sort_unstable_by_key(|p| p.ts);
+        self.point_buffer.sort_by_key(|p| p.ts);
         let mut iter = self.point_buffer.iter();
         let mut summary = GaugeSummaryBuilder::new(iter.next().unwrap(), self.bounds);
         for p in iter {
diff --git a/extension/src/time_weighted_average.rs b/extension/src/time_weighted_average.rs
index 6320a96..67463c6 100644
--- a/extension/src/time_weighted_average.rs
+++ b/extension/src/time_weighted_average.rs
@@ -128,7 +128,7 @@ impl TimeWeightTransState {
         if self.point_buffer.is_empty() {
             return;
         }
-        self.point_buffer.sort_unstable_by_key(|p| p.ts);
+        self.point_buffer.sort_by_key(|p| p.ts);
         self.summary_buffer.push(
             TimeWeightSummaryInternal::new_from_sorted_iter(&self.point_buffer, self.method)
                 .unwrap(),
-- 
2.43.0


From 8bc9e5698b6c8b0182f6a2cd6fbd259b31933a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 03/60] fix: rolling(stats_agg): recalculate when a summary
 with nan/infinite sums leaves the window

remove() already does so for single values; remove_combined() subtracted
the non-finite sums, so that a NaN stayed in every later window frame.
---
 crates/stats-agg/src/stats1d.rs | 4 ++++
 crates/stats-agg/src/stats2d.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index c91da00..d3cfae9 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -249,6 +249,10 @@ where
         } else if combined.n < remove.n {
             panic!(); // given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // if we are removing nan/infinite inputs, it's time to recalculate.
+        if !remove.sx.is_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         if remove.sx / combined.sx > <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD) {
             return None;
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index fe6e1e1..318070a 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -361,6 +361,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
         } else if combined.n < remove.n {
             panic!(); //  given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // if we are removing nan/infinite inputs, it's time to recalculate.
+        if !remove.sx.is_finite() || !remove.sy.is_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         let thresh = <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD);
         if remove.sx / combined.sx > thresh || remove.sy / combined.sy > thresh {
-- 
2.43.0


From 7a48f9617e1a4c8b7fc4c79b4f9a8d2c42f72db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 04/60] fix: stats_agg: keep rounding errors of the inverse
 transitions out of the spread

Over a sliding window the sum of squares could come out slightly below
zero, which made stddev NaN, or not quite zero for a single remaining
value, which made its sample statistics infinite.
---
 crates/stats-agg/src/lib.rs     | 10 ++++++++++
 crates/stats-agg/src/stats1d.rs | 16 +++++++++++++---
 crates/stats-agg/src/stats2d.rs | 22 ++++++++++++++++------
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/crates/stats-agg/src/lib.rs b/crates/stats-agg/src/lib.rs
index ea069c3..6bfaa54 100644
--- a/crates/stats-agg/src/lib.rs
+++ b/crates/stats-agg/src/lib.rs
@@ -56,6 +56,16 @@ const INV_FLOATING_ERROR_THRESHOLD: f64 = 0.99;
 #[cfg(test)] // don't have a threshold for tests, to ensure the inverse function is better tested
 const INV_FLOATING_ERROR_THRESHOLD: f64 = f64::INFINITY;
 
+// A sum of squares can come out slightly below zero when the inverse functions subtract from it,
+// which would make the standard deviation NaN.
+pub(crate) fn non_negative<T: FloatLike>(sum_squares: T) -> T {
+    if sum_squares < T::zero() {
+        T::zero()
+    } else {
+        sum_squares
+    }
+}
+
 pub mod stats1d;
 pub mod stats2d;
 
diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index d3cfae9..4f9edd2 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -166,9 +166,14 @@ where
             sx4: T::zero(), // initialize this for now.
         };
 
+        // a single value has no spread, subtracting would only leave rounding errors.
+        if new.n == 1 && new.sx.is_finite() {
+            return Some(new);
+        }
+
         let tmpx = p * self.n64() - self.sx;
         let scale = (self.n64() * new.n64()).recip();
-        new.sx2 = self.sx2 - tmpx * tmpx * scale;
+        new.sx2 = crate::non_negative(self.sx2 - tmpx * tmpx * scale);
         new.sx3 = m3::remove(new.n64(), new.sx, new.sx2, self.sx3, p);
         new.sx4 = m4::remove(new.n64(), new.sx, new.sx2, new.sx3, self.sx4, p);
 
@@ -264,9 +269,14 @@ where
             sx3: T::zero(), //just initialize this, for now.
             sx4: T::zero(), //just initialize this, for now.
         };
+        // a single value has no spread, subtracting would only leave rounding errors.
+        if part.n == 1 && part.sx.is_finite() {
+            return Some(part);
+        }
         let tmp = part.sx / part.n64() - remove.sx / remove.n64(); //gets squared so order doesn't matter
-        part.sx2 =
-            combined.sx2 - remove.sx2 - part.n64() * remove.n64() * tmp * tmp / combined.n64();
+        part.sx2 = crate::non_negative(
+            combined.sx2 - remove.sx2 - part.n64() * remove.n64() * tmp * tmp / combined.n64(),
+        );
         part.sx3 = m3::remove_combined(
             part.n64(),
             remove.n64(),
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index 318070a..045a693 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -226,13 +226,17 @@ impl<T: FloatLike> StatsSummary2D<T> {
             sy4: T::zero(),
             sxy: T::zero(),
         };
+        // a single value has no spread, subtracting would only leave rounding errors.
+        if new.n == 1 && new.sx.is_finite() && new.sy.is_finite() {
+            return Some(new);
+        }
         let tmpx = p.x * self.n64() - self.sx;
         let tmpy = p.y * self.n64() - self.sy;
         let scale = (self.n64() * new.n64()).recip();
-        new.sx2 = self.sx2 - tmpx * tmpx * scale;
+        new.sx2 = crate::non_negative(self.sx2 - tmpx * tmpx * scale);
         new.sx3 = m3::remove(new.n64(), new.sx, new.sx2, self.sx3, p.x);
         new.sx4 = m4::remove(new.n64(), new.sx, new.sx2, new.sx3, self.sx4, p.x);
-        new.sy2 = self.sy2 - tmpy * tmpy * scale;
+        new.sy2 = crate::non_negative(self.sy2 - tmpy * tmpy * scale);
         new.sy3 = m3::remove(new.n64(), new.sy, new.sy2, self.sy3, p.y);
         new.sy4 = m4::remove(new.n64(), new.sy, new.sy2, new.sy3, self.sy4, p.y);
         new.sxy = self.sxy - tmpx * tmpy * scale;
@@ -382,10 +386,15 @@ impl<T: FloatLike> StatsSummary2D<T> {
             sy4: T::zero(),
             sxy: T::zero(),
         };
+        // a single value has no spread, subtracting would only leave rounding errors.
+        if part.n == 1 && part.sx.is_finite() && part.sy.is_finite() {
+            return Some(part);
+        }
         let tmpx = part.sx / part.n64() - remove.sx / remove.n64(); //gets squared so order doesn't matter
         let tmpy = part.sy / part.n64() - remove.sy / remove.n64();
-        part.sx2 =
-            combined.sx2 - remove.sx2 - part.n64() * remove.n64() * tmpx * tmpx / combined.n64();
+        part.sx2 = crate::non_negative(
+            combined.sx2 - remove.sx2 - part.n64() * remove.n64() * tmpx * tmpx / combined.n64(),
+        );
         part.sx3 = m3::remove_combined(
             part.n64(),
             remove.n64(),
@@ -408,8 +417,9 @@ impl<T: FloatLike> StatsSummary2D<T> {
             self.sx4,
             remove.sx4,
         );
-        part.sy2 =
-            combined.sy2 - remove.sy2 - part.n64() * remove.n64() * tmpy * tmpy / combined.n64();
+        part.sy2 = crate::non_negative(
+            combined.sy2 - remove.sy2 - part.n64() * remove.n64() * tmpy * tmpy / combined.n64(),
+        );
         part.sy3 = m3::remove_combined(
             part.n64(),
             remove.n64(),
-- 
2.43.0


From 924210bc1b7e7f8b8917b1d3cc59c3b7b3275526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 05/60] fix: tdigest: do not drop the buffered values of the
 builders that are merged

merge_unsorted() returns the new digest, Builder::merge() discarded it.
---
 crates/t-digest/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..e0b8fd7 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -726,12 +726,12 @@ impl Builder {
 
     pub fn merge(&mut self, other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
-        let digvec = vec![std::mem::take(&mut self.digested), other.digested];
+        let mut digvec = vec![std::mem::take(&mut self.digested), other.digested];
         if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
+            digvec[0] = digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
         }
         if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
+            digvec[1] = digvec[1].merge_unsorted(other.buffer);
         }
         self.digested = TDigest::merge_digests(digvec);
     }
-- 
2.43.0


From bf7a55cd20b6b56e9cde6730ca2a96dc414e2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 06/60] fix: tdigest: leave the aggregate state intact when
 building the digest from it

The final function took the digest out of the state, so that a tdigest used
as a window aggregate forgot all earlier rows at every row of output.
---
 crates/t-digest/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index e0b8fd7..c14d2f3 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -721,7 +721,7 @@ impl Builder {
 
     pub fn build(&mut self) -> TDigest {
         self.digest();
-        std::mem::take(&mut self.digested)
+        self.digested.clone()
     }
 
     pub fn merge(&mut self, other: Self) {
-- 
2.43.0


From 35c81e52ad11fdaf0333586223aabbf6a9702181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 07/60] fix: tdigest: approx_percentile_rank of the minimum or
 maximum is not NaN

---
 crates/t-digest/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index c14d2f3..ba50de7 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -551,6 +551,9 @@ impl TDigest {
             (accum_weight as f64
                 + (v - weighted_midpoint) / (hi_bound - weighted_midpoint) * hi_weight as f64 / 2.0)
                 / self.count as f64
+        } else if weighted_midpoint <= low_bound {
+            // v is the minimum or the maximum itself, there is nothing to interpolate
+            (accum_weight as f64 - low_weight as f64 / 2.0) / self.count as f64
         } else {
             (accum_weight as f64
                 - (weighted_midpoint - v) / (weighted_midpoint - low_bound) * low_weight as f64
-- 
2.43.0


From 1341305c15e0b690af724acc2823bb1f6e797dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 08/60] fix: tdigest: merging empty digests keeps their size

---
 crates/t-digest/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index ba50de7..10d78ed 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -420,7 +420,9 @@ impl TDigest {
     pub fn merge_digests(digests: Vec<TDigest>) -> TDigest {
         let n_centroids: usize = digests.iter().map(|d| d.centroids.len()).sum();
         if n_centroids == 0 {
-            return TDigest::default();
+            return digests
+                .first()
+                .map_or_else(TDigest::default, |d| TDigest::new_with_size(d.max_size));
         }
 
         // TODO should this be the smaller of the sizes?
-- 
2.43.0


From 4c9cd0d29875e44f6c1f2fba2a483d15ec6cb59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 09/60] fix: hyperloglog: hash values with the collation of the
 aggregate's input

---
 extension/src/datum_utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index b92b4af..37517f4 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -154,6 +154,11 @@ impl DatumHashBuilder {
             pgrx::error!("no hash function");
         };
 
+        let collation = match collation {
+            Some(collation) if collation != pg_sys::Oid::INVALID => collation,
+            _ => unsafe { (*tentry).typcollation },
+        };
+
         // 1 argument for the key, 1 argument for the seed
         let size =
             size_of::<pg_sys::FunctionCallInfoBaseData>() + size_of::<pg_sys::NullableDatum>() * 2;
@@ -163,16 +168,11 @@ impl DatumHashBuilder {
             (*info).flinfo = flinfo as *const pg_sys::FmgrInfo as *mut pg_sys::FmgrInfo;
             (*info).context = std::ptr::null_mut();
             (*info).resultinfo = std::ptr::null_mut();
-            (*info).fncollation = (*tentry).typcollation;
+            (*info).fncollation = collation;
             (*info).isnull = false;
             (*info).nargs = 1;
         }
 
-        let collation = match collation {
-            Some(collation) => collation,
-            None => unsafe { (*tentry).typcollation },
-        };
-
         Self {
             info,
             type_id: unsafe { (*tentry).type_id },
-- 
2.43.0


From 5b4ba8b91b51a3a75eecdc32c9b1a026f035cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 10/60] fix: hyperloglog: merging sparse sketches keeps to the
 size limit

---
 crates/hyperloglogplusplus/src/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hyperloglogplusplus/src/sparse.rs b/crates/hyperloglogplusplus/src/sparse.rs
index 5e50c7f..6161b3b 100644
--- a/crates/hyperloglogplusplus/src/sparse.rs
+++ b/crates/hyperloglogplusplus/src/sparse.rs
@@ -183,7 +183,7 @@ impl<'s> Storage<'s> {
 
         let mut overflowing = false;
         for encoded in other.iter() {
-            overflowing = self.add_encoded(encoded)
+            overflowing |= self.add_encoded(encoded)
         }
         overflowing
     }
-- 
2.43.0


From afa346c8299e5735c8db20d86de35a1d42ad2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 11/60] fix: mcv_agg: topn rejects a negative N, and the zeta
 distribution has nothing below the first value

---
 extension/src/frequency.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..9338fea 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -47,6 +47,9 @@ fn zeta_eq_n(skew: f64, n: u64) -> f64 {
 }
 // cumulative distribution <= n in a zeta distribution
 fn zeta_le_n(skew: f64, n: u64) -> f64 {
+    if n == 0 {
+        return 0.0;
+    }
     gen_harmonic(n, skew) / zeta(skew)
 }
 
@@ -1415,8 +1418,12 @@ fn validate_topn_for_mcv_agg(
         return;
     }
 
+    if n < 0 {
+        pgrx::error!("requested N ({}) must not be negative", n)
+    }
+
     // TODO: should we allow this if we have enough data?
-    if n > topn as i32 {
+    if n as u32 > topn {
         pgrx::error!(
             "requested N ({}) exceeds creation parameter of mcv aggregate ({})",
             n,
-- 
2.43.0


From 2c56193de6b408a81761e1f9106fb24884b1a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 12/60] fix: freq_agg, mcv_agg: refuse to combine raw
 aggregates over different types

---
 extension/src/frequency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 9338fea..69b844e 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -379,6 +379,10 @@ impl SpaceSavingTransState {
             map.insert(new_dat, new_ent);
         }
 
+        if one.type_oid() != two.type_oid() {
+            pgrx::error!("can not combine frequency aggregates over different types")
+        }
+
         let hasher = one.indices.hasher().clone();
         let mut temp = PgAnyElementHashMap::with_hasher(hasher);
 
-- 
2.43.0


From 0e52fdc5b8ddc8f547ac6ad6bfce8e4ae4762234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 13/60] fix: freq_agg, mcv_agg: a rollup of different
 parameters keeps those of the coarsest input

---
 extension/src/frequency.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 69b844e..da7a9c0 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -383,6 +383,13 @@ impl SpaceSavingTransState {
             pgrx::error!("can not combine frequency aggregates over different types")
         }
 
+        // The result can not be more precise than the coarser of its inputs
+        let params = if two.max_size < one.max_size {
+            two
+        } else {
+            one
+        };
+
         let hasher = one.indices.hasher().clone();
         let mut temp = PgAnyElementHashMap::with_hasher(hasher);
 
@@ -403,15 +410,15 @@ impl SpaceSavingTransState {
         let mut entries: Vec<SpaceSavingEntry> = temp.0.into_values().collect();
         entries.sort_by(|a, b| b.count.partial_cmp(&a.count).unwrap()); // swap a and b for descending
 
-        entries.truncate(one.max_size as usize);
+        entries.truncate(params.max_size as usize);
 
         let mut result = SpaceSavingTransState {
             entries,
             indices: PgAnyElementHashMap::with_hasher(one.indices.hasher().clone()),
             total_vals: one.total_vals + two.total_vals,
-            freq_param: one.freq_param,
-            max_size: one.max_size,
-            topn: one.topn,
+            freq_param: params.freq_param,
+            max_size: params.max_size,
+            topn: params.topn,
         };
 
         result.update_all_map_indices();
-- 
2.43.0


From b4eff8ab7dd2265abafaab6ade97d8549aabc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 14/60] fix: read stored values whose text form needs escapes

---
 extension/src/datum_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index 37517f4..b28a79e 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -341,8 +341,8 @@ impl<'a, 'de> Deserialize<'de> for DatumStore<'a> {
                 let mut reader = DatumFromSerializedTextReader::from_oid(oid);
 
                 let mut data = vec![];
-                while let Some(next) = seq.next_element::<&str>()? {
-                    data.push(reader.read_datum(next));
+                while let Some(next) = seq.next_element::<String>()? {
+                    data.push(reader.read_datum(&next));
                 }
 
                 Ok((oid, data).into())
-- 
2.43.0


From f4d036054d2b5daaabb044f4cdc344a4ccbba624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 15/60] fix: freq_agg, mcv_agg: refuse NaN parameters

---
 extension/src/frequency.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index da7a9c0..51ee35a 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -218,7 +218,7 @@ impl SpaceSavingTransState {
         if nval == 0 {
             pgrx::error!("mcv aggregate requires an n value > 0")
         }
-        if skew <= 1.0 {
+        if skew.is_nan() || skew <= 1.0 {
             pgrx::error!("mcv aggregate requires a skew factor > 1.0")
         }
 
@@ -792,7 +792,7 @@ pub fn freq_agg_trans(
     value: Option<AnyElement>,
     fcinfo: pg_sys::FunctionCallInfo,
 ) -> Option<Internal> {
-    if freq <= 0. || freq >= 1.0 {
+    if freq.is_nan() || freq <= 0. || freq >= 1.0 {
         pgrx::error!("frequency aggregate requires a frequency in the range (0.0, 1.0)")
     }
 
-- 
2.43.0


From 58f00c999eecaf81f02be9eb9739bcaeac9e2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 16/60] fix: mcv_agg, freq_agg: -> topn(n) does not truncate n
 to 32 bits

---
 extension/src/frequency.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 51ee35a..bcb61f5 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1528,7 +1528,7 @@ pub fn arrow_topn_bigint<'a>(
     agg: SpaceSavingBigIntAggregate<'a>,
     accessor: AccessorTopNCount,
 ) -> SetOfIterator<'a, i64> {
-    topn_bigint(agg, accessor.count as i32)
+    topn_bigint(agg, accessor.count.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
@@ -1578,7 +1578,7 @@ pub fn arrow_topn_text<'a>(
     agg: SpaceSavingTextAggregate<'a>,
     accessor: AccessorTopNCount,
 ) -> SetOfIterator<'a, String> {
-    topn_text(agg, accessor.count as i32)
+    topn_text(agg, accessor.count.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
-- 
2.43.0


From 9b8823b80a712e79e7eb55dd62d166796ad60e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 17/60] fix: mcv_agg: topn(0) stays an error

---
 extension/src/frequency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index bcb61f5..159185b 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1444,7 +1444,7 @@ fn validate_topn_for_mcv_agg(
 
     // For mcv_aggregates distributions we check that the top 'n' values satisfy the cumulative distribution
     // for our zeta curve.
-    let needed_count = (zeta_le_n(skew, n as u64) * total_vals as f64).ceil() as u64;
+    let needed_count = (zeta_le_n(skew, n.max(1) as u64) * total_vals as f64).ceil() as u64;
     if counts.take(n as usize).sum::<u64>() < needed_count {
         pgrx::error!(
             "data is not skewed enough to find top {} parameters with a skew of {}, try reducing the skew factor",
-- 
2.43.0


From ab2655fc70527634ba8a0b0aaf3c128efcb4ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 18/60] fix: state_agg: keep the aggregate state's records when
 building the result from it

---
 extension/src/state_aggregate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..f4db7c9 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -610,7 +610,7 @@ impl state_agg {
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
             let mut last_record_state = None;
-            for record in s.records.drain(..) {
+            for record in s.records.iter() {
                 if last_record_state
                     .clone()
                     .map(|last| last != record.state)
@@ -624,7 +624,7 @@ impl state_agg {
                         end_time: 0,
                         state: record.state.entry(&mut states),
                     });
-                    last_record_state = Some(record.state);
+                    last_record_state = Some(record.state.clone());
                 }
             }
             if let Some(last_time_in_state) = merged_durations.last_mut() {
-- 
2.43.0


From 1aeafb2c32660209a4f8e79b361c84fe82a7fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 19/60] fix: rollup(state_agg): do not merge a partial state's
 summaries before the others are there

---
 extension/src/state_aggregate/rollup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/state_aggregate/rollup.rs b/extension/src/state_aggregate/rollup.rs
index eed7162..d02f0e9 100644
--- a/extension/src/state_aggregate/rollup.rs
+++ b/extension/src/state_aggregate/rollup.rs
@@ -377,8 +377,8 @@ fn state_agg_rollup_final_inner(
 
 #[pg_extern(immutable, parallel_safe, strict)]
 pub fn state_agg_rollup_serialize(state: Internal) -> bytea {
-    let mut state: Inner<RollupTransState> = unsafe { state.to_inner().unwrap() };
-    state.merge();
+    let state: Inner<RollupTransState> = unsafe { state.to_inner().unwrap() };
+    // Not merged yet: summaries of other partial states can lie in between.
     crate::do_serialize!(state)
 }
 
-- 
2.43.0


From 47fa35cc87d2223b74d386c5201684a1604f0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 20/60] fix: heartbeat_agg: -> trim_to up to 2000-01-01 trims
 the end

---
 extension/src/heartbeat_agg.rs           | 2 +-
 extension/src/heartbeat_agg/accessors.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..7d71718 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -589,7 +589,7 @@ pub fn arrow_heartbeat_agg_trim_to(
     agg: HeartbeatAgg<'static>,
     accessor: HeartbeatTrimToAccessor,
 ) -> HeartbeatAgg<'static> {
-    let end = if accessor.end == 0 {
+    let end = if accessor.end == i64::MIN {
         None
     } else {
         Some(accessor.end)
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..f35e57d 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -141,7 +141,7 @@ fn heartbeat_agg_trim_to_accessor(
 ) -> HeartbeatTrimToAccessor {
     let end = duration
         .map(|intv| crate::datum_utils::ts_interval_sum_to_ms(&start, &intv))
-        .unwrap_or(0);
+        .unwrap_or(i64::MIN);
     let start = i64::from(start);
 
     crate::build! {
-- 
2.43.0


From ba219c642c9a366e2f460206085ce82dc7f5d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 21/60] fix: heartbeat_agg: interpolation merges the ranges it
 reaches and stays within the aggregate

---
 extension/src/heartbeat_agg.rs | 48 +++++++++++++---------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 7d71718..2ec4d93 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -287,43 +287,31 @@ impl HeartbeatAgg<'_> {
     fn interpolate_start(&mut self, pred: &Self) {
         // only allow interpolation of non-overlapping ranges
         assert!(pred.end_time <= self.start_time);
-        let pred_end = pred.last_seen + self.interval_len;
+        let pred_end = min(pred.last_seen + self.interval_len, self.end_time);
 
         if pred_end <= self.start_time {
             return;
         }
 
-        // If first range already covers (start_time, pred_end) return
-        if self
+        // Merge (start_time, pred_end) with the ranges that it reaches
+        let reached = self
             .interval_starts
-            .as_slice()
-            .first()
-            .filter(|v| **v == self.start_time)
-            .is_some()
-            && self
-                .interval_ends
-                .as_slice()
-                .first()
-                .filter(|v| **v >= pred_end)
-                .is_some()
-        {
-            return;
-        }
-
-        if self
-            .interval_starts
-            .as_slice()
-            .first()
-            .filter(|v| **v <= pred_end)
-            .is_some()
-        {
-            self.interval_starts.as_owned()[0] = self.start_time;
+            .iter()
+            .take_while(|start| *start <= pred_end)
+            .count();
+        let end = if reached > 0 {
+            max(pred_end, self.interval_ends.as_slice()[reached - 1])
         } else {
-            let start = self.start_time;
-            self.interval_starts.as_owned().insert(0, start);
-            self.interval_ends.as_owned().insert(0, pred_end);
-            self.num_intervals += 1;
-        }
+            pred_end
+        };
+        let start = self.start_time;
+        self.interval_starts
+            .as_owned()
+            .splice(..reached, std::iter::once(start));
+        self.interval_ends
+            .as_owned()
+            .splice(..reached, std::iter::once(end));
+        self.num_intervals = self.interval_starts.as_slice().len() as u64;
     }
 }
 
-- 
2.43.0


From 071dc5294fffeb00b1e83125ee421d4511ee29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 22/60] fix: heartbeat_agg: trim_to keeps only live ranges, and
 summaries without any can be rolled up

---
 extension/src/heartbeat_agg.rs | 87 ++++++++++++++++------------------
 1 file changed, 41 insertions(+), 46 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2ec4d93..f2e2b97 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,6 +114,15 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
+        // Summaries that were trimmed to a range without heartbeats have no intervals
+        if new_intervals.is_empty() {
+            return;
+        }
+        if self.liveness.is_empty() {
+            self.liveness = new_intervals;
+            return;
+        }
+
         // Optimized path for nonoverlapping, ordered inputs
         if self.last < new_intervals.first().unwrap().0 {
             let mut new_intervals = new_intervals.into_iter();
@@ -122,8 +131,9 @@ impl HeartbeatTransState {
             let first_new = new_intervals.next().unwrap();
 
             if self.liveness.last().unwrap().1 >= first_new.0 {
-                // Note that the bound of the new interval must be >= the old bound
-                self.liveness.last_mut().unwrap().1 = first_new.1;
+                // The new interval can have been trimmed to less than the old bound
+                let last = self.liveness.last_mut().unwrap();
+                last.1 = max(last.1, first_new.1);
             } else {
                 self.liveness.push(first_new);
             }
@@ -219,57 +229,42 @@ impl HeartbeatAgg<'_> {
             error!("Can not query beyond the original aggregate bounds");
         }
 
-        let mut starts: Vec<i64> = vec![];
-        let mut ends: Vec<i64> = vec![];
-        for i in 0..self.num_intervals as usize {
-            starts.push(self.interval_starts.slice()[i]);
-            ends.push(self.interval_ends.slice()[i]);
+        let low = start.unwrap_or(self.start_time);
+        let high = end.unwrap_or(self.end_time);
+        if low > high {
+            error!("Can not query beyond the original aggregate bounds");
         }
 
-        let low_idx = if let Some(start) = start {
-            let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
-                idx += 1;
-            }
-            if starts[idx] < start {
-                starts[idx] = start;
-            }
-            idx
-        } else {
-            0
-        };
-
-        let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
-                new_last = Some(ends[idx] - self.interval_len);
-                if ends[idx] > end {
-                    if end < new_last.unwrap() {
-                        new_last = Some(end);
-                    }
-                    ends[idx] = end;
-                }
-                idx
-            } else {
-                self.num_intervals as usize - 1
+        let mut starts: Vec<i64> = vec![];
+        let mut ends: Vec<i64> = vec![];
+        let mut last_seen = i64::MIN;
+        let num_intervals = self.num_intervals as usize;
+        for i in 0..num_intervals {
+            let interval_end = self.interval_ends.slice()[i];
+            let trimmed_start = max(self.interval_starts.slice()[i], low);
+            let trimmed_end = min(interval_end, high);
+            if trimmed_start < trimmed_end {
+                starts.push(trimmed_start);
+                ends.push(trimmed_end);
+                // The last interval can be cut off by the end of the aggregate.
+                let seen = if i == num_intervals - 1 {
+                    self.last_seen
+                } else {
+                    interval_end - self.interval_len
+                };
+                last_seen = min(seen, high);
             }
-        } else {
-            self.num_intervals as usize - 1
-        };
+        }
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
-                end_time: end.unwrap_or(self.end_time),
-                last_seen: new_last.unwrap_or(self.last_seen),
+                start_time: low,
+                end_time: high,
+                last_seen,
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: starts.len() as u64,
+                interval_starts: starts.into(),
+                interval_ends: ends.into(),
             })
         }
     }
-- 
2.43.0


From 3a4d3424c78ca7ee470f0a68ac6fbfe97c57a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 23/60] fix: min_n/max_n: finalizing must not empty the
 transition state

---
 extension/src/nmost/max_float.rs | 2 +-
 extension/src/nmost/max_int.rs   | 2 +-
 extension/src/nmost/max_time.rs  | 2 +-
 extension/src/nmost/min_float.rs | 2 +-
 extension/src/nmost/min_int.rs   | 2 +-
 extension/src/nmost/min_time.rs  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..8c2a955 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -28,7 +28,7 @@ ron_inout_funcs!(MaxFloats<'input>);
 
 impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
     fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..5cd777f 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxInts<'input>);
 
 impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
     fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..d36382b 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxTimes<'input>);
 
 impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
     fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..0a3c8ab 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MinFloats<'input>);
 
 impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
     fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..93ea5f1 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinInts<'input>);
 
 impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
     fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..6d892a0 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinTimes<'input>);
 
 impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
     fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
-- 
2.43.0


From c29fc4fdeba9b0d0d31e01c0f97ad9e8ca052326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 24/60] fix: rollup of min_n/max_n(_by): keep values while the
 state is not full

---
 extension/src/nmost.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..99b6e0d 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -102,7 +102,7 @@ fn nmost_rollup_trans_function<T: Ord + Copy>(
             if let Some(mut state) = state {
                 for val in sorted_vals {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.belongs_in_heap(val) {
+                    if state.heap.len() >= state.capacity && !state.belongs_in_heap(val) {
                         return Some(state);
                     }
                     state.new_entry(*val);
@@ -267,7 +267,9 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
                     .zip(datum_store.clone().into_anyelement_iter())
                 {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.values.belongs_in_heap(&(*val, state.values.capacity)) {
+                    if state.values.heap.len() >= state.values.capacity
+                        && !state.values.belongs_in_heap(&(*val, state.values.capacity))
+                    {
                         return Some(state);
                     }
                     state.new_entry(*val, element);
-- 
2.43.0


From bf56be3da6bf1acfd520752fc91fd63d8e519edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 25/60] fix: min_n/max_n: (de)serialize functions are strict,
 for workers without rows

---
 extension/src/nmost/max_float.rs | 4 ++--
 extension/src/nmost/max_int.rs   | 4 ++--
 extension/src/nmost/max_time.rs  | 4 ++--
 extension/src/nmost/min_float.rs | 4 ++--
 extension/src/nmost/min_int.rs   | 4 ++--
 extension/src/nmost/min_time.rs  | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 8c2a955..6aca9e0 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -95,13 +95,13 @@ pub fn max_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MaxFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxFloatTransType = crate::do_deserialize!(bytes, MaxFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 5cd777f..639acfc 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -89,13 +89,13 @@ pub fn max_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MaxIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxIntTransType = crate::do_deserialize!(bytes, MaxIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index d36382b..24f6396 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -90,13 +90,13 @@ pub fn max_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MaxTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxTimeTransType = crate::do_deserialize!(bytes, MaxTimeTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index 0a3c8ab..93443e5 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -94,13 +94,13 @@ pub fn min_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MinFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinFloatTransType = crate::do_deserialize!(bytes, MinFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index 93ea5f1..d709cf7 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -81,13 +81,13 @@ pub fn min_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MinIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinIntTransType = crate::do_deserialize!(bytes, MinIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index 6d892a0..dccc4e7 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -81,13 +81,13 @@ pub fn min_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MinTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinTimeTransType = crate::do_deserialize!(bytes, MinTimeTransType);
     Internal::new(i).into()
-- 
2.43.0


From be76c661aa12d4286764319aa12cbdfcbfa23e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 26/60] fix: lttb: mean time of a bucket must not overflow

---
 extension/src/lttb.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..9d179eb 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -277,7 +277,7 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        let mut ts_sum = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -292,10 +292,10 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
-            avg_x += data[idx].ts;
+            ts_sum += data[idx].ts as i128;
             avg_y += data[idx].val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (ts_sum / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
@@ -364,7 +364,7 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        let mut ts_sum = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -380,10 +380,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
             let point = data.get(idx).unwrap();
-            avg_x += point.ts;
+            ts_sum += point.ts as i128;
             avg_y += point.val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (ts_sum / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
-- 
2.43.0


From d07cf2493cc156ab121ec6b0c37a7a2fb67087bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 27/60] fix: gp_lttb: a single point after the last gap is one
 endpoint, not two

---
 extension/src/lttb.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index 9d179eb..c4184ae 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -167,6 +167,10 @@ pub fn gap_preserving_lttb_final_inner(
                     start = i + 1;
                 }
             }
+            if start == count - 1 {
+                // the last segment is a single point
+                endpoints_remaining -= 1;
+            }
 
             let mut points_remaining = state.resolution as i64;
             let mut downsampled = vec![];
-- 
2.43.0


From 6932aa1ca6e54b98e6a7107e368e1d50180dc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 28/60] fix: timevector -> filter: keep each value's null flag
 with its point

---
 extension/src/time_vector/pipeline/filter.rs | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index 2d8a794..85c2d8b 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -52,8 +52,26 @@ pub fn filter_lambda_over_series(
     series: &mut Timevector_TSTZ_F64<'_>,
     mut func: impl FnMut(i64, f64) -> bool,
 ) {
-    series.points.as_owned().retain(|p| func(p.ts, p.val));
-    series.num_points = series.points.len() as _;
+    let points = std::mem::take(series.points.as_owned());
+    let mut retained = Vec::with_capacity(points.len());
+    let mut null_val = vec![];
+    series.flags &= !FLAG_HAS_NULLS;
+    for (i, point) in points.into_iter().enumerate() {
+        if !func(point.ts, point.val) {
+            continue;
+        }
+        if retained.len() % 8 == 0 {
+            null_val.push(0_u8);
+        }
+        if series.is_null_val(i) {
+            series.flags |= FLAG_HAS_NULLS;
+            null_val[retained.len() / 8] |= 1 << (retained.len() % 8);
+        }
+        retained.push(point);
+    }
+    series.num_points = retained.len() as _;
+    series.points = retained.into();
+    series.null_val = null_val.into();
 }
 
 #[cfg(any(test, feature = "pg_test"))]
-- 
2.43.0


From ee7833192428f902f4e8c8683056889ad2d18eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 29/60] fix: timevector -> map of times: the result is sorted
 only if its times are

---
 extension/src/time_vector/pipeline/map.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 15e513e..e6950b8 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -82,6 +82,15 @@ pub fn map_lambda_over_series(
             val: new_val.unwrap_or(point.val),
         }
     }
+    if !only_val {
+        // the times may be in another order now
+        let points = series.points.as_slice();
+        if points.windows(2).all(|p| p[0].ts <= p[1].ts) {
+            series.flags |= FLAG_IS_SORTED;
+        } else {
+            series.flags &= !FLAG_IS_SORTED;
+        }
+    }
 }
 
 #[pg_extern(
-- 
2.43.0


From e4c752c78c3c1357f8f37c6c46e2bfe127f27cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 30/60] fix: timevector -> delta of an empty timevector is
 empty

---
 extension/src/time_vector/pipeline/delta.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..bea2c8b 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,7 +37,10 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
+    let Some(first) = it.next() else {
+        return series.clone();
+    };
+    let mut prev = first.val;
     let mut delta_points = Vec::new();
 
     for pt in it {
-- 
2.43.0


From 42cb021066af47f66765175baf65c8f60a543fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 31/60] fix: timevector -> fill_to: refuse intervals that are
 not positive

---
 extension/src/time_vector/pipeline/fill_to.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 1c0ff92..de037e7 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -94,6 +94,10 @@ pub fn fill_to<'s>(
         _ => unreachable!(),
     };
 
+    if interval <= 0 {
+        panic!("Interval of fill_to must be positive")
+    }
+
     if !series.is_sorted() {
         panic!("Timevector must be sorted prior to passing to fill_to")
     }
-- 
2.43.0


From 28e011aa8d3379a0f0c4285b1243b6478705d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 32/60] fix: timevector -> stats_agg/sum/average: look for
 nulls in what the pipeline produces

---
 extension/src/time_vector/pipeline/aggregation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/aggregation.rs b/extension/src/time_vector/pipeline/aggregation.rs
index 2cb0882..6add831 100644
--- a/extension/src/time_vector/pipeline/aggregation.rs
+++ b/extension/src/time_vector/pipeline/aggregation.rs
@@ -107,10 +107,10 @@ pub fn arrow_run_pipeline_then_stats_agg<'a>(
     mut timevector: Timevector_TSTZ_F64<'a>,
     pipeline: toolkit_experimental::PipelineThenStatsAgg<'a>,
 ) -> StatsSummary1D {
+    timevector = run_pipeline_elements(timevector, pipeline.elements.iter());
     if timevector.has_nulls() {
         panic!("Unable to compute stats aggregate over timevector containing nulls");
     }
-    timevector = run_pipeline_elements(timevector, pipeline.elements.iter());
     let mut stats = InternalStatsSummary1D::new();
     for TSPoint { val, .. } in timevector.iter() {
         stats_agg::unwrap_stats_result(stats.accum(val));
-- 
2.43.0


From 783ce1e79597a89226594cf4a7d234b71bb243cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 33/60] fix: lttb of a timevector with nulls keeps them null

---
 extension/src/lttb.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index c4184ae..6b5fc46 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -364,7 +364,7 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
     let mut a = 0;
 
     // Always add the first point.
-    sampled.push(data.get(a).unwrap());
+    sampled.push(a);
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
@@ -414,22 +414,35 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
             }
         }
 
-        sampled.push(data.get(next_a).unwrap()); // Pick this point from the bucket.
+        sampled.push(next_a); // Pick this point from the bucket.
         a = next_a; // This a is the next a (chosen b).
     }
 
     // Always add the last point.
-    sampled.push(data.get(data.num_points() - 1).unwrap());
-
-    let nulls_len = sampled.len().div_ceil(8);
+    sampled.push(data.num_points() - 1);
+
+    let mut flags = time_vector::FLAG_IS_SORTED;
+    let mut null_val = std::vec::from_elem(0_u8, sampled.len().div_ceil(8));
+    if data.has_nulls() {
+        for (i, &idx) in sampled.iter().enumerate() {
+            if data.is_null_val(idx) {
+                flags |= time_vector::FLAG_HAS_NULLS;
+                null_val[i / 8] |= 1 << (i % 8);
+            }
+        }
+    }
+    let points: Vec<_> = sampled
+        .into_iter()
+        .map(|idx| data.get(idx).unwrap())
+        .collect();
 
     crate::build! {
         Timevector_TSTZ_F64 {
-            num_points: sampled.len() as _,
-            flags: time_vector::FLAG_IS_SORTED,
+            num_points: points.len() as _,
+            flags,
             internal_padding: [0; 3],
-            points: sampled.into(),
-            null_val: std::vec::from_elem(0_u8, nulls_len).into(),
+            points: points.into(),
+            null_val: null_val.into(),
         }
     }
 }
-- 
2.43.0


From 8a546e09fecf2a6fda09e767be76370653bc9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 34/60] fix: lambda: variables whose names begin with $value or
 $time

---
 extension/src/time_vector/pipeline/lambda/lambda_expr.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/lambda/lambda_expr.pest b/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
index 1d16b06..2e2f749 100644
--- a/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
+++ b/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
@@ -34,8 +34,8 @@ operation = _{
 num = @{ int ~ ("." ~ ASCII_DIGIT*)? ~ (^"e" ~ int)? }
     int = { ("+" | "-")? ~ ASCII_DIGIT+ }
 
-time_var = @{ ^"$time" }
-val_var = @{ ^"$value" }
+time_var = @{ ^"$time" ~ !(ASCII_ALPHANUMERIC | "_") }
+val_var = @{ ^"$value" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 time = @{ string ~ "t" }
 interval = @{ string ~ "i" }
-- 
2.43.0


From 86ae41c7b0112971c1347000f49ec06d67f540b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 35/60] fix: lambda: refuse expressions that would overflow the
 stack

---
 .../src/time_vector/pipeline/lambda/parser.rs | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index e16521f..ac46b33 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -34,7 +34,39 @@ use UnaryOp::*;
 #[grammar = "time_vector/pipeline/lambda/lambda_expr.pest"] // relative to src
 pub struct ExpressionParser;
 
+// Parsing and executing an expression recurses into everything that is nested,
+// or chained with operators and variables, and a stack overflow is fatal to the
+// whole server. These limits keep the stack well below its usual 8MB.
+const MAX_NESTING: usize = 200;
+const MAX_OPERATORS: usize = 1000;
+
+fn check_complexity(input: &str) {
+    let mut nesting = 0usize;
+    for c in input.chars() {
+        match c {
+            '(' => nesting += 1,
+            ')' => nesting = nesting.saturating_sub(1),
+            _ => (),
+        }
+        if nesting > MAX_NESTING {
+            panic!("expression is nested too deeply, at most {MAX_NESTING} levels are supported")
+        }
+    }
+
+    let input = input.to_ascii_lowercase();
+    let symbols = ['+', '-', '*', '/', '^', '<', '=', '>', ';'];
+    let operators = input.matches(symbols).count()
+        + ["and", "or", "not"]
+            .iter()
+            .map(|word| input.matches(word).count())
+            .sum::<usize>();
+    if operators > MAX_OPERATORS {
+        panic!("expression is too long, at most {MAX_OPERATORS} operators are supported")
+    }
+}
+
 pub fn parse_expression(input: &str) -> Expression {
+    check_complexity(input);
     let parsed = ExpressionParser::parse(calculation, input).unwrap_or_else(|e| panic!("{}", e));
 
     let mut variables = Vec::new();
-- 
2.43.0


From 185e1e31d969a44553b5b994f45c4fb2f1584833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 36/60] fix: lambda: check the types of function arguments

---
 extension/src/time_vector/pipeline/lambda/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index ac46b33..d34c9e7 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -159,6 +159,13 @@ fn parse_primary<'a>(
                     args.len(),
                 )
             }
+            if let Some(arg) = args.iter().find(|arg| arg.ty() != &Double) {
+                panic!(
+                    "function `{}` expects DOUBLE PRECISION arguments and received {:?}",
+                    func_name.as_str(),
+                    arg.ty(),
+                )
+            }
 
             FunctionCall(func_id, args)
         }
-- 
2.43.0


From 78550675effb99cb0e0541a4801855df05b43852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 37/60] fix: asap_smooth: search the autocorrelation peaks

The vector of autocorrelations was only reserved, never filled, so that no
candidate window was ever taken from it; the lower bound that a feasible
candidate gives was NaN.
---
 crates/asap/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/asap/src/lib.rs b/crates/asap/src/lib.rs
index 8a413c7..fe7cf65 100644
--- a/crates/asap/src/lib.rs
+++ b/crates/asap/src/lib.rs
@@ -95,7 +95,7 @@ pub fn asap_smooth_with_metadata(data: &[f64], resolution: u32) -> AsapSmoothRes
                 window_size = w;
             }
             let test_lb =
-                w as f64 * (acf.max_acf - 1.0).sqrt() / (acf.correlations[w as usize] - 1.0);
+                w as f64 * ((acf.max_acf - 1.0) / (acf.correlations[w as usize] - 1.0)).sqrt();
             if test_lb > lb as f64 {
                 lb = test_lb.round() as u32;
             }
@@ -193,7 +193,7 @@ impl<'a> Acf<'a> {
         let mut acf = Acf {
             mean: mean(values),
             values,
-            correlations: Vec::with_capacity(max_lag as usize),
+            correlations: vec![0.0; max_lag as usize],
             max_acf: 0.0,
         };
         acf.calculate();
@@ -221,7 +221,7 @@ impl<'a> Acf<'a> {
 
         /*  R(t) = IFFT(S(f)) */
         fft::inverse_transform(&mut fftreal, &mut fftimg);
-        for i in 1..self.correlations.len() {
+        for i in 0..self.correlations.len() {
             self.correlations[i] = fftreal[i] / fftreal[0];
         }
     }
-- 
2.43.0


From 6048dc0155fab2634080b7b6561599e757527582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 38/60] fix: topn: refuse a NULL of another type than the
 aggregate's

---
 extension/src/frequency.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 159185b..c217cbf 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1454,7 +1454,38 @@ fn validate_topn_for_mcv_agg(
     }
 }
 
-#[pg_extern(immutable, parallel_safe)]
+// A NULL has a type, too: it is the type of the result.
+fn validate_topn_type(
+    agg: &SpaceSavingAggregate<'_>,
+    fcinfo: pg_sys::FunctionCallInfo,
+    arg: usize,
+) {
+    if unsafe { pgrx::pg_getarg_type(fcinfo, arg) }.to_u32() != agg.type_oid {
+        pgrx::error!("mischatched types")
+    }
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn raw_topn<'a>(
+    agg: SpaceSavingAggregate<'a>,
+    n: i32,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'a, AnyElement> {
+    validate_topn_type(&agg, fcinfo, 2);
+    topn(agg, n, ty)
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn raw_default_topn<'a>(
+    agg: SpaceSavingAggregate<'a>,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'a, AnyElement> {
+    validate_topn_type(&agg, fcinfo, 1);
+    default_topn(agg, ty)
+}
+
 pub fn topn(
     agg: SpaceSavingAggregate<'_>,
     n: i32,
@@ -1490,7 +1521,6 @@ pub fn topn(
     )
 }
 
-#[pg_extern(immutable, parallel_safe, name = "topn")]
 pub fn default_topn(
     agg: SpaceSavingAggregate<'_>,
     ty: Option<AnyElement>,
-- 
2.43.0


From 7559824097d44f6d64182d698259bb2f5718f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 39/60] fix: a malformed timestamp in a text form is an error,
 not a crash

---
 crates/tspoint/src/lib.rs      | 4 ++--
 extension/src/serialization.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tspoint/src/lib.rs b/crates/tspoint/src/lib.rs
index 7684495..8c8c5d9 100644
--- a/crates/tspoint/src/lib.rs
+++ b/crates/tspoint/src/lib.rs
@@ -35,7 +35,7 @@ impl Serialize for TSPoint {
     {
         if serializer.is_human_readable() {
             // FIXME ugly hack to use postgres functions in an non-postgres library
-            unsafe extern "C" {
+            unsafe extern "C-unwind" {
                 fn _ts_toolkit_encode_timestamptz(dt: i64, buf: &mut [u8; 128]);
             }
             let mut ts = [0; 128];
@@ -70,7 +70,7 @@ impl<'de> Deserialize<'de> for TSPoint {
         }
 
         // FIXME ugly hack to use postgres functions in an non-postgres library
-        unsafe extern "C" {
+        unsafe extern "C-unwind" {
             // this is only going to be used to communicate with a rust lib we compile with this one
             #[allow(improper_ctypes)]
             fn _ts_toolkit_decode_timestamptz(text: &str) -> i64;
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 6a3bc08..1ce6d8c 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -16,7 +16,7 @@ mod types;
 
 // basically timestamptz_out
 #[unsafe(no_mangle)]
-pub extern "C" fn _ts_toolkit_encode_timestamptz(
+pub extern "C-unwind" fn _ts_toolkit_encode_timestamptz(
     dt: pg_sys::TimestampTz,
     buf: &mut [c_char; pg_sys::MAXDATELEN as _],
 ) {
@@ -54,7 +54,7 @@ pub extern "C" fn _ts_toolkit_encode_timestamptz(
 #[unsafe(no_mangle)]
 // this is only going to be used to communicate with a rust lib we compile with this one
 #[allow(improper_ctypes_definitions)]
-pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
+pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
     use std::{ffi::CString, mem::MaybeUninit, ptr};
     let str = CString::new(text).unwrap();
     unsafe {
-- 
2.43.0


From 59d5874a9478d09d5f73d1918cf1b070a6d33c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 40/60] fix: read back names that need escapes in text forms

---
 extension/src/serialization/collations.rs | 2 +-
 extension/src/serialization/functions.rs  | 2 +-
 extension/src/serialization/types.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/serialization/collations.rs b/extension/src/serialization/collations.rs
index 88dbfc6..7711c5c 100644
--- a/extension/src/serialization/collations.rs
+++ b/extension/src/serialization/collations.rs
@@ -170,7 +170,7 @@ impl<'de> Deserialize<'de> for PgCollationId {
     {
         use serde::de::Error;
 
-        let collation = <Option<(&str, &str)>>::deserialize(deserializer)?;
+        let collation = <Option<(String, String)>>::deserialize(deserializer)?;
         let (namespace, name) = match collation {
             None => return Ok(Self(pg_sys::Oid::INVALID)),
             Some(qualified_name) => qualified_name,
diff --git a/extension/src/serialization/functions.rs b/extension/src/serialization/functions.rs
index 09641d7..cac9205 100644
--- a/extension/src/serialization/functions.rs
+++ b/extension/src/serialization/functions.rs
@@ -55,7 +55,7 @@ impl<'de> Deserialize<'de> for PgProcId {
             #[allow(improper_ctypes)]
             fn regprocedurein(fcinfo: pg_sys::FunctionCallInfo) -> Datum;
         }
-        let qualified_name = <&str>::deserialize(deserializer)?;
+        let qualified_name = String::deserialize(deserializer)?;
         let qualified_name = CString::new(qualified_name).unwrap();
         let oid = unsafe {
             pg_sys::DirectFunctionCall1Coll(
diff --git a/extension/src/serialization/types.rs b/extension/src/serialization/types.rs
index 5736724..2dc7d39 100644
--- a/extension/src/serialization/types.rs
+++ b/extension/src/serialization/types.rs
@@ -262,7 +262,7 @@ impl<'de> Deserialize<'de> for PgTypId {
     {
         use serde::de::Error;
 
-        let (namespace, name) = <(&str, &str)>::deserialize(deserializer)?;
+        let (namespace, name) = <(String, String)>::deserialize(deserializer)?;
         let (namespace, name) = (
             CString::new(namespace).unwrap(),
             CString::new(name).unwrap(),
-- 
2.43.0


From 575234af87e39534386ca17e75d0e3ca1e8beaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 41/60] fix: state_agg: arrow accessors refuse the other kind
 of state

---
 extension/src/state_aggregate.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index f4db7c9..ad23430 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -854,6 +854,7 @@ pub fn arrow_state_agg_duration_in_string<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationIn,
 ) -> crate::raw::Interval {
+    agg.assert_str();
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -865,6 +866,7 @@ pub fn arrow_state_agg_duration_in_int<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationInInt,
 ) -> crate::raw::Interval {
+    agg.assert_int();
     let state = MaterializedState::Integer(accessor.state);
     duration_in_inner(Some(agg.as_compact_state_agg()), state, None)
 }
@@ -927,6 +929,7 @@ pub fn arrow_state_agg_duration_in_range_string<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationInRange,
 ) -> crate::raw::Interval {
+    agg.assert_str();
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -942,6 +945,7 @@ pub fn arrow_state_agg_duration_in_range_int<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationInRangeInt,
 ) -> crate::raw::Interval {
+    agg.assert_int();
     let state = MaterializedState::Integer(accessor.state);
     duration_in_inner(
         Some(agg.as_compact_state_agg()),
@@ -1078,6 +1082,9 @@ pub fn arrow_state_agg_interpolated_duration_in_string<'a>(
     agg: Option<StateAgg<'a>>,
     accessor: AccessorInterpolatedDurationIn,
 ) -> crate::raw::Interval {
+    if let Some(ref agg) = agg {
+        agg.assert_str()
+    };
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -1099,6 +1106,9 @@ pub fn arrow_state_agg_interpolated_duration_in_int<'a>(
     agg: Option<StateAgg<'a>>,
     accessor: AccessorInterpolatedDurationInInt,
 ) -> crate::raw::Interval {
+    if let Some(ref agg) = agg {
+        agg.assert_int()
+    };
     let state = MaterializedState::Integer(accessor.state);
     interpolated_duration_in_inner(
         agg.map(StateAgg::as_compact_state_agg),
@@ -1584,6 +1594,7 @@ pub fn arrow_state_agg_state_periods_string<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    agg.assert_str();
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -1601,6 +1612,7 @@ pub fn arrow_state_agg_state_periods_int<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    agg.assert_int();
     let state = MaterializedState::Integer(accessor.state);
     state_periods_inner(agg.as_compact_state_agg(), state)
 }
@@ -1693,6 +1705,9 @@ pub fn arrow_state_agg_interpolated_state_periods_string<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    if let Some(ref agg) = agg {
+        agg.assert_str()
+    };
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -1720,6 +1735,9 @@ pub fn arrow_state_agg_interpolated_state_periods_int<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    if let Some(ref agg) = agg {
+        agg.assert_int()
+    };
     let state = MaterializedState::Integer(accessor.state);
     interpolated_state_periods_inner(
         agg.map(StateAgg::as_compact_state_agg),
@@ -1770,6 +1788,7 @@ pub fn arrow_state_agg_state_at_string<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorStateAt,
 ) -> Option<String> {
+    agg.assert_str();
     state_at_inner(agg, accessor.time).map(MaterializedState::into_string)
 }
 
@@ -1779,6 +1798,7 @@ pub fn arrow_state_agg_state_at_int<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorStateAtInt,
 ) -> Option<i64> {
+    agg.assert_int();
     state_at_inner(agg, accessor.time).map(MaterializedState::into_integer)
 }
 
-- 
2.43.0


From 1463212597b4b676766dd82ef7fa55c86ec8b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 42/60] fix: month_normalize counts the days of every month
 right

---
 extension/src/utilities.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/utilities.rs b/extension/src/utilities.rs
index 70e9fb2..5bf89cb 100644
--- a/extension/src/utilities.rs
+++ b/extension/src/utilities.rs
@@ -93,7 +93,7 @@ extension_sql!(
 CREATE FUNCTION days_in_month(date timestamptz) RETURNS int
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - date_trunc('month', $1))) AS INTEGER)
+SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - interval '1 day')) AS INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name = "days_in_month",
@@ -105,7 +105,7 @@ extension_sql!(
 CREATE FUNCTION month_normalize(metric float8, reference_date timestamptz, days float8 DEFAULT 365.25/12) RETURNS float8
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT metric * days / CAST(EXTRACT('day' FROM (reference_date + interval '1 month' - reference_date)) as INTEGER)
+SELECT metric * days / CAST(EXTRACT('day' FROM (date_trunc('month', reference_date) + interval '1 month' - interval '1 day')) as INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name="month_normalize",
-- 
2.43.0


From 461e2b6733328c151227ea6612cb6a6c4d47fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 43/60] fix: flat iterators skip the padding between elements
 and nth stops at the end

---
 crates/flat_serialize/flat_serialize/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/flat_serialize/flat_serialize/src/lib.rs b/crates/flat_serialize/flat_serialize/src/lib.rs
index 1881e59..007fdd5 100644
--- a/crates/flat_serialize/flat_serialize/src/lib.rs
+++ b/crates/flat_serialize/flat_serialize/src/lib.rs
@@ -280,7 +280,7 @@ where
                 i.next()
             }
             Self::Slice(s) => {
-                *s = s.get(n..)?;
+                *s = s.get(n..).unwrap_or(&[]);
                 self.next()
             }
             Self::Owned(i) => i.nth(n),
@@ -444,7 +444,9 @@ where
             return None;
         }
         let (val, rem) = unsafe { <T>::try_ref(self.slice).unwrap() };
-        self.slice = rem;
+        // elements are followed by the padding that aligns the next one
+        let additional_len = aligning_len(rem.as_ptr() as _, T::REQUIRED_ALIGNMENT);
+        self.slice = &rem[additional_len..];
         Some(val)
     }
 }
-- 
2.43.0


From 6278a67c714283381caeb9311ba1ca4020bc354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 44/60] fix: with_bounds keeps the start when it also adds the
 end

---
 crates/time-weighted-average/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/time-weighted-average/src/lib.rs b/crates/time-weighted-average/src/lib.rs
index 6e54786..8c8c8db 100644
--- a/crates/time-weighted-average/src/lib.rs
+++ b/crates/time-weighted-average/src/lib.rs
@@ -129,7 +129,7 @@ impl TimeWeightSummary {
         }
 
         if let Some((end, next)) = end_next {
-            calc = self.with_next(end, next)?
+            calc = calc.with_next(end, next)?
         }
         Ok(calc)
     }
-- 
2.43.0


From 995a37be2bf303405eed58d3498772d47ee1a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 45/60] fix: merged t-digests keep within their number of
 centroids

---
 crates/t-digest/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 10d78ed..0f8a99c 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -475,6 +475,7 @@ impl TDigest {
 
         let mut k_limit: f64 = 1.0;
         let mut q_limit_times_count: f64 = Self::k_to_q(k_limit, max_size as f64) * (count as f64);
+        k_limit += 1.0;
 
         let mut iter_centroids = centroids.iter_mut();
         let mut curr = iter_centroids.next().unwrap();
-- 
2.43.0


From 5e60d58b0ad85e873d55c41ed3bac57a731a86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 46/60] fix: sql-doctester: precision limits given with the SQL
 apply

---
 tools/sql-doctester/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/sql-doctester/src/parser.rs b/tools/sql-doctester/src/parser.rs
index 6203b79..cbbccf3 100644
--- a/tools/sql-doctester/src/parser.rs
+++ b/tools/sql-doctester/src/parser.rs
@@ -118,7 +118,9 @@ pub fn extract_tests_from_string(s: &str, file_stem: &str) -> TestFile {
                                             "cannot have precision limits on both test and output.\n{file_stem}:{current_line} {heading_stack:?}"
                                         )
                                     }
-                                    test.precision_limits = code_block_info.precision_limits;
+                                    if test.precision_limits.is_empty() {
+                                        test.precision_limits = code_block_info.precision_limits;
+                                    }
                                     let _ = parser.next();
                                     break;
                                 }
-- 
2.43.0


From fb1177b2d02fd5ce45384a5ed7d5bea6c1f65759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 47/60] fix: sql-doctester: a precision limit inside a
 character is no panic

---
 tools/sql-doctester/src/runner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/sql-doctester/src/runner.rs b/tools/sql-doctester/src/runner.rs
index 2c7e220..f3fc9f9 100644
--- a/tools/sql-doctester/src/runner.rs
+++ b/tools/sql-doctester/src/runner.rs
@@ -210,7 +210,9 @@ fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(), T
         )));
     }
 
-    fn clamp_len<'s>(mut col: &'s str, idx: usize, test: &Test) -> &'s str {
+    fn clamp_len<'s>(col: &'s str, idx: usize, test: &Test) -> &'s [u8] {
+        // the limit is in bytes, it can be inside a character
+        let mut col = col.as_bytes();
         let max_len = test.precision_limits.get(&idx);
         if let Some(&max_len) = max_len {
             if col.len() > max_len {
-- 
2.43.0


From 2dbf1e862b0d853664920c9177cb40b1773015b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 48/60] fix: sql-doctester: rows with different numbers of
 columns can be shown

---
 tools/sql-doctester/src/runner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/sql-doctester/src/runner.rs b/tools/sql-doctester/src/runner.rs
index f3fc9f9..aae69c2 100644
--- a/tools/sql-doctester/src/runner.rs
+++ b/tools/sql-doctester/src/runner.rs
@@ -287,6 +287,10 @@ fn stringify_delta(left: &[Vec<String>], right: &[Vec<String>]) -> String {
         let left = left.get(i).unwrap_or(&EMPTY_ROW);
         let right = right.get(i).unwrap_or(&EMPTY_ROW);
         let cols = max(left.len(), right.len());
+        // the rows can have different numbers of columns
+        if width.len() < cols {
+            width.resize(cols, 0);
+        }
         for j in 0..cols {
             let left = left.get(j).unwrap_or(&EMPTY_VAL);
             let right = right.get(j).unwrap_or(&EMPTY_VAL);
-- 
2.43.0


From 833528fb4008c0dbf52243a8ec7f0ab25878a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 49/60] fix: sql-doctester: errors after non-ASCII text can be
 shown

---
 tools/sql-doctester/src/runner.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tools/sql-doctester/src/runner.rs b/tools/sql-doctester/src/runner.rs
index aae69c2..d65ec21 100644
--- a/tools/sql-doctester/src/runner.rs
+++ b/tools/sql-doctester/src/runner.rs
@@ -380,13 +380,14 @@ impl TestError {
     pub fn annotate_position<'s>(&self, sql: &'s str) -> Cow<'s, str> {
         match self.location() {
             None => sql.into(),
-            Some(pos) => format!(
-                "{}{}{}",
-                &sql[..pos as usize],
-                "~>".bright_red(),
-                &sql[pos as usize..],
-            )
-            .into(),
+            Some(pos) => {
+                // postgres counts characters, not bytes
+                let pos = sql
+                    .char_indices()
+                    .nth(pos as usize)
+                    .map_or(sql.len(), |(idx, _)| idx);
+                format!("{}{}{}", &sql[..pos], "~>".bright_red(), &sql[pos..]).into()
+            }
         }
     }
 
-- 
2.43.0


From c6bf6de9e6e6bd1ca82f58bcc8b2f4219d9ca4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 50/60] fix: update-tester: the command line can be parsed

clap 4 has no help argument to mutate before the arguments are built: every
invocation panicked.
---
 tools/update-tester/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tools/update-tester/src/main.rs b/tools/update-tester/src/main.rs
index 0f6fa15..18daccc 100644
--- a/tools/update-tester/src/main.rs
+++ b/tools/update-tester/src/main.rs
@@ -5,8 +5,7 @@ use std::{
     process,
 };
 
-use clap::Arg;
-use clap::Command;
+use clap::{Arg, ArgAction, Command};
 
 use colored::Colorize;
 
@@ -151,10 +150,13 @@ fn main() {
             )
 	)
 // Mutates help, removing the short flag (-h) so that it can be used by HOST
-	.mut_arg("help", |_h| {
-      Arg::new("help")
-          .long("help")
-  })
+	.disable_help_flag(true)
+	.arg(
+            Arg::new("help")
+                .long("help")
+                .action(ArgAction::Help)
+                .global(true)
+	)
 	.get_matches();
 
     match matches.subcommand() {
-- 
2.43.0


From b0b431ca6ef220bc9b0bf8081d05afff5f987093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 51/60] fix: update-tester: precision limits given with the SQL
 apply

---
 tools/update-tester/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index 4b78030..ab340d0 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -168,7 +168,9 @@ pub fn extract_tests_from_string(s: &str, file_stem: &str) -> TestFile {
                                             "cannot have precision limits on both test and output.\n{file_stem}:{current_line} {heading_stack:?}",
                                         )
                                     }
-                                    test.precision_limits = code_block_info.precision_limits;
+                                    if test.precision_limits.is_empty() {
+                                        test.precision_limits = code_block_info.precision_limits;
+                                    }
                                     let _ = parser.next();
                                     break;
                                 }
-- 
2.43.0


From 713966be23335025a58aee8c77f8d55ef973dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 52/60] fix: update-tester: a precision limit inside a
 character is no panic

---
 tools/update-tester/src/testrunner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index a46f862..c31eb99 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -503,7 +503,9 @@ pub fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(
         )));
     }
 
-    fn clamp_len<'s>(mut col: &'s str, idx: usize, test: &Test) -> &'s str {
+    fn clamp_len<'s>(col: &'s str, idx: usize, test: &Test) -> &'s [u8] {
+        // the limit is in bytes, it can be inside a character
+        let mut col = col.as_bytes();
         let max_len = test.precision_limits.get(&idx);
         if let Some(&max_len) = max_len {
             if col.len() > max_len {
-- 
2.43.0


From 83b0eb02af705892b59dabadf2105f880479afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 53/60] fix: update-tester: rows with different numbers of
 columns can be shown

---
 tools/update-tester/src/testrunner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index c31eb99..a4b66bf 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -579,6 +579,10 @@ fn stringify_delta(left: &[Vec<String>], right: &[Vec<String>]) -> String {
         let left = left.get(i).unwrap_or(&EMPTY_ROW);
         let right = right.get(i).unwrap_or(&EMPTY_ROW);
         let cols = max(left.len(), right.len());
+        // the rows can have different numbers of columns
+        if width.len() < cols {
+            width.resize(cols, 0);
+        }
         for j in 0..cols {
             let left = left.get(j).unwrap_or(&EMPTY_VAL);
             let right = right.get(j).unwrap_or(&EMPTY_VAL);
-- 
2.43.0


From d2d9ff21f7d9817eff3145e844a2d592a0f62a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 54/60] fix: update-tester: errors after non-ASCII text can be
 shown

---
 tools/update-tester/src/testrunner.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index a4b66bf..5f69a01 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -673,13 +673,14 @@ impl TestError {
     pub fn annotate_position<'s>(&self, sql: &'s str) -> Cow<'s, str> {
         match self.location() {
             None => sql.into(),
-            Some(pos) => format!(
-                "{}{}{}",
-                &sql[..pos as usize],
-                "~>".bright_red(),
-                &sql[pos as usize..],
-            )
-            .into(),
+            Some(pos) => {
+                // postgres counts characters, not bytes
+                let pos = sql
+                    .char_indices()
+                    .nth(pos as usize)
+                    .map_or(sql.len(), |(idx, _)| idx);
+                format!("{}{}{}", &sql[..pos], "~>".bright_red(), &sql[pos..]).into()
+            }
         }
     }
 
-- 
2.43.0


From fece02110a3dbf5faed1d1766646560beff88831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 55/60] fix: update-tester: a space before min-toolkit-version
 is no panic

---
 tools/update-tester/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index ab340d0..e92c82a 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -265,7 +265,7 @@ fn parse_code_block_info(info: &str) -> CodeBlockInfo {
             m if m.starts_with("min-toolkit-version") => {
                 // TODO Can we assume that version is greater than 1.10.1 since current tests don't have a min version? This means we ccan skip edge cases of 1.4/1.10.0-dev/etc.
                 info.min_toolkit_version =
-                    Some(Version::parse(token.trim_start_matches("min-toolkit-version=")).unwrap())
+                    Some(Version::parse(m.trim_start_matches("min-toolkit-version=")).unwrap())
             } // not great, shouldn't assume they typed in a valid version. fix later
             "creation" => info.creation = true,
             "validation" => info.validation = true,
-- 
2.43.0


From ed931741510b7491c7d1eba88b3b14aec1d396eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 56/60] fix: update-tester: ignore-output is obeyed

---
 tools/update-tester/src/parser.rs     | 2 +-
 tools/update-tester/src/testrunner.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index e92c82a..4a9abb8 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -24,7 +24,7 @@ pub struct Test {
     pub text: String,
     pub output: Vec<Vec<String>>,
     transactional: bool,
-    ignore_output: bool,
+    pub ignore_output: bool,
     pub precision_limits: HashMap<usize, usize>,
     pub creation: bool,
     pub validation: bool,
diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index 5f69a01..c962faa 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -702,5 +702,8 @@ impl TestError {
 
 fn run_test(client: &mut Client, test: &Test) -> Result<(), TestError> {
     let output = client.simple_query(&test.text)?;
+    if test.ignore_output {
+        return Ok(());
+    }
     validate_output(output, test)
 }
-- 
2.43.0


From e06e2ccdddfd2f4d56820cf423764dc25c94ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 57/60] fix: update-tester: queries that return rows are no
 panic

---
 tools/update-tester/src/testrunner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index c962faa..8d2e0fa 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -450,7 +450,7 @@ fn get_values(query_results: Vec<SimpleQueryMessage>) -> QueryValues {
     query_results
         .into_iter()
         .filter_map(|msg| match msg {
-            SimpleQueryMessage::CommandComplete(_) => None,
+            SimpleQueryMessage::CommandComplete(_) | SimpleQueryMessage::RowDescription(_) => None,
             SimpleQueryMessage::Row(row) => {
                 let mut values = Vec::with_capacity(row.len());
                 for i in 0..row.len() {
@@ -478,7 +478,7 @@ pub fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(
                 }
                 rows.push(row);
             }
-            CommandComplete(_) => {}
+            CommandComplete(_) | RowDescription(_) => {}
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 070e9303ba41f2f77352fad6e9d76be7a4638447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 58/60] fix: heartbeat_agg: rollup merges the live ranges of
 trimmed aggregates that overlap

A trimmed aggregate can begin with a live range that starts after the last
heartbeat it saw, or has a range shorter than the interval length; the path for
ordered inputs dropped the start of the other aggregate's range, or kept
overlapping ranges.
---
 extension/src/heartbeat_agg.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index f2e2b97..cc1edc3 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -124,23 +124,10 @@ impl HeartbeatTransState {
         }
 
         // Optimized path for nonoverlapping, ordered inputs
-        if self.last < new_intervals.first().unwrap().0 {
-            let mut new_intervals = new_intervals.into_iter();
-
-            // Grab the first new interval to check for overlap with the existing data
-            let first_new = new_intervals.next().unwrap();
-
-            if self.liveness.last().unwrap().1 >= first_new.0 {
-                // The new interval can have been trimmed to less than the old bound
-                let last = self.liveness.last_mut().unwrap();
-                last.1 = max(last.1, first_new.1);
-            } else {
-                self.liveness.push(first_new);
-            }
-
-            for val in new_intervals {
-                self.liveness.push(val);
-            }
+        // Note that the intervals of a trimmed summary can begin after the last heartbeat seen,
+        // and be shorter than the interval length
+        if self.liveness.last().unwrap().1 < new_intervals.first().unwrap().0 {
+            self.liveness.extend(new_intervals);
             return;
         }
 
-- 
2.43.0


From 32b86d53d81f72cef11752929a5e86458199272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 59/60] fix: update-tester: test objects are created in UTC,
 too

---
 tools/update-tester/src/testrunner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index 8d2e0fa..a0c33f1 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -267,7 +267,8 @@ impl TestClient {
                 let mut test_client = connect_to(&test_config);
                 test_client
                     .simple_query(&format!(
-                        r#"ALTER DATABASE "{test_db_name}" SET timezone TO 'UTC';"#,
+                        // the former is for new sessions only
+                        r#"ALTER DATABASE "{test_db_name}" SET timezone TO 'UTC'; SET timezone TO 'UTC';"#,
                     ))
                     .unwrap_or_else(|e| panic!("could not set time zone to UTC due to {e}"));
 
-- 
2.43.0


From f7782fbb28ca3efb0be1a0fabd238bdf17aac5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 60/60] fix: heartbeat_agg: an interpolated aggregate has seen
 what its predecessor has seen

An aggregate trimmed to a range without heartbeats kept no last heartbeat when it
was interpolated, so that the live range could not continue into the next one.
---
 extension/src/heartbeat_agg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index cc1edc3..bdf1c0a 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -275,6 +275,9 @@ impl HeartbeatAgg<'_> {
             return;
         }
 
+        // A trimmed aggregate can have seen nothing, or nothing later
+        self.last_seen = max(self.last_seen, pred.last_seen);
+
         // Merge (start_time, pred_end) with the ranges that it reaches
         let reached = self
             .interval_starts
-- 
2.43.0

