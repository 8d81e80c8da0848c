From 36af6bc4661d90ee1712fdbaa9e670a519c82eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 001/158] fix: kNN search keeps neighbours lying exactly at the
 maximum distance bound

A subtree whose box starts exactly at the bound was pruned although leaves
accept distances equal to it, so such neighbours were reported or not
depending on where the tree happened to split.
---
 src/arkadia/kdt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..37150bf 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -358,7 +358,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
@@ -843,7 +843,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
-- 
2.43.0


From 7533e56679037c979d9d92400f0571cecc7f217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 002/158] fix: KDTree.within and within_count answer when the
 radius is a one-element array

The result was dropped (None was returned), and sort/parallel were forwarded
to the wrong parameters.
---
 python/polars_ds/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..ba4742a 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(X, float(rad[0]), sort, return_dist, parallel)
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +185,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From a13758273245263b71512e86b62dba5fe9abe05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 003/158] fix: within_dist_from compares the l2 distance, not
 its square, with the radius

---
 python/polars_ds/exprs/expr_knn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..3cc196f 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -364,7 +364,14 @@ def within_dist_from(
             pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
             <= r
         )
-    elif dist in ("l2", "sql2"):
+    elif dist == "l2":
+        return (
+            pl.sum_horizontal(
+                (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
+            ).sqrt()
+            <= r
+        )
+    elif dist == "sql2":
         return (
             pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
             <= r
-- 
2.43.0


From 1a184c02d84d450cf933b6aaa1173a275b29002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 004/158] fix: the infinity distance to a row with NaN is NaN,
 so that it is never a neighbour

max() ignores NaN, so rows with a null or NaN feature were neighbours of other
rows under the inf metric, at the distance in the remaining dimensions.
---
 src/utils/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 360da3c..8fc758e 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -334,7 +334,15 @@ impl<T: Float + DistanceOps + 'static> DIST<T> {
                 .iter()
                 .copied()
                 .zip(a2.iter().copied())
-                .fold(T::zero(), |acc, (x, y)| acc.max((x - y).abs())),
+                .fold(T::zero(), |acc, (x, y)| {
+                    let d = (x - y).abs();
+                    // Unlike max, this propagates NaN as the other distances do.
+                    if d > acc || d.is_nan() {
+                        d
+                    } else {
+                        acc
+                    }
+                }),
 
             DIST::ANY(func) => func(a1, a2),
         }
-- 
2.43.0


From dfef6af57dac1418c46363ad54d5a92a8b79f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 005/158] fix: neighbour queries in which no row can be a
 neighbour do not panic

With every row masked out (or null) or with no rows, the dimension of the tree
was read from a leaf that does not exist.
---
 src/num_ext/knn.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 603f58a..0da539e 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -3,7 +3,7 @@
 use crate::{
     arkadia::{
         utils::{slice_to_empty_leaves, slice_to_leaves},
-        KNNMethod, KNNRegressor, Leaf, SpatialQueries, KDT,
+        suggest_capacity, KNNMethod, KNNRegressor, Leaf, SpatialQueries, KDT,
     },
     utils::{list_u32_output, series_to_row_major_slice, split_offsets, DIST},
 };
@@ -82,6 +82,20 @@ pub fn row_major_slice_to_leaves_filtered<'a, T: Float + 'static, A: Copy>(
         .collect::<Vec<_>>()
 }
 
+/// Builds the tree. The leaves can be empty, e.g. when the mask excludes every row, in which case
+/// the dimension cannot be read from them.
+fn tree_from_leaves<'a, A: Copy>(
+    leaves: &'a mut [Leaf<'a, f64, A>],
+    dim: usize,
+    d: DIST<f64>,
+) -> KDT<'a, f64, A> {
+    if leaves.is_empty() {
+        KDT::new_empty(dim, suggest_capacity(dim), d)
+    } else {
+        KDT::from_leaves_unchecked(leaves, d)
+    }
+}
+
 /// KNN Regression
 /// Always do k + 1 because this operation is in-dataframe, and this means
 /// that the point itself is always a neighbor to itself.
@@ -112,7 +126,7 @@ fn pl_knn_avg(
     let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, &null_mask);
 
     let tree = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
-        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, d)),
+        Ok(d) => Ok(tree_from_leaves(&mut leaves, ncols, d)),
         Err(e) => Err(e),
     }
     .map_err(|err| PolarsError::ComputeError(err.into()))?;
@@ -228,7 +242,7 @@ fn pl_dist_from_kth_nb(
             let mut leaves: Vec<Leaf<f64, ()>> =
                 data.chunks_exact(ncols).map(|sl| ((), sl).into()).collect();
             // let mut leaves = row_major_slice_to_leaves(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             let nrows = data.len() / ncols;
             let ca = if can_parallel {
                 let n_threads = POOL.current_num_threads();
@@ -309,7 +323,7 @@ fn pl_knn_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, keep_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(knn_ptwise(
                 tree,
                 eval_mask,
@@ -474,7 +488,7 @@ fn pl_knn_ptwise_w_dist(
     let (ca_nb, ca_dist) = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(knn_ptwise_w_dist(
                 tree,
                 eval_mask,
@@ -572,7 +586,7 @@ fn pl_query_radius_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = slice_to_leaves(&data, ncols, id);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(query_radius_ptwise(tree, &data, radius, can_parallel, sort).into_series())
         }
         Err(e) => Err(PolarsError::ComputeError(e.into())),
@@ -677,7 +691,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = tree_from_leaves(&mut leaves, ncols, d);
                 Ok(query_nb_cnt(tree, &data, r, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
@@ -688,7 +702,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = tree_from_leaves(&mut leaves, ncols, d);
                 Ok(query_nb_cnt_w_radius(tree, &data, radius, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
-- 
2.43.0


From 795a1396f37597a509a0efa11c2c6ba86cd66405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 006/158] fix: str_lcs_seq(return_sim=True) calls the function
 the extension exports

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From c53b6f4f10b5e67d4be16f85ad1045c29c1def7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 007/158] fix: declared output types of fuzz, random_str,
 rolling/recursive regression and binary metrics match the results

---
 src/num_ext/linear_regression.rs     |  2 +-
 src/num_ext/linear_regression_f32.rs |  2 +-
 src/num_ext/tp_fp.rs                 | 10 +++++-----
 src/stats/sample.rs                  |  2 +-
 src/str_ext/fuzz.rs                  |  2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..c06f105 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -75,7 +75,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..d68fc50 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -50,7 +50,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..0f096d4 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,7 +9,7 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
+    let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
@@ -243,10 +243,10 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
 
 // bcm = binary confusion matrix
 fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
-    let tp = Field::new("tp".into(), DataType::UInt32);
-    let fp = Field::new("fp".into(), DataType::UInt32);
-    let tn = Field::new("tn".into(), DataType::UInt32);
-    let fn_ = Field::new("fn".into(), DataType::UInt32);
+    let tp = Field::new("tp".into(), DataType::Float64);
+    let fp = Field::new("fp".into(), DataType::Float64);
+    let tn = Field::new("tn".into(), DataType::Float64);
+    let fn_ = Field::new("fn".into(), DataType::Float64);
 
     let fpr = Field::new("fpr".into(), DataType::Float64);
     let fnr = Field::new("fnr".into(), DataType::Float64);
diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..965e2e6 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 0820fb693bc42be61ca54abdb37bc7076daae7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 008/158] fix: random_binomial passes n as the unsigned integer
 the extension reads

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..76bcfd4 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -635,7 +635,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From 390afa973920dfefe2dd911d8778829829f36185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 009/158] fix: gmean and weighted_gmean use the logarithm
 polars provides

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 76bcfd4..b373443 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -747,7 +747,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -767,9 +767,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From 249e17cf20d2300b8d0b3ff4c00c29901f5275dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 010/158] fix: weighted_hmean weighs the reciprocals

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index b373443..c327d81 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -731,7 +731,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(1.0 / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From aa81ec0e328082307a0af8db70185db9773cec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 011/158] fix: weighted_corr uses y for the variance of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index c327d81..6038a07 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -875,7 +875,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From 2d04ec25bc7e6e937d09f1019d48adb1c9b58132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 012/158] fix: cosine_sim divides by the product of the norms

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 6038a07..da08af4 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -893,7 +893,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 77dfa7b1d8145c787bdf02576c2b0cc7e4d23214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 013/158] fix: mann_whitney_u tie correction includes the ties
 at the largest rank

---
 src/stats/mann_whitney_u.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..675e654 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,7 +18,8 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // the last group of ties
+    accumulant + rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
-- 
2.43.0


From 366d98db3d0d2d0c8d667e1497419cfa56d209d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 014/158] fix: mann_whitney_u on all-tied data reports p = 1,
 query_mcc does not overflow on large counts

---
 src/num_ext/tp_fp.rs        | 2 +-
 src/stats/mann_whitney_u.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 0f096d4..878bb18 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -208,7 +208,7 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let n0_ = (n01 + n00) as f64;
     let n_0 = (n10 + n00) as f64;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = (n11 as f64 * n00 as f64 - n10 as f64 * n01 as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 675e654..1883280 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -53,7 +53,8 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        // everything is tied: there is no evidence of a difference
+        1.
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From d758655e22ea237e9da28dd268f1dbfeea5b12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 015/158] fix: confusion matrix ratios are not integer
 divisions

---
 src/num_ext/tp_fp.rs | 63 ++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 878bb18..9e4f6c8 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -243,10 +243,10 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
 
 // bcm = binary confusion matrix
 fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
-    let tp = Field::new("tp".into(), DataType::Float64);
-    let fp = Field::new("fp".into(), DataType::Float64);
-    let tn = Field::new("tn".into(), DataType::Float64);
-    let fn_ = Field::new("fn".into(), DataType::Float64);
+    let tp = Field::new("tp".into(), DataType::UInt32);
+    let fp = Field::new("fp".into(), DataType::UInt32);
+    let tn = Field::new("tn".into(), DataType::UInt32);
+    let fn_ = Field::new("fn".into(), DataType::UInt32);
 
     let fpr = Field::new("fpr".into(), DataType::Float64);
     let fnr = Field::new("fnr".into(), DataType::Float64);
@@ -302,6 +302,14 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+// Floating point division (the counts are integers), which is NaN when the denominator is 0
+fn nan_div(numerator: Expr, denominator: Expr) -> Expr {
+    let denominator = denominator.cast(DataType::Float64);
+    when(denominator.clone().eq(lit(0.0)))
+        .then(lit(f64::NAN))
+        .otherwise(numerator.cast(DataType::Float64) / denominator)
+}
+
 #[polars_expr(output_type_func=bcm_output)]
 fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
     // The combined_series is (lit(2) * col("y_true") + col("y_pred")).alias("y")
@@ -330,36 +338,42 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             (col("fp") + col("tn")).alias("n"),
         ])
         .with_columns([
-            (col("tp") / col("p")).alias("tpr"),
-            (col("fp") / col("n")).alias("fpr"),
-            (col("tp") / (col("tp") + col("fp"))).alias("precision"),
-            (col("fn") / (col("fn") + col("tn"))).alias("false_omission_rate"),
-            (col("p") / (col("p") + col("n"))).alias("prevalence"),
-            (col("tp") / (col("tp") + col("fn") + col("fp"))).alias("threat_score"),
+            nan_div(col("tp"), col("p")).alias("tpr"),
+            nan_div(col("fp"), col("n")).alias("fpr"),
+            nan_div(col("tp"), col("tp") + col("fp")).alias("precision"),
+            nan_div(col("fn"), col("fn") + col("tn")).alias("false_omission_rate"),
+            nan_div(col("p"), col("p") + col("n")).alias("prevalence"),
+            nan_div(col("tp"), col("tp") + col("fn") + col("fp")).alias("threat_score"),
         ])
         .with_columns([
-            (lit(1) - col("tpr")).alias("fnr"),
-            (lit(1) - col("fpr")).alias("tnr"),
-            (lit(1) - col("false_omission_rate")).alias("npv"),
-            (lit(1) - col("precision")).alias("fdr"),
+            (lit(1.0) - col("tpr")).alias("fnr"),
+            (lit(1.0) - col("fpr")).alias("tnr"),
+            (lit(1.0) - col("false_omission_rate")).alias("npv"),
+            (lit(1.0) - col("precision")).alias("fdr"),
         ])
         .with_columns([
-            (col("tpr") / col("fpr")).alias("plr"),
-            (col("fnr") / col("tnr")).alias("nlr"),
-            (col("tpr") + col("tnr") - lit(1)).alias("informedness"),
+            nan_div(col("tpr"), col("fpr")).alias("plr"),
+            nan_div(col("fnr"), col("tnr")).alias("nlr"),
+            (col("tpr") + col("tnr") - lit(1.0)).alias("informedness"),
             (col("precision") - col("false_omission_rate")).alias("markedness"),
-            (((col("tpr") * col("fpr")).sqrt() - col("fpr")) / (col("tpr") - col("fpr")))
-                .alias("prevalence_threshold"),
-            ((col("tpr") + col("tnr")) / lit(2)).alias("balanced_accuracy"),
-            ((lit(2) * col("precision") * col("tpr")) / (col("precision") + col("tpr")))
-                .alias("f1"),
+            nan_div(
+                (col("tpr") * col("fpr")).sqrt() - col("fpr"),
+                col("tpr") - col("fpr"),
+            )
+            .alias("prevalence_threshold"),
+            ((col("tpr") + col("tnr")) / lit(2.0)).alias("balanced_accuracy"),
+            nan_div(
+                lit(2.0) * col("precision") * col("tpr"),
+                col("precision") + col("tpr"),
+            )
+            .alias("f1"),
             ((col("precision") * col("tpr")).sqrt()).alias("folkes_mallows_index"),
             ((col("tpr") * col("tnr") * col("precision") * col("npv")).sqrt()
                 - (col("fnr") * col("fpr") * col("false_omission_rate") * col("fdr")).sqrt())
             .alias("mcc"),
-            ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
+            nan_div(col("tp") + col("tn"), col("p") + col("n")).alias("acc"),
         ])
-        .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([nan_div(col("plr"), col("nlr")).alias("dor")])
         .select(&[
             col("tp"),
             col("tn"),
@@ -387,7 +401,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From 440725a463ec333fba71c97db7d6dc4a494a60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 016/158] fix: ROC AUC and average precision include the last
 segment of the curve

---
 src/num_ext/tp_fp.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 9e4f6c8..3d143be 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -87,6 +87,15 @@ fn tp_fp_frame(
     }
 }
 
+// tpr and fpr are listed from the lowest threshold to the highest one. The curve then goes on to (0, 0).
+fn area_under_roc(tpr: &[f64], fpr: &[f64]) -> f64 {
+    let last = match (tpr.last(), fpr.last()) {
+        (Some(y), Some(x)) if tpr.len() > 1 => 0.5 * y * x,
+        _ => 0.,
+    };
+    last - super::trapz::trapz(tpr, fpr)
+}
+
 #[polars_expr(output_type_func=combo_output)]
 fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
@@ -126,13 +135,14 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?; // Zero copy
     let x = x.cont_slice()?; // Zero copy
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = area_under_roc(y, x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
+    // The last threshold is followed by recall = 0
     let ap: f64 = -1.0
         * y.iter()
-            .zip(y.iter().skip(1))
+            .zip(y.iter().skip(1).chain(std::iter::once(&0.)))
             .zip(precision)
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
@@ -237,7 +247,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?;
     let x = x.cont_slice()?;
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = area_under_roc(y, x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From 7917c07d29a1e2485487325b02bf224b3809846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 017/158] fix: binary metrics without positives, or with a
 threshold above all scores, return the declared struct

---
 src/num_ext/tp_fp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3d143be..5d558c5 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -107,7 +107,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nans = ["precision", "recall", "f", "average_precision", "roc_auc"]
+            .map(|name| Series::from_vec(name.into(), vec![f64::NAN]));
+        let out = StructChunked::from_series("metrics".into(), 1, nans.iter())?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
@@ -148,8 +151,9 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
     // Precision & Recall & F
-    let recall = y[index];
-    let precision = precision[index];
+    // If the threshold is above all predicted values, then nothing is predicted positive
+    let recall = y.get(index).copied().unwrap_or(0.);
+    let precision = precision.get(index).copied().unwrap_or(f64::NAN);
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
@@ -171,12 +175,13 @@ fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
     if positive_cnt == 0 {
+        let threshold = Series::from_vec("threshold".into(), vec![f64::NAN]);
         let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
         let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
         let ca = StructChunked::from_columns(
             "tpr_fpr".into(),
             1,
-            &[tpr.into_column(), fpr.into_column()],
+            &[threshold.into_column(), tpr.into_column(), fpr.into_column()],
         )?;
         Ok(ca.into_series())
     } else {
-- 
2.43.0


From e955229b3809ed09b75c1d17043dc8d884252ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 018/158] fix: calculate_ndcg groups by the given group column

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..a920af0 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on =group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 3765ed17a6a767db3bc99f7bd0ebe997febb3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 019/158] fix: multi-target regression declares one output
 field per target

---
 src/num_ext/linear_regression.rs     | 26 +++++++++++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 26 +++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index c06f105..1bb80a6 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -97,6 +97,25 @@ fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+// One list of coefficients per target
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let coeffs = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| Field::new(f.name.clone(), DataType::List(Box::new(DataType::Float64))))
+        .collect();
+    Ok(Field::new("coeffs".into(), DataType::Struct(coeffs)))
+}
+
+// One prediction and one residue per target
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let preds = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| ["pred", "resid"].map(|s| format!("{}_{}", f.name, s)))
+        .map(|name| Field::new(name.into(), DataType::Float64))
+        .collect();
+    Ok(Field::new("all_preds".into(), DataType::Struct(preds)))
+}
+
 #[derive(PartialEq)]
 pub enum StandardError {
     SE,
@@ -344,9 +363,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -394,8 +411,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index d68fc50..ebe2817 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -72,6 +72,25 @@ fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+// One list of coefficients per target
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let coeffs = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| Field::new(f.name.clone(), DataType::List(Box::new(DataType::Float32))))
+        .collect();
+    Ok(Field::new("coeffs".into(), DataType::Struct(coeffs)))
+}
+
+// One prediction and one residue per target
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let preds = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| ["pred", "resid"].map(|s| format!("{}_{}", f.name, s)))
+        .map(|name| Field::new(name.into(), DataType::Float32))
+        .collect();
+    Ok(Field::new("all_preds".into(), DataType::Struct(preds)))
+}
+
 // --------------------------------------------------------------------------------------------------
 
 /// Returns a Array2 ready for linear regression, and a mask, where true means the row doesn't contain null
@@ -286,9 +305,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -340,8 +357,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
-- 
2.43.0


From 37b297d42f664c4c7d27f4df226b3bddfad9bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 020/158] fix: principal_components declares the k components
 it returns

---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 src/num_ext/pca.rs            | 25 ++++++++++++++++++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..072db99 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -352,13 +352,17 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
     if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
+        actual_inputs = [f - f.mean() for f in feats]
     else:
-        actual_inputs.extend(feats)
+        actual_inputs = feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..5718387 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PrincipalComponentsKwargs {
+    pub(crate) k: usize,
+}
+
+fn principal_components_output(
+    _: &[Field],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,12 +87,14 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(
+    inputs: &[Series],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
-- 
2.43.0


From 2cae85335a2e02b668bb90b91b13b15b8ed0c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 021/158] fix: PCA expressions work with fewer rows than
 features and inside group_by

---
 python/polars_ds/exprs/num.py |  7 ++++++-
 src/num_ext/pca.rs            | 10 +++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 072db99..38dc1e3 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,7 +296,12 @@ def singular_values(
     else:
         actual_inputs = feats
 
-    out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
+    out = pl_plugin(
+        symbol="pl_singular_values",
+        args=actual_inputs,
+        returns_scalar=True,
+        pass_name_to_apply=True,
+    )
     if as_explained_var:
         out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
     if as_ratio:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 5718387..2376be3 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -100,14 +100,14 @@ fn pl_principal_components(
 
     let columns = if mat.nrows() < k {
         (0..k)
-            .map(|i| Series::from_vec(format!("pc{}", i + 1).into(), vec![f64::NAN]).into_column())
+            .map(|i| Series::from_vec(format!("pc{}", i + 1).into(), vec![f64::NAN; n]).into_column())
             .collect::<Vec<Column>>()
     } else {
         let (m, n) = mat.shape();
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(n, dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -150,7 +150,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(n, dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -175,9 +175,9 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut builder: PrimitiveChunkedBuilder<Float64Type> =
         PrimitiveChunkedBuilder::new("singular_value".into(), dim);
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
-        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
+        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim * n, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..dim {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From 89ccefefad6a88e07868a986571985928859d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 022/158] fix: singular_values(as_explained_var=True) divides
 by the number of samples - 1

---
 python/polars_ds/exprs/num.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 38dc1e3..93ec1a8 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,6 +296,11 @@ def singular_values(
     else:
         actual_inputs = feats
 
+    if as_explained_var:
+        # Rows with nulls are dropped. Scaling X by 1 / c scales the singular values by 1 / c.
+        n_samples = pl.all_horizontal(f.is_not_null() for f in feats).sum()
+        actual_inputs = [x / (n_samples - 1).sqrt() for x in actual_inputs]
+
     out = pl_plugin(
         symbol="pl_singular_values",
         args=actual_inputs,
@@ -303,7 +308,7 @@ def singular_values(
         pass_name_to_apply=True,
     )
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        out = out.list.eval(pl.element().pow(2))
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
-- 
2.43.0


From 08fb1719f09f86afdb4b28c94176d303a9adbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 023/158] fix: chi2(return_full=True) works inside group_by

---
 python/polars_ds/exprs/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index da08af4..ede03cc 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -280,7 +280,10 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     """
     if return_full:
         return pl_plugin(
-            symbol="pl_chi2_full", args=[str_to_expr(var1), str_to_expr(var2)], changes_length=True
+            symbol="pl_chi2_full",
+            args=[str_to_expr(var1), str_to_expr(var2)],
+            changes_length=True,
+            pass_name_to_apply=True,
         )
     else:
         return pl_plugin(
-- 
2.43.0


From 4215d9330d35348ddc6eb58d5380adcf745227b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 024/158] fix: float functions of integer columns return the
 Float64 they declare

---
 src/num_ext/float_extras.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..f2fb1ee 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -32,28 +32,28 @@ fn expit<T: Float>(x: T) -> T {
     T::one() / (T::one() + (-x).exp())
 }
 
-fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(logit::<f32>)
+fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(logit::<f64>)
 }
 
-fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(expit::<f32>)
+fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(expit::<f64>)
 }
 
-fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::gamma)
+fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::gamma)
 }
 
-fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::exp2)
+fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::exp2)
 }
 
-fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_up)
+fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_up)
 }
 
-fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_down)
+fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_down)
 }
 
 fn cast_and_apply_diagamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
@@ -200,7 +200,11 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        // Whole numbers have no fractional part; nulls stay null
+        Ok(s.cast(&DataType::Float64)?
+            .f64()?
+            .apply_values(f64::fract)
+            .into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From 45b8bdc86a754199c8814e4748cead14d37562cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 025/158] fix: query_tpr_fpr and query_binary_metrics accept
 float32 and integer scores as declared

---
 python/polars_ds/exprs/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index a920af0..0bb5df0 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -384,7 +384,7 @@ def query_tpr_fpr(
     """
     return pl_plugin(
         symbol="pl_tpr_fpr",
-        args=[str_to_expr(actual).cast(pl.UInt32), str_to_expr(pred)],
+        args=[str_to_expr(actual).cast(pl.UInt32), str_to_expr(pred).cast(pl.Float64)],
     )
 
 
@@ -512,7 +512,7 @@ def query_binary_metrics(
         symbol="pl_combo_b",
         args=[
             str_to_expr(actual).cast(pl.UInt32),
-            str_to_expr(pred),
+            str_to_expr(pred).cast(pl.Float64),
             pl.lit(threshold, dtype=pl.Float64),
         ],
         returns_scalar=True,
-- 
2.43.0


From 63f25886e92c437cd0d23ff67059caffd15843ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 026/158] fix: psi counts values above the last baseline bin,
 psi_discrete matches nulls and declares its report's fields

---
 src/num_ext/psi.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..83b61dc 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -11,6 +11,17 @@ fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("psi_report".into(), DataType::Struct(v)))
 }
 
+fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    let v: Vec<Field> = vec![
+        Field::new("baseline_category".into(), fields[2].dtype().clone()),
+        Field::new("actual_category".into(), fields[0].dtype().clone()),
+        Field::new("baseline_pct".into(), DataType::Float64),
+        Field::new("actual_pct".into(), DataType::Float64),
+        Field::new("psi_bin".into(), DataType::Float64),
+    ];
+    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+}
+
 /// Computes counts in each bucket given by the breakpoints in
 /// a PSI computation. This returns the count for the first series
 /// and the count for the second series.
@@ -105,20 +116,26 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
-    let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
-    let binding = cnt.rechunk();
-    let ref_cnt = binding.cont_slice().unwrap();
+    let mut ref_brk: Vec<f64> = brk.into_no_null_iter().collect();
+    let mut ref_cnt: Vec<u32> = cnt.into_no_null_iter().collect();
+    // When no baseline value lies beyond the last quantile, the last bin has to be added
+    if ref_brk.last() != Some(&f64::INFINITY) {
+        ref_brk.push(f64::INFINITY);
+        ref_cnt.push(0);
+    }
 
-    let new_cnt = psi_with_bps_helper(data_new, ref_brk);
-    let psi_report = psi_frame(ref_brk, "<=", ref_cnt, &new_cnt)?.collect()?;
+    let new_cnt = psi_with_bps_helper(data_new, &ref_brk);
+    let psi_report = psi_frame(&ref_brk, "<=", &ref_cnt, &new_cnt)?.collect()?;
 
     Ok(psi_report.into_struct("".into()).into_series())
 }
 
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
+    // Null is a category by itself, so nulls have to match each other
+    let mut join_args = JoinArgs::new(JoinType::Full);
+    join_args.join_nulls = true;
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
         "actual_cnt" => &inputs[1], // data cnt
@@ -134,7 +151,7 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            join_args,
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From 9cf3a12b3291e10951160e0a0b88fba39368ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 027/158] fix: psi_w_breakpoints does not panic on non-float64
 data, psi accepts an iterable baseline

---
 python/polars_ds/exprs/num.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 93ec1a8..f84d224 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -468,8 +468,8 @@ def psi(
         base = str_to_expr(baseline)
         valid_ref = base.filter(base.is_finite()).cast(pl.Float64)
     else:
-        temp = pl.lit(pl.Series(values=baseline, dtype=pl.Float64))
-        valid_ref = temp.filter(temp.is_finite())
+        temp = pl.Series(values=baseline, dtype=pl.Float64)
+        valid_ref = pl.lit(temp.filter(temp.is_finite()))
 
     vc = (
         valid_ref.qcut(n_bins, left_closed=False, allow_duplicates=True, include_breaks=True)
@@ -601,7 +601,11 @@ def psi_w_breakpoints(
     bp = breakpoints + [float("inf")]
     return pl_plugin(
         symbol="pl_psi_w_bps",
-        args=[x.rechunk(), y.rechunk(), pl.Series(values=bp)],
+        args=[
+            x.cast(pl.Float64).rechunk(),
+            y.cast(pl.Float64).rechunk(),
+            pl.Series(values=bp, dtype=pl.Float64),
+        ],
         changes_length=True,
     ).alias("psi_report")
 
-- 
2.43.0


From ffb2c2ac63a4486eea5871d313f6322cdbbebdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 028/158] fix: woe and info_value drop the target rows of
 non-finite x along with them

---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index f84d224..d2cb608 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -634,9 +634,11 @@ def woe(x: str | pl.Expr, target: str | pl.expr | Iterable[float], n_bins: int =
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
-    valid = xx.filter(xx.is_finite())
+    finite = xx.is_finite()
+    valid = xx.filter(finite)
+    t = t.filter(finite)
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     return pl_plugin(symbol="pl_woe_discrete", args=[brk, t], changes_length=True)
 
@@ -704,9 +706,11 @@ def info_value(
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
-    valid = xx.filter(xx.is_finite())
+    finite = xx.is_finite()
+    valid = xx.filter(finite)
+    t = t.filter(finite)
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     out = pl_plugin(symbol="pl_iv", args=[brk, t], changes_length=True)
     return out.struct.field("iv").sum() if return_sum else out
-- 
2.43.0


From 9061b70bfc53761a3c58b8dab187d296647410a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 029/158] fix: query_similar_count with a query longer than the
 data errs for sqzl2 as it does for sql2

---
 src/num_ext/subseq_sim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index e50eb2a..8c392e1 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -76,6 +76,12 @@ fn pl_subseq_sim_cnt_zl2(
     let query = inputs[1].f64()?; // is already z normalized
     let query = query.cont_slice().unwrap();
 
+    if query.len() > seq.len() {
+        return Err(PolarsError::ComputeError(
+            "Not enough data points for the query.".into(),
+        ));
+    }
+
     let rolling_mean = inputs[2].f64()?;
     let rolling_mean = rolling_mean.cont_slice()?;
     let rolling_var = inputs[3].f64()?;
-- 
2.43.0


From ece5d37f1793ca6ec4cf61df2d07d1cf5cef004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 030/158] fix: mann_whitney_u and lin_reg_w_rcond return one
 value per group and broadcast

---
 python/polars_ds/exprs/expr_linear.py | 1 +
 python/polars_ds/exprs/stats.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..552764e 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -320,6 +320,7 @@ def lin_reg_w_rcond(
         symbol=_lin_reg_expr_symbol("pl_lstsq_w_rcond"),
         args=cols,
         kwargs=lr_kwargs,
+        returns_scalar=True,
         pass_name_to_apply=True,
     )
 
diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index ede03cc..1a2feda 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -334,6 +334,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 1460ee3ccd8c9ca141ecfe2df15b80db79e10bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 031/158] fix: the noise perturb and jitter draw from a seed
 does not depend on filters and slices applied afterwards

---
 python/polars_ds/exprs/stats.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 1a2feda..bc56d61 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -402,7 +402,6 @@ def perturb(
     return pl_plugin(
         symbol="pl_perturb",
         args=[str_to_expr(x), lo, hi, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -432,7 +431,6 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     return pl_plugin(
         symbol="pl_jitter",
         args=[str_to_expr(x), s, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
-- 
2.43.0


From e27ca63d6efda16f83c6ff536a4eacc1ff2e1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 032/158] fix: integrate_trapz works on data in several chunks,
 a single point has no area

---
 src/num_ext/trapz.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..f18ac3c 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -7,7 +7,7 @@ use pyo3_polars::derive::polars_expr;
 pub fn trapz(y: &[f64], x: &[f64]) -> f64 {
     // x.len() == y.len() checked
     if x.len() == 1 && y.len() == 1 {
-        y[0] * x[0] * -0.5 // y[0] * (-x[0]) * 0.5
+        0. // there is no area over a single point
     } else {
         let mut y_d = vec![0.; y.len() - 1];
         cfavml::add_vector(&y[1..], &y[..y.len() - 1], &mut y_d);
@@ -32,12 +32,14 @@ fn pl_trapz(inputs: &[Series]) -> PolarsResult<Series> {
         return Ok(ca.into_series());
     }
 
+    let y = y.rechunk();
     let y = y.cont_slice()?;
     if x.len() == 1 && y.len() > 1 {
         let dx = x.get(0).unwrap();
         let ca = Float64Chunked::from_slice("".into(), &[trapz_dx(y, dx)]);
         Ok(ca.into_series())
     } else if x.len() == y.len() {
+        let x = x.rechunk();
         let x = x.cont_slice()?;
         let ca = Float64Chunked::from_slice("".into(), &[trapz(y, x)]);
         Ok(ca.into_series())
-- 
2.43.0


From f61af320b4050df525c45abfab7dde7d2adb2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 033/158] fix: str_fuzz against one string is the same ratio as
 against a column

---
 src/str_ext/fuzz.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 965e2e6..b9a0a78 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -21,21 +21,22 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
         let r = ca2.get(0).unwrap();
-        let batched = RatioBatchComparator::new(r.chars());
+        // The ratio is the normalized indel similarity. (RatioBatchComparator normalizes the LCS instead)
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.normalized_similarity(s.chars()))
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From a7b015138c1e3b282e37570a22a276f0d1a94aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 034/158] fix: random columns are not declared elementwise,
 their arguments are scalars

---
 python/polars_ds/exprs/stats.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index bc56d61..f311648 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -512,7 +512,6 @@ def random(
     return pl_plugin(
         symbol="pl_random",
         args=[len_, lo, up, pl.lit(seed, pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -572,7 +571,6 @@ def random_int(
             hi,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -609,7 +607,6 @@ def random_str(
             pl.lit(ma, pl.UInt32),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -641,7 +638,6 @@ def random_binomial(
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -667,7 +663,6 @@ def random_exp(
             pl.lit(lambda_, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -699,7 +694,6 @@ def random_normal(
             pl.lit(std, pl.Float64) if isinstance(std, float) else std,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
-- 
2.43.0


From 2e063a2ef03a7bc182bb27efc3bede186cc79ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 035/158] fix: the area under a one-point ROC curve is kept
 apart from integrate_trapz over one point

---
 src/num_ext/trapz.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index f18ac3c..b1d3564 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -7,7 +7,7 @@ use pyo3_polars::derive::polars_expr;
 pub fn trapz(y: &[f64], x: &[f64]) -> f64 {
     // x.len() == y.len() checked
     if x.len() == 1 && y.len() == 1 {
-        0. // there is no area over a single point
+        y[0] * x[0] * -0.5 // y[0] * (-x[0]) * 0.5
     } else {
         let mut y_d = vec![0.; y.len() - 1];
         cfavml::add_vector(&y[1..], &y[..y.len() - 1], &mut y_d);
@@ -27,6 +27,11 @@ pub fn trapz_dx(y: &[f64], dx: f64) -> f64 {
 fn pl_trapz(inputs: &[Series]) -> PolarsResult<Series> {
     let y = inputs[0].f64()?;
     let x = inputs[1].f64()?;
+    if y.len() == 1 && x.len() == 1 && !x.has_nulls() && !y.has_nulls() {
+        // There is no area over a single point
+        let ca = Float64Chunked::from_slice("".into(), &[0.]);
+        return Ok(ca.into_series());
+    }
     if y.len() < 1 || x.has_nulls() || y.has_nulls() {
         let ca = Float64Chunked::from_slice("".into(), &[f64::NAN]);
         return Ok(ca.into_series());
-- 
2.43.0


From 0376114911a47ea091b44845824dc9408438f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 036/158] fix: a feature named literal is not overwritten by
 the bias column of a linear regression

---
 src/num_ext/linear_regression.rs     | 7 +++++--
 src/num_ext/linear_regression_f32.rs | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 1bb80a6..34d307b 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -19,6 +19,9 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use serde::Deserialize;
 
+// Name of the constant column, must not be the name of a column given by the user
+pub(crate) const BIAS_NAME: &str = "__polars_ds_lr_bias__";
+
 #[derive(Deserialize, Debug)]
 pub(crate) struct LstsqKwargs {
     pub(crate) bias: bool,
@@ -170,7 +173,7 @@ fn series_to_mat_for_lstsq(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        df = df.lazy().with_column(lit(1f64).alias(BIAS_NAME)).collect()?;
     }
 
     // In mask, true means not null.
@@ -293,7 +296,7 @@ fn series_to_mat_for_multi_lstsq(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        df = df.lazy().with_column(lit(1f64).alias(BIAS_NAME)).collect()?;
     }
 
     if df.is_empty() {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index ebe2817..52bb72b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -1,4 +1,6 @@
-use super::linear_regression::{LstsqKwargs, MultiLstsqKwargs, SWWLstsqKwargs, StandardError};
+use super::linear_regression::{
+    LstsqKwargs, MultiLstsqKwargs, SWWLstsqKwargs, StandardError, BIAS_NAME,
+};
 /// A copy of linear_regression, but with f32.
 /// Unfortunately, it is not so easily to write generic functions. If I do so,
 /// there would be too many functions that have purpose that is not obvious by first sight.
@@ -112,7 +114,7 @@ fn series_to_mat_for_lstsq_f32(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        df = df.lazy().with_column(lit(1f32).alias(BIAS_NAME)).collect()?;
     }
 
     // In mask, true means not null.
@@ -235,7 +237,7 @@ fn series_to_mat_for_multi_lstsq_f32(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        df = df.lazy().with_column(lit(1f32).alias(BIAS_NAME)).collect()?;
     }
 
     if df.is_empty() {
-- 
2.43.0


From de37174aaecca65b2f0fc2829dbf0990ec2c67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 037/158] fix: predictions keep the length of the data when
 nulls are ignored in a linear regression

---
 src/num_ext/linear_regression.rs     | 4 +++-
 src/num_ext/linear_regression_f32.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 34d307b..1bb2050 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -181,8 +181,10 @@ fn series_to_mat_for_lstsq(
     let init_mask = inputs[0].is_not_null();
     let (df, mask) = if has_null {
         match null_policy {
+            // No row is dropped
+            NullPolicy::IGNORE => Ok((df, BooleanChunked::from_slice("".into(), &[true]))),
             // Like ignore, skip_window takes the raw data. The actual skip is done in the underlying function in linalg.
-            NullPolicy::IGNORE | NullPolicy::SKIP_WINDOW => {
+            NullPolicy::SKIP_WINDOW => {
                 // false, because it has nulls
                 Ok((df, BooleanChunked::from_slice("".into(), &[false])))
             }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 52bb72b..ee5b084 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -122,8 +122,10 @@ fn series_to_mat_for_lstsq_f32(
     let init_mask = inputs[0].is_not_null();
     let (df, mask) = if has_null {
         match null_policy {
+            // No row is dropped
+            NullPolicy::IGNORE => Ok((df, BooleanChunked::from_slice("".into(), &[true]))),
             // Like ignore, skip_window takes the raw data. The actual skip is done in the underlying function in linalg.
-            NullPolicy::IGNORE | NullPolicy::SKIP_WINDOW => {
+            NullPolicy::SKIP_WINDOW => {
                 // false, because it has nulls
                 Ok((df, BooleanChunked::from_slice("".into(), &[false])))
             }
-- 
2.43.0


From 1150ee8f9fcb92fe279a1432792b99285adf541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 038/158] fix: lin_reg_w_rcond cuts off singular values of x,
 not eigenvalues of its Gram matrix

---
 src/linalg/lr_solvers.rs             | 45 +++++++++++++++-------------
 src/num_ext/linear_regression.rs     |  2 +-
 src/num_ext/linear_regression_f32.rs |  2 +-
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..c10344b 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -192,36 +192,41 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     has_bias: bool,
     rcond: T,
 ) -> (Mat<T>, Vec<T>) {
-    let n1 = x.ncols().abs_diff(has_bias as usize);
-    let xt = x.transpose();
-    let mut xtx = xt * x;
-    // xtx + diagonal of lambda. If has bias, last diagonal element is 0.
-    // Safe. Index is valid and value is initialized.
-    if lambda >= T::zero() && n1 >= 1 {
-        unsafe {
-            for i in 0..n1 {
-                *xtx.get_mut_unchecked(i, i) = *xtx.get_mut_unchecked(i, i) + lambda;
-            }
+    // Ridge is the lstsq of x with rows sqrt(lambda) * e_i appended. If has bias, no row is appended for the last column.
+    // The decomposition is that of x itself: for small singular values, those of xtx are mere rounding errors.
+    let (nrows, ncols) = x.shape();
+    let n1 = if lambda > T::zero() {
+        ncols.abs_diff(has_bias as usize)
+    } else {
+        0
+    };
+    let sqrt_lambda = Float::sqrt(lambda.max(T::zero()));
+    let x_aug = Mat::from_fn(nrows + n1, ncols, |i, j| {
+        if i < nrows {
+            x[(i, j)]
+        } else if i - nrows == j {
+            sqrt_lambda
+        } else {
+            T::zero()
         }
-    }
-    // need work here
-    let svd = xtx.thin_svd().unwrap();
-    let s = svd.S().column_vector();
-    let singular_values = s.iter().copied().map(T::sqrt).collect::<Vec<_>>();
+    });
+    let svd = x_aug.thin_svd().unwrap();
+    let singular_values = svd.S().column_vector().iter().copied().collect::<Vec<_>>();
 
     let n = singular_values.len();
 
     let max_singular_value = singular_values.iter().copied().fold(T::min_value(), T::max);
     let threshold = rcond * max_singular_value;
-    // Safe, because i <= n
     let mut s_inv = Mat::<T>::zeros(n, n);
-    unsafe {
-        for (i, v) in s.iter().copied().enumerate() {
-            *s_inv.get_mut_unchecked(i, i) = if v >= threshold { v.recip() } else { T::zero() };
+    for (i, v) in singular_values.iter().copied().enumerate() {
+        if v >= threshold && v > T::zero() {
+            s_inv[(i, i)] = v.recip();
         }
     }
 
-    let weights = svd.V() * s_inv * svd.U().transpose() * xt * y;
+    // The targets of the appended rows are 0
+    let ut = svd.U().get(..nrows, ..).transpose();
+    let weights = svd.V() * s_inv * (ut * y);
     (weights, singular_values)
 }
 
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 1bb2050..90d96fa 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -470,7 +470,7 @@ fn pl_lstsq_w_rcond(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Seri
             // rcond will be passed as tol
             let rcond = kwargs
                 .tol
-                .max(f64::EPSILON * (inputs.len().max(mat.len())) as f64);
+                .max(f64::EPSILON * (mat.nrows().max(mat.ncols() - 1)) as f64);
 
             // Solving Least Square
             let x = mat.slice(s![.., 1..]).into_faer();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index ee5b084..698419e 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -418,7 +418,7 @@ fn pl_lstsq_w_rcond_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<
         Ok((mat, _)) => {
             // rcond will be passed as tol
             let rcond =
-                (kwargs.tol as f32).max(f32::EPSILON * (inputs.len().max(mat.len())) as f32);
+                (kwargs.tol as f32).max(f32::EPSILON * (mat.nrows().max(mat.ncols() - 1)) as f32);
 
             // Solving Least Square
             let x = mat.slice(s![.., 1..]).into_faer();
-- 
2.43.0


From 86e3c3956891c5afdb53a6d44de87c159e5b48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 039/158] fix: recursive_lin_reg predicts each row, not the one
 start_with rows before, when rows with nulls are skipped

---
 src/num_ext/linear_regression.rs     | 3 ++-
 src/num_ext/linear_regression_f32.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 90d96fa..dc847eb 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -935,7 +935,8 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // The first coefficients are fit with the first n rows without nulls
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 698419e..fe0c5b5 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -882,7 +882,8 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // The first coefficients are fit with the first n rows without nulls
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
-- 
2.43.0


From d0b866a253e6dc6c08d91f1ea6706f46320b5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 040/158] fix: rolling_lin_reg survives windows with as many
 rows as features and windows with too few valid rows

---
 src/linalg/lr_online_solvers.rs | 92 +++++++++++----------------------
 1 file changed, 30 insertions(+), 62 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..1ddbc68 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -207,13 +207,14 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
+        // Add before removing: without the new row the rest of the window may be rank deficient
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         online_lr.update(next_x, next_y, T::one());
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        online_lr.update(remove_x, remove_y, T::one().neg());
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
@@ -238,71 +239,38 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     // Vector of matrix of size m x 1
     let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
 
-    // Initialize the problem.
-    let mut non_null_cnt_in_window = 0;
-    let mut left = 0;
-    let mut right = n;
-    let mut x_slice: Vec<T> = Vec::with_capacity(n * ncols);
-    let mut y_slice: Vec<T> = Vec::with_capacity(n);
-
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    while right <= xn {
-        // Somewhat redundant here.
-        non_null_cnt_in_window = 0;
-        x_slice.clear();
-        y_slice.clear();
-        for i in left..right {
-            let x_i = x.get(i, ..);
-            let y_i = y.get(i, ..);
-
-            if !(x_i.iter().any(|x| is_nan(x)) || y_i.iter().any(|y| is_nan(y))) {
-                non_null_cnt_in_window += 1;
-                x_slice.extend(x_i.iter());
-                y_slice.extend(y_i.iter());
-            }
-        }
-        if non_null_cnt_in_window >= m {
-            let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
-            // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
-            coefficients.push(online_lr.fitted_values().to_owned());
-            break;
-        } else {
-            left += 1;
-            right += 1;
+    let is_valid = |i: usize| !(has_nan(x.get(i..i + 1, ..)) || has_nan(y.get(i..i + 1, ..)));
+    // Whether online_lr is the regression on the previous window. It is not before the first window with
+    // enough rows, and it can no longer be updated after a window with less rows than columns.
+    let mut initialized = false;
+    for right in n..=xn {
+        let left = right - n;
+        let valid_rows = (left..right).filter(|&i| is_valid(i)).collect::<Vec<_>>();
+        if valid_rows.len() < m {
+            initialized = false;
             coefficients.push(Mat::with_capacity(0, 0));
+            continue;
         }
-    }
-
-    if right >= xn {
-        return coefficients;
-    }
-    // right < xn, the problem must have been initialized (inv and weights are defined.)
-    for j in right..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
-        }
-
-        let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
-        let next_y = y.get(j..j + 1, ..); // 1 by 1
-        if !(has_nan(next_x) | has_nan(next_y)) {
-            non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
-        }
-
-        if non_null_cnt_in_window >= m {
-            coefficients.push(online_lr.fitted_values().to_owned());
+        if initialized {
+            // Add before removing: without the new row the rest of the window may be rank deficient
+            if is_valid(right - 1) {
+                let (new_x, new_y) = (x.get(right - 1..right, ..), y.get(right - 1..right, ..));
+                online_lr.update_unchecked(new_x, new_y, T::one());
+            }
+            if is_valid(left - 1) {
+                let (old_x, old_y) = (x.get(left - 1..left, ..), y.get(left - 1..left, ..));
+                online_lr.update_unchecked(old_x, old_y, T::one().neg());
+            }
         } else {
-            coefficients.push(Mat::with_capacity(0, 0));
+            let x0 = Mat::from_fn(valid_rows.len(), ncols, |i, j| x[(valid_rows[i], j)]);
+            let y0 = Mat::from_fn(valid_rows.len(), 1, |i, _| y[(valid_rows[i], 0)]);
+            online_lr.fit_unchecked(x0.as_ref(), y0.as_ref());
         }
+        initialized = valid_rows.len() >= ncols;
+        coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
 }
-- 
2.43.0


From 24ed5f10b59cbb75593e0631bf8b2a52e2157eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 041/158] fix: recursive_lin_reg and rolling_lin_reg do not
 penalise the bias, like lin_reg

---
 src/linalg/lr_online_solvers.rs      | 10 +++++++---
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 1ddbc68..77f2db7 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -158,6 +158,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -171,7 +172,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    (online_lr.inv, online_lr.coefficients) = faer_qr_lstsq_with_inv(x0, y0, lambda, has_bias); // safe because things are checked in plugin / python functions.
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -190,6 +191,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -203,7 +205,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    (online_lr.inv, online_lr.coefficients) = faer_qr_lstsq_with_inv(x0, y0, lambda, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -230,6 +232,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -267,7 +270,8 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
         } else {
             let x0 = Mat::from_fn(valid_rows.len(), ncols, |i, j| x[(valid_rows[i], j)]);
             let y0 = Mat::from_fn(valid_rows.len(), 1, |i, _| y[(valid_rows[i], 0)]);
-            online_lr.fit_unchecked(x0.as_ref(), y0.as_ref());
+            (online_lr.inv, online_lr.coefficients) =
+                faer_qr_lstsq_with_inv(x0.as_ref(), y0.as_ref(), lambda, has_bias);
         }
         initialized = valid_rows.len() >= ncols;
         coefficients.push(online_lr.fitted_values().to_owned());
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index dc847eb..217eaa3 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -901,7 +901,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -1001,9 +1001,9 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index fe0c5b5..ac5c60b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -848,7 +848,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -948,9 +948,9 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From 37c1f3e7abe3cb3cc15e8f78d893a79a91439401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 042/158] fix: recursive_lin_reg and rolling_lin_reg give nulls
 for data shorter than the window

---
 src/linalg/lr_online_solvers.rs      | 13 +++++++++++--
 src/num_ext/linear_regression.rs     |  4 ++--
 src/num_ext/linear_regression_f32.rs |  4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 77f2db7..50c1e18 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -163,6 +163,9 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     let xn = x.nrows();
     // x: size xn x m
     // y: size xn x 1
+    if xn < n {
+        return vec![]; // not a single full window
+    }
     // Vector of matrix of size m x 1
     let mut coefficients = Vec::with_capacity(xn - n + 1);
     // n >= 2, guaranteed by Python
@@ -196,8 +199,11 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     let xn = x.nrows();
     // x: size xn x m
     // y: size xn x 1
+    if xn < n {
+        return vec![]; // not a single full window
+    }
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     let x0 = x.get(..n, ..);
     let y0 = y.get(..n, ..);
@@ -239,8 +245,11 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     // x: size xn x m
     // y: size xn x 1
     // n is window size. m is min_window_size after skipping null rows. n >= m > 0.
+    if xn < n {
+        return vec![]; // not a single full window
+    }
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 217eaa3..46a3937 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -949,7 +949,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = n.abs_diff(1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -1016,7 +1016,7 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let mut pred_builder: PrimitiveChunkedBuilder<Float64Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index ac5c60b..f97db7f 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -896,7 +896,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = n.abs_diff(1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -963,7 +963,7 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let mut pred_builder: PrimitiveChunkedBuilder<Float32Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
-- 
2.43.0


From 443471c57584f60a4e8198713105ecd582ef8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 043/158] fix: r2 and adj_r2 of lin_reg_report are those of the
 rows used

---
 python/polars_ds/exprs/expr_linear.py |  4 +--
 src/num_ext/linear_regression.rs      | 42 +++++++++++++--------------
 src/num_ext/linear_regression_f32.rs  | 42 +++++++++++++--------------
 3 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index 552764e..358bc2e 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -586,13 +586,13 @@ def lin_reg_report(
 
     t = lr_formula(target)
     if weights is None:
-        cols = [t.var(), t]
+        cols = [t]
         cols.extend(lr_formula(z) for z in x)
         symbol = _lin_reg_expr_symbol("pl_lin_reg_report")
 
     else:
         w = lr_formula(weights)
-        cols = [w.cast(pl.Float64).rechunk(), t.var(), t]
+        cols = [w.cast(pl.Float64).rechunk(), t]
         cols.extend(lr_formula(z) for z in x)
         symbol = _lin_reg_expr_symbol("pl_wls_report")
 
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 46a3937..f4f15a7 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -600,15 +600,12 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float64)?;
-    let y_var = binding.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
+    // index 0 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(2) + (has_bias) as usize,
+        inputs.len().abs_diff(1) + (has_bias) as usize,
     );
-    for s in inputs[2..].iter().map(|s| s.name()) {
+    for s in inputs[1..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
@@ -616,7 +613,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
     // Copy data
     // Target y is at index 0
-    match series_to_mat_for_lstsq(&inputs[1..], has_bias, null_policy) {
+    match series_to_mat_for_lstsq(inputs, has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -636,10 +633,13 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            let y_mean = y.sum() / nrows as f64;
+            let total = y.col(0).iter().fold(0., |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // The bias is not one of the explanatory variables
+            let adj_dof = dof - (!has_bias) as usize as f64;
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -761,23 +761,20 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float64)?;
-    let y_var = binding2.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(3) + (has_bias) as usize,
+        inputs.len().abs_diff(2) + (has_bias) as usize,
     );
-    for s in inputs[3..].iter().map(|s| s.name()) {
+    for s in inputs[2..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
         name_builder.append_value("__bias__");
     }
     // Copy data
-    // Target y is at index 2, weights at index 0
-    match series_to_mat_for_lstsq(&inputs[2..], has_bias, null_policy) {
+    // Target y is at index 1, weights at index 0
+    match series_to_mat_for_lstsq(&inputs[1..], has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -805,10 +802,13 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            let y_mean = y.sum() / nrows as f64;
+            let total = y.col(0).iter().fold(0., |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // The bias is not one of the explanatory variables
+            let adj_dof = dof - (!has_bias) as usize as f64;
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index f97db7f..1d87c2d 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -548,15 +548,12 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float32)?;
-    let y_var = binding.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
+    // index 0 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(2) + (has_bias) as usize,
+        inputs.len().abs_diff(1) + (has_bias) as usize,
     );
-    for s in inputs[2..].iter().map(|s| s.name()) {
+    for s in inputs[1..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
@@ -564,7 +561,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
     // Copy data
     // Target y is at index 0
-    match series_to_mat_for_lstsq_f32(&inputs[1..], has_bias, null_policy) {
+    match series_to_mat_for_lstsq_f32(inputs, has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -584,10 +581,13 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            let y_mean = y.sum() / nrows as f32;
+            let total = y.col(0).iter().fold(0., |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // The bias is not one of the explanatory variables
+            let adj_dof = dof - (!has_bias) as usize as f32;
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -708,23 +708,20 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float32)?;
-    let y_var = binding2.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-        inputs.len().abs_diff(3) + (has_bias) as usize,
+        inputs.len().abs_diff(2) + (has_bias) as usize,
     );
-    for s in inputs[3..].iter().map(|s| s.name()) {
+    for s in inputs[2..].iter().map(|s| s.name()) {
         name_builder.append_value(s);
     }
     if has_bias {
         name_builder.append_value("__bias__");
     }
     // Copy data
-    // Target y is at index 2, weights at index 0
-    match series_to_mat_for_lstsq_f32(&inputs[2..], has_bias, null_policy) {
+    // Target y is at index 1, weights at index 0
+    match series_to_mat_for_lstsq_f32(&inputs[1..], has_bias, null_policy) {
         Ok((mat, _)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
@@ -752,10 +749,13 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            let y_mean = y.sum() / nrows as f32;
+            let total = y.col(0).iter().fold(0., |acc, v| acc + (v - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / total;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // The bias is not one of the explanatory variables
+            let adj_dof = dof - (!has_bias) as usize as f32;
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From 1f96cd236186cd480f86cd6e8357e01af715b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 044/158] fix: lin_reg_report declares the name of the robust
 standard error it returns

---
 src/num_ext/linear_regression.rs     | 17 +++++++++++++----
 src/num_ext/linear_regression_f32.rs | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index f4f15a7..e0cf43f 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -55,10 +55,19 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err).into())
+}
+
+// The standard error is never one of the hc kinds when there are weights
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields(StandardError::SE.into())
+}
+
+fn report_fields(std_err_name: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(std_err_name, DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -594,7 +603,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -752,7 +761,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 1d87c2d..aaa2655 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -29,10 +29,19 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err).into())
+}
+
+// The standard error is never one of the hc kinds when there are weights
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields(StandardError::SE.into())
+}
+
+fn report_fields(std_err_name: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(std_err_name, DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -542,7 +551,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -699,7 +708,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
-- 
2.43.0


From 683392e2dd189b506a8ad6cc8d3290a7dca98994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 045/158] fix: LR.bias() and OnlineLR.bias() return the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From bb7cfd7eb752ed32391e6249ef997efde93c3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 046/158] fix: linear models with a bias can be asked whether
 they are fit

---
 src/linalg/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..9de2561 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,7 +107,7 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             *self.fitted_values().get(n, 0)
         } else {
@@ -142,7 +142,7 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn is_fit(&self) -> bool {
-        !(self.coefficients().shape() == (0, 0))
+        !(self.fitted_values().shape() == (0, 0))
     }
 
     fn coeffs_as_vec(&self) -> Result<Vec<T>, LinalgErrors> {
@@ -166,10 +166,10 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn predict(&self, X: MatRef<T>) -> Result<Mat<T>, LinalgErrors> {
-        if X.ncols() != self.coefficients().nrows() {
-            Err(LinalgErrors::DimensionMismatch)
-        } else if !self.is_fit() {
+        if !self.is_fit() {
             Err(LinalgErrors::MatNotLearnedYet)
+        } else if X.ncols() != self.coefficients().nrows() {
+            Err(LinalgErrors::DimensionMismatch)
         } else {
             let mut result = X * self.coefficients();
             let bias = self.bias();
-- 
2.43.0


From f4a81eecc8348e6bb15a7319a24d5f7561918141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 047/158] fix: an OnlineLR with a bias can be restored from its
 coefficients, bias and inverse

---
 src/linalg/lr_online_solvers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 50c1e18..eea751b 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,14 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        // If there is a bias, inv has one more row and column for it
+        let has_bias = inv.ncols() == coeffs.len() + 1;
+        if inv.nrows() != inv.ncols()
+            || (!has_bias && (inv.ncols() != coeffs.len() || bias.abs() > T::epsilon()))
+        {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From 3dac9652a0b2ea2e5b8175ae81ba16762f73c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 048/158] fix: c in OnlineLR.update is the weight of the
 record, not its inverse

---
 src/linalg/lr_online_solvers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index eea751b..5969207 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -301,14 +301,14 @@ pub fn woodbury_step<T: RealField + Float>(
     weights: MatMut<T>,
     new_x: MatRef<T>,
     new_y: MatRef<T>,
-    c: T, // +1 or -1, for a "update" and a "removal"
+    c: T, // weight of the record. +1 or -1, for a "update" and a "removal"
 ) {
     // It is truly amazing that the C in the Woodbury identity essentially controls the update and
     // and removal of a new record (rolling)... Linear regression seems to be designed by God to work so well
 
     let u = &inverse * new_x.transpose(); // corresponding to u in the reference
                                           // right = left.transpose() by the fact that if A is symmetric, invertible, A-1 is also symmetric
-    let z = (c + *(new_x * &u).get(0, 0)).recip();
+    let z = (c.recip() + *(new_x * &u).get(0, 0)).recip();
     // Update the information matrix's inverse. Page 56 of the gatech reference
     faer::linalg::matmul::matmul(
         inverse,
-- 
2.43.0


From 2fb0ea16e7a1c0713f15b129aa6e2846f6e0cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 049/158] fix: OnlineLR.fit takes a one-dimensional target

---
 python/polars_ds/linear_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..f19a70d 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -598,7 +598,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(X, y.reshape((-1, 1)))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
-- 
2.43.0


From 06a2f1e4b83bba5e8f9c96712722bf229ab23dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 050/158] fix: linear models can be fit on dataframes with
 integer or float32 columns

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index f19a70d..fb6f8bc 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -255,7 +255,7 @@ class LR:
 
         df2 = (
             _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
+            .select(pl.col(*features, target).cast(pl.Float64))
             .collect()
         )
         X = df2.select(features).to_numpy()
@@ -458,7 +458,7 @@ class ElasticNet:
         """
         df2 = (
             _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
+            .select(pl.col(*features, target).cast(pl.Float64))
             .collect()
         )
         X = df2.select(features).to_numpy()
-- 
2.43.0


From 1138e226c297a202f5a21f4e004100deffbed088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 051/158] fix: lasso and elastic net do not stop before the
 bias has converged

---
 src/linalg/lr_solvers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index c10344b..91810af 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -362,7 +362,10 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            let before = *unsafe { beta.get_unchecked(n1, 0) };
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
+            // The other coefficients depend on the bias too
+            max_change = (ss - before).abs().max(max_change);
         }
         converge = max_change < tol;
         if converge {
-- 
2.43.0


From 7a20ebebdb15f838f302b36c0c808e9800d8a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 052/158] fix: a column of zeros gets coefficient 0 in a lasso
 regression

---
 src/linalg/lr_solvers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 91810af..e3c27cf 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -352,7 +352,11 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let main_update = *xty.get(j, 0) - *(xtx_j * &beta).get(0, 0);
 
             // update beta(j, 0).
-            let after = soft_threshold_l1(main_update, lambda_l1) / norms[j];
+            let after = if norms[j] == T::zero() {
+                T::zero() // a column of 0s
+            } else {
+                soft_threshold_l1(main_update, lambda_l1) / norms[j]
+            };
             *unsafe { beta.get_mut_unchecked(j, 0) } = after;
             max_change = (after - before).abs().max(max_change);
         }
-- 
2.43.0


From 078840e727ce6b87f9e30221ac3122fa747a5c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 053/158] fix: confusion matrix and mcc leave out rows with
 nulls

---
 src/num_ext/tp_fp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 5d558c5..de4254b 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -200,7 +200,8 @@ fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
     // At Python side, actual and pred columns were turned into boolean first. So
     // no invalid indices will happen.
     let mut output = [0u32; 4];
-    for i in combined_series.into_no_null_iter() {
+    // Rows in which one of the two is null are not counted
+    for i in combined_series.into_iter().flatten() {
         let j = i % 4; // to make this safe
         output[j as usize] += 1;
     }
-- 
2.43.0


From 8efc0dbd485263b0f11333e3cf0fb2a02d6c923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 054/158] fix: rows with a null prediction are not counted when
 a loss is normalised

---
 python/polars_ds/exprs/metrics.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 0bb5df0..7e17d56 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -106,7 +106,7 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     """
     a, p = str_to_expr(actual), str_to_expr(pred)
     if normalize:
-        return (p - a).cosh().log().sum() / a.count()
+        return (p - a).cosh().log().mean()
     return (p - a).cosh().log().sum()
 
 
@@ -125,7 +125,7 @@ def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -
     temp = (a - p).abs()
     return (
         pl.when(temp <= delta).then(0.5 * temp.pow(2)).otherwise(delta * (temp - 0.5 * delta)).sum()
-        / a.count()
+        / temp.count()
     )
 
 
@@ -146,7 +146,7 @@ def query_l2(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     p = str_to_expr(pred)
     diff = a - p
     if normalize:
-        return diff.dot(diff) / a.count()
+        return diff.dot(diff) / diff.count()
     return diff.dot(diff)
 
 
@@ -166,7 +166,7 @@ def query_l1(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     a = str_to_expr(actual)
     p = str_to_expr(pred)
     if normalize:
-        return (a - p).abs().sum() / a.count()
+        return (a - p).abs().mean()
     return (a - p).abs().sum()
 
 
@@ -260,7 +260,7 @@ def query_smape(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     p = str_to_expr(pred)
     numerator = (a - p).abs()
     denominator = a.abs() + p.abs()
-    return (numerator / denominator).sum() / a.count()
+    return (numerator / denominator).mean()
 
 
 def query_mase(
@@ -338,7 +338,7 @@ def query_msle(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = Tru
     diff = a.log1p() - p.log1p()
     out = diff.dot(diff)
     if normalize:
-        return out / a.count()
+        return out / diff.count()
     return out
 
 
@@ -583,7 +583,7 @@ def query_cat_cross_entropy(
     else:
         y_prob = p.list.get(a.list.arg_max())
     if normalize:
-        return -y_prob.log().sum() / a.count()
+        return -y_prob.log().mean()
     return -y_prob.log().sum()
 
 
-- 
2.43.0


From c17512dc4cce4120ba2c2bb70c49e02543fe6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 055/158] fix: comparing strings with a null scalar gives nulls
 instead of a panic

---
 src/str_ext/fuzz.rs          |  5 ++++-
 src/str_ext/hamming.rs       | 13 ++++++++++---
 src/str_ext/jaro.rs          |  9 +++++++--
 src/str_ext/lcs_seq.rs       |  9 +++++++--
 src/str_ext/levenshtein.rs   | 21 ++++++++++++++++-----
 src/str_ext/mod.rs           |  6 ++++++
 src/str_ext/osa.rs           |  9 +++++++--
 src/str_ext/overlap.rs       |  6 ++++--
 src/str_ext/sorensen_dice.rs |  6 ++++--
 src/str_ext/str_jaccard.rs   |  6 ++++--
 src/str_ext/tversky.rs       |  6 ++++--
 11 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index b9a0a78..de3262e 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -1,5 +1,6 @@
 /// Returns a simple ratio between two strings or `None` if `ratio < score_cutoff`
 /// The simple ratio is
+use super::null_like;
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
@@ -20,7 +21,9 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         // The ratio is the normalized indel similarity. (RatioBatchComparator normalizes the LCS instead)
         let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..003c52b 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -1,3 +1,4 @@
+use super::null_like;
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
@@ -29,7 +30,9 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::UInt32));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +122,9 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::UInt32));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +181,9 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Boolean));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..64ea593 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -1,3 +1,4 @@
+use super::null_like;
 use super::generic_str_distancer::{generic_batched_sim, generic_binary_sim};
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
@@ -33,7 +34,9 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +58,9 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..212acef 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -1,3 +1,4 @@
+use super::null_like;
 use super::generic_str_distancer::{
     generic_batched_distance, generic_batched_sim, generic_binary_distance, generic_binary_sim,
 };
@@ -23,7 +24,9 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::UInt32));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +46,9 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..e11bdcf 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -1,3 +1,4 @@
+use super::null_like;
 use super::generic_str_distancer::{
     generic_batched_distance, generic_batched_sim, generic_binary_distance, generic_binary_sim,
 };
@@ -50,7 +51,9 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::UInt32));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +75,9 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Boolean));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +140,9 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +162,9 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::UInt32));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +189,9 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/mod.rs b/src/str_ext/mod.rs
index c7b2380..c80fb19 100644
--- a/src/str_ext/mod.rs
+++ b/src/str_ext/mod.rs
@@ -19,6 +19,12 @@ mod tversky;
 
 // Hashbrown has better perf than Rust's HashSet
 use hashbrown::HashSet;
+use polars::prelude::{DataType, Series, StringChunked};
+
+/// The result of comparing every string with a scalar that is null
+pub fn null_like(ca: &StringChunked, dtype: &DataType) -> Series {
+    Series::full_null(ca.name().clone(), ca.len(), dtype)
+}
 
 #[inline(always)]
 pub fn str_set_sim_helper(w1: &str, w2: &str, ngram: usize) -> (usize, usize, usize) {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..968c978 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -1,3 +1,4 @@
+use super::null_like;
 use super::generic_str_distancer::{
     generic_batched_distance, generic_batched_sim, generic_binary_distance, generic_binary_sim,
 };
@@ -23,7 +24,9 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::UInt32));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +46,9 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..c6c9dfa 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -1,4 +1,4 @@
-use super::str_set_sim_helper;
+use super::{null_like, str_set_sim_helper};
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
@@ -32,7 +32,9 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..b97d674 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -1,4 +1,4 @@
-use super::str_set_sim_helper;
+use super::{null_like, str_set_sim_helper};
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
@@ -32,7 +32,9 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..d8a6024 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -1,4 +1,4 @@
-use super::str_set_sim_helper;
+use super::{null_like, str_set_sim_helper};
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
@@ -33,7 +33,9 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..b422c6d 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -1,4 +1,4 @@
-use super::str_set_sim_helper;
+use super::{null_like, str_set_sim_helper};
 use crate::utils::split_offsets;
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
@@ -41,7 +41,9 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(null_like(ca1, &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From 712d1466f1d98c739b27cb1e217cb2e4ce45dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 056/158] fix: str_nearest does not take nulls for empty
 strings

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From a33c4bfbda1e45a134db779e475f5a308c40f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 057/158] fix: str_tokenize with stem drops stopwords and keeps
 unique stems

---
 python/polars_ds/exprs/string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..cb4b708 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -270,7 +270,9 @@ def str_tokenize(c: str | pl.Expr, pattern: str = r"(?u)\b\w\w+\b", stem: bool =
     """
     out = str_to_expr(c).str.extract_all(pattern)
     if stem:
-        return out.list.eval(str_snowball(pl.element(), True).drop_nulls())
+        # Numbers and stopwords are stemmed to the empty string
+        stems = str_snowball(pl.element(), True)
+        return out.list.eval(stems.filter(stems != "").unique(maintain_order=True))
     return out
 
 
-- 
2.43.0


From a7bb120b07bac7ba56fa6a5382192ee3f2aae8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 058/158] fix: similar_to_vocab works with the jw metric

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index cb4b708..3c0bc1d 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -698,7 +698,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From 396ccf236ede80449c5019ca4673172da46681e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 059/158] fix: accept convolution kernels given as integer
 columns

---
 python/polars_ds/exprs/num.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index d2cb608..153cc36 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -815,7 +815,9 @@ def convolve(
     xx = str_to_expr(x).fill_null(fill_value).cast(pl.Float64).rechunk()  # One cont slice
     f: pl.Expr | pl.Series
     if isinstance(kernel, pl.Expr):
-        f = kernel.filter(kernel.is_finite()).rechunk()  # One cont slice
+        # The plugin only works with one contiguous slice of floats
+        f = kernel.cast(pl.Float64)
+        f = f.filter(f.is_finite()).rechunk()
     else:
         f = pl.Series(values=kernel, dtype=pl.Float64)
         f = f.filter(f.is_finite()).rechunk()  # One cont slice
-- 
2.43.0


From 8ecd161b74a96aaac90be483319da3292feb9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 060/158] fix: gcd and lcm of a single row or literal that is
 null

---
 src/num_ext/gcd_lcm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
-- 
2.43.0


From 77c677c87083f19d9a0fdf1403dd78d26eab1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 061/158] fix: haversine to a single point that is null

---
 src/num_ext/haversine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..eccd6cb 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,8 +14,10 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let (e_lat, e_long) = match (y_lat.get(0), y_long.get(0)) {
+            (Some(e_lat), Some(e_long)) => (e_lat, e_long),
+            _ => return Ok(ChunkedArray::full_null(x_lat.name().clone(), x_lat.len())),
+        };
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
-- 
2.43.0


From f16865e6c1e0bcb5bc4f5c08840177e24a5ef812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 062/158] fix: jaccard_col takes nulls for zeros or leftover
 values

---
 src/num_ext/jaccard.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..f44006b 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,13 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    // If counted, null is one more distinct element of the column it is in
+    let null1 = (count_null && inputs[0].has_nulls()) as usize;
+    let null2 = (count_null && inputs[1].has_nulls()) as usize;
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +219,8 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let intersection_size = intersection_size + (null1 & null2);
+    let union_size = len1 + null1 + len2 + null2 - intersection_size;
+    let out = intersection_size as f64 / union_size as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From 70f446ee1b6b0ca894d7a65aca7f6f71a37cc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 063/158] fix: jaccard_row with a literal list compares the
 first row only

---
 src/num_ext/jaccard.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index f44006b..f35fce7 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -56,8 +56,12 @@ fn _list_jaccard(a: &ListChunked, b: &ListChunked) -> Float64Chunked {
 
 #[polars_expr(output_type=Float64)]
 fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
-    let s1 = inputs[0].list()?;
-    let s2 = inputs[1].list()?;
+    // A literal list is compared with every row
+    let (n1, n2) = (inputs[0].len(), inputs[1].len());
+    let s1 = if n1 == 1 { inputs[0].new_from_index(0, n2) } else { inputs[0].clone() };
+    let s2 = if n2 == 1 { inputs[1].new_from_index(0, n1) } else { inputs[1].clone() };
+    let s1 = s1.list()?;
+    let s2 = s2.list()?;
 
     polars_ensure!(
         s1.inner_dtype() == s2.inner_dtype(),
-- 
2.43.0


From 7e641fd1ee61e1aa3e3e870340bc7639a77c7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 064/158] fix: linear detrend of a column with nulls panics

---
 python/polars_ds/exprs/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 153cc36..f549bf3 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -950,10 +950,10 @@ def detrend(x: str | pl.Expr, method: DetrendMethod = "linear") -> pl.Expr:
     """
     ts = str_to_expr(x)
     if method == "linear":
-        N = ts.count()
-        x = pl.int_range(0, N, eager=False)
-        coeff = pl.cov(ts, x) / x.var()
-        const = ts.mean() - coeff * (N - 1) / 2
+        x = pl.int_range(0, ts.len(), eager=False)
+        x_valid = pl.when(ts.is_not_null()).then(x)  # nulls take no part in the fit
+        coeff = pl.cov(ts, x_valid) / x_valid.var()
+        const = ts.mean() - coeff * x_valid.mean()
         return ts - x * coeff - const
     elif method == "mean":
         return ts - ts.mean()
-- 
2.43.0


From 3c296827f743d5c66c22840d32043f0b4b071015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 065/158] fix: jaccard_row panics on lists of 8 and 16 bit
 integers

---
 src/num_ext/jaccard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index f35fce7..d2772b9 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -68,7 +68,12 @@ fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ComputeError: "Inner data types don't match."
     );
 
-    if s1.inner_dtype().is_integer() {
+    if matches!(s1.inner_dtype(), Int8 | Int16 | UInt8 | UInt16) {
+        // The small integer types are not available below
+        let wide = List(Box::new(Int32));
+        let out = _list_jaccard(s1.cast(&wide)?.list()?, s2.cast(&wide)?.list()?);
+        Ok(out.into_series())
+    } else if s1.inner_dtype().is_integer() {
         let out = _list_jaccard(s1, s2);
         Ok(out.into_series())
     } else if s1.inner_dtype() == &DataType::String {
-- 
2.43.0


From 4d3d7a13c129fb33372ad16a34c7a1f9b7bf9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 066/158] fix: psi_discrete pairs categories with the counts of
 other categories

---
 python/polars_ds/exprs/num.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index f549bf3..65b91e5 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -528,7 +528,8 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        # Sorted, because the order of value counts may differ from one evaluation to the next
+        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -539,7 +540,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From 10ea8c3927b46757a22768984525f8173973d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 067/158] fix: time series features overflow on narrow and
 unsigned integer columns

---
 python/polars_ds/exprs/ts_features.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..c28d6b5 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -52,7 +52,7 @@ def query_mid_range(x: str | pl.Expr) -> pl.Expr:
     """
     A shorthand for (pl.col(x).max() - pl.col(x).min()) / 2.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return (xx.max() - xx.min()) / 2
 
 
@@ -61,7 +61,7 @@ def query_symm_ratio(x: str | pl.Expr) -> pl.Expr:
     Returns the symmetric ratio: |mean - median| / (max - min). Note the closer to 0 this value is,
     the more symmetric the series is.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return (y.mean() - y.median()).abs() / (y.max() - y.min())
 
 
@@ -69,7 +69,7 @@ def query_abs_energy(x: str | pl.Expr) -> pl.Expr:
     """
     Absolute energy is defined as Sum(x_i^2).
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return y.dot(y)
 
 
@@ -77,7 +77,7 @@ def query_mean_abs_change(x: str | pl.Expr) -> pl.Expr:
     """
     Returns the mean of all successive differences |X_i - X_i-1|
     """
-    return str_to_expr(x).diff(null_behavior="drop").abs().mean()
+    return str_to_expr(x).cast(pl.Float64).diff(null_behavior="drop").abs().mean()
 
 
 def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
@@ -86,7 +86,7 @@ def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
     """
     if n_maxima <= 0:
         raise ValueError("The number of maxima should be > 0.")
-    return str_to_expr(x).abs().top_k(n_maxima).mean()
+    return str_to_expr(x).cast(pl.Float64).abs().top_k(n_maxima).mean()
 
 
 def query_cv(x: str | pl.Expr, ddof: int = 1) -> pl.Expr:
@@ -349,7 +349,7 @@ def query_c3_stats(x: str | pl.Expr, lag: int) -> pl.Expr:
     https://arxiv.org/pdf/chao-dyn/9909043
     """
     two_lags = 2 * lag
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return ((xx.mul(xx.shift(lag)).mul(xx.shift(two_lags))).sum()).truediv(xx.len() - two_lags)
 
 
@@ -369,7 +369,7 @@ def query_cid_ce(x: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     ---------
     https://www.cs.ucr.edu/~eamonn/Complexity-Invariant%20Distance%20Measure.pdf
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         y = (xx - xx.mean()) / xx.std()
     else:
@@ -384,7 +384,7 @@ def query_time_reversal_asymmetry_stats(x: str | pl.Expr, n_lags: int) -> pl.Exp
     Queries the Time Reversal Asymmetry Statistic, which is the average of
     (L^2(x) * L(x) - L(x) * x^2), where L is the lag operator.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     one_lag = y.shift(-n_lags)
     two_lag = y.shift(-2 * n_lags)  # Nulls won't be in the mean calculation
     return (one_lag * (two_lag + y) * (two_lag - y)).mean()
@@ -405,7 +405,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     normalize
         Whether to normalize the value to [-1, 1] or not.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-- 
2.43.0


From c2fed76ac304cf730d9cdc23e65b8bbfb82c288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 068/158] fix: permutation entropy with tau > 1 uses
 consecutive elements

---
 python/polars_ds/exprs/ts_features.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index c28d6b5..481e27d 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -773,11 +773,9 @@ def query_permute_entropy(
         )
     else:
         return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
+            # Elements of a vector are tau periods apart, and vectors start at every period
+            pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
+            .head(t.len() - (n_dims - 1) * tau)
             .list.eval(pl.element().arg_sort())
             .value_counts()
             .struct.field("count")
-- 
2.43.0


From 06d0f2f4f385c123729abd8027a529683dcb62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 069/158] fix: approximate entropy of one row panics

---
 src/num_ext/entrophies.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index b0d10ac..416477a 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -27,7 +27,7 @@ fn pl_approximate_entropy(
     if radius.len() != 1 {
         return Err(PolarsError::ComputeError("Radius must be a scalar.".into()));
     }
-    let r = radius.get(0).unwrap();
+    let r = radius.get(0).unwrap_or(-1f64); // see return below
     let name = inputs[1].name();
     let ncols = inputs[1..].len();
     let data = series_to_row_major_slice::<Float64Type>(&inputs[1..])?;
-- 
2.43.0


From a312cc0e2d72faf8f17e3aa7b53468f17d892ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 070/158] fix: first digit counts include values behind nulls

---
 src/num_ext/benford.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..13f2b0c 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,8 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    // The iterations below are over all values, those behind nulls too
+    let s = &inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From 0d03d290780ea047b6942d3ae6d981122020d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 071/158] fix: t tests fail on Float32 columns

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index f311648..f012e71 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -75,7 +75,7 @@ def ttest_ind(
         If true, perform standard student t 2 sample test. Otherwise, perform Welch's
         t test.
     """
-    y1, y2 = str_to_expr(var1), str_to_expr(var2)
+    y1, y2 = str_to_expr(var1).cast(pl.Float64), str_to_expr(var2).cast(pl.Float64)
     if equal_var:
         m1 = y1.mean()
         m2 = y2.mean()
@@ -119,7 +119,7 @@ def ttest_1samp(
     alternative : {"two-sided", "less", "greater"}
         Alternative of the hypothesis test
     """
-    y = str_to_expr(var1)
+    y = str_to_expr(var1).cast(pl.Float64)
     s1 = y.filter(y.is_finite())
     sm = s1.mean()
     pm = pl.lit(pop_mean, dtype=pl.Float64)
@@ -162,7 +162,7 @@ def ttest_ind_from_stats(
         If true, perform standard student t 2 sample test. Otherwise, perform Welch's
         t test.
     """
-    y = str_to_expr(var1)
+    y = str_to_expr(var1).cast(pl.Float64)
     if equal_var:
         m1 = y.mean()
         m2 = pl.lit(mean, pl.Float64)
-- 
2.43.0


From 54499535edf9c43c214aa63a1aa3bcbd7d69330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 072/158] fix: ks_2samp fails on Float32 and integer columns

---
 python/polars_ds/exprs/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index f012e71..ebba453 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -222,13 +222,14 @@ def ks_2samp(
     ---------
     https://en.wikipedia.org/wiki/Kolmogorov%E2%80%93Smirnov_test#Two-sample_Kolmogorov%E2%80%93Smirnov_test
     """
-    y1, y2 = str_to_expr(var1), str_to_expr(var2)
+    y1, y2 = str_to_expr(var1), str_to_expr(var2).cast(pl.Float64)
     if is_binary:
         z1 = y2.filter(y1 == 1)
         z2 = y2.filter(y1 == 0)
         z1 = z1.filter(z1.is_finite()).sort()
         z2 = z2.filter(z2.is_finite()).sort()
     else:
+        y1 = y1.cast(pl.Float64)
         z1 = y1.filter(y1.is_finite()).sort()
         z2 = y2.filter(y2.is_finite()).sort()
 
-- 
2.43.0


From 8ca6ccbf25135d060cd1dc8e4281bc9e5551106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 073/158] fix: xi_corr fails on unsigned integer columns

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index ebba453..e50e26e 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -1009,7 +1009,7 @@ def xi_corr(
     args = [
         xx.rank(method="random", seed=seed),
         yy.rank(method="max").cast(pl.Float64),
-        (-yy).rank(method="max").cast(pl.Float64),
+        yy.rank(method="max", descending=True).cast(pl.Float64),
     ]
     if return_p:
         return pl_plugin(
-- 
2.43.0


From 1d849dbc4079b3e3ab32921f4cdf547446d3b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 074/158] fix: weighted statistics and cosine similarities
 overflow on narrow integer columns

---
 python/polars_ds/exprs/stats.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index e50e26e..2e0e47c 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -726,7 +726,7 @@ def weighted_hmean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    w = str_to_expr(weights)
+    w = str_to_expr(weights).cast(pl.Float64)
     x = str_to_expr(var)
     dot = w.dot(1.0 / x)
     if is_normalized:
@@ -762,7 +762,7 @@ def weighted_gmean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var), str_to_expr(weights).cast(pl.Float64)
     if is_normalized:
         return (x.log().dot(w)).exp()
     else:
@@ -787,7 +787,7 @@ def weighted_mean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     out = x.dot(w)
     if is_normalized:
         return out
@@ -815,7 +815,7 @@ def weighted_var(var: str | pl.Expr, weights: str | pl.Expr, freq_weights: bool
     ---------
     https://en.wikipedia.org/wiki/Weighted_arithmetic_mean#Weighted_sample_variance
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     wm = weighted_mean(x, w, False)
     summand = w.dot((x - wm).pow(2))
     if freq_weights:
@@ -843,7 +843,8 @@ def weighted_cov(x: str | pl.Expr, y: str | pl.Expr, weights: pl.Expr | float) -
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy, w = str_to_expr(x), str_to_expr(y), str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx, wy = weighted_mean(xx, w, False), weighted_mean(yy, w, False)
     return w.dot((xx - wx) * (yy - wy)) / w.sum()
 
@@ -868,8 +869,8 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
     syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
@@ -887,7 +888,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     y
         The second variable
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
     return xx.dot(yy) / (x2 * y2)
@@ -913,8 +914,8 @@ def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Ex
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx2 = xx.pow(2).dot(w)
     wy2 = yy.pow(2).dot(w)
     return (w * xx).dot(yy) / (wx2 * wy2).sqrt()
-- 
2.43.0


From a236a6bc31d6aa1160bcf210942124910d3726ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 075/158] fix: random and random_normal fail with integer
 bounds

---
 python/polars_ds/exprs/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 2e0e47c..4761f19 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -507,8 +507,8 @@ def random(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    lo = pl.lit(lower, pl.Float64) if isinstance(lower, float) else lower
-    up = pl.lit(upper, pl.Float64) if isinstance(upper, float) else upper
+    lo = lower.cast(pl.Float64) if isinstance(lower, pl.Expr) else pl.lit(lower, pl.Float64)
+    up = upper.cast(pl.Float64) if isinstance(upper, pl.Expr) else pl.lit(upper, pl.Float64)
     len_ = pl.lit(length, pl.UInt32) if isinstance(length, int) else length
     return pl_plugin(
         symbol="pl_random",
@@ -691,8 +691,8 @@ def random_normal(
         symbol="pl_rand_normal",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(mean, pl.Float64) if isinstance(mean, float) else mean,
-            pl.lit(std, pl.Float64) if isinstance(std, float) else std,
+            mean.cast(pl.Float64) if isinstance(mean, pl.Expr) else pl.lit(mean, pl.Float64),
+            std.cast(pl.Float64) if isinstance(std, pl.Expr) else pl.lit(std, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
     )
-- 
2.43.0


From f5fab778188943a5e356f62ef60976ca6bcb8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 076/158] fix: jitter fails with an integer standard deviation

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 4761f19..3fabb63 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -419,7 +419,7 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     seed
         A random seed
     """
-    if isinstance(std, float):
+    if isinstance(std, (int, float)):
         if std < 0:
             raise ValueError("Standard deviation must be positive.")
         elif std == 0:
-- 
2.43.0


From 3d72b2388456031c5abc3fe22c11c8ddd4174640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 077/158] fix: random_int fails with two expressions as bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 3fabb63..560dd34 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -558,7 +558,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From ab8f5d56326a91f5e4658cdbb3f93b4c7307243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 078/158] fix: imputing by mode fails on every column

---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..7b1f98d 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From a3cfcb9cfa6450d874babd86a0668da102b14389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 079/158] fix: nan_to_null step of a blueprint calls a method
 that expressions do not have

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..0aa3cff 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -433,7 +433,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From f901f1a0a9780559e6a5aa1191b8d7930ff5696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 080/158] fix: drop step of a blueprint refuses expressions and
 selectors

---
 python/polars_ds/modeling/pipeline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 0aa3cff..11c8a8a 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -630,7 +630,13 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
+        if isinstance(cols, pl.Expr) or (
+            not isinstance(cols, str) and any(isinstance(c, pl.Expr) for c in cols)
+        ):
+            remaining = cs.exclude(cols)
+        else:
+            remaining = pl.all().exclude(cols)
+        self._steps.append(PipelineStep(remaining, PLContext.SELECT))
         return self
 
     def rename(self, rename_dict: Dict[str, str]) -> Self:
-- 
2.43.0


From fe3fa78d180e6d1bfdef53e49241c22d4117b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 081/158] fix: select step of a blueprint refuses column names

---
 python/polars_ds/modeling/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 11c8a8a..57947b9 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -535,6 +535,10 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
+        if isinstance(cols, str):
+            cols = pl.col(cols)
+        elif not isinstance(cols, pl.Expr):
+            cols = [pl.col(c) if isinstance(c, str) else c for c in cols]
         self._steps.append(PipelineStep(cols, PLContext.SELECT))
         return self
 
-- 
2.43.0


From 1b293f61c7029fbbefc8c625fa09864660856661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 082/158] fix: rename step of a blueprint drops columns whose
 old name is also a new name

---
 python/polars_ds/modeling/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 57947b9..59a822d 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -658,7 +658,9 @@ class Blueprint:
                 [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
             )
         )
-        return self.drop(old)
+        # A name that is also a new name now holds the renamed column
+        old = [k for k in old if k not in rename_dict.values()]
+        return self.drop(old) if old else self
 
     def one_hot_encode(
         self,
-- 
2.43.0


From 81a216895735a91922de59773aec55c8999506c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 083/158] fix: rank_hot_encode fails when the column is given
 as an expression

---
 python/polars_ds/modeling/pipeline.py   | 2 +-
 python/polars_ds/modeling/transforms.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 59a822d..df7fcbc 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -722,7 +722,7 @@ class Blueprint:
             PipelineStep(t.rank_hot_encode(col=col, ranking=ranking), PLContext.WITH_COLUMNS)
         )
         if drop_cols:
-            return self.drop(cols=[col])
+            return self.drop(cols=[col if isinstance(col, str) else col.meta.output_name()])
         return self
 
     def target_encode(
diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 7b1f98d..83ff4d3 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -358,7 +358,7 @@ def one_hot_encode(
 
 
 def rank_hot_encode(
-    col: str,
+    col: str | pl.Expr,
     ranking: List[str],
 ) -> ExprTransform:
     """
@@ -381,12 +381,14 @@ def rank_hot_encode(
     if n_ranks <= 1:
         raise ValueError("Rank hot encoding does not work with single value ranking.")
 
+    expr = pl.col(col) if isinstance(col, str) else col
+    name = expr.meta.output_name()
     number_rank = list(range(n_ranks))
-    ranked_expr = pl.col(col).replace_strict(
+    ranked_expr = expr.replace_strict(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{col}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{name}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
-- 
2.43.0


From 34bed7e8e841a35667c70fa1c06b27b6e1a3ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 084/158] fix: pipelines that change the case of column names
 refuse their own training frame when ensure_features_in is set

---
 python/polars_ds/modeling/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index df7fcbc..d04e6b2 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -238,6 +238,10 @@ class Pipeline:
         """
         if self.ensure_features_in:
             columns = df.lazy().collect_schema().names()
+            if self.lowercase:
+                columns = [c.lower() for c in columns]
+            elif self.uppercase:
+                columns = [c.upper() for c in columns]
             extras = [c for c in columns if c not in self.feature_names_in_]
             missing = [c for c in self.feature_names_in_ if c not in columns]
             if len(extras) > 0 or len(missing) > 0:
-- 
2.43.0


From c3e8cfdb04d1416f60f60cbd4bc401cce1628fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 085/158] fix: saved pipelines that impute or rank hot encode
 panic after loading

---
 python/polars_ds/modeling/transforms.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 83ff4d3..2a91efe 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -39,13 +39,22 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
     """
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [
+            pl.when(pl.col(c).is_null()).then(pl.lit(m)).otherwise(pl.col(c)).alias(c)
+            for c, m in zip(cols, temp)
+        ]
     elif method == "median":
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [
+            pl.when(pl.col(c).is_null()).then(pl.lit(m)).otherwise(pl.col(c)).alias(c)
+            for c, m in zip(cols, temp)
+        ]
     elif method == "mode":
         temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [
+            pl.when(pl.col(c).is_null()).then(pl.lit(m)).otherwise(pl.col(c)).alias(c)
+            for c, m in zip(cols, temp)
+        ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
@@ -152,7 +161,12 @@ def linear_impute(
     if add_bias:
         linear_eq.append(pl.lit(coeffs[-1], dtype=pl.Float64))
 
-    return [pl.col(target_name).fill_null(pl.sum_horizontal(linear_eq)).alias(target_name)]
+    return [
+        pl.when(target_as_expr.is_null())
+        .then(pl.sum_horizontal(linear_eq))
+        .otherwise(target_as_expr)
+        .alias(target_name)
+    ]
 
 
 def center(df: PolarsFrame, cols: List[str]) -> ExprTransform:
@@ -388,7 +402,7 @@ def rank_hot_encode(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{name}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(pl.lit(-1, dtype=pl.Int8)).alias(f"{name}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
-- 
2.43.0


From 1985c73c0587f85224afa7b828861bec68a806db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 086/158] fix: conditional imputation of a string column reads
 the learned value as a column name

---
 python/polars_ds/modeling/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 2a91efe..e51833b 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -90,7 +90,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     elif method == "median":
         temp = (
@@ -100,7 +100,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     elif method == "mode":
         temp = (
@@ -115,7 +115,7 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
         ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
-- 
2.43.0


From 7df61c3432e4eb5e44550a121cdc0e0cf320fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 087/158] fix: pipelines with polynomial features cannot be
 saved

---
 python/polars_ds/modeling/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index e51833b..9341313 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -622,13 +622,14 @@ def polynomial_features(
     interaction_only
         It true, only combinations that involve 2 or more variables will be used.
     """
+    from functools import reduce
     from itertools import combinations_with_replacement
 
     if degree <= 1:
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        reduce(lambda acc, x: acc * x, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From 6c9d3d460c8c02cd4a348e3def4cc9b68af74287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 088/158] fix: downsample drops rows whose condition is null

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..d61a10e 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,7 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    all_filters = ((_sampler_expr(r, seed).over(c) | ~c.fill_null(False)) for c, r in conditions)
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From 92d47cce3b5579f6f0f884a3fbe7fde8e3c08ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 089/158] fix: split_by_ratio fails when one side of the split
 is empty

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index d61a10e..d17a8c4 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -233,10 +233,9 @@ def split_by_ratio(
                     "__tt"
                 )
             )
-            .partition_by("__tt", as_dict=True)
         )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
+        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
+        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
         return [train, test]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
-- 
2.43.0


From c149d8ee385bd616c621aa9f020075e2d3d90b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 090/158] fix: split_by_ratio refuses ratios that only sum to 1
 up to rounding

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index d17a8c4..322313c 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -241,7 +241,7 @@ def split_by_ratio(
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
+            if not math.isclose(sum(split_ratio), 1):
                 raise ValueError("Sum of the ratios is not 1.")
 
             df_eager = (
-- 
2.43.0


From ea8c092d7a6d6cc41241e4873bdcc4366366d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 091/158] fix: split_by_ratio loses rows when the parts do not
 divide the frame evenly

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 322313c..66d95f0 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -255,8 +255,9 @@ def split_by_ratio(
             n = len(df_eager)
             start = 0
             dfs = []
-            for v in split_ratio:
-                length = int(n * v)
+            for i, v in enumerate(split_ratio):
+                # The last part takes all remaining rows, so that no row is lost to rounding
+                length = int(n * v) if i < len(split_ratio) - 1 else n - start
                 dfs.append(
                     df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
                 )
-- 
2.43.0


From 9c7d2ae435a8b278799e1a8f9a8d51666d4fd0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 092/158] fix: random_cols ignores its seed

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 66d95f0..db155ba 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -193,7 +193,7 @@ def random_cols(
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    n = random.Random(seed).randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From 4388cb4e830ab2e1dd07f9d3eabc16b226e55629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 093/158] fix: PartitionHelper raises an IndexError for an
 unsupported column

---
 python/polars_ds/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 4d838e8..32a5d72 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -44,7 +44,7 @@ class PartitionHelper():
                 (cs.by_name(by)) & (cs.string() | cs.categorical() | cs.boolean())
             ).collect_schema().names()
 
-            all_ok = cols[0] == by if isinstance(by, str) else sorted(cols) == sorted(by)
+            all_ok = cols == [by] if isinstance(by, str) else sorted(cols) == sorted(by)
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-- 
2.43.0


From 8412ec6e8b122ccc7d079b85c62fc398b55a68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 094/158] fix: min_max and abs_max scaling of narrow integer
 columns overflow

---
 python/polars_ds/modeling/transforms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 9341313..2aa4124 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -217,8 +217,8 @@ def scale(
         temp = (
             df.lazy()
             .select(
-                pl.col(cols).min().name.prefix("min:"),
-                pl.col(cols).max().name.prefix("max:"),
+                pl.col(cols).min().cast(pl.Float64).name.prefix("min:"),
+                pl.col(cols).max().cast(pl.Float64).name.prefix("max:"),
             )
             .collect()
             .row(0)
@@ -229,7 +229,12 @@ def scale(
     elif method == "abs_max":
         temp = (
             df.lazy()
-            .select(pl.max_horizontal(pl.col(c).min().abs(), pl.col(c).max().abs()) for c in cols)
+            .select(
+                pl.max_horizontal(
+                    pl.col(c).min().cast(pl.Float64).abs(), pl.col(c).max().cast(pl.Float64).abs()
+                ).alias(c)
+                for c in cols
+            )
             .collect()
             .row(0)
         )
-- 
2.43.0


From 7edf11e1b3516e677d6dd14c27fe108bea49a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 095/158] fix: declared column names of many expressions differ
 from the produced ones, so target_encode of two columns fails

---
 src/num_ext/iterations.rs            |  2 +-
 src/num_ext/knn.rs                   |  4 ++--
 src/num_ext/linear_regression.rs     | 32 ++++++++++++++--------------
 src/num_ext/linear_regression_f32.rs | 32 ++++++++++++++--------------
 src/num_ext/pca.rs                   | 12 +++++------
 src/num_ext/psi.rs                   |  6 +++---
 src/num_ext/target_encode.rs         |  4 ++--
 src/num_ext/tp_fp.rs                 | 12 +++++------
 src/num_ext/woe_iv.rs                |  8 +++----
 src/stats/chi2.rs                    |  2 +-
 src/stats/mod.rs                     |  4 ++--
 src/utils/mod.rs                     | 16 +++++++-------
 12 files changed, 67 insertions(+), 67 deletions(-)

diff --git a/src/num_ext/iterations.rs b/src/num_ext/iterations.rs
index deaf944..4a2f518 100644
--- a/src/num_ext/iterations.rs
+++ b/src/num_ext/iterations.rs
@@ -10,7 +10,7 @@ pub(crate) struct CombinationKwargs {
 
 fn itertools_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(fields[0].dtype().clone())),
     ))
 }
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 0da539e..738eff2 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -19,11 +19,11 @@ use pyo3_polars::{
 };
 use serde::Deserialize;
 
-pub fn knn_full_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn knn_full_output(fields: &[Field]) -> PolarsResult<Field> {
     let idx = Field::new("idx".into(), DataType::List(Box::new(DataType::UInt32)));
     let dist = Field::new("dist".into(), DataType::List(Box::new(DataType::Float64)));
     let v = vec![idx, dist];
-    Ok(Field::new("knn_dist".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 #[derive(Deserialize)]
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index e0cf43f..789c8a8 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -55,16 +55,16 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
-    report_fields(StandardError::from(kwargs.std_err).into())
+fn report_output(fields: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::from(kwargs.std_err).into())
 }
 
 // The standard error is never one of the hc kinds when there are weights
-fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
-    report_fields(StandardError::SE.into())
+fn wls_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::SE.into())
 }
 
-fn report_fields(std_err_name: PlSmallStr) -> PolarsResult<Field> {
+fn report_fields(fields: &[Field], std_err_name: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
     let stderr = Field::new(std_err_name, DataType::Float64); // Std Err for this coefficient
@@ -75,36 +75,36 @@ fn report_fields(std_err_name: PlSmallStr) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float64); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float64); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
+fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
     let v = vec![pred, residue];
-    Ok(Field::new("pred".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let singular_values = Field::new(
         "singular_values".into(),
         DataType::List(Box::new(DataType::Float64)),
     );
     let v: Vec<Field> = vec![coeffs, singular_values];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "coeffs".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
@@ -115,7 +115,7 @@ fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResul
         .iter()
         .map(|f| Field::new(f.name.clone(), DataType::List(Box::new(DataType::Float64))))
         .collect();
-    Ok(Field::new("coeffs".into(), DataType::Struct(coeffs)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(coeffs)))
 }
 
 // One prediction and one residue per target
@@ -125,7 +125,7 @@ fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> Pola
         .flat_map(|f| ["pred", "resid"].map(|s| format!("{}_{}", f.name, s)))
         .map(|name| Field::new(name.into(), DataType::Float64))
         .collect();
-    Ok(Field::new("all_preds".into(), DataType::Struct(preds)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(preds)))
 }
 
 #[derive(PartialEq)]
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index aaa2655..9173709 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -29,16 +29,16 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
-    report_fields(StandardError::from(kwargs.std_err).into())
+fn report_output(fields: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::from(kwargs.std_err).into())
 }
 
 // The standard error is never one of the hc kinds when there are weights
-fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
-    report_fields(StandardError::SE.into())
+fn wls_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::SE.into())
 }
 
-fn report_fields(std_err_name: PlSmallStr) -> PolarsResult<Field> {
+fn report_fields(fields: &[Field], std_err_name: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
     let stderr = Field::new(std_err_name, DataType::Float32); // Std Err for this coefficient
@@ -49,36 +49,36 @@ fn report_fields(std_err_name: PlSmallStr) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float32); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float32); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
+fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
     let v = vec![pred, residue];
-    Ok(Field::new("pred".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let singular_values = Field::new(
         "singular_values".into(),
         DataType::List(Box::new(DataType::Float32)),
     );
     let v: Vec<Field> = vec![coeffs, singular_values];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "coeffs".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float32)),
     ))
 }
@@ -89,7 +89,7 @@ fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResul
         .iter()
         .map(|f| Field::new(f.name.clone(), DataType::List(Box::new(DataType::Float32))))
         .collect();
-    Ok(Field::new("coeffs".into(), DataType::Struct(coeffs)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(coeffs)))
 }
 
 // One prediction and one residue per target
@@ -99,7 +99,7 @@ fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> Pola
         .flat_map(|f| ["pred", "resid"].map(|s| format!("{}_{}", f.name, s)))
         .map(|name| Field::new(name.into(), DataType::Float32))
         .collect();
-    Ok(Field::new("all_preds".into(), DataType::Struct(preds)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(preds)))
 }
 
 // --------------------------------------------------------------------------------------------------
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 2376be3..ae896f8 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -9,21 +9,21 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use serde::Deserialize;
 
-pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "singular_values".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
 
-pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn pca_output(fields: &[Field]) -> PolarsResult<Field> {
     let singular_value = Field::new("singular_value".into(), DataType::Float64);
     let weights = Field::new(
         "weight_vector".into(),
         DataType::List(Box::new(DataType::Float64)),
     );
     Ok(Field::new(
-        "pca".into(),
+        fields[0].name().clone(),
         DataType::Struct(vec![singular_value, weights]),
     ))
 }
@@ -34,14 +34,14 @@ pub(crate) struct PrincipalComponentsKwargs {
 }
 
 fn principal_components_output(
-    _: &[Field],
+    fields: &[Field],
     kwargs: PrincipalComponentsKwargs,
 ) -> PolarsResult<Field> {
     let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
-        "principal_components".into(),
+        fields[0].name().clone(),
         DataType::Struct(components),
     ))
 }
diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 83b61dc..1383620 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -2,13 +2,13 @@ use ordered_float::OrderedFloat;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
+fn psi_report_output(fields: &[Field]) -> PolarsResult<Field> {
     let breakpoints = Field::new("<=".into(), DataType::Float64);
     let baseline_pct = Field::new("baseline_pct".into(), DataType::Float64);
     let actual_pct = Field::new("actual_pct".into(), DataType::Float64);
     let psi_bins = Field::new("psi_bin".into(), DataType::Float64);
     let v: Vec<Field> = vec![breakpoints, baseline_pct, actual_pct, psi_bins];
-    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
@@ -19,7 +19,7 @@ fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
         Field::new("actual_pct".into(), DataType::Float64),
         Field::new("psi_bin".into(), DataType::Float64),
     ];
-    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Computes counts in each bucket given by the breakpoints in
diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index e7955b1..f239ff0 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -2,11 +2,11 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use serde::Deserialize;
 
-fn target_encode_output(_: &[Field]) -> PolarsResult<Field> {
+fn target_encode_output(fields: &[Field]) -> PolarsResult<Field> {
     let values = Field::new("value".into(), DataType::String);
     let to = Field::new("to".into(), DataType::Float64);
     let v: Vec<Field> = vec![values, to];
-    Ok(Field::new("target_encoded".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 #[derive(Deserialize, Debug)]
diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index de4254b..75cb0cd 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -4,22 +4,22 @@ use faer::reborrow::IntoConst;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn combo_output(_: &[Field]) -> PolarsResult<Field> {
+fn combo_output(fields: &[Field]) -> PolarsResult<Field> {
     let roc_auc = Field::new("roc_auc".into(), DataType::Float64);
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
     let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn tpr_fpr_output(_: &[Field]) -> PolarsResult<Field> {
+fn tpr_fpr_output(fields: &[Field]) -> PolarsResult<Field> {
     let threshold = Field::new("threshold".into(), DataType::Float64);
     let tpr = Field::new("tpr".into(), DataType::Float64);
     let fpr = Field::new("fpr".into(), DataType::Float64);
     let v: Vec<Field> = vec![threshold, tpr, fpr];
-    Ok(Field::new("tpr_fpr".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn tp_fp_frame(
@@ -258,7 +258,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 // bcm = binary confusion matrix
-fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
+fn bcm_output(fields: &[Field]) -> PolarsResult<Field> {
     let tp = Field::new("tp".into(), DataType::UInt32);
     let fp = Field::new("fp".into(), DataType::UInt32);
     let tn = Field::new("tn".into(), DataType::UInt32);
@@ -287,7 +287,7 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     let dor = Field::new("dor".into(), DataType::Float64);
 
     Ok(Field::new(
-        "confusion_matrix".into(),
+        fields[0].name().clone(),
         DataType::Struct(vec![
             tp,
             tn,
diff --git a/src/num_ext/woe_iv.rs b/src/num_ext/woe_iv.rs
index 743fd9f..3465af2 100644
--- a/src/num_ext/woe_iv.rs
+++ b/src/num_ext/woe_iv.rs
@@ -1,18 +1,18 @@
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn woe_output(_: &[Field]) -> PolarsResult<Field> {
+fn woe_output(fields: &[Field]) -> PolarsResult<Field> {
     let value = Field::new("value".into(), DataType::String);
     let woe: Field = Field::new("woe".into(), DataType::Float64);
     let v: Vec<Field> = vec![value, woe];
-    Ok(Field::new("woe_output".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn iv_output(_: &[Field]) -> PolarsResult<Field> {
+fn iv_output(fields: &[Field]) -> PolarsResult<Field> {
     let value = Field::new("value".into(), DataType::String);
     let iv: Field = Field::new("iv".into(), DataType::Float64);
     let v: Vec<Field> = vec![value, iv];
-    Ok(Field::new("iv_output".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Get a lazyframe needed to compute Weight Of Evidence.
diff --git a/src/stats/chi2.rs b/src/stats/chi2.rs
index e82dffa..c5578dd 100644
--- a/src/stats/chi2.rs
+++ b/src/stats/chi2.rs
@@ -11,7 +11,7 @@ fn chi2_full_output(fields: &[Field]) -> PolarsResult<Field> {
     let f2 = fields[1].clone();
     let ef = Field::new("E[freq]".into(), DataType::Float64);
     let v: Vec<Field> = vec![s, p, dof, f1, f2, ef];
-    Ok(Field::new("chi2_full".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn _chi2_helper(inputs: &[Series]) -> PolarsResult<(LazyFrame, usize, usize)> {
diff --git a/src/stats/mod.rs b/src/stats/mod.rs
index 9acd652..0ab6073 100644
--- a/src/stats/mod.rs
+++ b/src/stats/mod.rs
@@ -10,11 +10,11 @@ mod xi_corr;
 
 use polars::prelude::*;
 
-pub fn simple_stats_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn simple_stats_output(fields: &[Field]) -> PolarsResult<Field> {
     let s = Field::new("statistic".into(), DataType::Float64);
     let p = Field::new("pvalue".into(), DataType::Float64);
     let v: Vec<Field> = vec![s, p];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 pub enum Alternative {
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8fc758e..0c7014a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -173,30 +173,30 @@ pub fn first_field_output(fields: &[Field]) -> PolarsResult<Field> {
 //     ))
 // }
 
-pub fn list_u32_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_u32_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "nodes".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::UInt32)),
     ))
 }
 
-pub fn list_f64_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_f64_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "floats".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
 
-pub fn complex_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn complex_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "complex".into(),
+        fields[0].name().clone(),
         DataType::Array(Box::new(DataType::Float64), 2),
     ))
 }
 
-pub fn list_str_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_str_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "list_str".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::String)),
     ))
 }
-- 
2.43.0


From 3d987e961693be339f5d4c4099c77b8bdbfd5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 096/158] fix: compat mode evaluates in a frame as long as its
 inputs, so that pl.len() is right

---
 python/polars_ds/compat/_compat.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 26d0803..91fefe8 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -42,17 +42,25 @@ class _Compat():
             if len(positionals) <= 0:
                 raise ValueError("There must be at least 1 positional argument!")
             
-            new_args = (
+            new_args = [
                 _Compat._try_into_series(x, name = str(i))
                 for i, x in enumerate(positionals)
-            )
+            ]
             new_kwargs = {
                 n: _Compat._try_into_series(v, name = n)
                 for n, v in kwargs.items()
             }
+            # Some expressions count the rows by pl.len(), so the frame must be as long as the inputs
+            height = max(
+                (
+                    len(v) for v in (*positionals, *kwargs.values())
+                    if isinstance(v, pl.Series) or hasattr(v, "__array__")
+                ),
+                default = 1
+            )
             # An eager df, drop output col, so a pl.Series
             return (
-                pl.select(
+                pl.select(__index__ = pl.int_range(height)).select(
                     func(*new_args, **new_kwargs).alias("__output__")
                 ).drop_in_place("__output__")
                 .rename(name.replace("query_", ""))
-- 
2.43.0


From 9a259c6466798decd489ca00a09614019379a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 097/158] fix: infer_prob looks at all rows of list columns,
 not only the first

---
 python/polars_ds/eda/diagnosis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..af26ad9 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -501,9 +501,11 @@ class DIA:
                 *(
                     (
                         (
-                            pl.col(c).list.eval((pl.element() >= 0.0).all()).list.first()
+                            pl.col(c).list.eval((pl.element() >= 0.0).all()).list.first().all()
                         )  # every number must be positive
-                        & ((pl.col(c).list.sum() - 1.0).abs() < 1e-6)  # class prob must sum to 1
+                        & (
+                            ((pl.col(c).list.sum() - 1.0).abs() < 1e-6).all()
+                        )  # class prob must sum to 1
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-- 
2.43.0


From a0830cad62f232f7fd56aa15470e4adc94790b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 098/158] fix: infer_prob gives no columns, not an error, for
 frames without float columns

---
 python/polars_ds/eda/diagnosis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index af26ad9..b6cd069 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -495,6 +495,9 @@ class DIA:
         between 0 and 1. For List[f32] or List[f64] columns, this checks whether the column can potentially be
         multi-class probabilities.
         """
+        if len(self.floats + self.list_floats) == 0:
+            return []
+
         is_ok = (
             self._frame.select(
                 *((pl.col(c).is_between(0.0, 1.0).all()).alias(c) for c in self.floats),
-- 
2.43.0


From d95db8a6d076a83432db327bb3f2b5c01ca00fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 099/158] fix: infer_discrete gives no columns, not an error,
 when there is none to check

---
 python/polars_ds/eda/diagnosis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index b6cd069..125ec1e 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -559,6 +559,9 @@ class DIA:
         """
         out: List[str] = self.bools + self.cats
         to_check = [c for c in self._frame.columns if c not in out]
+        if len(to_check) == 0:
+            return []
+
         is_ok = (
             self._frame.select(
                 (
-- 
2.43.0


From f3485385aac64fb42d86b5e8f6d58264a5abfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 100/158] fix: infer_corr gives an empty frame, not an error,
 when there is no pair of columns

---
 python/polars_ds/eda/diagnosis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 125ec1e..fc957c6 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -698,6 +698,9 @@ class DIA:
             xx.append(x)
             yy.append(y)
 
+        if len(xx) == 0:
+            return pl.DataFrame(schema={"x": pl.String, "y": pl.String, "corr": pl.Float64})
+
         corrs = (
             self._frame.with_columns(pl.col(c).cast(pl.UInt8) for c in self.bools)
             .select(corr(x, y, method=method).alias(f"{i}") for i, (x, y) in enumerate(zip(xx, yy)))
-- 
2.43.0


From f7a3cf784576e8407724ce78837cade2b5e91510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 101/158] fix: row_validation with all_reasons does not list
 rules that are null on the row

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index fc957c6..4de92d7 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -322,9 +322,9 @@ class DIA:
 
         if all_reasons:
             reasons = [
-                pl.when(pl.col(c)).then(None).otherwise(pl.lit(c, dtype=pl.String))
+                pl.when(pl.col(c).not_()).then(pl.lit(c, dtype=pl.String)).otherwise(None)
                 for c in all_rule_names
-            ]  # When true, return None. When false, return reason
+            ]  # When false, return reason. When true or null, return None
 
             return df_temp.select(
                 *to_keep, pl.concat_list(reasons).list.drop_nulls().list.sort().alias("__reason__")
-- 
2.43.0


From 27789bba26dfaa269d18a9df74583afbd8b2238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 102/158] fix: the histogram of numeric_profile does not
 overflow for narrow integers

---
 python/polars_ds/eda/diagnosis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 4de92d7..6231a11 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -172,7 +172,10 @@ class DIA:
                     .sum()
                     .alias("outlier_cnt"),
                     pl.struct(
-                        ((pl.col(c) - pl.col(c).min()) / (pl.col(c).max() - pl.col(c).min()))
+                        (
+                            (pl.col(c).cast(pl.Float64) - pl.col(c).min())
+                            / (pl.col(c).max().cast(pl.Float64) - pl.col(c).min())
+                        )
                         .filter(pl.col(c).is_finite())
                         .cut(breaks=cuts, left_closed=True, include_breaks=True)
                         .struct.rename_fields(["brk", "category"])
-- 
2.43.0


From 143274b113fbd66d38dcea03cae08e251192a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 103/158] fix: DIA.plot_feature_distr works with its default
 number of bins

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 6231a11..1b78d26 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -833,7 +833,7 @@ class DIA:
     def plot_feature_distr(
         self,
         feature: str,
-        n_bins: int | None = None,
+        n_bins: int = 10,
         density: bool = False,
         show_bad_values: bool = True,
         min_: float | pl.Expr | None = None,
-- 
2.43.0


From 1d67ef9f5499021204552244645bb1d41d11bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 104/158] fix: the area shown by plot_roc_auc includes the
 segment from (0, 0)

---
 python/polars_ds/eda/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index e0c319f..de95525 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -531,12 +531,13 @@ def plot_roc_auc(
             .select("tpr", "fpr")
         )
 
+        tpr_fpr = pl.concat([zero, tpr_fpr])
         text = p
         if show_auc:
             auc = tpr_fpr.select(integrate_trapz("tpr", "fpr")).item(0, 0)
             text += f" (AUC = {round(auc, n_decimals)})"
 
-        dfs.append(pl.concat([zero, tpr_fpr]).with_columns(name=pl.lit(text, dtype=pl.String)))
+        dfs.append(tpr_fpr.with_columns(name=pl.lit(text, dtype=pl.String)))
 
     perfect_line = pl.int_range(1, 100, step=5, eager=True) / 100
     df_line = pl.DataFrame({"fpr": perfect_line, "tpr": perfect_line}).with_columns(
-- 
2.43.0


From d7c6c631d0e42fc8966a7fb6af568c6757024b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 105/158] fix: compat mode finds the length of any array-like
 input

---
 python/polars_ds/compat/_compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 91fefe8..aa467b4 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -53,7 +53,8 @@ class _Compat():
             # Some expressions count the rows by pl.len(), so the frame must be as long as the inputs
             height = max(
                 (
-                    len(v) for v in (*positionals, *kwargs.values())
+                    len(v) if hasattr(v, "__len__") else len(v.__array__())
+                    for v in (*positionals, *kwargs.values())
                     if isinstance(v, pl.Series) or hasattr(v, "__array__")
                 ),
                 default = 1
-- 
2.43.0


From fae6e7116fe479b79f94cee8310422cacfc3d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 106/158] fix: infer_discrete names boolean and categorical
 columns too

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 1b78d26..5ae8a5a 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -563,7 +563,7 @@ class DIA:
         out: List[str] = self.bools + self.cats
         to_check = [c for c in self._frame.columns if c not in out]
         if len(to_check) == 0:
-            return []
+            return out
 
         is_ok = (
             self._frame.select(
@@ -577,7 +577,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 28f8f51799f5cd15fd9e81617a7e8f17af850bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 107/158] fix: regression metrics do not wrap around on integer
 columns

---
 python/polars_ds/exprs/metrics.py | 40 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 7e17d56..62d5593 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -67,8 +67,8 @@ def query_r2(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     ss_res = diff.dot(diff)
     diff2 = a - a.mean()
@@ -89,8 +89,8 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     p
         The number of explanatory variables
     """
-    actual_expr = str_to_expr(actual)
-    pred_expr = str_to_expr(pred)
+    actual_expr = str_to_expr(actual).cast(pl.Float64)
+    pred_expr = str_to_expr(pred).cast(pl.Float64)
     diff = actual_expr - pred_expr
     ss_res = diff.dot(diff)
     diff2 = actual_expr - actual_expr.mean()
@@ -104,7 +104,8 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     """
     Computes log cosh of the the prediction error, which is a smooth variation of MAE (L1 loss).
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (p - a).cosh().log().mean()
     return (p - a).cosh().log().sum()
@@ -121,7 +122,8 @@ def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -
     pred
         An expression represeting the column with predicted probability.
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     temp = (a - p).abs()
     return (
         pl.when(temp <= delta).then(0.5 * temp.pow(2)).otherwise(delta * (temp - 0.5 * delta)).sum()
@@ -142,8 +144,8 @@ def query_l2(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     if normalize:
         return diff.dot(diff) / diff.count()
@@ -163,8 +165,8 @@ def query_l1(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N. Nulls won't be counted in N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (a - p).abs().mean()
     return (a - p).abs().sum()
@@ -181,8 +183,8 @@ def query_l_inf(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     return (a - p).abs().max()
 
 
@@ -233,8 +235,8 @@ def query_mape(actual: str | pl.Expr, pred: str | pl.Expr, weighted: bool = Fals
     weighted
         If true, computes wMAPE in the wikipedia article
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if weighted:
         return (a - p).abs().sum() / a.abs().sum()
     else:
@@ -256,8 +258,8 @@ def query_smape(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     numerator = (a - p).abs()
     denominator = a.abs() + p.abs()
     return (numerator / denominator).mean()
@@ -299,8 +301,8 @@ def query_mase(
     if freq < 1:
         raise ValueError("Input `freq` must be >= 1.")
 
-    a: pl.Expr = str_to_expr(actual)
-    p: pl.Expr = str_to_expr(pred)
+    a: pl.Expr = str_to_expr(actual).cast(pl.Float64)
+    p: pl.Expr = str_to_expr(pred).cast(pl.Float64)
 
     if isinstance(train, float):
         if use_mean:
@@ -311,7 +313,7 @@ def query_mase(
         return numerator / pl.lit(train)
 
     else:
-        train_expr = str_to_expr(train)
+        train_expr = str_to_expr(train).cast(pl.Float64)
         if use_mean:
             numerator = (a - p).abs().mean()
             denom = train_expr.diff(n=freq).abs().mean()
-- 
2.43.0


From 3ba7887a247334daed1f5a6f1ee6de1065dc9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 108/158] fix: simple_lin_reg does not overflow on integer
 columns

---
 python/polars_ds/exprs/expr_linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index 358bc2e..bb9aef2 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -68,8 +68,8 @@ def simple_lin_reg(
         residue, it will return the same number of rows as in input.
     """
     # No test. All forumla here are mathematically correct.
-    xx = lr_formula(x)
-    yy = lr_formula(target)
+    xx = lr_formula(x).cast(pl.Float64)
+    yy = lr_formula(target).cast(pl.Float64)
     if add_bias:
         if weights is None:
             x_mean = xx.mean()
@@ -77,7 +77,7 @@ def simple_lin_reg(
             beta = (xx - x_mean).dot(yy - y_mean) / (xx - x_mean).dot(xx - x_mean)
             alpha = y_mean - beta * x_mean
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights).cast(pl.Float64)
             w_sum = w.sum()
             x_wmean = w.dot(xx) / w_sum
             y_wmean = w.dot(yy) / w_sum
@@ -94,7 +94,7 @@ def simple_lin_reg(
         if weights is None:
             beta = xx.dot(yy) / xx.dot(xx)
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights).cast(pl.Float64)
             beta = w.dot(xx * yy) / w.dot(xx.pow(2))
 
         if return_pred:
-- 
2.43.0


From 83a2f6a039367448bf1afe33f326f7a55d210c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 109/158] fix: f_test does not overflow on integer columns

---
 src/stats/fstats.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stats/fstats.rs b/src/stats/fstats.rs
index 5667572..41a1ce7 100644
--- a/src/stats/fstats.rs
+++ b/src/stats/fstats.rs
@@ -37,8 +37,10 @@ fn pl_f_test(inputs: &[Series]) -> PolarsResult<Series> {
         let n_sum = n_sum.as_str();
         let n_var = format!("{}_var", i);
         let n_var = n_var.as_str();
-        step_one.push(col(name).sum().alias(n_sum));
-        step_one.push(col(name).var(0).alias(n_var));
+        // Sums of small integers overflow in their own data type
+        let x = col(name).cast(DataType::Float64);
+        step_one.push(x.clone().sum().alias(n_sum));
+        step_one.push(x.var(0).alias(n_var));
         let p1: Expr = (col(n_sum).cast(DataType::Float64) / col("cnt").cast(DataType::Float64)
             - (col(n_sum).sum().cast(DataType::Float64)
                 / col("cnt").sum().cast(DataType::Float64)))
-- 
2.43.0


From 60fd9b889a663f5a1e97d6e49b42eaf90fc38914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 110/158] fix: haversine accepts integer coordinates

---
 src/num_ext/haversine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index eccd6cb..de6073b 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -73,6 +73,14 @@ fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
             out.into_series()
         }
+        dt if dt.is_primitive_numeric() => {
+            let x_lat = inputs[0].cast(&DataType::Float64)?;
+            let x_long = inputs[1].cast(&DataType::Float64)?;
+            let y_lat = inputs[2].cast(&DataType::Float64)?;
+            let y_long = inputs[3].cast(&DataType::Float64)?;
+            let out = naive_haversine(x_lat.f64()?, x_long.f64()?, y_lat.f64()?, y_long.f64()?)?;
+            out.into_series()
+        }
         _ => return Err(PolarsError::ComputeError("Data type not supported.".into())),
     };
     Ok(out)
-- 
2.43.0


From ce0822fd31b1451f78fb3923203f834d6f4ffd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 111/158] fix: query_nb_cnt accepts a radius column of any
 numeric type

---
 python/polars_ds/exprs/expr_knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 3cc196f..50a8263 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -606,7 +606,7 @@ def query_nb_cnt(
 
     return pl_plugin(
         symbol="pl_nb_cnt",
-        args=[rad] + [str_to_expr(x) for x in features],
+        args=[rad.cast(pl.Float64)] + [str_to_expr(x) for x in features],
         kwargs={
             "k": 0,
             "metric": dist,
-- 
2.43.0


From 38696dae0fc0a8eec197eadd178ee458d901d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 112/158] fix: query_similar_count accepts a Float32 target

---
 python/polars_ds/exprs/ts_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 481e27d..6630c6f 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -275,7 +275,7 @@ def query_similar_count(
     if len(q) <= 1:
         raise ValueError("Length of the query should be > 1.")
 
-    t = str_to_expr(target)
+    t = str_to_expr(target).cast(pl.Float64)
     kwargs = {"threshold": threshold, "parallel": parallel}
     if metric == "sql2":
         result = pl_plugin(
-- 
2.43.0


From 445f60b35f4f3ab5063ffa161c7cc5158c0211d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 113/158] fix: sample and approximate entropy accept Float32
 columns

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 6630c6f..8718c54 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -546,7 +546,7 @@ def query_sample_entropy(
     if m <= 1:
         raise ValueError("Input `m` must be > 1.")
 
-    t = str_to_expr(ts)
+    t = str_to_expr(ts).cast(pl.Float64)
     r = ratio * t.std(ddof=0)
     rows = t.len() - m + 1
 
@@ -606,7 +606,7 @@ def query_approx_entropy(
     if filtering_level <= 0 or m <= 1:
         raise ValueError("Filter level must be positive and m must be > 1.")
 
-    t = str_to_expr(ts)
+    t = str_to_expr(ts).cast(pl.Float64)
     if scale_by_std:
         r: pl.Expr = filtering_level * t.std()
     else:
-- 
2.43.0


From b6b134544cefee3855668ca2ef62a85abdc05891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 114/158] fix: is_increasing and is_decreasing do not overflow
 on integer columns

---
 python/polars_ds/exprs/num.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 65b91e5..8dc6938 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -126,10 +126,12 @@ def is_increasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
     strict
         Whether the check should be strict
     """
+    # Not by the sign of the difference, because differences of integers may overflow
+    xx = str_to_expr(x)
     if strict:
-        return (str_to_expr(x).diff() > 0.0).all()
+        return (xx > xx.shift(1)).all()
     else:
-        return (str_to_expr(x).diff() >= 0.0).all()
+        return (xx >= xx.shift(1)).all()
 
 
 def is_decreasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
@@ -145,9 +147,9 @@ def is_decreasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
     """
     xx = str_to_expr(x)
     if strict:
-        return (xx.diff() < 0.0).all()
+        return (xx < xx.shift(1)).all()
     else:
-        return (xx.diff() <= 0.0).all()
+        return (xx <= xx.shift(1)).all()
 
 
 def center(x: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 181e62604f7842acbcab2fd2f1c564c7c116f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 115/158] fix: psi_discrete works on a column named count

---
 python/polars_ds/exprs/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 8dc6938..fe6d75c 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -531,7 +531,7 @@ def psi_discrete(
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
         # Sorted, because the order of value counts may differ from one evaluation to the next
-        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
+        temp = new_.alias("").value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -542,7 +542,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
+        temp = base.alias("").value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From b72e4aca658175667cb02e34570820cb8af52f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 116/158] fix: query_permute_entropy works on a column named
 count

---
 python/polars_ds/exprs/ts_features.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 8718c54..45c4ea0 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -767,6 +767,7 @@ def query_permute_entropy(
             pl.concat_list(t, *(t.shift(-i) for i in range(1, n_dims)))
             .head(t.len() - n_dims + 1)
             .list.eval(pl.element().arg_sort())
+            .alias("pattern")  # value_counts fails if the column is named "count"
             .value_counts()  # groupby and count, but returns a struct
             .struct.field("count")  # extract the field named "count"
             .entropy(base=base, normalize=True)
@@ -777,6 +778,7 @@ def query_permute_entropy(
             pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
             .head(t.len() - (n_dims - 1) * tau)
             .list.eval(pl.element().arg_sort())
+            .alias("pattern")  # value_counts fails if the column is named "count"
             .value_counts()
             .struct.field("count")
             .entropy(base=base, normalize=True)
-- 
2.43.0


From c9b4e74c15aa23e14922264d462a2ae45bdcd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 117/158] fix: query_ar_coeffs works on a column with a numeric
 name

---
 python/polars_ds/exprs/ts_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 45c4ea0..6fd742b 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -454,7 +454,7 @@ def query_ar_coeffs(
 
     xx = str_to_expr(x)
     return lin_reg(
-        *[xx.shift(i).slice(offset=lag).alias(str(i)) for i in range(1, lag + 1)],
+        *[xx.shift(i).slice(offset=lag).alias(f"__lag_{i}") for i in range(1, lag + 1)],
         target=xx.slice(offset=lag),
         add_bias=add_bias,
         null_policy=null_policy,
-- 
2.43.0


From 4d7ba1dafc42b2cad1f94c47d8af1d21faa36ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 118/158] fix: DIA.str_stats works on a column named count

---
 python/polars_ds/eda/diagnosis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 5ae8a5a..a8ab253 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -418,8 +418,14 @@ class DIA:
                 pl.lit(c).alias("column"),
                 pl.col(c).null_count().alias("null_count"),
                 pl.col(c).n_unique().alias("n_unique"),
-                pl.col(c).value_counts(sort=True).first().struct.field(c).alias("most_freq"),
                 pl.col(c)
+                .alias("value")  # value_counts fails if the column is named "count"
+                .value_counts(sort=True)
+                .first()
+                .struct.field("value")
+                .alias("most_freq"),
+                pl.col(c)
+                .alias("value")
                 .value_counts(sort=True)
                 .first()
                 .struct.field("count")
-- 
2.43.0


From 72d9aa4db8b28d73610dd2c760c103671dbd21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 119/158] fix: volume_neutral works on a column named count

---
 python/polars_ds/sample_and_split/sample_and_split.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index db155ba..d7d6ae9 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -78,10 +78,12 @@ def volume_neutral(
     seed
         A random seed
     """
+    # value_counts fails if the column is named "count"
+    counts = by.alias("by").value_counts()
     if isinstance(target_volume, int):
-        target = pl.min_horizontal(by.value_counts().struct.field("count").min(), target_volume)
+        target = pl.min_horizontal(counts.struct.field("count").min(), target_volume)
     else:
-        target = by.value_counts().struct.field("count").min()
+        target = counts.struct.field("count").min()
 
     if isinstance(control, pl.Expr):
         ctrl = [control]
-- 
2.43.0


From 7a91e5425ee9b2953f9bb4ab2f02478542e23bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 120/158] fix: calculate_ndcg works on columns with names it
 uses itself

---
 python/polars_ds/exprs/metrics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 62d5593..8c687bb 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -727,6 +727,14 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
+    # Names that do not clash with those of the intermediate columns below
+    df = df.select(
+        pl.col(relevance_col).alias("__relevance"),
+        pl.col(score_col).alias("__score"),
+        pl.col(group_col).alias("__group"),
+    )
+    relevance_col, score_col, group_col = "__relevance", "__score", "__group"
+
     ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
-- 
2.43.0


From b2fb2cd4900a0eccda974efdd9f803039d9a68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 121/158] fix: PartitionHelper does not drop parts that would
 share a name

---
 python/polars_ds/partition/partition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 32a5d72..3ccf196 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -48,10 +48,14 @@ class PartitionHelper():
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-            self.parts = {
-                separator.join((str(k) for k in keys)): value
-                for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()
-            }
+            self.parts = {}
+            for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items():
+                name = separator.join((str(k) for k in keys))
+                if name in self.parts:
+                    raise ValueError(
+                        f"More than one part would be named `{name}`. Please try another separator."
+                    )
+                self.parts[name] = value
 
     def __repr__(self) -> str:
         output = ""
-- 
2.43.0


From f697fb86aee965b7c2b8a6a3757db00bc759813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 122/158] fix: DIA.col_validation accepts rules that share a
 column and rules over many columns

All rules were evaluated in one selection under the names of their columns, so two
rules about the same column raised DuplicateError, and a rule over many columns broke
the pairing of results with messages.
---
 python/polars_ds/eda/diagnosis.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index a8ab253..2a986ac 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -250,24 +250,22 @@ class DIA:
             A tuple of (pl.Expr, str), where the pl.Expr should evaluate to a single boolean value.
             If the boolean is False, then the entire column is considered to be violiating the rule.
         """
-        rules_to_check = list(rules)
-        rules_exprs = [r.name.keep() for r, _ in rules_to_check]
-        violation_messages = [msg for _, msg in rules_to_check]
-
-        df_temp = self._frame.select(*rules_exprs).collect()
-
-        if len(df_temp) > 1:
-            raise ValueError(
-                "Column rules must evaluate to a single boolean expression for each rule. "
-                f"But a dataframe of shape {df_temp.shape} is produced."
-            )
+        # One frame per rule: rules may be on the same column, and a rule may be on many columns
+        results = pl.collect_all([self._frame.select(r.name.keep()) for r, _ in rules])
+
+        violations = []
+        for df_temp, (_, msg) in zip(results, rules):
+            if len(df_temp) > 1:
+                raise ValueError(
+                    "Column rules must evaluate to a single boolean expression for each rule. "
+                    f"But a dataframe of shape {df_temp.shape} is produced."
+                )
+            violations += [(c, msg) for c in df_temp.columns if df_temp[c].not_().any()]
 
-        df_violation = df_temp.transpose(include_header=True, column_names=["pass"]).with_columns(
-            pl.Series(name="__reason__", values=violation_messages)
+        return pl.DataFrame(
+            violations, schema={"column": pl.String, "__reason__": pl.String}, orient="row"
         )
 
-        return df_violation.filter(pl.col("pass").not_()).select("column", "__reason__")
-
     def row_validation(
         self,
         *rules: Tuple[pl.Expr, str],
-- 
2.43.0


From e832c57c489f4e4c480b5f0a4ad10a55fa46e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 123/158] fix: jaccard_col compares columns of different
 numeric types by value

Both were cast to Int64, which turned large UInt64 values into nulls (whose filling
then counted as a value) and cut the fractions of floats.
---
 src/num_ext/jaccard.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d2772b9..eb7c94a 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -105,20 +105,25 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let null1 = (count_null && inputs[0].has_nulls()) as usize;
     let null2 = (count_null && inputs[1].has_nulls()) as usize;
 
-    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
+    let (mut s1, mut s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
+    if s1.dtype() != s2.dtype()
+        && s1.dtype().is_primitive_numeric()
+        && s2.dtype().is_primitive_numeric()
+    {
+        // A type that can hold all values of both
+        let wide = if s1.dtype().is_integer() && s2.dtype().is_integer() {
+            Int128
+        } else {
+            Float64
+        };
+        s1 = s1.cast(&wide)?;
+        s2 = s2.cast(&wide)?;
+    }
 
     // All computation below assumes the input has no nulls
 
     // God, help me with this unholy mess,
-    let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
-        let ca1 = s1.cast(&DataType::Int64)?;
-        let ca1 = ca1.i64().unwrap();
-        let ca2 = s2.cast(&DataType::Int64)?;
-        let ca2 = ca2.i64().unwrap();
-        let hs1 = ca1.into_no_null_iter().collect::<PlHashSet<_>>();
-        let hs2 = ca2.into_no_null_iter().collect::<PlHashSet<_>>();
-        (hs1.len(), hs2.len(), hs1.intersection(&hs2).count())
-    } else if s1.dtype() == s2.dtype() {
+    let (len1, len2, intersection_size) = if s1.dtype() == s2.dtype() {
         match s1.dtype() {
             Int8 => {
                 let ca1 = s1.i8().unwrap();
-- 
2.43.0


From aacf545050cb242ff7ab085df6a296f63e3e6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 124/158] fix: LR.fit_df prints the report of the model it fits

The printed report ignored has_bias and null_policy, so its coefficients were
not those of the model.
---
 python/polars_ds/linear_models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index fb6f8bc..739defc 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -120,6 +120,7 @@ class LR:
             learned if .fit_df() is run later, or .set_input_features() is set later.
         """
         self._lr = PyLR(solver, lambda_, has_bias)
+        self._has_bias = has_bias
         self.feature_names_in_: List[str] = (
             [] if feature_names_in_ is None else list(feature_names_in_)
         )
@@ -239,14 +240,16 @@ class LR:
             regression. E.g. Nothing will be printed if lambda_ > 0.
         """
         if show_report and self._lr.lambda_ == 0.0:
-            from . import query_lstsq_report
+            from . import lin_reg_report
 
             print(
                 df.lazy()
                 .select(
-                    query_lstsq_report(
+                    lin_reg_report(
                         *features,
                         target=target,
+                        add_bias=self._has_bias,
+                        null_policy=null_policy,
                     ).alias("report")
                 )
                 .unnest("report")
-- 
2.43.0


From b2c93743ef40da54e02e622e335767375db4d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 125/158] fix: KDTree.within and within_count refuse queries of
 another dimension

They answered for the first columns of a wider or narrower query, or panicked.
---
 src/pymodels/py_kdt.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index d43811e..663307a 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -158,6 +158,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
                 return Err(LinalgErrors::Other(
@@ -216,6 +219,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             if parallel && nrows > 16 {
@@ -260,6 +266,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
@@ -322,6 +331,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             if parallel && nrows > 16 {
@@ -372,6 +384,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             let output: Vec<i32> = if parallel && nrows > 32 {
@@ -403,6 +418,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
-- 
2.43.0


From dc92e0704a23a8cfcc10d4b08d58750819b78302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 126/158] fix: lin_reg refuses weights it cannot pair with the
 rows

---
 src/num_ext/linear_regression.rs     | 22 +++++++++++++++++++---
 src/num_ext/linear_regression_f32.rs | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 789c8a8..8cd85f1 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -319,6 +319,16 @@ fn series_to_mat_for_multi_lstsq(
 
 // -----------------------------------------------------------------------------------------------------
 
+fn non_null_weights(weights: &Float64Chunked) -> PolarsResult<&[f64]> {
+    if weights.has_nulls() {
+        Err(PolarsError::ComputeError(
+            "Weights must not contain nulls.".into(),
+        ))
+    } else {
+        weights.cont_slice()
+    }
+}
+
 #[polars_expr(output_type_func=coeff_output)]
 fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
@@ -337,7 +347,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
                 let weights = binding.f64().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = non_null_weights(weights)?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Shape of weights is not the same as the data.".into(),
@@ -539,7 +549,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
                 let weights = binding.f64().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = non_null_weights(weights)?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Length of weights and data in X must be the same.".into(),
@@ -769,7 +779,7 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
 
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
-    let weights = weights.cont_slice().unwrap();
+    let weights = non_null_weights(weights)?;
     // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
@@ -788,6 +798,12 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
 
+            if weights.len() != nrows {
+                return Err(PolarsError::ComputeError(
+                    "Shape of weights is not the same as the data.".into(),
+                ));
+            }
+
             let x = mat.slice(s![0..nrows, 1..]).into_faer();
             let y = mat.slice(s![0..nrows, 0..1]).into_faer();
 
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 9173709..8c38918 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -260,6 +260,16 @@ fn series_to_mat_for_multi_lstsq_f32(
 
 // --------------------------------------------------------------------------------------------------
 
+fn non_null_weights(weights: &Float32Chunked) -> PolarsResult<&[f32]> {
+    if weights.has_nulls() {
+        Err(PolarsError::ComputeError(
+            "Weights must not contain nulls.".into(),
+        ))
+    } else {
+        weights.cont_slice()
+    }
+}
+
 #[polars_expr(output_type_func=coeff_output)]
 fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
@@ -278,7 +288,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
                 let weights = binding.f32().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = non_null_weights(weights)?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Shape of weights is not the same as the data.".into(),
@@ -487,7 +497,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
                 let weights = binding.f32().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = non_null_weights(weights)?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Length of weights and data in X must be the same.".into(),
@@ -716,7 +726,7 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
 
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
-    let weights = weights.cont_slice().unwrap();
+    let weights = non_null_weights(weights)?;
     // index 0 is weights, 1 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
@@ -735,6 +745,12 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
 
+            if weights.len() != nrows {
+                return Err(PolarsError::ComputeError(
+                    "Shape of weights is not the same as the data.".into(),
+                ));
+            }
+
             let x = mat.slice(s![0..nrows, 1..]).into_faer();
             let y = mat.slice(s![0..nrows, 0..1]).into_faer();
 
-- 
2.43.0


From 69f298abe107abe941d628bbf40c56ceb277af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 127/158] fix: lin_reg_w_rcond reports data that have no SVD

---
 src/linalg/lr_solvers.rs             | 8 +++++---
 src/num_ext/linear_regression.rs     | 3 ++-
 src/num_ext/linear_regression_f32.rs | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e3c27cf..b060f09 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -191,7 +191,7 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     lambda: T,
     has_bias: bool,
     rcond: T,
-) -> (Mat<T>, Vec<T>) {
+) -> Result<(Mat<T>, Vec<T>), String> {
     // Ridge is the lstsq of x with rows sqrt(lambda) * e_i appended. If has bias, no row is appended for the last column.
     // The decomposition is that of x itself: for small singular values, those of xtx are mere rounding errors.
     let (nrows, ncols) = x.shape();
@@ -210,7 +210,9 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
             T::zero()
         }
     });
-    let svd = x_aug.thin_svd().unwrap();
+    let svd = x_aug
+        .thin_svd()
+        .map_err(|_| "SVD did not converge. Does the data contain NaN or Inf?".to_string())?;
     let singular_values = svd.S().column_vector().iter().copied().collect::<Vec<_>>();
 
     let n = singular_values.len();
@@ -227,7 +229,7 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     // The targets of the appended rows are 0
     let ut = svd.U().get(..nrows, ..).transpose();
     let weights = svd.V() * s_inv * (ut * y);
-    (weights, singular_values)
+    Ok((weights, singular_values))
 }
 
 /// Returns the coefficients for lstsq with l2 (Ridge) regularization as a nrows x 1 matrix
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8cd85f1..430467a 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -497,7 +497,8 @@ fn pl_lstsq_w_rcond(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Seri
 
             //     // faer_solve_ridge_rcond
             let (coeffs, singular_values) =
-                faer_solve_lstsq_rcond(x, y, kwargs.l2_reg, has_bias, rcond);
+                faer_solve_lstsq_rcond(x, y, kwargs.l2_reg, has_bias, rcond)
+                    .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 8c38918..5ff6cb9 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -445,7 +445,8 @@ fn pl_lstsq_w_rcond_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<
 
             //     // faer_solve_ridge_rcond
             let (coeffs, singular_values) =
-                faer_solve_lstsq_rcond(x, y, kwargs.l2_reg as f32, has_bias, rcond);
+                faer_solve_lstsq_rcond(x, y, kwargs.l2_reg as f32, has_bias, rcond)
+                    .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
-- 
2.43.0


From 30a597bf10e9f0a137bde4bf2b705f92fbfe0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 128/158] fix: lin_reg_report gives NaN intervals when no
 degree of freedom is left

---
 src/stats_utils/beta.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stats_utils/beta.rs b/src/stats_utils/beta.rs
index 51f3449..3ea891a 100644
--- a/src/stats_utils/beta.rs
+++ b/src/stats_utils/beta.rs
@@ -365,6 +365,9 @@ pub fn inv_beta_reg(mut a: f64, mut b: f64, mut x: f64) -> f64 {
 pub fn student_t_ppf(x: f64, df: f64) -> f64 {
     // first calculate inverse_cdf for normal Student's T
     assert!((0.0..=1.0).contains(&x));
+    if !(df > 0.0) {
+        return f64::NAN;
+    }
     let x1 = if x >= 0.5 { 1.0 - x } else { x };
     let a = 0.5 * df;
     let b = 0.5;
-- 
2.43.0


From 71ca4b7a72ad72edda21785ad052804b1cf7c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 129/158] fix: t tests report a sample without mean or variance

---
 src/stats/t_test.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/stats/t_test.rs b/src/stats/t_test.rs
index 1dc1195..ce661ab 100644
--- a/src/stats/t_test.rs
+++ b/src/stats/t_test.rs
@@ -119,13 +119,13 @@ fn pl_ttest_2samp(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type_func=simple_stats_output)]
 fn pl_welch_t(inputs: &[Series]) -> PolarsResult<Series> {
     let mean1 = inputs[0].f64()?;
-    let mean1 = mean1.get(0).unwrap();
+    let mean1 = mean1.get(0).unwrap_or(f64::NAN);
     let mean2 = inputs[1].f64()?;
-    let mean2 = mean2.get(0).unwrap();
+    let mean2 = mean2.get(0).unwrap_or(f64::NAN);
     let var1 = inputs[2].f64()?;
-    let var1 = var1.get(0).unwrap();
+    let var1 = var1.get(0).unwrap_or(f64::NAN);
     let var2 = inputs[3].f64()?;
-    let var2 = var2.get(0).unwrap();
+    let var2 = var2.get(0).unwrap_or(f64::NAN);
     let n1 = inputs[4].u64()?;
     let n1 = n1.get(0).unwrap() as f64;
     let n2 = inputs[5].u64()?;
@@ -135,8 +135,13 @@ fn pl_welch_t(inputs: &[Series]) -> PolarsResult<Series> {
     let alt = alt.get(0).unwrap();
     let alt = stats::Alternative::from(alt);
 
-    // No need to check for validity because input is sanitized.
-
+    // The input is sanitized, but nothing may be left of it.
+    let valid = mean1.is_finite() && mean2.is_finite() && var1.is_finite() && var2.is_finite();
+    if !valid {
+        return Err(PolarsError::ComputeError(
+            "T Test: Sample Mean/Std is found to be NaN or Inf.".into(),
+        ));
+    }
     let (t, p) = welch_t(mean1, mean2, var1, var2, n1, n2, alt)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
@@ -146,11 +151,11 @@ fn pl_welch_t(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type_func=simple_stats_output)]
 fn pl_ttest_1samp(inputs: &[Series]) -> PolarsResult<Series> {
     let mean = inputs[0].f64()?;
-    let mean = mean.get(0).unwrap();
+    let mean = mean.get(0).unwrap_or(f64::NAN);
     let pop_mean = inputs[1].f64()?;
-    let pop_mean = pop_mean.get(0).unwrap();
+    let pop_mean = pop_mean.get(0).unwrap_or(f64::NAN);
     let var = inputs[2].f64()?;
-    let var = var.get(0).unwrap();
+    let var = var.get(0).unwrap_or(f64::NAN);
     let n = inputs[3].u64()?;
     let n = n.get(0).unwrap() as f64;
 
@@ -158,8 +163,13 @@ fn pl_ttest_1samp(inputs: &[Series]) -> PolarsResult<Series> {
     let alt = alt.get(0).unwrap();
     let alt = stats::Alternative::from(alt);
 
-    // No need to check for validity because input is sanitized.
-
+    // The input is sanitized, but nothing may be left of it.
+    let valid = mean.is_finite() && pop_mean.is_finite() && var.is_finite();
+    if !valid {
+        return Err(PolarsError::ComputeError(
+            "T Test: Sample Mean/Std is found to be NaN or Inf.".into(),
+        ));
+    }
     let (t, p) = ttest_1samp(mean, pop_mean, var, n, alt)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
-- 
2.43.0


From fc14abb34be1fb6bb2e7873c99beb31055733a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 130/158] fix: normal_test reports a sample without values

---
 src/stats/normal_test.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index fca4eab..8113629 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -54,10 +54,10 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
 #[polars_expr(output_type_func=simple_stats_output)]
 fn pl_normal_test(inputs: &[Series]) -> PolarsResult<Series> {
     let skew = inputs[0].f64()?;
-    let skew = skew.get(0).unwrap();
+    let skew = skew.get(0).unwrap_or(f64::NAN);
 
     let kurtosis = inputs[1].f64()?;
-    let kurtosis = kurtosis.get(0).unwrap();
+    let kurtosis = kurtosis.get(0).unwrap_or(f64::NAN);
 
     let n = inputs[2].u32()?;
     let n = n.get(0).unwrap() as usize;
-- 
2.43.0


From 250665993c5dd909d95801f6a33c9801a7e66b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 131/158] fix: query_similar_count reports nulls

---
 src/num_ext/subseq_sim.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index 8c392e1..e3100bd 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -26,9 +26,9 @@ fn pl_subseq_sim_cnt_l2(
     kwargs: SubseqQueryKwargs,
 ) -> PolarsResult<Series> {
     let seq = inputs[0].f64()?;
-    let seq = seq.cont_slice().unwrap();
+    let seq = seq.cont_slice()?;
     let query = inputs[1].f64()?;
-    let query = query.cont_slice().unwrap();
+    let query = query.cont_slice()?;
 
     if query.len() > seq.len() {
         return Err(PolarsError::ComputeError(
@@ -72,9 +72,9 @@ fn pl_subseq_sim_cnt_zl2(
     kwargs: SubseqQueryKwargs,
 ) -> PolarsResult<Series> {
     let seq = inputs[0].f64()?;
-    let seq = seq.cont_slice().unwrap();
+    let seq = seq.cont_slice()?;
     let query = inputs[1].f64()?; // is already z normalized
-    let query = query.cont_slice().unwrap();
+    let query = query.cont_slice()?;
 
     if query.len() > seq.len() {
         return Err(PolarsError::ComputeError(
-- 
2.43.0


From ad46ca359425f4e0a79034848596606c2444659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 132/158] fix: target_encode of a target without values is
 empty

---
 src/num_ext/target_encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index f239ff0..7a988b0 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -53,7 +53,7 @@ fn pl_target_encode(inputs: &[Series], kwargs: TargetEncodeKwargs) -> PolarsResu
     // Inputs[0] and inputs[1] are the string column and the target respectively
 
     let target_mean = inputs[2].f64()?;
-    let target_mean = target_mean.get(0).unwrap();
+    let target_mean = target_mean.get(0).unwrap_or(f64::NAN); // No target, nothing to encode
 
     let min_samples_leaf = kwargs.min_samples_leaf;
     let smoothing = kwargs.smoothing;
-- 
2.43.0


From b06cd31e6ddc903274583d766ae93bc9618b808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 133/158] fix: binary_metrics_combo finds the threshold among
 scores with NaN

---
 src/num_ext/tp_fp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 75cb0cd..6d992d5 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -3,6 +3,7 @@ use faer::reborrow::IntoConst;
 /// ROC AUC, Average Precision, precision, recall, etc. m
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use std::cmp::Ordering;
 
 fn combo_output(fields: &[Field]) -> PolarsResult<Field> {
     let roc_auc = Field::new("roc_auc".into(), DataType::Float64);
@@ -126,7 +127,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let probs = frame.drop_in_place("threshold").unwrap();
     let probs = probs.f64()?;
     let probs = probs.cont_slice().unwrap();
-    let index = match probs.binary_search_by(|x| x.partial_cmp(&threshold).unwrap()) {
+    // NaN is sorted last
+    let index = match probs
+        .binary_search_by(|x| x.partial_cmp(&threshold).unwrap_or(Ordering::Greater))
+    {
         Ok(i) => i,
         Err(i) => i,
     };
-- 
2.43.0


From e51f653acfb5266e031d8a1d1eab8cc8da8c219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 134/158] fix: query_nb_cnt gives nulls for a null radius

---
 src/num_ext/knn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 738eff2..32789a1 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -687,7 +687,10 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
     let nrows = data.len() / ncols;
 
     if radius.len() == 1 {
-        let r = radius.get(0).unwrap();
+        let r = match radius.get(0) {
+            Some(r) => r,
+            None => return Ok(UInt32Chunked::full_null("cnt".into(), nrows).into_series()),
+        };
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-- 
2.43.0


From 3a4dd833247c8885fa334424c3ba2cc5eb883225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 135/158] fix: random refuses bounds that enclose nothing

---
 src/stats/sample.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index d3eacb0..a7a8dd8 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -78,11 +78,16 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let len: &ChunkedArray<UInt32Type> = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
     let low = inputs[1].f64()?;
-    let low = low.get(0).unwrap();
+    let low = low.get(0).unwrap_or(f64::NAN);
     let high = inputs[2].f64()?;
-    let high = high.get(0).unwrap();
+    let high = high.get(0).unwrap_or(f64::NAN);
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
+    if !(low < high && (high - low).is_finite()) {
+        return Err(PolarsError::ComputeError(
+            "The bounds must be finite and the lower one below the upper one.".into(),
+        ));
+    }
     let dist = Uniform::new(low, high);
     let out = Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
     Ok(out.into_series())
-- 
2.43.0


From 2d63f6db9fa01bc019075aa7544fadf3ff25cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 136/158] fix: random_normal refuses a standard deviation that
 is not finite

---
 src/stats/sample.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index a7a8dd8..42a20f1 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -182,7 +182,8 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
         );
         Ok(out.into_series())
     } else {
-        let dist = Normal::new(mean, std_).unwrap();
+        let dist =
+            Normal::new(mean, std_).map_err(|e| PolarsError::ComputeError(e.to_string().into()))?;
         let out =
             Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
         Ok(out.into_series())
-- 
2.43.0


From b7584af47f1e25c5f636410cbc39239f4d7255fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 137/158] fix: perturb with epsilon 0 leaves the column as it
 is

---
 src/stats/sample.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index 42a20f1..7a87230 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -107,7 +107,11 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
 
     match reference.dtype() {
         DataType::Float32 => {
-            let dist: Uniform<f32> = Uniform::new(low as f32, high as f32);
+            let (low, high) = (low as f32, high as f32);
+            if low >= high {
+                return Ok(reference.clone()); // epsilon = 0
+            }
+            let dist: Uniform<f32> = Uniform::new(low, high);
             let ca = reference.f32().unwrap();
             // Have to use _generic here to avoid the Copy trait
             let out: Float32Chunked =
@@ -115,6 +119,9 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
             Ok(out.into_series())
         }
         DataType::Float64 => {
+            if low >= high {
+                return Ok(reference.clone()); // epsilon = 0
+            }
             let dist: Uniform<f64> = Uniform::new(low, high);
             let ca = reference.f64().unwrap();
             // Have to use _generic here to avoid the Copy trait
-- 
2.43.0


From cfa02f825f7c489c093c00a07e040e15ba0a3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 138/158] fix: string set similarities refuse a substring size
 of 0

---
 src/str_ext/overlap.rs       | 5 +++++
 src/str_ext/sorensen_dice.rs | 5 +++++
 src/str_ext/str_jaccard.rs   | 5 +++++
 src/str_ext/tversky.rs       | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index c6c9dfa..78dacfe 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -26,6 +26,11 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     // ngram size
     let ngram = inputs[2].u32()?;
     let ngram = ngram.get(0).unwrap() as usize;
+    if ngram == 0 {
+        return Err(PolarsError::ComputeError(
+            "The substring size must be at least 1.".into(),
+        ));
+    }
     // parallel
     let parallel = inputs[3].bool()?;
     let parallel = parallel.get(0).unwrap();
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index b97d674..6e61a91 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -26,6 +26,11 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     // ngram size
     let ngram = inputs[2].u32()?;
     let ngram = ngram.get(0).unwrap() as usize;
+    if ngram == 0 {
+        return Err(PolarsError::ComputeError(
+            "The substring size must be at least 1.".into(),
+        ));
+    }
     // parallel
     let parallel = inputs[3].bool()?;
     let parallel = parallel.get(0).unwrap();
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index d8a6024..9e7499b 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -27,6 +27,11 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     // ngram size
     let ngram = inputs[2].u32()?;
     let ngram = ngram.get(0).unwrap() as usize;
+    if ngram == 0 {
+        return Err(PolarsError::ComputeError(
+            "The substring size must be at least 1.".into(),
+        ));
+    }
     // parallel
     let parallel = inputs[3].bool()?;
     let parallel = parallel.get(0).unwrap();
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index b422c6d..1dc1057 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -29,6 +29,11 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     // ngram size
     let ngram = inputs[2].u32()?;
     let ngram = ngram.get(0).unwrap() as usize;
+    if ngram == 0 {
+        return Err(PolarsError::ComputeError(
+            "The substring size must be at least 1.".into(),
+        ));
+    }
 
     // Alpha and beta params
     let alpha = inputs[3].f64()?;
-- 
2.43.0


From cb6dc65e7f85b7a29ac1b3f8ff5c6359888c43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 139/158] fix: OnlineLR.update refuses a row of another length

---
 src/pymodels/py_lr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pymodels/py_lr.rs b/src/pymodels/py_lr.rs
index bac5891..e22edd7 100644
--- a/src/pymodels/py_lr.rs
+++ b/src/pymodels/py_lr.rs
@@ -211,10 +211,20 @@ impl PyOnlineLR {
         }
     }
 
-    pub fn update(&mut self, X: PyReadonlyArray2<f64>, y: PyReadonlyArray2<f64>, c: f64) {
+    pub fn update(
+        &mut self,
+        X: PyReadonlyArray2<f64>,
+        y: PyReadonlyArray2<f64>,
+        c: f64,
+    ) -> PyResult<()> {
         let x = X.as_array().into_faer();
         let y = y.as_array().into_faer();
+        let width = self.lr.get_inv()?.nrows();
+        if x.ncols() + self.lr.has_bias() as usize != width || x.nrows() != y.nrows() {
+            return Err(LinalgErrors::DimensionMismatch.into());
+        }
         self.lr.update(x, y, c);
+        Ok(())
     }
 
     pub fn set_coeffs_bias_inverse(
-- 
2.43.0


From 299fe173eee51eee7b52a502cc34c9090c15ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 140/158] fix: KDTree splits points with NaN

---
 src/arkadia/kdt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index 37150bf..5b2c7b5 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -711,8 +711,11 @@ impl<T: Float + DistanceOps + 'static + Debug, A: Copy> OwnedKDT<T, A> {
                         (midpoint, split_idx)
                     }
                     SplitMethod::MEDIAN => {
+                        // NaN comes last
                         new_data.sort_unstable_by(|l1, l2| {
-                            l1.value_at(axis).partial_cmp(&l2.value_at(axis)).unwrap()
+                            let (v1, v2) = (l1.value_at(axis), l2.value_at(axis));
+                            v1.partial_cmp(&v2)
+                                .unwrap_or_else(|| v1.is_nan().cmp(&v2.is_nan()))
                         });
                         let split_idx = new_data.len() >> 1;
                         let split_value = new_data[split_idx].value_at(axis);
-- 
2.43.0


From 90387a21c0e459eb9e21ce02d1a1ae6499d16fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 141/158] fix: random columns report parameters that are null

---
 src/stats/sample.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index 7a87230..e191f02 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -15,14 +15,19 @@ fn rng_from_seed(seed: Option<u64>) -> StdRng {
     }
 }
 
+/// Parameters may be expressions, which may have no value
+fn non_null<T>(value: Option<T>, name: &str) -> PolarsResult<T> {
+    value.ok_or_else(|| PolarsError::ComputeError(format!("Input `{name}` is null.").into()))
+}
+
 #[polars_expr(output_type=Int32)]
 fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     let n = inputs[0].u32()?;
-    let n = n.get(0).unwrap() as usize;
+    let n = non_null(n.get(0), "n")? as usize;
     let low = inputs[1].i32()?;
-    let mut low = low.get(0).unwrap();
+    let mut low = non_null(low.get(0), "lower bound")?;
     let high = inputs[2].i32()?;
-    let mut high = high.get(0).unwrap();
+    let mut high = non_null(high.get(0), "upper bound")?;
     if low == high {
         let out = Int32Chunked::from_vec("".into(), vec![low; n]);
         return Ok(out.into_series());
@@ -39,11 +44,11 @@ fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=UInt64)]
 fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = non_null(len.get(0), "length")? as usize;
     let n = inputs[1].u32()?;
-    let n = n.get(0).unwrap();
+    let n = non_null(n.get(0), "n")?;
     let p = inputs[2].f64()?;
-    let p = p.get(0).unwrap();
+    let p = non_null(p.get(0), "p")?;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
     let dist =
@@ -55,9 +60,9 @@ fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=Float64)]
 fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = non_null(len.get(0), "length")? as usize;
     let lambda = inputs[1].f64()?;
-    let lambda = lambda.get(0).unwrap();
+    let lambda = non_null(lambda.get(0), "lambda")?;
 
     let seed = inputs[2].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
@@ -76,11 +81,11 @@ fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=Float64)]
 fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let len: &ChunkedArray<UInt32Type> = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = non_null(len.get(0), "length")? as usize;
     let low = inputs[1].f64()?;
-    let low = low.get(0).unwrap_or(f64::NAN);
+    let low = non_null(low.get(0), "lower bound")?;
     let high = inputs[2].f64()?;
-    let high = high.get(0).unwrap_or(f64::NAN);
+    let high = non_null(high.get(0), "upper bound")?;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
     if !(low < high && (high - low).is_finite()) {
@@ -99,9 +104,9 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
 fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
     let reference = &inputs[0];
     let low = inputs[1].f64()?;
-    let low = low.get(0).unwrap();
+    let low = non_null(low.get(0), "lower bound")?;
     let high = inputs[2].f64()?;
-    let high = high.get(0).unwrap();
+    let high = non_null(high.get(0), "upper bound")?;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
 
@@ -139,7 +144,7 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
 fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
     let reference = &inputs[0];
     let std_ = inputs[1].f64()?;
-    let std_ = std_.get(0).unwrap();
+    let std_ = non_null(std_.get(0), "std")?;
     if !std_.is_finite() {
         return Err(PolarsError::ComputeError(
             "Input standard deviation is not finite.".into(),
@@ -174,7 +179,7 @@ fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=Float64)]
 fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = non_null(len.get(0), "length")? as usize;
     let mean = inputs[1].f64()?;
     let mean = mean.get(0).unwrap_or(0.);
     let std_ = inputs[2].f64()?;
@@ -200,11 +205,11 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = non_null(len.get(0), "length")? as usize;
     let min_size = inputs[1].u32()?;
-    let min_size = min_size.get(0).unwrap() as usize;
+    let min_size = non_null(min_size.get(0), "min_size")? as usize;
     let max_size = inputs[2].u32()?;
-    let max_size = max_size.get(0).unwrap() as usize;
+    let max_size = non_null(max_size.get(0), "max_size")? as usize;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
 
-- 
2.43.0


From 6c74156318c1ff2961e6f21c35fc5873af81fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 142/158] fix: perturb refuses an epsilon that f32 cannot hold

---
 src/stats/sample.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e191f02..a1333cf 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -113,6 +113,11 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
     match reference.dtype() {
         DataType::Float32 => {
             let (low, high) = (low as f32, high as f32);
+            if !(high - low).is_finite() {
+                return Err(PolarsError::ComputeError(
+                    "Input `epsilon` is too large for f32.".into(),
+                ));
+            }
             if low >= high {
                 return Ok(reference.clone()); // epsilon = 0
             }
-- 
2.43.0


From a211cc3d9cc565778267fa93e981a0df31c42ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 143/158] fix: pca and singular_values report a feature given
 twice

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 0c7014a..1b931ae 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -24,7 +24,7 @@ pub fn to_f64_matrix_without_nulls(
     inputs: &[Series],
     order: IndexOrder,
 ) -> PolarsResult<Array2<f64>> {
-    let df = DataFrame::from_iter(inputs.iter().map(|s| Column::Series(s.clone().into())));
+    let df = to_frame(inputs)?;
     let df = df.drop_nulls::<String>(None)?;
     df.to_ndarray::<Float64Type>(order)
 }
-- 
2.43.0


From 63b159dc34659e383d27cf4069a1097c1e888534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 144/158] fix: neighbour queries report masks that are not
 boolean

---
 src/num_ext/knn.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 32789a1..1f7b09d 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -116,7 +116,7 @@ fn pl_knn_avg(
 
     let id = inputs[0].f64().unwrap();
     let id = id.cont_slice()?;
-    let null_mask = inputs[1].bool().unwrap();
+    let null_mask = inputs[1].bool()?;
     let nrows = null_mask.len();
 
     // let data = series_to_ndarray(&inputs[2..], IndexOrder::C)?;
@@ -303,11 +303,11 @@ fn pl_knn_ptwise(
     let nrows = id.len();
 
     // True means keep
-    let keep_mask = inputs[1].bool().unwrap();
+    let keep_mask = inputs[1].bool()?;
 
     let mut inputs_offset = 2;
     let eval_mask = if skip_eval {
-        let eval_mask = inputs[2].bool().unwrap();
+        let eval_mask = inputs[2].bool()?;
         inputs_offset = 3;
         eval_mask
             .iter()
@@ -469,11 +469,11 @@ fn pl_knn_ptwise_w_dist(
     let id = id.cont_slice()?;
     let nrows = id.len();
 
-    let null_mask = inputs[1].bool().unwrap();
+    let null_mask = inputs[1].bool()?;
 
     let mut inputs_offset = 2;
     let eval_mask = if skip_eval {
-        let eval_mask = inputs[2].bool().unwrap();
+        let eval_mask = inputs[2].bool()?;
         inputs_offset = 3;
         eval_mask
             .iter()
-- 
2.43.0


From f6a3ca2b2c6b106573f9ee0891a9b2b75438d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 145/158] fix: xlogy with a literal has a value for every row

---
 src/num_ext/float_extras.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index f2fb1ee..55b70d6 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -3,7 +3,7 @@ use crate::stats_utils::gamma::digamma;
 /// trunc, fract, exp2, logit, expit, gamma,
 /// The logit, expit and gamma functions are as defined in SciPy
 use crate::utils::{first_field_output, float_output};
-use arity::binary_elementwise_values;
+use arity::broadcast_binary_elementwise_values;
 use num::traits::Float;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -280,7 +280,12 @@ fn pl_xlogy(inputs: &[Series]) -> PolarsResult<Series> {
     let s2 = &inputs[1];
     let ca1 = s1.f64().unwrap();
     let ca2 = s2.f64().unwrap();
-    let ca: Float64Chunked = binary_elementwise_values(ca1, ca2, xlogy::<f64>);
+    if s1.len() != s2.len() && s1.len() != 1 && s2.len() != 1 {
+        return Err(PolarsError::ShapeMismatch(
+            "Inputs must have the same length or one of them must be a scalar.".into(),
+        ));
+    }
+    let ca: Float64Chunked = broadcast_binary_elementwise_values(ca1, ca2, xlogy::<f64>);
     Ok(ca.into_series())
 }
 
-- 
2.43.0


From 9a4ddab48c35427159fc41500801cf965217829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 146/158] fix: random columns report parameters that have no
 rows

---
 src/stats/sample.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index a1333cf..675edf2 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -16,18 +16,19 @@ fn rng_from_seed(seed: Option<u64>) -> StdRng {
 }
 
 /// Parameters may be expressions, which may have no value
-fn non_null<T>(value: Option<T>, name: &str) -> PolarsResult<T> {
+fn non_null<T: PolarsNumericType>(ca: &ChunkedArray<T>, name: &str) -> PolarsResult<T::Native> {
+    let value = ca.iter().next().flatten();
     value.ok_or_else(|| PolarsError::ComputeError(format!("Input `{name}` is null.").into()))
 }
 
 #[polars_expr(output_type=Int32)]
 fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     let n = inputs[0].u32()?;
-    let n = non_null(n.get(0), "n")? as usize;
+    let n = non_null(n, "n")? as usize;
     let low = inputs[1].i32()?;
-    let mut low = non_null(low.get(0), "lower bound")?;
+    let mut low = non_null(low, "lower bound")?;
     let high = inputs[2].i32()?;
-    let mut high = non_null(high.get(0), "upper bound")?;
+    let mut high = non_null(high, "upper bound")?;
     if low == high {
         let out = Int32Chunked::from_vec("".into(), vec![low; n]);
         return Ok(out.into_series());
@@ -44,11 +45,11 @@ fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=UInt64)]
 fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = non_null(len.get(0), "length")? as usize;
+    let len = non_null(len, "length")? as usize;
     let n = inputs[1].u32()?;
-    let n = non_null(n.get(0), "n")?;
+    let n = non_null(n, "n")?;
     let p = inputs[2].f64()?;
-    let p = non_null(p.get(0), "p")?;
+    let p = non_null(p, "p")?;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
     let dist =
@@ -60,9 +61,9 @@ fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=Float64)]
 fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = non_null(len.get(0), "length")? as usize;
+    let len = non_null(len, "length")? as usize;
     let lambda = inputs[1].f64()?;
-    let lambda = non_null(lambda.get(0), "lambda")?;
+    let lambda = non_null(lambda, "lambda")?;
 
     let seed = inputs[2].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
@@ -81,11 +82,11 @@ fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=Float64)]
 fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let len: &ChunkedArray<UInt32Type> = inputs[0].u32()?;
-    let len = non_null(len.get(0), "length")? as usize;
+    let len = non_null(len, "length")? as usize;
     let low = inputs[1].f64()?;
-    let low = non_null(low.get(0), "lower bound")?;
+    let low = non_null(low, "lower bound")?;
     let high = inputs[2].f64()?;
-    let high = non_null(high.get(0), "upper bound")?;
+    let high = non_null(high, "upper bound")?;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
     if !(low < high && (high - low).is_finite()) {
@@ -104,9 +105,9 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
 fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
     let reference = &inputs[0];
     let low = inputs[1].f64()?;
-    let low = non_null(low.get(0), "lower bound")?;
+    let low = non_null(low, "lower bound")?;
     let high = inputs[2].f64()?;
-    let high = non_null(high.get(0), "upper bound")?;
+    let high = non_null(high, "upper bound")?;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
 
@@ -149,7 +150,7 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
 fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
     let reference = &inputs[0];
     let std_ = inputs[1].f64()?;
-    let std_ = non_null(std_.get(0), "std")?;
+    let std_ = non_null(std_, "std")?;
     if !std_.is_finite() {
         return Err(PolarsError::ComputeError(
             "Input standard deviation is not finite.".into(),
@@ -184,11 +185,11 @@ fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=Float64)]
 fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = non_null(len.get(0), "length")? as usize;
+    let len = non_null(len, "length")? as usize;
     let mean = inputs[1].f64()?;
-    let mean = mean.get(0).unwrap_or(0.);
+    let mean = mean.iter().next().flatten().unwrap_or(0.);
     let std_ = inputs[2].f64()?;
-    let std_ = std_.get(0).unwrap_or(1.);
+    let std_ = std_.iter().next().flatten().unwrap_or(1.);
 
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
@@ -210,11 +211,11 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
-    let len = non_null(len.get(0), "length")? as usize;
+    let len = non_null(len, "length")? as usize;
     let min_size = inputs[1].u32()?;
-    let min_size = non_null(min_size.get(0), "min_size")? as usize;
+    let min_size = non_null(min_size, "min_size")? as usize;
     let max_size = inputs[2].u32()?;
-    let max_size = non_null(max_size.get(0), "max_size")? as usize;
+    let max_size = non_null(max_size, "max_size")? as usize;
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
 
-- 
2.43.0


From 8808f9e5206e7bf5ee08a9bd843dbc2fff6c952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 147/158] fix: convolve reports a fill value that is null

---
 src/num_ext/convolve.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/num_ext/convolve.rs b/src/num_ext/convolve.rs
index 15d5386..023022a 100644
--- a/src/num_ext/convolve.rs
+++ b/src/num_ext/convolve.rs
@@ -208,6 +208,13 @@ fn pl_convolve(
         ));
     }
 
+    if s1.has_nulls() || s2.has_nulls() {
+        return Err(PolarsError::ComputeError(
+            "Convolution: nulls are found in the input (is the fill value null?) or the kernel."
+                .into(),
+        ));
+    }
+
     let input = s1.cont_slice().unwrap();
     let kernel = s2.cont_slice().unwrap();
 
-- 
2.43.0


From 76f19a595b5f31130fba54b2721dcf3df9b124d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 148/158] fix: parameters of plugins may be numpy scalars

---
 python/polars_ds/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/polars_ds/_utils.py b/python/polars_ds/_utils.py
index 8d4b3ad..14236ed 100644
--- a/python/polars_ds/_utils.py
+++ b/python/polars_ds/_utils.py
@@ -25,6 +25,9 @@ def pl_plugin(
     cast_to_supertype: bool = False,
     pass_name_to_apply: bool = False,
 ) -> pl.Expr:
+    if kwargs is not None:  # numpy scalars cannot be passed to the plugin
+        kwargs = {k: v.item() if hasattr(v, "item") else v for k, v in kwargs.items()}
+
     return register_plugin_function(
         plugin_path=_PLUGIN_PATH,
         args=args,
-- 
2.43.0


From b501f2ff050543a3a7bbe56c9ed20a03e936f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 149/158] fix: query_approx_entropy and query_sample_entropy
 accept numpy ratios

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 6fd742b..3e39783 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -547,7 +547,7 @@ def query_sample_entropy(
         raise ValueError("Input `m` must be > 1.")
 
     t = str_to_expr(ts).cast(pl.Float64)
-    r = ratio * t.std(ddof=0)
+    r = t.std(ddof=0) * ratio
     rows = t.len() - m + 1
 
     data = [r, t.slice(0, length=rows)]
@@ -608,7 +608,7 @@ def query_approx_entropy(
 
     t = str_to_expr(ts).cast(pl.Float64)
     if scale_by_std:
-        r: pl.Expr = filtering_level * t.std()
+        r: pl.Expr = t.std() * filtering_level
     else:
         r: pl.Expr = pl.lit(filtering_level, dtype=pl.Float64)
 
-- 
2.43.0


From b75aa87f851ae5f086f0f5c78cc9304fdcc24a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 150/158] fix: linear regressions accept more than one array

---
 python/polars_ds/exprs/expr_linear.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index bb9aef2..21523ed 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 import polars as pl
 import warnings
-from typing import List, Any, Literal
+from typing import List, Any, Iterable, Literal
 
 # Internal dependencies
 from polars_ds.typing import LRSolverMethods, NullPolicy
@@ -42,6 +42,16 @@ def lr_formula(s: Any) -> pl.Expr:
         )
 
 
+def lr_features(x: Iterable[Any]) -> List[pl.Expr]:
+    # Arrays have no names, but no two features may have the same name
+    return [
+        lr_formula(z)
+        if isinstance(z, (str, pl.Expr, pl.Series))
+        else lr_formula(z).alias(f"__array_{i}")
+        for i, z in enumerate(x)
+    ]
+
+
 def simple_lin_reg(
     x: str | pl.Expr,
     target: str | pl.Expr,
@@ -187,7 +197,7 @@ def lin_reg(
                 "last_target_idx": n_targets,
                 "l2_reg": l2_reg,
             }
-            cols.extend(lr_formula(z) for z in x)
+            cols.extend(lr_features(x))
             if return_pred:
                 return pl_plugin(
                     symbol=_lin_reg_expr_symbol("pl_lstsq_multi_pred"),
@@ -220,7 +230,7 @@ def lin_reg(
         else:
             cols = [lr_formula(target)]
 
-        cols.extend(lr_formula(z) for z in x)
+        cols.extend(lr_features(x))
 
         if return_pred:
             return pl_plugin(
@@ -307,7 +317,7 @@ def lin_reg_w_rcond(
     """
 
     cols = [lr_formula(target)]
-    cols.extend(lr_formula(z) for z in x)
+    cols.extend(lr_features(x))
     lr_kwargs = {
         "bias": add_bias,
         "null_policy": null_policy,
@@ -390,7 +400,7 @@ def recursive_lin_reg(
         raise ValueError("You must start with >= 1 rows for recursive lstsq.")
 
     cols = [lr_formula(target)]
-    features = [lr_formula(z) for z in x]
+    features = lr_features(x)
     if len(features) > start_with:
         warnings.warn(
             "# features > number of rows for the initial fit. Outputs may be off.", stacklevel=2
@@ -480,7 +490,7 @@ def rolling_lin_reg(
         raise ValueError("`window_size` must be >= 2.")
 
     cols = [lr_formula(target)]
-    features = [lr_formula(z) for z in x]
+    features = lr_features(x)
     if len(features) > window_size:
         raise ValueError("# features > window size. Linear regression is not well-defined.")
 
@@ -587,13 +597,13 @@ def lin_reg_report(
     t = lr_formula(target)
     if weights is None:
         cols = [t]
-        cols.extend(lr_formula(z) for z in x)
+        cols.extend(lr_features(x))
         symbol = _lin_reg_expr_symbol("pl_lin_reg_report")
 
     else:
         w = lr_formula(weights)
         cols = [w.cast(pl.Float64).rechunk(), t]
-        cols.extend(lr_formula(z) for z in x)
+        cols.extend(lr_features(x))
         symbol = _lin_reg_expr_symbol("pl_wls_report")
 
     return pl_plugin(
-- 
2.43.0


From ef593aeb342e7edea6281a2e4bd334a506dce394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 151/158] fix: haversine with literal coordinates has a value
 for every row

---
 src/num_ext/haversine.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index de6073b..7797f50 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -13,7 +13,22 @@ where
     T: PolarsFloatType,
     T::Native: Float,
 {
-    if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
+    // A coordinate of length 1 is the same for every row
+    let n = [x_lat.len(), x_long.len(), y_lat.len(), y_long.len()]
+        .into_iter()
+        .find(|&l| l != 1)
+        .unwrap_or(1);
+    let one_for_all = |ca: &ChunkedArray<T>| {
+        if ca.len() == 1 && n != 1 {
+            ca.new_from_index(0, n)
+        } else {
+            ca.clone()
+        }
+    };
+    let x_lat = &one_for_all(x_lat);
+    let x_long = &one_for_all(x_long);
+    let y_lat_long_are_scalars = y_lat.len() == 1 && y_long.len() == 1;
+    if y_lat_long_are_scalars && x_lat.len() == x_long.len() {
         let (e_lat, e_long) = match (y_lat.get(0), y_long.get(0)) {
             (Some(e_lat), Some(e_long)) => (e_lat, e_long),
             _ => return Ok(ChunkedArray::full_null(x_lat.name().clone(), x_lat.len())),
@@ -27,11 +42,12 @@ where
                 Some(haversine_elementwise(x_lat, x_long, e_lat, e_long))
             })
             .collect();
-        Ok(out)
-    } else if x_lat.len() == x_long.len()
-        && x_long.len() == y_lat.len()
-        && y_lat.len() == y_long.len()
-    {
+        return Ok(out);
+    }
+
+    let y_lat = &one_for_all(y_lat);
+    let y_long = &one_for_all(y_long);
+    if x_lat.len() == x_long.len() && x_long.len() == y_lat.len() && y_lat.len() == y_long.len() {
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
-- 
2.43.0


From 8684a2f359e155a48366d94d4afea04e794bd01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 152/158] fix: query_permute_entropy in a lazy group_by or
 rolling window

---
 python/polars_ds/exprs/ts_features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 3e39783..3dd5a81 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -765,7 +765,8 @@ def query_permute_entropy(
     if tau == 1:  # Fast track the most common use case
         return (
             pl.concat_list(t, *(t.shift(-i) for i in range(1, n_dims)))
-            .head(t.len() - n_dims + 1)
+            # Not .head, which Polars pushes down to the shifted columns, wrongly in a lazy group_by
+            .filter(pl.int_range(t.len()) < t.len() - n_dims + 1)
             .list.eval(pl.element().arg_sort())
             .alias("pattern")  # value_counts fails if the column is named "count"
             .value_counts()  # groupby and count, but returns a struct
@@ -776,7 +777,7 @@ def query_permute_entropy(
         return (
             # Elements of a vector are tau periods apart, and vectors start at every period
             pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
-            .head(t.len() - (n_dims - 1) * tau)
+            .filter(pl.int_range(t.len()) < t.len() - (n_dims - 1) * tau)
             .list.eval(pl.element().arg_sort())
             .alias("pattern")  # value_counts fails if the column is named "count"
             .value_counts()
-- 
2.43.0


From c8207d07d3f8754c4378dfd0567d7600d664b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 153/158] fix: t tests and normal_test hand NaN for the moments
 of a sample without values

The checks of the two earlier commits move to where the moments are taken.
---
 python/polars_ds/exprs/stats.py | 24 ++++++++++++++----------
 src/stats/normal_test.rs        |  4 ++--
 src/stats/t_test.rs             | 32 +++++++++++---------------------
 3 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 560dd34..13b6bc8 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -90,10 +90,11 @@ def ttest_ind(
     else:
         s1 = y1.filter(y1.is_finite())
         s2 = y2.filter(y2.is_finite())
-        m1 = s1.mean()
-        m2 = s2.mean()
-        v1 = s1.var()
-        v2 = s2.var()
+        # null, if nothing is left of a sample
+        m1 = s1.mean().fill_null(float("nan"))
+        m2 = s2.mean().fill_null(float("nan"))
+        v1 = s1.var().fill_null(float("nan"))
+        v2 = s2.var().fill_null(float("nan"))
         n1 = s1.len().cast(pl.UInt64)
         n2 = s2.len().cast(pl.UInt64)
         return pl_plugin(
@@ -121,9 +122,10 @@ def ttest_1samp(
     """
     y = str_to_expr(var1).cast(pl.Float64)
     s1 = y.filter(y.is_finite())
-    sm = s1.mean()
+    # null, if nothing is left of the sample
+    sm = s1.mean().fill_null(float("nan"))
     pm = pl.lit(pop_mean, dtype=pl.Float64)
-    var = s1.var()
+    var = s1.var().fill_null(float("nan"))
     cnt = s1.len().cast(pl.UInt64)
     alt = pl.lit(alternative, dtype=pl.String)
     return pl_plugin(
@@ -176,9 +178,10 @@ def ttest_ind_from_stats(
         )
     else:
         s1 = y.filter(y.is_finite())
-        m1 = s1.mean()
+        # null, if nothing is left of the sample
+        m1 = s1.mean().fill_null(float("nan"))
         m2 = pl.lit(mean, pl.Float64)
-        v1 = s1.var()
+        v1 = s1.var().fill_null(float("nan"))
         v2 = pl.lit(var, pl.Float64)
         n1 = s1.len().cast(pl.UInt64)
         n2 = pl.lit(cnt, pl.UInt64)
@@ -477,9 +480,10 @@ def normal_test(var: str | pl.Expr) -> pl.Expr:
     """
     y = str_to_expr(var)
     valid: pl.Expr = y.filter(y.is_finite())
-    skew = valid.skew()
+    # Both are null, if nothing is left
+    skew = valid.skew().fill_null(float("nan"))
     # Pearson Kurtosis, see here: https://en.wikipedia.org/wiki/D%27Agostino%27s_K-squared_test
-    kur = valid.kurtosis(fisher=False)
+    kur = valid.kurtosis(fisher=False).fill_null(float("nan"))
     return pl_plugin(
         symbol="pl_normal_test",
         args=[skew, kur, valid.count().cast(pl.UInt32)],
diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index 8113629..fca4eab 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -54,10 +54,10 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
 #[polars_expr(output_type_func=simple_stats_output)]
 fn pl_normal_test(inputs: &[Series]) -> PolarsResult<Series> {
     let skew = inputs[0].f64()?;
-    let skew = skew.get(0).unwrap_or(f64::NAN);
+    let skew = skew.get(0).unwrap();
 
     let kurtosis = inputs[1].f64()?;
-    let kurtosis = kurtosis.get(0).unwrap_or(f64::NAN);
+    let kurtosis = kurtosis.get(0).unwrap();
 
     let n = inputs[2].u32()?;
     let n = n.get(0).unwrap() as usize;
diff --git a/src/stats/t_test.rs b/src/stats/t_test.rs
index ce661ab..1dc1195 100644
--- a/src/stats/t_test.rs
+++ b/src/stats/t_test.rs
@@ -119,13 +119,13 @@ fn pl_ttest_2samp(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type_func=simple_stats_output)]
 fn pl_welch_t(inputs: &[Series]) -> PolarsResult<Series> {
     let mean1 = inputs[0].f64()?;
-    let mean1 = mean1.get(0).unwrap_or(f64::NAN);
+    let mean1 = mean1.get(0).unwrap();
     let mean2 = inputs[1].f64()?;
-    let mean2 = mean2.get(0).unwrap_or(f64::NAN);
+    let mean2 = mean2.get(0).unwrap();
     let var1 = inputs[2].f64()?;
-    let var1 = var1.get(0).unwrap_or(f64::NAN);
+    let var1 = var1.get(0).unwrap();
     let var2 = inputs[3].f64()?;
-    let var2 = var2.get(0).unwrap_or(f64::NAN);
+    let var2 = var2.get(0).unwrap();
     let n1 = inputs[4].u64()?;
     let n1 = n1.get(0).unwrap() as f64;
     let n2 = inputs[5].u64()?;
@@ -135,13 +135,8 @@ fn pl_welch_t(inputs: &[Series]) -> PolarsResult<Series> {
     let alt = alt.get(0).unwrap();
     let alt = stats::Alternative::from(alt);
 
-    // The input is sanitized, but nothing may be left of it.
-    let valid = mean1.is_finite() && mean2.is_finite() && var1.is_finite() && var2.is_finite();
-    if !valid {
-        return Err(PolarsError::ComputeError(
-            "T Test: Sample Mean/Std is found to be NaN or Inf.".into(),
-        ));
-    }
+    // No need to check for validity because input is sanitized.
+
     let (t, p) = welch_t(mean1, mean2, var1, var2, n1, n2, alt)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
@@ -151,11 +146,11 @@ fn pl_welch_t(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type_func=simple_stats_output)]
 fn pl_ttest_1samp(inputs: &[Series]) -> PolarsResult<Series> {
     let mean = inputs[0].f64()?;
-    let mean = mean.get(0).unwrap_or(f64::NAN);
+    let mean = mean.get(0).unwrap();
     let pop_mean = inputs[1].f64()?;
-    let pop_mean = pop_mean.get(0).unwrap_or(f64::NAN);
+    let pop_mean = pop_mean.get(0).unwrap();
     let var = inputs[2].f64()?;
-    let var = var.get(0).unwrap_or(f64::NAN);
+    let var = var.get(0).unwrap();
     let n = inputs[3].u64()?;
     let n = n.get(0).unwrap() as f64;
 
@@ -163,13 +158,8 @@ fn pl_ttest_1samp(inputs: &[Series]) -> PolarsResult<Series> {
     let alt = alt.get(0).unwrap();
     let alt = stats::Alternative::from(alt);
 
-    // The input is sanitized, but nothing may be left of it.
-    let valid = mean.is_finite() && pop_mean.is_finite() && var.is_finite();
-    if !valid {
-        return Err(PolarsError::ComputeError(
-            "T Test: Sample Mean/Std is found to be NaN or Inf.".into(),
-        ));
-    }
+    // No need to check for validity because input is sanitized.
+
     let (t, p) = ttest_1samp(mean, pop_mean, var, n, alt)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
-- 
2.43.0


From 9649de2161220894ad434606f7e8d7c9a8ac489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 154/158] fix: radii and distance bounds below machine epsilon
 are positive too

---
 src/arkadia/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arkadia/mod.rs b/src/arkadia/mod.rs
index 9413bdb..084fd76 100644
--- a/src/arkadia/mod.rs
+++ b/src/arkadia/mod.rs
@@ -101,7 +101,7 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
         if k == 0
             || (point.len() != self.dim())
             || (point.iter().any(|x| !x.is_finite()))
-            || max_dist_bound <= T::epsilon()
+            || max_dist_bound <= T::zero()
         {
             None
         } else {
@@ -134,7 +134,7 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
 
     fn within(&self, point: &[T], radius: T, sort: bool) -> Option<Vec<NB<T, A>>> {
         // radius is actually squared radius
-        if radius <= T::zero() + T::epsilon() || (point.iter().any(|x| !x.is_finite())) {
+        if radius <= T::zero() || (point.iter().any(|x| !x.is_finite())) {
             None
         } else {
             // Always allocate some.
@@ -153,7 +153,7 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
 
     fn within_count(&self, point: &[T], radius: T) -> Option<u32> {
         // radius is actually squared radius
-        if radius <= T::zero() + T::epsilon() || (point.iter().any(|x| !x.is_finite())) {
+        if radius <= T::zero() || (point.iter().any(|x| !x.is_finite())) {
             None
         } else {
             // Always allocate some.
-- 
2.43.0


From b520329ed6cde68673b9549c7b185e5617d4db10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 155/158] fix: intercepts below machine epsilon count

---
 src/linalg/lr_online_solvers.rs | 2 +-
 src/linalg/lr_solvers.rs        | 8 ++++----
 src/linalg/mod.rs               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 5969207..f7efa21 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -41,7 +41,7 @@ impl<T: RealField + Float> OnlineLR<T> {
         // If there is a bias, inv has one more row and column for it
         let has_bias = inv.ncols() == coeffs.len() + 1;
         if inv.nrows() != inv.ncols()
-            || (!has_bias && (inv.ncols() != coeffs.len() || bias.abs() > T::epsilon()))
+            || (!has_bias && (inv.ncols() != coeffs.len() || bias.abs() > T::zero()))
         {
             Err(LinalgErrors::DimensionMismatch)
         } else {
diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index b060f09..a870f93 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -27,12 +27,12 @@ impl<T: RealField + Float> LR<T> {
             solver: LRSolverMethods::default(),
             lambda: T::zero(),
             coefficients: faer::mat::Mat::from_fn(coeffs.len(), 1, |i, _| coeffs[i]),
-            has_bias: bias.abs() > T::epsilon(),
+            has_bias: bias.abs() > T::zero(),
         }
     }
 
     pub fn set_coeffs_and_bias(&mut self, coeffs: &[T], bias: T) {
-        self.has_bias = bias.abs() > T::epsilon();
+        self.has_bias = bias.abs() > T::zero();
         if self.has_bias {
             self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                 if i < coeffs.len() {
@@ -89,7 +89,7 @@ impl<T: RealField + Float> ElasticNet<T> {
     }
 
     pub fn from_values(coeffs: &[T], bias: T) -> Self {
-        let has_bias = bias.abs() > T::epsilon();
+        let has_bias = bias.abs() > T::zero();
         let coefficients = if has_bias {
             Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                 if i < coeffs.len() {
@@ -113,7 +113,7 @@ impl<T: RealField + Float> ElasticNet<T> {
     }
 
     pub fn set_coeffs_and_bias(&mut self, coeffs: &[T], bias: T) {
-        self.has_bias = bias.abs() > T::epsilon();
+        self.has_bias = bias.abs() > T::zero();
         self.coefficients = if self.has_bias {
             Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                 if i < coeffs.len() {
diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 9de2561..0f866ac 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -173,7 +173,7 @@ pub trait LinearRegression<T: RealField + Float> {
         } else {
             let mut result = X * self.coefficients();
             let bias = self.bias();
-            if self.has_bias() && self.bias().abs() > T::epsilon() {
+            if self.has_bias() && self.bias().abs() > T::zero() {
                 unsafe {
                     for i in 0..result.nrows() {
                         *result.get_mut_unchecked(i, 0) = *result.get_mut_unchecked(i, 0) + bias;
-- 
2.43.0


From e4312a346fc86110c3970cacae3f62e661560c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 156/158] fix: the words infinity, inf and nan are not numbers
 when stemming

---
 src/str_ext/snowball_stem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/str_ext/snowball_stem.rs b/src/str_ext/snowball_stem.rs
index 07fed5f..7cada1b 100644
--- a/src/str_ext/snowball_stem.rs
+++ b/src/str_ext/snowball_stem.rs
@@ -5,7 +5,9 @@ use pyo3_polars::derive::polars_expr;
 use std::fmt::Write;
 
 fn snowball(s: &str, no_stopwords: bool, output: &mut String) {
-    if s.parse::<f64>().is_ok() || (no_stopwords && EN_STOPWORDS.binary_search(&s).is_ok()) {
+    // "inf", "infinity" and "nan" parse as f64, but are words
+    let is_number = s.bytes().any(|b| b.is_ascii_digit()) && s.parse::<f64>().is_ok();
+    if is_number || (no_stopwords && EN_STOPWORDS.binary_search(&s).is_ok()) {
         write!(output, "{}", "").unwrap()
     } else {
         let mut env: SnowballEnv<'_> = SnowballEnv::create(s);
-- 
2.43.0


From ab8d222e0c6136c247622b0dcd356a47f8de4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 157/158] fix: pca and singular_values center on the rows they
 use when there are nulls

---
 python/polars_ds/exprs/num.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index fe6d75c..1cfeb24 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -294,7 +294,9 @@ def singular_values(
     """
     feats = [str_to_expr(f) for f in features]
     if center:
-        actual_inputs = [f - f.mean() for f in feats]
+        # Rows with nulls are dropped, and should not count in the means
+        complete = pl.all_horizontal(f.is_not_null() for f in feats)
+        actual_inputs = [f - f.filter(complete).mean() for f in feats]
     else:
         actual_inputs = feats
 
@@ -334,7 +336,9 @@ def pca(
     """
     feats = [str_to_expr(f) for f in features]
     if center:
-        actual_inputs = [f - f.mean() for f in feats]
+        # Rows with nulls are dropped, and should not count in the means
+        complete = pl.all_horizontal(f.is_not_null() for f in feats)
+        actual_inputs = [f - f.filter(complete).mean() for f in feats]
     else:
         actual_inputs = feats
 
-- 
2.43.0


From 4fea79d7784178bf3af23570d8f7e6d8aebb73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 158/158] fix: random_cols counts only the columns it can
 select from when keep has others

---
 python/polars_ds/sample_and_split/sample_and_split.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index d7d6ae9..4b563c4 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -186,12 +186,13 @@ def random_cols(
     """
     if keep is None:
         out = []
-        to_sample = combinations(all_columns, k)
+        pool = all_columns
     else:
         out = keep
-        to_sample = combinations((c for c in all_columns if c not in keep), k)
+        pool = [c for c in all_columns if c not in keep]
 
-    pool_size = len(all_columns) - len(out)
+    to_sample = combinations(pool, k)
+    pool_size = len(pool)
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-- 
2.43.0

