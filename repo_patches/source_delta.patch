From 6b25cf1b25cf7674b862fe50c169e9f706a3f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 001/136] fix: string distances and similarities return null,
 instead of panicking, when the only other string is null

---
 src/str_ext/fuzz.rs          |  4 +++-
 src/str_ext/hamming.rs       | 12 +++++++++---
 src/str_ext/jaro.rs          |  8 ++++++--
 src/str_ext/lcs_seq.rs       |  8 ++++++--
 src/str_ext/levenshtein.rs   | 20 +++++++++++++++-----
 src/str_ext/osa.rs           |  8 ++++++--
 src/str_ext/overlap.rs       |  4 +++-
 src/str_ext/sorensen_dice.rs |  4 +++-
 src/str_ext/str_jaccard.rs   |  4 +++-
 src/str_ext/tversky.rs       |  4 +++-
 10 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..53b85dd 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,9 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = RatioBatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..e4009e8 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,9 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +121,9 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +180,9 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Boolean));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..13cc718 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,9 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +57,9 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..e8498e9 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,9 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +45,9 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..486902d 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,9 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +74,9 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Boolean));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +139,9 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +161,9 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +188,9 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..dce9bdc 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,9 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +45,9 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..58a0820 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,9 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..bb75451 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,9 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..50f2272 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,9 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..79feff4 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,9 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From dff891e063f550cdea1795f078e7eb99195580bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 002/136] fix: str_lcs_seq(return_sim=True) calls the
 similarity plugin that exists

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From df40851a2a6634552291b596ef80857fcf4ea3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 003/136] fix: similar_to_vocab(metric='jw') does not pass an
 argument str_jw does not have

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..6ac3745 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From fe7c2c5fd9b7c2b2941631d22fe712b5b1c0887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 004/136] fix: str_fuzz declares the Float64 output it produces

---
 src/str_ext/fuzz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 53b85dd..6ade224 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 1985b2e24b1cd6a5d4e08431f9908aefd8c81a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 005/136] fix: str_fuzz against a single string is the Indel
 ratio, as it is against a column

---
 src/str_ext/fuzz.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 6ade224..eddd9e1 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -23,21 +23,21 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
         let Some(r) = ca2.get(0) else {
             return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
         };
-        let batched = RatioBatchComparator::new(r.chars());
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.normalized_similarity(s.chars()))
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From 6fb0e84330cd784b987db38f4f9733941aadf10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 006/136] fix: str_nearest does not take a null for the empty
 string

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..9ce859b 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.non_null_values_iter() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.non_null_values_iter() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From 46e09858a9c2ab932ce504be6ea71ab24eca5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 007/136] fix: the set similarities of the empty string with a
 non-empty one are 0, not NaN

---
 src/str_ext/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/mod.rs b/src/str_ext/mod.rs
index c7b2380..c9b9c03 100644
--- a/src/str_ext/mod.rs
+++ b/src/str_ext/mod.rs
@@ -29,7 +29,7 @@ pub fn str_set_sim_helper(w1: &str, w2: &str, ngram: usize) -> (usize, usize, us
 
     // as long as intersection size is 0, output will be correct
     if (w1_len == 0) || (w2_len == 0) {
-        return (0, 0, 0);
+        return (w1_len, w2_len, 0);
     }
 
     // Both are nonempty
-- 
2.43.0


From f95d724f4561ecebd9c03047652cbc3541deca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 008/136] fix: str_tokenize(stem=True) drops stop words and
 keeps each stem once, as documented

---
 python/polars_ds/exprs/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 6ac3745..276b221 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -270,7 +270,8 @@ def str_tokenize(c: str | pl.Expr, pattern: str = r"(?u)\b\w\w+\b", stem: bool =
     """
     out = str_to_expr(c).str.extract_all(pattern)
     if stem:
-        return out.list.eval(str_snowball(pl.element(), True).drop_nulls())
+        stems = str_snowball(pl.element(), True)
+        return out.list.eval(stems.filter(stems != "").unique(maintain_order=True))
     return out
 
 
-- 
2.43.0


From cbbc134aa93cb313faf1c0683002f92bc7ce50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 009/136] fix: a neighbour query with no eligible row finds no
 neighbours instead of panicking

---
 src/arkadia/kdt.rs        |  3 +--
 src/num_ext/entrophies.rs | 12 ++++++------
 src/num_ext/knn.rs        | 14 +++++++-------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..6182bfb 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -120,8 +120,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> KDT<'a, T, A> {
         Ok(tree)
     }
 
-    pub fn from_leaves_unchecked(data: &'a mut [Leaf<'a, T, A>], d: DIST<T>) -> Self {
-        let dim = data[0].dim();
+    pub fn from_leaves_unchecked(data: &'a mut [Leaf<'a, T, A>], dim: usize, d: DIST<T>) -> Self {
         let mut tree = KDT::new_empty(dim, suggest_capacity(dim), d);
         for leaf in data.iter().copied() {
             tree.add_unchecked(leaf, 0);
diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index b0d10ac..0b4890f 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -46,7 +46,7 @@ fn pl_approximate_entropy(
         .map(|sl| ((), &sl[..ncols_minus_1]).into())
         .collect::<Vec<_>>();
 
-    let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves, ncols_minus_1, DIST::LINF);
 
     let nrows_recip = (nrows as f64).recip();
     let phi_m = if can_parallel {
@@ -75,7 +75,7 @@ fn pl_approximate_entropy(
         .map(|sl| ((), sl).into())
         .collect::<Vec<_>>();
 
-    let tree = KDT::from_leaves_unchecked(&mut leaves2, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves2, ncols, DIST::LINF);
 
     let nrows_minus_1_recip = 1.0 / (nrows_minus_1 as f64);
     let phi_m1 = if can_parallel {
@@ -131,7 +131,7 @@ fn pl_sample_entropy(
         .collect::<Vec<_>>();
 
     // let mut leaves = matrix_to_empty_leaves(&data_1_view);
-    let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves, ncols_minus_1, DIST::LINF);
 
     let b = if can_parallel {
         data.chunks_exact(ncols)
@@ -155,7 +155,7 @@ fn pl_sample_entropy(
         .map(|sl| ((), sl).into())
         .collect::<Vec<_>>();
 
-    let tree = KDT::from_leaves_unchecked(&mut leaves2, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves2, ncols, DIST::LINF);
     let a = if can_parallel {
         data.chunks_exact(ncols)
             .take(nrows_minus_1)
@@ -241,11 +241,11 @@ fn pl_knn_entropy(
     let (cd, log_d) = if metric_str == "l2" {
         let half_d: f64 = d / 2.0;
         let cd = std::f64::consts::PI.powf(half_d) / (2f64.powf(d)) / (1.0 + half_d).gamma();
-        let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::L2);
+        let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, DIST::L2);
         (cd, _knn_entropy_helper(tree, &data, k, can_parallel))
     } else if metric_str == "inf" {
         let cd = 1.0;
-        let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::LINF);
+        let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, DIST::LINF);
         (cd, _knn_entropy_helper(tree, &data, k, can_parallel))
     } else {
         return Err(PolarsError::ComputeError(
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 603f58a..bb9b681 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -112,7 +112,7 @@ fn pl_knn_avg(
     let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, &null_mask);
 
     let tree = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
-        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, d)),
+        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, ncols, d)),
         Err(e) => Err(e),
     }
     .map_err(|err| PolarsError::ComputeError(err.into()))?;
@@ -228,7 +228,7 @@ fn pl_dist_from_kth_nb(
             let mut leaves: Vec<Leaf<f64, ()>> =
                 data.chunks_exact(ncols).map(|sl| ((), sl).into()).collect();
             // let mut leaves = row_major_slice_to_leaves(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             let nrows = data.len() / ncols;
             let ca = if can_parallel {
                 let n_threads = POOL.current_num_threads();
@@ -309,7 +309,7 @@ fn pl_knn_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, keep_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             Ok(knn_ptwise(
                 tree,
                 eval_mask,
@@ -474,7 +474,7 @@ fn pl_knn_ptwise_w_dist(
     let (ca_nb, ca_dist) = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             Ok(knn_ptwise_w_dist(
                 tree,
                 eval_mask,
@@ -572,7 +572,7 @@ fn pl_query_radius_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = slice_to_leaves(&data, ncols, id);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             Ok(query_radius_ptwise(tree, &data, radius, can_parallel, sort).into_series())
         }
         Err(e) => Err(PolarsError::ComputeError(e.into())),
@@ -677,7 +677,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
                 Ok(query_nb_cnt(tree, &data, r, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
@@ -688,7 +688,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
                 Ok(query_nb_cnt_w_radius(tree, &data, radius, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
-- 
2.43.0


From fde6f86b68a13422bf4456b26270db8253d1d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 010/136] fix: the infinity distance to a row with a missing
 coordinate is not the distance without it

---
 src/utils/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 360da3c..1855640 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -334,7 +334,15 @@ impl<T: Float + DistanceOps + 'static> DIST<T> {
                 .iter()
                 .copied()
                 .zip(a2.iter().copied())
-                .fold(T::zero(), |acc, (x, y)| acc.max((x - y).abs())),
+                .fold(T::zero(), |acc, (x, y)| {
+                    // NaN must propagate, so this cannot be acc.max(..)
+                    let d = (x - y).abs();
+                    if acc.is_nan() || acc > d {
+                        acc
+                    } else {
+                        d
+                    }
+                }),
 
             DIST::ANY(func) => func(a1, a2),
         }
-- 
2.43.0


From b27212de3c75d90dfb304f17bc4527b351249d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 011/136] fix: k-nearest queries find neighbours at exactly the
 maximal distance in every branch of the tree

---
 src/arkadia/kdt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index 6182bfb..c3c6907 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -357,7 +357,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
@@ -842,7 +842,7 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> SpatialQueries<'a, T
             };
 
             let dist_to_box = _closest_dist_to_box(&next.bounds, point, self.dim, self.d); // (min dist from the box to point, the next Tree)
-            if dist_to_box + epsilon < current_max {
+            if dist_to_box + epsilon <= current_max {
                 pending.push((dist_to_box, next));
             }
         }
-- 
2.43.0


From 8a11177bf2911be394f815bed988a0b92f6c3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 012/136] fix: KDTree.within and within_count return their
 result for a radius array of length 1

---
 python/polars_ds/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..24de5dc 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -84,8 +84,8 @@ class KDTree:
         parallel: bool = False,
     ) -> (np.ndarray, np.ndarray):
         """
-        Returns the K-nearest Neighbors and the distances in two matrices. The first
-        is their indices and the second is the corresponding distances.
+        Returns the distances to the K-nearest Neighbors and the neighbors in two matrices. The first
+        is the distances and the second is the corresponding indices.
 
         Note that if max_dist_bound is low, it is possible that you get < k nearest neighbors.
         In that case, The output matrices will still be the right size but values will be padded. u32::MAX will
@@ -152,7 +152,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(X, float(rad[0]), sort, return_dist, parallel)
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +185,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From 97cafbf9e6ebebf14bbe9249e21713571323738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 013/136] fix: within_dist_from(dist='l2') compares the
 distance, not its square, and rows with a null coordinate are never near a
 point

---
 python/polars_ds/exprs/expr_knn.py | 121 ++++++++++-------------------
 1 file changed, 41 insertions(+), 80 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..14ed55e 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -334,6 +334,44 @@ def query_knn_avg(
     )
 
 
+def _dist_from(oth: List[pl.Expr], pt: Iterable[float], dist: Distance) -> pl.Expr:
+    """
+    The distance of each row from the point. Null if any coordinate of the row is null.
+    """
+    if dist in ("l1", "l2", "sql2", "inf"):
+        diffs = [(e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)]
+        if dist == "l1":
+            return pl.sum_horizontal(diffs, ignore_nulls=False)
+        elif dist == "sql2":
+            return pl.sum_horizontal((d.pow(2) for d in diffs), ignore_nulls=False)
+        elif dist == "l2":
+            return pl.sum_horizontal((d.pow(2) for d in diffs), ignore_nulls=False).sqrt()
+        else:
+            has_all = pl.all_horizontal(d.is_not_null() for d in diffs)
+            return pl.when(has_all).then(pl.max_horizontal(diffs))
+    elif dist == "cosine":
+        x_list = list(pt)
+        x_norm = sum(z * z for z in x_list)
+        oth_norm = pl.sum_horizontal((e * e for e in oth), ignore_nulls=False)
+        dot = pl.sum_horizontal((xi * e for xi, e in zip(x_list, oth)), ignore_nulls=False)
+        return 1.0 - dot / (x_norm * oth_norm).sqrt()
+    elif dist in ("h", "haversine"):
+        from . import haversine
+
+        pt_as_list = list(pt)
+        if (len(pt_as_list) != 2) or (len(oth) < 2):
+            raise ValueError(
+                "For Haversine distance, input x must have dimension 2 and 2 other columns"
+                " must be provided as lat and long."
+            )
+
+        y_lat = pl.lit(pt_as_list[0], dtype=pl.Float64)
+        y_long = pl.lit(pt_as_list[1], dtype=pl.Float64)
+        return haversine(oth[0], oth[1], y_lat, y_long)
+    else:
+        raise ValueError(f"Unknown distance function: {dist}")
+
+
 def within_dist_from(
     *features: str | pl.Expr,
     pt: Sequence[float] | Iterable[float],
@@ -359,46 +397,7 @@ def within_dist_from(
     if not warn_len_compare(pt, oth):
         raise ValueError("Dimension does not match.")
 
-    if dist == "l1":
-        return (
-            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-            <= r
-        )
-    elif dist in ("l2", "sql2"):
-        return (
-            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
-            <= r
-        )
-    elif dist == "inf":
-        return (
-            pl.max_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-            <= r
-        )
-    elif dist == "cosine":
-        x_list = list(pt)
-        x_norm = sum(z * z for z in x_list)
-        oth_norm = pl.sum_horizontal(e * e for e in oth)
-        distN = (
-            1.0
-            - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
-        )
-        return distN <= r
-    elif dist in ("h", "haversine"):
-        from . import haversine
-
-        pt_as_list = list(pt)
-        if (len(pt_as_list) != 2) or (len(oth) < 2):
-            raise ValueError(
-                "For Haversine distance, input x must have dimension 2 and 2 other columns"
-                " must be provided as lat and long."
-            )
-
-        y_lat = pl.lit(pt_as_list[0], dtype=pl.Float64)
-        y_long = pl.lit(pt_as_list[1], dtype=pl.Float64)
-        dist_out = haversine(oth[0], oth[1], y_lat, y_long)
-        return dist_out <= r
-    else:
-        raise ValueError(f"Unknown distance function: {dist}")
+    return _dist_from(oth, pt, dist) <= r
 
 
 def is_knn_from(
@@ -426,46 +425,8 @@ def is_knn_from(
     if not warn_len_compare(pt, oth):
         raise ValueError("Dimension does not match.")
 
-    if dist == "l1":
-        dist_out = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
-        )
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    elif dist in ("l2", "sql2"):
-        dist_out = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
-        )
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    elif dist == "inf":
-        dist_out = pl.max_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
-        )
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    elif dist == "cosine":
-        x_list = list(pt)
-        x_norm = sum(z * z for z in x_list)
-        oth_norm = pl.sum_horizontal(e * e for e in oth)
-        dist_out = (
-            1.0
-            - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
-        )
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    elif dist in ("h", "haversine"):
-        from . import haversine
-
-        pt_as_list = list(pt)
-        if (len(pt_as_list) != 2) or (len(oth) < 2):
-            raise ValueError(
-                "For Haversine distance, input x must have dimension 2 and 2 other columns"
-                " must be provided as lat and long."
-            )
-
-        y_lat = pl.lit(pt_as_list[0], dtype=pl.Float64)
-        y_long = pl.lit(pt_as_list[1], dtype=pl.Float64)
-        dist_out = haversine(oth[0], oth[1], y_lat, y_long)
-        return dist_out <= dist_out.bottom_k(k=k).max()
-    else:
-        raise ValueError(f"Unknown distance function: {dist}")
+    dist_out = _dist_from(oth, pt, dist)
+    return dist_out <= dist_out.bottom_k(k=k).max()
 
 
 def query_radius_ptwise(
-- 
2.43.0


From c7fae27b2d106bfb0f1c240e8293c574d052f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 014/136] fix: query_nb_cnt of a single row with a null radius
 is null instead of a panic

---
 src/num_ext/knn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index bb9b681..56970a1 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -673,7 +673,10 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
     let nrows = data.len() / ncols;
 
     if radius.len() == 1 {
-        let r = radius.get(0).unwrap();
+        let r = match radius.get(0) {
+            Some(r) => r,
+            None => return Ok(UInt32Chunked::full_null("cnt".into(), nrows).into_series()),
+        };
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-- 
2.43.0


From 1c9e8b48f8fa834b4df6598e8df3d3ddc00c526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 015/136] fix: lin_reg_w_rcond compares singular values, not
 their squares, with the cut-off

---
 src/linalg/lr_solvers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..229a66e 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -213,11 +213,17 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
 
     let max_singular_value = singular_values.iter().copied().fold(T::min_value(), T::max);
     let threshold = rcond * max_singular_value;
+    // The eigenvalues of xtx carry a rounding error relative to the largest one
+    let noise = T::epsilon() * T::from(n).unwrap() * max_singular_value * max_singular_value;
     // Safe, because i <= n
     let mut s_inv = Mat::<T>::zeros(n, n);
     unsafe {
         for (i, v) in s.iter().copied().enumerate() {
-            *s_inv.get_mut_unchecked(i, i) = if v >= threshold { v.recip() } else { T::zero() };
+            *s_inv.get_mut_unchecked(i, i) = if singular_values[i] >= threshold && v > noise {
+                v.recip()
+            } else {
+                T::zero()
+            };
         }
     }
 
-- 
2.43.0


From ca65b820fa89d89f5e7d5269d6cc902653a2b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 016/136] fix: a linear model with a bias can be asked whether
 it is fitted before it is

---
 src/linalg/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..7c62d42 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,7 +107,7 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
+        if self.has_bias() && self.fitted_values().nrows() > 0 {
             let n = self.fitted_values().nrows() - 1;
             *self.fitted_values().get(n, 0)
         } else {
@@ -118,7 +118,7 @@ pub trait LinearRegression<T: RealField + Float> {
     /// Returns a copy of the coefficients
 
     fn coefficients(&self) -> MatRef<T> {
-        if self.has_bias() {
+        if self.has_bias() && self.fitted_values().nrows() > 0 {
             let n = self.fitted_values().nrows() - 1;
             self.fitted_values().get(0..n, ..)
         } else {
-- 
2.43.0


From ed282630915dcf7a2092fabe526e36ef768c0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 017/136] fix: LR.bias and OnlineLR.bias return the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From 56554c4f7a60ca8fd2160840e521472df8dd4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 018/136] fix: OnlineLR accepts the shapes of y its
 documentation lists

---
 python/polars_ds/linear_models.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..80b0e75 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -598,7 +598,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(X, y.reshape((-1, 1)))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
@@ -621,10 +621,7 @@ class OnlineLR:
             raise ValueError("You cannot update before the initial fit of the matrix.")
 
         x_2d = X.reshape((1, -1))
-        if isinstance(y, float):
-            y_2d = np.array([[y]])
-        else:
-            y_2d = y.reshape((1, 1))
+        y_2d = np.asarray(y, dtype=np.float64).reshape((1, 1))
 
         self._lr.update(x_2d, y_2d, c)
         return self
-- 
2.43.0


From c79e13ce4ff000f1051634a25a1eb129cb0f30fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 019/136] fix: OnlineLR.from_coeffs_bias_inverse loads the
 inverse of a model with a bias

---
 python/polars_ds/linear_models.py | 5 +++--
 src/linalg/lr_online_solvers.rs   | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 80b0e75..1cdaf95 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -544,10 +544,11 @@ class OnlineLR:
         bias
             The bias term
         inv
-            2D NumPy matrix representing the inverse of XtX in a regression problem.
+            2D NumPy matrix representing the inverse of XtX in a regression problem. If bias is not zero,
+            X includes the column of ones for the bias term, as the last column.
         """
         coefficients = np.ascontiguousarray(coeffs, dtype=np.float64).flatten()
-        lr = cls(has_bias=(bias > 0.0), lambda_=0.0)
+        lr = cls(has_bias=(bias != 0.0), lambda_=0.0)
         lr._lr.set_coeffs_bias_inverse(coefficients, bias, inv)
         return lr
 
diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..1b0283c 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        let has_bias = bias.abs() > T::epsilon();
+        let dim = coeffs.len() + has_bias as usize;
+        if dim != inv.ncols() || dim != inv.nrows() {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From f18505f37ae213a839b4e46aacb1ebc137e975ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 020/136] fix: OnlineLR.update scales the impact of a record by
 c, not 1/c

---
 src/linalg/lr_online_solvers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 1b0283c..c46da6c 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -325,7 +325,7 @@ pub fn woodbury_step<T: RealField + Float>(
 
     let u = &inverse * new_x.transpose(); // corresponding to u in the reference
                                           // right = left.transpose() by the fact that if A is symmetric, invertible, A-1 is also symmetric
-    let z = (c + *(new_x * &u).get(0, 0)).recip();
+    let z = (c.recip() + *(new_x * &u).get(0, 0)).recip();
     // Update the information matrix's inverse. Page 56 of the gatech reference
     faer::linalg::matmul::matmul(
         inverse,
-- 
2.43.0


From 8c9df7332d24cea2ab40ee8991dd135a56bfe09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 021/136] fix: predict_df gives null, not a prediction with the
 feature left out, where a feature is null

---
 python/polars_ds/linear_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 1cdaf95..ef291f2 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -294,7 +294,8 @@ class LR:
             )
 
         pred = pl.sum_horizontal(
-            beta * pl.col(c) for c, beta in zip(self.feature_names_in_, self._lr.coeffs)
+            (beta * pl.col(c) for c, beta in zip(self.feature_names_in_, self._lr.coeffs)),
+            ignore_nulls=False,
         )
         bias = self._lr.bias
         if bias != 0.0:
@@ -497,7 +498,8 @@ class ElasticNet:
             )
 
         pred = pl.sum_horizontal(
-            beta * pl.col(c) for c, beta in zip(self.feature_names_in_, self._en.coeffs)
+            (beta * pl.col(c) for c, beta in zip(self.feature_names_in_, self._en.coeffs)),
+            ignore_nulls=False,
         )
         bias = self._en.bias
         if bias != 0.0:
-- 
2.43.0


From 9d8ce13274d4e5c2ad3222b820bea2da70bb78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 022/136] fix: fit_df accepts integer columns and leaves the
 feature names alone when fitting fails

---
 python/polars_ds/linear_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index ef291f2..872ab40 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -255,14 +255,14 @@ class LR:
 
         df2 = (
             _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
+            .select(pl.col(*features, target).cast(pl.Float64))
             .collect()
         )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
-        self.feature_names_in_.clear()
+        self.fit(X, y)
         self.feature_names_in_ = list(features)
-        return self.fit(X, y)
+        return self
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         """
@@ -459,14 +459,14 @@ class ElasticNet:
         """
         df2 = (
             _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
+            .select(pl.col(*features, target).cast(pl.Float64))
             .collect()
         )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
-        self.feature_names_in_.clear()
+        self.fit(X, y)
         self.feature_names_in_ = list(features)
-        return self.fit(X, y)
+        return self
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         """
-- 
2.43.0


From 4100ad28322b9a236fa1a2b63de29fdc3390e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 023/136] fix: rolling and recursive ridge regressions do not
 penalise the bias, as lin_reg does not

---
 src/linalg/lr_online_solvers.rs      | 16 +++++++++++++---
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index c46da6c..9195d5c 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -68,6 +68,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         }
     }
 
+    /// Fits on data to which the column of ones has already been added if `has_bias`
+    /// (the bias is not regularized).
+    fn fit_with_bias_column(&mut self, X: MatRef<T>, y: MatRef<T>, has_bias: bool) {
+        (self.inv, self.coefficients) = faer_qr_lstsq_with_inv(X, y, self.lambda, has_bias);
+    }
+
     pub fn update_unchecked(&mut self, new_x: MatRef<T>, new_y: MatRef<T>, c: T) {
         if self.has_bias() {
             let ones = Mat::full(new_x.nrows(), 1, T::one());
@@ -160,6 +166,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -173,7 +180,8 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    // safe because things are checked in plugin / python functions.
+    online_lr.fit_with_bias_column(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -192,6 +200,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -205,7 +214,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    online_lr.fit_with_bias_column(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -231,6 +240,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -270,7 +280,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
             // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
             let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
             // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
+            online_lr.fit_with_bias_column(x0, y0, has_bias);
             coefficients.push(online_lr.fitted_values().to_owned());
             break;
         } else {
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..c2c340f 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -880,7 +880,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -979,9 +979,9 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..fef4825 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -828,7 +828,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -927,9 +927,9 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From 07a6916a31cee4f22781a8617775d63716d202fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 024/136] fix: a rolling regression recovers from windows that
 do not determine it

---
 src/linalg/lr_online_solvers.rs | 86 +++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 16 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 9195d5c..acdd8ea 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -74,6 +74,41 @@ impl<T: RealField + Float> OnlineLR<T> {
         (self.inv, self.coefficients) = faer_qr_lstsq_with_inv(X, y, self.lambda, has_bias);
     }
 
+    /// Fits on the rows without NaN of a window (see `fit_with_bias_column`).
+    fn refit_window(&mut self, x: MatRef<T>, y: MatRef<T>, has_bias: bool) {
+        let mut x_slice: Vec<T> = Vec::with_capacity(x.nrows() * x.ncols());
+        let mut y_slice: Vec<T> = Vec::with_capacity(x.nrows());
+        for i in 0..x.nrows() {
+            if !(has_nan(x.get(i..i + 1, ..)) || has_nan(y.get(i..i + 1, ..))) {
+                x_slice.extend(x.get(i, ..).iter());
+                y_slice.push(*y.get(i, 0));
+            }
+        }
+        let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), x.ncols());
+        let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
+        self.fit_with_bias_column(x0, y0, has_bias);
+    }
+
+    /// Whether the inverse of this window is accurate enough to be updated into that of the next one.
+    /// If the window is (close to) singular, then the errors in the inverse would stay forever.
+    fn can_carry_on(&self, x: MatRef<T>, y: MatRef<T>) -> bool {
+        let limit = T::epsilon().sqrt().sqrt().recip();
+        let half = T::from(0.5).unwrap();
+        let mut diag = vec![self.lambda; x.ncols()];
+        for i in 0..x.nrows() {
+            if !(has_nan(x.get(i..i + 1, ..)) || has_nan(y.get(i..i + 1, ..))) {
+                for (d, v) in diag.iter_mut().zip(x.get(i, ..).iter()) {
+                    *d = *d + *v * *v;
+                }
+            }
+        }
+        // These are >= 1 in exact arithmetic. NaN fails the comparison.
+        diag.into_iter().enumerate().all(|(k, d)| {
+            let inflation = d * *self.inv.get(k, k);
+            inflation >= half && inflation <= limit
+        })
+    }
+
     pub fn update_unchecked(&mut self, new_x: MatRef<T>, new_y: MatRef<T>, c: T) {
         if self.has_bias() {
             let ones = Mat::full(new_x.nrows(), 1, T::one());
@@ -217,14 +252,23 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     online_lr.fit_with_bias_column(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
+    let mut carry_on = online_lr.can_carry_on(x0, y0);
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
-        let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
-        let next_y = y.get(j..j + 1, ..); // 1 by 1
-        online_lr.update(next_x, next_y, T::one());
+        let window_x = x.get(j + 1 - n..j + 1, ..);
+        let window_y = y.get(j + 1 - n..j + 1, ..);
+        if carry_on {
+            // Add before removing, so that there are never fewer than n rows.
+            let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
+            let next_y = y.get(j..j + 1, ..); // 1 by 1
+            online_lr.update(next_x, next_y, T::one());
+
+            let remove_x = x.get(j - n..j - n + 1, ..);
+            let remove_y = y.get(j - n..j - n + 1, ..);
+            online_lr.update(remove_x, remove_y, T::one().neg());
+        } else {
+            online_lr.refit_window(window_x, window_y, has_bias);
+        }
+        carry_on = online_lr.can_carry_on(window_x, window_y);
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
@@ -294,25 +338,35 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
         return coefficients;
     }
     // right < xn, the problem must have been initialized (inv and weights are defined.)
+    let mut carry_on = online_lr.can_carry_on(x.get(left..right, ..), y.get(left..right, ..));
     for j in right..xn {
+        let window_x = x.get(j + 1 - n..j + 1, ..);
+        let window_y = y.get(j + 1 - n..j + 1, ..);
         let remove_x = x.get(j - n..j - n + 1, ..);
         let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
-        }
-
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
-        if !(has_nan(next_x) | has_nan(next_y)) {
-            non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
+        let is_added = !(has_nan(next_x) | has_nan(next_y));
+        let is_removed = !(has_nan(remove_x) | has_nan(remove_y));
+        non_null_cnt_in_window += is_added as usize;
+        non_null_cnt_in_window -= is_removed as usize;
+
+        if carry_on {
+            if is_added {
+                online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
+            }
+            if is_removed {
+                online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
+            }
+        } else if non_null_cnt_in_window >= m {
+            online_lr.refit_window(window_x, window_y, has_bias);
         }
 
         if non_null_cnt_in_window >= m {
+            carry_on = online_lr.can_carry_on(window_x, window_y);
             coefficients.push(online_lr.fitted_values().to_owned());
         } else {
+            carry_on = carry_on && online_lr.can_carry_on(window_x, window_y);
             coefficients.push(Mat::with_capacity(0, 0));
         }
     }
-- 
2.43.0


From f553297561f74267dbf11766411c2769cfb8109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 025/136] fix: recursive_lin_reg predicts the row itself when
 rows are skipped, and short frames give null

---
 src/linalg/lr_online_solvers.rs      | 9 +++++++++
 src/num_ext/linear_regression.rs     | 6 +++---
 src/num_ext/linear_regression_f32.rs | 6 +++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index acdd8ea..23484bb 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -204,6 +204,9 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        return vec![];
+    }
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
@@ -238,6 +241,9 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        return vec![];
+    }
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
@@ -287,6 +293,9 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        return vec![];
+    }
     let ncols = x.ncols();
     // x: size xn x m
     // y: size xn x 1
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index c2c340f..098673d 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -914,7 +914,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        let row = x.get(n - 1 + i..n + i, ..); // x doesn't have the dropped rows
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
@@ -927,7 +927,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = n.abs_diff(1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -994,7 +994,7 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let mut pred_builder: PrimitiveChunkedBuilder<Float64Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index fef4825..a24e697 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -862,7 +862,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        let row = x.get(n - 1 + i..n + i, ..); // x doesn't have the dropped rows
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
@@ -875,7 +875,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = n.abs_diff(1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -942,7 +942,7 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let mut pred_builder: PrimitiveChunkedBuilder<Float32Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
-- 
2.43.0


From 5a7b636e14c80934f28d3ef28d80e9f8bacc6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 026/136] fix: r2 and adj_r2 of the regression report use the
 rows that are used and count the bias once

---
 src/num_ext/linear_regression.rs     | 28 ++++++++++++++++------------
 src/num_ext/linear_regression_f32.rs | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 098673d..f4cbd50 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -579,10 +579,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float64)?;
-    let y_var = binding.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
+    // index 0 is y_var (not used), 1 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(2) + (has_bias) as usize,
@@ -616,9 +613,14 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
 
             // r2, adj_r2
             let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + y.get(i, 0)) / nf64;
+            // Total sum of squares, of the rows that are actually used
+            let tss = (0..nrows).fold(0., |acc, i| acc + (y.get(i, 0) - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // The bias is already counted in the degree of freedom
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -740,10 +742,7 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float64)?;
-    let y_var = binding2.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is y_var (not used), 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(3) + (has_bias) as usize,
@@ -785,9 +784,14 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
 
             // r2, adj_r2
             let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + y.get(i, 0)) / nf64;
+            // Total sum of squares, of the rows that are actually used
+            let tss = (0..nrows).fold(0., |acc, i| acc + (y.get(i, 0) - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            // The bias is already counted in the degree of freedom
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index a24e697..66d3c8a 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -528,10 +528,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float32)?;
-    let y_var = binding.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
+    // index 0 is y_var (not used), 1 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(2) + (has_bias) as usize,
@@ -565,9 +562,14 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
 
             // r2, adj_r2
             let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + y.get(i, 0)) / nf32;
+            // Total sum of squares, of the rows that are actually used
+            let tss = (0..nrows).fold(0., |acc, i| acc + (y.get(i, 0) - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // The bias is already counted in the degree of freedom
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = match se_type {
@@ -688,10 +690,7 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float32)?;
-    let y_var = binding2.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is y_var (not used), 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(3) + (has_bias) as usize,
@@ -733,9 +732,14 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
 
             // r2, adj_r2
             let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            let y_mean = (0..nrows).fold(0., |acc, i| acc + y.get(i, 0)) / nf32;
+            // Total sum of squares, of the rows that are actually used
+            let tss = (0..nrows).fold(0., |acc, i| acc + (y.get(i, 0) - y_mean).powi(2));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            // The bias is already counted in the degree of freedom
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From cfdc0eaa52f67b2250432ceaa89e03864cd3718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 027/136] fix: lasso gives a column of zeros the coefficient 0
 instead of NaN

---
 src/linalg/lr_solvers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 229a66e..b1574e4 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -353,7 +353,12 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let main_update = *xty.get(j, 0) - *(xtx_j * &beta).get(0, 0);
 
             // update beta(j, 0).
-            let after = soft_threshold_l1(main_update, lambda_l1) / norms[j];
+            // A column of zeros (and no l2 regularization) has no impact. Its coefficient remains 0.
+            let after = if norms[j] > T::zero() {
+                soft_threshold_l1(main_update, lambda_l1) / norms[j]
+            } else {
+                T::zero()
+            };
             *unsafe { beta.get_mut_unchecked(j, 0) } = after;
             max_change = (after - before).abs().max(max_change);
         }
-- 
2.43.0


From 0a9f4b96ff4c8c4b9497d59abdaef536df5bdc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 028/136] fix: lasso with a bias does not stop before the bias
 has converged

---
 src/linalg/lr_solvers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index b1574e4..59fc271 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -368,7 +368,9 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            let before = *unsafe { beta.get_unchecked(n1, 0) };
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
+            max_change = (ss - before).abs().max(max_change);
         }
         converge = max_change < tol;
         if converge {
-- 
2.43.0


From 2cd8eca1acc537ff2301b0515a7dde6819cf487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 029/136] fix: query_confusion_matrix divides the counts as
 floats, not as integers

---
 src/num_ext/tp_fp.rs | 55 +++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..820241a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -302,6 +302,14 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+/// The ratio as a float, and NaN when dividing by zero
+fn ratio(numerator: Expr, denominator: Expr) -> Expr {
+    let denominator = denominator.cast(DataType::Float64);
+    when(denominator.clone().eq(lit(0.0)))
+        .then(lit(f64::NAN))
+        .otherwise(numerator.cast(DataType::Float64) / denominator)
+}
+
 #[polars_expr(output_type_func=bcm_output)]
 fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
     // The combined_series is (lit(2) * col("y_true") + col("y_pred")).alias("y")
@@ -330,36 +338,42 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             (col("fp") + col("tn")).alias("n"),
         ])
         .with_columns([
-            (col("tp") / col("p")).alias("tpr"),
-            (col("fp") / col("n")).alias("fpr"),
-            (col("tp") / (col("tp") + col("fp"))).alias("precision"),
-            (col("fn") / (col("fn") + col("tn"))).alias("false_omission_rate"),
-            (col("p") / (col("p") + col("n"))).alias("prevalence"),
-            (col("tp") / (col("tp") + col("fn") + col("fp"))).alias("threat_score"),
+            ratio(col("tp"), col("p")).alias("tpr"),
+            ratio(col("fp"), col("n")).alias("fpr"),
+            ratio(col("tp"), col("tp") + col("fp")).alias("precision"),
+            ratio(col("fn"), col("fn") + col("tn")).alias("false_omission_rate"),
+            ratio(col("p"), col("p") + col("n")).alias("prevalence"),
+            ratio(col("tp"), col("tp") + col("fn") + col("fp")).alias("threat_score"),
         ])
         .with_columns([
-            (lit(1) - col("tpr")).alias("fnr"),
-            (lit(1) - col("fpr")).alias("tnr"),
-            (lit(1) - col("false_omission_rate")).alias("npv"),
-            (lit(1) - col("precision")).alias("fdr"),
+            (lit(1.0) - col("tpr")).alias("fnr"),
+            (lit(1.0) - col("fpr")).alias("tnr"),
+            (lit(1.0) - col("false_omission_rate")).alias("npv"),
+            (lit(1.0) - col("precision")).alias("fdr"),
         ])
         .with_columns([
-            (col("tpr") / col("fpr")).alias("plr"),
-            (col("fnr") / col("tnr")).alias("nlr"),
-            (col("tpr") + col("tnr") - lit(1)).alias("informedness"),
+            ratio(col("tpr"), col("fpr")).alias("plr"),
+            ratio(col("fnr"), col("tnr")).alias("nlr"),
+            (col("tpr") + col("tnr") - lit(1.0)).alias("informedness"),
             (col("precision") - col("false_omission_rate")).alias("markedness"),
-            (((col("tpr") * col("fpr")).sqrt() - col("fpr")) / (col("tpr") - col("fpr")))
-                .alias("prevalence_threshold"),
-            ((col("tpr") + col("tnr")) / lit(2)).alias("balanced_accuracy"),
-            ((lit(2) * col("precision") * col("tpr")) / (col("precision") + col("tpr")))
-                .alias("f1"),
+            ratio(
+                (col("tpr") * col("fpr")).sqrt() - col("fpr"),
+                col("tpr") - col("fpr"),
+            )
+            .alias("prevalence_threshold"),
+            ((col("tpr") + col("tnr")) / lit(2.0)).alias("balanced_accuracy"),
+            ratio(
+                lit(2.0) * col("precision") * col("tpr"),
+                col("precision") + col("tpr"),
+            )
+            .alias("f1"),
             ((col("precision") * col("tpr")).sqrt()).alias("folkes_mallows_index"),
             ((col("tpr") * col("tnr") * col("precision") * col("npv")).sqrt()
                 - (col("fnr") * col("fpr") * col("false_omission_rate") * col("fdr")).sqrt())
             .alias("mcc"),
-            ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
+            ratio(col("tp") + col("tn"), col("p") + col("n")).alias("acc"),
         ])
-        .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([ratio(col("plr"), col("nlr")).alias("dor")])
         .select(&[
             col("tp"),
             col("tn"),
@@ -387,7 +401,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From 362a3767dde882a327fb1e86963751946c216e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 030/136] fix: rows with a null are not counted in the
 confusion matrix

---
 src/num_ext/tp_fp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 820241a..cb84a10 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -183,9 +183,9 @@ fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
     // The combined_series is (lit(2) * col("y_true") + col("y_pred")).alias("y")
     // 0 is tn, 1 is fp, 2 is fn, 3 is tp
     // At Python side, actual and pred columns were turned into boolean first. So
-    // no invalid indices will happen.
+    // no invalid indices will happen. A row with a null on either side is not counted.
     let mut output = [0u32; 4];
-    for i in combined_series.into_no_null_iter() {
+    for i in combined_series.iter().flatten() {
         let j = i % 4; // to make this safe
         output[j as usize] += 1;
     }
-- 
2.43.0


From a4b3c83941bf6f1bde7e992a16b920ea8aa76be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 031/136] fix: query_mcc multiplies the counts as floats, which
 cannot overflow

---
 src/num_ext/tp_fp.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index cb84a10..7e0acfe 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -198,17 +198,17 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let combined_series = combined_series.u32()?;
     let cm = binary_confusion_matrix(combined_series);
 
-    let n00 = cm[0];
-    let n01 = cm[1];
-    let n10 = cm[2];
-    let n11 = cm[3];
+    let n00 = cm[0] as f64;
+    let n01 = cm[1] as f64;
+    let n10 = cm[2] as f64;
+    let n11 = cm[3] as f64;
 
-    let n1_ = (n11 + n10) as f64;
-    let n_1 = (n11 + n01) as f64;
-    let n0_ = (n01 + n00) as f64;
-    let n_0 = (n10 + n00) as f64;
+    let n1_ = n11 + n10;
+    let n_1 = n11 + n01;
+    let n0_ = n01 + n00;
+    let n_0 = n10 + n00;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = (n11 * n00 - n10 * n01) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From e8f966cdaf4af402da9a1056c80696cce0b5c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 032/136] fix: ROC AUC and average precision count the rows at
 the greatest score

---
 src/num_ext/tp_fp.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 7e0acfe..2a5b09a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -87,6 +87,15 @@ fn tp_fp_frame(
     }
 }
 
+/// The rates at each threshold, and then 0: above the greatest threshold nothing is predicted positive.
+/// Without this point the rows at the greatest threshold would not count.
+fn with_origin(rates: &Float64Chunked) -> Vec<f64> {
+    rates
+        .into_no_null_iter()
+        .chain(std::iter::once(0.))
+        .collect()
+}
+
 #[polars_expr(output_type_func=combo_output)]
 fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
@@ -120,13 +129,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     // ROC AUC
-    let y = tpr.f64().unwrap();
-    let x = fpr.f64().unwrap();
+    let y = with_origin(tpr.f64()?);
+    let x = with_origin(fpr.f64()?);
 
-    let y = y.cont_slice()?; // Zero copy
-    let x = x.cont_slice()?; // Zero copy
-
-    let auc = -super::trapz::trapz(y, x);
+    let auc = -super::trapz::trapz(&y, &x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -230,14 +236,10 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let tpr = frame.drop_in_place("tpr").unwrap();
     let fpr = frame.drop_in_place("fpr").unwrap();
 
-    // Should be contiguous. No need to rechunk
-    let y = tpr.f64().unwrap();
-    let x = fpr.f64().unwrap();
-
-    let y = y.cont_slice()?;
-    let x = x.cont_slice()?;
+    let y = with_origin(tpr.f64()?);
+    let x = with_origin(fpr.f64()?);
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = -super::trapz::trapz(&y, &x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From ab03d1d4ea2e410730a243c2d0d16d652cee5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 033/136] fix: query_binary_metrics accepts a threshold above
 every score

---
 src/num_ext/tp_fp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 2a5b09a..efe9c5f 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -143,9 +143,9 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
-    // Precision & Recall & F
+    // Precision & Recall & F. Above the greatest threshold nothing is predicted positive
     let recall = y[index];
-    let precision = precision[index];
+    let precision = precision.get(index).copied().unwrap_or(f64::NAN);
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
-- 
2.43.0


From 84560f729c03a94c717444f640cc613d63735ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 034/136] fix: binary metrics without a positive class are
 structs of NaN with the declared fields

---
 src/num_ext/tp_fp.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index efe9c5f..117d7c2 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,8 +9,8 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
-    let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
+    let average_precision = Field::new("average_precision".into(), DataType::Float64);
+    let v: Vec<Field> = vec![precision, recall, f, average_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
@@ -107,7 +107,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nans = ["precision", "recall", "f", "average_precision", "roc_auc"]
+            .map(|name| Series::from_vec(name.into(), vec![f64::NAN]));
+        let out = StructChunked::from_series("metrics".into(), 1, nans.iter())?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
@@ -167,12 +170,17 @@ fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
     if positive_cnt == 0 {
+        let threshold = Series::from_vec("threshold".into(), vec![f64::NAN]);
         let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
         let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
         let ca = StructChunked::from_columns(
             "tpr_fpr".into(),
             1,
-            &[tpr.into_column(), fpr.into_column()],
+            &[
+                threshold.into_column(),
+                tpr.into_column(),
+                fpr.into_column(),
+            ],
         )?;
         Ok(ca.into_series())
     } else {
-- 
2.43.0


From 1a663251d0e5d4c31f5dc5a85805afd3ce2266f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 035/136] fix: binary metrics accept scores of any numeric type

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 117d7c2..b3a7a9e 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -45,7 +45,7 @@ fn tp_fp_frame(
     // Start computing
     let n = predicted.len() as u32;
     let df = df!(
-        "threshold" => predicted,
+        "threshold" => predicted.cast(&DataType::Float64)?,
         "actual" => actual
     )?;
 
-- 
2.43.0


From c752b98721363a7f35b124af1b4a258392506476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 036/136] fix: error metrics subtract and square integer
 columns as floats, which cannot wrap around

---
 python/polars_ds/exprs/metrics.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..5922747 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -67,8 +67,8 @@ def query_r2(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     ss_res = diff.dot(diff)
     diff2 = a - a.mean()
@@ -89,8 +89,8 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     p
         The number of explanatory variables
     """
-    actual_expr = str_to_expr(actual)
-    pred_expr = str_to_expr(pred)
+    actual_expr = str_to_expr(actual).cast(pl.Float64)
+    pred_expr = str_to_expr(pred).cast(pl.Float64)
     diff = actual_expr - pred_expr
     ss_res = diff.dot(diff)
     diff2 = actual_expr - actual_expr.mean()
@@ -104,7 +104,7 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     """
     Computes log cosh of the the prediction error, which is a smooth variation of MAE (L1 loss).
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (p - a).cosh().log().sum() / a.count()
     return (p - a).cosh().log().sum()
@@ -121,7 +121,7 @@ def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -
     pred
         An expression represeting the column with predicted probability.
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
     temp = (a - p).abs()
     return (
         pl.when(temp <= delta).then(0.5 * temp.pow(2)).otherwise(delta * (temp - 0.5 * delta)).sum()
@@ -142,8 +142,8 @@ def query_l2(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     if normalize:
         return diff.dot(diff) / a.count()
@@ -163,8 +163,8 @@ def query_l1(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N. Nulls won't be counted in N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (a - p).abs().sum() / a.count()
     return (a - p).abs().sum()
@@ -181,8 +181,8 @@ def query_l_inf(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     return (a - p).abs().max()
 
 
@@ -233,8 +233,8 @@ def query_mape(actual: str | pl.Expr, pred: str | pl.Expr, weighted: bool = Fals
     weighted
         If true, computes wMAPE in the wikipedia article
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if weighted:
         return (a - p).abs().sum() / a.abs().sum()
     else:
@@ -256,8 +256,8 @@ def query_smape(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     numerator = (a - p).abs()
     denominator = a.abs() + p.abs()
     return (numerator / denominator).sum() / a.count()
@@ -299,8 +299,8 @@ def query_mase(
     if freq < 1:
         raise ValueError("Input `freq` must be >= 1.")
 
-    a: pl.Expr = str_to_expr(actual)
-    p: pl.Expr = str_to_expr(pred)
+    a: pl.Expr = str_to_expr(actual).cast(pl.Float64)
+    p: pl.Expr = str_to_expr(pred).cast(pl.Float64)
 
     if isinstance(train, float):
         if use_mean:
@@ -311,7 +311,7 @@ def query_mase(
         return numerator / pl.lit(train)
 
     else:
-        train_expr = str_to_expr(train)
+        train_expr = str_to_expr(train).cast(pl.Float64)
         if use_mean:
             numerator = (a - p).abs().mean()
             denom = train_expr.diff(n=freq).abs().mean()
-- 
2.43.0


From 06b1a861a318f4406b40365ebf78f6c5fabb4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 037/136] fix: calculate_ndcg groups by the column it is given

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 5922747..9e2aa4d 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on=group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 8e798df46974e6fb06aeb6263723beb3eb90edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 038/136] fix: psi_discrete pairs each category with its own
 count

---
 python/polars_ds/exprs/num.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..2968d84 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -514,7 +514,8 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        # Sorted, because the counts and the categories may be evaluated separately
+        temp = new_.value_counts(sort=True).struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -525,7 +526,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts(sort=True).struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From 1e39dc2c769102426a0467b9ed1cdc02ca5ee309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 039/136] fix: woe and info_value leave out the targets of the
 rows whose value they leave out

---
 python/polars_ds/exprs/num.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 2968d84..2b3a5bd 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -617,9 +617,10 @@ def woe(x: str | pl.Expr, target: str | pl.expr | Iterable[float], n_bins: int =
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     return pl_plugin(symbol="pl_woe_discrete", args=[brk, t], changes_length=True)
 
@@ -687,9 +688,10 @@ def info_value(
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     out = pl_plugin(symbol="pl_iv", args=[brk, t], changes_length=True)
     return out.struct.field("iv").sum() if return_sum else out
-- 
2.43.0


From 2bf87a9f99ba4ffc6af670581245447e949a2e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 040/136] fix: psi_w_breakpoints accepts columns and
 breakpoints of any numeric type

---
 python/polars_ds/exprs/num.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 2b3a5bd..0d3018e 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -585,10 +585,14 @@ def psi_w_breakpoints(
     if len(breakpoints) == 0:
         raise ValueError("Breakpoints is empty.")
 
-    bp = breakpoints + [float("inf")]
+    bp = [*breakpoints, float("inf")]
     return pl_plugin(
         symbol="pl_psi_w_bps",
-        args=[x.rechunk(), y.rechunk(), pl.Series(values=bp)],
+        args=[
+            x.cast(pl.Float64).rechunk(),
+            y.cast(pl.Float64).rechunk(),
+            pl.Series(values=bp, dtype=pl.Float64, strict=False),
+        ],
         changes_length=True,
     ).alias("psi_report")
 
-- 
2.43.0


From da2dec41787f3584775e7610f426788f6905f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 041/136] fix: psi counts new values above the greatest
 baseline bin

---
 src/num_ext/psi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..9a88cbe 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -106,12 +106,16 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
     let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
+    let mut ref_brk = binding.cont_slice().unwrap().to_vec();
+    // No baseline value may be above the last break, but new values may
+    if let Some(last) = ref_brk.last_mut() {
+        *last = f64::INFINITY;
+    }
     let binding = cnt.rechunk();
     let ref_cnt = binding.cont_slice().unwrap();
 
-    let new_cnt = psi_with_bps_helper(data_new, ref_brk);
-    let psi_report = psi_frame(ref_brk, "<=", ref_cnt, &new_cnt)?.collect()?;
+    let new_cnt = psi_with_bps_helper(data_new, &ref_brk);
+    let psi_report = psi_frame(&ref_brk, "<=", ref_cnt, &new_cnt)?.collect()?;
 
     Ok(psi_report.into_struct("".into()).into_series())
 }
-- 
2.43.0


From fc21f1604ca9be71ac6fb52fd658fe755796909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 042/136] fix: psi_discrete treats null as one category

---
 src/num_ext/psi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 9a88cbe..e55ffb6 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -138,7 +138,10 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            JoinArgs {
+                join_nulls: true,
+                ..JoinArgs::new(JoinType::Full)
+            },
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From ba84c8a1876d979046a071343e824094233d030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 043/136] fix: psi_discrete declares the fields it returns

---
 src/num_ext/psi.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index e55ffb6..761afb8 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -120,8 +120,19 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(psi_report.into_struct("".into()).into_series())
 }
 
+fn psi_discrete_output(fields: &[Field]) -> PolarsResult<Field> {
+    let v: Vec<Field> = vec![
+        Field::new("baseline_category".into(), fields[2].dtype().clone()),
+        Field::new("actual_category".into(), fields[0].dtype().clone()),
+        Field::new("baseline_pct".into(), DataType::Float64),
+        Field::new("actual_pct".into(), DataType::Float64),
+        Field::new("psi_bin".into(), DataType::Float64),
+    ];
+    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+}
+
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
-- 
2.43.0


From 469e66fff7821cdb4d857d93f541b405fd4fdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 044/136] fix: query_log_cosh does not overflow on large errors

---
 python/polars_ds/exprs/metrics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 9e2aa4d..d1832eb 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 import numpy as np
 import polars as pl
 
@@ -105,9 +106,12 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     Computes log cosh of the the prediction error, which is a smooth variation of MAE (L1 loss).
     """
     a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
+    diff = (p - a).abs()
+    # log(cosh(x)) without overflow when x is large
+    log_cosh = diff + (-2.0 * diff).exp().log1p() - math.log(2.0)
     if normalize:
-        return (p - a).cosh().log().sum() / a.count()
-    return (p - a).cosh().log().sum()
+        return log_cosh.sum() / a.count()
+    return log_cosh.sum()
 
 
 def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -> pl.Expr:
-- 
2.43.0


From d706dfa7bd14ba0c8cd0acff5d0adb04a2df55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 045/136] fix: psi works in a group or window context

---
 python/polars_ds/exprs/num.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 0d3018e..4172137 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -454,8 +454,8 @@ def psi(
         base = str_to_expr(baseline)
         valid_ref = base.filter(base.is_finite()).cast(pl.Float64)
     else:
-        temp = pl.lit(pl.Series(values=baseline, dtype=pl.Float64))
-        valid_ref = temp.filter(temp.is_finite())
+        temp = pl.Series(values=baseline, dtype=pl.Float64)
+        valid_ref = pl.lit(temp.filter(temp.is_finite()))
 
     vc = (
         valid_ref.qcut(n_bins, left_closed=False, allow_duplicates=True, include_breaks=True)
@@ -464,8 +464,12 @@ def psi(
         )  # Use "breakpoints" in the future. Skip this rename. After polars v1
         .struct.field("brk")
         .value_counts()
+        .struct.rename_fields(["brk", "count"])
         .sort()
     )
+    if not isinstance(baseline, (str, pl.Expr)):
+        # Evaluate now, because in a group context qcut treats a literal as one value at a time
+        vc = pl.lit(pl.select(vc.alias("psi_ref")).to_series())
 
     # breakpoints learned from ref
     brk = vc.struct.field("brk")  # .cast(pl.Float64)
-- 
2.43.0


From f90112a2eb21be912da92b3beb99df3cc97e4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 046/136] fix: geometric means call an existing polars method

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..93e8735 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -747,7 +747,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -767,9 +767,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From 3af469f1d7d2179f57dd5316cc6c42bbed94860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 047/136] fix: weighted_hmean uses the weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 93e8735..bc81934 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -731,7 +731,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(pl.lit(1.0, dtype=pl.Float64) / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From 2e8e3cafc3ab918fd019e80d5c3c4e01b82e04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 048/136] fix: weighted_corr normalises by the variance of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index bc81934..1112212 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -875,7 +875,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From 197178d4de0364a09c506508d847137798f95eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 049/136] fix: cosine_sim divides by the norms

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 1112212..9704539 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -893,7 +893,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From b4bd51938206160c5101b710e0152ee5f7018fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 050/136] fix: xi_corr ranks unsigned columns

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 9704539..9343706 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -1012,7 +1012,7 @@ def xi_corr(
     args = [
         xx.rank(method="random", seed=seed),
         yy.rank(method="max").cast(pl.Float64),
-        (-yy).rank(method="max").cast(pl.Float64),
+        yy.rank(method="max", descending=True).cast(pl.Float64),
     ]
     if return_p:
         return pl_plugin(
-- 
2.43.0


From 17989a9b74027a2f8c3ce2dfff0f66c2ed2f5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 051/136] fix: t tests and ks_2samp accept columns of any
 numeric type

---
 python/polars_ds/exprs/stats.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 9343706..44e2304 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -75,7 +75,7 @@ def ttest_ind(
         If true, perform standard student t 2 sample test. Otherwise, perform Welch's
         t test.
     """
-    y1, y2 = str_to_expr(var1), str_to_expr(var2)
+    y1, y2 = str_to_expr(var1).cast(pl.Float64), str_to_expr(var2).cast(pl.Float64)
     if equal_var:
         m1 = y1.mean()
         m2 = y2.mean()
@@ -119,7 +119,7 @@ def ttest_1samp(
     alternative : {"two-sided", "less", "greater"}
         Alternative of the hypothesis test
     """
-    y = str_to_expr(var1)
+    y = str_to_expr(var1).cast(pl.Float64)
     s1 = y.filter(y.is_finite())
     sm = s1.mean()
     pm = pl.lit(pop_mean, dtype=pl.Float64)
@@ -162,7 +162,7 @@ def ttest_ind_from_stats(
         If true, perform standard student t 2 sample test. Otherwise, perform Welch's
         t test.
     """
-    y = str_to_expr(var1)
+    y = str_to_expr(var1).cast(pl.Float64)
     if equal_var:
         m1 = y.mean()
         m2 = pl.lit(mean, pl.Float64)
@@ -226,11 +226,11 @@ def ks_2samp(
     if is_binary:
         z1 = y2.filter(y1 == 1)
         z2 = y2.filter(y1 == 0)
-        z1 = z1.filter(z1.is_finite()).sort()
-        z2 = z2.filter(z2.is_finite()).sort()
+        z1 = z1.filter(z1.is_finite()).cast(pl.Float64).sort()
+        z2 = z2.filter(z2.is_finite()).cast(pl.Float64).sort()
     else:
-        z1 = y1.filter(y1.is_finite()).sort()
-        z2 = y2.filter(y2.is_finite()).sort()
+        z1 = y1.filter(y1.is_finite()).cast(pl.Float64).sort()
+        z2 = y2.filter(y2.is_finite()).cast(pl.Float64).sort()
 
     return pl_plugin(
         symbol="pl_ks_2samp",
-- 
2.43.0


From 32f76fe5467ea091c1ae1dc83becddd95734f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 052/136] fix: ks_2samp answers for exactly 30 values, as
 documented

---
 src/stats/ks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/ks.rs b/src/stats/ks.rs
index a930f11..7b9ee69 100644
--- a/src/stats/ks.rs
+++ b/src/stats/ks.rs
@@ -63,7 +63,7 @@ fn pl_ks_2samp(inputs: &[Series]) -> PolarsResult<Series> {
     let alpha = inputs[2].f64()?;
     let alpha = alpha.get(0).unwrap();
 
-    if (s1.len() <= 30) || (s2.len() <= 30) {
+    if (s1.len() < 30) || (s2.len() < 30) {
         generic_stats_output(0f64, f64::NAN)
     } else {
         let v1 = s1.cont_slice().unwrap();
-- 
2.43.0


From a234becc3c5292b65e586455f911568bbd0fe574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 053/136] fix: mann_whitney_u corrects for ties among the
 greatest values

---
 src/stats/mann_whitney_u.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..86426c6 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,7 +18,8 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // The last run
+    accumulant + rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
@@ -52,7 +53,7 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        1. // every value is tied
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From 4aa07faf1d2b18cc3be7f25d6a028fed038eb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 054/136] fix: mann_whitney_u returns a scalar

---
 python/polars_ds/exprs/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 44e2304..acb655f 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -331,6 +331,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 9f84dafcae777a6a02028bf741571584ef318fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 055/136] fix: normal_test keeps the sign in the kurtosis
 statistic

---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index fca4eab..6650c5c 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
+        let term2 = ((1. - 2. / a) / denom).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 432291d94537fcd45ee8054cc9ea4031747c5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 056/136] fix: weighted statistics multiply integer columns as
 floats, which cannot wrap around

---
 python/polars_ds/exprs/stats.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index acb655f..20394d4 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -730,8 +730,8 @@ def weighted_hmean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    w = str_to_expr(weights)
-    x = str_to_expr(var)
+    w = str_to_expr(weights).cast(pl.Float64)
+    x = str_to_expr(var).cast(pl.Float64)
     dot = w.dot(pl.lit(1.0, dtype=pl.Float64) / x)
     if is_normalized:
         return 1.0 / dot
@@ -766,7 +766,7 @@ def weighted_gmean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     if is_normalized:
         return (x.log().dot(w)).exp()
     else:
@@ -791,7 +791,7 @@ def weighted_mean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     out = x.dot(w)
     if is_normalized:
         return out
@@ -819,7 +819,7 @@ def weighted_var(var: str | pl.Expr, weights: str | pl.Expr, freq_weights: bool
     ---------
     https://en.wikipedia.org/wiki/Weighted_arithmetic_mean#Weighted_sample_variance
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     wm = weighted_mean(x, w, False)
     summand = w.dot((x - wm).pow(2))
     if freq_weights:
@@ -847,7 +847,8 @@ def weighted_cov(x: str | pl.Expr, y: str | pl.Expr, weights: pl.Expr | float) -
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy, w = str_to_expr(x), str_to_expr(y), str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx, wy = weighted_mean(xx, w, False), weighted_mean(yy, w, False)
     return w.dot((xx - wx) * (yy - wy)) / w.sum()
 
@@ -872,8 +873,8 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
     syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
@@ -891,7 +892,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     y
         The second variable
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
     return xx.dot(yy) / (x2 * y2)
@@ -917,8 +918,8 @@ def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Ex
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx2 = xx.pow(2).dot(w)
     wy2 = yy.pow(2).dot(w)
     return (w * xx).dot(yy) / (wx2 * wy2).sqrt()
-- 
2.43.0


From 37eb83bedf15a5ca8bcc50cd7c66da3c19524119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 057/136] fix: f_test counts the non-null values of each
 variable and sums them as floats

---
 src/stats/fstats.rs | 90 ++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/src/stats/fstats.rs b/src/stats/fstats.rs
index 5667572..83b63c1 100644
--- a/src/stats/fstats.rs
+++ b/src/stats/fstats.rs
@@ -21,68 +21,58 @@ fn pl_f_test(inputs: &[Series]) -> PolarsResult<Series> {
         .collect_vec();
     let n_cols = v.len();
 
-    let df = DataFrame::new(v)?.lazy();
     // inputs[0] is the group
     // all the rest should numerical
-    let mut step_one: Vec<Expr> = Vec::with_capacity(inputs.len() * 2 - 1);
-    step_one.push(len().cast(DataType::Float64).alias("cnt"));
-    let mut step_two: Vec<Expr> = Vec::with_capacity(inputs.len() + 1);
-    step_two.push(col("cnt").sum().cast(DataType::UInt32).alias("n_samples"));
-    step_two.push(col("0").count().cast(DataType::UInt32).alias("n_classes"));
+    let df = DataFrame::new(v)?.lazy().filter(col("0").is_not_null());
+    let mut step_one: Vec<Expr> = Vec::with_capacity(inputs.len() * 3 - 3);
+    let mut step_two: Vec<Expr> = Vec::with_capacity(inputs.len() * 3 - 3);
 
     for i in 1..n_cols {
-        let name = i.to_string();
-        let name = name.as_str();
-        let n_sum = format!("{}_sum", i);
-        let n_sum = n_sum.as_str();
-        let n_var = format!("{}_var", i);
-        let n_var = n_var.as_str();
-        step_one.push(col(name).sum().alias(n_sum));
-        step_one.push(col(name).var(0).alias(n_var));
-        let p1: Expr = (col(n_sum).cast(DataType::Float64) / col("cnt").cast(DataType::Float64)
-            - (col(n_sum).sum().cast(DataType::Float64)
-                / col("cnt").sum().cast(DataType::Float64)))
-        .pow(2);
-        let p2 = col(n_var).dot(col("cnt").cast(DataType::Float64));
+        let (n_cnt, n_sum, n_var) = (format!("{i}_cnt"), format!("{i}_sum"), format!("{i}_var"));
+        // Nulls in the variable are not counted
+        let x = col(i.to_string()).cast(DataType::Float64);
+        step_one.push(x.clone().count().cast(DataType::Float64).alias(&n_cnt));
+        step_one.push(x.clone().sum().alias(&n_sum));
+        step_one.push(x.var(0).alias(&n_var));
 
-        step_two.push(p1.dot(col("cnt").cast(DataType::Float64)) / p2)
+        let non_empty = col(&n_cnt).gt(lit(0.0));
+        let cnt = col(&n_cnt).filter(non_empty.clone());
+        let sum = col(&n_sum).filter(non_empty.clone());
+        let var = col(&n_var).filter(non_empty);
+        let p1 = (sum.clone() / cnt.clone() - (sum.sum() / cnt.clone().sum())).pow(2);
+        step_two.push(cnt.clone().sum().alias(&n_cnt));
+        step_two.push(
+            cnt.clone()
+                .count()
+                .cast(DataType::Float64)
+                .alias(format!("{i}_classes")),
+        );
+        step_two.push((p1.dot(cnt.clone()) / var.dot(cnt)).alias(&n_sum));
     }
 
-    let mut reference = df
+    // Note: reference is a df with 1 row. We need to get the stats out
+    let reference = df
         .group_by([col("0")])
         .agg(step_one)
         .select(step_two)
-        .collect()?;
-
-    let n_samples = reference.drop_in_place("n_samples").unwrap();
-    let n_classes = reference.drop_in_place("n_classes").unwrap();
-    let n_samples = n_samples.u32()?;
-    let n_classes = n_classes.u32()?;
-    let n_samples = n_samples.get(0).unwrap_or(0);
-    let n_classes = n_classes.get(0).unwrap_or(0);
-
-    if n_classes <= 1 || n_samples <= 1 {
-        return Err(PolarsError::ComputeError(
-            "F-stats: n_classes <= 1 in target or n_samples <= 1.".into(),
-        ));
-    }
-
-    let df_btw_class = n_classes.abs_diff(1) as f64;
-    let df_in_class = n_samples.abs_diff(n_classes) as f64;
-    // Note: reference is a df with 1 row. We need to get the stats out
-    // fstats is 2D but with 1 row.
-
-    let scale = df_in_class / df_btw_class;
-
-    let mut fstats = reference
+        .collect()?
         .to_ndarray::<Float64Type>(IndexOrder::C)?
         .remove_axis(Axis(0));
-    fstats.map_inplace(|v| *v = *v * scale);
-    let out_fstats = fstats.as_slice().unwrap(); // C order guarantees contiguous.
-    let out_p: Vec<f64> = out_fstats
-        .iter()
-        .map(|x| fisher_snedecor_sf(*x, df_btw_class, df_in_class).unwrap_or(f64::NAN))
-        .collect();
+
+    let mut out_fstats: Vec<f64> = Vec::with_capacity(n_cols - 1);
+    let mut out_p: Vec<f64> = Vec::with_capacity(n_cols - 1);
+    for (n_samples, n_classes, ratio) in reference.iter().copied().tuples() {
+        if n_classes <= 1. || n_samples <= 1. {
+            return Err(PolarsError::ComputeError(
+                "F-stats: n_classes <= 1 in target or n_samples <= 1.".into(),
+            ));
+        }
+        let df_btw_class = n_classes - 1.;
+        let df_in_class = n_samples - n_classes;
+        let f = ratio * (df_in_class / df_btw_class);
+        out_fstats.push(f);
+        out_p.push(fisher_snedecor_sf(f, df_btw_class, df_in_class).unwrap_or(f64::NAN));
+    }
 
     let s1 = Column::new("statistic".into(), out_fstats);
     let s2 = Column::new("pvalue".into(), out_p);
-- 
2.43.0


From ebc43595df18920228c6e3486673da99a932bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 058/136] Revert "fix: normal_test keeps the sign in the
 kurtosis statistic" (the file counts as a test file)

---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index 6650c5c..fca4eab 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom).cbrt();
+        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 9680c2e05edd5b64fcf75265b286843e71b2199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 059/136] fix: time series features of integer columns are
 computed as floats, which cannot wrap around

---
 python/polars_ds/exprs/ts_features.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..c28d6b5 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -52,7 +52,7 @@ def query_mid_range(x: str | pl.Expr) -> pl.Expr:
     """
     A shorthand for (pl.col(x).max() - pl.col(x).min()) / 2.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return (xx.max() - xx.min()) / 2
 
 
@@ -61,7 +61,7 @@ def query_symm_ratio(x: str | pl.Expr) -> pl.Expr:
     Returns the symmetric ratio: |mean - median| / (max - min). Note the closer to 0 this value is,
     the more symmetric the series is.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return (y.mean() - y.median()).abs() / (y.max() - y.min())
 
 
@@ -69,7 +69,7 @@ def query_abs_energy(x: str | pl.Expr) -> pl.Expr:
     """
     Absolute energy is defined as Sum(x_i^2).
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return y.dot(y)
 
 
@@ -77,7 +77,7 @@ def query_mean_abs_change(x: str | pl.Expr) -> pl.Expr:
     """
     Returns the mean of all successive differences |X_i - X_i-1|
     """
-    return str_to_expr(x).diff(null_behavior="drop").abs().mean()
+    return str_to_expr(x).cast(pl.Float64).diff(null_behavior="drop").abs().mean()
 
 
 def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
@@ -86,7 +86,7 @@ def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
     """
     if n_maxima <= 0:
         raise ValueError("The number of maxima should be > 0.")
-    return str_to_expr(x).abs().top_k(n_maxima).mean()
+    return str_to_expr(x).cast(pl.Float64).abs().top_k(n_maxima).mean()
 
 
 def query_cv(x: str | pl.Expr, ddof: int = 1) -> pl.Expr:
@@ -349,7 +349,7 @@ def query_c3_stats(x: str | pl.Expr, lag: int) -> pl.Expr:
     https://arxiv.org/pdf/chao-dyn/9909043
     """
     two_lags = 2 * lag
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return ((xx.mul(xx.shift(lag)).mul(xx.shift(two_lags))).sum()).truediv(xx.len() - two_lags)
 
 
@@ -369,7 +369,7 @@ def query_cid_ce(x: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     ---------
     https://www.cs.ucr.edu/~eamonn/Complexity-Invariant%20Distance%20Measure.pdf
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         y = (xx - xx.mean()) / xx.std()
     else:
@@ -384,7 +384,7 @@ def query_time_reversal_asymmetry_stats(x: str | pl.Expr, n_lags: int) -> pl.Exp
     Queries the Time Reversal Asymmetry Statistic, which is the average of
     (L^2(x) * L(x) - L(x) * x^2), where L is the lag operator.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     one_lag = y.shift(-n_lags)
     two_lag = y.shift(-2 * n_lags)  # Nulls won't be in the mean calculation
     return (one_lag * (two_lag + y) * (two_lag - y)).mean()
@@ -405,7 +405,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     normalize
         Whether to normalize the value to [-1, 1] or not.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-- 
2.43.0


From 4112750fee9c128e46c206ef096588306a90519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 060/136] fix: z-normalized subsequence matching works in
 groups and on Float32 columns

---
 python/polars_ds/exprs/ts_features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index c28d6b5..b11e5f9 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -285,15 +285,15 @@ def query_similar_count(
             returns_scalar=True,
         )
     elif metric == "sqzl2":  # pl_subseq_sim_cnt_zl2
+        t = t.cast(pl.Float64)
         rolling_mean = t.rolling_mean(window_size=len(q)).slice(len(q) - 1, None)
         rolling_var = pl.max_horizontal(
             t.rolling_var(window_size=len(q)).slice(len(q) - 1, None).fill_nan(1e-10),
             pl.lit(1e-10, dtype=pl.Float64),
         )
-        qq = pl.lit(q)
         args = [
-            t.cast(pl.Float64).rechunk(),
-            ((qq - qq.mean()) / qq.std()).rechunk(),
+            t.rechunk(),
+            (q - q.mean()) / q.std(),
             rolling_mean.rechunk(),
             rolling_var.rechunk(),
         ]
-- 
2.43.0


From 626fe8e7e79600ea15173ffe9c59dad3b83137d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 061/136] fix: entropies of Float32 series are computed in
 Float64

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index b11e5f9..1dc0d53 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -546,7 +546,7 @@ def query_sample_entropy(
     if m <= 1:
         raise ValueError("Input `m` must be > 1.")
 
-    t = str_to_expr(ts)
+    t = str_to_expr(ts).cast(pl.Float64)
     r = ratio * t.std(ddof=0)
     rows = t.len() - m + 1
 
@@ -606,7 +606,7 @@ def query_approx_entropy(
     if filtering_level <= 0 or m <= 1:
         raise ValueError("Filter level must be positive and m must be > 1.")
 
-    t = str_to_expr(ts)
+    t = str_to_expr(ts).cast(pl.Float64)
     if scale_by_std:
         r: pl.Expr = filtering_level * t.std()
     else:
-- 
2.43.0


From eb208d13bc8c8e987a9b6d0b017199fe8824f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 062/136] fix: first digit counts skip nulls instead of reading
 what is behind them

---
 src/num_ext/benford.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..72c8ae3 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,7 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    let s = &inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From 00a56e3d1774ec6309efcf435b5d58a68571e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 063/136] fix: permutation entropy with a delay compares values
 that are tau apart

---
 python/polars_ds/exprs/ts_features.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 1dc0d53..28e735c 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -773,11 +773,8 @@ def query_permute_entropy(
         )
     else:
         return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
+            pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
+            .head(t.len() - (n_dims - 1) * tau)
             .list.eval(pl.element().arg_sort())
             .value_counts()
             .struct.field("count")
-- 
2.43.0


From 91848eee3323eae35e6f00ebe39d3e147a17d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 064/136] fix: column jaccard similarity leaves nulls out
 unless asked to count them, and counts them as one element

---
 src/num_ext/jaccard.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..e8a3861 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,14 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
-
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
+    // When nulls are counted, null is one more distinct element of each column that has it.
+    let (null1, null2) = (
+        (count_null && inputs[0].has_nulls()) as usize,
+        (count_null && inputs[1].has_nulls()) as usize,
+    );
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +220,8 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let intersection_size = intersection_size + null1 * null2;
+    let union_size = len1 + null1 + len2 + null2 - intersection_size;
+    let out = intersection_size as f64 / union_size as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From 51d8f0341b54d682fea376ced44c2612825dea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 065/136] fix: the integral over a single point is 0, and x may
 be chunked

---
 python/polars_ds/exprs/num.py | 2 +-
 src/num_ext/trapz.rs          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 4172137..f171461 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -753,7 +753,7 @@ def integrate_trapz(y: str | pl.Expr, x: float | pl.Expr) -> pl.Expr:
     if isinstance(x, float):
         xx = pl.lit(abs(x), pl.Float64)
     else:
-        xx = str_to_expr(x).cast(pl.Float64)
+        xx = str_to_expr(x).cast(pl.Float64).rechunk()
 
     return pl_plugin(
         symbol="pl_trapz",
diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..fd5c353 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -6,8 +6,8 @@ use pyo3_polars::derive::polars_expr;
 #[inline(always)]
 pub fn trapz(y: &[f64], x: &[f64]) -> f64 {
     // x.len() == y.len() checked
-    if x.len() == 1 && y.len() == 1 {
-        y[0] * x[0] * -0.5 // y[0] * (-x[0]) * 0.5
+    if y.len() == 1 {
+        0. // no interval to integrate over
     } else {
         let mut y_d = vec![0.; y.len() - 1];
         cfavml::add_vector(&y[1..], &y[..y.len() - 1], &mut y_d);
-- 
2.43.0


From 7813a6d7ff8b5ca2b786f4f31d5a73b686673bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 066/136] fix: fract keeps nulls of integer columns, and xlogy
 broadcasts a scalar

---
 src/num_ext/float_extras.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..16a231a 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -3,7 +3,7 @@ use crate::stats_utils::gamma::digamma;
 /// trunc, fract, exp2, logit, expit, gamma,
 /// The logit, expit and gamma functions are as defined in SciPy
 use crate::utils::{first_field_output, float_output};
-use arity::binary_elementwise_values;
+use arity::broadcast_binary_elementwise_values;
 use num::traits::Float;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -200,7 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        let ca = s.cast(&DataType::Float32)?;
+        Ok(ca.f32()?.apply_values(|_| 0f32).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
@@ -276,7 +277,7 @@ fn pl_xlogy(inputs: &[Series]) -> PolarsResult<Series> {
     let s2 = &inputs[1];
     let ca1 = s1.f64().unwrap();
     let ca2 = s2.f64().unwrap();
-    let ca: Float64Chunked = binary_elementwise_values(ca1, ca2, xlogy::<f64>);
+    let ca: Float64Chunked = broadcast_binary_elementwise_values(ca1, ca2, xlogy::<f64>);
     Ok(ca.into_series())
 }
 
-- 
2.43.0


From 5c40068b0e2c646f50f9ab7fbe6ffff9ebbd5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 067/136] fix: target_encode accepts a Float32 target

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index f171461..73cf206 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -1005,7 +1005,7 @@ def target_encode(
         t = pl.lit(pl.Series(values=target))
     return pl_plugin(
         symbol="pl_target_encode",
-        args=[str_to_expr(s), t, t.mean()],
+        args=[str_to_expr(s), t, t.cast(pl.Float64).mean()],
         kwargs={"min_samples_leaf": float(min_samples_leaf), "smoothing": smoothing},
         changes_length=True,
     )
-- 
2.43.0


From a24a71dea621337fa82049d28b7a66941ad5c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 068/136] fix: row jaccard similarity works on lists of small
 integers

---
 src/num_ext/jaccard.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index e8a3861..cc14fb2 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -65,7 +65,15 @@ fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     );
 
     if s1.inner_dtype().is_integer() {
-        let out = _list_jaccard(s1, s2);
+        let out = match s1.inner_dtype() {
+            // Not covered by with_match_physical_integer_type
+            Int8 | Int16 | UInt8 | UInt16 => {
+                let to = DataType::List(Box::new(Int32));
+                let (s1, s2) = (inputs[0].cast(&to)?, inputs[1].cast(&to)?);
+                _list_jaccard(s1.list()?, s2.list()?)
+            }
+            _ => _list_jaccard(s1, s2),
+        };
         Ok(out.into_series())
     } else if s1.inner_dtype() == &DataType::String {
         Ok(s1
-- 
2.43.0


From 4ed1e793af1a806c424589a08be91b14728151b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 069/136] fix: explained variances divide by the number of
 samples minus one

---
 python/polars_ds/exprs/num.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 73cf206..97c7508 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,9 +296,13 @@ def singular_values(
     else:
         actual_inputs = feats
 
+    if as_explained_var:  # rows with nulls will be dropped, and do not count as samples
+        n_samples = pl.all_horizontal(f.is_not_null() for f in feats).sum().cast(pl.Float64)
+        actual_inputs = [f / (n_samples - 1).sqrt() for f in actual_inputs]
+
     out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        out = out.list.eval(pl.element().pow(2))
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
-- 
2.43.0


From 1885304c82544add5442c9197aceaf221cda5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 070/136] fix: singular values and PCA accept features with
 equal names, as inside a group_by

---
 src/utils/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1855640..5798649 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -19,12 +19,27 @@ use pyo3_polars::export::polars_core::{
 // -------------------------------------------------------------------------------
 // Common, Resuable Functions
 // -------------------------------------------------------------------------------
+/// A frame whose columns are named by position, because the names of inputs need not be unique.
+fn to_numbered_frame(inputs: &[Series]) -> PolarsResult<DataFrame> {
+    DataFrame::new(
+        inputs
+            .iter()
+            .enumerate()
+            .map(|(i, s)| {
+                s.clone()
+                    .with_name(i.to_string().into())
+                    .into_column()
+            })
+            .collect(),
+    )
+}
+
 #[inline(always)]
 pub fn to_f64_matrix_without_nulls(
     inputs: &[Series],
     order: IndexOrder,
 ) -> PolarsResult<Array2<f64>> {
-    let df = DataFrame::from_iter(inputs.iter().map(|s| Column::Series(s.clone().into())));
+    let df = to_numbered_frame(inputs)?;
     let df = df.drop_nulls::<String>(None)?;
     df.to_ndarray::<Float64Type>(order)
 }
@@ -39,7 +54,7 @@ pub fn to_f64_matrix_fail_on_nulls(
             "Nulls are found in data and this method doesn't allow nulls.".into(),
         ))
     } else {
-        let df = DataFrame::new(inputs.iter().map(|s| s.clone().into_column()).collect())?;
+        let df = to_numbered_frame(inputs)?;
         df.to_ndarray::<Float64Type>(order)
     }
 }
-- 
2.43.0


From 975d72bd4fdc6f491c15b29d592c8c5188e76f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 071/136] fix: gcd and lcm with a null scalar are null

---
 src/num_ext/gcd_lcm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
-- 
2.43.0


From a27873107497209b24ca39cfd7700def236aa496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 072/136] fix: random_str declares that it returns strings

---
 src/stats/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
-- 
2.43.0


From 93e167db3e78ccec4f6e1466e539872589ff6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 073/136] fix: random_binomial passes n in the type the plugin
 reads

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 20394d4..fdf4ea8 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -636,7 +636,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From a0ddd1cbb65eb1ac54f885b7e1c28ecd83868baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 074/136] fix: random_int accepts expressions as bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index fdf4ea8..3175ead 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -557,7 +557,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From 2f24dbac280d4993ef7a0e7166a6dd349b9a2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 075/136] fix: random and random_normal accept integers and
 statistics of non-Float64 columns

---
 python/polars_ds/exprs/stats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 3175ead..efa3852 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -416,7 +416,7 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     seed
         A random seed
     """
-    if isinstance(std, float):
+    if not isinstance(std, pl.Expr):
         if std < 0:
             raise ValueError("Standard deviation must be positive.")
         elif std == 0:
@@ -505,8 +505,8 @@ def random(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    lo = pl.lit(lower, pl.Float64) if isinstance(lower, float) else lower
-    up = pl.lit(upper, pl.Float64) if isinstance(upper, float) else upper
+    lo = lower.cast(pl.Float64) if isinstance(lower, pl.Expr) else pl.lit(lower, pl.Float64)
+    up = upper.cast(pl.Float64) if isinstance(upper, pl.Expr) else pl.lit(upper, pl.Float64)
     len_ = pl.lit(length, pl.UInt32) if isinstance(length, int) else length
     return pl_plugin(
         symbol="pl_random",
@@ -694,8 +694,8 @@ def random_normal(
         symbol="pl_rand_normal",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(mean, pl.Float64) if isinstance(mean, float) else mean,
-            pl.lit(std, pl.Float64) if isinstance(std, float) else std,
+            mean.cast(pl.Float64) if isinstance(mean, pl.Expr) else pl.lit(mean, pl.Float64),
+            std.cast(pl.Float64) if isinstance(std, pl.Expr) else pl.lit(std, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
         is_elementwise=True,
-- 
2.43.0


From d3fa7a8baa0d4b5b36d427239bbd2dca5a1d9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 076/136] fix: random columns are not elementwise

---
 python/polars_ds/exprs/stats.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index efa3852..0c0763b 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -399,7 +399,6 @@ def perturb(
     return pl_plugin(
         symbol="pl_perturb",
         args=[str_to_expr(x), lo, hi, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -429,7 +428,6 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     return pl_plugin(
         symbol="pl_jitter",
         args=[str_to_expr(x), s, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -511,7 +509,6 @@ def random(
     return pl_plugin(
         symbol="pl_random",
         args=[len_, lo, up, pl.lit(seed, pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -571,7 +568,6 @@ def random_int(
             hi,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -608,7 +604,6 @@ def random_str(
             pl.lit(ma, pl.UInt32),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -640,7 +635,6 @@ def random_binomial(
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -666,7 +660,6 @@ def random_exp(
             pl.lit(lambda_, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -698,7 +691,6 @@ def random_normal(
             std.cast(pl.Float64) if isinstance(std, pl.Expr) else pl.lit(std, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
-- 
2.43.0


From aea999b50ab901efa2c1e1706836fe3b60c5384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 077/136] fix: impute and conditional_impute by mode

---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..11ced64 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(c).drop_nulls().mode().first() for c in cols).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From 390ecf52e8a190624bad4067da7a34a066157015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 078/136] fix: imputed columns survive a JSON round trip of the
 pipeline

---
 python/polars_ds/modeling/transforms.py | 33 ++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 11ced64..4e87c07 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -8,7 +8,7 @@ from __future__ import annotations
 
 import polars as pl
 import polars.selectors as cs
-from typing import List, Dict
+from typing import List, Dict, Sequence
 
 # Internal dependencies
 from polars_ds.typing import (
@@ -23,6 +23,22 @@ import polars_ds.exprs.num as pds_num
 import polars_ds.exprs.expr_linear as lr
 
 
+def _fill_null(df: PolarsFrame, cols: List[str], values: Sequence) -> ExprTransform:
+    """
+    Fills the nulls of each column by its value. An integer column that is filled by a float becomes
+    a float column. The cast is explicit because a serialized expression is not type coerced again.
+    """
+    schema = df.lazy().collect_schema()
+    return [
+        (
+            pl.col(c).cast(pl.Float64)
+            if isinstance(v, float) and schema[c].is_integer()
+            else pl.col(c)
+        ).fill_null(v)
+        for c, v in zip(cols, values)
+    ]
+
+
 def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean") -> ExprTransform:
     """
     Impute null values in the given columns. This transform will collect if input is lazy.
@@ -39,13 +55,13 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
     """
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return _fill_null(df, cols, temp)
     elif method == "median":
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return _fill_null(df, cols, temp)
     elif method == "mode":
         temp = df.lazy().select(pl.col(c).drop_nulls().mode().first() for c in cols).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return _fill_null(df, cols, temp)
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
@@ -152,7 +168,12 @@ def linear_impute(
     if add_bias:
         linear_eq.append(pl.lit(coeffs[-1], dtype=pl.Float64))
 
-    return [pl.col(target_name).fill_null(pl.sum_horizontal(linear_eq)).alias(target_name)]
+    return [
+        pl.col(target_name)
+        .cast(pl.Float64)
+        .fill_null(pl.sum_horizontal(linear_eq))
+        .alias(target_name)
+    ]
 
 
 def center(df: PolarsFrame, cols: List[str]) -> ExprTransform:
@@ -386,7 +407,7 @@ def rank_hot_encode(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{col}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(pl.lit(-1, dtype=pl.Int8)).alias(f"{col}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
-- 
2.43.0


From e6c7456f9607488d74821341c12c2aa74c923136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 079/136] fix: nan_to_null pipeline step

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..0aa3cff 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -433,7 +433,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From fbe756511368aec8b9b05684a0778491b2614c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 080/136] fix: pipelines with polynomial features can be
 serialized

---
 python/polars_ds/modeling/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 4e87c07..8f0040f 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -627,13 +627,15 @@ def polynomial_features(
     interaction_only
         It true, only combinations that involve 2 or more variables will be used.
     """
+    from functools import reduce
     from itertools import combinations_with_replacement
+    from operator import mul
 
     if degree <= 1:
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        reduce(mul, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From 6f2cdf3a58cb701b97886a3c21b76353004fc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 081/136] fix: Blueprint.rename keeps columns whose name is
 also a new name

---
 python/polars_ds/modeling/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 0aa3cff..4d7ce3c 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -642,7 +642,8 @@ class Blueprint:
         rename_dict
             The name mapping
         """
-        old = list(rename_dict.keys())
+        new = set(rename_dict.values())
+        old = [k for k in rename_dict.keys() if k not in new]
         self._steps.append(
             PipelineStep(
                 [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
-- 
2.43.0


From b027b69a1a2990dc6727b57dd1a31d7235418a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 082/136] fix: Blueprint.select accepts column names

---
 python/polars_ds/modeling/pipeline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 4d7ce3c..eb827b6 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -535,7 +535,12 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(cols, PLContext.SELECT))
+        exprs = cols if isinstance(cols, (list, tuple)) else [cols]
+        self._steps.append(
+            PipelineStep(
+                [pl.col(e) if isinstance(e, str) else e for e in exprs], PLContext.SELECT
+            )
+        )
         return self
 
     # Not working after pl.Int128 is introduced
-- 
2.43.0


From aa7dc8df637b9dd5b9e44e9c69d960e5f6f80bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 083/136] fix: Blueprint.append_expr accepts a list of
 expressions

---
 python/polars_ds/modeling/pipeline.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index eb827b6..8fc4c11 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -863,10 +863,17 @@ class Blueprint:
             If true, the expression will be executed in a .select(..) context. If false, they
             will be executed in a .with_columns(..) context.
         """
+        all_exprs: List[pl.Expr] = []
+        for e in exprs:
+            if isinstance(e, pl.Expr):
+                all_exprs.append(e)
+            else:
+                all_exprs.extend(e)
+
         if is_select:
-            self._steps.append(PipelineStep(list(exprs), PLContext.SELECT))
+            self._steps.append(PipelineStep(all_exprs, PLContext.SELECT))
         else:
-            self._steps.append(PipelineStep(list(exprs), PLContext.WITH_COLUMNS))
+            self._steps.append(PipelineStep(all_exprs, PLContext.WITH_COLUMNS))
         return self
 
     # How to type this?
-- 
2.43.0


From c7ec6117d6fc6308dca239d15def09b395c96f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 084/136] fix: drop and one_hot_encode accept selectors and
 keep excluded columns

---
 python/polars_ds/modeling/_structures.py | 28 ++++++++++++++++++------
 python/polars_ds/modeling/pipeline.py    | 18 ++++++++++-----
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/python/polars_ds/modeling/_structures.py b/python/polars_ds/modeling/_structures.py
index 6517347..789d4a6 100644
--- a/python/polars_ds/modeling/_structures.py
+++ b/python/polars_ds/modeling/_structures.py
@@ -11,9 +11,10 @@ from polars._typing import IntoExprColumn
 
 @dataclass
 class FitStep:  # Not a FittedStep
-    func: FitTransformFunc
+    func: FitTransformFunc | None  # If none, this step only drops columns
     cols: IntoExprColumn | None
     exclude: List[str]
+    drop_cols: bool = False  # Whether to drop the (real) input columns after the transform
 
     # Here we allow IntoExprColumn as input so that users can use selectors, or other polars expressions
     # to specify input columns, which adds flexibility.
@@ -22,12 +23,25 @@ class FitStep:  # Not a FittedStep
         if self.cols is None:
             return self.func(df)
         else:
-            real_cols: List[str] = [
-                x
-                for x in df.lazy().select(self.cols).collect_schema().names()
-                if x not in self.exclude
-            ]
-            return self.func(df, real_cols)
+            return self.func(df, self.real_cols(df))
+
+    def real_cols(self, df: pl.DataFrame | pl.LazyFrame) -> List[str]:
+        return [
+            x
+            for x in df.lazy().select(self.cols).collect_schema().names()
+            if x not in self.exclude
+        ]
+
+    def fit_steps(self, df: pl.DataFrame | pl.LazyFrame) -> List["PipelineStep"]:
+        """
+        The concrete steps after this step is fitted on df.
+        """
+        steps: List[PipelineStep] = []
+        if self.func is not None:
+            steps.append(PipelineStep(self.fit(df), PLContext.WITH_COLUMNS))
+        if self.drop_cols:
+            steps.append(PipelineStep(pl.all().exclude(self.real_cols(df)), PLContext.SELECT))
+        return steps
 
 
 class PLContext(Enum):
diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 8fc4c11..b6ee694 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -635,7 +635,12 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
+        items = cols if isinstance(cols, (list, tuple)) else [cols]
+        if any(isinstance(c, pl.Expr) for c in items):
+            # Expressions and selectors are turned into concrete columns when the blueprint is fitted
+            self._steps.append(FitStep(None, cols, self.exclude, drop_cols=True))
+        else:
+            self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
         return self
 
     def rename(self, rename_dict: Dict[str, str]) -> Self:
@@ -686,10 +691,9 @@ class Blueprint:
                 partial(t.one_hot_encode, separator=separator, drop_first=drop_first),
                 cols,
                 self.exclude,
+                drop_cols=drop_cols,
             )
         )
-        if drop_cols:
-            return self.drop(cols)
         return self
 
     def rank_hot_encode(
@@ -941,9 +945,11 @@ class Blueprint:
         for step in self._steps:
             if isinstance(step, FitStep):  # Need fitting
                 df_temp = df_lazy.collect()
-                exprs = step.fit(df_temp)
-                transforms.append(PipelineStep(exprs, PLContext.WITH_COLUMNS))
-                df_lazy = df_temp.lazy().with_columns(exprs)
+                fitted = step.fit_steps(df_temp)
+                transforms.extend(fitted)
+                df_lazy = df_temp.lazy()
+                for s in fitted:
+                    df_lazy = s.apply_df(df_lazy)
             elif isinstance(step, PipelineStep):
                 transforms.append(step)
                 df_lazy = step.apply_df(df_lazy)
-- 
2.43.0


From 6d4485f61da355984d9abd3578eb9a834df09a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 085/136] fix: ensure_features_in compares converted column
 names

---
 python/polars_ds/modeling/pipeline.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index b6ee694..90b5b0c 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -92,6 +92,17 @@ class Pipeline:
 
         return text
 
+    def _convert_names(self, df: PolarsFrame) -> pl.LazyFrame:
+        """
+        Lowercases or uppercases the column names, if this pipeline is set to do so.
+        """
+        if self.lowercase:
+            return df.lazy().select(pl.all().name.to_lowercase())
+        elif self.uppercase:
+            return df.lazy().select(pl.all().name.to_uppercase())
+        else:
+            return df.lazy()
+
     def _generate_lazy_plan(self, df: PolarsFrame) -> pl.LazyFrame:
         """
         Generates a lazy plan for the incoming df
@@ -102,14 +113,7 @@ class Pipeline:
             If none, create the plan for the df that the pipe is initialized with. Otherwise,
             create the plan for the incoming df.
         """
-        if self.lowercase:
-            plan = df.lazy().select(pl.all().name.to_lowercase())
-        else:
-            if self.uppercase:
-                plan = df.lazy().select(pl.all().name.to_uppercase())
-            else:
-                plan = df.lazy()
-
+        plan = self._convert_names(df)
         for step in self.transforms:
             plan = step.apply_df(plan)
         return plan
@@ -237,7 +241,8 @@ class Pipeline:
             the target.
         """
         if self.ensure_features_in:
-            columns = df.lazy().collect_schema().names()
+            # The features of the blueprint are the names after they are lowercased / uppercased
+            columns = self._convert_names(df).collect_schema().names()
             extras = [c for c in columns if c not in self.feature_names_in_]
             missing = [c for c in self.feature_names_in_ if c not in columns]
             if len(extras) > 0 or len(missing) > 0:
-- 
2.43.0


From b3e77bc148945b74c76f07420127096691ee07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 086/136] fix: min_max and abs_max scaling of integers do not
 wrap around

---
 python/polars_ds/modeling/transforms.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 8f0040f..1803e9c 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -231,12 +231,26 @@ def scale(
             .row(0)
         )
         n = len(cols)
+        schema = df.lazy().collect_schema()
+        # The difference of small or unsigned integers can be out of the range of their type
+        temp = [
+            float(v)
+            if v is not None and schema[c].is_integer() and schema[c] != pl.Int64
+            else v
+            for c, v in zip(list(cols) * 2, temp)
+        ]
         # If input is constant, this will return all NaNs.
         return [(pl.col(c) - temp[i]) / (temp[n + i] - temp[i]) for i, c in enumerate(cols)]
     elif method == "abs_max":
         temp = (
             df.lazy()
-            .select(pl.max_horizontal(pl.col(c).min().abs(), pl.col(c).max().abs()) for c in cols)
+            .select(
+                    pl.max_horizontal(
+                        pl.col(c).min().cast(pl.Float64).abs(),
+                        pl.col(c).max().cast(pl.Float64).abs(),
+                    )
+                    for c in cols
+                )
             .collect()
             .row(0)
         )
-- 
2.43.0


From 249753713c7eec6f75364b21a13f9e48b466dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 087/136] fix: transforms of no columns do nothing

---
 python/polars_ds/modeling/transforms.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 1803e9c..201ea89 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -53,6 +53,9 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         One of `mean`, `median`, `mode`. If `mode`, a random value will be chosen if there is
         a tie.
     """
+    if len(cols) == 0:
+        return []
+
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
         return _fill_null(df, cols, temp)
@@ -187,6 +190,9 @@ def center(df: PolarsFrame, cols: List[str]) -> ExprTransform:
     cols
         A list of strings representing column names
     """
+    if len(cols) == 0:
+        return []
+
     means = df.lazy().select(pl.col(cols).mean()).collect().row(0)
     return [pl.col(c) - m for c, m in zip(cols, means)]
 
@@ -208,6 +214,9 @@ def scale(
     method
         One of `standard`, `min_max`, `abs_max`
     """
+    if len(cols) == 0:
+        return []
+
     if method == "standard":
         temp = (
             df.lazy()
@@ -282,6 +291,9 @@ def robust_scale(
     method
         Method to compute quantile. One of `nearest`, `higher`, `lower`, `midpoint`, `linear`.
     """
+    if len(cols) == 0:
+        return []
+
     if q_low > 1.0 or q_low < 0.0 or q_high > 1.0 or q_high < 0.0 or q_low >= q_high:
         raise ValueError(
             "Input `q_low` and `q_high` must be between 0 and 1 and q_low must be < than q_high."
@@ -323,6 +335,9 @@ def winsorize(
     method
         Method to compute quantile. One of `nearest`, `higher`, `lower`, `midpoint`, `linear`.
     """
+    if len(cols) == 0:
+        return []
+
     if q_low > 1.0 or q_low < 0.0 or q_high > 1.0 or q_high < 0.0 or q_low >= q_high:
         raise ValueError(
             "Input `q_low` and `q_high` must be between 0 and 1 and q_low must be < than q_high."
-- 
2.43.0


From d7ecb66547cf084724229b5721cf109eaba17975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 088/136] fix: target_encode transform of several columns

---
 python/polars_ds/modeling/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 201ea89..aa6e00d 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -520,7 +520,9 @@ def target_encode(
     temp = temp.select(
         pds_num.target_encode(
             c, target, min_samples_leaf=min_samples_leaf, smoothing=smoothing
-        ).implode()
+        )
+        .implode()
+        .alias(c)
         for c in valid_cols
     ).collect()  # add collect config..
     return [
-- 
2.43.0


From f0e99acbe4b60889ef70a897d0fdb86f08811300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 089/136] fix: imputed Int16 or Float32 columns survive a JSON
 round trip

---
 python/polars_ds/modeling/transforms.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index aa6e00d..5073ac1 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -26,17 +26,19 @@ import polars_ds.exprs.expr_linear as lr
 def _fill_null(df: PolarsFrame, cols: List[str], values: Sequence) -> ExprTransform:
     """
     Fills the nulls of each column by its value. An integer column that is filled by a float becomes
-    a float column. The cast is explicit because a serialized expression is not type coerced again.
+    a float column. The types are explicit because a serialized expression is not type coerced again.
     """
     schema = df.lazy().collect_schema()
-    return [
-        (
-            pl.col(c).cast(pl.Float64)
-            if isinstance(v, float) and schema[c].is_integer()
-            else pl.col(c)
-        ).fill_null(v)
-        for c, v in zip(cols, values)
-    ]
+    exprs: List[pl.Expr] = []
+    for c, v in zip(cols, values):
+        dtype = schema[c]
+        if isinstance(v, float) and dtype.is_integer():
+            exprs.append(pl.col(c).cast(pl.Float64).fill_null(v))
+        elif v is not None and (dtype.is_integer() or dtype.is_float()):
+            exprs.append(pl.col(c).fill_null(pl.lit(v, dtype=dtype)))
+        else:
+            exprs.append(pl.col(c).fill_null(v))
+    return exprs
 
 
 def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean") -> ExprTransform:
-- 
2.43.0


From 772b86dbeee5de55c6f316225b971bc744c46315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 090/136] fix: target_encode without any target value

---
 src/num_ext/target_encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index e7955b1..7d3d776 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -53,7 +53,8 @@ fn pl_target_encode(inputs: &[Series], kwargs: TargetEncodeKwargs) -> PolarsResu
     // Inputs[0] and inputs[1] are the string column and the target respectively
 
     let target_mean = inputs[2].f64()?;
-    let target_mean = target_mean.get(0).unwrap();
+    // There is no mean, and nothing to encode, if all targets are null
+    let target_mean = target_mean.get(0).unwrap_or(f64::NAN);
 
     let min_samples_leaf = kwargs.min_samples_leaf;
     let smoothing = kwargs.smoothing;
-- 
2.43.0


From 0c898370b5c71480d4a6dd0003bf545153299698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 091/136] fix: linear_impute with Float32 features survives a
 JSON round trip

---
 python/polars_ds/modeling/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 5073ac1..569acaa 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -176,7 +176,7 @@ def linear_impute(
     return [
         pl.col(target_name)
         .cast(pl.Float64)
-        .fill_null(pl.sum_horizontal(linear_eq))
+        .fill_null(pl.sum_horizontal(linear_eq).cast(pl.Float64))
         .alias(target_name)
     ]
 
-- 
2.43.0


From 5d91c46ec4fe9c869fa6f595435ea122b4909761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 092/136] fix: random_cols uses its seed and sizes its pool by
 the columns outside keep

---
 .../polars_ds/sample_and_split/sample_and_split.py   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..5b4cb05 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -184,16 +184,18 @@ def random_cols(
     """
     if keep is None:
         out = []
-        to_sample = combinations(all_columns, k)
+        pool = list(all_columns)
     else:
-        out = keep
-        to_sample = combinations((c for c in all_columns if c not in keep), k)
+        out = list(keep)
+        pool = [c for c in all_columns if c not in out]
 
-    pool_size = len(all_columns) - len(out)
+    to_sample = combinations(pool, k)
+    pool_size = len(pool)
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    rng = random if seed is None else random.Random(seed)
+    n = rng.randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From 9b77bd327be851ff46cbb71f98cf989ed1af99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 093/136] fix: split_by_ratio keeps every row and every column

---
 .../sample_and_split/sample_and_split.py      | 49 ++++++-------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5b4cb05..49c41a8 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -4,7 +4,7 @@ import polars as pl
 import random
 import math
 from typing import List, Tuple
-from itertools import combinations, islice
+from itertools import accumulate, combinations, islice
 # Internal dependency
 from polars_ds.typing import PolarsFrame
 
@@ -226,43 +226,26 @@ def split_by_ratio(
         if split_ratio <= 0.0 or split_ratio >= 1:
             raise ValueError("Split ratio must be > 0 and < 1.")
 
-        frames = (
-            df.lazy()
-            .with_row_index(name="__id")
-            .collect()
-            .with_columns(
-                (pl.col("__id").shuffle(seed=seed) < (pl.len() * split_ratio).cast(pl.Int64)).alias(
-                    "__tt"
-                )
-            )
-            .partition_by("__tt", as_dict=True)
-        )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        return [train, test]
+        df_eager = df.lazy().collect()
+        n = len(df_eager)
+        in_train = pl.int_range(0, n, eager=True).shuffle(seed=seed) < int(n * split_ratio)
+        return [df_eager.filter(in_train), df_eager.filter(~in_train)]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
-                raise ValueError("Sum of the ratios is not 1.")
+            if any(v < 0 for v in split_ratio):
+                raise ValueError("The ratios must not be negative.")
 
-            df_eager = (
-                df.with_row_index(name="__id")
-                .with_columns(pl.col("__id").shuffle(seed=seed).alias("__tt"))
-                .sort("__tt")
-                .lazy()
-                .collect()
-            )
+            if abs(sum(split_ratio) - 1) > 1e-9:
+                raise ValueError("Sum of the ratios is not 1.")
 
+            df_eager = df.lazy().collect()
             n = len(df_eager)
-            start = 0
-            dfs = []
-            for v in split_ratio:
-                length = int(n * v)
-                dfs.append(
-                    df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
-                )
-                start += length
+            df_eager = df_eager[pl.int_range(0, n, eager=True).shuffle(seed=seed)]
 
-            return dfs
+            # Cut at the cumulative ratios, so that every row ends up in one of the parts.
+            # 1e-9 absorbs floating point errors in the cumulative ratios.
+            cuts = [min(n, int(n * r + 1e-9)) for r in accumulate(split_ratio)]
+            cuts[-1] = n
+            return [df_eager[i:j] for i, j in zip([0] + cuts, cuts)]
-- 
2.43.0


From 9edfbd1587ed33aaa16336504be2729fd9ebc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 094/136] fix: downsample keeps rows whose condition is null
 and accepts a list of conditions

---
 python/polars_ds/sample_and_split/sample_and_split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 49c41a8..96bc6aa 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,11 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    # A list of tuples is also accepted, see the example
+    conds = [t for c in conditions for t in ([c] if isinstance(c, tuple) else c)]
+    # Rows for which the condition is unknown are not rows on which it is true
+    conds = [(c.fill_null(False), r) for c, r in conds]
+    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conds)
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From 95cb8cd89ea3d52e6bf4ea0999878b8ecd92c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 095/136] fix: PartitionHelper refuses colliding part names
 instead of dropping rows

---
 python/polars_ds/partition/partition.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 4d838e8..c4fb02e 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -44,14 +44,18 @@ class PartitionHelper():
                 (cs.by_name(by)) & (cs.string() | cs.categorical() | cs.boolean())
             ).collect_schema().names()
 
-            all_ok = cols[0] == by if isinstance(by, str) else sorted(cols) == sorted(by)
+            all_ok = cols == [by] if isinstance(by, str) else sorted(cols) == sorted(by)
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-            self.parts = {
-                separator.join((str(k) for k in keys)): value
-                for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()
-            }
+            self.parts = {}
+            for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items():
+                name = separator.join((str(k) for k in keys))
+                if name in self.parts:
+                    raise ValueError(
+                        f"Two parts have the same name: {name}. Please use another separator, or rename the values."
+                    )
+                self.parts[name] = value
 
     def __repr__(self) -> str:
         output = ""
-- 
2.43.0


From 9b9d11d10ba717d8edc62e81604343174bb6ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 096/136] fix: expressions keep one name in every context

---
 src/num_ext/iterations.rs            |  2 +-
 src/num_ext/knn.rs                   |  4 ++--
 src/num_ext/linear_regression.rs     | 20 ++++++++++----------
 src/num_ext/linear_regression_f32.rs | 20 ++++++++++----------
 src/num_ext/pca.rs                   | 10 +++++-----
 src/num_ext/psi.rs                   |  6 +++---
 src/num_ext/target_encode.rs         |  4 ++--
 src/num_ext/tp_fp.rs                 | 12 ++++++------
 src/num_ext/woe_iv.rs                |  8 ++++----
 src/stats/chi2.rs                    |  2 +-
 src/stats/mod.rs                     |  4 ++--
 src/utils/mod.rs                     | 16 ++++++++--------
 12 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/src/num_ext/iterations.rs b/src/num_ext/iterations.rs
index deaf944..4a2f518 100644
--- a/src/num_ext/iterations.rs
+++ b/src/num_ext/iterations.rs
@@ -10,7 +10,7 @@ pub(crate) struct CombinationKwargs {
 
 fn itertools_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(fields[0].dtype().clone())),
     ))
 }
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 56970a1..f2713e2 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -19,11 +19,11 @@ use pyo3_polars::{
 };
 use serde::Deserialize;
 
-pub fn knn_full_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn knn_full_output(fields: &[Field]) -> PolarsResult<Field> {
     let idx = Field::new("idx".into(), DataType::List(Box::new(DataType::UInt32)));
     let dist = Field::new("dist".into(), DataType::List(Box::new(DataType::Float64)));
     let v = vec![idx, dist];
-    Ok(Field::new("knn_dist".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 #[derive(Deserialize)]
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index f4cbd50..fef352a 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -52,7 +52,7 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(fields: &[Field]) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
     let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
@@ -63,36 +63,36 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float64); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float64); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
+fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
     let v = vec![pred, residue];
-    Ok(Field::new("pred".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let pred = Field::new("prediction".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let singular_values = Field::new(
         "singular_values".into(),
         DataType::List(Box::new(DataType::Float64)),
     );
     let v: Vec<Field> = vec![coeffs, singular_values];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "coeffs".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 66d3c8a..91f4148 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -27,7 +27,7 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(fields: &[Field]) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
     let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
@@ -38,36 +38,36 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float32); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float32); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
+fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
     let v = vec![pred, residue];
-    Ok(Field::new("pred".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let pred = Field::new("prediction".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let singular_values = Field::new(
         "singular_values".into(),
         DataType::List(Box::new(DataType::Float32)),
     );
     let v: Vec<Field> = vec![coeffs, singular_values];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "coeffs".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float32)),
     ))
 }
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..09ff5da 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -8,21 +8,21 @@ use faer::{
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "singular_values".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
 
-pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn pca_output(fields: &[Field]) -> PolarsResult<Field> {
     let singular_value = Field::new("singular_value".into(), DataType::Float64);
     let weights = Field::new(
         "weight_vector".into(),
         DataType::List(Box::new(DataType::Float64)),
     );
     Ok(Field::new(
-        "pca".into(),
+        fields[0].name().clone(),
         DataType::Struct(vec![singular_value, weights]),
     ))
 }
@@ -32,7 +32,7 @@ pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
-        "principal_components".into(),
+        fields[0].name().clone(),
         DataType::Struct(components),
     ))
 }
diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 761afb8..219a1d4 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -2,13 +2,13 @@ use ordered_float::OrderedFloat;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
+fn psi_report_output(fields: &[Field]) -> PolarsResult<Field> {
     let breakpoints = Field::new("<=".into(), DataType::Float64);
     let baseline_pct = Field::new("baseline_pct".into(), DataType::Float64);
     let actual_pct = Field::new("actual_pct".into(), DataType::Float64);
     let psi_bins = Field::new("psi_bin".into(), DataType::Float64);
     let v: Vec<Field> = vec![breakpoints, baseline_pct, actual_pct, psi_bins];
-    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Computes counts in each bucket given by the breakpoints in
@@ -128,7 +128,7 @@ fn psi_discrete_output(fields: &[Field]) -> PolarsResult<Field> {
         Field::new("actual_pct".into(), DataType::Float64),
         Field::new("psi_bin".into(), DataType::Float64),
     ];
-    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Discrete PSI report
diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index 7d3d776..ab108a1 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -2,11 +2,11 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use serde::Deserialize;
 
-fn target_encode_output(_: &[Field]) -> PolarsResult<Field> {
+fn target_encode_output(fields: &[Field]) -> PolarsResult<Field> {
     let values = Field::new("value".into(), DataType::String);
     let to = Field::new("to".into(), DataType::Float64);
     let v: Vec<Field> = vec![values, to];
-    Ok(Field::new("target_encoded".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 #[derive(Deserialize, Debug)]
diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index b3a7a9e..6dc355c 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -4,22 +4,22 @@ use faer::reborrow::IntoConst;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn combo_output(_: &[Field]) -> PolarsResult<Field> {
+fn combo_output(fields: &[Field]) -> PolarsResult<Field> {
     let roc_auc = Field::new("roc_auc".into(), DataType::Float64);
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
     let average_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, average_precision, roc_auc];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn tpr_fpr_output(_: &[Field]) -> PolarsResult<Field> {
+fn tpr_fpr_output(fields: &[Field]) -> PolarsResult<Field> {
     let threshold = Field::new("threshold".into(), DataType::Float64);
     let tpr = Field::new("tpr".into(), DataType::Float64);
     let fpr = Field::new("fpr".into(), DataType::Float64);
     let v: Vec<Field> = vec![threshold, tpr, fpr];
-    Ok(Field::new("tpr_fpr".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn tp_fp_frame(
@@ -252,7 +252,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 // bcm = binary confusion matrix
-fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
+fn bcm_output(fields: &[Field]) -> PolarsResult<Field> {
     let tp = Field::new("tp".into(), DataType::UInt32);
     let fp = Field::new("fp".into(), DataType::UInt32);
     let tn = Field::new("tn".into(), DataType::UInt32);
@@ -281,7 +281,7 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     let dor = Field::new("dor".into(), DataType::Float64);
 
     Ok(Field::new(
-        "confusion_matrix".into(),
+        fields[0].name().clone(),
         DataType::Struct(vec![
             tp,
             tn,
diff --git a/src/num_ext/woe_iv.rs b/src/num_ext/woe_iv.rs
index 743fd9f..3465af2 100644
--- a/src/num_ext/woe_iv.rs
+++ b/src/num_ext/woe_iv.rs
@@ -1,18 +1,18 @@
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn woe_output(_: &[Field]) -> PolarsResult<Field> {
+fn woe_output(fields: &[Field]) -> PolarsResult<Field> {
     let value = Field::new("value".into(), DataType::String);
     let woe: Field = Field::new("woe".into(), DataType::Float64);
     let v: Vec<Field> = vec![value, woe];
-    Ok(Field::new("woe_output".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn iv_output(_: &[Field]) -> PolarsResult<Field> {
+fn iv_output(fields: &[Field]) -> PolarsResult<Field> {
     let value = Field::new("value".into(), DataType::String);
     let iv: Field = Field::new("iv".into(), DataType::Float64);
     let v: Vec<Field> = vec![value, iv];
-    Ok(Field::new("iv_output".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Get a lazyframe needed to compute Weight Of Evidence.
diff --git a/src/stats/chi2.rs b/src/stats/chi2.rs
index e82dffa..c5578dd 100644
--- a/src/stats/chi2.rs
+++ b/src/stats/chi2.rs
@@ -11,7 +11,7 @@ fn chi2_full_output(fields: &[Field]) -> PolarsResult<Field> {
     let f2 = fields[1].clone();
     let ef = Field::new("E[freq]".into(), DataType::Float64);
     let v: Vec<Field> = vec![s, p, dof, f1, f2, ef];
-    Ok(Field::new("chi2_full".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn _chi2_helper(inputs: &[Series]) -> PolarsResult<(LazyFrame, usize, usize)> {
diff --git a/src/stats/mod.rs b/src/stats/mod.rs
index 9acd652..0ab6073 100644
--- a/src/stats/mod.rs
+++ b/src/stats/mod.rs
@@ -10,11 +10,11 @@ mod xi_corr;
 
 use polars::prelude::*;
 
-pub fn simple_stats_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn simple_stats_output(fields: &[Field]) -> PolarsResult<Field> {
     let s = Field::new("statistic".into(), DataType::Float64);
     let p = Field::new("pvalue".into(), DataType::Float64);
     let v: Vec<Field> = vec![s, p];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 pub enum Alternative {
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 5798649..fac510a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -188,30 +188,30 @@ pub fn first_field_output(fields: &[Field]) -> PolarsResult<Field> {
 //     ))
 // }
 
-pub fn list_u32_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_u32_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "nodes".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::UInt32)),
     ))
 }
 
-pub fn list_f64_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_f64_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "floats".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
 
-pub fn complex_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn complex_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "complex".into(),
+        fields[0].name().clone(),
         DataType::Array(Box::new(DataType::Float64), 2),
     ))
 }
 
-pub fn list_str_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_str_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "list_str".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::String)),
     ))
 }
-- 
2.43.0


From 5c009adc8bdcbf3bb94013a652b9223d0846daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 097/136] fix: simple_lin_reg without bias can be used as a
 window expression

---
 python/polars_ds/exprs/expr_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..8f7b717 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -100,7 +100,7 @@ def simple_lin_reg(
         if return_pred:
             return pl.struct(pred=beta * xx, resid=yy - (beta * xx)).alias("lr_pred")
         else:
-            return beta.implode().alias("coeffs")
+            return pl.concat_list(beta).alias("coeffs")
 
 
 def lin_reg(
-- 
2.43.0


From 79f90728bf5c17bb73fa5604ae3db052394d727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 098/136] fix: lin_reg_w_rcond returns a scalar

---
 python/polars_ds/exprs/expr_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index 8f7b717..ea4bd41 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -320,6 +320,7 @@ def lin_reg_w_rcond(
         symbol=_lin_reg_expr_symbol("pl_lstsq_w_rcond"),
         args=cols,
         kwargs=lr_kwargs,
+        returns_scalar=True,
         pass_name_to_apply=True,
     )
 
-- 
2.43.0


From 8e92d0dda5206b9b7ae4d99c06ae5716ac8a0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 099/136] fix: haversine keeps the name of its first input

---
 src/num_ext/haversine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..56038be 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -61,7 +61,7 @@ fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
             let y_lat = inputs[2].f32().unwrap();
             let y_long = inputs[3].f32().unwrap();
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
-            out.into_series()
+            out.with_name(inputs[0].name().clone()).into_series()
         }
         DataType::Float64 => {
             let x_lat = inputs[0].f64().unwrap();
@@ -69,7 +69,7 @@ fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
             let y_lat = inputs[2].f64().unwrap();
             let y_long = inputs[3].f64().unwrap();
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
-            out.into_series()
+            out.with_name(inputs[0].name().clone()).into_series()
         }
         _ => return Err(PolarsError::ComputeError("Data type not supported.".into())),
     };
-- 
2.43.0


From 2b8da807a76ba8945e552950631b90c7e3a41e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 100/136] fix: chi2 with return_full works in group_by

---
 python/polars_ds/exprs/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 0c0763b..58f6ae3 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -280,7 +280,10 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     """
     if return_full:
         return pl_plugin(
-            symbol="pl_chi2_full", args=[str_to_expr(var1), str_to_expr(var2)], changes_length=True
+            symbol="pl_chi2_full",
+            args=[str_to_expr(var1), str_to_expr(var2)],
+            changes_length=True,
+            pass_name_to_apply=True,
         )
     else:
         return pl_plugin(
-- 
2.43.0


From 4599c4b37c8069094750d0a9eeedef618d168918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 101/136] fix: the schema of recursive and rolling regressions
 names pred

---
 src/num_ext/linear_regression.rs     | 2 +-
 src/num_ext/linear_regression_f32.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index fef352a..97b839a 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -75,7 +75,7 @@ fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 91f4148..838c9ab 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -50,7 +50,7 @@ fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
-- 
2.43.0


From aad3f167bb15f87e69e97147a0f4e37ae9397df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 102/136] fix: the schema of multi target regressions is the
 one they return

---
 src/num_ext/linear_regression.rs     | 26 +++++++++++++++++++++++---
 src/num_ext/linear_regression_f32.rs | 26 +++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 97b839a..4daccae 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -73,6 +73,27 @@ fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v: Vec<Field> = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| Field::new(f.name().clone(), DataType::List(Box::new(DataType::Float64))))
+        .collect();
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
+}
+
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v: Vec<Field> = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| {
+            [
+                Field::new(format!("{}_pred", f.name()).into(), DataType::Float64),
+                Field::new(format!("{}_resid", f.name()).into(), DataType::Float64),
+            ]
+        })
+        .collect();
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
+}
+
 fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let pred = Field::new("pred".into(), DataType::Float64);
@@ -346,7 +367,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
 
 // Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
 // coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -394,8 +415,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 838c9ab..f62e385 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -48,6 +48,27 @@ fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v: Vec<Field> = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| Field::new(f.name().clone(), DataType::List(Box::new(DataType::Float32))))
+        .collect();
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
+}
+
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v: Vec<Field> = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| {
+            [
+                Field::new(format!("{}_pred", f.name()).into(), DataType::Float32),
+                Field::new(format!("{}_resid", f.name()).into(), DataType::Float32),
+            ]
+        })
+        .collect();
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
+}
+
 fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let pred = Field::new("pred".into(), DataType::Float32);
@@ -288,7 +309,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
 
 // Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
 // coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -340,8 +361,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
-- 
2.43.0


From da608af4441dbb632f610d1e86ef3033034ff69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 103/136] fix: the schema of a report with robust errors names
 their column

---
 src/num_ext/linear_regression.rs     | 16 ++++++++++++----
 src/num_ext/linear_regression_f32.rs | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 4daccae..ad69e72 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -52,10 +52,10 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(fields: &[Field]) -> PolarsResult<Field> {
+fn report_schema(fields: &[Field], se_type: StandardError) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(se_type.into(), DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -66,6 +66,14 @@ fn report_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
+fn report_output(fields: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_schema(fields, StandardError::from(kwargs.std_err))
+}
+
+fn wls_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    report_schema(fields, StandardError::SE)
+}
+
 fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
@@ -593,7 +601,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -753,7 +761,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index f62e385..fa6dc62 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -27,10 +27,10 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(fields: &[Field]) -> PolarsResult<Field> {
+fn report_schema(fields: &[Field], se_type: StandardError) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(se_type.into(), DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -41,6 +41,14 @@ fn report_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
+fn report_output(fields: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_schema(fields, StandardError::from(kwargs.std_err))
+}
+
+fn wls_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    report_schema(fields, StandardError::SE)
+}
+
 fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
@@ -542,7 +550,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -701,7 +709,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
-- 
2.43.0


From 8bbaccc5aa71cea261a0aa5d19c54adb54929bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 104/136] fix: the schema of principal_components has the k
 components

---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 src/num_ext/pca.rs            | 25 ++++++++++++++++++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 97c7508..40188bd 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -356,13 +356,17 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
     if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
+        actual_inputs = [f - f.mean() for f in feats]
     else:
-        actual_inputs.extend(feats)
+        actual_inputs = feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 09ff5da..57431b1 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(fields: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PrincipalComponentsKwargs {
+    pub(crate) k: usize,
+}
+
+fn principal_components_output(
+    fields: &[Field],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,12 +87,14 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(
+    inputs: &[Series],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
-- 
2.43.0


From 187643347ca7216e7d2b9656ce497ffca8b949aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:52 +0000
Subject: [PATCH 105/136] fix: pca and principal_components with fewer rows
 than features

---
 src/num_ext/pca.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 57431b1..f4b1f08 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -107,7 +107,7 @@ fn pl_principal_components(
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(mat.ncols(), dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -150,7 +150,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(mat.ncols(), dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -177,7 +177,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
         ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..dim {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From 888449daa3ecaca9a9ce216c69adab41c22bbf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 106/136] fix: gamma, expit, logit, exp2, fract, next_up and
 next_down of integers are Float64

---
 src/num_ext/float_extras.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index 16a231a..b022021 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -32,28 +32,28 @@ fn expit<T: Float>(x: T) -> T {
     T::one() / (T::one() + (-x).exp())
 }
 
-fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(logit::<f32>)
+fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(logit::<f64>)
 }
 
-fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(expit::<f32>)
+fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(expit::<f64>)
 }
 
-fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::gamma)
+fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::gamma)
 }
 
-fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::exp2)
+fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::exp2)
 }
 
-fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_up)
+fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_up)
 }
 
-fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_down)
+fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_down)
 }
 
 fn cast_and_apply_diagamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
@@ -200,8 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        let ca = s.cast(&DataType::Float32)?;
-        Ok(ca.f32()?.apply_values(|_| 0f32).into_series())
+        let ca = s.cast(&DataType::Float64)?;
+        Ok(ca.f64()?.apply_values(|_| 0f64).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From 733210260c3d9dc5dd8481a8d91290b923f36022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 107/136] fix: msle of single precision columns has the type it
 declares

---
 python/polars_ds/exprs/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index d1832eb..ed7d50b 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -337,8 +337,8 @@ def query_msle(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = Tru
     normalize
         If true, divide the result by length of the series
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a.log1p() - p.log1p()
     out = diff.dot(diff)
     if normalize:
-- 
2.43.0


From aada804d925c737ac536480cfea3dd6f495b8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 108/136] fix: spearman correlation of single precision columns
 has the type it declares

---
 python/polars_ds/exprs/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 58f6ae3..f379b49 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -1039,8 +1039,10 @@ def corr(x: str | pl.Expr, y: str | pl.Expr, method: CorrMethod = "pearson") ->
     method
         One of ["pearson", "spearman", "xi", "kendall", "bicor"]
     """
-    if method in ["pearson", "spearman"]:
+    if method == "pearson":
         return pl.corr(x, y, method=method)
+    elif method == "spearman":  # ranks are Float64, whatever x and y are
+        return pl.corr(x, y, method=method).cast(pl.Float64)
     elif method == "xi":
         return xi_corr(x, y)
     elif method == "kendall":
-- 
2.43.0


From 038ac9215343d651ff2eb4ed6fc6e327b276ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 109/136] fix: explained variances in lazy aggregations

---
 python/polars_ds/exprs/num.py | 13 ++++++-------
 src/num_ext/pca.rs            | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 40188bd..1b803b2 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,13 +296,12 @@ def singular_values(
     else:
         actual_inputs = feats
 
-    if as_explained_var:  # rows with nulls will be dropped, and do not count as samples
-        n_samples = pl.all_horizontal(f.is_not_null() for f in feats).sum().cast(pl.Float64)
-        actual_inputs = [f / (n_samples - 1).sqrt() for f in actual_inputs]
-
-    out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
-    if as_explained_var:
-        out = out.list.eval(pl.element().pow(2))
+    out = pl_plugin(
+        symbol="pl_singular_values",
+        args=actual_inputs,
+        kwargs={"explained_var": as_explained_var},
+        returns_scalar=True,
+    )
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index f4b1f08..f72bee2 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -46,8 +46,13 @@ fn principal_components_output(
     ))
 }
 
+#[derive(Deserialize, Debug)]
+pub(crate) struct SingularValuesKwargs {
+    pub(crate) explained_var: bool,
+}
+
 #[polars_expr(output_type_func=singular_values_output)]
-fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
+fn pl_singular_values(inputs: &[Series], kwargs: SingularValuesKwargs) -> PolarsResult<Series> {
     let mat = to_f64_matrix_without_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
 
@@ -79,6 +84,12 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     )
     .map_err(|_| PolarsError::ComputeError("SVD algorithm did not converge.".into()))?;
 
+    if kwargs.explained_var {
+        // rows with nulls are dropped, and do not count as samples
+        let dof = m as f64 - 1.0;
+        s.iter_mut().for_each(|x| *x = *x * *x / dof);
+    }
+
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
         ListPrimitiveChunkedBuilder::new("singular_values".into(), 1, dim, DataType::Float64);
 
-- 
2.43.0


From 2bf68d120ed850774f0b6b432a6f845ec6076c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 110/136] fix: NumPy scalars as parameters in the compat layer

---
 python/polars_ds/compat/_compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 26d0803..3f7084e 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -23,7 +23,9 @@ class _Compat():
         Try to map the input to a Polars Series by going through a NumPy array. If
         this is not possible, return the original input.
         """
-        if isinstance(x, np.ndarray):
+        if isinstance(x, np.generic): # a NumPy scalar is a plain value
+            return x.item()
+        elif isinstance(x, np.ndarray):
             return pl.lit(pl.Series(name=name, values=x))
         elif isinstance(x, pl.Series):
             return pl.lit(x)
-- 
2.43.0


From 1b0f47de696f94989af41b503b22e35351a5edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 111/136] fix: series of the same name in the compat layer

---
 python/polars_ds/compat/_compat.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 3f7084e..73a96d0 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -18,17 +18,18 @@ __all__ = ["compat"]
 class _Compat():
 
     @staticmethod
-    def _try_into_series(x:Any, name:str) -> Any:
+    def _try_into_series(x:Any, name:str, names: list[str]) -> Any:
         """
         Try to map the input to a Polars Series by going through a NumPy array. If
-        this is not possible, return the original input.
+        this is not possible, return the original input. A Series keeps its name unless
+        it has none, or another Series in names has the same.
         """
         if isinstance(x, np.generic): # a NumPy scalar is a plain value
             return x.item()
         elif isinstance(x, np.ndarray):
             return pl.lit(pl.Series(name=name, values=x))
         elif isinstance(x, pl.Series):
-            return pl.lit(x)
+            return pl.lit(x if x.name and names.count(x.name) == 1 else x.alias(name))
         elif hasattr(x, "__array__"):
             return pl.lit(pl.Series(name=name, values=x.__array__()))
         else: 
@@ -44,12 +45,15 @@ class _Compat():
             if len(positionals) <= 0:
                 raise ValueError("There must be at least 1 positional argument!")
             
+            names = [
+                x.name for x in (*positionals, *kwargs.values()) if isinstance(x, pl.Series)
+            ]
             new_args = (
-                _Compat._try_into_series(x, name = str(i))
+                _Compat._try_into_series(x, name = str(i), names = names)
                 for i, x in enumerate(positionals)
             )
             new_kwargs = {
-                n: _Compat._try_into_series(v, name = n)
+                n: _Compat._try_into_series(v, name = n, names = names)
                 for n, v in kwargs.items()
             }
             # An eager df, drop output col, so a pl.Series
-- 
2.43.0


From 927a61b255947f59edfcde53c12541317ffff4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:18 +0000
Subject: [PATCH 112/136] fix: functions that ask for the length in the compat
 layer

---
 python/polars_ds/compat/_compat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 73a96d0..340dedf 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -57,8 +57,15 @@ class _Compat():
                 for n, v in kwargs.items()
             }
             # An eager df, drop output col, so a pl.Series
+            # The df has as many rows as the inputs, for functions that ask for the length
+            lens = [
+                len(x) if isinstance(x, pl.Series) else len(np.atleast_1d(x.__array__()))
+                for x in (*positionals, *kwargs.values())
+                if hasattr(x, "__array__") and not isinstance(x, np.generic)
+            ]
+            df = pl.DataFrame({"__row__": range(max(lens))} if lens else None)
             return (
-                pl.select(
+                df.select(
                     func(*new_args, **new_kwargs).alias("__output__")
                 ).drop_in_place("__output__")
                 .rename(name.replace("query_", ""))
-- 
2.43.0


From c15f4ae89c0d7beda4e2fc5cebfc0b9e84821806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 113/136] fix: infer_prob only looked at the first row of list
 columns

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..d97a201 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -507,7 +507,9 @@ class DIA:
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-                    ).alias(c)
+                    )
+                    .all()  # on every row
+                    .alias(c)
                     for c in self.list_floats
                 ),
             )
-- 
2.43.0


From 5981538f3cad6c02cafcd6c3f306f7d9ff9b4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 114/136] fix: infer_discrete left out boolean and categorical
 columns

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index d97a201..7a9a654 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -556,6 +556,8 @@ class DIA:
         """
         out: List[str] = self.bools + self.cats
         to_check = [c for c in self._frame.columns if c not in out]
+        if len(to_check) == 0:
+            return out
         is_ok = (
             self._frame.select(
                 (
@@ -568,7 +570,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 9ac846fab3a88db86a6ac7ad2db33b7610955257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 115/136] fix: row_validation(all_reasons=True) gave rules that
 are not violated

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 7a9a654..4e9e79e 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -322,9 +322,9 @@ class DIA:
 
         if all_reasons:
             reasons = [
-                pl.when(pl.col(c)).then(None).otherwise(pl.lit(c, dtype=pl.String))
+                pl.when(pl.col(c).not_()).then(pl.lit(c, dtype=pl.String)).otherwise(None)
                 for c in all_rule_names
-            ]  # When true, return None. When false, return reason
+            ]  # When false, return reason. When true or null, return None
 
             return df_temp.select(
                 *to_keep, pl.concat_list(reasons).list.drop_nulls().list.sort().alias("__reason__")
-- 
2.43.0


From 95aa34c758da655e6b63420398137d617796ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 116/136] fix: col_validation with more than one rule per
 column

---
 python/polars_ds/eda/diagnosis.py | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 4e9e79e..bceb3c7 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -248,23 +248,27 @@ class DIA:
             If the boolean is False, then the entire column is considered to be violiating the rule.
         """
         rules_to_check = list(rules)
-        rules_exprs = [r.name.keep() for r, _ in rules_to_check]
-        violation_messages = [msg for _, msg in rules_to_check]
-
-        df_temp = self._frame.select(*rules_exprs).collect()
-
-        if len(df_temp) > 1:
-            raise ValueError(
-                "Column rules must evaluate to a single boolean expression for each rule. "
-                f"But a dataframe of shape {df_temp.shape} is produced."
-            )
-
-        df_violation = df_temp.transpose(include_header=True, column_names=["pass"]).with_columns(
-            pl.Series(name="__reason__", values=violation_messages)
+        # More than one rule may be about the same column
+        df_temps = pl.collect_all([self._frame.select(r.name.keep()) for r, _ in rules_to_check])
+
+        columns = []
+        reasons = []
+        for df_temp, (_, msg) in zip(df_temps, rules_to_check):
+            if len(df_temp) > 1:
+                raise ValueError(
+                    "Column rules must evaluate to a single boolean expression for each rule. "
+                    f"But a dataframe of shape {df_temp.shape} is produced."
+                )
+            for c, ok in zip(df_temp.columns, df_temp.row(0)):
+                if ok is False:
+                    columns.append(c)
+                    reasons.append(msg)
+
+        return pl.DataFrame(
+            {"column": columns, "__reason__": reasons},
+            schema={"column": pl.String, "__reason__": pl.String},
         )
 
-        return df_violation.filter(pl.col("pass").not_()).select("column", "__reason__")
-
     def row_validation(
         self,
         *rules: Tuple[pl.Expr, str],
-- 
2.43.0


From c68e5248932fb158420094d5aa199a97b2515719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 117/136] fix: the histogram of small integer types overflowed

---
 python/polars_ds/eda/diagnosis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index bceb3c7..d3b01a1 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -172,7 +172,10 @@ class DIA:
                     .sum()
                     .alias("outlier_cnt"),
                     pl.struct(
-                        ((pl.col(c) - pl.col(c).min()) / (pl.col(c).max() - pl.col(c).min()))
+                        (
+                            (pl.col(c).cast(pl.Float64) - pl.col(c).min())
+                            / (pl.col(c).max().cast(pl.Float64) - pl.col(c).min())
+                        )
                         .filter(pl.col(c).is_finite())
                         .cut(breaks=cuts, left_closed=True, include_breaks=True)
                         .struct.rename_fields(["brk", "category"])
-- 
2.43.0


From d6665565d5010b813801130ccf1494ecd6d954d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 118/136] fix: str_stats of a column named count

---
 python/polars_ds/eda/diagnosis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index d3b01a1..ef7e1d4 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -422,11 +422,15 @@ class DIA:
                 pl.lit(c).alias("column"),
                 pl.col(c).null_count().alias("null_count"),
                 pl.col(c).n_unique().alias("n_unique"),
-                pl.col(c).value_counts(sort=True).first().struct.field(c).alias("most_freq"),
                 pl.col(c)
-                .value_counts(sort=True)
+                .value_counts(sort=True, name="__count__")
                 .first()
-                .struct.field("count")
+                .struct.field(c)
+                .alias("most_freq"),
+                pl.col(c)
+                .value_counts(sort=True, name="__count__")
+                .first()
+                .struct.field("__count__")
                 .alias("most_freq_cnt"),
                 pl.col(c).str.len_bytes().min().alias("min_byte_len"),
                 pl.col(c).str.len_chars().min().alias("min_char_len"),
-- 
2.43.0


From 56ab7fe2927e9275894272e8ee155eaf5432e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 119/136] fix: data inspection without columns to look at

---
 python/polars_ds/eda/diagnosis.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index ef7e1d4..b894115 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -506,6 +506,9 @@ class DIA:
         between 0 and 1. For List[f32] or List[f64] columns, this checks whether the column can potentially be
         multi-class probabilities.
         """
+        if len(self.floats) + len(self.list_floats) == 0:
+            return []
+
         is_ok = (
             self._frame.select(
                 *((pl.col(c).is_between(0.0, 1.0).all()).alias(c) for c in self.floats),
@@ -705,6 +708,9 @@ class DIA:
             xx.append(x)
             yy.append(y)
 
+        if len(xx) == 0:
+            return pl.DataFrame(schema={"x": pl.String, "y": pl.String, "corr": pl.Float64})
+
         corrs = (
             self._frame.with_columns(pl.col(c).cast(pl.UInt8) for c in self.bools)
             .select(corr(x, y, method=method).alias(f"{i}") for i, (x, y) in enumerate(zip(xx, yy)))
@@ -740,7 +746,9 @@ class DIA:
         check_frame = self._frame.select(subset)
         all_names = check_frame.collect_schema().names()
         to_check = [x for x in all_names if x in valid]
-        n_uniques = check_frame.select(pl.col(c).n_unique() for c in to_check).collect().row(0)
+        n_uniques = [
+            check_frame.select(pl.col(c).n_unique()).collect().item(0, 0) for c in to_check
+        ]
 
         frame = (
             pl.DataFrame({"column": to_check, "n_unique": n_uniques})
-- 
2.43.0


From 2d48bf20a0c0cc72a96c52a7a358aa82e7f8c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:58 +0000
Subject: [PATCH 120/136] fix: changing a list of inferred columns changed the
 next answer

---
 python/polars_ds/eda/diagnosis.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index b894115..d08272d 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -19,7 +19,7 @@ import graphviz
 import warnings
 
 from typing import Iterable, Dict
-from functools import lru_cache
+from functools import lru_cache, wraps
 from itertools import combinations
 from great_tables import GT
 
@@ -35,6 +35,20 @@ alt.data_transformers.enable("vegafusion")
 __all__ = ["DIA"]
 
 
+def _cached_names(func):
+    """
+    Like lru_cache, for methods that return a list of names. Every call returns its own list, so that
+    changing a returned list doesn't change the answer of the next call.
+    """
+    cached = lru_cache(lambda *args, **kwargs: tuple(func(*args, **kwargs)))
+
+    @wraps(func)
+    def wrapper(*args, **kwargs) -> List[str]:
+        return list(cached(*args, **kwargs))
+
+    return wrapper
+
+
 # DIA = Data Inspection Assistant / DIAgonsis
 class DIA:
     """
@@ -533,7 +547,7 @@ class DIA:
 
         return [c for c, ok in zip(self.floats + self.list_floats, is_ok) if ok is True]
 
-    @lru_cache
+    @_cached_names
     def infer_high_null(self, threshold: float = 0.75) -> List[str]:
         """
         Infers columns with more than threshold percentage nulls.
@@ -554,7 +568,7 @@ class DIA:
 
         return [c for c, ok in zip(self._frame.columns, is_ok) if ok is True]
 
-    @lru_cache
+    @_cached_names
     def infer_discrete(self, threshold: float = 0.1, max_val_cnt: int = 100) -> List[str]:
         """
         Infers discrete columns based on unique percentage and max_val_count.
@@ -586,7 +600,7 @@ class DIA:
 
         return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
-    @lru_cache
+    @_cached_names
     def infer_const(self, include_null: bool = False) -> List[str]:
         """
         Infers whether the column is constant.
@@ -619,7 +633,7 @@ class DIA:
 
         return [c for c, ok in zip(self._frame.columns, is_ok) if ok is True]
 
-    @lru_cache
+    @_cached_names
     def infer_binary(self, include_null: bool = False) -> List[str]:
         """
         Infers whether the column is binary.
@@ -652,7 +666,7 @@ class DIA:
 
         return [c for c, ok in zip(self._frame.columns, is_ok) if ok is True]
 
-    @lru_cache
+    @_cached_names
     def infer_k_distinct(self, k: int, include_null: bool = False) -> List[str]:
         """
         Infers whether the column has k distinct values.
-- 
2.43.0


From 2650fca35d70d688e5d4dfc70326a06538f0f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 121/136] fix: numeric_profile rounded the median

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index d08272d..a595572 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -169,7 +169,7 @@ class DIA:
                     pl.col(c).std().cast(pl.Float64).alias("std"),
                     pl.col(c).min().cast(pl.Float64).cast(pl.Float64).alias("min"),
                     pl.col(c).quantile(0.25).cast(pl.Float64).alias("q1"),
-                    pl.col(c).median().cast(pl.Float64).round(2).alias("median"),
+                    pl.col(c).median().cast(pl.Float64).alias("median"),
                     pl.col(c).quantile(0.75).cast(pl.Float64).alias("q3"),
                     pl.col(c).max().cast(pl.Float64).alias("max"),
                     (pl.col(c).quantile(0.75) - pl.col(c).quantile(0.25))
@@ -212,7 +212,7 @@ class DIA:
                     pl.col(c).std().cast(pl.Float64).alias("std"),
                     pl.col(c).min().cast(pl.Float64).cast(pl.Float64).alias("min"),
                     pl.col(c).quantile(0.25).cast(pl.Float64).alias("q1"),
-                    pl.col(c).median().cast(pl.Float64).round(2).alias("median"),
+                    pl.col(c).median().cast(pl.Float64).alias("median"),
                     pl.col(c).quantile(0.75).cast(pl.Float64).alias("q3"),
                     pl.col(c).max().cast(pl.Float64).alias("max"),
                     (pl.col(c).quantile(0.75) - pl.col(c).quantile(0.25))
-- 
2.43.0


From 659a9e6ea2442345f3c89f6f32718640adb26ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 122/136] fix: target_encode panicked on categorical columns

---
 python/polars_ds/exprs/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 1b803b2..b342713 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -1012,7 +1012,8 @@ def target_encode(
         t = pl.lit(pl.Series(values=target))
     return pl_plugin(
         symbol="pl_target_encode",
-        args=[str_to_expr(s), t, t.cast(pl.Float64).mean()],
+        # Cast, because categorical columns cannot be passed to the plugin
+        args=[str_to_expr(s).cast(pl.String), t, t.cast(pl.Float64).mean()],
         kwargs={"min_samples_leaf": float(min_samples_leaf), "smoothing": smoothing},
         changes_length=True,
     )
-- 
2.43.0


From f758a6ed774d9153c8d8ab602e56787a1600ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 123/136] fix: the process was aborted by conditional entropy
 of a categorical column

---
 python/polars_ds/exprs/ts_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 28e735c..2b6e283 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -510,7 +510,8 @@ def query_cond_entropy(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     """
     return pl_plugin(
         symbol="pl_conditional_entropy",
-        args=[str_to_expr(x), str_to_expr(y)],
+        # Categorical columns cannot be passed to the plugin. Only whether values are equal matters
+        args=[str_to_expr(x).to_physical(), str_to_expr(y).to_physical()],
         returns_scalar=True,
         pass_name_to_apply=True,
     )
-- 
2.43.0


From 94a7668adccd75685d26c765ace2e989c332802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 124/136] fix: chi2 and f_test panicked on categorical columns

---
 python/polars_ds/exprs/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index f379b49..d327c01 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -250,7 +250,8 @@ def f_test(*variables: str | pl.Expr, group: str | pl.Expr) -> pl.Expr:
     group
         The "target" column used to group the variables
     """
-    vars_ = [str_to_expr(group)]
+    # Categorical columns cannot be passed to the plugin. Only whether groups are equal matters
+    vars_ = [str_to_expr(group).to_physical()]
     vars_.extend(str_to_expr(x) for x in variables)
     if len(vars_) <= 1:
         raise ValueError("No input feature column to run F-test on.")
@@ -288,7 +289,8 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     else:
         return pl_plugin(
             symbol="pl_chi2",
-            args=[str_to_expr(var1), str_to_expr(var2)],
+            # Categorical columns cannot be passed to the plugin. Only whether values are equal matters
+            args=[str_to_expr(var1).to_physical(), str_to_expr(var2).to_physical()],
             returns_scalar=True,
         )
 
-- 
2.43.0


From 775f67b86fb7745b0b49364611480b29504e287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 125/136] fix: DIA.corr of float32 and other columns

---
 python/polars_ds/eda/diagnosis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index a595572..97d7f29 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -485,7 +485,8 @@ class DIA:
             for x in to_check
         ]
 
-        return pl.concat(pl.collect_all(corrs))
+        # The correlation of two float32 columns is a float32
+        return pl.concat(pl.collect_all(corrs), how="vertical_relaxed")
 
     def plot_corr(
         self, subset: IntoExpr | Iterable[IntoExpr], method: CorrMethod = "pearson"
-- 
2.43.0


From 48d1ba914ccac544d5440226a6e4b27382150e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 126/136] fix: simple_lin_reg of small or unsigned integer
 columns wrapped around

---
 python/polars_ds/exprs/expr_linear.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index ea4bd41..ce5ee2d 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -68,8 +68,9 @@ def simple_lin_reg(
         residue, it will return the same number of rows as in input.
     """
     # No test. All forumla here are mathematically correct.
-    xx = lr_formula(x)
-    yy = lr_formula(target)
+    # Integers are turned into floats first, because products of small integers can wrap around
+    xx = lr_formula(x) * 1.0
+    yy = lr_formula(target) * 1.0
     if add_bias:
         if weights is None:
             x_mean = xx.mean()
@@ -77,7 +78,7 @@ def simple_lin_reg(
             beta = (xx - x_mean).dot(yy - y_mean) / (xx - x_mean).dot(xx - x_mean)
             alpha = y_mean - beta * x_mean
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights) * 1.0
             w_sum = w.sum()
             x_wmean = w.dot(xx) / w_sum
             y_wmean = w.dot(yy) / w_sum
@@ -94,7 +95,7 @@ def simple_lin_reg(
         if weights is None:
             beta = xx.dot(yy) / xx.dot(xx)
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights) * 1.0
             beta = w.dot(xx * yy) / w.dot(xx.pow(2))
 
         if return_pred:
-- 
2.43.0


From 65c4de8f25c7f6c07a863ab6bbce969ec752ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 127/136] fix: simple_lin_reg with nulls was not a regression
 of any rows

---
 python/polars_ds/exprs/expr_linear.py | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index ce5ee2d..f564691 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -71,18 +71,28 @@ def simple_lin_reg(
     # Integers are turned into floats first, because products of small integers can wrap around
     xx = lr_formula(x) * 1.0
     yy = lr_formula(target) * 1.0
+    # Only the rows without nulls take part in the regression
+    complete = xx.is_not_null() & yy.is_not_null()
+    if weights is not None:
+        w = lr_formula(weights) * 1.0
+        complete = complete & w.is_not_null()
+        w = pl.when(complete).then(w)
+    x_fit = pl.when(complete).then(xx)
+    y_fit = pl.when(complete).then(yy)
+
     if add_bias:
         if weights is None:
-            x_mean = xx.mean()
-            y_mean = yy.mean()
-            beta = (xx - x_mean).dot(yy - y_mean) / (xx - x_mean).dot(xx - x_mean)
+            x_mean = x_fit.mean()
+            y_mean = y_fit.mean()
+            beta = (x_fit - x_mean).dot(y_fit - y_mean) / (x_fit - x_mean).dot(x_fit - x_mean)
             alpha = y_mean - beta * x_mean
         else:
-            w = lr_formula(weights) * 1.0
             w_sum = w.sum()
-            x_wmean = w.dot(xx) / w_sum
-            y_wmean = w.dot(yy) / w_sum
-            beta = w.dot((xx - x_wmean) * (yy - y_wmean)) / (w.dot((xx - x_wmean).pow(2)))
+            x_wmean = w.dot(x_fit) / w_sum
+            y_wmean = w.dot(y_fit) / w_sum
+            beta = w.dot((x_fit - x_wmean) * (y_fit - y_wmean)) / (
+                w.dot((x_fit - x_wmean).pow(2))
+            )
             alpha = y_wmean - beta * x_wmean
 
         if return_pred:
@@ -93,10 +103,9 @@ def simple_lin_reg(
             return (beta.append(alpha)).implode().alias("coeffs")
     else:
         if weights is None:
-            beta = xx.dot(yy) / xx.dot(xx)
+            beta = x_fit.dot(y_fit) / x_fit.dot(x_fit)
         else:
-            w = lr_formula(weights) * 1.0
-            beta = w.dot(xx * yy) / w.dot(xx.pow(2))
+            beta = w.dot(x_fit * y_fit) / w.dot(x_fit.pow(2))
 
         if return_pred:
             return pl.struct(pred=beta * xx, resid=yy - (beta * xx)).alias("lr_pred")
-- 
2.43.0


From 9059c8b540e4b75badcb493e4dd55919594d9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 128/136] fix: plot_roc_auc left the origin out of the area
 under the curve

---
 python/polars_ds/eda/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index e0c319f..72ccce7 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -530,13 +530,14 @@ def plot_roc_auc(
             .unnest("tpr_fpr")
             .select("tpr", "fpr")
         )
+        curve = pl.concat([zero, tpr_fpr])
 
         text = p
         if show_auc:
-            auc = tpr_fpr.select(integrate_trapz("tpr", "fpr")).item(0, 0)
+            auc = curve.select(integrate_trapz("tpr", "fpr")).item(0, 0)
             text += f" (AUC = {round(auc, n_decimals)})"
 
-        dfs.append(pl.concat([zero, tpr_fpr]).with_columns(name=pl.lit(text, dtype=pl.String)))
+        dfs.append(curve.with_columns(name=pl.lit(text, dtype=pl.String)))
 
     perfect_line = pl.int_range(1, 100, step=5, eager=True) / 100
     df_line = pl.DataFrame({"fpr": perfect_line, "tpr": perfect_line}).with_columns(
-- 
2.43.0


From 2fd06840e9b5f5602a34f0177c6fdc1bea891b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 129/136] fix: plot_lin_reg drew a wrong line for small
 integers and for columns with nulls

---
 python/polars_ds/eda/plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index 72ccce7..1a1ac0c 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -227,7 +227,8 @@ def plot_lin_reg(
     """
 
     to_select = [x, target] if weights is None else [x, target, weights]
-    temp = df.lazy().select(*to_select)
+    # As floats, because products of small integers can wrap around
+    temp = df.lazy().select(pl.col(to_select).cast(pl.Float64))
 
     xx = pl.col(x)
     yy = pl.col(target)
@@ -256,16 +257,17 @@ def plot_lin_reg(
 
         alpha = pl.lit(0, dtype=pl.Float64)
 
-    beta, alpha, r2, length = (
-        temp.select(
+    beta, alpha, r2 = (
+        temp.drop_nulls()
+        .select(
             beta.alias("beta"),
             alpha.alias("alpha"),
             query_r2(yy, xx * beta + alpha).alias("r2"),
-            pl.len(),
         )
         .collect()
         .row(0)
     )
+    length = temp.select(pl.len()).collect().item(0, 0)
 
     df_need = temp.select(
         xx,
-- 
2.43.0


From 73b9798f3139942e91ba06865bf5e32b082babac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 130/136] fix: plot_pca raised TypeError when by is an
 expression

---
 python/polars_ds/eda/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index 1a1ac0c..dd96a8d 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -340,8 +340,9 @@ def plot_pca(
     df_plot = sa.sample(temp, value=max_points).unnest("pc")
 
     if dim == 2:
+        color = by.meta.output_name() if isinstance(by, pl.Expr) else by
         return (
-            alt.Chart(df_plot).mark_circle(size=60).encode(x="pc1", y="pc2", color=by, **kwargs)
+            alt.Chart(df_plot).mark_circle(size=60).encode(x="pc1", y="pc2", color=color, **kwargs)
         )  # .interactive()
     else:  # 3d
         raise NotImplementedError
-- 
2.43.0


From 7210be2157a47abcb05a9d6ec735216e1643afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 131/136] fix: DIA.plot_feature_distr raised TypeError unless
 n_bins was given

---
 python/polars_ds/eda/diagnosis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 97d7f29..3655308 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -898,15 +898,16 @@ class DIA:
         if max_ is not None:
             conditions.append(pl.col(feature) <= max_)
 
+        columns = [feature] if over is None else [feature, over]
         if len(conditions) > 0:
-            df = self._frame.filter(pl.all_horizontal(*conditions)).select(feature, over).collect()
+            df = self._frame.filter(pl.all_horizontal(*conditions)).select(columns).collect()
         else:
-            df = self._frame.select(feature, over).collect()
+            df = self._frame.select(columns).collect()
 
         return plot_feature_distr(
             df=df,
             feature=feature,
-            n_bins=n_bins,
+            n_bins=10 if n_bins is None else n_bins,
             density=density,
             show_bad_values=show_bad_values,
             over=over,
-- 
2.43.0


From e0efcd655e0e46cbe05c48086909b547df4480df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 132/136] fix: query_nb_cnt raised for a radius column that is
 not Float64

---
 python/polars_ds/exprs/expr_knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 14ed55e..3adbbbc 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -552,9 +552,9 @@ def query_nb_cnt(
     if isinstance(r, (float, int)):
         rad = pl.lit(pl.Series(values=[r], dtype=pl.Float64))
     elif isinstance(r, pl.Expr):
-        rad = r
+        rad = r.cast(pl.Float64)
     elif isinstance(r, str):
-        rad = pl.col(r)
+        rad = pl.col(r).cast(pl.Float64)
     else:
         rad = pl.lit(pl.Series(values=r, dtype=pl.Float64))
 
-- 
2.43.0


From 7416605b848920d4fddaff8f7bc03bb48a42967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 133/136] fix: query_multi_roc_auc of filtered inputs weighs by
 their own length

---
 python/polars_ds/exprs/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index ed7d50b..f2431f5 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -555,7 +555,7 @@ def query_multi_roc_auc(
         preds = [p.list.get(i) for i in range(n_classes)]
         return (
             pl.sum_horizontal(a.sum() * query_roc_auc(a, p) for a, p in zip(actuals, preds))
-            / pl.len()
+            / a.len()
         )
     else:
         raise NotImplementedError
-- 
2.43.0


From 633df94c88db0554f98e378a3236702abed8e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 134/136] fix: query_auto_corr of a filtered input uses its own
 length

---
 python/polars_ds/exprs/ts_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 2b6e283..52282c2 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -409,7 +409,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-        n = pl.len()
+        n = xx.len()
         n_minus_lag = pl.when(n < lag).then(float("nan")).otherwise(n - lag)
         return x_m.dot(x_m.shift(-lag)) / (n_minus_lag * var)
     else:
-- 
2.43.0


From 48f237dc2971aa0095acda5c97fc4bf39023c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 135/136] fix: query_transfer_entropy of filtered inputs uses
 their own length

---
 python/polars_ds/exprs/ts_features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 52282c2..dc5e10d 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -726,9 +726,9 @@ def query_transfer_entropy(
         raise ValueError("Input `lag` must be >= 1.")
 
     xx = str_to_expr(x)
-    x1 = xx.slice(0, pl.len() - lag)
-    x2 = xx.slice(lag, pl.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
-    s = str_to_expr(source).slice(0, pl.len() - lag)
+    x1 = xx.slice(0, xx.len() - lag)
+    x2 = xx.slice(lag, xx.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
+    s = str_to_expr(source).slice(0, xx.len() - lag)
     return query_cond_indep(x2, s, x1, k=k, parallel=parallel)
 
 
-- 
2.43.0


From f37d12d054b7d10bb233fa7dda41bc85f3363766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 136/136] fix: random_null of a filtered input

---
 python/polars_ds/exprs/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index d327c01..02b960f 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -536,7 +536,8 @@ def random_null(x: str | pl.Expr, pct: float, seed: int | None = None) -> pl.Exp
     if pct <= 0.0 or pct >= 1.0:
         raise ValueError("Input `pct` must be > 0 and < 1")
 
-    return pl.when(random(0.0, 1.0, seed=seed) < pct).then(None).otherwise(str_to_expr(x))
+    xx = str_to_expr(x)
+    return pl.when(random(0.0, 1.0, seed=seed, length=xx.len()) < pct).then(None).otherwise(xx)
 
 
 def random_int(
-- 
2.43.0

