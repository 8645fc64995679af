From 298e939e4667526595d480e951942624d5d31cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 01/17] fix: Bitset::disable_bit clears the bit instead of
 setting it

---
 src/bitset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset.rs b/src/bitset.rs
index 3e36f45..046dfc5 100644
--- a/src/bitset.rs
+++ b/src/bitset.rs
@@ -49,7 +49,7 @@ impl Bitset {
     pub fn disable_bit(&mut self, index: usize) {
         let i = index / BitBlock::nbits();
         let j = index % BitBlock::nbits();
-        self.blocks[i].enable_bit(j)
+        self.blocks[i].disable_bit(j)
     }
 }
 
-- 
2.43.0


From 5679c3648e3c55bb0459fb6daf0f408f869f7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 02/17] fix: weigh a bagged category by the gradients of its
 own examples

update_hicard_cat indexed the gradients by the position in the bag instead of
the example's index, so super-categories were ordered by other examples'
gradients whenever bagging was enabled.
---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..150eb1d 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter.into_iter() {
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From cdf76d8d8cca68db32c9ac59fa76004c12ebceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 03/17] fix: no rank underflow with fewer examples than
 super-category splits

With less than (max_nbins+1)/2 active examples the first rank rounds to zero
and subtracting one panicked (or wrapped without overflow checks).
---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 150eb1d..60a7a6a 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,7 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins).map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From eaf7f2500cb4c2190b822b43f5671d79feced9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 04/17] fix: bin numerical values on the side of a split that
 prediction takes

Training assigned values to splits by their quantile bin, prediction by
'value < split'. The two disagreed for values next to a bin edge (rounding)
and for the last bin, whose representative is its lower edge.
---
 src/dataset.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 60a7a6a..bf7a4ed 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -255,7 +255,13 @@ impl <'a> InnerDataset<'a> {
             let alt_cat = binner.bin_value(binner.get_bin(feat_value));
             //println!("alt_cat = {}, cat = {}", alt_cat, cat);
             //cat
-            alt_cat as usize
+
+            // a value next to a bin edge may be binned on the wrong side of a split by rounding,
+            // and the last bin has no upper edge: prediction tests `value < split`, agree with that
+            let mut cat = alt_cat as usize;
+            while cat > 0 && feat_value < split_candidates[cat - 1] { cat -= 1; }
+            while cat < nsplit_candidates && !(feat_value < split_candidates[cat]) { cat += 1; }
+            cat
         };
         Self::zero_bitvecs(&mut self.store, bitvecs);
         Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
-- 
2.43.0


From 821cf91028e63c18f5038e2fb01375215db44a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 05/17] fix: prepare the data set on the first update also when
 sample_freq is 0

---
 src/dataset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index bf7a4ed..f936c2e 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -360,8 +360,9 @@ impl <'a> Dataset<'a> {
         self.inner.initialize_supercats();
 
         // only fully update every `config.sample_freq` updates
-        if config.sample_freq == 0 || (self.update_count > 1 &&
-                                       self.update_count % config.sample_freq != 0) { return; }
+        // (`sample_freq` 0: only on the first update)
+        if self.update_count > 1 && (config.sample_freq == 0 ||
+                                     self.update_count % config.sample_freq != 0) { return; }
 
         self.inner.sample_features();
 
-- 
2.43.0


From 667d5b991a6b08d33c2ca609ff69c19c6c8e0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 06/17] fix: sum the gradients of small left children too,
 right histograms are derived from them

---
 src/tree/learner.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..359b16b 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,16 +805,16 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
             let grads = grad_store.get_bitslice::<$bsl>(n2s.grad_range);
 
             if !n2s.compressed {
+                // note: also needed when too small for a leaf: the sibling is derived from it
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, 0); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +822,7 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, 0); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From a012907947db157958c0ae4f3fc37357e04a618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 07/17] fix: never split off an empty child when
 min_examples_leaf is 0

---
 src/tree/learner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 359b16b..f16cfec 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -297,7 +297,7 @@ where 'a: 'b {
     fn find_best_split(&mut self, n2s: &Node2Split) -> Split {
         let mut best_split = Split::no_split();
         let mut best_gain = self.ctx.config.min_gain;
-        let min_examples = self.ctx.config.min_examples_leaf;
+        let min_examples = self.ctx.config.min_examples_leaf.max(1); // no empty children
 
         let (pgrad, pcount) = (n2s.grad_sum, n2s.example_count);
         let ploss = self.get_loss(pgrad, pcount);
-- 
2.43.0


From c7975132a249447b67736c86ac0b1a99bf1f821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 08/17] fix: binary loss metric no longer overflows for
 confident wrong predictions

---
 src/metric.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index 19016a2..6b69fb9 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -97,7 +97,8 @@ impl Rmse {
 pub struct BinaryLoss {}
 impl_metric!(BinaryLoss, eval_one: |_, t: NumT, p: NumT| {
     let y = 2.0 * t - 1.0;
-    (1.0 + (-2.0 * y * p).exp()).ln()
+    let x = -2.0 * y * p;
+    x.max(0.0) + (1.0 + (-x.abs()).exp()).ln() // = ln(1 + exp(x)) without overflow
 });
 
 impl BinaryLoss {
-- 
2.43.0


From 519b4fd47ce116c43a94fd24b7b4f3dec040f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 09/17] fix: median and quantile of equal values no longer
 panic (L1, Huber)

---
 src/objective.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..1d061c9 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -126,20 +126,25 @@ macro_rules! quantile {
         $targets[$i] - $self.predictions[$i]
     }};
     (of $values:ident: $q:expr, $self:ident, $limits:expr, $targets:ident, $irange:expr) => {{
-        let bins = &mut $self.bins;
-        bins.iter_mut().for_each(|x| *x = 0);
-
-        let mut binner = Binner::new(bins, $limits);
-        let mut count = 0;
-        for i in $irange {
-            let value = quantile!(@get_value $values: $self, $targets, i);
-            count += 1;
-            binner.insert(value, 1, |x, y| *x += y);
-        }
+        let limits = $limits;
+        if limits.0 == limits.1 { // all values are equal, there is nothing to bin
+            limits.0
+        } else {
+            let bins = &mut $self.bins;
+            bins.iter_mut().for_each(|x| *x = 0);
+
+            let mut binner = Binner::new(bins, limits);
+            let mut count = 0;
+            for i in $irange {
+                let value = quantile!(@get_value $values: $self, $targets, i);
+                count += 1;
+                binner.insert(value, 1, |x, y| *x += y);
+            }
 
-        let rank = ((count as NumT) * $q).floor() as u32;
-        let bin = binner.bin_with_rank(rank, |&x| x);
-        binner.bin_representative(bin + 1)
+            let rank = ((count as NumT) * $q).floor() as u32;
+            let bin = binner.bin_with_rank(rank, |&x| x);
+            binner.bin_representative(bin + 1)
+        }
     }}
 }
 
-- 
2.43.0


From 4397a17fb3f2a754aabd21da40c8dfe68d94e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 10/17] fix: Huber gradients are the negative pseudo-residuals,
 like those of the other objectives

---
 src/objective.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 1d061c9..8c8eb9b 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -297,9 +297,9 @@ impl Objective for Huber {
             let err = targets[i] - self.predictions[i];
             let err_abs = err.abs();
             if err_abs <= self.delta {
-                self.gradients[i] = err;
+                self.gradients[i] = -err;
             } else {
-                self.gradients[i] = self.delta * err.signum();
+                self.gradients[i] = -self.delta * err.signum();
             }
         }
     }
-- 
2.43.0


From c1d1c5d90c3d963e2faf5a0f8d70fd339440412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 11/17] fix: finite bias for the binary objective when all
 targets are of one class

---
 src/objective.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objective.rs b/src/objective.rs
index 8c8eb9b..7a6fb95 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -338,6 +338,7 @@ impl Objective for Binary {
         let nneg = targets.iter().filter(|&x| *x < 0.5).count() as NumT;
         let npos = n as NumT - nneg;
         let avg  = (-1.0 * nneg + 1.0 * npos) / n as NumT;
+        let avg  = avg.max(EPSILON - 1.0).min(1.0 - EPSILON); // finite prior if there's only one class
         let prior = 0.5 * ((1.0 + avg) / (1.0 - avg)).ln();
 
         self.initialize_base(config, n, prior);
-- 
2.43.0


From 580b2f6cab55dcd58287d131b6e7d63308d68d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 12/17] fix: high-cardinality features no longer panic when the
 gradient bounds are empty (perfect fit)

---
 src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dataset.rs b/src/dataset.rs
index f936c2e..1115273 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -132,6 +132,8 @@ impl <'a> InnerDataset<'a> {
         // accumulate category values (mean) -> this determines their ordening
         // combine similar categories using quantile estimation into 'super-categories'
         let mut bins = vec![0u32; QUANTILE_EST_NBINS];
+        let grad_bounds = if grad_bounds.0 < grad_bounds.1 { grad_bounds }
+                          else { (grad_bounds.0 - 1.0, grad_bounds.1 + 1.0) }; // e.g. perfect fit
         let mut binner = Binner::new(&mut bins, grad_bounds);
         let combiner = |bin: &mut u32, count: u32| *bin += count;
         for (sum, count) in grad_stat_pairs.iter_mut() {
-- 
2.43.0


From 66be5b5840b5c04b22da604af3db42366a79a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 13/17] fix: set_feature_data takes the limits, cardinality and
 type from the values it is given

---
 src/data.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index d457d67..a4856ba 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -150,27 +150,22 @@ impl Data {
         -> Result<(), String>
     {
         assert_eq!(data.len(), self.nexamples);
-        let feat = &mut self.features[feat_id];
-        let flim = &mut self.limits[feat_id];
-        let card = &mut self.cards[feat_id];
-        assert_eq!(feat.len(), self.nexamples);
-        for i in 0..self.nexamples {
-            let value = data[i];
-            feat[i] = value;
-            *flim = (flim.0.min(value), flim.1.max(value));
+        let mut limits = (POS_INF, NEG_INF);
+        let mut card = 0;
+        for &value in data {
+            limits = (limits.0.min(value), limits.1.max(value));
 
             if categorical {
                 Self::check_categorical_value(value)?;
-                *card = (*card).max(1 + into_cat(value) as usize);
-            }
-        }
-        if categorical {
-            if *card > self.max_nbins {
-                self.ftypes[feat_id] = FeatType::HiCardCat;
-            } else {
-                self.ftypes[feat_id] = FeatType::LoCardCat;
+                card = card.max(1 + into_cat(value) as usize);
             }
         }
+        self.features[feat_id].copy_from_slice(data);
+        self.limits[feat_id] = limits;
+        self.cards[feat_id] = card;
+        self.ftypes[feat_id] = if !categorical               { FeatType::Numerical }
+                               else if card > self.max_nbins { FeatType::HiCardCat }
+                               else                          { FeatType::LoCardCat };
         Ok(())
     }
 
-- 
2.43.0


From 2db88c3b0d2ddb936d6a8727d407a84b31084da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 14/17] fix: refuse infinite and too large categorical values

---
 src/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index a4856ba..34dbb63 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 
 use csv;
 
-use crate::{NumT, POS_INF, NEG_INF, into_cat};
+use crate::{NumT, CatT, POS_INF, NEG_INF, into_cat};
 use crate::config::Config;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -199,7 +199,7 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        if value.round() != value || value < 0.0 || value >= CatT::max_value() as NumT {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From 2c3dd74ede8a3f7644fdc964eefa8261818cbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 15/17] fix: report an error for CSV data without records
 instead of panicking

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index 34dbb63..6e02322 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,8 @@ impl Data {
             record_count += 1;
         }
 
+        if record_len == 0 { return Err("CSV error: no records".to_owned()); }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From 08347d1e3d929413f33b63ba374eb93b65d45739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:24 +0000
Subject: [PATCH 16/17] fix: keep everything after the first '=' of a
 configuration record

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..e82dc33 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '=');
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0


From 18c2612d53b53da54c2772fd3f23669518ffafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:18 +0000
Subject: [PATCH 17/17] fix: training no longer panics when no feature has any
 bins (constant categories)

---
 src/slice_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_store.rs b/src/slice_store.rs
index 0be79c9..2865000 100644
--- a/src/slice_store.rs
+++ b/src/slice_store.rs
@@ -299,7 +299,7 @@ where T: Clone + Default {
 
     pub fn alloc_hists(&mut self) -> SliceRange {
         let total_bins = *self.hist_layout.last().unwrap();
-        self.slice_store.alloc_slice(total_bins, T::default())
+        self.slice_store.alloc_slice(total_bins.max(1), T::default()) // slices are never empty
     }
 
     pub fn free_hists(&mut self, r: SliceRange) {
-- 
2.43.0

