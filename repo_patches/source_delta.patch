From 1ecb95a3820fb1e42c3acb7987a2bdfbe56c7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:51 +0000
Subject: [PATCH 01/11] fix: resolve key-detection ties by score/appearance,
 not by hash order

Equal votes were broken by HashMap iteration order, so the same audio could
get a different key on every call.
---
 src/features/key/detector.rs    | 30 ++++++++++++++++++++----------
 src/features/key/key_changes.rs | 16 +++++++++++-----
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..69d7781 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -258,16 +258,21 @@ pub fn detect_key_weighted(
 
     let final_key = if use_weighted_voting {
         // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        // (kept in score order, not hashed, so that equal votes always resolve the same way)
+        let mut key_votes: Vec<(Key, f32)> = Vec::with_capacity(3);
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
-            *key_votes.entry(*key).or_insert(0.0) += vote_weight;
+            match key_votes.iter_mut().find(|(k, _)| k == key) {
+                Some((_, votes)) => *votes += vote_weight,
+                None => key_votes.push((*key, vote_weight)),
+            }
         }
 
-        // Select key with highest vote count
+        // Select key with highest vote count; on a tie, the best-scoring key
         key_votes
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+            .rev()
+            .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
             .map(|(k, _)| *k)
             .unwrap_or(best_key)
     } else {
@@ -770,17 +775,22 @@ pub fn detect_key_median(
     }
 
     // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (kept in order of first appearance, not hashed, so that ties always resolve the same way)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += result.confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += result.confidence;
+            }
+            None => key_counts.push((*key, (1, result.confidence))),
+        }
     }
 
-    // Select median key (most common, with confidence as tiebreaker)
+    // Select median key (most common, with confidence as tiebreaker, then first appearance)
     let (median_key, (count, _total_conf)) = key_counts
         .iter()
+        .rev()
         .max_by(|a, b| {
             // First by count, then by total confidence
             match a.1 .0.cmp(&b.1 .0) {
diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..e79c7cd 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -132,16 +132,22 @@ pub fn detect_key_changes(
     }
 
     // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (counted in order of first appearance, not hashed, so that ties always resolve the same way)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (_, key, confidence) in &segment_keys {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += confidence;
+            }
+            None => key_counts.push((*key, (1, *confidence))),
+        }
     }
 
+    // On a tie, the key that appeared first
     let (primary_key, (count, total_confidence)) = key_counts
         .iter()
+        .rev()
         .max_by_key(|(_, (count, _))| *count)
         .unwrap();
 
-- 
2.43.0


From e6c5f221c77fcde5765c635cbbd55d80ac4f8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:51 +0000
Subject: [PATCH 02/11] fix: tempo tracker keeps its estimate when the history
 cannot grow

---
 src/features/beat_tracking/bayesian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/features/beat_tracking/bayesian.rs b/src/features/beat_tracking/bayesian.rs
index 9fceeab..1fbcbc9 100644
--- a/src/features/beat_tracking/bayesian.rs
+++ b/src/features/beat_tracking/bayesian.rs
@@ -149,9 +149,10 @@ impl BayesianBeatTracker {
         let _posterior = best_likelihood * prior;
 
         // Update BPM estimate
+        // (history first: it is the only step that can fail, and must leave the tracker unchanged)
         let old_bpm = self.current_bpm;
-        self.current_bpm = best_bpm;
         self.history.push(best_bpm);
+        self.current_bpm = best_bpm;
 
         // Update confidence: combine likelihood and prior strength
         // Higher confidence if likelihood is high and BPM change is small
-- 
2.43.0


From 0e66f97174b08d53098ff0cbf2557a8d664f816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:49 +0000
Subject: [PATCH 03/11] fix: debug-track output no longer panics when stderr
 cannot be written

---
 src/features/period/multi_resolution.rs | 45 +++++++++++++----------
 src/lib.rs                              | 47 ++++++++++++++++---------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f3740b7..8e99c08 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -301,15 +301,15 @@ pub fn multi_resolution_tempogram_from_samples(
     let mut hyps: Vec<Hyp> = Vec::new();
 
     if let Some((track_id, gt, top_n)) = dbg {
-        eprintln!("\n=== DEBUG multi-res (track_id={}) ===", track_id);
+        debug_ln!("\n=== DEBUG multi-res (track_id={}) ===", track_id);
         if let Some(gt_bpm) = gt {
-            eprintln!("GT bpm: {:.3}", gt_bpm);
+            debug_ln!("GT bpm: {:.3}", gt_bpm);
         }
 
         fn print_top(label: &str, cands: &[TempogramCandidateDebug], n: usize) {
-            eprintln!("{} top-{}:", label, n);
+            debug_ln!("{} top-{}:", label, n);
             for c in cands.iter().take(n) {
-                eprintln!("  bpm={:7.2} score={:.4}", c.bpm, c.score);
+                debug_ln!("  bpm={:7.2} score={:.4}", c.bpm, c.score);
             }
         }
         print_top("hop=256", &c256, top_n);
@@ -327,18 +327,24 @@ pub fn multi_resolution_tempogram_from_samples(
             let s_half_256 = lookup_nearest(&c256, gt_bpm * 0.5, tol);
             let s_half_1024 = lookup_nearest(&c1024, gt_bpm * 0.5, tol);
 
-            eprintln!("Support near GT / family (lookup tol={:.2}):", tol);
-            eprintln!(
+            debug_ln!("Support near GT / family (lookup tol={:.2}):", tol);
+            debug_ln!(
                 "  T     @512={:.4} @256={:.4} @1024={:.4}",
-                s_t_512, s_t_256, s_t_1024
+                s_t_512,
+                s_t_256,
+                s_t_1024
             );
-            eprintln!(
+            debug_ln!(
                 "  2T    @512={:.4} @256={:.4} @1024={:.4}",
-                s_2t_512, s_2t_256, s_2t_1024
+                s_2t_512,
+                s_2t_256,
+                s_2t_1024
             );
-            eprintln!(
+            debug_ln!(
                 "  T/2   @512={:.4} @256={:.4} @1024={:.4}",
-                s_half_512, s_half_256, s_half_1024
+                s_half_512,
+                s_half_256,
+                s_half_1024
             );
 
             // Recompute hypothesis scores for T=GT using the same rules as the fusion.
@@ -386,20 +392,21 @@ pub fn multi_resolution_tempogram_from_samples(
                 }
             }
             local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
-            eprintln!("Fusion scores (T anchored at GT, after guardrails+prior):");
+            debug_ln!("Fusion scores (T anchored at GT, after guardrails+prior):");
             for (b, s, tag) in &local {
-                eprintln!("  {:>3} bpm={:7.2} score={:.4}", tag, *b, *s);
+                debug_ln!("  {:>3} bpm={:7.2} score={:.4}", tag, *b, *s);
             }
             if local.len() >= 2 {
-                eprintln!(
+                debug_ln!(
                     "  margin(best-second)={:.4} (threshold={:.4})",
                     local[0].1 - local[1].1,
                     margin_threshold
                 );
             }
-            eprintln!(
+            debug_ln!(
                 "  ratio_2T_256={:.3} ratio_half_1024={:.3} (guardrails)",
-                ratio_2t_256, ratio_half_1024
+                ratio_2t_256,
+                ratio_half_1024
             );
         }
     }
@@ -705,7 +712,7 @@ pub fn multi_resolution_tempogram_from_samples(
             // agreement on the half tempo to avoid folding true high-tempo tracks down.
             if a_half >= 3 && s_half > 0.0 && s_best > 0.0 && ratio >= 0.45 {
                 if let Some(track_id) = band_cfg.as_ref().and_then(|c| c.debug_track_id) {
-                    eprintln!(
+                    debug_ln!(
                         "DEBUG fold-down (track_id={}): {:.2} -> {:.2} (support ratio {:.3}, agree {}->{}).",
                         track_id,
                         best.bpm,
@@ -732,7 +739,7 @@ pub fn multi_resolution_tempogram_from_samples(
             let ratio = if s_best > 0.0 { s_dbl / s_best } else { 0.0 };
             if a_dbl >= 2 && s_dbl > 0.0 && s_best > 0.0 && ratio >= 0.55 {
                 if let Some(track_id) = band_cfg.as_ref().and_then(|c| c.debug_track_id) {
-                    eprintln!(
+                    debug_ln!(
                         "DEBUG fold-up (track_id={}): {:.2} -> {:.2} (support ratio {:.3}, agree {}->{}).",
                         track_id,
                         best.bpm,
@@ -843,7 +850,7 @@ pub fn multi_resolution_tempogram_from_samples(
                             && chosen.align >= current.align + 0.40
                         {
                             if let Some(track_id) = cfg.debug_track_id {
-                                eprintln!(
+                                debug_ln!(
                                     "DEBUG triplet-family (track_id={}): {:.2} -> {:.2} ({}, support {:.3}->{:.3}, align {:.3}->{:.3})",
                                     track_id,
                                     best.bpm,
diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..9256793 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,6 +40,17 @@
 #![warn(missing_docs)]
 #![warn(clippy::all)]
 
+/// Debug-track output: like `eprintln!`, but a failed write to stderr (closed pipe, full disk)
+/// is ignored instead of panicking in the middle of an analysis.
+macro_rules! debug_ln {
+    ($($arg:tt)*) => {{
+        let _ = std::io::Write::write_fmt(
+            &mut std::io::stderr(),
+            format_args!("{}\n", format_args!($($arg)*)),
+        );
+    }};
+}
+
 pub mod analysis;
 pub mod config;
 pub mod error;
@@ -459,11 +470,11 @@ pub fn analyze_audio(
                     tempogram_multi_res_triggered = Some(ambiguous);
 
                     if let Some(track_id) = config.debug_track_id {
-                        eprintln!("\n=== DEBUG base tempogram (track_id={}) ===", track_id);
+                        debug_ln!("\n=== DEBUG base tempogram (track_id={}) ===", track_id);
                         if let Some(gt) = config.debug_gt_bpm {
-                            eprintln!("GT bpm: {:.3}", gt);
+                            debug_ln!("GT bpm: {:.3}", gt);
                         }
-                        eprintln!(
+                        debug_ln!(
                             "base_est: bpm={:.2} conf={:.4} agree={} (trap_low={} trap_high={} ambiguous={})",
                             base_est.bpm,
                             base_est.confidence,
@@ -472,7 +483,7 @@ pub fn analyze_audio(
                             trap_high,
                             ambiguous
                         );
-                        eprintln!(
+                        debug_ln!(
                             "ambiguity signals: family_competes={} (s_base={:.4} s_2x={:.4} s_half={:.4}) weak_base={} fold_into_trap={}",
                             family_competes,
                             s_base,
@@ -482,7 +493,7 @@ pub fn analyze_audio(
                             fold_into_trap
                         );
                         if !ambiguous {
-                            eprintln!("NOTE: multi-res not run (outside trap zones).");
+                            debug_ln!("NOTE: multi-res not run (outside trap zones).");
                         }
                     }
 
@@ -545,31 +556,33 @@ pub fn analyze_audio(
                                 }
 
                                 if let Some(track_id) = config.debug_track_id {
-                                    eprintln!(
+                                    debug_ln!(
                                         "\n=== DEBUG multi-res decision (track_id={}) ===",
                                         track_id
                                     );
                                     if let Some(gt) = config.debug_gt_bpm {
-                                        eprintln!("GT bpm: {:.3}", gt);
+                                        debug_ln!("GT bpm: {:.3}", gt);
                                     }
-                                    eprintln!(
+                                    debug_ln!(
                                         "base_est: bpm={:.2} conf={:.4} agree={}",
                                         base_est.bpm,
                                         base_est.confidence,
                                         base_est.method_agreement
                                     );
-                                    eprintln!(
+                                    debug_ln!(
                                         "mr_est:   bpm={:.2} conf={:.4} agree={}",
                                         mr_est_log.bpm,
                                         mr_est_log.confidence,
                                         mr_est_log.method_agreement
                                     );
-                                    eprintln!("ambiguous(trap_low||trap_high)={}", ambiguous);
-                                    eprintln!(
+                                    debug_ln!("ambiguous(trap_low||trap_high)={}", ambiguous);
+                                    debug_ln!(
                                         "rel={:.3} family_related={} forbid_promote_high={}",
-                                        rel, family_related, forbid_promote_high
+                                        rel,
+                                        family_related,
+                                        forbid_promote_high
                                     );
-                                    eprintln!("mr_better={} used_mr={}", mr_better, used_mr);
+                                    debug_ln!("mr_better={} used_mr={}", mr_better, used_mr);
                                 }
                             }
                             Err(e) => {
@@ -1497,8 +1510,8 @@ pub fn analyze_audio(
                                 b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
                             });
 
-                            eprintln!("\n=== DEBUG key (track_id={}) ===", track_id);
-                            eprintln!(
+                            debug_ln!("\n=== DEBUG key (track_id={}) ===", track_id);
+                            debug_ln!(
                                 "key={} conf={:.4} clarity={:.4} frames={} used_frames={} soft_mapping={} sigma={:.3} harmonic_mask={} mask_p={:.2} tuning={:.4} time_smooth={} margin={} edge_trim={} trim_frac={:.2}",
                                 key_result.key.name(),
                                 key_result.confidence,
@@ -1515,7 +1528,7 @@ pub fn analyze_audio(
                                 config.enable_key_edge_trim,
                                 config.key_edge_trim_fraction
                             );
-                            eprintln!(
+                            debug_ln!(
                                 "top_keys: {}",
                                 key_result
                                     .top_keys
@@ -1527,7 +1540,7 @@ pub fn analyze_audio(
                             let note_names = [
                                 "C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B",
                             ];
-                            eprintln!(
+                            debug_ln!(
                                 "top_pitch_classes(weighted): {}",
                                 pcs.iter()
                                     .take(6)
-- 
2.43.0


From b97f2ecd10fb6fdfb2af37fadd7d09e3dce814f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:00 +0000
Subject: [PATCH 04/11] fix: keep the reported BPM confidence within its
 documented 0..1 range

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9256793..3ec50e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -911,6 +911,8 @@ pub fn analyze_audio(
             .or_else(|| legacy_estimate.as_ref().map(|e| (e.bpm, e.confidence)))
             .unwrap_or((0.0, 0.0))
     };
+    // Legacy estimates carry consensus boosts that can push them past 1.0
+    let bpm_confidence = bpm_confidence.clamp(0.0, 1.0);
 
     if bpm == 0.0 {
         log::warn!("Could not estimate BPM: tempogram and legacy methods both failed");
-- 
2.43.0


From 40a65f083096050cca752b0f366fbb308efb360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:01 +0000
Subject: [PATCH 05/11] fix: sort floats with a total order

NaN values (from damaged samples) made comparators unwrap None or present an
inconsistent order, either of which panics in slice::sort_by.
---
 src/features/beat_tracking/hmm.rs         |  2 +-
 src/features/beat_tracking/mod.rs         |  6 +++---
 src/features/chroma/extractor.rs          |  8 ++------
 src/features/chroma/smoothing.rs          |  2 +-
 src/features/key/detector.rs              | 10 +++++-----
 src/features/key/key_clarity.rs           | 10 ++--------
 src/features/onset/consensus.rs           |  6 +-----
 src/features/onset/hfc.rs                 |  2 +-
 src/features/onset/hpss.rs                |  6 +++---
 src/features/onset/spectral_flux.rs       |  2 +-
 src/features/onset/threshold.rs           |  6 +++---
 src/features/period/autocorrelation.rs    |  8 ++------
 src/features/period/candidate_filter.rs   |  4 +---
 src/features/period/comb_filter.rs        | 12 ++----------
 src/features/period/mod.rs                |  6 +-----
 src/features/period/multi_resolution.rs   | 10 +++-------
 src/features/period/peak_picking.rs       |  4 ++--
 src/features/period/tempogram.rs          |  8 ++------
 src/features/period/tempogram_autocorr.rs |  2 +-
 src/features/period/tempogram_fft.rs      |  2 +-
 src/lib.rs                                |  8 +++-----
 21 files changed, 41 insertions(+), 83 deletions(-)

diff --git a/src/features/beat_tracking/hmm.rs b/src/features/beat_tracking/hmm.rs
index d22c41a..0becd23 100644
--- a/src/features/beat_tracking/hmm.rs
+++ b/src/features/beat_tracking/hmm.rs
@@ -435,7 +435,7 @@ impl HmmBeatTracker {
         }
 
         // Sort by time (should already be sorted, but ensure it)
-        beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+        beats.sort_by(|a, b| a.time_seconds.total_cmp(&b.time_seconds));
 
         Ok(beats)
     }
diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..fe70ae2 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -133,7 +133,7 @@ pub fn generate_beat_grid(
 
     // Ensure onsets are sorted
     let mut sorted_onsets = onsets.to_vec();
-    sorted_onsets.sort_by(|a, b| a.partial_cmp(b).unwrap());
+    sorted_onsets.sort_by(|a, b| a.total_cmp(b));
 
     // Step 1: Run HMM Viterbi beat tracking (initial beat sequence)
     let tracker = hmm::HmmBeatTracker::new(bpm_estimate, sorted_onsets.clone(), sample_rate);
@@ -209,7 +209,7 @@ pub fn generate_beat_grid(
 
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
-            refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+            refined_beats.sort_by(|a, b| a.time_seconds.total_cmp(&b.time_seconds));
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
@@ -305,7 +305,7 @@ fn generate_beat_grid_from_positions_with_time_sig(
     let mut beats: Vec<f32> = beat_positions.iter().map(|bp| bp.time_seconds).collect();
 
     // Sort by time (should already be sorted, but ensure it)
-    beats.sort_by(|a, b| a.partial_cmp(b).unwrap());
+    beats.sort_by(|a, b| a.total_cmp(b));
 
     // Detect downbeats (beat 1 of each bar) using detected time signature
     let downbeats = detect_downbeats_with_time_sig(&beats, bpm_estimate, time_sig)?;
diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..3413c12 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -28,7 +28,6 @@
 use crate::error::AnalysisError;
 use rustfft::num_complex::Complex;
 use rustfft::FftPlanner;
-use std::cmp::Ordering;
 
 /// Numerical stability epsilon
 const EPSILON: f32 = 1e-10;
@@ -616,9 +615,7 @@ fn frame_to_hpcp_tuned_band(
 
     // Keep top-K peaks by magnitude.
     let k = peaks_per_frame.clamp(1, peaks.len());
-    peaks.select_nth_unstable_by(k - 1, |a, b| {
-        b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
-    });
+    peaks.select_nth_unstable_by(k - 1, |a, b| b.1.total_cmp(&a.1));
     peaks.truncate(k);
 
     let sigma = soft_mapping_sigma.max(1e-6);
@@ -1432,8 +1429,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
             return 0.0;
         }
         let mid = v.len() / 2;
-        let (_, m, _) =
-            v.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+        let (_, m, _) = v.select_nth_unstable_by(mid, |a, b| a.total_cmp(b));
         *m
     }
 
diff --git a/src/features/chroma/smoothing.rs b/src/features/chroma/smoothing.rs
index 2b082a0..4086083 100644
--- a/src/features/chroma/smoothing.rs
+++ b/src/features/chroma/smoothing.rs
@@ -79,7 +79,7 @@ pub fn smooth_chroma(chroma_vectors: &[Vec<f32>], window_size: usize) -> Vec<Vec
 
             // Compute median
             if !window_values.is_empty() {
-                window_values.sort_by(|a, b| a.partial_cmp(b).unwrap());
+                window_values.sort_by(|a, b| a.total_cmp(b));
                 let median_idx = window_values.len() / 2;
                 smoothed_frame[semitone_idx] = window_values[median_idx];
             } else {
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 69d7781..0fd78ea 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -243,7 +243,7 @@ pub fn detect_key_weighted(
     scores = refined_scores;
 
     // Step 2: Sort by score (highest first)
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Step 3: Select best key using weighted top-N voting (if top keys are close)
     // This helps when the best key is only slightly better than alternatives
@@ -399,7 +399,7 @@ pub fn detect_key_weighted_mode_heuristic(
     }
 
     // Re-sort with the bonus applied and compute the new best key.
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
     let (best_key, _best_score) = scores[0];
 
     // Build quick score lookup tables for parallel/tonic mode flipping (post-bonus).
@@ -679,7 +679,7 @@ pub fn detect_key_multi_scale(
         }
 
         // Sort and build result
-        acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+        acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
         let (best_key, best_score) = acc_scores[0];
         let second_score = if acc_scores.len() > 1 {
             acc_scores[1].1
@@ -833,7 +833,7 @@ pub fn detect_key_median(
     }
 
     // Sort by aggregate score
-    aggregate_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    aggregate_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Use median key, but compute confidence from aggregate scores
     let median_score = aggregate_scores
@@ -947,7 +947,7 @@ pub fn detect_key_ensemble(
     }
 
     // Sort by combined score (highest first)
-    combined_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    combined_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Select best key and compute confidence
     let (best_key, best_score) = combined_scores[0];
diff --git a/src/features/key/key_clarity.rs b/src/features/key/key_clarity.rs
index 51f7efb..2ffe4d6 100644
--- a/src/features/key/key_clarity.rs
+++ b/src/features/key/key_clarity.rs
@@ -71,14 +71,8 @@ pub fn compute_key_clarity(scores: &[(crate::analysis::result::Key, f32)]) -> f3
     let average_score = sum / score_values.len() as f32;
 
     // Find range (max - min)
-    let min_score = *score_values
-        .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
-    let max_score = *score_values
-        .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
-        .unwrap();
+    let min_score = *score_values.iter().min_by(|a, b| a.total_cmp(b)).unwrap();
+    let max_score = *score_values.iter().max_by(|a, b| a.total_cmp(b)).unwrap();
     let range = max_score - min_score;
 
     // Compute clarity: (best - average) / range
diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..f80aa46 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -272,11 +272,7 @@ pub fn vote_onsets(
     }
 
     // Step 5: Sort by confidence (highest first)
-    candidates.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    candidates.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     log::debug!(
         "Consensus voting produced {} onset candidates",
diff --git a/src/features/onset/hfc.rs b/src/features/onset/hfc.rs
index b759b1f..d34ee99 100644
--- a/src/features/onset/hfc.rs
+++ b/src/features/onset/hfc.rs
@@ -160,7 +160,7 @@ pub fn detect_hfc_onsets(
     // Step 3: Apply percentile-based threshold
     // Sort flux values to find percentile
     let mut sorted_flux = hfc_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/hpss.rs b/src/features/onset/hpss.rs
index e90c795..3b2a1d0 100644
--- a/src/features/onset/hpss.rs
+++ b/src/features/onset/hpss.rs
@@ -192,7 +192,7 @@ fn apply_horizontal_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Ve
             let mut window: Vec<f32> = (start..end).map(|f| spectrogram[f][bin_idx]).collect();
 
             // Compute median
-            window.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            window.sort_by(|a, b| a.total_cmp(b));
             let median = if window.is_empty() {
                 0.0
             } else if window.len().is_multiple_of(2) {
@@ -226,7 +226,7 @@ fn apply_vertical_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Vec<
             let mut window: Vec<f32> = (start..end).map(|b| spectrogram[frame_idx][b]).collect();
 
             // Compute median
-            window.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            window.sort_by(|a, b| a.total_cmp(b));
             let median = if window.is_empty() {
                 0.0
             } else if window.len().is_multiple_of(2) {
@@ -322,7 +322,7 @@ pub fn detect_hpss_onsets(
 
     // Apply percentile-based threshold
     let mut sorted_flux = energy_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/spectral_flux.rs b/src/features/onset/spectral_flux.rs
index be84ad4..7999f45 100644
--- a/src/features/onset/spectral_flux.rs
+++ b/src/features/onset/spectral_flux.rs
@@ -163,7 +163,7 @@ pub fn detect_spectral_flux_onsets(
     // Step 3: Apply percentile-based threshold
     // Sort flux values to find percentile
     let mut sorted_flux = spectral_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/threshold.rs b/src/features/onset/threshold.rs
index 55de9c7..2f75cda 100644
--- a/src/features/onset/threshold.rs
+++ b/src/features/onset/threshold.rs
@@ -46,7 +46,7 @@ pub fn adaptive_threshold_median_mad(values: &[f32], k: f32) -> Result<f32, Anal
 
     // Step 1: Compute median
     let mut sorted = values.to_vec();
-    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted.sort_by(|a, b| a.total_cmp(b));
 
     let median = if sorted.len().is_multiple_of(2) {
         (sorted[sorted.len() / 2 - 1] + sorted[sorted.len() / 2]) * 0.5
@@ -57,7 +57,7 @@ pub fn adaptive_threshold_median_mad(values: &[f32], k: f32) -> Result<f32, Anal
     // Step 2: Compute MAD (Median Absolute Deviation)
     // MAD = median(|values - median(values)|)
     let mut deviations: Vec<f32> = values.iter().map(|&v| (v - median).abs()).collect();
-    deviations.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    deviations.sort_by(|a, b| a.total_cmp(b));
 
     let mad = if deviations.len().is_multiple_of(2) {
         (deviations[deviations.len() / 2 - 1] + deviations[deviations.len() / 2]) * 0.5
@@ -100,7 +100,7 @@ pub fn percentile_threshold(values: &[f32], percentile: f32) -> Result<f32, Anal
     }
 
     let mut sorted = values.to_vec();
-    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted.len() as f32) * percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted.len() - 1);
diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..2a99df9 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -204,11 +204,7 @@ pub fn estimate_bpm_from_autocorrelation(
     }
 
     // Sort by confidence (highest first)
-    candidates.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    candidates.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     log::debug!("Autocorrelation found {} BPM candidates", candidates.len());
 
@@ -332,7 +328,7 @@ fn find_peaks_in_acf(
     }
 
     // Sort by value (highest first)
-    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     Ok(peaks)
 }
diff --git a/src/features/period/candidate_filter.rs b/src/features/period/candidate_filter.rs
index 65b0cd7..11954c4 100644
--- a/src/features/period/candidate_filter.rs
+++ b/src/features/period/candidate_filter.rs
@@ -402,9 +402,7 @@ pub fn merge_bpm_candidates(
             b.confidence
         };
 
-        let effective_conf_cmp = b_effective_conf
-            .partial_cmp(&a_effective_conf)
-            .unwrap_or(std::cmp::Ordering::Equal);
+        let effective_conf_cmp = b_effective_conf.total_cmp(&a_effective_conf);
 
         // If effective confidence is close (within 50%), strongly prefer in-range
         // This ensures reasonable candidates win when available, even if slightly lower confidence
diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..856a508 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -196,11 +196,7 @@ pub fn estimate_bpm_from_comb_filter(
 
     // Sort by confidence (highest first)
     let mut result = normalized_candidates;
-    result.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    result.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     // Filter out very low confidence candidates (< 0.1)
     result.retain(|c| c.confidence >= 0.1);
@@ -310,11 +306,7 @@ pub fn coarse_to_fine_search(
     };
 
     // Sort by confidence (highest first)
-    result.sort_by(|a, b| {
-        b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    result.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
 
     log::debug!(
         "Coarse-to-fine search found {} BPM candidates (best: {:.2} BPM, confidence: {:.3})",
diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index ed193f4..67deb14 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -314,11 +314,7 @@ fn estimate_bpm_internal(
             );
         }
         // Re-sort after capping to maintain descending-confidence order.
-        merged_vec.sort_by(|a, b| {
-            b.confidence
-                .partial_cmp(&a.confidence)
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        merged_vec.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
     }
 
     // Special case: If autocorrelation's top preferred result exists, prefer it
diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index 8e99c08..f219a54 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -391,7 +391,7 @@ pub fn multi_resolution_tempogram_from_samples(
                     *s *= 0.92;
                 }
             }
-            local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+            local.sort_by(|a, b| b.1.total_cmp(&a.1));
             debug_ln!("Fusion scores (T anchored at GT, after guardrails+prior):");
             for (b, s, tag) in &local {
                 debug_ln!("  {:>3} bpm={:7.2} score={:.4}", tag, *b, *s);
@@ -496,7 +496,7 @@ pub fn multi_resolution_tempogram_from_samples(
             }
         }
 
-        local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+        local.sort_by(|a, b| b.1.total_cmp(&a.1));
         if local.is_empty() {
             continue;
         }
@@ -536,11 +536,7 @@ pub fn multi_resolution_tempogram_from_samples(
     }
 
     // Deduplicate hypotheses by BPM proximity; keep highest score per cluster.
-    hyps.sort_by(|a, b| {
-        b.score
-            .partial_cmp(&a.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    hyps.sort_by(|a, b| b.score.total_cmp(&a.score));
     let mut unique: Vec<Hyp> = Vec::new();
     for h in hyps {
         if unique.iter().any(|u| (u.bpm - h.bpm).abs() < 0.75) {
diff --git a/src/features/period/peak_picking.rs b/src/features/period/peak_picking.rs
index fbca90b..8bc492a 100644
--- a/src/features/period/peak_picking.rs
+++ b/src/features/period/peak_picking.rs
@@ -101,7 +101,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
     // Enforce minimum distance
     if min_distance > 0 && peaks.len() > 1 {
         // Sort by value (highest first) to keep best peaks
-        peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+        peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
         let mut filtered_peaks = Vec::new();
         for (idx, value) in peaks {
@@ -119,7 +119,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
     }
 
     // Final sort by value (highest first)
-    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!("Found {} peaks", peaks.len());
 
diff --git a/src/features/period/tempogram.rs b/src/features/period/tempogram.rs
index 933d730..24d1f43 100644
--- a/src/features/period/tempogram.rs
+++ b/src/features/period/tempogram.rs
@@ -558,7 +558,7 @@ fn estimate_bpm_tempogram_impl(
     }
 
     // Deduplicate by clustering within ~0.75 BPM
-    candidates.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    candidates.sort_by(|a, b| a.total_cmp(b));
     let mut uniq: Vec<f32> = Vec::new();
     for bpm in candidates {
         if let Some(last) = uniq.last().copied() {
@@ -652,11 +652,7 @@ fn estimate_bpm_tempogram_impl(
         });
     }
 
-    scored.sort_by(|a, b| {
-        b.score
-            .partial_cmp(&a.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
-    });
+    scored.sort_by(|a, b| b.score.total_cmp(&a.score));
     let mut best = scored.first().cloned().ok_or_else(|| {
         AnalysisError::ProcessingError("No BPM candidates could be scored".to_string())
     })?;
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..412f5d7 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -162,7 +162,7 @@ pub fn autocorrelation_tempogram(
     }
 
     // Sort by strength (highest first)
-    tempogram.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    tempogram.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!(
         "Autocorrelation tempogram: {} BPM candidates, top BPM={:.1} (strength={:.6})",
diff --git a/src/features/period/tempogram_fft.rs b/src/features/period/tempogram_fft.rs
index c12fa76..d72fe8e 100644
--- a/src/features/period/tempogram_fft.rs
+++ b/src/features/period/tempogram_fft.rs
@@ -179,7 +179,7 @@ pub fn fft_tempogram(
     }
 
     // Sort by power (highest first)
-    tempogram.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    tempogram.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!(
         "FFT tempogram: {} BPM candidates, top BPM={:.1} (power={:.6})",
diff --git a/src/lib.rs b/src/lib.rs
index 3ec50e2..07a0f95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1271,7 +1271,7 @@ pub fn analyze_audio(
                 {
                     // Median energy for scale normalization.
                     let mut sorted = energy_slice.to_vec();
-                    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                    sorted.sort_by(|a, b| a.total_cmp(b));
                     let median = sorted[sorted.len() / 2].max(1e-12);
 
                     let mut weights = Vec::with_capacity(chroma_slice.len());
@@ -1427,7 +1427,7 @@ pub fn analyze_audio(
                             }
                         } else {
                             // Sort accumulated scores and build a KeyDetectionResult.
-                            acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+                            acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
                             let (best_key, best_score) = acc_scores[0];
                             let second_score = if acc_scores.len() > 1 {
                                 acc_scores[1].1
@@ -1508,9 +1508,7 @@ pub fn analyze_audio(
                             }
                             let mut pcs: Vec<(usize, f32)> =
                                 agg.iter().cloned().enumerate().collect();
-                            pcs.sort_by(|a, b| {
-                                b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
-                            });
+                            pcs.sort_by(|a, b| b.1.total_cmp(&a.1));
 
                             debug_ln!("\n=== DEBUG key (track_id={}) ===", track_id);
                             debug_ln!(
-- 
2.43.0


From 0ca2253f069a7527d9066f8b64bbec7b652c8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:53 +0000
Subject: [PATCH 06/11] fix: frequency bands above Nyquist no longer panic at
 very low sample rates

---
 src/features/chroma/extractor.rs | 9 ++++++---
 src/features/period/novelty.rs   | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 3413c12..d10d628 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -97,7 +97,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.min(sample_rate as f32 / 2.0).max(fmin + 1.0);
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -740,7 +740,10 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     // Round to nearest semitone and create bin range
     let semitone_bin_min = semitone_min.floor() as i32;
     let semitone_bin_max = semitone_max.ceil() as i32;
-    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
+    let n_semitone_bins = semitone_bin_max
+        .saturating_sub(semitone_bin_min)
+        .saturating_add(1)
+        .max(0) as usize;
 
     if n_semitone_bins == 0 {
         return Err(AnalysisError::InvalidInput(
@@ -1400,7 +1403,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.min(sample_rate as f32 / 2.0).max(fmin + 1.0);
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..9629495 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.min(nyquist).max(fmin + 1.0);
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
-- 
2.43.0


From 5853b6ade374130fd9fa04097440680801a2fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:55 +0000
Subject: [PATCH 07/11] fix: do not select or report tempo candidates with a
 NaN score

---
 src/features/period/tempogram.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/features/period/tempogram.rs b/src/features/period/tempogram.rs
index 24d1f43..5ab27b4 100644
--- a/src/features/period/tempogram.rs
+++ b/src/features/period/tempogram.rs
@@ -644,6 +644,11 @@ fn estimate_bpm_tempogram_impl(
             score *= 0.90;
         }
 
+        // A tempogram poisoned by NaN/Inf gives no evidence for any tempo
+        if !score.is_finite() {
+            continue;
+        }
+
         scored.push(ScoredCandidate {
             bpm,
             score,
-- 
2.43.0


From faee2c0052c6c0b9a898e6e03568fbea8c06ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:55 +0000
Subject: [PATCH 08/11] fix: beat grid no longer repeats the beat shared by two
 tempo segments

---
 src/features/beat_tracking/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index fe70ae2..a21a2a2 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -210,6 +210,8 @@ pub fn generate_beat_grid(
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
             refined_beats.sort_by(|a, b| a.time_seconds.total_cmp(&b.time_seconds));
+            // Neighbouring segments share their boundary beat
+            refined_beats.dedup_by(|a, b| a.time_seconds == b.time_seconds);
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
-- 
2.43.0


From a3e808ca6273e03033992ad2953c642ac8ff5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:48 +0000
Subject: [PATCH 09/11] fix: comb filter scoring is no longer quadratic in the
 length of the track

---
 src/features/period/comb_filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 856a508..22b05b9 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -363,8 +363,10 @@ fn score_bpm_candidate(
     for beat_idx in 0..num_beats {
         let expected_beat = (beat_idx as f32) * period_samples;
 
-        // Find nearest onset to this expected beat
-        let nearest_onset = onsets
+        // Find nearest onset to this expected beat. Onsets are sorted, so it is one of the two
+        // around it; scanning all of them would make scoring quadratic in the track length.
+        let next = onsets.partition_point(|&onset| (onset as f32) < expected_beat);
+        let nearest_onset = onsets[next.saturating_sub(1)..(next + 1).min(onsets.len())]
             .iter()
             .min_by_key(|&&onset| ((onset as f32) - expected_beat).abs() as usize)
             .copied();
-- 
2.43.0


From 5def6b5dc0bf910058243913693ad0a531a153b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:48 +0000
Subject: [PATCH 10/11] fix: HMM beat tracking is no longer quadratic in the
 length of the track

---
 src/features/beat_tracking/hmm.rs | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/features/beat_tracking/hmm.rs b/src/features/beat_tracking/hmm.rs
index 0becd23..0291fca 100644
--- a/src/features/beat_tracking/hmm.rs
+++ b/src/features/beat_tracking/hmm.rs
@@ -218,6 +218,22 @@ impl HmmBeatTracker {
         matrix
     }
 
+    /// Distance in seconds from `time` to the nearest onset
+    ///
+    /// Onsets are sorted, so only the two around `time` can be nearest; scanning all of
+    /// them for every beat would make tracking quadratic in the length of the track.
+    fn nearest_onset_distance(&self, time: f32) -> f32 {
+        let next = self.onsets.partition_point(|&onset| onset < time);
+        let mut min_distance = f32::INFINITY;
+        for &onset_time in &self.onsets[next.saturating_sub(1)..(next + 1).min(self.onsets.len())] {
+            let distance = (onset_time - time).abs();
+            if distance < min_distance {
+                min_distance = distance;
+            }
+        }
+        min_distance
+    }
+
     /// Compute emission probabilities for each time frame
     ///
     /// For each time frame and each state, compute the probability of observing
@@ -270,13 +286,7 @@ impl HmmBeatTracker {
                 let expected_beat_time = frame_time;
 
                 // Find distance to nearest onset
-                let mut min_distance = f32::INFINITY;
-                for &onset_time in &self.onsets {
-                    let distance = (onset_time - expected_beat_time).abs();
-                    if distance < min_distance {
-                        min_distance = distance;
-                    }
-                }
+                let min_distance = self.nearest_onset_distance(expected_beat_time);
 
                 // Compute emission probability using Gaussian decay
                 // emission = exp(-distance² / (2 * σ²))
@@ -407,13 +417,7 @@ impl HmmBeatTracker {
                 let beat_time = start_time + (t as f32 * beat_interval);
 
                 // Find nearest onset to compute confidence
-                let mut min_distance = f32::INFINITY;
-                for &onset_time in &self.onsets {
-                    let distance = (onset_time - beat_time).abs();
-                    if distance < min_distance {
-                        min_distance = distance;
-                    }
-                }
+                let min_distance = self.nearest_onset_distance(beat_time);
 
                 // Confidence based on alignment: higher if closer to onset
                 // Normalize to [0, 1] using timing tolerance
-- 
2.43.0


From e81936462b7c7c39700d37963c56736c0f766586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:02 +0000
Subject: [PATCH 11/11] fix: octave folding keeps the tempo inside the
 configured BPM range

---
 src/features/period/multi_resolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f219a54..c721124 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -700,7 +700,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-down (high -> half)
     if best.bpm >= 170.0 {
         let half = best.bpm * 0.5;
-        if (70.0..=120.0).contains(&half) {
+        if (70.0..=120.0).contains(&half) && half >= min_bpm && half <= max_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_half, a_half) = total_support(&c256, &c512, &c1024, half, tol);
             let ratio = if s_best > 0.0 { s_half / s_best } else { 0.0 };
@@ -729,7 +729,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-up (low -> double)
     if best.bpm <= 80.0 {
         let dbl = best.bpm * 2.0;
-        if (70.0..=180.0).contains(&dbl) {
+        if (70.0..=180.0).contains(&dbl) && dbl >= min_bpm && dbl <= max_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_dbl, a_dbl) = total_support(&c256, &c512, &c1024, dbl, tol);
             let ratio = if s_best > 0.0 { s_dbl / s_best } else { 0.0 };
-- 
2.43.0

