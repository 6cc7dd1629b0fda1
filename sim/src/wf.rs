//! C08: what every returned analysis must look like.
use stratum_dsp::analysis::confidence::AnalysisConfidence;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::preprocessing::{normalization as no, silence as si};
use stratum_dsp::{AnalysisConfig, AnalysisResult};

/// Length of what is left of the track after the configured preprocessing, by the library's own stages.
pub fn analysed_len(s: &[f32], sr: u32, c: &AnalysisConfig) -> Option<usize> {
    if !c.enable_silence_trimming {
        return Some(s.len());
    }
    let mut v = s.to_vec();
    if c.enable_normalization {
        no::normalize(&mut v, no::NormalizationConfig { method: c.normalization, target_loudness_lufs: -14.0, max_headroom_db: 1.0 }, sr as f32).ok()?;
    }
    si::detect_and_trim(&v, sr, si::SilenceDetector { threshold_db: c.min_amplitude_db, min_duration_ms: 500, frame_size: c.frame_size }).ok().map(|x| x.0.len())
}
pub fn check(r: &AnalysisResult, n: usize, left: Option<usize>, sr: u32, min_bpm: f32, max_bpm: f32, out: &mut Vec<String>) {
    let mut bad = |c: &str, m: String| {
        if out.len() < 8 {
            out.push(format!("{c}: {m}"))
        }
    };
    let unit = |x: f32| x.is_finite() && (0.0..=1.0).contains(&x);
    for (nm, v) in [
        ("bpm_confidence", r.bpm_confidence),
        ("key_confidence", r.key_confidence),
        ("key_clarity", r.key_clarity),
        ("grid_stability", r.grid_stability),
        ("onset_method_consensus", r.metadata.onset_method_consensus),
    ] {
        if !unit(v) {
            bad("range", format!("{nm} = {v} outside 0..1"));
        }
    }
    if !(r.bpm.is_finite() && (r.bpm == 0.0 || (r.bpm >= min_bpm * 0.99999 && r.bpm <= max_bpm * 1.00001))) {
        bad("bpm", format!("bpm = {} outside {min_bpm}..{max_bpm}", r.bpm));
    }
    match r.key {
        Key::Major(k) | Key::Minor(k) if k > 11 => bad("key", format!("key index {k}")),
        _ => {}
    }
    // duration: of the input or, when trimming is on, of what is left of it
    let g = &r.beat_grid;
    let d = r.metadata.duration_seconds;
    let full = n as f64 / sr.max(1) as f64;
    if !(d.is_finite() && d >= 0.0 && (d as f64) <= full * 1.0001 + 1e-3) {
        bad("duration", format!("duration {d} for {full} s of audio"));
    }
    if let Some(k) = left {
        let want = k as f64 / sr.max(1) as f64;
        if (d as f64 - want).abs() > want * 1e-5 + 1e-6 {
            bad("duration", format!("duration {d} where {want} s of audio were analysed"));
        }
    }
    if r.metadata.sample_rate != sr {
        bad("rate", format!("sample rate {} for {sr}", r.metadata.sample_rate));
    }
    let pt = r.metadata.processing_time_ms;
    if !(pt.is_finite() && pt >= 0.0) {
        bad("time", format!("processing time {pt}"));
    }
    for (nm, v) in [("beats", &g.beats), ("downbeats", &g.downbeats), ("bars", &g.bars)] {
        for (i, x) in v.iter().enumerate() {
            if !x.is_finite() || *x < 0.0 {
                bad("grid", format!("{nm}[{i}] = {x}"));
                break;
            }
            // the beat tracker accepts an onset up to 54 ms away from the beat it confirms
            if (*x as f64) > (d as f64) * 1.00001 + 0.06 {
                bad("grid", format!("{nm}[{i}] = {x} after the end of {d} s of audio"));
                break;
            }
            if i > 0 && *x <= v[i - 1] {
                bad("grid", format!("{nm}[{i}] = {x} not after {}", v[i - 1]));
                break;
            }
        }
    }
    for x in &g.downbeats {
        if !g.beats.iter().any(|b| b == x) {
            bad("grid", format!("downbeat {x} is not a beat"));
            break;
        }
    }
    if g.bars.len() != g.downbeats.len() || g.bars.iter().zip(&g.downbeats).any(|(a, b)| a != b) {
        bad("grid", format!("{} bars, {} downbeats, or they differ", g.bars.len(), g.downbeats.len()));
    }
    if let Some(c) = &r.metadata.tempogram_candidates {
        for x in c {
            if !(x.bpm.is_finite() && x.score.is_finite() && x.fft_norm.is_finite() && x.autocorr_norm.is_finite()) {
                bad("candidate", format!("{x:?}"));
                break;
            }
        }
    }
}
pub fn check_conf(c: &AnalysisConfidence, out: &mut Vec<String>) {
    for (nm, v) in [
        ("confidence.bpm", c.bpm_confidence),
        ("confidence.key", c.key_confidence),
        ("confidence.grid", c.grid_stability),
        ("confidence.overall", c.overall_confidence),
    ] {
        if !(v.is_finite() && (0.0..=1.0).contains(&v)) {
            out.push(format!("range: {nm} = {v} outside 0..1"));
        }
    }
    let k = c.is_high_confidence() as u32 + c.is_low_confidence() as u32 + c.is_medium_confidence() as u32;
    if k != 1 {
        out.push(format!("level: {k} confidence levels hold at once"));
    }
}
