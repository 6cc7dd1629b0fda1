//! Canonical digests of everything the library can return (bit exact; all NaNs are one NaN).
use stratum_dsp::analysis::confidence::AnalysisConfidence;
use stratum_dsp::analysis::result::*;
use stratum_dsp::error::AnalysisError;
use stratum_dsp::features::beat_tracking::{tempo_variation::TempoSegment, time_signature::TimeSignature, BeatPosition};
use stratum_dsp::features::key::{KeyChange, KeyChangeResult, KeyDetectionResult};
use stratum_dsp::features::onset::OnsetCandidate;
use stratum_dsp::features::period::tempogram::TempogramCandidateDebug;
use stratum_dsp::features::period::{BpmCandidate, BpmEstimate};
use stratum_dsp::preprocessing::normalization::LoudnessMetadata;

pub struct Dg(pub u64);
impl Dg {
    pub fn new() -> Self {
        Dg(0xcbf29ce484222325)
    }
    #[inline]
    pub fn w(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 32;
    }
}
pub trait D {
    fn d(&self, h: &mut Dg);
}
impl D for f32 {
    fn d(&self, h: &mut Dg) {
        h.w(if self.is_nan() { 0x7fc00000 } else { self.to_bits() as u64 })
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl D for $t { fn d(&self, h: &mut Dg) { h.w(*self as u64) } })* } }
ints!(u8, u32, i32, usize, u64, bool);
impl D for () {
    fn d(&self, h: &mut Dg) {
        h.w(1)
    }
}
impl D for str {
    fn d(&self, h: &mut Dg) {
        h.w(self.len() as u64);
        for b in self.bytes() {
            h.w(b as u64)
        }
    }
}
impl D for String {
    fn d(&self, h: &mut Dg) {
        self.as_str().d(h)
    }
}
impl<T: D> D for [T] {
    fn d(&self, h: &mut Dg) {
        h.w(self.len() as u64);
        for x in self {
            x.d(h)
        }
    }
}
impl<T: D> D for Vec<T> {
    fn d(&self, h: &mut Dg) {
        self.as_slice().d(h)
    }
}
impl<T: D> D for Option<T> {
    fn d(&self, h: &mut Dg) {
        match self {
            None => h.w(0),
            Some(x) => {
                h.w(1);
                x.d(h)
            }
        }
    }
}
impl<T: D + ?Sized> D for &T {
    fn d(&self, h: &mut Dg) {
        (**self).d(h)
    }
}
impl<A: D, B: D> D for (A, B) {
    fn d(&self, h: &mut Dg) {
        self.0.d(h);
        self.1.d(h)
    }
}
impl<A: D, B: D, C: D> D for (A, B, C) {
    fn d(&self, h: &mut Dg) {
        self.0.d(h);
        self.1.d(h);
        self.2.d(h)
    }
}
impl D for AnalysisError {
    fn d(&self, h: &mut Dg) {
        format!("{:?}", self).d(h)
    }
}
impl<T: D> D for Result<T, AnalysisError> {
    fn d(&self, h: &mut Dg) {
        match self {
            Ok(x) => {
                h.w(1);
                x.d(h)
            }
            Err(e) => {
                h.w(2);
                e.d(h)
            }
        }
    }
}
impl D for Key {
    fn d(&self, h: &mut Dg) {
        match self {
            Key::Major(k) => h.w(*k as u64),
            Key::Minor(k) => h.w(100 + *k as u64),
        }
    }
}
macro_rules! fields { ($t:ty, $($f:ident),*) => { impl D for $t { fn d(&self, h: &mut Dg) { $( self.$f.d(h); )* } } } }
fields!(BeatGrid, downbeats, beats, bars);
fields!(BpmCandidate, bpm, confidence);
fields!(BpmEstimate, bpm, confidence, method_agreement);
fields!(TempogramCandidateDebug, bpm, score, fft_norm, autocorr_norm, selected);
fields!(OnsetCandidate, time_samples, time_seconds, confidence, voted_by);
fields!(KeyDetectionResult, key, confidence, all_scores, top_keys);
fields!(KeyChange, timestamp, from_key, to_key, confidence);
fields!(KeyChangeResult, primary_key, primary_confidence, key_changes, segment_keys);
fields!(BeatPosition, beat_index, time_seconds, confidence);
fields!(TempoSegment, start_time, end_time, bpm, confidence, is_variable);
fields!(LoudnessMetadata, measured_lufs, peak_db, rms_db, gain_db);
impl D for TimeSignature {
    fn d(&self, h: &mut Dg) {
        self.name().d(h);
        self.beats_per_bar().d(h)
    }
}
impl D for AnalysisConfidence {
    fn d(&self, h: &mut Dg) {
        format!("{:?}", self).d(h)
    }
}
/// The analysis without the one field that may vary.
pub fn canon(r: &AnalysisResult) -> AnalysisResult {
    let mut c = r.clone();
    c.metadata.processing_time_ms = 0.0;
    c
}
impl D for AnalysisResult {
    fn d(&self, h: &mut Dg) {
        // Debug prints floats with shortest round-trip digits, so it is bit exact up to NaN payloads.
        format!("{:?}", canon(self)).d(h)
    }
}
