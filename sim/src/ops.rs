//! The public operations of the library, as simulated clients call them.
use crate::cfg;
use crate::ffi::*;
use crate::gen::{Gen, Rng};
use crate::obs::*;
use crate::signal::{self, Damage};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;
use stratum_dsp::features::beat_tracking::{self as bt, bayesian::BayesianBeatTracker, hmm::HmmBeatTracker, tempo_variation, time_signature};
use stratum_dsp::features::chroma::{extractor as ce, normalization as cn, smoothing as cs};
use stratum_dsp::features::key::{self as key, templates::TemplateSet, KeyTemplates};
use stratum_dsp::features::onset::{self as on, consensus::OnsetConsensus};
use stratum_dsp::features::period::{self as per, novelty as nov, tempogram::TempogramBandFusionConfig, *};
use stratum_dsp::preprocessing::{channel_mixer as cm, normalization as no, silence as si};
use stratum_dsp::{analyze_audio, compute_confidence, AnalysisError, AnalysisResult, Key};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct OpSpec {
    pub op: String,
    pub seed: u64,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub over: BTreeMap<String, u64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub dmg: Vec<Damage>,
    /// diagnostic settings applied on top of the drawn configuration (C06): bit0 debug_track_id, bit1 debug_gt_bpm,
    /// bit2 emit candidates, bits 8.. top_n
    #[serde(default, skip_serializing_if = "is0")]
    pub diag: u64,
    /// object shared between the tasks of a scenario (0: private)
    #[serde(default, skip_serializing_if = "is0")]
    pub share: u64,
}
fn is0(x: &u64) -> bool {
    *x == 0
}

/// Faults to inject during one call.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Faults {
    /// fail the n-th allocation of at least `min` bytes
    #[serde(skip_serializing_if = "Option::is_none")]
    pub alloc: Option<(u64, u64)>,
    /// the logger panics on the n-th record
    #[serde(skip_serializing_if = "Option::is_none")]
    pub log_panic: Option<u64>,
    /// at the n-th record the level changes
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub log_level: Vec<(u64, u8)>,
    /// at the n-th record the logger calls back into the library
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub log_reenter: Vec<u64>,
    /// at the n-th record the logger blocks for so many ns of simulated time
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub log_slow: Vec<(u64, u64)>,
    /// n-th write to standard error fails: errno, -1 short write, -2 broken for good
    #[serde(skip_serializing_if = "Option::is_none")]
    pub stderr: Option<(u64, i64)>,
    /// (step, kind, arg): 1 monotonic leap ns, 2 real-time step ns, 3 clock rate, 4 forced preemption
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub clock: Vec<(u64, u32, i64)>,
}
impl Faults {
    pub fn is_none(&self) -> bool {
        *self == Faults::default()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct StepObs {
    /// "ok", "err", "panic", "injected"
    pub out: String,
    pub digest: u64,
    pub text: String,
    pub steps: u64,
    pub allocs: u64,
    pub logs: u64,
    pub peak: u64,
    pub retained: i64,
    pub live_total: i64,
    pub stderr_writes: u64,
    pub clock_reads: u64,
    pub t0: u64,
    pub t1: u64,
    pub g0: u64,
    pub g1: u64,
    pub fired: BTreeMap<String, u64>,
    pub pt_bits: u32,
    pub wf: Vec<String>,
    pub mxcsr: u32,
    pub entropy_reads: u64,
    pub clk_first: u64,
    pub clk_last: u64,
    pub n: u64,
    /// tempo bits and key of a C13 run
    pub t_bits: Vec<u32>,
}

pub enum Shared {
    Hmm(HmmBeatTracker),
    Templates(KeyTemplates),
}
pub struct Cx {
    pub faults: Faults,
    pub first: bool,
    pub st: RtStats,
    pub all_cids: Vec<u64>,
    pub want_text: bool,
    pub want_wf: bool,
    pub shared: BTreeMap<(String, u64), Arc<Shared>>,
    pub limit: u64,
    pub fired: BTreeMap<String, u64>,
    pub pt_ms: f32,
    pub wf: Vec<String>,
    pub n: u64,
    pub t_bits: Vec<u32>,
}
thread_local! {
    pub static LOGPLAN: RefCell<LogPlan> = RefCell::new(LogPlan::default());
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
#[derive(Default, Clone)]
pub struct LogPlan {
    pub panic_at: u64,
    pub level: Vec<(u64, u8)>,
    pub reenter: Vec<u64>,
    pub slow: Vec<(u64, u64)>,
    pub fired: BTreeMap<String, u64>,
    pub busy: bool,
    pub reenter_bad: Vec<String>,
}
pub enum Out<R> {
    Val(R),
    Panic(String),
    Injected(String),
}

impl Cx {
    pub fn new() -> Self {
        Cx {
            faults: Faults::default(),
            first: true,
            st: RtStats::default(),
            all_cids: vec![],
            want_text: false,
            want_wf: false,
            shared: BTreeMap::new(),
            limit: 0,
            fired: BTreeMap::new(),
            pt_ms: -1.0,
            wf: vec![],
            n: 0,
            t_bits: vec![],
        }
    }
    /// Runs one library call under the fault plan.
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Out<R> {
        let fl = if self.first { self.faults.clone() } else { Faults::default() };
        self.first = false;
        let ev: Vec<RtEvent> = fl.clock.iter().map(|(at, k, a)| RtEvent { at: *at, kind: *k, pad: 0, arg: *a }).collect();
        LOGPLAN.with(|p| {
            *p.borrow_mut() = LogPlan {
                panic_at: fl.log_panic.unwrap_or(0),
                level: fl.log_level.clone(),
                reenter: fl.log_reenter.clone(),
                slow: fl.log_slow.clone(),
                ..Default::default()
            }
        });
        let plan = RtPlan {
            fail_alloc_at: fl.alloc.map_or(0, |a| a.0 as i64),
            fail_alloc_min: fl.alloc.map_or(0, |a| a.1 as i64),
            stderr_fault_at: fl.stderr.map_or(0, |a| a.0 as i64),
            stderr_errno: fl.stderr.map_or(0, |a| a.1),
            nev: ev.len() as u64,
            ev: ev.as_ptr(),
        };
        let mut st = RtStats::default();
        PANIC.with(|p| p.borrow_mut().clear());
        unsafe { rt_call_begin(&plan, self.limit) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        unsafe { rt_call_end(&mut st) };
        drop(ev);
        let lp = LOGPLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
        for (k, v) in lp.fired {
            *self.fired.entry(k).or_default() += v;
        }
        self.wf.extend(lp.reenter_bad);
        for (k, v) in [("alloc_failure", st.fired_alloc), ("stderr_error", st.fired_stderr), ("clock_event", st.fired_clock)] {
            if v > 0 {
                *self.fired.entry(k.into()).or_default() += v;
            }
        }
        self.all_cids.push(st.call_id);
        let s = &mut self.st;
        s.steps += st.steps;
        s.allocs += st.allocs;
        s.logs += st.logs;
        s.peak = s.peak.max(st.peak);
        s.stderr_writes += st.stderr_writes;
        s.clock_reads += st.clock_reads;
        s.getrandom_calls += st.getrandom_calls;
        if s.t0_mono == 0 {
            s.t0_mono = st.t0_mono;
            s.gstep0 = st.gstep0;
            s.clk_first = st.clk_first;
        }
        s.t1_mono = st.t1_mono;
        s.gstep1 = st.gstep1;
        s.clk_last = st.clk_last;
        match r {
            Ok(v) => Out::Val(v),
            Err(p) => match p.downcast_ref::<Injected>() {
                Some(i) => Out::Injected(i.0.to_string()),
                None => Out::Panic(PANIC.with(|p| p.borrow().clone())),
            },
        }
    }
}

pub const OPS: &[&str] = &[
    "analyze", "confidence", "normalize", "trim", "mono", "energy_onsets", "flux_onsets", "hfc_onsets", "hpss", "hpss_onsets", "vote", "threshold",
    "legacy_bpm", "autocorr", "comb", "coarse", "merge", "peaks", "tempogram", "tempogram_bands", "multires_spec", "multires_samples", "novelty",
    "novelty_bands", "combined", "tg_autocorr", "tg_fft", "stft", "chroma", "chroma_spec", "hpcp", "hpcp_bass", "tuning", "logfreq", "beat_chroma", "smooth_spec",
    "harm_mask", "hpss_mask", "chroma_norm", "smooth_chroma", "key", "key_weighted", "key_mode", "key_multi", "key_median", "key_ensemble",
    "key_changes", "clarity", "templates", "templates_shared", "beat_grid", "hmm", "hmm_shared", "bayes", "tempo_var", "time_sig", "keyname",
];
/// Operations that consume audio samples directly.
pub const AUDIO_OPS: &[&str] = &["analyze", "normalize", "trim", "mono", "energy_onsets", "multires_samples", "stft", "chroma", "confidence"];

/// Size of a stage's input when the scenario scales it up (C09).
fn scaled(g: &Gen, n: usize, div: usize) -> usize {
    match g.over.get("scale") {
        Some(k) => *k as usize / div,
        None => n,
    }
}
/// Arguments the library has to reject (or survive), when the scenario asks for them: `k` numbers an operation's arguments.
fn rj(op: &OpSpec, k: u64, v: f32) -> f32 {
    match op.over.get("rej") {
        Some(x) if x % 5 == k => [0.0f32, -1.0, 1.0e4, 301.0, -0.5, 1000.0][(x / 5 % 6) as usize],
        _ => v,
    }
}
fn rju(op: &OpSpec, k: u64, v: usize) -> usize {
    match op.over.get("rej") {
        Some(x) if x % 5 == k => 0,
        _ => v,
    }
}
fn rjv<T>(op: &OpSpec, k: u64, v: Vec<T>) -> Vec<T> {
    match op.over.get("rej") {
        Some(x) if x % 5 == k => vec![],
        _ => v,
    }
}
pub static DRY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// What the stages before this one make of a damaged stream (run outside the call under test).
fn upstream<R>(op: &OpSpec, f: impl FnOnce() -> Option<R>) -> Option<R> {
    if op.dmg.is_empty() || DRY.load(std::sync::atomic::Ordering::Relaxed) {
        return None;
    }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok().flatten()
}
fn spec(g: &Gen, op: &OpSpec) -> (Vec<Vec<f32>>, u32, usize, u32) {
    let damaged = upstream(op, || {
        let (s, sr) = audio(g, op, "dm.", 16000);
        let (fft, hop) = g.pick("dm.fft", &[(256usize, 256u32), (128, 128), (512, 512), (256, 128)]);
        ce::compute_stft(&s, fft, hop as usize).ok().filter(|v| !v.is_empty()).map(|v| (v, sr, fft, hop))
    });
    if let Some(d) = damaged {
        return d;
    }
    let nf = g.pick("sp.f", &[40usize, 12, 24, 80, 140, 3, 1]);
    let nb = g.pick("sp.b", &[129usize, 65, 257, 33, 513]);
    let nf = scaled(g, if nb > 200 { nf.min(60) } else { nf }, 4);
    let sr = g.pick("sp.sr", &signal::RATES);
    let hop = g.pick("sp.hop", &[512u32, 256, 128, 441]);
    let mut r = g.rng("sp.seed");
    let period = g.range("sp.per", 4, 16);
    let f0 = g.range("sp.f0", 2, 20);
    let noise = g.f("sp.noise", 0.0, 0.3);
    let s = (0..nf)
        .map(|t| {
            let hit = if t % period == 0 { 1.0 } else { 0.15 * (1.0 - (t % period) as f32 / period as f32) };
            (0..nb)
                .map(|b| {
                    let h = if b % f0 == 0 && b > 0 { 1.0 / (b / f0) as f32 } else { 0.0 };
                    (hit * (0.3 + 0.7 * r.f()) + h + noise * r.f()) * 10.0
                })
                .collect()
        })
        .collect();
    (s, sr, 2 * (nb - 1), hop)
}
fn rspec(g: &Gen, op: &OpSpec) -> (Vec<Vec<f32>>, u32, usize, u32) {
    let (s, sr, fft, hop) = spec(g, op);
    (rjv(op, 0, s), rju(op, 1, sr as usize) as u32, fft, rju(op, 2, hop as usize) as u32)
}
fn chroma_vecs(g: &Gen, op: &OpSpec) -> Vec<Vec<f32>> {
    let damaged = upstream(op, || {
        let (s, sr, fft, _) = spec(g, op);
        ce::extract_chroma_from_spectrogram_with_options(&s, sr, fft, true, 0.5).ok().filter(|v| !v.is_empty())
    });
    if let Some(d) = damaged {
        return d;
    }
    let n = scaled(g, g.pick("ch.n", &[20usize, 5, 60, 120, 1]), 2);
    let root = g.range("ch.root", 0, 11);
    let kind = g.pick("ch.kind", &[0usize, 1, 2, 3, 4]);
    let noise = g.pick("ch.noise", &[0.0f32, 0.02, 0.1, 0.5]);
    let mut r = g.rng("ch.seed");
    let change = g.chance("ch.change", 1, 3);
    (0..n)
        .map(|t| {
            let root = if change && t > n / 2 { (root + 7) % 12 } else { root };
            let mut v = vec![0.0f32; 12];
            let pcs: &[usize] = match kind {
                0 => &[0, 4, 7],
                1 => &[0, 3, 7],
                2 => &[0, 2, 4, 5, 7, 9, 11],
                3 => &[0],
                _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
            };
            for p in pcs {
                v[(root + p) % 12] += 1.0;
            }
            for x in v.iter_mut() {
                *x += noise * r.f();
            }
            let s = v.iter().map(|x| x * x).sum::<f32>().sqrt().max(1e-9);
            v.iter_mut().for_each(|x| *x /= s);
            v
        })
        .collect()
}
fn onsets_sec(g: &Gen, op: &OpSpec) -> (Vec<f32>, f32) {
    let damaged = upstream(op, || {
        let (s, sr) = audio(g, op, "dm.", 60000);
        on::energy_flux::detect_energy_flux_onsets(&s, 512, 128, -30.0).ok().map(|v| (v.iter().map(|x| *x as f32 / sr.max(1) as f32).collect::<Vec<f32>>(), 60.0 + g.f("on.bpmd", 0.0, 120.0)))
    });
    match damaged {
        Some(d) => d,
        None => onsets_clean(g),
    }
}
pub fn onsets_clean(g: &Gen) -> (Vec<f32>, f32) {
    let bpm = g.pick("on.bpm", &[120.0f32, 90.0, 128.0, 75.0, 174.0, 60.0]) + g.f("on.bpmf", 0.0, 4.0);
    let n = scaled(g, g.pick("on.n", &[16usize, 8, 32, 48, 4, 2]), 1);
    let jit = g.pick("on.jit", &[0.0f32, 0.005, 0.02, 0.1]);
    let drift = g.pick("on.drift", &[0.0f32, 0.0, 0.02, -0.015]);
    let mut r = g.rng("on.seed");
    let mut t = g.f("on.t0", 0.0, 2.0);
    let mut v = vec![];
    for i in 0..n {
        if !r.chance(1, 12) || jit == 0.0 {
            v.push((t + jit * r.s()).max(0.0));
        }
        t += 60.0 / bpm * (1.0 + drift * (i / 8) as f32);
        if jit > 0.0 && r.chance(1, 8) {
            v.push(t - 0.5 * 60.0 / bpm);
        }
    }
    v.sort_by(|a, b| a.total_cmp(b));
    (v, bpm)
}
fn onsets_smp(g: &Gen, op: &OpSpec) -> (Vec<usize>, u32) {
    let (s, _) = onsets_sec(g, op);
    let sr = g.pick("on.sr", &signal::RATES);
    let mut v: Vec<usize> = s.iter().map(|t| (t * sr as f32) as usize).collect();
    v.dedup();
    (v, sr)
}
fn weights(g: &Gen, n: usize) -> Option<Vec<f32>> {
    if !g.chance("w?", 1, 2) {
        return None;
    }
    let mut r = g.rng("w");
    Some((0..n).map(|_| r.f()).collect())
}
fn templates(g: &Gen) -> KeyTemplates {
    match g.pick("tset", &[0, 1, 2]) {
        0 => KeyTemplates::new(),
        1 => KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler),
        _ => KeyTemplates::new_with_template_set(TemplateSet::Temperley),
    }
}
fn bands(g: &Gen) -> TempogramBandFusionConfig {
    TempogramBandFusionConfig {
        enabled: !g.chance("bd.off", 1, 6),
        low_max_hz: g.pick("bd.low", &[200.0, 120.0]),
        mid_max_hz: g.pick("bd.mid", &[2000.0, 1500.0]),
        high_max_hz: g.pick("bd.high", &[8000.0, 0.0, 6000.0]),
        w_full: g.f("bd.wf", 0.0, 1.0),
        w_low: g.f("bd.wl", 0.0, 1.0),
        w_mid: g.f("bd.wm", 0.0, 1.0),
        w_high: g.f("bd.wh", 0.0, 1.0),
        seed_only: g.chance("bd.seed", 1, 2),
        support_threshold: g.f("bd.sup", 0.0, 0.5),
        consensus_bonus: g.f("bd.bon", 0.0, 0.2),
        enable_mel: !g.chance("bd.nomel", 1, 3),
        mel_n_mels: g.pick("bd.nmel", &[40, 24, 13]),
        mel_fmin_hz: g.pick("bd.mmin", &[30.0, 60.0]),
        mel_fmax_hz: g.pick("bd.mmax", &[8000.0, 6000.0]),
        mel_max_filter_bins: g.pick("bd.mflt", &[2, 0, 1]),
        w_mel: g.f("bd.wmel", 0.0, 0.5),
        novelty_w_spectral: g.f("bd.ns", 0.1, 1.0),
        novelty_w_energy: g.f("bd.ne", 0.0, 1.0),
        novelty_w_hfc: g.f("bd.nh", 0.0, 1.0),
        novelty_local_mean_window: g.pick("bd.lmw", &[16, 0, 8]),
        novelty_smooth_window: g.pick("bd.smw", &[5, 0, 3]),
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: 5,
        superflux_max_filter_bins: g.pick("bd.sf", &[4, 0, 2]),
    }
}
fn audio(g: &Gen, op: &OpSpec, p: &str, max: usize) -> (Vec<f32>, u32) {
    let (s, sr) = signal::draw(g, p, max);
    signal::deliver(s, sr, &op.dmg)
}
fn curve(g: &Gen) -> Vec<f32> {
    let n = scaled(g, g.pick("cv.n", &[120usize, 40, 250, 16, 400]), 1);
    let p = g.range("cv.p", 5, 30);
    let mut r = g.rng("cv.seed");
    let z = g.f("cv.noise", 0.0, 0.4);
    (0..n).map(|i| if i % p == 0 { 1.0 } else { 0.1 } + z * r.f()).collect()
}
pub fn make_shared(op: &OpSpec) -> Option<Shared> {
    let g = Gen::new(op.share, &EMPTY);
    match op.op.as_str() {
        "hmm_shared" => {
            let (o, bpm) = onsets_clean(&g);
            Some(Shared::Hmm(HmmBeatTracker::new(bpm, o, g.pick("sr", &signal::RATES))))
        }
        "templates_shared" => Some(Shared::Templates(templates(&g))),
        _ => None,
    }
}
static EMPTY: BTreeMap<String, u64> = BTreeMap::new();

fn fin<R: D + std::fmt::Debug>(cx: &mut Cx, r: Out<R>, is_err: impl Fn(&R) -> bool) -> (String, u64, String) {
    match r {
        Out::Val(v) => {
            let mut h = Dg::new();
            v.d(&mut h);
            let mut t = String::new();
            if cx.want_text {
                t = format!("{:?}", v);
                if t.len() > 1500 {
                    let mut k = 1500;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                }
            }
            (if is_err(&v) { "err" } else { "ok" }.into(), h.0, t)
        }
        Out::Panic(m) => ("panic".into(), 0xdead, m),
        Out::Injected(m) => ("injected".into(), 0xdead, m),
    }
}
fn finr<T: D + std::fmt::Debug>(cx: &mut Cx, r: Out<Result<T, AnalysisError>>) -> (String, u64, String) {
    fin(cx, r, |x| x.is_err())
}
fn finv<T: D + std::fmt::Debug>(cx: &mut Cx, r: Out<T>) -> (String, u64, String) {
    fin(cx, r, |_| false)
}
pub fn mxcsr() -> u32 {
    let mut v: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v & !0x3f // ignore sticky exception flags
}

/// Executes one operation and reports everything observable about it.
pub fn run(op: &OpSpec, cx: &mut Cx) -> StepObs {
    let (o, _) = run_labels(op, cx, false);
    o
}
/// Labels used by an operation (nothing is executed in the library).
pub fn labels(op: &OpSpec) -> Vec<String> {
    let mut cx = Cx::new();
    DRY.store(true, std::sync::atomic::Ordering::Relaxed);
    let (_, l) = run_labels(op, &mut cx, true);
    DRY.store(false, std::sync::atomic::Ordering::Relaxed);
    l
}
pub fn analysis_config(g: &Gen, op: &OpSpec) -> stratum_dsp::AnalysisConfig {
    let mut c = cfg::draw(g);
    if op.diag & 1 != 0 {
        c.debug_track_id = Some((op.diag >> 32) as u32);
    }
    if op.diag & 2 != 0 {
        c.debug_gt_bpm = Some(60.0 + ((op.diag >> 40) % 120) as f32);
    }
    if op.diag & 4 != 0 {
        c.emit_tempogram_candidates = !c.emit_tempogram_candidates;
    }
    if op.diag & 8 != 0 {
        c.debug_top_n = ((op.diag >> 16) % 40) as usize;
        c.tempogram_candidates_top_n = ((op.diag >> 24) % 40) as usize;
    }
    c
}

fn run_labels(op: &OpSpec, cx: &mut Cx, dry: bool) -> (StepObs, Vec<String>) {
    let g = Gen::new(op.seed, &op.over);
    let g = &g;
    macro_rules! dry { () => { if dry { return (StepObs::default(), g.used.borrow().clone()); } } }
    macro_rules! res { ($e:expr) => {{ dry!(); let r = cx.call(|| $e); finr(cx, r) }} }
    macro_rules! val { ($e:expr) => {{ dry!(); let r = cx.call(|| $e); finv(cx, r) }} }
    let m0 = mxcsr();
    let (out, digest, text) = match op.op.as_str() {
        "analyze" | "confidence" => {
            let (s, sr) = if dry { (vec![], 0) } else { audio(g, op, "", 90000) };
            if dry {
                signal::draw(g, "", 1);
            }
            let mut c = analysis_config(g, op);
            if op.over.contains_key("brange") {
                // a tempo range with an end close to the tempo of the track
                let t = op.over.get("brange.at").map_or_else(|| signal::tempo(g, ""), |b| f32::from_bits(*b as u32)) + g.pick("brange.off", &[0.0f32, 0.05, -0.05, 0.3, -0.3, 0.8, -0.8, 1.5, -1.5, 2.5, -2.5]);
                let w = g.f("brange.w", 15.0, 60.0);
                match g.pick("brange", &[0usize, 1, 2, 3]) {
                    0 => c.max_bpm = t,
                    1 => c.min_bpm = t,
                    2 => (c.min_bpm, c.max_bpm) = (t - w, t),
                    _ => (c.min_bpm, c.max_bpm) = (t, t + w),
                }
                c.min_bpm = c.min_bpm.max(20.0);
                c.max_bpm = c.max_bpm.max(c.min_bpm + 10.0);
            }
            dry!();
            cx.n = s.len() as u64;
            let (mn, mx) = (c.min_bpm, c.max_bpm);
            let keep: Option<Vec<u32>> = if cx.want_wf { Some(s.iter().map(|x| x.to_bits()).collect()) } else { None };
            let cc = c.clone();
            let r = cx.call(|| analyze_audio(&s, sr, cc));
            if let (Some(k), true) = (keep, cx.want_wf) {
                if k.iter().zip(&s).any(|(a, b)| *a != b.to_bits()) {
                    cx.wf.push("input samples modified".into());
                }
            }
            if let Out::Val(Ok(a)) = &r {
                cx.pt_ms = a.metadata.processing_time_ms;
                cx.t_bits = vec![a.bpm.to_bits()];
                if cx.want_wf {
                    let left = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::wf::analysed_len(&s, sr, &c))).ok().flatten();
                    crate::wf::check(a, s.len(), left, sr, mn, mx, &mut cx.wf);
                }
            }
            if op.op == "confidence" {
                match r {
                    Out::Val(Ok(a)) => {
                        cx.first = true; // faults hit the confidence call as well
                        let q = cx.call(|| compute_confidence(&a));
                        if let (Out::Val(q), true) = (&q, cx.want_wf) {
                            crate::wf::check_conf(q, &mut cx.wf);
                        }
                        let lv = match &q {
                            Out::Val(q) => (q.confidence_level().to_string(), q.is_high_confidence(), q.is_low_confidence() as u32 * 2 + q.is_medium_confidence() as u32),
                            _ => (String::new(), false, 0),
                        };
                        let (a, b, c) = finv(cx, q);
                        let mut h = Dg(b);
                        lv.d(&mut h);
                        (a, h.0, c)
                    }
                    r => finr(cx, r),
                }
            } else {
                let r = match r {
                    Out::Val(Ok(a)) => Out::Val(Ok(canon(&a))),
                    r => r,
                };
                if op.diag & (1 << 60) != 0 {
                    // compare without the candidates list (C06)
                    let r = match r {
                        Out::Val(Ok(mut a)) => {
                            a.metadata.tempogram_candidates = None;
                            Out::Val(Ok(a))
                        }
                        r => r,
                    };
                    finr(cx, r)
                } else {
                    finr(cx, r)
                }
            }
        }
        "steady" => {
            // a clear track: drums and chords at one tempo, or chords alone
            let sr = g.pick("sr", &[11025u32, 8000, 9000]);
            let bpm = g.pick("bpm", &[120.0f32, 100.0, 110.0, 128.0, 96.0, 140.0]) + g.f("bpmf", 0.0, 2.0);
            let (root, minor) = (g.range("root", 0, 11) as u32, g.chance("minor", 1, 2));
            dry!();
            let s = signal::synth(1, sr, 90_000, bpm, root, minor, g.raw("seed"));
            let (s, sr) = signal::deliver(s, sr, &op.dmg);
            let c = stratum_dsp::AnalysisConfig {
                key_stft_frame_size: 4096,
                normalization: g.pick("nmode", &[no::NormalizationMethod::Peak, no::NormalizationMethod::RMS, no::NormalizationMethod::Loudness]),
                ..Default::default()
            };
            let r = cx.call(|| analyze_audio(&s, sr, c));
            cx.n = s.len() as u64;
            if let Out::Val(Ok(a)) = &r {
                cx.t_bits = vec![
                    a.bpm.to_bits(),
                    match a.key {
                        Key::Major(k) => k,
                        Key::Minor(k) => 12 + k,
                    },
                    a.key_confidence.to_bits(),
                    a.bpm_confidence.to_bits(),
                    a.key_clarity.to_bits(),
                ];
            }
            finr(cx, r)
        }
        "normalize" => {
            let (mut s, sr) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 90000) };
            let c = no::NormalizationConfig {
                target_loudness_lufs: g.pick("lufs", &[-14.0f32, -23.0, -9.0]),
                max_headroom_db: g.pick("head", &[1.0f32, 0.0, 3.0]),
                method: g.pick("meth", &[no::NormalizationMethod::Peak, no::NormalizationMethod::RMS, no::NormalizationMethod::Loudness]),
            };
            dry!();
            cx.n = s.len() as u64;
            let r = cx.call(|| no::normalize(&mut s, c, rj(op, 0, sr as f32)));
            let ok = matches!(r, Out::Val(_));
            let (a, b, t) = finr(cx, r);
            let mut h = Dg(b);
            if ok {
                s.d(&mut h);
            }
            (a, h.0, t)
        }
        "trim" => {
            let (s, sr) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 90000) };
            let d = si::SilenceDetector {
                threshold_db: g.pick("thr", &[-40.0f32, -60.0, -20.0]),
                min_duration_ms: g.pick("dur", &[500u32, 100, 20]),
                frame_size: rju(op, 1, g.pick("fs", &[2048usize, 1024, 512])),
            };
            cx.n = s.len() as u64;
            res!(si::detect_and_trim(&s, rju(op, 0, sr as usize) as u32, d))
        }
        "mono" => {
            let (l, _) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 40000) };
            let (mut r2, _) = if dry { signal::draw(g, "r.", 1) } else { signal::draw(g, "r.", 40000) };
            r2.resize(l.len(), 0.1);
            let r2 = rjv(op, 0, r2);
            let m = g.pick("mode", &[cm::ChannelMixMode::Mono, cm::ChannelMixMode::MidSide, cm::ChannelMixMode::Dominant, cm::ChannelMixMode::Center]);
            cx.n = l.len() as u64;
            res!(cm::stereo_to_mono(&l, &r2, m))
        }
        "energy_onsets" => {
            let (s, _) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 90000) };
            let (fs, hs) = g.pick("frame", &[(2048usize, 512usize), (1024, 256), (512, 128)]);
            let thr = g.pick("thr", &[-20.0f32, -30.0, -10.0]);
            cx.n = s.len() as u64;
            res!(on::energy_flux::detect_energy_flux_onsets(&s, rju(op, 0, fs), rju(op, 1, hs), rj(op, 2, thr)))
        }
        "flux_onsets" => {
            let (s, ..) = rspec(g, op);
            let p = rj(op, 3, g.pick("pct", &[0.8f32, 0.5, 0.95]));
            res!(on::spectral_flux::detect_spectral_flux_onsets(&s, p))
        }
        "hfc_onsets" => {
            let (s, sr, ..) = rspec(g, op);
            let p = rj(op, 3, g.pick("pct", &[0.8f32, 0.5, 0.95]));
            res!(on::hfc::detect_hfc_onsets(&s, sr, p))
        }
        "hpss" => {
            let (s, ..) = rspec(g, op);
            let m = rju(op, 3, g.pick("margin", &[3usize, 5, 10, 1]));
            res!(on::hpss::hpss_decompose(&s, m))
        }
        "hpss_onsets" => {
            let (s, ..) = rspec(g, op);
            let p = rj(op, 3, g.pick("pct", &[0.8f32, 0.5, 0.95]));
            res!(on::hpss::detect_hpss_onsets(&s, p))
        }
        "vote" => {
            let (e, sr) = onsets_smp(g, op);
            cx.n = e.last().copied().unwrap_or(0) as u64;
            let mut r = g.rng("v");
            let mut jig = |v: &[usize]| -> Vec<usize> {
                let mut o: Vec<usize> = v.iter().filter(|_| true).map(|x| x + r.below(sr as u64 / 40 + 1) as usize).collect();
                o.sort();
                o.dedup();
                o
            };
            let c = OnsetConsensus { spectral_flux: jig(&e), hfc: jig(&e), hpss: if g.chance("nohpss", 1, 2) { vec![] } else { jig(&e) }, energy_flux: e };
            let w = g.pick("wts", &[[0.25f32; 4], [0.4, 0.3, 0.2, 0.1], [1.0, 0.0, 0.0, 0.0]]);
            let w = [rj(op, 4, w[0]), w[1], w[2], w[3]];
            let tol = rju(op, 3, g.pick("tol", &[50usize, 10, 100])) as u32;
            res!(on::consensus::vote_onsets(c, w, tol, sr))
        }
        "threshold" => {
            let c = rjv(op, 0, curve(g));
            let k = g.f("k", 0.5, 4.0);
            let p = g.f("p", 0.0, 1.0);
            if g.chance("mad", 1, 2) {
                res!(on::threshold::adaptive_threshold_median_mad(&c, k))
            } else {
                res!(on::threshold::percentile_threshold(&c, p))
            }
        }
        "legacy_bpm" => {
            let (o, sr) = onsets_smp(g, op);
            let (o, sr) = (rjv(op, 0, o), rju(op, 1, sr as usize) as u32);
            cx.n = o.last().copied().unwrap_or(0) as u64;
            let hop = rju(op, 2, g.pick("hop", &[512usize, 256]));
            let (mn, mx) = g.pick("rng", &[(60.0f32, 180.0f32), (40.0, 240.0), (80.0, 160.0)]);
            let mx = rj(op, 3, mx);
            let res_ = rj(op, 4, g.pick("res", &[1.0f32, 0.5, 2.0]));
            if g.chance("grd", 1, 2) {
                let gr = LegacyBpmGuardrails { preferred_min: 72.0, preferred_max: 168.0, soft_min: 60.0, soft_max: 210.0, mul_preferred: 1.3, mul_soft: 0.7, mul_extreme: 0.01 };
                res!(per::estimate_bpm_with_guardrails(&o, sr, hop, mn, mx, res_, gr))
            } else {
                res!(per::estimate_bpm(&o, sr, hop, mn, mx, res_))
            }
        }
        "autocorr" => {
            let (o, sr) = onsets_smp(g, op);
            let (o, sr) = (rjv(op, 0, o), rju(op, 1, sr as usize) as u32);
            cx.n = o.last().copied().unwrap_or(0) as u64;
            let hop = rju(op, 2, g.pick("hop", &[512usize, 256]));
            res!(per::estimate_bpm_from_autocorrelation(&o, sr, hop, 60.0, 180.0))
        }
        "comb" => {
            let (o, sr) = onsets_smp(g, op);
            let (o, sr) = (rjv(op, 0, o), rju(op, 1, sr as usize) as u32);
            cx.n = o.last().copied().unwrap_or(0) as u64;
            let hop = rju(op, 2, g.pick("hop", &[512usize, 256]));
            let q = g.pick("res", &[1.0f32, 0.5, 2.0]);
            res!(per::estimate_bpm_from_comb_filter(&o, sr, hop, 60.0, 180.0, q))
        }
        "coarse" => {
            let (o, sr) = onsets_smp(g, op);
            let (o, sr) = (rjv(op, 0, o), rju(op, 1, sr as usize) as u32);
            cx.n = o.last().copied().unwrap_or(0) as u64;
            let hop = rju(op, 2, g.pick("hop", &[512usize, 256]));
            let q = g.pick("ref", &[5.0f32, 2.0, 8.0]);
            res!(per::coarse_to_fine_search(&o, sr, hop, 60.0, 180.0, q))
        }
        "merge" => {
            let mut r = g.rng("m");
            let mk = |r: &mut Rng| -> Vec<BpmCandidate> { (0..1 + r.below(8)).map(|_| BpmCandidate { bpm: 60.0 + (r.f() * 40.0).round() * 3.0, confidence: (r.f() * 4.0).round() / 4.0 }).collect() };
            let (a, b) = (mk(&mut r), mk(&mut r));
            let t = g.pick("tol", &[50.0f32, 20.0, 100.0]);
            res!(per::merge_bpm_candidates(a, b, t))
        }
        "peaks" => {
            let c = rjv(op, 0, curve(g));
            let t = g.f("t", 0.0, 1.0);
            let d = g.range("d", 1, 20);
            val!(per::find_peaks(&c, t, d))
        }
        "tempogram" => {
            let (s, sr, _, hop) = rspec(g, op);
            let n = g.pick("top", &[0usize, 5, 20]);
            let (mn, mx) = g.pick("rng", &[(40.0f32, 240.0f32), (60.0, 180.0), (80.0, 160.0)]);
            let mx = rj(op, 3, mx);
            let q = g.pick("res", &[1.0f32, 0.5, 2.0]);
            if n == 0 {
                res!(per::estimate_bpm_tempogram(&s, sr, hop, mn, mx, q))
            } else {
                res!(per::tempogram::estimate_bpm_tempogram_with_candidates(&s, sr, hop, mn, mx, q, n))
            }
        }
        "tempogram_bands" => {
            let (s, sr, _, hop) = rspec(g, op);
            let n = g.pick("top", &[0usize, 5, 20]);
            let b = bands(g);
            if n == 0 {
                res!(per::tempogram::estimate_bpm_tempogram_band_fusion(&s, sr, hop, 40.0, 240.0, 1.0, b))
            } else {
                res!(per::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion(&s, sr, hop, 40.0, 240.0, 1.0, n, b))
            }
        }
        "multires_spec" => {
            let (s, sr, _, hop) = rspec(g, op);
            res!(per::multi_resolution_analysis(&s, sr, hop, 40.0, 240.0, 1.0))
        }
        "multires_samples" => {
            let (s, sr) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 40000) };
            let b = if g.chance("bd?", 1, 2) { Some(bands(g)) } else { None };
            let fs = g.pick("fs", &[1024usize, 2048, 512]);
            let k = g.pick("k", &[10usize, 25, 3]);
            let hp = g.chance("prior", 1, 2);
            cx.n = s.len() as u64;
            res!(per::multi_resolution::multi_resolution_tempogram_from_samples(&s, sr, fs, 40.0, 240.0, 1.0, k, 0.45, 0.35, 0.2, 0.85, 0.92, 0.08, hp, b))
        }
        "novelty" => {
            let (s, sr, ..) = rspec(g, op);
            let m = g.pick("mf", &[4usize, 0, 2]);
            match g.pick("which", &[0, 1, 2, 3, 4]) {
                0 => res!(nov::spectral_flux_novelty(&s)),
                1 => res!(nov::superflux_novelty(&s, m)),
                2 => res!(nov::energy_flux_novelty(&s)),
                3 => res!(nov::hfc_novelty(&s, sr)),
                _ => {
                    let nm = g.pick("nmel", &[40usize, 24, 13]);
                    let fmin = g.pick("fmin", &[30.0f32, 60.0]);
                    let fmax = g.pick("fmax", &[3500.0f32, 8000.0]);
                    res!(nov::mel_superflux_novelty(&s, sr, nm, fmin, fmax, m))
                }
            }
        }
        "novelty_bands" => {
            let (s, ..) = rspec(g, op);
            let nb = s.first().map_or(33, |x| x.len());
            let a = g.range("a", 0, nb / 2);
            let b = g.range("b", nb / 2 + 1, nb);
            let m = g.pick("mf", &[4usize, 0, 2]);
            match g.pick("which", &[0, 1, 2]) {
                0 => res!(nov::superflux_novelty_band(&s, m, a, b)),
                1 => res!(nov::energy_flux_novelty_band(&s, a, b)),
                _ => res!(nov::hfc_novelty_band(&s, a, b)),
            }
        }
        "combined" => {
            let c = rjv(op, 0, curve(g));
            let mut r = g.rng("cc");
            let e: Vec<f32> = c.iter().map(|x| x * r.f()).collect();
            let h: Vec<f32> = c.iter().map(|x| x * r.f()).collect();
            if g.chance("params", 1, 2) {
                let (a, b) = (g.pick("lm", &[16usize, 0, 4]), g.pick("sm", &[5usize, 0, 3]));
                let w = g.f("w", 0.0, 1.0);
                val!(nov::combined_novelty_with_params(&c, &e, &h, w, 0.3, 0.4, a, b))
            } else {
                val!(nov::combined_novelty(&c, &e, &h))
            }
        }
        "tg_autocorr" => {
            let c = rjv(op, 0, curve(g));
            let sr = g.pick("sr", &signal::RATES);
            let q = g.pick("res", &[1.0f32, 0.5, 2.0]);
            dry!();
            let r = cx.call(|| tempogram_autocorr::autocorrelation_tempogram(&c, sr, 512, 40.0, 240.0, q));
            match r {
                Out::Val(Ok(v)) => {
                    let mut h = Dg::new();
                    v.d(&mut h);
                    let b = cx.call(|| tempogram_autocorr::find_best_bpm_autocorr(&v).map(|b| (b.bpm, b.confidence, b.strength)));
                    let (o, d, t) = finv(cx, b);
                    h.w(d);
                    (o, h.0, t)
                }
                r => finr(cx, r),
            }
        }
        "tg_fft" => {
            let c = rjv(op, 0, curve(g));
            let sr = g.pick("sr", &signal::RATES);
            dry!();
            let r = cx.call(|| tempogram_fft::fft_tempogram(&c, sr, 512, 40.0, 240.0));
            match r {
                Out::Val(Ok(v)) => {
                    let mut h = Dg::new();
                    v.d(&mut h);
                    let b = cx.call(|| tempogram_fft::find_best_bpm_fft(&v).map(|b| (b.bpm, b.confidence, b.power)));
                    let (o, d, t) = finv(cx, b);
                    h.w(d);
                    (o, h.0, t)
                }
                r => finr(cx, r),
            }
        }
        "stft" => {
            let (s, _) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 20000) };
            let (fs, hs) = g.pick("frame", &[(1024usize, 256usize), (512, 128), (2048, 512), (256, 64), (1000, 250)]);
            cx.n = s.len() as u64;
            res!(ce::compute_stft(&s, rju(op, 0, fs), rju(op, 1, hs)))
        }
        "chroma" => {
            let (s, sr) = if dry { signal::draw(g, "", 1) } else { audio(g, op, "", 20000) };
            let (fs, hs) = g.pick("frame", &[(2048usize, 512usize), (1024, 512), (4096, 1024)]);
            let (fs, hs) = (rju(op, 0, fs), rju(op, 1, hs));
            cx.n = s.len() as u64;
            if g.chance("opt", 1, 2) {
                let soft = g.chance("soft", 1, 2);
                let sg = g.pick("sig", &[0.5f32, 0.3]);
                res!(ce::extract_chroma_with_options(&s, sr, fs, hs, soft, sg))
            } else {
                res!(ce::extract_chroma(&s, sr, fs, hs))
            }
        }
        "chroma_spec" => {
            let (s, sr, fft, _) = rspec(g, op);
            let soft = g.chance("soft", 1, 2);
            let sg = g.pick("sig", &[0.5f32, 0.3]);
            let tn = g.f("tune", -0.3, 0.3);
            match g.pick("which", &[0, 1, 2]) {
                0 => res!(ce::extract_chroma_from_spectrogram_with_options(&s, sr, fft, soft, sg)),
                1 => res!(ce::extract_chroma_from_spectrogram_with_options_and_energy(&s, sr, fft, soft, sg)),
                _ => res!(ce::extract_chroma_from_spectrogram_with_options_and_energy_tuned(&s, sr, fft, soft, sg, tn)),
            }
        }
        "hpcp" => {
            let (s, sr, fft, _) = rspec(g, op);
            let tn = g.f("tune", -0.3, 0.3);
            let (pk, nh) = (g.pick("pk", &[24usize, 8, 2]), g.pick("nh", &[4usize, 1, 6]));
            let wh = g.chance("wh", 1, 2);
            let wb = g.pick("wb", &[31usize, 7]);
            res!(ce::extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&s, sr, fft, 0.5, tn, pk, nh, 0.6, 0.5, wh, wb))
        }
        "hpcp_bass" => {
            let (s, sr, fft, _) = rspec(g, op);
            let tn = g.f("tune", -0.3, 0.3);
            let (pk, nh) = (g.pick("pk", &[24usize, 8, 2]), g.pick("nh", &[4usize, 1, 6]));
            let wh = g.chance("wh", 1, 2);
            let bw = g.f("bw", 0.0, 1.0);
            res!(ce::extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&s, sr, fft, 0.5, tn, pk, nh, 0.6, 0.5, wh, 31, 55.0, 300.0, bw))
        }
        "tuning" => {
            let (s, sr, fft, _) = rspec(g, op);
            let st = g.pick("step", &[1usize, 5, 20]);
            res!(ce::estimate_tuning_offset_semitones_from_spectrogram(&s, sr, fft, 80.0, 2000.0, st, 0.35))
        }
        "logfreq" => {
            let (s, sr, fft, _) = rspec(g, op);
            let off = g.range("off", 0, 11) as i32;
            dry!();
            let r = cx.call(|| ce::convert_linear_to_log_frequency_spectrogram(&s, sr, fft, 80.0, 3000.0));
            match r {
                Out::Val(Ok(v)) => {
                    let r2 = cx.call(|| ce::extract_chroma_from_log_frequency_spectrogram(&v, off));
                    let mut h = Dg::new();
                    v.d(&mut h);
                    let (o, d, t) = finr(cx, r2);
                    h.w(d);
                    (o, h.0, t)
                }
                r => finr(cx, r),
            }
        }
        "beat_chroma" => {
            let (s, sr, fft, hop) = rspec(g, op);
            let dur = s.len() as f32 * hop as f32 / sr as f32;
            let nb = g.range("nb", 2, 8);
            let b: Vec<f32> = (0..nb).map(|i| dur * i as f32 / nb as f32).collect();
            let soft = g.chance("soft", 1, 2);
            res!(ce::extract_beat_synchronous_chroma(&s, sr, fft, hop as usize, &b, soft, 0.5, 0.0))
        }
        "smooth_spec" => {
            let (s, ..) = rspec(g, op);
            let m = g.pick("margin", &[3usize, 12, 0, 1]);
            res!(ce::smooth_spectrogram_time(&s, m))
        }
        "harm_mask" => {
            let (s, ..) = rspec(g, op);
            let m = g.pick("margin", &[3usize, 12, 1]);
            let p = g.pick("pow", &[2.0f32, 1.0]);
            res!(ce::harmonic_spectrogram_time_mask(&s, m, p))
        }
        "hpss_mask" => {
            let (s, sr, fft, _) = rspec(g, op);
            let st = g.pick("step", &[1usize, 2, 4]);
            let m = g.pick("margin", &[2usize, 8, 4]);
            res!(ce::harmonic_spectrogram_hpss_median_mask(&s, sr, fft, 80.0, 3000.0, st, m, m, 2.0))
        }
        "chroma_norm" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let p = g.pick("pow", &[2.0f32, 1.0, 1.5]);
            val!((c.iter().map(|v| cn::sharpen_chroma(v, p)).collect::<Vec<_>>(), c.iter().map(|v| cn::l2_normalize_chroma(v)).collect::<Vec<_>>()))
        }
        "smooth_chroma" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let w = g.pick("win", &[5usize, 3, 1, 9]);
            val!((cs::smooth_chroma(&c, w), cs::smooth_chroma_average(&c, w)))
        }
        "key" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let t = templates(g);
            res!(key::detect_key(&c, &t))
        }
        "key_weighted" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let t = templates(g);
            let w = weights(g, c.len()).map(|w| rjv(op, 1, w));
            res!(key::detect_key_weighted(&c, &t, w.as_deref()))
        }
        "key_mode" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let t = templates(g);
            let w = weights(g, c.len()).map(|w| rjv(op, 1, w));
            let (a, b) = (g.f("m1", 0.0, 0.3), g.f("m2", 0.0, 1.0));
            let hb = g.chance("hb", 1, 2);
            res!(key::detect_key_weighted_mode_heuristic(&c, &t, w.as_deref(), a, b, hb, 0.3))
        }
        "key_multi" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let t = templates(g);
            let w = weights(g, c.len()).map(|w| rjv(op, 1, w));
            let ls = g.pick("lens", &[vec![8usize, 16], vec![20], vec![4, 30, 60]]);
            let hop = rju(op, 2, g.pick("hop", &[4usize, 10, 1]));
            let mc = g.pick("mc", &[0.2f32, 0.0, 0.5]);
            let mh = g.chance("mh", 1, 2);
            res!(key::detect_key_multi_scale(&c, &t, w.as_deref(), &ls, hop, mc, None, mh, 0.05, 0.6, false, 0.2))
        }
        "key_median" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let t = templates(g);
            let w = weights(g, c.len()).map(|w| rjv(op, 1, w));
            let l = rju(op, 3, g.pick("len", &[8usize, 16, 30]));
            let hop = rju(op, 2, g.pick("hop", &[4usize, 10, 1]));
            let ms = g.pick("ms", &[1usize, 3]);
            res!(key::detector::detect_key_median(&c, &t, w.as_deref(), l, hop, ms))
        }
        "key_ensemble" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let w = weights(g, c.len()).map(|w| rjv(op, 1, w));
            let (a, b) = (rj(op, 2, g.f("kk", 0.1, 1.0)), g.f("te", 0.0, 1.0));
            res!(key::detect_key_ensemble(&c, w.as_deref(), a, b))
        }
        "key_changes" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            let t = templates(g);
            let d = rj(op, 2, g.pick("dur", &[0.5f32, 0.2, 1.0]));
            let o = g.pick("ovl", &[0.1f32, 0.0, 0.15]);
            res!(key::detect_key_changes(&c, 8000, 512, &t, d, o))
        }
        "clarity" => {
            let mut r = g.rng("cl");
            let n = g.range("n", 0, 24);
            let v: Vec<(Key, f32)> = (0..n).map(|i| (if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) }, r.f())).collect();
            val!(key::compute_key_clarity(&v))
        }
        "templates" => {
            dry!();
            let k = g.pick("tset", &[0, 1, 2]);
            let r = cx.call(|| match k {
                0 => KeyTemplates::new(),
                1 => KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler),
                _ => KeyTemplates::new_with_template_set(TemplateSet::Temperley),
            });
            match r {
                Out::Val(t) => {
                    let b = cx.call(|| (0..24).map(|i| t.get_template(i).to_vec()).collect::<Vec<_>>());
                    finv(cx, b)
                }
                Out::Panic(m) => ("panic".into(), 1, m),
                Out::Injected(m) => ("injected".into(), 1, m),
            }
        }
        "templates_shared" => {
            let c = rjv(op, 0, chroma_vecs(g, op));
            dry!();
            let sh = shared_of(op, cx);
            match &*sh {
                Shared::Templates(t) => {
                    let r = cx.call(|| key::detect_key_weighted(&c, t, None).map(|r| (r, (0..24).map(|i| t.get_template(i).to_vec()).collect::<Vec<_>>())));
                    finr(cx, r)
                }
                _ => unreachable!(),
            }
        }
        "hmm_shared" => {
            dry!();
            let sh = shared_of(op, cx);
            match &*sh {
                Shared::Hmm(t) => {
                    let r = cx.call(|| t.track_beats());
                    finr(cx, r)
                }
                _ => unreachable!(),
            }
        }
        "beat_grid" => {
            let (o, bpm) = onsets_sec(g, op);
            let (o, bpm) = (rjv(op, 0, o), rj(op, 1, bpm));
            let sr = rju(op, 2, g.pick("sr", &signal::RATES) as usize) as u32;
            let cf = rj(op, 3, g.f("cf", 0.0, 1.0));
            res!(bt::generate_beat_grid(bpm, cf, &o, sr))
        }
        "hmm" => {
            let (o, bpm) = onsets_sec(g, op);
            let (o, bpm) = (rjv(op, 0, o), rj(op, 1, bpm));
            let sr = rju(op, 2, g.pick("sr", &signal::RATES) as usize) as u32;
            res!(HmmBeatTracker::new(bpm, o, sr).track_beats())
        }
        "bayes" => {
            let (o, bpm) = onsets_sec(g, op);
            let (o, bpm) = (rjv(op, 0, o), rj(op, 1, bpm));
            let sr = rju(op, 2, g.pick("sr", &signal::RATES) as usize) as u32;
            let b0 = rj(op, 3, g.f("b0", 60.0, 180.0));
            let _ = bpm;
            res!({
                let mut t = BayesianBeatTracker::new(b0, 0.5);
                let mut last = Ok((0.0, 0.0));
                for ch in o.chunks(6) {
                    last = t.update_with_onsets(ch, sr);
                }
                last.map(|l| (l, t.get_history().to_vec()))
            })
        }
        "tempo_var" => {
            let (o, bpm) = onsets_sec(g, op);
            let (o, bpm) = (rjv(op, 0, o), rj(op, 1, bpm));
            res!(tempo_variation::detect_tempo_variations(&o, bpm).map(|s| (tempo_variation::has_tempo_variation(&s), s)))
        }
        "time_sig" => {
            let (o, bpm) = onsets_sec(g, op);
            let (o, bpm) = (rjv(op, 0, o), rj(op, 1, bpm));
            res!(time_signature::detect_time_signature(&o, bpm))
        }
        "keyname" => {
            let k = g.range("k", 0, 11) as u32;
            let m = g.chance("min", 1, 2);
            val!({
                let k = if m { Key::Minor(k) } else { Key::Major(k) };
                let n = k.numerical();
                (k.name(), n.clone(), Key::from_numerical(&n))
            })
        }
        other => panic!("unknown op {other}"),
    };
    let _: Option<AnalysisResult> = None;
    let retained: i64 = cx.all_cids.iter().map(|c| unsafe { rt_call_live(*c) }).sum();
    let s = cx.st;
    let m1 = mxcsr();
    let used = g.used.borrow().clone();
    (
        StepObs {
            out,
            digest,
            text,
            steps: s.steps,
            allocs: s.allocs,
            logs: s.logs,
            peak: s.peak,
            retained,
            live_total: unsafe { rt_lib_live() },
            stderr_writes: s.stderr_writes,
            clock_reads: s.clock_reads,
            t0: s.t0_mono,
            t1: s.t1_mono,
            g0: s.gstep0,
            g1: s.gstep1,
            fired: std::mem::take(&mut cx.fired),
            pt_bits: cx.pt_ms.to_bits(),
            wf: std::mem::take(&mut cx.wf),
            mxcsr: m0 ^ m1,
            entropy_reads: s.getrandom_calls,
            clk_first: s.clk_first,
            clk_last: s.clk_last,
            n: cx.n,
            t_bits: std::mem::take(&mut cx.t_bits),
        },
        used,
    )
}
fn shared_of(op: &OpSpec, cx: &Cx) -> Arc<Shared> {
    match cx.shared.get(&(op.op.clone(), op.share)) {
        Some(s) => s.clone(),
        None => Arc::new(make_shared(op).unwrap()),
    }
}
