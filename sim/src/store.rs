//! C12: results written to a simulated disk that tears, shortens, loses and fails writes.
use crate::gen::Rng;
use crate::ops::{Cx, OpSpec, Out};
use crate::scen::{ExecOpts, RunOut};
use serde::{Deserialize, Serialize};
use std::io::{self, Write};
use stratum_dsp::{analyze_audio, compute_confidence, AnalysisConfidence, AnalysisResult};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct StoreScn {
    pub recs: Vec<Rec>,
    /// the crash happens after this many disk writes (0: never)
    pub crash_after: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Rec {
    pub op: OpSpec,
    /// store the confidence report instead of the analysis
    pub conf: bool,
    pub pretty: bool,
    /// (n-th write, kind, arg): 1 short write of arg bytes, 2 EINTR, 3 ENOSPC, 4 EIO, 5 block silently lost (reads as zeros), 6 sync fails
    pub faults: Vec<(u64, u8, u64)>,
    /// bytes of the file that survive a crash beyond the last sync, per mille
    pub keep: u64,
    pub sync: bool,
    /// non-zero: the stored analysis carries further values drawn from this seed
    pub vary: u64,
    /// reading it back: (n-th read, kind, arg): 1 at most arg bytes, 2 EINTR, 3 EIO
    pub reads: Vec<(u64, u8, u64)>,
}
struct Src<'a> {
    data: &'a [u8],
    n: u64,
    faults: &'a [(u64, u8, u64)],
    fired: Vec<&'static str>,
}
impl io::Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        let mut m = b.len().min(self.data.len());
        for (n, k, a) in self.faults {
            if *n == self.n {
                match k {
                    1 => {
                        self.fired.push("disk_short_read");
                        m = m.min((*a as usize).max(1));
                    }
                    2 => {
                        self.fired.push("disk_read_eintr");
                        return Err(io::Error::from(io::ErrorKind::Interrupted));
                    }
                    _ => {
                        self.fired.push("disk_read_eio");
                        return Err(io::Error::from_raw_os_error(5));
                    }
                }
            }
        }
        b[..m].copy_from_slice(&self.data[..m]);
        self.data = &self.data[m..];
        Ok(m)
    }
}
fn num(g: &mut Rng) -> f32 {
    match g.below(6) {
        0 => g.f(),
        1 => g.f() * 300.0,
        2 => 60.0 + (g.below(2400) as f32) * 0.05,
        3 => g.pick(&[0.0f32, -0.0, 1.0, 0.1, 1e-7, 16777216.0, 16777217.0, 1e9, 0.30000001, f32::MIN_POSITIVE, f32::MAX, 1e-45]),
        4 => (g.below(1 << 24) as f32) / 44100.0,
        _ => {
            let x = f32::from_bits(g.u() as u32);
            if x.is_finite() { x } else { 0.5 }
        }
    }
}
/// Any value the result types can carry (finite numbers), not only what one analysis happens to produce.
fn vary(r: &mut AnalysisResult, seed: u64) {
    use stratum_dsp::analysis::result::{AnalysisFlag, Key, TempoCandidateDebug};
    let g = &mut Rng::new(seed);
    fn text(g: &mut Rng) -> String {
        let n = g.below(12);
        (0..n).map(|_| g.pick(&['a', ' ', '"', '\\', '\n', '\u{0}', '\u{1f}', 'é', '→', '\u{1F3B5}', '/', ',', '}', ']', ':'])).collect()
    }
    fn list(g: &mut Rng, hi: u64) -> Vec<f32> {
        let n = if g.chance(1, 4) { 0 } else { g.log(hi) };
        let mut t = g.f();
        let step = 0.2 + g.f();
        let wild = g.chance(1, 4);
        (0..n)
            .map(|_| {
                t += step;
                if wild { num(g) } else { t }
            })
            .collect()
    }
    fn opt(g: &mut Rng) -> Option<bool> {
        g.pick(&[None, Some(true), Some(false)])
    }
    let mask = g.u();
    let on = |b: u32| mask >> b & 1 != 0;
    if on(0) {
        r.bpm = num(g);
        r.bpm_confidence = num(g);
    }
    if on(1) {
        r.key = if g.chance(1, 2) { Key::Major(g.below(12) as u32) } else { Key::Minor(g.below(12) as u32) };
    }
    if on(2) {
        r.key_confidence = num(g);
        r.key_clarity = num(g);
    }
    if on(3) {
        r.beat_grid.beats = list(g, 600);
    }
    if on(4) {
        r.beat_grid.downbeats = list(g, 200);
    }
    if on(5) {
        r.beat_grid.bars = list(g, 200);
    }
    if on(6) {
        r.grid_stability = num(g);
    }
    if on(7) {
        r.metadata.duration_seconds = num(g);
        r.metadata.sample_rate = g.u() as u32 >> g.below(32);
        r.metadata.processing_time_ms = num(g);
    }
    if on(8) {
        r.metadata.algorithm_version = text(g);
        r.metadata.onset_method_consensus = num(g);
    }
    if on(9) {
        let n = g.below(4);
        r.metadata.methods_used = (0..n).map(|_| text(g)).collect();
    }
    if on(10) {
        let n = g.below(5);
        r.metadata.flags = (0..n)
            .map(|_| match g.below(4) {
                0 => AnalysisFlag::MultimodalBpm,
                1 => AnalysisFlag::WeakTonality,
                2 => AnalysisFlag::TempoVariation,
                _ => AnalysisFlag::OnsetDetectionAmbiguous,
            })
            .collect();
    }
    if on(11) {
        let n = g.below(4);
        r.metadata.confidence_warnings = (0..n).map(|_| text(g)).collect();
    }
    if on(12) {
        let n = g.below(12);
        r.metadata.tempogram_candidates = if g.chance(1, 3) {
            None
        } else {
            Some((0..n).map(|_| TempoCandidateDebug { bpm: num(g), score: num(g), fft_norm: num(g), autocorr_norm: num(g), selected: g.chance(1, 2) }).collect())
        };
    }
    if on(13) {
        r.metadata.tempogram_multi_res_triggered = opt(g);
        r.metadata.tempogram_multi_res_used = opt(g);
        r.metadata.tempogram_percussive_triggered = opt(g);
        r.metadata.tempogram_percussive_used = opt(g);
    }
}
struct Disk {
    data: Vec<u8>,
    lost: Vec<(usize, usize)>,
    writes: u64,
    faults: Vec<(u64, u8, u64)>,
    fired: Vec<&'static str>,
    crash_in: u64,
    crashed: bool,
}
impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.crashed {
            return Err(io::Error::from_raw_os_error(5));
        }
        if self.crash_in > 0 {
            self.crash_in -= 1;
            if self.crash_in == 0 {
                self.crashed = true;
                self.fired.push("crash_mid_write");
                let k = b.len() / 2;
                self.data.extend_from_slice(&b[..k]);
                return Err(io::Error::from_raw_os_error(5));
            }
        }
        for (n, k, a) in self.faults.clone() {
            if n == self.writes {
                match k {
                    1 => {
                        let m = (a as usize).max(1).min(b.len());
                        self.data.extend_from_slice(&b[..m]);
                        self.fired.push("disk_short_write");
                        return Ok(m);
                    }
                    2 => {
                        self.fired.push("disk_eintr");
                        return Err(io::Error::from(io::ErrorKind::Interrupted));
                    }
                    3 => {
                        self.fired.push("disk_full");
                        return Err(io::Error::from_raw_os_error(28));
                    }
                    4 => {
                        self.fired.push("disk_eio");
                        return Err(io::Error::from_raw_os_error(5));
                    }
                    5 => {
                        self.fired.push("disk_lost_write");
                        let s = self.data.len();
                        self.lost.push((s, s + b.len()));
                    }
                    _ => {}
                }
            }
        }
        self.data.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn canon<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}")
}
fn first_diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = i.saturating_sub(60);
    let cut = |x: &str| x.get(s..(i + 40).min(x.len())).unwrap_or("").to_string();
    format!("...{} | ...{}", cut(a), cut(b))
}
pub fn execute(s: &StoreScn, out: &mut RunOut, _o: ExecOpts) {
    let s = s.clone();
    let (bad, fired, probes) = std::thread::spawn(move || {
        let (mut bad, mut fired, mut probes) = (vec![], std::collections::BTreeMap::<String, u64>::new(), std::collections::BTreeMap::<String, u64>::new());
        let mut left = s.crash_after;
        let mut crashed = false;
        // (want, bytes on disk, acknowledged, is confidence, lost ranges)
        let mut disk: Vec<(String, Vec<u8>, bool, bool, Vec<(u64, u8, u64)>)> = vec![];
        for rec in &s.recs {
            if crashed {
                break;
            }
            let g = crate::gen::Gen::new(rec.op.seed, &rec.op.over);
            let (sig, sr) = crate::signal::draw(&g, "", 60000);
            let (sig, sr) = crate::signal::deliver(sig, sr, &rec.op.dmg);
            let c = crate::ops::analysis_config(&g, &rec.op);
            let mut cx = Cx::new();
            let mut r = match cx.call(|| analyze_audio(&sig, sr, c)) {
                Out::Val(Ok(r)) => r,
                _ => {
                    *probes.entry("analysis_err".into()).or_default() += 1;
                    continue;
                }
            };
            if rec.vary != 0 && !rec.conf {
                vary(&mut r, rec.vary);
                *probes.entry("varied".into()).or_default() += 1;
            }
            let mut d = Disk { data: vec![], lost: vec![], writes: 0, faults: rec.faults.clone(), fired: vec![], crash_in: left, crashed: false };
            let (want, res) = if rec.conf {
                let mut q = compute_confidence(&r);
                if rec.vary != 0 {
                    let g = &mut Rng::new(rec.vary);
                    for x in [&mut q.bpm_confidence, &mut q.key_confidence, &mut q.grid_stability, &mut q.overall_confidence] {
                        if g.chance(1, 2) {
                            *x = num(g);
                        }
                    }
                    let mut t = r.clone();
                    vary(&mut t, rec.vary);
                    q.flags = t.metadata.flags;
                }
                (canon(&q), if rec.pretty { serde_json::to_writer_pretty(&mut d, &q) } else { serde_json::to_writer(&mut d, &q) })
            } else {
                (canon(&r), if rec.pretty { serde_json::to_writer_pretty(&mut d, &r) } else { serde_json::to_writer(&mut d, &r) })
            };
            for f in &d.fired {
                *fired.entry(f.to_string()).or_default() += 1;
            }
            left = d.crash_in;
            crashed = d.crashed;
            let mut data = d.data;
            for (a, b) in &d.lost {
                let n = data.len();
                for x in &mut data[(*a).min(n)..(*b).min(n)] {
                    *x = 0;
                }
            }
            let mut acked = res.is_ok() && d.lost.is_empty();
            if !rec.sync || crashed {
                // not synced: a crash at the end keeps only part of it
                if s.crash_after > 0 {
                    let keep = data.len() * rec.keep as usize / 1000;
                    if keep < data.len() {
                        data.truncate(keep);
                        acked = false;
                        *fired.entry("unsynced_tail_lost".into()).or_default() += 1;
                    }
                }
            }
            if res.is_err() && d.lost.is_empty() && !d.fired.iter().any(|f| matches!(*f, "disk_full" | "disk_eio" | "crash_mid_write")) {
                bad.push(format!("write: storing failed without a disk error: {:?}", res.err()));
            }
            disk.push((want, data, acked, rec.conf, rec.reads.clone()));
        }
        // restart: only the disk survives
        for (i, (want, data, acked, conf, reads)) in disk.iter().enumerate() {
            let mut src = Src { data, n: 0, faults: reads, fired: vec![] };
            let got: Result<String, String> = match (*conf, reads.is_empty()) {
                (true, true) => serde_json::from_slice::<AnalysisConfidence>(data).map(|x| canon(&x)).map_err(|e| e.to_string()),
                (false, true) => serde_json::from_slice::<AnalysisResult>(data).map(|x| canon(&x)).map_err(|e| e.to_string()),
                (true, false) => serde_json::from_reader::<_, AnalysisConfidence>(&mut src).map(|x| canon(&x)).map_err(|e| e.to_string()),
                (false, false) => serde_json::from_reader::<_, AnalysisResult>(&mut src).map(|x| canon(&x)).map_err(|e| e.to_string()),
            };
            let unreadable = src.fired.contains(&"disk_read_eio");
            for f in src.fired {
                *fired.entry(f.into()).or_default() += 1;
            }
            match got {
                Ok(g) if g == *want => *probes.entry("read_back_equal".into()).or_default() += 1,
                Ok(g) => bad.push(format!("differs: record {i} reads back differently ({} bytes on disk, acknowledged={acked}): {}", data.len(), first_diff(want, &g))),
                Err(e) => {
                    *probes.entry("rejected".into()).or_default() += 1;
                    if *acked && !unreadable {
                        bad.push(format!("lost: record {i} was stored without error but cannot be read: {e}"));
                    }
                }
            }
        }
        (bad, fired, probes)
    })
    .join()
    .unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        (vec![format!("panic: storing task died: {m}")], Default::default(), Default::default())
    });
    out.bad.extend(bad);
    out.fired.extend(fired);
    out.probes.extend(probes);
}
pub fn draw(r: &mut Rng, mk: &mut dyn FnMut(&mut Rng) -> OpSpec) -> StoreScn {
    let mut s = StoreScn { crash_after: if r.chance(1, 2) { 1 + r.below(300) } else { 0 }, ..Default::default() };
    for _ in 0..1 + r.below(3) {
        let mut rec = Rec { op: mk(r), conf: r.chance(1, 4), pretty: r.chance(1, 3), keep: if r.chance(1, 2) { 1000 } else { r.below(1000) }, sync: r.chance(1, 2), vary: if r.chance(1, 2) { r.u() | 1 } else { 0 }, ..Default::default() };
        if r.chance(1, 3) {
            for _ in 0..1 + r.below(4) {
                rec.reads.push((1 + r.log(4000), 1 + r.below(3) as u8, 1 + r.below(6)));
            }
        }
        while r.chance(1, 3) {
            rec.faults.push((1 + r.log(250), 1 + r.below(5) as u8, 1 + r.below(6)));
        }
        s.recs.push(rec);
    }
    s
}
