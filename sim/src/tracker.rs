//! C10/C11: the incremental tempo tracker and in-place normalisation under faults, against small models.
use crate::gen::Rng;
use crate::ops::{Cx, Faults, Out};
use crate::scen::{ExecOpts, RunOut};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
use stratum_dsp::preprocessing::normalization as no;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct TrackerScn {
    /// tempo and confidence each tracker starts from (f32 bits)
    pub init: Vec<[u32; 2]>,
    /// one event list per task; a task owns tracker number = its index
    pub events: Vec<Vec<TEv>>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct TEv {
    /// update, checkpoint, crash, clone, migrate, normalize
    pub k: String,
    /// onset chunk / buffer, in bits
    pub data: Vec<u32>,
    pub sr: u32,
    pub method: u8,
    #[serde(skip_serializing_if = "Faults::is_none")]
    pub faults: Faults,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct St {
    pub bpm: u32,
    pub conf: u32,
    pub hist: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Trans {
    pub before: St,
    pub data: Vec<u32>,
    pub sr: u32,
    pub after: St,
    pub ret: Option<[u32; 2]>,
}
fn fb(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| if x.is_nan() { 0x7fc00000 } else { x.to_bits() }).collect()
}
fn fl(v: &[u32]) -> Vec<f32> {
    v.iter().map(|x| f32::from_bits(*x)).collect()
}
pub fn visible(t: &BayesianBeatTracker) -> St {
    St { bpm: fb(&[t.get_bpm()])[0], conf: fb(&[t.get_confidence()])[0], hist: fb(t.get_history()) }
}
/// A tracker with the given visible state, as a client restoring a checkpoint makes it.
pub fn rebuild(s: &St) -> BayesianBeatTracker {
    let h = fl(&s.hist);
    let mut t = BayesianBeatTracker::new(*h.first().unwrap_or(&120.0), f32::from_bits(s.conf));
    t.current_bpm = f32::from_bits(s.bpm);
    t.current_confidence = f32::from_bits(s.conf);
    t.history = h;
    t
}
fn show(s: &St) -> String {
    let h = fl(&s.hist);
    format!("bpm={} confidence={} history[{}]={:?}", f32::from_bits(s.bpm), f32::from_bits(s.conf), h.len(), &h[h.len().saturating_sub(4)..])
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Recorded {
    pub trans: Vec<Trans>,
    pub norms: Vec<(usize, usize, u64)>,
}
struct TaskOut {
    bad: Vec<String>,
    trans: Vec<Trans>,
    /// (event, digest of outcome and buffer) of undisturbed normalisations
    norms: Vec<(usize, u64)>,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
}
fn norm_cfg(m: u8) -> no::NormalizationConfig {
    no::NormalizationConfig {
        target_loudness_lufs: if m & 4 != 0 { -23.0 } else { -14.0 },
        max_headroom_db: if m & 8 != 0 { 0.0 } else { 1.0 },
        method: [no::NormalizationMethod::Peak, no::NormalizationMethod::RMS, no::NormalizationMethod::Loudness, no::NormalizationMethod::Loudness][(m & 3) as usize],
    }
}
fn task(init: [u32; 2], evs: Vec<TEv>, quiet: bool) -> TaskOut {
    let mut o = TaskOut { bad: vec![], trans: vec![], norms: vec![], fired: BTreeMap::new(), probes: BTreeMap::new() };
    let _ = quiet;
    let mut t = BayesianBeatTracker::new(f32::from_bits(init[0]), f32::from_bits(init[1]));
    {
        let v = visible(&t);
        let c = f32::from_bits(v.conf);
        let b = fb(&[f32::from_bits(init[0])])[0];
        if v.bpm != b || v.hist != vec![b] || !(0.0..=1.0).contains(&c) {
            o.bad.push(format!("model: a new tracker at {} has {}", f32::from_bits(init[0]), show(&v)));
        }
    }
    // a twin that is only ever given what was accepted
    let mut shadow = BayesianBeatTracker::new(f32::from_bits(init[0]), f32::from_bits(init[1]));
    let mut shadow_ok = true;
    let mut model = visible(&t);
    let mut ckpt = model.clone();
    for (i, e) in evs.iter().enumerate() {
        *o.probes.entry(format!("event:{}", e.k)).or_default() += 1;
        match e.k.as_str() {
            "update" | "clone" | "hop" => {
                let data = fl(&e.data);
                let before = visible(&t);
                if before != model {
                    o.bad.push(format!("model: before event {i} the tracker shows {} but its last event left {}", show(&before), show(&model)));
                    return o;
                }
                let mut cx = Cx::new();
                cx.faults = e.faults.clone();
                let mut twin = if e.k == "clone" { Some(t.clone()) } else { None };
                let r = if e.k == "hop" {
                    // the client's session is picked up by another thread for this chunk
                    let (mut t1, d1, sr1) = (t, data.clone(), e.sr);
                    let faults = e.faults.clone();
                    let (t2, r, cx2) = std::thread::spawn(move || {
                        let mut cx = Cx::new();
                        cx.faults = faults;
                        let r = cx.call(|| t1.update_with_onsets(&d1, sr1));
                        (t1, r, cx)
                    })
                    .join()
                    .expect("hop");
                    t = t2;
                    cx.fired = cx2.fired;
                    r
                } else {
                    cx.call(|| t.update_with_onsets(&data, e.sr))
                };
                for (k, v) in cx.fired {
                    *o.fired.entry(k).or_default() += v;
                }
                let after = visible(&t);
                // long sessions: a sample of the transitions is enough
                let keep = before.hist.len() < 100 || i % 97 == 0 || i + 3 >= evs.len() || before.hist.len().is_power_of_two();
                let tr = |ret: Option<[u32; 2]>| Trans { before: before.clone(), data: e.data.clone(), sr: e.sr, after: after.clone(), ret };
                match r {
                    Out::Val(Ok((b, c))) => {
                        *o.probes.entry("accepted".into()).or_default() += 1;
                        let (bb, cb) = (fb(&[b])[0], fb(&[c])[0]);
                        if shadow_ok {
                            let mut c2 = Cx::new();
                            let r2 = c2.call(|| shadow.update_with_onsets(&data, e.sr));
                            if !matches!(r2, Out::Val(Ok(_))) || visible(&shadow) != after {
                                o.bad.push(format!("shadow: event {i}: a tracker that never saw the rejected or aborted updates shows {} instead of {}", show(&visible(&shadow)), show(&after)));
                                shadow_ok = false;
                            }
                        }
                        let mut want = before.hist.clone();
                        want.push(after.bpm);
                        if after.hist != want {
                            o.bad.push(format!("model: event {i}: accepted update turned {} into {} (history must gain exactly the new BPM)", show(&before), show(&after)));
                        }
                        if bb != after.bpm || cb != after.conf {
                            o.bad.push(format!("model: event {i}: update returned ({b}, {c}) but the tracker shows {}", show(&after)));
                        }
                        if !(c.is_finite() && (0.0..=1.0).contains(&c)) {
                            o.bad.push(format!("model: event {i}: confidence {c} outside 0..1 after onsets {:?}", &data[..data.len().min(8)]));
                        }
                        let b0 = f32::from_bits(before.bpm);
                        if b0.is_finite() && !((b - b0).abs() <= 5.0 + 1e-3) {
                            o.bad.push(format!("model: event {i}: BPM moved from {b0} to {b}"));
                        }
                        if b != b0 && !(60.0..=180.0).contains(&b) {
                            o.bad.push(format!("model: event {i}: BPM moved from {b0} to {b}, outside 60..180"));
                        }
                        if keep {
                            o.trans.push(tr(Some([bb, cb])));
                        }
                    }
                    Out::Val(Err(x)) => {
                        *o.probes.entry("rejected".into()).or_default() += 1;
                        if after != before {
                            o.bad.push(format!("torn: event {i}: rejected update ({x:?}) turned {} into {}", show(&before), show(&after)));
                        }
                        if keep {
                            o.trans.push(tr(None));
                        }
                    }
                    Out::Injected(m) => {
                        *o.probes.entry("aborted".into()).or_default() += 1;
                        if after != before {
                            shadow_ok = false;
                            // only a complete update may be left behind
                            let mut w = rebuild(&before);
                            let mut c2 = Cx::new();
                            let _ = c2.call(|| w.update_with_onsets(&data, e.sr));
                            if visible(&w) != after {
                                o.bad.push(format!("torn: event {i}: update cut short by {m} turned {} into {}", show(&before), show(&after)));
                            }
                        }
                    }
                    Out::Panic(m) => o.bad.push(format!("panic: event {i}: update with onsets {:?} panicked: {m}", &data[..data.len().min(8)])),
                }
                if let Some(w) = &mut twin {
                    let mut c2 = Cx::new();
                    let r2 = c2.call(|| w.update_with_onsets(&data, e.sr));
                    if let (Out::Val(_), true) = (&r2, e.faults.is_none()) {
                        if visible(w) != after {
                            o.bad.push(format!("clone: event {i}: a clone given the same onsets shows {} instead of {}", show(&visible(w)), show(&after)));
                        }
                    }
                }
                model = after;
            }
            "checkpoint" => ckpt = visible(&t),
            "crash" => {
                // the process dies; only the checkpoint is durable
                t = rebuild(&ckpt);
                model = ckpt.clone();
                shadow_ok = false;
            }
            "migrate" => {
                let v = visible(&t);
                t = rebuild(&v);
            }
            "normalize" => {
                let mut buf = fl(&e.data);
                let orig = e.data.clone();
                let mut cx = Cx::new();
                cx.faults = e.faults.clone();
                let r = cx.call(|| no::normalize(&mut buf, norm_cfg(e.method), e.sr as f32));
                for (k, v) in cx.fired {
                    *o.fired.entry(k).or_default() += v;
                }
                if let Out::Val(v) = &r {
                    o.norms.push((i, norm_digest(&buf, v)));
                }
                let now: Vec<u32> = buf.iter().map(|x| x.to_bits()).collect();
                match r {
                    Out::Val(Ok(_)) => *o.probes.entry("normalized".into()).or_default() += 1,
                    Out::Val(Err(x)) => {
                        *o.probes.entry("normalize_rejected".into()).or_default() += 1;
                        if now != orig {
                            o.bad.push(format!("torn: event {i}: rejected normalisation ({x:?}) changed the buffer: {}", diff(&orig, &now)));
                        }
                    }
                    Out::Injected(m) => {
                        *o.probes.entry("normalize_aborted".into()).or_default() += 1;
                        if now != orig {
                            let mut full = fl(&orig);
                            let mut c2 = Cx::new();
                            let _ = c2.call(|| no::normalize(&mut full, norm_cfg(e.method), e.sr as f32));
                            let done: Vec<u32> = full.iter().map(|x| x.to_bits()).collect();
                            if now != done {
                                o.bad.push(format!("torn: event {i}: normalisation cut short by {m} left a half-processed buffer: {}", diff(&orig, &now)));
                            }
                        } else {
                            // retry as if nothing had happened
                            let mut again = fl(&orig);
                            let mut c2 = Cx::new();
                            let a = c2.call(|| no::normalize(&mut buf, norm_cfg(e.method), e.sr as f32).map(|m| format!("{m:?}")).map_err(|e| format!("{e:?}")));
                            let b = c2.call(|| no::normalize(&mut again, norm_cfg(e.method), e.sr as f32).map(|m| format!("{m:?}")).map_err(|e| format!("{e:?}")));
                            let same = match (a, b) {
                                (Out::Val(a), Out::Val(b)) => a == b && fb(&buf) == fb(&again),
                                _ => true,
                            };
                            if !same {
                                o.bad.push(format!("torn: event {i}: retry after {m} differs from a first call"));
                            }
                        }
                    }
                    Out::Panic(m) => o.bad.push(format!("panic: event {i}: normalize panicked: {m}")),
                }
            }
            k => panic!("unknown event {k}"),
        }
        if o.bad.len() > 3 {
            break;
        }
    }
    o
}
fn norm_digest(buf: &[f32], r: &Result<no::LoudnessMetadata, stratum_dsp::AnalysisError>) -> u64 {
    use crate::obs::{Dg, D};
    let mut h = Dg::new();
    buf.d(&mut h);
    format!("{r:?}").d(&mut h);
    h.0
}
fn diff(a: &[u32], b: &[u32]) -> String {
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
    format!("{n} of {} samples differ, first at {i}: {} -> {}", a.len(), f32::from_bits(a[i]), f32::from_bits(b[i]))
}
pub fn execute(s: &TrackerScn, out: &mut RunOut, _o: ExecOpts) {
    let hs: Vec<_> = s
        .events
        .iter()
        .enumerate()
        .map(|(i, evs)| {
            let evs = evs.clone();
            let init = s.init.get(i).copied().unwrap_or([0x42f00000, 0x3f000000]);
            std::thread::spawn(move || task(init, evs, false))
        })
        .collect();
    let mut rec = Recorded::default();
    for (ti, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(o) => {
                out.bad.extend(o.bad);
                for (k, v) in o.fired {
                    *out.fired.entry(k).or_default() += v;
                }
                for (k, v) in o.probes {
                    *out.probes.entry(k).or_default() += v;
                }
                rec.trans.extend(o.trans);
                rec.norms.extend(o.norms.iter().map(|(e, d)| (ti, *e, *d)));
            }
            Err(_) => out.bad.push("panic: client task died".into()),
        }
    }
    // carried to the verifying process
    out.obs.push(vec![crate::ops::StepObs { text: serde_json::to_string(&rec).unwrap(), ..Default::default() }]);
}
/// In a fresh process: every recorded transition, in reverse order, from its visible state alone.
pub fn verify_recorded(s: &TrackerScn, rec: &Recorded) -> Vec<String> {
    let mut bad = vec![];
    for (t, i, d) in rec.norms.iter().rev() {
        let e = &s.events[*t][*i];
        let mut buf = fl(&e.data);
        let mut cx = Cx::new();
        let r = cx.call(|| no::normalize(&mut buf, norm_cfg(e.method), e.sr as f32));
        match &r {
            Out::Val(v) if norm_digest(&buf, v) == *d => {}
            _ => {
                bad.push(format!("resume: task {t} event {i}: the same normalisation made in a fresh process gives another outcome"));
                return bad;
            }
        }
    }
    let trans = &rec.trans;
    for tr in trans.iter().rev() {
        let mut t = rebuild(&tr.before);
        let data = fl(&tr.data);
        let mut cx = Cx::new();
        let r = cx.call(|| t.update_with_onsets(&data, tr.sr));
        let after = visible(&t);
        let ret = match r {
            Out::Val(Ok((b, c))) => Some(Some([fb(&[b])[0], fb(&[c])[0]])),
            Out::Val(Err(_)) => Some(None),
            _ => None,
        };
        if after != tr.after || ret != Some(tr.ret) {
            bad.push(format!(
                "resume: from {} the update gave {} during the run but {} when resumed from the visible state elsewhere",
                show(&tr.before),
                show(&tr.after),
                show(&after)
            ));
            break;
        }
    }
    bad
}

/// Draws a run.
pub fn draw(r: &mut Rng, atomic: bool, thorough: bool) -> TrackerScn {
    let n = 1 + r.below(if atomic { 2 } else { 3 }) as usize;
    let mut s = TrackerScn::default();
    for _ in 0..n {
        let bpm = match r.below(6) {
            0 => r.pick(&[60.0f32, 180.0, 59.0, 183.5, 64.9, 176.0, 40.0, 250.0, 300.0, 301.0, 0.0, -5.0, 299.9]),
            _ => 60.0 + r.f() * 120.0,
        };
        let conf = if r.chance(1, 6) { r.pick(&[0.0f32, 1.0, 1.5, -1.0]) } else { r.f() };
        s.init.push([bpm.to_bits(), conf.to_bits()]);
        let mut evs = vec![];
        let true_bpm = if r.chance(1, 2) { bpm.clamp(60.0, 180.0) + r.s() * 8.0 } else { 60.0 + r.f() * 120.0 };
        let mut t = r.f() * if r.chance(1, 8) { 4000.0 } else { 5.0 };
        // now and then a long session of short chunks
        let long = r.chance(1, 80);
        let len = if long { 300 + r.below(if atomic { 1200 } else { 3500 }) } else if atomic { 3 + r.below(12) } else { 4 + r.below(if thorough { 120 } else { 40 }) };
        let mut pending: Vec<f32> = vec![];
        let grid_noise = r.pick(&[0.0f32, 0.0, 0.004, 0.03]);
        let sr = r.pick(&crate::signal::RATES);
        for _ in 0..len {
            let k = r.below(if long { 400 } else { 20 });
            let mut chunk: Vec<f32> = (0..1 + r.below(if long { 3 } else { 12 })).map(|j| t + j as f32 * 60.0 / true_bpm.max(1.0) + grid_noise * r.s()).collect();
            t += chunk.len() as f32 * 60.0 / true_bpm.max(1.0);
            // the path from onset detector to tracker
            match r.below(if long { 100 } else { 14 }) {
                0 => continue,                                       // chunk lost
                1 => { evs.push(upd(&chunk, sr)); }                    // delivered twice
                2 => std::mem::swap(&mut pending, &mut chunk),       // delayed behind the next one
                3 => chunk.clear(),                                  // emptied
                4 => chunk.reverse(),
                5 => { let i = r.below(chunk.len() as u64) as usize; chunk[i] = r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, 1e30, 0.0, 1e9]); }
                6 => { let i = r.below(chunk.len() as u64) as usize; chunk.truncate(i); }
                7 => { let i = r.below(chunk.len() as u64) as usize; chunk[i] = f32::from_bits(chunk[i].to_bits() ^ (1 << r.below(32))); }
                8 => { let c = chunk.clone(); chunk.extend(c); }
                9 | 10 => { if let Some(c) = like(r, &evs) { chunk = c } }   // a corrected chunk sent again
                _ => { if !s.events.is_empty() && r.chance(1, 8) { let j = r.below(s.events.len() as u64) as usize; if let Some(c) = like(r, &s.events[j]) { chunk = c } } } // another tracker's feed
            }
            let mut e = upd(&chunk, if !long && r.chance(1, 12) { r.pick(&crate::signal::RATES) } else { sr });
            if !atomic {
                match k {
                    0 | 1 => evs.push(TEv { k: "checkpoint".into(), ..Default::default() }),
                    2 => evs.push(TEv { k: "crash".into(), ..Default::default() }),
                    3 | 4 => evs.push(TEv { k: "migrate".into(), ..Default::default() }),
                    5 | 6 => e.k = "clone".into(),
                    7 | 8 => e.k = "hop".into(),
                    _ => {}
                }
            } else if k < 7 {
                // in-place normalisation
                let top = if r.chance(1, 6) { 40000 } else { 6000 };
                let n = if r.chance(1, 20) { 0 } else { r.log(top) as usize };
                let kind = r.pick(&[1usize, 3, 4, 5, 8, 11, 9]);
                let nsr = r.pick(&[8000u32, 16000, 44100, 48000, 22050]);
                let x = crate::signal::synth(kind, nsr, n, 120.0, 0, false, r.u());
                let mut d = vec![];
                while r.chance(1, 3) {
                    d.push(crate::signal::draw_damage(r, n, 0b00111111110000));
                }
                let (x, _) = crate::signal::deliver(x, nsr, &d);
                e = TEv { k: "normalize".into(), data: x.iter().map(|v| v.to_bits()).collect(), sr: r.pick(&[nsr, nsr, nsr, nsr, nsr, nsr, 0, 1, 2]), method: r.below(16) as u8, faults: Faults::default() };
            }
            if atomic && r.chance(if long { 1 } else { 15 }, 20) {
                if r.chance(1, 2) {
                    e.faults.alloc = Some((1 + r.log(12), 0));
                } else {
                    e.faults.log_panic = Some(1 + r.below(4));
                }
            }
            let f = e.faults.clone();
            let again = e.clone();
            evs.push(e);
            if !f.is_none() && r.chance(2, 3) {
                let mut a = again;
                a.faults = Faults::default();
                evs.push(a); // retry
            }
        }
        s.events.push(evs);
    }
    s
}
/// An earlier chunk, with some of its onsets moved.
fn like(r: &mut Rng, evs: &[TEv]) -> Option<Vec<f32>> {
    let near = evs.len().saturating_sub(3);
    let e = if evs.is_empty() { return None } else if r.chance(2, 3) { &evs[near + r.below((evs.len() - near) as u64) as usize] } else { &evs[r.below(evs.len() as u64) as usize] };
    if e.k != "update" || e.data.is_empty() {
        return None;
    }
    let mut c = fl(&e.data);
    let n = c.len();
    let keep = r.below(4);
    for i in 0..n {
        // keep the last, the first, or any
        if (keep == 0 && i + 1 == n) || (keep == 1 && i == 0) || !r.chance(2, 3) {
            continue;
        }
        c[i] += 0.25 * r.s();
    }
    if keep == 3 {
        // the same onsets, one gone
        c = fl(&e.data);
        c.remove(r.below(n as u64) as usize);
    }
    Some(c)
}
fn upd(c: &[f32], sr: u32) -> TEv {
    TEv { k: "update".into(), data: c.iter().map(|v| v.to_bits()).collect(), sr, ..Default::default() }
}
