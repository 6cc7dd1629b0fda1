//! One entry per property: how a run is drawn from its seed, and how it is judged.
use crate::gen::*;
use crate::ops::*;
use crate::scen::*;
use crate::signal::{self, Damage};
use crate::zygote::{Refs, Shm};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub const CLAIMED: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];
const MIB: u64 = 1 << 20;

// ------------------------------------------------------------------ drawing operations
const MASK_ALL: u32 = 0x3fff;
fn over(op: &mut OpSpec, l: &str, v: u64) {
    op.over.insert(l.into(), v);
}
/// Keeps the audio of an operation short enough for long histories.
fn small(op: &mut OpSpec, r: &mut Rng) {
    // index into signal::draw's length table: 1 => 3000..12000, 6 => 1..3000
    over(op, "len", if r.chance(2, 3) { 1 } else { 6 });
}
fn any_op(r: &mut Rng) -> OpSpec {
    let op = if r.chance(2, 5) { "analyze" } else { OPS[r.below(OPS.len() as u64) as usize] };
    op_named(r, op)
}
fn op_named(r: &mut Rng, name: &str) -> OpSpec {
    let mut o = OpSpec { op: name.into(), seed: r.u(), ..Default::default() };
    if name.ends_with("_shared") {
        o.share = 1 + r.below(3);
    }
    if r.chance(2, 3) {
        small(&mut o, r);
    }
    o
}
/// Something a cache, a scratch buffer or a leftover of `b` could be confused with.
fn neighbour(r: &mut Rng, b: &OpSpec) -> OpSpec {
    let mut o = b.clone();
    match r.below(14) {
        0 => {}
        12 | 13 => over(&mut o, "rej", r.u()),
        1 => over(&mut o, "seed", r.u()),
        2 => {
            for l in ["seed", "kind", "root", "bpm", "sp.seed", "sp.per", "sp.f0", "ch.seed", "ch.root", "ch.kind", "on.seed", "on.bpm", "cv.seed", "cv.p"] {
                over(&mut o, l, r.u())
            }
        }
        3 => {
            for l in ["sr", "sp.sr", "on.sr"] {
                over(&mut o, l, r.u())
            }
        }
        4 => {
            for l in ["cfg", "frame", "kframe", "kseg"] {
                over(&mut o, l, r.u())
            }
        }
        5 => {
            for l in ["len", "n0", "n1", "n2", "sp.f", "sp.b", "ch.n", "on.n", "cv.n"] {
                over(&mut o, l, r.u())
            }
            if r.chance(2, 3) {
                small(&mut o, r);
            }
        }
        6 => {
            over(&mut o, "n0", r.u());
            over(&mut o, "n1", r.u());
            over(&mut o, "n2", r.u());
        }
        7 => o.dmg = vec![Damage::Truncate { at: 0 }],
        8 => o.dmg = vec![Damage::Rate { sr: 0 }],
        9 => o.dmg = vec![signal::draw_damage(r, 4000, MASK_ALL)],
        10 => {
            // the same signal at another level
            o.dmg = vec![Damage::Clip { at: 0, n: usize::MAX / 4, gain: r.pick(&[0.5f32, 0.1, 2.0, 0.001, -1.0]) }];
        }
        _ => {
            let l = labels_cached(&o.op);
            if !l.is_empty() {
                for _ in 0..1 + r.below(3) {
                    let k = r.pick(&l);
                    over(&mut o, &k, r.u());
                }
            }
        }
    }
    if o.share != 0 && r.chance(1, 3) {
        o.share = 1 + r.below(3);
    }
    o
}
thread_local! { static LABELS: std::cell::RefCell<BTreeMap<String, Vec<String>>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
fn labels_cached(op: &str) -> Vec<String> {
    LABELS.with(|c| {
        c.borrow_mut()
            .entry(op.into())
            .or_insert_with(|| {
                let mut all = std::collections::BTreeSet::new();
                for s in 0..40u64 {
                    all.extend(labels(&OpSpec { op: op.into(), seed: mix(s), ..Default::default() }));
                }
                all.into_iter().collect()
            })
            .clone()
    })
}
/// A small family of related operations.
fn family(r: &mut Rng, n: usize) -> Vec<OpSpec> {
    let mut v = vec![any_op(r)];
    while v.len() < n {
        let b = r.pick(&v);
        v.push(if r.chance(1, 5) { any_op(r) } else { neighbour(r, &b) });
    }
    v
}
fn env(r: &mut Rng) -> Env {
    let mut e = Env { entropy: r.u(), ..Default::default() };
    e.addr = if r.chance(1, 2) { r.u() | 1 } else { 0 };
    e.envs = r.u();
    e.fake_env = r.chance(1, 2);
    e.cpus = r.pick(&[1u32, 2, 3, 8, 64]);
    e.poison = r.pick(&[0u32, 0x1aa, 0x1ff, 0x17f, 0x101]);
    e.lifo = r.chance(2, 3);
    e.ns_per_kstep = r.pick(&[1000u64, 1, 50_000, 1_000_000]);
    e.mono0 = r.pick(&[1_000_000_000_000u64, 1, 5_000_000_000, 1 << 50]);
    e.real0 = r.pick(&[1_700_000_000_000_000_000u64, 0, 4_102_444_800_000_000_000]);
    e.log_level = r.pick(&[5u8, 5, 5, 0, 3]);
    e
}
fn weights(r: &mut Rng, e: &mut Env) {
    e.w_atomic = r.pick(&[1u32, 50, 2000, 100_000]);
    e.w_alloc = r.pick(&[1u32, 1, 30, 500]);
    e.w_log = r.pick(&[1u32, 1000, 100_000]);
    e.w_sync = r.pick(&[1u32, 1000, 100_000]);
    e.spurious = r.pick(&[0u32, 0, 4, 20]);
}
fn sched(r: &mut Rng, total: u64) -> Sched {
    let mut s = Sched { seed: r.u(), max_switches: r.pick(&[300u32, 1500, 6000]), ..Default::default() };
    if r.chance(1, 3) {
        s.policy = 2;
        s.pct_d = 1 + r.below(12) as u32;
        s.pct_total = total.max(1000);
    } else {
        s.policy = 1;
        let hi = (total / r.pick(&[3u64, 20, 200, 2000])).clamp(16, 1 << 26);
        s.qmax = hi;
        s.qmin = (hi >> r.pick(&[2u32, 6, 14, 24])).max(1);
    }
    s
}
/// In a part of the runs, switches happen at (nearly) every synchronisation point and nowhere else.
fn sync_focus(r: &mut Rng, s: &mut Scenario) {
    if r.chance(2, 5) {
        (s.env.w_atomic, s.env.w_sync, s.env.w_alloc, s.env.w_log) = (1, 1, 1, 1);
        s.sched.policy = 4;
        s.sched.qmax = r.pick(&[1u64, 2, 4, 12, 40]);
        s.sched.max_switches = 6000;
    }
}
fn step(op: OpSpec) -> Step {
    Step { op, faults: Faults::default() }
}
/// An operation usable in differential runs: its solo reference finishes.
fn usable(refs: &mut Refs, op: &OpSpec, cap: u64) -> Option<StepObs> {
    let r = refs.get(op);
    if r.fatal.is_some() {
        return None;
    }
    let o = r.obs.first().and_then(|v| v.first()).cloned()?;
    if o.steps > cap {
        return None;
    }
    Some(o)
}
/// Operations whose work grows in proportion to their input (the others look at pairs of onsets or beats).
const LINEAR: &[&str] = &[
    "analyze", "normalize", "trim", "mono", "energy_onsets", "flux_onsets", "hfc_onsets", "hpss", "hpss_onsets", "threshold", "legacy_bpm", "autocorr", "comb", "coarse", "tempogram",
    "tempogram_bands", "multires_spec", "multires_samples", "novelty", "novelty_bands", "combined", "tg_autocorr", "tg_fft", "stft", "chroma", "chroma_spec", "hpcp", "hpcp_bass", "tuning",
    "logfreq", "beat_chroma", "smooth_spec", "harm_mask", "hpss_mask", "chroma_norm", "smooth_chroma", "key", "key_weighted", "key_mode", "key_multi", "key_median", "key_ensemble",
    "key_changes", "clarity", "hmm", "hmm_shared", "bayes", "time_sig",
];
/// A whole track (half a minute to two minutes) with a light configuration.
fn whole_track(r: &mut Rng) -> OpSpec {
    let mut o = OpSpec { op: if r.chance(2, 3) { "analyze" } else { "confidence" }.into(), seed: r.u(), ..Default::default() };
    let sr = r.below(3);
    over(&mut o, "sr", sr);
    over(&mut o, "big", 200_000 + r.below(600_000));
    over(&mut o, "kind", r.pick(&[0u64, 0, 1, 5, 6, 8]));
    over(&mut o, "cfg", if r.chance(3, 4) { 0 } else { 1 });
    over(&mut o, "frame", r.pick(&[0u64, 4]));
    over(&mut o, "kframe", r.pick(&[0u64, 1, 3]));
    o
}
fn whole(i: u64) -> bool {
    i % 97 == 41
}
fn pool(i: u64, r: &mut Rng, refs: &mut Refs, n: usize, cap: u64) -> Vec<(OpSpec, StepObs)> {
    if !whole(i) {
        return fam_usable(r, refs, n, cap);
    }
    let o = whole_track(r);
    let mut p = neighbour(r, &o);
    p.over.insert("big".into(), o.over["big"] / 2);
    let mut f: Vec<_> = [o, p, any_op(r)].into_iter().filter_map(|o| usable(refs, &o, 1_500_000_000).map(|x| (o, x))).collect();
    if f.is_empty() {
        f = fam_usable(r, refs, n, cap);
    }
    f
}
fn fam_usable(r: &mut Rng, refs: &mut Refs, n: usize, cap: u64) -> Vec<(OpSpec, StepObs)> {
    let mut v: Vec<(OpSpec, StepObs)> = vec![];
    for _ in 0..8 {
        for o in family(r, n) {
            if let Some(x) = usable(refs, &o, cap) {
                v.push((o, x));
            }
        }
        if v.len() >= 2.min(n) {
            break;
        }
    }
    v
}

/// Short calls of one kind.
fn twins(r: &mut Rng, refs: &mut Refs) -> Vec<(OpSpec, StepObs)> {
    let name = if r.chance(1, 3) { "analyze" } else { OPS[r.below(OPS.len() as u64) as usize] };
    let mut o = op_named(r, name);
    small(&mut o, r);
    let mut cand = vec![o];
    for _ in 0..4 {
        let b = r.pick(&cand);
        cand.push(neighbour(r, &b));
    }
    cand.into_iter().filter_map(|o| usable(refs, &o, 6_000_000).map(|x| (o, x))).collect()
}
/// A few cheap stage calls, close relatives of one another.
fn extras(prop: &str, r: &mut Rng, refs: &mut Refs, n: usize) -> Vec<(OpSpec, StepObs)> {
    let mut v: Vec<(OpSpec, StepObs)> = vec![];
    for _ in 0..6 {
        let o = if v.is_empty() || r.chance(1, 3) {
            let name = OPS[r.below(OPS.len() as u64) as usize];
            let mut o = op_named(r, name);
            small(&mut o, r);
            o
        } else {
            let b = r.pick(&v);
            neighbour(r, &b.0)
        };
        if o.op == "analyze" || o.op == "confidence" {
            continue;
        }
        if let Some(x) = usable(refs, &ref_op(prop, &o), 2_500_000) {
            v.push((o, x));
        }
        if v.len() >= n {
            break;
        }
    }
    v
}

pub fn ref_op(prop: &str, op: &OpSpec) -> OpSpec {
    let mut o = op.clone();
    if prop == "C06" {
        o.diag = if o.op == "analyze" { 1 << 60 } else { 0 };
    }
    o
}

// ------------------------------------------------------------------ generators
pub fn gen(prop: &str, seed: u64, i: u64, thorough: bool, refs: &mut Refs) -> Scenario {
    let mut s = gen_raw(prop, seed, i, thorough, refs);
    // Starting a thread is not safe to unwind out of in std itself (a scope waits for the thread that never came),
    // and with std's own allocation handler it never unwinds: no failing allocations in calls that start threads.
    for st in s.tasks.iter_mut().flatten() {
        if st.faults.alloc.is_some() && refs.get(&ref_op(prop, &st.op)).run.spawned > 0 {
            st.faults.alloc = None;
        }
    }
    s
}
fn gen_raw(prop: &str, seed: u64, i: u64, thorough: bool, refs: &mut Refs) -> Scenario {
    let r = &mut Rng::new(mix(seed ^ hstr(prop)) ^ i.wrapping_mul(0x9E3779B97F4A7C15));
    let mut s = Scenario { prop: prop.into(), seed: i, ..Default::default() };
    let cap = if thorough { 400_000_000 } else { 60_000_000 };
    match prop {
        "C01" => {
            s.env = env(r);
            s.env.log_level = 5;
            let f = pool(i, r, refs, 3, cap);
            let ex = extras(prop, r, refs, 2);
            let nt = if r.chance(1, 4) { 1 } else { 1 + r.below(5) };
            let mut tot = 0;
            for _ in 0..nt {
                let mut v: Vec<Step> = vec![];
                for _ in 0..1 + r.below(4) {
                    let x = r.pick(&f);
                    tot += x.1.steps;
                    v.push(step(x.0));
                }
                for _ in 0..2 {
                    if !ex.is_empty() {
                        let x = r.pick(&ex);
                        tot += x.1.steps;
                        v.push(step(x.0));
                    }
                }
                s.tasks.push(v);
            }
            if nt == 1 {
                // a single caller: the only threads to schedule are those the library starts itself
                weights(r, &mut s.env);
                s.sched = sched(r, tot);
                sync_focus(r, &mut s);
            }
        }
        "C02" => {
            s.env = env(r);
            s.env.log_level = r.pick(&[5u8, 0]);
            weights(r, &mut s.env);
            let f = pool(i, r, refs, 4, cap);
            // some runs are made of short calls only, so that they overlap more often
            let ex = extras(prop, r, refs, 3);
            let short = !whole(i) && r.chance(1, 3) && !ex.is_empty();
            if !whole(i) && r.chance(1, 4) {
                // calls of one kind only, on several threads at once
                let tw = twins(r, refs);
                if tw.len() > 1 {
                    for _ in 0..2 + r.below(3) {
                        s.tasks.push((0..2 + r.below(5)).map(|_| step(r.pick(&tw).0)).collect());
                    }
                    let tot = tw.iter().map(|x| x.1.steps).sum::<u64>() / tw.len() as u64 * s.tasks.iter().map(|t| t.len() as u64).sum::<u64>();
                    s.sched = sched(r, tot);
                    sync_focus(r, &mut s);
                    if r.chance(1, 2) {
                        sync_focus(r, &mut s);
                    }
                    return s;
                }
            }
            let nt = 2 + r.below(3);
            let mut tot = 0;
            for _ in 0..nt {
                let mut v = vec![];
                for _ in 0..1 + r.below(3) {
                    let x = if short { r.pick(&ex) } else { r.pick(&f) };
                    tot += x.1.steps;
                    v.push(step(x.0));
                }
                for _ in 0..3 {
                    if !ex.is_empty() {
                        let x = r.pick(&ex);
                        tot += x.1.steps;
                        let k = r.below(v.len() as u64 + 1) as usize;
                        v.insert(k, step(x.0));
                    }
                }
                s.tasks.push(v);
            }
            s.sched = sched(r, tot);
            sync_focus(r, &mut s);
        }
        "C03" => {
            s.env = env(r);
            let soak = !whole(i) && r.chance(1, 4);
            let f = if soak {
                let name = if r.chance(1, 2) { "analyze" } else { OPS[r.below(OPS.len() as u64) as usize] };
                let mut o = op_named(r, name);
                over(&mut o, "len", 6);
                over(&mut o, "frame", 1);
                over(&mut o, "kframe", 4);
                let mut f = vec![];
                let mut cand = vec![o.clone(), neighbour(r, &o)];
                for _ in 0..6 {
                    cand.push(op_named(r, name));
                }
                for o in cand {
                    if let Some(x) = usable(refs, &o, 4_000_000) {
                        f.push((o, x));
                    }
                    if f.len() >= 3 {
                        break;
                    }
                }
                f
            } else if !whole(i) && r.chance(2, 3) {
                // short calls that differ from one another in few respects
                let name = if r.chance(2, 5) { "analyze" } else { OPS[r.below(OPS.len() as u64) as usize] };
                let mut o = op_named(r, name);
                small(&mut o, r);
                over(&mut o, "kframe", r.pick(&[0u64, 1, 3, 4]));
                let l = labels_cached(&o.op);
                let sweep = r.chance(1, 3) && !l.is_empty();
                // one setting or dimension of the call, or two, takes many values in turn
                let sizes: Vec<String> = l.iter().filter(|k| ["frame", "kframe", "sr", "len", "n0", "n1", "n2"].contains(&k.as_str()) || k.starts_with("sp.") || k.starts_with("ch.")).cloned().collect();
                let swept: Vec<String> = (0..1 + r.below(2)).filter(|_| sweep).map(|_| if !sizes.is_empty() && r.chance(1, 2) { r.pick(&sizes) } else { r.pick(&l) }).collect();
                let mut cand = vec![o];
                for _ in 0..12 {
                    let b = r.pick(&cand);
                    cand.push(if sweep {
                        let mut n = cand[0].clone();
                        for k in &swept {
                            over(&mut n, k, r.u());
                        }
                        n
                    } else if r.chance(1, 8) {
                        any_op(r)
                    } else {
                        neighbour(r, &b)
                    });
                }
                let mut f = vec![];
                for o in cand {
                    if let Some(x) = usable(refs, &o, 12_000_000) {
                        f.push((o, x));
                    }
                }
                f
            } else {
                let n = 4 + r.below(5) as usize;
                pool(i, r, refs, n, cap)
            };
            if f.is_empty() {
                return s;
            }
            let budget = if soak { 150_000_000u64 } else { 350_000_000 } * if thorough { 6 } else { 1 };
            let max = if soak { 1500 } else { 60 };
            let mut used = 0;
            let mut v = vec![];
            while v.len() < max && used < budget {
                let x = if soak && !r.chance(1, 10) { f[0].clone() } else { r.pick(&f) };
                used += x.1.steps.max(20_000);
                v.push(step(x.0));
            }
            // the history may continue on another thread of the process
            if !soak && r.chance(1, 3) {
                let k = 1 + r.below(v.len() as u64) as usize;
                let w = v.split_off(k);
                s.tasks.push(v);
                s.tasks.push(w);
            } else {
                s.tasks.push(v);
            }
        }
        "C04" => {
            s.env = env(r);
            s.env.log_level = r.pick(&[5u8, 5, 5, 0]);
            weights(r, &mut s.env);
            let n = 2 + r.below(3) as usize;
            let f = pool(i, r, refs, n, cap / 2);
            if f.is_empty() {
                return s;
            }
            let mut tot = 0;
            let victim = f[0].clone();
            let mut v = vec![];
            if r.chance(1, 2) {
                v.push(step(victim.0.clone()));
            }
            let mut cuts = 0;
            for _ in 0..1 + r.below(4) {
                let mut st = step(victim.0.clone());
                if victim.1.logs > 0 && r.chance(1, 3) && s.env.log_level == 5 {
                    st.faults.log_panic = Some(1 + r.below(victim.1.logs));
                } else if victim.1.allocs > 0 {
                    let k = match r.below(3) {
                        0 => r.log(victim.1.allocs),
                        1 => victim.1.allocs + 1 - r.log(victim.1.allocs),
                        _ => 1 + r.below(victim.1.allocs),
                    };
                    st.faults.alloc = Some((k, 0));
                }
                tot += victim.1.steps;
                cuts += 1;
                v.push(st);
                if r.chance(1, 2) {
                    v.push(step(victim.0.clone()));
                }
                if r.chance(1, 3) {
                    v.push(step(r.pick(&f).0));
                }
            }
            let _ = cuts;
            v.push(step(victim.0.clone()));
            if r.chance(1, 3) {
                // the same cut over and over, to see what it leaves behind
                let st = v.iter().find(|x| !x.faults.is_none()).cloned();
                if let Some(st) = st {
                    for _ in 0..if victim.1.steps < 3_000_000 { r.pick(&[6u32, 12, 20, 70]) } else { 6 } {
                        v.push(st.clone());
                    }
                    v.push(step(victim.0.clone()));
                }
            }
            if r.chance(1, 4) {
                // everything else goes on as before after many cuts
                for x in &f {
                    v.push(step(x.0.clone()));
                }
            }
            s.tasks.push(v);
            for _ in 0..r.below(3) {
                let mut v = vec![];
                for _ in 0..1 + r.below(3) {
                    let x = r.pick(&f);
                    tot += x.1.steps;
                    let mut st = step(x.0);
                    if r.chance(1, 5) && x.1.allocs > 0 {
                        st.faults.alloc = Some((1 + r.below(x.1.allocs), 0));
                    }
                    v.push(st);
                }
                s.tasks.push(v);
            }
            if s.tasks.len() > 1 {
                s.sched = sched(r, tot.max(1000));
                sync_focus(r, &mut s);
            }
        }
        "C05" => {
            s.env = env(r);
            s.env.log_level = 5;
            s.env.mono0 = s.env.mono0.max(1 << 44);
            let f = pool(i, r, refs, 3, cap / 2);
            if f.is_empty() {
                return s;
            }
            let mut tot = 0;
            for _ in 0..1 + r.below(3) {
                let mut v = vec![];
                for _ in 0..1 + r.below(3) {
                    let x = r.pick(&f);
                    tot += x.1.steps;
                    let mut st = step(x.0);
                    let mut at: Vec<u64> = (0..r.below(4)).map(|_| x.1.steps * (3 + r.below(90)) / 100).collect();
                    at.sort();
                    for a in at {
                        st.faults.clock.push((a, r.pick(&[1u32, 1, 2, 2, 3]), 0));
                        let l = st.faults.clock.last_mut().unwrap();
                        l.2 = match l.1 {
                            1 => r.pick(&[1_000_000i64, 2_000_000_000, 30_000_000_000, 600_000_000_000, 7_200_000_000_000, 86_400_000_000_000 * 3]),
                            2 => r.pick(&[-3_600_000_000_000i64, 3_600_000_000_000, -1, 1_000_000_000, -1_600_000_000_000_000_000, -5_000_000_000, 90_000_000_000]),
                            _ => r.pick(&[0i64, 1, 1_000_000, 100_000_000, 1000]),
                        };
                    }
                    if x.1.logs > 0 && r.chance(1, 4) {
                        st.faults.log_slow.push((1 + r.below(x.1.logs), r.pick(&[5_000_000u64, 60_000_000_000])));
                    }
                    v.push(st);
                }
                s.tasks.push(v);
            }
            if s.tasks.len() > 1 {
                s.sched = sched(r, tot.max(1000));
                sync_focus(r, &mut s);
                s.sched.max_switches = s.sched.max_switches.min(600);
            }
        }
        "C06" => {
            s.env = env(r);
            s.env.log_level = r.below(6) as u8;
            let mut f = vec![];
            for _ in 0..6 {
                let o = if whole(i) {
                    let mut o = whole_track(r);
                    o.op = "analyze".into();
                    o
                } else if r.chance(3, 4) {
                    op_named(r, "analyze")
                } else {
                    any_op(r)
                };
                let o = if !f.is_empty() && r.chance(1, 3) { let b: &(OpSpec, StepObs) = &f[0]; neighbour(r, &b.0) } else { o };
                if let Some(x) = usable(refs, &ref_op("C06", &o), if whole(i) { 1_500_000_000 } else { cap / 2 }) {
                    f.push((o, x));
                }
                if f.len() >= 2 {
                    break;
                }
            }
            if f.is_empty() {
                return s;
            }
            let ex = extras(prop, r, refs, 4);
            let mut tot = 0;
            for _ in 0..1 + r.below(2) {
                let mut v = vec![];
                let n = 1 + r.below(4);
                for k in 0..n + 4 {
                    let mut x = if k < n || ex.is_empty() { r.pick(&f) } else { r.pick(&ex) };
                    tot += x.1.steps;
                    if x.0.op == "analyze" {
                        x.0.diag = (1 << 60) | r.below(16) | (r.u() & 0x0fff_ffff_0000_0000 & !(1 << 60)) | (r.below(65536) << 16);
                    }
                    let mut st = step(x.0.clone());
                    let n = x.1.logs.max(1);
                    if r.chance(1, 3) {
                        for _ in 0..1 + r.below(3) {
                            st.faults.log_level.push((1 + r.below(n), r.below(6) as u8));
                        }
                    }
                    if r.chance(1, 6) {
                        st.faults.log_slow.push((1 + r.below(n), 60_000_000_000));
                    }
                    if r.chance(1, 6) {
                        st.faults.log_reenter.push(1 + r.below(n));
                    }
                    if x.0.diag & 1 != 0 && r.chance(1, 2) {
                        st.faults.stderr = Some((1 + r.log(40), r.pick(&[32i64, 5, 28, 9, 4, 11, -1, -2])));
                    }
                    v.push(st);
                }
                s.tasks.push(v);
            }
            if s.tasks.len() > 1 {
                s.sched = sched(r, tot.max(1000));
                sync_focus(r, &mut s);
            }
        }
        "C07" | "C08" => {
            s.env = env(r);
            s.env.log_level = 5;
            for _ in 0..1 {
                let mut v = vec![];
                for _ in 0..1 + r.below(3) {
                    let name = if prop == "C08" {
                        r.pick(&["analyze", "confidence", "confidence"])
                    } else {
                        match r.below(5) {
                            0 | 1 => "analyze",
                            2 => AUDIO_OPS[r.below(AUDIO_OPS.len() as u64) as usize],
                            _ => OPS[r.below(OPS.len() as u64) as usize],
                        }
                    };
                    let big = whole(i) && v.is_empty();
                    let mut o = if big { whole_track(r) } else { op_named(r, name) };
                    if !big && !o.over.contains_key("len") && r.chance(1, 3) {
                        small(&mut o, r);
                    }
                    let edge = prop == "C08" && !big && r.chance(2, 5);
                    if edge {
                        let clear = r.chance(2, 3);
                        if clear {
                            over(&mut o, "sr", r.below(2));
                            over(&mut o, "kind", r.pick(&[0u64, 1, 5]));
                            over(&mut o, "len", 4);
                            if r.chance(2, 3) {
                                over(&mut o, "cfg", 0);
                            }
                            // where the analysis itself puts the tempo
                            if let Some(x) = usable(refs, &o, cap) {
                                let b = f32::from_bits(x.t_bits.first().copied().unwrap_or(0));
                                if b.is_finite() && b > 25.0 {
                                    over(&mut o, "brange.at", b.to_bits() as u64);
                                }
                            }
                        }
                        over(&mut o, "brange", r.u());
                    }
                    let clean = prop == "C08" && if edge { r.chance(3, 4) } else { r.chance(1, 3) };
                    if !clean {
                        let mask = if r.chance(1, 2) { MASK_ALL } else { (r.u() as u32 & MASK_ALL) | 1 << r.below(14) };
                        let n = if big { 400_000 } else if o.over.contains_key("len") { 6000 } else { 30000 };
                        for _ in 0..r.log(6) {
                            o.dmg.push(signal::draw_damage(r, n, mask));
                        }
                    }
                    v.push(step(o));
                }
                s.tasks.push(v);
            }
        }
        "C09" => {
            s.env = env(r);
            s.env.log_level = 0;
            if i % 11 == 3 {
                // growth: one stage, or a whole analysis, at four sizes
                let name = if r.chance(1, 8) { "analyze" } else { LINEAR[r.below(LINEAR.len() as u64) as usize] };
                let mut o = if name == "analyze" { whole_track(r) } else { OpSpec { op: name.into(), seed: r.u(), ..Default::default() } };
                if AUDIO_OPS.contains(&name) {
                    over(&mut o, "big", 400_000);
                } else {
                    over(&mut o, "scale", 4096);
                    over(&mut o, "on.drift", 0);
                }
                s.growth = 1;
                s.tasks.push(vec![step(o)]);
            } else if r.chance(1, 3) {
                // retention: rounds of the same few calls
                let f = {
                    let n = 2 + r.below(3) as usize;
                    let mut f = vec![];
                    for _ in 0..4 {
                        for mut o in family(r, n) {
                            small(&mut o, r);
                            over(&mut o, "kframe", 4);
                            if r.chance(1, 5) {
                                over(&mut o, "rej", r.u());
                            }
                            if let Some(x) = usable(refs, &o, 8_000_000) {
                                f.push((o, x));
                            }
                        }
                        if f.len() >= n {
                            break;
                        }
                    }
                    f.truncate(n);
                    let mut ex = extras(prop, r, refs, 4);
                    for x in ex.iter_mut() {
                        if r.chance(1, 3) {
                            let mut o = x.0.clone();
                            over(&mut o, "rej", r.u());
                            if let Some(y) = usable(refs, &o, 2_500_000) {
                                *x = (o, y);
                            }
                        }
                    }
                    f.extend(ex);
                    f
                };
                if f.is_empty() {
                    return s;
                }
                let per: u64 = f.iter().map(|x| x.1.steps.max(20_000)).sum();
                // half of the histories never repeat an input
                let fresh = r.chance(1, 2);
                let per = if fresh { per * 5 } else { per };
                let rounds = (300_000_000 * if thorough { 4 } else { 1 } / per).clamp(16, 400) / 4 * 4;
                let aborts = r.chance(1, 3);
                let mut v = vec![];
                let plan: Vec<Faults> = f
                    .iter()
                    .map(|x| {
                        let mut fl = Faults::default();
                        if aborts && x.1.allocs > 0 {
                            fl.alloc = Some((1 + r.below(x.1.allocs), 0));
                        }
                        fl
                    })
                    .collect();
                for k in 0..rounds {
                    for (x, p) in f.iter().zip(&plan) {
                        let mut op = x.0.clone();
                        if fresh && k > 0 {
                            for l in ["seed", "n0", "n1", "sp.seed", "ch.seed", "on.seed", "cv.seed", "on.n", "cv.n", "ch.n", "bpmf", "on.bpmf"] {
                                over(&mut op, l, r.u());
                            }
                        }
                        v.push(Step { op, faults: if k % 2 == 1 { p.clone() } else { Faults::default() } });
                    }
                }
                s.tasks.push(v);
                s.per_round = f.len() as u32;
            } else {
                let name = match r.below(4) {
                    0 | 1 => "analyze",
                    2 => AUDIO_OPS[r.below(AUDIO_OPS.len() as u64) as usize],
                    _ => OPS[r.below(OPS.len() as u64) as usize],
                };
                let big = i % 31 == 7;
                let mut o = if big { whole_track(r) } else { op_named(r, name) };
                if r.chance(4, 5) {
                    let n = if big { 400_000 } else if o.over.contains_key("len") { 6000 } else { 30000 };
                    for _ in 0..r.log(6) {
                        o.dmg.push(signal::draw_damage(r, n, MASK_ALL));
                    }
                }
                // a header that lies about the rate
                if r.chance(1, 4) {
                    o.dmg.push(Damage::Rate { sr: r.pick(&[192_000u32, 1_000_000, 48_000_000, u32::MAX, 400_000_000, 1, 50, 4000]) });
                }
                s.tasks.push(vec![step(o)]);
            }
        }
        "C10" | "C11" => {
            s.env = env(r);
            s.tracker = Some(crate::tracker::draw(r, prop == "C11", thorough));
            if s.tracker.as_ref().unwrap().events.len() > 1 {
                weights(r, &mut s.env);
                s.sched = sched(r, 200_000);
                sync_focus(r, &mut s);
            }
        }
        "C12" => {
            s.env = env(r);
            s.store = Some(crate::store::draw(r, &mut |r| {
                let mut o = op_named(r, "analyze");
                if r.chance(1, 2) {
                    small(&mut o, r);
                }
                if r.chance(1, 2) {
                    o.dmg.push(signal::draw_damage(r, 9000, MASK_ALL));
                }
                o
            }));
        }
        "C13" => {
            s.env = env(r);
            s.env.log_level = 0;
            let mut o = OpSpec { op: "steady".into(), seed: r.u(), ..Default::default() };
            let n = 90_000;
            let k = 1 + r.below(3);
            let slots = n / signal::PKT;
            for j in 0..k {
                let a = (slots / k as usize) * j as usize + r.below((slots / k as usize).max(1) as u64) as usize;
                o.dmg.push(match r.below(10) {
                    7 => Damage::Noise { at: a * signal::PKT, n: 1 + r.below(30) as usize, seed: r.u(), amp: 0.9 },
                    8 => Damage::Noise { at: a * signal::PKT + r.below(300) as usize, n: 20 + r.below(80) as usize, seed: r.u(), amp: 1.0 },
                    9 => Damage::Set { at: a * signal::PKT + r.below(300) as usize, n: 1 + r.below(60) as usize, bits: r.pick(&[1.0f32, -1.0, 0.9]).to_bits() },
                    0 => Damage::Drop { pkt: a, n: 1 },
                    1 => Damage::Silence { pkt: a, n: 1 + r.below(4) as usize },
                    2 => Damage::Dup { pkt: a },
                    3 => Damage::Swap { a, b: a + 1 },
                    4 => Damage::Hold { at: a * signal::PKT, n: 1 + r.below(240) as usize },
                    5 => Damage::Flip { at: a * signal::PKT, bit: r.pick(&[31u32, 22, 10, 23]) },
                    _ => Damage::Noise { at: a * signal::PKT, n: signal::PKT, seed: r.u(), amp: 0.1 },
                });
            }
            s.tasks.push(vec![step(o)]);
        }
        _ => panic!("unknown property {prop}"),
    }
    s
}
pub fn opts(prop: &str) -> ExecOpts {
    ExecOpts {
        wf: prop == "C08",
        mem: match prop {
            "C07" | "C08" | "C09" | "C12" => 1536 * MIB,
            _ => 4096 * MIB,
        },
        limit: match prop {
            "C07" | "C08" | "C09" | "C12" => 4_000_000_000,
            _ => 6_000_000_000,
        },
        ..Default::default()
    }
}
// ------------------------------------------------------------------ judging
/// Most work a call may do for `n` samples of audio; see DESIGN.md for how the constants were set.
pub fn step_bound(op: &OpSpec, n: u64) -> u64 {
    let per = match op.op.as_str() {
        "analyze" | "confidence" => {
            let g = Gen::new(op.seed, &op.over);
            let c = analysis_config(&g, op);
            // overlap of the frames, and the windows the harmonic/percussive filters sort
            let ov = c.frame_size.div_ceil(c.hop_size.max(1)) as u64;
            let kov = if c.enable_key_stft_override { c.key_stft_frame_size.div_ceil(c.key_stft_hop_size.max(1)) as u64 } else { ov };
            let mut w = 1000 * ov.max(kov) + 300 * ov * (2 * c.hpss_margin as u64 + 1);
            if c.enable_key_hpss_harmonic {
                w += 600 * kov * (c.key_hpss_time_margin + c.key_hpss_freq_margin + 1) as u64;
            }
            2 * w
        }
        _ => 5_000,
    };
    let base = if op.op == "hpss" || op.op == "hpss_onsets" { 400_000_000 } else { 60_000_000 };
    base + per * n
}
pub fn mem_bound(n: u64) -> u64 {
    8 * MIB + 600 * n
}
fn what(op: &OpSpec) -> String {
    format!("{}#{:x}", op.op, op.seed)
}
pub fn judge(prop: &str, s: &Scenario, out: &RunOut, shm: &Shm, refs: &mut Refs) -> Result<Option<Viol>, String> {
    let v = |c: String, m: String| Ok(Some(Viol { class: c, msg: m }));
    if let Some(f) = &out.fatal {
        if f.starts_with("WALL-TIMEOUT") {
            return v("hang".into(), format!("run did not finish: {f}"));
        }
        let kind = f.split('|').next().unwrap_or("").to_string();
        if kind == "EXIT" && f.contains("status 78") {
            return Err(format!("harness out of memory: {f}"));
        }
        return v(format!("fatal:{kind}"), format!("run ended with {f}"));
    }
    if s.tracker.is_some() || s.store.is_some() {
        if let Some(b) = out.bad.iter().find(|b| owns(prop, b)) {
            return v(format!("model:{}", b.split(':').next().unwrap_or("")), b.clone());
        }
        if s.tracker.is_some() {
            let text = &out.obs[0][0].text;
            let rec: crate::tracker::Recorded = serde_json::from_str(text).map_err(|e| e.to_string())?;
            let r = shm.fork(
                || {
                    let mut bad = vec![];
                    let c = Scenario::default();
                    crate::scen::within(&c, ExecOpts::default(), &mut || bad = crate::tracker::verify_recorded(s.tracker.as_ref().unwrap(), &rec));
                    serde_json::to_vec(&bad).unwrap()
                },
                280,
            );
            match r {
                Ok(b) => {
                    let bad: Vec<String> = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
                    if let Some(b) = bad.first() {
                        return v("model:resume".into(), b.clone());
                    }
                }
                Err(e) => return v("fatal:resume".into(), format!("resuming in a fresh process ended with {e}")),
            }
        }
        return Ok(None);
    }
    if out.obs.len() != s.tasks.len() || out.obs.iter().zip(&s.tasks).any(|(a, b)| a.len() != b.len()) {
        return Err("a client task died (harness error)".into());
    }
    for (ti, (obs, steps)) in out.obs.iter().zip(&s.tasks).enumerate() {
        // how many completed calls of each operation this thread has already made
        let mut done: BTreeMap<String, u64> = BTreeMap::new();
        let mut cut: BTreeMap<String, Vec<i64>> = BTreeMap::new();
        for (si, (o, st)) in obs.iter().zip(steps).enumerate() {
            let at = format!("task {ti} call {si} ({})", what(&st.op));
            let cls = |c: &str| format!("{c}:{}", st.op.op);
            match prop {
                "C07" | "C08" | "C09" | "C13" => {}
                _ => {
                    if o.out == "injected" {
                        if st.faults.alloc.is_none() && st.faults.log_panic.is_none() {
                            return Err(format!("{at}: injected outcome without a fault"));
                        }
                    } else {
                        let rf = refs.get(&ref_op(prop, &st.op));
                        if rf.fatal.is_some() {
                            continue;
                        }
                        let w = &rf.obs[0][0];
                        if o.out != w.out || (o.digest != w.digest && o.out != "panic") {
                            return v(cls("differs"), format!("{at} returned {} where the same call made alone returns {}; got [{}] want [{}]", o.out, w.out, cutm(&o.text), cutm(&w.text)));
                        }
                    }
                }
            }
            if o.mxcsr != 0 && o.out != "injected" && prop == "C03" {
                return v(cls("fpmode"), format!("{at} left the floating-point mode of its thread changed (mxcsr bits {:x})", o.mxcsr));
            }
            match prop {
                "C04" => {
                    let k = serde_json::to_string(&st.op).unwrap();
                    if o.out == "injected" {
                        if *done.get(&k).unwrap_or(&0) > 0 {
                            let c = cut.entry(format!("{k}{:?}", st.faults)).or_default();
                            c.push(o.retained);
                            if c.len() >= 3 && c.iter().rev().take(3).all(|x| *x > 0) {
                                return v(cls("leak"), format!("{at}: every time this call is cut short it leaves {} bytes allocated", o.retained));
                            }
                        }
                    } else {
                        *done.entry(k).or_default() += 1;
                    }
                }
                "C05" => {
                    if st.op.op == "analyze" && o.out == "ok" {
                        let pt = f32::from_bits(o.pt_bits) as f64;
                        let el = (o.t1 - o.t0) as f64 / 1e6;
                        let jumps: f64 = if o.fired.get("clock_event").copied().unwrap_or(0) as usize == st.faults.clock.len() {
                            st.faults.clock.iter().filter(|c| c.1 == 1).map(|c| c.2 as f64 / 1e6).sum()
                        } else {
                            0.0
                        };
                        let rated = st.faults.clock.iter().any(|c| c.1 == 3) || s.tasks.len() > 1;
                        // a stalled log record may be one written after the timer was read
                        let stalls: f64 = st.faults.log_slow.iter().map(|l| l.1 as f64 / 1e6).sum();
                        let low = jumps.max(if rated { 0.0 } else { 0.8 * (el - stalls) - 1.0 });
                        if !pt.is_finite() || pt < 0.0 {
                            return v(cls("time-range"), format!("{at} reports a processing time of {pt} ms"));
                        }
                        if pt > el * 1.0001 + 0.01 {
                            return v(cls("time-more"), format!("{at} reports {pt} ms but only {el} ms passed during the call"));
                        }
                        // on a call this short the fixed cost of handing over the result is not negligible
                        if o.steps > 20_000 && pt < low * 0.9999 - 0.01 {
                            return v(cls("time-less"), format!("{at} reports {pt} ms but {low} ms passed in the middle of the call (elapsed {el} ms, clock events {:?})", st.faults.clock));
                        }
                    }
                }
                "C06" => {
                    if let Some(b) = o.wf.first() {
                        return v(cls("reentry"), format!("{at}: {b}"));
                    }
                }
                "C07" => {
                    if o.out == "panic" {
                        return v(format!("panic:{}", o.text.split(": ").next().unwrap_or("")), format!("{at} with {:?} panicked at {}", st.op.dmg, o.text));
                    }
                }
                "C08" => {
                    if let Some(b) = o.wf.first() {
                        return v(format!("form:{}", b.split(['=', '[', ':']).take(2).collect::<Vec<_>>().join(":").trim()), format!("{at}: {b}"));
                    }
                }
                "C09" => {
                    if s.growth > 0 {
                        let mut g = vec![(o.steps, o.peak)];
                        for k in [2u64, 4, 8] {
                            let mut h = st.op.clone();
                            for l in ["big", "scale"] {
                                if let Some(x) = h.over.get_mut(l) {
                                    *x /= k;
                                }
                            }
                            let r = refs.get(&h);
                            match r.obs.first().and_then(|x| x.first()) {
                                Some(x) if r.fatal.is_none() && x.out == o.out => g.push((x.steps, x.peak)),
                                _ => break,
                            }
                        }
                        g.reverse();
                        if g.len() == 4 {
                            for (kind, x, least) in [("steps", g.iter().map(|x| x.0).collect::<Vec<_>>(), 40_000), ("memory", g.iter().map(|x| x.1).collect::<Vec<_>>(), 1 << 16)] {
                                // three doublings of the input, each multiplying the cost by more than three
                                if x[3] > least && x.windows(2).all(|w| w[1] > 3 * w[0]) {
                                    return v(cls(&format!("growth-{kind}")), format!("{at}: {kind} {x:?} for an input growing 1, 2, 4, 8"));
                                }
                            }
                        }
                    } else if s.per_round == 0 {
                        let (b, m) = (step_bound(&st.op, o.n), mem_bound(o.n));
                        if o.steps > b {
                            return v(cls("steps"), format!("{at} took {} steps for {} samples (bound {b})", o.steps, o.n));
                        }
                        if o.peak > m {
                            return v(cls("memory"), format!("{at} peaked at {} bytes for {} samples (bound {m})", o.peak, o.n));
                        }
                    }
                }
                _ => {}
            }
        }
        if prop == "C09" && s.per_round > 0 {
            let per = s.per_round as usize;
            let n = obs.len() / per;
            if n >= 16 {
                let at = |k: usize| obs[(k * per).max(1) - 1].live_total;
                let (q, h, e) = (at(n / 4), at(n / 2), at(n));
                if h > q + 64 && e > h + 128 {
                    return v("growth".into(), format!("task {ti}: memory held after {} rounds of the same calls: {q} bytes, after {}: {h}, after {n}: {e}", n / 4, n / 2));
                }
            }
        }
    }
    if prop == "C13" {
        return judge_c13(s, out, refs);
    }
    Ok(None)
}
fn owns(prop: &str, b: &str) -> bool {
    let c = b.split(':').next().unwrap_or("");
    match prop {
        "C10" => matches!(c, "model" | "clone" | "panic" | "shadow"),
        "C11" => matches!(c, "torn" | "panic" | "shadow"),
        _ => true,
    }
}
fn cutm(s: &str) -> String {
    s.chars().take(400).collect()
}
const FAMILY: [f32; 9] = [1.0, 2.0, 0.5, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75, 3.0, 1.0 / 3.0];
fn judge_c13(s: &Scenario, out: &RunOut, refs: &mut Refs) -> Result<Option<Viol>, String> {
    let st = &s.tasks[0][0];
    let o = &out.obs[0][0];
    let mut variants = vec![];
    for d in [vec![], vec![Damage::Clip { at: 0, n: usize::MAX / 4, gain: 0.8 }], vec![Damage::Truncate { at: 88_000 }], vec![Damage::Drop { pkt: 0, n: 1 }], vec![Damage::Noise { at: 0, n: usize::MAX / 4, seed: 5, amp: 0.01 }]] {
        let mut op = st.op.clone();
        op.dmg = d;
        let r = refs.get(&op);
        if r.fatal.is_some() || r.obs[0][0].out != "ok" {
            return Ok(None);
        }
        variants.push(r.obs[0][0].clone());
    }
    let bpm = |o: &StepObs| f32::from_bits(o.t_bits.first().copied().unwrap_or(0));
    let key = |o: &StepObs| o.t_bits.get(1).copied().unwrap_or(99);
    let w = &variants[0];
    let fam = |a: f32, b: f32, tol: f32| FAMILY.iter().any(|k| (a / (b * k) - 1.0).abs() < tol);
    let steady_bpm = variants.iter().all(|x| fam(bpm(x), bpm(w), 0.03));
    // a key the analysis itself gives no confidence to is not a clear one
    let kconf = |o: &StepObs| f32::from_bits(o.t_bits.get(2).copied().unwrap_or(0));
    let steady_key = variants.iter().all(|x| key(x) == key(w) && kconf(x) >= 0.02);
    if o.out != "ok" {
        return Ok(Some(Viol { class: "derailed:outcome".into(), msg: format!("{} with {:?} ended as {} {}", what(&st.op), st.op.dmg, o.out, cutm(&o.text)) }));
    }
    if steady_bpm && !fam(bpm(o), bpm(w), 0.08) {
        return Ok(Some(Viol { class: "derailed:bpm".into(), msg: format!("{} with {:?}: tempo {} instead of {}", what(&st.op), st.op.dmg, bpm(o), bpm(w)) }));
    }
    if steady_key && key(o) != key(w) {
        return Ok(Some(Viol { class: "derailed:key".into(), msg: format!("{} with {:?}: key {} instead of {} (confidence {}, clarity {})", what(&st.op), st.op.dmg, key(o), key(w), f32::from_bits(w.t_bits[2]), f32::from_bits(w.t_bits[4])) }));
    }
    Ok(None)
}
