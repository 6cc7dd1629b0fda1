//! Seeded search: workers draw, run and judge simulated runs; the parent reports.
use crate::gen::*;
use crate::minim::Min;
use crate::ops::*;
use crate::props::*;
use crate::scen::*;
use crate::zygote::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::time::{Duration, Instant};

fn envn(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn dir() -> String {
    std::env::var("SIM_DIR").unwrap_or_else(|_| "/verif".into())
}
#[derive(Serialize, Deserialize, Default, Clone)]
#[serde(default)]
struct Rep {
    i: u64,
    steps: u64,
    mono_ns: u64,
    switches: u64,
    sched: u64,
    event: u64,
    calls: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    outs: BTreeMap<String, u64>,
    nontrivial: bool,
    empty: bool,
    error: Option<String>,
    viol: Option<(String, String)>,
    replay: Option<String>,
    sample: Option<serde_json::Value>,
    spawned: u64,
    refs: u64,
    done: bool,
    min_tries: u64,
}
#[derive(Serialize, Deserialize, Default, Clone, Debug)]
#[serde(default)]
pub struct Finding {
    property: String,
    status: String,
    class: String,
    contains: String,
    what: String,
    commit: String,
}
fn findings(prop: &str) -> Vec<Finding> {
    let p = format!("{}/known_findings.jsonl", dir());
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    t.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str::<Finding>(l).unwrap_or_else(|e| { eprintln!("sim: {p}: {e}"); std::process::exit(3) })).filter(|f| f.property == prop).collect()
}
fn known<'a>(fs: &'a [Finding], v: &Viol) -> Option<&'a Finding> {
    fs.iter().find(|f| f.status == "known" && f.class == v.class && v.msg.contains(&f.contains))
}
/// Runs per tier.
fn runs(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C01" => 2400,
        "C02" => 3400,
        "C03" => 1500,
        "C04" => 2600,
        "C05" => 2400,
        "C06" => 2600,
        "C07" => 14000,
        "C08" => 5600,
        "C09" => 1800,
        "C10" => 50000,
        "C11" => 100000,
        "C12" => 7000,
        "C13" => 2000,
        _ => 100,
    };
    if thorough { q * 25 } else { q }
}
fn faults_of(s: &Scenario, o: &RunOut) -> BTreeMap<String, u64> {
    let mut f = o.fired.clone();
    for st in s.tasks.iter().flatten() {
        for d in &st.op.dmg {
            *f.entry(d.kind().into()).or_default() += 1;
        }
        if let Some(x) = f.remove("clock_event") {
            // name them by kind
            let _ = x;
            f.insert("clock_event".into(), x);
        }
    }
    if let Some(t) = &s.tracker {
        for e in t.events.iter().flatten() {
            if e.k == "crash" {
                *f.entry("tracker_crash_restore".into()).or_default() += 1;
            }
            if e.k == "migrate" {
                *f.entry("tracker_migration".into()).or_default() += 1;
            }
        }
    }
    if let Some(t) = &s.store {
        for r in &t.recs {
            for d in &r.op.dmg {
                *f.entry(d.kind().into()).or_default() += 1;
            }
        }
    }
    if o.run.preempts_n() > 0 {
        f.insert("preemption".into(), o.run.preempts_n());
    }
    if o.run.spurious > 0 {
        f.insert("spurious_wakeup".into(), o.run.spurious);
    }
    let e = &s.env;
    for (k, b) in [
        ("hash_seed", e.entropy != 1),
        ("heap_addresses", e.addr != 0),
        ("dirty_heap", e.poison != 0),
        ("environment", e.fake_env),
        ("cpu_count", e.cpus != 8),
        ("log_level", e.log_level != 5),
    ] {
        if b {
            f.insert(format!("env:{k}"), 1);
        }
    }
    f
}
fn one(prop: &str, seed: u64, i: u64, thorough: bool, shm: &Shm, refs: &mut Refs) -> (Scenario, RunOut, Result<Option<Viol>, String>) {
    let s = gen(prop, seed, i, thorough, refs);
    let o = shm.run(&s, opts(prop));
    let j = judge(prop, &s, &o, shm, refs);
    (s, o, j)
}
fn mk_worker(cov: *mut u8) -> Shm {
    let shm = Shm::new(cov);
    let r = shm.fork(
        || {
            let mut x = String::new();
            within(&Scenario::default(), ExecOpts::default(), &mut || x = crate::logger::reentry_reference());
            x.into_bytes()
        },
        100,
    );
    if let Ok(b) = r {
        let _ = crate::logger::REENTRY_REF.set(String::from_utf8_lossy(&b).to_string());
    }
    shm
}
fn report(s: &Scenario, o: &RunOut, i: u64) -> Rep {
    let fired = faults_of(s, o);
    let mut outs = BTreeMap::new();
    for x in o.obs.iter().flatten() {
        if !x.out.is_empty() {
            *outs.entry(x.out.clone()).or_default() += 1;
        }
    }
    Rep {
        i,
        steps: o.run.total_steps,
        mono_ns: o.run.mono_ns,
        switches: o.run.switches,
        sched: o.run.sched_hash,
        event: o.run.event_hash,
        calls: o.obs.iter().map(|v| v.len() as u64).sum::<u64>() + o.probes.get("accepted").copied().unwrap_or(0),
        nontrivial: o.run.preempts_n() > 0 || fired.iter().any(|(k, v)| *v > 0 && !k.starts_with("env:log")) || o.obs.iter().map(|v| v.len()).max().unwrap_or(0) > 1,
        fired,
        probes: o.probes.clone(),
        outs,
        empty: s.tasks.iter().all(|t| t.is_empty()) && s.tracker.is_none() && s.store.is_none(),
        spawned: o.run.spawned,
        ..Default::default()
    }
}
struct Ctl {
    stop: *mut u64,
}
impl Ctl {
    fn min(&self) -> u64 {
        unsafe { std::sync::atomic::AtomicU64::from_ptr(self.stop).load(std::sync::atomic::Ordering::SeqCst) }
    }
    fn lower(&self, i: u64) {
        unsafe { std::sync::atomic::AtomicU64::from_ptr(self.stop).fetch_min(i, std::sync::atomic::Ordering::SeqCst) };
    }
}
#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, seed: u64, from: u64, n: u64, w: u64, nw: u64, thorough: bool, deadline: Instant, cov: *mut u8, ctl: &Ctl, path: &str) {
    let shm = mk_worker(cov);
    let mut refs = Refs::new(&shm);
    refs.opts = ExecOpts { mem: opts(prop).mem, limit: opts(prop).limit, ..Default::default() };
    let fs = findings(prop);
    let mut f = std::fs::File::create(path).expect("report file");
    let mut i = from + w;
    while i < from + n {
        if ctl.min() < i || Instant::now() > deadline {
            break;
        }
        let e0 = refs.evals;
        let (s, o, j) = one(prop, seed, i, thorough, &shm, &mut refs);
        let mut r = report(&s, &o, i);
        r.refs = refs.evals - e0;
        if i < from + 3 {
            let mut t = serde_json::to_string(&s).unwrap();
            t.truncate(1600);
            r.sample = Some(json!(t));
        }
        match j {
            Ok(None) => {}
            Err(e) => r.error = Some(e),
            Ok(Some(v)) => {
                if known(&fs, &v).is_some() {
                    r.probes.insert(format!("known:{}", v.class), 1);
                } else if std::env::var_os("SIM_LIST").is_some() {
                    // survey mode: count and go on
                    let mut m = v.msg.clone();
                    m.truncate(300);
                    println!("LIST {} [{}] {}", i, v.class, m);
                    r.probes.insert(format!("viol:{}", v.class), 1);
                } else {
                    ctl.lower(i);
                    let mut m = Min { prop, class: v.class.clone(), shm: &shm, refs: &mut refs, until: Instant::now() + Duration::from_secs(if thorough { 180 } else { 60 }), tries: 0 };
                    let ms = m.run(&s);
                    r.min_tries = m.tries;
                    // details of the minimised run
                    refs.clear();
                    refs.opts.text = true;
                    let o2 = shm.run(&ms, ExecOpts { text: true, ..opts(prop) });
                    let v2 = judge(prop, &ms, &o2, &shm, &mut refs);
                    let (vv, ss, oo) = match v2 {
                        Ok(Some(x)) if x.class == v.class => (x, ms, o2),
                        _ => (v, s, o),
                    };
                    let p = format!("{}/work/replays/{}-{}-{}.json", dir(), prop, seed, i);
                    let body = json!({"property": prop, "class": vv.class, "message": vv.msg, "seed": seed, "index": i, "event_hash": oo.run.event_hash, "scenario": ss});
                    std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
                    r.viol = Some((vv.class, vv.msg));
                    r.replay = Some(p);
                }
            }
        }
        writeln!(f, "{}", serde_json::to_string(&r).unwrap()).unwrap();
        if r.viol.is_some() || r.error.is_some() {
            break;
        }
        i += nw;
    }
    writeln!(f, "{}", serde_json::to_string(&Rep { done: true, ..Default::default() }).unwrap()).unwrap();
}
pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed = envn("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let n = envn("SIM_RUNS", runs(prop, thorough));
    let nw = envn("SIM_WORKERS", 8);
    let from = envn("SIM_FROM", 0);
    let wall = envn("SIM_WALL", if thorough { 3600 } else { 300 });
    let d = dir();
    let work = format!("{d}/work/run.{prop}.{}", std::process::id());
    std::fs::create_dir_all(&work).unwrap();
    std::fs::create_dir_all(format!("{d}/work/replays")).unwrap();
    std::fs::create_dir_all(format!("{d}/evidence")).unwrap();
    println!("sim: property={prop} tier={tier} seed={seed} runs={n} workers={nw}");
    let cov = map_shared(COVCAP);
    let ctl = Ctl { stop: map_shared(4096) as *mut u64 };
    unsafe { *ctl.stop = u64::MAX };
    let deadline = t0 + Duration::from_secs(wall);
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(prop, seed, from, n, w, nw, thorough, deadline, cov, &ctl, &format!("{work}/w{w}"))));
            if r.is_err() {
                let m = PANIC.with(|p| p.borrow().clone());
                eprintln!("sim: worker {w} failed: {m}");
            }
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        bad |= st != 0;
    }
    let mut reps: Vec<Rep> = vec![];
    for w in 0..nw {
        let mut done = false;
        if let Ok(f) = std::fs::File::open(format!("{work}/w{w}")) {
            for l in BufReader::new(f).lines().map_while(Result::ok) {
                match serde_json::from_str::<Rep>(&l) {
                    Ok(r) if r.done => done = true,
                    Ok(r) => reps.push(r),
                    Err(_) => bad = true,
                }
            }
        }
        bad |= !done;
    }
    let _ = std::fs::remove_dir_all(&work);
    reps.sort_by_key(|r| r.i);
    let wall_s = t0.elapsed().as_secs_f64();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut outs: BTreeMap<String, u64> = BTreeMap::new();
    let (mut ev, mut sc) = (HashSet::new(), HashSet::new());
    let (mut steps, mut ns, mut sw, mut calls, mut nrefs, mut empty, mut spawned) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for r in &reps {
        for (k, v) in &r.fired {
            *fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.probes {
            *probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.outs {
            *outs.entry(k.clone()).or_default() += v;
        }
        if r.nontrivial && !r.empty {
            ev.insert(r.event);
        }
        if r.switches > 0 {
            sc.insert(r.sched);
        }
        steps += r.steps;
        ns = ns.saturating_add(r.mono_ns);
        sw += r.switches;
        calls += r.calls;
        nrefs += r.refs;
        empty += r.empty as u64;
        spawned += r.spawned;
    }
    let guards = unsafe { crate::ffi::rt_guards() } as usize;
    let (mut fn_all, mut fn_hit) = (0u64, 0u64);
    let mut dump = String::new();
    for i in 1..=guards.min(COVCAP - 1) {
        let mut e = 0u32;
        let pc = unsafe { crate::ffi::rt_guard_pc(i as u32, &mut e) };
        let h = unsafe { *cov.add(i) } != 0;
        fn_all += (e != 0) as u64;
        fn_hit += (e != 0 && h) as u64;
        dump.push_str(&format!("{} {} {:#x}\n", h as u8, e, pc));
    }
    if let Ok(p) = std::env::var("SIM_COVDUMP") {
        std::fs::write(p, &dump).unwrap();
    }
    let hit = (1..=guards.min(COVCAP - 1)).filter(|i| unsafe { *cov.add(*i) } != 0).count();
    let viol = reps.iter().find(|r| r.viol.is_some());
    let err = reps.iter().find(|r| r.error.is_some());
    let samples: Vec<_> = reps.iter().filter_map(|r| r.sample.clone().map(|s| json!({"run": r.i, "scenario_prefix": s, "event_hash": format!("{:016x}", r.event)}))).take(3).collect();
    let level = if matches!(prop, "C04" | "C11") { "fault_enumeration" } else { "exploration" };
    let evd = json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": level,
        "coverage": {
            "evaluations": reps.len(),
            "distinct_nontrivial": ev.len(),
            "rule": "one evaluation = one simulated run drawn from (VERIF_SEED, property, run index), executed in its own process under the simulator; non-trivial = at least one preemption, injected fault, non-default environment or a history of several calls; distinct = different event hash (every scheduling decision with its step, clock read, log record, injected fault and result digest)",
            "samples": samples,
            "requested_runs": n, "runs_per_hour": (reps.len() as f64 / wall_s * 3600.0).round(), "seeds_per_hour": (reps.len() as f64 / wall_s * 3600.0).round(),
            "simulated_seconds": ns as f64 / 1e9, "simulated_steps": steps, "context_switches": sw,
            "distinct_interleavings": sc.len(), "distinct_interleavings_measure": "hash of the sequence of (from task, to task, code location of the switch)",
            "library_calls_judged": calls, "solo_reference_runs": nrefs, "call_outcomes": outs, "faults_fired": fired, "probes": probes,
            "library_edges_reached": hit, "library_edges_total": guards, "library_functions_reached": fn_hit, "library_functions_total": fn_all, "empty_runs": empty, "threads_started_by_library": spawned,
            "real_components": ["all of stratum-dsp (optimised build with overflow checks, instrumented)", "rustfft and every other dependency", "Rust std threads, locks, once cells and channels", "serde_json (C12)"],
            "stubbed_components": ["thread scheduler, futex, thread creation/join and sleeping", "monotonic and real-time clocks", "getrandom", "heap placement, contents and failure", "standard error", "environment variables, CPU count, pid", "log sink", "audio source and transport", "result disk (C12)"]
        },
        "assumptions": ["switches happen at control-flow edges, atomic accesses, allocations, log records and blocking calls of the library; weak memory orderings are not explored", "sampling: a clean batch is evidence, not proof"],
        "wall_s": wall_s, "violations": viol.is_some() as u64
    });
    std::fs::write(format!("{d}/evidence/{prop}.json"), serde_json::to_string_pretty(&evd).unwrap()).unwrap();
    println!(
        "sim: {} runs in {:.1} s, {} steps, {} switches, {} interleavings, {} calls, {} refs, edges {}/{}, empty {}",
        reps.len(), wall_s, steps, sw, sc.len(), calls, nrefs, hit, guards, empty
    );
    println!("sim: outcomes {outs:?}");
    println!("sim: faults {fired:?}");
    println!("sim: probes {probes:?}");
    if std::env::var_os("SIM_HASHES").is_some() {
        for r in &reps {
            println!("H {} {:016x} {:016x} {}", r.i, r.event, r.sched, r.steps);
        }
    }
    for f in findings(prop).iter().filter(|f| f.status == "known") {
        println!("KNOWN-FINDING: property={prop} {}", f.what);
    }
    if let Some(r) = viol {
        let (c, m) = r.viol.as_ref().unwrap();
        println!("sim: run {} violates {prop} [{c}]: {m} (minimised in {} tries)", r.i, r.min_tries);
        println!("VIOLATION property={prop} replay={}", r.replay.as_deref().unwrap_or("-"));
        return 1;
    }
    if let Some(r) = err {
        println!("sim: run {} harness error: {}", r.i, r.error.as_ref().unwrap());
        return 3;
    }
    if bad {
        println!("sim: a worker failed");
        return 3;
    }
    if reps.len() as u64 == 0 {
        return 3;
    }
    0
}
#[derive(Deserialize)]
struct ReplayFile {
    property: String,
    class: String,
    event_hash: u64,
    scenario: Scenario,
}
pub fn replay(path: &str) -> i32 {
    let f: ReplayFile = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let cov = map_shared(COVCAP);
    let shm = mk_worker(cov);
    let mut refs = Refs::new(&shm);
    refs.opts = ExecOpts { mem: opts(&f.property).mem, limit: opts(&f.property).limit, text: true, ..Default::default() };
    let o = shm.run(&f.scenario, ExecOpts { text: true, ..opts(&f.property) });
    println!("sim: replay of {} ({}): event hash {:016x}, recorded {:016x}", f.property, f.class, o.run.event_hash, f.event_hash);
    match judge(&f.property, &f.scenario, &o, &shm, &mut refs) {
        Ok(Some(v)) => {
            println!("sim: [{}] {}", v.class, v.msg);
            println!("VIOLATION property={} replay={path}", f.property);
            1
        }
        Ok(None) => {
            println!("sim: the property holds on this run");
            0
        }
        Err(e) => {
            println!("sim: harness error {e}");
            3
        }
    }
}
pub fn show(prop: &str, i: u64) -> i32 {
    let cov = map_shared(COVCAP);
    let shm = mk_worker(cov);
    let mut refs = Refs::new(&shm);
    refs.opts = ExecOpts { mem: opts(prop).mem, limit: opts(prop).limit, text: true, ..Default::default() };
    let s = gen(prop, envn("VERIF_SEED", 1), i, false, &mut refs);
    println!("{}", serde_json::to_string_pretty(&s).unwrap());
    let o = shm.run(&s, ExecOpts { text: true, ..opts(prop) });
    println!("{:?}", o.run);
    println!("{:?} {:?}", o.fatal, o.bad);
    for x in o.obs.iter().flatten() {
        println!("{} steps={} allocs={} logs={} peak={} retained={} n={} fired={:?} {}", x.out, x.steps, x.allocs, x.logs, x.peak, x.retained, x.n, x.fired, x.text.chars().take(300).collect::<String>());
    }
    println!("{:?}", judge(prop, &s, &o, &shm, &mut refs));
    0
}
/// Every property's first runs, twice, in fresh processes: the event logs must agree.
pub fn determinism() -> i32 {
    let cov = map_shared(COVCAP);
    let shm = mk_worker(cov);
    let mut refs = Refs::new(&shm);
    let mut bad = 0;
    let n = envn("SIM_RUNS", 20);
    for p in CLAIMED {
        refs.opts = ExecOpts { mem: opts(p).mem, limit: opts(p).limit, ..Default::default() };
        for i in 0..n {
            let (s, a, _) = one(p, envn("VERIF_SEED", 1), i, false, &shm, &mut refs);
            // perturb the parent's heap, then again
            let junk: Vec<Vec<u8>> = (0..i as usize % 7).map(|k| vec![k as u8; 1000 * k + 13]).collect();
            let b = shm.run(&s, opts(p));
            drop(junk);
            if a.run.event_hash != b.run.event_hash || a.run.total_steps != b.run.total_steps || a.fatal != b.fatal {
                bad += 1;
                println!("sim: NONDETERMINISTIC {p} run {i}: {:016x}/{} vs {:016x}/{}", a.run.event_hash, a.run.total_steps, b.run.event_hash, b.run.total_steps);
            }
        }
    }
    println!("sim: determinism: {} runs executed twice, {bad} differ", n * CLAIMED.len() as u64);
    if bad > 0 { 3 } else { 0 }
}
/// Work and memory of single calls, to place the C09 bounds.
pub fn prof(n: u64) -> i32 {
    let cov = map_shared(COVCAP);
    let shm = mk_worker(cov);
    let mut refs = Refs::new(&shm);
    refs.opts = ExecOpts { mem: opts("C09").mem, limit: opts("C09").limit, text: true, ..Default::default() };
    let mut r = Rng::new(envn("VERIF_SEED", 1));
    let mut tot = 0;
    for i in 0..n {
        let op = OpSpec { op: if i % 2 == 0 { "analyze".into() } else { OPS[(i / 2) as usize % OPS.len()].into() }, seed: r.u(), ..Default::default() };
        let t = Instant::now();
        let o = refs.get(&op);
        let ms = t.elapsed().as_secs_f64() * 1e3;
        match &o.fatal {
            Some(f) => println!("{} {f}", op.op),
            None => {
                let x = &o.obs[0][0];
                tot += x.steps;
                if op.op == "analyze" {
                    let g = Gen::new(op.seed, &op.over);
                    let c = analysis_config(&g, &op);
                    println!("CFG {} {} {} {} {} {} {} hpss={}:{} khpss={}:{}:{}:{} hpcp={}:{} multi={} logf={} smooth={}", x.n, x.steps, x.peak, c.frame_size, c.hop_size, if c.enable_key_stft_override { c.key_stft_frame_size } else { 0 }, if c.enable_key_stft_override { c.key_stft_hop_size } else { 0 }, c.enable_hpss_onsets as u8, c.hpss_margin, c.enable_key_hpss_harmonic as u8, c.key_hpss_frame_step, c.key_hpss_time_margin, c.key_hpss_freq_margin, c.enable_key_hpcp as u8, c.key_hpcp_peaks_per_frame, c.enable_tempogram_multi_resolution as u8, c.enable_key_log_frequency as u8, c.key_spectrogram_smooth_margin);
                }
                println!("{:18} {:9} n={:6} steps={:10} st/n={:8.0} peak={:9} pk/n={:6.0} allocs={} logs={} {ms:.1} ms {}", op.op, x.out, x.n, x.steps, x.steps as f64 / x.n.max(1) as f64, x.peak, x.peak as f64 / x.n.max(1) as f64, x.allocs, x.logs, x.text.chars().take(80).collect::<String>());
            }
        }
    }
    println!("total {tot}");
    0
}

/// One call, given as JSON.
pub fn op(j: &str) -> i32 {
    let op: OpSpec = serde_json::from_str(j).expect("operation");
    let cov = map_shared(COVCAP);
    let shm = mk_worker(cov);
    let s = Scenario { tasks: vec![vec![Step { op, ..Default::default() }]], ..Default::default() };
    let t = Instant::now();
    let o = shm.run(&s, ExecOpts { text: true, wf: true, limit: 50_000_000_000, mem: 8 << 30, ..Default::default() });
    println!("{:?} {:.1} s", o.fatal, t.elapsed().as_secs_f64());
    for x in o.obs.iter().flatten() {
        println!("{} n={} steps={} allocs={} logs={} peak={} wf={:?} {}", x.out, x.n, x.steps, x.allocs, x.logs, x.peak, x.wf, x.text);
    }
    0
}

/// Work of every stage at growing sizes.
pub fn scale(seed: u64) -> i32 {
    let cov = map_shared(COVCAP);
    let shm = mk_worker(cov);
    let mut refs = Refs::new(&shm);
    refs.opts = ExecOpts { mem: 8 << 30, limit: 20_000_000_000, ..Default::default() };
    for name in OPS {
        if matches!(*name, "analyze" | "confidence") {
            continue;
        }
        let mut v = vec![];
        for k in [1u64, 2, 4, 8] {
            let mut o = OpSpec { op: name.to_string(), seed, ..Default::default() };
            if AUDIO_OPS.contains(name) {
                o.over.insert("big".into(), 50_000 * k);
            } else {
                o.over.insert("scale".into(), 512 * k);
            }
            let r = refs.get(&o);
            v.push(r.obs.first().and_then(|x| x.first()).map_or((0, 0), |x| (x.steps / k, x.peak / k)));
        }
        println!("{:18} steps/k {:?} peak/k {:?}", name, v.iter().map(|x| x.0).collect::<Vec<_>>(), v.iter().map(|x| x.1).collect::<Vec<_>>());
    }
    0
}
