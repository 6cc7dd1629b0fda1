//! Scenarios: everything one simulated run needs, explicit and serialisable (the replay file).
use crate::ffi::*;
use crate::ops::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Env {
    pub entropy: u64,
    pub addr: u64,
    pub envs: u64,
    pub fake_env: bool,
    pub cpus: u32,
    pub poison: u32,
    pub lifo: bool,
    pub ns_per_kstep: u64,
    pub mono0: u64,
    pub real0: u64,
    pub log_level: u8,
    pub w_alloc: u32,
    pub w_atomic: u32,
    pub w_log: u32,
    pub w_sync: u32,
    pub spurious: u32,
}
impl Default for Env {
    fn default() -> Self {
        Env {
            entropy: 1,
            addr: 0,
            envs: 0,
            fake_env: false,
            cpus: 8,
            poison: 0,
            lifo: true,
            ns_per_kstep: 1000,
            mono0: 1_000_000_000_000,
            real0: 1_700_000_000_000_000_000,
            log_level: 5,
            w_alloc: 1,
            w_atomic: 1,
            w_log: 1,
            w_sync: 1,
            spurious: 0,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Sched {
    pub policy: u32,
    pub seed: u64,
    pub qmin: u64,
    pub qmax: u64,
    pub pct_total: u64,
    pub pct_d: u32,
    pub max_switches: u32,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub expl: Vec<[u64; 3]>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub nat: Vec<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Step {
    pub op: OpSpec,
    #[serde(default, skip_serializing_if = "Faults::is_none")]
    pub faults: Faults,
}
fn is0(x: &u32) -> bool {
    *x == 0
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub env: Env,
    pub sched: Sched,
    pub tasks: Vec<Vec<Step>>,
    /// calls per round, when the history is rounds of the same calls (C09)
    #[serde(skip_serializing_if = "is0")]
    pub per_round: u32,
    /// the call is repeated at a half, a quarter and an eighth of its size and the growth compared (C09)
    #[serde(skip_serializing_if = "is0")]
    pub growth: u32,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub tracker: Option<crate::tracker::TrackerScn>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub store: Option<crate::store::StoreScn>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct RunStats {
    pub switches: u64,
    pub preempts: u64,
    pub spurious: u64,
    pub futex_waits: u64,
    pub tasks: u64,
    pub total_steps: u64,
    pub sched_hash: u64,
    pub event_hash: u64,
    pub mono_ns: u64,
    pub spawned: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct RunOut {
    pub obs: Vec<Vec<StepObs>>,
    pub run: RunStats,
    pub expl: Vec<[u64; 3]>,
    pub nat: Vec<u64>,
    /// violations found inside the run (reference models)
    pub bad: Vec<String>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// set by the parent when the child did not finish: "DEADLOCK|...", "signal 6", ...
    pub fatal: Option<String>,
}
#[derive(Clone, Copy)]
pub struct ExecOpts {
    pub text: bool,
    pub wf: bool,
    pub limit: u64,
    pub mem: u64,
    pub record: bool,
}
impl Default for ExecOpts {
    fn default() -> Self {
        ExecOpts { text: false, wf: false, limit: 3_000_000_000, mem: 1 << 30, record: false }
    }
}

fn rtcfg(s: &Scenario, o: ExecOpts, flat: &[u64]) -> RtCfg {
    RtCfg {
        sched_seed: s.sched.seed,
        entropy: s.env.entropy,
        addr_seed: s.env.addr,
        env_seed: s.env.envs,
        policy: s.sched.policy,
        cpus: s.env.cpus.max(1),
        qmin: s.sched.qmin.max(1),
        qmax: s.sched.qmax.max(s.sched.qmin.max(1)),
        pct_total: s.sched.pct_total,
        pct_d: s.sched.pct_d,
        max_switches: if s.sched.max_switches == 0 { 100_000 } else { s.sched.max_switches },
        w_alloc: s.env.w_alloc.max(1),
        w_atomic: s.env.w_atomic.max(1),
        w_log: s.env.w_log.max(1),
        w_sync: s.env.w_sync.max(1),
        poison: s.env.poison,
        lifo: s.env.lifo as u32,
        ns_per_kstep: s.env.ns_per_kstep,
        mono0: s.env.mono0,
        real0: s.env.real0,
        call_limit: o.limit,
        run_limit: 60_000_000_000,
        mem_limit: o.mem,
        spurious: s.env.spurious,
        fake_env: s.env.fake_env as u32,
        expl_n: s.sched.expl.len() as u64,
        expl: flat.as_ptr(),
        nat_n: s.sched.nat.len() as u64,
        nat: s.sched.nat.as_ptr(),
    }
}
/// Runs `f` in the simulated environment of `s` (in the child).
pub fn within(s: &Scenario, o: ExecOpts, f: &mut dyn FnMut()) {
    let c = rtcfg(s, o, &[]);
    log::set_max_level(crate::logger::level(s.env.log_level));
    unsafe { rt_begin(&c) };
    f();
    let mut r = RtRun::default();
    unsafe { rt_end(&mut r) };
}
/// Runs in the child.
pub fn execute(s: &Scenario, o: ExecOpts) -> RunOut {
    let flat: Vec<u64> = s.sched.expl.iter().flatten().copied().collect();
    let c = rtcfg(s, o, &flat);
    let mut out = RunOut::default();
    log::set_max_level(crate::logger::level(s.env.log_level));
    unsafe { rt_begin(&c) };
    if let Some(t) = &s.tracker {
        crate::tracker::execute(t, &mut out, o);
    } else if let Some(t) = &s.store {
        crate::store::execute(t, &mut out, o);
    } else {
        let mut shared = BTreeMap::new();
        for st in s.tasks.iter().flatten() {
            let k = (st.op.op.clone(), st.op.share);
            if st.op.share != 0 && !shared.contains_key(&k) {
                if let Some(x) = make_shared(&st.op) {
                    shared.insert(k, std::sync::Arc::new(x));
                }
            }
        }
        let hs: Vec<_> = s
            .tasks
            .iter()
            .map(|steps| {
                let steps = steps.clone();
                let shared = shared.clone();
                let h = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let mut v = Vec::with_capacity(steps.len());
                        for st in &steps {
                            let mut cx = Cx::new();
                            cx.faults = st.faults.clone();
                            cx.want_text = o.text;
                            cx.want_wf = o.wf;
                            cx.shared = shared.clone();
                            let ob = run(&st.op, &mut cx);
                            unsafe { rt_event(ob.digest) };
                            v.push(ob);
                        }
                        v
                    })
                    .expect("spawn");
                h
            })
            .collect();
        for h in hs {
            out.obs.push(h.join().unwrap_or_default());
        }
    }
    let mut r = RtRun::default();
    unsafe { rt_end(&mut r) };
    out.run = RunStats {
        switches: r.switches,
        preempts: r.preempts,
        spurious: r.spurious,
        futex_waits: r.futex_waits,
        tasks: r.tasks,
        total_steps: r.total_steps,
        sched_hash: r.sched_hash,
        event_hash: r.event_hash,
        mono_ns: r.mono_ns,
        spawned: r.spawned,
    };
    for ob in out.obs.iter().flatten() {
        for (k, v) in &ob.fired {
            *out.fired.entry(k.clone()).or_default() += v;
        }
    }
    if o.record {
        let (mut a, mut b, mut nn) = (std::ptr::null(), std::ptr::null(), 0u64);
        unsafe {
            let n = rt_rec(&mut a, &mut b, &mut nn);
            for i in 0..n as usize {
                out.expl.push([*a.add(3 * i), *a.add(3 * i + 1), *a.add(3 * i + 2)]);
            }
            for i in 0..nn as usize {
                out.nat.push(*b.add(i));
            }
        }
    }
    out
}
impl RunStats {
    pub fn preempts_n(&self) -> u64 {
        self.preempts
    }
}
