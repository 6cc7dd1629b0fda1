//! Shrinks a failing run while the same class of violation persists.
use crate::ops::*;
use crate::props::*;
use crate::scen::*;
use crate::zygote::{Refs, Shm};
use std::time::Instant;

pub struct Min<'a, 'b> {
    pub prop: &'a str,
    pub class: String,
    pub shm: &'a Shm,
    pub refs: &'a mut Refs<'b>,
    pub until: Instant,
    pub tries: u64,
}
impl<'a, 'b> Min<'a, 'b> {
    fn fails(&mut self, s: &Scenario) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        let o = self.shm.run(s, opts(self.prop));
        matches!(judge(self.prop, s, &o, self.shm, self.refs), Ok(Some(v)) if v.class == self.class)
    }
    fn adopt(&mut self, cur: &mut Scenario, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut n = cur.clone();
        f(&mut n);
        if n != *cur && self.fails(&n) {
            *cur = n;
            true
        } else {
            false
        }
    }
    fn ddmin<T: Clone + PartialEq>(&mut self, cur: &mut Scenario, get: impl Fn(&mut Scenario) -> &mut Vec<T>) {
        let mut size = get(cur).len().div_ceil(2);
        while size > 0 {
            let mut i = 0;
            while i < get(cur).len() {
                let e = (i + size).min(get(cur).len());
                if !self.adopt(cur, |n| {
                    get(n).drain(i..e);
                }) {
                    i = e;
                }
                if Instant::now() > self.until {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
        }
    }
    pub fn run(&mut self, s: &Scenario) -> Scenario {
        let mut cur = s.clone();
        if cur.sched.policy != 0 {
            // no preemption at all?
            self.adopt(&mut cur, |n| n.sched = Sched::default());
        }
        for round in 0..3 {
            let before = cur.clone();
            for t in 0..cur.tasks.len() {
                if cur.tasks.iter().filter(|t| !t.is_empty()).count() > 1 {
                    self.adopt(&mut cur, |n| n.tasks[t].clear());
                }
            }
            if cur.per_round == 0 {
                for t in 0..cur.tasks.len() {
                    if cur.tasks[t].len() > 1 {
                        self.ddmin(&mut cur, |n| &mut n.tasks[t]);
                    }
                }
            } else {
                // fewer kinds of call per round
                while cur.per_round > 1 {
                    let mut ok = false;
                    for k in 0..cur.per_round as usize {
                        ok |= self.adopt(&mut cur, |n| {
                            let p = n.per_round as usize;
                            for t in n.tasks.iter_mut() {
                                *t = t.iter().enumerate().filter(|(i, _)| i % p != k).map(|(_, s)| s.clone()).collect();
                            }
                            n.per_round -= 1;
                        });
                        if ok {
                            break;
                        }
                    }
                    if !ok {
                        break;
                    }
                }
            }
            if let Some(k) = cur.tracker.clone() {
                for t in 0..k.events.len() {
                    self.ddmin(&mut cur, |n| &mut n.tracker.as_mut().unwrap().events[t]);
                    let m = cur.tracker.as_ref().unwrap().events[t].len();
                    for e in 0..m {
                        self.adopt(&mut cur, |n| n.tracker.as_mut().unwrap().events[t][e].faults = Faults::default());
                        self.ddmin(&mut cur, |n| &mut n.tracker.as_mut().unwrap().events[t][e].data);
                    }
                }
            }
            if cur.store.is_some() {
                self.ddmin(&mut cur, |n| &mut n.store.as_mut().unwrap().recs);
                self.adopt(&mut cur, |n| n.store.as_mut().unwrap().crash_after = 0);
                for k in 0..cur.store.as_ref().unwrap().recs.len() {
                    self.ddmin(&mut cur, |n| &mut n.store.as_mut().unwrap().recs[k].faults);
                    self.ddmin(&mut cur, |n| &mut n.store.as_mut().unwrap().recs[k].reads);
                    self.adopt(&mut cur, |n| n.store.as_mut().unwrap().recs[k].vary = 0);
                    self.ddmin(&mut cur, |n| &mut n.store.as_mut().unwrap().recs[k].op.dmg);
                    self.adopt(&mut cur, |n| n.store.as_mut().unwrap().recs[k].pretty = false);
                }
            }
            // faults
            for t in 0..cur.tasks.len() {
                if cur.per_round != 0 {
                    self.adopt(&mut cur, |n| n.tasks[t].iter_mut().for_each(|s| s.faults = Faults::default()));
                    continue;
                }
                for k in 0..cur.tasks[t].len() {
                    if cur.tasks[t][k].faults.is_none() {
                        continue;
                    }
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults = Faults::default());
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults.alloc = None);
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults.log_panic = None);
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults.stderr = None);
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults.log_level.clear());
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults.log_slow.clear());
                    self.adopt(&mut cur, |n| n.tasks[t][k].faults.log_reenter.clear());
                    self.ddmin(&mut cur, |n| &mut n.tasks[t][k].faults.clock);
                }
            }
            // what each distinct operation needs
            let mut ops: Vec<OpSpec> = vec![];
            for st in cur.tasks.iter().flatten() {
                if !ops.contains(&st.op) {
                    ops.push(st.op.clone());
                }
            }
            let each = |n: &mut Scenario, from: &OpSpec, to: &OpSpec| {
                for st in n.tasks.iter_mut().flatten() {
                    if st.op == *from {
                        st.op = to.clone();
                    }
                }
            };
            for mut op in ops {
                let mut i = 0;
                while i < op.dmg.len() {
                    let mut to = op.clone();
                    to.dmg.remove(i);
                    if self.adopt(&mut cur, |n| each(n, &op, &to)) {
                        op = to;
                    } else {
                        i += 1;
                    }
                }
                for b in 0..4 {
                    if op.diag & (1 << b) != 0 {
                        let mut to = op.clone();
                        to.diag &= !(1 << b);
                        if self.adopt(&mut cur, |n| each(n, &op, &to)) {
                            op = to;
                        }
                    }
                }
                if round == 0 {
                    let ls: Vec<String> = labels(&op).into_iter().filter(|l| op.over.get(l) != Some(&0)).collect();
                    // all at once, halves, then one by one
                    let mut chunk = ls.len().max(1);
                    while chunk >= 1 && Instant::now() < self.until {
                        for c in ls.chunks(chunk) {
                            let mut to = op.clone();
                            for l in c {
                                to.over.insert(l.clone(), 0);
                            }
                            if to != op && self.adopt(&mut cur, |n| each(n, &op, &to)) {
                                op = to;
                            }
                        }
                        if chunk == 1 {
                            break;
                        }
                        chunk = chunk.div_ceil(4);
                    }
                }
            }
            // environment
            let d = Env::default();
            self.adopt(&mut cur, |n| n.env = d.clone());
            for f in [
                (|n, d| n.entropy = d.entropy) as fn(&mut Env, &Env),
                |n, d| n.addr = d.addr,
                |n, d| n.fake_env = d.fake_env,
                |n, d| n.cpus = d.cpus,
                |n, d| n.poison = d.poison,
                |n, d| n.lifo = d.lifo,
                |n, d| {
                    n.ns_per_kstep = d.ns_per_kstep;
                    n.mono0 = d.mono0;
                    n.real0 = d.real0
                },
                |n, d| n.log_level = d.log_level,
                |n, d| n.spurious = d.spurious,
                |n, d| n.envs = d.envs,
            ] {
                let mut e = cur.env.clone();
                f(&mut e, &d);
                self.adopt(&mut cur, |n| n.env = e);
            }
            // schedule: from seeded to explicit, then fewer switches
            if matches!(cur.sched.policy, 1 | 2 | 4) {
                let o = self.shm.run(&cur, ExecOpts { record: true, ..opts(self.prop) });
                if o.fatal.is_none() {
                    self.adopt(&mut cur, |n| n.sched = Sched { policy: 3, expl: o.expl.clone(), nat: o.nat.clone(), ..Default::default() });
                }
            }
            if cur.sched.policy == 3 {
                self.ddmin(&mut cur, |n| &mut n.sched.expl);
            }
            if cur == before || Instant::now() > self.until {
                break;
            }
        }
        cur
    }
}
