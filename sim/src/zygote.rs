//! One forked child per simulated run; the parent collects its report from shared memory.
use crate::ffi::*;
use crate::scen::*;
use std::collections::HashMap;

pub struct Shm {
    p: *mut u8,
    cap: usize,
}
const FATAL: usize = 4096;
pub const COVCAP: usize = 1 << 20;
pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
impl Shm {
    pub fn new(cov: *mut u8) -> Self {
        let cap = 64 << 20;
        let p = map_shared(cap);
        unsafe {
            rt_set_shm(p as *mut _, FATAL as u64, cov);
            rt_prepare();
        }
        Shm { p, cap }
    }
    /// Forks, runs `f` in the child, returns its bytes or how it died.
    pub fn fork<F: FnOnce() -> Vec<u8>>(&self, f: F, wall_s: u64) -> Result<Vec<u8>, String> {
        unsafe {
            *self.p = 0;
            *(self.p.add(FATAL) as *mut u64) = u64::MAX;
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let v = f();
                let n = v.len().min(self.cap - FATAL - 8);
                std::ptr::copy_nonoverlapping(v.as_ptr(), self.p.add(FATAL + 8), n);
                *(self.p.add(FATAL) as *mut u64) = n as u64;
                libc::_exit(0);
            }
            let t0 = std::time::Instant::now();
            let mut st = 0;
            loop {
                let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
                if r == pid {
                    break;
                }
                let el = t0.elapsed();
                if el.as_secs() > wall_s {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    return Err("WALL-TIMEOUT|".into());
                }
                let us = if el.as_millis() < 2 { 20 } else if el.as_millis() < 50 { 100 } else { 500 };
                let ts = libc::timespec { tv_sec: 0, tv_nsec: us * 1000 };
                libc::nanosleep(&ts, std::ptr::null_mut());
            }
            if libc::WIFSIGNALED(st) {
                return Err(format!("SIGNAL|process killed by signal {}", libc::WTERMSIG(st)));
            }
            let code = libc::WEXITSTATUS(st);
            if code == 77 {
                let s = std::ffi::CStr::from_ptr(self.p as *const _).to_string_lossy().to_string();
                return Err(s);
            }
            let n = *(self.p.add(FATAL) as *const u64);
            if code != 0 || n == u64::MAX {
                return Err(format!("EXIT|process exited with status {code}"));
            }
            Ok(std::slice::from_raw_parts(self.p.add(FATAL + 8), n as usize).to_vec())
        }
    }
    pub fn run(&self, s: &Scenario, o: ExecOpts) -> RunOut {
        match self.fork(|| serde_json::to_vec(&execute(s, o)).expect("json"), 280) {
            Ok(b) => serde_json::from_slice(&b).expect("child report"),
            Err(e) => RunOut { fatal: Some(e), ..Default::default() },
        }
    }
}

/// Solo references: one call, alone, in a fresh process, in the benign environment.
pub struct Refs<'a> {
    pub shm: &'a Shm,
    pub opts: ExecOpts,
    cache: HashMap<String, RunOut>,
    pub evals: u64,
}
impl<'a> Refs<'a> {
    pub fn new(shm: &'a Shm) -> Self {
        Refs { shm, opts: ExecOpts::default(), cache: HashMap::new(), evals: 0 }
    }
    pub fn get(&mut self, op: &crate::ops::OpSpec) -> RunOut {
        let k = serde_json::to_string(op).unwrap();
        if let Some(r) = self.cache.get(&k) {
            return r.clone();
        }
        if self.cache.len() > 4000 {
            self.cache.clear();
        }
        let s = Scenario { tasks: vec![vec![Step { op: op.clone(), faults: Default::default() }]], ..Default::default() };
        let r = self.shm.run(&s, self.opts);
        self.evals += 1;
        self.cache.insert(k, r.clone());
        r
    }
    pub fn clear(&mut self) {
        self.cache.clear();
    }
}
