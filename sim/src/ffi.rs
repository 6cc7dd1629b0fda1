//! Bindings to the simulation runtime (rt/rt.c).
use std::os::raw::c_char;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct RtCfg {
    pub sched_seed: u64,
    pub entropy: u64,
    pub addr_seed: u64,
    pub env_seed: u64,
    pub policy: u32,
    pub cpus: u32,
    pub qmin: u64,
    pub qmax: u64,
    pub pct_total: u64,
    pub pct_d: u32,
    pub max_switches: u32,
    pub w_alloc: u32,
    pub w_atomic: u32,
    pub w_log: u32,
    pub w_sync: u32,
    pub poison: u32,
    pub lifo: u32,
    pub ns_per_kstep: u64,
    pub mono0: u64,
    pub real0: u64,
    pub call_limit: u64,
    pub run_limit: u64,
    pub mem_limit: u64,
    pub spurious: u32,
    pub fake_env: u32,
    pub expl_n: u64,
    pub expl: *const u64,
    pub nat_n: u64,
    pub nat: *const u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct RtEvent {
    pub at: u64,
    pub kind: u32,
    pub pad: u32,
    pub arg: i64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct RtPlan {
    pub fail_alloc_at: i64,
    pub fail_alloc_min: i64,
    pub stderr_fault_at: i64,
    pub stderr_errno: i64,
    pub nev: u64,
    pub ev: *const RtEvent,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct RtStats {
    pub steps: u64,
    pub allocs: u64,
    pub frees: u64,
    pub logs: u64,
    pub peak: u64,
    pub live: u64,
    pub stderr_writes: u64,
    pub stderr_bytes: u64,
    pub clock_reads: u64,
    pub t0_mono: u64,
    pub t1_mono: u64,
    pub getrandom_calls: u64,
    pub env_reads: u64,
    pub fired_alloc: u64,
    pub fired_stderr: u64,
    pub fired_clock: u64,
    pub call_id: u64,
    pub gstep0: u64,
    pub gstep1: u64,
    pub clk_first: u64,
    pub clk_last: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct RtRun {
    pub switches: u64,
    pub preempts: u64,
    pub naturals: u64,
    pub spurious: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub timeouts: u64,
    pub tasks: u64,
    pub total_steps: u64,
    pub sched_hash: u64,
    pub event_hash: u64,
    pub mono_ns: u64,
    pub fired_fail_alloc: u64,
    pub spawned: u64,
    pub yields: u64,
}
extern "C" {
    pub fn rt_alloc(size: u64, align: u64, zero: i32) -> *mut u8;
    pub fn rt_free(p: *mut u8);
    pub fn rt_guard_pc(g: u32, entry: *mut u32) -> u64;
    pub fn rt_set_shm(fatal: *mut c_char, cap: u64, cov: *mut u8);
    pub fn rt_guards() -> u32;
    pub fn rt_prepare();
    pub fn rt_begin(c: *const RtCfg);
    pub fn rt_end(o: *mut RtRun);
    pub fn rt_rec(r: *mut *const u64, n: *mut *const u64, nn: *mut u64) -> u64;
    pub fn rt_call_begin(p: *const RtPlan, limit: u64);
    pub fn rt_call_end(o: *mut RtStats);
    pub fn rt_lib_live() -> i64;
    pub fn rt_call_live(cid: u64) -> i64;
    pub fn rt_pause();
    pub fn rt_resume();
    pub fn rt_in_lib() -> i32;
    pub fn rt_log_point() -> u64;
    pub fn rt_advance(ns: u64);
    pub fn rt_event(v: u64);
}

pub struct Heap;
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        rt_alloc(l.size() as u64, l.align() as u64, 0)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        rt_alloc(l.size() as u64, l.align() as u64, 1)
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: std::alloc::Layout) {
        rt_free(p)
    }
}

/// A thread that is already unwinding (or formatting its panic message) gets no second failure: the
/// language itself ends the process there, whatever the library does.
#[no_mangle]
pub extern "C" fn sim_panicking() -> libc::c_int {
    std::thread::panicking() as libc::c_int
}

/// Payload of a panic injected by the simulator.
#[derive(Debug, Clone)]
pub struct Injected(pub &'static str);

pub fn oom_hook(l: std::alloc::Layout) {
    if unsafe { rt_in_lib() } != 0 {
        std::panic::panic_any(Injected("allocation failure"));
    }
    let _ = l;
    unsafe { libc::_exit(78) };
}

pub struct Paused;
impl Paused {
    pub fn new() -> Self {
        unsafe { rt_pause() };
        Paused
    }
}
impl Drop for Paused {
    fn drop(&mut self) {
        unsafe { rt_resume() }
    }
}
