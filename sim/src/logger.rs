//! The simulated logging sink.
use crate::ffi::*;
use crate::ops::LOGPLAN;
use log::{LevelFilter, Log, Metadata, Record};
use std::fmt::Write;

pub struct SimLog;
pub static LOGGER: SimLog = SimLog;
pub fn level(l: u8) -> LevelFilter {
    [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug, LevelFilter::Trace][(l % 6) as usize]
}
struct H(u64);
impl Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
impl Log for SimLog {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn flush(&self) {}
    fn log(&self, r: &Record) {
        if unsafe { rt_in_lib() } == 0 {
            return;
        }
        let n = unsafe { rt_log_point() };
        let p = Paused::new();
        let mut h = H(0xcbf29ce484222325);
        let _ = h.write_fmt(*r.args());
        unsafe { rt_event(h.0) };
        enum Act {
            None,
            Panic,
            Reenter,
        }
        let act = LOGPLAN.with(|lp| {
            let mut lp = lp.borrow_mut();
            if lp.busy {
                return Act::None;
            }
            let mut fired: Vec<&str> = vec![];
            for (at, l) in &lp.level {
                if *at == n {
                    log::set_max_level(level(*l));
                    fired.push("log_level_change");
                }
            }
            for (at, ns) in &lp.slow {
                if *at == n {
                    unsafe { rt_advance(*ns) };
                    fired.push("log_sink_stall");
                }
            }
            let mut a = Act::None;
            if lp.reenter.contains(&n) {
                fired.push("log_sink_reentry");
                a = Act::Reenter;
            }
            if lp.panic_at == n && !std::thread::panicking() {
                fired.push("log_sink_panic");
                a = Act::Panic;
            }
            for f in fired {
                *lp.fired.entry(f.into()).or_default() += 1;
            }
            a
        });
        match act {
            Act::None => {}
            Act::Panic => {
                drop(p);
                std::panic::panic_any(Injected("logger panic"));
            }
            Act::Reenter => {
                // a sink that calls back into the library on the same thread
                LOGPLAN.with(|lp| lp.borrow_mut().busy = true);
                let x = crate::signal::synth(1, 8000, 6000, 120.0, 3, false, 7);
                let run = || {
                    let mut c = stratum_dsp::AnalysisConfig::default();
                    c.key_stft_frame_size = 1024;
                    let r = stratum_dsp::analyze_audio(&x, 8000, c);
                    let k = stratum_dsp::features::key::KeyTemplates::new();
                    (r.map(|r| format!("{:?}", crate::obs::canon(&r))), k.get_template(3).to_vec())
                };
                let a = format!("{:?}", std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).map_err(|_| "panic"));
                LOGPLAN.with(|lp| {
                    let mut lp = lp.borrow_mut();
                    lp.busy = false;
                    let want = REENTRY_REF.get();
                    if let Some(w) = want {
                        if *w != a {
                            lp.reenter_bad.push(format!("reentry: a call made from the log sink returned {} instead of {}", cut(&a), cut(w)));
                        }
                    }
                });
            }
        }
    }
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
pub static REENTRY_REF: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// What the nested call returns on its own (computed in a forked child).
pub fn reentry_reference() -> String {
    let x = crate::signal::synth(1, 8000, 6000, 120.0, 3, false, 7);
    let mut c = stratum_dsp::AnalysisConfig::default();
    c.key_stft_frame_size = 1024;
    let run = || {
        let r = stratum_dsp::analyze_audio(&x, 8000, c);
        let k = stratum_dsp::features::key::KeyTemplates::new();
        (r.map(|r| format!("{:?}", crate::obs::canon(&r))), k.get_template(3).to_vec())
    };
    format!("{:?}", std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).map_err(|_| "panic"))
}
