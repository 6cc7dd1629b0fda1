#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod cfg;
mod driver;
mod ffi;
mod gen;
mod logger;
mod minim;
mod obs;
mod ops;
mod props;
mod scen;
mod signal;
mod store;
mod tracker;
mod wf;
mod zygote;

#[global_allocator]
static HEAP: ffi::Heap = ffi::Heap;

fn main() {
    // one fixed process image: no address randomisation, fixed environment and arguments in memory
    let args: Vec<String> = std::env::args().collect();
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong);
            use std::os::unix::process::CommandExt;
            let mut c = std::process::Command::new("/proc/self/exe");
            c.args(&args[1..]);
            c.env_clear();
            c.env("SIM_REEXEC", "1");
            for k in ["VERIF_SEED", "VERIF_TIER", "SIM_RUNS", "SIM_WORKERS", "SIM_WALL", "SIM_DIR", "SIM_KEEP", "SIM_LIST", "SIM_COVDUMP", "SIM_HASHES", "SIM_FROM"] {
                if let Ok(v) = std::env::var(k) {
                    c.env(k, v);
                }
            }
            let e = c.exec();
            eprintln!("sim: re-exec failed: {e}");
            std::process::exit(3);
        }
    }
    std::alloc::set_alloc_error_hook(ffi::oom_hook);
    std::panic::set_hook(Box::new(|i| {
        let _p = ffi::Paused::new();
        if i.payload().downcast_ref::<ffi::Injected>().is_some() {
            return;
        }
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file().replace("/repo/", ""), l.line())).unwrap_or_default();
        let lib = l.contains("src/") && !l.starts_with("src/main.rs");
        let _ = lib;
        let s = format!("{l}: {m}");
        if std::env::var_os("SIM_KEEP").is_some() {
            eprintln!("panic: {s}");
        }
        let _ = ops::PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
    }));
    log::set_logger(&logger::LOGGER).expect("logger");
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&args[2]),
        Some("replay") => driver::replay(&args[2]),
        Some("determinism") => driver::determinism(),
        Some("show") => driver::show(&args[2], args[3].parse().unwrap()),
        Some("op") => driver::op(&args[2]),
        Some("scale") => driver::scale(args.get(2).map_or(1, |s| s.parse().unwrap())),
        Some("prof") => driver::prof(args.get(2).map_or(200, |s| s.parse().unwrap())),
        _ => {
            eprintln!("usage: sim check ID | replay FILE | determinism | show ID INDEX | prof N | op JSON | scale SEED");
            2
        }
    };
    std::process::exit(rc);
}
