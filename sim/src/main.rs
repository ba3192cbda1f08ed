//! Deterministic simulation of the nexo server with fault injection.
#![allow(invalid_runtime_symbol_definitions, static_mut_refs, dead_code)]
mod alloc;
mod client;
mod gen;
mod guards;
mod hist;
mod hview;
mod mini;
mod olin;
mod opp;
mod od;
mod oq;
mod ost;
mod ot;
mod oracle;
mod ov;
mod scen_v;
mod os;
mod plan;
mod runner;
mod scen;
mod scen_b;
mod scen_p;
mod scen_s;
mod scen_t;
mod search;
mod server;
mod web;
mod world;

use std::time::Instant;

fn usage() -> ! {
    eprintln!("usage: nexosim check PROP [--tier quick|thorough] [--seed N] [--verif DIR] [--secs S] [--runs N] | replay FILE | one PROP K [SEED] | selftest [N]");
    std::process::exit(2)
}

/// Scratch directory, removed when dropped.
pub struct Scratch(pub String);
impl Scratch {
    pub fn new() -> Scratch {
        let shm = std::path::Path::new("/dev/shm");
        let root = if shm.is_dir() && std::fs::write("/dev/shm/.nexosim-probe", b"x").is_ok() { "/dev/shm".to_string() } else { "/tmp".to_string() };
        let _ = std::fs::remove_file("/dev/shm/.nexosim-probe");
        let p = format!("{}/nexosim-{:08}", root, std::process::id());
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        unsafe { let c = std::ffi::CString::new(p.clone()).unwrap(); libc::chmod(c.as_ptr(), 0o755); }
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.contains("/nexosim-") { let _ = std::fs::remove_dir_all(&self.0); }
    }
}

/// addresses of statics are hashed by lock tables: keep them the same in every process if we may
fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("NEXOSIM_REEXEC").is_some() { return; }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 { return; }
        std::env::set_var("NEXOSIM_REEXEC", "1");
        use std::os::unix::process::CommandExt;
        let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let verif = opt("--verif").unwrap_or_else(|| "/verif".into());
    if std::env::var("NEXOSIM_IO").is_ok() { unsafe { os::DEBUG_IO = true; } }
    if std::env::var("NEXOSIM_HANG").is_ok() { unsafe { os::DEBUG_HANG = true; } }
    if let Ok(f) = std::env::var("NEXOSIM_TRC") { unsafe {
        use std::os::fd::AsRawFd;
        os::TSTOP = std::env::var("NEXOSIM_STOP").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let f = std::fs::OpenOptions::new().create(true).read(true).write(true).open(f).unwrap(); f.set_len(40_000_000).unwrap();
        os::TRC = libc::mmap(std::ptr::null_mut(), 40_000_000, 3, 1, f.as_raw_fd(), 0) as *mut u32;
    } }
    no_aslr();
    guards::classify();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = a.get(1).cloned().unwrap_or_else(|| usage());
            let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs = opt("--secs").and_then(|s| s.parse().ok());
            let runs = opt("--runs").and_then(|s| s.parse().ok());
            search::check(&prop, &tier, seed, &verif, secs, runs, Instant::now())
        }
        Some("replay") => search::replay(a.get(1).unwrap_or_else(|| usage()), a.iter().any(|x| x == "-v")),
        Some("one") => {
            let prop = a.get(1).cloned().unwrap_or_else(|| usage());
            let k: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            search::one(&prop, seed, k, opt("--save"))
        }
        Some("guard") => { for x in &a[1..] { let g: u32 = x.parse().unwrap_or(0); println!("{} kind {} {}", g, guards::kind(g), guards::name(g)); } 0 }
        Some("selftest") => search::selftest(a.get(1).and_then(|s| s.parse().ok()).unwrap_or(40), opt("--prop")),
        Some("sweep") => search::sweep(a.get(1).and_then(|s| s.parse().ok()).unwrap_or(5), opt("--prop"), opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1)),
        _ => usage(),
    };
    std::process::exit(code)
}
