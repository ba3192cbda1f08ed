//! Executes plans in forked children and collects what happened.
use crate::hist::{Ev, Res};
use crate::os::{self, Shared};
use crate::plan::*;
use crate::world::{run_epoch, EpochCtx};
use std::ffi::CString;

/// the server panicked before it was up
pub const ST_NOSTART: u32 = 90;
/// not one of the simulator's own
pub fn server_panic(msg: &str) -> bool { !msg.contains(" at src/") }

pub struct EpochOut {
    pub evs: Vec<Ev>,
    pub status: u32,
    pub sig: i32,
    pub devs: Vec<os::Dev>,
    pub dev_overflow: bool,
    pub stats: Stats,
    pub hits: Vec<u32>,
    pub end_now: u64,
    pub real_off: i64,
    pub torn_wall: bool,
}
#[derive(Clone, Default, Debug, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub epochs: u64,
    pub sim_ns: u64,
    pub yields: u64,
    pub switches: u64,
    pub deviations: u64,
    pub stalls: u64,
    pub stall_ns: u64,
    pub io_ops: u64,
    pub disk_write_errors: u64,
    pub disk_open_errors: u64,
    pub disk_other_errors: u64,
    #[serde(default)]
    pub accept_errors: u64,
    #[serde(default)]
    pub http_requests: u64,
    pub short_writes: u64,
    pub torn_writes_at_crash: u64,
    pub clock_jumps: u64,
    pub targets_fired: u64,
    pub crashes_at_io: u64,
    pub crashes_at_time: u64,
    pub crashes_at_code_point: u64,
    pub operations: u64,
    pub connections: u64,
    pub connections_cut: u64,
    pub pushes: u64,
    pub deadlock_ends: u64,
    pub horizon_ends: u64,
    pub inconclusive: u64,
    pub threads: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        macro_rules! a { ($($f:ident),*) => { $( self.$f += o.$f; )* } }
        a!(runs, epochs, sim_ns, yields, switches, deviations, stalls, stall_ns, io_ops, disk_write_errors, disk_open_errors,
           disk_other_errors, accept_errors, http_requests, short_writes, torn_writes_at_crash, clock_jumps, targets_fired, crashes_at_io, crashes_at_time,
           crashes_at_code_point, operations, connections, connections_cut, pushes, deadlock_ends, horizon_ends, inconclusive, threads);
    }
}

pub struct RunOut {
    pub epochs: Vec<EpochOut>,
    /// digest over the full recorded history (times included)
    pub digest: u64,
    /// digest over results only
    pub behaviour: u64,
    pub sched_hash: u64,
    pub stats: Stats,
    /// something outside the simulation went wrong; nothing can be concluded
    pub inconclusive: Option<String>,
    pub files: Vec<(String, String)>,
}

pub fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
}

fn cstr(s: &str) -> CString { CString::new(s).unwrap() }

pub fn wipe_dir(path: &str, base: &str) {
    // only ever below our own scratch directory
    assert!(path.starts_with(base) && base.contains("/nexosim-") && path.len() > base.len());
    let _ = std::fs::remove_dir_all(path);
}

/// names and contents that must stay untouched next to the data directory
pub const CANARIES: &[&str] = &["canary", "data2/canary", "x.db", "config.json", "groups.log", "1.log"];

pub fn run_plan(plan: &Plan, base: &str, sh: *mut Shared, keep: bool) -> RunOut {
    let root = format!("{}/run", base);
    wipe_dir(&root, base);
    std::fs::create_dir_all(format!("{}/data", root)).expect("scratch");
    std::fs::create_dir_all(format!("{}/data2", root)).expect("scratch");
    for c in CANARIES { std::fs::write(format!("{}/{}", root, c), b"canary").expect("canary"); }
    unsafe {
        for p in ["", "/data", "/data2"] {
            let c = cstr(&format!("{}{}", root, p));
            libc::chown(c.as_ptr(), 65534, 65534);
        }
        for p in CANARIES { let c = cstr(&format!("{}/{}", root, p)); libc::chown(c.as_ptr(), 65534, 65534); }
    }
    let mut out = RunOut { epochs: vec![], digest: 0xcbf2_9ce4_8422_2325, behaviour: 0xcbf2_9ce4_8422_2325, sched_hash: 0, stats: Stats::default(), inconclusive: None, files: vec![] };
    out.stats.runs = 1;
    let mut start = 0u64;
    let mut real_off = 0i64;
    let mut seen_q: Vec<(String, String)> = vec![];
    for (k, ep) in plan.epochs.iter().enumerate() {
        os::reset_shared(sh);
        unsafe { os::SH = sh; }
        let ctx = EpochCtx {
            ep: k as u32, start,
            real_base: 1_700_000_000_000_000_000,
            real_off,
            root: root.clone(),
            seen_q: seen_q.clone(),
            entropy: plan.seed.wrapping_mul(0x9e37_79b9).wrapping_add(k as u64 * 77 + 5),
        };
        let pid = unsafe { libc::fork() };
        if pid == 0 { run_epoch(plan, ctx); }
        if pid < 0 { out.inconclusive = Some("fork failed".into()); break; }
        let (st, timed_out) = wait_child(pid, 60_000);
        let s = unsafe { &*sh };
        let sig = if timed_out { 0 } else if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        let raw = &s.hist[..s.hist_len];
        let mut evs: Vec<Ev> = vec![];
        for l in raw.split(|b| *b == b'\n') {
            if l.is_empty() { continue; }
            match serde_json::from_slice::<Ev>(l) { Ok(e) => evs.push(e), Err(_) => { if sig == 0 { out.inconclusive = Some("history unreadable".into()); } } }
        }
        fnv(&mut out.digest, raw);
        out.sched_hash = out.sched_hash.rotate_left(9) ^ s.sched_hash;
        let mut status = s.status;
        if timed_out { out.inconclusive = Some("wall clock limit".into()); status = os::ST_HARNESS; }
        else if status == os::ST_RUNNING && sig == 0 && evs.iter().any(|e| matches!(e, Ev::Panic { msg, .. } if server_panic(msg))) && !evs.iter().any(|e| matches!(e, Ev::Ready { .. })) { status = ST_NOSTART; }
        else if status == os::ST_RUNNING && sig == 0 { out.inconclusive = Some(format!("child exit {}", libc::WEXITSTATUS(st))); status = os::ST_HARNESS; }
        else if status == os::ST_HARNESS { out.inconclusive = Some("harness limit".into()); }
        else if status == os::ST_STEPS { out.inconclusive = Some("step limit".into()); }
        else if sig == libc::SIGXCPU || sig == libc::SIGKILL { out.inconclusive = Some(format!("signal {}", sig)); }
        let mut stx = Stats { epochs: 1, sim_ns: s.now.saturating_sub(start), yields: s.yields, switches: s.switches, deviations: s.n_dev as u64, stalls: s.stalls, stall_ns: s.stall_ns,
            io_ops: s.io_ops, disk_write_errors: s.fault_write, disk_open_errors: s.fault_open, disk_other_errors: s.fault_other, accept_errors: s.fault_accept, short_writes: s.short_writes,
            torn_writes_at_crash: s.torn, clock_jumps: s.clock_jumps, targets_fired: s.targets_fired, threads: s.threads as u64, ..Default::default() };
        match s.last_crash_kind { 1 => stx.crashes_at_io = 1, 2 => stx.crashes_at_time = 1, 3 => stx.crashes_at_code_point = 1, _ => {} }
        match status { os::ST_DEADLOCK => stx.deadlock_ends = 1, os::ST_HORIZON => stx.horizon_ends = 1, _ => {} }
        for e in &evs {
            match e {
                Ev::Inv { op, .. } => { stx.operations += 1; if matches!(op, Op::Web(_) | Op::Http { .. } | Op::HPage { .. }) { stx.http_requests += 1; } if matches!(op, Op::Close | Op::Reset | Op::HalfClose) { stx.connections_cut += 1; } }
                Ev::Ident { .. } => stx.connections += 1,
                Ev::Push { .. } => stx.pushes += 1,
                Ev::Ret { r, c, .. } => {
                    if let Ok(b) = serde_json::to_vec(r) { if !matches!(r, Res::Joined { .. }) { fnv(&mut out.behaviour, &b); fnv(&mut out.behaviour, &c.to_le_bytes()); } }
                    if let Res::Msgs(_) = r {}
                }
                _ => {}
            }
        }
        // remember queue message ids for later epochs
        let mut cur: Vec<((u32, u32), String)> = vec![];
        for e in &evs {
            match e {
                Ev::Inv { c, i, op: Op::QConsume { q, .. } | Op::QPop { q } | Op::QPeek { q, .. }, .. } => cur.push(((*c, *i), q.clone())),
                Ev::Ret { c, i, r: Res::Msgs(m) | Res::Peek { msgs: m, .. }, .. } => {
                    if let Some(x) = cur.iter().find(|x| x.0 == (*c, *i)) {
                        for y in m { if seen_q.len() < 4000 && !seen_q.iter().any(|z| z.1 == y.id) { seen_q.push((x.1.clone(), y.id.clone())); } }
                    }
                }
                _ => {}
            }
        }
        out.stats.add(&stx);
        let hits = s.hits[..=(s.n_guards.max(unsafe { os::N_GUARDS }) as usize).min(os::GUARD_CAP - 1)].to_vec();
        out.epochs.push(EpochOut { evs, status, sig, devs: s.devs[..s.n_dev].to_vec(), dev_overflow: s.dev_overflow != 0, stats: stx, hits, end_now: s.now, real_off: s.real_off, torn_wall: timed_out });
        real_off = s.real_off;
        start = s.now + ep.down_ns;
        if out.inconclusive.is_some() { break; }
        // a run ends when the server neither finished nor was crashed by us
        if status == ST_NOSTART && crate::od::bad_start(plan, k) { continue; }
        if status != os::ST_DONE && status != os::ST_CRASH { break; }
    }
    for c in CANARIES {
        match std::fs::read(format!("{}/{}", root, c)) {
            Ok(b) if b == b"canary" => {}
            _ => out.files.push(("canary".into(), c.to_string())),
        }
    }
    let mut top: Vec<String> = vec![];
    if let Ok(d) = std::fs::read_dir(&root) { for e in d.flatten() { top.push(e.file_name().to_string_lossy().to_string()); } }
    for t in top {
        if !["data", "data2", "canary", "x.db", "config.json", "groups.log", "1.log"].contains(&t.as_str()) { out.files.push(("extra".into(), t)); }
    }
    if out.inconclusive.is_some() { out.stats.inconclusive = 1; }
    if !keep { wipe_dir(&root, base); }
    out
}

fn wait_child(pid: i32, ms: i32) -> (i32, bool) {
    unsafe {
        let pfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        let mut timed = false;
        if pfd >= 0 {
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            let r = os::sys(libc::SYS_poll, &mut p as *mut _ as usize, 1, ms as usize, 0, 0, 0);
            if r == 0 { timed = true; libc::kill(pid, libc::SIGKILL); }
            os::sys(libc::SYS_close, pfd as usize, 0, 0, 0, 0, 0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR { break; }
        }
        (st, timed)
    }
}
