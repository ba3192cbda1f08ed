//! The simulated operating system.
//!
//! Defines the libc symbols through which the process under test meets
//! nondeterminism (threads, futexes, clocks, sleeping, readiness, randomness,
//! files, sockets).  While `ACTIVE`, only the thread holding the baton runs;
//! who gets it next is decided here from the seeded scheduler (or from an
//! explicit list of deviations when replaying).
#![allow(static_mut_refs, non_camel_case_types)]

use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, pthread_t, size_t, ssize_t, timespec, timeval};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

// ---------------------------------------------------------------- raw syscalls
#[inline(always)]
pub unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}

// ---------------------------------------------------------------- plan types
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Switch,
    Stall(u64),
    Crash,
}
/// Do `act` when the `nth` hit of guard `guard` happens (after arming).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Target {
    pub guard: u32,
    pub nth: u32,
    pub act: Act,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dev {
    pub yc: u64,
    pub tid: u32, // >= STALL_BASE: stall current for ns
    pub ns: u64,
}
pub const STALL_BASE: u32 = 1 << 30;
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// switch with probability p_sync/65536 at synchronisation points, and at
    /// instrumented basic blocks with mean gap `gap` (0: never)
    Random { p_sync: u32, gap: u32 },
    /// strict random priorities, `points` change points (yield counts)
    Pct { points: Vec<u64> },
    /// default choices plus exactly these deviations
    Explicit,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub policy: Policy,
    pub targets: Vec<Target>,
    #[serde(default)]
    pub devs: Vec<Dev>,
    /// virtual nanoseconds that pass per yield point
    pub dt: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum CrashAt {
    Never,
    /// at the nth mutating file operation; a write first writes permille of its bytes
    Io { n: u64, permille: u32 },
    Time { ns: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DiskFault {
    pub from: u64,
    pub to: u64,
    /// bit set of file classes
    pub classes: u32,
    /// bit set of operations
    pub ops: u32,
    pub permille: u32,
    pub errno: i32,
    /// write a part first / return a short count
    pub short: bool,
    /// the first of these operations go well
    #[serde(default)]
    pub skip: u32,
    /// so many fail at most (0: no limit)
    #[serde(default)]
    pub count: u32,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct ClockJump {
    pub at: u64,
    pub delta: i64,
}

pub const C_QUEUE: u32 = 1;
pub const C_STREAM: u32 = 2;
pub const C_GROUPS: u32 = 4;
pub const C_RETAINED: u32 = 8;
pub const C_OTHER: u32 = 16;

pub const O_WRITE: u32 = 1;
pub const O_OPEN: u32 = 2;
pub const O_SYNC: u32 = 4;
pub const O_TRUNC: u32 = 8;
pub const O_RENAME: u32 = 16;
pub const O_UNLINK: u32 = 32;
pub const O_MKDIR: u32 = 64;
pub const O_READ: u32 = 128;
/// listening sockets, as far as faults are concerned
pub const C_NET: u32 = 32;
pub const O_ACCEPT: u32 = 256;

// ---------------------------------------------------------------- shared memory
pub const HIST_CAP: usize = 32 << 20;
pub const DEV_CAP: usize = 1 << 20;
pub const GUARD_CAP: usize = 1 << 16;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub hist_len: usize,
    pub n_dev: usize,
    pub dev_overflow: u32,
    pub now: u64,
    pub real_off: i64,
    pub yields: u64,
    pub switches: u64,
    pub stalls: u64,
    pub stall_ns: u64,
    pub io_ops: u64,
    pub fault_write: u64,
    pub fault_open: u64,
    pub fault_other: u64,
    pub fault_accept: u64,
    pub short_writes: u64,
    pub torn: u64,
    pub clock_jumps: u64,
    pub targets_fired: u64,
    pub spurious: u64,
    pub sched_hash: u64,
    pub escapes: u64,
    pub n_guards: u32,
    pub threads: u32,
    pub last_crash_kind: u32,
    pub hits: [u32; GUARD_CAP],
    pub devs: [Dev; DEV_CAP],
    pub hist: [u8; HIST_CAP],
}
pub const ST_RUNNING: u32 = 0;
pub const ST_DONE: u32 = 1;
pub const ST_CRASH: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_HORIZON: u32 = 4;
pub const ST_STEPS: u32 = 5;
pub const ST_HARNESS: u32 = 6;
/// the server process ended by itself
pub const ST_EXIT: u32 = 7;

pub static mut SH: *mut Shared = core::ptr::null_mut();

pub fn alloc_shared() -> *mut Shared {
    unsafe {
        let p = sys(libc::SYS_mmap, 0, core::mem::size_of::<Shared>(), (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize, usize::MAX, 0);
        assert!(p > 0, "mmap shared");
        p as *mut Shared
    }
}
pub fn reset_shared(p: *mut Shared) {
    unsafe {
        let off = core::mem::offset_of!(Shared, devs);
        let n_guards = (*p).n_guards;
        core::ptr::write_bytes(p as *mut u8, 0, off);
        (*p).n_guards = n_guards;
    }
}

// ---------------------------------------------------------------- scheduler state
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Futex(usize, u64),
    Sleep(u64),
    Stall(u64),
    Epoll(i32, u64),
    Fd(i32, i16, u64),
    Join(u32),
    Mutex(usize),
    Dead,
}
const INF: u64 = u64::MAX;
impl St {
    fn deadline(&self) -> u64 {
        match self {
            St::Futex(_, d) | St::Sleep(d) | St::Stall(d) | St::Epoll(_, d) | St::Fd(_, _, d) => *d,
            _ => INF,
        }
    }
}
struct Thread {
    go: AtomicU32,
    st: St,
    prio: u64,
    timed_out: bool,
    since: u64,
    pt: pthread_t,
}
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform in [a,b], a>=1
    pub fn logu(&mut self, a: u64, b: u64) -> u64 {
        let (la, lb) = ((a as f64).ln(), (b as f64).ln());
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let x = (la + u * (lb - la)).exp();
        (x as u64).clamp(a, b)
    }
}

struct Sim {
    th: Vec<Box<Thread>>,
    cur: usize,
    now: u64,
    real_base: u64,
    rng: Rng,
    ent: Rng,
    flt: Rng,
    sched: Sched,
    di: usize,
    pct_i: usize,
    hits: Vec<u32>,
    crash: CrashAt,
    disk: Vec<DiskFault>,
    /// per fault: operations that passed it, operations it failed
    dseen: Vec<(u32, u32)>,
    jumps: Vec<ClockJump>,
    horizon: u64,
    max_yields: u64,
    io_dirty: bool,
    io_n: u64,
    data_dir: String,
    root_dir: String,
    fds: Vec<Option<(u32, bool)>>, // class, append-tracked mtime
    deny_escape: bool,
}
pub static mut ACTIVE: bool = false;
static mut ARMED: bool = false;
static mut SIM: *mut Sim = core::ptr::null_mut();
static mut YC: u64 = 0;
static mut TICKS: u64 = 0;
static mut NEXT_YC: u64 = INF;
static mut TG: [u32; 4] = [u32::MAX; 4];
pub static mut TRC: *mut u32 = core::ptr::null_mut();
pub static mut TRN: usize = 0;
pub static mut TSTOP: usize = 0;
pub static mut DEBUG_HANG: bool = false;
static mut EXIT_KEY: libc::pthread_key_t = 0;

thread_local! { static TID: Cell<u32> = const { Cell::new(0) }; }
#[inline(always)]
fn tid() -> u32 {
    TID.with(|t| t.get())
}
#[inline(always)]
fn on() -> bool {
    unsafe { ACTIVE && tid() != 0 }
}
#[inline(always)]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

pub struct SimConfig {
    pub sched: Sched,
    pub entropy: u64,
    pub start: u64,
    pub real_base: u64,
    pub real_off: i64,
    pub crash: CrashAt,
    pub disk: Vec<DiskFault>,
    pub jumps: Vec<ClockJump>,
    pub horizon: u64,
    pub max_yields: u64,
    pub root_dir: String,
    pub data_dir: String,
}

/// Enter the simulation; the calling (only) thread becomes thread 0.
pub fn start(c: SimConfig) {
    unsafe {
        let seed = c.sched.seed;
        let mut rng = Rng::new(seed);
        let mut tg = [u32::MAX; 4];
        for (i, t) in c.sched.targets.iter().take(4).enumerate() {
            tg[i] = t.guard;
        }
        let prio = rng.next();
        let s = Box::new(Sim {
            th: vec![Box::new(Thread { go: AtomicU32::new(0), st: St::Run, prio, timed_out: false, since: 0, pt: 0 })],
            cur: 0,
            now: c.start,
            real_base: c.real_base,
            rng,
            ent: Rng::new(c.entropy),
            flt: Rng::new(c.entropy ^ 0x5555),
            sched: c.sched,
            di: 0,
            pct_i: 0,
            hits: vec![0; GUARD_CAP],
            crash: c.crash,
            dseen: vec![(0, 0); c.disk.len()],
            disk: c.disk,
            jumps: c.jumps,
            horizon: c.horizon,
            max_yields: c.max_yields,
            io_dirty: false,
            io_n: 0,
            data_dir: c.data_dir,
            root_dir: c.root_dir,
            fds: vec![None; 4096],
            deny_escape: true,
        });
        (*SH).real_off = c.real_off;
        SIM = Box::into_raw(s);
        TG = tg;
        YC = 0;
        ARMED = false;
        libc::pthread_key_create(&raw mut EXIT_KEY, Some(on_thread_exit));
        real_create();
        TID.with(|t| t.set(1));
        plan_next();
        ACTIVE = true;
    }
}
/// From here on targets, crashes and disk faults count; their times are relative to now.
pub fn arm() {
    unsafe {
        if ARMED { return; }
        let s = sim();
        let t = s.now;
        for d in s.disk.iter_mut() {
            d.from = d.from.saturating_add(t);
            d.to = d.to.saturating_add(t);
        }
        for j in s.jumps.iter_mut() { j.at += t; }
        if let CrashAt::Time { ns } = &mut s.crash { *ns += t; }
        s.horizon = s.horizon.saturating_add(t);
        for h in s.hits.iter_mut() { *h = 0; }
        ARMED = true
    }
}
pub fn arm_with_horizon(limit: u64) {
    sim().horizon = limit;
    arm();
}
pub fn armed() -> bool {
    unsafe { ARMED }
}

unsafe fn plan_next() {
    let s = sim();
    NEXT_YC = match &s.sched.policy {
        Policy::Random { gap, .. } => {
            if *gap == 0 { INF } else { YC + 1 + s.rng.below(2 * *gap as u64) }
        }
        Policy::Pct { points } => points.get(s.pct_i).copied().unwrap_or(INF),
        Policy::Explicit => s.sched.devs.get(s.di).map(|d| d.yc).unwrap_or(INF),
    };
    if let CrashAt::Time { .. } = s.crash {
        // time based crashes are checked at every synchronisation point
    }
}

unsafe fn record(yc: u64, tid: u32, ns: u64) {
    let sh = &mut *SH;
    if sh.n_dev < DEV_CAP {
        sh.devs[sh.n_dev] = Dev { yc, tid, ns };
        sh.n_dev += 1;
    } else {
        sh.dev_overflow = 1;
    }
    sh.sched_hash = (sh.sched_hash ^ yc.wrapping_mul(0x100_0000_01b3) ^ ((tid as u64) << 40) ^ ns).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17);
}

fn runnable(s: &Sim) -> usize {
    s.th.iter().filter(|t| t.st == St::Run).count()
}
fn nth_runnable(s: &Sim, mut k: usize) -> usize {
    for (i, t) in s.th.iter().enumerate() {
        if t.st == St::Run {
            if k == 0 { return i; }
            k -= 1;
        }
    }
    unreachable!()
}
fn best_prio(s: &Sim) -> usize {
    let mut b = usize::MAX;
    for (i, t) in s.th.iter().enumerate() {
        if t.st == St::Run && (b == usize::MAX || t.prio > s.th[b].prio) { b = i; }
    }
    b
}
fn default_next(s: &Sim) -> usize {
    let n = s.th.len();
    for k in 1..=n {
        let i = (s.cur + k) % n;
        if s.th[i].st == St::Run { return i; }
    }
    usize::MAX
}

pub fn end(status: u32) -> ! {
    unsafe {
        if status == ST_STEPS && DEBUG_HANG { ACTIVE = false; loop { sys(libc::SYS_pause, 0, 0, 0, 0, 0, 0); } }
        let sh = &mut *SH;
        let s = sim();
        sh.now = s.now;
        sh.yields = YC;
        sh.threads = s.th.len() as u32;
        sh.io_ops = s.io_n;
        for i in 0..GUARD_CAP { sh.hits[i] = s.hits[i]; }
        sh.status = status;
        ACTIVE = false;
        crate::hist::put(&crate::hist::Ev::End { status, t: s.now, real: realtime(), st: YC, crash: sh.last_crash_kind, stall_ns: sh.stall_ns + TICKS * s.sched.dt, sig: 0 });
        sys(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        loop {}
    }
}

unsafe fn fire_timers(s: &mut Sim) {
    let now = s.now;
    for t in s.th.iter_mut() {
        if t.st != St::Run && t.st.deadline() <= now {
            t.st = St::Run;
            t.timed_out = true;
        }
    }
}
unsafe fn apply_jumps(s: &mut Sim) {
    if !ARMED { return; }
    while let Some(j) = s.jumps.first().copied() {
        if j.at <= s.now {
            (*SH).real_off += j.delta;
            (*SH).clock_jumps += 1;
            s.jumps.remove(0);
        } else {
            break;
        }
    }
}
unsafe fn poll_fds(s: &mut Sim) {
    if !s.io_dirty { return; }
    s.io_dirty = false;
    for t in s.th.iter_mut() {
        match t.st {
            St::Epoll(fd, _) => {
                let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                if sys(libc::SYS_poll, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) > 0 {
                    t.st = St::Run;
                    t.timed_out = false;
                }
            }
            St::Fd(fd, ev, _) => {
                let mut p = libc::pollfd { fd, events: ev, revents: 0 };
                if sys(libc::SYS_poll, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) > 0 {
                    t.st = St::Run;
                    t.timed_out = false;
                }
            }
            _ => {}
        }
    }
}

unsafe fn hand_over(s: &mut Sim, next: usize, wait: bool) {
    let me = s.cur;
    if next == me { return; }
    (*SH).switches += 1;
    s.cur = next;
    let g = &s.th[next].go as *const AtomicU32;
    let my = &s.th[me].go as *const AtomicU32;
    (*g).store(1, Ordering::Release);
    sys(libc::SYS_futex, g as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    if wait { wait_go(&*my); }
}
unsafe fn wait_go(g: &AtomicU32) {
    loop {
        if g.swap(0, Ordering::Acquire) == 1 { return; }
        sys(libc::SYS_futex, g as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
    }
}

unsafe fn common_tick(s: &mut Sim) {
    YC += 1;
    TICKS += 1;
    s.now += s.sched.dt;
    if !TRC.is_null() && TRN < 10_000_000 { *TRC.add(TRN) = 0x8000_0000 | (s.cur as u32) << 28 | tid() << 24 | (s.now / 1000) as u32 & 0xff_ffff; TRN += 1; if TRN == TSTOP { loop { sys(libc::SYS_pause,0,0,0,0,0,0); } } }
    if YC > s.max_yields { end(ST_STEPS); }
    if let CrashAt::Time { ns } = s.crash {
        if ARMED && s.now >= ns { (*SH).last_crash_kind = 2; end(ST_CRASH); }
    }
    if !s.jumps.is_empty() { apply_jumps(s); }
    fire_timers(s);
    poll_fds(s);
}

/// The current thread may lose the baton here.
unsafe fn yield_point(spin: bool) {
    let s = sim();
    common_tick(s);
    let cur = s.cur;
    let next = match &s.sched.policy {
        Policy::Random { p_sync, .. } => {
            let p = if spin { 60000 } else { *p_sync };
            if (s.rng.next() & 0xffff) < p as u64 {
                let n = runnable(s);
                let k = s.rng.below(n as u64) as usize;
                nth_runnable(s, k)
            } else { cur }
        }
        Policy::Pct { .. } => {
            if spin { s.th[cur].prio >>= 1; }
            best_prio(s)
        }
        Policy::Explicit => {
            let mut n = cur;
            while let Some(d) = s.sched.devs.get(s.di) {
                if d.yc > YC { break; }
                if d.yc == YC {
                    if d.tid >= STALL_BASE {
                        let ns = d.ns;
                        s.di += 1;
                        plan_next();
                        record(YC, STALL_BASE, ns);
                        stall(ns);
                        return;
                    }
                    if let Some(t) = s.th.get(d.tid as usize) { if t.st == St::Run { n = d.tid as usize; } }
                }
                s.di += 1;
            }
            plan_next();
            if n == cur && spin { n = default_next(s); if n != cur { hand_over(s, n, true) } return; }
            n
        }
    };
    // with spin the default choice is the next runnable thread
    let dflt = if spin { default_next(s) } else { cur };
    if next != dflt { record(YC, next as u32, 0); }
    if next != cur { hand_over(s, next, true); }
}

/// The current thread has been put in a waiting state (or died); run another.
unsafe fn block(wait: bool) {
    let s = sim();
    common_tick(s);
    loop {
        if runnable(s) > 0 { break; }
        let d = s.th.iter().map(|t| t.st.deadline()).min().unwrap_or(INF);
        if d == INF { end(ST_DEADLOCK); }
        if d > s.horizon { s.now = s.horizon; end(ST_HORIZON); }
        if let CrashAt::Time { ns } = s.crash {
            if ARMED && d >= ns { s.now = s.now.max(ns); (*SH).last_crash_kind = 2; end(ST_CRASH); }
        }
        if d > s.now { s.now = d; }
        if !s.jumps.is_empty() { apply_jumps(s); }
        fire_timers(s);
    }
    let dflt = default_next(s);
    let next = match &s.sched.policy {
        Policy::Random { .. } => {
            let n = runnable(s);
            let k = if n == 1 { 0 } else { s.rng.below(n as u64) as usize };
            nth_runnable(s, k)
        }
        Policy::Pct { .. } => best_prio(s),
        Policy::Explicit => {
            let mut n = dflt;
            while let Some(d) = s.sched.devs.get(s.di) {
                if d.yc > YC { break; }
                if d.yc == YC && d.tid < STALL_BASE {
                    if let Some(t) = s.th.get(d.tid as usize) { if t.st == St::Run { n = d.tid as usize; } }
                }
                s.di += 1;
            }
            plan_next();
            n
        }
    };
    if next != dflt { record(YC, next as u32, 0); }
    hand_over(s, next, wait);
}
unsafe fn block_on(st: St) -> bool {
    let s = sim();
    let c = s.cur;
    s.th[c].st = st;
    s.th[c].timed_out = false;
    s.th[c].since = YC;
    block(true);
    sim().th[c].timed_out
}
unsafe fn stall(ns: u64) {
    let s = sim();
    (*SH).stalls += 1;
    (*SH).stall_ns += ns;
    let d = s.now + ns;
    block_on(St::Stall(d));
}

// ---------------------------------------------------------------- basic-block callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    static mut N: u32 = 0;
    if s == e || *s != 0 { return; }
    let mut p = s;
    while p < e {
        if (N as usize) < GUARD_CAP - 1 { N += 1; }
        *p = N;
        p = p.add(1);
    }
    N_GUARDS = N;
}
pub static mut N_GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE { return; }
    if tid() == 0 { return; }
    let id = *g;
    if crate::guards::KIND[id as usize] == crate::guards::IGNORE { return; }
    YC += 1;
    let h = &mut (&mut (*SIM).hits)[id as usize];
    *h += 1;
    if !TRC.is_null() { if TRN < 10_000_000 { *TRC.add(TRN) = id | tid() << 24; TRN += 1; } }
    if YC >= NEXT_YC || id == TG[0] || id == TG[1] || id == TG[2] || id == TG[3] {
        guard_slow(id);
    }
}
#[cold]
#[inline(never)]
unsafe fn guard_slow(id: u32) {
    let s = sim();
    if YC > s.max_yields { end(ST_STEPS); }
    if !matches!(s.sched.policy, Policy::Explicit) && ARMED {
        for i in 0..4 {
            if TG[i] == id {
                let t = &mut s.sched.targets[i];
                t.nth -= 1;
                if t.nth == 0 {
                    TG[i] = u32::MAX;
                    (*SH).targets_fired += 1;
                    match t.act {
                        Act::Crash => { (*SH).last_crash_kind = 3; end(ST_CRASH) }
                        Act::Stall(ns) => {
                            record(YC, STALL_BASE, ns);
                            stall(ns);
                            return;
                        }
                        Act::Switch => {
                            let n = runnable(s);
                            if n > 1 {
                                let k = s.rng.below(n as u64) as usize;
                                let nx = nth_runnable(s, k);
                                if nx != s.cur {
                                    record(YC, nx as u32, 0);
                                    hand_over(s, nx, true);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    } else if ARMED {
        // explicit replay: only crash targets still apply
        for i in 0..4 {
            if TG[i] == id {
                let t = &mut s.sched.targets[i];
                if t.nth > 0 { t.nth -= 1; }
                if t.nth == 0 && t.act == Act::Crash { (*SH).last_crash_kind = 3; end(ST_CRASH) }
            }
        }
    }
    if YC < NEXT_YC { return; }
    let cur = s.cur;
    let next = match &s.sched.policy {
        Policy::Random { .. } => {
            plan_next();
            let n = runnable(s);
            if n <= 1 { cur } else {
                let k = s.rng.below(n as u64) as usize;
                nth_runnable(s, k)
            }
        }
        Policy::Pct { .. } => {
            s.pct_i += 1;
            plan_next();
            s.th[cur].prio = s.rng.next() >> 32;
            best_prio(s)
        }
        Policy::Explicit => {
            let mut n = cur;
            while let Some(d) = s.sched.devs.get(s.di) {
                if d.yc > YC { break; }
                if d.yc == YC {
                    if d.tid >= STALL_BASE {
                        let ns = d.ns;
                        s.di += 1;
                        plan_next();
                        record(YC, STALL_BASE, ns);
                        stall(ns);
                        return;
                    }
                    if let Some(t) = s.th.get(d.tid as usize) { if t.st == St::Run { n = d.tid as usize; } }
                }
                s.di += 1;
            }
            plan_next();
            n
        }
    };
    if next != cur {
        record(YC, next as u32, 0);
        hand_over(s, next, true);
    }
}

// ---------------------------------------------------------------- harness interface
pub fn now() -> u64 {
    sim().now
}
pub fn realtime() -> u64 {
    unsafe { ((sim().real_base + sim().now) as i64 + (*SH).real_off) as u64 }
}
pub fn stamp() -> u64 {
    unsafe {
        YC += 1;
        YC
    }
}
pub fn sleep_ns(ns: u64) {
    unsafe {
        let d = sim().now + ns;
        block_on(St::Sleep(d));
    }
}
pub fn sleep_until(t: u64) {
    unsafe {
        if sim().now < t { block_on(St::Sleep(t)); }
    }
}
pub fn yield_now() {
    unsafe { yield_point(false) }
}
/// wait until fd is ready for ev; false on timeout
pub fn wait_fd(fd: i32, ev: i16, deadline: u64) -> bool {
    unsafe {
        let mut p = libc::pollfd { fd, events: ev, revents: 0 };
        if sys(libc::SYS_poll, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) > 0 { return true; }
        if sim().now >= deadline { return false; }
        !block_on(St::Fd(fd, ev, deadline))
    }
}
/// send without blocking; Err(errno)
pub fn net_send(fd: i32, b: &[u8]) -> Result<usize, i32> {
    unsafe {
        let r = sys(libc::SYS_sendto, fd as usize, b.as_ptr() as usize, b.len(), (libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) as usize, 0, 0);
        dirty();
        yield_point(false);
        if r < 0 { Err(-r as i32) } else { Ok(r as usize) }
    }
}
pub fn net_recv(fd: i32, b: &mut [u8]) -> Result<usize, i32> {
    unsafe {
        let r = sys(libc::SYS_recvfrom, fd as usize, b.as_mut_ptr() as usize, b.len(), libc::MSG_DONTWAIT as usize, 0, 0);
        dirty();
        if r < 0 { Err(-r as i32) } else { Ok(r as usize) }
    }
}
pub fn net_close(fd: i32) {
    unsafe { close(fd); }
}
pub fn net_shutdown_wr(fd: i32) {
    unsafe { shutdown(fd, libc::SHUT_WR); }
}
pub fn crash_now() -> ! {
    unsafe { (*SH).last_crash_kind = 4; }
    end(ST_CRASH)
}
pub fn disk_quiet_after() -> u64 {
    sim().disk.iter().map(|d| d.to).max().unwrap_or(0)
}
pub fn hist_append(b: &[u8]) {
    unsafe {
        let sh = &mut *SH;
        if sh.hist_len + b.len() + 1 < HIST_CAP {
            sh.hist[sh.hist_len..sh.hist_len + b.len()].copy_from_slice(b);
            sh.hist_len += b.len();
            sh.hist[sh.hist_len] = b'\n';
            sh.hist_len += 1;
        } else if ACTIVE {
            end(ST_HARNESS);
        }
    }
}

// ---------------------------------------------------------------- threads
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
type MtxFn = unsafe extern "C" fn(*mut libc::pthread_mutex_t) -> c_int;
macro_rules! real {
    ($fname:ident, $t:ty, $sym:literal) => {
        fn $fname() -> $t {
            static mut P: Option<$t> = None;
            unsafe {
                if P.is_none() {
                    let p = libc::dlsym(libc::RTLD_NEXT, concat!($sym, "\0").as_ptr() as *const c_char);
                    assert!(!p.is_null());
                    P = Some(core::mem::transmute::<*mut c_void, $t>(p));
                }
                P.unwrap()
            }
        }
    };
}
real!(real_create, CreateFn, "pthread_create");
real!(real_join, JoinFn, "pthread_join");
real!(real_mlock, MtxFn, "pthread_mutex_lock");
real!(real_mtry, MtxFn, "pthread_mutex_trylock");
real!(real_munlock, MtxFn, "pthread_mutex_unlock");

struct Boot {
    f: StartFn,
    arg: *mut c_void,
    idx: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        let (f, arg, idx) = (b.f, b.arg, b.idx);
        TID.with(|t| t.set(idx as u32 + 1));
        libc::pthread_setspecific(EXIT_KEY, (idx + 1) as *const c_void);
        let g = &sim().th[idx].go as *const AtomicU32;
        wait_go(&*g);
        drop(b);
        f(arg)
    }
}
unsafe extern "C" fn on_thread_exit(p: *mut c_void) {
    let idx = p as usize - 1;
    if !ACTIVE { return; }
    let s = sim();
    s.th[idx].st = St::Dead;
    for t in s.th.iter_mut() {
        if t.st == St::Join(idx as u32) { t.st = St::Run; }
    }
    block(false);
    TID.with(|t| t.set(0));
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    if !on() { return real_create()(t, attr, f, arg); }
    let s = sim();
    let idx = s.th.len();
    let prio = s.rng.next();
    s.th.push(Box::new(Thread { go: AtomicU32::new(0), st: St::Run, prio, timed_out: false, since: 0, pt: 0 }));
    let b = Box::into_raw(Box::new(Boot { f, arg, idx }));
    let r = real_create()(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        s.th[idx].st = St::Dead;
        return r;
    }
    s.th[idx].pt = *t;
    yield_point(false);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if on() {
        let s = sim();
        if let Some(i) = s.th.iter().rposition(|x| x.pt == t && x.pt != 0) {
            if s.th[i].st != St::Dead { block_on(St::Join(i as u32)); }
            sim().th[i].pt = 0;
        }
    }
    real_join()(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut libc::pthread_mutex_t) -> c_int {
    if !on() { return real_mlock()(m); }
    loop {
        let r = real_mtry()(m);
        if r != libc::EBUSY { return r; }
        block_on(St::Mutex(m as usize));
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut libc::pthread_mutex_t) -> c_int {
    let r = real_munlock()(m);
    if on() {
        for t in sim().th.iter_mut() {
            if t.st == St::Mutex(m as usize) { t.st = St::Run; }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() { yield_point(true); return 0; }
    sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, sz: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if ACTIVE {
        core::ptr::write_bytes(set as *mut u8, 0, sz);
        *(set as *mut u8) = 1;
        return 0;
    }
    let r = ret(sys(libc::SYS_sched_getaffinity, pid as usize, sz, set as usize, 0, 0, 0));
    if r < 0 { -1 } else {
        if (r as usize) < sz { core::ptr::write_bytes((set as *mut u8).add(r as usize), 0, sz - r as usize); }
        0
    }
}

// ---------------------------------------------------------------- futex (std, parking_lot)
unsafe fn ts_ns(t: *const timespec) -> u64 {
    (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !on() { return ret(sys(n, a, b, c, d, e, f)) as c_long; }
    if n == libc::SYS_futex {
        let op = b as c_int & 0x7f;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                yield_point(false);
                let addr = a as *const AtomicU32;
                if (*addr).load(Ordering::SeqCst) != c as u32 { return fail(libc::EAGAIN) as c_long; }
                let dl = if d == 0 { INF } else {
                    let t = ts_ns(d as *const timespec);
                    if op == libc::FUTEX_WAIT { sim().now.saturating_add(t) }
                    else if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 { sim().now + t.saturating_sub(realtime()) }
                    else { mono_to_sim(t) }
                };
                if dl <= sim().now { return fail(libc::ETIMEDOUT) as c_long; }
                if block_on(St::Futex(a, dl)) { return fail(libc::ETIMEDOUT) as c_long; }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let s = sim();
                let mut k = 0usize;
                let max = c;
                while k < max {
                    let mut best: Option<usize> = None;
                    for (i, t) in s.th.iter().enumerate() {
                        if let St::Futex(ad, _) = t.st {
                            if ad == a && best.map_or(true, |b| t.since < s.th[b].since) { best = Some(i); }
                        }
                    }
                    match best {
                        Some(i) => { s.th[i].st = St::Run; s.th[i].timed_out = false; k += 1; }
                        None => break,
                    }
                }
                yield_point(false);
                return k as c_long;
            }
            _ => {}
        }
    } else if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    ret(sys(n, a, b, c, d, e, f)) as c_long
}

// ---------------------------------------------------------------- clocks
/// CLOCK_MONOTONIC = sim time + MONO0
const MONO0: u64 = 1_000_000_000_000;
fn mono_to_sim(t: u64) -> u64 {
    t.saturating_sub(MONO0)
}
pub fn cpu_ns() -> u64 {
    unsafe {
        let mut t: timespec = core::mem::zeroed();
        sys(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as usize, &mut t as *mut _ as usize, 0, 0, 0, 0);
        ts_ns(&t)
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if on() {
        let v = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => realtime(),
            _ => sim().now + MONO0,
        };
        (*ts).tv_sec = (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if on() {
        let v = realtime();
        if !tv.is_null() {
            (*tv).tv_sec = (v / 1_000_000_000) as i64;
            (*tv).tv_usec = (v % 1_000_000_000 / 1000) as i64;
        }
        return 0;
    }
    ret(sys(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut tv: timeval = core::mem::zeroed();
    gettimeofday(&mut tv, core::ptr::null_mut());
    if !p.is_null() { *p = tv.tv_sec; }
    tv.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, rem: *mut timespec) -> c_int {
    if on() { sleep_ns(ts_ns(r)); return 0; }
    ret(sys(libc::SYS_nanosleep, r as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, r: *const timespec, rem: *mut timespec) -> c_int {
    if on() {
        let t = ts_ns(r);
        if flags & libc::TIMER_ABSTIME != 0 {
            let d = if clk == libc::CLOCK_REALTIME { sim().now + t.saturating_sub(realtime()) } else { mono_to_sim(t) };
            sleep_until(d);
        } else {
            sleep_ns(t);
        }
        return 0;
    }
    (-sys(libc::SYS_clock_nanosleep, clk as usize, flags as usize, r as usize, rem as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let t = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&t, core::ptr::null_mut())
}

// ---------------------------------------------------------------- randomness
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if on() {
        let s = sim();
        let b = core::slice::from_raw_parts_mut(buf as *mut u8, len);
        for c in b.chunks_mut(8) {
            let v = s.ent.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        return len as ssize_t;
    }
    ret(sys(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0))
}

// ---------------------------------------------------------------- readiness
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(fd: c_int, ev: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !on() { return ret(sys(libc::SYS_epoll_wait, fd as usize, ev as usize, max as usize, timeout as usize, 0, 0)) as c_int; }
    yield_point(false);
    let dl = if timeout < 0 { INF } else { sim().now + timeout as u64 * 1_000_000 };
    loop {
        let n = sys(libc::SYS_epoll_wait, fd as usize, ev as usize, max as usize, 0, 0, 0);
        if n != 0 { return ret(n) as c_int; }
        if sim().now >= dl { return 0; }
        block_on(St::Epoll(fd, dl));
    }
}

// ---------------------------------------------------------------- sockets and pipes
#[inline]
unsafe fn dirty() {
    sim().io_dirty = true;
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let r = sys(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0);
    if on() { dirty(); yield_point(false); }
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    let r = sys(libc::SYS_sendto, fd as usize, b as usize, n, fl as usize, 0, 0);
    if on() { dirty(); yield_point(false); }
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    let r = sys(libc::SYS_recvfrom, fd as usize, b as usize, n, fl as usize, 0, 0);
    if on() { dirty(); yield_point(false); }
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let r = sys(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0);
    if on() { dirty(); yield_point(false); }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, l: libc::socklen_t) -> c_int {
    if on() && level == libc::IPPROTO_TCP { return 0; }
    ret(sys(libc::SYS_setsockopt, fd as usize, level as usize, name as usize, v as usize, l as usize, 0)) as c_int
}
unsafe fn fake_addr(a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    let mut sa: libc::sockaddr_in = core::mem::zeroed();
    sa.sin_family = libc::AF_INET as u16;
    sa.sin_port = 0x1234;
    sa.sin_addr.s_addr = 0x0100_007f;
    let n = (core::mem::size_of::<libc::sockaddr_in>()).min(*l as usize);
    core::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, a as *mut u8, n);
    *l = core::mem::size_of::<libc::sockaddr_in>() as u32;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    if on() { return fake_addr(a, l); }
    ret(sys(libc::SYS_getpeername, fd as usize, a as usize, l as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int {
    if on() { return fake_addr(a, l); }
    ret(sys(libc::SYS_getsockname, fd as usize, a as usize, l as usize, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- listening sockets
/// Where a simulated TCP port listens: an abstract name nobody else uses.
unsafe fn port_name(port: u16) -> (libc::sockaddr_un, u32) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in sim().root_dir.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
    let name = format!("\0nexosim-{}-{:x}-{}", libc::getpid(), h, port);
    let mut a: libc::sockaddr_un = core::mem::zeroed();
    a.sun_family = libc::AF_UNIX as u16;
    for (i, b) in name.bytes().enumerate() { a.sun_path[i] = b as c_char; }
    (a, (2 + name.len()) as u32)
}
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if on() && dom == libc::AF_INET {
        return ret(sys(libc::SYS_socket, libc::AF_UNIX as usize, ty as usize, 0, 0, 0, 0)) as c_int;
    }
    ret(sys(libc::SYS_socket, dom as usize, ty as usize, proto as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> c_int {
    if on() && (*a).sa_family == libc::AF_INET as u16 {
        let port = u16::from_be((*(a as *const libc::sockaddr_in)).sin_port);
        let (n, k) = port_name(port);
        return ret(sys(libc::SYS_bind, fd as usize, &n as *const _ as usize, k as usize, 0, 0, 0)) as c_int;
    }
    ret(sys(libc::SYS_bind, fd as usize, a as usize, l as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    let r = sys(libc::SYS_listen, fd as usize, n as usize, 0, 0, 0, 0);
    if on() { dirty(); yield_point(false); }
    ret(r) as c_int
}
/// connections the system dropped before accept()
pub static ABORTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t, fl: c_int) -> c_int {
    if !on() { return ret(sys(libc::SYS_accept4, fd as usize, a as usize, l as usize, fl as usize, 0, 0)) as c_int; }
    // only when a connection is really there does the system call get that far
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    if sys(libc::SYS_poll, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) > 0 {
        if let Io::Fail(e) = io_op(C_NET, O_ACCEPT, 0) {
            if e == libc::ECONNABORTED {
                // that connection is gone
                ABORTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let r = sys(libc::SYS_accept4, fd as usize, 0, 0, fl as usize, 0, 0);
                if r >= 0 { sys(libc::SYS_close, r as usize, 0, 0, 0, 0, 0); }
            }
            dirty();
            return fail(e) as c_int;
        }
    }
    let r = sys(libc::SYS_accept4, fd as usize, 0, 0, fl as usize, 0, 0);
    if r >= 0 && !a.is_null() { fake_addr(a, l); }
    dirty();
    yield_point(false);
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> c_int { accept4(fd, a, l, 0) }
/// a client's connection attempt; Err(errno)
pub fn net_connect(port: u16) -> Result<i32, i32> {
    unsafe {
        let fd = sys(libc::SYS_socket, libc::AF_UNIX as usize, (libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK) as usize, 0, 0, 0, 0);
        if fd < 0 { return Err(-fd as i32); }
        let (n, k) = port_name(port);
        let r = sys(libc::SYS_connect, fd as usize, &n as *const _ as usize, k as usize, 0, 0, 0);
        dirty();
        yield_point(false);
        if r < 0 { sys(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0); return Err(-r as i32); }
        Ok(fd as i32)
    }
}

// ---------------------------------------------------------------- files
fn classify(path: &str) -> u32 {
    let s = sim();
    if !path.starts_with(s.data_dir.as_str()) { return 0; }
    let rest = &path[s.data_dir.len()..];
    if rest.starts_with("/queues") { C_QUEUE }
    else if rest.starts_with("/pubsub") { C_RETAINED }
    else if rest.contains("groups.log") { C_GROUPS }
    else if rest.starts_with("/streams") { C_STREAM }
    else { C_OTHER }
}
/// lexical absolute path of (dirfd, path)
unsafe fn abspath(dirfd: c_int, p: *const c_char) -> String {
    let raw = std::ffi::CStr::from_ptr(p).to_string_lossy().to_string();
    let base = if raw.starts_with('/') { String::new() } else {
        let link = if dirfd == libc::AT_FDCWD { "/proc/self/cwd\0".to_string() } else { format!("/proc/self/fd/{}\0", dirfd) };
        let mut buf = [0u8; 4096];
        let n = sys(libc::SYS_readlink, link.as_ptr() as usize, buf.as_mut_ptr() as usize, 4096, 0, 0, 0);
        if n > 0 { String::from_utf8_lossy(&buf[..n as usize]).to_string() } else { "/".into() }
    };
    let full = format!("{}/{}", base, raw);
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c { "" | "." => {} ".." => { out.pop(); } c => out.push(c) }
    }
    format!("/{}", out.join("/"))
}
fn inside(p: &str, d: &str) -> bool {
    p == d || (p.starts_with(d) && p.as_bytes().get(d.len()) == Some(&b'/'))
}
/// Path access check. Returns class, or -errno if the access must be refused.
unsafe fn path_check(p: &str, write: bool, what: &str) -> Result<u32, c_int> {
    let s = sim();
    if inside(p, &s.data_dir) { return Ok(classify(p)); }
    let scratch = inside(p, &s.root_dir);
    if write || scratch {
        if p == "/dev/null" || (!write && p == s.root_dir) { return Ok(0); }
        if ARMED {
            (*SH).escapes += 1;
            if (*SH).escapes < 50 { crate::hist::note_escape(what, p); }
        }
        if s.deny_escape && write { return Err(libc::EACCES); }
    }
    Ok(0)
}
enum Io {
    Go,
    Fail(c_int),
    Short(usize),
}
/// One file operation is about to happen on a file of class `class`.
pub static mut DEBUG_IO: bool = false;
fn dbg_io(m: &str) { unsafe { if DEBUG_IO && sim().now > 0 { let m = format!("IO t={} tid={} {}\n", sim().now, cur_tid(), m); sys(libc::SYS_write, 2, m.as_ptr() as usize, m.len(), 0, 0, 0); } } }
fn cur_tid() -> u32 { 0 }
unsafe fn io_op(class: u32, op: u32, len: usize) -> Io {
    let r = io_op2(class, op, len);
    if class != 0 { dbg_io(&format!("class {} op {} len {} {}", class, op, len, match r { Io::Go => "go".into(), Io::Fail(e) => format!("FAIL {}", e), Io::Short(_) => "short".into() })); }
    r
}
unsafe fn io_op2(class: u32, op: u32, len: usize) -> Io {
    let s = sim();
    yield_point(false);
    if class == 0 { return Io::Go; }
    let s2 = s;
    if ARMED && op != O_READ && op != O_ACCEPT {
        s2.io_n += 1;
        if let CrashAt::Io { n, permille } = s2.crash {
            if s2.io_n == n {
                (*SH).last_crash_kind = 1;
                if op == O_WRITE && permille > 0 && len > 0 {
                    (*SH).torn += 1;
                    let k = (len as u64 * permille as u64 / 1000) as usize;
                    return Io::Short(k | (1 << 62));
                }
                end(ST_CRASH);
            }
        }
    }
    if ARMED && !s2.disk.is_empty() {
        let now = s2.now;
        for (f, seen) in s2.disk.iter().zip(s2.dseen.iter_mut()) {
            if now >= f.from && now < f.to && f.classes & class != 0 && f.ops & op != 0 {
                seen.0 = seen.0.saturating_add(1);
                if seen.0 <= f.skip || f.count != 0 && seen.1 >= f.count || s2.flt.below(1000) >= f.permille as u64 { continue; }
                seen.1 += 1;
                if op == O_WRITE && f.short && len > 1 {
                    (*SH).short_writes += 1;
                    let k = 1 + s2.flt.below(len as u64 - 1) as usize;
                    return Io::Short(k);
                }
                match op {
                    O_WRITE => (*SH).fault_write += 1,
                    O_OPEN => (*SH).fault_open += 1,
                    O_ACCEPT => (*SH).fault_accept += 1,
                    _ => (*SH).fault_other += 1,
                }
                return Io::Fail(f.errno);
            }
        }
    }
    Io::Go
}
unsafe fn fd_class(fd: c_int) -> u32 {
    sim().fds.get(fd as usize).and_then(|x| x.map(|y| y.0)).unwrap_or(0)
}
unsafe fn touch(fd: c_int) {
    // file times come from the simulated clock
    let v = realtime();
    let t = [timespec { tv_sec: (v / 1_000_000_000) as i64, tv_nsec: (v % 1_000_000_000) as i64 }; 2];
    sys(libc::SYS_utimensat, fd as usize, 0, t.as_ptr() as usize, 0, 0, 0);
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if !on() { return ret(sys(libc::SYS_write, fd as usize, b as usize, n, 0, 0, 0)); }
    let class = fd_class(fd);
    if class == 0 {
        let r = sys(libc::SYS_write, fd as usize, b as usize, n, 0, 0, 0);
        dirty();
        yield_point(false);
        return ret(r);
    }
    match io_op(class, O_WRITE, n) {
        Io::Go => {
            let r = sys(libc::SYS_write, fd as usize, b as usize, n, 0, 0, 0);
            touch(fd);
            yield_point(false);
            ret(r)
        }
        Io::Fail(e) => fail(e),
        Io::Short(k) => {
            let crash = k >> 62 != 0;
            let k = k & !(1 << 62);
            let r = sys(libc::SYS_write, fd as usize, b as usize, k, 0, 0, 0);
            touch(fd);
            if crash { end(ST_CRASH); }
            ret(r)
        }
    }
}
unsafe fn do_pwrite(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if !on() { return ret(sys(libc::SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0)); }
    if fd_class(fd) != 0 { dbg_io(&format!("pwrite fd {} {}@{}", fd, n, off)); }
    match io_op(fd_class(fd), O_WRITE, n) {
        Io::Go => ret(sys(libc::SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0)),
        Io::Fail(e) => fail(e),
        Io::Short(k) => {
            let crash = k >> 62 != 0;
            let k = k & !(1 << 62);
            let r = sys(libc::SYS_pwrite64, fd as usize, b as usize, k, off as usize, 0, 0);
            if crash { end(ST_CRASH); }
            ret(r)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t { do_pwrite(fd, b, n, off) }
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t { do_pwrite(fd, b, n, off) }
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if !on() { return ret(sys(libc::SYS_read, fd as usize, b as usize, n, 0, 0, 0)); }
    let class = fd_class(fd);
    if let Io::Fail(e) = io_op(class, O_READ, n) { return fail(e); }
    let r = sys(libc::SYS_read, fd as usize, b as usize, n, 0, 0, 0);
    if class == 0 { dirty(); }
    ret(r)
}
unsafe fn do_pread(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if on() { if fd_class(fd) != 0 { dbg_io(&format!("pread fd {} {}@{}", fd, n, off)); } if let Io::Fail(e) = io_op(fd_class(fd), O_READ, n) { return fail(e); } }
    ret(sys(libc::SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t { do_pread(fd, b, n, off) }
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t { do_pread(fd, b, n, off) }

unsafe fn do_openat(dirfd: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    if !on() { return ret(sys(libc::SYS_openat, dirfd as isize as usize, p as usize, fl as usize, mode as usize, 0, 0)) as c_int; }
    let path = abspath(dirfd, p);
    let w = fl & libc::O_ACCMODE != libc::O_RDONLY || fl & (libc::O_CREAT | libc::O_TRUNC) != 0;
    let class = match path_check(&path, w, "open") { Ok(c) => c, Err(e) => return fail(e) as c_int };
    if let Io::Fail(e) = io_op(class, if w { O_OPEN } else { O_READ }, 0) { return fail(e) as c_int; }
    let r = sys(libc::SYS_openat, dirfd as isize as usize, p as usize, fl as usize, mode as usize, 0, 0);
    if class != 0 { dbg_io(&format!("open {} flags {:x} = {}", path, fl, r)); }
    if r >= 0 && (r as usize) < 4096 {
        sim().fds[r as usize] = if class != 0 { Some((class, w)) } else { None };
        if w && class != 0 && fl & libc::O_CREAT != 0 { 
            let mut st: libc::stat = core::mem::zeroed();
            if sys(libc::SYS_fstat, r as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0 && st.st_size == 0 { touch(r as c_int); }
        }
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: mode_t) -> c_int { do_openat(libc::AT_FDCWD, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: mode_t) -> c_int { do_openat(libc::AT_FDCWD, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int { do_openat(d, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int { do_openat(d, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let r = sys(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
    if on() {
        if fd >= 0 && (fd as usize) < 4096 { sim().fds[fd as usize] = None; }
        dirty();
        yield_point(false);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if on() { if let Io::Fail(e) = io_op(fd_class(fd), O_SYNC, 0) { return fail(e) as c_int; } return 0; }
    ret(sys(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if on() { if let Io::Fail(e) = io_op(fd_class(fd), O_SYNC, 0) { return fail(e) as c_int; } return 0; }
    ret(sys(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn do_ftruncate(fd: c_int, l: off_t) -> c_int {
    if on() { if let Io::Fail(e) = io_op(fd_class(fd), O_TRUNC, 0) { return fail(e) as c_int; } }
    let r = sys(libc::SYS_ftruncate, fd as usize, l as usize, 0, 0, 0, 0);
    if on() && fd_class(fd) != 0 { touch(fd); }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, l: off_t) -> c_int { do_ftruncate(fd, l) }
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: off_t) -> c_int { do_ftruncate(fd, l) }
unsafe fn path_op(p: &str, op: u32, what: &str) -> Option<c_int> {
    let class = match path_check(p, true, what) { Ok(c) => c, Err(e) => return Some(e) };
    if let Io::Fail(e) = io_op(class, op, 0) { return Some(e); }
    None
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if on() {
        let pa = abspath(libc::AT_FDCWD, a);
        let pb = abspath(libc::AT_FDCWD, b);
        if let Err(e) = path_check(&pa, true, "rename") { return fail(e) as c_int; }
        if let Some(e) = path_op(&pb, O_RENAME, "rename") { return fail(e) as c_int; }
    }
    ret(sys(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if on() { dbg_io(&format!("unlink {}", abspath(libc::AT_FDCWD, a))); if let Some(e) = path_op(&abspath(libc::AT_FDCWD, a), O_UNLINK, "unlink") { return fail(e) as c_int; } }
    ret(sys(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if on() { if let Some(e) = path_op(&abspath(libc::AT_FDCWD, a), O_UNLINK, "rmdir") { return fail(e) as c_int; } }
    ret(sys(libc::SYS_rmdir, a as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    if on() { if let Some(e) = path_op(&abspath(d, a), O_UNLINK, "unlinkat") { return fail(e) as c_int; } }
    ret(sys(libc::SYS_unlinkat, d as isize as usize, a as usize, fl as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    if on() {
        let p = abspath(libc::AT_FDCWD, a);
        // create_dir_all probes existing parents first
        let mut st: libc::stat = core::mem::zeroed();
        let exists = sys(libc::SYS_stat, a as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) == 0;
        if exists { return fail(libc::EEXIST) as c_int; }
        if let Some(e) = path_op(&p, O_MKDIR, "mkdir") { return fail(e) as c_int; }
    }
    ret(sys(libc::SYS_mkdir, a as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, a: *const c_char, m: mode_t) -> c_int {
    if on() { if let Some(e) = path_op(&abspath(d, a), O_MKDIR, "mkdirat") { return fail(e) as c_int; } }
    ret(sys(libc::SYS_mkdirat, d as isize as usize, a as usize, m as usize, 0, 0, 0)) as c_int
}
unsafe fn refuse(p: *const c_char, what: &str) -> bool {
    on() && path_check(&abspath(libc::AT_FDCWD, p), true, what).is_err()
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if refuse(p, "chmod") { return fail(libc::EACCES) as c_int; }
    ret(sys(libc::SYS_chmod, p as usize, m as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if refuse(a, "link") || refuse(b, "link") { return fail(libc::EACCES) as c_int; }
    ret(sys(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if refuse(b, "symlink") { return fail(libc::EACCES) as c_int; }
    ret(sys(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(a: *const c_char, l: off_t) -> c_int {
    if on() { if let Some(e) = path_op(&abspath(libc::AT_FDCWD, a), O_TRUNC, "truncate") { return fail(e) as c_int; } }
    ret(sys(libc::SYS_truncate, a as usize, l as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(a: *const c_char, l: off_t) -> c_int { truncate(a, l) }
