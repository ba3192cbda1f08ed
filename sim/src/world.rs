//! One epoch: a server process from start to crash or end, inside the simulator.
use crate::hist::{put, Ev};
use crate::os::{self, SimConfig};
use crate::plan::*;
use crate::client::Cl;
use nexo::config::Config;
use nexo::NexoEngine;
use std::time::Duration;

pub struct World {
    pub rt: Option<tokio::runtime::Handle>,
    /// None: the server runs as its own main does
    pub eng: Option<NexoEngine>,
    /// the dashboard's port, if it runs
    pub http: Option<u16>,
    pub port: u16,
    pub armed_at: u64,
    pub idents: u32,
    /// queue messages any client ever received: (queue, id)
    pub seen_q: Vec<(String, String)>,
    pub seen_s: Vec<(String, String, u64)>,
}
pub static mut W: *mut World = core::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

/// a client that does nothing special on the wire
const PLAIN: Net = Net { chunk: 0, gap_ns: 0, rchunk: 0, sndbuf: 0, seed: 1 };

pub struct EpochCtx {
    pub ep: u32,
    pub start: u64,
    pub real_base: u64,
    pub real_off: i64,
    pub root: String,
    pub seen_q: Vec<(String, String)>,
    pub entropy: u64,
}

/// Runs in a freshly forked child and never returns.
pub fn run_epoch(plan: &Plan, ctx: EpochCtx) -> ! {
    crate::alloc::enable();
    // a new thread: nothing thread-local of the parent may influence the run
    std::thread::scope(|s| {
        let _ = std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, || epoch_main(plan, ctx)).unwrap().join();
    });
    unsafe { libc::_exit(99) }
}
fn epoch_main(plan: &Plan, ctx: EpochCtx) -> ! {
    let ep = &plan.epochs[ctx.ep as usize];
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 40, rlim_max: 40 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let c = std::ffi::CString::new(ctx.root.clone()).unwrap();
        libc::chdir(c.as_ptr());
        // unprivileged if we may: an escaped call reaches nothing of ours
        if libc::geteuid() == 0 {
            libc::setgroups(0, core::ptr::null());
            libc::setresgid(65534, 65534, 65534);
            libc::setresuid(65534, 65534, 65534);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
    }
    let data = format!("{}/data", ctx.root);
    for (k, v) in &plan.cfg.env { std::env::set_var(k, v); }
    std::env::set_var("QUEUE_ROOT_PERSISTENCE_PATH", format!("{}/queues", data));
    std::env::set_var("STREAM_ROOT_PERSISTENCE_PATH", format!("{}/streams", data));
    std::env::set_var("PUBSUB_ROOT_PERSISTENCE_PATH", format!("{}/pubsub", data));
    if std::env::var("NEXOSIM_LOG").is_ok() {
        // debugging aid only
    }
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        put(&Ev::Panic { msg: format!("{} at {}", msg, loc), t: os::now() });
    }));
    os::start(SimConfig {
        sched: ep.sched.clone(),
        entropy: ctx.entropy,
        start: ctx.start,
        real_base: ctx.real_base,
        real_off: ctx.real_off,
        crash: ep.crash,
        disk: ep.disk.clone(),
        jumps: ep.jumps.clone(),
        horizon: if ep.early { ep.limit_ns } else { ctx.start + ep.limit_ns },
        max_yields: 4_000_000,
        root_dir: ctx.root.clone(),
        data_dir: data,
    });
    put(&Ev::Start { ep: ctx.ep, t: os::now(), real: os::realtime() });
    if ep.early { os::arm(); }
    let flag = |k: &str| plan.cfg.get(k).unwrap_or(0) > 0;
    let (mut rt, mut eng) = (None, None);
    let http = if flag("SIM_WEB") { Some(8080) } else { None };
    if flag("SIM_MAIN") {
        std::env::set_var("TOKIO_WORKER_THREADS", plan.cfg.workers.max(1).to_string());
        std::env::set_var("NEXO_LOG", "off");
        std::env::set_var("NEXO_ENV", if http.is_some() { "dev" } else { "prod" });
        std::env::set_var("SERVER_HOST", "127.0.0.1");
        std::env::set_var("SERVER_SOCKET_TCP_PORT", "7654");
        std::env::set_var("SERVER_DASHBOARD_HTTP_PORT", "8080");
        std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
            let r = std::panic::catch_unwind(crate::server::run);
            put(&Ev::Note { k: "server".into(), v: if r.is_ok() { "returned".into() } else { "panicked".into() } });
            os::end(os::ST_EXIT)
        }).unwrap();
    } else {
        let r = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(plan.cfg.workers.max(1))
            .enable_all()
            .thread_keep_alive(Duration::from_secs(3600))
            .build()
            .expect("runtime");
        let e = r.block_on(async { NexoEngine::new(Config::global()).await });
        rt = Some(r.handle().clone());
        if let Some(p) = http { r.spawn(nexo::transport::http::router::start_http_server(e.clone(), p)); }
        eng = Some(e);
        std::mem::forget(r);
    }
    unsafe {
        W = Box::into_raw(Box::new(World { rt, eng, http, port: 7654, armed_at: os::now(), idents: 0, seen_q: ctx.seen_q, seen_s: vec![] }));
    }
    let mut driver = Cl::new(1000 + ctx.ep, if w().eng.is_some() { None } else { Some(PLAIN) });
    driver.run(&ep.setup);
    put(&Ev::Ready { t: os::now(), real: os::realtime(), st: os::stamp() });
    w().armed_at = os::now();
    if !ep.early { os::arm_with_horizon(ep.limit_ns); }
    let mut hs = vec![];
    for (i, c) in ep.clients.iter().enumerate() {
        let c = c.clone();
        let id = ctx.ep * 100 + i as u32;
        hs.push(std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
            if c.start_ns > 0 { os::sleep_ns(c.start_ns); }
            let mut cl = Cl::new(id, if w().eng.is_some() { c.tcp } else { c.tcp.or(Some(PLAIN)) });
            cl.run(&c.ops);
            cl.finish();
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    put(&Ev::ClientsDone { t: os::now(), st: os::stamp() });
    driver.run(&ep.probe);
    driver.finish();
    os::end(os::ST_DONE)
}
