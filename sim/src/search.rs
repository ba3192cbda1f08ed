//! Seeded search over schedules and faults, in parallel worker processes.
use crate::gen::{Prof, Profs};
use crate::hview::Viol;
use crate::mini;
use crate::oracle;
use crate::os::{self, Policy, Sched, Shared};
use crate::plan::*;
use crate::runner::*;
use crate::scen;
use crate::Scratch;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
pub struct Known {
    pub property: String,
    /// which clause fails
    pub kind: String,
    /// the specific input, call site or history: every one of these must appear in the message
    #[serde(default)]
    pub contains: Vec<String>,
    #[serde(default)]
    pub scen: Option<String>,
    pub what: String,
    #[serde(default)]
    pub fixed: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Default)]
pub struct KnownFile { pub findings: Vec<Known>, #[serde(default)] pub fixed: Vec<String> }
pub fn load_known(verif: &str) -> Vec<Known> {
    std::fs::read(format!("{}/known_findings.json", verif)).ok().and_then(|b| serde_json::from_slice::<KnownFile>(&b).ok()).map(|f| f.findings).unwrap_or_default()
}
fn is_known<'a>(known: &'a [Known], scen: &str, v: &Viol) -> Option<&'a Known> {
    known.iter().find(|k| k.property == v.prop && k.kind == v.kind && k.scen.as_deref().map(|s| s == scen).unwrap_or(true) && k.contains.iter().all(|c| v.msg.contains(c.as_str())))
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub msg: String,
    pub digest: String,
    pub plan: Plan,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    stats: Stats,
    per_scen: BTreeMap<String, u64>,
    behaviours: HashSet<u64>,
    schedules: HashSet<u64>,
    guards: HashSet<u32>,
    n_guards: u32,
    nontrivial: u64,
    found: Option<(u64, Plan, Viol)>,
    known: BTreeMap<String, u64>,
    nondet: u64,
    inconclusive: BTreeMap<String, u64>,
    determinism_checks: u64,
    wall: f64,
}

struct Ctl { found: std::sync::atomic::AtomicU64 }
fn ctl() -> &'static Ctl {
    unsafe {
        let p = os::sys(libc::SYS_mmap, 0, 4096, (libc::PROT_READ | libc::PROT_WRITE) as usize, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
        assert!(p > 0);
        let c = p as *mut Ctl;
        (*c).found.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        &*c
    }
}

/// fixed on first use: a pinned worker would otherwise see a single processor
pub fn workers() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8))
}
fn pin(w: usize) {
    unsafe {
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        if os::sys(libc::SYS_sched_getaffinity, 0, std::mem::size_of::<libc::cpu_set_t>(), &mut cur as *mut _ as usize, 0, 0, 0) <= 0 { return; }
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &cur)).collect();
        if cpus.is_empty() { return; }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}
/// run `f` in `n` forked workers; each returns bytes
fn par(n: usize, base: &str, f: &dyn Fn(usize, &str) -> Vec<u8>) -> Vec<Vec<u8>> {
    let mut pids = vec![];
    for w in 0..n {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            pin(w);
            let b = format!("{}/w{}", base, w);
            let _ = std::fs::create_dir_all(&b);
            unsafe { let c = std::ffi::CString::new(b.clone()).unwrap(); libc::chmod(c.as_ptr(), 0o755); }
            let r = f(w, &b);
            let _ = std::fs::write(format!("{}/out{}", base, w), r);
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut out = vec![];
    for (w, p) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe { while libc::waitpid(*p, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {} }
        let f = format!("{}/out{}", base, w);
        out.push(std::fs::read(&f).unwrap_or_default());
        let _ = std::fs::remove_file(&f);
    }
    out
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = os::Rng::new(a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b);
    r.next()
}
fn hs(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    fnv(&mut h, s.as_bytes());
    h
}
pub fn plan_of(prop: &str, seed: u64, k: u64, profs: &Profs) -> Plan {
    let names = scen::names(prop);
    let name = names[(k % names.len() as u64) as usize];
    let ps = mix(mix(seed, hs(prop)), k);
    scen::gen(prop, name, ps, profs)
}

#[derive(Serialize, Deserialize)]
struct ProfRec { name: String, guards: Vec<(u32, u32)>, yields: u64, io_ops: u64, ns: u64 }

/// What undisturbed runs of each scenario look like (used to aim faults).
fn profiles(prop: &str, base: &str) -> Profs {
    let names: Vec<&str> = { let mut v = scen::names(prop).to_vec(); v.sort(); v.dedup(); v };
    let n = workers();
    let outs = par(n, base, &|w, b| {
        let sh = os::alloc_shared();
        let mut v: Vec<ProfRec> = vec![];
        for (i, name) in names.iter().enumerate() {
            for t in 0..3u64 {
                if ((i as u64 * 3 + t) % n as u64) as usize != w { continue; }
                let mut p = scen::gen(prop, name, mix(hs(name), t), &Profs::new());
                for e in p.epochs.iter_mut() {
                    e.sched = Sched { seed: t, policy: Policy::Random { p_sync: 3000, gap: 0 }, targets: vec![], devs: vec![], dt: 2000 };
                    e.crash = os::CrashAt::Never;
                    e.disk.clear();
                    e.jumps.clear();
                }
                p.epochs.truncate(2);
                let o = run_plan(&p, b, sh, false);
                let mut r = ProfRec { name: name.to_string(), guards: vec![], yields: 0, io_ops: 0, ns: 0 };
                for e in &o.epochs {
                    r.yields = r.yields.max(e.stats.yields);
                    r.io_ops = r.io_ops.max(e.stats.io_ops);
                    r.ns = r.ns.max(e.stats.sim_ns);
                    for (g, h) in e.hits.iter().enumerate() { if *h > 0 { r.guards.push((g as u32, *h)); } }
                }
                v.push(r);
            }
        }
        serde_json::to_vec(&v).unwrap()
    });
    let mut profs = Profs::new();
    for o in outs {
        let v: Vec<ProfRec> = serde_json::from_slice(&o).unwrap_or_default();
        for r in v {
            let p = profs.entry(r.name).or_insert_with(Prof::default);
            p.yields = p.yields.max(r.yields);
            p.io_ops = p.io_ops.max(r.io_ops);
            p.ns = p.ns.max(r.ns);
            let mut m: BTreeMap<u32, u32> = p.guards.iter().cloned().collect();
            for (g, h) in r.guards { let e = m.entry(g).or_insert(0); *e = (*e).max(h); }
            p.guards = m.into_iter().collect();
        }
    }
    profs
}

pub fn verdict(plan: &Plan, out: &RunOut) -> Vec<Viol> {
    if out.inconclusive.is_some() { return vec![]; }
    oracle::judge(plan, out).into_iter().filter(|v| v.prop == plan.prop).collect()
}

fn work(prop: &str, seed: u64, w: usize, n: usize, b: &str, profs: &Profs, deadline: Instant, max_runs: u64, ctl: &Ctl, known: &[Known]) -> WorkerOut {
    use std::sync::atomic::Ordering::SeqCst;
    let t0 = Instant::now();
    let sh = os::alloc_shared();
    let mut o = WorkerOut::default();
    let mut k = w as u64;
    while k < max_runs && Instant::now() < deadline && ctl.found.load(SeqCst) > k {
        let plan = plan_of(prop, seed, k, profs);
        let out = run_plan(&plan, b, sh, false);
        o.stats.add(&out.stats);
        *o.per_scen.entry(plan.scen.clone()).or_insert(0) += 1;
        if let Some(r) = &out.inconclusive { *o.inconclusive.entry(format!("{}: {}", plan.scen, r)).or_insert(0) += 1; }
        else if out.stats.operations > 0 {
            o.nontrivial += 1;
            o.behaviours.insert(out.behaviour);
            o.schedules.insert(out.sched_hash ^ out.digest);
        }
        for e in &out.epochs { for (g, h) in e.hits.iter().enumerate() { if *h > 0 { o.guards.insert(g as u32); } } o.n_guards = e.hits.len() as u32; }
        if k / n as u64 % 64 == 5 {
            // the same seed must be the same execution
            let again = run_plan(&plan, b, sh, false);
            o.determinism_checks += 1;
            if again.digest != out.digest && again.inconclusive.is_none() && out.inconclusive.is_none() { o.nondet += 1; }
        }
        let vs = verdict(&plan, &out);
        let mut fresh = vec![];
        for v in vs {
            match is_known(known, &plan.scen, &v) {
                Some(kf) => *o.known.entry(kf.what.clone()).or_insert(0) += 1,
                None => fresh.push(v),
            }
        }
        if let Some(v) = fresh.into_iter().next() {
            // confirm: the same plan must fail again in the same way
            let again = run_plan(&plan, b, sh, false);
            let same = verdict(&plan, &again).into_iter().any(|x| x.kind == v.kind);
            if again.digest != out.digest { o.nondet += 1; }
            if same {
                ctl.found.fetch_min(k, SeqCst);
                o.found = Some((k, plan, v));
                break;
            }
        }
        k += n as u64;
    }
    o.wall = t0.elapsed().as_secs_f64();
    o
}

pub fn check(prop: &str, tier: &str, seed: u64, verif: &str, secs: Option<u64>, runs: Option<u64>, t0: Instant) -> i32 {
    if scen::names(prop).is_empty() { eprintln!("unknown property {}", prop); return 2; }
    let thorough = tier == "thorough";
    let secs = secs.unwrap_or(if thorough { 600 } else { 40 });
    let max_runs = runs.unwrap_or(if thorough { u64::MAX } else { scen::quick_runs(prop) });
    let scratch = Scratch::new();
    let known = load_known(verif);
    let profs = profiles(prop, &scratch.0);
    let n = workers();
    // a starved machine may spend the whole time on the profiles: explore all the same
    let deadline = (t0 + Duration::from_secs(secs)).max(Instant::now() + Duration::from_secs(secs.min(120) / 2));
    let c = ctl();
    let outs = par(n, &scratch.0, &|w, b| serde_json::to_vec(&work(prop, seed, w, n, b, &profs, deadline, max_runs, c, &known)).unwrap());
    let mut tot = WorkerOut::default();
    let mut lost = 0;
    for o in outs {
        let Ok(o) = serde_json::from_slice::<WorkerOut>(&o) else { lost += 1; continue };
        tot.stats.add(&o.stats);
        for (k, v) in o.per_scen { *tot.per_scen.entry(k).or_insert(0) += v; }
        for (k, v) in o.known { *tot.known.entry(k).or_insert(0) += v; }
        for (k, v) in o.inconclusive { *tot.inconclusive.entry(k).or_insert(0) += v; }
        tot.behaviours.extend(o.behaviours);
        tot.schedules.extend(o.schedules);
        tot.guards.extend(o.guards);
        tot.n_guards = tot.n_guards.max(o.n_guards);
        tot.nontrivial += o.nontrivial;
        tot.nondet += o.nondet;
        tot.determinism_checks += o.determinism_checks;
        tot.wall = tot.wall.max(o.wall);
        if let Some(f) = o.found { if tot.found.as_ref().map(|x| f.0 < x.0).unwrap_or(true) { tot.found = Some(f); } }
    }
    let mut code = 0;
    for k in known.iter().filter(|k| k.property == prop && k.fixed.is_none()) {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }
    let mut vmsg = String::new();
    if let Some((k, plan, v)) = tot.found.take() {
        let sh = os::alloc_shared();
        let b = format!("{}/min", scratch.0);
        let _ = std::fs::create_dir_all(&b);
        unsafe { let c = std::ffi::CString::new(b.clone()).unwrap(); libc::chmod(c.as_ptr(), 0o755); }
        let (mp, mv, md) = mini::minimise(&plan, &v, &b, sh, Duration::from_secs(if thorough { 300 } else { 45 }), &|p, o| {
            verdict(p, o).into_iter().filter(|x| is_known(&known, &p.scen, x).is_none()).collect()
        });
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, prop, seed, k);
        let r = Replay { property: prop.into(), kind: mv.kind.clone(), msg: mv.msg.clone(), digest: format!("{:016x}", md), plan: mp };
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap());
        vmsg = format!("{}: {}", mv.kind, mv.msg);
        println!("{} run {} (seed {}): {}", plan.scen, k, plan.seed, vmsg);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let bad = if code == 0 && (lost > 0 || tot.stats.runs == 0 || tot.stats.inconclusive * 2 > tot.stats.runs) { true } else { false };
    let sample = plan_of(prop, seed, 0, &profs);
    let s = &tot.stats;
    let per_h = |x: f64| if tot.wall > 0.0 { (x / tot.wall * 3600.0) as u64 } else { 0 };
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": tot.behaviours.len(),
            "rule": "One evaluation is one simulated run of the real server: a seed fixes the clients' programs, configuration, fault plan and every scheduling decision. Counted as distinct and non-trivial: runs that executed at least one client operation to a conclusive end and whose sequence of results (all answers of all clients, in order) differs from every other run's.",
            "distinct_executions": tot.schedules.len(),
            "runs_per_scenario": tot.per_scen,
            "runs_per_hour": per_h(s.runs as f64),
            "seeds_per_hour": per_h(s.runs as f64),
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "server_lives": s.epochs,
            "client_operations": s.operations,
            "connections": s.connections,
            "dashboard_requests": s.http_requests,
            "pushed_messages_received": s.pushes,
            "yield_points": s.yields,
            "context_switches": s.switches,
            "scheduling_deviations": s.deviations,
            "code_blocks_of_server_reached": tot.guards.len(),
            "code_blocks_of_server_total": tot.n_guards,
            "functions_of_server_reached": fns(&mut tot.guards.iter().copied()), "functions_of_server_total": fns(&mut (1..=tot.n_guards)),
            "faults": {
                "crash_at_file_operation": s.crashes_at_io, "crash_at_time": s.crashes_at_time, "crash_at_code_point": s.crashes_at_code_point,
                "torn_write_at_crash": s.torn_writes_at_crash, "disk_write_error": s.disk_write_errors, "disk_open_error": s.disk_open_errors,
                "disk_other_error": s.disk_other_errors, "accept_error": s.accept_errors, "short_write": s.short_writes, "clock_jump": s.clock_jumps,
                "thread_stall": s.stalls, "stalled_simulated_seconds": s.stall_ns as f64 / 1e9, "aimed_preemption_or_stall": s.targets_fired, "connection_cut": s.connections_cut,
            },
            "runs_ended_stuck": s.deadlock_ends + s.horizon_ends,
            "inconclusive_runs": s.inconclusive, "inconclusive_reasons": tot.inconclusive,
            "determinism_rechecks": tot.determinism_checks, "determinism_mismatches": tot.nondet,
            "known_findings_hit": tot.known,
            "real_code": ["nexo crate from /repo (queue, stream, pub/sub, store managers, persistence, TCP protocol and connection code, HTTP dashboard)", if crate::server::HAVE { "main.rs with its accept loop and dashboard listener (runs whose scenario ends in -main)" } else { "main.rs: not included, it did not compile inside the simulator" }, "tokio multi-thread runtime", "SQLite via rusqlite", "dashmap, parking_lot", "files on tmpfs"],
            "stubs": ["kernel scheduling, futexes, clocks, timers, epoll wait, randomness (interposed)", "TCP sockets replaced by AF_UNIX stream sockets"],
            "samples": [sample],
        },
        "assumptions": ["single-process crash model: what was written to a file before a kill survives it (no power loss)", "thread interleaving at synchronisation points and instrumented basic blocks of the nexo crate"],
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
        "violation": vmsg,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if std::fs::write(format!("{}/evidence/{}.json", verif, prop), serde_json::to_vec_pretty(&ev).unwrap()).is_err() { eprintln!("cannot write evidence"); return 3; }
    println!("{} {}: {} runs, {} distinct, {} ops, {:.1} simulated s, {} inconclusive, {} nondeterministic, {:.1} s", prop, tier, s.runs, tot.behaviours.len(), s.operations, s.sim_ns as f64 / 1e9, s.inconclusive, tot.nondet, wall);
    for (k, v) in &tot.inconclusive { println!("  inconclusive x{}: {}", v, k); }
    if bad { eprintln!("check could not be completed ({} workers lost)", lost); return 3; }
    code
}

fn fns(g: &mut dyn Iterator<Item = u32>) -> usize {
    g.filter(|g| crate::guards::kind(*g) == crate::guards::OWN).map(crate::guards::name).collect::<HashSet<_>>().len()
}
pub fn replay(file: &str, verbose: bool) -> i32 {
    let Ok(b) = std::fs::read(file) else { eprintln!("cannot read {}", file); return 2 };
    let Ok(r) = serde_json::from_slice::<Replay>(&b) else { eprintln!("not a replay file"); return 2 };
    let scratch = Scratch::new();
    let sh = os::alloc_shared();
    pin(0);
    let out = run_plan(&r.plan, &scratch.0, sh, false);
    if verbose { dump(&out); }
    let vs = verdict(&r.plan, &out);
    for v in &vs { println!("{} {}: {}", v.prop, v.kind, v.msg); }
    let same = format!("{:016x}", out.digest) == r.digest;
    println!("execution {} the recorded one (digest {:016x})", if same { "is identical to" } else { "differs from" }, out.digest);
    if vs.iter().any(|v| v.kind == r.kind) {
        println!("VIOLATION property={} replay={}", r.property, file);
        1
    } else { 0 }
}
fn dump(out: &RunOut) {
    for e in &out.epochs {
        for v in &e.evs { println!("{}", serde_json::to_string(v).unwrap()); }
        println!("-- status {} sig {} now {} {:?}", e.status, e.sig, e.end_now, e.stats);
    }
}
pub fn one(prop: &str, seed: u64, k: u64, save: Option<String>) -> i32 {
    let scratch = Scratch::new();
    let profs = profiles(prop, &scratch.0);
    let sh = os::alloc_shared();
    let plan = plan_of(prop, seed, k, &profs);
    let out = run_plan(&plan, &scratch.0, sh, false);
    dump(&out);
    println!("{}", serde_json::to_string(&plan.epochs.iter().map(|e| (&e.sched, &e.crash, &e.disk, &e.jumps)).collect::<Vec<_>>()).unwrap());
    println!("digest {:016x} sched {:016x} {:?}", out.digest, out.sched_hash, out.inconclusive);
    let vs = oracle::judge(&plan, &out);
    for v in &vs { println!("{} {}: {}", v.prop, v.kind, v.msg); }
    if let Some(f) = save {
        let r = Replay { property: prop.into(), kind: vs.first().map(|v| v.kind.clone()).unwrap_or_default(), msg: String::new(), digest: format!("{:016x}", out.digest), plan };
        let _ = std::fs::write(f, serde_json::to_vec_pretty(&r).unwrap());
    }
    (!vs.is_empty()) as i32
}
/// every seed twice: same history, same schedule
pub fn selftest(n: u64, prop: Option<String>) -> i32 {
    let scratch = Scratch::new();
    let mut bad = 0;
    for p in scen::PROPS {
        if prop.as_ref().map(|x| x != p).unwrap_or(false) { continue; }
        let profs = profiles(p, &scratch.0);
        let outs = par(workers(), &scratch.0, &|w, b| {
            let sh = os::alloc_shared();
            let mut v = vec![];
            let mut k = w as u64;
            while k < n {
                let plan = plan_of(p, 77, k, &profs);
                let a = run_plan(&plan, b, sh, false);
                let c = run_plan(&plan, b, sh, false);
                v.push((k, plan.scen.clone(), a.digest == c.digest && a.sched_hash == c.sched_hash, a.inconclusive.clone()));
                k += workers() as u64;
            }
            serde_json::to_vec(&v).unwrap()
        });
        for o in outs {
            let v: Vec<(u64, String, bool, Option<String>)> = serde_json::from_slice(&o).unwrap_or_default();
            for (k, s, same, inc) in v {
                if !same { bad += 1; println!("{} {} run {} differs", p, s, k); }
                if let Some(i) = inc { println!("{} {} run {} inconclusive: {}", p, s, k, i); }
            }
        }
        println!("{} done", p);
    }
    (bad > 0) as i32
}
/// development aid: all violations of all oracles, grouped
pub fn sweep(secs: u64, prop: Option<String>, seed: u64) -> i32 {
    let scratch = Scratch::new();
    for p in scen::PROPS {
        if prop.as_ref().map(|x| !x.split(',').any(|y| y == *p)).unwrap_or(false) { continue; }
        let profs = profiles(p, &scratch.0);
        let dl = Instant::now() + Duration::from_secs(secs);
        type Row = BTreeMap<String, (u64, u64, String)>;
        let outs = par(workers(), &scratch.0, &|w, b| {
            let sh = os::alloc_shared();
            let mut m: Row = BTreeMap::new();
            let mut k = w as u64;
            let mut runs = 0u64;
            while Instant::now() < dl {
                let plan = plan_of(p, seed, k, &profs);
                let o = run_plan(&plan, b, sh, false);
                runs += 1;
                if let Some(i) = &o.inconclusive { let e = m.entry(format!("?? {} {}", plan.scen, i)).or_insert((0, k, String::new())); e.0 += 1; }
                else {
                    let mut seen = HashSet::new();
                    for v in oracle::judge(&plan, &o) {
                        let key = format!("{} {} [{}]", v.prop, v.kind, plan.scen);
                        if !seen.insert(key.clone()) { continue; }
                        let e = m.entry(key).or_insert((0, k, v.msg.clone()));
                        e.0 += 1;
                    }
                }
                k += workers() as u64;
            }
            m.insert("runs".into(), (runs, 0, String::new()));
            serde_json::to_vec(&m).unwrap()
        });
        let mut t: Row = BTreeMap::new();
        for o in outs {
            let r: Row = serde_json::from_slice(&o).unwrap_or_default();
            for (k, v) in r { let e = t.entry(k).or_insert((0, v.1, v.2.clone())); e.0 += v.0; if v.1 < e.1 { e.1 = v.1; e.2 = v.2; } }
        }
        println!("== {}", p);
        for (k, v) in t { println!("{:6} {}  (k={}) {}", v.0, k, v.1, v.2.chars().take(300).collect::<String>()); }
    }
    0
}
#[allow(unused)]
fn unused(_: *mut Shared) {}
