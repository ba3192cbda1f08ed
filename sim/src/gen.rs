//! Plan generation: scheduling, faults, shared helpers.
use crate::os::*;
use crate::plan::*;
use std::collections::BTreeMap;

/// What calibration runs of a scenario looked like.
#[derive(Clone, Default)]
pub struct Prof {
    /// instrumented blocks reached while armed, with the largest hit count seen
    pub guards: Vec<(u32, u32)>,
    pub yields: u64,
    pub io_ops: u64,
    pub ns: u64,
}
pub type Profs = BTreeMap<String, Prof>;

pub const MS: u64 = 1_000_000;
pub const S: u64 = 1_000_000_000;

pub fn dflt_sched(seed: u64) -> Sched {
    Sched { seed, policy: Policy::Random { p_sync: 4000, gap: 0 }, targets: vec![], devs: vec![], dt: 1000 }
}

/// a reached code block, mostly one of the server's own code
fn aim(r: &mut Rng, p: &Prof) -> (u32, u32) {
    let mut x = *r.pick(&p.guards);
    for _ in 0..4 { if crate::guards::kind(x.0) == crate::guards::OWN { break; } x = *r.pick(&p.guards); }
    x
}
pub fn sched(r: &mut Rng, prof: Option<&Prof>) -> Sched {
    let seed = r.next();
    let dt = *r.pick(&[100u64, 500, 2000, 2000, 50_000]);
    let yields = prof.map(|p| p.yields.max(1000)).unwrap_or(50_000);
    let policy = match r.below(10) {
        0..=4 => Policy::Random { p_sync: *r.pick(&[0u32, 1000, 5000, 15000, 30000, 50000]), gap: *r.pick(&[0u32, 0, 60, 300, 1500, 8000]) },
        5..=7 => {
            let n = r.range(1, 12);
            let mut p: Vec<u64> = (0..n).map(|_| 1 + r.below(yields)).collect();
            p.sort();
            p.dedup();
            Policy::Pct { points: p }
        }
        _ => Policy::Random { p_sync: *r.pick(&[0u32, 300, 3000]), gap: 0 },
    };
    let mut targets = vec![];
    if let Some(p) = prof {
        if !p.guards.is_empty() && r.chance(7, 10) {
            for _ in 0..r.range(1, 3) {
                let (g, n) = aim(r, p);
                let nth = 1 + r.below(n.min(60) as u64) as u32;
                let act = if r.chance(1, 3) { Act::Switch } else { Act::Stall(r.logu(2_000, 150 * MS)) };
                targets.push(Target { guard: g, nth, act });
            }
        }
    }
    Sched { seed, policy, targets, devs: vec![], dt }
}

/// somewhere in a run like those seen
pub fn crash(r: &mut Rng, prof: Option<&Prof>, sch: &mut Sched, span: u64) -> CrashAt {
    let p = prof.cloned().unwrap_or(Prof { guards: vec![], yields: 50_000, io_ops: 60, ns: span });
    match r.below(10) {
        0..=5 => CrashAt::Io { n: 1 + r.below(p.io_ops.max(4)), permille: *r.pick(&[0u32, 0, 1, 250, 500, 800, 999, 1000]) },
        6..=7 => CrashAt::Time { ns: 1 + r.below(span.max(1000)) },
        _ => {
            if p.guards.is_empty() { CrashAt::Time { ns: 1 + r.below(span.max(1000)) } } else {
                let (g, n) = aim(r, &p);
                sch.targets.truncate(3);
                sch.targets.push(Target { guard: g, nth: 1 + r.below(n.min(200) as u64) as u32, act: Act::Crash });
                // in case the point is not reached
                CrashAt::Time { ns: span }
            }
        }
    }
}

pub fn net(r: &mut Rng) -> Net {
    Net {
        chunk: *r.pick(&[0u32, 0, 1, 3, 7, 30, 300]),
        gap_ns: if r.chance(1, 2) { 0 } else { r.logu(1000, 5 * MS) },
        rchunk: *r.pick(&[0u32, 0, 0, 1, 11, 100]),
        sndbuf: *r.pick(&[0u32, 0, 0, 4608]),
        seed: r.next(),
    }
}
pub fn base_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg { env: vec![], workers: *r.pick(&[1usize, 2, 2, 3, 4]) };
    c.set("QUEUE_DEFAULT_FLUSH_MS", *r.pick(&[10u64, 50, 100, 100]));
    c.set("STREAM_DEFAULT_FLUSH_MS", *r.pick(&[5u64, 20, 50, 50]));
    c.set("PUBSUB_RETAINED_FLUSH_MS", *r.pick(&[50u64, 200, 500]));
    c
}
pub fn epoch(setup: Vec<Op>, clients: Vec<Client>, probe: Vec<Op>, sched: Sched) -> Epoch {
    Epoch { setup, clients, probe, crash: CrashAt::Never, disk: vec![], jumps: vec![], sched, down_ns: 0, early: false, limit_ns: 3600 * S }
}
pub fn client(r: &mut Rng, tcp_pct: u64, ops: Vec<Op>) -> Client {
    Client { tcp: if r.chance(tcp_pct, 100) { Some(net(r)) } else { None }, start_ns: if r.chance(1, 3) { r.logu(1000, 20 * MS) } else { 0 }, ops }
}
pub struct Tags(pub u64);
impl Tags {
    pub fn next(&mut self) -> u64 { self.0 += 1; self.0 }
}
pub fn size(r: &mut Rng) -> u32 {
    match r.below(20) { 0 => r.logu(1000, 20_000) as u32, 1 => 1, _ => r.range(8, 80) as u32 }
}
