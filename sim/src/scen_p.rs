//! Pub/sub and store workloads.
use crate::gen::*;
use crate::os::*;
use crate::plan::*;

type G = (Cfg, Vec<Epoch>);
fn n(x: &str) -> String { x.into() }
fn think(r: &mut Rng) -> Op { Op::Sleep(r.logu(1000, 120 * MS)) }

const TOPICS: &[&str] = &["a", "b", "a/b", "a/c", "a/b/c", "b/b", "a/b/c/d", "a/", "", "/a"];
const PATS: &[&str] = &["a", "a/b", "#", "+", "a/#", "a/+", "+/b", "a/+/c", "+/+", "a/b/#", "+/#", "b", "a/", "a/b/c", "+/+/+", "/+", ""];
/// one that matters for the topics in use
fn pat(r: &mut Rng, few: &[&str]) -> String {
    if r.chance(2, 3) {
        let t: Vec<&str> = r.pick(few).split('/').collect();
        let mut p: Vec<String> = t.iter().map(|x| if r.chance(1, 3) { n("+") } else { n(x) }).collect();
        if r.chance(1, 4) { let k = r.below(p.len() as u64 + 1) as usize; p.truncate(k); p.push(n("#")); }
        return p.join("/");
    }
    if few.iter().any(|t| t.is_empty() || t.starts_with('/')) { return n(r.pick(PATS)); }
    n(r.pick(&PATS[..PATS.len() - 2]))
}
fn psize(r: &mut Rng) -> u32 { match r.below(24) { 0 => 0, 1 => r.logu(1000, 30_000) as u32, _ => r.range(8, 60) as u32 } }
fn few(r: &mut Rng) -> Vec<&'static str> {
    let k = if r.chance(1, 4) { TOPICS.len() } else { TOPICS.len() - 2 };
    (0..r.range(1, 4)).map(|_| *r.pick(&TOPICS[..k])).collect()
}

/// subscribers that come and go, publishers
pub fn p_mix(r: &mut Rng, p: Option<&Prof>, churn: bool) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let mut t = Tags(0);
    let topics = few(r);
    let tcp = *r.pick(&[0u64, 50, 100, 100]);
    // connections that hold little
    if r.chance(1, 3) { cfg.set("CHANNEL_CAPACITY_SOCKET_WRITE", *r.pick(&[1u64, 1, 2, 8])); }
    let retain = r.chance(1, 3);
    // kept values expire under the feet of subscribers
    let swept = retain && r.chance(1, 2);
    if swept { cfg.set("PUBSUB_CLEANUP_INTERVAL_SECS", *r.pick(&[1u64, 1, 2])); }
    let mut cl = vec![];
    let publ = |r: &mut Rng, t: &mut Tags| {
        let ret = retain && r.chance(1, if swept { 2 } else { 3 });
        let tp = if ret && r.chance(1, 4) { format!("{}/{}", r.pick(&topics), r.pick(&["b", "x"])) } else { n(r.pick(&topics)) };
        Op::Pub { t: tp, tag: t.next(), size: psize(r), retain: if ret { Some(true) } else { *r.pick(&[None, Some(false)]) }, ttl: if ret { *r.pick(&[None, Some(1), Some(if swept { 1 } else { 100 })]) } else { None } }
    };
    for _ in 0..r.range(1, 4) {
        let mut pats: Vec<String> = (0..r.range(1, 4)).map(|_| pat(r, &topics)).collect();
        let mut ops = vec![];
        for q in &pats { if r.chance(2, 3) { ops.push(Op::Sub { t: q.clone() }); } }
        for _ in 0..r.below(if churn { 14 } else { 7 }) {
            if r.chance(1, 8) { pats.push(pat(r, &topics)); }
            let q = r.pick(&pats).clone();
            match r.below(if churn { 14 } else { 9 }) {
                0..=2 => ops.push(Op::Sub { t: q }),
                3..=4 => ops.push(Op::Unsub { t: q }),
                5 => { ops.push(Op::Unsub { t: q.clone() }); ops.push(Op::Sub { t: q }); }
                6 => ops.push(publ(r, &mut t)),
                7..=8 => ops.push(think(r)),
                9 => { ops.push(if r.chance(1, 2) { Op::Close } else { Op::Reset }); ops.push(Op::Reconnect); for q in &pats { ops.push(Op::Sub { t: q.clone() }); } }
                10 => { ops.push(Op::NoWait(Box::new(Op::Sub { t: q }))); if r.chance(1, 2) { ops.push(if r.chance(1, 2) { Op::Close } else { Op::Reset }); ops.push(Op::Reconnect); } }
                11 => { ops.push(Op::NoWait(Box::new(Op::Sub { t: q.clone() }))); ops.push(Op::NoWait(Box::new(Op::Unsub { t: q }))); ops.push(Op::Flush); }
                12 => ops.push(Op::Stall(r.logu(MS, 300 * MS))),
                _ => ops.push(Op::PScan),
            }
        }
        if churn && r.chance(1, 4) { ops.push(match r.below(3) { 0 => Op::HalfClose, 1 => Op::Close, _ => Op::Reset }); }
        ops.push(Op::At(8 * S));
        cl.push(client(r, tcp, ops));
    }
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(2, 16) {
            let o = publ(r, &mut t);
            ops.push(if r.chance(1, 6) { Op::NoWait(Box::new(o)) } else { o });
            if r.chance(1, 3) { ops.push(if swept && r.chance(1, 3) { pause(r) } else { think(r) }); }
        }
        if swept && r.chance(2, 3) {
            ops.push(Op::At(r.range(3, 7) * S + r.logu(MS, S)));
            for _ in 0..r.range(1, 4) { ops.push(publ(r, &mut t)); }
        }
        ops.push(Op::Flush);
        cl.push(client(r, tcp, ops));
    }
    let mut probe = vec![Op::Sleep(S), Op::PScan];
    for q in topics.iter().take(2) { probe.push(Op::PProbe { t: n(q) }); }
    let s = sched(r, p);
    (cfg, vec![epoch(vec![], cl, probe, s)])
}

fn ttl(r: &mut Rng) -> Option<u64> { *r.pick(&[None, None, Some(0), Some(1), Some(1), Some(2), Some(3), Some(1000), Some(u64::MAX)]) }

/// retained values, looked at from all sides
pub fn p_ret(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("PUBSUB_CLEANUP_INTERVAL_SECS", *r.pick(&[1u64, 1, 2, 60]));
    cfg.set("PUBSUB_DEFAULT_RETAINED_TTL_SECS", *r.pick(&[1u64, 2, 3600]));
    let mut t = Tags(0);
    let topics = few(r);
    let tcp = *r.pick(&[0u64, 0, 50, 100]);
    let timed = r.chance(1, 2);
    let mut cl = vec![];
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(2, 9) {
            let tp = n(r.pick(&topics));
            ops.push(match r.below(8) {
                0 => Op::Pub { t: tp, tag: t.next(), size: 0, retain: Some(true), ttl: None },
                1 => Op::Pub { t: tp, tag: t.next(), size: 20, retain: None, ttl: None },
                _ => Op::Pub { t: tp, tag: t.next(), size: psize(r).max(1), retain: Some(true), ttl: if timed { ttl(r) } else { *r.pick(&[None, Some(1000)]) } },
            });
            if r.chance(1, 2) { ops.push(if timed { pause(r) } else { think(r) }); }
        }
        cl.push(client(r, tcp, ops));
    }
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(2, 8) {
            let q = if r.chance(1, 2) { n(r.pick(&topics)) } else { pat(r, &topics) };
            match r.below(10) {
                0..=5 => ops.push(Op::PProbe { t: q }),
                6 => ops.push(Op::Sub { t: q }),
                7 => { ops.push(Op::Unsub { t: q.clone() }); ops.push(Op::Sub { t: q }); }
                _ => ops.push(Op::PScan),
            }
            if r.chance(2, 3) { ops.push(if timed { pause(r) } else { think(r) }); }
        }
        ops.push(Op::Sleep(6 * S));
        cl.push(client(r, tcp, ops));
    }
    let mut probe = vec![Op::PProbe { t: n("#") }, Op::PScan];
    if r.chance(1, 2) { probe.push(Op::Sleep(4 * S)); probe.push(Op::PProbe { t: n("#") }); probe.push(Op::PScan); }
    let s = sched(r, p);
    (cfg, vec![epoch(vec![], cl, probe, s)])
}
/// up to, or until shortly before or after, the next full second
fn pause(r: &mut Rng) -> Op {
    match r.below(6) {
        0 => Op::At(r.range(1, 5) * S),
        1 => Op::At((r.range(1, 5) * S).saturating_sub(r.logu(1, 2 * MS))),
        2 => Op::At(r.range(1, 5) * S + r.logu(1, 2 * MS)),
        3 => Op::Sleep(r.logu(1000, 1500 * MS)),
        _ => think(r),
    }
}

pub fn p_crash(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.set("PUBSUB_RETAINED_FLUSH_MS", *r.pick(&[20u64, 50, 200, 500]));
    cfg.set("PUBSUB_CLEANUP_INTERVAL_SECS", *r.pick(&[1u64, 60]));
    let mut t = Tags(0);
    let topics = few(r);
    let timed = r.chance(1, 3);
    let k = r.range(2, 4);
    let mut eps = vec![];
    for e in 0..k {
        let last = e + 1 == k;
        let mut setup = vec![];
        if e > 0 { setup.push(Op::PProbe { t: n("#") }); }
        let mut s = sched(r, p);
        let mut cl = vec![];
        for _ in 0..if last { r.below(2) } else { r.range(1, 3) } {
            let mut ops = vec![];
            for _ in 0..r.range(1, 9) {
                let tp = n(r.pick(&topics));
                ops.push(match r.below(6) {
                    0 => Op::Pub { t: tp, tag: t.next(), size: 0, retain: Some(true), ttl: None },
                    1 => Op::PProbe { t: tp },
                    _ => Op::Pub { t: tp, tag: t.next(), size: psize(r).max(1), retain: Some(true), ttl: if timed { *r.pick(&[None, Some(1), Some(2), Some(4)]) } else { None } },
                });
                if r.chance(1, 2) { ops.push(Op::Sleep(r.logu(MS, 700 * MS))); }
            }
            cl.push(client(r, 20, ops));
        }
        let mut probe = vec![];
        if last {
            probe.push(Op::PProbe { t: n("#") });
            if timed { probe.push(Op::Sleep(r.logu(100 * MS, 5 * S))); probe.push(Op::PProbe { t: n("#") }); }
        } else { probe.push(Op::Sleep(r.logu(MS, 1200 * MS))); }
        let span = p.map(|p| p.ns).unwrap_or(800 * MS).min(3 * S);
        let c = if last || r.chance(1, 6) { CrashAt::Never } else { crash(r, p, &mut s, span) };
        let mut ep = epoch(setup, cl, probe, s);
        ep.crash = c;
        ep.down_ns = if timed { r.logu(MS, 6 * S) } else { r.logu(MS, 2 * S) };
        if !last && e > 0 && r.chance(1, 8) { ep.early = true; ep.crash = CrashAt::Io { n: 1 + r.below(30), permille: *r.pick(&[0u32, 500, 1000]) }; }
        eps.push(ep);
    }
    (cfg, eps)
}

fn kop(r: &mut Rng, k: String, t: &mut Tags, ttl: &[Option<u64>]) -> Op {
    match r.below(10) {
        0..=3 => Op::KSet { k, tag: t.next(), size: psize(r), ttl: *r.pick(ttl) },
        4..=7 => Op::KGet { k },
        8 => Op::KDel { k },
        _ => if r.chance(1, 3) { Op::KScan } else { Op::KGet { k } },
    }
}
pub fn k_mix(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("STORE_CLEANUP_INTERVAL_SECS", *r.pick(&[1u64, 60]));
    let mut t = Tags(0);
    let keys: Vec<String> = (0..r.range(1, 3)).map(|i| format!("k{}", i)).collect();
    let tcp = *r.pick(&[0u64, 0, 50, 100]);
    let mut cl = vec![];
    for _ in 0..r.range(2, 5) {
        let mut ops = vec![];
        for _ in 0..r.range(3, 14) {
            let k = r.pick(&keys).clone();
            let o = kop(r, k, &mut t, &[None, Some(1000), Some(0), Some(u64::MAX)]);
            ops.push(if r.chance(1, 4) { Op::NoWait(Box::new(o)) } else { o });
            if r.chance(1, 5) { ops.push(think(r)); }
        }
        ops.push(Op::Flush);
        cl.push(client(r, tcp, ops));
    }
    let mut probe: Vec<Op> = keys.iter().map(|k| Op::KGet { k: k.clone() }).collect();
    probe.push(Op::KScan);
    let s = sched(r, p);
    (cfg, vec![epoch(vec![], cl, probe, s)])
}
/// short lives; everything happens around the moments of expiry and of the sweep
pub fn k_ttl(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("STORE_CLEANUP_INTERVAL_SECS", *r.pick(&[1u64, 1, 2, 3]));
    cfg.set("STORE_TTL_SECS", *r.pick(&[1u64, 2, 3]));
    let mut t = Tags(0);
    let keys: Vec<String> = (0..r.range(1, 4)).map(|i| format!("k{}", i)).collect();
    let tcp = *r.pick(&[0u64, 0, 30]);
    let mut setup = vec![];
    for k in &keys { if r.chance(2, 3) { setup.push(Op::KSet { k: k.clone(), tag: t.next(), size: 20, ttl: *r.pick(&[None, Some(1), Some(1), Some(2), Some(0)]) }); } }
    let mut cl = vec![];
    for _ in 0..r.range(1, 4) {
        let mut ops = vec![];
        for _ in 0..r.range(3, 10) {
            if r.chance(2, 3) { ops.push(pause(r)); }
            for _ in 0..r.range(1, 2) { let k = r.pick(&keys).clone(); ops.push(kop(r, k, &mut t, &[None, Some(1), Some(1), Some(2), Some(3), Some(0), Some(1 << 40)])); }
        }
        cl.push(client(r, tcp, ops));
    }
    let mut probe = vec![];
    for _ in 0..r.range(1, 3) {
        for k in &keys { probe.push(Op::KGet { k: k.clone() }); }
        probe.push(Op::KScan);
        probe.push(Op::Sleep(r.logu(100 * MS, 4 * S)));
    }
    probe.push(Op::KScan);
    let mut e = epoch(setup, cl, probe, sched(r, p));
    // the wall clock does not matter here
    if r.chance(1, 4) { e.jumps.push(ClockJump { at: r.logu(MS, 3 * S), delta: *r.pick(&[3_600_000_000_000i64, -3_600_000_000_000]) }); }
    (cfg, vec![e])
}
