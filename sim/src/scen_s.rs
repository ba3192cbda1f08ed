//! Stream workloads.
use crate::gen::*;
use crate::os::*;
use crate::plan::*;

type G = (Cfg, Vec<Epoch>);
fn n(x: &str) -> String { x.into() }
fn create(s: &str) -> Op { Op::SCreate { s: n(s), age: None, bytes: None, ret: false } }
fn think(r: &mut Rng) -> Op { Op::Sleep(r.logu(1000, 120 * MS)) }
fn ssize(r: &mut Rng, big: bool) -> u32 {
    match r.below(16) { 0 => 0, 1 if big => r.logu(5000, 30_000) as u32, 2 => 1, _ => r.range(8, 90) as u32 }
}
fn sel(r: &mut Rng) -> Sel {
    match r.below(20) { 0 => Sel::Bogus(r.below(3) as u32), 1..=3 => Sel::Any(r.below(12) as u32), _ => Sel::Held(r.below(3) as u32) }
}
/// small memory, small segments
fn storage(r: &mut Rng, cfg: &mut Cfg) {
    if r.chance(3, 4) { cfg.set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[1u64, 60, 200, 500, 2000, 20_000])); }
    if r.chance(3, 4) {
        let soft = r.range(1, 12);
        cfg.set("STREAM_RAM_SOFT_LIMIT", soft);
        cfg.set("STREAM_RAM_HARD_LIMIT", soft + *r.pick(&[0u64, 1, 3, 20, 1000]));
        cfg.set("STREAM_EVICTION_INTERVAL_MS", *r.pick(&[5u64, 10, 30, 60]));
    }
    if r.chance(1, 2) { cfg.set("STREAM_MAX_OPEN_FILES", r.range(1, 3)); }
}

pub fn s_log(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    storage(r, &mut cfg);
    let mut t = Tags(0);
    let names: Vec<String> = (0..r.range(1, 2)).map(|i| format!("s{}", i)).collect();
    let mut setup = vec![];
    for s in &names {
        setup.push(create(s));
        for _ in 0..r.below(8) { setup.push(Op::SPub { s: s.clone(), tag: t.next(), size: ssize(r, true) }); }
    }
    let tcp = *r.pick(&[0u64, 0, 30, 100]);
    let mut cl = vec![];
    let grp = r.chance(1, 3);
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(3, 20) {
            let s = r.pick(&names).clone();
            ops.push(Op::SPub { s, tag: t.next(), size: ssize(r, true) });
            if r.chance(1, 5) { ops.push(think(r)); }
        }
        cl.push(client(r, tcp, ops));
    }
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        let g = grp && r.chance(1, 2);
        let s0 = r.pick(&names).clone();
        if g { ops.push(Op::SJoin { s: s0.clone(), g: n("g") }); }
        for _ in 0..r.range(3, 14) {
            let s = r.pick(&names).clone();
            if g && r.chance(2, 3) {
                ops.push(Op::SFetch { s: s0.clone(), g: n("g"), limit: r.range(1, 8) as u32, wait: *r.pick(&[0u32, 0, 20, 100]) });
                if r.chance(1, 2) { ops.push(Op::SAckAll { s: s0.clone(), g: n("g") }); }
                continue;
            }
            ops.push(match r.below(8) {
                0 => Op::SReadAll { s, chunk: *r.pick(&[1u64, 2, 7, 100]) },
                1 => think(r),
                2 => Op::SSnap,
                _ => Op::SRead { s, from: r.below(24), limit: *r.pick(&[1u64, 2, 3, 10, 1000, u64::MAX]) },
            });
        }
        cl.push(client(r, tcp, ops));
    }
    let mut probe = vec![];
    if r.chance(1, 2) { probe.push(Op::Sleep(300 * MS)); }
    for s in &names { probe.push(Op::SReadAll { s: s.clone(), chunk: *r.pick(&[1u64, 3, 100]) }); }
    probe.push(Op::SSnap);
    let mut s = sched(r, p);
    // restart in between
    if r.chance(1, 4) {
        probe.push(Op::Sleep(2 * S));
        let e1 = epoch(setup, cl, probe, s);
        let mut setup = vec![Op::SSnap];
        for s in &names { setup.push(Op::SReadAll { s: s.clone(), chunk: *r.pick(&[1u64, 3, 100]) }); }
        let s0 = r.pick(&names).clone();
        let ops: Vec<Op> = (0..r.below(8)).map(|_| match r.below(3) { 0 => Op::SRead { s: s0.clone(), from: r.below(20), limit: r.range(1, 20) }, _ => Op::SPub { s: s0.clone(), tag: t.next(), size: ssize(r, true) } }).collect();
        let c = client(r, 0, ops);
        s = sched(r, p);
        let probe = names.iter().map(|s| Op::SReadAll { s: s.clone(), chunk: 5 }).collect();
        let e2 = epoch(setup, vec![c], probe, s);
        return (cfg, vec![e1, e2]);
    }
    (cfg, vec![epoch(setup, cl, probe, s)])
}

fn drain(cfg: &Cfg, s: &str, g: &str) -> Op {
    let w = cfg.get("STREAM_ACK_WAIT_MS").unwrap_or(30_000);
    Op::SDrain { s: n(s), g: n(g), limit: 10, wait: w as u32 + 400, idle: 2 }
}
fn group_cfg(r: &mut Rng, cfg: &mut Cfg) {
    cfg.set("STREAM_ACK_WAIT_MS", *r.pick(&[50u64, 120, 200, 300, 1000, 20_000]));
    cfg.set("STREAM_MAX_DELIVERIES", *r.pick(&[1u64, 2, 2, 3, 4]));
    if r.chance(1, 2) { cfg.set("STREAM_MAX_ACK_PENDING", r.range(1, 5)); }
    if r.chance(1, 4) {
        let soft = r.range(1, 4);
        cfg.set("STREAM_RAM_SOFT_LIMIT", soft);
        cfg.set("STREAM_RAM_HARD_LIMIT", soft + *r.pick(&[0u64, 1, 1000]));
        cfg.set("STREAM_EVICTION_INTERVAL_MS", *r.pick(&[5u64, 10, 30]));
        cfg.set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[1u64, 60, 200, 2000]));
    }
}
/// what a group member does next
fn gop(r: &mut Rng, s: &str, g: &str, life: bool) -> Vec<Op> {
    let (s, g) = (n(s), n(g));
    match r.below(if life { 20 } else { 16 }) {
        0..=6 => vec![Op::SFetch { s, g, limit: *r.pick(&[1u32, 1, 2, 3, 10]), wait: *r.pick(&[0u32, 0, 10, 100, 400]) }],
        7..=10 => vec![Op::SAck { s, g, sel: sel(r) }],
        11 => vec![Op::SAckAll { s, g }],
        12 => vec![Op::SSnap],
        13..=15 => vec![think(r)],
        16 => vec![Op::SLeave { s: s.clone(), g: g.clone() }, Op::SJoin { s, g }],
        17 => vec![if r.chance(1, 2) { Op::Close } else { Op::Reset }, Op::Reconnect, Op::SJoin { s, g }],
        18 => vec![Op::SLeave { s, g }],
        _ => vec![Op::SJoin { s, g }],
    }
}

pub fn s_group(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    group_cfg(r, &mut cfg);
    let mut t = Tags(0);
    let gs: Vec<String> = (0..*r.pick(&[1u64, 1, 2])).map(|i| format!("g{}", i)).collect();
    let s = "s";
    let mut setup = vec![create(s)];
    for _ in 0..r.below(6) { setup.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); }
    let tcp = *r.pick(&[0u64, 0, 30, 100]);
    let life = r.chance(2, 3);
    let mut cl = vec![];
    for _ in 0..r.range(2, 4) {
        let g = r.pick(&gs).clone();
        let mut ops = vec![Op::SJoin { s: n(s), g: g.clone() }];
        for _ in 0..r.range(2, 9) { ops.extend(gop(r, s, &g, life)); }
        if r.chance(1, 6) { ops.push(Op::Close); }
        cl.push(client(r, tcp, ops));
    }
    if r.chance(2, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 5) { ops.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); if r.chance(1, 2) { ops.push(think(r)); } }
        cl.push(client(r, 0, ops));
    }
    let mut probe = vec![Op::SSnap];
    for g in &gs { probe.push(drain(&cfg, s, g)); }
    probe.push(Op::SSnap);
    probe.push(Op::SReadAll { s: n(s), chunk: 10 });
    let sc = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, sc)])
}

/// few events; leases end, members leave and acks come in at the same moment
pub fn s_race(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let w = *r.pick(&[50u64, 80, 150, 20_000]);
    cfg.set("STREAM_ACK_WAIT_MS", w);
    cfg.set("STREAM_MAX_DELIVERIES", *r.pick(&[1u64, 1, 2, 3]));
    if r.chance(1, 2) { cfg.set("STREAM_MAX_ACK_PENDING", r.range(1, 3)); }
    let mut t = Tags(0);
    let s = "s";
    let k = r.range(1, 4);
    let mut setup = vec![create(s)];
    for _ in 0..k { setup.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); }
    let mut cl = vec![];
    let centre = if w < 1000 { w * MS } else { 2 * MS };
    for i in 0..r.range(2, 4) {
        let (s, g) = (n(s), n("g"));
        let mut ops = vec![Op::SJoin { s: s.clone(), g: g.clone() }];
        if i == 0 || r.chance(1, 2) { ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: k as u32, wait: *r.pick(&[0u32, 0, 200]) }); }
        if r.chance(2, 3) { ops.push(Op::At(match r.below(3) { 0 => MS, 1 => r.below(2 * centre), _ => (centre + r.below(110 * MS)).saturating_sub(r.below(5 * MS)) })); }
        for _ in 0..r.range(1, 5) {
            ops.push(match r.below(12) {
                0..=3 => Op::SFetch { s: s.clone(), g: g.clone(), limit: r.range(1, 3) as u32, wait: *r.pick(&[0u32, 0, 150]) },
                4..=6 => Op::SAck { s: s.clone(), g: g.clone(), sel: if r.chance(1, 4) { Sel::Any(r.below(5) as u32) } else { Sel::Held(r.below(2) as u32) } },
                7 => Op::SAckAll { s: s.clone(), g: g.clone() },
                8 => Op::SLeave { s: s.clone(), g: g.clone() },
                9 => Op::SPub { s: s.clone(), tag: t.next(), size: 12 },
                10 => Op::SSnap,
                _ => if r.chance(1, 2) { Op::Close } else { Op::SJoin { s: s.clone(), g: g.clone() } },
            });
            if matches!(ops.last(), Some(Op::Close)) { ops.push(Op::Reconnect); ops.push(Op::SJoin { s: s.clone(), g: g.clone() }); }
        }
        let mut c = client(r, 25, ops);
        c.start_ns = 0;
        cl.push(c);
    }
    let probe = vec![Op::SSnap, drain(&cfg, s, "g"), Op::SSnap, Op::SReadAll { s: n(s), chunk: 10 }];
    let sc = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, sc)])
}

pub fn s_wake(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("STREAM_ACK_WAIT_MS", *r.pick(&[60u64, 200, 1000, 20_000]));
    cfg.set("STREAM_MAX_DELIVERIES", *r.pick(&[1u64, 2, 3, 5]));
    if r.chance(1, 4) { cfg.set("STREAM_MAX_ACK_PENDING", r.range(1, 4)); }
    if r.chance(1, 4) {
        cfg.set("STREAM_RAM_SOFT_LIMIT", r.range(1, 3));
        cfg.set("STREAM_RAM_HARD_LIMIT", 1000);
        cfg.set("STREAM_EVICTION_INTERVAL_MS", *r.pick(&[5u64, 20]));
    }
    let mut t = Tags(0);
    let s = "s";
    let mut setup = vec![create(s)];
    for _ in 0..*r.pick(&[0u64, 0, 0, 1, 2, 5]) { setup.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); }
    if r.chance(1, 3) { setup.push(Op::Sleep(100 * MS)); }
    let mut cl = vec![];
    let wtcp = *r.pick(&[0u64, 0, 100]);
    for _ in 0..r.range(1, 3) {
        let (s, g) = (n(s), n("g"));
        let mut ops = vec![Op::SJoin { s: s.clone(), g: g.clone() }];
        for _ in 0..r.range(1, 5) {
            ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: *r.pick(&[1u32, 1, 2, 10]), wait: *r.pick(&[0u32, 1, 20, 300, 5000]) });
            match r.below(5) { 0..=1 => ops.push(Op::SAckAll { s: s.clone(), g: g.clone() }), 2 => ops.push(Op::SAck { s: s.clone(), g: g.clone(), sel: Sel::Held(0) }), 3 if r.chance(1, 2) => ops.push(think(r)), _ => {} }
        }
        match r.below(8) { 0 => ops.push(Op::SLeave { s: s.clone(), g: g.clone() }), 1 => ops.push(Op::Close), _ => {} }
        let mut c = client(r, wtcp, ops);
        if let Some(x) = &mut c.tcp { x.gap_ns = 0; }
        cl.push(c);
    }
    for _ in 0..r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            if r.chance(2, 3) { ops.push(Op::Sleep(r.logu(1000, 400 * MS))); }
            ops.push(Op::SPub { s: n(s), tag: t.next(), size: 12 });
        }
        cl.push(client(r, 0, ops));
    }
    if r.chance(1, 4) {
        // a member that gives up in the middle of a fetch
        let ops = vec![Op::SJoin { s: n(s), g: n("g") }, Op::NoWait(Box::new(Op::SFetch { s: n(s), g: n("g"), limit: 2, wait: 1000 })), Op::Sleep(r.logu(1000, 100 * MS)), if r.chance(1, 2) { Op::Close } else { Op::Reset }];
        let mut c = client(r, 100, ops);
        if let Some(x) = &mut c.tcp { x.chunk = 0; x.gap_ns = 0; }
        cl.push(c);
    }
    let probe = vec![Op::SSnap, drain(&cfg, s, "g"), Op::SSnap, Op::SReadAll { s: n(s), chunk: 10 }];
    let sc = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, sc)])
}

pub fn s_seek(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    group_cfg(r, &mut cfg);
    let mut t = Tags(0);
    let s = "s";
    let mut setup = vec![create(s)];
    for _ in 0..r.below(6) { setup.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); }
    let tcp = *r.pick(&[0u64, 0, 40]);
    let mut cl = vec![];
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![Op::SJoin { s: n(s), g: n("g") }];
        for _ in 0..r.range(2, 8) {
            let life = r.chance(1, 4);
            ops.extend(gop(r, s, "g", life));
            if r.chance(1, 6) { ops.push(Op::SJoin { s: n(s), g: n("g") }); }
        }
        cl.push(client(r, tcp, ops));
    }
    for _ in 0..r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            if r.chance(2, 3) { ops.push(Op::Sleep(r.logu(1000, 200 * MS))); }
            ops.push(match r.below(4) { 0 => Op::SPub { s: n(s), tag: t.next(), size: 12 }, _ => Op::SSeek { s: n(s), g: n("g"), end: r.chance(1, 2) } });
        }
        cl.push(client(r, tcp, ops));
    }
    let mut probe = vec![Op::SSnap];
    if r.chance(1, 3) { probe.push(Op::SSeek { s: n(s), g: n("g"), end: r.chance(1, 2) }); probe.push(Op::SSnap); probe.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); }
    probe.extend([drain(&cfg, s, "g"), Op::SSnap, Op::SReadAll { s: n(s), chunk: 10 }]);
    let sc = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, sc)])
}

pub fn s_crash(r: &mut Rng, p: Option<&Prof>, groups: bool) -> G {
    let mut cfg = base_cfg(r);
    storage(r, &mut cfg);
    cfg.set("STREAM_DEFAULT_FLUSH_MS", *r.pick(&[2u64, 5, 20, 50]));
    if groups {
        cfg.set("STREAM_ACK_WAIT_MS", *r.pick(&[60u64, 200, 1000]));
        cfg.set("STREAM_MAX_DELIVERIES", *r.pick(&[1u64, 2, 3, 5]));
        if r.chance(1, 3) { cfg.set("STREAM_MAX_ACK_PENDING", r.range(1, 4)); }
    }
    let mut t = Tags(0);
    let names: Vec<String> = (0..*r.pick(&[1u64, 1, 2])).map(|i| format!("s{}", i)).collect();
    let gs: Vec<String> = if groups { (0..*r.pick(&[1u64, 1, 2])).map(|i| format!("g{}", i)).collect() } else { vec![] };
    let k = r.range(2, 4);
    let mut eps = vec![];
    let big = !groups && r.chance(1, 2);
    for e in 0..k {
        let last = e + 1 == k;
        let mut setup = vec![Op::SSnap];
        for s in &names { if e == 0 { setup.push(create(s)); } else { setup.push(Op::SReadAll { s: s.clone(), chunk: *r.pick(&[1u64, 4, 100]) }); } }
        if e == 0 { for s in &names { for _ in 0..r.below(5) { setup.push(Op::SPub { s: s.clone(), tag: t.next(), size: ssize(r, big) }); } } }
        let mut s = sched(r, p);
        let tcp = *r.pick(&[0u64, 0, 40]);
        let mut cl = vec![];
        for _ in 0..if last { r.below(2) } else { r.range(1, 3) } {
            let mut ops = vec![];
            for _ in 0..r.range(2, if groups { 6 } else { 14 }) {
                let s = r.pick(&names).clone();
                ops.push(match r.below(10) { 0 => Op::SRead { s, from: r.below(10), limit: 5 }, _ => Op::SPub { s, tag: t.next(), size: ssize(r, big) } });
                if r.chance(1, 4) { ops.push(Op::Sleep(r.logu(MS, 150 * MS))); }
            }
            cl.push(client(r, tcp, ops));
        }
        if groups && (!last || r.chance(1, 3)) {
            for _ in 0..r.range(1, 2) {
                let s = r.pick(&names).clone();
                let g = r.pick(&gs).clone();
                let mut ops = vec![Op::SJoin { s: s.clone(), g: g.clone() }];
                for _ in 0..r.range(2, 7) {
                    ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: r.range(1, 4) as u32, wait: *r.pick(&[0u32, 20, 100]) });
                    match r.below(4) { 0 => {} 1 => ops.push(Op::SAck { s: s.clone(), g: g.clone(), sel: sel(r) }), _ => ops.push(Op::SAckAll { s: s.clone(), g: g.clone() }) }
                    if r.chance(1, 3) { ops.push(Op::Sleep(r.logu(MS, 400 * MS))); }
                    if r.chance(1, 12) { ops.push(Op::SSeek { s: s.clone(), g: g.clone(), end: r.chance(1, 2) }); ops.push(Op::SJoin { s: s.clone(), g: g.clone() }); }
                }
                cl.push(client(r, tcp, ops));
            }
        }
        let mut probe = vec![];
        if last {
            for s in &names {
                for g in &gs { probe.push(drain(&cfg, s, g)); }
                probe.push(Op::SPub { s: s.clone(), tag: t.next(), size: 12 });
                probe.push(Op::SReadAll { s: s.clone(), chunk: *r.pick(&[1u64, 100]) });
            }
            probe.push(Op::SSnap);
        } else { probe.push(Op::Sleep(r.logu(MS, 800 * MS))); }
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if last || r.chance(1, 8) { CrashAt::Never } else { crash(r, p, &mut s, span) };
        let mut ep = epoch(setup, cl, probe, s);
        ep.crash = c;
        ep.down_ns = r.logu(MS, 2 * S);
        if !last && e > 0 && r.chance(1, 8) { ep.early = true; ep.crash = CrashAt::Io { n: 1 + r.below(30), permille: *r.pick(&[0u32, 500, 1000]) }; }
        eps.push(ep);
    }
    (cfg, eps)
}

pub fn s_ret(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    storage(r, &mut cfg);
    cfg.set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[1u64, 60, 150, 300, 1000]));
    cfg.set("STREAM_RETENTION_CHECK_MS", *r.pick(&[20u64, 50, 100, 300]));
    cfg.set("STREAM_ACK_WAIT_MS", *r.pick(&[60u64, 300]));
    cfg.set("STREAM_MAX_DELIVERIES", *r.pick(&[1u64, 2, 3]));
    let mut t = Tags(0);
    let s = "s";
    let (age, bytes) = match r.below(6) {
        0 => (Some(0), Some(0)),
        1 => (None, None),
        2 => (Some(*r.pick(&[50u64, 300, 2000])), Some(0)),
        3 => (Some(*r.pick(&[100u64, 1000])), Some(r.range(1, 1000))),
        _ => (Some(0), Some(r.logu(1, 1500))),
    };
    let by = "keep";
    let k = *r.pick(&[1u64, 1, 2, 3]);
    let grp = r.chance(2, 3);
    let mut eps = vec![];
    for e in 0..k {
        let last = e + 1 == k;
        let mut setup = vec![Op::SSnap];
        if e == 0 {
            setup.push(Op::SCreate { s: n(s), age, bytes, ret: true });
            setup.push(Op::SCreate { s: n(by), age: Some(0), bytes: Some(0), ret: true });
            for _ in 0..r.below(6) { setup.push(Op::SPub { s: n(s), tag: t.next(), size: ssize(r, false) }); }
            for _ in 0..r.below(3) { setup.push(Op::SPub { s: n(by), tag: t.next(), size: ssize(r, false) }); }
        } else { setup.push(Op::SReadAll { s: n(s), chunk: 3 }); setup.push(Op::SReadAll { s: n(by), chunk: 100 }); }
        let mut cl = vec![];
        for _ in 0..r.range(1, 2) {
            let mut ops = vec![];
            for _ in 0..r.range(2, 12) {
                ops.push(match r.below(8) { 0 => Op::SPub { s: n(by), tag: t.next(), size: 20 }, 1..=2 => think(r), _ => Op::SPub { s: n(s), tag: t.next(), size: ssize(r, false) } });
            }
            cl.push(client(r, 15, ops));
        }
        {
            let mut ops = vec![];
            for _ in 0..r.range(2, 8) { ops.push(match r.below(4) { 0 => think(r), 1 => Op::SReadAll { s: n(s), chunk: *r.pick(&[1u64, 3, 100]) }, _ => Op::SRead { s: n(s), from: r.below(20), limit: *r.pick(&[1u64, 3, 50]) } }); }
            cl.push(client(r, 15, ops));
        }
        if grp {
            let mut ops = vec![Op::SJoin { s: n(s), g: n("g") }];
            for _ in 0..r.range(2, 7) { ops.extend(gop(r, s, "g", false)); }
            cl.push(client(r, 15, ops));
        }
        let mut probe = vec![];
        if r.chance(1, 2) { probe.push(Op::Sleep(r.logu(10 * MS, 3 * S))); }
        if r.chance(1, 2) { probe.push(Op::SReadAll { s: n(s), chunk: *r.pick(&[1u64, 4]) }); probe.push(Op::Sleep(500 * MS)); }
        if grp && last { probe.push(drain(&cfg, s, "g")); }
        probe.push(Op::SReadAll { s: n(s), chunk: 100 });
        if r.chance(1, 2) { probe.push(Op::SPub { s: n(s), tag: t.next(), size: 12 }); probe.push(Op::SReadAll { s: n(s), chunk: 100 }); }
        probe.push(Op::SReadAll { s: n(by), chunk: 100 });
        probe.push(Op::SSnap);
        let mut sc = sched(r, p);
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if last || r.chance(1, 3) { CrashAt::Never } else { crash(r, p, &mut sc, span) };
        let mut ep = epoch(setup, cl, probe, sc);
        ep.crash = c;
        ep.down_ns = r.logu(MS, 2 * S);
        if r.chance(1, 4) { ep.jumps.push(ClockJump { at: r.logu(MS, 300 * MS), delta: *r.pick(&[-5i64, -1, 1, 5, 3600]) * *r.pick(&[S as i64, 100 * MS as i64]) }); }
        eps.push(ep);
    }
    (cfg, eps)
}

pub fn s_life(r: &mut Rng, p: Option<&Prof>, crashes: bool) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    if r.chance(1, 3) { cfg.set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[1u64, 100, 400])); }
    if r.chance(1, 3) { cfg.set("STREAM_MAX_OPEN_FILES", r.range(1, 2)); }
    cfg.set("STREAM_RETENTION_CHECK_MS", *r.pick(&[50u64, 600_000]));
    let mut t = Tags(0);
    let (s, by) = ("s", "by");
    let k = if crashes { r.range(2, 3) } else { r.range(1, 2) };
    let mut eps = vec![];
    let mk = |r: &mut Rng| Op::SCreate { s: n("s"), age: if r.chance(1, 2) { Some(r.range(1, 9) * 3_600_000) } else { None }, bytes: if r.chance(1, 2) { Some(r.range(1, 9) << 20) } else { Some(0) }, ret: r.chance(3, 4) };
    for e in 0..k {
        let last = e + 1 == k;
        let mut setup = vec![Op::SSnap];
        if e == 0 { setup.push(create(by)); setup.push(Op::SPub { s: n(by), tag: t.next(), size: 12 }); setup.push(Op::Sleep(700 * MS)); } else { setup.push(Op::SReadAll { s: n(by), chunk: 100 }); }
        setup.push(Op::SRead { s: n(s), from: 1, limit: 100 });
        if r.chance(2, 3) { setup.push(mk(r)); }
        let mut cl = vec![];
        for _ in 0..r.range(1, 3) {
            let mut ops = vec![];
            for _ in 0..r.range(2, 9) {
                let s = n(s);
                ops.push(match r.below(20) {
                    0..=3 => mk(r),
                    4..=6 => Op::SDelete { s },
                    7..=10 => Op::SPub { s, tag: t.next(), size: ssize(r, false) },
                    11 => Op::SRead { s, from: r.below(3), limit: 100 },
                    12 => Op::SJoin { s, g: n("g") },
                    13 => Op::SFetch { s, g: n("g"), limit: 3, wait: *r.pick(&[0u32, 0, 30]) },
                    14 => Op::SAckAll { s, g: n("g") },
                    15 => Op::SExists { s },
                    16 => Op::SSnap,
                    17 => Op::SSeek { s, g: n("g"), end: r.chance(1, 2) },
                    18 => Op::SPub { s: n(by), tag: t.next(), size: 12 },
                    _ => think(r),
                });
            }
            cl.push(client(r, 25, ops));
        }
        let mut probe = vec![Op::SSnap, Op::SExists { s: n(s) }, Op::SRead { s: n(s), from: 1, limit: 100 }];
        if last {
            probe.push(mk(r));
            probe.push(Op::SDelete { s: n(s) });
            probe.push(Op::SExists { s: n(s) });
            probe.push(mk(r));
            probe.push(Op::SSnap);
            probe.push(Op::SPub { s: n(s), tag: t.next(), size: 12 });
            probe.push(Op::SRead { s: n(s), from: 0, limit: 100 });
            probe.push(Op::SReadAll { s: n(by), chunk: 100 });
        } else if r.chance(1, 2) { probe.push(Op::Sleep(300 * MS)); }
        let mut sc = sched(r, p);
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if crashes && !last { crash(r, p, &mut sc, span) } else { CrashAt::Never };
        let mut ep = epoch(setup, cl, probe, sc);
        ep.crash = c;
        ep.down_ns = r.logu(MS, S);
        eps.push(ep);
    }
    (cfg, eps)
}
