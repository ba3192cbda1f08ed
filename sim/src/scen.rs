//! Workload and fault generators.
use crate::gen::*;
use crate::os::*;
use crate::plan::*;
use crate::scen_p::*;
use crate::scen_s::*;
use crate::scen_t::*;
use crate::scen_v::*;

pub const PROPS: &[&str] = &["Q01", "Q02", "Q03", "Q04", "Q05", "Q06", "Q07",
    "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10",
    "P01", "P02", "P03", "P04", "K01", "K02", "T01", "T02", "T03", "D01", "D02", "N01", "V01"];

/// scenarios used for a property, with repetition as weight
pub fn names(prop: &str) -> &'static [&'static str] {
    match prop {
        "Q01" => &["q-mix", "q-race", "q-mix", "q-seq"],
        "Q02" => &["q-mix", "q-race", "q-race"],
        "Q03" => &["q-order", "q-mix", "q-seq", "q-order-crash"],
        "Q04" => &["q-mix", "q-race", "q-seq"],
        "Q05" => &["q-wake"],
        "Q06" => &["q-crash"],
        "Q07" => &["q-life", "q-life-crash"],
        "S01" => &["s-log"],
        "S02" => &["s-group", "s-race"],
        "S03" => &["s-wake", "s-group"],
        "S04" => &["s-race", "s-group"],
        "S05" => &["s-group", "s-race"],
        "S06" => &["s-crash"],
        "S07" => &["s-gcrash"],
        "S08" => &["s-ret"],
        "S09" => &["s-seek"],
        "S10" => &["s-life", "s-life-crash"],
        "P01" => &["p-mix", "p-mix", "p-churn"],
        "P02" => &["p-ret", "p-ret", "p-mix"],
        "P03" => &["p-crash"],
        "P04" => &["p-churn"],
        "K01" => &["k-mix", "k-mix", "k-ttl"],
        "K02" => &["k-ttl"],
        "T01" => &["t-pipe", "t-pipe", "t-pipe-main"],
        "T02" => &["t-hostile", "t-hostile", "t-hostile-main"],
        "T03" => &["t-close"],
        "D01" => &["d-queue", "d-stream", "d-groups", "d-retained", "d-queue", "d-stream", "d-groups", "d-retained", "d-q-live", "d-s-live", "d-p-live"],
        "D02" => &["b-start", "b-start", "b-start", "d-read", "d-read-q"],
        "N01" => &["n-names"],
        "V01" => &["v-q", "v-s", "v-p", "v-k", "v-page", "v-page", "v-odd", "v-main"],
        _ => &[],
    }
}
pub fn quick_runs(_prop: &str) -> u64 { 1_000_000 }

pub fn gen(prop: &str, name: &str, seed: u64, profs: &Profs) -> Plan {
    let mut r = Rng::new(seed);
    let p = profs.get(name);
    let (cfg, epochs) = match name {
        "q-mix" => q_mix(&mut r, p),
        "q-race" => q_race(&mut r, p),
        "q-seq" => q_seq(&mut r, p),
        "q-order" => q_order(&mut r, p),
        "q-order-crash" => q_order_crash(&mut r, p),
        "q-wake" => q_wake(&mut r, p),
        "q-crash" => q_crash(&mut r, p),
        "q-life" => q_life(&mut r, p, false),
        "q-life-crash" => q_life(&mut r, p, true),
        "s-log" => s_log(&mut r, p),
        "s-group" => s_group(&mut r, p),
        "s-race" => s_race(&mut r, p),
        "s-wake" => s_wake(&mut r, p),
        "s-seek" => s_seek(&mut r, p),
        "s-crash" => s_crash(&mut r, p, false),
        "s-gcrash" => s_crash(&mut r, p, true),
        "s-ret" => s_ret(&mut r, p),
        "s-life" => s_life(&mut r, p, false),
        "s-life-crash" => s_life(&mut r, p, true),
        "p-mix" => p_mix(&mut r, p, false),
        "p-churn" => p_mix(&mut r, p, true),
        "p-ret" => p_ret(&mut r, p),
        "p-crash" => p_crash(&mut r, p),
        "k-mix" => k_mix(&mut r, p),
        "k-ttl" => k_ttl(&mut r, p),
        "t-pipe" => t_pipe(&mut r, p),
        "t-hostile" => t_hostile(&mut r, p),
        "t-close" => t_close(&mut r, p),
        "d-queue" => { let b = q_crash(&mut r, p); outages(&mut r, p, C_QUEUE, b) }
        "d-stream" => { let b = s_crash(&mut r, p, false); outages(&mut r, p, C_STREAM, b) }
        "d-groups" => { let b = s_crash(&mut r, p, true); outages(&mut r, p, *Rng::new(seed ^ 1).pick(&[C_GROUPS, C_STREAM, C_GROUPS | C_STREAM]), b) }
        "d-retained" => { let b = p_crash(&mut r, p); outages(&mut r, p, C_RETAINED, b) }
        "d-q-live" => { let b = q_mix(&mut r, p); outages(&mut r, p, C_QUEUE, b) }
        "d-s-live" => { let b = s_group(&mut r, p); outages(&mut r, p, C_STREAM | C_GROUPS, b) }
        "b-start" => b_start(&mut r, p),
        "d-read" => { let b = if Rng::new(seed ^ 1).chance(1, 2) { s_group(&mut r, p) } else { s_log(&mut r, p) }; unreadable(&mut r, p, C_STREAM | C_GROUPS, b) }
        "d-read-q" => { let b = q_mix(&mut r, p); unreadable(&mut r, p, C_QUEUE, b) }
        "d-p-live" => { let b = p_ret(&mut r, p); outages(&mut r, p, C_RETAINED, b) }
        "t-pipe-main" => { let b = t_pipe(&mut r, p); mainify(&mut r, b) }
        "t-hostile-main" => { let b = t_hostile(&mut r, p); mainify(&mut r, b) }
        "v-q" => { let b = match r.below(3) { 0 => q_mix(&mut r, p), 1 => q_life(&mut r, p, false), _ => q_race(&mut r, p) }; webify(&mut r, b) }
        "v-s" => { let b = match r.below(4) { 0 => s_log(&mut r, p), 1 => s_group(&mut r, p), 2 => s_race(&mut r, p), _ => s_life(&mut r, p, false) }; webify(&mut r, b) }
        "v-p" => { let b = if r.chance(1, 2) { p_ret(&mut r, p) } else { let c = r.chance(1, 2); p_mix(&mut r, p, c) }; webify(&mut r, b) }
        "v-k" => { let b = k_mix(&mut r, p); webify(&mut r, b) }
        "v-page" => v_page(&mut r, p),
        "v-odd" => { let b = match r.below(4) { 0 => q_mix(&mut r, p), 1 => s_group(&mut r, p), 2 => p_ret(&mut r, p), _ => k_mix(&mut r, p) }; v_odd(&mut r, b) }
        "v-main" => {
            let b = match r.below(9) { 0 => q_mix(&mut r, p), 1 => q_life(&mut r, p, true), 2 => s_log(&mut r, p), 3 => s_group(&mut r, p), 4 => s_crash(&mut r, p, true), 5 => { let c = r.chance(1, 2); p_mix(&mut r, p, c) } 6 => p_ret(&mut r, p), 7 => q_crash(&mut r, p), _ => k_mix(&mut r, p) };
            let b = if r.chance(1, 2) { webify(&mut r, b) } else { b };
            mainify(&mut r, b)
        }
        "n-names" => n_names(&mut r, p),
        _ => panic!("scenario {}", name),
    };
    let (cfg, epochs) = crate::scen_b::bulk(name, seed, cfg, epochs);
    Plan { prop: prop.into(), scen: name.into(), seed, cfg, epochs }
}

type G = (Cfg, Vec<Epoch>);

fn qsel(r: &mut Rng) -> Sel {
    match r.below(20) { 0 => Sel::Bogus(r.below(3) as u32), 1..=4 => Sel::Any(r.below(40) as u32), _ => Sel::Held(r.below(4) as u32) }
}
fn prio(r: &mut Rng) -> Option<u8> {
    match r.below(8) { 0 => None, 1 => Some(255), 2 => Some(1), _ => Some(r.below(3) as u8) }
}
fn think(r: &mut Rng) -> Op { Op::Sleep(r.logu(1000, 120 * MS)) }

fn qop(r: &mut Rng, q: &str, t: &mut Tags) -> Op {
    let q = q.to_string();
    match r.below(40) {
        0..=9 => Op::QPush { q, tag: t.next(), size: size(r), prio: prio(r) },
        10..=17 => Op::QConsume { q, max: *r.pick(&[None, Some(1), Some(1), Some(2), Some(3)]), wait: *r.pick(&[Some(0), Some(0), Some(1), Some(30), Some(200)]) },
        18..=18 => Op::QPop { q },
        19..=23 => Op::QAck { q, sel: qsel(r) },
        24..=28 => Op::QNack { q, sel: qsel(r), reason: format!("r{}", r.below(4)) },
        29..=31 => Op::QPeek { q, limit: *r.pick(&[1u32, 2, 100]), offset: *r.pick(&[0u32, 0, 1]) },
        32..=33 => Op::QMove { q, sel: qsel(r) },
        34 => Op::QDelDlq { q, sel: qsel(r) },
        35 => if r.chance(1, 3) { Op::QPurge { q } } else { Op::QSnap },
        36 => Op::QSnap,
        _ => think(r),
    }
}
fn vt(r: &mut Rng) -> u64 { *r.pick(&[60u64, 100, 150, 400, 2000, 3_000_000]) }

fn q_mix(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let mut t = Tags(0);
    let nq = r.range(1, 2);
    let qs: Vec<String> = (0..nq).map(|i| format!("q{}", i)).collect();
    let mut setup = vec![];
    for q in &qs {
        setup.push(Op::QCreate { q: q.clone(), vt: Some(vt(r)), retries: Some(*r.pick(&[1u32, 1, 2, 2, 3, 5, 0])) });
        for _ in 0..r.below(4) { setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: size(r), prio: prio(r) }); }
    }
    let tcp = *r.pick(&[0u64, 0, 30, 100]);
    let mut cl = vec![];
    for _ in 0..r.range(2, 5) {
        let mut ops = vec![];
        for _ in 0..r.range(3, 12) { let q = r.pick(&qs).clone(); ops.push(qop(r, &q, &mut t)); }
        cl.push(client(r, tcp, ops));
    }
    let mut probe = vec![Op::QSnap];
    for q in &qs { probe.push(Op::QDump { q: q.clone() }); }
    for q in &qs { probe.push(Op::QDrain { q: q.clone() }); }
    let s = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, s)])
}

/// few messages, everybody after the same ones, leases expiring right then
fn q_race(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let mut t = Tags(0);
    let q = "q".to_string();
    let v = *r.pick(&[50u64, 60, 100, 3_000_000]);
    let retries = *r.pick(&[1u32, 1, 2, 2, 3]);
    let n = r.range(1, 3);
    let mut setup = vec![Op::QCreate { q: q.clone(), vt: Some(v), retries: Some(retries) }];
    for _ in 0..n { setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: 10, prio: Some(r.below(2) as u8) }); }
    // leases taken (or exhausted) before the race
    let pre = r.below(retries as u64 + 1);
    for i in 0..pre {
        setup.push(Op::QConsume { q: q.clone(), max: Some(n), wait: Some(0) });
        if v > 1000 || i + 1 < pre || r.chance(1, 2) { for _ in 0..n { setup.push(Op::QNack { q: q.clone(), sel: Sel::Held(0), reason: "pre".into() }); } }
    }
    let centre = if v < 1000 { v * MS } else { MS };
    let mut cl = vec![];
    for _ in 0..r.range(2, 4) {
        let mut ops = vec![];
        ops.push(Op::At(match r.below(3) { 0 => 0, 1 => r.below(2 * centre), _ => (centre + r.below(50 * MS)).saturating_sub(r.below(5 * MS)) }));
        for _ in 0..r.range(1, 4) {
            let sel = if r.chance(1, 2) { Sel::Any(r.below(4) as u32) } else { Sel::Held(0) };
            ops.push(match r.below(12) {
                0..=2 => Op::QConsume { q: q.clone(), max: Some(r.range(1, 3)), wait: Some(*r.pick(&[0u64, 0, 60])) },
                3..=4 => Op::QAck { q: q.clone(), sel },
                5..=6 => Op::QNack { q: q.clone(), sel, reason: format!("r{}", r.below(3)) },
                7..=8 => Op::QMove { q: q.clone(), sel: Sel::Any(r.below(4) as u32) },
                9 => Op::QDelDlq { q: q.clone(), sel: Sel::Any(r.below(4) as u32) },
                10 => if r.chance(1, 2) { Op::QPurge { q: q.clone() } } else { Op::QSnap },
                _ => Op::QPeek { q: q.clone(), limit: 10, offset: 0 },
            });
        }
        cl.push(client(r, 20, ops));
        cl.last_mut().unwrap().start_ns = 0;
    }
    let probe = vec![Op::QSnap, Op::QPeek { q: q.clone(), limit: 100, offset: 0 }, Op::QDrain { q }];
    let s = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, s)])
}

/// one client; compared step by step with a reference model
fn q_seq(r: &mut Rng, p: Option<&Prof>) -> G {
    let cfg = base_cfg(r);
    let mut t = Tags(0);
    let qs = ["a".to_string(), "b".to_string()];
    let mut ops = vec![];
    for q in &qs { ops.push(Op::QCreate { q: q.clone(), vt: Some(*r.pick(&[1000u64, 5000, 3_000_000])), retries: Some(*r.pick(&[1u32, 2, 3, 4])) }); }
    let nq = r.range(1, 2);
    for _ in 0..r.range(10, 60) {
        let q = qs[r.below(nq) as usize].clone();
        let o = match r.below(30) {
            0 => Op::Sleep(7 * S),
            1..=2 => Op::Sleep(1500 * MS),
            3..=4 => Op::QDump { q },
            5 => Op::QSnap,
            6..=7 => Op::QPeek { q, limit: *r.pick(&[1u32, 2, 3, 100]), offset: r.below(3) as u32 },
            _ => { let mut o = qop(r, &q, &mut t); if let Op::Sleep(_) = o { o = Op::QSnap; } if let Op::QConsume { wait, .. } = &mut o { *wait = Some(0); } o }
        };
        ops.push(o);
    }
    let c = Client { tcp: if r.chance(1, 3) { Some(net(r)) } else { None }, start_ns: 0, ops };
    let s = sched(r, p);
    (cfg, vec![epoch(vec![], vec![c], vec![Op::QDump { q: "a".into() }, Op::QDump { q: "b".into() }], s)])
}

fn q_order(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let mut t = Tags(0);
    let q = "q".to_string();
    let levels = *r.pick(&[1u64, 2, 3, 6]);
    let pr = |r: &mut Rng| Some(match levels { 6 => *r.pick(&[0u8, 1, 127, 128, 254, 255]), n => r.below(n) as u8 });
    let mut setup = vec![Op::QCreate { q: q.clone(), vt: Some(*r.pick(&[100u64, 3_000_000])), retries: Some(r.range(1, 4) as u32) }];
    for _ in 0..r.below(8) { let x = pr(r); setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: 12, prio: x }); }
    let mut cl = vec![];
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(2, 8) { let x = pr(r); ops.push(Op::QPush { q: q.clone(), tag: t.next(), size: 12, prio: x }); if r.chance(1, 4) { ops.push(think(r)); } }
        cl.push(client(r, 20, ops));
    }
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(2, 8) {
            ops.push(match r.below(10) { 0 => Op::QPop { q: q.clone() }, _ => Op::QConsume { q: q.clone(), max: *r.pick(&[Some(1), Some(2), Some(5), None]), wait: Some(*r.pick(&[0u64, 20, 100])) } });
            match r.below(4) { 0 => ops.push(Op::QNack { q: q.clone(), sel: Sel::Held(r.below(3) as u32), reason: "n".into() }), 1 => ops.push(Op::QAck { q: q.clone(), sel: Sel::Held(0) }), 2 => if r.chance(1, 3) { ops.push(think(r)) }, _ => {} }
        }
        cl.push(client(r, 20, ops));
    }
    let s = sched(r, p);
    (cfg, vec![epoch(setup, cl, vec![Op::QDrain { q }], s)])
}

/// priorities and push order across kills and restarts
fn q_order_crash(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("QUEUE_DEFAULT_FLUSH_MS", *r.pick(&[10u64, 50]));
    if r.chance(1, 3) { cfg.set("QUEUE_WRITER_BATCH_SIZE", *r.pick(&[1u64, 2, 10])); }
    let mut t = Tags(0);
    let q = "q".to_string();
    let levels = *r.pick(&[1u64, 1, 2, 3, 6]);
    let pr = |r: &mut Rng| Some(match levels { 6 => *r.pick(&[0u8, 1, 127, 128, 254, 255]), n => r.below(n) as u8 });
    let n = r.range(2, 3);
    let mut eps = vec![];
    for e in 0..n {
        let last = e + 1 == n;
        let mut setup = vec![];
        if e == 0 { setup.push(Op::QCreate { q: q.clone(), vt: Some(*r.pick(&[100u64, 3_000_000])), retries: Some(r.range(1, 4) as u32) }); }
        setup.push(Op::QDump { q: q.clone() });
        if !last { for _ in 0..r.below(12) { let x = pr(r); setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: 12, prio: x }); } }
        let mut cl = vec![];
        for _ in 0..r.below(3) {
            let mut ops = vec![];
            for _ in 0..r.range(1, 8) { let x = pr(r); ops.push(Op::QPush { q: q.clone(), tag: t.next(), size: 12, prio: x }); if r.chance(1, 4) { ops.push(think(r)); } }
            cl.push(client(r, 20, ops));
        }
        for _ in 0..r.below(3) {
            let mut ops = vec![];
            for _ in 0..r.range(1, 4) {
                ops.push(match r.below(10) { 0 => Op::QPop { q: q.clone() }, _ => Op::QConsume { q: q.clone(), max: *r.pick(&[Some(1), Some(2), Some(3)]), wait: Some(*r.pick(&[0u64, 20])) } });
                match r.below(4) { 0 => ops.push(Op::QNack { q: q.clone(), sel: Sel::Held(r.below(3) as u32), reason: "n".into() }), 1 => ops.push(Op::QAck { q: q.clone(), sel: Sel::Held(0) }), 2 => if r.chance(1, 3) { ops.push(think(r)) }, _ => {} }
            }
            cl.push(client(r, 20, ops));
        }
        let mut s = sched(r, p);
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if last || r.chance(1, 3) { CrashAt::Never } else { crash(r, p, &mut s, span) };
        let probe = if last { vec![Op::QDrain { q: q.clone() }] } else { vec![Op::Sleep(r.logu(10 * MS, 400 * MS))] };
        let mut ep = epoch(setup, cl, probe, s);
        ep.crash = c;
        ep.down_ns = r.logu(MS, S);
        eps.push(ep);
    }
    (cfg, eps)
}

fn q_wake(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let mut t = Tags(0);
    let q = "q".to_string();
    let v = *r.pick(&[60u64, 200, 1000, 3_000_000]);
    let retries = *r.pick(&[1u32, 2, 5]);
    let mut setup = vec![Op::QCreate { q: q.clone(), vt: Some(v), retries: Some(retries) }];
    // something leased or dead-lettered that may come back
    for _ in 0..r.below(3) {
        setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: 10, prio: None });
        setup.push(Op::QConsume { q: q.clone(), max: Some(1), wait: Some(0) });
        if r.chance(1, 3) { for _ in 0..retries { setup.push(Op::QNack { q: q.clone(), sel: Sel::Held(0), reason: "x".into() }); setup.push(Op::QConsume { q: q.clone(), max: Some(1), wait: Some(0) }); } }
    }
    if r.chance(1, 3) { cfg.set("QUEUE_DEFAULT_WAIT_MS", r.range(1, 3000)); }
    let waits = [Some(0u64), Some(1), Some(20), Some(300), Some(5000), None];
    let mut cl = vec![];
    let wtcp = *r.pick(&[0u64, 0, 100]);
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            ops.push(Op::QConsume { q: q.clone(), max: Some(*r.pick(&[1u64, 1, 2, 10])), wait: *r.pick(&waits) });
            match r.below(4) { 0 => ops.push(Op::QNack { q: q.clone(), sel: Sel::Held(0), reason: "n".into() }), 1 => ops.push(Op::QAck { q: q.clone(), sel: Sel::Held(0) }), _ => {} }
        }
        let mut c = client(r, wtcp, ops);
        if let Some(n) = &mut c.tcp { n.gap_ns = 0; }
        cl.push(c);
    }
    for _ in 0..r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 5) {
            if r.chance(2, 3) { ops.push(Op::Sleep(r.logu(1000, 400 * MS))); }
            ops.push(match r.below(10) {
                0..=4 => Op::QPush { q: q.clone(), tag: t.next(), size: 10, prio: prio(r) },
                5..=6 => Op::QNack { q: q.clone(), sel: Sel::Any(r.below(5) as u32), reason: "w".into() },
                7..=8 => Op::QMove { q: q.clone(), sel: Sel::Any(r.below(5) as u32) },
                _ => Op::QConsume { q: q.clone(), max: Some(1), wait: Some(0) },
            });
        }
        cl.push(client(r, 0, ops));
    }
    let s = sched(r, p);
    (cfg, vec![epoch(setup, cl, vec![], s)])
}

fn q_crash(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.set("QUEUE_DEFAULT_FLUSH_MS", *r.pick(&[10u64, 50, 100]));
    if r.chance(1, 3) { cfg.set("QUEUE_WRITER_BATCH_SIZE", *r.pick(&[1u64, 2, 3, 10])); }
    let mut t = Tags(0);
    let nq = r.range(1, 2);
    let qs: Vec<String> = (0..nq).map(|i| format!("q{}", i)).collect();
    let n = r.range(2, 4);
    let mut eps = vec![];
    for e in 0..n {
        let mut setup = vec![];
        for q in &qs {
            if e == 0 { setup.push(Op::QCreate { q: q.clone(), vt: Some(*r.pick(&[80u64, 500, 2000, 3_000_000])), retries: Some(*r.pick(&[1u32, 2, 3, 5])) }); }
            setup.push(Op::QDump { q: q.clone() });
        }
        let last = e + 1 == n;
        let mut cl = vec![];
        let mut probe = vec![];
        let mut s = sched(r, p);
        if last { for q in &qs { probe.push(Op::QDrain { q: q.clone() }); } }
        let tcp = *r.pick(&[0u64, 0, 40]);
        for _ in 0..if last { r.below(3) } else { r.range(1, 4) } {
            let mut ops = vec![];
            for _ in 0..r.range(3, 16) {
                let q = r.pick(&qs).clone();
                let o = qop(r, &q, &mut t);
                ops.push(o);
                if r.chance(1, 5) { ops.push(Op::Sleep(r.logu(MS, 200 * MS))); }
            }
            cl.push(client(r, tcp, ops));
        }
        if !last { probe.push(Op::Sleep(r.logu(MS, 400 * MS))); }
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if last || r.chance(1, 8) { CrashAt::Never } else { crash(r, p, &mut s, span) };
        let mut ep = epoch(setup, cl, probe, s);
        ep.crash = c;
        ep.down_ns = r.logu(MS, 2 * S);
        if !last && e > 0 && r.chance(1, 8) { ep.early = true; ep.crash = CrashAt::Io { n: 1 + r.below(30), permille: *r.pick(&[0u32, 500, 1000]) }; }
        eps.push(ep);
    }
    (cfg, eps)
}

fn q_life(r: &mut Rng, p: Option<&Prof>, crashes: bool) -> G {
    let cfg = { let mut c = base_cfg(r); c.workers = c.workers.max(2); c };
    let mut t = Tags(0);
    let q = "q".to_string();
    let by = "by".to_string();
    let n = if crashes { r.range(2, 3) } else { r.range(1, 2) };
    let mut eps = vec![];
    for e in 0..n {
        let last = e + 1 == n;
        let mut setup = vec![];
        if e == 0 { setup.push(Op::QCreate { q: by.clone(), vt: Some(3_000_000), retries: Some(3) }); setup.push(Op::QPush { q: by.clone(), tag: t.next(), size: 10, prio: None }); setup.push(Op::Sleep(300 * MS)); }
        setup.push(Op::QSnap);
        setup.push(Op::QDump { q: q.clone() });
        if r.chance(1, 2) { setup.push(Op::QCreate { q: q.clone(), vt: Some(r.range(1000, 9000)), retries: Some(r.range(1, 9) as u32) }); }
        let mut cl = vec![];
        for _ in 0..r.range(1, 3) {
            let mut ops = vec![];
            for _ in 0..r.range(2, 9) {
                let q = q.clone();
                ops.push(match r.below(20) {
                    0..=3 => Op::QCreate { q, vt: if r.chance(1, 4) { None } else { Some(r.range(1000, 9000)) }, retries: if r.chance(1, 4) { None } else { Some(r.range(1, 9) as u32) } },
                    4..=6 => Op::QDelete { q },
                    7..=10 => Op::QPush { q, tag: t.next(), size: size(r), prio: None },
                    11..=12 => Op::QConsume { q, max: Some(2), wait: Some(*r.pick(&[0u64, 0, 40])) },
                    13 => Op::QAck { q, sel: Sel::Held(0) },
                    14 => Op::QNack { q, sel: Sel::Held(0), reason: "x".into() },
                    15 => Op::QExists { q },
                    16 => Op::QSnap,
                    17 => if r.chance(1, 2) { Op::QDump { q } } else { Op::QPeek { q, limit: 10, offset: 0 } },
                    18 => Op::QPush { q: by.clone(), tag: t.next(), size: 10, prio: None },
                    _ => think(r),
                });
            }
            cl.push(client(r, 25, ops));
        }
        let mut probe = vec![Op::QSnap, Op::QDump { q: q.clone() }, Op::QExists { q: q.clone() }];
        if last {
            probe.push(Op::QDump { q: by.clone() });
            probe.push(Op::QCreate { q: q.clone(), vt: Some(2222), retries: Some(2) });
            probe.push(Op::QSnap);
            probe.push(Op::QDump { q: q.clone() });
            probe.push(Op::QDelete { q: q.clone() });
            probe.push(Op::QExists { q: q.clone() });
            probe.push(Op::QCreate { q: q.clone(), vt: Some(3333), retries: Some(3) });
            probe.push(Op::QSnap);
            probe.push(Op::QDump { q: q.clone() });
            probe.push(Op::QDrain { q: by.clone() });
        } else if r.chance(1, 2) { probe.push(Op::Sleep(300 * MS)); }
        let mut s = sched(r, p);
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if crashes && !last { crash(r, p, &mut s, span) } else { CrashAt::Never };
        let mut ep = epoch(setup, cl, probe, s);
        ep.crash = c;
        ep.down_ns = r.logu(MS, S);
        eps.push(ep);
    }
    (cfg, eps)
}
