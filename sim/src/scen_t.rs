//! Transport workloads: pipelining, hostile input, closed connections, odd names, disk outages.
use crate::client::{encode, hex, unhex};
use crate::gen::*;
use crate::os::*;
use crate::plan::*;

type G = (Cfg, Vec<Epoch>);
fn n(x: &str) -> String { x.into() }
fn think(r: &mut Rng) -> Op { Op::Sleep(r.logu(1000, 120 * MS)) }
fn nw(o: Op) -> Op { Op::NoWait(Box::new(o)) }
fn wire(r: &mut Rng, ops: Vec<Op>) -> Client { client(r, 100, ops) }
/// sizes that a byte-by-byte connection can carry in reasonable time
fn tsize(r: &mut Rng) -> u32 { match r.below(20) { 0 => 0, 1 => r.logu(300, 3000) as u32, _ => r.range(8, 60) as u32 } }

/// many requests under way at once on every connection
pub fn t_pipe(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("CHANNEL_CAPACITY_SOCKET_WRITE", *r.pick(&[1u64, 1, 2, 4, 1000]));
    let mut t = Tags(0);
    let k = r.range(1, 4);
    let shared = r.chance(1, 4);
    let mut setup = vec![];
    let names: Vec<String> = (0..k).map(|i| if shared { n("0") } else { i.to_string() }).collect();
    for i in 0..if shared { 1 } else { k } {
        setup.push(Op::QCreate { q: format!("q{}", i), vt: Some(3_000_000), retries: Some(3) });
        setup.push(Op::QCreate { q: format!("e{}", i), vt: Some(3_000_000), retries: Some(3) });
        setup.push(Op::SCreate { s: format!("s{}", i), age: None, bytes: None, ret: false });
    }
    let mut cl = vec![];
    for i in 0..k as usize {
        let me = &names[i];
        let mut ops = vec![];
        let long = *r.pick(&[15_000u64, 30_000]);
        if r.chance(3, 4) { ops.push(Op::Sub { t: if r.chance(1, 3) { n("t/#") } else { format!("t/{}", me) } }); }
        if r.chance(1, 2) {
            ops.push(Op::SJoin { s: format!("s{}", me), g: n("g") });
            if r.chance(2, 3) { ops.push(nw(Op::SFetch { s: format!("s{}", me), g: n("g"), limit: 5, wait: long as u32 })); }
        }
        let crowd = if r.chance(1, 8) { *r.pick(&[20u64, 40, 70, 140, 300]) } else { r.below(3) };
        for _ in 0..crowd { ops.push(nw(Op::QConsume { q: format!("e{}", me), max: Some(1), wait: Some(long) })); }
        for _ in 0..r.range(3, 22) {
            let o = match r.below(26) {
                0..=6 => Op::Echo { tag: t.next(), size: tsize(r) },
                7..=8 => Op::KSet { k: format!("k{}", me), tag: t.next(), size: tsize(r), ttl: None },
                9..=10 => Op::KGet { k: format!("k{}", me) },
                11 => Op::KDel { k: format!("k{}", me) },
                12..=13 => Op::QPush { q: format!("q{}", me), tag: t.next(), size: tsize(r).max(1), prio: None },
                14 => Op::QConsume { q: format!("q{}", me), max: Some(2), wait: Some(0) },
                15 => Op::QExists { q: if r.chance(1, 2) { format!("q{}", me) } else { n("nope") } },
                16 => Op::SPub { s: format!("s{}", me), tag: t.next(), size: tsize(r) },
                17 => Op::SExists { s: if r.chance(1, 2) { format!("s{}", me) } else { n("nope") } },
                18..=21 => Op::Pub { t: format!("t/{}", r.pick(&names)), tag: t.next(), size: tsize(r), retain: None, ttl: None },
                22 => Op::QPeek { q: format!("q{}", me), limit: 5, offset: 0 },
                23 => { ops.push(Op::Stall(r.logu(MS, 800 * MS))); continue; }
                24 => Op::QConsume { q: format!("e{}", me), max: Some(1), wait: Some(long) },
                _ => { ops.push(think(r)); continue; }
            };
            let waits = matches!(o, Op::QConsume { wait: Some(w), .. } if w > 0);
            ops.push(if waits || r.chance(3, 5) { nw(o) } else { o });
        }
        // something for the ones that wait
        if r.chance(1, 3) { ops.push(Op::QPush { q: format!("e{}", me), tag: t.next(), size: 20, prio: None }); }
        ops.push(Op::Flush);
        ops.push(Op::Sleep(6 * S));
        let mut c = wire(r, ops);
        if let Some(nt) = &mut c.tcp {
            if r.chance(1, 3) { nt.sndbuf = 4608; }
            nt.gap_ns = nt.gap_ns.min(if nt.chunk > 0 && nt.chunk < 30 { 200_000 } else { 5 * MS });
        }
        cl.push(c);
    }
    let s = sched(r, p);
    (cfg, vec![epoch(setup, cl, vec![Op::PScan], s)])
}

// ------------------------------------------------------------------ hostile input
fn be(n: u32) -> String { hex(&n.to_be_bytes()) }
fn st(s: &str) -> String { format!("{} {}", be(s.len() as u32), hex(s.as_bytes())) }
fn fr(op: u8, h: String) -> Op { Op::Frame { ftype: 1, op, hex: h } }
const U: u64 = u64::MAX;

fn some_op(r: &mut Rng, t: &mut Tags) -> Op {
    let big = *r.pick(&[0u64, 1, 1000, u32::MAX as u64, i64::MAX as u64, U - 1, U, 18_446_744_073_709_552, 9_223_372_036_855]);
    let q = n("zz-queue");
    let s = n("zz-stream");
    let g = n("zz-group");
    let tp = n(*r.pick(&["zz-topic", "zz-topic/b", "zz-topic/#", "zz-topic/+", "zz-topic//"]));
    let k = n("zz-key");
    let sel = Sel::Bogus(1);
    match r.below(29) {
        0..=2 => Op::QCreate { q, vt: Some(big), retries: Some(*r.pick(&[0u32, 1, u32::MAX])) },
        3..=4 => Op::QPush { q, tag: t.next(), size: 30, prio: Some(r.below(256) as u8) },
        5..=6 => Op::QConsume { q, max: Some(big), wait: Some(*r.pick(&[0u64, 0, 5, big])) },
        7 => Op::QAck { q, sel },
        8 => Op::QExists { q },
        9 => Op::QDelete { q },
        10 => Op::QPeek { q, limit: *r.pick(&[0u32, u32::MAX]), offset: *r.pick(&[0u32, u32::MAX]) },
        11 => Op::QMove { q, sel },
        12 => Op::QDelDlq { q, sel },
        13 => Op::QPurge { q },
        14 => Op::QNack { q, sel, reason: n("zz") },
        15 => Op::Pub { t: tp, tag: t.next(), size: 30, retain: Some(true), ttl: Some(big) },
        16 => Op::Sub { t: tp },
        17 => Op::Unsub { t: tp },
        18..=20 => Op::SCreate { s, age: Some(big), bytes: Some(*r.pick(&[0u64, 1, big])), ret: true },
        21 => Op::SPub { s, tag: t.next(), size: 30 },
        22 => Op::SFetch { s, g, limit: *r.pick(&[0u32, 1, u32::MAX]), wait: *r.pick(&[0u32, 0, 5, u32::MAX]) },
        23 => Op::SJoin { s, g },
        24 => Op::SAck { s, g, sel },
        25 => Op::SDelete { s },
        26 => Op::SSeek { s, g, end: r.chance(1, 2) },
        27 => Op::KSet { k, tag: t.next(), size: 30, ttl: Some(big) },
        _ => Op::SLeave { s, g },
    }
}
/// a valid request, as bytes
fn valid(r: &mut Rng, t: &mut Tags) -> (u8, Vec<u8>) {
    let o = some_op(r, t);
    let arg = match &o {
        Op::QAck { .. } | Op::QNack { .. } | Op::QMove { .. } | Op::QDelDlq { .. } => n("00000000-0000-0000-0b06-000000000001"),
        _ => format!("{} {} zz-consumer", r.pick(&[0u64, 1, U]), r.pick(&[0u64, 1, U])),
    };
    let (_, op, pl) = encode(&o, Some(&arg));
    (op, pl)
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        if b.is_empty() { b.push(r.next() as u8); continue; }
        let i = r.below(b.len() as u64) as usize;
        match r.below(8) {
            0 | 1 => b.truncate(i),
            2 => b[i] = r.next() as u8,
            3 => b[i] ^= 1 << r.below(8),
            4 => { if b.len() >= 4 { let x: u32 = *r.pick(&[0u32, 1, u32::MAX, 0x7fff_ffff, 1 << 20]); b[..4].copy_from_slice(&x.to_be_bytes()); } }
            5 => { let x = r.next() as u8; b.insert(i, x); }
            6 => b[i] = 0xff,
            _ => { let e = (i + 1 + r.below(8) as usize).min(b.len()); b.drain(i..e); }
        }
    }
}
const JSONS: &[&str] = &["", "{", "null", "[]", "[null]", "0", "\"x\"", "{\"ttl\":-1}", "{\"ttl\":1e400}", "{\"priority\":256}", "{\"priority\":-1}", "{\"batchSize\":-1}", "{\"waitMs\":1.5}", "{\"visibilityTimeoutMs\":99999999999999999999}",
    "{\"maxRetries\":4294967296}", "{\"retention\":null}", "{\"retention\":{}}", "{\"retention\":{\"maxAgeMs\":18446744073709551615,\"maxBytes\":18446744073709551615}}", "{\"retention\":{\"maxAgeMs\":-5}}", "{\"unknown\":1}", "{\"ttl\":null}", "{\"ttl\":1,\"ttl\":2}", "{} x", "{\"retain\":1}"];
fn bad_frame(r: &mut Rng, t: &mut Tags) -> Op {
    match r.below(24) {
        0..=2 => Op::Frame { ftype: *r.pick(&[0u8, 2, 3, 4, 255]), op: r.next() as u8, hex: hex(&valid(r, t).1) },
        3..=4 => fr(*r.pick(&[0x01u8, 0x05, 0x0f, 0x1b, 0x1f, 0x20, 0x24, 0x2f, 0x37, 0x3a, 0x3f, 0x40, 0x7f, 0x80, 0xff]), hex(&valid(r, t).1)),
        5..=10 => { let (op, mut b) = valid(r, t); mutate(r, &mut b); fr(op, hex(&b)) }
        11..=14 => { let (op, b) = valid(r, t); fr(op, hex(&b)) }
        15 => fr(r.next() as u8, hex(&(0..r.below(40)).map(|_| r.next() as u8).collect::<Vec<u8>>())),
        16..=18 => {
            let (op, nm) = *r.pick(&[(0x02u8, "zz-key"), (0x10, "zz-queue"), (0x11, "zz-queue"), (0x12, "zz-queue"), (0x21, "zz-topic"), (0x30, "zz-stream")]);
            fr(op, format!("{} {}", st(nm), st(*r.pick(JSONS))))
        }
        19 => {
            // deeply nested options
            let d = *r.pick(&[100u32, 200, 20_000]);
            let (op, nm) = *r.pick(&[(0x10u8, "zz-queue"), (0x30, "zz-stream"), (0x21, "zz-topic")]);
            fr(op, format!("{} {} 5b*{}", st(nm), be(d), d))
        }
        20 => {
            // very long or very deep names
            let len = *r.pick(&[0u32, 200, 250, 256, 300, 5000, 70_000]);
            let (op, tail) = *r.pick(&[(0x10u8, "00000002 7b7d"), (0x11, "00000002 7b7d 41"), (0x12, "00000002 7b7d"), (0x15, ""), (0x02, "00000002 7b7d 41"), (0x21, "0000000f 7b2272657461696e223a747275657d 41"), (0x22, ""), (0x23, ""), (0x30, "00000002 7b7d"), (0x31, "41"), (0x36, "")]);
            let mut c = *r.pick(&["7a", "7a", "2f", "00", "ff", "2e"]);
            // a topic of nothing but separators is somebody's topic
            if (op & 0xf0) == 0x20 && c == "2f" { c = "7a2f"; }
            let reps = if c.len() > 2 { len / 2 } else { len };
            fr(op, format!("{} {}*{} {}", be(reps * (c.len() / 2) as u32), c, reps, tail))
        }
        21 => fr(0x33, format!("{} 7a*{} {}", be(100_000), 100_000, st("zz-stream"))),
        22 => fr(0x33, format!("{} 7a*{} {}", be(1000), 1000, st("zz-stream"))),
        _ => fr(0x00, format!("7a*{}", r.logu(1, 60_000))),
    }
}
fn raw_header(r: &mut Rng, len: u32) -> String {
    let mut h = vec![*r.pick(&[1u8, 1, 2, 0, 255]), r.next() as u8, 0, 0, 0, 9];
    h.extend_from_slice(&len.to_be_bytes());
    hex(&h)
}
fn end(r: &mut Rng) -> Vec<Op> {
    match r.below(6) {
        0 | 1 => vec![Op::Close],
        2 | 3 => vec![Op::Reset],
        4 => vec![Op::HalfClose, Op::Sleep(r.logu(MS, S)), Op::Close],
        _ => vec![Op::Stall(r.logu(MS, 2 * S)), Op::Reset],
    }
}
fn hostile(r: &mut Rng, t: &mut Tags, max: u32) -> Vec<Op> {
    let mut ops = vec![];
    for _ in 0..r.range(1, 8) {
        match r.below(19) {
            16 => {
                // a member in good standing asks for the impossible
                let (s, g) = (n("zy-stream"), n("zy-group"));
                let huge = *r.pick(&[1_000_000u32, i32::MAX as u32, u32::MAX]);
                ops.push(Op::SCreate { s: s.clone(), age: None, bytes: None, ret: false });
                if r.chance(2, 3) { ops.push(Op::SPub { s: s.clone(), tag: t.next(), size: 30 }); }
                ops.push(Op::SJoin { s: s.clone(), g: g.clone() });
                ops.push(nw(Op::SFetch { s: s.clone(), g: g.clone(), limit: huge, wait: *r.pick(&[0u32, 5, u32::MAX]) }));
                match r.below(3) { 0 => ops.push(Op::SSeek { s: s.clone(), g: g.clone(), end: r.chance(1, 2) }), 1 => ops.push(Op::SLeave { s: s.clone(), g: g.clone() }), _ => {} }
            }
            17 => {
                let q = n("zy-queue");
                let huge = *r.pick(&[1_000_000u64, u32::MAX as u64, i64::MAX as u64, U]);
                ops.push(Op::QCreate { q: q.clone(), vt: Some(*r.pick(&[1u64, 1000, huge])), retries: Some(*r.pick(&[0u32, 1, u32::MAX])) });
                for _ in 0..r.below(3) { ops.push(Op::QPush { q: q.clone(), tag: t.next(), size: 30, prio: None }); }
                ops.push(nw(Op::QConsume { q: q.clone(), max: Some(huge), wait: Some(*r.pick(&[0u64, 5, huge])) }));
                if r.chance(1, 2) { ops.push(Op::QNack { q: q.clone(), sel: Sel::Held(0), reason: n("zz") }); ops.push(Op::QPeek { q: q.clone(), limit: huge as u32, offset: *r.pick(&[0u32, 1, u32::MAX]) }); }
            }
            0..=1 => {
                // a frame no one may send
                let l = *r.pick(&[max + 1, max + 1, max.saturating_mul(2), 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 9]);
                let h = raw_header(r, l);
                ops.push(Op::Raw { hex: if r.chance(1, 3) { format!("{} 00*{}", h, r.below(300)) } else { h } });
                ops.push(Op::Sleep(6 * S));
                ops.push(Op::Reconnect);
            }
            2..=3 => {
                let len = *r.pick(&[0u32, 1, 100, max]);
                let h = raw_header(r, len);
                let h = if r.chance(1, 2) { let k = r.range(1, 9) as usize; h[..2 * k].to_string() } else { format!("{} 00*{}", h, r.below(len.max(1) as u64)) };
                ops.push(Op::Raw { hex: h });
                if r.chance(1, 2) { ops.push(think(r)); }
                ops.extend(end(r));
                ops.push(Op::Reconnect);
            }
            4 => {
                let b: Vec<u8> = (0..r.range(1, 80)).map(|_| r.next() as u8).collect();
                ops.push(Op::Raw { hex: hex(&b) });
                ops.push(think(r));
                ops.extend(end(r));
                ops.push(Op::Reconnect);
            }
            5 => {
                // requests galore, and nobody reads the answers
                for _ in 0..r.range(5, 40) { let (op, b) = if r.chance(1, 2) { (0, vec![0x41; r.below(3000) as usize]) } else { valid(r, t) }; ops.push(nw(fr(op, hex(&b)))); }
                ops.push(Op::Stall(r.logu(MS, 3 * S)));
                ops.extend(end(r));
                ops.push(Op::Reconnect);
            }
            6 => {
                // subscribes to what it floods itself with
                ops.push(fr(0x22, st("zz-topic/#")));
                for _ in 0..r.range(3, 20) { ops.push(nw(fr(0x21, format!("{} {} 41*{}", st("zz-topic/x"), st("{}"), r.below(3000))))); }
                ops.push(Op::Stall(r.logu(MS, 3 * S)));
                ops.extend(end(r));
                ops.push(Op::Reconnect);
            }
            _ => {
                let f = bad_frame(r, t);
                if let Op::Frame { hex, .. } = &f { if unhex(hex).len() > max as usize { continue; } }
                let waits = matches!(&f, Op::Frame { op: 0x12 | 0x32, .. });
                ops.push(if waits || r.chance(1, 3) { nw(f) } else { f });
                if r.chance(1, 2) { ops.push(Op::Echo { tag: t.next(), size: 12 }); }
            }
        }
        if r.chance(1, 4) { ops.push(think(r)); }
    }
    ops.push(Op::Echo { tag: t.next(), size: 12 });
    if r.chance(1, 2) { ops.extend(end(r)); }
    ops
}
/// ordinary use of every kind of object
fn ordinary(r: &mut Rng, t: &mut Tags, i: usize, k: u64) -> Vec<Op> {
    let (q, s, g, tp, key) = (format!("q{}", i), format!("s{}", i), n("g"), format!("t{}", i), format!("k{}", i));
    let mut ops = vec![Op::Sub { t: tp.clone() }, Op::SJoin { s: s.clone(), g: g.clone() }];
    for _ in 0..k {
        match r.below(14) {
            0..=1 => ops.push(Op::QPush { q: q.clone(), tag: t.next(), size: tsize(r).max(1), prio: None }),
            2..=3 => { ops.push(Op::QConsume { q: q.clone(), max: Some(2), wait: Some(0) }); if r.chance(2, 3) { ops.push(Op::QAck { q: q.clone(), sel: Sel::Held(0) }); } }
            4..=5 => ops.push(Op::SPub { s: s.clone(), tag: t.next(), size: tsize(r) }),
            6..=7 => { ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: 5, wait: 0 }); if r.chance(2, 3) { ops.push(Op::SAckAll { s: s.clone(), g: g.clone() }); } }
            8 => ops.push(Op::Pub { t: tp.clone(), tag: t.next(), size: tsize(r).max(1), retain: *r.pick(&[None, Some(true)]), ttl: None }),
            9 => ops.push(Op::KSet { k: key.clone(), tag: t.next(), size: tsize(r), ttl: None }),
            10 => ops.push(Op::KGet { k: key.clone() }),
            11 => ops.push(Op::Echo { tag: t.next(), size: tsize(r) }),
            _ => ops.push(think(r)),
        }
    }
    ops
}
pub fn t_hostile(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    let max = *r.pick(&[65_536u64, 200_000, 10_485_760]);
    cfg.set("MAX_PAYLOAD_SIZE", max);
    if r.chance(1, 2) { cfg.set("CHANNEL_CAPACITY_SOCKET_WRITE", *r.pick(&[1u64, 2, 8])); }
    let mut t = Tags(0);
    let nb = r.range(1, 2) as usize;
    let restart = r.chance(1, 2);
    let mut setup = vec![];
    for i in 0..nb {
        setup.push(Op::QCreate { q: format!("q{}", i), vt: Some(3_000_000), retries: Some(3) });
        setup.push(Op::SCreate { s: format!("s{}", i), age: None, bytes: None, ret: false });
    }
    let mut cl = vec![];
    for i in 0..nb {
        let k = r.range(4, 16);
        let mut ops = ordinary(r, &mut t, i, k);
        ops.push(Op::Sleep(6 * S));
        ops.push(Op::Echo { tag: t.next(), size: 20 });
        cl.push(client(r, 70, ops));
    }
    for _ in 0..r.range(1, 3) {
        let ops = hostile(r, &mut t, max as u32);
        let mut c = wire(r, ops);
        if let Some(nt) = &mut c.tcp { nt.chunk = *r.pick(&[0u32, 0, 300, 2000]); nt.rchunk = 0; nt.gap_ns = nt.gap_ns.min(100_000); }
        cl.push(c);
    }
    let mut probe = vec![];
    for i in 0..nb {
        if !restart { probe.push(Op::QDrain { q: format!("q{}", i) }); }
        probe.push(Op::SReadAll { s: format!("s{}", i), chunk: 7 });
        probe.push(Op::PProbe { t: format!("t{}", i) });
        probe.push(Op::KGet { k: format!("k{}", i) });
    }
    probe.push(Op::Sleep(S));
    let s = sched(r, p);
    let mut eps = vec![epoch(setup, cl, probe, s)];
    if restart {
        eps[0].down_ns = r.logu(MS, 2 * S);
        if r.chance(1, 3) { let mut s = sched(r, p); eps[0].crash = crash(r, p, &mut s, 3 * S); eps[0].sched = s; }
        let mut setup = vec![Op::SSnap];
        for i in 0..nb { setup.push(Op::QDump { q: format!("q{}", i) }); setup.push(Op::PProbe { t: format!("t{}", i) }); setup.push(Op::SReadAll { s: format!("s{}", i), chunk: 5 }); }
        let mut probe = vec![];
        for i in 0..nb { probe.push(Op::QDrain { q: format!("q{}", i) }); probe.push(Op::SReadAll { s: format!("s{}", i), chunk: 7 }); }
        let mut cl = vec![];
        for i in 0..nb { let ops = ordinary(r, &mut t, i, 4); cl.push(client(r, 70, ops)); }
        let s = sched(r, p);
        eps.push(epoch(setup, cl, probe, s));
    }
    (cfg, eps)
}

// ------------------------------------------------------------------ closing connections
pub fn t_close(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    // only the end of a connection may free what it held
    cfg.set("STREAM_ACK_WAIT_MS", 3_000_000);
    cfg.set("STREAM_MAX_DELIVERIES", 100);
    cfg.set("STREAM_MAX_ACK_PENDING", *r.pick(&[2u64, 5, 1000]));
    if r.chance(1, 4) { cfg.set("CHANNEL_CAPACITY_SOCKET_WRITE", *r.pick(&[1u64, 2])); }
    let mut t = Tags(0);
    let (q, s, g) = (n("q"), n("s"), n("g"));
    let mut setup = vec![Op::QCreate { q: q.clone(), vt: Some(3_000_000), retries: Some(3) }, Op::SCreate { s: s.clone(), age: None, bytes: None, ret: false }];
    for _ in 0..r.below(6) { setup.push(Op::SPub { s: s.clone(), tag: t.next(), size: 20 }); }
    let stop = r.logu(10 * MS, 4 * S);
    let mut cl = vec![];
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for round in 0..r.range(1, 3) {
            if round > 0 { ops.push(Op::Reconnect); }
            if r.chance(4, 5) { ops.push(Op::SJoin { s: s.clone(), g: g.clone() }); }
            if r.chance(1, 4) {
                // a second membership of the same connection comes and goes
                ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: r.range(1, 4) as u32, wait: 30 });
                ops.push(Op::SJoin { s: s.clone(), g: g.clone() });
                if r.chance(1, 2) { ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: 1, wait: 0 }); }
                ops.push(Op::SLeave { s: s.clone(), g: g.clone() });
            }
            for _ in 0..r.range(1, 7) {
                match r.below(18) {
                    0..=3 => ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: r.range(1, 4) as u32, wait: *r.pick(&[0u32, 30]) }),
                    4 => ops.push(Op::SAck { s: s.clone(), g: g.clone(), sel: Sel::Held(0) }),
                    5..=6 => ops.push(Op::Sub { t: n(*r.pick(&["a/b", "a/+", "#"])) }),
                    7 => ops.push(nw(Op::Sub { t: n(*r.pick(&["a/b", "a/+", "#"])) })),
                    8..=9 => ops.push(nw(Op::QConsume { q: q.clone(), max: Some(2), wait: Some(30_000) })),
                    10..=11 => ops.push(nw(Op::SFetch { s: s.clone(), g: g.clone(), limit: 3, wait: 30_000 })),
                    12 => ops.push(nw(Op::SJoin { s: s.clone(), g: g.clone() })),
                    13 => for _ in 0..r.range(1, 12) { ops.push(nw(Op::Echo { tag: t.next(), size: tsize(r) })); },
                    14 => ops.push(Op::SPub { s: s.clone(), tag: t.next(), size: 20 }),
                    15 => ops.push(Op::SLeave { s: s.clone(), g: g.clone() }),
                    16 => ops.push(Op::SJoin { s: s.clone(), g: g.clone() }),
                    _ => ops.push(think(r)),
                }
            }
            if r.chance(1, 2) { ops.push(Op::At((stop + r.below(20 * MS)).saturating_sub(10 * MS))); }
            if r.chance(1, 5) { ops.push(Op::Stall(r.logu(MS, S))); }
            match r.below(8) {
                0..=1 => ops.push(Op::Close),
                2..=3 => ops.push(Op::Reset),
                4 => { ops.push(Op::HalfClose); ops.push(Op::Sleep(r.logu(MS, 6 * S))); }
                5 => { let h = raw_header(r, u32::MAX); ops.push(Op::Raw { hex: h }); ops.push(Op::Sleep(6 * S)); }
                6 => { ops.push(Op::Raw { hex: n("0122") }); ops.push(Op::Close); }
                _ => { ops.push(nw(Op::SJoin { s: s.clone(), g: g.clone() })); ops.push(Op::Reset); }
            }
        }
        let mut c = wire(r, ops);
        if let Some(nt) = &mut c.tcp { nt.gap_ns = nt.gap_ns.min(100_000); }
        cl.push(c);
    }
    for _ in 0..r.range(1, 2) {
        let mut ops = vec![];
        let member = r.chance(3, 4);
        if member { ops.push(Op::SJoin { s: s.clone(), g: g.clone() }); }
        for _ in 0..r.range(1, 6) {
            match r.below(8) {
                0..=2 if member => { ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: 10, wait: *r.pick(&[0u32, 100, 20_000]) }); ops.push(Op::SAckAll { s: s.clone(), g: g.clone() }); }
                3 => ops.push(Op::QPush { q: q.clone(), tag: t.next(), size: 20, prio: None }),
                4 => ops.push(Op::SPub { s: s.clone(), tag: t.next(), size: 20 }),
                5 => ops.push(Op::Pub { t: n("a/b"), tag: t.next(), size: 20, retain: None, ttl: None }),
                6 => ops.push(Op::QConsume { q: q.clone(), max: Some(1), wait: Some(*r.pick(&[0u64, 50])) }),
                _ => ops.push(think(r)),
            }
        }
        if member && r.chance(1, 2) { ops.push(Op::SFetch { s: s.clone(), g: g.clone(), limit: 100, wait: 20_000 }); ops.push(Op::SAckAll { s: s.clone(), g: g.clone() }); }
        cl.push(client(r, 50, ops));
    }
    let mut probe = vec![Op::Sleep(8 * S), Op::PScan];
    for _ in 0..r.range(1, 4) { probe.push(Op::QPush { q: q.clone(), tag: t.next(), size: 20, prio: None }); }
    for _ in 0..r.range(1, 3) { probe.push(Op::SPub { s: s.clone(), tag: t.next(), size: 20 }); }
    probe.push(Op::Pub { t: n("a/b"), tag: t.next(), size: 20, retain: None, ttl: None });
    probe.push(Op::Sleep(S));
    probe.push(Op::QDump { q: q.clone() });
    probe.push(Op::SDrain { s: s.clone(), g: g.clone(), limit: 10, wait: 300, idle: 2 });
    probe.push(Op::SSnap);
    probe.push(Op::QConsume { q: q.clone(), max: Some(100), wait: Some(0) });
    let sc = sched(r, p);
    (cfg, vec![epoch(setup, cl, probe, sc)])
}

// ------------------------------------------------------------------ disk outages
fn fault(r: &mut Rng, cls: u32, span: u64) -> DiskFault {
    let from = if r.chance(1, 3) { 0 } else { r.below(span.max(1000)) };
    let len = r.logu(MS, 2 * span.max(10 * MS));
    let all = O_WRITE | O_OPEN | O_SYNC | O_TRUNC | O_RENAME | O_UNLINK | O_MKDIR;
    DiskFault {
        from,
        to: from + len,
        classes: if r.chance(1, 3) { u32::MAX } else { cls },
        ops: *r.pick(&[all, O_WRITE, O_WRITE, O_WRITE | O_OPEN, O_WRITE | O_TRUNC, O_RENAME, O_OPEN, O_SYNC, O_TRUNC]),
        permille: *r.pick(&[1000u32, 1000, 1000, 500, 200, 30]),
        errno: *r.pick(&[28, 28, 5, 5, 122, 24, 30]),
        short: r.chance(1, 5),
        skip: 0,
        count: 0,
    }
}
/// the same kind of work once more, with payloads of its own
fn again(ops: &[Op], r: &mut Rng, t: &mut Tags) -> Vec<Op> {
    let mut out = vec![];
    for o in ops.iter().take(12) {
        if r.chance(1, 4) { continue; }
        let mut o = o.clone();
        match &mut o { Op::QPush { tag, .. } | Op::SPub { tag, .. } | Op::Pub { tag, .. } | Op::KSet { tag, .. } => *tag = t.next(), Op::At(_) | Op::Reconnect | Op::Close | Op::Reset | Op::HalfClose | Op::Raw { .. } => continue, _ => {} }
        out.push(o);
    }
    out
}
/// `base`, with a disk that fails for a while in every epoch but the last
pub fn outages(r: &mut Rng, p: Option<&Prof>, cls: u32, base: G) -> G {
    let (cfg, mut eps) = base;
    let mut t = Tags(1_000_000);
    let n = eps.len();
    for (e, ep) in eps.iter_mut().enumerate() {
        if n > 1 && e + 1 == n || r.chance(1, 10) { continue; }
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).clamp(20 * MS, S);
        for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) { let f = fault(r, cls, span); ep.disk.push(f); }
        let over = ep.disk.iter().map(|f| f.to).max().unwrap();
        let early = ep.disk.iter().map(|f| f.from).min().unwrap();
        for c in ep.clients.iter_mut() {
            if r.chance(1, 3) { let i = r.below(c.ops.len() as u64 + 1) as usize; c.ops.insert(i, Op::At(early + r.below(over - early))); }
            let more = again(&c.ops, r, &mut t);
            if r.chance(2, 3) { 
                c.ops.push(Op::At(over + r.logu(MS, S)));
                if c.ops.iter().any(|o| matches!(o, Op::Close | Op::Reset | Op::HalfClose)) { c.ops.push(Op::Reconnect); }
                c.ops.extend(more);
            }
        }
        if ep.early { ep.early = false; }
        if n > 1 {
            let after = over + r.logu(MS, S);
            match r.below(4) {
                0 => {}
                1 => ep.crash = CrashAt::Never,
                _ => ep.crash = CrashAt::Time { ns: after },
            }
            if r.chance(2, 3) { ep.probe.push(Op::At(over + r.logu(MS, S))); }
        }
    }
    (cfg, eps)
}

// ------------------------------------------------------------------ names
/// longer names than this may be refused
pub const LONG: usize = 60;
/// names that a careless mapping to files, keys or tree nodes confuses
const FAMILIES: &[&[&str]] = &[
    &["a/b", "a%2Fb", "a%2fb", "a_b", "a", "b", "a\\b", "a%5Cb"],
    &["..", ".", "", "%", "%2E", "%2E%2E", "...", "%2e"],
    &["x", "x.db", "x.db-wal", "x.db-shm", "x.db.db", "x.config", "x.config.json", "x.db-journal"],
    &["../x", "../../x", "../data/x", "./x", "x", "x/", "/x", "x/.."],
    &["../streams/a", "../queues/a", "../pubsub/a", "a", "streams", "queues", "retained", "../groups.log"],
    &["1.log", "groups.log", "config.json", "config", "%deleted", "deleted", ".log", "groups"],
    &["A", "a", "\u{e9}", "e\u{301}", "\u{c9}", "\u{ff21}", "\u{430}"],
    &["a", "a ", " a", "a.", "a\n", "a\t", "a\r\n", "\u{200b}a"],
    &["a", "a\0", "a\0b", "a%00b", "\0", "%00", "a%00"],
    &["a", "a%", "a%2", "a%25", "a%252F", "a%2F", "a/", "%2F"],
    &["-rf", "--", "*", "?", "~", "$HOME", "`x`", "'"],
    &["file:x?mode=memory", ":memory:", "file:x", "x?mode=ro", "a'b", "a\"b", "a;b", "x' OR '1'='1"],
    &["a:b", "a", "b", "a::b", ":", "a:", ":b"],
    &["q_dlq", "q", "q.dlq", "dlq", "q-dlq", "q:dlq", "_dlq"],
    &["null", "true", "0", "00", "0.0", "-0", "+0", "1e0"],
    &["a+b", "a+", "b#", "a#b", "#a", "+a"],
];
pub fn family(r: &mut Rng) -> Vec<String> {
    let f = *r.pick(FAMILIES);
    let mut v: Vec<String> = vec![];
    for _ in 0..r.range(2, 4) { let x = n(r.pick(f)); if !v.contains(&x) { v.push(x); } }
    if r.chance(1, 6) {
        // long names that share their beginning
        let c = *r.pick(&["x", "/", "%", ".", "\u{e9}", "%2F"]);
        let k = *r.pick(&[50usize, 80, 120, 200, 240, 250, 255, 256, 300, 1000, 3000]) / c.len();
        v.push(c.repeat(k));
        v.push(format!("{}x", c.repeat(k)));
    }
    v
}
/// objects of every kind with names that look alike
pub fn n_names(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.workers = cfg.workers.max(2);
    cfg.set("STREAM_ACK_WAIT_MS", *r.pick(&[200u64, 1000]));
    let mut t = Tags(0);
    let mut names = family(r);
    let del = r.chance(1, 3);
    let kinds = *r.pick(&[1u32, 1, 2, 2, 2, 4, 8, 16, 3, 15, 31]);
    let (qk, sk, gk, pk, kk) = (kinds & 1 > 0, kinds & 2 > 0, kinds & 4 > 0, kinds & 8 > 0, kinds & 16 > 0);
    if pk { names.retain(|x| x.len() < 1000); }
    let gnames: Vec<String> = if gk { names.iter().filter(|x| x.len() < 60_000).cloned().collect() } else { vec![] };
    let k = *r.pick(&[1u64, 2, 2, 2, 3]);
    let own = n("own");
    let mut eps = vec![];
    for e in 0..k {
        let last = e + 1 == k;
        let mut setup = vec![];
        if sk || gk { setup.push(Op::SSnap); }
        for (i, x) in names.iter().enumerate() {
            let x = x.clone();
            if qk {
                if e == 0 { setup.push(Op::QCreate { q: x.clone(), vt: Some(*r.pick(&[500u64, 3_000_000])), retries: Some(1 + i as u32) }); }
                setup.push(Op::QDump { q: x.clone() });
                if e == 0 { for _ in 0..r.below(3) { setup.push(Op::QPush { q: x.clone(), tag: t.next(), size: 12, prio: None }); } }
            }
            if sk {
                if e == 0 {
                    setup.push(Op::SCreate { s: x.clone(), age: Some(0), bytes: Some(1_000_000 + i as u64), ret: true });
                    for _ in 0..r.below(3) { setup.push(Op::SPub { s: x.clone(), tag: t.next(), size: 12 }); }
                } else { setup.push(Op::SReadAll { s: x.clone(), chunk: 100 }); }
            }
            if pk && e > 0 && i == 0 { setup.push(Op::PProbe { t: n("#") }); }
        }
        if gk { if e == 0 { setup.push(Op::SCreate { s: own.clone(), age: Some(0), bytes: Some(0), ret: true }); for _ in 0..3 { setup.push(Op::SPub { s: own.clone(), tag: t.next(), size: 12 }); } } else { setup.push(Op::SReadAll { s: own.clone(), chunk: 100 }); } }
        let mut cl = vec![];
        for _ in 0..r.range(1, 3) {
            let mut ops = vec![];
            let mine = if gk { Some(r.pick(&gnames).clone()) } else { None };
            if let Some(g) = &mine { ops.push(Op::SJoin { s: own.clone(), g: g.clone() }); }
            for _ in 0..r.range(2, 12) {
                let x = r.pick(&names).clone();
                let mut pool: Vec<Op> = vec![];
                if qk {
                    pool.push(match r.below(12) {
                        0..=3 => Op::QPush { q: x.clone(), tag: t.next(), size: 20, prio: None },
                        4..=5 => Op::QConsume { q: x.clone(), max: Some(1), wait: Some(0) },
                        6 => Op::QAck { q: x.clone(), sel: Sel::Any(r.below(9) as u32) },
                        7 => Op::QNack { q: x.clone(), sel: Sel::Held(0), reason: x.chars().take(20).collect() },
                        8 => Op::QPeek { q: x.clone(), limit: 10, offset: 0 },
                        9 => Op::QExists { q: x.clone() },
                        10 => Op::QAck { q: x.clone(), sel: Sel::Held(0) },
                        _ => if del { if r.chance(1, 2) { Op::QDelete { q: x.clone() } } else { Op::QCreate { q: x.clone(), vt: Some(700), retries: Some(9) } } } else { Op::QPurge { q: x.clone() } },
                    });
                }
                if sk {
                    pool.push(match r.below(9) {
                        0..=3 => Op::SPub { s: x.clone(), tag: t.next(), size: 20 },
                        4..=5 => Op::SRead { s: x.clone(), from: r.below(4), limit: 10 },
                        6 => Op::SExists { s: x.clone() },
                        _ => if del { if r.chance(1, 2) { Op::SDelete { s: x.clone() } } else { Op::SCreate { s: x.clone(), age: Some(0), bytes: Some(2_000_000), ret: true } } } else { Op::SSnap },
                    });
                }
                if let Some(g) = &mine {
                    pool.push(match r.below(6) {
                        0..=2 => Op::SFetch { s: own.clone(), g: g.clone(), limit: 2, wait: *r.pick(&[0u32, 10]) },
                        3 => Op::SAck { s: own.clone(), g: g.clone(), sel: Sel::Held(0) },
                        4 => Op::SAckAll { s: own.clone(), g: g.clone() },
                        _ => Op::SPub { s: own.clone(), tag: t.next(), size: 12 },
                    });
                }
                if pk {
                    pool.push(match r.below(6) {
                        0..=1 => Op::Pub { t: x.clone(), tag: t.next(), size: 20, retain: Some(true), ttl: None },
                        2 => Op::Pub { t: x.clone(), tag: t.next(), size: 20, retain: None, ttl: None },
                        3 => Op::Sub { t: x.clone() },
                        4 => Op::PProbe { t: x.clone() },
                        _ => Op::Unsub { t: x.clone() },
                    });
                }
                if kk {
                    pool.push(match r.below(5) {
                        0..=1 => Op::KSet { k: x.clone(), tag: t.next(), size: 12, ttl: None },
                        2..=3 => Op::KGet { k: x.clone() },
                        _ => Op::KDel { k: x.clone() },
                    });
                }
                ops.push(r.pick(&pool).clone());
                if r.chance(1, 5) { ops.push(Op::Sleep(r.logu(MS, 200 * MS))); }
            }
            let mut c = client(r, 25, ops);
            if names.iter().any(|x| x.len() > 100) { if let Some(n) = &mut c.tcp { n.chunk = 0; n.rchunk = 0; } }
            cl.push(c);
        }
        let mut probe = vec![];
        if last {
            for x in &names {
                let x = x.clone();
                if qk { probe.push(Op::QExists { q: x.clone() }); probe.push(Op::QDump { q: x.clone() }); probe.push(Op::QDrain { q: x.clone() }); }
                if sk { probe.push(Op::SExists { s: x.clone() }); probe.push(Op::SReadAll { s: x.clone(), chunk: 10 }); }
                if pk { probe.push(Op::PProbe { t: x.clone() }); }
                if kk { probe.push(Op::KGet { k: x.clone() }); }
            }
            if gk { for g in &gnames { probe.push(Op::SDrain { s: own.clone(), g: g.clone(), limit: 10, wait: cfg.get("STREAM_ACK_WAIT_MS").unwrap() as u32 + 400, idle: 2 }); } }
            if sk || gk { probe.push(Op::SSnap); }
        } else { probe.push(Op::Sleep(r.logu(100 * MS, 2 * S))); }
        let mut sc = sched(r, p);
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).min(2 * S);
        let c = if last || r.chance(2, 3) { CrashAt::Never } else { crash(r, p, &mut sc, span) };
        let mut ep = epoch(setup, cl, probe, sc);
        ep.crash = c;
        ep.down_ns = r.logu(MS, S);
        eps.push(ep);
    }
    (cfg, eps)
}

// ------------------------------------------------------------------ a disk that cannot be read
/// `base`, with a disk that cannot always be read for a while
pub fn unreadable(r: &mut Rng, p: Option<&Prof>, cls: u32, base: G) -> G {
    let (mut cfg, mut eps) = base;
    if r.chance(2, 3) { cfg.set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[1u64, 60, 150, 300])); }
    if r.chance(2, 3) { cfg.set("STREAM_RAM_SOFT_LIMIT", r.range(1, 4)); cfg.set("STREAM_EVICTION_INTERVAL_MS", *r.pick(&[5u64, 20, 100])); }
    for ep in eps.iter_mut() {
        let span = p.map(|p| p.ns).unwrap_or(400 * MS).clamp(20 * MS, S);
        for _ in 0..*r.pick(&[1u64, 1, 2]) {
            let mut f = fault(r, cls, span);
            f.ops = O_READ;
            f.errno = *r.pick(&[5, 24, 23, 12]);
            f.permille = *r.pick(&[1000u32, 500, 200, 50]);
            ep.disk.push(f);
        }
        let over = ep.disk.iter().map(|f| f.to).max().unwrap();
        for c in ep.clients.iter_mut() { if r.chance(1, 4) { c.ops.push(Op::At(over + MS)); } }
        ep.probe.insert(0, Op::At(over + r.logu(MS, S)));
    }
    (cfg, eps)
}

/// A state is left behind; the server is then started with a disk that fails, and at last with one that works.
pub fn b_start(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[1u64, 60, 150, 1000, 100_000]));
    if r.chance(1, 2) { cfg.set("STREAM_RAM_SOFT_LIMIT", r.range(1, 4)); cfg.set("STREAM_EVICTION_INTERVAL_MS", *r.pick(&[5u64, 20, 100])); }
    cfg.set("STREAM_ACK_WAIT_MS", *r.pick(&[60u64, 300]));
    cfg.set("STREAM_MAX_DELIVERIES", 100);
    let mut t = Tags(0);
    let kinds = *r.pick(&[7u64, 1, 2, 4, 3, 6]);
    let qs: Vec<String> = (0..if kinds & 1 != 0 { r.range(1, 2) } else { 0 }).map(|i| format!("q{}", i)).collect();
    let ss: Vec<String> = (0..if kinds & 2 != 0 { r.range(1, 2) } else { 0 }).map(|i| format!("s{}", i)).collect();
    let ts: Vec<&str> = if kinds & 4 != 0 { ["a", "a/b", "c/d"][..r.range(1, 3) as usize].to_vec() } else { vec![] };
    let qc = |q: &String, i: usize| Op::QCreate { q: q.clone(), vt: Some(3_000_000 + i as u64), retries: Some(1 + i as u32) };
    let sc = |s: &String, i: usize| Op::SCreate { s: s.clone(), age: Some(3_600_000 * (1 + i as u64)), bytes: Some(0), ret: true };
    let wait = *r.pick(&[0u32, 100]);
    let witness = |drain: bool| {
        let mut o = vec![];
        for q in &qs { o.push(Op::QDump { q: q.clone() }); }
        if !qs.is_empty() { o.push(Op::QSnap); }
        if !ss.is_empty() { o.push(Op::SSnap); }
        for s in &ss { o.push(Op::SReadAll { s: s.clone(), chunk: 100 }); if drain { o.push(Op::SDrain { s: s.clone(), g: n("g"), limit: 3, wait: 400 + wait, idle: 3 }); } }
        if !ts.is_empty() { o.push(Op::PProbe { t: n("#") }); }
        o
    };
    let mut setup = vec![];
    // more than fits on a page or two
    let fat = r.chance(1, 3);
    for (i, q) in qs.iter().enumerate() {
        setup.push(qc(q, i));
        if fat { for _ in 0..r.range(5, 25) { setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: r.logu(300, 3000) as u32, prio: None }); } }
        for _ in 0..r.below(5) { setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: size(r), prio: if r.chance(1, 3) { Some(r.below(4) as u8) } else { None } }); }
        if r.chance(1, 2) {
            setup.push(Op::QConsume { q: q.clone(), max: Some(2), wait: Some(0) });
            if r.chance(2, 3) { setup.push(Op::QNack { q: q.clone(), sel: Sel::Held(0), reason: n("no") }); }
            if r.chance(1, 3) { setup.push(Op::QAck { q: q.clone(), sel: Sel::Held(0) }); }
        }
    }
    for (i, s) in ss.iter().enumerate() {
        setup.push(sc(s, i));
        for _ in 0..r.below(9) { setup.push(Op::SPub { s: s.clone(), tag: t.next(), size: if fat { r.logu(8, 6000) as u32 } else { 8 + r.below(40) as u32 } }); }
        if r.chance(2, 3) {
            setup.push(Op::SJoin { s: s.clone(), g: n("g") });
            setup.push(Op::SFetch { s: s.clone(), g: n("g"), limit: r.range(1, 5) as u32, wait: 0 });
            if r.chance(3, 4) { setup.push(Op::SAckAll { s: s.clone(), g: n("g") }); }
            setup.push(Op::SLeave { s: s.clone(), g: n("g") });
        }
    }
    for x in &ts { if r.chance(4, 5) { setup.push(Op::Pub { t: n(x), tag: t.next(), size: if fat { r.logu(8, 12_000) as u32 } else { 20 }, retain: Some(true), ttl: None }); } }
    setup.push(Op::Sleep(4 * S));
    setup.extend(witness(false));
    let mut s0 = dflt_sched(r.next());
    s0.dt = 500;
    let mut eps = vec![epoch(setup, vec![], vec![], s0)];
    let mut cls = vec![u32::MAX];
    if !qs.is_empty() { cls.push(C_QUEUE); }
    if !ss.is_empty() { cls.extend([C_STREAM, C_GROUPS, C_STREAM | C_GROUPS]); }
    if !ts.is_empty() { cls.push(C_RETAINED); }
    for _ in 0..*r.pick(&[1u64, 1, 1, 2]) {
        let mut s = sched(r, p);
        let mut disk = vec![];
        let span = p.map(|p| p.ns).unwrap_or(100 * MS).clamp(5 * MS, S);
        for _ in 0..*r.pick(&[1u64, 1, 2]) {
            let from = if r.chance(2, 3) { 0 } else { r.below(30 * MS) };
            let all = O_WRITE | O_OPEN | O_SYNC | O_TRUNC | O_RENAME | O_UNLINK | O_MKDIR | O_READ;
            disk.push(DiskFault {
                from,
                to: from + r.logu(10_000, 2 * S),
                classes: *r.pick(&cls),
                ops: *r.pick(&[O_READ, O_READ, O_READ | O_OPEN, all, O_OPEN, O_WRITE | O_TRUNC, O_WRITE]),
                permille: *r.pick(&[1000u32, 700, 300, 100, 100, 30]),
                errno: *r.pick(&[5, 5, 5, 24, 28, 13]),
                short: false,
                skip: 0,
                count: 0,
            });
            if r.chance(1, 3) {
                // in the middle of what is read
                let f = disk.last_mut().unwrap();
                f.from = 0;
                f.ops = O_READ;
                f.permille = 1000;
                f.errno = 5;
                f.skip = r.logu(1, if fat { 120 } else { 30 }) as u32;
                f.count = *r.pick(&[1u32, 1, 2, 5, 0]);
            }
        }
        let over = disk.iter().map(|f| f.to).max().unwrap();
        let mut cl = vec![];
        for _ in 0..r.range(1, 3) {
            let mut ops = vec![];
            let late = r.range(0, 9);
            for k in 0..r.range(2, 10) {
                if k == late { ops.push(Op::At(over + r.logu(MS, S))); }
                let o = match *r.pick(&[1u64, 2, 4]) & kinds {
                    1 => { let i = r.below(qs.len() as u64) as usize; let q = qs[i].clone(); match r.below(6) { 0 => qc(&q, i), 1 => Op::QPeek { q, limit: 10, offset: 0 }, 5 => Op::QDump { q }, 2 => Op::QExists { q }, _ => Op::QPush { q, tag: t.next(), size: size(r), prio: None } } }
                    2 => {
                        let i = r.below(ss.len() as u64) as usize;
                        let s = ss[i].clone();
                        match r.below(12) {
                            0..=1 => sc(&s, i),
                            2..=3 => Op::SRead { s, from: r.below(9), limit: 20 },
                            4 => if r.chance(1, 2) { Op::SExists { s } } else { Op::SSnap },
                            5..=6 => { ops.push(Op::SJoin { s: s.clone(), g: n("g") }); Op::SFetch { s, g: n("g"), limit: 3, wait } }
                            7 => Op::SAckAll { s, g: n("g") },
                            _ => Op::SPub { s, tag: t.next(), size: 8 + r.below(40) as u32 },
                        }
                    }
                    4 => { let x = n(*r.pick(&ts)); match r.below(6) { 0 => Op::Pub { t: x, tag: t.next(), size: 0, retain: Some(true), ttl: None }, 1..=2 => Op::PProbe { t: n("#") }, _ => Op::Pub { t: x, tag: t.next(), size: 20, retain: Some(true), ttl: None } } }
                    _ => think(r),
                };
                ops.push(o);
                if r.chance(1, 4) { ops.push(Op::Sleep(r.logu(100_000, 600 * MS))); }
            }
            cl.push(client(r, 25, ops));
        }
        let mut probe = vec![];
        if r.chance(1, 2) { for q in &qs { probe.push(Op::QDump { q: q.clone() }); } if !ss.is_empty() { probe.push(Op::SSnap); } }
        if r.chance(2, 3) { probe.push(Op::At(over + r.logu(MS, 3 * S))); }
        if r.chance(1, 2) {
            for (i, q) in qs.iter().enumerate() { if r.chance(1, 2) { probe.push(qc(q, i)); probe.push(Op::QPush { q: q.clone(), tag: t.next(), size: 20, prio: None }); } }
            for (i, s) in ss.iter().enumerate() { if r.chance(1, 2) { probe.push(sc(s, i)); probe.push(Op::SPub { s: s.clone(), tag: t.next(), size: 20 }); } }
            for x in &ts { if r.chance(1, 3) { probe.push(Op::Pub { t: n(x), tag: t.next(), size: 20, retain: Some(true), ttl: None }); } }
        }
        if r.chance(2, 3) { probe.push(Op::Sleep(r.logu(MS, 3 * S))); }
        if !ts.is_empty() && r.chance(1, 2) { probe.push(Op::PProbe { t: n("#") }); }
        let c = match r.below(4) { 0 => crash(r, p, &mut s, span), 1 => CrashAt::Time { ns: over + r.logu(MS, 2 * S) }, _ => CrashAt::Never };
        let mut ep = epoch(vec![], cl, probe, s);
        ep.disk = disk;
        ep.early = true;
        ep.crash = c;
        ep.down_ns = r.logu(MS, S);
        eps.push(ep);
    }
    let mut end = vec![];
    end.extend(witness(true));
    let mut last = dflt_sched(r.next());
    last.dt = 500;
    eps.push(epoch(end, vec![], vec![], last));
    (cfg, eps)
}
