//! The dashboard looked at while everything else goes on, and the whole server as its own main runs it.
use crate::gen::*;
use crate::os::*;
use crate::plan::*;

type G = (Cfg, Vec<Epoch>);
fn n(x: &str) -> String { x.into() }

/// some payloads as the SDKs send them
fn dress(o: &mut Op) {
    if let Op::NoWait(o) = o { dress(o); return; }
    if let Op::QPush { tag, size, .. } | Op::SPub { tag, size, .. } | Op::Pub { tag, size, .. } | Op::KSet { tag, size, .. } = o {
        if *size > 0 { *tag |= Rng::new(*tag * 77 + 5).below(4) << 40; }
    }
}
fn seen(r: &mut Rng, o: &Op) -> Option<Op> {
    let x = match o {
        Op::QSnap | Op::QDump { .. } | Op::SSnap | Op::PScan | Op::KScan => o.clone(),
        Op::QPeek { q, limit, offset } => Op::QPeek { q: q.clone(), limit: (*limit).min(500), offset: *offset },
        Op::SRead { s, from, limit } => Op::SRead { s: s.clone(), from: *from, limit: (*limit).min(500) },
        _ => return None,
    };
    if r.chance(3, 4) { Some(Op::Web(Box::new(x))) } else { None }
}
fn a_look(r: &mut Rng, ops: &[Op]) -> Op {
    // at something this client deals with
    let mut qs = vec![];
    let mut ss = vec![];
    let (mut p, mut k) = (false, false);
    for o in ops {
        let o = if let Op::NoWait(o) = o { o } else { o };
        match o {
            Op::QPush { q, .. } | Op::QConsume { q, .. } | Op::QCreate { q, .. } => qs.push(q.clone()),
            Op::SPub { s, .. } | Op::SFetch { s, .. } | Op::SCreate { s, .. } => ss.push(s.clone()),
            Op::Pub { .. } | Op::Sub { .. } => p = true,
            Op::KSet { .. } | Op::KGet { .. } => k = true,
            _ => {}
        }
    }
    let mut c = vec![];
    if !qs.is_empty() { c.push(Op::QSnap); let q = r.pick(&qs).clone(); c.push(Op::QPeek { q, limit: *r.pick(&[1u32, 2, 100]), offset: r.below(2) as u32 }); }
    if !ss.is_empty() { c.push(Op::SSnap); let s = r.pick(&ss).clone(); c.push(Op::SRead { s, from: 1 + r.below(6), limit: *r.pick(&[1u64, 3, 500]) }); }
    if p { c.push(Op::PScan); }
    if k { c.push(Op::KScan); }
    if c.is_empty() { c.push(Op::QSnap); }
    Op::Web(Box::new(r.pick(&c).clone()))
}
fn looking(r: &mut Rng, ops: &mut Vec<Op>, some: u64) {
    let old = std::mem::take(ops);
    for o in &old {
        match seen(r, o) { Some(w) => ops.push(w), None => ops.push(o.clone()) }
        if r.chance(some, 100) { ops.push(a_look(r, &old)); }
    }
    for o in ops.iter_mut() { dress(o); }
}
/// the dashboard runs, and people look at it
pub fn webify(r: &mut Rng, base: G) -> G {
    let (mut cfg, mut eps) = base;
    cfg.set("SIM_WEB", 1);
    for e in &mut eps {
        for o in &mut e.setup { dress(o); }
        for c in &mut e.clients { looking(r, &mut c.ops, 12); }
        looking(r, &mut e.probe, 0);
    }
    (cfg, eps)
}
/// the server as its own main runs it; everybody comes over the network
pub fn mainify(r: &mut Rng, base: G) -> G {
    let (mut cfg, mut eps) = base;
    if !crate::server::HAVE { return (cfg, eps); }
    cfg.set("SIM_MAIN", 1);
    cfg.set("SIM_WEB", 1);
    for e in &mut eps {
        for c in &mut e.clients { if c.tcp.is_none() { let mut x = net(r); x.chunk = 0; x.rchunk = 0; c.tcp = Some(x); } }
        let span = 3 * S;
        // accept() fails now and then
        for _ in 0..if r.chance(1, 2) { r.range(1, 3) } else { 0 } {
            let from = r.below(span);
            e.disk.push(DiskFault { from, to: from + r.logu(MS, S), classes: C_NET, ops: O_ACCEPT, permille: *r.pick(&[1000u32, 1000, 500]), errno: *r.pick(&[libc::EMFILE, libc::ENFILE, libc::ECONNABORTED, libc::ENOBUFS, libc::ENOMEM, libc::EPERM]), short: false, skip: 0, count: 0 });
        }
    }
    (cfg, eps)
}

const NAMES: &[&str] = &["jobs", "a b", "x/y", "q?x=1", "100%", "ünï✓", "a&b=c#d", "..", "%2F", "+", "messages", "a\"b"];
fn pages(r: &mut Rng, what: &str, name: &str, find: Option<String>, total: u64, out: &mut Vec<Op>) {
    let lim = *r.pick(&[1u64, 2, 3, 7, 20, 500]);
    let lim = if total / lim > 12 { total / 8 + 1 } else { lim };
    let mut off = 0;
    while off <= total + lim {
        out.push(Op::HPage { what: n(what), name: n(name), from: None, off: if off == 0 && r.chance(1, 2) { None } else { Some(off) }, lim: Some(lim), find: find.clone() });
        off += lim;
    }
}
/// a quiet server with plenty to show
pub fn v_page(r: &mut Rng, p: Option<&Prof>) -> G {
    let mut cfg = base_cfg(r);
    cfg.set("SIM_WEB", 1);
    cfg.workers = cfg.workers.max(2);
    let mut t = Tags(0);
    let mut setup = vec![];
    let mut probe = vec![Op::Sleep(S)];
    let sz = |r: &mut Rng| if r.chance(1, 20) { 0 } else { r.range(8, 60) as u32 };
    let mut live = vec![];
    let kind = r.below(4);
    let huge = r.chance(1, 25);
    let many = |r: &mut Rng| if huge { r.range(450, 1150) } else if r.chance(1, 6) { r.range(50, 130) } else { r.range(0, 30) };
    let word = |r: &mut Rng, t: &Tags| -> Option<String> { Some(match r.below(7) { 0 => n("#"), 1 => n("zzz nothing"), 2 => format!("#{:x}:", r.below(t.0.max(1)) + 1), 3 => n(""), 4 => format!(":{:x}#", r.range(8, 60)), 5 => n("\u{fffd}"), _ => format!("{:x}", r.below(16)) }) };
    match kind {
        0 => {
            let q = n(r.pick(NAMES));
            setup.push(Op::QCreate { q: q.clone(), vt: Some(3_000_000), retries: Some(1) });
            let k = many(r);
            for _ in 0..k { setup.push(Op::QPush { q: q.clone(), tag: t.next(), size: r.range(8, 60) as u32, prio: Some(r.below(3) as u8) }); }
            let take = r.below(k + 1);
            if take > 0 { setup.push(Op::QConsume { q: q.clone(), max: Some(take), wait: Some(0) }); }
            for _ in 0..r.below(take + 1) { setup.push(if r.chance(2, 3) { Op::QNack { q: q.clone(), sel: Sel::Held(r.below(9) as u32), reason: n(r.pick(&["", "bad \"thing\"", "é"])) } } else { Op::QAck { q: q.clone(), sel: Sel::Held(0) } }); }
            for _ in 0..r.range(1, 4) {
                let dump = Op::QDump { q: q.clone() };
                probe.push(dump.clone());
                let w = *r.pick(&["pending", "inflight", "dlq"]);
                let f = if w != "dlq" && r.chance(1, 2) { word(r, &t) } else { None };
                match r.below(4) {
                    0 => probe.push(Op::HPage { what: n(w), name: q.clone(), from: None, off: *r.pick(&[None, Some(0), Some(3), Some(1000), Some(u64::MAX)]), lim: *r.pick(&[None, Some(0), Some(1), Some(1000), Some(u64::MAX)]), find: f }),
                    _ => pages(r, w, &q, f, k, &mut probe),
                }
                probe.push(dump);
            }
        }
        1 => {
            let s = n(r.pick(NAMES));
            setup.push(Op::SCreate { s: s.clone(), age: None, bytes: None, ret: false });
            let k = if huge { many(r) } else { many(r).min(100) };
            for _ in 0..k { setup.push(Op::SPub { s: s.clone(), tag: t.next(), size: 8 + sz(r) }); }
            for _ in 0..r.range(1, 4) {
                let all = Op::SRead { s: s.clone(), from: 1, limit: if huge { 5000 } else { 500 } };
                probe.push(all.clone());
                for _ in 0..r.range(1, 5) {
                    probe.push(Op::HPage { what: n("stream"), name: s.clone(), from: *r.pick(&[None, None, Some(0), Some(1), Some(k), Some(k / 2 + 1), Some(k + 1), Some(u64::MAX)]), off: None, lim: *r.pick(&[None, Some(1), Some(2), Some(10), Some(50), Some(500), Some(501), Some(u64::MAX), Some(0)]), find: None });
                }
                probe.push(all);
            }
        }
        2 => {
            let k = many(r);
            let key = |r: &mut Rng, i: u64| format!("{}{}", r.pick(&["k", "user:", "é ", "a%b", "x&y="]), i);
            let sweep = *r.pick(&[1u64, 60]);
            cfg.set("STORE_CLEANUP_INTERVAL_SECS", sweep);
            for i in 0..k { let kk = key(r, i); setup.push(Op::KSet { k: kk, tag: t.next(), size: sz(r), ttl: *r.pick(&[None, Some(1), Some(1000), Some(100_000), Some(0)]) }); }
            probe.push(Op::Sleep(3 * S));
            for _ in 0..r.range(1, 4) {
                probe.push(Op::KScan);
                let f = if r.chance(1, 2) { Some(n(r.pick(&["k", "user", "é", "%", "1", "nothing", "", "x&y="]))) } else { None };
                if r.chance(1, 4) { probe.push(Op::HPage { what: n("store"), name: n(""), from: None, off: *r.pick(&[None, Some(u64::MAX), Some(5)]), lim: *r.pick(&[None, Some(0), Some(u64::MAX)]), find: f }); }
                else { pages(r, "store", "", f, k, &mut probe); }
                probe.push(Op::KScan);
            }
        }
        _ => {
            let k = if huge { many(r) } else { r.range(0, 30) };
            let top = |r: &mut Rng, i: u64| format!("{}/{}", r.pick(&["a", "b/c", "é x", "50%", "a?b"]), i);
            for i in 0..k { let tt = top(r, i); setup.push(Op::Pub { t: tt, tag: t.next(), size: 8 + sz(r), retain: Some(true), ttl: *r.pick(&[None, Some(100_000)]) }); }
            let mut ops = vec![];
            for _ in 0..r.below(8) { let i = r.below(k.max(1)); ops.push(Op::Sub { t: match r.below(3) { 0 => n(r.pick(&["a/#", "+/1", "#", "b/+/3"])), _ => top(r, i) } }); }
            ops.push(Op::At(60 * S));
            // it is still there while the driver looks
            live.push(Client { tcp: None, start_ns: 0, ops });
            let mut ops = vec![Op::Sleep(3 * S)];
            for _ in 0..r.range(1, 4) {
                ops.push(Op::PScan);
                let f = if r.chance(1, 2) { Some(n(r.pick(&["a", "b/c", "é", "%", "1", "nothing", "", "?"]))) } else { None };
                if r.chance(1, 4) { ops.push(Op::HPage { what: n("pubsub"), name: n(""), from: None, off: *r.pick(&[None, Some(u64::MAX), Some(5)]), lim: *r.pick(&[None, Some(0), Some(u64::MAX)]), find: f }); }
                else { pages(r, "pubsub", "", f, k, &mut ops); }
                ops.push(Op::PScan);
            }
            probe.extend(ops);
        }
    }
    for o in setup.iter_mut() { dress(o); }
    let s = sched(r, p);
    let g = (cfg, vec![epoch(setup, live, probe, s)]);
    if !huge && r.chance(1, 4) { let mut g = mainify(r, g); g.1[0].disk.clear(); g } else { g }
}

fn odd_request(r: &mut Rng, names: &[&str]) -> String {
    let v = n(r.pick(&["18446744073709551615", "-1", "0", "", "abc", "1e9", "99999999999999999999999", "%00", "%ff", "1"]));
    let w = n(r.pick(&["-1", "0", "18446744073709551615", "", "x", "4294967296", "%20"]));
    let name = crate::web::enc(r.pick(names));
    let path = match r.below(16) {
        0 => format!("/api/queue/{}/messages", name),
        1 => format!("/api/queue/{}/messages?state={}", name, r.pick(&["", "pending", "PENDING", "nope", "dlq", "%ff"])),
        2 => format!("/api/queue/{}/messages?state=pending&offset={}&limit={}", name, v, w),
        3 => format!("/api/queue/{}/messages?state=dlq&offset={}&limit={}", name, v, w),
        4 => format!("/api/stream/{}/messages?from={}&limit={}", name, v, w),
        5 => format!("/api/stream/{}/messages?limit={}", name, v),
        6 => format!("/api/store?limit={}&offset={}", v, w),
        7 => format!("/api/pubsub?limit={}&offset={}", v, w),
        8 => format!("/api/queue/{}/messages?state=inflight&state=pending", name),
        9 => n("/api/queue/nobody/messages?state=pending"),
        10 => n("/api/stream/nobody/messages"),
        11 => format!("/api/stream/{}/messages/", name),
        12 => format!("/{}", r.pick(&["", "index.html", "../../etc/passwd", "%2e%2e/%2e%2e/etc/passwd", "api", "api/queue/", "assets/../../x"])),
        13 => format!("/api/store?search={}", "%41".repeat(r.range(1, 3000) as usize)),
        14 => format!("/api/queue/{}/messages?state=pending&search=%ff%fe", name),
        _ => n("/api/queue"),
    };
    let method = *r.pick(&["GET", "GET", "GET", "GET", "POST", "DELETE", "HEAD", "PUT"]);
    match r.below(12) {
        0 => format!("{} {} HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\nConnection: close\r\n\r\nhello", method, path),
        1 => format!("{} {} HTTP/1.0\r\n\r\n", method, path),
        2 => format!("{} {} HTTP/9.9\r\n\r\n", method, path),
        3 => n("\\x00\\x01\\x02\\xff\\xfe"),
        4 => format!("GET {} HTTP/1.1\r\nHost: x\r\nAccept-Encoding: gzip\r\nConnection: close\r\n\r\n", path),
        5 => format!("GET {} HTTP/1.1\r\nHost: x\r\nX: {}\r\nConnection: close\r\n\r\n", path, "y".repeat(r.range(1, 9000) as usize)),
        _ => format!("{} {} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", method, path),
    }
}
/// browsers that ask for nonsense, next to a server that works
pub fn v_odd(r: &mut Rng, base: G) -> G {
    let (cfg, mut eps) = webify(r, base);
    for e in &mut eps {
        let mut names = vec!["nobody", "", "..", "%2F"];
        let mut own: Vec<String> = vec![];
        for o in &e.setup { let (a, _) = crate::hview::names(o); if let Some(a) = a { own.push(a.into()); } }
        for o in &own { names.push(o); }
        for _ in 0..r.range(1, 3) {
            let mut ops = vec![];
            for _ in 0..r.range(2, 10) { ops.push(Op::Http { req: odd_request(r, &names) }); if r.chance(1, 3) { ops.push(Op::Sleep(r.logu(1000, 120 * MS))); } }
            e.clients.push(Client { tcp: None, start_ns: r.logu(1000, 50 * MS), ops });
        }
    }
    (cfg, eps)
}
