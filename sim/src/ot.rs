//! Transport properties T01..T03, and survival of the server under everything.
use crate::client::unhex;
use crate::gen::{MS, S};
use crate::hist::*;
use crate::hview::*;
use crate::os;
use crate::plan::*;
use crate::runner::{server_panic, RunOut, ST_NOSTART};
use std::collections::{BTreeMap, BTreeSet};

fn d(h: &H, o: usize) -> String {
    let x = &h.ops[o];
    format!("[epoch {} client {} op {} {:?} -> {} @{:.3}..{:.3}ms]", x.ep, x.c, x.i, short(&x.op),
        match &x.r { None => "no answer".into(), Some(r) => format!("{:?}", r).chars().take(200).collect::<String>() }, x.inv.t as f64 / 1e6, x.ret.map(|p| p.t as f64 / 1e6).unwrap_or(-1.0))
}
fn short(o: &Op) -> String { format!("{:?}", o).chars().take(220).collect() }
const WIDE: &[&str] = &["T01", "T02", "T03", "D01", "D02", "N01", "V01"];
fn say(plan: &Plan, v: &mut Vs, props: &[&str], kind: &str, msg: String) {
    for p in props { v.add(p, kind, msg.clone()); }
    if WIDE.contains(&plan.prop.as_str()) && !props.contains(&plan.prop.as_str()) { v.add(&plan.prop, kind, msg); }
}

/// time in which anything simple is done
const SOON: u64 = 5 * S;

pub fn check(plan: &Plan, h: &H, out: &RunOut, v: &mut Vs) {
    survival(plan, h, out, v);
    for li in 0..h.links.len() { link(plan, h, li, v); }
    frames(plan, h, v);
    if plan.scen == "t-close" { released(plan, h, v); }
    for (ep, e) in h.eps.iter().enumerate() {
        for (what, path) in &e.escapes { say(plan, v, &["N01"], "escape", format!("epoch {}: {} of {:?}, outside the data directory", ep, what, path)); }
    }
    for (what, f) in &out.files { say(plan, v, &["N01"], "escape-file", format!("{}: {:?} next to the data directory", what, f)); }
}

fn survival(plan: &Plan, h: &H, out: &RunOut, v: &mut Vs) {
    for (ep, e) in out.epochs.iter().enumerate() {
        let mut bad = |kind: &str, msg: String| { v.add(&plan.prop, kind, msg.clone()); if plan.prop != "T02" { v.add("T02", kind, msg); } };
        let p = h.eps[ep].panics.iter().filter(|m| server_panic(m)).cloned().collect::<Vec<_>>().join("; ");
        // refusing to start is an answer to a disk that cannot be read
        if e.status == ST_NOSTART && crate::od::bad_start(plan, ep) { continue; }
        if e.status == ST_NOSTART { bad("no-start", format!("epoch {}: the server did not start: {}", ep, p)); }
        if e.status == os::ST_RUNNING && e.sig != 0 { bad("died", format!("epoch {}: the server was ended by signal {} {}", ep, e.sig, p)); }
        if e.status == os::ST_EXIT { bad("exited", format!("epoch {}: the server process ended {}", ep, p)); }
        let up = h.eps[ep].ready_g != 0;
        if !up && matches!(e.status, os::ST_DEADLOCK | os::ST_HORIZON) && !plan.epochs[ep].early { bad("no-start", format!("epoch {}: the server never came up {}", ep, p)); }
        if plan.prop == "T02" && !p.is_empty() { v.add("T02", "panic", format!("epoch {}: {}", ep, p)); }
    }
}

fn stalls(plan: &Plan, ep: usize, c: u32) -> u64 {
    let k = c as usize;
    if k < ep * 100 || k - ep * 100 >= plan.epochs[ep].clients.len() { return 0; }
    plan.epochs[ep].clients[k - ep * 100].ops.iter().map(|o| if let Op::Stall(n) = o { *n } else { 0 }).sum()
}
fn size_of(o: &Op) -> u64 {
    let (a, b) = names(o);
    let text = (a.map(|x| x.len()).unwrap_or(0) + b.map(|x| x.len()).unwrap_or(0)) as u64;
    2 * text + match o {
        Op::Echo { size, .. } | Op::KSet { size, .. } | Op::QPush { size, .. } | Op::SPub { size, .. } | Op::Pub { size, .. } => *size as u64 + 60,
        Op::NoWait(o) => size_of(o),
        Op::Frame { hex, .. } | Op::Raw { hex } => unhex(hex).len() as u64 + 20,
        _ => 60,
    }
}
/// what `c`'s own slowness and that of its connection may add
pub fn own_delay(plan: &Plan, h: &H, ep: usize, c: u32) -> u64 {
    let k = c as usize - ep * 100;
    let Some(cl) = plan.epochs[ep].clients.get(k) else { return 0 };
    let Some(n) = cl.tcp else { return 0 };
    let sent: u64 = cl.ops.iter().map(size_of).sum();
    let chunks = if n.chunk == 0 { 0 } else { 2 * sent / n.chunk as u64 + cl.ops.len() as u64 };
    let got: u64 = sent + h.pushes.iter().filter(|p| p.ep == ep && p.c == c).map(|p| p.len + 60).sum::<u64>()
        + h.ops.iter().filter(|o| o.ep == ep && o.c == c).map(|o| match &o.r { Some(Res::Msgs(m)) => 100 * m.len() as u64, Some(Res::SMsgs(m)) => 100 * m.len() as u64, _ => 0 }).sum::<u64>();
    let reads = if n.rchunk == 0 { 0 } else { 2 * got / n.rchunk as u64 };
    let step = 60_000 * 6;
    stalls(plan, ep, c) + chunks * (2 * n.gap_ns + step) + reads * step
}
/// what an operation may wait for by its nature
fn waits(plan: &Plan, o: &Op) -> Option<u64> {
    match o {
        Op::QConsume { wait, .. } => Some(wait.or(plan.cfg.get("QUEUE_DEFAULT_WAIT_MS")).unwrap_or(0).saturating_mul(MS)),
        Op::SFetch { wait, .. } => Some(*wait as u64 * MS),
        Op::Frame { op: 0x12 | 0x32, ftype: 1, .. } => None,
        _ => Some(0),
    }
}
/// executed by the simulator itself, whatever the client
fn local(o: &Op) -> bool { matches!(o, Op::QPop { .. } | Op::QSnap | Op::QDump { .. } | Op::SRead { .. } | Op::SSnap | Op::PScan | Op::KScan | Op::PProbe { .. } | Op::Raw { .. } | Op::Close | Op::Reset | Op::HalfClose) }

fn is_wire(plan: &Plan, l: &Conn) -> bool { l.c < 1000 && plan.epochs[l.ep].clients.get(l.c as usize - l.ep * 100).map(|c| c.tcp.is_some()).unwrap_or(false) }

fn link(plan: &Plan, h: &H, li: usize, v: &mut Vs) {
    let l = &h.links[li];
    if !is_wire(plan, l) { return; }
    let ep = l.ep;
    let e = &h.eps[ep];
    if e.disk_faults || plan.epochs[ep].crash != os::CrashAt::Never && h.eps[ep].status != os::ST_DONE { /* still checked: a crash only cuts answers off */ }
    let ops: Vec<usize> = (0..h.ops.len()).filter(|i| h.ops[*i].ep == ep && h.ops[*i].c == l.c && h.ops[*i].inv.g > l.open_g && h.links.iter().all(|m| !(m.c == l.c && m.open_g > l.open_g && m.open_g < h.ops[*i].inv.g))).collect();
    // one the system dropped before the server got to see it
    if plan.epochs[ep].disk.iter().any(|f| f.classes & os::C_NET != 0 && f.errno == libc::ECONNABORTED) && !ops.iter().any(|i| { let o = &h.ops[*i]; o.fin() && !o.web && !local(&o.op) && !matches!(o.op, Op::Sleep(_) | Op::At(_) | Op::HPage { .. } | Op::Http { .. }) }) { return; }
    let raw: Option<&O> = ops.iter().map(|i| &h.ops[*i]).find(|o| matches!(o.op, Op::Raw { .. }));
    // the client's own doing
    let mut cause_g = u64::MAX;
    let mut cause_t = u64::MAX;
    for x in h.conns.iter().filter(|x| x.ep == ep && x.id == l.id && x.what == "closing") { if x.g < cause_g { cause_g = x.g; cause_t = x.t; } }
    for i in &ops { let o = &h.ops[*i]; if matches!(o.op, Op::HalfClose | Op::Close | Op::Reset | Op::Raw { .. }) && o.inv.g < cause_g { cause_g = o.inv.g; cause_t = o.inv.t; } }
    let seen_end = h.conns.iter().find(|x| x.ep == ep && x.id == l.id && (x.what == "eof" || x.what == "end"));
    if let Some(x) = seen_end {
        if x.g < cause_g { say(plan, v, &["T01", "T02"], "dropped", format!("the server ended the connection of client {} at {:.3} ms for no reason of the client's ({:?})", l.c, x.t as f64 / 1e6, l.err)); }
    }
    // every request is answered, in reasonable time
    let own = own_delay(plan, h, ep, l.c);
    for i in &ops {
        let o = &h.ops[*i];
        if local(&o.op) || o.web { continue; }
        if let Some(Res::Garbled(x)) = &o.r { say(plan, v, &["T01"], "garbled", format!("{}: {}", x, d(h, *i))); }
        if let (Op::Echo { tag, size }, Some(r)) = (&o.op, &o.r) {
            let want = if *size == 0 { 0 } else { *tag };
            if !matches!(r, Res::Lost) && *r != Res::Val(Some(want)) { say(plan, v, &["T01"], "wrong-answer", format!("not its own answer: {}", d(h, *i))); }
        }
        if raw.map(|r| r.inv.g < o.inv.g).unwrap_or(false) { continue; }
        let Some(w) = waits(plan, &o.op) else { continue };
        let by = o.inv.t.saturating_add(w).saturating_add(SOON + e.slack + own);
        let answered = if o.fin() { o.end_t() } else { u64::MAX };
        // how long the client was there to take it
        let there = cause_t.min(e.end_t);
        if answered > by && there > by {
            let also: &[&str] = match o.op { Op::Frame { .. } => &["T01", "T02"], _ => &["T01"] };
            say(plan, v, also, if answered == u64::MAX { "unanswered" } else { "late" }, format!("no answer within {} ms: {}", (by - o.inv.t) / MS, d(h, *i)));
        }
    }
    // the server notices the end of a connection
    let black = plan.cfg.get("SIM_MAIN").unwrap_or(0) > 0;
    if !black && cause_t != u64::MAX && raw.is_none() && cause_t.saturating_add(SOON + e.slack + own) < e.end_t && l.to_t > cause_t + SOON + e.slack + own {
        say(plan, v, &["T03"], "lingers", format!("the connection of client {} ended at {:.3} ms, but the server still serves it", l.c, cause_t as f64 / 1e6));
    }
    if let Some(r) = raw {
        if let Op::Raw { hex } = &r.op {
            let b = unhex(hex);
            let max = plan.cfg.get("MAX_PAYLOAD_SIZE").unwrap_or(10_485_760);
            let open = |t: u64| !h.conns.iter().any(|x| x.ep == ep && x.id == l.id && x.what == "closing" && x.t < t) && !ops.iter().any(|i| matches!(h.ops[*i].op, Op::HalfClose | Op::Close | Op::Reset) && h.ops[*i].inv.t < t);
            let by = r.inv.t + SOON + e.slack + own;
            // the first bytes the client ever sent that are not whole frames
            let too_big = b.len() >= 10 && u32::from_be_bytes(b[6..10].try_into().unwrap()) as u64 > max;
            if !black && too_big && open(by) && by < e.end_t && l.to_t > by { say(plan, v, &["T02"], "oversized", format!("a frame of an announced {} bytes did not close the connection of client {}", u32::from_be_bytes(b[6..10].try_into().unwrap()), l.c)); }
        }
    }
    if !h.ops.iter().any(|o| o.ep == ep && o.c == l.c && matches!(o.op, Op::Raw { .. })) { for (_, _, w) in h.strays.iter().filter(|x| x.0 == ep && x.1 == l.c) { say(plan, v, &["T01"], "stray", format!("client {} got something it never asked for: {}", l.c, w)); } }
}

// ------------------------------------------------------------------ hostile frames
/// the request cannot be understood
pub fn malformed(ftype: u8, op: u8, p: &[u8]) -> bool {
    if ftype != 1 { return true; }
    #[derive(Clone, Copy)]
    enum F { S, J, U4, U8, Id, B }
    use F::*;
    let l: &[F] = match op {
        0x00 => return false,
        0x02 => &[S, J],
        0x03 | 0x04 => &[S],
        0x10 | 0x11 | 0x12 => &[S, J],
        0x13 => &[Id, S],
        0x14 | 0x15 | 0x19 => &[S],
        0x16 => &[S, U4, U4],
        0x17 | 0x18 => &[S, Id],
        0x1A => &[Id, S, S],
        0x21 => &[S, J],
        0x22 | 0x23 => &[S],
        0x30 => &[S, J],
        0x31 | 0x35 | 0x36 => &[S],
        0x32 => &[S, S, S, U8, U4, U4],
        0x33 => &[S, S],
        0x34 => &[S, S, S, U8, U8],
        0x38 => &[S, S, B],
        0x39 => &[S, S, S, U8],
        _ => return true,
    };
    let mut at = 0usize;
    for f in l {
        let k = match f { U4 => 4, U8 => 8, Id => 16, B => 1, S | J => {
            if p.len() < at + 4 { return true; }
            let n = u32::from_be_bytes(p[at..at + 4].try_into().unwrap()) as usize;
            at += 4;
            n
        } };
        if p.len() - at.min(p.len()) < k { return true; }
        match f {
            S | J => {
                let Ok(t) = std::str::from_utf8(&p[at..at + k]) else { return true };
                if let J = f { if serde_json::from_str::<serde::de::IgnoredAny>(t).is_err() || !t.trim_start().starts_with(['{', '[']) { return true; } }
            }
            B => if p[at] > 1 { return true; },
            _ => {}
        }
        at += k;
    }
    false
}
fn frames(plan: &Plan, h: &H, v: &mut Vs) {
    for (i, o) in h.ops.iter().enumerate() {
        let Op::Frame { ftype, op, hex } = &o.op else { continue };
        if !o.fin() { continue; }
        if malformed(*ftype, *op, &unhex(hex)) {
            if !matches!(o.r, Some(Res::Err(_))) { say(plan, v, &["T02"], "accepted", format!("a malformed request was not refused: {}", d(h, i))); }
        } else if let (0, Some(Res::Err(_))) = (*op, &o.r) { say(plan, v, &["T02"], "refused", d(h, i)); }
    }
}

// ------------------------------------------------------------------ closed connections
fn released(plan: &Plan, h: &H, v: &mut Vs) {
    let e = &h.eps[0];
    if e.status != os::ST_DONE { return; }
    let drv = 1000u32;
    let linkof = |o: &O| h.link(o.c, o.inv.g);
    let mut got: BTreeSet<u64> = BTreeSet::new();
    for o in &h.ops { if let Some(Res::Msgs(m)) = &o.r { for x in m { if let Some(t) = x.tag { got.insert(t); } } } }
    // what was pushed after the last of the waiting connections was gone is nobody's
    let gone = h.ops.iter().filter(|o| matches!(o.op, Op::QConsume { .. }) && o.vague()).map(|o| linkof(o).map(|l| l.to_g).unwrap_or(u64::MAX)).max().unwrap_or(0);
    for (i, o) in h.ops.iter().enumerate() {
        let Some(Res::Dump { inflight, .. }) = &o.r else { continue };
        for m in inflight {
            let Some(t) = m.tag else { continue };
            if got.contains(&t) { continue; }
            let Some(p) = h.ops.iter().find(|p| matches!(&p.op, Op::QPush { tag, .. } if *tag == t)) else { continue };
            if p.inv.g > gone && p.ok() { v.add("T03", "taken-by-dead", format!("message {} was pushed when every connection that had waited was gone, and yet is leased to somebody: {}", t, d(h, i))); }
        }
    }
    // nothing stays assigned to a member that is gone
    if let Some((i, Res::SSnap(ts))) = h.ops.iter().enumerate().filter(|(_, o)| o.c == drv && matches!(o.op, Op::SSnap)).filter_map(|(i, o)| o.r.as_ref().map(|r| (i, r))).last() {
        let drained = h.ops.iter().any(|o| o.c == drv && matches!(o.op, Op::SJoin { .. }) && matches!(o.r, Some(Res::Joined { .. })));
        let lost = h.ops.iter().any(|o| o.c == drv && o.vague());
        // everybody else must be gone
        let all_gone = h.links.iter().filter(|l| l.c != drv).all(|l| l.to_g < h.ops.iter().find(|o| o.c == drv && matches!(o.op, Op::SJoin { .. })).map(|o| o.inv.g).unwrap_or(0));
        if drained && !lost && all_gone { for t in ts { for (g, fl, pend) in &t.groups { if *pend > 0 || *fl != t.last { v.add("T03", "kept", format!("group {} of {} cannot be drained though all its members are gone: position {} of {}, {} outstanding: {}", g, t.s, fl, t.last, pend, d(h, i))); } } } }
    }
    // a survivor that waits for events is given those the dead one held
    let acks: BTreeMap<(u32, u64), bool> = h.ops.iter().filter(|o| matches!(o.op, Op::SAck { .. })).filter_map(|o| o.arg.as_ref().and_then(|a| a.split(' ').next().and_then(|x| x.parse().ok())).map(|n| ((o.c, n), true))).collect();
    let cap = plan.cfg.get("STREAM_MAX_ACK_PENDING").unwrap_or(1000);
    for l in h.links.iter().filter(|l| l.to_t != u64::MAX && l.c != drv) {
        let held: BTreeSet<u64> = h.ops.iter().filter(|o| o.c == l.c && o.inv.g > l.open_g && o.end_g() < l.to_g && matches!(o.op, Op::SFetch { .. }))
            .flat_map(|o| match &o.r { Some(Res::SMsgs(m)) => m.iter().map(|x| x.seq).collect::<Vec<_>>(), _ => vec![] }).filter(|n| !acks.keys().any(|k| k.1 == *n)).collect();
        if held.is_empty() { continue; }
        for (i, o) in h.ops.iter().enumerate() {
            let Op::SFetch { wait, .. } = &o.op else { continue };
            if o.c == l.c || o.inv.t >= l.to_t || o.inv.t + *wait as u64 * MS < l.to_t + 10 * S + e.slack { continue; }
            let by = l.to_t + SOON + e.slack + if is_wire(plan, l) { own_delay(plan, h, 0, o.c.min(99)) } else { 0 };
            if o.end_t() <= by || e.end_t <= by { continue; }
            let Some(ol) = linkof(o) else { continue };
            if ol.from_t <= by { continue; }
            // given to somebody else, or full
            let other = h.ops.iter().any(|x| x.inv.g < o.end_g() && x.end_g() > l.from_g && matches!(x.op, Op::SFetch { .. }) && x.c != o.c && x.inv.t < by);
            let full = h.ops.iter().filter(|x| x.c == o.c && matches!(x.op, Op::SFetch { .. })).map(|x| match &x.r { Some(Res::SMsgs(m)) => m.len() as u64, _ => 0 }).sum::<u64>() >= cap;
            if other || full { continue; }
            v.add("T03", "not-offered", format!("events {:?}, held by client {} until its connection ended at {:.3} ms, were not offered to {}", held, l.c, l.to_t as f64 / 1e6, d(h, i)));
        }
    }
}
