//! Stream properties S01..S10.
use crate::gen::MS;
use crate::hist::*;
use crate::hview::*;
use crate::os;
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const EPS: u64 = 30 * MS;
/// how often leases of groups are looked at
const TICK: u64 = 100 * MS;

pub fn sname(op: &Op) -> Option<&str> {
    match op {
        Op::SCreate { s, .. } | Op::SDelete { s } | Op::SPub { s, .. } | Op::SRead { s, .. } | Op::SJoin { s, .. } | Op::SFetch { s, .. } | Op::SAck { s, .. }
        | Op::SLeave { s, .. } | Op::SSeek { s, .. } | Op::SExists { s } => Some(s),
        _ => None,
    }
}
fn gname(op: &Op) -> Option<&str> {
    match op {
        Op::SJoin { g, .. } | Op::SFetch { g, .. } | Op::SAck { g, .. } | Op::SLeave { g, .. } | Op::SSeek { g, .. } => Some(g),
        _ => None,
    }
}
fn d(h: &H, o: usize) -> String {
    let x = &h.ops[o];
    let r = match &x.r {
        None => "no answer".into(),
        Some(Res::SMsgs(m)) => format!("{:?}", m.iter().map(|y| (y.seq, y.tag)).collect::<Vec<_>>()),
        Some(r) => format!("{:?}", r),
    };
    format!("[epoch {} client {} op {} {:?}{} -> {} @{:.3}..{:.3}ms]", x.ep, x.c, x.i, x.op, x.arg.as_ref().map(|a| format!(" {}", a)).unwrap_or_default(),
        r.chars().take(200).collect::<String>(), x.inv.t as f64 / 1e6, x.ret.map(|p| p.t as f64 / 1e6).unwrap_or(-1.0))
}
/// reports under every one of `props`, and under the property being searched if it is one of `also`
fn say(plan: &Plan, v: &mut Vs, props: &[&str], also: &[&str], kind: &str, msg: String) {
    for p in props { v.add(p, kind, msg.clone()); }
    if also.contains(&plan.prop.as_str()) && !props.contains(&plan.prop.as_str()) { v.add(&plan.prop, kind, msg); }
}
/// properties whose scenarios use streams as the data that must not suffer
const WIDE: &[&str] = &["S06", "S07", "S08", "S10", "D01", "N01", "T02", "T03", "V01"];

fn arg3(o: &O) -> (u64, u64, &str) {
    let a = o.arg.as_deref().unwrap_or("0 0 ");
    let mut p = a.splitn(3, ' ');
    (p.next().unwrap_or("0").parse().unwrap_or(0), p.next().unwrap_or("0").parse().unwrap_or(0), p.next().unwrap_or(""))
}
fn has_jumps(plan: &Plan) -> bool { plan.epochs.iter().any(|e| !e.jumps.is_empty()) }
fn rec_len(op: &Op) -> u64 {
    match op { Op::SPub { tag, size, .. } => 24 + if *size == 0 { 0 } else { payload(*tag, *size).len() as u64 }, _ => 0 }
}
/// (age, bytes) a stream created this way gets
fn limits(plan: &Plan, op: &Op) -> (Option<u64>, Option<u64>) {
    let da = plan.cfg.get("STREAM_DEFAULT_RETENTION_AGE_MS").unwrap_or(604_800_000);
    let db = plan.cfg.get("STREAM_DEFAULT_RETENTION_BYTES").unwrap_or(1 << 30);
    let f = |x: Option<u64>, dv: u64| match x { None => Some(dv), Some(0) => None, Some(n) => Some(n) };
    match op {
        Op::SCreate { age, bytes, ret: true, .. } => (f(*age, da), f(*bytes, db)),
        _ => (Some(da), Some(db)),
    }
}

/// One stream's history.
struct S<'a> {
    h: &'a H,
    plan: &'a Plan,
    name: String,
    ops: Vec<usize>,
    creates: Vec<usize>,
    deletes: Vec<usize>,
    /// tag -> publish
    pubs: HashMap<u64, usize>,
    age: Option<u64>,
    bytes: Option<u64>,
    /// retention may have removed something in this run
    lossy: bool,
}
/// What is known of the log of one epoch.
#[derive(Clone, Default)]
struct Log {
    /// last sequence number recovered at the start of the epoch
    r: u64,
    /// sequence number -> tag
    at: BTreeMap<u64, u64>,
}

pub fn check(plan: &Plan, h: &H, v: &mut Vs) {
    let mut names: BTreeSet<String> = BTreeSet::new();
    for o in &h.ops { if let Some(n) = sname(&o.op) { names.insert(n.to_string()); } }
    let mut known: BTreeSet<&str> = BTreeSet::new();
    for o in &h.ops { if let Op::SCreate { s, .. } = &o.op { known.insert(s); } }
    for (i, o) in h.ops.iter().enumerate() {
        if let Some(Res::SSnap(ts)) = &o.r {
            for t in ts { if !known.contains(t.s.as_str()) { say(plan, v, &["N01"], &["S10"], "stream-invented", format!("stream {:?} exists but was never created: {}", t.s, d(h, i))); } }
        }
    }
    if names.is_empty() { return; }
    let mut owner: HashMap<u64, String> = HashMap::new();
    for o in &h.ops { if let Op::SPub { s, tag, .. } = &o.op { owner.insert(*tag, s.clone()); } }
    names.retain(|n| !n.starts_with("zy-"));
    for n in &names {
        let s = view(plan, h, n);
        content(&s, &owner, v);
        if s.deletes.is_empty() {
            if !s.creates.iter().any(|c| h.ops[*c].ok() || h.ops[*c].vague()) { absent(&s, v); continue; }
            if !s.creates.iter().any(|c| h.ops[*c].ok()) { continue; }
            alive(&s, v);
        } else {
            life(&s, v);
        }
    }
}

fn view<'a>(plan: &'a Plan, h: &'a H, name: &str) -> S<'a> {
    let mut s = S { h, plan, name: name.into(), ops: vec![], creates: vec![], deletes: vec![], pubs: HashMap::new(), age: None, bytes: None, lossy: false };
    let mut total = 0;
    for (i, o) in h.ops.iter().enumerate() {
        if sname(&o.op) != Some(name) { continue; }
        s.ops.push(i);
        match &o.op {
            Op::SCreate { .. } => s.creates.push(i),
            Op::SDelete { .. } => s.deletes.push(i),
            Op::SPub { tag, .. } => { s.pubs.insert(*tag, i); total += rec_len(&o.op); }
            _ => {}
        }
    }
    if let Some(c) = s.creates.iter().find(|c| h.ops[**c].ok() || h.ops[**c].vague()) {
        let (a, b) = limits(plan, &h.ops[*c].op);
        s.age = a;
        s.bytes = b;
    }
    let span = h.eps.last().map(|e| e.end_real).unwrap_or(0).saturating_sub(h.eps.first().map(|e| e.start_real).unwrap_or(0));
    let jump: u64 = plan.epochs.iter().flat_map(|e| e.jumps.iter()).map(|j| j.delta.unsigned_abs()).sum();
    s.lossy = s.bytes.map(|b| total > b).unwrap_or(false) || s.age.map(|a| (span + jump) / MS >= a).unwrap_or(false);
    s
}

fn msgs(o: &O) -> &[SMsg] { match &o.r { Some(Res::SMsgs(m)) => m, _ => &[] } }

/// whatever is handed out was published to this stream
fn content(s: &S, owner: &HashMap<u64, String>, v: &mut Vs) {
    let h = s.h;
    let mut ts: HashMap<u64, u64> = HashMap::new();
    for i in &s.ops {
        let o = &h.ops[*i];
        for m in msgs(o) {
            let Some(tag) = m.tag else {
                say(s.plan, v, &["S01"], WIDE, "altered", format!("stream {}: event {} carries a payload nobody published: {}", s.name, m.seq, d(h, *i)));
                continue;
            };
            match owner.get(&tag) {
                None => say(s.plan, v, &["S01"], WIDE, "invented", format!("stream {}: payload {} was never published: {}", s.name, tag, d(h, *i))),
                Some(n) if *n != s.name => say(s.plan, v, &["N01"], &["S01", "S10"], "stream-crosstalk", format!("event {} published to {:?} appears in {:?}: {}", tag, n, s.name, d(h, *i))),
                _ => {
                    let p = &h.ops[s.pubs[&tag]];
                    if p.inv.g > o.end_g() { say(s.plan, v, &["S01"], &[], "early", format!("event {} appears before it was published: {}", tag, d(h, *i))); }
                    if let Some(Res::Err(e)) = &p.r { if e != "panic" { say(s.plan, v, &["S01"], WIDE, "refused-but-there", format!("event {} whose publish failed appears: {}", tag, d(h, *i))); } }
                    if let Some(t) = ts.insert(tag, m.ts) { if t != m.ts { say(s.plan, v, &["S01"], &["S06"], "timestamp", format!("stream {}: event {} has timestamps {} and {}: {}", s.name, m.seq, t, m.ts, d(h, *i))); } }
                }
            }
        }
        let ms = msgs(o);
        let mut seen = HashSet::new();
        for m in ms { if !seen.insert(m.seq) { say(s.plan, v, &["S01", "S02"], WIDE, "twice-in-answer", format!("stream {}: event {} twice in one answer: {}", s.name, m.seq, d(h, *i))); } }
        match &o.op {
            Op::SRead { limit, .. } if ms.len() as u64 > *limit => say(s.plan, v, &["S01"], &[], "too-many", format!("stream {}: more than asked for: {}", s.name, d(h, *i))),
            Op::SFetch { limit, .. } if ms.len() as u64 > *limit as u64 => say(s.plan, v, &["S02"], &[], "too-many", format!("stream {}: more than asked for: {}", s.name, d(h, *i))),
            _ => {}
        }
    }
}

/// never created
fn absent(s: &S, v: &mut Vs) {
    for i in &s.ops {
        let o = &s.h.ops[*i];
        let bad = match (&o.op, &o.r) {
            (Op::SExists { .. }, Some(Res::Bool(true))) | (Op::SPub { .. }, Some(Res::Num(_))) | (Op::SJoin { .. }, Some(Res::Joined { .. })) | (Op::SSeek { .. }, Some(Res::Ok)) => true,
            (Op::SRead { .. } | Op::SFetch { .. }, Some(Res::SMsgs(m))) => !m.is_empty(),
            _ => false,
        };
        if bad { say(s.plan, v, &["S10", "N01"], &[], "ghost", format!("stream {} was never created but {}", s.name, d(s.h, *i))); }
    }
}

/// when a publish is certainly on disk; None: not certain
fn outages(plan: &Plan, h: &H, ep: usize) -> Vec<(u64, u64)> {
    let t = if plan.epochs[ep].early { h.eps[ep].start_t } else { h.eps[ep].ready_t };
    plan.epochs[ep].io().map(|f| (t + f.from, t.saturating_add(f.to))).collect()
}
/// everything finished before this time must have reached the disk by the end of the epoch
pub fn must_before(plan: &Plan, h: &H, ep: usize, window: u64) -> u64 {
    let w = window + 25 * MS + h.eps[ep].slack;
    let crash = h.eps[ep].end_t;
    let mut m = crash.saturating_sub(w);
    let mut o = outages(plan, h, ep);
    o.sort();
    for (a, b) in o.iter().rev() {
        if b.saturating_add(w) > m.saturating_add(w).min(crash) { m = m.min(a.saturating_sub(w)); }
    }
    m
}

fn alive(s: &S, v: &mut Vs) {
    let h = s.h;
    let plan = s.plan;
    let flush = plan.cfg.get("STREAM_DEFAULT_FLUSH_MS").unwrap_or(50) * MS;
    let groups: BTreeSet<String> = s.ops.iter().filter_map(|i| gname(&h.ops[*i].op).map(|g| g.to_string())).collect();
    let mut log = Log::default();
    // a publish without an answer: its number is not known
    let mut floors: BTreeMap<String, u64> = BTreeMap::new();
    let mut since: Option<usize> = None; // first epoch since the last observed start
    let created_g = s.creates.iter().filter(|c| h.ops[**c].ok()).map(|c| h.ops[*c].end_g()).min().unwrap();
    // options never change
    for (i, o) in h.ops.iter().enumerate() {
        if let Some(Res::SSnap(ts)) = &o.r {
            match ts.iter().find(|t| t.s == s.name) {
                Some(t) => {
                    let c: Vec<_> = s.creates.iter().filter(|c| (h.ops[**c].ok() || h.ops[**c].vague()) && h.ops[**c].inv.g < o.end_g())
                        .filter(|c| !s.creates.iter().any(|c0| h.ops[*c0].ok() && h.ops[*c0].end_g() < h.ops[**c].inv.g)).map(|c| limits(plan, &h.ops[*c].op)).collect();
                    if !c.contains(&(t.age, t.bytes)) { say(plan, v, &["S10"], &[], "options", format!("stream {} was created with limits (age, bytes) {:?} but has {:?}: {}", s.name, c, (t.age, t.bytes), d(h, i))); }
                }
                None => if created_g < o.inv.g { say(plan, v, &["S06", "S10"], WIDE, "lost-stream", format!("stream {} is gone: {}", s.name, d(h, i))); }
            }
        }
    }
    let mut prev_ops: Vec<usize> = vec![];
    for ep in 0..h.eps.len() {
        let eops: Vec<usize> = s.ops.iter().copied().filter(|i| h.ops[*i].ep == ep).collect();
        // what was recovered
        let snap = h.ops.iter().enumerate().find(|(_, o)| o.ep == ep && o.c == 1000 + ep as u32 && matches!(o.op, Op::SSnap) && matches!(o.r, Some(Res::SSnap(_)))).map(|(i, _)| i);
        if ep > 0 {
            let first_pub = eops.iter().filter(|i| matches!(h.ops[**i].op, Op::SPub { .. })).map(|i| h.ops[*i].inv.g).min().unwrap_or(u64::MAX);
            let top = snap.and_then(|i| if let Some(Res::SSnap(t)) = &h.ops[i].r { t.iter().find(|t| t.s == s.name).cloned() } else { None });
            let usable = snap.map(|i| h.ops[i].end_g() < first_pub).unwrap_or(false);
            match (top, usable) {
                (Some(t), true) => {
                    let b = since.unwrap_or(0);
                    recovered(s, v, &mut log, b, ep, t.last, snap.unwrap(), flush);
                    group_recovered(s, v, &mut floors, &groups, &prev_ops, b, ep, &t, snap.unwrap(), flush, log.r);
                    log.r = t.last;
                    log.at.retain(|k, _| *k <= t.last);
                    since = Some(ep);
                    prev_ops.clear();
                }
                _ => {
                    // died before anything was observed: nothing happened either
                    if eops.iter().any(|i| matches!(h.ops[*i].op, Op::SPub { .. } | Op::SAck { .. } | Op::SFetch { .. } | Op::SSeek { .. })) { return; }
                    prev_ops.extend(eops.iter().copied());
                    continue;
                }
            }
        } else { since = Some(0); }
        prev_ops.extend(eops.iter().copied());
        log_epoch(s, v, &mut log, ep, &eops);
        for g in &groups { group_epoch(s, v, &log, ep, &eops, g, floors.get(g).copied(), snap); }
    }
    if s.lossy || s.plan.prop == "S08" { retention(s, v); }
}

/// S06
fn recovered(s: &S, v: &mut Vs, log: &mut Log, b: usize, ep: usize, r: u64, snap: usize, flush: u64) {
    let h = s.h;
    let max = log.at.keys().next_back().copied().unwrap_or(0).max(log.r);
    let vague = s.pubs.values().filter(|p| { let o = &h.ops[**p]; o.ep >= b && o.ep < ep && o.vague() }).count() as u64;
    if r > max + vague { say(s.plan, v, &["S06"], WIDE, "too-long", format!("stream {}: {} events after the restart, at most {} were published: {}", s.name, r, max + vague, d(h, snap))); }
    let mut need = log.r;
    let mut why = String::from("they had been recovered before");
    for (q, tag) in &log.at {
        if *q <= need { continue; }
        let p = &h.ops[s.pubs[tag]];
        let Some(ret) = p.ret else { continue };
        if p.ep < b || p.ep >= ep { continue; }
        let must = must_before(s.plan, h, p.ep, flush);
        if ret.t < must { need = *q; why = format!("event {} was published {:.3} ms before the crash: {}", q, (h.eps[p.ep].end_t - ret.t) as f64 / 1e6, d(h, s.pubs[tag])); }
    }
    if r < need { say(s.plan, v, &["S06"], WIDE, "lost", format!("stream {}: after the restart the log ends at {}, but at least {} events must have survived (flush {} ms; {}): {}", s.name, r, need, flush / MS, why, d(h, snap))); }
}

/// S01 (within an epoch): numbers, order, reads
fn log_epoch(s: &S, v: &mut Vs, log: &mut Log, ep: usize, eops: &[usize]) {
    let h = s.h;
    let plan = s.plan;
    let faulty = plan.epochs[ep].io().next().is_some();
    let mut tags: HashMap<u64, u64> = log.at.iter().map(|(k, t)| (*t, *k)).collect();
    let pubs: Vec<usize> = eops.iter().copied().filter(|i| matches!(h.ops[*i].op, Op::SPub { .. })).collect();
    let seq_of = |i: usize| match &h.ops[i].r { Some(Res::Num(n)) => Some(*n), _ => None };
    let tag_of = |i: usize| match &h.ops[i].op { Op::SPub { tag, .. } => *tag, _ => 0 };
    let mut vague = 0;
    let mut first: HashMap<u64, usize> = HashMap::new();
    for i in &pubs {
        if h.ops[*i].vague() { vague += 1; continue; }
        match seq_of(*i) {
            Some(n) => {
                if n <= log.r { say(plan, v, &["S01"], WIDE, "number-reused", format!("stream {}: number {} given out although the log already had {} events: {}", s.name, n, log.r, d(h, *i))); }
                if let Some(j) = first.insert(n, *i) { say(plan, v, &["S01"], WIDE, "number-twice", format!("stream {}: {} and {}", s.name, d(h, j), d(h, *i))); }
                log.at.insert(n, tag_of(*i));
                tags.insert(tag_of(*i), n);
            }
            None => say(plan, v, &["S01"], WIDE, "refused", format!("stream {}: publish failed: {}", s.name, d(h, *i))),
        }
    }
    let top = first.keys().max().copied().unwrap_or(log.r);
    let gaps = ((log.r + 1)..=top).filter(|n| !first.contains_key(n)).count() as u64;
    if gaps > vague { say(plan, v, &["S01"], WIDE, "gap", format!("stream {}: numbers {}..={} given out by {} answered and {} unanswered publishes", s.name, log.r + 1, top, first.len(), vague)); }
    let mut byn: Vec<(u64, usize)> = first.iter().map(|(a, b)| (*a, *b)).collect();
    byn.sort();
    // a later publish got a smaller number?
    let mut min_end: Vec<u64> = vec![u64::MAX; byn.len() + 1];
    for k in (0..byn.len()).rev() { min_end[k] = min_end[k + 1].min(h.ops[byn[k].1].end_g()); }
    for k in 0..byn.len() {
        if min_end[k + 1] < h.ops[byn[k].1].inv.g {
            let j = byn[k + 1..].iter().find(|x| h.ops[x.1].end_g() < h.ops[byn[k].1].inv.g).unwrap();
            say(plan, v, &["S01"], WIDE, "order", format!("stream {}: {} finished before {} began", s.name, d(h, j.1), d(h, byn[k].1)));
            break;
        }
    }
    // reads and deliveries
    let mut removed = 0u64; // numbers known to be gone, in order of observation
    let mut gone_at: Vec<(u64, u64, u64)> = vec![];
    for i in eops {
        let o = &h.ops[*i];
        for m in msgs(o) {
            let Some(tag) = m.tag else { continue };
            match tags.get(&tag) {
                Some(n) if *n != m.seq => say(plan, v, &["S01"], WIDE, "moved", format!("stream {}: event {} has number {} but is returned as {}: {}", s.name, tag, n, m.seq, d(h, *i))),
                Some(_) => {}
                None => {
                    let lost = s.pubs.get(&tag).map(|p| h.ops[*p].ep < ep && !h.ops[*p].vague()).unwrap_or(false);
                    if lost { say(plan, v, &["S06"], WIDE, "zombie", format!("stream {}: event {} was lost in a crash but is back: {}", s.name, tag, d(h, *i))); }
                    if let Some(t) = log.at.get(&m.seq) { if *t != tag { say(plan, v, &["S01"], WIDE, "replaced", format!("stream {}: number {} denotes events {} and {}: {}", s.name, m.seq, t, tag, d(h, *i))); } }
                    log.at.insert(m.seq, tag);
                    tags.insert(tag, m.seq);
                }
            }
        }
        let Op::SRead { from, limit, .. } = &o.op else { continue };
        let Some(Res::SMsgs(ms)) = &o.r else { continue };
        if *limit == 0 { continue; }
        for w in ms.windows(2) { if w[1].seq != w[0].seq + 1 { say(plan, v, &["S01", "S08"], WIDE, "hole", format!("stream {}: numbers are not consecutive: {}", s.name, d(h, *i))); break; } }
        let last = first.iter().filter(|(_, p)| h.ops[**p].end_g() < o.inv.g).map(|x| *x.0).max().unwrap_or(0).max(log.r);
        let from = (*from).max(1);
        match ms.first() {
            Some(m) => {
                if m.seq < from { say(plan, v, &["S01"], WIDE, "before", format!("stream {}: starts before the position asked for: {}", s.name, d(h, *i))); }
                if m.seq > from {
                    if !s.lossy { say(plan, v, &["S01", "S08"], WIDE, "skipped", format!("stream {}: asked from {} but got {} first, and nothing was to be removed: {}", s.name, from, m.seq, d(h, *i))); }
                    if m.seq > removed { removed = m.seq; gone_at.push((o.end_g(), o.ret.map(|p| p.t).unwrap_or(u64::MAX), m.seq)); }
                }
                // (an event whose file is gone is in memory a moment longer)
                for (g, t, n) in &gone_at { if *g < o.inv.g && t.saturating_add(1000 * MS + h.eps[ep].slack) < o.inv.t && m.seq < *n { say(plan, v, &["S08"], &["S01"], "back", format!("stream {}: events before {} were gone but {} is there: {}", s.name, n, m.seq, d(h, *i))); } }
            }
            // (what was recovered may be all gone when a crash left an empty last segment)
            // (nor is anything returned while retention is removing what was asked for)
            None => if from <= last && !faulty && !(s.lossy && (ep > 0 && last == log.r || going(s, eops, *i, from, last))) {
                say(plan, v, &["S01", "S08"], WIDE, "nothing", format!("stream {}: nothing read from {} although {} events had been published: {}", s.name, from, last, d(h, *i)));
            }
        }
    }
}

/// Nothing was read from `n` in `at`: may retention have been removing it right then? Not if it is
/// still there afterwards, nor if nothing is there for long.
fn going(s: &S, eops: &[usize], at: usize, n: u64, last: u64) -> bool {
    let h = s.h;
    let a = &h.ops[at];
    let by = a.end_t().saturating_add(1000 * MS + h.eps[a.ep].slack);
    !eops.iter().any(|i| {
        let o = &h.ops[*i];
        let Op::SRead { from, limit, .. } = &o.op else { return false };
        let Some(Res::SMsgs(m)) = &o.r else { return false };
        if o.inv.g < a.end_g() || *limit == 0 || (*from).max(1) > last { return false; }
        match m.first() { Some(m) => m.seq <= n, None => o.inv.t > by }
    })
}

/// S08: what was removed had to go
fn retention(s: &S, v: &mut Vs) {
    let h = s.h;
    let seg = s.plan.cfg.get("STREAM_MAX_SEGMENT_SIZE").unwrap_or(100 << 20);
    let jumps: u64 = s.plan.epochs.iter().flat_map(|e| e.jumps.iter()).map(|j| j.delta.unsigned_abs()).sum();
    if !h.single() && s.ops.iter().any(|i| matches!(h.ops[*i].op, Op::SPub { .. }) && h.ops[*i].vague()) { return; }
    // later numbers replace those lost in a crash
    for i in &s.ops {
        let o = &h.ops[*i];
        let Op::SRead { from, .. } = &o.op else { continue };
        let Some(m) = msgs(o).first() else { continue };
        if m.seq <= (*from).max(1) { continue; }
        let head = m.seq;
        let before: Vec<(u64, usize)> = s.pubs.values().copied().filter(|p| h.ops[*p].inv.g < o.end_g()).filter_map(|p| if let Some(Res::Num(n)) = h.ops[p].r { Some((n, p)) } else { None }).collect();
        let vague: u64 = s.pubs.values().filter(|p| h.ops[**p].vague() && h.ops[**p].inv.g < o.end_g()).map(|p| rec_len(&h.ops[*p].op)).sum();
        let kept: u64 = before.iter().filter(|x| x.0 >= head).map(|x| rec_len(&h.ops[x.1].op)).sum::<u64>() + vague;
        let last: u64 = before.iter().filter(|x| x.0 == head - 1).map(|x| rec_len(&h.ops[x.1].op)).max().unwrap_or(seg);
        let by_size = s.bytes.map(|b| kept + seg.max(last) > b).unwrap_or(false);
        let by_age = s.age.map(|a| {
            let now = h.ops.iter().filter(|x| x.inv.g < o.end_g()).map(|x| x.inv.real.max(x.ret.map(|p| p.real).unwrap_or(0))).max().unwrap_or(0) + jumps;
            let p = before.iter().filter(|x| x.0 == head - 1).map(|x| h.ops[x.1].inv.real).min().unwrap_or(0);
            now.saturating_sub(p) + 5 * MS >= a * MS
        }).unwrap_or(false);
        if !by_size && !by_age { say(s.plan, v, &["S08"], &[], "removed-too-much", format!("stream {} (limits: age {:?} ms, {:?} bytes): events before {} are gone although only {} bytes follow: {}", s.name, s.age, s.bytes, head, kept, d(h, *i))); }
    }
}

// ------------------------------------------------------------------ groups
#[derive(Clone)]
struct Join { o: usize, cid: String, gen: u64, floor: u64 }
#[derive(Clone)]
struct Fetch { o: usize, cid: String, gen: u64 }
/// One group in one epoch.
struct G {
    joins: Vec<Join>,
    fetches: Vec<Fetch>,
    acks: Vec<usize>,
    leaves: Vec<usize>,
    seeks: Vec<usize>,
}
fn group_view(h: &H, eops: &[usize], g: &str) -> G {
    let mut x = G { joins: vec![], fetches: vec![], acks: vec![], leaves: vec![], seeks: vec![] };
    for i in eops {
        let o = &h.ops[*i];
        if gname(&o.op) != Some(g) { continue; }
        match &o.op {
            Op::SJoin { .. } => if let Some(Res::Joined { floor, gen, cid }) = &o.r { x.joins.push(Join { o: *i, cid: cid.clone(), gen: *gen, floor: *floor }); },
            Op::SFetch { .. } => { let (_, gen, cid) = arg3(o); x.fetches.push(Fetch { o: *i, cid: cid.into(), gen }); }
            Op::SAck { .. } => x.acks.push(*i),
            Op::SLeave { .. } => x.leaves.push(*i),
            Op::SSeek { .. } => x.seeks.push(*i),
            _ => {}
        }
    }
    x
}
fn acked(o: &O) -> bool { matches!(o.r, Some(Res::Ok)) }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum St { Unpub, Free(u32), Held(u16, u64, u32), Done, Parked, Skip }
#[derive(Clone, Debug)]
enum Ek { Pub, Deliver(u16), Ack(u16, bool), Release(u16), SeekB, SeekE, Floor }
#[derive(Clone, Debug)]
struct Ev1 { inv: u64, end: u64, t0: u64, t1: u64, opt: bool, k: Ek }
#[derive(Clone, Copy)]
struct Rules { wait: u64, max: u32, att: bool, floor: bool }
impl Rules {
    fn free(&self, a: u32) -> St { if self.att && a >= self.max { St::Parked } else { St::Free(a) } }
    fn expire(&self, s: &St, by: u64) -> Option<St> {
        match s { St::Held(_, t, a) if by.saturating_add(2 * MS) >= t.saturating_add(self.wait) => Some(self.free(*a)), _ => None }
    }
    fn step(&self, s: &St, e: &Ev1) -> Option<St> {
        Some(match (&e.k, s) {
            (Ek::Pub, St::Unpub) => St::Free(0),
            (Ek::Pub, _) => return None,
            (Ek::Deliver(c), St::Free(a)) => if !self.att || a + 1 <= self.max { St::Held(*c, e.t0, a + 1) } else { return None },
            (Ek::Deliver(_), _) => return None,
            (Ek::Ack(c, true), St::Held(x, ..)) if x == c => St::Done,
            (Ek::Ack(_, true), _) => return None,
            (Ek::Ack(c, false), St::Held(x, ..)) if x == c => return None,
            (Ek::Ack(_, false), x) => x.clone(),
            (Ek::Release(c), St::Held(x, _, a)) if x == c => self.free(*a),
            (Ek::Release(_), x) => x.clone(),
            (Ek::SeekB | Ek::SeekE, St::Unpub) => St::Unpub,
            (Ek::SeekB, _) => St::Free(0),
            (Ek::SeekE, _) => St::Skip,
            (Ek::Floor, St::Done | St::Parked | St::Skip) => s.clone(),
            (Ek::Floor, St::Free(_)) if !self.att => s.clone(),
            (Ek::Floor, _) => if self.floor { return None } else { s.clone() },
        })
    }
}
fn linear(ev: &[Ev1], start: St, r: &Rules) -> Option<bool> {
    let n = ev.len();
    if n > 62 { return None; }
    let must: u64 = ev.iter().enumerate().filter(|(_, e)| !e.opt).fold(0, |m, (i, _)| m | 1 << i);
    let mut seen: HashSet<(u64, St)> = HashSet::new();
    let mut stack = vec![(0u64, start)];
    while let Some((mask, st)) = stack.pop() {
        if mask & must == must { return Some(true); }
        if seen.len() > 200_000 { return None; }
        if !seen.insert((mask, st.clone())) { continue; }
        let lim = ev.iter().enumerate().filter(|(i, e)| mask >> i & 1 == 0 && !e.opt).map(|(_, e)| e.end).min().unwrap_or(u64::MAX);
        for (i, e) in ev.iter().enumerate() {
            if mask >> i & 1 == 1 || e.inv > lim { continue; }
            if let Some(x) = r.step(&st, e) { stack.push((mask | 1 << i, x)); }
            if let Some(y) = r.expire(&st, e.t1) { if let Some(x) = r.step(&y, e) { stack.push((mask | 1 << i, x)); } }
        }
    }
    Some(false)
}

fn group_epoch(s: &S, v: &mut Vs, log: &Log, ep: usize, eops: &[usize], g: &str, floor: Option<u64>, snap: Option<usize>) {
    let h = s.h;
    let plan = s.plan;
    let x = group_view(h, eops, g);
    let gp: &[&str] = &["S07", "S08", "D01", "N01", "T03", "S10"];
    let max_att = plan.cfg.get("STREAM_MAX_DELIVERIES").unwrap_or(5) as u32;
    let wait = plan.cfg.get("STREAM_ACK_WAIT_MS").unwrap_or(30_000) * MS;
    let cap = plan.cfg.get("STREAM_MAX_ACK_PENDING").unwrap_or(10_000);
    let f0 = floor.unwrap_or(0);
    let mut cids: HashMap<&str, u16> = HashMap::new();
    for j in &x.joins { let n = cids.len() as u16; cids.entry(&j.cid).or_insert(n); }
    let join_of = |cid: &str| x.joins.iter().find(|j| j.cid == cid);
    let link_of = |j: &Join| h.link(h.ops[j.o].c, h.ops[j.o].inv.g);
    // identities are unique
    for (k, a) in x.joins.iter().enumerate() { if x.joins[..k].iter().any(|b| b.cid == a.cid) { say(plan, v, &["S02"], &[], "same-member", format!("group {}: one consumer id for two members: {}", g, d(h, a.o))); } }
    let vague_fetch: Vec<&Fetch> = x.fetches.iter().filter(|f| h.ops[f.o].vague()).collect();
    let fin: Vec<&Fetch> = x.fetches.iter().filter(|f| !msgs(&h.ops[f.o]).is_empty()).collect();
    // ---------------------------------------------- memberships that had ended
    for f in &fin {
        let o = &h.ops[f.o];
        if let Some(k) = x.seeks.iter().find(|k| h.ops[**k].ok() && h.ops[**k].end_g() < o.inv.g && join_of(&f.cid).map(|j| h.ops[j.o].end_g() < h.ops[**k].inv.g).unwrap_or(false)) {
            say(plan, v, &["S09"], &["S02"], "fenced-fetch", format!("group {}: {} got events with a membership from before {}", g, d(h, f.o), d(h, *k)));
        }
        if let Some(l) = x.leaves.iter().find(|l| h.ops[**l].ok() && h.ops[**l].end_g() < o.inv.g && arg3(&h.ops[**l]).2 == f.cid) {
            say(plan, v, &["S02"], gp, "left-fetch", format!("group {}: {} got events after {}", g, d(h, f.o), d(h, *l)));
        }
    }
    for a in &x.acks {
        let o = &h.ops[*a];
        if !acked(o) { continue; }
        let (q, _, cid) = arg3(o);
        if let Some(k) = x.seeks.iter().find(|k| h.ops[**k].ok() && h.ops[**k].end_g() < o.inv.g && join_of(cid).map(|j| h.ops[j.o].end_g() < h.ops[**k].inv.g).unwrap_or(false)) {
            say(plan, v, &["S09"], &["S02"], "fenced-ack", format!("group {}: {} succeeded with a membership from before {}", g, d(h, *a), d(h, *k)));
        }
        if !fin.iter().any(|f| f.cid == cid && h.ops[f.o].inv.g < o.end_g() && msgs(&h.ops[f.o]).iter().any(|m| m.seq == q)) && !vague_fetch.iter().any(|f| f.cid == cid) {
            say(plan, v, &["S02"], gp, "ack-not-held", format!("group {}: {} succeeded though the event was never delivered to this member", g, d(h, *a)));
        }
    }
    // ---------------------------------------------- positions per generation
    let mut gens: BTreeMap<u64, (u64, u64, bool)> = BTreeMap::new(); // lowest, highest start position, after a seek
    for gen in x.joins.iter().map(|j| j.gen).collect::<BTreeSet<_>>() {
        let js: Vec<&Join> = x.joins.iter().filter(|j| j.gen == gen).collect();
        let j_inv = js.iter().map(|j| h.ops[j.o].inv.g).min().unwrap();
        let j_end = js.iter().map(|j| h.ops[j.o].end_g()).max().unwrap();
        let cand: Vec<usize> = x.seeks.iter().copied().filter(|k| h.ops[*k].ok() || h.ops[*k].vague()).collect();
        let def = cand.iter().copied().filter(|k| h.ops[*k].end_g() < j_inv && h.ops[*k].ok()).max_by_key(|k| h.ops[*k].inv.g);
        let mut c: Vec<usize> = cand.iter().copied().filter(|k| h.ops[*k].inv.g < j_end && def.map(|f| h.ops[*k].end_g() > h.ops[f].inv.g).unwrap_or(true)).collect();
        if let Some(f) = def { if !c.contains(&f) { c.push(f); } }
        let mut lo = u64::MAX;
        let mut hi = 0;
        if def.is_none() { lo = f0; hi = f0; }
        for k in &c {
            let o = &h.ops[*k];
            let (a, b) = match &o.op {
                Op::SSeek { end: false, .. } => (0, 0),
                _ => {
                    let p = |f: &dyn Fn(&O) -> bool| log.at.iter().filter(|(n, t)| **n <= log.r || s.pubs.get(t).map(|p| f(&h.ops[*p])).unwrap_or(false)).map(|x| *x.0).max().unwrap_or(0).max(log.r);
                    (p(&|p: &O| p.end_g() < o.inv.g), if s.pubs.values().any(|p| h.ops[*p].vague() && h.ops[*p].ep == ep) { u64::MAX } else { p(&|p: &O| p.inv.g < o.end_g()) })
                }
            };
            lo = lo.min(a);
            hi = hi.max(b);
        }
        gens.insert(gen, (lo, hi, !c.is_empty()));
    }
    let seek_props: &[&str] = &["S09"];
    for f in &fin {
        let o = &h.ops[f.o];
        let Some((lo, hi, sk)) = gens.get(&f.gen).copied() else { continue };
        let wide: Vec<&str> = ["S02", "S03", "S04"].iter().chain(if sk { seek_props } else { &[] }).chain(gp).copied().collect();
        for (pos, m) in msgs(o).iter().enumerate() {
            if m.seq <= lo { say(plan, v, if sk { &["S09"] } else { &["S02", "S07"] }, gp, "before-position", format!("stream {} group {}: event {} delivered although the group's position was {} or later: {}", s.name, g, m.seq, lo, d(h, f.o))); }
            // everything before it was delivered before
            if vague_fetch.iter().any(|y| y.gen == f.gen && h.ops[y.o].inv.g < o.end_g()) { continue; }
            let mut q = m.seq;
            while q > hi.saturating_add(1) && q > 1 {
                q -= 1;
                let taken = fin.iter().any(|y| y.gen == f.gen && if y.o == f.o { msgs(o)[..pos].iter().any(|z| z.seq == q) } else { h.ops[y.o].inv.g < o.end_g() && msgs(&h.ops[y.o]).iter().any(|z| z.seq == q) });
                if taken { continue; }
                if s.lossy && !eops.iter().any(|r| h.ops[*r].inv.g > o.end_g() && msgs(&h.ops[*r]).iter().any(|z| z.seq == q)) { break; }
                say(plan, v, &["S02"], &wide, "skipped", format!("stream {} group {}: event {} was delivered before event {}, which was never delivered until then: {}", s.name, g, m.seq, q, d(h, f.o)));
                break;
            }
        }
    }
    // ---------------------------------------------- per event: one order explains all answers
    let conn_rel: Vec<(u16, u64, u64, u64, u64)> = x.joins.iter().filter_map(|j| link_of(j).map(|l| (j, l))).filter(|(_, l)| l.from_g < u64::MAX).map(|(j, l)| (cids[j.cid.as_str()], l.from_g, l.to_g, l.from_t, l.to_t)).collect();
    let floors: Vec<(usize, u64)> = {
        let mut f: Vec<(usize, u64)> = vec![];
        for (i, o) in h.ops.iter().enumerate() {
            if o.ep != ep || Some(i) == snap && ep > 0 { continue; }
            if let Some(Res::SSnap(ts)) = &o.r { for t in ts.iter().filter(|t| t.s == s.name) { for (n, fl, _) in &t.groups { if n == g { f.push((i, *fl)); } } } }
        }
        for j in &x.joins { f.push((j.o, j.floor)); }
        f.sort_by_key(|y| h.ops[y.0].inv.g);
        f
    };
    let seqs: BTreeSet<u64> = fin.iter().flat_map(|f| msgs(&h.ops[f.o]).iter().map(|m| m.seq)).chain(x.acks.iter().map(|a| arg3(&h.ops[*a]).0)).chain(log.at.keys().copied()).collect();
    if !s.lossy {
        for q in seqs {
            let tag = log.at.get(&q);
            let pubo = tag.and_then(|t| s.pubs.get(t)).copied();
            let here = q > log.r;
            let mut ev: Vec<Ev1> = vec![];
            let mut pt = 0;
            if here {
                if let Some(p) = pubo {
                    let o = &h.ops[p];
                    ev.push(Ev1 { inv: o.inv.g, end: o.end_g(), t0: o.inv.t, t1: o.end_t(), opt: o.vague(), k: Ek::Pub });
                    pt = o.inv.t;
                }
            }
            for f in &x.fetches {
                let Some(c) = cids.get(f.cid.as_str()) else { continue };
                let o = &h.ops[f.o];
                let has = msgs(o).iter().any(|m| m.seq == q);
                if has || o.vague() { ev.push(Ev1 { inv: o.inv.g, end: o.end_g(), t0: o.inv.t.max(pt), t1: o.end_t(), opt: o.vague(), k: Ek::Deliver(*c) }); }
            }
            for a in &x.acks {
                let o = &h.ops[*a];
                let (n, _, cid) = arg3(o);
                if n != q { continue; }
                let Some(c) = cids.get(cid) else { continue };
                ev.push(Ev1 { inv: o.inv.g, end: o.end_g(), t0: o.inv.t, t1: o.end_t(), opt: o.vague(), k: Ek::Ack(*c, acked(o) || o.vague()) });
            }
            if !ev.iter().any(|e| matches!(e.k, Ek::Deliver(_) | Ek::Ack(..))) && floors.iter().all(|f| f.1 < q) { continue; }
            for l in &x.leaves {
                let o = &h.ops[*l];
                let Some(c) = cids.get(arg3(o).2) else { continue };
                if o.ok() || o.vague() { ev.push(Ev1 { inv: o.inv.g, end: o.end_g(), t0: o.inv.t, t1: o.end_t(), opt: o.vague(), k: Ek::Release(*c) }); }
            }
            for (c, a, b, ta, tb) in &conn_rel { ev.push(Ev1 { inv: *a, end: *b, t0: *ta, t1: *tb, opt: *b == u64::MAX, k: Ek::Release(*c) }); }
            for k in &x.seeks {
                let o = &h.ops[*k];
                if !(o.ok() || o.vague()) { continue; }
                ev.push(Ev1 { inv: o.inv.g, end: o.end_g(), t0: o.inv.t, t1: o.end_t(), opt: o.vague(), k: if matches!(o.op, Op::SSeek { end: true, .. }) { Ek::SeekE } else { Ek::SeekB } });
            }
            // drop releases of members that never held it
            let holders: HashSet<u16> = ev.iter().filter_map(|e| if let Ek::Deliver(c) = e.k { Some(c) } else { None }).collect();
            ev.retain(|e| if let Ek::Release(c) = e.k { holders.contains(&c) } else { true });
            let mut fl: Vec<(usize, u64)> = floors.iter().copied().filter(|f| f.1 >= q).collect();
            fl.truncate(8);
            for (i, _) in &fl { let o = &h.ops[*i]; ev.push(Ev1 { inv: o.inv.g, end: o.end_g(), t0: o.inv.t, t1: o.end_t(), opt: false, k: Ek::Floor }); }
            let start = if here { St::Unpub } else if q <= f0 { St::Skip } else { St::Free(0) };
            let full = Rules { wait, max: max_att, att: true, floor: true };
            let ok = |r: &Rules| linear(&ev, start.clone(), r) != Some(false);
            if ok(&full) { continue; }
            let mut txt: Vec<String> = vec![];
            for f in fin.iter().filter(|f| msgs(&h.ops[f.o]).iter().any(|m| m.seq == q)) { txt.push(d(h, f.o)); }
            for a in x.acks.iter().filter(|a| arg3(&h.ops[**a]).0 == q) { txt.push(d(h, *a)); }
            for l in x.leaves.iter().chain(&x.seeks) { txt.push(d(h, *l)); }
            let what = format!("stream {} group {} event {} (ack wait {} ms, at most {} deliveries, position at start {}, published {}): no order of the calls explains the answers: {} floors {:?}", s.name, g, q, wait / MS, max_att, f0,
                pubo.map(|p| d(h, p)).unwrap_or_default(), txt.join(" "), fl.iter().map(|f| (f.1, h.ops[f.0].inv.t / MS)).collect::<Vec<_>>());
            let sk = !x.seeks.is_empty();
            if !ok(&Rules { att: false, floor: false, ..full }) {
                say(plan, v, &["S02"], if sk { &["S09", "S07", "D01", "N01", "T03"] } else { &["S07", "D01", "N01", "T03"] }, "lease", what);
            } else if !ok(&Rules { floor: false, ..full }) {
                say(plan, v, &["S04"], &["S07", "D01", "N01", "T03"], "attempts", what);
            } else {
                say(plan, v, &["S05"], if sk { &["S09", "S07", "D01", "N01", "T03"] } else { &["S07", "D01", "N01", "T03"] }, "floor-ahead", what);
            }
        }
    } else {
        // simple rules that hold with removal too
        for f in &floors {
            for j in &floors { if h.ops[j.0].end_g() < h.ops[f.0].inv.g && j.1 > f.1 && x.seeks.is_empty() { say(plan, v, &["S05"], gp, "floor-back", format!("group {}: position went back from {} to {}: {}", g, j.1, f.1, d(h, f.0))); } }
        }
        for q in seqs {
            let n = fin.iter().filter(|f| msgs(&h.ops[f.o]).iter().any(|m| m.seq == q)).count() as u32;
            if n > max_att && x.seeks.is_empty() { say(plan, v, &["S04"], gp, "attempts", format!("group {}: event {} delivered {} times, limit {}", g, q, n, max_att)); }
            for (k, f) in fin.iter().enumerate() {
                if !msgs(&h.ops[f.o]).iter().any(|m| m.seq == q) { continue; }
                if x.seeks.is_empty() { if let Some(a) = x.acks.iter().find(|a| acked(&h.ops[**a]) && arg3(&h.ops[**a]).0 == q && h.ops[**a].end_g() < h.ops[f.o].inv.g) { say(plan, v, &["S02"], gp, "after-ack", format!("group {}: event {} delivered after {}: {}", g, q, d(h, *a), d(h, f.o))); } }
                let _ = k;
            }
        }
    }
    // ---------------------------------------------- position: never back, reaches what is acked
    for (k, f) in floors.iter().enumerate() {
        let o = &h.ops[f.0];
        for e in floors[..k].iter() {
            if h.ops[e.0].end_g() < o.inv.g && e.1 > f.1 && !x.seeks.iter().any(|z| h.ops[*z].inv.g < o.end_g() && h.ops[*z].end_g() > h.ops[e.0].inv.g) {
                say(plan, v, &["S05"], gp, "floor-back", format!("group {}: position went back from {} to {} without a seek: {} {}", g, e.1, f.1, d(h, e.0), d(h, f.0)));
            }
        }
        if f.1 > log.at.keys().next_back().copied().unwrap_or(0).max(log.r) + s.pubs.values().filter(|p| h.ops[**p].vague()).count() as u64 {
            say(plan, v, &["S05"], gp, "floor-beyond", format!("group {}: position {} is beyond the end of the log: {}", g, f.1, d(h, f.0)));
        }
        // the last seek that is certainly over; none in between or unanswered
        let before: Vec<usize> = x.seeks.iter().copied().filter(|z| h.ops[*z].inv.g < o.end_g() && (h.ops[*z].ok() || h.ops[*z].vague())).collect();
        if before.iter().any(|z| h.ops[*z].end_g() > o.inv.g) { continue; }
        let last = before.iter().copied().max_by_key(|z| h.ops[*z].inv.g);
        let since = last.map(|z| h.ops[z].end_g()).unwrap_or(0);
        if let Some(z) = last { if before.iter().any(|y| *y != z && h.ops[*y].end_g() > h.ops[z].inv.g) { continue; } }
        let mut p = match last {
            None => f0,
            Some(z) => match &h.ops[z].op {
                Op::SSeek { end: false, .. } => 0,
                _ => log.at.iter().filter(|(n, t)| **n <= log.r || s.pubs.get(t).map(|p| h.ops[*p].end_g() < h.ops[z].inv.g).unwrap_or(false)).map(|y| *y.0).max().unwrap_or(0),
            },
        };
        if s.lossy { p = f.1.min(p); }
        let base = p;
        while x.acks.iter().any(|a| acked(&h.ops[*a]) && arg3(&h.ops[*a]).0 == p + 1 && h.ops[*a].inv.g > since && h.ops[*a].end_g() < o.inv.g) { p += 1; }
        if f.1 < p {
            let w = format!("stream {} group {}: position {} although everything from {} up to {} had been {}: {}", s.name, g, f.1, base, p, if p == base { "skipped" } else { "acked" }, d(h, f.0));
            say(plan, v, &["S05"], if last.is_some() { &["S09"] } else { &[] }, "floor-behind", w);
        }
    }
    // ---------------------------------------------- never more outstanding than allowed
    for f in &fin {
        let o = &h.ops[f.o];
        let (Some(at), t) = (o.ret, o.end_t()) else { continue };
        let mut out: Vec<u64> = vec![];
        for y in &fin {
            let yo = &h.ops[y.o];
            if yo.end_g() > at.g || yo.inv.t + wait <= t + 2 * MS { continue; }
            if x.seeks.iter().any(|z| h.ops[*z].inv.g < at.g && h.ops[*z].end_g() > yo.inv.g) { continue; }
            if x.leaves.iter().any(|z| arg3(&h.ops[*z]).2 == y.cid && h.ops[*z].inv.g < at.g) { continue; }
            if join_of(&y.cid).and_then(link_of).map(|l| l.from_g < at.g).unwrap_or(true) { continue; }
            for m in msgs(yo) {
                let settled = x.acks.iter().any(|a| arg3(&h.ops[*a]).0 == m.seq && h.ops[*a].inv.g < at.g) || s.lossy;
                if !settled && !out.contains(&m.seq) { out.push(m.seq); }
            }
        }
        if out.len() as u64 > cap { say(plan, v, &["S02"], &[], "too-many-outstanding", format!("group {}: {} events outstanding, at most {} allowed: {:?} after {}", g, out.len(), cap, out, d(h, f.o))); }
    }
    // ---------------------------------------------- an ack by the holder is accepted
    // (part of the per-event order above)
    progress(s, v, log, ep, eops, g, &x, &gens, wait, max_att, cap, gp);
    wakeups(s, v, log, ep, eops, g, &x, f0, wait, max_att, cap, &conn_rel, &cids);
}

/// everything is delivered in the end
fn progress(s: &S, v: &mut Vs, log: &Log, ep: usize, eops: &[usize], g: &str, x: &G, gens: &BTreeMap<u64, (u64, u64, bool)>, _wait: u64, max_att: u32, _cap: u64, gp: &[&str]) {
    let h = s.h;
    let plan = s.plan;
    let drained = plan.epochs[ep].probe.iter().any(|o| matches!(o, Op::SDrain { s: n, g: m, .. } if *n == s.name && m == g));
    if !drained || h.eps[ep].status != os::ST_DONE || plan.epochs[ep].io().next().is_some() && plan.epochs[ep].io().any(|f| f.to == u64::MAX) { return; }
    let drv = 1000 + ep as u32;
    // the last join by the driver starts the drain
    let mine: Vec<&Fetch> = x.fetches.iter().filter(|f| h.ops[f.o].c == drv && h.ops[f.o].inv.g > h.eps[ep].clients_done_g).collect();
    let Some(lastf) = mine.last() else {
        say(plan, v, &["S03"], gp, "no-drain", format!("stream {} group {}: no member can join at the end", s.name, g));
        return;
    };
    if !matches!(h.ops[lastf.o].r, Some(Res::SMsgs(_))) { say(plan, v, &["S03"], gp, "drain-failed", format!("stream {} group {}: fetching at the end fails: {}", s.name, g, d(h, lastf.o))); return; }
    let gen = lastf.gen;
    let Some((_, hi, sk)) = gens.get(&gen).copied() else { return };
    let all: Vec<u64> = log.at.keys().copied().filter(|q| *q > hi).collect();
    let retained_from = if s.lossy {
        // what a later read still shows
        let seen: Option<u64> = eops.iter().filter(|r| h.ops[**r].inv.g > h.ops[lastf.o].inv.g && matches!(h.ops[**r].op, Op::SRead { .. })).flat_map(|r| msgs(&h.ops[*r]).iter().map(|m| m.seq)).min();
        match seen { Some(n) => n, None => return }
    } else { 0 };
    for q in all {
        if q < retained_from { continue; }
        let got = |f: &&Fetch| msgs(&h.ops[f.o]).iter().any(|m| m.seq == q);
        if mine.iter().any(|f| f.gen == gen && got(f)) { continue; }
        let fs: Vec<&Fetch> = x.fetches.iter().filter(|f| f.gen == gen).collect();
        if x.acks.iter().any(|a| arg3(&h.ops[*a]).0 == q && arg3(&h.ops[*a]).1 == gen && (acked(&h.ops[*a]) || h.ops[*a].vague())) { continue; }
        let n = fs.iter().filter(|f| got(f)).count() as u32 + fs.iter().filter(|f| h.ops[f.o].vague()).count() as u32;
        if n >= max_att { continue; }
        // published after the drain gave up?
        if let Some(p) = log.at.get(&q).and_then(|t| s.pubs.get(t)) { if h.ops[*p].ep == ep && h.ops[*p].end_g() > h.ops[lastf.o].inv.g { continue; } }
        let wide: Vec<&str> = ["S04", "S07"].iter().chain(if sk { &["S09"][..] } else { &[] }).chain(gp).copied().collect();
        say(plan, v, &["S03"], &wide, "never-delivered", format!("stream {} group {}: event {} is neither acked nor parked ({} deliveries so far, limit {}) but was not delivered to the only remaining member, which kept fetching; last: {}", s.name, g, q, n, max_att, d(h, lastf.o)));
        break;
    }
}

/// waiting fetches
fn wakeups(s: &S, v: &mut Vs, log: &Log, ep: usize, eops: &[usize], g: &str, x: &G, f0: u64, wait: u64, max_att: u32, cap: u64, conn_rel: &[(u16, u64, u64, u64, u64)], cids: &HashMap<&str, u16>) {
    let h = s.h;
    let plan = s.plan;
    if has_jumps(plan) || plan.epochs[ep].io().next().is_some() || plan.epochs[ep].crash != os::CrashAt::Never { return; }
    let end = h.eps[ep].end_t;
    let net = |c: u32| plan.epochs[ep].clients.get((c % 100) as usize).and_then(|y| y.tcp).map(|n| if n.chunk == 0 && n.rchunk == 0 { 2 * MS } else { n.gap_ns * 400 + 10 * MS }).unwrap_or(0);
    let stuck = matches!(h.eps[ep].status, os::ST_HORIZON | os::ST_DEADLOCK);
    let total = log.at.len() as u64;
    let small_ram = plan.cfg.get("STREAM_RAM_SOFT_LIMIT").map(|r| r < total).unwrap_or(false) || ep > 0;
    for f in &x.fetches {
        let o = &h.ops[f.o];
        let Op::SFetch { wait: w, limit, .. } = &o.op else { continue };
        if *limit == 0 { continue; }
        let slack = 60 * MS + h.eps[ep].slack + net(o.c);
        if o.ret.is_none() && !stuck { continue; }
        let fin = o.ret.map(|p| p.t).unwrap_or(end);
        let fin_g = o.ret.map(|p| p.g).unwrap_or(u64::MAX);
        if matches!(o.r, Some(Res::Lost)) { continue; }
        let asked = *w as u64 * MS;
        if fin > o.inv.t + asked + slack { say(plan, v, &["S03"], &[], "late", format!("group {}: {} took {:.3} ms, asked to wait at most {} ms (allowance {:.3})", g, d(h, f.o), (fin - o.inv.t) as f64 / 1e6, w, slack as f64 / 1e6)); }
        // anything that may end all waits of the group
        let disturbed = x.seeks.iter().chain(&x.leaves).any(|z| h.ops[*z].inv.g < fin_g && h.ops[*z].end_g() > o.inv.g) || conn_rel.iter().any(|r| r.1 < fin_g && r.2 > o.inv.g) || s.lossy
            || h.links.iter().any(|l| l.ep == ep && l.from_g < fin_g && l.to_g > o.inv.g && eops.iter().any(|j| h.ops[*j].c == l.c && h.ops[*j].vague() && matches!(&h.ops[*j].op, Op::SJoin { g: x, .. } if x == g)));
        let empty = matches!(&o.r, Some(Res::SMsgs(m)) if m.is_empty());
        let vague = x.fetches.iter().any(|y| h.ops[y.o].vague());
        if empty && asked > 0 && fin + MS < o.inv.t + asked && !disturbed && !small_ram && cap > total {
            say(plan, v, &["S03"], &[], "early", format!("group {}: {} came back empty after {:.3} of {} ms", g, d(h, f.o), (fin - o.inv.t) as f64 / 1e6, w));
        }
        if disturbed || vague || cap <= total || s.lossy { continue; }
        if x.seeks.iter().any(|z| h.ops[*z].inv.g < fin_g) { continue; }
        if matches!(o.r, Some(Res::Err(_))) { continue; }
        // is it the fetch of a live member?
        for (q, tag) in &log.at {
            if *q <= f0 { continue; }
            let dels: Vec<&Fetch> = x.fetches.iter().filter(|y| msgs(&h.ops[y.o]).iter().any(|m| m.seq == *q)).collect();
            let acks_at = x.acks.iter().filter(|a| arg3(&h.ops[**a]).0 == *q && (acked(&h.ops[**a]) || h.ops[**a].vague())).map(|a| h.ops[*a].inv.t).min().unwrap_or(u64::MAX);
            let mut avail: Vec<(u64, u64, String)> = vec![];
            // fresh
            let pt = if *q <= log.r { h.eps[ep].ready_t } else { match s.pubs.get(tag) { Some(p) if h.ops[*p].ret.is_some() => h.ops[*p].end_t(), _ => continue } };
            let first = dels.iter().filter(|y| y.o != f.o).map(|y| h.ops[y.o].inv.t).min().unwrap_or(u64::MAX);
            avail.push((pt, first, "published".into()));
            // released
            for (k, y) in dels.iter().enumerate() {
                if y.o == f.o { continue; }
                let yo = &h.ops[y.o];
                if dels.iter().enumerate().filter(|(j, z)| *j != k && h.ops[z.o].inv.g < yo.end_g() || *j == k).count() as u32 >= max_att { continue; }
                let next = dels.iter().filter(|z| z.o != y.o && z.o != f.o && h.ops[z.o].end_g() > yo.inv.g).map(|z| h.ops[z.o].inv.t).min().unwrap_or(u64::MAX).min(acks_at);
                let mut from = yo.end_t().saturating_add(wait + TICK + 2 * MS);
                let mut why = "ack wait over";
                for l in &x.leaves { let lo = &h.ops[*l]; if arg3(lo).2 == y.cid && lo.ok() && lo.inv.g > yo.end_g() && lo.end_t() < from { from = lo.end_t(); why = "its consumer left"; } }
                if let Some(c) = cids.get(y.cid.as_str()) { for r in conn_rel.iter().filter(|r| r.0 == *c && r.1 > yo.end_g() && r.2 < u64::MAX) { if r.4 < from { from = r.4; why = "its consumer disconnected"; } } }
                avail.push((from, next, why.into()));
            }
            for (a, b, why) in avail {
                let lo = a.max(o.inv.t);
                let hi = b.min(fin);
                if hi > lo && hi - lo > slack {
                    say(plan, v, &["S03"], &["T03"], "not-woken", format!("stream {} group {}: {} did not return for {:.3} ms while event {} was deliverable ({})", s.name, g, d(h, f.o), (hi - lo) as f64 / 1e6, q, why));
                }
            }
        }
    }
}

/// S07: the position a group resumes at
fn group_recovered(s: &S, v: &mut Vs, floors: &mut BTreeMap<String, u64>, groups: &BTreeSet<String>, prev: &[usize], b: usize, ep: usize, t: &STop, snap: usize, flush: u64, prev_r: u64) {
    let h = s.h;
    let max_att = s.plan.cfg.get("STREAM_MAX_DELIVERIES").unwrap_or(5) as u32;
    let win = flush * 10;
    let mut log: BTreeMap<u64, usize> = BTreeMap::new(); // publishes of those epochs
    for i in prev { if let (Op::SPub { .. }, Some(Res::Num(n))) = (&h.ops[*i].op, &h.ops[*i].r) { log.insert(*n, *i); } }
    let vague_pub = prev.iter().any(|i| matches!(h.ops[*i].op, Op::SPub { .. }) && h.ops[*i].vague());
    for g in groups {
        let f_prev = floors.get(g).copied();
        let got = t.groups.iter().find(|x| x.0 == *g).map(|x| x.1);
        let x = group_view(h, prev, g);
        let f = got.unwrap_or(0);
        let must = must_before(s.plan, h, b, win);
        let seeks: Vec<usize> = x.seeks.iter().copied().filter(|k| h.ops[*k].ok() || h.ops[*k].vague()).collect();
        // the last seek certainly saved
        let last = seeks.iter().copied().filter(|k| h.ops[*k].ok() && h.ops[*k].end_t() < must).max_by_key(|k| h.ops[*k].inv.g);
        let from = last.map(|k| h.ops[k].inv.g).unwrap_or(0);
        if f > t.last { say(s.plan, v, &["S07"], WIDE, "beyond-log", format!("stream {} group {}: resumes at {} although the recovered log ends at {}: {}", s.name, g, f, t.last, d(h, snap))); }
        if s.lossy { if let Some(n) = got { floors.insert(g.clone(), n); } else { floors.remove(g); } continue; }
        // upper bound: everything up to f may have been settled
        let base = if last.is_none() { f_prev.unwrap_or(0) } else { 0 };
        let mut q = base;
        while q < f {
            q += 1;
            let by_ack = x.acks.iter().any(|a| arg3(&h.ops[*a]).0 == q && (acked(&h.ops[*a]) || h.ops[*a].vague()) && h.ops[*a].end_g() > from);
            let n = x.fetches.iter().filter(|y| h.ops[y.o].end_g() > from && (h.ops[y.o].vague() || msgs(&h.ops[y.o]).iter().any(|m| m.seq == q))).count() as u32;
            let by_seek = seeks.iter().any(|k| h.ops[*k].end_g() > from && matches!(h.ops[*k].op, Op::SSeek { end: true, .. }) && (vague_pub || q <= prev_r || log.get(&q).map(|p| h.ops[*p].inv.g < h.ops[*k].end_g()).unwrap_or(true)));
            if !by_ack && n < max_att && !by_seek {
                let acks: Vec<String> = x.acks.iter().map(|a| d(h, *a)).collect();
                say(s.plan, v, &["S07"], WIDE, "ahead", format!("stream {} group {}: resumes at {} although event {} was neither acked, parked nor skipped ({} deliveries, position before {:?}): {}", s.name, g, f, q, n, f_prev, acks.join(" ").chars().take(600).collect::<String>()));
                break;
            }
        }
        // lower bound: what had been committed for longer than the save interval
        let later = seeks.iter().any(|k| Some(*k) != last && h.ops[*k].end_g() > last.map(|l| h.ops[l].inv.g).unwrap_or(0));
        if !later {
            let mut p = match last {
                None => f_prev.unwrap_or(0),
                Some(k) => match &h.ops[k].op {
                    Op::SSeek { end: true, .. } => log.iter().filter(|(_, p)| h.ops[**p].end_g() < h.ops[k].inv.g).map(|y| *y.0).max().unwrap_or(0).max(prev_r),
                    _ => 0,
                },
            };
            let after = last.map(|k| h.ops[k].end_g()).unwrap_or(0);
            while x.acks.iter().any(|a| acked(&h.ops[*a]) && arg3(&h.ops[*a]).0 == p + 1 && h.ops[*a].inv.g > after && h.ops[*a].end_t() < must) { p += 1; }
            let p = p.min(t.last);
            if f < p { say(s.plan, v, &["S07"], WIDE, "behind", format!("stream {} group {}: resumes at {} although {} had been committed more than {} ms before the crash: {}", s.name, g, f, p, win / MS, d(h, snap))); }
        }
        if let Some(n) = got { floors.insert(g.clone(), n); } else { floors.remove(g); }
    }
    let _ = ep;
}

// ------------------------------------------------------------------ life cycle
fn life(s: &S, v: &mut Vs) {
    let h = s.h;
    let plan = s.plan;
    let creates: Vec<usize> = s.creates.iter().copied().filter(|c| h.ops[*c].ok() || h.ops[*c].vague()).collect();
    let deletes: Vec<usize> = s.deletes.iter().copied().filter(|c| h.ops[*c].ok() || h.ops[*c].vague()).collect();
    let sure: Vec<usize> = deletes.iter().copied().filter(|c| h.ops[*c].ok()).collect();
    let faulty = plan.epochs.iter().any(|e| e.io().next().is_some());
    let al: &[&str] = &["D01", "N01"];
    for i in &s.ops {
        let o = &h.ops[*i];
        // deleted events come back
        for m in msgs(o) {
            let Some(p) = m.tag.and_then(|t| s.pubs.get(&t)) else { continue };
            if let Some(x) = sure.iter().find(|x| h.ops[*p].end_g() < h.ops[**x].inv.g && h.ops[**x].end_g() < o.inv.g) {
                say(plan, v, &["S10"], al, "deleted-event-back", format!("stream {}: event {:?} removed by {} appears again in {}", s.name, m.tag, d(h, *x), d(h, *i)));
            }
        }
    }
    // certain existence during o
    let state = |o: &O| -> (bool, bool) {
        let lsd = sure.iter().filter(|x| h.ops[**x].end_g() < o.inv.g).map(|x| h.ops[*x].inv.g).max();
        let absent = !creates.iter().any(|c| h.ops[*c].inv.g < o.end_g() && h.ops[*c].end_g() > lsd.unwrap_or(0));
        let lc = s.creates.iter().filter(|c| h.ops[**c].ok() && h.ops[**c].end_g() < o.inv.g).map(|c| h.ops[*c].inv.g).max();
        let present = match lc { Some(g) => !deletes.iter().any(|x| h.ops[*x].inv.g < o.end_g() && h.ops[*x].end_g() > g), None => false };
        (absent, present)
    };
    for i in &s.ops {
        let o = &h.ops[*i];
        if o.vague() { continue; }
        let (absent, present) = state(o);
        let bad = match (&o.op, &o.r) {
            (Op::SPub { .. } | Op::SJoin { .. } | Op::SSeek { .. }, Some(Res::Err(_))) => present,
            (Op::SPub { .. }, Some(Res::Num(_))) | (Op::SJoin { .. }, Some(Res::Joined { .. })) | (Op::SSeek { .. } | Op::SAck { .. } | Op::SLeave { .. }, Some(Res::Ok)) => absent,
            (Op::SRead { .. } | Op::SFetch { .. }, Some(Res::SMsgs(m))) => absent && !m.is_empty(),
            (Op::SExists { .. }, Some(Res::Bool(b))) => absent && *b || present && !*b,
            (Op::SCreate { .. } | Op::SDelete { .. }, Some(Res::Err(_))) => !faulty && s.name.len() <= crate::scen_t::LONG,
            _ => false,
        };
        if bad { say(plan, v, &["S10"], al, "existence", format!("stream {} certainly {} but {}", s.name, if present { "exists" } else if absent { "does not exist" } else { "can be created and deleted" }, d(h, *i))); }
        // a new life starts at number 1
        let lsd = sure.iter().copied().filter(|x| h.ops[*x].end_g() < o.inv.g).max_by_key(|x| h.ops[*x].inv.g);
        if let Some(x) = lsd {
            let n = s.pubs.values().filter(|p| h.ops[**p].end_g() > h.ops[x].inv.g && h.ops[**p].inv.g < o.end_g() && !matches!(h.ops[**p].r, Some(Res::Err(_)))).count() as u64;
            let top = match &o.r { Some(Res::Num(k)) if matches!(o.op, Op::SPub { .. }) => *k, Some(Res::SMsgs(m)) => m.iter().map(|y| y.seq).max().unwrap_or(0), _ => 0 };
            if top > n { say(plan, v, &["S10"], al, "number-goes-on", format!("stream {}: number {} although at most {} events were published since {}: {}", s.name, top, n, d(h, x), d(h, *i))); }
        }
        // within one certain life numbers are unique and ordered
        if let (Op::SPub { .. }, Some(Res::Num(k))) = (&o.op, &o.r) {
            for p in s.pubs.values() {
                if *p == *i { continue; }
                let q = &h.ops[*p];
                let Some(Res::Num(m)) = &q.r else { continue };
                let (a, z) = if q.inv.g < o.inv.g { (q, o) } else { (o, q) };
                // no delete can have come between, no loss either
                if a.ep != z.ep || deletes.iter().any(|x| h.ops[*x].inv.g < z.end_g().max(a.end_g()) && h.ops[*x].end_g() > a.inv.g) { continue; }
                if k == m { say(plan, v, &["S10"], &["S01", "D01", "N01"], "number-twice", format!("stream {}: {} and {}", s.name, d(h, *i), d(h, *p))); }
                if q.end_g() < o.inv.g && m > k { say(plan, v, &["S10"], &["S01", "D01", "N01"], "order", format!("stream {}: {} finished before {} began", s.name, d(h, *p), d(h, *i))); }
            }
        }
        // reads within one certain life show what was published in it
        if let (Op::SRead { from: 0 | 1, limit, .. }, Some(Res::SMsgs(m))) = (&o.op, &o.r) {
            if present && *limit > 0 && !faulty {
                let lc = s.creates.iter().filter(|c| h.ops[**c].ok() && h.ops[**c].end_g() < o.inv.g).map(|c| h.ops[*c].inv.g).max().unwrap();
                let _ = lc;
                let safe = s.pubs.values().filter(|p| { let q = &h.ops[**p]; matches!(q.r, Some(Res::Num(_))) && q.ep == o.ep && q.end_g() < o.inv.g && !deletes.iter().any(|x| h.ops[*x].inv.g < o.end_g() && h.ops[*x].end_g() > q.inv.g) }).count();
                if m.is_empty() && safe > 0 { say(plan, v, &["S10"], &["S01", "D01", "N01"], "lost", format!("stream {}: {} events published but none readable: {}", s.name, safe, d(h, *i))); }
                for w in m.windows(2) { if w[1].seq != w[0].seq + 1 { say(plan, v, &["S10"], &["S01", "D01", "N01"], "hole", format!("stream {}: {}", s.name, d(h, *i))); break; } }
                if m.first().map(|x| x.seq != 1).unwrap_or(false) && !s.lossy { say(plan, v, &["S10"], al, "not-first", format!("stream {}: does not start at 1: {}", s.name, d(h, *i))); }
            }
        }
    }
    // snapshots: presence, options, groups
    for (i, o) in h.ops.iter().enumerate() {
        let Some(Res::SSnap(ts)) = &o.r else { continue };
        let (absent, present) = state(o);
        let t = ts.iter().find(|t| t.s == s.name);
        if t.is_some() && absent || t.is_none() && present { say(plan, v, &["S10"], al, "existence", format!("stream {} certainly {} but {}", s.name, if present { "exists" } else { "does not exist" }, d(h, i))); }
        let Some(t) = t else { continue };
        let lsd = sure.iter().filter(|x| h.ops[**x].end_g() < o.inv.g).map(|x| h.ops[*x].inv.g).max().unwrap_or(0);
        let mut ok = vec![];
        for k in &creates {
            let ko = &h.ops[*k];
            if ko.inv.g > o.end_g() || ko.end_g() < lsd { continue; }
            let noop = s.creates.iter().any(|c0| c0 != k && h.ops[*c0].ok() && h.ops[*c0].end_g() < ko.inv.g && !deletes.iter().any(|x| h.ops[*x].inv.g < ko.end_g() && h.ops[*x].end_g() > h.ops[*c0].inv.g));
            if noop { continue; }
            ok.push(limits(plan, &ko.op));
            // a create cut short by a crash
            if ko.vague() && ko.ep < o.ep { ok.push(limits(plan, &Op::SCreate { s: String::new(), age: None, bytes: None, ret: false })); }
        }
        if !ok.contains(&(t.age, t.bytes)) { say(plan, v, &["S10"], al, "options", format!("stream {} has limits (age, bytes) {:?}; it was created with one of {:?}: {}", s.name, (t.age, t.bytes), ok, d(h, i))); }
        for (g, f, _) in &t.groups {
            let fresh = s.ops.iter().any(|k| gname(&h.ops[*k].op) == Some(g.as_str()) && matches!(h.ops[*k].op, Op::SJoin { .. } | Op::SSeek { .. }) && h.ops[*k].end_g() > lsd && h.ops[*k].inv.g < o.end_g());
            if !fresh && lsd > 0 { say(plan, v, &["S10"], al, "group-back", format!("stream {}: group {} from before the delete is there: {}", s.name, g, d(h, i))); }
            if *f > t.last { say(plan, v, &["S10"], al, "group-beyond", format!("stream {}: group {} at {} in a log of {}: {}", s.name, g, f, t.last, d(h, i))); }
        }
        if lsd > 0 {
            let n = s.pubs.values().filter(|p| h.ops[**p].end_g() > lsd && h.ops[**p].inv.g < o.end_g() && !matches!(h.ops[**p].r, Some(Res::Err(_)))).count() as u64;
            if t.last > n { say(plan, v, &["S10"], al, "not-empty", format!("stream {}: {} events although at most {} were published since the last delete: {}", s.name, t.last, n, d(h, i))); }
        }
    }
}
