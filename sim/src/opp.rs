//! Pub/sub properties P01..P04 and store properties K01, K02.
use crate::gen::{MS, S};
use crate::hist::*;
use crate::hview::*;
use crate::olin::*;
use crate::os;
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const WIDE: &[&str] = &["P01", "P02", "P03", "P04", "K01", "K02"];

/// does a subscription to `pat` cover `topic`?
pub fn covers(pat: &str, topic: &str) -> bool {
    let p: Vec<&str> = pat.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i < p.len() && p[i] == "#" { return true; }
        if i == p.len() || i == t.len() { return i == p.len() && i == t.len(); }
        if p[i] != "+" && p[i] != t[i] { return false; }
        i += 1;
    }
}
fn d(h: &H, o: usize) -> String {
    let x = &h.ops[o];
    format!("[epoch {} client {} op {} {:?} -> {} @{:.3}..{:.3}ms]", x.ep, x.c, x.i, x.op,
        match &x.r { None => "no answer".into(), Some(r) => format!("{:?}", r).chars().take(200).collect::<String>() }, x.inv.t as f64 / 1e6, x.ret.map(|p| p.t as f64 / 1e6).unwrap_or(-1.0))
}
fn say(plan: &Plan, v: &mut Vs, props: &[&str], also: &[&str], kind: &str, msg: String) {
    for p in props { v.add(p, kind, msg.clone()); }
    if also.contains(&plan.prop.as_str()) && !props.contains(&plan.prop.as_str()) { v.add(&plan.prop, kind, msg); }
}
fn refused(o: &O) -> bool { matches!(&o.r, Some(Res::Err(e)) if e != "panic") }
fn done_g(o: &O) -> u64 { if o.vague() { u64::MAX } else { o.end_g() } }
fn done_t(o: &O) -> u64 { if o.vague() { u64::MAX } else { o.end_t() } }
fn done_real(o: &O) -> u64 { if o.vague() { u64::MAX } else { o.ret.map(|p| p.real).unwrap_or(u64::MAX) } }

pub fn check(plan: &Plan, h: &H, v: &mut Vs) {
    if h.ops.iter().any(|o| matches!(o.op, Op::Pub { .. } | Op::Sub { .. } | Op::PProbe { .. } | Op::PScan)) { pubsub(plan, h, v); }
    if h.ops.iter().any(|o| matches!(o.op, Op::KSet { .. } | Op::KGet { .. } | Op::KDel { .. } | Op::KScan)) { store(plan, h, v); }
}

// ------------------------------------------------------------------ pub/sub
struct SubI<'a> { o: usize, pat: &'a str, link: Option<usize> }
struct Ps<'a> {
    plan: &'a Plan,
    h: &'a H,
    subs: Vec<SubI<'a>>,
    unsubs: Vec<SubI<'a>>,
    pubs: Vec<usize>,
    /// retained writes by topic
    writes: BTreeMap<&'a str, Vec<usize>>,
    jumps: bool,
    dflt: u64,
    /// names are used that listings show like another one
    slashy: bool,
}
impl<'a> Ps<'a> {
    fn topic(&self, p: usize) -> &'a str { if let Op::Pub { t, .. } = &self.h.ops[p].op { t } else { "" } }
    fn retained(&self, p: usize) -> bool { matches!(self.h.ops[p].op, Op::Pub { retain: Some(true), .. }) }
    fn clears(&self, p: usize) -> bool { matches!(self.h.ops[p].op, Op::Pub { retain: Some(true), size: 0, .. }) }
    /// None: for ever
    fn ttl(&self, p: usize) -> Option<u64> {
        let Op::Pub { ttl, .. } = &self.h.ops[p].op else { return None };
        let s = ttl.unwrap_or(self.dflt);
        if s > 3_000_000_000 { None } else { Some(s * S) }
    }
    fn surely_expired(&self, w: usize, o: &O) -> bool {
        let Some(ttl) = self.ttl(w) else { return false };
        let p = &self.h.ops[w];
        if p.ep == o.ep { return done_t(p).saturating_add(ttl) < o.inv.t; }
        !self.jumps && done_real(p).saturating_add(ttl).saturating_add(S) < o.inv.real
    }
    fn maybe_expired(&self, w: usize, o: &O) -> bool {
        let Some(ttl) = self.ttl(w) else { return false };
        let p = &self.h.ops[w];
        if p.ep == o.ep { return p.inv.t + ttl <= o.end_t(); }
        self.jumps || p.inv.real + ttl <= o.ret.map(|x| x.real).unwrap_or(u64::MAX).saturating_add(S)
    }
    fn odd(&self, t: &str) -> bool { self.slashy || t.split('/').any(|p| p == "+" || p == "#") }
    /// the subscription was made and not withdrawn up to `g`
    fn holds(&self, s: &SubI, from: u64, to: u64) -> bool {
        let o = &self.h.ops[s.o];
        o.ok() && o.end_g() < from && !self.unsubs.iter().any(|u| u.link == s.link && u.pat == s.pat && !refused(&self.h.ops[u.o]) && !(done_g(&self.h.ops[u.o]) < o.inv.g) && self.h.ops[u.o].inv.g < to)
    }
    /// the subscription may have been there at some moment from `from` to `to`
    fn may_hold(&self, s: &SubI, from: u64, to: u64) -> bool {
        let o = &self.h.ops[s.o];
        let Some(l) = s.link else { return false };
        !refused(o) && o.inv.g < to && self.h.links[l].to_g > from
            && !self.unsubs.iter().any(|u| u.link == s.link && u.pat == s.pat && done_g(o) < self.h.ops[u.o].inv.g && done_g(&self.h.ops[u.o]) < from)
    }
}

fn pubsub(plan: &Plan, h: &H, v: &mut Vs) {
    let link_of = |o: &O| h.links.iter().enumerate().filter(|(_, l)| l.c == o.c && l.ep == o.ep && l.open_g <= o.inv.g).max_by_key(|(_, l)| l.open_g).map(|x| x.0);
    let mut x = Ps { plan, h, subs: vec![], unsubs: vec![], pubs: vec![], writes: BTreeMap::new(), jumps: plan.epochs.iter().any(|e| !e.jumps.is_empty()), dflt: plan.cfg.get("PUBSUB_DEFAULT_RETAINED_TTL_SECS").unwrap_or(3600), slashy: false };
    x.slashy = h.ops.iter().any(|o| matches!(&o.op, Op::Sub { t } | Op::Unsub { t } | Op::Pub { t, .. } | Op::PProbe { t } if odd_sub(t)));
    let mut by_tag: HashMap<u64, usize> = HashMap::new();
    for (i, o) in h.ops.iter().enumerate() {
        match &o.op {
            Op::Sub { t } => x.subs.push(SubI { o: i, pat: t, link: link_of(o) }),
            Op::Unsub { t } => x.unsubs.push(SubI { o: i, pat: t, link: link_of(o) }),
            Op::Pub { t, tag, size, retain, .. } => {
                if refused(o) { continue; }
                x.pubs.push(i);
                if *size > 0 { by_tag.insert(*tag, i); }
                if *retain == Some(true) { x.writes.entry(t).or_default().push(i); }
            }
            _ => {}
        }
    }
    delivery(&x, &by_tag, v);
    retained(&x, &by_tag, v);
    scans(&x, v);
}

/// everything sent to a client this long before it left had arrived
const MARGIN: u64 = 5 * S;

fn delivery(x: &Ps, by_tag: &HashMap<u64, usize>, v: &mut Vs) {
    let h = x.h;
    for (li, l) in h.links.iter().enumerate() {
        let subs: Vec<&SubI> = x.subs.iter().filter(|s| s.link == Some(li)).collect();
        let got: Vec<&PushEv> = h.pushes.iter().filter(|p| p.ep == l.ep && p.id == l.id && p.c == l.c).collect();
        let mut n: HashMap<usize, Vec<usize>> = HashMap::new(); // publish -> positions
        let mut empty: BTreeMap<&str, u64> = BTreeMap::new();
        for (k, p) in got.iter().enumerate() {
            match p.tag {
                None => say(x.plan, v, &["P01"], WIDE, "altered", format!("client {} got a payload of {} bytes on {:?} that nobody published", l.c, p.len, p.topic)),
                Some(0) => { *empty.entry(p.topic.as_str()).or_default() += 1; }
                Some(t) => match by_tag.get(&t) {
                    None => say(x.plan, v, &["P01"], WIDE, "invented", format!("client {} got message {} on {:?} that nobody published", l.c, t, p.topic)),
                    Some(o) => {
                        if x.topic(*o) != p.topic { say(x.plan, v, &["P01", "N01"], WIDE, "topic", format!("client {} got {} on topic {:?}", l.c, d(h, *o), p.topic)); }
                        if h.ops[*o].inv.g > p.g { say(x.plan, v, &["P01"], WIDE, "early", format!("client {} got a message before it was published: {}", l.c, d(h, *o))); }
                        n.entry(*o).or_default().push(k);
                    }
                },
            }
        }
        if subs.is_empty() && got.is_empty() { continue; }
        let wire = is_wire(x.plan, l);
        // it stayed long enough to have got it
        let stayed = |g: u64, t: u64| l.from_g < u64::MAX && l.from_g > g && (!wire || l.from_t >= t.saturating_add(MARGIN + h.eps[l.ep].slack));
        let mut single: Vec<(usize, usize)> = vec![]; // (publish, position) of certain live deliveries
        let mut emay: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
        for p in &x.pubs {
            let o = &h.ops[*p];
            if o.ep > l.ep { continue; }
            let t = x.topic(*p);
            let pos = n.get(p).map(|z| z.as_slice()).unwrap_or(&[]);
            let live = o.ep == l.ep;
            let may = live && subs.iter().any(|s| covers(s.pat, t) && x.may_hold(s, o.inv.g, done_g(o)));
            let must = live && o.ok() && stayed(o.end_g(), o.end_t()) && subs.iter().any(|s| covers(s.pat, t) && x.holds(s, o.inv.g, o.end_g()));
            if matches!(o.op, Op::Pub { size: 0, .. }) {
                let e = emay.entry(t).or_default();
                e.0 += must as u64;
                e.1 += may as u64;
                continue;
            }
            let (mut rmay, mut rmust) = (0usize, 0usize);
            if x.retained(*p) && !x.clears(*p) {
                for s in subs.iter().filter(|s| covers(s.pat, t)) {
                    let so = &h.ops[s.o];
                    if refused(so) || done_g(so) < o.inv.g { continue; }
                    let w = &x.writes[t];
                    let over = |q: &usize| *q != *p && done_g(o) < h.ops[*q].inv.g && done_g(&h.ops[*q]) < so.inv.g && h.ops[*q].ep == so.ep;
                    if !w.iter().any(over) && !x.surely_expired(*p, so) { rmay += 1; }
                    if live && so.ok() && o.ok() && o.end_g() < so.inv.g && stayed(so.end_g(), so.end_t()) && !x.maybe_expired(*p, so)
                        && !w.iter().any(|q| *q != *p && !(done_g(&h.ops[*q]) < o.inv.g) && h.ops[*q].inv.g < so.end_g()) { rmust += 1; }
                }
            }
            // made while it was published: it gets it one way or the other
            let both = x.retained(*p) && !x.clears(*p) && live && o.ok() && subs.iter().filter(|s| covers(s.pat, t)).any(|s| {
                let so = &h.ops[s.o];
                let end = so.end_g().max(o.end_g());
                so.ok() && so.inv.g < o.end_g() && o.inv.g < so.end_g() && !x.maybe_expired(*p, so)
                    && stayed(end, so.end_t().max(o.end_t()))
                    && !x.unsubs.iter().any(|u| u.link == s.link && u.pat == s.pat && h.ops[u.o].inv.g < end && done_g(&h.ops[u.o]) > so.inv.g)
                    && !x.writes[t].iter().any(|q| *q != *p && !(done_g(&h.ops[*q]) < o.inv.g) && h.ops[*q].inv.g < end)
            });
            let (lo, hi) = ((must as usize + rmust).max(both as usize), may as usize + rmay);
            if pos.len() > hi {
                let was = subs.iter().any(|s| covers(s.pat, t));
                let msg = format!("client {} (connection {}) got it {} times, at most {} expected: {}", l.c, l.id, pos.len(), hi, d(h, *p));
                if hi > 0 { say(x.plan, v, &["P01"], WIDE, "twice", msg); }
                else if !was { say(x.plan, v, &["P01"], WIDE, "uninvited", msg); }
                else if x.retained(*p) && subs.iter().any(|s| covers(s.pat, t) && h.ops[s.o].inv.g > o.inv.g) { say(x.plan, v, &["P02"], WIDE, "stale", msg); }
                else { say(x.plan, v, &["P04", "P01"], WIDE, "still-delivered", msg); }
            }
            if pos.len() < lo {
                let msg = format!("client {} (connection {}) got it {} times, at least {} expected: {}", l.c, l.id, pos.len(), lo, d(h, *p));
                if pos.len() < must as usize { say(x.plan, v, &["P01"], WIDE, "lost", msg); }
                else if must { say(x.plan, v, &["P01", "P02"], WIDE, "lost-or-missed", msg); }
                else { say(x.plan, v, &["P02"], WIDE, "missed", msg); }
            }
            if pos.len() == 1 && rmay == 0 && may { single.push((*p, pos[0])); }
        }
        for (t, k) in &empty {
            let m = emay.get(t).map(|e| e.1).unwrap_or(0);
            if *k > m { say(x.plan, v, &["P01"], WIDE, "empty-twice", format!("client {} got {} empty messages on {:?}, at most {} expected", l.c, k, t, m)); }
        }
        for (t, e) in &emay {
            let k = empty.get(t).copied().unwrap_or(0);
            if k < e.0 { say(x.plan, v, &["P01"], WIDE, "empty-lost", format!("client {} got {} empty messages on {:?}, at least {} expected", l.c, k, t, e.0)); }
        }
        // order
        single.sort_by_key(|z| z.1);
        let mut top: Option<(u64, usize)> = None; // latest start among those received so far
        for (p, _) in &single {
            let o = &h.ops[*p];
            if let Some((g, q)) = top { if done_g(o) < g { say(x.plan, v, &["P01"], WIDE, "order", format!("client {} got {} before {}", l.c, d(h, q), d(h, *p))); break; } }
            if top.map(|z| z.0 < o.inv.g).unwrap_or(true) { top = Some((o.inv.g, *p)); }
        }
    }
}
pub fn is_wire(plan: &Plan, l: &Conn) -> bool {
    if l.c >= 1000 { return false; }
    plan.epochs.get(l.ep).and_then(|e| e.clients.get((l.c as usize).wrapping_sub(l.ep * 100))).map(|c| c.tcp.is_some()).unwrap_or(false)
}

/// P02, P03: every look at a retained value against the writes of that topic
fn retained(x: &Ps, by_tag: &HashMap<u64, usize>, v: &mut Vs) {
    let h = x.h;
    let flush = x.plan.cfg.get("PUBSUB_RETAINED_FLUSH_MS").unwrap_or(500) * MS;
    let mut topics: BTreeSet<&str> = x.writes.keys().copied().collect();
    for (i, o) in h.ops.iter().enumerate() {
        match (&o.op, &o.r) {
            (Op::PProbe { t }, Some(Res::Got(m))) => for (tp, tag, len) in m {
                if !covers(t, tp) { say(x.plan, v, &["P01"], WIDE, "probe-uninvited", format!("got {:?} although only {:?} was subscribed: {}", tp, t, d(h, i))); }
                let known = match tag { Some(0) => true, Some(g) => by_tag.get(g).map(|p| x.topic(*p) == tp).unwrap_or(false), None => false };
                if !known { say(x.plan, v, &["P02", "N01"], WIDE, "probe-unknown", format!("got tag {:?} ({} bytes) on {:?}, which was never published there: {}", tag, len, tp, d(h, i))); }
                topics.insert(tp);
            },
            (Op::PScan, Some(Res::Scan { topics: ts, .. })) => for (tp, _, r) in ts { if let Some(tag) = r {
                let known = match tag { Some(g) => by_tag.get(g).map(|p| x.topic(*p) == tp).unwrap_or(false), None => false };
                if !known && !x.odd(tp) { say(x.plan, v, &["P02", "N01"], WIDE, "scan-unknown", format!("topic {:?} retains tag {:?}, which was never published there: {}", tp, tag, d(h, i))); }
            } },
            _ => {}
        }
    }
    let writes = |t: &str| x.writes.get(t).cloned().unwrap_or_default();
    for t in topics {
        let mut inits: Vec<Option<usize>> = vec![None];
        for ep in 0..h.eps.len() {
            let ws: Vec<usize> = writes(t).into_iter().filter(|w| h.ops[*w].ep == ep).collect();
            let cands: Vec<usize> = ws.iter().copied().filter(|w| !x.clears(*w)).chain(inits.iter().flatten().copied()).collect();
            let mut ops: Vec<LOp> = ws.iter().map(|w| LOp { id: *w, inv: h.ops[*w].inv.g, ret: done_g(&h.ops[*w]), kind: Kind::Write(if x.clears(*w) { None } else { Some(*w) }) }).collect();
            for (i, o) in h.ops.iter().enumerate().filter(|(_, o)| o.ep == ep && o.fin()) {
                let none = || { let mut a: Vec<Option<usize>> = cands.iter().filter(|w| x.maybe_expired(**w, o)).map(|w| Some(*w)).collect(); a.push(None); a };
                let some = |tag: u64| -> Vec<Option<usize>> { cands.iter().filter(|w| matches!(h.ops[**w].op, Op::Pub { tag: g, .. } if g == tag) && !x.surely_expired(**w, o)).map(|w| Some(*w)).collect() };
                let sees = match (&o.op, &o.r) {
                    (Op::PProbe { t: pat }, Some(Res::Got(m))) if covers(pat, t) => {
                        let l: Vec<Option<u64>> = m.iter().filter(|y| y.0 == t).map(|y| y.1).collect();
                        // a publish in progress may have reached the probe directly
                        let direct = |tag: u64| x.pubs.iter().any(|p| h.ops[*p].ep == ep && h.ops[*p].inv.g < o.end_g() && done_g(&h.ops[*p]) > o.inv.g && x.topic(*p) == t && matches!(&h.ops[*p].op, Op::Pub { tag: g, size, .. } if if tag == 0 { *size == 0 } else { *g == tag }));
                        match l.first() {
                            None => none(),
                            Some(Some(g)) => { let mut a = if *g == 0 { vec![] } else { some(*g) }; if direct(*g) { a.extend(none()); } a }
                            Some(None) => continue,
                        }
                    }
                    (Op::PScan, Some(Res::Scan { topics: ts, .. })) if !x.odd(t) => match ts.iter().find(|y| y.0 == t) {
                        Some((_, _, Some(Some(g)))) => some(*g),
                        Some((_, _, Some(None))) => continue,
                        _ => none(),
                    },
                    _ => continue,
                };
                ops.push(LOp { id: i, inv: o.inv.g, ret: o.end_g(), kind: Kind::Read(sees) });
            }
            match explain(&ops, &inits) {
                None => {}
                Some(Ok(good)) => inits = good,
                Some(Err(bad)) => {
                    let msg = format!("topic {:?} epoch {}: no order of the publishes explains what {} saw; possible at the start: {:?}; writes: {}", t, ep, if bad == usize::MAX { String::new() } else { d(h, bad) },
                        inits.iter().map(|w| w.map(|w| if let Op::Pub { tag, .. } = h.ops[w].op { tag } else { 0 })).collect::<Vec<_>>(), ws.iter().rev().take(6).map(|w| d(h, *w)).collect::<Vec<_>>().join(" "));
                    // alone, the first look at a restarted server shows whether it was the restart
                    if ep > 0 { say(x.plan, v, &["P03"], WIDE, "retained", msg.clone()); }
                    if ep == 0 || !h.single() { say(x.plan, v, &["P02"], WIDE, "retained", msg); }
                    break;
                }
            }
            // what may be there after this epoch
            let must = crate::ost::must_before(x.plan, h, ep, flush);
            let durable_over = |w: Option<usize>| ws.iter().any(|q| Some(*q) != w && done_t(&h.ops[*q]) < must && w.map(|w| h.ops[w].ep < ep || done_g(&h.ops[w]) < h.ops[*q].inv.g).unwrap_or(true));
            let mut next: Vec<Option<usize>> = vec![];
            for w in inits.iter().copied() { if !durable_over(w) && !next.contains(&w) { next.push(w); } }
            for w in &ws {
                let val = if x.clears(*w) { None } else { Some(*w) };
                let over = ws.iter().any(|q| q != w && done_t(&h.ops[*q]) < must && done_g(&h.ops[*w]) < h.ops[*q].inv.g);
                if !over && !next.contains(&val) { next.push(val); }
            }
            inits = next;
        }
    }
}

/// P04: listings of clients and subscriptions
fn scans(x: &Ps, v: &mut Vs) {
    let h = x.h;
    let pats: BTreeSet<&str> = x.subs.iter().map(|s| s.pat).collect();
    for (i, o) in h.ops.iter().enumerate() {
        let Some(Res::Scan { clients, topics, wild }) = &o.r else { continue };
        let links = |pat: &str, must: bool| -> u64 {
            h.links.iter().enumerate().filter(|(li, l)| l.ep == o.ep && x.subs.iter().any(|s| s.link == Some(*li) && s.pat == pat
                && if must { l.from_g > o.end_g() && x.holds(s, o.inv.g, o.end_g()) } else { x.may_hold(s, o.inv.g, o.end_g()) })).count() as u64
        };
        let may: u64 = h.links.iter().enumerate().filter(|(_, l)| l.ep == o.ep && l.open_g < o.end_g() && l.to_g > o.inv.g)
            .filter(|(li, l)| is_wire(x.plan, l) || x.plan.cfg.get("SIM_MAIN").unwrap_or(0) > 0 || x.subs.iter().chain(&x.unsubs).any(|s| s.link == Some(*li)) || x.pubs.iter().any(|p| h.ops[*p].c == l.c && h.ops[*p].ep == l.ep)).count() as u64
            + h.ops.iter().filter(|p| matches!(p.op, Op::PProbe { .. }) && p.ep == o.ep && p.inv.g < o.end_g() && p.end_g() > o.inv.g).count() as u64;
        if *clients > may { say(x.plan, v, &["P04"], WIDE, "clients", format!("{} clients are listed but at most {} are there: {}", clients, may, d(h, i))); }
        for p in &pats {
            let (lo, hi) = (links(p, true), links(p, false));
            let probes = h.ops.iter().filter(|q| matches!(&q.op, Op::PProbe { t } if t == p) && q.ep == o.ep && q.inv.g < o.end_g() && q.end_g() > o.inv.g).count() as u64;
            let mut counts = vec![];
            if !x.slashy { counts.push(("topic", topics.iter().filter(|t| t.0 == *p).map(|t| t.1).sum::<u64>())); }
            if p.contains('#') || p.contains('+') { counts.push(("client list", wild.iter().filter(|w| w.0 == *p).count() as u64)); }
            for (what, n) in counts {
                if n > hi + probes { say(x.plan, v, &["P04"], WIDE, "leftover", format!("{} subscribers of {:?} in the {} but at most {} are there: {}", n, p, what, hi, d(h, i))); }
                if n < lo { say(x.plan, v, &["P04", "P01"], WIDE, "missing-sub", format!("{} subscribers of {:?} in the {} but at least {} are there: {}", n, p, what, lo, d(h, i))); }
            }
        }
        for (t, n, _) in topics { if *n > 0 && !x.slashy && !pats.contains(t.as_str()) && !h.ops.iter().any(|q| matches!(&q.op, Op::PProbe { t: p } if p == t)) { say(x.plan, v, &["P04", "N01"], WIDE, "stranger", format!("{} subscribers of {:?}, to which nobody subscribed: {}", n, t, d(h, i))); } }
    }
}
fn odd_sub(t: &str) -> bool { t.is_empty() || t.starts_with('/') }

// ------------------------------------------------------------------ store
pub const MAX_TTL: u64 = 1000 * 365 * 24 * 3600;
fn key(op: &Op) -> Option<&str> { match op { Op::KSet { k, .. } | Op::KGet { k } | Op::KDel { k } => Some(k), _ => None } }

fn store(plan: &Plan, h: &H, v: &mut Vs) {
    let dflt = plan.cfg.get("STORE_TTL_SECS").unwrap_or(3600);
    let sweep = plan.cfg.get("STORE_CLEANUP_INTERVAL_SECS").unwrap_or(60) * S;
    let ttl = |w: usize| -> Option<u64> {
        let Op::KSet { ttl, .. } = &h.ops[w].op else { return None };
        let s = match ttl { None | Some(0) => dflt, Some(s) => *s };
        if s > MAX_TTL { None } else { Some(s * S) }
    };
    let gone = |w: usize, o: &O| ttl(w).map(|t| done_t(&h.ops[w]).saturating_add(t) < o.inv.t).unwrap_or(false);
    let may_be_gone = |w: usize, o: &O| ttl(w).map(|t| h.ops[w].inv.t.saturating_add(t) <= o.end_t()).unwrap_or(false);
    let mut tags: HashMap<u64, usize> = HashMap::new();
    let mut empties: Vec<usize> = vec![];
    let mut keys: BTreeSet<&str> = BTreeSet::new();
    for (i, o) in h.ops.iter().enumerate() {
        if let Some(k) = key(&o.op) { keys.insert(k); }
        if let Op::KSet { tag, size, .. } = &o.op { if *size == 0 { empties.push(i); } else { tags.insert(*tag, i); } }
    }
    // what was read must have been written, to that key
    let look = |k: &str, tag: Option<u64>, i: usize, v: &mut Vs| {
        let o = &h.ops[i];
        match tag {
            None => say(plan, v, &["K01"], WIDE, "altered", format!("key {:?} has a value nobody wrote: {}", k, d(h, i))),
            Some(0) => if !empties.iter().any(|w| key(&h.ops[*w].op) == Some(k) && h.ops[*w].inv.g < o.end_g()) { say(plan, v, &["K01", "N01"], WIDE, "invented", format!("key {:?} is empty, which nobody wrote: {}", k, d(h, i))); },
            Some(t) => match tags.get(&t) {
                Some(w) if key(&h.ops[*w].op) == Some(k) && h.ops[*w].inv.g < o.end_g() => {}
                w => say(plan, v, &["K01", "N01"], WIDE, "other-key", format!("key {:?} has value {} of {:?}: {}", k, t, w.map(|w| d(h, *w)), d(h, i))),
            },
        }
    };
    for (i, o) in h.ops.iter().enumerate() {
        match (&o.op, &o.r) {
            (Op::KGet { k }, Some(Res::Val(t))) => look(k, *t, i, v),
            (Op::KScan, Some(Res::KScan { entries, total })) => {
                for (k, t) in entries { look(k, *t, i, v); }
                for w in entries.windows(2) { if w[0].0 == w[1].0 { say(plan, v, &["K01"], WIDE, "listed-twice", format!("key {:?} is listed twice: {}", w[0].0, d(h, i))); } }
                // expired entries do not stay for ever
                let held = keys.iter().filter(|k| h.ops.iter().enumerate().any(|(w, p)| p.ep == o.ep && matches!(p.op, Op::KSet { .. }) && key(&p.op) == Some(**k) && !refused(p) && p.inv.g < o.end_g()
                    && ttl(w).map(|t| done_t(p).saturating_add(t).saturating_add(sweep + 200 * MS + h.eps[o.ep].slack) >= o.inv.t).unwrap_or(true))).count() as u64;
                if *total > held { say(plan, v, &["K02"], WIDE, "not-swept", format!("{} entries are kept but at most {} have not been expired for long: {}", total, held, d(h, i))); }
            }
            _ => {}
        }
    }
    for k in keys {
        for ep in 0..h.eps.len() {
            let mine: Vec<usize> = h.ops.iter().enumerate().filter(|(_, o)| o.ep == ep && key(&o.op) == Some(k) && !refused(o)).map(|x| x.0).collect();
            let sets: Vec<usize> = mine.iter().copied().filter(|i| matches!(h.ops[*i].op, Op::KSet { .. })).collect();
            let writes: Vec<usize> = mine.iter().copied().filter(|i| matches!(h.ops[*i].op, Op::KSet { .. } | Op::KDel { .. })).collect();
            let of = |tag: u64| -> Vec<usize> { sets.iter().copied().filter(|w| matches!(h.ops[*w].op, Op::KSet { tag: g, size, .. } if if tag == 0 { size == 0 } else { size > 0 && g == tag })).collect() };
            let mut ops: Vec<LOp> = vec![];
            let mut read = |i: usize, val: Option<u64>, v: &mut Vs| {
                let o = &h.ops[i];
                let sees: Vec<Option<usize>> = match val {
                    Some(t) => {
                        let c = of(t);
                        if !c.is_empty() && c.iter().all(|w| gone(*w, o)) { say(plan, v, &["K02"], &["K01"], "outlived", format!("key {:?}: a value is read after its time to live: {} written by {}", k, d(h, i), d(h, c[0]))); return; }
                        c.into_iter().filter(|w| !gone(*w, o)).map(Some).collect()
                    }
                    None => {
                        for w in &sets {
                            let p = &h.ops[*w];
                            if !p.ok() || p.end_g() >= o.inv.g || may_be_gone(*w, o) { continue; }
                            if writes.iter().any(|q| q != w && !(done_g(&h.ops[*q]) < p.inv.g) && h.ops[*q].inv.g < o.end_g()) { continue; }
                            say(plan, v, &["K02", "K01"], WIDE, "too-early", format!("key {:?}: gone before its time to live: {} written by {}", k, d(h, i), d(h, *w)));
                        }
                        sets.iter().filter(|w| may_be_gone(**w, o)).map(|w| Some(*w)).chain([None]).collect()
                    }
                };
                ops.push(LOp { id: i, inv: o.inv.g, ret: o.end_g(), kind: Kind::Read(sees) });
            };
            for (i, o) in h.ops.iter().enumerate().filter(|(_, o)| o.ep == ep && o.fin()) {
                match (&o.op, &o.r) {
                    (Op::KGet { k: kk }, Some(Res::Val(Some(t)))) if kk == k => read(i, Some(*t), v),
                    (Op::KGet { k: kk }, Some(Res::Null)) if kk == k => read(i, None, v),
                    (Op::KScan, Some(Res::KScan { entries, .. })) => match entries.iter().find(|e| e.0 == k) { Some((_, Some(t))) => read(i, Some(*t), v), Some(_) => {}, None => read(i, None, v) },
                    _ => {}
                }
            }
            for w in &writes {
                let o = &h.ops[*w];
                let kind = match (&o.op, &o.r) {
                    (Op::KSet { .. }, _) => Kind::Write(Some(*w)),
                    (_, Some(Res::Bool(true))) => Kind::Take(sets.iter().map(|s| Some(*s)).collect()),
                    (_, Some(Res::Bool(false))) => Kind::Take(sets.iter().filter(|s| may_be_gone(**s, o)).map(|s| Some(*s)).chain([None]).collect()),
                    _ => Kind::Write(None),
                };
                ops.push(LOp { id: *w, inv: o.inv.g, ret: done_g(o), kind });
            }
            if let Some(Err(bad)) = explain(&ops, &[None]) {
                say(plan, v, &["K01"], WIDE, "not-linearizable", format!("key {:?}: no order of the {} operations explains {}", k, ops.len(), if bad == usize::MAX { String::new() } else { d(h, bad) }));
            }
        }
    }
    let _ = os::ST_DONE;
}
