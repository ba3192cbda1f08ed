//! A history in a form that is easy to check.
use crate::hist::*;
use crate::plan::*;
use crate::runner::RunOut;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub struct P {
    /// total order over the whole run
    pub g: u64,
    pub t: u64,
    pub real: u64,
}
pub fn gst(ep: usize, st: u64) -> u64 { ((ep as u64) << 48) | st }

#[derive(Clone, Debug)]
pub struct O {
    pub ep: usize,
    pub c: u32,
    pub i: u32,
    pub op: Op,
    pub arg: Option<String>,
    pub inv: P,
    pub ret: Option<P>,
    pub r: Option<Res>,
    /// asked of the dashboard
    pub web: bool,
}
impl O {
    /// completed with a definite answer
    pub fn fin(&self) -> bool { self.ret.is_some() && !matches!(self.r, Some(Res::Lost)) }
    pub fn ok(&self) -> bool { matches!(self.r, Some(Res::Ok) | Some(Res::Num(_)) | Some(Res::Bool(true))) }
    /// may have taken effect without us knowing the answer
    pub fn vague(&self) -> bool { matches!(self.r, None | Some(Res::Lost) | Some(Res::Garbled(_))) || matches!(&self.r, Some(Res::Err(e)) if e == "panic") }
    pub fn end_g(&self) -> u64 { self.ret.map(|p| p.g).unwrap_or(u64::MAX) }
    pub fn end_t(&self) -> u64 { self.ret.map(|p| p.t).unwrap_or(u64::MAX) }
}
#[derive(Clone, Debug, Default)]
pub struct EpInfo {
    pub start_t: u64,
    pub start_real: u64,
    pub ready_t: u64,
    pub ready_g: u64,
    pub clients_done_g: u64,
    pub end_t: u64,
    pub end_real: u64,
    pub status: u32,
    pub sig: i32,
    /// time during which anything may legitimately have been delayed
    pub slack: u64,
    pub panics: Vec<String>,
    pub escapes: Vec<(String, String)>,
    pub disk_faults: bool,
}
#[derive(Clone, Debug)]
pub struct PushEv { pub ep: usize, pub c: u32, pub id: u32, pub topic: String, pub tag: Option<u64>, pub len: u64, pub t: u64, pub g: u64, pub n: usize }
#[derive(Clone, Debug)]
pub struct ConnEv { pub ep: usize, pub c: u32, pub id: u32, pub t: u64, pub g: u64, pub what: &'static str, pub err: Option<String> }

/// One connection (or direct client identity).
#[derive(Clone, Debug)]
pub struct Conn {
    pub ep: usize,
    pub c: u32,
    pub id: u32,
    pub open_g: u64,
    pub open_t: u64,
    /// earliest moment the server may have noticed that it ended
    pub from_g: u64,
    pub from_t: u64,
    /// the server's clean-up was over
    pub to_g: u64,
    pub to_t: u64,
    pub err: Option<String>,
}

pub struct H {
    pub links: Vec<Conn>,
    pub ops: Vec<O>,
    pub eps: Vec<EpInfo>,
    pub pushes: Vec<PushEv>,
    pub conns: Vec<ConnEv>,
    pub strays: Vec<(usize, u32, String)>,
    pub notes: Vec<(String, String)>,
}
impl H {
    pub fn new(plan: &Plan, out: &RunOut) -> H {
        let mut h = H { links: vec![], ops: vec![], eps: vec![], pushes: vec![], conns: vec![], strays: vec![], notes: vec![] };
        for (ep, e) in out.epochs.iter().enumerate() {
            let mut idx: HashMap<(u32, u32), usize> = HashMap::new();
            let mut inf = EpInfo { status: e.status, sig: e.sig, end_t: e.end_now, disk_faults: plan.epochs[ep].io().next().is_some(), ..Default::default() };
            let mut pn = 0;
            for ev in &e.evs {
                match ev {
                    Ev::Start { t, real, .. } => { inf.start_t = *t; inf.start_real = *real; }
                    Ev::Ready { t, st, .. } => { inf.ready_t = *t; inf.ready_g = gst(ep, *st); }
                    Ev::ClientsDone { st, .. } => inf.clients_done_g = gst(ep, *st),
                    Ev::Inv { c, i, t, real, st, op, arg } => {
                        idx.insert((*c, *i), h.ops.len());
                        let (op, web) = match op { Op::Web(o) => (&**o, true), Op::HPage { .. } | Op::Http { .. } => (op, true), o => (o, false) };
                        h.ops.push(O { ep, c: *c, i: *i, web, op: op.clone(), arg: arg.clone(), inv: P { g: gst(ep, *st), t: *t, real: *real }, ret: None, r: None });
                    }
                    Ev::Ret { c, i, t, real, st, r } => {
                        if let Some(k) = idx.get(&(*c, *i)) {
                            let o = &mut h.ops[*k];
                            o.ret = Some(P { g: gst(ep, *st), t: *t, real: *real });
                            o.r = Some(r.clone());
                        }
                    }
                    Ev::Push { c, id, topic, tag, len, t, st } => { pn += 1; h.pushes.push(PushEv { ep, c: *c, id: *id, topic: topic.clone(), tag: *tag, len: *len, t: *t, g: gst(ep, *st), n: pn }); }
                    Ev::Ident { c, id, t, st } => h.conns.push(ConnEv { ep, c: *c, id: *id, t: *t, g: gst(ep, *st), what: "open", err: None }),
                    Ev::Eof { c, id, t, st } => h.conns.push(ConnEv { ep, c: *c, id: *id, t: *t, g: gst(ep, *st), what: "eof", err: None }),
                    Ev::ConnEnd { c, id, t, st, err } => h.conns.push(ConnEv { ep, c: *c, id: *id, t: *t, g: gst(ep, *st), what: "end", err: err.clone() }),
                    Ev::Closing { c, id, t, st } => h.conns.push(ConnEv { ep, c: *c, id: *id, t: *t, g: gst(ep, *st), what: "closing", err: None }),
                    Ev::Panic { msg, .. } => inf.panics.push(msg.clone()),
                    Ev::Escape { what, path } => inf.escapes.push((what.clone(), path.clone())),
                    Ev::End { t, real, stall_ns, .. } => { inf.end_t = *t; inf.end_real = *real; inf.slack = *stall_ns; }
                    Ev::Stray { c, what } => h.strays.push((ep, *c, what.clone())),
                    Ev::Note { k, v } => h.notes.push((k.clone(), v.clone())),
                }
            }
            h.eps.push(inf);
        }
        foreign(&mut h);
        h.links = links(&h);
        name_empty(&mut h);
        if plan.scen.starts_with("t-") {
            // slow clients delay what they are told
            for ep in 0..h.eps.len() {
                let more: u64 = (0..plan.epochs[ep].clients.len()).map(|k| crate::ot::own_delay(plan, &h, ep, (ep * 100 + k) as u32)).sum();
                h.eps[ep].slack += more;
            }
        }
        h
    }
    /// the connection on which `c` issued something at `g`
    pub fn link(&self, c: u32, g: u64) -> Option<&Conn> { self.links.iter().filter(|l| l.c == c && l.open_g <= g).max_by_key(|l| l.open_g) }
    /// every epoch ended as planned
    pub fn complete(&self, plan: &Plan) -> bool {
        self.eps.len() == plan.epochs.len() && self.eps.last().map(|e| e.status == crate::os::ST_DONE).unwrap_or(false)
    }
    pub fn single(&self) -> bool { self.eps.len() == 1 }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Viol {
    pub prop: String,
    /// which clause broke, for grouping
    pub kind: String,
    pub msg: String,
}
pub struct Vs(pub Vec<Viol>);
impl Vs {
    pub fn add(&mut self, prop: &str, kind: &str, msg: String) {
        if self.0.len() < 200 { self.0.push(Viol { prop: prop.into(), kind: kind.into(), msg }); }
    }
}

fn links(h: &H) -> Vec<Conn> {
    let mut v: Vec<Conn> = vec![];
    for o in h.conns.iter().filter(|x| x.what == "open") {
        let next = h.conns.iter().filter(|x| x.what == "open" && x.c == o.c && x.g > o.g).map(|x| x.g).min().unwrap_or(u64::MAX);
        let mut l = Conn { ep: o.ep, c: o.c, id: o.id, open_g: o.g, open_t: o.t, from_g: u64::MAX, from_t: u64::MAX, to_g: u64::MAX, to_t: u64::MAX, err: None };
        let mut lower = |g: u64, t: u64| if g < l.from_g { l.from_g = g; l.from_t = t; };
        for x in h.conns.iter().filter(|x| x.id == o.id && x.ep == o.ep && x.what == "closing") { lower(x.g, x.t); }
        for x in h.ops.iter().filter(|x| x.c == o.c && x.inv.g > o.g && x.inv.g < next && x.ep == o.ep) {
            if matches!(x.op, Op::HalfClose | Op::Raw { .. } | Op::Frame { .. } | Op::Close | Op::Reset) { lower(x.inv.g, x.inv.t); }
        }
        if let Some(x) = h.conns.iter().find(|x| x.id == o.id && x.ep == o.ep && x.what == "end") {
            l.to_g = x.g;
            l.to_t = x.t;
            l.err = x.err.clone();
            // ended for no reason of the client's
            if l.from_g > x.g { l.from_g = o.g; l.from_t = o.t; }
        }
        v.push(l);
    }
    v
}

/// Empty events carry no tag: take the one published under that number.
fn name_empty(h: &mut H) {
    let pubs: Vec<(String, Option<u64>, u64, usize, u64)> = h.ops.iter().filter_map(|o| match &o.op {
        Op::SPub { s, tag, size: 0 } if o.vague() || matches!(o.r, Some(Res::Num(_))) => Some((s.clone(), if let Some(Res::Num(n)) = o.r { Some(n) } else { None }, *tag, o.ep, o.inv.g)),
        _ => None,
    }).collect();
    for o in &mut h.ops {
        let end = o.end_g();
        let (Op::SRead { s, .. } | Op::SFetch { s, .. }) = &o.op else { continue };
        let Some(Res::SMsgs(ms)) = &mut o.r else { continue };
        for m in ms.iter_mut().filter(|m| m.tag == Some(0)) {
            let mine = || pubs.iter().filter(|p| p.0 == *s && p.4 < end);
            let x = mine().filter(|p| p.1 == Some(m.seq)).max_by_key(|p| p.4).or_else(|| mine().filter(|p| p.1.is_none()).max_by_key(|p| p.4));
            if let Some(p) = x { m.tag = Some(p.2); }
        }
    }
}

/// What a client did with raw frames is not modelled: leave its objects out of all listings.
fn foreign(h: &mut H) {
    let raw: std::collections::HashSet<u32> = h.ops.iter().filter(|o| matches!(o.op, Op::Frame { .. } | Op::Raw { .. })).map(|o| o.c).collect();
    if raw.is_empty() { return; }
    h.pushes.retain(|p| !raw.contains(&p.c));
    let mut known: std::collections::HashSet<String> = Default::default();
    for o in &h.ops {
        let (a, b) = names(&o.op);
        for x in [a, b].into_iter().flatten() { known.insert(x.to_string()); }
    }
    for o in &mut h.ops {
        match &mut o.r {
            Some(Res::Snap(v)) => v.retain(|x| known.contains(&x.q)),
            Some(Res::SSnap(v)) => { v.retain(|x| known.contains(&x.s)); for t in v { t.groups.retain(|g| known.contains(&g.0)); } }
            Some(Res::Scan { topics, wild, .. }) => { topics.retain(|t| known.contains(&t.0)); wild.retain(|t| known.contains(&t.0)); }
            Some(Res::KScan { total, entries }) => { entries.retain(|e| known.contains(&e.0)); *total = entries.len() as u64; }
            _ => {}
        }
    }
}
/// the names an operation is about
pub fn names(op: &Op) -> (Option<&str>, Option<&str>) {
    match op {
        Op::QCreate { q, .. } | Op::QDelete { q } | Op::QPush { q, .. } | Op::QConsume { q, .. } | Op::QPop { q } | Op::QAck { q, .. } | Op::QNack { q, .. } | Op::QExists { q } | Op::QPeek { q, .. }
        | Op::QMove { q, .. } | Op::QDelDlq { q, .. } | Op::QPurge { q } | Op::QDump { q } | Op::QDrain { q } => (Some(q), None),
        Op::SCreate { s, .. } | Op::SDelete { s } | Op::SPub { s, .. } | Op::SRead { s, .. } | Op::SReadAll { s, .. } | Op::SExists { s } => (Some(s), None),
        Op::SJoin { s, g } | Op::SFetch { s, g, .. } | Op::SAck { s, g, .. } | Op::SAckAll { s, g } | Op::SLeave { s, g } | Op::SSeek { s, g, .. } | Op::SDrain { s, g, .. } => (Some(s), Some(g)),
        Op::Sub { t } | Op::Unsub { t } | Op::Pub { t, .. } | Op::PProbe { t } => (Some(t), None),
        Op::KSet { k, .. } | Op::KGet { k } | Op::KDel { k } => (Some(k), None),
        _ => (None, None),
    }
}
