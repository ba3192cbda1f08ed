//! Queue properties Q01..Q07.
use crate::gen::MS;
use crate::hist::*;
use crate::hview::*;
use crate::os;
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const TICK: u64 = 50 * MS;
const EPS: u64 = 30 * MS;

#[derive(Clone)]
struct Del { o: usize, att: Option<u32>, pos: usize }
#[derive(Default, Clone)]
struct Msg {
    tag: u64,
    prio: u8,
    push: Option<usize>,
    ids: BTreeSet<String>,
    dels: Vec<Del>,
    acks: Vec<usize>,
    nacks: Vec<usize>,
    moves: Vec<usize>,
    ddlq: Vec<usize>,
}
struct Q<'a> {
    name: String,
    ops: Vec<usize>,
    creates: Vec<usize>,
    deletes: Vec<usize>,
    msgs: BTreeMap<u64, Msg>,
    id2tag: HashMap<&'a str, u64>,
    purges: Vec<usize>,
    consumes: Vec<usize>,
    vague: bool,
}

pub fn qname(op: &Op) -> Option<&str> {
    match op {
        Op::QCreate { q, .. } | Op::QDelete { q } | Op::QPush { q, .. } | Op::QConsume { q, .. } | Op::QPop { q } | Op::QAck { q, .. } | Op::QNack { q, .. }
        | Op::QExists { q } | Op::QPeek { q, .. } | Op::QMove { q, .. } | Op::QDelDlq { q, .. } | Op::QPurge { q } | Op::QDump { q } => Some(q),
        _ => None,
    }
}
fn listed(o: &O) -> Vec<&QMsg> {
    match &o.r {
        Some(Res::Msgs(m)) => m.iter().collect(),
        Some(Res::Peek { msgs, .. }) => msgs.iter().collect(),
        Some(Res::Dump { pending, inflight, dlq, .. }) => pending.iter().chain(inflight).chain(dlq).collect(),
        _ => vec![],
    }
}
fn pos_jumps(plan: &Plan) -> u64 {
    plan.epochs.iter().flat_map(|e| e.jumps.iter()).map(|j| j.delta.max(0) as u64).sum()
}
fn any_jumps(plan: &Plan) -> bool { plan.epochs.iter().any(|e| !e.jumps.is_empty()) }
fn d(h: &H, o: usize) -> String {
    let x = &h.ops[o];
    format!("[client {} op {} {:?}{} -> {} @{:.3}ms]", x.c, x.i, x.op, x.arg.as_ref().map(|a| format!(" {}", a)).unwrap_or_default(),
        match &x.r { None => "no answer".into(), Some(Res::Msgs(m)) => format!("{:?}", m.iter().map(|y| y.tag).collect::<Vec<_>>()), Some(r) => { let s = format!("{:?}", r); s.chars().take(160).collect() } }, x.inv.t as f64 / 1e6)
}

fn view<'a>(h: &'a H, name: &str, v: &mut Vs, pushed: &HashMap<u64, (usize, String)>) -> Q<'a> {
    let mut q = Q { name: name.into(), ops: vec![], creates: vec![], deletes: vec![], msgs: BTreeMap::new(), id2tag: HashMap::new(), purges: vec![], consumes: vec![], vague: false };
    for (i, o) in h.ops.iter().enumerate() {
        if qname(&o.op) != Some(name) { continue; }
        q.ops.push(i);
        if o.vague() { q.vague = true; }
        match &o.op {
            Op::QCreate { .. } => q.creates.push(i),
            Op::QDelete { .. } => q.deletes.push(i),
            Op::QPush { tag, prio, .. } => {
                let m = q.msgs.entry(*tag).or_default();
                m.tag = *tag;
                m.prio = prio.unwrap_or(0);
                m.push = Some(i);
            }
            _ => {}
        }
        for m in listed(o) {
            let Some(tag) = m.tag else {
                v.add("Q01", "altered", format!("queue {}: message {} carries a payload nobody pushed: {}", name, m.id, d(h, i)));
                continue;
            };
            match pushed.get(&tag) {
                None => v.add("Q01", "invented", format!("queue {}: payload tag {} was never pushed: {}", name, tag, d(h, i))),
                Some((p, pq)) => {
                    if pq != name { v.add("N01", "queue-crosstalk", format!("message {} pushed to {:?} appears in {:?}: {}", tag, pq, name, d(h, i))); }
                    if h.ops[*p].inv.g > o.end_g() { v.add("Q01", "early", format!("message {} appears before it was pushed", tag)); }
                    if let (Some(pr), Op::QPush { prio, .. }) = (m.prio, &h.ops[*p].op) {
                        if pr != prio.unwrap_or(0) { v.add("Q01", "priority-altered", format!("queue {}: message {} pushed with priority {:?} is listed with {}: {}", name, tag, prio, pr, d(h, i))); }
                    }
                }
            }
            match q.id2tag.get(m.id.as_str()) {
                Some(t) if *t != tag => v.add("Q01", "id-reused", format!("queue {}: id {} denotes messages {} and {}", name, m.id, t, tag)),
                _ => { q.id2tag.insert(&m.id, tag); }
            }
            let e = q.msgs.entry(tag).or_default();
            e.tag = tag;
            e.ids.insert(m.id.clone());
        }
        match (&o.op, &o.r) {
            (Op::QConsume { .. } | Op::QPop { .. }, Some(Res::Msgs(ms))) => {
                q.consumes.push(i);
                for (pos, m) in ms.iter().enumerate() {
                    if let Some(t) = m.tag { q.msgs.get_mut(&t).unwrap().dels.push(Del { o: i, att: m.att, pos }); }
                }
                if let Op::QConsume { max: Some(n), .. } = &o.op {
                    if ms.len() as u64 > *n { v.add("Q01", "too-many", format!("queue {}: more messages than asked for: {}", name, d(h, i))); }
                }
                let mut s = HashSet::new();
                for m in ms { if !s.insert(&m.id) { v.add("Q02", "twice-in-batch", format!("queue {}: {} twice in one batch {}", name, m.id, d(h, i))); } }
            }
            (Op::QConsume { .. } | Op::QPop { .. }, _) => q.consumes.push(i),
            (Op::QPurge { .. }, _) => q.purges.push(i),
            (Op::QPeek { limit, .. }, Some(Res::Peek { total, msgs })) => {
                if msgs.len() as u64 > *limit as u64 || msgs.len() as u64 > *total { v.add("Q01", "peek-count", format!("queue {}: inconsistent listing {}", name, d(h, i))); }
                let mut s = HashSet::new();
                for m in msgs { if !s.insert(&m.id) { v.add("Q04", "dlq-twice", format!("queue {}: {} listed twice in the dead letter queue {}", name, m.id, d(h, i))); } }
            }
            _ => {}
        }
    }
    // operations that refer to an id
    for i in q.ops.clone() {
        let o = &h.ops[i];
        if !matches!(o.r, Some(Res::Bool(true))) { continue; }
        let Some(id) = o.arg.as_deref() else { continue };
        let tag = q.id2tag.get(id).copied();
        let Some(tag) = tag else {
            if matches!(o.op, Op::QAck { .. } | Op::QNack { .. } | Op::QMove { .. } | Op::QDelDlq { .. }) && id.starts_with("00000000-0000-0000-0b06") {
                v.add("Q01", "bogus-id-accepted", format!("queue {}: an id never issued was accepted: {}", name, d(h, i)));
            }
            continue;
        };
        let m = q.msgs.get_mut(&tag).unwrap();
        match o.op {
            Op::QAck { .. } => m.acks.push(i),
            Op::QNack { .. } => m.nacks.push(i),
            Op::QMove { .. } => m.moves.push(i),
            Op::QDelDlq { .. } => m.ddlq.push(i),
            _ => {}
        }
    }
    for m in q.msgs.values_mut() { m.dels.sort_by_key(|x| h.ops[x.o].inv.g); }
    q
}

pub fn check(plan: &Plan, h: &H, v: &mut Vs) {
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut pushed: HashMap<u64, (usize, String)> = HashMap::new();
    for (i, o) in h.ops.iter().enumerate() {
        if let Some(n) = qname(&o.op) { names.insert(n.to_string()); }
        if let Op::QPush { q, tag, .. } = &o.op { pushed.insert(*tag, (i, q.clone())); }
    }
    if names.is_empty() { return; }
    names.retain(|n| !n.starts_with("zy-"));
    for n in &names {
        let q = view(h, n, v, &pushed);
        let faulty = plan.epochs.iter().any(|e| e.io().next().is_some());
        if q.deletes.is_empty() && q.creates.iter().any(|c| h.ops[*c].ok()) {
            if h.single() {
                if !q.vague { exact(plan, h, &q, v); }
                robust(plan, h, &q, v);
                if !q.vague { timing(plan, h, &q, v); }
            } else {
                durability(plan, h, &q, v);
                if !faulty { order_again(h, &q, v); }
            }
        } else if !faulty { life(plan, h, &q, v); }
    }
    snapshots(plan, h, v, &names);
    if plan.scen == "q-seq" { seq(plan, h, v); }
}

fn opts(plan: &Plan, h: &H, q: &Q) -> (u64, u32) {
    let c = q.creates.iter().find(|c| h.ops[**c].ok()).unwrap();
    match &h.ops[*c].op {
        Op::QCreate { vt, retries, .. } => (vt.unwrap_or(plan.cfg.get("QUEUE_VISIBILITY_MS").unwrap_or(30_000)), retries.unwrap_or(plan.cfg.get("QUEUE_MAX_RETRIES").unwrap_or(5) as u32)),
        _ => unreachable!(),
    }
}
/// the lease taken by `o` may have run out by time `t`
fn may_expire(h: &H, o: usize, vt: u64, t: u64, jump: u64) -> bool {
    let i = &h.ops[o].inv;
    // the lease is taken at the earliest when the call started; times are in ms
    t.saturating_add(jump).saturating_add(2 * MS) >= i.t.saturating_add(vt.saturating_mul(MS))
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum Spot { Not, Ready, Lease(u64), Dead(Option<String>), Gone }
#[derive(Clone)]
enum LK { Push, Del(Option<u32>), Ack(bool), Nack(bool, String), Move(bool), DDel(bool), Purge, SeeReady(Option<u32>), SeeLease(Option<u32>), SeeDead(Option<u32>, Option<String>) }
#[derive(Clone)]
struct LE { inv: u64, end: u64, t0: u64, t1: u64, opt: bool, k: LK }
struct Rules { vt: u64, retries: u32, jump: u64, att: bool, lease: bool }
impl Rules {
    /// states reachable by a lease running out
    fn expire(&self, s: &(Spot, u32), by: u64) -> Option<(Spot, u32)> {
        let Spot::Lease(t) = s.0 else { return None };
        if by.saturating_add(self.jump).saturating_add(2 * MS) < t.saturating_add(self.vt.saturating_mul(MS)) { return None; }
        Some((if s.1 >= self.retries { Spot::Dead(Some("Timeout".into())) } else { Spot::Ready }, s.1))
    }
    fn step(&self, s: &(Spot, u32), e: &LE) -> Vec<(Spot, u32)> {
        let (sp, att) = (&s.0, s.1);
        let same = |a: &Option<u32>| !self.att || a.map(|a| a == att).unwrap_or(true);
        let stay = |ok: bool| if ok { vec![s.clone()] } else { vec![] };
        match &e.k {
            LK::Push => if *sp == Spot::Not { vec![(Spot::Ready, 0)] } else { vec![] },
            LK::Del(a) => {
                let free = *sp == Spot::Ready || (!self.lease && matches!(sp, Spot::Lease(_))) || (!self.att && matches!(sp, Spot::Dead(_)));
                if free && (!self.att || a.map(|a| a == att + 1).unwrap_or(true)) { vec![(Spot::Lease(e.t0), att + 1)] } else { vec![] }
            }
            LK::Ack(true) => if matches!(sp, Spot::Ready | Spot::Lease(_)) || (!self.att && matches!(sp, Spot::Dead(_))) { vec![(Spot::Gone, att)] } else { vec![] },
            LK::Ack(false) => stay(!matches!(sp, Spot::Lease(_))),
            LK::Nack(true, why) => if matches!(sp, Spot::Ready | Spot::Lease(_)) { vec![(if att >= self.retries { Spot::Dead(Some(why.clone())) } else { Spot::Ready }, att)] } else { vec![] },
            LK::Nack(false, _) => stay(!matches!(sp, Spot::Lease(_))),
            LK::Move(true) => if matches!(sp, Spot::Dead(_)) { vec![(Spot::Ready, 0)] } else { vec![] },
            LK::Move(false) | LK::DDel(false) => stay(!matches!(sp, Spot::Dead(_))),
            LK::DDel(true) => if matches!(sp, Spot::Dead(_)) { vec![(Spot::Gone, att)] } else { vec![] },
            LK::Purge => vec![(if matches!(sp, Spot::Dead(_)) { Spot::Gone } else { sp.clone() }, att)],
            LK::SeeReady(a) => stay(*sp == Spot::Ready && same(a)),
            LK::SeeLease(a) => stay(matches!(sp, Spot::Lease(_)) && same(a)),
            LK::SeeDead(a, w) => match sp { Spot::Dead(x) => stay(same(a) && (!self.att || w.is_none() || x == w)), _ => vec![] },
        }
    }
}
/// Is there an order of the operations on one message, compatible with real time, that a queue could have executed?
fn linear(ev: &[LE], r: &Rules) -> Option<bool> {
    let n = ev.len();
    if n > 60 { return None; }
    let mut seen: HashSet<(u64, Spot, u32)> = HashSet::new();
    let mut stack: Vec<(u64, (Spot, u32))> = vec![(0, (Spot::Not, 0))];
    let must: u64 = ev.iter().enumerate().filter(|(_, e)| !e.opt).fold(0, |m, (i, _)| m | 1 << i);
    while let Some((mask, st)) = stack.pop() {
        if mask & must == must { return Some(true); }
        if seen.len() > 200_000 { return None; }
        if !seen.insert((mask, st.0.clone(), st.1)) { continue; }
        // an operation may come next if no other pending one ended before it began
        let lim = ev.iter().enumerate().filter(|(i, e)| mask >> i & 1 == 0 && !e.opt).map(|(_, e)| e.end).min().unwrap_or(u64::MAX);
        for (i, e) in ev.iter().enumerate() {
            if mask >> i & 1 == 1 || e.inv > lim { continue; }
            for s in r.step(&st, e) { stack.push((mask | 1 << i, s)); }
            if let Some(x) = r.expire(&st, e.t1) { for s in r.step(&x, e) { stack.push((mask | 1 << i, s)); } }
        }
    }
    Some(false)
}
fn lin_events(h: &H, q: &Q, m: &Msg) -> Vec<LE> {
    let mut ev = vec![];
    for i in &q.ops {
        let o = &h.ops[*i];
        let mut put = |k: LK, opt: bool| ev.push(LE { inv: o.inv.g, end: o.end_g(), t0: o.inv.t, t1: o.end_t(), opt, k });
        let mine = o.arg.as_ref().map(|a| m.ids.contains(a)).unwrap_or(false);
        let yes = matches!(o.r, Some(Res::Bool(true)));
        let vg = o.vague();
        match &o.op {
            Op::QPush { tag, .. } if *tag == m.tag => if vg || o.ok() { put(LK::Push, false) },
            Op::QAck { .. } if mine => put(LK::Ack(yes || vg), vg),
            Op::QNack { reason, .. } if mine => put(LK::Nack(yes || vg, reason.clone()), vg),
            Op::QMove { .. } if mine => put(LK::Move(yes || vg), vg),
            Op::QDelDlq { .. } if mine => put(LK::DDel(yes || vg), vg),
            Op::QPurge { .. } => put(LK::Purge, true),
            Op::QConsume { .. } | Op::QPop { .. } if vg => put(LK::Del(None), true),
            _ => {}
        }
        let see = |l: &Vec<QMsg>| l.iter().find(|x| x.tag == Some(m.tag)).cloned();
        match (&o.op, &o.r) {
            (Op::QConsume { .. } | Op::QPop { .. }, Some(Res::Msgs(ms))) => if let Some(x) = see(ms) { put(LK::Del(x.att), false) },
            (_, Some(Res::Peek { msgs, .. })) => if let Some(x) = see(msgs) { put(LK::SeeDead(x.att, x.why), false) },
            (_, Some(Res::Dump { pending, inflight, dlq, .. })) => {
                if let Some(x) = see(pending) { put(LK::SeeReady(x.att), false) }
                else if let Some(x) = see(inflight) { put(LK::SeeLease(x.att), false) }
                else if let Some(x) = see(dlq) { put(LK::SeeDead(x.att, x.why), false) }
            }
            _ => {}
        }
    }
    ev
}
fn linearizable(plan: &Plan, h: &H, q: &Q, v: &mut Vs) {
    let (vt, retries) = opts(plan, h, q);
    let jump = pos_jumps(plan);
    for m in q.msgs.values() {
        if m.push.is_none() { continue; }
        let ev = lin_events(h, q, m);
        let ok = |att, lease| linear(&ev, &Rules { vt, retries, jump, att, lease }) != Some(false);
        if ok(true, true) { continue; }
        let story: Vec<String> = q.ops.iter().filter(|i| { let o = &h.ops[**i]; o.arg.as_ref().map(|a| m.ids.contains(a)).unwrap_or(false) || listed(o).iter().any(|x| x.tag == Some(m.tag)) }).map(|i| d(h, *i)).collect();
        let (p, k) = if ok(false, true) { ("Q04", "attempt-history") } else if ok(true, false) || ok(false, false) { ("Q02", "lease-broken") } else { ("Q02", "impossible-history") };
        v.add(p, k, format!("queue {} (visibility timeout {} ms, retry limit {}): no order of these operations explains message {}: {}", q.name, vt, retries, m.tag, story.join(" ")));
    }
}

/// checks that hold even if some answers were lost
fn robust(plan: &Plan, h: &H, q: &Q, v: &mut Vs) {
    let (vt, retries) = opts(plan, h, q);
    let jump = pos_jumps(plan);
    let r1 = retries.max(1) as usize;
    linearizable(plan, h, q, v);
    for m in q.msgs.values() {
        if m.ids.len() > 1 { v.add("Q01", "duplicated", format!("queue {}: message {} exists under several ids {:?}", q.name, m.tag, m.ids)); }
        if let Some(p) = m.push {
            if matches!(h.ops[p].r, Some(Res::Err(_))) && !h.ops[p].vague() && !m.ids.is_empty() { v.add("Q01", "failed-push-visible", format!("queue {}: {} failed but the message exists", q.name, d(h, p))); }
        }
        // an ack is final
        for a in &m.acks {
            let ag = h.ops[*a].end_g();
            for i in &q.ops {
                let o = &h.ops[*i];
                if o.inv.g <= ag { continue; }
                if listed(o).iter().any(|x| x.tag == Some(m.tag)) { v.add("Q02", "ack-not-final", format!("queue {}: message {} acked by {} appears again in {}", q.name, m.tag, d(h, *a), d(h, *i))); }
            }
            for x in m.acks.iter().chain(&m.nacks).chain(&m.moves).chain(&m.ddlq) {
                if x != a && h.ops[*x].inv.g > ag { v.add("Q02", "ack-not-final", format!("queue {}: after {} also {} succeeded", q.name, d(h, *a), d(h, *x))); }
            }
        }
        if m.acks.len() + m.ddlq.len() > 1 { v.add("Q01", "removed-twice", format!("queue {}: message {} was removed more than once: {:?}", q.name, m.tag, m.acks.iter().chain(&m.ddlq).map(|x| d(h, *x)).collect::<Vec<_>>())); }
        for a in &m.ddlq {
            for i in &q.ops {
                if h.ops[*i].inv.g > h.ops[*a].end_g() && listed(&h.ops[*i]).iter().any(|x| x.tag == Some(m.tag)) { v.add("Q04", "deleted-dead-letter-back", format!("queue {}: message {} deleted by {} appears again in {}", q.name, m.tag, d(h, *a), d(h, *i))); }
            }
        }
        // attempts
        let vmove = q.ops.iter().filter(|x| h.ops[**x].vague() && matches!(h.ops[**x].op, Op::QMove { .. })).count();
        let mv = m.moves.len() + vmove;
        if m.dels.len() > r1 * (mv + 1) {
            v.add("Q04", "too-many-attempts", format!("queue {}: message {} delivered {} times, retry limit {}, {} replays", q.name, m.tag, m.dels.len(), retries, m.moves.len()));
        }
        for x in &m.dels {
            if let Some(a) = x.att { if a == 0 || a as usize > r1 { v.add("Q04", "attempt-count", format!("queue {}: message {} delivered with attempt count {} (limit {}): {}", q.name, m.tag, a, retries, d(h, x.o))); } }
        }
        // dead letters
        let reasons: HashSet<&str> = m.nacks.iter().chain(q.ops.iter().filter(|x| h.ops[**x].vague())).filter_map(|x| if let Op::QNack { reason, .. } = &h.ops[*x].op { Some(reason.as_str()) } else { None }).collect();
        let mut seen_dlq: Vec<usize> = vec![];
        for i in &q.ops {
            let o = &h.ops[*i];
            let l: Vec<&QMsg> = match &o.r { Some(Res::Peek { msgs, .. }) => msgs.iter().collect(), Some(Res::Dump { dlq, .. }) => dlq.iter().collect(), _ => continue };
            for x in l.iter().filter(|x| x.tag == Some(m.tag)) {
                seen_dlq.push(*i);
                let att = x.att.unwrap_or(0);
                if retries >= 1 && att != retries || retries == 0 && att > 1 {
                    v.add("Q04", "dead-letter-attempts", format!("queue {}: dead letter {} has {} attempts, retry limit {}: {}", q.name, m.tag, att, retries, d(h, *i)));
                }
                let before = m.dels.iter().filter(|y| h.ops[y.o].inv.g < o.end_g()).count();
                if !q.vague && before < att as usize { v.add("Q04", "dead-letter-early", format!("queue {}: message {} dead-lettered after {} of {} deliveries: {}", q.name, m.tag, before, att, d(h, *i))); }
                if let Some(w) = &x.why {
                    let to = w == "Timeout" && m.dels.iter().any(|y| may_expire(h, y.o, vt, o.end_t(), jump));
                    if !to && !reasons.contains(w.as_str()) { v.add("Q04", "dead-letter-reason", format!("queue {}: dead letter {} has reason {:?}; nack reasons were {:?}: {}", q.name, m.tag, w, reasons, d(h, *i))); }
                    // the reason is that of the failure that used up the attempts
                    if w == "Timeout" && retries >= 1 && !q.vague && m.moves.is_empty() {
                        if let Some(last) = m.dels.iter().filter(|y| h.ops[y.o].inv.g < o.end_g()).last() {
                            if m.dels.len() == retries as usize && !may_expire(h, last.o, vt, o.end_t(), jump) { v.add("Q04", "dead-letter-reason", format!("queue {}: dead letter {} has reason Timeout although its last lease {} had not run out: {}", q.name, m.tag, d(h, last.o), d(h, *i))); }
                        }
                    }
                }
            }
        }
        for p in &seen_dlq {
            let po = &h.ops[*p];
            for x in &m.dels {
                let c = &h.ops[x.o];
                if c.inv.g > po.end_g() && !m.moves.iter().any(|y| h.ops[*y].inv.g < c.end_g() && h.ops[*y].end_g() > po.inv.g) && vmove == 0 {
                    v.add("Q04", "dead-letter-delivered", format!("queue {}: dead letter {} (listed by {}) delivered without a replay by {}", q.name, m.tag, d(h, *p), d(h, x.o)));
                }
            }
            for x in m.acks.iter().chain(&m.nacks) {
                let c = &h.ops[*x];
                if c.inv.g > po.end_g() && !m.moves.iter().any(|y| h.ops[*y].inv.g < c.end_g() && h.ops[*y].end_g() > po.inv.g) && vmove == 0 {
                    v.add("Q04", "dead-letter-acked", format!("queue {}: {} succeeded on dead letter {} (listed by {})", q.name, d(h, *x), m.tag, d(h, *p)));
                }
            }
            if !q.vague {
                for y in &m.moves {
                    let mo = &h.ops[*y];
                    if po.inv.g > mo.end_g() {
                        let again = m.dels.iter().filter(|x| h.ops[x.o].end_g() > mo.inv.g && h.ops[x.o].inv.g < po.end_g()).count();
                        if again < retries as usize { v.add("Q04", "replayed-still-dead", format!("queue {}: message {} replayed by {} is in the dead letter queue again ({}) after {} deliveries", q.name, m.tag, d(h, *y), d(h, *p), again)); }
                    }
                }
            }
        }
        if retries >= 1 && !q.vague && m.moves.len() + m.ddlq.len() > m.dels.len() / retries as usize {
            v.add("Q04", "replayed-alive", format!("queue {}: message {} left the dead letter queue {} times but can have entered it only {} times", q.name, m.tag, m.moves.len() + m.ddlq.len(), m.dels.len() / retries as usize));
        }
    }
}

/// checks that need every answer
fn exact(plan: &Plan, h: &H, q: &Q, v: &mut Vs) {
    let (vt, retries) = opts(plan, h, q);
    let jump = pos_jumps(plan);
    // refused although it must be possible
    for i in &q.ops {
        let o = &h.ops[*i];
        if !matches!(o.r, Some(Res::Bool(false))) { continue; }
        let Some(id) = o.arg.as_deref() else { continue };
        let Some(m) = q.id2tag.get(id).and_then(|t| q.msgs.get(t)) else { continue };
        let interferes = |skip_before: u64| m.acks.iter().chain(&m.nacks).chain(&m.moves).chain(&m.ddlq).any(|x| *x != *i && h.ops[*x].inv.g < o.end_g() && h.ops[*x].end_g() > skip_before);
        match o.op {
            Op::QAck { .. } | Op::QNack { .. } => {
                let Some(dl) = m.dels.iter().filter(|x| h.ops[x.o].end_g() < o.inv.g).last() else { continue };
                if !interferes(h.ops[dl.o].inv.g) && !may_expire(h, dl.o, vt, o.end_t(), jump) {
                    v.add("Q02", "settle-refused", format!("queue {}: {} refused although the message is leased by {}", q.name, d(h, *i), d(h, dl.o)));
                }
            }
            Op::QMove { .. } | Op::QDelDlq { .. } => {
                for p in &q.ops {
                    let po = &h.ops[*p];
                    if po.end_g() > o.inv.g { continue; }
                    let Some(Res::Peek { msgs, .. }) = &po.r else { continue };
                    if msgs.iter().any(|x| x.id == id) && !interferes(po.inv.g) && !q.purges.iter().any(|x| h.ops[*x].inv.g < o.end_g() && h.ops[*x].end_g() > po.inv.g) {
                        v.add("Q04", "dead-letter-refused", format!("queue {}: {} refused although the message is dead-lettered ({})", q.name, d(h, *i), d(h, *p)));
                    }
                }
            }
            _ => {}
        }
    }
    // pushes must succeed
    let exists_from = q.creates.iter().map(|c| h.ops[*c].end_g()).min().unwrap();
    for i in &q.ops {
        let o = &h.ops[*i];
        if matches!(o.r, Some(Res::Err(_))) && o.inv.g > exists_from && !o.vague() && !matches!(o.op, Op::QCreate { .. }) {
            v.add("Q01", "refused", format!("queue {}: {} failed on an existing queue", q.name, d(h, *i)));
        }
    }
    // attempt counts are exactly 1,2,3,...
    for m in q.msgs.values() {
        if m.moves.is_empty() && m.dels.iter().all(|x| x.att.is_some()) {
            let mut a: Vec<u32> = m.dels.iter().map(|x| x.att.unwrap()).collect();
            let inorder = a.clone();
            a.sort();
            if a.iter().enumerate().any(|(i, x)| *x != i as u32 + 1) { v.add("Q04", "attempt-count", format!("queue {}: message {} delivered with attempt counts {:?}", q.name, m.tag, inorder)); }
            for i in 0..m.dels.len() { for j in i + 1..m.dels.len() {
                if h.ops[m.dels[i].o].end_g() < h.ops[m.dels[j].o].inv.g && m.dels[i].att > m.dels[j].att { v.add("Q04", "attempt-count", format!("queue {}: message {} attempt counts go back {:?}", q.name, m.tag, inorder)); }
            } }
        } else if m.dels.iter().all(|x| x.att.is_some()) {
            let mut c: BTreeMap<u32, usize> = BTreeMap::new();
            for x in &m.dels { *c.entry(x.att.unwrap()).or_insert(0) += 1; }
            let mut prev = m.moves.len() + 1;
            for k in 1..=c.keys().max().copied().unwrap_or(0) {
                let n = c.get(&k).copied().unwrap_or(0);
                if n > prev { v.add("Q04", "attempt-count", format!("queue {}: message {} delivered {} times with attempt count {} but only {} times with {}; {} replays", q.name, m.tag, n, k, prev, k - 1, m.moves.len())); }
                prev = n;
            }
        }
    }
    // conservation at the end
    let done = h.eps.last().map(|e| e.status == os::ST_DONE).unwrap_or(false);
    let fin: Option<(usize, &QCnt)> = h.ops.iter().enumerate().rev().find_map(|(i, o)| if let Some(Res::Snap(s)) = &o.r { s.iter().find(|c| c.q == q.name).map(|c| (i, c)) } else { None });
    if let (true, Some((si, c))) = (done, fin) {
        let so = &h.ops[si];
        let later = q.ops.iter().any(|x| h.ops[*x].end_g() > so.inv.g && !matches!(h.ops[*x].op, Op::QExists { .. } | Op::QPeek { .. } | Op::QDump { .. }));
        let p = q.msgs.values().filter(|m| m.push.map(|x| h.ops[x].ok()).unwrap_or(false)).count() as u64;
        let a = q.msgs.values().filter(|m| !m.acks.is_empty()).count() as u64;
        let dd = q.msgs.values().filter(|m| !m.ddlq.is_empty()).count() as u64;
        let g: u64 = q.purges.iter().map(|x| if let Some(Res::Num(n)) = h.ops[*x].r { n } else { 0 }).sum();
        if !later && p != a + dd + g + c.pending + c.inflight + c.dlq {
            v.add("Q01", "conservation", format!("queue {}: {} pushed, but {} acked + {} dead letters deleted + {} purged + {} waiting + {} leased + {} dead-lettered", q.name, p, a, dd, g, c.pending, c.inflight, c.dlq));
        }
        // after a drain nothing may remain waiting or leased
        let drained = plan.epochs[0].probe.iter().any(|o| matches!(o, Op::QDrain { q: n } if *n == q.name)) && vt <= crate::plan::DRAIN_VT_MAX;
        if drained && !later && c.pending + c.inflight > 0 { v.add("Q01", "undeliverable", format!("queue {}: {} waiting and {} leased messages remain after draining", q.name, c.pending, c.inflight)); }
        // what is listed is what there is
        if let Some(p) = q.ops.iter().rev().find(|x| h.ops[**x].inv.g < so.inv.g && matches!(h.ops[**x].r, Some(Res::Peek { .. }))) {
            let po = &h.ops[*p];
            if let (Op::QPeek { limit, offset, .. }, Some(Res::Peek { total, msgs })) = (&po.op, &po.r) {
                let quiet = !q.ops.iter().any(|x| x != p && h.ops[*x].end_g() > po.inv.g && h.ops[*x].inv.g < so.inv.g);
                if drained && quiet && (*total != c.dlq || (*limit as u64 > *total && *offset == 0 && msgs.len() as u64 != *total)) {
                    v.add("Q01", "listing", format!("queue {}: dead letter listing {} of {} but the count says {}", q.name, msgs.len(), total, c.dlq));
                }
            }
        }
    }
    // contents of a dump taken while nothing else ran
    for i in &q.ops {
        let Some(Res::Dump { pending, inflight, dlq, exists }) = &h.ops[*i].r else { continue };
        if !exists { v.add("Q01", "queue-lost", format!("queue {} does not exist: {}", q.name, d(h, *i))); continue; }
        let mut s = HashSet::new();
        for m in pending.iter().chain(inflight).chain(dlq) { if !s.insert(&m.id) { v.add("Q01", "two-places", format!("queue {}: message {} is in two places at once: {}", q.name, m.id, d(h, *i))); } }
    }
    // order
    order(plan, h, q, v, retries);
}

/// intervals (from, until) in history order during which a message is certainly waiting
fn available(h: &H, m: &Msg, retries: u32) -> Vec<(u64, u64, u64, u64, bool)> {
    // (g from, g until, t from, t until, never delivered)
    let mut out = vec![];
    let mut starts: Vec<(usize, bool)> = vec![];
    if let Some(p) = m.push { if h.ops[p].ok() { starts.push((p, true)); } }
    for n in &m.nacks {
        let k = m.dels.iter().filter(|x| h.ops[x.o].inv.g < h.ops[*n].end_g()).count();
        if m.moves.is_empty() && (k as u32) < retries { starts.push((*n, false)); }
    }
    for n in &m.moves { starts.push((*n, false)); }
    for (s, first) in starts {
        let so = &h.ops[s];
        let mut g = u64::MAX;
        let mut t = u64::MAX;
        let mut cut = |o: &O| { if o.inv.g < g { g = o.inv.g; t = o.inv.t; } };
        for x in &m.dels { if h.ops[x.o].end_g() > so.inv.g { cut(&h.ops[x.o]); } }
        for x in &m.acks { if h.ops[*x].end_g() > so.inv.g { cut(&h.ops[*x]); } }
        // a second nack or replay in flight makes things unclear
        for x in m.nacks.iter().chain(&m.moves).chain(&m.ddlq) { if *x != s && h.ops[*x].end_g() > so.inv.g { cut(&h.ops[*x]); } }
        if so.end_g() < g { out.push((so.end_g(), g, so.end_t(), t, first && m.dels.iter().all(|x| h.ops[x.o].end_g() > so.inv.g))); }
    }
    out
}

fn order(_plan: &Plan, h: &H, q: &Q, v: &mut Vs, retries: u32) {
    let avail: Vec<(u64, u8, Vec<(u64, u64, u64, u64, bool)>)> = q.msgs.values().map(|m| (m.tag, m.prio, available(h, m, retries))).collect();
    for c in &q.consumes {
        let o = &h.ops[*c];
        let Some(Res::Msgs(ms)) = &o.r else { continue };
        if ms.is_empty() { continue; }
        let pr: Vec<u8> = ms.iter().map(|m| m.tag.and_then(|t| q.msgs.get(&t)).map(|m| m.prio).unwrap_or(0)).collect();
        if pr.windows(2).any(|w| w[0] < w[1]) {
            v.add("Q03", "batch-order", format!("queue {}: batch with priorities {:?}: {}", q.name, pr, d(h, *c)));
        }
        let low = *pr.iter().min().unwrap();
        for (tag, p, av) in &avail {
            if *p > low && av.iter().any(|a| a.0 < o.inv.g && a.1 > o.end_g()) {
                v.add("Q03", "priority", format!("queue {}: {} returned priority {} while message {} of priority {} was waiting", q.name, d(h, *c), low, tag, p));
            }
        }
        if let Op::QConsume { max, .. } = &o.op {
            let max = max.unwrap_or(_plan.cfg.get("QUEUE_DEFAULT_BATCH_SIZE").unwrap_or(u64::MAX));
            let _ = max;
        }
    }
    // first deliveries in push order
    let ms: Vec<&Msg> = q.msgs.values().filter(|m| m.push.map(|p| h.ops[p].ok()).unwrap_or(false)).collect();
    let before = |x: &Del, y: &Del| h.ops[x.o].end_g() < h.ops[y.o].inv.g || (x.o == y.o && x.pos < y.pos);
    for b in &ms {
        for a in &ms {
            if a.prio != b.prio || a.tag == b.tag { continue; }
            if h.ops[a.push.unwrap()].end_g() >= h.ops[b.push.unwrap()].inv.g { continue; }
            // b was out before a ever was
            let Some(db) = b.dels.iter().find(|db| a.dels.iter().all(|da| before(db, da))) else { continue };
            match a.dels.first() {
                None => v.add("Q03", "push-order", format!("queue {}: message {} delivered by {} although {} of equal priority was pushed before and is still waiting", q.name, b.tag, d(h, db.o), a.tag)),
                Some(da) => v.add("Q03", "push-order", format!("queue {}: message {} (pushed first) delivered by {}, after message {} by {}", q.name, a.tag, d(h, da.o), b.tag, d(h, db.o))),
            }
        }
    }
}

/// the order after a restart, of messages that were waiting untouched when it was over
fn order_again(h: &H, q: &Q, v: &mut Vs) {
    for ep in 1..h.eps.len() {
        let Some(dn) = q.ops.iter().copied().find(|i| h.ops[*i].ep == ep && h.ops[*i].c == 1000 + ep as u32 && matches!(h.ops[*i].r, Some(Res::Dump { .. }))) else { continue };
        let Some(Res::Dump { pending, .. }) = &h.ops[dn].r else { continue };
        let ms: Vec<&Msg> = pending.iter().filter(|m| m.att == Some(0)).filter_map(|m| m.tag.and_then(|t| q.msgs.get(&t)))
            .filter(|m| m.push.map(|p| h.ops[p].ok()).unwrap_or(false) && m.moves.is_empty() && m.dels.iter().all(|x| h.ops[x.o].ep >= ep)).collect();
        let of = |o: &O| o.ep == ep && o.end_g() > h.ops[dn].inv.g && matches!(o.op, Op::QConsume { .. } | Op::QPop { .. });
        let gets: Vec<usize> = q.ops.iter().copied().filter(|i| of(&h.ops[*i])).collect();
        let unsure = |g: u64| gets.iter().any(|i| h.ops[*i].vague() && h.ops[*i].inv.g < g);
        let before = |x: &Del, y: &Del| h.ops[x.o].end_g() < h.ops[y.o].inv.g || (x.o == y.o && x.pos < y.pos);
        for b in &ms {
            for a in &ms {
                if a.tag == b.tag { continue; }
                // b was out before a ever was
                let mine = |m: &Msg| -> Vec<Del> { m.dels.iter().filter(|x| h.ops[x.o].ep == ep).cloned().collect() };
                let of_a = mine(a);
                let Some(db) = mine(b).into_iter().find(|db| of_a.iter().all(|da| before(db, da))) else { continue };
                let ob = &h.ops[db.o];
                if unsure(ob.end_g()) { continue; }
                if a.prio > b.prio {
                    // waiting all the while
                    if of_a.iter().all(|da| h.ops[da.o].inv.g > ob.end_g()) && h.ops[dn].end_g() < ob.inv.g {
                        v.add("Q03", "priority", format!("queue {}: after a restart {} returned priority {} while message {} of priority {} was waiting", q.name, d(h, db.o), b.prio, a.tag, a.prio));
                    }
                } else if a.prio == b.prio && h.ops[a.push.unwrap()].end_g() < h.ops[b.push.unwrap()].inv.g {
                    v.add("Q03", "push-order", format!("queue {}: after a restart message {} was delivered by {} although {} of equal priority was pushed before and was still waiting", q.name, b.tag, d(h, db.o), a.tag));
                }
            }
        }
    }
}

/// long polling
fn timing(plan: &Plan, h: &H, q: &Q, v: &mut Vs) {
    if any_jumps(plan) { return; }
    let (vt, retries) = opts(plan, h, q);
    let end = h.eps[0].end_t;
    let slack = 60 * MS + h.eps[0].slack;
    let net = |c: u32| plan.epochs[0].clients.get(c as usize).and_then(|c| c.tcp).map(|n| if n.chunk == 0 { 2 * MS } else { n.gap_ns * 400 + 2 * MS }).unwrap_or(0);
    let stuck = h.eps[0].status == os::ST_HORIZON || h.eps[0].status == os::ST_DEADLOCK;
    for c in &q.consumes {
        let o = &h.ops[*c];
        let Op::QConsume { max, wait, .. } = &o.op else { continue };
        if *max == Some(0) { continue; }
        let wait = wait.unwrap_or(plan.cfg.get("QUEUE_DEFAULT_WAIT_MS").unwrap_or(0));
        if wait > 1_000_000_000 { continue; }
        let slack = slack + net(o.c);
        let fin = o.ret.map(|p| p.t).unwrap_or(end);
        let empty = matches!(&o.r, Some(Res::Msgs(m)) if m.is_empty());
        if empty && fin < o.inv.t + wait * MS { v.add("Q05", "early", format!("queue {}: {} came back empty after {:.3} of {} ms", q.name, d(h, *c), (fin - o.inv.t) as f64 / 1e6, wait)); }
        if o.ret.is_some() || stuck {
            if fin > o.inv.t + wait * MS + slack { v.add("Q05", "late", format!("queue {}: {} took {:.3} ms, asked to wait at most {} ms (allowance {:.3})", q.name, d(h, *c), (fin - o.inv.t) as f64 / 1e6, wait, slack as f64 / 1e6)); }
        }
        // was something there all the time?
        for m in q.msgs.values() {
            let mut av: Vec<(u64, u64, String)> = available(h, m, retries).into_iter().map(|a| (a.2, a.3, "became available".to_string())).collect();
            // leases that ran out
            if m.moves.is_empty() && vt < 10_000_000 {
                for x in m.dels.iter() {
                    let xo = &h.ops[x.o];
                    let dt = xo.end_t();
                    let att = m.dels.iter().filter(|y| h.ops[y.o].inv.g <= xo.end_g()).count() as u32;
                    if att >= retries { continue; }
                    let from = dt + vt * MS + TICK + 2 * MS;
                    let next = m.dels.iter().filter(|y| y.o != x.o && h.ops[y.o].end_g() > xo.inv.g).map(|y| h.ops[y.o].inv.t).min().unwrap_or(u64::MAX);
                    let settled = m.acks.iter().chain(&m.nacks).chain(&m.ddlq).filter(|y| h.ops[**y].end_g() > h.ops[x.o].inv.g).map(|y| h.ops[*y].inv.t).min().unwrap_or(u64::MAX);
                    av.push((from, next.min(settled), "lease ran out".into()));
                }
            }
            for (a, b, why) in av {
                let lo = a.max(o.inv.t);
                let hi = b.min(fin);
                // a consumer that took this very message ends its own availability
                if hi > lo && hi - lo > slack {
                    let own = m.dels.iter().any(|x| x.o == *c);
                    let hi = if own { fin } else { hi };
                    v.add("Q05", "not-woken", format!("queue {}: {} did not return for {:.3} ms while message {} was available ({})", q.name, d(h, *c), (hi - lo) as f64 / 1e6, m.tag, why));
                }
            }
            // its own message, but late
            if let Some(x) = m.dels.iter().find(|x| x.o == *c) {
                let first = m.dels.iter().all(|y| y.o == x.o || h.ops[y.o].inv.g > o.end_g());
                if first { if let Some(p) = m.push {
                    let lo = h.ops[p].end_t().max(o.inv.t);
                    if fin > lo && fin - lo > slack { v.add("Q05", "not-woken", format!("queue {}: {} got message {} {:.3} ms after it was available", q.name, d(h, *c), m.tag, (fin - lo) as f64 / 1e6)); }
                } }
            }
        }
    }
}

fn snapshots(plan: &Plan, h: &H, v: &mut Vs, names: &BTreeSet<String>) {
    if !h.single() || plan.epochs.iter().any(|e| e.io().next().is_some()) { return; }
    for (i, o) in h.ops.iter().enumerate() {
        let Some(Res::Snap(s)) = &o.r else { continue };
        for c in s {
            if c.q.starts_with("zy-") { continue; }
            if !names.contains(&c.q) { v.add("N01", "queue-invented", format!("queue {:?} exists but was never created", c.q)); }
            let mine: Vec<&O> = h.ops.iter().filter(|x| qname(&x.op) == Some(c.q.as_str())).collect();
            if mine.iter().any(|x| x.vague() || matches!(x.op, Op::QDelete { .. })) { continue; }
            let rem = |x: &&&O| -> u64 { match (&x.op, &x.r) { (Op::QAck { .. } | Op::QDelDlq { .. }, Some(Res::Bool(true))) => 1, (Op::QPurge { .. }, Some(Res::Num(n))) => *n, _ => 0 } };
            let is_push = |x: &&&O| matches!(x.op, Op::QPush { .. }) && x.ok();
            let lo_p = mine.iter().filter(is_push).filter(|x| x.end_g() < o.inv.g).count() as u64;
            let hi_p = mine.iter().filter(is_push).filter(|x| x.inv.g < o.end_g()).count() as u64;
            let hi_r: u64 = mine.iter().filter(|x| x.inv.g < o.end_g()).map(|x| rem(&x)).sum();
            let lo_r: u64 = mine.iter().filter(|x| x.end_g() < o.inv.g).map(|x| rem(&x)).sum();
            let tot = c.pending + c.inflight + c.dlq;
            if tot + hi_r < lo_p || tot + lo_r > hi_p {
                v.add("Q01", "counts", format!("queue {}: reported waiting {} + leased {} + dead {} but between {} and {} messages should exist: {}", c.q, c.pending, c.inflight, c.dlq, lo_p as i64 - hi_r as i64, hi_p as i64 - lo_r as i64, d(h, i)));
            }
        }
    }
}

// ------------------------------------------------------------------ crashes
#[derive(Clone, PartialEq, Debug)]
enum Place { Gone, Pend(u32), Infl(u32), Dead(u32, String) }

fn dump_place(r: &Res, tag: u64) -> Place {
    let Res::Dump { pending, inflight, dlq, .. } = r else { return Place::Gone };
    if let Some(m) = pending.iter().find(|m| m.tag == Some(tag)) { return Place::Pend(m.att.unwrap_or(0)); }
    if let Some(m) = inflight.iter().find(|m| m.tag == Some(tag)) { return Place::Infl(m.att.unwrap_or(0)); }
    if let Some(m) = dlq.iter().find(|m| m.tag == Some(tag)) { return Place::Dead(m.att.unwrap_or(0), m.why.clone().unwrap_or_default()); }
    Place::Gone
}

fn durability(plan: &Plan, h: &H, q: &Q, v: &mut Vs) {
    let (vt, retries) = opts(plan, h, q);
    let flush = plan.cfg.get("QUEUE_DEFAULT_FLUSH_MS").unwrap_or(100) * MS;
    // the dump at the start of each epoch
    let dump = |ep: usize| q.ops.iter().copied().find(|i| h.ops[*i].ep == ep && h.ops[*i].c == 1000 + ep as u32 && matches!(h.ops[*i].op, Op::QDump { .. }) && matches!(h.ops[*i].r, Some(Res::Dump { .. })));
    for ep in 1..h.eps.len() {
        let Some(dn) = dump(ep) else { continue };
        let Some(Res::Dump { pending, inflight, dlq, exists }) = &h.ops[dn].r else { continue };
        // base: the last epoch before this one with a dump
        let Some((b, base)) = (0..ep).rev().find_map(|e| dump(e).map(|x| (e, x))) else { continue };
        let created = q.creates.iter().any(|c| h.ops[*c].ok() && h.ops[*c].ep <= b);
        if !exists { if created { v.add("Q06", "queue-lost", format!("queue {} is gone after a restart", q.name)); } continue; }
        let mut seen = HashSet::new();
        for m in pending.iter().chain(inflight).chain(dlq) { if !seen.insert(m.tag) { v.add("Q06", "duplicated", format!("queue {}: message {:?} present twice after a restart: {}", q.name, m.tag, d(h, dn))); } }
        let jump = pos_jumps(plan);
        let now_t = h.ops[dn].end_t();
        // operations between the two dumps
        let win: Vec<usize> = q.ops.iter().copied().filter(|i| h.ops[*i].ep >= b && h.ops[*i].ep < ep && h.ops[*i].inv.g > h.ops[base].inv.g).collect();
        let crash_t = h.eps[ep - 1].end_t;
        // all operations between the two dumps are of the base epoch
        let must = crate::ost::must_before(plan, h, b, flush);
        let end_of = |o: &O| o.ret.map(|p| p.t).unwrap_or(u64::MAX);
        let vague_del: Vec<usize> = win.iter().copied().filter(|i| h.ops[*i].vague() && matches!(h.ops[*i].op, Op::QConsume { .. } | Op::QPop { .. })).collect();
        let vague_purge: Vec<usize> = win.iter().copied().filter(|i| h.ops[*i].vague() && matches!(h.ops[*i].op, Op::QPurge { .. })).collect();
        // (allowed intervals of the cut, in history order) per message
        let mut per: Vec<(u64, Vec<(u64, u64)>, String)> = vec![];
        let mut cands: BTreeSet<u64> = BTreeSet::new();
        let tags: BTreeSet<u64> = q.msgs.keys().copied().collect();
        for tag in tags {
            let m = &q.msgs[&tag];
            let got = dump_place(&h.ops[dn].r.clone().unwrap(), tag);
            let start = dump_place(&h.ops[base].r.clone().unwrap(), tag);
            // events on this message, in order
            #[derive(Clone, Copy, PartialEq, Debug)]
            enum E { Push, Del, Ack, Nack, Move, DDlq, Purge }
            let mut ev: Vec<(usize, E)> = vec![];
            for i in &win {
                let o = &h.ops[*i];
                let idm = o.arg.as_deref().map(|a| m.ids.contains(a)).unwrap_or(false);
                let sure = matches!(o.r, Some(Res::Bool(true)));
                match &o.op {
                    Op::QPush { tag: t, .. } if *t == tag => if o.ok() || o.vague() { ev.push((*i, E::Push)) },
                    Op::QConsume { .. } | Op::QPop { .. } => if matches!(&o.r, Some(Res::Msgs(x)) if x.iter().any(|y| y.tag == Some(tag))) { ev.push((*i, E::Del)) },
                    Op::QAck { .. } if idm && (sure || o.vague()) => ev.push((*i, E::Ack)),
                    Op::QNack { .. } if idm && (sure || o.vague()) => ev.push((*i, E::Nack)),
                    Op::QMove { .. } if idm && (sure || o.vague()) => ev.push((*i, E::Move)),
                    Op::QDelDlq { .. } if idm && (sure || o.vague()) => ev.push((*i, E::DDlq)),
                    Op::QPurge { .. } => ev.push((*i, E::Purge)),
                    _ => {}
                }
            }
            if m.push.is_none() { continue; }
            if ev.is_empty() && matches!(start, Place::Gone) {
                let pushed_here = win.contains(&m.push.unwrap());
                if got != Place::Gone && !pushed_here && h.ops[m.push.unwrap()].ep < ep {
                    v.add("Q06", "came-back", format!("queue {}: message {} had been removed before epoch {} but is back after the restart: {:?}", q.name, tag, b, got));
                }
                continue;
            }
            ev.sort_by_key(|x| h.ops[x.0].inv.g);
            // overlapping operations on one message: order unknown
            let mut overlap = false;
            for w in ev.windows(2) { if h.ops[w[0].0].end_g() >= h.ops[w[1].0].inv.g { overlap = true; } }
            // a purge that did not touch it is not an event
            let vague_any = ev.iter().any(|x| h.ops[x.0].vague() && x.1 != E::Push);
            let hidden = !vague_del.is_empty() || !vague_purge.is_empty() || vague_any;
            if overlap { continue; }
            // states after each event: sets of possible places
            let g0 = h.ops[base].inv.g;
            let mut iv: Vec<(u64, u64)> = vec![];
            let mut why = String::new();
            let mut cur: Vec<Place> = vec![start.clone()];
            let mut last_del: Option<usize> = None;
            let expiry_ok = |l: Option<usize>| match l { Some(o) => may_expire(h, o, vt, now_t, jump), None => true };
            let matches_state = |cur: &[Place], last_del: Option<usize>, got: &Place| -> bool {
                cur.iter().any(|p| match (p, got) {
                    (Place::Gone, Place::Gone) => true,
                    (Place::Pend(a), Place::Pend(b)) => a == b,
                    (Place::Infl(a), Place::Infl(b)) => a == b,
                    (Place::Infl(a), Place::Pend(b)) => a == b && expiry_ok(last_del),
                    (Place::Infl(a), Place::Dead(b, w)) => a == b && *a >= retries && w == "Timeout" && expiry_ok(last_del),
                    (Place::Pend(a), Place::Dead(b, w)) => a == b && *a >= retries && w == "Timeout",
                    (Place::Dead(a, w), Place::Dead(b, x)) => a == b && w == x,
                    _ => false,
                })
            };
            let mut lo = 0u64;
            let mut steps: Vec<(u64, u64, u64, bool)> = vec![];
            for k in 0..=ev.len() {
                let next = ev.get(k);
                let hi = next.map(|x| h.ops[x.0].end_g()).unwrap_or(u64::MAX);
                let hi_t = next.map(|x| end_of(&h.ops[x.0])).unwrap_or(u64::MAX);
                let ok = matches_state(&cur, last_del, &got);
                steps.push((lo, hi, hi_t, ok));
                if ok && hi_t >= must { iv.push((lo, hi)); }
                if ok && hi_t < must { why = format!("state before {} (completed {:.3} ms before the crash, flush interval {} ms)", d(h, next.unwrap().0), (crash_t.saturating_sub(hi_t)) as f64 / 1e6, flush / MS); }
                let Some((i, e)) = next else { break };
                let o = &h.ops[*i];
                let vague = o.vague();
                let mut nx: Vec<Place> = vec![];
                for p in &cur {
                    match (e, p) {
                        (E::Push, Place::Gone) => nx.push(Place::Pend(0)),
                        (E::Del, Place::Pend(a)) | (E::Del, Place::Infl(a)) => nx.push(Place::Infl(a + 1)),
                        (E::Ack, _) => nx.push(Place::Gone),
                        (E::Nack, Place::Infl(a)) | (E::Nack, Place::Pend(a)) => {
                            let reason = if let Op::QNack { reason, .. } = &o.op { reason.clone() } else { String::new() };
                            if *a >= retries { nx.push(Place::Dead(*a, reason)) } else { nx.push(Place::Pend(*a)) }
                        }
                        (E::Move, Place::Dead(..)) => nx.push(Place::Pend(0)),
                        // a lease that ran out moved it to the dead letters before
                        (E::Move, Place::Infl(a)) if *a >= retries => nx.push(Place::Pend(0)),
                        (E::DDlq, _) => nx.push(Place::Gone),
                        (E::Purge, Place::Dead(..)) => nx.push(Place::Gone),
                        (E::Purge, Place::Infl(a)) if *a >= retries => { nx.push(p.clone()); nx.push(Place::Gone); }
                        (E::Purge, p) => nx.push(p.clone()),
                        _ => {}
                    }
                }
                if vague { for p in &cur { if !nx.contains(p) { nx.push(p.clone()); } } }
                if nx.is_empty() { // the live behaviour itself is off; other properties decide that
                    nx.push(Place::Gone); nx.push(Place::Pend(0));
                }
                if *e == E::Del { last_del = Some(*i); }
                cur = nx;
                lo = o.inv.g;
            }
            if hidden {
                // unanswered consumes may have leased it (again), unanswered purges removed it
                let mut more = cur.clone();
                for _ in 0..vague_del.len().min(4) {
                    let mut add = vec![];
                    for p in &more { match p { Place::Pend(a) | Place::Infl(a) if *a < retries.max(1) => { add.push(Place::Infl(a + 1)); } Place::Infl(a) => { let _ = a; } _ => {} } }
                    for a in add { if !more.contains(&a) { more.push(a); } }
                }
                if !vague_purge.is_empty() { let dead = more.iter().any(|p| matches!(p, Place::Dead(..) | Place::Infl(_))); if dead { more.push(Place::Gone); } }
                // vague delivery in the middle of later certain events is not modelled: accept any later state
                let g = vague_del.iter().chain(&vague_purge).map(|i| h.ops[*i].inv.g).chain(ev.iter().filter(|x| h.ops[x.0].vague()).map(|x| h.ops[x.0].inv.g)).min().unwrap_or(0);
                if matches_state(&more, None, &got) { iv.push((g, u64::MAX)); }
                // events after the first unanswered one: be generous
                if ev.iter().any(|x| h.ops[x.0].end_g() > g) && vague_del.iter().any(|i| h.ops[*i].inv.g < ev.last().map(|x| h.ops[x.0].inv.g).unwrap_or(0)) { continue; }
            }
            // a lease that had run out when the base epoch started was ended by its timeout task before
            // the dump; that may not have reached the disk yet
            if b >= 1 && h.ops[base].end_t() >= must {
                match (&start, &got) {
                    (Place::Dead(a, w), Place::Infl(x)) if w == "Timeout" && a == x => iv.push((0, g0.max(2))),
                    (Place::Pend(a), Place::Infl(x)) if *a > 0 && a == x => iv.push((0, g0.max(2))),
                    _ => {}
                }
            }
            if iv.is_empty() {
                let evs: Vec<String> = ev.iter().map(|x| d(h, x.0)).collect();
                v.add("Q06", "state", format!("queue {} (flush {} ms, retries {}): after the restart message {} is {:?}, which is the result of no admissible prefix. Before: {:?}; operations: {:?}; {} crash @{:.3}ms", q.name, flush / MS, retries, tag, got, start, evs, why, crash_t as f64 / 1e6));
                continue;
            }
            for (a, b) in &iv { cands.insert(a + 1); cands.insert(b.saturating_sub(1)); }
            per.push((tag, iv, format!("{:?}", got)));
        }
        if !per.is_empty() {
            let fit = cands.iter().any(|c| per.iter().all(|(_, iv, _)| iv.iter().any(|(a, b)| *c > *a && *c < *b)));
            if !fit {
                let l: Vec<String> = per.iter().map(|(t, iv, g)| format!("{}:{}{:?}", t, g, iv)).collect();
                v.add("Q06", "not-a-prefix", format!("queue {}: no single cut of the operations explains the contents after the restart: {}", q.name, l.join(" ").chars().take(1500).collect::<String>()));
            }
        }
    }
    // options survive
    for (i, o) in h.ops.iter().enumerate() {
        if let Some(Res::Snap(s)) = &o.r {
            for c in s.iter().filter(|c| c.q == q.name) {
                if (c.vt, c.retries) != (vt, retries) { v.add("Q07", "options", format!("queue {} was created with visibility timeout {} and {} retries, but has {} and {}: {}", q.name, vt, retries, c.vt, c.retries, d(h, i))); }
            }
        }
    }
    // what was there after the last restart is all delivered
    let ep = h.eps.len() - 1;
    let Some(dn) = dump(ep) else { return };
    if h.eps[ep].status != os::ST_DONE { return; }
    let Some(Res::Dump { pending, inflight, dlq, .. }) = &h.ops[dn].r else { return };
    let n0 = (pending.len() + inflight.len() + dlq.len()) as u64;
    let win: Vec<&O> = q.ops.iter().map(|i| &h.ops[*i]).filter(|o| o.ep == ep && o.inv.g > h.ops[dn].inv.g).collect();
    if win.iter().any(|o| o.vague()) { return; }
    let p = win.iter().filter(|o| matches!(o.op, Op::QPush { .. }) && o.ok()).count() as u64;
    let a = win.iter().filter(|o| matches!(o.op, Op::QAck { .. } | Op::QDelDlq { .. }) && matches!(o.r, Some(Res::Bool(true)))).count() as u64;
    let g: u64 = win.iter().map(|o| if let (Op::QPurge { .. }, Some(Res::Num(n))) = (&o.op, &o.r) { *n } else { 0 }).sum();
    let fin = h.ops.iter().rev().find_map(|o| if o.ep == ep { if let Some(Res::Snap(s)) = &o.r { return s.iter().find(|c| c.q == q.name); } None } else { None });
    if let Some(c) = fin {
        if n0 + p != a + g + c.pending + c.inflight + c.dlq { v.add("Q06", "conservation", format!("queue {}: {} recovered + {} pushed, but {} acked or deleted, {} purged, {} waiting, {} leased, {} dead", q.name, n0, p, a, g, c.pending, c.inflight, c.dlq)); }
        else if vt <= crate::plan::DRAIN_VT_MAX && c.pending + c.inflight > 0 { v.add("Q06", "undeliverable", format!("queue {}: {} waiting and {} leased remain after draining", q.name, c.pending, c.inflight)); }
    }
    // attempts go on counting across the restart
    for m in q.msgs.values() {
        let a0 = match dump_place(&h.ops[dn].r.clone().unwrap(), m.tag) { Place::Pend(a) | Place::Infl(a) => a, _ => continue };
        let n = m.dels.iter().filter(|x| h.ops[x.o].ep == ep).count() as u32;
        let mv = m.moves.iter().any(|x| h.ops[*x].ep == ep);
        if !mv && n + a0 > retries.max(1) { v.add("Q06", "attempts", format!("queue {}: message {} recovered with {} attempts was delivered {} more times, retry limit {}", q.name, m.tag, a0, n, retries)); }
    }
}

// ------------------------------------------------------------------ life cycle
fn life(plan: &Plan, h: &H, q: &Q, v: &mut Vs) {
    // crash points: a vague op may or may not have happened
    let creates: Vec<usize> = q.creates.iter().copied().filter(|c| h.ops[*c].ok() || h.ops[*c].vague()).collect();
    let deletes: Vec<usize> = q.deletes.iter().copied().filter(|c| h.ops[*c].ok() || h.ops[*c].vague()).collect();
    let sure_deletes: Vec<usize> = deletes.iter().copied().filter(|c| h.ops[*c].ok()).collect();
    for m in q.msgs.values() {
        let Some(p) = m.push else { continue };
        for x in &sure_deletes {
            if h.ops[p].end_g() > h.ops[*x].inv.g { continue; }
            for i in &q.ops {
                if h.ops[*i].inv.g > h.ops[*x].end_g() && listed(&h.ops[*i]).iter().any(|y| y.tag == Some(m.tag)) {
                    v.add("Q07", "deleted-message-back", format!("queue {}: message {} removed by {} appears again in {}", q.name, m.tag, d(h, *x), d(h, *i)));
                }
            }
        }
    }
    for i in &q.ops {
        let o = &h.ops[*i];
        if o.vague() { continue; }
        // does the queue certainly (not) exist during o?
        let last_sure_delete = sure_deletes.iter().filter(|x| h.ops[**x].end_g() < o.inv.g).map(|x| h.ops[*x].inv.g).max();
        let maybe_created = creates.iter().any(|c| h.ops[*c].inv.g < o.end_g() && h.ops[*c].end_g() > last_sure_delete.unwrap_or(0));
        let absent = !maybe_created;
        let last_create = q.creates.iter().filter(|c| h.ops[**c].ok() && h.ops[**c].end_g() < o.inv.g).map(|c| h.ops[*c].inv.g).max();
        let present = match last_create { Some(g) => !deletes.iter().any(|x| h.ops[*x].inv.g < o.end_g() && h.ops[*x].end_g() > g), None => false };
        match (&o.op, &o.r) {
            (Op::QPush { .. } | Op::QConsume { .. }, Some(Res::Err(_))) if present => v.add("Q07", "missing", format!("queue {} exists but {} failed", q.name, d(h, *i))),
            (Op::QPush { .. } | Op::QConsume { .. }, Some(Res::Ok) | Some(Res::Msgs(_))) if absent => v.add("Q07", "ghost", format!("queue {} does not exist but {} succeeded", q.name, d(h, *i))),
            (Op::QAck { .. } | Op::QNack { .. }, Some(Res::Bool(true))) if absent => v.add("Q07", "ghost", format!("queue {} does not exist but {} succeeded", q.name, d(h, *i))),
            (Op::QExists { .. }, Some(Res::Bool(b))) if absent && *b || present && !*b => v.add("Q07", "existence", format!("queue {} certainly {} but {}", q.name, if present { "exists" } else { "does not exist" }, d(h, *i))),
            (Op::QDump { .. }, Some(Res::Dump { exists, .. })) if absent && *exists || present && !*exists => v.add("Q07", "existence", format!("queue {} certainly {} but {}", q.name, if present { "exists" } else { "does not exist" }, d(h, *i))),
            (Op::QCreate { .. } | Op::QDelete { .. }, Some(Res::Err(e))) if q.name.len() <= crate::scen_t::LONG => v.add("Q07", "refused", format!("queue {}: {} failed: {}", q.name, d(h, *i), e)),
            _ => {}
        }
        // existence is decided by nothing else: a fresh queue is empty
        if let Some(Res::Dump { pending, inflight, dlq, exists: true }) = &o.r {
            for m in pending.iter().chain(inflight).chain(dlq) {
                let Some(p) = m.tag.and_then(|t| q.msgs.get(&t)).and_then(|m| m.push) else { continue };
                let _ = p;
            }
        }
    }
    // options: from a create that can have been effective
    for (i, o) in h.ops.iter().enumerate() {
        let Some(Res::Snap(s)) = &o.r else { continue };
        let Some(c) = s.iter().find(|c| c.q == q.name) else { continue };
        let last_sure_delete = sure_deletes.iter().filter(|x| h.ops[**x].end_g() < o.inv.g).map(|x| h.ops[*x].inv.g).max().unwrap_or(0);
        let mut ok = vec![];
        for k in &creates {
            let ko = &h.ops[*k];
            if ko.inv.g > o.end_g() || ko.end_g() < last_sure_delete { continue; }
            // a no-op for sure?
            let noop = q.creates.iter().any(|c0| c0 != k && h.ops[*c0].ok() && h.ops[*c0].end_g() < ko.inv.g && !deletes.iter().any(|x| h.ops[*x].inv.g < ko.end_g() && h.ops[*x].end_g() > h.ops[*c0].inv.g));
            if noop { continue; }
            if let Op::QCreate { vt, retries, .. } = &ko.op { ok.push((vt.unwrap_or(plan.cfg.get("QUEUE_VISIBILITY_MS").unwrap_or(30_000)), retries.unwrap_or(plan.cfg.get("QUEUE_MAX_RETRIES").unwrap_or(5) as u32))); }
        }
        if !ok.contains(&(c.vt, c.retries)) { v.add("Q07", "options", format!("queue {} has visibility timeout {} and {} retries; it was created with one of {:?}: {}", q.name, c.vt, c.retries, ok, d(h, i))); }
    }
    // within the last, undisturbed life of the queue nothing is lost
    if h.eps.last().map(|e| e.status) == Some(os::ST_DONE) {
        let lc = creates.iter().map(|c| h.ops[*c].end_g()).max().unwrap_or(0);
        let _ = lc;
    }
}

// ------------------------------------------------------------------ reference model
#[derive(Clone)]
struct RM { tag: u64, prio: u8, att: u32, id: Option<String>, order: u64 }
#[derive(Default, Clone)]
struct RQ { vt: u64, retries: u32, pend: Vec<RM>, infl: Vec<(RM, u64)>, dlq: Vec<(RM, String)> }

/// a single client's history must be exactly that of the reference model
fn seq(plan: &Plan, h: &H, v: &mut Vs) {
    if !h.single() { return; }
    let mut qs: BTreeMap<String, RQ> = BTreeMap::new();
    let mut ord = 0u64;
    let slack = TICK + EPS + h.eps[0].slack;
    for (i, o) in h.ops.iter().enumerate() {
        if o.vague() || o.ret.is_none() { return; }
        // leases that have run out by now, in order; give up where it is not clear
        let (a, b) = (o.inv.t, o.end_t());
        for q in qs.values_mut() {
            let mut due: Vec<(RM, u64)> = vec![];
            for (m, e) in q.infl.iter() {
                if *e + slack < a { due.push((m.clone(), *e)); } else if *e <= b + 2 * MS { return; }
            }
            q.infl.retain(|x| !(x.1 + slack < a));
            due.sort_by_key(|x| x.1);
            if due.windows(2).any(|w| w[1].1 - w[0].1 < slack) && due.len() > 1 {
                // processed in one sweep: order by (lease end in ms, order of leasing)
            }
            for (mut m, _) in due { if m.att >= q.retries { q.dlq.push((m, "Timeout".into())); } else { ord += 1; m.order = ord; q.pend.push(m); } }
        }
        let bad = |v: &mut Vs, p: &str, what: String| v.add(p, "model", format!("{}: {}", what, d(h, i)));
        let n = qname(&o.op).map(|s| s.to_string());
        match (&o.op, o.r.as_ref().unwrap()) {
            (Op::QCreate { q, vt, retries }, r) => {
                if *r != Res::Ok && q.len() > crate::scen_t::LONG { return; }
                if *r != Res::Ok { bad(v, "Q07", "create failed".into()); return; }
                qs.entry(q.clone()).or_insert(RQ { vt: vt.unwrap_or(30_000), retries: retries.unwrap_or(5), ..Default::default() });
                continue;
            }
            (Op::QSnap, Res::Snap(s)) => {
                for c in s {
                    let Some(q) = qs.get(&c.q) else { bad(v, "Q01", format!("unknown queue {}", c.q)); return };
                    if (c.pending, c.inflight, c.dlq) != (q.pend.len() as u64, q.infl.len() as u64, q.dlq.len() as u64) {
                        bad(v, "Q01", format!("counts of {} should be {} waiting, {} leased, {} dead", c.q, q.pend.len(), q.infl.len(), q.dlq.len())); return;
                    }
                }
                if s.len() != qs.len() { bad(v, "Q07", "wrong set of queues".into()); return; }
                continue;
            }
            _ => {}
        }
        let Some(n) = n else { continue };
        let Some(q) = qs.get_mut(&n) else { return };
        let wrong_id = |want: &RM, got: &QMsg| want.id.as_ref().map(|x| *x != got.id).unwrap_or(false);
        match (&o.op, o.r.as_ref().unwrap()) {
            (Op::QPush { tag, prio, .. }, r) => {
                if *r != Res::Ok { bad(v, "Q01", "push failed".into()); return; }
                ord += 1;
                q.pend.push(RM { tag: *tag, prio: prio.unwrap_or(0), att: 0, id: None, order: ord });
            }
            (Op::QConsume { .. } | Op::QPop { .. }, Res::Msgs(ms)) => {
                let max = match &o.op { Op::QConsume { max, .. } => max.unwrap_or(plan.cfg.get("QUEUE_DEFAULT_BATCH_SIZE").unwrap_or(10)), _ => 1 };
                q.pend.sort_by_key(|m| (255 - m.prio, m.order));
                let k = (max as usize).min(q.pend.len());
                let take: Vec<RM> = q.pend.drain(..k).collect();
                // requeued messages of one expiry sweep may come in either order: compare as sets per priority when attempts > 0
                let want: Vec<(u64, u32)> = take.iter().map(|m| (m.tag, m.att + 1)).collect();
                let got: Vec<(u64, u32)> = ms.iter().map(|m| (m.tag.unwrap_or(0), m.att.unwrap_or_else(|| take.iter().find(|t| Some(t.tag) == m.tag).map(|t| t.att + 1).unwrap_or(0)))).collect();
                if want != got {
                    let redelivered = take.iter().chain(q.pend.iter()).any(|m| m.att > 0);
                    if redelivered { return; } // order among redelivered messages is not specified
                    bad(v, "Q03", format!("expected {:?}", want)); return;
                }
                for (mut m, g) in take.into_iter().zip(ms) {
                    if wrong_id(&m, g) { bad(v, "Q01", "id changed".into()); return; }
                    m.id = Some(g.id.clone());
                    m.att += 1;
                    q.infl.push((m, o.inv.t + q.vt * MS));
                }
            }
            (Op::QAck { .. }, Res::Bool(b)) => {
                let id = o.arg.clone();
                let had = q.infl.iter().any(|m| m.0.id == id) || q.pend.iter().any(|m| m.id == id && m.id.is_some());
                q.infl.retain(|m| m.0.id != id);
                q.pend.retain(|m| m.id.is_none() || m.id != id);
                if had != *b { bad(v, "Q02", format!("ack should be {}", had)); return; }
            }
            (Op::QNack { reason, .. }, Res::Bool(b)) => {
                let id = o.arg.clone();
                if let Some(k) = q.infl.iter().position(|m| m.0.id == id) {
                    let (mut m, _) = q.infl.remove(k);
                    if m.att >= q.retries { q.dlq.push((m, reason.clone())); } else { ord += 1; m.order = ord; q.pend.push(m); }
                    if !*b { bad(v, "Q02", "nack refused".into()); return; }
                } else if let Some(k) = q.pend.iter().position(|m| m.id.is_some() && m.id == id) {
                    if q.pend[k].att >= q.retries { let m = q.pend.remove(k); q.dlq.push((m, reason.clone())); }
                    if !*b { bad(v, "Q02", "nack refused".into()); return; }
                } else if *b { bad(v, "Q02", "nack of nothing succeeded".into()); return; }
            }
            (Op::QPeek { limit, offset, .. }, Res::Peek { total, msgs }) => {
                let want: Vec<(u64, u32, &str)> = q.dlq.iter().rev().skip(*offset as usize).take(*limit as usize).map(|(m, w)| (m.tag, m.att, w.as_str())).collect();
                let got: Vec<(u64, u32, &str)> = msgs.iter().map(|m| (m.tag.unwrap_or(0), m.att.unwrap_or(0), m.why.as_deref().unwrap_or(""))).collect();
                let to = q.dlq.iter().filter(|x| x.1 == "Timeout").count() > 1;
                if *total != q.dlq.len() as u64 || (want != got && !to) || got.len() != want.len() { bad(v, "Q04", format!("expected {} dead letters, listing {:?}", q.dlq.len(), want)); return; }
                for m in msgs { if let Some(x) = q.dlq.iter_mut().find(|x| Some(x.0.tag) == m.tag) { if x.0.id.is_some() && x.0.id.as_ref() != Some(&m.id) { bad(v, "Q01", "id changed".into()); return; } x.0.id = Some(m.id.clone()); } }
            }
            (Op::QMove { .. }, Res::Bool(b)) => {
                let id = o.arg.clone();
                let k = q.dlq.iter().position(|m| m.0.id == id);
                if k.is_some() != *b { bad(v, "Q04", format!("replay should be {}", k.is_some())); return; }
                if let Some(k) = k { let (mut m, _) = q.dlq.remove(k); m.att = 0; ord += 1; m.order = ord; q.pend.push(m); }
            }
            (Op::QDelDlq { .. }, Res::Bool(b)) => {
                let id = o.arg.clone();
                let k = q.dlq.iter().position(|m| m.0.id == id);
                if k.is_some() != *b { bad(v, "Q04", format!("delete should be {}", k.is_some())); return; }
                if let Some(k) = k { q.dlq.remove(k); }
            }
            (Op::QPurge { .. }, Res::Num(x)) => {
                if *x != q.dlq.len() as u64 { bad(v, "Q04", format!("purge should remove {}", q.dlq.len())); return; }
                q.dlq.clear();
            }
            (Op::QDump { .. }, Res::Dump { pending, inflight, dlq, exists }) => {
                let set = |l: Vec<(u64, u32)>| { let mut l = l; l.sort(); l };
                let p = set(pending.iter().map(|m| (m.tag.unwrap_or(0), m.att.unwrap_or(0))).collect());
                let f = set(inflight.iter().map(|m| (m.tag.unwrap_or(0), m.att.unwrap_or(0))).collect());
                let x = set(dlq.iter().map(|m| (m.tag.unwrap_or(0), m.att.unwrap_or(0))).collect());
                let wp = set(q.pend.iter().map(|m| (m.tag, m.att)).collect());
                let wf = set(q.infl.iter().map(|m| (m.0.tag, m.0.att)).collect());
                let wx = set(q.dlq.iter().map(|m| (m.0.tag, m.0.att)).collect());
                if !exists || p != wp || f != wf || x != wx { bad(v, "Q01", format!("contents should be waiting {:?} leased {:?} dead {:?}", wp, wf, wx)); return; }
            }
            (Op::QExists { .. }, Res::Bool(b)) => if !*b { bad(v, "Q07", "queue should exist".into()); return; },
            (_, r) => { bad(v, "Q01", format!("unexpected answer {:?}", r)); return; }
        }
    }
}
