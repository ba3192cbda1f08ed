//! D02: a disk that fails while the server starts costs availability, never data.
//! The first epoch leaves a known state behind, the last one shows what became of it.
use crate::gen::MS;
use crate::hist::*;
use crate::hview::*;
use crate::os;
use crate::plan::*;
use crate::runner::RunOut;
use std::collections::{BTreeMap, BTreeSet};

fn d(h: &H, o: usize) -> String {
    let x = &h.ops[o];
    format!("[epoch {} client {} op {} {:?} -> {} @{:.3}..{:.3}ms]", x.ep, x.c, x.i, x.op,
        match &x.r { None => "no answer".into(), Some(r) => format!("{:?}", r).chars().take(260).collect::<String>() }, x.inv.t as f64 / 1e6, x.ret.map(|p| p.t as f64 / 1e6).unwrap_or(-1.0))
}
/// the server may stay down in this epoch
pub fn bad_start(plan: &Plan, ep: usize) -> bool { plan.scen.starts_with("b-") && plan.epochs[ep].early && plan.epochs[ep].io().next().is_some() }

pub fn check(plan: &Plan, h: &H, out: &RunOut, v: &mut Vs) {
    let mut bad = |kind: &str, msg: String| v.add(&plan.prop, kind, msg);
    for (ep, e) in out.epochs.iter().enumerate() {
        if matches!(e.status, os::ST_DEADLOCK | os::ST_HORIZON) { bad("stuck", format!("epoch {}: nothing moves any more, although the disk works again", ep)); }
    }
    if !h.complete(plan) { return; }
    let last = h.eps.len() - 1;
    let ops = |ep: usize, c: u32| h.ops.iter().enumerate().filter(move |(_, o)| o.ep == ep && o.c == c).map(|(i, _)| i).collect::<Vec<_>>();
    let first = ops(0, 1000);
    let end = ops(last, 1000 + last as u32);
    let mid: Vec<usize> = (0..h.ops.len()).filter(|i| h.ops[*i].ep > 0 && h.ops[*i].ep < last).collect();
    let cfg = |k: &str, n: u64| plan.cfg.get(k).unwrap_or(n) * MS;
    let durable = |i: usize, win: u64| { let o = &h.ops[i]; o.fin() && o.end_t() < crate::ost::must_before(plan, h, o.ep, win) };

    // ---------------------------------------------------------------- queues
    let qs: BTreeSet<&str> = h.ops.iter().filter_map(|o| if let Op::QCreate { q, .. } = &o.op { Some(q.as_str()) } else { None }).collect();
    for q in qs {
        let win = cfg("QUEUE_DEFAULT_FLUSH_MS", 50);
        let dump = |l: &[usize]| l.iter().rev().copied().find(|i| matches!(&h.ops[*i].op, Op::QDump { q: x } if x == q) && matches!(h.ops[*i].r, Some(Res::Dump { .. })));
        let (Some(a), Some(b)) = (dump(&first), dump(&end)) else { continue };
        let places = |i: usize| -> Vec<(u64, &'static str, u32, String)> {
            let Some(Res::Dump { pending, inflight, dlq, .. }) = &h.ops[i].r else { return vec![] };
            let f = |l: &Vec<QMsg>, w: &'static str| l.iter().map(|m| (m.tag.unwrap_or(0), w, m.att.unwrap_or(0), m.id.clone())).collect::<Vec<_>>();
            let mut x = f(pending, "pending");
            x.extend(f(inflight, "inflight"));
            x.extend(f(dlq, "dead-lettered"));
            x
        };
        let (pa, pb) = (places(a), places(b));
        if matches!(h.ops[b].r, Some(Res::Dump { exists: false, .. })) { bad("q-gone", format!("queue {} is gone: {}", q, d(h, b))); continue; }
        for m in &pa {
            match pb.iter().find(|x| x.0 == m.0) {
                None => bad("q-lost", format!("queue {}: message {} was {} before the disk failed and is gone: {}", q, m.0, m.1, d(h, b))),
                Some(x) if x != m => bad("q-changed", format!("queue {}: message {:?} became {:?}: {}", q, m, x, d(h, b))),
                _ => {}
            }
        }
        let mut seen = BTreeSet::new();
        for m in &pb {
            if !seen.insert(m.0) { bad("q-twice", format!("queue {}: message {} is there twice: {}", q, m.0, d(h, b))); }
            if pa.iter().any(|x| x.0 == m.0) { continue; }
            if !mid.iter().any(|i| matches!(&h.ops[*i].op, Op::QPush { q: x, tag, .. } if x == q && *tag == m.0) && (h.ops[*i].ok() || h.ops[*i].vague())) {
                bad("q-ghost", format!("queue {}: message {} was never accepted: {}", q, m.0, d(h, b)));
            }
        }
        for i in &mid {
            let Op::QPush { q: x, tag, .. } = &h.ops[*i].op else { continue };
            if x == q && h.ops[*i].ok() && durable(*i, win) && !pb.iter().any(|m| m.0 == *tag) {
                bad("q-lost-new", format!("queue {}: message {} is gone: {} {}", q, tag, d(h, *i), d(h, b)));
            }
        }
        // every message that was shown is one of those
        for i in &mid {
            if let (Op::QPeek { q: x, .. }, Some(Res::Peek { msgs, .. })) = (&h.ops[*i].op, &h.ops[*i].r) {
                for m in msgs { if x == q && !pa.iter().any(|y| Some(y.0) == m.tag && y.1 == "dead-lettered") { bad("q-peek", format!("queue {}: {} lists a message that was not dead-lettered", q, d(h, *i))); } }
            }
        }
        // nothing takes messages in between: a queue that is served at all is served whole
        for i in &mid {
            if !matches!(&h.ops[*i].op, Op::QDump { q: x } if x == q) || !matches!(h.ops[*i].r, Some(Res::Dump { exists: true, .. })) { continue; }
            let pm = places(*i);
            if let Some(m) = pa.iter().find(|m| !pm.contains(m)) { bad("q-part", format!("queue {}: served without message {:?}, which is there: {}", q, m, d(h, *i))); }
            for p in &mid {
                let Op::QPush { q: x, tag, .. } = &h.ops[*p].op else { continue };
                if x == q && h.ops[*p].ok() && (h.ops[*p].ep == h.ops[*i].ep && h.ops[*p].end_g() < h.ops[*i].inv.g || h.ops[*p].ep < h.ops[*i].ep && durable(*p, win)) && !pm.iter().any(|m| m.0 == *tag) {
                    bad("q-part", format!("queue {}: served without message {}, which is there: {} {}", q, tag, d(h, *p), d(h, *i)));
                }
            }
        }
        let opts = |l: &[usize]| l.iter().rev().find_map(|i| if let Some(Res::Snap(s)) = &h.ops[*i].r { s.iter().find(|c| c.q == q).map(|c| (c.vt, c.retries)) } else { None });
        if let (Some(x), Some(y)) = (opts(&first), opts(&end)) { if x != y { bad("q-options", format!("queue {}: options (visibility, retries) {:?} became {:?}", q, x, y)); } }
    }

    // ---------------------------------------------------------------- streams
    let ss: BTreeSet<&str> = h.ops.iter().filter_map(|o| if let Op::SCreate { s, .. } = &o.op { Some(s.as_str()) } else { None }).collect();
    for s in ss {
        let win = cfg("STREAM_DEFAULT_FLUSH_MS", 50);
        let all = |l: &[usize]| -> BTreeMap<u64, Option<u64>> { l.iter().filter_map(|i| match (&h.ops[*i].op, &h.ops[*i].r) { (Op::SRead { s: x, .. }, Some(Res::SMsgs(m))) if x == s => Some(m), _ => None }).flatten().map(|m| (m.seq, m.tag)).collect() };
        let top = |l: &[usize]| l.iter().rev().find_map(|i| if let Some(Res::SSnap(t)) = &h.ops[*i].r { Some((*i, t.iter().find(|t| t.s == s).cloned())) } else { None });
        let (Some((_, Some(ta))), Some((ib, tb))) = (top(&first), top(&end)) else { continue };
        let Some(tb) = tb else { bad("s-gone", format!("stream {} is gone: {}", s, d(h, ib))); continue };
        let (a, b) = (all(&first), all(&end));
        let pubs: Vec<usize> = mid.iter().copied().filter(|i| matches!(&h.ops[*i].op, Op::SPub { s: x, .. } if x == s)).collect();
        let tag = |i: usize| if let Op::SPub { tag, .. } = &h.ops[i].op { *tag } else { 0 };
        let num = |i: usize| if let Some(Res::Num(n)) = h.ops[i].r { Some(n) } else { None };
        if (ta.age, ta.bytes) != (tb.age, tb.bytes) { bad("s-options", format!("stream {}: limits {:?} became {:?}", s, (ta.age, ta.bytes), (tb.age, tb.bytes))); }
        for (n, t) in &a { if b.get(n) != Some(t) { bad("s-lost", format!("stream {}: number {} was event {:?} before the disk failed and is {:?} now: {}", s, n, t, b.get(n), d(h, ib))); break; } }
        for (k, n) in b.keys().enumerate() { if *n != k as u64 + 1 { bad("s-hole", format!("stream {}: numbers {:?}", s, b.keys().collect::<Vec<_>>())); break; } }
        for (n, t) in &b {
            if a.contains_key(n) { continue; }
            if !pubs.iter().any(|p| Some(tag(*p)) == *t && (num(*p) == Some(*n) || h.ops[*p].vague())) { bad("s-ghost", format!("stream {}: number {} is event {:?}, which was not published under it", s, n, t)); }
        }
        for p in &pubs {
            let Some(n) = num(*p) else { continue };
            if let Some(t) = a.get(&n) { bad("s-number", format!("stream {}: number {} given out again, it is event {:?}: {}", s, n, t, d(h, *p))); }
            for p2 in &pubs {
                if p2 == p || num(*p2) != Some(n) { continue; }
                if h.ops[*p].ep == h.ops[*p2].ep || durable(*p.min(p2), win) { bad("s-number", format!("stream {}: number {} given out twice: {} {}", s, n, d(h, *p), d(h, *p2))); }
            }
            if durable(*p, win) && b.get(&n) != Some(&Some(tag(*p))) { bad("s-lost-new", format!("stream {}: event {} is gone: {}", s, n, d(h, *p))); }
        }
        for i in &mid {
            let (Op::SRead { s: x, from, .. }, Some(Res::SMsgs(ms))) = (&h.ops[*i].op, &h.ops[*i].r) else { continue };
            if x != s { continue; }
            shown(h, *i, ms, Some(*from), &a, &pubs, &mut bad, s);
        }
        for i in &mid {
            let Some(Res::SSnap(t)) = &h.ops[*i].r else { continue };
            if let Some(x) = t.iter().find(|x| x.s == s) { if x.last < ta.last { bad("s-part", format!("stream {}: served with {} of {} events: {}", s, x.last, ta.last, d(h, *i))); } }
        }
        // groups
        for (g, fa, _) in &ta.groups {
            let fb = tb.groups.iter().find(|x| x.0 == *g).map(|x| x.1).unwrap_or(0);
            let acks = |o: &O| -> Option<u64> { match &o.op { Op::SAck { s: x, g: y, .. } if x == s && y == g => o.arg.as_deref().and_then(|a| a.split(' ').next()).and_then(|a| a.parse().ok()), _ => None } };
            let acked: BTreeSet<u64> = mid.iter().filter_map(|i| acks(&h.ops[*i])).chain(1..=*fa).chain(first.iter().filter_map(|i| acks(&h.ops[*i]))).collect();
            if fb < *fa { bad("g-back", format!("stream {} group {}: position {} became {}: {}", s, g, fa, fb, d(h, ib))); }
            if let Some(n) = (1..=fb).find(|n| !acked.contains(n)) { bad("g-ahead", format!("stream {} group {}: position {} although event {} was never acked: {}", s, g, fb, n, d(h, ib))); }
            for i in &mid {
                match (&h.ops[*i].op, &h.ops[*i].r) {
                    (Op::SJoin { s: x, g: y }, Some(Res::Joined { floor, .. })) if x == s && y == g => if *floor < *fa { bad("g-back", format!("stream {} group {}: position {} became {}: {}", s, g, fa, floor, d(h, *i))); },
                    (Op::SFetch { s: x, g: y, .. }, Some(Res::SMsgs(ms))) if x == s && y == g => {
                        if let Some(m) = ms.iter().find(|m| m.seq <= *fa) { bad("g-again", format!("stream {} group {}: event {} delivered again although everything up to {} had been acked: {}", s, g, m.seq, fa, d(h, *i))); }
                        shown(h, *i, ms, None, &a, &pubs, &mut bad, s);
                    }
                    _ => {}
                }
            }
            if !end.iter().any(|i| matches!(&h.ops[*i].op, Op::SFetch { s: x, g: y, .. } if x == s && y == g)) { continue; }
            let got: BTreeSet<u64> = end.iter().filter_map(|i| match (&h.ops[*i].op, &h.ops[*i].r) { (Op::SFetch { s: x, g: y, .. }, Some(Res::SMsgs(m))) if x == s && y == g => Some(m), _ => None }).flatten().map(|m| m.seq).collect();
            let t = tb.last;
            for n in fb + 1..=t { if !got.contains(&n) { bad("g-skipped", format!("stream {} group {}: at position {} of {} event {} is not delivered", s, g, fb, t, n)); break; } }
        }
    }

    // ---------------------------------------------------------------- retained messages
    let ts: BTreeSet<&str> = h.ops.iter().filter_map(|o| if let Op::Pub { t, .. } = &o.op { Some(t.as_str()) } else { None }).collect();
    let flush = cfg("PUBSUB_RETAINED_FLUSH_MS", 500);
    for t in ts {
        let val = |i: usize| -> Option<u64> { if let Op::Pub { tag, size, .. } = &h.ops[i].op { if *size == 0 { None } else { Some(*tag) } } else { None } };
        let is = |i: &usize| matches!(&h.ops[*i].op, Op::Pub { t: x, .. } if x == t) && (h.ops[*i].ok() || h.ops[*i].vague());
        let done = |o: &O| if o.ret.is_some() && !o.vague() { o.end_g() } else { u64::MAX };
        let look = |i: usize| if let Some(Res::Got(m)) = &h.ops[i].r { m.iter().find(|m| m.0 == t).map(|m| m.1) } else { None };
        // what may be there: none of the publishes, or one of them
        let mut may: Vec<Option<usize>> = vec![first.iter().copied().filter(is).last()];
        for ep in 1..=last {
            let ws: Vec<usize> = (0..h.ops.len()).filter(|i| h.ops[*i].ep == ep).filter(is).collect();
            for i in (0..h.ops.len()).filter(|i| h.ops[*i].ep == ep && matches!(&h.ops[*i].op, Op::PProbe { t: x } if x == "#") && matches!(h.ops[*i].r, Some(Res::Got(_)))) {
                let o = &h.ops[i];
                let before = ws.iter().any(|w| done(&h.ops[*w]) < o.inv.g);
                let mut ok: Vec<Option<u64>> = vec![];
                if !before {
                    ok.extend(may.iter().map(|w| w.and_then(val)));
                    // not read yet
                    if ep < last { ok.push(None); }
                }
                for w in &ws { if h.ops[*w].inv.g < o.end_g() && !ws.iter().any(|x| h.ops[*x].inv.g > done(&h.ops[*w]) && done(&h.ops[*x]) < o.inv.g) { ok.push(val(*w)); } }
                let got = match look(i) { None | Some(Some(0)) => None, Some(Some(g)) => Some(g), Some(None) => { bad("p-garbled", format!("topic {}: {}", t, d(h, i))); continue } };
                if !ok.contains(&got) { bad("p-wrong", format!("topic {}: {:?} is retained, but only {:?} may be: {}", t, got, ok, d(h, i))); }
            }
            let over = |w: usize| ws.iter().any(|x| done(&h.ops[w]) < h.ops[*x].inv.g && durable(*x, flush));
            if ws.iter().any(|x| durable(*x, flush)) { may.clear(); }
            may.extend(ws.iter().filter(|w| !over(**w)).map(|w| Some(*w)));
        }
    }
}

/// a read must be a run of the events published, from where it was asked for
fn shown(h: &H, i: usize, ms: &[SMsg], from: Option<u64>, a: &BTreeMap<u64, Option<u64>>, pubs: &[usize], bad: &mut dyn FnMut(&str, String), s: &str) {
    if let (Some(f), Some(m)) = (from, ms.first()) {
        if m.seq != f.max(1) { bad("s-skipped", format!("stream {}: asked from {} but got {} first: {}", s, f, m.seq, d(h, i))); }
        for w in ms.windows(2) { if w[1].seq != w[0].seq + 1 { bad("s-hole", format!("stream {}: numbers are not consecutive: {}", s, d(h, i))); break; } }
    }
    for m in ms {
        let ok = match a.get(&m.seq) {
            Some(t) => *t == m.tag,
            None => pubs.iter().any(|p| matches!(&h.ops[*p].op, Op::SPub { tag, .. } if Some(*tag) == m.tag) && (h.ops[*p].vague() || matches!(h.ops[*p].r, Some(Res::Num(n)) if n == m.seq))),
        };
        if !ok { bad("s-wrong", format!("stream {}: number {} is not event {:?}: {}", s, m.seq, m.tag, d(h, i))); }
    }
}
