//! The dashboard (V01): what it shows, how it pages and searches, and that it answers.
use crate::gen::{MS, S};
use crate::hist::*;
use crate::hview::*;
use crate::plan::*;
use crate::web;
use serde_json::Value;

fn d(h: &H, o: usize) -> String {
    let x = &h.ops[o];
    format!("[epoch {} client {} op {} {:?} -> {} @{:.3}..{:.3}ms]", x.ep, x.c, x.i, x.op,
        match &x.r { None => "no answer".into(), Some(r) => format!("{:?}", r).chars().take(300).collect::<String>() }, x.inv.t as f64 / 1e6, x.ret.map(|p| p.t as f64 / 1e6).unwrap_or(-1.0))
}
const SOON: u64 = 5 * S;

pub fn check(plan: &Plan, h: &H, v: &mut Vs) {
    for (i, o) in h.ops.iter().enumerate().filter(|x| x.1.web) { answered(plan, h, i, o, v); }
    // pages, in the quiet after everything is done
    let drv = |o: &O| o.c == 1000 + o.ep as u32;
    for ep in 0..h.eps.len() {
        let l: Vec<usize> = (0..h.ops.len()).filter(|i| h.ops[*i].ep == ep && drv(&h.ops[*i]) && h.ops[*i].inv.g > h.eps[ep].clients_done_g).collect();
        let mut k = 0;
        while k < l.len() {
            let Op::HPage { what, name, find, lim, .. } = &h.ops[l[k]].op else { k += 1; continue };
            let mut e = k;
            while e < l.len() && matches!(&h.ops[l[e]].op, Op::HPage { what: w, name: n, find: f, lim: m, .. } if w == what && n == name && f == find && m == lim) { e += 1; }
            // the full listing on both sides must be the same
            let full = |i: usize| -> Option<&Res> {
                let o = &h.ops[i];
                let fits = match (&o.op, what.as_str()) {
                    (Op::QDump { q }, "pending" | "inflight" | "dlq") => q == name,
                    (Op::SRead { s, from: 1, limit }, "stream") => s == name && *limit >= 500,
                    (Op::KScan, "store") | (Op::PScan, "pubsub") => true,
                    _ => false,
                };
                if fits { o.r.as_ref() } else { None }
            };
            let before = l[..k].iter().rev().find_map(|i| full(*i).map(|r| (*i, r)));
            let after = l[e..].iter().find_map(|i| full(*i).map(|r| (*i, r)));
            if let (Some((_, a)), Some((_, b))) = (before, after) { if a == b { pages(h, a, &l[k..e], v); } }
            k = e;
        }
    }
}

fn answered(plan: &Plan, h: &H, i: usize, o: &O, v: &mut Vs) {
    let e = &h.eps[o.ep];
    // refused connections keep a browser out for a while
    let net: u64 = plan.epochs[o.ep].disk.iter().filter(|f| f.classes & crate::os::C_NET != 0).map(|f| f.to.min(1 << 50) + 2 * S).sum();
    let by = o.inv.t.saturating_add(SOON + e.slack + net);
    let end = if o.fin() { o.end_t() } else { u64::MAX };
    if end > by && e.end_t > by {
        // a connection may be reset by the fault that hit it
        v.add("V01", "unanswered", format!("the dashboard gave no answer within {} ms: {}", (by - o.inv.t) / MS, d(h, i)));
        return;
    }
    match &o.r {
        Some(Res::Garbled(x)) if x != "unstable" => v.add("V01", "garbled", format!("the dashboard answered with something unreadable ({}): {}", x, d(h, i))),
        Some(Res::Lost) if net == 0 && !matches!(o.op, Op::Http { .. }) => v.add("V01", "dropped", format!("the dashboard closed the connection: {}", d(h, i))),
        Some(Res::Err(x)) if !x.starts_with("404") && net == 0 => v.add("V01", "unreachable", d(h, i)),
        Some(Res::Http { status, .. }) if *status >= 500 => v.add("V01", "server-error", format!("status {}: {}", status, d(h, i))),
        Some(Res::Http { status, .. }) if *status != 200 && matches!(o.op, Op::HPage { .. }) => {
            let Op::HPage { what, name, .. } = &o.op else { return };
            // only what is not there may be missing
            let gone = h.ops.iter().any(|p| matches!(&p.op, Op::QDelete { q: s } | Op::SDelete { s } if s == name));
            let there = h.ops.iter().any(|p| p.ep == o.ep && p.end_g() < o.inv.g && p.ok() && matches!(&p.op, Op::QCreate { q: s, .. } | Op::SCreate { s, .. } if s == name));
            if (!gone && there) || matches!(what.as_str(), "store" | "pubsub") { v.add("V01", "missing", format!("status {}: {}", status, d(h, i))); }
        }
        _ => {}
    }
    // the messages of a page are of one state of the stream
    if let (Op::SRead { .. }, Some(Res::SMsgs(m))) = (&o.op, &o.r) {
        if m.iter().any(|x| x.tag.is_none()) { v.add("V01", "altered", format!("an event is shown with a payload nobody published: {}", d(h, i))); }
    }
    let shown: Vec<&QMsg> = match &o.r { Some(Res::Dump { pending, inflight, dlq, .. }) => pending.iter().chain(inflight).chain(dlq).collect(), Some(Res::Peek { msgs, .. }) => msgs.iter().collect(), _ => vec![] };
    if shown.iter().any(|m| m.tag.is_none()) { v.add("V01", "altered", format!("a message is shown with a payload nobody pushed: {}", d(h, i))); }
}

/// what a search sees of a listed thing
fn text(h: &H, tag: Option<u64>) -> Option<String> {
    let t = tag?;
    h.ops.iter().find_map(|o| match &o.op { Op::QPush { tag, size, .. } if *tag == t => Some(shown_text(*tag, *size)), _ => None })
}
fn pages(h: &H, full: &Res, group: &[usize], v: &mut Vs) {
    let Op::HPage { what, find, .. } = &h.ops[group[0]].op else { return };
    let hit = |s: &str| find.as_ref().map(|f| s.contains(f.as_str())).unwrap_or(true);
    // an item: what identifies it, and what is shown of it
    let mut want: Vec<(String, String)> = vec![];
    let mut exact = true;
    match (full, what.as_str()) {
        (Res::Dump { pending, inflight, dlq, exists: true }, w) => {
            let l = match w { "pending" => pending, "inflight" => inflight, _ => dlq };
            for m in l {
                if w != "dlq" && find.is_some() { let Some(t) = text(h, m.tag) else { return }; if !hit(&t) { continue; } }
                want.push((m.id.clone(), format!("{:?} {:?} {:?} {:?}", m.tag, if w == "dlq" { None } else { m.prio }, m.att, m.why)));
            }
        }
        (Res::SMsgs(l), "stream") => for m in l { want.push((m.seq.to_string(), format!("{:?} {}", m.tag, m.ts))); },
        (Res::KScan { entries, .. }, "store") => { exact = false; for (k, t) in entries { if hit(k) { want.push((k.clone(), format!("{:?}", t))); } } }
        (Res::Scan { topics, .. }, "pubsub") => for (t, n, r) in topics { if hit(t) { want.push((t.clone(), format!("{} {:?}", n, r))); } },
        _ => return,
    }
    let mut union: Vec<(String, String)> = vec![];
    let mut next = 0u64;
    let mut whole = true;
    let mut step = 0;
    for i in group {
        let o = &h.ops[*i];
        let Op::HPage { from, off, lim, .. } = &o.op else { return };
        let Some(Res::Http { status: 200, body }) = &o.r else { whole = false; continue };
        let bad = |v: &mut Vs, k: &str, m: String| v.add("V01", k, format!("{}: {}", m, d(h, *i)));
        let Ok(j) = serde_json::from_str::<Value>(body) else { bad(v, "garbled", "not JSON".into()); return };
        let Some(got) = items(what, &j) else { bad(v, "garbled", "JSON of another shape".into()); return };
        let offset = off.unwrap_or(0);
        if what == "stream" {
            let last = want.last().and_then(|x| x.0.parse::<u64>().ok()).unwrap_or(0);
            let shown = lim.unwrap_or(50).min(500);
            if j["last_seq"].as_u64() != Some(last) { bad(v, "total", format!("the last event is {}", last)); return; }
            let first = from.unwrap_or_else(|| last.saturating_sub(j["limit"].as_u64().unwrap_or(1).saturating_sub(1)).max(1));
            if from.is_none() && j["from_seq"].as_u64() != Some(first) { bad(v, "page", format!("the last page starts at {}", first)); return; }
            let mut w: Vec<(String, String)> = want.iter().filter(|x| x.0.parse::<u64>().unwrap() >= first).take(if lim.map(|l| l <= 500).unwrap_or(false) { shown as usize } else { got.len() }).cloned().collect();
            w.reverse();
            if w != got { bad(v, "page", format!("the page should hold {:?}, not {:?}", brief(&w), brief(&got))); return; }
            // without a limit, the newest are there
            if from.is_none() && lim.map(|l| l > 0).unwrap_or(true) && last > 0 && got.first().map(|g| g.0.clone()) != Some(last.to_string()) { bad(v, "page", "the newest event is not on the last page".into()); return; }
            continue;
        }
        let total = j[if what == "pubsub" { "total_topics" } else { "total" }].as_u64();
        if exact && total != Some(want.len() as u64) { bad(v, "total", format!("the total should be {}", want.len())); return; }
        if exact {
            let rest = want.iter().skip(offset.min(usize::MAX as u64) as usize);
            let w: Vec<(String, String)> = if lim.map(|l| l <= 500).unwrap_or(false) { rest.take(lim.unwrap() as usize).cloned().collect() } else { rest.take(got.len()).cloned().collect() };
            if w != got { bad(v, "page", format!("the page should hold {:?}, not {:?}", brief(&w), brief(&got))); return; }
            if lim.is_none() && got.is_empty() && offset < want.len() as u64 { bad(v, "page", "the page is empty".into()); return; }
        } else {
            for g in &got { if !want.contains(g) { bad(v, "page", format!("{:?} does not belong on this page", g)); return; } }
            if got.len() as u64 > lim.unwrap_or(u64::MAX) { bad(v, "page", format!("{} entries", got.len())); return; }
            expiry(h, *i, &j, v);
        }
        if offset == next && lim.map(|l| l > 0).unwrap_or(false) { next += lim.unwrap(); step += 1; for g in got { union.push(g); } } else { whole = false; }
    }
    if exact || !whole || step == 0 { return; }
    // pages of a listing in no particular order: together they hold everything once
    let i = *group.last().unwrap();
    let total = match &h.ops[i].r { Some(Res::Http { body, .. }) => serde_json::from_str::<Value>(body).ok().and_then(|j| j["total"].as_u64()).unwrap_or(u64::MAX), _ => return };
    if next < total { return; }
    let mut u = union.clone();
    u.sort();
    let mut w = want.clone();
    w.sort();
    if u != w { v.add("V01", "page", format!("all pages together hold {:?}, not {:?}: {}", brief(&u), brief(&w), d(h, i))); }
}
fn brief(l: &[(String, String)]) -> Vec<&str> { l.iter().take(12).map(|x| x.0.as_str()).collect() }

fn items(what: &str, j: &Value) -> Option<Vec<(String, String)>> {
    let mut o = vec![];
    match what {
        "stream" => for m in web::smsgs(j)?.into_iter().rev() { o.push((m.seq.to_string(), format!("{:?} {}", m.tag, m.ts))); },
        "store" => for k in j["keys"].as_array()? { o.push((k["key"].as_str()?.into(), format!("{:?}", parse_shown(&k["value"])))); },
        "pubsub" => for t in j["topics"].as_array()? {
            let r = &t["retained_value"];
            let r = if r.is_null() { None } else { Some(parse_shown(r)) };
            o.push((t["full_path"].as_str()?.into(), format!("{} {:?}", t["subscribers"].as_u64()?, r)));
        },
        w => for m in j["messages"].as_array()? {
            let tag = parse_shown(&m["payload"]);
            let att = Some(m["attempts"].as_u64()? as u32);
            let (prio, why) = if w == "dlq" { (None, Some(m["failure_reason"].as_str()?.to_string())) } else { (Some(m["priority"].as_u64()? as u8), None) };
            if w != "dlq" && m["state"].as_str() != Some(w) { return None; }
            o.push((m["id"].as_str()?.into(), format!("{:?} {:?} {:?} {:?}", tag, prio, att, why)));
        },
    }
    Some(o)
}

/// when an entry is said to expire
fn expiry(h: &H, i: usize, j: &Value, v: &mut Vs) {
    let o = &h.ops[i];
    let Some(ret) = o.ret else { return };
    let took = ret.t - o.inv.t;
    for k in j["keys"].as_array().into_iter().flatten() {
        let (Some(key), Some(e)) = (k["key"].as_str(), k["exp_at"].as_str()) else { continue };
        let sets: Vec<&O> = h.ops.iter().filter(|p| matches!(&p.op, Op::KSet { k, .. } if k == key)).collect();
        if sets.len() != 1 || !sets[0].ok() { continue; }
        let Op::KSet { ttl: Some(ttl), .. } = &sets[0].op else { continue };
        if *ttl == 0 || *ttl > 1 << 30 { continue; }
        let Some(ms) = web::ms_of(e) else { v.add("V01", "expiry", format!("{:?} is no time: {}", e, d(h, i))); return };
        let lo = (sets[0].inv.real / MS + ttl * 1000).saturating_sub(1);
        let hi = (sets[0].ret.unwrap().real + took) / MS + ttl * 1000 + 1;
        if ms < lo || ms > hi { v.add("V01", "expiry", format!("{:?} is shown to expire at {} but expires between {} and {} (ms): {}", key, ms, lo, hi, d(h, i))); return; }
    }
}
