//! A browser: asks the dashboard over a simulated connection.
use crate::client::*;
use crate::hist::{QCnt, QMsg, Res, SMsg, STop};
use crate::os;
use crate::plan::*;
use crate::world::w;
use serde_json::Value;

const SEC: u64 = 1_000_000_000;

pub struct Answer { pub status: u16, pub ctype: String, pub body: Vec<u8> }

pub fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect()
}
pub fn get(path: &str) -> Vec<u8> {
    format!("GET {} HTTP/1.1\r\nHost: localhost:8080\r\nConnection: close\r\n\r\n", path).into_bytes()
}
/// text with `\xNN` escapes
pub fn raw(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 3 < b.len() && b[i + 1] == b'x' {
            v.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(0));
            i += 4;
        } else { v.push(b[i]); i += 1; }
    }
    v
}
fn close(fd: i32) { os::net_close(fd); }

/// one request on its own connection; Err: what became of it instead
pub fn ask(req: &[u8], split: usize) -> Result<Answer, Res> {
    // a connection the system drops before the server sees it: a browser asks again
    for _ in 0..200 {
        let n = os::ABORTED.load(std::sync::atomic::Ordering::Relaxed);
        match ask1(req, split) {
            Err(Res::Lost) if os::ABORTED.load(std::sync::atomic::Ordering::Relaxed) != n => os::sleep_ns(20_000_000),
            r => return r,
        }
    }
    Err(Res::Lost)
}
fn ask1(req: &[u8], split: usize) -> Result<Answer, Res> {
    let Some(port) = w().http else { return Err(Res::Skip) };
    let t0 = os::now();
    let fd = loop {
        match os::net_connect(port) {
            Ok(f) => break f,
            Err(e) => {
                if os::now() > t0 + 20 * SEC { return Err(Res::Err(format!("connect: errno {}", e))); }
                os::sleep_ns(20_000_000);
            }
        }
    };
    let mut off = 0;
    while off < req.len() {
        let end = if off < split { split.min(req.len()) } else { req.len() };
        match os::net_send(fd, &req[off..end]) {
            Ok(n) => { off += n; if off == split { os::sleep_ns(300_000); } }
            Err(libc::EAGAIN) => { if !os::wait_fd(fd, libc::POLLOUT, os::now() + 60 * SEC) { close(fd); return Err(Res::Lost); } }
            Err(_) => break,
        }
    }
    let mut b = vec![];
    let dl = os::now() + 90 * SEC;
    let mut buf = vec![0u8; 65536];
    loop {
        match os::net_recv(fd, &mut buf) {
            Ok(0) => break,
            Ok(n) => { b.extend_from_slice(&buf[..n]); if b.len() > 64 << 20 { break; } }
            Err(libc::EAGAIN) => { if !os::wait_fd(fd, libc::POLLIN, dl) { close(fd); return Err(Res::Garbled("no answer".into())); } }
            Err(_) => break,
        }
    }
    close(fd);
    parse(&b, req.starts_with(b"HEAD ")).ok_or_else(|| if b.is_empty() { Res::Lost } else { Res::Garbled(format!("http answer {:?}", String::from_utf8_lossy(&b[..b.len().min(80)]))) })
}
fn parse(b: &[u8], bare: bool) -> Option<Answer> {
    let e = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = std::str::from_utf8(&b[..e]).ok()?;
    let mut l = head.split("\r\n");
    let status: u16 = l.next()?.split(' ').nth(1)?.parse().ok()?;
    let hs: Vec<(String, String)> = l.filter_map(|x| x.split_once(':')).map(|(a, b)| (a.trim().to_lowercase(), b.trim().to_string())).collect();
    let h = |k: &str| hs.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let rest = &b[e + 4..];
    let body = if bare { vec![] } else if let Some(n) = h("content-length") {
        let n: usize = n.parse().ok()?;
        if rest.len() != n { return None; }
        rest.to_vec()
    } else if h("transfer-encoding").as_deref() == Some("chunked") {
        let mut v = vec![];
        let mut r = rest;
        loop {
            let e = r.windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&r[..e]).ok()?.trim(), 16).ok()?;
            r = &r[e + 2..];
            if r.len() < n + 2 { return None; }
            v.extend_from_slice(&r[..n]);
            r = &r[n + 2..];
            if n == 0 { break; }
        }
        v
    } else { rest.to_vec() };
    Some(Answer { status, ctype: h("content-type").unwrap_or_default(), body })
}

/// JSON, or the error the dashboard gave
pub fn json(path: &str, split: usize) -> Result<Value, Res> {
    let a = ask(&get(path), split)?;
    if a.status != 200 { return Err(if a.status == 404 { Res::Err(format!("404 {}", String::from_utf8_lossy(&a.body))) } else { Res::Garbled(format!("status {} {}", a.status, String::from_utf8_lossy(&a.body[..a.body.len().min(200)]))) }); }
    if !a.ctype.starts_with("application/json") { return Err(Res::Garbled(format!("content type {}", a.ctype))); }
    serde_json::from_slice(&a.body).map_err(|_| Res::Garbled("not JSON".into()))
}
fn bad() -> Res { Res::Garbled("JSON of another shape".into()) }

fn qmsgs(v: &Value, dlq: bool, state: &str) -> Option<(u64, Vec<QMsg>)> {
    let total = v["total"].as_u64()?;
    let mut o = vec![];
    for m in v["messages"].as_array()? {
        let id = m["id"].as_str()?.to_string();
        let tag = parse_shown(&m["payload"]);
        let att = Some(m["attempts"].as_u64()? as u32);
        if dlq { m["created_at"].as_u64()?; o.push(QMsg { id, tag, prio: None, att, why: Some(m["failure_reason"].as_str()?.to_string()) }); }
        else {
            if m["state"].as_str()? != state { return None; }
            o.push(QMsg { id, tag, prio: Some(u8::try_from(m["priority"].as_u64()?).ok()?), att, why: None });
        }
    }
    Some((total, o))
}
fn snap(split: usize) -> Result<Vec<QCnt>, Res> {
    let v = json("/api/queue", split)?;
    let f = || -> Option<Vec<QCnt>> {
        let mut o = vec![];
        for q in v.as_array()? {
            let c = &q["config"];
            o.push(QCnt { q: q["name"].as_str()?.into(), pending: q["pending"].as_u64()?, inflight: q["inflight"].as_u64()?, dlq: q["dlq"].as_u64()?, vt: c["visibility_timeout_ms"].as_u64()?, retries: c["max_retries"].as_u64()? as u32 });
        }
        o.sort_by(|a, b| a.q.cmp(&b.q));
        Some(o)
    };
    f().ok_or_else(bad)
}
/// all pages of one listing
fn listing(q: &str, state: &str, split: usize) -> Result<(u64, Vec<QMsg>), Res> {
    let mut all: Vec<QMsg> = vec![];
    loop {
        let v = json(&format!("/api/queue/{}/messages?state={}&limit=1000&offset={}", enc(q), state, all.len()), split)?;
        let (t, m) = qmsgs(&v, state == "dlq", state).ok_or_else(bad)?;
        let n = m.len();
        all.extend(m);
        if n == 0 || all.len() as u64 >= t { return Ok((t, all)); }
    }
}
fn dump(q: &str) -> Result<Res, Res> {
    for _ in 0..20 {
        let cnt = |v: Vec<QCnt>| v.into_iter().find(|s| s.q == q).map(|s| (s.pending, s.inflight, s.dlq));
        let a = cnt(snap(0)?);
        let p = listing(q, "pending", 0);
        let f = listing(q, "inflight", 0);
        let d = listing(q, "dlq", 0);
        let b = cnt(snap(0)?);
        let (p, f, d) = match (p, f, d) {
            (Ok(p), Ok(f), Ok(d)) => (p, f, d),
            (Err(Res::Garbled(e)), _, _) | (_, Err(Res::Garbled(e)), _) | (_, _, Err(Res::Garbled(e))) => return Err(Res::Garbled(e)),
            _ => { if a.is_none() && b.is_none() { return Ok(Res::Dump { pending: vec![], inflight: vec![], dlq: vec![], exists: false }); } continue; }
        };
        if a != b || a != Some((p.0, f.0, d.0)) { continue; }
        return Ok(Res::Dump { pending: p.1, inflight: f.1, dlq: d.1, exists: true });
    }
    Ok(Res::Garbled("unstable".into()))
}
/// a limit that is there, or null
fn lim(r: &Value, a: &str, b: &str) -> Option<Option<u64>> {
    match r.get(a).or_else(|| r.get(b))? { Value::Null => Some(None), x => Some(Some(x.as_u64()?)) }
}
pub fn ms_of(s: &str) -> Option<u64> {
    // 2023-11-14T22:13:20.123+00:00
    let (d, r) = s.split_once('T')?;
    let r = r.strip_suffix("+00:00").or_else(|| r.strip_suffix('Z'))?;
    let d: Vec<i64> = d.split('-').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    let (hms, frac) = r.split_once('.').unwrap_or((r, "0"));
    let t: Vec<i64> = hms.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    if d.len() != 3 || t.len() != 3 { return None; }
    let (y, m) = if d[1] <= 2 { (d[0] - 1, d[1] + 9) } else { (d[0], d[1] - 3) };
    let days = 365 * y + y / 4 - y / 100 + y / 400 + (m * 306 + 5) / 10 + d[2] - 1 - 719_468;
    let ms: i64 = format!("{:0<3}", frac)[..3].parse().ok()?;
    u64::try_from(((days * 24 + t[0]) * 60 + t[1]) * 60_000 + t[2] * 1000 + ms).ok()
}
pub fn smsgs(v: &Value) -> Option<Vec<SMsg>> {
    let mut o = vec![];
    for m in v["messages"].as_array()? {
        o.push(SMsg { seq: m["seq"].as_u64()?, tag: parse_shown(&m["payload"]), ts: ms_of(m["timestamp"].as_str()?)? });
    }
    // newest first on the page
    o.reverse();
    Some(o)
}

pub fn web(op: &Op, split: usize) -> Res {
    match web2(op, split) { Ok(r) | Err(r) => r }
}
fn web2(op: &Op, split: usize) -> Result<Res, Res> {
    Ok(match op {
        Op::QSnap => Res::Snap(snap(split)?),
        Op::QDump { q } => dump(q)?,
        Op::QPeek { q, limit, offset } => {
            let v = json(&format!("/api/queue/{}/messages?state=dlq&limit={}&offset={}", enc(q), limit, offset), split)?;
            let (total, msgs) = qmsgs(&v, true, "dlq").ok_or_else(bad)?;
            Res::Peek { total, msgs }
        }
        Op::SRead { s, from, limit } => {
            let v = match json(&format!("/api/stream/{}/messages?from={}&limit={}", enc(s), from, limit), split) {
                // a topic that is not there has nothing to read
                Err(Res::Err(e)) if e.starts_with("404") => return Ok(Res::SMsgs(vec![])),
                v => v?,
            };
            let m = smsgs(&v).ok_or_else(bad)?;
            if v["from_seq"].as_u64() != Some(*from) || v["limit"].as_u64() != Some(*limit) { return Err(Res::Garbled("another page than asked for".into())); }
            v["last_seq"].as_u64().ok_or_else(bad)?;
            Res::SMsgs(m)
        }
        Op::SSnap => {
            let v = json("/api/stream", split)?;
            let f = || -> Option<Vec<STop>> {
                let mut o = vec![];
                for t in v["topics"].as_array()? {
                    let mut groups = vec![];
                    for g in t["groups"].as_array()? { groups.push((g["id"].as_str()?.to_string(), g["ack_floor"].as_u64()?, g["pending_count"].as_u64()?)); }
                    groups.sort();
                    let r = &t["config"]["retention"];
                    if !r.is_object() { return None; }
                    o.push(STop { s: t["name"].as_str()?.into(), last: t["last_seq"].as_u64()?, groups, age: lim(r, "maxAgeMs", "max_age_ms")?, bytes: lim(r, "maxBytes", "max_bytes")? });
                }
                o.sort_by(|a, b| a.s.cmp(&b.s));
                Some(o)
            };
            Res::SSnap(f().ok_or_else(bad)?)
        }
        Op::PScan => {
            let v = json("/api/pubsub?limit=500", split)?;
            let f = || -> Option<Res> {
                let mut topics = vec![];
                for t in v["topics"].as_array()? {
                    let r = &t["retained_value"];
                    // an empty retained payload shows as null, too: do not tell
                    let shown = if r.is_null() { None } else { Some(parse_shown(r)) };
                    topics.push((t["full_path"].as_str()?.to_string(), t["subscribers"].as_u64()?, shown));
                }
                let mut wild = vec![];
                for k in ["multi_level", "single_level"] {
                    for x in v["wildcards"][k].as_array()? { wild.push((x["pattern"].as_str()?.to_string(), x["client_id"].as_str()?.to_string())); }
                }
                wild.sort();
                Some(Res::Scan { clients: v["active_clients"].as_u64()?, topics, wild })
            };
            f().ok_or_else(bad)?
        }
        Op::KScan => {
            let v = json("/api/store?limit=1000000", split)?;
            let f = || -> Option<Res> {
                let mut e = vec![];
                for k in v["keys"].as_array()? {
                    let x = k["exp_at"].as_str()?;
                    if x != "Never" { ms_of(x)?; }
                    e.push((k["key"].as_str()?.to_string(), parse_shown(&k["value"])));
                }
                e.sort();
                Some(Res::KScan { total: v["total"].as_u64()?, entries: e })
            };
            f().ok_or_else(bad)?
        }
        _ => Res::Skip,
    })
}
/// one page as the dashboard's own pages ask for it
pub fn page_path(what: &str, name: &str, from: Option<u64>, off: Option<u64>, lim: Option<u64>, find: Option<&str>) -> String {
    let mut p: Vec<String> = vec![];
    let base = match what {
        "stream" => format!("/api/stream/{}/messages", enc(name)),
        "store" => "/api/store".into(),
        "pubsub" => "/api/pubsub".into(),
        s => { p.push(format!("state={}", s)); format!("/api/queue/{}/messages", enc(name)) }
    };
    if let Some(x) = from { p.push(format!("from={}", x)); }
    if let Some(x) = off { p.push(format!("offset={}", x)); }
    if let Some(x) = lim { p.push(format!("limit={}", x)); }
    if let Some(x) = find { p.push(format!("search={}", enc(x))); }
    if p.is_empty() { base } else { format!("{}?{}", base, p.join("&")) }
}
pub fn page(op: &Op, split: usize) -> Res {
    let Op::HPage { what, name, from, off, lim, find } = op else { return Res::Skip };
    match ask(&get(&page_path(what, name, *from, *off, *lim, find.as_deref())), split) {
        Ok(a) => Res::Http { status: a.status, body: String::from_utf8_lossy(&a.body).to_string() },
        Err(r) => r,
    }
}
pub fn odd(req: &str, split: usize) -> Res {
    match ask(&raw(req), split) {
        Ok(a) => Res::Http { status: a.status, body: String::from_utf8_lossy(&a.body[..a.body.len().min(300)]).to_string() },
        Err(r) => r,
    }
}
