//! What one simulated run does: configuration, client programs, faults, schedule.
use crate::os::{ClockJump, CrashAt, DiskFault, Rng, Sched};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub scen: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub epochs: Vec<Epoch>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    /// environment variables of the server configuration
    pub env: Vec<(String, String)>,
    pub workers: usize,
}
impl Cfg {
    pub fn get(&self, k: &str) -> Option<u64> {
        self.env.iter().find(|(a, _)| a == k).and_then(|(_, v)| v.parse().ok())
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.env.retain(|(a, _)| a != k);
        self.env.push((k.into(), v.to_string()));
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Epoch {
    /// run one after another by the driver before faults are armed
    pub setup: Vec<Op>,
    pub clients: Vec<Client>,
    /// run one after another by the driver once all clients are done
    pub probe: Vec<Op>,
    pub crash: CrashAt,
    pub disk: Vec<DiskFault>,
    pub jumps: Vec<ClockJump>,
    pub sched: Sched,
    /// the server is down for so long after this epoch
    pub down_ns: u64,
    /// faults are already armed while the server starts
    #[serde(default)]
    pub early: bool,
    /// virtual time limit of this epoch
    pub limit_ns: u64,
}

impl Epoch {
    /// faults of the disk (accept() failing is not one)
    pub fn io(&self) -> impl Iterator<Item = &DiskFault> { self.disk.iter().filter(|f| f.classes & !crate::os::C_NET != 0) }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    pub tcp: Option<Net>,
    pub start_ns: u64,
    pub ops: Vec<Op>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Net {
    /// mean chunk size of what the client sends (0: whole frames)
    pub chunk: u32,
    /// delay between chunks
    pub gap_ns: u64,
    /// size of the client's reads (0: unlimited)
    pub rchunk: u32,
    /// socket buffer (0: default)
    pub sndbuf: u32,
    pub seed: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sel {
    /// the k-th (mod n) message this client holds
    Held(u32),
    /// the k-th (mod n) message any client ever received
    Any(u32),
    /// an id the server never issued
    Bogus(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Sleep(u64),
    /// sleep until this long after the epoch was armed
    At(u64),
    // queues
    QCreate { q: String, vt: Option<u64>, retries: Option<u32> },
    QDelete { q: String },
    QPush { q: String, tag: u64, size: u32, prio: Option<u8> },
    QConsume { q: String, max: Option<u64>, wait: Option<u64> },
    QPop { q: String },
    QAck { q: String, sel: Sel },
    QNack { q: String, sel: Sel, reason: String },
    QExists { q: String },
    QPeek { q: String, limit: u32, offset: u32 },
    QMove { q: String, sel: Sel },
    QDelDlq { q: String, sel: Sel },
    QPurge { q: String },
    /// counters of every queue
    QSnap,
    /// full contents of a queue without side effects
    QDump { q: String },
    /// consume and ack everything until nothing is left
    QDrain { q: String },
    // streams
    SCreate { s: String, age: Option<u64>, bytes: Option<u64>, ret: bool },
    SDelete { s: String },
    SPub { s: String, tag: u64, size: u32 },
    SRead { s: String, from: u64, limit: u64 },
    /// read from the start in chunks until nothing more comes
    SReadAll { s: String, chunk: u64 },
    SJoin { s: String, g: String },
    SFetch { s: String, g: String, limit: u32, wait: u32 },
    SAck { s: String, g: String, sel: Sel },
    /// ack everything held
    SAckAll { s: String, g: String },
    SLeave { s: String, g: String },
    SSeek { s: String, g: String, end: bool },
    SExists { s: String },
    SSnap,
    /// join and fetch+ack until `idle` fetches in a row return nothing
    SDrain { s: String, g: String, limit: u32, wait: u32, idle: u32 },
    // pub/sub
    Sub { t: String },
    Unsub { t: String },
    Pub { t: String, tag: u64, size: u32, retain: Option<bool>, ttl: Option<u64> },
    /// a fresh client subscribes, takes what it gets and leaves
    PProbe { t: String },
    PScan,
    // store
    KSet { k: String, tag: u64, size: u32, ttl: Option<u64> },
    KGet { k: String },
    KDel { k: String },
    KScan,
    // the dashboard
    /// ask the dashboard instead of the broker
    Web(Box<Op>),
    /// one page of a listing: pending, inflight, dlq, stream, store, pubsub
    HPage { what: String, name: String, from: Option<u64>, off: Option<u64>, lim: Option<u64>, find: Option<String> },
    /// any request at all (text, `\\xNN` for other bytes)
    Http { req: String },
    // connections
    Echo { tag: u64, size: u32 },
    /// send this request without waiting for the answer (TCP)
    NoWait(Box<Op>),
    /// wait for all outstanding answers
    Flush,
    /// raw bytes on the wire
    Raw { hex: String },
    /// a frame with arbitrary header fields; payload from hex
    Frame { ftype: u8, op: u8, hex: String },
    Close,
    /// close with unread data pending / abort
    Reset,
    HalfClose,
    /// do not read for this long
    Stall(u64),
    /// open a new connection (TCP clients), or a new client identity (direct)
    Reconnect,
}

/// Payload bytes for (tag, size): self-describing and checkable. Bits 40-42 of the tag
/// choose between bare bytes and what an SDK would send (a type byte first).
pub fn payload(tag: u64, size: u32) -> Vec<u8> {
    let mut v = format!("#{:x}:{:x}#", tag, size).into_bytes();
    let mut r = Rng::new(tag.wrapping_mul(31).wrapping_add(size as u64));
    let kind = tag >> 40 & 7;
    while v.len() < size as usize {
        let c = r.next() as u8;
        v.push(if kind < 2 { c } else { 32 + c % 90 });
    }
    match kind {
        1 => v.insert(0, 0),
        2 => v.insert(0, 1),
        3 => {
            let j = serde_json::json!({ "k": String::from_utf8_lossy(&v), "n": [r.below(1000), null, true, -1.5], "o": { "é": "\u{1f980}" } });
            v = serde_json::to_vec(&j).unwrap();
            v.insert(0, 2);
        }
        _ => {}
    }
    v
}
/// (tag, size) written in the first bytes
fn header(b: &[u8]) -> Option<(u64, u32)> {
    let a = b.iter().take(8).position(|c| *c == b'#')?;
    let b = &b[a..];
    let e = b[1..].iter().position(|c| *c == b'#')? + 1;
    let s = std::str::from_utf8(&b[1..e]).ok()?;
    let (a, c) = s.split_once(':')?;
    let tag = u64::from_str_radix(a, 16).ok()?;
    let size = u32::from_str_radix(c, 16).ok()?;
    if size > 1 << 26 { return None; }
    Some((tag, size))
}
/// (tag, size) of an intact payload
pub fn parse_payload(b: &[u8]) -> Option<(u64, u32)> {
    if b.first().map(|c| *c != b'#' && *c > 2).unwrap_or(true) { return None; }
    let (tag, size) = header(b)?;
    if payload(tag, size) == b { Some((tag, size)) } else { None }
}
/// the same for a payload as the dashboard shows it
pub fn parse_shown(v: &serde_json::Value) -> Option<u64> {
    use serde_json::Value::*;
    match v {
        Null => Some(0),
        String(s) => {
            if let Some(h) = s.strip_prefix("0x") {
                let mut b = vec![0u8];
                b.extend(crate::client::unhex(h));
                return parse_payload(&b).filter(|x| x.0 >> 40 & 7 == 1).map(|x| x.0);
            }
            let (tag, size) = header(s.as_bytes())?;
            let p = payload(tag, size);
            let p = match tag >> 40 & 7 { 0 => &p[..], 2 => &p[1..], _ => return None };
            if std::string::String::from_utf8_lossy(p) == *s { Some(tag) } else { None }
        }
        Object(o) => {
            let (tag, size) = header(o.get("k")?.as_str()?.as_bytes())?;
            if tag >> 40 & 7 != 3 { return None; }
            let w: serde_json::Value = serde_json::from_slice(&payload(tag, size)[1..]).ok()?;
            if w == *v { Some(tag) } else { None }
        }
        _ => None,
    }
}
/// the text a search over this payload looks at
pub fn shown_text(tag: u64, size: u32) -> String {
    if size == 0 { return String::new(); }
    String::from_utf8_lossy(&payload(tag, size)).to_string()
}

/// leases longer than this (ms) are not waited for when draining a queue
pub const DRAIN_VT_MAX: u64 = 60_000;
