//! Recorded history.
use crate::os;
use crate::plan::Op;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct QMsg {
    pub id: String,
    /// tag of the payload, None if the payload is not one we ever produced
    pub tag: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub prio: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub att: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub why: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SMsg {
    pub seq: u64,
    pub tag: Option<u64>,
    pub ts: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct QCnt {
    pub q: String,
    pub pending: u64,
    pub inflight: u64,
    pub dlq: u64,
    pub vt: u64,
    pub retries: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct STop {
    pub s: String,
    pub last: u64,
    pub groups: Vec<(String, u64, u64)>,
    pub age: Option<u64>,
    pub bytes: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Res {
    Ok,
    Err(String),
    Null,
    Bool(bool),
    Num(u64),
    Val(Option<u64>),
    Msgs(Vec<QMsg>),
    Peek { total: u64, msgs: Vec<QMsg> },
    Snap(Vec<QCnt>),
    Dump { pending: Vec<QMsg>, inflight: Vec<QMsg>, dlq: Vec<QMsg>, exists: bool },
    SMsgs(Vec<SMsg>),
    Joined { floor: u64, gen: u64, cid: String },
    SSnap(Vec<STop>),
    Scan { clients: u64, topics: Vec<(String, u64, Option<Option<u64>>)>, wild: Vec<(String, String)> },
    KScan { total: u64, entries: Vec<(String, Option<u64>)> },
    Http { status: u16, body: String },
    Got(Vec<(String, Option<u64>, u64)>),
    /// nothing was executed (e.g. nothing to select)
    Skip,
    /// the connection broke before an answer came
    Lost,
    /// undecodable answer
    Garbled(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    /// server process started (virtual time, real time)
    Start { ep: u32, t: u64, real: u64 },
    /// server is up; clients start
    Ready { t: u64, real: u64, st: u64 },
    ClientsDone { t: u64, st: u64 },
    Inv { c: u32, i: u32, t: u64, real: u64, st: u64, op: Op, #[serde(default, skip_serializing_if = "Option::is_none")] arg: Option<String> },
    Ret { c: u32, i: u32, t: u64, real: u64, st: u64, r: Res },
    /// pub/sub message received by client identity `id`
    Push { c: u32, id: u32, topic: String, tag: Option<u64>, len: u64, t: u64, st: u64 },
    /// a response or frame nobody asked for
    Stray { c: u32, what: String },
    /// client got a new identity / connection number
    Ident { c: u32, id: u32, t: u64, st: u64 },
    /// the client's connection is gone (server closed it)
    Eof { c: u32, id: u32, t: u64, st: u64 },
    /// the client closes its end
    Closing { c: u32, id: u32, t: u64, st: u64 },
    /// the server's connection task finished
    ConnEnd { c: u32, id: u32, t: u64, st: u64, err: Option<String> },
    Panic { msg: String, t: u64 },
    Escape { what: String, path: String },
    /// end of the epoch
    End { status: u32, t: u64, real: u64, st: u64, crash: u32, stall_ns: u64, sig: i32 },
    Note { k: String, v: String },
}

pub fn put(e: &Ev) {
    let mut s = serde_json::to_vec(e).unwrap();
    // the scratch directory's name differs from run to run
    let pat = b"nexosim-";
    let mut i = 0;
    while i + 16 <= s.len() {
        if &s[i..i + 8] == pat && s[i + 8..i + 16].iter().all(|b| b.is_ascii_digit()) { s[i + 8..i + 16].fill(b'0'); i += 16; } else { i += 1; }
    }
    os::hist_append(&s);
}
pub fn note_escape(what: &str, path: &str) {
    put(&Ev::Escape { what: what.into(), path: path.into() });
}
