//! A simulated client: executes a list of operations, directly against the
//! broker managers or over a (simulated) connection, and records the history.
use crate::hist::{put, Ev, QCnt, QMsg, Res, SMsg, STop};
use crate::os::{self, Rng};
use crate::plan::*;
use crate::world::w;
use bytes::Bytes;
use nexo::brokers::pub_sub::{ClientId, PubSubMessage};
use nexo::brokers::queue::options::QueueCreateOptions;
use nexo::brokers::stream::options::{RetentionOptions, SeekTarget, StreamCreateOptions};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::os::fd::FromRawFd;
use std::sync::Arc;
use tokio::sync::mpsc::UnboundedReceiver;
use uuid::Uuid;

const SEC: u64 = 1_000_000_000;

pub struct Cl {
    id: u32,
    ident: u32,
    n: u32,
    net: Option<Net>,
    // direct
    cid: String,
    rx: Option<UnboundedReceiver<Arc<PubSubMessage>>>,
    connected: bool,
    // wire
    fd: i32,
    buf: Vec<u8>,
    reqid: u32,
    out: BTreeMap<u32, (u32, Op)>,
    done: HashMap<u32, Res>,
    rng: Rng,
    // what this client knows
    held: Vec<(String, String)>,
    peeked: Vec<(String, String)>,
    member: HashMap<(String, String), (String, u64)>,
    sheld: Vec<(String, String, u64)>,
}

fn eng() -> &'static nexo::NexoEngine { w().eng.as_ref().expect("in process") }
fn tag_of(b: &[u8]) -> Option<u64> {
    // an empty payload does not say whose it is
    if b.is_empty() { return Some(0); }
    parse_payload(b).map(|x| x.0)
}
fn body(tag: u64, size: u32) -> Bytes {
    if size == 0 { Bytes::new() } else { Bytes::from(payload(tag, size)) }
}
fn uuid_of(s: &str) -> Uuid {
    Uuid::parse_str(s).unwrap_or(Uuid::nil())
}
/// hex digits in space-separated pieces; `61*5` repeats a piece
pub fn unhex(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for part in s.split(' ') {
        let (h, k) = match part.split_once('*') { Some((h, k)) => (h, k.parse().unwrap_or(1)), None => (part, 1usize) };
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
        for _ in 0..k { v.extend_from_slice(&b); }
    }
    v
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

impl Cl {
    pub fn new(id: u32, net: Option<Net>) -> Cl {
        let rng = Rng::new(net.map(|n| n.seed).unwrap_or(1));
        let mut c = Cl {
            id, ident: 0, n: 0, net, cid: String::new(), rx: None, connected: false, fd: -1, buf: vec![],
            reqid: 0, out: BTreeMap::new(), done: HashMap::new(), rng, held: vec![], peeked: vec![],
            member: HashMap::new(), sheld: vec![],
        };
        c.connect();
        c
    }
    fn connect(&mut self) {
        let w = w();
        w.idents += 1;
        self.ident = w.idents;
        self.member.clear();
        self.sheld.clear();
        put(&Ev::Ident { c: self.id, id: self.ident, t: os::now(), st: os::stamp() });
        match self.net {
            None => {
                self.cid = format!("d{}", self.ident);
                self.rx = None;
                self.connected = false;
            }
            Some(n) => {
                self.fd = -1;
                self.buf.clear();
                let Some(e) = w.eng.clone() else {
                    // the server listens itself
                    let t0 = os::now();
                    loop {
                        match os::net_connect(w.port) {
                            Ok(f) => { self.fd = f; break; }
                            Err(_) if os::now() < t0 + 20 * SEC => os::sleep_ns(10_000_000),
                            Err(e) => { put(&Ev::Stray { c: self.id, what: format!("cannot connect: errno {}", e) }); return; }
                        }
                    }
                    if n.sndbuf > 0 {
                        let v = n.sndbuf as i32;
                        unsafe { libc::setsockopt(self.fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const _, 4); }
                    }
                    self.connected = true;
                    return;
                };
                let rt = w.rt.clone().unwrap();
                let mut fds = [0i32; 2];
                unsafe {
                    if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0, fds.as_mut_ptr()) != 0 {
                        put(&Ev::Note { k: "socketpair".into(), v: "failed".into() });
                        return;
                    }
                    if n.sndbuf > 0 {
                        let v = n.sndbuf as i32;
                        for f in fds {
                            libc::setsockopt(f, libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const _, 4);
                        }
                    }
                }
                self.fd = fds[0];
                self.connected = true;
                let st = unsafe { std::net::TcpStream::from_raw_fd(fds[1]) };
                let _g = rt.enter();
                let (c, i) = (self.id, self.ident);
                match tokio::net::TcpStream::from_std(st) {
                    Ok(s) => {
                        rt.spawn(async move {
                            let r = nexo::transport::tcp::connection::handle_connection(s, e).await;
                            put(&Ev::ConnEnd { c, id: i, t: os::now(), st: os::stamp(), err: r.err() });
                        });
                    }
                    Err(e) => put(&Ev::Note { k: "from_std".into(), v: e.to_string() }),
                }
            }
        }
    }
    fn ensure_direct(&mut self) {
        if self.net.is_some() || self.connected { return; }
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        eng().pubsub.connect(ClientId(self.cid.clone()), tx);
        self.rx = Some(rx);
        self.connected = true;
    }

    pub fn run(&mut self, ops: &[Op]) {
        for o in ops { self.exec(o); }
    }
    pub fn finish(&mut self) {
        if self.net.is_some() {
            if self.fd >= 0 {
                self.pump(os::now() + 5 * SEC, Want::AllAnswers);
                self.close_fd();
            }
        } else {
            self.drain();
            self.drop_direct();
        }
    }

    // ------------------------------------------------------------ direct helpers
    fn block<F: Future>(&self, f: F) -> Option<F::Output> {
        let rt = w().rt.clone().expect("in process");
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(f))).ok()
    }
    fn drain(&mut self) {
        if let Some(rx) = &mut self.rx {
            while let Ok(m) = rx.try_recv() {
                put(&Ev::Push { c: self.id, id: self.ident, topic: m.topic.clone(), tag: tag_of(&m.payload), len: m.payload.len() as u64, t: os::now(), st: os::stamp() });
            }
        }
    }
    fn drop_direct(&mut self) {
        // a direct client that never used pub/sub may still be a group member
        let cid = self.cid.clone();
        let has = self.connected || !self.member.is_empty();
        if !has { return; }
        self.connected = false;
        let i = self.inv(&Op::Close, None);
        let e = eng();
        let _ = self.block(async {
            e.pubsub.disconnect(&ClientId(cid.clone()));
            e.stream.disconnect(cid).await;
        });
        self.drain();
        self.rx = None;
        self.ret(i, Res::Ok);
        put(&Ev::ConnEnd { c: self.id, id: self.ident, t: os::now(), st: os::stamp(), err: None });
    }

    fn inv(&mut self, op: &Op, arg: Option<String>) -> u32 {
        self.n += 1;
        put(&Ev::Inv { c: self.id, i: self.n, t: os::now(), real: os::realtime(), st: os::stamp(), op: op.clone(), arg });
        self.n
    }
    fn ret(&mut self, i: u32, r: Res) {
        put(&Ev::Ret { c: self.id, i, t: os::now(), real: os::realtime(), st: os::stamp(), r });
    }

    // ------------------------------------------------------------ selection
    fn pick_q(&mut self, q: &str, sel: Sel, peek: bool) -> Option<String> {
        match sel {
            Sel::Bogus(k) => Some(Uuid::from_u128(0xb06_0000_0000_0000 + k as u128).to_string()),
            Sel::Any(k) => {
                let v: Vec<&String> = w().seen_q.iter().filter(|x| x.0 == q).map(|x| &x.1).collect();
                if v.is_empty() { None } else { Some(v[k as usize % v.len()].clone()) }
            }
            Sel::Held(k) => {
                let l = if peek { &self.peeked } else { &self.held };
                let v: Vec<usize> = (0..l.len()).filter(|i| l[*i].0 == q).collect();
                if v.is_empty() { return None; }
                let j = v[k as usize % v.len()];
                if peek { Some(self.peeked[j].1.clone()) } else { Some(self.held.remove(j).1) }
            }
        }
    }
    fn got_q(&mut self, q: &str, msgs: &[QMsg]) {
        for m in msgs {
            self.held.push((q.to_string(), m.id.clone()));
            let s = &mut w().seen_q;
            if s.len() < 4000 && !s.iter().any(|x| x.1 == m.id) { s.push((q.to_string(), m.id.clone())); }
        }
    }

    // ------------------------------------------------------------ operations
    fn exec(&mut self, op: &Op) -> Option<Res> {
        match op {
            Op::Sleep(ns) => { self.idle(os::now() + ns); None }
            Op::At(t) => { self.idle(w().armed_at + t); None }
            Op::QDrain { q } => { self.qdrain(q); None }
            Op::SReadAll { s, chunk } => { self.sreadall(s, *chunk); None }
            Op::SAckAll { s, g } => {
                let l: Vec<u64> = self.sheld.iter().filter(|x| x.0 == *s && x.1 == *g).map(|x| x.2).collect();
                for _ in l { self.exec(&Op::SAck { s: s.clone(), g: g.clone(), sel: Sel::Held(0) }); }
                None
            }
            Op::SDrain { s, g, limit, wait, idle } => { self.sdrain(s, g, *limit, *wait, *idle); None }
            Op::NoWait(o) => { self.issue(o, false) }
            Op::Flush => { if self.net.is_some() { self.pump(os::now() + 60 * SEC, Want::AllAnswers); } None }
            Op::Stall(ns) => { os::sleep_ns(*ns); None }
            Op::Close => {
                if self.net.is_some() {
                    let i = self.inv(op, None);
                    self.pump(os::now(), Want::Nothing);
                    self.close_fd();
                    self.ret(i, Res::Ok);
                } else { self.drain(); self.drop_direct(); }
                None
            }
            Op::Reset => {
                if self.net.is_some() {
                    let i = self.inv(op, None);
                    self.close_fd();
                    self.ret(i, Res::Ok);
                } else { self.drop_direct(); }
                None
            }
            Op::HalfClose => {
                if self.net.is_some() && self.fd >= 0 {
                    let i = self.inv(op, None);
                    os::net_shutdown_wr(self.fd);
                    self.ret(i, Res::Ok);
                }
                None
            }
            Op::Reconnect => {
                if self.net.is_some() { if self.fd >= 0 { self.close_fd(); } } else { self.drop_direct(); }
                self.connect();
                None
            }
            _ => self.issue(op, true),
        }
    }
    fn idle(&mut self, until: u64) {
        if self.net.is_some() && self.fd >= 0 {
            self.pump(until, Want::Deadline);
        } else {
            os::sleep_until(until);
            self.drain();
        }
    }

    fn issue(&mut self, op: &Op, wait: bool) -> Option<Res> {
        if w().eng.is_none() {
            // nothing but what the server offers the world
            match op {
                Op::QSnap | Op::QDump { .. } | Op::SSnap | Op::PScan | Op::KScan => { return if w().http.is_some() { self.look(&Op::Web(Box::new(op.clone()))) } else { None }; }
                Op::SRead { s, from, limit } => { return if w().http.is_some() { self.look(&Op::Web(Box::new(Op::SRead { s: s.clone(), from: *from, limit: (*limit).min(500) }))) } else { None }; }
                Op::QPop { q } => return self.issue(&Op::QConsume { q: q.clone(), max: Some(1), wait: Some(0) }, wait),
                Op::PProbe { .. } => return None,
                _ => {}
            }
        }
        if matches!(op, Op::Web(_) | Op::HPage { .. } | Op::Http { .. }) { return self.look(op); }
        // resolve what the operation refers to
        let mut arg: Option<String> = None;
        match op {
            Op::QAck { q, sel } | Op::QNack { q, sel, .. } => { arg = Some(self.pick_q(q, *sel, false)?); }
            Op::QMove { q, sel } | Op::QDelDlq { q, sel } => { arg = Some(self.pick_q(q, *sel, true)?); }
            Op::SAck { s, g, sel } => {
                let seq = match sel {
                    Sel::Bogus(k) => 1_000_000 + *k as u64,
                    Sel::Any(k) => {
                        let v: Vec<u64> = w().seen_s.iter().filter(|x| x.0 == *s && x.1 == *g).map(|x| x.2).collect();
                        if v.is_empty() { return None; }
                        v[*k as usize % v.len()]
                    }
                    Sel::Held(k) => {
                        let v: Vec<usize> = (0..self.sheld.len()).filter(|i| self.sheld[*i].0 == *s && self.sheld[*i].1 == *g).collect();
                        if v.is_empty() { return None; }
                        self.sheld.remove(v[*k as usize % v.len()]).2
                    }
                };
                let (cid, gen) = self.member.get(&(s.clone(), g.clone()))?.clone();
                arg = Some(format!("{} {} {}", seq, gen, cid));
            }
            Op::SFetch { s, g, .. } | Op::SLeave { s, g } => {
                let (cid, gen) = self.member.get(&(s.clone(), g.clone()))?.clone();
                arg = Some(format!("0 {} {}", gen, cid));
            }
            _ => {}
        }
        let on_wire = self.net.is_some() && !matches!(op, Op::QPop { .. } | Op::QSnap | Op::QDump { .. } | Op::SRead { .. } | Op::SSnap | Op::PScan | Op::KScan | Op::PProbe { .. });
        if on_wire {
            if self.fd < 0 { return None; }
            let i = self.inv(op, arg.clone());
            return self.wire(i, op, arg, wait);
        }
        if matches!(op, Op::Sub { .. } | Op::Unsub { .. } | Op::Pub { .. }) { self.ensure_direct(); }
        let i = self.inv(op, arg.clone());
        let r = self.direct(op, arg.as_deref()).unwrap_or(Res::Err("panic".into()));
        if !matches!(op, Op::PProbe { .. }) { self.drain(); }
        self.ret(i, r.clone());
        self.learn(op, arg.as_deref(), &r);
        Some(r)
    }

    /// ask the dashboard
    fn look(&mut self, op: &Op) -> Option<Res> {
        w().http?;
        let i = self.inv(op, None);
        let split = if self.rng.chance(1, 4) { 1 + self.rng.below(60) as usize } else { 0 };
        let r = match op {
            Op::Web(o) => crate::web::web(o, split),
            Op::Http { req } => crate::web::odd(req, split),
            _ => crate::web::page(op, split),
        };
        self.ret(i, r.clone());
        if let Op::Web(o) = op { self.learn(o, None, &r); }
        Some(r)
    }

    /// remember what an answer tells the client
    fn learn(&mut self, op: &Op, arg: Option<&str>, r: &Res) {
        match (op, r) {
            (Op::QConsume { q, .. }, Res::Msgs(m)) | (Op::QPop { q }, Res::Msgs(m)) => { let m = m.clone(); self.got_q(q, &m); }
            (Op::QPeek { q, .. }, Res::Peek { msgs, .. }) => {
                self.peeked.retain(|x| x.0 != *q);
                for m in msgs { self.peeked.push((q.clone(), m.id.clone())); }
            }
            (Op::SJoin { s, g }, Res::Joined { gen, cid, .. }) => {
                self.member.insert((s.clone(), g.clone()), (cid.clone(), *gen));
                self.sheld.retain(|x| !(x.0 == *s && x.1 == *g));
            }
            (Op::SLeave { s, g }, Res::Ok) => {
                if let Some(a) = arg {
                    let cid = a.split(' ').nth(2).unwrap_or("");
                    if self.member.get(&(s.clone(), g.clone())).map(|x| x.0 == cid).unwrap_or(false) {
                        self.member.remove(&(s.clone(), g.clone()));
                        self.sheld.retain(|x| !(x.0 == *s && x.1 == *g));
                    }
                }
            }
            (Op::SFetch { s, g, .. }, Res::SMsgs(m)) => {
                for x in m {
                    if !self.sheld.iter().any(|y| y.0 == *s && y.1 == *g && y.2 == x.seq) { self.sheld.push((s.clone(), g.clone(), x.seq)); }
                    let v = &mut w().seen_s;
                    if v.len() < 4000 { v.push((s.clone(), g.clone(), x.seq)); }
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ direct execution
    fn direct(&mut self, op: &Op, arg: Option<&str>) -> Option<Res> {
        let e = eng();
        let okr = |r: Result<(), String>| match r { Ok(()) => Res::Ok, Err(e) => Res::Err(e) };
        let seqarg = || -> (u64, u64, String) {
            let a = arg.unwrap_or("0 0 x");
            let mut p = a.splitn(3, ' ');
            (p.next().unwrap().parse().unwrap_or(0), p.next().unwrap().parse().unwrap_or(0), p.next().unwrap().to_string())
        };
        Some(match op {
            Op::QCreate { q, vt, retries } => okr(self.block(e.queue.create_queue(q.clone(), QueueCreateOptions { visibility_timeout_ms: *vt, max_retries: *retries }))?),
            Op::QDelete { q } => okr(self.block(e.queue.delete_queue(q.clone()))?),
            Op::QPush { q, tag, size, prio } => okr(self.block(e.queue.push(q.clone(), body(*tag, *size), prio.unwrap_or(0)))?),
            Op::QConsume { q, max, wait } => match self.block(e.queue.consume_batch(q.clone(), max.map(|x| x as usize), *wait))? {
                Ok(v) => Res::Msgs(v.iter().map(|m| QMsg { id: m.id.to_string(), tag: tag_of(&m.payload), prio: Some(m.priority), att: Some(m.attempts), why: None }).collect()),
                Err(e) => Res::Err(e),
            },
            Op::QPop { q } => match self.block(e.queue.pop(q))? {
                Some(m) => Res::Msgs(vec![QMsg { id: m.id.to_string(), tag: tag_of(&m.payload), prio: Some(m.priority), att: Some(m.attempts), why: None }]),
                None => Res::Msgs(vec![]),
            },
            Op::QAck { q, .. } => Res::Bool(self.block(e.queue.ack(q, uuid_of(arg?)))?),
            Op::QNack { q, reason, .. } => Res::Bool(self.block(e.queue.nack(q, uuid_of(arg?), reason.clone()))?),
            Op::QExists { q } => Res::Bool(self.block(e.queue.exists(q))?),
            Op::QPeek { q, limit, offset } => match self.block(e.queue.peek_dlq(q, *limit as usize, *offset as usize))? {
                Ok((t, v)) => Res::Peek { total: t as u64, msgs: v.iter().map(|m| QMsg { id: m.id.to_string(), tag: tag_of(&m.payload), prio: Some(m.priority), att: Some(m.attempts), why: Some(m.failure_reason.clone()) }).collect() },
                Err(e) => Res::Err(e),
            },
            Op::QMove { q, .. } => match self.block(e.queue.move_to_queue(q, uuid_of(arg?)))? { Ok(b) => Res::Bool(b), Err(e) => Res::Err(e) },
            Op::QDelDlq { q, .. } => match self.block(e.queue.delete_dlq(q, uuid_of(arg?)))? { Ok(b) => Res::Bool(b), Err(e) => Res::Err(e) },
            Op::QPurge { q } => match self.block(e.queue.purge_dlq(q))? { Ok(n) => Res::Num(n as u64), Err(e) => Res::Err(e) },
            Op::QSnap => {
                let v = self.block(e.queue.get_snapshot())?;
                let mut v: Vec<QCnt> = v.iter().map(|s| QCnt { q: s.name.clone(), pending: s.pending as u64, inflight: s.inflight as u64, dlq: s.dlq as u64, vt: s.config.visibility_timeout_ms, retries: s.config.max_retries }).collect();
                v.sort_by(|a, b| a.q.cmp(&b.q));
                Res::Snap(v)
            }
            Op::QDump { q } => self.qdump(q)?,
            Op::SCreate { s, age, bytes, ret } => {
                let retention = if *ret { Some(RetentionOptions { max_age_ms: *age, max_bytes: *bytes }) } else { None };
                okr(self.block(e.stream.create_topic(s.clone(), StreamCreateOptions { retention }))?)
            }
            Op::SDelete { s } => okr(self.block(e.stream.delete_topic(s.clone()))?),
            Op::SPub { s, tag, size } => match self.block(e.stream.publish(s, body(*tag, *size)))? { Ok(n) => Res::Num(n), Err(e) => Res::Err(e) },
            Op::SRead { s, from, limit } => Res::SMsgs(self.block(e.stream.read(s, *from, *limit as usize))?.iter().map(smsg).collect()),
            Op::SJoin { s, g } => match self.block(e.stream.join_group(g, s, &self.cid))? {
                Ok(j) => Res::Joined { floor: j.ack_floor, gen: j.generation, cid: j.consumer_id },
                Err(e) => Res::Err(e),
            },
            Op::SFetch { s, g, limit, wait } => {
                let (_, gen, cid) = seqarg();
                match self.block(e.stream.fetch(g, &cid, gen, *limit as usize, s, *wait as u64))? { Ok(v) => Res::SMsgs(v.iter().map(smsg).collect()), Err(e) => Res::Err(e) }
            }
            Op::SAck { s, g, .. } => {
                let (seq, gen, cid) = seqarg();
                okr(self.block(e.stream.ack(g, s, &cid, gen, seq))?)
            }
            Op::SLeave { s, g } => {
                let (_, gen, cid) = seqarg();
                okr(self.block(e.stream.leave_group(g, s, &cid, gen))?)
            }
            Op::SSeek { s, g, end } => okr(self.block(e.stream.seek(g, s, if *end { SeekTarget::End } else { SeekTarget::Beginning }))?),
            Op::SExists { s } => Res::Bool(self.block(e.stream.exists(s))?),
            Op::SSnap => {
                let v = self.block(e.stream.get_snapshot())?;
                let mut v: Vec<STop> = v.topics.iter().map(|t| {
                    let mut groups: Vec<(String, u64, u64)> = t.groups.iter().map(|g| (g.id.clone(), g.ack_floor, g.pending_count as u64)).collect();
                    groups.sort();
                    STop { s: t.name.clone(), last: t.last_seq, groups, age: t.config.retention.max_age_ms, bytes: t.config.retention.max_bytes }
                }).collect();
                v.sort_by(|a, b| a.s.cmp(&b.s));
                Res::SSnap(v)
            }
            Op::Sub { t } => { let c = ClientId(self.cid.clone()); self.block(async { e.pubsub.subscribe(&c, t) })?; Res::Ok }
            Op::Unsub { t } => { let c = ClientId(self.cid.clone()); self.block(async { e.pubsub.unsubscribe(&c, t) })?; Res::Ok }
            Op::Pub { t, tag, size, retain, ttl } => Res::Num(self.block(async { e.pubsub.publish(t, body(*tag, *size), retain.unwrap_or(false), *ttl) })? as u64),
            Op::PProbe { t } => {
                w().idents += 1;
                let c = ClientId(format!("probe{}", w().idents));
                let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
                self.block(async {
                    e.pubsub.connect(c.clone(), tx);
                    e.pubsub.subscribe(&c, t);
                    e.pubsub.disconnect(&c);
                })?;
                let mut v = vec![];
                while let Ok(m) = rx.try_recv() { v.push((m.topic.clone(), tag_of(&m.payload), m.payload.len() as u64)); }
                Res::Got(v)
            }
            Op::PScan => {
                let s = self.block(async { e.pubsub.scan_topics(1_000_000, 0, None) })?;
                let mut wild: Vec<(String, String)> = s.wildcards.multi_level.iter().chain(s.wildcards.single_level.iter()).map(|x| (x.pattern.clone(), x.client_id.clone())).collect();
                wild.sort();
                Res::Scan {
                    clients: s.active_clients as u64,
                    topics: s.topics.iter().map(|t| (t.full_path.clone(), t.subscribers as u64, t.retained_payload.as_ref().map(|b| tag_of(b)))).collect(),
                    wild,
                }
            }
            Op::KSet { k, tag, size, ttl } => { self.block(async { e.store.map.set(k.clone(), body(*tag, *size), *ttl) })?; Res::Ok }
            Op::KGet { k } => kval(self.block(async { e.store.map.get(k) })?),
            Op::KDel { k } => Res::Bool(self.block(async { e.store.map.del(k) })?),
            Op::KScan => {
                let s = self.block(async { e.store.scan(1_000_000, 0, None) })?;
                let mut v: Vec<(String, Option<u64>)> = s.entries.iter().map(|x| (x.key.clone(), tag_of(&x.payload))).collect();
                v.sort();
                Res::KScan { total: s.total as u64, entries: v }
            }
            Op::Echo { .. } | Op::Raw { .. } | Op::Frame { .. } => Res::Skip,
            _ => Res::Skip,
        })
    }

    fn qdump(&mut self, q: &str) -> Option<Res> {
        let e = eng();
        for _ in 0..20 {
            let cnt = |v: Vec<nexo::brokers::queue::snapshot::QueueSnapshot>| v.into_iter().find(|s| s.name == q).map(|s| (s.pending, s.inflight, s.dlq));
            let a = cnt(self.block(e.queue.get_snapshot())?);
            let conv = |m: &nexo::brokers::queue::snapshot::QueueMessagePreview| QMsg { id: m.id.to_string(), tag: tag_of(&m.payload), prio: Some(m.priority), att: Some(m.attempts), why: None };
            let p = self.block(e.queue.get_messages(q.into(), "pending".into(), 0, 10_000_000, None))?;
            let f = self.block(e.queue.get_messages(q.into(), "inflight".into(), 0, 10_000_000, None))?;
            let d = self.block(e.queue.peek_dlq(q, 10_000_000, 0))?;
            let b = cnt(self.block(e.queue.get_snapshot())?);
            let (p, f, d) = match (p, f, d) {
                (Some(p), Some(f), Ok(d)) => (p, f, d),
                _ => { if a.is_none() && b.is_none() { return Some(Res::Dump { pending: vec![], inflight: vec![], dlq: vec![], exists: false }); } continue; }
            };
            if a != b || a != Some((p.0, f.0, d.0)) { continue; }
            return Some(Res::Dump {
                pending: p.1.iter().map(conv).collect(),
                inflight: f.1.iter().map(conv).collect(),
                dlq: d.1.iter().map(|m| QMsg { id: m.id.to_string(), tag: tag_of(&m.payload), prio: Some(m.priority), att: Some(m.attempts), why: Some(m.failure_reason.clone()) }).collect(),
                exists: true,
            });
        }
        Some(Res::Garbled("unstable".into()))
    }

    // ------------------------------------------------------------ composites
    fn qdrain(&mut self, q: &str) {
        let mut empty = 0;
        for _ in 0..400 {
            let r = self.exec(&Op::QConsume { q: q.into(), max: Some(40), wait: Some(0) });
            match r {
                Some(Res::Msgs(m)) if !m.is_empty() => {
                    empty = 0;
                    // ack exactly what came
                    for x in &m {
                        self.held.retain(|h| h.1 != x.id);
                        self.held.push((q.into(), x.id.clone()));
                        let k = self.held.iter().filter(|h| h.0 == q).count() as u32 - 1;
                        self.exec(&Op::QAck { q: q.into(), sel: Sel::Held(k) });
                    }
                }
                Some(Res::Msgs(_)) => {
                    let s = self.exec(&Op::QSnap);
                    let mut vt = 0;
                    let mut left = 0;
                    if let Some(Res::Snap(v)) = s { if let Some(c) = v.iter().find(|c| c.q == q) { vt = c.vt; left = c.pending + c.inflight; } }
                    if left == 0 || vt > DRAIN_VT_MAX { break; }
                    empty += 1;
                    if empty > 3 { break; }
                    self.idle(os::now() + (vt + 200) * 1_000_000);
                }
                _ => break,
            }
        }
        self.exec(&Op::QPeek { q: q.into(), limit: 1_000_000, offset: 0 });
        self.exec(&Op::QSnap);
    }
    fn sreadall(&mut self, s: &str, chunk: u64) {
        let mut from = 1;
        for _ in 0..5000 {
            match self.exec(&Op::SRead { s: s.into(), from, limit: chunk }) {
                Some(Res::SMsgs(m)) if !m.is_empty() => { from = m.last().unwrap().seq + 1; }
                _ => break,
            }
        }
    }
    fn sdrain(&mut self, s: &str, g: &str, limit: u32, wait: u32, idle: u32) {
        let mut k = 0;
        let mut errs = 0;
        if !self.member.contains_key(&(s.to_string(), g.to_string())) {
            self.exec(&Op::SJoin { s: s.into(), g: g.into() });
        }
        for _ in 0..4000 {
            let t0 = os::now();
            match self.exec(&Op::SFetch { s: s.into(), g: g.into(), limit, wait }) {
                Some(Res::SMsgs(m)) if !m.is_empty() => {
                    k = 0;
                    self.exec(&Op::SAckAll { s: s.into(), g: g.into() });
                }
                Some(Res::SMsgs(_)) => {
                    k += 1;
                    if k >= idle { break; }
                    // an empty answer may legally come early
                    if wait > 0 { self.idle(t0 + wait as u64 * 1_000_000 + 20_000_000); }
                }
                _ => {
                    errs += 1;
                    if errs > 5 { break; }
                    self.exec(&Op::SJoin { s: s.into(), g: g.into() });
                }
            }
        }
        self.exec(&Op::SLeave { s: s.into(), g: g.into() });
    }

    // ------------------------------------------------------------ the wire
    fn close_fd(&mut self) {
        if self.fd >= 0 {
            put(&Ev::Closing { c: self.id, id: self.ident, t: os::now(), st: os::stamp() });
            os::net_close(self.fd);
            self.fd = -1;
        }
        self.lose();
    }
    fn lose(&mut self) {
        let o = std::mem::take(&mut self.out);
        for (id, (i, _)) in o { self.ret(i, Res::Lost); self.done.insert(id, Res::Lost); }
        self.connected = false;
        self.member.clear();
        self.sheld.clear();
    }
    fn wire(&mut self, i: u32, op: &Op, arg: Option<String>, wait: bool) -> Option<Res> {
        if let Op::Raw { hex } = op {
            let b = unhex(hex);
            self.send(&b);
            self.ret(i, Res::Ok);
            return Some(Res::Ok);
        }
        self.reqid += 1;
        let id = self.reqid;
        let (ftype, opc, pl) = encode(op, arg.as_deref());
        let mut f = Vec::with_capacity(pl.len() + 10);
        f.push(ftype);
        f.push(opc);
        f.extend_from_slice(&id.to_be_bytes());
        f.extend_from_slice(&(pl.len() as u32).to_be_bytes());
        f.extend_from_slice(&pl);
        self.out.insert(id, (i, op.clone()));
        self.send(&f);
        if !wait { return None; }
        let extra = match op { Op::QConsume { wait, .. } => wait.unwrap_or(0).min(1_000_000), Op::SFetch { wait, .. } => (*wait as u64).min(1_000_000), _ => 0 };
        let dl = os::now() + 120 * SEC + extra * 1_000_000;
        self.pump(dl, Want::Answer(id));
        match self.done.remove(&id) {
            Some(r) => { self.learn(op, arg.as_deref(), &r); Some(r) }
            None => None,
        }
    }
    fn send(&mut self, b: &[u8]) {
        let Some(n) = self.net else { return };
        let mut off = 0;
        while off < b.len() && self.fd >= 0 {
            let k = if n.chunk == 0 { b.len() - off } else { (1 + self.rng.below(2 * n.chunk as u64 - 1) as usize).min(b.len() - off) };
            let mut part = &b[off..off + k];
            while !part.is_empty() {
                match os::net_send(self.fd, part) {
                    Ok(m) => { part = &part[m..]; off += m; }
                    Err(libc::EAGAIN) => {
                        // a real client keeps reading while its writes are stuck
                        if !self.recv_some() { return; }
                        if !os::wait_fd(self.fd, libc::POLLOUT | libc::POLLIN, os::now() + 120 * SEC) {
                            put(&Ev::Note { k: "send-stuck".into(), v: format!("{}", self.id) });
                            return;
                        }
                    }
                    Err(_) => { self.eof(); return; }
                }
            }
            if n.gap_ns > 0 && off < b.len() { let g = self.rng.below(2 * n.gap_ns); os::sleep_ns(g); }
        }
    }
    fn eof(&mut self) {
        if self.fd >= 0 {
            // whatever arrived before the reset is still readable
            while self.recv_once() {}
        }
        if self.fd >= 0 {
            put(&Ev::Eof { c: self.id, id: self.ident, t: os::now(), st: os::stamp() });
            os::net_close(self.fd);
            self.fd = -1;
        }
        self.lose();
    }
    fn recv_once(&mut self) -> bool {
        let n = self.net.unwrap();
        let mut b = [0u8; 65536];
        let k = if n.rchunk == 0 { b.len() } else { (1 + self.rng.below(2 * n.rchunk as u64 - 1) as usize).min(b.len()) };
        match os::net_recv(self.fd, &mut b[..k]) {
            Ok(0) => false,
            Ok(m) => { self.buf.extend_from_slice(&b[..m]); self.frames(); true }
            Err(_) => false,
        }
    }
    /// false: connection gone
    fn recv_some(&mut self) -> bool {
        let n = self.net.unwrap();
        let mut b = [0u8; 65536];
        loop {
            if self.fd < 0 { return false; }
            let k = if n.rchunk == 0 { b.len() } else { (1 + self.rng.below(2 * n.rchunk as u64 - 1) as usize).min(b.len()) };
            match os::net_recv(self.fd, &mut b[..k]) {
                Ok(0) => { self.eof(); return false; }
                Ok(m) => { self.buf.extend_from_slice(&b[..m]); self.frames(); }
                Err(libc::EAGAIN) => return true,
                Err(_) => { self.eof(); return false; }
            }
        }
    }
    fn frames(&mut self) {
        loop {
            if self.buf.len() < 10 { return; }
            let len = u32::from_be_bytes(self.buf[6..10].try_into().unwrap()) as usize;
            if len > 64 << 20 {
                put(&Ev::Stray { c: self.id, what: format!("absurd frame {}", hex(&self.buf[..10])) });
                self.buf.clear();
                return;
            }
            if self.buf.len() < 10 + len { return; }
            let h: Vec<u8> = self.buf[..10].to_vec();
            let p: Vec<u8> = self.buf[10..10 + len].to_vec();
            self.buf.drain(..10 + len);
            let id = u32::from_be_bytes(h[2..6].try_into().unwrap());
            match h[0] {
                2 => match self.out.remove(&id) {
                    Some((i, op)) => {
                        let r = decode(&op, h[1], &p);
                        self.ret(i, r.clone());
                        self.done.insert(id, r);
                    }
                    None => put(&Ev::Stray { c: self.id, what: format!("response id {} status {} len {}", id, h[1], len) }),
                },
                3 => {
                    let mut r = Rd(&p, 0);
                    match (|| { let t = r.s()?; Some((t, r.rest())) })() {
                        Some((t, pl)) => put(&Ev::Push { c: self.id, id: self.ident, topic: t, tag: tag_of(&pl), len: pl.len() as u64, t: os::now(), st: os::stamp() }),
                        None => put(&Ev::Stray { c: self.id, what: "garbled push".into() }),
                    }
                }
                t => put(&Ev::Stray { c: self.id, what: format!("frame type {}", t) }),
            }
        }
    }
    fn pump(&mut self, deadline: u64, want: Want) {
        loop {
            if self.fd < 0 { if let Want::Deadline = want { os::sleep_until(deadline); } return; }
            if !self.recv_some() { continue; }
            match want {
                Want::Answer(id) => if self.done.contains_key(&id) { return; },
                Want::AllAnswers => if self.out.is_empty() { self.done.clear(); return; },
                Want::Nothing => return,
                Want::Deadline => {}
            }
            if os::now() >= deadline { return; }
            os::wait_fd(self.fd, libc::POLLIN, deadline);
        }
    }
}
#[derive(Clone, Copy)]
enum Want { Answer(u32), AllAnswers, Nothing, Deadline }

fn smsg(m: &nexo::brokers::stream::domain::message::Message) -> SMsg {
    SMsg { seq: m.seq, tag: tag_of(&m.payload), ts: m.timestamp }
}
fn kval(v: Option<Bytes>) -> Res {
    match v { None => Res::Null, Some(b) => Res::Val(tag_of(&b)) }
}

fn ps(v: &mut Vec<u8>, s: &str) {
    v.extend_from_slice(&(s.len() as u32).to_be_bytes());
    v.extend_from_slice(s.as_bytes());
}
fn js(v: &[(&str, Option<u64>)]) -> String {
    let p: Vec<String> = v.iter().filter_map(|(k, x)| x.map(|x| format!("\"{}\":{}", k, x))).collect();
    format!("{{{}}}", p.join(","))
}
pub fn encode(op: &Op, arg: Option<&str>) -> (u8, u8, Vec<u8>) {
    let mut v = vec![];
    let a = arg.unwrap_or("0 0 x");
    let mut p = a.splitn(3, ' ');
    let seq: u64 = p.next().unwrap_or("0").parse().unwrap_or(0);
    let gen: u64 = p.next().unwrap_or("0").parse().unwrap_or(0);
    let cid = p.next().unwrap_or("").to_string();
    let c = match op {
        Op::Echo { tag, size } => { v.extend_from_slice(&body(*tag, *size)); 0x00 }
        Op::KSet { k, tag, size, ttl } => { ps(&mut v, k); ps(&mut v, &js(&[("ttl", *ttl)])); v.extend_from_slice(&body(*tag, *size)); 0x02 }
        Op::KGet { k } => { ps(&mut v, k); 0x03 }
        Op::KDel { k } => { ps(&mut v, k); 0x04 }
        Op::QCreate { q, vt, retries } => { ps(&mut v, q); ps(&mut v, &js(&[("visibilityTimeoutMs", *vt), ("maxRetries", retries.map(|x| x as u64))])); 0x10 }
        Op::QPush { q, tag, size, prio } => { ps(&mut v, q); ps(&mut v, &js(&[("priority", prio.map(|x| x as u64))])); v.extend_from_slice(&body(*tag, *size)); 0x11 }
        Op::QConsume { q, max, wait } => { ps(&mut v, q); ps(&mut v, &js(&[("batchSize", *max), ("waitMs", *wait)])); 0x12 }
        Op::QAck { q, .. } => { v.extend_from_slice(uuid_of(a).as_bytes()); ps(&mut v, q); 0x13 }
        Op::QExists { q } => { ps(&mut v, q); 0x14 }
        Op::QDelete { q } => { ps(&mut v, q); 0x15 }
        Op::QPeek { q, limit, offset } => { ps(&mut v, q); v.extend_from_slice(&limit.to_be_bytes()); v.extend_from_slice(&offset.to_be_bytes()); 0x16 }
        Op::QMove { q, .. } => { ps(&mut v, q); v.extend_from_slice(uuid_of(a).as_bytes()); 0x17 }
        Op::QDelDlq { q, .. } => { ps(&mut v, q); v.extend_from_slice(uuid_of(a).as_bytes()); 0x18 }
        Op::QPurge { q } => { ps(&mut v, q); 0x19 }
        Op::QNack { q, reason, .. } => { v.extend_from_slice(uuid_of(a).as_bytes()); ps(&mut v, q); ps(&mut v, reason); 0x1A }
        Op::Pub { t, tag, size, retain, ttl } => {
            ps(&mut v, t);
            let mut o = vec![];
            if let Some(r) = retain { o.push(format!("\"retain\":{}", r)); }
            if let Some(x) = ttl { o.push(format!("\"ttl\":{}", x)); }
            ps(&mut v, &format!("{{{}}}", o.join(",")));
            v.extend_from_slice(&body(*tag, *size));
            0x21
        }
        Op::Sub { t } => { ps(&mut v, t); 0x22 }
        Op::Unsub { t } => { ps(&mut v, t); 0x23 }
        Op::SCreate { s, age, bytes, ret } => {
            ps(&mut v, s);
            if *ret { ps(&mut v, &format!("{{\"retention\":{}}}", js(&[("maxAgeMs", *age), ("maxBytes", *bytes)]))); } else { ps(&mut v, "{}"); }
            0x30
        }
        Op::SPub { s, tag, size } => { ps(&mut v, s); v.extend_from_slice(&body(*tag, *size)); 0x31 }
        Op::SFetch { s, g, limit, wait } => {
            ps(&mut v, s); ps(&mut v, g); ps(&mut v, &cid);
            v.extend_from_slice(&gen.to_be_bytes()); v.extend_from_slice(&limit.to_be_bytes()); v.extend_from_slice(&wait.to_be_bytes());
            0x32
        }
        Op::SJoin { s, g } => { ps(&mut v, g); ps(&mut v, s); 0x33 }
        Op::SAck { s, g, .. } => {
            ps(&mut v, s); ps(&mut v, g); ps(&mut v, &cid);
            v.extend_from_slice(&gen.to_be_bytes()); v.extend_from_slice(&seq.to_be_bytes());
            0x34
        }
        Op::SExists { s } => { ps(&mut v, s); 0x35 }
        Op::SDelete { s } => { ps(&mut v, s); 0x36 }
        Op::SSeek { s, g, end } => { ps(&mut v, s); ps(&mut v, g); v.push(*end as u8); 0x38 }
        Op::SLeave { s, g } => { ps(&mut v, s); ps(&mut v, g); ps(&mut v, &cid); v.extend_from_slice(&gen.to_be_bytes()); 0x39 }
        Op::Frame { ftype, op, hex } => { return (*ftype, *op, unhex(hex)); }
        _ => 0xff,
    };
    (1, c, v)
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() - self.1 < n { return None; }
        let r = &self.0[self.1..self.1 + n];
        self.1 += n;
        Some(r)
    }
    fn u32(&mut self) -> Option<u32> { Some(u32::from_be_bytes(self.take(4)?.try_into().ok()?)) }
    fn u64(&mut self) -> Option<u64> { Some(u64::from_be_bytes(self.take(8)?.try_into().ok()?)) }
    fn b(&mut self) -> Option<&'a [u8]> { let n = self.u32()? as usize; self.take(n) }
    fn s(&mut self) -> Option<String> { String::from_utf8(self.b()?.to_vec()).ok() }
    fn uuid(&mut self) -> Option<String> { Some(Uuid::from_slice(self.take(16)?).ok()?.to_string()) }
    fn rest(&mut self) -> Vec<u8> { let r = self.0[self.1..].to_vec(); self.1 = self.0.len(); r }
    fn end(&self) -> Option<()> { if self.1 == self.0.len() { Some(()) } else { None } }
}
fn decode(op: &Op, status: u8, p: &[u8]) -> Res {
    dec(op, status, p).unwrap_or_else(|| Res::Garbled(format!("status {} body {}", status, hex(&p[..p.len().min(64)]))))
}
fn dec(op: &Op, status: u8, p: &[u8]) -> Option<Res> {
    let mut r = Rd(p, 0);
    match status {
        0 => {
            r.end()?;
            return match op {
                Op::QAck { .. } | Op::QNack { .. } | Op::QExists { .. } | Op::SExists { .. } => Some(Res::Bool(true)),
                Op::QConsume { .. } | Op::QPeek { .. } | Op::SPub { .. } | Op::SJoin { .. } | Op::SFetch { .. } | Op::KGet { .. } | Op::Echo { .. } => None,
                _ => Some(Res::Ok),
            };
        }
        1 => {
            let m = r.b()?;
            r.end()?;
            let m = String::from_utf8_lossy(m).to_string();
            return Some(match (op, m.as_str()) {
                (Op::QAck { .. }, "ACK failed") | (Op::QNack { .. }, "NACK failed") | (Op::QExists { .. }, "Queue not found") | (Op::SExists { .. }, "Stream not found") => Res::Bool(false),
                _ => Res::Err(m),
            });
        }
        2 => { r.end()?; return Some(Res::Null); }
        3 => {}
        _ => return None,
    }
    let out = match op {
        Op::Echo { .. } => { let b = r.rest(); Res::Val(tag_of(&b)) }
        Op::KGet { .. } => { let b = r.rest(); Res::Val(tag_of(&b)) }
        Op::QConsume { .. } => {
            let n = r.u32()?;
            let mut v = vec![];
            for _ in 0..n { let id = r.uuid()?; let b = r.b()?; v.push(QMsg { id, tag: tag_of(b), prio: None, att: None, why: None }); }
            Res::Msgs(v)
        }
        Op::QPeek { .. } => {
            let total = r.u32()? as u64;
            let n = r.u32()?;
            let mut v = vec![];
            for _ in 0..n {
                let id = r.uuid()?; let b = r.b()?; let att = r.u32()?; let why = r.s()?;
                v.push(QMsg { id, tag: tag_of(b), prio: None, att: Some(att), why: Some(why) });
            }
            Res::Peek { total, msgs: v }
        }
        Op::QMove { .. } | Op::QDelDlq { .. } => { let b = r.take(1)?[0]; if b > 1 { return None; } Res::Bool(b == 1) }
        Op::QPurge { .. } => Res::Num(r.u32()? as u64),
        Op::SPub { .. } => Res::Num(r.u64()?),
        Op::SJoin { .. } => { let floor = r.u64()?; let gen = r.u64()?; let cid = r.s()?; Res::Joined { floor, gen, cid } }
        Op::SFetch { .. } => {
            let n = r.u32()?;
            let mut v = vec![];
            for _ in 0..n { let seq = r.u64()?; let ts = r.u64()?; let b = r.b()?; v.push(SMsg { seq, tag: tag_of(b), ts }); }
            Res::SMsgs(v)
        }
        Op::Frame { .. } => { r.rest(); Res::Ok }
        _ => return None,
    };
    r.end()?;
    Some(out)
}
