// A small executable model of the nexo server: enough of every broker to serve the SDK, with an honest log of what it did.
import { Conn } from './world.mjs';

const OK = 0, ERR = 1, NULL = 2, DATA = 3;
const NAMES = { 2: 'set', 3: 'get', 4: 'del', 0x10: 'qcreate', 0x11: 'push', 0x12: 'consume', 0x13: 'ack', 0x14: 'qexists', 0x15: 'qdelete', 0x16: 'peek', 0x17: 'move', 0x18: 'deldlq', 0x19: 'purge', 0x1A: 'nack', 0x21: 'pub', 0x22: 'sub', 0x23: 'unsub', 0x30: 'screate', 0x31: 'spub', 0x32: 'fetch', 0x33: 'join', 0x34: 'sack', 0x35: 'sexists', 0x36: 'sdelete', 0x38: 'seek', 0x39: 'leave' };

class In {
  constructor(b) { this.b = b; this.o = 0; }
  u8() { if (this.o >= this.b.length) throw new Error('short'); return this.b[this.o++]; }
  u32() { const v = this.b.readUInt32BE(this.o); this.o += 4; return v; }
  u64() { const v = this.b.readBigUInt64BE(this.o); this.o += 8; return v; }
  str() { const n = this.u32(); if (this.o + n > this.b.length) throw new Error('short'); const s = this.b.toString('utf8', this.o, this.o + n); this.o += n; return s; }
  uuid() { if (this.o + 16 > this.b.length) throw new Error('short'); const s = this.b.toString('hex', this.o, this.o + 16); this.o += 16; return s; }
  rest() { const r = Buffer.from(this.b.subarray(this.o)); this.o = this.b.length; return r; }
  end() { if (this.o !== this.b.length) throw new Error('trailing bytes'); }
}
const u32 = n => { const b = Buffer.alloc(4); b.writeUInt32BE(n); return b; };
const u64 = n => { const b = Buffer.alloc(8); b.writeBigUInt64BE(BigInt(n)); return b; };
const str = s => { const b = Buffer.from(s); return Buffer.concat([u32(b.length), b]); };
export function frame(type, meta, id, payload) {
  const h = Buffer.alloc(10); h[0] = type; h[1] = meta; h.writeUInt32BE(id >>> 0, 2); h.writeUInt32BE(payload.length, 6);
  return Buffer.concat([h, payload]);
}
export function matches(pattern, topic) {
  const p = pattern.split('/'), t = topic.split('/');
  for (let i = 0; i < p.length; i++) {
    if (p[i] === '#') return true;
    if (i >= t.length || (p[i] !== '+' && p[i] !== t[i])) return false;
  }
  return p.length === t.length;
}

export class Server {
  constructor(world, cfg) {
    this.w = world; this.cfg = cfg; this.up = true; this.conns = []; this.ids = 0; this.life = 1;
    this.store = new Map(); this.retained = new Map(); this.queues = new Map(); this.streams = new Map();
    this.slow = null; this.erring = null; this.gen = 1; this.members = 0; this.hole = 0; this.errs = 0;
  }
  // ---- connections
  dial(sock, owner, done) {
    const w = this.w, n = w.net;
    const rtt = n.lat * (1 + w.rng.f()) + 0.01;
    const go = tries => {
      if (this.hole > w.now) {
        // nobody answers: the client's system tries again a few times
        if (tries >= 5) { w.after(1000, () => done({ code: 'ETIMEDOUT' }), 'dial'); return; }
        w.after(1000 * Math.pow(2, tries), () => go(tries + 1), 'dial');
        return;
      }
      w.after(rtt, () => {
        if (sock.destroyed) return;
        if (this.hole > w.now) return go(tries + 1);
        if (!this.up) { w.fault('refused'); return done({ code: 'ECONNREFUSED' }); }
        const c = new Conn(w, this, sock, owner, ++this.ids);
        c.subs = new Map(); c.life = this.life; this.conns.push(c);
        w.log({ e: 'accept', conn: c.id, c: owner });
        done({ conn: c });
      }, 'dial');
    };
    go(0);
  }
  lost(c) {
    this.conns = this.conns.filter(x => x !== c);
    this.w.log({ e: 'lost', conn: c.id, c: c.owner });
    c.subs.clear();
    for (const s of this.streams.values()) for (const g of s.groups.values()) for (const m of [...g.members.values()]) if (m.conn === c) this.out(s, g, m);
    for (const q of this.queues.values()) q.waiters = q.waiters.filter(x => x.conn !== c);
  }
  down(r) {
    if (!this.up) return;
    this.up = false; this.w.fault('server-down'); this.w.log({ e: 'down' });
    for (const c of [...this.conns]) c.cut(r.chance(1, 2) ? 'rst' : 'fin', r);
    this.store.clear();
    for (const s of this.streams.values()) for (const g of s.groups.values()) { for (const m of [...g.members.values()]) this.out(s, g, m); }
  }
  upAgain() { if (this.up) return; this.up = true; this.life++; this.w.log({ e: 'up' }); }

  /** what the client put on the wire, at the moment it did */
  sent(c, f) {
    const op = NAMES[f[1]] || f[1], i = new In(Buffer.from(f.subarray(10))), e = { e: 'sent', conn: c.id, c: c.owner, id: f.readUInt32BE(2), op };
    try {
      if (op === 'ack') { e.m = i.uuid(); e.q = i.str(); }
      else if (op === 'nack') { e.m = i.uuid(); e.q = i.str(); e.why = i.str(); }
      else if (op === 'consume') e.q = i.str();
      else if (op === 'fetch') { e.s = i.str(); e.group = i.str(); e.member = i.str(); }
      else if (op === 'sack') { e.s = i.str(); e.group = i.str(); e.member = i.str(); e.gen = Number(i.u64()); e.seq = Number(i.u64()); }
      else if (op === 'join') { e.group = i.str(); e.s = i.str(); }
      else if (op === 'sub' || op === 'unsub') e.topic = i.str();
    } catch (x) { e.bad = x.message; }
    this.w.log(e);
  }
  // ---- requests
  request(c, f) {
    const op = f[1], id = f.readUInt32BE(2);
    const body = Buffer.from(f.subarray(10));
    const w = this.w;
    const r = { conn: c.id, c: c.owner, id, op: NAMES[op] || op };
    if (f[0] !== 1) { w.log({ e: 'badframe', ...r, why: 'frame type ' + f[0] }); return; }
    // requests of one connection are served side by side
    let d = w.net.serve * w.rng.f();
    if (!w.rng.chance(w.net.shuffle, 100)) { c.turn = Math.max(c.turn || 0, w.now + d) + 1e-6; d = c.turn - w.now; }
    w.after(d, () => {
      if (!c.open) return;
      let delay = 0;
      if (this.slow && w.rng.chance(this.slow.p, 100)) { delay = this.slow.min + w.rng.f() * (this.slow.max - this.slow.min); w.fault('slow-answer'); }
      const ans = (status, payload, what, got) => {
        const a = { e: 'served', ...r, status, ...what };
        w.log(a);
        w.after(delay, () => { if (c.open) c.toClient(frame(2, status, id, payload), () => { a.got = w.now; w.log({ e: 'answered', conn: c.id, id, n: a.g }); if (got) got(); }); }, 'answer');
      };
      if (this.erring && op !== 0x22 && op !== 0x39 && op !== 0x13 && op !== 0x1A && op !== 0x34 && w.rng.chance(this.erring.p, 100)) { w.fault('error-answer'); const m = `${this.erring.msg} #${++this.errs}`; return ans(ERR, str(m), { err: m, any: true }); }
      try { this.serve(c, op, new In(body), ans, r); } catch (x) { ans(ERR, str('bad request: ' + x.message), { err: 'bad request: ' + x.message, bad: true }); }
    }, 'serve');
  }
  serve(c, op, i, ans, r) {
    const w = this.w;
    const ok = what => ans(OK, Buffer.alloc(0), what || {});
    const no = (m, what) => ans(ERR, str(m), { ...what, err: m });
    switch (op) {
      case 2: { const k = i.str(), o = JSON.parse(i.str()), v = i.rest(); this.store.set(k, v); return ok({ k, v: v.toString('hex'), o }); }
      case 3: { const k = i.str(); i.end(); const v = this.store.get(k); return v === undefined ? ans(NULL, Buffer.alloc(0), { k }) : ans(DATA, v, { k, v: v.toString('hex') }); }
      case 4: { const k = i.str(); i.end(); this.store.delete(k); return ok({ k }); }
      // ---- pub/sub
      case 0x21: { const t = i.str(), o = JSON.parse(i.str()), v = i.rest(); this.publish(t, v, !!o.retain, r); return ok({ topic: t, v: v.toString('hex'), o }); }
      case 0x22: {
        const t = i.str(); i.end();
        c.subs.set(t, true);
        for (const [k, v] of this.retained) if (matches(t, k)) this.pushTo(c, k, v, 'retained');
        return ok({ topic: t });
      }
      case 0x23: { const t = i.str(); i.end(); c.subs.delete(t); return ok({ topic: t }); }
      // ---- queues
      case 0x10: { const n = i.str(), o = JSON.parse(i.str()); i.end(); if (!this.queues.has(n)) this.queues.set(n, this.newQueue(n, o.visibilityTimeoutMs, o.maxRetries)); return ok({ q: n, o }); }
      case 0x14: { const n = i.str(); i.end(); return this.queues.has(n) ? ok({ q: n }) : no('Queue not found', { q: n }); }
      case 0x15: { const n = i.str(); i.end(); const q = this.queues.get(n); if (q) { this.queues.delete(n); for (const x of q.waiters) x.no(`Queue '${n}' not found`); } return ok({ q: n }); }
      case 0x11: { const n = i.str(), o = JSON.parse(i.str()), v = i.rest(); const q = this.queues.get(n); if (!q) return no(`Queue '${n}' not found. Create it first.`, { q: n, v: v.toString('hex'), o }); const m = this.push(q, v, o.priority || 0); return ok({ q: n, v: v.toString('hex'), m: m.id, o }); }
      case 0x12: {
        const n = i.str(), o = JSON.parse(i.str()); i.end();
        const q = this.queues.get(n); if (!q) return no(`Queue '${n}' not found. Create it first.`, { q: n });
        if (!Number.isInteger(o.batchSize) || !Number.isInteger(o.waitMs)) return no('Invalid JSON options', { q: n });
        w.log({ e: 'asked', ...r, q: n, wait: o.waitMs });
        const x = { conn: c, max: o.batchSize, until: w.now + o.waitMs, done: false };
        x.give = () => { if (x.done) return; x.done = true; const l = this.take(q, x.max); ans(DATA, Buffer.concat([u32(l.length), ...l.map(m => Buffer.concat([Buffer.from(m.id, 'hex'), u32(m.v.length), m.v]))]), { q: n, msgs: l.map(m => m.id) }); };
        x.no = m => { if (x.done) return; x.done = true; no(m, { q: n }); };
        if (q.ready.length || o.waitMs === 0) return x.give();
        q.waiters.push(x);
        w.at(x.until, () => { if (!x.done && c.open) { q.waiters = q.waiters.filter(y => y !== x); x.give(); } }, 'wait');
        return;
      }
      case 0x13: { const id = i.uuid(), n = i.str(); i.end(); const q = this.queues.get(n); const l = q && q.leased.get(id); if (!l) return no('ACK failed', { q: n, m: id }); q.leased.delete(id); return ok({ q: n, m: id }); }
      case 0x1A: { const id = i.uuid(), n = i.str(), why = i.str(); i.end(); const q = this.queues.get(n); const l = q && q.leased.get(id); if (!l) return no('NACK failed', { q: n, m: id, why }); this.back(q, l, why); return ok({ q: n, m: id, why }); }
      case 0x16: { const n = i.str(), lim = i.u32(), off = i.u32(); i.end(); const q = this.queues.get(n); if (!q) return no(`Queue '${n}' not found`, { q: n, lim, off }); const l = q.dlq.slice(off, off + lim); return ans(DATA, Buffer.concat([u32(q.dlq.length), u32(l.length), ...l.map(m => Buffer.concat([Buffer.from(m.id, 'hex'), u32(m.v.length), m.v, u32(m.att), str(m.why)]))]), { q: n, lim, off, total: q.dlq.length, dlq: l.map(m => ({ id: m.id, v: m.v.toString('hex'), att: m.att, why: m.why })) }); }
      case 0x17: case 0x18: { const n = i.str(), id = i.uuid(); i.end(); const q = this.queues.get(n); if (!q) return no(`Queue '${n}' not found`, { q: n, m: id }); const m = q.dlq.find(m => m.id === id); q.dlq = q.dlq.filter(x => x !== m); if (m && op === 0x17) { m.att = 0; q.ready.push(m); this.wakeQ(q); } return ans(DATA, Buffer.from([m ? 1 : 0]), { q: n, m: id, bool: !!m }); }
      case 0x19: { const n = i.str(); i.end(); const q = this.queues.get(n); if (!q) return no(`Queue '${n}' not found`, { q: n }); const k = q.dlq.length; q.dlq = []; return ans(DATA, u32(k), { q: n, count: k }); }
      // ---- streams
      case 0x30: { const n = i.str(); JSON.parse(i.str()); i.end(); if (!this.streams.has(n)) this.streams.set(n, this.newStream(n)); return ok({ s: n }); }
      case 0x35: { const n = i.str(); i.end(); return this.streams.has(n) ? ok({ s: n }) : no('Stream not found', { s: n }); }
      case 0x36: { const n = i.str(); i.end(); const s = this.streams.get(n); this.streams.delete(n); if (s) for (const g of s.groups.values()) for (const m of [...g.members.values()]) this.out(s, g, m); return ok({ s: n }); }
      case 0x31: { const n = i.str(), v = i.rest(); const s = this.streams.get(n); if (!s) return no('Topic not found', { s: n, v: v.toString('hex') }); const seq = this.append(s, v); return ans(DATA, u64(seq), { s: n, seq, v: v.toString('hex') }); }
      case 0x33: {
        const gn = i.str(), n = i.str(); i.end();
        const s = this.streams.get(n); if (!s) return no('Topic not found', { s: n, group: gn });
        let g = s.groups.get(gn); if (!g) s.groups.set(gn, g = { n: gn, gen: ++this.gen, next: 1, redeliver: [], out: new Map(), acked: new Set(), tries: new Map(), members: new Map() });
        const m = { id: `${c.owner}-${++this.members}`, conn: c, waiter: null };
        g.members.set(m.id, m);
        return ans(DATA, Buffer.concat([u64(0), u64(g.gen), str(m.id)]), { s: n, group: gn, member: m.id, gen: g.gen });
      }
      case 0x32: {
        const n = i.str(), gn = i.str(), mid = i.str(), gen = i.u64(), lim = i.u32(), wait = i.u32(); i.end();
        const s = this.streams.get(n); if (!s) return no('Topic not found', { s: n });
        const g = s.groups.get(gn); if (!g) return no('Group not found', { s: n });
        const what = { s: n, group: gn, member: mid };
        if (BigInt(g.gen) !== gen) return no('FENCED', what);
        const m = g.members.get(mid); if (!m || m.conn !== c) return no('NOT_MEMBER', what);
        w.log({ e: 'asked', ...r, s: n, member: mid, wait });
        const x = { done: false };
        x.give = () => {
          if (x.done) return; x.done = true; if (m.waiter === x) m.waiter = null;
          const l = [];
          while (l.length < lim) {
            let q;
            if (g.redeliver.length) q = g.redeliver.shift(); else if (g.next <= s.log.length) q = g.next++; else break;
            if (g.acked.has(q)) continue;
            g.tries.set(q, (g.tries.get(q) || 0) + 1);
            const o = { q, m: m.id };
            g.out.set(q, o);
            w.after(this.cfg.ackWait, () => { if (g.out.get(q) === o) this.free(s, g, q); }, 'ackwait');
            l.push(q);
          }
          ans(DATA, Buffer.concat([u32(l.length), ...l.map(q => Buffer.concat([u64(q), u64(1), u32(s.log[q - 1].length), s.log[q - 1]]))]), { ...what, seqs: l, gen: g.gen });
        };
        x.no = msg => { if (x.done) return; x.done = true; no(msg, what); };
        if (this.avail(s, g) || wait === 0) return x.give();
        if (m.waiter) m.waiter.give();
        m.waiter = x;
        w.after(wait, () => { if (!x.done && c.open) x.give(); }, 'wait');
        return;
      }
      case 0x34: {
        const n = i.str(), gn = i.str(), mid = i.str(), gen = i.u64(), q = Number(i.u64()); i.end();
        const s = this.streams.get(n), g = s && s.groups.get(gn); if (!g) return no('Group not found', { s: n });
        const what = { s: n, group: gn, member: mid, seq: q, gen: Number(gen) };
        if (BigInt(g.gen) !== gen) return no('FENCED', what);
        const o = g.out.get(q); if (!g.members.has(mid) || !o || o.m !== mid) return no('NOT_MEMBER', what);
        g.out.delete(q); g.acked.add(q); return ok(what);
      }
      case 0x38: {
        const n = i.str(), gn = i.str(), to = i.u8(); i.end();
        const s = this.streams.get(n), g = s && s.groups.get(gn); if (!g) return no(s ? 'Group not found' : 'Topic not found', { s: n, group: gn, to });
        for (const m of [...g.members.values()]) { if (m.waiter) m.waiter.no('FENCED'); }
        g.gen = ++this.gen; g.out.clear(); g.redeliver = []; g.tries.clear();
        g.members.clear();
        if (to === 0) { g.next = 1; g.acked.clear(); } else { g.next = s.log.length + 1; for (let k = 1; k < g.next; k++) g.acked.add(k); }
        return ok({ s: n, group: gn, to });
      }
      case 0x39: {
        const n = i.str(), gn = i.str(), mid = i.str(), gen = i.u64(); i.end();
        const s = this.streams.get(n), g = s && s.groups.get(gn); if (!g) return no('Group not found', { s: n });
        const what = { s: n, group: gn, member: mid };
        if (BigInt(g.gen) !== gen) return no('FENCED', what);
        const m = g.members.get(mid); if (!m) return no('NOT_MEMBER', what);
        this.out(s, g, m, true); return ok(what);
      }
      default: return no('Unknown opcode', { bad: true });
    }
  }
  // ---- pub/sub
  publish(t, v, retain, r) {
    if (retain) { if (v.length === 0) this.retained.delete(t); else this.retained.set(t, v); }
    for (const c of this.conns) if ([...c.subs.keys()].some(p => matches(p, t))) this.pushTo(c, t, v, r ? 'live' : 'foreign');
  }
  pushTo(c, t, v, kind) {
    const e = this.w.log({ e: 'pushed', conn: c.id, c: c.owner, topic: t, v: v.toString('hex'), kind });
    this.w.after(this.w.net.serve * this.w.rng.f(), () => { if (c.open) c.toClient(frame(3, 0, 0, Buffer.concat([str(t), v])), () => { this.w.log({ e: 'received', conn: c.id, c: c.owner, topic: t, v: e.v, n: e.g }); }); }, 'push');
  }
  // ---- queues
  newQueue(n, vt, max) { return { n, vt: vt ?? 30000, max: max ?? 5, ready: [], leased: new Map(), dlq: [], waiters: [] }; }
  bury(q, v) { const m = { id: this.uid(), v, prio: 0, att: 3, why: 'foreign' }; q.dlq.push(m); this.w.log({ e: 'pushedq', q: q.n, m: m.id, v: v.toString('hex'), dlq: true }); }
  uid() { return Buffer.from([...Array(16)].map(() => this.w.rng.below(256))).toString('hex'); }
  newStream(n) { return { n, log: [], groups: new Map() }; }
  push(q, v, prio) {
    const m = { id: this.uid(), v, prio, att: 0, why: '' };
    q.ready.push(m); this.w.log({ e: 'pushedq', q: q.n, m: m.id, v: v.toString('hex') });
    this.wakeQ(q);
    return m;
  }
  take(q, max) {
    const l = [];
    while (l.length < max && q.ready.length) {
      const m = q.ready.shift();
      m.att++; q.leased.set(m.id, m);
      const lease = m.lease = (m.lease || 0) + 1;
      this.w.after(q.vt, () => { if (q.leased.get(m.id) === m && m.lease === lease) this.back(q, m, 'Max retries exceeded'); }, 'lease');
      l.push(m);
    }
    return l;
  }
  back(q, m, why) {
    q.leased.delete(m.id);
    if (m.att >= q.max) { m.why = why; q.dlq.push(m); this.w.log({ e: 'dead', q: q.n, m: m.id, why }); }
    else { q.ready.push(m); this.wakeQ(q); }
  }
  wakeQ(q) { while (q.ready.length && q.waiters.length) q.waiters.shift().give(); }
  // ---- streams
  append(s, v) { s.log.push(v); this.w.log({ e: 'appended', s: s.n, seq: s.log.length, v: v.toString('hex'), n: s.uid }); for (const g of s.groups.values()) this.wakeG(s, g); return s.log.length; }
  avail(s, g) { return g.redeliver.some(q => !g.acked.has(q)) || g.next <= s.log.length; }
  wakeG(s, g) { for (const m of g.members.values()) if (m.waiter && this.avail(s, g)) m.waiter.give(); }
  free(s, g, q) {
    g.out.delete(q);
    if ((g.tries.get(q) || 0) >= this.cfg.deliveries) { g.acked.add(q); this.w.log({ e: 'parked', s: s.n, group: g.n, seq: q }); return; }
    g.redeliver.push(q); g.redeliver.sort((a, b) => a - b); this.wakeG(s, g);
  }
  out(s, g, m, told) {
    g.members.delete(m.id);
    if (m.waiter) { if (told) m.waiter.no('NOT_MEMBER'); else m.waiter.done = true; m.waiter = null; }
    for (const [q, o] of [...g.out]) if (o.m === m.id) this.free(s, g, q);
  }
}
