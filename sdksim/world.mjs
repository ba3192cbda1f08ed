// The simulated world of the TypeScript SDK: time, timers, sockets, faults.  One seed is one execution.
import { EventEmitter } from 'node:events';

export class Rng {
  constructor(seed) { this.s = seed >>> 0; this.t = (seed / 4294967296) >>> 0; for (let i = 0; i < 4; i++) this.u32(); }
  u32() {
    this.s = (this.s + 0x9E3779B9) >>> 0;
    let z = (this.s ^ Math.imul(this.t, 0x85EBCA6B)) >>> 0;
    z = Math.imul(z ^ (z >>> 16), 0x21F0AAAD); z = Math.imul(z ^ (z >>> 15), 0x735A2D97);
    return (z ^ (z >>> 15)) >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  below(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + Math.floor(this.f() * (b - a + 1)); }
  chance(a, b) { return this.f() * b < a; }
  pick(l) { return l[this.below(l.length)]; }
  /** log-uniform */
  log(a, b) { return a * Math.pow(b / a, this.f()); }
}
export function mix(a, b) { let h = Math.imul((a >>> 0) ^ 0x9E3779B9, 0x85EBCA6B) ^ Math.imul((b >>> 0) + 0x7F4A7C15, 0xC2B2AE35); h ^= h >>> 13; h = Math.imul(h, 0x27D4EB2F); return (h ^ (h >>> 15)) >>> 0; }

const BASE = 1_700_000_000_000;

export class World {
  constructor(seed, net) {
    this.rng = new Rng(seed);
    this.net = net;
    this.now = 0;
    this.seq = 0;
    this.heap = [];
    this.live = new Map(); // timers by id
    this.wall = 0;
    this.sockets = [];
    this.hist = [];
    this.digest = 2166136261;
    this.sched = 2166136261;
    this.faults = {};
    this.steps = 0;
    this.closers = [];
  }
  fault(k, n = 1) { this.faults[k] = (this.faults[k] || 0) + n; }
  log(e) {
    e.t = Math.round(this.now * 1000) / 1000;
    e.g = this.hist.length;
    this.hist.push(e);
    const s = JSON.stringify(e, (k, v) => typeof v === 'bigint' ? v.toString() : v && v.type === 'Buffer' ? Buffer.from(v.data).toString('hex') : v);
    for (let i = 0; i < s.length; i++) { this.digest ^= s.charCodeAt(i); this.digest = Math.imul(this.digest, 16777619) >>> 0; }
    return e;
  }
  // ---- events
  at(t, fn, what) {
    if (t === Infinity) return { off: true };
    const e = { t: Math.max(t, this.now), n: this.seq++, fn, what };
    const h = this.heap; let i = h.length; h.push(e);
    while (i > 0) { const p = (i - 1) >> 1; if (less(h[p], e)) break; h[i] = h[p]; i = p; }
    h[i] = e;
    return e;
  }
  after(d, fn, what) { return this.at(this.now + d, fn, what); }
  next() {
    const h = this.heap; const top = h[0]; const e = h.pop();
    if (h.length > 0) {
      let i = 0;
      for (;;) { let c = 2 * i + 1; if (c >= h.length) break; if (c + 1 < h.length && less(h[c + 1], h[c])) c++; if (less(e, h[c])) break; h[i] = h[c]; i = c; }
      h[i] = e;
    }
    return top;
  }
  /** one event and everything that follows from it at once */
  async step() {
    const e = this.next();
    if (e.off) return true;
    if (e.t > this.now) this.now = e.t;
    this.steps++;
    this.sched = Math.imul(this.sched ^ hash(e.what || ''), 16777619) >>> 0;
    try { e.fn(); } catch (x) { this.crash(x, e.what); }
    await tick();
    return true;
  }
  crash(x, what) { if (!this.dead) { this.dead = true; this.log({ e: 'crash', what, msg: String(x && x.message || x), stack: String(x && x.stack || '').split('\n').slice(0, 4).join(' | ').replace(/\(?\/[^ )]*\)?/g, '') }); } }

  // ---- what the SDK sees
  globals(seed, owner) {
    const w = this;
    const r = new Rng(mix(seed, 77));
    const mk = (fn, ms, args, every) => {
      ms = Math.max(1, Number.isFinite(+ms) ? +ms : 1);
      if (ms > 2147483647) ms = 1;
      const t = new Timer(w, ms, fn, args, every);
      t.owner = owner;
      t.arm();
      return t;
    };
    const off = t => { if (t && typeof t === 'object' && t.stop) t.stop(); else if (t != null && w.live.has(+t)) w.live.get(+t).stop(); };
    const D = class extends Date { constructor(...a) { if (a.length === 0) super(w.clock()); else super(...a); } static now() { return w.clock(); } };
    const math = Object.defineProperties({}, { ...Object.getOwnPropertyDescriptors(Math), random: { value: () => r.f() } });
    return {
      setTimeout: (f, ms, ...a) => mk(f, ms, a, false), clearTimeout: off,
      setInterval: (f, ms, ...a) => mk(f, ms, a, true), clearInterval: off,
      setImmediate: (f, ...a) => mk(f, 1, a, false), clearImmediate: off,
      Date: D, Math: math,
      performance: { now: () => w.now, timeOrigin: BASE },
      process: Object.assign(new EventEmitter(), { env: {}, exit: c => w.log({ e: 'exit', c }), nextTick: (f, ...a) => process.nextTick(f, ...a), hrtime: Object.assign(() => [Math.floor(w.now / 1000), Math.floor((w.now % 1000) * 1e6)], { bigint: () => BigInt(Math.floor(w.now * 1e6)) }), uptime: () => w.now / 1000, platform: 'linux', versions: process.versions, pid: 1 }),
      console: { log() {}, info() {}, warn() {}, error() {}, debug() {}, trace() {} },
    };
  }
  clock() { return Math.floor(BASE + this.now + this.wall); }
  /** timers that would keep the process alive */
  pendingTimers() { let n = 0; for (const t of this.live.values()) if (t.ref_) n++; return n; }
}
function less(a, b) { return a.t < b.t || (a.t === b.t && a.n < b.n); }
function hash(s) { let h = 2166136261; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619); return h >>> 0; }
export const tick = () => new Promise(r => setImmediate(r));

let timerIds = 0;
export function resetIds() { timerIds = 0; socketIds = 0; }
class Timer {
  constructor(w, ms, fn, args, every) { this.w = w; this.ms = ms; this.fn = fn; this.args = args; this.every = every; this.ref_ = true; this.id = ++timerIds; }
  arm() {
    const w = this.w;
    w.live.set(this.id, this);
    // a timer fires at its time or a little later, in the order of the times
    const t = Math.ceil(w.now + this.ms);
    this.ev = w.at(t, () => { w.live.delete(this.id); this.ev = null; if (this.every) this.arm(); this.fn(...this.args); }, 'timer');
  }
  stop() { if (this.ev) { this.ev.off = true; this.ev = null; } this.every = false; this.w.live.delete(this.id); }
  ref() { this.ref_ = true; return this; }
  unref() { this.ref_ = false; return this; }
  hasRef() { return this.ref_; }
  refresh() { if (this.ev) this.ev.off = true; this.arm(); return this; }
  close() { this.stop(); return this; }
  [Symbol.toPrimitive]() { return this.id; }
}

// ---------------------------------------------------------------- sockets
let socketIds = 0;
const err = (code, call) => Object.assign(new Error(`${call} ${code}`), { code, syscall: call });

/** the network module as the SDK sees it; `owner` tells which client it is */
export function netFor(world, owner, server) {
  class Socket extends EventEmitter {
    constructor() {
      super();
      this.id = ++socketIds;
      this.destroyed = false; this.connecting = false; this.pending = true; this.writable = true; this.readable = true;
      this.bytesRead = 0; this.bytesWritten = 0;
      world.sockets.push(this); this.owner = owner; this.conn = null; this.state = 'new';
    }
    get readyState() { return this.state === 'open' ? 'open' : this.connecting ? 'opening' : 'closed'; }
    get closed() { return this.state === 'closed'; }
    setNoDelay() { return this; } setKeepAlive() { return this; } setTimeout() { return this; } ref() { return this; } unref() { return this; } setEncoding() { return this; } pause() { return this; } resume() { return this; } cork() {} uncork() {}
    address() { return {}; }
    connect(...a) {
      let cb = a.find(x => typeof x === 'function');
      if (this.destroyed) { this.destroyed = false; this.writable = true; }
      this.connecting = true; this.state = 'connecting'; this.early = [];
      if (cb) this.once('connect', cb);
      const attempt = (this.attempt = (this.attempt || 0) + 1);
      world.log({ e: 'connecting', c: owner, s: this.id });
      server.dial(this, owner, ok => {
        if (this.attempt !== attempt || this.state !== 'connecting') { if (ok && ok.conn) ok.conn.gone(); return; }
        this.connecting = false;
        if (ok.conn) {
          this.state = 'open'; this.pending = false; this.conn = ok.conn;
          world.log({ e: 'connected', c: owner, s: this.id, conn: ok.conn.id });
          const e = this.early; this.early = [];
          for (const b of e) ok.conn.fromClient(b);
          this.emit('connect'); this.emit('ready');
        } else this.fail(ok.code, 'connect');
      });
      return this;
    }
    fail(code, call) {
      if (this.destroyed) return;
      this.destroyed = true; this.connecting = false; this.writable = false; this.state = 'closed';
      if (this.conn) this.conn.clientGone();
      const er = code ? err(code, call) : null;
      process.nextTick(() => {
        try { if (er) this.emit('error', er); world.log({ e: 'closed', c: owner, s: this.id, code }); this.emit('close', !!er); } catch (x) { world.crash(x, 'close event'); }
      });
    }
    write(b, enc, cb) {
      if (typeof enc === 'function') cb = enc;
      // like the real one: what cannot go out at once is kept, not copied
      if (!Buffer.isBuffer(b)) b = Buffer.from(b, typeof enc === 'string' ? enc : 'utf8');
      if (this.destroyed || !this.writable) { if (cb) process.nextTick(() => cb(err('ERR_STREAM_DESTROYED', 'write'))); return false; }
      if (this.state === 'connecting') { this.early.push(Buffer.from(b)); return false; }
      if (!this.conn) { this.fail('EPIPE', 'write'); return false; }
      this.bytesWritten += b.length;
      const out = this.conn.fromClient(b, () => { this.writableNeedDrain = false; this.emit('drain'); });
      if (cb) process.nextTick(() => cb());
      if (!out) this.writableNeedDrain = true;
      return out;
    }
    end(b) { if (b) this.write(b); this.writable = false; if (this.conn) this.conn.fin(); else if (!this.destroyed) this.destroy(); return this; }
    destroy(e) {
      if (this.destroyed) return this;
      this.destroyed = true; this.connecting = false; this.writable = false; this.state = 'closed'; this.attempt = (this.attempt || 0) + 1;
      if (this.conn) this.conn.clientGone();
      world.log({ e: 'destroyed', c: owner, s: this.id });
      process.nextTick(() => { try { if (e) this.emit('error', e); world.log({ e: 'closed', c: owner, s: this.id }); this.emit('close', !!e); } catch (x) { world.crash(x, 'close event'); } });
      return this;
    }
    resetAndDestroy() { return this.destroy(); }
    destroySoon() { return this.destroy(); }
  }
  const open = (...a) => new Socket().connect(...a);
  return { Socket, connect: open, createConnection: open, Stream: Socket, isIP: () => 4, default: undefined };
}

/** one established connection: two byte streams with delays, fragments and faults */
export class Conn {
  constructor(world, server, socket, owner, id) {
    this.w = world; this.server = server; this.sock = socket; this.owner = owner; this.id = id;
    this.inT = 0; this.out = Buffer.alloc(0); this.outBusy = false; this.sent = 0; this.got = 0; this.open = true; this.clientOpen = true;
    this.marks = []; this.finAfter = false; this.mutedUntil = 0; this.buf = Buffer.alloc(0);
  }
  lat() { const n = this.w.net; return n.lat * (0.5 + this.w.rng.f()) + (this.w.rng.chance(n.spike, 100) ? n.lat * 20 : 0); }
  fromClient(b, drain) {
    const w = this.w;
    this.wbuf = this.wbuf && this.wbuf.length ? Buffer.concat([this.wbuf, b]) : Buffer.from(b);
    while (this.wbuf.length >= 10) {
      const n = 10 + this.wbuf.readUInt32BE(6);
      if (this.wbuf.length < n) break;
      this.server.sent(this, this.wbuf.subarray(0, n));
      this.wbuf = this.wbuf.subarray(n);
    }
    if (this.clogged) { this.clogged.push(b); this.drain = drain; w.fault('write-waits'); return false; }
    this.go(Buffer.from(b));
    return true;
  }
  /** nothing leaves the client for a while: its system has no room for it */
  clog(ms) {
    if (this.clogged) return;
    const w = this.w;
    w.fault('clog'); this.clogged = [];
    w.after(ms, () => { const l = this.clogged; this.clogged = null; if (!this.clientOpen) return; for (const b of l) this.go(Buffer.from(b)); if (this.drain) { const d = this.drain; this.drain = null; d(); } }, 'unclog');
  }
  go(b) {
    const w = this.w;
    this.inT = Math.max(this.inT, w.now + this.lat(), this.mutedUntil + w.rng.f());
    w.at(this.inT, () => this.arrive(b), 'c2s');
  }
  arrive(b) {
    if (this.mutedUntil > this.w.now) { this.w.at(this.mutedUntil + 0.01, () => this.arrive(b), 'c2s'); return; }
    if (!this.open) return;
    this.buf = this.buf.length ? Buffer.concat([this.buf, b]) : b;
    while (this.buf.length >= 10) {
      const n = 10 + this.buf.readUInt32BE(6);
      if (this.buf.length < n) break;
      const f = this.buf.subarray(0, n);
      this.buf = this.buf.subarray(n);
      this.server.request(this, f);
    }
  }
  /** bytes from the server; `got` is called when the client has received all of them */
  toClient(b, got) {
    if (!this.open || this.dropped) return;
    this.out = Buffer.concat([this.out, b]);
    this.sent += b.length;
    if (got) this.marks.push([this.sent, got]);
    this.pump();
  }
  pump() {
    if (this.outBusy || !this.clientOpen || this.dropped) return;
    if (this.out.length === 0) { if (this.finAfter) { this.finAfter = false; this.w.after(this.lat(), () => this.closeClient(null), 's2c-fin'); } return; }
    this.outBusy = true;
    const w = this.w;
    w.at(Math.max(w.now + this.lat(), this.mutedUntil + w.rng.f()), () => this.deliver(), 's2c');
  }
  deliver() {
    this.outBusy = false;
    const w = this.w;
    if (!this.clientOpen || this.dropped) return;
    if (this.mutedUntil > w.now) { this.pump(); return; }
    const n = this.out.length;
    const frag = w.net.frag;
    let k = n;
    if (frag && w.rng.chance(frag, 100)) { k = w.rng.chance(1, 2) ? w.rng.range(1, Math.min(n, 12)) : w.rng.range(1, n); w.fault('fragment'); }
    const b = Buffer.from(this.out.subarray(0, k));
    this.out = this.out.subarray(k);
    this.got += k;
    this.sock.bytesRead += k;
    while (this.marks.length && this.marks[0][0] <= this.got) this.marks.shift()[1]();
    this.sock.emit('data', b);
    this.pump();
  }
  closeClient(code) {
    if (!this.clientOpen) return;
    this.clientOpen = false;
    if (code) this.sock.fail(code, 'read');
    else { const s = this.sock; if (s.destroyed) return; try { s.emit('end'); } catch (x) { this.w.crash(x, 'end event'); } s.fail(null, 'read'); }
  }
  /** the client went away */
  clientGone() {
    if (!this.clientOpen) return;
    this.clientOpen = false;
    this.w.after(this.lat(), () => this.gone(), 'gone');
  }
  gone() { if (this.open) { this.open = false; this.server.lost(this); } }
  /** the client has no more to say: the connection ends when the server has read that and closed too */
  fin() {
    const w = this.w;
    w.at(Math.max(w.now + this.lat(), this.mutedUntil + 0.01, this.inT), () => {
      if (this.dropped) return;
      if (this.mutedUntil > w.now) return this.fin();
      this.gone();
      w.after(this.lat(), () => this.closeClient(null), 'fin');
    }, 'fin');
  }
  /** faults */
  cut(kind, r) {
    const w = this.w;
    if (!this.open && !this.clientOpen) return;
    w.fault('cut-' + kind);
    w.log({ e: 'cut', kind, conn: this.id, c: this.owner });
    if (kind === 'fin') { this.gone(); this.finAfter = true; this.open = false; this.pump(); }
    else if (kind === 'rst') { this.dropped = true; this.gone(); w.after(this.lat(), () => this.closeClient('ECONNRESET'), 'rst'); }
    else if (kind === 'dead') {
      // nothing arrives any more; both ends find out at their own time
      this.dropped = true; this.mutedUntil = Infinity;
      const a = r.log(500, 60_000), b = r.log(500, 60_000);
      w.after(a, () => this.closeClient('ETIMEDOUT'), 'dead');
      w.after(b, () => this.gone(), 'dead');
    }
  }
  mute(ms) { this.w.fault('mute'); this.mutedUntil = Math.max(this.mutedUntil, this.w.now + ms); }
}
