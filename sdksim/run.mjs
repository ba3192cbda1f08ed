// One plan, one execution.
import { World, Rng, mix, tick, netFor, resetIds } from './world.mjs';
import { Server } from './server.mjs';
import { canon, enc, value } from './values.mjs';
import { EventEmitter } from 'node:events';

let current = null;
process.on('unhandledRejection', x => { if (current) current.crash(x, 'unhandled rejection'); });

const FAILV = { error: i => new Error('f' + i), sync: i => new Error('y' + i), string: i => 's' + i, undef: () => undefined, object: () => ({ code: 5 }) };
export const reasonOf = e => e instanceof Error ? e.message : String(e);
const TOPICS = ['a', 'a/b', 'a/b/c', 'x/y', 'a//b', 'é/ü'];
export const MAX_STEPS = 400_000;

export async function runPlan(plan, factory) {
  resetIds();
  const w = new World(plan.seed, plan.net);
  current = w;
  const server = new Server(w, plan.cfg);
  const insts = new Map(), subs = new Map();
  let inv = 0, working = 0;
  const raw = x => Buffer.from(x, 'hex');

  const load = c => {
    const req = n => { n = n.replace(/^node:/, ''); if (n === 'net') return netFor(w, c, server); if (n === 'events') return EventEmitter; throw new Error('module ' + n + ' is not simulated'); };
    const m = { exports: {} };
    factory({ require: req, module: m, exports: m.exports, ...w.globals(mix(plan.seed, c), c) });
    return m.exports;
  };
  const call = (i, c, op, info, fn, then) => {
    w.log({ e: 'call', i, c, op, ...info });
    let p;
    try { p = fn(); } catch (x) { w.log({ e: 'settle', i, c, op, ok: false, thrown: true, name: x && x.name, msg: String(x && x.message || x) }); return; }
    Promise.resolve(p).then(
      v => { const r = then ? then(v) : undefined; w.log({ e: 'settle', i, c, op, ok: true, val: r }); },
      x => w.log({ e: 'settle', i, c, op, ok: false, name: x && x.name, msg: String(x && x.message || x) }));
  };
  const disc = (i, c) => {
    const k = insts.get(c);
    if (!k || !k.client) return;
    k.off = true;
    call(i, c, 'disc', {}, () => { k.client.disconnect(); });
  };
  const stop = (i, of) => { const s = subs.get(of); if (!s || !s.handle) return; s.stopped = true; call(i, s.c, s.op === 'qsub' ? 'qstop' : 'sstop', { of }, () => s.handle.stop()); };
  let sid = 1_000_000;
  const callback = (o, c) => {
    const r = new Rng(mix(plan.seed, o.i * 31 + 5));
    return data => {
      const k = ++inv;
      working++;
      w.log({ e: 'cb', sub: o.i, c, inv: k, v: canon(data) });
      const bad = r.chance(o.cb.fail, 100), d = r.range(o.cb.d[0], o.cb.d[1]);
      if (o.cb.stop && r.chance(1, 3)) stop(++sid, o.i);
      if (o.cb.disc && r.chance(1, 3)) disc(++sid, c);
      const x = bad ? FAILV[o.cb.how](k) : null;
      const end = () => { working--; w.log({ e: 'cbdone', sub: o.i, c, inv: k, ok: !bad, why: bad ? reasonOf(x) : undefined }); };
      if (bad && o.cb.how === 'sync') { end(); throw x; }
      if (d === 0 && o.cb.sync && !bad) { end(); return 'done'; }
      return new Promise((res, rej) => w.after(d, () => { end(); if (bad) rej(x); else res(); }, 'callback'));
    };
  };
  const deleted = new Set();
  const act = o => {
    const c = o.c;
    if (o.k === 'conn') {
      if (insts.has(c)) return;
      const k = { client: null }; insts.set(c, k);
      const mod = load(c);
      call(o.i, c, 'conn', {}, () => mod.NexoClient.connect({ host: 'sim', port: 7654, logLevel: 'OFF' }), v => {
        k.client = v;
        if (plan.ids && v.conn && typeof v.conn.nextId === 'number') v.conn.nextId = plan.ids;
      });
      return;
    }
    // the world outside
    switch (o.k) {
      case 'fset': w.fault('foreign-payload'); server.store.set(o.key, raw(o.hex)); w.log({ e: 'fset', key: o.key, v: o.hex }); return;
      case 'fpub': { const h = o.hex !== undefined ? o.hex : enc(value(o.v)); if (o.hex !== undefined) w.fault('foreign-payload'); server.publish(o.topic, raw(h), o.retain); return; }
      case 'fqpush': { const q = server.queues.get(o.q); if (q) { if (o.hex !== undefined) w.fault('foreign-payload'); server.push(q, raw(o.hex !== undefined ? o.hex : enc(value(o.v))), 0); } return; }
      case 'fspub': { const s = server.streams.get(o.s); if (s) { if (o.hex !== undefined) w.fault('foreign-payload'); const h = o.hex !== undefined ? o.hex : enc(value(o.v)); server.append(s, raw(h)); } return; }
      case 'fqcreate': if (!server.queues.has(o.q)) server.queues.set(o.q, server.newQueue(o.q, o.vt, o.max)); return;
      case 'fscreate': if (!server.streams.has(o.s)) server.streams.set(o.s, server.newStream(o.s)); return;
      case 'fdlq': { const q = server.queues.get(o.q); if (q) for (const h of o.hex) server.bury(q, raw(h)); return; }
    }
    if (o.k === 'disc') return disc(o.i, c);
    if (o.k === 'qstop' || o.k === 'sstop') return stop(o.i, o.of);
    const inst = insts.get(c), x = inst && inst.client;
    if (!x) return;
    const v = o.v ? value(o.v) : undefined, hex = o.v ? enc(v) : undefined;
    switch (o.k) {
      case 'set': return call(o.i, c, 'set', { key: o.key, v: hex, o: o.ttl === undefined ? {} : { ttl: o.ttl } }, () => x.store.map.set(o.key, v, ...(o.ttl === undefined ? [] : [{ ttl: o.ttl }])));
      case 'get': return call(o.i, c, 'get', { key: o.key }, () => x.store.map.get(o.key), canon);
      case 'del': return call(o.i, c, 'del', { key: o.key }, () => x.store.map.del(o.key));
      case 'pub': return call(o.i, c, 'pub', { topic: o.topic, v: hex, o: o.retain ? { retain: true } : {} }, () => x.pubsub(o.topic).publish(v, ...(o.retain ? [{ retain: true }] : [])));
      case 'sub': return call(o.i, c, 'sub', { topic: o.topic }, () => {
        const r = new Rng(mix(plan.seed, o.i * 17 + 3));
        return x.pubsub(o.topic).subscribe(d => { w.log({ e: 'h', sub: o.i, c, topic: o.topic, v: canon(d) }); if (r.chance(o.fail, 100)) throw FAILV[o.how](0); });
      });
      case 'unsub': return call(o.i, c, 'unsub', { topic: o.topic }, () => x.pubsub(o.topic).unsubscribe());
      case 'qcreate': return call(o.i, c, 'qcreate', { q: o.q, o: { visibilityTimeoutMs: o.vt, maxRetries: o.max } }, () => x.queue(o.q).create({ visibilityTimeoutMs: o.vt, maxRetries: o.max }), q => q === x.queue(o.q));
      case 'qexists': return call(o.i, c, 'qexists', { q: o.q }, () => x.queue(o.q).exists(), b => b);
      case 'qdelete': deleted.add('q' + o.q); return call(o.i, c, 'qdelete', { q: o.q }, () => x.queue(o.q).delete());
      case 'qpush': return call(o.i, c, 'push', { q: o.q, v: hex, o: o.prio === undefined ? {} : { priority: o.prio } }, () => x.queue(o.q).push(v, ...(o.prio === undefined ? [] : [{ priority: o.prio }])));
      case 'peek': return call(o.i, c, 'peek', { q: o.q, lim: o.limit, off: o.off }, () => x.queue(o.q).dlq.peek(o.limit, o.off), r => { inst.peeked = r.items.map(z => z.id); return { total: r.total, items: r.items.map(z => ({ id: z.id, v: canon(z.data), att: z.attempts, why: z.failureReason })) }; });
      case 'move': case 'deldlq': {
        const l = inst.peeked && inst.peeked.length ? inst.peeked : ['00112233445566778899aabbccddeeff'];
        const id = l[o.i % l.length];
        return call(o.i, c, o.k, { q: o.q, m: id }, () => o.k === 'move' ? x.queue(o.q).dlq.moveToQueue(id) : x.queue(o.q).dlq.delete(id), b => b);
      }
      case 'purge': return call(o.i, c, 'purge', { q: o.q }, () => x.queue(o.q).dlq.purge(), n => n);
      case 'qsub': {
        const s = { op: 'qsub', c, q: o.q, handle: null }; subs.set(o.i, s);
        const opt = {}; if (o.batch !== undefined) opt.batchSize = o.batch; if (o.wait !== undefined) opt.waitMs = o.wait; if (o.conc !== undefined) opt.concurrency = o.conc;
        return call(o.i, c, 'qsub', { q: o.q, opt }, () => x.queue(o.q).subscribe(callback(o, c), opt), h => { s.handle = h; });
      }
      case 'screate': return call(o.i, c, 'screate', { s: o.s }, () => x.stream(o.s).create(), q => q === x.stream(o.s));
      case 'sexists': return call(o.i, c, 'sexists', { s: o.s }, () => x.stream(o.s).exists(), b => b);
      case 'sdelete': deleted.add('s' + o.s); return call(o.i, c, 'sdelete', { s: o.s }, () => x.stream(o.s).delete());
      case 'spub': return call(o.i, c, 'spub', { s: o.s, v: hex }, () => x.stream(o.s).publish(v));
      case 'seek': return call(o.i, c, 'seek', { s: o.s, grp: o.g, to: o.to }, () => x.stream(o.s).seek(o.g, o.to));
      case 'ssub': {
        const s = { op: 'ssub', c, s: o.s, g: o.g, handle: null }; subs.set(o.i, s);
        const opt = {}; if (o.batch !== undefined) opt.batchSize = o.batch; if (o.wait !== undefined) opt.waitMs = o.wait; if (o.conc !== undefined) opt.concurrency = o.conc;
        return call(o.i, c, 'ssub', { s: o.s, group: o.g, opt }, () => x.stream(o.s).subscribe(o.g, callback(o, c), opt), h => { s.handle = h; });
      }
    }
    throw new Error('unknown operation ' + o.k);
  };
  // ---- faults
  const fr = new Rng(mix(plan.seed, 991));
  const F = plan.F;
  let stalled = 0;
  const fault = f => {
    const left = Math.max(1, F - w.now);
    switch (f.kind) {
      case 'cut': { const k = server.conns.find(x => x.owner === f.c) || w.sockets.map(s => s.conn).find(x => x && x.owner === f.c && x.clientOpen); if (k) k.cut(f.how, fr); return; }
      case 'down': server.down(fr); w.after(Math.min(f.ms, left), () => server.upAgain(), 'up'); return;
      case 'mute': { const k = server.conns.find(x => x.owner === f.c); if (k) { w.log({ e: 'mute', c: f.c, ms: f.ms }); k.mute(Math.min(f.ms, left)); } return; }
      case 'clog': { const k = server.conns.find(x => x.owner === f.c); if (k) { w.log({ e: 'clog', c: f.c, ms: f.ms }); k.clog(Math.min(f.ms, left)); } return; }
      case 'slow': { const s = server.slow = { p: f.p, min: f.min, max: f.max }; w.after(Math.min(f.ms, left), () => { if (server.slow === s) server.slow = null; }, 'heal'); return; }
      case 'erring': { const s = server.erring = { p: f.p, msg: f.msg }; w.after(Math.min(f.ms, left), () => { if (server.erring === s) server.erring = null; }, 'heal'); return; }
      case 'hole': w.fault('connect-hole'); server.hole = Math.max(server.hole, w.now + Math.min(f.ms, left)); return;
      case 'clock': w.fault('clock-jump'); w.wall += f.ms; w.log({ e: 'clock', ms: f.ms }); return;
      case 'stall': w.fault('stall'); stalled += f.ms; w.now += f.ms; w.log({ e: 'stall', ms: f.ms }); return;
    }
    throw new Error('unknown fault ' + f.kind);
  };
  for (const o of plan.ops) w.at(o.t, () => act(o), 'op');
  for (const f of plan.faults) w.at(f.t, () => fault(f), 'fault');
  w.at(F, () => { server.upAgain(); server.slow = null; server.erring = null; }, 'heal');
  // ---- the end: everything is well again, and everything has to get going again
  let maxd = 0, n = 0;
  for (const o of plan.ops) { if (o.cb) maxd = Math.max(maxd, o.cb.d[1]); if (/push|spub/.test(o.k)) n++; }
  const E1 = F + 120_000 + stalled;
  const probes = [];
  w.at(E1, () => {
    w.log({ e: 'probe' });
    for (const [c, k] of insts) if (k.client) {
      probes.push(c);
      act({ i: ++sid, k: 'set', c, key: 'probe' + c, v: ['s', 'p' + c] });
    }
    for (const t of TOPICS) act({ i: ++sid, k: 'fpub', topic: t, v: ['s', 'z' + t] });
    for (const q of server.queues.keys()) act({ i: ++sid, k: 'fqpush', q, v: ['s', 'z' + q] });
    for (const s of server.streams.keys()) act({ i: ++sid, k: 'fspub', s, v: ['s', 'z' + s] });
  }, 'probe');
  w.at(E1 + 30_000, () => { for (const c of probes) act({ i: ++sid, k: 'get', c, key: 'probe' + c }); }, 'probe');
  const Emin = E1 + 60_000;
  const active = f => { for (const s of subs.values()) { const k = insts.get(s.c); if (s.handle && !s.stopped && k.client && !k.off && f(s)) return true; } return false; };
  const quiet = () => {
    if (working) return false;
    for (const q of server.queues.values()) if ((q.ready.length || q.leased.size) && active(x => x.q === q.n)) return false;
    for (const s of server.streams.values()) for (const g of s.groups.values()) if ((g.out.size || server.avail(s, g)) && active(x => x.s === s.n && x.g === g.n)) return false;
    return true;
  };
  const tries = Math.max(plan.cfg.deliveries, 5);
  const Emax = Emin + 200_000 + tries * (40_000 + plan.cfg.ackWait) + (n + 20) * tries * (maxd + 300) * 1.1;
  let capped = false;
  while (w.heap.length && !w.dead) {
    if (w.heap[0].t > Emin) { if (!w.quietUntil) { if (quiet()) w.quietUntil = w.now + 25_000; else if (w.now > Emax) break; } else if (w.now > w.quietUntil) break; }
    await w.step();
    if (w.steps > MAX_STEPS) { capped = true; break; }
  }
  const end = { t: w.now, F, E1, stalled, capped, timers: {}, open: {}, members: [], queues: {}, streams: {}, subs: {}, working, deleted: [...deleted], wasQuiet: !!w.quietUntil };
  for (const t of w.live.values()) if (t.ref_) end.timers[t.owner] = (end.timers[t.owner] || 0) + 1;
  for (const s of w.sockets) if (s.state === 'open' || s.state === 'connecting') end.open[s.owner] = (end.open[s.owner] || 0) + 1;
  for (const s of server.streams.values()) {
    const gs = end.streams[s.n] = { len: s.log.length, groups: {} };
    for (const g of s.groups.values()) { gs.groups[g.n] = { acked: g.acked.size, out: g.out.size, avail: server.avail(s, g) }; for (const m of g.members.values()) end.members.push({ s: s.n, group: g.n, c: m.conn.owner, conn: m.conn.id }); }
  }
  for (const q of server.queues.values()) end.queues[q.n] = { ready: q.ready.length, leased: q.leased.size, dlq: q.dlq.length };
  for (const k of server.conns) end.subs[k.owner] = [...(end.subs[k.owner] || []), ...k.subs.keys()];
  // leave nothing behind for the next run
  current = null;
  w.dead = true; w.heap = [];
  return { hist: w.hist, end, digest: w.digest, sched: w.sched, faults: w.faults, steps: w.steps, simMs: w.now };
}
