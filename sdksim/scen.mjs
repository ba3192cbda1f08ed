// Plans: what the applications do, when, and which faults meet them.
import { Rng, mix } from './world.mjs';

export const SCENS = {
  C01: ['rpc', 'rpc', 'rpc', 'mix'],
  C02: ['reconn', 'reconn', 'reconn', 'mix'],
  C03: ['queue', 'queue', 'queue', 'mix'],
  C04: ['stream', 'stream', 'stream', 'mix'],
  C05: ['pubsub', 'pubsub', 'pubsub', 'mix'],
};
export const PROPS = Object.keys(SCENS);
const BAD = ['', '02', '027b', '026e756c', '02ff', '01ff', '00', '01', '027b2261223a317d7d', '02' + '7b'.repeat(40)];
const FAILS = ['error', 'string', 'sync', 'undef', 'object'];

export function makePlan(prop, k, seed) {
  const s = mix(mix(seed, 0x5D4), mix(k, prop.charCodeAt(2)));
  const r = new Rng(s * 1024 + (k % 1024));
  const scen = SCENS[prop][k % SCENS[prop].length];
  const calm = r.chance(1, 6);
  const F = r.pick([15_000, 40_000, 90_000]);
  const plan = {
    seed: s, scen, F,
    net: { lat: r.log(0.05, 40), spike: calm ? 0 : r.pick([0, 0, 2, 10]), serve: r.log(0.01, 30), shuffle: r.pick([0, 20, 100]), frag: r.pick([0, 10, 60, 100]) },
    cfg: { ackWait: r.pick([500, 3000, 10_000, 30_000]), deliveries: r.range(2, 5), errs: r.pick([0, 0, 5, 20]) },
    ops: [], faults: [],
  };
  let n = 0, ids = 0;
  const val = () => [r.chance(1, 8) ? r.pick(['n', 'U', 'e', 'E', 't']) : r.pick(['s', 's', 'u', 'L', 'j', 'j', 'i', 'b', 'b', 'B']), ++n];
  const op = (t, k, o) => { plan.ops.push({ i: ++ids, t: Math.round(t * 10) / 10, k, ...o }); return ids; };
  const T = () => r.f() * F;
  const bursts = [...Array(3)].map(T);
  // many things happen close together
  const at = () => r.chance(1, 2) ? T() : Math.min(F, r.pick(bursts) + r.log(0.1, 3000));
  const C = r.range(1, 3);
  for (let c = 0; c < C; c++) op(c === 0 || r.chance(2, 3) ? r.f() * 20 : T() / 2, 'conn', { c });
  const cl = () => r.below(C);
  const cbk = () => ({ d: r.pick([[0, 0], [0, 5], [1, 300], [100, 3000], [0, 20_000]]), fail: r.pick([0, 0, 10, 40, 100]), how: r.pick(FAILS), stop: r.chance(1, 25), disc: r.chance(1, 120), sync: r.chance(1, 3) });
  const scn = scen === 'mix' ? ['rpc', 'queue', 'stream', 'pubsub'] : scen === 'reconn' ? [r.pick(['rpc', 'queue']), r.pick(['stream', 'pubsub'])] : [scen];
  const topics = ['a', 'a/b', 'a/b/c', 'x/y', 'a//b', 'é/ü'], pats = ['a', 'a/b', 'a/b/c', 'x/y', '#', '+', 'a/+', 'a/#', '+/b', '+/+/c', 'x/#', 'é/+'];
  const keys = ['k0', 'k1', 'k2', 'k3', 'ключ'];
  for (const what of scn) {
    const many = r.log(4, scen === 'mix' ? 25 : 70) | 0;
    if (what === 'rpc') {
      if (r.chance(1, 3)) op(r.f() * 30, 'qcreate', { c: cl(), q: 'r', vt: 20_000, max: 2 });
      if (r.chance(1, 3)) op(r.f() * 30, 'screate', { c: cl(), s: 'r' });
      for (let i = 0; i < many; i++) {
        const c = cl(), k = r.pick(keys);
        switch (r.below(14)) {
          case 0: case 1: case 2: op(at(), 'set', { c, key: k, v: val(), ttl: r.chance(1, 4) ? r.range(1, 99999) : undefined }); break;
          case 3: case 4: case 5: case 6: op(at(), 'get', { c, key: r.chance(1, 10) ? 'missing' : k }); break;
          case 7: op(at(), 'del', { c, key: k }); break;
          case 8: op(at(), 'pub', { c, topic: r.pick(topics), v: val(), retain: r.chance(1, 3) }); break;
          case 9: op(at(), 'qpush', { c, q: r.chance(1, 5) ? 'none' : 'r', v: val(), prio: r.chance(1, 2) ? r.range(0, 9) : undefined }); break;
          case 10: op(at(), r.pick(['peek', 'peek', 'purge', 'move', 'deldlq', 'qexists']), { c, q: 'r', limit: r.range(0, 20), off: r.range(0, 3) }); break;
          case 11: op(at(), 'spub', { c, s: r.chance(1, 5) ? 'none' : 'r', v: val() }); break;
          case 12: op(at(), r.pick(['sexists', 'seek']), { c, s: 'r', g: 'g', to: r.pick(['beginning', 'end']) }); break;
          case 13: op(at(), 'fset', { key: k, hex: r.pick(BAD) }); break;
        }
      }
      if (r.chance(1, 3)) op(T(), 'fdlq', { q: 'r', hex: [...Array(r.range(1, 4))].map(() => r.chance(1, 3) ? r.pick(BAD) : '01' + Buffer.from('d' + (++n)).toString('hex')) });
    } else if (what === 'queue') {
      const Q = r.range(1, 2);
      for (let q = 0; q < Q; q++) {
        const name = 'q' + q;
        if (r.chance(9, 10)) op(r.f() * 40, 'fqcreate', { q: name, vt: r.pick([1000, 4000, 15_000]), max: r.range(1, 4) });
        if (r.chance(1, 3)) op(T() / 3, 'qcreate', { c: cl(), q: name, vt: r.pick([1000, 4000, 15_000]), max: r.range(1, 4) });
        for (let i = 0; i < many; i++) {
          if (r.chance(1, 12)) op(at(), 'fqpush', { q: name, hex: r.pick(BAD) });
          else op(at(), 'qpush', { c: cl(), q: name, v: val() });
        }
        const S = r.range(1, 3);
        for (let s = 0; s < S; s++) {
          const t = 50 + T() / 2;
          const i = op(t, 'qsub', { c: cl(), q: name, batch: r.pick([undefined, 1, 2, 5, 50]), wait: r.chance(1, 12) ? r.pick([0, 150]) : r.pick([undefined, 400, 1000, 5000, 20_000]), conc: r.pick([undefined, 0, 1, 1, 2, 5, 20]), cb: cbk() });
          const o = plan.ops[plan.ops.length - 1];
          if (o.wait === 0) o.wait = 100;
          if (r.chance(1, 3)) op(t + r.log(0.1, 5000), 'qsub', { c: o.c, q: o.q, batch: o.batch, wait: o.wait, conc: o.conc, cb: cbk() });
          if (r.chance(1, 3)) op(t + r.log(1, F), 'qstop', { of: i });
        }
        if (r.chance(1, 12)) op(T(), 'qdelete', { c: cl(), q: name });
        for (let i = r.below(4); i > 0; i--) op(at(), r.pick(['peek', 'move', 'deldlq', 'purge']), { c: cl(), q: name, limit: 10, off: 0 });
      }
    } else if (what === 'stream') {
      const Q = r.range(1, 2);
      for (let q = 0; q < Q; q++) {
        const name = 's' + q;
        if (r.chance(9, 10)) op(r.f() * 40, 'fscreate', { s: name });
        if (r.chance(1, 3)) op(T() / 3, 'screate', { c: cl(), s: name });
        for (let i = 0; i < many; i++) {
          if (r.chance(1, 12)) op(at(), 'fspub', { s: name, hex: r.pick(BAD) });
          else op(at(), 'spub', { c: cl(), s: name, v: val() });
        }
        const S = r.range(1, 3);
        for (let s = 0; s < S; s++) {
          const t = 50 + T() / 2;
          const i = op(t, 'ssub', { c: cl(), s: name, g: r.pick(['g', 'g', 'h']), batch: r.pick([undefined, 1, 2, 7, 100]), wait: r.chance(1, 12) ? 150 : r.pick([undefined, 400, 1000, 5000, 20_000]), conc: r.pick([undefined, undefined, 0, 1, 3, 10]), cb: cbk() });
          if (r.chance(1, 2)) op(t + r.log(1, F), 'sstop', { of: i });
        }
        for (let i = r.below(4); i > 0; i--) op(at(), 'seek', { c: cl(), s: name, g: r.pick(['g', 'h']), to: r.pick(['beginning', 'end']) });
        if (r.chance(1, 15)) op(T(), 'sdelete', { c: cl(), s: name });
      }
    } else {
      for (let i = 0; i < many; i++) {
        if (r.chance(1, 12)) op(at(), 'fpub', { topic: r.pick(topics), hex: r.pick(BAD), retain: r.chance(1, 2) });
        else if (r.chance(1, 3)) op(at(), 'fpub', { topic: r.pick(topics), v: val(), retain: r.chance(1, 4) });
        else op(at(), 'pub', { c: cl(), topic: r.pick(topics), v: val(), retain: r.chance(1, 3) });
      }
      const S = r.range(1, 8);
      for (let i = 0; i < S; i++) {
        const c = cl(), topic = r.pick(pats), t = T() * 0.7;
        op(t, 'sub', { c, topic, fail: r.pick([0, 0, 0, 20, 100]), how: r.pick(FAILS) });
        let u = t;
        while (r.chance(1, 2)) { u += r.log(0.1, F / 2); op(u, 'unsub', { c, topic }); if (r.chance(1, 2)) { u += r.log(0.1, 2000); op(u, 'sub', { c, topic, fail: 0, how: 'error' }); } }
      }
    }
  }
  // a client that has been running for long
  if (r.chance(1, 6)) plan.ids = r.pick([2 ** 31, 2 ** 32]) - r.range(1, 40);
  // the end of clients
  for (let c = 0; c < C; c++) if (r.chance(1, scen === 'reconn' ? 2 : 4)) op(r.chance(1, 2) ? at() : T(), 'disc', { c });
  if (r.chance(1, scen === 'reconn' ? 2 : 8)) op(T(), 'conn', { c: C });
  if (calm) return plan;
  // faults
  const ft = () => r.chance(1, 2) && plan.ops.length ? Math.max(0, r.pick(plan.ops).t + (r.f() - 0.2) * r.log(1, 400)) : T();
  const fault = (kind, o) => plan.faults.push({ t: Math.round(Math.min(F, ft()) * 10) / 10, kind, ...o });
  const want = k => r.chance(k, 10);
  if (want(6)) for (let i = r.range(1, scen === 'reconn' ? 8 : 4); i > 0; i--) fault('cut', { how: r.pick(['fin', 'rst', 'rst', 'dead']), c: r.below(C) });
  if (want(3)) for (let i = r.range(1, 2); i > 0; i--) fault('down', { ms: Math.round(r.log(10, 20_000)) });
  if (want(4)) for (let i = r.range(1, 3); i > 0; i--) fault('mute', { c: r.below(C), ms: Math.round(r.log(10, 40_000)) });
  if (want(3)) for (let i = r.range(1, 3); i > 0; i--) fault('clog', { c: r.below(C), ms: Math.round(r.log(5, 10_000)) });
  if (want(3)) fault('slow', { ms: Math.round(r.log(100, 30_000)), p: r.pick([10, 50, 100]), min: 0, max: Math.round(r.log(100, 30_000)) });
  if (want(3) && plan.cfg.errs) fault('erring', { ms: Math.round(r.log(100, 20_000)), p: plan.cfg.errs * 3, msg: r.pick(['Internal error', 'disk full', 'too busy']) });
  if (want(3)) fault('hole', { ms: Math.round(r.log(100, 40_000)) });
  if (want(4)) for (let i = r.range(1, 3); i > 0; i--) fault('clock', { ms: Math.round((r.chance(1, 2) ? 1 : -1) * r.log(100, 4_000_000)) });
  if (want(3)) for (let i = r.range(1, 3); i > 0; i--) fault('stall', { ms: Math.round(r.log(10, 20_000)) });
  return plan;
}
