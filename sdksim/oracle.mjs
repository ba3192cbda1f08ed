// Judges a recorded history.
import { dec } from './values.mjs';
import { matches } from './server.mjs';

const TIMEOUT = 15_000, SWEEP = 1_000;
const RPC = new Set(['set', 'get', 'del', 'pub', 'sub', 'unsub', 'qcreate', 'qexists', 'qdelete', 'push', 'peek', 'move', 'deldlq', 'purge', 'screate', 'sexists', 'sdelete', 'spub', 'seek', 'qsub', 'ssub']);
const O = o => JSON.stringify(o || {});
/** what identifies a request, from the caller's side and from the server's */
function keyOfCall(e) {
  switch (e.op) {
    case 'set': return `set|${e.key}|${e.v}|${O(e.o)}`;
    case 'get': case 'del': return `${e.op}|${e.key}`;
    case 'pub': return `pub|${e.topic}|${e.v}|${O(e.o)}`;
    case 'sub': case 'unsub': return `${e.op}|${e.topic}`;
    case 'qcreate': return `qcreate|${e.q}|${O(e.o)}`;
    case 'push': return `push|${e.q}|${e.v}|${O(e.o)}`;
    case 'peek': return `peek|${e.q}|${e.lim}|${e.off}`;
    case 'move': case 'deldlq': return `${e.op}|${e.q}|${e.m}`;
    case 'qexists': case 'qdelete': case 'purge': return `${e.op}|${e.q}`;
    case 'screate': case 'sexists': case 'sdelete': return `${e.op}|${e.s}`;
    case 'spub': return `spub|${e.s}|${e.v}`;
    case 'seek': return `seek|${e.s}|${e.grp}|${e.to === 'beginning' ? 0 : 1}`;
  }
  return null;
}
function keyOfServed(e) {
  switch (e.op) {
    case 'set': return `set|${e.k}|${e.v}|${O(e.o)}`;
    case 'get': case 'del': return `${e.op}|${e.k}`;
    case 'pub': return `pub|${e.topic}|${e.v}|${O(e.o)}`;
    case 'sub': case 'unsub': return `${e.op}|${e.topic}`;
    case 'qcreate': return `qcreate|${e.q}|${O(e.o)}`;
    case 'push': return `push|${e.q}|${e.v}|${O(e.o)}`;
    case 'peek': return `peek|${e.q}|${e.lim}|${e.off}`;
    case 'move': case 'deldlq': return `${e.op}|${e.q}|${e.m}`;
    case 'qexists': case 'qdelete': case 'purge': return `${e.op}|${e.q}`;
    case 'screate': case 'sexists': case 'sdelete': return `${e.op}|${e.s}`;
    case 'spub': return `spub|${e.s}|${e.v}`;
    case 'seek': return `seek|${e.s}|${e.group}|${e.to}`;
  }
  return null;
}
const count = (m, k, d = 1) => m.set(k, (m.get(k) || 0) + d);

export function judge(plan, run) {
  const { hist, end } = run;
  const out = [];
  const bad = (prop, kind, msg, e) => { if (out.length < 50) out.push({ prop, kind, msg: msg + (e ? ` @${e.t}ms` : '') }); };
  if (end.capped) return { viols: out, inconclusive: 'step limit' };

  // ---- index
  const calls = new Map(), order = [], conns = new Map(), opens = [], by = {};
  const disc = new Map(), fail = new Map(), up = new Map();
  const open = new Map();
  for (const e of hist) {
    (by[e.e] = by[e.e] || []).push(e);
    if (e.e === 'call') { const c = { ...e, settle: null }; calls.set(e.i, c); order.push(c); if (e.op === 'disc' && !disc.has(e.c)) disc.set(e.c, e); }
    else if (e.e === 'settle') { const c = calls.get(e.i); if (c) { if (c.settle) bad('C01', 'twice', `call ${c.i} ${c.op} settled twice`, e); c.settle = e; if (c.op === 'conn') { if (e.ok) up.set(c.c, e); else fail.set(c.c, e); } } }
    else if (e.e === 'connected') { const x = { c: e.c, s: e.s, conn: e.conn, from: e, to: null }; open.set(e.s, x); opens.push(x); conns.set(e.conn, x); }
    else if (e.e === 'closed' || e.e === 'destroyed') { const x = open.get(e.s); if (x) { x.to = e; open.delete(e.s); } }
  }
  for (const k of ['call', 'settle', 'served', 'answered', 'sent', 'cb', 'cbdone', 'h', 'received', 'connecting', 'pushedq', 'appended', 'stall', 'crash', 'badframe', 'closed', 'pushed', 'asked']) by[k] = by[k] || [];
  const isOpen = (c, g) => opens.some(x => x.c === c && x.from.g < g && (!x.to || x.to.g > g));
  const stallIn = (a, b) => { let n = 0; for (const s of by.stall) if (s.t >= a && s.t - s.ms <= b) n += s.ms; return n; };
  const tEnd = end.t;
  const settled = c => c.settle && c.settle.ok;
  const isUp = c => up.has(c) && !disc.has(c);
  const crashed = by.crash.length > 0;

  // ---- nothing may end the process
  for (const e of by.crash) bad('*', 'crash', `the process of the application died: ${e.msg} (${e.what}) ${e.stack}`, e);
  for (const e of by.badframe) bad('*', 'bad-frame', `malformed frame from client ${e.c}: ${e.why}`, e);
  for (const e of by.served) if (e.bad) bad('*', 'bad-frame', `malformed request ${e.op} from client ${e.c}: ${e.err}`, e);
  if (crashed) return { viols: out };

  // ---- requests on the wire
  const reqs = new Map(); // conn|id -> {sent, served, answered}
  for (const e of by.sent) { const k = e.conn + '|' + e.id; const o = reqs.get(k); if (o && !o.answered && !['ack', 'nack', 'sack'].includes(o.sent.op)) bad('C01', 'id-reused', `client ${e.c} uses request number ${e.id} again while ${o.sent.op} is unanswered`, e); reqs.set(k, { sent: e }); e.req = reqs.get(k); }
  const servedOf = new Map();
  { // answers belong to the request with that number sent last before
    const cur = new Map();
    for (const e of hist) {
      if (e.e === 'sent') cur.set(e.conn + '|' + e.id, e.req);
      else if (e.e === 'served') { const r = cur.get(e.conn + '|' + e.id); if (r) { r.served = e; e.req = r; } servedOf.set(e.g, e); }
      else if (e.e === 'answered') { const s = servedOf.get(e.n); if (s) { s.answered = e; if (s.req) s.req.answered = e; } }
    }
  }

  // ================================================================ C01
  for (const c of order) {
    const s = c.settle;
    const isRpc = RPC.has(c.op), isConn = c.op === 'conn';
    if (!isRpc && !isConn) continue;
    const bound = (isConn ? 45_000 : TIMEOUT + SWEEP) + stallIn(c.t, c.t + 80_000) + 1500;
    if (!s) { if (tEnd > c.t + bound) bad('C01', 'unsettled', `client ${c.c}: ${c.op} (call ${c.i}) never settled`, c); continue; }
    if (s.t > c.t + bound) bad('C01', 'late', `client ${c.c}: ${c.op} (call ${c.i}) settled only after ${(s.t - c.t) | 0}ms`, s);
    if (s.thrown) bad('C01', 'thrown', `client ${c.c}: ${c.op} threw instead of rejecting: ${s.msg}`, s);
    if (!s.ok && isRpc) {
      if (s.name === 'RequestTimeoutError') { if (s.t - c.t < TIMEOUT - 50) bad('C01', 'early-timeout', `client ${c.c}: ${c.op} (call ${c.i}) timed out after ${(s.t - c.t) | 0}ms instead of ${TIMEOUT}ms`, s); }
      else if (s.name === 'NotConnectedError') {
        // connected from before the call until after its end?
        if (opens.some(x => x.c === c.c && x.from.g < c.g && x.from.t < c.t && (!x.to || x.to.t > s.t))) bad('C01', 'not-connected', `client ${c.c}: ${c.op} (call ${c.i}) failed with "${s.msg}" on a healthy connection`, s);
      } else if (s.name === 'ConnectionClosedError') {
        if (!opens.some(x => x.c === c.c && x.to && x.to.g > c.g && x.to.t <= s.t + 0.001) && !by.closed.some(x => x.c === c.c && x.g >= c.g && x.t <= s.t)) bad('C01', 'closed', `client ${c.c}: ${c.op} (call ${c.i}) failed with "${s.msg}" and no connection had closed`, s);
      }
    }
  }
  // every result is the answer to that very call
  const CONN_ERR = new Set(['RequestTimeoutError', 'NotConnectedError', 'ConnectionClosedError']);
  const answers = new Map();
  for (const e of by.served) if (e.answered) { const k = e.c + '|' + (keyOfServed(e) || e.op); (answers.get(k) || answers.set(k, []).get(k)).push(e); if (e.any) { const k2 = e.c + '|!' + e.op; (answers.get(k2) || answers.set(k2, []).get(k2)).push(e); } }
  const used = new Set();
  const bySettle = order.filter(c => c.settle && RPC.has(c.op)).sort((a, b) => a.settle.g - b.settle.g);
  for (const c of bySettle) {
    const s = c.settle;
    if (c.op === 'qsub' || c.op === 'ssub') continue;
    if (!s.ok && CONN_ERR.has(s.name)) continue;
    if (c.op === 'sub' && !s.ok && /Already subscribed/.test(s.msg)) continue;
    if (c.op === 'unsub' && s.ok && !sentIn(c)) continue; // nothing to do
    const key = keyOfCall(c);
    if ((c.op === 'qexists' || c.op === 'sexists') && s.val === false) continue;
    const l = (answers.get(c.c + '|' + key) || []).concat(s.ok ? [] : answers.get(c.c + '|!' + c.op) || []);
    let hit = null;
    const fits = [];
    for (const a of l) if (!used.has(a.g) && a.g > c.g && a.req && a.req.sent.g > c.g && a.answered.g < s.g && (!hit || a.answered.g < hit.answered.g)) { if (agrees(c, s, a)) hit = a; else fits.push(a); }
    if (hit) { used.add(hit.g); continue; }
    bad('C01', 'wrong-answer', `client ${c.c}: ${c.op} ${key} (call ${c.i}) ended with ${s.ok ? JSON.stringify(s.val) : 'error "' + s.msg + '"'}, which no answer to it says${fits.length ? '; answered: ' + JSON.stringify(fits.slice(-2).map(a => a.err || a.v || a.dlq || a.bool || a.count || a.status)) : ''}`, s);
  }
  function sentIn(c) { return by.sent.some(x => x.c === c.c && x.op === c.op && x.topic === c.topic && x.g > c.g && x.g < c.settle.g); }
  function agrees(c, s, a) {
    if (a.status === 1) return !s.ok && s.msg === a.err;
    switch (c.op) {
      case 'get': { const d = a.status === 2 ? 'j:null' : dec(a.v); return d === null ? !s.ok : s.ok && s.val === d; }
      case 'qcreate': case 'screate': return s.ok && s.val === true;
      case 'qexists': case 'sexists': return s.ok && s.val === true;
      case 'move': case 'deldlq': return s.ok && s.val === a.bool;
      case 'purge': return s.ok && s.val === a.count;
      case 'peek': return s.ok && s.val.total === a.total && s.val.items.length === a.dlq.length && a.dlq.every((x, i) => { const y = s.val.items[i], d = dec(x.v); return x.id === y.id && x.att === y.att && x.why === y.why && (d === null || d === y.v); });
      default: return s.ok;
    }
  }
  // an answer that came in time is what its call ends with
  for (const [k, l] of answers) {
    const [c, op] = [k.split('|')[0], k.split('|')[1]];
    if (op[0] === '!' || !RPC.has(op) || op === 'sub' || op === 'qexists' || op === 'sexists') continue;
    const cs = order.filter(x => String(x.c) === c && keyOfCall(x) === k.slice(c.length + 1));
    for (const a of l) {
      if (used.has(a.g) || !a.req) continue;
      // the calls it may have been the answer to: made before it was sent, and not over when the answer arrived
      const mine = cs.filter(x => x.g < a.req.sent.g && x.t === a.req.sent.t);
      if (mine.length !== 1) continue;
      const s = mine[0].settle;
      if (!s || s.g > a.answered.g) bad('C01', 'answer-lost', `client ${c}: the answer to ${op} (call ${mine[0].i}) arrived, but the call ${s ? 'ended with "' + s.msg + '"' : 'never ended'}`, a.answered);
    }
  }

  // ================================================================ C02
  for (const x of opens) for (const y of opens) if (x !== y && x.c === y.c && x.from.g < y.from.g && (!x.to || x.to.g > y.from.g)) bad('C02', 'two-connections', `client ${x.c} has connections ${x.conn} and ${y.conn} at once`, y.from);
  const lastDial = new Map();
  for (const e of by.connecting) {
    const d = disc.get(e.c), f = fail.get(e.c);
    if (d && e.g > d.g) bad('C02', 'back-after-disconnect', `client ${e.c} connects again ${((e.t - d.t) / 1000).toFixed(1)}s after disconnect()`, e);
    if (f && e.g > f.g) bad('C02', 'back-after-failure', `client ${e.c} connects although connect() had failed ${((e.t - f.t) / 1000).toFixed(1)}s before and the application has nothing to stop it with`, e);
    const p = lastDial.get(e.c);
    if (p !== undefined && e.t - p < 500) bad('C02', 'hammer', `client ${e.c} dials twice within ${(e.t - p) | 0}ms`, e);
    lastDial.set(e.c, e.t);
  }
  for (const x of opens) {
    const d = disc.get(x.c);
    if (d && (x.to ? x.to.t > d.t + 1000 : tEnd > d.t + 1000)) bad('C02', 'open-after-disconnect', `client ${x.c}: connection ${x.conn} stays open after disconnect()`, d);
  }
  // after a loss it dials again soon
  for (const e of by.closed) {
    if (!isUp(e.c) && !(disc.has(e.c) && disc.get(e.c).t > e.t + 6000 + stallIn(e.t, e.t + 60_000))) continue;
    if (!up.has(e.c) || up.get(e.c).g > e.g) continue;
    const lim = e.t + 5000 + stallIn(e.t, e.t + 60_000);
    if (tEnd > lim && !by.connecting.some(x => x.c === e.c && x.g > e.g && x.t <= lim)) bad('C02', 'no-retry', `client ${e.c} did not try to connect again after its connection was lost`, e);
  }
  if (tEnd > end.E1 + 50_000) for (const c of up.keys()) if (isUp(c)) {
    if (!opens.some(x => x.c === c && x.from.t < end.E1 && !x.to)) bad('C02', 'not-back', `client ${c} is not connected ${((end.E1 - end.F) / 1000) | 0}s after the last fault`);
    const p = order.filter(x => x.c === c && x.key === 'probe' + c);
    for (const x of p) if (!settled(x)) bad('C02', 'not-usable', `client ${c}: ${x.op} fails after everything is well again: ${x.settle ? x.settle.msg : 'unsettled'}`, x);
  }
  for (const [c, n] of Object.entries(end.timers)) {
    const d = disc.get(+c) || fail.get(+c);
    if (d && tEnd > d.t + 60_000 && !end.working) bad('C02', 'still-running', `client ${c}: ${n} timer(s) keep the process alive ${((tEnd - d.t) / 1000) | 0}s after ${disc.has(+c) ? 'disconnect()' : 'connect() failed'}`, d);
  }
  for (const c of Object.keys(end.open)) if (fail.has(+c)) bad('C02', 'still-open', `client ${c}: a connection is open after connect() failed`, fail.get(+c));

  consumers(plan, { hist, end, by, calls, order, bad, isOpen, isUp, disc, up, stallIn, opens, conns, tEnd });
  pubsub(plan, { hist, end, by, calls, order, bad, isUp, disc, up, tEnd });
  return { viols: out };
}

// ==================================================================== C03, C04
function consumers(plan, h) {
  const { hist, end, by, order, bad, isOpen, isUp, disc, stallIn, tEnd } = h;
  for (const kind of ['qsub', 'ssub']) {
    const Q = kind === 'qsub', P = Q ? 'C03' : 'C04', stopOp = Q ? 'qstop' : 'sstop';
    const nameOf = e => Q ? e.q : e.s + '|' + e.group;
    const subs = order.filter(c => c.op === kind);
    if (!subs.length) continue;
    for (const s of subs) {
      s.name = nameOf(s); s.conc = Math.max(1, s.opt.concurrency ?? (Q ? 5 : 1)); s.wait = s.opt.waitMs ?? 20_000;
      s.stops = order.filter(x => x.op === stopOp && x.of === s.i);
      s.stopped = s.stops[0] || null;
      s.over = s.stops.map(x => x.settle).filter(Boolean).sort((a, b) => a.g - b.g)[0] || null;
      s.cbs = []; s.ok = !!(s.settle && s.settle.ok);
      s.maxd = (plan.ops.find(o => o.i === s.i) || { cb: { d: [0, 0] } }).cb.d[1];
    }
    const subOf = new Map(subs.map(s => [s.i, s]));
    // ---- callbacks
    const running = new Map(), inv = new Map();
    for (const e of hist) {
      if (e.e === 'cb') {
        const s = subOf.get(e.sub); if (!s) continue;
        const x = { ...e, done: null, s }; inv.set(e.inv, x); s.cbs.push(x);
        count(running, s.i);
        if (running.get(s.i) > s.conc) bad(P, 'concurrency', `subscription ${s.i} of ${s.name} (concurrency ${s.conc}) runs ${running.get(s.i)} callbacks at once`, e);
        if (s.stopped && e.g > s.stopped.g) bad(P, 'after-stop', `subscription ${s.i} of ${s.name}: callback for ${e.v} begins after stop()`, e);
        if (!s.ok && s.settle && e.g > s.settle.g) bad(P, 'after-failure', `subscription ${s.i} of ${s.name} failed, and its callback is called`, e);
      } else if (e.e === 'cbdone') { const x = inv.get(e.inv); if (x) { x.done = e; count(running, x.s.i, -1); } }
    }
    // ---- stop() and subscribe()
    for (const s of subs) for (const x of s.stops) {
      const lim = x.t + s.wait + 5000 + SWEEP + (Q ? 0 : TIMEOUT + SWEEP) + s.maxd * (s.conc > 0 ? 1 : 1) + 5000 + stallIn(x.t, x.t + s.wait + s.maxd + 60_000);
      if (x.settle ? x.settle.t > lim : tEnd > lim) bad(P, 'stop-hangs', `subscription ${s.i} of ${s.name}: stop() ${x.settle ? 'took ' + ((x.settle.t - x.t) | 0) + 'ms' : 'never ended'}`, x);
      if (x.settle && !x.settle.ok) bad(P, 'stop-fails', `subscription ${s.i} of ${s.name}: stop() failed: ${x.settle.msg}`, x.settle);
    }
    if (Q) for (const s of subs) {
      if (!s.settle) continue;
      const others = subs.filter(o => o !== s && o.c === s.c && o.name === s.name);
      if (s.ok) {
        for (const o of others) if (o.ok && o.settle.g < s.settle.g && (!o.over || o.over.g > s.settle.g) && !disc.has(s.c)) bad(P, 'two-subscriptions', `client ${s.c} has two subscriptions of queue ${s.name} at once: ${o.i} and ${s.i}`, s.settle);
      } else if (/already subscribed/i.test(s.settle.msg)) {
        if (!others.some(o => o.g < s.settle.g && !(o.over && o.over.g < s.g) && !(o.settle && !o.settle.ok && o.settle.g < s.g))) bad(P, 'still-subscribed', `client ${s.c}: subscribing to queue ${s.name} fails with "${s.settle.msg}" and nothing is subscribed`, s.settle);
      }
    }
    // ---- what was delivered
    const op = Q ? 'consume' : 'fetch';
    const pay = new Map();
    if (Q) for (const e of by.pushedq) pay.set(e.m, e.v); else for (const e of by.appended) pay.set(e.s + '|' + e.seq, e.v);
    const groups = new Map();
    for (const s of subs) { const k = s.c + '|' + s.name; (groups.get(k) || groups.set(k, []).get(k)).push(s); }
    for (const [k, ss] of groups) {
      const c = ss[0].c, name = ss[0].name, stream = Q ? null : name.split('|')[0];
      const gone = end.deleted.includes(Q ? 'q' + name : 's' + stream);
      const sent = by.sent.filter(e => e.op === op && e.c === c && nameOf(e) === name);
      // outstanding requests
      const live = [];
      for (const e of sent) {
        const x = h.conns.get(e.conn), to = x && x.to ? x.to.t : Infinity;
        const w0 = Math.max(...ss.map(s => s.wait)), w1 = Math.min(...ss.map(s => s.wait));
        const gaveUp = e.t + w1 + 5000; // may have
        e.over = Math.min(to, e.req.answered ? e.req.answered.t : Infinity, gaveUp);
        const n = live.filter(y => y.over > e.t && y.t <= e.t).length + 1;
        const allowed = Q ? 1 : ss.filter(s => s.g < e.g && !(s.over && s.over.g < e.g)).length;
        if (n > allowed && !gone) bad(P, 'two-polls', `client ${c} has ${n} ${op} requests for ${name} outstanding, for ${allowed} subscription(s)`, e);
        live.push(e);
        if (!ss.some(s => s.g < e.g && !(s.over && s.over.g < e.g) && !(s.settle && !s.settle.ok && s.settle.g < e.g))) bad(P, 'poll-after-stop', `client ${c} sends ${op} for ${name}, and every subscription is over`, e);
        e.sure = w1; e.most = w0;
      }
      const batches = sent.map(e => e.req).filter(r => r.served && r.answered && r.served.status === 3).sort((a, b) => a.answered.g - b.answered.g);
      const items = [];
      for (const b of batches) {
        const st = stallIn(b.sent.t, b.answered.t);
        b.must = b.answered.t - b.sent.t < b.sent.sure + 5000 - 10 && st === 0;
        b.may = b.answered.t - b.sent.t <= b.sent.most + 5000 + SWEEP + 10 + st;
        b.items = (Q ? b.served.msgs : b.served.seqs).map(x => { const hex = pay.get(Q ? x : stream + '|' + x); return { x, v: hex === undefined ? undefined : dec(hex), hex, b }; });
        items.push(...b.items);
      }
      const clean = !gone || Q;
      if (!clean) continue;
      const cbs = ss.flatMap(s => s.cbs).sort((a, b) => a.g - b.g);
      // only what was delivered, and no more often
      {
        const have = new Map(); let i = 0;
        const all = [...items].sort((a, b) => a.b.answered.g - b.b.answered.g);
        for (const x of cbs) {
          while (i < all.length && all[i].b.answered.g < x.g) { if (all[i].v !== null && all[i].b.may) count(have, all[i].v); i++; }
          const n = have.get(x.v) || 0;
          if (n === 0) {
            if (all.some(y => y.hex !== undefined && y.v === null && y.b.answered.g < x.g && (x.v === 'b:' + y.hex || x.v === 'j:null' || x.v === 'b:' || x.v === 'u:'))) continue;
            bad(P, 'not-delivered', `subscription ${x.s.i} of ${name}: callback gets ${x.v.slice(0, 60)}, which was not delivered (again)`, x);
          } else have.set(x.v, n - 1);
        }
      }
      const calm = ss.every(s => !s.stopped) && !disc.has(c) && !end.working;
      const nacks = new Map(), acks = new Map(), deliveries = new Map(), okBy = new Map(), okOpen = new Map(), errOpen = new Map(), handed = new Map();
      for (const x of cbs) {
        count(handed, x.v);
        if (!x.done) continue;
        if (x.done.ok) { count(okBy, x.v); if (isOpen(c, x.done.g)) count(okOpen, x.v); } else if (isOpen(c, x.done.g)) { const kk = x.v + '¦' + x.done.why; count(errOpen, kk); }
      }
      // every delivered message reaches the callback
      const mustOf = new Map();
      for (const y of items) if (y.b.must && y.v !== null && y.v !== undefined) count(mustOf, y.v);
      if (calm && !end.capped) for (const [v, n] of mustOf) if ((handed.get(v) || 0) < n && tEnd > Math.max(...items.filter(y => y.v === v).map(y => y.b.answered.t)) + 1000) {
        // long batches still being worked on do not count
        bad(P, 'not-handed', `client ${c}, ${name}: ${v.slice(0, 60)} was delivered ${n} time(s) and reached the callback ${handed.get(v) || 0} time(s)`);
      }
      // ---- acknowledgements
      const ackOp = Q ? 'ack' : 'sack';
      const aks = by.sent.filter(e => e.op === ackOp && e.c === c && nameOf(e) === name);
      const nks = Q ? by.sent.filter(e => e.op === 'nack' && e.c === c && e.q === name) : [];
      const okLog = cbs.filter(x => x.done && x.done.ok).map(x => ({ v: x.v, g: x.done.g, t: x.done.t, open: isOpen(c, x.done.g), x }));
      const free = [...okLog].sort((a, b) => a.g - b.g);
      for (const a of aks) {
        const hex = pay.get(Q ? a.m : stream + '|' + a.seq), v = hex === undefined ? undefined : dec(hex);
        const dl = items.filter(y => y.x === (Q ? a.m : a.seq) && y.b.answered.g < a.g);
        if (!dl.length) { bad(P, 'stray-ack', `client ${c} acknowledges ${Q ? a.m : a.seq} of ${name}, which it was never given`, a); continue; }
        if (!Q && !dl.some(y => y.b.served.member === a.member && y.b.served.gen === a.gen)) bad(P, 'wrong-identity', `client ${c} acknowledges ${name} seq ${a.seq} as member ${a.member} generation ${a.gen}, but was given it as ${dl.map(y => y.b.served.member + ' generation ' + y.b.served.gen).join(', ')}`, a);
        const i = free.findLastIndex(f => f.v === v && f.g < a.g);
        if (i < 0) bad(P, 'ack-without-success', `client ${c} acknowledges ${v} of ${name}, and no callback for it has succeeded`, a);
        else { const f = free[i]; free.splice(i, 1); if (a.t > f.t + 1000 + stallIn(f.t, a.t)) bad(P, 'ack-late', `client ${c}: the callback for ${v} of ${name} succeeded ${(a.t - f.t) | 0}ms before it is acknowledged`, a); }
      }
      for (const f of free) if (f.open && !lastMoment(c, f)) bad(P, 'no-ack', `client ${c}: the callback for ${f.v.slice(0, 60)} of ${name} succeeded and it is not acknowledged`, f);
      function lastMoment(cc, f) { return h.opens.some(o => o.c === cc && o.to && Math.abs(o.to.t - f.t) < 0.001); }
      if (Q) {
        const errs = cbs.filter(x => x.done && !x.done.ok).map(x => ({ v: x.v, why: x.done.why, g: x.done.g, t: x.done.t, open: isOpen(c, x.done.g) }));
        const per = new Map();
        for (const e of aks) count(per, e.m); for (const e of nks) count(per, e.m);
        const del = new Map(); for (const y of items) count(del, y.x);
        for (const [m, n] of per) if (n > (del.get(m) || 0)) bad(P, 'settled-twice', `client ${c}: message ${m} of ${name} was delivered ${del.get(m) || 0} time(s), and acknowledged or refused ${n} time(s)`);
        for (const e of nks) {
          const hex = pay.get(e.m), v = hex === undefined ? undefined : dec(hex);
          if (!del.get(e.m)) { bad(P, 'stray-nack', `client ${c} refuses ${e.m} of ${name}, which it was never given`, e); continue; }
          if (v === null) continue; // nothing the callback could have been given
          const i = errs.findLastIndex(x => x.v === v && x.g < e.g && x.why === e.why);
          if (i >= 0) { if (e.t > errs[i].t + 1000 + stallIn(errs[i].t, e.t)) bad(P, 'nack-late', `client ${c}: ${v} of ${name} is refused ${(e.t - errs[i].t) | 0}ms after its callback failed`, e); errs.splice(i, 1); continue; }
          if (ss.some(s => s.stopped && s.stopped.g < e.g) || disc.has(c)) { count(nacks, v); continue; }
          bad(P, 'nack-without-failure', `client ${c} refuses ${v} of ${name} ("${e.why}"), and no callback for it failed so`, e);
        }
        for (const x of errs) if (x.open && !lastMoment(c, x)) bad(P, 'no-nack', `client ${c}: the callback for ${x.v.slice(0, 60)} of ${name} failed ("${x.why}") and it is not refused with that reason`, x);
        // after stop() the rest of the batch goes back at once
        if (!disc.has(c) && !end.working) for (const s of ss) {
          if (!s.over || !s.stopped) continue;
          for (const y of items) {
            if (!y.b.must || y.v === null || y.v === undefined || y.b.answered.g > s.over.g || y.b.sent.g < (s.settle ? s.settle.g : 0)) continue;
            if ((mustOf.get(y.v) || 0) !== 1 || items.filter(z => z.v === y.v).length !== 1 || handed.get(y.v)) continue;
            if (!h.opens.some(o => o.c === c && o.from.g < y.b.answered.g && (!o.to || o.to.t > s.over.t))) continue;
            if (!nks.some(e => e.m === y.x)) bad(P, 'not-returned', `client ${c}: ${y.v.slice(0, 60)} of ${name} was delivered, the subscription stopped, and it is neither given to the callback nor refused`, s.over);
          }
        }
      } else {
        // ---- order, one subscription with concurrency 1
        if (ss.length === 1 && ss[0].conc === 1) {
          const s = ss[0], N = s.cbs.length;
          // which number of callbacks may have run when this batch is through
          let at = new Set([0]);
          for (const b of batches) {
            const vs = b.items.map(y => y.v).filter(v => v !== null && v !== undefined);
            if (!vs.length || !b.may) continue;
            const next = new Set();
            for (const p of at) {
              if (!b.must || p >= N) next.add(p);
              if (p >= N) continue;
              const got = s.cbs.slice(p, p + vs.length);
              // callbacks belong to the batch when they follow its arrival
              if (got[0].g < b.answered.g) continue;
              let n = 0;
              while (n < got.length && got[n].v === vs[n]) n++;
              if (n === vs.length) next.add(p + n);
              else if (s.stopped || disc.has(c) || end.working || p + n >= N) for (let i = 1; i <= n; i++) next.add(p + i);
            }
            if (!next.size) {
              const p = Math.max(...at), got = s.cbs.slice(p, p + vs.length);
              bad(P, 'order', `subscription ${s.i} of ${name}: delivered ${vs.map(v => v.slice(0, 30)).join(', ')}; the callback got ${got.map(x => x.v.slice(0, 30)).join(', ')}`, got[0]);
              break;
            }
            at = next;
          }
        }
      }
    }
    // ---- progress once everything is well
    if (end.wasQuiet || tEnd > end.E1 + 50_000) for (const s of subs) {
      if (!s.ok || s.stopped || !isUp(s.c)) continue;
      if (Q) {
        const q = end.queues[s.q];
        if (q && !end.deleted.includes('q' + s.q) && (q.ready || q.leased) && !end.wasQuiet) bad(P, 'stuck', `queue ${s.q} has ${q.ready} ready and ${q.leased} leased messages ${((tEnd - end.E1) / 1000) | 0}s after everything was well again, with subscription ${s.i} active`);
      } else {
        const st = end.streams[s.s], g = st && st.groups[s.group];
        if (st && !end.deleted.includes('s' + s.s) && !end.wasQuiet && (!g || g.out || g.avail)) bad(P, 'stuck', `stream ${s.s} group ${s.group}: ${g ? g.acked : 0} of ${st.len} acknowledged, ${g ? g.out : 0} out ${((tEnd - end.E1) / 1000) | 0}s after everything was well again, with subscription ${s.i} active`);
      }
    }
    // the last message reaches somebody who is subscribed
    if (!Q && tEnd > end.E1 + 50_000) {
      const want = new Map();
      for (const s of subs) if (s.ok && !s.stopped && isUp(s.c)) count(want, s.c + '|' + s.name);
      const have = new Map();
      for (const m of end.members) count(have, m.c + '|' + m.s + '|' + m.group);
      for (const k of new Set([...want.keys(), ...have.keys()])) {
        const [c, st] = k.split('|');
        if (!end.streams[st] || end.deleted.includes('s' + st)) continue;
        if (disc.has(+c)) continue;
        // a subscribe that failed on its way may have joined; nobody knows
        const lost = subs.filter(s => !s.ok && s.c === +c && s.name === k.slice(c.length + 1)).length;
        const a = want.get(k) || 0, b = have.get(k) || 0;
        if (b < a) bad(P, 'not-a-member', `client ${c}: ${a} subscription(s) of ${k.slice(c.length + 1)} and ${b} membership(s) after everything was well again`);
        if (b > a + lost && leaveSure(k, +c)) bad(P, 'membership-left', `client ${c}: ${a} subscription(s) of ${k.slice(c.length + 1)} and ${b} membership(s) at the end`);
      }
    }
    function leaveSure(k, c) {
      // a leave or join whose answer did not arrive in time leaves the membership unknown
      for (const e of by.sent) if (e.c === c && (e.op === 'leave' || e.op === 'join') && !(e.req.answered && e.req.answered.t - e.t < TIMEOUT - 10)) { const x = h.conns.get(e.conn); if (!x || !x.to) return false; }
      for (const e of by.served) if (e.c === c && e.op === 'leave' && e.any) return false;
      return true;
    }
  }
}

// ==================================================================== C05
function pubsub(plan, h) {
  const { hist, end, by, order, bad, isUp, disc, tEnd } = h;
  const subs = order.filter(c => c.op === 'sub'), uns = order.filter(c => c.op === 'unsub');
  if (!subs.length) return;
  const per = new Map();
  for (const s of subs) { const k = s.c + '|' + s.topic; (per.get(k) || per.set(k, []).get(k)).push(s); }
  for (const s of subs) {
    s.h = by.h.filter(e => e.sub === s.i);
    const st = s.settle;
    if (st && !st.ok) {
      if (/Already subscribed/.test(st.msg)) {
        const before = per.get(s.c + '|' + s.topic).filter(o => o !== s && o.g < s.g);
        const sure = before.length === 0;
        if (sure) bad('C05', 'not-subscribed', `client ${s.c}: subscribing to ${s.topic} fails with "${st.msg}" for the first subscription`, st);
        if (s.h.length) bad('C05', 'refused-called', `client ${s.c}: the handler of a refused subscription to ${s.topic} is called`, s.h[0]);
        s.win = { must: [Infinity, Infinity], may: [Infinity, Infinity] };
      } else s.win = { must: [Infinity, Infinity], may: [s.g, st.g] };
      continue;
    }
    // the first unsubscribe after it
    const u = uns.filter(x => x.c === s.c && x.topic === s.topic && x.g > s.g);
    const done = u.find(x => x.settle && x.settle.ok && (!st || x.settle.g > st.g || true));
    // one that was under way already may end it as well
    const over = uns.some(x => x.c === s.c && x.topic === s.topic && x.g < s.g && (!x.settle || x.settle.g > s.g));
    const a = over ? s.g : u[0] ? u[0].g : Infinity, b = done ? done.settle.g : Infinity;
    s.win = { must: st ? [s.g, a] : [Infinity, Infinity], may: [s.g, b] };
  }
  for (const s of subs) {
    const exp = [];
    for (const e of by.received) {
      if (e.c !== s.c || !matches(s.topic, e.topic)) continue;
      if (e.g < s.win.may[0] || e.g > s.win.may[1]) continue;
      if (disc.has(s.c) && e.g > disc.get(s.c).g) continue;
      const v = dec(e.v);
      exp.push({ v, hex: e.v, t: e.t, g: e.g, must: v !== null && e.g > s.win.must[0] && e.g < s.win.must[1] });
    }
    let set = new Set([0]), k = 0;
    const A = s.h;
    for (const x of exp) {
      const nx = new Set();
      for (const p of set) {
        const y = A[p];
        const eq = y && y.g > x.g && y.t === x.t && (x.v !== null ? y.v === x.v : (y.v === 'b:' + x.hex || y.v === 'b:' || y.v === 'j:null' || y.v === 'u:' || y.v === 's:'));
        if (eq) nx.add(p + 1);
        if (!x.must) nx.add(p);
      }
      if (!nx.size) {
        const p = Math.max(...set);
        bad('C05', 'handler', `client ${s.c}: a push of ${x.v} arrived at ${x.t}ms; the handler of "${s.topic}" (call ${s.i}) then got ${A[p] ? A[p].v + ' at ' + A[p].t + 'ms' : 'nothing more'} (call number ${p + 1})`);
        set = null; break;
      }
      set = nx; k++;
    }
    if (set && !set.has(A.length)) { const p = Math.max(...set); bad('C05', 'handler-extra', `client ${s.c}: the handler of "${s.topic}" (call ${s.i}) got ${A[p] ? A[p].v : '?'}, which was not pushed to it then`, A[p]); }
  }
  // nothing is subscribed to that nobody wants
  for (const e of by.sent) if (e.op === 'sub') {
    const l = per.get(e.c + '|' + e.topic) || [];
    if (!l.some(s => s.win.may[0] < e.g && s.win.may[1] > e.g || s.g < e.g && s.settle && s.settle.g > e.g)) bad('C05', 'ghost', `client ${e.c} subscribes to ${e.topic} at the server, and the application has no subscription to it`, e);
  }
  // and everything wanted is, once everything is well again
  if (tEnd > end.E1 + 20_000) for (const s of subs) {
    if (!isUp(s.c) || !s.settle || !s.settle.ok || s.win.must[1] !== Infinity) continue;
    const last = hist.filter(e => e.e === 'call' && (e.op === 'sub' || e.op === 'unsub') && e.c === s.c && e.topic === s.topic && e.g > s.g);
    if (last.length) continue;
    if (!(end.subs[s.c] || []).includes(s.topic)) bad('C05', 'not-resubscribed', `client ${s.c}: the subscription to ${s.topic} (call ${s.i}) is not known to the server ${((tEnd - end.F) / 1000) | 0}s after the last fault`);
  }
}
