// Entry: check | sweep | one | replay | worker
import { fork } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { createRequire } from 'node:module';
import { makePlan, PROPS, SCENS } from './scen.mjs';
import { runPlan } from './run.mjs';
import { judge } from './oracle.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const SDK = process.env.SDK_SRC || '/repo/sdk/ts/src';
const args = process.argv.slice(2);
const opt = (n, d) => { const i = args.indexOf('--' + n); return i < 0 ? d : args[i + 1]; };

export function build() {
  const require = createRequire('/opt/veriftools/node/node_modules/');
  const esbuild = require('esbuild');
  const r = esbuild.buildSync({ entryPoints: [SDK + '/index.ts'], bundle: true, write: false, format: 'cjs', platform: 'node', target: 'node20', external: ['net', 'events', 'node:net', 'node:events'], logLevel: 'silent', tsconfigRaw: '{}', absWorkingDir: SDK });
  return r.outputFiles[0].text;
}
const NAMES = ['require', 'module', 'exports', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'clearImmediate', 'Date', 'Math', 'performance', 'process', 'console'];
export function factory(code) {
  const f = new Function(...NAMES, code);
  return env => f(...NAMES.map(n => env[n]));
}
async function exec(plan, fac) {
  const run = await runPlan(plan, fac);
  let v;
  try { v = judge(plan, run); } catch (x) { v = { viols: [], broken: String(x.stack) }; }
  return { run, ...v };
}
const mine = (prop, v) => v.prop === prop || v.prop === '*';

async function worker() {
  const cfg = JSON.parse(process.env.SDKSIM);
  const fac = factory(fs.readFileSync(cfg.bundle, 'utf8'));
  const o = { runs: 0, steps: 0, simMs: 0, faults: {}, digests: [], scheds: [], scen: {}, found: [], inconclusive: 0, broken: null, calls: 0, callbacks: 0, deliveries: 0, nontrivial: 0, nondet: 0, reconnects: 0, kinds: {} };
  const until = Date.now() + cfg.ms;
  for (let k = cfg.w; Date.now() < until && (!cfg.max || k < cfg.max); k += cfg.n) {
    const plan = makePlan(cfg.prop, k, cfg.seed);
    const r = await exec(plan, fac);
    o.runs++; o.steps += r.run.steps; o.simMs += r.run.simMs; o.scen[plan.scen] = (o.scen[plan.scen] || 0) + 1;
    for (const [a, b] of Object.entries(r.run.faults)) o.faults[a] = (o.faults[a] || 0) + b;
    o.digests.push(r.run.digest); o.scheds.push(r.run.sched);
    let calls = 0, cbs = 0;
    for (const e of r.run.hist) { if (e.e === 'call') calls++; else if (e.e === 'cb' || e.e === 'h') cbs++; else if (e.e === 'connected') o.reconnects++; else if (e.e === 'answered') o.deliveries++; }
    o.calls += calls; o.callbacks += cbs;
    if (calls > 3 && (Object.keys(r.run.faults).length || cbs)) o.nontrivial++;
    if (r.broken) { o.broken = { k, why: r.broken }; break; }
    if (r.inconclusive) o.inconclusive++;
    if (k % 97 === cfg.w % 97) { const again = await exec(plan, fac); if (again.run.digest !== r.run.digest) { o.nondet++; o.nondetK = k; } }
    const v = r.viols.filter(x => cfg.all || mine(cfg.prop, x));
    if (v.length) { for (const x of v) o.kinds[x.prop + ' ' + x.kind] = (o.kinds[x.prop + ' ' + x.kind] || 0) + 1; if (o.found.length < 20) o.found.push({ k, plan, viols: v.slice(0, 3) }); if (!cfg.all) break; }
  }
  process.send(o, () => process.exit(0));
}

function pool(prop, ms, seed, bundle, extra = {}) {
  const n = +opt('jobs', 8);
  return Promise.all([...Array(n)].map((_, w) => new Promise(res => {
    const p = fork(fileURLToPath(import.meta.url), ['worker'], { env: { ...process.env, SDKSIM: JSON.stringify({ prop, ms, seed, w, n, bundle, ...extra }) }, execArgv: ['--stack-size=2000'] });
    let got = null;
    p.on('message', m => { got = m; });
    p.on('exit', () => res(got));
  })));
}
function known(verif) { try { return JSON.parse(fs.readFileSync(verif + '/known_findings.json', 'utf8')).findings || []; } catch { return []; } }
const isKnown = (ks, v) => ks.find(k => k.property === v.prop && k.kind === v.kind && (k.contains || []).every(c => v.msg.includes(c)));

async function minimise(plan, prop, kind, fac, ms) {
  const until = Date.now() + ms;
  const same = async p => { const r = await exec(p, fac); return r.viols && r.viols.some(v => mine(prop, v) && v.kind === kind); };
  let cur = plan;
  for (const field of ['faults', 'ops', 'faults', 'ops']) {
    let size = Math.ceil(cur[field].length / 2);
    while (size >= 1 && Date.now() < until) {
      let any = false;
      for (let i = 0; i < cur[field].length && Date.now() < until;) {
        const p = { ...cur, [field]: [...cur[field].slice(0, i), ...cur[field].slice(i + size)] };
        if (await same(p)) { cur = p; any = true; } else i += size;
      }
      if (!any || size === 1) { if (size === 1 && !any) break; size = size === 1 ? 1 : Math.ceil(size / 2); } else size = Math.max(1, Math.min(size, Math.ceil(cur[field].length / 2)));
    }
  }
  for (const [a, b] of [['frag', 0], ['spike', 0], ['shuffle', 0]]) { const p = { ...cur, net: { ...cur.net, [a]: b } }; if (Date.now() < until && await same(p)) cur = p; }
  return cur;
}

async function check(prop) {
  const t0 = Date.now();
  const tier = opt('tier', 'quick'), seed = +opt('seed', 1), verif = opt('verif', path.dirname(here));
  const secs = +opt('secs', tier === 'thorough' ? 600 : 40);
  let code;
  try { code = build(); } catch (x) { console.log('the SDK does not build: ' + String(x.message).slice(0, 2000)); process.exit(3); }
  const dir = fs.mkdtempSync(path.join(fs.existsSync(verif + '/replays') ? verif + '/replays' : '/tmp', 'sdk-'));
  const bundle = dir + '/sdk.cjs';
  fs.writeFileSync(bundle, code);
  const fac = factory(code);
  const outs = (await pool(prop, secs * 1000, seed, bundle)).filter(Boolean);
  fs.rmSync(dir, { recursive: true });
  if (!outs.length) { console.log('no worker answered'); process.exit(3); }
  const sum = k => outs.reduce((a, o) => a + o[k], 0);
  const obj = k => { const r = {}; for (const o of outs) for (const [a, b] of Object.entries(o[k])) r[a] = (r[a] || 0) + b; return r; };
  const broken = outs.find(o => o.broken);
  if (broken) { console.log('the oracle failed: ' + JSON.stringify(broken.broken)); process.exit(3); }
  const ks = known(verif);
  const found = outs.flatMap(o => o.found).sort((a, b) => a.k - b.k);
  const fresh = found.map(f => ({ ...f, viols: f.viols.filter(v => !isKnown(ks, v)) })).filter(f => f.viols.length);
  const digests = new Set(outs.flatMap(o => o.digests)), scheds = new Set(outs.flatMap(o => o.scheds));
  const wall = (Date.now() - t0) / 1000;
  const sample = makePlan(prop, 0, seed);
  const ev = {
    property: prop, tier, seed, level: 'exploration', wall_s: Math.round(wall * 10) / 10, violations: fresh.length,
    coverage: {
      evaluations: sum('runs'), distinct_nontrivial: Math.min(digests.size, sum('nontrivial')),
      rule: 'one evaluation is one simulated run of a seeded plan: 1-4 SDK clients with their calls, subscriptions and callbacks, against the model server, with faults until a point in time and a calm end in which everything must get going again. Non-trivial: more than three calls, and a fault or a callback happened. Distinct: different digest of the whole recorded history.',
      samples: [{ k: 0, scenario: sample.scen, net: sample.net, ops: sample.ops.slice(0, 6), faults: sample.faults }],
      runs_per_hour: Math.round(sum('runs') / Math.max(1, secs) * 3600), simulated_hours: Math.round(sum('simMs') / 36_000) / 100, steps: sum('steps'),
      distinct_histories: digests.size, distinct_interleavings: scheds.size, interleaving_measure: 'hash of the sequence of event kinds the scheduler ran',
      calls: sum('calls'), callbacks: sum('callbacks'), answers_received: sum('deliveries'), connections: sum('reconnects'), faults: obj('faults'), scenarios: obj('scen'), inconclusive: sum('inconclusive'), nondeterministic: sum('nondet'),
      real_code: ['sdk/ts/src: client, connection, codec, all four brokers, logger, concurrency helper (bundled with esbuild at check time)', 'node: EventEmitter, Buffer, promises and microtask order'],
      stubs: ['net.Socket: simulated streams with delay, fragmentation, loss of connection', 'timers, Date, performance, Math.random: simulated', 'the server: a small model with the same protocol (sdksim/server.mjs), whose log is what the oracle compares with'],
    },
    assumptions: ['the model server answers like the real one where the SDK depends on it', 'a sample of schedules, faults and programs, not all of them'],
  };
  fs.mkdirSync(verif + '/evidence', { recursive: true });
  fs.writeFileSync(`${verif}/evidence/${prop}.json`, JSON.stringify(ev, null, 1));
  console.log(`${prop} ${tier}: ${sum('runs')} runs, ${digests.size} distinct, ${sum('calls')} calls, ${(sum('simMs') / 1000).toFixed(0)} simulated s, ${sum('inconclusive')} inconclusive, ${sum('nondet')} nondeterministic, ${wall.toFixed(1)} s`);
  for (const f of found) for (const v of f.viols) { const k = isKnown(ks, v); if (k) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`); }
  if (sum('nondet')) { console.log('a run did not repeat exactly'); if (!fresh.length) process.exit(3); }
  if (!fresh.length) process.exit(0);
  const f = fresh[0], v = f.viols[0];
  const plan = await minimise(f.plan, prop, v.kind, fac, 25_000);
  const r = await exec(plan, fac);
  const vm = r.viols.find(x => mine(prop, x) && x.kind === v.kind) || v;
  fs.mkdirSync(verif + '/replays', { recursive: true });
  const file = `${verif}/replays/${prop}-sdk-${f.k}.json`;
  fs.writeFileSync(file, JSON.stringify({ tool: 'sdksim', property: prop, kind: v.kind, msg: vm.msg, seed, k: f.k, digest: r.run.digest, plan }, null, 1));
  console.log(`${v.kind}: ${vm.msg}`);
  console.log(`found at run ${f.k} of seed ${seed}; minimised to ${plan.ops.length} operations and ${plan.faults.length} faults`);
  console.log(`replay: node ${here}/main.mjs replay ${file}`);
  console.log(`VIOLATION property=${prop} replay=${file}`);
  process.exit(1);
}
function show(e) { const { t, g, e: k, ...r } = e; delete r.req; delete r.answered; return `${String(t).padStart(12)}  ${k.padEnd(10)} ${JSON.stringify(r)}`; }

const cmd = args[0];
if (cmd === 'worker') await worker();
else if (cmd === 'check') await check(args[1]);
else if (cmd === 'one') {
  const fac = factory(build());
  const plan = makePlan(args[1], +args[2], +opt('seed', 1));
  const r = await exec(plan, fac);
  if (!args.includes('-q')) for (const e of r.run.hist) console.log(show(e));
  console.log(JSON.stringify(r.run.end)); console.log(r.viols, r.broken || '', r.inconclusive || '', 'steps', r.run.steps);
} else if (cmd === 'min') {
  const fac = factory(build());
  const plan = makePlan(args[1], +args[2], +opt('seed', 1));
  const p = await minimise(plan, args[1], args[3], fac, 30_000);
  const r = await exec(p, fac);
  for (const e of r.run.hist.slice(0, +opt('n', 300))) console.log(show(e));
  console.log(JSON.stringify(p.ops), JSON.stringify(p.faults)); console.log(r.viols);
} else if (cmd === 'replay') {
  const f = JSON.parse(fs.readFileSync(args[1], 'utf8'));
  const r = await exec(f.plan, factory(build()));
  for (const e of r.run.hist) console.log(show(e));
  const v = r.viols.filter(x => mine(f.property, x));
  console.log(r.run.digest === f.digest ? 'the run is the recorded one' : 'the run differs from the recorded one');
  if (v.length) { console.log(v.map(x => x.kind + ': ' + x.msg).join('\n')); console.log(`VIOLATION property=${f.property} replay=${args[1]}`); process.exit(1); }
  console.log('no violation'); process.exit(0);
} else if (cmd === 'times') {
  const fac = factory(build());
  for (let k = 0; k < +args[2]; k++) {
    const plan = makePlan(args[1], k, +opt('seed', 1));
    const a = performance.now(); const run = await runPlan(plan, fac);
    const b = performance.now(); judge(plan, run);
    const c = performance.now();
    console.log(k, plan.scen, 'run', (b - a) | 0, 'judge', (c - b) | 0, 'steps', run.steps, 'hist', run.hist.length, 'end', (run.simMs / 1000) | 0);
  }
  process.exit(0);
} else if (cmd === 'sweep') {
  const secs = +args[1];
  const bundle = '/tmp/sdk-sweep.cjs'; fs.writeFileSync(bundle, build());
  for (const p of (opt('prop', PROPS.join(','))).split(',')) {
    const outs = (await pool(p, secs * 1000, +opt('seed', 1), bundle, { all: true })).filter(Boolean);
    const kinds = {}, ex = {};
    for (const o of outs) { for (const [a, b] of Object.entries(o.kinds)) kinds[a] = (kinds[a] || 0) + b; for (const f of o.found) for (const v of f.viols) ex[v.prop + ' ' + v.kind] = ex[v.prop + ' ' + v.kind] || `k=${f.k} ${v.msg}`; if (o.broken) console.log('BROKEN', o.broken); if (o.nondet) console.log('NONDET', o.nondetK); }
    console.log(`== ${p}: ${outs.reduce((a, o) => a + o.runs, 0)} runs, ${outs.reduce((a, o) => a + o.inconclusive, 0)} inconclusive`);
    for (const k of Object.keys(kinds).sort()) console.log(`  ${String(kinds[k]).padStart(6)} ${k}  ${(ex[k] || '').slice(0, 300)}`);
  }
}
