// Loads the SDK of the tree in the working directory, and a scripted server for it on the loopback.
import { createRequire } from 'node:module';
import net from 'node:net';
import path from 'node:path';
import { EventEmitter } from 'node:events';
export const sleep = ms => new Promise(r => setTimeout(r, ms));
export function loadSdk() {
  const require = createRequire('/opt/veriftools/node/node_modules/');
  const r = require('esbuild').buildSync({ entryPoints: [path.join(process.cwd(), 'sdk/ts/src/index.ts')], bundle: true, write: false, format: 'cjs', platform: 'node', target: 'node20', logLevel: 'silent' });
  const m = { exports: {} };
  new Function('require', 'module', 'exports', r.outputFiles[0].text)(createRequire('/'), m, m.exports);
  return m.exports;
}
const u32 = n => { const b = Buffer.alloc(4); b.writeUInt32BE(n); return b; };
const u64 = n => { const b = Buffer.alloc(8); b.writeBigUInt64BE(BigInt(n)); return b; };
const str = s => { const b = Buffer.from(s); return Buffer.concat([u32(b.length), b]); };
export const enc = { u32, u64, str, cat: (...l) => Buffer.concat(l), any: s => Buffer.concat([Buffer.from([1]), Buffer.from(s)]), uuid: n => Buffer.from(String(n).padStart(32, '0'), 'hex') };
export const frame = (type, meta, id, p) => { const h = Buffer.alloc(10); h[0] = type; h[1] = meta; h.writeUInt32BE(id, 2); h.writeUInt32BE(p.length, 6); return Buffer.concat([h, p]); };
/** handler(req, conn): req = {op, id, body}; conn.ok(req), conn.data(req, buf), conn.err(req, msg), conn.push(topic, any), conn.sock */
export async function fakeServer(handler, port = 0) {
  const ev = new EventEmitter(), conns = [];
  const srv = net.createServer(sock => {
    const c = { sock, open: true, n: conns.length };
    conns.push(c);
    c.raw = b => { if (c.open) sock.write(b); };
    c.ok = r => c.raw(frame(2, 0, r.id, Buffer.alloc(0)));
    c.data = (r, b) => c.raw(frame(2, 3, r.id, b));
    c.err = (r, m) => c.raw(frame(2, 1, r.id, str(m)));
    c.push = (t, v) => c.raw(frame(3, 0, 0, Buffer.concat([str(t), v])));
    sock.on('error', () => {}); sock.on('close', () => { c.open = false; });
    ev.emit('conn', c);
    let buf = Buffer.alloc(0);
    sock.on('data', b => {
      buf = Buffer.concat([buf, b]);
      while (buf.length >= 10 && buf.length >= 10 + buf.readUInt32BE(6)) {
        const n = 10 + buf.readUInt32BE(6), f = Buffer.from(buf.subarray(0, n)); buf = buf.subarray(n);
        handler({ op: f[1], id: f.readUInt32BE(2), body: f.subarray(10), t: Date.now() }, c);
      }
    });
  });
  await new Promise(r => srv.listen(port, '127.0.0.1', r));
  return { port: srv.address().port, conns, ev, stop: () => { srv.close(); for (const c of conns) c.sock.destroy(); } };
}
export const connect = (sdk, port) => sdk.NexoClient.connect({ host: '127.0.0.1', port, logLevel: 'OFF' });
export const outcome = (p, ms) => Promise.race([p.then(v => ({ ok: true, v }), e => ({ ok: false, e })), sleep(ms).then(() => ({ late: true }))]);
export function check(cond, msg) { if (!cond) { console.log('FAILED: ' + msg); process.exit(1); } }
export const done = () => { console.log('ok'); process.exit(0); };
