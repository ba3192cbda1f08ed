// Values the applications send, and how they look on the wire.
export const canon = v => Buffer.isBuffer(v) || v instanceof Uint8Array ? 'b:' + Buffer.from(v).toString('hex') : typeof v === 'string' ? 's:' + v : v === undefined ? 'u:' : 'j:' + JSON.stringify(v);
export function enc(v) {
  if (Buffer.isBuffer(v)) return Buffer.concat([Buffer.from([0]), v]).toString('hex');
  if (typeof v === 'string') return Buffer.concat([Buffer.from([1]), Buffer.from(v)]).toString('hex');
  return Buffer.concat([Buffer.from([2]), Buffer.from(JSON.stringify(v ?? null))]).toString('hex');
}
/** what a payload decodes to; null when it cannot be decoded */
export function dec(hex) {
  const b = Buffer.from(hex, 'hex');
  if (b.length === 0) return null;
  if (b[0] === 1) return canon(b.toString('utf8', 1));
  if (b[0] === 2) { if (b.length === 1) return 'j:null'; try { return canon(JSON.parse(b.toString('utf8', 1))); } catch { return null; } }
  return canon(b.subarray(1));
}
/** the value of a description [kind, number] */
export function value([k, n]) {
  switch (k) {
    case 's': return 'm' + n;
    case 'u': return 'ø→' + n + '\u{1F600}';
    case 'L': return 'x'.repeat(200 + (n % 7) * 500) + n;
    case 'j': return { n, a: [1, 'two', null], s: 'é' };
    case 'i': return n;
    case 'b': return Buffer.from('00ff' + n.toString(16).padStart(8, '0'), 'hex');
    case 'B': return Buffer.concat([Buffer.alloc(3000, 7), Buffer.from(String(n))]);
    case 'n': return null;
    case 'U': return undefined;
    case 'e': return '';
    case 'E': return Buffer.alloc(0);
    case 't': return n % 2 === 0;
  }
  return k;
}
