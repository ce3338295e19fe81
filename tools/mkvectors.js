// Generates sim/kit/vectors.txt with OpenSSL (through node): ground truth for the reference models.
const c = require('crypto'), fs = require('fs');
let ctr = 0;
function rnd(n) { // deterministic
  let out = Buffer.alloc(0);
  while (out.length < n) out = Buffer.concat([out, c.createHash('sha256').update('v' + ctr++).digest()]);
  return out.subarray(0, n);
}
const h = b => b.length ? b.toString('hex') : '-';
const L = [];
const lens = [0, 1, 3, 8, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 105, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 145, 167, 168, 169, 191, 192, 255, 256, 257, 300, 512];
for (const n of lens) {
  const m = rnd(n);
  for (const a of ['sha256', 'sha3-224', 'sha3-256', 'sha3-384', 'sha3-512', 'blake2b512'])
    L.push([a, h(m), c.createHash(a).update(m).digest('hex')]);
}
for (const n of [0, 5, 135, 136, 137, 167, 168, 169, 300]) for (const l of [1, 32, 136, 168, 169, 300]) {
  const m = rnd(n);
  for (const a of ['shake128', 'shake256']) L.push([a, h(m), c.createHash(a, { outputLength: l }).update(m).digest('hex')]);
}
for (const kn of [0, 1, 32, 63, 64, 65, 100, 128]) for (const n of [0, 1, 55, 64, 100, 128]) {
  const k = rnd(kn), m = rnd(n);
  L.push(['hmac', h(k), h(m), c.createHmac('sha256', k).update(m).digest('hex')]);
}
for (const kn of [1, 22, 64]) for (const sn of [0, 13, 64]) for (const inn of [0, 10, 64]) for (const l of [1, 32, 33, 64, 255 * 32]) {
  if (l > 100 && (sn || inn)) continue;
  const k = rnd(kn), s = rnd(sn), i = rnd(inn);
  L.push(['hkdf', h(k), h(s), h(i), Buffer.from(c.hkdfSync('sha256', k, s, i, l)).toString('hex')]);
}
for (const kn of [16, 32]) for (const n of [0, 1, 15, 16, 17, 48, 100]) for (const an of [0, 1, 16, 20, 33]) {
  const k = rnd(kn), iv = rnd(12), a = rnd(an), m = rnd(n);
  const e = c.createCipheriv(`aes-${kn * 8}-gcm`, k, iv); e.setAAD(a);
  const ct = Buffer.concat([e.update(m), e.final()]);
  L.push(['gcm', h(k), h(iv), h(a), h(m), h(ct), h(e.getAuthTag())]);
}
for (const n of [0, 1, 15, 16, 17, 63, 64, 65, 200]) for (const an of [0, 1, 12, 16, 17, 40]) {
  const k = rnd(32), iv = rnd(12), a = rnd(an), m = rnd(n);
  const e = c.createCipheriv('chacha20-poly1305', k, iv, { authTagLength: 16 }); e.setAAD(a, { plaintextLength: n });
  const ct = Buffer.concat([e.update(m), e.final()]);
  L.push(['ccp', h(k), h(iv), h(a), h(m), h(ct), h(e.getAuthTag())]);
}
for (const kn of [16, 32]) for (const start of [0, 1, 5, 0x7fffffff, 0xfffffff0]) for (const n of [0, 1, 16, 33, 100]) {
  const k = rnd(kn), iv = rnd(12), m = rnd(n), b = Buffer.alloc(4); b.writeUInt32BE(start);
  const e = c.createCipheriv(`aes-${kn * 8}-ctr`, k, Buffer.concat([iv, b]));
  L.push(['ctr', h(k), h(iv), String(start), h(m), h(Buffer.concat([e.update(m), e.final()]))]);
}
for (const start of [0, 1, 77, 0x7fffffff]) for (const n of [0, 1, 64, 65, 200]) {
  const k = rnd(32), iv = rnd(12), m = rnd(n), b = Buffer.alloc(4); b.writeUInt32LE(start);
  const e = c.createCipheriv('chacha20', k, Buffer.concat([b, iv]));
  L.push(['chacha', h(k), h(iv), String(start), h(m), h(Buffer.concat([e.update(m), e.final()]))]);
}
const pk = (pre, raw) => Buffer.concat([Buffer.from(pre, 'hex'), raw]);
for (let i = 0; i < 12; i++) {
  const k = rnd(32), u = rnd(32);
  if (i == 1) u[31] |= 0x80;
  if (i == 2) { u.fill(0xff); u[0] = 0xf0; u[31] = 0x7f; } // non-canonical: 2^255-16
  if (i == 3) { u.fill(0); u[0] = 9; }
  const priv = c.createPrivateKey({ key: pk('302e020100300506032b656e04220420', k), format: 'der', type: 'pkcs8' });
  const pub = c.createPublicKey({ key: pk('302a300506032b656e032100', u), format: 'der', type: 'spki' });
  L.push(['x25519', h(k), h(u), h(c.diffieHellman({ privateKey: priv, publicKey: pub }))]);
}
const N = BigInt('0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551');
const ks = [1n, 2n, 3n, 4n, 5n, N - 1n, N - 2n, 1n << 255n, (1n << 128n) - 1n];
for (let i = 0; i < 8; i++) ks.push(BigInt('0x' + rnd(32).toString('hex')) % N);
for (const k of ks) {
  const e = c.createECDH('prime256v1'); e.setPrivateKey(Buffer.from(k.toString(16).padStart(64, '0'), 'hex'));
  L.push(['p256', k.toString(16).padStart(64, '0'), e.getPublicKey('hex').slice(2)]);
}
fs.writeFileSync(__dirname + '/../sim/kit/vectors.txt', L.map(x => x.join(' ')).join('\n') + '\n');
