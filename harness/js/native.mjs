// native.mjs: run harness functions of the transpiled client natively.
// stdin: one JSON line {fn, input (hex), param} per run; stdout: one JSON line {ret, out (hex)} or {thrown}
import { createHash } from 'node:crypto';
import { createInterface } from 'node:readline';
const B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const P = 2n ** 255n - 19n;
const pow = (b, e) => {
  let r = 1n;
  b %= P;
  for (; e > 0n; e >>= 1n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
  }
  return r;
};
const D = ((((-121665n * pow(121666n, P - 2n)) % P) + P) % P);
const leInt = (b) => {
  let n = 0n;
  for (let i = b.length - 1; i >= 0; i--) n = (n << 8n) | BigInt(b[i]);
  return n;
};
function onCurve(h) {
  const y = leInt(h) & ((1n << 255n) - 1n);
  const y2 = (y * y) % P;
  const u = (y2 - 1n + P) % P;
  const v = (D * y2 + 1n) % P;
  const x2 = (u * pow(v, P - 2n)) % P;
  return x2 === 0n || pow(x2, (P - 1n) / 2n) === 1n;
}
globalThis.__v = {
  addressBytes(s) {
    if (typeof s !== 'string' || s.length < 32 || s.length > 44) throw new Error('not an address');
    let n = 0n, zeros = 0;
    while (zeros < s.length && s[zeros] === '1') zeros++;
    for (const c of s) {
      const d = B58.indexOf(c);
      if (d < 0) throw new Error('not an address');
      n = n * 58n + BigInt(d);
    }
    const body = [];
    for (; n > 0n; n >>= 8n) body.unshift(Number(n & 255n));
    if (body.length + zeros !== 32) throw new Error('not an address');
    return new Uint8Array([...new Array(zeros).fill(0), ...body]);
  },
  addressOf(b) {
    let n = 0n, s = '';
    for (const x of b) n = (n << 8n) | BigInt(x);
    for (; n > 0n; n /= 58n) s = B58[Number(n % 58n)] + s;
    for (const x of b) {
      if (x) break;
      s = '1' + s;
    }
    return s;
  },
  isAddress(s) {
    try {
      globalThis.__v.addressBytes(s);
      return true;
    } catch {
      return false;
    }
  },
  base64Bytes: (s) => new Uint8Array(Buffer.from(s, 'base64')),
  bytesBase64: (b) => Buffer.from(b).toString('base64'),
  // little-endian two's complement
  intBytes(v, n) {
    let x = BigInt.asUintN(8 * n, BigInt(v));
    const r = new Uint8Array(n);
    for (let i = 0; i < n; i++, x >>= 8n) r[i] = Number(x & 255n);
    return r;
  },
  bytesBig: (b, signed) => (signed ? BigInt.asIntN(8 * b.length, leInt(b)) : leInt(b)),
  bytesNum: (b, signed) => Number(signed ? BigInt.asIntN(8 * b.length, leInt(b)) : leInt(b)),
  concat(list) {
    const r = new Uint8Array(list.reduce((n, b) => n + b.length, 0));
    let o = 0;
    for (const b of list) {
      r.set(b, o);
      o += b.length;
    }
    return r;
  },
  // -> [32 bytes, bump]: the first bump, from 255 down, whose hash is off the curve
  pda(seeds, program) {
    for (let bump = 255; bump >= 0; bump--) {
      const h = createHash('sha256');
      for (const s of seeds) h.update(s);
      h.update(new Uint8Array([bump])).update(program).update('ProgramDerivedAddress');
      const d = new Uint8Array(h.digest());
      if (!onCurve(d)) return [d, bump];
    }
    throw new Error('no bump');
  },
};
console.error = () => {};
console.log = console.warn = console.info = () => {};
const mainId = process.argv[2];
const main = await import(`./m${mainId}.mjs`);
for await (const line of createInterface({ input: process.stdin })) {
  const { fn, input, param } = JSON.parse(line);
  let r;
  try {
    const [code, out] = await main[fn](new Uint8Array(Buffer.from(input, 'hex')), param);
    r = { ret: code, out: Buffer.from(out).toString('hex') };
  } catch (e) {
    r = { thrown: String(e).slice(0, 300) };
  }
  process.stdout.write(JSON.stringify(r) + '\n');
}
