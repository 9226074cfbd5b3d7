// Runs /repo's JavaScript certificate verifier on one JSON line at a time.
// The agent library it builds on is not installed here; what the verifier uses of it is written out below after its
// interface: decoding, root hashes and lookups of hash trees, and `Certificate.create`, which believes exactly those
// (certificate, canister, root key) triples that the monitor says are genuine.
'use strict';
const fs = require('fs'), path = require('path'), crypto = require('crypto'), Module = require('module');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const SRC = process.argv[2];
for (const k of ['log', 'info', 'debug', 'warn', 'error']) console[k] = () => {};

// ------------------------------------------------------------------ stand-ins
const u8 = x => (x instanceof Uint8Array ? x : new Uint8Array(x));
const ab = x => { const y = u8(x); return y.buffer.slice(y.byteOffset, y.byteOffset + y.byteLength); };
function decode(buf) {
  const b = u8(buf);
  let i = 0;
  const need = n => { if (i + n > b.length) throw new Error('unexpected end of CBOR'); };
  const item = depth => {
    if (depth > 2000) throw new Error('CBOR nested too deeply');
    need(1);
    const h = b[i++], major = h >> 5, info = h & 31;
    let n = info;
    if (info >= 24) {
      if (info > 27) throw new Error('unsupported CBOR');
      const len = 1 << (info - 24);
      need(len);
      n = 0;
      for (let k = 0; k < len; k++) n = n * 256 + b[i++];
    }
    switch (major) {
      case 0: return n;
      case 1: return -1 - n;
      case 2: case 3: {
        need(n);
        const s = b.slice(i, i + n);
        i += n;
        return major === 2 ? s : Buffer.from(s).toString('utf8');
      }
      case 4: { const a = []; for (let k = 0; k < n; k++) a.push(item(depth + 1)); return a; }
      case 5: { const o = {}; for (let k = 0; k < n; k++) { const key = item(depth + 1); o[key] = item(depth + 1); } return o; }
      case 6: return item(depth + 1);
      default: throw new Error('unsupported CBOR');
    }
  };
  const v = item(0);
  if (i !== b.length) throw new Error('trailing CBOR');
  return v;
}
const sha = (...xs) => { const h = crypto.createHash('sha256'); for (const x of xs) h.update(x); return new Uint8Array(h.digest()); };
const domain = s => { const t = Buffer.from(s); return Buffer.concat([Buffer.from([t.length]), t]); };
function digest(t) {
  switch (Array.isArray(t) ? t[0] : NaN) {
    case 0: return sha(domain('ic-hashtree-empty'));
    case 1: return sha(domain('ic-hashtree-fork'), digest(t[1]), digest(t[2]));
    case 2: return sha(domain('ic-hashtree-labeled'), u8(t[1]), digest(t[2]));
    case 3: return sha(domain('ic-hashtree-leaf'), u8(t[1]));
    case 4: return u8(t[1]);
    default: throw new Error('unreachable');
  }
}
const same = (a, b) => Buffer.compare(Buffer.from(u8(a)), Buffer.from(u8(b))) === 0;
function find(t, label) {
  const flat = x => (x[0] === 1 ? [...flat(x[1]), ...flat(x[2])] : [x]);
  return flat(t).find(x => x[0] === 2 && same(x[1], label));
}
function lookup(p, t) {
  for (const s of p) {
    const x = find(t, typeof s === 'string' ? Buffer.from(s) : u8(s));
    if (!x) return undefined;
    t = x[2];
  }
  return t[0] === 3 ? ab(t[1]) : undefined;
}
const compare = (a, b) => {
  if (a.byteLength !== b.byteLength) return a.byteLength - b.byteLength;
  const x = u8(a), y = u8(b);
  for (let i = 0; i < x.length; i++) if (x[i] !== y[i]) return x[i] - y[i];
  return 0;
};
class Principal {
  constructor(a) { this.a = u8(a); }
  static fromUint8Array(a) { return new Principal(a); }
  toUint8Array() { return this.a; }
  toHex() { return Buffer.from(this.a).toString('hex').toUpperCase(); }
  toText() { return this.toHex(); }
  toString() { return this.toText(); }
}
let genuine = [], created = 0;
const key = (c, i, r) => [c, i, r].map(x => Buffer.from(u8(x)).toString('hex')).join('/');
class Certificate {
  static async create(o) {
    created++;
    await null;
    if (!genuine.includes(key(o.certificate, o.canisterId.toUint8Array(), o.rootKey))) throw new Error('Invalid certificate: signature verification failed');
    const c = new Certificate();
    c.cert = decode(o.certificate);
    return c;
  }
  lookup(p) { return lookup(p, this.cert.tree); }
}
class PipeArrayBuffer {
  constructor(b, length) { this.v = b === undefined ? new Uint8Array(0) : u8(b); this.i = 0; }
  get byteLength() { return this.v.length - this.i; }
  readUint8() { return this.i < this.v.length ? this.v[this.i++] : undefined; }
}
function lebDecode(pipe) {
  let weight = 1n, value = 0n, byte;
  do {
    byte = pipe.readUint8();
    if (byte === undefined) throw new Error('unexpected end of buffer');
    value += BigInt(byte & 0x7f) * weight;
    weight *= 128n;
  } while (byte >= 0x80);
  return value;
}
const buffers = {
  compare,
  bufEquals: (a, b) => compare(a, b) === 0,
  concat: (...xs) => ab(Buffer.concat(xs.map(x => Buffer.from(u8(x))))),
  toHex: x => Buffer.from(u8(x)).toString('hex'),
  fromHex: s => ab(Buffer.from(s, 'hex')),
};
const STANDINS = {
  '@dfinity/agent': { Cbor: { decode }, Certificate, reconstruct: async t => ab(digest(t)), lookup_path: lookup, lookupResultToBuffer: x => x, hashTreeToString: t => JSON.stringify(t), ...buffers },
  '@dfinity/principal': { Principal },
  '@dfinity/candid': { PipeArrayBuffer, lebDecode, ...buffers },
};

// ------------------------------------------------------------------ the verifier, from source
const loaded = new Map();
function load(file) {
  if (loaded.has(file)) return loaded.get(file).exports;
  const m = { exports: {} };
  loaded.set(file, m);
  const js = ts.transpileModule(fs.readFileSync(file, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true } }).outputText;
  const req = name => {
    if (STANDINS[name]) return STANDINS[name];
    if (name.startsWith('.')) {
      const p = path.resolve(path.dirname(file), name.replace(/\.js$/, ''));
      return load([p + '.ts', p, path.join(p, 'index.ts')].find(x => fs.existsSync(x) && fs.statSync(x).isFile()));
    }
    return require(name);
  };
  new Function('exports', 'require', 'module', js)(m.exports, req, m);
  return m.exports;
}
const RealDate = Date;
let now = 0;
globalThis.Date = class extends RealDate {
  constructor(...a) { if (a.length === 0) super(now); else super(...a); }
  static now() { return now; }
};
const { verifyCertification } = load(path.join(SRC, 'index.ts'));

const bytes = s => ab(Buffer.from(s, 'base64'));
const plain = t => JSON.stringify(t, (k, v) => (v instanceof Uint8Array ? Buffer.from(v).toString('hex') : v instanceof ArrayBuffer ? Buffer.from(v).toString('hex') : v));
async function run(m) {
  now = m.now;
  genuine = m.genuine.map(g => key(bytes(g[0]), bytes(g[1]), bytes(g[2])));
  created = 0;
  const tree = bytes(m.tree);
  const before = Buffer.from(tree).toString('hex');
  let out;
  try {
    const t = await verifyCertification({ canisterId: Principal.fromUint8Array(new Uint8Array(bytes(m.canister))), encodedCertificate: bytes(m.certificate), encodedTree: tree, rootKey: bytes(m.root), maxCertificateTimeOffsetMs: m.offset });
    out = { ok: true, same: plain(t) === plain(decode(tree)) };
  } catch (e) {
    out = { ok: false, isError: e instanceof Error, name: String(e && e.name), message: String(e && e.message) };
  }
  out.created = created;
  out.touched = Buffer.from(tree).toString('hex') !== before;
  return out;
}
let rest = [], queue = Promise.resolve();
process.stdin.on('data', d => {
  let i;
  while ((i = d.indexOf(10)) >= 0) {
    const line = Buffer.concat([...rest, d.subarray(0, i)]).toString('utf8');
    rest = [];
    d = d.subarray(i + 1);
    queue = queue.then(() => run(JSON.parse(line))).then(o => process.stdout.write(JSON.stringify(o) + '\n'));
  }
  rest.push(d);
});
