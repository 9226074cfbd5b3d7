// Runs exchanges through the WebAssembly binding: one JSON line in, one JSON line out.
'use strict';
const path = require('path');
for (const k of ['log', 'info', 'debug', 'warn', 'error']) console[k] = () => {};
const b = require(path.join(path.resolve(process.argv[2]), 'binding.js'));
const bytes = s => new Uint8Array(Buffer.from(s, 'base64'));
const inForm = (s, form) => {
  const a = bytes(s);
  switch (form) {
    case 0: return a;
    case 1: return Array.from(a);
    case 2: { const big = new Uint8Array(a.length + 13).fill(255); big.set(a, 5); return big.subarray(5, 5 + a.length); }
    default: return Buffer.from(s, 'base64');
  }
};
const ordered = (pairs, rot) => {
  const n = rot % pairs.length;
  return Object.fromEntries([...pairs.slice(n), ...pairs.slice(0, n)]);
};
const snapshot = x => JSON.stringify(x, (k, v) => (v instanceof Uint8Array ? Array.from(v) : v));
function run(m) {
  if (m.op === 'versions') return { min: b.getMinVerificationVersion(), max: b.getMaxVerificationVersion() };
  const reqPairs = [['url', m.req.url], ['method', m.req.method], ['headers', m.req.headers], ['body', inForm(m.req.body, m.form)]];
  const respPairs = [['status_code', m.resp.status], ['headers', m.resp.headers], ['body', inForm(m.resp.body, m.form)]];
  if (m.extra) {
    reqPairs.push(['certificate_version', [2]], ['upgrade', null]);
    respPairs.push(['upgrade', [true]], ['streaming_strategy', []], ['statusCode', 404]);
  }
  const req = ordered(reqPairs, m.rot), resp = ordered(respPairs, m.rot);
  const canister = inForm(m.canister, m.form === 1 ? 0 : m.form), root = inForm(m.root, m.form === 1 ? 0 : m.form);
  const before = snapshot([req, resp, canister, root]);
  let out;
  try {
    const v = b.verifyRequestResponsePair(req, resp, canister, BigInt(m.now), BigInt(m.offset), root, m.min);
    const r = v.response;
    out = { ok: true, version: v.verificationVersion, keys: Object.keys(v).sort() };
    if (r !== undefined && r !== null) {
      out.response = {
        status: r.statusCode === undefined ? null : r.statusCode,
        headers: r.headers,
        body: Buffer.from(r.body).toString('base64'),
        isBytes: r.body instanceof Uint8Array,
        keys: Object.keys(r).sort(),
      };
    }
  } catch (e) {
    const mine = e instanceof b.ResponseVerificationError;
    out = { ok: false, kind: mine ? 'ResponseVerificationError' : String((e && e.name) || typeof e), code: mine ? String(b.ResponseVerificationErrorCode[e.code]) : '', message: String(e && e.message) };
    if (mine) e.free();
  }
  out.touched = snapshot([req, resp, canister, root]) !== before;
  return out;
}
let rest = [];
process.stdin.on('data', d => {
  let i;
  while ((i = d.indexOf(10)) >= 0) {
    const line = Buffer.concat([...rest, d.subarray(0, i)]).toString('utf8');
    rest = [];
    d = d.subarray(i + 1);
    process.stdout.write(JSON.stringify(run(JSON.parse(line))) + '\n');
  }
  rest.push(d);
});
