// Runs canisters compiled to WebAssembly: one JSON line in, one JSON line out. The system interface they use is stood in
// for below: what a query changes is forgotten, what a trapping update changes is undone.
'use strict';
const fs = require('fs'), path = require('path');
const DIR = path.resolve(process.argv[2]);
const modules = {};
const b64 = x => Buffer.from(x).toString('base64');
const bytes = s => new Uint8Array(Buffer.from(s, 'base64'));
const PAGE = 65536;

let c = null; // the canister
let call = null; // the running call

const inside = (off, len) => {
  off >>>= 0; len >>>= 0;
  const m = new Uint8Array(c.inst.exports.memory.buffer);
  if (off + len > m.length) throw new Error('system call outside the memory');
  return m.subarray(off, off + len);
};
const copy = (src, dst, off, len) => {
  off >>>= 0; len >>>= 0;
  if (off + len > src.length) throw new Error('system call past the end');
  inside(dst, len).set(src.subarray(off, off + len));
};
const text = (p, n) => Buffer.from(inside(p, n)).toString('utf8');
const table = {
  msg_arg_data_size: () => call.arg.length,
  msg_arg_data_copy: (d, o, n) => copy(call.arg, d, o, n),
  msg_reply_data_append: (p, n) => { call.out.push(Uint8Array.from(inside(p, n))); },
  msg_reply: () => { if (call.replied) throw new Error('replied twice'); call.replied = true; },
  msg_reject: (p, n) => { call.rejected = text(p, n); },
  trap: (p, n) => { throw new Error('trap: ' + text(p, n)); },
  debug_print: () => {},
  time: () => call.time,
  certified_data_set: (p, n) => {
    if (call.kind === 'query') throw new Error('certified data set in a query');
    if ((n >>> 0) > 32) throw new Error('certified data too long');
    call.certified = Uint8Array.from(inside(p, n));
  },
  data_certificate_present: () => (call.cert ? 1 : 0),
  data_certificate_size: () => call.cert.length,
  data_certificate_copy: (d, o, n) => copy(call.cert, d, o, n),
};
function module_of(name) {
  if (!modules[name]) modules[name] = new WebAssembly.Module(fs.readFileSync(path.join(DIR, name + '.wasm')));
  return modules[name];
}
function instance(name, image) {
  const m = module_of(name), env = {};
  for (const i of WebAssembly.Module.imports(m)) {
    const f = i.module === 'ic0' && table[i.name];
    (env[i.module] = env[i.module] || {})[i.name] = f || (() => { throw new Error('no stand-in for ' + i.module + '.' + i.name); });
  }
  const inst = new WebAssembly.Instance(m, env);
  if (image) {
    const mem = inst.exports.memory;
    if (mem.buffer.byteLength < image.length) mem.grow((image.length - mem.buffer.byteLength) / PAGE);
    new Uint8Array(mem.buffer).set(image);
  }
  return inst;
}
function run(kind, entry, m) {
  const f = c.inst.exports[entry];
  if (!f) return { ok: false, error: 'no such method' };
  const image = Uint8Array.from(new Uint8Array(c.inst.exports.memory.buffer));
  call = { kind, arg: bytes(m.arg || ''), out: [], replied: false, rejected: null, certified: null, time: BigInt(m.time || '0'), cert: m.cert === undefined ? null : bytes(m.cert) };
  let error = null;
  try {
    f();
  } catch (e) {
    error = String((e && e.message) || e);
  }
  const done = call;
  call = null;
  if (error !== null || kind === 'query') {
    // the state is as it was
    if (error !== null || c.inst.exports.memory.buffer.byteLength !== image.length) c.inst = instance(c.name, image);
    else new Uint8Array(c.inst.exports.memory.buffer).set(image);
  } else if (done.certified) c.certified = done.certified;
  const certified = c.certified ? b64(c.certified) : null;
  if (error !== null) return { ok: false, error, certified };
  return { ok: true, replied: done.replied, rejected: done.rejected, reply: b64(Buffer.concat(done.out)), certified };
}
function handle(m) {
  switch (m.op) {
    case 'install': {
      c = { name: m.wasm, inst: null, certified: null };
      c.inst = instance(m.wasm, null);
      return c.inst.exports.canister_init ? run('init', 'canister_init', m) : { ok: true, certified: null };
    }
    case 'upgrade': {
      const old = c.inst;
      c.inst = instance(c.name, null);
      const r = c.inst.exports.canister_post_upgrade ? run('init', 'canister_post_upgrade', m) : { ok: true, certified: null };
      if (!r.ok) c.inst = old;
      return r;
    }
    case 'update': return run('update', 'canister_update ' + m.name, m);
    case 'query': return run('query', 'canister_query ' + m.name, m);
  }
  throw new Error('unknown operation');
}
let rest = [];
process.stdin.on('data', d => {
  let i;
  while ((i = d.indexOf(10)) >= 0) {
    const line = Buffer.concat([...rest, d.subarray(0, i)]).toString('utf8');
    rest = [];
    d = d.subarray(i + 1);
    process.stdout.write(JSON.stringify(handle(JSON.parse(line))) + '\n');
  }
  rest.push(d);
});
