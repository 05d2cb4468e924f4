// Replays one harness on the real compiled code under V8: node replay.js module.wasm harness vector-file
// Nondeterministic values come from the vector, SHA-256 is the real one.
const fs = require('fs'), crypto = require('crypto');
const [wasm, harness, vec] = process.argv.slice(2);
// with a file of lines "vector|cover;cover" every line is run, and has to end well having reached these covers
const batch = fs.readFileSync(vec, 'utf8').includes('|');
let V, pos, ex, brk, mem, covers;
class End { constructor(c, m) { this.c = c; this.m = m; } }
const end = (c, m) => { throw new End(c, m); };
const next = () => pos < V.length ? V[pos++] : end(4, 'REPLAY-SHORT');
const str = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0).toString('utf8');
function alloc(n, a) {
  n >>>= 0; a >>>= 0;
  let p = Math.ceil(brk / a) * a;
  if (n > (1 << 26)) end(3, 'REPLAY-FAIL allocation of ' + n + ' bytes');
  brk = p + n;
  const need = brk - mem.buffer.byteLength;
  if (need > 0) mem.grow(Math.ceil(need / 65536) + 16);
  return p | 0;
}
const verif = {
  any: n => next(),
  bytes: (p, n) => { for (let i = 0; i < n >>> 0; i++) { const v = Number(next() & 255n); new Uint8Array(mem.buffer)[(p >>> 0) + i] = v; } },
  choice: n => Number(next()),
  assume: c => { if (!c) end(5, 'REPLAY-ASSUME'); },
  check: (c, p, n) => { if (!c) end(3, 'REPLAY-FAIL ' + str(p, n)); },
  cover: (p, n) => { const c = str(p, n); covers.add(c); if (!batch) fs.writeSync(1, 'cover ' + c + '\n'); },
  sha256: (p, n, o) => { const d = crypto.createHash('sha256').update(Buffer.from(mem.buffer, p >>> 0, n >>> 0)).digest(); new Uint8Array(mem.buffer).set(d, o >>> 0); },
  alloc,
  realloc: (p, o, a, n) => { const q = alloc(n, a); const m = new Uint8Array(mem.buffer); m.copyWithin(q >>> 0, p >>> 0, (p >>> 0) + Math.min(o >>> 0, n >>> 0)); return q; },
  log: (p, n) => fs.writeSync(1, 'log ' + str(p, n) + '\n'),
  concretize: v => v,
};
// JavaScript itself, for what the modules import of wasm-bindgen and js-sys (the executor has a model of it instead).
// Names that several functions share are told apart by the hash wasm-bindgen gives them.
let heap = [];
const HEAP0 = 132;
const put = v => { heap.push(v); return heap.length - 1 + HEAP0; };
const at = i => i >= HEAP0 ? heap[i - HEAP0] : [undefined, null, true, false][i - 128];
const text = (p, n) => str(p, n);
const dv = () => new DataView(ex.memory.buffer);
function give(r, s) {
  const b = Buffer.from(s, 'utf8');
  const p = ex.__wbindgen_malloc(b.length, 1) >>> 0;
  new Uint8Array(ex.memory.buffer).set(b, p);
  dv().setInt32(r >>> 0, p, true);
  dv().setInt32((r >>> 0) + 4, b.length, true);
}
const js = {
  object_clone_ref_1: i => put(at(i)), object_drop_ref_1: i => { if (i >= HEAP0) heap[i - HEAP0] = { dropped: true }; },
  string_new_2: (p, n) => put(text(p, n)), number_new_1: put,
  is_null_1: i => at(i) === null, is_undefined_1: i => at(i) === undefined,
  is_object_1: i => typeof at(i) === 'object' && at(i) !== null, is_array_1: i => Array.isArray(at(i)),
  is_string_1: i => typeof at(i) === 'string', is_function_1: i => typeof at(i) === 'function',
  is_symbol_1: i => typeof at(i) === 'symbol', is_bigint_1: i => typeof at(i) === 'bigint', is_falsy_1: i => !at(i),
  typeof_1: i => put(typeof at(i)),
  number_get_2: (r, i) => { const v = at(i), k = typeof v === 'number'; dv().setInt32(r >>> 0, k, true); dv().setFloat64((r >>> 0) + 8, k ? v : 0, true); },
  as_number_1: i => +at(i), boolean_get_1: i => typeof at(i) === 'boolean' ? (at(i) ? 1 : 0) : 2,
  string_get_2: (r, i) => { const v = at(i); if (typeof v === 'string') give(r, v); else { dv().setInt32(r >>> 0, 0, true); dv().setInt32((r >>> 0) + 4, 0, true); } },
  jsval_eq_2: (a, b) => at(a) === at(b), is_2: (a, b) => Object.is(at(a), at(b)), in_2: (k, o) => at(k) in at(o),
  throw_2: (p, n) => { throw new Error(text(p, n)); }, error_new_2: (p, n) => put(new Error(text(p, n))),
  memory_0: () => put(ex.memory), buffer_1: i => put(at(i).buffer),
  get_3baa728f9d58d3f6: (a, i) => put(at(a)[i >>> 0]), at_2: (a, i) => put(at(a).at(i)),
  set_673dda6c73d19609: (a, i, v) => { at(a)[i >>> 0] = at(v); }, length_1: a => at(a).length,
  new_a220cf903aa02ca2: () => put([]), newwithlength_b5660ad84eb3e8a9: n => put(new Array(n >>> 0)),
  from_0791d740a9d37830: v => put(Array.from(at(v))), isArray_1: v => Array.isArray(at(v)),
  of_1: a => put([at(a)]), of_2: (a, b) => put([at(a), at(b)]), of_3: (a, b, c) => put([at(a), at(b), at(c)]), of_4: (a, b, c, d) => put([at(a), at(b), at(c), at(d)]),
  push_2: (a, v) => at(a).push(at(v)),
  instanceof_Array_1: v => at(v) instanceof Array, instanceof_Uint8Array_1: v => at(v) instanceof Uint8Array, instanceof_Object_1: v => at(v) instanceof Object,
  new_525245e2b9901204: () => put({}), entries_1: o => put(Object.entries(at(o))), keys_1: o => put(Object.keys(at(o))), ownKeys_1: o => put(Reflect.ownKeys(at(o))),
  values_1: o => put(Object.values(at(o))), fromEntries_1: l => put(Object.fromEntries(at(l))), assign_2: (a, b) => put(Object.assign(at(a), at(b))),
  hasOwnProperty_2: (o, k) => Object.prototype.hasOwnProperty.call(at(o), at(k)),
  get_224d16597dbbfd96: (o, k) => put(Reflect.get(at(o), at(k))), get_851b0d426e9c3b1d: (o, k) => put(Reflect.get(at(o), k >>> 0)),
  set_eacc7d73fefaafdf: (o, k, v) => Reflect.set(at(o), at(k), at(v)), has_2: (o, k) => Reflect.has(at(o), at(k)),
  new_ea1883e1e5e86686: v => put(new Uint8Array(at(v))), newwithlength_ec548f448387c968: n => put(new Uint8Array(n >>> 0)),
  newwithbyteoffsetandlength_3: (b, p, n) => put(new Uint8Array(at(b), p >>> 0, n >>> 0)),
  set_d1e79e2388520f18: (a, b, o) => { at(a).set(at(b), o >>> 0); }, getindex_2: (a, i) => at(a)[i >>> 0], setindex_3: (a, i, x) => { at(a)[i >>> 0] = x; },
  slice_3: (a, b, e) => put(at(a).slice(b, e)), subarray_3: (a, b, e) => put(at(a).subarray(b, e)),
};
function host(name) {
  const base = name.replace(/^__wbg_|^__wbindgen_/, ''), short = base.replace(/_[0-9a-f]{16}$/, '');
  return (...a) => {
    const f = js[base] || js[short + '_' + a.length];
    return f ? f(...a) : end(7, 'REPLAY-ERROR import ' + name);
  };
}
let m;
try { m = new WebAssembly.Module(fs.readFileSync(wasm)); } catch (e) { console.log('REPLAY-ERROR ' + e); process.exit(7); }
const imp = {};
for (const i of WebAssembly.Module.imports(m)) {
  imp[i.module] = imp[i.module] || {};
  imp[i.module][i.name] = i.module === 'verif' && verif[i.name] ? verif[i.name] : i.module.startsWith('__wbindgen') ? host(i.name) : () => end(7, 'REPLAY-ERROR import ' + i.name);
}
function one(text) {
  V = text.split(/\s+/).filter(x => x).map(x => BigInt(x));
  pos = 0;
  covers = new Set();
  heap = [];
  try {
    ex = new WebAssembly.Instance(m, imp).exports;
    mem = ex.memory;
    brk = mem.buffer.byteLength;
    if (!ex[harness]) end(7, 'REPLAY-ERROR no harness ' + harness);
    ex[harness]();
    return [0, 'REPLAY-OK'];
  } catch (e) {
    if (e instanceof End) return [e.c, e.m];
    return [3, 'REPLAY-TRAP ' + (e && e.stack ? e.stack.split('\n').slice(0, 8).join(' | ') : e)];
  }
}
const lines = fs.readFileSync(vec, 'utf8').split('\n').filter(x => x.trim());
if (!batch) {
  const [c, t] = one(lines.join(' '));
  console.log(t);
  process.exit(c);
}
const out = lines.map(l => {
  const [v, c, o] = l.split('|');
  const want = c.split(';').filter(x => x).sort().join(';');
  const [code, text] = one(v);
  const got = [...covers].sort().join(';');
  return { vector: v, code, text, covers: got, want, same: got === want, opaque: o === 'opaque' };
});
console.log(JSON.stringify(out));
