// node check.js OUT.json TIER: decides C39 for the TypeScript package in /repo, as it is now.
// The functions of @dfinity/agent, candid and principal it calls are not here: they are replaced by what their
// documentation says of them, with every outcome possible.
const fs = require('fs'), path = require('path');
const { compile, functions } = require('./instrument.js');
const { Solver, Run, Sym, Unsupported } = require('./sym.js');
const SRC = process.env.TS_SRC || '/repo/packages/certificate-verification-js/src';
const files = {};
for (const n of fs.readdirSync(SRC, { recursive: true })) if (n.endsWith('.ts') && !/\.(spec|test|d)\.ts$/.test(n)) files[n] = fs.readFileSync(path.join(SRC, n), 'utf8');
const code = { true: {}, false: {} };
const load = (n, symbolic) => code[symbolic][n] ||= compile(files[n], n, symbolic);

// ---- the world: what is true of every certificate and tree, decided when it matters
// `w` has choice(name, n) and fresh(kind, name, lo, hi); under replay they return what the counterexample says
const U64 = 2n ** 64n - 1n;
class World {
  constructor(w, make, plan) { this.w = w; this.make = make; this.plan = plan; this.facts = new Map(); this.trees = new Map(); this.now = null; }
  fact(name, f) { if (!this.facts.has(name)) this.facts.set(name, f()); return this.facts.get(name); }
  yes(name) { return this.fact(name, () => this.w.choice(name, 2) === 0); }
  // the certificate with this content, checked against this key for this canister
  valid(c, k, i) { return this.yes(`valid ${c} ${k} ${i}`); }
  decodes(t) { return this.yes(`decodes ${t}`); }
  bytes(name, n) { return this.fact(`bytes ${name} ${n}`, () => this.make([...Array(n).keys()].map(i => this.w.fresh('n', `${name}.${i}`, 0n, 255n)))); }
  root(t) { return this.bytes(`root ${t}`, 32); }
  // what is at a path of a certificate: nothing, or bytes
  at(c, p) {
    return this.fact(`at ${c} ${p}`, () => {
      if (p === TIME) return this.w.choice(`at ${c} time`, 2) ? undefined : { leb: c, buf: this.make([128, 1]) };
      const lens = this.plan.lengths, n = lens[this.w.choice(`at ${c} ${p}`, lens.length)];
      return n === null ? undefined : { buf: this.bytes(`at ${c} ${p}`, n) };
    });
  }
  // the time of a certificate in nanoseconds, or null if there is no number there
  time(c) { return this.fact(`time ${c}`, () => this.w.choice(`time ${c} decodes`, 2) ? null : this.w.fresh('i', `time ${c}`, 0n, U64)); }
}
const hex = x => Buffer.from(x).toString('hex');
const TIME = hex('time'), data = id => `${hex('canister')}/${hex(id)}/${hex('certified_data')}`;
const named = (what, i) => new TextEncoder().encode(what + i).buffer;
// the name of bytes that the world gave out
const name = x => { if (x instanceof ArrayBuffer || ArrayBuffer.isView(x)) return Buffer.from(x.buffer || x, x.byteOffset || 0, x.byteLength).toString(); throw new Unsupported('other bytes are used'); };
const guarded = (o, what) => new Proxy(o, { get(t, k) { if (k in t || typeof k === 'symbol' || k === 'then' || k === '__esModule' || k === 'default') return t[k]; throw new Unsupported(`${what}.${String(k)}`); } });

function modules(W, S, ticks) {
  const later = async who => { for (let i = ticks(who); i > 0; i--) await null; };
  const bytesOf = b => b instanceof S.Buf ? b.bytes : b instanceof S.Bytes ? [...b] : [...new Uint8Array(b.buffer || b)];
  const { $ } = S;
  const both = (a, b) => `(= ${a} ${b})`;
  const compare = (a, b) => {
    const x = bytesOf(a), y = bytesOf(b);
    if (x.length !== y.length) return x.length - y.length;
    if (!x.some(v => v instanceof Sym) && !y.some(v => v instanceof Sym)) { for (let i = 0; i < x.length; i++) if (x[i] !== y[i]) return x[i] - y[i]; return 0; }
    let r = '0.0';
    for (let i = x.length - 1; i >= 0; i--) { const d = $.bin('-', x[i], y[i]); const t = d instanceof Sym ? d.s : `${d < 0 ? `(- ${-d}.0)` : `${d}.0`}`; r = `(ite (= ${t} 0.0) ${r} ${t})`; }
    return new Sym('n', r);
  };
  class Certificate {
    static async create(o) {
      const c = name(o.certificate), k = name(o.rootKey), i = hex(o.canisterId.toUint8Array());
      await later(c);
      const ok = o.blsVerify ? $.truth(await o.blsVerify(new Uint8Array(96), new Uint8Array(48), new Uint8Array(32))) : W.valid(c, k, i);
      if (!ok) throw new Error('Signature verification failed');
      return guarded({
        cert: guarded({}, 'certificate.cert'), rawData: o.certificate,
        lookup(p) {
          const key = p.map(s => hex(typeof s === 'string' ? s : new Uint8Array(s.buffer || s))).join('/');
          const r = W.at(c, key);
          if (r && r.leb !== undefined) lebs.set(r.buf, r.leb);
          return r && r.buf;
        },
      }, 'certificate');
    }
  }
  const lebs = new Map();
  class PipeArrayBuffer { constructor(b) { this.$b = b; } }
  const agent = {
    Certificate,
    Cbor: guarded({ decode(b) { const t = name(b); if (!W.decodes(t)) throw new Error('CBOR'); if (!W.trees.has(t)) W.trees.set(t, Object.freeze([1, t])); return W.trees.get(t); } }, 'Cbor'),
    async reconstruct(t) { for (const [n, x] of W.trees) if (x === t) { await later(n); return W.root(n); } throw new Unsupported('the root of another tree'); },
    compare,
    bufEquals: (a, b) => $.bin('===', compare(a, b), 0),
  };
  const candid = {
    PipeArrayBuffer,
    lebDecode(p) {
      if (p.$b === undefined) throw new Error('unexpected end of buffer');
      if (!lebs.has(p.$b)) throw new Unsupported('another number is decoded');
      const t = W.time(lebs.get(p.$b));
      if (t === null) throw new Error('unexpected end of buffer');
      return t;
    },
  };
  return { '@dfinity/agent': guarded(agent, 'agent'), '@dfinity/candid': guarded(candid, 'candid'), '@dfinity/principal': guarded({}, 'principal') };
}
function clock(W) {
  const D = function (x) {
    const ms = x === undefined ? W.now : x && x.$ms !== undefined ? x.$ms : x;
    const d = new.target ? this : Object.create(D.prototype);
    d.$ms = ms;
    return d;
  };
  D.now = () => W.now;
  D.prototype = { getTime() { return this.$ms; }, valueOf() { return this.$ms; }, toISOString: () => '<date>', toString: () => '<date>', [Symbol.toPrimitive](h) { return h === 'string' ? '<date>' : this.$ms; } };
  return D;
}
// the package, loaded afresh
function instance(mods, globals, symbolic) {
  const done = {};
  const get = from => n => {
    if (mods[n]) return mods[n];
    const base = path.join(path.dirname(from), n.replace(/\.(js|ts)$/, '')), f = [base + '.ts', path.join(base, 'index.ts')].find(x => files[x]);
    if (!n.startsWith('.') || !f) throw new Unsupported('module ' + n);
    if (done[f]) return done[f].exports;
    const m = done[f] = { exports: {} };
    new Function('require', 'exports', 'module', ...Object.keys(globals), load(f, symbolic))(get(f), m.exports, m, ...Object.values(globals));
    return m.exports;
  };
  return get('index.ts')('./index');
}
// what is asked of the package: some calls, one after the other or at the same time
async function play(W, verify, plan, w) {
  const out = [];
  const one = async k => {
    const id = plan.canister(k), off = w.fresh('n', `offset ${k}`, 0n, 2n ** 50n);
    const call = { k, c: `cert${plan.cert(k)}`, t: `tree${plan.tree(k)}`, key: `key${plan.key(k)}`, id, off, now: W.now };
    const principal = guarded({ toUint8Array: () => new Uint8Array(id), toText: () => hex(id), toString: () => hex(id), toHex: () => hex(id).toUpperCase() }, 'canisterId');
    try {
      const r = await verify({ canisterId: principal, encodedCertificate: named('cert', plan.cert(k)), encodedTree: named('tree', plan.tree(k)), rootKey: named('key', plan.key(k)), maxCertificateTimeOffsetMs: off });
      out.push({ ...call, accepted: true, tree: r });
    } catch (e) {
      if (e instanceof Unsupported) throw e;
      out.push({ ...call, accepted: false, error: e });
    }
  };
  if (plan.together) { W.now = w.fresh('n', 'now', 0n, 2n ** 52n); await Promise.all([...Array(plan.calls).keys()].map(one)); return out; }
  for (let k = 0; k < plan.calls; k++) {
    const before = W.now;
    W.now = w.fresh('n', `now ${k}`, 0n, 2n ** 52n);
    if (w.assume && before) w.assume(`(>= ${W.now.s} ${before.s})`);
    await one(k);
  }
  return out;
}
// the property, as a formula (or a truth value) over what the world has decided
function should(W, x, bool) {
  if (!W.valid(x.c, x.key, hex(x.id))) return false;
  if (!W.decodes(x.t)) return false;
  if (W.at(x.c, TIME) === undefined) return false;
  const t = W.time(x.c);
  if (t === null) return false;
  const d = W.at(x.c, data(x.id));
  if (d === undefined) return false;
  return bool(t, x.off, x.now, d.buf, W.root(x.t));
}
const formula = (t, off, now, d, r) => {
  if (d.byteLength !== r.byteLength) return 'false';
  const eq = d.bytes.map((x, i) => `(= ${x.s} ${r.bytes[i].s})`).join(' ');
  const ms = `(to_real (div ${t.s} 1000000))`;
  return `(and (<= (- ${ms} ${now.s}) ${off.s}) (<= (- ${now.s} ${ms}) ${off.s}) ${eq})`;
};
const holds = (t, off, now, d, r) => {
  const ms = t / 1000000n, n = BigInt(now), o = BigInt(off);
  return ms - n <= o && n - ms <= o && Buffer.from(d).equals(Buffer.from(r));
};
// ---- the plans
const SAME = { canister: () => [0, 0, 0, 1], cert: k => k, tree: k => k, key: () => 0 };
const PLANS = {
  one: { ...SAME, calls: 1, lengths: [32, null, 0, 1, 31, 33], ticks: 1, bounds: 'one call; certificate times of 64 bits, clocks and offsets (whole milliseconds) up to 2^50 and 2^52; certified data of 0, 1, 31, 32 or 33 bytes, of any content; any root hash', covers: ['accepted', 'rejected', 'outside', 'mismatch'] },
  two: { ...SAME, calls: 2, lengths: [32, null], ticks: 1, bounds: 'two calls, one after the other, with two certificates and trees', covers: ['accepted', 'rejected'] },
  again: { ...SAME, cert: () => 0, tree: () => 0, calls: 2, lengths: [32, null], ticks: 1, bounds: 'two calls with the same certificate and tree, at different times and with different offsets', covers: ['accepted', 'rejected', 'outside'] },
  keys: { ...SAME, cert: () => 0, tree: () => 0, key: k => k, canister: k => [0, 0, 0, k], calls: 2, lengths: [32, null], ticks: 1, bounds: 'two calls with the same certificate and tree, for two canisters and two root keys', covers: ['accepted', 'rejected'] },
  trees: { ...SAME, cert: () => 0, tree: k => k, calls: 2, lengths: [32], ticks: 1, bounds: 'two calls with the same certificate and two trees', covers: ['accepted', 'rejected', 'mismatch'] },
  together: { ...SAME, calls: 2, lengths: [32, null], ticks: 2, together: true, bounds: 'two calls at the same time, whose steps take 0 or 1 turns more each', covers: ['accepted', 'rejected'] },
  together_t: { ...SAME, calls: 2, lengths: [32, null], ticks: 4, together: true, thorough: true, bounds: 'the same with 0 to 3 turns', covers: ['accepted', 'rejected'] },
  three_t: { ...SAME, cert: k => k % 2, tree: k => k % 2, calls: 3, lengths: [32, null], ticks: 1, thorough: true, bounds: 'three calls, the last with the first certificate and tree', covers: ['accepted', 'rejected'] },
};
async function replay(plan, choices, values) {
  const ch = new Map(choices), va = new Map(values.map(([n, k, v]) => [n, k === 'i' ? BigInt(v) : Number(v)]));
  let invented = 0;
  const w = { choice: n => ch.has(n) ? ch.get(n) : (invented++, 0), fresh: (k, n) => va.has(n) ? va.get(n) : (invented++, k === 'i' ? 0n : 0) };
  const W = new World(w, l => new Uint8Array(l).buffer, plan);
  const S = { $: { bin: (op, a, b) => op === '-' ? a - b : a === b, truth: x => !!x }, Buf: class {}, Bytes: class {} };
  W.now = w.fresh('n', 'now at load');
  const pkg = instance(modules(W, S, n => plan.ticks > 1 ? w.choice(`turns ${n}`, plan.ticks) : 0), { Date: clock(W) }, false);
  const out = await play(W, pkg.verifyCertification, plan, w);
  return out.map(x => {
    const want = should(W, x, holds);
    const tree = !x.accepted || x.tree === W.trees.get(x.t);
    return { call: x.k, accepted: x.accepted, want, tree, error: x.error && String(x.error), now: String(x.now), offset: String(x.off) };
  });
}
const wrong = r => r.find(x => x.accepted !== x.want || !x.tree);
async function explore(name, plan, solver, limit) {
  const start = Date.now(), d = { harness: name, bounds: plan.bounds, covers_wanted: plan.covers, status: 'holds', paths: 0, killed: 0, branches: 0, checks: 0, violations: [], covers: {}, samples: [], cross_checked: 0, diverged: [], reasons: {} };
  const q0 = solver.queries, t0 = solver.time;
  const cover = c => d.covers[c] = (d.covers[c] || 0) + 1;
  const work = [[]];
  while (work.length) {
    if (Date.now() - start > limit * 1000) { d.status = 'incomplete'; d.reasons.time = work.length; break; }
    const run = new Run(solver, work.pop());
    Unsupported.last = null;
    const W = new World(run, null, plan), S = run.runtime();
    W.make = l => new S.Buf(l);
    try {
      // the clock when the package was loaded
      W.now = run.fresh('n', 'now at load', 0n, 2n ** 52n);
      const pkg = instance(modules(W, S, n => plan.ticks > 1 ? W.fact(`turns ${n}`, () => run.choice(`turns ${n}`, plan.ticks)) : 0), { ...S.globals, Date: clock(W) }, true);
      const out = await play(W, pkg.verifyCertification, plan, run);
      if (Unsupported.last) throw Unsupported.last; // even if it was caught
      let bad = null;
      for (const x of out) {
        const f = should(W, x, formula);
        d.checks++;
        if (f === true || f === false) { if (x.accepted !== f) bad = [x, 'true']; } else if (run.solver.sat(x.accepted ? `(not ${f})` : f)) bad = bad || [x, x.accepted ? `(not ${f})` : f];
        if (x.accepted && x.tree !== W.trees.get(x.t)) bad = bad || [x, 'true'];
        cover(x.accepted ? 'accepted' : 'rejected');
        if (!x.accepted && f !== false && f !== true) {
          cover(/time/i.test(x.error && x.error.name + x.error.message) ? 'outside' : 'mismatch');
        }
        if (bad && bad[2] === undefined) bad.push(x.accepted ? 'a certificate or tree is accepted that is not valid, in time and certified' : 'a valid, timely and certified tree is rejected');
      }
      d.paths++;
      d.branches += run.branches;
      const m = run.model(bad ? bad[1] : 'true');
      const r = await replay(plan, run.choices, m);
      const rec = { choices: run.choices, values: m };
      if (bad) {
        if (d.violations.length < 3) d.violations.push({ msg: bad[2], ...rec, calls: r, reproduced: !!wrong(r) });
        if (d.violations.some(v => v.reproduced)) { d.status = 'violated'; run.end(); break; }
      } else if (wrong(r)) {
        d.violations.push({ msg: 'a path fails when it is run on the code as it is', ...rec, calls: r, reproduced: true });
        d.status = 'violated'; run.end(); break;
      } else if (r.length !== out.length || r.some((y, i) => y.accepted !== out[i].accepted)) d.diverged.push({ ...rec, calls: r, expected: out.map(x => x.accepted) });
      else { d.cross_checked++; if (d.samples.length < 3) d.samples.push(rec); }
      work.push(...run.more);
    } catch (e) {
      if (process.env.SYM_DEBUG) console.error(e);
      d.status = 'incomplete';
      d.reasons[String(e && e.message || e)] = (d.reasons[String(e && e.message || e)] || 0) + 1;
      solver.reset();
      work.push(...run.more);
      if (!(e instanceof Unsupported)) break;
      continue;
    }
    run.end();
  }
  if (d.violations.length && d.status === 'holds') d.status = 'unconfirmed';
  d.wall_s = (Date.now() - start) / 1000;
  d.solver = { queries: solver.queries - q0, time_s: solver.time - t0 };
  return d;
}
async function main() {
  const [out, tier, file] = process.argv.slice(2);
  if (tier === 'replay') {
    const r = JSON.parse(fs.readFileSync(file));
    const x = await replay(PLANS[r.harness], r.choices, r.values);
    console.log(JSON.stringify(x));
    process.exit(wrong(x) ? 1 : 0);
  }
  const solver = new Solver(process.env.Z3 || 'z3');
  const res = { functions: Object.keys(files).flatMap(n => functions(files[n], n).map(f => `${n}: ${f}`)), reports: [] };
  for (const [n, p] of Object.entries(PLANS)) {
    if (p.thorough && tier !== 'thorough') continue;
    res.reports.push(await explore(n, p, solver, tier === 'thorough' ? 1500 : 120));
  }
  solver.end();
  fs.writeFileSync(out, JSON.stringify(res, null, 1));
}
main().then(() => process.exit(0), e => { console.error(e); process.exit(2); });
