// Symbolic values of JavaScript, and the exploration of every path of a program over them. Numbers are the reals,
// bigints the integers; Z3 decides every condition. Each path is run again on the code as it is, with real values.
const fs = require('fs'), path = require('path'), os = require('os'), { spawn, spawnSync } = require('child_process');
// what cannot be decided; it is remembered, in case the code under test catches it
class Unsupported extends Error {
  constructor(m) { super(m); Unsupported.last = this; }
}
exports.Unsupported = Unsupported;
// ---- Z3, spoken to over named pipes
exports.Solver = class {
  constructor(z3) {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'sym'));
    const [i, o] = ['in', 'out'].map(n => path.join(this.dir, n));
    if (spawnSync('mkfifo', [i, o]).status) throw new Error('mkfifo');
    this.w = fs.openSync(i, 'r+');
    this.r = fs.openSync(o, 'r+');
    this.p = spawn(z3, ['-in', '-smt2'], { stdio: [this.w, this.r, 'ignore'] });
    this.queries = 0; this.time = 0; this.rest = '';
    this.send('(set-option :timeout 20000)');
  }
  send(s) { fs.writeSync(this.w, s + '\n'); }
  line() {
    const b = Buffer.alloc(65536);
    while (!this.rest.includes('\n')) this.rest += b.toString('latin1', 0, fs.readSync(this.r, b, 0, b.length, null));
    const k = this.rest.indexOf('\n'), l = this.rest.slice(0, k);
    this.rest = this.rest.slice(k + 1);
    return l;
  }
  check() {
    const t = process.hrtime.bigint();
    this.send('(check-sat)');
    const l = this.line();
    this.queries++; this.time += Number(process.hrtime.bigint() - t) / 1e9;
    if (l !== 'sat' && l !== 'unsat') throw new Unsupported('solver: ' + l);
    return l === 'sat';
  }
  sat(f) { this.send(`(push)(assert ${f})`); const r = this.check(); this.send('(pop)'); return r; }
  value(v) { // of an integer constant, after a check that was satisfiable
    this.send(`(get-value (${v}))`);
    const m = /\(\(\S+ (?:\(- (\d+)\)|(\d+))\)\)/.exec(this.line());
    if (!m) throw new Unsupported('solver: no value');
    return m[1] ? -BigInt(m[1]) : BigInt(m[2]);
  }
  // after something went wrong
  reset() {
    const mark = `sync${this.queries}_${Date.now()}`;
    this.send(`(reset)(echo "${mark}")(set-option :timeout 20000)`);
    while (this.line() !== mark) {}
  }
  end() { this.p.kill(); fs.closeSync(this.w); fs.closeSync(this.r); fs.rmSync(this.dir, { recursive: true }); }
};
// ---- values: a term of the kind n(umber), i (bigint) or b(oolean)
class Sym {
  constructor(k, s) { this.k = k; this.s = s; }
  [Symbol.toPrimitive](hint) { if (hint === 'string') return '<symbolic>'; throw new Unsupported('a symbolic value is converted'); }
  toString() { return '<symbolic>'; }
  valueOf() { return this; }
  toFixed() { return '<symbolic>'; }
}
exports.Sym = Sym;
const kind = x => x instanceof Sym ? x.k : ({ number: 'n', bigint: 'i', boolean: 'b' })[typeof x] || 'o';
const int = v => v < 0n ? `(- ${-v})` : String(v);
function real(x) {
  if (Number.isInteger(x)) return x < 0 ? `(- ${BigInt(-x)}.0)` : `${BigInt(x)}.0`;
  if (!Number.isFinite(x)) throw new Unsupported('arithmetic with ' + x);
  let d = 1n, v = Math.abs(x);
  while (!Number.isInteger(v)) { v *= 2; d *= 2n; }
  return x < 0 ? `(- (/ ${BigInt(v)}.0 ${d}.0))` : `(/ ${BigInt(v)}.0 ${d}.0)`;
}
const term = x => x instanceof Sym ? x.s : typeof x === 'number' ? real(x) : typeof x === 'bigint' ? int(x) : String(x);
const asReal = x => { const k = kind(x); return k === 'n' ? term(x) : k === 'i' ? `(to_real ${term(x)})` : `(ite ${term(x)} 1.0 0.0)`; };
const trunc = r => `(ite (>= ${r} 0.0) (to_int ${r}) (- (to_int (- ${r}))))`;
const native = (op, a, b) => {
  switch (op) {
    case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; case '%': return a % b; case '**': return a ** b;
    case '<': return a < b; case '>': return a > b; case '<=': return a <= b; case '>=': return a >= b;
    case '==': return a == b; case '!=': return a != b; case '===': return a === b; case '!==': return a !== b;
    case '&': return a & b; case '|': return a | b; case '^': return a ^ b; case '<<': return a << b; case '>>': return a >> b; case '>>>': return a >>> b;
  }
};
const CMP = ['<', '>', '<=', '>='];
// ---- one path: the choices made so far, and what follows from them
exports.Run = class {
  constructor(solver, prefix) {
    this.solver = solver; this.prefix = prefix; this.taken = []; this.more = []; this.vars = []; this.choices = []; this.branches = 0; this.n = 0;
    solver.send('(push)');
  }
  end() { this.solver.send('(pop)'); }
  assume(f) { this.solver.send(`(assert ${f})`); }
  // a named choice among n, as part of the world
  choice(name, n) {
    const k = this.taken.length;
    let c = 0;
    if (k < this.prefix.length) c = this.prefix[k];
    else for (let i = n - 1; i > 0; i--) this.more.push([...this.taken, i]);
    this.taken.push(c);
    this.choices.push([name, c]);
    return c;
  }
  // a fresh integer from lo to hi, as a number or a bigint
  fresh(k, name, lo, hi) {
    const v = 'v' + this.vars.length + '_' + name.replace(/\W/g, '_');
    this.solver.send(`(declare-const ${v} Int)(assert (<= ${int(lo)} ${v} ${int(hi)}))`);
    this.vars.push([name, v, k]);
    return new Sym(k, k === 'i' ? v : `(to_real ${v})`);
  }
  decide(f) {
    this.branches++;
    const k = this.taken.length;
    let c;
    if (k < this.prefix.length) c = this.prefix[k] === 1;
    else {
      const yes = this.solver.sat(f), no = !yes || this.solver.sat(`(not ${f})`);
      c = yes;
      if (yes && no) this.more.push([...this.taken, 0]);
    }
    this.taken.push(c ? 1 : 0);
    this.assume(c ? f : `(not ${f})`);
    return c;
  }
  // the values of a model of everything assumed, and of f
  model(f) {
    this.solver.send(`(push)(assert ${f})`);
    let m = null;
    if (this.solver.check()) m = this.vars.map(([name, v, k]) => [name, k, String(this.solver.value(v))]);
    this.solver.send('(pop)');
    return m;
  }
  // what the instrumented code calls
  runtime() {
    const run = this;
    const $ = {
      truth(x) {
        if (!(x instanceof Sym)) return !!x;
        if (x.k === 'b') return run.decide(x.s);
        return run.decide(x.k === 'i' ? `(not (= ${x.s} 0))` : `(not (= ${x.s} 0.0))`);
      },
      first: (a, _) => a,
      inc: (a, op) => $.bin(op, a, kind(a) === 'i' ? 1n : 1),
      neg: a => a instanceof Sym ? $.bin('-', a.k === 'i' ? 0n : 0, a) : -a,
      num(a) { if (!(a instanceof Sym)) return a && a.$ms !== undefined ? a.$ms : +a; if (a.k === 'i') throw new TypeError('Cannot convert a BigInt value to a number'); return new Sym('n', asReal(a)); },
      not: a => { if (a instanceof Sym) throw new Unsupported('~'); return ~a; },
      typeOf(f) { const x = f(); return x instanceof Sym ? ({ n: 'number', i: 'bigint', b: 'boolean' })[x.k] : typeof x; },
      bin(op, a, b) {
        if (op[0] !== '=' && op[0] !== '!') { // dates are their time
          if (a && a.$ms !== undefined) a = a.$ms;
          if (b && b.$ms !== undefined) b = b.$ms;
        }
        if (!(a instanceof Sym) && !(b instanceof Sym)) return native(op, a, b);
        const ka = kind(a), kb = kind(b);
        if (op === '+' && (typeof a === 'string' || typeof b === 'string')) return `${a}${b}`;
        if (op[0] === '!') { const r = $.bin(op.replace('!', '='), a, b); return r instanceof Sym ? new Sym('b', `(not ${r.s})`) : !r; }
        if (op === '===' || op === '==') {
          if (ka !== kb && op === '===') return false;
          if (ka === 'o' || kb === 'o') { if (a == null || b == null) return false; if (op === '===') return false; throw new Unsupported('=='); }
          if (!okay(a) || !okay(b)) return false;
          return ka === kb ? new Sym('b', `(= ${term(a)} ${term(b)})`) : new Sym('b', `(= ${asReal(a)} ${asReal(b)})`);
        }
        if (ka === 'o' || kb === 'o') {
          if ((a === undefined || b === undefined) && ka !== 'i' && kb !== 'i') return CMP.includes(op) ? false : NaN;
          throw new Unsupported(`${op} on a symbolic value and something else`);
        }
        if (CMP.includes(op)) {
          const inf = x => typeof x === 'number' && !Number.isFinite(x);
          if (inf(a) || inf(b)) { if (inf(a) && inf(b)) return native(op, a, b); return native(op, inf(a) ? a : 0, inf(b) ? b : 0); }
          return ka === 'i' && kb === 'i' ? new Sym('b', `(${op} ${term(a)} ${term(b)})`) : new Sym('b', `(${op} ${asReal(a)} ${asReal(b)})`);
        }
        if ((ka === 'i') !== (kb === 'i')) throw new TypeError('Cannot mix BigInt and other types, use explicit conversions');
        if (ka === 'i') {
          const [x, y] = [term(a), term(b)];
          if (['+', '-', '*'].includes(op)) return new Sym('i', `(${op} ${x} ${y})`);
          if (op === '/' || op === '%') {
            if (b instanceof Sym ? run.decide(`(= ${y} 0)`) : b === 0n) throw new RangeError('Division by zero');
            const q = `(ite (>= ${x} 0) (div ${x} ${y}) (- (div (- ${x}) ${y})))`; // rounds towards zero, for every sign of y
            return new Sym('i', op === '/' ? q : `(- ${x} (* ${y} ${q}))`);
          }
          throw new Unsupported(op + ' on bigints');
        }
        if (typeof a === 'number' && Number.isNaN(a) || typeof b === 'number' && Number.isNaN(b)) return NaN;
        const [x, y] = [asReal(a), asReal(b)];
        if (['+', '-', '*'].includes(op)) return new Sym('n', `(${op} ${x} ${y})`);
        if (op === '/' || op === '%') {
          if (b instanceof Sym ? run.decide(`(= ${y} 0.0)`) : b === 0) throw new Unsupported('division by zero');
          return op === '/' ? new Sym('n', `(/ ${x} ${y})`) : new Sym('n', `(- ${x} (* ${y} (to_real ${trunc(`(/ ${x} ${y})`)})))`);
        }
        if (op === '^' || op === '|' || op === '&') { // of bytes, as far as it is known whether they are zero
          if (op === '&' && b === 255) return new Sym('n', x);
          if (op === '|' && (a === 0 || b === 0)) return new Sym('n', a === 0 ? y : x);
          const f = term(run.fresh('n', 'bits', 1n, 255n));
          if (op === '^') return new Sym('n', `(ite (= ${x} ${y}) 0.0 ${f})`);
          if (op === '|') return new Sym('n', `(ite (and (= ${x} 0.0) (= ${y} 0.0)) 0.0 ${f})`);
        }
        throw new Unsupported(op);
      },
    };
    const okay = x => !(typeof x === 'number' && !Number.isFinite(x));
    const round = (x, f, g) => x instanceof Sym ? new Sym('n', `(to_real ${f(asReal(x))})`) : g(x);
    const copy = (f, from) => { for (const k of Object.getOwnPropertyNames(from)) if (!['length', 'name', 'prototype'].includes(k) && !(k in f)) f[k] = typeof from[k] === 'function' ? (...a) => { if (a.some(x => x instanceof Sym)) throw new Unsupported(k); return from[k](...a); } : from[k]; return f; };
    const N = function (x) {
      if (!(x instanceof Sym)) return x && x.$ms !== undefined ? x.$ms : Number(x);
      return new Sym('n', asReal(x));
    };
    N.isFinite = x => x instanceof Sym ? x.k === 'n' : Number.isFinite(x);
    N.isNaN = x => x instanceof Sym ? false : Number.isNaN(x);
    N.isInteger = x => x instanceof Sym ? x.k === 'n' && new Sym('b', `(is_int ${x.s})`) : Number.isInteger(x);
    N.isSafeInteger = x => x instanceof Sym ? x.k === 'n' && new Sym('b', `(and (is_int ${x.s}) (<= (- 9007199254740991.0) ${x.s} 9007199254740991.0))`) : Number.isSafeInteger(x);
    const B = function (x) {
      if (!(x instanceof Sym)) return BigInt(x);
      if (x.k === 'i') return x;
      if (x.k === 'n' && !run.decide(`(is_int ${x.s})`)) throw new RangeError('not an integer');
      return new Sym('i', `(to_int ${asReal(x)})`);
    };
    const within = (x, lo, hi) => run.decide(`(<= ${int(lo)} ${x.s} ${int(hi)})`);
    B.asUintN = (n, x) => {
      if (!(x instanceof Sym)) return BigInt.asUintN(n, x);
      const h = 2n ** BigInt(n);
      return within(x, 0n, h - 1n) ? x : new Sym('i', `(mod ${x.s} ${h})`);
    };
    B.asIntN = (n, x) => {
      if (!(x instanceof Sym)) return BigInt.asIntN(n, x);
      const h = 2n ** BigInt(n - 1);
      if (within(x, -h, h - 1n)) return x;
      return within(x, h, 3n * h - 1n) ? new Sym('i', `(- ${x.s} ${2n * h})`) : new Sym('i', `(- (mod (+ ${x.s} ${h}) ${2n * h}) ${h})`);
    };
    const M = {
      floor: x => round(x, r => `(to_int ${r})`, Math.floor), ceil: x => round(x, r => `(- (to_int (- ${r})))`, Math.ceil),
      trunc: x => round(x, trunc, Math.trunc), round: x => round(x, r => `(to_int (+ ${r} 0.5))`, Math.round),
      abs: x => x instanceof Sym ? new Sym('n', `(ite (>= ${asReal(x)} 0.0) ${asReal(x)} (- ${asReal(x)}))`) : Math.abs(x),
      max: (...l) => l.some(x => x instanceof Sym) ? l.reduce((a, b) => new Sym('n', `(ite (>= ${asReal(a)} ${asReal(b)}) ${asReal(a)} ${asReal(b)})`)) : Math.max(...l),
      min: (...l) => l.some(x => x instanceof Sym) ? l.reduce((a, b) => new Sym('n', `(ite (<= ${asReal(a)} ${asReal(b)}) ${asReal(a)} ${asReal(b)})`)) : Math.min(...l),
      sign: x => x instanceof Sym ? new Sym('n', `(ite (> ${asReal(x)} 0.0) 1.0 (ite (= ${asReal(x)} 0.0) 0.0 (- 1.0)))`) : Math.sign(x),
    };
    // arrays of symbolic bytes, whose methods ask the solver
    class Bytes extends Array {
      get byteLength() { return this.length; }
      static get [Symbol.species]() { return Bytes; }
      get buffer() { return new Buf([...this]); }
      subarray(a, b) { return this.slice(a, b); }
      every(f) { for (let i = 0; i < this.length; i++) if (!$.truth(f(this[i], i, this))) return false; return true; }
      some(f) { for (let i = 0; i < this.length; i++) if ($.truth(f(this[i], i, this))) return true; return false; }
      findIndex(f) { for (let i = 0; i < this.length; i++) if ($.truth(f(this[i], i, this))) return i; return -1; }
      find(f) { const i = this.findIndex(f); return i < 0 ? undefined : this[i]; }
      includes(x) { return this.some(y => $.bin('===', x, y)); }
      indexOf(x) { return this.findIndex(y => $.bin('===', x, y)); }
      filter(f) { const r = new Bytes(); for (let i = 0; i < this.length; i++) if ($.truth(f(this[i], i, this))) r.push(this[i]); return r; }
      toString() { throw new Unsupported('bytes as text'); }
      join() { throw new Unsupported('bytes as text'); }
    }
    class Buf {
      constructor(bytes) { this.bytes = bytes; }
      get byteLength() { return this.bytes.length; }
      slice(a, b) { return new Buf(this.bytes.slice(a, b)); }
    }
    const bytes = l => { const r = new Bytes(); for (const x of l) r.push(x); return r; };
    const U8 = function (x, o, n) {
      if (x instanceof Buf) return bytes(x.bytes.slice(o || 0, n === undefined ? undefined : (o || 0) + n));
      if (x instanceof Bytes) return bytes(x);
      if (Array.isArray(x) && x.some(y => y instanceof Sym)) return bytes(x);
      return new Uint8Array(...[x, o, n].filter(y => y !== undefined));
    };
    U8.from = (x, f) => x instanceof Bytes || x instanceof Buf ? bytes(x instanceof Buf ? x.bytes : x) : f ? Uint8Array.from(x, f) : Uint8Array.from(x);
    U8.of = (...x) => U8(x);
    Object.defineProperty(U8, Symbol.hasInstance, { value: x => x instanceof Uint8Array && !(x instanceof Buf) || x instanceof Bytes });
    const AB = function (n) { return new ArrayBuffer(n); };
    AB.isView = x => ArrayBuffer.isView(x) || x instanceof Bytes;
    Object.defineProperty(AB, Symbol.hasInstance, { value: x => x instanceof ArrayBuffer || x instanceof Buf });
    const A = class extends Array {
      static from(x, f) { return Array.from(x instanceof Buf ? {} : x, f); }
      static isArray(x) { return Array.isArray(x) && !(x instanceof Bytes); }
    };
    Object.defineProperty(A, Symbol.hasInstance, { value: x => Array.isArray(x) && !(x instanceof Bytes) });
    const no = name => new Proxy(function () {}, { get() { throw new Unsupported(name); }, apply() { throw new Unsupported(name); }, construct() { throw new Unsupported(name); } });
    return { $, Buf, Bytes, globals: { $, Number: copy(N, Number), BigInt: copy(B, BigInt), Math: copy(M, Math), Uint8Array: U8, ArrayBuffer: AB, Array: A,
      Buffer: no('Buffer'), DataView: no('DataView'), performance: no('performance'), process: no('process'), parseInt: no('parseInt'), parseFloat: no('parseFloat'), isNaN: N.isNaN, isFinite: N.isFinite } };
  }
};
