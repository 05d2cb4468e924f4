//! Symbolic execution of WebAssembly: path exploration with concrete heap layout and symbolic bytes.
use crate::expr::*;
use crate::sha256::sha256;
use crate::solver::*;
use crate::wasm::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

pub const PG: usize = 4096;

#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub v: u64,
    pub e: E,
}
fn cv(v: u64) -> Val {
    Val { v, e: 0 }
}

#[derive(Clone)]
pub struct Page {
    d: [u8; PG],
    s: Option<Box<[E; PG]>>,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    pc: u32,
    base: u32,
}

/// one decision on a path
#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub v: u64,
    /// 0/1: branch, forced; 2/3: branch, forked; 4: value, forced; 5: value taken; 6: value not taken;
    /// 7: choice; 8: assume; 9: check (constraint added)
    pub b: u8,
}

#[derive(Clone, Debug)]
pub enum Nd {
    Choice(u64),
    Bytes(u32, u32), // first symbol, count
}

struct HashEnt {
    b: Vec<(u8, E)>,
    symbolic: bool,
    dig: [u8; 32],
}

#[derive(Clone)]
pub struct State {
    pages: Vec<Option<Rc<Page>>>,
    stack: Vec<Val>,
    frames: Vec<Frame>,
    globals: Vec<Val>,
    brk: u32,
    cons: Vec<E>,
    dom: Vec<[u64; 4]>,
    known: Vec<Option<u8>>,
    kset: Supp,
    multi: Supp,
    nsym: u32,
    model: Vec<u8>,
    trace: Vec<Dec>,
    pos: usize,
    nd: Vec<Nd>,
    hashes: Vec<Rc<HashEnt>>,
    hmap: Vec<Rc<HashEnt>>,
    /// inside BuildHasher::hash_one: frame depth, stack pointer at entry, data bytes read so far
    hone: Option<(usize, u32, Vec<(u8, E)>)>,
    instrs: u64,
    covers: Vec<u32>,
    inconclusive: bool,
}

pub struct Task {
    pub trace: Vec<Dec>,
    pub model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub vector: Vec<u64>,
    pub nd_bytes: usize,
    pub stack: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Counts {
    pub paths: u64,
    pub killed: u64,
    pub incomplete: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub branches: u64,
    pub forks: u64,
    pub dom_decisions: u64,
    pub instrs: u64,
    pub hash_apps: u64,
    pub hash_sym: u64,
    pub max_sym: u64,
    pub max_path_instrs: u64,
    pub max_depth: u64,
    pub values: u64,
}

pub struct Opts {
    pub harness: String,
    pub max_instr: u64,
    pub z3_all: bool,
    pub max_alloc: u64,
    pub verbose: bool,
    /// run one concrete path with these nondeterministic values
    pub vector: Option<Vec<u64>>,
    /// keep the values of `vector` symbolic, but follow its path only
    pub follow: bool,
}

enum Stop {
    Done,
    Killed,
    Violation(String, String),
    Incomplete(String),
}
type Rs<T> = Result<T, Stop>;

pub struct Exec {
    pub m: Arc<Module>,
    pub o: Arc<Opts>,
    pub x: Ctx,
    pub s: Solver,
    st: State,
    pub pending: Vec<State>,
    pub viol: Vec<Violation>,
    pub cnt: Counts,
    pub visited: Vec<bool>,
    pub covers: BTreeMap<String, u64>,
    cover_names: Vec<String>,
    pub reasons: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    hosts: HashMap<u32, u8>, // function index -> host call
    hash_ones: Vec<bool>,
    gpos: usize,
    given: Vec<u8>,
    ipos: usize,
    icons: usize,
    icpc: u32,
}

const H_MEMCPY: u8 = 50;
const H_MEMSET: u8 = 51;
const H_MEMCMP: u8 = 52;
const H_PANIC: u8 = 53;
const H_OOM: u8 = 54;
const H_BEGIN_PANIC: u8 = 49;
/// Debug formatting: writes nothing (its text is for humans only), but the real function runs for a string, a
/// character or an integer whose value is not symbolic
const H_DEBUG: u8 = 55;
const H_DEBUG_STR: u8 = 56;
const H_DEBUG_CHAR: u8 = 57;
const H_DEBUG_INT: u8 = 58; // + log2 of its size

fn host_id(n: &str) -> Option<u8> {
    Some(match n {
        "any" => 1,
        "bytes" => 2,
        "choice" => 3,
        "assume" => 4,
        "check" => 5,
        "cover" => 6,
        "sha256" => 7,
        "alloc" => 8,
        "realloc" => 9,
        "log" => 10,
        "concretize" => 11,
        "hash_eq" => 12,
        _ => return None,
    })
}

pub fn intercepts(m: &Module) -> HashMap<u32, u8> {
    let mut h = HashMap::new();
    for (i, (a, b, _)) in m.imports.iter().enumerate() {
        if a == "verif" {
            if let Some(k) = host_id(b) {
                h.insert(i as u32, k);
            }
        }
    }
    for (i, n) in &m.names {
        let k = match n.as_str() {
            "memcpy" | "memmove" => H_MEMCPY,
            "memset" => H_MEMSET,
            "memcmp" | "bcmp" => H_MEMCMP,
            "rust_begin_unwind" => H_BEGIN_PANIC,
            _ if n.contains("$LT$str$u20$as$u20$core..fmt..Debug$GT$3fmt17h") => H_DEBUG_STR,
            _ if n.contains("$LT$char$u20$as$u20$core..fmt..Debug$GT$3fmt17h") => H_DEBUG_CHAR,
            _ if n.contains("$LT$impl$u20$core..fmt..Debug$u20$for$u20$") && n.contains("$GT$3fmt17h") => {
                let t = n.split("$u20$for$u20$").nth(1).unwrap_or("").split("$GT$").next().unwrap_or("");
                match t {
                    "u8" | "i8" => H_DEBUG_INT,
                    "u16" | "i16" => H_DEBUG_INT + 1,
                    "u32" | "i32" | "usize" | "isize" => H_DEBUG_INT + 2,
                    "u64" | "i64" => H_DEBUG_INT + 3,
                    _ => continue,
                }
            }
            // these are their Display
            _ if n.contains("$LT$bool$u20$as$u20$core..fmt..Debug") || n.contains("Arguments$u20$as$u20$core..fmt..Debug") || n.contains("String$u20$as$u20$core..fmt..Debug") => continue,
            _ if n.contains("core..fmt..Debug") && n.contains("$GT$3fmt17h") && m.types[m.functype[*i as usize]].params == 2 && m.types[m.functype[*i as usize]].results == 1 => H_DEBUG,
            _ if n.contains("4core9panicking9panic_fmt17h") => H_PANIC,
            _ if n.contains("4core9panicking18panic_nounwind_fmt17h") => H_PANIC,
            _ if n.contains("5alloc5alloc18handle_alloc_error17h") => H_OOM,
            _ if n.contains("3std9panicking20rust_panic_with_hook17h") => H_BEGIN_PANIC,
            _ if n.contains("compiler_builtins3mem6memcpy17h") || n.contains("compiler_builtins3mem7memmove17h") => H_MEMCPY,
            _ if n.contains("compiler_builtins3mem6memset17h") => H_MEMSET,
            _ if n.contains("compiler_builtins3mem6memcmp17h") || n.contains("compiler_builtins3mem4bcmp17h") => H_MEMCMP,
            _ => continue,
        };
        if (*i as usize) >= m.imports.len() {
            h.insert(*i, k);
        }
    }
    h
}

fn zero_page() -> Page {
    Page { d: [0; PG], s: None }
}

impl State {
    fn initial(m: &Module) -> State {
        let sz = m.mem_min as usize * 65536;
        let mut st = State {
            pages: vec![None; sz / PG],
            stack: Vec::with_capacity(256),
            frames: vec![],
            globals: m.globals.iter().map(|v| cv(*v)).collect(),
            brk: sz as u32,
            cons: vec![],
            dom: vec![],
            known: vec![],
            kset: [0; NSYM / 64],
            multi: [0; NSYM / 64],
            nsym: 0,
            model: vec![],
            trace: vec![],
            pos: 0,
            nd: vec![],
            hashes: vec![],
            hmap: vec![],
            hone: None,
            instrs: 0,
            covers: vec![],
            inconclusive: false,
        };
        for (o, b) in &m.data {
            for (i, x) in b.iter().enumerate() {
                st.wr8(o + i as u32, *x, 0);
            }
        }
        st
    }
    #[inline]
    fn page(&self, a: u32) -> Option<&Page> {
        self.pages[a as usize / PG].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u32) -> &mut Page {
        let p = &mut self.pages[a as usize / PG];
        if p.is_none() {
            *p = Some(Rc::new(zero_page()));
        }
        Rc::make_mut(p.as_mut().unwrap())
    }
    fn rd8(&self, a: u32) -> (u8, E) {
        match self.page(a) {
            None => (0, 0),
            Some(p) => {
                let o = a as usize % PG;
                (p.d[o], p.s.as_ref().map_or(0, |s| s[o]))
            }
        }
    }
    fn wr8(&mut self, a: u32, v: u8, e: E) {
        let p = self.page_mut(a);
        let o = a as usize % PG;
        p.d[o] = v;
        if e != 0 {
            if p.s.is_none() {
                p.s = Some(vec![0; PG].into_boxed_slice().try_into().unwrap());
            }
            p.s.as_mut().unwrap()[o] = e;
        } else if let Some(s) = p.s.as_mut() {
            s[o] = 0;
        }
    }
    fn size(&self) -> u64 {
        (self.pages.len() * PG) as u64
    }
}

impl Exec {
    pub fn new(m: Arc<Module>, o: Arc<Opts>, z3: &str, slow_ms: u32) -> Exec {
        let st = State::initial(&m);
        let nf = m.functype.len();
        let hosts = intercepts(&m);
        let mut hash_ones = vec![false; nf];
        for (i, n) in &m.names {
            if n.contains("4core4hash11BuildHasher8hash_one17h") && m.types[m.functype[*i as usize]].results == 1 {
                hash_ones[*i as usize] = true;
            }
        }
        Exec {
            m,
            o,
            x: Ctx::new(),
            s: Solver::new(z3, slow_ms),
            st,
            pending: vec![],
            viol: vec![],
            cnt: Counts::default(),
            visited: vec![false; nf],
            covers: BTreeMap::new(),
            cover_names: vec![],
            reasons: BTreeMap::new(),
            samples: vec![],
            hosts,
            hash_ones,
            gpos: 0,
            given: vec![],
            ipos: 0,
            icons: 0,
            icpc: 0,
        }
    }
    pub fn start(&mut self, t: Task) {
        let mut st = State::initial(&self.m);
        st.trace = t.trace;
        st.model = t.model;
        let f = *self.m.exports.get(&self.o.harness).unwrap_or_else(|| panic!("no harness {}", self.o.harness));
        let fi = f as usize - self.m.imports.len();
        let func = &self.m.funcs[fi];
        assert_eq!(func.nparams, 0, "harness functions take no parameters");
        for _ in 0..func.nlocals {
            st.stack.push(cv(0));
        }
        self.visited[f as usize] = true;
        st.frames.push(Frame { f: fi as u32, pc: 0, base: 0 });
        self.st = st;
    }
    /// hand the oldest pending state to another worker
    pub fn give(&mut self) -> Option<Task> {
        if self.pending.is_empty() {
            return None;
        }
        let s = self.pending.remove(0);
        Some(Task { trace: s.trace, model: s.model })
    }
    pub fn next(&mut self) -> bool {
        match self.pending.pop() {
            Some(s) => {
                self.st = s;
                true
            }
            None => false,
        }
    }

    // ---- constraints -------------------------------------------------------------------------
    fn add_cons(&mut self, e: E) {
        if self.x.cv(e).is_some() {
            return;
        }
        let n = self.x.n[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_cons(n.a);
            self.add_cons(n.b);
            return;
        }
        // not (a or b) = not a and not b
        if n.op == Op::Xor && n.w == 1 && self.x.cv(n.b) == Some(1) {
            let i = self.x.n[n.a as usize];
            if i.op == Op::Or {
                let a = self.x.not(i.a);
                let b = self.x.not(i.b);
                self.add_cons(a);
                self.add_cons(b);
                return;
            }
        }
        if self.st.cons.contains(&e) {
            return;
        }
        self.st.cons.push(e);
        let s = *self.x.support(e);
        if let Some(y) = supp_single(&s) {
            let t = self.x.truth(e, y);
            let d = &mut self.st.dom[y as usize];
            let mut c = 0;
            for i in 0..4 {
                d[i] &= t[i];
                c += d[i].count_ones();
            }
            if c == 1 {
                let i = (0..4).find(|i| d[*i] != 0).unwrap();
                let v = (i * 64) as u32 + d[i].trailing_zeros();
                self.st.known[y as usize] = Some(v as u8);
                self.st.kset[y as usize / 64] |= 1 << (y % 64);
            }
        } else {
            supp_or(&mut self.st.multi, &s);
        }
    }
    fn slice(&self, e: E) -> Vec<E> {
        let mut sup = *self.x.support(e);
        let mut out = vec![];
        let mut left: Vec<E> = self.st.cons.clone();
        loop {
            let mut ch = false;
            left.retain(|c| {
                if supp_meet(self.x.support(*c), &sup) {
                    supp_or(&mut sup, self.x.support(*c));
                    out.push(*c);
                    ch = true;
                    false
                } else {
                    true
                }
            });
            if !ch {
                break;
            }
        }
        out
    }
    /// is `e` satisfiable together with the path constraint? returns a full model
    fn sat(&mut self, e: E) -> Option<Option<Vec<u8>>> {
        if let Some(v) = self.x.cv(e) {
            return Some(if v != 0 { Some(self.st.model.clone()) } else { None });
        }
        if !self.o.z3_all {
            let s = *self.x.support(e);
            if let Some(y) = supp_single(&s) {
                let t = self.x.truth(e, y);
                let d = self.st.dom[y as usize];
                let both: Vec<usize> = (0..256).filter(|i| (t[i / 64] & d[i / 64]) >> (i % 64) & 1 == 1).collect();
                if both.is_empty() || self.st.multi[y as usize / 64] >> (y % 64) & 1 == 0 {
                    self.cnt.dom_decisions += 1;
                    return Some(both.first().map(|v| {
                        let mut m = self.st.model.clone();
                        if m.len() <= y as usize {
                            m.resize(y as usize + 1, 0);
                        }
                        m[y as usize] = *v as u8;
                        m
                    }));
                }
            }
        }
        let mut q = self.slice(e);
        q.push(e);
        match self.s.check(&mut self.x, &q) {
            Res::Unsat => Some(None),
            Res::Unknown => None,
            Res::Sat(m) => {
                let mut full = self.st.model.clone();
                for (y, v) in m {
                    if full.len() <= y as usize {
                        full.resize(y as usize + 1, 0);
                    }
                    full[y as usize] = v;
                }
                for c in &q {
                    if self.x.eval(*c, &full) == 0 {
                        panic!("solver model does not satisfy the query under the engine's own evaluation: {}", self.x.show(*c, 6));
                    }
                }
                Some(Some(full))
            }
        }
    }
    fn sub(&mut self, e: E) -> E {
        if !supp_meet(self.x.support(e), &self.st.kset) {
            return e;
        }
        let mut memo = FxMap::default();
        self.x.subst(e, &self.st.known, &self.st.kset, &mut memo)
    }
    fn fork(&mut self, d: Dec, model: Vec<u8>) {
        if self.o.vector.is_some() {
            return;
        }
        let mut alt = self.st.clone();
        alt.trace.push(d);
        alt.pos = self.ipos;
        alt.model = model;
        alt.frames.last_mut().unwrap().pc = self.icpc;
        if alt.cons.len() > self.icons {
            // the instruction is executed again from its start: take back what its earlier decisions added
            let cons: Vec<E> = alt.cons[..self.icons].to_vec();
            alt.cons.clear();
            alt.dom.iter_mut().for_each(|d| *d = [!0; 4]);
            alt.known.iter_mut().for_each(|k| *k = None);
            alt.kset = [0; NSYM / 64];
            alt.multi = [0; NSYM / 64];
            let cur = std::mem::replace(&mut self.st, alt);
            for c in cons {
                self.add_cons(c);
            }
            alt = std::mem::replace(&mut self.st, cur);
        }
        self.pending.push(alt);
        self.cnt.forks += 1;
    }
    fn log(&mut self, v: u64, b: u8) {
        self.st.trace.push(Dec { v, b });
        self.st.pos = self.st.trace.len();
    }
    fn replayed(&mut self) -> Option<Dec> {
        if self.st.pos < self.st.trace.len() {
            self.st.pos += 1;
            Some(self.st.trace[self.st.pos - 1])
        } else {
            None
        }
    }
    fn branch(&mut self, cond: E) -> Rs<bool> {
        let c = self.sub(cond);
        if let Some(v) = self.x.cv(c) {
            return Ok(v != 0);
        }
        self.cnt.branches += 1;
        let nc = self.x.not(c);
        if let Some(d) = self.replayed() {
            match d.b {
                0 => return Ok(false),
                1 => return Ok(true),
                2 => {
                    self.add_cons(nc);
                    return Ok(false);
                }
                3 => {
                    self.add_cons(c);
                    return Ok(true);
                }
                _ => panic!("replay out of step: {d:?} at branch"),
            }
        }
        let s = *self.x.support(c);
        if !self.o.z3_all {
            if let Some(y) = supp_single(&s) {
                let t = self.x.truth(c, y);
                let d = self.st.dom[y as usize];
                let mut tt = 0;
                let mut ff = 0;
                for i in 0..4 {
                    tt |= d[i] & t[i];
                    ff |= d[i] & !t[i];
                }
                if tt == 0 || ff == 0 {
                    self.cnt.dom_decisions += 1;
                    self.log(0, (ff == 0) as u8);
                    return Ok(ff == 0);
                }
                if self.st.multi[y as usize / 64] >> (y % 64) & 1 == 0 {
                    self.cnt.dom_decisions += 1;
                    let v = self.st.model.get(y as usize).copied().unwrap_or(0) as usize;
                    let cur = t[v / 64] >> (v % 64) & 1 == 1;
                    let mut alt = self.st.model.clone();
                    let pick = (0..256usize).find(|i| (d[i / 64] >> (i % 64)) & 1 == 1 && ((t[i / 64] >> (i % 64)) & 1 == 1) != cur).unwrap();
                    if alt.len() <= y as usize {
                        alt.resize(y as usize + 1, 0);
                    }
                    alt[y as usize] = pick as u8;
                    self.fork(Dec { v: 0, b: if cur { 2 } else { 3 } }, alt);
                    self.log(0, if cur { 3 } else { 2 });
                    self.add_cons(if cur { c } else { nc });
                    return Ok(cur);
                }
            }
        }
        let m = std::mem::take(&mut self.st.model);
        let cur = self.x.eval(c, &m) != 0;
        self.st.model = m;
        match self.sat(if cur { nc } else { c }) {
            Some(None) => {
                self.log(0, cur as u8);
                Ok(cur)
            }
            Some(Some(alt)) => {
                self.fork(Dec { v: 0, b: if cur { 2 } else { 3 } }, alt);
                self.log(0, if cur { 3 } else { 2 });
                self.add_cons(if cur { c } else { nc });
                Ok(cur)
            }
            None => {
                self.st.inconclusive = true;
                *self.reasons.entry("solver gave no answer at a branch".into()).or_default() += 1;
                self.log(0, if cur { 3 } else { 2 });
                self.add_cons(if cur { c } else { nc });
                Ok(cur)
            }
        }
    }
    fn conc(&mut self, v: Val) -> Rs<u64> {
        if v.e == 0 {
            return Ok(v.v);
        }
        loop {
            let e = self.sub(v.e);
            if let Some(k) = self.x.cv(e) {
                return Ok(k);
            }
            let w = self.x.w(e);
            if let Some(d) = self.replayed() {
                let k = self.x.k(d.v, w);
                let q = self.x.eq(e, k);
                match d.b {
                    4 => return Ok(d.v),
                    5 => {
                        self.add_cons(q);
                        return Ok(d.v);
                    }
                    6 => {
                        let nq = self.x.not(q);
                        self.add_cons(nq);
                        continue;
                    }
                    _ => panic!("replay out of step: {d:?} at value"),
                }
            }
            self.cnt.values += 1;
            let m = std::mem::take(&mut self.st.model);
            let val = self.x.eval(e, &m);
            self.st.model = m;
            let k = self.x.k(val, w);
            let q = self.x.eq(e, k);
            let nq = self.x.not(q);
            match self.sat(nq) {
                Some(None) => {
                    self.log(val, 4);
                    return Ok(val);
                }
                Some(Some(alt)) => {
                    self.fork(Dec { v: val, b: 6 }, alt);
                    self.log(val, 5);
                    self.add_cons(q);
                    return Ok(val);
                }
                None => {
                    self.st.inconclusive = true;
                    *self.reasons.entry("solver gave no answer at a value".into()).or_default() += 1;
                    self.log(val, 5);
                    self.add_cons(q);
                    return Ok(val);
                }
            }
        }
    }
    fn assume(&mut self, cond: E) -> Rs<()> {
        let c = self.sub(cond);
        if let Some(v) = self.x.cv(c) {
            return if v != 0 { Ok(()) } else { Err(Stop::Killed) };
        }
        if let Some(d) = self.replayed() {
            assert_eq!(d.b, 8, "replay out of step at assume");
            self.add_cons(c);
            return Ok(());
        }
        let m = std::mem::take(&mut self.st.model);
        let cur = self.x.eval(c, &m) != 0;
        self.st.model = m;
        if !cur {
            match self.sat(c) {
                Some(None) => return Err(Stop::Killed),
                Some(Some(m)) => self.st.model = m,
                None => return Err(Stop::Incomplete("solver gave no answer at an assumption".into())),
            }
        }
        self.log(0, 8);
        self.add_cons(c);
        Ok(())
    }
    fn check(&mut self, v: Val, msg: &str) -> Rs<()> {
        self.cnt.checks += 1;
        let c = if v.e == 0 {
            let k = self.x.k((v.v != 0) as u64, 1);
            k
        } else {
            let e = self.sub(v.e);
            let w = self.x.w(e);
            let z = self.x.k(0, w);
            let q = self.x.eq(e, z);
            self.x.not(q)
        };
        if let Some(k) = self.x.cv(c) {
            if k != 0 {
                self.cnt.checks_const += 1;
                return Ok(());
            }
            return Err(Stop::Violation("check".into(), msg.into()));
        }
        if let Some(d) = self.replayed() {
            assert_eq!(d.b, 9, "replay out of step at check");
            self.add_cons(c);
            return Ok(());
        }
        let nc = self.x.not(c);
        self.cnt.checks_solver += 1;
        match self.sat(nc) {
            Some(None) => {
                self.log(0, 9);
                Ok(())
            }
            Some(Some(m)) => {
                self.st.model = m;
                Err(Stop::Violation("check".into(), msg.into()))
            }
            None => Err(Stop::Incomplete("solver gave no answer at a check".into())),
        }
    }
    fn given(&mut self) -> Rs<u64> {
        self.gpos += 1;
        match self.o.vector.as_ref().unwrap().get(self.gpos - 1) {
            Some(v) => Ok(*v),
            None => Err(Stop::Incomplete("the vector is too short".into())),
        }
    }
    // ---- symbols -----------------------------------------------------------------------------
    fn fresh(&mut self) -> E {
        let i = self.st.nsym;
        self.st.nsym += 1;
        self.st.dom.push([!0; 4]);
        self.st.known.push(None);
        if self.st.model.len() <= i as usize {
            self.st.model.resize(i as usize + 1, 0);
        }
        if self.o.follow && !self.given.is_empty() {
            self.st.model[i as usize] = self.given.remove(0);
        }
        self.cnt.max_sym = self.cnt.max_sym.max(i as u64 + 1);
        self.x.sym(i)
    }
    // ---- values ------------------------------------------------------------------------------
    fn ex(&mut self, v: Val, w: u8) -> E {
        if v.e == 0 {
            return self.x.k(v.v, w);
        }
        let we = self.x.w(v.e);
        if we == w {
            v.e
        } else if we < w {
            self.x.zext(v.e, w)
        } else {
            self.x.extract(v.e, 0, w)
        }
    }
    fn val(&self, e: E) -> Val {
        match self.x.cv(e) {
            Some(v) => cv(v),
            None => Val { v: 0, e },
        }
    }
    fn flag(&mut self, e: E) -> Val {
        let z = self.x.zext(e, 32);
        self.val(z)
    }
    fn truthy(&mut self, v: Val) -> Rs<bool> {
        if v.e == 0 {
            return Ok(v.v as u32 != 0);
        }
        let e = self.ex(v, 32);
        let z = self.x.k(0, 32);
        let q = self.x.eq(e, z);
        let b = self.branch(q)?;
        Ok(!b)
    }
    // ---- memory ------------------------------------------------------------------------------
    fn load(&mut self, a: u64, n: u8) -> Rs<Val> {
        if a + n as u64 > self.st.size() {
            return Err(Stop::Violation("trap".into(), "memory access out of bounds".into()));
        }
        let a = a as u32;
        let o = a as usize % PG;
        if o + n as usize <= PG {
            match self.st.page(a) {
                None => return Ok(cv(0)),
                Some(p) => {
                    let conc = match &p.s {
                        None => true,
                        Some(s) => s[o..o + n as usize].iter().all(|x| *x == 0),
                    };
                    if conc {
                        let d = &p.d;
                        return Ok(cv(match n {
                            1 => d[o] as u64,
                            2 => u16::from_le_bytes([d[o], d[o + 1]]) as u64,
                            4 => u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64,
                            _ => u64::from_le_bytes(d[o..o + 8].try_into().unwrap()),
                        }));
                    }
                }
            }
        }
        let mut r: E = 0;
        let mut k = 0u64;
        let mut sy = false;
        let bs: Vec<(u8, E)> = (0..n as u32).map(|i| self.st.rd8(a + i)).collect();
        for (i, (v, e)) in bs.iter().enumerate() {
            k |= (*v as u64) << (8 * i);
            if *e != 0 {
                sy = true;
            }
        }
        if !sy {
            return Ok(cv(k));
        }
        for (v, e) in bs {
            let e = if e != 0 { e } else { self.x.k(v as u64, 8) };
            r = if r == 0 { e } else { self.x.concat(e, r) };
        }
        Ok(self.val(r))
    }
    fn store(&mut self, a: u64, n: u8, v: Val) -> Rs<()> {
        if a + n as u64 > self.st.size() {
            return Err(Stop::Violation("trap".into(), "memory access out of bounds".into()));
        }
        let a = a as u32;
        if v.e == 0 {
            let o = a as usize % PG;
            let b = v.v.to_le_bytes();
            if o + n as usize <= PG {
                let p = self.st.page_mut(a);
                p.d[o..o + n as usize].copy_from_slice(&b[..n as usize]);
                if let Some(s) = p.s.as_mut() {
                    s[o..o + n as usize].fill(0);
                }
            } else {
                for i in 0..n as u32 {
                    self.st.wr8(a + i, b[i as usize], 0);
                }
            }
        } else {
            let e = self.ex(v, n * 8);
            for i in 0..n {
                let b = self.x.extract(e, i * 8, 8);
                match self.x.cv(b) {
                    Some(k) => self.st.wr8(a + i as u32, k as u8, 0),
                    None => self.st.wr8(a + i as u32, 0, b),
                }
            }
        }
        Ok(())
    }
    /// table lookup with a symbolic index: an if-then-else over the index instead of a fork
    fn load_sym(&mut self, addr: E, off: u32, n: u8) -> Rs<Option<Val>> {
        let mut e = self.sub(addr);
        let mut base = off as u64;
        let nd = self.x.n[e as usize];
        if nd.op == Op::Add {
            if let Some(k) = self.x.cv(nd.b) {
                base = base.wrapping_add(k) & 0xffff_ffff;
                e = nd.a;
            }
        }
        let ones = self.x.ones(e);
        if ones == 0 {
            return Ok(None);
        }
        let t = ones.trailing_zeros() as u8;
        let w = 64 - ones.leading_zeros() as u8 - t;
        if w > 8 {
            return Ok(None);
        }
        let ix = self.x.extract(e, t, w);
        // feasible index values (over-approximation)
        let mut feas: Vec<u64> = vec![];
        let sup = *self.x.support(ix);
        if let Some(y) = supp_single(&sup) {
            let d = self.st.dom[y as usize];
            let mut seen = [false; 256];
            let mut mdl = vec![0u8; y as usize + 1];
            for v in 0..256usize {
                if d[v / 64] >> (v % 64) & 1 == 1 {
                    mdl[y as usize] = v as u8;
                    let r = self.x.eval(ix, &mdl);
                    seen[r as usize] = true;
                }
            }
            feas = (0..256u64).filter(|i| seen[*i as usize]).collect();
        } else {
            feas.extend(0..(1u64 << w));
        }
        let mut vals: Vec<(u64, Val)> = vec![];
        let mut nsymb = 0;
        for i in feas {
            let a = (base + (i << t)) & 0xffff_ffff;
            // tables are static data; a symbolic place in a heap block is better decided
            if a + n as u64 > self.st.size() || a >= self.m.mem_min as u64 * 65536 {
                return Ok(None);
            }
            let v = self.load(a, n)?;
            if v.e != 0 {
                nsymb += 1;
            }
            vals.push((i, v));
        }
        if vals.is_empty() || nsymb > 8 {
            return Ok(None);
        }
        // runs: constant, or index plus constant
        let wn = n * 8;
        let mut runs: Vec<(u64, u8, Val, u64)> = vec![]; // last index, kind 0 const 1 linear 2 expr
        for (i, v) in vals {
            if v.e == 0 {
                if let Some(l) = runs.last_mut() {
                    if l.1 == 0 && l.2.v == v.v {
                        l.0 = i;
                        continue;
                    }
                    let delta = v.v.wrapping_sub(i) & mask(wn);
                    if l.1 == 1 && l.3 == delta {
                        l.0 = i;
                        continue;
                    }
                    if l.1 == 0 && l.3 == l.0 && (l.2.v.wrapping_sub(l.3) & mask(wn)) == delta {
                        // single constant at index l.3 extends to a linear run
                        *l = (i, 1, v, delta);
                        continue;
                    }
                }
                runs.push((i, 0, v, i));
            } else {
                runs.push((i, 2, v, 0));
            }
        }
        if runs.len() > 70 {
            return Ok(None);
        }
        let mut r: E = 0;
        for (last, kind, v, delta) in runs.into_iter().rev() {
            let x = match kind {
                0 => self.x.k(v.v, wn),
                1 => {
                    let z = if wn >= w { self.x.zext(ix, wn) } else { self.x.extract(ix, 0, wn) };
                    let k = self.x.k(delta, wn);
                    self.x.add(z, k)
                }
                _ => self.ex(v, wn),
            };
            r = if r == 0 {
                x
            } else {
                let c = if last + 1 > mask(w) {
                    self.x.k(1, 1)
                } else {
                    let k = self.x.k(last + 1, w);
                    self.x.ult(ix, k)
                };
                self.x.ite(c, x, r)
            };
        }
        Ok(Some(self.val(r)))
    }
    fn alloc(&mut self, size: u64, align: u64) -> Rs<u32> {
        if size > self.o.max_alloc {
            return Err(Stop::Violation("alloc".into(), format!("allocation of {size} bytes")));
        }
        let al = align.max(8);
        let a = (self.st.brk as u64 + al - 1) / al * al;
        let end = a + size;
        if end > 0xc000_0000 {
            return Err(Stop::Incomplete("out of address space".into()));
        }
        let np = (end as usize + PG - 1) / PG;
        if np > self.st.pages.len() {
            let np = (np + 15) / 16 * 16;
            self.st.pages.resize(np, None);
        }
        self.st.brk = end as u32;
        Ok(a as u32)
    }
    /// an upper bound of an allocation size
    fn size_bound(&mut self, v: Val) -> Rs<u64> {
        if v.e == 0 {
            return Ok(v.v as u32 as u64);
        }
        let e0 = self.ex(v, 32);
        let e = self.sub(e0);
        if let Some(k) = self.x.cv(e) {
            return Ok(k);
        }
        let lim = self.x.k(self.o.max_alloc, 32);
        let big = self.x.ult(lim, e);
        if self.branch(big)? {
            return Err(Stop::Violation("alloc".into(), "allocation size not bounded by the input".into()));
        }
        // smallest power of two bound that is implied, found without recording decisions
        let mut b = 64u64;
        while b < self.o.max_alloc {
            let k = self.x.k(b, 32);
            let c = self.x.ult(k, e);
            match self.sat(c) {
                Some(None) => return Ok(b),
                Some(Some(_)) => {}
                None => return Err(Stop::Incomplete("solver gave no answer at an allocation".into())),
            }
            b *= 4;
        }
        Ok(self.o.max_alloc)
    }
    fn rd_str(&mut self, p: u32, n: u32) -> String {
        let b: Vec<u8> = (0..n.min(400)).map(|i| if (p + i) as u64 >= self.st.size() { b'?' } else { self.st.rd8(p + i).0 }).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
    fn rd32(&mut self, p: u32) -> u32 {
        match self.load(p as u64, 4) {
            Ok(v) if v.e == 0 => v.v as u32,
            _ => 0,
        }
    }
    fn range_ok(&self, a: u64, n: u64) -> Rs<()> {
        if a + n > self.st.size() {
            return Err(Stop::Violation("trap".into(), "memory access out of bounds".into()));
        }
        Ok(())
    }
    fn copy(&mut self, d: u32, s: u32, n: u32) -> Rs<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        self.range_ok(d as u64, n as u64)?;
        self.range_ok(s as u64, n as u64)?;
        let b: Vec<(u8, E)> = (0..n).map(|i| self.st.rd8(s + i)).collect();
        for (i, (v, e)) in b.into_iter().enumerate() {
            self.st.wr8(d + i as u32, v, e);
        }
        Ok(())
    }

    // ---- host calls --------------------------------------------------------------------------
    fn host(&mut self, id: u8, args: &[Val]) -> Rs<Option<Val>> {
        match id {
            1 => {
                // any(n bytes) -> i64
                let n = args[0].v as u32;
                if self.o.vector.is_some() {
                    let v = self.given()?;
                    if !self.o.follow {
                        return Ok(Some(cv(v & if n == 8 { !0 } else { (1 << (8 * n)) - 1 })));
                    }
                    self.given = v.to_le_bytes()[..n as usize].to_vec();
                }
                let first = self.st.nsym;
                let mut r: E = 0;
                for _ in 0..n {
                    let s = self.fresh();
                    r = if r == 0 { s } else { self.x.concat(s, r) };
                }
                self.st.nd.push(Nd::Bytes(first, n));
                let r = self.x.zext(r, 64);
                Ok(Some(self.val(r)))
            }
            2 => {
                let (p, n) = (args[0].v as u32, args[1].v as u32);
                if self.o.vector.is_some() {
                    let mut g = vec![];
                    for i in 0..n {
                        let v = self.given()? as u8;
                        g.push(v);
                        if !self.o.follow {
                            self.st.wr8(p + i, v, 0);
                        }
                    }
                    if !self.o.follow {
                        return Ok(None);
                    }
                    self.given = g;
                }
                let first = self.st.nsym;
                for i in 0..n {
                    let s = self.fresh();
                    self.st.wr8(p + i, 0, s);
                }
                for i in 0..n {
                    self.st.nd.push(Nd::Bytes(first + i, 1));
                }
                Ok(None)
            }
            3 => {
                let n = args[0].v as u32 as u64;
                if args[0].e != 0 {
                    return Err(Stop::Incomplete("choice of a symbolic count".into()));
                }
                if n == 0 {
                    return Err(Stop::Killed);
                }
                let k = if self.o.vector.is_some() {
                    self.given()?
                } else if let Some(d) = self.replayed() {
                    assert_eq!(d.b, 7, "replay out of step at choice");
                    d.v
                } else {
                    for k in (1..n).rev() {
                        let m = self.st.model.clone();
                        self.fork(Dec { v: k, b: 7 }, m);
                    }
                    self.log(0, 7);
                    0
                };
                self.st.nd.push(Nd::Choice(k));
                Ok(Some(cv(k)))
            }
            4 => {
                let e = self.ex(args[0], 32);
                let z = self.x.k(0, 32);
                let q = self.x.eq(e, z);
                let c = self.x.not(q);
                self.assume(c)?;
                Ok(None)
            }
            5 => {
                let msg = self.rd_str(args[1].v as u32, args[2].v as u32);
                self.check(args[0], &msg)?;
                Ok(None)
            }
            6 => {
                let (a, n) = (self.conc(args[0])? as u32, self.conc(args[1])? as u32);
                let s = self.rd_str(a, n);
                let i = match self.cover_names.iter().position(|x| *x == s) {
                    Some(i) => i,
                    None => {
                        self.cover_names.push(s);
                        self.cover_names.len() - 1
                    }
                } as u32;
                if !self.st.covers.contains(&i) {
                    self.st.covers.push(i);
                }
                Ok(None)
            }
            7 => {
                let (p, n, o) = (self.conc(args[0])? as u32, self.conc(args[1])? as u32, self.conc(args[2])? as u32);
                self.range_ok(p as u64, n as u64)?;
                let b: Vec<(u8, E)> = (0..n).map(|i| self.st.rd8(p + i)).collect();
                let d = self.hash(b)?;
                for (i, v) in d.iter().enumerate() {
                    self.st.wr8(o + i as u32, *v, 0);
                }
                Ok(None)
            }
            8 => {
                let n = self.size_bound(args[0])?;
                let al = self.conc(args[1])?;
                Ok(Some(cv(self.alloc(n, al)? as u64)))
            }
            9 => {
                // realloc(ptr, old, align, new)
                let p = self.conc(args[0])? as u32;
                let new = self.size_bound(args[3])?;
                let old = self.size_bound(args[1])?;
                let al = self.conc(args[2])?;
                if p.wrapping_add(old as u32) == self.st.brk && new >= old {
                    self.st.brk = p;
                    let a = self.alloc(new, al)?;
                    assert_eq!(a, p);
                    return Ok(Some(cv(p as u64)));
                }
                let a = self.alloc(new, al)?;
                self.copy(a, p, old.min(new) as u32)?;
                Ok(Some(cv(a as u64)))
            }
            10 => {
                if self.o.verbose {
                    let p = args[0].v as u32;
                    let n = args[1].v as u32;
                    let mut s = String::new();
                    for i in 0..n {
                        let (v, e) = self.st.rd8(p + i);
                        if e != 0 {
                            s += &format!("<{}>", self.x.show(e, 3));
                        } else {
                            s.push(v as char);
                        }
                    }
                    eprintln!("log: {s}");
                }
                Ok(None)
            }
            11 => {
                let v = self.conc(args[0])?;
                Ok(Some(cv(v)))
            }
            H_MEMCPY => {
                let n = self.conc(args[2])? as u32;
                let d = self.conc(args[0])? as u32;
                let s = self.conc(args[1])? as u32;
                self.copy(d, s, n)?;
                Ok(Some(cv(d as u64)))
            }
            H_MEMSET => {
                let n = self.conc(args[2])? as u32;
                let d = self.conc(args[0])? as u32;
                self.range_ok(d as u64, n as u64)?;
                let e = self.ex(args[1], 8);
                let k = self.x.cv(e);
                for i in 0..n {
                    match k {
                        Some(k) => self.st.wr8(d + i, k as u8, 0),
                        None => self.st.wr8(d + i, 0, e),
                    }
                }
                Ok(Some(cv(d as u64)))
            }
            H_MEMCMP => {
                let n = self.conc(args[2])? as u32;
                if n == 0 {
                    return Ok(Some(cv(0)));
                }
                let a = self.conc(args[0])? as u32;
                let b = self.conc(args[1])? as u32;
                self.range_ok(a as u64, n as u64)?;
                self.range_ok(b as u64, n as u64)?;
                // bytes up to the first definite difference
                let mut k = 0;
                let mut tail: i32 = 0;
                let mut idx = vec![];
                while k < n {
                    let (x, xe) = self.st.rd8(a + k);
                    let (y, ye) = self.st.rd8(b + k);
                    if xe == 0 && ye == 0 {
                        if x != y {
                            tail = if x < y { -1 } else { 1 };
                            break;
                        }
                    } else if xe != ye {
                        let xe = if xe != 0 { xe } else { self.x.k(x as u64, 8) };
                        let ye = if ye != 0 { ye } else { self.x.k(y as u64, 8) };
                        let (xe, ye) = (self.sub(xe), self.sub(ye));
                        match (self.x.cv(xe), self.x.cv(ye)) {
                            (Some(p), Some(q)) => {
                                if p != q {
                                    tail = if p < q { -1 } else { 1 };
                                    break;
                                }
                            }
                            _ => idx.push((xe, ye)),
                        }
                    }
                    k += 1;
                }
                let mut r = self.x.k(tail as u32 as u64, 32);
                for (xe, ye) in idx.into_iter().rev() {
                    let q = self.x.eq(xe, ye);
                    let l = self.x.ult(xe, ye);
                    let m1 = self.x.k(!0, 32);
                    let p1 = self.x.k(1, 32);
                    let d = self.x.ite(l, m1, p1);
                    r = self.x.ite(q, r, d);
                }
                Ok(Some(self.val(r)))
            }
            H_PANIC => {
                // last pointer argument: &Location { file ptr, file len, line, col }
                let loc = args.last().map_or(0, |v| v.v as u32);
                let (fp, fl, line, col) = (self.rd32(loc), self.rd32(loc + 4), self.rd32(loc + 8), self.rd32(loc + 12));
                let file = self.rd_str(fp, fl);
                // fmt::Arguments { pieces ptr, pieces len, .. }: print the literal pieces
                let mut lit = String::new();
                if let Some(a) = args.first() {
                    let a = a.v as u32;
                    let (pp, pn) = (self.rd32(a), self.rd32(a + 4));
                    if pn < 8 {
                        for i in 0..pn {
                            let (sp, sn) = (self.rd32(pp + 8 * i), self.rd32(pp + 8 * i + 4));
                            if sn < 200 {
                                lit += &self.rd_str(sp, sn);
                                lit += "{}";
                            }
                        }
                    }
                }
                Err(Stop::Violation("panic".into(), format!("panic at {file}:{line}:{col}: {}", lit.trim_end_matches("{}"))))
            }
            H_DEBUG.. => Ok(Some(cv(0))),
            H_BEGIN_PANIC => Err(Stop::Violation("panic".into(), "panic".into())),
            H_OOM => Err(Stop::Violation("alloc".into(), "allocation failure".into())),
            _ => Err(Stop::Incomplete(format!("host call {id}"))),
        }
    }
    /// is what this Debug function prints symbolic?
    fn debug_symbolic(&self, h: u8, drop: usize, np: usize) -> bool {
        let n = self.st.stack.len() - drop;
        let a = &self.st.stack[n - np..n];
        let bytes = match h {
            H_DEBUG_CHAR | H_DEBUG_STR if a[0].e != 0 => return true,
            H_DEBUG_STR if a[1].e != 0 => return true,
            H_DEBUG_STR => a[1].v as u32,
            H_DEBUG_CHAR => 4,
            _ => 1 << (h - H_DEBUG_INT),
        };
        a[0].e != 0 || a[0].v as u64 as u32 as u64 + bytes as u64 > self.st.size() || (0..bytes).any(|i| self.st.rd8(a[0].v as u32 + i).1 != 0)
    }
    /// data read by a hash function: everything but its own stack frame and 32-bit words (pointers, lengths,
    /// discriminants). Leaving bytes out is sound, as equal keys are read alike whether their bytes are symbolic
    /// or not: it can only turn different keys into collisions.
    fn hone_load(&mut self, p: u64, n: u8, w: u8, v: Val) {
        let h = self.st.hone.as_ref().unwrap();
        if p < h.1 as u64 || (n == 4 && w == 32) {
            return;
        }
        let mut out = vec![];
        for i in 0..n {
            if v.e == 0 {
                out.push(((v.v >> (8 * i)) as u8, 0));
            } else {
                let b = self.x.extract(v.e, i * 8, 8);
                out.push(match self.x.cv(b) {
                    Some(k) => (k as u8, 0),
                    None => (0, b),
                });
            }
        }
        self.st.hone.as_mut().unwrap().2.extend(out);
    }
    fn hash(&mut self, b: Vec<(u8, E)>) -> Rs<[u8; 32]> {
        self.ideal(b, None)
    }
    /// idealised hash: concrete inputs get their real digest, symbolic inputs a fresh one; the path forks on
    /// whether the input equals an earlier one, so equal inputs have equal digests and different inputs differ.
    /// `real` is the value a hash-map hash function computed; without it the function is SHA-256.
    fn ideal(&mut self, b: Vec<(u8, E)>, real: Option<Val>) -> Rs<[u8; 32]> {
        if real.is_none() {
            self.cnt.hash_apps += 1;
        }
        let b: Vec<(u8, E)> = b
            .into_iter()
            .map(|(v, e)| {
                if e == 0 {
                    return (v, 0);
                }
                let e = self.sub(e);
                match self.x.cv(e) {
                    Some(k) => (k as u8, 0),
                    None => (0, e),
                }
            })
            .collect();
        let symbolic = b.iter().any(|x| x.1 != 0);
        if symbolic {
            self.cnt.hash_sym += 1;
        }
        let n = if real.is_some() { self.st.hmap.len() } else { self.st.hashes.len() };
        for i in 0..n {
            let h = if real.is_some() { self.st.hmap[i].clone() } else { self.st.hashes[i].clone() };
            if h.b.len() != b.len() || !(symbolic || h.symbolic || real.is_some()) {
                continue;
            }
            let mut q = self.x.k(1, 1);
            for (p, r) in b.iter().zip(&h.b) {
                if p.1 == 0 && r.1 == 0 {
                    if p.0 != r.0 {
                        q = self.x.k(0, 1);
                        break;
                    }
                    continue;
                }
                let pe = if p.1 != 0 { p.1 } else { self.x.k(p.0 as u64, 8) };
                let re = if r.1 != 0 { r.1 } else { self.x.k(r.0 as u64, 8) };
                let c = self.x.eq(pe, re);
                q = self.x.and(q, c);
                if self.x.cv(q) == Some(0) {
                    break;
                }
            }
            if self.branch(q)? {
                return Ok(h.dig);
            }
        }
        let dig = if symbolic || real.is_some_and(|v| v.e != 0) {
            let mut s = if real.is_some() { b"wsym fresh map hash ".to_vec() } else { b"wsym fresh digest ".to_vec() };
            s.extend_from_slice(&(n as u64).to_le_bytes());
            sha256(&s)
        } else {
            match real {
                Some(v) => {
                    let mut d = [0u8; 32];
                    d[..8].copy_from_slice(&v.v.to_le_bytes());
                    d
                }
                None => {
                    let c: Vec<u8> = b.iter().map(|x| x.0).collect();
                    sha256(&c)
                }
            }
        };
        let t = if real.is_some() { &mut self.st.hmap } else { &mut self.st.hashes };
        t.push(Rc::new(HashEnt { b, symbolic, dig }));
        Ok(dig)
    }

    /// the inputs of this path: a model's bytes, but where they contain the stand-in of a digest they get the digest
    /// that SHA-256 gives for these inputs
    pub fn vector(&mut self) -> Vec<u64> {
        let m = self.st.model.clone();
        let mut real: Vec<([u8; 32], [u8; 32])> = vec![];
        fn put(v: &mut [u8], real: &[([u8; 32], [u8; 32])]) {
            for i in 0..(v.len() + 1).saturating_sub(32) {
                if let Some(r) = real.iter().find(|r| r.0 == v[i..i + 32]) {
                    v[i..i + 32].copy_from_slice(&r.1);
                }
            }
        }
        for h in self.st.hashes.clone() {
            let mut v: Vec<u8> = h.b.iter().map(|x| if x.1 == 0 { x.0 } else { self.x.eval(x.1, &m) as u8 }).collect();
            put(&mut v, &real);
            let d = sha256(&v);
            if d != h.dig {
                real.push((h.dig, d));
            }
        }
        let mut flat = vec![];
        for n in &self.st.nd {
            if let Nd::Bytes(f, c) = n {
                flat.extend((0..*c).map(|i| m.get((f + i) as usize).copied().unwrap_or(0)));
            }
        }
        put(&mut flat, &real);
        let mut at = 0;
        self.st
            .nd
            .iter()
            .map(|n| match n {
                Nd::Choice(k) => *k,
                Nd::Bytes(_, c) => {
                    let mut v = 0u64;
                    for i in 0..*c {
                        v |= (flat[at] as u64) << (8 * i);
                        at += 1;
                    }
                    v
                }
            })
            .collect()
    }
    fn backtrace(&self) -> Vec<String> {
        let ni = self.m.imports.len() as u32;
        self.st.frames.iter().rev().take(12).map(|f| self.m.names.get(&(f.f + ni)).cloned().unwrap_or(format!("f{}", f.f))).collect()
    }
    /// another model of the path: bytes that are constrained on their own get other values of their domains
    fn vary(&mut self, seed: u64) {
        let old = self.st.model.clone();
        let mut r = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ self.st.instrs;
        for y in 0..(self.st.nsym as usize).min(NSYM) {
            if self.st.multi[y / 64] >> (y % 64) & 1 == 1 || y >= self.st.model.len() {
                continue;
            }
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            let d = self.st.dom[y];
            let n: u32 = d.iter().map(|x| x.count_ones()).sum();
            if n > 0 {
                let k = (r >> 20) as usize % n as usize;
                self.st.model[y] = (0..256usize).filter(|i| d[i / 64] >> (i % 64) & 1 == 1).nth(k).unwrap() as u8;
            }
        }
        let m = std::mem::take(&mut self.st.model);
        let ok = self.st.cons.clone().iter().all(|c| self.x.eval(*c, &m) != 0);
        self.st.model = if ok { m } else { old };
    }
    /// run the current state to the end of its path
    pub fn run_path(&mut self) {
        let before = self.st.instrs;
        let r = self.run();
        self.cnt.instrs += self.st.instrs - before;
        self.cnt.max_path_instrs = self.cnt.max_path_instrs.max(self.st.instrs);
        self.cnt.max_depth = self.cnt.max_depth.max(self.st.trace.len() as u64);
        let end = match r {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        match end {
            Stop::Done => {
                if self.st.inconclusive {
                    self.cnt.incomplete += 1;
                } else {
                    self.cnt.paths += 1;
                    for c in self.st.covers.clone() {
                        *self.covers.entry(self.cover_names[c as usize].clone()).or_default() += 1;
                    }
                    let n = self.cnt.paths;
                    if self.samples.len() < 6 && (n & (n - 1)) == 0 {
                        if n > 1 {
                            self.vary(n);
                        }
                        let v = self.vector();
                        let c: Vec<&str> = self.st.covers.iter().map(|c| self.cover_names[*c as usize].as_str()).collect();
                        let opaque = self.st.hashes.iter().any(|h| h.b.iter().any(|x| x.1 != 0));
                        self.samples.push(format!("{}|{}{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), c.join(";"), if opaque { "|opaque" } else { "" }));
                    }
                }
            }
            Stop::Killed => self.cnt.killed += 1,
            Stop::Incomplete(s) => {
                self.cnt.incomplete += 1;
                *self.reasons.entry(s).or_default() += 1;
            }
            Stop::Violation(kind, msg) => {
                if self.st.inconclusive {
                    self.cnt.incomplete += 1;
                    return;
                }
                self.cnt.paths += 1;
                let vector = self.vector();
                let stack = self.backtrace();
                if !self.viol.iter().any(|v| v.msg == msg) {
                    self.viol.push(Violation { kind, msg, vector, nd_bytes: self.st.nsym as usize, stack });
                }
            }
        }
    }
    fn run(&mut self) -> Rs<()> {
        let m = self.m.clone();
        let ni = m.imports.len() as u32;
        'frame: loop {
            let fr = match self.st.frames.last() {
                Some(f) => f.clone(),
                None => return Ok(()),
            };
            let func = &m.funcs[fr.f as usize];
            let code = &func.code[..];
            let base = fr.base as usize;
            let opbase = base + func.nlocals;
            let mut pc = fr.pc as usize;
            if self.o.vector.is_some() && self.o.verbose {
                eprintln!("at {} {} {}", self.m.names.get(&(fr.f + ni)).map_or("", |x| x), fr.pc, self.st.stack.len());
            }
            loop {
                self.ipos = self.st.pos;
                self.icons = self.st.cons.len();
                self.icpc = pc as u32;
                self.st.instrs += 1;
                let ins = code[pc];
                pc += 1;
                macro_rules! pop {
                    () => {
                        self.st.stack.pop().unwrap()
                    };
                }
                macro_rules! top {
                    ($i:expr) => {{
                        let n = self.st.stack.len();
                        self.st.stack[n - 1 - $i]
                    }};
                }
                macro_rules! jump {
                    ($pc:expr, $h:expr, $ar:expr) => {{
                        let hh = opbase + $h as usize;
                        if $ar == 0 {
                            self.st.stack.truncate(hh);
                        } else {
                            let v = pop!();
                            self.st.stack.truncate(hh);
                            self.st.stack.push(v);
                        }
                        if ($pc as usize) < pc {
                            if self.st.instrs > self.o.max_instr {
                                return Err(Stop::Incomplete("instruction bound of a path reached".into()));
                            }
                        }
                        pc = $pc as usize;
                    }};
                }
                match ins {
                    I::LocalGet(i) => {
                        let v = self.st.stack[base + i as usize];
                        self.st.stack.push(v);
                    }
                    I::LocalSet(i) => {
                        let v = pop!();
                        self.st.stack[base + i as usize] = v;
                    }
                    I::LocalTee(i) => {
                        let v = top!(0);
                        self.st.stack[base + i as usize] = v;
                    }
                    I::Const(k) => self.st.stack.push(cv(k)),
                    I::Bin(op) => {
                        let (a, b) = (top!(1), top!(0));
                        let r = if a.e == 0 && b.e == 0 { self.bin_c(op, a.v, b.v)? } else { self.bin_s(op, a, b)? };
                        pop!();
                        *self.st.stack.last_mut().unwrap() = r;
                    }
                    I::Un(op) => {
                        let a = top!(0);
                        let r = if a.e == 0 { cv(un_c(op, a.v)?) } else { self.un_s(op, a)? };
                        *self.st.stack.last_mut().unwrap() = r;
                    }
                    I::Load { n, sx, w, off } => {
                        let a = top!(0);
                        let v = if a.e == 0 {
                            let p = (a.v as u32 as u64) + off as u64;
                            let v = self.load(p, n)?;
                            if self.st.hone.is_some() {
                                self.hone_load(p, n, w, v);
                            }
                            v
                        } else {
                            let e = self.ex(a, 32);
                            let v = match self.load_sym(e, off, n)? {
                                Some(v) => v,
                                None => {
                                    let p = self.conc(Val { v: 0, e })?;
                                    self.load(p + off as u64, n)?
                                }
                            };
                            if self.st.hone.is_some() {
                                self.hone_load(1 << 40, n, w, v);
                            }
                            v
                        };
                        let r = if v.e == 0 {
                            let mut k = v.v;
                            if sx {
                                let s = 64 - 8 * n as u32;
                                k = (((k << s) as i64) >> s) as u64;
                                if w == 32 {
                                    k &= 0xffff_ffff;
                                }
                            }
                            cv(k)
                        } else {
                            let e = self.ex(v, n * 8);
                            let e = if sx { self.x.sext(e, w) } else { self.x.zext(e, w) };
                            self.val(e)
                        };
                        *self.st.stack.last_mut().unwrap() = r;
                    }
                    I::Store { n, off } => {
                        let (a, v) = (top!(1), top!(0));
                        let p = if a.e == 0 {
                            a.v as u32 as u64
                        } else {
                            let e = self.ex(a, 32);
                            self.conc(Val { v: 0, e })?
                        };
                        self.store(p + off as u64, n, v)?;
                        pop!();
                        pop!();
                    }
                    I::Br { pc: t, h, ar } => jump!(t, h, ar),
                    I::BrIf { pc: t, h, ar } => {
                        let c = top!(0);
                        let b = self.truthy(c)?;
                        pop!();
                        if b {
                            jump!(t, h, ar);
                        }
                    }
                    I::JmpZ(t) => {
                        let c = top!(0);
                        let b = self.truthy(c)?;
                        pop!();
                        if !b {
                            pc = t as usize;
                        }
                    }
                    I::Jmp(t) => pc = t as usize,
                    I::BrTable(ti) => {
                        let c = top!(0);
                        let tab = &func.br_tables[ti as usize];
                        let last = tab.len() - 1;
                        let k = if c.e == 0 {
                            (c.v as u32 as usize).min(last)
                        } else {
                            self.br_table(c, tab)?
                        };
                        pop!();
                        let (t, h, ar) = tab[k];
                        jump!(t, h, ar);
                    }
                    I::Call(_) | I::CallIndirect(_) => {
                        let f = match ins {
                            I::Call(f) => f,
                            I::CallIndirect(ty) => {
                                let c = top!(0);
                                let k = if c.e == 0 {
                                    c.v as u32
                                } else {
                                    let e = self.ex(c, 32);
                                    self.conc(Val { v: 0, e })? as u32
                                };
                                let f = match m.table.get(k as usize).copied().flatten() {
                                    Some(f) => f,
                                    None => return Err(Stop::Violation("trap".into(), "indirect call of nothing".into())),
                                };
                                if m.types[m.functype[f as usize]] != m.types[ty as usize] {
                                    return Err(Stop::Violation("trap".into(), "indirect call type mismatch".into()));
                                }
                                f
                            }
                            _ => unreachable!(),
                        };
                        let f = if f < ni { *m.links.get(&f).unwrap_or(&f) } else { f };
                        let drop_ix = matches!(ins, I::CallIndirect(_)) as usize;
                        let host = self.hosts.get(&f).copied().filter(|h| *h <= H_DEBUG || self.debug_symbolic(*h, drop_ix, m.types[m.functype[f as usize]].params));
                        if let Some(h) = host {
                            let ft = &m.types[m.functype[f as usize]];
                            let np = ft.params;
                            let n = self.st.stack.len() - drop_ix;
                            let args: Vec<Val> = self.st.stack[n - np..n].to_vec();
                            let r = self.host(h, &args)?;
                            self.st.stack.truncate(n - np);
                            if ft.results == 1 {
                                self.st.stack.push(r.unwrap_or(cv(0)));
                            }
                            continue;
                        }
                        if drop_ix == 1 {
                            pop!();
                        }
                        if f < ni {
                            return Err(Stop::Incomplete(format!("call of import {}.{}", m.imports[f as usize].0, m.imports[f as usize].1)));
                        }
                        if self.st.frames.len() > 20000 || self.st.instrs > self.o.max_instr {
                            return Err(Stop::Incomplete("call depth or instruction bound of a path reached".into()));
                        }
                        self.visited[f as usize] = true;
                        let callee = &m.funcs[(f - ni) as usize];
                        let nb = self.st.stack.len() - callee.nparams;
                        for _ in callee.nparams..callee.nlocals {
                            self.st.stack.push(cv(0));
                        }
                        self.st.frames.last_mut().unwrap().pc = pc as u32;
                        self.st.frames.push(Frame { f: f - ni, pc: 0, base: nb as u32 });
                        if self.hash_ones[f as usize] && self.st.hone.is_none() {
                            self.st.hone = Some((self.st.frames.len(), self.st.globals[0].v as u32, vec![]));
                        }
                        continue 'frame;
                    }
                    I::Return => {
                        if self.st.hone.as_ref().is_some_and(|h| h.0 == self.st.frames.len()) {
                            let b = self.st.hone.as_ref().unwrap().2.clone();
                            let v = top!(0);
                            let r = self.ideal(b, Some(v))?;
                            *self.st.stack.last_mut().unwrap() = cv(u64::from_le_bytes(r[..8].try_into().unwrap()));
                            self.st.hone = None;
                        }
                        if func.nresults == 1 {
                            let v = pop!();
                            self.st.stack.truncate(base);
                            self.st.stack.push(v);
                        } else {
                            self.st.stack.truncate(base);
                        }
                        self.st.frames.pop();
                        continue 'frame;
                    }
                    I::Drop => {
                        pop!();
                    }
                    I::Select => {
                        let (a, b, c) = (top!(2), top!(1), top!(0));
                        let r = if c.e == 0 {
                            if c.v as u32 != 0 {
                                a
                            } else {
                                b
                            }
                        } else if a.e == b.e && a.v == b.v {
                            a
                        } else {
                            let wa = if a.e != 0 {
                                self.x.w(a.e)
                            } else if a.v >> 32 == 0 {
                                32
                            } else {
                                64
                            };
                            let wb = if b.e != 0 {
                                self.x.w(b.e)
                            } else if b.v >> 32 == 0 {
                                32
                            } else {
                                64
                            };
                            let w = wa.max(wb);
                            let ce = self.ex(c, 32);
                            let z = self.x.k(0, 32);
                            let q = self.x.eq(ce, z);
                            let (ae, be) = (self.ex(a, w), self.ex(b, w));
                            let r = self.x.ite(q, be, ae);
                            self.val(r)
                        };
                        pop!();
                        pop!();
                        *self.st.stack.last_mut().unwrap() = r;
                    }
                    I::GlobalGet(i) => {
                        let v = self.st.globals[i as usize];
                        self.st.stack.push(v);
                    }
                    I::GlobalSet(i) => {
                        let v = pop!();
                        self.st.globals[i as usize] = v;
                    }
                    I::MemSize => {
                        let n = self.st.size() / 65536;
                        self.st.stack.push(cv(n));
                    }
                    I::MemGrow => {
                        return Err(Stop::Incomplete("memory.grow".into()));
                    }
                    I::MemCopy | I::MemFill => {
                        let n = self.st.stack.len();
                        let args = [self.st.stack[n - 3], self.st.stack[n - 2], self.st.stack[n - 1]];
                        self.host(if ins == I::MemCopy { H_MEMCPY } else { H_MEMSET }, &args)?;
                        self.st.stack.truncate(n - 3);
                    }
                    I::TruncSat(k) => {
                        let a = top!(0);
                        let v = self.conc(a)?;
                        let f = if k & 2 == 0 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                        let r = match k {
                            0 | 2 => f as i32 as u32 as u64,
                            1 | 3 => f as u32 as u64,
                            4 | 6 => f as i64 as u64,
                            _ => f as u64,
                        };
                        *self.st.stack.last_mut().unwrap() = cv(r);
                    }
                    I::Unreachable => return Err(Stop::Violation("trap".into(), "unreachable executed".into())),
                }
            }
        }
    }
    fn br_table(&mut self, c: Val, tab: &[(u32, u32, u8)]) -> Rs<usize> {
        let e0 = self.ex(c, 32);
        let e = self.sub(e0);
        if let Some(k) = self.x.cv(e) {
            return Ok((k as usize).min(tab.len() - 1));
        }
        let last = tab.len() - 1;
        let mut targets: Vec<usize> = vec![]; // representative index of each target other than the default
        for i in 0..last {
            if tab[i] != tab[last] && !targets.iter().any(|t| tab[*t] == tab[i]) {
                targets.push(i);
            }
        }
        for t in targets {
            let mut cond = self.x.k(0, 1);
            let mut i = 0;
            while i < last {
                if tab[i] == tab[t] {
                    let lo = i;
                    while i < last && tab[i] == tab[t] {
                        i += 1;
                    }
                    let k = self.x.k(lo as u64, 32);
                    let r = if i - lo == 1 {
                        self.x.eq(e, k)
                    } else {
                        let d = self.x.sub(e, k);
                        let n = self.x.k((i - lo) as u64, 32);
                        self.x.ult(d, n)
                    };
                    cond = self.x.or(cond, r);
                } else {
                    i += 1;
                }
            }
            if self.branch(cond)? {
                return Ok(t);
            }
        }
        Ok(last)
    }
    fn bin_c(&mut self, op: u8, a: u64, b: u64) -> Rs<Val> {
        let (x, y) = (a as u32, b as u32);
        let (sx, sy) = (x as i32, y as i32);
        let (ta, tb) = (a as i64, b as i64);
        let bl = |c: bool| c as u64;
        let trap = |s: &str| Err(Stop::Violation("trap".into(), s.into()));
        Ok(cv(match op {
            0x46 => bl(x == y),
            0x47 => bl(x != y),
            0x48 => bl(sx < sy),
            0x49 => bl(x < y),
            0x4a => bl(sx > sy),
            0x4b => bl(x > y),
            0x4c => bl(sx <= sy),
            0x4d => bl(x <= y),
            0x4e => bl(sx >= sy),
            0x4f => bl(x >= y),
            0x51 => bl(a == b),
            0x52 => bl(a != b),
            0x53 => bl(ta < tb),
            0x54 => bl(a < b),
            0x55 => bl(ta > tb),
            0x56 => bl(a > b),
            0x57 => bl(ta <= tb),
            0x58 => bl(a <= b),
            0x59 => bl(ta >= tb),
            0x5a => bl(a >= b),
            0x5b..=0x60 => {
                let (p, q) = (f32::from_bits(x), f32::from_bits(y));
                bl(match op {
                    0x5b => p == q,
                    0x5c => p != q,
                    0x5d => p < q,
                    0x5e => p > q,
                    0x5f => p <= q,
                    _ => p >= q,
                })
            }
            0x61..=0x66 => {
                let (p, q) = (f64::from_bits(a), f64::from_bits(b));
                bl(match op {
                    0x61 => p == q,
                    0x62 => p != q,
                    0x63 => p < q,
                    0x64 => p > q,
                    0x65 => p <= q,
                    _ => p >= q,
                })
            }
            0x6a => x.wrapping_add(y) as u64,
            0x6b => x.wrapping_sub(y) as u64,
            0x6c => x.wrapping_mul(y) as u64,
            0x6d | 0x6f if y == 0 => return trap("division by zero"),
            0x6e | 0x70 if y == 0 => return trap("division by zero"),
            0x6d => {
                if sx == i32::MIN && sy == -1 {
                    return trap("division overflow");
                }
                (sx / sy) as u32 as u64
            }
            0x6e => (x / y) as u64,
            0x6f => sx.wrapping_rem(sy) as u32 as u64,
            0x70 => (x % y) as u64,
            0x71 => (x & y) as u64,
            0x72 => (x | y) as u64,
            0x73 => (x ^ y) as u64,
            0x74 => x.wrapping_shl(y) as u64,
            0x75 => sx.wrapping_shr(y) as u32 as u64,
            0x76 => x.wrapping_shr(y) as u64,
            0x77 => x.rotate_left(y % 32) as u64,
            0x78 => x.rotate_right(y % 32) as u64,
            0x7c => a.wrapping_add(b),
            0x7d => a.wrapping_sub(b),
            0x7e => a.wrapping_mul(b),
            0x7f..=0x82 if b == 0 => return trap("division by zero"),
            0x7f => {
                if ta == i64::MIN && tb == -1 {
                    return trap("division overflow");
                }
                (ta / tb) as u64
            }
            0x80 => a / b,
            0x81 => ta.wrapping_rem(tb) as u64,
            0x82 => a % b,
            0x83 => a & b,
            0x84 => a | b,
            0x85 => a ^ b,
            0x86 => a.wrapping_shl(b as u32),
            0x87 => ta.wrapping_shr(b as u32) as u64,
            0x88 => a.wrapping_shr(b as u32),
            0x89 => a.rotate_left((b % 64) as u32),
            0x8a => a.rotate_right((b % 64) as u32),
            0x92..=0x98 => {
                let (p, q) = (f32::from_bits(x), f32::from_bits(y));
                (match op {
                    0x92 => p + q,
                    0x93 => p - q,
                    0x94 => p * q,
                    0x95 => p / q,
                    0x96 => p.min(q),
                    0x97 => p.max(q),
                    _ => p.copysign(q),
                })
                .to_bits() as u64
            }
            0xa0..=0xa6 => {
                let (p, q) = (f64::from_bits(a), f64::from_bits(b));
                (match op {
                    0xa0 => p + q,
                    0xa1 => p - q,
                    0xa2 => p * q,
                    0xa3 => p / q,
                    0xa4 => p.min(q),
                    0xa5 => p.max(q),
                    _ => p.copysign(q),
                })
                .to_bits()
            }
            _ => return Err(Stop::Incomplete(format!("binary opcode {op:x}"))),
        }))
    }
    fn bin_s(&mut self, op: u8, a: Val, b: Val) -> Rs<Val> {
        let w: u8 = match op {
            0x46..=0x4f | 0x6a..=0x78 => 32,
            0x51..=0x5a | 0x7c..=0x8a => 64,
            _ => {
                // floating point: enumerate the values
                let p = self.conc(a)?;
                let q = self.conc(b)?;
                return self.bin_c(op, p, q);
            }
        };
        let p = self.ex(a, w);
        let q = self.ex(b, w);
        let o = if w == 64 { op } else { op };
        let x = &mut self.x;
        let r = match o {
            0x46 | 0x51 => {
                let e = x.eq(p, q);
                return Ok(self.flag(e));
            }
            0x47 | 0x52 => {
                let e = x.eq(p, q);
                let e = x.not(e);
                return Ok(self.flag(e));
            }
            0x48 | 0x53 => {
                let e = x.slt(p, q);
                return Ok(self.flag(e));
            }
            0x49 | 0x54 => {
                let e = x.ult(p, q);
                return Ok(self.flag(e));
            }
            0x4a | 0x55 => {
                let e = x.slt(q, p);
                return Ok(self.flag(e));
            }
            0x4b | 0x56 => {
                let e = x.ult(q, p);
                return Ok(self.flag(e));
            }
            0x4c | 0x57 => {
                let e = x.slt(q, p);
                let e = x.not(e);
                return Ok(self.flag(e));
            }
            0x4d | 0x58 => {
                let e = x.ult(q, p);
                let e = x.not(e);
                return Ok(self.flag(e));
            }
            0x4e | 0x59 => {
                let e = x.slt(p, q);
                let e = x.not(e);
                return Ok(self.flag(e));
            }
            0x4f | 0x5a => {
                let e = x.ult(p, q);
                let e = x.not(e);
                return Ok(self.flag(e));
            }
            0x6a | 0x7c => x.add(p, q),
            0x6b | 0x7d => x.sub(p, q),
            0x6c | 0x7e => x.mul(p, q),
            0x71 | 0x83 => x.and(p, q),
            0x72 | 0x84 => x.or(p, q),
            0x73 | 0x85 => x.xor(p, q),
            0x6d..=0x70 | 0x7f..=0x82 => {
                let z = self.x.k(0, w);
                let iz = self.x.eq(q, z);
                if self.branch(iz)? {
                    return Err(Stop::Violation("trap".into(), "division by zero".into()));
                }
                if op == 0x6d || op == 0x7f {
                    let mn = self.x.k(1u64 << (w - 1), w);
                    let m1 = self.x.k(!0, w);
                    let c1 = self.x.eq(p, mn);
                    let c2 = self.x.eq(q, m1);
                    let c = self.x.and(c1, c2);
                    if self.branch(c)? {
                        return Err(Stop::Violation("trap".into(), "division overflow".into()));
                    }
                }
                let x = &mut self.x;
                match op {
                    0x6d | 0x7f => x.sdiv(p, q),
                    0x6e | 0x80 => x.udiv(p, q),
                    0x6f | 0x81 => x.srem(p, q),
                    _ => x.urem(p, q),
                }
            }
            0x74 | 0x75 | 0x76 | 0x86 | 0x87 | 0x88 => {
                let mk = x.k(w as u64 - 1, w);
                let s = x.and(q, mk);
                match o {
                    0x74 | 0x86 => x.shl(p, s),
                    0x75 | 0x87 => x.ashr(p, s),
                    _ => x.lshr(p, s),
                }
            }
            0x77 | 0x78 | 0x89 | 0x8a => {
                let s = if b.e == 0 { b.v } else { self.conc(Val { v: 0, e: q })? };
                let mut s = (s % w as u64) as u8;
                if o == 0x78 || o == 0x8a {
                    s = (w - s) % w;
                }
                if s == 0 {
                    p
                } else {
                    let hi = self.x.extract(p, 0, w - s);
                    let lo = self.x.extract(p, w - s, s);
                    self.x.concat(hi, lo)
                }
            }
            _ => return Err(Stop::Incomplete(format!("symbolic opcode {op:x}"))),
        };
        Ok(self.val(r))
    }
    fn un_s(&mut self, op: u8, a: Val) -> Rs<Val> {
        let r = match op {
            0x45 | 0x50 => {
                let w = if op == 0x45 { 32 } else { 64 };
                let e = self.ex(a, w);
                let z = self.x.k(0, w);
                let q = self.x.eq(e, z);
                return Ok(self.flag(q));
            }
            0x67 | 0x79 | 0x68 | 0x7a => {
                let w = if op < 0x70 { 32u8 } else { 64 };
                let e = self.ex(a, w);
                let ctz = op == 0x68 || op == 0x7a;
                let mut r = self.x.k(w as u64, w);
                // the decisive bit is tested last, so build from the far end
                for i in 0..w {
                    let bit = if ctz { w - 1 - i } else { i };
                    let b = self.x.extract(e, bit, 1);
                    let cnt = if ctz { bit } else { w - 1 - bit };
                    let k = self.x.k(cnt as u64, w);
                    r = self.x.ite(b, k, r);
                }
                r
            }
            0x69 | 0x7b => {
                let w = if op < 0x70 { 32u8 } else { 64 };
                let e = self.ex(a, w);
                let mut r = self.x.k(0, w);
                for i in 0..w {
                    let b = self.x.extract(e, i, 1);
                    let z = self.x.zext(b, w);
                    r = self.x.add(r, z);
                }
                r
            }
            0xa7 => self.ex(a, 32),
            0xac => {
                let e = self.ex(a, 32);
                self.x.sext(e, 64)
            }
            0xad => {
                let e = self.ex(a, 32);
                self.x.zext(e, 64)
            }
            0xbc | 0xbe => self.ex(a, 32),
            0xbd | 0xbf => self.ex(a, 64),
            0xc0 | 0xc1 => {
                let e = self.ex(a, if op == 0xc0 { 8 } else { 16 });
                self.x.sext(e, 32)
            }
            0xc2 | 0xc3 | 0xc4 => {
                let e = self.ex(a, 8 << (op - 0xc2));
                self.x.sext(e, 64)
            }
            0x8b | 0x99 => {
                // float abs: clear the sign bit
                let w = if op == 0x8b { 32 } else { 64 };
                let e = self.ex(a, w);
                let e = self.x.extract(e, 0, w - 1);
                self.x.zext(e, w)
            }
            _ => {
                let v = self.conc(a)?;
                return Ok(cv(un_c(op, v)?));
            }
        };
        Ok(self.val(r))
    }
}

fn un_c(op: u8, a: u64) -> Rs<u64> {
    let x = a as u32;
    let f = f32::from_bits(x);
    let d = f64::from_bits(a);
    let trap = || Err(Stop::Violation("trap".into(), "float conversion".into()));
    Ok(match op {
        0x45 => (x == 0) as u64,
        0x50 => (a == 0) as u64,
        0x67 => x.leading_zeros() as u64,
        0x68 => x.trailing_zeros() as u64,
        0x69 => x.count_ones() as u64,
        0x79 => a.leading_zeros() as u64,
        0x7a => a.trailing_zeros() as u64,
        0x7b => a.count_ones() as u64,
        0x8b => f.abs().to_bits() as u64,
        0x8c => (-f).to_bits() as u64,
        0x8d => f.ceil().to_bits() as u64,
        0x8e => f.floor().to_bits() as u64,
        0x8f => f.trunc().to_bits() as u64,
        0x91 => f.sqrt().to_bits() as u64,
        0x99 => d.abs().to_bits(),
        0x9a => (-d).to_bits(),
        0x9b => d.ceil().to_bits(),
        0x9c => d.floor().to_bits(),
        0x9d => d.trunc().to_bits(),
        0x9f => d.sqrt().to_bits(),
        0xa7 => x as u64,
        0xa8 => {
            if f.is_nan() || f >= 2147483648.0 || f < -2147483648.0 {
                return trap();
            }
            f as i32 as u32 as u64
        }
        0xa9 => {
            if f.is_nan() || f >= 4294967296.0 || f <= -1.0 {
                return trap();
            }
            f as u32 as u64
        }
        0xaa => {
            if d.is_nan() || d >= 2147483648.0 || d <= -2147483649.0 {
                return trap();
            }
            d as i32 as u32 as u64
        }
        0xab => {
            if d.is_nan() || d >= 4294967296.0 || d <= -1.0 {
                return trap();
            }
            d as u32 as u64
        }
        0xac => x as i32 as i64 as u64,
        0xad => x as u64,
        0xae => f as i64 as u64,
        0xaf => f as u64,
        0xb0 => d as i64 as u64,
        0xb1 => d as u64,
        0xb2 => (x as i32 as f32).to_bits() as u64,
        0xb3 => (x as f32).to_bits() as u64,
        0xb4 => (a as i64 as f32).to_bits() as u64,
        0xb5 => (a as f32).to_bits() as u64,
        0xb6 => (d as f32).to_bits() as u64,
        0xb7 => (x as i32 as f64).to_bits(),
        0xb8 => (x as f64).to_bits(),
        0xb9 => (a as i64 as f64).to_bits(),
        0xba => (a as f64).to_bits(),
        0xbb => (f as f64).to_bits(),
        0xbc | 0xbe => x as u64,
        0xbd | 0xbf => a,
        0xc0 => x as i8 as i32 as u32 as u64,
        0xc1 => x as i16 as i32 as u32 as u64,
        0xc2 => a as i8 as i64 as u64,
        0xc3 => a as i16 as i64 as u64,
        0xc4 => a as i32 as i64 as u64,
        _ => return Err(Stop::Incomplete(format!("unary opcode {op:x}"))),
    })
}
