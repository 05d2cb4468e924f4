//! Hash-consed bit-vector expressions over symbolic bytes, with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32; // 0: no expression

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub v: u64,
}

pub const NSYM: usize = 512;
pub type Supp = [u64; NSYM / 64];

pub struct Ctx {
    pub n: Vec<Node>,
    pub supp: Vec<u32>, // index into supps
    pub supps: Vec<Supp>,
    supp_ix: FxMap<Supp, u32>,
    map: FxMap<Node, E>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u64>,
    gen: u32,
    truth: FxMap<E, [u64; 4]>,
    extracts: FxMap<(E, u8, u8), E>,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

pub fn supp_empty(s: &Supp) -> bool {
    s.iter().all(|x| *x == 0)
}
pub fn supp_meet(a: &Supp, b: &Supp) -> bool {
    a.iter().zip(b).any(|(x, y)| x & y != 0)
}
pub fn supp_or(a: &mut Supp, b: &Supp) {
    for i in 0..a.len() {
        a[i] |= b[i]
    }
}
pub fn supp_single(s: &Supp) -> Option<u32> {
    let mut r = None;
    for (i, x) in s.iter().enumerate() {
        if *x != 0 {
            if r.is_some() || x & (x - 1) != 0 {
                return None;
            }
            r = Some((i * 64) as u32 + x.trailing_zeros());
        }
    }
    r
}
pub fn supp_iter(s: &Supp) -> Vec<u32> {
    let mut r = vec![];
    for (i, x) in s.iter().enumerate() {
        let mut x = *x;
        while x != 0 {
            r.push((i * 64) as u32 + x.trailing_zeros());
            x &= x - 1;
        }
    }
    r
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            n: vec![],
            supp: vec![],
            supps: vec![[0; NSYM / 64]],
            supp_ix: Default::default(),
            map: Default::default(),
            ev_gen: vec![],
            ev_val: vec![],
            gen: 0,
            truth: Default::default(),
            extracts: Default::default(),
        };
        c.supp_ix.insert([0; NSYM / 64], 0);
        // index 0 is "none"
        c.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, v: 0 });
        c.supp.push(0);
        c
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(e) = self.map.get(&nd) {
            return *e;
        }
        let e = self.n.len() as E;
        self.n.push(nd);
        let s = match nd.op {
            Op::Const => 0,
            Op::Sym => {
                let mut s = [0u64; NSYM / 64];
                s[(nd.v / 64) as usize] |= 1 << (nd.v % 64);
                self.supp_id(s)
            }
            _ => {
                let (a, b, c) = (self.supp[nd.a as usize], self.supp[nd.b as usize], self.supp[nd.c as usize]);
                if b == 0 && c == 0 || (a == b && c == 0) {
                    a
                } else {
                    let mut s = self.supps[a as usize];
                    if b != 0 {
                        let t = self.supps[b as usize];
                        supp_or(&mut s, &t);
                    }
                    if c != 0 {
                        let t = self.supps[c as usize];
                        supp_or(&mut s, &t);
                    }
                    self.supp_id(s)
                }
            }
        };
        self.supp.push(s);
        self.map.insert(nd, e);
        e
    }
    fn supp_id(&mut self, s: Supp) -> u32 {
        if let Some(i) = self.supp_ix.get(&s) {
            return *i;
        }
        let i = self.supps.len() as u32;
        self.supps.push(s);
        self.supp_ix.insert(s, i);
        i
    }
    pub fn support(&self, e: E) -> &Supp {
        &self.supps[self.supp[e as usize] as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn cv(&self, e: E) -> Option<u64> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn k(&mut self, v: u64, w: u8) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    pub fn sym(&mut self, i: u32) -> E {
        assert!((i as usize) < NSYM, "too many symbolic bytes on one path");
        self.intern(Node { op: Op::Sym, w: 8, a: 0, b: 0, c: 0, v: i as u64 })
    }
    fn raw(&mut self, op: Op, w: u8, a: E, b: E, c: E, v: u64) -> E {
        self.intern(Node { op, w, a, b, c, v })
    }
    /// mask of the bits that may be one
    pub fn ones(&self, e: E) -> u64 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => n.v,
            Op::Concat => {
                let wl = self.w(n.b);
                (self.ones(n.a) << wl) | self.ones(n.b)
            }
            Op::Ite => match (self.cv(n.b), self.cv(n.c)) {
                (Some(x), Some(y)) => x | y,
                _ => mask(n.w),
            },
            _ => mask(n.w),
        }
    }
    fn lz(&self, e: E) -> u8 {
        let w = self.w(e);
        let o = self.ones(e);
        (o.leading_zeros() as u8).saturating_sub(64 - w)
    }
    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let n = self.n[e as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return e;
        }
        // expressions share their parts: without this, long sums are gone through again and again
        let shared = matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::Ite);
        if shared {
            if let Some(r) = self.extracts.get(&(e, lo, w)) {
                return *r;
            }
        }
        let r = self.extract_of(e, lo, w);
        if shared {
            self.extracts.insert((e, lo, w), r);
        }
        r
    }
    fn extract_of(&mut self, e: E, lo: u8, w: u8) -> E {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => self.k(n.v >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.v as u8, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    self.extract(n.a, lo - wb, w)
                } else if lo + w <= wb {
                    self.extract(n.b, lo, w)
                } else {
                    let h = self.extract(n.a, 0, lo + w - wb);
                    let l = self.extract(n.b, lo, wb - lo);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                match n.op {
                    Op::Add => self.add(a, b),
                    Op::Sub => self.sub(a, b),
                    _ => self.mul(a, b),
                }
            }
            Op::Ite => {
                let a = self.extract(n.b, lo, w);
                let b = self.extract(n.c, lo, w);
                self.ite(n.a, a, b)
            }
            Op::SExt => {
                let wx = self.w(n.a);
                if lo + w <= wx {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else if lo < wx {
                    let x = self.extract(n.a, lo, wx - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(n.a, wx - 1, 1);
                    self.sext(x, w)
                }
            }
            _ => self.raw(Op::Extract, w, e, 0, 0, lo as u64),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        let w = nh.w + nl.w;
        debug_assert!(w <= 64);
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if let Some(m) = self.try_merge(hi, lo) {
            return m;
        }
        if nl.op == Op::Concat {
            if let Some(m) = self.try_merge(hi, nl.a) {
                return self.concat(m, nl.b);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    fn try_merge(&mut self, hi: E, lo: E) -> Option<E> {
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        if nh.op == Op::Const && nl.op == Op::Const {
            return Some(self.k((nh.v << nl.w) | nl.v, nh.w + nl.w));
        }
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nh.a == nl.a && nh.v == nl.v + nl.w as u64 {
                return Some(self.extract(nh.a, nl.v as u8, nh.w + nl.w));
            }
        }
        None
    }
    pub fn zext(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        let z = self.k(0, w - we);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let n = self.n[e as usize];
        if n.w == w {
            return e;
        }
        if n.op == Op::Const {
            return self.k(sx(n.v, n.w) as u64, w);
        }
        if self.lz(e) > 0 {
            return self.zext(e, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.raw(Op::SExt, w, e, 0, 0, 0)
    }
    fn runs(m: u64, w: u8) -> u32 {
        // number of maximal runs of equal bits
        let m = m & mask(w);
        let x = (m ^ (m >> 1)) & mask(w - 1);
        x.count_ones() + 1
    }
    /// cut positions of concat pieces (from low to high), including w
    fn cuts(&self, e: E, base: u8, out: &mut Vec<u8>) {
        let n = self.n[e as usize];
        if n.op == Op::Concat {
            self.cuts(n.b, base, out);
            self.cuts(n.a, base + self.w(n.b), out);
        } else {
            out.push(base + n.w);
        }
    }
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op != Op::Concat && nb.op != Op::Concat {
            return None;
        }
        let mut cs = vec![];
        self.cuts(a, 0, &mut cs);
        self.cuts(b, 0, &mut cs);
        cs.sort();
        cs.dedup();
        if cs.len() < 2 || cs.len() > 34 {
            return None;
        }
        let mut segs = vec![];
        let mut lo = 0;
        let mut good = false;
        for c in &cs {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            if self.cv(x).is_some() || self.cv(y).is_some() || x == y {
                good = true;
            }
            segs.push((x, y));
            lo = *c;
        }
        if !good && !(na.op == Op::Concat && nb.op == Op::Concat && cs.len() <= 8) {
            return None;
        }
        let mut r = 0;
        for (x, y) in segs {
            let z = match op {
                Op::And => self.and(x, y),
                Op::Or => self.or(x, y),
                _ => self.xor(x, y),
            };
            r = if r == 0 { z } else { self.concat(z, r) };
        }
        Some(r)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if a == b {
            return a;
        }
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.k(na.v & nb.v, w);
        }
        if nb.op == Op::Const {
            if nb.v == 0 {
                return b;
            }
            if nb.v == mask(w) {
                return a;
            }
            if Self::runs(nb.v, w) <= 17 {
                return self.mask_pieces(a, nb.v, w, true);
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.k(0, 1);
            }
            // absorption
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return b;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return a;
            }
        } else if let Some(r) = self.split_bitwise(Op::And, a, b) {
            return r;
        }
        self.raw(Op::And, w, a, b, 0, 0)
    }
    fn mask_pieces(&mut self, a: E, m: u64, w: u8, is_and: bool) -> E {
        let mut r = 0;
        let mut lo = 0u8;
        while lo < w {
            let bit = (m >> lo) & 1;
            let mut hi = lo + 1;
            while hi < w && (m >> hi) & 1 == bit {
                hi += 1;
            }
            let z = if (bit == 1) == is_and {
                self.extract(a, lo, hi - lo)
            } else {
                self.k(if is_and { 0 } else { !0 }, hi - lo)
            };
            r = if r == 0 { z } else { self.concat(z, r) };
            lo = hi;
        }
        r
    }
    fn ord(&self, a: E, b: E) -> (E, E) {
        // constants to the right, otherwise by index
        if self.n[a as usize].op == Op::Const {
            (b, a)
        } else if self.n[b as usize].op == Op::Const {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let f = |x: E, y: E| {
            let n = self.n[x as usize];
            n.op == Op::Xor && n.a == y && self.cv(n.b) == Some(1)
        };
        f(a, b) || f(b, a)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if a == b {
            return a;
        }
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.k(na.v | nb.v, w);
        }
        if nb.op == Op::Const {
            if nb.v == 0 {
                return a;
            }
            if nb.v == mask(w) {
                return b;
            }
            if Self::runs(nb.v, w) <= 17 {
                return self.mask_pieces(a, nb.v, w, false);
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.k(1, 1);
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
        } else if let Some(r) = self.split_bitwise(Op::Or, a, b) {
            return r;
        }
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if a == b {
            return self.k(0, w);
        }
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.k(na.v ^ nb.v, w);
        }
        if nb.op == Op::Const {
            if nb.v == 0 {
                return a;
            }
            if na.op == Op::Xor {
                if let Some(c) = self.cv(na.b) {
                    let k = self.k(c ^ nb.v, w);
                    return self.xor(na.a, k);
                }
            }
            if na.op == Op::Ite && w > 1 {
                if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) {
                    let (x, y) = (self.k(x ^ nb.v, w), self.k(y ^ nb.v, w));
                    return self.ite(na.a, x, y);
                }
            }
        }
        if w > 1 {
            if let Some(r) = self.split_bitwise(Op::Xor, a, b) {
                return r;
            }
        }
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let o = self.k(1, 1);
        self.xor(a, o)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        if self.w(a) == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.k(na.v.wrapping_add(nb.v), w);
            }
            if nb.v == 0 {
                return a;
            }
            if na.op == Op::Add {
                if let Some(c) = self.cv(na.b) {
                    let k = self.k(c.wrapping_add(nb.v), w);
                    return self.add(na.a, k);
                }
            }
            if na.op == Op::Ite {
                if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) {
                    let (x, y) = (self.k(x.wrapping_add(nb.v), w), self.k(y.wrapping_add(nb.v), w));
                    return self.ite(na.a, x, y);
                }
            }
        }
        if self.ones(a) & self.ones(b) == 0 {
            return self.or(a, b);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // move constants outwards
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let x = self.add(na.a, b);
            return self.add(x, na.b);
        }
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let x = self.add(a, nb.a);
            return self.add(x, nb.b);
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if self.w(a) == 1 {
            return self.xor(a, b);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if a == b {
            return self.k(0, w);
        }
        if nb.op == Op::Const {
            let k = self.k(nb.v.wrapping_neg(), w);
            return self.add(a, k);
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.cv(na.b).is_some() {
                let x = self.sub(na.a, b);
                return self.add(x, na.b);
            }
        }
        if nb.op == Op::Add {
            if let Some(c) = self.cv(nb.b) {
                let x = self.sub(a, nb.a);
                let k = self.k(c.wrapping_neg(), w);
                return self.add(x, k);
            }
        }
        self.raw(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        if self.w(a) == 1 {
            return self.and(a, b);
        }
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.k(na.v.wrapping_mul(nb.v), w);
            }
            if nb.v == 0 {
                return b;
            }
            if nb.v == 1 {
                return a;
            }
            if nb.v.is_power_of_two() {
                let k = self.k(nb.v.trailing_zeros() as u64, w);
                return self.shl(a, k);
            }
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if nb.op == Op::Const && nb.v != 0 {
            if na.op == Op::Const {
                return self.k(na.v / nb.v, na.w);
            }
            if nb.v.is_power_of_two() {
                let k = self.k(nb.v.trailing_zeros() as u64, na.w);
                return self.lshr(a, k);
            }
        }
        self.raw(Op::UDiv, na.w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if nb.op == Op::Const && nb.v != 0 {
            if na.op == Op::Const {
                return self.k(na.v % nb.v, na.w);
            }
            if nb.v.is_power_of_two() {
                let k = self.k(nb.v - 1, na.w);
                return self.and(a, k);
            }
        }
        self.raw(Op::URem, na.w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            if nb.v != 0 {
                return self.k(sx(na.v, na.w).wrapping_div(sx(nb.v, na.w)) as u64, na.w);
            }
        }
        self.raw(Op::SDiv, na.w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            if nb.v != 0 {
                return self.k(sx(na.v, na.w).wrapping_rem(sx(nb.v, na.w)) as u64, na.w);
            }
        }
        self.raw(Op::SRem, na.w, a, b, 0, 0)
    }
    /// shift amounts must already be < w
    pub fn shl(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if nb.op == Op::Const {
            let k = nb.v as u8;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, 0, w - k);
            let z = self.k(0, k);
            return self.concat(x, z);
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if nb.op == Op::Const {
            let k = nb.v as u8;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if nb.op == Op::Const {
            let k = nb.v as u8;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        debug_assert_eq!(w, nb.w);
        if a == b {
            return self.k(1, 1);
        }
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.k((na.v == nb.v) as u64, 1);
        }
        if w == 1 {
            if nb.op == Op::Const {
                return if nb.v == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if nb.op == Op::Const {
            if nb.v & !self.ones(a) != 0 {
                return self.k(0, 1);
            }
            match na.op {
                Op::Xor => {
                    if let Some(c) = self.cv(na.b) {
                        let k = self.k(c ^ nb.v, w);
                        return self.eq(na.a, k);
                    }
                    if nb.v == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or if nb.v == 0 => {
                    let x = self.eq(na.a, b);
                    let y = self.eq(na.b, b);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(c) = self.cv(na.b) {
                        let k = self.k(nb.v.wrapping_sub(c), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Sub => {
                    if nb.v == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(c) = self.cv(na.a) {
                        let k = self.k(c.wrapping_sub(nb.v), w);
                        return self.eq(na.b, k);
                    }
                }
                Op::Ite => {
                    if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::SExt => {
                    let wx = self.w(na.a);
                    let t = nb.v & mask(wx);
                    if sx(t, wx) as u64 & mask(w) == nb.v {
                        let k = self.k(t, wx);
                        return self.eq(na.a, k);
                    }
                    return self.k(0, 1);
                }
                _ => {}
            }
        }
        if na.op == Op::Concat || nb.op == Op::Concat {
            if nb.op == Op::Const || (na.op == Op::Concat && nb.op == Op::Concat) {
                let mut cs = vec![];
                self.cuts(a, 0, &mut cs);
                self.cuts(b, 0, &mut cs);
                cs.sort();
                cs.dedup();
                if cs.len() >= 2 {
                    let mut r = self.k(1, 1);
                    let mut lo = 0;
                    for c in cs {
                        let x = self.extract(a, lo, c - lo);
                        let y = self.extract(b, lo, c - lo);
                        let q = self.eq(x, y);
                        r = self.and(r, q);
                        lo = c;
                    }
                    return r;
                }
            } else {
                // zero-extended value against a plain one
                let (c, o) = if na.op == Op::Concat { (a, b) } else { (b, a) };
                let l = self.lz(c);
                if l > 0 && self.n[o as usize].op != Op::Concat {
                    let h = self.extract(o, w - l, l);
                    let z = self.k(0, l);
                    let q1 = self.eq(h, z);
                    let x = self.extract(c, 0, w - l);
                    let y = self.extract(o, 0, w - l);
                    let q2 = self.eq(x, y);
                    return self.and(q1, q2);
                }
            }
        }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if a == b {
            return self.k(0, 1);
        }
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.k((na.v < nb.v) as u64, 1);
        }
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if nb.op == Op::Const {
            if nb.v == 0 {
                return self.k(0, 1);
            }
            if nb.v == 1 {
                let z = self.k(0, w);
                return self.eq(a, z);
            }
            if self.ones(a) < nb.v {
                return self.k(1, 1);
            }
            if nb.v == mask(w) {
                let q = self.eq(a, b);
                return self.not(q);
            }
        }
        if na.op == Op::Const {
            if na.v == mask(w) || na.v >= self.ones(b) {
                return self.k(0, 1);
            }
            if na.v == 0 {
                let q = self.eq(b, a);
                return self.not(q);
            }
        }
        let l = self.lz(a).min(self.lz(b));
        if l > 0 && l < w {
            let x = self.extract(a, 0, w - l);
            let y = self.extract(b, 0, w - l);
            return self.ult(x, y);
        }
        // low bits all known zero on both sides
        let t = ((self.ones(a) | self.ones(b)).trailing_zeros() as u8).min(w - 1);
        if t > 0 {
            let x = self.extract(a, t, w - t);
            let y = self.extract(b, t, w - t);
            return self.ult(x, y);
        }
        if na.op == Op::Ite && nb.op == Op::Const && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && na.op == Op::Const && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if a == b {
            return self.k(0, 1);
        }
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.k((sx(na.v, w) < sx(nb.v, w)) as u64, 1);
        }
        if nb.op == Op::Const && nb.v == 0 {
            return self.extract(a, w - 1, 1);
        }
        if nb.op == Op::Const && nb.v == mask(w) {
            // a < -1  <=> a negative and a != -1
            let s = self.extract(a, w - 1, 1);
            let q = self.eq(a, b);
            let nq = self.not(q);
            return self.and(s, nq);
        }
        if na.op == Op::Const && na.v == mask(w) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if self.lz(a) > 0 && self.lz(b) > 0 {
            return self.ult(a, b);
        }
        if na.op == Op::Ite && nb.op == Op::Const && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(_), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (_, Some(_)) => return self.and(c, a),
                _ => {}
            }
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if w > 1 {
            if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                if x == 1 && y == 0 {
                    return self.zext(c, w);
                }
                if x == 0 && y == 1 {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
            }
            // common leading zeros: keep the value narrow
            let l = self.lz(a).min(self.lz(b));
            if l > 0 && l < w && (na.op == Op::Concat || nb.op == Op::Concat) {
                let x = self.extract(a, 0, w - l);
                let y = self.extract(b, 0, w - l);
                let i = self.ite(c, x, y);
                return self.zext(i, w);
            }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    fn apply(&self, n: &Node, a: u64, b: u64, c: u64) -> u64 {
        let w = n.w;
        let m = mask(w);
        let aw = self.w(n.a);
        (match n.op {
            Op::Const => n.v,
            Op::Sym => unreachable!(),
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            // division by zero as in SMT-LIB (the engine only builds it under b != 0)
            Op::UDiv => {
                if b == 0 {
                    !0
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                if b == 0 {
                    if sx(a, w) < 0 {
                        1
                    } else {
                        !0
                    }
                } else {
                    sx(a, w).wrapping_div(sx(b, w)) as u64
                }
            }
            Op::SRem => {
                if b == 0 {
                    a
                } else {
                    sx(a, w).wrapping_rem(sx(b, w)) as u64
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => (sx(a, w) >> b.min(w as u64 - 1)) as u64,
            Op::Eq => (a == b) as u64,
            Op::Ult => (a < b) as u64,
            Op::Slt => (sx(a, aw) < sx(b, aw)) as u64,
            Op::Ite => {
                if a != 0 {
                    b
                } else {
                    c
                }
            }
            Op::Concat => (a << self.w(n.b)) | b,
            Op::Extract => a >> n.v,
            Op::SExt => sx(a, aw) as u64,
        }) & m
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u64 {
        self.gen += 1;
        if self.gen == u32::MAX {
            self.ev_gen.iter_mut().for_each(|x| *x = 0);
            self.gen = 1;
        }
        let len = self.n.len();
        if self.ev_gen.len() < len {
            self.ev_gen.resize(len, 0);
            self.ev_val.resize(len, 0);
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, model: &[u8]) -> u64 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.v,
            Op::Sym => return model.get(n.v as usize).copied().unwrap_or(0) as u64,
            _ => {}
        }
        if self.ev_gen[e as usize] == self.gen {
            return self.ev_val[e as usize];
        }
        let r = if n.op == Op::Ite {
            if self.eval_rec(n.a, model) != 0 {
                self.eval_rec(n.b, model)
            } else {
                self.eval_rec(n.c, model)
            }
        } else {
            let a = self.eval_rec(n.a, model);
            let b = if n.b != 0 { self.eval_rec(n.b, model) } else { 0 };
            self.apply(&n, a, b, 0)
        };
        self.ev_gen[e as usize] = self.gen;
        self.ev_val[e as usize] = r;
        r
    }
    /// truth table of a condition over the single byte it depends on
    pub fn truth(&mut self, e: E, s: u32) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; s as usize + 1];
        for v in 0..256usize {
            m[s as usize] = v as u8;
            if self.eval(e, &m) != 0 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.truth.insert(e, t);
        t
    }
    /// replace symbols whose value is known
    pub fn subst(&mut self, e: E, known: &[Option<u8>], kset: &Supp, memo: &mut FxMap<E, E>) -> E {
        if !supp_meet(self.support(e), kset) {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.n[e as usize];
        let r = match n.op {
            Op::Const => e,
            Op::Sym => match known.get(n.v as usize).copied().flatten() {
                Some(v) => self.k(v as u64, 8),
                None => e,
            },
            _ => {
                let a = self.subst(n.a, known, kset, memo);
                if n.op == Op::Ite {
                    if let Some(v) = self.cv(a) {
                        let r = if v != 0 { n.b } else { n.c };
                        let r = self.subst(r, known, kset, memo);
                        memo.insert(e, r);
                        return r;
                    }
                }
                let b = if n.b != 0 { self.subst(n.b, known, kset, memo) } else { 0 };
                let c = if n.c != 0 { self.subst(n.c, known, kset, memo) } else { 0 };
                self.rebuild(&n, a, b, c)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn rebuild(&mut self, n: &Node, a: E, b: E, c: E) -> E {
        match n.op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::SRem => self.srem(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Ite => self.ite(a, b, c),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, n.v as u8, n.w),
            Op::SExt => self.sext(a, n.w),
            Op::Const | Op::Sym => unreachable!(),
        }
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.v, n.w),
            Op::Sym => format!("s{}", n.v),
            _ if d == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.v, n.w),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::SExt => format!("sext({},{})", self.show(n.a, d - 1), n.w),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
