//! ic-certificate-verification: who may vouch for which data, and when
use crate::cbor::{enc_arr, enc_bytes, enc_cert};
use crate::spec::*;
use ic_certificate_verification::VerifyCertificate;
use ic_certification::{Certificate, Delegation, LookupResult as LR};
use miracl_core_bls12381::bls12381::bls;

harnesses! {
    c12_window c12_tree c12_large c12_leb c12_leb_t
    c13_plain c13_der c13_delegation c13_subnets c13_large c13_nested c13_tree c13_tree_t c13_delegation_t
    c14_ranges c14_many c14_wide c14_paths c14_bytes c14_mutated c14_ranges_t c14_mutated_t
    c15_history c15_split c15_many c15_delegation c15_history_t
}

pub const DER: &[u8; 37] = b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";
/// a key: 96 bytes of which the outermost are given
pub fn key(a: u8, b: u8) -> Vec<u8> {
    let mut k = vec![0x6b; 96];
    k[0] = a;
    k[95] = b;
    k
}
pub fn der(k: &[u8]) -> Vec<u8> {
    [DER.as_slice(), k].concat()
}
/// the key in a DER encoding
fn raw(d: &[u8]) -> Option<&[u8]> {
    if d.len() != 133 || d[..37] != DER[..] {
        return None;
    }
    Some(&d[37..])
}
pub fn state_root(t: &T) -> Vec<u8> {
    [b"\x0Dic-state-root".as_slice(), &t.digest()].concat()
}
pub fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 127) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 128);
    }
}
type Signed = (Vec<u8>, Vec<u8>, Vec<u8>);
/// was this signed: signature, message, key
fn signed(s: &[Signed], sig: &[u8], msg: &[u8], key: &[u8]) -> bool {
    let mut r = false;
    for x in s {
        r |= x.0.len() == sig.len() && (x.0 == sig) & (x.1 == msg) & (x.2 == key);
    }
    r
}
pub struct D {
    pub subnet: Vec<u8>,
    pub tree: T,
    pub sig: Vec<u8>,
    pub nested: bool,
}
impl D {
    fn bytes(&self) -> Vec<u8> {
        enc_cert(&self.tree, &self.sig, if self.nested { Some((&[1], &[2])) } else { None })
    }
}
pub fn cert(t: &T, sig: &[u8], d: Option<&D>) -> Certificate {
    Certificate {
        tree: t.real(),
        signature: sig.to_vec(),
        delegation: d.map(|d| Delegation { subnet_id: d.subnet.clone(), certificate: d.bytes() }),
    }
}
/// principals are ordered by length first
fn le(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        a.len() < b.len()
    } else {
        a <= b
    }
}
pub fn ranges(r: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![0xd9, 0xd9, 0xf7];
    enc_arr(r.len(), &mut o);
    for (a, b) in r {
        enc_arr(2, &mut o);
        enc_bytes(a, &mut o);
        enc_bytes(b, &mut o);
    }
    o
}
/// what the specification says about signature and delegation; `rs` are the ranges the delegation's tree holds
fn right(s: &[Signed], root: &[u8], t: &T, sig: &[u8], d: Option<&D>, id: &[u8], rs: &dyn Fn(&[u8]) -> bool) -> bool {
    let Some(root) = raw(root) else { return false };
    let Some(d) = d else { return signed(s, sig, &state_root(t), root) };
    let inner = signed(s, &d.sig, &state_root(&d.tree), root);
    if d.nested {
        return false;
    }
    let LR::Found(r) = d.tree.lookup(&path(&[b"subnet", &d.subnet, b"canister_ranges"])) else { return false };
    let r = r.to_vec();
    let LR::Found(k) = d.tree.lookup(&path(&[b"subnet", &d.subnet, b"public_key"])) else { return false };
    let Some(k) = raw(k) else { return false };
    let _ = id;
    rs(&r) && inner & signed(s, sig, &state_root(t), k)
}
fn declare(s: &[Signed]) {
    for x in s {
        bls::declare_signed(&x.0, &x.1, &x.2)
    }
}
const NOW: u128 = 5;
fn go(c: &Certificate, id: &[u8], root: &[u8]) -> bool {
    let r = c.verify(id, root, &NOW, &0).is_ok();
    if r {
        nd::cover("accepted")
    } else {
        nd::cover("rejected")
    }
    r
}
/// a state tree with the present time and some content
fn state(v: u8) -> T {
    fork(lab(b"a", Leaf(vec![v])), lab(b"time", Leaf(vec![NOW as u8])))
}

// ---- C12
/// the number a LEB128 encoding stands for, and its length
fn unleb(b: &[u8]) -> Option<(u128, usize)> {
    let mut v = 0u128;
    for (i, x) in b.iter().enumerate() {
        if i < 18 {
            v |= ((x & 127) as u128) << (7 * i);
        } else if x & 127 != 0 {
            return None;
        }
        if x & 128 == 0 {
            return Some((v, i + 1));
        }
    }
    None
}
fn timely(t: u128, now: u128, off: u128) -> bool {
    (if t > now { t - now } else { now - t }) <= off
}
fn c12_window() {
    let n = nd::range(1, 10);
    let mut b = nd::bytes(n);
    for i in 0..n {
        // the shortest encoding of a 64 bit number
        let last = i + 1 == n;
        nd::assume((b[i] & 128 == 0) == last);
        if last && n > 1 {
            nd::assume(b[i] != 0);
        }
    }
    if n == 10 {
        nd::assume(b[9] == 1);
        b[9] = 1;
    }
    let (t, _) = unleb(&b).unwrap();
    let (now, off) = (nd::u128(), nd::u128());
    let tree = lab(b"time", Leaf(b));
    let c = cert(&tree, &[1], None);
    declare(&[(vec![1], state_root(&tree), key(1, 2))]);
    let ok = c.verify(&[], &der(&key(1, 2)), &now, &off).is_ok();
    if ok {
        nd::cover("accepted")
    } else {
        nd::cover("rejected")
    }
    nd::check(ok == timely(t, now, off), "a certificate is not judged by its time alone");
}
/// any encoding of the time: what is accepted lies in the window
fn c12_leb_(n: usize) {
    let b = nd::bytes(nd::range(0, n));
    let (now, off) = (nd::u64() as u128, nd::u32() as u128);
    let tree = lab(b"time", Leaf(b.clone()));
    let c = cert(&tree, &[1], None);
    declare(&[(vec![1], state_root(&tree), key(1, 2))]);
    if c.verify(&[], &der(&key(1, 2)), &now, &off).is_ok() {
        nd::cover("accepted");
        match unleb(&b) {
            Some((t, _)) => nd::check(timely(t, now, off), "a certificate outside of the window is accepted"),
            None => nd::check(false, "a certificate without a readable time is accepted"),
        }
    } else {
        nd::cover("rejected")
    }
}
fn c12_leb() {
    c12_leb_(4)
}
fn c12_leb_t() {
    c12_leb_(12)
}
/// the time is the one in the tree
fn c12_tree() {
    let v = || Leaf(vec![nd::u8()]);
    let l = nd::pick(&[&b"time"[..], b"tim", b"time1", b"Time", b"timf", b""]);
    let t = match nd::choice(8) {
        0 => lab(l, v()),
        1 => fork(lab(b"a", v()), lab(l, v())),
        2 => fork(lab(b"tima", v()), fork(lab(b"time", v()), lab(b"timf", v()))),
        3 => lab(b"x", lab(b"time", v())),
        4 => fork(Pruned(nd::array()), lab(l, v())),
        5 => lab(b"time", if nd::choice(2) == 0 { Pruned(nd::array()) } else { lab(b"time", v()) }),
        6 => v(),
        _ => fork(fork(lab(b"t", Empty), Empty), lab(b"time", v())),
    };
    nd::assume(t.well_formed());
    let (now, off) = (nd::u8() as u128, nd::u8() as u128);
    let d = D {
        subnet: vec![9],
        // the delegation's own time does not count
        tree: fork(lab(b"subnet", lab(&[9], fork(lab(b"canister_ranges", Leaf(ranges(&[(vec![], vec![255; 29])]))), lab(b"public_key", Leaf(der(&key(3, 4))))))), lab(b"time", v())),
        sig: vec![2],
        nested: false,
    };
    let with = nd::choice(2) == 1;
    let c = cert(&t, &[1], if with { Some(&d) } else { None });
    declare(&[(vec![1], state_root(&t), if with { key(3, 4) } else { key(1, 2) }), (vec![2], state_root(&d.tree), key(1, 2))]);
    let ok = c.verify(&[7], &der(&key(1, 2)), &now, &off).is_ok();
    let want = match t.lookup(&path(&[b"time"])) {
        LR::Found(b) => {
            nd::assume(b[0] < 128);
            nd::cover("time");
            timely(b[0] as u128, now, off)
        }
        _ => {
            nd::cover("no time");
            false
        }
    };
    nd::check(ok == want, "the certificate is not judged by the time in its tree");
}

/// a large state tree
fn c12_large() {
    let n = nd::pick(&[30, 100]);
    let mut l: Vec<T> = (0..n).map(|i| lab(format!("{}{i:03}", if i < n / 2 { "a" } else { "zz" }).as_bytes(), Leaf(vec![i as u8; if i % 9 == 0 { 5000 } else { 1 }]))).collect();
    let tm = nd::u8();
    nd::assume(tm < 128);
    l.insert(n / 2, lab(b"time", Leaf(vec![tm])));
    let hide = nd::choice(2) * nd::pick(&[1, n / 2, n / 2 + 2]);
    if hide > 0 {
        let x = l[hide].digest();
        l[hide] = Pruned(x);
    }
    let chain = nd::choice(2) == 0;
    let mut it = l.into_iter().rev();
    let mut t = it.next().unwrap();
    for x in it {
        t = fork(x, t);
    }
    if chain {
        t = fork(t, Empty);
    }
    declare(&[(vec![1], state_root(&t), key(1, 2))]);
    let (now, off) = (nd::u8() as u128, nd::u8() as u128);
    let ok = cert(&t, &[1], None).verify(&[7], &der(&key(1, 2)), &now, &off).is_ok();
    let seen = matches!(t.lookup(&path(&[b"time"])), LR::Found(_));
    nd::cover(if seen { "time" } else { "no time" });
    nd::check(ok == (seen && timely(tm as u128, now, off)), "the certificate is not judged by the time in its tree");
}

// ---- C13
/// something that was signed: the right thing, or something close
fn statement(t: &T) -> Vec<u8> {
    let h = t.digest();
    match nd::choice(5) {
        0 => state_root(t),
        1 => [b"ic-state-root".as_slice(), &h].concat(),
        2 => [b"\x0Dic-state-roos".as_slice(), &h].concat(),
        3 => h.to_vec(),
        _ => [b"\x0Dic-state-root".as_slice(), &h[..31]].concat(),
    }
}
fn c13_plain() {
    let t = state(nd::u8());
    let other = state(nd::u8());
    let k = key(nd::u8(), nd::u8());
    let sig = nd::bytes(nd::range(0, 2));
    let s = [(nd::bytes(nd::range(0, 2)), statement(&other), key(nd::u8(), nd::u8()))];
    declare(&s);
    let ok = go(&cert(&t, &sig, None), &[1], &der(&k));
    nd::check(ok == right(&s, &der(&k), &t, &sig, None, &[1], &|_| false), "a certificate is not judged by the root key's signature");
}
/// a key that may be broken at one place
fn some_der(k: &[u8]) -> Vec<u8> {
    let mut d = der(k);
    match nd::choice(4) {
        0 => {}
        1 => {
            let i = nd::choice(37);
            d[i] = nd::u8();
        }
        2 => {
            let n = nd::pick(&[0, 1, 36, 37, 96, 132]);
            d.truncate(n);
        }
        _ => d.push(nd::u8()),
    }
    d
}
fn c13_der() {
    let t = state(1);
    let (a, b) = (key(1, 2), key(3, 4));
    let s = [(vec![1], state_root(&t), a.clone()), (vec![2], state_root(&t), b.clone())];
    if nd::choice(2) == 0 {
        declare(&s);
        let d = some_der(&a);
        let ok = go(&cert(&t, &[1], None), &[1], &d);
        nd::check(ok == right(&s, &d, &t, &[1], None, &[1], &|_| true), "root key encoding");
    } else {
        let d = D { subnet: vec![7], tree: lab(b"subnet", lab(&[7], fork(lab(b"canister_ranges", Leaf(ranges(&[(vec![], vec![9; 29])]))), lab(b"public_key", Leaf(some_der(&b)))))), sig: vec![3], nested: false };
        let s = [s[0].clone(), s[1].clone(), (vec![3], state_root(&d.tree), a.clone())];
        declare(&s);
        let ok = go(&cert(&t, &[2], Some(&d)), &[1], &der(&a));
        nd::check(ok == right(&s, &der(&a), &t, &[2], Some(&d), &[1], &|_| true), "subnet key encoding");
    }
}
/// large trees of subnets, other keys and lengths
fn c13_large() {
    let n = nd::pick(&[10, 60]);
    let keys = [key(1, 1), key(2, 2), key(3, 3)];
    let all = Leaf(ranges(&[(vec![], vec![255; 29])]));
    let subnets: Vec<T> = (0..n)
        .map(|i| {
            let id = vec![2 * i as u8 + 1; if i % 5 == 0 { 29 } else { 1 + i % 3 }];
            lab(&id, fork(lab(b"canister_ranges", all.clone()), lab(b"public_key", Leaf(der(&keys[1 + (i == n / 2) as usize])))))
        })
        .collect();
    let mut it = subnets.into_iter().rev();
    let mut sub = it.next().unwrap();
    for x in it {
        sub = fork(x, sub);
    }
    let i = nd::pick(&[0, 5, n / 2, n - 1]);
    let mut id = vec![2 * i as u8 + 1; if i % 5 == 0 { 29 } else { 1 + i % 3 }];
    match nd::choice(3) {
        0 => {}
        1 => {
            let k = id.len() - 1;
            id[k] = nd::u8()
        }
        _ => id.push(nd::u8()),
    }
    let d = D { subnet: id, tree: fork(lab(b"subnet", sub), lab(b"zz", Leaf(vec![5; nd::pick(&[1, 70000])]))), sig: vec![2; 48], nested: false };
    let t = fork(state(1), lab(b"zz", Leaf(vec![6; nd::pick(&[1, 70000])])));
    let who = nd::choice(3);
    let mut sig = vec![1; nd::pick(&[48, 96, 1000])];
    let s = [(sig.clone(), state_root(&t), keys[who].clone()), (vec![2; 48], state_root(&d.tree), keys[0].clone())];
    declare(&s);
    let k = nd::choice(2) * (sig.len() - 1);
    sig[k] = nd::u8();
    let root = der(&keys[0]);
    let ok = go(&cert(&t, &sig, Some(&d)), &[1], &root);
    nd::check(ok == right(&s, &root, &t, &sig, Some(&d), &[1], &|_| true), "a certificate is not judged by its delegation");
}
fn c13_delegation() {
    delegation(1)
}
fn c13_delegation_t() {
    delegation(2)
}
/// who signed what: any of the keys may have signed either tree
fn delegation(n: usize) {
    let keys = [key(1, 1), key(2, 2), key(3, 3)];
    let root = der(&keys[0]);
    let t = state(nd::u8());
    let sub = vec![nd::u8()];
    let d = D {
        subnet: vec![nd::u8()],
        tree: lab(b"subnet", lab(&sub, fork(lab(b"canister_ranges", Leaf(ranges(&[(vec![], vec![9; 29])]))), lab(b"public_key", Leaf(der(&keys[1])))))),
        sig: nd::bytes(n),
        nested: nd::choice(2) == 1,
    };
    let sig = nd::bytes(n);
    // the outer tree, as signed
    let o = state(nd::u8());
    let s = [
        (nd::bytes(n), statement(&o), keys[nd::choice(3)].clone()),
        (nd::bytes(n), if nd::choice(3) > 0 { state_root(&d.tree) } else { statement(&t) }, keys[nd::choice(3)].clone()),
    ];
    declare(&s);
    let ok = go(&cert(&t, &sig, Some(&d)), &[1], &root);
    nd::check(ok == right(&s, &root, &t, &sig, Some(&d), &[1], &|_| true), "a certificate is not judged by its delegation");
}
/// a delegation certificate that attests two subnets: only the key of the named one counts
fn c13_subnets() {
    let keys = [key(1, 1), key(2, 2), key(3, 3)];
    let root = der(&keys[0]);
    let t = state(1);
    let l = nd::range(0, 1);
    let (a, b) = (nd::bytes(1), nd::bytes(2 - l));
    nd::assume(a < b);
    let sub = |k: &[u8], hide: usize| {
        let r = lab(b"canister_ranges", Leaf(ranges(&[(vec![], vec![9; 29])])));
        let p = lab(b"public_key", Leaf(der(k)));
        match hide {
            0 => fork(r, p),
            1 => fork(Pruned(r.digest()), p),
            2 => fork(r, Pruned(p.digest())),
            3 => r,
            _ => p,
        }
    };
    let hide = nd::choice(5);
    let d = D { subnet: nd::bytes(nd::range(0, 2)), tree: lab(b"subnet", fork(lab(&a, sub(&keys[1], hide)), lab(&b, sub(&keys[2], 0)))), sig: vec![1], nested: false };
    let s = [(vec![2], state_root(&t), keys[nd::choice(3)].clone()), (vec![1], state_root(&d.tree), keys[0].clone())];
    declare(&s);
    let ok = go(&cert(&t, &[2], Some(&d)), &[1], &root);
    nd::check(ok == right(&s, &root, &t, &[2], Some(&d), &[1], &|_| true), "a certificate is not judged by the subnet its delegation names");
}
/// a chain of two delegations, each of which may be all in order: never accepted
fn c13_nested() {
    let keys = [key(1, 1), key(2, 2), key(3, 3)];
    let root = der(&keys[0]);
    let t = state(1);
    let (a, b) = (vec![nd::u8()], vec![nd::u8()]);
    let at = |s: &[u8], k: usize| {
        lab(b"subnet", lab(s, fork(lab(b"canister_ranges", Leaf(ranges(&[(vec![], vec![9; 29])]))), lab(b"public_key", Leaf(der(&keys[k]))))))
    };
    let first = D { subnet: a.clone(), tree: at(&a, 1), sig: vec![1], nested: false };
    // which key the second delegation is for, and which keys signed it and the certificate
    let k = nd::choice(3);
    let tree = at(&b, k);
    let named = [a[0], b[0], nd::u8()][nd::choice(3)];
    let s = [
        (vec![1], state_root(&first.tree), keys[0].clone()),
        (vec![2], state_root(&tree), keys[nd::choice(3)].clone()),
        (vec![3], state_root(&t), keys[nd::choice(3)].clone()),
    ];
    declare(&s);
    let mut c = cert(&t, &[3], None);
    c.delegation = Some(Delegation { subnet_id: b, certificate: enc_cert(&tree, &[2], Some((&[named], &first.bytes()))) });
    nd::check(!go(&c, &[1], &root), "a delegation that is itself delegated is accepted");
}
/// the signature covers the whole tree
fn c13_tree() {
    covered(3)
}
fn c13_tree_t() {
    covered(5)
}
fn covered(n: usize) {
    let g = || gen(&mut Gen { nodes: n, hidden: true, empty: true, label: (1, 1), leaf: (1, 1) }, false);
    let put = |t: T| fork(lab(b"time", Leaf(vec![NOW as u8])), lab(b"x", t));
    let (t, o) = (put(g()), put(g()));
    let s = [(vec![2], state_root(&o), key(1, 1))];
    declare(&s);
    let ok = go(&cert(&t, &[2], None), &[1], &der(&key(1, 1)));
    nd::check(ok == (t.digest() == o.digest()), "a signature counts for another tree");
}

// ---- C14
fn ranged(id: &[u8], r: Vec<u8>) -> bool {
    let keys = [key(1, 1), key(2, 2)];
    let t = state(1);
    let d = D { subnet: vec![5], tree: lab(b"subnet", lab(&[5], fork(lab(b"canister_ranges", Leaf(r)), lab(b"public_key", Leaf(der(&keys[1])))))), sig: vec![1], nested: false };
    declare(&[(vec![2], state_root(&t), keys[1].clone()), (vec![1], state_root(&d.tree), keys[0].clone())]);
    go(&cert(&t, &[2], Some(&d)), id, &der(&keys[0]))
}
fn within(id: &[u8], r: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let mut w = false;
    for (a, b) in r {
        w |= le(a, id) & le(id, b);
    }
    w
}
fn c14_ranges_(n: usize, len: usize) {
    let p = || nd::bytes(nd::range(0, len));
    let id = p();
    let r: Vec<_> = (0..nd::range(0, n)).map(|_| (p(), p())).collect();
    nd::check(ranged(&id, ranges(&r)) == within(&id, &r), "a certificate is not judged by the subnet's canister ranges");
}
fn c14_ranges() {
    match nd::choice(3) {
        0 => c14_ranges_(3, 2),
        1 => {
            // ids as they are in practice
            let p = || {
                let mut p = vec![0, 0, 0, 0, 0, 0, 0, 0, 1, 1];
                p[0] = nd::u8();
                p[7] = nd::u8();
                p
            };
            let id = p();
            let r: Vec<_> = (0..nd::range(1, 3)).map(|_| (p(), p())).collect();
            nd::check(ranged(&id, ranges(&r)) == within(&id, &r), "a certificate is not judged by the subnet's canister ranges");
        }
        _ => {
            // the longest principals
            let p = || {
                let mut p = vec![3; nd::pick(&[9, 28, 29])];
                let n = p.len();
                p[n - 1] = nd::u8();
                p
            };
            let id = p();
            let r = vec![(p(), p())];
            nd::check(ranged(&id, ranges(&r)) == within(&id, &r), "a certificate is not judged by the subnet's canister ranges");
        }
    }
}
/// many ranges, one of them arbitrary: not sorted, overlapping, empty
fn c14_many() {
    let n = nd::pick(&[5, 20]);
    let o = nd::choice(3);
    let mut r: Vec<_> = (0..n)
        .map(|i| {
            let k = [i, n - 1 - i, (i * 7 + 3) % n][o] as u8;
            let a = if k % 4 == 3 { vec![k * 4 + 1] } else { vec![k * 4, 7] };
            let b = if k % 4 == 2 { vec![0, k] } else { vec![k * 4 + 2, 1] };
            (a, b)
        })
        .collect();
    let i = nd::choice(n);
    r[i] = (nd::bytes(nd::range(1, 2)), nd::bytes(2));
    let id = nd::bytes(nd::range(0, 2));
    nd::check(ranged(&id, ranges(&r)) == within(&id, &r), "a certificate is not judged by the subnet's canister ranges");
}
/// very many ranges
fn c14_wide() {
    let n = nd::pick(&[130, 300]);
    let mut r: Vec<_> = (0..n).map(|i| ([3, (i / 100) as u8, (2 * (i % 100)) as u8].to_vec(), [3, (i / 100) as u8, (2 * (i % 100)) as u8].to_vec())).collect();
    let i = nd::pick(&[0, 99, 127, n - 1]);
    r[i] = (vec![3, nd::u8(), 0], vec![3, 1, nd::u8()]);
    let id = vec![3, nd::pick(&[0, 1, 2]), nd::u8()];
    nd::check(ranged(&id, ranges(&r)) == within(&id, &r), "a certificate is not judged by the subnet's canister ranges");
}
fn c14_ranges_t() {
    c14_ranges_(4, 3)
}
/// the ranges are the ones of the named subnet, and of the delegation certificate
fn c14_paths() {
    let keys = [key(1, 1), key(2, 2)];
    let id = vec![nd::u8()];
    let mine = vec![(vec![nd::u8()], vec![nd::u8()])];
    let all = ranges(&[(vec![], vec![255; 29])]);
    let pk = || lab(b"public_key", Leaf(der(&keys[1])));
    let cr = |r: Vec<u8>| lab(b"canister_ranges", Leaf(r));
    let good = fork(cr(ranges(&mine)), pk());
    let wide = fork(cr(all.clone()), pk());
    let tree = match nd::choice(8) {
        0 => lab(b"subnet", fork(lab(&[4], wide), lab(&[5], good))),
        1 => lab(b"subnet", fork(lab(&[5], good), lab(&[6], wide))),
        2 => fork(cr(all), lab(b"subnet", lab(&[5], good))),
        3 => lab(b"subnet", lab(&[5], pk())),
        4 => lab(b"subnet", lab(&[5], fork(Pruned(cr(all).digest()), pk()))),
        5 => lab(b"subnet", fork(lab(&[5], pk()), lab(&[6], wide))),
        6 => lab(b"subnet", lab(&[5], fork(lab(b"canister_ranges", lab(b"a", Leaf(all))), pk()))),
        _ => lab(b"subnet", lab(&[5], good)),
    };
    let t = fork(lab(b"subnet", lab(&[5], cr(ranges(&[(vec![], vec![255; 29])])))), lab(b"time", Leaf(vec![NOW as u8])));
    let d = D { subnet: vec![5], tree, sig: vec![1], nested: false };
    declare(&[(vec![2], state_root(&t), keys[1].clone()), (vec![1], state_root(&d.tree), keys[0].clone())]);
    let ok = go(&cert(&t, &[2], Some(&d)), &id, &der(&keys[0]));
    let want = match d.tree.lookup(&path(&[b"subnet", &[5], b"canister_ranges"])) {
        LR::Found(_) => within(&id, &mine),
        _ => false,
    };
    nd::check(ok == want, "ranges of something else are used");
}
/// any bytes in place of the ranges
fn bytes_for_ranges(b: Vec<u8>) {
    let id = vec![nd::u8()];
    let want = crate::cbor::ranges_of(&b);
    let ok = ranged(&id, b);
    let Some(r) = want else { return };
    let Some(r) = r else {
        nd::cover("malformed");
        return nd::check(!ok, "a certificate with malformed ranges is accepted");
    };
    if r.iter().any(|x| x.0.len() > 29 || x.1.len() > 29) {
        nd::check(!ok, "ranges that are no principals are used");
    } else {
        nd::check(!ok | within(&id, &r), "a canister outside of the ranges is accepted");
    }
}
fn c14_bytes() {
    bytes_for_ranges(nd::bytes(nd::range(0, 4)))
}
fn mutated(n: usize) {
    let mut b = ranges(&[(vec![0, 1], vec![0; 3]), (vec![5], vec![0xff; 29])]);
    if nd::choice(2) == 1 {
        b = ranges(&[(vec![5], vec![9])])
    }
    let mut p = nd::choice(b.len());
    b[p] = nd::u8();
    for _ in 1..n {
        p += nd::choice((b.len() - p).min(2));
        b[p] = nd::u8();
    }
    bytes_for_ranges(b)
}
fn c14_mutated() {
    mutated(1)
}
fn c14_mutated_t() {
    mutated(2)
}

// ---- C15
fn c15_history_(n: usize) {
    // what is signed is decided beforehand, what is shown then is arbitrary
    let s: Vec<Signed> = (0..2).map(|_| (nd::bytes(1), state_root(&state(nd::u8())), key(7, nd::u8()))).collect();
    declare(&s);
    let mut seen: Vec<(u8, u8, u8, bool)> = vec![];
    for _ in 0..n {
        let (g, v, k) = (nd::u8(), nd::u8(), nd::u8());
        let t = state(v);
        let ok = go(&cert(&t, &[g], None), &[1], &der(&key(7, k)));
        nd::check(ok == signed(&s, &[g], &state_root(&t), &key(7, k)), "a verdict depends on what was verified before");
        seen.push((g, v, k, ok));
    }
    let _ = seen;
}
fn c15_history() {
    c15_history_(3)
}
fn c15_history_t() {
    c15_history_(4)
}
/// many verifications before
fn c15_many() {
    let n = nd::pick(&[20, 150]);
    let s: Vec<Signed> = (0..n).map(|i| (vec![i as u8; 48], state_root(&state(i as u8)), key(7, i as u8 / 2))).collect();
    declare(&s);
    for i in 0..n {
        // every third is wrong
        let sig = vec![(i + (i % 3 == 0) as usize) as u8; 48];
        let ok = go(&cert(&state(i as u8), &sig, None), &[1], &der(&s[i].2));
        nd::check(ok == (i % 3 != 0), "a verdict depends on what was verified before");
    }
    let (g, v, k) = (nd::u8(), nd::pick(&[0, 1, 2, n - 1]) as u8, nd::u8());
    let t = state(v);
    let mut sig = vec![v; 48];
    sig[nd::choice(2) * 47] = g;
    let ok = go(&cert(&t, &sig, None), &[1], &der(&key(7, k)));
    nd::check(ok == signed(&s, &sig, &state_root(&t), &key(7, k)), "a verdict depends on what was verified before");
}
/// signatures of every length: what is cached is found only for the same key, signature and message
fn c15_split() {
    let s = [(nd::bytes(nd::range(0, 3)), state_root(&state(nd::u8())), key(7, nd::u8()))];
    declare(&s);
    let t = state(nd::u8());
    let first = go(&cert(&t, &s[0].0, None), &[1], &der(&s[0].2));
    nd::check(first == signed(&s, &s[0].0, &state_root(&t), &s[0].2), "first verdict");
    let sig = nd::bytes(nd::range(0, 3));
    let (u, k) = (state(nd::u8()), key(nd::u8(), nd::u8()));
    let ok = go(&cert(&u, &sig, None), &[1], &der(&k));
    nd::check(ok == signed(&s, &sig, &state_root(&u), &k), "a verdict depends on what was verified before");
    // and again
    let again = go(&cert(&u, &sig, None), &[1], &der(&k));
    nd::check(again == ok, "the second verdict on one certificate differs");
}
/// delegated certificates, accepted and refused ones before
fn c15_delegation() {
    let keys = [key(1, 1), key(2, 2)];
    let tree = |hi: u8| lab(b"subnet", lab(&[5], fork(lab(b"canister_ranges", Leaf(ranges(&[(vec![0], vec![hi])]))), lab(b"public_key", Leaf(der(&keys[1]))))));
    let d = D { subnet: vec![5], tree: tree(nd::u8()), sig: vec![1], nested: false };
    let t = state(nd::u8());
    let s = [(vec![2], state_root(&t), keys[1].clone()), (vec![1], state_root(&tree(nd::u8())), keys[0].clone())];
    declare(&s);
    for _ in 0..2 {
        let id = vec![nd::u8()];
        let sig = vec![nd::u8()];
        let with = nd::choice(2) == 1;
        let d = if with { Some(&d) } else { None };
        let ok = go(&cert(&t, &sig, d), &id, &der(&keys[0]));
        let hi = match &tree_hi(d) {
            Some(h) => *h,
            None => 0,
        };
        let want = right(&s, &der(&keys[0]), &t, &sig, d, &id, &|_| id[0] <= hi);
        nd::check(ok == want, "a verdict depends on what was verified before");
    }
}
fn tree_hi(d: Option<&D>) -> Option<u8> {
    match d?.tree.lookup(&path(&[b"subnet", &[5], b"canister_ranges"])) {
        LR::Found(r) => r.last().copied(),
        _ => None,
    }
}
