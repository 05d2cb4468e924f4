//! ic-cbor: decoding of trees and certificates
use crate::spec::*;
use candid::Principal;
use ic_cbor::*;
use ic_certification as ic;
use ic_certification::{Certificate, Delegation, HashTree};
use std::borrow::Cow;

harnesses! {
    c09_tree c09_lengths c09_cert c09_deep c09_ref c09_tree_t c09_cert_t
    c10_bytes c10_mutated c10_deep c10_lists c10_strings c10_heads c10_bytes_t c10_heads_t c10_mutated_t
    c11_bytes c11_heads c11_tree c11_cert c11_lists c11_ranges c11_bytes_t c11_heads_t c11_tree_t c11_cert_t
}

// ---- a reference decoder after RFC 8949
#[derive(Clone, PartialEq, Eq)]
pub enum V {
    Uint(u64),
    /// -1 - n
    Neg(u64),
    Str(Vec<u8>),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}
pub enum E {
    /// not well-formed
    Bad,
    /// indefinite length, simple values and floats: not claimed
    Other,
}
fn head(b: &[u8], at: &mut usize) -> Result<(u8, u64), E> {
    let Some(&h) = b.get(*at) else { return Err(E::Bad) };
    *at += 1;
    let n = match h & 31 {
        n @ 0..=23 => return Ok((h >> 5, n as u64)),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        31 => return Err(E::Other),
        _ => return Err(E::Bad),
    };
    if b.len() - *at < n {
        return Err(E::Bad);
    }
    let mut v = 0u64;
    for x in &b[*at..*at + n] {
        v = v << 8 | *x as u64;
    }
    *at += n;
    Ok((h >> 5, v))
}
fn item(b: &[u8], at: &mut usize) -> Result<V, E> {
    let (t, n) = head(b, at)?;
    Ok(match t {
        0 => V::Uint(n),
        1 => V::Neg(n),
        2 | 3 => {
            if n > (b.len() - *at) as u64 {
                return Err(E::Bad);
            }
            let s = b[*at..*at + n as usize].to_vec();
            *at += n as usize;
            V::Str(s)
        }
        4 | 5 => {
            // every element takes at least one byte
            let per = if t == 5 { 2 } else { 1 };
            let fits = n <= (b.len() - *at) as u64 / per;
            let mut i = 0;
            let (mut a, mut m) = (vec![], vec![]);
            while i < n {
                if !fits && *at >= b.len() {
                    return Err(E::Bad);
                }
                let x = item(b, at)?;
                if t == 4 {
                    a.push(x)
                } else {
                    m.push((x, item(b, at)?))
                }
                i += 1;
            }
            if t == 4 {
                V::Arr(a)
            } else {
                V::Map(m)
            }
        }
        6 => item(b, at)?,
        _ => return Err(E::Other),
    })
}
pub fn decode(b: &[u8]) -> Result<V, E> {
    let mut at = 0;
    let v = item(b, &mut at)?;
    if at != b.len() {
        return Err(E::Bad);
    }
    Ok(v)
}
fn tree_of(v: &V) -> Option<T> {
    let V::Arr(a) = v else { return None };
    Some(match a.as_slice() {
        [V::Uint(0)] => Empty,
        [V::Uint(1), l, r] => Fork(Box::new(tree_of(l)?), Box::new(tree_of(r)?)),
        [V::Uint(2), V::Str(l), t] => Labeled(l.clone(), Box::new(tree_of(t)?)),
        [V::Uint(3), V::Str(x)] => Leaf(x.clone()),
        [V::Uint(4), V::Str(h)] => Pruned(h.as_slice().try_into().ok()?),
        _ => return None,
    })
}
/// the value the decoder gave stands for v
fn stands_for(c: &CborValue, v: &V) -> bool {
    match (c, v) {
        (CborValue::HashTree(h), V::Uint(n)) => {
            *n == match h {
                CborHashTree::Empty => 0,
                CborHashTree::Fork => 1,
                CborHashTree::Labelled => 2,
                CborHashTree::Leaf => 3,
                CborHashTree::Pruned => 4,
            }
        }
        (CborValue::Unsigned(u), V::Uint(n)) => {
            *n == match u {
                CborUnsignedInt::UInt8(x) => *x as u64,
                CborUnsignedInt::UInt16(x) => *x as u64,
                CborUnsignedInt::UInt32(x) => *x as u64,
                CborUnsignedInt::UInt64(x) => *x,
            }
        }
        (CborValue::Signed(s), V::Neg(n)) => {
            let s = match s {
                CborNegativeInt::Int8(x) => *x as i64,
                CborNegativeInt::Int16(x) => *x as i64,
                CborNegativeInt::Int32(x) => *x as i64,
                CborNegativeInt::Int64(x) => *x,
            };
            (s < 0) & (!s as u64 == *n)
        }
        (CborValue::ByteString(a), V::Str(b)) => a == b,
        (CborValue::Array(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| stands_for(x, y)),
        (CborValue::Map(a), V::Map(b)) => {
            // of entries with one key any may win
            let key = |k: &V| match k {
                V::Str(s) => String::from_utf8(s.clone()).ok(),
                _ => None,
            };
            b.iter().all(|(k, _)| match key(k) {
                Some(k) => a.contains_key(&k),
                None => false,
            }) && a.iter().all(|(k, x)| b.iter().any(|(l, y)| key(l).as_ref() == Some(k) && stands_for(x, y)))
        }
        _ => false,
    }
}

// ---- encoding, after RFC 8949
fn enc_head(t: u8, n: usize, o: &mut Vec<u8>) {
    match n {
        0..=23 => o.push(t << 5 | n as u8),
        24..=255 => o.extend([t << 5 | 24, n as u8]),
        256..=65535 => o.extend([t << 5 | 25, (n >> 8) as u8, n as u8]),
        _ => {
            o.push(t << 5 | 26);
            o.extend((n as u32).to_be_bytes())
        }
    }
}
pub fn enc_bytes(b: &[u8], o: &mut Vec<u8>) {
    enc_head(2, b.len(), o);
    o.extend_from_slice(b)
}
pub fn enc_text(b: &str, o: &mut Vec<u8>) {
    enc_head(3, b.len(), o);
    o.extend_from_slice(b.as_bytes())
}
pub fn enc_arr(n: usize, o: &mut Vec<u8>) {
    enc_head(4, n, o)
}
pub fn enc_tree(t: &T, o: &mut Vec<u8>) {
    match t {
        Empty => o.extend([0x81, 0]),
        Fork(a, b) => {
            o.extend([0x83, 1]);
            enc_tree(a, o);
            enc_tree(b, o)
        }
        Labeled(l, t) => {
            o.extend([0x83, 2]);
            enc_bytes(l, o);
            enc_tree(t, o)
        }
        Leaf(v) => {
            o.extend([0x82, 3]);
            enc_bytes(v, o)
        }
        Pruned(h) => {
            o.extend([0x82, 4]);
            enc_bytes(h, o)
        }
    }
}
pub fn enc_cert(t: &T, sig: &[u8], d: Option<(&[u8], &[u8])>) -> Vec<u8> {
    let mut o = vec![];
    enc_head(5, 2 + d.is_some() as usize, &mut o);
    enc_text("tree", &mut o);
    enc_tree(t, &mut o);
    enc_text("signature", &mut o);
    enc_bytes(sig, &mut o);
    if let Some((s, c)) = d {
        enc_text("delegation", &mut o);
        enc_head(5, 2, &mut o);
        enc_text("subnet_id", &mut o);
        enc_bytes(s, &mut o);
        enc_text("certificate", &mut o);
        enc_bytes(c, &mut o);
    }
    o
}
fn g(nodes: usize, l: (usize, usize)) -> T {
    gen(&mut Gen { nodes, hidden: true, empty: true, label: l, leaf: l }, false)
}

// ---- C09
fn round_tree(t: &T) {
    let r = t.real();
    let b = match serde_cbor::to_vec(&r) {
        Ok(b) => b,
        Err(_) => return nd::check(false, "a tree cannot be encoded"),
    };
    let b = if nd::choice(2) == 1 {
        // as the tree of a certificate header is written: with the self-describing tag
        nd::cover("tagged");
        [&[0xd9, 0xd9, 0xf7], b.as_slice()].concat()
    } else {
        b
    };
    match HashTree::from_cbor(&b) {
        Ok(x) => nd::check(x == r && view(x.as_ref()) == *t, "HashTree::from_cbor gives another tree"),
        Err(_) => nd::check(false, "HashTree::from_cbor rejects an encoded tree"),
    }
    match serde_cbor::from_slice::<HashTree>(&b) {
        Ok(x) => nd::check(x == r && view(x.as_ref()) == *t, "serde gives another tree"),
        Err(_) => nd::check(false, "serde rejects an encoded tree"),
    }
}
fn c09_tree() {
    round_tree(&g(6, (0, 2)))
}
fn c09_tree_t() {
    round_tree(&g(8, (0, 2)))
}
/// n bytes, symbolic at both ends
fn sparse(n: usize) -> Vec<u8> {
    let mut v = vec![0x5a; n];
    for i in 0..n.min(3) {
        v[i] = nd::u8();
        v[n - 1 - i] = nd::u8();
    }
    v
}
const EDGES: &[usize] = &[0, 1, 22, 23, 24, 25, 31, 32, 33, 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537];
fn c09_lengths() {
    let v = sparse(nd::pick(EDGES));
    match nd::choice(3) {
        0 => round_tree(&Leaf(v)),
        1 => round_tree(&Labeled(v, Box::new(Empty))),
        _ => round_tree(&Fork(Box::new(Labeled(v, Box::new(Leaf(sparse(nd::pick(&[0, 24, 256, 65536])))))), Box::new(Pruned(nd::array())))),
    }
}
fn round_cert(c: &Certificate) {
    let b = match serde_cbor::to_vec(c) {
        Ok(b) => b,
        Err(_) => return nd::check(false, "a certificate cannot be encoded"),
    };
    let b = if nd::choice(2) == 1 { [&[0xd9, 0xd9, 0xf7], b.as_slice()].concat() } else { b };
    match Certificate::from_cbor(&b) {
        Ok(x) => nd::check(x == *c, "Certificate::from_cbor gives another certificate"),
        Err(_) => nd::check(false, "Certificate::from_cbor rejects an encoded certificate"),
    }
    match serde_cbor::from_slice::<Certificate>(&b) {
        Ok(x) => nd::check(x == *c, "serde gives another certificate"),
        Err(_) => nd::check(false, "serde rejects an encoded certificate"),
    }
}
fn cert(nodes: usize) -> Certificate {
    let tree = g(nodes, (0, 1)).real();
    let signature = sparse(nd::pick(&[0, 1, 23, 24, 48, 255, 256]));
    let delegation = match nd::choice(2) {
        0 => None,
        _ => {
            nd::cover("delegation");
            Some(Delegation { subnet_id: sparse(nd::pick(&[0, 10, 29, 30])), certificate: sparse(nd::pick(&[0, 1, 24, 600, 65536])) })
        }
    };
    Certificate { tree, signature, delegation }
}
fn c09_cert() {
    round_cert(&cert(3))
}
fn c09_cert_t() {
    round_cert(&cert(6))
}
/// long chains of labels and forks
fn c09_deep() {
    let n = nd::pick(&[10, 60, 120]);
    let kind = nd::choice(3);
    let mut t = if nd::choice(2) == 0 { Leaf(nd::bytes(2)) } else { Pruned(nd::array()) };
    for i in 0..n {
        t = match (kind + i % 2) % 3 {
            0 => Labeled(vec![i as u8; 1 + i % 30], Box::new(t)),
            1 => Fork(Box::new(Pruned([i as u8; 32])), Box::new(t)),
            _ => Fork(Box::new(t), Box::new(Empty)),
        };
    }
    round_tree(&t);
}
/// what is written is what the reference reads, and borrowed storage reads the same
fn c09_ref() {
    let t = g(5, (0, 2));
    let r = t.real();
    let b = match serde_cbor::to_vec(&r) {
        Ok(b) => b,
        Err(_) => return nd::check(false, "a tree cannot be encoded"),
    };
    nd::check(matches!(decode(&b), Ok(v) if tree_of(&v).as_ref() == Some(&t)), "the encoding is not the one of the specification");
    let mut o = vec![];
    enc_tree(&t, &mut o);
    match HashTree::from_cbor(&o) {
        Ok(x) => nd::check(x == r, "from_cbor of the specified encoding gives another tree"),
        Err(_) => nd::check(false, "from_cbor rejects the specified encoding"),
    }
    match serde_cbor::from_slice::<ic::hash_tree::HashTree<&[u8]>>(&o) {
        Ok(x) => nd::check(x.digest() == t.digest(), "serde (slices) gives another tree"),
        Err(_) => nd::check(false, "serde (slices) rejects an encoded tree"),
    }
    match serde_cbor::from_slice::<ic::hash_tree::HashTree<Cow<[u8]>>>(&o) {
        Ok(x) => nd::check(x.digest() == t.digest(), "serde (cow) gives another tree"),
        Err(_) => nd::check(false, "serde (cow) rejects an encoded tree"),
    }
    // certificates
    let d = nd::bytes(nd::range(0, 2));
    let d = if nd::choice(2) == 0 { None } else { Some((d.as_slice(), d.as_slice())) };
    let c = enc_cert(&t, &[1, 2], d);
    let want = Certificate {
        tree: r,
        signature: vec![1, 2],
        delegation: d.map(|(a, b)| Delegation { subnet_id: a.to_vec(), certificate: b.to_vec() }),
    };
    nd::check(matches!(Certificate::from_cbor(&c), Ok(x) if x == want), "Certificate::from_cbor of the specified encoding");
    nd::check(matches!(serde_cbor::from_slice::<Certificate>(&c), Ok(x) if x == want), "serde of the specified encoding");
    match serde_cbor::from_slice::<ic::certificate::Certificate<&[u8]>>(&c) {
        Ok(x) => nd::check(x.signature == [1, 2] && x.delegation.map(|d| (d.subnet_id, d.certificate)) == d, "serde (slices) gives another certificate"),
        Err(_) => nd::check(false, "serde (slices) rejects a certificate"),
    }
}

// ---- C10
fn all(b: &[u8]) {
    if parse_cbor(b).is_ok() {
        nd::cover("value")
    }
    if HashTree::from_cbor(b).is_ok() {
        nd::cover("tree")
    }
    let _ = Certificate::from_cbor(b);
    let _ = parse_cbor_principals_array(b);
    let _ = parse_cbor_string_array(b);
}
fn c10_bytes() {
    all(&nd::bytes(nd::range(0, 5)))
}
fn c10_bytes_t() {
    all(&nd::bytes(7))
}
/// n bytes of a valid encoding replaced by arbitrary ones
fn mutate(b: &mut [u8], n: usize, near: usize) {
    let mut p = nd::choice(b.len());
    b[p] = nd::u8();
    for _ in 1..n {
        p += nd::choice((b.len() - p).min(near));
        b[p] = nd::u8();
    }
}
fn sample(kind: usize) -> Vec<u8> {
    let h = Pruned([9; 32]);
    let lab = |l: &str, t| Labeled(l.as_bytes().to_vec(), Box::new(t));
    let t = Fork(Box::new(lab("a", Leaf(vec![1, 2, 3]))), Box::new(Fork(Box::new(lab("b", Empty)), Box::new(h))));
    let mut o = vec![];
    match kind {
        0 => enc_tree(&t, &mut o),
        1 => o = enc_cert(&lab("t", Leaf(vec![7])), &[1; 4], None),
        2 => o = enc_cert(&Empty, &[1; 3], Some((&[4; 5], &[1, 2]))),
        3 => {
            // canister ranges
            o.extend([0xd9, 0xd9, 0xf7, 0x82, 0x82]);
            enc_bytes(&[0, 1], &mut o);
            enc_bytes(&[0; 10], &mut o);
            o.push(0x82);
            enc_bytes(&[5], &mut o);
            enc_bytes(&[0xff; 29], &mut o);
        }
        4 => {
            enc_arr(3, &mut o);
            enc_text("a", &mut o);
            enc_text("", &mut o);
            enc_text("h\u{e9}llo", &mut o);
        }
        _ => {
            // a bit of everything
            o.extend([0x86, 0x18, 200, 0x39, 0x12, 0x34, 0xa2, 0x61, b'k', 0x20, 0x41, b'l', 0xa0, 0xc1, 0x1a, 1, 2, 3, 4, 0x82, 0x80, 0x60, 0x3b, 0x7f, 1, 2, 3, 4, 5, 6, 7]);
        }
    }
    o
}
fn c10_mutated() {
    let mut b = sample(nd::choice(6));
    mutate(&mut b, 2, 2);
    all(&b);
}
fn c10_mutated_t() {
    let mut b = sample(nd::choice(6));
    mutate(&mut b, 3, 3);
    all(&b);
}
/// very deep nesting, then anything
fn c10_deep() {
    let unit: &[u8] = match nd::choice(6) {
        0 => &[0x81],
        1 => &[0xc6],
        2 => &[0xd9, 0xd9, 0xf7],
        3 => &[0xa1, 0x61, 0x61],
        4 => &[0x83, 2, 0x41, 0x61],
        _ => &[0x9a, 0xff, 0xff, 0xff, 0xff],
    };
    let mut b = vec![];
    for _ in 0..nd::pick(&[3, 200, 390, 20000]) {
        b.extend_from_slice(unit)
    }
    b.extend(nd::bytes(nd::range(0, 1)));
    all(&b);
}
/// one head of any width, then a few bytes
fn heads(n: usize) -> Vec<u8> {
    let k = nd::range(0, 3);
    let h = nd::u8();
    nd::assume(h & 31 == 24 + k as u8);
    let mut b = vec![h];
    b.extend(nd::bytes(1 << k));
    b.extend(nd::bytes(nd::range(0, n)));
    if nd::choice(2) == 1 {
        b.insert(0, 0x81);
    }
    b
}
fn c10_heads() {
    all(&heads(2));
}
fn c10_heads_t() {
    all(&heads(4));
}
/// lists of byte strings of any length
fn c10_lists() {
    let mut o = vec![];
    let n = nd::range(0, 2);
    enc_arr(n, &mut o);
    for _ in 0..n {
        let k = nd::range(1, 3);
        enc_arr(k, &mut o);
        for _ in 0..k {
            enc_bytes(&sparse(nd::pick(&[0, 1, 28, 29, 30, 31, 64])), &mut o);
        }
    }
    let _ = parse_cbor_principals_array(&o);
}
fn c10_strings() {
    let s = nd::bytes(nd::range(0, 3));
    let mut o = vec![0x81];
    enc_bytes(&s, &mut o);
    match (parse_cbor_string_array(&o), String::from_utf8(s)) {
        (Ok(a), Ok(b)) => nd::check(a.len() == 1 && a[0] == b, "parse_cbor_string_array"),
        (Err(_), Err(_)) => {}
        _ => nd::check(false, "parse_cbor_string_array: valid UTF-8"),
    }
}

// ---- C11
fn right(b: &[u8]) {
    if let Ok(c) = parse_cbor(b) {
        match decode(b) {
            Ok(v) => {
                nd::cover("accepted");
                nd::check(stands_for(&c, &v), "parse_cbor gives another value than RFC 8949")
            }
            Err(E::Bad) => nd::check(false, "parse_cbor accepts bytes that are not well-formed"),
            Err(E::Other) => {}
        }
    }
}
fn right_tree(b: &[u8]) {
    if let Ok(t) = HashTree::from_cbor(b) {
        match decode(b) {
            Ok(v) => match tree_of(&v) {
                Some(w) => {
                    nd::cover("tree");
                    nd::check(view(t.as_ref()) == w, "HashTree::from_cbor gives another tree than the bytes denote")
                }
                None => nd::check(false, "HashTree::from_cbor accepts bytes that denote no tree"),
            },
            Err(E::Bad) => nd::check(false, "HashTree::from_cbor accepts bytes that are not well-formed"),
            Err(E::Other) => {}
        }
    }
}
fn right_cert(b: &[u8]) {
    let Ok(c) = Certificate::from_cbor(b) else { return };
    let m = match decode(b) {
        Ok(V::Map(m)) => m,
        Err(E::Other) => return,
        _ => return nd::check(false, "Certificate::from_cbor accepts bytes that denote no certificate"),
    };
    fn all<'a>(m: &'a [(V, V)], k: &str) -> Vec<&'a V> {
        m.iter().filter(|x| x.0 == V::Str(k.as_bytes().to_vec())).map(|x| &x.1).collect()
    }
    nd::cover("certificate");
    nd::check(all(&m, "tree").iter().any(|v| tree_of(v).as_ref() == Some(&view(c.tree.as_ref()))), "Certificate::from_cbor gives another tree");
    nd::check(all(&m, "signature").iter().any(|v| **v == V::Str(c.signature.clone())), "Certificate::from_cbor gives another signature");
    let d = all(&m, "delegation");
    match &c.delegation {
        None => nd::check(!d.iter().any(|v| matches!(v, V::Map(_))), "Certificate::from_cbor overlooks the delegation"),
        Some(x) => nd::check(
            d.iter().any(|v| match v {
                V::Map(m) => {
                    all(m, "subnet_id").iter().any(|v| **v == V::Str(x.subnet_id.clone())) && all(m, "certificate").iter().any(|v| **v == V::Str(x.certificate.clone()))
                }
                _ => false,
            }),
            "Certificate::from_cbor gives another delegation",
        ),
    }
}
fn c11_bytes() {
    let b = nd::bytes(nd::range(0, 4));
    right(&b);
    right_tree(&b);
}
fn c11_bytes_t() {
    right(&nd::bytes(5));
}
fn c11_heads() {
    let b = heads(2);
    right(&b);
    right_tree(&b);
}
fn c11_heads_t() {
    right(&heads(3));
}
fn c11_tree() {
    let mut b = match nd::choice(2) {
        0 => sample(0),
        _ => {
            let mut o = vec![];
            enc_tree(&gen(&mut Gen { nodes: 3, hidden: false, empty: true, label: (0, 1), leaf: (0, 1) }, false), &mut o);
            o
        }
    };
    mutate(&mut b, 2, 2);
    right(&b);
    right_tree(&b);
}
fn c11_tree_t() {
    let mut b = sample(0);
    mutate(&mut b, 3, 3);
    right_tree(&b);
}
fn c11_cert() {
    let mut b = sample(nd::range(1, 2));
    mutate(&mut b, 1, 1);
    right_cert(&b);
}
fn c11_cert_t() {
    let mut b = sample(nd::range(1, 2));
    mutate(&mut b, 2, 2);
    right_cert(&b);
}
fn pairs(v: &V) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let V::Arr(a) = v else { return None };
    a.iter()
        .map(|x| match x {
            V::Arr(y) => match y.as_slice() {
                [V::Str(a), V::Str(b)] => Some((a.clone(), b.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
/// the canister ranges bytes denote; None if that is not claimed
pub fn ranges_of(b: &[u8]) -> Option<Option<Vec<(Vec<u8>, Vec<u8>)>>> {
    match decode(b) {
        Ok(v) => Some(pairs(&v)),
        Err(E::Bad) => Some(None),
        Err(E::Other) => None,
    }
}
fn c11_lists() {
    let mut b = sample(nd::range(3, 5));
    mutate(&mut b, 2, 2);
    right(&b);
    let v = match decode(&b) {
        Ok(v) => Some(v),
        Err(E::Bad) => None,
        Err(E::Other) => return,
    };
    if let Ok(p) = parse_cbor_principals_array(&b) {
        nd::cover("ranges");
        match v.as_ref().and_then(pairs) {
            Some(w) => nd::check(p.len() == w.len() && p.iter().zip(w).all(|(x, y)| x.0.as_slice() == y.0 && x.1.as_slice() == y.1), "parse_cbor_principals_array gives other ranges"),
            None => nd::check(false, "parse_cbor_principals_array accepts bytes that denote no ranges"),
        }
    }
    if let Ok(p) = parse_cbor_string_array(&b) {
        nd::cover("strings");
        match &v {
            Some(V::Arr(a)) => nd::check(a.len() == p.len() && a.iter().zip(p).all(|(x, y)| *x == V::Str(y.into_bytes())), "parse_cbor_string_array gives other strings"),
            _ => nd::check(false, "parse_cbor_string_array accepts bytes that denote no list"),
        }
    }
}
/// ranges that are written are read
fn c11_ranges() {
    let (a, z) = (sparse(nd::pick(&[0, 1, 10, 29])), sparse(nd::pick(&[0, 29])));
    let mut o = vec![0x81, 0x82];
    enc_bytes(&a, &mut o);
    enc_bytes(&z, &mut o);
    match parse_cbor_principals_array(&o) {
        Ok(p) => nd::check(p.len() == 1 && p[0].0 == Principal::from_slice(&a) && p[0].1 == Principal::from_slice(&z), "parse_cbor_principals_array: range"),
        Err(_) => nd::check(false, "parse_cbor_principals_array rejects a range"),
    }
}
