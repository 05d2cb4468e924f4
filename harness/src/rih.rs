//! ic-representation-independent-hash
use crate::spec::sha;
use ic_representation_independent_hash::{hash, representation_independent_hash, Value};

harnesses! {
    c27_spec c27_order c27_bind c27_number c27_nested c27_array c27_large c27_spec_t c27_order_t c27_bind_t c27_nested_t
}
type H = [u8; 32];

/// content: an array, or what the specification encodes a value as
#[derive(Clone, PartialEq, Eq)]
enum C {
    Bytes(Vec<u8>),
    Array(Vec<C>),
}
fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 128 {
        o.push(v as u8 & 127 | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
fn text(n: usize) -> String {
    nd::ascii(n)
}
/// an arbitrary value, and its content
fn value(depth: usize, len: usize) -> (Value, C) {
    match nd::choice(if depth > 0 { 4 } else { 3 }) {
        0 => {
            let s = text(nd::range(0, len));
            (Value::String(s.clone()), C::Bytes(s.into_bytes()))
        }
        1 => {
            let b = nd::bytes(nd::range(0, len));
            (Value::Bytes(b.clone()), C::Bytes(b))
        }
        2 => {
            let n = nd::u16() as u64;
            (Value::Number(n), C::Bytes(leb(n)))
        }
        _ => {
            let (mut v, mut c) = (vec![], vec![]);
            for _ in 0..nd::range(0, 2) {
                let x = value(depth - 1, len);
                v.push(x.0);
                c.push(x.1);
            }
            (Value::Array(v), C::Array(c))
        }
    }
}
fn hash_c(c: &C) -> H {
    match c {
        C::Bytes(b) => sha(&[b]),
        C::Array(a) => {
            let h: Vec<H> = a.iter().map(hash_c).collect();
            sha(&h.iter().map(|x| x.as_slice()).collect::<Vec<_>>())
        }
    }
}
/// the hash of a map, after the interface specification: hashes of keys and values, put together in order
pub fn of_map(m: &[(H, H)]) -> H {
    let mut p: Vec<Vec<u8>> = m.iter().map(|x| [x.0, x.1].concat()).collect();
    // insertion sort
    for i in 1..p.len() {
        let mut j = i;
        while j > 0 && p[j] < p[j - 1] {
            p.swap(j, j - 1);
            j -= 1;
        }
    }
    sha(&p.iter().map(|x| x.as_slice()).collect::<Vec<_>>())
}
type Pair = ((String, Value), (Vec<u8>, C));
fn pairs(n: usize, depth: usize, len: usize) -> Vec<Pair> {
    (0..nd::range(0, n))
        .map(|_| {
            let k = text(nd::range(0, 1));
            let (v, c) = value(depth, len);
            ((k.clone(), v), (k.into_bytes(), c))
        })
        .collect()
}
fn real(p: &[Pair]) -> Vec<(String, Value)> {
    p.iter().map(|x| x.0.clone()).collect()
}
fn spec(n: usize, depth: usize, len: usize) {
    let p = pairs(n, depth, len);
    let want = of_map(&p.iter().map(|x| (sha(&[&x.1 .0]), hash_c(&x.1 .1))).collect::<Vec<_>>());
    nd::check(representation_independent_hash(&real(&p)) == want, "the hash is not the one of the interface specification");
}
fn c27_spec() {
    let b = nd::bytes(nd::range(0, 3));
    nd::check(hash(&b) == sha(&[&b]), "hash is not SHA-256");
    spec(2, 0, 1)
}
/// an array among other values
fn c27_array() {
    spec(1, 1, 1)
}
fn c27_spec_t() {
    spec(3, 0, 1)
}
/// every order gives the same hash
fn order(mut p: Vec<Pair>) {
    let h = representation_independent_hash(&real(&p));
    for i in (1..p.len()).rev() {
        let j = nd::choice(i + 1);
        p.swap(i, j);
    }
    nd::cover("permuted");
    nd::check(representation_independent_hash(&real(&p)) == h, "the hash depends on the order");
}
fn c27_order() {
    order(pairs(3, 0, 1))
}
fn c27_order_t() {
    let p = (0..4).map(|_| (text(1), nd::bytes(1))).map(|(k, v)| ((k.clone(), Value::Bytes(v.clone())), (k.into_bytes(), C::Bytes(v))));
    order(p.collect())
}
/// equal as multisets
pub fn same<X: PartialEq>(a: &[X], b: &[X]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.len() == 2 {
        return (a[0] == b[0]) & (a[1] == b[1]) | (a[0] == b[1]) & (a[1] == b[0]);
    }
    let mut left: Vec<&X> = b.iter().collect();
    for x in a {
        match left.iter().position(|y| *y == x) {
            Some(i) => {
                left.remove(i);
            }
            None => return false,
        }
    }
    true
}
fn bind(n: usize, m: usize, depth: usize) {
    let (a, b) = (pairs(n, depth, 1), pairs(m, depth, 1));
    let (c, d): (Vec<_>, Vec<_>) = (a.iter().map(|x| x.1.clone()).collect(), b.iter().map(|x| x.1.clone()).collect());
    let eq = representation_independent_hash(&real(&a)) == representation_independent_hash(&real(&b));
    let want = same(&c, &d);
    nd::cover(if want { "same" } else { "different" });
    nd::check(eq == want, "the hash does not stand for the content");
}
fn c27_bind() {
    bind(2, 1, 0);
}
fn c27_bind_t() {
    bind(2, 2, 0);
}
/// every number
fn c27_number() {
    let (a, b) = (nd::u64(), nd::u64());
    let h = |n| representation_independent_hash(&[("k".into(), Value::Number(n))]);
    nd::check(h(a) == of_map(&[(sha(&[b"k"]), sha(&[&leb(a)]))]), "a number is not hashed as its LEB128 encoding");
    nd::check((h(a) == h(b)) == (a == b), "two numbers have the same hash");
}
/// nested arrays
fn nested(a: (Value, C), b: (Value, C)) {
    let h = |v: &Value| representation_independent_hash(&[("k".into(), v.clone())]);
    nd::check(h(&a.0) == of_map(&[(sha(&[b"k"]), hash_c(&a.1))]), "an array is not hashed as the interface specification says");
    // an empty array has the hash of the empty text
    let want = norm(&a.1) == norm(&b.1);
    nd::cover(if want { "same" } else { "different" });
    nd::check((h(&a.0) == h(&b.0)) == want, "two values have the same hash");
}
fn c27_nested() {
    nested(value(1, 1), value(1, 1))
}
fn c27_nested_t() {
    nested(value(2, 1), value(1, 1))
}
fn norm(c: &C) -> C {
    match c {
        C::Array(a) if a.is_empty() => C::Bytes(vec![]),
        C::Array(a) => C::Array(a.iter().map(norm).collect()),
        c => c.clone(),
    }
}
/// many pairs, long keys and values, long arrays
fn c27_large() {
    let n = nd::pick(&[1, 8, 70]);
    let mut m: Vec<Pair> = (0..n)
        .map(|i| {
            let k = format!("{i}{}", "k".repeat(if i % 5 == 0 { 300 } else { i }));
            let (v, c) = match i % 4 {
                0 => (Value::String("s".repeat(9000)), C::Bytes(vec![b's'; 9000])),
                1 => (Value::Number(i as u64), C::Bytes(vec![i as u8])),
                2 => (Value::Bytes(vec![3; 66000]), C::Bytes(vec![3; 66000])),
                _ => {
                    let a: Vec<Vec<u8>> = (0..40).map(|j| vec![i as u8; j]).collect();
                    (Value::Array(a.iter().map(|b| Value::Bytes(b.clone())).collect()), C::Array(a.into_iter().map(C::Bytes).collect()))
                }
            };
            ((k.clone(), v), (k.into_bytes(), c))
        })
        .collect();
    let i = nd::pick(&[0, n / 2, n - 1]);
    let x = &mut m[i];
    let at = x.0 .0.len() - 1;
    let c = nd::ascii(1);
    match (&mut x.0 .1, &mut x.1 .1) {
        (Value::String(s), C::Bytes(b)) if nd::choice(2) == 0 => {
            let at = nd::pick(&[0, 8999]);
            s.replace_range(at..at + 1, &c);
            b[at] = c.as_bytes()[0];
        }
        (Value::Bytes(s), C::Bytes(b)) if nd::choice(2) == 0 => {
            let at = nd::pick(&[0, 65999]);
            s[at] = nd::u8();
            b[at] = s[at];
        }
        (Value::Array(s), C::Array(b)) if nd::choice(2) == 0 => {
            let at = nd::pick(&[1, 39]);
            let v = nd::bytes(at);
            s[at] = Value::Bytes(v.clone());
            b[at] = C::Bytes(v);
        }
        _ => {
            x.0 .0.replace_range(at.., &c);
            x.1 .0 = x.0 .0.clone().into_bytes();
        }
    }
    let want = of_map(&m.iter().map(|x| (sha(&[&x.1 .0]), hash_c(&x.1 .1))).collect::<Vec<_>>());
    nd::check(representation_independent_hash(&real(&m)) == want, "the hash is not the one of the interface specification");
    let h = want;
    m.reverse();
    nd::check(representation_independent_hash(&real(&m)) == h, "the hash depends on the order");
}
