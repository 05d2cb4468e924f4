//! ic-certification: certified maps (RbTree, NestedTree) and merging of witnesses
use crate::spec::*;
use ic_certification as ic;
use ic_certification::{merge_hash_trees, AsHashTree, HashTree, LookupResult as LR, NestedTree, RbTree};

harnesses! {
    c04_hist c04_big c04_eq c04_len c04_long c04_wide c04_hist_t c04_big_t
    c05_hist c05_len c05_long c05_kinds c05_big c05_del c05_balance c05_wide c05_hist_t c05_big_t
    c06_sym c06_big c06_range c06_range_big c06_range_len c06_long c06_wide c06_range_nested c06_prefix c06_nested c06_sym_t c06_range_t c06_prefix_t
    c07_hist c07_one c07_wit c07_len c07_long c07_deep c07_far c07_hist_t c07_wit_t
    c08_copies c08_nested c08_big c08_wide c08_copies_t
}

type M = RbTree<Vec<u8>, Vec<u8>>;
/// the model: a sorted list
type Model = Vec<(Vec<u8>, Vec<u8>)>;

fn pos(m: &Model, k: &[u8]) -> Result<usize, usize> {
    let mut i = 0;
    while i < m.len() {
        match m[i].0.as_slice().cmp(k) {
            std::cmp::Ordering::Less => i += 1,
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => break,
        }
    }
    Err(i)
}
fn put(m: &mut Model, k: &[u8], v: Vec<u8>) {
    match pos(m, k) {
        Ok(i) => m[i].1 = v,
        Err(i) => m.insert(i, (k.to_vec(), v)),
    }
}
fn del(m: &mut Model, k: &[u8]) {
    if let Ok(i) = pos(m, k) {
        m.remove(i);
    }
}
/// one arbitrary operation
fn op(t: &mut M, m: &mut Model, n: usize, key: Vec<u8>) {
    match nd::choice(3) {
        0 => {
            nd::cover("insert");
            let v = vec![n as u8; n % 3];
            t.insert(key.clone(), v.clone());
            put(m, &key, v);
        }
        1 => {
            nd::cover("delete");
            t.delete(&key);
            del(m, &key);
        }
        _ => {
            t.modify(&key, |v| v.push(n as u8));
            if let Ok(i) = pos(m, &key) {
                nd::cover("modify");
                m[i].1.push(n as u8)
            }
        }
    }
}
/// a map of n concrete keys (2, 4, 6, ...), put in in one of several orders
fn built(n: usize, order: usize) -> (M, Model) {
    let mut t = M::new();
    let mut m = vec![];
    for i in 0..n {
        let j = match order {
            0 => i,
            1 => n - 1 - i,
            2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
            3 => (i * 5 + 2) % n,
            4 => (i * 7 + 3) % n,
            _ => (i * 11 + 1) % n,
        };
        let k = vec![2 * j as u8 + 2];
        t.insert(k.clone(), vec![j as u8]);
        put(&mut m, &k, vec![j as u8]);
    }
    (t, m)
}
/// the map holds exactly the model
fn same(t: &M, m: &Model, q: &[u8]) {
    nd::check(t.is_empty() == m.is_empty(), "is_empty");
    let it: Vec<_> = t.iter().collect();
    nd::check(it.len() == m.len(), "iter: number of entries");
    for (a, b) in it.iter().zip(m) {
        nd::check(a.0 == &b.0, "iter: key");
        nd::check(a.1 == &b.1, "iter: value");
    }
    let fe = std::cell::RefCell::new(vec![]);
    t.for_each(|k, v| fe.borrow_mut().push((k.to_vec(), v.clone())));
    nd::check(&*fe.borrow() == m, "for_each");
    for (k, v) in m {
        nd::check(t.get(k) == Some(v), "get of a present key");
    }
    match pos(m, q) {
        Ok(i) => nd::check(t.get(q) == Some(&m[i].1), "get"),
        Err(_) => nd::check(t.get(q).is_none(), "get of an absent key"),
    }
}
fn hist(steps: usize) {
    let (mut t, mut m) = (M::new(), vec![]);
    for i in 0..steps {
        op(&mut t, &mut m, i, nd::bytes(1));
    }
    same(&t, &m, &nd::bytes(1));
}
fn c04_hist() {
    hist(4)
}
fn c04_hist_t() {
    hist(5)
}
fn big(ns: &[usize], orders: usize, steps: usize) -> (M, Model) {
    let n = nd::pick(ns);
    let (mut t, mut m) = built(n, nd::choice(orders));
    for i in 0..steps {
        op(&mut t, &mut m, i, nd::bytes(1));
    }
    (t, m)
}
fn c04_big() {
    let (t, m) = big(&[3, 6, 8, 13], 4, 2);
    same(&t, &m, &nd::bytes(1));
}
fn c04_big_t() {
    let (t, m) = big(&[4, 7, 10, 17], 6, 3);
    same(&t, &m, &[9]);
}
/// keys of different lengths
fn c04_len() {
    let (mut t, mut m) = (M::new(), vec![]);
    for i in 0..3 {
        op(&mut t, &mut m, i, nd::bytes(nd::range(0, 2)));
    }
    same(&t, &m, &nd::bytes(nd::range(0, 2)));
}
/// many entries, long keys
fn wide(n: usize) -> (M, Model) {
    let (mut t, mut m) = (M::new(), vec![]);
    let o = nd::choice(2);
    for i in 0..n {
        let j = [i, (i * 7 + 3) % n][o];
        let k = [vec![2 * j as u8 + 2], vec![b'k'; if j % 4 == 0 { 300 } else { j % 4 - 1 }]].concat();
        t.insert(k.clone(), vec![j as u8]);
        put(&mut m, &k, vec![j as u8]);
    }
    (t, m)
}
/// a key of such a map, or one next to it
fn wide_key(n: usize) -> Vec<u8> {
    match nd::choice(3) {
        0 => vec![2 * nd::pick(&[0, n / 2, n - 1]) as u8 + 2 + nd::choice(2) as u8],
        1 => [vec![2 * nd::pick(&[0, n / 4 * 4 - 4]) as u8 + 2], vec![b'k'; 299], nd::bytes(nd::range(0, 1))].concat(),
        _ => vec![nd::pick(&[0, 1, 101, 255])],
    }
}
fn c04_wide() {
    let n = 100;
    let (mut t, mut m) = wide(n);
    op(&mut t, &mut m, 250, wide_key(n));
    same(&t, &m, &[10, b'k']);
}
/// long keys that begin alike
fn long_map(n: &[usize], steps: usize) -> (M, Model, Vec<u8>) {
    let s = crate::tree::start(n);
    let key = || [&s[..], &nd::bytes(nd::range(0, 2))].concat();
    let (mut t, mut m) = (M::new(), vec![]);
    for i in 0..2 {
        let k = key();
        t.insert(k.clone(), vec![i]);
        put(&mut m, &k, vec![i]);
    }
    for i in 0..steps {
        op(&mut t, &mut m, i + 2, key());
    }
    let mut q = key();
    if nd::choice(2) == 1 {
        q[0] = nd::u8();
    }
    (t, m, q)
}
fn c04_long() {
    let (t, m, q) = long_map(&[7, 8, 16, 32, 64], 1);
    same(&t, &m, &q);
}
/// equality, order and collecting depend on the content only
fn c04_eq() {
    let a: Vec<(Vec<u8>, Vec<u8>)> = (0..nd::range(0, 3)).map(|i| (nd::bytes(1), vec![i as u8 % 2])).collect();
    let b: Vec<(Vec<u8>, Vec<u8>)> = (0..nd::range(0, 3)).map(|i| (nd::bytes(1), vec![i as u8 % 2])).collect();
    let (ta, tb): (M, M) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let (mut ma, mut mb) = (vec![], vec![]);
    for x in &a {
        put(&mut ma, &x.0, x.1.clone());
    }
    for x in &b {
        put(&mut mb, &x.0, x.1.clone());
    }
    nd::check((ta == tb) == (ma == mb), "equality differs from equality of content");
    nd::check(ta.cmp(&tb) == ma.cmp(&mb), "order differs from the order of the contents");
    nd::check(ta.clone() == ta, "clone");
    if ma == mb {
        nd::cover("equal")
    }
}

// ---- C05
/// (shortest, longest) way to a missing child, in nodes of the search tree
fn height(t: &T) -> (usize, usize) {
    let (l, r) = match t {
        Empty => return (0, 0),
        Labeled(..) => return (1, 1),
        Fork(a, b) => match (&**a, &**b) {
            (x, Labeled(..)) => (height(x), (0, 0)),
            (x, Fork(m, r)) if matches!(**m, Labeled(..)) => (height(x), height(r)),
            (Labeled(..), x) => ((0, 0), height(x)),
            _ => {
                nd::check(false, "the tree is not a search tree");
                return (0, 0);
            }
        },
        _ => {
            nd::check(false, "the tree hides something");
            return (0, 0);
        }
    };
    nd::check(l.1.max(r.1) + 1 <= 2 * (l.0.min(r.0) + 1), "the tree is not balanced");
    (1 + l.0.min(r.0), 1 + l.1.max(r.1))
}
/// the root hash is the one of the present content
fn current(t: &M, m: &Model) {
    let full = t.as_hash_tree();
    let v = view(full.as_ref());
    nd::check(v.well_formed(), "as_hash_tree is not well-formed");
    let l = v.leaves();
    nd::check(l.len() == m.len(), "as_hash_tree: number of entries");
    for (a, b) in l.iter().zip(m) {
        nd::check(a.0.len() == 1 && a.0[0] == b.0 && a.1 == b.1, "as_hash_tree: entry");
    }
    nd::check(t.root_hash() == v.digest(), "the root hash is stale");
    nd::check(full.digest() == v.digest(), "as_hash_tree().digest()");
    height(&v);
}
fn c05_hist_(steps: usize) {
    let (mut t, mut m) = (M::new(), vec![]);
    for i in 0..steps {
        op(&mut t, &mut m, i, nd::bytes(1));
        if i + 1 < steps {
            nd::check(t.root_hash() == t.as_hash_tree().digest(), "the root hash is stale");
        }
    }
    current(&t, &m);
}
fn c05_hist() {
    c05_hist_(4)
}
fn c05_len() {
    let (mut t, mut m) = (M::new(), vec![]);
    for i in 0..3 {
        op(&mut t, &mut m, i, nd::bytes(nd::range(0, 2)));
    }
    current(&t, &m);
}
fn c05_long() {
    let (t, m, _) = long_map(&[3, 7, 8, 15, 16, 31, 32, 63, 64, 255], 1);
    current(&t, &m);
}
/// other kinds of values: digests, maps, long values
fn c05_kinds() {
    fn grow<V: AsHashTree + Clone + PartialEq + 'static>(v: impl Fn(u8) -> V, want: impl Fn(&V) -> T) {
        let mut t: RbTree<Vec<u8>, V> = RbTree::new();
        let mut m: Vec<(Vec<u8>, V)> = vec![];
        for i in 0..nd::range(1, 4) as u8 {
            let k = nd::bytes(1);
            let x = v(i);
            t.insert(k.clone(), x.clone());
            m.retain(|e| e.0 != k);
            m.push((k, x));
        }
        if nd::choice(2) == 1 {
            let x = v(9);
            let k = m[0].0.clone();
            t.modify(&k, |e| *e = x.clone());
            m[0].1 = x;
        }
        let r = view(t.as_hash_tree().as_ref());
        nd::check(r.well_formed(), "as_hash_tree is not well-formed");
        nd::check(t.root_hash() == r.digest(), "the root hash is stale");
        for (k, x) in &m {
            nd::check(t.get(k) == Some(x), "get");
            nd::check(matches!(r.walk(&[k.clone()]), R::Found(e) if *e == want(x)), "as_hash_tree: value");
            let w = view(t.witness(k).as_ref());
            nd::check(w.digest() == t.root_hash(), "the witness has another digest");
            nd::check(matches!(w.walk(&[k.clone()]), R::Found(e) if *e == want(x)), "witness: value");
        }
    }
    match nd::choice(3) {
        0 => grow(|i| { let mut h = [i; 32]; h[0] = nd::u8(); h }, |h| Leaf(h.to_vec())),
        1 => {
            let n = nd::pick(&[33, 64, 256, 5000]);
            grow(|i| { let mut v = vec![i; n]; v[n - 1] = nd::u8(); v }, |v| Leaf(v.clone()))
        }
        _ => grow(|i| (0..i).map(|j| (vec![j], vec![i])).collect::<M>(), |m| view(m.as_hash_tree().as_ref())),
    }
}
fn c05_hist_t() {
    c05_hist_(5)
}
fn c05_big() {
    let (t, m) = big(&[3, 6, 8, 13], 4, 2);
    current(&t, &m);
}
fn c05_big_t() {
    let (t, m) = big(&[4, 7, 10, 17], 6, 3);
    current(&t, &m);
}
/// deleting in any order
fn c05_del() {
    let n = nd::pick(&[5, 7, 10]);
    let (mut t, mut m) = built(n, nd::choice(4));
    for _ in 0..nd::range(3, 4) {
        let k = nd::u8();
        let k = vec![k];
        nd::assume(pos(&m, &k).is_ok());
        t.delete(&k);
        del(&mut m, &k);
    }
    current(&t, &m);
}
/// growing and shrinking a larger tree
fn c05_balance() {
    let n = nd::pick(&[31, 60]);
    let (mut t, mut m) = built(n, nd::choice(4));
    // take away one side
    let lo = nd::bool();
    for i in 0..n / 2 {
        let k = vec![2 * (if lo { i } else { n - 1 - i }) as u8 + 2];
        t.delete(&k);
        del(&mut m, &k);
    }
    op(&mut t, &mut m, 2, nd::bytes(1));
    current(&t, &m);
}

fn c05_wide() {
    let n = 100;
    let (mut t, mut m) = wide(n);
    op(&mut t, &mut m, 250, wide_key(n));
    op(&mut t, &mut m, 251, vec![2 * nd::pick(&[17, n - 1]) as u8 + 2]);
    current(&t, &m);
}

// ---- C06
/// what a witness may show
struct May<'a> {
    /// labels that may be seen
    label: &'a dyn Fn(&[u8]) -> bool,
    /// labels whose values must be seen (all others must stay hidden)
    value: &'a dyn Fn(&[u8]) -> bool,
}
fn proves(t: &M, w: &HashTree, may: May) -> T {
    let v = view(w.as_ref());
    nd::check(v.well_formed(), "the witness is not a well-formed tree");
    nd::check(v.digest() == t.root_hash(), "the witness has another digest than the map's root hash");
    nd::check(w.digest() == t.root_hash(), "witness.digest()");
    let mut f = vec![];
    v.flat(&mut f);
    for x in f {
        match x {
            Labeled(l, s) => {
                nd::check((may.label)(l), "the witness shows a key that was not asked for");
                match &**s {
                    Leaf(x) => {
                        nd::check((may.value)(l), "the witness shows a value that was not asked for");
                        nd::check(t.get(l) == Some(x), "the witness shows a wrong value");
                    }
                    Pruned(_) => nd::check(!(may.value)(l), "the witness hides a value that was asked for"),
                    _ => nd::check(false, "the witness shows something that is not a value"),
                }
            }
            Pruned(_) => {}
            _ => nd::check(false, "the witness shows something that is not an entry"),
        }
    }
    v
}
fn pred<'a>(m: &'a Model, k: &[u8]) -> Option<&'a [u8]> {
    m.iter().rev().find(|x| x.0.as_slice() < k).map(|x| x.0.as_slice())
}
fn succ<'a>(m: &'a Model, k: &[u8]) -> Option<&'a [u8]> {
    m.iter().find(|x| x.0.as_slice() > k).map(|x| x.0.as_slice())
}
fn point(t: &M, m: &Model, k: &[u8]) {
    let w = t.witness(k);
    match pos(m, k) {
        Ok(i) => {
            nd::cover("present");
            let v = proves(t, &w, May { label: &|l| l == k, value: &|_| true });
            nd::check(v.lookup(&[k.to_vec()]) == LR::Found(&m[i].1), "the witness does not prove the value");
        }
        Err(_) => {
            nd::cover("absent");
            let (p, s) = (pred(m, k), succ(m, k));
            let v = proves(t, &w, May { label: &|l| Some(l) == p || Some(l) == s, value: &|_| false });
            nd::check(v.lookup(&[k.to_vec()]) == LR::Absent, "the witness does not prove the absence");
            nd::check(w.lookup_path([k]) == LR::Absent, "the witness does not prove the absence (lookup_path)");
        }
    }
}
/// a map with n arbitrary keys, one of them perhaps deleted again
fn any_map(n: usize, len: (usize, usize)) -> (M, Model) {
    let (mut t, mut m) = (M::new(), vec![]);
    for i in 0..n {
        let k = nd::bytes(nd::range(len.0, len.1));
        t.insert(k.clone(), vec![i as u8]);
        put(&mut m, &k, vec![i as u8]);
    }
    (t, m)
}
fn c06_sym_(n: usize) {
    let (mut t, mut m) = any_map(nd::range(0, n), (1, 1));
    if m.len() > 2 && nd::choice(2) == 1 {
        let k = m[nd::choice(m.len())].0.clone();
        t.delete(&k);
        del(&mut m, &k);
    }
    let k = nd::bytes(1);
    point(&t, &m, &k);
    // nested_witness: the caller decides what stands for the value
    let w = t.nested_witness(&k, |v| ic::pruned(v.root_hash()));
    let present = pos(&m, &k).is_ok();
    let (p, s) = (pred(&m, &k), succ(&m, &k));
    let v = proves(&t, &w, May { label: &|l| if present { l == k } else { Some(l) == p || Some(l) == s }, value: &|_| false });
    nd::check(v.lookup(&[k.clone()]) == if present { LR::Unknown } else { LR::Absent }, "nested_witness");
    // all keys
    let v = proves(&t, &t.keys(), May { label: &|_| true, value: &|_| false });
    let mut f = vec![];
    v.flat(&mut f);
    nd::check(f.len() == m.len(), "keys() does not show all keys");
    nd::check(v.lookup(&[k]) == if present { LR::Unknown } else { LR::Absent }, "keys()");
}
fn c06_sym() {
    c06_sym_(4)
}
fn c06_sym_t() {
    c06_sym_(5)
}
fn c06_big() {
    let (mut t, mut m) = big(&[7, 12, 20], 5, 0);
    match nd::choice(3) {
        0 => {}
        1 => op(&mut t, &mut m, 1, nd::bytes(1)),
        _ => {
            let k = m[nd::choice(m.len())].0.clone();
            t.delete(&k);
            del(&mut m, &k);
        }
    }
    point(&t, &m, &nd::bytes(1));
}
fn ranges(t: &M, m: &Model, a: &[u8], b: &[u8], q: &[u8]) {
    nd::assume(a <= b);
    let inside = |k: &[u8]| a <= k && k <= b;
    let (p, s) = (pred(m, a), succ(m, b));
    // a neighbour is needed only where the bound itself is not a key
    let (has_a, has_b) = (pos(m, a).is_ok(), pos(m, b).is_ok());
    let may = |l: &[u8]| inside(l) || (!has_a && Some(l) == p) || (!has_b && Some(l) == s);
    for values in [false, true] {
        let w = if values { t.value_range(a, b) } else { t.key_range(a, b) };
        let v = proves(t, &w, May { label: &may, value: &|l| values && inside(l) });
        for (k, x) in m {
            if inside(k) {
                nd::cover("inside");
                match v.walk(&[k.clone()]) {
                    R::Found(Leaf(y)) => nd::check(values && x == y, "value_range: value"),
                    R::Found(_) => nd::check(!values, "value_range hides a value"),
                    _ => nd::check(false, "a key of the range is not in the witness"),
                }
            }
        }
        if inside(q) && pos(m, q).is_err() {
            nd::cover("absent inside");
            nd::check(v.lookup(&[q.to_vec()]) == LR::Absent, "the range witness leaves a key of the range open");
        }
    }
}
fn c06_range() {
    let (t, m) = any_map(nd::range(0, 3), (1, 1));
    ranges(&t, &m, &nd::bytes(1), &nd::bytes(1), &nd::bytes(1));
}
/// keys and ends of different lengths
fn c06_range_len() {
    let (t, m) = any_map(nd::range(1, 2), (0, 2));
    let end = || nd::bytes(nd::range(0, 2));
    ranges(&t, &m, &end(), &end(), &nd::bytes(nd::range(0, 2)));
}
fn c06_range_t() {
    let (t, m) = any_map(nd::range(0, 4), (0, 1));
    ranges(&t, &m, &nd::bytes(1), &nd::bytes(nd::range(0, 2)), &nd::bytes(1));
}
fn c06_range_big() {
    let (t, m) = big(&[7, 12], 4, 0);
    ranges(&t, &m, &nd::bytes(1), &nd::bytes(1), &nd::bytes(1));
}
fn prefixes(t: &M, m: &Model, p: &[u8], q: &[u8]) {
    let w = t.keys_with_prefix(p);
    let has = pos(m, p).is_ok();
    let before = if has { None } else { pred(m, p) };
    let after = m.iter().find(|x| x.0.as_slice() > p && !x.0.starts_with(p)).map(|x| x.0.as_slice());
    let v = proves(t, &w, May { label: &|l| l.starts_with(p) || Some(l) == before || Some(l) == after, value: &|_| false });
    for (k, _) in m {
        if k.starts_with(p) {
            nd::cover("has prefix");
            nd::check(matches!(v.walk(&[k.clone()]), R::Found(Pruned(_))), "a key with the prefix is not in the witness");
        }
    }
    if q.starts_with(p) && pos(m, q).is_err() {
        nd::cover("absent with prefix");
        nd::check(v.lookup(&[q.to_vec()]) == LR::Absent, "the prefix witness leaves a key with the prefix open");
    }
}
fn c06_prefix_(n: usize, q: usize) {
    let (t, m) = any_map(nd::range(0, n), (0, 2));
    prefixes(&t, &m, &nd::bytes(nd::range(0, 2)), &nd::bytes(nd::range(0, q)));
}
fn c06_prefix() {
    c06_prefix_(2, 2)
}
fn c06_prefix_t() {
    c06_prefix_(3, 3)
}
fn c06_nested() {
    let (t, m) = nested(&[9, 16]);
    prefixes(&t, &m, &nd::bytes(nd::range(0, 2)), &nd::bytes(2));
}
fn c06_range_nested() {
    let (t, m) = nested(&[6]);
    ranges(&t, &m, &nd::bytes(nd::range(0, 2)), &nd::bytes(nd::range(0, 2)), &nd::bytes(nd::range(1, 2)));
}
/// long keys that begin alike: one key, a range, a prefix
fn c06_long() {
    let (t, m, q) = long_map(&[8], 0);
    match nd::choice(3) {
        0 => point(&t, &m, &q),
        1 => {
            let end = [&q[..q.len() - 1], &nd::bytes(1)].concat();
            let a = m.first().map_or(vec![], |x| x.0.clone());
            ranges(&t, &m, &a, &end, &q)
        }
        _ => {
            let p = q[..q.len() - nd::range(0, 2)].to_vec();
            prefixes(&t, &m, &p, &q)
        }
    }
}
/// many entries, long keys
fn c06_wide() {
    let n = 100;
    let (t, m) = wide(n);
    let k = wide_key(n);
    match nd::choice(3) {
        0 => point(&t, &m, &k),
        1 => {
            let q = vec![nd::u8()];
            ranges(&t, &m, &k, &[2 * nd::pick(&[n / 2, n - 1]) as u8 + 3, b'k'], &q)
        }
        _ => {
            let p = k[..nd::pick(&[0, 1, 200]).min(k.len())].to_vec();
            prefixes(&t, &m, &p, &k)
        }
    }
}
/// larger maps of keys of one and two bytes
fn nested(sizes: &[usize]) -> (M, Model) {
    let (mut t, mut m) = (M::new(), vec![]);
    let n = nd::pick(sizes);
    let o = nd::choice(3);
    for i in 0..n {
        let j = [i, n - 1 - i, (i * 7 + 3) % n][o];
        let k = if j % 4 == 0 { vec![j as u8 / 4 * 2] } else { vec![j as u8 / 4 * 2, j as u8 % 4 * 2] };
        t.insert(k.clone(), vec![j as u8]);
        put(&mut m, &k, vec![j as u8]);
    }
    (t, m)
}

// ---- C07
type N = NestedTree<Vec<u8>, Vec<u8>>;
type NModel = Vec<(Vec<Vec<u8>>, Vec<u8>)>;
fn is_prefix(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.len() <= b.len() && &b[..a.len()] == a
}
fn nput(m: &mut NModel, p: &[Vec<u8>], v: Vec<u8>) {
    // a value replaces what was below its path, and a value on the way to it
    m.retain(|x| !is_prefix(p, &x.0) && !is_prefix(&x.0, p));
    m.push((p.to_vec(), v));
    let mut i = m.len() - 1;
    while i > 0 && m[i].0 < m[i - 1].0 {
        m.swap(i, i - 1);
        i -= 1;
    }
}
fn ndel(m: &mut NModel, p: &[Vec<u8>]) {
    m.retain(|x| !is_prefix(p, &x.0));
}
fn any_path(d: (usize, usize)) -> Vec<Vec<u8>> {
    (0..nd::range(d.0, d.1)).map(|_| nd::bytes(1)).collect()
}
fn nsame(t: &N, m: &NModel, q: &[Vec<u8>]) {
    let full = t.as_hash_tree();
    let v = view(full.as_ref());
    nd::check(v.well_formed(), "as_hash_tree is not well-formed");
    nd::check(t.root_hash() == v.digest(), "the root hash is stale");
    nd::check(&v.leaves() == m, "the tree holds other paths than the map");
    // no empty remains
    fn remains(t: &T) -> bool {
        match t {
            Fork(a, b) => remains(a) || remains(b),
            Labeled(_, x) => matches!(**x, Empty) || remains(x),
            _ => false,
        }
    }
    nd::check(!remains(&v), "a deleted path leaves empty remains");
    if m.is_empty() {
        nd::cover("empty");
        nd::check(t.root_hash() == ic::empty().digest(), "an empty tree does not have the empty root hash");
    }
    for x in m {
        nd::check(t.get(&x.0) == Some(&x.1) && t.contains_leaf(&x.0) && t.contains_path(&x.0), "get of a present path");
    }
    let here = m.iter().find(|x| x.0 == q);
    nd::check(t.get(q) == here.map(|x| &x.1), "get");
    nd::check(t.contains_leaf(q) == here.is_some(), "contains_leaf");
    let below = m.iter().any(|x| is_prefix(q, &x.0));
    nd::check(t.contains_path(q) == (below || q.is_empty()), "contains_path");
}
fn nop(t: &mut N, m: &mut NModel, i: usize, d: (usize, usize)) {
    let p = any_path(d);
    if nd::choice(2) == 0 {
        t.insert(&p, vec![i as u8]);
        nput(m, &p, vec![i as u8]);
    } else {
        t.delete(&p);
        ndel(m, &p);
    }
}
fn nhist(steps: usize, d: (usize, usize)) -> (N, NModel) {
    let (mut t, mut m) = (N::default(), vec![]);
    for i in 0..steps {
        nop(&mut t, &mut m, i, d);
    }
    (t, m)
}
fn c07_hist() {
    let (t, m) = nhist(3, (1, 2));
    nsame(&t, &m, &any_path((0, 2)));
}
fn c07_hist_t() {
    let (t, m) = nhist(4, (0, 2));
    nsame(&t, &m, &any_path((1, 2)));
}
/// a larger tree of concrete paths
fn nbuilt(n: usize) -> (N, NModel) {
    let (mut t, mut m) = (N::default(), vec![]);
    for i in 0..n {
        let j = (i * 7 + 3) % n;
        let p: Vec<Vec<u8>> = match j % 5 {
            0 => vec![vec![2], vec![2 * j as u8 + 2]],
            1 => vec![vec![4], vec![2], vec![j as u8]],
            2 => vec![vec![6], vec![2 * j as u8]],
            3 => vec![vec![8 + 2 * j as u8]],
            _ => vec![vec![4], vec![4 + 2 * j as u8]],
        };
        t.insert(&p, vec![j as u8]);
        nput(&mut m, &p, vec![j as u8]);
    }
    (t, m)
}
/// insert and delete again
fn c07_one() {
    let (mut t, mut m) = nbuilt(nd::pick(&[0, 1, 3, 12]));
    let p = any_path((1, 3));
    let before = m.clone();
    let related = m.iter().any(|x| is_prefix(&x.0, &p) || is_prefix(&p, &x.0));
    t.insert(&p, vec![77]);
    nput(&mut m, &p, vec![77]);
    nsame(&t, &m, &p);
    t.delete(&p);
    ndel(&mut m, &p);
    if !related {
        nd::cover("undone");
        nd::check(m == before, "model");
    }
    nsame(&t, &m, &p);
    let mut c = t.clone();
    c.clear();
    nsame(&c, &vec![], &p);
}
fn nwit(t: &N, m: &NModel, q: &[Vec<u8>]) {
    let w = t.witness(q);
    let v = view(w.as_ref());
    nd::check(v.well_formed(), "the witness is not well-formed");
    nd::check(v.digest() == t.root_hash(), "the witness has another digest than the tree's root hash");
    nd::check(w.digest() == t.root_hash(), "witness.digest()");
    if let Some(x) = m.iter().find(|x| x.0 == q) {
        nd::cover("present");
        nd::check(v.lookup(q) == LR::Found(&x.1), "the witness does not prove the value");
        nd::check(w.lookup_path(q) == LR::Found(&x.1), "the witness does not prove the value (lookup_path)");
        nd::check(v.leaves().len() == 1, "the witness shows values that were not asked for");
    } else if !m.iter().any(|x| is_prefix(q, &x.0)) {
        nd::cover("absent");
        nd::check(v.lookup(q) == LR::Absent, "the witness does not prove the absence");
        nd::check(w.lookup_path(q) == LR::Absent, "the witness does not prove the absence (lookup_path)");
        let through = m.iter().filter(|x| is_prefix(&x.0, q)).count();
        nd::check(v.leaves().len() == through, "the witness shows values that were not asked for");
    } else {
        nd::cover("subtree");
        let l = v.leaves();
        let want: NModel = m.iter().filter(|x| is_prefix(q, &x.0)).cloned().collect();
        nd::check(l == want, "the witness of a subtree shows something else than the subtree");
    }
}
fn c07_wit() {
    if nd::choice(2) == 0 {
        let (t, m) = nhist(3, (1, 2));
        nwit(&t, &m, &any_path((0, 3)));
    } else {
        let (t, m) = nbuilt(nd::pick(&[5, 15, 24]));
        nwit(&t, &m, &any_path((0, 3)));
    }
}
/// segments of different lengths
fn c07_len() {
    let p = || -> Vec<Vec<u8>> { (0..nd::range(1, 2)).map(|_| nd::bytes(nd::range(0, 2))).collect() };
    let (mut t, mut m) = (N::default(), vec![]);
    let (a, b) = (p(), p());
    t.insert(&a, vec![1]);
    nput(&mut m, &a, vec![1]);
    t.insert(&b, vec![2]);
    nput(&mut m, &b, vec![2]);
    if nd::choice(2) == 1 {
        t.delete(&a);
        ndel(&mut m, &a);
    }
    let q = p();
    nwit(&t, &m, &q);
    nsame(&t, &m, &q);
}
/// long segments that begin alike
fn c07_long() {
    let s = crate::tree::start(&[8, 32]);
    let p = || -> Vec<Vec<u8>> { (0..nd::range(1, 2)).map(|_| [&s[..], &nd::bytes(nd::range(0, 1))].concat()).collect() };
    let (mut t, mut m) = (N::default(), vec![]);
    for i in 0..2 {
        let a = p();
        t.insert(&a, vec![i]);
        nput(&mut m, &a, vec![i]);
    }
    let q = p();
    nwit(&t, &m, &q);
    t.delete(&q);
    ndel(&mut m, &q);
    nsame(&t, &m, &p());
}
/// deep paths that share their beginnings
fn c07_deep() {
    let (mut t, mut m) = nbuilt(nd::pick(&[0, 5]));
    let p = || -> Vec<Vec<u8>> {
        let mut p = vec![vec![4]; nd::range(1, 5)];
        if nd::choice(2) == 1 {
            p.push(nd::bytes(1));
        }
        p
    };
    for (i, x) in [vec![vec![4]; 5], [vec![vec![4]; 4], vec![vec![5]]].concat(), p()].iter().enumerate() {
        t.insert(x, vec![i as u8]);
        nput(&mut m, x, vec![i as u8]);
    }
    let q = p();
    t.delete(&q);
    ndel(&mut m, &q);
    nsame(&t, &m, &q);
    nwit(&t, &m, &p());
}
/// paths of many and of long segments, many paths
fn c07_far() {
    let d = nd::pick(&[9, 32]);
    let seg = |i: usize| vec![b's' + i as u8 % 3; if i % 8 == 7 { 300 } else { 1 + i % 2 }];
    let base = || -> Vec<Vec<u8>> { (0..d).map(seg).collect() };
    let (mut t, mut m) = nbuilt(15);
    let any = || {
        let mut p = base();
        let i = nd::pick(&[0, 7, d - 1]);
        match nd::choice(4) {
            0 => {}
            1 => {
                let k = p[i].len() - 1;
                p[i][k] = nd::u8()
            }
            2 => p[i].push(nd::u8()),
            _ => {
                p.truncate(i);
                p.push(nd::bytes(1));
            }
        }
        p
    };
    let mut all = vec![base(), any()];
    let mut x = base();
    x[d / 2] = vec![1];
    all.push(x);
    for (i, x) in all.iter().enumerate() {
        t.insert(x, vec![i as u8]);
        nput(&mut m, x, vec![i as u8]);
    }
    let q = any();
    if nd::choice(2) == 0 {
        t.delete(&q);
        ndel(&mut m, &q);
    }
    nsame(&t, &m, &q);
    nwit(&t, &m, &q);
}
fn c07_wit_t() {
    let (t, m) = nhist(4, (1, 2));
    nwit(&t, &m, &any_path((0, 2)));
}

// ---- C08
fn merged(a: &HashTree, b: &HashTree, full: &[u8; 32], q: &[Vec<u8>]) -> T {
    let w = merge_hash_trees(a.clone(), b.clone());
    let v = view(w.as_ref());
    nd::check(&v.digest() == full, "merging changes the digest");
    let r = v.walk(q);
    for x in [a, b] {
        let x = view(x.as_ref());
        match (x.walk(q), &r) {
            (R::Unknown, _) | (R::Found(Pruned(_)), R::Found(_)) => nd::cover("open"),
            (R::Absent, R::Absent) => nd::cover("absence kept"),
            (R::Found(s), R::Found(t)) => {
                nd::cover("value kept");
                nd::check(s.digest() == t.digest(), "merging loses a subtree");
                nd::check(matches!(s, Labeled(..) | Fork(..)) || s == *t, "merging loses a value");
            }
            _ => nd::check(false, "merging loses an answer"),
        }
    }
    v
}
fn c08(nodes: usize, depth: usize) {
    let t = gen(&mut Gen { nodes, hidden: false, empty: true, label: (1, 1), leaf: (1, 1) }, false);
    nd::assume(t.well_formed());
    let (a, b) = (t.pruned_somewhere(), t.pruned_somewhere());
    let v = merged(&a.real(), &b.real(), &t.digest(), &any_path((0, depth)));
    // and exactly the visible parts of both
    fn both(a: &T, b: &T) -> T {
        match (a, b) {
            (Pruned(_), x) | (x, Pruned(_)) => x.clone(),
            (Fork(a, b), Fork(c, d)) => Fork(Box::new(both(a, c)), Box::new(both(b, d))),
            (Labeled(l, x), Labeled(_, y)) => Labeled(l.clone(), Box::new(both(x, y))),
            (x, _) => x.clone(),
        }
    }
    nd::check(v == both(&a, &b), "the merged tree does not show what the two copies show");
}
fn c08_copies() {
    c08(6, 1)
}
fn c08_copies_t() {
    c08(8, 2)
}
/// witnesses of a nested tree
fn c08_nested() {
    let (t, m) = if nd::choice(2) == 0 { nhist(2, (1, 2)) } else { nbuilt(nd::pick(&[5, 15])) };
    let (p, q) = (any_path((1, 2)), any_path((1, 2)));
    let (a, b) = (t.witness(&p), t.witness(&q));
    let h = t.root_hash();
    merged(&a, &b, &h, &p);
    let v = merged(&a, &b, &h, &q);
    for x in &m {
        if x.0 == p || x.0 == q {
            nd::check(v.lookup(&x.0) == LR::Found(&x.1), "a merged witness does not prove its value");
        }
    }
}
/// two copies of a large tree, each with one or two hidden parts
fn c08_big() {
    use crate::tree::*;
    let step = nd::pick(&[1, 4]);
    let t = large(if step == 1 { 4 } else { 10 }, nd::choice(4));
    let n = count(&t);
    let mut a = hide(&t, nd::choice(n.div_ceil(step)) * step);
    let b = hide(&t, nd::choice(n));
    let k = count(&a);
    let k = nd::pick(&[k, k / 2, k - 1]);
    if k < count(&a) {
        a = hide(&a, k);
    }
    merged(&a.real(), &b.real(), &t.digest(), &any_path((1, 2)));
}
/// large trees, deep ones, long labels
fn c08_wide() {
    use crate::tree::*;
    let t = huge();
    let n = count(&t);
    let at = || nd::pick(&[n / 7, n / 2, n - 1]);
    let mut a = hide(&t, at());
    let b = hide(&t, at());
    let k = count(&a);
    a = hide(&a, nd::pick(&[k / 2, k - 1]));
    let q = huge_path();
    merged(&a.real(), &b.real(), &t.digest(), &q);
}
