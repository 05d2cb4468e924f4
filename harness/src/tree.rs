//! ic-certification: hash trees
use crate::spec::*;
use ic_certification as ic;
use ic_certification::hash_tree::{fork_hash, labeled_hash, leaf_hash};
use ic_certification::{LookupResult as LR, SubtreeLookupResult as SR};

harnesses! { c01_small c01_labels c01_path2 c01_big c01_deep c01_wide c01_long c01_thorough c02_small c02_big c02_long c02_wide c02_thorough c03_long c03_spec c03_inject c03_leaf_fork c03_spec_t c03_inject_t }

fn path(n: usize, lo: usize, hi: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| nd::bytes(nd::range(lo, hi))).collect()
}
fn c01(nodes: usize, label: (usize, usize), plen: (usize, usize), seg: (usize, usize)) {
    let mut g = Gen { nodes, hidden: true, empty: true, label, leaf: (1, 1) };
    let t = gen(&mut g, false);
    nd::assume(t.well_formed());
    looked_up(&t, path(nd::range(plen.0, plen.1), seg.0, seg.1))
}
/// a tree of these labels; the shape is chosen
fn shaped(mut l: Vec<T>, shape: usize) -> T {
    if l.is_empty() {
        return Empty;
    }
    if l.len() == 1 {
        return l.pop().unwrap();
    }
    let n = match shape {
        0 => l.len() / 2,
        1 => 1,
        2 => l.len() - 1,
        _ => (l.len() / 3).max(1),
    };
    let r = l.split_off(n);
    fork(shaped(l, shape), shaped(r, shape))
}
/// n labels, of one and two bytes; every third has labels of its own below it
pub fn large(n: usize, shape: usize) -> T {
    let l = (0..n).map(|i| {
        let sub = match i % 3 {
            0 => Leaf(vec![i as u8]),
            1 => shaped((0..4).map(|j| lab(&[2 * j + 2], Leaf(vec![i as u8, j]))).collect(), (shape + i) % 4),
            _ => lab(&[7], lab(&[8], Leaf(vec![]))),
        };
        lab(&[], sub)
    });
    let mut l: Vec<T> = l.collect();
    for (i, x) in l.iter_mut().enumerate() {
        if let Labeled(a, _) = x {
            *a = if i % 3 == 0 { vec![i as u8 / 3 * 2 + 2] } else { vec![i as u8 / 3 * 2 + 2, i as u8 % 3 * 2] };
        }
    }
    shaped(l, shape)
}
pub fn count(t: &T) -> usize {
    1 + match t {
        Fork(a, b) => count(a) + count(b),
        Labeled(_, t) => count(t),
        _ => 0,
    }
}
/// with the i-th node hidden
pub fn hide(t: &T, i: usize) -> T {
    if i == 0 {
        return Pruned(t.digest());
    }
    match t {
        Fork(a, b) if i <= count(a) => fork(hide(a, i - 1), (**b).clone()),
        Fork(a, b) => fork((**a).clone(), hide(b, i - 1 - count(a))),
        Labeled(l, s) => lab(l, hide(s, i - 1)),
        t => t.clone(),
    }
}
fn c01_big() {
    let mut t = large(nd::pick(&[4, 10]), nd::choice(4));
    if nd::choice(2) == 1 {
        let i = nd::choice(count(&t));
        t = hide(&t, i);
    }
    looked_up(&t, (0..nd::range(1, 2)).map(|i| nd::bytes(nd::range(1, 2 - i))).collect())
}
/// the beginning of long labels and keys
pub fn start(n: &[usize]) -> Vec<u8> {
    (0..nd::pick(n)).map(|i| b'a' + i as u8 % 26).collect()
}
/// the same tree with longer labels at its top
fn longer(t: &T, s: &[u8]) -> T {
    match t {
        Fork(a, b) => fork(longer(a, s), longer(b, s)),
        Labeled(l, t) => lab(&[s, l].concat(), (**t).clone()),
        t => t.clone(),
    }
}
fn c01_long() {
    let t = gen(&mut Gen { nodes: 5, hidden: true, empty: false, label: (0, 2), leaf: (1, 1) }, false);
    nd::assume(t.well_formed());
    let s = start(&[3, 7, 8, 15, 16, 31, 32, 63, 64, 255]);
    let mut q = s.clone();
    match nd::choice(3) {
        0 => {
            q.pop();
        }
        1 => q[0] = nd::u8(),
        _ => {}
    }
    q.extend(nd::bytes(nd::range(0, 2)));
    looked_up(&longer(&t, &s), vec![q])
}
fn c02_long() {
    let t = gen(&mut Gen { nodes: 5, hidden: false, empty: false, label: (0, 2), leaf: (1, 1) }, false);
    nd::assume(t.well_formed());
    let (s, p) = (start(&[3, 8, 16, 32, 64]), nd::bytes(nd::range(0, 2)));
    let t = longer(&t, &s);
    copies(&t, &t.pruned_somewhere(), vec![[s, p].concat()])
}
/// a long chain of labels and forks
fn c01_deep() {
    let n = nd::pick(&[20, 150]);
    let mut t = Leaf(vec![1]);
    let odd = nd::choice(3);
    for i in 0..n {
        t = lab(&[5], t);
        t = match (odd, i % 3) {
            (1, 0) => fork(lab(&[3], Leaf(vec![])), t),
            (2, 0) => fork(t, lab(&[7], Leaf(vec![]))),
            (_, 1) => fork(t, Pruned([9; 32])),
            _ => t,
        };
    }
    let mut p = vec![vec![5]; n];
    let i = nd::pick(&[0, n / 2, n - 1]);
    p[i] = nd::bytes(1);
    match nd::choice(3) {
        0 => {
            p.pop();
        }
        1 => p.push(nd::bytes(1)),
        _ => {}
    }
    looked_up(&t, p)
}
/// many labels, of which some are long, and a deep part
pub fn huge() -> T {
    let n = 90;
    let deep = (0..60).fold(Leaf(vec![9]), |t, i| match i % 3 {
        0 => fork(lab(b"a", Leaf(vec![])), lab(b"l", t)),
        1 => fork(lab(b"l", t), lab(b"x", Leaf(vec![]))),
        _ => lab(b"l", t),
    });
    let l = (0..n).map(|i| {
        let k = [vec![2 * i as u8 + 2], vec![b'k'; if i % 4 == 0 { 300 } else { i % 4 - 1 }]].concat();
        lab(&k, if i == 8 { deep.clone() } else { Leaf(vec![i as u8; if i % 16 == 3 { 9000 } else { 1 }]) })
    });
    shaped(l.collect(), nd::choice(2))
}
/// a path in such a tree, or next to it
pub fn huge_path() -> Vec<Vec<u8>> {
    let long = [vec![18], vec![b'k'; 299]].concat();
    let mut p = match nd::choice(4) {
        0 => return vec![nd::bytes(1)],
        1 => return vec![vec![4, nd::u8()]],
        2 => return vec![[long, nd::bytes(nd::range(0, 2))].concat()],
        _ => [vec![[long, vec![b'k']].concat()], vec![vec![b'l']; nd::pick(&[10, 60])]].concat(),
    };
    match nd::choice(3) {
        0 => {}
        1 => p.push(nd::bytes(1)),
        _ => {
            let i = nd::pick(&[1, 9, p.len() - 1]);
            p[i] = nd::bytes(1)
        }
    }
    p
}
fn c01_wide() {
    let mut t = huge();
    if nd::choice(2) == 1 {
        let n = count(&t);
        t = hide(&t, nd::pick(&[n / 7, n / 2]));
    }
    looked_up(&t, huge_path())
}
fn c02_wide() {
    let t = huge();
    let n = count(&t);
    let mut q = hide(&t, nd::pick(&[1, n / 7, n / 3, n / 2, n - 1]));
    let k = count(&q);
    q = hide(&q, nd::pick(&[1, k / 5, k / 2, k - 1]));
    copies(&t, &q, huge_path())
}
fn looked_up(t: &T, p: Vec<Vec<u8>>) {
    let r = t.real();
    let want = t.lookup(&p);
    let got = r.lookup_path(&p);
    match (&want, &got) {
        (LR::Found(a), LR::Found(b)) => {
            nd::cover("found");
            nd::check(a == b, "lookup_path finds another value than the specification")
        }
        (LR::Absent, LR::Absent) => nd::cover("absent"),
        (LR::Unknown, LR::Unknown) => nd::cover("unknown"),
        (LR::Error, LR::Error) => nd::cover("error"),
        (LR::Absent, _) => nd::check(false, "lookup_path: specification says Absent"),
        (LR::Unknown, _) => nd::check(false, "lookup_path: specification says Unknown"),
        (LR::Error, _) => nd::check(false, "lookup_path: specification says Error"),
        (LR::Found(_), _) => nd::check(false, "lookup_path: specification says Found"),
    }
    match (t.walk(&p), r.lookup_subtree(p.iter())) {
        (R::Found(a), SR::Found(b)) => nd::check(a.real() == b, "lookup_subtree finds another subtree than the specification"),
        (R::Absent, SR::Absent) | (R::Unknown, SR::Unknown) => {}
        (R::Absent, _) => nd::check(false, "lookup_subtree: specification says Absent"),
        (R::Unknown, _) => nd::check(false, "lookup_subtree: specification says Unknown"),
        _ => nd::check(false, "lookup_subtree: specification says Found"),
    }
    // list_paths: the paths of the leaves, in order
    let lp = r.list_paths();
    let ls = t.leaves();
    nd::check(lp.len() == ls.len(), "list_paths: number of paths");
    for (a, b) in lp.iter().zip(&ls) {
        nd::check(a.len() == b.0.len() && a.iter().zip(&b.0).all(|(x, y)| x.as_bytes() == y.as_slice()), "list_paths: path");
    }
}
fn c01_small() {
    c01(9, (1, 1), (0, 1), (1, 1))
}
fn c01_labels() {
    c01(6, (0, 2), (1, 1), (0, 2))
}
fn c01_path2() {
    c01(8, (1, 1), (2, 2), (1, 1))
}
fn c01_thorough() {
    c01(10, (1, 1), (0, 3), (1, 1))
}

fn c02(nodes: usize, plen: (usize, usize)) {
    let mut g = Gen { nodes, hidden: false, empty: true, label: (1, 1), leaf: (1, 1) };
    let t = gen(&mut g, false);
    nd::assume(t.well_formed());
    let q = t.pruned_somewhere();
    copies(&t, &q, path(nd::range(plen.0, plen.1), 1, 1))
}
/// two hidden parts in a large tree
fn c02_big() {
    let t = large(nd::pick(&[4, 10]), nd::choice(4));
    let mut q = hide(&t, nd::choice(count(&t)));
    if nd::choice(2) == 1 {
        q = hide(&q, nd::pick(&[0, 1, count(&q) / 2, count(&q) - 1]));
    }
    copies(&t, &q, path(nd::range(1, 2), 1, 1))
}
fn copies(t: &T, q: &T, p: Vec<Vec<u8>>) {
    let (full, part) = (t.real(), q.real());
    nd::check(full.digest() == part.digest(), "pruning changes the digest");
    match (full.lookup_path(&p), part.lookup_path(&p)) {
        (_, LR::Unknown) => nd::cover("hidden"),
        (LR::Found(a), LR::Found(b)) => {
            nd::cover("same value");
            nd::check(a == b, "a pruned copy proves another value")
        }
        (LR::Absent, LR::Absent) => nd::cover("same absence"),
        (LR::Error, LR::Error) => {}
        (_, LR::Found(_)) => nd::check(false, "a pruned copy proves a value that is not there"),
        (_, LR::Absent) => nd::check(false, "a pruned copy proves an absence that is not there"),
        (_, LR::Error) => nd::check(false, "a pruned copy turns an answer into an error"),
    }
    match (full.lookup_subtree(p.iter()), part.lookup_subtree(p.iter())) {
        (_, SR::Unknown) | (SR::Absent, SR::Absent) => {}
        (SR::Found(a), SR::Found(b)) => nd::check(a.digest() == b.digest(), "a pruned copy proves another subtree"),
        _ => nd::check(false, "a pruned copy changes a subtree lookup"),
    }
}
fn c02_small() {
    c02(8, (0, 2))
}
fn c02_thorough() {
    c02(10, (0, 2))
}

fn c03_spec_(nodes: usize) {
    let mut g = Gen { nodes, hidden: true, empty: true, label: (0, 2), leaf: (0, 2) };
    let t = gen(&mut g, false);
    nd::check(t.real().digest() == t.digest(), "digest differs from the specification");
    match &t {
        Fork(a, b) => nd::check(fork_hash(&a.digest(), &b.digest()) == t.digest(), "fork_hash"),
        Leaf(v) => nd::check(leaf_hash(v) == t.digest(), "leaf_hash"),
        Labeled(l, s) => nd::check(labeled_hash(l, &s.digest()) == t.digest(), "labeled_hash"),
        _ => {}
    }
}
fn c03_spec() {
    c03_spec_(6)
}
fn c03_inject_(nodes: usize, l: (usize, usize)) {
    let a = gen(&mut Gen { nodes, hidden: false, empty: true, label: l, leaf: l }, false);
    let b = gen(&mut Gen { nodes, hidden: false, empty: true, label: l, leaf: l }, false);
    let same = a.real().digest() == b.real().digest();
    let eq = a == b;
    if same {
        nd::cover("same digest");
    }
    nd::check(same == eq, "two different trees have one digest");
}
/// long labels and values, large trees
fn c03_long() {
    let t = match nd::choice(3) {
        0 => {
            let mut v = vec![7; nd::pick(&[0, 3, 31, 32, 33, 55, 56, 63, 64, 65, 119, 128, 255, 256, 1000, 70000])];
            let mut l = vec![8; nd::pick(&[0, 1, 32, 64, 255, 256])];
            if !v.is_empty() {
                let i = nd::choice(2) * (v.len() - 1);
                v[i] = nd::u8();
            }
            if !l.is_empty() {
                let i = nd::choice(2) * (l.len() - 1);
                l[i] = nd::u8();
            }
            nd::check(leaf_hash(&v) == Leaf(v.clone()).digest(), "leaf_hash");
            let t = Leaf(v);
            nd::check(labeled_hash(&l, &t.digest()) == lab(&l, t.clone()).digest(), "labeled_hash");
            lab(&l, t)
        }
        1 => {
            let mut t = Leaf(nd::bytes(1));
            for _ in 0..nd::pick(&[30, 300]) {
                t = fork(lab(&[], Empty), lab(&[3], t));
            }
            t
        }
        _ => large(nd::pick(&[3, 30]), nd::choice(4)),
    };
    nd::check(t.real().digest() == t.digest(), "digest differs from the specification");
}
fn c03_inject() {
    c03_inject_(4, (0, 2))
}
fn c03_spec_t() {
    c03_spec_(7)
}
fn c03_inject_t() {
    c03_inject_(5, (0, 2))
}
/// leaf contents long enough to look like the hash input of another node
fn c03_leaf_fork() {
    let v = nd::bytes(nd::pick(&[0usize, 1, 20, 32, 33, 34, 64, 65, 81, 82]));
    let leaf: ic::HashTree = ic::leaf(v.clone());
    let l = nd::bytes(nd::range(0, 3));
    let other: ic::HashTree = match nd::choice(3) {
        0 => ic::empty(),
        1 => ic::fork(ic::leaf(nd::bytes(1)), ic::leaf(nd::bytes(1))),
        _ => ic::labeled(l, ic::leaf(nd::bytes(1))),
    };
    nd::check(leaf.digest() != other.digest(), "a leaf has the digest of another node");
}
