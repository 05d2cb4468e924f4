//! Hash trees as the Internet Computer interface specification defines them: an independent reference.
//! Written from the specification text (sections "Certificate" and "Lookup"), not from the code under test.
use ic_certification as ic;
use sha2::Digest;

#[derive(Clone, PartialEq, Eq)]
pub enum T {
    Empty,
    Fork(Box<T>, Box<T>),
    Labeled(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned([u8; 32]),
}
pub use T::*;

pub enum R<'a> {
    Absent,
    Unknown,
    Error,
    Found(&'a T),
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    h.update(&v);
    h.finalize().into()
}
fn dom(s: &str) -> Vec<u8> {
    let mut v = vec![s.len() as u8];
    v.extend_from_slice(s.as_bytes());
    v
}

impl T {
    /// reconstruct(tree)
    pub fn digest(&self) -> [u8; 32] {
        match self {
            Empty => sha(&[&dom("ic-hashtree-empty")]),
            Fork(a, b) => sha(&[&dom("ic-hashtree-fork"), &a.digest(), &b.digest()]),
            Labeled(l, t) => sha(&[&dom("ic-hashtree-labeled"), l, &t.digest()]),
            Leaf(v) => sha(&[&dom("ic-hashtree-leaf"), v]),
            Pruned(h) => *h,
        }
    }
    pub fn real(&self) -> ic::HashTree {
        match self {
            Empty => ic::empty(),
            Fork(a, b) => ic::fork(a.real(), b.real()),
            Labeled(l, t) => ic::labeled(l.as_slice(), t.real()),
            Leaf(v) => ic::leaf(v.as_slice()),
            Pruned(h) => ic::pruned(*h),
        }
    }
    pub fn flat<'a>(&'a self, out: &mut Vec<&'a T>) {
        match self {
            Empty => {}
            Fork(a, b) => {
                a.flat(out);
                b.flat(out);
            }
            t => out.push(t),
        }
    }
    /// well_formed, as one (symbolic) condition
    pub fn well_formed(&self) -> bool {
        if let Leaf(_) = self {
            return true;
        }
        let mut f = vec![];
        self.flat(&mut f);
        let mut ok = true;
        let mut last: Option<&[u8]> = None;
        for t in f {
            match t {
                Leaf(_) => ok = false,
                Labeled(l, s) => {
                    if let Some(p) = last {
                        ok &= p < l.as_slice();
                    }
                    last = Some(l);
                    ok &= s.well_formed();
                }
                _ => {}
            }
        }
        ok
    }
    fn find_label<'a>(&'a self, l: &[u8]) -> R<'a> {
        let mut f = vec![];
        self.flat(&mut f);
        if f.is_empty() {
            return R::Absent;
        }
        if f.len() == 1 {
            if let Leaf(_) = f[0] {
                return R::Absent;
            }
        }
        for t in &f {
            if let Labeled(k, s) = t {
                if k == l {
                    return R::Found(s);
                }
            }
        }
        if let Labeled(k, _) = f[0] {
            if l < k.as_slice() {
                return R::Absent;
            }
        }
        if let Labeled(k, _) = f[f.len() - 1] {
            if k.as_slice() < l {
                return R::Absent;
            }
        }
        for i in 1..f.len() {
            if let (Labeled(a, _), Labeled(b, _)) = (f[i - 1], f[i]) {
                if a.as_slice() < l && l < b.as_slice() {
                    return R::Absent;
                }
            }
        }
        R::Unknown
    }
    /// the node a path leads to
    pub fn walk<'a>(&'a self, path: &[Vec<u8>]) -> R<'a> {
        if path.is_empty() {
            return R::Found(self);
        }
        match self.find_label(&path[0]) {
            R::Found(t) => t.walk(&path[1..]),
            r => r,
        }
    }
    pub fn lookup<'a>(&'a self, path: &[Vec<u8>]) -> ic::LookupResult<'a> {
        match self.walk(path) {
            R::Absent => ic::LookupResult::Absent,
            R::Unknown => ic::LookupResult::Unknown,
            R::Error => ic::LookupResult::Error,
            R::Found(Empty) => ic::LookupResult::Absent,
            R::Found(Leaf(v)) => ic::LookupResult::Found(v),
            R::Found(Pruned(_)) => ic::LookupResult::Unknown,
            R::Found(_) => ic::LookupResult::Error,
        }
    }
    /// all leaves with their paths, in order
    pub fn leaves(&self) -> Vec<(Vec<Vec<u8>>, Vec<u8>)> {
        let mut out = vec![];
        self.leaves_(&mut vec![], &mut out);
        out
    }
    fn leaves_(&self, p: &mut Vec<Vec<u8>>, out: &mut Vec<(Vec<Vec<u8>>, Vec<u8>)>) {
        match self {
            Fork(a, b) => {
                a.leaves_(p, out);
                b.leaves_(p, out);
            }
            Labeled(l, t) => {
                p.push(l.clone());
                t.leaves_(p, out);
                p.pop();
            }
            Leaf(v) => out.push((p.clone(), v.clone())),
            _ => {}
        }
    }
    /// a copy in which an arbitrary set of nodes is replaced by their digests
    pub fn pruned_somewhere(&self) -> T {
        if !matches!(self, Pruned(_)) && nd::choice(2) == 1 {
            return Pruned(self.digest());
        }
        match self {
            Fork(a, b) => Fork(Box::new(a.pruned_somewhere()), Box::new(b.pruned_somewhere())),
            Labeled(l, t) => Labeled(l.clone(), Box::new(t.pruned_somewhere())),
            t => t.clone(),
        }
    }
}
/// the tree a real HashTree is
pub fn view(n: &ic::HashTreeNode) -> T {
    match n {
        ic::hash_tree::HashTreeNode::Empty() => Empty,
        ic::hash_tree::HashTreeNode::Fork(x) => Fork(Box::new(view(&x.0)), Box::new(view(&x.1))),
        ic::hash_tree::HashTreeNode::Labeled(l, t) => Labeled(l.as_bytes().to_vec(), Box::new(view(t))),
        ic::hash_tree::HashTreeNode::Leaf(v) => Leaf(v.clone()),
        ic::hash_tree::HashTreeNode::Pruned(h) => Pruned(*h),
    }
}

/// which trees `gen` makes
pub struct Gen {
    /// number of nodes left
    pub nodes: usize,
    pub hidden: bool,
    pub empty: bool,
    pub label: (usize, usize),
    pub leaf: (usize, usize),
}
/// an arbitrary tree of at most `nodes` nodes: every shape is a path of its own, labels and values are symbolic
pub fn gen(g: &mut Gen, under_fork: bool) -> T {
    g.nodes -= 1;
    let mut kinds: Vec<u8> = vec![];
    if g.empty {
        kinds.push(0);
    }
    if !under_fork {
        kinds.push(3);
    }
    if g.hidden {
        kinds.push(4);
    }
    if g.nodes >= 1 {
        kinds.push(2);
    }
    if g.nodes >= 2 && (g.empty || g.hidden || g.nodes >= 4) {
        kinds.push(1);
    }
    if kinds.is_empty() {
        kinds.push(4);
    }
    match kinds[nd::choice(kinds.len())] {
        0 => Empty,
        1 => {
            g.nodes -= 1; // kept for the right side
            let a = gen(g, true);
            g.nodes += 1;
            Fork(Box::new(a), Box::new(gen(g, true)))
        }
        2 => {
            let l = nd::bytes(nd::range(g.label.0, g.label.1));
            Labeled(l, Box::new(gen(g, false)))
        }
        3 => Leaf(nd::bytes(nd::range(g.leaf.0, g.leaf.1))),
        _ => Pruned(if g.hidden { nd::array() } else { [7; 32] }),
    }
}
pub fn lab(l: &[u8], t: T) -> T {
    Labeled(l.to_vec(), Box::new(t))
}
pub fn fork(a: T, b: T) -> T {
    Fork(Box::new(a), Box::new(b))
}
pub fn path(p: &[&[u8]]) -> Vec<Vec<u8>> {
    p.iter().map(|x| x.to_vec()).collect()
}
