//! Reference hash tree, written from the IC interface specification and sharing no code with the repository.
use crate::core::{show, Rng};
use ic_certification::hash_tree as ht;
use ic_certification::{HashTree, HashTreeNode};
use sha2::{Digest, Sha256};

pub type H = [u8; 32];
#[derive(Clone, PartialEq, Eq)]
pub enum T {
    E,
    F(Box<T>, Box<T>),
    L(Vec<u8>, Box<T>),
    V(Vec<u8>),
    P(H),
}
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::E => write!(f, "Empty"),
            T::F(a, b) => write!(f, "Fork({a:?}, {b:?})"),
            T::L(l, t) => write!(f, "Labeled({}, {t:?})", show(l)),
            T::V(v) => write!(f, "Leaf({})", show(v)),
            T::P(h) => write!(f, "Pruned({:02x}{:02x}..)", h[0], h[1]),
        }
    }
}
pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts { h.update(p); }
    h.finalize().into()
}
pub fn sep(name: &str, parts: &[&[u8]]) -> H {
    let mut v = vec![name.len() as u8];
    v.extend_from_slice(name.as_bytes());
    for p in parts { v.extend_from_slice(p); }
    sha(&[&v])
}
impl T {
    pub fn digest(&self) -> H {
        match self {
            T::E => sep("ic-hashtree-empty", &[]),
            T::F(a, b) => sep("ic-hashtree-fork", &[&a.digest(), &b.digest()]),
            T::L(l, t) => sep("ic-hashtree-labeled", &[l, &t.digest()]),
            T::V(v) => sep("ic-hashtree-leaf", &[v]),
            T::P(h) => *h,
        }
    }
    pub fn flat(&self) -> Vec<&T> {
        match self {
            T::E => vec![],
            T::F(a, b) => { let mut v = a.flat(); v.extend(b.flat()); v }
            t => vec![t],
        }
    }
    pub fn wf(&self) -> bool {
        let f = self.flat();
        if f.len() == 1 && matches!(f[0], T::V(_)) { return true; }
        if f.iter().any(|t| matches!(t, T::V(_))) { return false; }
        let labels: Vec<&Vec<u8>> = f.iter().filter_map(|t| if let T::L(l, _) = t { Some(l) } else { None }).collect();
        labels.windows(2).all(|w| w[0] < w[1]) && f.iter().all(|t| if let T::L(_, c) = t { c.wf() } else { true })
    }
    pub fn build(&self) -> HashTree {
        match self {
            T::E => ht::empty(),
            T::F(a, b) => ht::fork(a.build(), b.build()),
            T::L(l, t) => ht::label(l.clone(), t.build()),
            T::V(v) => ht::leaf(v.clone()),
            T::P(h) => ht::pruned(*h),
        }
    }
    pub fn of(t: &HashTree) -> T {
        T::of_node(t.as_ref())
    }
    pub fn of_node(n: &HashTreeNode) -> T {
        match n {
            HashTreeNode::Empty() => T::E,
            HashTreeNode::Fork(b) => T::F(Box::new(T::of_node(&b.0)), Box::new(T::of_node(&b.1))),
            HashTreeNode::Labeled(l, t) => T::L(l.as_bytes().to_vec(), Box::new(T::of_node(t))),
            HashTreeNode::Leaf(v) => T::V(v.clone()),
            HashTreeNode::Pruned(h) => T::P(*h),
        }
    }
    pub fn size(&self) -> usize {
        match self { T::F(a, b) => 1 + a.size() + b.size(), T::L(_, t) => 1 + t.size(), _ => 1 }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Find<'a> { Found(&'a T), Absent, Unknown }
/// find_label of the specification, over the flattened forest.
pub fn find<'a>(l: &[u8], f: &[&'a T]) -> Find<'a> {
    for t in f {
        if let T::L(x, c) = t { if x.as_slice() == l { return Find::Found(c); } }
    }
    if f.is_empty() { return Find::Absent; }
    if f.len() == 1 { if let T::V(_) = f[0] { return Find::Absent; } }
    for w in f.windows(2) {
        if let (T::L(a, _), T::L(b, _)) = (w[0], w[1]) {
            if a.as_slice() < l && l < b.as_slice() { return Find::Absent; }
        }
    }
    if let T::L(a, _) = f[0] { if l < a.as_slice() { return Find::Absent; } }
    if let T::L(a, _) = f[f.len() - 1] { if a.as_slice() < l { return Find::Absent; } }
    Find::Unknown
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Look { Found(Vec<u8>), Absent, Unknown, Error }
pub fn lookup(t: &T, path: &[Vec<u8>]) -> Look {
    match path.split_first() {
        None => match t { T::V(v) => Look::Found(v.clone()), T::E => Look::Absent, T::P(_) => Look::Unknown, _ => Look::Error },
        Some((l, rest)) => match find(l, &t.flat()) {
            Find::Found(s) => lookup(s, rest),
            Find::Absent => Look::Absent,
            Find::Unknown => Look::Unknown,
        },
    }
}
pub fn subtree<'a>(t: &'a T, path: &[Vec<u8>]) -> Find<'a> {
    match path.split_first() {
        None => Find::Found(t),
        Some((l, rest)) => match find(l, &t.flat()) {
            Find::Found(s) => subtree(s, rest),
            o => o,
        },
    }
}
/// A random forest over an interval of labels; `d` bounds the depth of labels.
pub fn gen_forest(r: &mut Rng, labels: &[Vec<u8>], d: usize, allow_pruned: bool) -> T {
    // build a list of elements, then fork it together at random, sprinkling empties
    let mut elems: Vec<T> = vec![];
    let alphabet = if r.chance(1, 4) { random_alphabet(r) } else { label_alphabet() };
    for l in labels {
        if allow_pruned && r.chance(1, 6) { elems.push(T::P(sha(&[&r.bytes(4)]))); }
        let c = gen_tree(r, &alphabet, d.saturating_sub(1), allow_pruned);
        elems.push(T::L(l.clone(), Box::new(c)));
    }
    if allow_pruned && r.chance(1, 5) { elems.push(T::P(sha(&[&r.bytes(4)]))); }
    let empties = if r.chance(1, 3) { r.below(3) } else { 0 };
    for _ in 0..empties { let i = r.below(elems.len() + 1); elems.insert(i, T::E); }
    join(r, elems)
}
pub fn join(r: &mut Rng, mut elems: Vec<T>) -> T {
    if elems.is_empty() { return T::E; }
    while elems.len() > 1 {
        let i = r.below(elems.len() - 1);
        let b = elems.remove(i + 1);
        let a = elems.remove(i);
        elems.insert(i, T::F(Box::new(a), Box::new(b)));
    }
    elems.pop().unwrap()
}
pub fn label_alphabet() -> Vec<Vec<u8>> {
    [&b""[..], b"a", b"aa", b"ab", b"b", b"b\x00", b"c", b"d", b"\xff", b"\xff\xff"].iter().map(|x| x.to_vec()).collect()
}
/// Lengths around the limits that encodings and buffers tend to have.
pub fn edge_len(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 1, 2, 8, 16, 23, 24, 29, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537])
}
/// A label related to `l`: a neighbour in some order, a case variant, a truncation, an extension.
pub fn near(r: &mut Rng, l: &[u8]) -> Vec<u8> {
    let mut v = l.to_vec();
    match r.below(9) {
        0 => v.push(0),
        1 => { v.pop(); }
        2 => { if let Some(x) = v.last_mut() { *x = x.wrapping_add(1) } }
        3 => { if let Some(x) = v.last_mut() { *x = x.wrapping_sub(1) } }
        4 => { if let Some(x) = v.first_mut() { *x ^= 0x80 } }
        5 => { if let Some(x) = v.first_mut() { *x ^= 0x20 } }
        6 => { if !v.is_empty() { let i = r.below(v.len()); v[i] ^= 1 << r.below(8); } }
        7 => { if !v.is_empty() { v.remove(0); } }
        _ => { v.insert(0, 0) }
    }
    v
}
/// A random set of labels over all byte values, with neighbours of each other; now and then long ones.
pub fn random_alphabet(r: &mut Rng) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(3, 8) {
        let l = if !v.is_empty() && r.chance(1, 2) {
            let b = r.pick(&v).clone();
            near(r, &b)
        } else {
            let n = if r.chance(1, 12) { edge_len(r) } else { r.range(1, 5) };
            (0..n).map(|_| *r.pick(&[0u8, 1, b'A', b'a', b'b', b'z', 0x7f, 0x80, 0x81, 0xc3, 0xe2, 0xfe, 0xff])).collect()
        };
        v.push(l);
    }
    v.sort();
    v.dedup();
    v
}
pub fn gen_tree(r: &mut Rng, alphabet: &[Vec<u8>], d: usize, allow_pruned: bool) -> T {
    if d == 0 || r.chance(1, 3) {
        return match r.below(if allow_pruned { 4 } else { 3 }) {
            0 => { let n = if r.chance(1, 30) { edge_len(r) } else { r.below(40) }; T::V(r.bytes(n)) }
            1 => T::E,
            2 => T::V(vec![]),
            _ => T::P(sha(&[&r.bytes(4)])),
        };
    }
    let mut labels: Vec<Vec<u8>> = alphabet.iter().filter(|_| r.chance(2, 5)).cloned().collect();
    labels.sort();
    labels.truncate(5);
    gen_forest(r, &labels, d, allow_pruned)
}
