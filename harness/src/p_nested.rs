//! C06 the nested certified map, C07 merging of witnesses.
use crate::core::*;
use crate::model::*;
use crate::p_rb::prunes;
use ic_certification::{merge_hash_trees, AsHashTree, NestedTree};

type N = NestedTree<Vec<u8>, Vec<u8>>;
type P = Vec<Vec<u8>>;
/// Reference: a list of path/value pairs, no path a prefix of another.
#[derive(Clone, Debug, Default)]
struct M(Vec<(P, Vec<u8>)>);
fn is_prefix(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { a.len() <= b.len() && a == &b[..a.len()] }
impl M {
    fn get(&self, p: &[Vec<u8>]) -> Option<&Vec<u8>> { self.0.iter().find(|(q, _)| q == p).map(|x| &x.1) }
    fn insert(&mut self, p: &[Vec<u8>], v: Vec<u8>) {
        self.0.retain(|(q, _)| !is_prefix(p, q) && !is_prefix(q, p));
        self.0.push((p.to_vec(), v));
    }
    fn delete(&mut self, p: &[Vec<u8>]) { self.0.retain(|(q, _)| !is_prefix(p, q)); }
    fn contains_path(&self, p: &[Vec<u8>]) -> bool { p.is_empty() || self.0.iter().any(|(q, _)| is_prefix(p, q)) }
}
/// The leaves of a tree of labels, with their paths; None when the tree holds anything else.
fn leaves(t: &T, path: &mut P, out: &mut Vec<(P, Vec<u8>)>, top: bool) -> bool {
    match t {
        T::V(v) => { out.push((path.clone(), v.clone())); true }
        _ => {
            let f = t.flat();
            if f.is_empty() { return top; }
            f.iter().all(|x| match x {
                T::L(l, c) => { path.push(l.clone()); let r = leaves(c, path, out, false); path.pop(); r }
                _ => false,
            })
        }
    }
}
#[derive(Clone, Debug)]
enum Op { Ins(P, Vec<u8>), Del(P), Clear }
fn pstr(p: &[Vec<u8>]) -> String { format!("[{}]", p.iter().map(|x| show(x)).collect::<Vec<_>>().join(",")) }
fn ostr(o: &[Op]) -> String {
    o.iter().map(|o| match o { Op::Ins(p, v) => format!("insert({},{})", pstr(p), show(v)), Op::Del(p) => format!("delete({})", pstr(p)), Op::Clear => "clear()".into() }).collect::<Vec<_>>().join("; ")
}
fn path(r: &mut Rng, ks: &[Vec<u8>]) -> P {
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 2, 3, 3, 4]);
    (0..n).map(|_| r.pick(ks).clone()).collect()
}
fn history(r: &mut Rng) -> Vec<Op> {
    let ks: Vec<Vec<u8>> = match r.below(3) { 0 => vec![b"a".to_vec(), b"b".to_vec()], 1 => label_alphabet(), _ => random_alphabet(r) };
    let n = r.range(1, 25);
    let dels = *r.pick(&[2usize, 5]);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let mut p = path(r, &ks);
        if p.is_empty() && r.chance(3, 4) { p = vec![r.pick(&ks).clone()]; }
        // often come back to a path seen before, or near it
        if r.chance(1, 3) {
            let seen: Vec<&P> = ops.iter().filter_map(|o| match o { Op::Ins(p, _) | Op::Del(p) => Some(p), _ => None }).collect();
            if !seen.is_empty() {
                p = (*r.pick(&seen)).clone();
                match r.below(4) { 0 => { p.pop(); } 1 => p.push(r.pick(&ks).clone()), _ => {} }
            }
        }
        ops.push(match r.below(12) { 11 if r.chance(1, 5) => Op::Clear, x if x < dels => Op::Del(p), _ => { let v = r.bytes(2); Op::Ins(p, v) } });
    }
    ops
}
fn apply(m: &mut N, f: &mut M, o: &Op) {
    match o {
        Op::Ins(p, v) => { m.insert(p, v.clone()); f.insert(p, v.clone()); }
        Op::Del(p) => { m.delete(p); f.delete(p); }
        Op::Clear => { m.clear(); f.0.clear(); }
    }
}
fn probes(r: &mut Rng, ops: &[Op]) -> Vec<P> {
    let mut v: Vec<P> = vec![vec![]];
    for o in ops {
        if let Op::Ins(p, _) | Op::Del(p) = o {
            v.push(p.clone());
            let mut q = p.clone();
            q.pop();
            v.push(q);
            let mut q = p.clone();
            q.push(b"zz".to_vec());
            v.push(q);
            if !p.is_empty() { let mut q = p.clone(); let i = r.below(q.len()); q[i] = near(r, &q[i]); v.push(q); }
        }
    }
    v.sort();
    v.dedup();
    while v.len() > 40 { let i = r.below(v.len()); v.remove(i); }
    v
}
fn check(c: &mut Ctx, m: &N, f: &M, ps: &[P], d: &dyn Fn() -> String) {
    for p in ps {
        let r = c.guard("C06-panic", d, || (m.get(p).cloned(), m.contains_leaf(p), m.contains_path(p)));
        if let Some((g, l, h)) = r {
            c.check(g.as_ref() == f.get(p), "C06-get", d, &|| format!("get({}) is {g:?} instead of {:?}", pstr(p), f.get(p)));
            c.check(l == f.get(p).is_some(), "C06-leaf", d, &|| format!("contains_leaf({}) is {l}", pstr(p)));
            c.check(h == f.contains_path(p), "C06-path", d, &|| format!("contains_path({}) is {h}", pstr(p)));
        }
    }
    let (h, t) = match c.guard("C06-panic", d, || (m.root_hash(), T::of(&m.as_hash_tree()))) { Some(x) => x, None => return };
    c.check(h == t.digest(), "C06-hash", d, &|| format!("root hash {} but the tree's digest is {}", hex(&h), hex(&t.digest())));
    let mut out = vec![];
    let ok = leaves(&t, &mut vec![], &mut out, true);
    let mut e = f.0.clone();
    e.sort();
    c.check(ok && out == e && t.wf(), "C06-tree", d, &|| format!("the tree is {t:?} for {f:?}"));
    for p in ps {
        let what = || format!("witness({}) after {}", pstr(p), d());
        if let Some(w) = c.guard("C06-panic", &what, || T::of(&m.witness(p))) {
            c.check(w.digest() == h, "C06-witness-hash", &what, &|| format!("the witness {w:?} has digest {} instead of {}", hex(&w.digest()), hex(&h)));
            let s = subtree(&w, p);
            let full = subtree(&t, p);
            let ok = match (&s, &full) { (Find::Found(a), Find::Found(b)) => a == b, (Find::Absent, Find::Absent) => true, _ => false };
            c.check(ok && (f.contains_path(p) == matches!(s, Find::Found(_))), "C06-witness", &what, &|| format!("the witness {w:?} gives {s:?} where the map has {full:?}"));
        }
        if c.violation.is_some() { return; }
    }
}
pub fn c06(c: &mut Ctx) {
    c.rule("histories of insertions, deletions and clearing on paths up to 4 segments; lookups, tree, root hash and witnesses compared with a map from paths");
    // exhaustive: all histories of 4 operations over the paths of up to 2 (thorough: 3) segments of two labels
    let mut paths: Vec<P> = vec![vec![]];
    let mut lvl: Vec<P> = vec![vec![]];
    for _ in 0..2 {
        lvl = lvl.iter().flat_map(|p| [b"a", b"b"].iter().map(move |x| { let mut q = p.clone(); q.push(x.to_vec()); q })).collect();
        paths.extend(lvl.iter().cloned());
    }
    let n = if c.thorough { 4 } else { 3 };
    let base = 2 * paths.len();
    let mut done = true;
    for i in 0..base.pow(n as u32) {
        let mut x = i;
        let mut ops = vec![];
        for k in 0..n { let j = x % base; x /= base; ops.push(if j < paths.len() { Op::Ins(paths[j].clone(), vec![k as u8]) } else { Op::Del(paths[j - paths.len()].clone()) }); }
        one(c, &ops, Some(&paths), false);
        if c.past(0.5) { done = false; break; }
    }
    if done { c.exhaustive_parts.push(format!("all histories of {n} insertions and deletions over the {} paths of up to two segments of two labels", paths.len())); }
    let mut k = 0;
    while !c.done() && k < if c.thorough { 100_000 } else { 3_000 } { k += 1; let ops = history(&mut c.rng); one(c, &ops, None, k % 4 == 0); }
    // other key and value types
    let mut s: NestedTree<&str, [u8; 32]> = NestedTree::default();
    s.insert(&["a", "b"], [1; 32]);
    s.insert(&["a"], [2; 32]);
    let t = T::of(&s.as_hash_tree());
    c.check(t.digest() == s.root_hash() && lookup(&t, &[b"a".to_vec()]) == Look::Found(vec![2; 32]), "C06-types", &|| "insert [a,b], insert [a]".into(), &|| format!("{t:?}"));
}
fn one(c: &mut Ctx, ops: &[Op], paths: Option<&[P]>, every: bool) {
    let d = || ostr(ops);
    c.case(&d(), ops.len() > 1);
    let mut m = N::default();
    let mut f = M::default();
    for (i, o) in ops.iter().enumerate() {
        let di = || ostr(&ops[..=i]);
        if c.guard("C06-panic", &di, || apply(&mut m, &mut f, o)).is_none() { return; }
        if every { let ps = probes(&mut c.rng, &ops[..=i]); check(c, &m, &f, &ps, &di); }
        if c.violation.is_some() { return; }
    }
    let ps = match paths { Some(p) => p.to_vec(), None => probes(&mut c.rng, ops) };
    check(c, &m, &f, &ps, &d);
}

// ---------------------------------------------------------------- C07
fn prune_random(r: &mut Rng, t: &T, num: usize) -> T {
    if r.chance(num, 10) { return T::P(t.digest()); }
    match t {
        T::F(a, b) => T::F(Box::new(prune_random(r, a, num)), Box::new(prune_random(r, b, num))),
        T::L(l, x) => T::L(l.clone(), Box::new(prune_random(r, x, num))),
        t => t.clone(),
    }
}
fn all_prunings(t: &T) -> Vec<T> {
    let mut v = vec![T::P(t.digest())];
    match t {
        T::F(a, b) => for x in all_prunings(a) { for y in all_prunings(b) { v.push(T::F(Box::new(x.clone()), Box::new(y))); } },
        T::L(l, x) => for y in all_prunings(x) { v.push(T::L(l.clone(), Box::new(y))); },
        t => v.push(t.clone()),
    }
    v
}
fn paths_of(t: &T, cur: &mut P, out: &mut Vec<P>) {
    out.push(cur.clone());
    for x in t.flat() {
        if let T::L(l, s) = x { cur.push(l.clone()); paths_of(s, cur, out); cur.pop(); let mut q = cur.clone(); let mut l = l.clone(); l.push(0); q.push(l); out.push(q); }
    }
}
fn merge_case(c: &mut Ctx, t: &T, a: &T, b: &T) {
    let d = || format!("merging {a:?} and {b:?}, prunings of {t:?}");
    c.case(&d(), a != b);
    let m = match c.guard("C07-panic", &d, || T::of(&merge_hash_trees(a.build(), b.build()))) { Some(m) => m, None => return };
    c.check(m.digest() == t.digest(), "C07-hash", &d, &|| format!("the result {m:?} has another digest"));
    c.check(prunes(&m, t) && prunes(a, &m) && prunes(b, &m), "C07-reveals", &d, &|| format!("the result {m:?} does not reveal all that the two reveal"));
    let mut ps = vec![];
    paths_of(t, &mut vec![], &mut ps);
    let hm = m.build();
    for p in &ps {
        let refs: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
        for x in [a, b] {
            let want = lookup(x, p);
            if want == Look::Unknown || want == Look::Error { continue; }
            let got = match hm.lookup_path(&refs) { ic_certification::LookupResult::Found(v) => Look::Found(v.to_vec()), ic_certification::LookupResult::Absent => Look::Absent, ic_certification::LookupResult::Unknown => Look::Unknown, ic_certification::LookupResult::Error => Look::Error };
            c.check(got == want, "C07-lookup", &d, &|| format!("looking up {} gives {got:?}, one of the two gave {want:?}", pstr(p)));
        }
    }
}
pub fn c07(c: &mut Ctx) {
    c.rule("pairs of prunings of a well-formed tree are merged: no panic, same digest, and every lookup that either could answer has the same answer");
    let l = |s: &str, t: T| T::L(s.as_bytes().to_vec(), Box::new(t));
    let f = |a: T, b: T| T::F(Box::new(a), Box::new(b));
    let v = |s: &str| T::V(s.as_bytes().to_vec());
    let fixed = [T::E, v("x"), v(""), T::P([3; 32]), l("a", v("x")), l("a", T::E), f(l("a", v("x")), l("b", v("y"))), f(T::E, l("a", v("x"))), f(l("a", T::E), T::E), f(T::E, T::E),
        f(f(l("a", v("x")), l("b", f(l("c", v("")), l("d", T::E)))), l("e", v("y"))), f(T::P([3; 32]), l("a", l("b", v("x")))), l("", l("", v(""))), f(l("a", v("same")), l("b", v("same"))), f(l("a", l("b", v("1"))), l("b", l("b", v("1"))))];
    for t in &fixed {
        let ps = all_prunings(t);
        for a in &ps { for b in &ps { merge_case(c, t, a, b); if c.violation.is_some() { return; } } }
    }
    c.exhaustive_parts.push(format!("all pairs of prunings of {} small trees", fixed.len()));
    let alpha = label_alphabet();
    let mut n = 0;
    while !c.done() && n < if c.thorough { 300_000 } else { 15_000 } {
        n += 1;
        let depth = c.rng.range(1, 4);
        let t = gen_tree(&mut c.rng, &alpha, depth, n % 2 == 0);
        let (x, y) = (c.rng.range(0, 4), c.rng.range(0, 4));
        let a = prune_random(&mut c.rng, &t, x);
        let b = prune_random(&mut c.rng, &t, y);
        merge_case(c, &t, &a, &b);
    }
    // witnesses of real maps
    for _ in 0..if c.thorough { 5000 } else { 300 } {
        if c.violation.is_some() { return; }
        let ops = history(&mut c.rng);
        let mut m = N::default();
        let mut r = M::default();
        let ok = c.guard("C07-panic", &|| ostr(&ops), || for o in &ops { apply(&mut m, &mut r, o) });
        if ok.is_none() { return; }
        let t = T::of(&m.as_hash_tree());
        let ps = probes(&mut c.rng, &ops);
        let (p, q) = (c.rng.pick(&ps).clone(), c.rng.pick(&ps).clone());
        let (a, b) = (T::of(&m.witness(&p)), T::of(&m.witness(&q)));
        if prunes(&a, &t) && prunes(&b, &t) { merge_case(c, &t, &a, &b); }
    }
}
