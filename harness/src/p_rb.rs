//! C03, C04, C05: the certified map against an ordered map.
use crate::core::*;
use crate::model::*;
use ic_certification::{AsHashTree, HashTree, RbTree};
use std::collections::BTreeMap;

pub type Map = RbTree<Vec<u8>, Vec<u8>>;
pub type Ref = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, Debug)]
pub enum Op { Ins(Vec<u8>, Vec<u8>), Del(Vec<u8>), Mod(Vec<u8>, Vec<u8>) }

fn keys(r: &mut Rng) -> Vec<Vec<u8>> {
    match r.below(4) {
        0 => label_alphabet(),
        1 => random_alphabet(r),
        2 => (0..r.range(1, 60)).map(|i| vec![i as u8 * 4 + 1]).collect(),
        _ => (0..r.range(1, 20)).map(|_| { let n = r.below(4); (0..n).map(|_| *r.pick(&[0u8, 1, b'a', b'b', 0x7f, 0x80, 0xff])).collect() }).collect(),
    }
}
fn history(r: &mut Rng) -> Vec<Op> {
    let ks = keys(r);
    let shape = r.below(6);
    let mut ops = vec![];
    let n = if r.chance(1, 10) { r.range(100, 400) } else { r.range(1, 60) };
    if shape == 0 || shape == 1 {
        // fill in order, then drain in some order
        let mut s = ks.clone();
        s.sort();
        if shape == 1 { s.reverse(); }
        for k in &s { ops.push(Op::Ins(k.clone(), r.bytes(2))); }
        match r.below(3) { 0 => s.reverse(), 1 => r.shuffle(&mut s), _ => {} }
        for k in &s { if r.chance(9, 10) { ops.push(Op::Del(k.clone())); } }
        return ops;
    }
    let del = *r.pick(&[1usize, 3, 5]);
    for _ in 0..n {
        let mut k = r.pick(&ks).clone();
        if r.chance(1, 20) { k = near(r, &k); }
        ops.push(match r.below(10) {
            x if x < del => Op::Del(k),
            9 => { let v = r.bytes(3); Op::Mod(k, v) }
            _ => { let v = if r.chance(1, 6) { vec![] } else { r.bytes(2) }; Op::Ins(k, v) }
        });
    }
    ops
}
fn apply(m: &mut Map, f: &mut Ref, o: &Op) {
    match o {
        Op::Ins(k, v) => { m.insert(k.clone(), v.clone()); f.insert(k.clone(), v.clone()); }
        Op::Del(k) => { m.delete(k); f.remove(k); }
        Op::Mod(k, v) => { m.modify(k, |x| *x = v.clone()); if let Some(x) = f.get_mut(k) { *x = v.clone(); } }
    }
}
pub fn opstr(ops: &[Op]) -> String {
    ops.iter().map(|o| match o {
        Op::Ins(k, v) => format!("insert({},{})", show(k), show(v)),
        Op::Del(k) => format!("delete({})", show(k)),
        Op::Mod(k, v) => format!("modify({},{})", show(k), show(v)),
    }).collect::<Vec<_>>().join("; ")
}
fn depth(t: &T) -> usize { match t { T::F(a, b) => 1 + depth(a).max(depth(b)), _ => 0 } }
/// The tree's entries, in order, when every entry is a label over a leaf.
fn entries(t: &T) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    t.flat().into_iter().map(|x| match x { T::L(l, c) => if let T::V(v) = &**c { Some((l.clone(), v.clone())) } else { None }, _ => None }).collect()
}
fn check_c03(c: &mut Ctx, m: &Map, f: &Ref, ops: &dyn Fn() -> String) {
    let (h, t) = match c.guard("C03-panic", ops, || (m.root_hash(), m.as_hash_tree())) { Some(x) => x, None => return };
    let t = T::of(&t);
    c.check(h == t.digest(), "C03-hash", ops, &|| format!("root hash {} but the tree's digest is {}", hex(&h), hex(&t.digest())));
    let e: Vec<_> = f.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    c.check(entries(&t).as_ref() == Some(&e), "C03-entries", ops, &|| format!("the tree is {t:?} for the map {f:?}"));
}
fn check_c04(c: &mut Ctx, m: &Map, f: &Ref, probe: &[Vec<u8>], ops: &dyn Fn() -> String) {
    let r = c.guard("C04-panic", ops, || {
        let it: Vec<_> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        let mut fe = vec![];
        m.for_each(|a, b| fe.push((a.to_vec(), b.clone())));
        let gets: Vec<_> = probe.iter().map(|k| m.get(k).cloned()).collect();
        (it, fe, gets, m.is_empty(), T::of(&m.as_hash_tree()))
    });
    let (it, fe, gets, empty, t) = match r { Some(x) => x, None => return };
    let e: Vec<_> = f.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    c.check(it == e, "C04-iter", ops, &|| format!("iterates {it:?} instead of {e:?}"));
    c.check(fe == e, "C04-for-each", ops, &|| format!("for_each gives {fe:?} instead of {e:?}"));
    c.check(empty == e.is_empty(), "C04-empty", ops, &|| format!("is_empty is {empty} with {} entries", e.len()));
    for (k, g) in probe.iter().zip(&gets) {
        c.check(g.as_ref() == f.get(k), "C04-get", ops, &|| format!("get({}) is {g:?} instead of {:?}", show(k), f.get(k)));
    }
    // the height of a balanced tree; every level adds at most two forks
    let n = e.len();
    let lg = (usize::BITS - (n + 1).leading_zeros()) as usize;
    c.check(depth(&t) <= 4 * lg + 2, "C04-balance", ops, &|| format!("a tree of depth {} for {n} entries", depth(&t)));
}
/// Whether a witness proves the truth about a key.
fn tells(w: &T, f: &Ref, k: &[u8], value: bool) -> bool {
    match (find(k, &w.flat()), f.get(k)) {
        (Find::Found(T::V(v)), Some(x)) => v == x,
        (Find::Found(T::P(h)), Some(x)) => !value && *h == T::V(x.clone()).digest(),
        (Find::Absent, None) => true,
        _ => false,
    }
}
/// w is t with parts pruned.
pub fn prunes(w: &T, t: &T) -> bool {
    match (w, t) {
        (T::P(h), t) => *h == t.digest(),
        (T::F(a, b), T::F(x, y)) => prunes(a, x) && prunes(b, y),
        (T::L(l, a), T::L(m, x)) => l == m && prunes(a, x),
        (a, b) => a == b,
    }
}
fn check_c05(c: &mut Ctx, m: &Map, f: &Ref, probe: &[Vec<u8>], all_ranges: bool, ops: &dyn Fn() -> String) {
    let full = match c.guard("C05-panic", ops, || m.as_hash_tree()) { Some(x) => T::of(&x), None => return };
    let mut wit = |c: &mut Ctx, name: String, w: &dyn Fn() -> HashTree, in_range: &dyn Fn(&[u8]) -> bool, value: bool| {
        let what = || format!("{name} after {}", ops());
        let w = match c.guard("C05-panic", &what, || w()) { Some(x) => T::of(&x), None => return };
        c.check(w.digest() == full.digest(), "C05-digest", &what, &|| format!("the witness {w:?} has digest {} instead of {}", hex(&w.digest()), hex(&full.digest())));
        c.check(w.wf(), "C05-order", &what, &|| format!("the witness {w:?} has its labels out of order"));
        for k in probe.iter().chain(f.keys()) {
            if in_range(k) { c.check(tells(&w, f, k, value), "C05-tells", &what, &|| format!("the witness {w:?} does not prove the truth about {}", show(k))); }
        }
    };
    for k in probe {
        wit(c, format!("witness({})", show(k)), &|| m.witness(k), &|x| x == &k[..], true);
        wit(c, format!("nested_witness({})", show(k)), &|| m.nested_witness(k, |v| ic_certification::pruned(v.root_hash())), &|x| x == &k[..], false);
        wit(c, format!("keys_with_prefix({})", show(k)), &|| m.keys_with_prefix(k), &|x| x.starts_with(k), false);
        if c.violation.is_some() { return; }
    }
    wit(c, "keys()".into(), &|| m.keys(), &|_| true, false);
    for a in probe {
        for b in probe {
            if a > b || !(all_ranges || c.rng.chance(1, 4)) { continue; }
            wit(c, format!("key_range({},{})", show(a), show(b)), &|| m.key_range(a, b), &|x| &a[..] <= x && x <= &b[..], false);
            wit(c, format!("value_range({},{})", show(a), show(b)), &|| m.value_range(a, b), &|x| &a[..] <= x && x <= &b[..], true);
            if c.violation.is_some() { return; }
        }
    }
}
fn probes(r: &mut Rng, f: &Ref, ops: &[Op]) -> Vec<Vec<u8>> {
    let mut p: Vec<Vec<u8>> = ops.iter().map(|o| match o { Op::Ins(k, _) | Op::Del(k) | Op::Mod(k, _) => k.clone() }).collect();
    p.sort();
    p.dedup();
    while p.len() > 12 { let i = r.below(p.len()); p.remove(i); }
    for _ in 0..4 { if !p.is_empty() { let b = r.pick(&p).clone(); p.push(near(r, &b)); } }
    p.push(vec![]);
    if let Some(k) = f.keys().last() { let mut k = k.clone(); k.push(0); p.push(k); }
    p.sort();
    p.dedup();
    p
}
fn run(c: &mut Ctx, which: u8) {
    // exhaustive: every history of up to n operations over a few keys
    let ks: Vec<Vec<u8>> = [&b"b"[..], b"d", b"f", b"h", b"da"].iter().map(|x| x.to_vec()).collect();
    let n = if c.thorough { if which == 5 { 5 } else { 6 } } else if which == 5 { 4 } else { 5 };
    let mut probe = ks.clone();
    for k in [&b""[..], b"a", b"c", b"d\x00", b"daa", b"e", b"z"] { probe.push(k.to_vec()); }
    probe.sort();
    let mut idx = vec![0usize; n];
    let total = (2 * ks.len()).pow(n as u32);
    let mut done = true;
    for i in 0..total {
        let mut x = i;
        for j in idx.iter_mut() { *j = x % (2 * ks.len()); x /= 2 * ks.len(); }
        // deletions of what is not there add nothing new at the start
        if idx[0] >= ks.len() { continue; }
        if which == 5 && i % 7 != 0 && !c.thorough { continue; }
        let ops: Vec<Op> = idx.iter().enumerate().map(|(p, &j)| if j < ks.len() { Op::Ins(ks[j].clone(), vec![p as u8]) } else { Op::Del(ks[j - ks.len()].clone()) }).collect();
        one(c, which, &ops, Some(&probe), false);
        if c.past(0.4) { done = false; break; }
    }
    if done { c.exhaustive_parts.push(format!("{} of {n} operations over {} keys", if which == 5 && !c.thorough { "a seventh of all histories" } else { "all histories" }, ks.len())); }
    // all insertion orders of a few keys, then deletion of each pair
    let mut count = 0u64;
    while !c.done() && count < if c.thorough { 200_000 } else { 6_000 } {
        count += 1;
        let ops = history(&mut c.rng);
        one(c, which, &ops, None, ops.len() < 30);
    }
}
fn one(c: &mut Ctx, which: u8, ops: &[Op], probe: Option<&[Vec<u8>]>, every: bool) {
    let desc = || opstr(ops);
    c.case(&desc(), ops.len() > 2);
    let mut m = Map::new();
    let mut f = Ref::new();
    let key = match which { 3 => "C03-panic", 4 => "C04-panic", _ => "C05-panic" };
    for (i, o) in ops.iter().enumerate() {
        if c.guard(key, &|| opstr(&ops[..=i]), || apply(&mut m, &mut f, o)).is_none() { return; }
        if every && which != 5 {
            let d = || opstr(&ops[..=i]);
            if which == 3 { check_c03(c, &m, &f, &d) } else { check_c04(c, &m, &f, &[], &d) }
        }
        if c.violation.is_some() { return; }
    }
    let p: Vec<Vec<u8>> = match probe { Some(p) => p.to_vec(), None => probes(&mut c.rng, &f, ops) };
    match which {
        3 => check_c03(c, &m, &f, &desc),
        4 => {
            check_c04(c, &m, &f, &p, &desc);
            let r = c.guard(key, &desc, || {
                let g: Map = f.iter().rev().map(|(a, b)| (a.clone(), b.clone())).collect();
                let mut h = g.clone();
                let e0 = g == m && g.cmp(&m) == std::cmp::Ordering::Equal && g.partial_cmp(&m) == Some(std::cmp::Ordering::Equal);
                h.insert(b"\xff\xff\xff".to_vec(), vec![9]);
                let mut fh = f.clone();
                fh.insert(b"\xff\xff\xff".to_vec(), vec![9]);
                let d = format!("{m:?}");
                let shown = f.keys().all(|k| d.contains(&*String::from_utf8_lossy(k)));
                (e0, (h == m) == (fh == f) && h.cmp(&m) == fh.cmp(&f), shown)
            });
            if let Some((a, b, s)) = r {
                c.check(a, "C04-eq", &desc, &|| "a map with the same entries is not equal".into());
                c.check(b, "C04-ne", &desc, &|| "a map with another entry is equal, or not ordered by its entries".into());
                c.check(s, "C04-debug", &desc, &|| "the debug text does not name all keys".into());
            }
        }
        _ => check_c05(c, &m, &f, &p, probe.is_some() && c.thorough, &desc),
    }
}
pub fn c03(c: &mut Ctx) {
    c.rule("histories of insertions, deletions and modifications of the certified map; after each history (short ones: after each step) the root hash is compared with the reference digest of the tree it materialises, and that tree's entries with an ordered map's");
    run(c, 3);
    more_c03(c);
}
fn more_c03(c: &mut Ctx) {
    // values that are themselves maps, and hashes
    for _ in 0..200 {
        if c.violation.is_some() { return; }
        let mut m: RbTree<String, RbTree<Vec<u8>, [u8; 32]>> = RbTree::new();
        let mut log = String::new();
        for _ in 0..c.rng.range(1, 12) {
            let k = format!("k{}", c.rng.below(4));
            let k2 = vec![c.rng.below(3) as u8];
            let h = sha(&[&c.rng.bytes(2)]);
            log.push_str(&format!("{k}/{k2:?}; "));
            if m.get(k.as_bytes()).is_some() { m.modify(k.as_bytes(), |x| x.insert(k2.clone(), h)); } else { let mut n = RbTree::new(); n.insert(k2, h); m.insert(k, n); }
        }
        let d = || format!("map of maps: {log}");
        c.case(&d(), true);
        if let Some((h, t)) = c.guard("C03-panic", &d, || (m.root_hash(), T::of(&m.as_hash_tree()))) {
            c.check(h == t.digest(), "C03-nested-hash", &d, &|| format!("root hash {} but the tree {t:?} has {}", hex(&h), hex(&t.digest())));
            let n: usize = m.iter().map(|(_, v)| v.iter().count()).sum();
            let got: usize = t.flat().iter().map(|x| if let T::L(_, s) = x { s.flat().iter().filter(|y| matches!(y, T::L(_, v) if matches!(**v, T::V(_)))).count() } else { 0 }).sum();
            c.check(n == got && t.wf(), "C03-nested-tree", &d, &|| format!("the tree is {t:?}"));
        }
    }
}
pub fn c04(c: &mut Ctx) {
    c.rule("histories of insertions, deletions and modifications; lookups, iteration, for_each, equality, ordering, collection and depth compared with an ordered map");
    run(c, 4);
}
pub fn c05(c: &mut Ctx) {
    c.rule("on maps reached by random histories: witnesses for present and absent keys, key and value ranges, prefixes and all keys; digest compared with the root hash, lookups in the witness compared with an ordered map");
    run(c, 5);
}
