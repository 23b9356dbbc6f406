//! C01 digest, C02 lookups.
use crate::core::*;
use crate::model::*;
use ic_certification::hash_tree as ht;
use ic_certification::{LookupResult, SubtreeLookupResult};

/// All small trees over two labels, two leaves, a pruned node and empties, up to `n` forks/labels.
fn small_trees(n: usize) -> Vec<T> {
    let mut levels: Vec<Vec<T>> = vec![];
    let base = vec![T::E, T::V(b"x".to_vec()), T::P([7u8; 32])];
    levels.push(base);
    for k in 1..=n {
        let mut cur = vec![];
        for t in &levels[k - 1] {
            for l in [&b"a"[..], b"b", b"c"] { cur.push(T::L(l.to_vec(), Box::new(t.clone()))); }
        }
        for i in 0..k {
            let j = k - 1 - i;
            for a in &levels[i] { for b in &levels[j] { cur.push(T::F(Box::new(a.clone()), Box::new(b.clone()))); } }
        }
        levels.push(cur);
    }
    levels.into_iter().flatten().collect()
}

pub fn c01(c: &mut Ctx) {
    c.rule("all hash trees with up to 3 inner nodes over a fixed alphabet, then random trees up to depth 4; digest compared with a reference reconstruction; pruning any node keeps the digest");
    let small = small_trees(3);
    c.exhaustive_parts.push(format!("{} trees with at most 3 inner nodes", small.len()));
    for t in &small {
        digest_case(c, t);
        if c.violation.is_some() { return; }
    }
    for len in [23usize, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 100_000] {
        let v = c.rng.bytes(len);
        digest_case(c, &T::L(v.clone(), Box::new(T::E)));
        digest_case(c, &T::V(v));
        if c.violation.is_some() { return; }
    }
    let alpha = label_alphabet();
    let mut n = 0;
    while !c.done() && n < if c.thorough { 400_000 } else { 20_000 } {
        n += 1;
        let d = c.rng.range(1, 4);
        let ra = random_alphabet(&mut c.rng);
        let t = gen_tree(&mut c.rng, if n % 3 == 0 { &ra } else { &alpha }, d, true);
        digest_case(c, &t);
        // prune a random subtree
        let mut k = c.rng.below(t.size());
        let p = prune_kth(&t, &mut k);
        if let Some(h) = c.guard("C01-panic", &|| format!("{p:?}"), || p.build().digest()) {
            c.check(h == t.digest(), "C01-prune", &|| format!("{t:?} pruned to {p:?}"), &|| format!("digest {} instead of {}", hex(&h), hex(&t.digest())));
        }
    }
    // the free-standing hash functions
    for len in [0usize, 1, 31, 32, 33, 255, 256, 300] {
        let v = c.rng.bytes(len);
        let (a, b) = (sha(&[b"l"]), sha(&[b"r"]));
        let ok = ht::leaf_hash(&v) == sep("ic-hashtree-leaf", &[&v]) && ht::labeled_hash(&v, &a) == sep("ic-hashtree-labeled", &[&v, &a]) && ht::fork_hash(&a, &b) == sep("ic-hashtree-fork", &[&a, &b]);
        c.case(&format!("hash functions on {len} bytes"), true);
        c.check(ok, "C01-fn", &|| format!("label/leaf of {len} bytes"), &|| "fork_hash, leaf_hash or labeled_hash differs from the specification".into());
    }
}
fn prune_kth(t: &T, k: &mut usize) -> T {
    if *k == 0 { *k = usize::MAX; return T::P(t.digest()); }
    if *k != usize::MAX { *k -= 1; }
    match t {
        T::F(a, b) => { let x = prune_kth(a, k); let y = prune_kth(b, k); T::F(Box::new(x), Box::new(y)) }
        T::L(l, x) => T::L(l.clone(), Box::new(prune_kth(x, k))),
        o => o.clone(),
    }
}
fn digest_case(c: &mut Ctx, t: &T) {
    let desc = format!("{t:?}");
    c.case(&desc, t.size() > 1);
    if let Some((h, n, b)) = c.guard("C01-panic", &|| desc.clone(), || {
        let x = t.build();
        let node: ic_certification::HashTreeNode = x.clone().into();
        let borrowed = borrow_digest(t);
        (x.digest(), node.digest(), borrowed)
    }) {
        let want = t.digest();
        c.check(h == want && n == want && b == want, "C01-digest", &|| desc.clone(), &|| format!("digest {} instead of {}", hex(&h), hex(&want)));
    }
}
fn borrow_digest(t: &T) -> H {
    fn go<'a>(t: &'a T) -> ht::HashTree<&'a [u8]> {
        match t {
            T::E => ht::empty(),
            T::F(a, b) => ht::fork(go(a), go(b)),
            T::L(l, x) => ht::label(ht::Label::from(&l[..]), go(x)),
            T::V(v) => ht::leaf(&v[..]),
            T::P(h) => ht::pruned(*h),
        }
    }
    go(t).digest()
}

fn query_labels(t: &T) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = label_alphabet();
    fn go(t: &T, v: &mut Vec<Vec<u8>>) {
        match t {
            T::F(a, b) => { go(a, v); go(b, v) }
            T::L(l, x) => { v.push(l.clone()); let mut m = l.clone(); m.push(0); v.push(m); go(x, v) }
            _ => {}
        }
    }
    go(t, &mut v);
    v.sort();
    v.dedup();
    v
}
fn lookup_case(c: &mut Ctx, t: &T, built: &ic_certification::HashTree, path: &[Vec<u8>]) {
    let want = lookup(t, path);
    let desc = || format!("lookup {:?} in {t:?}", path.iter().map(|x| show(x)).collect::<Vec<_>>());
    c.evaluations += 1;
    if let Some(r) = c.guard("C02-panic", &desc, || match built.lookup_path(path) {
        LookupResult::Absent => Look::Absent,
        LookupResult::Unknown => Look::Unknown,
        LookupResult::Error => Look::Error,
        LookupResult::Found(v) => Look::Found(v.to_vec()),
    }) {
        c.check(r == want, "C02-lookup", &desc, &|| format!("lookup_path gives {r:?}, the specification {want:?}"));
    }
    let want = subtree(t, path);
    if let Some(r) = c.guard("C02-panic", &desc, || built.lookup_subtree(path.iter())) {
        let ok = match (&r, &want) {
            (SubtreeLookupResult::Absent, Find::Absent) | (SubtreeLookupResult::Unknown, Find::Unknown) => true,
            (SubtreeLookupResult::Found(x), Find::Found(y)) => T::of(x) == **y,
            _ => false,
        };
        c.check(ok, "C02-subtree", &desc, &|| format!("lookup_subtree gives {r:?}, the specification {want:?}"));
    }
}
pub fn c02(c: &mut Ctx) {
    c.rule("all well-formed hash trees with up to 3 inner nodes over a fixed alphabet with all one- and two-label paths, then random well-formed trees (empty and pruned nodes anywhere) with paths over their labels, neighbours and extensions; lookups compared with a reference find_label over the flattened forest");
    let small: Vec<T> = small_trees(3).into_iter().filter(|t| t.wf()).collect();
    c.exhaustive_parts.push(format!("{} well-formed trees with at most 3 inner nodes, all paths of length 0..2 over 7 labels", small.len()));
    let ls: Vec<Vec<u8>> = [&b""[..], b"a", b"aa", b"b", b"bb", b"c", b"d"].iter().map(|x| x.to_vec()).collect();
    for t in &small {
        let built = t.build();
        c.case(&format!("{t:?}"), t.size() > 1);
        lookup_case(c, t, &built, &[]);
        for a in &ls {
            lookup_case(c, t, &built, &[a.clone()]);
            if t.size() > 2 { for b in &ls { lookup_case(c, t, &built, &[a.clone(), b.clone()]); } }
        }
        if c.violation.is_some() { return; }
    }
    let alpha = label_alphabet();
    let mut n = 0;
    while !c.done() && n < if c.thorough { 200_000 } else { 8_000 } {
        n += 1;
        let d = c.rng.range(1, 3);
        let ra = random_alphabet(&mut c.rng);
        let t = gen_tree(&mut c.rng, if n % 2 == 0 { &ra } else { &alpha }, d, true);
        if !t.wf() { continue; }
        c.case(&format!("{t:?}"), t.size() > 2);
        let built = t.build();
        let mut q = query_labels(&t);
        for i in 0..q.len().min(20) { let l = q[i].clone(); let x = near(&mut c.rng, &l); q.push(x); }
        lookup_case(c, &t, &built, &[]);
        for a in &q { lookup_case(c, &t, &built, &[a.clone()]); }
        for _ in 0..12 {
            let n = c.rng.range(2, 3);
            let path: Vec<Vec<u8>> = (0..n).map(|_| c.rng.pick(&q).clone()).collect();
            lookup_case(c, &t, &built, &path);
        }
    }
}
