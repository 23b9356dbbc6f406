//@text
pub mod witness {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned};
use super::tree::*;
use super::tree2::*;
use super::ops::*;
use super::wit::*;

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct
    ensures r == (if a is Some { a } else { b });

//@take rbt KeyBound
//@derive KeyBound Clone, Copy
//@text
impl<'a> AsRefSpecImpl<[u8]> for KeyBound<'a> { open spec fn as_ref_spec(&self) -> &[u8] { match *self { KeyBound::Exact(k) => k, KeyBound::Neighbor(k) => k } } }
//@take rbt impl:AsRef<[u8]>:KeyBound<'a>
//@text
pub open spec fn kb(b: KeyBound) -> Seq<u8> { match b { KeyBound::Exact(k) => k@, KeyBound::Neighbor(k) => k@ } }
pub broadcast proof fn lemma_kb(b: KeyBound) ensures #[trigger] bytes(&b) == kb(b) { }

pub proof fn lemma_has3<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>)
    requires sorted(a + seq![x] + b)
    ensures forall|k: Seq<u8>| #[trigger] hask(a + seq![x] + b, k) <==> hask(a, k) || k == x.0 || hask(b, k),
        forall|k: Seq<u8>| #[trigger] hask(a, k) ==> lt(k, x.0), forall|k: Seq<u8>| #[trigger] hask(b, k) ==> lt(x.0, k), sorted(a), sorted(b)
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    lemma_sorted_parts(a, x, b);
    assert forall|k: Seq<u8>| #[trigger] hask(f, k) <==> hask(a, k) || k == x.0 || hask(b, k) by { lemma_has_parts(a, x, b, k);
        if hask(a, k) { let i = idx(a, k); assert(a[i].0 == k); } if hask(b, k) { let i = idx(b, k); assert(b[i].0 == k); } }
    assert forall|k: Seq<u8>| #[trigger] hask(a, k) implies lt(k, x.0) by { let i = idx(a, k); assert(a[i].0 == k); }
    assert forall|k: Seq<u8>| #[trigger] hask(b, k) implies lt(x.0, k) by { let i = idx(b, k); assert(b[i].0 == k); }
}
pub proof fn lemma_idx3<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>, k: Seq<u8>)
    requires sorted(a + seq![x] + b)
    ensures k == x.0 ==> (a + seq![x] + b)[idx(a + seq![x] + b, k)] == x,
        hask(a, k) ==> (a + seq![x] + b)[idx(a + seq![x] + b, k)] == a[idx(a, k)],
        hask(b, k) ==> (a + seq![x] + b)[idx(a + seq![x] + b, k)] == b[idx(b, k)],
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    let n = a.len() as int;
    assert(f[n] == x);
    if k == x.0 { assert(hask(f, k)); let j = idx(f, k); assert(j == n) by { if j < n { assert(lt(f[j].0, f[n].0)); } if j > n { assert(lt(f[n].0, f[j].0)); } } }
    if hask(a, k) { let i = idx(a, k); assert(f[i] == a[i]); assert(hask(f, k)); let j = idx(f, k); assert(j == i) by { if j < i { assert(lt(f[j].0, f[i].0)); } if j > i { assert(lt(f[i].0, f[j].0)); } } }
    if hask(b, k) { let i = idx(b, k); assert(f[i + n + 1] == b[i]); assert(hask(f, k)); let j = idx(f, k); assert(j == i + n + 1) by { if j < i + n + 1 { assert(lt(f[j].0, f[i + n + 1].0)); } if j > i + n + 1 { assert(lt(f[i + n + 1].0, f[j].0)); } } }
}
/// The greatest key at or below a key.
pub open spec fn lb_ok<V>(s: Seq<KV<V>>, key: Seq<u8>, r: Option<KeyBound>) -> bool {
    match r {
        None => forall|k: Seq<u8>| #[trigger] hask(s, k) ==> lt(key, k),
        Some(KeyBound::Exact(x)) => x@ == key && hask(s, x@),
        Some(KeyBound::Neighbor(x)) => lt(x@, key) && hask(s, x@) && forall|k: Seq<u8>| #[trigger] hask(s, k) ==> !lt(x@, k) || lt(key, k),
    }
}
/// The least key at or above a key.
pub open spec fn ub_ok<V>(s: Seq<KV<V>>, key: Seq<u8>, r: Option<KeyBound>) -> bool {
    match r {
        None => forall|k: Seq<u8>| #[trigger] hask(s, k) ==> lt(k, key),
        Some(KeyBound::Exact(x)) => x@ == key && hask(s, x@),
        Some(KeyBound::Neighbor(x)) => lt(key, x@) && hask(s, x@) && forall|k: Seq<u8>| #[trigger] hask(s, k) ==> !lt(k, x@) || lt(k, key),
    }
}
pub open spec fn prefixed(p: Seq<u8>, x: Seq<u8>) -> bool { p.len() <= x.len() && x.subrange(0, p.len() as int) == p }
/// The least key above every string with a prefix.
pub open spec fn pn_ok<V>(s: Seq<KV<V>>, p: Seq<u8>, r: Option<KeyBound>) -> bool {
    match r {
        None => forall|k: Seq<u8>| #[trigger] hask(s, k) ==> !lt(p, k) || prefixed(p, k),
        Some(KeyBound::Exact(x)) => false,
        Some(KeyBound::Neighbor(x)) => lt(p, x@) && !prefixed(p, x@) && hask(s, x@) && forall|k: Seq<u8>| #[trigger] hask(s, k) && lt(k, x@) ==> !lt(p, k) || prefixed(p, k),
    }
}
/// Strings with a prefix are not below it, and lie below every greater string without it.
pub proof fn lemma_prefix(p: Seq<u8>, x: Seq<u8>, q: Seq<u8>)
    requires prefixed(p, q)
    ensures !lt(q, p), lt(p, x) && !prefixed(p, x) ==> lt(q, x)
    decreases p.len()
{
    broadcast use group_lex;
    if p.len() > 0 {
        assert(q[0] == q.subrange(0, p.len() as int)[0]);
        assert(prefixed(p.skip(1), q.skip(1))) by { assert(q.skip(1).subrange(0, p.skip(1).len() as int) =~= q.subrange(0, p.len() as int).skip(1)); }
        lemma_prefix(p.skip(1), x.skip(1), q.skip(1));
        if x.len() > 0 && x[0] == p[0] && lt(p, x) && !prefixed(p, x) {
            assert(!prefixed(p.skip(1), x.skip(1))) by {
                if prefixed(p.skip(1), x.skip(1)) { assert(x.subrange(0, p.len() as int) =~= seq![x[0]] + x.skip(1).subrange(0, p.skip(1).len() as int)); assert(p =~= seq![p[0]] + p.skip(1)); }
            }
        }
    } else {
        assert(x.subrange(0, 0) =~= p);
    }
}
pub proof fn lemma_pn<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>, p: Seq<u8>)
    requires sorted(a + seq![x] + b)
    ensures prefixed(p, x.0) ==> forall|k: Seq<u8>| #[trigger] hask(a, k) ==> !lt(p, k) || prefixed(p, k),
        lt(p, x.0) && !prefixed(p, x.0) ==> forall|k: Seq<u8>| #[trigger] hask(b, k) ==> lt(p, k),
{
    broadcast use group_lex;
    lemma_has3(a, x, b);
    assert forall|k: Seq<u8>| prefixed(p, x.0) && #[trigger] hask(a, k) implies !lt(p, k) || prefixed(p, k) by {
        if lt(p, k) && !prefixed(p, k) { lemma_prefix(p, k, x.0); lemma_lexc_range(k, x.0); lemma_lexc_trans(k, x.0, k); }
    }
    assert forall|k: Seq<u8>| lt(p, x.0) && !prefixed(p, x.0) && #[trigger] hask(b, k) implies lt(p, k) by { lemma_lexc_trans(p, x.0, k); }
}
pub open spec fn lset<V>(s: Seq<KV<V>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].0) }

/// The flattened tree of a map has exactly the map's entries, in order.
pub proof fn lemma_flat<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>)
    ensures flat(ht_of(n)) == seq_of(n).map_values(|e: KV<V>| ST::Labeled(e.0, Box::new(e.1.tree_spec())))
    decreases n
{
    match n {
        None => { assert(flat(ht_of(n)) =~= seq_of(n).map_values(|e: KV<V>| ST::Labeled(e.0, Box::new(e.1.tree_spec())))); }
        Some(b) => {
            lemma_flat((*b).left);
            lemma_flat((*b).right);
            reveal_with_fuel(flat, 4);
            let m = ST::Labeled(bytes(&(*b).key), Box::new((*b).value.tree_spec()));
            assert(flat(ht_of(n)) =~= flat(ht_of((*b).left)) + seq![m] + flat(ht_of((*b).right)));
            assert(flat(ht_of(n)) =~= seq_of(n).map_values(|e: KV<V>| ST::Labeled(e.0, Box::new(e.1.tree_spec()))));
        }
    }
}
pub proof fn lemma_ht_ok<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>)
    requires sorted(seq_of(n))
    ensures forest_ok(flat(ht_of(n))), no_leaf(flat(ht_of(n)))
{
    lemma_flat(n);
    let f = flat(ht_of(n));
    let s = seq_of(n);
    assert(f.len() == s.len());
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == ST::Labeled(s[i].0, Box::new(s[i].1.tree_spec())) by {}
    assert forall|i: int, j: int| 0 <= i < j < f.len() && f[i] is Labeled && f[j] is Labeled implies lt(lab(#[trigger] f[i]), lab(#[trigger] f[j])) by { assert(lt(s[i].0, s[j].0)); }
}
/// What the full tree tells about a key is whether the map has it, and its value.
pub proof fn lemma_ht_rel<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>, q: Seq<u8>)
    requires sorted(seq_of(n))
    ensures hask(seq_of(n), q) <==> rel(q, flat(ht_of(n))) is Found,
        hask(seq_of(n), q) ==> rel(q, flat(ht_of(n))) == Rel::Found(seq_of(n)[idx(seq_of(n), q)].1.tree_spec()),
        rel(q, flat(ht_of(n))) != Rel::Unknown
{
    broadcast use group_lex;
    lemma_flat(n);
    lemma_ht_ok(n);
    let f = flat(ht_of(n));
    let s = seq_of(n);
    assert(f.len() == s.len());
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == ST::Labeled(s[i].0, Box::new(s[i].1.tree_spec())) by {}
    if hask(s, q) { let i = idx(s, q); assert(s[i].0 == q); assert(f[i] is Labeled && lab(f[i]) == q); lemma_found_unique(q, f, i); }
    if has_label(f, q) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == q; assert(s[i].0 == q); }
    if !has_label(f, q) { lemma_sorted_gap(f, q); }
}
/// In an ordered forest of labels nothing is unknown.
pub proof fn lemma_sorted_gap(f: Seq<ST>, q: Seq<u8>)
    requires forest_ok(f), forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) is Labeled, !has_label(f, q)
    ensures rel(q, f) != Rel::Unknown, f.len() > 0 && !first_above(f, q) && !last_below(f, q) ==> has_gap(f, q)
    decreases f.len()
{
    broadcast use group_lex;
    if f.len() > 0 && !first_above(f, q) && !last_below(f, q) {
        assert(lab(f[0]) != q) by { if lab(f[0]) == q { assert(has_label(f, q)); } }
        assert(lab(f.last()) != q) by { if lab(f.last()) == q { assert(f[f.len() - 1] is Labeled); assert(has_label(f, q)); } }
        assert(lt(lab(f[0]), q));
        assert(f.len() > 1) by { if f.len() == 1 { assert(f.last() == f[0]); } }
        let g = f.skip(1);
        assert(forall|i: int| 0 <= i < g.len() ==> g[i] == f[i + 1]);
        if lt(q, lab(f[1])) { assert(gap_at(f, q, 0)); }
        else {
            assert(!has_label(g, q)) by { if has_label(g, q) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]) is Labeled && lab(g[i]) == q; assert(f[i + 1] is Labeled && lab(f[i + 1]) == q); } }
            assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]) is Labeled by { assert(f[i + 1] is Labeled); }
            assert forall|i: int, j: int| 0 <= i < j < g.len() && g[i] is Labeled && g[j] is Labeled implies lt(lab(#[trigger] g[i]), lab(#[trigger] g[j])) by { assert(f[i + 1] is Labeled); assert(lt(lab(f[i + 1]), lab(f[j + 1]))); }
            lemma_sorted_gap(g, q);
            let i = choose|i: int| #[trigger] gap_at(g, q, i);
            assert(gap_at(f, q, i + 1));
        }
    }
}
/// w is a witness for the subtree n: a pruning of its tree, empty exactly when the subtree is.
pub open spec fn wok<K: AsRef<[u8]>, V: AsHashTree>(w: ST, n: NodeRef<K, V>) -> bool { prunes(w, ht_of(n)) && (w is Empty <==> n is None) }
/// A key the witness shows is shown with its whole value.
pub open spec fn exact<K: AsRef<[u8]>, V: AsHashTree>(q: Seq<u8>, w: ST, n: NodeRef<K, V>) -> bool {
    rel(q, flat(w)) is Found ==> rel(q, flat(w)) == rel(q, flat(ht_of(n)))
}
pub proof fn lemma_threew_rel(q: Seq<u8>, l: ST, m: ST, r: ST)
    requires forest_ok(flat(threew(l, m, r))), m is Labeled || m is Pruned
    ensures rel(q, flat(threew(l, m, r))) == combine(rel(q, flat(l)), combine(rel(q, flat(m)), rel(q, flat(r))))
{
    reveal_with_fuel(flat, 4);
    let w = threew(l, m, r);
    lemma_rel_one(q, m);
    assert(flat(m) =~= seq![m]);
    if l is Empty && r is Empty { }
    else if r is Empty { lemma_rel_concat(q, flat(l), flat(m)); }
    else if l is Empty { lemma_rel_concat(q, flat(m), flat(r)); }
    else if m is Pruned && r is Pruned {
        lemma_rel_one(q, r);
        assert(flat(r) =~= seq![r]);
        if l is Pruned { lemma_rel_one(q, l); assert(flat(l) =~= seq![l]); lemma_rel_one(q, w); assert(flat(w) =~= seq![w]); }
        else {
            let p = ST::Pruned(h_fork(m->Pruned_0, r->Pruned_0));
            assert(w == ST::Fork(Box::new(l), Box::new(p)));
            lemma_rel_one(q, p);
            assert(flat(p) =~= seq![p]);
            lemma_rel_concat(q, flat(l), flat(p));
        }
    } else {
        lemma_forest_split(flat(l), flat(m) + flat(r));
        lemma_rel_concat(q, flat(l), flat(m) + flat(r));
        lemma_rel_concat(q, flat(m), flat(r));
    }
}
pub proof fn lemma_exact<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, l: ST, m: ST, r: ST, q: Seq<u8>)
    requires sorted(nseq(b)), exact(q, l, b.left), exact(q, r, b.right), forest_ok(flat(threew(l, m, r))),
        m is Pruned || (m is Labeled && lab(m) == bytes(&b.key)), q != bytes(&b.key) || m is Pruned || m == ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()))
    ensures exact(q, threew(l, m, r), Some(Box::new(b)))
{
    broadcast use group_lex;
    let n = Some(Box::new(b));
    let w = threew(l, m, r);
    let mm = ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()));
    let t = ht_of(n);
    let tl = ht_of(b.left);
    let tr = ht_of(b.right);
    if rel(q, flat(w)) is Found {
        assert(t == threew(tl, mm, tr)) by { reveal_with_fuel(ht_of, 2); }
        lemma_sorted_parts(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right));
        assert(seq_of(n) == nseq(b));
        lemma_ht_ok(n);
        lemma_threew_rel(q, l, m, r);
        lemma_threew_rel(q, tl, mm, tr);
        lemma_rel_one(q, m);
        lemma_rel_one(q, mm);
        reveal_with_fuel(flat, 3);
        assert(flat(mm) =~= seq![mm]);
        assert(flat(m) =~= seq![m]);
        lemma_ht_order(b, q);
        lemma_ht_rel(b.left, q);
        lemma_ht_rel(b.right, q);
        lemma_lexc_range(q, bytes(&b.key));
        let (rl, rm, rr) = (rel(q, flat(l)), rel(q, flat(m)), rel(q, flat(r)));
        let (sl, sm, sr) = (rel(q, flat(tl)), rel(q, flat(mm)), rel(q, flat(tr)));
        assert(rel(q, flat(w)) == combine(rl, combine(rm, rr)));
        assert(rel(q, flat(t)) == combine(sl, combine(sm, sr)));
        if rl is Found { assert(sl == rl); assert(rel(q, flat(t)) == rl); }
        else if rm is Found { assert(m == mm); assert(rel(q, flat(w)) == rm); assert(sm == rm); }
        else { assert(rr is Found); assert(sr == rr); assert(rel(q, flat(w)) == rr); assert(lt(bytes(&b.key), q)); assert(rel(q, flat(t)) == sr); }
    }
}
/// One step up: a witness for a node from witnesses for its subtrees and its entry.
pub proof fn lemma_step<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, l: ST, m: ST, r: ST)
    requires sorted(nseq(b)), wok(l, b.left), wok(r, b.right), m is Labeled || m is Pruned, prunes(m, ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()))),
    ensures wok(threew(l, m, r), Some(Box::new(b))), forest_ok(flat(threew(l, m, r))),
        prunes(threew(l, m, r), nht_of(b)),
        forall|q: Seq<u8>| #![trigger rel(q, flat(threew(l, m, r)))] rel(q, flat(threew(l, m, r))) == combine(rel(q, flat(l)), combine(rel(q, flat(m)), rel(q, flat(r)))),
        forall|q: Seq<u8>| #![trigger exact(q, threew(l, m, r), Some(Box::new(b)))] exact(q, l, b.left) && exact(q, r, b.right) && (q != bytes(&b.key) || m is Pruned || m == ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()))) ==> exact(q, threew(l, m, r), Some(Box::new(b))),
        m is Pruned ==> forall|q: Seq<u8>| #[trigger] rel(q, flat(m)) == Rel::Unknown,
        m is Labeled ==> forall|q: Seq<u8>| #[trigger] rel(q, flat(m)) == (if q == bytes(&b.key) { Rel::Found(*m->Labeled_1) } else if lt(q, bytes(&b.key)) { Rel::Less } else { Rel::Greater }),
{
    let n = Some(Box::new(b));
    let w = threew(l, m, r);
    let mm = ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()));
    let t = ht_of(n);
    let tl = ht_of(b.left);
    let tr = ht_of(b.right);
    reveal_with_fuel(prunes, 3);
    reveal_with_fuel(dg, 3);
    reveal_with_fuel(flat, 3);
    assert(seq_of(n) == nseq(b));
    assert(t == three(tl, mm, tr));
    assert(tl is Empty <==> b.left is None) by { if b.left is Some { assert(!(ht_of(b.left) is Empty)); } }
    assert(tr is Empty <==> b.right is None) by { if b.right is Some { assert(!(ht_of(b.right) is Empty)); } }
    lemma_prunes_dg(l, tl);
    lemma_prunes_dg(m, mm);
    lemma_prunes_dg(r, tr);
    assert(prunes(w, t));
    lemma_ht_ok(n);
    lemma_sorted_parts(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right));
    assert(forest_ok(flat(w))) by { lemma_prune_rel(w, t, Seq::empty()); }
    assert(threew(tl, mm, tr) == t);
    assert(flat(m) =~= seq![m]);
    assert forall|q: Seq<u8>| #![trigger rel(q, flat(m))] (m is Pruned ==> rel(q, flat(m)) == Rel::Unknown) && (m is Labeled ==> rel(q, flat(m)) == (if q == bytes(&b.key) { Rel::Found(*m->Labeled_1) } else if lt(q, bytes(&b.key)) { Rel::Less } else { Rel::Greater })) by { lemma_rel_one(q, m); }
    assert forall|q: Seq<u8>| #![trigger rel(q, flat(w))] rel(q, flat(w)) == combine(rel(q, flat(l)), combine(rel(q, flat(m)), rel(q, flat(r)))) by { lemma_threew_rel(q, l, m, r); }
    assert forall|q: Seq<u8>| #![trigger exact(q, w, n)] exact(q, l, b.left) && exact(q, r, b.right) && (q != bytes(&b.key) || m is Pruned || m == mm) implies exact(q, w, n) by {
        lemma_exact(b, l, m, r, q);
    }
}
/// Where a key lies decides what the subtrees tell about it.
pub proof fn lemma_ht_order<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, q: Seq<u8>)
    requires sorted(nseq(b))
    ensures !lt(q, bytes(&b.key)) ==> rel(q, flat(ht_of(b.left))) is Greater || rel(q, flat(ht_of(b.left))) is Empty,
        !lt(bytes(&b.key), q) ==> rel(q, flat(ht_of(b.right))) is Less || rel(q, flat(ht_of(b.right))) is Empty,
{
    broadcast use group_lex;
    lemma_sorted_parts(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right));
    lemma_flat(b.left);
    lemma_flat(b.right);
    lemma_ht_ok(b.left);
    lemma_ht_ok(b.right);
    let s = seq_of(b.left);
    let f = flat(ht_of(b.left));
    let s2 = seq_of(b.right);
    let f2 = flat(ht_of(b.right));
    assert(f.len() == s.len() && f2.len() == s2.len());
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == ST::Labeled(s[i].0, Box::new(s[i].1.tree_spec())) by {}
    assert forall|i: int| 0 <= i < f2.len() implies #[trigger] f2[i] == ST::Labeled(s2[i].0, Box::new(s2[i].1.tree_spec())) by {}
    if !lt(q, bytes(&b.key)) && f.len() > 0 {
        lemma_lexc_range(q, bytes(&b.key));
        assert forall|i: int| 0 <= i < f.len() implies lt(lab(#[trigger] f[i]), q) by { assert(lt(s[i].0, bytes(&b.key))); lemma_lexc_trans(s[i].0, bytes(&b.key), q); }
        assert(f.last() == f[f.len() - 1]);
        assert(lt(lab(f[0]), q));
    }
    if !lt(bytes(&b.key), q) && f2.len() > 0 {
        lemma_lexc_range(q, bytes(&b.key));
        assert forall|i: int| 0 <= i < f2.len() implies lt(q, lab(#[trigger] f2[i])) by { assert(lt(bytes(&b.key), s2[i].0)); lemma_lexc_trans(q, bytes(&b.key), s2[i].0); }
        assert(lt(q, lab(f2[0])));
    }
}
/// A tree that shows every key.
pub proof fn lemma_wt<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>, full: bool)
    requires sorted(seq_of(n))
    ensures wok(wt(n, full), n), forall|q: Seq<u8>| #[trigger] rel(q, flat(wt(n, full))) != Rel::Unknown, full ==> forall|q: Seq<u8>| #[trigger] exact(q, wt(n, full), n)
    decreases n
{
    match n {
        None => {}
        Some(b) => {
            lemma_sorted_parts(seq_of((*b).left), (bytes(&(*b).key), (*b).value), seq_of((*b).right));
            lemma_wt((*b).left, full);
            lemma_wt((*b).right, full);
            let m = ST::Labeled(bytes(&(*b).key), Box::new(if full { (*b).value.tree_spec() } else { ST::Pruned(dg((*b).value.tree_spec())) }));
            lemma_prunes_refl((*b).value.tree_spec());
            reveal_with_fuel(prunes, 3);
            lemma_step(*b, wt((*b).left, full), m, wt((*b).right, full));
            assert(n == Some(Box::new(*b)));
        }
    }
}
//@take rbt RbTree::lower_bound RbTree::upper_bound RbTree::right_prefix_neighbor
//@text
/// A subtree hidden behind its digest.
pub open spec fn hid<K, V>(n: NodeRef<K, V>) -> ST { match n { None => ST::Empty, Some(l) => ST::Pruned((*l).subtree_hash) } }
pub open spec fn m_ok<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, m: ST) -> bool {
    (m is Labeled || m is Pruned) && prunes(m, ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec())))
}
pub open spec fn stepped<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, l: ST, m: ST, r: ST) -> bool {
    &&& wok(threew(l, m, r), Some(Box::new(b)))
    &&& forall|q: Seq<u8>| #![trigger rel(q, flat(threew(l, m, r)))] rel(q, flat(threew(l, m, r))) == combine(rel(q, flat(l)), combine(
            (if m is Pruned { Rel::Unknown } else if q == bytes(&b.key) { Rel::Found(*m->Labeled_1) } else if lt(q, bytes(&b.key)) { Rel::Less } else { Rel::Greater }), rel(q, flat(r))))
    &&& forall|q: Seq<u8>| #![trigger exact(q, threew(l, m, r), Some(Box::new(b)))] exact(q, l, b.left) && exact(q, r, b.right) && (q != bytes(&b.key) || m is Pruned || m == ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()))) ==> exact(q, threew(l, m, r), Some(Box::new(b)))
}
pub open spec fn hid_ok<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>) -> bool {
    &&& wok(hid(n), n)
    &&& forall|q: Seq<u8>| #[trigger] rel(q, flat(hid(n))) == (if n is None { Rel::Empty } else { Rel::Unknown })
    &&& forall|q: Seq<u8>| #[trigger] exact(q, hid(n), n)
}
pub open spec fn full_ok<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>, full: bool) -> bool {
    &&& wok(wt(n, full), n)
    &&& forall|q: Seq<u8>| #[trigger] rel(q, flat(wt(n, full))) != Rel::Unknown
    &&& full ==> forall|q: Seq<u8>| #[trigger] exact(q, wt(n, full), n)
}
/// All that a step of a witness construction needs to know about the node it is at.
pub proof fn lemma_node<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>)
    requires sorted(nseq(b)), nhashed(b)
    ensures forall|l: ST, m: ST, r: ST| #![trigger threew(l, m, r)] wok(l, b.left) && wok(r, b.right) && m_ok(b, m) ==> stepped(b, l, m, r),
        hid_ok(b.left), hid_ok(b.right), full_ok(b.left, true), full_ok(b.left, false), full_ok(b.right, true), full_ok(b.right, false),
        m_ok(b, ST::Pruned(h_labeled(bytes(&b.key), dg(b.value.tree_spec())))),
        m_ok(b, ST::Labeled(bytes(&b.key), Box::new(b.value.tree_spec()))),
        m_ok(b, ST::Labeled(bytes(&b.key), Box::new(ST::Pruned(dg(b.value.tree_spec()))))),
        sorted(seq_of(b.left)), sorted(seq_of(b.right)),
        forall|k: Seq<u8>| #[trigger] hask(nseq(b), k) <==> hask(seq_of(b.left), k) || k == bytes(&b.key) || hask(seq_of(b.right), k),
        forall|k: Seq<u8>| #[trigger] hask(seq_of(b.left), k) ==> lt(k, bytes(&b.key)),
        forall|k: Seq<u8>| #[trigger] hask(seq_of(b.right), k) ==> lt(bytes(&b.key), k),
{
    lemma_has3(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right));
    assert forall|l: ST, m: ST, r: ST| #![trigger threew(l, m, r)] wok(l, b.left) && wok(r, b.right) && m_ok(b, m) implies stepped(b, l, m, r) by {
        lemma_step(b, l, m, r);
        if m is Labeled { reveal_with_fuel(prunes, 2); }
        assert forall|q: Seq<u8>| #![trigger rel(q, flat(threew(l, m, r)))] rel(q, flat(threew(l, m, r))) == combine(rel(q, flat(l)), combine(
            (if m is Pruned { Rel::Unknown } else if q == bytes(&b.key) { Rel::Found(*m->Labeled_1) } else if lt(q, bytes(&b.key)) { Rel::Less } else { Rel::Greater }), rel(q, flat(r)))) by {
            let x = rel(q, flat(m));
        }
    }
    lemma_hid(b.left);
    lemma_hid(b.right);
    lemma_wt(b.left, true);
    lemma_wt(b.left, false);
    lemma_wt(b.right, true);
    lemma_wt(b.right, false);
    reveal_with_fuel(prunes, 3);
    reveal_with_fuel(dg, 3);
    lemma_prunes_refl(b.value.tree_spec());
}
pub proof fn lemma_hid<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>)
    requires hashed(n)
    ensures hid_ok(n)
{
    lemma_hashed(n);
    let w = hid(n);
    reveal_with_fuel(prunes, 2);
    assert forall|q: Seq<u8>| #[trigger] rel(q, flat(w)) == (if n is None { Rel::Empty } else { Rel::Unknown }) by {
        if n is Some { lemma_rel_one(q, w); assert(flat(w) =~= seq![w]); } else { assert(flat(w) =~= Seq::empty()); }
    }
    assert forall|q: Seq<u8>| #[trigger] exact(q, w, n) by { let x = rel(q, flat(w)); }
}
pub open spec fn is_nb(b: KeyBound, q: Seq<u8>) -> bool { b is Neighbor && kb(b) == q }
pub open spec fn above_ok<K: AsRef<[u8]>, V: AsHashTree>(w: ST, n: NodeRef<K, V>, lo: KeyBound, full: bool) -> bool {
    &&& wok(w, n)
    &&& forall|q: Seq<u8>| !lt(q, kb(lo)) ==> match #[trigger] rel(q, flat(w)) { Rel::Found(_) | Rel::Absent | Rel::Greater => true, _ => false }
    &&& full ==> forall|q: Seq<u8>| !is_nb(lo, q) ==> #[trigger] exact(q, w, n)
}
pub open spec fn below_ok<K: AsRef<[u8]>, V: AsHashTree>(w: ST, n: NodeRef<K, V>, hi: KeyBound, full: bool) -> bool {
    &&& wok(w, n)
    &&& forall|q: Seq<u8>| !lt(kb(hi), q) ==> match #[trigger] rel(q, flat(w)) { Rel::Found(_) | Rel::Absent | Rel::Less => true, _ => false }
    &&& full ==> forall|q: Seq<u8>| !is_nb(hi, q) ==> #[trigger] exact(q, w, n)
}
pub open spec fn lo_ok<V>(s: Seq<KV<V>>, lo: Seq<u8>) -> bool { hask(s, lo) || forall|k: Seq<u8>| #[trigger] hask(s, k) ==> lt(lo, k) }
pub open spec fn hi_ok<V>(s: Seq<KV<V>>, hi: Seq<u8>) -> bool { hask(s, hi) || forall|k: Seq<u8>| #[trigger] hask(s, k) ==> lt(k, hi) }
pub open spec fn between_ok<K: AsRef<[u8]>, V: AsHashTree>(w: ST, n: NodeRef<K, V>, lo: KeyBound, hi: KeyBound, full: bool) -> bool {
    &&& wok(w, n)
    &&& forall|q: Seq<u8>| !lt(q, kb(lo)) && !lt(kb(hi), q) ==> match #[trigger] rel(q, flat(w)) {
            Rel::Unknown => false, Rel::Less => !hask(seq_of(n), kb(lo)), Rel::Greater => !hask(seq_of(n), kb(hi)),
            Rel::Empty => !hask(seq_of(n), kb(lo)) && !hask(seq_of(n), kb(hi)), _ => true }
    &&& full ==> forall|q: Seq<u8>| !is_nb(lo, q) && !is_nb(hi, q) ==> #[trigger] exact(q, w, n)
}
pub proof fn lemma_between_pre<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, lo: Seq<u8>, hi: Seq<u8>)
    requires sorted(nseq(b)), lo_ok(nseq(b), lo), hi_ok(nseq(b), hi), !lt(hi, lo)
    ensures lexc(lo, bytes(&b.key)) == -lexc(bytes(&b.key), lo), lexc(hi, bytes(&b.key)) == -lexc(bytes(&b.key), hi),
        lexc(lo, bytes(&b.key)) == 0 <==> lo == bytes(&b.key), lexc(hi, bytes(&b.key)) == 0 <==> hi == bytes(&b.key),
        lt(lo, bytes(&b.key)) ==> lo_ok(seq_of(b.left), lo), lo_ok(seq_of(b.right), lo),
        lt(bytes(&b.key), hi) ==> hi_ok(seq_of(b.right), hi), hi_ok(seq_of(b.left), hi),
        lt(bytes(&b.key), lo) ==> lt(bytes(&b.key), hi), lt(hi, bytes(&b.key)) ==> lt(lo, bytes(&b.key)),
{
    broadcast use group_lex;
    let k = bytes(&b.key);
    lemma_has3(seq_of(b.left), (k, b.value), seq_of(b.right));
    lemma_lexc_range(lo, k);
    lemma_lexc_range(hi, k);
    lemma_lexc_range(lo, hi);
    if lt(k, lo) { lemma_lexc_trans(k, lo, hi); }
    if lt(hi, k) { lemma_lexc_trans(lo, hi, k); }
    let n = nseq(b);
    assert(n == seq_of(b.left) + seq![(k, b.value)] + seq_of(b.right));
    assert forall|x: Seq<u8>| #[trigger] hask(seq_of(b.left), x) implies hask(n, x) && lt(x, k) by {}
    assert forall|x: Seq<u8>| #[trigger] hask(seq_of(b.right), x) implies hask(n, x) && lt(k, x) by {}
    assert forall|x: Seq<u8>| lt(k, hi) && #[trigger] hask(seq_of(b.left), x) implies lt(x, hi) by { lemma_lexc_trans(x, k, hi); }
    assert forall|x: Seq<u8>| lt(lo, k) && #[trigger] hask(seq_of(b.right), x) implies lt(lo, x) by { lemma_lexc_trans(lo, k, x); }
    assert(hask(n, k));
}
/// The parts of one step of a range witness.
pub open spec fn parts_ok<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, l: ST, m: ST, r: ST, lo: KeyBound, hi: KeyBound, full: bool) -> bool {
    let k = bytes(&b.key);
    &&& if lt(kb(lo), k) { between_ok(l, b.left, lo, hi, full) } else { l == hid(b.left) }
    &&& if lt(k, kb(hi)) { between_ok(r, b.right, lo, hi, full) } else { r == hid(b.right) }
    &&& if lt(k, kb(lo)) || lt(kb(hi), k) { m == ST::Pruned(h_labeled(k, dg(b.value.tree_spec()))) } else {
            m == ST::Labeled(k, Box::new(b.value.tree_spec())) || (m == ST::Labeled(k, Box::new(ST::Pruned(dg(b.value.tree_spec())))) && (!full || is_nb(lo, k) || is_nb(hi, k))) }
}
pub proof fn lemma_between_step<K: AsRef<[u8]>, V: AsHashTree>(b: Node<K, V>, lo: KeyBound, hi: KeyBound, full: bool, l: ST, m: ST, r: ST)
    requires sorted(nseq(b)), nhashed(b), lo_ok(nseq(b), kb(lo)), hi_ok(nseq(b), kb(hi)), !lt(kb(hi), kb(lo)), parts_ok(b, l, m, r, lo, hi, full)
    ensures between_ok(threew(l, m, r), Some(Box::new(b)), lo, hi, full)
{
    let n = Some(Box::new(b));
    let k = bytes(&b.key);
    let w = threew(l, m, r);
    lemma_node(b);
    lemma_between_pre(b, kb(lo), kb(hi));
    assert(m_ok(b, m));
    assert(wok(l, b.left) && wok(r, b.right));
    assert(stepped(b, l, m, r));
    assert(seq_of(n) == nseq(b));
    let (hl, hr) = (hask(nseq(b), kb(lo)), hask(nseq(b), kb(hi)));
    assert(hask(nseq(b), k));
    assert forall|q: Seq<u8>| !lt(q, kb(lo)) && !lt(kb(hi), q) implies match #[trigger] rel(q, flat(w)) {
            Rel::Unknown => false, Rel::Less => !hl, Rel::Greater => !hr, Rel::Empty => !hl && !hr, _ => true } by {
        let rl = rel(q, flat(l));
        let rr = rel(q, flat(r));
        let rm = if m is Pruned { Rel::Unknown } else if q == k { Rel::Found(*m->Labeled_1) } else if lt(q, k) { Rel::Less } else { Rel::Greater };
        assert(rel(q, flat(w)) == combine(rl, combine(rm, rr)));
        lemma_lexc_range(q, k);
        lemma_lexc_range(q, kb(lo));
        lemma_lexc_range(q, kb(hi));
        lemma_lexc_range(kb(lo), k);
        lemma_lexc_range(kb(hi), k);
        if kb(lo) == k { assert(!lt(q, k)); }
        if kb(hi) == k { assert(!lt(k, q)); }
        if lt(k, kb(lo)) { lemma_lexc_trans(k, kb(lo), q); }
        if lt(kb(hi), k) { lemma_lexc_trans(q, kb(hi), k); }
    }
    if full {
        assert forall|q: Seq<u8>| !is_nb(lo, q) && !is_nb(hi, q) implies #[trigger] exact(q, w, n) by {
            assert(exact(q, l, b.left));
            assert(exact(q, r, b.right));
        }
    }
}

/// What a witness tells about a key is the truth about the map.
pub open spec fn told<K: AsRef<[u8]>, V: AsHashTree>(q: Seq<u8>, w: ST, n: NodeRef<K, V>) -> bool {
    if hask(seq_of(n), q) { rel(q, flat(w)) is Found } else { !(rel(q, flat(w)) is Found) && rel(q, flat(w)) != Rel::Unknown }
}
pub proof fn lemma_told<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>, w: ST)
    requires sorted(seq_of(n)), prunes(w, ht_of(n))
    ensures forall|q: Seq<u8>| rel(q, flat(w)) != Rel::Unknown ==> #[trigger] told(q, w, n)
{
    lemma_ht_ok(n);
    assert forall|q: Seq<u8>| rel(q, flat(w)) != Rel::Unknown implies #[trigger] told(q, w, n) by {
        lemma_ht_rel(n, q);
        lemma_prune_rel(w, ht_of(n), q);
    }
}
pub open spec fn in_bounds(q: Seq<u8>, left: Option<KeyBound>, right: Option<KeyBound>) -> bool {
    (left is Some ==> !lt(q, kb(left->Some_0))) && (right is Some ==> !lt(kb(right->Some_0), q))
}
pub open spec fn range_ok<K: AsRef<[u8]>, V: AsHashTree>(w: ST, n: NodeRef<K, V>, left: Option<KeyBound>, right: Option<KeyBound>, full: bool) -> bool {
    &&& prunes(w, ht_of(n))
    &&& forall|q: Seq<u8>| in_bounds(q, left, right) ==> #[trigger] told(q, w, n)
    &&& full ==> forall|q: Seq<u8>| !(left is Some && is_nb(left->Some_0, q)) && !(right is Some && is_nb(right->Some_0, q)) ==> #[trigger] exact(q, w, n)
}
pub proof fn lemma_pdg(t: ST) ensures forall|w: ST| #[trigger] prunes(w, t) ==> dg(w) == dg(t)
{ assert forall|w: ST| #[trigger] prunes(w, t) implies dg(w) == dg(t) by { lemma_prunes_dg(w, t); } }
/// The bounds found for a range enclose the range.
pub proof fn lemma_bounds<V>(s: Seq<KV<V>>, first: Seq<u8>, last: Seq<u8>)
    requires !lt(last, first)
    ensures forall|l: Option<KeyBound>, r: Option<KeyBound>| #[trigger] lb_ok(s, first, l) && #[trigger] ub_ok(s, last, r) ==> {
        &&& l is Some && r is Some ==> !lt(kb(r->Some_0), kb(l->Some_0))
        &&& forall|q: Seq<u8>| !lt(q, first) && !lt(last, q) ==> #[trigger] in_bounds(q, l, r) && !(l is Some && is_nb(l->Some_0, q)) && !(r is Some && is_nb(r->Some_0, q))
    }
{
    broadcast use group_lex;
    assert forall|l: Option<KeyBound>, r: Option<KeyBound>| #[trigger] lb_ok(s, first, l) && #[trigger] ub_ok(s, last, r) implies {
        &&& l is Some && r is Some ==> !lt(kb(r->Some_0), kb(l->Some_0))
        &&& forall|q: Seq<u8>| !lt(q, first) && !lt(last, q) ==> #[trigger] in_bounds(q, l, r) && !(l is Some && is_nb(l->Some_0, q)) && !(r is Some && is_nb(r->Some_0, q))
    } by {
        lemma_lexc_range(first, last);
        if l is Some { lemma_lexc_range(kb(l->Some_0), first); assert(lexc(kb(l->Some_0), first) <= 0); }
        if r is Some { lemma_lexc_range(kb(r->Some_0), last); assert(lexc(last, kb(r->Some_0)) <= 0); }
        if l is Some && r is Some { lemma_lexc_trans(kb(l->Some_0), first, last); lemma_lexc_trans(kb(l->Some_0), last, kb(r->Some_0)); lemma_lexc_range(kb(l->Some_0), kb(r->Some_0)); }
        assert forall|q: Seq<u8>| !lt(q, first) && !lt(last, q) implies #[trigger] in_bounds(q, l, r) && !(l is Some && is_nb(l->Some_0, q)) && !(r is Some && is_nb(r->Some_0, q)) by {
            lemma_lexc_range(q, first); lemma_lexc_range(q, last);
            if l is Some { lemma_lexc_trans(kb(l->Some_0), first, q); lemma_lexc_range(kb(l->Some_0), q); }
            if r is Some { lemma_lexc_trans(q, last, kb(r->Some_0)); lemma_lexc_range(kb(r->Some_0), q); }
        }
    }
}
pub proof fn lemma_prefix_bounds<V>(s: Seq<KV<V>>, p: Seq<u8>)
    ensures forall|l: Option<KeyBound>, r: Option<KeyBound>| #[trigger] lb_ok(s, p, l) && #[trigger] pn_ok(s, p, r) ==> {
        &&& l is Some && r is Some ==> !lt(kb(r->Some_0), kb(l->Some_0))
        &&& forall|q: Seq<u8>| prefixed(p, q) ==> #[trigger] in_bounds(q, l, r)
    }
{
    broadcast use group_lex;
    assert forall|l: Option<KeyBound>, r: Option<KeyBound>| #[trigger] lb_ok(s, p, l) && #[trigger] pn_ok(s, p, r) implies {
        &&& l is Some && r is Some ==> !lt(kb(r->Some_0), kb(l->Some_0))
        &&& forall|q: Seq<u8>| prefixed(p, q) ==> #[trigger] in_bounds(q, l, r)
    } by {
        if l is Some { lemma_lexc_range(kb(l->Some_0), p); assert(lexc(kb(l->Some_0), p) <= 0); }
        if l is Some && r is Some { lemma_lexc_trans(kb(l->Some_0), p, kb(r->Some_0)); lemma_lexc_range(kb(l->Some_0), kb(r->Some_0)); }
        assert forall|q: Seq<u8>| prefixed(p, q) implies #[trigger] in_bounds(q, l, r) by {
            lemma_prefix(p, q, q);
            lemma_lexc_range(q, p);
            if l is Some { lemma_lexc_trans(kb(l->Some_0), p, q); lemma_lexc_range(kb(l->Some_0), q); }
            if r is Some { lemma_prefix(p, kb(r->Some_0), q); lemma_lexc_range(kb(r->Some_0), q); }
        }
    }
}
/// A function on values that returns prunings of their trees.
pub open spec fn prunes_vals<'a, V: AsHashTree + 'a, F: FnOnce(&'a V) -> HashTree>(f: F) -> bool {
    &&& forall|v: &'a V| v.inv() ==> #[trigger] f.requires((v,))
    &&& forall|v: &'a V, t: HashTree| v.inv() && #[trigger] f.ensures((v,), t) ==> prunes(tv(t.root), v.tree_spec())
}
//@take rbt RbTree::range_witness RbTree::witness RbTree::nested_witness RbTree::keys RbTree::key_range RbTree::value_range RbTree::keys_with_prefix
//@take rbt RbTree::witness_range_above RbTree::witness_range_below RbTree::witness_range_between RbTree::lookup_and_build_witness
//@text
} // mod witness
//@fn KeyBound::AsRef::as_ref C05
//@fn RbTree::lower_bound C05
//@ret r
//@spec
    requires self.rinv()
    ensures lb_ok(self.entries(), key@, r)
//@fn RbTree::lower_bound/go C05
//@ret r
//@opt inline-option
//@spec
    requires sorted(seq_of(*n))
    ensures lb_ok(seq_of(*n), key@, r)
    decreases *n
//@entry
    broadcast use group_core, group_lex;
    proof { if n is Some { let b = *n->Some_0; lemma_has3(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right)); lemma_lexc_range(bytes(&b.key), key@); } }
//@fn RbTree::upper_bound C05
//@ret r
//@spec
    requires self.rinv()
    ensures ub_ok(self.entries(), key@, r)
//@fn RbTree::upper_bound/go C05
//@ret r
//@opt inline-option
//@spec
    requires sorted(seq_of(*n))
    ensures ub_ok(seq_of(*n), key@, r)
    decreases *n
//@entry
    broadcast use group_core, group_lex;
    proof { if n is Some { let b = *n->Some_0; lemma_has3(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right)); lemma_lexc_range(bytes(&b.key), key@); } }
//@fn RbTree::right_prefix_neighbor C05
//@ret r
//@spec
    requires self.rinv()
    ensures pn_ok(self.entries(), prefix@, r)
//@fn RbTree::right_prefix_neighbor/is_prefix_of C05
//@ret r
//@spec
    ensures r == prefixed(p@, x@)
//@entry
    broadcast use group_core, group_slice;
    proof { ax_slice_eq_obeys(); }
//@fn RbTree::right_prefix_neighbor/go C05
//@ret r
//@opt inline-option
//@spec
    requires sorted(seq_of(*n))
    ensures pn_ok(seq_of(*n), prefix@, r)
    decreases *n
//@entry
    broadcast use group_core, group_lex;
    proof { if n is Some { let b = *n->Some_0; lemma_has3(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right)); lemma_lexc_range(bytes(&b.key), prefix@); lemma_pn(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right), prefix@); } }
//@fn RbTree::witness_range_above C05
//@ret r
//@spec
    requires self.rinv(), hask(self.entries(), kb(lo)), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> above_ok(tv(r.root), self.root, lo, true), above_ok(tv(r.root), self.root, lo, false)
//@fn RbTree::witness_range_above/go C05
//@ret r
//@spec
    requires sorted(seq_of(*n)), wf(*n), hask(seq_of(*n), kb(lo)), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> above_ok(tv(r.root), *n, lo, true), above_ok(tv(r.root), *n, lo, false)
    decreases *n
//@entry
    broadcast use group_core, group_conv, lemma_kb;
    proof { if n is Some { let b = *n->Some_0; lemma_node(b); lemma_lexc_range(bytes(&b.key), kb(lo)); assert(*n == Some(Box::new(b))); assert(seq_of(*n) == nseq(b)); ax_obeys(); reveal_with_fuel(hashed, 2); reveal_with_fuel(vals_ok, 2); } }
//@fn RbTree::witness_range_below C05
//@ret r
//@spec
    requires self.rinv(), hask(self.entries(), kb(hi)), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> below_ok(tv(r.root), self.root, hi, true), below_ok(tv(r.root), self.root, hi, false)
//@fn RbTree::witness_range_below/go C05
//@ret r
//@spec
    requires sorted(seq_of(*n)), wf(*n), hask(seq_of(*n), kb(hi)), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> below_ok(tv(r.root), *n, hi, true), below_ok(tv(r.root), *n, hi, false)
    decreases *n
//@entry
    broadcast use group_core, group_conv, lemma_kb;
    proof { if n is Some { let b = *n->Some_0; lemma_node(b); lemma_lexc_range(bytes(&b.key), kb(hi)); assert(*n == Some(Box::new(b))); assert(seq_of(*n) == nseq(b)); ax_obeys(); reveal_with_fuel(hashed, 2); reveal_with_fuel(vals_ok, 2); } }
//@fn RbTree::witness_range_between C05
//@ret r
//@spec
    requires self.rinv(), lo_ok(self.entries(), kb(lo)), hi_ok(self.entries(), kb(hi)), !lt(kb(hi), kb(lo)), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> between_ok(tv(r.root), self.root, lo, hi, true), between_ok(tv(r.root), self.root, lo, hi, false)
//@entry
    broadcast use group_core, group_slice, lemma_kb;
    proof { ax_slice_ord_obeys(); lemma_lexc_range(kb(lo), kb(hi)); }
//@fn RbTree::witness_range_between/go C05
//@ret r
//@spec
    requires sorted(seq_of(*n)), wf(*n), lo_ok(seq_of(*n), kb(lo)), hi_ok(seq_of(*n), kb(hi)), !lt(kb(hi), kb(lo)), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> between_ok(tv(r.root), *n, lo, hi, true), between_ok(tv(r.root), *n, lo, hi, false)
    decreases *n
//@entry
    hide(wok); hide(between_ok); hide(prunes); hide(flat); hide(rel); hide(dg); hide(threew); hide(ht_of); hide(lo_ok); hide(hi_ok); hide(sorted); hide(lexc);
    broadcast use group_core, group_conv, lemma_kb;
    proof { if n is Some { let b = *n->Some_0;
        let k = bytes(&b.key);
        assert(*n == Some(Box::new(b))); assert(seq_of(*n) == nseq(b)); ax_obeys();
        lemma_between_pre(b, kb(lo), kb(hi));
        lemma_node(b);
        assert forall|l: ST, m: ST, r: ST| #![trigger threew(l, m, r)] (parts_ok(b, l, m, r, lo, hi, true) ==> between_ok(threew(l, m, r), *n, lo, hi, true)) && (parts_ok(b, l, m, r, lo, hi, false) ==> between_ok(threew(l, m, r), *n, lo, hi, false)) by {
            if parts_ok(b, l, m, r, lo, hi, true) { lemma_between_step(b, lo, hi, true, l, m, r); }
            if parts_ok(b, l, m, r, lo, hi, false) { lemma_between_step(b, lo, hi, false, l, m, r); }
        }
        assert(hashed(b.left) && hashed(b.right) && vals_ok(b.left) && vals_ok(b.right) && bal(b.left) && bal(b.right)) by { reveal_with_fuel(hashed, 2); reveal_with_fuel(vals_ok, 2); reveal_with_fuel(bal, 2); }
    } else { reveal(between_ok); reveal(wok); reveal(flat); reveal(rel); reveal(lo_ok); reveal(hi_ok); reveal(prunes); reveal(ht_of); } }
//@fn RbTree::lookup_and_build_witness C05
//@ret r
//@spec
    requires self.rinv(), prunes_vals(f)
    ensures r is Some <==> hask(self.entries(), key@),
        r is Some ==> wok(tv(r->Some_0.root), self.root) && exists|v: &V, t: HashTree| #[trigger] f.ensures((v,), t) && *v == self.entries()[idx(self.entries(), key@)].1 && rel(key@, flat(tv(r->Some_0.root))) == Rel::Found(tv(t.root))
//@fn RbTree::lookup_and_build_witness/go C05
//@ret r
//@opt inline-option
//@spec
    requires sorted(seq_of(*n)), wf(*n), prunes_vals(f)
    ensures r is Some <==> hask(seq_of(*n), key@),
        r is Some ==> wok(tv(r->Some_0.root), *n) && exists|v: &V, t: HashTree| #[trigger] f.ensures((v,), t) && *v == seq_of(*n)[idx(seq_of(*n), key@)].1 && rel(key@, flat(tv(r->Some_0.root))) == Rel::Found(tv(t.root))
    decreases *n
//@entry
    broadcast use group_core, group_conv, lemma_kb;
    proof { if n is Some { let b = *n->Some_0; lemma_node(b); lemma_lexc_range(bytes(&b.key), key@); assert(*n == Some(Box::new(b))); assert(seq_of(*n) == nseq(b)); ax_obeys(); reveal_with_fuel(hashed, 2); reveal_with_fuel(vals_ok, 2); lemma_idx3(seq_of(b.left), (bytes(&b.key), b.value), seq_of(b.right), key@); } }
//@fn RbTree::range_witness C05
//@ret r
//@spec
    requires self.rinv(), left is Some ==> hask(self.entries(), kb(left->Some_0)), right is Some ==> hask(self.entries(), kb(right->Some_0)),
        left is Some && right is Some ==> !lt(kb(right->Some_0), kb(left->Some_0)), shows(f, true) || shows(f, false)
    ensures range_ok(tv(r.root), self.root, left, right, false), shows(f, true) ==> range_ok(tv(r.root), self.root, left, right, true)
//@entry
    proof { lemma_wt(self.root, true); lemma_wt(self.root, false);
        assert forall|w: ST| #![trigger prunes(w, ht_of(self.root))] prunes(w, ht_of(self.root)) implies forall|q: Seq<u8>| rel(q, flat(w)) != Rel::Unknown ==> #[trigger] told(q, w, self.root) by { lemma_told(self.root, w); } }
//@fn RbTree::nested_witness C05 C06
//@ret r
//@spec
    requires self.rinv(), prunes_vals(f)
    ensures prunes(tv(r.root), ht_of(self.root)), dg(tv(r.root)) == dg(ht_of(self.root)), told(key@, tv(r.root), self.root),
        hask(self.entries(), key@) ==> exists|v: &V, t: HashTree| #[trigger] f.ensures((v,), t) && *v == self.entries()[idx(self.entries(), key@)].1 && rel(key@, flat(tv(r.root))) == Rel::Found(tv(t.root))
//@entry
    broadcast use group_core, lemma_kb;
    proof { lemma_bounds(self.entries(), key@, key@);
        assert forall|w: ST| #![trigger prunes(w, ht_of(self.root))] prunes(w, ht_of(self.root)) implies dg(w) == dg(ht_of(self.root)) && forall|q: Seq<u8>| rel(q, flat(w)) != Rel::Unknown ==> #[trigger] told(q, w, self.root) by { lemma_prunes_dg(w, ht_of(self.root)); lemma_told(self.root, w); } }
//@fn RbTree::witness C05
//@ret r
//@spec
    requires self.rinv()
    ensures prunes(tv(r.root), ht_of(self.root)), dg(tv(r.root)) == dg(ht_of(self.root)), told(key@, tv(r.root), self.root),
        hask(self.entries(), key@) ==> rel(key@, flat(tv(r.root))) == Rel::Found(self.entries()[idx(self.entries(), key@)].1.tree_spec())
//@entry
    proof { assert forall|t: ST| #[trigger] prunes(t, t) by { lemma_prunes_refl(t); } }
//@closure 0
-> (t: HashTree) requires v.inv() ensures tv(t.root) == v.tree_spec()
//@fn RbTree::keys C05
//@ret r
//@spec
    requires self.rinv()
    ensures prunes(tv(r.root), ht_of(self.root)), dg(tv(r.root)) == dg(ht_of(self.root)), forall|q: Seq<u8>| #[trigger] told(q, tv(r.root), self.root)
//@entry
    proof { lemma_wt(self.root, false); lemma_told(self.root, wt(self.root, false)); lemma_prunes_dg(wt(self.root, false), ht_of(self.root)); }
//@fn RbTree::key_range C05
//@ret r
//@spec
    requires self.rinv(), !lt(last@, first@)
    ensures prunes(tv(r.root), ht_of(self.root)), dg(tv(r.root)) == dg(ht_of(self.root)), forall|q: Seq<u8>| !lt(q, first@) && !lt(last@, q) ==> #[trigger] told(q, tv(r.root), self.root)
//@entry
    broadcast use group_core, lemma_kb;
    proof { lemma_bounds(self.entries(), first@, last@); lemma_pdg(ht_of(self.root)); }
//@fn RbTree::value_range C05
//@ret r
//@spec
    requires self.rinv(), !lt(last@, first@)
    ensures prunes(tv(r.root), ht_of(self.root)), dg(tv(r.root)) == dg(ht_of(self.root)), forall|q: Seq<u8>| !lt(q, first@) && !lt(last@, q) ==> #[trigger] told(q, tv(r.root), self.root),
        forall|q: Seq<u8>| !lt(q, first@) && !lt(last@, q) ==> #[trigger] exact(q, tv(r.root), self.root),
//@entry
    broadcast use group_core, lemma_kb;
    proof { lemma_bounds(self.entries(), first@, last@); lemma_pdg(ht_of(self.root)); }
//@fn RbTree::keys_with_prefix C05
//@ret r
//@spec
    requires self.rinv()
    ensures prunes(tv(r.root), ht_of(self.root)), dg(tv(r.root)) == dg(ht_of(self.root)), forall|q: Seq<u8>| prefixed(prefix@, q) ==> #[trigger] told(q, tv(r.root), self.root)
//@entry
    broadcast use group_core, lemma_kb;
    proof { lemma_bounds(self.entries(), prefix@, prefix@); lemma_prefix_bounds(self.entries(), prefix@); lemma_pdg(ht_of(self.root)); }
