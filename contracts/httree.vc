//@source tr packages/ic-http-certification/src/tree/certification_tree.rs
//@source he packages/ic-http-certification/src/error.rs
//@derive HttpCertificationError
//@itemattr HttpCertificationError #[allow(inconsistent_fields)]
//@derive HttpCertificationTree
//@text
// ---------------------------------------------------------------- the HTTP certification tree

use super::tree2::*;
use super::witness::*;
use super::tree::AsHashTree;
use std::fmt::Debug;
use super::merge::merge_hash_trees;
use super::rb::{HashTree, labeled};
use super::tree::{NodeRef, seq_of};
//@take nested impl:NestedTreeKeyRequirements:T impl:NestedTreeValueRequirements:T
//@text
pub open spec fn root_tree(t: CertificationTree) -> ST { ST::Labeled(s_prefix(), Box::new(t.tree_spec())) }
pub broadcast proof fn lemma_pb_pv(p: &[Vec<u8>]) ensures #[trigger] pb(p) == pv(p@) { broadcast use group_core; assert(pb(p) =~= pv(p@)); }
pub proof fn lemma_anti(a: ST, b: ST) requires prunes(a, b), prunes(b, a) ensures a == b decreases a
{
    match (a, b) { (ST::Fork(c, d), ST::Fork(e, f)) => { lemma_anti(*c, *e); lemma_anti(*d, *f); } (ST::Labeled(_, c), ST::Labeled(_, e)) => { lemma_anti(*c, *e); } _ => {} }
}
/// What the map has below a key is what the full tree has there.
pub proof fn lemma_child_rel<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, k: Seq<u8>)
    requires t.inv(), t is Nested
    ensures forest_ok(flat(t.tree_spec())), no_leaf(flat(t.tree_spec())),
        match child(t, k) { Some(c) => rel(k, flat(t.tree_spec())) == Rel::Found(c.tree_spec()), None => !(rel(k, flat(t.tree_spec())) is Found) && rel(k, flat(t.tree_spec())) != Rel::Unknown }
{
    broadcast use group_nested;
    let m = t->Nested_0;
    lemma_ht_ok(m.root);
    lemma_ht_rel(m.root, k);
    lemma_as_map(m.entries());
    if hask(m.entries(), k) { let i = idx(m.entries(), k); assert(m.entries()[i].0 == k); assert(m.entries()[i].1 == m.map()[k]); }
}
/// A witness that grows, towards the full tree, keeps showing what it showed.
pub proof fn lemma_shown_grows<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path, w: ST, m: ST)
    requires t.inv(), shown(t, p, w), prunes(w, m), prunes(m, t.tree_spec())
    ensures shown(t, p, m)
    decreases p.len()
{
    broadcast use group_nested;
    if p.len() == 0 || t is Leaf { lemma_anti(m, t.tree_spec()); } else {
        lemma_map_vals(t);
        lemma_child_rel(t, p[0]);
        lemma_prune_rel(m, t.tree_spec(), p[0]);
        assert(m is Leaf ==> flat(m) =~= seq![m]);
        lemma_prune_rel(w, m, p[0]);
        lemma_rel_find(p[0], flat(w)); lemma_rel_find(p[0], flat(m));
        if child(t, p[0]) is Some { lemma_shown_grows(child(t, p[0])->Some_0, p.skip(1), find(p[0], flat(w))->Found_0, find(p[0], flat(m))->Found_0); }
    }
}
/// The full tree shows everything.
pub proof fn lemma_shown_full<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path)
    requires t.inv()
    ensures shown(t, p, t.tree_spec())
    decreases p.len()
{
    broadcast use group_nested;
    if p.len() > 0 && t is Nested {
        lemma_map_vals(t);
        lemma_child_rel(t, p[0]);
        lemma_rel_find(p[0], flat(t.tree_spec()));
        if child(t, p[0]) is Some { lemma_shown_full(child(t, p[0])->Some_0, p.skip(1)); }
    }
}
/// What is shown at a path is shown with everything below it.
pub proof fn lemma_shown_below<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path, s: Path, w: ST)
    requires t.inv(), shown(t, p, w), at(t, p) is Some
    ensures shown(t, p + s, w), at(t, p + s) == at(at(t, p)->Some_0, s)
    decreases p.len()
{
    broadcast use group_nested;
    if p.len() == 0 { assert(p + s =~= s); lemma_shown_full(t, s); } else {
        lemma_map_vals(t);
        assert((p + s).skip(1) =~= p.skip(1) + s);
        assert((p + s)[0] == p[0]);
        lemma_shown_below(child(t, p[0])->Some_0, p.skip(1), s, find(p[0], flat(w))->Found_0);
    }
}
/// What a pruning of the tree shows at a path, the tree has there.
pub proof fn lemma_truth(t: CertificationTree, p: Path, w: ST)
    requires t.inv(), prunes(w, t.tree_spec()), subtree_spec(p, w) is Found
    ensures at(t, p) is Some, prunes(subtree_spec(p, w)->Found_0, at(t, p)->Some_0.tree_spec())
    decreases p.len()
{
    broadcast use group_nested;
    if p.len() > 0 {
        if t is Leaf { assert(w is Leaf || w is Pruned); assert(flat(w) =~= seq![w]); lemma_rel_one(p[0], w); assert(!has_label(flat(w), p[0])); assert(false); }
        lemma_map_vals(t);
        lemma_child_rel(t, p[0]);
        lemma_prune_rel(w, t.tree_spec(), p[0]);
        lemma_rel_find(p[0], flat(w));
        lemma_truth(child(t, p[0])->Some_0, p.skip(1), find(p[0], flat(w))->Found_0);
    }
}
/// The paths a witness for an entry has to show, for a requested path: its own; for a wildcard also the requested path itself
/// and the wildcards that would take precedence.
pub open spec fn to_show(e: HttpCertificationTreeEntry, url: Seq<char>) -> Seq<Path> {
    match (*cow_ref(&e.path)).0 {
        HttpCertificationPathType::Exact(_) => seq![entry_path(e)],
        HttpCertificationPathType::Wildcard(_) => seq![url_segs(url).push(s_exact()), path_of(*cow_ref(&e.path))]
            + more_specific(bare(with_prefix(url_segs(url).push(s_exact()))), bare(with_prefix(path_of(*cow_ref(&e.path))))),
    }
}
pub open spec fn all_shown(t: CertificationTree, ps: Seq<Path>, w: ST) -> bool { forall|i: int| 0 <= i < ps.len() ==> shown(t, #[trigger] ps[i], w) }
pub open spec fn witness_for(t: CertificationTree, e: HttpCertificationTreeEntry, url: Seq<char>, w: ST) -> bool {
    w is Labeled && w->Labeled_0 == s_prefix() && prunes(*w->Labeled_1, t.tree_spec()) && dg(w) == dg(root_tree(t)) && all_shown(t, to_show(e, url), *w->Labeled_1)
}
pub open spec fn is_wildcard(e: HttpCertificationTreeEntry) -> bool { (*cow_ref(&e.path)).0 is Wildcard }
/// One step of the merging: what the witness was is kept, it stays a pruning of the tree, and it now shows a path.
pub open spec fn grown(t: CertificationTree, p: Path, a: ST, b: ST) -> bool { prunes(a, b) && prunes(b, t.tree_spec()) && exists|w: ST| #[trigger] prunes(w, b) && shown(t, p, w) }
pub proof fn lemma_grown(t: CertificationTree, ps: Seq<Path>, p: Path, a: ST, b: ST)
    requires t.inv(), grown(t, p, a, b), all_shown(t, ps, a)
    ensures all_shown(t, ps.push(p), b)
{
    let w = choose|w: ST| #[trigger] prunes(w, b) && shown(t, p, w);
    lemma_shown_grows(t, p, w, b);
    assert forall|i: int| 0 <= i < ps.push(p).len() implies shown(t, #[trigger] ps.push(p)[i], b) by { if i < ps.len() { assert(shown(t, ps[i], a)); lemma_shown_grows(t, ps[i], a, b); } }
}
pub open spec fn pview(s: Seq<&Vec<Vec<u8>>>) -> Seq<Path> { s.map_values(|v: &Vec<Vec<u8>>| pv(v@)) }
pub broadcast proof fn lemma_pview(a: Seq<Vec<Vec<u8>>>, s: Seq<&Vec<Vec<u8>>>) requires #[trigger] refs(a, s) ensures pview(s) == plist(a) { assert(pview(s) =~= plist(a)); }
pub broadcast proof fn lemma_folded<'x, F: Fn(HashTree, &'x Vec<Vec<u8>>) -> HashTree>(t: CertificationTree, f: F, init: HashTree, s: Seq<&'x Vec<Vec<u8>>>, r: HashTree, tr: Seq<HashTree>, ps: Seq<Path>)
    requires #[trigger] folded(f, init, s, r, tr), t.inv(), prunes(tv(init.root), t.tree_spec()), #[trigger] all_shown(t, ps, tv(init.root)),
        forall|a: HashTree, x: &'x Vec<Vec<u8>>, b: HashTree| #[trigger] f.ensures((a, x), b) ==> grown(t, pv(x@), tv(a.root), tv(b.root))
    ensures all_shown(t, ps + pview(s), tv(r.root)), prunes(tv(r.root), t.tree_spec())
{
    lemma_fold_upto(t, f, init, s, r, tr, ps, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_fold_upto<'x, F: Fn(HashTree, &'x Vec<Vec<u8>>) -> HashTree>(t: CertificationTree, f: F, init: HashTree, s: Seq<&'x Vec<Vec<u8>>>, r: HashTree, tr: Seq<HashTree>, ps: Seq<Path>, n: int)
    requires folded(f, init, s, r, tr), t.inv(), prunes(tv(init.root), t.tree_spec()), all_shown(t, ps, tv(init.root)), 0 <= n <= s.len(),
        forall|a: HashTree, x: &'x Vec<Vec<u8>>, b: HashTree| #[trigger] f.ensures((a, x), b) ==> grown(t, pv(x@), tv(a.root), tv(b.root))
    ensures all_shown(t, ps + pview(s.take(n)), tv(tr[n].root)), prunes(tv(tr[n].root), t.tree_spec())
    decreases n
{
    if n == 0 { assert(ps + pview(s.take(0)) =~= ps); } else {
        lemma_fold_upto(t, f, init, s, r, tr, ps, n - 1);
        assert(fold_step(f, tr[n - 1], s, n - 1, tr[n - 1 + 1]));
        lemma_grown(t, ps + pview(s.take(n - 1)), pv(s[n - 1]@), tv(tr[n - 1].root), tv(tr[n].root));
        assert((ps + pview(s.take(n - 1))).push(pv(s[n - 1]@)) =~= ps + pview(s.take(n)));
    }
}
pub broadcast axiom fn ax_cow_of_str<'a>(u: &'a str, c: Cow<'a, str>) ensures #[trigger] into_gives::<&'a str, Cow<'a, str>>(u, c) ==> c@ == u@;
pub proof fn lemma_under_prefix(p: Path, c: ST)
    ensures subtree_spec(seq![s_prefix()] + p, ST::Labeled(s_prefix(), Box::new(c))) == subtree_spec(p, c)
{
    let w = ST::Labeled(s_prefix(), Box::new(c));
    let q = seq![s_prefix()] + p;
    assert(q.skip(1) =~= p); assert(q[0] == s_prefix());
    assert(flat(w) =~= seq![w]);
    lemma_rel_one(s_prefix(), w);
    assert(flat(w)[0] is Labeled && lab(flat(w)[0]) == s_prefix());
    assert(has_label(flat(w), s_prefix()));
}
pub proof fn lemma_entry_found(t: CertificationTree, e: HttpCertificationTreeEntry, url: Seq<char>, w: ST)
    requires t.inv(), witness_for(t, e, url, w), find_at(t, entry_path(e)) is Some
    ensures subtree_spec(seq![s_prefix()] + entry_path(e), w) == Find::Found(ST::Leaf(find_at(t, entry_path(e))->Some_0@))
{
    broadcast use group_nested;
    let c = *w->Labeled_1;
    let ps = to_show(e, url);
    lemma_under_prefix(entry_path(e), c);
    if is_wildcard(e) {
        assert(ps[1] == path_of(*cow_ref(&e.path)));
        lemma_at_prefix(t, path_of(*cow_ref(&e.path)), cert_path((*cow_ref(&e.certification)).0));
        lemma_shown_below(t, path_of(*cow_ref(&e.path)), cert_path((*cow_ref(&e.certification)).0), c);
    } else { assert(ps[0] == entry_path(e)); }
    lemma_shown(t, entry_path(e), c);
}
pub proof fn lemma_at_prefix<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path, s: Path)
    requires at(t, p + s) is Some ensures at(t, p) is Some decreases p.len()
{
    if p.len() > 0 { assert((p + s).skip(1) =~= p.skip(1) + s); assert((p + s)[0] == p[0]); lemma_at_prefix(child(t, p[0])->Some_0, p.skip(1), s); }
}
pub open spec fn no_leaf_above(t: CertificationTree, p: Path) -> bool { forall|q: Path| is_prefix(q, p) ==> !is_leaf(#[trigger] at(t, q)) }
/// The witness of a wildcard entry shows that the exact path of the request and every wildcard that would take precedence are absent, if they are.
pub proof fn lemma_nothing_closer(t: CertificationTree, e: HttpCertificationTreeEntry, url: Seq<char>, w: ST, p: Path)
    requires t.inv(), witness_for(t, e, url, w), is_wildcard(e), at(t, p) is None, no_leaf_above(t, p),
        cand(url_segs(path_text(*cow_ref(&e.path))), url_segs(url)),
        p == url_segs(url).push(s_exact()) || (p.len() > 0 && p.last() == s_wild() && cand(p.drop_last(), url_segs(url)) && rank(p.drop_last()) > rank(url_segs(path_text(*cow_ref(&e.path)))))
    ensures subtree_spec(seq![s_prefix()] + p, w) is Absent
{
    let c = *w->Labeled_1;
    let ps = to_show(e, url);
    let (q, r) = (url_segs(url), url_segs(path_text(*cow_ref(&e.path))));
    lemma_under_prefix(p, c);
    if p == q.push(s_exact()) { assert(ps[0] == p); } else {
        lemma_seg0(url); lemma_seg0(path_text(*cow_ref(&e.path)));
        assert(with_prefix(q.push(s_exact())) =~= with_prefix(q).push(s_exact()));
        assert(with_prefix(r.push(s_wild())) =~= with_prefix(r).push(s_wild()));
        lemma_bare(q, s_exact()); lemma_bare(r, s_wild());
        lemma_more_specific_set(q, r);
        let d = p.drop_last();
        assert(chain(q, r).contains(d));
        let i = choose|i: int| 0 <= i < chain(q, r).len() && chain(q, r)[i] == d;
        assert(d.push(s_wild()) =~= p);
        assert(add_wild(chain(q, r))[i] == p);
        assert(ps[i + 2] == p);
    }
    lemma_shown(t, p, c);
}
pub proof fn lemma_keep_all<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures forall|i: int| 0 <= i < keep(s, p).len() ==> p(#[trigger] keep(s, p)[i]) decreases s.len() { if s.len() > 0 { lemma_keep_all(s.drop_last(), p); let k = keep(s.drop_last(), p); assert forall|i: int| 0 <= i < keep(s, p).len() implies p(#[trigger] keep(s, p)[i]) by { if i < k.len() { assert(keep(s, p)[i] == k[i]); } } } }
pub open spec fn expr_hash(e: HttpCertificationTreeEntry) -> Seq<u8> { cert_path((*cow_ref(&e.certification)).0)[0] }
pub open spec fn certifies_skip(e: HttpCertificationTreeEntry) -> bool { (*cow_ref(&e.certification)).0 is Skip }
/// Entries do not stand in each other's way: the path of one is never a proper prefix of that of another, unless a URL segment
/// is the hash of an expression, or the hash of the skip expression is also the hash of another.
pub proof fn lemma_entries_apart(a: HttpCertificationTreeEntry, b: HttpCertificationTreeEntry)
    requires is_prefix(entry_path(a), entry_path(b)), entry_path(a) != entry_path(b)
    ensures url_segs(path_text(*cow_ref(&b.path))).contains(expr_hash(a)) || (certifies_skip(a) && !certifies_skip(b) && expr_hash(a) == expr_hash(b))
{
    let (p, q) = (entry_path(a), entry_path(b));
    let (s, t) = (url_segs(path_text(*cow_ref(&a.path))), url_segs(path_text(*cow_ref(&b.path))));
    let (c, d) = (cert_path((*cow_ref(&a.certification)).0), cert_path((*cow_ref(&b.certification)).0));
    lemma_prefix_at(p, q);
    let (n, m) = (s.len() as int, t.len() as int);
    assert(p[n + 1] == c[0] && c[0].len() == 32 && d[0].len() == 32);
    assert(p[n].len() == 3 && q[m].len() == 3);
    assert(forall|i: int| 0 <= i < t.len() ==> q[i] == t[i]);
    assert(forall|i: int| 0 <= i < d.len() ==> q[m + 1 + i] == #[trigger] d[i]);
    assert(forall|i: int| 0 <= i < c.len() ==> p[n + 1 + i] == #[trigger] c[i]);
    if n < m {
        assert(q[n + 1] == p[n + 1]);
        if n + 1 < m { assert(t[n + 1] == c[0]); } else { assert(q[m].len() == 32); assert(false); }
    } else if n == m {
        assert(p[n] == q[n] && p[n + 1] == q[n + 1]);
        assert(c[0] == d[0]);
        if c.len() == d.len() { assert(p =~= q); assert(false); }
    } else {
        assert(q[n] == p[n]);
        assert(d[n - m - 1].len() == 3);
        assert(false);
    }
}
pub proof fn lemma_prefix_at(p: Path, q: Path) requires is_prefix(p, q) ensures p.len() <= q.len(), forall|i: int| 0 <= i < p.len() ==> p[i] == q[i] decreases p.len()
{
    if p.len() > 0 { lemma_prefix_at(p.skip(1), q.skip(1)); assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(p[i] == p.skip(1)[i - 1] && q[i] == q.skip(1)[i - 1]); } } }
}
/// The segments of a URL are non-empty but for the last.
pub proof fn lemma_seg0(u: Seq<char>) ensures url_segs(u).len() > 1 ==> url_segs(u)[0] != s_dir()
{
    let k = keep(split_at(u, '/'), nonempty());
    lemma_keep_all(split_at(u, '/'), nonempty());
    if url_segs(u).len() > 1 { assert(k.len() > 0); assert(nonempty()(k[0])); vstd::utf8::encode_utf8_decode_utf8(k[0]); if enc(k[0]) =~= Seq::<u8>::empty() { assert(enc(Seq::<char>::empty()) =~= Seq::<u8>::empty()); vstd::utf8::encode_utf8_decode_utf8(Seq::<char>::empty()); assert(k[0] == Seq::<char>::empty()); } assert(url_segs(u)[0] == enc(k[0])); }
}
/// A deleted entry is in no witness.
pub proof fn lemma_gone(t: CertificationTree, p: Path, w: ST)
    requires t.inv(), at(t, p) is None, prunes(w, root_tree(t))
    ensures !(subtree_spec(seq![s_prefix()] + p, w) is Found)
{
    let q = seq![s_prefix()] + p;
    if w is Labeled { lemma_under_prefix(p, *w->Labeled_1); if subtree_spec(p, *w->Labeled_1) is Found { lemma_truth(t, p, *w->Labeled_1); } }
    else { assert(w is Pruned); assert(flat(w) =~= seq![w]); lemma_rel_one(q[0], w); assert(!has_label(flat(w), q[0])); }
}
// the contract of unit asset for this tree: what entry paths it has
pub open spec fn has_entry(t: CertificationTree, p: Path) -> bool { find_at(t, p) is Some }
pub open spec fn under(p: Path, q: Path) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p }
pub open spec fn apart(p: Path, q: Path) -> bool { !under(p, q) && !under(q, p) }
pub open spec fn empty_root() -> [u8; 32] { dg(ST::Labeled(s_prefix(), Box::new(ST::Empty))) }
pub broadcast proof fn lemma_prefix_under(p: Path, q: Path) ensures #[trigger] under(p, q) == #[trigger] is_prefix(p, q) decreases p.len()
{
    if p.len() > 0 && q.len() > 0 {
        lemma_prefix_under(p.skip(1), q.skip(1));
        if p.len() <= q.len() {
            assert(q.skip(1).take(p.len() - 1) =~= q.take(p.len() as int).skip(1));
            if p[0] == q[0] && p.skip(1) == q.take(p.len() as int).skip(1) {
                assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(p.skip(1)[i - 1] == p[i]); assert(q.take(p.len() as int).skip(1)[i - 1] == q[i]); } }
                assert(q.take(p.len() as int) =~= p);
            }
            if q.take(p.len() as int) == p { assert(q.take(p.len() as int)[0] == q[0]); }
        }
    } else if p.len() == 0 { assert(q.take(0) =~= p); }
}
/// An entry is a leaf: no other entry is below it.
pub proof fn lemma_leaves(t: CertificationTree, p: Path, q: Path) requires has_entry(t, p), has_entry(t, q), under(p, q) ensures p == q decreases p.len()
{
    if p.len() > 0 {
        assert(q[0] == q.take(p.len() as int)[0]);
        assert(q.skip(1).take(p.len() - 1) =~= q.take(p.len() as int).skip(1));
        lemma_leaves(child(t, p[0])->Some_0, p.skip(1), q.skip(1));
        assert(q.skip(1) == p.skip(1));
        assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(p.skip(1)[i - 1] == p[i]); assert(q.skip(1)[i - 1] == q[i]); } }
        assert(p =~= q);
    } else { assert(t is Leaf); if q.len() > 0 { assert(child(t, q[0]) is None); } assert(q =~= p); }
}
pub proof fn lemma_empty(t: CertificationTree) requires is_hollow(t) ensures forall|q: Path| !#[trigger] has_entry(t, q), forall|q: Path| q.len() > 0 ==> #[trigger] at(t, q) is None
{
    broadcast use group_nested;
    lemma_hollow(t);
}
/// The nodes of a map are smaller than the map.
pub proof fn lemma_smaller<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(n: NodeRef<K, NestedTree<K, V>>)
    ensures forall|i: int| 0 <= i < seq_of(n).len() ==> decreases_to!(n => (#[trigger] seq_of(n)[i]).1)
    decreases n
{
    match n { None => {}, Some(b) => { lemma_smaller((*b).left); lemma_smaller((*b).right);
        let l = seq_of((*b).left); let s = seq_of(n);
        assert forall|i: int| 0 <= i < s.len() implies decreases_to!(n => (#[trigger] s[i]).1) by {
            if i < l.len() { assert(s[i] == l[i]); assert(decreases_to!(n => (*b).left)); } else if i > l.len() { assert(s[i] == seq_of((*b).right)[i - l.len() - 1]); assert(decreases_to!(n => (*b).right)); }
        }
    } }
}
/// A tree without empty branches that has no entry is the empty tree.
pub proof fn lemma_no_entry<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>)
    requires t.inv(), tight(t), forall|q: Path| #[trigger] find_at(t, q) is None
    ensures is_hollow(t)
    decreases t
{
    broadcast use group_nested;
    match t {
        NestedTree::Leaf(_) => { assert(find_at(t, Seq::empty()) is Some); }
        NestedTree::Nested(m) => if m.root is Some {
            lemma_map_vals(t);
            lemma_as_map(m.entries());
            lemma_smaller(m.root);
            let k = m.entries()[0].0;
            assert(m.entries().len() > 0);
            assert(hask(m.entries(), k));
            let c = child(t, k)->Some_0;
            let i = idx(m.entries(), k);
            assert(c == m.entries()[i].1);
            assert(at(t, seq![k]) == Some(c)) by { assert(seq![k].skip(1) =~= Seq::empty()); assert(seq![k][0] == k); assert(at(c, seq![k].skip(1)) == Some(c)); }
            assert forall|q: Path| #[trigger] find_at(c, q) is None by { assert((seq![k] + q).skip(1) =~= q); assert(find_at(t, seq![k] + q) is None); }
            assert forall|q: Path| q.len() > 0 && (#[trigger] at(c, q)) is Some implies !is_hollow(at(c, q)->Some_0) by { assert((seq![k] + q).skip(1) =~= q); assert(at(t, seq![k] + q) == at(c, q)); }
            lemma_no_entry(c);
            assert(false);
        }
    }
}
pub proof fn lemma_nothing_left(t: CertificationTree)
    requires t.inv(), tight(t), forall|q: Path| !#[trigger] has_entry(t, q)
    ensures dg(root_tree(t)) == empty_root()
{
    broadcast use group_nested;
    assert forall|q: Path| #[trigger] find_at(t, q) is None by { assert(!has_entry(t, q)); }
    lemma_no_entry(t);
}
//@lemmaprops lemma_leaves C24 C25
//@lemmaprops lemma_nothing_left C25
//@lemmaprops lemma_no_entry C25
//@lemmaprops lemma_empty C25
//@lemmaprops lemma_smaller C25
//@lemmaprops lemma_prefix_under C24 C25
//@source rl packages/ic-representation-independent-hash/src/lib.rs
//@take rl Sha256Digest
//@take he HttpCertificationResult HttpCertificationError
//@take tr CertificationTree HttpCertificationTree impl:Default:HttpCertificationTree with_path_prefix HttpCertificationTree::new HttpCertificationTree::root_hash HttpCertificationTree::insert HttpCertificationTree::delete HttpCertificationTree::clear HttpCertificationTree::witness
//@fn HttpCertificationTree::Default::default C17
//@ret r
//@spec
    ensures r.tree.inv(), is_hollow(r.tree), tight(r.tree), forall|q: Path| !#[trigger] has_entry(r.tree, q)
//@entry
    broadcast use group_nested;
//@tail
    proof { lemma_hollow(r.tree); lemma_empty(r.tree); assert forall|q: Path| q.len() > 0 && (#[trigger] at(r.tree, q)) is Some implies !is_hollow(at(r.tree, q)->Some_0) by { assert(child(r.tree, q[0]) is None); } }
//@fn with_path_prefix C17 C18
//@ret r
//@spec
    ensures pv(r@) == with_prefix(pv(path@))
//@entry
    broadcast use {group_core, group_seg, ax_is_bytes_u8};
//@tail
    assert(pv(r@) =~= with_prefix(pv(path@)));
//@fn HttpCertificationTree::new C17
//@ret r
//@spec
    ensures r.tree == tree
//@fn HttpCertificationTree::root_hash C17 C25
//@ret r
//@spec
    requires self.tree.inv()
    ensures r == dg(root_tree(self.tree)), tight(self.tree) && (forall|q: Path| !#[trigger] has_entry(self.tree, q)) ==> r == empty_root()
//@tail
    proof { if tight(self.tree) && (forall|q: Path| !#[trigger] has_entry(self.tree, q)) { lemma_nothing_left(self.tree); } }
//@fn HttpCertificationTree::insert C17 C24 C25
//@spec
    requires old(self).tree.inv()
    ensures final(self).tree.inv(), find_at(final(self).tree, entry_path(*entry)) is Some, tight(old(self).tree) ==> tight(final(self).tree),
        forall|q: Path| #[trigger] has_entry(final(self).tree, q) == (q == entry_path(*entry) || (has_entry(old(self).tree, q) && apart(entry_path(*entry), q))),
        forall|q: Path| !is_prefix(entry_path(*entry), q) && !is_prefix(q, entry_path(*entry)) ==> #[trigger] find_at(final(self).tree, q) == find_at(old(self).tree, q)
//@entry
    broadcast use {group_core, lemma_pb_pv, lemma_prefix_under};
    proof { lemma_prefix_eq(entry_path(*entry), entry_path(*entry)); }
//@fn HttpCertificationTree::delete C17 C25
//@spec
    requires old(self).tree.inv()
    ensures final(self).tree.inv(), forall|q: Path| #[trigger] has_entry(final(self).tree, q) == (has_entry(old(self).tree, q) && !under(entry_path(*entry), q)), at(final(self).tree, entry_path(*entry)) is None, tight(old(self).tree) ==> tight(final(self).tree),
        forall|q: Path| !is_prefix(entry_path(*entry), q) ==> #[trigger] find_at(final(self).tree, q) == find_at(old(self).tree, q)
//@entry
    broadcast use {group_core, lemma_pb_pv, lemma_prefix_under};
//@fn HttpCertificationTree::clear C17 C25
//@spec
    ensures final(self).tree.inv(), is_hollow(final(self).tree), tight(final(self).tree), forall|q: Path| !#[trigger] has_entry(final(self).tree, q)
//@tail
    proof { lemma_empty(self.tree); }
//@fn HttpCertificationTree::witness C17 C24
//@ret r
//@subst `.iter()` => `.it()`
//@subst `|acc, path|` => `|acc: HashTree, path: &Vec<Vec<u8>>|`
//@spec
    requires self.tree.inv()
    ensures match r { Ok(w) => witness_for(self.tree, *entry, request_url@, tv(w.root)),
        Err(_) => is_wildcard(*entry) && url_segs(path_text(*cow_ref(&entry.path))).len() > url_segs(request_url@).len() }
//@entry
    broadcast use {group_core, group_nested, group_conv, lemma_pb_pv, ax_cow_of_str, lemma_pview, lemma_folded};
    proof { super::ax_obeys(); lemma_prunes_refl(self.tree.tree_spec()); }
//@after `let responding_tree_path = entry.path.to_tree_path();`
                assert(pv(responding_tree_path@).len() == responding_tree_path@.len() && pv(requested_tree_path@).len() == requested_tree_path@.len());
                assert(is_wildcard(*entry));
                assert(pv(requested_tree_path@) == url_segs(request_url@).push(s_exact()));
//@after `self.tree.witness(&requested_tree_path);`
                let ghost w1 = tv(witness.root);
//@after `merge_hash_trees(witness, self.tree.witness(&responding_tree_path));`
                let ghost w2 = tv(witness.root);
                let ghost two = seq![pv(requested_tree_path@), pv(responding_tree_path@)];
                proof { lemma_shown_grows(self.tree, two[0], w1, w2); assert(prunes(w1, w2)); assert(grown(self.tree, two[1], w1, w2)); lemma_grown(self.tree, seq![two[0]], two[1], w1, w2); assert(seq![two[0]].push(two[1]) =~= two); assert(all_shown(self.tree, two, w2)); }
//@closure 0
 -> (r: HashTree) requires prunes(tv(acc.root), self.tree.tree_spec()) ensures grown(self.tree, pv(path@), tv(acc.root), tv(r.root))
//@tail
    proof {
        if r is Ok {
            let w = *tv(r->Ok_0.root)->Labeled_1;
            assert(tv(r->Ok_0.root) == ST::Labeled(s_prefix(), Box::new(w)));
            assert(prunes(w, self.tree.tree_spec()));
            lemma_prunes_dg(w, self.tree.tree_spec());
            assert(dg(tv(r->Ok_0.root)) == dg(root_tree(self.tree)));
            if is_wildcard(*entry) { assert(all_shown(self.tree, to_show(*entry, request_url@), w)); }
            assert(all_shown(self.tree, to_show(*entry, request_url@), w));
        }
    }
//@lemmaprops lemma_shown_grows C17
//@lemmaprops lemma_shown_full C17
//@lemmaprops lemma_shown_below C17
//@lemmaprops lemma_truth C17
//@lemmaprops lemma_grown C17
//@lemmaprops lemma_folded C17
//@lemmaprops lemma_fold_upto C17
//@lemmaprops lemma_entry_found C17
//@lemmaprops lemma_nothing_closer C17
//@lemmaprops lemma_gone C17
//@lemmaprops lemma_entries_apart C17
//@lemmaprops lemma_child_rel C17
//@lemmaprops lemma_anti C17
//@lemmaprops lemma_under_prefix C17
//@lemmaprops lemma_at_prefix C17
