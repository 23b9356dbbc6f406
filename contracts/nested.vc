//@source nested packages/ic-certification/src/nested_rb_tree.rs
//@text
// ---------------------------------------------------------------- maps from paths
pub mod nest {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned, Label};
use super::tree::*;
use super::tree2::*;
use super::ops::*;
use super::wit::*;
use super::witness::*;
use std::fmt::Debug;
//@take nested NestedTreeKeyRequirements NestedTreeValueRequirements NestedTree impl:Default:NestedTree<K,V>
//@text
// The trait impl is split: its bodies are verified as inherent functions with the contract of the trait, and the
// trait impl itself (mutually recursive with the map's own impl, which the verifier's termination check on trait
// impls rejects) carries the same contract over the two functions axiomatised below.
impl<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements> AsHashTree for NestedTree<K, V> {
    uninterp spec fn inv(&self) -> bool;
    uninterp spec fn tree_spec(&self) -> ST;
    #[verifier::external_body]
    fn root_hash(&self) -> Hash { unimplemented!() }
    #[verifier::external_body]
    fn as_hash_tree(&self) -> HashTree { unimplemented!() }
}
/// Definition of inv and tree_spec (recursive through the map's values, hence stated as an axiom).
pub broadcast axiom fn ax_nested_inv<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>)
    ensures #[trigger] t.inv() == (match t { NestedTree::Leaf(v) => v.inv(), NestedTree::Nested(m) => m.rinv() });
pub broadcast axiom fn ax_nested_tree<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>)
    ensures #[trigger] t.tree_spec() == (match t { NestedTree::Leaf(v) => v.tree_spec(), NestedTree::Nested(m) => ht_of(m.root) });
pub broadcast group group_nested { ax_nested_inv, ax_nested_tree }

// assumed: a copied key has the same bytes
pub broadcast axiom fn ax_clone_bytes<K: AsRef<[u8]> + Clone>(a: K, b: K) requires #[trigger] call_ensures(K::clone, (&a,), b) ensures bytes(&a) == bytes(&b);
pub type Path = Seq<Seq<u8>>;
pub open spec fn pb<K: AsRef<[u8]>>(p: &[K]) -> Path { p@.map_values(|k: K| bytes(&k)) }
/// The child of an inner node under a key.
pub open spec fn child<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, k: Seq<u8>) -> Option<NestedTree<K, V>> {
    match t { NestedTree::Leaf(_) => None, NestedTree::Nested(m) => if m.map().dom().contains(k) { Some(m.map()[k]) } else { None } }
}
/// The subtree at a path.
pub open spec fn at<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path) -> Option<NestedTree<K, V>> decreases p.len() {
    if p.len() == 0 { Some(t) } else { match child(t, p[0]) { None => None, Some(c) => at(c, p.skip(1)) } }
}
/// The value at a path: what a map from paths would answer.
pub open spec fn find_at<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path) -> Option<V> {
    match at(t, p) { Some(NestedTree::Leaf(v)) => Some(v), _ => None }
}
pub proof fn lemma_pb<K: AsRef<[u8]>>(p: &[K])
    requires p@.len() > 0
    ensures pb(p).len() == p@.len(), pb(p)[0] == bytes(&p@[0]), forall|q: &[K]| q@ == p@.subrange(1, p@.len() as int) ==> #[trigger] pb(q) == pb(p).skip(1)
{
    assert forall|q: &[K]| q@ == p@.subrange(1, p@.len() as int) implies #[trigger] pb(q) == pb(p).skip(1) by { assert(pb(q) =~= pb(p).skip(1)); }
}
pub proof fn lemma_vals<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>)
    requires vals_ok(n)
    ensures forall|i: int| 0 <= i < seq_of(n).len() ==> (#[trigger] seq_of(n)[i]).1.inv()
    decreases n
{
    match n { None => {}, Some(b) => {
        lemma_vals((*b).left); lemma_vals((*b).right);
        let l = seq_of((*b).left); let r = seq_of((*b).right);
        let s = seq_of(n);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1.inv() by {
            if i < l.len() { assert(s[i] == l[i]); } else if i > l.len() { assert(s[i] == r[i - l.len() - 1]); }
        }
    } }
}
/// Every value of a map in order is in order.
pub proof fn lemma_map_vals<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>)
    requires t.inv()
    ensures forall|k: Seq<u8>| #[trigger] child(t, k) is Some ==> child(t, k)->Some_0.inv()
{
    broadcast use group_nested;
    match t { NestedTree::Leaf(_) => {}, NestedTree::Nested(m) => {
        lemma_vals(m.root);
        lemma_as_map(m.entries());
        assert forall|k: Seq<u8>| #[trigger] child(t, k) is Some implies child(t, k)->Some_0.inv() by {
            let i = idx(m.entries(), k);
            assert(m.entries()[i].0 == k);
        }
    } }
}
//@itemsubst impl:AsHashTree:NestedTree<K,V> `AsHashTree for NestedTree` => `NestedTree`
//@take nested impl:AsHashTree:NestedTree<K,V>
//@text
pub open spec fn is_prefix(p: Path, q: Path) -> bool decreases p.len() {
    p.len() == 0 || (q.len() > 0 && p[0] == q[0] && is_prefix(p.skip(1), q.skip(1)))
}
/// Mutual prefixes are equal.
pub proof fn lemma_prefix_eq(p: Path, q: Path)
    ensures p == q ==> is_prefix(p, q), is_prefix(p, q) ==> p.len() <= q.len(), is_prefix(p, q) && p.len() == q.len() ==> p == q
    decreases p.len()
{
    if p.len() > 0 && q.len() > 0 {
        lemma_prefix_eq(p.skip(1), q.skip(1));
        if p.skip(1) == q.skip(1) && p[0] == q[0] && p.len() == q.len() {
            assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(p.skip(1)[i - 1] == p[i]); assert(q.skip(1)[i - 1] == q[i]); } }
            assert(p =~= q);
        }
    } else if p.len() == q.len() { assert(p =~= q); }
}
pub open spec fn is_hollow<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>) -> bool {
    match t { NestedTree::Leaf(_) => false, NestedTree::Nested(m) => m.root is None }
}
/// What one insertion does to the subtree at one path.
pub open spec fn ins_at<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, v: V, q: Path) -> bool {
    if is_prefix(p, q) { at(b, q) == (if q.len() == p.len() { Some(NestedTree::Leaf(v)) } else { None }) }
    else if is_prefix(q, p) { at(b, q) is Some && at(b, q)->Some_0 is Nested && !is_hollow(at(b, q)->Some_0) }
    else { at(b, q) == at(a, q) }
}
pub open spec fn inserted<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, v: V) -> bool {
    forall|q: Path| #[trigger] ins_at(a, b, p, v, q)
}
/// What one deletion does to the subtree at one path: the path and what lies below it is gone, branches it has emptied
/// are gone, and everything else is as before.
pub open spec fn del_at<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, q: Path) -> bool {
    if is_prefix(p, q) { if q.len() == 0 { at(b, q) is Some && is_hollow(at(b, q)->Some_0) } else { at(b, q) is None } }
    else if is_prefix(q, p) {
        match at(a, q) {
            None => at(b, q) is None,
            Some(NestedTree::Leaf(v)) => at(b, q) == at(a, q),
            Some(NestedTree::Nested(_)) => if q.len() == 0 { at(b, q) is Some && at(b, q)->Some_0 is Nested } else { at(b, q) is None || (at(b, q)->Some_0 is Nested && !is_hollow(at(b, q)->Some_0)) },
        }
    }
    else { at(b, q) == at(a, q) }
}
pub open spec fn deleted<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path) -> bool {
    forall|q: Path| #[trigger] del_at(a, b, p, q)
}
/// No branch below the root is empty.
pub open spec fn tight<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>) -> bool {
    forall|q: Path| q.len() > 0 && (#[trigger] at(t, q)) is Some ==> !is_hollow(at(t, q)->Some_0)
}
/// The effect on one level, from the effect on the child.
pub proof fn lemma_ins_step<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, v: V)
    requires a.inv(), b.inv(), p.len() > 0, b is Nested, child(a, p[0]) is Some, child(b, p[0]) is Some,
        forall|k: Seq<u8>| k != p[0] ==> #[trigger] child(b, k) == child(a, k),
        inserted(child(a, p[0])->Some_0, child(b, p[0])->Some_0, p.skip(1), v)
    ensures inserted(a, b, p, v)
{
    broadcast use group_nested;
    match b { NestedTree::Nested(m) => { lemma_as_map(m.entries()); assert(hask(m.entries(), p[0])); } _ => {} }
    assert forall|q: Path| #[trigger] ins_at(a, b, p, v, q) by {
        if q.len() > 0 {
            if q[0] == p[0] { assert(ins_at(child(a, p[0])->Some_0, child(b, p[0])->Some_0, p.skip(1), v, q.skip(1))); }
            else { assert(child(b, q[0]) == child(a, q[0])); }
        }
    }
}
/// Putting an empty node, or clearing a leaf, on the way to a path that will be inserted changes nothing else.
pub proof fn lemma_ins_same<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, a2: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, v: V)
    requires p.len() > 0, inserted(a2, b, p, v),
        forall|k: Seq<u8>| k != p[0] ==> #[trigger] child(a2, k) == child(a, k),
        child(a, p[0]) is None, child(a2, p[0]) is Some ==> is_hollow(child(a2, p[0])->Some_0)
    ensures inserted(a, b, p, v)
{
    assert forall|q: Path| #[trigger] ins_at(a, b, p, v, q) by {
        assert(ins_at(a2, b, p, v, q));
        if q.len() > 0 {
            if q[0] == p[0] {
                if q.len() == 1 { assert(is_prefix(q.skip(1), p.skip(1))); }
                else { assert(at(a2, q) is None) by { if child(a2, p[0]) is Some { reveal_with_fuel(at, 3); let c = child(a2, p[0])->Some_0; lemma_hollow(c); assert(child(c, q.skip(1)[0]) is None); } } }
            } else { assert(child(a2, q[0]) == child(a, q[0])); }
        }
    }
}
pub proof fn lemma_hollow<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(c: NestedTree<K, V>)
    requires is_hollow(c)
    ensures forall|k: Seq<u8>| #[trigger] child(c, k) is None
{ }
/// The effect of a deletion on one level, from its effect on the child.
pub proof fn lemma_del_step<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, c: NestedTree<K, V>)
    requires p.len() > 0, a is Nested, b is Nested,
        forall|k: Seq<u8>| k != p[0] ==> #[trigger] child(b, k) == child(a, k),
        child(a, p[0]) is None ==> child(b, p[0]) is None,
        child(a, p[0]) is Some ==> deleted(child(a, p[0])->Some_0, c, p.skip(1)) && child(b, p[0]) == (if is_hollow(c) { None } else { Some(c) })
    ensures deleted(a, b, p)
{
    assert forall|q: Path| #[trigger] del_at(a, b, p, q) by {
        if q.len() > 0 {
            if q[0] == p[0] {
                if child(a, p[0]) is Some {
                    let c0 = child(a, p[0])->Some_0;
                    assert(del_at(c0, c, p.skip(1), q.skip(1)));
                    if is_hollow(c) { if q.len() > 1 { reveal_with_fuel(at, 3); lemma_hollow(c); assert(child(c, q.skip(1)[0]) is None); assert(at(c, q.skip(1)) is None); } }
                }
            } else { assert(child(b, q[0]) == child(a, q[0])); }
        }
    }
}
pub proof fn lemma_cleared<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path)
    requires is_hollow(b), p.len() == 0
    ensures deleted(a, b, p)
{
    lemma_hollow(b);
    assert forall|q: Path| #[trigger] del_at(a, b, p, q) by { if q.len() > 0 { assert(child(b, q[0]) is None); } }
}
/// As answers of a map from paths.
pub proof fn lemma_inserted_find<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path, v: V)
    requires inserted(a, b, p, v)
    ensures find_at(b, p) == Some(v), forall|q: Path| #[trigger] find_at(b, q) == (if q == p { Some(v) } else if is_prefix(p, q) || is_prefix(q, p) { None } else { find_at(a, q) }),
        tight(a) ==> tight(b)
{
    assert(ins_at(a, b, p, v, p)); lemma_prefix_eq(p, p);
    assert forall|q: Path| #[trigger] find_at(b, q) == (if q == p { Some(v) } else if is_prefix(p, q) || is_prefix(q, p) { None } else { find_at(a, q) }) by {
        assert(ins_at(a, b, p, v, q)); lemma_prefix_eq(p, q);
    }
    if tight(a) { assert forall|q: Path| q.len() > 0 && (#[trigger] at(b, q)) is Some implies !is_hollow(at(b, q)->Some_0) by { assert(ins_at(a, b, p, v, q)); } }
}
pub proof fn lemma_deleted_find<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(a: NestedTree<K, V>, b: NestedTree<K, V>, p: Path)
    requires deleted(a, b, p)
    ensures forall|q: Path| #[trigger] find_at(b, q) == (if is_prefix(p, q) { None } else { find_at(a, q) }),
        tight(a) ==> tight(b), p.len() > 0 ==> at(b, p) is None
{
    assert(del_at(a, b, p, p)); lemma_prefix_eq(p, p);
    assert forall|q: Path| #[trigger] find_at(b, q) == (if is_prefix(p, q) { None } else { find_at(a, q) }) by {
        assert(del_at(a, b, p, q)); lemma_prefix_eq(p, q);
    }
    if tight(a) { assert forall|q: Path| q.len() > 0 && (#[trigger] at(b, q)) is Some implies !is_hollow(at(b, q)->Some_0) by { assert(del_at(a, b, p, q)); assert(at(a, q) is Some); } }
}
/// What a witness has to show about a path: each step's child with what lies below, or that there is no child.
pub open spec fn shown<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path, w: ST) -> bool decreases p.len() {
    if p.len() == 0 { w == t.tree_spec() } else {
        match t {
            NestedTree::Leaf(v) => w == v.tree_spec(),
            NestedTree::Nested(_) => match child(t, p[0]) {
                None => find(p[0], flat(w)) is Absent,
                Some(c) => find(p[0], flat(w)) is Found && shown(c, p.skip(1), find(p[0], flat(w))->Found_0),
            },
        }
    }
}
pub open spec fn is_leaf<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: Option<NestedTree<K, V>>) -> bool { t is Some && t->Some_0 is Leaf }
/// In terms of lookups: content at the path, or absence, is proved.
pub proof fn lemma_shown<K: NestedTreeKeyRequirements, V: NestedTreeValueRequirements>(t: NestedTree<K, V>, p: Path, w: ST)
    requires shown(t, p, w), t.inv()
    ensures at(t, p) is Some ==> subtree_spec(p, w) == Find::Found(at(t, p)->Some_0.tree_spec()),
        at(t, p) is None && (forall|q: Path| is_prefix(q, p) ==> !is_leaf(#[trigger] at(t, q))) ==> subtree_spec(p, w) is Absent
    decreases p.len()
{
    broadcast use group_nested;
    lemma_map_vals(t);
    if p.len() > 0 {
        if at(t, p) is None && (forall|q: Path| is_prefix(q, p) ==> !is_leaf(#[trigger] at(t, q))) {
            assert(is_prefix(Seq::<Seq<u8>>::empty(), p));
            assert(!is_leaf(at(t, Seq::<Seq<u8>>::empty())));
            if child(t, p[0]) is Some {
                let c = child(t, p[0])->Some_0;
                assert forall|q: Path| is_prefix(q, p.skip(1)) implies !is_leaf(#[trigger] at(c, q)) by {
                    let q2 = seq![p[0]] + q;
                    assert(q2.skip(1) =~= q);
                    assert(is_prefix(q2, p));
                    assert(at(t, q2) == at(c, q));
                }
            }
        }
        if child(t, p[0]) is Some && t is Nested { lemma_shown(child(t, p[0])->Some_0, p.skip(1), find(p[0], flat(w))->Found_0); }
    }
}
pub proof fn lemma_told_find<K: AsRef<[u8]>, V: AsHashTree>(q: Seq<u8>, w: ST, n: NodeRef<K, V>)
    requires told(q, w, n)
    ensures hask(seq_of(n), q) ==> find(q, flat(w)) is Found && rel(q, flat(w)) == Rel::Found(find(q, flat(w))->Found_0), !hask(seq_of(n), q) ==> find(q, flat(w)) is Absent
{ }
//@take nested NestedTree::get NestedTree::contains_leaf NestedTree::contains_path NestedTree::clear NestedTree::insert NestedTree::delete NestedTree::witness
//@derive NestedTree
//@text
} // mod nest
//@fn NestedTree::Default::default C06
//@ret r
//@spec
    ensures r is Nested, r->Nested_0.root is None
//@fn NestedTree::AsHashTree::root_hash C06 C17
//@ret r
//@spec
    requires self.inv()
    ensures r == dg(self.tree_spec())
//@entry
    broadcast use group_nested;
//@fn NestedTree::AsHashTree::as_hash_tree C06
//@ret r
//@spec
    requires self.inv()
    ensures tv(r.root) == self.tree_spec()
//@entry
    broadcast use group_nested;
//@fn NestedTree::get C06
//@ret r
//@spec
    requires self.inv()
    ensures match r { Some(v) => find_at(*self, pb(path)) == Some(*v), None => find_at(*self, pb(path)) is None }
    decreases path@.len()
//@entry
    broadcast use group_nested;
    proof { lemma_map_vals(*self); if path@.len() > 0 { lemma_pb(path); } }
//@closure 0
-> (r: Option<&V>) requires child.inv() ensures match r { Some(v) => find_at(*child, pb(path).skip(1)) == Some(*v), None => find_at(*child, pb(path).skip(1)) is None }
//@fn NestedTree::contains_leaf C06
//@ret r
//@spec
    requires self.inv()
    ensures r == (find_at(*self, pb(path)) is Some)
    decreases path@.len()
//@entry
    broadcast use group_nested;
    proof { lemma_map_vals(*self); if path@.len() > 0 { lemma_pb(path); } }
//@closure 0
-> (r: bool) requires child.inv() ensures r == (find_at(*child, pb(path).skip(1)) is Some)
//@fn NestedTree::contains_path C06
//@ret r
//@spec
    requires self.inv()
    ensures r == (at(*self, pb(path)) is Some)
    decreases path@.len()
//@entry
    broadcast use group_nested;
    proof { lemma_map_vals(*self); if path@.len() > 0 { lemma_pb(path); } }
//@closure 0
-> (r: bool) requires child.inv() ensures r == (at(*child, pb(path).skip(1)) is Some)
//@fn NestedTree::clear C06 C17
//@spec
    ensures final(self).inv(), is_hollow(*final(self))
//@entry
    broadcast use group_nested;
//@fn NestedTree::insert C06 C17
//@spec
    requires old(self).inv(), value.inv()
    ensures final(self).inv(), inserted(*old(self), *final(self), pb(path), value),
        find_at(*final(self), pb(path)) == Some(value), tight(*old(self)) ==> tight(*final(self)),
        forall|q: Path| #[trigger] find_at(*final(self), q) == (if q == pb(path) { Some(value) } else if is_prefix(pb(path), q) || is_prefix(q, pb(path)) { None } else { find_at(*old(self), q) })
    decreases path@.len(), (match *old(self) { NestedTree::Leaf(_) => 2int, _ => if path@.len() > 0 && child(*old(self), bytes(&path@[0])) is None { 1 } else { 0 } })
//@entry
    broadcast use group_core, group_nested, ax_clone_bytes;
    let ghost a0 = *self;
    let ghost v0 = value;
    proof { lemma_map_vals(*self); if path@.len() > 0 { lemma_pb(path); } }
//@after `self.clear();`
                    let ghost a1 = *self;
//@after `self.insert(path, value);`
                    proof { lemma_ins_same(a0, a1, *self, pb(path), v0); }
//@after `tree.modify(key.as_ref(), |child| child.insert(&path[1..], value));`
                        proof { lemma_ins_step(a0, *self, pb(path), v0); }
//@after `tree.insert(key.clone(), NestedTree::default());`
                        let ghost a1 = *self;
                        proof { assert(a1 is Nested); assert(a1->Nested_0.rinv()); assert(a0->Nested_0.map().dom().contains(pb(path)[0]) == false); assert(a1->Nested_0.map().dom().contains(pb(path)[0])); assert(child(a1, pb(path)[0]) is Some);
                        assert forall|k: Seq<u8>| k != pb(path)[0] implies #[trigger] child(a1, k) == child(a0, k) by {} }
//@after `self.insert(path, value);`##1
                        proof { lemma_ins_same(a0, a1, *self, pb(path), v0); }
//@closure 0
requires old(child).inv() ensures final(child).inv(), inserted(*old(child), *final(child), pb(path).skip(1), value)
//@tail
    proof { 
        if path@.len() == 0 { assert forall|q: Path| #[trigger] ins_at(a0, *self, pb(path), v0, q) by { } }
        lemma_inserted_find(a0, *self, pb(path), v0); }
//@fn NestedTree::delete C06 C17
//@spec
    requires old(self).inv()
    ensures final(self).inv(), deleted(*old(self), *final(self), pb(path)),
        path@.len() > 0 ==> at(*final(self), pb(path)) is None, tight(*old(self)) ==> tight(*final(self)),
        forall|q: Path| #[trigger] find_at(*final(self), q) == (if is_prefix(pb(path), q) { None } else { find_at(*old(self), q) })
    decreases path@.len()
//@entry
    broadcast use group_core, group_nested;
    let ghost a0 = *self;
    let ghost mut g1 = *self;
    proof { lemma_map_vals(*self); if path@.len() > 0 { lemma_pb(path); } }
//@closure 0
requires old(child).inv() ensures final(child).inv(), deleted(*old(child), *final(child), pb(path).skip(1))
//@after `tree.modify(key.as_ref(), |child| child.delete(&path[1..]));`
                    proof { g1 = NestedTree::Nested(*tree); lemma_map_vals(g1); }
//@tail
    proof {
        if path@.len() == 0 { lemma_cleared(a0, *self, pb(path)); }
        else if a0 is Nested {
            let k = pb(path)[0];
            let c = if child(a0, k) is Some { child(g1, k)->Some_0 } else { a0 };
            lemma_del_step(a0, *self, pb(path), c);
        } else { assert forall|q: Path| #[trigger] del_at(a0, *self, pb(path), q) by { } }
        lemma_deleted_find(a0, *self, pb(path));
    }
//@fn NestedTree::witness C06 C17
//@ret r
//@spec
    requires self.inv()
    ensures prunes(tv(r.root), self.tree_spec()), dg(tv(r.root)) == dg(self.tree_spec()), shown(*self, pb(path), tv(r.root)),
        at(*self, pb(path)) is Some ==> subtree_spec(pb(path), tv(r.root)) == Find::Found(at(*self, pb(path))->Some_0.tree_spec()),
        at(*self, pb(path)) is None && (forall|q: Path| is_prefix(q, pb(path)) ==> !is_leaf(#[trigger] at(*self, q))) ==> subtree_spec(pb(path), tv(r.root)) is Absent
    decreases path@.len()
//@entry
    broadcast use group_core, group_nested;
    proof { lemma_map_vals(*self); if path@.len() > 0 { lemma_pb(path); } lemma_prunes_refl(self.tree_spec()); }
//@closure 0
-> (t: HashTree) requires tree.inv() ensures prunes(tv(t.root), tree.tree_spec()), shown(*tree, pb(path).skip(1), tv(t.root))
//@tail
    proof {
        if path@.len() > 0 && *self is Nested {
            let m = self->Nested_0;
            lemma_as_map(m.entries());
            lemma_told_find(pb(path)[0], tv(r.root), m.root);
            if hask(m.entries(), pb(path)[0]) { let i = idx(m.entries(), pb(path)[0]); assert(m.entries()[i].0 == pb(path)[0]); assert(m.entries()[i].1 == m.map()[pb(path)[0]]); }
        }
        lemma_shown(*self, pb(path), tv(r.root));
    }
