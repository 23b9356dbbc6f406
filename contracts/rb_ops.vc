//@text
pub mod ops {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned};
use super::tree::*;
use super::tree2::*;

pub assume_specification<T>[ <[T] as AsRef<[T]>>::as_ref ](a: &[T]) -> (r: &[T]) ensures r@ == a@;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T>[ std::mem::drop ](x: T) where T: std::marker::Destruct;
// assumed: the comparison operators on byte slices agree with their order
#[verifier::external_body]
pub fn slice_lt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == lt(a@, b@) { a < b }
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }

/// What a callback that updates a value in place has to accept and keep.
#[verifier::prophetic]
pub open spec fn mod_ok<V: AsHashTree, F: FnOnce(&mut V)>(f: F) -> bool {
    &&& forall|m: &mut V| (*m).inv() ==> #[trigger] f.requires((m,))
    &&& forall|m: &mut V| (*m).inv() && #[trigger] f.ensures((m,), ()) ==> (*final(m)).inv()
}
#[verifier::prophetic]
pub open spec fn updated<V, F: FnOnce(&mut V)>(f: F, a: V, b: V) -> bool { exists|m: &mut V| *m == a && *final(m) == b && #[trigger] f.ensures((m,), ()) }
/// The entries before and after an update: the same keys, and only the entry with the key changes, as the callback says.
#[verifier::prophetic]
pub open spec fn modified<V, F: FnOnce(&mut V)>(a: Seq<KV<V>>, b: Seq<KV<V>>, k: Seq<u8>, f: F) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && (a[i].0 != k ==> b[i].1 == a[i].1) && (a[i].0 == k ==> updated(f, a[i].1, b[i].1))
}
/// What a modification of a map does, in terms of the map.
#[verifier::prophetic]
pub open spec fn modified_map<V, F: FnOnce(&mut V)>(x: Seq<KV<V>>, y: Seq<KV<V>>, k: Seq<u8>, f: F) -> bool {
    &&& forall|j: Seq<u8>| #![trigger as_map(y).dom().contains(j)] as_map(y).dom().contains(j) == as_map(x).dom().contains(j)
    &&& forall|j: Seq<u8>| j != k && as_map(x).dom().contains(j) ==> #[trigger] as_map(y)[j] == as_map(x)[j]
    &&& as_map(x).dom().contains(k) ==> updated(f, as_map(x)[k], as_map(y)[k])
}
pub proof fn lemma_modified_map<V, F: FnOnce(&mut V)>(x: Seq<KV<V>>, y: Seq<KV<V>>, k: Seq<u8>, f: F)
    requires sorted(x), sorted(y), modified(x, y, k, f)
    ensures modified_map(x, y, k, f)
{
    lemma_as_map(x); lemma_as_map(y);
    assert forall|j: Seq<u8>| #![trigger as_map(y).dom().contains(j)] as_map(y).dom().contains(j) == as_map(x).dom().contains(j) && (j != k && as_map(x).dom().contains(j) ==> as_map(y)[j] == as_map(x)[j]) by {
        if hask(x, j) { let i = idx(x, j); assert(x[i].0 == j); assert(y[i].0 == j); assert(hask(y, j)); }
        if hask(y, j) { let i = idx(y, j); assert(y[i].0 == j); assert(x[i].0 == j); assert(hask(x, j)); }
    }
    assert forall|j: Seq<u8>| j != k && as_map(x).dom().contains(j) implies #[trigger] as_map(y)[j] == as_map(x)[j] by {
        assert(hask(x, j)); let i = idx(x, j); assert(x[i].0 == j); assert(y[i].0 == j);
    }
    if as_map(x).dom().contains(k) { assert(hask(x, k)); let i = idx(x, k); assert(x[i].0 == k); assert(y[i].0 == k); assert(hask(y, k)); assert(as_map(x)[k] == x[i].1); assert(as_map(y)[k] == y[i].1); }
}
pub proof fn lemma_modified<K: AsRef<[u8]>, V, F: FnOnce(&mut V)>(o: Node<K, V>, n: Node<K, V>, k: Seq<u8>, f: F)
    requires sorted(nseq(o)), o.key == n.key,
        ({ ||| bytes(&o.key) == k && updated(f, o.value, n.value) && seq_of(o.left) == seq_of(n.left) && seq_of(o.right) == seq_of(n.right)
           ||| lt(k, bytes(&o.key)) && o.value == n.value && modified(seq_of(o.left), seq_of(n.left), k, f) && seq_of(o.right) == seq_of(n.right)
           ||| lt(bytes(&o.key), k) && o.value == n.value && seq_of(o.left) == seq_of(n.left) && modified(seq_of(o.right), seq_of(n.right), k, f) }),
    ensures modified(nseq(o), nseq(n), k, f)
{
    broadcast use group_lex;
    let x = (bytes(&o.key), o.value);
    let a = seq_of(o.left); let b = seq_of(o.right);
    let a2 = seq_of(n.left); let b2 = seq_of(n.right);
    let s = nseq(o); let t = nseq(n);
    lemma_sorted_parts(a, x, b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]).0 == s[i].0 && (s[i].0 != k ==> t[i].1 == s[i].1) && (s[i].0 == k ==> updated(f, s[i].1, t[i].1)) by {
        if i < a.len() { assert(s[i] == a[i]); assert(t[i] == a2[i]); assert(lt(a[i].0, x.0)); }
        else if i == a.len() { assert(s[i] == x); }
        else { let j = i - a.len() - 1; assert(s[i] == b[j]); assert(t[i] == b2[j]); assert(lt(x.0, b[j].0)); }
    }
}
/// The leftmost node, and the tree with it replaced.
pub open spec fn nmin<K, V>(n: Node<K, V>) -> Node<K, V> decreases n { match n.left { None => n, Some(b) => nmin(*b) } }
pub open spec fn set_min<K, V>(n: Node<K, V>, m: Node<K, V>) -> Node<K, V> decreases n {
    match n.left { None => m, Some(b) => Node { left: Some(Box::new(set_min(*b, m))), ..n } }
}
pub proof fn lemma_set_min<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>, k: K, v: V)
    requires v.inv(), nvals_ok(n), nhashed(n), nbal(n), nllrb(n)
    ensures ({
        let r = set_min(n, Node { key: k, value: v, ..nmin(n) });
        &&& nvals_ok(r) && nhashed_spine(r) && nbal(r) && nllrb(r) && nbh(r) == nbh(n) && r.color == n.color && red(r.left) == red(n.left)
        &&& nseq(n).len() > 0 && nseq(n)[0] == (bytes(&nmin(n).key), nmin(n).value)
        &&& nseq(r) == seq![(bytes(&k), v)] + nseq(n).skip(1)
        &&& nmin(n).value.inv()
    })
    decreases n
{
    let m = Node { key: k, value: v, ..nmin(n) };
    let r = set_min(n, m);
    match n.left {
        None => {
            assert(seq_of(n.left) =~= Seq::empty());
            assert(nseq(n) =~= seq![(bytes(&n.key), n.value)] + seq_of(n.right));
            assert(nseq(r) =~= seq![(bytes(&k), v)] + seq_of(n.right));
            assert(nseq(n).skip(1) =~= seq_of(n.right));
        }
        Some(b) => {
            lemma_set_min(*b, k, v);
            let rb = set_min(*b, m);
            assert(seq_of(n.left) == nseq(*b));
            assert(r.left == Some(Box::new(rb)));
            assert(seq_of(r.left) == nseq(rb));
            assert(nseq(r) =~= seq![(bytes(&k), v)] + nseq(n).skip(1));
        }
    }
}
pub open spec fn rs<K: AsRef<[u8]>, V>(n: Option<&Box<Node<K, V>>>) -> Seq<KV<V>> { match n { None => Seq::empty(), Some(b) => nseq(**b) } }
pub proof fn lemma_del_absent_if<V>(s: Seq<KV<V>>, k: Seq<u8>) ensures !hask(s, k) ==> del(s, k) == s { if !hask(s, k) { lemma_del_absent(s, k); } }
pub proof fn lemma_bh_nonneg<K, V>(n: NodeRef<K, V>)
    ensures bh(n) >= 0, bh(n) == 0 && n is Some ==> red(n)
    decreases n
{ match n { None => {}, Some(b) => { lemma_bh_nonneg((*b).left); } } }
pub proof fn lemma_has_parts<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>, k: Seq<u8>)
    requires sorted(a + seq![x] + b)
    ensures lt(k, x.0) ==> hask(a + seq![x] + b, k) == hask(a, k), lt(x.0, k) ==> hask(a + seq![x] + b, k) == hask(b, k), x.0 == k ==> hask(a + seq![x] + b, k),
        sorted(a), sorted(b)
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    lemma_sorted_parts(a, x, b);
    assert(forall|i: int| 0 <= i < a.len() ==> f[i] == #[trigger] a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> f[i + a.len() + 1] == #[trigger] b[i]);
    assert(f[a.len() as int] == x);
    if hask(f, k) {
        let i = idx(f, k);
        assert(f[i].0 == k);
        if i < a.len() { assert(a[i].0 == k); assert(lt(a[i].0, x.0)); } else if i > a.len() { let j = i - a.len() - 1; assert(b[j].0 == k); assert(lt(x.0, b[j].0)); }
    }
    if hask(a, k) { let i = idx(a, k); assert(f[i].0 == k); assert(lt(a[i].0, x.0)); }
    if hask(b, k) { let i = idx(b, k); assert(f[i + a.len() + 1].0 == k); assert(lt(x.0, b[i].0)); }
}
pub proof fn lemma_parts<K: AsRef<[u8]>, V>(n: Node<K, V>, k: Seq<u8>)
    requires sorted(nseq(n)), nbal(n)
    ensures ({
        let a = seq_of(n.left); let x = (bytes(&n.key), n.value); let b = seq_of(n.right);
        &&& sorted(a) && sorted(b)
        &&& lt(k, x.0) ==> hask(nseq(n), k) == hask(a, k) && del(nseq(n), k) == cat(del(a, k), x, b)
        &&& lt(x.0, k) ==> hask(nseq(n), k) == hask(b, k) && del(nseq(n), k) == cat(a, x, del(b, k))
        &&& x.0 == k ==> hask(nseq(n), k) && del(nseq(n), k) == a + b
        &&& nseq(n).len() == a.len() + b.len() + 1
        &&& hask(a, k) ==> n.left is Some
        &&& hask(b, k) ==> n.right is Some
        &&& bh(n.left) >= 0 && (bh(n.left) == 0 && n.left is Some ==> red(n.left))
        &&& bh(n.right) >= 0 && (bh(n.right) == 0 && n.right is Some ==> red(n.right))
    })
{
    let a = seq_of(n.left); let x = (bytes(&n.key), n.value); let b = seq_of(n.right);
    lemma_has_parts(a, x, b, k);
    lemma_del_parts(a, x, b, k);
    lemma_bh_nonneg(n.left);
    lemma_bh_nonneg(n.right);
    if hask(a, k) { assert(a.len() > 0); }
    if hask(b, k) { assert(b.len() > 0); }
}
pub proof fn lemma_child_order<K: AsRef<[u8]>, V>(n: Node<K, V>)
    ensures sorted(nseq(n)) && n.left is Some ==> lt(bytes(&(*n.left->Some_0).key), bytes(&n.key)), sorted(nseq(n)) && n.right is Some ==> lt(bytes(&n.key), bytes(&(*n.right->Some_0).key))
{
    if sorted(nseq(n)) {
        lemma_sorted_parts(seq_of(n.left), (bytes(&n.key), n.value), seq_of(n.right));
        if n.left is Some { let l = *n.left->Some_0; assert(seq_of(n.left).len() == seq_of(l.left).len() + 1 + seq_of(l.right).len()); assert(seq_of(n.left)[seq_of(l.left).len() as int].0 == bytes(&l.key)); }
        if n.right is Some { let l = *n.right->Some_0; assert(seq_of(n.right).len() == seq_of(l.left).len() + 1 + seq_of(l.right).len()); assert(seq_of(n.right)[seq_of(l.left).len() as int].0 == bytes(&l.key)); }
    }
}
pub proof fn lemma_child_order2<K: AsRef<[u8]>, V>(n: Node<K, V>, k: Seq<u8>)
    ensures sorted(nseq(n)) && n.right is Some && !lt(k, bytes(&(*n.right->Some_0).key)) ==> lt(bytes(&n.key), k)
{
    broadcast use group_lex;
    lemma_child_order(n);
    if sorted(nseq(n)) && n.right is Some && !lt(k, bytes(&(*n.right->Some_0).key)) {
        lemma_lexc_range(k, bytes(&(*n.right->Some_0).key));
        lemma_lexc_trans(bytes(&n.key), bytes(&(*n.right->Some_0).key), k);
    }
}
pub proof fn lemma_spine<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>) ensures hashed(n) ==> hashed_spine(n) decreases n
{ match n { None => {}, Some(b) => { lemma_spine((*b).left); } } }
/// Concatenation, kept folded in the longer proofs.
pub open spec fn cat<T>(a: Seq<T>, x: T, b: Seq<T>) -> Seq<T> { a + seq![x] + b }
pub proof fn lemma_nseq<K: AsRef<[u8]>, V>(n: Node<K, V>)
    ensures nseq(n) == cat(seq_of(n.left), (bytes(&n.key), n.value), seq_of(n.right)),
        n.left is Some ==> seq_of(n.left) == nseq(*n.left->Some_0),
        n.right is Some ==> seq_of(n.right) == nseq(*n.right->Some_0),
        nseq(n).len() == seq_of(n.left).len() + seq_of(n.right).len() + 1,
        seq_of(Some(Box::new(n))) == nseq(n),
{ reveal_with_fuel(seq_of, 2); }
pub proof fn lemma_leaf_del<K: AsRef<[u8]>, V>(n: Node<K, V>)
    requires n.left is None, n.right is None
    ensures del(nseq(n), bytes(&n.key)) == seq_of(None::<Box<Node<K, V>>>)
{ assert(nseq(n)[0].0 == bytes(&n.key)); assert(nseq(n).skip(1) =~= Seq::empty()); }
/// Taking the smallest entry of the right subtree in place of the root's removes the root's entry.
pub proof fn lemma_swap_min<K: AsRef<[u8]>, V: AsHashTree>(h: Node<K, V>)
    requires h.right is Some, nvals_ok(h), nbal(h), sorted(nseq(h)), nhashed(*h.right->Some_0), nllrb(*h.right->Some_0)
    ensures ({
        let n = *h.right->Some_0;
        let r = set_min(n, Node { key: h.key, value: h.value, ..nmin(n) });
        &&& nvals_ok(r) && nhashed_spine(r) && nbal(r) && nllrb(r) && nbh(r) == nbh(n) && r.color == n.color && red(r.left) == red(n.left)
        &&& nmin(n).value.inv()
        &&& cat(seq_of(h.left), (bytes(&nmin(n).key), nmin(n).value), nseq(r).skip(1)) == del(nseq(h), bytes(&h.key))
    })
{
    let n = *h.right->Some_0;
    let r = set_min(n, Node { key: h.key, value: h.value, ..nmin(n) });
    lemma_set_min(n, h.key, h.value);
    lemma_parts(h, bytes(&h.key));
    assert(nseq(r).skip(1) =~= nseq(n).skip(1));
    assert(seq_of(h.right) == nseq(n));
    assert(cat(seq_of(h.left), (bytes(&nmin(n).key), nmin(n).value), nseq(r).skip(1)) =~= seq_of(h.left) + nseq(n));
}
/// What removing from a subtree needs: a red link at or just below its root, on the side the search goes.
pub open spec fn can_del<K, V>(h: Node<K, V>) -> bool { nllrb(h) && (h.color == Color::Red || red(h.left)) }
pub open spec fn can_del_right<K, V>(h: Node<K, V>) -> bool {
    h.color == Color::Black && red(h.right) && !red(h.left) && llrb(h.left) && llrb(h.right)
}

impl<K: 'static + AsRef<[u8]>, V: AsHashTree + 'static> RbTree<K, V> {
    /// The representation invariant: hashes, balance, colours, order.
    pub open spec fn rinv(&self) -> bool { wf(self.root) && llrb(self.root) && !red(self.root) && sorted(seq_of(self.root)) }
    /// The entries, in key order.
    pub open spec fn entries(&self) -> Seq<KV<V>> { seq_of(self.root) }
    /// The map the tree stands for.
    pub open spec fn map(&self) -> Map<Seq<u8>, V> { as_map(self.entries()) }
}
//@take rbt RbTree RbTree::new RbTree::is_empty RbTree::get RbTree::modify RbTree::insert RbTree::delete
//@gsubst `key < h.key.as_ref()` => `slice_lt(key, h.key.as_ref())`
//@gsubst `key == h.key.as_ref()` => `slice_eq(key, h.key.as_ref())`
//@text
} // mod ops
//@fn RbTree::new C03 C04
//@ret r
//@spec
    ensures r.root is None
//@fn RbTree::is_empty C04
//@ret r
//@spec
    ensures r == (self.root is None)
//@fn RbTree::get C04
//@ret r
//@entry
    broadcast use group_core;
    let ghost s0 = seq_of(self.root);
    proof { lemma_as_map(s0); }
//@loop 0
    invariant self.rinv(), s0 == self.entries(), sorted(s0), sorted(rs(root)), hask(s0, key@) == hask(rs(root), key@), forall|i: int| 0 <= i < rs(root).len() ==> s0.contains(#[trigger] rs(root)[i])
    ensures !hask(s0, key@)
    decreases root
//@loopentry 0
    broadcast use group_core;
    proof {
        let a = seq_of((**n).left);
        let b = seq_of((**n).right);
        let x = (bytes(&(**n).key), (**n).value);
        let f = a + seq![x] + b;
        assert(rs(root) == f);
        lemma_has_parts(a, x, b, key@);
        assert(f[a.len() as int] == x);
        assert forall|i: int| 0 <= i < a.len() implies s0.contains(#[trigger] a[i]) by { assert(f[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies s0.contains(#[trigger] b[i]) by { assert(f[i + a.len() + 1] == b[i]); }
        assert(a == rs(match (**n).left { None => None, Some(q) => Some(&q) }));
        assert(b == rs(match (**n).right { None => None, Some(q) => Some(&q) }));
        lemma_as_map(s0);
        if key@ == x.0 { let i = choose|i: int| 0 <= i < s0.len() && s0[i] == x; assert(s0[i].0 == key@); assert(hask(s0, key@)); }
    }
//@spec
    requires self.rinv()
    ensures match r { Some(v) => self.entries().contains((key@, *v)) && hask(self.entries(), key@), None => !hask(self.entries(), key@) },
        r is Some == self.map().dom().contains(key@), r is Some ==> self.map()[key@] == *r->Some_0
//@fn RbTree::insert C03 C04
//@spec
    requires old(self).rinv(), value.inv()
    ensures final(self).rinv(), final(self).entries() == ins(old(self).entries(), bytes(&key), value), final(self).map() == old(self).map().insert(bytes(&key), value)
//@entry
    broadcast use group_core;
    let ghost s0 = old(self).entries();
    proof { lemma_ins_map(s0, bytes(&key), value); }
//@fn RbTree::insert/go C03 C04
//@ret r
//@spec
    requires wf(h), llrb(h), sorted(seq_of(h)), v.inv()
    ensures nwf(*r), nseq(*r) == ins(seq_of(h), bytes(&k), v), nbh(*r) == bh(h),
        !red(h) ==> nllrb(*r), red(h) ==> nweak(*r) && (*r).color == Color::Red
    decreases h
//@entry
    broadcast use group_core, group_slice;
    let ghost h0 = h;
    proof {
        reveal_with_fuel(llrb, 2); reveal_with_fuel(bal, 2);
        if h is Some {
            let n = *h->Some_0;
            let x = (bytes(&n.key), n.value);
            lemma_has_parts(seq_of(n.left), x, seq_of(n.right), bytes(&k));
            if lt(bytes(&k), x.0) { lemma_ins_left(seq_of(n.left), x, seq_of(n.right), bytes(&k), v); }
            else { lemma_ins_right(seq_of(n.left), x, seq_of(n.right), bytes(&k), v); }
        }
    }
//@fn RbTree::delete C03 C04
//@spec
    requires old(self).rinv()
    ensures final(self).rinv(), final(self).entries() == del(old(self).entries(), key@), final(self).map() == old(self).map().remove(key@)
//@entry
    broadcast use group_core;
    proof { lemma_del_map(old(self).entries(), key@); lemma_del_absent_if(old(self).entries(), key@); lemma_del_contains(old(self).entries(), key@); }
//@fn RbTree::delete/move_red_left C03 C04
//@ret r
//@spec
    requires (*h).color == Color::Red, nllrb(*h), nbal(*h), nvals_ok(*h), nhashed_spine(*h), (*h).left is Some, !red((*h).left), !red((*(*h).left->Some_0).left)
    ensures nseq(*r) == nseq(*h), nbal(*r), nbh(*r) == nbh(*h), nvals_ok(*r), nhashed_spine(*r), nhashed(*h) ==> hashed((*r).left) && hashed((*r).right),
        (*r).left is Some, can_del(*(*r).left->Some_0), llrb((*r).right), (*r).color == Color::Red ==> !red((*r).right) && !red((*r).left),
        bytes(&(*r).key) == bytes(&(*h).key) || lt(bytes(&(*h).key), bytes(&(*r).key)) || !sorted(nseq(*h)),
//@entry
    broadcast use lemma_flip;
    let ghost h0 = *h;
    proof { reveal_with_fuel(bal, 3); reveal_with_fuel(bh, 3); reveal_with_fuel(llrb, 3); reveal_with_fuel(vals_ok, 3); reveal_with_fuel(hashed, 3); reveal_with_fuel(hashed_spine, 3); reveal_with_fuel(seq_of, 2); lemma_bh_nonneg(h0.left); lemma_bh_nonneg(h0.right); }
//@after `flip_colors(&mut h);`
    let ghost h1 = *h;
    proof { assert(flipped(h0, h1)); assert(nseq(h1) == nseq(h0)); assert(seq_of(h1.right) == nseq(*h1.right->Some_0)); }
//@after `h.right = Some(rotate_right(h.right.take().unwrap()));`
    let ghost h2 = *h;
    proof { assert(seq_of(h2.right) == nseq(*h2.right->Some_0)); assert(nseq(h2) == nseq(h1)); }
//@after `h = rotate_left(h);`
    let ghost h3 = *h;
//@after `flip_colors(&mut h);##1`
    proof { assert(flipped(h3, *h)); assert(nseq(*h) == nseq(h0)); }
//@tail
    proof { lemma_child_order(*r); }
//@fn RbTree::delete/move_red_right C03 C04
//@ret r
//@spec
    requires (*h).color == Color::Red, nllrb(*h), nbal(*h), nvals_ok(*h), nhashed(*h), (*h).right is Some, !red((*h).right), !red((*(*h).right->Some_0).left)
    ensures nseq(*r) == nseq(*h), nbal(*r), nbh(*r) == nbh(*h), nvals_ok(*r), hashed((*r).left), hashed((*r).right),
        (*r).right is Some, llrb((*r).left), (*r).color == Color::Red ==> !red((*r).right) && !red((*r).left),
        (*r).key == (*h).key && can_del(*(*r).right->Some_0) || (can_del_right(*(*r).right->Some_0) && (*(*r).right->Some_0).key == (*h).key),
//@entry
    broadcast use lemma_flip;
    let ghost h0 = *h;
    proof { reveal_with_fuel(bal, 3); reveal_with_fuel(bh, 3); reveal_with_fuel(llrb, 3); reveal_with_fuel(vals_ok, 3); reveal_with_fuel(hashed, 3); reveal_with_fuel(hashed_spine, 3); reveal_with_fuel(seq_of, 2); lemma_bh_nonneg(h0.left); lemma_bh_nonneg(h0.right); }
//@after `flip_colors(&mut h);`
    let ghost h1 = *h;
    proof { assert(flipped(h0, h1)); assert(nseq(h1) == nseq(h0)); assert(nvals_ok(h1)); }
//@after `h = rotate_right(h);`
    let ghost h3 = *h;
//@after `flip_colors(&mut h);##1`
    proof { assert(flipped(h3, *h)); assert(nseq(*h) == nseq(h0)); }
//@fn RbTree::delete/min C04
//@ret r
//@spec
    ensures **r == nmin(**old(h)), **final(h) == set_min(**old(h), **final(r))
//@entry
    let ghost h0 = **h;
    let ghost f0 = **final(h);
//@loop 0
    invariant nmin(**h) == nmin(h0), forall|m: Node<K, V>| **final(h) == #[trigger] set_min(**h, m) ==> f0 == set_min(h0, m)
    decreases **h
//@loopentry 0
    let ghost p = **h;
    let ghost pf = **final(h);
//@loopend 0
    proof {
        assert(p.left == Some(*h));
        assert(pf == (Node { left: Some(*final(h)), ..p }));
        assert forall|m: Node<K, V>| **final(h) == #[trigger] set_min(**h, m) implies f0 == set_min(h0, m) by { assert(pf == set_min(p, m)); }
    }

//@tail
    proof { assert(**final(h) == set_min(**h, **final(h))); }
//@fn RbTree::delete/delete_min C03 C04
//@ret r
//@spec
    requires can_del(*h), nbal(*h), nvals_ok(*h), nhashed_spine(*h)
    ensures wf(r), llrb(r), bh(r) == nbh(*h), (*h).color == Color::Black ==> !red(r), seq_of(r) == nseq(*h).skip(1)
    decreases nseq(*h).len()
//@attrs
#[verifier::spinoff_prover]
//@entry
    let ghost h0 = *h;
    proof { reveal_with_fuel(bal, 2); reveal_with_fuel(bh, 2); reveal_with_fuel(llrb, 2); reveal_with_fuel(vals_ok, 2); reveal_with_fuel(hashed_spine, 2); reveal_with_fuel(seq_of, 2); lemma_bh_nonneg(h0.left); lemma_bh_nonneg(h0.right);
        if h0.left is None { assert(nseq(h0) =~= seq![(bytes(&h0.key), h0.value)]); } }
//@before `h.left = delete_min(h.left.unwrap());`
    let ghost h1 = *h;
    proof { assert(seq_of(h1.left) == nseq(*h1.left->Some_0)); assert(nseq(*h1.left->Some_0).len() > 0); assert(nseq(h1) == nseq(h0)); }
//@after `h.update_subtree_hash();`
    proof { assert(nseq(*h) =~= nseq(h0).skip(1)); }
//@fn RbTree::delete/go C03 C04
//@ret r
//@spec
    requires nwf(*h), sorted(nseq(*h)), hask(nseq(*h), key@), can_del(*h) || (can_del_right(*h) && !lt(key@, bytes(&(*h).key)))
    ensures wf(r), llrb(r), bh(r) == nbh(*h), (*h).color == Color::Black ==> !red(r), seq_of(r) == del(nseq(*h), key@)
    decreases nseq(*h).len()
//@attrs
#[verifier::rlimit(50)]
//@entry
    hide(nhash); hide(sorted); hide(hask); hide(del); hide(lexc); hide(cat); hide(nseq); hide(seq_of); hide(set_min); hide(nmin);
    broadcast use group_bytes, lex_facts, ax_box_as_ref;
    let ghost h0 = *h;
    proof { reveal_with_fuel(bal, 2); reveal_with_fuel(bh, 2); reveal_with_fuel(llrb, 2); reveal_with_fuel(vals_ok, 2); reveal_with_fuel(hashed, 2);
        lemma_parts(h0, key@); lemma_spine(h0.left); lemma_nseq(h0); }
//@before `h.left = go(h.left.take().unwrap(), key);`
    let ghost h1 = *h;
    proof { if lt(key@, bytes(&h0.key)) && lt(bytes(&h0.key), bytes(&h1.key)) { lemma_lexc_trans(key@, bytes(&h0.key), bytes(&h1.key)); } lemma_parts(h1, key@); lemma_nseq(h1); }
//@after `h.left = go(h.left.take().unwrap(), key);`
    proof { lemma_nseq(*h); assert(nseq(*h) == del(nseq(h0), key@)); }
//@before `if key == h.key.as_ref()`
    let ghost h1 = *h;
    proof { lemma_parts(*h, key@); assert(nseq(*h) == nseq(h0)); lemma_child_order2(h1, key@); lemma_nseq(h1); }
//@before `drop(h);`
    proof { lemma_leaf_del(*h); }
//@before `if key == h.key.as_ref() {`
    let ghost h2 = *h;
    proof { lemma_parts(h2, key@); lemma_child_order2(h2, key@); lemma_nseq(h2); assert(nseq(h2) == nseq(h0)); }
//@before `let m = min(`
    proof { lemma_swap_min(h2); }
//@after `h.right = delete_min(h.right.take().unwrap());`
    proof { lemma_nseq(*h); assert(nseq(*h) == del(nseq(h0), key@)); }
//@after `h.right = go(h.right.take().unwrap(), key);`
    proof { lemma_nseq(*h); assert(nseq(*h) == del(nseq(h0), key@)); }
//@after `h.update_subtree_hash();`
    proof { lemma_nseq(*h); assert(nseq(*h) == del(nseq(h0), key@)); }
//@tail
    proof { lemma_nseq(*r->Some_0); }
//@fn RbTree::modify C03 C04
//@spec
    requires old(self).rinv(), mod_ok(f)
    ensures final(self).rinv(), modified(old(self).entries(), final(self).entries(), key@, f), modified_map(old(self).entries(), final(self).entries(), key@, f)
//@entry
    let ghost e0 = self.entries();
//@tail
    proof { lemma_modified_map(e0, self.entries(), key@, f); }
//@fn RbTree::modify/go C03 C04
//@spec
    requires wf(*old(h)), llrb(*old(h)), sorted(seq_of(*old(h))), mod_ok(f)
    ensures wf(*final(h)), llrb(*final(h)), bh(*final(h)) == bh(*old(h)), red(*final(h)) == red(*old(h)), modified(seq_of(*old(h)), seq_of(*final(h)), k@, f)
    decreases *old(h)
//@entry
    broadcast use group_core;
    let ghost h0 = *h;
    proof {
        reveal_with_fuel(llrb, 2); reveal_with_fuel(bal, 2);
        if h0 is Some {
            let n = *h0->Some_0;
            lemma_has_parts(seq_of(n.left), (bytes(&n.key), n.value), seq_of(n.right), k@);
            lemma_sorted_parts(seq_of(n.left), (bytes(&n.key), n.value), seq_of(n.right));
        }
    }
//@tail
    proof { if h0 is Some { lemma_modified(*h0->Some_0, *(*h)->Some_0, k@, f); } }
