//@text
pub mod iter_ {
use super::*;
use super::tree::*;
use super::tree2::*;
use super::ops::*;

/// Keys and values of a subtree, in key order.
pub open spec fn kvs<K, V>(n: NodeRef<K, V>) -> Seq<(K, V)> decreases n {
    match n { None => Seq::empty(), Some(b) => kvs((*b).left) + seq![((*b).key, (*b).value)] + kvs((*b).right) }
}
pub open spec fn nkvs<K, V>(n: Node<K, V>) -> Seq<(K, V)> { kvs(n.left) + seq![(n.key, n.value)] + kvs(n.right) }
/// No key twice.
pub open spec fn dist<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn is_left<K, V>(p: Node<K, V>, c: Node<K, V>) -> bool { p.left is Some && *p.left->Some_0 == c }
pub open spec fn is_right<K, V>(p: Node<K, V>, c: Node<K, V>) -> bool { p.right is Some && *p.right->Some_0 == c }
/// What comes after the subtree at the end of a path from the root.
pub open spec fn up<K, V>(ps: Seq<&Node<K, V>>) -> Seq<(K, V)> decreases ps.len() {
    if ps.len() <= 1 { Seq::empty() } else {
        let p = *ps[ps.len() - 2];
        if is_left(p, *ps.last()) { seq![(p.key, p.value)] + kvs(p.right) + up(ps.drop_last()) } else { up(ps.drop_last()) }
    }
}
/// The entries an iterator has still to hand out.
pub open spec fn rest<K, V>(v: Visit, ps: Seq<&Node<K, V>>) -> Seq<(K, V)> {
    if ps.len() == 0 { Seq::empty() } else {
        match v { Visit::Pre => nkvs(*ps.last()) + up(ps), Visit::In => kvs(ps.last().right) + up(ps), Visit::Post => up(ps) }
    }
}
/// The steps an iterator has still to take.
pub open spec fn steps<K, V>(n: NodeRef<K, V>) -> int decreases n { match n { None => 0, Some(b) => 3 + steps((*b).left) + steps((*b).right) } }
pub open spec fn upsteps<K, V>(ps: Seq<&Node<K, V>>) -> int decreases ps.len() {
    if ps.len() <= 1 { 0 } else {
        let p = *ps[ps.len() - 2];
        upsteps(ps.drop_last()) + (if is_left(p, *ps.last()) { 2 + steps(p.right) } else { 1 })
    }
}
pub open spec fn left_over<K, V>(v: Visit, ps: Seq<&Node<K, V>>) -> int {
    if ps.len() == 0 { 0 } else {
        upsteps(ps) + match v { Visit::Pre => 3 + steps(ps.last().left) + steps(ps.last().right), Visit::In => 2 + steps(ps.last().right), Visit::Post => 1 }
    }
}
/// A path from the root of a tree in which no key occurs twice.
pub open spec fn path_ok<K, V>(ps: Seq<&Node<K, V>>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> dist(nkvs(*#[trigger] ps[i]))
    &&& forall|i: int| #![trigger ps[i]] 0 < i < ps.len() ==> is_left(*ps[i - 1], *ps[i]) || is_right(*ps[i - 1], *ps[i])
}
impl<'a, K, V> Iter<'a, K, V> {
    pub closed spec fn ok(&self) -> bool { path_ok(self.parents@) }
    pub closed spec fn rest(&self) -> Seq<(K, V)> { rest(self.visit, self.parents@) }
    pub closed spec fn left_over(&self) -> int { left_over(self.visit, self.parents@) }
}
pub proof fn lemma_steps<K, V>(n: NodeRef<K, V>) ensures steps(n) >= 0 decreases n {
    if let Some(b) = n { lemma_steps((*b).left); lemma_steps((*b).right); }
}
pub proof fn lemma_upsteps<K, V>(ps: Seq<&Node<K, V>>) ensures upsteps(ps) >= 0 decreases ps.len() {
    if ps.len() > 1 { lemma_upsteps(ps.drop_last()); lemma_steps(ps[ps.len() - 2].right); }
}
pub proof fn lemma_left_over<K, V>(v: Visit, ps: Seq<&Node<K, V>>) ensures left_over(v, ps) >= 0 {
    lemma_upsteps(ps);
    if ps.len() > 0 { lemma_steps(ps.last().left); lemma_steps(ps.last().right); }
}
/// The children of a node have different keys, and no key twice.
pub proof fn lemma_dist<K, V>(n: Node<K, V>)
    requires dist(nkvs(n))
    ensures n.left is Some ==> dist(nkvs(*n.left->Some_0)), n.right is Some ==> dist(nkvs(*n.right->Some_0)),
        n.left is Some && n.right is Some ==> n.left->Some_0.key != n.right->Some_0.key
{
    let s = nkvs(n);
    let a = kvs(n.left);
    let b = kvs(n.right);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by { assert(s[i] == a[i] && s[j] == a[j]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(s[a.len() + 1 + i] == b[i] && s[a.len() + 1 + j] == b[j]); }
    if n.left is Some { assert(nkvs(*n.left->Some_0) == a); }
    if n.right is Some { assert(nkvs(*n.right->Some_0) == b); }
    if n.left is Some && n.right is Some {
        let l = *n.left->Some_0;
        let r = *n.right->Some_0;
        let i = kvs(l.left).len();
        let j = kvs(r.left).len();
        assert(a[i as int] == (l.key, l.value));
        assert(b[j as int] == (r.key, r.value));
        assert(s[i as int] == a[i as int] && s[a.len() as int + 1 + j as int] == b[j as int]);
    }
}
/// One level down.
pub proof fn lemma_down<'a, K, V>(ps: Seq<&'a Node<K, V>>, c: &'a Node<K, V>)
    requires path_ok(ps), ps.len() > 0, is_left(*ps.last(), *c) || is_right(*ps.last(), *c)
    ensures path_ok(ps.push(c)),
        is_left(*ps.last(), *c) ==> up(ps.push(c)) == seq![(ps.last().key, ps.last().value)] + kvs(ps.last().right) + up(ps) && upsteps(ps.push(c)) == upsteps(ps) + 2 + steps(ps.last().right),
        is_right(*ps.last(), *c) ==> up(ps.push(c)) == up(ps) && upsteps(ps.push(c)) == upsteps(ps) + 1
{
    lemma_dist(*ps.last());
    let q = ps.push(c);
    assert(q.drop_last() == ps);
    assert forall|i: int| 0 <= i < q.len() implies dist(nkvs(*#[trigger] q[i])) by { if i < ps.len() { assert(q[i] == ps[i]); } }
    assert forall|i: int| #![trigger q[i]] 0 < i < q.len() implies is_left(*q[i - 1], *q[i]) || is_right(*q[i - 1], *q[i]) by { if i < ps.len() { assert(q[i] == ps[i]); } }
}
/// One level up.
pub proof fn lemma_up<K, V>(ps: Seq<&Node<K, V>>)
    requires path_ok(ps), ps.len() > 0
    ensures path_ok(ps.drop_last()),
        ps.len() > 1 ==> { let p = *ps[ps.len() - 2]; let c = *ps.last();
            (is_left(p, c) || is_right(p, c)) && (p.left is Some && !is_left(p, c) ==> p.left->Some_0.key != c.key) },
{
    let q = ps.drop_last();
    assert forall|i: int| 0 <= i < q.len() implies dist(nkvs(*#[trigger] q[i])) by { assert(q[i] == ps[i]); }
    assert forall|i: int| #![trigger q[i]] 0 < i < q.len() implies is_left(*q[i - 1], *q[i]) || is_right(*q[i - 1], *q[i]) by { assert(q[i] == ps[i]); }
    if ps.len() > 1 { let i = ps.len() - 1; assert(ps[i] == ps.last()); lemma_dist(*ps[i - 1]); }
}
/// The steps, one by one.
pub proof fn lemma_at_end<K, V>(v: Visit, ps: Seq<&Node<K, V>>) requires ps.len() == 0 ensures rest(v, ps).len() == 0, left_over(v, ps) == 0 { }
pub proof fn lemma_next_left<'a, K, V>(ps: Seq<&'a Node<K, V>>, l: &'a Node<K, V>)
    requires path_ok(ps), ps.len() > 0, is_left(*ps.last(), *l)
    ensures path_ok(ps.push(l)), rest(Visit::Pre, ps.push(l)) == rest(Visit::Pre, ps), left_over(Visit::Pre, ps.push(l)) < left_over(Visit::Pre, ps)
{
    lemma_down(ps, l);
    let tip = *ps.last();
    assert(ps.push(l).last() == l);
    assert(nkvs(*l) + (seq![(tip.key, tip.value)] + kvs(tip.right) + up(ps)) =~= nkvs(tip) + up(ps));
}
pub proof fn lemma_next_right<'a, K, V>(ps: Seq<&'a Node<K, V>>, r: &'a Node<K, V>)
    requires path_ok(ps), ps.len() > 0, is_right(*ps.last(), *r)
    ensures path_ok(ps.push(r)), rest(Visit::Pre, ps.push(r)) == rest(Visit::In, ps), left_over(Visit::Pre, ps.push(r)) < left_over(Visit::In, ps)
{
    lemma_down(ps, r); lemma_dist(*ps.last());
    assert(ps.push(r).last() == r);
    assert(nkvs(*r) + up(ps) =~= rest(Visit::In, ps));
}
/// Without a left child, the node itself is next; without a right child, it is done.
pub proof fn lemma_next_in<K, V>(ps: Seq<&Node<K, V>>)
    requires ps.len() > 0
    ensures ps.last().left is None ==> rest(Visit::Pre, ps).len() > 0 && rest(Visit::Pre, ps)[0] == (ps.last().key, ps.last().value) && rest(Visit::In, ps) == rest(Visit::Pre, ps).skip(1) && left_over(Visit::In, ps) < left_over(Visit::Pre, ps),
        ps.last().right is None ==> rest(Visit::Post, ps) == rest(Visit::In, ps) && left_over(Visit::Post, ps) < left_over(Visit::In, ps)
{
    let tip = *ps.last();
    if tip.left is None { assert(kvs(tip.left).len() == 0); assert(rest(Visit::Pre, ps) =~= seq![(tip.key, tip.value)] + rest(Visit::In, ps)); assert(rest(Visit::In, ps) =~= rest(Visit::Pre, ps).skip(1)); }
    if tip.right is None { assert(kvs(tip.right).len() == 0); assert(rest(Visit::Post, ps) =~= rest(Visit::In, ps)); }
}
pub proof fn lemma_next_up<K, V>(ps: Seq<&Node<K, V>>)
    requires path_ok(ps), ps.len() > 0
    ensures path_ok(ps.drop_last()), ps.len() == 1 ==> rest(Visit::Post, ps).len() == 0 && left_over(Visit::Post, ps) > 0,
        ps.len() > 1 ==> { let p = *ps[ps.len() - 2]; let q = ps.drop_last();
            if is_left(p, *ps.last()) { rest(Visit::Post, ps).len() > 0 && rest(Visit::Post, ps)[0] == (p.key, p.value) && rest(Visit::In, q) == rest(Visit::Post, ps).skip(1) && left_over(Visit::In, q) < left_over(Visit::Post, ps) }
            else { rest(Visit::Post, q) == rest(Visit::Post, ps) && left_over(Visit::Post, q) < left_over(Visit::Post, ps) } }
{
    lemma_up(ps);
    if ps.len() > 1 {
        let p = *ps[ps.len() - 2];
        let q = ps.drop_last();
        assert(q.last() == ps[ps.len() - 2]);
        if is_left(p, *ps.last()) {
            assert(rest(Visit::Post, ps) =~= seq![(p.key, p.value)] + rest(Visit::In, q));
            assert(rest(Visit::In, q) =~= rest(Visit::Post, ps).skip(1));
        }
    }
}
/// The entries with their keys as bytes.
pub proof fn lemma_kvs<K: AsRef<[u8]>, V>(n: NodeRef<K, V>)
    ensures kvs(n).len() == seq_of(n).len(),
        forall|i: int| 0 <= i < kvs(n).len() ==> (#[trigger] seq_of(n)[i]) == (bytes(&kvs(n)[i].0), kvs(n)[i].1)
    decreases n
{
    if let Some(b) = n { lemma_kvs((*b).left); lemma_kvs((*b).right); }
}
pub proof fn lemma_sorted_dist<K: AsRef<[u8]>, V>(n: NodeRef<K, V>)
    requires sorted(seq_of(n))
    ensures dist(kvs(n))
{
    broadcast use group_lex;
    lemma_kvs(n);
    let s = seq_of(n);
    assert forall|i: int, j: int| 0 <= i < j < kvs(n).len() implies (#[trigger] kvs(n)[i]).0 != (#[trigger] kvs(n)[j]).0 by {
        assert(lt(s[i].0, s[j].0));
    }
}
// assumed: `a.map(|l| l.as_ref() as *const Node) == Some(b as *const Node)` says whether the two are the same node; nodes that are equal and belong to a map in which no key occurs twice are the same one
pub trait SameNode<K, V> {
    spec fn this(&self) -> Option<Node<K, V>>;
    fn is_same(&self, o: &Node<K, V>) -> (r: bool)
        requires self.this() is Some ==> self.this()->Some_0 == *o || self.this()->Some_0.key != o.key
        ensures r == (self.this() == Some(*o));
}
impl<'a, K, V> SameNode<K, V> for Option<&'a Box<Node<K, V>>> {
    open spec fn this(&self) -> Option<Node<K, V>> { match *self { Some(b) => Some(**b), None => None } }
    #[verifier::external_body]
    fn is_same(&self, o: &Node<K, V>) -> (r: bool)
    { self.map(|l| l.as_ref() as *const Node<K, V>) == Some(o as *const Node<K, V>) }
}
/// What inserting the entries of a list in turn comes to.
pub open spec fn from_list<K: AsRef<[u8]>, V>(s: Seq<(K, V)>) -> Map<Seq<u8>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { from_list(s.drop_last()).insert(bytes(&s.last().0), s.last().1) }
}
// assumed: stand-in for IntoIterator of owned entries: a finite list, handed out in order
pub trait Listed<X>: Sized { spec fn listed(&self) -> Seq<X>; fn in_order(self) -> (r: Vec<X>) ensures r@ == self.listed(); }
// assumed: stand-in for the FnMut callback of visit: what it did is told by the calls it has had, in order
pub trait Callback<V> { spec fn calls(&self) -> Seq<KV<V>>; fn call(&mut self, k: &[u8], v: &V) ensures final(self).calls() == old(self).calls().push((k@, *v)); }
//@take rbt Visit Iter Node::visit Iter::step impl:std::iter::Iterator:Iter<'a,K,V> RbTree::iter impl:std::iter::FromIterator<(K,V)>:RbTree<K,V>
//@itemsubst impl:std::iter::FromIterator<(K,V)>:RbTree<K,V> `std::iter::FromIterator<(K, V)> for RbTree` => `RbTree`
//@gsubst `F: 'a + FnMut(&'a [u8], &'a V)` => `F: Callback<V>`
//@gsubst `(*f)(` => `f.call(`
//@gsubst `T: IntoIterator<Item = (K, V)>` => `T: Listed<(K, V)>`
//@gsubst `iter.into_iter()` => `iter.in_order()`
//@itemsubst impl:std::iter::Iterator:Iter<'a,K,V> `std::iter::Iterator for Iter` => `Iter`
//@gsubst `Option<Self::Item>` => `Option<(&'a K, &'a V)>`
//@derive Visit Clone, Copy
//@derive Iter
//@text
/// What #[derive(PartialEq)] means on a field-less enum.
impl PartialEq for Visit {
    fn eq(&self, other: &Visit) -> (r: bool) { match (*self, *other) { (Visit::Pre, Visit::Pre) => true, (Visit::In, Visit::In) => true, (Visit::Post, Visit::Post) => true, _ => false } }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Visit {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Visit) -> bool { *self == *o }
}
} // mod iter_
//@fn Iter::step C04
//@ret r
//@attrs #[verifier::spinoff_prover]
//@spec
    requires old(self).ok()
    ensures final(self).ok(), r == (old(self).parents@.len() > 0),
        r ==> final(self).left_over() < old(self).left_over(),
        r && final(self).visit == Visit::In ==> final(self).parents@.len() > 0 && old(self).rest().len() > 0
            && old(self).rest()[0] == (final(self).parents@.last().key, final(self).parents@.last().value) && final(self).rest() == old(self).rest().skip(1),
        r && final(self).visit != Visit::In ==> final(self).rest() == old(self).rest(),
        !r ==> final(self).rest() == old(self).rest() && final(self).rest().len() == 0,
//@entry
    hide(rest); hide(left_over); hide(path_ok); hide(kvs); hide(up); hide(upsteps); hide(steps); hide(dist);
    let ghost ps = self.parents@;
    proof { if ps.len() == 0 { lemma_at_end(self.visit, ps); } else { lemma_next_in(ps); lemma_up(ps); } }
//@before `self.parents.push(l)`
    proof { lemma_next_left(ps, &**l); }
//@before `self.parents.push(r)`
    proof { lemma_next_right(ps, &**r); }
//@after `let tip = self.parents.pop().unwrap();`
    proof { assert(self.parents@ == ps.drop_last() && tip == ps.last()); lemma_next_up(ps); if ps.len() > 1 { assert(ps[ps.len() - 2] == self.parents@.last()); } else { lemma_at_end(Visit::Post, self.parents@); } }
//@subst `.map(|l| l.as_ref() as *const Node<K, V>)` => ``
//@subst `== Some(tip as *const Node<K, V>)` => `.is_same(tip)`
//@fn Iter::Iterator::next C04
//@ret r
//@spec
    requires old(self).ok()
    ensures final(self).ok(), r is None == (old(self).rest().len() == 0),
        r is Some ==> ({ let p = r->Some_0; (*p.0, *p.1) == old(self).rest()[0] }) && final(self).rest() == old(self).rest().skip(1),
        r is None ==> final(self).rest().len() == 0
//@loop 0
    invariant self.ok(), self.rest() == old(self).rest(),
    decreases self.left_over()
//@loopend 0
    proof { lemma_left_over(self.visit, self.parents@); }
//@closure 0
-> (r: (&'a K, &'a V)) ensures *r.0 == n.key, *r.1 == n.value
//@fn RbTree::iter C04
//@ret r
//@spec
    requires self.rinv()
    ensures r.ok(), r.rest() == kvs(self.root), r.rest().len() == self.entries().len(),
        forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] self.entries()[i]) == (bytes(&r.rest()[i].0), r.rest()[i].1)
//@entry
    proof { lemma_kvs(self.root); lemma_sorted_dist(self.root); reveal_with_fuel(up, 2); }
//@fn RbTree::FromIterator::from_iter C04
//@ret r
//@opt inline-own
//@spec
    requires forall|i: int| 0 <= i < iter.listed().len() ==> (#[trigger] iter.listed()[i]).1.inv()
    ensures r.rinv(), r.map() == from_list(iter.listed())
//@entry
    let ghost all = iter.listed();
    proof { lemma_as_map(Seq::<KV<V>>::empty()); assert(all.take(0) =~= Seq::empty()); }
//@loop 0
    invariant t.rinv(), rv_v0@.len() <= all.len(), rv_v0@ =~= all.skip(all.len() - rv_v0@.len()), t.map() == from_list(all.take(all.len() - rv_v0@.len())),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).1.inv(),
    ensures rv_v0@.len() == 0
    decreases rv_v0@.len()
//@loopentry 0
    proof { let n = all.len() - rv_v0@.len() - 1; assert((k, v) == all[n]); assert(all.take(n + 1).drop_last() =~= all.take(n)); }
//@tail
    proof { assert(all.take(all.len() as int) =~= all); }
//@fn Node::visit C04
//@spec
    ensures final(f).calls() == old(f).calls() + seq_of(*n)
    decreases *n
//@entry
    broadcast use group_core;
    let ghost c0 = f.calls();
//@tail
    proof { assert(f.calls() =~= c0 + seq_of(*n)); }
