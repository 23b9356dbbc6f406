//@source rbt packages/ic-certification/src/rb_tree/mod.rs
//@text
pub mod tree {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned};
/// Entries of a map in key order: key bytes and value.
pub type KV<V> = (Seq<u8>, V);
pub open spec fn seq_of<K: AsRef<[u8]>, V>(n: NodeRef<K, V>) -> Seq<KV<V>> decreases n {
    match n { None => Seq::empty(), Some(b) => seq_of((*b).left) + seq![(bytes(&(*b).key), (*b).value)] + seq_of((*b).right) }
}
pub open spec fn nseq<K: AsRef<[u8]>, V>(n: Node<K, V>) -> Seq<KV<V>> {
    seq_of(n.left) + seq![(bytes(&n.key), n.value)] + seq_of(n.right)
}
/// The colour of a link.
pub open spec fn red<K, V>(n: NodeRef<K, V>) -> bool { match n { Some(b) => (*b).color == Color::Red, None => false } }
/// Black height.
pub open spec fn bh<K, V>(n: NodeRef<K, V>) -> int decreases n {
    match n { None => 0, Some(b) => bh((*b).left) + (if (*b).color == Color::Black { 1int } else { 0 }) }
}
pub open spec fn nbh<K, V>(n: Node<K, V>) -> int { bh(n.left) + (if n.color == Color::Black { 1int } else { 0 }) }
/// Every path has the same number of black links.
pub open spec fn bal<K, V>(n: NodeRef<K, V>) -> bool decreases n {
    match n { None => true, Some(b) => bal((*b).left) && bal((*b).right) && bh((*b).left) == bh((*b).right) }
}
pub open spec fn nbal<K, V>(n: Node<K, V>) -> bool { bal(n.left) && bal(n.right) && bh(n.left) == bh(n.right) }
/// Left-leaning red-black tree: red links lean left, and no two red links follow each other.
pub open spec fn llrb<K, V>(n: NodeRef<K, V>) -> bool decreases n {
    match n { None => true, Some(b) => llrb((*b).left) && llrb((*b).right) && !red((*b).right) && ((*b).color == Color::Red ==> !red((*b).left)) }
}
pub open spec fn nllrb<K, V>(n: Node<K, V>) -> bool {
    llrb(n.left) && llrb(n.right) && !red(n.right) && (n.color == Color::Red ==> !red(n.left))
}
/// As nllrb, except that the root may be red with a red left child.
pub open spec fn nweak<K, V>(n: Node<K, V>) -> bool { llrb(n.left) && llrb(n.right) && !red(n.right) }
pub open spec fn weak<K, V>(n: NodeRef<K, V>) -> bool { match n { None => true, Some(b) => nweak(*b) } }

pub open spec fn vals_ok<K, V: AsHashTree>(n: NodeRef<K, V>) -> bool decreases n {
    match n { None => true, Some(b) => (*b).value.inv() && vals_ok((*b).left) && vals_ok((*b).right) }
}
pub open spec fn nvals_ok<K, V: AsHashTree>(n: Node<K, V>) -> bool { n.value.inv() && vals_ok(n.left) && vals_ok(n.right) }

/// What a stored hash has to be, given the stored hashes of the children.
pub open spec fn nhash<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>) -> Hash {
    let h = h_labeled(bytes(&n.key), dg(n.value.tree_spec()));
    match (n.left, n.right) {
        (None, None) => h,
        (Some(l), None) => h_fork((*l).subtree_hash, h),
        (None, Some(r)) => h_fork(h, (*r).subtree_hash),
        (Some(l), Some(r)) => h_fork((*l).subtree_hash, h_fork(h, (*r).subtree_hash)),
    }
}
pub open spec fn hashed<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>) -> bool decreases n {
    match n { None => true, Some(b) => (*b).subtree_hash == nhash(*b) && hashed((*b).left) && hashed((*b).right) }
}
pub open spec fn nhashed<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>) -> bool {
    n.subtree_hash == nhash(n) && hashed(n.left) && hashed(n.right)
}
/// Hashes are right everywhere but on the left spine.
pub open spec fn hashed_spine<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>) -> bool decreases n {
    match n { None => true, Some(b) => hashed_spine((*b).left) && hashed((*b).right) }
}
pub open spec fn nhashed_spine<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>) -> bool {
    hashed_spine(n.left) && hashed(n.right)
}
/// The fork of three trees, leaving out empty sides.
pub open spec fn three(l: ST, m: ST, r: ST) -> ST {
    match (l, m, r) {
        (ST::Empty, m, ST::Empty) => m,
        (l, m, ST::Empty) => ST::Fork(Box::new(l), Box::new(m)),
        (ST::Empty, m, r) => ST::Fork(Box::new(m), Box::new(r)),
        (l, m, r) => ST::Fork(Box::new(l), Box::new(ST::Fork(Box::new(m), Box::new(r)))),
    }
}
/// The same, with runs of pruned siblings merged.
pub open spec fn threew(l: ST, m: ST, r: ST) -> ST {
    match (l, m, r) {
        (ST::Empty, m, ST::Empty) => m,
        (l, m, ST::Empty) => ST::Fork(Box::new(l), Box::new(m)),
        (ST::Empty, m, r) => ST::Fork(Box::new(m), Box::new(r)),
        (ST::Pruned(a), ST::Pruned(b), ST::Pruned(c)) => ST::Pruned(h_fork(a, h_fork(b, c))),
        (l, ST::Pruned(b), ST::Pruned(c)) => ST::Fork(Box::new(l), Box::new(ST::Pruned(h_fork(b, c)))),
        (l, m, r) => ST::Fork(Box::new(l), Box::new(ST::Fork(Box::new(m), Box::new(r)))),
    }
}
/// The hash tree of a map: its entries labeled with their keys, in order.
pub open spec fn ht_of<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>) -> ST decreases n {
    match n { None => ST::Empty, Some(b) => three(ht_of((*b).left), ST::Labeled(bytes(&(*b).key), Box::new((*b).value.tree_spec())), ht_of((*b).right)) }
}
pub open spec fn nht_of<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>) -> ST {
    three(ht_of(n.left), ST::Labeled(bytes(&n.key), Box::new(n.value.tree_spec())), ht_of(n.right))
}
pub open spec fn sorted<V>(s: Seq<KV<V>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
/// Everything but the colours.
pub open spec fn nwf<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>) -> bool { nhashed(n) && nvals_ok(n) && nbal(n) }
pub open spec fn wf<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>) -> bool { hashed(n) && vals_ok(n) && bal(n) }

//@text
pub open spec fn flipc(c: Color) -> Color { if c == Color::Red { Color::Black } else { Color::Red } }
//@text
pub open spec fn flipped<K, V>(o: Node<K, V>, n: Node<K, V>) -> bool {
    n == (Node { color: flipc(o.color), left: Some(Box::new(Node { color: flipc((*o.left->Some_0).color), ..*o.left->Some_0 })),
            right: Some(Box::new(Node { color: flipc((*o.right->Some_0).color), ..*o.right->Some_0 })), ..o })
}
pub broadcast proof fn lemma_flip<K: AsRef<[u8]>, V: AsHashTree>(o: Node<K, V>, n: Node<K, V>)
    requires #[trigger] flipped(o, n), o.left is Some, o.right is Some
    ensures nseq(n) == nseq(o), nvals_ok(n) == nvals_ok(o), nhashed(n) == nhashed(o), nhash(n) == nhash(o),
        hashed(n.left) == hashed(o.left), hashed(n.right) == hashed(o.right), vals_ok(n.left) == vals_ok(o.left), vals_ok(n.right) == vals_ok(o.right),
        hashed_spine(n.left) == hashed_spine(o.left),
        seq_of(n.left) == seq_of(o.left), seq_of(n.right) == seq_of(o.right)
{
    reveal_with_fuel(seq_of, 3);
    reveal_with_fuel(vals_ok, 3);
    reveal_with_fuel(hashed, 3);
    reveal_with_fuel(hashed_spine, 3);
    assert(nhash(*n.left->Some_0) == nhash(*o.left->Some_0));
    assert(nhash(*n.right->Some_0) == nhash(*o.right->Some_0));
}
//@take rbt Color impl:Color AsHashTree NodeRef Node
//@take rbt Node::new Node::data_hash Node::left_hash_tree Node::right_hash_tree Node::update_subtree_hash Node::compute_subtree_hash
//@take rbt three_way_fork is_red balance rotate_right rotate_left flip_colors
//@derive Color Clone, Copy
//@derive Node
//@text
/// What #[derive(PartialEq)] means on a field-less enum.
impl PartialEq for Color {
    fn eq(&self, other: &Color) -> (r: bool) { match (*self, *other) { (Color::Red, Color::Red) => true, (Color::Black, Color::Black) => true, _ => false } }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Color {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Color) -> bool { *self == *o }
}
} // mod tree
//@fn Color::flip_assign C04
//@spec
    ensures *final(self) == (if *old(self) == Color::Red { Color::Black } else { Color::Red })
//@fn Color::flip C04
//@ret r
//@spec
    ensures r == (if self == Color::Red { Color::Black } else { Color::Red })
//@fn AsHashTree/*
//@spec
    /// What has to hold of a value for its hash to be right.
    spec fn inv(&self) -> bool;
    /// The hash tree the value stands for.
    spec fn tree_spec(&self) -> ST;
//@fn AsHashTree::root_hash C03
//@ret r
//@spec
    requires self.inv() ensures r == dg(self.tree_spec())
//@fn AsHashTree::as_hash_tree C03
//@ret r
//@spec
    requires self.inv() ensures tv(r.root) == self.tree_spec()
//@fn Node::new C03 C04
//@ret r
//@spec
    requires value.inv()
    ensures bytes(&(*r).key) == bytes(&key), (*r).key == key, (*r).value == value, (*r).left is None, (*r).right is None, (*r).color == Color::Red, nhashed(*r)
//@entry
    broadcast use group_core;
//@fn Node::data_hash C03
//@ret r
//@spec
    requires self.value.inv()
    ensures r == h_labeled(bytes(&self.key), dg(self.value.tree_spec()))
//@fn Node::left_hash_tree C05
//@ret r
//@spec
    ensures tv(r.root) == (match self.left { None => ST::Empty, Some(l) => ST::Pruned((*l).subtree_hash) })
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn Node::right_hash_tree C05
//@ret r
//@spec
    ensures tv(r.root) == (match self.right { None => ST::Empty, Some(l) => ST::Pruned((*l).subtree_hash) })
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn Node::update_subtree_hash C03
//@spec
    requires old(self).value.inv()
    ensures *final(self) == (Node { subtree_hash: nhash(*old(self)), ..*old(self) }), (*final(self)).subtree_hash == nhash(*final(self))
//@fn Node::compute_subtree_hash C03
//@ret r
//@spec
    requires self.value.inv()
    ensures r == nhash(*self)
//@fn three_way_fork C03 C05
//@ret res
//@spec
    ensures tv(res.root) == threew(tv(l.root), tv(m.root), tv(r.root))
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn is_red C04
//@ret r
//@opt inline-option
//@spec
    ensures r == red(*x)
//@fn rotate_right C03 C04
//@ret r
//@entry
    let ghost h0 = *h;
    let ghost x0 = *h.left->Some_0;
    proof { reveal_with_fuel(vals_ok, 3); reveal_with_fuel(hashed, 3); reveal_with_fuel(bal, 3); reveal_with_fuel(bh, 3); }
//@tail
    proof {
        let y = *r.right->Some_0;
        assert(nseq(y) == seq_of(y.left) + seq![(bytes(&y.key), y.value)] + seq_of(y.right));
        assert(seq_of(r.right) == nseq(y));
        assert(nseq(*r) == seq_of(r.left) + seq![(bytes(&r.key), r.value)] + seq_of(r.right));
        assert(nseq(x0) == seq_of(x0.left) + seq![(bytes(&x0.key), x0.value)] + seq_of(x0.right));
        assert(seq_of(h0.left) == nseq(x0));
        assert(nseq(h0) == seq_of(h0.left) + seq![(bytes(&h0.key), h0.value)] + seq_of(h0.right));
        assert(nseq(*r) =~= nseq(h0));
    }
//@spec
    requires red((*h).left), nvals_ok(*h)
    ensures ({
        let x = *(*h).left->Some_0;
        &&& (*r).key == x.key && (*r).value == x.value && (*r).left == x.left && (*r).color == (*h).color
        &&& (*r).right is Some
        &&& ({ let y = *(*r).right->Some_0;
            y.key == (*h).key && y.value == (*h).value && y.left == x.right && y.right == (*h).right && y.color == Color::Red && y.subtree_hash == nhash(y) })
        &&& (*r).subtree_hash == nhash(*r)
        &&& nvals_ok(*r)
        &&& nseq(*r) == nseq(*h)
    }),
        hashed((*h).left) && hashed((*h).right) ==> nhashed(*r),
        nbal(*h) ==> nbal(*r) && nbh(*r) == nbh(*h),
//@fn rotate_left C03 C04
//@ret r
//@entry
    let ghost h0 = *h;
    let ghost x0 = *h.right->Some_0;
    proof { reveal_with_fuel(vals_ok, 3); reveal_with_fuel(hashed, 3); reveal_with_fuel(bal, 3); reveal_with_fuel(bh, 3); }
//@tail
    proof {
        let y = *r.left->Some_0;
        assert(nseq(y) == seq_of(y.left) + seq![(bytes(&y.key), y.value)] + seq_of(y.right));
        assert(seq_of(r.left) == nseq(y));
        assert(nseq(*r) == seq_of(r.left) + seq![(bytes(&r.key), r.value)] + seq_of(r.right));
        assert(nseq(x0) == seq_of(x0.left) + seq![(bytes(&x0.key), x0.value)] + seq_of(x0.right));
        assert(seq_of(h0.right) == nseq(x0));
        assert(nseq(h0) == seq_of(h0.left) + seq![(bytes(&h0.key), h0.value)] + seq_of(h0.right));
        assert(nseq(*r) =~= nseq(h0));
    }
//@spec
    requires red((*h).right), nvals_ok(*h)
    ensures ({
        let x = *(*h).right->Some_0;
        &&& (*r).key == x.key && (*r).value == x.value && (*r).right == x.right && (*r).color == (*h).color
        &&& (*r).left is Some
        &&& ({ let y = *(*r).left->Some_0;
            y.key == (*h).key && y.value == (*h).value && y.right == x.left && y.left == (*h).left && y.color == Color::Red && y.subtree_hash == nhash(y) })
        &&& (*r).subtree_hash == nhash(*r)
        &&& nvals_ok(*r)
        &&& nseq(*r) == nseq(*h)
    }),
        hashed((*h).left) && hashed((*h).right) ==> nhashed(*r),
        nbal(*h) ==> nbal(*r) && nbh(*r) == nbh(*h),
//@fn flip_colors C04
//@entry
    proof { reveal_with_fuel(bal, 3); reveal_with_fuel(bh, 3); }
//@spec
    requires (*old(h)).left is Some, (*old(h)).right is Some
    ensures flipped(**old(h), **final(h)),
        red((**old(h)).left) == red((**old(h)).right) && red((**old(h)).left) != ((**old(h)).color == Color::Red) ==> nbh(**final(h)) == nbh(**old(h)),
        red((**old(h)).left) == red((**old(h)).right) && nbal(**old(h)) ==> nbal(**final(h)),
//@fn balance C03 C04
//@ret r
//@entry
    proof { reveal_with_fuel(llrb, 3); reveal_with_fuel(vals_ok, 2); reveal_with_fuel(hashed, 2); }
    let ghost h0 = *h;
    broadcast use lemma_flip;
//@spec
    requires
        hashed((*h).left), hashed((*h).right), (*h).subtree_hash == nhash(*h), nvals_ok(*h), nbal(*h),
        ({ ||| (llrb((*h).left) && llrb((*h).right) && ((*h).color == Color::Red ==> !(red((*h).left) && red((*h).right))))
           ||| ((*h).color == Color::Black && weak((*h).left) && red((*h).left) && llrb((*h).right) && !red((*h).right)) })
    ensures
        nwf(*r), nseq(*r) == nseq(*h), nbh(*r) == nbh(*h),
        (*h).color == Color::Black ==> nllrb(*r),
        (*h).color == Color::Black && llrb((*h).left) && !(red((*h).left) && red((*h).right)) ==> (*r).color == Color::Black,
        (*h).color == Color::Red ==> nweak(*r) && (*r).color == Color::Red,
        (*h).color == Color::Red && !red((*h).left) && !red((*h).right) ==> nllrb(*r),
