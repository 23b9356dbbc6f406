//@text
// ---------------------------------------------------------------- the map as a hash tree
pub mod wit {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned};
use super::tree::*;
use super::tree2::*;
use super::ops::*;

// assumed: borrowing the whole of a vector or array gives its elements
pub broadcast axiom fn ax_cow_slice(s: &[u8]) ensures cow_bytes(#[trigger] <Cow<'_, [u8]> as FromSpec<&[u8]>>::from_spec(s)) == s@;

pub proof fn lemma_hashed<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>)
    requires hashed(n)
    ensures n is Some ==> dg(ht_of(n)) == (*n->Some_0).subtree_hash && !(ht_of(n) is Empty), n is None ==> ht_of(n) is Empty
    decreases n
{
    match n { None => {}, Some(b) => {
        lemma_hashed((*b).left);
        lemma_hashed((*b).right);
        reveal_with_fuel(dg, 3);
    } }
}
//@take rbt impl:AsHashTree:Vec<u8> impl:AsHashTree:Hash impl:AsHashTree:RbTree<K,V>
//@take rbt Node::data_tree Node::witness_tree Node::full_witness_tree Node::subtree_with
//@text
/// What a node's own entry may look like in a witness.
pub open spec fn lab_ok<K: AsRef<[u8]>, V: AsHashTree>(n: Node<K, V>, t: ST, full: bool) -> bool {
    t == ST::Labeled(bytes(&n.key), Box::new(if full { n.value.tree_spec() } else { ST::Pruned(dg(n.value.tree_spec())) }))
}
/// A function that shows the entries of nodes: with their values, or without.
pub open spec fn shows<'a, K: AsRef<[u8]> + 'a, V: AsHashTree + 'a, F: Fn(&'a Node<K, V>) -> HashTree>(f: F, full: bool) -> bool {
    &&& forall|n: &'a Node<K, V>| n.value.inv() ==> #[trigger] f.requires((n,))
    &&& forall|n: &'a Node<K, V>, r: HashTree| n.value.inv() && #[trigger] f.ensures((n,), r) ==> lab_ok(*n, tv(r.root), full)
}
pub open spec fn wt<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>, full: bool) -> ST decreases n {
    match n { None => ST::Empty, Some(b) => threew(wt((*b).left, full), ST::Labeled(bytes(&(*b).key), Box::new(if full { (*b).value.tree_spec() } else { ST::Pruned(dg((*b).value.tree_spec())) })), wt((*b).right, full)) }
}
pub proof fn lemma_wt_full<K: AsRef<[u8]>, V: AsHashTree>(n: NodeRef<K, V>)
    ensures wt(n, true) == ht_of(n)
    decreases n
{ match n { None => {}, Some(b) => { lemma_wt_full((*b).left); lemma_wt_full((*b).right); } } }
} // mod wit
//@fn Vec::AsHashTree::root_hash C03
//@entry
    broadcast use group_core;
//@fn Vec::AsHashTree::as_hash_tree C03
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn Hash::AsHashTree::root_hash C03
//@entry
    broadcast use group_core;
//@fn Hash::AsHashTree::as_hash_tree C03
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn impl:AsHashTree:Vec<u8>/*
//@spec
    open spec fn inv(&self) -> bool { true }
    open spec fn tree_spec(&self) -> ST { ST::Leaf(self@) }
//@fn impl:AsHashTree:Hash/*
//@spec
    open spec fn inv(&self) -> bool { true }
    open spec fn tree_spec(&self) -> ST { ST::Leaf(self@) }
//@fn impl:AsHashTree:RbTree<K,V>/*
//@spec
    open spec fn inv(&self) -> bool { self.rinv() }
    open spec fn tree_spec(&self) -> ST { ht_of(self.root) }
//@fn RbTree::AsHashTree::root_hash C03
//@entry
    broadcast use group_core;
    proof { lemma_hashed(self.root); }
//@fn RbTree::AsHashTree::as_hash_tree C03
//@entry
    proof { lemma_wt_full(self.root); }
//@fn Node::data_tree C03 C05
//@ret r
//@spec
    requires self.value.inv()
    ensures lab_ok(*self, tv(r.root), true)
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn Node::witness_tree C05
//@ret r
//@spec
    requires self.value.inv()
    ensures lab_ok(*self, tv(r.root), false)
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn Node::subtree_with C05
//@ret r
//@spec
    requires f.requires((&self.value,))
    ensures exists|t: HashTree| #[trigger] f.ensures((&self.value,), t) && tv(r.root) == ST::Labeled(bytes(&self.key), Box::new(tv(t.root)))
//@entry
    broadcast use group_core, group_conv;
    proof { ax_obeys(); }
//@fn Node::full_witness_tree C03 C05
//@ret r
//@spec
    requires vals_ok(*n), shows(f, true) || shows(f, false)
    ensures shows(f, true) ==> tv(r.root) == wt(*n, true), shows(f, false) ==> tv(r.root) == wt(*n, false)
    decreases *n
//@entry
    broadcast use group_core;
