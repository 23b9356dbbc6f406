//@source ht packages/ic-certification/src/hash_tree/mod.rs
//@derive Label
//@derive HashTree
//@derive HashTreeNode
//@derive LookupResult
//@derive SubtreeLookupResult
//@text
// ---------------------------------------------------------------- the mathematical hash tree
/// What a hash tree is, with byte strings in place of the storage type.
pub enum ST { Empty, Fork(Box<ST>, Box<ST>), Labeled(Seq<u8>, Box<ST>), Leaf(Seq<u8>), Pruned(Hash) }

pub open spec fn tv<S: AsRef<[u8]>>(n: HashTreeNode<S>) -> ST decreases n {
    match n {
        HashTreeNode::Empty() => ST::Empty,
        HashTreeNode::Fork(b) => ST::Fork(Box::new(tv((*b).0)), Box::new(tv((*b).1))),
        HashTreeNode::Labeled(l, t) => ST::Labeled(bytes(&l.0), Box::new(tv(*t))),
        HashTreeNode::Leaf(v) => ST::Leaf(bytes(&v)),
        HashTreeNode::Pruned(h) => ST::Pruned(h),
    }
}
/// Domain separator of the IC interface specification: one length byte, then the name.
pub open spec fn dom(s: &str) -> Seq<u8> { seq![s.spec_bytes().len() as u8] + s.spec_bytes() }

/// reconstruct(tree) of the IC interface specification.
pub open spec fn dg(t: ST) -> Hash decreases t {
    match t {
        ST::Empty => sha256(dom("ic-hashtree-empty")),
        ST::Fork(a, b) => h_fork(dg(*a), dg(*b)),
        ST::Labeled(l, c) => h_labeled(l, dg(*c)),
        ST::Leaf(v) => h_leaf(v),
        ST::Pruned(h) => h,
    }
}
pub open spec fn h_fork(a: Hash, b: Hash) -> Hash { sha256(dom("ic-hashtree-fork") + a@ + b@) }
pub open spec fn h_labeled(l: Seq<u8>, h: Hash) -> Hash { sha256(dom("ic-hashtree-labeled") + l + h@) }
pub open spec fn h_leaf(v: Seq<u8>) -> Hash { sha256(dom("ic-hashtree-leaf") + v) }

//@take ht Hash Label HashTreeNode HashTree
//@take ht Label::as_bytes HashTreeNode::domain_sep HashTreeNode::digest HashTree::digest fork_hash leaf_hash labeled_hash domain_sep
//@fn Label::as_bytes C01
//@ret r
//@spec
    ensures r@ == bytes(&self.0)
//@fn HashTreeNode::domain_sep C01
//@spec
    ensures final(hasher)@ == old(hasher)@ + (match *self {
        HashTreeNode::Empty() => dom("ic-hashtree-empty"),
        HashTreeNode::Fork(_) => dom("ic-hashtree-fork"),
        HashTreeNode::Labeled(_, _) => dom("ic-hashtree-labeled"),
        HashTreeNode::Leaf(_) => dom("ic-hashtree-leaf"),
        HashTreeNode::Pruned(_) => Seq::<u8>::empty(),
    })
//@entry
    broadcast use group_core, group_slice;
//@fn HashTreeNode::digest C01
//@ret r
//@spec
    ensures r == dg(tv(*self))
    decreases self
//@entry
    broadcast use group_core, group_slice;
//@fn HashTree::digest C01
//@ret r
//@spec
    ensures r == dg(tv(self.root))
//@fn fork_hash C01
//@ret res
//@spec
    ensures res == h_fork(*l, *r)
//@entry
    broadcast use group_core, group_slice;
//@fn leaf_hash C01
//@ret r
//@spec
    ensures r == h_leaf(data@)
//@entry
    broadcast use group_core, group_slice;
//@fn labeled_hash C01
//@ret r
//@spec
    ensures r == h_labeled(label@, *content_hash)
//@entry
    broadcast use group_core, group_slice;
//@fn domain_sep C01
//@ret r
//@spec
    ensures r@ == dom(s)
//@entry
    broadcast use group_core, group_slice;
