//@unit nested
//@include lib_core.vc
//@include hash_tree.vc
//@source lib packages/ic-certification/src/lib.rs
//@include hash_tree_ctor.vc
//@include rb_node.vc
//@include rb_map.vc
//@include rb_ops.vc
//@include rb_tree_ht.vc
//@include hash_tree_find.vc
//@include prune.vc
//@include rb_wit.vc
//@include nested.vc
//@text
} // verus!
fn main() {}
