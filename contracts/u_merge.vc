//@unit merge
//@include lib_core.vc
//@include hash_tree.vc
//@source lib packages/ic-certification/src/lib.rs
//@source nested packages/ic-certification/src/nested_rb_tree.rs
//@include hash_tree_ctor.vc
//@include hash_tree_find.vc
//@include prune.vc
//@include merge.vc
//@text
} // verus!
fn main() {}
