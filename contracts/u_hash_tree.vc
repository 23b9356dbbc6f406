//@unit hash_tree
//@include lib_core.vc
//@include hash_tree.vc
//@include hash_tree_lookup.vc
//@text
} // verus!
fn main() {}
