//@unit cert
//@include lib_core.vc
//@include hash_tree.vc
//@include hash_tree_lookup.vc
//@include std_more.vc
//@include iter.vc
//@include principal.vc
//@include leb128.vc
//@include cert.vc
//@text
} // verus!
fn main() {}
