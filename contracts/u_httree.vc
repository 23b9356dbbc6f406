//@unit httree
//@include lib_core.vc
//@include hash_tree.vc
//@source lib packages/ic-certification/src/lib.rs
//@include hash_tree_ctor.vc
//@include rb_node.vc
//@include rb_map.vc
//@include rb_ops.vc
//@include rb_tree_ht.vc
//@include hash_tree_find.vc
//@include prune.vc
//@include rb_wit.vc
//@include nested.vc
//@include merge.vc
//@include std_more.vc
//@include iter.vc
//@include str.vc
//@text
pub mod web {
use super::*;
//@include wild.vc
//@include segs.vc
//@include path.vc
//@include cert_path.vc
//@text
use super::nest::*;
//@include tree_entry.vc
//@include httree.vc
//@text
} // mod web
//@text
} // verus!
fn main() {}
