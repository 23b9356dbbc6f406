//@unit resp
//@include lib_core.vc
//@include hash_tree.vc
//@include hash_tree_lookup.vc
//@include std_more.vc
//@include iter.vc
//@include str.vc
//@include wild.vc
//@include segs.vc
//@include rih.vc
//@include http_types.vc
//@include http_hash.vc
//@include run.vc
//@include field_spec.vc
//@include verify_spec.vc
//@include resp_valid.vc
//@include verify.vc
//@text
}
} // verus!
fn main() {}
