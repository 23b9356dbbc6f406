//@unit asset
//@include lib_core.vc
//@include std_more.vc
//@include iter.vc
//@include str.vc
//@include rih.vc
//@text
pub type Hash = [u8; 32];
//@include http_types.vc
//@include http_hash.vc
//@include cel_create.vc
//@include cel_build.vc
//@include wild.vc
//@include segs.vc
//@include path.vc
//@include cert_path.vc
//@include http_cert.vc
//@text
pub type Path = Seq<Seq<u8>>;
//@include tree_entry.vc
//@include http_build.vc
//@include asset_spec.vc
//@include asset_prep.vc
//@include asset_ops.vc
//@include asset_static.vc
//@include asset_impl.vc
//@include asset_batch.vc
//@include asset_serve.vc
//@include asset_scope.vc
//@include asset_seal.vc
//@text
} // verus!
fn main() {}
