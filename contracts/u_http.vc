//@unit http
//@include lib_core.vc
//@include std_more.vc
//@include iter.vc
//@include str.vc
//@include rih.vc
//@text
pub type Hash = [u8; 32];
//@include http_types.vc
//@include http_hash.vc
//@include cel_create.vc
//@include cel_build.vc
//@include cert_path.vc
//@include http_cert.vc
//@text
} // verus!
fn main() {}
