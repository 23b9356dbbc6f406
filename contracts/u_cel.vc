//@unit cel
//@include lib_core.vc
//@include std_more.vc
//@include iter.vc
//@include str.vc
//@include rih.vc
//@text
pub type Hash = [u8; 32];
//@include http_types.vc
//@include cel_create.vc
//@include cel_build.vc
//@include cel_map.vc
//@include run.vc
//@include nom_text.vc
//@include cel_parse.vc
//@include cel_read.vc
//@text
} // verus!
fn main() {}
