//@unit wild
//@include lib_core.vc
//@include std_more.vc
//@include iter.vc
//@include str.vc
//@include wild.vc
//@include segs.vc
//@include path.vc
//@text
} // verus!
fn main() {}
