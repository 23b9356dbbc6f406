//@unit cbor
//@include lib_core.vc
//@include hash_tree.vc
//@include std_more.vc
//@include iter.vc
//@include principal.vc
//@include nom.vc
//@include cbor.vc
//@source lib packages/ic-certification/src/lib.rs
//@include hash_tree_ctor.vc
//@include cbor_tree.vc
//@include ser.vc
//@nocontract HashTreeToCbor::from_cbor CertificateToCbor::from_cbor
//@text
} // verus!
fn main() {}
