//@source hce packages/ic-http-certification/src/tree/certification.rs
//@derive HttpCertificationType Clone, Copy
//@derive HttpCertification Clone, Copy
//@text
// ---------------------------------------------------------------- the path of a certification
/// The path of a certification in the tree, below its request path: the hash of the expression, of the request (or empty) and of the response.
pub open spec fn cert_path(c: HttpCertificationType) -> Seq<Seq<u8>> {
    match c {
        HttpCertificationType::Skip { cel_expr_hash } => seq![cel_expr_hash@],
        HttpCertificationType::ResponseOnly { cel_expr_hash, response_hash } => seq![cel_expr_hash@, Seq::<u8>::empty(), response_hash@],
        HttpCertificationType::Full { cel_expr_hash, request_hash, response_hash } => seq![cel_expr_hash@, request_hash@, response_hash@],
    }
}
pub open spec fn bvs(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }
//@take hce HttpCertificationType HttpCertification HttpCertification::to_tree_path
//@fn HttpCertification::to_tree_path C23 C17
//@ret r
//@spec
    ensures bvs(r@) == cert_path(self.0)
//@entry
    broadcast use {group_core, ax_is_bytes_u8};
    proof { reveal_strlit(""); vstd::utf8::is_ascii_chars_encode_utf8(""@); }
//@tail
    assert(bvs(r@) =~= cert_path(self.0));
