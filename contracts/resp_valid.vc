//@source v2 packages/ic-response-verification/src/validation/v2_validation.rs
//@source v1 packages/ic-response-verification/src/validation/v1_validation.rs
//@source cm packages/ic-response-verification/src/validation/common_validation.rs
//@source re packages/ic-response-verification/src/error.rs
//@derive ResponseVerificationError
//@itemattr ResponseVerificationError #[allow(inconsistent_fields)]
//@gsubst `.iter()` => `.it()`
//@gsubst `String::from_utf8_lossy(` => `lossy(`
//@text
pub mod cel { use super::*; #[verifier::external_body] pub struct CelParserError { x: u8 } }
pub mod base64 { use super::*; #[verifier::external_body] pub struct DecodeError { x: u8 } }
pub mod ic_cbor { use super::*; #[verifier::external_body] pub struct CborError { x: u8 } }
pub mod ic_certificate_verification { use super::*; #[verifier::external_body] pub struct CertificateVerificationError { x: u8 } }
pub mod ic_http_certification { pub use super::HttpCertificationError; }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
//@take re ResponseVerificationResult ResponseVerificationError
//@text
pub broadcast axiom fn ax_vec_vec_eq(a: Vec<Vec<u8>>, b: Vec<Vec<u8>>) ensures #[trigger] <Vec<Vec<u8>> as PartialEqSpec<Vec<Vec<u8>>>>::eq_spec(&a, &b) == (pv(a@) == pv(b@));
pub axiom fn ax_vec_vec_obeys() ensures <Vec<Vec<u8>> as PartialEqSpec<Vec<Vec<u8>>>>::obeys_eq_spec();
impl SegSlice<String> for [String] {
    #[verifier::external_body]
    fn has_prefix(&self, o: &[String]) -> (r: bool) ensures r == is_pre(seq_bytes(o@), seq_bytes(self@)) { unimplemented!() }
    #[verifier::external_body]
    fn has_suffix(&self, o: &[String]) -> (r: bool) ensures r == is_suf(seq_bytes(o@), seq_bytes(self@)) { unimplemented!() }
}
/// How the subtree lookup answers.
pub open spec fn there(p: Seq<Seq<u8>>, t: ST) -> bool { subtree_spec(p, t) is Found }
pub open spec fn maybe(p: Seq<Seq<u8>>, t: ST) -> bool { !(subtree_spec(p, t) is Absent) }
/// An expression path e is valid for request segments q in tree t.
pub open spec fn expr_ok(e: Seq<Seq<u8>>, q: Seq<Seq<u8>>, t: ST) -> bool {
    let exact = with_prefix(q).push(s_exact());
    &&& e.len() > 0 && e[0] == s_prefix() && (e.last() == s_exact() || e.last() == s_wild())
    &&& if e == exact { there(e, t) } else {
        &&& e.last() == s_wild()
        &&& !maybe(exact, t)
        &&& matches_path(e.drop_last(), with_prefix(q))
        &&& forall|i: int| #![trigger more_specific(bare(exact), bare(e))[i]] 0 <= i < more_specific(bare(exact), bare(e)).len() ==> !maybe(with_prefix(more_specific(bare(exact), bare(e))[i]), t)
        &&& there(e, t)
    }
}
pub broadcast proof fn lemma_items(s: &[Vec<u8>]) ensures #[trigger] seq_bytes(IntoIterator::items(&s)) == pv(s@)
{ broadcast use group_bytes; let t = IntoIterator::items(&s); assert forall|i: int| 0 <= i < t.len() implies bytes(&#[trigger] t[i]) == s@[i]@ by { assert(bytes(&t[i]) == bytes(t[i])); } assert(seq_bytes(t) =~= pv(s@)); }
//@text
pub mod vv { use super::*;
pub type HashTree = super::HashTree<Vec<u8>>;
pub type Label = super::Label<Vec<u8>>;
pub type SubtreeLookupResult = super::SubtreeLookupResult<Vec<u8>>;
//@take v2 path_from_parts path_might_exist_in_tree path_exists_in_tree expr_path_has_valid_suffix expr_path_has_valid_prefix validate_expr_path
//@fn path_from_parts C19
//@ret r
//@spec
    ensures pv(r@) == seq_bytes(parts@)
//@closure 0
 -> (v: Vec<u8>) ensures v@ == bytes(p)
//@entry
    broadcast use {group_seg, group_core};
//@opt tail-type
//@tail
    assert(pv(r@) =~= seq_bytes(parts@));
//@fn path_might_exist_in_tree C19
//@ret r
//@spec
    ensures wf_tree(tv(tree.root)) ==> r == maybe(pv(path@), tv(tree.root))
//@entry
    broadcast use {group_core, lemma_items};
//@fn path_exists_in_tree C19
//@ret r
//@spec
    ensures wf_tree(tv(tree.root)) ==> r == there(pv(path@), tv(tree.root))
//@entry
    broadcast use {group_core, lemma_items};
//@fn expr_path_has_valid_suffix C19
//@ret r
//@spec
    ensures r == (expr_path@.len() > 0 && (bytes(&expr_path@.last()) == s_exact() || bytes(&expr_path@.last()) == s_wild()))
//@entry
    broadcast use {group_core, group_str};
    proof { lemma_ends(); lemma_segments(); }
//@fn expr_path_has_valid_prefix C19
//@ret r
//@spec
    ensures r == (expr_path@.len() > 0 && bytes(&expr_path@[0]) == s_prefix())
//@entry
    broadcast use {group_core, group_str};
    proof { lemma_ends(); }
//@fn validate_expr_path C19 C18
//@ret r
//@spec
    ensures wf_tree(tv(tree.root)) ==> (r is Ok <==> expr_ok(seq_bytes(expr_path@), url_segs(request_path@), tv(tree.root)))
//@closure 0
 -> (b: bool) ensures b == (e@.len() > 0)
//@entry
    broadcast use {group_core, group_str, group_seg, ax_vec_from_slice, ax_vec_from_str, ax_vec_vec_eq, ax_strs_enc};
    proof { ax_obeys(); ax_vec_vec_obeys(); lemma_segments(); lemma_ends(); lemma_plist(); lemma_url_parts(request_path@); }
    let ghost t = tv(tree.root);
    let ghost e = seq_bytes(expr_path@);
    let ghost q = url_segs(request_path@);
    let ghost exact = with_prefix(q).push(s_exact());
    let ghost ms = more_specific(bare(exact), bare(e));
//@before `let original_path = path_from_parts(expr_path);`
    let ghost sp = request_url_parts@;
    assert(sp[0]@ == "http_expr"@);
    assert(strs(sp.skip(1)) =~= keep(split_at(request_path@, '/'), nonempty()) || request_path@.last() == '/' && strs(sp.skip(1)) =~= keep(split_at(request_path@, '/'), nonempty()).push(""@));
    assert(encs(strs(sp)) =~= with_prefix(q));
//@before `if original_path.eq(&request_url_path) {`
    assert(pv(request_url_path@) =~= exact);
    assert(pv(original_path@) =~= e);
//@before `let mut potential_path = original_path.clone();`
    assert(pv(request_url_segments@) =~= with_prefix(q));
//@before `if !is_wildcard_path_valid_for_request_path(&potential_path, request_url_segments) {`
    assert(pv(potential_path@) =~= e.drop_last());
//@loop 0
    invariant exact == with_prefix(q).push(s_exact()), ms == more_specific(bare(exact), bare(e)), e != exact, e == seq_bytes(expr_path@), q == url_segs(request_path@), wf_tree(t) ==> forall|j: int| 0 <= j < rv_i0 ==> !maybe(with_prefix(#[trigger] ms[j]), t), t == tv(tree.root),
        rv_i0 <= rv_v0@.len() == ms.len(), forall|j: int| #![trigger ms[j]] #![trigger rv_v0@[j]] rv_i0 <= j < ms.len() ==> pv(rv_v0@[j]@) == ms[j],
    decreases rv_v0@.len() - rv_i0
//@loopentry 0
    broadcast use {group_core, group_seg};
    let ghost k = rv_i0 - 1;
    proof { lemma_plist(); assert(pv(wildcard_path@) == ms[k]); }
//@after `wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());`
        assert(pv(wildcard_path@) =~= with_prefix(ms[k]));
        assert(wf_tree(t) && maybe(with_prefix(ms[k]), t) ==> !expr_ok(e, q, t));
