//@text
pub type Certificate = super::Certificate<Vec<u8>>;
pub type LookupResult<'a> = super::LookupResult<'a>;
//@take cm validate_tree
//@take v1 validate_body
//@take v2 validate_expr_hash validate_hashes
//@take bo MAX_CHUNK_SIZE_TO_DECOMPRESS decode_body body_from_decoder
//@take ch CertificateHeader CertificateHeader::from decode_base64_header parse_int_header
//@take vr VerifiedResponse
//@take vi VerificationInfo
//@take pr MIN_VERIFICATION_VERSION MAX_VERIFICATION_VERSION verify_request_response_pair V1VerificationOpts v1_verification V2VerificationOpts v2_verification
//@text
/// The request hash under which the response is certified.
pub open spec fn rq_of(c: CelExpression, h: Option<Hash>) -> Seq<u8> { match (c, h) { (CelExpression::Default(DefaultCelExpression::Full(_)), Some(h)) => h@, _ => Seq::<u8>::empty() } }
pub open spec fn given(r: VerifiedResponse) -> VResp { VResp { status: r.status_code, headers: svs(r.headers@), body: r.body@ } }
pub open spec fn info_of(i: VerificationInfo) -> VInfo { VInfo { version: i.verification_version as nat, response: match i.response { Some(r) => Some(given(r)), None => None } } }
pub open spec fn lv(s: Seq<Label>) -> Seq<Seq<u8>> { s.map_values(|l: Label| l.0@) }
pub broadcast proof fn lemma_vec_items(s: &Vec<Vec<u8>>) ensures #[trigger] seq_bytes(IntoIterator::items(&s)) == pv(s@)
{ broadcast use group_bytes; let t = IntoIterator::items(&s); assert forall|i: int| 0 <= i < t.len() implies bytes(&#[trigger] t[i]) == s@[i]@ by { assert(bytes(&t[i]) == bytes(t[i])); } assert(seq_bytes(t) =~= pv(s@)); }
pub broadcast proof fn lemma_label_items(s: &Vec<Label>) ensures #[trigger] seq_bytes(IntoIterator::items(&s)) == lv(s@)
{ broadcast use {group_bytes, group_hash}; let t = IntoIterator::items(&s); assert forall|i: int| 0 <= i < t.len() implies bytes(&#[trigger] t[i]) == s@[i].0@ by { assert(bytes(&t[i]) == bytes(t[i])); } assert(seq_bytes(t) =~= lv(s@)); }
pub proof fn lemma_subtree_wf(p: Seq<Seq<u8>>, t: ST) requires wf_tree(t) ensures match subtree_spec(p, t) { Find::Found(s) => wf_tree(s), _ => true } decreases p.len()
{ if p.len() > 0 { lemma_found_wf(p[0], t); lemma_rel_find(p[0], flat(t)); match find(p[0], flat(t)) { Find::Found(s) => { lemma_subtree_wf(p.skip(1), s); } _ => {} } } }
pub proof fn lemma_texts_bytes(s: Seq<String>) ensures seq_bytes(s) == encs(texts(s)) { broadcast use group_str; assert(seq_bytes(s) =~= encs(texts(s))); }
//@fn validate_tree C19 C20
//@ret r
//@spec
    ensures r ==> bound(*certificate, canister_id@, tv(tree.root)),
        wf_tree(tv(certificate.tree.root)) ==> r == (lookup_spec(data_path(canister_id@), tv(certificate.tree.root)) == Look::Found(dg(tv(tree.root))@))
//@entry
    broadcast use {group_core, group_path, group_slice, group_hash};
    proof { ax_hash_obeys(); ax_slice_eq_obeys(); }
//@fn validate_body C20
//@ret r
//@spec
    ensures r ==> body_led(tv(tree.root), enc(request_path@), body_sha@), wf_tree(tv(tree.root)) ==> r == body_ok(tv(tree.root), enc(request_path@), body_sha@)
//@entry
    broadcast use {group_core, group_path, group_slice, group_hash};
    proof { ax_hash_obeys(); ax_slice_eq_obeys(); }
//@fn validate_expr_hash C19
//@ret r
//@spec
    ensures match r { Some(s) => leads_sub(seq_bytes(expr_path@).push(expr_hash@), tv(s.root), tv(tree.root)), None => true },
        wf_tree(tv(tree.root)) ==> match r { Some(s) => subtree_spec(seq_bytes(expr_path@).push(expr_hash@), tv(tree.root)) == Find::Found(tv(s.root)), None => !(subtree_spec(seq_bytes(expr_path@).push(expr_hash@), tv(tree.root)) is Found) }
//@entry
    broadcast use {group_core, lemma_vec_items, group_hash};
    proof { ax_hash_obeys(); }
//@before `match tree.lookup_subtree(&path)`
    assert(pv(path@) =~= seq_bytes(expr_path@).push(expr_hash@));
//@fn validate_hashes C19
//@ret r
//@spec
    ensures r ==> pair_led(seq_bytes(expr_path@), expr_hash@, rq_of(*certification, *request_hash), response_hash@, tv(tree.root)),
        wf_tree(tv(tree.root)) ==> r == pair_at(seq_bytes(expr_path@), expr_hash@, rq_of(*certification, *request_hash), response_hash@, tv(tree.root))
//@entry
    broadcast use {group_core, group_hash, lemma_label_items};
    proof { assert(enc(""@) =~= Seq::<u8>::empty()) by { lemma_ends(); lemma_segments(); } }
//@before `match expr_tree.lookup_subtree(&expr_tree_path)`
    assert(lv(expr_tree_path@) =~= seq![rq_of(*certification, *request_hash), response_hash@]);
    proof { lemma_segments(); if wf_tree(tv(tree.root)) { lemma_subtree_wf(seq_bytes(expr_path@).push(expr_hash@), tv(tree.root)); } assert("".spec_bytes() =~= Seq::<u8>::empty()); assert(is_bytes::<u8>()) by { ax_is_bytes(Seq::<u8>::empty()); } }
    assert(leads_sub(seq_bytes(expr_path@).push(expr_hash@), tv(expr_tree.root), tv(tree.root)));
//@fn body_from_decoder C27
//@ret r
//@attrs
#[verifier::loop_isolation(false)]
//@spec
    ensures match r { Ok(b) => !decoder.fails() && b@ == decoder.rest(), Err(_) => decoder.fails() }
//@entry
    let ghost all = decoder.rest();
    let ghost bad = decoder.fails();
//@loop 0
    invariant decoded@ + decoder.rest() == all, decoder.fails() == bad
    decreases decoder.rest().len()
//@loopentry 0
    let ghost before = decoder.rest();
    let ghost had = decoded@;
//@after `decoded.extend_from_slice(&buffer[..bytes]);`
    assert(decoded@ =~= had + before.take(bytes as int));
    assert(before =~= before.take(bytes as int) + decoder.rest());
    assert(decoded@ + decoder.rest() =~= had + before);
//@before `return Ok(decoded);`
    assert(decoder.rest() =~= Seq::<u8>::empty());
    assert(decoded@ =~= all);
//@fn decode_body C27 C20
//@ret r
//@spec
    ensures match r { Ok(b) => decoded(body@, match encoding { Some(e) => Some(e@), None => None }) == Some(b@), Err(_) => decoded(body@, match encoding { Some(e) => Some(e@), None => None }) is None }
//@entry
    broadcast use ax_str_ext;
    proof { reveal_strlit("gzip"); reveal_strlit("deflate"); }
//@fn decode_base64_header C22
//@ret r
//@spec
    ensures match r { Ok(b) => b64(value@) == Some(b@), Err(_) => b64(value@) is None }
//@fn parse_int_header C22 C26
//@ret r
//@spec
    ensures match r { Ok(v) => u8_of(value@) == Some(v), Err(_) => u8_of(value@) is None }
//@fn CertificateHeader::from C22 C26
//@ret r
//@opt inline-it
//@spec
    ensures match r {
        Ok(h) => header_says(split_at(header_value@, ','), h.certificate, h.tree, h.version, match h.expr_path { Some(p) => Some(texts(p@)), None => None }),
        Err(_) => { let f = split_at(header_value@, ','); cert_field(f) is None || tree_field(f) is None || malformed(f) },
    }
//@entry
    broadcast use ax_str_ext;
    proof { reveal_strlit("certificate"); reveal_strlit("tree"); reveal_strlit("version"); reveal_strlit("expr_path"); }
    let ghost f = split_at(header_value@, ',');
//@loop 0
    invariant 0 <= rv_i0 <= rv_v0@.len(), strs(rv_v0@) == f, f == split_at(header_value@, ','), read_so_far(f.take(rv_i0 as int), certificate, tree, version, expr_path)
    decreases rv_v0@.len() - rv_i0
//@loopentry 0
    broadcast use ax_str_ext;
    let ghost k = rv_i0 as int;
    proof {
        reveal_strlit("certificate"); reveal_strlit("tree"); reveal_strlit("version"); reveal_strlit("expr_path");
        let g = f.take(k);
        assert(g.drop_last() =~= f.take(k - 1)); assert(g.last() == f[k - 1]); assert(f[k - 1] == field@);
        if malformed(g) { lemma_malformed_grows(f, k); }
    }
//@before `let certificate = certificate.ok_or(ResponseVerificationError::MissingCertificate)?;`
    assert(f.take(f.len() as int) =~= f);

//@fn v1_verification C20 C21 C27
//@ret r
//@spec
    requires rv_p0.canister_id@.len() <= 29
    ensures r is Ok ==> tree_backed(rv_p0.certificate, tv(rv_p0.tree.root), rv_p0.canister_id@, rv_p0.ic_public_key@, rv_p0.current_time_ns, rv_p0.max_cert_time_offset_ns)
            && req_path(rv_p0.request) is Some && v1_body(tv(rv_p0.tree.root), enc(req_path(rv_p0.request)->0), cv(rv_p0.response.body), match rv_p0.encoding { Some(e) => Some(e@), None => None })
            && v1_out(info_of(r->Ok_0), cv(rv_p0.response.body))
//@entry
    broadcast use {group_core, group_string};
    proof { ax_string_obeys(); ax_hash_obeys(); }
//@tail
    proof { match &r { Ok(i) => { match &i.response { Some(x) => { assert(svs(x.headers@) =~= Seq::<(Seq<char>, Seq<char>)>::empty()); assert(is_bytes::<u8>()) by { ax_is_bytes(x.body@); } assert(x.body@ =~= cv(response.body)); } None => {} } } Err(_) => {} } }
//@fn v2_verification C19 C21
//@ret r
//@spec
    requires rv_p0.canister_id@.len() <= 29
    ensures r is Ok ==> tree_backed(rv_p0.certificate, tv(rv_p0.tree.root), rv_p0.canister_id@, rv_p0.ic_public_key@, rv_p0.current_time_ns, rv_p0.max_cert_time_offset_ns)
            && v2_backed(seq_bytes(rv_p0.expr_path@), rv_p0.expr_hash@, rv_p0.certification, tv(rv_p0.tree.root), rv_p0.request, rv_p0.response)
            && v2_out(info_of(r->Ok_0), rv_p0.certification, rv_p0.response)
//@closure 0
 -> (h: Result<Hash, HttpCertificationError>) ensures match h { Ok(h) => uri_of(request.url@) is Some && h == req_hash(request, **request_certification), Err(_) => uri_of(request.url@) is None }
//@entry
    broadcast use {group_core, group_string};
    proof { ax_string_obeys(); ax_hash_obeys(); }
//@tail
    proof { match &r { Ok(i) => { match &i.response { Some(x) => { assert(svs(x.headers@) =~= resp_hdrs(response.headers@, resp_sel(certification)).push(("IC-Certificate"@, cert_hdr(response.headers@)->0))); assert(is_bytes::<u8>()) by { ax_is_bytes(x.body@); } assert(x.body@ =~= cv(response.body)); } None => {} } } Err(_) => {} } }
//@fn verify_request_response_pair C19 C20 C21 C22 C26 C27
//@ret r
//@spec
    requires canister_id@.len() <= 29
    ensures r is Ok ==> verified(request, response, canister_id@, current_time_ns, max_cert_time_offset_ns, ic_public_key@, min_requested_verification_version, info_of(r->Ok_0))
//@entry
    broadcast use {group_core, group_string};
    proof { ax_string_obeys(); ax_hash_obeys(); }
//@closure 0
 -> (e: (String, String)) ensures e.0@ == ulow(_p0.0@), e.1@ == _p0.1@
//@closure 1
 -> (e: &str) ensures e@ == encoding@
//@before `let Some(certificate_header_str)`
    proof { assert(lowered(response.headers@, headers.e@)); lemma_lowered(response.headers@, headers.e@, ulow("IC-Certificate"@)); lemma_lowered(response.headers@, headers.e@, ulow("IC-CertificateExpression"@)); lemma_lowered(response.headers@, headers.e@, "content-encoding"@); }
//@before `let cel_ast = parse_cel_expression`
    proof { lemma_texts_bytes(expr_path@); }
//@before `v2_verification(V2VerificationOpts {`##0
    assert(means(certificate_expression_header@, certification));
    assert(expr_hash == sha256(enc(certificate_expression_header@)));
    assert(encs(path_field(split_at(certificate_header_str@, ','))->0->0) == seq_bytes(expr_path@));
    assert(header_val(response.headers@, ulow("IC-CertificateExpression"@)) == Some(certificate_expression_header@));
    assert(means(header_val(response.headers@, ulow("IC-CertificateExpression"@))->0, certification));
