//@text
// ---------------------------------------------------------------- certifications
impl DefaultResponseOnlyCelExpression<'_> { fn to_string(&self) -> (r: String) ensures r@ == resp_only_text(self.response.0) { create_default_response_only_cel_expr(self) } }
impl DefaultFullCelExpression<'_> { fn to_string(&self) -> (r: String) ensures r@ == full_text(self.request, self.response.0) { create_default_full_cel_expr(self) } }
impl CelExpression<'_> { fn to_string(&self) -> (r: String) ensures r@ == cel_text(self->Default_0) { create_cel_expr(self) } }
/// assumed: no other text has the Unicode lower case of the expression header's name than those with its ASCII lower case
pub broadcast axiom fn ax_ulow(n: Seq<char>) ensures (#[trigger] ulow(n) == ulow("IC-CertificateExpression"@)) <==> is_expr_hdr(n);
/// There is exactly one expression header and it has this value.
pub open spec fn expr_hdrs(hs: Seq<(String, String)>) -> Seq<Seq<char>> decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else { let r = expr_hdrs(hs.drop_last()); if is_expr_hdr(hs.last().0@) { r.push(hs.last().1@) } else { r } }
}
pub proof fn lemma_expr_prefix(hs: Seq<(String, String)>, n: int) requires 0 <= n <= hs.len()
    ensures expr_hdrs(hs.take(n)).len() <= expr_hdrs(hs).len(), forall|i: int| 0 <= i < expr_hdrs(hs.take(n)).len() ==> expr_hdrs(hs.take(n))[i] == expr_hdrs(hs)[i] decreases hs.len()
{
    if n < hs.len() { lemma_expr_prefix(hs.drop_last(), n); assert(hs.drop_last().take(n) =~= hs.take(n)); } else { assert(hs.take(n) =~= hs); }
}
pub open spec fn body_hash(r: HttpResponse, o: Option<Hash>) -> Hash { match o { Some(h) => h, None => sha256(cv(r.body)) } }
//@take hce HttpCertification::skip HttpCertification::response_only HttpCertification::full HttpCertification::validate_response
//@fn HttpCertification::skip C14 C23
//@ret r
//@spec
    ensures r.0 == (HttpCertificationType::Skip { cel_expr_hash: sha256(enc(skip_text())) })
//@fn HttpCertification::validate_response C23
//@ret r
//@opt inline-slice
//@spec
    ensures r is Ok <==> expr_hdrs(response.headers@) == seq![cel_expr@]
//@entry
    broadcast use {group_string, ax_ulow};
    proof { ax_string_obeys(); }
//@loop 0
    invariant rv_i0 <= rv_v0.len(), rv_v0@ == response.headers@, expr_hdrs(response.headers@.take(rv_i0 as int)) == if found_header { seq![cel_expr@] } else { Seq::<Seq<char>>::empty() }
    decreases rv_v0.len() - rv_i0
//@loopentry 0
    broadcast use {group_string, ax_ulow};
    proof { ax_string_obeys(); let k = rv_i0 as int; assert(response.headers@.take(k).drop_last() =~= response.headers@.take(k - 1)); lemma_expr_prefix(response.headers@, k); let h = response.headers@[k - 1]; if is_expr_hdr(h.0@) { let e = expr_hdrs(response.headers@.take(k)); assert(e.last() == h.1@); assert(expr_hdrs(response.headers@)[e.len() - 1] == h.1@); } }
//@loopend 0
    proof { let k = rv_i0 as int; assert(expr_hdrs(response.headers@.take(k)) =~= if found_header { seq![cel_expr@] } else { Seq::<Seq<char>>::empty() }); }
//@before `if found_header {`##1
    assert(response.headers@.take(response.headers@.len() as int) =~= response.headers@);
//@fn HttpCertification::response_only C15 C23
//@ret r
//@spec
    ensures match r {
        Ok(c) => expr_hdrs(response.headers@) == seq![resp_only_text(cel_expr_def.response.0)]
            && c.0 == (HttpCertificationType::ResponseOnly { cel_expr_hash: sha256(enc(resp_only_text(cel_expr_def.response.0))), response_hash: resp_hash(*response, cel_expr_def.response.0, body_hash(*response, response_body_hash)) }),
        Err(_) => expr_hdrs(response.headers@) != seq![resp_only_text(cel_expr_def.response.0)],
    }
//@fn HttpCertification::full C14 C15 C23
//@ret r
//@spec
    ensures match r {
        Ok(c) => expr_hdrs(response.headers@) == seq![full_text(cel_expr_def.request, cel_expr_def.response.0)] && uri_of(request.url@) is Some
            && c.0 == (HttpCertificationType::Full { cel_expr_hash: sha256(enc(full_text(cel_expr_def.request, cel_expr_def.response.0))), request_hash: req_hash(*request, cel_expr_def.request), response_hash: resp_hash(*response, cel_expr_def.response.0, body_hash(*response, response_body_hash)) }),
        Err(_) => expr_hdrs(response.headers@) != seq![full_text(cel_expr_def.request, cel_expr_def.response.0)] || uri_of(request.url@) is None,
    }
