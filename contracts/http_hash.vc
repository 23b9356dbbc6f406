//@source rqh packages/ic-http-certification/src/hash/request_hash.rs
//@source rsh packages/ic-http-certification/src/hash/response_hash.rs
//@derive ResponseHeaders
//@text
// ---------------------------------------------------------------- request and response hashes
/// Order does not matter for the hash of a map.
pub proof fn lemma_ms_map<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    requires a.to_multiset() == b.to_multiset() ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset() decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    if a.len() == 0 { assert(a.map_values(f) =~= b.map_values(f)); } else {
        let x = a.last();
        assert(a.to_multiset().count(x) > 0);
        assert(b.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let a2 = a.drop_last(); let b2 = b.remove(i);
        assert(a2 =~= a.remove(a.len() - 1));
        assert(a2.to_multiset() =~= a.to_multiset().remove(x));
        assert(b2.to_multiset() =~= b.to_multiset().remove(x));
        lemma_ms_map(a2, b2, f);
        assert(a.map_values(f).remove(a.len() - 1) =~= a2.map_values(f));
        assert(b.map_values(f).remove(i) =~= b2.map_values(f));
        assert(a.map_values(f).to_multiset().remove(f(x)) =~= b.map_values(f).to_multiset().remove(f(x)));
        assert(a.map_values(f).contains(f(x))) by { assert(a.map_values(f)[a.len() - 1] == f(x)); }
        assert(b.map_values(f).contains(f(x))) by { assert(b.map_values(f)[i] == f(x)); }
        assert(a.map_values(f).to_multiset() =~= a.map_values(f).to_multiset().remove(f(x)).insert(f(x)));
        assert(b.map_values(f).to_multiset() =~= b.map_values(f).to_multiset().remove(f(x)).insert(f(x)));
    }
}
pub proof fn lemma_hp_total() ensures vstd::relations::total_ordering(hp_leq())
{
    broadcast use group_lex;
    let l = hp_leq();
    assert(vstd::relations::reflexive(l));
    assert forall|a: HP, b: HP| #[trigger] l(a, b) && #[trigger] l(b, a) implies a == b by { }
    assert(vstd::relations::antisymmetric(l));
    assert forall|a: HP, b: HP, c: HP| #[trigger] l(a, b) && #[trigger] l(b, c) implies l(a, c) by { lemma_lexc_trans(a.0, b.0, c.0); if a.0 == b.0 && b.0 == c.0 { lemma_lexc_trans(a.1, b.1, c.1); } }
    assert(vstd::relations::transitive(l));
    assert forall|a: HP, b: HP| #[trigger] l(a, b) || #[trigger] l(b, a) by { }
    assert(vstd::relations::strongly_connected(l));
}
/// C08: the hash of a map does not depend on the order of its entries.
pub proof fn lemma_rih_order(a: Seq<(Seq<char>, Hash)>, b: Seq<(Seq<char>, Hash)>)
    requires a.to_multiset() == b.to_multiset() ensures rih(a) == rih(b)
{
    let f = |e: (Seq<char>, Hash)| hpair(e);
    lemma_ms_map(a, b, f);
    lemma_hp_total();
    hpairs(a).lemma_sort_by_ensures(hp_leq());
    hpairs(b).lemma_sort_by_ensures(hp_leq());
    vstd::seq_lib::lemma_sorted_unique(hpairs(a).sort_by(hp_leq()), hpairs(b).sort_by(hp_leq()), hp_leq());
}
pub open spec fn hstr(s: Seq<char>) -> Hash { sha256(enc(s)) }
pub open spec fn hnum(n: nat) -> Hash { sha256(leb_of(n)) }
/// The name is on the list, ASCII case aside.
pub open spec fn listed(names: Seq<&str>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && low(#[trigger] names[i]@) == low(n) }
/// The request headers that are certified.
pub open spec fn req_ents(hs: Seq<(String, String)>, names: Seq<&str>) -> Seq<(Seq<char>, Hash)> decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else { let r = req_ents(hs.drop_last(), names); if listed(names, hs.last().0@) { r.push((low(hs.last().0@), hstr(hs.last().1@))) } else { r } }
}
/// The certified query parameters, in order, with everything between the separators kept as it is.
pub open spec fn kept_query(q: Seq<char>, params: Seq<&str>) -> Seq<char> { joined(keep(split_at(q, '&'), param_in(params)), seq!['&']) }
pub open spec fn param_in(params: Seq<&str>) -> spec_fn(Seq<char>) -> bool { |f: Seq<char>| listed(params, split_at(f, '=')[0]) }
pub open spec fn req_map(q: HttpRequest, c: DefaultRequestCertification) -> Seq<(Seq<char>, Hash)> {
    let m = req_ents(q.headers@, cv(c.headers)).push((":ic-cert-method"@, hstr(q.method.0@)));
    match uri_of(q.url@)->0.query { Some(s) => m.push((":ic-cert-query"@, hstr(kept_query(s, cv(c.query_parameters))))), None => m }
}
pub open spec fn req_hash(q: HttpRequest, c: DefaultRequestCertification) -> Hash { sha256(rih(req_map(q, c))@ + sha256(cv(q.body))@) }
pub broadcast proof fn lemma_split_first(s: Seq<char>, c: char) ensures #[trigger] split_at(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { lemma_split_first(s.drop_last(), c); } }
pub proof fn lemma_keep_strs(t: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool)
    ensures forall|s: Seq<&str>, f: spec_fn(&str) -> bool| #![trigger strs(s), keep(s, f)] strs(s) == t && (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == p(s[i]@)) ==> strs(keep(s, f)) == keep(t, p)
{
    assert forall|s: Seq<&str>, f: spec_fn(&str) -> bool| #![trigger strs(s), keep(s, f)] strs(s) == t && (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == p(s[i]@)) implies strs(keep(s, f)) == keep(t, p) by {
        let g = |x: &str| x@;
        lemma_keep_map(s, g, p);
        lemma_keep_same(s, f, |x: &str| p(g(x)));
        assert(strs(s) =~= s.map_values(g)); assert(strs(keep(s, f)) =~= keep(s, f).map_values(g));
    }
}
pub open spec fn is_cert_hdr(n: Seq<char>) -> bool { low(n) == low("IC-Certificate"@) }
pub open spec fn is_expr_hdr(n: Seq<char>) -> bool { low(n) == low("IC-CertificateExpression"@) }
pub open spec fn chosen(c: DefaultResponseCertificationType, n: Seq<char>) -> bool {
    match c { DefaultResponseCertificationType::CertifiedResponseHeaders(l) => listed(cv(l), n), DefaultResponseCertificationType::ResponseHeaderExclusions(l) => !listed(cv(l), n) }
}
pub open spec fn certified(c: DefaultResponseCertificationType, n: Seq<char>) -> bool { !is_cert_hdr(n) && (is_expr_hdr(n) || chosen(c, n)) }
/// The response headers that are certified: never the certificate, always the expression, the others as the expression says.
pub open spec fn resp_hdrs(hs: Seq<(String, String)>, c: DefaultResponseCertificationType) -> Seq<(Seq<char>, Seq<char>)> decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else { let r = resp_hdrs(hs.drop_last(), c); if certified(c, hs.last().0@) { r.push((low(hs.last().0@), hs.last().1@)) } else { r } }
}
/// The last certificate header.
pub open spec fn cert_hdr(hs: Seq<(String, String)>) -> Option<Seq<char>> decreases hs.len() {
    if hs.len() == 0 { None } else if is_cert_hdr(hs.last().0@) { Some(hs.last().1@) } else { cert_hdr(hs.drop_last()) }
}
pub open spec fn svs(hs: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { hs.map_values(|e: (String, String)| (e.0@, e.1@)) }
pub open spec fn hash_ents(hs: Seq<(Seq<char>, Seq<char>)>) -> Seq<(Seq<char>, Hash)> { hs.map_values(|e: (Seq<char>, Seq<char>)| (e.0, hstr(e.1))) }
pub open spec fn resp_hdrs_hash(status: nat, hs: Seq<(Seq<char>, Seq<char>)>) -> Hash { rih(hash_ents(hs).push((":ic-cert-status"@, hnum(status)))) }
pub open spec fn resp_hash(r: HttpResponse, c: DefaultResponseCertificationType, body: Hash) -> Hash { sha256(resp_hdrs_hash(r.status_code.0@ as nat, resp_hdrs(r.headers@, c))@ + body@) }
/// Stand-in for Box<dyn Fn(&String) -> bool>: what the closure may answer.
#[verifier::external_body] pub struct DynFn { x: u8 }
impl DynFn {
    pub uninterp spec fn may(&self, x: String, b: bool) -> bool;
    #[verifier::external_body] pub fn new<F: Fn(&String) -> bool>(f: F) -> (r: DynFn) requires forall|x: &String| f.requires((x,)) ensures forall|x: &String, b: bool| #[trigger] r.may(*x, b) ==> f.ensures((x,), b) { unimplemented!() }
    #[verifier::external_body] pub fn ask(&self, x: &String) -> (b: bool) ensures self.may(*x, b) { unimplemented!() }
}
//@lemmaprops lemma_rih_order C08
//@lemmaprops lemma_ms_map C08
//@lemmaprops lemma_hp_total C08
//@take rqh request_hash get_filtered_headers get_filtered_query
//@take rsh CERTIFICATE_HEADER_NAME CERTIFICATE_EXPRESSION_HEADER_NAME RESPONSE_STATUS_PSEUDO_HEADER_NAME ResponseHeaders filter_response_headers response_headers_hash response_hash
//@fn get_filtered_headers C14 C23
//@ret r
//@spec
    ensures ents(r@) == req_ents(headers@, cv(request_certification.headers))
//@lift 0 pick request_certification
(request_certification: &DefaultRequestCertification, rv_p: &(String, String)) -> (o: Option<(String, Value)>)
    ensures match o { None => !listed(cv(request_certification.headers), rv_p.0@), Some(e) => listed(cv(request_certification.headers), rv_p.0@) && ent(e) == (low(rv_p.0@), hstr(rv_p.1@)) }
//@liftentry 0
    broadcast use group_string;
    proof { ax_string_obeys(); }
//@closure 1
 -> (b: bool) ensures b == (low(header_to_include@) == low(header_name@))
//@loop 0
    invariant rv_i0 <= rv_v0.len(), rv_v0@ == headers@, ents(rv_out0@) == req_ents(headers@.take(rv_i0 as int), cv(request_certification.headers))
    decreases rv_v0.len() - rv_i0
//@loopend 0
    proof { let k = rv_i0 as int; assert(headers@.take(k).drop_last() =~= headers@.take(k - 1)); assert(ents(rv_out0@) =~= req_ents(headers@.take(k), cv(request_certification.headers))); }
//@tail
    assert(headers@.take(headers@.len() as int) =~= headers@);
//@fn get_filtered_query C14 C23
//@ret r
//@spec
    ensures r@ == kept_query(query@, cv(request_certification.query_parameters))
//@entry
    broadcast use lemma_split_first;
    proof { lemma_keep_strs(split_at(query@, '&'), param_in(cv(request_certification.query_parameters))); reveal_strlit("&"); assert("&"@ =~= seq!['&']); }
//@closure 0
 -> (b: bool) ensures b == listed(cv(request_certification.query_parameters), split_at(query_fragment@, '=')[0])
//@closure 1
 -> (b: bool) ensures b == listed(cv(request_certification.query_parameters), query_param_name@)
//@closure 2
 -> (b: bool) ensures b == (low(query_param_to_include@) == low(query_param_name@))
//@before `let query_param_name = split_fragment.pop();`
    proof { lemma_split_first(query_fragment@, '='); assert(split_fragment@.len() == 1); assert(split_fragment@[0]@ == split_at(query_fragment@, '=')[0]); }
//@fn request_hash C14 C23
//@ret r
//@spec
    ensures match r { Ok(h) => uri_of(request.url@) is Some && h == req_hash(*request, *request_certification), Err(_) => uri_of(request.url@) is None }
//@entry
    broadcast use {group_core, group_string};
    proof { ax_string_obeys(); }
//@closure 0
 -> (k: String) ensures k@ == kept_query(query@, cv(request_certification.query_parameters))
//@before `let concatenated_hashes = [`
    assert(ents(filtered_headers@) =~= req_map(*request, *request_certification));
//@fn CERTIFICATE_HEADER_NAME C14 C15 C23
//@spec
    ensures CERTIFICATE_HEADER_NAME@ == "IC-Certificate"@
//@fn CERTIFICATE_EXPRESSION_HEADER_NAME C14 C15 C23
//@spec
    ensures CERTIFICATE_EXPRESSION_HEADER_NAME@ == "IC-CertificateExpression"@
//@fn RESPONSE_STATUS_PSEUDO_HEADER_NAME C15 C23
//@spec
    ensures RESPONSE_STATUS_PSEUDO_HEADER_NAME@ == ":ic-cert-status"@
//@fn filter_response_headers C15 C20 C23
//@ret r
//@spec
    ensures svs(r.headers@) == resp_hdrs(response.headers@, response_certification.0),
        match r.certificate { Some(c) => cert_hdr(response.headers@) == Some(c@), None => cert_hdr(response.headers@) is None }
//@entry
    broadcast use group_string;
//@subst `Box<dyn Fn(_) -> _>` => `DynFn`
//@subst `Box::new(move` => `DynFn::new(move`
//@subst `headers_filter(header_name)` => `headers_filter.ask(header_name)`
//@closure 0
 -> (b: bool) ensures b == listed(cv(*headers_to_include), header_name@)
//@closure 1
 -> (b: bool) ensures b == (low(header_to_include@) == low(header_name@))
//@closure 2
 -> (b: bool) ensures b == !listed(cv(*headers_to_exclude), header_name@)
//@closure 3
 -> (b: bool) ensures b == (low(header_to_exclude@) == low(header_name@))
//@lift 4 pick &mut response_headers, &headers_filter
(response_headers: &mut ResponseHeaders, headers_filter: &DynFn, rv_p: &(String, String)) -> (o: Option<(String, String)>)
    ensures
        final(response_headers).headers == old(response_headers).headers,
        is_cert_hdr(rv_p.0@) ==> o is None && final(response_headers).certificate is Some && final(response_headers).certificate->0@ == rv_p.1@,
        !is_cert_hdr(rv_p.0@) ==> final(response_headers).certificate == old(response_headers).certificate,
        !is_cert_hdr(rv_p.0@) && is_expr_hdr(rv_p.0@) ==> o is Some,
        !is_cert_hdr(rv_p.0@) && !is_expr_hdr(rv_p.0@) ==> headers_filter.may(rv_p.0, o is Some),
        o is Some ==> (o->0).0@ == low(rv_p.0@) && (o->0).1@ == rv_p.1@
//@liftentry 4
    broadcast use group_string;
    proof { ax_string_obeys(); }
//@loop 0
    invariant rv_i0 <= rv_v0.len(), rv_v0@ == response.headers@, svs(rv_out0@) == resp_hdrs(response.headers@.take(rv_i0 as int), response_certification.0),
        forall|x: String, b: bool| #[trigger] headers_filter.may(x, b) ==> b == chosen(response_certification.0, x@),
        match response_headers.certificate { Some(c) => cert_hdr(response.headers@.take(rv_i0 as int)) == Some(c@), None => cert_hdr(response.headers@.take(rv_i0 as int)) is None }
    decreases rv_v0.len() - rv_i0
//@loopend 0
    proof { let k = rv_i0 as int; assert(response.headers@.take(k).drop_last() =~= response.headers@.take(k - 1)); assert(svs(rv_out0@) =~= resp_hdrs(response.headers@.take(k), response_certification.0)); }
//@tail
    assert(response.headers@.take(response.headers@.len() as int) =~= response.headers@);
//@fn response_headers_hash C15 C20 C23
//@ret r
//@spec
    ensures r == resp_hdrs_hash(*status_code as nat, svs(response_headers.headers@))
//@closure 0
 -> (v: (String, Value)) ensures ent(v) == (_p0.0@, hstr(_p0.1@))
//@entry
    broadcast use group_string;
    proof { ax_string_obeys(); }
//@tail
    assert(ents(headers_to_verify@) =~= hash_ents(svs(response_headers.headers@)).push((":ic-cert-status"@, hnum(*status_code as nat))));
//@fn response_hash C15 C23
//@ret r
//@spec
    ensures r == resp_hash(*response, response_certification.0, match response_body_hash { Some(h) => h, None => sha256(cv(response.body)) })
//@closure 0
 -> (h: Hash) ensures h == sha256(cv(response.body))
//@entry
    broadcast use {group_string, group_core};
    proof { ax_string_obeys(); }
