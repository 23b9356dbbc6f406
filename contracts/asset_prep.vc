//@text
// ---------------------------------------------------------------- preparing responses
/// A request and a description of its certification for which a certification seals a response: a GET of the URL, with the range header of a later chunk.
pub open spec fn sealed_with(r: HttpResponse, c: HttpCertification, url: Seq<char>, qh: Seq<(Seq<char>, Seq<char>)>, names: Seq<Seq<char>>, rc: DefaultRequestCertification, l: Cow<'_, [&str]>, q: HttpRequest) -> bool {
    let d = DefaultResponseCertificationType::ResponseHeaderExclusions(l);
    cv(l).len() == 0 && cv(rc.query_parameters).len() == 0 && strs(cv(rc.headers)) == names
    && q.method.0@ == "GET"@ && q.url@ == url && cv(q.body).len() == 0 && svs(q.headers@) == qh
    && uri_of(url) is Some && expr_hdrs(r.headers@) == seq![full_text(rc, d)]
    && c.0 == (HttpCertificationType::Full { cel_expr_hash: sha256(enc(full_text(rc, d))), request_hash: req_hash(q, rc), response_hash: resp_hash(r, d, sha256(cv(r.body))) })
}
pub open spec fn range_names(rng: Option<usize>) -> Seq<Seq<char>> { if rng is Some { seq!["range"@] } else { Seq::empty() } }
pub open spec fn range_hdr(rng: Option<usize>) -> Seq<(Seq<char>, Seq<char>)> { match rng { Some(b) => if b > 0 { seq![("range"@, "bytes="@ + dec(b as int) + "-"@)] } else { Seq::empty() }, None => Seq::empty() } }
pub open spec fn sealed(r: HttpResponse, c: HttpCertification, url: Seq<char>, rng: Option<usize>) -> bool {
    exists|rc: DefaultRequestCertification, l: Cow<'_, [&str]>, q: HttpRequest| #[trigger] sealed_with(r, c, url, range_hdr(rng), range_names(rng), rc, l, q)
}
/// The end of the chunk that begins at b.
pub open spec fn chunk_end(b: int, len: int) -> int { if b + ASSET_CHUNK_SIZE <= len { b + ASSET_CHUNK_SIZE } else { len } }
pub open spec fn part(content: Seq<u8>, rng: Option<usize>) -> Seq<u8> { match rng { None => content, Some(b) => content.subrange(b as int, chunk_end(b as int, content.len() as int)) } }
pub open spec fn content_range(b: int, len: int) -> Seq<char> { "bytes "@ + dec(b) + "-"@ + dec(chunk_end(b, len) - 1) + "/"@ + dec(len) }
pub open spec fn one<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
/// The headers of an asset's response, without the content length in front and the expression at the end.
pub open spec fn asset_hdrs(len: int, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, e: Option<Seq<char>>, rng: Option<usize>) -> Seq<(Seq<char>, Seq<char>)> {
    hs + one(match ct { Some(t) => Some(("content-type"@, t)), None => None })
        + one(match e { Some(n) => Some(("content-encoding"@, n)), None => None })
        + one(match rng { Some(b) => Some(("content-range"@, content_range(b as int, len))), None => None })
}
pub open spec fn built(r: HttpResponse, status: u16, body: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>) -> bool {
    r.status_code.0@ == status && cv(r.body) == body && exists|t: Seq<char>| #[trigger] svs(r.headers@) == (seq![("content-length"@, dec(body.len() as int))] + hs).push(("IC-CertificateExpression"@, t))
}
pub open spec fn asset_status(st: Option<StatusCode>, rng: Option<usize>) -> u16 { if rng is Some { 206 } else { match st { Some(c) => c@, None => 200 } } }
/// The response is the one for this content.
pub open spec fn shows(r: HttpResponse, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, e: Option<Seq<char>>, rng: Option<usize>, st: Option<StatusCode>) -> bool {
    built(r, asset_status(st, rng), part(content, rng), asset_hdrs(content.len() as int, hs, ct, e, rng))
}
pub open spec fn cert_of(c: CertifiedAssetResponse) -> HttpCertification { *cow_ref(&c.tree_entry.certification) }
pub open spec fn upath_of<'a>(c: CertifiedAssetResponse<'a>) -> HttpCertificationPath<'a> { *cow_ref(&c.tree_entry.path) }
//@take ar ASSET_CHUNK_SIZE RangeRequestValues encoding_str AssetRouter AssetRouter::prepare_response_and_certification AssetRouter::prepare_asset_response_and_certification AssetRouter::prepare_redirect AssetRouter::prepare_fallback_asset AssetRouter::prepare_static_asset
//@fn encoding_str C24
//@ret r
//@spec
    ensures optv(r) == opt_name(maybe_encoding)
//@closure 0
 -> (s: String) ensures s@ == enc_name(enc)
//@fn AssetRouter::prepare_response_and_certification C24 C28
//@ret r
//@spec
    ensures match r { Ok(p) => built(p.0, status_code@, cv(body), svs(additional_response_headers@))
            && exists|rc: DefaultRequestCertification, l: Cow<'_, [&str]>, q: HttpRequest| #[trigger] sealed_with(p.0, p.1, url@, svs(request_headers@), strvs(certified_request_headers@), rc, l, q),
        Err(_) => true }
//@entry
    broadcast use group_asset;
    proof { ax_string_obeys(); }
//@closure 0
 -> (t: &str) ensures t@ == s@
//@subst `|s|` => `|s: &String|`
//@tail
    proof { if r is Ok {
        let d = cel_expr.response.0;
        assert(strs(cv(cel_expr.request.headers)) =~= strvs(certified_request_headers@));
        assert(svs(response.headers@) =~= (seq![("content-length"@, dec(cv(body).len() as int))] + svs(additional_response_headers@)).push(("IC-CertificateExpression"@, full_text(cel_expr.request, d))));
        assert(sealed_with(r->Ok_0.0, r->Ok_0.1, url@, svs(request_headers@), strvs(certified_request_headers@), cel_expr.request, d->ResponseHeaderExclusions_0, request));
    } }
//@text
pub open spec fn strvs(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
//@fn AssetRouter::prepare_asset_response_and_certification C24 C28
//@ret r
//@opt fmt
//@subst `content = content[range_begin..(range_end + 1)].to_owned().into();` => `content = cow_part(&content, range_begin, range_end + 1);`
//@spec
    requires range_begin is Some ==> range_begin->0 < cv(asset.content).len()
    ensures match r { Ok(p) => shows(p.0, cv(asset.content), svs(additional_headers@), optv(content_type), opt_name(encoding), range_begin, status_code) && sealed(p.0, p.1, asset.url@, range_begin), Err(_) => true }
//@entry
    broadcast use group_asset;
    let ghost total = cv(asset.content).len() as int;
    let ghost ct = optv(content_type);
    let ghost hs = svs(additional_headers@);
//@before `Self::prepare_response_and_certification(`
    proof {
        assert(svs(headers@) =~= asset_hdrs(total, hs, ct, opt_name(encoding), range_begin));
        assert(svs(request_headers@) =~= range_hdr(range_begin));
        assert(strvs(certified_request_headers@) =~= range_names(range_begin));
    }
//@fn AssetRouter::prepare_static_asset C24 C28
//@ret r
//@spec
    requires range_begin is Some ==> range_begin->0 < cv(asset.content).len()
    ensures match r { Ok(c) => static_made(c, asset.url@, range_begin) && shows(c.response, cv(asset.content), svs(additional_headers@), optv(content_type), opt_name(encoding), range_begin, None), Err(_) => true }
//@entry
    broadcast use group_asset;
//@fn AssetRouter::prepare_fallback_asset C24
//@ret r
//@spec
    ensures match r { Ok(c) => fall_made(c, fallback_for.scope@) && shows(c.response, cv(asset.content), svs(additional_headers@), optv(content_type), opt_name(encoding), None, fallback_for.status_code), Err(_) => true }
//@entry
    broadcast use group_asset;
//@fn AssetRouter::prepare_redirect C24
//@ret r
//@after `let headers = vec![("location".to_string(), to)];`
    proof { assert(svs(headers@) =~= seq![("location"@, to@)]); assert(svs(Seq::<(String, String)>::empty()) =~= range_hdr(None)); assert(strvs(Seq::<String>::empty()) =~= range_names(None)); }
//@spec
    ensures match r { Ok(c) => static_made(c, from@, None) && built(c.response, if kind is Permanent { 301 } else { 307 }, Seq::empty(), seq![("location"@, to@)]), Err(_) => true }
//@entry
    broadcast use group_asset;
//@text
/// An entry for exactly this URL, sealed.
pub open spec fn static_made(c: CertifiedAssetResponse, url: Seq<char>, rng: Option<usize>) -> bool {
    upath_of(c).0 is Exact && path_text(upath_of(c)) == url && sealed(c.response, cert_of(c), url, rng)
}
/// An entry for everything in this scope, sealed with the URL of its asset.
pub open spec fn fall_made(c: CertifiedAssetResponse, scope: Seq<char>) -> bool {
    upath_of(c).0 is Wildcard && path_text(upath_of(c)) == scope && exists|url: Seq<char>| #[trigger] sealed(c.response, cert_of(c), url, None)
}
