//@gsubst `.parse::<usize>()` => `.parse_usize()`
//@gsubst `.trim_start_matches("bytes=")` => `.strip_all("bytes=")`
//@ctor AssetCertificationError::RequestError
//@text
// ---------------------------------------------------------------- serving: what it uses (assumed contracts)
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,))
    ensures match r { Some(x) => o == Some(x) && p.ensures((&x,), true), None => o is None || p.ensures((&o->0,), false) };
#[verifier::external_body] pub fn arr_it<T, const N: usize>(a: [T; N]) -> (r: It<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn stripped(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && begins(s, p) { stripped(s.skip(p.len() as int), p) } else { s } }
/// The number that a text denotes for usize::from_str.
pub uninterp spec fn num(s: Seq<char>) -> Option<usize>;
/// assumed: a number's text is its digits, and reads as that number
pub axiom fn ax_dec(n: usize) ensures num(dec(n as int)) == Some(n), dec(n as int).len() > 0, forall|i: int| 0 <= i < dec(n as int).len() ==> '0' <= #[trigger] dec(n as int)[i] <= '9';
/// assumed: trim leaves alone what neither begins nor ends with white space
pub axiom fn ax_trim(s: Seq<char>) requires s.len() > 0, s[0] == 'b', s.last() == '-' || '0' <= s.last() <= '9' ensures trimmed(s, 0) == s;
#[verifier::external_body] pub struct NumErr { x: u8 }
impl Shown for NumErr { uninterp spec fn shown(&self) -> Seq<char>; }
pub trait Numeric { spec fn text_of(&self) -> Seq<char>;
    fn parse_usize(&self) -> (r: Result<usize, NumErr>) ensures match r { Ok(n) => num(self.text_of()) == Some(n), Err(_) => num(self.text_of()) is None };
    fn has_prefix(&self, p: &str) -> (r: bool) ensures r == begins(self.text_of(), p@);
    fn strip_all<'a>(&'a self, p: &str) -> (r: &'a str) ensures r@ == stripped(self.text_of(), p@);
}
impl Numeric for str { open spec fn text_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn parse_usize(&self) -> (r: Result<usize, NumErr>) { unimplemented!() }
    #[verifier::external_body] fn has_prefix(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn strip_all<'a>(&'a self, p: &str) -> (r: &'a str) { unimplemented!() }
}
/// Base64 and CBOR texts
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<char>;
pub trait BytesOf { spec fn bytes_of(&self) -> Seq<u8>; }
impl BytesOf for Vec<u8> { open spec fn bytes_of(&self) -> Seq<u8> { self@ } }
impl BytesOf for &[u8] { open spec fn bytes_of(&self) -> Seq<u8> { self@ } }
pub struct Engine64 { pub x: u8 }
pub const BASE64: Engine64 = Engine64 { x: 0 };
impl Engine64 { #[verifier::external_body] pub fn encode<T: BytesOf>(&self, v: T) -> (r: String) ensures r@ == b64(v.bytes_of()) { unimplemented!() } }
pub uninterp spec fn cbor_tree(t: HashTree) -> Seq<u8>;
pub uninterp spec fn cbor_texts(t: Path) -> Seq<u8>;
pub trait ToCbor { spec fn cbor(&self) -> Seq<u8>; }
impl ToCbor for HashTree { open spec fn cbor(&self) -> Seq<u8> { cbor_tree(*self) } }
impl ToCbor for &[String] { open spec fn cbor(&self) -> Seq<u8> { cbor_texts(seq_bytes(self@)) } }
#[verifier::external_body] pub fn cbor_encode<T: ToCbor>(v: &T) -> (r: Vec<u8>) ensures r@ == v.cbor() { unimplemented!() }
pub open spec fn cert_header(dc: Seq<u8>, w: HashTree, p: Path) -> (Seq<char>, Seq<char>) {
    ("IC-Certificate"@, "certificate=:"@ + b64(dc) + ":, tree=:"@ + b64(cbor_tree(w)) + ":, expr_path=:"@ + b64(cbor_texts(p)) + ":, version=2"@)
}
//@take urh add_v2_certificate_header
//@fn add_v2_certificate_header C24
//@opt fmt
//@spec
    ensures svs(final(response).headers@) == svs(old(response).headers@).push(cert_header(data_certificate@, *witness, seq_bytes(expr_path@))), final(response).body == old(response).body, final(response).status_code == old(response).status_code
//@entry
    broadcast use group_asset;
    let ghost witness0 = *witness;
    let ghost path0 = expr_path@;
//@tail
    proof { assert(svs(response.headers@) =~= svs(old(response).headers@).push(cert_header(data_certificate@, witness0, seq_bytes(path0)))); }
//@text
// ---------------------------------------------------------------- which stored response is served
/// The response for a URL in one encoding at a requested range: that range's; the whole of what is not cut into chunks; the first chunk when no range is asked for.
pub open spec fn pick1(m: Resps, u: Seq<char>, e: Option<Seq<char>>, rng: Option<usize>) -> Option<Key> {
    let w: Key = (u, e, None);
    if rng is Some && m.dom().contains((u, e, rng)) { Some((u, e, rng)) }
    else if m.dom().contains(w) && !big(m[w]) { Some(w) }
    else if m.dom().contains(w) && rng is None { Some((u, e, Some(0usize))) }
    else { None }
}
/// The first of the encodings, from the i-th on, that has a response.
pub open spec fn pick(m: Resps, u: Seq<char>, encs: Seq<Seq<char>>, rng: Option<usize>, i: int) -> Option<Key> decreases encs.len() - i {
    if i < 0 || i >= encs.len() { None } else if pick1(m, u, Some(encs[i]), rng) is Some { pick1(m, u, Some(encs[i]), rng) } else { pick(m, u, encs, rng, i + 1) }
}
pub open spec fn fpick(m: Resps, z: Seq<char>, encs: Seq<Seq<char>>, i: int) -> Option<Key> decreases encs.len() - i {
    if i < 0 || i >= encs.len() { None } else if m.dom().contains((z, Some(encs[i]), None)) { Some((z, Some(encs[i]), None)) } else { fpick(m, z, encs, i + 1) }
}
pub open spec fn or_plain(m: Resps, z: Seq<char>, k: Option<Key>) -> Option<Key> { if k is Some { k } else if m.dom().contains((z, None, None)) { Some((z, None, None)) } else { None } }
pub open spec fn occupied(m: Resps, u: Seq<char>) -> bool { exists|e: Option<Seq<char>>| #[trigger] m.dom().contains((u, e, None)) }
/// The fallback for a scope, unless there is none there at all.
pub open spec fn at_scope(m: Resps, z: Seq<char>, encs: Seq<Seq<char>>) -> Option<Key> { or_plain(m, z, fpick(m, z, encs, 0)) }
/// The closest scope among the first n segments' directories that has fallbacks decides.
pub open spec fn closest(m: Resps, segs: Seq<Seq<char>>, encs: Seq<Seq<char>>, n: int) -> Option<Key> decreases n {
    if n <= 0 { None } else {
        let t = joined(segs.take(n), "/"@); let d = t.push('/');
        if at_scope(m, d, encs) is Some || occupied(m, d) { at_scope(m, d, encs) }
        else if at_scope(m, t, encs) is Some || occupied(m, t) { at_scope(m, t, encs) }
        else { closest(m, segs, encs, n - 1) }
    }
}
pub open spec fn route(r: AssetRouter, u: Seq<char>, encs: Seq<Seq<char>>, rng: Option<usize>) -> Option<Slot> {
    let m = r.responses@; let f = r.fallback_responses@;
    let own_pick = if pick(m, u, encs, rng, 0) is Some { pick(m, u, encs, rng, 0) } else { pick1(m, u, None, rng) };
    if own_pick is Some { Some((false, own_pick->0)) }
    else if occupied(m, u) { None }
    else if at_scope(f, u, encs) is Some || occupied(f, u) { if at_scope(f, u, encs) is Some { Some((true, at_scope(f, u, encs)->0)) } else { None } }
    else { match closest(f, split_at(u, '/').drop_last(), encs, split_at(u, '/').len() - 1) { Some(k) => Some((true, k)), None => None } }
}
pub open spec fn named(m: Resps) -> bool { forall|k: Key| #[trigger] m.dom().contains(k) ==> known(k.1) }
/// What an option of a stored response is, for an option of a key.
pub open spec fn is_at<'a>(m: Resps<'a>, k: Option<Key>, r: Option<&CertifiedAssetResponse<'a>>) -> bool { match r { Some(c) => k is Some && m.dom().contains(k->0) && *c == m[k->0], None => k is None } }
pub proof fn lemma_first_chunk(m: Resps, u: Seq<char>, e: Option<Seq<char>>) requires closed(m), m.dom().contains((u, e, None)), big(m[(u, e, None)]) ensures m.dom().contains((u, e, Some(0usize)))
{ let w: Key = (u, e, None); assert(has_chunks(m, w)); let b = 0int; let n = cv(m[w].response.body).len(); assert(n > ASSET_CHUNK_SIZE); assert(b % ASSET_CHUNK_SIZE as int == 0 && 0 <= b < n); let k = at_range(w.0, w.1, b); assert(m.dom().contains(k)); assert(k.2 == Some(0usize)); }
pub proof fn lemma_small_chunk(m: Resps, k: Key) requires closed(m), m.dom().contains(k), k.2 is Some ensures !big(m[k])
{ assert(chunk_of(m, k)); }
//@text
// ---------------------------------------------------------------- the range that is asked for
pub open spec fn range_val(t: Seq<char>) -> Option<(usize, Option<usize>)> {
    let s = trimmed(t, 0); let p = split_at(stripped(s, "bytes="@), '-');
    if !begins(s, "bytes="@) || p.len() != 2 || num(p[0]) is None { None }
    else if p[1].len() == 0 { Some((num(p[0])->0, None)) }
    else if num(p[1]) is None || num(p[0])->0 > num(p[1])->0 { None }
    else { Some((num(p[0])->0, num(p[1]))) }
}
pub open spec fn range_text(h: Seq<(Seq<char>, Seq<char>)>, i: int) -> Option<Seq<char>> decreases h.len() - i {
    if i < 0 || i >= h.len() { None } else if ulow(h[i].0) == "range"@ { Some(h[i].1) } else { range_text(h, i + 1) }
}
/// The start of the range that a request asks for, if it asks for one; None if its range header cannot be read.
pub open spec fn asked(h: Seq<(Seq<char>, Seq<char>)>) -> Option<Option<usize>> {
    match range_text(h, 0) { None => Some(None), Some(t) => match range_val(t) { Some(v) => Some(Some(v.0)), None => None } }
}
/// The header that a chunk is certified for asks for that chunk.
pub proof fn lemma_range_text(b: usize) ensures range_val("bytes="@ + dec(b as int) + "-"@) == Some((b, None::<usize>))
{
    reveal_strlit("bytes="); reveal_strlit("-");
    let p = "bytes="@; let d = dec(b as int); let s = p + d + "-"@;
    ax_dec(b); ax_trim(s);
    assert(s.take(6) =~= p); let x = s.skip(6); assert(x =~= d.push('-'));
    assert(stripped(s, p) == stripped(x, p));
    assert(!begins(x, p)) by { if begins(x, p) { assert(x.take(6)[0] == x[0]); assert(x[0] == 'b'); assert(x[0] == d[0]); } }
    assert(stripped(x, p) == x);
    assert(x.drop_last() =~= d);
    lemma_no_split(d, '-');
    assert(split_at(x, '-') =~= seq![d, Seq::<char>::empty()]);
}
pub proof fn lemma_no_split(s: Seq<char>, c: char) requires forall|i: int| 0 <= i < s.len() ==> s[i] != c ensures split_at(s, c) =~= seq![s] decreases s.len()
{ if s.len() > 0 { lemma_no_split(s.drop_last(), c); assert(s.drop_last().push(s.last()) =~= s); assert(split_at(s.drop_last(), c)[0] == s.drop_last()); } else { assert(s =~= Seq::empty()); } }
/// The encodings that an accept-encoding header names, the preferred ones first (assumed: a sort by a floating point number).
pub uninterp spec fn ranked(s: Seq<char>) -> Seq<Seq<char>>;
impl<'content> AssetRouter<'content> { #[verifier::external_body] pub fn prioritized_encodings(encodings: &str) -> (r: Vec<(&str, f32)>) ensures r@.map_values(|x: (&str, f32)| x.0@) == ranked(encodings@) { unimplemented!() } }
pub open spec fn accepted(h: Seq<(Seq<char>, Seq<char>)>, i: int) -> Seq<Seq<char>> decreases h.len() - i {
    if i < 0 || i >= h.len() { Seq::empty() } else if ulow(h[i].0) == "accept-encoding"@ { ranked(h[i].1) } else { accepted(h, i + 1) }
}
//@take ar AssetRouter::get_preferred_encodings
//@fn AssetRouter::get_preferred_encodings C24
//@ret r
//@opt inline-iter
//@subst `name.to_lowercase() == "accept-encoding"` => `same_text(&name.to_lowercase(), "accept-encoding")`
//@spec
    ensures strs(r@) == accepted(svs(request.headers@), 0)
//@entry
    let ghost h = svs(request.headers@);
//@loop 0
    invariant h == svs(request.headers@), rv_v0@ == request.headers@, rv_i0 <= h.len(), accepted(h, 0) == accepted(h, rv_i0 as int)
    ensures rv_i0 == h.len()
    decreases h.len() - rv_i0
//@loopentry 0
    proof { assert(h[rv_i0 - 1] == (name@, value@)); }
//@closure 0
 -> (t: &str) ensures t@ == _p0.0@
//@tail
    proof { assert(strs(r@) =~= Seq::<Seq<char>>::empty()); }
//@text
/// The stored response that a request selects.
pub open spec fn wanted_slot(r: AssetRouter, q: HttpRequest) -> Option<Slot> {
    let h = svs(q.headers@);
    if uri_of(q.url@) is None || pct_decoded(uri_of(q.url@)->0.path) is None || asked(h) is None { None } else { route(r, pct_decoded(uri_of(q.url@)->0.path)->0, accepted(h, 0), asked(h)->0) }
}
/// It is served with a witness for its entry at the requested path, and that entry's expression path.
pub open spec fn served(r: AssetRouter, q: HttpRequest, dc: Seq<u8>, p: HttpResponse) -> bool {
    let s = wanted_slot(r, q)->0; let c = alls(r)[s];
    wanted_slot(r, q) is Some && alls(r).dom().contains(s) && p.status_code == c.response.status_code && cv(p.body) == cv(c.response.body)
    && exists|w: HashTree| #[trigger] witness_for(r.tree, c.tree_entry, pct_decoded(uri_of(q.url@)->0.path)->0, w) && svs(p.headers@) == svs(c.response.headers@).push(cert_header(dc, w, with_prefix(path_of(upath_of(c)))))
}
//@take ar parse_range_header_str AssetRouter::get_unchunked_asset AssetRouter::get_encoded_asset AssetRouter::get_encoded_fallback_asset AssetRouter::has_responses AssetRouter::get_range_header AssetRouter::maybe_get_range_begin AssetRouter::get_asset_for_request AssetRouter::serve_asset
//@fn parse_range_header_str C24 C28
//@ret r
//@opt fmt
//@spec
    ensures match r { Ok(v) => range_val(range_str@) == Some((v.range_begin, v.range_end)), Err(_) => range_val(range_str@) is None }
//@entry
    broadcast use {group_asset, ax_str_ext};
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@before `let range_end =`
    proof { let p = strs(range_header_parts@); assert(p == split_at(stripped(trimmed(range_str@, 0), "bytes="@), '-')); assert(p[0] == range_header_parts@[0]@ && p[1] == range_header_parts@[1]@); if p[1].len() == 0 { assert(p[1] =~= ""@); assert(range_header_parts@[1] == ""); } }
//@closure 0
 -> (t: String)
//@subst `|e| {` => `|e: NumErr| {`
//@fn AssetRouter::get_unchunked_asset C24 C28
//@ret r
//@spec
    ensures match r { Some(c) => self.responses@.dom().contains((url@, optv(encoding), None)) && *c == self.responses@[(url@, optv(encoding), None)] && !big(*c), None => !self.responses@.dom().contains((url@, optv(encoding), None)) || big(self.responses@[(url@, optv(encoding), None)]) }
//@entry
    broadcast use group_asset;
//@subst `|response|` => `|response: &&CertifiedAssetResponse<'content>|`
//@closure 0
 -> (b: bool) ensures b == !big(**response)
//@fn AssetRouter::get_encoded_asset C24 C28
//@ret r
//@opt inline-slice
//@spec
    requires closed(self.responses@)
    ensures is_at(self.responses@, pick(self.responses@, url@, strs(preferred_encodings@), maybe_range_begin, 0), r)
//@entry
    broadcast use group_asset;
    let ghost m = self.responses@;
    let ghost encs = strs(preferred_encodings@);
//@loop 0
    invariant closed(m), m == self.responses@, encs == strs(preferred_encodings@), rv_v0@ == preferred_encodings@, rv_i0 <= encs.len(), pick(m, url@, encs, maybe_range_begin, 0) == pick(m, url@, encs, maybe_range_begin, rv_i0 as int)
    ensures rv_i0 == encs.len()
    decreases encs.len() - rv_i0
//@loopentry 0
    broadcast use group_asset;
    let ghost e = Some(encoding@);
    proof {
        assert(encs[rv_i0 - 1] == encoding@);
        if m.dom().contains((url@, e, None)) && big(m[(url@, e, None)]) { lemma_first_chunk(m, url@, e); }
        if maybe_range_begin is Some && m.dom().contains((url@, e, maybe_range_begin)) { lemma_small_chunk(m, (url@, e, maybe_range_begin)); }
    }
//@fn AssetRouter::get_encoded_fallback_asset C24
//@ret r
//@opt inline-slice
//@spec
    ensures is_at(self.fallback_responses@, fpick(self.fallback_responses@, scope@, strs(preferred_encodings@), 0), r)
//@entry
    broadcast use group_asset;
    let ghost m = self.fallback_responses@;
    let ghost encs = strs(preferred_encodings@);
//@loop 0
    invariant m == self.fallback_responses@, encs == strs(preferred_encodings@), rv_v0@ == preferred_encodings@, rv_i0 <= encs.len(), fpick(m, scope@, encs, 0) == fpick(m, scope@, encs, rv_i0 as int)
    ensures rv_i0 == encs.len()
    decreases encs.len() - rv_i0
//@loopentry 0
    broadcast use group_asset;
    proof { assert(encs[rv_i0 - 1] == encoding@); }
//@fn AssetRouter::has_responses C24
//@ret r
//@subst `encodings.into_iter()` => `arr_it(encodings)`
//@spec
    requires named(responses@)
    ensures r == occupied(responses@, path@)
//@entry
    broadcast use group_asset;
//@closure 0
 -> (b: bool) ensures b == responses@.dom().contains((path@, opt_name(encoding), None))
//@subst `|encoding|` => `|encoding: Option<AssetEncoding>|`
//@fn AssetRouter::get_range_header C24 C28
//@ret r
//@opt inline-iter
//@subst `name.to_lowercase().eq(&http::header::RANGE.as_str())` => `same_text(&name.to_lowercase(), http::header::RANGE.as_str())`
//@subst `return Some(value);` => `return Some(value.as_str());`
//@spec
    ensures match r { Some(t) => range_text(svs(request.headers@), 0) == Some(t@), None => range_text(svs(request.headers@), 0) is None }
//@entry
    let ghost h = svs(request.headers@);
//@loop 0
    invariant h == svs(request.headers@), rv_v0@ == request.headers@, rv_i0 <= h.len(), range_text(h, 0) == range_text(h, rv_i0 as int)
    ensures rv_i0 == h.len()
    decreases h.len() - rv_i0
//@loopentry 0
    proof { assert(h[rv_i0 - 1] == (name@, value@)); }
//@fn AssetRouter::maybe_get_range_begin C24 C28
//@ret r
//@spec
    ensures match r { Ok(v) => asked(svs(request.headers@)) == Some(v), Err(_) => asked(svs(request.headers@)) is None }
//@closure 0
 -> (b: Option<usize>) ensures b == Some(e.range_begin)
//@fn AssetRouter::serve_asset C24 C28
//@ret r
//@spec
    requires inv(*self)
    ensures match r { Ok(p) => served(*self, *request, data_certificate@, p), Err(_) => true }, (r is Err) == (wanted_slot(*self, *request) is None)
//@entry
    broadcast use group_asset;
    proof { if wanted_slot(*self, *request) is Some { let p = pct_decoded(uri_of(request.url@)->0.path)->0; let h = svs(request.headers@); lemma_route(*self, p, accepted(h, 0), asked(h)->0); let s = wanted_slot(*self, *request)->0; let c = alls(*self)[s]; if s.0 { assert(fall_ok(s.1, c)); } else { assert(static_ok(s.1, c)); } } }
//@before `add_v2_certificate_header(`
    let ghost c0 = cert_response;
    let ghost p0 = request_url@;
//@tail
    proof { if r is Ok { let s = wanted_slot(*self, *request)->0; assert(c0 == alls(*self)[s]); assert(witness_for(self.tree, c0.tree_entry, p0, witness)); } }
//@fn AssetRouter::get_asset_for_request C24
//@ret r
//@spec
    requires inv(*self)
    ensures match r { Ok(c) => route(*self, req_path@, strs(preferred_encodings@), maybe_range_begin) is Some && ({ let s = route(*self, req_path@, strs(preferred_encodings@), maybe_range_begin)->0; alls(*self).dom().contains(s) && *c == alls(*self)[s] }), Err(_) => route(*self, req_path@, strs(preferred_encodings@), maybe_range_begin) is None }
//@entry
    broadcast use group_asset;
    proof { reveal_strlit("/"); assert forall|k: Key| #[trigger] self.responses@.dom().contains(k) implies known(k.1) by { assert(static_ok(k, self.responses@[k])); }
        assert forall|k: Key| #[trigger] self.fallback_responses@.dom().contains(k) implies known(k.1) by { assert(fall_ok(k, self.fallback_responses@[k])); }
        lemma_pick1_plain(self.responses@, req_path@, maybe_range_begin); }
    let ghost f = self.fallback_responses@;
    let ghost encs = strs(preferred_encodings@);
    let ghost segs = split_at(req_path@, '/').drop_last();
//@closure 0
 -> (e: AssetCertificationError)
//@before `while !url_scopes.is_empty() {`
    proof { assert(strs(url_scopes@) =~= segs); }
//@loop 0
    invariant inv(*self), f == self.fallback_responses@, named(f), encs == strs(preferred_encodings@), url_scopes@.len() <= segs.len(), strs(url_scopes@) =~= segs.take(url_scopes@.len() as int),
        closest(f, segs, encs, segs.len() as int) == closest(f, segs, encs, url_scopes@.len() as int), no_asset_error.requires(()),
        route(*self, req_path@, encs, maybe_range_begin) == (match closest(f, segs, encs, segs.len() as int) { Some(k) => Some((true, k)), None => None })
    ensures url_scopes@.len() == 0
    decreases url_scopes@.len()
//@loopentry 0
    broadcast use group_asset;
    let ghost n = url_scopes@.len() as int;
    proof { reveal_strlit("/"); assert(closest(f, segs, encs, n) == closest(f, segs, encs, n)); }
//@before `scope.pop();`
    let ghost d = scope@;
//@after `scope.pop();`
    proof { assert(scope@ =~= joined(segs.take(n), "/"@)); assert(d =~= scope@.push('/')); }
//@text
pub proof fn lemma_pick1_plain(m: Resps, u: Seq<char>, rng: Option<usize>) requires closed(m)
    ensures m.dom().contains((u, None, None)) && big(m[(u, None, None)]) ==> m.dom().contains((u, None, Some(0usize))), rng is Some && m.dom().contains((u, None, rng)) ==> !big(m[(u, None, rng)])
{
    if m.dom().contains((u, None, None)) && big(m[(u, None, None)]) { lemma_first_chunk(m, u, None); }
    if rng is Some && m.dom().contains((u, None, rng)) { lemma_small_chunk(m, (u, None, rng)); }
}
