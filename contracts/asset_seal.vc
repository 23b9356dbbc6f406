//@text
// ---------------------------------------------------------------- what is served is what was certified, for this request
/// The values of the range headers.
pub open spec fn ranges_of(h: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<char>> decreases h.len() { if h.len() == 0 { Seq::empty() } else { let r = ranges_of(h.drop_last()); if low(h.last().0) == low("range"@) { r.push(h.last().1) } else { r } } }
pub open spec fn range_ents(v: Seq<Seq<char>>) -> Seq<(Seq<char>, Hash)> { v.map_values(|x: Seq<char>| (low("range"@), hstr(x))) }
/// A GET request without a query and a body that, for a later chunk, spells its range as it is certified (known finding C24-range-spelling: others do not verify), and for the first chunk has none.
pub open spec fn plain_get(q: HttpRequest, k: Key) -> bool {
    q.method.0@ == "GET"@ && cv(q.body).len() == 0 && uri_of(q.url@) is Some && uri_of(q.url@)->0.query is None
    && (k.2 is Some ==> ranges_of(svs(q.headers@)) == ranges_of(range_hdr(k.2)))
}
pub proof fn lemma_listed(names: Seq<&str>, n: Seq<char>)
    ensures strs(names).len() == 0 ==> !listed(names, n), strs(names) == seq!["range"@] ==> listed(names, n) == (low(n) == low("range"@))
{
    if strs(names) == seq!["range"@] { assert(strs(names).len() == 1); assert(names[0]@ == strs(names)[0]); }
}
pub proof fn lemma_ents(hs: Seq<(String, String)>, names: Seq<&str>)
    ensures strs(names).len() == 0 ==> req_ents(hs, names) == Seq::<(Seq<char>, Hash)>::empty(), strs(names) == seq!["range"@] ==> req_ents(hs, names) == range_ents(ranges_of(svs(hs)))
    decreases hs.len()
{
    if hs.len() > 0 {
        lemma_ents(hs.drop_last(), names); lemma_listed(names, hs.last().0@);
        assert(svs(hs).drop_last() =~= svs(hs.drop_last()));
        assert(range_ents(ranges_of(svs(hs))) =~= if low(hs.last().0@) == low("range"@) { range_ents(ranges_of(svs(hs.drop_last()))).push((low("range"@), hstr(hs.last().1@))) } else { range_ents(ranges_of(svs(hs.drop_last()))) });
    } else { assert(range_ents(ranges_of(svs(hs))) =~= Seq::empty()); }
}
/// A sealed response is sealed with every plain request for its key.
pub proof fn lemma_any_request(r: HttpResponse, c: HttpCertification, url: Seq<char>, rng: Option<usize>, q: HttpRequest, k: Key)
    requires sealed(r, c, url, rng), plain_get(q, k), k.2 == rng, uri_of(url)->0.query is None
    ensures exists|rc: DefaultRequestCertification, l: Cow<'_, [&str]>| #[trigger] proves(r, c, rc, l, q)
{
    let (rc, l, z) = choose|rc: DefaultRequestCertification, l: Cow<'_, [&str]>, z: HttpRequest| #[trigger] sealed_with(r, c, url, range_hdr(rng), range_names(rng), rc, l, z);
    let names = cv(rc.headers);
    lemma_ents(q.headers@, names); lemma_ents(z.headers@, names);
    assert(req_map(q, rc) == req_map(z, rc));
    assert(cv(q.body) =~= cv(z.body));
    assert(proves(r, c, rc, l, q));
}
/// The certification is that of this request and this response, under an expression that the response carries.
pub open spec fn proves(r: HttpResponse, c: HttpCertification, rc: DefaultRequestCertification, l: Cow<'_, [&str]>, q: HttpRequest) -> bool {
    let d = DefaultResponseCertificationType::ResponseHeaderExclusions(l);
    cv(l).len() == 0 && expr_hdrs(r.headers@) == seq![full_text(rc, d)]
    && c.0 == (HttpCertificationType::Full { cel_expr_hash: sha256(enc(full_text(rc, d))), request_hash: req_hash(q, rc), response_hash: resp_hash(r, d, sha256(cv(r.body))) })
}
/// Headers read the same however their strings are stored.
pub proof fn lemma_hdrs_view(a: Seq<(String, String)>, b: Seq<(String, String)>, d: DefaultResponseCertificationType) requires svs(a) == svs(b) ensures resp_hdrs(a, d) == resp_hdrs(b, d), expr_hdrs(a) == expr_hdrs(b) decreases a.len()
{
    assert(svs(a).len() == a.len() && svs(b).len() == b.len());
    if a.len() > 0 {
        assert(svs(a.drop_last()) =~= svs(a).drop_last()); assert(svs(b.drop_last()) =~= svs(b).drop_last());
        assert(svs(a).last() == (a.last().0@, a.last().1@)); assert(svs(b).last() == (b.last().0@, b.last().1@));
        lemma_hdrs_view(a.drop_last(), b.drop_last(), d);
    }
}
/// assumed: ASCII lower case keeps the number of characters
pub axiom fn ax_low_len(s: Seq<char>) ensures low(s).len() == s.len();
/// The certificate header is not part of what is certified.
pub proof fn lemma_add_cert(a: Seq<(String, String)>, b: Seq<(String, String)>, d: DefaultResponseCertificationType, v: Seq<char>)
    requires svs(b) == svs(a).push(("IC-Certificate"@, v)) ensures resp_hdrs(b, d) == resp_hdrs(a, d), expr_hdrs(b) == expr_hdrs(a)
{
    assert(svs(b).len() == b.len());
    assert(svs(b.drop_last()) =~= svs(a)) by { assert(svs(b.drop_last()) =~= svs(b).drop_last()); }
    assert(svs(b).last() == (b.last().0@, b.last().1@));
    assert(is_cert_hdr(b.last().0@));
    reveal_strlit("IC-Certificate"); reveal_strlit("IC-CertificateExpression");
    ax_low_len("IC-Certificate"@); ax_low_len("IC-CertificateExpression"@);
    assert(low("IC-Certificate"@).len() != low("IC-CertificateExpression"@).len());
    lemma_hdrs_view(b.drop_last(), a, d);
}
/// A served response: its entry is in the tree, it is shown by the witness at the requested path, its path is exactly the requested one or a scope around it, and it certifies this response for this request.
pub open spec fn verifies(r: AssetRouter, q: HttpRequest, dc: Seq<u8>, p: HttpResponse, u: Seq<char>, s: Slot, w: HashTree) -> bool {
    let c = alls(r)[s];
    r.tree.has(ep(c)) && witness_for(r.tree, c.tree_entry, u, w) && svs(p.headers@).last() == cert_header(dc, w, with_prefix(path_of(upath_of(c))))
    && (if s.0 { upath_of(c).0 is Wildcard && cand(url_segs(path_text(upath_of(c))), url_segs(u)) } else { upath_of(c).0 is Exact && path_text(upath_of(c)) == u })
    && exists|rc: DefaultRequestCertification, l: Cow<'_, [&str]>| #[trigger] proves(p, cert_of(c), rc, l, q)
}
/// The URL that a stored response was sealed for.
pub open spec fn seal_url(c: CertifiedAssetResponse, k: Key, fall: bool, url: Seq<char>) -> bool { if fall { sealed(c.response, cert_of(c), url, None) } else { url == k.0 } }
pub proof fn lemma_served_verifies(r: AssetRouter, q: HttpRequest, dc: Seq<u8>, p: HttpResponse, url: Seq<char>)
    requires inv(r), r.tree.clean(), served(r, q, dc, p), plain_get(q, (wanted_slot(r, q)->0).1), seal_url(alls(r)[wanted_slot(r, q)->0], (wanted_slot(r, q)->0).1, (wanted_slot(r, q)->0).0, url), uri_of(url)->0.query is None
    ensures exists|w: HashTree| #[trigger] verifies(r, q, dc, p, pct_decoded(uri_of(q.url@)->0.path)->0, wanted_slot(r, q)->0, w)
{
    let u = pct_decoded(uri_of(q.url@)->0.path)->0; let h = svs(q.headers@);
    lemma_route(r, u, accepted(h, 0), asked(h)->0);
    let s = wanted_slot(r, q)->0; let c = alls(r)[s];
    let w = choose|w: HashTree| #[trigger] witness_for(r.tree, c.tree_entry, u, w) && svs(p.headers@) == svs(c.response.headers@).push(cert_header(dc, w, with_prefix(path_of(upath_of(c)))));
    if s.0 { assert(fall_ok(s.1, c)); } else { assert(static_ok(s.1, c)); }
    lemma_any_request(c.response, cert_of(c), url, s.1.2, q, s.1);
    let (rc, l) = choose|rc: DefaultRequestCertification, l: Cow<'_, [&str]>| #[trigger] proves(c.response, cert_of(c), rc, l, q);
    lemma_add_cert(c.response.headers@, p.headers@, DefaultResponseCertificationType::ResponseHeaderExclusions(l), cert_header(dc, w, with_prefix(path_of(upath_of(c)))).1);
    assert(cv(p.body) == cv(c.response.body));
    assert(proves(p, cert_of(c), rc, l, q));
    assert(verifies(r, q, dc, p, u, s, w));
}
//@lemmaprops lemma_served_verifies C24
//@lemmaprops lemma_any_request C24
//@lemmaprops lemma_scope C24
//@lemmaprops lemma_route C24
//@lemmaprops lemma_range_text C28 C24
//@text
// ---------------------------------------------------------------- the chunks are the asset
/// The bodies of the first n chunks, one after the other.
pub open spec fn chunks(m: Resps, u: Seq<char>, e: Option<Seq<char>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { chunks(m, u, e, n - 1) + cv(m[at_range(u, e, (n - 1) * ASSET_CHUNK_SIZE)].response.body) } }
/// The chunks of a stored asset that is too long to be sent at once are stored, are partial responses that name the bytes they hold, and hold the whole asset in order.
pub proof fn lemma_chunks(m: Resps, u: Seq<char>, e: Option<Seq<char>>, n: int)
    requires closed(m), m.dom().contains((u, e, None)), big(m[(u, e, None)]), 0 <= n, n == 0 || (n - 1) * ASSET_CHUNK_SIZE < cv(m[(u, e, None)].response.body).len()
    ensures ({ let body = cv(m[(u, e, None)].response.body); let end = if n * ASSET_CHUNK_SIZE <= body.len() { n * ASSET_CHUNK_SIZE } else { body.len() as int };
        chunks(m, u, e, n) == body.take(end) && forall|i: int| 0 <= i < n ==> m.dom().contains(#[trigger] at_range(u, e, i * ASSET_CHUNK_SIZE)) && partial(m[at_range(u, e, i * ASSET_CHUNK_SIZE)].response, body, (i * ASSET_CHUNK_SIZE) as usize) })
    decreases n
{
    broadcast use group_asset;
    let w: Key = (u, e, None); let body = cv(m[w].response.body);
    if n > 0 {
        let b = (n - 1) * ASSET_CHUNK_SIZE;
        lemma_chunks(m, u, e, n - 1);
        assert(has_chunks(m, w));
        assert(b % ASSET_CHUNK_SIZE as int == 0);
        let k = at_range(w.0, w.1, b);
        assert(m.dom().contains(k));
        assert(body.len() <= isize::MAX) by { ax_body_len(m[w]); }
        assert(k.2 is Some && chunk_of(m, k)); assert(whole_key(k) == w);
        assert(partial(m[k].response, body, b as usize));
        let end = if n * ASSET_CHUNK_SIZE <= body.len() { n * ASSET_CHUNK_SIZE } else { body.len() as int };
        assert(chunk_end(b, body.len() as int) == end);
        assert(chunks(m, u, e, n) =~= body.take(end));
        assert forall|i: int| 0 <= i < n implies m.dom().contains(#[trigger] at_range(u, e, i * ASSET_CHUNK_SIZE)) && partial(m[at_range(u, e, i * ASSET_CHUNK_SIZE)].response, body, (i * ASSET_CHUNK_SIZE) as usize) by { if i == n - 1 { assert(at_range(u, e, i * ASSET_CHUNK_SIZE) == k); } }
    } else { assert(body.take(0) =~= Seq::empty()); }
}
/// assumed: no slice is longer than isize::MAX bytes
pub axiom fn ax_body_len(c: CertifiedAssetResponse) ensures cv(c.response.body).len() <= isize::MAX;
/// Asking for the chunk at b, as its content range asks to be continued, is answered with the chunk at b; asking for no range with the first.
pub proof fn lemma_chunk_served(r: AssetRouter, u: Seq<char>, encs: Seq<Seq<char>>, b: usize, k: Key)
    requires inv(r), route(r, u, encs, None) == Some((false, k)), k.2 is Some
    ensures k.2 == Some(0usize), r.responses@.dom().contains(whole_key(k)) && big(r.responses@[whole_key(k)]),
        b as int % ASSET_CHUNK_SIZE as int == 0 && b < cv(r.responses@[whole_key(k)].response.body).len() && (forall|j: int| 0 <= j < encs.len() && Some(#[trigger] encs[j]) != k.1 ==> pick1(r.responses@, u, Some(encs[j]), Some(b)) is None) ==> route(r, u, encs, Some(b)) == Some((false, at_range(u, k.1, b as int)))
{
    let m = r.responses@;
    lemma_pick(m, u, encs, None, 0); lemma_pick1(m, u, None, None);
    assert(m.dom().contains(k) && chunk_of(m, k));
    if b as int % ASSET_CHUNK_SIZE as int == 0 && b < cv(m[whole_key(k)].response.body).len() && (forall|j: int| 0 <= j < encs.len() && Some(#[trigger] encs[j]) != k.1 ==> pick1(m, u, Some(encs[j]), Some(b)) is None) {
        assert(has_chunks(m, whole_key(k)));
        assert(m.dom().contains(at_range(whole_key(k).0, whole_key(k).1, b as int)));
        assert(pick1(m, u, k.1, Some(b)) == Some(at_range(u, k.1, b as int)));
        lemma_pick_only(m, u, encs, Some(b), k.1, 0);
        if pick(m, u, encs, None, 0) is Some {
            let j = choose|j: int| 0 <= j < encs.len() && pick(m, u, encs, None, 0) == #[trigger] pick1(m, u, Some(encs[j]), None);
            lemma_pick1(m, u, Some(encs[j]), None);
            assert(k.1 == Some(encs[j]));
            lemma_pick_has(m, u, encs, Some(b), 0, j);
        }
    }
}
pub proof fn lemma_pick_only(m: Resps, u: Seq<char>, encs: Seq<Seq<char>>, rng: Option<usize>, e: Option<Seq<char>>, i: int)
    requires 0 <= i, forall|j: int| 0 <= j < encs.len() && Some(#[trigger] encs[j]) != e ==> pick1(m, u, Some(encs[j]), rng) is None
    ensures pick(m, u, encs, rng, i) is Some ==> pick(m, u, encs, rng, i) == pick1(m, u, e, rng) decreases encs.len() - i
{ if i < encs.len() { lemma_pick_only(m, u, encs, rng, e, i + 1); if Some(encs[i]) != e { assert(pick1(m, u, Some(encs[i]), rng) is None); } } }
pub proof fn lemma_pick_has(m: Resps, u: Seq<char>, encs: Seq<Seq<char>>, rng: Option<usize>, i: int, j: int) requires 0 <= i <= j < encs.len(), pick1(m, u, Some(encs[j]), rng) is Some ensures pick(m, u, encs, rng, i) is Some decreases j - i
{ if i < j { lemma_pick_has(m, u, encs, rng, i + 1, j); } }
//@lemmaprops lemma_chunks C28
//@lemmaprops lemma_chunk_served C28
