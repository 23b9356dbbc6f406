//@text
// ---------------------------------------------------------------- adding an asset
/// What certifying an asset leaves in the map: the whole response and, when it is too long to be sent at once, its chunks.
pub open spec fn stored(m: Resps, u: Seq<char>, e: Option<Seq<char>>, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>) -> bool {
    m.dom().contains((u, e, None)) && shows(m[(u, e, None)].response, content, hs, ct, e, None, None)
    && forall|k: Key| #[trigger] m.dom().contains(k) && mine(k, u, e) && k.2 is Some ==> shows(m[k].response, content, hs, ct, e, k.2, None)
}
pub proof fn lemma_partial(r: HttpResponse, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, e: Option<Seq<char>>, b: usize)
    requires shows(r, content, hs, ct, e, Some(b), None) ensures partial(r, content, b)
{
    let x = ("content-range"@, content_range(b as int, content.len() as int));
    let a = asset_hdrs(content.len() as int, hs, ct, e, Some(b));
    assert(a.len() > 0 && a[a.len() - 1] == x);
    let t = choose|t: Seq<char>| #[trigger] svs(r.headers@) == (seq![("content-length"@, dec(part(content, Some(b)).len() as int))] + a).push(("IC-CertificateExpression"@, t));
    assert(svs(r.headers@)[a.len() as int] == x);
}
/// The keys of the responses that are put in: those of the chunks, and then the whole.
pub open spec fn list_ok(all: Seq<(Option<usize>, CertifiedAssetResponse)>, n: int, u: Seq<char>) -> bool {
    all.len() == n + 1 && all[n].0 is None && static_made(all[n].1, u, None)
    && forall|i: int| 0 <= i < n ==> (#[trigger] all[i]).0 is Some && all[i].0->0 as int == i * ASSET_CHUNK_SIZE && static_made(all[i].1, u, all[i].0)
}
pub open spec fn so_far(m1: Resps, m: Resps, u: Seq<char>, e: Option<Seq<char>>, all: Seq<(Option<usize>, CertifiedAssetResponse)>, j: int) -> bool {
    (forall|k: Key| #[trigger] m1.dom().contains(k) ==> m.dom().contains(k) && m[k] == m1[k])
    && (forall|k: Key| #[trigger] m.dom().contains(k) && !mine(k, u, e) ==> m1.dom().contains(k))
    && (forall|k: Key| #[trigger] m.dom().contains(k) && mine(k, u, e) ==> exists|i: int| 0 <= i < j && (#[trigger] all[i]).0 == k.2)
    && (forall|i: int| 0 <= i < j ==> m.dom().contains((u, e, (#[trigger] all[i]).0)) && m[(u, e, all[i].0)] == all[i].1)
}
pub proof fn lemma_stored(m0: Resps, m: Resps, u: Seq<char>, e: Option<Seq<char>>, all: Seq<(Option<usize>, CertifiedAssetResponse)>, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, n: int)
    requires closed(m0), so_far(without(m0, u, e), m, u, e, all, n + 1), list_ok(all, n, u), 0 <= n, content.len() <= isize::MAX,
        n * ASSET_CHUNK_SIZE >= content.len() || n == 0, n == 0 || (n - 1) * ASSET_CHUNK_SIZE < content.len(), n > 0 <==> content.len() > ASSET_CHUNK_SIZE,
        forall|i: int| 0 <= i <= n ==> shows((#[trigger] all[i]).1.response, content, hs, ct, e, all[i].0, None)
    ensures closed(m), stored(m, u, e, content, hs, ct)
{
    let m1 = without(m0, u, e);
    lemma_without(m0, u, e);
    let w: Key = (u, e, None);
    assert(m.dom().contains((u, e, all[n].0)) && m[w] == all[n].1);
    assert(cv(m[w].response.body) == content);
    assert forall|k: Key| #[trigger] m.dom().contains(k) && mine(k, u, e) && k.2 is Some implies shows(m[k].response, content, hs, ct, e, k.2, None) && chunk_of(m, k) by {
        let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).0 == k.2;
        assert(i < n);
        assert(k == (u, e, all[i].0) && m[k] == all[i].1);
        lemma_partial(m[k].response, content, hs, ct, e, k.2->0);
        assert(whole_key(k) == w);
        assert(i * ASSET_CHUNK_SIZE <= (n - 1) * ASSET_CHUNK_SIZE);
        assert(i * ASSET_CHUNK_SIZE as int % ASSET_CHUNK_SIZE as int == 0);
    }
    assert forall|k: Key| #[trigger] m.dom().contains(k) && k.2 is Some implies chunk_of(m, k) by {
        if !mine(k, u, e) { assert(m1.dom().contains(k)); assert(chunk_of(m1, k)); assert(m1.dom().contains(whole_key(k))); }
    }
    assert forall|k: Key| #[trigger] m.dom().contains(k) && k.2 is None && big(m[k]) implies has_chunks(m, k) by {
        if mine(k, u, e) {
            assert(k == w);
            assert forall|b: int| 0 <= b < content.len() && b % ASSET_CHUNK_SIZE as int == 0 implies m.dom().contains(#[trigger] at_range(u, e, b)) by {
                let i = b / ASSET_CHUNK_SIZE as int;
                assert(b == i * ASSET_CHUNK_SIZE);
                assert(i < n);
                assert(all[i].0 == Some(b as usize));
            }
        } else {
            assert(m1.dom().contains(k)); assert(has_chunks(m1, k));
            assert forall|b: int| 0 <= b < cv(m[k].response.body).len() && b % ASSET_CHUNK_SIZE as int == 0 implies m.dom().contains(#[trigger] at_range(k.0, k.1, b)) by { assert(m1.dom().contains(at_range(k.0, k.1, b))); }
        }
    }
}
pub proof fn lemma_step(a: AssetRouter, b: AssetRouter, m1: Resps, u: Seq<char>, e: Option<Seq<char>>, all: Seq<(Option<usize>, CertifiedAssetResponse)>, n: int, j: int)
    requires half(a), 0 <= j <= n, list_ok(all, n, u), known(e), so_far(m1, a.responses@, u, e, all, j), forall|k: Key| #[trigger] m1.dom().contains(k) ==> !mine(k, u, e),
        put(a.tree, b.tree, ep(all[j].1)), b.responses@ == a.responses@.insert((u, e, all[j].0), all[j].1), b.fallback_responses@ == a.fallback_responses@
    ensures half(b), own(a) ==> own(b), so_far(m1, b.responses@, u, e, all, j + 1)
{
    let k0: Key = (u, e, all[j].0);
    if a.responses@.dom().contains(k0) {
        let i = choose|i: int| 0 <= i < j && (#[trigger] all[i]).0 == k0.2;
        assert(i < n);
        if j < n { assert(all[i].0->0 as int == i * ASSET_CHUNK_SIZE && all[j].0->0 as int == j * ASSET_CHUNK_SIZE); }
        assert(false);
    }
    lemma_add(a, b, (false, k0), all[j].1);
    assert forall|k: Key| #[trigger] b.responses@.dom().contains(k) && mine(k, u, e) implies exists|i: int| 0 <= i < j + 1 && (#[trigger] all[i]).0 == k.2 by { if k == k0 { assert(all[j].0 == k.2); } else { assert(a.responses@.dom().contains(k)); } }
    assert forall|k: Key| #[trigger] b.responses@.dom().contains(k) && !mine(k, u, e) implies m1.dom().contains(k) by { assert(a.responses@.dom().contains(k)); }
    assert forall|i: int| 0 <= i < j + 1 implies b.responses@.dom().contains((u, e, (#[trigger] all[i]).0)) && b.responses@[(u, e, all[i].0)] == all[i].1 by { if i < j { assert(a.responses@.dom().contains((u, e, all[i].0))); } }
}
pub proof fn lemma_cloned_headers(a: Seq<(String, String)>)
    ensures forall|h: Seq<(String, String)>| h.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> vstd::pervasive::cloned(#[trigger] a[i], h[i])) ==> #[trigger] svs(h) == svs(a)
{
    broadcast use group_asset;
    assert forall|h: Seq<(String, String)>| h.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> vstd::pervasive::cloned(#[trigger] a[i], h[i])) implies #[trigger] svs(h) == svs(a) by { assert forall|i: int| 0 <= i < a.len() implies svs(h)[i] == svs(a)[i] by { assert(vstd::pervasive::cloned(a[i], h[i])); } assert(svs(h) =~= svs(a)); }
}
/// The map with the responses of one path in one encoding replaced.
pub open spec fn others_same(a: Resps, b: Resps, u: Seq<char>, e: Option<Seq<char>>) -> bool { without(a, u, e) == without(b, u, e) }
//@take ar AssetRouter::insert_static_asset
//@fn AssetRouter::insert_static_asset C24 C25 C28
//@ret r
//@opt inline-own
//@subst `let mut responses = vec![];` => `let mut responses: Vec<(Option<usize>, CertifiedAssetResponse<'content>)> = vec![];`
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), final(self).fallback_responses@ == old(self).fallback_responses@,
        match r {
            Err(_) => *final(self) == *old(self),
            Ok(_) => others_same(old(self).responses@, final(self).responses@, asset.url@, opt_name(encoding)) && stored(final(self).responses@, asset.url@, opt_name(encoding), cv(asset.content), svs(additional_headers@), optv(content_type)),
        }
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost a0 = asset;
    let ghost e = opt_name(encoding);
    let ghost u = asset.url@;
    let ghost content = cv(asset.content);
    let ghost hs = svs(additional_headers@);
    let ghost ct = optv(content_type);
//@loop 0
    invariant *self == r0, inv(r0), asset == a0, e == opt_name(encoding), u == asset.url@, content == cv(asset.content), hs == svs(additional_headers@), ct == optv(content_type), content.len() <= isize::MAX,
        range_begin as int == responses@.len() * ASSET_CHUNK_SIZE, responses@.len() > 0 ==> (responses@.len() - 1) * ASSET_CHUNK_SIZE < content.len(),
        forall|i: int| 0 <= i < responses@.len() ==> (#[trigger] responses@[i]).0 is Some && responses@[i].0->0 as int == i * ASSET_CHUNK_SIZE && static_made(responses@[i].1, u, responses@[i].0) && shows(responses@[i].1.response, content, hs, ct, e, responses@[i].0, None)
    decreases (if content.len() > range_begin { content.len() - range_begin } else { 0 })
//@loopentry 0
    broadcast use group_asset;
    proof { lemma_cloned_headers(additional_headers@); }
//@after `responses.push((None, response));`
    let ghost all = responses@;
    let ghost n = all.len() - 1;
    proof { assert(list_ok(all, n, u)); }
//@after `self.remove_static_responses(&asset_url, encoding);`
    let ghost m1 = self.responses@;
//@loop 1
    invariant half(*self), own(r0) ==> own(*self), self.fallback_responses@ == r0.fallback_responses@, asset_url@ == u, e == opt_name(encoding), known(e), all.len() == n + 1, list_ok(all, n, u),
        forall|k: Key| #[trigger] m1.dom().contains(k) ==> !mine(k, u, e),
        rv_v1@.len() <= all.len(), rv_v1@ =~= all.skip(all.len() - rv_v1@.len()), so_far(m1, self.responses@, u, e, all, all.len() - rv_v1@.len())
    ensures rv_v1@.len() == 0
    decreases rv_v1@.len()
//@loopentry 1
    broadcast use group_asset;
    let ghost mid = *self;
    let ghost j = all.len() - rv_v1@.len() - 1;
    proof { assert(all[j] == (range_begin, response)); }
//@loopend 1
    proof { lemma_step(mid, *self, m1, u, e, all, n, j); }
//@tail
    proof {
        lemma_stored(r0.responses@, self.responses@, u, e, all, content, hs, ct, n);
        let m = self.responses@;
        assert forall|k: Key| without(r0.responses@, u, e).dom().contains(k) implies without(m, u, e).dom().contains(k) && m[k] == r0.responses@[k] by { assert(m1.dom().contains(k)); }
        assert(without(m, u, e) =~= without(r0.responses@, u, e));
    }
