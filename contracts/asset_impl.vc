//@text
// ---------------------------------------------------------------- certifying and deleting one asset with its aliases and fallbacks
pub open spec fn fbs_of(c: Option<&NormalizedAssetConfig>) -> Seq<AssetFallbackConfig> { match c { Some(NormalizedAssetConfig::File { fallback_for, .. }) => fallback_for@, _ => Seq::empty() } }
pub open spec fn als_of(c: Option<&NormalizedAssetConfig>) -> Seq<String> { match c { Some(NormalizedAssetConfig::File { aliased_by, .. }) => aliased_by@, _ => Seq::empty() } }
pub open spec fn ct_of(c: Option<&NormalizedAssetConfig>) -> Option<Seq<char>> { match c { Some(NormalizedAssetConfig::File { content_type, .. }) => optv(*content_type), Some(NormalizedAssetConfig::Pattern { content_type, .. }) => optv(*content_type), _ => None } }
pub open spec fn hs_of(c: Option<&NormalizedAssetConfig>) -> Seq<(Seq<char>, Seq<char>)> { match c { Some(NormalizedAssetConfig::File { headers, .. }) => svs(headers@), Some(NormalizedAssetConfig::Pattern { headers, .. }) => svs(headers@), _ => Seq::empty() } }
/// u is the asset's URL or one of its first n aliases.
pub open spec fn target(als: Seq<String>, n: int, url: Seq<char>, u: Seq<char>) -> bool { u == url || exists|i: int| 0 <= i < n && (#[trigger] als[i])@ == u }
/// z is one of the first n fallback scopes.
pub open spec fn scoped(fbs: Seq<AssetFallbackConfig>, n: int, z: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] fbs[i]).scope@ == z }
/// Nothing else changed.
pub open spec fn only_at(a: Resps, b: Resps, e: Option<Seq<char>>, hit: spec_fn(Seq<char>) -> bool) -> bool {
    forall|k: Key| !(k.1 == e && hit(k.0)) ==> #[trigger] b.dom().contains(k) == a.dom().contains(k) && (a.dom().contains(k) ==> b[k] == a[k])
}
pub open spec fn gone_at(b: Resps, e: Option<Seq<char>>, hit: spec_fn(Seq<char>) -> bool) -> bool { forall|k: Key| #[trigger] b.dom().contains(k) ==> !(k.1 == e && hit(k.0)) }
pub open spec fn all_stored(m: Resps, e: Option<Seq<char>>, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, hit: spec_fn(Seq<char>) -> bool) -> bool {
    forall|u: Seq<char>| #[trigger] hit(u) ==> stored(m, u, e, content, hs, ct)
}
pub open spec fn fall_stored(m: Resps, fbs: Seq<AssetFallbackConfig>, n: int, e: Option<Seq<char>>, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>) -> bool {
    forall|z: Seq<char>| #[trigger] scoped(fbs, n, z) ==> m.dom().contains((z, e, None)) && exists|i: int| 0 <= i < n && (#[trigger] fbs[i]).scope@ == z && shows(m[(z, e, None)].response, content, hs, ct, e, None, fbs[i].status_code)
}
pub open spec fn hit_url(als: Seq<String>, n: int, url: Seq<char>) -> spec_fn(Seq<char>) -> bool { |u: Seq<char>| target(als, n, url, u) }
pub open spec fn hit_scope(fbs: Seq<AssetFallbackConfig>, n: int) -> spec_fn(Seq<char>) -> bool { |z: Seq<char>| scoped(fbs, n, z) }
pub proof fn lemma_same_keys(a: Resps, b: Resps, u: Seq<char>, e: Option<Seq<char>>, k: Key) requires others_same(a, b, u, e), !mine(k, u, e) ensures b.dom().contains(k) == a.dom().contains(k), a.dom().contains(k) ==> b[k] == a[k]
{
    let x = without(a, u, e); let y = without(b, u, e);
    assert(x.dom().contains(k) == a.dom().contains(k)); assert(y.dom().contains(k) == b.dom().contains(k));
    if a.dom().contains(k) { assert(x[k] == a[k]); assert(y[k] == b[k]); }
}
pub proof fn lemma_stored_more(a: Resps, b: Resps, als: Seq<String>, i: int, url: Seq<char>, e: Option<Seq<char>>, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, m0: Resps)
    requires 0 <= i < als.len(), all_stored(a, e, content, hs, ct, hit_url(als, i, url)), only_at(m0, a, e, hit_url(als, i, url)), others_same(a, b, als[i]@, e), stored(b, als[i]@, e, content, hs, ct)
    ensures all_stored(b, e, content, hs, ct, hit_url(als, i + 1, url)), only_at(m0, b, e, hit_url(als, i + 1, url))
{
    let h0 = hit_url(als, i, url); let h1 = hit_url(als, i + 1, url);
    assert forall|u: Seq<char>| #[trigger] h1(u) implies stored(b, u, e, content, hs, ct) by {
        if u != als[i]@ {
            assert(h0(u));
            lemma_same_keys(a, b, als[i]@, e, (u, e, None));
            assert forall|k: Key| #[trigger] b.dom().contains(k) && mine(k, u, e) && k.2 is Some implies shows(b[k].response, content, hs, ct, e, k.2, None) by { lemma_same_keys(a, b, als[i]@, e, k); assert(a.dom().contains(k)); }
        }
    }
    assert forall|k: Key| !(k.1 == e && h1(k.0)) implies #[trigger] b.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> b[k] == m0[k]) by {
        if k.1 == e { assert(als[i]@ != k.0); assert(!h0(k.0)) by { if h0(k.0) && k.0 != url { let x = choose|x: int| 0 <= x < i && (#[trigger] als[x])@ == k.0; assert(als[x]@ == k.0); } } }
        lemma_same_keys(a, b, als[i]@, e, k); assert(a.dom().contains(k) == m0.dom().contains(k));
    }
}
pub proof fn lemma_first(m0: Resps, m: Resps, als: Seq<String>, url: Seq<char>, e: Option<Seq<char>>) requires others_same(m0, m, url, e) ensures only_at(m0, m, e, hit_url(als, 0, url))
{
    let h = hit_url(als, 0, url);
    assert forall|k: Key| !(k.1 == e && h(k.0)) implies #[trigger] m.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> m[k] == m0[k]) by { assert(h(url)); lemma_same_keys(m0, m, url, e, k); }
}
pub proof fn lemma_wider(m0: Resps, m: Resps, e: Option<Seq<char>>, h: spec_fn(Seq<char>) -> bool, g: spec_fn(Seq<char>) -> bool) requires only_at(m0, m, e, h), forall|u: Seq<char>| #[trigger] h(u) ==> g(u) ensures only_at(m0, m, e, g) { }
pub proof fn lemma_hits(als: Seq<String>, fbs: Seq<AssetFallbackConfig>, i: int, j: int, n: int, url: Seq<char>)
    requires 0 <= i <= n, 0 <= j <= n
    ensures forall|u: Seq<char>| #[trigger] hit_url(als, i, url)(u) ==> hit_url(als, n, url)(u), forall|u: Seq<char>| #[trigger] hit_scope(fbs, j)(u) ==> hit_scope(fbs, n)(u)
{
    assert forall|u: Seq<char>| #[trigger] hit_url(als, i, url)(u) implies hit_url(als, n, url)(u) by { if u != url { let x = choose|x: int| 0 <= x < i && (#[trigger] als[x])@ == u; assert(0 <= x < n && als[x]@ == u); } }
    assert forall|u: Seq<char>| #[trigger] hit_scope(fbs, j)(u) implies hit_scope(fbs, n)(u) by { let x = choose|x: int| 0 <= x < j && (#[trigger] fbs[x]).scope@ == u; assert(0 <= x < n && fbs[x].scope@ == u); }
}
pub proof fn lemma_fall_more(a: Resps, b: Resps, fbs: Seq<AssetFallbackConfig>, i: int, e: Option<Seq<char>>, content: Seq<u8>, hs: Seq<(Seq<char>, Seq<char>)>, ct: Option<Seq<char>>, m0: Resps)
    requires 0 <= i < fbs.len(), fall_stored(a, fbs, i, e, content, hs, ct), only_at(m0, a, e, hit_scope(fbs, i)), b.dom().contains((fbs[i].scope@, e, None)),
        b == a.insert((fbs[i].scope@, e, None), b[(fbs[i].scope@, e, None)]), shows(b[(fbs[i].scope@, e, None)].response, content, hs, ct, e, None, fbs[i].status_code)
    ensures fall_stored(b, fbs, i + 1, e, content, hs, ct), only_at(m0, b, e, hit_scope(fbs, i + 1))
{
    let z0 = fbs[i].scope@; let k0: Key = (z0, e, None);
    let h0 = hit_scope(fbs, i); let h1 = hit_scope(fbs, i + 1);
    assert(h1(z0)) by { assert(fbs[i].scope@ == z0); }
    lemma_hits(Seq::empty(), fbs, 0, i, i + 1, Seq::empty());
    assert forall|z: Seq<char>| #[trigger] scoped(fbs, i + 1, z) implies b.dom().contains((z, e, None)) && exists|x: int| 0 <= x < i + 1 && (#[trigger] fbs[x]).scope@ == z && shows(b[(z, e, None)].response, content, hs, ct, e, None, fbs[x].status_code) by {
        if z == z0 { assert(fbs[i].scope@ == z); }
        else {
            assert(scoped(fbs, i, z)) by { let x = choose|x: int| 0 <= x < i + 1 && (#[trigger] fbs[x]).scope@ == z; assert(x < i && fbs[x].scope@ == z); }
            let x = choose|x: int| 0 <= x < i && (#[trigger] fbs[x]).scope@ == z && shows(a[(z, e, None)].response, content, hs, ct, e, None, fbs[x].status_code);
            assert(fbs[x].scope@ == z && b[(z, e, None)] == a[(z, e, None)]);
        }
    }
    assert forall|k: Key| !(k.1 == e && h1(k.0)) implies #[trigger] b.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> b[k] == m0[k]) by { if k.1 == e && h0(k.0) { assert(h1(k.0)); } assert(a.dom().contains(k) == m0.dom().contains(k)); }
}
pub proof fn lemma_gone_more(a: Resps, b: Resps, m0: Resps, e: Option<Seq<char>>, u: Seq<char>, h0: spec_fn(Seq<char>) -> bool, h1: spec_fn(Seq<char>) -> bool)
    requires gone_at(a, e, h0), only_at(m0, a, e, h0), b == without(a, u, e), forall|x: Seq<char>| #[trigger] h1(x) == (h0(x) || x == u)
    ensures gone_at(b, e, h1), only_at(m0, b, e, h1)
{
    assert forall|k: Key| #[trigger] b.dom().contains(k) implies !(k.1 == e && h1(k.0)) by { assert(a.dom().contains(k)); assert(!mine(k, u, e)); }
    assert forall|k: Key| !(k.1 == e && h1(k.0)) implies #[trigger] b.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> b[k] == m0[k]) by { assert(h1(u)); assert(!mine(k, u, e)); assert(a.dom().contains(k) == m0.dom().contains(k)); }
}
pub proof fn lemma_hit_next(als: Seq<String>, fbs: Seq<AssetFallbackConfig>, i: int, url: Seq<char>) requires 0 <= i
    ensures i < als.len() ==> forall|x: Seq<char>| #[trigger] hit_url(als, i + 1, url)(x) == (hit_url(als, i, url)(x) || x == als[i]@), i < fbs.len() ==> forall|x: Seq<char>| #[trigger] hit_scope(fbs, i + 1)(x) == (hit_scope(fbs, i)(x) || x == fbs[i].scope@),
        forall|x: Seq<char>| #[trigger] hit_url(als, 0, url)(x) == (x == url), forall|x: Seq<char>| !#[trigger] hit_scope(fbs, 0)(x)
{
    if i < als.len() { assert forall|x: Seq<char>| #[trigger] hit_url(als, i + 1, url)(x) == (hit_url(als, i, url)(x) || x == als[i]@) by {
        if x == als[i]@ { assert(als[i]@ == x); }
        if hit_url(als, i + 1, url)(x) && x != url { let y = choose|y: int| 0 <= y < i + 1 && (#[trigger] als[y])@ == x; if y < i { assert(als[y]@ == x); } }
        if hit_url(als, i, url)(x) && x != url { let y = choose|y: int| 0 <= y < i && (#[trigger] als[y])@ == x; assert(0 <= y < i + 1 && als[y]@ == x); }
    } }
    if i < fbs.len() { assert forall|x: Seq<char>| #[trigger] hit_scope(fbs, i + 1)(x) == (hit_scope(fbs, i)(x) || x == fbs[i].scope@) by {
        if x == fbs[i].scope@ { assert(fbs[i].scope@ == x); }
        if hit_scope(fbs, i + 1)(x) { let y = choose|y: int| 0 <= y < i + 1 && (#[trigger] fbs[y]).scope@ == x; if y < i { assert(fbs[y].scope@ == x); } }
        if hit_scope(fbs, i)(x) { let y = choose|y: int| 0 <= y < i && (#[trigger] fbs[y]).scope@ == x; assert(0 <= y < i + 1 && fbs[y].scope@ == x); }
    } }
}
//@take ar AssetRouter::certify_asset_impl AssetRouter::delete_asset_impl
//@fn AssetRouter::certify_asset_impl C24 C25
//@ret r
//@opt inline-iter
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), ({
            let e = opt_name(encoding); let als = als_of(asset_config); let fbs = fbs_of(asset_config);
            only_at(old(self).responses@, final(self).responses@, e, hit_url(als, als.len() as int, asset.url@)) && only_at(old(self).fallback_responses@, final(self).fallback_responses@, e, hit_scope(fbs, fbs.len() as int))
            && (r is Ok ==> all_stored(final(self).responses@, e, cv(asset.content), hs_of(asset_config), ct_of(asset_config), hit_url(als, als.len() as int, asset.url@))
                && fall_stored(final(self).fallback_responses@, fbs, fbs.len() as int, e, cv(asset.content), hs_of(asset_config), ct_of(asset_config))) })
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost e = opt_name(encoding);
    let ghost url = asset.url@;
    let ghost a0 = asset;
    let ghost content = cv(asset.content);
    let ghost als = als_of(asset_config);
    let ghost fbs = fbs_of(asset_config);
    let ghost hs = hs_of(asset_config);
    let ghost ct = ct_of(asset_config);
    proof { match asset_config { Some(NormalizedAssetConfig::Pattern { headers, .. }) => { lemma_cloned_headers(headers@); }, Some(NormalizedAssetConfig::File { headers, .. }) => { lemma_cloned_headers(headers@); }, _ => { } } lemma_hits(als, fbs, 0, 0, als.len() as int, url); lemma_hits(als, fbs, 0, 0, fbs.len() as int, url); lemma_hit_next(als, fbs, 0, url); assert(svs(Seq::<(String, String)>::empty()) =~= Seq::empty()); }
//@after `self.insert_static_asset(asset, content_type.clone(), headers.clone(), encoding)?;`
    proof { lemma_first(r0.responses@, self.responses@, als, url, e); }
//@after `self.insert_static_asset(asset, None, vec![], encoding)?;`
    proof { lemma_first(r0.responses@, self.responses@, als, url, e); }
//@before `for fallback_for in fallback_for.iter() {`
    let ghost m1 = self.responses@;
    proof { lemma_first(r0.responses@, m1, als, url, e); }
//@loop 0
    invariant r0 == *old(self), url == a0.url@, als == als_of(asset_config), fbs == fbs_of(asset_config), inv(*self), own(r0) ==> own(*self), asset == a0, cv(a0.content) == content, e == opt_name(encoding), optv(*content_type) == ct, svs(headers@) == hs, self.responses@ == m1, **rv_v0 == *fallback_for, fallback_for@ == fbs, rv_i0 <= fbs.len(), only_at(r0.responses@, m1, e, hit_url(als, 0, url)), all_stored(m1, e, content, hs, ct, hit_url(als, 0, url)),
        only_at(r0.fallback_responses@, self.fallback_responses@, e, hit_scope(fbs, rv_i0 as int)), fall_stored(self.fallback_responses@, fbs, rv_i0 as int, e, content, hs, ct)
    ensures rv_i0 == fbs.len()
    decreases fbs.len() - rv_i0
//@loopentry 0
    broadcast use group_asset;
    let ghost mid = *self;
    let ghost i = rv_i0 - 1;
    proof { lemma_cloned_headers(headers@); lemma_hits(als, fbs, 0, i, fbs.len() as int, url); lemma_hits(als, fbs, 0, 0, als.len() as int, url);
        lemma_wider(r0.fallback_responses@, mid.fallback_responses@, e, hit_scope(fbs, i), hit_scope(fbs, fbs.len() as int)); lemma_wider(r0.responses@, m1, e, hit_url(als, 0, url), hit_url(als, als.len() as int, url)); }
//@loopend 0
    proof { lemma_fall_more(mid.fallback_responses@, self.fallback_responses@, fbs, i, e, content, hs, ct, r0.fallback_responses@); }
//@before `for aliased_by in aliased_by.iter() {`
    let ghost f1 = self.fallback_responses@;
//@loop 1
    invariant r0 == *old(self), url == a0.url@, als == als_of(asset_config), fbs == fbs_of(asset_config), inv(*self), own(r0) ==> own(*self), asset == a0, cv(a0.content) == content, e == opt_name(encoding), optv(*content_type) == ct, svs(headers@) == hs, self.fallback_responses@ == f1, **rv_v1 == *aliased_by, aliased_by@ == als, rv_i1 <= als.len(), only_at(r0.fallback_responses@, f1, e, hit_scope(fbs, fbs.len() as int)), fall_stored(f1, fbs, fbs.len() as int, e, content, hs, ct),
        only_at(r0.responses@, self.responses@, e, hit_url(als, rv_i1 as int, url)), all_stored(self.responses@, e, content, hs, ct, hit_url(als, rv_i1 as int, url))
    ensures rv_i1 == als.len()
    decreases als.len() - rv_i1
//@loopentry 1
    broadcast use group_asset;
    let ghost mid = *self;
    let ghost i = rv_i1 - 1;
    proof { lemma_cloned_headers(headers@); lemma_hits(als, fbs, i, 0, als.len() as int, url); lemma_wider(r0.responses@, mid.responses@, e, hit_url(als, i, url), hit_url(als, als.len() as int, url)); }
//@loopend 1
    proof { lemma_stored_more(mid.responses@, self.responses@, als, i, url, e, content, hs, ct, r0.responses@); }
//@fn AssetRouter::delete_asset_impl C25
//@ret r
//@opt inline-iter
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)), ({
            let e = opt_name(encoding); let als = als_of(asset_config); let fbs = fbs_of(asset_config);
            only_at(old(self).responses@, final(self).responses@, e, hit_url(als, als.len() as int, asset.url@)) && only_at(old(self).fallback_responses@, final(self).fallback_responses@, e, hit_scope(fbs, fbs.len() as int))
            && (r is Ok ==> gone_at(final(self).responses@, e, hit_url(als, als.len() as int, asset.url@)) && gone_at(final(self).fallback_responses@, e, hit_scope(fbs, fbs.len() as int))) })
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost e = opt_name(encoding);
    let ghost url = asset.url@;
    let ghost a0 = asset;
    let ghost content = cv(asset.content);
    let ghost als = als_of(asset_config);
    let ghost fbs = fbs_of(asset_config);
    let ghost hs = hs_of(asset_config);
    let ghost ct = ct_of(asset_config);
    proof { lemma_shrunk_same(*self); match asset_config { Some(NormalizedAssetConfig::Pattern { headers, .. }) => { lemma_cloned_headers(headers@); }, Some(NormalizedAssetConfig::File { headers, .. }) => { lemma_cloned_headers(headers@); }, _ => { } } lemma_hits(als, fbs, 0, 0, als.len() as int, url); lemma_hits(als, fbs, 0, 0, fbs.len() as int, url); lemma_hit_next(als, fbs, 0, url); assert(svs(Seq::<(String, String)>::empty()) =~= Seq::empty()); }
//@after `self.delete_static_asset(asset, content_type.clone(), headers.clone(), encoding)?;`
    proof { lemma_gone_more(r0.responses@, self.responses@, r0.responses@, e, url, |u: Seq<char>| false, hit_url(als, 0, url)); }
//@after `self.delete_static_asset(asset, None, vec![], encoding)?;`
    proof { lemma_gone_more(r0.responses@, self.responses@, r0.responses@, e, url, |u: Seq<char>| false, hit_url(als, 0, url)); }
//@before `for fallback_for in fallback_for.iter() {`
    let ghost m1 = self.responses@;
    proof { lemma_gone_more(r0.responses@, self.responses@, r0.responses@, e, url, |u: Seq<char>| false, hit_url(als, 0, url)); }
//@loop 0
    invariant r0 == *old(self), url == a0.url@, als == als_of(asset_config), fbs == fbs_of(asset_config), inv(*self), own(r0) ==> own(*self), asset == a0, cv(a0.content) == content, e == opt_name(encoding), optv(*content_type) == ct, svs(headers@) == hs, self.responses@ == m1, **rv_v0 == *fallback_for, fallback_for@ == fbs, rv_i0 <= fbs.len(), only_at(r0.responses@, m1, e, hit_url(als, 0, url)), gone_at(m1, e, hit_url(als, 0, url)),
        only_at(r0.fallback_responses@, self.fallback_responses@, e, hit_scope(fbs, rv_i0 as int)), gone_at(self.fallback_responses@, e, hit_scope(fbs, rv_i0 as int)), shrunk(r0, *self)
    ensures rv_i0 == fbs.len()
    decreases fbs.len() - rv_i0
//@loopentry 0
    broadcast use group_asset;
    let ghost mid = *self;
    let ghost i = rv_i0 - 1;
    proof { lemma_cloned_headers(headers@); lemma_hits(als, fbs, 0, i, fbs.len() as int, url); lemma_hits(als, fbs, 0, 0, als.len() as int, url);
        lemma_wider(r0.fallback_responses@, mid.fallback_responses@, e, hit_scope(fbs, i), hit_scope(fbs, fbs.len() as int)); lemma_wider(r0.responses@, m1, e, hit_url(als, 0, url), hit_url(als, als.len() as int, url)); }
//@loopend 0
    proof { lemma_hit_next(als, fbs, i, url); lemma_shrunk(r0, mid, *self); lemma_gone_more(mid.fallback_responses@, self.fallback_responses@, r0.fallback_responses@, e, fbs[i].scope@, hit_scope(fbs, i), hit_scope(fbs, i + 1)); }
//@before `for aliased_by in aliased_by.iter() {`
    let ghost f1 = self.fallback_responses@;
//@loop 1
    invariant r0 == *old(self), url == a0.url@, als == als_of(asset_config), fbs == fbs_of(asset_config), inv(*self), own(r0) ==> own(*self), asset == a0, cv(a0.content) == content, e == opt_name(encoding), optv(*content_type) == ct, svs(headers@) == hs, self.fallback_responses@ == f1, **rv_v1 == *aliased_by, aliased_by@ == als, rv_i1 <= als.len(), only_at(r0.fallback_responses@, f1, e, hit_scope(fbs, fbs.len() as int)), gone_at(f1, e, hit_scope(fbs, fbs.len() as int)),
        only_at(r0.responses@, self.responses@, e, hit_url(als, rv_i1 as int, url)), gone_at(self.responses@, e, hit_url(als, rv_i1 as int, url)), shrunk(r0, *self)
    ensures rv_i1 == als.len()
    decreases als.len() - rv_i1
//@loopentry 1
    broadcast use group_asset;
    let ghost mid = *self;
    let ghost i = rv_i1 - 1;
    proof { lemma_cloned_headers(headers@); lemma_hits(als, fbs, i, 0, als.len() as int, url); lemma_wider(r0.responses@, mid.responses@, e, hit_url(als, i, url), hit_url(als, als.len() as int, url)); }
//@loopend 1
    proof { lemma_hit_next(als, fbs, i, url); lemma_shrunk(r0, mid, *self); lemma_gone_more(mid.responses@, self.responses@, r0.responses@, e, als[i]@, hit_url(als, i, url), hit_url(als, i + 1, url)); }
