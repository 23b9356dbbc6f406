//@text
// ---------------------------------------------------------------- the router's invariant
pub open spec fn ep(c: CertifiedAssetResponse) -> Path { entry_path(c.tree_entry) }
pub open spec fn known(e: Option<Seq<char>>) -> bool { e is None || exists|x: AssetEncoding| e == Some(#[trigger] enc_name(x)) }
pub open spec fn big(c: CertifiedAssetResponse) -> bool { cv(c.response.body).len() > ASSET_CHUNK_SIZE }
pub open spec fn whole_key(k: Key) -> Key { (k.0, k.1, None) }
pub open spec fn at_range(u: Seq<char>, e: Option<Seq<char>>, b: int) -> Key { (u, e, Some(b as usize)) }
/// A partial response: exactly the bytes that its content range names.
pub open spec fn partial(c: HttpResponse, body: Seq<u8>, b: usize) -> bool {
    c.status_code.0@ == 206 && cv(c.body) == part(body, Some(b)) && svs(c.headers@).contains(("content-range"@, content_range(b as int, body.len() as int)))
}
pub open spec fn static_ok(k: Key, c: CertifiedAssetResponse) -> bool { static_made(c, k.0, k.2) && known(k.1) }
pub open spec fn fall_ok(k: Key, c: CertifiedAssetResponse) -> bool { fall_made(c, k.0) && k.2 is None && known(k.1) }
/// The range responses of a stored asset are those of its chunks, all of them, and there are no others.
pub open spec fn chunk_of(m: Resps, k: Key) -> bool {
    let b = k.2->0; let w = m[whole_key(k)];
    m.dom().contains(whole_key(k)) && big(w) && b as int % ASSET_CHUNK_SIZE as int == 0 && b < cv(w.response.body).len() && partial(m[k].response, cv(w.response.body), b)
}
pub open spec fn has_chunks(m: Resps, k: Key) -> bool { forall|b: int| 0 <= b < cv(m[k].response.body).len() && b % ASSET_CHUNK_SIZE as int == 0 ==> m.dom().contains(#[trigger] at_range(k.0, k.1, b)) }
pub open spec fn closed(m: Resps) -> bool {
    (forall|k: Key| #[trigger] m.dom().contains(k) && k.2 is Some ==> chunk_of(m, k)) && (forall|k: Key| #[trigger] m.dom().contains(k) && k.2 is None && big(m[k]) ==> has_chunks(m, k))
}
pub type Slot = (bool, Key);
/// All stored responses, those for exact paths and the fallbacks.
pub open spec fn alls<'a>(r: AssetRouter<'a>) -> IMap<Slot, CertifiedAssetResponse<'a>> {
    IMap::new(|s: Slot| if s.0 { r.fallback_responses@.dom().contains(s.1) } else { r.responses@.dom().contains(s.1) }, |s: Slot| if s.0 { r.fallback_responses@[s.1] } else { r.responses@[s.1] })
}
/// Unless an entry was ever inserted at, above or below another one: every stored response is in the tree, and each is at a path of its own.
pub open spec fn placed(a: IMap<Slot, CertifiedAssetResponse>, t: HttpCertificationTree) -> bool {
    t.clean() ==> (forall|s: Slot| #[trigger] a.dom().contains(s) ==> t.has(ep(a[s]))) && (forall|s: Slot, z: Slot| #[trigger] a.dom().contains(s) && #[trigger] a.dom().contains(z) && s != z ==> ep(a[s]) != ep(a[z]))
}
/// Everything in the tree is a stored response's.
pub open spec fn only(a: IMap<Slot, CertifiedAssetResponse>, t: HttpCertificationTree) -> bool { forall|q: Path| #[trigger] t.has(q) ==> exists|s: Slot| #[trigger] a.dom().contains(s) && ep(a[s]) == q }
pub open spec fn own(r: AssetRouter) -> bool { only(alls(r), r.tree) }
pub open spec fn half(r: AssetRouter) -> bool {
    (forall|k: Key| #[trigger] r.responses@.dom().contains(k) ==> static_ok(k, r.responses@[k])) && (forall|k: Key| #[trigger] r.fallback_responses@.dom().contains(k) ==> fall_ok(k, r.fallback_responses@[k]))
    && placed(alls(r), r.tree)
}
pub open spec fn inv(r: AssetRouter) -> bool { half(r) && closed(r.responses@) }
pub proof fn lemma_cut(a: IMap<Slot, CertifiedAssetResponse>, t: HttpCertificationTree, u: HttpCertificationTree, s: Slot)
    requires a.dom().contains(s), cut(t, u, ep(a[s]))
    ensures placed(a, t) ==> placed(a.remove(s), u), only(a, t) ==> only(a.remove(s), u), !u.has(ep(a[s]))
{
    let p = ep(a[s]); let b = a.remove(s);
    assert(p.take(p.len() as int) =~= p);
    if placed(a, t) && u.clean() {
        assert forall|z: Slot| #[trigger] b.dom().contains(z) implies u.has(ep(b[z])) by { assert(a.dom().contains(z)); if under(p, ep(a[z])) { ax_leaves(t, p, ep(a[z])); } }
        assert forall|z: Slot, y: Slot| #[trigger] b.dom().contains(z) && #[trigger] b.dom().contains(y) && z != y implies ep(b[z]) != ep(b[y]) by { assert(a.dom().contains(z) && a.dom().contains(y)); }
    }
    if only(a, t) { assert forall|q: Path| #[trigger] u.has(q) implies exists|z: Slot| #[trigger] b.dom().contains(z) && ep(b[z]) == q by { assert(t.has(q)); let z = choose|z: Slot| #[trigger] a.dom().contains(z) && ep(a[z]) == q; assert(b.dom().contains(z) && ep(b[z]) == q); } }
}
pub proof fn lemma_put(a: IMap<Slot, CertifiedAssetResponse>, t: HttpCertificationTree, u: HttpCertificationTree, s: Slot, c: CertifiedAssetResponse)
    requires !a.dom().contains(s), put(t, u, ep(c))
    ensures placed(a, t) ==> placed(a.insert(s, c), u), only(a, t) ==> only(a.insert(s, c), u)
{
    let p = ep(c); let b = a.insert(s, c);
    assert(p.take(p.len() as int) =~= p);
    if placed(a, t) && u.clean() {
        assert forall|z: Slot| #[trigger] b.dom().contains(z) implies u.has(ep(b[z])) by { if z != s { assert(a.dom().contains(z)); assert(t.has(ep(a[z]))); } }
        assert forall|z: Slot, y: Slot| #[trigger] b.dom().contains(z) && #[trigger] b.dom().contains(y) && z != y implies ep(b[z]) != ep(b[y]) by {
            if z != s { assert(a.dom().contains(z)); assert(t.has(ep(a[z]))); } if y != s { assert(a.dom().contains(y)); assert(t.has(ep(a[y]))); }
        }
    }
    if only(a, t) { assert forall|q: Path| #[trigger] u.has(q) implies exists|z: Slot| #[trigger] b.dom().contains(z) && ep(b[z]) == q by {
        if q == p { assert(b.dom().contains(s) && ep(b[s]) == q); } else { assert(t.has(q)); let z = choose|z: Slot| #[trigger] a.dom().contains(z) && ep(a[z]) == q; assert(b.dom().contains(z) && ep(b[z]) == q); } } }
}
/// One step on the router: a response is taken out of its map and its entry out of the tree, or put in.
pub proof fn lemma_drop(a: AssetRouter, b: AssetRouter, s: Slot)
    requires half(a), alls(a).dom().contains(s), cut(a.tree, b.tree, ep(alls(a)[s])),
        if s.0 { b.fallback_responses@ == a.fallback_responses@.remove(s.1) && b.responses@ == a.responses@ } else { b.responses@ == a.responses@.remove(s.1) && b.fallback_responses@ == a.fallback_responses@ }
    ensures half(b), own(a) ==> own(b), shrunk(a, b)
{
    assert(alls(b) =~= alls(a).remove(s));
    lemma_cut(alls(a), a.tree, b.tree, s);
    assert forall|k: Key| #[trigger] b.responses@.dom().contains(k) implies static_ok(k, b.responses@[k]) by { assert(a.responses@.dom().contains(k)); }
    assert forall|k: Key| #[trigger] b.fallback_responses@.dom().contains(k) implies fall_ok(k, b.fallback_responses@[k]) by { assert(a.fallback_responses@.dom().contains(k)); }
}
pub proof fn lemma_add(a: AssetRouter, b: AssetRouter, s: Slot, c: CertifiedAssetResponse)
    requires half(a), !alls(a).dom().contains(s), put(a.tree, b.tree, ep(c)), if s.0 { fall_ok(s.1, c) } else { static_ok(s.1, c) },
        if s.0 { b.fallback_responses@ == a.fallback_responses@.insert(s.1, c) && b.responses@ == a.responses@ } else { b.responses@ == a.responses@.insert(s.1, c) && b.fallback_responses@ == a.fallback_responses@ }
    ensures half(b), own(a) ==> own(b)
{
    assert(alls(b) =~= alls(a).insert(s, c));
    lemma_put(alls(a), a.tree, b.tree, s, c);
    assert forall|k: Key| #[trigger] b.responses@.dom().contains(k) implies static_ok(k, b.responses@[k]) by { if s.0 || k != s.1 { assert(a.responses@.dom().contains(k)); } }
    assert forall|k: Key| #[trigger] b.fallback_responses@.dom().contains(k) implies fall_ok(k, b.fallback_responses@[k]) by { if !s.0 || k != s.1 { assert(a.fallback_responses@.dom().contains(k)); } }
}
/// Responses were only taken away, and what was taken away is not in the tree any more.
pub open spec fn shrunk(a: AssetRouter, b: AssetRouter) -> bool {
    (forall|q: Path| #[trigger] b.tree.has(q) ==> a.tree.has(q))
    && (forall|s: Slot| #[trigger] alls(b).dom().contains(s) ==> alls(a).dom().contains(s) && alls(a)[s] == alls(b)[s])
    && (forall|s: Slot| #[trigger] alls(a).dom().contains(s) && !alls(b).dom().contains(s) ==> !b.tree.has(ep(alls(a)[s])))
}
pub proof fn lemma_shrunk(a: AssetRouter, b: AssetRouter, c: AssetRouter) requires shrunk(a, b), shrunk(b, c) ensures shrunk(a, c)
{
    assert forall|s: Slot| #[trigger] alls(a).dom().contains(s) && !alls(c).dom().contains(s) implies !c.tree.has(ep(alls(a)[s])) by { if alls(b).dom().contains(s) { assert(alls(a)[s] == alls(b)[s]); } }
    assert forall|s: Slot| #[trigger] alls(c).dom().contains(s) implies alls(a).dom().contains(s) && alls(a)[s] == alls(c)[s] by { assert(alls(b).dom().contains(s)); }
    assert forall|q: Path| #[trigger] c.tree.has(q) implies a.tree.has(q) by { assert(b.tree.has(q)); }
}
/// The map without the responses for a path in an encoding.
pub open spec fn mine(k: Key, u: Seq<char>, e: Option<Seq<char>>) -> bool { k.0 == u && k.1 == e }
pub open spec fn without<'a>(m: Resps<'a>, u: Seq<char>, e: Option<Seq<char>>) -> Resps<'a> { Map::new(m.dom().filter(|k: Key| !mine(k, u, e)), |k: Key| m[k]) }
pub open spec fn cleared<'a>(m: Resps<'a>, u: Seq<char>, e: Option<Seq<char>>, n: int) -> Resps<'a> {
    Map::new(m.dom().filter(|k: Key| !(mine(k, u, e) && (k.2 is None || k.2->0 < n))), |k: Key| m[k])
}
pub proof fn lemma_without(m: Resps, u: Seq<char>, e: Option<Seq<char>>) requires closed(m) ensures closed(without(m, u, e)), !m.dom().contains((u, e, None)) ==> without(m, u, e) == m
{
    let w = without(m, u, e);
    assert forall|k: Key| #[trigger] w.dom().contains(k) && k.2 is Some implies chunk_of(w, k) by { assert(m.dom().contains(k)); assert(chunk_of(m, k)); assert(w.dom().contains(whole_key(k))); }
    assert forall|k: Key| #[trigger] w.dom().contains(k) && k.2 is None && big(w[k]) implies has_chunks(w, k) by {
        assert(m.dom().contains(k)); assert(has_chunks(m, k));
        assert forall|b: int| 0 <= b < cv(w[k].response.body).len() && b % ASSET_CHUNK_SIZE as int == 0 implies w.dom().contains(#[trigger] at_range(k.0, k.1, b)) by { assert(m.dom().contains(at_range(k.0, k.1, b))); }
    }
    if !m.dom().contains((u, e, None)) {
        assert forall|k: Key| m.dom().contains(k) implies !mine(k, u, e) by { if mine(k, u, e) { if k.2 is Some { assert(chunk_of(m, k)); assert(whole_key(k) == (u, e, None::<usize>)); } else { assert(k == (u, e, None::<usize>)); } } }
        assert(w =~= m);
    }
}
//@take ar AssetRouter::new AssetRouter::with_tree AssetRouter::root_hash AssetRouter::delete_all_assets AssetRouter::remove_static_responses AssetRouter::remove_fallback_response AssetRouter::delete_static_asset AssetRouter::delete_fallback_asset AssetRouter::insert_fallback_asset AssetRouter::insert_redirect AssetRouter::delete_redirect
//@fn AssetRouter::new C24 C25
//@ret r
//@subst `Default::default()` => `HttpCertificationTree::fresh()`
//@spec
    ensures inv(r), own(r), r.tree.clean(), forall|s: Slot| !#[trigger] alls(r).dom().contains(s)
//@fn AssetRouter::with_tree C24 C25
//@ret r
//@spec
    ensures inv(r), r.tree == tree
//@fn AssetRouter::root_hash C25
//@ret r
//@spec
    ensures own(*self) && (forall|s: Slot| !#[trigger] alls(*self).dom().contains(s)) ==> r == empty_root()
//@fn AssetRouter::delete_all_assets C25
//@spec
    ensures inv(*final(self)), own(*final(self)), final(self).tree.clean(), forall|s: Slot| !#[trigger] alls(*final(self)).dom().contains(s)
//@fn AssetRouter::remove_static_responses C24 C25
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)), final(self).fallback_responses@ == old(self).fallback_responses@,
        final(self).responses@ == without(old(self).responses@, url@, opt_name(encoding))
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost m0 = self.responses@;
    let ghost e = opt_name(encoding);
    let ghost k0: Key = (url@, e, None);
    proof { lemma_without(m0, url@, e); }
//@after `self.tree.borrow_mut().delete(&response.tree_entry);`
            proof {
                lemma_drop(r0, *self, (false, k0));
                assert(self.responses@ =~= cleared(m0, url@, e, 0));
            }
//@loop 0
    invariant inv(r0), m0 == r0.responses@, e == opt_name(encoding), k0 == (url@, e, None::<usize>), m0.dom().contains(k0), response == m0[k0],
        half(*self), own(r0) ==> own(*self), shrunk(r0, *self), self.fallback_responses@ == r0.fallback_responses@, self.responses@ == cleared(m0, url@, e, range_begin as int), range_begin as int % ASSET_CHUNK_SIZE as int == 0
    ensures range_begin >= cv(response.response.body).len()
    decreases (if cv(response.response.body).len() > range_begin { cv(response.response.body).len() - range_begin } else { 0 })
//@loopentry 0
    broadcast use group_asset;
    let ghost mid = *self;
    let ghost kb: Key = (url@, e, Some(range_begin));
//@after `self.tree.borrow_mut().delete(&chunk.tree_entry);`
                proof { lemma_drop(mid, *self, (false, kb)); lemma_shrunk(r0, mid, *self); }
//@before `range_begin += ASSET_CHUNK_SIZE;`
                proof {
                    assert(cv(response.response.body).len() <= isize::MAX);
                    assert forall|k: Key| m0.dom().contains(k) && mine(k, url@, e) && k.2 is Some && range_begin < k.2->0 implies k.2->0 >= range_begin + ASSET_CHUNK_SIZE by { assert(chunk_of(m0, k)); lemma_multiple(range_begin as int, k.2->0 as int, ASSET_CHUNK_SIZE as int); }
                    assert forall|k: Key| m0.dom().contains(k) && mine(k, url@, e) && k.2 is Some && k.2->0 == range_begin implies k == kb by { }
                    if !mid.responses@.dom().contains(kb) { assert(!m0.dom().contains(kb)); }
                    assert(self.responses@ =~= cleared(m0, url@, e, range_begin + ASSET_CHUNK_SIZE));
                    assert((range_begin + ASSET_CHUNK_SIZE) as int % ASSET_CHUNK_SIZE as int == 0) by { lemma_multiple(range_begin as int, range_begin as int, ASSET_CHUNK_SIZE as int); }
                }
//@tail
    proof {
        if m0.dom().contains(k0) {
            assert forall|k: Key| m0.dom().contains(k) && mine(k, url@, e) && k.2 is Some implies k.2->0 < cv(m0[k0].response.body).len() by { assert(chunk_of(m0, k)); assert(whole_key(k) == k0); }
            assert(self.responses@ =~= without(m0, url@, e));
        }
    }
//@text
pub proof fn lemma_multiple(a: int, b: int, c: int) requires c > 0, a % c == 0 ensures (a + c) % c == 0, b % c == 0 && a < b ==> b >= a + c
{
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a, c);
    if b % c == 0 && a < b && b < a + c { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, c); assert(c * (b / c) < c * (a / c + 1)) by(nonlinear_arith) requires c > 0, b < a + c, a == c * (a / c), b == c * (b / c); assert(b / c < a / c + 1) by(nonlinear_arith) requires c > 0, c * (b / c) < c * (a / c + 1); assert(c * (b / c) <= c * (a / c)) by(nonlinear_arith) requires c > 0, b / c <= a / c; }
}
//@fn AssetRouter::remove_fallback_response C24 C25
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)), final(self).responses@ == old(self).responses@,
        final(self).fallback_responses@ == without(old(self).fallback_responses@, scope@, opt_name(encoding))
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost k0: Key = (scope@, opt_name(encoding), None);
//@after `self.tree.borrow_mut().delete(&response.tree_entry);`
            proof { lemma_drop(r0, *self, (true, k0)); }
//@tail
    proof {
        assert forall|k: Key| r0.fallback_responses@.dom().contains(k) && mine(k, scope@, opt_name(encoding)) implies k == k0 by { assert(fall_ok(k, r0.fallback_responses@[k])); }
        assert(self.fallback_responses@ =~= without(r0.fallback_responses@, scope@, opt_name(encoding)));
    }
//@fn AssetRouter::delete_static_asset C25
//@ret r
//@entry
    broadcast use group_asset;
    proof { lemma_shrunk_same(*self); }
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)), final(self).fallback_responses@ == old(self).fallback_responses@,
        final(self).responses@ == if r is Ok { without(old(self).responses@, asset.url@, opt_name(encoding)) } else { old(self).responses@ }
//@fn AssetRouter::delete_fallback_asset C25
//@ret r
//@entry
    broadcast use group_asset;
    proof { lemma_shrunk_same(*self); }
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)), final(self).responses@ == old(self).responses@,
        final(self).fallback_responses@ == if r is Ok { without(old(self).fallback_responses@, fallback_for.scope@, opt_name(encoding)) } else { old(self).fallback_responses@ }
//@fn AssetRouter::delete_redirect C25
//@ret r
//@entry
    broadcast use group_asset;
    proof { lemma_shrunk_same(*self); }
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)), final(self).fallback_responses@ == old(self).fallback_responses@,
        final(self).responses@ == if r is Ok { without(old(self).responses@, from@, None) } else { old(self).responses@ }
//@fn AssetRouter::insert_fallback_asset C24
//@ret r
//@entry
    broadcast use group_asset;
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), final(self).responses@ == old(self).responses@,
        match r {
            Err(_) => final(self).fallback_responses@ == old(self).fallback_responses@,
            Ok(_) => final(self).fallback_responses@.dom().contains((fallback_for.scope@, opt_name(encoding), None))
                && final(self).fallback_responses@ == old(self).fallback_responses@.insert((fallback_for.scope@, opt_name(encoding), None), final(self).fallback_responses@[(fallback_for.scope@, opt_name(encoding), None)])
                && shows(final(self).fallback_responses@[(fallback_for.scope@, opt_name(encoding), None)].response, cv(asset.content), svs(additional_headers@), optv(content_type), opt_name(encoding), None, fallback_for.status_code),
        }
//@before `self.remove_fallback_response(&fallback_for.scope, encoding);`
    let ghost r0 = *self;
    let ghost k0: Key = (fallback_for.scope@, opt_name(encoding), None);
    let ghost c0 = response;
//@after `self.remove_fallback_response(&fallback_for.scope, encoding);`
    let ghost r1 = *self;
//@tail
    proof {
        lemma_add(r1, *self, (true, k0), c0);
        assert forall|k: Key| r0.fallback_responses@.dom().contains(k) && mine(k, k0.0, k0.1) implies k == k0 by { assert(fall_ok(k, r0.fallback_responses@[k])); }
        assert(self.fallback_responses@ =~= r0.fallback_responses@.insert(k0, c0));
    }
//@fn AssetRouter::insert_redirect C24
//@ret r
//@entry
    broadcast use group_asset;
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), final(self).fallback_responses@ == old(self).fallback_responses@,
        match r {
            Err(_) => final(self).responses@ == old(self).responses@,
            Ok(_) => final(self).responses@.dom().contains((from@, None, None))
                && final(self).responses@ == without(old(self).responses@, from@, None).insert((from@, None, None), final(self).responses@[(from@, None, None)])
                && built(final(self).responses@[(from@, None, None)].response, if kind is Permanent { 301 } else { 307 }, Seq::empty(), seq![("location"@, to@)]),
        }
//@before `self.remove_static_responses(&from, None);`
    let ghost r0 = *self;
    let ghost k0: Key = (from@, None, None);
    let ghost c0 = response;
    let ghost k = kind;
//@after `self.remove_static_responses(&from, None);`
    let ghost r1 = *self;
//@tail
    proof {
        lemma_add(r1, *self, (false, k0), c0);
        lemma_without(r0.responses@, from@, None);
        lemma_closed_more(r1.responses@, k0, c0);
    }
//@text
pub proof fn lemma_shrunk_same(a: AssetRouter) ensures shrunk(a, a) { }
/// Adding a response that is not cut into chunks.
pub proof fn lemma_closed_more(m: Resps, k: Key, c: CertifiedAssetResponse) requires closed(m), k.2 is None, !big(c), forall|j: Key| #[trigger] m.dom().contains(j) ==> !mine(j, k.0, k.1) ensures closed(m.insert(k, c))
{
    let w = m.insert(k, c);
    assert forall|j: Key| #[trigger] w.dom().contains(j) && j.2 is Some implies chunk_of(w, j) by { assert(m.dom().contains(j)); assert(chunk_of(m, j)); assert(!mine(j, k.0, k.1)); assert(whole_key(j) != k); }
    assert forall|j: Key| #[trigger] w.dom().contains(j) && j.2 is None && big(w[j]) implies has_chunks(w, j) by {
        assert(m.dom().contains(j)); assert(has_chunks(m, j));
        assert forall|b: int| 0 <= b < cv(w[j].response.body).len() && b % ASSET_CHUNK_SIZE as int == 0 implies w.dom().contains(#[trigger] at_range(j.0, j.1, b)) by { assert(m.dom().contains(at_range(j.0, j.1, b))); }
    }
}
