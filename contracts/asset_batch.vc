//@gsubst `impl IntoIterator<Item = Asset<'content, 'path>>` => `It<Asset<'content, 'path>>`
//@gsubst `impl IntoIterator<Item = AssetConfig>` => `It<AssetConfig>`
//@gsubst `HashMap<_, _>` => `PathMap<'content, 'path>`
//@gsubst `TryInto::try_into` => `|c: AssetConfig| -> (t: Result<NormalizedAssetConfig, AssetCertificationError>) ensures t is Ok ==> normal(c, t->Ok_0) { NormalizedAssetConfig::try_from(c) }`
//@gsubst `.unwrap_or_default()` => `.or_empty()`
//@gsubst `.clone_from(` => `.copy_from(`
//@gsubst `asset_configs.iter()` => `asset_configs.it()`
//@derive AssetConfig
//@text
// ---------------------------------------------------------------- certifying and deleting assets by the batch
impl vstd::std_specs::convert::TryFromSpecImpl<AssetConfig> for NormalizedAssetConfig { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(c: AssetConfig) -> Result<Self, AssetCertificationError>; }
/// globset: the matcher of a pattern, and what it matches (uninterpreted).
pub uninterp spec fn glob_of(p: Seq<char>) -> GlobMatcher;
pub uninterp spec fn glob_hits(g: GlobMatcher, p: Seq<char>) -> bool;
#[verifier::external_body] pub struct Glob { x: u8 }
impl Glob {
    pub uninterp spec fn pattern(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Glob, GlobError>) ensures r is Ok ==> r->Ok_0.pattern() == p@ { unimplemented!() }
    #[verifier::external_body] pub fn compile_matcher(&self) -> (r: GlobMatcher) ensures r == glob_of(self.pattern()) { unimplemented!() }
}
impl GlobMatcher { #[verifier::external_body] pub fn is_match(&self, p: &str) -> (r: bool) ensures r == glob_hits(*self, p@) { unimplemented!() } }
impl FromSpecImpl<GlobError> for AssetCertificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(o: GlobError) -> Self { AssetCertificationError::GlobsetError(o) } }
impl From<GlobError> for AssetCertificationError { fn from(o: GlobError) -> (r: Self) { AssetCertificationError::GlobsetError(o) } }
impl<T> It<T> {
    #[verifier::external_body] pub fn into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],))
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && f.ensures((&self@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self@[j],), false),
            None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((&#[trigger] self@[j],), false) } { unimplemented!() }
}
pub trait OrEmpty<T> { fn or_empty(self) -> Vec<T>; }
impl<T> OrEmpty<T> for Option<Vec<T>> { #[verifier::external_body] fn or_empty(self) -> (r: Vec<T>) ensures r@ == (match self { Some(v) => v@, None => Seq::<T>::empty() }) { unimplemented!() } }
pub trait CopyFrom { fn copy_from(&mut self, o: &Self); }
impl CopyFrom for Cow<'_, str> { #[verifier::external_body] fn copy_from(&mut self, o: &Self) ensures final(self)@ == o@ { unimplemented!() } }
impl CopyFrom for String { #[verifier::external_body] fn copy_from(&mut self, o: &Self) ensures final(self)@ == o@ { unimplemented!() } }
pub trait SameText { fn same(&self, o: &str) -> bool; }
impl SameText for String { #[verifier::external_body] fn same(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
// HashMap by path (assumed contract)
pub type Files<'a, 'b> = Map<Seq<char>, Asset<'a, 'b>>;
#[verifier::external_body] pub struct PathMap<'content, 'path> { x: core::marker::PhantomData<(&'content u8, &'path u8)> }
impl<'a, 'b> View for PathMap<'a, 'b> { type V = Files<'a, 'b>; uninterp spec fn view(&self) -> Files<'a, 'b>; }
pub open spec fn from_pairs<'a, 'b>(s: Seq<(Cow<'b, str>, Asset<'a, 'b>)>) -> Files<'a, 'b> decreases s.len() { if s.len() == 0 { Map::empty() } else { from_pairs(s.drop_last()).insert(s.last().0@, s.last().1) } }
impl<'a, 'b> FromIt<(Cow<'b, str>, Asset<'a, 'b>)> for PathMap<'a, 'b> { open spec fn collected(s: Seq<(Cow<'b, str>, Asset<'a, 'b>)>, c: Self) -> bool { c@ == from_pairs(s) } }
/// vs is what is in m, in some order.
pub open spec fn listing(m: Files, vs: Seq<&Asset>) -> bool {
    (forall|i: int| 0 <= i < vs.len() ==> exists|p: Seq<char>| m.dom().contains(p) && #[trigger] m[p] == *(#[trigger] vs[i])) && (forall|p: Seq<char>| #[trigger] m.dom().contains(p) ==> exists|i: int| 0 <= i < vs.len() && *(#[trigger] vs[i]) == m[p])
}
impl<'a, 'b> PathMap<'a, 'b> {
    /// the order in which values() gives the entries
    pub uninterp spec fn listed<'x>(&self) -> Seq<&'x Asset<'a, 'b>>;
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&Asset<'a, 'b>>) ensures listing(self@, r@), r@ == self.listed() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &str) -> (r: Option<&Asset<'a, 'b>>) ensures match r { Some(a) => self@.dom().contains(p@) && *a == self@[p@], None => !self@.dom().contains(p@) } { unimplemented!() }
}
/// The files given, by path: of several with one path the last counts.
pub open spec fn files<'a, 'b>(s: Seq<Asset<'a, 'b>>) -> Files<'a, 'b> decreases s.len() { if s.len() == 0 { Map::empty() } else { files(s.drop_last()).insert(s.last().path@, s.last()) } }
pub proof fn lemma_files<'a, 'b>(s: Seq<Asset<'a, 'b>>, t: Seq<(Cow<'b, str>, Asset<'a, 'b>)>) requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).1 == s[i] && t[i].0@ == s[i].path@ ensures from_pairs(t) == files(s) decreases s.len()
{
    if s.len() > 0 { assert(t.last() == t[t.len() - 1]); lemma_files(s.drop_last(), t.drop_last()); }
}
/// What a configuration becomes.
pub open spec fn normal(c: AssetConfig, n: NormalizedAssetConfig) -> bool {
    match c {
        AssetConfig::File { path, content_type, headers, fallback_for, aliased_by, encodings } => n == NormalizedAssetConfig::File { path, content_type, headers, fallback_for, aliased_by, encodings },
        AssetConfig::Pattern { pattern, content_type, headers, encodings } => n == NormalizedAssetConfig::Pattern { pattern: glob_of(pattern@), content_type, headers, encodings },
        AssetConfig::Redirect { from, to, kind } => n == NormalizedAssetConfig::Redirect { from, to, kind },
    }
}
pub open spec fn all_normal(cs: Seq<AssetConfig>, ns: Seq<NormalizedAssetConfig>) -> bool { cs.len() == ns.len() && forall|i: int| 0 <= i < cs.len() ==> normal(cs[i], #[trigger] ns[i]) }
pub proof fn lemma_normal(cs: Seq<AssetConfig>, a: Seq<NormalizedAssetConfig>, b: Seq<NormalizedAssetConfig>) requires all_normal(cs, a), all_normal(cs, b) ensures a == b
{
    assert forall|i: int| 0 <= i < cs.len() implies a[i] == b[i] by { assert(normal(cs[i], a[i]) && normal(cs[i], b[i])); }
    assert(a =~= b);
}
pub open spec fn fits(c: NormalizedAssetConfig, p: Seq<char>) -> bool { match c { NormalizedAssetConfig::File { path, .. } => path@ == p, NormalizedAssetConfig::Pattern { pattern, .. } => glob_hits(pattern, p), NormalizedAssetConfig::Redirect { .. } => false } }
/// The configuration of a file: the first that fits.
pub open spec fn conf<'a>(cs: Seq<NormalizedAssetConfig>, p: Seq<char>) -> Option<&'a NormalizedAssetConfig> decreases cs.len() {
    if cs.len() == 0 { None } else if conf(cs.drop_last(), p) is Some { conf(cs.drop_last(), p) } else if fits(cs.last(), p) { Some(&cs.last()) } else { None }
}
pub proof fn lemma_conf(cs: Seq<NormalizedAssetConfig>, p: Seq<char>, i: int)
    requires 0 <= i <= cs.len(), forall|j: int| 0 <= j < i ==> !fits(#[trigger] cs[j], p), i < cs.len() ==> fits(cs[i], p)
    ensures i < cs.len() ==> conf(cs, p) == Some(&cs[i]), i == cs.len() ==> conf(cs, p) is None
    decreases cs.len()
{
    if cs.len() > 0 { if i < cs.len() { if i == cs.len() - 1 { lemma_conf(cs.drop_last(), p, i); } else { lemma_conf(cs.drop_last(), p, i); } } else { lemma_conf(cs.drop_last(), p, i - 1); } }
}
pub open spec fn encs_of(c: Option<&NormalizedAssetConfig>) -> Seq<(AssetEncoding, String)> { match c { Some(NormalizedAssetConfig::File { encodings, .. }) => encodings@, Some(NormalizedAssetConfig::Pattern { encodings, .. }) => encodings@, _ => Seq::empty() } }
pub open spec fn same_encs(a: Seq<(AssetEncoding, String)>, b: Seq<(AssetEncoding, String)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 && a[i].1@ == b[i].1@ }
pub broadcast axiom fn ax_cloned_enc(a: (AssetEncoding, String), b: (AssetEncoding, String)) ensures #[trigger] vstd::pervasive::cloned(a, b) ==> a.0 == b.0 && a.1@ == b.1@;
pub open spec fn clones(a: Seq<(AssetEncoding, String)>, b: Seq<(AssetEncoding, String)>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> vstd::pervasive::cloned(#[trigger] a[i], b[i]) }
pub proof fn lemma_cloned_encs(a: Seq<(AssetEncoding, String)>)
    ensures forall|h: Seq<(AssetEncoding, String)>| #[trigger] clones(a, h) ==> same_encs(h, a)
{
    broadcast use {group_asset, ax_cloned_enc};
    assert forall|h: Seq<(AssetEncoding, String)>| #[trigger] clones(a, h) implies same_encs(h, a) by { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] h[i]).0 == a[i].0 && h[i].1@ == a[i].1@ by { assert(vstd::pervasive::cloned(a[i], h[i])); } }
}
/// derived Clone (std): a copy holds the same
pub assume_specification<'a, B: ?Sized + ToOwned>[<Cow<'a, B> as Clone>::clone](c: &Cow<'a, B>) -> (r: Cow<'a, B>) ensures r == *c;
/// One file certified under one URL in one encoding, with its aliases and fallbacks.
pub struct Job { pub u: Seq<char>, pub e: Option<Seq<char>>, pub als: Seq<String>, pub fbs: Seq<AssetFallbackConfig>, pub content: Seq<u8>, pub hs: Seq<(Seq<char>, Seq<char>)>, pub ct: Option<Seq<char>> }
pub open spec fn job(c: Option<&NormalizedAssetConfig>, content: Seq<u8>, u: Seq<char>, e: Option<Seq<char>>) -> Job { Job { u, e, als: als_of(c), fbs: fbs_of(c), content, hs: hs_of(c), ct: ct_of(c) } }
pub open spec fn hits(j: Job, u: Seq<char>, e: Option<Seq<char>>) -> bool { e == j.e && target(j.als, j.als.len() as int, j.u, u) }
pub open spec fn falls(j: Job, z: Seq<char>, e: Option<Seq<char>>) -> bool { e == j.e && scoped(j.fbs, j.fbs.len() as int, z) }
pub open spec fn has_job(js: Seq<Job>, u: Seq<char>, e: Option<Seq<char>>) -> bool { exists|i: int| 0 <= i < js.len() && hits(#[trigger] js[i], u, e) }
pub open spec fn has_fall(js: Seq<Job>, z: Seq<char>, e: Option<Seq<char>>) -> bool { exists|i: int| 0 <= i < js.len() && falls(#[trigger] js[i], z, e) }
/// The encoded forms of a file that are among the files given: the file at its path with the suffix of the encoding, under its own URL.
pub open spec fn jobs_enc(m: Files, a: Asset, c: Option<&NormalizedAssetConfig>, es: Seq<(AssetEncoding, String)>, n: int) -> Seq<Job> decreases n {
    if n <= 0 { Seq::empty() } else {
        let p = a.path@ + es[n - 1].1@; let r = jobs_enc(m, a, c, es, n - 1);
        if m.dom().contains(p) { r.push(job(c, cv(m[p].content), a.url@, Some(enc_name(es[n - 1].0)))) } else { r }
    }
}
pub proof fn lemma_same_encs(m: Files, a: Asset, c: Option<&NormalizedAssetConfig>, x: Seq<(AssetEncoding, String)>, y: Seq<(AssetEncoding, String)>, n: int) requires same_encs(x, y), n <= x.len() ensures jobs_enc(m, a, c, x, n) == jobs_enc(m, a, c, y, n) decreases n
{ if n > 0 { lemma_same_encs(m, a, c, x, y, n - 1); assert(x[n - 1].0 == y[n - 1].0); } }
pub open spec fn jobs_of(cs: Seq<NormalizedAssetConfig>, m: Files, a: Asset) -> Seq<Job> {
    let c = conf(cs, a.path@);
    jobs_enc(m, a, c, encs_of(c), encs_of(c).len() as int).push(job(c, cv(a.content), a.url@, None))
}
pub open spec fn jobs(cs: Seq<NormalizedAssetConfig>, m: Files, vs: Seq<&Asset>) -> Seq<Job> decreases vs.len() { if vs.len() == 0 { Seq::empty() } else { jobs(cs, m, vs.drop_last()) + jobs_of(cs, m, *vs.last()) } }
/// What was not among the jobs is as before; every path and encoding of a job holds the file of the last job for it, whole and in its ranges.
pub open spec fn after(m0: Resps, m: Resps, js: Seq<Job>) -> bool {
    (forall|k: Key| !has_job(js, k.0, k.1) ==> #[trigger] m.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> m[k] == m0[k]))
    && forall|u: Seq<char>, e: Option<Seq<char>>| #[trigger] has_job(js, u, e) ==> holds(m, js, u, e)
}
pub open spec fn holds(m: Resps, js: Seq<Job>, u: Seq<char>, e: Option<Seq<char>>) -> bool {
    exists|i: int| 0 <= i < js.len() && hits(#[trigger] js[i], u, e) && (forall|l: int| i < l < js.len() ==> !hits(#[trigger] js[l], u, e)) && stored(m, u, e, js[i].content, js[i].hs, js[i].ct)
}
pub open spec fn fafter(f0: Resps, f: Resps, js: Seq<Job>) -> bool {
    (forall|k: Key| !has_fall(js, k.0, k.1) ==> #[trigger] f.dom().contains(k) == f0.dom().contains(k) && (f0.dom().contains(k) ==> f[k] == f0[k]))
    && forall|z: Seq<char>, e: Option<Seq<char>>| #[trigger] has_fall(js, z, e) ==> fholds(f, js, z, e)
}
pub open spec fn fholds(f: Resps, js: Seq<Job>, z: Seq<char>, e: Option<Seq<char>>) -> bool {
    exists|i: int| 0 <= i < js.len() && falls(#[trigger] js[i], z, e) && (forall|l: int| i < l < js.len() ==> !falls(#[trigger] js[l], z, e)) && f.dom().contains((z, e, None)) && one_of(f[(z, e, None)].response, js[i], z, e)
}
pub open spec fn one_of(r: HttpResponse, j: Job, z: Seq<char>, e: Option<Seq<char>>) -> bool { exists|x: int| 0 <= x < j.fbs.len() && (#[trigger] j.fbs[x]).scope@ == z && shows(r, j.content, j.hs, j.ct, e, None, j.fbs[x].status_code) }
pub open spec fn gone(m0: Resps, m: Resps, js: Seq<Job>) -> bool {
    forall|k: Key| if has_job(js, k.0, k.1) { !#[trigger] m.dom().contains(k) } else { m.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> m[k] == m0[k]) }
}
pub open spec fn fgone(f0: Resps, f: Resps, js: Seq<Job>) -> bool {
    forall|k: Key| if has_fall(js, k.0, k.1) { !#[trigger] f.dom().contains(k) } else { f.dom().contains(k) == f0.dom().contains(k) && (f0.dom().contains(k) ==> f[k] == f0[k]) }
}
pub proof fn lemma_has_push(js: Seq<Job>, j: Job, u: Seq<char>, e: Option<Seq<char>>) ensures has_job(js.push(j), u, e) == (has_job(js, u, e) || hits(j, u, e)), has_fall(js.push(j), u, e) == (has_fall(js, u, e) || falls(j, u, e))
{
    let ks = js.push(j);
    assert(ks[js.len() as int] == j);
    if has_job(js, u, e) { let i = choose|i: int| 0 <= i < js.len() && hits(#[trigger] js[i], u, e); assert(hits(ks[i], u, e)); }
    if has_fall(js, u, e) { let i = choose|i: int| 0 <= i < js.len() && falls(#[trigger] js[i], u, e); assert(falls(ks[i], u, e)); }
    if has_job(ks, u, e) && !hits(j, u, e) { let i = choose|i: int| 0 <= i < ks.len() && hits(#[trigger] ks[i], u, e); assert(hits(js[i], u, e)); }
    if has_fall(ks, u, e) && !falls(j, u, e) { let i = choose|i: int| 0 <= i < ks.len() && falls(#[trigger] ks[i], u, e); assert(falls(js[i], u, e)); }
}
pub proof fn lemma_after(m0: Resps, a: Resps, b: Resps, js: Seq<Job>, j: Job)
    requires after(m0, a, js), only_at(a, b, j.e, hit_url(j.als, j.als.len() as int, j.u)), all_stored(b, j.e, j.content, j.hs, j.ct, hit_url(j.als, j.als.len() as int, j.u))
    ensures after(m0, b, js.push(j))
{
    let ks = js.push(j); let h = hit_url(j.als, j.als.len() as int, j.u);
    assert forall|k: Key| !has_job(ks, k.0, k.1) implies #[trigger] b.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> b[k] == m0[k]) by { lemma_has_push(js, j, k.0, k.1); assert(hits(j, k.0, k.1) == (k.1 == j.e && h(k.0))); assert(a.dom().contains(k) == m0.dom().contains(k)); }
    assert forall|u: Seq<char>, e: Option<Seq<char>>| #[trigger] has_job(ks, u, e) implies holds(b, ks, u, e) by {
        lemma_has_push(js, j, u, e);
        let n = js.len() as int; assert(ks[n] == j);
        if hits(j, u, e) { assert(h(u)); assert(hits(ks[n], u, e) && stored(b, u, e, ks[n].content, ks[n].hs, ks[n].ct)); }
        else {
            assert(holds(a, js, u, e));
            let i = choose|i: int| 0 <= i < js.len() && hits(#[trigger] js[i], u, e) && (forall|l: int| i < l < js.len() ==> !hits(#[trigger] js[l], u, e)) && stored(a, u, e, js[i].content, js[i].hs, js[i].ct);
            assert(ks[i] == js[i]);
            assert forall|k: Key| mine(k, u, e) implies #[trigger] b.dom().contains(k) == a.dom().contains(k) && (a.dom().contains(k) ==> b[k] == a[k]) by { assert(!(k.1 == j.e && h(k.0))); }
            assert(mine((u, e, None), u, e)); assert(b.dom().contains((u, e, None)));
            assert forall|k: Key| #[trigger] b.dom().contains(k) && mine(k, u, e) && k.2 is Some implies shows(b[k].response, js[i].content, js[i].hs, js[i].ct, e, k.2, None) by { assert(a.dom().contains(k)); }
            assert(stored(b, u, e, js[i].content, js[i].hs, js[i].ct));
            assert forall|l: int| i < l < ks.len() implies !hits(#[trigger] ks[l], u, e) by { if l < js.len() { assert(ks[l] == js[l]); } }
            assert(hits(ks[i], u, e));
        }
    }
}
pub proof fn lemma_fafter(m0: Resps, a: Resps, b: Resps, js: Seq<Job>, j: Job)
    requires fafter(m0, a, js), only_at(a, b, j.e, hit_scope(j.fbs, j.fbs.len() as int)), fall_stored(b, j.fbs, j.fbs.len() as int, j.e, j.content, j.hs, j.ct)
    ensures fafter(m0, b, js.push(j))
{
    let ks = js.push(j); let h = hit_scope(j.fbs, j.fbs.len() as int);
    assert forall|k: Key| !has_fall(ks, k.0, k.1) implies #[trigger] b.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> b[k] == m0[k]) by { lemma_has_push(js, j, k.0, k.1); assert(falls(j, k.0, k.1) == (k.1 == j.e && h(k.0))); assert(a.dom().contains(k) == m0.dom().contains(k)); }
    assert forall|u: Seq<char>, e: Option<Seq<char>>| #[trigger] has_fall(ks, u, e) implies fholds(b, ks, u, e) by {
        lemma_has_push(js, j, u, e);
        let n = js.len() as int; assert(ks[n] == j);
        if falls(j, u, e) {
            assert(scoped(j.fbs, j.fbs.len() as int, u));
            let x = choose|x: int| 0 <= x < j.fbs.len() && (#[trigger] j.fbs[x]).scope@ == u && shows(b[(u, j.e, None)].response, j.content, j.hs, j.ct, j.e, None, j.fbs[x].status_code);
            assert(j.fbs[x].scope@ == u);
            assert(one_of(b[(u, e, None)].response, ks[n], u, e)); assert(falls(ks[n], u, e));
        } else {
            assert(fholds(a, js, u, e));
            let i = choose|i: int| 0 <= i < js.len() && falls(#[trigger] js[i], u, e) && (forall|l: int| i < l < js.len() ==> !falls(#[trigger] js[l], u, e)) && a.dom().contains((u, e, None)) && one_of(a[(u, e, None)].response, js[i], u, e);
            assert(ks[i] == js[i]);
            let k: Key = (u, e, None);
            assert(!(k.1 == j.e && h(k.0))); assert(a.dom().contains(k)); assert(b.dom().contains(k)); assert(b[k] == a[k]);
            assert forall|l: int| i < l < ks.len() implies !falls(#[trigger] ks[l], u, e) by { if l < js.len() { assert(ks[l] == js[l]); } }
            assert(falls(ks[i], u, e));
        }
    }
}
pub proof fn lemma_gone_step(m0: Resps, a: Resps, b: Resps, f0: Resps, f: Resps, g: Resps, js: Seq<Job>, j: Job)
    requires gone(m0, a, js), only_at(a, b, j.e, hit_url(j.als, j.als.len() as int, j.u)), gone_at(b, j.e, hit_url(j.als, j.als.len() as int, j.u)),
        fgone(f0, f, js), only_at(f, g, j.e, hit_scope(j.fbs, j.fbs.len() as int)), gone_at(g, j.e, hit_scope(j.fbs, j.fbs.len() as int))
    ensures gone(m0, b, js.push(j)), fgone(f0, g, js.push(j))
{
    let ks = js.push(j); let h = hit_url(j.als, j.als.len() as int, j.u); let hf = hit_scope(j.fbs, j.fbs.len() as int);
    assert forall|k: Key| if has_job(ks, k.0, k.1) { !#[trigger] b.dom().contains(k) } else { b.dom().contains(k) == m0.dom().contains(k) && (m0.dom().contains(k) ==> b[k] == m0[k]) } by { lemma_has_push(js, j, k.0, k.1); assert(hits(j, k.0, k.1) == (k.1 == j.e && h(k.0))); assert(if has_job(js, k.0, k.1) { !a.dom().contains(k) } else { a.dom().contains(k) == m0.dom().contains(k) }); }
    assert forall|k: Key| if has_fall(ks, k.0, k.1) { !#[trigger] g.dom().contains(k) } else { g.dom().contains(k) == f0.dom().contains(k) && (f0.dom().contains(k) ==> g[k] == f0[k]) } by { lemma_has_push(js, j, k.0, k.1); assert(falls(j, k.0, k.1) == (k.1 == j.e && hf(k.0))); assert(if has_fall(js, k.0, k.1) { !f.dom().contains(k) } else { f.dom().contains(k) == f0.dom().contains(k) }); }
}
/// u is redirected by one of the first n configurations.
pub open spec fn redirected(cs: Seq<NormalizedAssetConfig>, n: int, u: Seq<char>) -> bool { exists|i: int| 0 <= i < n && is_redirect(#[trigger] cs[i], u) }
pub open spec fn is_redirect(c: NormalizedAssetConfig, u: Seq<char>) -> bool { match c { NormalizedAssetConfig::Redirect { from, .. } => from@ == u, _ => false } }
/// The redirects of the first n configurations are set; nothing else changed.
pub open spec fn reds(a: Resps, b: Resps, cs: Seq<NormalizedAssetConfig>, n: int) -> bool {
    (forall|k: Key| !(k.1 is None && redirected(cs, n, k.0)) ==> #[trigger] b.dom().contains(k) == a.dom().contains(k) && (a.dom().contains(k) ==> b[k] == a[k]))
    && forall|u: Seq<char>| #[trigger] redirected(cs, n, u) ==> b.dom().contains((u, None, None)) && (forall|k: Key| #[trigger] b.dom().contains(k) && mine(k, u, None) ==> k.2 is None) && red_ok(b[(u, None, None)].response, cs, n, u)
}
pub open spec fn red_ok(r: HttpResponse, cs: Seq<NormalizedAssetConfig>, n: int, u: Seq<char>) -> bool {
    exists|i: int| 0 <= i < n && is_redirect(#[trigger] cs[i], u) && (forall|l: int| i < l < n ==> !is_redirect(#[trigger] cs[l], u)) && shows_redirect(r, cs[i])
}
pub open spec fn unreds(a: Resps, b: Resps, cs: Seq<NormalizedAssetConfig>, n: int) -> bool {
    forall|k: Key| if k.1 is None && redirected(cs, n, k.0) { !#[trigger] b.dom().contains(k) } else { b.dom().contains(k) == a.dom().contains(k) && (a.dom().contains(k) ==> b[k] == a[k]) }
}
pub proof fn lemma_red_next(cs: Seq<NormalizedAssetConfig>, n: int, u: Seq<char>) requires 0 <= n < cs.len() ensures redirected(cs, n + 1, u) == (redirected(cs, n, u) || is_redirect(cs[n], u))
{
    if redirected(cs, n, u) { let i = choose|i: int| 0 <= i < n && is_redirect(#[trigger] cs[i], u); assert(is_redirect(cs[i], u)); }
    if is_redirect(cs[n], u) { assert(0 <= n < n + 1 && is_redirect(cs[n], u)); }
    if redirected(cs, n + 1, u) && !is_redirect(cs[n], u) { let i = choose|i: int| 0 <= i < n + 1 && is_redirect(#[trigger] cs[i], u); assert(is_redirect(cs[i], u) && i < n); }
}
pub open spec fn shows_redirect(r: HttpResponse, c: NormalizedAssetConfig) -> bool {
    match c { NormalizedAssetConfig::Redirect { to, kind, .. } => built(r, if kind is Permanent { 301 } else { 307 }, Seq::empty(), seq![("location"@, to@)]), _ => false }
}
pub proof fn lemma_red_step(a0: Resps, a: Resps, b: Resps, cs: Seq<NormalizedAssetConfig>, n: int, u: Seq<char>)
    requires 0 <= n < cs.len(), reds(a0, a, cs, n), is_redirect(cs[n], u), b.dom().contains((u, None, None)), b == without(a, u, None).insert((u, None, None), b[(u, None, None)]), shows_redirect(b[(u, None, None)].response, cs[n])
    ensures reds(a0, b, cs, n + 1)
{
    assert forall|k: Key| !(k.1 is None && redirected(cs, n + 1, k.0)) implies #[trigger] b.dom().contains(k) == a0.dom().contains(k) && (a0.dom().contains(k) ==> b[k] == a0[k]) by { lemma_red_next(cs, n, k.0); assert(!mine(k, u, None)); assert(a.dom().contains(k) == a0.dom().contains(k)); }
    assert forall|v: Seq<char>| #[trigger] redirected(cs, n + 1, v) implies b.dom().contains((v, None, None)) && (forall|k: Key| #[trigger] b.dom().contains(k) && mine(k, v, None) ==> k.2 is None) && red_ok(b[(v, None, None)].response, cs, n + 1, v) by {
        lemma_red_next(cs, n, v);
        if v == u { assert(is_redirect(cs[n], v)); assert(red_ok(b[(v, None, None)].response, cs, n + 1, v)); }
        else {
            assert(redirected(cs, n, v)) by { if is_redirect(cs[n], v) { assert(v == u); } }
            let k0: Key = (v, None, None);
            assert(!mine(k0, u, None)); assert(a.dom().contains(k0)); assert(b[k0] == a[k0]);
            assert(red_ok(a[k0].response, cs, n, v));
            let i = choose|i: int| 0 <= i < n && is_redirect(#[trigger] cs[i], v) && (forall|l: int| i < l < n ==> !is_redirect(#[trigger] cs[l], v)) && shows_redirect(a[k0].response, cs[i]);
            assert(!is_redirect(cs[n], v));
            assert forall|l: int| i < l < n + 1 implies !is_redirect(#[trigger] cs[l], v) by { if l < n { } }
            assert(is_redirect(cs[i], v));
            assert forall|k: Key| #[trigger] b.dom().contains(k) && mine(k, v, None) implies k.2 is None by { assert(!mine(k, u, None)); assert(a.dom().contains(k)); }
        }
    }
}
pub proof fn lemma_red_skip(a0: Resps, a: Resps, cs: Seq<NormalizedAssetConfig>, n: int) requires 0 <= n < cs.len(), !(cs[n] is Redirect) ensures reds(a0, a, cs, n) ==> reds(a0, a, cs, n + 1), unreds(a0, a, cs, n) ==> unreds(a0, a, cs, n + 1)
{
    assert forall|v: Seq<char>| #[trigger] redirected(cs, n + 1, v) == redirected(cs, n, v) by { lemma_red_next(cs, n, v); }
    if reds(a0, a, cs, n) {
        assert forall|v: Seq<char>| #[trigger] redirected(cs, n + 1, v) implies a.dom().contains((v, None, None)) && (forall|k: Key| #[trigger] a.dom().contains(k) && mine(k, v, None) ==> k.2 is None) && red_ok(a[(v, None, None)].response, cs, n + 1, v) by {
            assert(redirected(cs, n, v)); let k0: Key = (v, None, None);
            let i = choose|i: int| 0 <= i < n && is_redirect(#[trigger] cs[i], v) && (forall|l: int| i < l < n ==> !is_redirect(#[trigger] cs[l], v)) && shows_redirect(a[k0].response, cs[i]);
            assert forall|l: int| i < l < n + 1 implies !is_redirect(#[trigger] cs[l], v) by { if l < n { } }
            assert(is_redirect(cs[i], v));
        }
        assert(reds(a0, a, cs, n + 1));
    }
    if unreds(a0, a, cs, n) { assert forall|k: Key| if k.1 is None && redirected(cs, n + 1, k.0) { !#[trigger] a.dom().contains(k) } else { a.dom().contains(k) == a0.dom().contains(k) && (a0.dom().contains(k) ==> a[k] == a0[k]) } by { assert(redirected(cs, n + 1, k.0) == redirected(cs, n, k.0)); } }
}
pub proof fn lemma_unred_step(a0: Resps, a: Resps, b: Resps, cs: Seq<NormalizedAssetConfig>, n: int, u: Seq<char>)
    requires 0 <= n < cs.len(), unreds(a0, a, cs, n), is_redirect(cs[n], u), b == without(a, u, None)
    ensures unreds(a0, b, cs, n + 1)
{
    assert forall|k: Key| if k.1 is None && redirected(cs, n + 1, k.0) { !#[trigger] b.dom().contains(k) } else { b.dom().contains(k) == a0.dom().contains(k) && (a0.dom().contains(k) ==> b[k] == a0[k]) } by {
        lemma_red_next(cs, n, k.0);
        assert(if k.1 is None && redirected(cs, n, k.0) { !a.dom().contains(k) } else { a.dom().contains(k) == a0.dom().contains(k) });
        assert(is_redirect(cs[n], k.0) == (k.0 == u));
    }
}
/// What certifying a batch does: some order of the files, then the redirects.
pub open spec fn certified_batch(a: AssetRouter, b: AssetRouter, m: Files, cs: Seq<NormalizedAssetConfig>, vs: Seq<&Asset>, mid: Resps) -> bool {
    listing(m, vs) && after(a.responses@, mid, jobs(cs, m, vs)) && fafter(a.fallback_responses@, b.fallback_responses@, jobs(cs, m, vs)) && reds(mid, b.responses@, cs, cs.len() as int)
}
pub open spec fn deleted_batch(a: AssetRouter, b: AssetRouter, m: Files, cs: Seq<NormalizedAssetConfig>, vs: Seq<&Asset>, mid: Resps) -> bool {
    listing(m, vs) && gone(a.responses@, mid, jobs(cs, m, vs)) && fgone(a.fallback_responses@, b.fallback_responses@, jobs(cs, m, vs)) && unreds(mid, b.responses@, cs, cs.len() as int)
}
pub open spec fn any_job(cs: Seq<NormalizedAssetConfig>, m: Files, u: Seq<char>, e: Option<Seq<char>>) -> bool { exists|p: Seq<char>| #[trigger] m.dom().contains(p) && has_job(jobs_of(cs, m, m[p]), u, e) }
pub open spec fn any_fall(cs: Seq<NormalizedAssetConfig>, m: Files, u: Seq<char>, e: Option<Seq<char>>) -> bool { exists|p: Seq<char>| #[trigger] m.dom().contains(p) && has_fall(jobs_of(cs, m, m[p]), u, e) }
pub proof fn lemma_has_plus(a: Seq<Job>, b: Seq<Job>, u: Seq<char>, e: Option<Seq<char>>) ensures has_job(a + b, u, e) == (has_job(a, u, e) || has_job(b, u, e)), has_fall(a + b, u, e) == (has_fall(a, u, e) || has_fall(b, u, e)) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_has_plus(a, b.drop_last(), u, e);
        assert(a + b =~= (a + b.drop_last()).push(b.last())); assert(b =~= b.drop_last().push(b.last()));
        lemma_has_push(a + b.drop_last(), b.last(), u, e); lemma_has_push(b.drop_last(), b.last(), u, e);
    }
}
pub proof fn lemma_has_all(cs: Seq<NormalizedAssetConfig>, m: Files, vs: Seq<&Asset>, u: Seq<char>, e: Option<Seq<char>>)
    ensures has_job(jobs(cs, m, vs), u, e) == exists|i: int| 0 <= i < vs.len() && has_job(jobs_of(cs, m, *(#[trigger] vs[i])), u, e), has_fall(jobs(cs, m, vs), u, e) == exists|i: int| 0 <= i < vs.len() && has_fall(jobs_of(cs, m, *(#[trigger] vs[i])), u, e)
    decreases vs.len()
{
    if vs.len() > 0 {
        let w = vs.drop_last(); let n = vs.len() - 1;
        lemma_has_all(cs, m, w, u, e);
        lemma_has_plus(jobs(cs, m, w), jobs_of(cs, m, *vs.last()), u, e);
        if exists|i: int| 0 <= i < vs.len() && has_job(jobs_of(cs, m, *(#[trigger] vs[i])), u, e) { let i = choose|i: int| 0 <= i < vs.len() && has_job(jobs_of(cs, m, *(#[trigger] vs[i])), u, e); if i < n { assert(has_job(jobs_of(cs, m, *w[i]), u, e)); } }
        if exists|i: int| 0 <= i < w.len() && has_job(jobs_of(cs, m, *(#[trigger] w[i])), u, e) { let i = choose|i: int| 0 <= i < w.len() && has_job(jobs_of(cs, m, *(#[trigger] w[i])), u, e); assert(has_job(jobs_of(cs, m, *vs[i]), u, e)); }
        if has_job(jobs_of(cs, m, *vs.last()), u, e) { assert(has_job(jobs_of(cs, m, *vs[n]), u, e)); }
        if exists|i: int| 0 <= i < vs.len() && has_fall(jobs_of(cs, m, *(#[trigger] vs[i])), u, e) { let i = choose|i: int| 0 <= i < vs.len() && has_fall(jobs_of(cs, m, *(#[trigger] vs[i])), u, e); if i < n { assert(has_fall(jobs_of(cs, m, *w[i]), u, e)); } }
        if exists|i: int| 0 <= i < w.len() && has_fall(jobs_of(cs, m, *(#[trigger] w[i])), u, e) { let i = choose|i: int| 0 <= i < w.len() && has_fall(jobs_of(cs, m, *(#[trigger] w[i])), u, e); assert(has_fall(jobs_of(cs, m, *vs[i]), u, e)); }
        if has_fall(jobs_of(cs, m, *vs.last()), u, e) { assert(has_fall(jobs_of(cs, m, *vs[n]), u, e)); }
    }
}
/// What a batch touches does not depend on the order in which its files are taken.
pub proof fn lemma_any_order(cs: Seq<NormalizedAssetConfig>, m: Files, vs: Seq<&Asset>, u: Seq<char>, e: Option<Seq<char>>) requires listing(m, vs) ensures has_job(jobs(cs, m, vs), u, e) == any_job(cs, m, u, e), has_fall(jobs(cs, m, vs), u, e) == any_fall(cs, m, u, e)
{
    lemma_has_all(cs, m, vs, u, e);
    if has_job(jobs(cs, m, vs), u, e) { let i = choose|i: int| 0 <= i < vs.len() && has_job(jobs_of(cs, m, *(#[trigger] vs[i])), u, e); let p = choose|p: Seq<char>| m.dom().contains(p) && #[trigger] m[p] == *vs[i]; assert(m.dom().contains(p)); }
    if any_job(cs, m, u, e) { let p = choose|p: Seq<char>| #[trigger] m.dom().contains(p) && has_job(jobs_of(cs, m, m[p]), u, e); let i = choose|i: int| 0 <= i < vs.len() && *(#[trigger] vs[i]) == m[p]; assert(has_job(jobs_of(cs, m, *vs[i]), u, e)); }
    if has_fall(jobs(cs, m, vs), u, e) { let i = choose|i: int| 0 <= i < vs.len() && has_fall(jobs_of(cs, m, *(#[trigger] vs[i])), u, e); let p = choose|p: Seq<char>| m.dom().contains(p) && #[trigger] m[p] == *vs[i]; assert(m.dom().contains(p)); }
    if any_fall(cs, m, u, e) { let p = choose|p: Seq<char>| #[trigger] m.dom().contains(p) && has_fall(jobs_of(cs, m, m[p]), u, e); let i = choose|i: int| 0 <= i < vs.len() && *(#[trigger] vs[i]) == m[p]; assert(has_fall(jobs_of(cs, m, *vs[i]), u, e)); }
}
/// b has no response that a has not.
pub open spec fn within(b: Resps, a: Resps) -> bool { forall|k: Key| #[trigger] b.dom().contains(k) ==> a.dom().contains(k) && a[k] == b[k] }
/// Deleting a batch removes all its responses, whatever was certified there, and nothing else.
pub proof fn lemma_deleted(a: AssetRouter, b: AssetRouter, m: Files, cs: Seq<NormalizedAssetConfig>, vs: Seq<&Asset>, mid: Resps, k: Key)
    requires deleted_batch(a, b, m, cs, vs, mid)
    ensures if any_job(cs, m, k.0, k.1) || (k.1 is None && redirected(cs, cs.len() as int, k.0)) { !b.responses@.dom().contains(k) } else { b.responses@.dom().contains(k) == a.responses@.dom().contains(k) && (a.responses@.dom().contains(k) ==> a.responses@[k] == b.responses@[k]) },
        if any_fall(cs, m, k.0, k.1) { !b.fallback_responses@.dom().contains(k) } else { b.fallback_responses@.dom().contains(k) == a.fallback_responses@.dom().contains(k) && (a.fallback_responses@.dom().contains(k) ==> a.fallback_responses@[k] == b.fallback_responses@[k]) }
{
    let js = jobs(cs, m, vs);
    lemma_any_order(cs, m, vs, k.0, k.1);
    assert(if has_job(js, k.0, k.1) { !mid.dom().contains(k) } else { mid.dom().contains(k) == a.responses@.dom().contains(k) });
    assert(if k.1 is None && redirected(cs, cs.len() as int, k.0) { !b.responses@.dom().contains(k) } else { b.responses@.dom().contains(k) == mid.dom().contains(k) });
    assert(if has_fall(js, k.0, k.1) { !b.fallback_responses@.dom().contains(k) } else { b.fallback_responses@.dom().contains(k) == a.fallback_responses@.dom().contains(k) });
}
/// Certifying a batch and then deleting it leaves nothing of it.
pub proof fn lemma_round_trip(a: AssetRouter, b: AssetRouter, c: AssetRouter, m: Files, cs: Seq<NormalizedAssetConfig>, vs: Seq<&Asset>, mid: Resps, ws: Seq<&Asset>, nid: Resps)
    requires certified_batch(a, b, m, cs, vs, mid), deleted_batch(b, c, m, cs, ws, nid)
    ensures within(c.responses@, a.responses@), within(c.fallback_responses@, a.fallback_responses@)
{
    let js = jobs(cs, m, vs);
    assert forall|k: Key| #[trigger] c.responses@.dom().contains(k) implies a.responses@.dom().contains(k) && a.responses@[k] == c.responses@[k] by {
        lemma_deleted(b, c, m, cs, ws, nid, k); lemma_any_order(cs, m, vs, k.0, k.1);
        assert(b.responses@.dom().contains(k) == mid.dom().contains(k));
        assert(mid.dom().contains(k) == a.responses@.dom().contains(k));
    }
    assert forall|k: Key| #[trigger] c.fallback_responses@.dom().contains(k) implies a.fallback_responses@.dom().contains(k) && a.fallback_responses@[k] == c.fallback_responses@[k] by {
        lemma_deleted(b, c, m, cs, ws, nid, k); lemma_any_order(cs, m, vs, k.0, k.1);
        assert(b.fallback_responses@.dom().contains(k) == a.fallback_responses@.dom().contains(k));
    }
}
/// Nothing stored, nothing in the tree: the root hash is the one the router began with (root_hash).
pub proof fn lemma_nothing_stored(r: AssetRouter) requires own(r), within(r.responses@, Map::empty()), within(r.fallback_responses@, Map::empty()) ensures forall|q: Path| !#[trigger] r.tree.has(q)
{
    assert forall|q: Path| !#[trigger] r.tree.has(q) by { if r.tree.has(q) { let s = choose|s: Slot| #[trigger] alls(r).dom().contains(s) && ep(alls(r)[s]) == q; if s.0 { assert(r.fallback_responses@.dom().contains(s.1)); } else { assert(r.responses@.dom().contains(s.1)); } } }
}
//@lemmaprops lemma_deleted C25
//@lemmaprops lemma_round_trip C25
//@lemmaprops lemma_nothing_stored C25
//@lemmaprops lemma_any_order C25
//@lemmaprops lemma_after C24
//@lemmaprops lemma_fafter C24
//@lemmaprops lemma_gone_step C25
//@lemmaprops lemma_red_step C24
//@lemmaprops lemma_unred_step C25
//@lemmaprops lemma_conf C24 C25
//@source ac packages/ic-asset-certification/src/asset_config.rs
//@take ac AssetConfig impl:TryFrom<AssetConfig>:NormalizedAssetConfig NormalizedAssetConfig::matches_asset
//@fn NormalizedAssetConfig::TryFrom::try_from C24 C25
//@ret r
//@entry
    broadcast use group_asset;
//@spec
    ensures r is Ok ==> normal(config, r->Ok_0)
//@fn NormalizedAssetConfig::matches_asset C24 C25
//@ret r
//@subst `path == asset.path.as_ref()` => `path.same(asset.path.as_ref())`
//@entry
    broadcast use {group_asset, ax_cow_str};
//@spec
    ensures r == fits(*self, asset.path@)
//@text
pub proof fn lemma_jobs_next<'a, 'b>(cs: Seq<NormalizedAssetConfig>, m: Files<'a, 'b>, all: Seq<&Asset<'a, 'b>>, n: int) requires 0 <= n < all.len() ensures jobs(cs, m, all.take(n + 1)) == jobs(cs, m, all.take(n)) + jobs_of(cs, m, *all[n])
{
    assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]);
}
pub proof fn lemma_found<'a>(cs: Seq<NormalizedAssetConfig>, p: Seq<char>, c: Option<&'a NormalizedAssetConfig>)
    requires match c { Some(x) => exists|i: int| 0 <= i < cs.len() && *x == #[trigger] cs[i] && fits(cs[i], p) && forall|j: int| 0 <= j < i ==> !fits(#[trigger] cs[j], p), None => forall|j: int| 0 <= j < cs.len() ==> !fits(#[trigger] cs[j], p) }
    ensures conf(cs, p) == c
{
    match c { Some(x) => { let i = choose|i: int| 0 <= i < cs.len() && *x == #[trigger] cs[i] && fits(cs[i], p) && forall|j: int| 0 <= j < i ==> !fits(#[trigger] cs[j], p); lemma_conf(cs, p, i); }, None => { lemma_conf(cs, p, cs.len() as int); } }
}
pub proof fn lemma_given<'a, 'b>(given: Seq<Asset<'a, 'b>>) ensures forall|t: Seq<(Cow<'b, str>, Asset<'a, 'b>)>| given.len() == t.len() && (forall|i: int| 0 <= i < given.len() ==> (#[trigger] t[i]).1 == given[i] && t[i].0@ == given[i].path@) ==> #[trigger] from_pairs(t) == files(given)
{
    assert forall|t: Seq<(Cow<'b, str>, Asset<'a, 'b>)>| given.len() == t.len() && (forall|i: int| 0 <= i < given.len() ==> (#[trigger] t[i]).1 == given[i] && t[i].0@ == given[i].path@) implies #[trigger] from_pairs(t) == files(given) by { lemma_files(given, t); }
}
//@take ar AssetRouter::certify_assets AssetRouter::delete_assets
//@fn AssetRouter::certify_assets C24 C25
//@ret r
//@opt inline-own
//@opt fmt
//@subst `|asset|` => `|asset: Asset<'content, 'path>|`
//@subst `|e| -> (t: bool)` => `|e: &&NormalizedAssetConfig| -> (t: bool)`
//@subst `|e| -> (t: Vec` => `|e: &NormalizedAssetConfig| -> (t: Vec`
//@closure 0
-> (t: (Cow<'path, str>, Asset<'content, 'path>)) ensures t.0@ == asset.path@, t.1 == asset
//@closure 1
-> (t: bool) ensures t == fits(**e, asset.path@)
//@closure 2
-> (t: Vec<(AssetEncoding, String)>) ensures clones(encs_of(Some(e)), t@)
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)),
        r is Ok ==> exists|cs: Seq<NormalizedAssetConfig>, vs: Seq<&Asset<'content, 'path>>, mid: Resps<'content>| all_normal(asset_configs@, cs) && #[trigger] certified_batch(*old(self), *final(self), files(assets@), cs, vs, mid)
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost given = assets@;
    let ghost gc = asset_configs@;
    proof { lemma_given(given); }
//@before `for asset in asset_map.values() {`
    let ghost cs = asset_configs@;
    let ghost m = asset_map@;
    let ghost all: Seq<&Asset<'content, 'path>> = asset_map.listed();
    proof { assert(m == files(given)); assert(all_normal(gc, cs)); assert(all.take(0) =~= Seq::empty()); }
//@loop 0
    invariant r0 == *old(self), inv(*self), own(r0) ==> own(*self), cs == asset_configs@, m == asset_map@, listing(m, all), all == asset_map.listed(),
        rv_v0@.len() <= all.len(), rv_v0@ =~= all.skip(all.len() - rv_v0@.len()), after(r0.responses@, self.responses@, jobs(cs, m, all.take(all.len() - rv_v0@.len()))), fafter(r0.fallback_responses@, self.fallback_responses@, jobs(cs, m, all.take(all.len() - rv_v0@.len())))
    ensures rv_v0@.len() == 0
    decreases rv_v0@.len()
//@loopentry 0
    broadcast use group_asset;
    let ghost n = all.len() - rv_v0@.len() - 1;
    let ghost js0 = jobs(cs, m, all.take(n));
    proof { assert(asset == all[n]); lemma_jobs_next(cs, m, all, n); }
//@before `for (encoding, postfix) in asset_config`
    let ghost c = conf(cs, asset.path@);
    let ghost es = encs_of(c);
    proof { lemma_found(cs, asset.path@, asset_config); match asset_config { Some(NormalizedAssetConfig::File { encodings, .. }) => { lemma_cloned_encs(encodings@); }, Some(NormalizedAssetConfig::Pattern { encodings, .. }) => { lemma_cloned_encs(encodings@); }, _ => { } } assert(js0 + jobs_enc(m, *asset, c, es, 0) =~= js0); }
//@loop 1
    invariant r0 == *old(self), inv(*self), own(r0) ==> own(*self), cs == asset_configs@, m == asset_map@, listing(m, all), c == asset_config, rv_v1@.len() <= es.len(), same_encs(rv_v1@, es.skip(es.len() - rv_v1@.len())), after(r0.responses@, self.responses@, js0 + jobs_enc(m, *asset, c, es, es.len() - rv_v1@.len())), fafter(r0.fallback_responses@, self.fallback_responses@, js0 + jobs_enc(m, *asset, c, es, es.len() - rv_v1@.len()))
    ensures rv_v1@.len() == 0
    decreases rv_v1@.len()
//@loopentry 1
    broadcast use group_asset;
    let ghost x = es.len() - rv_v1@.len() - 1;
    let ghost pre = *self;
    let ghost js = js0 + jobs_enc(m, *asset, c, es, x);
    proof { assert(encoding == es[x].0 && postfix@ == es[x].1@); }
//@after `self.certify_asset_impl(encoded_asset, asset_config, Some(encoding))?;`
    proof { let j = job(c, cv(m[asset.path@ + postfix@].content), asset.url@, Some(enc_name(encoding))); lemma_after(r0.responses@, pre.responses@, self.responses@, js, j); lemma_fafter(r0.fallback_responses@, pre.fallback_responses@, self.fallback_responses@, js, j); assert(js0 + jobs_enc(m, *asset, c, es, x + 1) =~= js.push(j)); }
//@before `self.certify_asset_impl(asset.clone(), asset_config, None)?;`
    let ghost pre = *self;
    let ghost js = js0 + jobs_enc(m, *asset, c, es, es.len() as int);
//@after `self.certify_asset_impl(asset.clone(), asset_config, None)?;`
    proof { let j = job(c, cv(asset.content), asset.url@, None); lemma_after(r0.responses@, pre.responses@, self.responses@, js, j); lemma_fafter(r0.fallback_responses@, pre.fallback_responses@, self.fallback_responses@, js, j); assert(js0 + jobs_of(cs, m, *asset) =~= js.push(j)); }
//@before `for asset_config in asset_configs {`
    let ghost mid = self.responses@;
    let ghost f1 = self.fallback_responses@;
    proof { assert(all.take(all.len() as int) =~= all); assert(reds(mid, mid, cs, 0)); }
//@loop 2
    invariant r0 == *old(self), inv(*self), own(r0) ==> own(*self), self.fallback_responses@ == f1, rv_v2@.len() <= cs.len(), rv_v2@ =~= cs.skip(cs.len() - rv_v2@.len()), reds(mid, self.responses@, cs, cs.len() - rv_v2@.len())
    ensures rv_v2@.len() == 0
    decreases rv_v2@.len()
//@loopentry 2
    broadcast use group_asset;
    let ghost x = cs.len() - rv_v2@.len() - 1;
    let ghost pre = *self;
    proof { assert(asset_config == cs[x]); if !(cs[x] is Redirect) { lemma_red_skip(mid, self.responses@, cs, x); } }
//@before `self.insert_redirect(from, to, kind)?;`
    let ghost u = from@;
//@after `self.insert_redirect(from, to, kind)?;`
    proof { lemma_red_step(mid, pre.responses@, self.responses@, cs, x, u); }
//@tail
    proof { if r is Ok { assert(certified_batch(r0, *self, m, cs, all, mid)); } }
//@fn AssetRouter::delete_assets C25
//@ret r
//@opt inline-own
//@opt fmt
//@subst `|asset|` => `|asset: Asset<'content, 'path>|`
//@subst `|e| -> (t: bool)` => `|e: &&NormalizedAssetConfig| -> (t: bool)`
//@subst `|e| -> (t: Vec` => `|e: &NormalizedAssetConfig| -> (t: Vec`
//@closure 0
-> (t: (Cow<'path, str>, Asset<'content, 'path>)) ensures t.0@ == asset.path@, t.1 == asset
//@closure 1
-> (t: bool) ensures t == fits(**e, asset.path@)
//@closure 2
-> (t: Vec<(AssetEncoding, String)>) ensures clones(encs_of(Some(e)), t@)
//@spec
    requires inv(*old(self))
    ensures inv(*final(self)), own(*old(self)) ==> own(*final(self)), shrunk(*old(self), *final(self)),
        r is Ok ==> exists|cs: Seq<NormalizedAssetConfig>, vs: Seq<&Asset<'content, 'path>>, mid: Resps<'content>| all_normal(asset_configs@, cs) && #[trigger] deleted_batch(*old(self), *final(self), files(assets@), cs, vs, mid)
//@entry
    broadcast use group_asset;
    let ghost r0 = *self;
    let ghost given = assets@;
    let ghost gc = asset_configs@;
    proof { lemma_given(given); lemma_shrunk_same(*self); }
//@before `for asset in asset_map.values() {`
    let ghost cs = asset_configs@;
    let ghost m = asset_map@;
    let ghost all: Seq<&Asset<'content, 'path>> = asset_map.listed();
    proof { assert(m == files(given)); assert(all_normal(gc, cs)); assert(all.take(0) =~= Seq::empty()); }
//@loop 0
    invariant r0 == *old(self), inv(*self), own(r0) ==> own(*self), cs == asset_configs@, m == asset_map@, listing(m, all), shrunk(r0, *self), all == asset_map.listed(),
        rv_v0@.len() <= all.len(), rv_v0@ =~= all.skip(all.len() - rv_v0@.len()), gone(r0.responses@, self.responses@, jobs(cs, m, all.take(all.len() - rv_v0@.len()))), fgone(r0.fallback_responses@, self.fallback_responses@, jobs(cs, m, all.take(all.len() - rv_v0@.len())))
    ensures rv_v0@.len() == 0
    decreases rv_v0@.len()
//@loopentry 0
    broadcast use group_asset;
    let ghost n = all.len() - rv_v0@.len() - 1;
    let ghost js0 = jobs(cs, m, all.take(n));
    proof { assert(asset == all[n]); lemma_jobs_next(cs, m, all, n); }
//@before `for (encoding, postfix) in asset_config`
    let ghost c = conf(cs, asset.path@);
    let ghost es = encs_of(c);
    proof { lemma_found(cs, asset.path@, asset_config); match asset_config { Some(NormalizedAssetConfig::File { encodings, .. }) => { lemma_cloned_encs(encodings@); }, Some(NormalizedAssetConfig::Pattern { encodings, .. }) => { lemma_cloned_encs(encodings@); }, _ => { } } assert(js0 + jobs_enc(m, *asset, c, es, 0) =~= js0); }
//@loop 1
    invariant r0 == *old(self), inv(*self), own(r0) ==> own(*self), cs == asset_configs@, m == asset_map@, listing(m, all), shrunk(r0, *self), c == asset_config, rv_v1@.len() <= es.len(), same_encs(rv_v1@, es.skip(es.len() - rv_v1@.len())), gone(r0.responses@, self.responses@, js0 + jobs_enc(m, *asset, c, es, es.len() - rv_v1@.len())), fgone(r0.fallback_responses@, self.fallback_responses@, js0 + jobs_enc(m, *asset, c, es, es.len() - rv_v1@.len()))
    ensures rv_v1@.len() == 0
    decreases rv_v1@.len()
//@loopentry 1
    broadcast use group_asset;
    let ghost x = es.len() - rv_v1@.len() - 1;
    let ghost pre = *self;
    let ghost js = js0 + jobs_enc(m, *asset, c, es, x);
    proof { assert(encoding == es[x].0 && postfix@ == es[x].1@); }
//@after `self.delete_asset_impl(encoded_asset, asset_config, Some(encoding))?;`
    proof { let j = job(c, cv(m[asset.path@ + postfix@].content), asset.url@, Some(enc_name(encoding))); lemma_gone_step(r0.responses@, pre.responses@, self.responses@, r0.fallback_responses@, pre.fallback_responses@, self.fallback_responses@, js, j); assert(js0 + jobs_enc(m, *asset, c, es, x + 1) =~= js.push(j)); }
//@before `self.delete_asset_impl(asset.clone(), asset_config, None)?;`
    let ghost pre = *self;
    let ghost js = js0 + jobs_enc(m, *asset, c, es, es.len() as int);
//@after `self.delete_asset_impl(asset.clone(), asset_config, None)?;`
    proof { let j = job(c, cv(asset.content), asset.url@, None); lemma_gone_step(r0.responses@, pre.responses@, self.responses@, r0.fallback_responses@, pre.fallback_responses@, self.fallback_responses@, js, j); assert(js0 + jobs_of(cs, m, *asset) =~= js.push(j)); }
//@before `for asset_config in asset_configs {`
    let ghost mid = self.responses@;
    let ghost f1 = self.fallback_responses@;
    proof { assert(all.take(all.len() as int) =~= all); assert(unreds(mid, mid, cs, 0)); }
//@loop 2
    invariant r0 == *old(self), inv(*self), own(r0) ==> own(*self), shrunk(r0, *self), self.fallback_responses@ == f1, rv_v2@.len() <= cs.len(), rv_v2@ =~= cs.skip(cs.len() - rv_v2@.len()), unreds(mid, self.responses@, cs, cs.len() - rv_v2@.len())
    ensures rv_v2@.len() == 0
    decreases rv_v2@.len()
//@loopentry 2
    broadcast use group_asset;
    let ghost x = cs.len() - rv_v2@.len() - 1;
    let ghost pre = *self;
    proof { assert(asset_config == cs[x]); if !(cs[x] is Redirect) { lemma_red_skip(mid, self.responses@, cs, x); } }
//@before `self.delete_redirect(from, to, kind)?;`
    let ghost u = from@;
//@after `self.delete_redirect(from, to, kind)?;`
    proof { lemma_unred_step(mid, pre.responses@, self.responses@, cs, x, u); }
//@tail
    proof { if r is Ok { assert(deleted_batch(r0, *self, m, cs, all, mid)); } }
