//@source ar packages/ic-asset-certification/src/asset_router.rs
//@source as packages/ic-asset-certification/src/asset.rs
//@source ac packages/ic-asset-certification/src/asset_config.rs
//@source at packages/ic-asset-certification/src/types.rs
//@source ae packages/ic-asset-certification/src/error.rs
//@source urh packages/ic-http-certification/src/utils/response_header.rs
//@derive CertifiedAssetResponse
//@derive RequestKey
//@derive Asset
//@derive AssetFallbackConfig
//@derive AssetRedirectKind
//@derive AssetEncoding Clone, Copy
//@derive NormalizedAssetConfig
//@derive AssetCertificationError
//@derive AssetRouter
//@derive RangeRequestValues
//@gsubst `Rc<RefCell<HttpCertificationTree>>` => `HttpCertificationTree`
//@gsubst `.borrow_mut()` => ``
//@gsubst `.borrow()` => ``
//@gsubst `HashMap<RequestKey, CertifiedAssetResponse<'content>>` => `KeyMap<'content>`
//@gsubst `HashMap::new()` => `KeyMap::new()`
//@gsubst `ic_http_certification::HttpCertificationError` => `HttpCertificationError`
//@text
// ---------------------------------------------------------------- the asset router: what it uses (assumed contracts)
/// Decimal text of a number.
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub broadcast axiom fn ax_usize_text(n: &usize, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<usize>(n, r) <==> r@ == dec(*n as int);
pub broadcast axiom fn ax_cow_text(c: &Cow<'_, str>, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<'_, str>>(c, r) <==> r@ == c@;
pub broadcast axiom fn ax_str_ref_text(c: &&str, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<&str>(c, r) <==> r@ == c@;
/// assumed: no slice is longer than isize::MAX bytes
pub broadcast axiom fn ax_slice_len(s: &[u8]) ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast axiom fn ax_cloned_pair(a: (String, String), b: (String, String)) ensures #[trigger] vstd::pervasive::cloned(a, b) ==> a.0@ == b.0@ && a.1@ == b.1@;
pub broadcast axiom fn ax_cow_of_string<'a>(u: String, c: Cow<'a, str>) ensures #[trigger] into_gives::<String, Cow<'a, str>>(u, c) ==> c@ == u@;
pub broadcast axiom fn ax_into_path<'a>(u: HttpCertificationPath<'a>, c: Cow<'a, HttpCertificationPath<'a>>) ensures #[trigger] into_gives::<HttpCertificationPath<'a>, Cow<'a, HttpCertificationPath<'a>>>(u, c) ==> c == Cow::<'a, HttpCertificationPath<'a>>::Owned(u);
pub broadcast axiom fn ax_into_cert<'a>(u: HttpCertification, c: Cow<'a, HttpCertification>) ensures #[trigger] into_gives::<HttpCertification, Cow<'a, HttpCertification>>(u, c) ==> c == Cow::<'a, HttpCertification>::Owned(u);
pub broadcast axiom fn ax_owned_path<'a>(u: HttpCertificationPath<'a>) ensures *(#[trigger] cow_ref(&Cow::<'a, HttpCertificationPath<'a>>::Owned(u))) == u;
pub broadcast axiom fn ax_owned_cert<'a>(u: HttpCertification) ensures *(#[trigger] cow_ref(&Cow::<'a, HttpCertification>::Owned(u))) == u;
impl<'a> FromSpecImpl<HttpCertificationPath<'a>> for Cow<'a, HttpCertificationPath<'a>> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(o: HttpCertificationPath<'a>) -> Self { Cow::Owned(o) } }
impl<'a> FromSpecImpl<HttpCertification> for Cow<'a, HttpCertification> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(o: HttpCertification) -> Self { Cow::Owned(o) } }
pub broadcast axiom fn ax_cow_of_vec<'a>(u: Vec<&'a str>, c: Cow<'a, [&'a str]>) ensures #[trigger] into_gives::<Vec<&'a str>, Cow<'a, [&'a str]>>(u, c) ==> cv(c) == u@;
pub broadcast axiom fn ax_cow_owned<'a>(v: Vec<u8>) ensures #[trigger] cv(Cow::<'a, [u8]>::Owned(v)) == v@;
pub broadcast axiom fn ax_cow_owned_str<'a>(s: String) ensures #[trigger] Cow::<'a, str>::Owned(s)@ == s@;
pub broadcast group group_asset { ax_usize_text, ax_cow_text, ax_str_ref_text, ax_slice_len, ax_cloned_pair, ax_cow_of_string, ax_into_path, ax_into_cert, ax_owned_path, ax_owned_cert, ax_cow_of_vec, ax_cow_owned, ax_cow_owned_str, group_into, group_string }
/// format!: the pieces joined
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Shown for Cow<'_, str> { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body] pub struct Fmt { x: u8 }
impl View for Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Fmt {
    #[verifier::external_body] pub fn new() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Fmt) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn dis<T: Shown + ?Sized>(self, x: &T) -> (r: Fmt) ensures r@ == self@ + x.shown() { unimplemented!() }
    #[verifier::external_body] pub fn text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// The http crate's names of the range headers.
pub mod http { pub mod header { use super::super::*;
    pub struct HeaderName { pub n: &'static str }
    pub const RANGE: HeaderName = HeaderName { n: "range" };
    pub const CONTENT_RANGE: HeaderName = HeaderName { n: "content-range" };
    impl HeaderName {
        pub fn as_str(&self) -> (r: &'static str) ensures r@ == self.n@ { self.n }
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.n@ { unimplemented!() }
    }
} }
pub mod cmp { use super::*; pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } } }
/// a part of the content, copied
#[verifier::external_body] pub fn cow_part<'a>(c: &Cow<'a, [u8]>, a: usize, b: usize) -> (r: Cow<'a, [u8]>) requires a <= b <= cv(*c).len() ensures cv(r) == cv(*c).subrange(a as int, b as int) { unimplemented!() }
/// derived Clone
impl Clone for Asset<'_, '_> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for AssetFallbackConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CertifiedAssetResponse<'_> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for HttpResponse<'_> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub assume_specification<T: Clone, E> [Result::<&T, E>::cloned] (r: Result<&T, E>) -> (c: Result<T, E>) ensures match r { Ok(x) => c is Ok && call_ensures(T::clone, (x,), c->Ok_0), Err(e) => c == Err::<T, E>(e) };
/// globset::Error
#[verifier::external_body] pub struct GlobError { x: u8 }
pub mod globset { pub type Error = super::GlobError; }
/// The name of an encoding (its Display).
pub open spec fn enc_name(e: AssetEncoding) -> Seq<char> { match e { AssetEncoding::Identity => "identity"@, AssetEncoding::Brotli => "br"@, AssetEncoding::Zstd => "zstd"@, AssetEncoding::Gzip => "gzip"@, AssetEncoding::Deflate => "deflate"@ } }
impl AssetEncoding { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == enc_name(*self) { unimplemented!() } }
pub open spec fn opt_name(e: Option<AssetEncoding>) -> Option<Seq<char>> { match e { Some(x) => Some(enc_name(x)), None => None } }
pub open spec fn optv(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
//@text
// ---------------------------------------------------------------- HashMap by request (assumed contract)
pub type Key = (Seq<char>, Option<Seq<char>>, Option<usize>);
pub type Resps<'a> = Map<Key, CertifiedAssetResponse<'a>>;
pub open spec fn kv(k: RequestKey) -> Key { (k.path@, optv(k.encoding), k.range_begin) }
#[verifier::external_body] pub struct KeyMap<'content> { x: core::marker::PhantomData<&'content u8> }
impl<'content> View for KeyMap<'content> { type V = Resps<'content>; uninterp spec fn view(&self) -> Resps<'content>; }
impl<'content> KeyMap<'content> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Key, CertifiedAssetResponse<'content>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &RequestKey) -> (r: Option<&CertifiedAssetResponse<'content>>) ensures match r { Some(c) => self@.dom().contains(kv(*k)) && *c == self@[kv(*k)], None => !self@.dom().contains(kv(*k)) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &RequestKey) -> (r: bool) ensures r == self@.dom().contains(kv(*k)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: RequestKey, c: CertifiedAssetResponse<'content>) -> (r: Option<CertifiedAssetResponse<'content>>) ensures final(self)@ == old(self)@.insert(kv(k), c) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &RequestKey) -> (r: Option<CertifiedAssetResponse<'content>>) ensures match r { Some(c) => old(self)@.dom().contains(kv(*k)) && c == old(self)@[kv(*k)] && final(self)@ == old(self)@.remove(kv(*k)), None => !old(self)@.dom().contains(kv(*k)) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Key, CertifiedAssetResponse<'content>>::empty() { unimplemented!() }
}
//@text
// ---------------------------------------------------------------- the HTTP certification tree, by the contract that unit httree proves for it
/// Stand-in for HttpCertificationTree: the entry paths it has, and whether every entry inserted so far was apart from those present.
#[verifier::external_body] pub struct HttpCertificationTree { x: u8 }
/// Stand-in for the witness.
#[verifier::external_body] pub struct HashTree { x: u8 }
pub open spec fn under(p: Path, q: Path) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p }
pub open spec fn apart(p: Path, q: Path) -> bool { !under(p, q) && !under(q, p) }
/// see witness_for in unit httree
pub uninterp spec fn witness_for(t: HttpCertificationTree, e: HttpCertificationTreeEntry, url: Seq<char>, w: HashTree) -> bool;
pub uninterp spec fn empty_root() -> Hash;
impl HttpCertificationTree {
    pub uninterp spec fn has(&self, p: Path) -> bool;
    pub uninterp spec fn clean(&self) -> bool;
    #[verifier::external_body] pub fn fresh() -> (r: Self) ensures r.clean(), forall|q: Path| !#[trigger] r.has(q) { unimplemented!() }
    #[verifier::external_body] pub fn root_hash(&self) -> (r: Hash) ensures (forall|q: Path| !#[trigger] self.has(q)) ==> r == empty_root() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, entry: &HttpCertificationTreeEntry) ensures put(*old(self), *final(self), entry_path(*entry)) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&mut self, entry: &HttpCertificationTreeEntry) ensures cut(*old(self), *final(self), entry_path(*entry)) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).clean(), forall|q: Path| !#[trigger] final(self).has(q) { unimplemented!() }
    #[verifier::external_body] pub fn witness(&self, entry: &HttpCertificationTreeEntry, request_url: &str) -> (r: Result<HashTree, HttpCertificationError>)
        ensures match r { Ok(w) => witness_for(*self, *entry, request_url@, w), Err(_) => (*cow_ref(&entry.path)).0 is Wildcard && url_segs(path_text(*cow_ref(&entry.path))).len() > url_segs(request_url@).len() } { unimplemented!() }
}
pub open spec fn put(t: HttpCertificationTree, u: HttpCertificationTree, p: Path) -> bool {
    u.clean() == (t.clean() && forall|q: Path| #[trigger] t.has(q) ==> apart(p, q)) && forall|q: Path| #[trigger] u.has(q) == (q == p || (t.has(q) && apart(p, q)))
}
pub open spec fn cut(t: HttpCertificationTree, u: HttpCertificationTree, p: Path) -> bool {
    u.clean() == t.clean() && forall|q: Path| #[trigger] u.has(q) == (t.has(q) && !under(p, q))
}
/// assumed (find_at of unit httree): an entry is a leaf, so nothing is below it
pub axiom fn ax_leaves(t: HttpCertificationTree, p: Path, q: Path) requires t.has(p), t.has(q), under(p, q) ensures p == q;
//@take hce impl:From<HttpCertification>:Cow<'a,HttpCertification>
//@take cp impl:From<HttpCertificationPath<'a>>:Cow<'a,HttpCertificationPath<'a>>
//@nocontract Cow::From::from
//@take ae AssetCertificationResult AssetCertificationError
//@take at CertifiedAssetResponse RequestKey RequestKey::new
//@take as Asset Asset::new path_to_url
//@take ac AssetFallbackConfig AssetRedirectKind AssetEncoding NormalizedAssetConfig
//@text
/// globset::GlobMatcher
#[verifier::external_body] pub struct GlobMatcher { x: u8 }
impl FromSpecImpl<HttpCertificationError> for AssetCertificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(o: HttpCertificationError) -> Self { AssetCertificationError::HttpCertificationError(o) } }
impl From<HttpCertificationError> for AssetCertificationError { fn from(o: HttpCertificationError) -> (r: Self) { AssetCertificationError::HttpCertificationError(o) } }
//@fn RequestKey::new C24 C25
//@ret r
//@spec
    ensures into_gives(path, r.path), r.encoding == encoding, r.range_begin == range_begin
//@fn Asset::new C24
//@ret r
//@spec
    ensures into_gives(path, r.path), into_gives(content, r.content), r.url@ == url_for(r.path@)
//@entry
    broadcast use {group_asset, ax_cow_str};
//@fn path_to_url C24
//@ret r
//@opt fmt
//@subst `!path.starts_with('/')` => `!path.begins('/')`
//@spec
    ensures r@ == url_for(path@)
//@entry
    broadcast use group_asset;
    proof { reveal_strlit("/"); }
//@tail
    proof { assert("/"@ =~= seq!['/']); assert(r@ =~= url_for(path@)); }
//@text
/// The URL of a path: a leading slash is added if there is none.
pub open spec fn url_for(p: Seq<char>) -> Seq<char> { if p.len() > 0 && p[0] == '/' { p } else { seq!['/'] + p } }
pub trait Begins { fn begins(&self, c: char) -> bool; }
impl Begins for str { #[verifier::external_body] fn begins(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() } }
