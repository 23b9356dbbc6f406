//@ctor ResponseVerificationError::Base64DecodingError ResponseVerificationError::ParseIntError
//@source cf packages/ic-certification/src/certificate.rs
//@source pr packages/ic-response-verification/src/verification/verify_request_response_pair.rs
//@source bo packages/ic-response-verification/src/verification/body.rs
//@source ch packages/ic-response-verification/src/verification/certificate_header.rs
//@source vi packages/ic-response-verification/src/types/verification_result.rs
//@source vr packages/ic-response-verification/src/types/verified_response.rs
//@derive Certificate
//@derive Delegation
//@derive CertificateHeader
//@derive VerificationInfo
//@derive VerifiedResponse
//@gsubst `.parse::<u8>()` => `.parse_num::<u8>()`
//@gsubst `.parse::<u16>()` => `.parse_num::<u16>()`
//@gsubst `.parse::<u32>()` => `.parse_num::<u32>()`
//@gsubst `.parse::<u64>()` => `.parse_num::<u64>()`
//@gsubst `.parse::<u128>()` => `.parse_num::<u128>()`
//@gsubst `.parse::<usize>()` => `.parse_num::<usize>()`
//@gsubst `"".into()` => `label_of_str("")`
//@gsubst `request_hash.into()` => `label_of_hash(request_hash)`
//@gsubst `response_hash.into()` => `label_of_hash(response_hash)`
//@take cf Certificate Delegation
//@text
// ---------------------------------------------------------------- response verification
/// String slices with the same characters are equal.
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// assumed: Option::transpose
pub assume_specification<T, E> [std::option::Option::<std::result::Result<T, E>>::transpose] (o: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>)
    ensures r == match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err::<Option<T>, E>(e) };
macro_rules! warn { ($($t:tt)*) => {} }
impl<T> It<T> { #[verifier::external_body] pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() } }
impl AsRefSpecImpl<[u8]> for Label<Vec<u8>> { uninterp spec fn as_ref_spec(&self) -> &[u8]; }
impl AsRef<[u8]> for Label<Vec<u8>> { #[verifier::external_body] fn as_ref(&self) -> &[u8] { unimplemented!() } }
/// A label's bytes (its AsRef).
pub broadcast axiom fn ax_label_bytes(l: Label<Vec<u8>>) ensures #[trigger] bytes(&l) == l.0@;
/// Conversions to labels keep the bytes.
#[verifier::external_body] pub fn label_of_str(s: &str) -> (r: Label<Vec<u8>>) ensures r.0@ == enc(s@) { unimplemented!() }
#[verifier::external_body] pub fn label_of_hash(s: &Hash) -> (r: Label<Vec<u8>>) ensures r.0@ == s@ { unimplemented!() }
pub broadcast axiom fn ax_vec_from_hash(h: &Hash) ensures #[trigger] <Vec<u8> as FromSpec<&[u8; 32]>>::from_spec(h)@ == h@;
pub broadcast axiom fn ax_hash_eq_slice(a: &Hash, b: &[u8]) ensures #[trigger] <[u8; 32] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_slice_eq_hash(a: &[u8], b: Hash) ensures #[trigger] <&[u8] as PartialEqSpec<[u8; 32]>>::eq_spec(&a, &b) == (a@ == b@);
pub axiom fn ax_hash_obeys() ensures <Vec<u8> as FromSpec<&[u8; 32]>>::obeys_from_spec(), <[u8; 32] as PartialEqSpec<[u8]>>::obeys_eq_spec(), <&[u8] as PartialEqSpec<[u8; 32]>>::obeys_eq_spec(), <u16 as FromSpec<StatusCode>>::obeys_from_spec();
pub broadcast group group_hash { ax_label_bytes, ax_vec_from_hash, ax_hash_eq_slice, ax_slice_eq_hash }
/// Derived equality of hash trees.
impl<S: AsRef<[u8]>> PartialEqSpecImpl for HashTreeNode<S> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { tv(*self) == tv(*o) } }
impl<S: AsRef<[u8]>> PartialEq for HashTreeNode<S> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<S: AsRef<[u8]>> FromSpecImpl<HashTree<S>> for HashTreeNode<S> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(t: HashTree<S>) -> HashTreeNode<S> { t.root } }
impl<S: AsRef<[u8]>> From<HashTree<S>> for HashTreeNode<S> { fn from(t: HashTree<S>) -> (r: HashTreeNode<S>) { t.root } }
impl FromSpecImpl<StatusCode> for u16 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: StatusCode) -> u16 { s@ } }
impl From<StatusCode> for u16 { #[verifier::external_body] fn from(s: StatusCode) -> u16 { unimplemented!() } }
// ---- error conversions (thiserror's #[from])
impl FromSpecImpl<HttpCertificationError> for ResponseVerificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: HttpCertificationError) -> Self { ResponseVerificationError::HttpCertificationError(e) } }
impl From<HttpCertificationError> for ResponseVerificationError { fn from(e: HttpCertificationError) -> Self { ResponseVerificationError::HttpCertificationError(e) } }
impl FromSpecImpl<cel::CelParserError> for ResponseVerificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: cel::CelParserError) -> Self { ResponseVerificationError::CelError(e) } }
impl From<cel::CelParserError> for ResponseVerificationError { fn from(e: cel::CelParserError) -> Self { ResponseVerificationError::CelError(e) } }
impl FromSpecImpl<ic_certificate_verification::CertificateVerificationError> for ResponseVerificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ic_certificate_verification::CertificateVerificationError) -> Self { ResponseVerificationError::CertificateVerificationFailed(e) } }
impl From<ic_certificate_verification::CertificateVerificationError> for ResponseVerificationError { fn from(e: ic_certificate_verification::CertificateVerificationError) -> Self { ResponseVerificationError::CertificateVerificationFailed(e) } }
impl FromSpecImpl<ic_cbor::CborError> for ResponseVerificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ic_cbor::CborError) -> Self { ResponseVerificationError::CborDecodingFailed(e) } }
impl From<ic_cbor::CborError> for ResponseVerificationError { fn from(e: ic_cbor::CborError) -> Self { ResponseVerificationError::CborDecodingFailed(e) } }
#[verifier::external_body] pub struct IoError { x: u8 }
impl FromSpecImpl<IoError> for ResponseVerificationError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(e: IoError) -> Self; }
impl From<IoError> for ResponseVerificationError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
// ---- decoders
/// A reader: the bytes it still has to give before it ends or fails, and whether it fails.
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn fails(&self) -> bool;
    fn read<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<usize, IoError>)
        ensures final(self).fails() == old(self).fails(),
            match r {
                Ok(n) => n <= N && n <= old(self).rest().len() && final(buf)@.take(n as int) == old(self).rest().take(n as int) && final(self).rest() == old(self).rest().skip(n as int) && (n == 0 && N > 0 ==> old(self).rest().len() == 0 && !old(self).fails()),
                Err(_) => old(self).fails(),
            };
}
pub uninterp spec fn gz_out(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn gz_bad(b: Seq<u8>) -> bool;
pub uninterp spec fn deflate_out(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn deflate_bad(b: Seq<u8>) -> bool;
#[verifier::external_body] pub struct GzDecoder<'a> { x: &'a u8 }
#[verifier::external_body] pub struct DeflateDecoder<'a> { x: &'a u8 }
impl Read for GzDecoder<'_> { uninterp spec fn rest(&self) -> Seq<u8>; uninterp spec fn fails(&self) -> bool; #[verifier::external_body] fn read<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<usize, IoError>) { unimplemented!() } }
impl Read for DeflateDecoder<'_> { uninterp spec fn rest(&self) -> Seq<u8>; uninterp spec fn fails(&self) -> bool; #[verifier::external_body] fn read<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<usize, IoError>) { unimplemented!() } }
impl<'a> GzDecoder<'a> { #[verifier::external_body] pub fn new(b: &'a [u8]) -> (r: Self) ensures r.rest() == gz_out(b@), r.fails() == gz_bad(b@) { unimplemented!() } }
impl<'a> DeflateDecoder<'a> { #[verifier::external_body] pub fn new(b: &'a [u8]) -> (r: Self) ensures r.rest() == deflate_out(b@), r.fails() == deflate_bad(b@) { unimplemented!() } }
/// The body behind an encoding; None if it is malformed.
pub open spec fn decoded(b: Seq<u8>, e: Option<Seq<char>>) -> Option<Seq<u8>> {
    if e == Some("gzip"@) { if gz_bad(b) { None } else { Some(gz_out(b)) } }
    else if e == Some("deflate"@) { if deflate_bad(b) { None } else { Some(deflate_out(b)) } }
    else { Some(b) }
}
impl ToOwn for [u8] { type O = Vec<u8>; open spec fn same(&self, o: Vec<u8>) -> bool { o@ == self@ } #[verifier::external_body] fn to_own(&self) -> (r: Vec<u8>) { unimplemented!() } }
// ---- what a certificate and an expression are (contracts discharged in the units cert, cbor; the expression parser is not under contract)
pub uninterp spec fn cert_accepted(c: Certificate<Vec<u8>>, canister_id: Seq<u8>, key: Seq<u8>, now: u128, off: u128) -> bool;
impl Certificate<Vec<u8>> {
    #[verifier::external_body]
    pub fn verify(&self, canister_id: &[u8], root_public_key: &[u8], current_time_ns: &u128, allowed: &u128) -> (r: Result<(), ic_certificate_verification::CertificateVerificationError>)
        requires canister_id@.len() <= 29
        ensures r is Ok <==> cert_accepted(*self, canister_id@, root_public_key@, *current_time_ns, *allowed) { unimplemented!() }
}
#[verifier::external_body] pub struct CelValue<'a> { x: &'a u8 }
pub uninterp spec fn cel_ast(s: Seq<char>, a: CelValue) -> bool;
pub uninterp spec fn cel_of(a: CelValue, c: CelExpression) -> bool;
#[verifier::external_body] pub fn parse_cel_expression<'a>(s: &'a str) -> (r: Result<CelValue<'a>, cel::CelParserError>) ensures r is Ok ==> cel_ast(s@, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn map_cel_ast<'a>(a: &'a CelValue<'a>) -> (r: Result<CelExpression<'a>, cel::CelParserError>) ensures r is Ok ==> cel_of(*a, r->Ok_0) { unimplemented!() }
/// The text is parsed as this certification.
pub open spec fn means(s: Seq<char>, c: CelExpression) -> bool { exists|a: CelValue| #[trigger] cel_ast(s, a) && cel_of(a, c) }
// ---- the certificate header
pub uninterp spec fn b64(s: Seq<char>) -> Option<Seq<u8>>;
/// The decimal number a text is, if it is one.
pub uninterp spec fn nat_of(s: Seq<char>) -> Option<nat>;
pub open spec fn u8_of(s: Seq<char>) -> Option<u8> { match nat_of(s) { Some(n) => if n < 256 { Some(n as u8) } else { None }, None => None } }
pub uninterp spec fn cert_of(b: Seq<u8>) -> Option<Certificate<Vec<u8>>>;
pub uninterp spec fn tree_of(b: Seq<u8>) -> Option<HashTree<Vec<u8>>>;
pub uninterp spec fn strings_of(b: Seq<u8>) -> Option<Seq<Seq<char>>>;
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// The value of the first field with this name.
pub open spec fn first_val(f: Seq<Seq<char>>, n: Seq<char>) -> Option<Seq<char>> decreases f.len() {
    if f.len() == 0 { None } else { match first_val(f.drop_last(), n) { Some(v) => Some(v), None => match field_of(f.last()) { Some(x) => if x.0 == n { Some(x.1) } else { None }, None => None } } }
}
pub open spec fn cert_field(f: Seq<Seq<char>>) -> Option<Option<Certificate<Vec<u8>>>> { match first_val(f, "certificate"@) { None => None, Some(v) => Some(match b64(v) { Some(b) => cert_of(b), None => None }) } }
pub open spec fn tree_field(f: Seq<Seq<char>>) -> Option<Option<HashTree<Vec<u8>>>> { match first_val(f, "tree"@) { None => None, Some(v) => Some(match b64(v) { Some(b) => tree_of(b), None => None }) } }
pub open spec fn version_field(f: Seq<Seq<char>>) -> Option<Option<u8>> { match first_val(f, "version"@) { None => None, Some(v) => Some(u8_of(v)) } }
pub open spec fn path_field(f: Seq<Seq<char>>) -> Option<Option<Seq<Seq<char>>>> { match first_val(f, "expr_path"@) { None => None, Some(v) => Some(match b64(v) { Some(b) => strings_of(b), None => None }) } }
/// What was read from the fields so far.
pub open spec fn read_so_far(f: Seq<Seq<char>>, c: Option<Certificate<Vec<u8>>>, t: Option<HashTree<Vec<u8>>>, v: Option<u8>, p: Option<Vec<String>>) -> bool {
    &&& match c { None => cert_field(f) is None, Some(x) => cert_field(f) == Some(Some(x)) }
    &&& match t { None => tree_field(f) is None, Some(x) => tree_field(f) == Some(Some(x)) }
    &&& match v { None => version_field(f) is None, Some(x) => version_field(f) == Some(Some(x)) }
    &&& match p { None => path_field(f) is None, Some(x) => path_field(f) == Some(Some(texts(x@))) }
}
/// Some field's first value is not a well-formed encoding.
pub open spec fn malformed(f: Seq<Seq<char>>) -> bool { cert_field(f) == Some(None::<Certificate<Vec<u8>>>) || tree_field(f) == Some(None::<HashTree<Vec<u8>>>) || version_field(f) == Some(None::<u8>) || path_field(f) == Some(None::<Seq<Seq<char>>>) }
pub proof fn lemma_malformed_grows(f: Seq<Seq<char>>, n: int) requires 0 <= n <= f.len(), malformed(f.take(n)) ensures malformed(f) decreases f.len()
{
    if n < f.len() { assert(f.drop_last().take(n) =~= f.take(n)); lemma_malformed_grows(f.drop_last(), n); } else { assert(f.take(n) =~= f); }
}
/// A header with these fields states this certificate, tree, version (1 if none) and expression path.
pub open spec fn header_says(f: Seq<Seq<char>>, c: Certificate<Vec<u8>>, t: HashTree<Vec<u8>>, v: u8, p: Option<Seq<Seq<char>>>) -> bool {
    &&& cert_field(f) == Some(Some(c))
    &&& tree_field(f) == Some(Some(t))
    &&& match version_field(f) { None => v == 1, Some(x) => x == Some(v) }
    &&& match p { None => path_field(f) is None, Some(x) => path_field(f) == Some(Some(x)) }
}
pub struct CertificateHeaderField<'a>(pub &'a str, pub &'a str);
impl<'a> CertificateHeaderField<'a> { #[verifier::external_body] pub fn from(s: &'a str) -> (r: Option<CertificateHeaderField<'a>>) ensures match r { Some(x) => field_of(s@) == Some((x.0@, x.1@)), None => field_of(s@) is None } { unimplemented!() } }
pub struct Base64Engine; pub const BASE64: Base64Engine = Base64Engine;
impl Base64Engine { #[verifier::external_body] pub fn decode(&self, s: &str) -> (r: Result<Vec<u8>, base64::DecodeError>) ensures match r { Ok(b) => b64(s@) == Some(b@), Err(_) => b64(s@) is None } { unimplemented!() } }
/// assumed: str::parse gives the number when the type can hold it
pub trait Num: Sized { spec fn value(self) -> nat; spec fn max() -> nat; }
impl Num for u8 { open spec fn value(self) -> nat { self as nat } open spec fn max() -> nat { u8::MAX as nat } }
impl Num for u16 { open spec fn value(self) -> nat { self as nat } open spec fn max() -> nat { u16::MAX as nat } }
impl Num for u32 { open spec fn value(self) -> nat { self as nat } open spec fn max() -> nat { u32::MAX as nat } }
impl Num for u64 { open spec fn value(self) -> nat { self as nat } open spec fn max() -> nat { u64::MAX as nat } }
impl Num for u128 { open spec fn value(self) -> nat { self as nat } open spec fn max() -> nat { u128::MAX as nat } }
impl Num for usize { open spec fn value(self) -> nat { self as nat } open spec fn max() -> nat { usize::MAX as nat } }
pub trait ParseNum { spec fn digits(&self) -> Seq<char>; fn parse_num<T: Num>(&self) -> (r: Result<T, std::num::ParseIntError>) ensures match r { Ok(v) => nat_of(self.digits()) == Some(v.value()), Err(_) => match nat_of(self.digits()) { Some(n) => n > T::max(), None => true } }, r matches Ok(v) ==> v.value() <= T::max(); }
impl ParseNum for str { open spec fn digits(&self) -> Seq<char> { self@ } #[verifier::external_body] fn parse_num<T: Num>(&self) -> (r: Result<T, std::num::ParseIntError>) { unimplemented!() } }
impl Certificate<Vec<u8>> { #[verifier::external_body] pub fn from_cbor(b: &[u8]) -> (r: Result<Self, ic_cbor::CborError>) ensures match r { Ok(c) => cert_of(b@) == Some(c), Err(_) => cert_of(b@) is None } { unimplemented!() } }
impl HashTree<Vec<u8>> { #[verifier::external_body] pub fn from_cbor(b: &[u8]) -> (r: Result<Self, ic_cbor::CborError>) ensures match r { Ok(c) => tree_of(b@) == Some(c), Err(_) => tree_of(b@) is None } { unimplemented!() } }
#[verifier::external_body] pub fn parse_cbor_string_array(b: &[u8]) -> (r: Result<Vec<String>, ic_cbor::CborError>) ensures match r { Ok(v) => strings_of(b@) == Some(texts(v@)), Err(_) => strings_of(b@) is None } { unimplemented!() }
// ---- headers by lower-case name
/// Stand-in for HashMap: the pairs it was collected from; the last one with a key counts.
pub struct HashMap<K, V> { pub e: Vec<(K, V)> }
pub open spec fn last_val(s: Seq<(String, String)>, k: Seq<char>) -> Option<Seq<char>> decreases s.len() { if s.len() == 0 { None } else if s.last().0@ == k { Some(s.last().1@) } else { last_val(s.drop_last(), k) } }
impl FromIt<(String, String)> for HashMap<String, String> { open spec fn collected(s: Seq<(String, String)>, c: Self) -> bool { c.e@ == s } }
pub trait Key { spec fn key(&self) -> Seq<char>; }
impl Key for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl Key for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl HashMap<String, String> { #[verifier::external_body] pub fn get<K: Key + ?Sized>(&self, k: &K) -> (r: Option<&String>) ensures match r { Some(v) => last_val(self.e@, k.key()) == Some(v@), None => last_val(self.e@, k.key()) is None } { unimplemented!() } }
/// The value of the last header with this lower-case name.
pub open spec fn header_val(hs: Seq<(String, String)>, k: Seq<char>) -> Option<Seq<char>> decreases hs.len() { if hs.len() == 0 { None } else if ulow(hs.last().0@) == k { Some(hs.last().1@) } else { header_val(hs.drop_last(), k) } }
pub open spec fn lowered(hs: Seq<(String, String)>, e: Seq<(String, String)>) -> bool { e.len() == hs.len() && forall|i: int| #![trigger e[i]] #![trigger hs[i]] 0 <= i < hs.len() ==> e[i].0@ == ulow(hs[i].0@) && e[i].1@ == hs[i].1@ }
pub broadcast proof fn lemma_lowered(hs: Seq<(String, String)>, e: Seq<(String, String)>, k: Seq<char>) requires #[trigger] lowered(hs, e) ensures #[trigger] last_val(e, k) == header_val(hs, k) decreases hs.len()
{ if hs.len() > 0 { assert(lowered(hs.drop_last(), e.drop_last())) by { assert forall|i: int| 0 <= i < hs.len() - 1 implies e.drop_last()[i].0@ == ulow(hs.drop_last()[i].0@) && e.drop_last()[i].1@ == hs.drop_last()[i].1@ by { assert(e[i] == e.drop_last()[i]); assert(hs[i] == hs.drop_last()[i]); } } lemma_lowered(hs.drop_last(), e.drop_last(), k); assert(e[hs.len() - 1].0@ == ulow(hs[hs.len() - 1].0@)); } }
// ---- what the tree certifies
pub open spec fn data_path(canister_id: Seq<u8>) -> Seq<Seq<u8>> { seq!["canister".spec_bytes(), canister_id, "certified_data".spec_bytes()] }
/// The certificate's tree holds the digest of t as the canister's certified data.
pub open spec fn bound(c: Certificate<Vec<u8>>, canister_id: Seq<u8>, t: ST) -> bool { leads(data_path(canister_id), dg(t)@, tv(c.tree.root)) }
pub open spec fn asset_path_of(p: Seq<u8>) -> Seq<Seq<u8>> { seq!["http_assets".spec_bytes(), p] }
pub open spec fn index_path() -> Seq<Seq<u8>> { seq!["http_assets".spec_bytes(), "/index.html".spec_bytes()] }
/// The legacy tree certifies h for the path: directly, or by the index page if the path is shown absent.
pub open spec fn body_ok(t: ST, p: Seq<u8>, h: Seq<u8>) -> bool {
    match lookup_spec(asset_path_of(p), t) { Look::Found(v) => v == h, Look::Absent => lookup_spec(index_path(), t) == Look::Found(h), _ => false }
}
pub open spec fn body_led(t: ST, p: Seq<u8>, h: Seq<u8>) -> bool { leads(asset_path_of(p), h, t) || leads(index_path(), h, t) }
/// Below the expression path the tree holds the hash of the expression, with this request and response hash under it.
pub open spec fn pair_at(e: Seq<Seq<u8>>, eh: Seq<u8>, rq: Seq<u8>, rs: Seq<u8>, t: ST) -> bool { match subtree_spec(e.push(eh), t) { Find::Found(s) => subtree_spec(seq![rq, rs], s) == Find::Found(ST::Leaf(Seq::<u8>::empty())), _ => false } }
pub open spec fn pair_led(e: Seq<Seq<u8>>, eh: Seq<u8>, rq: Seq<u8>, rs: Seq<u8>, t: ST) -> bool { exists|s: ST| #[trigger] leads_sub(e.push(eh), s, t) && leads_sub(seq![rq, rs], ST::Leaf(Seq::<u8>::empty()), s) }
pub open spec fn rq_part(c: CelExpression, q: HttpRequest) -> Seq<u8> { match c { CelExpression::Default(DefaultCelExpression::Full(x)) => req_hash(q, x.request)@, _ => Seq::<u8>::empty() } }
pub open spec fn resp_sel<'a>(c: CelExpression<'a>) -> DefaultResponseCertificationType<'a> recommends !(c->Default_0 is Skip) { match c { CelExpression::Default(DefaultCelExpression::Full(x)) => x.response.0, CelExpression::Default(DefaultCelExpression::ResponseOnly(x)) => x.response.0, _ => arbitrary() } }
/// The path of the request's URL.
pub open spec fn req_path(q: HttpRequest) -> Option<Seq<char>> { match uri_of(q.url@) { Some(u) => pct_decoded(u.path), None => None } }

// ---- what an accepted response is
pub open spec fn enc_name(hs: Seq<(String, String)>) -> Option<Seq<char>> { header_val(hs, "content-encoding"@) }
/// The certificate holds the tree's digest for this canister, and is accepted.
pub open spec fn tree_backed(c: Certificate<Vec<u8>>, t: ST, canister_id: Seq<u8>, key: Seq<u8>, now: u128, off: u128) -> bool { cert_accepted(c, canister_id, key, now, off) && bound(c, canister_id, t) }
/// The legacy protocol certifies the body, decoded or as it is.
pub open spec fn v1_body(t: ST, p: Seq<u8>, body: Seq<u8>, e: Option<Seq<char>>) -> bool {
    decoded(body, e) is Some && (body_led(t, p, sha256(decoded(body, e)->0)@) || e is Some && body_led(t, p, sha256(body)@))
}
pub open spec fn v1_out(info: VInfo, body: Seq<u8>) -> bool { info.version == 1 && info.response == Some(VResp { status: None, headers: Seq::<(Seq<char>, Seq<char>)>::empty(), body: body }) }
/// What the caller is given, as values.
#[verifier::ext_equal] pub struct VResp { pub status: Option<u16>, pub headers: Seq<(Seq<char>, Seq<char>)>, pub body: Seq<u8> }
#[verifier::ext_equal] pub struct VInfo { pub version: nat, pub response: Option<VResp> }
/// The current protocol: the expression certifies the request and response at an expression path that is the most specific for the request.
pub open spec fn v2_backed(e: Seq<Seq<u8>>, eh: Seq<u8>, c: CelExpression, t: ST, q: HttpRequest, r: HttpResponse) -> bool {
    &&& req_path(q) is Some
    &&& wf_tree(t) ==> expr_ok(e, url_segs(req_path(q)->0), t)
    &&& match c {
        CelExpression::Default(DefaultCelExpression::Skip) => exists|s: ST| leads_sub(e.push(eh), s, t),
        CelExpression::Default(DefaultCelExpression::ResponseOnly(x)) => pair_led(e, eh, Seq::<u8>::empty(), resp_hash(r, x.response.0, sha256(cv(r.body)))@, t),
        CelExpression::Default(DefaultCelExpression::Full(x)) => uri_of(q.url@) is Some && pair_led(e, eh, req_hash(q, x.request)@, resp_hash(r, x.response.0, sha256(cv(r.body)))@, t),
    }
}
/// Only what the expression covers is handed out.
pub open spec fn v2_out(info: VInfo, c: CelExpression, r: HttpResponse) -> bool {
    &&& info.version == 2
    &&& match c {
        CelExpression::Default(DefaultCelExpression::Skip) => info.response is None,
        _ => cert_hdr(r.headers@) is Some && info.response == Some(VResp { status: Some(r.status_code.0@), headers: resp_hdrs(r.headers@, resp_sel(c)).push(("IC-Certificate"@, cert_hdr(r.headers@)->0)), body: cv(r.body) }),
    }
}
pub open spec fn ver_of(f: Seq<Seq<char>>) -> nat { match version_field(f) { None => 1, Some(x) => x->0 as nat } }
/// An accepted pair of request and response, with what the caller is given.
pub open spec fn verified(q: HttpRequest, r: HttpResponse, canister_id: Seq<u8>, now: u128, off: u128, key: Seq<u8>, min: u8, info: VInfo) -> bool {
    let h = header_val(r.headers@, ulow("IC-Certificate"@));
    let f = split_at(h->0, ',');
    let c = cert_field(f)->0->0;
    let t = tv((tree_field(f)->0->0).root);
    let x = header_val(r.headers@, ulow("IC-CertificateExpression"@));
    &&& h is Some
    // every field that counts was there and well-formed
    &&& !malformed(f) && cert_field(f) is Some && tree_field(f) is Some
    &&& tree_backed(c, t, canister_id, key, now, off)
    // the stated version is the one used, and not below the minimum
    &&& ver_of(f) >= min && info.version == ver_of(f)
    &&& ver_of(f) == 1 || ver_of(f) == 2
    &&& ver_of(f) == 1 ==> req_path(q) is Some && v1_body(t, enc(req_path(q)->0), cv(r.body), enc_name(r.headers@)) && v1_out(info, cv(r.body))
    &&& ver_of(f) == 2 ==> path_field(f) is Some && x is Some && exists|e: CelExpression| #[trigger] means(x->0, e)
            && v2_backed(encs(path_field(f)->0->0), sha256(enc(x->0))@, e, t, q, r) && v2_out(info, e, r)
}
