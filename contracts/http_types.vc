//@source hq packages/ic-http-certification/src/http/http_request.rs
//@source hr packages/ic-http-certification/src/http/http_response.rs
//@source hf packages/ic-http-certification/src/http/header_field.rs
//@source he packages/ic-http-certification/src/error.rs
//@source ct packages/ic-http-certification/src/cel/cel_types.rs
//@derive HttpCertificationError
//@itemattr HttpCertificationError #[allow(inconsistent_fields)]
//@derive MethodWrapper
//@derive StatusCodeWrapper
//@derive HttpRequest
//@derive HttpResponse
//@derive CelExpression
//@derive DefaultCelExpression
//@derive DefaultResponseOnlyCelExpression
//@derive DefaultFullCelExpression
//@derive DefaultRequestCertification
//@derive DefaultResponseCertificationType
//@derive DefaultResponseCertification
//@gsubst `.parse::<Uri>()` => `.parse_uri()`
//@gsubst `.join(` => `.join_strs(`
//@gsubst `.concat()` => `.cat2()`
//@gsubst `.iter()` => `.it()`
//@gsubst `.split(` => `.split_it(`
//@text
// ---------------------------------------------------------------- strings, Cow, HTTP requests and responses
pub broadcast axiom fn ax_string_from(x: &str) ensures (#[trigger] <String as FromSpec<&str>>::from_spec(x))@ == x@;
pub broadcast axiom fn ax_string_from_ref(x: &String) ensures (#[trigger] <String as FromSpec<&String>>::from_spec(x))@ == x@;
pub axiom fn ax_string_obeys() ensures <String as FromSpec<&str>>::obeys_from_spec(), <String as FromSpec<&String>>::obeys_from_spec(), <String as PartialEqSpec<str>>::obeys_eq_spec(), <u64 as FromSpec<u16>>::obeys_from_spec();
pub broadcast axiom fn ax_to_string(s: &String, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r) <==> s@ == r@;
pub broadcast axiom fn ax_string_eq_str(a: &String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast group group_string { ax_string_from, ax_string_from_ref, ax_to_string, ax_string_eq_str }
/// ASCII lower case.
pub uninterp spec fn low(s: Seq<char>) -> Seq<char>;
/// Unicode lower case.
pub uninterp spec fn ulow(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == low(s@);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == ulow(s@);
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool) ensures r == (low(s@) == low(t@));
/// The strings joined with a separator.
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::<char>::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
pub trait JoinStrs { spec fn pieces(&self) -> Seq<Seq<char>>; fn join_strs(&self, sep: &str) -> (r: String) ensures r@ == joined(self.pieces(), sep@); }
impl JoinStrs for [&str] { open spec fn pieces(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn join_strs(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait Cat2 { spec fn cat_of(&self) -> Seq<u8>; fn cat2(&self) -> (r: Vec<u8>) ensures r@ == self.cat_of(); }
impl Cat2 for [[u8; 32]; 2] { open spec fn cat_of(&self) -> Seq<u8> { self@[0]@ + self@[1]@ } #[verifier::external_body] fn cat2(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
}
/// Parsing of a URL by the http crate: the path and the query of a well-formed one.
pub struct UriV { pub path: Seq<char>, pub query: Option<Seq<char>> }
pub uninterp spec fn uri_of(url: Seq<char>) -> Option<UriV>;
/// Percent decoding: None if the result is not UTF-8.
pub uninterp spec fn pct_decoded(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub struct Uri { x: u8 }
impl View for Uri { type V = UriV; uninterp spec fn view(&self) -> UriV; }
#[verifier::external_body] pub struct InvalidUri { x: u8 }
impl Uri {
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self@.path { unimplemented!() }
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&str>) ensures match r { Some(q) => self@.query == Some(q@), None => self@.query is None } { unimplemented!() }
}
pub trait ParseUri { spec fn url_of(&self) -> Seq<char>; fn parse_uri(&self) -> (r: Result<Uri, InvalidUri>) ensures match r { Ok(u) => uri_of(self.url_of()) == Some(u@), Err(_) => uri_of(self.url_of()) is None }; }
impl ParseUri for String { open spec fn url_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn parse_uri(&self) -> (r: Result<Uri, InvalidUri>) { unimplemented!() } }
pub mod urlencoding { use super::*;
    #[verifier::external_body] pub fn decode(s: &str) -> (r: Result<Cow<'_, str>, std::string::FromUtf8Error>) ensures match r { Ok(c) => pct_decoded(s@) == Some(cow_ref(&c)@), Err(_) => pct_decoded(s@) is None } { unimplemented!() }
}
/// assumed: into_owned copies
pub assume_specification<'a, B: ?Sized + ToOwned>[Cow::<'a, B>::into_owned](c: Cow<'a, B>) -> (r: <B as ToOwned>::Owned) ensures owns::<B>(r, cow_ref(&c));
pub uninterp spec fn owns<B: ?Sized + ToOwned>(o: <B as ToOwned>::Owned, b: &B) -> bool;
pub broadcast axiom fn ax_owns_str(o: String, b: &str) ensures #[trigger] owns::<str>(o, b) ==> o@ == b@;
/// An HTTP method and a status code.
pub struct Method { pub m: &'static str }
impl View for Method { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.m@ } }
impl Method { pub const GET: Method = Method { m: "GET" }; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[derive(Clone, Copy)] pub struct StatusCode { pub c: u16 }
impl View for StatusCode { type V = u16; open spec fn view(&self) -> u16 { self.c } }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { c: 200 };
    pub const PARTIAL_CONTENT: StatusCode = StatusCode { c: 206 };
    pub const MOVED_PERMANENTLY: StatusCode = StatusCode { c: 301 };
    pub const TEMPORARY_REDIRECT: StatusCode = StatusCode { c: 307 };
    pub fn as_u16(&self) -> (r: u16) ensures r == self@ { self.c }
}
//@take hf HeaderField
//@take he HttpCertificationResult HttpCertificationError
//@take hq MethodWrapper HttpRequest HttpRequest::method HttpRequest::headers HttpRequest::body HttpRequest::get_path HttpRequest::get_query
//@take hr StatusCodeWrapper HttpResponse HttpResponse::status_code HttpResponse::headers HttpResponse::body
//@take ct CelExpression DefaultCelExpression DefaultResponseOnlyCelExpression DefaultFullCelExpression DefaultRequestCertification DefaultResponseCertificationType DefaultResponseCertification DefaultResponseCertification::get_type
//@text
impl vstd::std_specs::convert::FromSpecImpl<std::string::FromUtf8Error> for HttpCertificationError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: std::string::FromUtf8Error) -> Self { HttpCertificationError::Utf8ConversionError(o) }
}
impl From<std::string::FromUtf8Error> for HttpCertificationError { fn from(o: std::string::FromUtf8Error) -> (r: Self) { HttpCertificationError::Utf8ConversionError(o) } }
//@fn HttpRequest::method C14 C23
//@ret r
//@spec
    ensures r@ == self.method.0@
//@fn HttpRequest::headers C14 C23
//@ret r
//@spec
    ensures r@ == self.headers@
//@fn HttpRequest::body C14 C23
//@ret r
//@spec
    ensures r@ == cv(self.body)
//@fn HttpRequest::get_query C14 C23
//@ret r
//@spec
    ensures match r { Ok(None) => uri_of(self.url@) is Some && uri_of(self.url@)->0.query is None, Ok(Some(q)) => uri_of(self.url@) is Some && uri_of(self.url@)->0.query == Some(q@), Err(_) => uri_of(self.url@) is None }
//@closure 0
 -> (q: Option<String>) ensures match q { None => uri@.query is None, Some(t) => uri@.query == Some(t@) }
//@closure 1
 -> (t: String) ensures t@ == uri@
//@closure 2
 -> (e: HttpCertificationError)
//@fn HttpRequest::get_path C18 C23
//@ret r
//@spec
    ensures match r { Ok(p) => uri_of(self.url@) is Some && pct_decoded(uri_of(self.url@)->0.path) == Some(p@), Err(_) => uri_of(self.url@) is None || pct_decoded(uri_of(self.url@)->0.path) is None }
//@entry
    broadcast use ax_owns_str;
//@closure 0
 -> (e: HttpCertificationError)
//@closure 1
 -> (p: String) ensures p@ == cow_ref(&path)@
//@fn HttpResponse::status_code C15 C23
//@ret r
//@spec
    ensures r@ == self.status_code.0@
//@fn HttpResponse::headers C15 C23
//@ret r
//@spec
    ensures r@ == self.headers@
//@fn HttpResponse::body C15 C23
//@ret r
//@spec
    ensures r@ == cv(self.body)
//@fn DefaultResponseCertification::get_type C15
//@ret r
//@spec
    ensures *r == self.0
