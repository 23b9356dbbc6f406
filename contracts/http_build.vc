//@derive HttpRequestBuilder
//@derive HttpResponseBuilder
//@text
// ---------------------------------------------------------------- building requests and responses
impl FromSpecImpl<Method> for MethodWrapper { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(m: Method) -> Self { MethodWrapper(m) } }
impl FromSpecImpl<StatusCode> for StatusCodeWrapper { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: StatusCode) -> Self { StatusCodeWrapper(c) } }
/// Conversions into the same type, and of a &str into a String, keep the value.
pub broadcast axiom fn ax_into_self<T>(v: T, r: T) ensures #[trigger] into_gives::<T, T>(v, r) ==> r == v;
pub broadcast axiom fn ax_into_string(v: &str, r: String) ensures #[trigger] into_gives::<&str, String>(v, r) ==> r@ == v@;
pub broadcast axiom fn ax_into_string_ref(v: &String, r: String) ensures #[trigger] into_gives::<&String, String>(v, r) ==> r@ == v@;
pub broadcast group group_into { ax_into_self, ax_into_string, ax_into_string_ref }
/// derived Default
impl<'a> HttpRequestBuilder<'a> { #[verifier::external_body] fn default() -> (r: Self) ensures r.method is None, r.url is None, r.headers@.len() == 0, cv(r.body).len() == 0 { unimplemented!() } }
impl<'a> HttpResponseBuilder<'a> { #[verifier::external_body] fn default() -> (r: Self) ensures r.status_code is None, r.headers@.len() == 0, cv(r.body).len() == 0 { unimplemented!() } }
//@take hq impl:From<Method>:MethodWrapper HttpRequest::get HttpRequestBuilder HttpRequestBuilder::new HttpRequestBuilder::with_method HttpRequestBuilder::with_url HttpRequestBuilder::with_headers HttpRequestBuilder::with_body HttpRequestBuilder::build
//@take hr impl:From<StatusCode>:StatusCodeWrapper HttpResponse::builder HttpResponse::add_header HttpResponseBuilder HttpResponseBuilder::new HttpResponseBuilder::with_status_code HttpResponseBuilder::with_headers HttpResponseBuilder::with_body HttpResponseBuilder::build
//@nocontract MethodWrapper::From::from StatusCodeWrapper::From::from
//@fn HttpRequest::get C24
//@ret r
//@spec
    ensures r.method is Some, (r.method->0).0@ == "GET"@, r.url is Some, into_gives(url, r.url->0), r.headers@.len() == 0, cv(r.body).len() == 0
//@fn HttpRequestBuilder::new C24
//@ret r
//@spec
    ensures r.method is None, r.url is None, r.headers@.len() == 0, cv(r.body).len() == 0
//@fn HttpRequestBuilder::with_method C24
//@ret r
//@spec
    ensures r.method == Some(MethodWrapper(method)), r.url == self.url, r.headers == self.headers, r.body == self.body
//@fn HttpRequestBuilder::with_url C24
//@ret r
//@spec
    ensures r.url is Some, into_gives(url, r.url->0), r.method == self.method, r.headers == self.headers, r.body == self.body
//@fn HttpRequestBuilder::with_headers C24
//@ret r
//@spec
    ensures r.headers == headers, r.method == self.method, r.url == self.url, r.body == self.body
//@fn HttpRequestBuilder::with_body C24
//@ret r
//@spec
    ensures into_gives(body, r.body), r.method == self.method, r.url == self.url, r.headers == self.headers
//@fn HttpRequestBuilder::build C24
//@ret r
//@spec
    ensures r.method.0@ == (match self.method { Some(m) => m.0@, None => "GET"@ }), r.url@ == (match self.url { Some(u) => u@, None => "/"@ }), r.headers == self.headers, r.body == self.body
//@fn HttpResponse::builder C24
//@ret r
//@spec
    ensures r.status_code is None, r.headers@.len() == 0, cv(r.body).len() == 0
//@fn HttpResponse::add_header C24
//@spec
    ensures final(self).headers@ == old(self).headers@.push(header), final(self).body == old(self).body, final(self).status_code == old(self).status_code, final(self).upgrade == old(self).upgrade
//@fn HttpResponseBuilder::new C24
//@ret r
//@spec
    ensures r.status_code is None, r.headers@.len() == 0, cv(r.body).len() == 0
//@fn HttpResponseBuilder::with_status_code C24
//@ret r
//@spec
    ensures r.status_code == Some(StatusCodeWrapper(status_code)), r.headers == self.headers, r.body == self.body
//@fn HttpResponseBuilder::with_headers C24
//@ret r
//@spec
    ensures r.headers == headers, r.status_code == self.status_code, r.body == self.body
//@fn HttpResponseBuilder::with_body C24
//@ret r
//@spec
    ensures into_gives(body, r.body), r.status_code == self.status_code, r.headers == self.headers
//@fn HttpResponseBuilder::build C24
//@ret r
//@spec
    ensures r.status_code.0@ == (match self.status_code { Some(c) => c.0@, None => 200u16 }), r.headers == self.headers, r.body == self.body
