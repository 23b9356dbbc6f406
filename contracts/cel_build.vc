//@source cb packages/ic-http-certification/src/cel/cel_builder.rs
//@derive DefaultCelBuilder
//@derive DefaultResponseOnlyCelBuilder
//@derive DefaultFullCelExpressionBuilder
//@text
// ---------------------------------------------------------------- building an expression
/// Conversions to Cow keep the items.
pub broadcast axiom fn ax_cow_from_vec<'a>(v: Vec<&'a str>) ensures cv(#[trigger] <Cow<'a, [&'a str]> as FromSpec<Vec<&'a str>>>::from_spec(v)) == v@;
pub axiom fn ax_cow_obeys<'a>() ensures <Cow<'a, [&'a str]> as FromSpec<Vec<&'a str>>>::obeys_from_spec();
pub broadcast axiom fn ax_cow_from_self<'a>(v: Cow<'a, [&'a str]>, r: Cow<'a, [&'a str]>) ensures #[trigger] into_gives::<Cow<'a, [&'a str]>, Cow<'a, [&'a str]>>(v, r) ==> r == v;
pub uninterp spec fn resp_only_default<'a>() -> DefaultResponseOnlyCelBuilder<'a>;
/// derived Default: nothing certified of the request
impl<'a> DefaultResponseOnlyCelBuilder<'a> { #[verifier::external_body] fn default() -> (r: Self) ensures r == resp_only_default::<'a>() { unimplemented!() } }
impl<'a> DefaultFullCelExpressionBuilder<'a> { #[verifier::external_body] fn default() -> (r: Self) ensures cv(r.request_headers).len() == 0, cv(r.request_query_parameters).len() == 0 { unimplemented!() } }
//@take ct DefaultRequestCertification::new DefaultResponseCertification::certified_response_headers DefaultResponseCertification::response_header_exclusions
//@take cb DefaultCelBuilder DefaultCelBuilder::skip_certification DefaultCelBuilder::response_only_certification DefaultCelBuilder::full_certification DefaultResponseOnlyCelBuilder DefaultResponseOnlyCelBuilder::with_response_certification DefaultResponseOnlyCelBuilder::build DefaultFullCelExpressionBuilder DefaultFullCelExpressionBuilder::with_request_headers DefaultFullCelExpressionBuilder::with_request_query_parameters DefaultFullCelExpressionBuilder::with_response_certification DefaultFullCelExpressionBuilder::build
//@fn DefaultRequestCertification::new C16 C24
//@ret r
//@spec
    ensures into_gives(headers, r.headers), into_gives(query_parameters, r.query_parameters)
//@fn DefaultResponseCertification::certified_response_headers C16 C24
//@ret r
//@spec
    ensures match r.0 { DefaultResponseCertificationType::CertifiedResponseHeaders(l) => into_gives(headers, l), _ => false }
//@fn DefaultResponseCertification::response_header_exclusions C16 C24
//@ret r
//@spec
    ensures match r.0 { DefaultResponseCertificationType::ResponseHeaderExclusions(l) => into_gives(headers, l), _ => false }
//@fn DefaultCelBuilder::skip_certification C16 C23
//@ret r
//@spec
    ensures r == CelExpression::Default(DefaultCelExpression::Skip)
//@fn DefaultCelBuilder::response_only_certification C16
//@ret r
//@spec
    ensures r == resp_only_default()
//@fn DefaultCelBuilder::full_certification C16 C24
//@ret r
//@spec
    ensures cv(r.request_headers).len() == 0, cv(r.request_query_parameters).len() == 0
//@fn DefaultResponseOnlyCelBuilder::with_response_certification C16 C24
//@ret r
//@spec
    ensures r.response_certification == headers_config
//@fn DefaultResponseOnlyCelBuilder::build C16 C24
//@ret r
//@spec
    ensures r.response == self.response_certification
//@fn DefaultFullCelExpressionBuilder::with_request_headers C16 C24
//@ret r
//@spec
    ensures into_gives(headers, r.request_headers), r.request_query_parameters == self.request_query_parameters, r.response_certification == self.response_certification
//@fn DefaultFullCelExpressionBuilder::with_request_query_parameters C16 C24
//@ret r
//@spec
    ensures into_gives(query_params, r.request_query_parameters), r.request_headers == self.request_headers, r.response_certification == self.response_certification
//@fn DefaultFullCelExpressionBuilder::with_response_certification C16 C24
//@ret r
//@spec
    ensures r.request_headers == self.request_headers, r.request_query_parameters == self.request_query_parameters, r.response_certification == headers_config
//@fn DefaultFullCelExpressionBuilder::build C16 C24
//@ret r
//@entry
    broadcast use ax_cow_from_self;
//@spec
    ensures r.request.headers == self.request_headers, r.request.query_parameters == self.request_query_parameters, r.response == self.response_certification
