//@source cc2 packages/ic-http-certification/src/cel/create_cel_expr.rs
//@text
// ---------------------------------------------------------------- the text of an expression
pub open spec fn quoted(l: Seq<&str>) -> Seq<char> { if l.len() == 0 { Seq::<char>::empty() } else { "\""@ + joined(strs(l), "\",\""@) + "\""@ } }
pub open spec fn req_text(c: DefaultRequestCertification) -> Seq<char> {
    "request_certification:RequestCertification{certified_request_headers:["@ + quoted(cv(c.headers)) + "],certified_query_parameters:["@ + quoted(cv(c.query_parameters)) + "]},"@
}
pub open spec fn resp_text(c: DefaultResponseCertificationType) -> Seq<char> {
    "response_certification:ResponseCertification{"@
        + (match c { DefaultResponseCertificationType::CertifiedResponseHeaders(l) => "certified_response_headers"@, DefaultResponseCertificationType::ResponseHeaderExclusions(l) => "response_header_exclusions"@ })
        + ":ResponseHeaderList{headers:["@
        + quoted(match c { DefaultResponseCertificationType::CertifiedResponseHeaders(l) => cv(l), DefaultResponseCertificationType::ResponseHeaderExclusions(l) => cv(l) })
        + "]}}"@
}
pub open spec fn resp_only_text(c: DefaultResponseCertificationType) -> Seq<char> { "default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},"@ + resp_text(c) + "}})"@ }
pub open spec fn full_text(q: DefaultRequestCertification, c: DefaultResponseCertificationType) -> Seq<char> { "default_certification(ValidationArgs{certification:Certification{"@ + req_text(q) + resp_text(c) + "}})"@ }
pub open spec fn skip_text() -> Seq<char> { "default_certification(ValidationArgs{no_certification:Empty{}})"@ }
pub open spec fn cel_text(e: DefaultCelExpression) -> Seq<char> {
    match e { DefaultCelExpression::Skip => skip_text(), DefaultCelExpression::ResponseOnly(x) => resp_only_text(x.response.0), DefaultCelExpression::Full(x) => full_text(x.request, x.response.0) }
}
pub proof fn lemma_texts()
    ensures "\""@ == seq!['"'], "}"@ == seq!['}'],
        skip_text() == "default_certification(ValidationArgs{"@ + "no_certification:Empty{}"@ + "})"@,
        "default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},"@ == "default_certification(ValidationArgs{"@ + "certification:Certification{"@ + "no_request_certification:Empty{},"@,
        "default_certification(ValidationArgs{certification:Certification{"@ == "default_certification(ValidationArgs{"@ + "certification:Certification{"@,
        "}})"@ == "}"@ + "})"@,
{
    reveal_strlit("\""); reveal_strlit("}"); reveal_strlit("})"); reveal_strlit("}})"); reveal_strlit("default_certification(ValidationArgs{"); reveal_strlit("no_certification:Empty{}"); reveal_strlit("certification:Certification{");
    reveal_strlit("no_request_certification:Empty{},"); reveal_strlit("default_certification(ValidationArgs{no_certification:Empty{}})");
    reveal_strlit("default_certification(ValidationArgs{certification:Certification{"); reveal_strlit("default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},");
    assert("\""@ =~= seq!['"']); assert("}"@ =~= seq!['}']); assert("}})"@ =~= "}"@ + "})"@);
    assert(skip_text() =~= "default_certification(ValidationArgs{"@ + "no_certification:Empty{}"@ + "})"@);
    assert("default_certification(ValidationArgs{certification:Certification{"@ =~= "default_certification(ValidationArgs{"@ + "certification:Certification{"@);
    assert("default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},"@ =~= "default_certification(ValidationArgs{"@ + "certification:Certification{"@ + "no_request_certification:Empty{},"@);
}
//@take cc2 create_cel_expr create_default_cel_expr create_default_skip_cel_expr create_default_response_only_cel_expr create_default_full_cel_expr create_request_cel_expr create_response_cel_expr
//@fn create_cel_expr C16
//@ret r
//@spec
    ensures r@ == cel_text(certification->Default_0)
//@fn create_default_cel_expr C16
//@ret r
//@spec
    ensures r@ == cel_text(*certification)
//@fn create_default_skip_cel_expr C16
//@ret r
//@spec
    ensures r@ == skip_text()
//@entry
    broadcast use group_string;
    proof { ax_string_obeys(); lemma_texts(); }
//@fn create_default_response_only_cel_expr C16
//@ret r
//@spec
    ensures r@ == resp_only_text(certification.response.0)
//@entry
    broadcast use group_string;
    proof { ax_string_obeys(); lemma_texts(); }
//@tail
    assert(r@ =~= resp_only_text(certification.response.0));
//@fn create_default_full_cel_expr C16
//@ret r
//@spec
    ensures r@ == full_text(certification.request, certification.response.0)
//@entry
    broadcast use group_string;
    proof { ax_string_obeys(); lemma_texts(); }
//@tail
    assert(r@ =~= full_text(certification.request, certification.response.0));
//@fn create_request_cel_expr C16
//@spec
    ensures final(cel_expr)@ == old(cel_expr)@ + req_text(*request_certification)
//@entry
    broadcast use group_string;
    proof { ax_string_obeys(); lemma_texts(); }
//@tail
    assert(cel_expr@ =~= old(cel_expr)@ + req_text(*request_certification));
//@fn create_response_cel_expr C16
//@spec
    ensures final(cel_expr)@ == old(cel_expr)@ + resp_text(response_certification.0)
//@entry
    broadcast use group_string;
    proof { ax_string_obeys(); lemma_texts(); }
//@tail
    assert(cel_expr@ =~= old(cel_expr)@ + resp_text(response_certification.0));
