//@source cp packages/ic-response-verification/src/cel/parser.rs
//@source ca packages/ic-response-verification/src/cel/ast_mapping.rs
//@source ce packages/ic-response-verification/src/cel/error.rs
//@derive CelValue
//@derive CelParserError
//@text
// ---------------------------------------------------------------- from the parsed expression to the certification
/// Stand-in for a std map with text keys: what was put in, in order (the last of equal keys is kept).
pub struct HashMap<K, V> { pub e: Vec<(K, V)> }
pub open spec fn entry<'a, V>(e: Seq<(&'a str, V)>, k: Seq<char>) -> Option<V> decreases e.len() {
    if e.len() == 0 { None } else if e.last().0@ == k { Some(e.last().1) } else { entry(e.drop_last(), k) }
}
impl<'a, V> HashMap<&'a str, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => entry(self.e@, k@) == Some(*v), None => entry(self.e@, k@) is None } { unimplemented!() }
}
impl CelValue<'_> { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
/// String slices with the same characters are equal.
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// assumed: Option::transpose
pub assume_specification<T, E> [std::option::Option::<std::result::Result<T, E>>::transpose] (o: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>)
    ensures r == match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err::<Option<T>, E>(e) };
/// u is what t converts to.
// ---- what an expression is read as
/// A certification: which parts of the request and the response it covers.
pub struct Names { pub included: bool, pub names: Seq<Seq<char>> }
pub enum Cert { Skip, ResponseOnly(Names), Full(Seq<Seq<char>>, Seq<Seq<char>>, Names) }
pub open spec fn names_of(t: DefaultResponseCertificationType) -> Names {
    match t { DefaultResponseCertificationType::CertifiedResponseHeaders(l) => Names { included: true, names: strs(cv(l)) }, DefaultResponseCertificationType::ResponseHeaderExclusions(l) => Names { included: false, names: strs(cv(l)) } }
}
pub open spec fn cert_of(c: CelExpression) -> Cert {
    match c->Default_0 {
        DefaultCelExpression::Skip => Cert::Skip,
        DefaultCelExpression::ResponseOnly(x) => Cert::ResponseOnly(names_of(x.response.0)),
        DefaultCelExpression::Full(x) => Cert::Full(strs(cv(x.request.headers)), strs(cv(x.request.query_parameters)), names_of(x.response.0)),
    }
}
/// The object with this name: its properties.
pub open spec fn object_of<'a>(v: CelValue<'a>, name: Seq<char>) -> Option<Seq<(&'a str, CelValue<'a>)>> { match v { CelValue::Object(n, m) => if n@ == name { Some(m.e@) } else { None }, _ => None } }
pub open spec fn all_strings(a: Seq<CelValue>) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i] is String }
pub open spec fn strings_in(v: CelValue) -> Option<Seq<Seq<char>>> {
    match v { CelValue::Array(a) => if all_strings(a@) { Some(a@.map_values(|x: CelValue| x->String_0@)) } else { None }, _ => None }
}
pub enum Part<T> { Missing, Bad, Is(T) }
pub open spec fn req_part(m: Seq<(&str, CelValue)>) -> Part<(Seq<Seq<char>>, Seq<Seq<char>>)> {
    match (entry(m, "no_request_certification"@), entry(m, "request_certification"@)) {
        (Some(_), None) => Part::Missing,
        (None, Some(q)) => match object_of(q, "RequestCertification"@) {
            None => Part::Bad,
            Some(o) => match (entry(o, "certified_request_headers"@), entry(o, "certified_query_parameters"@)) {
                (Some(h), Some(p)) => match (strings_in(h), strings_in(p)) { (Some(h), Some(p)) => Part::Is((h, p)), _ => Part::Bad },
                _ => Part::Bad,
            },
        },
        _ => Part::Bad,
    }
}
pub open spec fn list_part(m: Seq<(&str, CelValue)>, name: Seq<char>) -> Part<Seq<Seq<char>>> {
    match entry(m, name) {
        None => Part::Missing,
        Some(v) => match object_of(v, "ResponseHeaderList"@) {
            None => Part::Bad,
            Some(o) => match entry(o, "headers"@) { None => Part::Missing, Some(h) => match strings_in(h) { None => Part::Bad, Some(l) => Part::Is(l) } },
        },
    }
}
pub open spec fn resp_part(m: Seq<(&str, CelValue)>) -> Option<Names> {
    match entry(m, "response_certification"@) {
        None => None,
        Some(v) => match object_of(v, "ResponseCertification"@) {
            None => None,
            Some(o) => match (list_part(o, "certified_response_headers"@), list_part(o, "response_header_exclusions"@)) {
                (Part::Is(l), Part::Missing) => Some(Names { included: true, names: l }),
                (Part::Missing, Part::Is(l)) => Some(Names { included: false, names: l }),
                _ => None,
            },
        },
    }
}
/// The certification that an expression states; None if it is not one of the supported ones.
pub open spec fn stated(v: CelValue) -> Option<Cert> {
    match v {
        CelValue::Function(n, args) => if n@ == "default_certification"@ && args@.len() > 0 {
            match object_of(args@[0], "ValidationArgs"@) {
                None => None,
                Some(o) => match (entry(o, "no_certification"@), entry(o, "certification"@)) {
                    (Some(_), None) => Some(Cert::Skip),
                    (None, Some(c)) => match object_of(c, "Certification"@) {
                        None => None,
                        Some(m) => match (req_part(m), resp_part(m)) {
                            (Part::Missing, Some(n)) => Some(Cert::ResponseOnly(n)),
                            (Part::Is(q), Some(n)) => Some(Cert::Full(q.0, q.1, n)),
                            _ => None,
                        },
                    },
                    _ => None,
                },
            }
        } else { None },
        _ => None,
    }
}
//@take ce CelParserResult CelParserError
//@take cp CelValue
//@take ca validate_object validate_function validate_string_array validate_request_certification validate_response_certification map_cel_ast
//@fn validate_object C16
//@ret r
//@spec
    ensures match r { Ok(m) => object_of(*cel, name@) == Some(m.e@), Err(_) => object_of(*cel, name@) is None }
//@entry
    broadcast use ax_str_ext;
//@fn validate_function C16
//@ret r
//@spec
    ensures match r { Ok(a) => *cel is Function && cel->Function_0@ == name@ && *a == cel->Function_1, Err(_) => !(*cel is Function && cel->Function_0@ == name@) }
//@entry
    broadcast use ax_str_ext;
//@fn validate_string_array C16
//@ret r
//@spec
    ensures match r { Ok(l) => strings_in(*cel) == Some(strs(l@)), Err(_) => strings_in(*cel) is None }
//@closure 0
 -> (x: Result<&'a str, CelParserError>) ensures match x { Ok(s) => *e is String && e->String_0 == s, Err(_) => !(*e is String) }
//@tail
    match &r { Ok(l) => { let ghost a = cel->Array_0@; assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies a[i] is String && a[i]->String_0@ == strs(l@)[i] by { let x = l@[i]; } assert(strs(l@) =~= a.map_values(|x: CelValue| x->String_0@)); } _ => {} }
//@fn validate_request_certification C16
//@ret r
//@spec
    ensures match r { Ok(None) => req_part(certification.e@) is Missing, Ok(Some(q)) => req_part(certification.e@) == Part::Is((strs(cv(q.headers)), strs(cv(q.query_parameters)))), Err(_) => req_part(certification.e@) is Bad }
//@entry
    broadcast use ax_cow_from_vec;
    proof { ax_cow_obeys(); }
//@fn validate_response_certification C16
//@ret r
//@opt inline-option
//@spec
    ensures match r { Ok(q) => resp_part(certification.e@) == Some(names_of(q.0)), Err(_) => resp_part(certification.e@) is None }
//@entry
    broadcast use ax_cow_from_vec;
    proof { ax_cow_obeys(); }
//@subst `|property_name|` => `|property_name: &'a str|`
//@closure 0
 -> (x: Result<Option<Vec<&'a str>>, CelParserError>) ensures match x { Ok(None) => list_part(response_certification.e@, property_name@) is Missing, Ok(Some(l)) => list_part(response_certification.e@, property_name@) == Part::Is(strs(l@)), Err(_) => list_part(response_certification.e@, property_name@) is Bad }
//@fn map_cel_ast C16
//@ret r
//@spec
    ensures match r { Ok(c) => stated(*cel) == Some(cert_of(c)), Err(_) => stated(*cel) is None }
