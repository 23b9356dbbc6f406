//! Reference HTTP certification hashes and expressions, written from the HTTP gateway specification.
use crate::core::{show, Rng};
use crate::model::{sha, H};
use ic_http_certification as hc;

pub type Hs = Vec<(String, String)>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val { S(String), N(u64), B(Vec<u8>), A(Vec<Val>) }
pub fn leb(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop { let b = (n & 0x7f) as u8; n >>= 7; if n == 0 { v.push(b); return v; } v.push(b | 0x80); }
}
pub fn hash_val(v: &Val) -> H {
    match v {
        Val::S(s) => sha(&[s.as_bytes()]),
        Val::N(n) => sha(&[&leb(*n)]),
        Val::B(b) => sha(&[b]),
        Val::A(a) => { let c: Vec<u8> = a.iter().flat_map(hash_val).collect(); sha(&[&c]) }
    }
}
pub fn rih(m: &[(String, Val)]) -> H {
    let mut p: Vec<Vec<u8>> = m.iter().map(|(k, v)| { let mut x = sha(&[k.as_bytes()]).to_vec(); x.extend(hash_val(v)); x }).collect();
    p.sort();
    sha(&[&p.concat()])
}
/// ASCII lower case, written out.
pub fn low(s: &str) -> String { s.chars().map(|c| if ('A'..='Z').contains(&c) { ((c as u8) + 32) as char } else { c }).collect() }
pub fn has(l: &[String], n: &str) -> bool { l.iter().any(|x| low(x) == low(n)) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Req { pub method: String, pub url: String, pub headers: Hs, pub body: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Resp { pub status: u16, pub headers: Hs, pub body: Vec<u8> }
impl Req {
    pub fn build(&self) -> hc::HttpRequest<'static> {
        hc::HttpRequest::builder().with_method(hc::Method::from_bytes(self.method.as_bytes()).unwrap()).with_url(&self.url).with_headers(self.headers.clone()).with_body(self.body.clone()).build()
    }
    pub fn show(&self) -> String { format!("{} {} {:?} body {}", self.method, self.url, self.headers, show(&self.body)) }
    /// The text between the first ? and the fragment, if there is a ?.
    pub fn query(&self) -> Option<String> {
        let u = self.url.split('#').next().unwrap();
        u.find('?').map(|i| u[i + 1..].to_string())
    }
}
impl Resp {
    pub fn build(&self) -> hc::HttpResponse<'static> {
        hc::HttpResponse::builder().with_status_code(hc::StatusCode::from_u16(self.status).unwrap()).with_headers(self.headers.clone()).with_body(self.body.clone()).build()
    }
    pub fn show(&self) -> String { format!("{} {:?} body {}", self.status, self.headers, show(&self.body)) }
}
/// A certification: what of the request (None: nothing) and of the response is certified.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cel { Skip, Of { req: Option<(Vec<String>, Vec<String>)>, incl: bool, names: Vec<String> } }
fn list(l: &[String]) -> String { l.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",") }
fn refs(l: &[String]) -> Vec<&str> { l.iter().map(|x| x.as_str()).collect() }
impl Cel {
    pub fn text(&self) -> String {
        match self {
            Cel::Skip => "default_certification(ValidationArgs{no_certification:Empty{}})".into(),
            Cel::Of { req, incl, names } => {
                let r = match req {
                    None => "no_request_certification:Empty{}".to_string(),
                    Some((h, q)) => format!("request_certification:RequestCertification{{certified_request_headers:[{}],certified_query_parameters:[{}]}}", list(h), list(q)),
                };
                let s = if *incl { "certified_response_headers" } else { "response_header_exclusions" };
                format!("default_certification(ValidationArgs{{certification:Certification{{{r},response_certification:ResponseCertification{{{s}:ResponseHeaderList{{headers:[{}]}}}}}}}})", list(names))
            }
        }
    }
    pub fn resp(&self) -> hc::DefaultResponseCertification<'_> {
        match self {
            Cel::Of { incl: true, names, .. } => hc::DefaultResponseCertification::certified_response_headers(refs(names)),
            Cel::Of { incl: false, names, .. } => hc::DefaultResponseCertification::response_header_exclusions(refs(names)),
            Cel::Skip => hc::DefaultResponseCertification::default(),
        }
    }
    pub fn req(&self) -> hc::cel::DefaultRequestCertification<'_> {
        match self { Cel::Of { req: Some((h, q)), .. } => hc::cel::DefaultRequestCertification::new(refs(h), refs(q)), _ => hc::cel::DefaultRequestCertification::new(vec![], vec![]) }
    }
    pub fn full(&self) -> hc::DefaultFullCelExpression<'_> {
        match self {
            Cel::Of { req: Some((h, q)), .. } => hc::DefaultCelBuilder::full_certification().with_request_headers(refs(h)).with_request_query_parameters(refs(q)).with_response_certification(self.resp()).build(),
            _ => unreachable!(),
        }
    }
    pub fn response_only(&self) -> hc::DefaultResponseOnlyCelExpression<'_> { hc::DefaultCelBuilder::response_only_certification().with_response_certification(self.resp()).build() }
    pub fn expr(&self) -> hc::CelExpression<'_> {
        match self {
            Cel::Skip => hc::DefaultCelBuilder::skip_certification(),
            Cel::Of { req: None, .. } => hc::CelExpression::Default(hc::DefaultCelExpression::ResponseOnly(self.response_only())),
            _ => hc::CelExpression::Default(hc::DefaultCelExpression::Full(self.full())),
        }
    }
    /// The certification the library makes for the pair.
    pub fn certify(&self, q: &Req, r: &Resp, body: Option<H>) -> Result<hc::HttpCertification, String> {
        match self {
            Cel::Skip => Ok(hc::HttpCertification::skip()),
            Cel::Of { req: None, .. } => hc::HttpCertification::response_only(&self.response_only(), &r.build(), body).map_err(|e| e.to_string()),
            _ => hc::HttpCertification::full(&self.full(), &q.build(), &r.build(), body).map_err(|e| e.to_string()),
        }
    }
    /// The part of the tree path the specification gives the pair.
    pub fn tree_path(&self, q: &Req, r: &Resp) -> Vec<Vec<u8>> {
        let e = sha(&[self.text().as_bytes()]).to_vec();
        match self {
            Cel::Skip => vec![e],
            Cel::Of { req: None, incl, names } => vec![e, vec![], response_hash(r, *incl, names).to_vec()],
            Cel::Of { req: Some((h, p)), incl, names } => vec![e, request_hash(q, h, p).to_vec(), response_hash(r, *incl, names).to_vec()],
        }
    }
}
pub fn request_hash(q: &Req, hs: &[String], ps: &[String]) -> H {
    let mut m: Vec<(String, Val)> = q.headers.iter().filter(|(n, _)| has(hs, n)).map(|(n, v)| (low(n), Val::S(v.clone()))).collect();
    m.push((":ic-cert-method".into(), Val::S(q.method.clone())));
    if let Some(s) = q.query() {
        let kept: Vec<&str> = s.split('&').filter(|f| has(ps, f.split('=').next().unwrap())).collect();
        m.push((":ic-cert-query".into(), Val::S(kept.join("&"))));
    }
    sha(&[&rih(&m), &sha(&[&q.body])])
}
/// The certified response headers: those listed (or not excluded), the expression always, the certificate never.
pub fn certified(r: &Resp, incl: bool, names: &[String]) -> Hs {
    r.headers.iter().filter(|(n, _)| low(n) != "ic-certificate" && (low(n) == "ic-certificateexpression" || has(names, n) == incl)).map(|(n, v)| (low(n), v.clone())).collect()
}
pub fn response_hash(r: &Resp, incl: bool, names: &[String]) -> H {
    let mut m: Vec<(String, Val)> = certified(r, incl, names).into_iter().map(|(n, v)| (n, Val::S(v))).collect();
    m.push((":ic-cert-status".into(), Val::N(r.status as u64)));
    sha(&[&rih(&m), &sha(&[&r.body])])
}
/// The segments of a path.
pub fn segs(p: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = p.split('/').filter(|s| !s.is_empty()).map(|s| s.as_bytes().to_vec()).collect();
    if p.ends_with('/') { v.push(vec![]); }
    v
}

// ---------------------------------------------------------------- generators
pub const NAMES: &[&str] = &["Accept", "accept", "ACCEPT", "Accept-Encoding", "accept-encodinG", "If-Match", "X", "x", "X-a", "X-A", "X-ab", "Cookie", "Set-Cookie", "Date", "date", "ETag", "etag", "Content-Type", "Content-Encoding", "IC-Certificate", "ic-certificate", "IC-CertificateExpression", "ic-certificateexpression", "IC-CERTIFICATEEXPRESSION", "IC-Certificat", "IC-CertificateX", ":ic-cert-status", ":ic-cert-method", "é", "É", "K\u{212a}", "kk", "_a", "Content_Type", "a-b", "a_b", "content-length"];
pub fn name(r: &mut Rng) -> String {
    let n = r.pick(NAMES).to_string();
    if r.chance(1, 3) { n.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() } else { n }
}
pub fn names(r: &mut Rng, base: &[String]) -> Vec<String> {
    let n = r.below(5);
    (0..n).map(|_| if !base.is_empty() && r.chance(2, 3) { let b = r.pick(base).clone(); if r.chance(1, 3) { b.to_ascii_uppercase() } else { b } } else { name(r) }).collect()
}
pub fn value(r: &mut Rng) -> String {
    match r.below(24) {
        0 => { let n = [127, 128, 255, 256, 1023, 4096, 5000, 8193, 65536][r.below(9)]; r.pick(&["a", "é", "x y, "]).repeat(n) }
        1 => { let t = r.pick(&["a", "", "A b", "é"]).to_string(); let w = r.pick(&[" ", "\t", "  ", "\n", "\r\n", "\u{a0}", "\0", "\""]).to_string(); match r.below(3) { 0 => format!("{w}{t}"), 1 => format!("{t}{w}"), _ => format!("{w}{t}{w}") } }
        _ => r.pick(&["", "a", "b", "A", "foo", "a b", "é", "1", "gzip", "a=b", "x&y", "a, b", "a,b", "%61", "\"a\"", "a;b", "É", "00", "01"]).to_string(),
    }
}
pub fn headers(r: &mut Rng) -> Hs {
    let n = r.below(6);
    let mut v: Hs = (0..n).map(|_| (name(r), value(r))).collect();
    if !v.is_empty() && r.chance(1, 3) { let x = r.pick(&v).clone(); let val = if r.chance(1, 2) { x.1 } else { value(r) }; v.push((x.0, val)); }
    v
}
pub fn body(r: &mut Rng) -> Vec<u8> { let n = if r.chance(1, 20) { crate::model::edge_len(r) } else { r.below(6) }; r.bytes(n) }
pub const PARAMS: &[&str] = &["a", "A", "b", "foo", "Foo", "fooo", "fo", "", "a%20", "%61"];
pub fn query(r: &mut Rng) -> String {
    let n = r.below(5);
    (0..n).map(|_| { let p = r.pick(PARAMS).to_string(); match r.below(9) { 0 => p, 1 => format!("{p}="), 2 => format!("{p}=x=y"), 6 => format!("{p}%3Dv"), 7 => format!("{p}={}", r.pick(&["%26", "+", "%2B", "a+b", "?", "/", "a;b", "V", "=", "==", "%C3%A9", "a/../b", "x;", ",", "*"])), 8 if r.chance(1, 6) => format!("{p}={}", "v".repeat(3000)), 3 => format!("{p}={}", r.below(3)), _ => format!("{p}=v") } }).collect::<Vec<_>>().join("&")
}
pub fn request(r: &mut Rng) -> Req {
    let mut url = r.pick(&["/", "/a", "/a/b", "/index.html", "https://x.y/a", "/a%20b", "/a//b/"]).to_string();
    if r.chance(3, 4) { url.push('?'); url.push_str(&query(r)); }
    if r.chance(1, 8) { url.push_str("#frag?a=b"); }
    Req { method: r.pick(&["GET", "POST", "HEAD", "PUT", "get", "CUSTOM"]).to_string(), url, headers: headers(r), body: body(r) }
}
pub fn response(r: &mut Rng) -> Resp { Resp { status: *r.pick(&[200u16, 204, 206, 307, 404, 500, 100, 127, 128, 255, 256, 999]), headers: headers(r), body: body(r) } }
pub fn cel(r: &mut Rng, q: &Req, p: &Resp) -> Cel {
    if r.chance(1, 8) { return Cel::Skip; }
    let hn: Vec<String> = q.headers.iter().map(|h| h.0.clone()).collect();
    let rn: Vec<String> = p.headers.iter().map(|h| h.0.clone()).collect();
    let req = if r.chance(2, 3) {
        let n = r.below(4);
        Some((names(r, &hn), (0..n).map(|_| r.pick(PARAMS).to_string()).collect()))
    } else { None };
    Cel::Of { req, incl: r.chance(1, 2), names: names(r, &rn) }
}
