//! C08 representation-independent hash, C14 request hash, C15 response hash, C23 creating certifications.
use crate::core::*;
use crate::model::*;
use crate::refhttp::*;
use ic_http_certification as hc;
use ic_representation_independent_hash::{representation_independent_hash, Value};

fn real(v: &Val) -> Value {
    match v { Val::S(s) => Value::String(s.clone()), Val::N(n) => Value::Number(*n), Val::B(b) => Value::Bytes(b.clone()), Val::A(a) => Value::Array(a.iter().map(real).collect()) }
}
fn val(r: &mut Rng, d: usize) -> Val {
    match r.below(if d == 0 { 3 } else { 4 }) {
        0 => Val::S(value(r)),
        1 => { let n = r.u64(); let k = r.below(64); Val::N(match r.below(4) { 0 => n >> k, 1 => (1u64 << k).wrapping_sub(1), 2 => 1u64 << k, _ => r.below(300) as u64 }) }
        2 => { let n = if r.chance(1, 20) { edge_len(r) } else { r.below(5) }; Val::B(r.bytes(n)) }
        _ => { let n = r.below(4); Val::A((0..n).map(|_| val(r, d - 1)).collect()) }
    }
}
fn rih_case(c: &mut Ctx, m: &[(String, Val)]) {
    let d = || format!("{m:?}");
    c.case(&d(), m.len() > 1);
    let want = rih(m);
    let rm: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), real(v))).collect();
    if let Some(g) = c.guard("C08-panic", &d, || representation_independent_hash(&rm)) {
        c.check(g == want, "C08-hash", &d, &|| format!("hash {} instead of {}", hex(&g), hex(&want)));
    }
}
pub fn c08(c: &mut Ctx) {
    c.rule("lists of named values of every kind in several orders, against an independent implementation of the specified hash");
    for n in 0..=1024u64 { rih_case(c, &[("n".into(), Val::N(n))]); }
    for k in 0..64 { for x in [(1u64 << k).wrapping_sub(1), 1 << k, (1 << k) + 1, u64::MAX >> k] { rih_case(c, &[("n".into(), Val::N(x)), ("m".into(), Val::A(vec![Val::N(x), Val::S(String::new())]))]); } }
    c.exhaustive_parts.push("numbers 0..1024 and around every power of two".into());
    // all orders of up to four entries, with equal keys and values among them
    let es = [("a".to_string(), Val::S("x".into())), ("a".to_string(), Val::S("y".into())), ("b".to_string(), Val::N(300)), ("".to_string(), Val::A(vec![]))];
    for i in 0..256usize { let mut x = i; let mut m = vec![]; for _ in 0..4 { m.push(es[x % 4].clone()); x /= 4; } for k in 0..=4 { rih_case(c, &m[..k]); } }
    c.exhaustive_parts.push("all lists of up to four of four entries, repetitions included".into());
    let mut k = 0;
    while !c.done() && k < if c.thorough { 500_000 } else { 20_000 } {
        k += 1;
        let n = c.rng.below(7);
        let mut m: Vec<(String, Val)> = (0..n).map(|_| { let v = val(&mut c.rng, 3); (if c.rng.chance(1, 2) { name(&mut c.rng) } else { value(&mut c.rng) }, v) }).collect();
        if n > 0 && c.rng.chance(1, 4) { let x = c.rng.pick(&m).clone(); m.push(x); }
        rih_case(c, &m);
        c.rng.shuffle(&mut m);
        rih_case(c, &m);
    }
}
fn req_case(c: &mut Ctx, q: &Req, hs: &[String], ps: &[String]) {
    let d = || format!("{} certified headers {hs:?} query {ps:?}", q.show());
    c.case(&d(), !q.headers.is_empty());
    let cel = Cel::Of { req: Some((hs.to_vec(), ps.to_vec())), incl: true, names: vec![] };
    let rq = q.build();
    if let Some(g) = c.guard("C14-panic", &d, || hc::request_hash(&rq, &cel.req()).map_err(|e| e.to_string())) {
        let want = request_hash(q, hs, ps);
        c.check(g == Ok(want), "C14-hash", &d, &|| format!("hash {:?} instead of {}", g.as_ref().map(|x| hex(x)), hex(&want)));
    }
}
pub fn c14(c: &mut Ctx) {
    c.rule("requests and certification selections against an independent implementation of the specified request hash");
    // every query of up to four fragments over a small alphabet, with two selections
    let fr = ["a=1", "A", "b=", "=x", "", "a=1=2"];
    for i in 0..6usize.pow(4) {
        for k in 0..=4 {
            let mut x = i;
            let mut fs = vec![];
            for _ in 0..k { fs.push(fr[x % 6]); x /= 6; }
            if x != 0 { continue; }
            let u = if k == 0 { "/p".to_string() } else { format!("/p?{}", fs.join("&")) };
            let q = Req { method: "GET".into(), url: u, headers: vec![], body: vec![] };
            for ps in [vec![], vec!["a".to_string()], vec!["B".to_string(), "".to_string()]] { req_case(c, &q, &[], &ps); }
        }
        if c.past(0.4) { break; }
    }
    let mut k = 0;
    while !c.done() && k < if c.thorough { 300_000 } else { 12_000 } {
        k += 1;
        let q = request(&mut c.rng);
        let hn: Vec<String> = q.headers.iter().map(|h| h.0.clone()).collect();
        let hs = names(&mut c.rng, &hn);
        let n = c.rng.below(4);
        let ps: Vec<String> = (0..n).map(|_| c.rng.pick(PARAMS).to_string()).collect();
        req_case(c, &q, &hs, &ps);
    }
    // text that is no URL is an error, not a panic
    for u in ["", " ", "http://", "a b", "http://[", "?", "//", "\u{0}", "/é", "%", "http://a:99999999/"] {
        let d = || format!("url {u:?}");
        let q = hc::HttpRequest::get(u).build();
        c.guard("C14-panic", &d, || hc::request_hash(&q, &hc::cel::DefaultRequestCertification::new(vec![], vec![])).is_ok());
    }
}
fn resp_case(c: &mut Ctx, r: &Resp, incl: bool, ns: &[String], bh: Option<H>) {
    let d = || format!("{} {} {ns:?}{}", r.show(), if incl { "including" } else { "excluding" }, if bh.is_some() { " with a body hash" } else { "" });
    c.case(&d(), !r.headers.is_empty());
    let cel = Cel::Of { req: None, incl, names: ns.to_vec() };
    let rr = r.build();
    let Some(f) = c.guard("C15-panic", &d, || hc::filter_response_headers(&rr, &cel.resp())) else { return };
    let want = certified(r, incl, ns);
    c.check(f.headers == want, "C15-filter", &d, &|| format!("the filtered headers are {:?} instead of {want:?}", f.headers));
    let certs: Vec<&String> = r.headers.iter().filter(|h| low(&h.0) == "ic-certificate").map(|h| &h.1).collect();
    c.check(match &f.certificate { None => certs.is_empty(), Some(x) => certs.contains(&x) }, "C15-certificate", &d, &|| format!("the certificate header is reported as {:?}", f.certificate));
    let mut m: Vec<(String, Val)> = want.iter().map(|(n, v)| (n.clone(), Val::S(v.clone()))).collect();
    m.push((":ic-cert-status".into(), Val::N(r.status as u64)));
    let hh = rih(&m);
    if let Some(g) = c.guard("C15-panic", &d, || hc::response_headers_hash(&(r.status as u64), &f)) {
        c.check(g == hh, "C15-headers-hash", &d, &|| format!("the headers' hash is {} instead of {}", hex(&g), hex(&hh)));
    }
    let w = match bh { Some(b) => sha(&[&hh, &b]), None => response_hash(r, incl, ns) };
    if let Some(g) = c.guard("C15-panic", &d, || hc::response_hash(&rr, &cel.resp(), bh)) {
        c.check(g == w, "C15-hash", &d, &|| format!("the hash is {} instead of {}", hex(&g), hex(&w)));
    }
}
pub fn c15(c: &mut Ctx) {
    c.rule("responses and inclusion/exclusion lists against an independent implementation of the specified response hash");
    let hn = ["IC-Certificate", "IC-CertificateExpression", "x", "X", "Y"];
    let ln = ["ic-certificate", "IC-CERTIFICATEEXPRESSION", "X", "y"];
    for a in 0..125usize {
        for l in 0..16usize {
            for incl in [true, false] {
                let hs: Hs = [a % 5, a / 5 % 5, a / 25].iter().enumerate().map(|(i, j)| (hn[*j].to_string(), format!("v{i}"))).collect();
                let ns: Vec<String> = (0..4).filter(|i| l >> i & 1 == 1).map(|i| ln[i].to_string()).collect();
                resp_case(c, &Resp { status: 200, headers: hs, body: vec![1] }, incl, &ns, None);
            }
        }
    }
    c.exhaustive_parts.push("all triples of five header names with all inclusion and exclusion lists of four names".into());
    for s in 100..1000u16 { resp_case(c, &Resp { status: s, headers: vec![("a".into(), "b".into())], body: vec![] }, true, &["a".to_string()], None); }
    c.exhaustive_parts.push("all status codes".into());
    let mut k = 0;
    while !c.done() && k < if c.thorough { 300_000 } else { 12_000 } {
        k += 1;
        let r = response(&mut c.rng);
        let rn: Vec<String> = r.headers.iter().map(|h| h.0.clone()).collect();
        let ns = names(&mut c.rng, &rn);
        let incl = c.rng.chance(1, 2);
        let bh = if c.rng.chance(1, 4) { Some(sha(&[&c.rng.bytes(3)])) } else { None };
        resp_case(c, &r, incl, &ns, bh);
    }
}
/// The hashes a certification stores are seen in the tree it is inserted in.
fn cert_path(e: &hc::HttpCertification) -> Vec<Vec<u8>> {
    let mut t = hc::HttpCertificationTree::default();
    let en = hc::HttpCertificationTreeEntry::new(hc::HttpCertificationPath::exact("/"), *e);
    t.insert(&en);
    let w = T::of(&t.witness(&en, "/").unwrap());
    let mut p = vec![];
    let mut n = &w;
    while let T::L(l, s) = n { p.push(l.clone()); n = s; }
    p.split_off(3)
}
fn cert_case(c: &mut Ctx, cel: &Cel, q: &Req, r: &Resp, bh: Option<H>) {
    let d = || format!("{cel:?} for {} and {}", q.show(), r.show());
    c.case(&d(), true);
    let Some(g) = c.guard("C23-panic", &d, || cel.certify(q, r, bh)) else { return };
    let exprs: Vec<&(String, String)> = r.headers.iter().filter(|h| low(&h.0) == "ic-certificateexpression").collect();
    let ok = *cel == Cel::Skip || (exprs.len() == 1 && exprs[0].1 == cel.text());
    c.check(g.is_ok() == ok, "C23-validated", &d, &|| format!("the certification is {g:?}, the expression headers are {exprs:?} for the expression {}", cel.text()));
    let (Ok(e), true) = (g, ok) else { return };
    let mut want = cel.tree_path(q, r);
    if let (Some(b), Cel::Of { incl, names, .. }) = (bh, cel) {
        let mut m: Vec<(String, Val)> = certified(r, *incl, names).into_iter().map(|(n, v)| (n, Val::S(v))).collect();
        m.push((":ic-cert-status".into(), Val::N(r.status as u64)));
        want[2] = sha(&[&rih(&m), &b]).to_vec();
    }
    let Some(got) = c.guard("C23-panic", &d, || cert_path(&e)) else { return };
    c.check(got == want, "C23-hashes", &d, &|| format!("the stored hashes are {:?} instead of {:?}", got.iter().map(|x| hex(x)).collect::<Vec<_>>(), want.iter().map(|x| hex(x)).collect::<Vec<_>>()));
}
pub fn c23(c: &mut Ctx) {
    c.rule("certifications created for responses whose expression header is present, missing, repeated, differently written or different, the stored hashes against an independent implementation");
    let mut k = 0;
    while !c.done() && k < if c.thorough { 300_000 } else { 12_000 } {
        k += 1;
        let q = request(&mut c.rng);
        let mut r = response(&mut c.rng);
        if c.rng.chance(9, 10) { r.headers.retain(|h| low(&h.0) != "ic-certificateexpression"); }
        let cel = cel(&mut c.rng, &q, &r);
        let t = cel.text();
        let n = c.rng.pick(&["IC-CertificateExpression", "ic-certificateexpression", "Ic-CertificateExpression", "IC-CERTIFICATEEXPRESSION"]).to_string();
        let muts: Vec<(String, String)> = match c.rng.below(14) {
            0 => vec![],
            1 => vec![(n, t.clone()), ("ic-CertificateExpression".into(), t.clone())],
            2 => vec![(n, format!("{t} "))],
            3 => vec![(n, format!(" {t}"))],
            4 => vec![(n, t.to_uppercase())],
            5 => vec![(n, Cel::Skip.text())],
            6 => vec![(n, t.clone()), ("IC-CertificateExpression".into(), Cel::Skip.text())],
            7 => vec![(n, Cel::Skip.text()), ("IC-CertificateExpression".into(), t.clone())],
            8 => vec![(n, String::new())],
            9 => vec![(format!("{n} "), t.clone())],
            10 => { let mut x = t.clone(); x.pop(); vec![(n, x)] }
            _ => vec![(n, t.clone())],
        };
        for m in muts { let i = c.rng.below(r.headers.len() + 1); r.headers.insert(i, m); }
        let bh = if c.rng.chance(1, 4) { Some(sha(&[&c.rng.bytes(3)])) } else { None };
        cert_case(c, &cel, &q, &r, bh);
    }
}
