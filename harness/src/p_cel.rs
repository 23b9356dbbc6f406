//! C16: certification expressions, written by the library and read by its verifier.
//! The reading is observed through verify_request_response_pair: the tree holds exactly the hashes of what the text says.
use crate::core::*;
use crate::model::*;
use crate::p_paths::full;
use crate::p_resp::*;
use crate::refhttp::*;

// ---------------------------------------------------------------- a reference reader
#[derive(Clone, Debug, PartialEq)]
pub enum V { S(String), A(Vec<V>), O(String, Vec<(String, V)>), F(String, Vec<V>) }
/// What a text is read as: a certification, nothing, or (None) something that the format does not settle.
type Reading = Option<Option<Cel>>;
#[derive(Clone, Debug, PartialEq)]
enum K { Id(String), Str(String), P(char) }
/// Some(None): not text of the format; None: not settled.
fn tokens(t: &str) -> Option<Option<Vec<K>>> {
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut o) = (0, vec![]);
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    if i >= c.len() { return Some(None); }
                    if c[i] == '\\' { return None; }
                    if c[i] == '"' { break; }
                    s.push(c[i]);
                    i += 1;
                }
                i += 1;
                o.push(K::Str(s));
            }
            x if x.is_ascii_alphanumeric() || x == '_' => { let mut s = String::new(); while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { s.push(c[i]); i += 1; } o.push(K::Id(s)); }
            x if !x.is_ascii() => return None,
            x => { o.push(K::P(x)); i += 1; }
        }
    }
    Some(Some(o))
}
/// Err(true): malformed; Err(false): not settled.
struct Rd { k: Vec<K>, i: usize, depth: usize }
impl Rd {
    fn at(&self, c: char) -> bool { self.k.get(self.i) == Some(&K::P(c)) }
    fn eat(&mut self, c: char) -> Result<(), bool> { if self.at(c) { self.i += 1; Ok(()) } else { Err(true) } }
    fn many<T>(&mut self, close: char, f: &mut dyn FnMut(&mut Rd) -> Result<T, bool>) -> Result<Vec<T>, bool> {
        self.depth += 1;
        if self.depth > 12 { return Err(false); }
        let mut v = vec![];
        if !self.at(close) { loop { v.push(f(self)?); if self.at(',') { self.i += 1; } else { break; } } }
        self.eat(close)?;
        self.depth -= 1;
        Ok(v)
    }
    fn value(&mut self) -> Result<V, bool> {
        let t = self.k.get(self.i).cloned().ok_or(true)?;
        self.i += 1;
        match t {
            K::Str(s) => Ok(V::S(s)),
            K::P('[') => Ok(V::A(self.many(']', &mut |r| r.value())?)),
            // a name may be missing
            K::P('{') | K::P('(') => Err(false),
            K::Id(n) => if self.at('{') {
                self.i += 1;
                Ok(V::O(n, self.many('}', &mut |r| { let k = match r.k.get(r.i).cloned() { Some(K::Id(k)) => k, Some(K::P(':')) => return Err(false), _ => return Err(true) }; r.i += 1; r.eat(':')?; Ok((k, r.value()?)) })?))
            } else { self.eat('(')?; Ok(V::F(n, self.many(')', &mut |r| r.value())?)) },
            _ => Err(true),
        }
    }
}
pub fn read(t: &str) -> Reading {
    let Some(k) = tokens(t)? else { return Some(None) };
    let mut r = Rd { k, i: 0, depth: 0 };
    match r.value() {
        Ok(v) => if r.i < r.k.len() { Some(None) } else { mean(&v) },
        Err(true) => Some(None),
        Err(false) => None,
    }
}
/// The properties of an object with this name; unknown or repeated ones are not settled.
fn obj<'a>(v: &'a V, name: &str, known: &[&str]) -> Option<Option<Vec<Option<&'a V>>>> {
    let V::O(n, m) = v else { return Some(None) };
    if n != name { return Some(None); }
    if m.iter().enumerate().any(|(i, x)| !known.contains(&x.0.as_str()) || m[..i].iter().any(|y| y.0 == x.0)) { return None; }
    Some(Some(known.iter().map(|k| m.iter().find(|x| x.0 == *k).map(|x| &x.1)).collect()))
}
fn list(v: &V) -> Option<Vec<String>> { let V::A(a) = v else { return None }; a.iter().map(|x| if let V::S(s) = x { Some(s.clone()) } else { None }).collect() }
fn is_empty(v: &V) -> Option<()> { if matches!(v, V::O(n, m) if n == "Empty" && m.is_empty()) { Some(()) } else { None } }
fn mean(v: &V) -> Reading {
    let V::F(n, args) = v else { return Some(None) };
    if n != "default_certification" || args.is_empty() { return Some(None); }
    if args.len() > 1 { return None; }
    let Some(o) = obj(&args[0], "ValidationArgs", &["no_certification", "certification"])? else { return Some(None) };
    let c = match (o[0], o[1]) { (Some(e), None) => { is_empty(e)?; return Some(Some(Cel::Skip)); } (None, Some(c)) => c, _ => return Some(None) };
    let Some(o) = obj(c, "Certification", &["no_request_certification", "request_certification", "response_certification"])? else { return Some(None) };
    let req = match (o[0], o[1]) {
        (Some(e), None) => { is_empty(e)?; None }
        (None, Some(q)) => {
            let Some(o) = obj(q, "RequestCertification", &["certified_request_headers", "certified_query_parameters"])? else { return Some(None) };
            match (o[0].and_then(list), o[1].and_then(list)) { (Some(h), Some(p)) => Some((h, p)), _ => return Some(None) }
        }
        _ => return Some(None),
    };
    let Some(p) = o[2] else { return Some(None) };
    let Some(o) = obj(p, "ResponseCertification", &["certified_response_headers", "response_header_exclusions"])? else { return Some(None) };
    let mut l: [Option<Vec<String>>; 2] = [None, None];
    for i in 0..2 {
        if let Some(v) = o[i] {
            let Some(h) = obj(v, "ResponseHeaderList", &["headers"])? else { return Some(None) };
            let Some(h) = h[0] else { return None };
            let Some(h) = list(h) else { return Some(None) };
            l[i] = Some(h);
        }
    }
    Some(match l { [Some(names), None] => Some(Cel::Of { req, incl: true, names }), [None, Some(names)] => Some(Cel::Of { req, incl: false, names }), _ => None })
}
// ---------------------------------------------------------------- generators
const ODD: &[&str] = &["", " ", ",", "a,b", "]", "[", "{x}", "}", "(", ")", ":", "a:b", "é", "日本", "\u{1f600}", "a b", "<*>", "\t", "'", "`", "//", "#", "no_certification:Empty{}", "]}}})", "0", "_", "-", "very-long-header-name-that-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on"];
fn odd(r: &mut Rng) -> String { if r.chance(1, 2) { r.pick(ODD).to_string() } else { let n = r.range(1, 12); (0..n).map(|_| loop { let c = char::from_u32(match r.below(4) { 0 => r.range(33, 127) as u32, 1 => r.range(97, 123) as u32, 2 => r.range(160, 0x2000) as u32, _ => r.range(32, 64) as u32 }).unwrap_or('x'); if c != '"' && c != '\\' { break c; } }).collect() } }
fn lists(r: &mut Rng, base: &[String]) -> Vec<String> {
    let n = match r.below(12) { 0 => r.range(20, 120), 1 | 2 => 0, _ => r.below(5) };
    (0..n).map(|_| if !base.is_empty() && r.chance(1, 2) { r.pick(base).clone() } else { odd(r) }).collect()
}
fn gen(r: &mut Rng, q: &Req, p: &Resp) -> Cel {
    if r.chance(1, 10) { return Cel::Skip; }
    let hn: Vec<String> = q.headers.iter().map(|h| h.0.clone()).collect();
    let rn: Vec<String> = p.headers.iter().map(|h| h.0.clone()).collect();
    let req = if r.chance(3, 5) { let n = r.below(3); let mut ps: Vec<String> = (0..n).map(|_| r.pick(PARAMS).to_string()).collect(); if r.chance(1, 4) { ps.push(odd(r)); } Some((lists(r, &hn), ps)) } else { None };
    Cel::Of { req, incl: r.chance(1, 2), names: lists(r, &rn) }
}
fn show_tokens(r: &mut Rng, k: &[K], space: bool) -> String {
    let mut o = String::new();
    for (i, x) in k.iter().enumerate() {
        let glue = i > 0 && matches!((&k[i - 1], x), (K::Id(_), K::Id(_)));
        if glue || (space && r.chance(1, 4)) { o.push_str(*r.pick(&[" ", "\n", "\t", "  ", "\r\n"])); }
        match x { K::Id(s) => o.push_str(s), K::Str(s) => { o.push('"'); o.push_str(s); o.push('"'); } K::P(c) => o.push(*c) }
    }
    if space && r.chance(1, 6) { o.push(' '); }
    o
}
/// Values of every kind, some of them right somewhere.
const ANY: &[&str] = &["\"\"", "\"x\"", "[]", "[\"x\"]", "[[]]", "Empty{}", "Other{}", "f()", "f(\"x\")", "ResponseHeaderList{}", "ResponseHeaderList{headers:[]}", "Other{headers:[]}", "ResponseHeaderList{headers:\"x\"}", "RequestCertification{certified_request_headers:[],certified_query_parameters:[]}", "ResponseCertification{response_header_exclusions:ResponseHeaderList{headers:[]}}", "Certification{}"];
/// The value of the first property at or after i.
fn value_at(k: &[K], i: usize) -> Option<(usize, usize)> {
    let a = (i..k.len()).find(|a| k[*a] == K::P(':'))? + 1;
    let (mut d, mut b) = (0i32, a);
    while b < k.len() { match k[b] { K::P('{') | K::P('(') | K::P('[') => d += 1, K::P('}') | K::P(')') | K::P(']') => { d -= 1; if d < 0 { break; } } K::P(',') if d == 0 => break, _ => {} } b += 1; }
    Some((a, b))
}
/// Another text: tokens dropped, doubled, moved, replaced; properties renamed, doubled, missing.
fn other(r: &mut Rng, t: &str) -> String {
    let Some(Some(mut k)) = tokens(t) else { return t.to_string() };
    for _ in 0..r.range(1, 3) {
        let i = r.below(k.len());
        match r.below(13) {
            // a value in place of another, and a property beside another
            11 => if let Some((a, b)) = value_at(&k, i) { let x = tokens(*r.pick(ANY)).unwrap().unwrap(); k.splice(a..b, x); },
            12 => {
                let p = *r.pick(&["no_certification", "certification", "no_request_certification", "request_certification", "certified_request_headers", "certified_query_parameters", "certified_response_headers", "response_header_exclusions", "headers", "response_certification"]);
                if let Some(a) = (i..k.len()).find(|a| k[*a] == K::P('{')) {
                    let mut x = vec![K::Id(p.into()), K::P(':')];
                    x.extend(tokens(*r.pick(ANY)).unwrap().unwrap());
                    if k.get(a + 1) != Some(&K::P('}')) { x.push(K::P(',')); }
                    if r.chance(1, 2) { if let Some(b) = (a + 1..k.len()).find(|b| k[*b] == K::P(':')) { if let Some((c, d)) = value_at(&k, b) { let y = tokens(*r.pick(ANY)).unwrap().unwrap(); k.splice(c..d, y); } } }
                    k.splice(a + 1..a + 1, x);
                }
            }
            0 => { k.remove(i); if k.is_empty() { k.push(K::P(' ')); } }
            1 => { let x = k[i].clone(); k.insert(i, x); }
            2 => { let j = r.below(k.len()); k.swap(i, j); }
            3 => { k[i] = match r.below(3) { 0 => K::Id(r.pick(&["no_certification", "certification", "no_request_certification", "request_certification", "response_certification", "certified_request_headers", "certified_query_parameters", "certified_response_headers", "response_header_exclusions", "headers", "Empty", "ResponseHeaderList", "RequestCertification", "ResponseCertification", "Certification", "ValidationArgs", "default_certification", "x"]).to_string()), 1 => K::P(*r.pick(&['{', '}', '(', ')', '[', ']', ',', ':', '.', ';', '\'', '-'])), _ => K::Str(odd(r)) }; }
            4 => { if let K::Id(s) = &mut k[i] { match r.below(4) { 0 => { s.pop(); } 1 => s.push('s'), 2 => *s = s.to_uppercase(), _ => s.insert(0, '_') } if s.is_empty() { s.push('x'); } } }
            5 => { k.truncate(i.max(1)); }
            6 => { let x: Vec<K> = match tokens(*r.pick(&[",no_certification:Empty{}", "no_certification:Empty{},", "no_request_certification:Empty{},", "x:\"y\",", ",x:[]", ",Empty{}", "[],", "\"\",", ",", ",headers:[]", "\"a\" \"b\"", "certified_response_headers:ResponseHeaderList{headers:[]},", "response_header_exclusions:ResponseHeaderList{headers:[]},"])) { Some(Some(x)) => x, _ => vec![] }; for (n, y) in x.into_iter().enumerate() { k.insert((i + n).min(k.len()), y); } }
            7 => { let x: Vec<K> = tokens(*r.pick(&["x", ")", "}", "default_certification(ValidationArgs{no_certification:Empty{}})", "\"\"", ","])).unwrap().unwrap(); k.extend(x); }
            8 => { // a whole property away
                if let Some(a) = (i..k.len()).find(|a| matches!(k[*a], K::Id(_)) && k.get(a + 1) == Some(&K::P(':'))) {
                    let (mut d, mut b) = (0i32, a + 2);
                    while b < k.len() { match k[b] { K::P('{') | K::P('(') | K::P('[') => d += 1, K::P('}') | K::P(')') | K::P(']') => { d -= 1; if d < 0 { break; } } K::P(',') if d == 0 => { b += 1; break; } _ => {} } b += 1; }
                    if k.get(b) == Some(&K::P('}')) && a > 0 && k[a - 1] == K::P(',') { k.drain(a - 1..b); } else { k.drain(a..b); }
                }
            }
            9 => { let n = r.range(1, 4); for _ in 0..n { k.push(K::P(*r.pick(&[')', '}', ']']))); } }
            _ => { if let K::Str(_) = k[i] { k[i] = match r.below(3) { 0 => K::Id("a".into()), 1 => K::P('['), _ => K::Str(odd(r)) }; } else { let x = K::P(','); k.insert(i, x); } }
        }
        if k.is_empty() { k.push(K::P(' ')); }
    }
    show_tokens(r, &k, false)
}
pub fn c16(c: &mut Ctx) {
    c.rule("the text the library writes for a certification is the format's, and a verifier accepts a response under a text only as the certification that a reference reader finds in it (the tree holds the hashes of that one; for a text that states none, of several weaker ones)");
    let mut memo = Memo::default();
    while !c.done() {
        memo.clear();
        let r = &mut c.rng;
        let mut q = request(r);
        if url_path(&q.url).is_none() { continue; }
        let mut p = response(r);
        p.headers.retain(|h| !low(&h.0).starts_with("ic-cert"));
        for _ in 0..r.below(3) { let n = odd(r); p.headers.push((n, value(r))); let n = odd(r); q.headers.push((n, value(r))); }
        let at = full(&segs(&url_path(&q.url).unwrap()), b"<$>");
        let mut texts: Vec<(String, Reading, Cel)> = vec![];
        let mut wrote = vec![];
        for _ in 0..8 {
            let x = gen(&mut c.rng, &q, &p);
            // the library's own text
            let cs = || format!("{x:?}");
            let Some(t) = c.guard("C16-write-panic", &cs, || x.expr().to_string()) else { return };
            c.case(&format!("write {x:?}"), true);
            if !c.check(t == x.text(), "C16-text", &cs, &|| format!("the text written is {t:?} instead of {:?}", x.text())) { return; }
            if !c.check(read(&t) == Some(Some(x.clone())), "C16-text", &cs, &|| format!("the text written is {t:?}, which states {:?}", read(&t))) { return; }
            if let Cel::Of { .. } = x {
                let two = match &x { Cel::Of { req: Some(_), .. } => x.full().to_string(), _ => x.response_only().to_string() };
                if !c.check(two == t, "C16-text", &cs, &|| format!("the text written by the inner expression is {two:?} instead of {t:?}")) { return; }
            }
            let r = &mut c.rng;
            wrote.push((t.clone(), x.clone()));
            texts.push((t.clone(), Some(Some(x.clone())), x.clone()));
            let sp = show_tokens(r, &tokens(&t).unwrap().unwrap(), true);
            texts.push((sp.clone(), read(&sp), x.clone()));
            for _ in 0..6 { let o = other(r, &t); texts.push((o.clone(), read(&o), x.clone())); }
        }
        texts.retain(|t| t.1.is_some());
        // one tree with all of them
        let mut entries = vec![];
        for (t, rd, x) in &texts {
            let mut base = at.clone();
            base.push(sha(&[t.as_bytes()]).to_vec());
            let mut put = |c: &Cel, rp: &Resp| { let mut b = base.clone(); let mut tail = c.tree_path(&q, rp); tail.remove(0); b.extend(tail); entries.push((b, T::V(vec![]))); };
            let mut rp = p.clone();
            rp.headers.push(("IC-CertificateExpression".into(), t.clone()));
            match rd {
                Some(Some(c)) => put(c, &rp),
                _ => for incl in [false, true] {
                    if let Cel::Of { req, incl: _, names } = x {
                        put(&Cel::Of { req: req.clone(), incl, names: names.clone() }, &rp);
                        put(&Cel::Of { req: None, incl, names: names.clone() }, &rp);
                        put(&Cel::Of { req: req.clone(), incl, names: vec![] }, &rp);
                    }
                    put(&Cel::Of { req: None, incl, names: vec![] }, &rp);
                    put(&Cel::Of { req: Some((vec![], vec![])), incl, names: vec![] }, &rp);
                }
            }
        }
        let s = simple(&mut c.rng, put(&mut Rng::new(1), entries), at.clone());
        let head = head_text(&mut Rng::new(2), &s);
        for (t, rd, _) in &texts {
            let m = match rd { Some(Some(x)) => [(t.clone(), x.clone())].into(), _ => Texts::new() };
            let mut rp = p.clone();
            rp.headers.push(("IC-CertificateExpression".into(), t.clone()));
            rp.headers.push(("IC-Certificate".into(), head.clone()));
            let ok = one(c, "C16", &mut memo, &m, &s.args(&q, &rp), &format!("text {t:?}"));
            if c.violation.is_some() { return; }
            // a listed header or parameter matters, another one does not
            if ok {
                for _ in 0..2 {
                    let (mut q2, mut p2) = (q.clone(), rp.clone());
                    let r = &mut c.rng;
                    match r.below(4) {
                        0 if !q2.headers.is_empty() => { let i = r.below(q2.headers.len()); q2.headers[i].1.push('!'); }
                        1 => { let i = r.below(p2.headers.len() - 1); if low(&p2.headers[i].0) != "ic-certificateexpression" { p2.headers[i].1.push('!'); } }
                        2 => { let i = r.below(p2.headers.len() - 1); p2.headers.insert(i, (odd(r), "v".into())); }
                        _ => { q2.url.push_str(if q2.url.contains('?') { "&a=z" } else { "?a=z" }); }
                    }
                    one(c, "C16", &mut memo, &m, &s.args(&q2, &p2), &format!("changed pair, text {t:?}"));
                    if c.violation.is_some() { return; }
                }
            }
            if c.done() { return; }
        }
        let _ = &wrote;
    }
}
