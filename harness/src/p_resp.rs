//! C19 C20 C21 C22 C26 C27: response verification against a reference verifier written from the HTTP gateway specification.
use crate::core::*;
use crate::model::*;
use crate::p_cbor::{cert_of, reference, strings_of, tree_of, Cert};
use crate::p_cert::{full_dir, key, leb_enc, sig_verdict, sign, time_verdict, Key, Time};
use crate::p_paths::{applies, candidates, full, precede, P};
use crate::refhttp::*;
use base64::Engine;
use ic_response_verification::{types::VerificationInfo, verify_request_response_pair};
use std::collections::HashMap;
use std::io::{Read, Write};

const X: &[u8] = b"<$>";
const W: &[u8] = b"<*>";
const B64: base64::engine::GeneralPurpose = base64::engine::GeneralPurpose::new(
    &base64::alphabet::STANDARD,
    base64::engine::GeneralPurposeConfig::new().with_decode_allow_trailing_bits(true).with_decode_padding_mode(base64::engine::DecodePaddingMode::Indifferent),
);
type Out = (u16, Option<(Option<u16>, Hs, Vec<u8>)>);

// ---------------------------------------------------------------- the reference
/// What an expression text means; None: not an expression (texts not listed are in no tree).
pub type Texts = HashMap<String, Cel>;
#[derive(Default)]
pub struct Memo(HashMap<(Vec<u8>, Vec<u8>, Vec<u8>), bool>);
fn pct(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    let h = |x: u8| (x as char).to_digit(16).map(|d| d as u8);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && h(b[i + 1]).is_some() && h(b[i + 2]).is_some() { o.push(h(b[i + 1]).unwrap() * 16 + h(b[i + 2]).unwrap()); i += 3; } else { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).ok()
}
/// The decoded path of a URL.
pub fn url_path(u: &str) -> Option<String> {
    let u = u.split(['?', '#']).next().unwrap();
    let p = match u.find("://") { Some(i) => { let a = &u[i + 3..]; match a.find('/') { Some(j) => &a[j..], None => "/" } } None => u };
    pct(p)
}
struct Hdr { cert: Cert, cert_bytes: Vec<u8>, tree: T, version: u8, path: Option<Vec<String>> }
fn field(s: &str) -> Option<(&str, &str)> {
    let s = s.trim();
    let i = s.find('=')?;
    let (n, v) = (&s[..i], &s[i + 1..]);
    let v = v.strip_prefix(':').unwrap_or(v);
    let (v, rest) = match v.find(':') { Some(j) => (&v[..j], &v[j + 1..]), None => (v, "") };
    if !rest.is_empty() || n.is_empty() || v.is_empty() { return None; }
    Some((n, v))
}
fn header(s: &str) -> Option<Hdr> {
    let (mut cert, mut tree, mut version, mut path) = (None, None, None, None);
    for f in s.split(',') {
        let Some((n, v)) = field(f) else { continue };
        match n {
            "certificate" if cert.is_none() => { let b = B64.decode(v).ok()?; cert = Some((cert_of(&reference(&b).0?)?, b)); }
            "tree" if tree.is_none() => tree = Some(tree_of(&reference(&B64.decode(v).ok()?).0?)?),
            "version" if version.is_none() => version = Some(v.parse::<u8>().ok()?),
            "expr_path" if path.is_none() => path = Some(strings_of(&reference(&B64.decode(v).ok()?).0?)?),
            _ => {}
        }
    }
    let (cert, cert_bytes) = cert?;
    Some(Hdr { cert, cert_bytes, tree: tree?, version: version.unwrap_or(1), path })
}
fn last<'a>(h: &'a Hs, n: &str) -> Option<&'a String> { h.iter().rev().find(|(k, _)| k.to_lowercase() == n).map(|x| &x.1) }
pub fn decode(body: &[u8], e: Option<&str>) -> Option<Vec<u8>> {
    let mut o = vec![];
    match e {
        Some("gzip") => { flate2::read::GzDecoder::new(body).read_to_end(&mut o).ok()?; }
        Some("deflate") => { flate2::read::DeflateDecoder::new(body).read_to_end(&mut o).ok()?; }
        _ => o = body.to_vec(),
    }
    Some(o)
}
fn segv(s: &[&[u8]]) -> P { s.iter().map(|x| x.to_vec()).collect() }
fn there(t: &T, p: &[Vec<u8>]) -> bool { matches!(subtree(t, p), Find::Found(_)) }
fn maybe(t: &T, p: &[Vec<u8>]) -> bool { !matches!(subtree(t, p), Find::Absent) }
fn expr_ok(e: &[Vec<u8>], q: &[Vec<u8>], t: &T) -> bool {
    let exact = full(q, X);
    if e == exact { return there(t, e); }
    if e.len() < 2 || e[0] != b"http_expr" || e[e.len() - 1] != W { return false; }
    let w = &e[1..e.len() - 1];
    applies(w, q) && !maybe(t, &exact) && precede(q, w).iter().all(|p| !maybe(t, &full(p, W))) && there(t, e)
}
pub struct Args<'a> { pub q: &'a Req, pub p: &'a Resp, pub canister: &'a [u8], pub now: u128, pub off: u128, pub root: &'a [u8], pub min: u8 }
fn expect(m: &mut Memo, texts: &Texts, a: &Args) -> Option<Out> {
    let h = header(last(&a.p.headers, "ic-certificate")?)?;
    if h.version < a.min || !(1..=2).contains(&h.version) { return None; }
    let path = url_path(&a.q.url)?;
    let k = (h.cert_bytes.clone(), a.canister.to_vec(), a.root.to_vec());
    if !*m.0.entry(k).or_insert_with(|| sig_verdict(&h.cert, a.canister, a.root)) || time_verdict(&h.cert.0, a.now, a.off) != Time::Ok { return None; }
    if lookup(&h.cert.0, &segv(&[b"canister", a.canister, b"certified_data"])) != Look::Found(h.tree.digest().to_vec()) { return None; }
    if h.version == 1 {
        let e = last(&a.p.headers, "content-encoding").map(|x| x.as_str());
        let d = decode(&a.p.body, e)?;
        let fine = |x: &[u8]| {
            let x = Look::Found(sha(&[x]).to_vec());
            match lookup(&h.tree, &segv(&[b"http_assets", path.as_bytes()])) {
                Look::Absent => lookup(&h.tree, &segv(&[b"http_assets", b"/index.html"])) == x,
                y => y == x,
            }
        };
        if !fine(&d) && !(e.is_some() && fine(&a.p.body)) { return None; }
        return Some((1, Some((None, vec![], a.p.body.clone()))));
    }
    let text = last(&a.p.headers, "ic-certificateexpression")?;
    let cel = texts.get(text)?;
    let e: P = h.path?.iter().map(|x| x.as_bytes().to_vec()).collect();
    if !expr_ok(&e, &segs(&path), &h.tree) { return None; }
    let eh = sha(&[text.as_bytes()]).to_vec();
    let mut below = e;
    below.push(eh);
    match cel {
        Cel::Skip => if there(&h.tree, &below) { Some((2, None)) } else { None },
        Cel::Of { req, incl, names } => {
            below.push(match req { Some((hs, ps)) => request_hash(a.q, hs, ps).to_vec(), None => vec![] });
            below.push(response_hash(a.p, *incl, names).to_vec());
            match subtree(&h.tree, &below) {
                Find::Found(T::V(v)) if v.is_empty() => {
                    let mut hs = certified(a.p, *incl, names);
                    hs.push(("IC-Certificate".into(), a.p.headers.iter().rev().find(|x| low(&x.0) == "ic-certificate")?.1.clone()));
                    Some((2, Some((Some(a.p.status), hs, a.p.body.clone()))))
                }
                _ => None,
            }
        }
    }
}
pub fn accepts(m: &mut Memo, texts: &Texts, a: &Args) -> bool { expect(m, texts, a).is_some() }

// ---------------------------------------------------------------- generators
pub fn put(r: &mut Rng, mut paths: Vec<(P, T)>) -> T {
    if let Some(i) = paths.iter().position(|p| p.0.is_empty()) { return paths.remove(i).1; }
    let mut m: std::collections::BTreeMap<Vec<u8>, Vec<(P, T)>> = Default::default();
    for (p, t) in paths { m.entry(p[0].clone()).or_default().push((p[1..].to_vec(), t)); }
    let v: Vec<T> = m.into_iter().map(|(l, c)| { let c = put(r, c); T::L(l, Box::new(c)) }).collect();
    join(r, v)
}
/// Prunes at random; never above a label that is kept.
fn prune(r: &mut Rng, t: &T, at: &[Vec<u8>], keep: &[P], chance: usize) -> T {
    let hit = |l: &[Vec<u8>]| keep.iter().any(|k| k.len() >= l.len() && k[..l.len()] == *l);
    fn holds(t: &T, at: &[Vec<u8>], hit: &dyn Fn(&[Vec<u8>]) -> bool) -> bool {
        match t { T::F(a, b) => holds(a, at, hit) || holds(b, at, hit), T::L(l, _) => { let mut p = at.to_vec(); p.push(l.clone()); hit(&p) } _ => true }
    }
    if chance > 0 && r.chance(1, chance) && !holds(t, at, &hit) { return T::P(t.digest()); }
    match t {
        T::F(a, b) => { let a = prune(r, a, at, keep, chance); let b = prune(r, b, at, keep, chance); T::F(Box::new(a), Box::new(b)) }
        T::L(l, c) => { let mut p = at.to_vec(); p.push(l.clone()); T::L(l.clone(), Box::new(prune(r, c, &p, keep, chance))) }
        x => x.clone(),
    }
}
pub fn url_for(r: &mut Rng) -> String {
    let mut u = r.pick(&["/", "/a", "/a/", "/a/b", "/a/b/", "/b", "/index.html", "https://x.y/a/b", "https://x.y", "/a%20b", "/a//b/", "/%61", "/a%2Fb", "/a/b/c/d", "/%C3%A9", "/<*>", "/%3C$%3E", "/a/%", "/%FF"]).to_string();
    if u.contains('<') { u = "/%3C*%3E".into(); }
    if r.chance(1, 3) { u.push('?'); u.push_str(&query(r)); }
    u
}
impl Memo { pub fn clear(&mut self) { self.0.clear(); } }
/// A signed scene around a tree, for the expression path given.
pub fn simple(r: &mut Rng, tree: T, expr: P) -> Scene {
    let k = key(1 + r.below(3) as u8);
    let canister = vec![0, 1, 2, 3, 1, 1];
    let time = 1_700_000_000_000_000_000u64;
    let cans = full_dir(r, vec![(canister.clone(), T::L(b"certified_data".to_vec(), Box::new(T::V(tree.digest().to_vec()))))]);
    let ct = full_dir(r, vec![(b"time".to_vec(), T::V(leb_enc(time))), (b"canister".to_vec(), cans)]);
    let sig = sign(&k, &ct.digest());
    Scene { q: Req { method: String::new(), url: String::new(), headers: vec![], body: vec![] }, p: Resp { status: 200, headers: vec![], body: vec![] }, tree, cert: (ct, sig, None), canister, now: time as u128, off: 5, texts: Texts::new(), exprs: vec![], version: Some("2".into()), expr: Some(expr), key: k }
}
impl Scene { pub fn args<'a>(&'a self, q: &'a Req, p: &'a Resp) -> Args<'a> { Args { q, p, canister: &self.canister, now: self.now, off: self.off, root: &self.key.der, min: 2 } } }
/// Spaces where the grammar allows them.
fn spaced(r: &mut Rng, t: &str) -> String {
    let mut o = String::new();
    let mut quoted = false;
    for ch in t.chars() {
        if ch == '"' { quoted = !quoted; }
        o.push(ch);
        if !quoted && "{[,:".contains(ch) && r.chance(1, 4) { o.push_str(*r.pick(&[" ", "\n", "\t", "  "])); }
    }
    o
}
fn pack(kind: usize, b: &[u8]) -> Vec<u8> {
    let c = flate2::Compression::default();
    match kind {
        0 => { let mut e = flate2::write::GzEncoder::new(vec![], c); e.write_all(b).unwrap(); e.finish().unwrap() }
        _ => { let mut e = flate2::write::DeflateEncoder::new(vec![], c); e.write_all(b).unwrap(); e.finish().unwrap() }
    }
}
pub struct Scene { q: Req, p: Resp, tree: T, cert: Cert, canister: Vec<u8>, now: u128, off: u128, texts: Texts, exprs: Vec<P>, version: Option<String>, expr: Option<P>, key: Key }
fn cbor_tree(t: &T) -> Vec<u8> { let mut o = vec![]; crate::p_cbor::enc_plain(&mut o, t, &mut Rng::new(0)); o }
fn enc64(r: &mut Rng, b: &[u8]) -> String {
    let s = base64::engine::general_purpose::STANDARD.encode(b);
    if r.chance(1, 4) { s.trim_end_matches('=').to_string() } else { s }
}
pub fn head_text(r: &mut Rng, s: &Scene) -> String {
    let wrap = |r: &mut Rng, n: &str, v: String| { let v = match r.below(6) { 0 => v, 1 => format!(":{v}"), _ => format!(":{v}:") }; format!("{n}={v}") };
    let cb = crate::p_cert::encode(&s.cert);
    let mut f = vec![];
    let v = enc64(r, &cb);
    f.push(wrap(r, "certificate", v));
    let v = enc64(r, &cbor_tree(&s.tree));
    f.push(wrap(r, "tree", v));
    if let Some(v) = &s.version { f.push(format!("version={v}")); }
    if let Some(e) = &s.expr {
        let e: Vec<String> = e.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect();
        let v = enc64(r, &serde_cbor::to_vec(&e).unwrap());
        f.push(wrap(r, "expr_path", v));
    }
    if r.chance(1, 3) { r.shuffle(&mut f); }
    let sep: &str = *r.pick(&[",", ", ", " ,", ",,"]);
    f.join(sep)
}
/// Damages the header text: duplicates, unknown fields, other separators, truncations, other values.
fn spoil(r: &mut Rng, t: &str) -> String {
    let mut f: Vec<String> = t.split(',').map(|x| x.to_string()).collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(f.len());
        match r.below(16) {
            0 => { let x = f[i].clone(); let j = r.below(f.len() + 1); f.insert(j, x); }
            1 => { f.remove(i); if f.is_empty() { f.push(String::new()); } }
            2 => { let n = r.pick(&["certificate", "tree", "version", "expr_path", "Tree", "tree ", "x", ""]).to_string(); let v = r.pick(&[":", "", "1", ":2:", "2", "3", "0", "256", "-1", "+2", "02", ":2dn3oA==:", ":gQA=:", ":gA==:", ":!!:", ":AA:", "::", ":a:b", "2 ", "=2", ":2dn3gQA=:"]).to_string(); let j = r.below(f.len() + 1); f.insert(j, format!("{n}={v}")); }
            3 => { let n = f[i].chars().count(); let k = r.below(n + 1); f[i] = f[i].chars().take(k).collect(); }
            4 => { f[i] = format!(" {}\t", f[i]); }
            5 => { f[i] = f[i].replacen('=', "", 1); }
            6 => { f[i] = f[i].replacen('=', "==", 1); }
            7 => { f[i] = f[i].replacen(':', "::", 1); }
            8 => { f[i].push_str(*r.pick(&[":", "::", "=", "==", " ", ";", "é", "\u{0}", "\u{a0}"])); }
            9 => { let mut v: Vec<char> = f[i].chars().collect(); if !v.is_empty() { let k = r.below(v.len()); v[k] = *r.pick(&['A', '/', ':', '=', '-', '_', 'é', ' ', '9']); } f[i] = v.into_iter().collect(); }
            10 => { f[i] = f[i].to_ascii_uppercase(); }
            11 => { f.rotate_left(i); }
            12 => { f = vec![f.join(";")]; }
            13 => { f[i] = r.pick(&["version=1", "version=2", "version=:2:", "version=:1", "version=", "version=3", "version=0", "version=255", "expr_path=:gA==:", "tree=:2dn3gQA=:", "certificate=:2dn3o2:"]).to_string(); }
            14 => { let x = f[i].clone(); f.insert(0, x.chars().rev().collect()); }
            _ => { let k = r.below(20); f[i] = String::from_utf8_lossy(&r.bytes(k)).into_owned(); }
        }
    }
    f.join(",")
}
thread_local! { static HUGE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// Body lengths around the sizes that a decoder may work in; a few large ones.
fn long(r: &mut Rng) -> usize {
    let f = HUGE.with(|h| h.get());
    if f > 0 { return f; }
    if r.chance(1, 3) { return edge_len(r); }
    if r.chance(1, 60) { return r.range(900_000, 5_000_000); }
    let n = *r.pick(&[1usize, 2, 3, 4, 8, 10, 32, 64, 100]) * *r.pick(&[1024usize, 1000]) + r.below(3);
    n.saturating_sub(1)
}
fn scene(r: &mut Rng, kind: &str) -> Scene {
    let v1 = match kind { "C20" | "C27" => r.chance(9, 10), "C19" | "C21" => r.chance(1, 12), _ => r.chance(2, 5) };
    let mut q = request(r);
    q.url = url_for(r);
    let path = url_path(&q.url).unwrap_or("/bad".into());
    let mut p = response(r);
    p.headers.retain(|h| !low(&h.0).starts_with("ic-cert") && low(&h.0) != "content-encoding");
    let (mut texts, mut entries, mut exprs, mut keep) = (Texts::new(), vec![], vec![], vec![]);
    let mut expr = None;
    if v1 {
        let plain = if r.chance(1, 4) || kind == "C27" { let n = if kind == "C27" { long(r) } else { edge_len(r) }; if r.chance(1, 2) { r.bytes(n) } else { vec![b'a'; n] } } else { p.body.clone() };
        let huge = HUGE.with(|h| h.get()) > 0;
        let (body, enc) = match if huge { r.below(4) } else { r.below(7) } {
            0 | 1 => (pack(0, &plain), Some("gzip")), 2 | 3 => (pack(1, &plain), Some("deflate")),
            4 => (plain.clone(), Some(*r.pick(&["identity", "br", "GZIP", "gzip ", "x-gzip", ""]))), 5 => (pack(0, &plain), Some("gzip, deflate")), _ => (plain.clone(), None),
        };
        if let Some(e) = enc { let n = r.pick(&["Content-Encoding", "content-encoding", "CONTENT-encoding"]).to_string(); p.headers.push((n, e.into())); }
        let mut body = body;
        if !huge && r.chance(1, 8) && !body.is_empty() { match r.below(4) { 0 => { let n = r.below(body.len()); body.truncate(n); } 1 => { let b = body.clone(); body.extend(b); } 2 => { let i = r.below(body.len()); body[i] ^= 1 << r.below(8); } _ => body.push(7) } }
        let certified = match if huge { 5 } else { r.below(6) } { 0 => body.clone(), 1 => r.bytes(3), _ => plain };
        p.body = body;
        let sum = T::V(sha(&[&certified]).to_vec());
        let other = T::V(sha(&[b"other"]).to_vec());
        let a = segv(&[b"http_assets", path.as_bytes()]);
        let ix = segv(&[b"http_assets", b"/index.html"]);
        match r.below(5) {
            0 => { entries.push((ix.clone(), sum)); keep.push(ix); if r.chance(1, 3) { entries.push((a, other)); } }
            1 => { entries.push((a.clone(), sum)); entries.push((ix, other)); keep.push(a); }
            2 => { entries.push((segv(&[b"http_assets", b"/zz"]), other)); entries.push((ix.clone(), sum)); keep.push(ix); }
            _ => { entries.push((a.clone(), sum)); keep.push(a); }
        }
        entries.push((segv(&[b"http_assets", &near(r, path.as_bytes())]), T::V(sha(&[b"near"]).to_vec())));
        if r.chance(1, 3) { entries.push((segv(&[b"http_expr", X]), T::V(vec![]))); }
    } else {
        let s = segs(&path);
        let mut cands: Vec<P> = candidates(&s).iter().map(|c| full(c, W)).collect();
        cands.push(full(&s, X));
        // the request with a trailing slash (no path has two of them)
        if s.last().map_or(true, |x| !x.is_empty()) && r.chance(1, 6) { let mut d = s.clone(); d.push(vec![]); cands.push(full(&d, W)); }
        if r.chance(1, 8) { cands.push(full(&segs(&crate::p_paths::rand_path(r)), if r.chance(1, 2) { X } else { W })); }
        let pick = if r.chance(1, 3) { cands.last().unwrap().clone() } else { r.pick(&cands).clone() };
        let mut present: Vec<P> = cands.iter().filter(|_| r.chance(1, 8)).cloned().collect();
        if r.chance(1, 2) { present.push(full(&segs(&crate::p_paths::rand_path(r)), if r.chance(1, 2) { X } else { W })); }
        if r.chance(15, 16) { present.push(pick.clone()); }
        let mut cels = vec![];
        for _ in 0..3 { let c = cel(r, &q, &p); if let Cel::Of { req: Some(_), .. } = c { if url_path(&q.url).is_none() { continue; } } cels.push(c); }
        if cels.is_empty() { cels.push(Cel::Skip); }
        let mut main = None;
        for (i, c) in cels.iter().enumerate() {
            // names in the expression are quoted text
            let t = if r.chance(1, 4) { spaced(r, &c.text()) } else { c.text() };
            texts.insert(t.clone(), c.clone());
            if i == 0 { main = Some((t, c.clone())); }
        }
        let (t, c) = main.unwrap();
        p.headers.push((r.pick(&["IC-CertificateExpression", "ic-certificateexpression", "Ic-CertificateExpression"]).to_string(), t.clone()));
        if r.chance(1, 5) { r.shuffle(&mut p.headers); }
        for e in &present {
            let mut at = e.clone();
            let mut tail = c.tree_path(&q, &p);
            tail[0] = sha(&[t.as_bytes()]).to_vec();
            at.extend(tail);
            let leaf = match r.below(30) { 0 => T::V(b"x".to_vec()), 1 => T::L(b"x".to_vec(), Box::new(T::V(vec![]))), 2 => T::E, _ => T::V(vec![]) };
            if *e == pick { keep.push(at.clone()); }
            entries.push((at, leaf));
            if r.chance(1, 3) { let mut at = e.clone(); at.push(sha(&[Cel::Skip.text().as_bytes()]).to_vec()); entries.push((at, T::V(vec![]))); }
            if r.chance(1, 4) { let mut at = e.clone(); at.push(sha(&[t.as_bytes()]).to_vec()); at.push(if r.chance(1, 2) { vec![] } else { r.bytes(32) }); at.push(r.bytes(32)); entries.push((at, T::V(vec![]))); }
        }
        if r.chance(1, 3) { entries.push((segv(&[b"http_assets", path.as_bytes()]), T::V(sha(&[&p.body]).to_vec()))); }
        exprs = cands;
        expr = Some(pick);
    }
    let whole = put(r, entries);
    let ch = *r.pick(&[0usize, 3, 8]);
    if r.chance(1, 10) { keep.clear(); }
    let tree = prune(r, &whole, &[], &keep, ch);
    let k = key(1 + r.below(3) as u8);
    let canister = { let n = *r.pick(&[0usize, 1, 10, 29]); r.bytes(n) };
    let time = 1_700_000_000_000_000_000u64 + r.below(1000) as u64;
    let cd = if r.chance(1, 20) { sha(&[b"x"]) } else { whole.digest() };
    let mut e = vec![(b"time".to_vec(), T::V(leb_enc(time)))];
    let mut cans = vec![(canister.clone(), full_dir(r, vec![(b"certified_data".to_vec(), T::V(cd.to_vec())), (b"module_hash".to_vec(), T::V(vec![1]))]))];
    if r.chance(1, 3) { let o = near(r, &canister); cans.push((o, T::L(b"certified_data".to_vec(), Box::new(T::V(whole.digest().to_vec()))))); }
    let cans = full_dir(r, cans);
    e.push((b"canister".to_vec(), cans));
    let mut ct = full_dir(r, e);
    let mut sig = sign(&k, &ct.digest());
    if r.chance(1, 25) { sig = sign(&k, &sha(&[b"y"])); }
    if r.chance(1, 12) { ct = prune(r, &ct, &[], &[segv(&[b"time"])], 3); }
    let off = *r.pick(&[0u128, 5, 1_000_000]);
    let now = (time as u128 + *r.pick(&[0u128, 0, 0, 5, 6])).wrapping_sub(*r.pick(&[0u128, 0, 0, 5, 6]));
    let off = if r.chance(3, 4) { 1_000_000 } else { off };
    let version = if v1 { r.pick(&[None, Some("1".to_string()), None]).clone() } else { Some("2".into()) };
    Scene { q, p, tree, cert: (ct, sig, None), canister, now, off, texts, exprs, version, expr, key: k }
}
fn real(i: VerificationInfo) -> Out { (i.verification_version, i.response.map(|x| (x.status_code, x.headers, x.body))) }
pub fn one(c: &mut Ctx, kind: &str, m: &mut Memo, texts: &Texts, a: &Args, note: &str) -> bool {
    let cs = || format!("{note}: request {} response {} canister {} now {} off {} root {} min {}", a.q.show(), a.p.show(), hex(a.canister), a.now, a.off, hex(a.root), a.min);
    let want = expect(m, texts, a);
    let Some(got) = c.guard(&format!("{kind}-panic"), &cs, || verify_request_response_pair(a.q.build(), a.p.build(), a.canister, a.now, a.off, a.root, a.min)) else { return false };
    c.case(&format!("{note} {} {:?} {}", want.is_some(), want.as_ref().map(|w| w.0), c.evaluations % 4096), want.is_some());
    let got = got.map(real).map_err(|e| e.to_string());
    match (&got, &want) {
        (Ok(_), None) => { c.check(false, &format!("{kind}-accepts"), &cs, &|| "the pair is accepted but the specification rejects it".to_string()); }
        (Err(e), Some(_)) => { c.check(false, &format!("{kind}-rejects"), &cs, &|| format!("the pair is rejected ({e}) but the specification accepts it")); }
        (Ok(g), Some(w)) => { c.check(g == w, &format!("{kind}-output"), &cs, &|| format!("the caller is given {g:?} instead of {w:?}")); }
        _ => {}
    }
    want.is_some()
}
fn mutate(r: &mut Rng, s: &Scene, kind: &str) -> (Req, Resp, Vec<u8>, u128, u8, String, bool) {
    let (mut q, mut p, mut can, mut now, mut min) = (s.q.clone(), s.p.clone(), s.canister.clone(), s.now, 0u8);
    let mut t = head_text(r, s);
    let mut note = vec![];
    let mut dup = false;
    if kind == "C26" || r.chance(1, 6) { min = *r.pick(&[0u8, 1, 2, 3, 255]); note.push("min"); }
    if kind == "C22" && r.chance(3, 4) || r.chance(1, 20) { t = spoil(r, &t); note.push("header"); }
    if kind == "C26" && r.chance(1, 2) {
        let v = r.pick(&["1", "2", "3", "0", "255", "256", "257", "258", "514", "65537", "65538", "4294967298", "18446744073709551618", "340282366920938463463374607431768211458", "", "01", "002", "+1", "+2", "-1", " 1", "2 ", "1.0", "١"]).to_string();
        let mut f: Vec<String> = t.split(',').filter(|x| !x.trim().starts_with("version")).map(|x| x.to_string()).collect();
        if r.chance(7, 8) { let i = r.below(f.len() + 1); f.insert(i, format!("version={v}")); }
        if r.chance(1, 6) { f.push(format!("version={}", r.pick(&["1", "2"]))); }
        t = f.join(",");
        note.push("version");
    }
    let n = if note.is_empty() || r.chance(1, 4) { r.below(3) } else { 0 };
    for _ in 0..n {
        note.push(match r.below(22) {
            0 => { p.status = *r.pick(&[200u16, 204, 404, 100, 999]); "status" }
            1 => { p.body = body(r); "body" }
            2 => { if !p.body.is_empty() { let i = r.below(p.body.len()); p.body[i] ^= 1; } "body bit" }
            3 => { let h = (name(r), value(r)); let i = r.below(p.headers.len() + 1); p.headers.insert(i, h); "response header added" }
            4 => { if !p.headers.is_empty() { let i = r.below(p.headers.len()); p.headers.remove(i); } "response header removed" }
            5 => { if !p.headers.is_empty() { let i = r.below(p.headers.len()); p.headers[i].1.push('x'); } "response header value" }
            6 => { for h in p.headers.iter_mut() { h.0 = if r.chance(1, 2) { h.0.to_ascii_uppercase() } else { h.0.to_ascii_lowercase() }; } "response header case" }
            7 => { r.shuffle(&mut p.headers); "response header order" }
            8 => { q.method = r.pick(&["GET", "POST", "HEAD"]).to_string(); "method" }
            9 => { q.url = url_for(r); "url" }
            10 => { q.body = body(r); "request body" }
            11 => { let h = (name(r), value(r)); let i = r.below(q.headers.len() + 1); q.headers.insert(i, h); "request header added" }
            12 => { if !q.headers.is_empty() { let i = r.below(q.headers.len()); q.headers.remove(i); } "request header removed" }
            13 => { if !q.headers.is_empty() { let i = r.below(q.headers.len()); q.headers[i].1.push('x'); } "request header value" }
            14 => { if q.url.contains('?') { q.url.push_str(&format!("&{}", query(r))); } else { q.url.push('?'); } "query" }
            15 => { can = near(r, &can); can.truncate(29); "canister" }
            16 => { now = now.wrapping_add(s.off).wrapping_add(1 + r.below(2000) as u128); "late" }
            17 => { if let Some((k, _)) = s.texts.iter().nth(r.below(3)) { for h in p.headers.iter_mut() { if low(&h.0) == "ic-certificateexpression" { h.1 = k.clone(); } } } "expression" }
            18 => { for h in p.headers.iter_mut() { if low(&h.0) == "content-encoding" { h.1 = r.pick(&["gzip", "deflate", "identity", "Gzip"]).to_string(); } } "encoding" }
            19 | 20 => { for h in p.headers.iter_mut() { if low(&h.0) == "ic-certificateexpression" { h.1 = match r.below(7) { 0 => format!(" {}", h.1), 1 => format!("{} ", h.1), 2 => format!("{}\t", h.1), 3 => h.1.replace(' ', ""), 4 => h.1.replacen('{', "{ ", 1), 5 => h.1.to_ascii_lowercase(), _ => h.1.replace(',', ", ") }; } } "expression spelling" }
            _ => { dup = true; "duplicate certificate header" }
        });
    }
    let i = r.below(p.headers.len() + 1);
    p.headers.insert(i, (r.pick(&["IC-Certificate", "ic-certificate", "Ic-Certificate"]).to_string(), t));
    if dup { let j = if r.chance(1, 2) { 0 } else { p.headers.len() }; p.headers.insert(j, ("IC-Certificate".into(), r.pick(&["x", "certificate=:AA:, tree=:AA:"]).to_string())); }
    (q, p, can, now, min, note.join(" "), dup)
}
fn run(c: &mut Ctx, kind: &str) {
    c.rule("verify_request_response_pair accepts exactly what a reference verifier accepts, and hands out what that says, for signed certificates over generated trees (asset or expression trees, pruned at random) with changed requests, responses, headers, versions and expression paths");
    let mut memo = Memo::default();
    let per = if kind == "C27" { 8 } else { 24 };
    let cap = if c.thorough { 60_000 } else { 6_000 };
    let mut k = 0;
    while !c.done() && k < cap {
        k += 1;
        memo.0.clear();
        // now and then a body of several million bytes, decoded from a much shorter one
        let huge = if kind == "C27" && k <= 60 && k % 5 == 0 { [1_050_000, 2_100_001, 4_200_000, 5_000_001, 8_400_000, 10_500_000, 16_800_001, 10_000, 33_600_000, 3_000_000, 6_300_000, 20_000_000][k / 5 - 1] } else { 0 };
        HUGE.with(|h| h.set(huge));
        let mut s = scene(&mut c.rng, kind);
        HUGE.with(|h| h.set(0));
        for i in 0..if huge > 0 { 2 } else { per } {
            let keep = s.expr.clone();
            let keept = s.tree.clone();
            let mut extra = "";
            if i > 0 && s.expr.is_some() && c.rng.chance(1, 6) { s.expr = if c.rng.chance(1, 5) { None } else { let mut e = c.rng.pick(&s.exprs).clone(); if c.rng.chance(1, 6) { let j = c.rng.below(e.len()); e[j] = near(&mut c.rng, &e[j].clone()).into_iter().filter(|b| *b < 128).collect(); } Some(e) }; extra = " other expression path"; }
            if i > 0 && c.rng.chance(1, 8) { s.tree = prune(&mut c.rng, &s.tree.clone(), &[], &[], 4); extra = " pruned more"; }
            if i > 0 && kind != "C22" && c.rng.chance(1, 30) { s.tree = T::F(Box::new(s.tree.clone()), Box::new(T::E)); extra = " other tree"; }
            let (q, p, can, now, min, note, _) = if i == 0 { let t = head_text(&mut c.rng, &s); let mut p = s.p.clone(); p.headers.push(("IC-Certificate".into(), t)); (s.q.clone(), p, s.canister.clone(), s.now, 0, "as built".to_string(), false) } else { mutate(&mut c.rng, &s, kind) };
            let root = if c.rng.chance(1, 40) { key(9).der } else { s.key.der.clone() };
            one(c, kind, &mut memo, &s.texts, &Args { q: &q, p: &p, canister: &can, now, off: s.off, root: &root, min }, &format!("{note}{extra}"));
            if c.violation.is_some() { return; }
            s.expr = keep;
            s.tree = keept;
        }
    }
}
pub fn c19(c: &mut Ctx) { run(c, "C19") }
pub fn c20(c: &mut Ctx) { run(c, "C20") }
pub fn c21(c: &mut Ctx) { run(c, "C21") }
pub fn c22(c: &mut Ctx) { run(c, "C22") }
pub fn c26(c: &mut Ctx) { run(c, "C26") }
pub fn c27(c: &mut Ctx) { run(c, "C27") }
