//! C24 C25 C28: the asset router against a reference written from its documentation.
use crate::core::*;
use crate::model::*;
use crate::p_cert::{full_dir, key, leb_enc, sign, Key};
use crate::p_paths::{full, P};
use crate::p_resp::{accepts, url_path, Args, Memo, Texts};
use crate::refhttp::*;
use ic_asset_certification as ac;
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetMap, AssetRedirectKind, AssetRouter};
use ic_http_certification as hc;
use ic_response_verification::verify_request_response_pair;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const CHUNK: usize = 2_000_000;
const CANISTER: &[u8] = &[0, 1, 2, 3, 1, 1];
const TIME: u64 = 1_700_000_000_000_000_000;
const ENCS: &[(&str, &str)] = &[("br", ".br"), ("zstd", ".zst"), ("gzip", ".gz"), ("deflate", ".zz"), ("identity", "")];
fn encoding(e: &str) -> AssetEncoding {
    match e { "br" => AssetEncoding::Brotli, "zstd" => AssetEncoding::Zstd, "gzip" => AssetEncoding::Gzip, "deflate" => AssetEncoding::Deflate, _ => AssetEncoding::Identity }
}
fn rank(e: &str) -> usize { ["br", "zstd", "gzip", "deflate", "*", "identity"].iter().position(|x| *x == e).unwrap_or(4) }

// ---------------------------------------------------------------- the reference
type Enc = Option<String>;
/// A configured response, before it is cut into ranges.
#[derive(Clone, Debug, PartialEq)]
struct M { status: u16, headers: Hs, body: Rc<Vec<u8>>, owner: String, url: String }
#[derive(Default, Clone)]
struct Model { stat: BTreeMap<(String, Enc), M>, fall: BTreeMap<(String, Enc), M> }
#[derive(Clone, Debug)]
enum Conf {
    File { path: String, ct: Enc, headers: Hs, fall: Vec<(String, Option<u16>)>, alias: Vec<String>, encs: Vec<(String, String)> },
    Pat { pat: String, ct: Enc, headers: Hs, encs: Vec<(String, String)> },
    Redir { from: String, to: String, perm: bool },
}
/// `*` stands for any text.
fn glob(p: &str, s: &str) -> bool {
    match p.find('*') {
        None => p == s,
        Some(i) => s.starts_with(&p[..i]) && s.len() >= i && (i..=s.len()).any(|j| s.is_char_boundary(j) && glob(&p[i + 1..], &s[j..])),
    }
}
impl Conf {
    fn build(&self) -> AssetConfig {
        let es = |e: &Vec<(String, String)>| e.iter().map(|(a, b)| encoding(a).custom_config(b.clone())).collect::<Vec<_>>();
        match self {
            Conf::File { path, ct, headers, fall, alias, encs } => AssetConfig::File {
                path: path.clone(), content_type: ct.clone(), headers: headers.clone(), aliased_by: alias.clone(), encodings: es(encs),
                fallback_for: fall.iter().map(|(s, c)| AssetFallbackConfig { scope: s.clone(), status_code: c.map(|c| hc::StatusCode::from_u16(c).unwrap()) }).collect(),
            },
            Conf::Pat { pat, ct, headers, encs } => AssetConfig::Pattern { pattern: pat.clone(), content_type: ct.clone(), headers: headers.clone(), encodings: es(encs) },
            Conf::Redir { from, to, perm } => AssetConfig::Redirect { from: from.clone(), to: to.clone(), kind: if *perm { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary } },
        }
    }
    fn matches(&self, a: &str) -> bool { match self { Conf::File { path, .. } => path == a, Conf::Pat { pat, .. } => glob(pat, a), _ => false } }
}
type Assets = BTreeMap<String, Rc<Vec<u8>>>;
fn url_of(p: &str) -> String { if p.starts_with('/') { p.to_string() } else { format!("/{p}") } }
/// What a batch writes: fallback or not, key, response.
fn writes(assets: &Assets, confs: &[Conf]) -> Vec<(bool, (String, Enc), M)> {
    let mut o = vec![];
    for (a, content) in assets {
        let conf = confs.iter().find(|c| c.matches(a));
        let (ct, headers, encs) = match conf { Some(Conf::File { ct, headers, encs, .. }) | Some(Conf::Pat { ct, headers, encs, .. }) => (ct.clone(), headers.clone(), encs.clone()), _ => (None, vec![], vec![]) };
        let mut variants: Vec<(Enc, Rc<Vec<u8>>)> = encs.iter().filter_map(|(e, post)| assets.get(&format!("{a}{post}")).map(|b| (Some(e.clone()), b.clone()))).collect();
        variants.push((None, content.clone()));
        for (e, body) in variants {
            let mut hs = headers.clone();
            if let Some(t) = &ct { hs.push(("content-type".into(), t.clone())); }
            if let Some(e) = &e { hs.push(("content-encoding".into(), e.clone())); }
            let m = |url: &str, status| M { status, headers: hs.clone(), body: body.clone(), owner: a.clone(), url: url.into() };
            o.push((false, (url_of(a), e.clone()), m(&url_of(a), 200)));
            if let Some(Conf::File { fall, alias, .. }) = conf {
                for (s, c) in fall { o.push((true, (s.clone(), e.clone()), m(&url_of(a), c.unwrap_or(200)))); }
                for l in alias { o.push((false, (l.clone(), e.clone()), m(l, 200))); }
            }
        }
    }
    for c in confs {
        if let Conf::Redir { from, to, perm } = c {
            o.push((false, (from.clone(), None), M { status: if *perm { 301 } else { 307 }, headers: vec![("location".into(), to.clone())], body: Rc::new(vec![]), owner: format!("redirect {from}"), url: from.clone() }));
        }
    }
    o
}
/// Whether what the batch leaves depends on the order in which its assets are taken.
fn clash(w: &[(bool, (String, Enc), M)]) -> bool {
    w.iter().any(|a| w.iter().any(|b| (a.0, &a.1) == (b.0, &b.1) && a.2.owner != b.2.owner && !b.2.owner.starts_with("redirect") && !a.2.owner.starts_with("redirect")))
        || w.iter().any(|a| w.iter().any(|b| (a.0, &a.1) == (b.0, &b.1) && a.2.owner == b.2.owner && a.2 != b.2 && !b.2.owner.starts_with("redirect")))
}
fn cel_for(chunk: Option<usize>) -> Cel { Cel::Of { req: Some((if chunk.is_some() { vec!["range".into()] } else { vec![] }, vec![])), incl: false, names: vec![] } }
impl M {
    fn starts(&self) -> Vec<Option<usize>> { let mut v = vec![None]; if self.body.len() > CHUNK { let mut b = 0; while b < self.body.len() { v.push(Some(b)); b += CHUNK; } } v }
    /// The response without its expression header.
    fn resp(&self, chunk: Option<usize>) -> Resp {
        let (status, body, range) = match chunk {
            None => (self.status, self.body.to_vec(), None),
            Some(b) => { let e = (b + CHUNK).min(self.body.len()); (206, self.body[b..e].to_vec(), Some(format!("bytes {b}-{}/{}", e - 1, self.body.len()))) }
        };
        let mut headers = vec![("content-length".to_string(), body.len().to_string())];
        headers.extend(self.headers.clone());
        if let Some(r) = range { headers.push(("content-range".into(), r)); }
        Resp { status, headers, body }
    }
    fn request(&self, chunk: Option<usize>) -> Req {
        let headers = match chunk { Some(b) if b > 0 => vec![("range".to_string(), format!("bytes={b}-"))], _ => vec![] };
        Req { method: "GET".into(), url: self.url.clone(), headers, body: vec![] }
    }
    /// The entry of the tree for the response.
    fn at(&self, wild: Option<&str>, chunk: Option<usize>) -> P {
        let c = cel_for(chunk);
        let mut p = full(&segs(wild.unwrap_or(&self.url)), if wild.is_some() { b"<*>" } else { b"<$>" });
        let mut r = self.resp(chunk);
        r.headers.push(("ic-certificateexpression".into(), c.text()));
        p.extend(c.tree_path(&self.request(chunk), &r));
        p
    }
    fn entry(&self, wild: Option<&str>, chunk: Option<usize>) -> hc::HttpCertificationTreeEntry<'static> {
        let c = cel_for(chunk);
        let mut r = self.resp(chunk);
        r.headers.push(("ic-certificateexpression".into(), c.text()));
        let path = match wild { Some(s) => hc::HttpCertificationPath::wildcard(s.to_string()), None => hc::HttpCertificationPath::exact(self.url.clone()) };
        hc::HttpCertificationTreeEntry::new(path, c.certify(&self.request(chunk), &r, None).unwrap())
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Sel { Stat((String, Enc), Option<usize>), Fall((String, Enc)) }
impl Model {
    fn put(&mut self, w: &[(bool, (String, Enc), M)]) { for (f, k, m) in w { if *f { self.fall.insert(k.clone(), m.clone()); } else { self.stat.insert(k.clone(), m.clone()); } } }
    fn take(&mut self, w: &[(bool, (String, Enc), M)]) { for (f, k, _) in w { if *f { self.fall.remove(k); } else { self.stat.remove(k); } } }
    /// What a request with this decoded path, these accepted encodings and this range start selects.
    fn select(&self, path: &str, encs: &[Enc], range: Option<usize>) -> Option<Sel> {
        for e in encs {
            let k = (path.to_string(), e.clone());
            if let Some(m) = self.stat.get(&k) {
                if m.body.len() <= CHUNK { return Some(Sel::Stat(k, None)); }
                let b = range.unwrap_or(0);
                if b % CHUNK == 0 && b < m.body.len() { return Some(Sel::Stat(k, Some(b))); }
            }
        }
        if self.stat.keys().any(|k| k.0 == path) { return None; }
        let mut scopes = vec![path.to_string()];
        let mut p = path;
        loop {
            if let Some(i) = p.rfind('/') { scopes.push(p[..=i].to_string()); scopes.push(p[..i].to_string()); p = &p[..i]; } else { break; }
        }
        for s in scopes { for e in encs { let k = (s.clone(), e.clone()); if self.fall.contains_key(&k) { return Some(Sel::Fall(k)); } } if self.fall.keys().any(|k| k.0 == s) { return None; } }
        None
    }
}
fn accepted(h: &Hs) -> Vec<Enc> {
    let mut v: Vec<Enc> = vec![];
    if let Some((_, l)) = h.iter().find(|x| low(&x.0) == "accept-encoding") {
        let mut n: Vec<String> = l.split(',').map(|x| x.split(';').next().unwrap().trim().to_string()).collect();
        n.sort_by_key(|x| rank(x));
        v.extend(n.into_iter().map(Some));
    }
    v.push(None);
    v
}
/// None: no range header, Some(None): malformed.
fn range(h: &Hs) -> Option<Option<usize>> {
    let (_, v) = h.iter().find(|x| low(&x.0) == "range")?;
    let f = || {
        let v = v.trim().strip_prefix("bytes=")?;
        let (a, b) = v.split_once('-')?;
        let num = |x: &str| if !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()) { x.parse::<usize>().ok() } else { None };
        let a = num(a)?;
        if !b.is_empty() && num(b)? < a { return None; }
        Some(a)
    };
    Some(f())
}

// ---------------------------------------------------------------- the router
struct World { tree: Rc<RefCell<hc::HttpCertificationTree>>, router: AssetRouter<'static>, model: Model, seen: BTreeMap<P, (Option<String>, M, Option<usize>, hc::HttpCertificationTreeEntry<'static>)>, live: BTreeMap<(bool, (String, Enc), Option<usize>), P>, log: Vec<String>, key: Key, cert: Option<(H, Vec<u8>)>, memo: Memo, texts: Texts }
fn world(r: &mut Rng) -> World {
    let tree: Rc<RefCell<hc::HttpCertificationTree>> = Default::default();
    let texts = [cel_for(None), cel_for(Some(0))].into_iter().map(|c| (c.text(), c)).collect();
    World { router: AssetRouter::with_tree(tree.clone()), tree, model: Model::default(), seen: BTreeMap::new(), live: BTreeMap::new(), log: vec![], key: key(1 + r.below(3) as u8), cert: None, memo: Memo::default(), texts }
}
fn cut(b: &[u8]) -> String { if b.len() > 40 { format!("{} bytes, sha {}", b.len(), hex(&sha(&[b]))) } else { show(b) } }
/// Some paths are given twice in a batch: the last one counts.
fn twice(p: &str) -> bool { p.bytes().map(|b| b as usize).sum::<usize>() % 3 == 0 }
fn show_assets(a: &Assets) -> String { a.iter().map(|(p, b)| format!("{}{p}: {}", if twice(p) { format!("{p}: \"stale\", ") } else { String::new() }, cut(b))).collect::<Vec<_>>().join(", ") }
fn real_assets(a: &Assets) -> Vec<Asset<'static, 'static>> {
    let stale = a.keys().filter(|p| twice(p)).map(|p| Asset::new(p.clone(), b"stale".to_vec()));
    stale.chain(a.iter().map(|(p, b)| Asset::new(p.clone(), b.to_vec()))).collect()
}
#[derive(Clone)]
enum Op { Add(Assets, Vec<Conf>), Del(Assets, Vec<Conf>), Clear }
impl Op { fn show(&self) -> String { match self { Op::Add(a, c) => format!("certify {{{}}} with {c:?}", show_assets(a)), Op::Del(a, c) => format!("delete {{{}}} with {c:?}", show_assets(a)), Op::Clear => "delete all".into() } } }
impl World {
    fn step(&mut self, c: &mut Ctx, prop: &str, o: &Op) -> bool {
        self.log.push(o.show());
        let log = self.log.clone();
        let d = move || log.join("; ");
        let router = &mut self.router;
        let (a, cs) = match o { Op::Add(a, c) | Op::Del(a, c) => (real_assets(a), c.iter().map(|x| x.build()).collect::<Vec<_>>()), Op::Clear => (vec![], vec![]) };
        let got = c.guard(&format!("{prop}-panic"), &d, || match o { Op::Add(..) => router.certify_assets(a, cs), Op::Del(..) => router.delete_assets(a, cs), Op::Clear => { router.delete_all_assets(); Ok(()) } });
        let Some(got) = got else { return false };
        if let Err(e) = got { c.fail(&format!("{prop}-refused"), d(), format!("refused: {e}")); return false; }
        match o {
            Op::Add(a, cs) => {
                let w = writes(a, cs);
                self.model.put(&w);
                for (f, k, _) in &w {
                    self.live.retain(|x, _| (x.0, &x.1) != (*f, k));
                    let m = if *f { &self.model.fall[k] } else { &self.model.stat[k] };
                    let wild = if *f { Some(k.0.clone()) } else { None };
                    for s in if *f { vec![None] } else { m.starts() } {
                        let at = m.at(wild.as_deref(), s);
                        self.live.insert((*f, k.clone(), s), at.clone());
                        self.seen.entry(at).or_insert_with(|| (wild.clone(), m.clone(), s, m.entry(wild.as_deref(), s)));
                    }
                }
            }
            Op::Del(a, cs) => { let w = writes(a, cs); self.model.take(&w); for (f, k, _) in &w { self.live.retain(|x, _| (x.0, &x.1) != (*f, k)); } }
            Op::Clear => { self.model = Model::default(); self.live.clear(); }
        }
        true
    }
    /// Every entry ever certified is provable exactly when it is still configured.
    fn entries(&mut self, c: &mut Ctx, prop: &str) {
        let log = self.log.clone();
        let d = move || log.join("; ");
        let live: BTreeSet<&P> = self.live.values().collect();
        let tree = self.tree.clone();
        let root = tree.borrow().root_hash();
        let empty = T::L(b"http_expr".to_vec(), Box::new(T::E)).digest();
        c.check(live.is_empty() == (root == empty), &format!("{prop}-empty"), &d, &|| format!("root hash {} with {} configured responses", hex(&root), live.len()));
        c.check(self.router.root_hash() == root, &format!("{prop}-root"), &d, &|| "the router's root hash is not its tree's".to_string());
        for (at, (w, m, s, e)) in &self.seen {
            let url = w.clone().unwrap_or(m.url.clone());
            let what = || format!("response for {url:?} (fallback: {}) range {s:?} owner {} after {}", w.is_some(), m.owner, d());
            let Some(t) = c.guard(&format!("{prop}-panic"), &what, || tree.borrow().witness(e, &url).map(|x| T::of(&x))) else { return };
            let there = match &t { Ok(t) => matches!(subtree(t, at), Find::Found(_)), Err(_) => false };
            let want = live.contains(at);
            c.check(there == want, &format!("{prop}-{}", if want { "lost" } else { "left" }), &what, &|| format!("{} the tree, although it is {}configured", if there { "the entry is in" } else { "the entry is not in" }, if want { "" } else { "no longer " }));
            if c.violation.is_some() { return; }
        }
    }
    fn certificate(&mut self, r: &mut Rng) -> Vec<u8> {
        let root = self.router.root_hash();
        if let Some((h, b)) = &self.cert { if *h == root { return b.clone(); } }
        let cans = full_dir(r, vec![(CANISTER.to_vec(), T::L(b"certified_data".to_vec(), Box::new(T::V(root.to_vec()))))]);
        let ct = full_dir(r, vec![(b"time".to_vec(), T::V(leb_enc(TIME))), (b"canister".to_vec(), cans)]);
        let sig = sign(&self.key, &ct.digest());
        let b = crate::p_cert::encode(&(ct, sig, None));
        self.cert = Some((root, b.clone()));
        b
    }
    fn ask(&mut self, c: &mut Ctx, prop: &str, q: &Req) {
        let cert = self.certificate(&mut c.rng);
        let log = self.log.join("; ");
        let d = || format!("{} after {log}", q.show());
        let router = &self.router;
        let req = q.build();
        let Some(got) = c.guard(&format!("{prop}-panic"), &d, || router.serve_asset(&cert, &req).map_err(|e| e.to_string())) else { return };
        let Some(path) = url_path(&q.url) else { return };
        let rg = range(&q.headers);
        let encs = accepted(&q.headers);
        let want = match rg { Some(None) => None, Some(Some(b)) => self.model.select(&path, &encs, Some(b)), None => self.model.select(&path, &encs, None) };
        c.case(&format!("{} {want:?} {}", q.show(), c.evaluations % 4096), want.is_some());
        let (got, want) = match (got, want) {
            (Err(_), None) => return,
            (Ok(g), None) => { let s = g.status_code(); c.fail(&format!("{prop}-served"), d(), format!("answered with {s}, {:?} and {}, although nothing matches", g.headers(), cut(g.body()))); return; }
            (Err(e), Some(w)) => { c.fail(&format!("{prop}-not-served"), d(), format!("refused ({e}) instead of answered with {w:?}")); return; }
            (Ok(g), Some(w)) => (g, w),
        };
        let (m, chunk) = match &want { Sel::Stat(k, s) => (&self.model.stat[k], *s), Sel::Fall(k) => (&self.model.fall[k], None) };
        let exp = m.resp(chunk);
        let got = Resp { status: got.status_code().as_u16(), headers: got.headers().to_vec(), body: got.body().to_vec() };
        let mut hs: Hs = got.headers.iter().filter(|h| !low(&h.0).starts_with("ic-certificate")).map(|h| (low(&h.0), h.1.clone())).collect();
        hs.sort();
        let mut eh: Hs = exp.headers.iter().map(|h| (low(&h.0), h.1.clone())).collect();
        eh.sort();
        c.check(got.status == exp.status, &format!("{prop}-status"), &d, &|| format!("status {} instead of {} of {want:?}", got.status, exp.status));
        c.check(got.body == exp.body, &format!("{prop}-body"), &d, &|| format!("body {} instead of {} of {want:?}", cut(&got.body), cut(&exp.body)));
        c.check(hs == eh, &format!("{prop}-headers"), &d, &|| format!("headers {hs:?} instead of {eh:?} of {want:?}"));
        if c.violation.is_some() { return; }
        // the gateway's side
        let verifies = |q: &Req| verify_request_response_pair(q.build(), got.build(), CANISTER, TIME as u128, 5, &self.key.der, 2).map_err(|e| e.to_string());
        let what = || format!("{} served {want:?} with headers {:?} after {log}", q.show(), got.headers);
        let Some(v) = c.guard(&format!("{prop}-panic"), &what, || verifies(q)) else { return };
        // certified are: no query, no range header for the first range, and one spelling of it for the others
        let mut why = vec![];
        let mut cq = q.clone();
        let canon = m.request(chunk).headers;
        let spelled: Hs = q.headers.iter().filter(|h| low(&h.0) == "range").map(|h| ("range".into(), h.1.clone())).collect();
        if chunk.is_some() && spelled != canon {
            why.push("range-spelling");
            cq.headers.retain(|h| low(&h.0) != "range");
            cq.headers.extend(canon);
        }
        if let Some(i) = q.url.find('?') { why.push("query"); cq.url.truncate(i); }
        match v {
            Err(e) if !why.is_empty() => {
                if let Err(f) = verifies(&cq) { c.fail(&format!("{prop}-unverified"), what(), format!("the response does not verify ({e}), nor for the request as certified ({f})")); return; }
                if prop == "C24" { for w in why { c.fail(&format!("{prop}-{w}"), what(), format!("the response does not verify ({e}); it does for the request {}", cq.show())); } }
                return;
            }
            Err(e) => { c.fail(&format!("{prop}-unverified"), what(), format!("the response does not verify: {e}")); return; }
            Ok(i) => { let b = i.response.map(|x| (x.status_code, x.body)); c.check(b == Some((Some(exp.status), exp.body.clone())), &format!("{prop}-verified"), &what, &|| "the verified response is not the one served".to_string()); }
        }
        let a = Args { q, p: &got, canister: CANISTER, now: TIME as u128, off: 5, root: &self.key.der, min: 2 };
        if last(&got.headers, "ic-certificateexpression").map_or(false, |t| self.texts.contains_key(t)) {
            let ok = accepts(&mut self.memo, &self.texts, &a);
            c.check(ok, &format!("{prop}-unverified-reference"), &what, &|| "the response does not verify by the specification".to_string());
        }
    }
    /// The maps the router shows hold exactly what is configured.
    fn maps(&self, c: &mut Ctx, prop: &str) {
        let log = self.log.join("; ");
        let d = || log.clone();
        let n: usize = self.model.stat.values().map(|m| m.starts().len()).sum();
        let got = (self.router.get_assets().len(), self.router.get_fallback_assets().len());
        c.check(got == (n, self.model.fall.len()), &format!("{prop}-maps"), &d, &|| format!("{got:?} responses and fallbacks instead of {:?}", (n, self.model.fall.len())));
        for (k, m) in &self.model.stat {
            for s in m.starts() {
                let g = self.router.get_assets().get(k.0.clone(), k.1.as_deref().map(encoding), s).map(|r| (r.status_code().as_u16(), r.body().to_vec()));
                let w = m.resp(s);
                c.check(g == Some((w.status, w.body)), &format!("{prop}-maps"), &d, &|| format!("the map has {:?} for {k:?} {s:?}", g.as_ref().map(|g| (g.0, cut(&g.1)))));
            }
        }
    }
}
fn last<'a>(h: &'a Hs, n: &str) -> Option<&'a String> { h.iter().rev().find(|(k, _)| low(k) == n).map(|x| &x.1) }

// ---------------------------------------------------------------- generators
const NAMES: &[&str] = &["index.html", "app.js", "a/index.html", "/app.css", "a/b.css", "a", "a/b", "a/", "404.html", "/", "b/c/d.js", "%C3%A9.txt", "%3C*%3E", "http_expr", "a-b_~.x"];
const SCOPES: &[&str] = &["/", "/a", "/a/", "/a/b", "/a/b/", "/b", "/b/", "", "/b/c", "/app.js", "/http_expr", "/a/b.css"];
fn content(r: &mut Rng, big: bool) -> Rc<Vec<u8>> {
    let n = if big { match r.below(6) { 0 => CHUNK + 1, 1 => CHUNK * 2, 2 => CHUNK * 2 + 1, 3 => CHUNK * 2 - 1, 4 => CHUNK * 3 + r.below(CHUNK), _ => CHUNK + r.below(CHUNK) } } else if r.chance(1, 40) { CHUNK - r.below(2) } else { r.below(8) };
    let mut b = vec![0u8; n];
    let (x, k) = (r.u64() as u8, r.u64() as u8 | 1);
    for (i, v) in b.iter_mut().enumerate() { *v = x.wrapping_add((i as u8).wrapping_mul(k)).wrapping_add((i >> 9) as u8); }
    Rc::new(b)
}
fn heads(r: &mut Rng) -> Hs {
    let mut v = vec![];
    for _ in 0..r.below(3) { v.push((r.pick(&["cache-control", "X-Frame-Options", "x-a", "set-cookie"]).to_string(), value(r))); }
    v
}
fn batch(r: &mut Rng, big: usize) -> (Assets, Vec<Conf>) {
    loop {
        let mut a = Assets::new();
        let mut confs = vec![];
        let n = r.range(1, 3);
        for _ in 0..n {
            let name = r.pick(NAMES).to_string();
            let mut encs: Vec<(String, String)> = vec![];
            if r.chance(1, 2) {
                for (e, post) in ENCS { if r.chance(1, 3) { let p = if r.chance(1, 6) { format!(".{e}x") } else { post.to_string() }; encs.push((e.to_string(), p)); } }
                r.shuffle(&mut encs);
            }
            let g = r.chance(big, 100);
            a.insert(name.clone(), content(r, g));
            for (_, post) in &encs { if r.chance(4, 5) { let b = r.chance(big, 100); let x = content(r, b); a.entry(format!("{name}{post}")).or_insert(x); } }
            let ct = if r.chance(1, 2) { Some(r.pick(&["text/html", "text/css; charset=utf-8", ""]).to_string()) } else { None };
            let headers = heads(r);
            match r.below(6) {
                0 => {}
                1 => confs.push(Conf::Pat { pat: r.pick(&["*", "*.js", "*.css", "a*", "*.html", "a/*"]).to_string(), ct, headers, encs }),
                _ => {
                    let fall = (0..r.below(3)).map(|_| (r.pick(SCOPES).to_string(), *r.pick(&[None, None, Some(404u16), Some(200), Some(503)]))).collect();
                    let alias = (0..r.below(3)).map(|_| r.pick(&["/", "/index", "/a", "/a/", "/b/c", "/app.js", "/alias/x", "/é".to_string().as_str()]).to_string()).filter(|x| x.is_ascii()).collect();
                    confs.push(Conf::File { path: name, ct, headers, fall, alias, encs });
                }
            }
        }
        if r.chance(1, 4) { let to = r.pick(&["/new", "/", "https://x.y/z", "/app.js"]).to_string(); confs.push(Conf::Redir { from: r.pick(&["/old", "/a", "/index.html", "/old/x", "/b/c"]).to_string(), to, perm: r.chance(1, 2) }); }
        if r.chance(1, 3) { r.shuffle(&mut confs); }
        if !clash(&writes(&a, &confs)) { return (a, confs); }
    }
}
/// A batch that may be deleted: everything it names is of the owner that was written last.
fn deletable(m: &Model, a: &Assets, cs: &[Conf]) -> bool {
    writes(a, cs).iter().all(|(f, k, x)| match if *f { m.fall.get(k) } else { m.stat.get(k) } { Some(y) => y.owner == x.owner, None => true })
}
fn requests(r: &mut Rng, m: &Model, n: usize) -> Vec<Req> {
    let mut urls: Vec<(String, usize)> = m.stat.iter().map(|(k, v)| (k.0.clone(), v.body.len())).collect();
    for k in m.fall.keys() {
        let s = &k.0;
        for x in ["", "x", "/x", "/", "/a/b"] { let u = format!("{s}{x}"); if u.starts_with('/') && !u.contains("//") { urls.push((u, 0)); } }
    }
    for u in ["/", "/a", "/a/b", "/a/b/c", "/nope", "/index.html", "/a/index.html/x", "/app.js"] { urls.push((u.into(), 0)); }
    (0..n).map(|_| {
        let (u, len) = r.pick(&urls).clone();
        let mut url = String::new();
        for ch in u.chars() { if "%<>".contains(ch) || (ch.is_ascii_alphanumeric() && r.chance(1, 40)) || !ch.is_ascii() { let mut b = [0; 4]; for x in ch.encode_utf8(&mut b).bytes() { url.push_str(&format!("%{x:02X}")); } } else { url.push(ch); } }
        if r.chance(1, 8) { url.push_str(*r.pick(&["?", "?a=b", "?range=1"])); }
        let mut headers = vec![];
        if r.chance(1, 2) {
            let k = r.range(1, 4);
            let mut l: Vec<String> = vec![];
            for _ in 0..k { let e = r.pick(&["br", "zstd", "gzip", "deflate", "identity", "*"]).to_string(); if !l.iter().any(|x| *x == e) { l.push(e); } }
            let l: Vec<String> = l.into_iter().map(|e| if r.chance(1, 5) { format!("{e};q=0.{}", r.below(9) + 1) } else { e }).collect();
            headers.push((r.pick(&["accept-encoding", "Accept-Encoding"]).to_string(), l.join(*r.pick(&[",", ", "]))));
        }
        if r.chance(1, 4) { headers.push(("x-other".into(), "1".into())); }
        if len > CHUNK && r.chance(3, 4) || r.chance(1, 10) {
            let top = len.max(1).div_ceil(CHUNK);
            let b = match r.below(12) { 0 => len, 1 => len.saturating_sub(1), 2 => r.below(len + 2), 3 => CHUNK * top, 4 => 0, _ => CHUNK * r.below(top) };
            let t = match r.below(24) { 0 => format!("bytes={b}"), 1 => format!("bytes=-{b}"), 2 => format!("bytes={b}-x"), 3 => format!("octets={b}-"), 4 => String::new(), 5 => format!("bytes={}-{b}", b + 1), 6 => format!("bytes=0-1,{b}-"), 7 => "bytes=99999999999999999999-".into(), 8 => format!("bytes={b}-{}", b + 9), 9 => format!(" bytes={b}- "), _ => format!("bytes={b}-") };
            headers.push((r.pick(&["range", "Range", "RANGE"]).to_string(), t));
        }
        r.shuffle(&mut headers);
        Req { method: "GET".into(), url, headers, body: vec![] }
    }).collect()
}
fn history(c: &mut Ctx, prop: &str, big: usize) {
    let mut w = world(&mut c.rng);
    let n = c.rng.range(1, 6);
    let mut old: Vec<(Assets, Vec<Conf>)> = vec![];
    for i in 0..n {
        let o = match c.rng.below(if prop == "C25" { 8 } else { 14 }) {
            0 if i > 0 => { old.clear(); Op::Clear }
            1..=4 if !old.is_empty() => {
                let j = c.rng.below(old.len());
                let (mut a, cs) = old[j].clone();
                if c.rng.chance(1, 5) { for b in a.values_mut() { *b = Rc::new(vec![]); } }
                if a.len() > 1 && c.rng.chance(1, 5) { let k = c.rng.below(a.len()); let k = a.keys().nth(k).unwrap().clone(); a.remove(&k); } else { old.remove(j); }
                if !deletable(&w.model, &a, &cs) { continue; }
                Op::Del(a, cs)
            }
            5 | 6 if !old.is_empty() => {
                // the same again with other content
                let j = c.rng.below(old.len());
                let (mut a, cs) = old[j].clone();
                for b in a.values_mut() { if c.rng.chance(1, 2) { let g = c.rng.chance(big, 100); *b = content(&mut c.rng, g); } }
                if clash(&writes(&a, &cs)) { continue; }
                old.push((a.clone(), cs.clone()));
                Op::Add(a, cs)
            }
            _ => { let (a, cs) = batch(&mut c.rng, big); old.push((a.clone(), cs.clone())); Op::Add(a, cs) }
        };
        if !w.step(c, prop, &o) { return; }
        if prop == "C25" || c.rng.chance(1, 4) { w.entries(c, prop); if c.violation.is_some() { return; } }
        if prop == "C25" { w.maps(c, prop); }
        let k = if prop == "C24" { 6 } else { 2 };
        let qs = requests(&mut c.rng, &w.model, k);
        for q in &qs { w.ask(c, prop, q); if c.violation.is_some() { return; } }
    }
    if prop == "C25" {
        let mut all: Vec<(Assets, Vec<Conf>)> = old;
        all.reverse();
        for (a, cs) in all { if deletable(&w.model, &a, &cs) { if !w.step(c, prop, &Op::Del(a, cs)) { return; } } }
        w.entries(c, prop);
        w.maps(c, prop);
    }
}
fn file(p: &str, fall: &[&str], alias: &[&str]) -> Conf { Conf::File { path: p.into(), ct: None, headers: vec![], fall: fall.iter().map(|x| (x.to_string(), None)).collect(), alias: alias.iter().map(|x| x.to_string()).collect(), encs: vec![] } }
pub fn c24(c: &mut Ctx) {
    c.rule("histories of certifying and deleting assets with generated configurations; every request is answered with the response a reference router selects, or an error where it selects none, and the gateway's verification (the crate's and the reference verifier's) accepts the response against the router's root hash");
    // exhaustive: pairs of scopes, all requests at and below them
    let urls = ["/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/b", "/b/", "/b/c/d", "/app.js", "/app.js/", "/a/b.css", "/http_expr", "/http_expr/x", "/x"];
    let mut done = true;
    'o: for s in SCOPES { for t in SCOPES { for own in ["index.html", "a"] {
        let mut w = world(&mut c.rng);
        let a: Assets = [(own, vec![1u8]), ("z", vec![2])].into_iter().map(|(p, b)| (p.to_string(), Rc::new(b))).collect();
        let cs = vec![file(own, &[s], &[]), file("z", if s == t { &[] } else { std::slice::from_ref(t) }, &[])];
        if !w.step(c, "C24", &Op::Add(a, cs)) { return; }
        for u in urls { w.ask(c, "C24", &Req { method: "GET".into(), url: u.into(), headers: vec![], body: vec![] }); }
        if c.violation.is_some() { return; }
        if c.past(0.4) { done = false; break 'o; }
    } } }
    if done { c.exhaustive_parts.push(format!("all pairs of {} fallback scopes with an asset below and at one of them, for {} requests", SCOPES.len(), urls.len())); }
    let mut k = 0;
    while !c.done() && k < if c.thorough { 20_000 } else { 1_500 } { k += 1; let big = if k % 6 == 1 { 30 } else { 0 }; history(c, "C24", big); }
}
pub fn c25(c: &mut Ctx) {
    c.rule("histories of certifying, certifying again, deleting (also with other content, or without some of the files) and deleting everything; every response ever certified is provable exactly as long as it is configured, the router's maps hold exactly the configured responses, and the empty router has the root hash of an empty tree");
    let mut k = 0;
    while !c.done() && k < if c.thorough { 20_000 } else { 1_500 } { k += 1; let big = if k % 8 == 1 { 30 } else { 0 }; history(c, "C25", big); }
}
pub fn c28(c: &mut Ctx) {
    c.rule("assets of sizes around multiples of the chunk size, plain, encoded, aliased and with an unrelated fallback; the ranges answered for successive requests are contiguous, cover the asset, and name the bytes they carry");
    let mut sizes: Vec<usize> = vec![0, 1, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK - 1, 2 * CHUNK, 2 * CHUNK + 1, 3 * CHUNK, 3 * CHUNK + 1, 5 * CHUNK, 5 * CHUNK + 7];
    let mut k = 0;
    while !c.done() && k < if c.thorough { 400 } else { 60 } {
        let n = if k < sizes.len() { sizes[k] } else { c.rng.below(4 * CHUNK) };
        if k < sizes.len() && k + 1 == sizes.len() { c.exhaustive_parts.push(format!("sizes {sizes:?}")); }
        k += 1;
        let enc = c.rng.chance(1, 3);
        let (x, y) = (c.rng.u64() as u8, c.rng.u64() as u8 | 1);
        let body: Vec<u8> = (0..n).map(|i| x.wrapping_add((i as u8).wrapping_mul(y)).wrapping_add((i >> 8) as u8)).collect();
        let mut a = Assets::new();
        let body = Rc::new(body);
        a.insert("f".into(), if enc { Rc::new(vec![9]) } else { body.clone() });
        if enc { a.insert("f.gz".into(), body.clone()); }
        let mut cf = file("f", &[], &["/alias"]);
        if let Conf::File { encs, .. } = &mut cf { if enc { encs.push(("gzip".into(), ".gz".into())); } }
        let mut cs = vec![cf];
        if c.rng.chance(1, 2) { a.insert("i".into(), Rc::new(vec![5])); cs.push(file("i", &["/"], &[])); }
        let mut w = world(&mut c.rng);
        if !w.step(c, "C28", &Op::Add(a, cs)) { return; }
        let url = *c.rng.pick(&["/f", "/alias"]);
        let cert = w.certificate(&mut c.rng);
        let mut got: Vec<u8> = vec![];
        let mut steps = 0;
        loop {
            let mut headers = if enc { vec![("accept-encoding".to_string(), "gzip".to_string())] } else { vec![] };
            if steps > 0 || c.rng.chance(1, 2) { headers.push(("range".into(), format!("bytes={}-", got.len()))); }
            let q = Req { method: "GET".into(), url: url.into(), headers, body: vec![] };
            let d = || format!("{} of an asset of {n} bytes (encoded: {enc})", q.show());
            c.case(&d(), n > 0);
            let router = &w.router;
            let req = q.build();
            let Some(r) = c.guard("C28-panic", &d, || router.serve_asset(&cert, &req).map_err(|e| e.to_string())) else { return };
            let r = match r { Ok(r) => r, Err(e) => { c.fail("C28-refused", d(), format!("refused: {e}")); return; } };
            if n <= CHUNK {
                c.check(r.status_code().as_u16() == 200 && r.body() == &body[..] && !r.headers().iter().any(|h| low(&h.0) == "content-range"), "C28-whole", &d, &|| format!("answered with {} and {}", r.status_code(), cut(r.body())));
                break;
            }
            let cr: Vec<String> = r.headers().iter().filter(|h| low(&h.0) == "content-range").map(|h| h.1.clone()).collect();
            let end = got.len() + r.body().len();
            c.check(r.status_code().as_u16() == 206, "C28-status", &d, &|| format!("status {}", r.status_code()));
            c.check(!r.body().is_empty() && end <= n && r.body() == &body[got.len()..end.min(n)], "C28-bytes", &d, &|| format!("the body is {}", cut(r.body())));
            c.check(cr == vec![format!("bytes {}-{}/{n}", got.len(), end.wrapping_sub(1))], "C28-range", &d, &|| format!("content range {cr:?} for the bytes {} to {}", got.len(), end));
            if c.violation.is_some() { return; }
            got.extend_from_slice(r.body());
            steps += 1;
            if got.len() >= n { break; }
        }
        if c.violation.is_some() { return; }
        // requests that name no range of the asset
        for b in [n, n + 1, 1, CHUNK + 1, n.div_ceil(CHUNK) * CHUNK, usize::MAX] {
            let mut headers = vec![("range".to_string(), format!("bytes={b}-"))];
            if enc { headers.push(("Accept-Encoding".into(), "gzip".into())); }
            let q = Req { method: "GET".into(), url: url.into(), headers, body: vec![] };
            w.ask(c, "C28", &q);
        }
        sizes.truncate(sizes.len());
    }
    let _ = ac::ASSET_CHUNK_SIZE;
}
