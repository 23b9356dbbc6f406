//! C17 the HTTP certification tree, C18 path conversion and wildcard precedence.
use crate::core::*;
use crate::model::*;
use crate::refhttp::*;
use ic_http_certification::utils::{is_wildcard_path_valid_for_request_path, more_specific_wildcards_for};
use ic_http_certification::{HttpCertificationPath, HttpCertificationTree, HttpCertificationTreeEntry};

pub type P = Vec<Vec<u8>>;
fn ps(p: &[Vec<u8>]) -> String { format!("[{}]", p.iter().map(|x| show(x)).collect::<Vec<_>>().join(",")) }
const X: &[u8] = b"<$>";
const W: &[u8] = b"<*>";
pub fn full(q: &[Vec<u8>], term: &[u8]) -> P { let mut v = vec![b"http_expr".to_vec()]; v.extend_from_slice(q); v.push(term.to_vec()); v }
pub fn pre(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { b.len() >= a.len() && (0..a.len()).all(|i| a[i] == b[i]) }
/// Whether the wildcard with segments w applies to the request with segments q.
pub fn applies(w: &[Vec<u8>], q: &[Vec<u8>]) -> bool { pre(w, q) || (w.last().map_or(false, |x| x.is_empty()) && pre(&w[..w.len() - 1], q)) }
/// The wildcards that could answer a request, most specific first.
pub fn candidates(q: &[Vec<u8>]) -> Vec<P> {
    let mut v = vec![q.to_vec()];
    let dir = q.last().map_or(false, |x| x.is_empty());
    let n = if dir { q.len() - 1 } else { q.len() };
    // below the request itself, each level as a directory and then without the slash
    if dir { v.push(q[..n].to_vec()); }
    for k in (0..n).rev() { let mut d = q[..k].to_vec(); d.push(vec![]); v.push(d); v.push(q[..k].to_vec()); }
    v
}
/// The wildcards that take precedence over the responding one.
pub fn precede(q: &[Vec<u8>], r: &[Vec<u8>]) -> Vec<P> {
    let c = candidates(q);
    if let Some(i) = c.iter().position(|x| x == r) { return c[..i].to_vec(); }
    // the request's own path with a trailing slash
    if r.len() == q.len() + 1 && pre(q, r) && r[q.len()].is_empty() { return vec![q.to_vec()]; }
    c
}
fn path_case(c: &mut Ctx, p: &str) {
    for wild in [false, true] {
        let d = || format!("{} path {p:?}", if wild { "wildcard" } else { "exact" });
        c.case(&d(), p.len() > 1);
        let got = match c.guard("C18-panic", &d, || if wild { HttpCertificationPath::wildcard(p).to_expr_path() } else { HttpCertificationPath::exact(p).to_expr_path() }) { Some(g) => g, None => return };
        let want = full(&segs(p), if wild { W } else { X });
        let g: P = got.iter().map(|x| x.as_bytes().to_vec()).collect();
        c.check(g == want, "C18-expr-path", &d, &|| format!("expression path {got:?} instead of {}", ps(&want)));
        // the tree keeps the certification at the expression path
        let mut t = HttpCertificationTree::default();
        let r = c.guard("C18-panic", &d, || {
            let hp = if wild { HttpCertificationPath::wildcard(p) } else { HttpCertificationPath::exact(p) };
            let e = HttpCertificationTreeEntry::new(hp, ic_http_certification::HttpCertification::skip());
            t.insert(&e);
            t.witness(&e, p).map(|w| T::of(&w))
        });
        let Some(r) = r else { return };
        match r {
            Ok(w) => {
                let mut fp = want.clone();
                fp.push(sha(&[Cel::Skip.text().as_bytes()]).to_vec());
                c.check(matches!(subtree(&w, &fp), Find::Found(_)), "C18-tree-path", &d, &|| format!("the tree {w:?} has nothing at {}", ps(&fp)));
            }
            Err(e) => { c.check(false, "C18-tree-path", &d, &|| format!("witness fails: {e:?}")); }
        }
    }
}
fn wild_case(c: &mut Ctx, q: &[Vec<u8>], r: &[Vec<u8>]) {
    let d = || format!("request {} responding wildcard {}", ps(q), ps(r));
    c.case(&d(), true);
    for raw in [false, true] {
        // as segments, and with the prefix
        let (a, b) = if raw { (r.to_vec(), q.to_vec()) } else { let (mut a, mut b) = (full(r, W), full(q, X)); a.pop(); b.pop(); (a, b) };
        if let Some(v) = c.guard("C18-panic", &d, || is_wildcard_path_valid_for_request_path(&a, &b)) {
            c.check(v == applies(&a, &b), "C18-applies", &d, &|| format!("is_wildcard_path_valid_for_request_path({}, {}) is {v}", ps(&a), ps(&b)));
        }
    }
    if !applies(r, q) { return; }
    if let Some(v) = c.guard("C18-panic", &d, || more_specific_wildcards_for(&full(q, X), &full(r, W))) {
        let want: Vec<P> = precede(q, r).into_iter().map(|mut x| { x.push(W.to_vec()); x }).collect();
        let (mut a, mut b) = (v.clone(), want.clone());
        a.sort(); a.dedup(); b.sort(); b.dedup();
        c.check(a == b, "C18-more-specific", &d, &|| format!("{:?} instead of {:?}", v.iter().map(|x| ps(x)).collect::<Vec<_>>(), want.iter().map(|x| ps(x)).collect::<Vec<_>>()));
    }
}
fn words(alpha: &[&str], n: usize) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![vec![]];
    let mut lvl = out.clone();
    for _ in 0..n { lvl = lvl.iter().flat_map(|w| alpha.iter().map(move |x| { let mut v = w.clone(); v.push(x.to_string()); v })).collect(); out.extend(lvl.iter().cloned()); }
    out
}
/// Segments that a path can have: empty only at the end.
fn proper(v: &[Vec<u8>]) -> bool { v.iter().rev().skip(1).all(|x| !x.is_empty()) }
pub fn c18(c: &mut Ctx) {
    c.rule("path conversion for certification, expression and request against the specification's segments; wildcard applicability and the list of wildcards that take precedence against a direct enumeration");
    let n = if c.thorough { 5 } else { 4 };
    for w in words(&["/", "a", "é", "<*>", "."], n + 1) { path_case(c, &w.concat()); if c.violation.is_some() { return; } }
    c.exhaustive_parts.push(format!("all paths of up to {} pieces from / a é <*> .", n + 1));
    let all: Vec<P> = words(&["", "a", "b", "http_expr", "<*>", "<$>"], if c.thorough { 4 } else { 3 }).iter().map(|w| w.iter().map(|s| s.as_bytes().to_vec()).collect::<P>()).filter(|v| proper(v)).collect();
    let mut complete = true;
    for q in &all { for r in &all { wild_case(c, q, r); if c.violation.is_some() { return; } } if c.past(0.7) { complete = false; break; } }
    if complete { c.exhaustive_parts.push(format!("all {} pairs of request and wildcard segments over \"\" a b http_expr <*> <$>", all.len() * all.len())); }
    let mut k = 0;
    while !c.done() && k < if c.thorough { 200_000 } else { 20_000 } {
        k += 1;
        let p = rand_path(&mut c.rng);
        path_case(c, &p);
        let q = segs(&p);
        let cands = candidates(&q);
        let r = c.rng.pick(&cands).clone();
        wild_case(c, &q, &r);
    }
}
pub fn rand_path(r: &mut Rng) -> String {
    let n = r.below(8);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&["/", "/", "//"]));
        s.push_str(*r.pick(&["a", "b", "aa", "index.html", "app", "<*>", "<$>", "http_expr", "é", "a b", ".", "..", "%2F", "A", " ", "\t", "\u{3000}", "a ", " a", "%20", "+", "\\", "?", "#", "a?b=c", "\0", "E\u{301}", "a.b.c", "*", "$"]));
    }
    if r.chance(1, 3) { s.push('/'); }
    s
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, PartialEq)]
struct Ent { wild: bool, path: String, cel: usize, q: usize, r: usize }
struct Pool { cels: Vec<Cel>, reqs: Vec<Req>, resps: Vec<Resp> }
impl Ent {
    fn cert(&self, p: &Pool) -> ic_http_certification::HttpCertification { let mut r = p.resps[self.r].clone(); r.headers.push(("IC-CertificateExpression".into(), p.cels[self.cel].text())); p.cels[self.cel].certify(&p.reqs[self.q], &r, None).unwrap() }
    fn entry(&self, p: &Pool) -> HttpCertificationTreeEntry<'static> {
        let path = if self.wild { HttpCertificationPath::wildcard(self.path.clone()) } else { HttpCertificationPath::exact(self.path.clone()) };
        HttpCertificationTreeEntry::new(path, self.cert(p))
    }
    fn base(&self) -> P { full(&segs(&self.path), if self.wild { W } else { X }) }
    fn at(&self, p: &Pool) -> P {
        let mut v = self.base();
        let mut r = p.resps[self.r].clone();
        r.headers.push(("IC-CertificateExpression".into(), p.cels[self.cel].text()));
        v.extend(p.cels[self.cel].tree_path(&p.reqs[self.q], &r));
        v
    }
    fn show(&self) -> String { format!("{}({}) cel{} req{} resp{}", if self.wild { "wildcard" } else { "exact" }, self.path, self.cel, self.q, self.r) }
}
fn pool(r: &mut Rng) -> Pool {
    let reqs: Vec<Req> = (0..2).map(|_| request(r)).collect();
    let resps: Vec<Resp> = (0..3).map(|_| { let mut p = response(r); p.headers.retain(|h| !low(&h.0).starts_with("ic-cert")); p }).collect();
    let mut cels = vec![Cel::Skip];
    for k in 0..3 { let c = cel(r, &reqs[k % 2], &resps[k]); cels.push(c); }
    Pool { cels, reqs, resps }
}
#[derive(Clone, Debug)]
enum Op { Ins(Ent), Del(Ent), Clear }
fn opstr(o: &[Op]) -> String { o.iter().map(|o| match o { Op::Ins(e) => format!("insert {}", e.show()), Op::Del(e) => format!("delete {}", e.show()), Op::Clear => "clear".into() }).collect::<Vec<_>>().join("; ") }
const PATHS: &[&str] = &["", "/", "/a", "/a/", "/a/b", "/a/b/", "/b", "/a/b/c", "/a//b", "a", "/<*>", "/<$>", "/http_expr", "/http_expr/a", "/a/<*>", "/é", "/aa"];
fn ent(r: &mut Rng, p: &Pool, paths: &[&str]) -> Ent { Ent { wild: r.chance(1, 2), path: r.pick(paths).to_string(), cel: r.below(p.cels.len()), q: r.below(2), r: r.below(3) } }
fn check_tree(c: &mut Ctx, t: &HttpCertificationTree, live: &[P], p: &Pool, seen: &[Ent], urls: &[String], d: &dyn Fn() -> String) {
    let h = match c.guard("C17-panic", d, || t.root_hash()) { Some(h) => h, None => return };
    let empty = T::L(b"http_expr".to_vec(), Box::new(T::E)).digest();
    c.check(live.is_empty() == (h == empty), "C17-empty", d, &|| format!("root hash {} with {} entries", hex(&h), live.len()));
    let present = |path: &[Vec<u8>]| live.iter().any(|x| pre(path, x));
    for e in seen {
        let targets: Vec<String> = if e.wild { urls.to_vec() } else { vec![e.path.clone()] };
        for u in targets {
            let what = || format!("witness({}, {u:?}) after {}", e.show(), d());
            let q = segs(&u);
            let w = match c.guard("C17-panic", &what, || t.witness(&e.entry(p), &u).map(|w| T::of(&w))) { Some(w) => w, None => return };
            let matching = !e.wild || pre(&segs(&e.path), &q);
            let w = match w { Ok(w) => w, Err(x) => { c.check(!matching, "C17-refused", &what, &|| format!("refused: {x:?}")); continue; } };
            c.check(w.digest() == h, "C17-witness-hash", &what, &|| format!("the witness {w:?} has digest {} instead of the root hash {}", hex(&w.digest()), hex(&h)));
            c.check(w.wf(), "C17-witness-wf", &what, &|| format!("the witness {w:?} is not well formed"));
            let at = e.at(p);
            let base_there = present(&e.base());
            match subtree(&w, &at) {
                // an exact entry is witnessed with its hashes, a wildcard with what is below its path
                Find::Found(x) => { c.check(live.contains(&at) && *x == T::V(vec![]), "C17-found", &what, &|| format!("the witness {w:?} holds an entry {} that the tree does not", ps(&at))); }
                f => { c.check(!live.contains(&at) && f == Find::Absent, "C17-missing", &what, &|| format!("{} is {f:?} in the witness {w:?}, in the tree: {}", ps(&at), live.contains(&at))); }
            }
            if !e.wild || !matching || !base_there { continue; }
            let ex = full(&q, X);
            c.check(matches!(subtree(&w, &ex), Find::Found(_)) == present(&ex) && subtree(&w, &ex) != Find::Unknown, "C17-exact", &what, &|| format!("the witness {w:?} says {:?} of the exact path {}", subtree(&w, &ex), ps(&ex)));
            for m in precede(&q, &segs(&e.path)) {
                let mp = full(&m, W);
                let s = subtree(&w, &mp);
                c.check(s != Find::Unknown && matches!(s, Find::Found(_)) == present(&mp), "C17-precede", &what, &|| format!("the witness {w:?} says {s:?} of the wildcard {} that takes precedence", ps(&mp)));
            }
            if c.violation.is_some() { return; }
        }
    }
}
fn tree_case(c: &mut Ctx, ops: &[Op], p: &Pool, urls: &[String]) {
    let d = || format!("{} with {:?} {:?} {:?}", opstr(ops), p.cels, p.reqs, p.resps);
    c.case(&d(), ops.len() > 1);
    let mut t = HttpCertificationTree::default();
    let mut live: Vec<P> = vec![];
    let mut seen: Vec<Ent> = vec![];
    for (i, o) in ops.iter().enumerate() {
        let di = || format!("{} with {:?} {:?} {:?}", opstr(&ops[..=i]), p.cels, p.reqs, p.resps);
        let r = c.guard("C17-panic", &di, || match o { Op::Ins(e) => t.insert(&e.entry(p)), Op::Del(e) => t.delete(&e.entry(p)), Op::Clear => t.clear() });
        if r.is_none() { return; }
        match o {
            Op::Ins(e) => { let a = e.at(p); if !live.contains(&a) { live.push(a); } }
            Op::Del(e) => { let a = e.at(p); live.retain(|x| *x != a); }
            Op::Clear => live.clear(),
        }
        if let Op::Ins(e) | Op::Del(e) = o { if !seen.contains(e) { seen.push(e.clone()); } }
    }
    check_tree(c, &t, &live, p, &seen, urls, &d);
}
pub fn c17(c: &mut Ctx) {
    c.rule("histories of inserting and deleting certified entries; every witness has the root hash, holds exactly the live entry asked for with the hashes of an independent implementation, and answers the exact path and the wildcards that take precedence as the tree's contents do");
    let p0 = pool(&mut c.rng);
    // exhaustive: every set of up to 2 (thorough 3) wildcard/exact skip entries over the paths, all requested paths
    let paths: Vec<&str> = vec!["", "/", "/a", "/a/", "/a/b", "/a/b/", "/<$>", "/http_expr"];
    let urls: Vec<String> = ["/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/b", "/<$>", "/a/<*>", "/http_expr", "/http_expr/a"].iter().map(|x| x.to_string()).collect();
    let ents: Vec<Ent> = paths.iter().flat_map(|x| [false, true].into_iter().map(move |w| Ent { wild: w, path: x.to_string(), cel: 0, q: 0, r: 0 })).collect();
    let mut done = true;
    for a in &ents { for b in &ents { tree_case(c, &[Op::Ins(a.clone()), Op::Ins(b.clone())], &p0, &urls); if c.past(0.4) { done = false; break; } } }
    if done && c.thorough { for a in &ents { for b in &ents { for e in &ents { tree_case(c, &[Op::Ins(a.clone()), Op::Ins(b.clone()), Op::Ins(e.clone())], &p0, &urls); if c.past(0.6) { done = false; break; } } } } }
    if done { c.exhaustive_parts.push(format!("all trees of up to {} entries on 8 paths, for 11 requests", if c.thorough { 3 } else { 2 })); }
    let mut k = 0;
    while !c.done() && k < if c.thorough { 50_000 } else { 1_500 } {
        k += 1;
        let p = pool(&mut c.rng);
        let n = c.rng.range(1, 12);
        let sub: Vec<&str> = { let m = c.rng.range(2, PATHS.len()); let mut v = PATHS.to_vec(); c.rng.shuffle(&mut v); v.truncate(m); v };
        let mut ops: Vec<Op> = vec![];
        for _ in 0..n {
            let e = ent(&mut c.rng, &p, &sub);
            let old: Vec<Ent> = ops.iter().filter_map(|o| match o { Op::Ins(e) => Some(e.clone()), _ => None }).collect();
            let o = match c.rng.below(20) { 0 => Op::Clear, 1..=6 if !old.is_empty() => Op::Del(c.rng.pick(&old).clone()), 7 => Op::Del(e), _ => Op::Ins(e) };
            ops.push(o);
        }
        let mut us: Vec<String> = sub.iter().map(|x| x.to_string()).collect();
        us.push("/a/b/c/d".into());
        let mut extra = c.rng.pick(&us).clone();
        extra.push_str("/x");
        us.push(extra);
        c.rng.shuffle(&mut us);
        us.truncate(5);
        tree_case(c, &ops, &p, &us);
    }
}
