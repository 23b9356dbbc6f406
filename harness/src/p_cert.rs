//! C11, C12, C13: certificate verification against a reference written from the interface specification.
//! The reference calls the BLS library directly (no cache).
use crate::core::{hex, Ctx, Rng};
use crate::model::{join, lookup, near, Look, T};
use crate::p_cbor::{cert_of, head, ranges_of, reference, Cert};
use ic_certificate_verification::{CertificateVerificationError as E, VerifyCertificate};
use ic_certification::{Certificate, Delegation};
use miracl_core_bls12381::bls12381::bls::{core_sign, core_verify, key_pair_generate};

const DER: &str = "308182301d060d2b0601040182dc7c0503010201060c2b0601040182dc7c05030201036100";
pub struct Key { pub secret: [u8; 48], pub der: Vec<u8> }
pub fn key(n: u8) -> Key {
    let (mut s, mut w) = ([0u8; 48], [0u8; 96]);
    key_pair_generate(&[n; 32], &mut s, &mut w);
    let mut der = hex::decode(DER).unwrap();
    der.extend(w);
    Key { secret: s, der }
}
pub fn message(root: &[u8; 32]) -> Vec<u8> {
    let mut m = vec![13];
    m.extend(b"ic-state-root");
    m.extend(root);
    m
}
pub fn sign(k: &Key, root: &[u8; 32]) -> Vec<u8> {
    let mut s = [0u8; 48];
    core_sign(&mut s, &message(root), &k.secret);
    s.to_vec()
}
/// The library's verdict without the cache. Keys and signatures are compressed points of fixed size.
fn bls(pk: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    pk.len() == 96 && sig.len() == 48 && pk[0] & 0x80 != 0 && sig[0] & 0x80 != 0 && core_verify(sig, msg, pk) == 0
}
fn signed(t: &T, sig: &[u8], der: &[u8]) -> bool {
    let p = hex::decode(DER).unwrap();
    der.len() == p.len() + 96 && der.starts_with(&p) && bls(&der[p.len()..], sig, &message(&t.digest()))
}
fn le(a: &[u8], b: &[u8]) -> bool { (a.len(), a) <= (b.len(), b) }
/// Unsigned LEB128 of at most 64 bits at the start of the bytes.
pub fn leb(b: &[u8]) -> Option<u64> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        let low = (x & 0x7f) as u128;
        if i >= 9 && (low > 1 || (x & 0x80 != 0) || i > 9) { return None; }
        v |= low << (7 * i);
        if x & 0x80 == 0 { return u64::try_from(v).ok(); }
    }
    None
}
pub fn leb_enc(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 { o.push(b); return o; }
        o.push(b | 0x80);
    }
}
fn path(p: &[&[u8]]) -> Vec<Vec<u8>> { p.iter().map(|x| x.to_vec()).collect() }
fn deleg_key(d: &(Vec<u8>, Vec<u8>), canister: &[u8], root: &[u8]) -> Option<Vec<u8>> {
    let (t, s, dd) = cert_of(&reference(&d.1).0?)?;
    if dd.is_some() || !signed(&t, &s, root) { return None; }
    let Look::Found(rb) = lookup(&t, &path(&[b"subnet", &d.0, b"canister_ranges"])) else { return None };
    let rs = ranges_of(&reference(&rb).0?)?;
    if !rs.iter().any(|(a, b)| le(a, canister) && le(canister, b)) { return None; }
    let Look::Found(k) = lookup(&t, &path(&[b"subnet", &d.0, b"public_key"])) else { return None };
    Some(k)
}
pub fn sig_verdict(c: &Cert, canister: &[u8], root: &[u8]) -> bool {
    let k = match &c.2 { None => root.to_vec(), Some(d) => match deleg_key(d, canister, root) { Some(k) => k, None => return false } };
    signed(&c.0, &c.1, &k)
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Time { Ok, Future, Past, None }
pub fn time_verdict(t: &T, now: u128, off: u128) -> Time {
    let Look::Found(v) = lookup(t, &path(&[b"time"])) else { return Time::None };
    let Some(v) = leb(&v) else { return Time::None };
    let v = v as u128;
    if v > now && v - now > off { Time::Future } else if now > v && now - v > off { Time::Past } else { Time::Ok }
}
pub fn dir(r: &mut Rng, mut e: Vec<(Vec<u8>, T)>) -> T {
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e.dedup_by(|a, b| a.0 == b.0);
    let v = e.into_iter().map(|(l, t)| if r.chance(1, 12) { let t = T::L(l, Box::new(t)); T::P(t.digest()) } else { T::L(l, Box::new(t)) }).collect();
    join(r, v)
}
pub fn full_dir(r: &mut Rng, mut e: Vec<(Vec<u8>, T)>) -> T {
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e.dedup_by(|a, b| a.0 == b.0);
    let v = e.into_iter().map(|(l, t)| T::L(l, Box::new(t))).collect();
    join(r, v)
}
pub fn build(c: &Cert) -> Certificate {
    Certificate { tree: c.0.build(), signature: c.1.clone(), delegation: c.2.as_ref().map(|(a, b)| Delegation { subnet_id: a.clone(), certificate: b.clone() }) }
}
pub fn encode(c: &Cert) -> Vec<u8> { serde_cbor::to_vec(&build(c)).unwrap() }
fn time_leaf(r: &mut Rng, t: u64) -> Vec<u8> {
    let mut v = leb_enc(t);
    match r.below(24) {
        0 => { v.pop(); }                                      // empty or unterminated
        1 => { for x in v.iter_mut() { *x |= 0x80; } }          // unterminated
        2 => { v.push(0x55); }                                 // surplus bytes
        3 => { let n = v.len() - 1; v[n] |= 0x80; v.push(0); }   // padded
        4 => v = [0x80u8; 9].iter().copied().chain([2]).collect(), // 65 bits
        5 => v = vec![0xff; 12],
        _ => {}
    }
    v
}
fn edge_time(r: &mut Rng) -> u64 {
    let b = *r.pick(&[0u64, 1, 127, 128, 1_651_142_233_000_005_031, 1 << 32, 1 << 62, i64::MAX as u64, u64::MAX - 1, u64::MAX]);
    match r.below(3) { 0 => b.wrapping_add(r.below(5) as u64), 1 => r.u64(), _ => b }
}

pub fn c11(c: &mut Ctx) {
    c.rule("a correctly signed certificate is accepted exactly when |time - now| <= offset over the integers, otherwise the error names the side; an unreadable or missing time is rejected; nothing panics");
    let k = key(1);
    while !c.done() {
        let r = &mut c.rng;
        let t = edge_time(r);
        let leaf = time_leaf(r, t);
        let al = crate::model::random_alphabet(r);
        let mut e = vec![(b"canister".to_vec(), crate::model::gen_tree(r, &al, 2, true))];
        let tt = match r.below(14) { 0 => T::P(T::V(leaf.clone()).digest()), 1 => T::L(leaf.clone(), Box::new(T::E)), 2 => T::E, _ => T::V(leaf) };
        let absent = r.chance(1, 14);
        if !absent { e.push((b"time".to_vec(), tt)); }
        if r.chance(1, 3) { let l = near(r, b"time"); e.push((l, T::V(leb_enc(t)))); }
        if r.chance(1, 3) { e.push((b"a".to_vec(), T::E)); }
        let tree = if r.chance(1, 4) { dir(r, e) } else { full_dir(r, e) };
        let cert: Cert = (tree, vec![], None);
        let cert = (cert.0.clone(), sign(&k, &cert.0.digest()), None);
        let real = build(&cert);
        for _ in 0..40 {
            let r = &mut c.rng;
            let off = match r.below(7) { 0 => 0u128, 1 => 1, 2 => u128::MAX, 3 => u128::MAX - r.below(3) as u128, 4 => r.u64() as u128, 5 => t as u128, _ => (r.u64() as u128) << 64 | r.u64() as u128 };
            let now = match r.below(8) {
                0 => t as u128,
                1 => (t as u128).wrapping_add(off),
                2 => (t as u128).wrapping_sub(off),
                3 => (t as u128).wrapping_add(off).wrapping_add(1),
                4 => (t as u128).wrapping_sub(off).wrapping_sub(1),
                5 => *r.pick(&[0, 1, u128::MAX, u128::MAX - 1, u64::MAX as u128, 1 << 64]),
                6 => (r.u64() as u128) << 64 | r.u64() as u128,
                _ => r.u64() as u128,
            };
            let case = || format!("now={now} offset={off} certificate={:?}", cert.0).chars().take(900).collect::<String>();
            c.case(&case(), true);
            let Some(got) = c.guard("time-panic", &case, || real.verify(&[1], &k.der, &now, &off)) else { return };
            let want = time_verdict(&cert.0, now, off);
            let ok = match (want, &got) {
                (Time::Ok, Ok(())) => true,
                (Time::Future, Err(E::TimeTooFarInTheFuture { certificate_time, .. })) => *certificate_time == t as u128 || leb_enc(t).is_empty() || time_of(&cert.0) == Some(*certificate_time),
                (Time::Past, Err(E::TimeTooFarInThePast { certificate_time, .. })) => time_of(&cert.0) == Some(*certificate_time),
                (Time::None, Err(e)) => !matches!(e, E::TimeTooFarInThePast { .. } | E::TimeTooFarInTheFuture { .. }),
                _ => false,
            };
            if !c.check(ok, "time", &case, &|| format!("the verdict is {got:?}, the time is {want:?}")) { return; }
        }
    }
}
fn time_of(t: &T) -> Option<u128> {
    match lookup(t, &path(&[b"time"])) { Look::Found(v) => leb(&v).map(|x| x as u128), _ => None }
}

fn principal(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => { let n = r.range(0, 29); r.bytes(n) }
        2 => { let mut v = vec![0, 0, 0, 0, 0, 0, 0]; v.extend([r.below(3) as u8, 1, 1]); v }
        _ => { let n = *r.pick(&[1usize, 2, 9, 10, 11, 29]); (0..n).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect() }
    }
}
fn bump(v: &[u8], up: bool) -> Vec<u8> {
    let mut w = v.to_vec();
    for x in w.iter_mut().rev() {
        if up { *x = x.wrapping_add(1); if *x != 0 { return w; } } else { *x = x.wrapping_sub(1); if *x != 0xff { return w; } }
    }
    v.to_vec()
}
fn enc_ranges(r: &mut Rng, rs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    if r.chance(1, 2) { o.extend([0xd9, 0xd9, 0xf7]); }
    head(&mut o, 4, rs.len() as u64, r);
    for (a, b) in rs {
        head(&mut o, 4, 2, r);
        head(&mut o, 2, a.len() as u64, r);
        o.extend(a);
        head(&mut o, 2, b.len() as u64, r);
        o.extend(b);
    }
    if r.chance(1, 25) { o.push(0); }
    if r.chance(1, 25) { o.pop(); }
    o
}
struct Scene { root: usize, cert: Cert, canister: Vec<u8> }
/// A certificate that is mostly right, with one or two things about it changed.
fn scene(r: &mut Rng, keys: &[Key], time: u64) -> Scene {
    let root = r.below(keys.len());
    let mut canister = principal(r);
    canister.truncate(29);
    let mut e = vec![(b"time".to_vec(), T::V(leb_enc(time))), (b"canister".to_vec(), T::L(canister.clone(), Box::new(T::L(b"certified_data".to_vec(), Box::new(T::V(r.bytes(32)))))))];
    if r.chance(1, 3) { let al = crate::model::label_alphabet(); e.push((b"request_status".to_vec(), crate::model::gen_tree(r, &al, 2, true))); }
    let tree = full_dir(r, e);
    let twist = |r: &mut Rng| r.chance(1, 14);
    let mut cert: Cert = if r.chance(1, 4) {
        let s = sign(&keys[root], &tree.digest());
        (tree, s, None)
    } else {
        let sub = (root + 1 + r.below(keys.len() - 1)) % keys.len();
        let subnet = principal(r);
        let mut rs = vec![];
        let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
        for _ in 0..n {
            let (a, b) = match r.below(7) {
                0 => (canister.clone(), canister.clone()),
                1 => (bump(&canister, false), canister.clone()),
                2 => (canister.clone(), bump(&canister, true)),
                3 => (bump(&canister, true), vec![0xff; 29]),
                4 => (vec![], bump(&canister, false)),
                5 => (vec![], vec![0xff; 29]),
                _ => (principal(r), principal(r)),
            };
            rs.push((a, b));
        }
        let mut der = keys[sub].der.clone();
        if twist(r) { let i = r.below(der.len()); match r.below(3) { 0 => der[i] ^= 1 << r.below(8), 1 => { der.remove(i); } _ => der.push(0) } }
        let ranges = enc_ranges(r, &rs);
        let mut fields = vec![];
        if !twist(r) { fields.push((b"canister_ranges".to_vec(), T::V(ranges.clone()))); }
        if !twist(r) { fields.push((b"public_key".to_vec(), T::V(der))); }
        if r.chance(1, 4) { fields.push((b"node".to_vec(), T::E)); }
        let f = dir(r, fields);
        let mut subs = vec![(subnet.clone(), f)];
        if r.chance(1, 3) { subs.push((principal(r), full_dir_of(r, &keys[root].der))); }
        let s = full_dir(r, subs);
        let top = if r.chance(1, 12) { vec![(b"subnets".to_vec(), s)] } else { vec![(b"subnet".to_vec(), s), (b"time".to_vec(), T::V(leb_enc(5)))] };
        let dt = full_dir(r, top);
        let by = if twist(r) { sub } else { root };
        let mut ds = sign(&keys[by], &dt.digest());
        if twist(r) { let i = r.below(ds.len()); ds[i] ^= 1 << r.below(8); }
        let nested = if twist(r) {
            // a delegation of a delegation; each one is signed correctly
            let inner = full_dir_of(r, &keys[by].der);
            let third = full_dir(r, vec![(b"subnet".to_vec(), T::L(subnet.clone(), Box::new(inner)))]);
            let k = &keys[root];
            Some((subnet.clone(), encode(&(third.clone(), sign(k, &third.digest()), None))))
        } else { None };
        let dc = encode(&(dt, ds, nested));
        let id = if twist(r) { near(r, &subnet) } else { subnet };
        let signer = if r.chance(1, 10) { root } else { sub };
        let s = sign(&keys[signer], &tree.digest());
        (tree, s, Some((id, dc)))
    };
    if r.chance(1, 8) {
        match r.below(7) {
            0 => { let i = r.below(cert.1.len()); cert.1[i] ^= 1 << r.below(8) }
            1 => { cert.1.pop(); }
            2 => cert.1.push(0),
            3 => cert.1 = vec![],
            4 => cert.0 = T::F(Box::new(cert.0.clone()), Box::new(T::E)),
            5 => cert.1[0] &= 0x7f,
            _ => cert.1 = { let n = *r.pick(&[1usize, 47, 48, 49, 96]); r.bytes(n) },
        }
    }
    Scene { root, cert, canister }
}
pub fn full_dir_of(r: &mut Rng, der: &[u8]) -> T {
    let rs = vec![(vec![], vec![0xff; 29])];
    let mut o = vec![];
    head(&mut o, 4, 1, r);
    for (a, b) in &rs { head(&mut o, 4, 2, r); head(&mut o, 2, 0, r); o.extend::<&Vec<u8>>(a); head(&mut o, 2, 29, r); o.extend::<&Vec<u8>>(b); }
    full_dir(r, vec![(b"canister_ranges".to_vec(), T::V(o)), (b"public_key".to_vec(), T::V(der.to_vec()))])
}
fn root_key(r: &mut Rng, keys: &[Key], i: usize) -> Vec<u8> {
    let mut d = keys[i].der.clone();
    match r.below(30) {
        0 => { d.pop(); }
        1 => d.push(0),
        2 => { let i = r.below(d.len()); d[i] ^= 1 << r.below(8) }
        3 => d = d[37..].to_vec(),
        4 => d.clear(),
        5 => d = keys[(i + 1) % keys.len()].der.clone(),
        6 => d[37] &= 0x7f,
        _ => {}
    }
    d
}
pub fn c12(c: &mut Ctx) {
    c.rule("verify accepts exactly the certificates that the reference (own tree, CBOR, range and delegation code, the BLS library called directly) accepts; nothing panics");
    let keys: Vec<Key> = (1..=4).map(key).collect();
    let mut accepted = (0u64, 0u64);
    while !c.done() {
        let r = &mut c.rng;
        let s = scene(r, &keys, 1000);
        let root = root_key(r, &keys, s.root);
        let case = || format!("canister={} root={} certificate={:?} signature={} delegation={:?}", hex(&s.canister), hex(&root), s.cert.0, hex(&s.cert.1), s.cert.2.as_ref().map(|(a, b)| (hex(a), hex(b)))).chars().take(3000).collect::<String>();
        c.case(&case(), true);
        let real = build(&s.cert);
        let Some(got) = c.guard("verify-panic", &case, || real.verify(&s.canister, &root, &1000, &0)) else { return };
        let want = sig_verdict(&s.cert, &s.canister, &root) && time_verdict(&s.cert.0, 1000, 0) == Time::Ok;
        if want { if s.cert.2.is_some() { accepted.1 += 1 } else { accepted.0 += 1 } }
        if !c.check(got.is_ok() == want, "verdict", &case, &|| format!("verify gave {got:?}, the reference {}", if want { "accepts" } else { "rejects" })) { return; }
    }
    c.rule(&format!("of these, accepted by both: {} without and {} with a delegation", accepted.0, accepted.1));
}
pub fn c13(c: &mut Ctx) {
    c.rule("in histories of verifications (repeated, interleaved and related signatures, keys and messages) every verdict is the one the BLS library gives without a cache");
    let keys: Vec<Key> = (1..=3).map(key).collect();
    let mut pool: Vec<(Cert, Vec<u8>, bool)> = vec![];
    let mut history: Vec<String> = vec![];
    while !c.done() {
        if pool.len() < 6 || c.rng.chance(1, 10) {
            if pool.len() > 80 { pool.clear(); }
            // a family: the same message, key or signature in several combinations
            let r = &mut c.rng;
            let data = r.bytes(8);
            let t = full_dir(r, vec![(b"time".to_vec(), T::V(leb_enc(1000))), (b"x".to_vec(), T::V(data))]);
            let data = r.bytes(8);
            let t2 = full_dir(r, vec![(b"time".to_vec(), T::V(leb_enc(1000))), (b"x".to_vec(), T::V(data))]);
            let (i, j) = (r.below(3), r.below(3));
            let (s, s2) = (sign(&keys[i], &t.digest()), sign(&keys[j], &t2.digest()));
            let mut bad = s.clone();
            let k = r.below(48);
            bad[k] ^= 1 << r.below(8);
            let mut neg = s.clone();
            neg[0] ^= 0x20; // the negated point
            let mut fam = vec![];
            for t in [&t, &t2] { for s in [&s, &s2, &bad, &neg] { for k in &keys { fam.push((t.clone(), s.clone(), k.der.clone())); } } }
            let mut short = s.clone();
            short.pop();
            fam.push((t.clone(), short, keys[i].der.clone()));
            // the first bytes of the signature moved to the key, and the other way round
            let mut k2 = keys[i].der.clone();
            k2.push(s[0]);
            fam.push((t.clone(), s[1..].to_vec(), k2));
            let mut k3 = keys[i].der.clone();
            let x = k3.pop().unwrap();
            let mut s3 = vec![x];
            s3.extend(&s);
            fam.push((t.clone(), s3, k3));
            // a key, a message and a signature that differ from the good ones in one byte, anywhere
            let flip = |v: &[u8], from: usize, r: &mut Rng| { let mut v = v.to_vec(); let k = from + r.below(v.len() - from); v[k] ^= 1 << r.below(8); v };
            let from = keys[i].der.len() - 96;
            r.shuffle(&mut fam);
            fam.truncate(8);
            for _ in 0..2 { let k = flip(&keys[i].der, from, r); fam.push((t.clone(), s.clone(), k)); }
            let b = flip(&s, 0, r);
            fam.push((t.clone(), b, keys[i].der.clone()));
            for (t, s, k) in fam { let v = signed(&t, &s, &k); pool.push(((t, s, None), k, v)); }
            if r.chance(1, 2) { let v = signed(&t, &s, &keys[i].der); pool.push(((t, s, None), keys[i].der.clone(), v)); }
        }
        for _ in 0..20 {
            let (cert, k, want) = c.rng.pick(&pool).clone();
            let step = format!("(tree {:?}, signature {}, key ..{}) expected {}", cert.0, hex(&cert.1), hex(&k[k.len() - 4..]), if want { "accept" } else { "reject" });
            history.push(step);
            if history.len() > 60 { history.remove(0); }
            let case = || format!("last {} verifications, the last one fails: {}", history.len().min(12), history[history.len().saturating_sub(12)..].join("; "));
            c.case(&case(), true);
            let real = build(&cert);
            let Some(got) = c.guard("cache-panic", &case, || real.verify(&[1], &k, &1000, &0)) else { return };
            if !c.check(got.is_ok() == want, "cache-verdict", &case, &|| format!("verify gave {got:?}")) { return; }
        }
    }
}
