//! C09, C10: CBOR decoding against a reference decoder written from RFC 8949 and the certificate CDDL.
use crate::core::{hex, Ctx, Rng};
use crate::model::{edge_len, gen_tree, label_alphabet, random_alphabet, T};
use candid::Principal;
use ic_cbor::{
    parse_cbor, parse_cbor_principals_array, parse_cbor_string_array, CborHashTree, CborNegativeInt, CborUnsignedInt, CborValue, CertificateToCbor,
    HashTreeToCbor,
};
use ic_certification::{Certificate, Delegation, HashTree};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    U(u64, u8), // value, width in bytes (1 for immediate)
    N(i128),
    B(Vec<u8>),
    A(Vec<R>),
    M(BTreeMap<String, R>),
}
pub const DEEP: usize = 200;

pub struct Ref<'a> { i: &'a [u8], at: usize, pub dup: bool, pub deep: usize }
impl<'a> Ref<'a> {
    fn u8(&mut self) -> Option<u8> { let b = *self.i.get(self.at)?; self.at += 1; Some(b) }
    fn be(&mut self, n: usize) -> Option<u64> { let mut v = 0u64; for _ in 0..n { v = v << 8 | self.u8()? as u64; } Some(v) }
    fn item(&mut self, d: usize) -> Option<R> {
        self.deep = self.deep.max(d);
        if d > DEEP * 4 { return None; }
        let h = self.u8()?;
        let (v, w) = match h & 31 {
            n @ 0..=23 => (n as u64, 1),
            24 => (self.be(1)?, 1),
            25 => (self.be(2)?, 2),
            26 => (self.be(4)?, 4),
            27 => (self.be(8)?, 8),
            _ => return None,
        };
        match h >> 5 {
            0 => Some(R::U(v, w)),
            1 => if v > i64::MAX as u64 { None } else { Some(R::N(-1 - v as i128)) },
            2 | 3 => {
                if v > (self.i.len() - self.at) as u64 { return None; }
                let b = self.i[self.at..self.at + v as usize].to_vec();
                self.at += v as usize;
                Some(R::B(b))
            }
            4 => { let mut a = vec![]; for _ in 0..v { a.push(self.item(d + 1)?); } Some(R::A(a)) }
            5 => {
                let mut m = BTreeMap::new();
                for _ in 0..v {
                    let R::B(k) = self.item(d + 1)? else { return None };
                    let k = String::from_utf8(k).ok()?;
                    let x = self.item(d + 1)?;
                    if m.insert(k, x).is_some() { self.dup = true; }
                }
                Some(R::M(m))
            }
            6 => self.item(d + 1),
            _ => None,
        }
    }
}
pub fn reference(i: &[u8]) -> (Option<R>, bool, usize) {
    let mut r = Ref { i, at: 0, dup: false, deep: 0 };
    let v = r.item(0);
    let v = if r.at == i.len() { v } else { None };
    (v, r.dup, r.deep)
}
fn int(n: &CborNegativeInt) -> i128 {
    match n { CborNegativeInt::Int8(x) => *x as i128, CborNegativeInt::Int16(x) => *x as i128, CborNegativeInt::Int32(x) => *x as i128, CborNegativeInt::Int64(x) => *x as i128 }
}
fn same(v: &CborValue, r: &R) -> bool {
    match (v, r) {
        (CborValue::HashTree(t), R::U(n, 1)) => *n == match t { CborHashTree::Empty => 0, CborHashTree::Fork => 1, CborHashTree::Labelled => 2, CborHashTree::Leaf => 3, CborHashTree::Pruned => 4 },
        (CborValue::Unsigned(u), R::U(n, w)) => !(*w == 1 && *n <= 4) && match u {
            CborUnsignedInt::UInt8(x) => *x as u64 == *n && *w == 1,
            CborUnsignedInt::UInt16(x) => *x as u64 == *n && *w == 2,
            CborUnsignedInt::UInt32(x) => *x as u64 == *n && *w == 4,
            CborUnsignedInt::UInt64(x) => *x == *n && *w == 8,
        },
        (CborValue::Signed(n), R::N(x)) => int(n) == *x,
        (CborValue::ByteString(b), R::B(x)) => b == x,
        (CborValue::Array(a), R::A(x)) => a.len() == x.len() && a.iter().zip(x).all(|(a, b)| same(a, b)),
        (CborValue::Map(m), R::M(x)) => m.len() == x.len() && x.iter().all(|(k, v)| m.get(k).is_some_and(|w| same(w, v))),
        _ => false,
    }
}
pub fn tree_of(r: &R) -> Option<T> {
    let R::A(a) = r else { return None };
    match a.as_slice() {
        [R::U(0, 1)] => Some(T::E),
        [R::U(1, 1), l, r] => Some(T::F(Box::new(tree_of(l)?), Box::new(tree_of(r)?))),
        [R::U(2, 1), R::B(l), t] => Some(T::L(l.clone(), Box::new(tree_of(t)?))),
        [R::U(3, 1), R::B(v)] => Some(T::V(v.clone())),
        [R::U(4, 1), R::B(h)] => Some(T::P(h.as_slice().try_into().ok()?)),
        _ => None,
    }
}
pub type Cert = (T, Vec<u8>, Option<(Vec<u8>, Vec<u8>)>);
pub fn cert_of(r: &R) -> Option<Cert> {
    let R::M(m) = r else { return None };
    let t = tree_of(m.get("tree")?)?;
    let R::B(s) = m.get("signature")? else { return None };
    let d = match m.get("delegation") {
        None => None,
        Some(R::M(d)) => {
            let R::B(a) = d.get("subnet_id")? else { return None };
            let R::B(b) = d.get("certificate")? else { return None };
            Some((a.clone(), b.clone()))
        }
        _ => return None,
    };
    Some((t, s.clone(), d))
}
fn cert_val(c: &Certificate) -> Cert {
    (T::of(&c.tree), c.signature.clone(), c.delegation.as_ref().map(|d| (d.subnet_id.clone(), d.certificate.clone())))
}
pub fn ranges_of(r: &R) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let R::A(a) = r else { return None };
    a.iter().map(|x| match x {
        R::A(p) => match p.as_slice() { [R::B(a), R::B(b)] if a.len() <= 29 && b.len() <= 29 => Some((a.clone(), b.clone())), _ => None },
        _ => None,
    }).collect()
}
pub fn strings_of(r: &R) -> Option<Vec<String>> {
    let R::A(a) = r else { return None };
    a.iter().map(|x| match x { R::B(b) => String::from_utf8(b.clone()).ok(), _ => None }).collect()
}

// ------------------------------------------------------------------ encoders
pub fn head(o: &mut Vec<u8>, major: u8, v: u64, r: &mut Rng) {
    let m = major << 5;
    let min = if v < 24 { 0 } else if v < 256 { 1 } else if v < 65536 { 2 } else if v < 1 << 32 { 3 } else { 4 };
    let w = if r.chance(1, 25) { r.range(min, 4) } else { min };
    match w {
        0 => o.push(m | v as u8),
        1 => { o.push(m | 24); o.push(v as u8) }
        2 => { o.push(m | 25); o.extend((v as u16).to_be_bytes()) }
        3 => { o.push(m | 26); o.extend((v as u32).to_be_bytes()) }
        _ => { o.push(m | 27); o.extend(v.to_be_bytes()) }
    }
}
fn edge_int(r: &mut Rng) -> u64 {
    let k = *r.pick(&[0u64, 1, 3, 4, 5, 23, 24, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX]);
    if r.chance(1, 4) { k.wrapping_add(r.below(3) as u64) } else { k }
}
fn gen_value(o: &mut Vec<u8>, r: &mut Rng, d: usize) {
    if r.chance(1, 15) { let t = edge_int(r); head(o, 6, t, r); }
    if r.chance(1, 60) { o.push(*r.pick(&[0xf4u8, 0xf5, 0xf6, 0xf7, 0xf9, 0xfa, 0xfb, 0xf8, 0xff, 0x9f, 0xbf, 0x5f, 0x1c])); }
    match r.below(if d == 0 { 4 } else { 7 }) {
        0 => { let v = edge_int(r); head(o, 0, v, r) }
        1 => { let v = edge_int(r); head(o, 1, v, r) }
        2 => { let n = if r.chance(1, 20) { edge_len(r).min(5000) } else { r.below(6) }; head(o, 2, n as u64, r); let b = r.bytes(n); o.extend(b) }
        3 => { let s: String = (0..r.below(5)).map(|_| *r.pick(&['a', 'b', 'é', '語', '\0'])).collect(); head(o, 3, s.len() as u64, r); o.extend(s.as_bytes()) }
        4 | 5 => { let n = if r.chance(1, 30) { 24 } else { r.below(5) }; head(o, 4, n as u64, r); for _ in 0..n { gen_value(o, r, d - 1) } }
        _ => {
            let n = r.below(4);
            head(o, 5, n as u64, r);
            for i in 0..n {
                if r.chance(1, 40) { gen_value(o, r, 0) } else { let k = format!("{}{i}", r.pick(&["k", "tree", ""])); head(o, if r.chance(1, 2) { 2 } else { 3 }, k.len() as u64, r); o.extend(k.as_bytes()); }
                gen_value(o, r, d - 1)
            }
        }
    }
}
pub fn enc_tree(o: &mut Vec<u8>, t: &T, r: &mut Rng) {
    let part = |o: &mut Vec<u8>, b: &[u8], r: &mut Rng| { head(o, 2, b.len() as u64, r); o.extend(b) };
    match t {
        T::E => { head(o, 4, 1, r); o.push(0) }
        T::F(a, b) => { head(o, 4, 3, r); o.push(1); enc_tree(o, a, r); enc_tree(o, b, r) }
        T::L(l, t) => { head(o, 4, 3, r); o.push(2); part(o, l, r); enc_tree(o, t, r) }
        T::V(v) => { head(o, 4, 2, r); o.push(3); part(o, v, r) }
        T::P(h) => { head(o, 4, 2, r); o.push(4); part(o, h, r) }
    }
}
fn text(o: &mut Vec<u8>, s: &str, r: &mut Rng) { head(o, 3, s.len() as u64, r); o.extend(s.as_bytes()) }
fn blob(o: &mut Vec<u8>, s: &[u8], r: &mut Rng) { head(o, 2, s.len() as u64, r); o.extend(s) }
fn enc_cert(o: &mut Vec<u8>, c: &Cert, r: &mut Rng) {
    if r.chance(1, 2) { o.extend([0xd9, 0xd9, 0xf7]); }
    let mut fields = vec![0, 1];
    if c.2.is_some() { fields.push(2); }
    if r.chance(1, 8) { fields.push(3); }
    if r.chance(1, 12) { let i = r.below(fields.len()); fields.remove(i); }
    r.shuffle(&mut fields);
    head(o, 5, fields.len() as u64, r);
    for f in fields {
        match f {
            0 => { text(o, "tree", r); enc_tree(o, &c.0, r) }
            1 => { text(o, "signature", r); if r.chance(1, 20) { gen_value(o, r, 1) } else { blob(o, &c.1, r) } }
            2 => {
                let (a, b) = c.2.as_ref().unwrap();
                text(o, "delegation", r);
                if r.chance(1, 12) { gen_value(o, r, 1); } else {
                    let mut fs = vec![0, 1];
                    if r.chance(1, 10) { fs.pop(); }
                    if r.chance(1, 10) { fs.push(2); }
                    r.shuffle(&mut fs);
                    head(o, 5, fs.len() as u64, r);
                    for f in fs { match f { 0 => { text(o, "subnet_id", r); blob(o, a, r) } 1 => { text(o, "certificate", r); blob(o, b, r) } _ => { text(o, "other", r); gen_value(o, r, 1) } } }
                }
            }
            _ => { text(o, "extra", r); gen_value(o, r, 2) }
        }
    }
}
fn mutate(v: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 2) {
        if v.is_empty() { return; }
        let i = r.below(v.len());
        match r.below(9) {
            0 => v.truncate(i),
            1 => v[i] = r.u64() as u8,
            2 => v[i] = v[i].wrapping_add(1),
            3 => v[i] = v[i].wrapping_sub(1),
            4 => { v.remove(i); }
            5 => v.insert(i, *r.pick(&[0x80u8, 0x81, 0x82, 0x83, 0x84, 0xa0, 0xa1, 0x00, 0x04, 0x40, 0xf6, 0xf5, 0xfb, 0xc1])),
            6 => { let n = r.range(1, 3); let x = r.bytes(n); v.extend(x); }
            7 => { v[i] ^= 1 << r.below(8); }
            _ => { let x = v[i] & 0xe0; let w = *r.pick(&[24u8, 25, 26, 27]); v[i] = x | w; let n = 1usize << (w - 24); let e = edge_int(r).to_be_bytes(); for k in 0..n { v.insert(i + 1 + k, e[8 - n + k]); } }
        }
    }
}

fn check_bytes(c: &mut Ctx, v: &[u8]) {
    let (r, dup, deep) = reference(v);
    if deep > DEEP { return; } // outside the nesting limit either answer is fine
    let case = || format!("bytes {}", hex(&v[..v.len().min(600)]));
    c.case(&case(), v.len() > 1);
    let Some(got) = c.guard("parse-panic", &case, || parse_cbor(v).ok()) else { return };
    if !dup {
        let ok = match (&got, &r) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false };
        c.check(ok, "parse-value", &case, &|| format!("parse_cbor gave {got:?}, the encoding means {r:?}"));
    }
    let Some(t) = c.guard("tree-panic", &case, || <HashTree as HashTreeToCbor>::from_cbor(v).ok().map(|t| T::of(&t))) else { return };
    let want = r.as_ref().and_then(tree_of);
    if !dup { c.check(t == want, "tree-value", &case, &|| format!("HashTree::from_cbor gave {t:?}, the encoding means {want:?}")); }
    let Some(t) = c.guard("cert-panic", &case, || <Certificate as CertificateToCbor>::from_cbor(v).ok().map(|t| cert_val(&t))) else { return };
    let want = r.as_ref().and_then(cert_of);
    if !dup { c.check(t == want, "cert-value", &case, &|| format!("Certificate::from_cbor gave {t:?}, the encoding means {want:?}")); }
    let Some(t) = c.guard("ranges-panic", &case, || parse_cbor_principals_array(v).ok()) else { return };
    let t: Option<Vec<(Vec<u8>, Vec<u8>)>> = t.map(|t: Vec<(Principal, Principal)>| t.iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect());
    let want = r.as_ref().and_then(ranges_of);
    if !dup { c.check(t == want, "ranges-value", &case, &|| format!("parse_cbor_principals_array gave {t:?}, the encoding means {want:?}")); }
    let Some(t) = c.guard("strings-panic", &case, || parse_cbor_string_array(v).ok()) else { return };
    let want = r.as_ref().and_then(strings_of);
    if !dup { c.check(t == want, "strings-value", &case, &|| format!("parse_cbor_string_array gave {t:?}, the encoding means {want:?}")); }
    // the serde decoder must not panic and must not read another tree
    let Some(t) = c.guard("serde-panic", &case, || serde_cbor::from_slice::<HashTree>(v).ok().map(|t| T::of(&t))) else { return };
    if let (Some(t), Some(w)) = (&t, r.as_ref().and_then(tree_of)) {
        c.check(*t == w, "serde-tree-value", &case, &|| format!("serde decoder gave {t:?}, the encoding means {w:?}"));
    }
}

pub fn gen_cert(r: &mut Rng) -> Cert {
    let al = if r.chance(1, 2) { label_alphabet() } else { random_alphabet(r) };
    let t = gen_tree(r, &al, 3, true);
    let n = if r.chance(1, 4) { edge_len(r).min(3000) } else { 48 };
    let s = r.bytes(n);
    let d = if r.chance(1, 2) { let n = r.below(40); let a = r.bytes(n); let n = if r.chance(1, 6) { edge_len(r) } else { r.below(80) }; Some((a, r.bytes(n))) } else { None };
    (t, s, d)
}

/// Inputs meant to exhaust stack or memory; run in a child process because they would take it down.
pub fn hostile() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for n in [1000usize, 100_000, 2_000_000] {
        v.push((format!("{n} nested arrays"), vec![0x81; n]));
        v.push((format!("{n} nested maps"), [0xa1u8, 0x61, 0x61].repeat(n)));
        v.push((format!("{n} maps nested as keys"), vec![0xa1; n]));
        v.push((format!("{n} nested tags"), vec![0xc1; n]));
        v.push((format!("{n} nested labels"), { let mut x = [0x83u8, 2, 0x41, 0x61].repeat(n); x.extend([0x81, 0]); x }));
        v.push((format!("{n} nested forks"), { let mut x = [0x83u8, 1, 0x81, 0].repeat(n); x.extend([0x81, 0]); x }));
        v.push((format!("{n} simple values"), vec![0xf5; n]));
    }
    for m in [2u8, 3, 4, 5] {
        for len in [u64::MAX, 1 << 62, 1 << 47, 1 << 40, 1 << 35, u32::MAX as u64] {
            let mut x = vec![m << 5 | 27];
            x.extend(len.to_be_bytes());
            v.push((format!("major type {m} of declared length {len}"), x.clone()));
            let mut y = vec![0x82];
            y.extend(&x);
            y.extend([0u8; 40]);
            v.push((format!("nested major type {m} of declared length {len}"), y));
        }
    }
    v
}
pub fn hostile_child(i: usize) {
    let (_, v) = hostile().swap_remove(i);
    // the default stack of a Rust thread
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let _ = parse_cbor(&v);
        let _ = <HashTree as HashTreeToCbor>::from_cbor(&v);
        let _ = <Certificate as CertificateToCbor>::from_cbor(&v);
        let _ = parse_cbor_principals_array(&v);
        let _ = serde_cbor::from_slice::<HashTree>(&v);
        let _ = serde_cbor::from_slice::<Certificate>(&v);
    }).unwrap().join().unwrap();
}

pub fn c09(c: &mut Ctx) {
    c.rule("every decoder gives exactly the value a reference decoder (RFC 8949, certificate CDDL) gives, or an error where that gives none; no panic, no abort, no allocation by a declared length");
    let exe = std::env::current_exe().unwrap();
    for (i, (name, _)) in hostile().into_iter().enumerate() {
        if c.past(0.3) { break; }
        c.case(&name, true);
        let st = std::process::Command::new("/bin/sh").arg("-c").arg("ulimit -v 6000000; exec \"$0\" HOSTILE-CBOR \"$1\"").arg(&exe).arg(i.to_string())
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
        c.check(st.success(), "hostile", &|| name.clone(), &|| format!("decoding took the process down: {st}"));
    }
    // all inputs of up to two bytes, and all three-byte inputs when there is time
    for a in 0..=255u8 { check_bytes(c, &[a]); for b in 0..=255u8 { check_bytes(c, &[a, b]); } }
    check_bytes(c, &[]);
    c.exhaustive_parts.push("all inputs of 0, 1 and 2 bytes".into());
    if c.thorough && !c.done() {
        'o: for a in 0..=255u8 { for b in 0..=255u8 { for x in 0..=255u8 { check_bytes(c, &[a, b, x]); } if c.past(0.6) { break 'o; } } }
    }
    while !c.done() {
        let mut v = vec![];
        let r = &mut c.rng;
        match r.below(8) {
            0 | 1 => gen_value(&mut v, r, 3),
            2 => { let al = random_alphabet(r); let t = gen_tree(r, &al, 3, true); enc_tree(&mut v, &t, r) }
            3 => { let t = gen_cert(r); enc_cert(&mut v, &t, r) }
            4 => {
                let n = r.below(4);
                head(&mut v, 4, n as u64, r);
                for _ in 0..n {
                    let k = if r.chance(1, 8) { r.below(4) } else { 2 };
                    head(&mut v, 4, k as u64, r);
                    for _ in 0..k { let l = *r.pick(&[0usize, 1, 10, 10, 10, 28, 29, 30, 31]); let b = r.bytes(l); blob(&mut v, &b, r); }
                }
            }
            5 => {
                let n = r.below(5);
                head(&mut v, 4, n as u64, r);
                for _ in 0..n { let s = *r.pick(&["", "a", "content-type", "é"]); if r.chance(1, 8) { let b = r.bytes(2); blob(&mut v, &b, r) } else { text(&mut v, s, r) } }
            }
            6 => { // deep but allowed nesting
                let n = r.range(1, 120);
                for _ in 0..n { v.extend([0x83, 2, 0x41, b'a' + r.below(3) as u8]); }
                v.extend([0x81, 0]);
            }
            _ => { let n = r.range(1, 12); v = r.bytes(n) }
        }
        if r.chance(2, 5) { mutate(&mut v, r); }
        check_bytes(c, &v);
    }
}

pub fn c10(c: &mut Ctx) {
    c.rule("encode then decode (library decoder and serde decoder) gives the same tree, certificate, delegation and digest; the encoding is the specified one");
    let mut fixed = Rng::new(7);
    while !c.done() {
        let cert = gen_cert(&mut c.rng);
        let case = || format!("{cert:?}").chars().take(900).collect::<String>();
        c.case(&case(), true);
        let t = cert.0.build();
        let k: Certificate = Certificate { tree: cert.0.build(), signature: cert.1.clone(), delegation: cert.2.as_ref().map(|(a, b)| Delegation { subnet_id: a.clone(), certificate: b.clone() }) };
        let Some(Ok(et)) = c.guard("encode-panic", &case, || serde_cbor::to_vec(&t).map_err(|e| e.to_string())) else { c.fail("encode", case(), "encoding a tree failed".into()); return };
        let Some(Ok(ec)) = c.guard("encode-panic", &case, || serde_cbor::to_vec(&k).map_err(|e| e.to_string())) else { c.fail("encode", case(), "encoding a certificate failed".into()); return };
        // the tree's encoding is the canonical one of the specification
        let mut want = vec![];
        struct NoWide;
        let _ = NoWide;
        enc_plain(&mut want, &cert.0, &mut fixed);
        c.check(et == want, "encoding", &case, &|| format!("encoded as {}, expected {}", hex(&et), hex(&want)));
        let self_tag = { let mut v = vec![0xd9, 0xd9, 0xf7]; v.extend(&ec); v };
        let Some(a) = c.guard("decode-panic", &case, || <HashTree as HashTreeToCbor>::from_cbor(&et).map_err(|e| e.to_string())) else { return };
        let Some(b) = c.guard("decode-panic", &case, || serde_cbor::from_slice::<HashTree>(&et).map_err(|e| e.to_string())) else { return };
        for (n, x) in [("library", a), ("serde", b)] {
            match x {
                Ok(x) => { c.check(x == t && T::of(&x) == cert.0 && x.digest() == cert.0.digest(), "tree-roundtrip", &case, &|| format!("{n} decoder gave {:?}", T::of(&x))); }
                Err(e) => c.fail("tree-roundtrip", case(), format!("{n} decoder failed: {e}")),
            }
        }
        let dec: Vec<(&str, Option<Result<Certificate, String>>)> = vec![
            ("library", c.guard("decode-panic", &case, || <Certificate as CertificateToCbor>::from_cbor(&ec).map_err(|e| e.to_string()))),
            ("serde", c.guard("decode-panic", &case, || serde_cbor::from_slice::<Certificate>(&ec).map_err(|e| e.to_string()))),
            ("library, self-described", c.guard("decode-panic", &case, || <Certificate as CertificateToCbor>::from_cbor(&self_tag).map_err(|e| e.to_string()))),
            ("serde, self-described", c.guard("decode-panic", &case, || serde_cbor::from_slice::<Certificate>(&self_tag).map_err(|e| e.to_string()))),
        ];
        for (n, x) in dec {
            match x {
                None => return,
                Some(Ok(x)) => { c.check(x == k && cert_val(&x) == cert && x.tree.digest() == cert.0.digest(), "cert-roundtrip", &case, &|| format!("{n} decoder gave {x:?}")); }
                Some(Err(e)) => c.fail("cert-roundtrip", case(), format!("{n} decoder failed: {e}")),
            }
        }
    }
}
/// The preferred (shortest) encoding.
pub fn enc_plain(o: &mut Vec<u8>, t: &T, _r: &mut Rng) {
    fn h(o: &mut Vec<u8>, major: u8, v: usize) {
        let m = major << 5;
        if v < 24 { o.push(m | v as u8) } else if v < 256 { o.extend([m | 24, v as u8]) } else if v < 65536 { o.push(m | 25); o.extend((v as u16).to_be_bytes()) } else { o.push(m | 26); o.extend((v as u32).to_be_bytes()) }
    }
    fn go(o: &mut Vec<u8>, t: &T) {
        match t {
            T::E => { h(o, 4, 1); o.push(0) }
            T::F(a, b) => { h(o, 4, 3); o.push(1); go(o, a); go(o, b) }
            T::L(l, t) => { h(o, 4, 3); o.push(2); h(o, 2, l.len()); o.extend(l); go(o, t) }
            T::V(v) => { h(o, 4, 2); o.push(3); h(o, 2, v.len()); o.extend(v) }
            T::P(v) => { h(o, 4, 2); o.push(4); h(o, 2, 32); o.extend(v) }
        }
    }
    go(o, t)
}
