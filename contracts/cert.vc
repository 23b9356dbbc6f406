//@source cv packages/ic-certificate-verification/src/certificate_verification.rs
//@source er packages/ic-certificate-verification/src/error.rs
//@source sv packages/ic-certificate-verification/src/signature_verification/mod.rs
//@source sc packages/ic-certificate-verification/src/signature_verification/signature_cache.rs
//@source cf packages/ic-certification/src/certificate.rs
//@source ce packages/ic-cbor/src/error.rs
//@derive CertificateVerificationError
//@itemattr CertificateVerificationError #[allow(inconsistent_fields)]
//@derive Certificate
//@derive Delegation
//@derive SignatureCacheEntry
//@gsubst `.iter()` => `.it()`
//@take cf Certificate Delegation
//@text
// ---------------------------------------------------------------- contracts discharged in the unit "cbor"
#[verifier::external_body]
pub struct CborError { x: u8 }
pub mod ic_cbor { pub use super::CborError; }
/// A certificate: tree, signature, delegation (subnet id, encoded certificate).
pub type CertV = (ST, Seq<u8>, Option<(Seq<u8>, Seq<u8>)>);
pub open spec fn cert_view(c: Certificate<Vec<u8>>) -> CertV {
    (tv(c.tree.root), c.signature@, match c.delegation { Some(d) => Some((d.subnet_id@, d.certificate@)), None => None })
}
pub uninterp spec fn cbor_cert(s: Seq<u8>) -> Option<CertV>;
pub uninterp spec fn cbor_ranges(s: Seq<u8>) -> Option<Seq<(Seq<u8>, Seq<u8>)>>;
pub open spec fn ranges_view(r: Seq<(Principal, Principal)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(r.len(), |i: int| (r[i].0@, r[i].1@)) }
impl Certificate<Vec<u8>> {
    #[verifier::external_body]
    pub fn from_cbor(s: &[u8]) -> (r: Result<Self, CborError>) ensures match r { Ok(c) => cbor_cert(s@) == Some(cert_view(c)), Err(_) => cbor_cert(s@) is None } { unimplemented!() }
}
#[verifier::external_body]
pub fn parse_cbor_principals_array(s: &[u8]) -> (r: Result<Vec<(Principal, Principal)>, CborError>)
    ensures match r { Ok(v) => cbor_ranges(s@) == Some(ranges_view(v@)), Err(_) => cbor_ranges(s@) is None } { unimplemented!() }
/// leb128::read::unsigned (assumed contract)
pub mod leb128 { pub mod read {
    use super::super::*;
    #[verifier::external_body] pub struct Error { x: u8 }
    #[verifier::external_body]
    pub fn unsigned(r: &mut &[u8]) -> (o: Result<u64, Error>) ensures match o { Ok(v) => leb(old(r)@) == Some(v as nat), Err(_) => leb(old(r)@) is None } { unimplemented!() }
} }

// ---------------------------------------------------------------- signatures
/// The BLS library's verdict, an uninterpreted function of its inputs.
pub uninterp spec fn bls(pk: Seq<u8>, sig: Seq<u8>, msg: Seq<u8>) -> bool;
pub open spec fn pt(p: Seq<u8>, n: int) -> bool { p.len() == n && p[0] >= 128 }
/// The triple is well-formed and verifies.
pub open spec fn accepts(pk: Seq<u8>, sig: Seq<u8>, msg: Seq<u8>) -> bool { pt(pk, 96) && pt(sig, 48) && bls(pk, sig, msg) }
pub mod miracl {
    use super::*;
    pub const BLS_OK: isize = 0;
    /// The library reads 96 and 48 bytes without checking that they are there.
    #[verifier::external_body]
    pub fn core_verify(sig: &[u8], msg: &[u8], pk: &[u8]) -> (r: isize)
        requires sig@.len() == 48, pk@.len() == 96
        ensures pt(pk@, 96) && pt(sig@, 48) ==> ((r == 0) == bls(pk@, sig@, msg@)) { unimplemented!() }
}
pub use miracl::*;
/// What may be in the cache: the hash of a triple that verifies.
pub open spec fn admissible(h: [u8; 32]) -> bool {
    exists|pk: Seq<u8>, sig: Seq<u8>, msg: Seq<u8>| #[trigger] accepts(pk, sig, msg) && was_hashed(pk + sig + msg) && h == sha256(pk + sig + msg)
}
/// Assumed: no two different byte strings that were hashed have the same SHA-256.
pub axiom fn ax_no_collision(a: Seq<u8>, b: Seq<u8>) requires was_hashed(a), was_hashed(b), sha256(a) == sha256(b) ensures a == b;
pub proof fn lemma_admissible(pk: Seq<u8>, sig: Seq<u8>, msg: Seq<u8>)
    requires admissible(sha256(pk + sig + msg)), was_hashed(pk + sig + msg), pt(pk, 96), pt(sig, 48) ensures accepts(pk, sig, msg)
{
    let (p, s, m) = choose|p: Seq<u8>, s: Seq<u8>, m: Seq<u8>| #[trigger] accepts(p, s, m) && was_hashed(p + s + m) && sha256(pk + sig + msg) == sha256(p + s + m);
    ax_no_collision(pk + sig + msg, p + s + m);
    let a = pk + sig + msg;
    assert(a == p + s + m);
    assert(a.take(96) =~= pk && (p + s + m).take(96) =~= p);
    assert(a.subrange(96, 144) =~= sig && (p + s + m).subrange(96, 144) =~= s);
    assert(a.skip(144) =~= msg && (p + s + m).skip(144) =~= m);
}
/// Assumed: every key that cache_get finds was put there by cache_set (the cache starts empty and may forget entries).
/// The precondition of cache_set makes that an invariant of the cache.
pub struct SizedCache<K, V> { pub k: K, pub v: V }
pub mod parking_lot {
    use super::*;
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Mutex<T> { x: core::marker::PhantomData<T> }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Guard<T> { x: core::marker::PhantomData<T> }
    impl<T> Mutex<T> { #[verifier::external_body] pub fn lock(&self) -> Guard<T> { unimplemented!() } }
    impl Guard<SizedCache<SignatureCacheEntry, ()>> {
        #[verifier::external_body]
        pub fn cache_get(&mut self, k: &SignatureCacheEntry) -> (r: Option<&()>) ensures r is Some ==> admissible(k.hash) { unimplemented!() }
        #[verifier::external_body]
        pub fn cache_set(&mut self, k: SignatureCacheEntry, v: ()) -> (r: Option<()>) requires admissible(k.hash) { unimplemented!() }
    }
}
impl Copy for SignatureCacheEntry {}
impl Clone for SignatureCacheEntry { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SignatureCache { #[verifier::external_body] pub fn global() -> &'static SignatureCache { unimplemented!() } }
//@take sc SignatureCacheEntry SignatureCache SignatureCacheEntry::new SignatureCache::contains SignatureCache::insert
//@take sv is_compressed_point verify_signature PUBLIC_KEY_LENGTH SIGNATURE_LENGTH COMPRESSED_POINT_FLAG
//@fn SignatureCacheEntry::new C13
//@ret r
//@spec
    ensures r.hash == sha256(pk@ + sig@ + msg@), was_hashed(pk@ + sig@ + msg@)
//@entry
    broadcast use group_core;
    assert(Seq::<u8>::empty() + pk@ + sig@ + msg@ =~= pk@ + sig@ + msg@);
//@fn SignatureCache::contains C13
//@ret r
//@spec
    ensures r ==> admissible(entry.hash)
//@fn SignatureCache::insert C13
//@spec
    requires admissible(entry.hash)
//@fn is_compressed_point C13 C12
//@ret r
//@spec
    requires length > 0
    ensures r == pt(point@, length as int)
//@entry
    assert(forall|x: u8| (x & 0x80 != 0) == (x >= 128)) by(bit_vector);
//@fn verify_signature C13 C12
//@ret r
//@spec
    ensures r is Ok <==> accepts(pk@, sig@, msg@)
//@entry
    assert(was_hashed(pk@ + sig@ + msg@) && accepts(pk@, sig@, msg@) ==> admissible(sha256(pk@ + sig@ + msg@)));
    proof { if admissible(sha256(pk@ + sig@ + msg@)) && was_hashed(pk@ + sig@ + msg@) && pt(pk@, 96) && pt(sig@, 48) { lemma_admissible(pk@, sig@, msg@); } }
//@text
// ---------------------------------------------------------------- what a certificate has to satisfy
pub open spec fn separator() -> Seq<u8> { seq![13u8, 105u8, 99u8, 45u8, 115u8, 116u8, 97u8, 116u8, 101u8, 45u8, 114u8, 111u8, 111u8, 116u8] }  // 13, "ic-state-root"
pub open spec fn sig_ok(t: ST, sig: Seq<u8>, der: Seq<u8>) -> bool {
    der.len() == 133 && der.take(37) == der_prefix() && accepts(der.skip(37), sig, separator() + dg(t)@)
}
pub open spec fn p1(a: Seq<u8>) -> Seq<Seq<u8>> { seq![a] }
pub open spec fn sub_path(subnet: Seq<u8>, name: Seq<u8>) -> Seq<Seq<u8>> { seq!["subnet".spec_bytes(), subnet, name] }
pub open spec fn in_ranges(p: Seq<u8>, r: Seq<(Seq<u8>, Seq<u8>)>) -> bool { exists|i: int| #![trigger r[i]] 0 <= i < r.len() && pr_le(r[i].0, p) && pr_le(p, r[i].1) }
/// What an accepted delegation shows: a certificate signed under the root key, without a further delegation,
/// in which the subnet has a canister range with this canister, and this public key.
pub open spec fn deleg_ok(d: (Seq<u8>, Seq<u8>), canister: Seq<u8>, root: Seq<u8>, key: Seq<u8>) -> bool {
    cbor_cert(d.1) is Some && {
        let c = cbor_cert(d.1)->Some_0;
        &&& c.2 is None
        &&& sig_ok(c.0, c.1, root)
        &&& exists|rb: Seq<u8>| #[trigger] leads(sub_path(d.0, "canister_ranges".spec_bytes()), rb, c.0) && cbor_ranges(rb) is Some && in_ranges(canister, cbor_ranges(rb)->Some_0)
        &&& leads(sub_path(d.0, "public_key".spec_bytes()), key, c.0)
    }
}
/// The same as a function, for a certificate whose tree is well-formed.
pub open spec fn deleg_key(d: (Seq<u8>, Seq<u8>), canister: Seq<u8>, root: Seq<u8>) -> Option<Seq<u8>> {
    match cbor_cert(d.1) {
        Some((t, s, None)) => if sig_ok(t, s, root) {
            match lookup_spec(sub_path(d.0, "canister_ranges".spec_bytes()), t) {
                Look::Found(rb) => match cbor_ranges(rb) {
                    Some(rs) => if in_ranges(canister, rs) {
                        match lookup_spec(sub_path(d.0, "public_key".spec_bytes()), t) { Look::Found(k) => Some(k), _ => None }
                    } else { None },
                    None => None,
                },
                _ => None,
            }
        } else { None },
        _ => None,
    }
}
pub open spec fn deleg_wf(d: (Seq<u8>, Seq<u8>)) -> bool { cbor_cert(d.1) is Some ==> wf_tree(cbor_cert(d.1)->Some_0.0) }
pub open spec fn in_window(t: nat, now: u128, off: u128) -> bool { t <= now + off && t + off >= now }
pub open spec fn cert_signed(c: CertV, canister: Seq<u8>, root: Seq<u8>) -> bool {
    match c.2 { None => sig_ok(c.0, c.1, root), Some(d) => exists|k: Seq<u8>| #[trigger] deleg_ok(d, canister, root, k) && sig_ok(c.0, c.1, k) }
}
/// The same as a function, for well-formed trees.
pub open spec fn cert_good(c: CertV, canister: Seq<u8>, root: Seq<u8>, now: u128, off: u128) -> bool {
    (match lookup_spec(p1("time".spec_bytes()), c.0) { Look::Found(v) => leb(v) is Some && in_window(leb(v)->Some_0, now, off), _ => false })
    && (match c.2 { None => sig_ok(c.0, c.1, root), Some(d) => match deleg_key(d, canister, root) { Some(k) => sig_ok(c.0, c.1, k), None => false } })
}
pub open spec fn cert_wf(c: CertV) -> bool { wf_tree(c.0) && match c.2 { Some(d) => deleg_wf(d), None => true } }
pub open spec fn time_ok(t: ST, now: u128, off: u128) -> bool {
    exists|v: Seq<u8>| #[trigger] leads(p1("time".spec_bytes()), v, t) && leb(v) is Some && in_window(leb(v)->Some_0, now, off)
}
/// Assumed: the conversion of std keeps the bytes.
pub broadcast axiom fn ax_vec_from_slice(s: &[u8]) ensures #[trigger] <Vec<u8> as FromSpec<&[u8]>>::from_spec(s)@ == s@;
pub axiom fn ax_obeys() ensures <Vec<u8> as FromSpec<&[u8]>>::obeys_from_spec();
impl FromSpecImpl<CborError> for CertificateVerificationError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: CborError) -> Self { CertificateVerificationError::CborDecodingFailed(e) } }
impl From<CborError> for CertificateVerificationError { fn from(e: CborError) -> Self { CertificateVerificationError::CborDecodingFailed(e) } }
//@take er CertificateVerificationResult CertificateVerificationError
//@text
pub mod vc {
use super::*;
pub type Certificate = super::Certificate<Vec<u8>>;
pub type Delegation = super::Delegation<Vec<u8>>;
//@take cv IC_STATE_ROOT_DOMAIN_SEPARATOR DER_PREFIX KEY_LENGTH extract_der principal_is_within_ranges VerifyCertificate impl:VerifyCertificate<()>:Certificate verify_delegation verify_certificate_time verify_certificate_signature
//@text
}
/// DER header of a BLS12-381 G2 public key (IC interface specification).
pub open spec fn der_prefix() -> Seq<u8> { seq![48u8, 129u8, 130u8, 48u8, 29u8, 6u8, 13u8, 43u8, 6u8, 1u8, 4u8, 1u8, 130u8, 220u8, 124u8, 5u8, 3u8, 1u8, 2u8, 1u8, 6u8, 12u8, 43u8, 6u8, 1u8, 4u8, 1u8, 130u8, 220u8, 124u8, 5u8, 3u8, 2u8, 1u8, 3u8, 97u8, 0u8] }
//@fn VerifyCertificate::verify C12
//@spec
    requires canister_id@.len() <= 29
//@fn extract_der C12
//@ret r
//@spec
    ensures match r { Ok(k) => buf@.len() == 133 && buf@.take(37) == der_prefix() && k@ == buf@.skip(37), Err(_) => !(buf@.len() == 133 && buf@.take(37) == der_prefix()) }
//@entry
    broadcast use group_core, group_slice;
    proof { ax_slice_eq_obeys(); ax_is_bytes(buf@); }
//@fn principal_is_within_ranges C12
//@ret r
//@spec
    ensures r == in_ranges(principal@, ranges_view(ranges@))
//@entry
    broadcast use group_principal, lemma_pr_flip;
    proof { ax_principal_obeys(); }
//@tail
    proof {
        let v = ranges_view(ranges@);
        assert(forall|i: int| #![trigger v[i]] #![trigger ranges@[i]] 0 <= i < v.len() ==> v[i] == (ranges@[i].0@, ranges@[i].1@));
        assert(ranges.items_of() == ranges@);
        let r1 = r;
        if r1 { assert(exists|i: int| #![trigger v[i]] 0 <= i < v.len() && pr_le(v[i].0, principal@) && pr_le(principal@, v[i].1)); }
        else { assert(forall|i: int| 0 <= i < v.len() ==> !(pr_le(#[trigger] v[i].0, principal@) && pr_le(principal@, v[i].1))); }
    }
//@closure 0
-> (b: bool) ensures b == (pr_le(r.0@, principal@) && pr_le(principal@, r.1@))
//@fn verify_certificate_time C11
//@ret r
//@spec
    ensures
        r is Ok ==> time_ok(tv(certificate.tree.root), *current_time_ns, *allowed_certificate_time_offset),
        wf_tree(tv(certificate.tree.root)) ==> match lookup_spec(p1("time".spec_bytes()), tv(certificate.tree.root)) {
            Look::Found(v) => match leb(v) {
                Some(t) => match r {
                    Ok(_) => in_window(t, *current_time_ns, *allowed_certificate_time_offset),
                    Err(CertificateVerificationError::TimeTooFarInTheFuture { certificate_time, .. }) => t == certificate_time && t > *current_time_ns + *allowed_certificate_time_offset,
                    Err(CertificateVerificationError::TimeTooFarInThePast { certificate_time, .. }) => t == certificate_time && t + *allowed_certificate_time_offset < *current_time_ns,
                    Err(_) => false,
                },
                None => r is Err,
            },
            _ => r is Err,
        },
//@entry
    broadcast use group_core, group_path;
//@fn verify_certificate_signature C12
//@ret r
//@spec
    ensures r is Ok <==> sig_ok(tv(certificate.tree.root), certificate.signature@, der_key@)
//@entry
    broadcast use group_core, group_path;
//@tail
    assert(msg@ =~= separator() + dg(tv(certificate.tree.root))@);
//@fn verify_delegation C12
//@ret r
//@spec
    requires canister_id@.len() <= 29
    ensures
        r is Ok ==> deleg_ok((delegation.subnet_id@, delegation.certificate@), canister_id@, root_public_key@, r->Ok_0@),
        deleg_wf((delegation.subnet_id@, delegation.certificate@)) ==> match r {
            Ok(k) => deleg_key((delegation.subnet_id@, delegation.certificate@), canister_id@, root_public_key@) == Some(k@),
            Err(_) => deleg_key((delegation.subnet_id@, delegation.certificate@), canister_id@, root_public_key@) is None },
//@entry
    broadcast use group_core, group_path, ax_vec_from_slice;
    proof { ax_obeys(); }
//@before? `if !principal_is_within_ranges`
    let zz = &canister_ranges[..]; assert(zz@.len() == canister_ranges@.len()); assert(zz@ =~= canister_ranges@);
//@fn Certificate::VerifyCertificate::verify C11 C12
//@ret r
//@spec
    ensures
        r is Ok ==> time_ok(tv(self.tree.root), *current_time_ns, *allowed_certificate_time_offset),
        r is Ok ==> cert_signed(cert_view(*self), canister_id@, root_public_key@),
        cert_wf(cert_view(*self)) ==> (r is Ok <==> cert_good(cert_view(*self), canister_id@, root_public_key@, *current_time_ns, *allowed_certificate_time_offset)),
//@entry
    broadcast use group_core, group_path, ax_vec_from_slice;
    proof { ax_obeys(); }
//@tail
    proof { let r1 = r; if r1 is Ok { 
        assert(sig_ok(tv(self.tree.root), self.signature@, der_key@));
        match self.delegation { Some(ref d) => { assert(deleg_ok((d.subnet_id@, d.certificate@), canister_id@, root_public_key@, der_key@)); assert(cert_view(*self).2 == Some((d.subnet_id@, d.certificate@))); let dd = cert_view(*self).2->Some_0; assert(deleg_ok(dd, canister_id@, root_public_key@, der_key@) && sig_ok(cert_view(*self).0, cert_view(*self).1, der_key@)); assert(cert_signed(cert_view(*self), canister_id@, root_public_key@)); } None => { assert(der_key@ == root_public_key@);assert(cert_view(*self).2 is None);  assert(cert_signed(cert_view(*self), canister_id@, root_public_key@)); } }
    } }
