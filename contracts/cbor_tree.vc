//@source ce packages/ic-cbor/src/error.rs
//@source cf packages/ic-certification/src/certificate.rs
//@derive CborError
//@derive Certificate
//@derive Delegation
//@gsubst `.iter()` => `.it()`
//@gsubst `.to_owned()` => `.clone()`
//@ctor CborError::IncorrectPrunedDataLength CborError::Utf8ConversionError
//@take ce CborResult CborError
//@take cf Certificate Delegation
//@text
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
impl Clone for CborValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl CborValue { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
impl HashMap<String, CborValue> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&CborValue>) ensures match r {
        Some(v) => vmap(self.e@).contains_pair(k@, vw(*v)),
        None => !vmap(self.e@).dom().contains(k@) } { unimplemented!() }
}
/// The hash tree an item encodes (certificate CDDL of the interface specification); None when it encodes none.
pub open spec fn tree_of(v: V) -> Option<ST> decreases v {
    match v {
        V::A(a) => if a.len() == 0 { None } else { match a[0] {
            V::T(CborHashTree::Empty) => if a.len() == 1 { Some(ST::Empty) } else { None },
            V::T(CborHashTree::Leaf) => if a.len() == 2 { match a[1] { V::B(b) => Some(ST::Leaf(b)), _ => None } } else { None },
            V::T(CborHashTree::Pruned) => if a.len() == 2 { match a[1] { V::B(b) => if b.len() == 32 { Some(ST::Pruned(to_hash(b))) } else { None }, _ => None } } else { None },
            V::T(CborHashTree::Labelled) => if a.len() == 3 { match (a[1], tree_of(a[2])) { (V::B(l), Some(t)) => Some(ST::Labeled(l, Box::new(t))), _ => None } } else { None },
            V::T(CborHashTree::Fork) => if a.len() == 3 { match (tree_of(a[1]), tree_of(a[2])) { (Some(l), Some(r)) => Some(ST::Fork(Box::new(l), Box::new(r))), _ => None } } else { None },
            _ => None,
        } },
        _ => None,
    }
}
/// The array of 32 bytes with the given elements.
pub open spec fn to_hash(b: Seq<u8>) -> Hash { choose|h: Hash| h@ == b }
pub broadcast axiom fn ax_hash_of_slice(s: &[u8])
    ensures match #[trigger] <Hash as TryFromSpec<&[u8]>>::try_from_spec(s) { Ok(h) => s@.len() == 32 && h@ == s@ && h == to_hash(s@), Err(_) => s@.len() != 32 };
pub axiom fn ax_hash_obeys() ensures <Hash as TryFromSpec<&[u8]>>::obeys_try_from_spec();
pub broadcast axiom fn ax_self_vec(h: Vec<u8>) ensures #[trigger] <Vec<u8> as FromSpec<Vec<u8>>>::from_spec(h) == h;
pub broadcast axiom fn ax_self_label(h: Label<Vec<u8>>) ensures #[trigger] <Label<Vec<u8>> as FromSpec<Label<Vec<u8>>>>::from_spec(h) == h;
pub axiom fn ax_self_obeys() ensures <Vec<u8> as FromSpec<Vec<u8>>>::obeys_from_spec(), <Label<Vec<u8>> as FromSpec<Label<Vec<u8>>>>::obeys_from_spec();
/// The certificate an item encodes.
pub open spec fn cert_of(v: V) -> Option<(ST, Seq<u8>, Option<(Seq<u8>, Seq<u8>)>)> {
    match v {
        V::M(m) => if m.dom().contains("tree"@) && m.dom().contains("signature"@) {
            match (tree_of(m["tree"@]), m["signature"@]) {
                (Some(t), V::B(s)) => if m.dom().contains("delegation"@) {
                    match deleg_of(m["delegation"@]) { Some(d) => Some((t, s, Some(d))), None => None }
                } else { Some((t, s, None)) },
                _ => None,
            }
        } else { None },
        _ => None,
    }
}
pub open spec fn deleg_of(v: V) -> Option<(Seq<u8>, Seq<u8>)> {
    match v {
        V::M(m) => if m.dom().contains("subnet_id"@) && m.dom().contains("certificate"@) {
            match (m["subnet_id"@], m["certificate"@]) { (V::B(a), V::B(b)) => Some((a, b)), _ => None }
        } else { None },
        _ => None,
    }
}
pub open spec fn cert_view(c: Certificate<Vec<u8>>) -> (ST, Seq<u8>, Option<(Seq<u8>, Seq<u8>)>) {
    (tv(c.tree.root), c.signature@, match c.delegation { Some(d) => Some((d.subnet_id@, d.certificate@)), None => None })
}
/// The principal ranges an item encodes.
pub open spec fn range_of(v: V) -> Option<(Seq<u8>, Seq<u8>)> {
    match v { V::A(a) => if a.len() == 2 { match (a[0], a[1]) { (V::B(x), V::B(y)) => if x.len() <= 29 && y.len() <= 29 { Some((x, y)) } else { None }, _ => None } } else { None }, _ => None }
}
pub open spec fn ranges_of(v: V) -> Option<Seq<(Seq<u8>, Seq<u8>)>> {
    match v {
        V::A(a) => if forall|i: int| 0 <= i < a.len() ==> range_of(#[trigger] a[i]) is Some { Some(Seq::new(a.len(), |i: int| range_of(a[i])->Some_0)) } else { None },
        _ => None,
    }
}
pub open spec fn ranges_view(r: Seq<(Principal, Principal)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(r.len(), |i: int| (r[i].0@, r[i].1@)) }
pub open spec fn strings_view(r: Seq<String>) -> Seq<Seq<char>> { Seq::new(r.len(), |i: int| r[i]@) }
pub open spec fn string_of(v: V) -> Option<Seq<char>> { match v { V::B(b) => utf8(b), _ => None } }
pub open spec fn strings_of(v: V) -> Option<Seq<Seq<char>>> {
    match v {
        V::A(a) => if forall|i: int| 0 <= i < a.len() ==> string_of(#[trigger] a[i]) is Some { Some(Seq::new(a.len(), |i: int| string_of(a[i])->Some_0)) } else { None },
        _ => None,
    }
}
pub fn slice_pat2<'a, T>(s: &'a [T]) -> (r: Option<(&'a T, &'a T)>)
    ensures match r { Some((a, b)) => s@.len() == 2 && *a == s@[0] && *b == s@[1], None => s@.len() != 2 }
{ if s.len() == 2 { Some((&s[0], &s[1])) } else { None } }
pub trait VecReverse<T> { spec fn seq_of(&self) -> Seq<T>; fn reverse(&mut self) ensures final(self).seq_of() == old(self).seq_of().reverse(); }
impl<T> VecReverse<T> for Vec<T> { open spec fn seq_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn reverse(&mut self) { unimplemented!() } }
impl FromSpecImpl<Vec<u8>> for Label<Vec<u8>> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: Vec<u8>) -> Label<Vec<u8>> { Label(o) }
}
impl From<Vec<u8>> for Label<Vec<u8>> { #[verifier::external_body] fn from(s: Vec<u8>) -> Self { unimplemented!() } }
//@take cb parse_cbor_principals_array parse_cbor_string_array
//@text
pub mod tc {
use super::*;
pub use super::rb::HashTree;
pub type Certificate = super::Certificate<Vec<u8>>;
pub type Delegation = super::Delegation<Vec<u8>>;
//@take ct parsed_cbor_to_tree HashTreeToCbor impl:HashTreeToCbor:HashTree
//@take cc parsed_cbor_to_certificate CertificateToCbor impl:CertificateToCbor:Certificate
//@text
}
//@fn parsed_cbor_to_tree C09 C10
//@ret r
//@spec
    ensures match r { Ok(t) => tree_of(vw(*parsed_cbor)) == Some(tv(t.root)), Err(_) => tree_of(vw(*parsed_cbor)) is None }
    decreases *parsed_cbor
//@entry
    broadcast use group_conv, ax_hash_of_slice, ax_self_vec, ax_self_label, ax_bytes_vec, ax_bytes_slice, ax_bytes_ref;
    proof { ax_obeys(); ax_hash_obeys(); ax_self_obeys(); }
    reveal_with_fuel(tree_of, 2);
//@try `IncorrectPruned`
 proof { assert(data@ == bytes(&data)); assert(data@.len() != 32 ==> t_ is Err); assert(t_ is Ok ==> t_->Ok_0 == to_hash(data@)); }
//@before `cbor_tags.reverse()`
        let ghost a0 = cbor_tags@;
        let ghost av = vw(*parsed_cbor)->A_0;
        proof { assert(av.len() == a0.len()); assert forall|i: int| 0 <= i < a0.len() implies av[i] == vw(#[trigger] a0[i]) by {} }
//@after `cbor_tags.reverse();`
        let ghost rv = cbor_tags@;
        proof { assert(rv.len() == a0.len()); assert forall|i: int| 0 <= i < a0.len() implies #[trigger] rv[i] == a0[a0.len() - 1 - i] by {} }
//@fn parsed_cbor_to_certificate C09 C10
//@ret r
//@spec
    ensures match r { Ok(c) => cert_of(vw(parsed_cbor)) == Some(cert_view(c)), Err(_) => cert_of(vw(parsed_cbor)) is None }
//@fn parse_cbor_principals_array C09
//@ret r
//@spec
    ensures match r { Ok(v) => decoded(i@) is Some && ranges_of(decoded(i@)->Some_0) == Some(ranges_view(v@)), Err(_) => decoded(i@) is None || ranges_of(decoded(i@)->Some_0) is None }
//@closure 1
-> (r: Result<(Principal, Principal), CborError>) ensures match r { Ok(p) => range_of(vw(*ranges_entry)) == Some((p.0@, p.1@)), Err(_) => range_of(vw(*ranges_entry)) is None }
//@before? `let (first_principal, second_principal)`
            assert(vw(*ranges_entry)->A_0.len() == range@.len() && forall|i: int| 0 <= i < range@.len() ==> vw(*ranges_entry)->A_0[i] == vw(#[trigger] range@[i]));
//@tail
    let ghost es = ranges_entries@;
    proof {
        let av = decoded(i@)->Some_0->A_0;
        assert(av.len() == es.len() && forall|k: int| #![trigger av[k]] #![trigger es[k]] 0 <= k < es.len() ==> av[k] == vw(es[k]));
        let r1 = r; match r1 {
            Ok(q) => {
                assert forall|k: int| 0 <= k < av.len() implies range_of(#[trigger] av[k]) == Some((q@[k].0@, q@[k].1@)) by { let e = es[k]; let x = q@[k]; }
                assert(ranges_of(V::A(av))->Some_0 =~= ranges_view(q@));
            },
            Err(_) => { let k = choose|k: int| 0 <= k < es.len() && range_of(vw(#[trigger] es[k])) is None; assert(range_of(av[k]) is None); },
        }
    }
//@fn parse_cbor_string_array C09
//@closure 1
-> (r: Result<String, CborError>) ensures match r { Ok(p) => string_of(vw(*elem)) == Some(p@), Err(_) => string_of(vw(*elem)) is None }
//@tail
    let ghost es = elems@;
    proof {
        let av = decoded(i@)->Some_0->A_0;
        assert(av.len() == es.len() && forall|k: int| #![trigger av[k]] #![trigger es[k]] 0 <= k < es.len() ==> av[k] == vw(es[k]));
        let r1 = r; match r1 {
            Ok(q) => {
                assert forall|k: int| 0 <= k < av.len() implies string_of(#[trigger] av[k]) == Some(q@[k]@) by { let e = es[k]; let x = q@[k]; }
                assert(strings_of(V::A(av))->Some_0 =~= strings_view(q@));
            },
            Err(_) => { let k = choose|k: int| 0 <= k < es.len() && string_of(vw(#[trigger] es[k])) is None; assert(string_of(av[k]) is None); },
        }
    }
//@ret r
//@spec
    ensures match r { Ok(v) => decoded(i@) is Some && strings_of(decoded(i@)->Some_0) == Some(strings_view(v@)), Err(_) => decoded(i@) is None || strings_of(decoded(i@)->Some_0) is None }
//@fn HashTree::HashTreeToCbor::from_cbor C09 C10
//@ret r
//@spec
    ensures match r { Ok(t) => decoded(cbor@) is Some && tree_of(decoded(cbor@)->Some_0) == Some(tv(t.root)), Err(_) => decoded(cbor@) is None || tree_of(decoded(cbor@)->Some_0) is None }
//@fn Certificate::CertificateToCbor::from_cbor C09 C10
//@ret r
//@spec
    ensures match r { Ok(c) => decoded(cbor@) is Some && cert_of(decoded(cbor@)->Some_0) == Some(cert_view(c)), Err(_) => decoded(cbor@) is None || cert_of(decoded(cbor@)->Some_0) is None }
