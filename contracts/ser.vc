//@gsubst `serde::Serializer` => `Serializer`
//@gsubst `de::Error::invalid_length` => `DeError::invalid_length`
//@gsubst `de::Error::custom(` => `DeError::custom(`
//@gsubst `de::Error::duplicate_field(` => `DeError::duplicate_field(`
//@gsubst `de::Error::missing_field(` => `DeError::missing_field(`
//@source scf packages/ic-certification/src/certificate.rs#serde_impl
//@gsubst `de::IgnoredAny` => `IgnoredAny`
//@gsubst `serde_bytes::Bytes` => `Bytes`
//@gsubst `: Deserialize<'de>` => `: Reads`
//@source slib packages/ic-certification/src/lib.rs#serde_impl
//@gsubst `serde::Serialize for` => `Serialize for`
//@source sht packages/ic-certification/src/hash_tree/mod.rs#serde_impl
//@text
// ---------------------------------------------------------------- serde's data model, as far as hash trees use it
/// A value as serde's data model has it; a struct is a map from its field names. A sequence carries the number of elements that was announced for it.
pub enum D { U8(u8), Bytes(Seq<u8>), Seq(Option<usize>, Seq<D>), Map(Seq<(Seq<char>, D)>) }
/// What a value that was written to a serializer is.
pub uninterp spec fn got<O>(o: O) -> D;
/// What a value is in the data model.
pub trait Model { spec fn model(&self) -> D; }
impl Model for u8 { open spec fn model(&self) -> D { D::U8(*self) } }
impl<'a, T: Model + ?Sized> Model for &'a T { open spec fn model(&self) -> D { T::model(*self) } }
impl<T: Model + ?Sized> Model for Box<T> { open spec fn model(&self) -> D { T::model(&**self) } }
/// serde_bytes::Bytes: written as a byte string.
pub struct Bytes { pub b: [u8] }
impl Bytes {
    #[verifier::external_body]
    pub fn new<'a, T: AsRef<[u8]> + ?Sized>(b: &'a T) -> (r: &'a Bytes) ensures r.view_bytes() == bytes(b) { unimplemented!() }
    pub uninterp spec fn view_bytes(&self) -> Seq<u8>;
}
impl Model for Bytes { open spec fn model(&self) -> D { D::Bytes(self.view_bytes()) } }
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn announced(&self) -> Option<usize>;
    spec fn elements(&self) -> Seq<D>;
    /// assumed: the element's own Serialize implementation is run, and the output does not fail
    fn serialize_element<T: ?Sized + Model>(&mut self, v: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok, final(self).elements() == old(self).elements().push(v.model()), final(self).announced() == old(self).announced();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) && got(o) == D::Seq(self.announced(), self.elements());
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        ensures r matches Ok(s) && s.announced() == len && s.elements() == Seq::<D>::empty();
}
pub trait Serialize: Model {
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
        ensures r matches Ok(o) && got(o) == self.model();
}
/// A hash tree in the data model (certificate CDDL of the interface specification).
pub open spec fn tree_model(t: ST) -> D decreases t {
    match t {
        ST::Empty => D::Seq(Some(1usize), seq![D::U8(0)]),
        ST::Fork(l, r) => D::Seq(Some(3usize), seq![D::U8(1), tree_model(*l), tree_model(*r)]),
        ST::Labeled(l, s) => D::Seq(Some(3usize), seq![D::U8(2), D::Bytes(l), tree_model(*s)]),
        ST::Leaf(v) => D::Seq(Some(2usize), seq![D::U8(3), D::Bytes(v)]),
        ST::Pruned(h) => D::Seq(Some(2usize), seq![D::U8(4), D::Bytes(h@)]),
    }
}
impl<Storage: AsRef<[u8]>> Model for HashTreeNode<Storage> { open spec fn model(&self) -> D { tree_model(tv(*self)) } }
impl<Storage: AsRef<[u8]>> Model for HashTree<Storage> { open spec fn model(&self) -> D { tree_model(tv(self.root)) } }
//@take sht HashTreeNode::Serialize::serialize HashTree::Serialize::serialize
//@fn HashTreeNode::Serialize::serialize C10
//@entry
    broadcast use group_core;
//@before `seq.end()`##0
    proof { assert(seq.elements() =~= seq![D::U8(0)]); }
//@before `seq.end()`##1
    proof { assert(seq.elements() =~= seq![D::U8(1), tree_model(tv((*tree).0)), tree_model(tv((*tree).1))]); }
//@before `seq.end()`##2
    proof { assert(seq.elements() =~= seq![D::U8(2), D::Bytes(bytes(&label.0)), tree_model(tv(**tree))]); }
//@before `seq.end()`##3
    proof { assert(seq.elements() =~= seq![D::U8(3), D::Bytes(bytes(leaf_bytes))]); }
//@before `seq.end()`##4
    proof { assert(seq.elements() =~= seq![D::U8(4), D::Bytes(digest@)]); }
//@fn HashTree::Serialize::serialize C10
//@text
// ---------------------------------------------------------------- reading the data model
pub trait DeError: Sized {
    fn invalid_length<E>(n: usize, e: &E) -> Self;
    fn custom<T>(m: T) -> Self;
    fn duplicate_field(n: &'static str) -> Self;
    fn missing_field(n: &'static str) -> Self;
}
/// What values of a type are read from.
pub trait Reads: Sized { spec fn readable(d: D) -> bool; spec fn reads(d: D, r: Self) -> bool; }
impl Reads for u8 { open spec fn readable(d: D) -> bool { d is U8 } open spec fn reads(d: D, r: Self) -> bool { d == D::U8(r) } }
pub struct IgnoredAny;
impl Reads for IgnoredAny { open spec fn readable(d: D) -> bool { true } open spec fn reads(d: D, r: Self) -> bool { true } }
impl<'a> Reads for &'a Bytes { open spec fn readable(d: D) -> bool { d is Bytes } open spec fn reads(d: D, r: Self) -> bool { d == D::Bytes(r.view_bytes()) } }
impl<'a> Reads for ByteBuf { open spec fn readable(d: D) -> bool { d is Bytes } open spec fn reads(d: D, r: Self) -> bool { d == D::Bytes(r.b@) } }
impl<S: AsRef<[u8]>> Reads for HashTreeNode<S> { open spec fn readable(d: D) -> bool { tree_in(d) is Some } open spec fn reads(d: D, r: Self) -> bool { tree_in(d) == Some(tv(r)) } }
use std::marker::PhantomData;
pub struct Fmt { pub x: u8 }
impl Fmt {
    #[verifier::external_body] pub fn new() -> Fmt { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> Fmt { unimplemented!() }
    #[verifier::external_body] pub fn dis<T>(self, s: &T) -> Fmt { unimplemented!() }
    #[verifier::external_body] pub fn text(self) -> String { unimplemented!() }
}
pub struct ByteBuf { pub b: Vec<u8> }
impl ByteBuf { pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self.b@ { self.b } }
impl Bytes {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.view_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
}
/// assumed: an element is read by its own Deserialize implementation, from the next value of the sequence
pub trait SeqAccess<'de>: Sized {
    type Error: DeError;
    spec fn rest(&self) -> Seq<D>;
    fn next_element<T: Reads>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        ensures old(self).rest().len() == 0 ==> r == Ok::<Option<T>, Self::Error>(None) && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().skip(1) && match r {
                Ok(Some(t)) => T::readable(old(self).rest()[0]) && T::reads(old(self).rest()[0], t),
                Ok(None) => false,
                Err(_) => !T::readable(old(self).rest()[0]) };
}
/// assumed: keys are read by the derived Deserialize of the field enumerations (an unknown name is an error), values as in SeqAccess
pub trait MapAccess<'de>: Sized {
    type Error: DeError;
    spec fn entries(&self) -> Seq<(Seq<char>, D)>;
    spec fn pending(&self) -> Option<D>;
    fn next_key<K: Names>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        ensures old(self).entries().len() == 0 ==> r == Ok::<Option<K>, Self::Error>(None) && final(self).entries() == old(self).entries(),
            old(self).entries().len() > 0 ==> final(self).entries() == old(self).entries().skip(1) && final(self).pending() == Some(old(self).entries()[0].1) && match r {
                Ok(Some(k)) => K::named(old(self).entries()[0].0, k),
                Ok(None) => false,
                Err(_) => !K::known(old(self).entries()[0].0) };
    fn next_value<T: Reads>(&mut self) -> (r: Result<T, Self::Error>)
        requires old(self).pending() is Some
        ensures final(self).entries() == old(self).entries(), match r {
            Ok(t) => T::readable(old(self).pending()->0) && T::reads(old(self).pending()->0, t),
            Err(_) => !T::readable(old(self).pending()->0) };
}
pub trait Names: Sized { spec fn known(n: Seq<char>) -> bool; spec fn named(n: Seq<char>, k: Self) -> bool; }
impl Names for CertificateField {
    open spec fn known(n: Seq<char>) -> bool { n == "tree"@ || n == "signature"@ || n == "delegation"@ }
    open spec fn named(n: Seq<char>, k: Self) -> bool { match k { CertificateField::Tree => n == "tree"@, CertificateField::Signature => n == "signature"@, CertificateField::Delegation => n == "delegation"@ } }
}
impl Names for DelegationField {
    open spec fn known(n: Seq<char>) -> bool { n == "subnet_id"@ || n == "certificate"@ }
    open spec fn named(n: Seq<char>, k: Self) -> bool { match k { DelegationField::SubnetId => n == "subnet_id"@, DelegationField::Certificate => n == "certificate"@ } }
}
impl<S: AsRef<[u8]>> Reads for HashTree<S> { open spec fn readable(d: D) -> bool { tree_in(d) is Some } open spec fn reads(d: D, r: Self) -> bool { tree_in(d) == Some(tv(r.root)) } }
impl<S: AsRef<[u8]>> Reads for Delegation<S> { open spec fn readable(d: D) -> bool { deleg_in(d) is Some } open spec fn reads(d: D, r: Self) -> bool { deleg_in(d) == Some(deleg_seen(r)) } }
pub open spec fn bytes_in(d: D) -> Option<Seq<u8>> { match d { D::Bytes(b) => Some(b), _ => None } }
/// The delegation read so far; None as soon as a field is unknown, repeated or malformed.
pub open spec fn deleg_fold(e: Seq<(Seq<char>, D)>) -> Option<(Option<Seq<u8>>, Option<Seq<u8>>)> decreases e.len() {
    if e.len() == 0 { Some((None, None)) } else { match deleg_fold(e.drop_last()) { None => None, Some((a, b)) => {
        let (n, d) = e.last();
        if n == "subnet_id"@ { if a is Some || bytes_in(d) is None { None } else { Some((bytes_in(d), b)) } }
        else if n == "certificate"@ { if b is Some || bytes_in(d) is None { None } else { Some((a, bytes_in(d))) } }
        else { None } } } }
}
pub open spec fn deleg_in_map(e: Seq<(Seq<char>, D)>) -> Option<(Seq<u8>, Seq<u8>)> { match deleg_fold(e) { Some((Some(a), Some(b))) => Some((a, b)), _ => None } }
pub open spec fn deleg_in(d: D) -> Option<(Seq<u8>, Seq<u8>)> { match d { D::Map(e) => deleg_in_map(e), D::Seq(_, a) => deleg_in_seq(a), _ => None } }
pub open spec fn deleg_in_seq(a: Seq<D>) -> Option<(Seq<u8>, Seq<u8>)> { if a.len() < 2 { None } else { match (bytes_in(a[0]), bytes_in(a[1])) { (Some(x), Some(y)) => Some((x, y)), _ => None } } }
pub open spec fn cert_fold(e: Seq<(Seq<char>, D)>) -> Option<(Option<ST>, Option<Seq<u8>>, Option<(Seq<u8>, Seq<u8>)>)> decreases e.len() {
    if e.len() == 0 { Some((None, None, None)) } else { match cert_fold(e.drop_last()) { None => None, Some((a, b, c)) => {
        let (n, d) = e.last();
        if n == "tree"@ { if a is Some || tree_in(d) is None { None } else { Some((tree_in(d), b, c)) } }
        else if n == "signature"@ { if b is Some || bytes_in(d) is None { None } else { Some((a, bytes_in(d), c)) } }
        else if n == "delegation"@ { if c is Some || deleg_in(d) is None { None } else { Some((a, b, deleg_in(d))) } }
        else { None } } } }
}
pub open spec fn cert_in_map(e: Seq<(Seq<char>, D)>) -> Option<CertData> { match cert_fold(e) { Some((Some(a), Some(b), c)) => Some((a, b, c)), _ => None } }
pub open spec fn cert_in_seq(a: Seq<D>) -> Option<CertData> {
    if a.len() < 2 { None } else { match (tree_in(a[0]), bytes_in(a[1])) {
        (Some(t), Some(b)) => if a.len() == 2 { Some((t, b, None)) } else { match deleg_in(a[2]) { Some(d) => Some((t, b, Some(d))), None => None } },
        _ => None } }
}
pub proof fn lemma_cert_fold_none(e: Seq<(Seq<char>, D)>, k: int)
    requires 0 <= k <= e.len(), cert_fold(e.take(k)) is None
    ensures cert_fold(e) is None
    decreases e.len() - k
{
    if k < e.len() { assert(e.take(k + 1).drop_last() =~= e.take(k)); lemma_cert_fold_none(e, k + 1); } else { assert(e.take(k) =~= e); }
}
pub proof fn lemma_deleg_fold_none(e: Seq<(Seq<char>, D)>, k: int)
    requires 0 <= k <= e.len(), deleg_fold(e.take(k)) is None
    ensures deleg_fold(e) is None
    decreases e.len() - k
{
    if k < e.len() { assert(e.take(k + 1).drop_last() =~= e.take(k)); lemma_deleg_fold_none(e, k + 1); } else { assert(e.take(k) =~= e); }
}
pub trait Visitor<'de>: Sized {
    type Value;
    fn visit_seq<V: SeqAccess<'de>>(self, seq: V) -> (r: Result<Self::Value, V::Error>);
    #[verifier::external_body]
    fn visit_map<V: MapAccess<'de>>(self, map: V) -> (r: Result<Self::Value, V::Error>) { unimplemented!() }
}
pub trait BytesIn { spec fn bytes_in(&self) -> Seq<u8>; }
impl BytesIn for ByteBuf { open spec fn bytes_in(&self) -> Seq<u8> { self.b@ } }
impl<'a> BytesIn for &'a Bytes { open spec fn bytes_in(&self) -> Seq<u8> { self.view_bytes() } }
pub trait Storage {
    type Temp<'a>: Reads + BytesIn;
    type Value<'a>: AsRef<[u8]>;
    proof fn readable_bytes<'a>(d: D) ensures <Self::Temp<'a> as Reads>::readable(d) == (d is Bytes);
    proof fn reads_bytes<'a>(d: D, t: Self::Temp<'a>) ensures <Self::Temp<'a> as Reads>::reads(d, t) ==> d == D::Bytes(t.bytes_in());
    fn convert(t: Self::Temp<'_>) -> (r: Self::Value<'_>) ensures bytes(&r) == t.bytes_in();
}
/// The hash tree a value of the data model is.
pub open spec fn tree_in(d: D) -> Option<ST> decreases d {
    match d {
        D::Seq(_, a) => if a.len() == 0 { None } else { match a[0] {
            D::U8(0) => if a.len() == 1 { Some(ST::Empty) } else { None },
            D::U8(1) => if a.len() == 3 { match (tree_in(a[1]), tree_in(a[2])) { (Some(l), Some(r)) => Some(ST::Fork(Box::new(l), Box::new(r))), _ => None } } else { None },
            D::U8(2) => if a.len() == 3 { match (a[1], tree_in(a[2])) { (D::Bytes(l), Some(t)) => Some(ST::Labeled(l, Box::new(t))), _ => None } } else { None },
            D::U8(3) => if a.len() == 2 { match a[1] { D::Bytes(b) => Some(ST::Leaf(b)), _ => None } } else { None },
            D::U8(4) => if a.len() == 2 { match a[1] { D::Bytes(b) => if b.len() == 32 { Some(ST::Pruned(to_hash(b))) } else { None }, _ => None } } else { None },
            _ => None,
        } },
        _ => None,
    }
}
// ---------------------------------------------------------------- certificates
pub type CertData = (ST, Seq<u8>, Option<(Seq<u8>, Seq<u8>)>);
pub open spec fn cert_seen<S: AsRef<[u8]>>(c: Certificate<S>) -> CertData {
    (tv(c.tree.root), bytes(&c.signature), match c.delegation { Some(d) => Some(deleg_seen(d)), None => None })
}
pub open spec fn deleg_seen<S: AsRef<[u8]>>(d: Delegation<S>) -> (Seq<u8>, Seq<u8>) { (bytes(&d.subnet_id), bytes(&d.certificate)) }
/// assumed: what the derived Serialize implementations write (the fields in their order; no delegation when there is none)
pub open spec fn deleg_model(d: (Seq<u8>, Seq<u8>)) -> D { D::Map(seq![("subnet_id"@, D::Bytes(d.0)), ("certificate"@, D::Bytes(d.1))]) }
pub open spec fn cert_model(c: CertData) -> D {
    let e = seq![("tree"@, tree_model(c.0)), ("signature"@, D::Bytes(c.1))];
    D::Map(match c.2 { Some(d) => e.push(("delegation"@, deleg_model(d))), None => e })
}
//@take sht HashTreeNodeVisitor HashTreeNodeVisitor::Visitor::visit_seq
//@fn HashTreeNodeVisitor::Visitor::visit_seq C10 C09
//@ret r
//@spec
    ensures match r { Ok(t) => tree_in(D::Seq(None, seq.rest())) == Some(tv(t)), Err(_) => tree_in(D::Seq(None, seq.rest())) is None }
//@entry
    broadcast use group_core, ax_hash_of_slice;
    proof {
        ax_hash_obeys();
        assert forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes) by { S::readable_bytes(d); }
        assert forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) implies d == D::Bytes(t.bytes_in()) by { S::reads_bytes(d, t); }
    }
//@opt inline-map-err
//@opt fmt
//@take scf CertificateField DelegationField DelegationVisitor DelegationVisitor::Visitor::visit_seq DelegationVisitor::Visitor::visit_map CertificateVisitor CertificateVisitor::Visitor::visit_seq CertificateVisitor::Visitor::visit_map
//@fn DelegationVisitor::Visitor::visit_seq C10
//@ret r
//@spec
    ensures match r { Ok(t) => deleg_in_seq(seq.rest()) == Some(deleg_seen(t)), Err(_) => deleg_in_seq(seq.rest()) is None }
//@entry
    broadcast use group_core;
    proof {
        assert forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes) by { S::readable_bytes(d); }
        assert forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) implies d == D::Bytes(t.bytes_in()) by { S::reads_bytes(d, t); }
    }
//@fn CertificateVisitor::Visitor::visit_seq C10
//@ret r
//@spec
    ensures match r { Ok(t) => cert_in_seq(seq.rest()) == Some(cert_seen(t)), Err(_) => cert_in_seq(seq.rest()) is None }
//@entry
    broadcast use group_core;
    proof {
        assert forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes) by { S::readable_bytes(d); }
        assert forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) implies d == D::Bytes(t.bytes_in()) by { S::reads_bytes(d, t); }
    }
//@fn DelegationVisitor::Visitor::visit_map C10
//@subst `let mut subnet_id = None;` => `let mut subnet_id: Option<S::Temp<'de>> = None;`
//@subst `let mut certificate = None;` => `let mut certificate: Option<S::Temp<'de>> = None;`
//@ret r
//@spec
    ensures match r { Ok(t) => deleg_in_map(map.entries()) == Some(deleg_seen(t)), Err(_) => deleg_in_map(map.entries()) is None }
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    broadcast use group_core;
    let ghost e0 = map.entries();
    proof {
        assert forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes) by { S::readable_bytes(d); }
        assert forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) implies d == D::Bytes(t.bytes_in()) by { S::reads_bytes(d, t); }
        lemma_names();
        assert forall|k: int| 0 <= k <= e0.len() && #[trigger] deleg_fold(e0.take(k)) is None implies deleg_fold(e0) is None by { lemma_deleg_fold_none(e0, k); }
        assert forall|k: int| 0 <= k < e0.len() && !DelegationField::known((#[trigger] e0[k]).0) implies deleg_fold(e0) is None by { assert(e0.take(k + 1).last() == e0[k]); lemma_deleg_fold_none(e0, k + 1); }
        assert(e0.skip(0) =~= e0);
        assert(e0.take(0) =~= Seq::<(Seq<char>, D)>::empty());
        assert(deleg_fold(e0.take(0)) is Some);
    }
//@loop 0
    invariant forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes),
            forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) ==> d == D::Bytes(t.bytes_in()),
            "tree"@ != "signature"@, "tree"@ != "delegation"@, "signature"@ != "delegation"@, "subnet_id"@ != "certificate"@,
            map.entries().len() <= e0.len(), map.entries() == e0.skip(e0.len() - map.entries().len()),
            deleg_fold(e0.take(e0.len() - map.entries().len())) == Some((match subnet_id { Some(t) => Some(t.bytes_in()), None => None }, match certificate { Some(t) => Some(t.bytes_in()), None => None })),
            forall|k: int| 0 <= k <= e0.len() && #[trigger] deleg_fold(e0.take(k)) is None ==> deleg_fold(e0) is None,
            forall|k: int| 0 <= k < e0.len() && !DelegationField::known((#[trigger] e0[k]).0) ==> deleg_fold(e0) is None,
        decreases map.entries().len()
//@loopentry 0
    proof {
        let k = e0.len() - map.entries().len();
        assert(e0.skip(k - 1).skip(1) =~= e0.skip(k));
        assert(e0.skip(k - 1)[0] == e0[k - 1]);
        assert(e0.take(k).drop_last() =~= e0.take(k - 1));
        assert(e0.take(k).last() == e0[k - 1]);
        assert(deleg_fold(e0.take(k)) is None || deleg_fold(e0.take(k)) is Some);
    }
//@before `let subnet_id =`
    proof { assert(e0.take(e0.len() as int) =~= e0); }
//@fn CertificateVisitor::Visitor::visit_map C10
//@subst `let mut tree = None;` => `let mut tree: Option<HashTree<S::Value<'de>>> = None;`
//@subst `let mut signature = None;` => `let mut signature: Option<S::Temp<'de>> = None;`
//@subst `let mut delegation = None;` => `let mut delegation: Option<Delegation<S::Value<'de>>> = None;`
//@ret r
//@spec
    ensures match r { Ok(t) => cert_in_map(map.entries()) == Some(cert_seen(t)), Err(_) => cert_in_map(map.entries()) is None }
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    broadcast use group_core;
    let ghost e0 = map.entries();
    proof {
        assert forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes) by { S::readable_bytes(d); }
        assert forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) implies d == D::Bytes(t.bytes_in()) by { S::reads_bytes(d, t); }
        lemma_names();
        assert forall|k: int| 0 <= k <= e0.len() && #[trigger] cert_fold(e0.take(k)) is None implies cert_fold(e0) is None by { lemma_cert_fold_none(e0, k); }
        assert forall|k: int| 0 <= k < e0.len() && !CertificateField::known((#[trigger] e0[k]).0) implies cert_fold(e0) is None by { assert(e0.take(k + 1).last() == e0[k]); lemma_cert_fold_none(e0, k + 1); }
        assert(e0.skip(0) =~= e0);
        assert(e0.take(0) =~= Seq::<(Seq<char>, D)>::empty());
        assert(cert_fold(e0.take(0)) is Some);
    }
//@loop 0
    invariant forall|d: D| #[trigger] <S::Temp<'de> as Reads>::readable(d) == (d is Bytes),
            forall|d: D, t: S::Temp<'de>| #[trigger] <S::Temp<'de> as Reads>::reads(d, t) ==> d == D::Bytes(t.bytes_in()),
            "tree"@ != "signature"@, "tree"@ != "delegation"@, "signature"@ != "delegation"@, "subnet_id"@ != "certificate"@,
            map.entries().len() <= e0.len(), map.entries() == e0.skip(e0.len() - map.entries().len()),
            cert_fold(e0.take(e0.len() - map.entries().len())) == Some((match tree { Some(t) => Some(tv(t.root)), None => None }, match signature { Some(t) => Some(t.bytes_in()), None => None }, match delegation { Some(d) => Some(deleg_seen(d)), None => None })),
            forall|k: int| 0 <= k <= e0.len() && #[trigger] cert_fold(e0.take(k)) is None ==> cert_fold(e0) is None,
            forall|k: int| 0 <= k < e0.len() && !CertificateField::known((#[trigger] e0[k]).0) ==> cert_fold(e0) is None,
        decreases map.entries().len()
//@loopentry 0
    proof {
        let k = e0.len() - map.entries().len();
        assert(e0.skip(k - 1).skip(1) =~= e0.skip(k));
        assert(e0.skip(k - 1)[0] == e0[k - 1]);
        assert(e0.take(k).drop_last() =~= e0.take(k - 1));
        assert(e0.take(k).last() == e0[k - 1]);
        assert(cert_fold(e0.take(k)) is None || cert_fold(e0.take(k)) is Some);
    }
//@before `let tree =`
    proof { assert(e0.take(e0.len() as int) =~= e0); }
//@lemmaprops lemma_be C10
//@lemmaprops lemma_head C10
//@lemmaprops lemma_reads_tree C10
//@lemmaprops lemma_round_trip_tree C10
//@text
// ---------------------------------------------------------------- how serde_cbor writes the data model
pub open spec fn be_bytes(n: nat, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { be_bytes(n / 256, (k - 1) as nat).push((n % 256) as u8) } }
pub open spec fn pow256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
/// The initial byte and the shortest argument (RFC 8949, section 4.2.1).
pub open spec fn head(major: u8, n: nat) -> Seq<u8> {
    if n < 24 { seq![(major * 32 + n) as u8] }
    else if n < 0x100 { seq![(major * 32 + 24) as u8] + be_bytes(n, 1) }
    else if n < 0x1_0000 { seq![(major * 32 + 25) as u8] + be_bytes(n, 2) }
    else if n < 0x1_0000_0000 { seq![(major * 32 + 26) as u8] + be_bytes(n, 4) }
    else { seq![(major * 32 + 27) as u8] + be_bytes(n, 8) }
}
/// assumed: what serde_cbor::to_vec writes for a value (definite lengths, shortest heads)
pub open spec fn enc(d: D) -> Seq<u8> decreases d, 0nat {
    match d {
        D::U8(n) => head(0, n as nat),
        D::Bytes(b) => head(2, b.len()) + b,
        D::Seq(n, a) => (match n { Some(k) => head(4, k as nat), None => seq![0x9fu8] }) + encs(a),
        D::Map(e) => head(5, e.len()) + encps(e),
    }
}
pub open spec fn encs(a: Seq<D>) -> Seq<u8> decreases a, a.len() { if a.len() == 0 { Seq::empty() } else { enc(a[0]) + encs(a.skip(1)) } }
pub open spec fn encps(e: Seq<(Seq<char>, D)>) -> Seq<u8> decreases e, e.len() { if e.len() == 0 { Seq::empty() } else { enc_text(e[0].0) + enc(e[0].1) + encps(e.skip(1)) } }
pub open spec fn enc_text(k: Seq<char>) -> Seq<u8> { head(3, vstd::utf8::encode_utf8(k).len()) + vstd::utf8::encode_utf8(k) }
proof fn lemma_be(n: nat, k: nat)
    requires n < pow256(k)
    ensures be_bytes(n, k).len() == k, be(be_bytes(n, k)) == n
    decreases k
{
    if k > 0 {
        assert(n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((k - 1) as nat);
        lemma_be(n / 256, (k - 1) as nat);
        let b = be_bytes(n, k);
        assert(b.drop_last() =~= be_bytes(n / 256, (k - 1) as nat));
        assert(b.last() == (n % 256) as u8);
    }
}
/// A head that was written is read back as its major type and its argument, and the rest is what follows it.
proof fn lemma_head(m: u8, n: nat, rest: Seq<u8>)
    requires m < 7, n <= u64::MAX
    ensures ({ let s = head(m, n) + rest; s.len() > 0 && s[0] / 32 == m && match arg(s) { Some((u, t)) => uns(u) == n && t == rest && (n < 0x100 ==> u == CborUnsignedInt::UInt8(n as u8)), None => false } })
{
    reveal_with_fuel(pow256, 9);
    let s = head(m, n) + rest;
    let (i, k): (nat, nat) = if n < 24 { (n, 0nat) } else if n < 0x100 { (24nat, 1nat) } else if n < 0x1_0000 { (25nat, 2nat) } else if n < 0x1_0000_0000 { (26nat, 4nat) } else { (27nat, 8nat) };
    assert(s[0] == (m * 32 + i) as u8);
    assert(s[0] % 32 == i && s[0] / 32 == m);
    if n < 24 { assert(s.skip(1) =~= rest); } else {
        lemma_be(n, k);
        assert(s.skip(1) =~= be_bytes(n, k) + rest);
        assert(s.skip(1).take(k as int) =~= be_bytes(n, k));
        assert(s.skip(1).skip(k as int) =~= rest);
        if k == 1 { reveal_with_fuel(be_bytes, 2); assert(be_bytes(n, 1) =~= seq![n as u8]); }
    }
}
/// The nesting of a tree, and that its labels and values have lengths that CBOR can state.
pub open spec fn height(t: ST) -> nat decreases t {
    match t {
        ST::Fork(l, r) => if height(*l) > height(*r) { height(*l) + 1 } else { height(*r) + 1 },
        ST::Labeled(_, s) => height(*s) + 1,
        _ => 1,
    }
}
pub open spec fn lengths_fit(t: ST) -> bool decreases t {
    match t {
        ST::Fork(l, r) => lengths_fit(*l) && lengths_fit(*r),
        ST::Labeled(b, s) => b.len() <= u64::MAX && lengths_fit(*s),
        ST::Leaf(b) => b.len() <= u64::MAX,
        _ => true,
    }
}
/// A node tag that was written is read back as that tag.
proof fn lemma_reads_tag(n: u8, d: int, rest: Seq<u8>)
    requires n <= 4, 0 <= d <= 256
    ensures item(enc(D::U8(n)) + rest, d) == Some((V::T(match n { 0 => CborHashTree::Empty, 1 => CborHashTree::Fork, 2 => CborHashTree::Labelled, 3 => CborHashTree::Leaf, _ => CborHashTree::Pruned }), rest))
{ lemma_head(0, n as nat, rest); }
proof fn lemma_reads_bytes(b: Seq<u8>, d: int, rest: Seq<u8>)
    requires b.len() <= u64::MAX, 0 <= d <= 256
    ensures item(enc(D::Bytes(b)) + rest, d) == Some((V::B(b), rest))
{
    lemma_head(2, b.len(), b + rest);
    assert(enc(D::Bytes(b)) + rest =~= head(2, b.len()) + (b + rest));
    assert((b + rest).take(b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
}
proof fn lemma_items_1(s: Seq<u8>, d: int, n: nat, v: V, t: Seq<u8>)
    requires n > 0, item(s, d) == Some((v, t))
    ensures items(s, d, n) == match items(t, d, (n - 1) as nat) { Some((vs, r)) => Some((seq![v] + vs, r)), None => None }
{}
proof fn lemma_items_0(s: Seq<u8>, d: int) ensures items(s, d, 0) == Some((Seq::<V>::empty(), s)) {}
proof fn lemma_array(k: nat, s0: Seq<u8>, d: int)
    requires k <= u64::MAX, 0 <= d <= 256
    ensures item(head(4, k) + s0, d) == match items(s0, d + 1, k) { Some((vs, r)) => Some((V::A(vs), r)), None => None::<(V, Seq<u8>)> }
{ lemma_head(4, k, s0); }
/// The parser of ic-cbor reads back every hash tree that was written, and reads no further.
proof fn lemma_reads_tree(t: ST, d: int, rest: Seq<u8>)
    requires 0 <= d, d + height(t) <= 256, lengths_fit(t)
    ensures match item(enc(tree_model(t)) + rest, d) { Some((v, r)) => r == rest && tree_of(v) == Some(t), None => false }
    decreases t
{
    hide(item);
    hide(items);
    hide(head);
    let (k, a): (usize, Seq<D>) = match tree_model(t) { D::Seq(Some(k), a) => (k, a), _ => (0, Seq::empty()) };
    let s = enc(tree_model(t)) + rest;
    let s0 = encs(a) + rest;
    assert(a.len() == k && 1 <= k <= 3);
    assert(s =~= head(4, k as nat) + s0);
    lemma_array(k as nat, s0, d);
    assert(item(s, d) == match items(s0, d + 1, k as nat) { Some((vs, r)) => Some((V::A(vs), r)), None => None::<(V, Seq<u8>)> });
    let tag = match a[0] { D::U8(n) => n, _ => 0u8 };
    let s1 = encs(a.skip(1)) + rest;
    assert(s0 =~= enc(a[0]) + s1);
    lemma_reads_tag(tag, d + 1, s1);
    let v0 = (item(s0, d + 1)->0).0;
    lemma_items_1(s0, d + 1, k as nat, v0, s1);
    if k == 1 {
        assert(s1 =~= rest);
        lemma_items_0(s1, d + 1);
        assert(seq![v0] + Seq::<V>::empty() =~= seq![v0]);
    } else {
        let s2 = encs(a.skip(2)) + rest;
        assert(s1 =~= enc(a[1]) + s2) by { assert(a.skip(1)[0] == a[1]); assert(a.skip(1).skip(1) =~= a.skip(2)); }
        if k == 2 {
            assert(s2 =~= rest);
            let b = match t { ST::Leaf(v) => v, ST::Pruned(h) => h@, _ => Seq::empty() };
            lemma_reads_bytes(b, d + 1, s2);
            lemma_items_1(s1, d + 1, 1, V::B(b), s2);
            lemma_items_0(s2, d + 1);
            assert(seq![v0] + (seq![V::B(b)] + Seq::<V>::empty()) =~= seq![v0, V::B(b)]);
            match t { ST::Pruned(h) => { assert(to_hash(h@)@ == h@); assert(to_hash(h@) =~= h); } _ => {} }
        } else {
            let s3 = encs(a.skip(3)) + rest;
            assert(s2 =~= enc(a[2]) + s3) by { assert(a.skip(2)[0] == a[2]); assert(a.skip(2).skip(1) =~= a.skip(3)); }
            assert(s3 =~= rest);
            match t {
                ST::Fork(l, r) => { lemma_reads_tree(*l, d + 1, s2); lemma_reads_tree(*r, d + 1, rest); }
                ST::Labeled(l, c) => { lemma_reads_bytes(l, d + 1, s2); lemma_reads_tree(*c, d + 1, rest); }
                _ => {}
            }
            let v1 = (item(s1, d + 1)->0).0;
            let v2 = (item(s2, d + 1)->0).0;
            lemma_items_1(s1, d + 1, 2, v1, s2);
            lemma_items_1(s2, d + 1, 1, v2, rest);
            lemma_items_0(rest, d + 1);
            assert(seq![v0] + (seq![v1] + (seq![v2] + Seq::<V>::empty())) =~= seq![v0, v1, v2]);
        }
    }
}
/// Encoding a hash tree and decoding it gives the same tree back.
proof fn lemma_round_trip_tree(t: ST)
    requires height(t) <= 256, lengths_fit(t)
    ensures match decoded(enc(tree_model(t))) { Some(v) => tree_of(v) == Some(t), None => false }
{
    lemma_reads_tree(t, 0, Seq::empty());
    assert(enc(tree_model(t)) + Seq::<u8>::empty() =~= enc(tree_model(t)));
}
//@lemmaprops lemma_reads_text C10
//@lemmaprops lemma_reads_entry C10
//@lemmaprops lemma_reads_deleg C10
//@lemmaprops lemma_round_trip_cert C10
//@text
proof fn lemma_reads_text(k: Seq<char>, d: int, rest: Seq<u8>)
    requires vstd::utf8::encode_utf8(k).len() <= u64::MAX, 0 <= d <= 256
    ensures item(enc_text(k) + rest, d) == Some((V::B(vstd::utf8::encode_utf8(k)), rest)), utf8(vstd::utf8::encode_utf8(k)) == Some(k)
{
    let b = vstd::utf8::encode_utf8(k);
    lemma_head(3, b.len(), b + rest);
    assert(enc_text(k) + rest =~= head(3, b.len()) + (b + rest));
    assert((b + rest).take(b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
    vstd::utf8::encode_utf8_valid_utf8(k);
    vstd::utf8::encode_utf8_decode_utf8(k);
}
proof fn lemma_encps_1(e: Seq<(Seq<char>, D)>) requires e.len() > 0 ensures encps(e) == enc_text(e[0].0) + enc(e[0].1) + encps(e.skip(1)) {}
proof fn lemma_pair(s: Seq<u8>, d: int, b: Seq<u8>, k: Seq<char>, u: Seq<u8>, v: V, t: Seq<u8>)
    requires item(s, d) == Some((V::B(b), u)), utf8(b) == Some(k), item(u, d) == Some((v, t))
    ensures pair(s, d) == Some(((k, v), t))
{}
/// One entry of a map, then the others.
proof fn lemma_reads_entry(e: Seq<(Seq<char>, D)>, d: int, rest: Seq<u8>, v: V)
    requires e.len() > 0, vstd::utf8::encode_utf8(e[0].0).len() <= u64::MAX, 0 <= d <= 256, item(enc(e[0].1) + (encps(e.skip(1)) + rest), d) == Some((v, encps(e.skip(1)) + rest))
    ensures pairs(encps(e) + rest, d, e.len()) == match pairs(encps(e.skip(1)) + rest, d, (e.len() - 1) as nat) { Some((vs, r)) => Some((seq![(e[0].0, v)] + vs, r)), None => None }
{
    hide(item);
    hide(enc);
    hide(enc_text);
    hide(pairs);
    let t = encps(e.skip(1)) + rest;
    lemma_encps_1(e);
    assert(encps(e) + rest =~= enc_text(e[0].0) + (enc(e[0].1) + t));
    lemma_reads_text(e[0].0, d, enc(e[0].1) + t);
    let s = encps(e) + rest;
    assert(item(s, d) == Some((V::B(vstd::utf8::encode_utf8(e[0].0)), enc(e[0].1) + t)));
    assert(item(enc(e[0].1) + t, d) == Some((v, t)));
    lemma_pair(s, d, vstd::utf8::encode_utf8(e[0].0), e[0].0, enc(e[0].1) + t, v, t);
    lemma_pairs_1(s, d, e.len(), (e[0].0, v), t);
}
proof fn lemma_pairs_1(s: Seq<u8>, d: int, n: nat, p: (Seq<char>, V), t: Seq<u8>)
    requires n > 0, pair(s, d) == Some((p, t))
    ensures pairs(s, d, n) == match pairs(t, d, (n - 1) as nat) { Some((vs, r)) => Some((seq![p] + vs, r)), None => None }
{}
proof fn lemma_short(k: Seq<char>)
    requires vstd::utf8::is_ascii_chars(k), k.len() < 100
    ensures vstd::utf8::encode_utf8(k).len() <= u64::MAX
{ vstd::utf8::is_ascii_chars_encode_utf8(k); }
proof fn lemma_pmap_push(e: Seq<(Seq<char>, V)>, k: Seq<char>, v: V) ensures pmap(e.push((k, v))) == pmap(e).insert(k, v)
{ assert(e.push((k, v)).drop_last() =~= e); }
proof fn lemma_names()
    ensures "tree"@ != "signature"@, "tree"@ != "delegation"@, "signature"@ != "delegation"@, "subnet_id"@ != "certificate"@,
        vstd::utf8::encode_utf8("tree"@).len() <= u64::MAX, vstd::utf8::encode_utf8("signature"@).len() <= u64::MAX, vstd::utf8::encode_utf8("delegation"@).len() <= u64::MAX,
        vstd::utf8::encode_utf8("subnet_id"@).len() <= u64::MAX, vstd::utf8::encode_utf8("certificate"@).len() <= u64::MAX
{
    reveal_strlit("tree"); reveal_strlit("signature"); reveal_strlit("delegation"); reveal_strlit("subnet_id"); reveal_strlit("certificate");
    assert("tree"@.len() == 4 && "signature"@.len() == 9 && "delegation"@.len() == 10 && "subnet_id"@.len() == 9 && "certificate"@.len() == 11);
    lemma_short("tree"@); lemma_short("signature"@); lemma_short("delegation"@); lemma_short("subnet_id"@); lemma_short("certificate"@);
}
proof fn lemma_reads_deleg(g: (Seq<u8>, Seq<u8>), d: int, rest: Seq<u8>)
    requires 0 <= d, d + 1 <= 256, g.0.len() <= u64::MAX, g.1.len() <= u64::MAX
    ensures match item(enc(deleg_model(g)) + rest, d) { Some((v, r)) => r == rest && deleg_of(v) == Some(g), None => false }
{
    lemma_names();
    let e = seq![("subnet_id"@, D::Bytes(g.0)), ("certificate"@, D::Bytes(g.1))];
    assert(enc(deleg_model(g)) + rest =~= head(5, 2) + (encps(e) + rest));
    lemma_head(5, 2, encps(e) + rest);
    let e1 = e.skip(1);
    let e2 = e1.skip(1);
    assert(e1[0] == e[1]);
    assert(encps(e2) + rest =~= rest);
    lemma_reads_bytes(g.0, d + 1, encps(e1) + rest);
    lemma_reads_bytes(g.1, d + 1, encps(e2) + rest);
    lemma_reads_entry(e, d + 1, rest, V::B(g.0));
    lemma_reads_entry(e1, d + 1, rest, V::B(g.1));
    assert(pairs(encps(e2) + rest, d + 1, 0) == Some((Seq::<(Seq<char>, V)>::empty(), rest)));
    let z = Seq::<(Seq<char>, V)>::empty();
    assert(seq![("subnet_id"@, V::B(g.0))] + (seq![("certificate"@, V::B(g.1))] + z) =~= z.push(("subnet_id"@, V::B(g.0))).push(("certificate"@, V::B(g.1))));
    lemma_pmap_push(z, "subnet_id"@, V::B(g.0));
    lemma_pmap_push(z.push(("subnet_id"@, V::B(g.0))), "certificate"@, V::B(g.1));
}
/// Encoding a certificate and decoding it gives the same tree, signature and delegation back.
proof fn lemma_round_trip_cert(c: CertData)
    requires height(c.0) < 256, lengths_fit(c.0), c.1.len() <= u64::MAX, c.2 matches Some(g) ==> g.0.len() <= u64::MAX && g.1.len() <= u64::MAX
    ensures match decoded(enc(cert_model(c))) { Some(v) => cert_of(v) == Some(c), None => false }
{
    lemma_names();
    let rest = Seq::<u8>::empty();
    let e = match cert_model(c) { D::Map(e) => e, _ => Seq::empty() };
    let s = enc(cert_model(c));
    assert(s =~= head(5, e.len()) + (encps(e) + rest));
    lemma_head(5, e.len(), encps(e) + rest);
    let e1 = e.skip(1);
    let e2 = e1.skip(1);
    assert(e1[0] == e[1]);
    lemma_reads_tree(c.0, 1, encps(e1) + rest);
    let v0 = (item(enc(e[0].1) + (encps(e1) + rest), 1)->0).0;
    lemma_reads_bytes(c.1, 1, encps(e2) + rest);
    lemma_reads_entry(e, 1, rest, v0);
    lemma_reads_entry(e1, 1, rest, V::B(c.1));
    let z = Seq::<(Seq<char>, V)>::empty();
    let z1 = z.push(("tree"@, v0));
    let z2 = z1.push(("signature"@, V::B(c.1)));
    lemma_pmap_push(z, "tree"@, v0);
    lemma_pmap_push(z1, "signature"@, V::B(c.1));
    match c.2 {
        None => {
            assert(encps(e2) + rest =~= rest);
            assert(pairs(encps(e2) + rest, 1, 0) == Some((z, rest)));
            assert(seq![("tree"@, v0)] + (seq![("signature"@, V::B(c.1))] + z) =~= z2);
        }
        Some(g) => {
            let e3 = e2.skip(1);
            assert(e2[0] == e[2]);
            assert(encps(e3) + rest =~= rest);
            lemma_reads_deleg(g, 1, encps(e3) + rest);
            let v2 = (item(enc(e[2].1) + (encps(e3) + rest), 1)->0).0;
            lemma_reads_entry(e2, 1, rest, v2);
            lemma_pmap_push(z2, "delegation"@, v2);
            assert(pairs(encps(e3) + rest, 1, 0) == Some((z, rest)));
            assert(seq![("tree"@, v0)] + (seq![("signature"@, V::B(c.1))] + (seq![("delegation"@, v2)] + z)) =~= z2.push(("delegation"@, v2)));
        }
    }
}
//@lemmaprops lemma_model_tree C10
//@lemmaprops lemma_model_cert C10
//@text
/// The library's own Deserialize gives back the tree that its Serialize wrote.
proof fn lemma_model_tree(t: ST)
    ensures tree_in(tree_model(t)) == Some(t)
    decreases t
{
    match t {
        ST::Fork(l, r) => { lemma_model_tree(*l); lemma_model_tree(*r); }
        ST::Labeled(_, s) => { lemma_model_tree(*s); }
        ST::Pruned(h) => { assert(to_hash(h@)@ == h@); assert(to_hash(h@) =~= h); }
        _ => {}
    }
}
/// The same for certificates.
proof fn lemma_model_cert(c: CertData)
    ensures match cert_model(c) { D::Map(e) => cert_in_map(e) == Some(c), _ => false }
{
    lemma_names();
    lemma_model_tree(c.0);
    let e = match cert_model(c) { D::Map(e) => e, _ => Seq::empty() };
    let z = Seq::<(Seq<char>, D)>::empty();
    assert(e.take(1).drop_last() =~= z);
    assert(e.take(2).drop_last() =~= e.take(1));
    assert(e.take(2).last() == e[1]);
    assert(cert_fold(z) == Some((None::<ST>, None::<Seq<u8>>, None::<(Seq<u8>, Seq<u8>)>)));
    assert(cert_fold(e.take(1)) == Some((Some(c.0), None::<Seq<u8>>, None::<(Seq<u8>, Seq<u8>)>)));
    assert(cert_fold(e.take(2)) == Some((Some(c.0), Some(c.1), None::<(Seq<u8>, Seq<u8>)>)));
    match c.2 {
        None => { assert(e.take(2) =~= e); }
        Some(g) => {
            assert(e.drop_last() =~= e.take(2));
            let f = match deleg_model(g) { D::Map(f) => f, _ => Seq::empty() };
            assert(f.drop_last().drop_last() =~= z);
            assert(deleg_fold(z) == Some((None::<Seq<u8>>, None::<Seq<u8>>)));
            assert(f.drop_last().last() == f[0]);
            assert(deleg_fold(f.drop_last()) == Some((Some(g.0), None::<Seq<u8>>)));
            assert(deleg_in(e.last().1) == Some(g));
        }
    }
}
