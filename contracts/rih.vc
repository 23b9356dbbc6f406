//@source ri packages/ic-representation-independent-hash/src/representation_independent_hash.rs
//@source rl packages/ic-representation-independent-hash/src/lib.rs
//@derive Value
//@gsubst `.sort_unstable()` => `.sort_up()`
//@gsubst `.to_owned()` => `.to_own()`
//@text
/// to_owned copies
pub trait ToOwn { type O; spec fn same(&self, o: Self::O) -> bool; fn to_own(&self) -> (r: Self::O) ensures self.same(r); }
impl ToOwn for u64 { type O = u64; open spec fn same(&self, o: u64) -> bool { o == *self } fn to_own(&self) -> (r: u64) { *self } }
impl ToOwn for str { type O = String; open spec fn same(&self, o: String) -> bool { o@ == self@ } fn to_own(&self) -> (r: String) { self.to_string() } }
pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == enc(s@);
// ---------------------------------------------------------------- representation-independent hash
use sha2::{Digest, Sha256};
/// Unsigned LEB128.
pub open spec fn leb_of(n: nat) -> Seq<u8> decreases n { if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + leb_of(n / 128) } }
/// assumed: leb128::write::unsigned writes the unsigned LEB128 encoding, and writing to a hasher does not fail
pub mod leb128 { use super::*; pub mod write { use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { x: u8 }
    #[verifier::external_body]
    pub fn unsigned(h: &mut sha2::Sha256, n: u64) -> (r: Result<usize, Error>) ensures r is Ok, final(h)@ == old(h)@ + leb_of(n as nat) { unimplemented!() }
} }
/// The hash of a value as the interface specification defines it.
pub open spec fn hv(v: Value) -> [u8; 32] decreases v {
    match v {
        Value::String(s) => sha256(enc(s@)),
        Value::Number(n) => sha256(leb_of(n as nat)),
        Value::Bytes(b) => sha256(b@),
        Value::Array(a) => sha256(cat_hv(a, a@.len())),
    }
}
pub open spec fn cat_hv(a: Vec<Value>, n: nat) -> Seq<u8> decreases a, n {
    if n == 0 || n > a@.len() { Seq::<u8>::empty() } else { cat_hv(a, (n - 1) as nat) + hv(a@[n - 1])@ }
}
pub open spec fn cat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else { cat(s.drop_last()) + s.last() } }
pub open spec fn hvs(a: Seq<Value>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| hv(a[i])@) }
/// A named value and its pair of hashes.
pub type HP = (Seq<u8>, Seq<u8>);
pub open spec fn hpair(e: (Seq<char>, [u8; 32])) -> HP { (sha256(enc(e.0))@, e.1@) }
pub open spec fn ent(e: (String, Value)) -> (Seq<char>, [u8; 32]) { (e.0@, hv(e.1)) }
pub open spec fn ents(m: Seq<(String, Value)>) -> Seq<(Seq<char>, [u8; 32])> { m.map_values(|e: (String, Value)| ent(e)) }
pub open spec fn hpairs(m: Seq<(Seq<char>, [u8; 32])>) -> Seq<HP> { m.map_values(|e: (Seq<char>, [u8; 32])| hpair(e)) }
/// Pairs in the order of their bytes.
pub open spec fn hp_leq() -> spec_fn(HP, HP) -> bool { |a: HP, b: HP| lexc(a.0, b.0) < 0 || (a.0 == b.0 && lexc(a.1, b.1) <= 0) }
pub open spec fn join_hp(s: Seq<HP>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else { join_hp(s.drop_last()) + s.last().0 + s.last().1 } }
/// The representation-independent hash of a map.
pub open spec fn rih(m: Seq<(Seq<char>, [u8; 32])>) -> [u8; 32] { sha256(join_hp(hpairs(m).sort_by(hp_leq()))) }
pub open spec fn hps(s: Seq<([u8; 32], [u8; 32])>) -> Seq<HP> { s.map_values(|p: ([u8; 32], [u8; 32])| (p.0@, p.1@)) }
/// assumed: sort_unstable sorts in the order of the derived comparison of pairs of arrays
pub trait SortUp { spec fn pairs_of(&self) -> Seq<HP>; fn sort_up(&mut self) ensures final(self).pairs_of() == old(self).pairs_of().sort_by(hp_leq()); }
impl SortUp for Vec<([u8; 32], [u8; 32])> { open spec fn pairs_of(&self) -> Seq<HP> { hps(self@) }
    #[verifier::external_body] fn sort_up(&mut self) { unimplemented!() } }
pub broadcast proof fn lemma_full(s: &[u8; 32]) ensures #[trigger] s@.subrange(0, 32) == s@ { assert(s@.subrange(0, 32) =~= s@); }
pub proof fn lemma_cat_hv(a: Vec<Value>, n: nat) requires n <= a@.len() ensures cat_hv(a, n) == cat(hvs(a@.take(n as int))) decreases n
{ if n > 0 { lemma_cat_hv(a, (n - 1) as nat); assert(hvs(a@.take(n as int)).drop_last() =~= hvs(a@.take(n - 1))); } }
pub proof fn lemma_hv_array(a: Vec<Value>) ensures hv(Value::Array(a)) == sha256(cat(hvs(a@)))
{ lemma_cat_hv(a, a@.len()); assert(a@.take(a@.len() as int) =~= a@); }
//@take rl Sha256Digest hash
//@take ri Value hash_array hash_value representation_independent_hash
//@fn hash C08
//@ret r
//@spec
    ensures r == sha256(data@)
//@entry
    broadcast use group_core;
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@fn hash_value C08
//@ret r
//@spec
    ensures r == hv(*value)
    decreases *value, 0nat
//@entry
    broadcast use {group_core, group_str};
    proof { if let Value::Number(ref n) = *value { let n = *n; assert(Seq::<u8>::empty() + leb_of(n as nat) =~= leb_of(n as nat)); } if let Value::Array(ref a) = *value { lemma_hv_array(*a); } }
//@fn hash_array C08
//@opt inline-for-each
//@ret r
//@spec
    ensures r == sha256(cat(hvs(elements@)))
    decreases elements@, 1nat
//@entry
    broadcast use group_core;
//@loop 0
    invariant rv_i0 <= rv_v0.len(), rv_v0@ == elements@, hasher@ == cat(hvs(elements@.take(rv_i0 as int)))
    decreases rv_v0.len() - rv_i0
//@loopentry 0
    broadcast use {group_core, lemma_full};
    proof { let k = rv_i0 as int; assert(hvs(elements@.take(k)).drop_last() =~= hvs(elements@.take(k - 1))); assert(elements@.take(k).drop_last() =~= elements@.take(k - 1)); assert(decreases_to!(elements@ => elements@[k - 1])); }
//@tail
    assert(elements@.take(elements@.len() as int) =~= elements@);
//@fn representation_independent_hash C08
//@ret r
//@spec
    ensures r == rih(ents(map@))
//@closure 0
 -> (p: (Sha256Digest, Sha256Digest)) ensures p.0 == sha256(enc(_p0.0@)), p.1 == hv(_p0.1)
//@entry
    broadcast use {group_core, group_str};
//@opt inline-iter
//@before `hashes.sort_unstable();`
    assert(hashes@.len() == map@.len());
    assert forall|i: int| 0 <= i < map@.len() implies #[trigger] hps(hashes@)[i] == hpairs(ents(map@))[i] by { }
    assert(hps(hashes@) =~= hpairs(ents(map@)));
//@loop 0
    invariant rv_i0 <= rv_v0.len(), rv_v0@ == hashes@, hasher@ == join_hp(hps(hashes@.take(rv_i0 as int)))
    decreases rv_v0.len() - rv_i0
//@loopentry 0
    broadcast use {group_core, lemma_full};
    proof { let k = rv_i0 as int; assert(hps(hashes@.take(k)).drop_last() =~= hps(hashes@.take(k - 1))); }
//@tail
    assert(hashes@.take(hashes@.len() as int) =~= hashes@);
