//@text
// ---------------------------------------------------------------- strings (assumed contracts of std)
impl AsRefSpecImpl<[u8]> for str { uninterp spec fn as_ref_spec(&self) -> &[u8]; }
impl AsRefSpecImpl<[u8]> for String { uninterp spec fn as_ref_spec(&self) -> &[u8]; }
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub broadcast axiom fn ax_bytes_str(s: &str) ensures #[trigger] bytes(s) == enc(s@);
pub broadcast axiom fn ax_bytes_string(s: String) ensures #[trigger] bytes(&s) == enc(s@);
pub broadcast group group_str { ax_bytes_str, ax_bytes_string }
/// The pieces between the separators.
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else { let t = split_at(s.drop_last(), c); if s.last() == c { t.push(Seq::<char>::empty()) } else { t.drop_last().push(t.last().push(s.last())) } }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub trait StrOps { spec fn chars_of(&self) -> Seq<char>;
    fn split_it<'a>(&'a self, c: char) -> (r: It<&'a str>) ensures strs(r@) == split_at(self.chars_of(), c);
    fn has_suffix(&self, c: char) -> (r: bool) ensures r == (self.chars_of().len() > 0 && self.chars_of().last() == c);
}
impl StrOps for str { open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn split_it<'a>(&'a self, c: char) -> (r: It<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn has_suffix(&self, c: char) -> (r: bool) { unimplemented!() }
}
/// s without the elements that p rejects.
pub open spec fn keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let k = keep(s.drop_last(), p); if p(s.last()) { k.push(s.last()) } else { k } }
}
pub proof fn lemma_keep_same<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> p(s[i]) == q(s[i]) ensures keep(s, p) == keep(s, q) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| #![trigger s.drop_last()[i]] 0 <= i < s.len() - 1 implies p(s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } lemma_keep_same(s.drop_last(), p, q); } }
pub proof fn lemma_keep_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U, p: spec_fn(U) -> bool)
    ensures keep(s, |x: T| p(f(x))).map_values(f) == keep(s.map_values(f), p) decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_map(s.drop_last(), f, p);
        assert(s.map_values(f).drop_last() =~= s.drop_last().map_values(f));
        assert(keep(s, |x: T| p(f(x))).map_values(f) =~= keep(s.map_values(f), p));
    } else { assert(keep(s, |x: T| p(f(x))).map_values(f) =~= keep(s.map_values(f), p)); }
}
/// filter with a closure whose contract fixes its result
pub uninterp spec fn yes<T, F: Fn(&T) -> bool>(f: F) -> spec_fn(T) -> bool;
impl<T> It<T> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)), forall|x: &T| !(#[trigger] f.ensures((x,), true) && f.ensures((x,), false)),
        ensures r@ == keep(self@, yes::<T, F>(f)), forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), yes::<T, F>(f)(#[trigger] self@[i])) { unimplemented!() }
}
pub trait Items<T> { spec fn items(&self) -> Seq<T>; }
impl<T> Items<T> for It<T> { open spec fn items(&self) -> Seq<T> { self@ } }
impl<T> Items<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } }
pub trait VecExt<T> { spec fn seq_of(&self) -> Seq<T>; fn extend_it<I: Items<T>>(&mut self, i: I) ensures final(self).seq_of() == old(self).seq_of() + i.items(); }
impl<T> VecExt<T> for Vec<T> { open spec fn seq_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn extend_it<I: Items<T>>(&mut self, i: I) { unimplemented!() } }
/// from_utf8_lossy: only used for error texts
#[verifier::external_body] pub struct Lossy { x: u8 }
#[verifier::external_body] pub fn lossy(s: &[u8]) -> Lossy { unimplemented!() }
impl Lossy { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
impl FromIt<Lossy> for String { open spec fn collected(s: Seq<Lossy>, c: Self) -> bool { true } }
