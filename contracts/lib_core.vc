//@text
#![feature(sized_hierarchy, allocator_api, const_destruct)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, unused_parens, unused_braces, unused_macros)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::slice::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::{FromSpec, FromSpecImpl, IntoSpec, TryFromSpec};
use std::cmp::Ordering::{self, Equal, Greater, Less};
use std::borrow::Cow;

verus! {

// ---------------------------------------------------------------- assumed contracts on std: AsRef<[u8]>
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
impl<T, A: core::alloc::Allocator> AsRefSpecImpl<[T]> for Vec<T, A> { uninterp spec fn as_ref_spec(&self) -> &[T]; }
impl<T, const N: usize> AsRefSpecImpl<[T]> for [T;N] { uninterp spec fn as_ref_spec(&self) -> &[T]; }
impl<T> AsRefSpecImpl<[T]> for [T] { uninterp spec fn as_ref_spec(&self) -> &[T]; }
impl<T: ?Sized, A: core::alloc::Allocator> AsRefSpecImpl<T> for Box<T, A> { uninterp spec fn as_ref_spec(&self) -> &T; }
pub broadcast axiom fn ax_box_as_ref<T>(b: Box<T>) ensures *(#[trigger] <Box<T> as AsRefSpec<T>>::as_ref_spec(&b)) == *b;
impl<T: core::marker::PointeeSized, U: core::marker::PointeeSized> AsRefSpecImpl<U> for &T where T: AsRef<U> { uninterp spec fn as_ref_spec(&self) -> &U; }

/// The bytes a value stands for: what its as_ref() returns.
pub open spec fn bytes<T: AsRef<[u8]> + ?Sized>(t: &T) -> Seq<u8> { AsRefSpec::as_ref_spec(t)@ }
pub broadcast axiom fn ax_bytes_vec(v: Vec<u8>) ensures #[trigger] bytes(&v) == v@;
pub broadcast axiom fn ax_bytes_array<const N: usize>(v: [u8;N]) ensures #[trigger] bytes(&v) == v@;
pub broadcast axiom fn ax_bytes_slice(v: &[u8]) ensures #[trigger] bytes(v) == v@;
pub broadcast axiom fn ax_bytes_ref<T: AsRef<[u8]>+?Sized>(v: &T) ensures #[trigger] bytes(&v) == bytes(v);
pub open spec fn seq_bytes<T: AsRef<[u8]>>(s: Seq<T>) -> Seq<Seq<u8>> { s.map_values(|x: T| bytes(&x)) }
pub broadcast group group_bytes { ax_bytes_vec, ax_bytes_array, ax_bytes_slice, ax_bytes_ref }

/// A run-time assertion of the code: reaching it with a false condition is a panic, so it is an obligation here.
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn rt_unreachable() -> ! requires false { unreachable!() }

// ---------------------------------------------------------------- byte-string order
/// Lexicographic order on byte strings: -1, 0, 1.
pub open spec fn lexc(a: Seq<u8>, b: Seq<u8>) -> int decreases a.len() {
    if a.len() == 0 && b.len() == 0 { 0 }
    else if a.len() == 0 { -1 }
    else if b.len() == 0 { 1 }
    else if a[0] < b[0] { -1 }
    else if a[0] > b[0] { 1 }
    else { lexc(a.skip(1), b.skip(1)) }
}
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { lexc(a, b) < 0 }
pub open spec fn lex_ord(a: Seq<u8>, b: Seq<u8>) -> Ordering {
    if lexc(a, b) < 0 { Ordering::Less } else if lexc(a, b) == 0 { Ordering::Equal } else { Ordering::Greater }
}
pub proof fn lemma_lexc_range(a: Seq<u8>, b: Seq<u8>)
    ensures -1 <= lexc(a, b) <= 1, lexc(a, b) == -lexc(b, a), (lexc(a, b) == 0) == (a == b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lexc_range(a.skip(1), b.skip(1));
        if a[0] == b[0] {
            if a.skip(1) == b.skip(1) {
                assert(a =~= seq![a[0]] + a.skip(1));
                assert(b =~= seq![b[0]] + b.skip(1));
            }
        }
    } else {
        if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    }
}
pub proof fn lemma_lexc_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lexc(a, b) <= 0, lexc(b, c) <= 0
    ensures lexc(a, c) <= 0, (lexc(a, b) < 0 || lexc(b, c) < 0) ==> lexc(a, c) < 0
    decreases a.len()
{
    lemma_lexc_range(a, b); lemma_lexc_range(b, c); lemma_lexc_range(a, c);
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] { lemma_lexc_trans(a.skip(1), b.skip(1), c.skip(1)); }
    }
}
/// Total order facts, in a form the solver can use: antisymmetry, totality, transitivity.
pub broadcast proof fn lex_facts(a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger lexc(a, b)] -1 <= lexc(a, b) <= 1, lexc(a, b) == -lexc(b, a), (lexc(a, b) == 0) == (a == b)
{ lemma_lexc_range(a, b); }
pub broadcast proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] lexc(a, b) < 0, #[trigger] lexc(b, c) < 0
    ensures lexc(a, c) < 0
{ lemma_lexc_trans(a, b, c); }
pub broadcast group group_lex { lex_facts, lex_trans }

// assumed: the standard order on byte slices is the lexicographic one
pub assume_specification<T: Ord>[ <[T] as Ord>::cmp ](a: &[T], b: &[T]) -> (r: Ordering)
    ensures is_bytes::<T>() ==> r == lex_ord(as_bytes::<T>(a@), as_bytes::<T>(b@));
pub uninterp spec fn is_bytes<T>() -> bool;
pub uninterp spec fn as_bytes<T>(s: Seq<T>) -> Seq<u8>;
pub broadcast axiom fn ax_is_bytes(s: Seq<u8>) ensures is_bytes::<u8>(), #[trigger] as_bytes::<u8>(s) == s;

// assumed: byte slices are equal when their elements are
pub axiom fn ax_slice_ord_obeys() ensures <&[u8] as PartialOrdSpec<&[u8]>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_slice_ref_ord(a: &[u8], b: &[u8]) ensures #[trigger] <&[u8] as PartialOrdSpec<&[u8]>>::partial_cmp_spec(&a, &b) == Some(lex_ord(a@, b@)), <&[u8] as PartialOrdSpec<&[u8]>>::obeys_partial_cmp_spec();
pub axiom fn ax_slice_eq_obeys() ensures <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec(), <&[u8] as PartialEqSpec<&[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@), <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_slice_ref_eq(a: &[u8], b: &[u8]) ensures #[trigger] <&[u8] as PartialEqSpec<&[u8]>>::eq_spec(&a, &b) == (a@ == b@), <&[u8] as PartialEqSpec<&[u8]>>::obeys_eq_spec();

// ---------------------------------------------------------------- SHA-256
/// SHA-256 of a byte string: uninterpreted, so nothing depends on what it computes.
pub uninterp spec fn sha256(s: Seq<u8>) -> [u8; 32];
/// The byte string was hashed in this run (used only where collision resistance is assumed).
pub uninterp spec fn was_hashed(s: Seq<u8>) -> bool;

pub mod sha2 {
    use super::*;
    /// Stand-in for sha2::Sha256 (assumed contract): the digest of the concatenation of the updates.
    #[verifier::external_body]
    pub struct Sha256 { x: u8 }
    impl View for Sha256 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    pub struct Output { pub h: [u8; 32] }
    impl vstd::std_specs::convert::FromSpecImpl<Output> for [u8; 32] {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(o: Output) -> [u8; 32] { o.h }
    }
    impl From<Output> for [u8; 32] { fn from(o: Output) -> (r: [u8; 32]) ensures r == o.h { o.h } }
    pub trait Digest {}
    impl Sha256 {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update<T: AsRef<[u8]>>(&mut self, t: T) ensures final(self)@ == old(self)@ + bytes(&t) { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: Output) ensures r.h == sha256(self@), was_hashed(self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn digest<T: AsRef<[u8]>>(t: T) -> (r: Output) ensures r.h == sha256(bytes(&t)), was_hashed(bytes(&t)) { unimplemented!() }
    }
}
/// Every str fits in memory.
pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= usize::MAX;
pub broadcast proof fn lemma_full_range(s: Seq<u8>, n: int)
    requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub broadcast group group_slice { ax_slice_ref_ord, ax_slice_eq, ax_slice_ref_eq }
pub broadcast group group_core { ax_box_as_ref, lemma_full_range, ax_str_len, group_bytes, group_lex, ax_is_bytes }

