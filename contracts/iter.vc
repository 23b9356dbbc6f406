//@text
// ---------------------------------------------------------------- iterators (assumed contracts of the std adapters)
/// Stand-in for an iterator: the sequence of the items it yields. Adapters are described eagerly.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { x: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn refs<'a, T>(s: Seq<T>, r: Seq<&'a T>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i] }
pub trait SliceIt<T> { spec fn items_of(&self) -> Seq<T>; fn it<'a>(&'a self) -> (r: It<&'a T>) ensures refs(self.items_of(), r@); }
impl<T> SliceIt<T> for Vec<T> { open spec fn items_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> SliceIt<T> for [T] { open spec fn items_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T, const N: usize> SliceIt<T> for [T; N] { open spec fn items_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
pub trait FromIt<T>: Sized { spec fn collected(s: Seq<T>, c: Self) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn collected(s: Seq<T>, c: Self) -> bool { c@ == s } }
impl<A, E> FromIt<Result<A, E>> for Result<Vec<A>, E> {
    open spec fn collected(s: Seq<Result<A, E>>, c: Self) -> bool {
        match c {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<A, E>(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<A, E>(e),
        }
    }
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures C::collected(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false) { unimplemented!() }
    /// Folding visits the items in order, each step from the result of the one before.
    #[verifier::external_body]
    pub fn fold<A, F: Fn(A, T) -> A>(self, init: A, f: F) -> (r: A)
        requires self@.len() > 0 ==> f.requires((init, self@[0])),
            forall|a: A, i: int, b: A| 0 <= i && i + 1 < self@.len() && f.requires((a, self@[i])) && #[trigger] fold_step(f, a, self@, i, b) ==> f.requires((b, self@[i + 1]))
        ensures exists|t: Seq<A>| #[trigger] folded(f, init, self@, r, t) { unimplemented!() }
}
pub open spec fn fold_step<A, T, F: Fn(A, T) -> A>(f: F, a: A, s: Seq<T>, i: int, b: A) -> bool { f.ensures((a, s[i]), b) }
pub open spec fn folded<A, T, F: Fn(A, T) -> A>(f: F, init: A, s: Seq<T>, r: A, t: Seq<A>) -> bool {
    t.len() == s.len() + 1 && t[0] == init && t[s.len() as int] == r && forall|i: int| 0 <= i < s.len() ==> #[trigger] fold_step(f, t[i], s, i, t[i + 1])
}
