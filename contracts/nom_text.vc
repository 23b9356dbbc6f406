//@text
// ---------------------------------------------------------------- nom on text (assumed contracts)
// What nom's combinators do, stated for any parser: says(i, o) holds if the parser may answer o on the input i. Error payloads are left out.
pub enum NErr<E> { Incomplete(usize), Error(E), Failure(E) }
pub type IResult<I, O, E = NomError> = std::result::Result<(I, O), NErr<E>>;
/// An answer: the rest and the value, or "no match, others may be tried", or "no match for good".
pub enum Out<I, O> { Got(I, O), Miss, Dead }
pub open spec fn out<I, O, E>(r: IResult<I, O, E>) -> Out<I, O> { match r { Ok((i, o)) => Out::Got(i, o), Err(NErr::Error(_)) => Out::Miss, Err(_) => Out::Dead } }
pub open spec fn dead<I, O>(o: Out<I, O>) -> Out<I, O> { match o { Out::Miss => Out::Dead, _ => o } }
pub trait ParseError<I> {}
pub trait ContextError<I> {}
pub struct NomError { x: u8 }
impl<'a> ParseError<&'a str> for NomError {}
impl<'a> ContextError<&'a str> for NomError {}
impl<E> NErr<E> { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub trait Parser<I, O, E>: Sized {
    spec fn says(&self, i: I, o: Out<I, O>) -> bool;
    spec fn ok(&self) -> bool;
    fn parse(&self, i: I) -> (r: IResult<I, O, E>) requires self.ok() ensures self.says(i, out(r));
}
impl<'a, O, E, F: Fn(&'a str) -> IResult<&'a str, O, E>> Parser<&'a str, O, E> for F {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, O>) -> bool { exists|r: IResult<&'a str, O, E>| #[trigger] self.ensures((i,), r) && out(r) == o }
    open spec fn ok(&self) -> bool { forall|i: &'a str| self.requires((i,)) }
    fn parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { self(i) }
}
pub struct Char { pub c: char }
pub fn char(c: char) -> (r: Char) ensures r.c == c { Char { c } }
impl<'a, E> Parser<&'a str, char, E> for Char {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, char>) -> bool {
        if i@.len() > 0 && i@[0] == self.c { o is Got && o->Got_0@ == i@.skip(1) && o->Got_1 == self.c } else { o is Miss }
    }
    open spec fn ok(&self) -> bool { true }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, char, E>) { unimplemented!() }
}
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn unblank(s: Seq<char>) -> Seq<char> { s.skip(run(s, |c: char| blank(c))) }
#[verifier::external_body]
pub fn multispace0<'a, E: ParseError<&'a str>>(i: &'a str) -> (r: IResult<&'a str, &'a str, E>) ensures r is Ok, (r->Ok_0).0@ == unblank(i@) { unimplemented!() }
pub struct TakeWhile<F> { pub f: F }
pub fn take_while<F: Fn(char) -> bool>(f: F) -> (r: TakeWhile<F>) ensures r.f == f { TakeWhile { f } }
/// The longest beginning of i for whose characters f answers yes.
pub open spec fn taken<F: Fn(char) -> bool>(f: F, i: Seq<char>, n: int) -> bool {
    0 <= n <= i.len() && (forall|k: int| #![trigger i[k]] 0 <= k < n ==> f.ensures((i[k],), true)) && (n == i.len() || f.ensures((i[n],), false))
}
impl<'a, E, F: Fn(char) -> bool> Parser<&'a str, &'a str, E> for TakeWhile<F> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, &'a str>) -> bool { o is Got && taken(self.f, i@, o->Got_1@.len() as int) && o->Got_1@ == i@.take(o->Got_1@.len() as int) && o->Got_0@ == i@.skip(o->Got_1@.len() as int) }
    open spec fn ok(&self) -> bool { forall|c: char| self.f.requires((c,)) }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct OneOf { pub l: &'static str }
pub fn one_of(l: &'static str) -> (r: OneOf) ensures r.l == l { OneOf { l } }
pub struct Escaped<A> { pub a: A, pub c: char, pub b: OneOf }
pub fn escaped<F: Fn(char) -> bool>(a: TakeWhile<F>, c: char, b: OneOf) -> (r: Escaped<TakeWhile<F>>) ensures r.a == a, r.c == c, r.b == b { Escaped { a, c, b } }
/// escaped(take_while(..), ..): what take_while takes; nom 7 stops at the first place where it takes nothing, before looking at the control character.
impl<'a, E, F: Fn(char) -> bool> Parser<&'a str, &'a str, E> for Escaped<TakeWhile<F>> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, &'a str>) -> bool { o is Got && taken(self.a.f, i@, o->Got_1@.len() as int) && o->Got_1@ == i@.take(o->Got_1@.len() as int) && o->Got_0@ == i@.skip(o->Got_1@.len() as int) }
    open spec fn ok(&self) -> bool { forall|c: char| self.a.f.requires((c,)) }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct Context<P> { pub p: P }
pub fn context<P>(l: &'static str, p: P) -> (r: Context<P>) ensures r.p == p { Context { p } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Context<P> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, O>) -> bool { self.p.says(i, o) }
    open spec fn ok(&self) -> bool { self.p.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
pub struct Cut<P> { pub p: P }
pub fn cut<P>(p: P) -> (r: Cut<P>) ensures r.p == p { Cut { p } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Cut<P> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, O>) -> bool { exists|q: Out<&'a str, O>| #[trigger] self.p.says(i, q) && o == dead(q) }
    open spec fn ok(&self) -> bool { self.p.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
/// a, then b
pub open spec fn both<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>>(a: A, b: B, i: &'a str, o: Out<&'a str, (X, Y)>) -> bool {
    exists|p: Out<&'a str, X>| #[trigger] a.says(i, p) && match p {
        Out::Got(j, x) => exists|q: Out<&'a str, Y>| #[trigger] b.says(j, q) && o == match q { Out::Got(k, y) => Out::Got(k, (x, y)), Out::Miss => Out::Miss, Out::Dead => Out::Dead },
        Out::Miss => o is Miss, Out::Dead => o is Dead,
    }
}
pub struct Preceded<A, B, X> { pub a: A, pub b: B, pub x: Ghost<Option<X>> }
pub fn preceded<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>>(a: A, b: B) -> (r: Preceded<A, B, X>) ensures r.a == a, r.b == b { Preceded { a, b, x: Ghost(None) } }
impl<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>> Parser<&'a str, Y, E> for Preceded<A, B, X> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, Y>) -> bool { exists|p: Out<&'a str, (X, Y)>| #[trigger] both::<X, Y, E, A, B>(self.a, self.b, i, p) && o == match p { Out::Got(k, y) => Out::Got(k, y.1), Out::Miss => Out::Miss, Out::Dead => Out::Dead } }
    open spec fn ok(&self) -> bool { self.a.ok() && self.b.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, Y, E>) { unimplemented!() }
}
pub struct Terminated<A, B, Y> { pub a: A, pub b: B, pub y: Ghost<Option<Y>> }
pub fn terminated<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>>(a: A, b: B) -> (r: Terminated<A, B, Y>) ensures r.a == a, r.b == b { Terminated { a, b, y: Ghost(None) } }
impl<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>> Parser<&'a str, X, E> for Terminated<A, B, Y> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, X>) -> bool { exists|p: Out<&'a str, (X, Y)>| #[trigger] both::<X, Y, E, A, B>(self.a, self.b, i, p) && o == match p { Out::Got(k, y) => Out::Got(k, y.0), Out::Miss => Out::Miss, Out::Dead => Out::Dead } }
    open spec fn ok(&self) -> bool { self.a.ok() && self.b.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, X, E>) { unimplemented!() }
}
pub struct Tuple2<A, B> { pub a: A, pub b: B }
pub fn tuple<A, B>(l: (A, B)) -> (r: Tuple2<A, B>) ensures r.a == l.0, r.b == l.1 { Tuple2 { a: l.0, b: l.1 } }
impl<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>> Parser<&'a str, (X, Y), E> for Tuple2<A, B> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, (X, Y)>) -> bool { both::<X, Y, E, A, B>(self.a, self.b, i, o) }
    open spec fn ok(&self) -> bool { self.a.ok() && self.b.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, (X, Y), E>) { unimplemented!() }
}
pub struct SepPair<A, S, B, Z> { pub a: A, pub s: S, pub b: B, pub z: Ghost<Option<Z>> }
pub fn separated_pair<'a, X, Z, Y, E, A: Parser<&'a str, X, E>, S: Parser<&'a str, Z, E>, B: Parser<&'a str, Y, E>>(a: A, s: S, b: B) -> (r: SepPair<A, S, B, Z>) ensures r.a == a, r.s == s, r.b == b { SepPair { a, s, b, z: Ghost(None) } }
impl<'a, X, Z, Y, E, A: Parser<&'a str, X, E>, S: Parser<&'a str, Z, E>, B: Parser<&'a str, Y, E>> Parser<&'a str, (X, Y), E> for SepPair<A, S, B, Z> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, (X, Y)>) -> bool {
        exists|p: Out<&'a str, X>| #[trigger] self.a.says(i, p) && match p {
            Out::Got(j, x) => exists|q: Out<&'a str, (Z, Y)>| #[trigger] both::<Z, Y, E, S, B>(self.s, self.b, j, q) && o == match q { Out::Got(k, y) => Out::Got(k, (x, y.1)), Out::Miss => Out::Miss, Out::Dead => Out::Dead },
            Out::Miss => o is Miss, Out::Dead => o is Dead,
        }
    }
    open spec fn ok(&self) -> bool { self.a.ok() && self.s.ok() && self.b.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, (X, Y), E>) { unimplemented!() }
}
pub struct Map<P, F, X> { pub p: P, pub f: F, pub x: Ghost<Option<X>> }
pub fn map<'a, X, Y, E, P: Parser<&'a str, X, E>, F: Fn(X) -> Y>(p: P, f: F) -> (r: Map<P, F, X>) ensures r.p == p, r.f == f { Map { p, f, x: Ghost(None) } }
impl<'a, X, Y, E, P: Parser<&'a str, X, E>, F: Fn(X) -> Y> Parser<&'a str, Y, E> for Map<P, F, X> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, Y>) -> bool {
        exists|p: Out<&'a str, X>| #[trigger] self.p.says(i, p) && match p { Out::Got(j, x) => o is Got && o->Got_0 == j && self.f.ensures((x,), o->Got_1), Out::Miss => o is Miss, Out::Dead => o is Dead }
    }
    open spec fn ok(&self) -> bool { self.p.ok() && forall|x: X| self.f.requires((x,)) }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, Y, E>) { unimplemented!() }
}
pub struct Alt4<A, B, C, D> { pub a: A, pub b: B, pub c: C, pub d: D }
pub fn alt<A, B, C, D>(l: (A, B, C, D)) -> (r: Alt4<A, B, C, D>) ensures r.a == l.0, r.b == l.1, r.c == l.2, r.d == l.3 { Alt4 { a: l.0, b: l.1, c: l.2, d: l.3 } }
/// The answer of the first of several parsers that does not miss.
pub open spec fn or_else<I, O>(p: Out<I, O>, o: Out<I, O>, more: bool) -> bool { if p is Miss { more } else { o == p } }
impl<'a, O, E, A: Parser<&'a str, O, E>, B: Parser<&'a str, O, E>, C: Parser<&'a str, O, E>, D: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Alt4<A, B, C, D> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, O>) -> bool {
        exists|p: Out<&'a str, O>| #[trigger] self.a.says(i, p) && or_else(p, o,
            exists|p: Out<&'a str, O>| #[trigger] self.b.says(i, p) && or_else(p, o,
                exists|p: Out<&'a str, O>| #[trigger] self.c.says(i, p) && or_else(p, o, self.d.says(i, o))))
    }
    open spec fn ok(&self) -> bool { self.a.ok() && self.b.ok() && self.c.ok() && self.d.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
/// The rest of a list: a separator and an item, as often as both match. (A list whose items do not consume anything is an error in nom; not stated.)
pub open spec fn rest_of<'a, Z, O, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, O, E>>(s: S, p: P, i: &'a str, acc: Seq<O>, o: Out<&'a str, Seq<O>>) -> bool decreases i@.len() {
    exists|z: Out<&'a str, Z>| #[trigger] s.says(i, z) && match z {
        Out::Miss => o == Out::<&'a str, Seq<O>>::Got(i, acc), Out::Dead => o is Dead,
        Out::Got(j, _) => if j@.len() == i@.len() { o is Miss } else {
            exists|x: Out<&'a str, O>| #[trigger] p.says(j, x) && match x {
                Out::Miss => o == Out::<&'a str, Seq<O>>::Got(i, acc), Out::Dead => o is Dead,
                Out::Got(k, x) => k@.len() < i@.len() ==> rest_of::<Z, O, E, S, P>(s, p, k, acc.push(x), o),
            }
        },
    }
}
pub struct SepList<S, P, Z> { pub s: S, pub p: P, pub z: Ghost<Option<Z>> }
pub fn separated_list0<'a, Z, O, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, O, E>>(s: S, p: P) -> (r: SepList<S, P, Z>) ensures r.s == s, r.p == p { SepList { s, p, z: Ghost(None) } }
pub open spec fn items<I, O>(o: Out<I, Vec<O>>) -> Out<I, Seq<O>> { match o { Out::Got(i, v) => Out::Got(i, v@), Out::Miss => Out::Miss, Out::Dead => Out::Dead } }
impl<'a, Z, O, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, O, E>> Parser<&'a str, Vec<O>, E> for SepList<S, P, Z> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, Vec<O>>) -> bool {
        exists|x: Out<&'a str, O>| #[trigger] self.p.says(i, x) && match x {
            Out::Miss => items(o) == Out::<&'a str, Seq<O>>::Got(i, Seq::<O>::empty()), Out::Dead => o is Dead,
            Out::Got(k, x) => rest_of::<Z, O, E, S, P>(self.s, self.p, k, seq![x], items(o)),
        }
    }
    open spec fn ok(&self) -> bool { self.s.ok() && self.p.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, Vec<O>, E>) { unimplemented!() }
}
