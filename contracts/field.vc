//@source cf packages/ic-response-verification/src/verification/certificate_header_field.rs
//@hoist extract_header_field
//@derive CertificateHeaderField
//@text
pub struct Opt<P> { pub p: P }
pub fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, Option<O>, E> for Opt<P> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, Option<O>>) -> bool { exists|q: Out<&'a str, O>| #[trigger] self.p.says(i, q) && o == match q { Out::Got(j, x) => Out::Got(j, Some(x)), Out::Miss => Out::Got(i, None), Out::Dead => Out::Dead } }
    open spec fn ok(&self) -> bool { self.p.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, Option<O>, E>) { unimplemented!() }
}
pub struct Delim<A, B, C, X, Z> { pub a: A, pub b: B, pub c: C, pub x: Ghost<Option<(X, Z)>> }
pub fn delimited<'a, X, Y, Z, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>, C: Parser<&'a str, Z, E>>(a: A, b: B, c: C) -> (r: Delim<A, B, C, X, Z>) ensures r.a == a, r.b == b, r.c == c { Delim { a, b, c, x: Ghost(None) } }
impl<'a, X, Y, Z, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>, C: Parser<&'a str, Z, E>> Parser<&'a str, Y, E> for Delim<A, B, C, X, Z> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, Y>) -> bool {
        exists|p: Out<&'a str, (X, Y)>| #[trigger] both::<X, Y, E, A, B>(self.a, self.b, i, p) && match p {
            Out::Got(j, y) => exists|q: Out<&'a str, Z>| #[trigger] self.c.says(j, q) && o == match q { Out::Got(k, _) => Out::Got(k, y.1), Out::Miss => Out::Miss, Out::Dead => Out::Dead },
            Out::Miss => o is Miss, Out::Dead => o is Dead,
        }
    }
    open spec fn ok(&self) -> bool { self.a.ok() && self.b.ok() && self.c.ok() }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, Y, E>) { unimplemented!() }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// Where p first occurs in s; -1 if nowhere.
pub open spec fn find(s: Seq<char>, p: Seq<char>) -> int decreases s.len() { if starts(s, p) { 0 } else if s.len() == 0 { -1 } else { let k = find(s.skip(1), p); if k < 0 { -1 } else { k + 1 } } }
pub struct Tag<'v> { pub v: &'v str }
pub fn tag<'v>(v: &'v str) -> (r: Tag<'v>) ensures r.v == v { Tag { v } }
impl<'a, 'v, E> Parser<&'a str, &'a str, E> for Tag<'v> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, &'a str>) -> bool { if starts(i@, self.v@) { o is Got && o->Got_0@ == i@.skip(self.v@.len() as int) && o->Got_1@ == self.v@ } else { o is Miss } }
    open spec fn ok(&self) -> bool { true }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct TakeUntil<'v> { pub v: &'v str }
pub fn take_until<'v>(v: &'v str) -> (r: TakeUntil<'v>) ensures r.v == v { TakeUntil { v } }
impl<'a, 'v, E> Parser<&'a str, &'a str, E> for TakeUntil<'v> {
    open spec fn says(&self, i: &'a str, o: Out<&'a str, &'a str>) -> bool { let k = find(i@, self.v@); if k >= 0 { o is Got && o->Got_0@ == i@.skip(k) && o->Got_1@ == i@.take(k) } else { o is Miss } }
    open spec fn ok(&self) -> bool { true }
    #[verifier::external_body] fn parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
#[verifier::external_body]
pub fn eof<'a, E>(i: &'a str) -> (r: IResult<&'a str, &'a str, E>) ensures r is Ok == (i@.len() == 0) { unimplemented!() }
pub proof fn lemma_find(s: Seq<char>, p: Seq<char>) ensures -1 <= find(s, p) <= s.len(), find(s, p) >= 0 ==> starts(s.skip(find(s, p)), p) decreases s.len()
{ if !starts(s, p) && s.len() > 0 { lemma_find(s.skip(1), p); let k = find(s.skip(1), p); if k >= 0 { assert(s.skip(1).skip(k) =~= s.skip(k + 1)); } } else { assert(s.skip(0) =~= s); } }
pub proof fn lemma_find_char(s: Seq<char>, c: char) ensures find(s, seq![c]) == if upto(c, s) == s.len() { -1 } else { upto(c, s) } decreases s.len()
{
    lemma_run(s, other(c)); if s.len() > 0 { lemma_run(s.skip(1), other(c)); lemma_find_char(s.skip(1), c); if s[0] == c { assert(s.take(1) =~= seq![c]); } else { assert(s.take(1)[0] == s[0]); } }
    lemma_run(s, other(c));
}
//@take cf CertificateHeaderField drop_delimiters until_terminated extract extract_header_field CertificateHeaderField::from
//@fn drop_delimiters C22
//@subst `delimited(` => `delimited::<_, _, _, NomError, _, _, _>(`
//@ret r
//@subst `)(i)` => `).parse(i)`
//@subst `|e|` => `|e: char|`
//@closure 0
 -> (b: bool) ensures b == (e != v)
//@spec
    ensures ({ let u = off(v, i@); let m = upto(v, u); r is Ok && (r->Ok_0).0@ == off(v, u.skip(m)) && (r->Ok_0).1@ == u.take(m) })
//@tail
    proof { lemma_run_is(off(v, i@), other(v), (r->Ok_0).1@.len() as int); }
//@fn until_terminated C22
//@subst `terminated(take` => `terminated::<_, _, NomError, _, _>(take`
//@ret r
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures ({ let k = find(i@, v@); if k < 0 { r is Err } else { r is Ok && (r->Ok_0).0@ == i@.skip(k).skip(v@.len() as int) && (r->Ok_0).1@ == i@.take(k) } })
//@entry
    proof { lemma_find(i@, v@); }
//@fn extract C22
//@ret r
//@spec
    ensures match r { Ok((_, (n, v))) => (split_field(i@) == Some((n@, v@)) && n@.len() > 0 && v@.len() > 0) || ((n@.len() == 0 || v@.len() == 0) && split_field(i@) is None), Err(_) => split_field(i@) is None }
//@entry
    let ghost t = i@;
    proof { reveal_strlit("="); assert("="@ =~= seq!['=']); lemma_find_char(t, '='); lemma_run(t, other('=')); let n = upto('=', t); if n < t.len() { assert(t.skip(n).skip(1) =~= t.skip(n + 1)); let u = off(':', t.skip(n + 1)); lemma_run(u, other(':')); } }
//@fn extract_header_field C22
//@ret r
//@closure 0
 -> (x: Option<(&str, &str)>) ensures x == if _p0.1.0@.len() == 0 || _p0.1.1@.len() == 0 { None } else { Some(_p0.1) }
//@spec
    ensures match r { Some((n, v)) => split_field(header_field@) == Some((n@, v@)), None => split_field(header_field@) is None }
//@fn CertificateHeaderField::from C22
//@ret r
//@closure 0
 -> (x: CertificateHeaderField<'a>) ensures x.0 == _p0.0, x.1 == _p0.1
//@spec
    ensures match r { Some(x) => field_of(header_field@) == Some((x.0@, x.1@)), None => field_of(header_field@) is None }
