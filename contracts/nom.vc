//@curry map peek take count fold_many_m_n terminated
//@text
// ---------------------------------------------------------------- nom (assumed contracts of the parser combinator library)
pub enum ErrorKind { Alt, TooLarge, Eof, Count, ManyMN, Tag, Other }
pub struct Error<I> { pub input: I, pub code: ErrorKind }
impl<I> Error<I> { pub fn new(input: I, code: ErrorKind) -> (r: Self) ensures r == (Error { input, code }) { Error { input, code } } }
pub enum Err<E> { Incomplete(usize), Error(E), Failure(E) }
pub mod nom { pub use super::Err; }
impl<E> Err<E> {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
pub type IResult<I, O> = Result<(I, O), Err<Error<I>>>;
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat } }
#[verifier::external_body]
pub fn be_u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
    ensures match r { Ok((rest, v)) => i@.len() >= 1 && rest@ == i@.skip(1) && v == i@[0], Err(_) => i@.len() < 1 } { unimplemented!() }
#[verifier::external_body]
pub fn be_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
    ensures match r { Ok((rest, v)) => i@.len() >= 2 && rest@ == i@.skip(2) && v == be(i@.take(2)), Err(_) => i@.len() < 2 } { unimplemented!() }
#[verifier::external_body]
pub fn be_u32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
    ensures match r { Ok((rest, v)) => i@.len() >= 4 && rest@ == i@.skip(4) && v == be(i@.take(4)), Err(_) => i@.len() < 4 } { unimplemented!() }
#[verifier::external_body]
pub fn be_u64<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u64>)
    ensures match r { Ok((rest, v)) => i@.len() >= 8 && rest@ == i@.skip(8) && v == be(i@.take(8)), Err(_) => i@.len() < 8 } { unimplemented!() }
#[verifier::external_body]
pub fn take_call<'a>(n: usize, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, v)) => i@.len() >= n && rest@ == i@.skip(n as int) && v@ == i@.take(n as int), Err(_) => i@.len() < n } { unimplemented!() }
#[verifier::external_body]
pub fn eof<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, v)) => i@.len() == 0 && rest == i, Err(_) => i@.len() > 0 } { unimplemented!() }
#[verifier::external_body]
pub fn map_call<'a, A, B, F: Fn(&'a [u8]) -> IResult<&'a [u8], A>, G: Fn(A) -> B>(f: F, g: G, i: &'a [u8]) -> (r: IResult<&'a [u8], B>)
    requires f.requires((i,)), forall|a: A| g.requires((a,)),
    ensures match r {
        Ok((rest, b)) => exists|a: A| #[trigger] f.ensures((i,), Ok((rest, a))) && g.ensures((a,), b),
        Err(e) => exists|e2: Err<Error<&'a [u8]>>| #[trigger] f.ensures((i,), Err(e2)) } { unimplemented!() }
#[verifier::external_body]
pub fn peek_call<'a, A, F: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(f: F, i: &'a [u8]) -> (r: IResult<&'a [u8], A>)
    requires f.requires((i,)),
    ensures match r {
        Ok((rest, a)) => rest == i && exists|q: &'a [u8]| #[trigger] f.ensures((i,), Ok((q, a))),
        Err(e) => exists|e2: Err<Error<&'a [u8]>>| #[trigger] f.ensures((i,), Err(e2)) } { unimplemented!() }
#[verifier::external_body]
pub fn terminated_call<'a, A, B, F: Fn(&'a [u8]) -> IResult<&'a [u8], A>, G: Fn(&'a [u8]) -> IResult<&'a [u8], B>>(f: F, g: G, i: &'a [u8]) -> (r: IResult<&'a [u8], A>)
    requires f.requires((i,)), forall|q: &'a [u8]| g.requires((q,)),
    ensures match r {
        Ok((rest, a)) => exists|q: &'a [u8], b: B| #[trigger] f.ensures((i,), Ok((q, a))) && #[trigger] g.ensures((q,), Ok((rest, b))),
        Err(e) => (exists|e2: Err<Error<&'a [u8]>>| #[trigger] f.ensures((i,), Err(e2)))
            || exists|q: &'a [u8], a: A, e2: Err<Error<&'a [u8]>>| #[trigger] f.ensures((i,), Ok((q, a))) && #[trigger] g.ensures((q,), Err(e2)) } { unimplemented!() }
/// The parser f was run n times in a row, from ins[0] to ins[n], with results os.
pub open spec fn ran<'a, O, F: Fn(&'a [u8]) -> IResult<&'a [u8], O>>(f: F, ins: Seq<&'a [u8]>, os: Seq<O>) -> bool {
    ins.len() == os.len() + 1 && forall|k: int| 0 <= k < os.len() ==> #[trigger] f.ensures((ins[k],), Ok((ins[k + 1], os[k])))
}
#[verifier::external_body]
pub fn count_call<'a, O, F: Fn(&'a [u8]) -> IResult<&'a [u8], O>>(f: F, n: usize, i: &'a [u8]) -> (r: IResult<&'a [u8], Vec<O>>)
    requires forall|x: &'a [u8]| f.requires((x,)),
    ensures match r {
        Ok((rest, v)) => v@.len() == n && exists|ins: Seq<&'a [u8]>| #[trigger] ran(f, ins, v@) && ins[0] == i && ins[n as int] == rest,
        Err(e) => exists|ins: Seq<&'a [u8]>, os: Seq<O>, e2: Err<Error<&'a [u8]>>| #[trigger] ran(f, ins, os) && os.len() < n && ins[0] == i && #[trigger] f.ensures((ins[os.len() as int],), Err(e2)),
    } { unimplemented!() }
#[verifier::external_body]
pub fn fold_many_m_n_call<'a, O, R, F: Fn(&'a [u8]) -> IResult<&'a [u8], O>, H: Fn() -> R, G: Fn(R, O) -> R>(min: usize, max: usize, f: F, init: H, g: G, i: &'a [u8]) -> (r: IResult<&'a [u8], R>)
    requires forall|x: &'a [u8]| f.requires((x,)), init.requires(()), forall|a: R, o: O| g.requires((a, o)),
    ensures match r {
        Ok((rest, acc)) => exists|ins: Seq<&'a [u8]>, os: Seq<O>, accs: Seq<R>| #[trigger] ran(f, ins, os) && #[trigger] ran_folded(init, g, os, accs) && min <= os.len() <= max
            && ins[0] == i && ins[os.len() as int] == rest && accs[os.len() as int] == acc
            && (os.len() < max ==> exists|e2: Err<Error<&'a [u8]>>| #[trigger] f.ensures((rest,), Err(e2))),
        Err(e) => min > max || exists|ins: Seq<&'a [u8]>, os: Seq<O>| #[trigger] ran(f, ins, os) && os.len() < max && ins[0] == i && stopped(f, ins[os.len() as int]),
    } { unimplemented!() }
pub open spec fn ran_folded<O, R, H: Fn() -> R, G: Fn(R, O) -> R>(init: H, g: G, os: Seq<O>, accs: Seq<R>) -> bool {
    accs.len() == os.len() + 1 && init.ensures((), accs[0]) && forall|k: int| 0 <= k < os.len() ==> #[trigger] g.ensures((accs[k], os[k]), accs[k + 1])
}
/// f fails, or succeeds without consuming anything.
pub open spec fn stopped<'a, O, F: Fn(&'a [u8]) -> IResult<&'a [u8], O>>(f: F, x: &'a [u8]) -> bool {
    ||| exists|e2: Err<Error<&'a [u8]>>| #[trigger] f.ensures((x,), Err(e2))
    ||| exists|q: &'a [u8], o: O| #[trigger] f.ensures((x,), Ok((q, o))) && q@.len() == x@.len()
}
