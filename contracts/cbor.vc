//@ctor CborUnsignedInt::UInt8 CborUnsignedInt::UInt16 CborUnsignedInt::UInt32 CborUnsignedInt::UInt64
//@source cb packages/ic-cbor/src/cbor_parser.rs
//@source ct packages/ic-cbor/src/cbor_parse_hash_tree.rs
//@source cc packages/ic-cbor/src/cbor_parse_certificate.rs
//@derive CborUnsignedInt Copy, Clone
//@derive CborNegativeInt Copy, Clone
//@derive CborHashTree Copy, Clone
//@derive CborValue
//@take cb MAX_NESTING_DEPTH CborNegativeInt CborUnsignedInt CborHashTree CborValue
//@text
// ---------------------------------------------------------------- stand-in for std::collections::HashMap (assumed: last insertion of a key wins)
pub struct HashMap<K, V> { pub e: Vec<(K, V)> }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.e@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> Option<V> ensures final(self).e@ == old(self).e@.push((k, v)) { unimplemented!() }
}
/// entry i is the last one with key k
pub open spec fn last_key<V>(e: Seq<(String, V)>, k: Seq<char>, i: int) -> bool {
    0 <= i < e.len() && e[i].0@ == k && forall|j: int| i < j < e.len() ==> (#[trigger] e[j]).0@ != k
}

// ---------------------------------------------------------------- what a CBOR item means
pub enum V { U(CborUnsignedInt), N(int), B(Seq<u8>), A(Seq<V>), M(Map<Seq<char>, V>), T(CborHashTree) }
pub open spec fn neg(n: CborNegativeInt) -> int {
    match n { CborNegativeInt::Int8(x) => x as int, CborNegativeInt::Int16(x) => x as int, CborNegativeInt::Int32(x) => x as int, CborNegativeInt::Int64(x) => x as int }
}
pub open spec fn uns(n: CborUnsignedInt) -> nat {
    match n { CborUnsignedInt::UInt8(x) => x as nat, CborUnsignedInt::UInt16(x) => x as nat, CborUnsignedInt::UInt32(x) => x as nat, CborUnsignedInt::UInt64(x) => x as nat }
}
/// The value a decoded CborValue stands for.
pub open spec fn vw(c: CborValue) -> V decreases c {
    match c {
        CborValue::Unsigned(u) => V::U(u),
        CborValue::Signed(n) => V::N(neg(n)),
        CborValue::ByteString(b) => V::B(b@),
        CborValue::Array(a) => V::A(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { vw(a@[i]) } else { V::N(0) })),
        CborValue::Map(m) => V::M(vmap(m.e@)),
        CborValue::HashTree(t) => V::T(t),
    }
}
pub open spec fn vmap(e: Seq<(String, CborValue)>) -> Map<Seq<char>, V> decreases e, e.len() {
    if e.len() == 0 { Map::empty() } else { vmap(e.drop_last()).insert(e.last().0@, vw(e.last().1)) }
}
pub open spec fn vws(a: Seq<CborValue>) -> Seq<V> { Seq::new(a.len(), |i: int| vw(a[i])) }
/// The initial byte and the argument that follows it (RFC 8949, section 3).
pub open spec fn arg(s: Seq<u8>) -> Option<(CborUnsignedInt, Seq<u8>)> {
    if s.len() == 0 { None } else {
        let info = s[0] % 32;
        let t = s.skip(1);
        if info <= 23 { Some((CborUnsignedInt::UInt8(info), t)) }
        else if info == 24 && t.len() >= 1 { Some((CborUnsignedInt::UInt8(t[0]), t.skip(1))) }
        else if info == 25 && t.len() >= 2 { Some((CborUnsignedInt::UInt16(be(t.take(2)) as u16), t.skip(2))) }
        else if info == 26 && t.len() >= 4 { Some((CborUnsignedInt::UInt32(be(t.take(4)) as u32), t.skip(4))) }
        else if info == 27 && t.len() >= 8 { Some((CborUnsignedInt::UInt64(be(t.take(8)) as u64), t.skip(8))) }
        else { None }
    }
}

pub open spec fn left(depth: int) -> nat { if depth > 256 { 0 } else { (257 - depth) as nat } }
/// One data item at the start of s, and what follows it; None when there is none.
pub open spec fn item(s: Seq<u8>, depth: int) -> Option<(V, Seq<u8>)> decreases left(depth), 0nat, 0nat {
    if depth > 256 { None } else {
        match arg(s) {
            None => None,
            Some((u, t)) => {
                let n = uns(u);
                let major = s[0] / 32;
                if major == 0 {
                    Some((match u { CborUnsignedInt::UInt8(0) => V::T(CborHashTree::Empty), CborUnsignedInt::UInt8(1) => V::T(CborHashTree::Fork), CborUnsignedInt::UInt8(2) => V::T(CborHashTree::Labelled),
                        CborUnsignedInt::UInt8(3) => V::T(CborHashTree::Leaf), CborUnsignedInt::UInt8(4) => V::T(CborHashTree::Pruned), _ => V::U(u) }, t))
                } else if major == 1 {
                    if n <= i64::MAX { Some((V::N(-1 - n), t)) } else { None }
                } else if major == 2 || major == 3 {
                    if n <= t.len() { Some((V::B(t.take(n as int)), t.skip(n as int))) } else { None }
                } else if major == 4 {
                    match items(t, depth + 1, n) { Some((vs, r)) => Some((V::A(vs), r)), None => None }
                } else if major == 5 {
                    match pairs(t, depth + 1, n) { Some((ps, r)) => Some((V::M(pmap(ps)), r)), None => None }
                } else if major == 6 {
                    item(t, depth + 1)
                } else { None }
            }
        }
    }
}
pub open spec fn items(s: Seq<u8>, depth: int, n: nat) -> Option<(Seq<V>, Seq<u8>)> decreases left(depth), 2nat, n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match item(s, depth) {
            None => None,
            Some((v, t)) => match items(t, depth, (n - 1) as nat) { None => None, Some((vs, r)) => Some((seq![v] + vs, r)) },
        }
    }
}
pub open spec fn pair(s: Seq<u8>, depth: int) -> Option<((Seq<char>, V), Seq<u8>)> decreases left(depth), 1nat, 0nat {
    match item(s, depth) {
        Some((V::B(k), t)) => match (utf8(k), item(t, depth)) { (Some(k), Some((v, r))) => Some(((k, v), r)), _ => None },
        _ => None,
    }
}
pub open spec fn pairs(s: Seq<u8>, depth: int, n: nat) -> Option<(Seq<(Seq<char>, V)>, Seq<u8>)> decreases left(depth), 2nat, n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match pair(s, depth) {
            None => None,
            Some((v, t)) => match pairs(t, depth, (n - 1) as nat) { None => None, Some((vs, r)) => Some((seq![v] + vs, r)) },
        }
    }
}
/// Later entries replace earlier ones of the same key.
pub open spec fn pmap(e: Seq<(Seq<char>, V)>) -> Map<Seq<char>, V> decreases e.len() {
    if e.len() == 0 { Map::empty() } else { pmap(e.drop_last()).insert(e.last().0, e.last().1) }
}
/// The whole input is one data item.
pub open spec fn decoded(s: Seq<u8>) -> Option<V> { match item(s, 0) { Some((v, r)) => if r.len() == 0 { Some(v) } else { None }, None => None } }

// ---------------------------------------------------------------- running a parser repeatedly
pub axiom fn ax_slice_len(s: &[u8]) ensures s@.len() <= usize::MAX;
pub proof fn lemma_item_len(s: Seq<u8>, d: int)
    ensures match item(s, d) { Some((_, r)) => r.len() < s.len(), None => true } decreases left(d), 0nat, 0nat
{
    if d <= 256 { if let Some((u, t)) = arg(s) {
        let n = uns(u);
        if s[0] / 32 == 4 { lemma_items_len(t, d + 1, n); } else if s[0] / 32 == 5 { lemma_pairs_len(t, d + 1, n); } else if s[0] / 32 == 6 { lemma_item_len(t, d + 1); }
    } }
}
pub proof fn lemma_items_len(s: Seq<u8>, d: int, n: nat)
    ensures match items(s, d, n) { Some((_, r)) => r.len() + n <= s.len(), None => true } decreases left(d), 2nat, n
{ if n > 0 { lemma_item_len(s, d); if let Some((_, t)) = item(s, d) { lemma_items_len(t, d, (n - 1) as nat); } } }
pub proof fn lemma_pair_len(s: Seq<u8>, d: int)
    ensures match pair(s, d) { Some((_, r)) => r.len() + 2 <= s.len(), None => true } decreases left(d), 1nat, 0nat
{ lemma_item_len(s, d); if let Some((_, t)) = item(s, d) { lemma_item_len(t, d); } }
pub proof fn lemma_pairs_len(s: Seq<u8>, d: int, n: nat)
    ensures match pairs(s, d, n) { Some((_, r)) => r.len() + n <= s.len(), None => true } decreases left(d), 2nat, n
{ if n > 0 { lemma_pair_len(s, d); if let Some((_, t)) = pair(s, d) { lemma_pairs_len(t, d, (n - 1) as nat); } } }
/// More items than there are bytes are never there.
pub broadcast proof fn lemma_counts_fit(s: Seq<u8>, d: int, n: nat)
    requires n > s.len() ensures #![trigger items(s, d, n)] #![trigger pairs(s, d, n)] items(s, d, n) is None, pairs(s, d, n) is None
{ lemma_items_len(s, d, n); lemma_pairs_len(s, d, n); }

pub open spec fn reads_item<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], CborValue>>(f: F, d: int) -> bool {
    forall|x: &'a [u8], r: IResult<&'a [u8], CborValue>| #[trigger] f.ensures((x,), r) ==> match r { Ok((t, v)) => item(x@, d) == Some((vw(v), t@)), Err(_) => item(x@, d) is None }
}
pub open spec fn reads_pair<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], (String, CborValue)>>(f: F, d: int) -> bool {
    forall|x: &'a [u8], r: IResult<&'a [u8], (String, CborValue)>| #[trigger] f.ensures((x,), r) ==> match r { Ok((t, v)) => pair(x@, d) == Some(((v.0@, vw(v.1)), t@)), Err(_) => pair(x@, d) is None }
}
pub proof fn lemma_items_ran<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], CborValue>>(f: F, ins: Seq<&'a [u8]>, os: Seq<CborValue>, d: int, k: int, n: nat)
    requires ran(f, ins, os), reads_item(f, d), 0 <= k <= os.len(), n >= os.len() - k
    ensures n == os.len() - k ==> items(ins[k]@, d, n) == Some((vws(os.skip(k)), ins[os.len() as int]@)),
        n > os.len() - k && item(ins[os.len() as int]@, d) is None ==> items(ins[k]@, d, n) is None
    decreases os.len() - k
{
    if k < os.len() {
        assert(f.ensures((ins[k],), Ok((ins[k + 1], os[k]))));
        lemma_items_ran(f, ins, os, d, k + 1, (n - 1) as nat);
        assert(vws(os.skip(k)) =~= seq![vw(os[k])] + vws(os.skip(k + 1)));
    } else { assert(vws(os.skip(k)) =~= Seq::<V>::empty()); }
}
/// count, for a parser of items at a known depth (the assumed contract of nom's count gives the rest).
pub fn count_items<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], CborValue>>(Ghost(d): Ghost<int>, f: F, n: usize, i: &'a [u8]) -> (r: IResult<&'a [u8], Vec<CborValue>>)
    requires forall|x: &'a [u8]| f.requires((x,)), reads_item(f, d)
    ensures match r { Ok((t, v)) => items(i@, d, n as nat) == Some((vws(v@), t@)), Err(_) => items(i@, d, n as nat) is None }
{
    let ghost g = f;
    let r = count_call(f, n, i);
    let ghost r1 = r;
    proof {
        match r1 {
            Ok((rest, v)) => {
                let ins = choose|ins: Seq<&'a [u8]>| #[trigger] ran(g, ins, v@) && ins[0] == i && ins[n as int] == rest;
                lemma_items_ran(g, ins, v@, d, 0, n as nat);
                assert(v@.skip(0) =~= v@);
            }
            Err(_) => {
                let (ins, os, e2) = choose|ins: Seq<&'a [u8]>, os: Seq<CborValue>, e2: Err<Error<&'a [u8]>>| #[trigger] ran(g, ins, os) && os.len() < n && ins[0] == i && #[trigger] g.ensures((ins[os.len() as int],), Err(e2));
                lemma_items_ran(g, ins, os, d, 0, n as nat);
            }
        }
    }
    r
}
pub open spec fn kvs(e: Seq<(String, CborValue)>) -> Seq<(Seq<char>, V)> { Seq::new(e.len(), |i: int| (e[i].0@, vw(e[i].1))) }
pub proof fn lemma_vmap(e: Seq<(String, CborValue)>) ensures vmap(e) == pmap(kvs(e)) decreases e.len()
{ if e.len() > 0 { lemma_vmap(e.drop_last()); assert(kvs(e).drop_last() =~= kvs(e.drop_last())); } }
pub proof fn lemma_pairs_ran<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], (String, CborValue)>>(f: F, ins: Seq<&'a [u8]>, os: Seq<(String, CborValue)>, d: int, k: int, n: nat)
    requires ran(f, ins, os), reads_pair(f, d), 0 <= k <= os.len(), n >= os.len() - k
    ensures n == os.len() - k ==> pairs(ins[k]@, d, n) == Some((kvs(os.skip(k)), ins[os.len() as int]@)),
        n > os.len() - k && pair(ins[os.len() as int]@, d) is None ==> pairs(ins[k]@, d, n) is None
    decreases os.len() - k
{
    if k < os.len() {
        assert(f.ensures((ins[k],), Ok((ins[k + 1], os[k]))));
        lemma_pairs_ran(f, ins, os, d, k + 1, (n - 1) as nat);
        assert(kvs(os.skip(k)) =~= seq![(os[k].0@, vw(os[k].1))] + kvs(os.skip(k + 1)));
    } else { assert(kvs(os.skip(k)) =~= Seq::<(Seq<char>, V)>::empty()); }
}
pub proof fn lemma_folded<H: Fn() -> HashMap<String, CborValue>, G: Fn(HashMap<String, CborValue>, (String, CborValue)) -> HashMap<String, CborValue>>(init: H, g: G, os: Seq<(String, CborValue)>, accs: Seq<HashMap<String, CborValue>>, k: int)
    requires ran_folded(init, g, os, accs), pushes(init, g), 0 <= k <= os.len()
    ensures accs[k].e@ == os.take(k) decreases k
{
    if k > 0 { lemma_folded(init, g, os, accs, k - 1); assert(g.ensures((accs[k - 1], os[k - 1]), accs[k - 1 + 1])); assert(os.take(k) =~= os.take(k - 1).push(os[k - 1])); }
    else { assert(accs[0].e@ =~= os.take(0)); }
}
pub open spec fn pushes<H: Fn() -> HashMap<String, CborValue>, G: Fn(HashMap<String, CborValue>, (String, CborValue)) -> HashMap<String, CborValue>>(init: H, g: G) -> bool {
    &&& forall|r: HashMap<String, CborValue>| #[trigger] init.ensures((), r) ==> r.e@.len() == 0
    &&& forall|a: HashMap<String, CborValue>, o: (String, CborValue), r: HashMap<String, CborValue>| #[trigger] g.ensures((a, o), r) ==> r.e@ == a.e@.push(o)
}
/// fold_many_m_n, for a parser of map entries at a known depth.
pub fn fold_pairs<'a, F: Fn(&'a [u8]) -> IResult<&'a [u8], (String, CborValue)>, H: Fn() -> HashMap<String, CborValue>, G: Fn(HashMap<String, CborValue>, (String, CborValue)) -> HashMap<String, CborValue>>(Ghost(d): Ghost<int>, min: usize, max: usize, f: F, init: H, g: G, i: &'a [u8]) -> (r: IResult<&'a [u8], HashMap<String, CborValue>>)
    requires forall|x: &'a [u8]| f.requires((x,)), init.requires(()), forall|a: HashMap<String, CborValue>, o: (String, CborValue)| g.requires((a, o)),
        reads_pair(f, d), pushes(init, g)
    ensures match r {
        Ok((t, v)) => min <= v.e@.len() <= max && pairs(i@, d, v.e@.len()) == Some((kvs(v.e@), t@)) && pmap(kvs(v.e@)) == vmap(v.e@),
        Err(_) => min > max || pairs(i@, d, max as nat) is None }
{
    let ghost (f0, i0, g0) = (f, init, g);
    let r = fold_many_m_n_call(min, max, f, init, g, i);
    let ghost r1 = r;
    proof {
        match r1 {
            Ok((rest, v)) => {
                let (ins, os, accs) = choose|ins: Seq<&'a [u8]>, os: Seq<(String, CborValue)>, accs: Seq<HashMap<String, CborValue>>| #[trigger] ran(f0, ins, os) && #[trigger] ran_folded(i0, g0, os, accs) && min <= os.len() <= max
                    && ins[0] == i && ins[os.len() as int] == rest && accs[os.len() as int] == v;
                lemma_pairs_ran(f0, ins, os, d, 0, os.len());
                lemma_folded(i0, g0, os, accs, os.len() as int);
                assert(os.skip(0) =~= os && os.take(os.len() as int) =~= os);
                lemma_vmap(os);
            }
            Err(_) => if min <= max {
                let (ins, os) = choose|ins: Seq<&'a [u8]>, os: Seq<(String, CborValue)>| #[trigger] ran(f0, ins, os) && os.len() < max && ins[0] == i && stopped(f0, ins[os.len() as int]);
                let x = ins[os.len() as int];
                lemma_pair_len(x@, d);
                assert(pair(x@, d) is None);
                lemma_pairs_ran(f0, ins, os, d, 0, max as nat);
            }
        }
    }
    r
}
pub broadcast proof fn lemma_take_all(a: Seq<CborValue>, c: Vec<CborValue>)
    requires c@ == a ensures #![trigger vws(a), vw(CborValue::Array(c))] vw(CborValue::Array(c)) == V::A(vws(a))
{ assert(vw(CborValue::Array(c)) == V::A(vws(a))) by { assert(vw(CborValue::Array(c))->A_0 =~= vws(a)); } }

//@take cb CborUnsignedInt::to_usize CborUnsignedInt::to_negative CborUnsignedInt::to_u8 get_cbor_type extract_cbor_type peek_cbor_type get_cbor_info extract_cbor_info extract_cbor_value extract_cbor_len extract_key_val_pair parser parse_cbor
//@fn CborUnsignedInt::to_usize C09
//@ret r
//@spec
    ensures r == (if uns(self) <= usize::MAX { Some(uns(self) as usize) } else { None })
//@fn CborUnsignedInt::to_negative C09
//@ret r
//@spec
    ensures match r { Some(v) => neg(v) == -1 - uns(self), None => uns(self) > i64::MAX }
//@entry
    broadcast use group_int_from;
    proof { ax_int_obeys(); }
//@fn CborUnsignedInt::to_u8 C09
//@ret r
//@spec
    ensures match r { Ok(v) => self == CborUnsignedInt::UInt8(v), Err(_) => !(self is UInt8) }
//@fn get_cbor_type C09
//@ret r
//@spec
    ensures r == e / 32
//@entry
    assert((e & 0b1110_0000) >> 5 == e / 32) by (bit_vector);
//@fn get_cbor_info C09
//@ret r
//@spec
    ensures r == e % 32
//@entry
    assert(e & 0b0001_1111 == e % 32) by (bit_vector);
//@fn extract_cbor_type C09
//@ret r
//@spec
    ensures match r { Ok((t, v)) => i@.len() > 0 && t@ == i@.skip(1) && v == i@[0] / 32, Err(_) => i@.len() == 0 }
//@fn peek_cbor_type C09
//@ret r
//@spec
    ensures match r { Ok((t, v)) => i@.len() > 0 && t == i && v == i@[0] / 32, Err(_) => i@.len() == 0 }
//@fn extract_cbor_info C09
//@ret r
//@spec
    ensures match r { Ok((t, v)) => i@.len() > 0 && t@ == i@.skip(1) && v == i@[0] % 32, Err(_) => i@.len() == 0 }
//@fn extract_cbor_value C09
//@ret r
//@spec
    ensures match r { Ok((t, v)) => arg(i@) == Some((v, t@)), Err(_) => arg(i@) is None }
//@fn extract_cbor_len C09
//@ret r
//@spec
    ensures match r { Ok(n) => uns(cbor_value) == n, Err(_) => uns(cbor_value) > usize::MAX }
//@fn extract_key_val_pair C09
//@ret r
//@spec
    ensures match r { Ok((t, (k, v))) => pair(i@, depth as int) == Some(((k@, vw(v)), t@)), Err(_) => pair(i@, depth as int) is None }
    decreases left(depth as int), 1nat
//@fn parser C09
//@ret r
//@spec
    ensures match r { Ok((t, v)) => item(i@, depth as int) == Some((vw(v), t@)), Err(_) => item(i@, depth as int) is None }
    decreases left(depth as int), 0nat
//@closure 0
-> (r: IResult<&[u8], CborValue>) requires depth <= 256 ensures match r { Ok((t, v)) => item(i@, depth + 1) == Some((vw(v), t@)), Err(_) => item(i@, depth + 1) is None }
//@closure 1
-> (r: IResult<&[u8], (String, CborValue)>) requires depth <= 256 ensures match r { Ok((t, (k, v))) => pair(i@, depth + 1) == Some(((k@, vw(v)), t@)), Err(_) => pair(i@, depth + 1) is None }
//@closure 2
-> (r: HashMap<String, CborValue>) ensures r.e@ == _p0.e@.push(_p1)
//@subst `count_call(` => `count_items(Ghost(depth + 1), `
//@subst `fold_many_m_n_call(` => `fold_pairs(Ghost(depth + 1), `
//@entry
    proof { ax_slice_len(i); ax_is_bytes(i@); }
    broadcast use lemma_counts_fit, lemma_take_all;
    let ghost i0 = i@;
//@try `extract_cbor_len`
//@try `extract_cbor_len`
proof { if t_ is Err { lemma_items_len(i@, depth + 1, uns(cbor_value)); } }
//@try `extract_cbor_len`
proof { if t_ is Err { lemma_pairs_len(i@, depth + 1, uns(cbor_value)); } }
//@fn parse_cbor C09
//@ret r
//@spec
    ensures match r { Ok(v) => decoded(i@) == Some(vw(v)), Err(_) => decoded(i@) is None }
//@closure 0
-> (r: IResult<&[u8], CborValue>) ensures match r { Ok((t, v)) => item(i@, 0) == Some((vw(v), t@)), Err(_) => item(i@, 0) is None }
