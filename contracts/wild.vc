//@source wp packages/ic-http-certification/src/utils/wildcard_paths.rs
//@text
// ---------------------------------------------------------------- paths as sequences of byte strings
pub open spec fn pv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
pub open spec fn plist(s: Seq<Vec<Vec<u8>>>) -> Seq<Seq<Seq<u8>>> { s.map_values(|v: Vec<Vec<u8>>| pv(v@)) }
pub open spec fn is_pre<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub open spec fn is_suf<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.skip(b.len() - a.len()) == a }
// assumed: starts_with and ends_with of slices of byte strings compare the byte strings
pub trait SegSlice<T> {
    fn has_prefix(&self, o: &[T]) -> bool;
    fn has_suffix(&self, o: &[T]) -> bool;
}
impl SegSlice<Vec<u8>> for [Vec<u8>] {
    #[verifier::external_body]
    fn has_prefix(&self, o: &[Vec<u8>]) -> (r: bool) ensures r == is_pre(pv(o@), pv(self@)) { unimplemented!() }
    #[verifier::external_body]
    fn has_suffix(&self, o: &[Vec<u8>]) -> (r: bool) ensures r == is_suf(pv(o@), pv(self@)) { unimplemented!() }
}
pub axiom fn ax_seg_eq_obeys() ensures <&Vec<u8> as PartialEqSpec<&[u8]>>::obeys_eq_spec(), <Option<&Vec<u8>> as PartialEqSpec<Option<&Vec<u8>>>>::obeys_eq_spec();
pub broadcast axiom fn ax_vec_slice_eq(a: &Vec<u8>, b: &[u8]) ensures #[trigger] <&Vec<u8> as PartialEqSpec<&[u8]>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_opt_vec_eq(a: Option<&Vec<u8>>, b: Option<&Vec<u8>>) ensures #[trigger] <Option<&Vec<u8>> as PartialEqSpec<Option<&Vec<u8>>>>::eq_spec(&a, &b)
    == (match (a, b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false });
pub broadcast axiom fn ax_copies_vec(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>) ensures #[trigger] copies::<Vec<u8>>(a, b) ==> pv(a) == pv(b);
pub broadcast axiom fn ax_copies_u8(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] copies::<u8>(a, b) ==> a == b;
pub broadcast axiom fn ax_cloned_vec(a: Vec<u8>, b: Vec<u8>) ensures #[trigger] vstd::pervasive::cloned::<Vec<u8>>(a, b) ==> a@ == b@;
pub broadcast group group_seg { ax_cloned_vec, ax_copies_vec, ax_copies_u8, ax_vec_slice_eq, ax_opt_vec_eq }

pub open spec fn s_prefix() -> Seq<u8> { seq![104u8, 116u8, 116u8, 112u8, 95u8, 101u8, 120u8, 112u8, 114u8] } // "http_expr"
pub open spec fn s_exact() -> Seq<u8> { seq![60u8, 36u8, 62u8] } // "<$>"
pub open spec fn s_wild() -> Seq<u8> { seq![60u8, 42u8, 62u8] } // "<*>"
pub open spec fn s_dir() -> Seq<u8> { Seq::<u8>::empty() } // ""

/// A wildcard matches a request when its segments are a prefix of the request's; a trailing slash of the wildcard may be missing.
pub open spec fn matches_path(w: Seq<Seq<u8>>, q: Seq<Seq<u8>>) -> bool {
    is_pre(w, q) || (w.len() > 0 && w.last() == s_dir() && is_pre(w.drop_last(), q))
}
/// A path without its leading prefix, terminator, and (unless it is the root) leading slash.
pub open spec fn cut1(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if p.len() > 0 && p[0] == s_prefix() { p.skip(1) } else { p } }
pub open spec fn cut2(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if p.len() > 0 && (p.last() == s_exact() || p.last() == s_wild()) { p.drop_last() } else { p } }
pub open spec fn cut3(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if p.len() > 1 && p[0] == s_dir() { p.skip(1) } else { p } }
pub open spec fn bare(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { cut3(cut2(cut1(p))) }

/// The wildcard prefixes of a request, most specific first: each level with, then (from the second on) as a directory.
pub open spec fn stop(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>) -> bool { p.len() <= r.len() && (p.len() == 0 <==> r.len() == 0) && (p.len() > 0 ==> p.last() == r.last()) }
pub open spec fn next_wild(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    if p.len() > 0 && p.last() == s_dir() { p.drop_last() } else if p.len() > 0 { p.drop_last().push(s_dir()) } else { seq![s_dir()] }
}
pub open spec fn rank(w: Seq<Seq<u8>>) -> int { 2 * w.len() - (if w.len() > 0 && w.last() == s_dir() { 1int } else { 0 }) }
pub open spec fn left(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>) -> nat { if stop(p, r) { 0 } else { (rank(p) + 1) as nat } }
/// The recursion below ends at r when r matches p (or p is one step before r).
pub open spec fn on_way(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>) -> bool { matches_path(r, p) || stop(p, r) }
pub proof fn lemma_on_way(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>)
    requires on_way(p, r), !stop(p, r) ensures on_way(next_wild(p), r), left(next_wild(p), r) < left(p, r)
{
    let n = next_wild(p);
    if is_pre(r, p) {
        if p.len() == r.len() { assert(p =~= r); assert(false); }
        assert(p.drop_last().take(r.len() as int) =~= p.take(r.len() as int));
        assert(n.take(r.len() as int) =~= p.take(r.len() as int));
        assert(is_pre(r, n));
    } else {
        let r1 = r.drop_last();
        if p.len() > r.len() {
            assert(n.take(r1.len() as int) =~= p.take(r1.len() as int));
            assert(is_pre(r1, n));
        } else if p.len() == r.len() {
            assert(n =~= r) by { assert(p.take(r1.len() as int) =~= p.drop_last()); }
        } else {
            assert(p =~= r1) by { assert(p.take(r1.len() as int) =~= p); }
            if p.len() > 0 { assert(p.last() != s_dir()); assert(n.len() == p.len() && n.last() == s_dir()); }
        }
    }
}
pub open spec fn chain(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>) -> Seq<Seq<Seq<u8>>>
    decreases left(p, r)
{
    if stop(p, r) || left(next_wild(p), r) >= left(p, r) { seq![] } else { seq![p] + chain(next_wild(p), r) }
}
pub open spec fn add_wild(s: Seq<Seq<Seq<u8>>>) -> Seq<Seq<Seq<u8>>> { s.map_values(|p: Seq<Seq<u8>>| p.push(s_wild())) }
/// The wildcard paths to be shown absent, for a request and the responding wildcard.
pub open spec fn more_specific(q: Seq<Seq<u8>>, r: Seq<Seq<u8>>) -> Seq<Seq<Seq<u8>>> {
    add_wild(chain(q, if matches_path(r, q) { r } else { Seq::<Seq<u8>>::empty() }))
}
//@gsubst `.starts_with(` => `.has_prefix(`
//@gsubst `.ends_with(` => `.has_suffix(`
pub proof fn lemma_plist()
    ensures
        forall|v: Seq<Vec<u8>>, x: Vec<u8>| #![trigger pv(v.push(x))] pv(v.push(x)) == pv(v).push(x@),
        forall|v: Seq<Vec<u8>>| #![trigger pv(v.drop_last())] v.len() > 0 ==> pv(v.drop_last()) == pv(v).drop_last(),
        forall|v: Seq<Vec<Vec<u8>>>, x: Vec<Vec<u8>>| #![trigger plist(v.push(x))] plist(v.push(x)) == plist(v).push(pv(x@)),
        forall|v: Seq<Vec<u8>>, j: int, k: int| #![trigger pv(v.subrange(j, k))] 0 <= j <= k <= v.len() ==> pv(v.subrange(j, k)) == pv(v).subrange(j, k),
        forall|v: Seq<Vec<u8>>, k: int| #![trigger pv(v.remove(k))] 0 <= k < v.len() ==> pv(v.remove(k)) == pv(v).remove(k),
        forall|t: Seq<Vec<u8>>, s: Seq<Seq<u8>>| #![trigger is_suf(pv(t), s)] t.len() == 1 ==> is_suf(pv(t), s) == (s.len() > 0 && s.last() == t[0]@),
        forall|q: Seq<Seq<u8>>| #![trigger is_pre(Seq::<Seq<u8>>::empty(), q)] is_pre(Seq::<Seq<u8>>::empty(), q),
        forall|v: Seq<Vec<u8>>, x: Vec<u8>| #![trigger v.push(x)] v.push(x).drop_last() == v,
        pv(Seq::<Vec<u8>>::empty()) == Seq::<Seq<u8>>::empty(), plist(Seq::<Vec<Vec<u8>>>::empty()) == Seq::<Seq<Seq<u8>>>::empty(),
{
    assert forall|v: Seq<Vec<u8>>, x: Vec<u8>| #![trigger pv(v.push(x))] pv(v.push(x)) == pv(v).push(x@) by { assert(pv(v.push(x)) =~= pv(v).push(x@)); }
    assert forall|v: Seq<Vec<u8>>| #![trigger pv(v.drop_last())] v.len() > 0 implies pv(v.drop_last()) == pv(v).drop_last() by { assert(pv(v.drop_last()) =~= pv(v).drop_last()); }
    assert forall|v: Seq<Vec<Vec<u8>>>, x: Vec<Vec<u8>>| #![trigger plist(v.push(x))] plist(v.push(x)) == plist(v).push(pv(x@)) by { assert(plist(v.push(x)) =~= plist(v).push(pv(x@))); }
    assert forall|v: Seq<Vec<u8>>, j: int, k: int| #![trigger pv(v.subrange(j, k))] 0 <= j <= k <= v.len() implies pv(v.subrange(j, k)) == pv(v).subrange(j, k) by { assert(pv(v.subrange(j, k)) =~= pv(v).subrange(j, k)); }
    assert forall|v: Seq<Vec<u8>>, k: int| #![trigger pv(v.remove(k))] 0 <= k < v.len() implies pv(v.remove(k)) == pv(v).remove(k) by { assert(pv(v.remove(k)) =~= pv(v).remove(k)); }
    assert forall|t: Seq<Vec<u8>>, s: Seq<Seq<u8>>| #![trigger is_suf(pv(t), s)] t.len() == 1 implies is_suf(pv(t), s) == (s.len() > 0 && s.last() == t[0]@) by {
        if s.len() > 0 { assert(s.skip(s.len() - 1) =~= seq![s.last()]); assert(pv(t) =~= seq![t[0]@]); assert(seq![s.last()][0] == s.last() && seq![t[0]@][0] == t[0]@); }
    }
    assert forall|q: Seq<Seq<u8>>| #![trigger is_pre(Seq::<Seq<u8>>::empty(), q)] is_pre(Seq::<Seq<u8>>::empty(), q) by { assert(q.take(0) =~= Seq::<Seq<u8>>::empty()); }
    assert forall|v: Seq<Vec<u8>>, x: Vec<u8>| #![trigger v.push(x)] v.push(x).drop_last() == v by { assert(v.push(x).drop_last() =~= v); }
    assert(pv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty());
    assert(plist(Seq::<Vec<Vec<u8>>>::empty()) =~= Seq::<Seq<Seq<u8>>>::empty());
}
pub proof fn lemma_chain_step(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>, done: Seq<Seq<Seq<u8>>>)
    requires on_way(p, r), !stop(p, r)
    ensures on_way(next_wild(p), r), left(next_wild(p), r) < left(p, r),
        done + add_wild(chain(p, r)) == done.push(p.push(s_wild())) + add_wild(chain(next_wild(p), r))
{
    lemma_on_way(p, r);
    assert(done + add_wild(seq![p] + chain(next_wild(p), r)) =~= done.push(p.push(s_wild())) + add_wild(chain(next_wild(p), r)));
}
pub proof fn lemma_segments()
    ensures "http_expr".spec_bytes() == s_prefix(), "<$>".spec_bytes() == s_exact(), "<*>".spec_bytes() == s_wild(), "".spec_bytes() == s_dir(),
        s_prefix() != s_exact(), s_prefix() != s_wild(), s_prefix() != s_dir(), s_exact() != s_wild(), s_exact() != s_dir(), s_wild() != s_dir()
{
    reveal_strlit("http_expr"); reveal_strlit("<$>"); reveal_strlit("<*>"); reveal_strlit("");
    vstd::utf8::is_ascii_chars_encode_utf8("http_expr"@); vstd::utf8::is_ascii_chars_encode_utf8("<$>"@);
    vstd::utf8::is_ascii_chars_encode_utf8("<*>"@); vstd::utf8::is_ascii_chars_encode_utf8(""@);
    assert("http_expr"@ =~= seq!['h','t','t','p','_','e','x','p','r']); assert("<$>"@ =~= seq!['<','$','>']); assert("<*>"@ =~= seq!['<','*','>']); assert(""@ =~= seq![]);
    assert("http_expr".spec_bytes() =~= s_prefix()); assert("<$>".spec_bytes() =~= s_exact()); assert("<*>".spec_bytes() =~= s_wild()); assert("".spec_bytes() =~= s_dir());
    assert(s_exact()[1] == 36 && s_wild()[1] == 42);
}
//@take wp PATH_PREFIX PATH_PREFIX_BYTES PATH_DIR_SEPARATOR PATH_DIR_SEPARATOR_BYTES EXACT_PATH_TERMINATOR EXACT_PATH_TERMINATOR_BYTES WILDCARD_PATH_TERMINATOR WILDCARD_PATH_TERMINATOR_BYTES
//@take wp is_wildcard_path_valid_for_request_path strip_path_affixes more_specific_wildcards_for
//@fn is_wildcard_path_valid_for_request_path C18
//@ret r
//@spec
    ensures r == matches_path(pv(wildcard_path@), pv(request_path@))
//@entry
    broadcast use {group_seg, group_core};
    proof { lemma_plist(); }
//@fn strip_path_affixes C18 C17
//@spec
    ensures pv(final(path)@) == bare(pv(old(path)@))
//@entry
    broadcast use {group_seg, group_core};
    proof { ax_seg_eq_obeys(); lemma_plist(); lemma_segments(); }
//@fn more_specific_wildcards_for C18 C17
//@ret r
//@spec
    ensures plist(r@) == more_specific(bare(pv(requested_path@)), bare(pv(responding_wildcard_path@)))
//@entry
    broadcast use {group_seg, group_core};
    proof { ax_seg_eq_obeys(); lemma_plist(); }
    let ghost q0 = bare(pv(requested_path@));
    let ghost r0 = bare(pv(responding_wildcard_path@));
//@loop 0
    invariant on_way(pv(potential_path@), pv(responding_wildcard_path@)),
        plist(valid_wildcards@) + add_wild(chain(pv(potential_path@), pv(responding_wildcard_path@))) == more_specific(q0, r0)
    decreases left(pv(potential_path@), pv(responding_wildcard_path@))
//@loopentry 0
    broadcast use {group_seg, group_core};
    let ghost p = pv(potential_path@);
    let ghost done = plist(valid_wildcards@);
    proof { ax_seg_eq_obeys(); lemma_plist(); lemma_segments(); lemma_chain_step(pv(potential_path@), pv(responding_wildcard_path@), plist(valid_wildcards@)); }
//@loopend 0
    assert(pv(valid_wildcards@.last()@) =~= p.push(s_wild()));
    assert(plist(valid_wildcards@) =~= done.push(p.push(s_wild())));
    assert(pv(potential_path@) =~= next_wild(p));
//@fn PATH_PREFIX_BYTES C18
//@spec
    ensures PATH_PREFIX_BYTES@ == s_prefix()
//@entry
    proof { lemma_segments(); }
//@fn PATH_DIR_SEPARATOR_BYTES C18
//@spec
    ensures PATH_DIR_SEPARATOR_BYTES@ == s_dir()
//@entry
    proof { lemma_segments(); }
//@fn EXACT_PATH_TERMINATOR_BYTES C18
//@spec
    ensures EXACT_PATH_TERMINATOR_BYTES@ == s_exact()
//@entry
    proof { lemma_segments(); }
//@fn WILDCARD_PATH_TERMINATOR_BYTES C18
//@spec
    ensures WILDCARD_PATH_TERMINATOR_BYTES@ == s_wild()
//@entry
    proof { lemma_segments(); }
