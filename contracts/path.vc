//@source cp packages/ic-http-certification/src/tree/certification_tree_path.rs
//@derive HttpCertificationPathType
//@derive HttpCertificationPath
//@take cp CertificationTreePathSegment InnerTreePath HttpCertificationPathType HttpCertificationPath HttpCertificationPath::to_tree_path HttpCertificationPath::to_expr_path HttpCertificationPath::path_to_segments HttpCertificationPath::path_to_string_segments
//@text
pub open spec fn terminator(p: HttpCertificationPath) -> Seq<u8> { match p.0 { HttpCertificationPathType::Exact(_) => s_exact(), HttpCertificationPathType::Wildcard(_) => s_wild() } }
pub open spec fn path_text(p: HttpCertificationPath) -> Seq<char> { match p.0 { HttpCertificationPathType::Exact(t) => t@, HttpCertificationPathType::Wildcard(t) => t@ } }
impl<T: ?Sized + ToOwned> AsRefSpecImpl<T> for Cow<'_, T> { uninterp spec fn as_ref_spec(&self) -> &T; }
pub broadcast axiom fn ax_cow_str(c: Cow<'_, str>) ensures (#[trigger] <Cow<'_, str> as AsRefSpec<str>>::as_ref_spec(&c))@ == c@;
//@fn HttpCertificationPath::to_tree_path C18 C17
//@ret r
//@spec
    ensures pv(r@) == url_segs(path_text(*self)).push(terminator(*self))
//@entry
    broadcast use {group_core, ax_cow_str};
//@fn HttpCertificationPath::to_expr_path C18
//@ret r
//@spec
    ensures seq_bytes(r@) == with_prefix(url_segs(path_text(*self))).push(terminator(*self))
//@entry
    broadcast use {group_core, ax_cow_str};
    proof { lemma_ends(); }
//@fn HttpCertificationPath::path_to_segments C18 C17
//@ret r
//@spec
    ensures pv(r@) == url_segs(path@).push(terminator@)
//@subst `.map(str::as_bytes)` => `.map(|s| -> (b: &[u8]) ensures b@ == enc(s@) { s.as_bytes() })`
//@subst `.map(Vec::from)` => `.map(|b| -> (v: Vec<u8>) ensures v@ == b@ { Vec::from(b) })`
//@closure 0
 -> (b: bool) ensures b == (e@.len() > 0)
//@entry
    broadcast use {group_core, group_str, group_seg, ax_vec_from_slice, ax_vec_from_str};
    proof { ax_obeys(); lemma_segments(); lemma_ends(); lemma_plist(); lemma_url_parts(path@); }
//@tail
    assert(pv(r@) =~= url_segs(path@).push(terminator@));
//@fn HttpCertificationPath::path_to_string_segments C18
//@ret r
//@spec
    ensures seq_bytes(r@) == with_prefix(url_segs(path@)).push(enc(terminator@))
//@subst `.map(String::from)` => `.map(|s| -> (v: String) ensures v@ == s@ { String::from(s) })`
//@closure 0
 -> (b: bool) ensures b == (e@.len() > 0)
//@entry
    broadcast use {group_core, group_str, group_seg, ax_string_from_str};
    proof { ax_obeys(); lemma_segments(); lemma_ends(); lemma_plist(); lemma_url_parts(path@); }
//@tail
    assert(seq_bytes(r@) =~= with_prefix(url_segs(path@)).push(enc(terminator@)));
//@text
// ---------------------------------------------------------------- the wildcards to be shown absent are exactly the more specific ones
/// The wildcards that can apply to q: its prefixes, and its proper prefixes as directories.
pub open spec fn cand(w: Seq<Seq<u8>>, q: Seq<Seq<u8>>) -> bool {
    is_pre(w, q) || (0 < w.len() <= q.len() && w.last() == s_dir() && is_pre(w.drop_last(), q))
}
pub proof fn lemma_cand_rank(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, q: Seq<Seq<u8>>)
    requires cand(a, q), cand(b, q), rank(a) == rank(b) ensures a == b
{
    assert(a.len() == b.len());
    let n = a.len() as int;
    if is_pre(a, q) { assert(a.drop_last() =~= q.take(n - 1) || n == 0) by { if n > 0 { assert(q.take(n).drop_last() =~= q.take(n - 1)); } } }
    if is_pre(b, q) { assert(b.drop_last() =~= q.take(n - 1) || n == 0) by { if n > 0 { assert(q.take(n).drop_last() =~= q.take(n - 1)); } } }
    if n > 0 {
        assert(a.drop_last() =~= q.take(n - 1)); assert(b.drop_last() =~= q.take(n - 1));
        if a.last() == s_dir() { assert(b.last() == s_dir()); assert(a =~= a.drop_last().push(a.last()) && b =~= b.drop_last().push(b.last())); }
        else { assert(is_pre(a, q) && is_pre(b, q)); }
    } else { assert(a =~= b); }
}
pub proof fn lemma_cand_next(p: Seq<Seq<u8>>, q: Seq<Seq<u8>>)
    requires cand(p, q), p.len() > 0
    ensures cand(next_wild(p), q), rank(next_wild(p)) < rank(p), forall|w: Seq<Seq<u8>>| #[trigger] cand(w, q) && rank(w) < rank(p) ==> rank(w) <= rank(next_wild(p))
{
    let n = p.len() as int;
    let d = p.drop_last();
    assert(d =~= q.take(n - 1)) by { if is_pre(p, q) { assert(q.take(n).drop_last() =~= q.take(n - 1)); } }
    assert(is_pre(d, q));
    assert(d.push(s_dir()).drop_last() =~= d);
    assert forall|w: Seq<Seq<u8>>| #[trigger] cand(w, q) && rank(w) < rank(p) implies rank(w) <= rank(next_wild(p)) by {
        if p.last() == s_dir() && rank(w) > rank(d) {
            assert(w.len() == n - 1 && is_pre(w, q));
            assert(w =~= d);
        }
    }
}
pub proof fn lemma_chain_set(p: Seq<Seq<u8>>, r: Seq<Seq<u8>>, q: Seq<Seq<u8>>)
    requires cand(p, q), cand(r, q), rank(p) >= rank(r)
    ensures forall|w: Seq<Seq<u8>>| #[trigger] chain(p, r).contains(w) <==> cand(w, q) && rank(r) < rank(w) <= rank(p)
    decreases left(p, r)
{
    reveal_with_fuel(chain, 2);
    if rank(p) == rank(r) { lemma_cand_rank(p, r, q); assert(stop(p, r)); assert(chain(p, r) =~= seq![]); }
    else {
        assert(!stop(p, r)) by { if stop(p, r) { assert(p.len() == r.len()); } }
        assert(p.len() > 0);
        lemma_cand_next(p, q);
        let m = next_wild(p);
        assert(left(m, r) < left(p, r));
        lemma_chain_set(m, r, q);
        assert forall|w: Seq<Seq<u8>>| #[trigger] chain(p, r).contains(w) <==> cand(w, q) && rank(r) < rank(w) <= rank(p) by {
            let c = seq![p] + chain(m, r);
            if c.contains(w) { let i = choose|i: int| 0 <= i < c.len() && c[i] == w; if i == 0 { assert(w == p); } else { assert(chain(m, r)[i - 1] == w); assert(chain(m, r).contains(w)); } }
            if cand(w, q) && rank(r) < rank(w) && rank(w) <= rank(p) {
                if rank(w) == rank(p) { lemma_cand_rank(w, p, q); assert(c[0] == w); }
                else { assert(chain(m, r).contains(w)); let i = choose|i: int| 0 <= i < chain(m, r).len() && chain(m, r)[i] == w; assert(c[i + 1] == w); }
            }
        }
    }
}
/// For a responding wildcard that applies to the request, the wildcards to be shown absent are exactly the more specific ones that apply.
pub proof fn lemma_more_specific_set(q: Seq<Seq<u8>>, r: Seq<Seq<u8>>)
    requires cand(r, q)
    ensures forall|w: Seq<Seq<u8>>| #![trigger chain(q, r).contains(w)] #![trigger cand(w, q)] chain(q, r).contains(w) <==> cand(w, q) && rank(w) > rank(r),
        more_specific(q, r) == add_wild(chain(q, r)),
{
    assert(q.take(q.len() as int) =~= q);
    assert(cand(q, q));
    assert forall|w: Seq<Seq<u8>>| cand(w, q) implies #[trigger] rank(w) <= rank(q) by { if w.len() == q.len() && is_pre(w, q) { assert(w =~= q); } }
    assert(rank(r) <= rank(q));
    lemma_chain_set(q, r, q);
    assert(matches_path(r, q));
}
/// A responding wildcard that is the request's path with a trailing slash applies too; only the request's own path is more specific then.
pub proof fn lemma_more_specific_dir(q: Seq<Seq<u8>>)
    requires q.len() > 0, q.last() != s_dir()
    ensures more_specific(q, q.push(s_dir())) == seq![q.push(s_wild())]
{
    let r = q.push(s_dir());
    assert(r.drop_last() =~= q); assert(q.take(q.len() as int) =~= q);
    assert(matches_path(r, q));
    reveal_with_fuel(chain, 3);
    lemma_on_way(q, r);
    assert(stop(next_wild(q), r));
    assert(chain(q, r) =~= seq![q]);
    assert(add_wild(seq![q]) =~= seq![q.push(s_wild())]);
}
/// A request's segments hold an empty one only at the end, and a path's text fixes them; so the certification, expression
/// and request forms of the same path agree and `bare` gives the segments back.
pub proof fn lemma_bare(q: Seq<Seq<u8>>, term: Seq<u8>)
    requires term == s_exact() || term == s_wild(), q.len() > 1 ==> q[0] != s_dir()
    ensures bare(with_prefix(q).push(term)) == q
{
    lemma_segments();
    let a = with_prefix(q).push(term);
    assert(a.skip(1) =~= q.push(term));
    assert(q.push(term).drop_last() =~= q);
}
