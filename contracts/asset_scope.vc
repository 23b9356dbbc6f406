//@text
// ---------------------------------------------------------------- the fallback that is served encloses the path
pub proof fn lemma_split_push(a: Seq<char>, b: Seq<char>, c: char) requires forall|i: int| 0 <= i < b.len() ==> b[i] != c ensures split_at(a + seq![c] + b, c) =~= split_at(a, c).push(b) decreases b.len()
{
    broadcast use lemma_split_first;
    let s = a + seq![c] + b;
    if b.len() == 0 { assert(s.drop_last() =~= a); assert(b =~= Seq::empty()); }
    else { lemma_split_push(a, b.drop_last(), c); assert(s.drop_last() =~= a + seq![c] + b.drop_last()); assert(b.drop_last().push(b.last()) =~= b); let t = split_at(s.drop_last(), c); assert(t.drop_last() =~= split_at(a, c)); assert(t.last() == b.drop_last()); }
}
pub proof fn lemma_parts_plain(s: Seq<char>, c: char) ensures forall|i: int, j: int| 0 <= i < split_at(s, c).len() && 0 <= j < split_at(s, c)[i].len() ==> #[trigger] split_at(s, c)[i][j] != c decreases s.len()
{
    broadcast use lemma_split_first;
    if s.len() > 0 { lemma_parts_plain(s.drop_last(), c); let t = split_at(s.drop_last(), c); let w = split_at(s, c);
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w[i].len() implies #[trigger] w[i][j] != c by { if i < t.len() - 1 { assert(w[i] == t[i]); assert(t[i][j] != c); } else if s.last() != c { if j < t.last().len() { assert(t[t.len() - 1][j] != c); } } else if i == t.len() - 1 { assert(t[i][j] != c); } } }
}
pub proof fn lemma_split_joined(p: Seq<Seq<char>>, c: char) requires p.len() > 0, forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].len() ==> #[trigger] p[i][j] != c ensures split_at(joined(p, seq![c]), c) == p decreases p.len()
{
    if p.len() == 1 { lemma_no_split(p[0], c); assert(p =~= seq![p[0]]); }
    else {
        assert forall|i: int, j: int| 0 <= i < p.drop_last().len() && 0 <= j < p.drop_last()[i].len() implies #[trigger] p.drop_last()[i][j] != c by { assert(p[i][j] != c); }
        lemma_split_joined(p.drop_last(), c);
        assert forall|i: int| 0 <= i < p.last().len() implies p.last()[i] != c by { assert(p[p.len() - 1][i] != c); }
        lemma_split_push(joined(p.drop_last(), seq![c]), p.last(), c);
        assert(split_at(joined(p, seq![c]), c) =~= p);
    }
}
pub proof fn lemma_keep_take<T>(s: Seq<T>, f: spec_fn(T) -> bool, n: int) requires 0 <= n <= s.len() ensures is_pre(keep(s.take(n), f), keep(s, f)) decreases s.len()
{
    if n == s.len() { assert(s.take(n) =~= s); assert(keep(s, f).take(keep(s, f).len() as int) =~= keep(s, f)); }
    else { lemma_keep_take(s.drop_last(), f, n); assert(s.drop_last().take(n) =~= s.take(n)); let a = keep(s.take(n), f); let b = keep(s.drop_last(), f); assert(keep(s, f).take(a.len() as int) =~= b.take(a.len() as int)); }
}
/// The segments of a URL, without the mark for its trailing slash.
pub open spec fn plain_segs(p: Seq<char>) -> Path { encs(keep(split_at(p, '/'), nonempty())) }
pub proof fn lemma_pre_encs(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires is_pre(a, b) ensures is_pre(encs(a), encs(b)) { assert(encs(b).take(a.len() as int) =~= encs(a)) by { assert(b.take(a.len() as int) == a); assert forall|i: int| 0 <= i < a.len() implies encs(b)[i] == encs(a)[i] by { assert(b.take(a.len() as int)[i] == b[i]); } } }
pub proof fn lemma_scope(u: Seq<char>, n: int)
    requires 1 <= n < split_at(u, '/').len()
    ensures ({ let t = joined(split_at(u, '/').drop_last().take(n), "/"@); cand(url_segs(t), url_segs(u)) && cand(url_segs(t.push('/')), url_segs(u)) })
{
    broadcast use lemma_split_first;
    reveal_strlit("/"); assert("/"@ =~= seq!['/']);
    let all = split_at(u, '/'); let segs = all.drop_last(); let p = segs.take(n); let t = joined(p, "/"@); let d = t.push('/');
    let f = nonempty();
    assert(u.len() > 0);
    lemma_parts_plain(u, '/');
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].len() implies #[trigger] p[i][j] != '/' by { assert(p[i] == all[i]); assert(all[i][j] != '/'); }
    lemma_split_joined(p, '/');
    assert(d.drop_last() =~= t);
    assert(split_at(d, '/') =~= p.push(Seq::empty()));
    assert(p.push(Seq::<char>::empty()).drop_last() =~= p);
    assert(keep(split_at(d, '/'), f) == keep(p, f));
    lemma_keep_take(segs, f, n);
    let kp = encs(keep(p, f)); let ks = encs(keep(segs, f));
    lemma_pre_encs(keep(p, f), keep(segs, f));
    let q = url_segs(u);
    if u.last() == '/' {
        assert(all.last().len() == 0);
        assert(keep(all, f) == keep(segs, f));
        assert(q == ks.push(s_dir()));
    } else {
        assert(all.last().len() > 0);
        assert(keep(all, f) == keep(segs, f).push(all.last()));
        assert(q =~= ks.push(enc(all.last())));
    }
    assert(is_pre(kp, q)) by { assert(q.take(kp.len() as int) =~= ks.take(kp.len() as int)); }
    assert(kp.push(s_dir()).drop_last() =~= kp);
    assert(kp.len() + 1 <= q.len());
}
pub proof fn lemma_fpick(m: Resps, z: Seq<char>, encs: Seq<Seq<char>>, i: int) ensures fpick(m, z, encs, i) is Some ==> m.dom().contains(fpick(m, z, encs, i)->0) && (fpick(m, z, encs, i)->0).0 == z decreases encs.len() - i
{ if 0 <= i < encs.len() { lemma_fpick(m, z, encs, i + 1); } }
pub proof fn lemma_closest(f: Resps, u: Seq<char>, encs: Seq<Seq<char>>, n: int)
    requires n < split_at(u, '/').len()
    ensures closest(f, split_at(u, '/').drop_last(), encs, n) is Some ==> ({ let k = closest(f, split_at(u, '/').drop_last(), encs, n)->0; f.dom().contains(k) && cand(url_segs(k.0), url_segs(u)) })
    decreases n
{
    if n > 0 {
        let t = joined(split_at(u, '/').drop_last().take(n), "/"@);
        lemma_scope(u, n); lemma_closest(f, u, encs, n - 1);
        lemma_fpick(f, t, encs, 0); lemma_fpick(f, t.push('/'), encs, 0);
    }
}
/// What is routed to is stored, for exactly the path or for a scope around it.
pub proof fn lemma_route(r: AssetRouter, u: Seq<char>, encs: Seq<Seq<char>>, rng: Option<usize>)
    requires inv(r)
    ensures route(r, u, encs, rng) is Some ==> ({ let s = route(r, u, encs, rng)->0; alls(r).dom().contains(s) && if s.0 { cand(url_segs(s.1.0), url_segs(u)) && s.1.2 is None && !occupied(r.responses@, u) } else { s.1.0 == u && (rng is Some && s.1.2 is Some ==> s.1.2 == rng) && (s.1.2 is None ==> !big(alls(r)[s])) } })
{
    broadcast use lemma_split_first;
    let m = r.responses@; let f = r.fallback_responses@;
    lemma_pick(m, u, encs, rng, 0); lemma_pick1(m, u, None, rng);
    lemma_fpick(f, u, encs, 0);
    lemma_closest(f, u, encs, split_at(u, '/').len() - 1);
    assert(url_segs(u).take(url_segs(u).len() as int) =~= url_segs(u));
    if route(r, u, encs, rng) is Some { let s = route(r, u, encs, rng)->0; if s.0 { assert(f.dom().contains(s.1)); assert(fall_ok(s.1, f[s.1])); } }
}
pub proof fn lemma_pick1(m: Resps, u: Seq<char>, e: Option<Seq<char>>, rng: Option<usize>) requires closed(m)
    ensures pick1(m, u, e, rng) is Some ==> ({ let k = pick1(m, u, e, rng)->0; m.dom().contains(k) && k.0 == u && k.1 == e && (rng is Some && k.2 is Some ==> k.2 == rng) && (rng is None && k.2 is Some ==> k.2 == Some(0usize)) && (k.2 is None ==> !big(m[k])) })
{ if m.dom().contains((u, e, None)) && big(m[(u, e, None)]) { lemma_first_chunk(m, u, e); } }
pub proof fn lemma_pick(m: Resps, u: Seq<char>, encs: Seq<Seq<char>>, rng: Option<usize>, i: int) requires closed(m)
    ensures pick(m, u, encs, rng, i) is Some ==> exists|j: int| 0 <= j < encs.len() && pick(m, u, encs, rng, i) == #[trigger] pick1(m, u, Some(encs[j]), rng), pick(m, u, encs, rng, i) is Some ==> ({ let k = pick(m, u, encs, rng, i)->0; m.dom().contains(k) && k.0 == u && (rng is Some && k.2 is Some ==> k.2 == rng) && (rng is None && k.2 is Some ==> k.2 == Some(0usize)) && (k.2 is None ==> !big(m[k])) })
    decreases encs.len() - i
{ if 0 <= i < encs.len() { lemma_pick1(m, u, Some(encs[i]), rng); lemma_pick(m, u, encs, rng, i + 1); if pick1(m, u, Some(encs[i]), rng) is Some { assert(pick(m, u, encs, rng, i) == pick1(m, u, Some(encs[i]), rng)); } } }
