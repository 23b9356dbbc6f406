//@text
// ---------------------------------------------------------------- prunings of a tree
/// w is t with some subtrees replaced by pruned nodes that carry their digests.
pub open spec fn prunes(w: ST, t: ST) -> bool decreases t {
    ||| w == ST::Pruned(dg(t))
    ||| match (w, t) {
        (ST::Fork(a, b), ST::Fork(c, d)) => prunes(*a, *c) && prunes(*b, *d),
        (ST::Labeled(l, a), ST::Labeled(m, c)) => l == m && prunes(*a, *c),
        (ST::Empty, ST::Empty) => true,
        (ST::Leaf(x), ST::Leaf(y)) => x == y,
        (ST::Pruned(x), ST::Pruned(y)) => x == y,
        _ => false,
    }
}
pub proof fn lemma_prunes_refl(t: ST) ensures prunes(t, t) decreases t
{ match t { ST::Fork(a, b) => { lemma_prunes_refl(*a); lemma_prunes_refl(*b); } ST::Labeled(_, c) => { lemma_prunes_refl(*c); } _ => {} } }
pub proof fn lemma_prunes_dg(w: ST, t: ST) requires prunes(w, t) ensures dg(w) == dg(t) decreases t
{
    match (w, t) {
        (ST::Fork(a, b), ST::Fork(c, d)) => { if w != ST::Pruned(dg(t)) { lemma_prunes_dg(*a, *c); lemma_prunes_dg(*b, *d); } }
        (ST::Labeled(_, a), ST::Labeled(_, c)) => { if w != ST::Pruned(dg(t)) { lemma_prunes_dg(*a, *c); } }
        _ => {}
    }
}
/// What a pruning tells about a label is what the full tree tells, or nothing.
pub open spec fn weaker(a: Rel, b: Rel) -> bool {
    match (a, b) {
        (Rel::Unknown, _) => true,
        (Rel::Found(s), Rel::Found(t)) => prunes(s, t),
        _ => a == b,
    }
}
pub proof fn lemma_rel_one(l: Seq<u8>, t: ST)
    ensures match t {
        ST::Pruned(_) => rel(l, seq![t]) == Rel::Unknown,
        ST::Leaf(_) => rel(l, seq![t]) == Rel::Absent,
        ST::Labeled(m, c) => rel(l, seq![t]) == (if l == m { Rel::Found(*c) } else if lt(l, m) { Rel::Less } else { Rel::Greater }),
        _ => true,
    }
{
    broadcast use group_lex;
    let f = seq![t];
    if t is Labeled {
        assert(f[0] == t);
        if lab(t) == l { assert(has_label(f, l)); }
    }
}
/// The labels of a forest lie in the order of their relations.
pub proof fn lemma_rel_order(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>)
    requires forest_ok(a + b)
    ensures match rel(l, b) { Rel::Found(_) | Rel::Absent | Rel::Greater => a.len() > 0 && b.len() > 0 ==> !(rel(l, a) is Found) && !(rel(l, a) is Absent) && !(rel(l, a) is Less), _ => true },
        a.len() > 0 && b.len() > 0 ==> !only_leaf(a) && !only_leaf(b)
{
    broadcast use group_lex;
    let f = a + b;
    let n = a.len() as int;
    assert(forall|i: int| 0 <= i < a.len() ==> f[i] == #[trigger] a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> f[i + n] == #[trigger] b[i]);
    lemma_forest_split(a, b);
    if a.len() > 0 && b.len() > 0 {
        if only_leaf(a) { assert(f[0] is Leaf); }
        if only_leaf(b) { assert(f[n] is Leaf); }
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && a[i] is Labeled && b[j] is Labeled implies lt(lab(#[trigger] a[i]), lab(#[trigger] b[j])) by { assert(lt(lab(f[i]), lab(f[j + n]))); }
        // a label of b at or below l
        let low = match rel(l, b) { Rel::Found(_) | Rel::Absent | Rel::Greater => true, _ => false };
        if low {
            let j = if has_label(b, l) { choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Labeled && lab(b[i]) == l }
                else if last_below(b, l) { b.len() - 1 } else { choose|i: int| #[trigger] gap_at(b, l, i) };
            if !has_label(b, l) && !last_below(b, l) { assert(gap_at(b, l, j)); }
            assert(b[j] is Labeled && !lt(l, lab(b[j])));
            if has_label(a, l) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Labeled && lab(a[i]) == l; assert(lt(lab(a[i]), lab(b[j]))); }
            if first_above(a, l) { assert(lt(lab(a[0]), lab(b[j]))); }
            if has_gap(a, l) { let i = choose|i: int| #[trigger] gap_at(a, l, i); assert(gap_at(a, l, i)); assert(lt(lab(a[i + 1]), lab(b[j]))); }
        }
    }
}
/// Pruning keeps the digest, keeps forests in order, and never changes an answer other than to "unknown".
pub proof fn lemma_prune_rel(w: ST, t: ST, l: Seq<u8>)
    requires prunes(w, t), forest_ok(flat(t)), t is Leaf || no_leaf(flat(t))
    ensures forest_ok(flat(w)), weaker(rel(l, flat(w)), rel(l, flat(t))), labels_in(flat(w), flat(t)), t is Leaf || no_leaf(flat(w))
    decreases t
{
    broadcast use group_lex;
    if w == ST::Pruned(dg(t)) {
        assert(flat(w) =~= seq![w]);
        lemma_rel_one(l, w);
        return;
    }
    match (w, t) {
        (ST::Fork(a, b), ST::Fork(c, d)) => {
            lemma_forest_split(flat(*c), flat(*d));
            assert forall|i: int| 0 <= i < flat(*c).len() implies !(#[trigger] flat(*c)[i] is Leaf) by { assert(flat(t)[i] == flat(*c)[i]); }
            assert forall|i: int| 0 <= i < flat(*d).len() implies !(#[trigger] flat(*d)[i] is Leaf) by { assert(flat(t)[i + flat(*c).len()] == flat(*d)[i]); }
            lemma_prune_rel(*a, *c, l);
            lemma_prune_rel(*b, *d, l);
            lemma_rel_concat(l, flat(*c), flat(*d));
            lemma_rel_order(l, flat(*c), flat(*d));
            lemma_labels_cat(flat(*a), flat(*b), flat(*c), flat(*d));
            lemma_rel_concat(l, flat(*a), flat(*b));
            lemma_rel_order(l, flat(*a), flat(*b));
        }
        (ST::Labeled(m, a), ST::Labeled(_, c)) => {
            lemma_rel_one(l, w);
            lemma_rel_one(l, t);
            assert(lab(flat(w)[0]) == lab(flat(t)[0]));
        }
        _ => { }
    }
}
pub open spec fn no_leaf(f: Seq<ST>) -> bool { forall|i: int| 0 <= i < f.len() ==> !(#[trigger] f[i] is Leaf) }
/// Every label of w is a label of t.
pub open spec fn labels_in(w: Seq<ST>, t: Seq<ST>) -> bool { forall|i: int| 0 <= i < w.len() && (#[trigger] w[i]) is Labeled ==> has_label(t, lab(w[i])) }
pub proof fn lemma_labels_cat(a: Seq<ST>, b: Seq<ST>, c: Seq<ST>, d: Seq<ST>)
    requires forest_ok(a), forest_ok(b), forest_ok(c + d), labels_in(a, c), labels_in(b, d), no_leaf(a), no_leaf(b), no_leaf(c + d)
    ensures forest_ok(a + b), labels_in(a + b, c + d), no_leaf(a + b)
{
    let f = a + b;
    let g = c + d;
    let n = a.len() as int;
    let m = c.len() as int;
    assert forall|i: int| 0 <= i < f.len() implies !(#[trigger] f[i] is Leaf) by { if i < n { assert(f[i] == a[i]); } else { assert(f[i] == b[i - n]); } }
    assert forall|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled implies has_label(g, lab(f[i])) by {
        if i < n { assert(f[i] == a[i]); let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]) is Labeled && lab(c[k]) == lab(a[i]); assert(g[k] == c[k]); }
        else { assert(f[i] == b[i - n]); let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]) is Labeled && lab(d[k]) == lab(b[i - n]); assert(g[k + m] == d[k]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && f[i] is Labeled && f[j] is Labeled implies lt(lab(#[trigger] f[i]), lab(#[trigger] f[j])) by {
        if j < n { assert(f[i] == a[i] && f[j] == a[j]); assert(!(a[i] is Leaf)); }
        else if i >= n { assert(f[i] == b[i - n] && f[j] == b[j - n]); assert(!(b[i - n] is Leaf)); }
        else {
            assert(f[i] == a[i] && f[j] == b[j - n]);
            let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]) is Labeled && lab(c[k]) == lab(a[i]);
            let p = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]) is Labeled && lab(d[k]) == lab(b[j - n]);
            assert(g[k] == c[k] && g[p + m] == d[p]);
            assert(!(g[k] is Leaf));
            assert(lt(lab(g[k]), lab(g[p + m])));
        }
    }
}
