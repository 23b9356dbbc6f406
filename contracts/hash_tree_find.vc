//@text
// ---------------------------------------------------------------- lookup, as in the IC interface specification
/// flatten_forks
pub open spec fn flat(t: ST) -> Seq<ST> decreases t {
    match t {
        ST::Empty => Seq::empty(),
        ST::Fork(a, b) => flat(*a) + flat(*b),
        _ => seq![t],
    }
}
pub open spec fn lab(t: ST) -> Seq<u8> { match t { ST::Labeled(l, _) => l, _ => Seq::empty() } }
/// The forest part of well_formed: labels strictly increase, and a leaf stands alone.
pub open spec fn forest_ok(f: Seq<ST>) -> bool {
    ||| f.len() == 1 && f[0] is Leaf
    ||| (forall|i: int| 0 <= i < f.len() ==> !(#[trigger] f[i] is Leaf))
        && (forall|i: int, j: int| 0 <= i < j < f.len() && f[i] is Labeled && f[j] is Labeled ==> lt(lab(#[trigger] f[i]), lab(#[trigger] f[j])))
}
pub open spec fn wf_sub(t: ST) -> bool decreases t {
    match t {
        ST::Fork(a, b) => wf_sub(*a) && wf_sub(*b),
        ST::Labeled(_, c) => forest_ok(flat(*c)) && wf_sub(*c),
        _ => true,
    }
}
/// well_formed(tree)
pub open spec fn wf_tree(t: ST) -> bool { forest_ok(flat(t)) && wf_sub(t) }

pub open spec fn has_label(f: Seq<ST>, l: Seq<u8>) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l }
pub open spec fn gap_at(f: Seq<ST>, l: Seq<u8>, i: int) -> bool {
    0 <= i && i + 1 < f.len() && f[i] is Labeled && f[i + 1] is Labeled && lt(lab(f[i]), l) && lt(l, lab(f[i + 1]))
}
pub open spec fn has_gap(f: Seq<ST>, l: Seq<u8>) -> bool { exists|i: int| #[trigger] gap_at(f, l, i) }
pub open spec fn first_above(f: Seq<ST>, l: Seq<u8>) -> bool { f.len() > 0 && f[0] is Labeled && lt(l, lab(f[0])) }
pub open spec fn last_below(f: Seq<ST>, l: Seq<u8>) -> bool { f.len() > 0 && f.last() is Labeled && lt(lab(f.last()), l) }
pub open spec fn only_leaf(f: Seq<ST>) -> bool { f.len() == 1 && f[0] is Leaf }

/// find_label: a label is found; or absent when its two neighbours, or the end of the forest beyond it, are in
/// plain sight; otherwise unknown.
pub enum Find { Found(ST), Absent, Unknown }
pub open spec fn find(l: Seq<u8>, f: Seq<ST>) -> Find {
    if has_label(f, l) { Find::Found(*(f[choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l])->Labeled_1) }
    else if has_gap(f, l) || first_above(f, l) || last_below(f, l) || only_leaf(f) || f.len() == 0 { Find::Absent }
    else { Find::Unknown }
}
pub enum Look { Found(Seq<u8>), Absent, Unknown, Error }
/// lookup_path(path, tree)
pub open spec fn lookup_spec(path: Seq<Seq<u8>>, t: ST) -> Look decreases path.len() {
    if path.len() == 0 {
        match t { ST::Leaf(v) => Look::Found(v), ST::Empty => Look::Absent, ST::Pruned(_) => Look::Unknown, _ => Look::Error }
    } else {
        match find(path[0], flat(t)) {
            Find::Found(s) => lookup_spec(path.skip(1), s),
            Find::Absent => Look::Absent,
            Find::Unknown => Look::Unknown,
        }
    }
}
/// The same for subtrees: the subtree at the path, if it can be seen.
pub open spec fn subtree_spec(path: Seq<Seq<u8>>, t: ST) -> Find decreases path.len() {
    if path.len() == 0 { Find::Found(t) } else {
        match find(path[0], flat(t)) {
            Find::Found(s) => subtree_spec(path.skip(1), s),
            other => other,
        }
    }
}

// ---------------------------------------------------------------- how a label relates to a flattened forest
pub enum Rel { Found(ST), Absent, Unknown, Less, Greater, Empty }
pub open spec fn rel(l: Seq<u8>, f: Seq<ST>) -> Rel {
    if f.len() == 0 { Rel::Empty }
    else if has_label(f, l) { Rel::Found(*(f[choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l])->Labeled_1) }
    else if first_above(f, l) { Rel::Less }
    else if last_below(f, l) { Rel::Greater }
    else if has_gap(f, l) || only_leaf(f) { Rel::Absent }
    else { Rel::Unknown }
}
pub open spec fn combine(a: Rel, b: Rel) -> Rel {
    match (a, b) {
        (Rel::Empty, b) => b,
        (a, Rel::Empty) => a,
        (Rel::Greater, Rel::Less) => Rel::Absent,
        (Rel::Unknown, Rel::Less) => Rel::Unknown,
        (Rel::Greater, b) => b,
        (Rel::Unknown, b) => b,
        (a, _) => a,
    }
}
pub proof fn lemma_forest_split(a: Seq<ST>, b: Seq<ST>)
    requires forest_ok(a + b)
    ensures forest_ok(a), forest_ok(b)
{
    let f = a + b;
    assert(forall|i: int| 0 <= i < a.len() ==> f[i] == #[trigger] a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> f[i + a.len()] == #[trigger] b[i]);
    if f.len() == 1 && f[0] is Leaf {
    } else {
        assert forall|i: int| 0 <= i < b.len() implies !(#[trigger] b[i] is Leaf) by { assert(!(f[i + a.len()] is Leaf)); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() && b[i] is Labeled && b[j] is Labeled implies lt(lab(#[trigger] b[i]), lab(#[trigger] b[j])) by {
            assert(lt(lab(f[i + a.len()]), lab(f[j + a.len()])));
        }
    }
}
/// Two indices with the same label are the same index.
pub proof fn lemma_found_unique(l: Seq<u8>, f: Seq<ST>, i: int)
    requires forest_ok(f), 0 <= i < f.len(), f[i] is Labeled, lab(f[i]) == l
    ensures rel(l, f) == Rel::Found(*f[i]->Labeled_1), find(l, f) == Find::Found(*f[i]->Labeled_1), has_label(f, l)
{
    broadcast use group_lex;
    let k = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l;
    assert(0 <= k < f.len() && f[k] is Labeled && lab(f[k]) == l);
    if k < i { assert(lt(lab(f[k]), lab(f[i]))); }
    if i < k { assert(lt(lab(f[i]), lab(f[k]))); }
}
pub open spec fn concat_facts(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>, f: Seq<ST>) -> bool {
    &&& !has_label(a, l) && !has_label(b, l) && !has_label(f, l)
    &&& a.len() > 0 && b.len() > 0 && f.len() > 0
    &&& !only_leaf(a) && !only_leaf(b) && !only_leaf(f)
    &&& first_above(f, l) == first_above(a, l)
    &&& last_below(f, l) == last_below(b, l)
    &&& has_gap(f, l) == (has_gap(a, l) || has_gap(b, l) || (last_below(a, l) && first_above(b, l)))
    &&& first_above(a, l) ==> !last_below(b, l) && !has_gap(b, l) && !last_below(a, l)
    &&& has_gap(a, l) ==> !last_below(a, l) && !last_below(b, l) && !first_above(a, l)
    &&& last_below(b, l) ==> !first_above(b, l)
    &&& first_above(b, l) ==> !has_gap(b, l)
}
pub proof fn lemma_concat_combine(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>, f: Seq<ST>)
    requires concat_facts(l, a, b, f)
    ensures rel(l, f) == combine(rel(l, a), rel(l, b))
{
    hide(has_label); hide(first_above); hide(last_below); hide(has_gap); hide(only_leaf);
}
/// Gaps of a concatenation: in one of the parts, or at the seam.
pub proof fn lemma_concat_gap(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>)
    requires a.len() > 0, b.len() > 0
    ensures has_gap(a + b, l) == (has_gap(a, l) || has_gap(b, l) || (last_below(a, l) && first_above(b, l))),
        first_above(a + b, l) == first_above(a, l), last_below(a + b, l) == last_below(b, l),
        has_label(a + b, l) == (has_label(a, l) || has_label(b, l))
{
    hide(lexc); hide(rel); hide(find); hide(forest_ok);
    let f = a + b;
    let n = a.len() as int;
    assert(f[0] == a[0]);
    assert(f.last() == b.last());
    if has_label(f, l) {
        let k = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l;
        if k < n { assert(a[k] == f[k]); } else { assert(b[k - n] == f[k]); }
    }
    if has_label(a, l) {
        let k = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Labeled && lab(a[i]) == l;
        assert(a[k] == f[k]);
    }
    if has_label(b, l) {
        let k = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Labeled && lab(b[i]) == l;
        assert(b[k] == f[k + n]);
    }
    if has_gap(a, l) {
        let g = choose|i: int| #[trigger] gap_at(a, l, i);
        assert(gap_at(a, l, g));
        assert(f[g] == a[g] && f[g + 1] == a[g + 1]);
        assert(gap_at(f, l, g));
    }
    if has_gap(b, l) {
        let g = choose|i: int| #[trigger] gap_at(b, l, i);
        assert(gap_at(b, l, g));
        assert(f[g + n] == b[g] && f[g + 1 + n] == b[g + 1]);
        assert(gap_at(f, l, g + n));
    }
    if has_gap(f, l) {
        let g = choose|i: int| #[trigger] gap_at(f, l, i);
        assert(gap_at(f, l, g));
        if g + 1 < n { assert(a[g] == f[g] && a[g + 1] == f[g + 1]); assert(gap_at(a, l, g)); }
        else if g >= n { assert(b[g - n] == f[g] && b[g + 1 - n] == f[g + 1]); assert(gap_at(b, l, g - n)); }
        else { assert(a[g] == f[g] && b[0] == f[g + 1]); assert(last_below(a, l) && first_above(b, l)); }
    }
    if last_below(a, l) && first_above(b, l) { assert(f[n - 1] == a[n - 1] && f[n] == b[0]); assert(gap_at(f, l, n - 1)); }
}
pub open spec fn sorted_labels(f: Seq<ST>) -> bool {
    forall|i: int, j: int| 0 <= i < j < f.len() && f[i] is Labeled && f[j] is Labeled ==> lt(lab(#[trigger] f[i]), lab(#[trigger] f[j]))
}
/// In a sorted forest a label is in at most one of the three positions.
pub proof fn lemma_one_position(l: Seq<u8>, f: Seq<ST>)
    requires sorted_labels(f)
    ensures !(first_above(f, l) && has_gap(f, l)), !(last_below(f, l) && has_gap(f, l)), !(first_above(f, l) && last_below(f, l))
{
    hide(lexc);
    if has_gap(f, l) {
        let g = choose|i: int| #[trigger] gap_at(f, l, i);
        assert(gap_at(f, l, g));
        if first_above(f, l) {
            if g > 0 { assert(lt(lab(f[0]), lab(f[g]))); lemma_lexc_trans(l, lab(f[0]), lab(f[g])); }
            lex_facts(l, lab(f[g]));
        }
        if last_below(f, l) {
            let m = f.len() - 1;
            if g + 1 < m { assert(lt(lab(f[g + 1]), lab(f[m]))); lemma_lexc_trans(l, lab(f[g + 1]), lab(f[m])); }
            lex_facts(l, lab(f[m]));
        }
    }
    if first_above(f, l) && last_below(f, l) {
        let m = f.len() - 1;
        if m > 0 { assert(lt(lab(f[0]), lab(f[m]))); lemma_lexc_trans(l, lab(f[0]), lab(f[m])); }
        lex_facts(l, lab(f[m]));
    }
}
pub proof fn lemma_concat_facts(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>)
    requires forest_ok(a + b), a.len() > 0, b.len() > 0, !has_label(a, l), !has_label(b, l)
    ensures concat_facts(l, a, b, a + b)
{
    hide(lexc); hide(rel); hide(find); hide(has_label);
    let f = a + b;
    let n = a.len() as int;
    assert(!only_leaf(a) && !only_leaf(b) && !only_leaf(f)) by {
        if only_leaf(a) { assert(f[0] is Leaf); }
        if only_leaf(b) { assert(f[n] is Leaf); }
    }
    lemma_forest_split(a, b);
    assert(sorted_labels(f)) by { assert(forest_ok(f)); if f.len() == 1 {} }
    assert(sorted_labels(a));
    assert(sorted_labels(b));
    lemma_concat_gap(l, a, b);
    lemma_one_position(l, a);
    lemma_one_position(l, b);
    lemma_one_position(l, f);
}
pub proof fn lemma_rel_concat(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>)
    requires forest_ok(a + b)
    ensures rel(l, a + b) == combine(rel(l, a), rel(l, b))
{
    hide(lexc);
    let f = a + b;
    lemma_forest_split(a, b);
    let n = a.len() as int;
    if a.len() == 0 { assert(f =~= b); return; }
    if b.len() == 0 { assert(f =~= a); return; }
    if has_label(a, l) {
        let k = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Labeled && lab(a[i]) == l;
        lemma_found_unique(l, a, k);
        assert(f[k] == a[k]);
        lemma_found_unique(l, f, k);
        return;
    }
    if has_label(b, l) {
        let k = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Labeled && lab(b[i]) == l;
        lemma_found_unique(l, b, k);
        assert(f[k + n] == b[k]);
        lemma_found_unique(l, f, k + n);
        // no position of the label in a, because everything in a lies below b[k]
        if first_above(a, l) { assert(f[0] == a[0]); assert(lt(lab(f[0]), lab(f[k + n]))); lex_facts(l, lab(a[0])); }
        if has_gap(a, l) {
            let g = choose|i: int| #[trigger] gap_at(a, l, i);
            assert(gap_at(a, l, g));
            assert(f[g + 1] == a[g + 1]);
            assert(lt(lab(f[g + 1]), lab(f[k + n])));
            lex_facts(l, lab(a[g + 1]));
        }
        assert(!only_leaf(a)) by { if only_leaf(a) { assert(f[0] is Leaf); } }
        return;
    }
    lemma_concat_facts(l, a, b);
    lemma_concat_combine(l, a, b, f);
}
pub proof fn lemma_rel_find(l: Seq<u8>, f: Seq<ST>)
    requires forest_ok(f)
    ensures find(l, f) == (match rel(l, f) { Rel::Found(t) => Find::Found(t), Rel::Unknown => Find::Unknown, _ => Find::Absent })
{ }
/// The subtree under a label found in a well-formed tree is well-formed.
pub proof fn lemma_found_wf(l: Seq<u8>, t: ST)
    requires wf_sub(t), forest_ok(flat(t))
    ensures rel(l, flat(t)) matches Rel::Found(s) ==> wf_tree(s)
    decreases t
{
    match t {
        ST::Fork(a, b) => {
            lemma_forest_split(flat(*a), flat(*b));
            lemma_rel_concat(l, flat(*a), flat(*b));
            lemma_found_wf(l, *a);
            lemma_found_wf(l, *b);
        }
        ST::Labeled(l1, c) => {
            let f = flat(t);
            if has_label(f, l) {
                let k = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l;
                assert(f[k] == t);
            }
        }
        _ => {}
    }
}
