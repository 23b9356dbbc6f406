//@text
// ---------------------------------------------------------------- merging two prunings of one tree
pub mod merge {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned, Label};
pub axiom fn ax_label_obeys() ensures <Label as FromSpec<Label>>::obeys_from_spec(), forall|x: Label| #[trigger] <Label as FromSpec<Label>>::from_spec(x) == x,
    <Vec<u8> as FromSpec<Vec<u8>>>::obeys_from_spec(), forall|x: Vec<u8>| #[trigger] <Vec<u8> as FromSpec<Vec<u8>>>::from_spec(x) == x,
    <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec(), forall|a: Vec<u8>, b: Vec<u8>| #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::eq_spec(&a, &b) == (a@ == b@),
    <Hash as PartialEqSpec<Hash>>::obeys_eq_spec(), forall|a: Hash, b: Hash| #[trigger] <Hash as PartialEqSpec<Hash>>::eq_spec(&a, &b) == (a == b);
/// What #[derive(PartialEq)] means on a label.
impl PartialEqSpecImpl for Label { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Label) -> bool { bytes(&self.0) == bytes(&o.0) } }
impl PartialEq for Label { #[verifier::external_body] fn eq(&self, o: &Label) -> (r: bool) { unimplemented!() } }
/// Well-formed, and no leaf shares its place with empty nodes.
pub open spec fn tidy(t: ST) -> bool { wf_tree(t) && (t is Leaf || no_leaf(flat(t))) && tidy_sub(t) }
pub open spec fn tidy_sub(t: ST) -> bool decreases t {
    match t {
        ST::Fork(a, b) => tidy_sub(*a) && tidy_sub(*b),
        ST::Labeled(_, c) => (*c is Leaf || no_leaf(flat(*c))) && tidy_sub(*c),
        _ => true,
    }
}
pub proof fn lemma_prune_sub(w: ST, t: ST)
    requires prunes(w, t), wf_sub(t), tidy_sub(t)
    ensures wf_sub(w), tidy_sub(w)
    decreases t
{
    reveal_with_fuel(prunes, 3);
    match (w, t) {
        (ST::Fork(a, b), ST::Fork(c, d)) => { if w != ST::Pruned(dg(t)) { lemma_prune_sub(*a, *c); lemma_prune_sub(*b, *d); } }
        (ST::Labeled(_, a), ST::Labeled(_, c)) => { if w != ST::Pruned(dg(t)) { lemma_prune_sub(*a, *c); lemma_prune_rel(*a, *c, Seq::empty());
            if *c is Leaf { assert(*a is Leaf || *a is Pruned); assert(flat(*a) =~= seq![*a]); } } }
        _ => {}
    }
}
pub proof fn lemma_prune_tidy(w: ST, t: ST)
    requires prunes(w, t), tidy(t)
    ensures tidy(w)
{
    lemma_prune_sub(w, t);
    lemma_prune_rel(w, t, Seq::empty());
    if t is Leaf { assert(w is Leaf || w is Pruned); assert(flat(w) =~= seq![w]); }
}
pub proof fn lemma_found_tidy(l: Seq<u8>, t: ST)
    requires tidy(t)
    ensures rel(l, flat(t)) matches Rel::Found(s) ==> tidy(s)
{
    lemma_found_wf(l, t);
    if has_label(flat(t), l) {
        let f = flat(t);
        let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Labeled && lab(f[i]) == l;
        lemma_flat_sub(t, i);
        lemma_found_unique(l, f, i);
    }
}
pub proof fn lemma_flat_sub(t: ST, i: int)
    requires tidy_sub(t), 0 <= i < flat(t).len()
    ensures tidy_sub(flat(t)[i])
    decreases t
{
    match t { ST::Fork(a, b) => { if i < flat(*a).len() { lemma_flat_sub(*a, i); } else { lemma_flat_sub(*b, i - flat(*a).len()); } } _ => {} }
}
/// Pruning is monotone: what a pruning can answer, the tree it was pruned from answers the same way.
pub proof fn lemma_prune_lookup(w: ST, t: ST, path: Seq<Seq<u8>>)
    requires prunes(w, t), tidy(t)
    ensures tidy(w), match lookup_spec(path, w) { Look::Unknown => true, a => a == lookup_spec(path, t) }
    decreases path.len()
{
    lemma_prune_tidy(w, t);
    if path.len() > 0 {
        lemma_prune_rel(w, t, path[0]);
        lemma_rel_find(path[0], flat(w));
        lemma_rel_find(path[0], flat(t));
        lemma_found_tidy(path[0], t);
        match (rel(path[0], flat(w)), rel(path[0], flat(t))) {
            (Rel::Found(a), Rel::Found(b)) => { lemma_prune_lookup(a, b, path.skip(1)); }
            _ => {}
        }
    }
}
/// So the result of a merge answers every lookup that either of the two could answer, in the same way.
pub proof fn lemma_merge_lookup(l: ST, r: ST, m: ST, path: Seq<Seq<u8>>)
    requires tidy(m), prunes(l, m), prunes(r, m)
    ensures dg(m) == dg(l), dg(m) == dg(r),
        !(lookup_spec(path, l) is Unknown) ==> lookup_spec(path, m) == lookup_spec(path, l), !(lookup_spec(path, r) is Unknown) ==> lookup_spec(path, m) == lookup_spec(path, r)
{
    lemma_prune_lookup(l, m, path);
    lemma_prune_lookup(r, m, path);
    lemma_prunes_dg(l, m);
    lemma_prunes_dg(r, m);
}
//@take nested merge_hash_trees
//@text
} // mod merge
//@fn merge_hash_trees C07 C17
//@ret r
//@spec
    requires exists|t: ST| prunes(tv(lhs.root), t) && prunes(tv(rhs.root), t)
    ensures prunes(tv(lhs.root), tv(r.root)), prunes(tv(rhs.root), tv(r.root)),
        forall|t: ST| #![trigger prunes(tv(lhs.root), t)] prunes(tv(lhs.root), t) && prunes(tv(rhs.root), t) ==> prunes(tv(r.root), t)
    decreases tv(lhs.root)
//@entry
    broadcast use group_core, group_conv;
    let ghost (gl, gr) = (tv(lhs.root), tv(rhs.root));
    proof {
        ax_obeys(); ax_label_obeys(); reveal_with_fuel(prunes, 2); reveal_with_fuel(dg, 2); reveal_with_fuel(tv, 2);
        let t = choose|t: ST| prunes(tv(lhs.root), t) && prunes(tv(rhs.root), t);
        lemma_prunes_refl(tv(lhs.root)); lemma_prunes_refl(tv(rhs.root)); lemma_prunes_dg(tv(lhs.root), t); lemma_prunes_dg(tv(rhs.root), t);
        match (tv(lhs.root), tv(rhs.root), t) {
            (ST::Fork(a, b), ST::Fork(c, d), ST::Fork(e, f)) => { assert(prunes(*a, *e) && prunes(*c, *e)); assert(prunes(*b, *f) && prunes(*d, *f)); }
            (ST::Labeled(_, a), ST::Labeled(_, c), ST::Labeled(_, e)) => { assert(prunes(*a, *e) && prunes(*c, *e)); }
            _ => {}
        }
    }
//@tail
    proof {
        assert forall|t: ST| #![trigger prunes(gl, t)] prunes(gl, t) && prunes(gr, t) implies prunes(tv(r.root), t) by {
            reveal_with_fuel(prunes, 2);
            match (gl, gr, t) {
                (ST::Fork(a, b), ST::Fork(c, d), ST::Fork(e, f)) => { assert(prunes(*a, *e) && prunes(*c, *e)); assert(prunes(*b, *f) && prunes(*d, *f)); }
                (ST::Labeled(_, a), ST::Labeled(_, c), ST::Labeled(_, e)) => { assert(prunes(*a, *e) && prunes(*c, *e)); }
                _ => {}
            }
        }
    }
