//@include hash_tree_find.vc
//@text

/// Stand-in for `dyn Iterator<Item = impl AsRef<[u8]>>` (assumed contract): yields a finite sequence of items in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PathIter<T> { x: std::marker::PhantomData<T> }
impl<T> View for PathIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> PathIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
impl<T> PathIter<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: PathIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]) { unimplemented!() }
}
/// Borrow<T> for T
pub fn borrow_id<T: ?Sized>(v: &T) -> (r: &T) ensures r == v { v }
// assumed: #[derive(Clone)] and to_owned() make an equal copy
impl<S: AsRef<[u8]> + Clone> Clone for HashTreeNode<S> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures tv(r) == tv(*self) { unimplemented!() }
}

/// A labelled node of the forest carries this label and subtree. (Says what a lookup found in any tree, sorted or not.)
pub open spec fn child_at(f: Seq<ST>, l: Seq<u8>, c: ST) -> bool { exists|i: int| 0 <= i < f.len() && #[trigger] f[i] == ST::Labeled(l, Box::new(c)) }
pub open spec fn leads_sub(path: Seq<Seq<u8>>, s: ST, t: ST) -> bool decreases path.len() {
    if path.len() == 0 { t == s } else { exists|c: ST| #[trigger] child_at(flat(t), path[0], c) && leads_sub(path.skip(1), s, c) }
}
pub open spec fn leads(path: Seq<Seq<u8>>, v: Seq<u8>, t: ST) -> bool { leads_sub(path, ST::Leaf(v), t) }
pub proof fn lemma_child_concat(l: Seq<u8>, a: Seq<ST>, b: Seq<ST>)
    ensures forall|c: ST| #![trigger child_at(a, l, c)] #![trigger child_at(b, l, c)] child_at(a, l, c) || child_at(b, l, c) ==> child_at(a + b, l, c)
{
    assert forall|c: ST| child_at(a, l, c) || child_at(b, l, c) implies child_at(a + b, l, c) by {
        if child_at(a, l, c) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == ST::Labeled(l, Box::new(c)); assert((a + b)[i] == a[i]); }
        else { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == ST::Labeled(l, Box::new(c)); assert((a + b)[a.len() + i] == b[i]); }
    }
}
/// What can be turned into an iterator (assumed contract of the std impls for slices, arrays and vectors of path segments).
pub trait IntoIterator: Sized { type Item; spec fn items(&self) -> Seq<Self::Item>; fn into_iter(self) -> (r: PathIter<Self::Item>) ensures r@ == self.items(); }
impl<'a, T, const N: usize> IntoIterator for &'a [T; N] { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn into_iter(self) -> (r: PathIter<&'a T>) { unimplemented!() } }
impl<'a, T> IntoIterator for &'a [T] { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn into_iter(self) -> (r: PathIter<&'a T>) { unimplemented!() } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn into_iter(self) -> (r: PathIter<&'a T>) { unimplemented!() } }
/// The byte strings of a path given as an array of byte slices.
pub broadcast proof fn lemma_path1(a: &[&[u8]; 1]) ensures #[trigger] seq_bytes(IntoIterator::items(&a)) == seq![a@[0]@]
{ broadcast use group_bytes; let s = IntoIterator::items(&a); assert(bytes(&s[0]) == bytes(s[0])); assert(seq_bytes(s) =~= seq![a@[0]@]); }
pub broadcast proof fn lemma_path2(a: &[&[u8]; 2]) ensures #[trigger] seq_bytes(IntoIterator::items(&a)) == seq![a@[0]@, a@[1]@]
{ broadcast use group_bytes; let s = IntoIterator::items(&a); assert(bytes(&s[0]) == bytes(s[0]) && bytes(&s[1]) == bytes(s[1])); assert(seq_bytes(s) =~= seq![a@[0]@, a@[1]@]); }
pub broadcast proof fn lemma_path3(a: &[&[u8]; 3]) ensures #[trigger] seq_bytes(IntoIterator::items(&a)) == seq![a@[0]@, a@[1]@, a@[2]@]
{ broadcast use group_bytes; let s = IntoIterator::items(&a); assert(bytes(&s[0]) == bytes(s[0]) && bytes(&s[1]) == bytes(s[1]) && bytes(&s[2]) == bytes(s[2])); assert(seq_bytes(s) =~= seq![a@[0]@, a@[1]@, a@[2]@]); }
pub broadcast axiom fn ax_as_ref_vec(v: Vec<u8>) ensures (#[trigger] <Vec<u8> as AsRefSpec<[u8]>>::as_ref_spec(&v))@ == v@;
pub broadcast group group_path { lemma_path1, lemma_path2, lemma_path3, ax_as_ref_vec }

//@take ht LookupResult SubtreeLookupResult LookupLabelResult
//@take ht HashTreeNode::lookup_label HashTreeNode::lookup_path HashTreeNode::lookup_subtree HashTree::lookup_path HashTree::lookup_subtree
//@gsubst `dyn Iterator<Item = impl AsRef<[u8]>>` => `PathIter<impl AsRef<[u8]>>`
//@fn HashTreeNode::lookup_label C02
//@ret r
//@spec
    ensures
        r is Found ==> child_at(flat(tv(*self)), label@, tv(*r->Found_0)),
        forest_ok(flat(tv(*self))) ==> match r {
            LookupLabelResult::Absent => rel(label@, flat(tv(*self))) is Absent,
            LookupLabelResult::Unknown => rel(label@, flat(tv(*self))) is Unknown,
            LookupLabelResult::Less => rel(label@, flat(tv(*self))) is Less,
            LookupLabelResult::Greater => rel(label@, flat(tv(*self))) is Greater,
            LookupLabelResult::Empty => rel(label@, flat(tv(*self))) is Empty,
            LookupLabelResult::Found(n) => rel(label@, flat(tv(*self))) == Rel::Found(tv(*n)),
        },
    decreases self
//@entry
    broadcast use group_core, group_slice;
    proof {
        let f = flat(tv(*self));
        match self {
            HashTreeNode::Fork(b) => {
                lemma_child_concat(label@, flat(tv((*b).0)), flat(tv((*b).1)));
                if forest_ok(f) {
                    lemma_forest_split(flat(tv((*b).0)), flat(tv((*b).1)));
                    lemma_rel_concat(label@, flat(tv((*b).0)), flat(tv((*b).1)));
                }
            }
            HashTreeNode::Labeled(l, t) => {
                assert(f.len() == 1 && f[0] == tv(*self));
                assert(label@ == lab(f[0]) ==> child_at(f, label@, tv(**t)));
                if lab(f[0]) == label@ { lemma_found_unique(label@, f, 0); }
            }
            _ => {}
        }
    }
//@fn HashTreeNode::lookup_path C02
//@ret r
//@opt inline-option
//@spec
    ensures
        r is Found ==> leads(seq_bytes(old(path)@), r->Found_0@, tv(*self)),
        wf_tree(tv(*self)) ==> match r {
            LookupResult::Absent => lookup_spec(seq_bytes(old(path)@), tv(*self)) is Absent,
            LookupResult::Unknown => lookup_spec(seq_bytes(old(path)@), tv(*self)) is Unknown,
            LookupResult::Error => lookup_spec(seq_bytes(old(path)@), tv(*self)) is Error,
            LookupResult::Found(v) => lookup_spec(seq_bytes(old(path)@), tv(*self)) == Look::Found(v@),
        },
    decreases old(path)@.len()
//@entry
    broadcast use group_core, group_slice;
    proof {
        if path@.len() > 0 {
            if wf_tree(tv(*self)) {
                lemma_rel_find(bytes(&path@[0]), flat(tv(*self)));
                lemma_found_wf(bytes(&path@[0]), tv(*self));
            }
            assert(seq_bytes(path@).skip(1) =~= seq_bytes(path@.skip(1)));
        }
    }
//@fn HashTreeNode::lookup_subtree C02
//@ret r
//@opt inline-option
//@spec
    ensures
        r is Found ==> leads_sub(seq_bytes(old(path)@), tv(r->Found_0.root), tv(*self)),
        wf_tree(tv(*self)) ==> match r {
            SubtreeLookupResult::Absent => subtree_spec(seq_bytes(old(path)@), tv(*self)) is Absent,
            SubtreeLookupResult::Unknown => subtree_spec(seq_bytes(old(path)@), tv(*self)) is Unknown,
            SubtreeLookupResult::Found(s) => subtree_spec(seq_bytes(old(path)@), tv(*self)) == Find::Found(tv(s.root)),
        },
    decreases old(path)@.len()
//@subst `self.to_owned()` => `self.clone()`
//@entry
    broadcast use group_core, group_slice;
    proof {
        if path@.len() > 0 {
            if wf_tree(tv(*self)) {
                lemma_rel_find(bytes(&path@[0]), flat(tv(*self)));
                lemma_found_wf(bytes(&path@[0]), tv(*self));
            }
            assert(seq_bytes(path@).skip(1) =~= seq_bytes(path@.skip(1)));
        }
    }
//@fn HashTree::lookup_path C02
//@ret r
//@spec
    ensures
        r is Found ==> leads(seq_bytes(path.items()), r->Found_0@, tv(self.root)),
        wf_tree(tv(self.root)) ==> match r {
            LookupResult::Absent => lookup_spec(seq_bytes(path.items()), tv(self.root)) is Absent,
            LookupResult::Unknown => lookup_spec(seq_bytes(path.items()), tv(self.root)) is Unknown,
            LookupResult::Error => lookup_spec(seq_bytes(path.items()), tv(self.root)) is Error,
            LookupResult::Found(v) => lookup_spec(seq_bytes(path.items()), tv(self.root)) == Look::Found(v@),
        }
//@fn HashTree::lookup_subtree C02
//@ret r
//@subst `v.borrow()` => `borrow_id(v)`
//@closure 0
 -> (r: &'p I) ensures r == v
//@entry
    broadcast use group_core, group_slice;
    let ghost items = path.items();
    assert forall|s: Seq<&I>| s.len() == items.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == items[i]) implies #[trigger] seq_bytes(s) == seq_bytes(items) by { assert(s =~= items); }
//@spec
    ensures
        r is Found ==> leads_sub(seq_bytes(path.items()), tv(r->Found_0.root), tv(self.root)),
        wf_tree(tv(self.root)) ==> match r {
            SubtreeLookupResult::Absent => subtree_spec(seq_bytes(path.items()), tv(self.root)) is Absent,
            SubtreeLookupResult::Unknown => subtree_spec(seq_bytes(path.items()), tv(self.root)) is Unknown,
            SubtreeLookupResult::Found(s) => subtree_spec(seq_bytes(path.items()), tv(self.root)) == Find::Found(tv(s.root)),
        }
