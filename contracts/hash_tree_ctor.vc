//@text
// ---------------------------------------------------------------- constructors of hash trees
// assumed: the conversions between owned and borrowed byte strings keep the bytes (std), T -> T is the identity
//@take ht empty fork label leaf pruned
//@fn empty C03
//@ret r
//@spec
    ensures tv(r.root) == ST::Empty
//@fn fork C03
//@ret r
//@spec
    ensures tv(r.root) == ST::Fork(Box::new(tv(left.root)), Box::new(tv(right.root)))
//@fn label C03
//@ret r
//@spec
    requires <L as IntoSpec<Label<Storage>>>::obeys_into_spec(), <N as IntoSpec<HashTree<Storage>>>::obeys_into_spec()
    ensures tv(r.root) == ST::Labeled(bytes(&IntoSpec::<Label<Storage>>::into_spec(label_).0), Box::new(tv(IntoSpec::<HashTree<Storage>>::into_spec(node).root)))
//@fn leaf C03
//@ret r
//@spec
    requires <L as IntoSpec<Storage>>::obeys_into_spec()
    ensures tv(r.root) == ST::Leaf(bytes(&IntoSpec::<Storage>::into_spec(leaf_)))
//@fn pruned C03
//@ret r
//@spec
    requires <C as IntoSpec<Hash>>::obeys_into_spec()
    ensures tv(r.root) == ST::Pruned(IntoSpec::<Hash>::into_spec(content))
//@text
pub mod rb {
use super::*;
use crate as hash_tree;
//@take lib HashTree HashTreeNode Label empty fork labeled leaf pruned
//@text
}
//@fn lib:empty C03
//@ret r
//@spec
    ensures tv(r.root) == ST::Empty
//@fn lib:fork C03
//@ret r
//@spec
    ensures tv(r.root) == ST::Fork(Box::new(tv(left.root)), Box::new(tv(right.root)))
//@fn lib:labeled C03
//@ret r
//@spec
    requires <L as IntoSpec<Label>>::obeys_into_spec(), <N as IntoSpec<HashTree>>::obeys_into_spec()
    ensures tv(r.root) == ST::Labeled(bytes(&IntoSpec::<Label>::into_spec(label).0), Box::new(tv(IntoSpec::<HashTree>::into_spec(node).root)))
//@fn lib:leaf C03
//@ret r
//@spec
    requires <L as IntoSpec<Vec<u8>>>::obeys_into_spec()
    ensures tv(r.root) == ST::Leaf(bytes(&IntoSpec::<Vec<u8>>::into_spec(leaf_)))
//@fn lib:pruned C03
//@ret r
//@spec
    requires <C as IntoSpec<Hash>>::obeys_into_spec()
    ensures tv(r.root) == ST::Pruned(IntoSpec::<Hash>::into_spec(content))
//@text
// ---------------------------------------------------------------- assumed: conversions of std keep the bytes
pub broadcast axiom fn ax_vec_from_slice(s: &[u8]) ensures #[trigger] <Vec<u8> as FromSpec<&[u8]>>::from_spec(s)@ == s@;
pub broadcast axiom fn ax_vec_from_cow(s: Cow<'_, [u8]>) ensures #[trigger] <Vec<u8> as FromSpec<Cow<'_, [u8]>>>::from_spec(s)@ == cow_bytes(s);
pub uninterp spec fn cow_bytes(s: Cow<'_, [u8]>) -> Seq<u8>;
pub broadcast axiom fn ax_cow_from_slice(s: &[u8]) ensures cow_bytes(#[trigger] <Cow<'_, [u8]> as FromSpec<&[u8]>>::from_spec(s)) == s@;
pub broadcast axiom fn ax_obeys_self_ht(h: rb::HashTree) ensures #[trigger] <rb::HashTree as FromSpec<rb::HashTree>>::from_spec(h) == h;
pub broadcast axiom fn ax_obeys_self_hash(h: Hash) ensures #[trigger] <Hash as FromSpec<Hash>>::from_spec(h) == h;
pub axiom fn ax_obeys()
    ensures <Vec<u8> as FromSpec<&[u8]>>::obeys_from_spec(), <Vec<u8> as FromSpec<Cow<'_, [u8]>>>::obeys_from_spec(),
        <Cow<'_, [u8]> as FromSpec<&[u8]>>::obeys_from_spec(), <rb::HashTree as FromSpec<rb::HashTree>>::obeys_from_spec(), <Hash as FromSpec<Hash>>::obeys_from_spec();
pub broadcast group group_conv { ax_vec_from_slice, ax_vec_from_cow, ax_cow_from_slice, ax_obeys_self_ht, ax_obeys_self_hash }

impl<'a> FromSpecImpl<&'a [u8]> for Label<Vec<u8>> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: &'a [u8]) -> Label<Vec<u8>> { Label(<Vec<u8> as FromSpec<&[u8]>>::from_spec(o)) }
}
//@take ht impl:From<&'a[u8]>:Label<Vec<u8>>
//@fn Label::From::from C03
//@ret r
//@entry
    broadcast use group_conv;
    proof { ax_obeys(); }
