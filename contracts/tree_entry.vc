//@source te packages/ic-http-certification/src/tree/certification_tree_entry.rs
//@derive HttpCertificationTreeEntry
//@text
// ---------------------------------------------------------------- entries of the HTTP certification tree
impl Clone for HttpCertificationPath<'_> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// The path of an entry in the tree: of its URL path, its expression, its request and its response.
pub open spec fn entry_path(e: HttpCertificationTreeEntry) -> Path { path_of(*cow_ref(&e.path)) + cert_path((*cow_ref(&e.certification)).0) }
pub open spec fn path_of(p: HttpCertificationPath) -> Path { url_segs(path_text(p)).push(terminator(p)) }
//@take te HttpCertificationTreeEntry HttpCertificationTreeEntry::new HttpCertificationTreeEntry::to_tree_path
//@take cp HttpCertificationPath::exact HttpCertificationPath::wildcard HttpCertificationPath::get_type
//@fn HttpCertificationPath::exact C17 C18
//@ret r
//@spec
    ensures r.0 is Exact, into_gives(path, r.0->Exact_0)
//@fn HttpCertificationPath::wildcard C17 C18
//@ret r
//@spec
    ensures r.0 is Wildcard, into_gives(path, r.0->Wildcard_0)
//@fn HttpCertificationPath::get_type C17
//@ret r
//@spec
    ensures *r == self.0
//@fn HttpCertificationTreeEntry::new C17
//@ret r
//@spec
    ensures into_gives(path, r.path), into_gives(certification, r.certification)
//@fn HttpCertificationTreeEntry::to_tree_path C17
//@ret r
//@spec
    ensures pv(r@) == entry_path(*self)
//@entry
    broadcast use group_core;
//@tail
    assert(pv(r@) =~= entry_path(*self));
