//@text
// ---------------------------------------------------------------- candid::Principal (assumed contract)
#[verifier::external_body]
pub struct Principal { x: u8 }
impl Copy for Principal {}
impl Clone for Principal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl View for Principal { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub enum PrincipalError { BytesTooLong() }
impl Principal {
    /// panics on more than 29 bytes
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: Self) requires s@.len() <= 29 ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from_slice(s: &[u8]) -> (r: Result<Self, PrincipalError>) ensures match r { Ok(p) => s@.len() <= 29 && p@ == s@, Err(_) => s@.len() > 29 } { unimplemented!() }
}
/// The order of principals: by length, then by content (what #[derive(Ord)] on its length and bytes gives).
pub open spec fn pr_ord(a: Seq<u8>, b: Seq<u8>) -> Ordering { if a.len() < b.len() { Less } else if a.len() > b.len() { Greater } else { lex_ord(a, b) } }
pub open spec fn pr_le(a: Seq<u8>, b: Seq<u8>) -> bool { pr_ord(a, b) != Greater }
impl PartialEqSpecImpl for Principal { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Principal) -> bool { self@ == o@ } }
impl PartialEq for Principal { #[verifier::external_body] fn eq(&self, o: &Principal) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Principal { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Principal) -> Option<Ordering> { Some(pr_ord(self@, o@)) } }
impl PartialOrd for Principal { #[verifier::external_body] fn partial_cmp(&self, o: &Principal) -> Option<Ordering> { unimplemented!() } }
pub broadcast axiom fn ax_principal_ref_ord(a: &Principal, b: &Principal) ensures #[trigger] <&Principal as PartialOrdSpec<&Principal>>::partial_cmp_spec(&a, &b) == Some(pr_ord(a@, b@));
pub broadcast axiom fn ax_principal_ref_eq(a: &Principal, b: &Principal) ensures #[trigger] <&Principal as PartialEqSpec<&Principal>>::eq_spec(&a, &b) == (a@ == b@);
pub axiom fn ax_principal_obeys() ensures <&Principal as PartialOrdSpec<&Principal>>::obeys_partial_cmp_spec(), <&Principal as PartialEqSpec<&Principal>>::obeys_eq_spec();
pub broadcast group group_principal { ax_principal_ref_ord, ax_principal_ref_eq }
pub open spec fn flip(o: Ordering) -> Ordering { match o { Less => Greater, Greater => Less, Equal => Equal } }
pub broadcast proof fn lemma_pr_flip(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] pr_ord(a, b) == flip(pr_ord(b, a)) { broadcast use group_lex; }
