//@gsubst `.split('/')` => `.split_it('/')`
//@gsubst `.extend(` => `.extend_it(`
//@text
// ---------------------------------------------------------------- URL paths as segments
pub broadcast axiom fn ax_vec_from_slice(s: &[u8]) ensures #[trigger] <Vec<u8> as FromSpec<&[u8]>>::from_spec(s)@ == s@;
pub axiom fn ax_obeys() ensures <Vec<u8> as FromSpec<&[u8]>>::obeys_from_spec(), <Vec<u8> as FromSpec<&str>>::obeys_from_spec(), <String as FromSpec<&str>>::obeys_from_spec();
pub broadcast axiom fn ax_string_from_str(s: &str) ensures #[trigger] <String as FromSpec<&str>>::from_spec(s)@ == s@;
pub broadcast axiom fn ax_vec_from_str(s: &str) ensures #[trigger] <Vec<u8> as FromSpec<&str>>::from_spec(s)@ == enc(s@);
pub broadcast proof fn ax_strs_enc(s: Seq<&str>) ensures #[trigger] seq_bytes(s) == encs(strs(s)) { broadcast use {group_bytes, group_str}; assert(seq_bytes(s) =~= encs(strs(s))); }
/// The segments of a request path: the non-empty pieces between slashes, and an empty one for a trailing slash.
pub open spec fn nonempty() -> spec_fn(Seq<char>) -> bool { |s: Seq<char>| s.len() > 0 }
pub open spec fn encs(s: Seq<Seq<char>>) -> Seq<Seq<u8>> { s.map_values(|x: Seq<char>| enc(x)) }
pub open spec fn url_segs(p: Seq<char>) -> Seq<Seq<u8>> {
    let s = encs(keep(split_at(p, '/'), nonempty()));
    if p.len() > 0 && p.last() == '/' { s.push(s_dir()) } else { s }
}
pub open spec fn with_prefix(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { seq![s_prefix()] + p }
pub proof fn lemma_ends()
    ensures forall|t: Seq<Seq<u8>>, s: Seq<Seq<u8>>| #![trigger is_suf(t, s)] t.len() == 1 ==> is_suf(t, s) == (s.len() > 0 && s.last() == t[0]),
        forall|t: Seq<Seq<u8>>, s: Seq<Seq<u8>>| #![trigger is_pre(t, s)] t.len() == 1 ==> is_pre(t, s) == (s.len() > 0 && s[0] == t[0]),
        enc("http_expr"@) == s_prefix(), enc("<$>"@) == s_exact(), enc("<*>"@) == s_wild(), enc(""@) == s_dir(),
{
    lemma_segments();
    assert forall|t: Seq<Seq<u8>>, s: Seq<Seq<u8>>| #![trigger is_suf(t, s)] t.len() == 1 implies is_suf(t, s) == (s.len() > 0 && s.last() == t[0]) by { if s.len() > 0 { assert(s.skip(s.len() - 1)[0] == s.last()); if s.last() == t[0] { assert(s.skip(s.len() - 1) =~= t); } } }
    assert forall|t: Seq<Seq<u8>>, s: Seq<Seq<u8>>| #![trigger is_pre(t, s)] t.len() == 1 implies is_pre(t, s) == (s.len() > 0 && s[0] == t[0]) by { if s.len() > 0 { assert(s.take(1)[0] == s[0]); if s[0] == t[0] { assert(s.take(1) =~= t); } } }
    assert(enc("http_expr"@) =~= "http_expr".spec_bytes() && enc("<$>"@) =~= "<$>".spec_bytes() && enc("<*>"@) =~= "<*>".spec_bytes() && enc(""@) =~= "".spec_bytes());
}
pub proof fn lemma_url_parts(p: Seq<char>)
    ensures forall|s: Seq<&str>, f: spec_fn(&str) -> bool| #![trigger strs(s), keep(s, f)] strs(s) == split_at(p, '/') && (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == (s[i]@.len() > 0))
        ==> strs(keep(s, f)) == keep(split_at(p, '/'), nonempty())
{
    assert forall|s: Seq<&str>, f: spec_fn(&str) -> bool| #![trigger strs(s), keep(s, f)] strs(s) == split_at(p, '/') && (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == (s[i]@.len() > 0))
        implies strs(keep(s, f)) == keep(split_at(p, '/'), nonempty()) by {
        let g = |x: &str| x@;
        lemma_keep_map(s, g, nonempty());
        lemma_keep_same(s, f, |x: &str| nonempty()(g(x)));
    }
}
