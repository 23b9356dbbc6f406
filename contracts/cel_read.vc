//@text
// ---------------------------------------------------------------- the depth of the nesting
pub struct Scan { pub depth: int, pub max: int, pub text: bool, pub esc: bool }
pub open spec fn step(s: Scan, c: char) -> Scan {
    if s.esc { Scan { esc: false, ..s } }
    else if c == '\\' && s.text { Scan { esc: true, ..s } }
    else if c == '"' { Scan { text: !s.text, ..s } }
    else if (c == '(' || c == '[' || c == '{') && !s.text { Scan { depth: s.depth + 1, max: if s.max < s.depth + 1 { s.depth + 1 } else { s.max }, ..s } }
    else if (c == ')' || c == ']' || c == '}') && !s.text { Scan { depth: if s.depth > 0 { s.depth - 1 } else { 0 }, ..s } }
    else { s }
}
pub open spec fn scan(s: Scan, t: Seq<char>) -> Scan decreases t.len() { if t.len() == 0 { s } else { step(scan(s, t.drop_last()), t.last()) } }
pub open spec fn start() -> Scan { Scan { depth: 0, max: 0, text: false, esc: false } }
/// How deep brackets are nested in t, texts aside.
pub open spec fn nesting(t: Seq<char>) -> int { scan(start(), t).max }
#[verifier::external_body] pub fn chars_it(s: &str) -> (r: It<char>) ensures r@ == s@, s@.len() <= usize::MAX { unimplemented!() }
pub fn larger(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub broadcast axiom fn ax_trim_empty(s: Seq<char>) requires s.len() == 0 ensures (#[trigger] trimmed(s, 1)).len() == 0;
impl<T> It<T> { #[verifier::external_body] pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() } }
/// format! in an error message: some text
pub struct Fmt { x: u8 }
impl Fmt {
    #[verifier::external_body] pub fn new() -> Fmt { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> Fmt { unimplemented!() }
    #[verifier::external_body] pub fn dis<T: ?Sized>(self, x: &T) -> Fmt { unimplemented!() }
    #[verifier::external_body] pub fn text(self) -> String { unimplemented!() }
}
//@take cp MAX_NESTING_DEPTH nesting_depth parse_cel_expression
//@fn nesting_depth C16
//@ret r
//@opt inline-it
//@subst `'(' | '[' | '{' if !in_string` => `_ if (c == '(' || c == '[' || c == '{') && !in_string`
//@subst `')' | ']' | '}' if !in_string` => `_ if (c == ')' || c == ']' || c == '}') && !in_string`
//@subst `i.chars()` => `chars_it(i)`
//@subst `max_depth.max(depth)` => `larger(max_depth, depth)`
//@spec
    ensures r == nesting(i@)
//@loop 0
    invariant rv_v0@ == i@, rv_i0 <= i@.len() <= usize::MAX, scan(start(), i@.take(rv_i0 as int)) == (Scan { depth: depth as int, max: max_depth as int, text: in_string, esc: escaped }), 0 <= depth <= rv_i0
    decreases i@.len() - rv_i0
//@loopentry 0
    proof { assert(i@.take(rv_i0 as int).drop_last() =~= i@.take(rv_i0 - 1)); assert(c == i@.take(rv_i0 as int).last()); }
//@tail
    proof { assert(i@.take(i@.len() as int) =~= i@); }
//@text
// ---------------------------------------------------------------- an expression that was written is read back
pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub open spec fn gets<'a>(s: Seq<char>, rest: Seq<char>, f: spec_fn(CelValue<'a>) -> bool) -> bool { forall|o: Ans<CelValue<'a>>| #[trigger] val(s, o) ==> o is Got && o->Got_0 == rest && f(o->Got_1) }
pub open spec fn gets_pair<'a>(s: Seq<char>, rest: Seq<char>, w: Seq<char>, f: spec_fn(CelValue<'a>) -> bool) -> bool { forall|o: Ans<(&'a str, CelValue<'a>)>| #[trigger] pair(s, o) ==> o is Got && o->Got_0 == rest && o->Got_1.0@ == w && f(o->Got_1.1) }
pub open spec fn gets_pairs<'a>(s: Seq<char>, rest: Seq<char>, f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool) -> bool { forall|o: Ans<Seq<(&'a str, CelValue<'a>)>>| #[trigger] pairs(s, o) ==> o is Got && o->Got_0 == rest && f(o->Got_1) }
pub open spec fn gets_vals<'a>(s: Seq<char>, rest: Seq<char>, f: spec_fn(Seq<CelValue<'a>>) -> bool) -> bool { forall|o: Ans<Seq<CelValue<'a>>>| #[trigger] vals(s, o) ==> o is Got && o->Got_0 == rest && f(o->Got_1) }
pub open spec fn words(s: Seq<char>) -> bool decreases s.len() { s.len() == 0 || (word(s[0]) && words(s.skip(1))) }
pub open spec fn plains(s: Seq<char>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> plain(s[i]) }
pub proof fn lemma_all_words(w: Seq<char>) requires words(w) ensures forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> word(w[i]) decreases w.len()
{ if w.len() > 0 { lemma_all_words(w.skip(1)); assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies word(w[i]) by { if i > 0 { assert(w.skip(1)[i - 1] == w[i]); } } } }
/// s starts with something that is not blank.
pub proof fn lemma_sharp(s: Seq<char>) requires s.len() > 0, !blank(s[0]) ensures unblank(s) == s, at(s, s[0]), past(s) == s.skip(1) { lemma_run_is(s, |c: char| blank(c), 0); assert(s.skip(0) =~= s); }
/// A name and what follows it.
pub proof fn lemma_head(w: Seq<char>, c: char, rest: Seq<char>)
    requires words(w), !word(c), !blank(c)
    ensures ({ let s = w + one(c) + rest; unblank(s) == s && word_end(s) == w.len() && s.skip(w.len() as int) == one(c) + rest && s.take(w.len() as int) == w && at(one(c) + rest, c) && past(one(c) + rest) == rest
        && unblank(one(c) + rest) == one(c) + rest && (forall|d: char| d != c ==> !at(one(c) + rest, d)) })
{
    let s = w + one(c) + rest;
    lemma_all_words(w);
    assert forall|k: int| #![trigger s[k]] 0 <= k < w.len() implies word(s[k]) by { assert(s[k] == w[k]); }
    assert(s[w.len() as int] == c);
    lemma_run_is(s, |c: char| word(c), w.len() as int);
    if w.len() > 0 { assert(s[0] == w[0]); } else { assert(s[0] == c); }
    lemma_sharp(s);
    lemma_sharp(one(c) + rest);
    assert(s.skip(w.len() as int) =~= one(c) + rest); assert(s.take(w.len() as int) =~= w); assert((one(c) + rest).skip(1) =~= rest);
}
pub open spec fn is_obj<'a>(w: Seq<char>, f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool) -> spec_fn(CelValue<'a>) -> bool { |v: CelValue<'a>| v is Object && v->Object_0@ == w && f(v->Object_1.e@) }
pub proof fn lemma_obj<'a>(w: Seq<char>, body: Seq<char>, rest: Seq<char>, f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool)
    requires words(w), gets_pairs(body, one('}') + rest, f) ensures gets(w + one('{') + body, rest, is_obj(w, f))
{
    let s = w + one('{') + body;
    lemma_head(w, '{', body); lemma_head(seq![], '}', rest);
    assert forall|o: Ans<CelValue<'a>>| #[trigger] val(s, o) implies o is Got && o->Got_0 == rest && is_obj(w, f)(o->Got_1) by {
        let p = choose|p: Ans<Seq<(&'a str, CelValue<'a>)>>| #![trigger mark(p)] mark(p) && pairs(body, p) && then(shut(p, '}'), o, |x: Seq<(&'a str, CelValue<'a>)>, v: CelValue<'a>| v is Object && v->Object_0@ == s.take(word_end(s)) && v->Object_1.e@ == x);
        assert(pairs(body, p));
    }
}
pub open spec fn is_fun<'a>(w: Seq<char>, f: spec_fn(Seq<CelValue<'a>>) -> bool) -> spec_fn(CelValue<'a>) -> bool { |v: CelValue<'a>| v is Function && v->Function_0@ == w && f(v->Function_1@) }
pub proof fn lemma_fun<'a>(w: Seq<char>, body: Seq<char>, rest: Seq<char>, f: spec_fn(Seq<CelValue<'a>>) -> bool)
    requires words(w), gets_vals(body, one(')') + rest, f) ensures gets(w + one('(') + body, rest, is_fun(w, f))
{
    let s = w + one('(') + body;
    lemma_head(w, '(', body); lemma_head(seq![], ')', rest);
    assert forall|o: Ans<CelValue<'a>>| #[trigger] val(s, o) implies o is Got && o->Got_0 == rest && is_fun(w, f)(o->Got_1) by {
        let p = choose|p: Ans<Seq<CelValue<'a>>>| #![trigger mark(p)] mark(p) && vals(body, p) && then(shut(p, ')'), o, |x: Seq<CelValue<'a>>, v: CelValue<'a>| v is Function && v->Function_0@ == s.take(word_end(s)) && v->Function_1@ == x);
        assert(vals(body, p));
    }
}
pub open spec fn is_arr<'a>(f: spec_fn(Seq<CelValue<'a>>) -> bool) -> spec_fn(CelValue<'a>) -> bool { |v: CelValue<'a>| v is Array && f(v->Array_0@) }
pub proof fn lemma_arr<'a>(body: Seq<char>, rest: Seq<char>, f: spec_fn(Seq<CelValue<'a>>) -> bool)
    requires gets_vals(body, one(']') + rest, f) ensures gets(one('[') + body, rest, is_arr(f))
{
    let s = one('[') + body;
    lemma_head(seq![], '[', body); lemma_head(seq![], ']', rest); assert(seq![] + one('[') + body =~= s); assert(s.skip(0) =~= s);
    assert forall|o: Ans<CelValue<'a>>| #[trigger] val(s, o) implies o is Got && o->Got_0 == rest && is_arr(f)(o->Got_1) by {
        let p = choose|p: Ans<Seq<CelValue<'a>>>| #![trigger mark(p)] mark(p) && vals(body, p) && then(shut(p, ']'), o, |x: Seq<CelValue<'a>>, v: CelValue<'a>| v is Array && v->Array_0@ == x);
        assert(vals(body, p));
    }
}
pub open spec fn is_text<'a>(x: Seq<char>) -> spec_fn(CelValue<'a>) -> bool { |v: CelValue<'a>| v is String && v->String_0@ == x }
pub proof fn lemma_text<'a>(x: Seq<char>, rest: Seq<char>)
    requires plains(x) ensures gets(one('"') + x + one('"') + rest, rest, is_text::<'a>(x))
{
    let s = one('"') + x + one('"') + rest;
    let b = x + one('"') + rest;
    assert(s =~= one('"') + b); assert(seq![] + one('"') + b =~= s);
    lemma_head(seq![], '"', b); lemma_head(seq![], '"', rest); assert(s.skip(0) =~= s);
    assert forall|k: int| #![trigger b[k]] 0 <= k < x.len() implies plain(b[k]) by { assert(b[k] == x[k]); }
    lemma_run_is(b, |c: char| plain(c), x.len() as int);
    assert(b.skip(x.len() as int) =~= one('"') + rest); assert(b.take(x.len() as int) =~= x);
}
pub proof fn lemma_pair<'a>(w: Seq<char>, v: Seq<char>, rest: Seq<char>, f: spec_fn(CelValue<'a>) -> bool)
    requires words(w), gets(v, rest, f) ensures gets_pair(w + one(':') + v, rest, w, f)
{
    let s = w + one(':') + v;
    lemma_head(w, ':', v);
    assert forall|o: Ans<(&'a str, CelValue<'a>)>| #[trigger] pair(s, o) implies o is Got && o->Got_0 == rest && o->Got_1.0@ == w && f(o->Got_1.1) by {
        let p = choose|p: Ans<CelValue<'a>>| #![trigger mark(p)] mark(p) && val(v, p) && then(p, o, |x: CelValue<'a>, v: (&'a str, CelValue<'a>)| v.0@ == s.take(word_end(s)) && v.1 == x);
        assert(val(v, p));
    }
}
pub open spec fn no_pairs<'a>() -> spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool { |l: Seq<(&'a str, CelValue<'a>)>| l.len() == 0 }
pub proof fn lemma_no_pairs<'a>(rest: Seq<char>) ensures gets_pairs(one('}') + rest, one('}') + rest, no_pairs::<'a>())
{
    let s = one('}') + rest;
    lemma_head(seq![], '}', rest); assert(seq![] + one('}') + rest =~= s); assert(s.skip(0) =~= s);
    assert forall|o: Ans<Seq<(&'a str, CelValue<'a>)>>| #[trigger] pairs(s, o) implies o is Got && o->Got_0 == s && no_pairs::<'a>()(o->Got_1) by {
        let p = choose|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] mark(p) && pair(s, p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, seq![x], o) };
        assert(pair(s, p));
    }
}
pub open spec fn one_pair<'a>(w: Seq<char>, f: spec_fn(CelValue<'a>) -> bool) -> spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool { |l: Seq<(&'a str, CelValue<'a>)>| l.len() == 1 && l[0].0@ == w && f(l[0].1) }
pub proof fn lemma_one_pair<'a>(s: Seq<char>, rest: Seq<char>, w: Seq<char>, f: spec_fn(CelValue<'a>) -> bool)
    requires gets_pair(s, one('}') + rest, w, f) ensures gets_pairs(s, one('}') + rest, one_pair(w, f))
{
    lemma_head(seq![], '}', rest);
    assert forall|o: Ans<Seq<(&'a str, CelValue<'a>)>>| #[trigger] pairs(s, o) implies o is Got && o->Got_0 == one('}') + rest && one_pair(w, f)(o->Got_1) by {
        let p = choose|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] mark(p) && pair(s, p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, seq![x], o) };
        assert(pair(s, p));
    }
}
pub open spec fn two_pairs<'a>(w: Seq<char>, f: spec_fn(CelValue<'a>) -> bool, x: Seq<char>, g: spec_fn(CelValue<'a>) -> bool) -> spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool { |l: Seq<(&'a str, CelValue<'a>)>| l.len() == 2 && l[0].0@ == w && f(l[0].1) && l[1].0@ == x && g(l[1].1) }
pub proof fn lemma_two_pairs<'a>(s: Seq<char>, t: Seq<char>, rest: Seq<char>, w: Seq<char>, f: spec_fn(CelValue<'a>) -> bool, x: Seq<char>, g: spec_fn(CelValue<'a>) -> bool)
    requires gets_pair(s, one(',') + t, w, f), gets_pair(t, one('}') + rest, x, g) ensures gets_pairs(s, one('}') + rest, two_pairs(w, f, x, g))
{
    lemma_head(seq![], '}', rest); lemma_head(seq![], ',', t);
    assert forall|o: Ans<Seq<(&'a str, CelValue<'a>)>>| #[trigger] pairs(s, o) implies o is Got && o->Got_0 == one('}') + rest && two_pairs(w, f, x, g)(o->Got_1) by {
        let p = choose|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] mark(p) && pair(s, p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, seq![x], o) };
        assert(pair(s, p));
        let u = one(',') + t;
        let acc = seq![p->Got_1];
        assert(more_pairs(u, acc, o));
        let q = choose|q: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(q)] mark(q) && pair(past(u), q) && match q { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(u, acc), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < u.len() && more_pairs(t, acc.push(x), o) };
        assert(pair(t, q));
        assert(more_pairs(one('}') + rest, acc.push(q->Got_1), o));
    }
}
pub open spec fn one_val<'a>(f: spec_fn(CelValue<'a>) -> bool) -> spec_fn(Seq<CelValue<'a>>) -> bool { |l: Seq<CelValue<'a>>| l.len() == 1 && f(l[0]) }
pub proof fn lemma_one_val<'a>(s: Seq<char>, rest: Seq<char>, f: spec_fn(CelValue<'a>) -> bool)
    requires gets(s, one(')') + rest, f) ensures gets_vals(s, one(')') + rest, one_val(f))
{
    lemma_head(seq![], ')', rest);
    assert forall|o: Ans<Seq<CelValue<'a>>>| #[trigger] vals(s, o) implies o is Got && o->Got_0 == one(')') + rest && one_val(f)(o->Got_1) by {
        let p = choose|p: Ans<CelValue<'a>>| #![trigger mark(p)] mark(p) && val(s, p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, seq![x], o) };
        assert(val(s, p));
    }
}
// ---- a list of quoted names
pub open spec fn tail_t(n: Seq<Seq<char>>, rest: Seq<char>) -> Seq<char> decreases n.len() { if n.len() == 0 { rest } else { one(',') + (one('"') + n[0] + one('"') + tail_t(n.skip(1), rest)) } }
pub open spec fn list_t(n: Seq<Seq<char>>, rest: Seq<char>) -> Seq<char> { if n.len() == 0 { rest } else { one('"') + n[0] + one('"') + tail_t(n.skip(1), rest) } }
pub open spec fn all_plain(n: Seq<Seq<char>>) -> bool { forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> plains(n[i]) }
pub open spec fn are_texts<'a>(l: Seq<CelValue<'a>>, n: Seq<Seq<char>>) -> bool { l.len() == n.len() && forall|i: int| #![trigger l[i]] #![trigger n[i]] 0 <= i < n.len() ==> l[i] is String && l[i]->String_0@ == n[i] }
pub open spec fn texts<'a>(n: Seq<Seq<char>>) -> spec_fn(Seq<CelValue<'a>>) -> bool { |l: Seq<CelValue<'a>>| are_texts(l, n) }
pub proof fn lemma_tail_vals<'a>(m: Seq<Seq<char>>, n: Seq<Seq<char>>, rest: Seq<char>, acc: Seq<CelValue<'a>>, o: Ans<Seq<CelValue<'a>>>)
    requires all_plain(n), are_texts(acc, m), more_vals(tail_t(n, one(']') + rest), acc, o) ensures o is Got, o->Got_0 == one(']') + rest, are_texts(o->Got_1, m + n) decreases n.len()
{
    let end = one(']') + rest;
    let s = tail_t(n, end);
    lemma_head(seq![], ']', rest);
    if n.len() == 0 { assert(m + n =~= m); } else {
        let t = tail_t(n.skip(1), end);
        let v = one('"') + n[0] + one('"') + t;
        lemma_head(seq![], ',', v); lemma_text(n[0], t);
        let p = choose|p: Ans<CelValue<'a>>| #![trigger mark(p)] mark(p) && val(past(s), p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, acc), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, acc.push(x), o) };
        assert(val(v, p));
        assert forall|i: int| #![trigger n.skip(1)[i]] 0 <= i < n.len() - 1 implies plains(n.skip(1)[i]) by { assert(n.skip(1)[i] == n[i + 1]); }
        lemma_tail_vals(m.push(n[0]), n.skip(1), rest, acc.push(p->Got_1), o);
        assert(m.push(n[0]) + n.skip(1) =~= m + n);
    }
}
pub proof fn lemma_list<'a>(n: Seq<Seq<char>>, rest: Seq<char>)
    requires all_plain(n) ensures gets_vals(list_t(n, one(']') + rest), one(']') + rest, texts::<'a>(n))
{
    let end = one(']') + rest;
    let s = list_t(n, end);
    lemma_head(seq![], ']', rest); assert(end.skip(0) =~= end); assert(seq![] + one(']') + rest =~= end);
    assert forall|o: Ans<Seq<CelValue<'a>>>| #[trigger] vals(s, o) implies o is Got && o->Got_0 == end && texts::<'a>(n)(o->Got_1) by {
        let p = choose|p: Ans<CelValue<'a>>| #![trigger mark(p)] mark(p) && val(s, p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, seq![x], o) };
        assert(val(s, p));
        if n.len() > 0 {
            let t = tail_t(n.skip(1), end);
            lemma_text(n[0], t);
            assert forall|i: int| #![trigger n.skip(1)[i]] 0 <= i < n.len() - 1 implies plains(n.skip(1)[i]) by { assert(n.skip(1)[i] == n[i + 1]); }
            lemma_tail_vals(seq![n[0]], n.skip(1), rest, seq![p->Got_1], o);
            assert(seq![n[0]] + n.skip(1) =~= n);
        }
    }
}
pub proof fn lemma_tail_push(n: Seq<Seq<char>>, x: Seq<char>, rest: Seq<char>) ensures tail_t(n.push(x), rest) == tail_t(n, one(',') + (one('"') + x + one('"') + rest)) decreases n.len()
{
    if n.len() > 0 { lemma_tail_push(n.skip(1), x, rest); assert(n.push(x).skip(1) =~= n.skip(1).push(x)); assert(n.push(x)[0] == n[0]); }
    else { assert(n.push(x).skip(1) =~= n); assert(n =~= seq![]); assert(n.push(x)[0] == x); assert(tail_t(n, rest) == rest); assert(tail_t(n.push(x).skip(1), rest) == rest); }
}
pub proof fn lemma_joined(n: Seq<Seq<char>>, rest: Seq<char>) requires n.len() > 0 ensures joined(n, "\",\""@) + one('"') + rest == n[0] + one('"') + tail_t(n.skip(1), rest) decreases n.len()
{
    reveal_strlit("\",\"");
    if n.len() == 1 { assert(n.skip(1) =~= seq![]); } else {
        let d = n.drop_last();
        let x = n.last();
        let r = one(',') + (one('"') + x + one('"') + rest);
        lemma_joined(d, r);
        lemma_tail_push(d.skip(1), x, rest);
        assert(n.skip(1) =~= d.skip(1).push(x));
        assert("\",\""@ =~= one('"') + one(',') + one('"'));
        assert(joined(n, "\",\""@) + one('"') + rest =~= joined(d, "\",\""@) + one('"') + r);
    }
}
pub proof fn lemma_quoted(l: Seq<&str>, rest: Seq<char>) ensures quoted(l) + rest == list_t(strs(l), rest)
{
    lemma_texts();
    if l.len() > 0 { lemma_joined(strs(l), rest); assert(quoted(l) + rest =~= one('"') + (joined(strs(l), "\",\""@) + one('"') + rest)); assert(list_t(strs(l), rest) =~= one('"') + (strs(l)[0] + one('"') + tail_t(strs(l).skip(1), rest))); }
    else { assert(quoted(l) + rest =~= rest); }
}
// ---- the whole expression
pub open spec fn kv_t(w: Seq<char>, v: Seq<char>) -> Seq<char> { w + one(':') + v }
pub open spec fn ob_t(w: Seq<char>, body: Seq<char>) -> Seq<char> { w + one('{') + body }
pub open spec fn kind(included: bool) -> Seq<char> { if included { "certified_response_headers"@ } else { "response_header_exclusions"@ } }
pub open spec fn names_list(c: DefaultResponseCertificationType) -> Seq<&str> { match c { DefaultResponseCertificationType::CertifiedResponseHeaders(l) => cv(l), DefaultResponseCertificationType::ResponseHeaderExclusions(l) => cv(l) } }
pub open spec fn arr_t(l: Seq<&str>, rest: Seq<char>) -> Seq<char> { one('[') + list_t(strs(l), one(']') + rest) }
pub open spec fn resp_t(c: DefaultResponseCertificationType, rest: Seq<char>) -> Seq<char> {
    kv_t("response_certification"@, ob_t("ResponseCertification"@, kv_t(kind(c is CertifiedResponseHeaders), ob_t("ResponseHeaderList"@, kv_t("headers"@, arr_t(names_list(c), one('}') + (one('}') + rest)))))))
}
pub open spec fn req_t(c: DefaultRequestCertification, rest: Seq<char>) -> Seq<char> {
    kv_t("request_certification"@, ob_t("RequestCertification"@, kv_t("certified_request_headers"@, arr_t(cv(c.headers), one(',') + kv_t("certified_query_parameters"@, arr_t(cv(c.query_parameters), one('}') + rest))))))
}
pub open spec fn no_req_t(rest: Seq<char>) -> Seq<char> { kv_t("no_request_certification"@, ob_t("Empty"@, one('}') + rest)) }
pub open spec fn ends() -> Seq<char> { one('}') + (one(')') + seq![]) }
pub open spec fn args_t(body: Seq<char>) -> Seq<char> { "default_certification"@ + one('(') + ob_t("ValidationArgs"@, body) }
pub open spec fn cert_t(body: Seq<char>) -> Seq<char> { args_t(kv_t("certification"@, ob_t("Certification"@, body))) }
pub open spec fn cel_t(e: DefaultCelExpression) -> Seq<char> {
    match e {
        DefaultCelExpression::Skip => args_t(kv_t("no_certification"@, ob_t("Empty"@, one('}') + ends()))),
        DefaultCelExpression::ResponseOnly(x) => cert_t(no_req_t(one(',') + resp_t(x.response.0, one('}') + ends()))),
        DefaultCelExpression::Full(x) => cert_t(req_t(x.request, one(',') + resp_t(x.response.0, one('}') + ends()))),
    }
}
pub proof fn lemma_resp_t(c: DefaultResponseCertificationType, rest: Seq<char>) ensures resp_text(c) + rest == resp_t(c, rest)
{
    reveal_strlit("response_certification:ResponseCertification{"); reveal_strlit(":ResponseHeaderList{headers:["); reveal_strlit("]}}");
    reveal_strlit("response_certification"); reveal_strlit("ResponseCertification"); reveal_strlit("ResponseHeaderList"); reveal_strlit("headers");
    let e = one('}') + (one('}') + rest);
    lemma_quoted(names_list(c), one(']') + e);
    assert("response_certification:ResponseCertification{"@ =~= "response_certification"@ + one(':') + "ResponseCertification"@ + one('{'));
    assert(":ResponseHeaderList{headers:["@ =~= one(':') + "ResponseHeaderList"@ + one('{') + "headers"@ + one(':') + one('['));
    assert("]}}"@ =~= one(']') + one('}') + one('}'));
    assert(resp_text(c) + rest =~= resp_t(c, rest)) by {
        assert(quoted(names_list(c)) + (one(']') + e) == list_t(strs(names_list(c)), one(']') + e));
        assert(resp_text(c) + rest =~= "response_certification"@ + one(':') + "ResponseCertification"@ + one('{') + kind(c is CertifiedResponseHeaders) + one(':') + "ResponseHeaderList"@ + one('{') + "headers"@ + one(':') + one('[') + (quoted(names_list(c)) + (one(']') + e)));
        assert(resp_t(c, rest) =~= "response_certification"@ + one(':') + "ResponseCertification"@ + one('{') + kind(c is CertifiedResponseHeaders) + one(':') + "ResponseHeaderList"@ + one('{') + "headers"@ + one(':') + one('[') + list_t(strs(names_list(c)), one(']') + e));
    }
}
pub proof fn lemma_req_t(c: DefaultRequestCertification, rest: Seq<char>) ensures req_text(c) + rest == req_t(c, one(',') + rest)
{
    reveal_strlit("request_certification:RequestCertification{certified_request_headers:["); reveal_strlit("],certified_query_parameters:["); reveal_strlit("]},");
    reveal_strlit("request_certification"); reveal_strlit("RequestCertification"); reveal_strlit("certified_request_headers"); reveal_strlit("certified_query_parameters");
    let e = one('}') + (one(',') + rest);
    let q = cv(c.query_parameters);
    let h = cv(c.headers);
    let f = one(',') + kv_t("certified_query_parameters"@, arr_t(q, e));
    lemma_quoted(q, one(']') + e); lemma_quoted(h, one(']') + f);
    assert("request_certification:RequestCertification{certified_request_headers:["@ =~= "request_certification"@ + one(':') + "RequestCertification"@ + one('{') + "certified_request_headers"@ + one(':') + one('['));
    assert("],certified_query_parameters:["@ =~= one(']') + one(',') + "certified_query_parameters"@ + one(':') + one('['));
    assert("]},"@ =~= one(']') + one('}') + one(','));
    assert("],certified_query_parameters:["@ + quoted(q) + "]},"@ + rest =~= one(']') + f) by {
        assert(f =~= one(',') + "certified_query_parameters"@ + one(':') + one('[') + list_t(strs(q), one(']') + e));
        assert("],certified_query_parameters:["@ + quoted(q) + "]},"@ + rest =~= one(']') + one(',') + "certified_query_parameters"@ + one(':') + one('[') + (quoted(q) + (one(']') + e)));
    }
    assert(req_text(c) + rest =~= "request_certification"@ + one(':') + "RequestCertification"@ + one('{') + "certified_request_headers"@ + one(':') + one('[') + (quoted(h) + ("],certified_query_parameters:["@ + quoted(q) + "]},"@ + rest)));
    assert(req_t(c, one(',') + rest) =~= "request_certification"@ + one(':') + "RequestCertification"@ + one('{') + "certified_request_headers"@ + one(':') + one('[') + list_t(strs(h), one(']') + f));
}
pub proof fn lemma_cel_t(e: DefaultCelExpression) ensures cel_text(e) == cel_t(e)
{
    reveal_strlit("default_certification(ValidationArgs{"); reveal_strlit("default_certification"); reveal_strlit("ValidationArgs"); reveal_strlit("certification:Certification{"); reveal_strlit("certification"); reveal_strlit("Certification");
    reveal_strlit("no_request_certification:Empty{},"); reveal_strlit("no_request_certification"); reveal_strlit("Empty"); reveal_strlit("no_certification:Empty{}"); reveal_strlit("no_certification"); reveal_strlit("}})"); reveal_strlit("})");
    lemma_texts();
    assert("default_certification(ValidationArgs{"@ =~= "default_certification"@ + one('(') + "ValidationArgs"@ + one('{'));
    assert("certification:Certification{"@ =~= "certification"@ + one(':') + "Certification"@ + one('{'));
    assert("no_request_certification:Empty{},"@ =~= "no_request_certification"@ + one(':') + "Empty"@ + one('{') + one('}') + one(','));
    assert("no_certification:Empty{}"@ =~= "no_certification"@ + one(':') + "Empty"@ + one('{') + one('}'));
    assert("}})"@ =~= one('}') + ends()); assert("})"@ =~= ends());
    match e {
        DefaultCelExpression::Skip => { assert(cel_text(e) =~= cel_t(e)); }
        DefaultCelExpression::ResponseOnly(x) => {
            lemma_resp_t(x.response.0, one('}') + ends());
            assert(cel_text(e) =~= "default_certification(ValidationArgs{"@ + "certification:Certification{"@ + "no_request_certification:Empty{},"@ + (resp_text(x.response.0) + (one('}') + ends())));
            assert(cel_t(e) =~= "default_certification(ValidationArgs{"@ + "certification:Certification{"@ + "no_request_certification:Empty{},"@ + resp_t(x.response.0, one('}') + ends()));
        }
        DefaultCelExpression::Full(x) => {
            lemma_resp_t(x.response.0, one('}') + ends());
            let r = resp_text(x.response.0) + (one('}') + ends());
            lemma_req_t(x.request, r);
            assert(cel_text(e) =~= "default_certification(ValidationArgs{"@ + "certification:Certification{"@ + (req_text(x.request) + r));
            assert(cel_t(e) =~= "default_certification(ValidationArgs{"@ + "certification:Certification{"@ + req_t(x.request, one(',') + r));
        }
    }
}
// ---- depth
/// Reading s outside of texts opens at most d brackets.
pub open spec fn loose(s: Seq<char>, d: int) -> bool { forall|a: Scan| !a.text && !a.esc && a.depth >= 0 ==> !(#[trigger] scan(a, s)).text && !scan(a, s).esc && 0 <= scan(a, s).depth <= a.depth + d && scan(a, s).max <= (if a.max < a.depth + d { a.depth + d } else { a.max }) }
pub proof fn lemma_scan_cat(a: Scan, s: Seq<char>, t: Seq<char>) ensures scan(a, s + t) == scan(scan(a, s), t) decreases t.len()
{ if t.len() > 0 { lemma_scan_cat(a, s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); } else { assert(s + t =~= s); } }
pub proof fn lemma_loose_cat(s: Seq<char>, c: int, t: Seq<char>, d: int) requires loose(s, c), loose(t, d), c >= 0, d >= 0 ensures loose(s + t, c + d)
{ assert forall|a: Scan| !a.text && !a.esc && a.depth >= 0 implies !(#[trigger] scan(a, s + t)).text && !scan(a, s + t).esc && 0 <= scan(a, s + t).depth <= a.depth + c + d && scan(a, s + t).max <= (if a.max < a.depth + c + d { a.depth + c + d } else { a.max }) by { lemma_scan_cat(a, s, t); let b = scan(a, s); assert(!b.text); assert(!scan(b, t).text); } }
pub open spec fn sober(c: char) -> bool { c != '"' && c != '(' && c != '[' && c != '{' && c != '\\' && c != ')' && c != ']' && c != '}' }
pub proof fn lemma_scan_word(a: Scan, s: Seq<char>) requires !a.esc, !a.text, forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> sober(s[i]) ensures scan(a, s) == a decreases s.len()
{ if s.len() > 0 { assert forall|i: int| #![trigger s.drop_last()[i]] 0 <= i < s.len() - 1 implies sober(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lemma_scan_word(a, s.drop_last()); } }
pub proof fn lemma_scan_plain(a: Scan, s: Seq<char>) requires !a.esc, a.text, plains(s) ensures scan(a, s) == a decreases s.len()
{ if s.len() > 0 { assert forall|i: int| #![trigger s.drop_last()[i]] 0 <= i < s.len() - 1 implies plain(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lemma_scan_plain(a, s.drop_last()); } }
pub proof fn lemma_scan_one(a: Scan, c: char) ensures scan(a, one(c)) == step(a, c) { assert(one(c).drop_last() =~= seq![]); assert(one(c).last() == c); assert(scan(a, seq![]) == a); }
pub proof fn lemma_loose_word(w: Seq<char>) requires words(w) ensures loose(w, 0)
{
    lemma_all_words(w);
    assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies sober(w[i]) by { assert(word(w[i])); }
    assert forall|a: Scan| !a.text && !a.esc && a.depth >= 0 implies #[trigger] scan(a, w) == a by { lemma_scan_word(a, w); }
}
pub proof fn lemma_loose_one(c: char) requires c != '"', c != '\\' ensures loose(one(c), if c == '(' || c == '[' || c == '{' { 1int } else { 0 })
{ assert forall|a: Scan| #[trigger] scan(a, one(c)) == step(a, c) by { lemma_scan_one(a, c); } }
pub proof fn lemma_loose_after(w: Seq<char>, c: char, s: Seq<char>, d: int) requires words(w), c != '"', c != '\\', loose(s, d), d >= 0 ensures loose(w + one(c) + s, d + 1), (c != '(' && c != '[' && c != '{') ==> loose(w + one(c) + s, d)
{
    lemma_loose_word(w); lemma_loose_one(c);
    let k = if c == '(' || c == '[' || c == '{' { 1int } else { 0 };
    lemma_loose_cat(w, 0, one(c), k); lemma_loose_cat(w + one(c), k, s, d);
}
pub proof fn lemma_loose_char(c: char, s: Seq<char>, d: int) requires c != '"', c != '\\', loose(s, d), d >= 0 ensures loose(one(c) + s, d + 1), (c != '(' && c != '[' && c != '{') ==> loose(one(c) + s, d)
{ lemma_loose_after(seq![], c, s, d); assert(seq![] + one(c) + s =~= one(c) + s); }
pub proof fn lemma_loose_text(x: Seq<char>, s: Seq<char>, d: int) requires plains(x), loose(s, d), d >= 0 ensures loose(one('"') + x + one('"') + s, d)
{
    let t = one('"') + x + one('"');
    assert forall|a: Scan| !a.text && !a.esc && a.depth >= 0 implies #[trigger] scan(a, t) == a by {
        lemma_scan_cat(a, one('"') + x, one('"')); lemma_scan_cat(a, one('"'), x); lemma_scan_one(a, '"');
        let b = scan(a, one('"')); lemma_scan_plain(b, x); lemma_scan_one(b, '"');
    }
    lemma_loose_cat(t, 0, s, d);
}
pub proof fn lemma_loose_tail(n: Seq<Seq<char>>, s: Seq<char>, d: int) requires all_plain(n), loose(s, d), d >= 0 ensures loose(tail_t(n, s), d) decreases n.len()
{
    if n.len() > 0 {
        assert forall|i: int| #![trigger n.skip(1)[i]] 0 <= i < n.len() - 1 implies plains(n.skip(1)[i]) by { assert(n.skip(1)[i] == n[i + 1]); }
        lemma_loose_tail(n.skip(1), s, d); lemma_loose_text(n[0], tail_t(n.skip(1), s), d); lemma_loose_char(',', one('"') + n[0] + one('"') + tail_t(n.skip(1), s), d);
    }
}
pub proof fn lemma_loose_arr(l: Seq<&str>, s: Seq<char>, d: int) requires all_plain(strs(l)), loose(s, d), d >= 0 ensures loose(arr_t(l, s), d + 1)
{
    let n = strs(l);
    let e = one(']') + s;
    lemma_loose_char(']', s, d);
    if n.len() > 0 {
        assert forall|i: int| #![trigger n.skip(1)[i]] 0 <= i < n.len() - 1 implies plains(n.skip(1)[i]) by { assert(n.skip(1)[i] == n[i + 1]); }
        lemma_loose_tail(n.skip(1), e, d); lemma_loose_text(n[0], tail_t(n.skip(1), e), d);
    }
    lemma_loose_char('[', list_t(n, e), d);
}
// ---- the names are words
pub proof fn lemma_w_default_certification() ensures words("default_certification"@) { reveal_strlit("default_certification"); let s = seq!['d', 'e', 'f', 'a', 'u', 'l', 't', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("default_certification"@ =~= s); assert(words(seq!['d', 'e', 'f', 'a', 'u', 'l', 't', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_ValidationArgs() ensures words("ValidationArgs"@) { reveal_strlit("ValidationArgs"); let s = seq!['V', 'a', 'l', 'i', 'd', 'a', 't', 'i', 'o', 'n', 'A', 'r', 'g', 's']; assert("ValidationArgs"@ =~= s); assert(words(seq!['V', 'a', 'l', 'i', 'd', 'a', 't', 'i', 'o', 'n', 'A', 'r', 'g', 's'])) by (compute); }
pub proof fn lemma_w_no_certification() ensures words("no_certification"@) { reveal_strlit("no_certification"); let s = seq!['n', 'o', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("no_certification"@ =~= s); assert(words(seq!['n', 'o', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_Empty() ensures words("Empty"@) { reveal_strlit("Empty"); let s = seq!['E', 'm', 'p', 't', 'y']; assert("Empty"@ =~= s); assert(words(seq!['E', 'm', 'p', 't', 'y'])) by (compute); }
pub proof fn lemma_w_certification() ensures words("certification"@) { reveal_strlit("certification"); let s = seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("certification"@ =~= s); assert(words(seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_Certification() ensures words("Certification"@) { reveal_strlit("Certification"); let s = seq!['C', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("Certification"@ =~= s); assert(words(seq!['C', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_no_request_certification() ensures words("no_request_certification"@) { reveal_strlit("no_request_certification"); let s = seq!['n', 'o', '_', 'r', 'e', 'q', 'u', 'e', 's', 't', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("no_request_certification"@ =~= s); assert(words(seq!['n', 'o', '_', 'r', 'e', 'q', 'u', 'e', 's', 't', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_request_certification() ensures words("request_certification"@) { reveal_strlit("request_certification"); let s = seq!['r', 'e', 'q', 'u', 'e', 's', 't', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("request_certification"@ =~= s); assert(words(seq!['r', 'e', 'q', 'u', 'e', 's', 't', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_RequestCertification() ensures words("RequestCertification"@) { reveal_strlit("RequestCertification"); let s = seq!['R', 'e', 'q', 'u', 'e', 's', 't', 'C', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("RequestCertification"@ =~= s); assert(words(seq!['R', 'e', 'q', 'u', 'e', 's', 't', 'C', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_certified_request_headers() ensures words("certified_request_headers"@) { reveal_strlit("certified_request_headers"); let s = seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'e', 'd', '_', 'r', 'e', 'q', 'u', 'e', 's', 't', '_', 'h', 'e', 'a', 'd', 'e', 'r', 's']; assert("certified_request_headers"@ =~= s); assert(words(seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'e', 'd', '_', 'r', 'e', 'q', 'u', 'e', 's', 't', '_', 'h', 'e', 'a', 'd', 'e', 'r', 's'])) by (compute); }
pub proof fn lemma_w_certified_query_parameters() ensures words("certified_query_parameters"@) { reveal_strlit("certified_query_parameters"); let s = seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'e', 'd', '_', 'q', 'u', 'e', 'r', 'y', '_', 'p', 'a', 'r', 'a', 'm', 'e', 't', 'e', 'r', 's']; assert("certified_query_parameters"@ =~= s); assert(words(seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'e', 'd', '_', 'q', 'u', 'e', 'r', 'y', '_', 'p', 'a', 'r', 'a', 'm', 'e', 't', 'e', 'r', 's'])) by (compute); }
pub proof fn lemma_w_response_certification() ensures words("response_certification"@) { reveal_strlit("response_certification"); let s = seq!['r', 'e', 's', 'p', 'o', 'n', 's', 'e', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("response_certification"@ =~= s); assert(words(seq!['r', 'e', 's', 'p', 'o', 'n', 's', 'e', '_', 'c', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_ResponseCertification() ensures words("ResponseCertification"@) { reveal_strlit("ResponseCertification"); let s = seq!['R', 'e', 's', 'p', 'o', 'n', 's', 'e', 'C', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n']; assert("ResponseCertification"@ =~= s); assert(words(seq!['R', 'e', 's', 'p', 'o', 'n', 's', 'e', 'C', 'e', 'r', 't', 'i', 'f', 'i', 'c', 'a', 't', 'i', 'o', 'n'])) by (compute); }
pub proof fn lemma_w_certified_response_headers() ensures words("certified_response_headers"@) { reveal_strlit("certified_response_headers"); let s = seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'e', 'd', '_', 'r', 'e', 's', 'p', 'o', 'n', 's', 'e', '_', 'h', 'e', 'a', 'd', 'e', 'r', 's']; assert("certified_response_headers"@ =~= s); assert(words(seq!['c', 'e', 'r', 't', 'i', 'f', 'i', 'e', 'd', '_', 'r', 'e', 's', 'p', 'o', 'n', 's', 'e', '_', 'h', 'e', 'a', 'd', 'e', 'r', 's'])) by (compute); }
pub proof fn lemma_w_response_header_exclusions() ensures words("response_header_exclusions"@) { reveal_strlit("response_header_exclusions"); let s = seq!['r', 'e', 's', 'p', 'o', 'n', 's', 'e', '_', 'h', 'e', 'a', 'd', 'e', 'r', '_', 'e', 'x', 'c', 'l', 'u', 's', 'i', 'o', 'n', 's']; assert("response_header_exclusions"@ =~= s); assert(words(seq!['r', 'e', 's', 'p', 'o', 'n', 's', 'e', '_', 'h', 'e', 'a', 'd', 'e', 'r', '_', 'e', 'x', 'c', 'l', 'u', 's', 'i', 'o', 'n', 's'])) by (compute); }
pub proof fn lemma_w_ResponseHeaderList() ensures words("ResponseHeaderList"@) { reveal_strlit("ResponseHeaderList"); let s = seq!['R', 'e', 's', 'p', 'o', 'n', 's', 'e', 'H', 'e', 'a', 'd', 'e', 'r', 'L', 'i', 's', 't']; assert("ResponseHeaderList"@ =~= s); assert(words(seq!['R', 'e', 's', 'p', 'o', 'n', 's', 'e', 'H', 'e', 'a', 'd', 'e', 'r', 'L', 'i', 's', 't'])) by (compute); }
pub proof fn lemma_w_headers() ensures words("headers"@) { reveal_strlit("headers"); let s = seq!['h', 'e', 'a', 'd', 'e', 'r', 's']; assert("headers"@ =~= s); assert(words(seq!['h', 'e', 'a', 'd', 'e', 'r', 's'])) by (compute); }
pub proof fn lemma_name_words()
    ensures words("default_certification"@), words("ValidationArgs"@), words("no_certification"@), words("Empty"@), words("certification"@), words("Certification"@), words("no_request_certification"@), words("request_certification"@), words("RequestCertification"@), words("certified_request_headers"@), words("certified_query_parameters"@), words("response_certification"@), words("ResponseCertification"@), words("certified_response_headers"@), words("response_header_exclusions"@), words("ResponseHeaderList"@), words("headers"@)
{ lemma_w_default_certification(); lemma_w_ValidationArgs(); lemma_w_no_certification(); lemma_w_Empty(); lemma_w_certification(); lemma_w_Certification(); lemma_w_no_request_certification(); lemma_w_request_certification(); lemma_w_RequestCertification(); lemma_w_certified_request_headers(); lemma_w_certified_query_parameters(); lemma_w_response_certification(); lemma_w_ResponseCertification(); lemma_w_certified_response_headers(); lemma_w_response_header_exclusions(); lemma_w_ResponseHeaderList(); lemma_w_headers(); }
// ---- what each part is read as
pub open spec fn f_names<'a>(l: Seq<&str>) -> spec_fn(CelValue<'a>) -> bool { is_arr(texts(strs(l))) }
pub open spec fn f_list<'a>(l: Seq<&str>) -> spec_fn(CelValue<'a>) -> bool { is_obj("ResponseHeaderList"@, one_pair("headers"@, f_names(l))) }
pub open spec fn f_resp<'a>(c: DefaultResponseCertificationType) -> spec_fn(CelValue<'a>) -> bool { is_obj("ResponseCertification"@, one_pair(kind(c is CertifiedResponseHeaders), f_list(names_list(c)))) }
pub open spec fn f_req<'a>(c: DefaultRequestCertification) -> spec_fn(CelValue<'a>) -> bool { is_obj("RequestCertification"@, two_pairs("certified_request_headers"@, f_names(cv(c.headers)), "certified_query_parameters"@, f_names(cv(c.query_parameters)))) }
pub open spec fn f_empty<'a>() -> spec_fn(CelValue<'a>) -> bool { is_obj("Empty"@, no_pairs()) }
pub open spec fn f_args<'a>(f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool) -> spec_fn(CelValue<'a>) -> bool { is_fun("default_certification"@, one_val(is_obj("ValidationArgs"@, f))) }
pub open spec fn f_cert<'a>(f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool) -> spec_fn(CelValue<'a>) -> bool { f_args(one_pair("certification"@, is_obj("Certification"@, f))) }
pub open spec fn f_cel<'a>(e: DefaultCelExpression) -> spec_fn(CelValue<'a>) -> bool {
    match e {
        DefaultCelExpression::Skip => f_args(one_pair("no_certification"@, f_empty())),
        DefaultCelExpression::ResponseOnly(x) => f_cert(two_pairs("no_request_certification"@, f_empty(), "response_certification"@, f_resp(x.response.0))),
        DefaultCelExpression::Full(x) => f_cert(two_pairs("request_certification"@, f_req(x.request), "response_certification"@, f_resp(x.response.0))),
    }
}
/// Every name in the expression can be written between quotation marks.
pub open spec fn readable(e: DefaultCelExpression) -> bool {
    match e {
        DefaultCelExpression::Skip => true,
        DefaultCelExpression::ResponseOnly(x) => all_plain(strs(names_list(x.response.0))),
        DefaultCelExpression::Full(x) => all_plain(strs(names_list(x.response.0))) && all_plain(strs(cv(x.request.headers))) && all_plain(strs(cv(x.request.query_parameters))),
    }
}
pub proof fn lemma_arr_t<'a>(l: Seq<&str>, rest: Seq<char>) requires all_plain(strs(l)) ensures gets(arr_t(l, rest), rest, f_names(l))
{ lemma_list(strs(l), rest); lemma_arr(list_t(strs(l), one(']') + rest), rest, texts(strs(l))); }
pub proof fn lemma_resp_read<'a>(c: DefaultResponseCertificationType, rest: Seq<char>) requires all_plain(strs(names_list(c)))
    ensures gets_pair(resp_t(c, rest), rest, "response_certification"@, f_resp(c))
{
    lemma_name_words();
    let l = names_list(c);
    let r1 = one('}') + rest;
    let r2 = one('}') + r1;
    lemma_arr_t(l, r2);
    lemma_pair("headers"@, arr_t(l, r2), r2, f_names(l));
    let a = kv_t("headers"@, arr_t(l, r2));
    lemma_one_pair(a, r1, "headers"@, f_names(l));
    lemma_obj("ResponseHeaderList"@, a, r1, one_pair("headers"@, f_names(l)));
    let b = ob_t("ResponseHeaderList"@, a);
    let k = kind(c is CertifiedResponseHeaders);
    lemma_pair(k, b, r1, f_list(l));
    lemma_one_pair(kv_t(k, b), rest, k, f_list(l));
    lemma_obj("ResponseCertification"@, kv_t(k, b), rest, one_pair(k, f_list(l)));
    lemma_pair("response_certification"@, ob_t("ResponseCertification"@, kv_t(k, b)), rest, f_resp(c));
}
pub proof fn lemma_req_read<'a>(c: DefaultRequestCertification, rest: Seq<char>) requires all_plain(strs(cv(c.headers))), all_plain(strs(cv(c.query_parameters)))
    ensures gets_pair(req_t(c, rest), rest, "request_certification"@, f_req(c))
{
    lemma_name_words();
    let h = cv(c.headers);
    let q = cv(c.query_parameters);
    let r1 = one('}') + rest;
    let t = kv_t("certified_query_parameters"@, arr_t(q, r1));
    lemma_arr_t(q, r1);
    lemma_pair("certified_query_parameters"@, arr_t(q, r1), r1, f_names(q));
    let s = kv_t("certified_request_headers"@, arr_t(h, one(',') + t));
    lemma_arr_t(h, one(',') + t);
    lemma_pair("certified_request_headers"@, arr_t(h, one(',') + t), one(',') + t, f_names(h));
    lemma_two_pairs(s, t, rest, "certified_request_headers"@, f_names(h), "certified_query_parameters"@, f_names(q));
    lemma_obj("RequestCertification"@, s, rest, two_pairs("certified_request_headers"@, f_names(h), "certified_query_parameters"@, f_names(q)));
    lemma_pair("request_certification"@, ob_t("RequestCertification"@, s), rest, f_req(c));
}
pub proof fn lemma_empty_read<'a>(w: Seq<char>, rest: Seq<char>) requires words(w)
    ensures gets_pair(kv_t(w, ob_t("Empty"@, one('}') + rest)), rest, w, f_empty())
{
    lemma_name_words();
    lemma_no_pairs(rest);
    lemma_obj("Empty"@, one('}') + rest, rest, no_pairs());
    lemma_pair(w, ob_t("Empty"@, one('}') + rest), rest, f_empty());
}
pub proof fn lemma_args_read<'a>(body: Seq<char>, f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool) requires gets_pairs(body, ends(), f) ensures gets(args_t(body), seq![], f_args(f))
{
    lemma_name_words();
    let r = one(')') + seq![];
    lemma_obj("ValidationArgs"@, body, r, f);
    lemma_one_val(ob_t("ValidationArgs"@, body), seq![], is_obj("ValidationArgs"@, f));
    lemma_fun("default_certification"@, ob_t("ValidationArgs"@, body), seq![], one_val(is_obj("ValidationArgs"@, f)));
}
pub proof fn lemma_cert_read<'a>(body: Seq<char>, f: spec_fn(Seq<(&'a str, CelValue<'a>)>) -> bool) requires gets_pairs(body, one('}') + ends(), f) ensures gets(cert_t(body), seq![], f_cert(f))
{
    lemma_name_words();
    lemma_obj("Certification"@, body, ends(), f);
    let b = ob_t("Certification"@, body);
    lemma_pair("certification"@, b, ends(), is_obj("Certification"@, f));
    lemma_one_pair(kv_t("certification"@, b), one(')') + seq![], "certification"@, is_obj("Certification"@, f));
    lemma_args_read(kv_t("certification"@, b), one_pair("certification"@, is_obj("Certification"@, f)));
}
pub proof fn lemma_cel_read<'a>(e: DefaultCelExpression) requires readable(e) ensures gets(cel_t(e), seq![], f_cel(e))
{
    lemma_name_words();
    let z = one('}') + ends();
    match e {
        DefaultCelExpression::Skip => {
            lemma_empty_read("no_certification"@, ends());
            let b = kv_t("no_certification"@, ob_t("Empty"@, one('}') + ends()));
            lemma_empty_read("no_certification"@, ends());
            lemma_one_pair(b, one(')') + seq![], "no_certification"@, f_empty());
            lemma_args_read(b, one_pair("no_certification"@, f_empty()));
        }
        DefaultCelExpression::ResponseOnly(x) => {
            let t = resp_t(x.response.0, z);
            lemma_resp_read(x.response.0, z);
            lemma_empty_read("no_request_certification"@, one(',') + t);
            let s = no_req_t(one(',') + t);
            lemma_two_pairs(s, t, ends(), "no_request_certification"@, f_empty(), "response_certification"@, f_resp(x.response.0));
            lemma_cert_read(s, two_pairs("no_request_certification"@, f_empty(), "response_certification"@, f_resp(x.response.0)));
        }
        DefaultCelExpression::Full(x) => {
            let t = resp_t(x.response.0, z);
            lemma_resp_read(x.response.0, z);
            lemma_req_read(x.request, one(',') + t);
            let s = req_t(x.request, one(',') + t);
            lemma_two_pairs(s, t, ends(), "request_certification"@, f_req(x.request), "response_certification"@, f_resp(x.response.0));
            lemma_cert_read(s, two_pairs("request_certification"@, f_req(x.request), "response_certification"@, f_resp(x.response.0)));
        }
    }
}
// ---- which is the certification that was written
pub proof fn lemma_names_stated<'a>(v: CelValue<'a>, l: Seq<&str>) requires f_names(l)(v) ensures strings_in(v) == Some(strs(l))
{ let a = v->Array_0@; assert(are_texts(a, strs(l))); assert(a.map_values(|x: CelValue| x->String_0@) =~= strs(l)); }
pub proof fn lemma_entry1<'a, V>(m: Seq<(&'a str, V)>, k: Seq<char>) requires m.len() == 1 ensures entry(m, k) == if m[0].0@ == k { Some(m[0].1) } else { None } { reveal_with_fuel(entry, 2); assert(m.drop_last() =~= seq![]); }
pub proof fn lemma_entry2<'a, V>(m: Seq<(&'a str, V)>, k: Seq<char>) requires m.len() == 2 ensures entry(m, k) == if m[1].0@ == k { Some(m[1].1) } else if m[0].0@ == k { Some(m[0].1) } else { None } { lemma_entry1(m.drop_last(), k); }
pub proof fn lemma_kinds() ensures "certified_response_headers"@ != "response_header_exclusions"@, "no_certification"@ != "certification"@, "no_request_certification"@ != "request_certification"@, "no_request_certification"@ != "response_certification"@, "request_certification"@ != "response_certification"@, "certified_request_headers"@ != "certified_query_parameters"@
{
    reveal_strlit("certified_response_headers"); reveal_strlit("response_header_exclusions"); reveal_strlit("no_certification"); reveal_strlit("certification"); reveal_strlit("no_request_certification"); reveal_strlit("request_certification"); reveal_strlit("response_certification"); reveal_strlit("certified_request_headers"); reveal_strlit("certified_query_parameters");
    assert("certified_response_headers"@[0] != "response_header_exclusions"@[0]); 
    assert("no_certification"@.len() != "certification"@.len()); assert("no_request_certification"@.len() != "request_certification"@.len()); assert("no_request_certification"@.len() != "response_certification"@.len());
    assert("request_certification"@.len() != "response_certification"@.len()); assert("certified_request_headers"@.len() != "certified_query_parameters"@.len());
}
pub proof fn lemma_resp_stated<'a>(v: CelValue<'a>, c: DefaultResponseCertificationType) requires f_resp(c)(v)
    ensures forall|m: Seq<(&str, CelValue)>| entry(m, "response_certification"@) == Some(v) ==> #[trigger] resp_part(m) == Some(names_of(c))
{
    lemma_kinds();
    let o = v->Object_1.e@;
    lemma_entry1(o, "certified_response_headers"@); lemma_entry1(o, "response_header_exclusions"@);
    let w = o[0].1;
    assert(f_list(names_list(c))(w));
    let p = w->Object_1.e@;
    lemma_entry1(p, "headers"@);
    lemma_names_stated(p[0].1, names_list(c));
}
pub proof fn lemma_req_stated<'a>(v: CelValue<'a>, c: DefaultRequestCertification) requires f_req(c)(v)
    ensures forall|m: Seq<(&str, CelValue)>| entry(m, "request_certification"@) == Some(v) && entry(m, "no_request_certification"@) is None ==> #[trigger] req_part(m) == Part::Is((strs(cv(c.headers)), strs(cv(c.query_parameters))))
{
    lemma_kinds();
    let o = v->Object_1.e@;
    lemma_entry2(o, "certified_request_headers"@); lemma_entry2(o, "certified_query_parameters"@);
    lemma_names_stated(o[0].1, cv(c.headers)); lemma_names_stated(o[1].1, cv(c.query_parameters));
}
pub proof fn lemma_stated<'a>(v: CelValue<'a>, e: DefaultCelExpression) requires f_cel(e)(v) ensures stated(v) == Some(cert_of(CelExpression::Default(e)))
{
    lemma_kinds();
    let a = v->Function_1@[0];
    let o = a->Object_1.e@;
    lemma_entry1(o, "no_certification"@); lemma_entry1(o, "certification"@);
    match e {
        DefaultCelExpression::Skip => {}
        DefaultCelExpression::ResponseOnly(x) => {
            let m = o[0].1->Object_1.e@;
            lemma_entry2(m, "no_request_certification"@); lemma_entry2(m, "request_certification"@); lemma_entry2(m, "response_certification"@);
            lemma_resp_stated(m[1].1, x.response.0);
            assert(resp_part(m) == Some(names_of(x.response.0)));
            assert(req_part(m) is Missing);
        }
        DefaultCelExpression::Full(x) => {
            let m = o[0].1->Object_1.e@;
            lemma_entry2(m, "no_request_certification"@); lemma_entry2(m, "request_certification"@); lemma_entry2(m, "response_certification"@);
            lemma_resp_stated(m[1].1, x.response.0);
            lemma_req_stated(m[0].1, x.request);
            assert(resp_part(m) == Some(names_of(x.response.0)));
            assert(req_part(m) == Part::Is((strs(cv(x.request.headers)), strs(cv(x.request.query_parameters)))));
        }
    }
}
// ---- and is not nested too deeply
pub proof fn lemma_loose_resp(c: DefaultResponseCertificationType, rest: Seq<char>, d: int) requires all_plain(strs(names_list(c))), loose(rest, d), d >= 0 ensures loose(resp_t(c, rest), d + 3)
{
    lemma_name_words();
    let l = names_list(c);
    let r1 = one('}') + rest;
    lemma_loose_char('}', rest, d); lemma_loose_char('}', r1, d);
    lemma_loose_arr(l, one('}') + r1, d);
    let a = kv_t("headers"@, arr_t(l, one('}') + r1));
    lemma_loose_after("headers"@, ':', arr_t(l, one('}') + r1), d + 1);
    lemma_loose_after("ResponseHeaderList"@, '{', a, d + 1);
    let k = kind(c is CertifiedResponseHeaders);
    lemma_loose_after(k, ':', ob_t("ResponseHeaderList"@, a), d + 2);
    lemma_loose_after("ResponseCertification"@, '{', kv_t(k, ob_t("ResponseHeaderList"@, a)), d + 2);
    lemma_loose_after("response_certification"@, ':', ob_t("ResponseCertification"@, kv_t(k, ob_t("ResponseHeaderList"@, a))), d + 3);
}
pub proof fn lemma_loose_req(c: DefaultRequestCertification, rest: Seq<char>, d: int) requires all_plain(strs(cv(c.headers))), all_plain(strs(cv(c.query_parameters))), loose(rest, d), d >= 0 ensures loose(req_t(c, rest), d + 3)
{
    lemma_name_words();
    let h = cv(c.headers);
    let q = cv(c.query_parameters);
    let r1 = one('}') + rest;
    lemma_loose_char('}', rest, d);
    let t = kv_t("certified_query_parameters"@, arr_t(q, r1));
    lemma_loose_arr(q, r1, d); lemma_loose_after("certified_query_parameters"@, ':', arr_t(q, r1), d + 1);
    lemma_loose_char(',', t, d + 1);
    lemma_loose_arr(h, one(',') + t, d + 1); lemma_loose_after("certified_request_headers"@, ':', arr_t(h, one(',') + t), d + 2);
    let s = kv_t("certified_request_headers"@, arr_t(h, one(',') + t));
    lemma_loose_after("RequestCertification"@, '{', s, d + 2); lemma_loose_after("request_certification"@, ':', ob_t("RequestCertification"@, s), d + 3);
}
pub proof fn lemma_loose_empty(w: Seq<char>, rest: Seq<char>, d: int) requires words(w), loose(rest, d), d >= 0 ensures loose(kv_t(w, ob_t("Empty"@, one('}') + rest)), d + 1)
{ lemma_name_words(); lemma_loose_char('}', rest, d); lemma_loose_after("Empty"@, '{', one('}') + rest, d); lemma_loose_after(w, ':', ob_t("Empty"@, one('}') + rest), d + 1); }
pub proof fn lemma_loose_args(body: Seq<char>, d: int) requires loose(body, d), d >= 0 ensures loose(args_t(body), d + 2)
{
    lemma_name_words();
    let b = ob_t("ValidationArgs"@, body);
    lemma_loose_after("ValidationArgs"@, '{', body, d);
    lemma_loose_after("default_certification"@, '(', b, d + 1);
}
pub proof fn lemma_loose_cert(body: Seq<char>, d: int) requires loose(body, d), d >= 0 ensures loose(cert_t(body), d + 3)
{
    lemma_name_words();
    lemma_loose_after("Certification"@, '{', body, d);
    lemma_loose_after("certification"@, ':', ob_t("Certification"@, body), d + 1);
    lemma_loose_args(kv_t("certification"@, ob_t("Certification"@, body)), d + 1);
}
pub proof fn lemma_depth(e: DefaultCelExpression) requires readable(e) ensures nesting(cel_text(e)) <= 9
{
    lemma_cel_t(e); lemma_name_words();
    let z = one('}') + ends();
    assert(loose(seq![], 0)); lemma_loose_char(')', seq![], 0); lemma_loose_char('}', one(')') + seq![], 0); lemma_loose_char('}', ends(), 0);
    assert forall|d: int, s: Seq<char>| #[trigger] loose(s, d) && d <= 9 implies scan(start(), s).max <= 9 by {}
    match e {
        DefaultCelExpression::Skip => { lemma_loose_empty("no_certification"@, ends(), 0); lemma_loose_args(kv_t("no_certification"@, ob_t("Empty"@, one('}') + ends())), 1); assert(loose(cel_t(e), 3)); }
        DefaultCelExpression::ResponseOnly(x) => {
            let t = resp_t(x.response.0, z);
            lemma_loose_resp(x.response.0, z, 0); lemma_loose_char(',', t, 3);
            lemma_loose_empty("no_request_certification"@, one(',') + t, 3); lemma_loose_cert(no_req_t(one(',') + t), 4); assert(loose(cel_t(e), 7));
        }
        DefaultCelExpression::Full(x) => {
            let t = resp_t(x.response.0, z);
            lemma_loose_resp(x.response.0, z, 0); lemma_loose_char(',', t, 3);
            lemma_loose_req(x.request, one(',') + t, 3); lemma_loose_cert(req_t(x.request, one(',') + t), 6); assert(loose(cel_t(e), 9));
        }
    }
}
/// What an expression says is read back from its text: for every expression whose names need no escape.
pub proof fn lemma_read_back<'a>(e: DefaultCelExpression, o: Ans<CelValue<'a>>) requires readable(e), val(cel_text(e), o)
    ensures o is Got, o->Got_0.len() == 0, stated(o->Got_1) == Some(cert_of(CelExpression::Default(e))), nesting(cel_text(e)) <= 9
{ lemma_cel_t(e); lemma_cel_read(e); lemma_stated(o->Got_1, e); lemma_depth(e); }
/// The one whole value that is written in s, apart from blanks behind it; None if there is none.
pub open spec fn whole<'a>(s: Seq<char>, v: CelValue<'a>) -> bool { exists|o: Ans<CelValue<'a>>| #[trigger] val(s, o) && o is Got && o->Got_1 == v && trimmed(o->Got_0, 1).len() == 0 }
pub open spec fn not_whole<'a>(s: Seq<char>) -> bool { exists|o: Ans<CelValue<'a>>| #[trigger] val(s, o) && (o is Got ==> trimmed(o->Got_0, 1).len() > 0) }
//@lemmaprops lemma_read_back C16
//@fn parse_cel_expression C16
//@ret r
//@opt fmt
//@spec
    ensures match r { Ok(v) => nesting(i@) <= 32 && whole(i@, v), Err(_) => nesting(i@) > 32 || not_whole(i@) },
        forall|e: DefaultCelExpression| readable(e) && i@ == #[trigger] cel_text(e) ==> r is Ok && stated(r->Ok_0) == Some(cert_of(CelExpression::Default(e)))
//@entry
    broadcast use ax_trim_empty;
    proof { assert forall|e: DefaultCelExpression| readable(e) && i@ == #[trigger] cel_text(e) implies nesting(i@) <= 9 by { lemma_depth(e); } }
//@tail
    proof {
        assert forall|e: DefaultCelExpression| readable(e) && i@ == #[trigger] cel_text(e) implies r is Ok && stated(r->Ok_0) == Some(cert_of(CelExpression::Default(e))) by {
            lemma_depth(e);
            if r is Ok { let o = choose|o: Ans<CelValue<'_>>| #[trigger] val(i@, o) && o is Got && o->Got_1 == r->Ok_0 && trimmed(o->Got_0, 1).len() == 0; lemma_read_back(e, o); }
            else { let o = choose|o: Ans<CelValue<'_>>| #[trigger] val(i@, o) && (o is Got ==> trimmed(o->Got_0, 1).len() > 0); lemma_read_back(e, o); }
        }
    }
