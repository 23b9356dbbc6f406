//@gsubst `impl FnMut(&'a str) -> IResult<&'a str, O, E>` => `impl Parser<&'a str, O, E>`
//@gsubst `nom::error::Error<&str>` => `NomError`
//@derive CelParserError
//@text
pub open spec fn alnum(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 }
#[verifier::external_body] pub fn is_alphanumeric(b: u8) -> (r: bool) ensures r == alnum(b) { unimplemented!() }
pub trait HasChar { spec fn text_of(&self) -> Seq<char>; fn contains_char(&self, c: char) -> (r: bool) ensures r == self.text_of().contains(c); }
impl HasChar for str { open spec fn text_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn contains_char(&self, c: char) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn own_it<T>(v: Vec<T>) -> (r: It<T>) ensures r@ == v@ { unimplemented!() }
impl<'a, V> FromIt<(&'a str, V)> for HashMap<&'a str, V> { open spec fn collected(s: Seq<(&'a str, V)>, c: Self) -> bool { c.e@ == s } }

// ---------------------------------------------------------------- the language of expressions
pub open spec fn word(c: char) -> bool { c == '_' || alnum(c as u8) }
pub open spec fn plain(c: char) -> bool { c != '"' && c != '\\' }
pub open spec fn word_end(s: Seq<char>) -> int { run(s, |c: char| word(c)) }
pub open spec fn plain_end(s: Seq<char>) -> int { run(s, |c: char| plain(c)) }
pub open spec fn at(s: Seq<char>, c: char) -> bool { unblank(s).len() > 0 && unblank(s)[0] == c }
pub open spec fn past(s: Seq<char>) -> Seq<char> { unblank(s).skip(1) }
pub open spec fn mark<T>(p: T) -> bool { true }
pub type Ans<O> = Out<Seq<char>, O>;
/// What an opening and a closing character around something that answers p come to.
pub open spec fn shut<O>(p: Ans<O>, close: char) -> Ans<O> {
    match p { Out::Got(t, x) => if at(t, close) { Out::Got(past(t), x) } else { Out::Dead }, _ => Out::Dead }
}
pub open spec fn text_at(s: Seq<char>) -> Ans<Seq<char>> { if at(s, '"') { shut(Out::Got(past(s).skip(plain_end(past(s))), past(s).take(plain_end(past(s)))), '"') } else { Out::Miss } }
pub open spec fn then<O, P>(p: Ans<O>, o: Ans<P>, f: spec_fn(O, P) -> bool) -> bool { match p { Out::Got(t, x) => o is Got && o->Got_0 == t && f(x, o->Got_1), Out::Miss => o is Miss, Out::Dead => o is Dead } }
/// A value, from the beginning of s: an object, a call, an array or a text.
pub open spec fn val<'a>(s: Seq<char>, o: Ans<CelValue<'a>>) -> bool decreases s.len(), 2nat {
    let t = unblank(s);
    let n = word_end(t);
    let u = t.skip(n);
    if n < 0 || t.len() > s.len() || u.len() > s.len() { false }
    else if at(u, '{') && past(u).len() < s.len() { exists|p: Ans<Seq<(&'a str, CelValue<'a>)>>| #![trigger mark(p)] #![trigger pairs(past(u), p)] mark(p) && pairs(past(u), p) && then(shut(p, '}'), o, |x: Seq<(&'a str, CelValue<'a>)>, v: CelValue<'a>| v is Object && v->Object_0@ == t.take(n) && v->Object_1.e@ == x) }
    else if at(u, '(') && past(u).len() < s.len() { exists|p: Ans<Seq<CelValue<'a>>>| #![trigger mark(p)] #![trigger vals(past(u), p)] mark(p) && vals(past(u), p) && then(shut(p, ')'), o, |x: Seq<CelValue<'a>>, v: CelValue<'a>| v is Function && v->Function_0@ == t.take(n) && v->Function_1@ == x) }
    else if at(t, '[') && past(t).len() < s.len() { exists|p: Ans<Seq<CelValue<'a>>>| #![trigger mark(p)] #![trigger vals(past(t), p)] mark(p) && vals(past(t), p) && then(shut(p, ']'), o, |x: Seq<CelValue<'a>>, v: CelValue<'a>| v is Array && v->Array_0@ == x) }
    else { then(text_at(t), o, |x: Seq<char>, v: CelValue<'a>| v is String && v->String_0@ == x) }
}
pub open spec fn vals<'a>(s: Seq<char>, o: Ans<Seq<CelValue<'a>>>) -> bool decreases s.len(), 4nat {
    exists|p: Ans<CelValue<'a>>| #![trigger mark(p)] #![trigger val(s, p)] mark(p) && val(s, p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, seq![x], o) }
}
pub open spec fn more_vals<'a>(s: Seq<char>, acc: Seq<CelValue<'a>>, o: Ans<Seq<CelValue<'a>>>) -> bool decreases s.len(), 4nat {
    if at(s, ',') && past(s).len() < s.len() {
        exists|p: Ans<CelValue<'a>>| #![trigger mark(p)] #![trigger val(past(s), p)] mark(p) && val(past(s), p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, acc), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, acc.push(x), o) }
    } else { o == Ans::<Seq<CelValue<'a>>>::Got(s, acc) }
}
pub open spec fn pair<'a>(s: Seq<char>, o: Ans<(&'a str, CelValue<'a>)>) -> bool decreases s.len(), 3nat {
    let t = unblank(s);
    let n = word_end(t);
    let u = t.skip(n);
    if at(u, ':') && past(u).len() < s.len() { exists|p: Ans<CelValue<'a>>| #![trigger mark(p)] #![trigger val(past(u), p)] mark(p) && val(past(u), p) && then(p, o, |x: CelValue<'a>, v: (&'a str, CelValue<'a>)| v.0@ == t.take(n) && v.1 == x) } else { o is Miss }
}
pub open spec fn pairs<'a>(s: Seq<char>, o: Ans<Seq<(&'a str, CelValue<'a>)>>) -> bool decreases s.len(), 4nat {
    exists|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] #![trigger pair(s, p)] mark(p) && pair(s, p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, seq![x], o) }
}
pub open spec fn more_pairs<'a>(s: Seq<char>, acc: Seq<(&'a str, CelValue<'a>)>, o: Ans<Seq<(&'a str, CelValue<'a>)>>) -> bool decreases s.len(), 4nat {
    if at(s, ',') && past(s).len() < s.len() {
        exists|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] #![trigger pair(past(s), p)] mark(p) && pair(past(s), p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, acc), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, acc.push(x), o) }
    } else { o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, acc) }
}
/// The answer of the code, by the characters that are left.
pub open spec fn seen<'a, O>(o: Out<&'a str, O>) -> Ans<O> { match o { Out::Got(i, x) => Out::Got(i@, x), Out::Miss => Out::Miss, Out::Dead => Out::Dead } }
pub proof fn lemma_underscore() ensures forall|c: char| "_"@.contains(c) == (c == '_') { reveal_strlit("_"); assert("_"@ =~= seq!['_']); assert(seq!['_'][0] == '_'); }
/// val and its companions always consume something.
pub broadcast proof fn lemma_unblank(s: Seq<char>) ensures #[trigger] unblank(s).len() <= s.len(), unblank(s).len() == 0 || !blank(unblank(s)[0]) { lemma_run(s, |c: char| blank(c)); }
pub proof fn lemma_vals_shrink<'a>(s: Seq<char>, acc: Seq<CelValue<'a>>, o: Ans<Seq<CelValue<'a>>>) requires more_vals(s, acc, o), o is Got ensures o->Got_0.len() <= s.len() decreases s.len()
{
    if at(s, ',') && past(s).len() < s.len() {
        let p = choose|p: Ans<CelValue<'a>>| #![trigger mark(p)] #![trigger val(past(s), p)] mark(p) && val(past(s), p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, acc), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, acc.push(x), o) };
        match p { Out::Got(t, x) => { lemma_vals_shrink(t, acc.push(x), o); } _ => {} }
    }
}
pub proof fn lemma_pairs_shrink<'a>(s: Seq<char>, acc: Seq<(&'a str, CelValue<'a>)>, o: Ans<Seq<(&'a str, CelValue<'a>)>>) requires more_pairs(s, acc, o), o is Got ensures o->Got_0.len() <= s.len() decreases s.len()
{
    if at(s, ',') && past(s).len() < s.len() {
        let p = choose|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] #![trigger pair(past(s), p)] mark(p) && pair(past(s), p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, acc), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, acc.push(x), o) };
        match p { Out::Got(t, x) => { lemma_pairs_shrink(t, acc.push(x), o); } _ => {} }
    }
}
pub broadcast proof fn lemma_vals_within<'a>(s: Seq<char>, o: Ans<Seq<CelValue<'a>>>) requires #[trigger] vals(s, o), o is Got ensures o->Got_0.len() <= s.len()
{
    let p = choose|p: Ans<CelValue<'a>>| #![trigger mark(p)] #![trigger val(s, p)] mark(p) && val(s, p) && match p { Out::Miss => o == Ans::<Seq<CelValue<'a>>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_vals(t, seq![x], o) };
    match p { Out::Got(t, x) => { lemma_vals_shrink(t, seq![x], o); } _ => {} }
}
pub broadcast proof fn lemma_pairs_within<'a>(s: Seq<char>, o: Ans<Seq<(&'a str, CelValue<'a>)>>) requires #[trigger] pairs(s, o), o is Got ensures o->Got_0.len() <= s.len()
{
    let p = choose|p: Ans<(&'a str, CelValue<'a>)>| #![trigger mark(p)] #![trigger pair(s, p)] mark(p) && pair(s, p) && match p { Out::Miss => o == Ans::<Seq<(&'a str, CelValue<'a>)>>::Got(s, seq![]), Out::Dead => o is Dead, Out::Got(t, x) => t.len() < s.len() && more_pairs(t, seq![x], o) };
    match p { Out::Got(t, x) => { lemma_pairs_shrink(t, seq![x], o); } _ => {} }
}
pub broadcast proof fn lemma_val_within<'a>(s: Seq<char>, o: Ans<CelValue<'a>>) requires #[trigger] val(s, o), o is Got ensures o->Got_0.len() < s.len()
{
    broadcast use {lemma_unblank, lemma_vals_within, lemma_pairs_within};
    let t = unblank(s);
    let u = t.skip(word_end(t));
    lemma_run(t, |c: char| word(c)); lemma_run(past(t), |c: char| plain(c));
    assert forall|q: Ans<Seq<(&'a str, CelValue<'a>)>>| #![trigger mark(q)] mark(q) && pairs(past(u), q) && q is Got implies q->Got_0.len() <= past(u).len() by { lemma_pairs_within(past(u), q); }
    assert forall|q: Ans<Seq<CelValue<'a>>>| #![trigger mark(q)] mark(q) && vals(past(u), q) && q is Got implies q->Got_0.len() <= past(u).len() by { lemma_vals_within(past(u), q); }
    assert forall|q: Ans<Seq<CelValue<'a>>>| #![trigger mark(q)] mark(q) && vals(past(t), q) && q is Got implies q->Got_0.len() <= past(t).len() by { lemma_vals_within(past(t), q); }
}
pub broadcast proof fn lemma_pair_within<'a>(s: Seq<char>, o: Ans<(&'a str, CelValue<'a>)>) requires #[trigger] pair(s, o), o is Got ensures o->Got_0.len() < s.len()
{
    broadcast use {lemma_unblank, lemma_val_within};
    let t = unblank(s);
    let u = t.skip(word_end(t));
    lemma_run(t, |c: char| word(c));
    assert forall|q: Ans<CelValue<'a>>| #![trigger mark(q)] mark(q) && val(past(u), q) && q is Got implies q->Got_0.len() < past(u).len() by { lemma_val_within(past(u), q); }
}
/// A separator that is a comma, whatever is blank before it.
pub open spec fn commas<'a, Z, E, S: Parser<&'a str, Z, E>>(s: S) -> bool { forall|i: &'a str, z: Out<&'a str, Z>| #[trigger] s.says(i, z) ==> if at(i@, ',') { z is Got && z->Got_0@ == past(i@) } else { z is Miss } }
pub broadcast proof fn lemma_rest_vals<'a, Z, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, CelValue<'a>, E>>(s: S, p: P, i: &'a str, acc: Seq<CelValue<'a>>, o: Out<&'a str, Seq<CelValue<'a>>>)
    requires #[trigger] rest_of::<Z, CelValue<'a>, E, S, P>(s, p, i, acc, o), commas::<Z, E, S>(s), forall|i: &'a str, x: Out<&'a str, CelValue<'a>>| #[trigger] p.says(i, x) ==> val(i@, seen(x)),
    ensures more_vals(i@, acc, seen(o)) decreases i@.len()
{
    broadcast use {lemma_unblank, lemma_val_within};
    let z = choose|z: Out<&'a str, Z>| #[trigger] s.says(i, z) && match z {
        Out::Miss => o == Out::<&'a str, Seq<CelValue<'a>>>::Got(i, acc), Out::Dead => o is Dead,
        Out::Got(j, _) => if j@.len() == i@.len() { o is Miss } else {
            exists|x: Out<&'a str, CelValue<'a>>| #[trigger] p.says(j, x) && match x {
                Out::Miss => o == Out::<&'a str, Seq<CelValue<'a>>>::Got(i, acc), Out::Dead => o is Dead,
                Out::Got(k, x) => k@.len() < i@.len() ==> rest_of::<Z, CelValue<'a>, E, S, P>(s, p, k, acc.push(x), o),
            }
        },
    };
    match z {
        Out::Got(j, _) => {
            let x = choose|x: Out<&'a str, CelValue<'a>>| #[trigger] p.says(j, x) && match x {
                Out::Miss => o == Out::<&'a str, Seq<CelValue<'a>>>::Got(i, acc), Out::Dead => o is Dead,
                Out::Got(k, x) => k@.len() < i@.len() ==> rest_of::<Z, CelValue<'a>, E, S, P>(s, p, k, acc.push(x), o),
            };
            assert(val(past(i@), seen(x))); assert(mark(seen(x)));
            match x { Out::Got(k, x) => { lemma_rest_vals::<Z, E, S, P>(s, p, k, acc.push(x), o); } _ => {} }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_rest_pairs<'a, Z, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, (&'a str, CelValue<'a>), E>>(s: S, p: P, i: &'a str, acc: Seq<(&'a str, CelValue<'a>)>, o: Out<&'a str, Seq<(&'a str, CelValue<'a>)>>)
    requires #[trigger] rest_of::<Z, (&'a str, CelValue<'a>), E, S, P>(s, p, i, acc, o), commas::<Z, E, S>(s), forall|i: &'a str, x: Out<&'a str, (&'a str, CelValue<'a>)>| #[trigger] p.says(i, x) ==> pair(i@, seen(x)),
    ensures more_pairs(i@, acc, seen(o)) decreases i@.len()
{
    broadcast use {lemma_unblank, lemma_pair_within};
    let z = choose|z: Out<&'a str, Z>| #[trigger] s.says(i, z) && match z {
        Out::Miss => o == Out::<&'a str, Seq<(&'a str, CelValue<'a>)>>::Got(i, acc), Out::Dead => o is Dead,
        Out::Got(j, _) => if j@.len() == i@.len() { o is Miss } else {
            exists|x: Out<&'a str, (&'a str, CelValue<'a>)>| #[trigger] p.says(j, x) && match x {
                Out::Miss => o == Out::<&'a str, Seq<(&'a str, CelValue<'a>)>>::Got(i, acc), Out::Dead => o is Dead,
                Out::Got(k, x) => k@.len() < i@.len() ==> rest_of::<Z, (&'a str, CelValue<'a>), E, S, P>(s, p, k, acc.push(x), o),
            }
        },
    };
    match z {
        Out::Got(j, _) => {
            let x = choose|x: Out<&'a str, (&'a str, CelValue<'a>)>| #[trigger] p.says(j, x) && match x {
                Out::Miss => o == Out::<&'a str, Seq<(&'a str, CelValue<'a>)>>::Got(i, acc), Out::Dead => o is Dead,
                Out::Got(k, x) => k@.len() < i@.len() ==> rest_of::<Z, (&'a str, CelValue<'a>), E, S, P>(s, p, k, acc.push(x), o),
            };
            assert(pair(past(i@), seen(x))); assert(mark(seen(x)));
            match x { Out::Got(k, x) => { lemma_rest_pairs::<Z, E, S, P>(s, p, k, acc.push(x), o); } _ => {} }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_list_vals<'a, Z, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, CelValue<'a>, E>>(l: SepList<S, P, Z>, i: &'a str, o: Out<&'a str, Vec<CelValue<'a>>>)
    requires #[trigger] <SepList<S, P, Z> as Parser<&'a str, Vec<CelValue<'a>>, E>>::says(&l, i, o), commas::<Z, E, S>(l.s), forall|i: &'a str, x: Out<&'a str, CelValue<'a>>| #[trigger] l.p.says(i, x) ==> val(i@, seen(x)),
    ensures vals(i@, seen(items(o)))
{
    broadcast use lemma_val_within;
    let x = choose|x: Out<&'a str, CelValue<'a>>| #[trigger] l.p.says(i, x) && match x {
        Out::Miss => items(o) == Out::<&'a str, Seq<CelValue<'a>>>::Got(i, Seq::<CelValue<'a>>::empty()), Out::Dead => o is Dead,
        Out::Got(k, x) => rest_of::<Z, CelValue<'a>, E, S, P>(l.s, l.p, k, seq![x], items(o)),
    };
    assert(val(i@, seen(x))); assert(mark(seen(x)));
    match x { Out::Got(k, y) => { lemma_rest_vals::<Z, E, S, P>(l.s, l.p, k, seq![y], items(o)); } _ => {} }
}
pub broadcast proof fn lemma_list_pairs<'a, Z, E, S: Parser<&'a str, Z, E>, P: Parser<&'a str, (&'a str, CelValue<'a>), E>>(l: SepList<S, P, Z>, i: &'a str, o: Out<&'a str, Vec<(&'a str, CelValue<'a>)>>)
    requires #[trigger] <SepList<S, P, Z> as Parser<&'a str, Vec<(&'a str, CelValue<'a>)>, E>>::says(&l, i, o), commas::<Z, E, S>(l.s), forall|i: &'a str, x: Out<&'a str, (&'a str, CelValue<'a>)>| #[trigger] l.p.says(i, x) ==> pair(i@, seen(x)),
    ensures pairs(i@, seen(items(o)))
{
    broadcast use lemma_pair_within;
    let x = choose|x: Out<&'a str, (&'a str, CelValue<'a>)>| #[trigger] l.p.says(i, x) && match x {
        Out::Miss => items(o) == Out::<&'a str, Seq<(&'a str, CelValue<'a>)>>::Got(i, Seq::<(&'a str, CelValue<'a>)>::empty()), Out::Dead => o is Dead,
        Out::Got(k, x) => rest_of::<Z, (&'a str, CelValue<'a>), E, S, P>(l.s, l.p, k, seq![x], items(o)),
    };
    assert(pair(i@, seen(x))); assert(mark(seen(x)));
    match x { Out::Got(k, y) => { lemma_rest_pairs::<Z, E, S, P>(l.s, l.p, k, seq![y], items(o)); } _ => {} }
}
pub broadcast proof fn lemma_words(s: Seq<char>) ensures 0 <= #[trigger] word_end(s) <= s.len() { lemma_run(s, |c: char| word(c)); }
pub broadcast proof fn lemma_marks(s: Seq<char>, o: Ans<CelValue>) requires #[trigger] val(s, o) ensures mark(o) {}
pub broadcast proof fn lemma_marked_vals(s: Seq<char>, o: Ans<Seq<CelValue>>) requires #[trigger] vals(s, o) ensures mark(o) {}
pub broadcast proof fn lemma_marked_pairs(s: Seq<char>, o: Ans<Seq<(&str, CelValue)>>) requires #[trigger] pairs(s, o) ensures mark(o) {}
pub broadcast group group_marks { lemma_words, lemma_unblank, lemma_marks, lemma_marked_vals, lemma_marked_pairs }
/// What drop_separators answers.
pub open spec fn between<'a, O, E, P: Parser<&'a str, O, E>>(open: char, close: char, p: P, i: &'a str, o: Out<&'a str, O>) -> bool {
    if at(i@, open) { exists|j: &'a str, q: Out<&'a str, O>| j@ == past(i@) && #[trigger] p.says(j, q) && seen(o) == shut(seen(q), close) } else { o is Miss }
}
/// What object and function answer.
pub open spec fn obj_ans<'a>(s: Seq<char>, o: Ans<(&'a str, HashMap<&'a str, CelValue<'a>>)>) -> bool {
    let n = word_end(s);
    let u = s.skip(n);
    if at(u, '{') { exists|p: Ans<Seq<(&'a str, CelValue<'a>)>>| #![trigger mark(p)] #![trigger pairs(past(u), p)] mark(p) && pairs(past(u), p) && then(shut(p, '}'), o, |x: Seq<(&'a str, CelValue<'a>)>, v: (&'a str, HashMap<&'a str, CelValue<'a>>)| v.0@ == s.take(n) && v.1.e@ == x) } else { o is Miss }
}
pub open spec fn fun_ans<'a>(s: Seq<char>, o: Ans<(&'a str, Vec<CelValue<'a>>)>) -> bool {
    let n = word_end(s);
    let u = s.skip(n);
    if at(u, '(') { exists|p: Ans<Seq<CelValue<'a>>>| #![trigger mark(p)] #![trigger vals(past(u), p)] mark(p) && vals(past(u), p) && then(shut(p, ')'), o, |x: Seq<CelValue<'a>>, v: (&'a str, Vec<CelValue<'a>>)| v.0@ == s.take(n) && v.1@ == x) } else { o is Miss }
}
pub open spec fn arr_ans<'a>(s: Seq<char>, o: Ans<Vec<CelValue<'a>>>) -> bool {
    if at(s, '[') { exists|p: Ans<Seq<CelValue<'a>>>| #![trigger mark(p)] #![trigger vals(past(s), p)] mark(p) && vals(past(s), p) && then(shut(p, ']'), o, |x: Seq<CelValue<'a>>, v: Vec<CelValue<'a>>| v@ == x) } else { o is Miss }
}
pub open spec fn str_ans<'a>(s: Seq<char>, o: Ans<&'a str>) -> bool { then(text_at(s), o, |x: Seq<char>, v: &'a str| v@ == x) }
/// The recursive call: cel_value itself, with the contract that is proved for it below (the induction over the depth of the recursion).
#[verifier::external_body]
pub fn rec_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(i: &'a str) -> (r: IResult<&'a str, CelValue<'a>, E>) ensures val(i@, seen(out(r))) { unimplemented!() }
//@ctor CelValue::Array CelValue::String
//@take cp trim_whitespace drop_separators ident parse_str string array key_value object function cel_value
//@fn trim_whitespace C16
//@ret q
//@spec
    requires parser.ok()
    ensures q.ok(), forall|i: &'a str, o: Out<&'a str, O>| #[trigger] q.says(i, o) ==> exists|j: &'a str| j@ == unblank(i@) && #[trigger] parser.says(j, o)
//@fn drop_separators C16
//@ret q
//@spec
    requires parser.ok()
    ensures q.ok(), forall|i: &'a str, o: Out<&'a str, O>| #[trigger] q.says(i, o) ==> between(opening_separator, closing_separator, parser, i, o)
//@fn ident C16
//@ret r
//@subst `)(i)` => `).parse(i)`
//@subst `acceptable_special_chars.contains(e)` => `({ proof { lemma_underscore(); } acceptable_special_chars.contains_char(e) })`
//@subst `|e|` => `|e: char|`
//@closure 0
 -> (b: bool) ensures b == word(e)
//@spec
    ensures r is Ok, (r->Ok_0).0@ == i@.skip(word_end(i@)), (r->Ok_0).1@ == i@.take(word_end(i@))
//@tail
    proof { lemma_run_is(i@, |c: char| word(c), (r->Ok_0).1@.len() as int); }
//@fn parse_str C16
//@ret r
//@subst `)(i)` => `).parse(i)`
//@subst `|e|` => `|e: char|`
//@closure 0
 -> (b: bool) ensures b == plain(e)
//@spec
    ensures r is Ok, (r->Ok_0).0@ == i@.skip(plain_end(i@)), (r->Ok_0).1@ == i@.take(plain_end(i@))
//@tail
    proof { lemma_run_is(i@, |c: char| plain(c), (r->Ok_0).1@.len() as int); }
//@fn string C16
//@ret r
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures str_ans(i@, seen(out(r)))
//@fn array C16
//@ret r
//@entry
    broadcast use lemma_list_vals;
//@subst `cel_value` => `rec_value`
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures arr_ans(i@, seen(out(r)))
//@fn key_value C16
//@ret r
//@entry
    broadcast use group_marks;
//@subst `cel_value` => `rec_value`
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures pair(i@, seen(out(r)))
//@fn object C16
//@ret r
//@entry
    broadcast use lemma_list_pairs;
//@subst `tuple_vec.into_iter()` => `own_it(tuple_vec)`
//@subst `|tuple_vec|` => `|tuple_vec: Vec<(&'a str, CelValue<'a>)>|`
//@closure 0
 -> (t: HashMap<&'a str, CelValue<'a>>) ensures t.e@ == tuple_vec@
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures obj_ans(i@, seen(out(r)))
//@fn function C16
//@ret r
//@entry
    broadcast use lemma_list_vals;
//@subst `cel_value` => `rec_value`
//@subst `tuple_vec.into_iter()` => `own_it(tuple_vec)`
//@subst `|tuple_vec|` => `|tuple_vec: Vec<CelValue<'a>>|`
//@closure 0
 -> (t: Vec<CelValue<'a>>) ensures t@ == tuple_vec@
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures fun_ans(i@, seen(out(r)))
//@fn cel_value C16
//@ret r
//@entry
    broadcast use group_marks;
//@subst `map(object, |_p0|` => `map(object, |_p0: (&'a str, HashMap<&'a str, CelValue<'a>>)|`
//@subst `map(function, |_p0|` => `map(function, |_p0: (&'a str, Vec<CelValue<'a>>)|`
//@closure 0
 -> (t: CelValue<'a>) ensures t == CelValue::Object(_p0.0, _p0.1)
//@closure 1
 -> (t: CelValue<'a>) ensures t == CelValue::Function(_p0.0, _p0.1)
//@subst `)(i)` => `).parse(i)`
//@spec
    ensures val(i@, seen(out(r)))
