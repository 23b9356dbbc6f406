//@text
pub mod tree2 {
use super::*;
use super::rb::{HashTree, HashTreeNode, empty, fork, labeled, leaf, pruned};
use super::tree::*;

// ---------------------------------------------------------------- sorted sequences of entries
/// The entry with a key, if there is one.
pub open spec fn hask<V>(s: Seq<KV<V>>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn idx<V>(s: Seq<KV<V>>, k: Seq<u8>) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
/// Insertion or replacement of one entry in a sorted sequence.
pub open spec fn ins<V>(s: Seq<KV<V>>, k: Seq<u8>, v: V) -> Seq<KV<V>> decreases s.len() {
    if s.len() == 0 { seq![(k, v)] }
    else if lt(k, s[0].0) { seq![(k, v)] + s }
    else if s[0].0 == k { seq![(k, v)] + s.skip(1) }
    else { seq![s[0]] + ins(s.skip(1), k, v) }
}
/// Removal of the entry with a key.
pub open spec fn del<V>(s: Seq<KV<V>>, k: Seq<u8>) -> Seq<KV<V>> decreases s.len() {
    if s.len() == 0 { s } else if s[0].0 == k { s.skip(1) } else { seq![s[0]] + del(s.skip(1), k) }
}
/// The map a sequence of entries stands for.
pub open spec fn as_map<V>(s: Seq<KV<V>>) -> Map<Seq<u8>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { as_map(s.skip(1)).insert(s[0].0, s[0].1) }
}
pub proof fn lemma_as_map<V>(s: Seq<KV<V>>)
    requires sorted(s)
    ensures forall|k: Seq<u8>| #[trigger] as_map(s).dom().contains(k) == hask(s, k),
        forall|i: int| 0 <= i < s.len() ==> as_map(s)[(#[trigger] s[i]).0] == s[i].1,
    decreases s.len()
{
    broadcast use group_lex;
    if s.len() > 0 {
        let t = s.skip(1);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt((#[trigger] t[i]).0, (#[trigger] t[j]).0) by { assert(lt(s[i + 1].0, s[j + 1].0)); }
        lemma_as_map(t);
        assert forall|k: Seq<u8>| #[trigger] as_map(s).dom().contains(k) == hask(s, k) by {
            if hask(t, k) { let i = idx(t, k); assert(s[i + 1].0 == k); }
            if hask(s, k) && k != s[0].0 { let i = idx(s, k); assert(t[i - 1].0 == k); }
            if k == s[0].0 { assert(hask(s, k)); }
        }
        assert forall|i: int| 0 <= i < s.len() implies as_map(s)[(#[trigger] s[i]).0] == s[i].1 by {
            if i > 0 { assert(t[i - 1] == s[i]); assert(lt(s[0].0, s[i].0)); }
        }
    }
}

pub proof fn lemma_sorted_parts<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>)
    ensures sorted(a + seq![x] + b) <==> sorted(a) && sorted(b) && (forall|i: int| 0 <= i < a.len() ==> lt(#[trigger] a[i].0, x.0)) && (forall|i: int| 0 <= i < b.len() ==> lt(x.0, #[trigger] b[i].0))
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    let n = a.len() as int;
    assert(forall|i: int| 0 <= i < a.len() ==> f[i] == #[trigger] a[i]);
    assert(forall|i: int| 0 <= i < b.len() ==> f[i + n + 1] == #[trigger] b[i]);
    assert(f[n] == x);
    if sorted(f) {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies lt((#[trigger] a[i]).0, (#[trigger] a[j]).0) by { assert(lt(f[i].0, f[j].0)); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies lt((#[trigger] b[i]).0, (#[trigger] b[j]).0) by { assert(lt(f[i + n + 1].0, f[j + n + 1].0)); }
        assert forall|i: int| 0 <= i < a.len() implies lt(#[trigger] a[i].0, x.0) by { assert(lt(f[i].0, f[n].0)); }
        assert forall|i: int| 0 <= i < b.len() implies lt(x.0, #[trigger] b[i].0) by { assert(lt(f[n].0, f[i + n + 1].0)); }
    }
    if sorted(a) && sorted(b) && (forall|i: int| 0 <= i < a.len() ==> lt(#[trigger] a[i].0, x.0)) && (forall|i: int| 0 <= i < b.len() ==> lt(x.0, #[trigger] b[i].0)) {
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies lt((#[trigger] f[i]).0, (#[trigger] f[j]).0) by {
            if j < n { assert(f[i] == a[i] && f[j] == a[j]); }
            else if j == n { assert(f[i] == a[i]); }
            else if i < n { assert(f[i] == a[i] && f[j] == b[j - n - 1]); assert(lt(a[i].0, x.0)); assert(lt(x.0, b[j - n - 1].0)); lemma_lexc_trans(a[i].0, x.0, b[j - n - 1].0); }
            else if i == n { assert(f[j] == b[j - n - 1]); }
            else { assert(f[i] == b[i - n - 1] && f[j] == b[j - n - 1]); }
        }
    }
}
pub proof fn lemma_ins_left<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>, k: Seq<u8>, v: V)
    requires sorted(a + seq![x] + b), lt(k, x.0)
    ensures ins(a + seq![x] + b, k, v) == ins(a, k, v) + seq![x] + b
    decreases a.len()
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    if a.len() == 0 { assert(f[0] == x); assert(ins(f, k, v) =~= ins(a, k, v) + seq![x] + b); }
    else {
        assert(f[0] == a[0]);
        assert(f.skip(1) =~= a.skip(1) + seq![x] + b);
        lemma_sorted_parts(a, x, b);
        if lt(k, a[0].0) { assert(ins(f, k, v) =~= ins(a, k, v) + seq![x] + b); }
        else if a[0].0 == k { assert(ins(f, k, v) =~= ins(a, k, v) + seq![x] + b); }
        else {
            assert(forall|i: int| 0 <= i < a.skip(1).len() ==> a.skip(1)[i] == a[i + 1]);
            assert(sorted(a.skip(1)));
            lemma_sorted_parts(a.skip(1), x, b);
            lemma_ins_left(a.skip(1), x, b, k, v);
            assert(ins(f, k, v) =~= ins(a, k, v) + seq![x] + b);
        }
    }
}
pub proof fn lemma_ins_right<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>, k: Seq<u8>, v: V)
    requires sorted(a + seq![x] + b), !lt(k, x.0)
    ensures x.0 != k ==> ins(a + seq![x] + b, k, v) == a + seq![x] + ins(b, k, v), x.0 == k ==> ins(a + seq![x] + b, k, v) == a + seq![(k, v)] + b
    decreases a.len()
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    lemma_sorted_parts(a, x, b);
    if a.len() == 0 {
        assert(f[0] == x);
        assert(f.skip(1) =~= b);
        if x.0 == k { assert(ins(f, k, v) =~= a + seq![(k, v)] + b); } else { assert(ins(f, k, v) =~= a + seq![x] + ins(b, k, v)); }
    } else {
        assert(f[0] == a[0]);
        assert(f.skip(1) =~= a.skip(1) + seq![x] + b);
        assert(forall|i: int| 0 <= i < a.skip(1).len() ==> a.skip(1)[i] == a[i + 1]);
        assert(lt(a[0].0, x.0));
        lemma_lexc_range(k, x.0);
        lemma_lexc_trans(a[0].0, x.0, k);
        lemma_sorted_parts(a.skip(1), x, b);
        lemma_ins_right(a.skip(1), x, b, k, v);
        if x.0 == k { assert(ins(f, k, v) =~= a + seq![(k, v)] + b); } else { assert(ins(f, k, v) =~= a + seq![x] + ins(b, k, v)); }
    }
}
pub proof fn lemma_del_parts<V>(a: Seq<KV<V>>, x: KV<V>, b: Seq<KV<V>>, k: Seq<u8>)
    requires sorted(a + seq![x] + b)
    ensures
        lt(k, x.0) ==> del(a + seq![x] + b, k) == del(a, k) + seq![x] + b,
        lt(x.0, k) ==> del(a + seq![x] + b, k) == a + seq![x] + del(b, k),
        x.0 == k ==> del(a + seq![x] + b, k) == a + b,
    decreases a.len()
{
    broadcast use group_lex;
    let f = a + seq![x] + b;
    lemma_sorted_parts(a, x, b);
    if a.len() == 0 {
        assert(f[0] == x);
        assert(f.skip(1) =~= b);
        assert(a + b =~= b);
        if lt(k, x.0) { lemma_del_absent(b, k); lemma_del_absent(a, k); }
        assert(lt(k, x.0) ==> del(f, k) =~= del(a, k) + seq![x] + b);
        assert(lt(x.0, k) ==> del(f, k) =~= a + seq![x] + del(b, k));
    } else {
        assert(f[0] == a[0]);
        assert(f.skip(1) =~= a.skip(1) + seq![x] + b);
        assert(forall|i: int| 0 <= i < a.skip(1).len() ==> a.skip(1)[i] == a[i + 1]);
        assert(lt(a[0].0, x.0));
        lemma_sorted_parts(a.skip(1), x, b);
        lemma_del_parts(a.skip(1), x, b, k);
        assert(lt(k, x.0) ==> del(f, k) =~= del(a, k) + seq![x] + b);
        assert(lt(x.0, k) ==> del(f, k) =~= a + seq![x] + del(b, k));
        assert(x.0 == k ==> del(f, k) =~= a + b);
    }
}
pub proof fn lemma_del_absent<V>(s: Seq<KV<V>>, k: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k
    ensures del(s, k) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[0].0 != k);
        assert(forall|i: int| 0 <= i < s.skip(1).len() ==> s.skip(1)[i] == s[i + 1]);
        lemma_del_absent(s.skip(1), k);
        assert(del(s, k) =~= s);
    }
}
/// ins and del keep order, and are the insertion and removal of the map they stand for.
pub proof fn lemma_ins_map<V>(s: Seq<KV<V>>, k: Seq<u8>, v: V)
    requires sorted(s)
    ensures sorted(ins(s, k, v)), as_map(ins(s, k, v)) == as_map(s).insert(k, v),
        forall|i: int| 0 <= i < ins(s, k, v).len() ==> (#[trigger] ins(s, k, v)[i]).0 == k || hask(s, ins(s, k, v)[i].0),
        forall|i: int| 0 <= i < ins(s, k, v).len() ==> (#[trigger] ins(s, k, v)[i]) == (k, v) || s.contains(ins(s, k, v)[i]),
    decreases s.len()
{
    broadcast use group_lex;
    let r = ins(s, k, v);
    if s.len() > 0 {
        let t = s.skip(1);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        assert(sorted(t));
        lemma_ins_map(t, k, v);
        if lt(k, s[0].0) {
            assert(forall|i: int| 1 <= i < r.len() ==> r[i] == s[i - 1]);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
                if i == 0 { if j > 1 { assert(lt(s[0].0, s[j - 1].0)); } }
                else { assert(lt(s[i - 1].0, s[j - 1].0)); }
            }
        } else if s[0].0 == k {
            assert(forall|i: int| 1 <= i < r.len() ==> r[i] == s[i]);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by { assert(lt(s[i].0, s[j].0)); }
        } else {
            let q = ins(t, k, v);
            assert(forall|i: int| 1 <= i < r.len() ==> r[i] == q[i - 1]);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
                if i == 0 {
                    assert(r[j] == q[j - 1]);
                    if q[j - 1].0 != k { let m = idx(t, q[j - 1].0); assert(t[m].0 == q[j - 1].0); assert(lt(s[0].0, s[m + 1].0)); }
                } else { assert(lt(q[i - 1].0, q[j - 1].0)); }
            }
        }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) == (k, v) || s.contains(r[i]) by {
            if lt(k, s[0].0) { if i > 0 { assert(r[i] == s[i - 1]); } }
            else if s[0].0 == k { if i > 0 { assert(r[i] == s[i]); } }
            else if i == 0 { assert(r[0] == s[0]); }
            else {
                let q = ins(t, k, v);
                assert(r[i] == q[i - 1]);
                if q[i - 1] != (k, v) { let m = choose|m: int| 0 <= m < t.len() && t[m] == q[i - 1]; assert(s[m + 1] == r[i]); }
            }
        }
    } else { assert(r[0] == (k, v)); }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 == k || hask(s, r[i].0) by {
        if r[i] != (k, v) { let m = choose|m: int| 0 <= m < s.len() && s[m] == r[i]; assert(s[m].0 == r[i].0); }
    }
    lemma_ins_contains(s, k, v);
    lemma_map_ext(r, s, k, v);
}
pub proof fn lemma_ins_contains<V>(s: Seq<KV<V>>, k: Seq<u8>, v: V)
    ensures ins(s, k, v).contains((k, v)), forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k ==> ins(s, k, v).contains(s[i])
    decreases s.len()
{
    let r = ins(s, k, v);
    if s.len() == 0 { assert(r[0] == (k, v)); }
    else {
        let t = s.skip(1);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        lemma_ins_contains(t, k, v);
        if lt(k, s[0].0) {
            assert(r[0] == (k, v));
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k implies r.contains(s[i]) by { assert(r[i + 1] == s[i]); }
        } else if s[0].0 == k {
            assert(r[0] == (k, v));
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k implies r.contains(s[i]) by { assert(r[i] == s[i]); }
        } else {
            let q = ins(t, k, v);
            let m = choose|m: int| 0 <= m < q.len() && q[m] == (k, v);
            assert(r[m + 1] == (k, v));
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k implies r.contains(s[i]) by {
                if i == 0 { assert(r[0] == s[0]); }
                else { assert(t[i - 1] == s[i]); assert(q.contains(t[i - 1])); let m = choose|m: int| 0 <= m < q.len() && q[m] == t[i - 1]; assert(r[m + 1] == s[i]); }
            }
        }
    }
}
pub proof fn lemma_key_unique<V>(s: Seq<KV<V>>, i: int)
    requires sorted(s), 0 <= i < s.len()
    ensures hask(s, s[i].0), idx(s, s[i].0) == i
{
    broadcast use group_lex;
    let j = idx(s, s[i].0);
    assert(hask(s, s[i].0));
    assert(0 <= j < s.len() && s[j].0 == s[i].0);
    if j < i { assert(lt(s[j].0, s[i].0)); }
    if i < j { assert(lt(s[i].0, s[j].0)); }
}
pub proof fn lemma_map_ext<V>(r: Seq<KV<V>>, s: Seq<KV<V>>, k: Seq<u8>, v: V)
    requires sorted(r), sorted(s), r.contains((k, v)),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k ==> r.contains(s[i]),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == (k, v) || s.contains(r[i]),
    ensures as_map(r) == as_map(s).insert(k, v)
{
    let m1 = as_map(r);
    lemma_as_map(r);
    lemma_as_map(s);
    let m2 = as_map(s).insert(k, v);
    assert forall|q: Seq<u8>| m1.dom().contains(q) == m2.dom().contains(q) by {
        if hask(r, q) {
            let i = idx(r, q);
            assert(0 <= i < r.len() && r[i].0 == q);
            if r[i] != (k, v) { let m = choose|m: int| 0 <= m < s.len() && s[m] == r[i]; assert(s[m].0 == q); assert(hask(s, q)); }
        }
        if hask(s, q) && q != k {
            let i = idx(s, q);
            assert(0 <= i < s.len() && s[i].0 == q);
            let m = choose|m: int| 0 <= m < r.len() && r[m] == s[i];
            assert(r[m].0 == q);
        }
        if q == k { let m = choose|m: int| 0 <= m < r.len() && r[m] == (k, v); assert(r[m].0 == q); }
    }
    let mk = choose|m: int| 0 <= m < r.len() && r[m] == (k, v);
    assert forall|q: Seq<u8>| m1.dom().contains(q) implies m1[q] == m2[q] by {
        let i = idx(r, q);
        assert(0 <= i < r.len() && r[i].0 == q);
        lemma_key_unique(r, i);
        if q == k { lemma_key_unique(r, mk); }
        else {
            assert(r[i] != (k, v));
            let m = choose|m: int| 0 <= m < s.len() && s[m] == r[i];
            lemma_key_unique(s, m);
        }
    }
    assert(m1 =~= m2);
}
pub proof fn lemma_del_map<V>(s: Seq<KV<V>>, k: Seq<u8>)
    requires sorted(s)
    ensures sorted(del(s, k)), as_map(del(s, k)) == as_map(s).remove(k),
        forall|i: int| 0 <= i < del(s, k).len() ==> s.contains(#[trigger] del(s, k)[i]),
    decreases s.len()
{
    broadcast use group_lex;
    let r = del(s, k);
    lemma_del_contains(s, k);
    let m1 = as_map(r);
    lemma_as_map(r);
    lemma_as_map(s);
    let m2 = as_map(s).remove(k);
    assert forall|q: Seq<u8>| m1.dom().contains(q) == m2.dom().contains(q) by {
        if hask(r, q) {
            let i = idx(r, q);
            assert(0 <= i < r.len() && r[i].0 == q);
            let m = choose|m: int| 0 <= m < s.len() && s[m] == r[i];
            assert(s[m].0 == q);
        }
        if hask(s, q) && q != k {
            let i = idx(s, q);
            assert(0 <= i < s.len() && s[i].0 == q);
            let m = choose|m: int| 0 <= m < r.len() && r[m] == s[i];
            assert(r[m].0 == q);
        }
    }
    assert forall|q: Seq<u8>| m1.dom().contains(q) implies m1[q] == m2[q] by {
        let i = idx(r, q);
        assert(0 <= i < r.len() && r[i].0 == q);
        let m = choose|m: int| 0 <= m < s.len() && s[m] == r[i];
        lemma_key_unique(s, m);
    }
    assert(m1 =~= m2);
}
pub proof fn lemma_del_contains<V>(s: Seq<KV<V>>, k: Seq<u8>)
    requires sorted(s)
    ensures sorted(del(s, k)),
        forall|i: int| 0 <= i < del(s, k).len() ==> s.contains(#[trigger] del(s, k)[i]) && del(s, k)[i].0 != k,
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k ==> del(s, k).contains(s[i]),
    decreases s.len()
{
    broadcast use group_lex;
    let r = del(s, k);
    if s.len() > 0 {
        let t = s.skip(1);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        assert(sorted(t));
        lemma_del_contains(t, k);
        if s[0].0 == k {
            assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) && r[i].0 != k by { assert(r[i] == s[i + 1]); assert(lt(s[0].0, s[i + 1].0)); }
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k implies r.contains(s[i]) by { assert(r[i - 1] == s[i]); }
        } else {
            let q = del(t, k);
            assert(forall|i: int| 1 <= i < r.len() ==> r[i] == q[i - 1]);
            assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) && r[i].0 != k by {
                if i == 0 { assert(r[0] == s[0]); }
                else { assert(t.contains(q[i - 1])); let m = choose|m: int| 0 <= m < t.len() && t[m] == q[i - 1]; assert(s[m + 1] == r[i]); }
            }
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 != k implies r.contains(s[i]) by {
                if i == 0 { assert(r[0] == s[0]); }
                else { assert(t[i - 1] == s[i]); assert(q.contains(t[i - 1])); let m = choose|m: int| 0 <= m < q.len() && q[m] == t[i - 1]; assert(r[m + 1] == s[i]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
                if i == 0 { assert(t.contains(q[j - 1])); let m = choose|m: int| 0 <= m < t.len() && t[m] == q[j - 1]; assert(lt(s[0].0, s[m + 1].0)); }
                else { assert(lt(q[i - 1].0, q[j - 1].0)); }
            }
        }
    }
}
//@text
} // mod tree2
