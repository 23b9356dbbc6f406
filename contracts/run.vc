//@text
/// How many of the first characters f holds for.
pub open spec fn run(s: Seq<char>, f: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() == 0 || !f(s[0]) { 0 } else { 1 + run(s.skip(1), f) } }
pub proof fn lemma_run(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures 0 <= run(s, f) <= s.len(), forall|k: int| #![trigger s[k]] 0 <= k < run(s, f) ==> f(s[k]), run(s, f) < s.len() ==> !f(s[run(s, f)])
    decreases s.len()
{ if s.len() > 0 && f(s[0]) { lemma_run(s.skip(1), f); assert forall|k: int| #![trigger s[k]] 0 <= k < run(s, f) implies f(s[k]) by { if k > 0 { assert(s.skip(1)[k - 1] == s[k]); } } } }
pub proof fn lemma_run_is(s: Seq<char>, f: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|k: int| #![trigger s[k]] 0 <= k < n ==> f(s[k]), n == s.len() || !f(s[n]) ensures run(s, f) == n
{ lemma_run(s, f); if run(s, f) < n { assert(f(s[run(s, f)])); } else if n < run(s, f) { assert(f(s[n])); } }
