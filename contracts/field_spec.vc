//@text
// ---------------------------------------------------------------- one field of the certificate header
/// Without one v at the start.
pub open spec fn off(v: char, s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == v { s.skip(1) } else { s } }
pub open spec fn other(v: char) -> spec_fn(char) -> bool { |c: char| c != v }
pub open spec fn upto(v: char, s: Seq<char>) -> int { run(s, other(v)) }
/// name=value with the value between colons or not; nothing behind it.
pub open spec fn split_field(t: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let n = upto('=', t);
    let u = off(':', t.skip(n + 1));
    let m = upto(':', u);
    if n == t.len() || off(':', u.skip(m)).len() > 0 || n == 0 || m == 0 { None } else { Some((t.take(n), u.take(m))) }
}
pub open spec fn field_of(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { split_field(trimmed(s, 0)) }
