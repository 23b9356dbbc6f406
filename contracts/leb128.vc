//@text
// ---------------------------------------------------------------- unsigned LEB128
/// The number encoded at the start of s, in at most n bytes.
pub open spec fn leb_n(s: Seq<u8>, n: nat) -> Option<nat> decreases n {
    if n == 0 || s.len() == 0 { None }
    else if s[0] < 128 { Some(s[0] as nat) }
    else { match leb_n(s.skip(1), (n - 1) as nat) { Some(v) => Some((s[0] - 128) as nat + 128 * v), None => None } }
}
/// A readable 64-bit number.
pub open spec fn leb(s: Seq<u8>) -> Option<nat> { match leb_n(s, 10) { Some(v) => if v <= u64::MAX { Some(v) } else { None }, None => None } }
