//@text
// ---------------------------------------------------------------- more assumed contracts on std
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub open spec fn utf8(b: Seq<u8>) -> Option<Seq<char>> { if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None } }
pub assume_specification [std::string::String::from_utf8] (b: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => utf8(b@) == Some(s@), Err(_) => utf8(b@) is None };
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures is_bytes::<T>() ==> r@ == s@, copies::<T>(s@, r@);
/// Copied element by element.
pub uninterp spec fn copies<T>(a: Seq<T>, b: Seq<T>) -> bool;
pub broadcast axiom fn ax_is_bytes_u8(s: Seq<u8>) ensures #![trigger s.len()] is_bytes::<u8>();
pub broadcast axiom fn ax_i16_u8(x: u8) ensures <i16 as FromSpec<u8>>::obeys_from_spec(), #[trigger] <i16 as FromSpec<u8>>::from_spec(x) == x;
pub broadcast axiom fn ax_i32_u16(x: u16) ensures <i32 as FromSpec<u16>>::obeys_from_spec(), #[trigger] <i32 as FromSpec<u16>>::from_spec(x) == x;
pub broadcast axiom fn ax_i64_u32(x: u32) ensures <i64 as FromSpec<u32>>::obeys_from_spec(), #[trigger] <i64 as FromSpec<u32>>::from_spec(x) == x;
pub broadcast axiom fn ax_i32_u8(x: u8) ensures <i32 as FromSpec<u8>>::obeys_from_spec(), #[trigger] <i32 as FromSpec<u8>>::from_spec(x) == x;
pub broadcast axiom fn ax_try_i8_u8(x: u8) ensures match #[trigger] <i8 as TryFromSpec<u8>>::try_from_spec(x) { Ok(y) => y == x, Err(_) => x > i8::MAX };
pub broadcast axiom fn ax_try_i16_u16(x: u16) ensures match #[trigger] <i16 as TryFromSpec<u16>>::try_from_spec(x) { Ok(y) => y == x, Err(_) => x > i16::MAX };
pub broadcast axiom fn ax_try_i32_u32(x: u32) ensures match #[trigger] <i32 as TryFromSpec<u32>>::try_from_spec(x) { Ok(y) => y == x, Err(_) => x > i32::MAX };
pub broadcast axiom fn ax_try_i64_u64(x: u64) ensures match #[trigger] <i64 as TryFromSpec<u64>>::try_from_spec(x) { Ok(y) => y == x, Err(_) => x > i64::MAX };
pub axiom fn ax_int_obeys() ensures <i8 as TryFromSpec<u8>>::obeys_try_from_spec(), <i16 as TryFromSpec<u16>>::obeys_try_from_spec(), <i32 as TryFromSpec<u32>>::obeys_try_from_spec(), <i64 as TryFromSpec<u64>>::obeys_try_from_spec(), <i16 as FromSpec<u8>>::obeys_from_spec(), <i32 as FromSpec<u16>>::obeys_from_spec(), <i64 as FromSpec<u32>>::obeys_from_spec(), <i32 as FromSpec<u8>>::obeys_from_spec();
pub broadcast group group_int_from { ax_i16_u8, ax_i32_u16, ax_i64_u32, ax_i32_u8, ax_try_i8_u8, ax_try_i16_u16, ax_try_i32_u32, ax_try_i64_u64 }
pub uninterp spec fn cow_ref<'a, 'b, B: ?Sized + ToOwned>(c: &'b Cow<'a, B>) -> &'b B;
/// assumed: dereferencing a Cow gives what it holds
pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[<Cow<'a,B> as core::ops::Deref>::deref](c: &'b Cow<'a,B>) -> (r: &'b B) ensures r == cow_ref(c);
pub open spec fn cv<'a, T: Clone>(c: Cow<'a, [T]>) -> Seq<T> { cow_ref(&c)@ }
pub open spec fn into_gives<T: Into<U>, U>(t: T, u: U) -> bool { call_ensures(<T as Into<U>>::into, (t,), u) }
// std functions that the code at hand does not use: what they compute is left open, so code that starts to use them has to be proved without it
pub uninterp spec fn trimmed(s: Seq<char>, how: int) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@, 0);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == trimmed(s@, 1);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == trimmed(s@, 2);
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == trimmed(s@, 3);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == trimmed(s@, 4);
