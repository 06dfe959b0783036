// ---- Trusted contracts on the standard library, for functions that vstd has no specification of ----
use vstd::std_specs::cmp::*;
pub assume_specification<T> [core::mem::replace] (d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v
    opens_invariants none no_unwind;
pub assume_specification<T: core::default::Default> [core::mem::take] (d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T: core::cmp::Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures r == a || r == b, T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: core::cmp::Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures r == a || r == b, T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T: Copy> [Option::<&T>::copied] (a: Option<&T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T> [bool::then_some] (a: bool, v: T) -> (r: Option<T>)
    ensures r == (if a { Some(v) } else { None });
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, v: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => v });
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool)
    ensures r == (48 <= *b <= 57 || 65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification [u8::is_ascii_control] (b: &u8) -> (r: bool)
    ensures r == (*b < 32 || *b == 127);
pub assume_specification [u8::is_ascii_graphic] (b: &u8) -> (r: bool)
    ensures r == (33 <= *b <= 126);
pub assume_specification [u8::eq_ignore_ascii_case] (a: &u8, b: &u8) -> (r: bool)
    ensures r == ((if 65 <= *a <= 90 { (*a + 32) as u8 } else { *a }) == (if 65 <= *b <= 90 { (*b + 32) as u8 } else { *b }));
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b });
