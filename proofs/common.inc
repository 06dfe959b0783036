// ---- Trusted contracts on the standard library ----
/// std's NonZeroU8 (Verus has no model of it).
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct NonZeroU8 { v: u8 }
impl NonZeroU8 {
    pub closed spec fn val(&self) -> u8 { self.v }
    pub const unsafe fn new_unchecked(x: u8) -> (r: NonZeroU8)
        requires x != 0,
        ensures r.val() == x
    { NonZeroU8 { v: x } }
    pub const fn new(x: u8) -> (r: Option<NonZeroU8>)
        ensures (r is Some) == (x != 0), r matches Some(y) ==> y.val() == x
    { if x != 0 { Some(NonZeroU8 { v: x }) } else { None } }
    pub const fn get(self) -> (r: u8) ensures r == self.val() { self.v }
}
pub broadcast axiom fn nonzero(x: NonZeroU8) ensures #[trigger] x.val() != 0;
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn upper(b: u8) -> bool { 65 <= b <= 90 }
pub open spec fn lower(b: u8) -> bool { 97 <= b <= 122 }
pub open spec fn to_lower(b: u8) -> u8 { if upper(b) { (b + 32) as u8 } else { b } }
pub open spec fn to_upper(b: u8) -> u8 { if lower(b) { (b - 32) as u8 } else { b } }
pub open spec fn ascii_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool) ensures r == digit(*b);
pub assume_specification [u8::is_ascii_uppercase] (b: &u8) -> (r: bool) ensures r == upper(*b);
pub assume_specification [u8::is_ascii_lowercase] (b: &u8) -> (r: bool) ensures r == lower(*b);
pub assume_specification [u8::is_ascii_alphabetic] (b: &u8) -> (r: bool) ensures r == (upper(*b) || lower(*b));
pub assume_specification [u8::is_ascii] (b: &u8) -> (r: bool) ensures r == (*b < 128);
pub assume_specification [u8::is_ascii_whitespace] (b: &u8) -> (r: bool) ensures r == ascii_ws(*b);
pub assume_specification [u8::to_ascii_lowercase] (b: &u8) -> (r: u8) ensures r == to_lower(*b);
pub assume_specification [u8::to_ascii_uppercase] (b: &u8) -> (r: u8) ensures r == to_upper(*b);
