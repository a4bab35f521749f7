// Specifications of std functions the crate does not use today; each is put into the generated text
// only when the code mentions it (and is then listed in the evidence as trusted).
//@opt \. reverse \(
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering)
    ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
//@opt \. is_lt \(
pub assume_specification [Ordering::is_lt] (a: Ordering) -> (r: bool)
    ensures r == (a == Ordering::Less);
//@opt \. is_le \(
pub assume_specification [Ordering::is_le] (a: Ordering) -> (r: bool)
    ensures r == (a != Ordering::Greater);
//@opt \. is_gt \(
pub assume_specification [Ordering::is_gt] (a: Ordering) -> (r: bool)
    ensures r == (a == Ordering::Greater);
//@opt \. is_ge \(
pub assume_specification [Ordering::is_ge] (a: Ordering) -> (r: bool)
    ensures r == (a != Ordering::Less);
//@opt \. is_eq \(
pub assume_specification [Ordering::is_eq] (a: Ordering) -> (r: bool)
    ensures r == (a == Ordering::Equal);
//@opt \. is_ne \(
pub assume_specification [Ordering::is_ne] (a: Ordering) -> (r: bool)
    ensures r == (a != Ordering::Equal);
//@opt \. then \(
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });
//@opt \bunsigned_abs\b
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64)
    ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i32::unsigned_abs] (a: i32) -> (r: u32)
    ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [isize::unsigned_abs] (a: isize) -> (r: usize)
    ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i8::unsigned_abs] (a: i8) -> (r: u8)
    ensures r as int == (if a < 0 { -(a as int) } else { a as int });
//@opt \babs \(
pub assume_specification [i64::abs] (a: i64) -> (r: i64)
    requires a > i64::MIN,
    ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [i32::abs] (a: i32) -> (r: i32)
    requires a > i32::MIN,
    ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [isize::abs] (a: isize) -> (r: isize)
    requires a > isize::MIN,
    ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [i8::abs] (a: i8) -> (r: i8)
    requires a > i8::MIN,
    ensures r == (if a < 0 { -a } else { a as int });
//@opt \bis_negative \(
pub assume_specification [i8::is_negative] (a: i8) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification [i32::is_negative] (a: i32) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification [isize::is_negative] (a: isize) -> (r: bool)
    ensures r == (a < 0);
//@opt \bis_positive \(
pub assume_specification [i8::is_positive] (a: i8) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification [i32::is_positive] (a: i32) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification [i64::is_positive] (a: i64) -> (r: bool)
    ensures r == (a > 0);
pub assume_specification [isize::is_positive] (a: isize) -> (r: bool)
    ensures r == (a > 0);
//@opt \babs_diff \(
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64)
    ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32)
    ensures r == (if a < b { b - a } else { a - b });
//@opt \bwrapping_neg \(
pub assume_specification [i64::wrapping_neg] (a: i64) -> (r: i64)
    ensures r == (if a == i64::MIN { a as int } else { -a });
//@opt \bchecked_neg \(
pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>)
    ensures r == (if a == i64::MIN { None } else { Some((-a) as i64) });
//@opt \bdiv_euclid \(
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == a as int / b as int;
pub assume_specification [i32::div_euclid] (a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == a as int / b as int;
//@opt \brem_euclid \(
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == a as int % b as int;
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == a as int % b as int;
//@opt \bdiv_ceil \(
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a + b - 1) / b as int;
//@opt \bnext_multiple_of \(
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize)
    requires b != 0, ((a + b - 1) / b as int) * b <= usize::MAX,
    ensures r == ((a + b - 1) / b as int) * b;
//@opt \bmem :: replace \(
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
