// Contracts of std functions which the crate doesn't use at present.  The extractor includes a paragraph only if the name
// behind `//@for` occurs in the current sources, so that a change that starts to use one can still be decided.
// Generated by tools/mkstd.py.

//@for pow checked_pow
pub open spec fn std_pow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * std_pow(b, (e - 1) as nat) } }

//@for abs_diff
pub assume_specification [u8::abs_diff] (a: u8, b: u8) -> (r: u8)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for div_ceil
pub assume_specification [u8::div_ceil] (a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);

//@for next_multiple_of
pub assume_specification [u8::next_multiple_of] (a: u8, b: u8) -> (r: u8)
    requires b != 0, ((a as int + b as int - 1) / (b as int)) * (b as int) < 0x100,
    ensures r as int == ((a as int + b as int - 1) / (b as int)) * (b as int);

//@for overflowing_add
pub assume_specification [u8::overflowing_add] (a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == (a as int + b as int >= 0x100), r.0 as int == (if r.1 { a + b - 0x100 } else { a + b });

//@for overflowing_sub
pub assume_specification [u8::overflowing_sub] (a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == (a < b), r.0 as int == (if r.1 { a - b + 0x100 } else { a - b });

//@for overflowing_mul
pub assume_specification [u8::overflowing_mul] (a: u8, b: u8) -> (r: (u8, bool))
    ensures r.1 == (a as int * b as int >= 0x100), r.0 as int == (a as int * b as int) % 0x100;

//@for wrapping_neg
pub assume_specification [u8::wrapping_neg] (a: u8) -> (r: u8)
    ensures r as int == (if a == 0 { 0 } else { 0x100 - a });

//@for checked_neg
pub assume_specification [u8::checked_neg] (a: u8) -> (r: Option<u8>)
    ensures r == (if a == 0 { Some(0u8) } else { None });

//@for rem_euclid
pub assume_specification [u8::rem_euclid] (a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == a % b;

//@for div_euclid
pub assume_specification [u8::div_euclid] (a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == a / b;

//@for pow
pub assume_specification [u8::pow] (a: u8, e: u32) -> (r: u8)
    requires std_pow(a as int, e as nat) < 0x100,
    ensures r as int == std_pow(a as int, e as nat);

//@for checked_pow
pub assume_specification [u8::checked_pow] (a: u8, e: u32) -> (r: Option<u8>)
    ensures match r { Some(v) => v as int == std_pow(a as int, e as nat), None => std_pow(a as int, e as nat) >= 0x100 };

//@for checked_shl
pub assume_specification [u8::checked_shl] (a: u8, e: u32) -> (r: Option<u8>)
    ensures r == (if e < 8 { Some(a << e) } else { None });

//@for checked_shr
pub assume_specification [u8::checked_shr] (a: u8, e: u32) -> (r: Option<u8>)
    ensures r == (if e < 8 { Some(a >> e) } else { None });

//@for abs_diff
pub assume_specification [u16::abs_diff] (a: u16, b: u16) -> (r: u16)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for div_ceil
pub assume_specification [u16::div_ceil] (a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);

//@for next_multiple_of
pub assume_specification [u16::next_multiple_of] (a: u16, b: u16) -> (r: u16)
    requires b != 0, ((a as int + b as int - 1) / (b as int)) * (b as int) < 0x10000,
    ensures r as int == ((a as int + b as int - 1) / (b as int)) * (b as int);

//@for overflowing_add
pub assume_specification [u16::overflowing_add] (a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == (a as int + b as int >= 0x10000), r.0 as int == (if r.1 { a + b - 0x10000 } else { a + b });

//@for overflowing_sub
pub assume_specification [u16::overflowing_sub] (a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == (a < b), r.0 as int == (if r.1 { a - b + 0x10000 } else { a - b });

//@for overflowing_mul
pub assume_specification [u16::overflowing_mul] (a: u16, b: u16) -> (r: (u16, bool))
    ensures r.1 == (a as int * b as int >= 0x10000), r.0 as int == (a as int * b as int) % 0x10000;

//@for wrapping_neg
pub assume_specification [u16::wrapping_neg] (a: u16) -> (r: u16)
    ensures r as int == (if a == 0 { 0 } else { 0x10000 - a });

//@for checked_neg
pub assume_specification [u16::checked_neg] (a: u16) -> (r: Option<u16>)
    ensures r == (if a == 0 { Some(0u16) } else { None });

//@for rem_euclid
pub assume_specification [u16::rem_euclid] (a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == a % b;

//@for div_euclid
pub assume_specification [u16::div_euclid] (a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == a / b;

//@for pow
pub assume_specification [u16::pow] (a: u16, e: u32) -> (r: u16)
    requires std_pow(a as int, e as nat) < 0x10000,
    ensures r as int == std_pow(a as int, e as nat);

//@for checked_pow
pub assume_specification [u16::checked_pow] (a: u16, e: u32) -> (r: Option<u16>)
    ensures match r { Some(v) => v as int == std_pow(a as int, e as nat), None => std_pow(a as int, e as nat) >= 0x10000 };

//@for checked_shl
pub assume_specification [u16::checked_shl] (a: u16, e: u32) -> (r: Option<u16>)
    ensures r == (if e < 16 { Some(a << e) } else { None });

//@for checked_shr
pub assume_specification [u16::checked_shr] (a: u16, e: u32) -> (r: Option<u16>)
    ensures r == (if e < 16 { Some(a >> e) } else { None });

//@for abs_diff
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for div_ceil
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);

//@for next_multiple_of
pub assume_specification [u32::next_multiple_of] (a: u32, b: u32) -> (r: u32)
    requires b != 0, ((a as int + b as int - 1) / (b as int)) * (b as int) < 0x100000000,
    ensures r as int == ((a as int + b as int - 1) / (b as int)) * (b as int);

//@for overflowing_add
pub assume_specification [u32::overflowing_add] (a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == (a as int + b as int >= 0x100000000), r.0 as int == (if r.1 { a + b - 0x100000000 } else { a + b });

//@for overflowing_sub
pub assume_specification [u32::overflowing_sub] (a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == (a < b), r.0 as int == (if r.1 { a - b + 0x100000000 } else { a - b });

//@for overflowing_mul
pub assume_specification [u32::overflowing_mul] (a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == (a as int * b as int >= 0x100000000), r.0 as int == (a as int * b as int) % 0x100000000;

//@for wrapping_neg
pub assume_specification [u32::wrapping_neg] (a: u32) -> (r: u32)
    ensures r as int == (if a == 0 { 0 } else { 0x100000000 - a });

//@for checked_neg
pub assume_specification [u32::checked_neg] (a: u32) -> (r: Option<u32>)
    ensures r == (if a == 0 { Some(0u32) } else { None });

//@for rem_euclid
pub assume_specification [u32::rem_euclid] (a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == a % b;

//@for div_euclid
pub assume_specification [u32::div_euclid] (a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == a / b;

//@for pow
pub assume_specification [u32::pow] (a: u32, e: u32) -> (r: u32)
    requires std_pow(a as int, e as nat) < 0x100000000,
    ensures r as int == std_pow(a as int, e as nat);

//@for checked_pow
pub assume_specification [u32::checked_pow] (a: u32, e: u32) -> (r: Option<u32>)
    ensures match r { Some(v) => v as int == std_pow(a as int, e as nat), None => std_pow(a as int, e as nat) >= 0x100000000 };

//@for checked_shl
pub assume_specification [u32::checked_shl] (a: u32, e: u32) -> (r: Option<u32>)
    ensures r == (if e < 32 { Some(a << e) } else { None });

//@for checked_shr
pub assume_specification [u32::checked_shr] (a: u32, e: u32) -> (r: Option<u32>)
    ensures r == (if e < 32 { Some(a >> e) } else { None });

//@for is_power_of_two
pub assume_specification [u32::is_power_of_two] (a: u32) -> (r: bool)
    ensures r == (a != 0 && a & sub(a, 1) == 0), a < 0x10000 ==> r == pow2_16(a as u16);

//@for abs_diff
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for div_ceil
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);

//@for next_multiple_of
pub assume_specification [u64::next_multiple_of] (a: u64, b: u64) -> (r: u64)
    requires b != 0, ((a as int + b as int - 1) / (b as int)) * (b as int) < 0x10000000000000000,
    ensures r as int == ((a as int + b as int - 1) / (b as int)) * (b as int);

//@for overflowing_add
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a as int + b as int >= 0x10000000000000000), r.0 as int == (if r.1 { a + b - 0x10000000000000000 } else { a + b });

//@for overflowing_sub
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a < b), r.0 as int == (if r.1 { a - b + 0x10000000000000000 } else { a - b });

//@for overflowing_mul
pub assume_specification [u64::overflowing_mul] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a as int * b as int >= 0x10000000000000000), r.0 as int == (a as int * b as int) % 0x10000000000000000;

//@for wrapping_neg
pub assume_specification [u64::wrapping_neg] (a: u64) -> (r: u64)
    ensures r as int == (if a == 0 { 0 } else { 0x10000000000000000 - a });

//@for checked_neg
pub assume_specification [u64::checked_neg] (a: u64) -> (r: Option<u64>)
    ensures r == (if a == 0 { Some(0u64) } else { None });

//@for rem_euclid
pub assume_specification [u64::rem_euclid] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a % b;

//@for div_euclid
pub assume_specification [u64::div_euclid] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a / b;

//@for pow
pub assume_specification [u64::pow] (a: u64, e: u32) -> (r: u64)
    requires std_pow(a as int, e as nat) < 0x10000000000000000,
    ensures r as int == std_pow(a as int, e as nat);

//@for checked_pow
pub assume_specification [u64::checked_pow] (a: u64, e: u32) -> (r: Option<u64>)
    ensures match r { Some(v) => v as int == std_pow(a as int, e as nat), None => std_pow(a as int, e as nat) >= 0x10000000000000000 };

//@for checked_shl
pub assume_specification [u64::checked_shl] (a: u64, e: u32) -> (r: Option<u64>)
    ensures r == (if e < 64 { Some(a << e) } else { None });

//@for checked_shr
pub assume_specification [u64::checked_shr] (a: u64, e: u32) -> (r: Option<u64>)
    ensures r == (if e < 64 { Some(a >> e) } else { None });

//@for is_power_of_two
pub assume_specification [u64::is_power_of_two] (a: u64) -> (r: bool)
    ensures r == (a != 0 && a & sub(a, 1) == 0), a < 0x10000 ==> r == pow2_16(a as u16);

//@for abs_diff
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for div_ceil
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);

//@for next_multiple_of
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize)
    requires b != 0, ((a as int + b as int - 1) / (b as int)) * (b as int) < 0x10000000000000000,
    ensures r as int == ((a as int + b as int - 1) / (b as int)) * (b as int);

//@for overflowing_add
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a as int + b as int >= 0x10000000000000000), r.0 as int == (if r.1 { a + b - 0x10000000000000000 } else { a + b });

//@for overflowing_sub
pub assume_specification [usize::overflowing_sub] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a < b), r.0 as int == (if r.1 { a - b + 0x10000000000000000 } else { a - b });

//@for overflowing_mul
pub assume_specification [usize::overflowing_mul] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a as int * b as int >= 0x10000000000000000), r.0 as int == (a as int * b as int) % 0x10000000000000000;

//@for wrapping_neg
pub assume_specification [usize::wrapping_neg] (a: usize) -> (r: usize)
    ensures r as int == (if a == 0 { 0 } else { 0x10000000000000000 - a });

//@for checked_neg
pub assume_specification [usize::checked_neg] (a: usize) -> (r: Option<usize>)
    ensures r == (if a == 0 { Some(0usize) } else { None });

//@for rem_euclid
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a % b;

//@for div_euclid
pub assume_specification [usize::div_euclid] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a / b;

//@for pow
pub assume_specification [usize::pow] (a: usize, e: u32) -> (r: usize)
    requires std_pow(a as int, e as nat) < 0x10000000000000000,
    ensures r as int == std_pow(a as int, e as nat);

//@for checked_pow
pub assume_specification [usize::checked_pow] (a: usize, e: u32) -> (r: Option<usize>)
    ensures match r { Some(v) => v as int == std_pow(a as int, e as nat), None => std_pow(a as int, e as nat) >= 0x10000000000000000 };

//@for checked_shl
pub assume_specification [usize::checked_shl] (a: usize, e: u32) -> (r: Option<usize>)
    ensures r == (if e < 64 { Some(a << e) } else { None });

//@for checked_shr
pub assume_specification [usize::checked_shr] (a: usize, e: u32) -> (r: Option<usize>)
    ensures r == (if e < 64 { Some(a >> e) } else { None });

//@for is_power_of_two
pub assume_specification [usize::is_power_of_two] (a: usize) -> (r: bool)
    ensures r == (a != 0 && a & sub(a, 1) == 0), a < 0x10000 ==> r == pow2_16(a as u16);

//@for abs
pub assume_specification [i8::abs] (x: i8) -> (r: i8)
    requires x != i8::MIN,
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for wrapping_abs
pub assume_specification [i8::wrapping_abs] (x: i8) -> (r: i8)
    ensures r as int == (if x < 0 && x != i8::MIN { -(x as int) } else { x as int });

//@for checked_abs
pub assume_specification [i8::checked_abs] (x: i8) -> (r: Option<i8>)
    ensures match r { Some(v) => v as int == (if x < 0 { -(x as int) } else { x as int }), None => x == i8::MIN };

//@for checked_neg
pub assume_specification [i8::checked_neg] (x: i8) -> (r: Option<i8>)
    ensures match r { Some(v) => v as int == -(x as int), None => x == i8::MIN };

//@for wrapping_neg
pub assume_specification [i8::wrapping_neg] (x: i8) -> (r: i8)
    ensures r as int == (if x == i8::MIN { x as int } else { -(x as int) });

//@for is_negative
pub assume_specification [i8::is_negative] (x: i8) -> (r: bool)
    ensures r == (x < 0);

//@for is_positive
pub assume_specification [i8::is_positive] (x: i8) -> (r: bool)
    ensures r == (x > 0);

//@for signum
pub assume_specification [i8::signum] (x: i8) -> (r: i8)
    ensures r as int == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });

//@for saturating_add
pub assume_specification [i8::saturating_add] (a: i8, b: i8) -> (r: i8)
    ensures r as int == (if a + b < -0x80 { -0x80 } else if a + b >= 0x80 { 0x80 - 1 } else { a + b });

//@for saturating_sub
pub assume_specification [i8::saturating_sub] (a: i8, b: i8) -> (r: i8)
    ensures r as int == (if a - b < -0x80 { -0x80 } else if a - b >= 0x80 { 0x80 - 1 } else { a - b });

//@for overflowing_add
pub assume_specification [i8::overflowing_add] (a: i8, b: i8) -> (r: (i8, bool))
    ensures r.1 == (a + b < -0x80 || a + b >= 0x80), r.0 as int == (if a + b < -0x80 { a + b + 0x100 } else if a + b >= 0x80 { a + b - 0x100 } else { a + b });

//@for overflowing_neg
pub assume_specification [i8::overflowing_neg] (x: i8) -> (r: (i8, bool))
    ensures r.1 == (x == i8::MIN), r.0 as int == (if r.1 { x as int } else { -(x as int) });

//@for abs_diff
pub assume_specification [i8::abs_diff] (a: i8, b: i8) -> (r: u8)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for saturating_add_unsigned
pub assume_specification [i8::saturating_add_unsigned] (a: i8, b: u8) -> (r: i8)
    ensures r as int == (if a + b >= 0x80 { 0x80 - 1 } else { a + b });

//@for saturating_add_signed
pub assume_specification [u8::saturating_add_signed] (a: u8, b: i8) -> (r: u8)
    ensures r as int == (if a + b < 0 { 0 } else if a + b >= 0x100 { 0x100 - 1 } else { a + b });

//@for unsigned_abs
pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for abs
pub assume_specification [i16::abs] (x: i16) -> (r: i16)
    requires x != i16::MIN,
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for wrapping_abs
pub assume_specification [i16::wrapping_abs] (x: i16) -> (r: i16)
    ensures r as int == (if x < 0 && x != i16::MIN { -(x as int) } else { x as int });

//@for checked_abs
pub assume_specification [i16::checked_abs] (x: i16) -> (r: Option<i16>)
    ensures match r { Some(v) => v as int == (if x < 0 { -(x as int) } else { x as int }), None => x == i16::MIN };

//@for checked_neg
pub assume_specification [i16::checked_neg] (x: i16) -> (r: Option<i16>)
    ensures match r { Some(v) => v as int == -(x as int), None => x == i16::MIN };

//@for wrapping_neg
pub assume_specification [i16::wrapping_neg] (x: i16) -> (r: i16)
    ensures r as int == (if x == i16::MIN { x as int } else { -(x as int) });

//@for is_negative
pub assume_specification [i16::is_negative] (x: i16) -> (r: bool)
    ensures r == (x < 0);

//@for is_positive
pub assume_specification [i16::is_positive] (x: i16) -> (r: bool)
    ensures r == (x > 0);

//@for signum
pub assume_specification [i16::signum] (x: i16) -> (r: i16)
    ensures r as int == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });

//@for saturating_add
pub assume_specification [i16::saturating_add] (a: i16, b: i16) -> (r: i16)
    ensures r as int == (if a + b < -0x8000 { -0x8000 } else if a + b >= 0x8000 { 0x8000 - 1 } else { a + b });

//@for saturating_sub
pub assume_specification [i16::saturating_sub] (a: i16, b: i16) -> (r: i16)
    ensures r as int == (if a - b < -0x8000 { -0x8000 } else if a - b >= 0x8000 { 0x8000 - 1 } else { a - b });

//@for overflowing_add
pub assume_specification [i16::overflowing_add] (a: i16, b: i16) -> (r: (i16, bool))
    ensures r.1 == (a + b < -0x8000 || a + b >= 0x8000), r.0 as int == (if a + b < -0x8000 { a + b + 0x10000 } else if a + b >= 0x8000 { a + b - 0x10000 } else { a + b });

//@for overflowing_neg
pub assume_specification [i16::overflowing_neg] (x: i16) -> (r: (i16, bool))
    ensures r.1 == (x == i16::MIN), r.0 as int == (if r.1 { x as int } else { -(x as int) });

//@for abs_diff
pub assume_specification [i16::abs_diff] (a: i16, b: i16) -> (r: u16)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for saturating_add_unsigned
pub assume_specification [i16::saturating_add_unsigned] (a: i16, b: u16) -> (r: i16)
    ensures r as int == (if a + b >= 0x8000 { 0x8000 - 1 } else { a + b });

//@for saturating_add_signed
pub assume_specification [u16::saturating_add_signed] (a: u16, b: i16) -> (r: u16)
    ensures r as int == (if a + b < 0 { 0 } else if a + b >= 0x10000 { 0x10000 - 1 } else { a + b });

//@for unsigned_abs
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for abs
pub assume_specification [i32::abs] (x: i32) -> (r: i32)
    requires x != i32::MIN,
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for wrapping_abs
pub assume_specification [i32::wrapping_abs] (x: i32) -> (r: i32)
    ensures r as int == (if x < 0 && x != i32::MIN { -(x as int) } else { x as int });

//@for checked_abs
pub assume_specification [i32::checked_abs] (x: i32) -> (r: Option<i32>)
    ensures match r { Some(v) => v as int == (if x < 0 { -(x as int) } else { x as int }), None => x == i32::MIN };

//@for checked_neg
pub assume_specification [i32::checked_neg] (x: i32) -> (r: Option<i32>)
    ensures match r { Some(v) => v as int == -(x as int), None => x == i32::MIN };

//@for wrapping_neg
pub assume_specification [i32::wrapping_neg] (x: i32) -> (r: i32)
    ensures r as int == (if x == i32::MIN { x as int } else { -(x as int) });

//@for is_negative
pub assume_specification [i32::is_negative] (x: i32) -> (r: bool)
    ensures r == (x < 0);

//@for is_positive
pub assume_specification [i32::is_positive] (x: i32) -> (r: bool)
    ensures r == (x > 0);

//@for signum
pub assume_specification [i32::signum] (x: i32) -> (r: i32)
    ensures r as int == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });

//@for saturating_add
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r as int == (if a + b < -0x80000000 { -0x80000000 } else if a + b >= 0x80000000 { 0x80000000 - 1 } else { a + b });

//@for saturating_sub
pub assume_specification [i32::saturating_sub] (a: i32, b: i32) -> (r: i32)
    ensures r as int == (if a - b < -0x80000000 { -0x80000000 } else if a - b >= 0x80000000 { 0x80000000 - 1 } else { a - b });

//@for overflowing_add
pub assume_specification [i32::overflowing_add] (a: i32, b: i32) -> (r: (i32, bool))
    ensures r.1 == (a + b < -0x80000000 || a + b >= 0x80000000), r.0 as int == (if a + b < -0x80000000 { a + b + 0x100000000 } else if a + b >= 0x80000000 { a + b - 0x100000000 } else { a + b });

//@for overflowing_neg
pub assume_specification [i32::overflowing_neg] (x: i32) -> (r: (i32, bool))
    ensures r.1 == (x == i32::MIN), r.0 as int == (if r.1 { x as int } else { -(x as int) });

//@for abs_diff
pub assume_specification [i32::abs_diff] (a: i32, b: i32) -> (r: u32)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for saturating_add_unsigned
pub assume_specification [i32::saturating_add_unsigned] (a: i32, b: u32) -> (r: i32)
    ensures r as int == (if a + b >= 0x80000000 { 0x80000000 - 1 } else { a + b });

//@for saturating_add_signed
pub assume_specification [u32::saturating_add_signed] (a: u32, b: i32) -> (r: u32)
    ensures r as int == (if a + b < 0 { 0 } else if a + b >= 0x100000000 { 0x100000000 - 1 } else { a + b });

//@for unsigned_abs
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for abs
pub assume_specification [i64::abs] (x: i64) -> (r: i64)
    requires x != i64::MIN,
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for wrapping_abs
pub assume_specification [i64::wrapping_abs] (x: i64) -> (r: i64)
    ensures r as int == (if x < 0 && x != i64::MIN { -(x as int) } else { x as int });

//@for checked_abs
pub assume_specification [i64::checked_abs] (x: i64) -> (r: Option<i64>)
    ensures match r { Some(v) => v as int == (if x < 0 { -(x as int) } else { x as int }), None => x == i64::MIN };

//@for checked_neg
pub assume_specification [i64::checked_neg] (x: i64) -> (r: Option<i64>)
    ensures match r { Some(v) => v as int == -(x as int), None => x == i64::MIN };

//@for is_positive
pub assume_specification [i64::is_positive] (x: i64) -> (r: bool)
    ensures r == (x > 0);

//@for signum
pub assume_specification [i64::signum] (x: i64) -> (r: i64)
    ensures r as int == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });

//@for saturating_add
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64)
    ensures r as int == (if a + b < -0x8000000000000000 { -0x8000000000000000 } else if a + b >= 0x8000000000000000 { 0x8000000000000000 - 1 } else { a + b });

//@for saturating_sub
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64)
    ensures r as int == (if a - b < -0x8000000000000000 { -0x8000000000000000 } else if a - b >= 0x8000000000000000 { 0x8000000000000000 - 1 } else { a - b });

//@for overflowing_add
pub assume_specification [i64::overflowing_add] (a: i64, b: i64) -> (r: (i64, bool))
    ensures r.1 == (a + b < -0x8000000000000000 || a + b >= 0x8000000000000000), r.0 as int == (if a + b < -0x8000000000000000 { a + b + 0x10000000000000000 } else if a + b >= 0x8000000000000000 { a + b - 0x10000000000000000 } else { a + b });

//@for overflowing_neg
pub assume_specification [i64::overflowing_neg] (x: i64) -> (r: (i64, bool))
    ensures r.1 == (x == i64::MIN), r.0 as int == (if r.1 { x as int } else { -(x as int) });

//@for abs_diff
pub assume_specification [i64::abs_diff] (a: i64, b: i64) -> (r: u64)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for saturating_add_unsigned
pub assume_specification [i64::saturating_add_unsigned] (a: i64, b: u64) -> (r: i64)
    ensures r as int == (if a + b >= 0x8000000000000000 { 0x8000000000000000 - 1 } else { a + b });

//@for saturating_add_signed
pub assume_specification [u64::saturating_add_signed] (a: u64, b: i64) -> (r: u64)
    ensures r as int == (if a + b < 0 { 0 } else if a + b >= 0x10000000000000000 { 0x10000000000000000 - 1 } else { a + b });

//@for unsigned_abs
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for abs
pub assume_specification [isize::abs] (x: isize) -> (r: isize)
    requires x != isize::MIN,
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

//@for wrapping_abs
pub assume_specification [isize::wrapping_abs] (x: isize) -> (r: isize)
    ensures r as int == (if x < 0 && x != isize::MIN { -(x as int) } else { x as int });

//@for checked_abs
pub assume_specification [isize::checked_abs] (x: isize) -> (r: Option<isize>)
    ensures match r { Some(v) => v as int == (if x < 0 { -(x as int) } else { x as int }), None => x == isize::MIN };

//@for checked_neg
pub assume_specification [isize::checked_neg] (x: isize) -> (r: Option<isize>)
    ensures match r { Some(v) => v as int == -(x as int), None => x == isize::MIN };

//@for wrapping_neg
pub assume_specification [isize::wrapping_neg] (x: isize) -> (r: isize)
    ensures r as int == (if x == isize::MIN { x as int } else { -(x as int) });

//@for is_negative
pub assume_specification [isize::is_negative] (x: isize) -> (r: bool)
    ensures r == (x < 0);

//@for is_positive
pub assume_specification [isize::is_positive] (x: isize) -> (r: bool)
    ensures r == (x > 0);

//@for signum
pub assume_specification [isize::signum] (x: isize) -> (r: isize)
    ensures r as int == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });

//@for saturating_add
pub assume_specification [isize::saturating_add] (a: isize, b: isize) -> (r: isize)
    ensures r as int == (if a + b < -0x8000000000000000 { -0x8000000000000000 } else if a + b >= 0x8000000000000000 { 0x8000000000000000 - 1 } else { a + b });

//@for saturating_sub
pub assume_specification [isize::saturating_sub] (a: isize, b: isize) -> (r: isize)
    ensures r as int == (if a - b < -0x8000000000000000 { -0x8000000000000000 } else if a - b >= 0x8000000000000000 { 0x8000000000000000 - 1 } else { a - b });

//@for overflowing_add
pub assume_specification [isize::overflowing_add] (a: isize, b: isize) -> (r: (isize, bool))
    ensures r.1 == (a + b < -0x8000000000000000 || a + b >= 0x8000000000000000), r.0 as int == (if a + b < -0x8000000000000000 { a + b + 0x10000000000000000 } else if a + b >= 0x8000000000000000 { a + b - 0x10000000000000000 } else { a + b });

//@for overflowing_neg
pub assume_specification [isize::overflowing_neg] (x: isize) -> (r: (isize, bool))
    ensures r.1 == (x == isize::MIN), r.0 as int == (if r.1 { x as int } else { -(x as int) });

//@for abs_diff
pub assume_specification [isize::abs_diff] (a: isize, b: isize) -> (r: usize)
    ensures r as int == (if a >= b { a - b } else { b - a });

//@for saturating_add_unsigned
pub assume_specification [isize::saturating_add_unsigned] (a: isize, b: usize) -> (r: isize)
    ensures r as int == (if a + b >= 0x8000000000000000 { 0x8000000000000000 - 1 } else { a + b });

//@for saturating_add_signed
pub assume_specification [usize::saturating_add_signed] (a: usize, b: isize) -> (r: usize)
    ensures r as int == (if a + b < 0 { 0 } else if a + b >= 0x10000000000000000 { 0x10000000000000000 - 1 } else { a + b });

//@for map_or
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (s: Option<T>, d: U, f: F) -> (r: U)
    requires s is Some ==> f.requires((s->0,)),
    ensures match s { Some(v) => f.ensures((v,), r), None => r == d };

//@for is_some_and
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (s: Option<T>, f: F) -> (r: bool)
    requires s is Some ==> f.requires((s->0,)),
    ensures match s { Some(v) => f.ensures((v,), r), None => !r };

//@for is_none_or
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (s: Option<T>, f: F) -> (r: bool)
    requires s is Some ==> f.requires((s->0,)),
    ensures match s { Some(v) => f.ensures((v,), r), None => r };

//@for or
pub assume_specification<T> [Option::<T>::or] (s: Option<T>, o: Option<T>) -> (r: Option<T>)
    ensures r == (if s is Some { s } else { o });

//@for or_else
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (s: Option<T>, f: F) -> (r: Option<T>)
    requires s is None ==> f.requires(()),
    ensures match s { Some(v) => r == s, None => f.ensures((), r) };

//@for filter
pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (s: Option<T>, f: F) -> (r: Option<T>)
    requires s is Some ==> f.requires((&(s->0),)),
    ensures match s { Some(v) => (r == s && f.ensures((&v,), true)) || (r is None && f.ensures((&v,), false)), None => r is None };

//@for flatten
pub assume_specification<T> [Option::<Option<T>>::flatten] (s: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match s { Some(v) => v, None => None });

//@for replace
pub assume_specification<T> [Option::<T>::replace] (s: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(s), *final(s) == Some(v);

//@for replace
pub assume_specification<T> [core::mem::replace] (s: &mut T, v: T) -> (r: T)
    ensures r == *old(s), *final(s) == v;

//@for copied
pub assume_specification<T: Copy> [Option::<&T>::copied] (s: Option<&T>) -> (r: Option<T>)
    ensures r == (match s { Some(v) => Some(*v), None => None });

//@for zip
pub assume_specification<T, U> [Option::<T>::zip] (s: Option<T>, o: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if s is Some && o is Some { Some((s->0, o->0)) } else { None });

//@for transpose
pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose] (s: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match s { Some(Ok(v)) => Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => Err(e), None => Ok(None) });

//@for and_then
pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E>> [core::result::Result::<T, E>::and_then] (s: core::result::Result<T, E>, f: F) -> (r: core::result::Result<U, E>)
    requires s is Ok ==> f.requires((s->Ok_0,)),
    ensures match s { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };

//@for unwrap_or
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (s: core::result::Result<T, E>, d: T) -> (r: T)
    ensures r == (match s { Ok(v) => v, Err(_) => d });

//@for is_ok_and
pub assume_specification<T, E, F: FnOnce(T) -> bool> [core::result::Result::<T, E>::is_ok_and] (s: core::result::Result<T, E>, f: F) -> (r: bool)
    requires s is Ok ==> f.requires((s->Ok_0,)),
    ensures match s { Ok(v) => f.ensures((v,), r), Err(_) => !r };

//@for then
pub assume_specification [core::cmp::Ordering::then] (a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (if a == core::cmp::Ordering::Equal { b } else { a });

//@for then_with
pub assume_specification<F: FnOnce() -> core::cmp::Ordering> [core::cmp::Ordering::then_with] (a: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires a == core::cmp::Ordering::Equal ==> f.requires(()),
    ensures if a == core::cmp::Ordering::Equal { f.ensures((), r) } else { r == a };

//@for is_lt
pub assume_specification [core::cmp::Ordering::is_lt] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a == core::cmp::Ordering::Less);

//@for is_gt
pub assume_specification [core::cmp::Ordering::is_gt] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a == core::cmp::Ordering::Greater);

//@for is_eq
pub assume_specification [core::cmp::Ordering::is_eq] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a == core::cmp::Ordering::Equal);

//@for is_ne
pub assume_specification [core::cmp::Ordering::is_ne] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a != core::cmp::Ordering::Equal);

//@for is_le
pub assume_specification [core::cmp::Ordering::is_le] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a != core::cmp::Ordering::Greater);

//@for is_ge
pub assume_specification [core::cmp::Ordering::is_ge] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a != core::cmp::Ordering::Less);

//@for reverse
pub assume_specification [core::cmp::Ordering::reverse] (a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal });

//@for then_some
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });

