// Prelude of the generated crate: contracts assumed on the dependencies of the `ntfs` crate and on
// core/alloc operations that vstd does not cover.  Everything `external_body` in here is part of the
// trusted base and is listed in the evidence.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unreachable_code, non_snake_case, unused_parens, unused_braces, private_interfaces, mismatched_lifetime_syntaxes)]
extern crate alloc;
//@FIRST
/// Verus emits the definitions of trait implementations and the facts that a type implements a trait in the order of the
/// call graph, which lacks the edges from trait-level contracts and generic axioms to them.  Every verified function
/// starts with a call of this lemma, which mentions all of them and says nothing.
pub mod order {
use vstd::prelude::*;
use crate::vx::binrw::io::{Dev, Read, Seek};
use crate::vx::binrw::BinRead;
use crate::traits::NtfsReadSeek;
use crate::vx::{VxIdx, VxOrd, VxTryFrom};
use vstd::std_specs::convert::{FromSpec, TryFromSpec};
use vstd::std_specs::ops::{AddSpec, AddAssignSpec};
use vstd::pervasive::arbitrary;
verus! {
pub open spec fn n_copy<T: Copy>() -> int { 0 }
pub open spec fn n_peq<T: PartialEq>() -> int { 0 }
pub open spec fn n_rs<T: Read + Seek>() -> int { 0 }
pub open spec fn n_any<T>(x: T) -> int { 0 }
pub open spec fn order<'a, 'b>(c: crate::vx::binrw::io::Cursor<&'a [u8]>, r: crate::attribute_value::NtfsDataRun, v1: crate::attribute_value::NtfsResidentAttributeValue<'a>, v2: crate::attribute_value::NtfsNonResidentAttributeValue<'a, 'b>, v3: crate::attribute_value::NtfsAttributeListNonResidentAttributeValue<'a, 'b>, v: crate::attribute_value::NtfsAttributeValue<'a, 'b>, d: Seq<u8>, ar: [u8; 8], ve: Vec<u8>, av: crate::vx::arrayvec::ArrayVec<u8, 512>, sl: &'a [u8], ie: crate::vx::binrw::io::Error, be: crate::vx::binrw::error::Error) -> int {
    n_any(<crate::error::NtfsError as FromSpec<crate::vx::binrw::io::Error>>::from_spec(ie)) + n_any(<crate::error::NtfsError as FromSpec<crate::vx::binrw::error::Error>>::from_spec(be)) + (if <crate::error::NtfsError as FromSpec<crate::vx::binrw::io::Error>>::obeys_from_spec() && <crate::error::NtfsError as FromSpec<crate::vx::binrw::error::Error>>::obeys_from_spec() { 0int } else { 1 }) +
    n_copy::<u8>() + n_peq::<u8>() + n_copy::<u16>() + n_peq::<u16>() + n_copy::<u32>() + n_peq::<u32>() + n_copy::<u64>() + n_peq::<u64>() + n_copy::<usize>() + n_peq::<usize>() + n_copy::<i8>() + n_peq::<i8>() + n_copy::<i16>() + n_peq::<i16>() + n_copy::<i32>() + n_peq::<i32>() + n_copy::<i64>() + n_peq::<i64>() + n_copy::<i128>() + n_peq::<i128>() + n_copy::<u128>() + n_peq::<u128>() + n_copy::<bool>() + n_peq::<bool>()
    + (if <usize as VxOrd>::vo_le(0, 0) { 0int } else { 1 }) + (if <u64 as VxOrd>::vo_le(0, 0) { 0int } else { 1 }) + (if <u32 as VxOrd>::vo_le(0, 0) { 0int } else { 1 }) + (if <u16 as VxOrd>::vo_le(0, 0) { 0int } else { 1 })
    + <u8 as BinRead>::br_size() + n_any(<u8 as BinRead>::br_val(d, 0)) + <i8 as BinRead>::br_size() + n_any(<i8 as BinRead>::br_val(d, 0)) + <u16 as BinRead>::br_size() + n_any(<u16 as BinRead>::br_val(d, 0)) + <u32 as BinRead>::br_size() + n_any(<u32 as BinRead>::br_val(d, 0)) + <u64 as BinRead>::br_size() + n_any(<u64 as BinRead>::br_val(d, 0)) + <i64 as BinRead>::br_size() + n_any(<i64 as BinRead>::br_val(d, 0)) + <[u8; 7] as BinRead>::br_size() + n_any(<[u8; 7] as BinRead>::br_val(d, 0))
    + (if <i64 as VxTryFrom<u64>>::tf_ok(0) && <i64 as VxTryFrom<u64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <i64 as VxTryFrom<usize>>::tf_ok(0) && <i64 as VxTryFrom<usize>>::tf_val(0, 0) { 0int } else { 1 }) + (if <i64 as VxTryFrom<i128>>::tf_ok(0) && <i64 as VxTryFrom<i128>>::tf_val(0, 0) { 0int } else { 1 }) + (if <i64 as VxTryFrom<u128>>::tf_ok(0) && <i64 as VxTryFrom<u128>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u64 as VxTryFrom<i64>>::tf_ok(0) && <u64 as VxTryFrom<i64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u64 as VxTryFrom<i128>>::tf_ok(0) && <u64 as VxTryFrom<i128>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u64 as VxTryFrom<u128>>::tf_ok(0) && <u64 as VxTryFrom<u128>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u64 as VxTryFrom<usize>>::tf_ok(0) && <u64 as VxTryFrom<usize>>::tf_val(0, 0) { 0int } else { 1 }) + (if <usize as VxTryFrom<i64>>::tf_ok(0) && <usize as VxTryFrom<i64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <usize as VxTryFrom<u64>>::tf_ok(0) && <usize as VxTryFrom<u64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <usize as VxTryFrom<u128>>::tf_ok(0) && <usize as VxTryFrom<u128>>::tf_val(0, 0) { 0int } else { 1 }) + (if <usize as VxTryFrom<i128>>::tf_ok(0) && <usize as VxTryFrom<i128>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u32 as VxTryFrom<u64>>::tf_ok(0) && <u32 as VxTryFrom<u64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u32 as VxTryFrom<usize>>::tf_ok(0) && <u32 as VxTryFrom<usize>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u32 as VxTryFrom<i64>>::tf_ok(0) && <u32 as VxTryFrom<i64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u16 as VxTryFrom<u64>>::tf_ok(0) && <u16 as VxTryFrom<u64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u16 as VxTryFrom<usize>>::tf_ok(0) && <u16 as VxTryFrom<usize>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u16 as VxTryFrom<u32>>::tf_ok(0) && <u16 as VxTryFrom<u32>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u8 as VxTryFrom<u64>>::tf_ok(0) && <u8 as VxTryFrom<u64>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u8 as VxTryFrom<usize>>::tf_ok(0) && <u8 as VxTryFrom<usize>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u8 as VxTryFrom<u32>>::tf_ok(0) && <u8 as VxTryFrom<u32>>::tf_val(0, 0) { 0int } else { 1 }) + (if <u8 as VxTryFrom<u16>>::tf_ok(0) && <u8 as VxTryFrom<u16>>::tf_val(0, 0) { 0int } else { 1 })
    + (if <[u8; 8] as VxTryFrom<&'a [u8]>>::tf_ok(sl) && <[u8; 8] as VxTryFrom<&'a [u8]>>::tf_val(sl, ar) { 0int } else { 1 })
    + n_rs::<crate::vx::binrw::io::Cursor<&'a [u8]>>()
    + ar.vb().len() + ve.vb().len() + av.vb().len() + sl.vb().len()
    + c.disk().len() + c.dpos() + c.davail() + c.dsafe() + (if c.dinv() { 0int } else { 1 })
    + r.rs_content(d).len() + r.rs_avail(d, 0) + r.rs_pos() + (if r.rs_inv(d) { 0int } else { 1 })
    + v1.rs_content(d).len() + v1.rs_avail(d, 0) + v1.rs_pos() + (if v1.rs_inv(d) { 0int } else { 1 })
    + v2.rs_content(d).len() + v2.rs_avail(d, 0) + v2.rs_pos() + (if v2.rs_inv(d) { 0int } else { 1 })
    + v3.rs_content(d).len() + v3.rs_avail(d, 0) + v3.rs_pos() + (if v3.rs_inv(d) { 0int } else { 1 })
    + v.rs_content(d).len() + v.rs_avail(d, 0) + v.rs_pos() + (if v.rs_inv(d) { 0int } else { 1 })
}
pub proof fn mark() {
    assert(forall|c: crate::vx::binrw::io::Cursor<&[u8]>, r: crate::attribute_value::NtfsDataRun, v1: crate::attribute_value::NtfsResidentAttributeValue, v2: crate::attribute_value::NtfsNonResidentAttributeValue, v3: crate::attribute_value::NtfsAttributeListNonResidentAttributeValue, v: crate::attribute_value::NtfsAttributeValue, d: Seq<u8>, ar: [u8; 8], ve: Vec<u8>, av: crate::vx::arrayvec::ArrayVec<u8, 512>, sl: &[u8], ie: crate::vx::binrw::io::Error, be: crate::vx::binrw::error::Error| #[trigger] order(c, r, v1, v2, v3, v, d, ar, ve, av, sl, ie, be) == order(c, r, v1, v2, v3, v, d, ar, ve, av, sl, ie, be));
}
} // verus!
}
pub mod vx {
use vstd::prelude::*;
verus! {

// 64-bit targets only
global size_of usize == 8;

// ---------------------------------------------------------------- runtime checks
/// `assert!` and friends: must never fail.
pub fn rt_assert(c: bool)
    requires c,
{
}

/// `unreachable!`, `panic!`: must never be reached.
#[verifier::external_body]
pub fn rt_unreachable() -> !
    requires false,
{
    unimplemented!()
}

/// A value the language leaves unspecified (e.g. `offset_of!` of a `repr(Rust)` struct).
#[verifier::external_body]
pub fn unspecified_usize() -> (r: usize)
{
    unimplemented!()
}

// ---------------------------------------------------------------- little-endian decoding
pub open spec fn le16(s: Seq<u8>, o: int) -> u16 {
    (s[o] as int + 256 * (s[o + 1] as int)) as u16
}

pub open spec fn le32(s: Seq<u8>, o: int) -> u32 {
    (le16(s, o) as int + 0x1_0000 * (le16(s, o + 2) as int)) as u32
}

pub open spec fn le64(s: Seq<u8>, o: int) -> u64 {
    (le32(s, o) as int + 0x1_0000_0000 * (le32(s, o + 4) as int)) as u64
}

#[verifier::external_body]
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == le16(b@, 0),
{ unimplemented!() }

#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == le32(b@, 0),
{ unimplemented!() }

#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
    ensures r == le64(b@, 0),
{ unimplemented!() }

#[verifier::external_body]
pub fn i64_from_le_bytes(b: [u8; 8]) -> (r: i64)
    ensures r == le64(b@, 0) as i64,
{ unimplemented!() }

// ---------------------------------------------------------------- slices
/// Byte containers that can be sliced: `X[a..b]` is extracted as `X.vx_range(a, b)` etc.
pub trait VxIdx {
    spec fn vb(&self) -> Seq<u8>;

    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.vb().len(),
        ensures self.vb().len() <= usize::MAX, r@ == self.vb().subrange(a as int, b as int);

    fn vx_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.vb().len(),
        ensures self.vb().len() <= usize::MAX, r@ == self.vb().subrange(a as int, self.vb().len() as int);

    fn vx_to(&self, b: usize) -> (r: &[u8])
        requires b <= self.vb().len(),
        ensures self.vb().len() <= usize::MAX, r@ == self.vb().subrange(0, b as int);

    fn vx_rng(&self, r: core::ops::Range<usize>) -> (s: &[u8])
        requires r.start <= r.end <= self.vb().len(),
        ensures self.vb().len() <= usize::MAX, s@ == self.vb().subrange(r.start as int, r.end as int);

    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8])
        requires a <= b <= old(self).vb().len(),
        ensures
            old(self).vb().len() <= usize::MAX,
            r@ == old(self).vb().subrange(a as int, b as int),
            final(r)@.len() == r@.len(),
            final(self).vb() == old(self).vb().subrange(0, a as int) + final(r)@ + old(self).vb().subrange(b as int, old(self).vb().len() as int);

    fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8])
        requires a <= old(self).vb().len(),
        ensures
            old(self).vb().len() <= usize::MAX,
            r@ == old(self).vb().subrange(a as int, old(self).vb().len() as int),
            final(r)@.len() == r@.len(),
            final(self).vb() == old(self).vb().subrange(0, a as int) + final(r)@;

    fn vx_to_mut(&mut self, b: usize) -> (r: &mut [u8])
        requires b <= old(self).vb().len(),
        ensures
            old(self).vb().len() <= usize::MAX,
            r@ == old(self).vb().subrange(0, b as int),
            final(r)@.len() == r@.len(),
            final(self).vb() == final(r)@ + old(self).vb().subrange(b as int, old(self).vb().len() as int);

    fn vx_all_mut(&mut self) -> (r: &mut [u8])
        ensures
            old(self).vb().len() <= usize::MAX,
            r@ == old(self).vb(),
            final(r)@.len() == r@.len(),
            final(self).vb() == final(r)@;

    fn vx_all(&self) -> (r: &[u8])
        ensures self.vb().len() <= usize::MAX, r@ == self.vb();
}

impl VxIdx for [u8] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_rng(&self, r: core::ops::Range<usize>) -> (s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_mut(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[u8]) { unimplemented!() }
}

impl VxIdx for Vec<u8> {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_rng(&self, r: core::ops::Range<usize>) -> (s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_mut(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[u8]) { unimplemented!() }
}

impl<const N: usize> VxIdx for [u8; N] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_rng(&self, r: core::ops::Range<usize>) -> (s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_mut(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[u8]) { unimplemented!() }
}

/// `[x; N]` values are determined by their elements.
pub uninterp spec fn arr<const N: usize>(s: Seq<u8>) -> [u8; N];

pub broadcast axiom fn axiom_arr<const N: usize>(s: Seq<u8>)
    requires s.len() == N,
    ensures #[trigger] arr::<N>(s)@ == s;

pub broadcast axiom fn axiom_arr_ext<const N: usize>(a: [u8; N], b: [u8; N])
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b;

pub broadcast axiom fn axiom_arr_obeys<const N: usize>()
    ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();

pub broadcast axiom fn axiom_arr_eq<const N: usize>(a: [u8; N], b: [u8; N])
    ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&a, &b) == (a@ == b@);

pub broadcast axiom fn axiom_slice_arr_obeys<const N: usize>()
    ensures #[trigger] <&mut [u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec();

pub broadcast axiom fn axiom_slice_arr_eq<const N: usize>(a: &mut [u8], b: [u8; N])
    ensures #[trigger] <&mut [u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (old(a)@ == b@);

pub broadcast proof fn lemma_prefix(a: Seq<u8>, b: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + b).subrange(0, n) == a,
{
    assert((a + b).subrange(0, n) =~= a);
}

pub broadcast proof fn lemma_subrange_all(a: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] a.subrange(0, n) == a,
{
    assert(a.subrange(0, n) =~= a);
}

pub broadcast proof fn lemma_subrange_subrange(a: Seq<u8>, i: int, j: int, k: int, l: int)
    requires 0 <= i <= j <= a.len(), 0 <= k <= l <= j - i,
    ensures #[trigger] a.subrange(i, j).subrange(k, l) == a.subrange(i + k, i + l),
{
    assert(a.subrange(i, j).subrange(k, l) =~= a.subrange(i + k, i + l));
}

/// `From<T> for T` is the identity.
pub broadcast axiom fn axiom_from_refl<T>(x: T)
    ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(x) == x;
pub broadcast axiom fn axiom_from_refl_obeys<T>()
    ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec();

/// What the `?` operator makes of errors: it calls `From::from`.
pub broadcast axiom fn axiom_try_io(e: crate::vx::binrw::io::Error, s: crate::error::NtfsError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<crate::error::NtfsError, crate::vx::binrw::io::Error>(e, s) ==> s == crate::error::NtfsError::Io(e);
pub broadcast axiom fn axiom_try_binrw(e: crate::vx::binrw::error::Error, s: crate::error::NtfsError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<crate::error::NtfsError, crate::vx::binrw::error::Error>(e, s) ==> s == crate::error::NtfsError::Io(br_io(e));
/// The error inside.
pub uninterp spec fn br_io(e: crate::vx::binrw::error::Error) -> crate::vx::binrw::io::Error;

pub broadcast group group_vx {
    axiom_from_refl,
    axiom_from_refl_obeys,
    axiom_try_io,
    axiom_try_binrw,
    lemma_prefix,
    lemma_subrange_all,
    lemma_subrange_subrange,
    axiom_slice_arr_obeys,
    axiom_slice_arr_eq,
    axiom_arr,
    axiom_arr_ext,
    axiom_arr_obeys,
    axiom_arr_eq,
}

// ---------------------------------------------------------------- conversions
/// `x.try_into()` is extracted as `vx_try_into(x)`.
pub trait VxTryFrom<A: Sized>: Sized {
    spec fn tf_ok(a: A) -> bool;
    spec fn tf_val(a: A, r: Self) -> bool;
    fn vx_try_from(a: A) -> (r: core::result::Result<Self, VxTryErr>)
        ensures
            r is Ok <==> Self::tf_ok(a),
            match r { Ok(v) => Self::tf_val(a, v), Err(_) => true };
}

#[derive(Debug)]
pub struct VxTryErr {}

impl<'a, const N: usize> VxTryFrom<&'a [u8]> for [u8; N] {
    open spec fn tf_ok(a: &'a [u8]) -> bool { a@.len() == N }
    open spec fn tf_val(a: &'a [u8], r: [u8; N]) -> bool { r@ == a@ }
    #[verifier::external_body]
    fn vx_try_from(a: &'a [u8]) -> (r: core::result::Result<Self, VxTryErr>) { unimplemented!() }
}

impl VxTryFrom<u64> for i64 {
    open spec fn tf_ok(a: u64) -> bool { i64::MIN <= a <= i64::MAX }
    open spec fn tf_val(a: u64, r: i64) -> bool { r == a }
    fn vx_try_from(a: u64) -> (r: core::result::Result<Self, VxTryErr>) { if a <= i64::MAX as u64 { Ok(a as i64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<usize> for i64 {
    open spec fn tf_ok(a: usize) -> bool { i64::MIN <= a <= i64::MAX }
    open spec fn tf_val(a: usize, r: i64) -> bool { r == a }
    fn vx_try_from(a: usize) -> (r: core::result::Result<Self, VxTryErr>) { if a <= i64::MAX as usize { Ok(a as i64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<i128> for i64 {
    open spec fn tf_ok(a: i128) -> bool { i64::MIN <= a <= i64::MAX }
    open spec fn tf_val(a: i128, r: i64) -> bool { r == a }
    fn vx_try_from(a: i128) -> (r: core::result::Result<Self, VxTryErr>) { if i64::MIN as i128 <= a && a <= i64::MAX as i128 { Ok(a as i64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u128> for i64 {
    open spec fn tf_ok(a: u128) -> bool { i64::MIN <= a <= i64::MAX }
    open spec fn tf_val(a: u128, r: i64) -> bool { r == a }
    fn vx_try_from(a: u128) -> (r: core::result::Result<Self, VxTryErr>) { if a <= i64::MAX as u128 { Ok(a as i64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<i64> for u64 {
    open spec fn tf_ok(a: i64) -> bool { u64::MIN <= a <= u64::MAX }
    open spec fn tf_val(a: i64, r: u64) -> bool { r == a }
    fn vx_try_from(a: i64) -> (r: core::result::Result<Self, VxTryErr>) { if u64::MIN as i64 <= a { Ok(a as u64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<i128> for u64 {
    open spec fn tf_ok(a: i128) -> bool { u64::MIN <= a <= u64::MAX }
    open spec fn tf_val(a: i128, r: u64) -> bool { r == a }
    fn vx_try_from(a: i128) -> (r: core::result::Result<Self, VxTryErr>) { if u64::MIN as i128 <= a && a <= u64::MAX as i128 { Ok(a as u64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u128> for u64 {
    open spec fn tf_ok(a: u128) -> bool { u64::MIN <= a <= u64::MAX }
    open spec fn tf_val(a: u128, r: u64) -> bool { r == a }
    fn vx_try_from(a: u128) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u64::MAX as u128 { Ok(a as u64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<usize> for u64 {
    open spec fn tf_ok(a: usize) -> bool { u64::MIN <= a <= u64::MAX }
    open spec fn tf_val(a: usize, r: u64) -> bool { r == a }
    fn vx_try_from(a: usize) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u64::MAX as usize { Ok(a as u64) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<i64> for usize {
    open spec fn tf_ok(a: i64) -> bool { usize::MIN <= a <= usize::MAX }
    open spec fn tf_val(a: i64, r: usize) -> bool { r == a }
    fn vx_try_from(a: i64) -> (r: core::result::Result<Self, VxTryErr>) { if usize::MIN as i64 <= a { Ok(a as usize) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u64> for usize {
    open spec fn tf_ok(a: u64) -> bool { usize::MIN <= a <= usize::MAX }
    open spec fn tf_val(a: u64, r: usize) -> bool { r == a }
    fn vx_try_from(a: u64) -> (r: core::result::Result<Self, VxTryErr>) { if a <= usize::MAX as u64 { Ok(a as usize) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u128> for usize {
    open spec fn tf_ok(a: u128) -> bool { usize::MIN <= a <= usize::MAX }
    open spec fn tf_val(a: u128, r: usize) -> bool { r == a }
    fn vx_try_from(a: u128) -> (r: core::result::Result<Self, VxTryErr>) { if a <= usize::MAX as u128 { Ok(a as usize) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<i128> for usize {
    open spec fn tf_ok(a: i128) -> bool { usize::MIN <= a <= usize::MAX }
    open spec fn tf_val(a: i128, r: usize) -> bool { r == a }
    fn vx_try_from(a: i128) -> (r: core::result::Result<Self, VxTryErr>) { if usize::MIN as i128 <= a && a <= usize::MAX as i128 { Ok(a as usize) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u64> for u32 {
    open spec fn tf_ok(a: u64) -> bool { u32::MIN <= a <= u32::MAX }
    open spec fn tf_val(a: u64, r: u32) -> bool { r == a }
    fn vx_try_from(a: u64) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u32::MAX as u64 { Ok(a as u32) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<usize> for u32 {
    open spec fn tf_ok(a: usize) -> bool { u32::MIN <= a <= u32::MAX }
    open spec fn tf_val(a: usize, r: u32) -> bool { r == a }
    fn vx_try_from(a: usize) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u32::MAX as usize { Ok(a as u32) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<i64> for u32 {
    open spec fn tf_ok(a: i64) -> bool { u32::MIN <= a <= u32::MAX }
    open spec fn tf_val(a: i64, r: u32) -> bool { r == a }
    fn vx_try_from(a: i64) -> (r: core::result::Result<Self, VxTryErr>) { if u32::MIN as i64 <= a && a <= u32::MAX as i64 { Ok(a as u32) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u64> for u16 {
    open spec fn tf_ok(a: u64) -> bool { u16::MIN <= a <= u16::MAX }
    open spec fn tf_val(a: u64, r: u16) -> bool { r == a }
    fn vx_try_from(a: u64) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u16::MAX as u64 { Ok(a as u16) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<usize> for u16 {
    open spec fn tf_ok(a: usize) -> bool { u16::MIN <= a <= u16::MAX }
    open spec fn tf_val(a: usize, r: u16) -> bool { r == a }
    fn vx_try_from(a: usize) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u16::MAX as usize { Ok(a as u16) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u32> for u16 {
    open spec fn tf_ok(a: u32) -> bool { u16::MIN <= a <= u16::MAX }
    open spec fn tf_val(a: u32, r: u16) -> bool { r == a }
    fn vx_try_from(a: u32) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u16::MAX as u32 { Ok(a as u16) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u64> for u8 {
    open spec fn tf_ok(a: u64) -> bool { u8::MIN <= a <= u8::MAX }
    open spec fn tf_val(a: u64, r: u8) -> bool { r == a }
    fn vx_try_from(a: u64) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u8::MAX as u64 { Ok(a as u8) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<usize> for u8 {
    open spec fn tf_ok(a: usize) -> bool { u8::MIN <= a <= u8::MAX }
    open spec fn tf_val(a: usize, r: u8) -> bool { r == a }
    fn vx_try_from(a: usize) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u8::MAX as usize { Ok(a as u8) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u32> for u8 {
    open spec fn tf_ok(a: u32) -> bool { u8::MIN <= a <= u8::MAX }
    open spec fn tf_val(a: u32, r: u8) -> bool { r == a }
    fn vx_try_from(a: u32) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u8::MAX as u32 { Ok(a as u8) } else { Err(VxTryErr {}) } }
}
impl VxTryFrom<u16> for u8 {
    open spec fn tf_ok(a: u16) -> bool { u8::MIN <= a <= u8::MAX }
    open spec fn tf_val(a: u16, r: u8) -> bool { r == a }
    fn vx_try_from(a: u16) -> (r: core::result::Result<Self, VxTryErr>) { if a <= u8::MAX as u16 { Ok(a as u8) } else { Err(VxTryErr {}) } }
}

pub fn vx_try_into<A, B: VxTryFrom<A>>(a: A) -> (r: core::result::Result<B, VxTryErr>)
    ensures
        r is Ok <==> B::tf_ok(a),
        match r { Ok(v) => B::tf_val(a, v), Err(_) => true },
{
    B::vx_try_from(a)
}

// ---------------------------------------------------------------- iterators of core
/// `Iterator<Item = T>` as a bound: a finite sequence of items.
pub trait VxIter<T> {
    /// The items still to come.
    spec fn left(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
                None => old(self).left().len() == 0 && final(self).left().len() == 0,
            };
}
#[verifier::external_body]
pub struct Units { x: u8 }
impl VxIter<u16> for Units {
    uninterp spec fn left(&self) -> Seq<u16>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<u16>) { unimplemented!() }
}
/// `str::encode_utf16`
pub trait VxStr {
    spec fn chars(&self) -> Seq<char>;
    fn vx_encode_utf16(&self) -> (r: Units)
        ensures r.left() == crate::vx::nt_string::u16strle::utf16(self.chars());
}
impl VxStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_encode_utf16(&self) -> (r: Units) { unimplemented!() }
}
pub open spec fn vx_mapped<R, F: Fn(&[u8]) -> R>(f: F, s: Seq<u8>, r: R) -> bool {
    exists|c: &[u8]| c@ == s && #[trigger] f.ensures((c,), r)
}
/// `x.chunks_exact(n).map(f).collect::<Vec<R>>()`
#[verifier::external_body]
pub fn vx_chunks_map<R, F: Fn(&[u8]) -> R>(x: &[u8], n: usize, f: F) -> (r: Vec<R>)
    requires
        n > 0,
        forall|c: &[u8]| c@.len() == n ==> #[trigger] f.requires((c,)),
    ensures
        r@.len() == x@.len() / n as nat,
        forall|k: int| 0 <= k < r@.len() ==> vx_mapped(f, x@.subrange(k * n, (k + 1) * n), #[trigger] r@[k]),
{ unimplemented!() }

// ---------------------------------------------------------------- numbers
pub trait VxOrd: Sized {
    spec fn vo_le(a: Self, b: Self) -> bool;
    fn vo_min(a: Self, b: Self) -> (r: Self)
        ensures r == (if Self::vo_le(a, b) { a } else { b });
    fn vo_max(a: Self, b: Self) -> (r: Self)
        ensures r == (if Self::vo_le(a, b) { b } else { a });
}
impl VxOrd for usize {
    open spec fn vo_le(a: usize, b: usize) -> bool { a <= b }
    fn vo_min(a: usize, b: usize) -> (r: usize) { if a <= b { a } else { b } }
    fn vo_max(a: usize, b: usize) -> (r: usize) { if a <= b { b } else { a } }
}
impl VxOrd for u64 {
    open spec fn vo_le(a: u64, b: u64) -> bool { a <= b }
    fn vo_min(a: u64, b: u64) -> (r: u64) { if a <= b { a } else { b } }
    fn vo_max(a: u64, b: u64) -> (r: u64) { if a <= b { b } else { a } }
}
impl VxOrd for u32 {
    open spec fn vo_le(a: u32, b: u32) -> bool { a <= b }
    fn vo_min(a: u32, b: u32) -> (r: u32) { if a <= b { a } else { b } }
    fn vo_max(a: u32, b: u32) -> (r: u32) { if a <= b { b } else { a } }
}
impl VxOrd for u16 {
    open spec fn vo_le(a: u16, b: u16) -> bool { a <= b }
    fn vo_min(a: u16, b: u16) -> (r: u16) { if a <= b { a } else { b } }
    fn vo_max(a: u16, b: u16) -> (r: u16) { if a <= b { b } else { a } }
}
pub fn vx_min<A: VxOrd>(a: A, b: A) -> (r: A)
    ensures r == (if A::vo_le(a, b) { a } else { b }),
{ A::vo_min(a, b) }
pub fn vx_max<A: VxOrd>(a: A, b: A) -> (r: A)
    ensures r == (if A::vo_le(a, b) { b } else { a }),
{ A::vo_max(a, b) }

pub open spec fn pow2_16(x: u16) -> bool {
    x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32 || x == 64 || x == 128 || x == 256 || x == 512 || x == 1024
    || x == 2048 || x == 4096 || x == 8192 || x == 16384 || x == 32768
}
pub assume_specification [ <core::cmp::Ordering as PartialEq<core::cmp::Ordering>>::eq ](a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification [u16::is_power_of_two] (x: u16) -> (r: bool)
    ensures r == pow2_16(x);
pub assume_specification [u8::is_power_of_two] (x: u8) -> (r: bool)
    ensures r == pow2_16(x as u16);
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };
pub assume_specification [i64::wrapping_neg] (x: i64) -> (r: i64)
    ensures r == (if x == i64::MIN { x } else { (-x) as i64 });
pub assume_specification [i64::is_negative] (x: i64) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| v);

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> cloned(s@[i], r@[i]);
pub assume_specification<Idx> [core::ops::Range::<Idx>::is_empty] (s: &core::ops::Range<Idx>) -> (r: bool)
    where Idx: core::cmp::PartialOrd + core::cmp::PartialOrd,
    ensures <Idx as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec() ==> r == (<Idx as vstd::std_specs::cmp::PartialOrdSpec>::partial_cmp_spec(&s.start, &s.end) != Some(core::cmp::Ordering::Less));

pub assume_specification<Idx: Clone> [<core::ops::Range<Idx> as Clone>::clone] (s: &core::ops::Range<Idx>) -> (r: core::ops::Range<Idx>)
    ensures cloned(s.start, r.start), cloned(s.end, r.end);

//@STD

/// `n.wrapping_neg() as u64` is the absolute value of a negative `n`.
pub proof fn lemma_neg_cast()
    ensures (i64::MIN as u64) == 0x8000_0000_0000_0000u64,
{
    assert((i64::MIN as u64) == 0x8000_0000_0000_0000u64) by (bit_vector);
}

/// `NonZeroU64`
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct NonZeroU64(pub u64);
impl NonZeroU64 {
    pub const fn new(n: u64) -> (r: Option<NonZeroU64>)
        ensures r == (if n == 0 { None::<NonZeroU64> } else { Some(NonZeroU64(n)) }),
    { if n == 0 { None } else { Some(NonZeroU64(n)) } }
    #[verifier::external_body]
    pub const fn get(self) -> (r: u64)
        ensures r == self.0, r != 0,
    { self.0 }
}

#[verifier::external_body]
pub fn vec_from_elem<A: Clone>(x: A, n: usize) -> (r: Vec<A>)
    ensures r@ == Seq::new(n as nat, |i: int| x),
{ unimplemented!() }

} // verus!

// ---------------------------------------------------------------- core::fmt
pub mod fmt {
use vstd::prelude::*;
use super::*;
verus! {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result = core::result::Result<(), Error>;
    /// Hexadecimal digit.
    #[verifier::opaque]
    pub open spec fn hexdigit(d: int, upper: bool) -> char {
        if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' }
        else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else if d == 9 { '9' }
        else if d == 10 { if upper { 'A' } else { 'a' } } else if d == 11 { if upper { 'B' } else { 'b' } } else if d == 12 { if upper { 'C' } else { 'c' } }
        else if d == 13 { if upper { 'D' } else { 'd' } } else if d == 14 { if upper { 'E' } else { 'e' } } else { if upper { 'F' } else { 'f' } }
    }
    /// The lowest `w` hexadecimal digits of `v`.
    #[verifier::opaque]
    pub open spec fn hexw(v: int, w: nat, upper: bool) -> Seq<char>
        decreases w,
    {
        if w == 0 { Seq::empty() } else { hexw(v / 16, (w - 1) as nat, upper).push(hexdigit(v % 16, upper)) }
    }
    pub open spec fn pow16(w: nat) -> int
        decreases w,
    {
        if w == 0 { 1 } else { 16 * pow16((w - 1) as nat) }
    }
    #[verifier::external_body]
    pub struct Formatter<'a> { x: &'a u8 }
    impl<'a> Formatter<'a> {
        /// What has been written so far.
        pub uninterp spec fn text(&self) -> Seq<char>;
        /// A literal piece of a format string.
        #[verifier::external_body]
        pub fn vx_lit(&mut self, s: &str) -> (r: Result)
            ensures r is Ok ==> final(self).text() == old(self).text() + s@,
        { unimplemented!() }
        /// `{:0wX}` and `{:0wx}`
        #[verifier::external_body]
        pub fn vx_hex(&mut self, w: usize, upper: bool, v: u64) -> (r: Result)
            ensures r is Ok && v < pow16(w as nat) ==> final(self).text() == old(self).text() + hexw(v as int, w as nat, upper),
        { unimplemented!() }
    }
    /// Formatting with the implementation of another type.
    #[verifier::external_body]
    pub fn delegate<T: ?Sized>(x: &T, f: &mut Formatter<'_>) -> (r: Result)
    { unimplemented!() }
    pub trait VxHex: Sized {
        spec fn v(self) -> int;
        fn vx_u64(self) -> (r: u64) ensures r == self.v();
    }
    impl VxHex for u8 { open spec fn v(self) -> int { self as int } fn vx_u64(self) -> (r: u64) { self as u64 } }
    impl VxHex for u16 { open spec fn v(self) -> int { self as int } fn vx_u64(self) -> (r: u64) { self as u64 } }
    impl VxHex for u32 { open spec fn v(self) -> int { self as int } fn vx_u64(self) -> (r: u64) { self as u64 } }
    impl VxHex for u64 { open spec fn v(self) -> int { self as int } fn vx_u64(self) -> (r: u64) { self } }
} // verus!
}

pub mod byteorder {
use vstd::prelude::*;
use super::*;
verus! {
pub struct LittleEndian {}
pub trait ByteOrder {
    fn read_u16(b: &[u8]) -> (r: u16)
        requires b@.len() >= 2,
        ensures r == le16(b@, 0);
    fn read_u32(b: &[u8]) -> (r: u32)
        requires b@.len() >= 4,
        ensures r == le32(b@, 0);
    fn read_u64(b: &[u8]) -> (r: u64)
        requires b@.len() >= 8,
        ensures r == le64(b@, 0);
    fn read_i64(b: &[u8]) -> (r: i64)
        requires b@.len() >= 8,
        ensures r == le64(b@, 0) as i64;
}
impl ByteOrder for LittleEndian {
    #[verifier::external_body] fn read_u16(b: &[u8]) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn read_u32(b: &[u8]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn read_u64(b: &[u8]) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn read_i64(b: &[u8]) -> (r: i64) { unimplemented!() }
}
} // verus!
}

pub mod nt_string {
pub mod u16strle {
use vstd::prelude::*;
use crate::vx::*;
verus! {
/// A string of UTF-16 code units stored as little-endian bytes (an odd last byte is ignored).
#[derive(Clone, Copy)]
pub struct U16StrLe<'a>(pub &'a [u8]);

pub fn vx_u16strle<'a, X: VxIdx + ?Sized>(x: &'a X) -> (r: U16StrLe<'a>)
    ensures r.0@ == x.vb(),
{ U16StrLe(x.vx_all()) }

/// Code units of the string.
pub open spec fn units(b: Seq<u8>) -> Seq<u16> {
    Seq::new((b.len() / 2) as nat, |i: int| le16(b, 2 * i))
}

/// UTF-16 code units of a string.
pub open spec fn utf16(s: Seq<char>) -> Seq<u16>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let c = s[0] as u32;
        (if c < 0x1_0000 { seq![c as u16] } else { seq![(0xd800 + (c - 0x1_0000) / 0x400) as u16, (0xdc00 + (c - 0x1_0000) % 0x400) as u16] }) + utf16(s.skip(1))
    }
}

pub proof fn lemma_utf16_empty(s: Seq<char>)
    ensures utf16(s).len() == 0 <==> s.len() == 0,
{
    if s.len() > 0 { assert(utf16(s).len() >= 1); }
}

impl<'a, 'b> PartialEq<&'b str> for U16StrLe<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &&'b str) -> bool { unimplemented!() }
}
impl<'a, 'b> vstd::std_specs::cmp::PartialEqSpecImpl<&'b str> for U16StrLe<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'b str) -> bool { units(self.0@) == utf16((*other)@) }
}

impl<'a> U16StrLe<'a> {
    #[verifier::external_body]
    pub fn u16_iter(&self) -> (r: Units)
        ensures r.left() == units(self.0@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.0@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.0@.len(),
    { unimplemented!() }
}
} // verus!
}
}

pub mod arrayvec {
use vstd::prelude::*;
use super::*;
verus! {
/// `ArrayVec<u8, N>`
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct ArrayVec<A, const N: usize> { x: Vec<A> }

impl<const N: usize> View for ArrayVec<u8, N> {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}

impl<const N: usize> ArrayVec<u8, N> {
    #[verifier::external_body]
    pub fn from(a: [u8; N]) -> (r: Self)
        ensures r@ == a@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
}

impl<const N: usize> VxIdx for ArrayVec<u8, N> {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_rng(&self, r: core::ops::Range<usize>) -> (s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_mut(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[u8]) { unimplemented!() }
}
} // verus!
}

pub mod binrw {
use vstd::prelude::*;
use super::*;
pub mod io {
use vstd::prelude::*;
use crate::vx::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { Interrupted, UnexpectedEof, InvalidInput, Other }

/// `io::Error`: opaque, except for its kind.
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { x: u8 }

impl Error {
    pub uninterp spec fn kind_spec(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error)
        ensures r.kind_spec() == kind,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind)
        ensures r == self.kind_spec(),
    { unimplemented!() }
}

pub type Result<T> = core::result::Result<T, Error>;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

/// Ghost view of a reader: the bytes it can deliver and its position.
pub trait Dev {
    spec fn disk(&self) -> Seq<u8>;
    spec fn dpos(&self) -> int;
    /// Representation invariant of the reader.
    spec fn dinv(&self) -> bool;
    /// Position from which on reads deliver nothing.
    spec fn davail(&self) -> int;
    /// Reads that stay before this position never fail (-1 if nothing is known).
    spec fn dsafe(&self) -> int;
    /// Readers of this kind deliver every byte before `davail`, at the first attempt.
    spec fn dsound() -> bool;
    /// Bytes and end of the reader underneath and its value when it is given back, if this is a reader on top of another one.
    type Under;
    #[verifier::prophetic]
    spec fn dunder(&self) -> Self::Under;
}

/// Target of a seek, if it is a valid position.
pub open spec fn seek_target(pos: SeekFrom, cur: int, len: int) -> int {
    match pos {
        SeekFrom::Start(n) => n as int,
        SeekFrom::End(n) => len + n as int,
        SeekFrom::Current(n) => cur + n as int,
    }
}

pub trait Read: Dev {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires old(self).dinv(),
        ensures
            final(self).dinv(),
            final(self).disk() == old(self).disk(),
            final(self).davail() == old(self).davail(),
            final(self).dunder() == old(self).dunder(),
            final(self).dsafe() == old(self).dsafe(),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => {
                    &&& n <= old(buf)@.len()
                    &&& final(self).dpos() == old(self).dpos() + n
                    &&& n > 0 ==> old(self).dpos() + n <= old(self).davail() && old(self).davail() <= old(self).disk().len()
                    &&& final(buf)@.subrange(0, n as int) == (if n > 0 { old(self).disk().subrange(old(self).dpos(), old(self).dpos() + n) } else { Seq::<u8>::empty() })
                    &&& n == 0 ==> old(buf)@.len() == 0 || old(self).dpos() >= old(self).davail()
                },
                Err(_) => old(self).dpos() + old(buf)@.len() > old(self).dsafe() && !Self::dsound(),
            };

    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        requires old(self).dinv(),
        ensures
            final(self).dinv(),
            final(self).disk() == old(self).disk(),
            final(self).davail() == old(self).davail(),
            final(self).dunder() == old(self).dunder(),
            final(self).dsafe() == old(self).dsafe(),
            final(buf)@.len() == old(buf)@.len(),
            old(self).dpos() + old(buf)@.len() <= old(self).dsafe() ==> r is Ok,
            Self::dsound() && 0 <= old(self).dpos() && old(self).dpos() + old(buf)@.len() <= old(self).davail() ==> r is Ok,
            match r {
                Ok(_) => {
                    &&& final(self).dpos() == old(self).dpos() + old(buf)@.len()
                    &&& old(buf)@.len() > 0 ==> old(self).dpos() + old(buf)@.len() <= old(self).davail() && old(self).davail() <= old(self).disk().len()
                    &&& old(buf)@.len() > 0 ==> final(buf)@ == old(self).disk().subrange(old(self).dpos(), old(self).dpos() + old(buf)@.len())
                },
                Err(_) => true,
            },
    { unimplemented!() }
}

pub trait Seek: Dev {
    fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>)
        requires old(self).dinv(),
        ensures
            final(self).dinv(),
            final(self).disk() == old(self).disk(),
            final(self).davail() == old(self).davail(),
            final(self).dunder() == old(self).dunder(),
            final(self).dsafe() == old(self).dsafe(),
            old(self).dsafe() >= 0 && 0 <= seek_target(pos, old(self).dpos(), old(self).disk().len() as int) <= u64::MAX ==> r is Ok,
            Self::dsound() && 0 <= seek_target(pos, old(self).dpos(), old(self).disk().len() as int) <= old(self).davail() ==> r is Ok,
            match r {
                Ok(n) => {
                    &&& n == seek_target(pos, old(self).dpos(), old(self).disk().len() as int)
                    &&& final(self).dpos() == n
                },
                Err(_) => true,
            };

    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: Result<u64>)
        requires old(self).dinv(),
        ensures
            final(self).dinv(),
            final(self).disk() == old(self).disk(),
            final(self).davail() == old(self).davail(),
            final(self).dunder() == old(self).dunder(),
            final(self).dsafe() == old(self).dsafe(),
            old(self).dsafe() >= 0 || Self::dsound() ==> r is Ok,
            r is Ok ==> final(self).dpos() == old(self).dpos() && r->Ok_0 == old(self).dpos(),
    { unimplemented!() }
}

/// `Cursor<&[u8]>`
pub struct Cursor<X> { pub x: X, pub p: u64 }

impl<'a> Cursor<&'a [u8]> {
    pub fn new(x: &'a [u8]) -> (r: Self)
        ensures r.disk() == x@, r.dpos() == 0, r.dinv(),
    { Cursor { x, p: 0 } }
}

impl<'a> Dev for Cursor<&'a [u8]> {
    open spec fn disk(&self) -> Seq<u8> { self.x@ }
    open spec fn dpos(&self) -> int { self.p as int }
    open spec fn dinv(&self) -> bool { true }
    open spec fn davail(&self) -> int { self.x@.len() as int }
    open spec fn dsafe(&self) -> int { self.x@.len() as int }
    open spec fn dsound() -> bool { true }
    type Under = ();
    #[verifier::prophetic]
    open spec fn dunder(&self) -> () { () }
}

impl<'a> Read for Cursor<&'a [u8]> {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        ensures
            r is Ok <==> (old(buf)@.len() == 0 || old(self).p + old(buf)@.len() <= old(self).x@.len()),
            final(self).x == old(self).x,
    { unimplemented!() }
}

impl<'a> Seek for Cursor<&'a [u8]> {
    #[verifier::external_body]
    fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: Result<u64>)
        ensures r is Ok,
    { unimplemented!() }
}
} // verus!
}

pub mod error {
use vstd::prelude::*;
verus! {
/// `binrw::Error`: opaque.
#[verifier::external_body]
pub struct Error { x: u8 }
} // verus!
}

use io::{Read, Seek, Dev};
verus! {
pub trait BinRead: Sized {
    spec fn br_size() -> int;
    spec fn br_val(s: Seq<u8>, o: int) -> Self;
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>)
        requires old(r).dinv(),
        ensures
            final(r).dinv(),
            final(r).disk() == old(r).disk(),
            final(r).davail() == old(r).davail(),
            final(r).dunder() == old(r).dunder(),
            final(r).dsafe() == old(r).dsafe(),
            old(r).dpos() + Self::br_size() <= old(r).dsafe() ==> res is Ok,
            R::dsound() && 0 <= old(r).dpos() && old(r).dpos() + Self::br_size() <= old(r).davail() ==> res is Ok,
            match res {
                Ok(v) => {
                    &&& final(r).dpos() == old(r).dpos() + Self::br_size()
                    &&& old(r).dpos() + Self::br_size() <= old(r).disk().len()
                    &&& v == Self::br_val(old(r).disk(), old(r).dpos())
                },
                Err(_) => true,
            };
}

impl BinRead for u8 {
    open spec fn br_size() -> int { 1 }
    open spec fn br_val(s: Seq<u8>, o: int) -> u8 { s[o] }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}
impl BinRead for i8 {
    open spec fn br_size() -> int { 1 }
    open spec fn br_val(s: Seq<u8>, o: int) -> i8 { s[o] as i8 }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}
impl BinRead for u16 {
    open spec fn br_size() -> int { 2 }
    open spec fn br_val(s: Seq<u8>, o: int) -> u16 { le16(s, o) }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}
impl BinRead for u32 {
    open spec fn br_size() -> int { 4 }
    open spec fn br_val(s: Seq<u8>, o: int) -> u32 { le32(s, o) }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}
impl BinRead for u64 {
    open spec fn br_size() -> int { 8 }
    open spec fn br_val(s: Seq<u8>, o: int) -> u64 { le64(s, o) }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}
impl BinRead for i64 {
    open spec fn br_size() -> int { 8 }
    open spec fn br_val(s: Seq<u8>, o: int) -> i64 { le64(s, o) as i64 }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}
impl<const N: usize> BinRead for [u8; N] {
    open spec fn br_size() -> int { N as int }
    open spec fn br_val(s: Seq<u8>, o: int) -> [u8; N] { arr::<N>(s.subrange(o, o + N)) }
    #[verifier::external_body]
    fn read<R: Read + Seek>(r: &mut R) -> (res: core::result::Result<Self, error::Error>) { unimplemented!() }
}

pub trait BinReaderExt: Read + Seek + Sized {
    fn read_le<B: BinRead>(&mut self) -> (res: core::result::Result<B, error::Error>)
        requires old(self).dinv(),
        ensures
            final(self).dinv(),
            final(self).disk() == old(self).disk(),
            final(self).davail() == old(self).davail(),
            final(self).dunder() == old(self).dunder(),
            final(self).dsafe() == old(self).dsafe(),
            old(self).dpos() + B::br_size() <= old(self).dsafe() ==> res is Ok,
            match res {
                Ok(v) => {
                    &&& final(self).dpos() == old(self).dpos() + B::br_size()
                    &&& old(self).dpos() + B::br_size() <= old(self).disk().len()
                    &&& v == B::br_val(old(self).disk(), old(self).dpos())
                },
                Err(_) => true,
            };
}
impl<T: Read + Seek> BinReaderExt for T {
    fn read_le<B: BinRead>(&mut self) -> (res: core::result::Result<B, error::Error>)
    {
        B::read(self)
    }
}
} // verus!
}

/// `time` crate (with its `large-dates` feature) and `std::time`: only what the conversions use.
pub mod time {
use vstd::prelude::*;
verus! {
/// A point in time, in nanoseconds relative to the Unix epoch.
#[derive(Clone, Copy)]
pub struct OffsetDateTime { pub n: i128 }

#[derive(Debug)]
pub struct ComponentRange {}

impl OffsetDateTime {
    /// years -999999 to 999999
    #[verifier::external_body]
    pub fn unix_timestamp_nanos(self) -> (r: i128)
        ensures r == self.n, -40_000_000_000_000_000_000_000_000 < r < 40_000_000_000_000_000_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_unix_timestamp_nanos(n: i128) -> (r: core::result::Result<OffsetDateTime, ComponentRange>)
        ensures
            -30_000_000_000_000_000_000_000_000 < n < 30_000_000_000_000_000_000_000_000 ==> r is Ok,
            match r { Ok(v) => v.n == n, Err(_) => true },
    { unimplemented!() }
}

/// A point in time, in nanoseconds relative to the Unix epoch.
#[derive(Clone, Copy)]
pub struct SystemTime { pub n: i128 }
#[derive(Debug)]
pub struct SystemTimeError {}
#[derive(Clone, Copy, Debug)]
pub struct Duration { pub n: u128 }

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime { n: 0 };
    #[verifier::external_body]
    pub fn duration_since(&self, earlier: SystemTime) -> (r: core::result::Result<Duration, SystemTimeError>)
        ensures match r {
            Ok(d) => d.n == self.n - earlier.n && d.n < 0x1_0000_0000_0000_0000 * 1_000_000_000,
            Err(_) => self.n < earlier.n,
        },
    { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64)
        requires self.n < 0x1_0000_0000_0000_0000 * 1_000_000_000,
        ensures r as int == self.n as int / 1_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32)
        ensures r as int == self.n as int % 1_000_000_000,
    { unimplemented!() }
}
} // verus!
}
}
