@file src/types.rs types
@text
/// The position `n` bytes after `p` (no position stays no position; wraps like the code documents).
pub open spec fn pos_add(p: NtfsPosition, n: int) -> NtfsPosition {
    match p.0 {
        None => NtfsPosition(None),
        Some(x) => NtfsPosition(nz((x.0 as int + n) % 0x1_0000_0000_0000_0000)),
    }
}
pub open spec fn nz(v: int) -> Option<NonZeroU64> {
    if v == 0 { None } else { Some(NonZeroU64(v as u64)) }
}
/// The absolute byte offset `v` as a position; 0 cannot be represented.
pub open spec fn pos_of(v: int) -> NtfsPosition {
    NtfsPosition(nz(v))
}
impl vstd::std_specs::ops::AddSpecImpl<u16> for NtfsPosition {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: u16) -> bool { true }
    open spec fn add_spec(self, o: u16) -> NtfsPosition { pos_add(self, o as int) }
}
impl vstd::std_specs::ops::AddSpecImpl<u64> for NtfsPosition {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: u64) -> bool { true }
    open spec fn add_spec(self, o: u64) -> NtfsPosition { pos_add(self, o as int) }
}
impl vstd::std_specs::ops::AddSpecImpl<usize> for NtfsPosition {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: usize) -> bool { true }
    open spec fn add_spec(self, o: usize) -> NtfsPosition { pos_add(self, o as int) }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<u16> for NtfsPosition {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: u16) -> bool { true }
    open spec fn add_assign_spec(&self, o: u16) -> &NtfsPosition { &pos_add(*self, o as int) }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<u64> for NtfsPosition {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: u64) -> bool { true }
    open spec fn add_assign_spec(&self, o: u64) -> &NtfsPosition { &pos_add(*self, o as int) }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<usize> for NtfsPosition {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: usize) -> bool { true }
    open spec fn add_assign_spec(&self, o: usize) -> &NtfsPosition { &pos_add(*self, o as int) }
}
impl vstd::std_specs::convert::FromSpecImpl<NonZeroU64> for NtfsPosition {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: NonZeroU64) -> NtfsPosition { NtfsPosition(Some(v)) }
}
@fn NtfsPosition::new
@props C23
@ensures
        r == pos_of(position as int),
@fn NtfsPosition::none
@props C23
@ensures
        r == NtfsPosition(None),
@fn NtfsPosition::value
@props C23
@ensures
        r == self.0,
@fn NtfsPosition:Add<u16>::add
@props C23
@split
@ensures
        r == pos_add(self, other as int),
@fn NtfsPosition:Add<u64>::add
@props C23
@split
@ensures
        r == pos_add(self, other as int),
@fn NtfsPosition:Add<usize>::add
@props C23
@split
@ensures
        r == pos_add(self, other as int),
@fn NtfsPosition:AddAssign<u16>::add_assign
@props C23
@split
@ensures
        *final(self) == pos_add(*old(self), other as int),
@fn NtfsPosition:AddAssign<u64>::add_assign
@props C23
@split
@ensures
        *final(self) == pos_add(*old(self), other as int),
@fn NtfsPosition:AddAssign<usize>::add_assign
@props C23
@split
@ensures
        *final(self) == pos_add(*old(self), other as int),
@fn NtfsPosition:From<NonZeroU64>::from
@props C23
@split
@ensures
        r == NtfsPosition(Some(value)),
@fn Lcn::checked_add
@props C04
@ensures
        r is Some <==> 0 <= self.0 + vcn.0 <= u64::MAX,
        match r { Some(l) => l.0 == self.0 + vcn.0, None => true },
@proof start
        proof { crate::vx::lemma_neg_cast(); }
@fn Lcn::position
@props C01 C04 C23
@requires
        ntfs.cluster_size <= 2097152,
@ensures
        r is Ok <==> self.0 * ntfs.cluster_size <= u64::MAX,
        match r { Ok(p) => p == pos_of(self.0 * ntfs.cluster_size), Err(_) => true },
@fn Lcn::value
@props C04
@ensures
        r == self.0,
@fn Vcn::offset
@props C14
@requires
        ntfs.cluster_size <= 2097152,
@ensures
        r is Ok <==> i64::MIN <= self.0 * ntfs.cluster_size <= i64::MAX,
        match r { Ok(p) => p == self.0 * ntfs.cluster_size, Err(_) => true },
@fn Vcn::value
@props C14
@ensures
        r == self.0,
@fn NtfsPosition:Display::fmt
@props C22
@fn NtfsPosition:Binary::fmt
@props C22
@fn NtfsPosition:LowerHex::fmt
@props C22
@fn NtfsPosition:Octal::fmt
@props C22
@fn NtfsPosition:UpperHex::fmt
@props C22
