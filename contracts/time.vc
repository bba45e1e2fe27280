@file src/time.rs time
@text
/// 1970-01-01 in 100-nanosecond intervals since 1601-01-01 (369 years with 89 leap days).
pub open spec fn unix_epoch_nt() -> int { (369int * 365 + 89) * 86400 * 10_000_000 }
/// Number of full 100-nanosecond intervals between 1970-01-01 and a point `n` nanoseconds away from it.
pub open spec fn intervals(n: int) -> int { if n >= 0 { n / 100 } else { -((-n) / 100) } }
impl vstd::std_specs::convert::FromSpecImpl<NtfsTime> for OffsetDateTime {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(nt: NtfsTime) -> OffsetDateTime { OffsetDateTime { n: ((nt.0 - unix_epoch_nt()) * 100) as i128 } }
}
impl vstd::std_specs::convert::TryFromSpecImpl<OffsetDateTime> for NtfsTime {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: OffsetDateTime) -> core::result::Result<NtfsTime, NtfsError> { arbitrary() }
}
impl vstd::std_specs::convert::TryFromSpecImpl<SystemTime> for NtfsTime {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: SystemTime) -> core::result::Result<NtfsTime, SystemTimeError> { arbitrary() }
}
@fn NtfsTime::nt_timestamp
@props C19
@ensures
        r == self.0,
@fn NtfsTime:TryFrom<OffsetDateTime>::try_from
@props C19
@ensures
        r is Ok <==> 0 <= intervals(dt.n as int) + unix_epoch_nt() <= u64::MAX,
        match r { Ok(t) => t.0 == intervals(dt.n as int) + unix_epoch_nt(), Err(_) => true },
@fn OffsetDateTime:From<NtfsTime>::from
@props C19
@fn NtfsTime:TryFrom<SystemTime>::try_from
@props C19
@ensures
        match r { Ok(t) => st.n >= 0 && t.0 == st.n / 100 + unix_epoch_nt(), Err(_) => st.n < 0 || st.n / 100 + unix_epoch_nt() > u64::MAX },
