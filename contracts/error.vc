@file src/error.rs error
@skip impl NtfsError:From<binrw::error::Error> : conversion of opaque error values (contract in the module text)
@skip impl Error:From<NtfsError> : conversion of opaque error values (contract in the module text)
@skip impl NtfsError:From<binrw::io::Error> : conversion of opaque error values (contract in the module text)
@head
@text
impl From<crate::vx::binrw::error::Error> for NtfsError {
    #[verifier::external_body]
    fn from(e: crate::vx::binrw::error::Error) -> (r: NtfsError)
    { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::vx::binrw::error::Error> for NtfsError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::vx::binrw::error::Error) -> NtfsError { NtfsError::Io(crate::vx::br_io(e)) }
}
impl From<crate::vx::binrw::io::Error> for NtfsError {
    fn from(e: crate::vx::binrw::io::Error) -> (r: NtfsError)
    { NtfsError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::vx::binrw::io::Error> for NtfsError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::vx::binrw::io::Error) -> NtfsError { NtfsError::Io(e) }
}
impl From<NtfsError> for crate::vx::binrw::io::Error {
    #[verifier::external_body]
    fn from(e: NtfsError) -> (r: crate::vx::binrw::io::Error) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<NtfsError> for crate::vx::binrw::io::Error {
    open spec fn obeys_from_spec() -> bool { true }
    uninterp spec fn from_spec(e: NtfsError) -> crate::vx::binrw::io::Error;
}
