@file src/structured_values/mod.rs structured_values
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@inject trait NtfsStructuredValue
    /// The attribute value is a well-formed structured value of this type.
    spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool;
    /// This is the structured value stored in the attribute value.
    spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool;
@text
/// The file attribute flags are those of NTFS.
pub proof fn lemma_flag_codes()
    ensures
        NtfsFileAttributeFlags::READ_ONLY.0 == 0x1,
        NtfsFileAttributeFlags::HIDDEN.0 == 0x2,
        NtfsFileAttributeFlags::SYSTEM.0 == 0x4,
        NtfsFileAttributeFlags::ARCHIVE.0 == 0x20,
        NtfsFileAttributeFlags::DEVICE.0 == 0x40,
        NtfsFileAttributeFlags::NORMAL.0 == 0x80,
        NtfsFileAttributeFlags::TEMPORARY.0 == 0x100,
        NtfsFileAttributeFlags::SPARSE_FILE.0 == 0x200,
        NtfsFileAttributeFlags::REPARSE_POINT.0 == 0x400,
        NtfsFileAttributeFlags::COMPRESSED.0 == 0x800,
        NtfsFileAttributeFlags::OFFLINE.0 == 0x1000,
        NtfsFileAttributeFlags::NOT_CONTENT_INDEXED.0 == 0x2000,
        NtfsFileAttributeFlags::ENCRYPTED.0 == 0x4000,
        NtfsFileAttributeFlags::IS_DIRECTORY.0 == 0x10000000,
{
}
@fn trait NtfsStructuredValue::from_attribute_value
@props C18
@requires
        old(fs).dinv(), value.rs_inv(old(fs).disk()), value.rs_pos() == 0,
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(v) => Self::sv_ok(value, old(fs).disk()) && v.sv_of(value, old(fs).disk()),
            Err(_) => true,
        },
        value is Resident ==> (r is Ok <==> Self::sv_ok(value, old(fs).disk())),
        T::dsound() && value.rs_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> Self::sv_ok(value, old(fs).disk())),
@fn trait NtfsStructuredValueFromResidentAttributeValue::from_resident_attribute_value
@props C18
@requires
        value.stream_position == 0,
@ensures
        r is Ok <==> <Self as NtfsStructuredValue>::sv_ok(NtfsAttributeValue::Resident(value), Seq::empty()),
        match r {
            Ok(v) => v.sv_of(NtfsAttributeValue::Resident(value), Seq::empty()),
            Err(e) => !(e is AttributeNotFound),
        },
@fn NtfsFileAttributeFlags:Display::fmt
@props C22
