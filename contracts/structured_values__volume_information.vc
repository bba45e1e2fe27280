@file src/structured_values/volume_information.rs structured_values::volume_information
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn vi_ok(c: Seq<u8>) -> bool { c.len() >= 12 }
impl NtfsVolumeInformation {
    /// The decoding of the bytes `c`.
    pub open spec fn of(&self, c: Seq<u8>) -> bool {
        self.info.major_version == c[8] && self.info.minor_version == c[9] && self.info.flags == le16(c, 10)
    }
}
@text
/// The volume flags are those of NTFS.
pub proof fn lemma_flag_codes()
    ensures
        NtfsVolumeFlags::IS_DIRTY.0 == 0x1,
        NtfsVolumeFlags::RESIZE_LOG_FILE.0 == 0x2,
        NtfsVolumeFlags::UPGRADE_ON_MOUNT.0 == 0x4,
        NtfsVolumeFlags::MOUNTED_ON_NT4.0 == 0x8,
        NtfsVolumeFlags::DELETE_USN_UNDERWAY.0 == 0x10,
        NtfsVolumeFlags::REPAIR_OBJECT_ID.0 == 0x20,
        NtfsVolumeFlags::CHKDSK_UNDERWAY.0 == 0x4000,
        NtfsVolumeFlags::MODIFIED_BY_CHKDSK.0 == 0x8000,
{
}
@fn NtfsVolumeInformation::new
@props C18
@ret res
@requires
        old(r).dinv(), old(r).dpos() == 0, value_length == old(r).disk().len(),
@ensures
        res is Err ==> !(res->Err_0 is AttributeNotFound),
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dsafe() == old(r).dsafe(), final(r).dunder() == old(r).dunder(),
        match res { Ok(v) => vi_ok(old(r).disk()) && v.of(old(r).disk()), Err(_) => true },
        old(r).dsafe() == old(r).disk().len() ==> (res is Ok <==> vi_ok(old(r).disk())),
@inject impl NtfsVolumeInformation:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { vi_ok(value.rs_content(d)) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { self.of(value.rs_content(d)) }
@fn NtfsVolumeInformation:NtfsStructuredValue::from_attribute_value
@props C18
@proof start
        proof { crate::attribute_value::lemma_value_len(value, fs.disk()); }
@fn NtfsVolumeInformation:NtfsStructuredValueFromResidentAttributeValue::from_resident_attribute_value
@props C18
@fn NtfsVolumeInformation::major_version
@props C18
@ensures
        r == self.info.major_version,
@fn NtfsVolumeInformation::minor_version
@props C18
@ensures
        r == self.info.minor_version,
@fn NtfsVolumeInformation::flags
@props C18
@ensures
        r.0 == self.info.flags & 0xc03f,
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsVolumeInformation as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::VolumeInformation,
{
    crate::order::mark();
}
@fn NtfsVolumeFlags:Display::fmt
@props C22
