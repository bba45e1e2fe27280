@file src/structured_values/standard_information.rs structured_values::standard_information
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn si_ok(c: Seq<u8>) -> bool { c.len() >= 48 }
impl NtfsStandardInformation {
    /// The decoding of the bytes `c`.
    pub open spec fn of(&self, c: Seq<u8>) -> bool {
        &&& self.ntfs1_data.creation_time.0 == le64(c, 0)
        &&& self.ntfs1_data.modification_time.0 == le64(c, 8)
        &&& self.ntfs1_data.mft_record_modification_time.0 == le64(c, 16)
        &&& self.ntfs1_data.access_time.0 == le64(c, 24)
        &&& self.ntfs1_data.file_attributes == le32(c, 32)
        &&& match self.ntfs3_data {
            Some(n) => {
                &&& c.len() >= 72
                &&& n.maximum_versions == le32(c, 36)
                &&& n.version == le32(c, 40)
                &&& n.class_id == le32(c, 44)
                &&& n.owner_id == le32(c, 48)
                &&& n.security_id == le32(c, 52)
                &&& n.quota_charged == le64(c, 56)
                &&& n.usn == le64(c, 64)
            },
            None => c.len() < 72,
        }
    }
}
@fn NtfsStandardInformation::new
@props C18
@ret res
@requires
        old(r).dinv(), old(r).dpos() == 0, value_length == old(r).disk().len(),
@ensures
        res is Err ==> !(res->Err_0 is AttributeNotFound),
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dsafe() == old(r).dsafe(), final(r).dunder() == old(r).dunder(),
        match res { Ok(v) => si_ok(old(r).disk()) && v.of(old(r).disk()), Err(_) => true },
        old(r).dsafe() == old(r).disk().len() ==> (res is Ok <==> si_ok(old(r).disk())),
@inject impl NtfsStandardInformation:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { si_ok(value.rs_content(d)) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { self.of(value.rs_content(d)) }
@fn NtfsStandardInformation:NtfsStructuredValue::from_attribute_value
@props C18
@proof start
        proof { crate::attribute_value::lemma_value_len(value, fs.disk()); }
@fn NtfsStandardInformation:NtfsStructuredValueFromResidentAttributeValue::from_resident_attribute_value
@props C18
@fn NtfsStandardInformation::creation_time
@props C18
@ensures
        r == self.ntfs1_data.creation_time,
@fn NtfsStandardInformation::modification_time
@props C18
@ensures
        r == self.ntfs1_data.modification_time,
@fn NtfsStandardInformation::mft_record_modification_time
@props C18
@ensures
        r == self.ntfs1_data.mft_record_modification_time,
@fn NtfsStandardInformation::access_time
@props C18
@ensures
        r == self.ntfs1_data.access_time,
@fn NtfsStandardInformation::maximum_versions
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.maximum_versions, (None, None) => true, _ => false },
@fn NtfsStandardInformation::version
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.version, (None, None) => true, _ => false },
@fn NtfsStandardInformation::class_id
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.class_id, (None, None) => true, _ => false },
@fn NtfsStandardInformation::owner_id
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.owner_id, (None, None) => true, _ => false },
@fn NtfsStandardInformation::security_id
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.security_id, (None, None) => true, _ => false },
@fn NtfsStandardInformation::quota_charged
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.quota_charged, (None, None) => true, _ => false },
@fn NtfsStandardInformation::usn
@props C18
@ensures
        match (r, self.ntfs3_data) { (Some(x), Some(y)) => x == y.usn, (None, None) => true, _ => false },
@fn NtfsStandardInformation::file_attributes
@props C18
@ensures
        r.0 == self.ntfs1_data.file_attributes & 0x1000_7fe7,
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsStandardInformation as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::StandardInformation,
{
    crate::order::mark();
}
