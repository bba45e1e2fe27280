@file src/structured_values/object_id.rs structured_values::object_id
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn oid_ok(c: Seq<u8>) -> bool { c.len() >= 16 }
impl NtfsObjectId {
    /// The decoding of the bytes `c`.
    pub open spec fn of(&self, c: Seq<u8>) -> bool {
        &&& crate::guid::guid_of(self.object_id, c, 0)
        &&& crate::guid::opt_guid_of(self.birth_volume_id, c, 16)
        &&& crate::guid::opt_guid_of(self.birth_object_id, c, 32)
        &&& crate::guid::opt_guid_of(self.domain_id, c, 48)
    }
}
@fn NtfsObjectId::new
@props C18
@ret res
@requires
        old(r).dinv(), old(r).dpos() == 0, value_length == old(r).disk().len(),
@ensures
        res is Err ==> !(res->Err_0 is AttributeNotFound),
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dsafe() == old(r).dsafe(), final(r).dunder() == old(r).dunder(),
        match res { Ok(v) => oid_ok(old(r).disk()) && v.of(old(r).disk()), Err(_) => true },
        old(r).dsafe() == old(r).disk().len() ==> (res is Ok <==> oid_ok(old(r).disk())),
@inject impl NtfsObjectId:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { oid_ok(value.rs_content(d)) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { self.of(value.rs_content(d)) }
@fn NtfsObjectId:NtfsStructuredValue::from_attribute_value
@props C18
@proof start
        proof { crate::attribute_value::lemma_value_len(value, fs.disk()); }
@fn NtfsObjectId:NtfsStructuredValueFromResidentAttributeValue::from_resident_attribute_value
@props C18
@fn NtfsObjectId::birth_object_id
@props C18
@ensures
        match (r, self.birth_object_id) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false },
@fn NtfsObjectId::birth_volume_id
@props C18
@ensures
        match (r, self.birth_volume_id) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false },
@fn NtfsObjectId::domain_id
@props C18
@ensures
        match (r, self.domain_id) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false },
@fn NtfsObjectId::object_id
@props C18
@ensures
        *r == self.object_id,
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsObjectId as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::ObjectId,
{
    crate::order::mark();
}
