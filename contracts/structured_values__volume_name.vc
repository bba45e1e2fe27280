@file src/structured_values/volume_name.rs structured_values::volume_name
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn vn_ok(c: Seq<u8>) -> bool { c.len() <= 256 }
impl NtfsVolumeName {
    /// The decoding of the bytes `c`.
    pub open spec fn of(&self, c: Seq<u8>) -> bool { self.name@ == c }
}
@fn NtfsVolumeName::new
@props C18
@ret res
@requires
        old(r).dinv(), old(r).dpos() == 0, value_length == old(r).disk().len(),
@ensures
        res is Err ==> !(res->Err_0 is AttributeNotFound),
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dsafe() == old(r).dsafe(), final(r).dunder() == old(r).dunder(),
        match res { Ok(v) => vn_ok(old(r).disk()) && v.of(old(r).disk()), Err(_) => true },
        old(r).dsafe() == old(r).disk().len() ==> (res is Ok <==> vn_ok(old(r).disk())),
@proof before-tail
        proof { assert(name@ =~= old(r).disk()); }
@inject impl NtfsVolumeName:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { vn_ok(value.rs_content(d)) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { self.of(value.rs_content(d)) }
@fn NtfsVolumeName:NtfsStructuredValue::from_attribute_value
@props C18
@proof start
        proof { crate::attribute_value::lemma_value_len(value, fs.disk()); }
@fn NtfsVolumeName:NtfsStructuredValueFromResidentAttributeValue::from_resident_attribute_value
@props C18
@fn NtfsVolumeName::name
@props C18
@ensures
        r.0@ == self.name@,
@fn NtfsVolumeName::name_length
@props C18
@ensures
        r == self.name@.len(),
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsVolumeName as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::VolumeName,
{
    crate::order::mark();
}
