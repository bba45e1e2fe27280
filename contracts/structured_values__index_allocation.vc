@file src/structured_values/index_allocation.rs structured_values::index_allocation
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@inject impl NtfsIndexAllocation:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { !(value is Resident) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool {
        self.value == value && match value { NtfsAttributeValue::NonResident(v) => self.ntfs == v.ntfs, NtfsAttributeValue::AttributeListNonResident(v) => self.ntfs == v.ntfs, _ => false }
    }
@fn NtfsIndexAllocation:NtfsStructuredValue::from_attribute_value
@props C14 C18
@ensures C14
        r is Ok <==> !(value is Resident),
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsIndexAllocation as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::IndexAllocation,
{
    crate::order::mark();
}
@text
/// The data (after fixup) of the index record of size `size` at offset `off` of the index allocation `c`, if there is a valid one.
pub open spec fn ia_at(c: Seq<u8>, size: int, off: int) -> Option<Seq<u8>> {
    if 0 <= off && off + size <= c.len() && crate::index_record::ir_ok(c.subrange(off, off + size)) {
        Some(crate::record::fxd(c.subrange(off, off + size)))
    } else { None }
}
/// The index record with the given VCN, if there is a valid one that knows itself by that VCN.
pub open spec fn ia_rec(c: Seq<u8>, size: int, cs: int, vcn: int) -> Option<Seq<u8>> {
    match ia_at(c, size, vcn * cs) {
        Some(s) => if le64(s, 16) as i64 == vcn { Some(s) } else { None },
        None => None,
    }
}
impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        &&& !(self.value is Resident)
        &&& self.value.rs_inv(d)
        &&& self.ntfs.inv()
    }
}
impl<'n, 'f> NtfsIndexRecords<'n, 'f> {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool { self.index_allocation.inv(d) }
    pub open spec fn v(&self) -> NtfsAttributeValue<'n, 'f> { self.index_allocation.value }
}
@fn NtfsIndexAllocation::record_from_vcn
@props C14 C15 C16 C23
@requires
        old(fs).dinv(), self.inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(x) => {
                let c = self.value.rs_content(old(fs).disk());
                let off = self.value.rs_pos() + vcn.0 * self.ntfs.cs();
                &&& x.inv()
                &&& off < c.len()
                &&& ia_at(c, index_record_size as int, off) == Some(x.d())
                &&& le64(x.d(), 16) as i64 == vcn.0
                &&& exists|w: NtfsAttributeValue<'n, 'f>| crate::attribute_value::same_value(self.value, w) && w.rs_pos() == off && #[trigger] crate::attribute_value::value_pos(w, x.record.position)
            },
            Err(_) => {
                let d = old(fs).disk();
                let off = self.value.rs_pos() + vcn.0 * self.ntfs.cs();
                let rec = ia_at(self.value.rs_content(d), index_record_size as int, off);
                T::dsound() && self.value.rs_whole(d, old(fs).davail()) && i64::MIN <= vcn.0 * self.ntfs.cs() <= i64::MAX ==> rec is None || le64(rec->Some_0, 16) as i64 != vcn.0
            },
        },
@fn NtfsIndexAllocation::records
@props C14
@ensures
        r.index_allocation == *self, r.index_record_size == index_record_size,
@fn NtfsIndexRecords::new
@props C14
@ensures
        r.index_allocation == index_allocation, r.index_record_size == index_record_size,
@fn NtfsIndexRecords::attach
@props C14
@ensures
        r.index_records == self,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsIndexRecords::next
@props C14 C23
@requires
        old(fs).dinv(), old(self).inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).inv(old(fs).disk()),
        final(self).index_record_size == old(self).index_record_size,
        final(self).v().rs_content(old(fs).disk()) == old(self).v().rs_content(old(fs).disk()),
        final(self).v().rs_whole(old(fs).disk(), old(fs).davail()) == old(self).v().rs_whole(old(fs).disk(), old(fs).davail()),
        match r {
            None => old(self).v().rs_pos() >= old(self).v().rs_content(old(fs).disk()).len() && *final(self) == *old(self),
            Some(Ok(x)) => {
                &&& x.inv()
                &&& ia_at(old(self).v().rs_content(old(fs).disk()), old(self).index_record_size as int, old(self).v().rs_pos()) == Some(x.d())
                &&& crate::attribute_value::value_pos(old(self).v(), x.record.position)
                &&& final(self).v().rs_pos() == old(self).v().rs_pos() + old(self).index_record_size
            },
            Some(Err(_)) => {
                &&& final(self).v().rs_pos() == old(self).v().rs_pos() < old(self).v().rs_content(old(fs).disk()).len()
                &&& T::dsound() && old(self).v().rs_whole(old(fs).disk(), old(fs).davail()) ==> ia_at(old(self).v().rs_content(old(fs).disk()), old(self).index_record_size as int, old(self).v().rs_pos()) is None
            },
        },
@fn NtfsIndexRecordsAttached::new
@props C14
@ensures
        r.index_records == index_records,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsIndexRecordsAttached::detach
@props C14
@ensures
        r == self.index_records,
@fn NtfsIndexRecordsAttached:Iterator::next
@props C14
@requires
        old(self).fs.dinv(), old(self).index_records.inv(old(self).fs.disk()),
@ensures
        final(self).fs.dinv(), final(self).fs.disk() == old(self).fs.disk(), final(self).fs.davail() == old(self).fs.davail(),
        final(self).index_records.inv(old(self).fs.disk()),
        final(self).index_records.v().rs_content(old(self).fs.disk()) == old(self).index_records.v().rs_content(old(self).fs.disk()),
        match r {
            None => old(self).index_records.v().rs_pos() >= old(self).index_records.v().rs_content(old(self).fs.disk()).len(),
            Some(Ok(x)) => {
                &&& x.inv()
                &&& ia_at(old(self).index_records.v().rs_content(old(self).fs.disk()), old(self).index_records.index_record_size as int, old(self).index_records.v().rs_pos()) == Some(x.d())
                &&& final(self).index_records.v().rs_pos() == old(self).index_records.v().rs_pos() + old(self).index_records.index_record_size
            },
            Some(Err(_)) => {
                let v = old(self).index_records.v();
                &&& v.rs_pos() < v.rs_content(old(self).fs.disk()).len()
                &&& T::dsound() && v.rs_whole(old(self).fs.disk(), old(self).fs.davail()) ==> ia_at(v.rs_content(old(self).fs.disk()), old(self).index_records.index_record_size as int, v.rs_pos()) is None
            },
        },
