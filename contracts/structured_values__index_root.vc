@file src/structured_values/index_root.rs structured_values::index_root
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
/// The attribute value `c` is a valid index root: its header and its used entries lie inside it.
pub open spec fn ro_ok(c: Seq<u8>) -> bool {
    c.len() >= 32 && ro_start(c) < c.len() && ro_end(c) <= c.len() && ro_start(c) <= ro_end(c)
}
pub open spec fn ro_start(c: Seq<u8>) -> int { 16 + le32(c, 16) }
pub open spec fn ro_end(c: Seq<u8>) -> int { 16 + le32(c, 20) }
impl<'f> NtfsIndexRoot<'f> {
    pub open spec fn inv(&self) -> bool { ro_ok(self.slice@) }
    /// The bytes of the used entries.
    pub open spec fn node(&self) -> Seq<u8> { self.slice@.subrange(ro_start(self.slice@), ro_end(self.slice@)) }
    pub open spec fn node_pos(&self) -> NtfsPosition { crate::types::pos_add(self.position, ro_start(self.slice@)) }
}
@fn NtfsIndexRoot::new
@props C14 C23
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> ro_ok(slice@),
        match r { Ok(v) => v.slice == slice && v.position == position, Err(_) => true },
@fn NtfsIndexRoot::entries
@props C13 C14
@requires
        self.inv(),
@ensures
        match r { Ok(v) => v.slice@ == self.node() && v.position == self.node_pos(), Err(_) => false },
@fn NtfsIndexRoot::entries_range_and_position
@props C13 C14 C23 C15 C16
@requires
        self.slice@.len() >= 32,
@ensures
        r.0.start == ro_start(self.slice@), r.0.end == ro_end(self.slice@), r.1 == self.node_pos(),
@fn NtfsIndexRoot::entry_ranges
@props C13 C14 C15 C16
@requires
        self.inv(),
@ensures
        r.data@ == self.node(), r.range.start == 0, r.range.end == r.data@.len(), r.position == self.node_pos(),
@fn NtfsIndexRoot::index_allocated_size
@props C14
@requires
        self.slice@.len() >= 32,
@ensures
        r == le32(self.slice@, 24),
@fn NtfsIndexRoot::index_data_size
@props C14
@requires
        self.slice@.len() >= 32,
@ensures
        r == le32(self.slice@, 20),
@fn NtfsIndexRoot::index_entries_offset
@props C14
@requires
        self.slice@.len() >= 32,
@ensures
        r == le32(self.slice@, 16),
@fn NtfsIndexRoot::index_record_size
@props C14
@requires
        self.slice@.len() >= 32,
@ensures
        r == le32(self.slice@, 8),
@fn NtfsIndexRoot::is_large_index
@props C14
@requires
        self.slice@.len() >= 32,
@ensures
        r <==> self.slice@[28] & 1 != 0,
@fn NtfsIndexRoot::position
@props C14 C23
@ensures
        r == self.position,
@fn NtfsIndexRoot::validate_sizes
@props C14
@requires
        self.slice@.len() >= 32,
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> ro_ok(self.slice@),
@inject impl NtfsIndexRoot:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { value is Resident && ro_ok(value.rs_content(d)) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool {
        self.slice@ == value.rs_content(d) && match value { NtfsAttributeValue::Resident(v) => self.position == v.pos_spec(), _ => false }
    }
@fn NtfsIndexRoot:NtfsStructuredValue::from_attribute_value
@props C14 C18
@fn NtfsIndexRoot:NtfsStructuredValueFromResidentAttributeValue::from_resident_attribute_value
@props C14 C18
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsIndexRoot as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::IndexRoot,
{
    crate::order::mark();
}
