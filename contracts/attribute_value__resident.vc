@file src/attribute_value/resident.rs attribute_value::resident
@inject impl NtfsResidentAttributeValue:NtfsReadSeek
    open spec fn rs_content(&self, d: Seq<u8>) -> Seq<u8> { self.data@ }
    open spec fn rs_avail(&self, d: Seq<u8>, a: int) -> int { self.data@.len() as int }
    open spec fn rs_whole(&self, d: Seq<u8>, a: int) -> bool { true }
    open spec fn rs_inv(&self, d: Seq<u8>) -> bool { true }
    open spec fn rs_pos(&self) -> int { self.stream_position as int }
@fn NtfsResidentAttributeValue::new
@props C07 C23
@ensures
        r.data@ == data@, r.position == position, r.stream_position == 0,
@fn NtfsResidentAttributeValue::data
@props C07
@ensures
        r == self.data,
@fn NtfsResidentAttributeValue::is_empty
@props C07
@ensures
        r <==> self.data@.len() == 0,
@fn NtfsResidentAttributeValue::len
@props C07
@ensures
        r == self.data@.len(),
@fn NtfsResidentAttributeValue::remaining_len
@props C07
@ensures
        self.data@.len() <= usize::MAX,
        r == if self.stream_position <= self.data@.len() { self.data@.len() - self.stream_position } else { 0 },
@fn NtfsResidentAttributeValue:NtfsReadSeek::read
@props C07 C23
@ensures C07
        r is Ok,
        final(self).data == old(self).data,
        final(self).position == old(self).position,
@fn NtfsResidentAttributeValue:NtfsReadSeek::seek
@props C06 C07 C23
@ensures C06 C07
        final(self).data == old(self).data,
        final(self).position == old(self).position,
        r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, old(self).stream_position as int, old(self).data@.len() as int) <= u64::MAX,
@fn NtfsResidentAttributeValue:NtfsReadSeek::stream_position
@props C06 C07
@text
impl<'f> NtfsResidentAttributeValue<'f> {
    /// Place of the byte at the current position.
    pub open spec fn pos_spec(&self) -> NtfsPosition {
        if self.stream_position <= self.data@.len() { crate::types::pos_add(self.position, self.stream_position as int) } else { NtfsPosition(None) }
    }
}
@fn NtfsResidentAttributeValue::data_position
@props C23 C07
@ensures
        r == self.pos_spec(),
