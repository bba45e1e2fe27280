@file src/index_record.rs index_record
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn ir_signature_ok(s: Seq<u8>) -> bool {
    s[0] == 0x49 && s[1] == 0x4e && s[2] == 0x44 && s[3] == 0x58
}
pub open spec fn ir_start(s: Seq<u8>) -> int { 24 + le32(s, 24) }
pub open spec fn ir_end(s: Seq<u8>) -> int { 24 + le32(s, 28) }
/// The record data (after fixup) fits the sizes in its header.
pub open spec fn ir_sizes_ok(s: Seq<u8>) -> bool {
    s.len() >= 40 && ir_start(s) <= ir_end(s) && ir_end(s) <= 24 + le32(s, 32) <= s.len()
}
/// The record data as on disk is a valid index record.
pub open spec fn ir_ok(s: Seq<u8>) -> bool {
    ir_signature_ok(s) && crate::record::fx_ok(s) && ir_sizes_ok(crate::record::fxd(s))
}
impl NtfsIndexRecord {
    /// The record data after fixup.
    pub open spec fn d(&self) -> Seq<u8> { self.record.data@ }
    pub open spec fn hinv(&self) -> bool { self.record.inv() && self.d().len() >= 40 }
    pub open spec fn inv(&self) -> bool { self.hinv() && ir_sizes_ok(self.d()) }
    /// Made from the bytes `s`.
    pub open spec fn made_of(&self, s: Seq<u8>) -> bool {
        &&& self.inv()
        &&& ir_ok(s)
        &&& self.d().len() == s.len()
        &&& self.d() == crate::record::fxd(s)
    }
    pub open spec fn node_pos(&self) -> NtfsPosition { crate::types::pos_add(self.record.position, ir_start(self.d())) }
}
@fn NtfsIndexRecord::new
@props C14 C02 C23
@requires
        old(fs).dinv(), value.rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(x) => {
                &&& value.rs_pos() + index_record_size <= value.rs_content(old(fs).disk()).len()
                &&& x.made_of(value.rs_content(old(fs).disk()).subrange(value.rs_pos(), value.rs_pos() + index_record_size))
                &&& crate::attribute_value::value_pos(value, x.record.position)
            },
            Err(_) => true,
        },
        T::dsound() && value.rs_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> value.rs_pos() + index_record_size <= value.rs_content(old(fs).disk()).len() && ir_ok(value.rs_content(old(fs).disk()).subrange(value.rs_pos(), value.rs_pos() + index_record_size))),
@fn NtfsIndexRecord::entries
@props C13 C14
@requires
        self.inv(),
@ensures
        match r { Ok(v) => v.slice@ == self.d().subrange(ir_start(self.d()), ir_end(self.d())) && v.position == self.node_pos(), Err(_) => false },
@fn NtfsIndexRecord::entries_range_and_position
@props C13 C14 C23 C15 C16
@requires
        self.hinv(),
@ensures
        r.0.start == ir_start(self.d()), r.0.end == ir_end(self.d()), r.1 == self.node_pos(),
@fn NtfsIndexRecord::has_subnodes
@props C14
@requires
        self.hinv(),
@ensures
        r <==> self.d()[36] & 1 != 0,
@fn NtfsIndexRecord::index_allocated_size
@props C14
@requires
        self.hinv(),
@ensures
        r == le32(self.d(), 32),
@fn NtfsIndexRecord::index_data_size
@props C14
@requires
        self.hinv(),
@ensures
        r == le32(self.d(), 28),
@fn NtfsIndexRecord::index_entries_offset
@props C14
@requires
        self.hinv(),
@ensures
        r == le32(self.d(), 24),
@fn NtfsIndexRecord::into_entry_ranges
@props C13 C14 C15 C16
@requires
        self.inv(),
@ensures
        r.inv(), r.data@ == self.d(), r.o() == ir_start(self.d()), r.e() == ir_end(self.d()), r.position == self.node_pos(),
@fn NtfsIndexRecord::validate_signature
@props C14
@requires
        record.inv(),
@ensures
        r is Ok <==> ir_signature_ok(record.data@),
@proof start
        proof {
            let t = record.data@.subrange(0, 4);
            assert(t[0] == record.data@[0] && t[1] == record.data@[1] && t[2] == record.data@[2] && t[3] == record.data@[3]);
            assert(ir_signature_ok(record.data@) ==> t =~= seq![0x49u8, 0x4e, 0x44, 0x58]);
        }
@proof before-tail
        proof {
            assert(expected@ == seq![0x49u8, 0x4e, 0x44, 0x58]);
        }
@fn NtfsIndexRecord::validate_sizes
@props C14
@requires
        self.hinv(),
@ensures
        r is Ok <==> ir_sizes_ok(self.d()),
@fn NtfsIndexRecord::vcn
@props C14
@requires
        self.hinv(),
@ensures
        r.0 == le64(self.d(), 16) as i64,
