@file src/index_entry.rs index_entry
@text
pub open spec fn ie_len(s: Seq<u8>) -> int { le16(s, 8) as int }
pub open spec fn ie_key_len(s: Seq<u8>) -> int { le16(s, 10) as int }
pub open spec fn ie_last(s: Seq<u8>) -> bool { s[12] & 2 != 0 }
pub open spec fn ie_sub(s: Seq<u8>) -> bool { s[12] & 1 != 0 }
/// An entry starts at the first byte of `s` and lies inside `s`.
pub open spec fn ie_ok(s: Seq<u8>) -> bool { s.len() >= 16 && 16 <= ie_len(s) <= s.len() }
/// The entry has a key.
pub open spec fn ie_has_key(s: Seq<u8>) -> bool { ie_key_len(s) != 0 && !ie_last(s) }
pub open spec fn ie_key(s: Seq<u8>) -> Seq<u8> { s.subrange(16, 16 + ie_key_len(s)) }
pub open spec fn ie_vcn(s: Seq<u8>) -> i64 { le64(s, ie_len(s) - 8) as i64 }
/// The entry starting at `o` of a node whose used part is `s[..e]`.
pub open spec fn ie_at(s: Seq<u8>, o: int, e: int) -> Seq<u8> { s.subrange(o, o + ie_len(s.subrange(o, e))) }
pub open spec fn node_end(s: Seq<u8>, o: int, e: int) -> bool { o < 0 || o >= e || e > s.len() }
/// Offsets of the entries of the node `s[..e]` from offset `o` on, up to the one flagged as last or the first malformed one.
pub open spec fn node_from(s: Seq<u8>, o: int, e: int) -> Seq<int>
    decreases e - o,
{
    if node_end(s, o, e) || !ie_ok(s.subrange(o, e)) {
        Seq::empty()
    } else if ie_last(s.subrange(o, e)) {
        seq![o]
    } else {
        seq![o] + node_from(s, o + ie_len(s.subrange(o, e)), e)
    }
}
pub proof fn lemma_ie_sub(s: Seq<u8>)
    requires ie_ok(s),
    ensures ({
        let t = s.subrange(0, ie_len(s));
        ie_ok(t) && t.len() == ie_len(t) && ie_len(t) == ie_len(s) && ie_key_len(t) == ie_key_len(s) && ie_last(t) == ie_last(s) && ie_sub(t) == ie_sub(s)
    }),
{
}
pub proof fn lemma_flags(x: u8)
    ensures
        (((x & 3u8) & 2u8) == 2u8) == (x & 2u8 != 0u8),
        (((x & 3u8) & 1u8) == 1u8) == (x & 1u8 != 0u8),
{
    assert((((x & 3u8) & 2u8) == 2u8) == (x & 2u8 != 0u8)) by (bit_vector);
    assert((((x & 3u8) & 1u8) == 1u8) == (x & 1u8 != 0u8)) by (bit_vector);
}
pub proof fn lemma_flags_all()
    ensures forall|x: u8| ((#[trigger] (x & 3u8) & 2u8) == 2u8) == (x & 2u8 != 0u8) && (((x & 3u8) & 1u8) == 1u8) == (x & 1u8 != 0u8),
{
    assert forall|x: u8| ((#[trigger] (x & 3u8) & 2u8) == 2u8) == (x & 2u8 != 0u8) && (((x & 3u8) & 1u8) == 1u8) == (x & 1u8 != 0u8) by { lemma_flags(x); }
}
impl<E> IndexEntryRange<E> where E: NtfsIndexEntryType {
    /// The range is one of an entry of the node `data`.
    pub open spec fn fits(&self, data: Seq<u8>) -> bool {
        self.range.start <= self.range.end <= data.len() && ie_ok(self.bytes(data)) && ie_len(self.bytes(data)) == self.bytes(data).len()
    }
    pub open spec fn bytes(&self, data: Seq<u8>) -> Seq<u8> { data.subrange(self.range.start as int, self.range.end as int) }
}
impl<'s, E> NtfsIndexEntry<'s, E> where E: NtfsIndexEntryType {
    pub open spec fn s(&self) -> Seq<u8> { self.slice@ }
    pub open spec fn inv(&self) -> bool { ie_ok(self.s()) && ie_len(self.s()) == self.s().len() }
}
impl<E> IndexNodeEntryRanges<E> where E: NtfsIndexEntryType {
    pub open spec fn inv(&self) -> bool { self.range.end <= self.data@.len() && (self.range.start <= self.range.end || self.range.start == self.data@.len()) }
    pub open spec fn o(&self) -> int { self.range.start as int }
    pub open spec fn e(&self) -> int { self.range.end as int }
    /// Offsets of the entries still to come.
    pub open spec fn rest(&self) -> Seq<int> { node_from(self.data@, self.o(), self.e()) }
}
@text
/// The entry flags are those of NTFS.
pub proof fn lemma_flag_codes()
    ensures
        NtfsIndexEntryFlags::HAS_SUBNODE.0 == 0x1,
        NtfsIndexEntryFlags::LAST_ENTRY.0 == 0x2,
{
}
@fn IndexEntryRange::new
@props C13 C23
@ensures
        r.range == range, r.position == position,
@fn IndexEntryRange::to_entry
@props C13 C22 C15 C16 C23
@requires
        self.range.start <= self.range.end <= slice@.len(),
@ensures
        r is Ok <==> ie_ok(self.bytes(slice@)),
        match r {
            Ok(e) => e.inv() && e.s() == self.bytes(slice@).subrange(0, ie_len(self.bytes(slice@))) && e.position == self.position,
            Err(_) => true,
        },
@fn NtfsIndexEntry::new
@props C13 C23
@ensures
        r is Ok <==> ie_ok(slice@),
        match r {
            Ok(e) => e.inv() && e.s() == slice@.subrange(0, ie_len(slice@)) && e.position == position,
            Err(_) => true,
        },
@proof start
        proof { if ie_ok(slice@) { lemma_ie_sub(slice@); } }
@fn NtfsIndexEntry::data
@props C13
@requires
        self.inv(),
@ensures
        match r {
            None => le16(self.s(), 0) == 0 || le16(self.s(), 2) == 0,
            Some(Ok(d)) => le16(self.s(), 0) != 0 && le16(self.s(), 2) != 0 && le16(self.s(), 0) + le16(self.s(), 2) <= self.s().len()
                && d.data_of(self.s().subrange(le16(self.s(), 0) as int, le16(self.s(), 0) + le16(self.s(), 2))),
            Some(Err(_)) => le16(self.s(), 0) != 0 && le16(self.s(), 2) != 0 && (le16(self.s(), 0) + le16(self.s(), 2) > self.s().len()
                || !<<E as NtfsIndexEntryHasData>::DataType as NtfsIndexEntryData>::data_ok(self.s().subrange(le16(self.s(), 0) as int, le16(self.s(), 0) + le16(self.s(), 2)))),
        },
@fn NtfsIndexEntry::data_offset
@props C13
@requires
        self.inv(),
@ensures
        r == le16(self.s(), 0),
@fn NtfsIndexEntry::data_length
@props C13
@requires
        self.inv(),
@ensures
        r == le16(self.s(), 2),
@fn NtfsIndexEntry::file_reference
@props C13 C20
@requires
        self.inv(),
@ensures
        r.0@ == self.s().subrange(0, 8),
@fn NtfsIndexEntry::to_file
@props C13 C20 C03
@requires
        self.inv(), old(fs).dinv(), ntfs.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(f) => ntfs.file_is(old(fs).disk(), le32(self.s(), 0) + 0x1_0000_0000 * le16(self.s(), 4), f),
            Err(_) => true,
        },
        T::dsound() && ntfs.mft_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> ntfs.file_ok(old(fs).disk(), le32(self.s(), 0) + 0x1_0000_0000 * le16(self.s(), 4))),
@fn NtfsIndexEntry::flags
@props C13 C15 C16
@requires
        self.inv(),
@ensures
        r.0 == self.s()[12] & 3,
@fn NtfsIndexEntry::index_entry_length
@props C13 C15 C16
@requires
        self.s().len() >= 16,
@ensures
        r == ie_len(self.s()),
@fn NtfsIndexEntry::key
@props C13 C15 C16
@requires
        self.inv(),
@ensures
        match r {
            None => !ie_has_key(self.s()),
            Some(Ok(k)) => ie_has_key(self.s()) && 16 + ie_key_len(self.s()) <= self.s().len() && k.key_of(ie_key(self.s())),
            Some(Err(_)) => ie_has_key(self.s()) && (16 + ie_key_len(self.s()) > self.s().len() || !<<E as NtfsIndexEntryType>::KeyType as NtfsIndexEntryKey>::key_ok(ie_key(self.s()))),
        },
@proof start
        proof { lemma_flags(self.s()[12]); }
@fn NtfsIndexEntry::key_length
@props C13 C15 C16
@requires
        self.inv(),
@ensures
        r == ie_key_len(self.s()),
@fn NtfsIndexEntry::position
@props C13 C23
@ensures
        r == self.position,
@fn NtfsIndexEntry::subnode_vcn
@props C13 C15 C16
@requires
        self.inv(),
@ensures
        match r {
            None => !ie_sub(self.s()),
            Some(Ok(v)) => ie_sub(self.s()) && self.s().len() >= 24 && v.0 == ie_vcn(self.s()),
            Some(Err(_)) => ie_sub(self.s()) && self.s().len() < 24,
        },
@proof start
        proof { lemma_flags(self.s()[12]); }
@fn NtfsIndexEntry::validate_size
@props C13
@ensures
        r is Ok <==> ie_ok(self.s()),
@fn IndexNodeEntryRanges::new
@props C13 C15 C16 C23
@requires
        range.start <= range.end <= data@.len(),
@ensures
        r.inv(), r.data == data, r.range == range, r.position == position,
@fn IndexNodeEntryRanges::data
@props C13
@ensures
        r@ == self.data@,
@fn IndexNodeEntryRanges:Iterator::next
@props C13 C23 C15 C16
@requires
        old(self).inv(),
@ensures
        final(self).inv(),
        final(self).data == old(self).data, final(self).e() == old(self).e(),
        match r {
            None => node_end(old(self).data@, old(self).o(), old(self).e()) && *final(self) == *old(self),
            Some(Ok(x)) => {
                &&& !node_end(old(self).data@, old(self).o(), old(self).e())
                &&& x.fits(old(self).data@)
                &&& x.range.start == old(self).o() && x.bytes(old(self).data@) == ie_at(old(self).data@, old(self).o(), old(self).e())
                &&& x.position == old(self).position
                &&& old(self).rest() == seq![old(self).o()] + final(self).rest()
                &&& if ie_last(x.bytes(old(self).data@)) {
                    node_end(final(self).data@, final(self).o(), final(self).e())
                } else {
                    final(self).o() == x.range.end && final(self).position == crate::types::pos_add(old(self).position, ie_len(x.bytes(old(self).data@)))
                }
            },
            Some(Err(_)) => !node_end(old(self).data@, old(self).o(), old(self).e()) && !ie_ok(old(self).data@.subrange(old(self).o(), old(self).e())) && *final(self) == *old(self),
        },
@proof start
        proof {
            lemma_flags_all();
            let t = self.data@.subrange(self.o(), self.e());
            if !node_end(self.data@, self.o(), self.e()) && ie_ok(t) {
                lemma_ie_sub(t);
                assert(t.subrange(0, ie_len(t)) =~= self.data@.subrange(self.o(), self.o() + ie_len(t)));
            }
        }
@fn NtfsIndexNodeEntries::new
@props C13 C23
@ensures
        r.slice@ == slice@, r.position == position,
@fn NtfsIndexNodeEntries:Iterator::next
@props C13 C23
@ensures
        match r {
            None => old(self).slice@.len() == 0 && *final(self) == *old(self),
            Some(Ok(x)) => {
                &&& x.inv() && ie_ok(old(self).slice@)
                &&& x.s() == old(self).slice@.subrange(0, ie_len(old(self).slice@)) && x.position == old(self).position
                &&& if ie_last(x.s()) {
                    final(self).slice@.len() == 0
                } else {
                    final(self).slice@ == old(self).slice@.subrange(ie_len(old(self).slice@), old(self).slice@.len() as int) && final(self).position == crate::types::pos_add(old(self).position, ie_len(old(self).slice@))
                }
            },
            Some(Err(_)) => old(self).slice@.len() > 0 && !ie_ok(old(self).slice@) && *final(self) == *old(self),
        },
@proof start
        proof {
            lemma_flags_all();
            if ie_ok(self.slice@) { lemma_ie_sub(self.slice@); }
        }
@fn NtfsIndexEntryFlags:Display::fmt
@props C22
