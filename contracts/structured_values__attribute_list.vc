@file src/structured_values/attribute_list.rs structured_values::attribute_list
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn le_ty(b: Seq<u8>, o: int) -> u32 { le32(b, o) }
pub open spec fn le_len(b: Seq<u8>, o: int) -> int { le16(b, o + 4) as int }
pub open spec fn le_name_len(b: Seq<u8>, o: int) -> int { 2 * b[o + 6] }
pub open spec fn le_name_off(b: Seq<u8>, o: int) -> int { if b[o + 6] == 0 { 26 } else { b[o + 7] as int } }
/// First byte after the header and the name.
pub open spec fn le_end(b: Seq<u8>, o: int) -> int {
    if le_name_off(b, o) + le_name_len(b, o) > 26 { le_name_off(b, o) + le_name_len(b, o) } else { 26 }
}
/// Header and name of the entry at `o` lie in the list and in the entry.
pub open spec fn le_fits(b: Seq<u8>, o: int) -> bool {
    0 <= o && o + 26 <= b.len() && le_end(b, o) <= le_len(b, o) && o + le_end(b, o) <= b.len()
}
/// There is an entry at offset `o` of the list `b`.
pub open spec fn le_ok(b: Seq<u8>, o: int) -> bool {
    le_fits(b, o) && o + le_len(b, o) <= b.len()
}
impl NtfsAttributeListEntry {
    /// This is the entry at offset `o` of the list `b`.
    pub open spec fn is(&self, b: Seq<u8>, o: int) -> bool {
        &&& self.header.ty == le_ty(b, o)
        &&& self.header.list_entry_length == le_len(b, o)
        &&& 2 * self.header.name_length == le_name_len(b, o)
        &&& self.header.lowest_vcn.0 == le64(b, o + 8) as i64
        &&& self.header.base_file_reference.0@ == b.subrange(o + 16, o + 24)
        &&& self.header.instance == le16(b, o + 24)
        &&& self.name@ == b.subrange(o + le_name_off(b, o), o + le_name_off(b, o) + le_name_len(b, o))
    }
}
/// An entry of the list `c` is the first entry of the rest of the list.
pub proof fn lemma_list_shift(c: Seq<u8>, p: int)
    requires 0 <= p,
    ensures ({
        let b = c.subrange(p, c.len() as int);
        &&& le_ok(c, p) ==> p < c.len() && le_ok(b, 0) && le_len(b, 0) == le_len(c, p) && le_len(c, p) > 0
            && b.subrange(le_len(b, 0), b.len() as int) == (if p + le_len(c, p) < c.len() { c.subrange(p + le_len(c, p), c.len() as int) } else { Seq::empty() })
        &&& p < c.len() ==> le_ok(b, 0) == le_ok(c, p)
        &&& forall|e: NtfsAttributeListEntry| le_ok(c, p) && #[trigger] e.is(c, p) ==> e.is(b, 0)
    }),
{
    let b = c.subrange(p, c.len() as int);
    if p + 26 <= c.len() {
        assert(forall|i: int| 0 <= i < b.len() ==> b[i] == c[p + i]);
        assert(le_len(b, 0) == le_len(c, p));
    }
    if le_ok(c, p) {
        assert(forall|i: int| 0 <= i < b.len() ==> b[i] == c[p + i]);
        let n = le_len(c, p);
        assert(le_len(b, 0) == n);
        if p + n < c.len() { assert(b.subrange(n, b.len() as int) =~= c.subrange(p + n, c.len() as int)); } else { assert(b.subrange(n, b.len() as int) =~= Seq::<u8>::empty()); }
        assert(b.subrange(16, 24) =~= c.subrange(p + 16, p + 24));
        assert(b.subrange(le_name_off(b, 0), le_name_off(b, 0) + le_name_len(b, 0)) =~= c.subrange(p + le_name_off(c, p), p + le_name_off(c, p) + le_name_len(c, p)));
    }
}
impl<'n, 'f> NtfsAttributeList<'n, 'f> {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        match *self { NtfsAttributeList::Resident(_, _) => true, NtfsAttributeList::NonResident(v) => v.rs_inv(d) }
    }
    /// The bytes of the entries still to come, given the bytes of the filesystem.
    pub open spec fn bytes(&self, d: Seq<u8>) -> Seq<u8> {
        match *self {
            NtfsAttributeList::Resident(s, _) => s@,
            NtfsAttributeList::NonResident(v) => {
                let c = v.rs_content(d);
                if v.rs_pos() < c.len() { c.subrange(v.rs_pos(), c.len() as int) } else { Seq::empty() }
            },
        }
    }
    /// All of it can be read from a filesystem that ends at `a`.
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool {
        match *self { NtfsAttributeList::Resident(_, _) => true, NtfsAttributeList::NonResident(v) => v.rs_whole(d, a) }
    }
    /// `p` is the place of the next entry.
    pub open spec fn pos(&self, p: NtfsPosition) -> bool {
        match *self {
            NtfsAttributeList::Resident(_, q) => p == q,
            NtfsAttributeList::NonResident(v) => crate::attribute_value::non_resident::runs_pos(v.all(), v.rs_pos(), p),
        }
    }
}
impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool { self.attribute_list.inv(d) }
    pub open spec fn bytes(&self, d: Seq<u8>) -> Seq<u8> { self.attribute_list.bytes(d) }
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool { self.attribute_list.whole(d, a) }
}
@fn NtfsAttributeList::entries
@props C12
@ensures
        r.attribute_list == *self,
@fn NtfsAttributeList::position
@props C12 C23
@requires
        self.inv(Seq::empty()),
@ensures
        self.pos(r),
@fn NtfsAttributeListEntries::new
@props C12 C08 C11 C23
@ensures
        r.attribute_list == attribute_list,
@fn NtfsAttributeListEntries::next
@props C12 C08 C11 C23
@requires
        old(fs).dinv(), old(self).inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).inv(old(fs).disk()),
        forall|a: int| #[trigger] final(self).whole(old(fs).disk(), a) == old(self).whole(old(fs).disk(), a),
        match r {
            None => old(self).bytes(old(fs).disk()).len() == 0 && final(self).bytes(old(fs).disk()).len() == 0,
            Some(Ok(e)) => {
                let b = old(self).bytes(old(fs).disk());
                &&& le_ok(b, 0)
                &&& e.is(b, 0)
                &&& old(self).attribute_list.pos(e.position)
                &&& final(self).bytes(old(fs).disk()) == b.subrange(le_len(b, 0), b.len() as int)
            },
            Some(Err(_)) => {
                let b = old(self).bytes(old(fs).disk());
                &&& b.len() > 0 && final(self).bytes(old(fs).disk()) == b
                &&& old(self).attribute_list is Resident || T::dsound() && old(self).whole(old(fs).disk(), old(fs).davail()) ==> !le_ok(b, 0)
            },
        },
@hide le_ok le_len NtfsAttributeListEntry::is
@proof start
        proof {
            match &self.attribute_list {
                NtfsAttributeList::NonResident(v) => {
                    let c = v.rs_content(fs.disk());
                    lemma_list_shift(c, v.rs_pos());
                },
                _ => {},
            }
        }
@fn NtfsAttributeListEntries::next_non_resident
@props C12 C08 C11 C23
@requires
        old(fs).dinv(), old(value).rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(value).rs_inv(old(fs).disk()),
        final(value).rs_content(old(fs).disk()) == old(value).rs_content(old(fs).disk()),
        forall|a: int| #[trigger] final(value).rs_whole(old(fs).disk(), a) == old(value).rs_whole(old(fs).disk(), a),
        match r {
            None => old(value).rs_pos() >= old(value).rs_content(old(fs).disk()).len() && final(value).rs_pos() == old(value).rs_pos(),
            Some(Ok(e)) => {
                let b = old(value).rs_content(old(fs).disk());
                let o = old(value).rs_pos();
                &&& le_ok(b, o)
                &&& e.is(b, o)
                &&& crate::attribute_value::non_resident::runs_pos(old(value).all(), o, e.position)
                &&& final(value).rs_pos() == o + le_len(b, o)
            },
            Some(Err(_)) => {
                &&& old(value).rs_pos() < old(value).rs_content(old(fs).disk()).len() && final(value).rs_pos() == old(value).rs_pos()
                &&& T::dsound() && old(value).rs_whole(old(fs).disk(), old(fs).davail()) ==> !le_ok(old(value).rs_content(old(fs).disk()), old(value).rs_pos())
            },
        },
@fn NtfsAttributeListEntries::next_resident
@props C12 C08 C11 C23
@ensures
        match r {
            None => old(slice)@.len() == 0 && final(slice)@ == old(slice)@ && *final(position) == *old(position),
            Some(Ok(e)) => {
                let b = old(slice)@;
                &&& le_ok(b, 0)
                &&& e.is(b, 0)
                &&& e.position == *old(position)
                &&& final(slice)@ == b.subrange(le_len(b, 0), b.len() as int)
                &&& *final(position) == crate::types::pos_add(*old(position), le_len(b, 0))
            },
            Some(Err(_)) => old(slice)@.len() > 0 && !le_ok(old(slice)@, 0) && final(slice)@ == old(slice)@ && *final(position) == *old(position),
        },
@proof start
        proof { assert(vstd::slice::spec_slice_len(*slice) == slice@.len()); }
@fn NtfsAttributeListEntry::new
@props C12 C23
@requires
        old(r).dinv(), old(r).dpos() >= 0,
@ret res
@ensures
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dunder() == old(r).dunder(), final(r).dsafe() == old(r).dsafe(),
        old(r).dsafe() >= old(r).disk().len() && old(r).disk().len() <= u64::MAX && le_fits(old(r).disk(), old(r).dpos()) ==> res is Ok,
        match res {
            Ok(e) => le_fits(old(r).disk(), old(r).dpos()) && e.is(old(r).disk(), old(r).dpos()) && e.position == position,
            Err(_) => true,
        },
@proof before-tail
        proof {
            let b = old(r).disk();
            let o = old(r).dpos();
            assert(entry.name@ =~= b.subrange(o + le_name_off(b, o), o + le_name_off(b, o) + le_name_len(b, o)));
        }
@fn NtfsAttributeListEntry::base_file_reference
@props C12 C08 C11
@ensures
        r == self.header.base_file_reference,
@fn NtfsAttributeListEntry::instance
@props C12 C08 C11
@ensures
        r == self.header.instance,
@fn NtfsAttributeListEntry::list_entry_length
@props C12
@ensures
        r == self.header.list_entry_length,
@fn NtfsAttributeListEntry::lowest_vcn
@props C12 C08 C11
@ensures
        r == self.header.lowest_vcn,
@fn NtfsAttributeListEntry::name
@props C12
@ensures
        r.0@ == self.name@,
@fn NtfsAttributeListEntry::name_length
@props C12
@ensures
        r == 2 * self.header.name_length,
@fn NtfsAttributeListEntry::name_offset
@props C12
@ensures
        r == self.header.name_offset,
@fn NtfsAttributeListEntry::position
@props C12 C23
@ensures
        r == self.position,
@fn NtfsAttributeListEntry::read_name
@props C12
@requires
        old(r).dinv(), old(r).dpos() >= 0, old(self).name@.len() == 510,
@ret res
@ensures
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dunder() == old(r).dunder(), final(r).dsafe() == old(r).dsafe(),
        final(self).header == old(self).header, final(self).position == old(self).position,
        ({
            let n = 2 * old(self).header.name_length;
            let p = old(r).dpos() + (if n == 0 { 0 } else { old(self).header.name_offset - 26 });
            &&& old(r).dsafe() >= old(r).disk().len() && old(r).disk().len() <= u64::MAX && 0 <= p && p + n <= old(r).disk().len() ==> res is Ok
            &&& res is Ok ==> final(self).name@ == (if n == 0 { Seq::empty() } else { old(r).disk().subrange(p, p + n) }) && (n > 0 ==> 0 <= p && p + n <= old(r).disk().len())
        }),
@fn NtfsAttributeListEntry::ty
@props C12 C08 C11
@ensures
        r is Ok <==> NtfsAttributeType::n_spec(self.header.ty) is Some,
        match r { Ok(t) => NtfsAttributeType::n_spec(self.header.ty) == Some(t), Err(_) => true },
@fn NtfsAttributeListEntry::to_file
@props C12 C03 C08 C11 C20
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), ntfs.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(f) => ntfs.file_is(old(fs).disk(), self.header.base_file_reference.num(), f),
            Err(_) => true,
        },
        T::dsound() && ntfs.mft_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> ntfs.file_ok(old(fs).disk(), self.header.base_file_reference.num())),
@fn NtfsAttributeListEntry::to_attribute
@props C12 C08 C11
@requires
        file.inv(),
        file.file_record_number == self.header.base_file_reference.num(),
@ensures
        match r {
            Ok(a) => NtfsAttributeType::n_spec(self.header.ty) is Some && file.found(a, NtfsAttributeType::n_spec(self.header.ty)->Some_0, None, Some(self.header.instance)),
            Err(_) => NtfsAttributeType::n_spec(self.header.ty) is None || !(file.find(NtfsAttributeType::n_spec(self.header.ty)->Some_0, None, Some(self.header.instance)) is Found),
        },
@fn NtfsAttributeListEntry::validate_entry_and_name_length
@props C12
@ensures
        r is Ok <==> 26 <= self.header.list_entry_length && (self.header.name_length > 0 ==> self.header.name_offset + 2 * self.header.name_length <= self.header.list_entry_length),
@fn NtfsAttributeListEntry::validate_list_entry_length
@props C12
@ensures
        r is Ok <==> self.header.list_entry_length <= remaining_length,
@inject impl NtfsAttributeList:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { !(value is AttributeListNonResident) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool {
        match (*self, value) {
            (NtfsAttributeList::Resident(s, p), NtfsAttributeValue::Resident(v)) => s == v.data && p == v.pos_spec(),
            (NtfsAttributeList::NonResident(w), NtfsAttributeValue::NonResident(v)) => w == v,
            _ => false,
        }
    }
@fn NtfsAttributeList:NtfsStructuredValue::from_attribute_value
@props C12
@ensures C12
        r is Ok <==> !(value is AttributeListNonResident),
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsAttributeList as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::AttributeList,
{
    crate::order::mark();
}
