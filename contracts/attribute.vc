@file src/attribute.rs attribute
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
use crate::structured_values::attribute_list::{le_ok, le_ty, le_len};
@text
pub open spec fn at_ty(d: Seq<u8>, o: int) -> u32 { le32(d, o) }
pub open spec fn at_len(d: Seq<u8>, o: int) -> int { le32(d, o + 4) as int }
pub open spec fn at_resident(d: Seq<u8>, o: int) -> bool { d[o + 8] == 0 }
pub open spec fn at_name_len(d: Seq<u8>, o: int) -> int { 2 * d[o + 9] }
pub open spec fn at_name_off(d: Seq<u8>, o: int) -> int { le16(d, o + 10) as int }
pub open spec fn at_flags(d: Seq<u8>, o: int) -> u16 { le16(d, o + 12) }
pub open spec fn at_instance(d: Seq<u8>, o: int) -> u16 { le16(d, o + 14) }
pub open spec fn at_res_len(d: Seq<u8>, o: int) -> int { le32(d, o + 16) as int }
pub open spec fn at_res_off(d: Seq<u8>, o: int) -> int { le16(d, o + 20) as int }
pub open spec fn at_runs_off(d: Seq<u8>, o: int) -> int { le16(d, o + 32) as int }
pub open spec fn at_data_size(d: Seq<u8>, o: int) -> u64 { le64(d, o + 48) }
/// There is an attribute at offset `o` of the record data `d`: it lies within the record and has all header fields.
pub open spec fn at_ok(d: Seq<u8>, o: int) -> bool {
    &&& 0 <= o && o + 16 <= d.len()
    &&& o + at_len(d, o) <= d.len()
    &&& at_len(d, o) >= (if at_resident(d, o) { 24int } else { 64 })
}
/// Name of the attribute at `o`, if it lies within the attribute.
pub open spec fn at_name_ok(d: Seq<u8>, o: int) -> bool {
    at_name_off(d, o) == 0 || at_name_len(d, o) == 0 || (at_name_off(d, o) < at_len(d, o) && at_name_off(d, o) + at_name_len(d, o) <= at_len(d, o))
}
pub open spec fn at_name(d: Seq<u8>, o: int) -> Seq<u8> {
    if at_name_off(d, o) == 0 || at_name_len(d, o) == 0 { Seq::empty() } else { d.subrange(o + at_name_off(d, o), o + at_name_off(d, o) + at_name_len(d, o)) }
}
pub open spec fn at_res_ok(d: Seq<u8>, o: int) -> bool {
    at_res_off(d, o) + at_res_len(d, o) <= at_len(d, o)
}
/// The bytes of the resident value.
pub open spec fn at_res(d: Seq<u8>, o: int) -> Seq<u8> {
    d.subrange(o + at_res_off(d, o), o + at_res_off(d, o) + at_res_len(d, o))
}
pub open spec fn at_runs_ok(d: Seq<u8>, o: int) -> bool {
    at_runs_off(d, o) <= at_len(d, o)
}
pub open spec fn at_runs(d: Seq<u8>, o: int) -> Seq<u8> {
    d.subrange(o + at_runs_off(d, o), o + at_len(d, o))
}
pub open spec fn at_end(d: Seq<u8>, o: int) -> bool {
    o < 0 || o + 4 > d.len() || at_ty(d, o) == 0xffff_ffff
}
/// Offsets of the attributes of the record data `d` from offset `o` on, up to the end or the first malformed one.
pub open spec fn raw_from(d: Seq<u8>, o: int) -> Seq<int>
    decreases d.len() - o,
{
    if at_end(d, o) || !at_ok(d, o) { Seq::empty() } else { seq![o] + raw_from(d, o + at_len(d, o)) }
}
/// Attributes follow each other without gap or overlap.
pub proof fn lemma_raw_tiles(d: Seq<u8>, o: int)
    ensures
        forall|k: int| 0 <= k < raw_from(d, o).len() ==> #[trigger] at_ok(d, raw_from(d, o)[k]),
        forall|k: int| 0 <= k < raw_from(d, o).len() - 1 ==> raw_from(d, o)[k] + at_len(d, raw_from(d, o)[k]) == #[trigger] raw_from(d, o)[k + 1],
        raw_from(d, o).len() > 0 ==> raw_from(d, o)[0] == o,
    decreases d.len() - o,
{
    if !at_end(d, o) && at_ok(d, o) {
        let n = o + at_len(d, o);
        lemma_raw_tiles(d, n);
        let a = raw_from(d, o);
        let b = raw_from(d, n);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] at_ok(d, a[k]) by {
            if k > 0 { assert(a[k] == b[k - 1]); }
        }
        assert forall|k: int| 0 <= k < a.len() - 1 implies a[k] + at_len(d, a[k]) == #[trigger] a[k + 1] by {
            assert(a[k + 1] == b[k]);
            if k > 0 { assert(a[k] == b[k - 1]); assert(b[k - 1] + at_len(d, b[k - 1]) == b[k - 1 + 1]); }
        }
    }
}
pub enum FindG { Found(int), Absent, Bad }
/// Whether the attribute at `o` has the given type and, where given, instance and name; `None` if that can't be told.
pub open spec fn at_matches(d: Seq<u8>, o: int, ty: NtfsAttributeType, name: Option<Seq<u16>>, instance: Option<u16>) -> Option<bool> {
    match NtfsAttributeType::n_spec(at_ty(d, o)) {
        None => None,
        Some(t) => {
            if t != ty { Some(false) }
            else if instance is Some && at_instance(d, o) != instance->Some_0 { Some(false) }
            else if name is None { Some(true) }
            else if !at_name_ok(d, o) { None }
            else { Some(crate::vx::nt_string::u16strle::units(at_name(d, o)) == name->Some_0) }
        },
    }
}
/// The first matching attribute of the record data `d` from offset `o` on.
pub open spec fn find_at(d: Seq<u8>, o: int, ty: NtfsAttributeType, name: Option<Seq<u16>>, instance: Option<u16>) -> FindG
    decreases d.len() - o,
{
    if at_end(d, o) { FindG::Absent }
    else if !at_ok(d, o) { FindG::Bad }
    else {
        match at_matches(d, o, ty, name, instance) {
            None => FindG::Bad,
            Some(true) => FindG::Found(o),
            Some(false) => find_at(d, o + at_len(d, o), ty, name, instance),
        }
    }
}
/// What is found is an attribute of the record that matches.
pub proof fn lemma_find_at(d: Seq<u8>, o: int, ty: NtfsAttributeType, name: Option<Seq<u16>>, instance: Option<u16>)
    ensures
        match find_at(d, o, ty, name, instance) {
            FindG::Found(x) => at_ok(d, x) && at_matches(d, x, ty, name, instance) == Some(true) && raw_from(d, o).contains(x),
            _ => true,
        },
    decreases d.len() - o,
{
    if !at_end(d, o) && at_ok(d, o) {
        if at_matches(d, o, ty, name, instance) == Some(true) {
            assert(raw_from(d, o)[0] == o);
        } else if at_matches(d, o, ty, name, instance) == Some(false) {
            let n = o + at_len(d, o);
            lemma_find_at(d, n, ty, name, instance);
            match find_at(d, n, ty, name, instance) {
                FindG::Found(x) => {
                    let k = raw_from(d, n).index_of(x);
                    assert(raw_from(d, o)[k + 1] == x);
                },
                _ => {},
            }
        }
    }
}
/// The bytes of the value of the attribute at `o` of the record data `m` if it isn't continued elsewhere,
/// given the cluster size and the bytes of the filesystem.
pub open spec fn at_content(m: Seq<u8>, o: int, cs: int, d: Seq<u8>) -> Seq<u8> {
    if at_resident(m, o) { at_res(m, o) } else {
        let all = crate::attribute_value::non_resident::dec_runs(at_runs(m, o), 0, 0, cs);
        Seq::new(at_data_size(m, o) as nat, |i: int| crate::attribute_value::non_resident::runs_byte(all, d, all.len() as int, i))
    }
}
/// How many of them there are runs for.
pub open spec fn at_avail(m: Seq<u8>, o: int, cs: int) -> int {
    if at_resident(m, o) { at_res(m, o).len() as int } else {
        let t = crate::attribute_value::non_resident::total(crate::attribute_value::non_resident::dec_runs(at_runs(m, o), 0, 0, cs));
        if t < at_data_size(m, o) { t } else { at_data_size(m, o) as int }
    }
}
/// There is a value.
pub open spec fn at_val_ok(m: Seq<u8>, o: int) -> bool {
    if at_resident(m, o) { at_res_ok(m, o) } else { at_runs_ok(m, o) }
}
/// There is a value, all of which lies before `a`.
pub open spec fn at_whole(m: Seq<u8>, o: int, cs: int, a: int) -> bool {
    at_val_ok(m, o) && (!at_resident(m, o) ==> crate::attribute_value::non_resident::nr_whole(at_runs(m, o), at_data_size(m, o) as int, cs, a))
}
/// `p` is the place of byte `i` of that value; the record data is at `base`.
pub open spec fn at_pos(m: Seq<u8>, base: NtfsPosition, o: int, cs: int, i: int, p: NtfsPosition) -> bool {
    if at_resident(m, o) {
        p == (if i <= at_res_len(m, o) { crate::types::pos_add(crate::types::pos_add(base, o + at_res_off(m, o)), i) } else { NtfsPosition(None) })
    } else {
        crate::attribute_value::non_resident::runs_pos(crate::attribute_value::non_resident::dec_runs(at_runs(m, o), 0, 0, cs), i, p)
    }
}
impl<'n, 'f> NtfsAttribute<'n, 'f> {
    pub open spec fn d(&self) -> Seq<u8> { self.file.d() }
    pub open spec fn o(&self) -> int { self.offset as int }
    pub open spec fn inv(&self) -> bool {
        &&& self.file.inv()
        &&& at_ok(self.d(), self.o())
    }
    /// This is a reader of the resident value of the attribute.
    pub open spec fn res(&self, v: NtfsResidentAttributeValue<'f>) -> bool {
        &&& at_resident(self.d(), self.o()) && at_res_ok(self.d(), self.o())
        &&& v.data@ == at_res(self.d(), self.o())
        &&& v.position == crate::types::pos_add(self.file.record.position, self.o() + at_res_off(self.d(), self.o()))
        &&& v.stream_position == 0
    }
    /// This is a reader of the value of the attribute.
    pub open spec fn val(&self, v: NtfsAttributeValue<'n, 'f>) -> bool {
        match v {
            NtfsAttributeValue::Resident(w) => self.list_entries is None && self.res(w),
            NtfsAttributeValue::NonResident(w) => {
                &&& self.list_entries is None
                &&& !at_resident(self.d(), self.o()) && at_runs_ok(self.d(), self.o())
                &&& w.ntfs == self.file.ntfs
                &&& w.data@ == at_runs(self.d(), self.o())
                &&& w.position == crate::types::pos_add(self.file.record.position, self.o() + at_runs_off(self.d(), self.o()))
                &&& w.stream_state.data_size == at_data_size(self.d(), self.o())
            },
            NtfsAttributeValue::AttributeListNonResident(w) => {
                &&& self.list_entries is Some
                &&& !at_resident(self.d(), self.o())
                &&& w.ntfs == self.file.ntfs
                &&& w.initial_attribute_list_entries == *self.list_entries->Some_0
                &&& w.connected_entries.instance == at_instance(self.d(), self.o())
                &&& NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) == Some(w.connected_entries.ty)
                &&& w.data_size == at_data_size(self.d(), self.o())
            },
        }
    }
    /// The value can be read from a filesystem with the bytes `d`.
    pub open spec fn linv(&self, d: Seq<u8>) -> bool {
        self.list_entries is Some ==> !at_resident(self.d(), self.o()) && (*self.list_entries->Some_0).inv(d)
    }
    /// There is a value, all of which (and all that leads to it) lies before `a`.
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool {
        match self.list_entries {
            None => at_whole(self.d(), self.o(), self.file.ntfs.cs(), a),
            Some(e) => {
                &&& NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) is Some
                &&& (*e).whole(d, a)
                &&& crate::attribute_value::attribute_list_non_resident::al_whole(*self.file.ntfs, d, (*e).bytes(d), at_instance(self.d(), self.o()), NtfsAttributeType::n_spec(at_ty(self.d(), self.o()))->Some_0, at_data_size(self.d(), self.o()) as int, a)
            },
        }
    }
    /// For internal use while the attribute is being constructed: the header can be read.
    pub open spec fn hinv(&self) -> bool {
        self.file.inv() && self.o() + 16 <= self.d().len()
    }
}
/// A reader of the value of an attribute yields what the attribute record describes.
pub proof fn lemma_val<'n, 'f>(a: NtfsAttribute<'n, 'f>, v: NtfsAttributeValue<'n, 'f>, d: Seq<u8>, x: int)
    requires a.inv(), a.val(v), a.list_entries is None,
    ensures
        at_val_ok(a.d(), a.o()),
        v.rs_content(d) == at_content(a.d(), a.o(), a.file.ntfs.cluster_size as int, d),
        v.rs_avail(d, x) == at_avail(a.d(), a.o(), a.file.ntfs.cluster_size as int),
        v.rs_whole(d, x) == at_whole(a.d(), a.o(), a.file.ntfs.cluster_size as int, x),
        crate::attribute_value::value_len(v) == v.rs_content(d).len(),
{
    crate::order::mark();
    assert(v.rs_content(d) =~= at_content(a.d(), a.o(), a.file.ntfs.cluster_size as int, d));
}
/// The bytes of the value of the attribute at `o` of the record data `m`, continued as given by the attribute list `list`.
pub open spec fn val_content(ntfs: crate::ntfs::Ntfs, d: Seq<u8>, m: Seq<u8>, o: int, list: Option<Seq<u8>>) -> Seq<u8> {
    match list {
        None => at_content(m, o, ntfs.cs(), d),
        Some(b) => {
            let all = crate::attribute_value::attribute_list_non_resident::al_runs(ntfs, d, b, at_instance(m, o), NtfsAttributeType::n_spec(at_ty(m, o))->Some_0);
            Seq::new(at_data_size(m, o) as nat, |i: int| crate::attribute_value::non_resident::runs_byte(all, d, all.len() as int, i))
        },
    }
}
impl<'n, 'f> NtfsAttribute<'n, 'f> {
    /// The bytes of the value.
    pub open spec fn content(&self, d: Seq<u8>) -> Seq<u8> {
        val_content(*self.file.ntfs, d, self.d(), self.o(), match self.list_entries { Some(e) => Some((*e).bytes(d)), None => None })
    }
}
pub proof fn lemma_val_content<'n, 'f>(a: NtfsAttribute<'n, 'f>, v: NtfsAttributeValue<'n, 'f>, d: Seq<u8>)
    requires a.inv(), a.val(v),
    ensures v.rs_content(d) == a.content(d), forall|x: int| #[trigger] v.rs_whole(d, x) == a.whole(d, x),
{
    crate::order::mark();
    if a.list_entries is None {
        lemma_val(a, v, d, 0);
        assert forall|x: int| #[trigger] v.rs_whole(d, x) == a.whole(d, x) by { lemma_val(a, v, d, x); }
    }
    assert(v.rs_content(d) =~= a.content(d));
}
pub proof fn lemma_whole<'n, 'f>(a: NtfsAttribute<'n, 'f>, d: Seq<u8>, x: int)
    requires a.inv(), a.whole(d, x), a.list_entries is Some ==> !at_resident(a.d(), a.o()),
    ensures
        a.content(d).len() == (if at_resident(a.d(), a.o()) { at_res_len(a.d(), a.o()) } else { at_data_size(a.d(), a.o()) as int }),
        a.list_entries is None ==> at_val_ok(a.d(), a.o()),
        a.list_entries is None && !at_resident(a.d(), a.o()) ==> !(crate::attribute_value::non_resident::dec_run(at_runs(a.d(), a.o()), 0, 0, a.file.ntfs.cluster_size as int) is Bad),
{
}
/// Its position is what the attribute record describes.
pub proof fn lemma_val_pos<'n, 'f>(a: NtfsAttribute<'n, 'f>, v: NtfsAttributeValue<'n, 'f>, w: NtfsAttributeValue<'n, 'f>, p: NtfsPosition)
    requires a.inv(), a.val(v), a.list_entries is None, crate::attribute_value::same_value(v, w), crate::attribute_value::value_pos(w, p),
    ensures at_pos(a.d(), a.file.record.position, a.o(), a.file.ntfs.cluster_size as int, w.rs_pos(), p),
{
    crate::order::mark();
}
@text
/// The attribute types are those of NTFS.
pub proof fn lemma_type_codes()
    ensures
        NtfsAttributeType::n_spec(0x10u32) == Some(NtfsAttributeType::StandardInformation),
        NtfsAttributeType::n_spec(0x20u32) == Some(NtfsAttributeType::AttributeList),
        NtfsAttributeType::n_spec(0x30u32) == Some(NtfsAttributeType::FileName),
        NtfsAttributeType::n_spec(0x40u32) == Some(NtfsAttributeType::ObjectId),
        NtfsAttributeType::n_spec(0x50u32) == Some(NtfsAttributeType::SecurityDescriptor),
        NtfsAttributeType::n_spec(0x60u32) == Some(NtfsAttributeType::VolumeName),
        NtfsAttributeType::n_spec(0x70u32) == Some(NtfsAttributeType::VolumeInformation),
        NtfsAttributeType::n_spec(0x80u32) == Some(NtfsAttributeType::Data),
        NtfsAttributeType::n_spec(0x90u32) == Some(NtfsAttributeType::IndexRoot),
        NtfsAttributeType::n_spec(0xa0u32) == Some(NtfsAttributeType::IndexAllocation),
        NtfsAttributeType::n_spec(0xb0u32) == Some(NtfsAttributeType::Bitmap),
        NtfsAttributeType::n_spec(0xc0u32) == Some(NtfsAttributeType::ReparsePoint),
        NtfsAttributeType::n_spec(0xd0u32) == Some(NtfsAttributeType::EAInformation),
        NtfsAttributeType::n_spec(0xe0u32) == Some(NtfsAttributeType::EA),
        NtfsAttributeType::n_spec(0xf0u32) == Some(NtfsAttributeType::PropertySet),
        NtfsAttributeType::n_spec(0x100u32) == Some(NtfsAttributeType::LoggedUtilityStream),
        NtfsAttributeType::n_spec(0xffffffffu32) == Some(NtfsAttributeType::End),
        forall|x: u32| #[trigger] NtfsAttributeType::n_spec(x) is Some ==> x == 0xffff_ffff || x & 15 == 0 && 0x10 <= x <= 0x100,
{
    assert(forall|x: u32| #[trigger] NtfsAttributeType::n_spec(x) is Some ==> x == 0xffff_ffffu32 || x == 16u32 || x == 32u32 || x == 48u32 || x == 64u32 || x == 80u32 || x == 96u32 || x == 112u32 || x == 128u32 || x == 144u32 || x == 160u32 || x == 176u32 || x == 192u32 || x == 208u32 || x == 224u32 || x == 240u32 || x == 256u32);
    assert(16u32 & 15 == 0) by (bit_vector); assert(32u32 & 15 == 0) by (bit_vector); assert(48u32 & 15 == 0) by (bit_vector); assert(64u32 & 15 == 0) by (bit_vector); assert(80u32 & 15 == 0) by (bit_vector); assert(96u32 & 15 == 0) by (bit_vector); assert(112u32 & 15 == 0) by (bit_vector); assert(128u32 & 15 == 0) by (bit_vector); assert(144u32 & 15 == 0) by (bit_vector); assert(160u32 & 15 == 0) by (bit_vector); assert(176u32 & 15 == 0) by (bit_vector); assert(192u32 & 15 == 0) by (bit_vector); assert(208u32 & 15 == 0) by (bit_vector); assert(224u32 & 15 == 0) by (bit_vector); assert(240u32 & 15 == 0) by (bit_vector); assert(256u32 & 15 == 0) by (bit_vector);
}
/// The attribute flags are those of NTFS.
pub proof fn lemma_flag_codes()
    ensures
        NtfsAttributeFlags::COMPRESSED.0 == 0x1,
        NtfsAttributeFlags::ENCRYPTED.0 == 0x4000,
        NtfsAttributeFlags::SPARSE.0 == 0x8000,
{
}
@fn NtfsAttribute::new
@props C09 C23 C10
@requires
        file.inv(),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> at_ok(file.d(), offset as int),
        match r { Ok(a) => a.inv() && a.file == file && a.offset == offset && a.list_entries == list_entries, Err(_) => true },
@fn NtfsAttribute::attribute_length
@props C09 C10
@requires
        self.hinv(),
@ensures
        r == at_len(self.d(), self.o()),
@fn NtfsAttribute::ensure_ty
@props C10 C18 C12 C14
@requires
        self.hinv(),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) == Some(expected),
@fn NtfsAttribute::flags
@props C10
@requires
        self.hinv(),
@ensures
        r.0 == at_flags(self.d(), self.o()) & 0xc001,
@fn NtfsAttribute::instance
@props C10
@requires
        self.hinv(),
@ensures
        r == at_instance(self.d(), self.o()),
@fn NtfsAttribute::is_resident
@props C10
@requires
        self.hinv(),
@ensures
        r <==> at_resident(self.d(), self.o()),
@fn NtfsAttribute::name
@props C10
@requires
        self.inv(),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> at_name_ok(self.d(), self.o()),
        match r { Ok(n) => n.0@ == at_name(self.d(), self.o()), Err(_) => true },
@fn NtfsAttribute::name_offset
@props C10
@requires
        self.hinv(),
@ensures
        r == at_name_off(self.d(), self.o()),
@fn NtfsAttribute::name_length
@props C10
@requires
        self.hinv(),
@ensures
        r == at_name_len(self.d(), self.o()),
@fn NtfsAttribute::non_resident_value
@props C10 C04 C05
@requires
        self.inv(), !at_resident(self.d(), self.o()),
@ensures
        match r {
            Ok(v) => {
                &&& at_runs_ok(self.d(), self.o())
                &&& v.rs_inv(Seq::empty()) && v.rs_pos() == 0
                &&& v.ntfs == self.file.ntfs
                &&& v.data@ == at_runs(self.d(), self.o())
                &&& v.position == crate::types::pos_add(self.file.record.position, self.o() + at_runs_off(self.d(), self.o()))
                &&& v.stream_state.data_size == at_data_size(self.d(), self.o())
            },
            Err(_) => !at_runs_ok(self.d(), self.o()) || crate::attribute_value::non_resident::dec_run(at_runs(self.d(), self.o()), 0, 0, self.file.ntfs.cluster_size as int) is Bad,
        },
@fn NtfsAttribute::non_resident_value_data_and_position
@props C10 C23 C04 C05
@requires
        self.inv(), !at_resident(self.d(), self.o()),
@ensures
        r is Ok <==> at_runs_ok(self.d(), self.o()),
        match r {
            Ok((s, p)) => s@ == at_runs(self.d(), self.o()) && p == crate::types::pos_add(self.file.record.position, self.o() + at_runs_off(self.d(), self.o())),
            Err(_) => true,
        },
@fn NtfsAttribute::non_resident_value_data_size
@props C10 C04 C05
@requires
        self.inv(), !at_resident(self.d(), self.o()),
@ensures
        r == at_data_size(self.d(), self.o()),
@fn NtfsAttribute::non_resident_value_data_runs_offset
@props C10 C04 C05
@requires
        self.inv(), !at_resident(self.d(), self.o()),
@ensures
        r == at_runs_off(self.d(), self.o()),
@fn NtfsAttribute::offset
@props C10
@ensures
        r == self.offset,
@fn NtfsAttribute::position
@props C10 C23
@ensures
        r == crate::types::pos_add(self.file.record.position, self.o()),
@fn NtfsAttribute::resident_value
@props C10 C23 C07
@requires
        self.inv(), at_resident(self.d(), self.o()),
@ensures
        r is Ok <==> at_res_ok(self.d(), self.o()),
        match r {
            Ok(v) => self.res(v),
            Err(e) => !(e is AttributeNotFound),
        },
@fn NtfsAttribute::resident_structured_value
@props C18 C25
@requires
        self.inv(),
@ensures
        match r {
            Ok(s) => {
                &&& NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) == Some(<S as NtfsStructuredValue>::TY)
                &&& exists|v: NtfsResidentAttributeValue<'f>| #[trigger] self.res(v) && S::sv_ok(NtfsAttributeValue::Resident(v), Seq::empty()) && s.sv_of(NtfsAttributeValue::Resident(v), Seq::empty())
            },
            Err(e) => {
                &&& !(e is AttributeNotFound)
                &&& NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) != Some(<S as NtfsStructuredValue>::TY)
                    || !at_resident(self.d(), self.o()) || !at_res_ok(self.d(), self.o())
                    || exists|v: NtfsResidentAttributeValue<'f>| #[trigger] self.res(v) && !S::sv_ok(NtfsAttributeValue::Resident(v), Seq::empty())
            },
        },
@fn NtfsAttribute::structured_value
@props C18 C25 C12 C14
@requires
        old(fs).dinv(), self.inv(), self.linv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(s) => {
                &&& NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) == Some(<S as NtfsStructuredValue>::TY)
                &&& exists|v: NtfsAttributeValue<'n, 'f>| #[trigger] self.val(v) && v.rs_inv(old(fs).disk()) && v.rs_pos() == 0 && S::sv_ok(v, old(fs).disk()) && s.sv_of(v, old(fs).disk())
            },
            Err(_) => {
                ||| NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) != Some(<S as NtfsStructuredValue>::TY)
                ||| !at_resident(self.d(), self.o()) && !(T::dsound() && self.whole(old(fs).disk(), old(fs).davail()))
                ||| at_resident(self.d(), self.o()) && !at_res_ok(self.d(), self.o())
                ||| exists|v: NtfsAttributeValue<'n, 'f>| #[trigger] self.val(v) && !S::sv_ok(v, old(fs).disk())
            },
        },
@fn NtfsAttribute::resident_value_length
@props C10
@requires
        self.inv(), at_resident(self.d(), self.o()),
@ensures
        r == at_res_len(self.d(), self.o()),
@fn NtfsAttribute::resident_value_offset
@props C10
@requires
        self.inv(), at_resident(self.d(), self.o()),
@ensures
        r == at_res_off(self.d(), self.o()),
@fn NtfsAttribute::ty
@props C10
@requires
        self.hinv(),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) is Some,
        match r { Ok(t) => NtfsAttributeType::n_spec(at_ty(self.d(), self.o())) == Some(t), Err(_) => true },
@fn NtfsAttribute::validate_attribute_length
@props C09 C10
@requires
        self.file.inv(),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> at_ok(self.d(), self.o()),
@fn NtfsAttribute::validate_name_sizes
@props C10
@requires
        self.inv(),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> at_name_off(self.d(), self.o()) < at_len(self.d(), self.o()) && at_name_off(self.d(), self.o()) + at_name_len(self.d(), self.o()) <= at_len(self.d(), self.o()),
@fn NtfsAttribute::validate_resident_value_sizes
@props C10
@requires
        self.inv(), at_resident(self.d(), self.o()),
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> at_res_ok(self.d(), self.o()),
@fn NtfsAttribute::value
@props C10 C05 C07 C08
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), self.inv(), self.linv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(v) => self.val(v) && v.rs_inv(old(fs).disk()) && v.rs_pos() == 0,
            Err(_) => {
                ||| self.list_entries is Some && !(T::dsound() && self.whole(old(fs).disk(), old(fs).davail()))
                ||| self.list_entries is None && !at_val_ok(self.d(), self.o())
                ||| self.list_entries is None && !at_resident(self.d(), self.o()) && crate::attribute_value::non_resident::dec_run(at_runs(self.d(), self.o()), 0, 0, self.file.ntfs.cluster_size as int) is Bad
            },
        },
@fn NtfsAttribute::value_length
@props C10
@requires
        self.inv(),
@ensures
        r == (if at_resident(self.d(), self.o()) { at_res_len(self.d(), self.o()) } else { at_data_size(self.d(), self.o()) as int }),
@text
impl<'n, 'f> NtfsAttributesRaw<'n, 'f> {
    pub open spec fn inv(&self) -> bool {
        &&& self.file.inv()
        &&& self.items_range.start <= 0xffff || self.items_range.start <= self.file.d().len()
    }
    pub open spec fn d(&self) -> Seq<u8> { self.file.d() }
    pub open spec fn o(&self) -> int { self.items_range.start as int }
    /// Offsets of the attributes still to come.
    pub open spec fn rest(&self) -> Seq<int> { raw_from(self.d(), self.o()) }
}
@fn NtfsAttributesRaw::new
@props C09
@requires
        file.inv(),
@ensures
        r.inv(), r.file == file, r.o() == le16(file.d(), 20),
@fn NtfsAttributesRaw:Iterator::next
@props C09 C23
@requires
        old(self).inv(),
@ensures
        final(self).inv(),
        final(self).file == old(self).file,
        match r {
            None => at_end(old(self).d(), old(self).o()) && final(self).o() == old(self).o(),
            Some(Ok(a)) => {
                &&& a.inv() && a.file == old(self).file && a.list_entries is None
                &&& !at_end(old(self).d(), old(self).o())
                &&& a.o() == old(self).o() && final(self).o() == a.o() + at_len(a.d(), a.o())
                &&& old(self).rest() == seq![a.o()] + final(self).rest()
            },
            Some(Err(e)) => !(e is AttributeNotFound) && !at_end(old(self).d(), old(self).o()) && !at_ok(old(self).d(), old(self).o()) && final(self).o() == old(self).o(),
        },
@fn NtfsAttributes::new
@props C11
@requires
        file.inv(),
@ensures
        r.raw_iter.inv(), r.raw_iter.file == file, r.raw_iter.o() == le16(file.d(), 20), r.list_entries is None, r.list_skip_info is None,
@text
/// An attribute of the flattened view: one of the record itself (given by its offset there), or one that an attribute list
/// entry refers to (given by file record number, offset, and the list from that entry on if its value may be continued).
/// `Bad` is a structural error.
pub enum FlatG { Own(int), Ext { n: int, o: int, list: Option<Seq<u8>> }, Bad }
pub open spec fn is_list(m: Seq<u8>, o: int) -> bool { NtfsAttributeType::n_spec(at_ty(m, o)) == Some(NtfsAttributeType::AttributeList) }
/// What the first entry of the attribute list `b` contributes, and the skipped attribute from then on
/// (`None` after a structural error, which ends the view).
pub open spec fn flat_step(ntfs: crate::ntfs::Ntfs, d: Seq<u8>, n: int, skip: Option<(u16, NtfsAttributeType)>, b: Seq<u8>) -> (Seq<FlatG>, Option<Option<(u16, NtfsAttributeType)>>) {
    let inst = le16(b, 24);
    let num = crate::attribute_value::attribute_list_non_resident::le_num(b);
    match NtfsAttributeType::n_spec(le_ty(b, 0)) {
        None => (seq![FlatG::Bad], None),
        Some(ty) => {
            if num == n || skip == Some((inst, ty)) { (Seq::empty(), Some(skip)) }
            else if !ntfs.file_ok(d, num) { (seq![FlatG::Bad], None) }
            else {
                match crate::file::rec_find(ntfs.file_d(d, num), ty, None, Some(inst)) {
                    FindG::Found(x) => if at_resident(ntfs.file_d(d, num), x) {
                        (seq![FlatG::Ext { n: num, o: x, list: None }], Some(None))
                    } else {
                        (seq![FlatG::Ext { n: num, o: x, list: Some(b) }], Some(Some((inst, ty))))
                    },
                    _ => (seq![FlatG::Bad], None),
                }
            }
        },
    }
}
/// The flattened attributes of the record data `m` of file record `n`, from offset `o` on.
/// `skip` is the attribute yielded last whose continuations are not to be yielded again.
#[verifier::opaque]
pub open spec fn flat_raw(ntfs: crate::ntfs::Ntfs, d: Seq<u8>, n: int, m: Seq<u8>, o: int, skip: Option<(u16, NtfsAttributeType)>) -> Seq<FlatG>
    decreases m.len() - o, 0int, 0int,
{
    if at_end(m, o) { Seq::empty() }
    else if !at_ok(m, o) { seq![FlatG::Bad] }
    else if !is_list(m, o) { seq![FlatG::Own(o)] + flat_raw(ntfs, d, n, m, o + at_len(m, o), skip) }
    else if !at_val_ok(m, o) { seq![FlatG::Bad] }
    else { flat_list(ntfs, d, n, m, o + at_len(m, o), skip, at_content(m, o, ntfs.cs(), d)) }
}
/// The same with the attribute list `b` still to go through.
#[verifier::opaque]
pub open spec fn flat_list(ntfs: crate::ntfs::Ntfs, d: Seq<u8>, n: int, m: Seq<u8>, o: int, skip: Option<(u16, NtfsAttributeType)>, b: Seq<u8>) -> Seq<FlatG>
    decreases m.len() - o, 1int, b.len(),
{
    if b.len() == 0 { flat_raw(ntfs, d, n, m, o, skip) }
    else if !le_ok(b, 0) { seq![FlatG::Bad] }
    else {
        match flat_step(ntfs, d, n, skip, b) {
            (g, None) => g,
            (g, Some(skip1)) => g + flat_list(ntfs, d, n, m, o, skip1, b.subrange(le_len(b, 0), b.len() as int)),
        }
    }
}
pub proof fn lemma_flat_list(ntfs: crate::ntfs::Ntfs, d: Seq<u8>, n: int, m: Seq<u8>, o: int, skip: Option<(u16, NtfsAttributeType)>, b: Seq<u8>)
    requires b.len() > 0,
    ensures
        flat_list(ntfs, d, n, m, o, skip, b) == if !le_ok(b, 0) { seq![FlatG::Bad] } else {
            match flat_step(ntfs, d, n, skip, b) {
                (g, None) => g,
                (g, Some(skip1)) => g + flat_list(ntfs, d, n, m, o, skip1, b.subrange(le_len(b, 0), b.len() as int)),
            }
        },
{
    reveal(flat_list);
}
pub proof fn lemma_flat_raw(ntfs: crate::ntfs::Ntfs, d: Seq<u8>, n: int, m: Seq<u8>, o: int)
    ensures
        forall|skip: Option<(u16, NtfsAttributeType)>| #[trigger] flat_raw(ntfs, d, n, m, o, skip) ==
            if at_end(m, o) { Seq::empty() }
            else if !at_ok(m, o) { seq![FlatG::Bad] }
            else if !is_list(m, o) { seq![FlatG::Own(o)] + flat_raw(ntfs, d, n, m, o + at_len(m, o), skip) }
            else if !at_val_ok(m, o) { seq![FlatG::Bad] }
            else { flat_list(ntfs, d, n, m, o + at_len(m, o), skip, at_content(m, o, ntfs.cs(), d)) },
        forall|skip: Option<(u16, NtfsAttributeType)>, b: Seq<u8>| b.len() == 0 ==> #[trigger] flat_list(ntfs, d, n, m, o, skip, b) == flat_raw(ntfs, d, n, m, o, skip),
{
    reveal(flat_raw);
    reveal(flat_list);
}
pub enum FlatFind { Found(FlatG), Absent, Bad }
/// The first attribute for which `p` holds, unless the view is damaged before that or `p` can't be told.
#[verifier::opaque]
pub open spec fn flat_find(l: Seq<FlatG>, p: spec_fn(FlatG) -> Option<bool>) -> FlatFind
    decreases l.len(),
{
    if l.len() == 0 { FlatFind::Absent }
    else if l[0] is Bad { FlatFind::Bad }
    else {
        match p(l[0]) { None => FlatFind::Bad, Some(true) => FlatFind::Found(l[0]), Some(false) => flat_find(l.skip(1), p) }
    }
}
pub proof fn lemma_found(l: Seq<FlatG>, p: spec_fn(FlatG) -> Option<bool>)
    ensures flat_find(l, p) is Found ==> p(flat_find(l, p)->Found_0) == Some(true),
    decreases l.len(),
{
    reveal(flat_find);
    if l.len() > 0 { lemma_found(l.skip(1), p); }
}
pub proof fn lemma_flat_find(l: Seq<FlatG>, p: spec_fn(FlatG) -> Option<bool>)
    ensures
        flat_find(l, p) == if l.len() == 0 { FlatFind::Absent } else if l[0] is Bad { FlatFind::Bad } else { match p(l[0]) { None => FlatFind::Bad, Some(true) => FlatFind::Found(l[0]), Some(false) => flat_find(l.skip(1), p) } },
{
    reveal(flat_find);
}
/// There is no (intact) attribute list attribute at `o`.
pub open spec fn not_list(m: Seq<u8>, o: int) -> bool { at_end(m, o) || !at_ok(m, o) || !is_list(m, o) }
/// No attribute list from offset `o` of the record data `m` on.
#[verifier::opaque]
pub open spec fn no_list(m: Seq<u8>, o: int) -> bool
    decreases m.len() - o,
{
    at_end(m, o) || !at_ok(m, o) || (!is_list(m, o) && no_list(m, o + at_len(m, o)))
}
pub proof fn lemma_no_list(m: Seq<u8>, o: int)
    ensures no_list(m, o) == (at_end(m, o) || !at_ok(m, o) || (!is_list(m, o) && no_list(m, o + at_len(m, o)))),
{
    reveal(no_list);
}
/// All attribute lists of the record data `m` from offset `o` on lie before `a`.
#[verifier::opaque]
pub open spec fn lists_whole(m: Seq<u8>, o: int, cs: int, a: int) -> bool
    decreases m.len() - o,
{
    at_end(m, o) || !at_ok(m, o) || ((is_list(m, o) && at_val_ok(m, o) ==> at_whole(m, o, cs, a)) && lists_whole(m, o + at_len(m, o), cs, a))
}
pub proof fn lemma_lists_whole(m: Seq<u8>, o: int, cs: int, a: int)
    ensures
        lists_whole(m, o, cs, a) == (at_end(m, o) || !at_ok(m, o) || ((is_list(m, o) && at_val_ok(m, o) ==> at_whole(m, o, cs, a)) && lists_whole(m, o + at_len(m, o), cs, a))),
{
    reveal(lists_whole);
}
/// The list entries read from the value of an attribute list attribute.
pub proof fn lemma_list_value<'n, 'f>(a: NtfsAttribute<'n, 'f>, v: NtfsAttributeValue<'n, 'f>, l: NtfsAttributeList<'n, 'f>, d: Seq<u8>, x: int)
    requires
        a.inv(), a.list_entries is None, a.val(v), v.rs_inv(d), v.rs_pos() == 0,
        <NtfsAttributeList<'n, 'f> as NtfsStructuredValue<'n, 'f>>::sv_ok(v, d), l.sv_of(v, d),
    ensures
        l.inv(d), at_val_ok(a.d(), a.o()),
        l.bytes(d) == at_content(a.d(), a.o(), a.file.ntfs.cs(), d),
        l.whole(d, x) == at_whole(a.d(), a.o(), a.file.ntfs.cs(), x),
{
    crate::order::mark();
    lemma_val(a, v, d, x);
    assert(l.bytes(d) =~= v.rs_content(d));
}
impl<'n, 'f> NtfsAttributeItem<'n, 'f> {
    /// The record the attribute is stored in.
    pub open spec fn f(&self) -> NtfsFile<'n> {
        match self.attribute_value_file { Some(f) => f, None => *self.attribute_file }
    }
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        &&& self.f().inv()
        &&& at_ok(self.f().d(), self.attribute_offset as int)
        &&& self.list_entries is Some ==> !at_resident(self.f().d(), self.attribute_offset as int) && self.list_entries->Some_0.inv(d)
    }
    /// The bytes of the value of the attribute.
    pub open spec fn content(&self, d: Seq<u8>) -> Seq<u8> {
        val_content(*self.f().ntfs, d, self.f().d(), self.attribute_offset as int, match self.list_entries { Some(e) => Some(e.bytes(d)), None => None })
    }
    /// The attribute list that leads to the value lies before `a`.
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool { self.list_entries is Some ==> self.list_entries->Some_0.whole(d, a) }
    /// There is a value, all of which (and all that leads to it) lies before `a`.
    pub open spec fn vwhole(&self, d: Seq<u8>, a: int) -> bool {
        let (m, o) = (self.f().d(), self.attribute_offset as int);
        match self.list_entries {
            None => at_whole(m, o, self.f().ntfs.cs(), a),
            Some(e) => {
                &&& NtfsAttributeType::n_spec(at_ty(m, o)) is Some
                &&& e.whole(d, a)
                &&& crate::attribute_value::attribute_list_non_resident::al_whole(*self.f().ntfs, d, e.bytes(d), at_instance(m, o), NtfsAttributeType::n_spec(at_ty(m, o))->Some_0, at_data_size(m, o) as int, a)
            },
        }
    }
    pub open spec fn ty(&self) -> Option<NtfsAttributeType> { NtfsAttributeType::n_spec(at_ty(self.f().d(), self.attribute_offset as int)) }
    /// The bytes of the resident value.
    pub open spec fn res(&self) -> Seq<u8> { at_res(self.f().d(), self.attribute_offset as int) }
    /// This is the attribute `g` of the flattened view of `file`.
    pub open spec fn is(&self, file: &'f NtfsFile<'n>, d: Seq<u8>, g: FlatG) -> bool {
        &&& self.attribute_file == file
        &&& self.inv(d)
        &&& match g {
            FlatG::Own(o) => self.attribute_value_file is None && self.attribute_offset == o && self.list_entries is None,
            FlatG::Ext { n, o, list } => {
                &&& self.attribute_value_file is Some && file.ntfs.file_is(d, n, self.attribute_value_file->Some_0)
                &&& self.attribute_offset == o
                &&& match list { None => self.list_entries is None, Some(b) => self.list_entries is Some && self.list_entries->Some_0.bytes(d) == b }
            },
            FlatG::Bad => false,
        }
    }
}
impl<'n, 'f> NtfsAttributes<'n, 'f> {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        &&& self.raw_iter.inv()
        &&& self.list_entries is Some ==> self.list_entries->Some_0.inv(d)
    }
    /// The MFT and all attribute lists still to come lie before `a`.
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool {
        &&& self.raw_iter.file.ntfs.mft_whole(d, a)
        &&& lists_whole(self.raw_iter.d(), self.raw_iter.o(), self.raw_iter.file.ntfs.cs(), a)
        &&& self.list_entries is Some ==> self.list_entries->Some_0.whole(d, a)
    }
    /// The attributes of the flattened view still to come, given the bytes of the filesystem.
    pub open spec fn flat(&self, d: Seq<u8>) -> Seq<FlatG> {
        let f = *self.raw_iter.file;
        match self.list_entries {
            Some(e) => flat_list(*f.ntfs, d, f.file_record_number as int, f.d(), self.raw_iter.o(), self.list_skip_info, e.bytes(d)),
            None => flat_raw(*f.ntfs, d, f.file_record_number as int, f.d(), self.raw_iter.o(), self.list_skip_info),
        }
    }
}
@fn NtfsAttributeItem::to_attribute
@props C11 C10
@requires
        self.f().inv(),
@ensures
        r is Ok <==> at_ok(self.f().d(), self.attribute_offset as int),
        match r {
            Ok(a) => a.inv() && *a.file == self.f() && a.offset == self.attribute_offset
                && match self.list_entries { Some(e) => a.list_entries is Some && *a.list_entries->Some_0 == e, None => a.list_entries is None },
            Err(_) => true,
        },
@fn NtfsAttributes::attach
@props C11
@ensures
        r.attributes == self,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsAttributes::next
@props C11
@hide crate::attribute::at_ty
@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
@requires
        old(fs).dinv(), old(self).inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).inv(old(fs).disk()),
        final(self).raw_iter.file == old(self).raw_iter.file,
        old(self).whole(old(fs).disk(), old(fs).davail()) ==> final(self).whole(old(fs).disk(), old(fs).davail()),
        match r {
            None => old(self).flat(old(fs).disk()).len() == 0 && final(self).flat(old(fs).disk()).len() == 0,
            Some(Ok(i)) => {
                let fl = old(self).flat(old(fs).disk());
                &&& fl.len() > 0 && i.is(old(self).raw_iter.file, old(fs).disk(), fl[0]) && final(self).flat(old(fs).disk()) == fl.skip(1)
                &&& old(self).whole(old(fs).disk(), old(fs).davail()) ==> i.whole(old(fs).disk(), old(fs).davail())
                &&& old(self).list_entries is None && not_list(old(self).raw_iter.d(), old(self).raw_iter.o()) ==>
                        !at_end(old(self).raw_iter.d(), old(self).raw_iter.o()) && at_ok(old(self).raw_iter.d(), old(self).raw_iter.o())
                        && final(self).list_entries is None && final(self).raw_iter.o() == old(self).raw_iter.o() + at_len(old(self).raw_iter.d(), old(self).raw_iter.o())
            },
            Some(Err(_)) => {
                let fl = old(self).flat(old(fs).disk());
                old(self).list_entries is None && not_list(old(self).raw_iter.d(), old(self).raw_iter.o()) || T::dsound() && old(self).whole(old(fs).disk(), old(fs).davail()) ==> fl.len() > 0 && fl[0] is Bad
            },
        },
@loop 0
            invariant
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                self.inv(fs.disk()), self.raw_iter.file == old(self).raw_iter.file,
                self.flat(fs.disk()) == old(self).flat(fs.disk()),
                q == (old(self).list_entries is None && not_list(old(self).raw_iter.d(), old(self).raw_iter.o())),
                w == old(self).whole(fs.disk(), fs.davail()), w ==> self.whole(fs.disk(), fs.davail()),
                q ==> self.list_entries is None && self.raw_iter.o() == old(self).raw_iter.o(),
            decreases self.raw_iter.d().len() - self.raw_iter.o(),
@proof start
        let ghost w = self.whole(fs.disk(), fs.davail());
        let ghost q = self.list_entries is None && not_list(self.raw_iter.d(), self.raw_iter.o());
@proof loop0.start
            proof {
                let f = *self.raw_iter.file;
                lemma_flat_raw(*f.ntfs, fs.disk(), f.file_record_number as int, f.d(), self.raw_iter.o());
                lemma_flat_raw(*f.ntfs, fs.disk(), f.file_record_number as int, f.d(), self.raw_iter.o() + at_len(f.d(), self.raw_iter.o()));
                lemma_lists_whole(f.d(), self.raw_iter.o(), f.ntfs.cs(), fs.davail());
                assert forall|g: FlatG, s: Seq<FlatG>| #[trigger] (seq![g] + s).skip(1) == s by { assert((seq![g] + s).skip(1) =~= s); }
                crate::structured_values::attribute_list::lemma_sv_ty();
                assert forall|a: NtfsAttribute<'n, 'f>, v: NtfsAttributeValue<'n, 'f>, l: NtfsAttributeList<'n, 'f>|
                    a.inv() && a.list_entries is None && #[trigger] a.val(v) && v.rs_inv(fs.disk()) && v.rs_pos() == 0
                    && <NtfsAttributeList<'n, 'f> as NtfsStructuredValue<'n, 'f>>::sv_ok(v, fs.disk()) && #[trigger] l.sv_of(v, fs.disk())
                    implies l.inv(fs.disk()) && at_val_ok(a.d(), a.o()) && l.bytes(fs.disk()) == at_content(a.d(), a.o(), a.file.ntfs.cs(), fs.disk())
                        && l.whole(fs.disk(), fs.davail()) == at_whole(a.d(), a.o(), a.file.ntfs.cs(), fs.davail()) by {
                    lemma_list_value(a, v, l, fs.disk(), fs.davail());
                }
            }
@proof loop1.start
            proof {
                let f = *self.raw_iter.file;
                lemma_flat_raw(*f.ntfs, fs.disk(), f.file_record_number as int, f.d(), self.raw_iter.o());
                assert forall|s: Seq<FlatG>| #[trigger] (Seq::<FlatG>::empty() + s) == s by { assert((Seq::<FlatG>::empty() + s) =~= s); }
                if attribute_list_entries.bytes(fs.disk()).len() > 0 { lemma_flat_list(*f.ntfs, fs.disk(), f.file_record_number as int, f.d(), self.raw_iter.o(), self.list_skip_info, attribute_list_entries.bytes(fs.disk())); }
            }
@loop 1
            invariant
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                self.raw_iter.inv(), self.raw_iter.file == old(self).raw_iter.file,
                !q, q == (old(self).list_entries is None && not_list(old(self).raw_iter.d(), old(self).raw_iter.o())),
                attribute_list_entries.inv(fs.disk()),
                w == old(self).whole(fs.disk(), fs.davail()),
                w ==> self.raw_iter.file.ntfs.mft_whole(fs.disk(), fs.davail()) && lists_whole(self.raw_iter.d(), self.raw_iter.o(), self.raw_iter.file.ntfs.cs(), fs.davail()) && attribute_list_entries.whole(fs.disk(), fs.davail()),
                after_borrow(self.list_entries) == Some(*final(attribute_list_entries)),
                flat_list(*self.raw_iter.file.ntfs, fs.disk(), self.raw_iter.file.file_record_number as int, self.raw_iter.d(), self.raw_iter.o(), self.list_skip_info, attribute_list_entries.bytes(fs.disk())) == old(self).flat(fs.disk()),
            ensures
                attribute_list_entries.bytes(fs.disk()).len() == 0,
            decreases attribute_list_entries.bytes(fs.disk()).len(),
@fn NtfsAttributesAttached:Iterator::next
@props C11
@requires
        old(self).fs.dinv(), old(self).attributes.inv(old(self).fs.disk()),
@ensures
        final(self).fs.dinv(), final(self).fs.disk() == old(self).fs.disk(), final(self).fs.davail() == old(self).fs.davail(),
        final(self).attributes.inv(old(self).fs.disk()),
        final(self).attributes.raw_iter.file == old(self).attributes.raw_iter.file,
        old(self).attributes.whole(old(self).fs.disk(), old(self).fs.davail()) ==> final(self).attributes.whole(old(self).fs.disk(), old(self).fs.davail()),
        match r {
            None => old(self).attributes.flat(old(self).fs.disk()).len() == 0 && final(self).attributes.flat(old(self).fs.disk()).len() == 0,
            Some(Ok(i)) => {
                let fl = old(self).attributes.flat(old(self).fs.disk());
                fl.len() > 0 && i.is(old(self).attributes.raw_iter.file, old(self).fs.disk(), fl[0]) && final(self).attributes.flat(old(self).fs.disk()) == fl.skip(1)
            },
            Some(Err(_)) => {
                let fl = old(self).attributes.flat(old(self).fs.disk());
                T::dsound() && old(self).attributes.whole(old(self).fs.disk(), old(self).fs.davail()) ==> fl.len() > 0 && fl[0] is Bad
            },
        },
@fn NtfsAttributesAttached::new
@props C11
@ensures
        r.attributes == attributes,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsAttributesAttached::detach
@props C11
@ensures
        r == self.attributes,
@fn NtfsAttributeFlags:Display::fmt
@props C22
