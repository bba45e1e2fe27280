@file src/file.rs file
@head
#[allow(unused_imports)] use crate::{NtfsStructuredValue as _, NtfsResidentAttributeValue, NtfsAttributeValue};
@text
/// The record data `s` (after fixup) fits the sizes in its header.
pub open spec fn fr_sizes_ok(s: Seq<u8>) -> bool {
    s.len() >= 48 && le32(s, 24) <= le32(s, 28) <= s.len()
}
pub open spec fn fr_signature_ok(s: Seq<u8>) -> bool {
    s[0] == 0x46 && s[1] == 0x49 && s[2] == 0x4c && s[3] == 0x45
}
/// The record data as on disk is a valid file record.
pub open spec fn fr_ok(s: Seq<u8>) -> bool {
    fr_signature_ok(s) && crate::record::fx_ok(s) && fr_sizes_ok(crate::record::fxd(s))
}
/// The first attribute stored in the record data `m` that has the type and, where given, the name and instance.
pub open spec fn rec_find(m: Seq<u8>, ty: NtfsAttributeType, name: Option<Seq<u16>>, instance: Option<u16>) -> crate::attribute::FindG {
    crate::attribute::find_at(m, le16(m, 20) as int, ty, name, instance)
}
/// The bytes of the resident value of the first attribute of that type, if there are such bytes.
pub open spec fn rec_res(m: Seq<u8>, ty: NtfsAttributeType) -> Option<Seq<u8>> {
    match rec_find(m, ty, None, None) {
        crate::attribute::FindG::Found(o) => if crate::attribute::at_resident(m, o) && crate::attribute::at_res_ok(m, o) { Some(crate::attribute::at_res(m, o)) } else { None },
        _ => None,
    }
}
pub open spec fn name_units(n: Option<&str>) -> Option<Seq<u16>> {
    match n { Some(s) => Some(crate::vx::nt_string::u16strle::utf16(s@)), None => None }
}
impl<'n> NtfsFile<'n> {
    /// The first attribute stored in this record that has the type and, where given, the name and instance.
    pub open spec fn find(&self, ty: NtfsAttributeType, name: Option<Seq<u16>>, instance: Option<u16>) -> crate::attribute::FindG {
        rec_find(self.d(), ty, name, instance)
    }
    /// `a` is that attribute.
    pub open spec fn found<'f>(&self, a: NtfsAttribute<'n, 'f>, ty: NtfsAttributeType, name: Option<Seq<u16>>, instance: Option<u16>) -> bool {
        &&& self.find(ty, name, instance) == crate::attribute::FindG::Found(a.o())
        &&& a.inv() && *a.file == *self && a.list_entries is None
    }
    /// The bytes of the resident value of the first attribute of that type, if there are such bytes.
    pub open spec fn res_of(&self, ty: NtfsAttributeType) -> Option<Seq<u8>> {
        rec_res(self.d(), ty)
    }
    /// The record data after fixup.
    pub open spec fn d(&self) -> Seq<u8> { self.record.data@ }
    /// The header can be read.
    pub open spec fn hinv(&self) -> bool { self.record.inv() && self.d().len() >= 48 }
    pub open spec fn inv(&self) -> bool {
        &&& self.ntfs.inv()
        &&& self.record.inv()
        &&& self.d().len() == self.ntfs.file_record_size
        &&& fr_sizes_ok(self.d())
    }
    /// This is file record `n`, made from the bytes `s` located at `position`.
    pub open spec fn made_of(&self, ntfs: &Ntfs, s: Seq<u8>, position: NtfsPosition, n: u64) -> bool {
        &&& self.inv()
        &&& *self.ntfs == *ntfs
        &&& self.record.position == position
        &&& self.file_record_number == n
        &&& fr_ok(s)
        &&& self.d().len() == s.len()
        &&& self.d() == crate::record::fxd(s)
    }
}
@fn NtfsFile::new
@props C03 C02 C23
@requires
        old(fs).dinv(), ntfs.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(), final(fs).dsafe() == old(fs).dsafe(),
        match r {
            Ok(f) => position.0 + ntfs.file_record_size <= old(fs).disk().len()
                && f.made_of(ntfs, old(fs).disk().subrange(position.0 as int, position.0 + ntfs.file_record_size), NtfsPosition(Some(position)), file_record_number),
            Err(_) => true,
        },
        T::dsound() && position.0 + ntfs.file_record_size <= old(fs).davail() && old(fs).davail() <= old(fs).disk().len() ==> (r is Ok <==> fr_ok(old(fs).disk().subrange(position.0 as int, position.0 + ntfs.file_record_size))),
@fn NtfsFile::from_record_data
@props C03 C23 C02
@requires
        ntfs.inv(), data@.len() == ntfs.file_record_size,
@ensures
        match r {
            Ok(f) => f.made_of(ntfs, data@, position, file_record_number),
            Err(_) => true,
        },
        r is Ok <==> fr_ok(data@),
@fn NtfsFile::allocated_size
@props C03
@requires
        self.hinv(),
@ensures
        r == le32(self.d(), 28),
@fn NtfsFile::data_size
@props C03
@requires
        self.hinv(),
@ensures
        r == le32(self.d(), 24),
@fn NtfsFile::file_record_number
@props C03
@ensures
        r == self.file_record_number,
@fn NtfsFile::first_attribute_offset
@props C03 C09
@requires
        self.hinv(),
@ensures
        r == le16(self.d(), 20),
@fn NtfsFile::flags
@props C03
@requires
        self.hinv(),
@ensures
        r.0 == le16(self.d(), 22) & 3,
@fn NtfsFile::hard_link_count
@props C03
@requires
        self.hinv(),
@ensures
        r == le16(self.d(), 18),
@fn NtfsFile::is_directory
@props C03 C25
@requires
        self.hinv(),
@ensures
        r <==> le16(self.d(), 22) & 2 != 0,
@proof start
        proof {
            let x = le16(self.d(), 22);
            assert((((x & 3u16) & 2u16) == 2u16) == (x & 2u16 != 0u16)) by (bit_vector);
        }
@fn NtfsFile::ntfs
@props C03
@ensures
        r == self.ntfs,
@fn NtfsFile::position
@props C03 C23
@ensures
        r == self.record.position,
@fn NtfsFile::record_data
@props C09 C10
@ensures
        r@ == self.d(),
@fn NtfsFile::sequence_number
@props C03
@requires
        self.hinv(),
@ensures
        r == le16(self.d(), 16),
@fn NtfsFile::validate_signature
@props C03
@requires
        record.inv(),
@ensures
        r is Ok <==> fr_signature_ok(record.data@),
@proof start
        proof {
            let t = record.data@.subrange(0, 4);
            assert(t[0] == record.data@[0] && t[1] == record.data@[1] && t[2] == record.data@[2] && t[3] == record.data@[3]);
            assert(fr_signature_ok(record.data@) ==> t =~= seq![0x46u8, 0x49, 0x4c, 0x45]);
        }
@proof before-tail
        proof {
            assert(expected@ == seq![0x46u8, 0x49, 0x4c, 0x45]);
        }
@fn NtfsFile::validate_sizes
@props C03 C09
@requires
        self.hinv(),
@ensures
        r is Ok <==> fr_sizes_ok(self.d()),
@fn NtfsFile::attributes_raw
@props C09
@requires
        self.inv(),
@ensures
        r.inv(), r.file == self, r.o() == le16(self.d(), 20),
@fn NtfsFile::attributes
@props C11
@requires
        self.inv(),
@ensures
        r.raw_iter.inv(), r.raw_iter.file == self, r.raw_iter.o() == le16(self.d(), 20), r.list_entries is None, r.list_skip_info is None,
@fn NtfsFile::find_resident_attribute
@props C25 C11
@requires
        self.inv(),
@ensures
        match r {
            Ok(a) => {
                &&& self.find(ty, name_units(match_name), match_instance) == crate::attribute::FindG::Found(a.o())
                &&& a.inv() && a.file == self && a.list_entries is None
            },
            Err(NtfsError::AttributeNotFound { .. }) => self.find(ty, name_units(match_name), match_instance) == crate::attribute::FindG::Absent,
            Err(_) => self.find(ty, name_units(match_name), match_instance) == crate::attribute::FindG::Bad,
        },
@loop 0
            invariant
                it__0.inv(), it__0.file == self, self.inv(),
                self.find(ty, name_units(match_name), match_instance) == crate::attribute::find_at(self.d(), it__0.o(), ty, name_units(match_name), match_instance),
            ensures
                self.find(ty, name_units(match_name), match_instance) == crate::attribute::FindG::Absent,
            decreases self.d().len() - it__0.o(),
@fn NtfsFile::find_resident_attribute_structured_value
@props C25 C18
@requires
        self.inv(),
@ensures
        match r {
            Ok(s) => exists|a: NtfsAttribute<'n, 'f>, v: NtfsResidentAttributeValue<'f>| {
                &&& #[trigger] self.found(a, <S as crate::NtfsStructuredValue>::TY, name_units(match_name), None)
                &&& #[trigger] a.res(v) && S::sv_ok(NtfsAttributeValue::Resident(v), Seq::empty()) && s.sv_of(NtfsAttributeValue::Resident(v), Seq::empty())
            },
            Err(NtfsError::AttributeNotFound { .. }) => self.find(<S as crate::NtfsStructuredValue>::TY, name_units(match_name), None) == crate::attribute::FindG::Absent,
            Err(_) => {
                ||| self.find(<S as crate::NtfsStructuredValue>::TY, name_units(match_name), None) == crate::attribute::FindG::Bad
                ||| exists|a: NtfsAttribute<'n, 'f>| #[trigger] self.found(a, <S as crate::NtfsStructuredValue>::TY, name_units(match_name), None)
                        && (!crate::attribute::at_resident(a.d(), a.o()) || !crate::attribute::at_res_ok(a.d(), a.o())
                            || exists|v: NtfsResidentAttributeValue<'f>| #[trigger] a.res(v) && !S::sv_ok(NtfsAttributeValue::Resident(v), Seq::empty()))
            },
        },
@proof start
        proof { crate::attribute::lemma_find_at(self.d(), le16(self.d(), 20) as int, <S as crate::NtfsStructuredValue>::TY, name_units(match_name), None); }
@proof before-tail
        proof { assert(self.found(attribute, <S as crate::NtfsStructuredValue>::TY, name_units(match_name), None)); }
@fn NtfsFile::info
@props C25 C18
@requires
        self.inv(),
@ensures
        match r {
            Ok(s) => self.res_of(NtfsAttributeType::StandardInformation) is Some
                && crate::structured_values::standard_information::si_ok(self.res_of(NtfsAttributeType::StandardInformation)->Some_0)
                && s.of(self.res_of(NtfsAttributeType::StandardInformation)->Some_0),
            Err(_) => self.res_of(NtfsAttributeType::StandardInformation) is None
                || !crate::structured_values::standard_information::si_ok(self.res_of(NtfsAttributeType::StandardInformation)->Some_0),
        },
@proof start
        proof {
            crate::structured_values::standard_information::lemma_sv_ty();
            assert(forall|v: NtfsResidentAttributeValue| #[trigger] NtfsStandardInformation::sv_ok(NtfsAttributeValue::Resident(v), Seq::empty()) == crate::structured_values::standard_information::si_ok(v.data@));
        }
@text
impl<'n> NtfsFile<'n> {
    /// The flattened attributes of this file.
    pub open spec fn flat(&self, d: Seq<u8>) -> Seq<crate::attribute::FlatG> {
        crate::attribute::flat_raw(*self.ntfs, d, self.file_record_number as int, self.d(), le16(self.d(), 20) as int, None)
    }
    /// Record data and offset of an attribute of the flattened view.
    pub open spec fn flat_at(&self, d: Seq<u8>, g: crate::attribute::FlatG) -> (Seq<u8>, int) {
        match g {
            crate::attribute::FlatG::Own(o) => (self.d(), o),
            crate::attribute::FlatG::Ext { n, o, list } => (self.ntfs.file_d(d, n), o),
            crate::attribute::FlatG::Bad => (Seq::empty(), 0),
        }
    }
    /// The bytes of its value.
    #[verifier::opaque]
    pub open spec fn flat_content(&self, d: Seq<u8>, g: crate::attribute::FlatG) -> Seq<u8> {
        let list = match g { crate::attribute::FlatG::Ext { n, o, list } => list, _ => None };
        crate::attribute::val_content(*self.ntfs, d, self.flat_at(d, g).0, self.flat_at(d, g).1, list)
    }
    /// All of its value (and all that leads to it from its place in the list) lies before `a`.
    #[verifier::opaque]
    pub open spec fn flat_whole(&self, d: Seq<u8>, g: crate::attribute::FlatG, a: int) -> bool {
        let (m, o) = self.flat_at(d, g);
        let ty = NtfsAttributeType::n_spec(crate::attribute::at_ty(m, o));
        match g {
            crate::attribute::FlatG::Ext { n, o, list: Some(b) } =>
                ty is Some && crate::attribute_value::attribute_list_non_resident::al_whole(*self.ntfs, d, b, crate::attribute::at_instance(m, o), ty->Some_0, crate::attribute::at_data_size(m, o) as int, a),
            _ => crate::attribute::at_whole(m, o, self.ntfs.cs(), a),
        }
    }
    /// The MFT and all attribute lists of this file lie before `a`.
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool {
        self.ntfs.mft_whole(d, a) && crate::attribute::lists_whole(self.d(), le16(self.d(), 20) as int, self.ntfs.cs(), a)
    }
    /// No attribute list from which anything could fail.
    pub open spec fn sure(&self, d: Seq<u8>, a: int, sound: bool) -> bool {
        crate::attribute::no_list(self.d(), le16(self.d(), 20) as int) || sound && self.whole(d, a)
    }
    /// The attribute has that type and, where given, that name.
    pub open spec fn is_named(&self, d: Seq<u8>, ty: NtfsAttributeType, name: Option<Seq<u16>>) -> spec_fn(crate::attribute::FlatG) -> Option<bool> {
        |g: crate::attribute::FlatG| crate::attribute::at_matches(self.flat_at(d, g).0, self.flat_at(d, g).1, ty, name, None)
    }
    /// The attribute is the data stream of that name (compared without regard to case).
    pub open spec fn is_stream(&self, d: Seq<u8>, name: Seq<u16>) -> spec_fn(crate::attribute::FlatG) -> Option<bool> {
        |g: crate::attribute::FlatG| {
            let (m, o) = self.flat_at(d, g);
            match NtfsAttributeType::n_spec(crate::attribute::at_ty(m, o)) {
                None => None,
                Some(t) => if t != NtfsAttributeType::Data { Some(false) }
                    else if !crate::attribute::at_name_ok(m, o) { None }
                    else if name.len() == 0 { Some(crate::attribute::at_name(m, o).len() == 0) }
                    else { Some(self.ntfs.up_cmp(crate::vx::nt_string::u16strle::units(crate::attribute::at_name(m, o)), name) == Ordering::Equal) },
            }
        }
    }
    /// The attribute is a file name with, where given, that namespace and that parent.
    pub open spec fn is_file_name(&self, d: Seq<u8>, ns: Option<NtfsFileNamespace>, parent: Option<u64>) -> spec_fn(crate::attribute::FlatG) -> Option<bool> {
        |g: crate::attribute::FlatG| {
            let (m, o) = self.flat_at(d, g);
            let c = self.flat_content(d, g);
            match NtfsAttributeType::n_spec(crate::attribute::at_ty(m, o)) {
                None => None,
                Some(t) => if t != NtfsAttributeType::FileName { Some(false) }
                    else if crate::attribute::at_resident(m, o) && !crate::attribute::at_res_ok(m, o) { None }
                    else if !crate::structured_values::file_name::fn_ok(c) { None }
                    else { Some((ns is Some ==> crate::structured_values::file_name::ns_of(c[65]) == ns) && (parent is Some ==> parent->Some_0 == le32(c, 0) + 0x1_0000_0000 * le16(c, 4))) },
            }
        }
    }
}
impl<'n> NtfsFile<'n> {
    /// The same, but undecided for a file name that isn't resident.
    pub open spec fn is_res_file_name(&self, d: Seq<u8>, ns: Option<NtfsFileNamespace>, parent: Option<u64>) -> spec_fn(crate::attribute::FlatG) -> Option<bool> {
        |g: crate::attribute::FlatG| {
            let (m, o) = self.flat_at(d, g);
            if NtfsAttributeType::n_spec(crate::attribute::at_ty(m, o)) == Some(NtfsAttributeType::FileName) && !crate::attribute::at_resident(m, o) { None }
            else { (self.is_file_name(d, ns, parent))(g) }
        }
    }
}
/// The item found is an attribute.
pub proof fn lemma_item<'n, 'f>(file: &'f NtfsFile<'n>, i: crate::attribute::NtfsAttributeItem<'n, 'f>, d: Seq<u8>, g: crate::attribute::FlatG)
    requires i.is(file, d, g),
    ensures i.inv(d), i.f().inv(), i.list_entries is Some ==> !crate::attribute::at_resident(i.f().d(), i.attribute_offset as int),
{
}
pub proof fn lemma_flat_value<'n, 'f>(file: &'f NtfsFile<'n>, i: crate::attribute::NtfsAttributeItem<'n, 'f>, a: crate::attribute::NtfsAttribute<'n, 'f>, d: Seq<u8>, g: crate::attribute::FlatG)
    requires
        i.is(file, d, g), a.inv(), *a.file == i.f(), a.offset == i.attribute_offset,
        match i.list_entries { Some(e) => a.list_entries is Some && *a.list_entries->Some_0 == e, None => a.list_entries is None },
    ensures
        file.flat_at(d, g) == (a.d(), a.o()),
        a.content(d) == file.flat_content(d, g),
        forall|x: int| i.whole(d, x) && file.flat_whole(d, g, x) ==> #[trigger] a.whole(d, x),
        forall|v: crate::attribute_value::NtfsAttributeValue<'n, 'f>| #[trigger] a.val(v) ==> <crate::attribute_value::NtfsAttributeValue as crate::traits::NtfsReadSeek>::rs_content(&v, d) == file.flat_content(d, g),
{
    reveal(NtfsFile::flat_content);
    reveal(NtfsFile::flat_whole);
    assert forall|v: crate::attribute_value::NtfsAttributeValue<'n, 'f>| #[trigger] a.val(v) implies <crate::attribute_value::NtfsAttributeValue as crate::traits::NtfsReadSeek>::rs_content(&v, d) == file.flat_content(d, g) by {
        crate::attribute::lemma_val_content(a, v, d);
    }
}
/// The attribute found by type and name.
pub proof fn lemma_named<'n, 'f>(file: &'f NtfsFile<'n>, i: crate::attribute::NtfsAttributeItem<'n, 'f>, d: Seq<u8>, ty: NtfsAttributeType, name: Option<Seq<u16>>)
    requires
        exists|g: crate::attribute::FlatG| #[trigger] i.is(file, d, g) && crate::attribute::flat_find(file.flat(d), file.is_named(d, ty, name)) == crate::attribute::FlatFind::Found(g),
    ensures ({
        let x = crate::attribute::flat_find(file.flat(d), file.is_named(d, ty, name));
        &&& x is Found && i.is(file, d, x->Found_0)
        &&& i.inv(d) && i.f().inv() && crate::attribute::at_ok(i.f().d(), i.attribute_offset as int) && i.ty() == Some(ty)
        &&& file.flat_at(d, x->Found_0) == (i.f().d(), i.attribute_offset as int)
    }),
{
    crate::attribute::lemma_found(file.flat(d), file.is_named(d, ty, name));
}
pub proof fn lemma_file_name<'n, 'f>(file: &'f NtfsFile<'n>, i: crate::attribute::NtfsAttributeItem<'n, 'f>, a: crate::attribute::NtfsAttribute<'n, 'f>, d: Seq<u8>, g: crate::attribute::FlatG, ns: Option<NtfsFileNamespace>, parent: Option<u64>)
    requires
        i.is(file, d, g), a.inv(), *a.file == i.f(), a.offset == i.attribute_offset,
        match i.list_entries { Some(e) => a.list_entries is Some && *a.list_entries->Some_0 == e, None => a.list_entries is None },
    ensures ({
        let p = (file.is_file_name(d, ns, parent))(g);
        let q = (file.is_res_file_name(d, ns, parent))(g);
        let c = file.flat_content(d, g);
        &&& match NtfsAttributeType::n_spec(crate::attribute::at_ty(a.d(), a.o())) {
            None => p is None && q is None,
            Some(t) => if t != NtfsAttributeType::FileName { p == Some(false) && q == Some(false) }
                else {
                    &&& !crate::attribute::at_resident(a.d(), a.o()) || !crate::attribute::at_res_ok(a.d(), a.o()) || !crate::structured_values::file_name::fn_ok(c) ==> q is None
                    &&& q is None || q == p
                    &&& crate::structured_values::file_name::fn_ok(c) && (crate::attribute::at_resident(a.d(), a.o()) ==> crate::attribute::at_res_ok(a.d(), a.o())) ==> p == Some((ns is Some ==> crate::structured_values::file_name::ns_of(c[65]) == ns) && (parent is Some ==> parent->Some_0 == le32(c, 0) + 0x1_0000_0000 * le16(c, 4)))
                },
        }
        &&& forall|v: crate::attribute_value::NtfsAttributeValue<'n, 'f>| #[trigger] a.val(v) ==> {
            &&& NtfsFileName::sv_ok(v, d) == crate::structured_values::file_name::fn_ok(c)
            &&& crate::attribute::at_resident(a.d(), a.o()) ==> crate::attribute::at_res_ok(a.d(), a.o())
            &&& forall|n: NtfsFileName| #[trigger] n.sv_of(v, d) ==> n.of(c)
        }
    }),
{
    crate::order::mark();
    lemma_flat_value(file, i, a, d, g);
    assert forall|v: crate::attribute_value::NtfsAttributeValue<'n, 'f>| #[trigger] a.val(v) implies (crate::attribute::at_resident(a.d(), a.o()) ==> crate::attribute::at_res_ok(a.d(), a.o())) by {}
}
@fn NtfsFile::find_attribute
@props C25 C11
@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
@requires
        self.inv(), old(fs).dinv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(i) => exists|g: crate::attribute::FlatG| #[trigger] i.is(self, old(fs).disk(), g)
                && crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_named(old(fs).disk(), ty, name_units(match_name))) == crate::attribute::FlatFind::Found(g),
            Err(e) => self.sure(old(fs).disk(), old(fs).davail(), T::dsound()) ==>
                match crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_named(old(fs).disk(), ty, name_units(match_name))) {
                    crate::attribute::FlatFind::Found(_) => false,
                    crate::attribute::FlatFind::Absent => e is AttributeNotFound,
                    crate::attribute::FlatFind::Bad => true,
                },
        },
        self.whole(old(fs).disk(), old(fs).davail()) && r is Ok ==> r->Ok_0.whole(old(fs).disk(), old(fs).davail()),
@loop 0
            invariant_except_break
                l == iter.flat(fs.disk()),
                o == iter.raw_iter.o(),
                crate::attribute::no_list(self.d(), le16(self.d(), 20) as int) ==> iter.list_entries is None && crate::attribute::no_list(self.d(), o),
            invariant
                w == self.whole(fs.disk(), fs.davail()), w ==> iter.whole(fs.disk(), fs.davail()),
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                iter.inv(fs.disk()), iter.raw_iter.file == self, self.inv(), p == self.is_named(fs.disk(), ty, name_units(match_name)),
                crate::attribute::flat_find(self.flat(fs.disk()), p) == crate::attribute::flat_find(l, p),
                forall|x: Seq<crate::attribute::FlatG>| x.len() == 0 ==> #[trigger] crate::attribute::flat_find(x, p) is Absent,
            ensures
                crate::attribute::flat_find(self.flat(fs.disk()), p) is Absent,
            decreases l.len(),
@proof start
        let ghost w = self.whole(fs.disk(), fs.davail());
        let ghost p = self.is_named(fs.disk(), ty, name_units(match_name));
        proof { reveal(crate::attribute::flat_find); }
        let ghost mut l = self.flat(fs.disk());
        let ghost mut o = le16(self.d(), 20) as int;
@proof loop0.start
            proof {
                crate::attribute::lemma_flat_find(l, p);
                l = iter.flat(fs.disk());
                crate::attribute::lemma_no_list(self.d(), o);
                o = iter.raw_iter.o();
            }
@text
/// The file flags are those of NTFS.
pub proof fn lemma_flag_codes()
    ensures
        NtfsFileFlags::IN_USE.0 == 0x1,
        NtfsFileFlags::IS_DIRECTORY.0 == 0x2,
{
}
/// The well-known files are those of NTFS.
pub fn known_files() -> (r: [u64; 12])
    ensures r@ == seq![0u64, 1u64, 2u64, 3u64, 4u64, 5u64, 6u64, 7u64, 8u64, 9u64, 10u64, 11u64],
{
    let r = [KnownNtfsFileRecordNumber::MFT as u64, KnownNtfsFileRecordNumber::MFTMirr as u64, KnownNtfsFileRecordNumber::LogFile as u64, KnownNtfsFileRecordNumber::Volume as u64, KnownNtfsFileRecordNumber::AttrDef as u64, KnownNtfsFileRecordNumber::RootDirectory as u64, KnownNtfsFileRecordNumber::Bitmap as u64, KnownNtfsFileRecordNumber::Boot as u64, KnownNtfsFileRecordNumber::BadClus as u64, KnownNtfsFileRecordNumber::Secure as u64, KnownNtfsFileRecordNumber::UpCase as u64, KnownNtfsFileRecordNumber::Extend as u64];
    proof { assert(r@ =~= seq![0u64, 1u64, 2u64, 3u64, 4u64, 5u64, 6u64, 7u64, 8u64, 9u64, 10u64, 11u64]); }
    r
}
@fn NtfsFile::data
@props C25 C17
@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
@requires
        self.inv(), old(fs).dinv(), data_stream_name@.len() > 0 ==> self.ntfs.upcase_table is Some,
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Some(Ok(i)) => exists|g: crate::attribute::FlatG| #[trigger] i.is(self, old(fs).disk(), g)
                && crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_stream(old(fs).disk(), crate::vx::nt_string::u16strle::utf16(data_stream_name@))) == crate::attribute::FlatFind::Found(g),
            None => crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_stream(old(fs).disk(), crate::vx::nt_string::u16strle::utf16(data_stream_name@))) is Absent,
            Some(Err(_)) => self.sure(old(fs).disk(), old(fs).davail(), T::dsound()) ==>
                crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_stream(old(fs).disk(), crate::vx::nt_string::u16strle::utf16(data_stream_name@))) is Bad,
        },
        self.whole(old(fs).disk(), old(fs).davail()) && r is Some && r->Some_0 is Ok ==> r->Some_0->Ok_0.whole(old(fs).disk(), old(fs).davail()),
@loop 0
            invariant_except_break
                l == iter.flat(fs.disk()),
                o == iter.raw_iter.o(),
                crate::attribute::no_list(self.d(), le16(self.d(), 20) as int) ==> iter.list_entries is None && crate::attribute::no_list(self.d(), o),
            invariant
                w == self.whole(fs.disk(), fs.davail()), w ==> iter.whole(fs.disk(), fs.davail()),
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                iter.inv(fs.disk()), iter.raw_iter.file == self, self.inv(), p == self.is_stream(fs.disk(), crate::vx::nt_string::u16strle::utf16(data_stream_name@)),
                data_stream_name@.len() > 0 ==> self.ntfs.upcase_table is Some, equal__c == (data_stream_name@.len() == 0),
                crate::vx::nt_string::u16strle::utf16(data_stream_name@).len() == 0 <==> data_stream_name@.len() == 0,
                crate::attribute::flat_find(self.flat(fs.disk()), p) == crate::attribute::flat_find(l, p),
                forall|x: Seq<crate::attribute::FlatG>| x.len() == 0 ==> #[trigger] crate::attribute::flat_find(x, p) is Absent,
            ensures
                crate::attribute::flat_find(self.flat(fs.disk()), p) is Absent,
            decreases l.len(),
@proof start
        let ghost w = self.whole(fs.disk(), fs.davail());
        proof { crate::vx::nt_string::u16strle::lemma_utf16_empty(data_stream_name@); }
        let ghost p = self.is_stream(fs.disk(), crate::vx::nt_string::u16strle::utf16(data_stream_name@));
        proof { reveal(crate::attribute::flat_find); }
        let ghost mut l = self.flat(fs.disk());
        let ghost mut o = le16(self.d(), 20) as int;
@proof loop0.start
            proof {
                crate::attribute::lemma_flat_find(l, p);
                l = iter.flat(fs.disk());
                crate::attribute::lemma_no_list(self.d(), o);
                o = iter.raw_iter.o();
            }
@fn NtfsFile::name
@hide NtfsFile::is_file_name NtfsFile::is_res_file_name NtfsFile::flat_at crate::attribute::NtfsAttribute::val crate::attribute::at_ty
@props C25 C18
@attr
#[verifier::spinoff_prover]
@requires
        self.inv(), old(fs).dinv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Some(Ok(n)) => exists|g: crate::attribute::FlatG| crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_file_name(old(fs).disk(), match_namespace, match_parent_record_number)) == crate::attribute::FlatFind::Found(g)
                && n.of(#[trigger] self.flat_content(old(fs).disk(), g)),
            None => crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_file_name(old(fs).disk(), match_namespace, match_parent_record_number)) is Absent,
            Some(Err(_)) => self.sure(old(fs).disk(), old(fs).davail(), T::dsound()) ==>
                crate::attribute::flat_find(self.flat(old(fs).disk()), self.is_res_file_name(old(fs).disk(), match_namespace, match_parent_record_number)) is Bad,
        },
@loop 0
            invariant_except_break
                l == iter.flat(fs.disk()),
                o == iter.raw_iter.o(),
                crate::attribute::no_list(self.d(), le16(self.d(), 20) as int) ==> iter.list_entries is None && crate::attribute::no_list(self.d(), o),
            invariant
                w == self.whole(fs.disk(), fs.davail()), w ==> iter.whole(fs.disk(), fs.davail()),
                q == self.is_res_file_name(fs.disk(), match_namespace, match_parent_record_number),
                !(crate::attribute::flat_find(self.flat(fs.disk()), q) is Bad) ==> crate::attribute::flat_find(self.flat(fs.disk()), q) == crate::attribute::flat_find(l, q),
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                iter.inv(fs.disk()), iter.raw_iter.file == self, self.inv(), p == self.is_file_name(fs.disk(), match_namespace, match_parent_record_number),
                crate::attribute::flat_find(self.flat(fs.disk()), p) == crate::attribute::flat_find(l, p),
                forall|x: Seq<crate::attribute::FlatG>| x.len() == 0 ==> #[trigger] crate::attribute::flat_find(x, p) is Absent,
            ensures
                crate::attribute::flat_find(self.flat(fs.disk()), p) is Absent,
            decreases l.len(),
@proof start
        proof { crate::structured_values::file_name::lemma_sv_ty(); }
        let ghost w = self.whole(fs.disk(), fs.davail());
        let ghost q = self.is_res_file_name(fs.disk(), match_namespace, match_parent_record_number);
        let ghost p = self.is_file_name(fs.disk(), match_namespace, match_parent_record_number);
        proof { reveal(crate::attribute::flat_find); }
        let ghost mut l = self.flat(fs.disk());
        let ghost mut g = crate::attribute::FlatG::Bad;
        let ghost mut o = le16(self.d(), 20) as int;
@proof loop0.start
            proof {
                crate::attribute::lemma_flat_find(l, p);
                crate::attribute::lemma_flat_find(l, q);
                g = l[0];
                l = iter.flat(fs.disk());
                crate::attribute::lemma_no_list(self.d(), o);
                o = iter.raw_iter.o();
            }
@proof before let ty
            proof { crate::structured_values::file_name::lemma_sv_ty(); lemma_file_name(self, item, attribute, fs.disk(), g, match_namespace, match_parent_record_number); }
@text
impl<'n> NtfsFile<'n> {
    /// The first attribute of the flattened view that has the type and the name "$I30".
    pub open spec fn i30(&self, d: Seq<u8>, ty: NtfsAttributeType) -> crate::attribute::FlatFind {
        crate::attribute::flat_find(self.flat(d), self.is_named(d, ty, Some(crate::vx::nt_string::u16strle::utf16("$I30"@))))
    }
}
@fn NtfsFile::directory_index
@props C25 C15
@hide crate::file::NtfsFile::is_named crate::file::NtfsFile::flat_at crate::attribute::NtfsAttributeItem::is crate::attribute::NtfsAttributeItem::inv
@attr
#[verifier::spinoff_prover]
@requires
        self.inv(), old(fs).dinv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        le16(self.d(), 22) & 2 == 0 ==> r is Err && r->Err_0 is NotADirectory,
        match r {
            Ok(i) => {
                let d = old(fs).disk();
                let g = self.i30(d, NtfsAttributeType::IndexRoot)->Found_0;
                let (m, o) = self.flat_at(d, g);
                let c = crate::attribute::at_res(m, o);
                &&& self.i30(d, NtfsAttributeType::IndexRoot) is Found
                &&& crate::attribute::at_resident(m, o)
                &&& crate::structured_values::index_root::ro_ok(c)
                &&& i.inv(d)
                &&& i.index_root_entry_ranges.data@ == c.subrange(crate::structured_values::index_root::ro_start(c), crate::structured_values::index_root::ro_end(c))
                &&& i.index_root_entry_ranges.o() == 0
                &&& i.index_root_entry_ranges.e() == crate::structured_values::index_root::ro_end(c) - crate::structured_values::index_root::ro_start(c)
                &&& i.index_record_size == le32(c, 8)
                &&& i.index_allocation_item is Some <==> c[28] & 1 != 0
                &&& match i.index_allocation_item {
                    Some(x) => self.i30(d, NtfsAttributeType::IndexAllocation) is Found && x.is(self, d, self.i30(d, NtfsAttributeType::IndexAllocation)->Found_0),
                    None => true,
                }
            },
            Err(_) => le16(self.d(), 22) & 2 != 0 && self.sure(old(fs).disk(), old(fs).davail(), T::dsound()) ==> {
                let d = old(fs).disk();
                let g = self.i30(d, NtfsAttributeType::IndexRoot)->Found_0;
                let (m, o) = self.flat_at(d, g);
                let c = crate::attribute::at_res(m, o);
                ||| !(self.i30(d, NtfsAttributeType::IndexRoot) is Found)
                ||| !crate::attribute::at_resident(m, o)
                ||| !crate::attribute::at_res_ok(m, o)
                ||| !crate::structured_values::index_root::ro_ok(c)
                ||| c[28] & 1 != 0 && !(self.i30(d, NtfsAttributeType::IndexAllocation) is Found)
            },
        },
@proof start
        proof { reveal_strlit("$I30"); crate::structured_values::index_root::lemma_sv_ty(); }
        let ghost d = fs.disk();
        let ghost u = crate::vx::nt_string::u16strle::utf16("$I30"@);
@proof before let index_root_attribute =
        proof { lemma_named(self, index_root_item, d, NtfsAttributeType::IndexRoot, Some(u)); }
@proof before-tail
        proof { if index_allocation_item is Some { lemma_named(self, index_allocation_item->Some_0, d, NtfsAttributeType::IndexAllocation, Some(u)); } }
@fn NtfsFileFlags:Display::fmt
@props C22
