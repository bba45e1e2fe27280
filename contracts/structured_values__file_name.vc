@file src/structured_values/file_name.rs structured_values::file_name
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
@text
pub open spec fn fn_ok(c: Seq<u8>) -> bool { c.len() >= 68 && c.len() >= 66 + 2 * c[64] && c[65] <= 3 }
pub open spec fn ns_of(x: u8) -> Option<NtfsFileNamespace> {
    if x == 0 { Some(NtfsFileNamespace::Posix) } else if x == 1 { Some(NtfsFileNamespace::Win32) } else if x == 2 { Some(NtfsFileNamespace::Dos) } else if x == 3 { Some(NtfsFileNamespace::Win32AndDos) } else { None }
}
impl NtfsFileName {
    /// The decoding of the header.
    pub open spec fn hof(&self, c: Seq<u8>) -> bool {
        &&& self.header.parent_directory_reference.0@ == c.subrange(0, 8)
        &&& self.header.creation_time.0 == le64(c, 8)
        &&& self.header.modification_time.0 == le64(c, 16)
        &&& self.header.mft_record_modification_time.0 == le64(c, 24)
        &&& self.header.access_time.0 == le64(c, 32)
        &&& self.header.allocated_size == le64(c, 40)
        &&& self.header.data_size == le64(c, 48)
        &&& self.header.file_attributes == le32(c, 56)
        &&& self.header.name_length == c[64]
        &&& self.header.namespace == c[65]
    }
    /// The decoding of the bytes `c`.
    pub open spec fn of(&self, c: Seq<u8>) -> bool {
        &&& self.inv()
        &&& self.hof(c)
        &&& self.name@ == c.subrange(66, 66 + 2 * c[64])
    }
    pub open spec fn inv(&self) -> bool { self.header.namespace <= 3 && self.name@.len() == 2 * self.header.name_length }
}
@text
/// The namespaces are those of NTFS.
pub proof fn lemma_namespaces()
    ensures
        NtfsFileNamespace::n_spec(0) == Some(NtfsFileNamespace::Posix),
        NtfsFileNamespace::n_spec(1) == Some(NtfsFileNamespace::Win32),
        NtfsFileNamespace::n_spec(2) == Some(NtfsFileNamespace::Dos),
        NtfsFileNamespace::n_spec(3) == Some(NtfsFileNamespace::Win32AndDos),
        forall|x: u8| #[trigger] NtfsFileNamespace::n_spec(x) is Some ==> x < 4,
{
}
@fn NtfsFileName::new
@props C18
@ret res
@requires
        old(r).dinv(), old(r).dpos() == 0, value_length == old(r).disk().len(),
@ensures
        res is Err ==> !(res->Err_0 is AttributeNotFound),
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dsafe() == old(r).dsafe(), final(r).dunder() == old(r).dunder(),
        match res { Ok(v) => fn_ok(old(r).disk()) && v.of(old(r).disk()), Err(_) => true },
        old(r).dsafe() == old(r).disk().len() ==> (res is Ok <==> fn_ok(old(r).disk())),
@proof after let header
        proof {
            let c = old(r).disk();
            assert(header.parent_directory_reference.0@ == c.subrange(0, 8));
            assert(header.name_length == c[64] && header.namespace == c[65]);
        }
@proof before-tail
        proof { assert(file_name.name@ =~= old(r).disk().subrange(66, 66 + 2 * old(r).disk()[64])); assert(file_name.hof(old(r).disk())); }
@inject impl NtfsFileName:NtfsStructuredValue
    open spec fn sv_ok(value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { fn_ok(value.rs_content(d)) }
    open spec fn sv_of(&self, value: NtfsAttributeValue<'n, 'f>, d: Seq<u8>) -> bool { self.of(value.rs_content(d)) }
@fn NtfsFileName:NtfsStructuredValue::from_attribute_value
@props C18
@proof start
        proof { crate::attribute_value::lemma_value_len(value, fs.disk()); }
@fn NtfsFileName::creation_time
@props C18
@ensures
        r == self.header.creation_time,
@fn NtfsFileName::modification_time
@props C18
@ensures
        r == self.header.modification_time,
@fn NtfsFileName::mft_record_modification_time
@props C18
@ensures
        r == self.header.mft_record_modification_time,
@fn NtfsFileName::access_time
@props C18
@ensures
        r == self.header.access_time,
@fn NtfsFileName::allocated_size
@props C18
@ensures
        r == self.header.allocated_size,
@fn NtfsFileName::data_size
@props C18
@ensures
        r == self.header.data_size,
@fn NtfsFileName::parent_directory_reference
@props C18
@ensures
        r == self.header.parent_directory_reference,
@fn NtfsFileName::file_attributes
@props C18
@ensures
        r.0 == self.header.file_attributes & 0x1000_7fe7,
@fn NtfsFileName::is_directory
@props C18
@ensures
        r <==> self.header.file_attributes & 0x1000_0000 != 0,
@proof start
        proof {
            let x = self.header.file_attributes;
            assert((((x & 0x1000_7fe7u32) & 0x1000_0000u32) == 0x1000_0000u32) == (x & 0x1000_0000u32 != 0u32)) by (bit_vector);
        }
@fn NtfsFileName::name
@props C18
@ensures
        r.0@ == self.name@,
@fn NtfsFileName::name_length
@props C18
@ensures
        r == 2 * self.header.name_length,
@fn NtfsFileName::namespace
@props C18
@requires
        self.header.namespace <= 3,
@ensures
        match r { NtfsFileNamespace::Posix => self.header.namespace == 0, NtfsFileNamespace::Win32 => self.header.namespace == 1, NtfsFileNamespace::Dos => self.header.namespace == 2, NtfsFileNamespace::Win32AndDos => self.header.namespace == 3 },
@fn NtfsFileName::read_name
@props C18
@ret res
@requires
        old(r).dinv(), old(self).name@.len() == 510,
@ensures
        res is Err ==> !(res->Err_0 is AttributeNotFound),
        final(r).dinv(), final(r).disk() == old(r).disk(), final(r).davail() == old(r).davail(), final(r).dsafe() == old(r).dsafe(), final(r).dunder() == old(r).dunder(),
        final(self).header == old(self).header,
        match res {
            Ok(_) => {
                &&& old(self).header.name_length > 0 ==> old(r).dpos() + 2 * old(self).header.name_length <= old(r).disk().len()
                &&& final(self).name@ == (if old(self).header.name_length > 0 { old(r).disk().subrange(old(r).dpos(), old(r).dpos() + 2 * old(self).header.name_length) } else { Seq::empty() })
            },
            Err(_) => old(r).dpos() + 2 * old(self).header.name_length > old(r).dsafe(),
        },
@fn NtfsFileName::validate_name_length
@props C18
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> 66 + 2 * self.header.name_length <= data_size,
@fn NtfsFileName::validate_namespace
@props C18
@ensures
        r is Err ==> !(r->Err_0 is AttributeNotFound),
        r is Ok <==> self.header.namespace <= 3,
@fn NtfsFileName:NtfsIndexEntryKey::key_from_slice
@props C18 C13
@inject impl NtfsFileName:NtfsIndexEntryKey
    open spec fn key_ok(s: Seq<u8>) -> bool { fn_ok(s) }
    open spec fn key_of(&self, s: Seq<u8>) -> bool { self.of(s) }
@text
/// The attribute type this value is stored in.
pub proof fn lemma_sv_ty()
    ensures <NtfsFileName as crate::structured_values::NtfsStructuredValue>::TY == NtfsAttributeType::FileName,
{
    crate::order::mark();
}
