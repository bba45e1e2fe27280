@file src/file_reference.rs file_reference
@text
pub proof fn lemma_split48(x: u64)
    ensures (x & 0xffff_ffff_ffff) == x % 0x1_0000_0000_0000, (x >> 48) == x / 0x1_0000_0000_0000, (x >> 48) < 0x1_0000,
{
    assert((x & 0xffff_ffff_ffff) == x % 0x1_0000_0000_0000) by (bit_vector);
    assert((x >> 48) == x / 0x1_0000_0000_0000 && (x >> 48) < 0x1_0000) by (bit_vector);
}
@fn NtfsFileReference::new
@props C20
@ensures
        r.0 == file_reference_bytes,
@fn NtfsFileReference::file_record_number
@props C20
@ensures
        r == le32(self.0@, 0) + 0x1_0000_0000 * le16(self.0@, 4),
@proof start
        proof { lemma_split48(le64(self.0@, 0)); }
@fn NtfsFileReference::sequence_number
@props C20
@ensures
        r == le16(self.0@, 6),
@proof start
        proof { lemma_split48(le64(self.0@, 0)); }
@text
impl NtfsFileReference {
    /// The file record number.
    pub open spec fn num(&self) -> int { le32(self.0@, 0) + 0x1_0000_0000 * le16(self.0@, 4) }
}
@fn NtfsFileReference::to_file
@props C03 C20
@requires
        old(fs).dinv(), ntfs.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(f) => ntfs.file_is(old(fs).disk(), self.num(), f),
            Err(_) => true,
        },
        T::dsound() && ntfs.mft_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> ntfs.file_ok(old(fs).disk(), self.num())),
