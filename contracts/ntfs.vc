@file src/ntfs.rs ntfs
@text
impl Ntfs {
    /// What `Ntfs::new` guarantees about the geometry.
    pub open spec fn inv(&self) -> bool {
        &&& 512 <= self.cluster_size <= 2097152
        &&& 512 <= self.sector_size <= 4096
        &&& self.file_record_size >= 512
        &&& match self.mft_position.0 { Some(x) => x.0 > 0, None => false }
        &&& self.upcase_table is Some ==> self.upcase_table->Some_0.inv()
    }
    /// The geometry is the one described by the boot sector `d[0..512]`.
    pub open spec fn geometry(&self, d: Seq<u8>) -> bool {
        let cs = crate::boot_sector::bs_cluster_size(le16(d, 11), d[13]);
        &&& d.len() >= 512
        &&& d[510] == 0x55 && d[511] == 0xaa
        &&& crate::boot_sector::bs_sector_size(le16(d, 11)) == Some(self.sector_size as int)
        &&& cs == Some(self.cluster_size as int)
        &&& self.size == le64(d, 40) * self.sector_size
        &&& le64(d, 48) > 0
        &&& self.mft_position == crate::types::pos_of(le64(d, 48) * self.cluster_size)
        &&& crate::boot_sector::bs_record_size(cs, d[64] as i8) == Some(self.file_record_size as int)
        &&& self.serial_number == le64(d, 72)
    }
}
@text
/// The boot sector `d[0..512]` describes a volume.
pub open spec fn bootable(d: Seq<u8>) -> bool {
    let cs = crate::boot_sector::bs_cluster_size(le16(d, 11), d[13]);
    let ss = crate::boot_sector::bs_sector_size(le16(d, 11));
    &&& d[510] == 0x55 && d[511] == 0xaa
    &&& match (cs, ss) { (Some(c), Some(s)) => le64(d, 40) * s <= u64::MAX && le64(d, 48) * c <= u64::MAX, _ => false }
    &&& le64(d, 48) > 0
    &&& crate::boot_sector::bs_record_size(cs, d[64] as i8) is Some
}
impl Ntfs {
    /// Order of strings without regard to case.
    pub open spec fn up_cmp(&self, a: Seq<u16>, b: Seq<u16>) -> core::cmp::Ordering {
        crate::upcase_table::up_cmp(self.upcase_table->Some_0.uppercase_characters@, a, b)
    }
    pub open spec fn cs(&self) -> int { self.cluster_size as int }
    pub open spec fn frs(&self) -> int { self.file_record_size as int }
    /// Position of the MFT's own file record.
    pub open spec fn mp(&self) -> int { self.mft_position.0->Some_0.0 as int }
    /// The MFT's own file record can be read from a filesystem with the bytes `d`.
    pub open spec fn mft_ok(&self, d: Seq<u8>) -> bool {
        &&& self.mp() + self.frs() <= d.len()
        &&& crate::file::fr_ok(d.subrange(self.mp(), self.mp() + self.frs()))
        &&& self.mft_at(d) is Found
        &&& crate::attribute::at_val_ok(self.mft_d(d), self.mft_o(d))
    }
    /// Its data.
    pub open spec fn mft_d(&self, d: Seq<u8>) -> Seq<u8> {
        crate::record::fxd(d.subrange(self.mp(), self.mp() + self.frs()))
    }
    /// Its $DATA attribute.
    pub open spec fn mft_at(&self, d: Seq<u8>) -> crate::attribute::FindG {
        crate::file::rec_find(self.mft_d(d), crate::attribute::NtfsAttributeType::Data, None, None)
    }
    pub open spec fn mft_o(&self, d: Seq<u8>) -> int { self.mft_at(d)->Found_0 }
    /// The bytes of the MFT, and how many of them there are.
    pub open spec fn mft(&self, d: Seq<u8>) -> Seq<u8> { crate::attribute::at_content(self.mft_d(d), self.mft_o(d), self.cs(), d) }
    pub open spec fn mft_avail(&self, d: Seq<u8>) -> int { crate::attribute::at_avail(self.mft_d(d), self.mft_o(d), self.cs()) }
    /// All of the MFT lies before `a`, and none of it at the start of the filesystem.
    pub open spec fn mft_whole(&self, d: Seq<u8>, a: int) -> bool {
        &&& self.mft_ok(d)
        &&& self.mp() + self.frs() <= a <= d.len()
        &&& !crate::attribute::at_resident(self.mft_d(d), self.mft_o(d))
        &&& crate::attribute::at_whole(self.mft_d(d), self.mft_o(d), self.cs(), a)
        &&& forall|k: int| 0 <= k < self.mft_runs(d).len() ==> !(#[trigger] self.mft_runs(d)[k]).sparse && self.mft_runs(d)[k].pos > 0
    }
    pub open spec fn mft_runs(&self, d: Seq<u8>) -> Seq<crate::attribute_value::non_resident::RunG> {
        crate::attribute_value::non_resident::dec_runs(crate::attribute::at_runs(self.mft_d(d), self.mft_o(d)), 0, 0, self.cs())
    }
    /// File record `n` as on disk.
    pub open spec fn file_raw(&self, d: Seq<u8>, n: int) -> Seq<u8> {
        self.mft(d).subrange(n * self.frs(), n * self.frs() + self.frs())
    }
    /// There is a file record `n`.
    pub open spec fn file_ok(&self, d: Seq<u8>, n: int) -> bool {
        &&& self.mft_ok(d)
        &&& n * self.frs() + self.frs() <= self.mft_avail(d) <= self.mft(d).len()
        &&& crate::file::fr_ok(self.file_raw(d, n))
    }
    /// Its data.
    pub open spec fn file_d(&self, d: Seq<u8>, n: int) -> Seq<u8> { crate::record::fxd(self.file_raw(d, n)) }
    /// `f` is file record `n`.
    pub open spec fn file_is(&self, d: Seq<u8>, n: int, f: crate::file::NtfsFile) -> bool {
        &&& self.file_ok(d, n)
        &&& f.inv()
        &&& *f.ntfs == *self
        &&& f.file_record_number == n
        &&& f.d() == self.file_d(d, n)
        &&& f.record.position.0 is Some
        &&& crate::attribute::at_pos(self.mft_d(d), self.mft_position, self.mft_o(d), self.cs(), n * self.frs(), f.record.position)
    }
}
@text
impl Ntfs {
    pub proof fn lemma_mft_pos(&self, d: Seq<u8>, n: int, a: int)
        requires self.inv(),
        ensures self.mft_whole(d, a) && self.file_ok(d, n) ==> !crate::attribute::at_pos(self.mft_d(d), self.mft_position, self.mft_o(d), self.cs(), n * self.frs(), NtfsPosition(None)) && n * self.frs() + self.frs() <= u64::MAX,
    {
        if self.mft_whole(d, a) && self.file_ok(d, n) {
            crate::attribute_value::non_resident::lemma_dec_runs_ok(crate::attribute::at_runs(self.mft_d(d), self.mft_o(d)), 0, 0, self.cs());
            crate::attribute_value::non_resident::lemma_runs_pos_some(self.mft_runs(d), n * self.frs());
        }
    }
}
@fn Ntfs::file
@hide crate::record::fxd crate::attribute::at_pos crate::attribute::at_content crate::file::fr_ok crate::attribute::NtfsAttribute::val crate::attribute::NtfsAttribute::inv crate::attribute::at_avail
@props C03 C23
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), self.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(f) => self.file_is(old(fs).disk(), file_record_number as int, f),
            Err(_) => true,
        },
        T::dsound() && self.mft_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> self.file_ok(old(fs).disk(), file_record_number as int)),
@proof start
        let ghost d = fs.disk();
        proof { self.lemma_mft_pos(d, file_record_number as int, fs.davail()); }
@proof after let mut mft_data_value
        proof {
            crate::attribute::lemma_find_at(mft.d(), le16(mft.d(), 20) as int, NtfsAttributeType::Data, None, None);
            crate::attribute::lemma_val(mft_data_attribute, mft_data_value, d, fs.davail());
        }
        let ghost v0 = mft_data_value;
@proof before let position
        proof {
            assert forall|p: NtfsPosition| #[trigger] crate::attribute_value::value_pos(mft_data_value, p) implies crate::attribute::at_pos(mft_data_attribute.d(), mft.record.position, mft_data_attribute.o(), self.cs(), mft_data_value.rs_pos(), p) by {
                crate::attribute::lemma_val_pos(mft_data_attribute, v0, mft_data_value, p);
            }
        }
@fn Ntfs::root_directory
@props C03
@requires
        old(fs).dinv(), self.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(f) => self.file_is(old(fs).disk(), 5, f),
            Err(_) => true,
        },
        T::dsound() && self.mft_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> self.file_ok(old(fs).disk(), 5)),
@fn Ntfs::volume_info
@props C18 C03 C25
@requires
        old(fs).dinv(), self.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(v) => {
                let c = crate::file::rec_res(self.file_d(old(fs).disk(), 3), crate::attribute::NtfsAttributeType::VolumeInformation);
                self.file_ok(old(fs).disk(), 3) && c is Some && crate::structured_values::volume_information::vi_ok(c->Some_0) && v.of(c->Some_0)
            },
            Err(_) => T::dsound() && self.mft_whole(old(fs).disk(), old(fs).davail()) ==> {
                let c = crate::file::rec_res(self.file_d(old(fs).disk(), 3), crate::attribute::NtfsAttributeType::VolumeInformation);
                !self.file_ok(old(fs).disk(), 3) || c is None || !crate::structured_values::volume_information::vi_ok(c->Some_0)
            },
        },
@proof start
        proof { crate::structured_values::volume_information::lemma_sv_ty(); }
@fn Ntfs::volume_name
@props C18 C03 C25
@requires
        old(fs).dinv(), self.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Some(Ok(v)) => {
                let c = crate::file::rec_res(self.file_d(old(fs).disk(), 3), crate::attribute::NtfsAttributeType::VolumeName);
                self.file_ok(old(fs).disk(), 3) && c is Some && crate::structured_values::volume_name::vn_ok(c->Some_0) && v.of(c->Some_0)
            },
            None => self.file_ok(old(fs).disk(), 3)
                && crate::file::rec_find(self.file_d(old(fs).disk(), 3), crate::attribute::NtfsAttributeType::VolumeName, None, None) == crate::attribute::FindG::Absent,
            Some(Err(_)) => T::dsound() && self.mft_whole(old(fs).disk(), old(fs).davail()) ==> {
                let c = crate::file::rec_res(self.file_d(old(fs).disk(), 3), crate::attribute::NtfsAttributeType::VolumeName);
                !self.file_ok(old(fs).disk(), 3) || c is None || !crate::structured_values::volume_name::vn_ok(c->Some_0)
            },
        },
@proof start
        proof { crate::structured_values::volume_name::lemma_sv_ty(); }
@fn Ntfs::new
@props C01
@requires
        old(fs).dinv(),
@ensures
        final(fs).dinv(),
        final(fs).disk() == old(fs).disk(),
        final(fs).davail() == old(fs).davail(),
        match r {
            Ok(n) => n.inv() && n.geometry(old(fs).disk()) && n.upcase_table is None && bootable(old(fs).disk()),
            Err(_) => true,
        },
        old(fs).dsafe() >= 512 ==> (r is Ok <==> bootable(old(fs).disk())),
@proof start
        proof {
            let d = old(fs).disk();
            if d.len() >= 512 {
                assert(d.subrange(510, 512)[0] == d[510] && d.subrange(510, 512)[1] == d[511]);
                assert(d[510] == 0x55 && d[511] == 0xaa ==> d.subrange(510, 512) =~= seq![0x55u8, 0xaau8]);
            }
        }
@proof before-tail
        proof {
            let d = old(fs).disk();
            let l = le64(d, 48) as int;
            let c = ntfs.cluster_size as int;
            assert(l >= 1 && c >= 1 ==> l * c >= 1) by (nonlinear_arith);
        }
@fn Ntfs::cluster_size
@props C01
@ensures
        r == self.cluster_size,
@fn Ntfs::file_record_size
@props C01
@ensures
        r == self.file_record_size,
@fn Ntfs::mft_position
@props C01
@ensures
        r == self.mft_position,
@fn Ntfs::sector_size
@props C01
@ensures
        r == self.sector_size,
@fn Ntfs::serial_number
@props C01
@ensures
        r == self.serial_number,
@fn Ntfs::size
@props C01
@ensures
        r == self.size,
@fn Ntfs::upcase_table
@props C17
@requires
        self.upcase_table is Some,
@ensures
        *r == self.upcase_table->Some_0,
@fn Ntfs::read_upcase_table
@props C17
@requires
        old(fs).dinv(), old(self).inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).inv(),
        *final(self) == (Ntfs { upcase_table: final(self).upcase_table, ..*old(self) }),
        match r {
            Ok(_) => final(self).upcase_table is Some && crate::upcase_table::table_of(*old(self), old(fs).disk(), final(self).upcase_table->Some_0.uppercase_characters@),
            Err(_) => !(T::dsound() && crate::upcase_table::table_whole(*old(self), old(fs).disk(), old(fs).davail())) && final(self).upcase_table == old(self).upcase_table,
        },
