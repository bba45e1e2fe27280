@file src/boot_sector.rs boot_sector
@text
pub open spec fn pow2n(e: int) -> int
    decreases e,
{
    if e <= 0 { 1 } else { 2 * pow2n(e - 1) }
}
/// Sector size stored in the boot sector, if it is a supported one (512 to 4096 bytes, a power of two).
pub open spec fn bs_sector_size(raw: u16) -> Option<int> {
    if raw == 512 || raw == 1024 || raw == 2048 || raw == 4096 { Some(raw as int) } else { None }
}
/// Number of sectors per cluster: 1, 2, 4 ... 128 directly, values above 128 are negated binary exponents up to 12.
pub open spec fn bs_spc(raw: u8) -> Option<int> {
    if raw > 128 {
        if 256 - raw <= 12 { Some(pow2n(256 - raw)) } else { None }
    } else if pow2_16(raw as u16) { Some(raw as int) } else { None }
}
pub open spec fn bs_cluster_size(raw_sector: u16, raw_spc: u8) -> Option<int> {
    match (bs_sector_size(raw_sector), bs_spc(raw_spc)) {
        (Some(a), Some(b)) => if 512 <= a * b <= 2097152 { Some(a * b) } else { None },
        _ => None,
    }
}
/// Size of a record: positive values are cluster counts, negative ones binary exponents from 10 to 12.
pub open spec fn bs_record_size(cluster_size: Option<int>, raw: i8) -> Option<int> {
    match cluster_size {
        Some(c) => if raw > 0 {
            if c * raw <= u32::MAX { Some(c * raw) } else { None }
        } else if raw == -10 { Some(1024) } else if raw == -11 { Some(2048) } else if raw == -12 { Some(4096) } else { None },
        None => None,
    }
}
impl BiosParameterBlock {
    pub open spec fn cs(&self) -> Option<int> { bs_cluster_size(self.sector_size, self.sectors_per_cluster) }
}
pub proof fn lemma_pow2n(e: u16)
    requires 0 <= e <= 12,
    ensures pow2n(e as int) == (1u16 << e), 1 <= pow2n(e as int) <= 4096,
{
    reveal_with_fuel(pow2n, 14);
    assert(1u16 << 0u16 == 1 && 1u16 << 1u16 == 2 && 1u16 << 2u16 == 4 && 1u16 << 3u16 == 8 && 1u16 << 4u16 == 16
        && 1u16 << 5u16 == 32 && 1u16 << 6u16 == 64 && 1u16 << 7u16 == 128 && 1u16 << 8u16 == 256 && 1u16 << 9u16 == 512
        && 1u16 << 10u16 == 1024 && 1u16 << 11u16 == 2048 && 1u16 << 12u16 == 4096) by (bit_vector);
}
pub proof fn lemma_spc_bound(raw: u8)
    ensures match bs_spc(raw) { Some(n) => 1 <= n <= 4096, None => true },
{
    if raw > 128 && 256 - raw <= 12 { lemma_pow2n((256 - raw) as u16); }
}
pub proof fn lemma_neg_u8(x: u8)
    requires x > 128,
    ensures (x as i8) as int == x as int - 256,
{
    assert(x > 128u8 ==> ((x as i8) as i16) == (x as i16) - 256) by (bit_vector);
}
@fn BiosParameterBlock::cluster_size
@props C01
@ensures
        r is Ok <==> self.cs() is Some,
        match r { Ok(n) => Some(n as int) == self.cs() && 512 <= n <= 2097152, Err(_) => true },
@proof start
        proof {
            lemma_spc_bound(self.sectors_per_cluster);
            assert forall|a: int, b: int| 0 <= a <= 4096 && 0 <= b <= 4096 implies 0 <= #[trigger] (a * b) <= 16777216 by {
                assert(0 <= a * b <= 4096 * 4096) by (nonlinear_arith) requires 0 <= a <= 4096, 0 <= b <= 4096;
            }
            match (bs_sector_size(self.sector_size), bs_spc(self.sectors_per_cluster)) {
                (Some(a), Some(b)) => { assert(a * b == b * a) by (nonlinear_arith); }
                _ => {}
            }
        }
@fn BiosParameterBlock::file_record_size
@props C01
@ensures
        r is Ok <==> bs_record_size(self.cs(), self.file_record_size_info) is Some,
        match r { Ok(n) => Some(n as int) == bs_record_size(self.cs(), self.file_record_size_info) && n >= 512, Err(_) => true },
@fn BiosParameterBlock::mft_lcn
@props C01
@ensures
        r is Ok <==> self.mft_lcn.0 > 0,
        match r { Ok(l) => l == self.mft_lcn, Err(_) => true },
@fn BiosParameterBlock::record_size
@props C01
@ensures
        r is Ok <==> bs_record_size(self.cs(), size_info) is Some,
        match r { Ok(n) => Some(n as int) == bs_record_size(self.cs(), size_info) && n >= 512, Err(_) => true },
@proof start
        proof {
            assert(1u32 << 10u32 == 1024 && 1u32 << 11u32 == 2048 && 1u32 << 12u32 == 4096) by (bit_vector);
            match self.cs() {
                Some(c) => if size_info > 0 {
                    let z = size_info as int;
                    assert(c * z == z * c && (c >= 512 ==> c * z >= 512)) by (nonlinear_arith) requires z >= 1;
                },
                None => {}
            }
        }
@fn BiosParameterBlock::sector_size
@props C01
@ensures
        r is Ok <==> bs_sector_size(self.sector_size) is Some,
        match r { Ok(n) => Some(n as int) == bs_sector_size(self.sector_size), Err(_) => true },
@fn BiosParameterBlock::sectors_per_cluster
@props C01
@ensures
        r is Ok <==> bs_spc(self.sectors_per_cluster) is Some,
        match r { Ok(n) => Some(n as int) == bs_spc(self.sectors_per_cluster) && 1 <= n <= 4096, Err(_) => true },
@proof start
        proof {
            if self.sectors_per_cluster > 128 {
                lemma_neg_u8(self.sectors_per_cluster);
                if 256 - self.sectors_per_cluster <= 12 { lemma_pow2n((256 - self.sectors_per_cluster) as u16); }
            }
        }
@fn BiosParameterBlock::serial_number
@props C01
@ensures
        r == self.serial_number,
@fn BiosParameterBlock::total_sectors
@props C01
@ensures
        r == self.total_sectors,
@fn BootSector::bpb
@props C01
@ensures
        *r == self.bpb,
@fn BootSector::validate
@props C01
@ensures
        r is Ok <==> self.signature@ == seq![0x55u8, 0xaau8],
