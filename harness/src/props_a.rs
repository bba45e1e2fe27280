//! Geometry, records, file lookup, Data Runs, value readers.
use crate::dev::{le, Dev};
use crate::img::*;
use crate::model::*;
use crate::rng::Rng;
use crate::{ensure, R};
use binrw::io::{Read, Seek, SeekFrom};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::types::*;
use ntfs::*;

pub fn e2s<T>(r: Result<T, NtfsError>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e:?}"))
}

pub fn c01(r: &mut Rng) -> R {
    let n = if r.chance(1, 20) { r.below(600) as usize } else { 512 + r.below(600) as usize };
    let mut b = r.bytes(n.max(512));
    let sector = if r.chance(3, 4) { r.pick(&[512u64, 1024, 2048, 4096]) } else { r.near(&[0, 256, 512, 4096, 8192, 513, 0xffff, 768]) & 0xffff };
    let spc = if r.chance(2, 3) { r.pick(&[1u64, 2, 4, 8, 16, 32, 64, 128, 0xF4, 0xF8, 0xFF, 0xF5, 0xF3]) } else { r.u8() as u64 };
    let frs = if r.chance(2, 3) { r.pick(&[0xF6u64, 0xF5, 0xF4, 1, 2, 8, 127]) } else { r.u8() as u64 };
    let lcn = match r.below(4) {
        0 => r.wide(),
        1 => r.near(&[0, 1, 4]),
        _ => r.range(1, 1 << 30),
    };
    let total = if r.chance(1, 2) { r.wide() } else { r.below(1 << 40) };
    put(&mut b, 11, 2, sector);
    b[13] = spc as u8;
    put(&mut b, 0x28, 8, total);
    put(&mut b, 0x30, 8, lcn);
    b[0x40] = frs as u8;
    let mut sig = true;
    b[510] = 0x55;
    b[511] = 0xAA;
    if r.chance(1, 12) {
        sig = false;
        let at = 510 + r.below(2) as usize;
        b[at] ^= 1 << r.below(8);
    }
    b.truncate(n);
    let serial = if n >= 512 { le(&b, 0x48, 8) } else { 0 };
    let mut dev = Dev::new(b);
    dev.short = r.pick(&[0, 0, 8]);
    dev.pos = r.below(700);
    // the format, in exact integer arithmetic
    let want = (|| {
        if n < 512 || !sig {
            return None;
        }
        if !(512..=4096).contains(&sector) || !sector.is_power_of_two() {
            return None;
        }
        let s = if spc > 128 {
            let e = 256 - spc;
            if e > 12 {
                return None;
            }
            1u64 << e
        } else {
            if spc == 0 || !spc.is_power_of_two() {
                return None;
            }
            spc
        };
        let cluster = s * sector;
        if !(512..=2097152).contains(&cluster) {
            return None;
        }
        let size = total as u128 * sector as u128;
        if size > u64::MAX as u128 {
            return None;
        }
        let fi = frs as u8 as i8;
        let rs = if fi > 0 {
            cluster * fi as u64
        } else {
            let e = -(fi as i64);
            if !(10..=12).contains(&e) {
                return None;
            }
            1u64 << e
        };
        if lcn == 0 {
            return None;
        }
        let mft = lcn as u128 * cluster as u128;
        if mft > u64::MAX as u128 {
            return None;
        }
        Some((cluster, size as u64, rs, mft as u64))
    })();
    match (Ntfs::new(&mut dev), want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("valid boot sector refused: {e:?} (sector {sector} spc {spc:#x} frs {frs:#x} lcn {lcn:#x} total {total:#x})")),
        (Ok(_), None) => Err(format!("invalid boot sector accepted (len {n} sig {sig} sector {sector} spc {spc:#x} frs {frs:#x} lcn {lcn:#x} total {total:#x})")),
        (Ok(v), Some((cluster, size, rs, mft))) => {
            ensure!(v.sector_size() as u64 == sector, "sector size {} != {}", v.sector_size(), sector);
            ensure!(v.cluster_size() as u64 == cluster, "cluster size {} != {}", v.cluster_size(), cluster);
            ensure!(v.size() == size, "size {} != {}", v.size(), size);
            ensure!(v.file_record_size() as u64 == rs, "file record size {} != {}", v.file_record_size(), rs);
            ensure!(v.mft_position().value().map(|x| x.get()) == Some(mft), "MFT position {:?} != {}", v.mft_position(), mft);
            ensure!(v.serial_number() == serial, "serial {:#x} != {:#x}", v.serial_number(), serial);
            Ok(())
        }
    }
}

/// Independent statement of the update sequence rule. None: must be refused.
/// Err: the array overlaps a sector tail (not specified).
pub fn fixup_model(b: &[u8]) -> Result<Option<Vec<u8>>, ()> {
    let off = le(b, 4, 2) as usize;
    let cnt = le(b, 6, 2) as usize;
    if cnt == 0 || off + 2 > b.len() || off + 2 * cnt > b.len() || (cnt - 1) * 512 > b.len() {
        return Ok(None);
    }
    for i in 1..cnt {
        let t = i * 512 - 2;
        if off < t + 2 && t < off + 2 * cnt {
            return Err(());
        }
    }
    let mut v = b.to_vec();
    for i in 1..cnt {
        let t = i * 512 - 2;
        if b[t..t + 2] != b[off..off + 2] {
            return Ok(None);
        }
        v[t..t + 2].copy_from_slice(&b[off + 2 * i..off + 2 * i + 2]);
    }
    Ok(Some(v))
}

pub fn c02(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let frs = geo.frs as usize;
    let mut vb = VolB::new(r, geo, 64);
    // one attribute whose value covers everything up to the end of the record
    let first = (48 + 2 * (frs / 512 + 1) + 7) / 8 * 8;
    let vlen = (frs - first - 24 - 8) / 8 * 8;
    let value = r.bytes(vlen);
    let a = attr_resident(DATA, &[], 0, 7, &value);
    let mut rec = Rec { seq: 1, links: 1, flags: 1, attrs: vec![a] }.build(r, frs).ok_or("layout")?;
    // move the array / change the count
    let raw = unprotect(&rec);
    let first = le(&raw, 20, 2) as usize;
    let mut b = raw.clone();
    let blocks = (frs / 512) as u64;
    let inside = first as u64 + 24;
    if r.chance(2, 3) {
        let cnt = if r.chance(1, 2) { blocks + 1 } else { r.near(&[0, 1, 2, blocks + 1, 0x1_0000]) & 0xffff };
        let off = match r.below(4) {
            0 => r.near(&[frs as u64 - 2 * cnt.min(blocks + 2), frs as u64, frs as u64 - 2, 510, 512]) & 0xffff,
            1 => inside + r.below(vlen as u64),
            2 => r.pick(&[0xffffu64, 0xfffe, 0xfffd, 0xfff0]),
            _ => 48,
        };
        let off = if off < 48 { 48 } else { off };
        put(&mut b, 4, 2, off);
        put(&mut b, 6, 2, cnt);
    }
    let off = le(&b, 4, 2) as usize;
    let cnt = le(&b, 6, 2) as usize;
    let sane = cnt >= 1 && off + 2 * cnt <= frs && (cnt - 1) * 512 <= frs;
    if sane {
        let usn = if r.chance(1, 4) { 0 } else { r.u16() };
        protect(&mut b, usn);
        if r.chance(1, 3) {
            // a torn write: one sector carries another number
            let i = 1 + r.below(cnt as u64 - 1).min(blocks - 1) as usize;
            let t = i * 512 - 2 + r.below(2) as usize;
            b[t] ^= 1 << r.below(8);
        }
    }
    rec.copy_from_slice(&b);
    let n = 3;
    vb.set(n, rec.clone());
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let want = fixup_model(&rec);
    let got = ntfs.file(&mut dev, n as u64);
    match (want, got) {
        (Err(()), _) => Ok(()),
        (Ok(None), Ok(_)) => Err(format!("a record with a broken update sequence was accepted (array at {off}, count {cnt}, size {frs})")),
        (Ok(None), Err(_)) => Ok(()),
        (Ok(Some(_)), Err(e)) => Err(format!("an intact record was refused: {e:?} (array at {off}, count {cnt}, size {frs})")),
        (Ok(Some(w)), Ok(f)) => {
            let a = match f.attributes_raw().next() {
                Some(Ok(a)) => a,
                _ => {
                    // the array may lie within the attribute header
                    return Ok(());
                }
            };
            let lo = le(&w, first + 20, 2) as usize + first;
            let l = le(&w, first + 16, 4) as usize;
            let v = e2s(a.value(&mut dev), "value")?;
            match v {
                NtfsAttributeValue::Resident(v) => {
                    ensure!(v.data() == &w[lo..lo + l], "the record content differs after the fixup (array at {off}, count {cnt})");
                    Ok(())
                }
                _ => Err("not resident".into()),
            }
        }
    }?;
    c02_index(r)
}

/// The same rule for index records, observed through the record fields.
fn c02_index(r: &mut Rng) -> R {
    let irs = r.pick(&[1024usize, 2048, 4096]);
    let mut geo = Geo::random(r);
    geo.spc = 1;
    geo.sector = 512;
    let c = 512u64;
    let mut vb = VolB::new(r, geo.clone(), 200);
    let key = r.bytes((irs - 700).min(3000));
    let mut ents = index_entry(r.u64(), &key, 0, None);
    ents.extend(index_entry(0, &[], LAST, None));
    let mut rec = match index_record(r, irs, 0, &ents, false) {
        Some(x) => x,
        None => return Ok(()),
    };
    if r.chance(1, 2) {
        let i = 1 + r.below(irs as u64 / 512) as usize;
        let t = i * 512 - 1 - r.below(2) as usize;
        rec[t] ^= 1 << r.below(8);
    }
    let want = fixup_model(&rec);
    let runs = vb.store(r, &rec, 1, 4, false).ok_or("layout")?;
    let enc = encode_runs(r, &runs, true);
    let a = attr_non_resident(INDEX_ALLOCATION, &utf16("$I30"), 0, 1, 0, irs as u64 / c, c, irs as u64, &enc);
    let fr = match (Rec { seq: 1, links: 1, flags: 3, attrs: vec![a] }).build(r, geo.frs as usize) {
        Some(x) => x,
        None => return Ok(()),
    };
    vb.set(1, fr);
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = f.attributes_raw().next().ok_or("no attribute")?;
    let a = e2s(a, "attribute")?;
    let ia = e2s(a.structured_value::<_, NtfsIndexAllocation>(&mut dev), "allocation")?;
    let got = ia.records(irs as u32).next(&mut dev).ok_or("no record")?;
    match (want, got) {
        (Err(()), _) => Ok(()),
        (Ok(None), Ok(_)) => Err("an index record with a broken update sequence was accepted".into()),
        (Ok(None), Err(_)) => Ok(()),
        (Ok(Some(_)), Err(e)) => Err(format!("an intact index record was refused: {e:?}")),
        (Ok(Some(_)), Ok(rec)) => {
            let mut it = rec.entries::<RawIndex>().map_err(|e| format!("{e:?}"))?;
            let e = it.next().ok_or("no entry")?.map_err(|e| format!("{e:?}"))?;
            let k = e.key().ok_or("no key")?.map_err(|e| format!("{e:?}"))?;
            ensure!(k.0 == key, "the index record content differs after the fixup");
            Ok(())
        }
    }
}

/// An index type that hands out the raw key bytes.
#[derive(Clone, Debug)]
pub struct RawIndex;
#[derive(Debug, Clone, PartialEq)]
pub struct RawKey(pub Vec<u8>, pub Option<u64>);
impl ntfs::indexes::NtfsIndexEntryType for RawIndex {
    type KeyType = RawKey;
}
impl ntfs::indexes::NtfsIndexEntryKey for RawKey {
    fn key_from_slice(slice: &[u8], position: NtfsPosition) -> ntfs::Result<Self> {
        Ok(RawKey(slice.to_vec(), position.value().map(|x| x.get())))
    }
}
impl ntfs::indexes::NtfsIndexEntryData for RawKey {
    fn data_from_slice(slice: &[u8], position: NtfsPosition) -> ntfs::Result<Self> {
        Ok(RawKey(slice.to_vec(), position.value().map(|x| x.get())))
    }
}
#[derive(Clone, Debug)]
pub struct DataIndex;
impl ntfs::indexes::NtfsIndexEntryType for DataIndex {
    type KeyType = RawKey;
}
impl ntfs::indexes::NtfsIndexEntryHasData for DataIndex {
    type DataType = RawKey;
}
impl ntfs::indexes::NtfsIndexEntryHasFileReference for RawIndex {}

pub fn c03(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let frs = geo.frs as usize;
    let mut vb = VolB::new(r, geo.clone(), 160);
    let n = 2 + r.below(10) as usize;
    let mut ok = vec![true; n];
    for k in 1..n {
        let l = r.below(40) as usize;
        let a = attr_resident(DATA, &[], 0, 1, &r.bytes(l));
        let mut b = Rec { seq: r.u16(), links: r.u16(), flags: r.u16(), attrs: vec![a] }.build(r, frs).unwrap();
        match r.below(9) {
            0 => {
                let i = r.below(4) as usize;
                b[i] ^= 1 << r.below(8);
                ok[k] = false;
            }
            1 => {
                let v = r.near(&[frs as u64, frs as u64 + 1, 0xffff_ffff, frs as u64 - 1, 0]) & 0xffff_ffff;
                put(&mut b, 28, 4, v);
            }
            2 => {
                let alloc = le(&b, 28, 4);
                let v = r.near(&[alloc, alloc + 1, 0xffff_ffff, 0]) & 0xffff_ffff;
                put(&mut b, 24, 4, v);
            }
            3 => {
                let al = r.range(0, frs as u64);
                put(&mut b, 28, 4, al);
                let v = r.near(&[al]) & 0xffff_ffff;
                put(&mut b, 24, 4, v);
            }
            _ => {}
        }
        if le(&b, 28, 4) > frs as u64 || le(&b, 24, 4) > le(&b, 28, 4) {
            ok[k] = false;
        }
        vb.set(k, b);
    }
    let extra = if r.chance(1, 4) { r.below(2 * frs as u64) } else { 0 };
    let vol = vb.finish(r, extra).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let c = geo.cluster() as u64;
    let alloc: u64 = vol.mft_runs.iter().map(|x| x.n * c).sum();
    for _ in 0..12 {
        let num = match r.below(8) {
            0 => r.wide(),
            1 => u64::MAX / frs as u64 + r.below(3),
            2 => r.near(&[n as u64, alloc / frs as u64]),
            _ => r.below(n as u64),
        };
        let got = ntfs.file(&mut dev, num);
        let end = (num as u128 + 1) * frs as u128;
        let exists = end <= vol.mft_len as u128 && end <= alloc as u128;
        if !exists {
            ensure!(got.is_err(), "file record {} found beyond the end of an MFT of {} bytes", num, vol.mft_len);
            continue;
        }
        if num >= n as u64 {
            continue; // unused tail of the MFT, arbitrary content
        }
        let k = num as usize;
        match got {
            Err(e) => ensure!(!ok[k], "file record {} refused: {:?}", num, e),
            Ok(f) => {
                ensure!(ok[k], "broken file record {} accepted", num);
                let mut raw = vec![];
                for i in 0..frs as u64 {
                    let p = vol.mft_at(num * frs as u64 + i).unwrap();
                    raw.push(vol.dev[p as usize]);
                }
                let raw = unprotect(&raw);
                ensure!(f.file_record_number() == num, "record number {} != {}", f.file_record_number(), num);
                ensure!(f.sequence_number() as u64 == le(&raw, 16, 2), "sequence number of record {}", num);
                ensure!(f.hard_link_count() as u64 == le(&raw, 18, 2), "link count of record {}", num);
                ensure!(f.flags().bits() as u64 == le(&raw, 22, 2) & 3, "flags of record {}", num);
                ensure!(f.is_directory() == (le(&raw, 22, 2) & 2 != 0), "is_directory of record {}", num);
                ensure!(f.data_size() as u64 == le(&raw, 24, 4), "used size of record {}", num);
                ensure!(f.allocated_size() as u64 == le(&raw, 28, 4), "allocated size of record {}", num);
                ensure!(f.position().value().map(|x| x.get()) == vol.mft_at(num * frs as u64), "position of record {}", num);
                if num > 0 {
                    if let Some(Ok(a)) = f.attributes_raw().next() {
                        let at = le(&raw, 20, 2) as usize;
                        ensure!(a.attribute_length() as u64 == le(&raw, at + 4, 4), "attribute of record {}", num);
                        if let Ok(NtfsAttributeValue::Resident(v)) = a.value(&mut dev) {
                            let s = at + le(&raw, at + 20, 2) as usize;
                            ensure!(v.data() == &raw[s..s + le(&raw, at + 16, 4) as usize], "content of record {}", num);
                        }
                    }
                }
            }
        }
    }
    // the root directory is record 5
    if n > 5 {
        let root = ntfs.root_directory(&mut dev);
        ensure!(root.is_ok() == ok[5], "root directory lookup");
        if let Ok(f) = root {
            ensure!(f.file_record_number() == 5, "root directory number");
        }
    }
    Ok(())
}

/// One decoding step in wide arithmetic.
pub enum Step {
    End,
    Bad,
    Run(Run, usize),
}
pub fn dec_step(d: &[u8], at: usize, prev: u64, c: u64) -> Step {
    if at >= d.len() || d[at] == 0 {
        return Step::End;
    }
    let cl = (d[at] & 15) as usize;
    let vl = (d[at] >> 4) as usize;
    if cl > 8 || at + 1 + cl > d.len() {
        return Step::Bad;
    }
    let mut n = 0u128;
    for i in (0..cl).rev() {
        n = n << 8 | d[at + 1 + i] as u128;
    }
    if n == 0 || n * c as u128 > u64::MAX as u128 {
        return Step::Bad;
    }
    if vl > 8 || at + 1 + cl + vl > d.len() {
        return Step::Bad;
    }
    if vl == 0 {
        return Step::Run(Run { lcn: None, n: n as u64 }, at + 1 + cl);
    }
    let mut v = 0i128;
    for i in (0..vl).rev() {
        v = v << 8 | d[at + 1 + cl + i] as i128;
    }
    if v >> (8 * vl - 1) & 1 == 1 {
        v -= 1 << (8 * vl);
    }
    let l = prev as i128 + v;
    if l < 0 || l > u64::MAX as i128 {
        return Step::Bad;
    }
    let p = l as u128 * c as u128;
    if p > u64::MAX as u128 || p + n * c as u128 > u64::MAX as u128 {
        return Step::Bad;
    }
    Step::Run(Run { lcn: Some(l as u64), n: n as u64 }, at + 1 + cl + vl)
}

fn random_run_bytes(r: &mut Rng, clusters: u64) -> Vec<u8> {
    let k = r.below(7) as usize;
    let mut runs = vec![];
    for _ in 0..k {
        let n = if r.chance(1, 5) { r.wide().max(1) } else { r.range(1, 300) };
        let lcn = if r.chance(1, 5) {
            None
        } else if r.chance(1, 6) {
            Some(r.wide() >> 1)
        } else if r.chance(1, 8) {
            Some(0)
        } else {
            Some(r.below(clusters))
        };
        runs.push(Run { lcn, n });
    }
    let mut b = encode_runs(r, &runs, false);
    match r.below(5) {
        0 => {
            let l = b.len() as u64;
            if l > 0 {
                let i = r.below(l) as usize;
                b[i] = if r.chance(1, 2) { r.pick(&[0x11, 0x21, 0x31, 0x01, 0x91, 0x19, 0x88, 0x08, 0x10, 0xff]) } else { r.u8() };
            }
        }
        1 => {
            let l = r.below(b.len() as u64 + 1) as usize;
            b.truncate(l);
        }
        _ => b.push(0),
    }
    b
}

/// A volume with one file whose unnamed data attribute has the given run bytes.
pub fn vol_with_runs(r: &mut Rng, vb: VolB, enc: &[u8], data_size: u64, exact: bool) -> Option<(Vol, Vec<u8>)> {
    let mut vb = vb;
    let frs = vb.geo.frs as usize;
    let mut a = attr_non_resident(DATA, &[], 0, 3, 0, 1, vb.geo.cluster() as u64, data_size, enc);
    let mut data = a[64..].to_vec();
    if exact {
        // no padding after the run list: the attribute ends with it
        a.truncate(64 + enc.len());
        let l = a.len() as u64;
        put(&mut a, 4, 4, l);
        data = enc.to_vec();
    }
    let b = Rec { seq: 1, links: 1, flags: 1, attrs: vec![a] }.build(r, frs)?;
    vb.set(1, b);
    let v = vb.finish(r, 0)?;
    Some((v, data))
}

pub fn c04(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let c = geo.cluster() as u64;
    let vb = VolB::new(r, geo, 40);
    let enc = random_run_bytes(r, 40);
    let exact = r.chance(1, 2);
    let (vol, data) = match vol_with_runs(r, vb, &enc, 1000, exact) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    let v = match (a.value(&mut dev), dec_step(&data, 0, 0, c)) {
        (Ok(NtfsAttributeValue::NonResident(v)), Step::Bad) => return Err(format!("the broken first run of {:x?} was accepted: {:?}", data, v.data_position())),
        (Err(_), Step::Bad) => return Ok(()),
        (Err(e), _) => return Err(format!("run list {:x?} refused: {e:?}", data)),
        (Ok(NtfsAttributeValue::NonResident(v)), _) => v,
        _ => return Err("not non-resident".into()),
    };
    let mut it = v.data_runs();
    let mut at = 0;
    let mut prev = 0;
    let start = a.position().value().unwrap().get() + 64;
    for k in 0..40 {
        ensure!(it.position().value().map(|x| x.get()) == Some(start + at as u64) || at >= data.len() || data[at] == 0, "position of run {}", k);
        let got = it.next();
        match (got, dec_step(&data, at, prev, c)) {
            (None, Step::End) => {
                ensure!(it.next().is_none(), "a run after the end");
                return Ok(());
            }
            (Some(Err(_)), Step::Bad) => {
                ensure!(matches!(it.next(), Some(Err(_))), "a broken run list goes on after the error: {:x?}", data);
                return Ok(());
            }
            (Some(Ok(mut d)), Step::Run(w, next)) => {
                ensure!(d.allocated_size() == w.n * c, "run {} of {:x?} has {} bytes instead of {}", k, data, d.allocated_size(), w.n * c);
                let want = w.lcn.map(|l| l * c).filter(|p| *p != 0);
                ensure!(d.data_position().value().map(|x| x.get()) == want, "run {} of {:x?} is at {:?} instead of {:?}", k, data, d.data_position(), want);
                if r.chance(1, 3) {
                    let within = w.lcn.map_or(true, |l| (l + w.n.min(1 << 20)) * c <= dev.data.len() as u64);
                    if within || w.lcn.map_or(true, |l| l * c < dev.data.len() as u64) {
                        let mut m = Model::of_runs(w.n * c, &[w.clone()], c, false);
                        m.len = w.n * c;
                        let mut buf = vec![0xA5; 700];
                        let n = e2s(d.read(&mut dev, &mut buf), "run read")?;
                        m.check_read(&dev, 0, 700, &Ok(n), &buf, d.stream_position(), false)?;
                    }
                }
                if let Some(l) = w.lcn {
                    prev = l;
                }
                at = next;
            }
            (got, w) => {
                let w = match w {
                    Step::End => "the end".to_string(),
                    Step::Bad => "an error".to_string(),
                    Step::Run(w, _) => format!("{w:?}"),
                };
                return Err(format!("item {k} of run list {:x?} is {:?} instead of {}", data, got, w));
            }
        }
    }
    Ok(())
}

/// Random content with zero areas, stored in random runs, some of them possibly outside of the device.
pub fn value_case(r: &mut Rng, vb: &mut VolB, clusters: u64, weird: bool) -> Option<(Vec<Run>, u64)> {
    let c = vb.c() as u64;
    let mut data = r.bytes((clusters * c) as usize);
    for k in 0..clusters as usize {
        if r.chance(1, 4) {
            for b in &mut data[k * c as usize..(k + 1) * c as usize] {
                *b = 0;
            }
        }
    }
    let frag = r.pick(&[1usize, 2, 4]);
    let mut runs = vb.store(r, &data, 1, frag, true)?;
    if weird {
        let devc = vb.used.len() as u64;
        for run in runs.iter_mut() {
            if r.chance(1, 12) {
                run.lcn = Some(r.near(&[devc, devc - 1, 0]).min(1 << 40));
            }
        }
    }
    let total: u64 = runs.iter().map(|x| x.n * c).sum();
    let len = match r.below(5) {
        0 => total,
        1 => r.near(&[total]).min(1 << 40),
        2 => r.below(total + 1),
        3 => total - r.below(c.min(total)),
        _ => total + r.below(3 * c),
    };
    Some((runs, len))
}

pub fn c05(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let c = geo.cluster() as u64;
    let mut vb = VolB::new(r, geo, 60);
    let k = 1 + r.below(12);
    let (runs, len) = value_case(r, &mut vb, k, true).ok_or("layout")?;
    let mut bad = false;
    let mut enc = encode_runs(r, &runs, false);
    if r.chance(1, 6) {
        bad = true;
        enc.extend(r.pick(&[vec![0x10u8, 1], vec![0x19, 1], vec![0x91, 1], vec![0x11, 0, 1], vec![0x81, 1, 0, 0, 0, 0, 0, 0, 0, 0x80]]));
        enc.push(0);
    } else if r.chance(3, 4) {
        enc.push(0);
    }
    let exact = r.chance(1, 2);
    let (vol, _) = match vol_with_runs(r, vb, &enc, len, exact) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    ensure!(a.value_length() == len, "value length {} != {}", a.value_length(), len);
    let mut v = match e2s(a.value(&mut dev), "value")? {
        NtfsAttributeValue::NonResident(v) => v,
        _ => return Err("not non-resident".into()),
    };
    ensure!(v.len() == len, "value length {} != {}", v.len(), len);
    let m = Model::of_runs(len, &runs, c, bad);
    history(r, &mut v, &mut dev, &m, 24, &|v| v.data_position(), true)
}

/// Drives a std-like reader side by side with std::io::Cursor over the same bytes.
fn cursor_twin<V: Read + Seek>(r: &mut Rng, v: &mut V, content: &[u8], what: &str) -> R {
    let mut cur = std::io::Cursor::new(content.to_vec());
    let l = content.len() as u64;
    for _ in 0..16 {
        if r.chance(1, 2) {
            let t = if r.chance(1, 8) { r.wide() } else { r.near(&[0, l, l / 2, cur.position()]) };
            let s = match r.below(3) {
                0 => SeekFrom::Start(t),
                1 => SeekFrom::End((t as i128 - l as i128) as i64),
                _ => SeekFrom::Current((t as i128 - cur.position() as i128) as i64),
            };
            let before = cur.position();
            let a = v.seek(s);
            let b = cur.seek(s);
            ensure!(a.is_ok() == b.is_ok(), "{}: seek {:?} from {}: {:?} instead of {:?}", what, s, before, a, b);
            if let (Ok(a), Ok(b)) = (&a, &b) {
                ensure!(a == b, "{}: seek {:?} from {}: {} instead of {}", what, s, before, a, b);
            }
            let now = v.stream_position().map_err(|e| e.to_string())?;
            ensure!(now == cur.position(), "{}: position {} instead of {} after seek {:?}", what, now, cur.position(), s);
        } else {
            let n = r.pick(&[0usize, 1, 7, 100, 5000]);
            let mut x = vec![0xA5; n];
            let mut y = vec![0x5A; n];
            let before = cur.position();
            let k = v.read(&mut x).map_err(|e| format!("{what}: read at {before}: {e}"))?;
            cur.read_exact(&mut y[..k]).map_err(|_| format!("{what}: read {k} bytes at {before} beyond the end {l}"))?;
            ensure!(x[..k] == y[..k], "{}: content at {} differs", what, before);
            ensure!(k > 0 || n == 0 || before >= l, "{}: premature end at {}", what, before);
        }
    }
    Ok(())
}

struct Adapt<'a, V>(&'a mut V, &'a mut Dev);
impl<'a, V: NtfsReadSeek> Read for Adapt<'a, V> {
    fn read(&mut self, buf: &mut [u8]) -> binrw::io::Result<usize> {
        self.0.read(self.1, buf).map_err(Into::into)
    }
}
impl<'a, V: NtfsReadSeek> Seek for Adapt<'a, V> {
    fn seek(&mut self, p: SeekFrom) -> binrw::io::Result<u64> {
        let r = self.0.seek(self.1, p).map_err(Into::into);
        if let Ok(n) = &r {
            if *n != self.0.stream_position() {
                return Err(binrw::io::Error::new(binrw::io::ErrorKind::Other, "seek result is not the position"));
            }
        }
        r
    }
}

pub fn c06(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let c = geo.cluster() as usize;
    // resident
    {
        let mut vb = VolB::new(r, geo.clone(), 40);
        let l = r.below(300) as usize;
        let content = r.bytes(l);
        let a = attr_resident(DATA, &[], 0, 3, &content);
        let b = Rec { seq: 1, links: 1, flags: 1, attrs: vec![a] }.build(r, geo.frs as usize).ok_or("layout")?;
        vb.set(1, b);
        let vol = vb.finish(r, 0).ok_or("layout")?;
        let mut dev = Dev::new(vol.dev.clone());
        let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
        let f = e2s(ntfs.file(&mut dev, 1), "file")?;
        let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
        let mut v = e2s(a.value(&mut dev), "value")?;
        if let NtfsAttributeValue::Resident(x) = v.clone() {
            let mut x = x;
            cursor_twin(r, &mut Adapt(&mut x, &mut dev), &content, "resident value")?;
        }
        let mut d2 = dev.clone();
        cursor_twin(r, &mut v.clone().attach(&mut d2), &content, "attached resident value")?;
        cursor_twin(r, &mut Adapt(&mut v, &mut dev), &content, "attribute value")?;
    }
    // non-resident and single Data Run
    let mut vb = VolB::new(r, geo, 60);
    let k = 1 + r.below(8);
    let (runs, _) = value_case(r, &mut vb, k, false).ok_or("layout")?;
    let total: usize = runs.iter().map(|x| x.n as usize * c).sum();
    let len = total - r.below(c as u64) as usize;
    let enc = encode_runs(r, &runs, true);
    let (vol, _) = vol_with_runs(r, vb, &enc, len as u64, false).ok_or("layout")?;
    let mut content = vec![];
    for x in &runs {
        for i in 0..x.n as usize * c {
            content.push(x.lcn.map_or(0, |l| vol.dev[l as usize * c + i]));
        }
    }
    let first = content[..runs[0].n as usize * c].to_vec();
    content.truncate(len);
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    let mut v = e2s(a.value(&mut dev), "value")?;
    let mut d2 = dev.clone();
    cursor_twin(r, &mut v.clone().attach(&mut d2), &content, "attached value")?;
    if let NtfsAttributeValue::NonResident(x) = v.clone() {
        cursor_twin(r, &mut x.clone().attach(&mut d2), &content, "attached non-resident value")?;
        let mut x = x;
        cursor_twin(r, &mut Adapt(&mut x, &mut dev), &content, "non-resident value")?;
        let mut run = x.data_runs().next().ok_or("no run")?.map_err(|e| format!("{e:?}"))?;
        cursor_twin(r, &mut Adapt(&mut run, &mut dev), &first, "Data Run")?;
        // far positions
        let m = Model::of_runs(len as u64, &runs, c as u64, false);
        let mut y = e2s(a.value(&mut dev), "value")?;
        for _ in 0..12 {
            let p = y.stream_position();
            let s = if r.chance(1, 2) {
                match r.below(3) {
                    0 => SeekFrom::Start(r.wide()),
                    1 => SeekFrom::Current(r.wide() as i64),
                    _ => SeekFrom::End(r.wide() as i64),
                }
            } else {
                m.random_seek(r, p)
            };
            let res = y.seek(&mut dev, s).map_err(|e| format!("{e:?}"));
            m.check_seek(p, s, &res, y.stream_position(), false)?;
            let mut buf = [0u8; 9];
            let p = y.stream_position();
            let res = y.read(&mut dev, &mut buf).map_err(|e| format!("{e:?}"));
            m.check_read(&dev, p, 9, &res, &buf, y.stream_position(), false)?;
        }
        // the same far seeks on a single run
        let m = Model::of_runs(first.len() as u64, &runs[..1], c as u64, false);
        for _ in 0..8 {
            let p = run.stream_position();
            let s = if r.chance(1, 2) { SeekFrom::Current(r.wide() as i64) } else { SeekFrom::Start(r.wide()) };
            let res = run.seek(&mut dev, s).map_err(|e| format!("{e:?}"));
            m.check_seek(p, s, &res, run.stream_position(), false)?;
        }
    }
    cursor_twin(r, &mut Adapt(&mut v, &mut dev), &content, "attribute value")
}

pub fn c07(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let mut vb = VolB::new(r, geo.clone(), 40);
    let l = r.below(500) as usize;
    let content = r.bytes(l);
    let nl = r.below(5) as usize;
    let name: Vec<u16> = (0..nl).map(|_| r.u16()).collect();
    let a = attr_resident(DATA, &name, 0, 3, &content);
    let b = Rec { seq: 1, links: 1, flags: 1, attrs: vec![a] }.build(r, geo.frs as usize).ok_or("layout")?;
    let at = le(&b, 20, 2);
    let voff = le(&unprotect(&b), at as usize + 20, 2);
    vb.set(1, b);
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    ensure!(a.is_resident() && a.value_length() == l as u64, "resident value length {}", a.value_length());
    let pos = vol.rec_pos(1) + at + voff;
    let m = Model::flat(&content, pos);
    let mut v = match e2s(a.value(&mut dev), "value")? {
        NtfsAttributeValue::Resident(v) => v,
        _ => return Err("not resident".into()),
    };
    ensure!(v.data() == &content[..], "resident data differs");
    ensure!(v.len() == l as u64 && v.is_empty() == (l == 0), "resident length");
    history(r, &mut v, &mut dev, &m, 24, &|v| v.data_position(), true)?;
    let mut v = e2s(a.value(&mut dev), "value")?;
    history(r, &mut v, &mut dev, &m, 10, &|v| v.data_position(), true)
}

pub fn list_entry(ty: u32, name: &[u16], lowest: u64, reference: u64, instance: u16, pad: usize) -> Vec<u8> {
    let len = (26 + 2 * name.len() + 7) / 8 * 8 + pad;
    let mut b = vec![0u8; len];
    put(&mut b, 0, 4, ty as u64);
    put(&mut b, 4, 2, len as u64);
    b[6] = name.len() as u8;
    b[7] = 26;
    put(&mut b, 8, 8, lowest);
    put(&mut b, 16, 8, reference);
    put(&mut b, 24, 2, instance as u64);
    b[26..26 + 2 * name.len()].copy_from_slice(&bytes16(name));
    b
}

/// A file whose data attribute is split over extension records.
pub fn c08(r: &mut Rng) -> R {
    let mut geo = Geo::random(r);
    if geo.cluster() > 1024 {
        geo.sector = 512;
        geo.spc = 1;
    }
    let frs = geo.frs as usize;
    let c = geo.cluster() as u64;
    let mut vb = VolB::new(r, geo, 220);
    let k = 1 + r.below(16);
    let (runs, len) = value_case(r, &mut vb, k, r.clone().chance(1, 3)).ok_or("layout")?;
    // split the runs into extents
    let inst = r.u16();
    let mut extents: Vec<Vec<Run>> = vec![vec![]];
    for x in &runs {
        if !extents.last().unwrap().is_empty() && r.chance(2, 5) {
            extents.push(vec![]);
        }
        extents.last_mut().unwrap().push(x.clone());
    }
    // extents without any runs
    while r.chance(1, 6) {
        let k = r.below(extents.len() as u64 + 1) as usize;
        extents.insert(k, vec![]);
    }
    let base = 1usize;
    let mut list = vec![];
    // something in the base record and something else in front
    list.extend(list_entry(STANDARD_INFORMATION, &[], 0, base as u64, 0, 0));
    if r.chance(1, 2) {
        let ext = 2 + r.below(2);
        let a = attr_resident(FILE_NAME, &[], 0, inst, &file_name_value(r, 5, &utf16("abc"), 1));
        let b = Rec { seq: 9, links: 1, flags: 1, attrs: vec![a] }.build(r, frs).ok_or("layout")?;
        vb.set(ext as usize, b);
        list.extend(list_entry(FILE_NAME, &[], 0, ext | 9 << 48, inst, 0));
    }
    let mut at = 0;
    let mut other = false;
    let mut numbers: Vec<usize> = (4..4 + extents.len()).collect();
    r.shuffle(&mut numbers);
    for (i, x) in extents.iter().enumerate() {
        let n: u64 = x.iter().map(|x| x.n).sum();
        let term = r.chance(3, 4);
        let enc = encode_runs(r, x, term);
        let a = attr_non_resident(DATA, &[], 0, inst, at, n, c, if i == 0 { len } else { 0 }, &enc);
        let mut attrs = vec![];
        if r.chance(1, 3) {
            if i == 0 {
                other = true;
            }
            attrs.push(attr_resident(0x100, &[], 0, inst, &r.bytes(12)));
        }
        if r.chance(1, 3) {
            attrs.push(attr_non_resident(DATA, &utf16("other"), 0, inst.wrapping_add(1), 0, 1, c, 77, &[0x11, 1, 1, 0]));
        }
        attrs.push(a);
        let b = match (Rec { seq: 2, links: 0, flags: 1, attrs }).build(r, frs) {
            Some(b) => b,
            None => return Ok(()),
        };
        vb.set(numbers[i], b);
        list.extend(list_entry(DATA, &[], at, numbers[i] as u64 | 2 << 48, inst, r.pick(&[0, 0, 8])));
        at += n;
    }
    if other && r.chance(1, 2) {
        list.extend(list_entry(0x100, &[], 0, numbers[0] as u64, inst, 0));
    }
    let la = if list.len() < frs / 3 && r.chance(1, 2) {
        attr_resident(ATTRIBUTE_LIST, &[], 0, 1, &list)
    } else {
        let lr = vb.store(r, &list, 1, 2, false).ok_or("layout")?;
        let n: u64 = lr.iter().map(|x| x.n).sum();
        let enc = encode_runs(r, &lr, true);
        attr_non_resident(ATTRIBUTE_LIST, &[], 0, 1, 0, n, c, list.len() as u64, &enc)
    };
    let si = attr_resident(STANDARD_INFORMATION, &[], 0, 0, &r.bytes(72));
    let b = Rec { seq: 1, links: 1, flags: 1, attrs: vec![si, la] }.build(r, frs).ok_or("layout")?;
    vb.set(base, b);
    let vol = match vb.finish(r, 0) {
        Some(v) => v,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, base as u64), "file")?;
    let item = f.data(&mut dev, "").ok_or("the split data attribute is not found")?;
    let item = e2s(item, "data")?;
    let a = e2s(item.to_attribute(), "attribute")?;
    let mut v = match e2s(a.value(&mut dev), "value")? {
        NtfsAttributeValue::AttributeListNonResident(v) => v,
        _ => return Err("the split value is not joined".into()),
    };
    ensure!(v.len() == len, "joined length {} instead of {}", v.len(), len);
    let m = Model::of_runs(len, &runs, c, false);
    history(r, &mut v, &mut dev, &m, 24, &|v| v.data_position(), true)?;
    // it must occur exactly once in the enumeration
    let mut it = f.attributes();
    let mut seen = 0;
    while let Some(x) = it.next(&mut dev) {
        let x = e2s(x, "item")?;
        let a = e2s(x.to_attribute(), "attribute")?;
        if a.ty().map_err(|e| format!("{e:?}"))? == NtfsAttributeType::Data {
            seen += 1;
        }
        ensure!(seen < 2, "the split attribute is listed more than once");
    }
    ensure!(seen == 1, "the split attribute is listed {} times", seen);
    Ok(())
}

#[allow(dead_code)]
fn _use(_: Vcn) {}
