//! Builds NTFS volumes from scratch, from the on-disk format only.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Geo {
    pub sector: u32,
    pub spc: u32,
    pub frs: u32,
}

impl Geo {
    pub fn random(r: &mut Rng) -> Geo {
        let sector = r.pick(&[512u32, 512, 512, 1024, 2048, 4096]);
        let spc = if sector == 512 { r.pick(&[1u32, 2, 4, 8]) } else { r.pick(&[1u32, 2]) };
        let c = sector * spc;
        let frs = if r.chance(1, 6) { c.max(1024) } else { r.pick(&[1024u32, 1024, 2048, 4096]) };
        Geo { sector, spc, frs }
    }
    pub fn cluster(&self) -> u32 {
        self.sector * self.spc
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub lcn: Option<u64>,
    pub n: u64,
}

fn ubytes(v: u64) -> usize {
    (64 - v.leading_zeros() as usize + 7) / 8
}
fn sbytes(v: i64) -> usize {
    for n in 1..8 {
        let s = 64 - 8 * n as u32;
        if (v << s) >> s == v {
            return n;
        }
    }
    8
}

/// Encodes Data Runs; `prev` is the LCN the first delta is relative to. Field widths may be larger than needed.
pub fn encode_runs(r: &mut Rng, runs: &[Run], terminate: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut prev = 0i128;
    for run in runs {
        let mut cl = ubytes(run.n).max(1);
        if r.chance(1, 6) {
            cl = r.range(cl as u64, 8) as usize;
        }
        let mut vl = 0;
        let mut delta = 0i64;
        if let Some(l) = run.lcn {
            delta = (l as i128 - prev) as i64;
            prev = l as i128;
            vl = sbytes(delta);
            if r.chance(1, 6) {
                vl = r.range(vl as u64, 8) as usize;
            }
        }
        out.push((vl << 4 | cl) as u8);
        out.extend_from_slice(&run.n.to_le_bytes()[..cl]);
        out.extend_from_slice(&delta.to_le_bytes()[..vl]);
    }
    if terminate {
        out.push(0);
    }
    out
}

fn p16(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 2].copy_from_slice(&(v as u16).to_le_bytes());
}
fn p32(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 4].copy_from_slice(&(v as u32).to_le_bytes());
}
fn p64(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
}
pub fn put(b: &mut [u8], at: usize, n: usize, v: u64) {
    b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
}

pub const STANDARD_INFORMATION: u32 = 0x10;
pub const ATTRIBUTE_LIST: u32 = 0x20;
pub const FILE_NAME: u32 = 0x30;
pub const OBJECT_ID: u32 = 0x40;
pub const VOLUME_NAME: u32 = 0x60;
pub const VOLUME_INFORMATION: u32 = 0x70;
pub const DATA: u32 = 0x80;
pub const INDEX_ROOT: u32 = 0x90;
pub const INDEX_ALLOCATION: u32 = 0xA0;

pub fn utf16(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
pub fn bytes16(n: &[u16]) -> Vec<u8> {
    n.iter().flat_map(|c| c.to_le_bytes()).collect()
}

pub fn attr_resident(ty: u32, name: &[u16], flags: u16, instance: u16, value: &[u8]) -> Vec<u8> {
    let name_off = 24;
    let val_off = (name_off + 2 * name.len() + 7) / 8 * 8;
    let len = (val_off + value.len() + 7) / 8 * 8;
    let mut b = vec![0u8; len];
    p32(&mut b, 0, ty as u64);
    p32(&mut b, 4, len as u64);
    b[9] = name.len() as u8;
    p16(&mut b, 10, if name.is_empty() { 0 } else { name_off as u64 });
    p16(&mut b, 12, flags as u64);
    p16(&mut b, 14, instance as u64);
    p32(&mut b, 16, value.len() as u64);
    p16(&mut b, 20, val_off as u64);
    b[name_off..name_off + 2 * name.len()].copy_from_slice(&bytes16(name));
    b[val_off..val_off + value.len()].copy_from_slice(value);
    b
}

pub fn attr_non_resident(ty: u32, name: &[u16], flags: u16, instance: u16, lowest_vcn: u64, clusters: u64, cluster: u64, data_size: u64, runs: &[u8]) -> Vec<u8> {
    let name_off = 64;
    let run_off = (name_off + 2 * name.len() + 7) / 8 * 8;
    let len = (run_off + runs.len() + 7) / 8 * 8;
    let mut b = vec![0u8; len];
    p32(&mut b, 0, ty as u64);
    p32(&mut b, 4, len as u64);
    b[8] = 1;
    b[9] = name.len() as u8;
    p16(&mut b, 10, if name.is_empty() { 0 } else { name_off as u64 });
    p16(&mut b, 12, flags as u64);
    p16(&mut b, 14, instance as u64);
    p64(&mut b, 16, lowest_vcn);
    p64(&mut b, 24, (lowest_vcn + clusters).wrapping_sub(1));
    p16(&mut b, 32, run_off as u64);
    p64(&mut b, 40, clusters.wrapping_mul(cluster));
    p64(&mut b, 48, data_size);
    p64(&mut b, 56, data_size);
    b[name_off..name_off + 2 * name.len()].copy_from_slice(&bytes16(name));
    b[run_off..run_off + runs.len()].copy_from_slice(runs);
    b
}

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub attrs: Vec<Vec<u8>>,
}

impl Rec {
    /// On-disk bytes of the record; None if the attributes don't fit.
    pub fn build(&self, r: &mut Rng, frs: usize) -> Option<Vec<u8>> {
        let blocks = frs / 512;
        let usa = r.pick(&[42usize, 48]);
        let first = (usa + 2 * (blocks + 1) + 7) / 8 * 8;
        let mut b = vec![0u8; frs];
        b[..4].copy_from_slice(b"FILE");
        p16(&mut b, 4, usa as u64);
        p16(&mut b, 6, blocks as u64 + 1);
        p64(&mut b, 8, r.u64());
        p16(&mut b, 16, self.seq as u64);
        p16(&mut b, 18, self.links as u64);
        p16(&mut b, 20, first as u64);
        p16(&mut b, 22, self.flags as u64);
        p32(&mut b, 28, frs as u64);
        p16(&mut b, 40, r.u16() as u64);
        let mut at = first;
        for a in &self.attrs {
            if at + a.len() + 8 > frs {
                return None;
            }
            b[at..at + a.len()].copy_from_slice(a);
            at += a.len();
        }
        p32(&mut b, at, 0xFFFF_FFFF);
        p32(&mut b, 24, at as u64 + 8);
        protect(&mut b, r.u16());
        Some(b)
    }
}

/// Moves the sector tails into the update sequence array and writes the sequence number there.
pub fn protect(b: &mut [u8], usn: u16) {
    let off = u16::from_le_bytes([b[4], b[5]]) as usize;
    let cnt = u16::from_le_bytes([b[6], b[7]]) as usize;
    p16(b, off, usn as u64);
    for i in 1..cnt {
        let t = i * 512 - 2;
        let (x, y) = (b[t], b[t + 1]);
        b[off + 2 * i] = x;
        b[off + 2 * i + 1] = y;
        p16(b, t, usn as u64);
    }
}

/// What a reader must see of an (assumed intact) protected record.
pub fn unprotect(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let off = u16::from_le_bytes([b[4], b[5]]) as usize;
    let cnt = u16::from_le_bytes([b[6], b[7]]) as usize;
    for i in 1..cnt {
        v[i * 512 - 2] = b[off + 2 * i];
        v[i * 512 - 1] = b[off + 2 * i + 1];
    }
    v
}

pub struct VolB {
    pub geo: Geo,
    pub dev: Vec<u8>,
    pub used: Vec<bool>,
    pub recs: Vec<Option<Vec<u8>>>,
    pub serial: u64,
}

pub struct Vol {
    pub geo: Geo,
    pub dev: Vec<u8>,
    /// device ranges of every byte of the MFT, by record
    pub mft_runs: Vec<Run>,
    pub mft_len: u64,
    pub serial: u64,
}

impl Vol {
    /// Absolute device offset of a byte of the MFT (None: sparse).
    pub fn mft_at(&self, off: u64) -> Option<u64> {
        let c = self.geo.cluster() as u64;
        let mut left = off;
        for run in &self.mft_runs {
            if left < run.n * c {
                return run.lcn.map(|l| l * c + left);
            }
            left -= run.n * c;
        }
        None
    }
    pub fn rec_pos(&self, n: u64) -> u64 {
        self.mft_at(n * self.geo.frs as u64).unwrap()
    }
}

impl VolB {
    pub fn new(r: &mut Rng, geo: Geo, clusters: usize) -> VolB {
        let c = geo.cluster() as usize;
        let boot = (512 + c - 1) / c;
        let mut used = vec![false; clusters];
        for u in used.iter_mut().take(boot) {
            *u = true;
        }
        VolB { dev: r.bytes(clusters * c), used, recs: vec![], serial: r.u64(), geo }
    }
    pub fn c(&self) -> usize {
        self.geo.cluster() as usize
    }
    pub fn alloc(&mut self, r: &mut Rng, n: usize) -> Option<u64> {
        let total = self.used.len();
        let start = r.below(total as u64) as usize;
        for k in 0..total {
            let s = (start + k) % total;
            if s + n <= total && self.used[s..s + n].iter().all(|u| !u) {
                for u in &mut self.used[s..s + n] {
                    *u = true;
                }
                return Some(s as u64);
            }
        }
        None
    }
    /// Stores `data` in randomly placed fragments. All-zero fragments may become sparse.
    pub fn store(&mut self, r: &mut Rng, data: &[u8], first: usize, max_frag: usize, sparse: bool) -> Option<Vec<Run>> {
        let c = self.c();
        let total = (data.len() + c - 1) / c;
        let mut runs: Vec<Run> = vec![];
        let mut at = 0;
        while at < total {
            let mut n = 1 + r.below(max_frag as u64) as usize;
            if at == 0 {
                n = n.max(first);
            }
            let n = n.min(total - at);
            let end = ((at + n) * c).min(data.len());
            let piece = &data[at * c..end];
            if sparse && piece.iter().all(|&b| b == 0) {
                runs.push(Run { lcn: None, n: n as u64 });
            } else {
                let l = self.alloc(r, n)?;
                let p = l as usize * c;
                self.dev[p..p + piece.len()].copy_from_slice(piece);
                runs.push(Run { lcn: Some(l), n: n as u64 });
            }
            at += n;
        }
        Some(runs)
    }
    pub fn set(&mut self, n: usize, rec: Vec<u8>) {
        while self.recs.len() <= n {
            self.recs.push(None);
        }
        self.recs[n] = Some(rec);
    }
    /// Lays out the MFT (record 0 is made here) and the boot sector.
    pub fn finish(mut self, r: &mut Rng, extra_len: u64) -> Option<Vol> {
        let geo = self.geo.clone();
        let frs = geo.frs as usize;
        let c = self.c();
        if self.recs.is_empty() {
            self.recs.push(None);
        }
        let n = self.recs.len();
        let mut mft = vec![];
        for rec in &self.recs {
            match rec {
                Some(b) => mft.extend_from_slice(b),
                None => mft.extend(r.bytes(frs)),
            }
        }
        let max_frag = r.pick(&[1usize, 2, 4, 16]);
        let first = (frs + c - 1) / c;
        let runs = self.store(r, &mft, first, max_frag, false)?;
        let total: u64 = runs.iter().map(|x| x.n).sum();
        let mft_len = (n * frs) as u64 + extra_len;
        let enc = encode_runs(r, &runs, true);
        let mut rec0 = Rec { seq: 1, links: 1, flags: 1, attrs: vec![] };
        let inst = r.u16();
        rec0.attrs.push(attr_resident(STANDARD_INFORMATION, &[], 0, inst, &r.bytes(48)));
        rec0.attrs.push(attr_non_resident(DATA, &[], 0, inst.wrapping_add(1), 0, total, c as u64, mft_len, &enc));
        let b0 = rec0.build(r, frs)?;
        let pos = runs[0].lcn.unwrap() as usize * c;
        self.dev[pos..pos + frs].copy_from_slice(&b0);
        let mut bs = vec![0u8; 512];
        bs[..3].copy_from_slice(&[0xEB, 0x52, 0x90]);
        bs[3..11].copy_from_slice(b"NTFS    ");
        p16(&mut bs, 11, geo.sector as u64);
        bs[13] = geo.spc as u8;
        p64(&mut bs, 0x28, (self.dev.len() / geo.sector as usize) as u64);
        p64(&mut bs, 0x30, runs[0].lcn.unwrap());
        p64(&mut bs, 0x38, r.u32() as u64);
        let cl = geo.frs / c as u32;
        let as_clusters = geo.frs % c as u32 == 0 && cl >= 1 && cl < 128 && (geo.frs > 4096 || r.chance(1, 2));
        bs[0x40] = if as_clusters { cl as u8 } else { (-(geo.frs.trailing_zeros() as i8)) as u8 };
        bs[0x44] = 1;
        p64(&mut bs, 0x48, self.serial);
        bs[510] = 0x55;
        bs[511] = 0xAA;
        self.dev[..512].copy_from_slice(&bs);
        Some(Vol { geo, dev: self.dev, mft_runs: runs, mft_len, serial: self.serial })
    }
}

pub fn file_name_value(r: &mut Rng, parent: u64, name: &[u16], ns: u8) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&parent.to_le_bytes());
    v.extend(r.bytes(32));
    v.extend(r.bytes(24));
    v.push(name.len() as u8);
    v.push(ns);
    v.extend(bytes16(name));
    v
}

pub const LAST: u8 = 2;
pub const SUBNODE: u8 = 1;

pub fn index_entry(fileref: u64, key: &[u8], flags: u8, vcn: Option<u64>) -> Vec<u8> {
    let mut len = (16 + key.len() + 7) / 8 * 8;
    if vcn.is_some() {
        len += 8;
    }
    let mut b = vec![0u8; len];
    p64(&mut b, 0, fileref);
    p16(&mut b, 8, len as u64);
    p16(&mut b, 10, key.len() as u64);
    b[12] = flags | if vcn.is_some() { SUBNODE } else { 0 };
    b[16..16 + key.len()].copy_from_slice(key);
    if let Some(v) = vcn {
        p64(&mut b, len - 8, v);
    }
    b
}

pub fn index_record(r: &mut Rng, size: usize, vcn: u64, entries: &[u8], sub: bool) -> Option<Vec<u8>> {
    let blocks = size / 512;
    let usa = 40;
    let first = (usa + 2 * (blocks + 1) + 7) / 8 * 8;
    if first + entries.len() > size {
        return None;
    }
    let mut b = vec![0u8; size];
    b[..4].copy_from_slice(b"INDX");
    p16(&mut b, 4, usa as u64);
    p16(&mut b, 6, blocks as u64 + 1);
    p64(&mut b, 8, r.u64());
    p64(&mut b, 16, vcn);
    p32(&mut b, 24, first as u64 - 24);
    p32(&mut b, 28, (first + entries.len()) as u64 - 24);
    p32(&mut b, 32, size as u64 - 24);
    b[36] = sub as u8;
    b[first..first + entries.len()].copy_from_slice(entries);
    protect(&mut b, r.u16());
    Some(b)
}

pub fn index_root(entries: &[u8], irs: u32, large: bool, pad: usize) -> Vec<u8> {
    let mut b = vec![0u8; 32 + pad];
    p32(&mut b, 0, FILE_NAME as u64);
    p32(&mut b, 4, 1);
    p32(&mut b, 8, irs as u64);
    b[12] = 1;
    p32(&mut b, 16, 16 + pad as u64);
    p32(&mut b, 20, (16 + pad + entries.len()) as u64);
    p32(&mut b, 24, (16 + pad + entries.len()) as u64);
    b[28] = large as u8;
    b.extend_from_slice(entries);
    b
}
