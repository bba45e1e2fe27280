//! Index trees, names, structured values, times, references, robustness, positions, lookups.
use crate::dev::{le, Dev};
use crate::img::*;
use crate::model::*;
use crate::props_a::*;
use crate::props_b::*;
use crate::rng::Rng;
use crate::{ensure, R};
use binrw::io::{self, Read, Seek, SeekFrom};
use nt_string::u16strle::U16StrLe;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- names and trees

pub type Upcase = Vec<u16>;

pub fn upcase_table(r: &mut Rng) -> Upcase {
    let mut t: Upcase = (0..=0xffffu32).map(|c| c as u16).collect();
    for c in b'a'..=b'z' {
        t[c as usize] = (c - 32) as u16;
    }
    for c in 0xe0..=0xfeu16 {
        t[c as usize] = c - 32;
    }
    for c in 0x430..=0x44fu16 {
        t[c as usize] = c - 32;
    }
    match r.below(4) {
        0 => {
            for _ in 0..40 {
                let c = r.u16();
                t[c as usize] = r.u16();
            }
        }
        1 => {
            // maps above itself and over byte boundaries
            t[0x61] = 0xffff;
            t[0x100] = 0x1;
            t[0xffff] = 0x41;
        }
        _ => {}
    }
    t
}

pub fn up_cmp(t: &Upcase, a: &[u16], b: &[u16]) -> Ordering {
    let f = |n: &[u16]| n.iter().map(|c| t[*c as usize]).collect::<Vec<u16>>();
    f(a).cmp(&f(b))
}

fn add_upcase(r: &mut Rng, vb: &mut VolB, t: &Upcase, size: usize) -> Option<()> {
    let mut data = bytes16(t);
    data.resize(size, 0);
    let runs = vb.store(r, &data, 1, 512, false)?;
    let n: u64 = runs.iter().map(|x| x.n).sum();
    let enc = encode_runs(r, &runs, true);
    let c = vb.c() as u64;
    let a = attr_non_resident(DATA, &[], 0, 2, 0, n, c, size as u64, &enc);
    let b = Rec { seq: 10, links: 1, flags: 1, attrs: vec![a] }.build(r, vb.geo.frs as usize)?;
    vb.set(10, b);
    Some(())
}

fn random_char(r: &mut Rng) -> u16 {
    match r.below(10) {
        0 => r.pick(&[0xD800u16, 0xDC00, 0xE000, 0xFFFF, 0xFFFD, 0x100, 0x1FF]),
        1 => 0xe0 + r.below(0x1f) as u16,
        2 => 0x410 + r.below(0x40) as u16,
        3..=5 => b'A' as u16 + r.below(4) as u16,
        _ => b'a' as u16 + r.below(4) as u16,
    }
}

fn random_name(r: &mut Rng) -> Vec<u16> {
    let l = match r.below(12) {
        0 => 20 + r.below(235) as usize,
        1..=3 => 1,
        _ => 1 + r.below(6) as usize,
    };
    (0..l).map(|_| random_char(r)).collect()
}

struct Tree {
    vol: Vol,
    /// name, file reference
    sorted: Vec<(Vec<u16>, u64)>,
    table: Upcase,
    dir: u64,
}

struct TB<'a> {
    r: &'a mut Rng,
    names: &'a [(Vec<u16>, u64)],
    nodes: Vec<Vec<u8>>,
    order: Vec<usize>,
    per: u64,
    room: usize,
    fail: bool,
}

impl<'a> TB<'a> {
    fn child(&mut self, lo: usize, hi: usize, depth: usize) -> u64 {
        let id = self.nodes.len();
        if id >= self.order.len() {
            self.fail = true;
            return 0;
        }
        self.nodes.push(vec![]);
        let room = self.room;
        let e = self.node(lo, hi, depth + 1, room);
        self.nodes[id] = e;
        self.order[id] as u64 * self.per
    }
    fn entry(&mut self, k: usize, vcn: Option<u64>) -> Vec<u8> {
        let (n, f) = self.names[k].clone();
        let key = file_name_value(self.r, 5, &n, self.r.clone().pick(&[0u8, 1, 2, 3]));
        let fl = if self.r.chance(1, 20) { 0x80 } else { 0 };
        index_entry(f, &key, fl, vcn)
    }
    fn gap(&mut self, lo: usize, hi: usize, depth: usize) -> Option<u64> {
        if hi > lo || (depth < 4 && self.r.chance(1, 12)) {
            Some(self.child(lo, hi, depth))
        } else {
            None
        }
    }
    fn node(&mut self, lo: usize, hi: usize, depth: usize, room: usize) -> Vec<u8> {
        let n = hi - lo;
        let size: usize = (lo..hi).map(|k| 16 + 66 + 2 * self.names[k].0.len() + 16).sum::<usize>() + 24;
        let mut out = vec![];
        if (size <= room && self.r.chance(2, 3)) || (n == 0 && self.r.chance(3, 4)) || self.fail {
            for k in lo..hi {
                out.extend(self.entry(k, None));
            }
            let v = if depth < 4 && !self.fail && self.r.chance(1, 16) { Some(self.child(hi, hi, depth)) } else { None };
            out.extend(index_entry(0, &[], LAST, v));
            return out;
        }
        // separators
        let mut seps: Vec<usize> = vec![];
        let mut used = 24;
        let tries = if depth > 8 { 8 } else { self.r.below(5) as usize };
        for _ in 0..tries {
            if n == 0 {
                break;
            }
            let k = lo + self.r.below(n as u64) as usize;
            let s = 16 + 66 + 2 * self.names[k].0.len() + 16;
            if !seps.contains(&k) && used + s <= room {
                seps.push(k);
                used += s;
            }
        }
        seps.sort();
        if depth > 12 {
            self.fail = true;
        }
        let mut at = lo;
        for k in seps {
            let v = self.gap(at, k, depth);
            out.extend(self.entry(k, v));
            at = k + 1;
        }
        let v = self.gap(at, hi, depth);
        out.extend(index_entry(0, &[], LAST, v));
        out
    }
}

/// A directory with a random, valid B-tree.
fn tree(r: &mut Rng, with_upcase: bool) -> Option<Tree> {
    let mut geo = Geo::random(r);
    if geo.cluster() > 1024 {
        geo.sector = 512;
        geo.spc = r.pick(&[1, 2]);
    }
    let c = geo.cluster() as u64;
    let frs = geo.frs as usize;
    let irs = r.pick(&[1024usize, 2048, 4096]);
    let per = irs as u64 / c;
    let table = upcase_table(r);
    let count = r.pick(&[0u64, 1, 2, 5, 12, 30, 60]);
    let mut names: Vec<(Vec<u16>, u64)> = vec![];
    for _ in 0..r.below(count + 1) {
        let n = random_name(r);
        let f = r.u64();
        names.push((n, f));
    }
    names.sort_by(|a, b| up_cmp(&table, &a.0, &b.0));
    names.dedup_by(|a, b| up_cmp(&table, &a.0, &b.0) == Ordering::Equal);
    let mut order: Vec<usize> = (0..names.len() + 24).collect();
    r.shuffle(&mut order);
    let root_room = frs.saturating_sub(360);
    let mut tb = TB { r, names: &names, nodes: vec![], order, per, room: irs - 64 - irs / 256 - 24, fail: false };
    let n = names.len();
    let root = tb.node(0, n, 0, root_room);
    if tb.fail || root.len() > root_room {
        return None;
    }
    let (nodes, order) = (tb.nodes, tb.order);
    let slots = order.iter().take(nodes.len()).max().map(|x| x + 1).unwrap_or(0);
    let mut vb = VolB::new(r, geo, (slots * irs + 140000 + 60 * frs) / c as usize + 60);
    let mut alloc = r.bytes(slots * irs);
    for (k, e) in nodes.iter().enumerate() {
        let rec = index_record(r, irs, order[k] as u64 * per, e, true)?;
        alloc[order[k] * irs..(order[k] + 1) * irs].copy_from_slice(&rec);
    }
    let large = slots > 0;
    let ir = attr_resident(INDEX_ROOT, &utf16("$I30"), 0, 1, &index_root(&root, irs as u32, large, 0));
    let dir = r.pick(&[5u64, 5, 6]);
    let mut attrs = vec![ir];
    if large {
        let frag = r.pick(&[1usize, 4, 64]);
        let first = irs.div_ceil(c as usize);
        let mut runs = vb.store(r, &alloc, first, frag, false)?;
        let mut enc = encode_runs(r, &runs, true);
        if enc.len() > 120 {
            runs = vb.store(r, &alloc, first, 100000, false)?;
            enc = encode_runs(r, &runs, true);
        }
        let t: u64 = runs.iter().map(|x| x.n).sum();
        attrs.push(attr_non_resident(INDEX_ALLOCATION, &utf16("$I30"), 0, 2, 0, t, c, alloc.len() as u64, &enc));
    }
    let b = Rec { seq: 5, links: 1, flags: 3, attrs }.build(r, frs)?;
    vb.set(dir as usize, b);
    if with_upcase {
        add_upcase(r, &mut vb, &table, 131072)?;
    }
    let vol = vb.finish(r, 0)?;
    Some(Tree { vol, sorted: names, table, dir })
}

pub fn c15(r: &mut Rng) -> R {
    let t = match tree(r, false) {
        Some(t) => t,
        None => return Ok(()),
    };
    let mut dev = Dev::new(t.vol.dev.clone());
    dev.rng = Rng::new(r.u64(), "dev", 1);
    dev.short = r.pick(&[0, 0, 4]);
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, t.dir), "directory")?;
    let ix = e2s(f.directory_index(&mut dev), "index")?;
    for pass in 0..2 {
        let mut it = ix.entries();
        let mut k = 0;
        while let Some(e) = it.next(&mut dev) {
            let e = e2s(e, "entry")?;
            ensure!(k < t.sorted.len(), "traversal returns more than the {} entries of the tree", t.sorted.len());
            let (n, fr) = &t.sorted[k];
            let key = e2s(e.key().ok_or("entry without a key")?, "key")?;
            ensure!(key.name().0 == bytes16(n), "item {} of the traversal is {:?} instead of {:?}", k, key.name().to_string_lossy(), String::from_utf16_lossy(n));
            ensure!(e.file_reference().file_record_number() == fr & 0xffff_ffff_ffff && e.file_reference().sequence_number() as u64 == fr >> 48, "file reference of item {}", k);
            k += 1;
        }
        ensure!(k == t.sorted.len(), "traversal {} returns {} of {} entries", pass, k, t.sorted.len());
        ensure!(it.next(&mut dev).is_none(), "entry after the end of the traversal");
    }
    Ok(())
}

pub fn c16(r: &mut Rng) -> R {
    let t = match tree(r, true) {
        Some(t) => t,
        None => return Ok(()),
    };
    let mut dev = Dev::new(t.vol.dev.clone());
    let mut ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    e2s(ntfs.read_upcase_table(&mut dev), "upcase table")?;
    let f = e2s(ntfs.file(&mut dev, t.dir), "directory")?;
    let ix = e2s(f.directory_index(&mut dev), "index")?;
    let mut fi = ix.finder();
    // inverse of the table
    let mut inv: BTreeMap<u16, Vec<u16>> = BTreeMap::new();
    for c in (0x20..0x500u16).chain([0xD800, 0xDC00, 0xE000, 0xFFFF, 0xFFFD]) {
        inv.entry(t.table[c as usize]).or_default().push(c);
    }
    for _ in 0..t.sorted.len().min(25) + 6 {
        let mut n = if t.sorted.is_empty() || r.chance(1, 5) { random_name(r) } else { r.pick(&t.sorted).0 };
        if r.chance(2, 3) {
            for c in n.iter_mut() {
                if let Some(v) = inv.get(&t.table[*c as usize]) {
                    *c = r.pick(v);
                }
            }
        }
        match r.below(10) {
            0 => {
                n.pop();
            }
            1 => n.push(random_char(r)),
            _ => {}
        }
        let want = t.sorted.iter().find(|x| up_cmp(&t.table, &x.0, &n) == Ordering::Equal);
        let got = match String::from_utf16(&n) {
            Ok(s) if r.chance(3, 4) => NtfsFileNameIndex::find(&mut fi, &ntfs, &mut dev, &s),
            _ => {
                let b = bytes16(&n);
                let s = U16StrLe(&b);
                fi.find(&mut dev, |k: &NtfsFileName| s.upcase_cmp(&ntfs, &k.name()))
            }
        };
        let what = String::from_utf16_lossy(&n);
        match (got, want) {
            (None, None) => {}
            (Some(Ok(e)), Some((n, fr))) => {
                let key = e2s(e.key().ok_or("no key")?, "key")?;
                ensure!(key.name().0 == bytes16(n), "{:?} instead of {:?} found", key.name().to_string_lossy(), what);
                ensure!(e.file_reference().file_record_number() == fr & 0xffff_ffff_ffff, "file reference of {:?}", what);
            }
            (None, Some(_)) => return Err(format!("{what:?} ({n:x?}) exists but is not found")),
            (Some(Ok(e)), None) => return Err(format!("{what:?} doesn't exist but {:?} is found", e.key().map(|k| k.map(|k| k.name().to_string_lossy())))),
            (Some(Err(e)), _) => return Err(format!("looking up {what:?} failed: {e:?}")),
        }
    }
    Ok(())
}

pub fn c17(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let c = geo.cluster() as usize;
    let table: Upcase = if r.chance(1, 2) { upcase_table(r) } else { (0..65536).map(|_| r.u16() & 0xf0ff).collect() };
    let mut vb = VolB::new(r, geo, 200000 / c + 80);
    let size = if r.chance(1, 6) { r.near(&[131072]) as usize } else { 131072 };
    if add_upcase(r, &mut vb, &table, size).is_none() {
        return Ok(());
    }
    let vol = match vb.finish(r, 0) {
        Some(v) => v,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    dev.rng = Rng::new(r.u64(), "dev", 1);
    dev.short = r.pick(&[0, 0, 6]);
    let mut ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    match ntfs.read_upcase_table(&mut dev) {
        Ok(()) => ensure!(size == 131072, "an uppercase table of {} bytes was accepted", size),
        Err(e) => {
            ensure!(size != 131072, "uppercase table refused: {:?}", e);
            return Ok(());
        }
    }
    for _ in 0..60 {
        let a = if r.chance(1, 2) { random_name(r) } else { (0..r.below(6)).map(|_| r.u16()).collect() };
        let b = match r.below(4) {
            0 => random_name(r),
            1 => a[..r.below(a.len() as u64 + 1) as usize].to_vec(),
            2 => a.iter().map(|c| table[*c as usize]).collect(),
            _ => {
                let mut b = a.clone();
                if !b.is_empty() {
                    let k = r.below(b.len() as u64) as usize;
                    b[k] = random_char(r);
                }
                b
            }
        };
        let want = up_cmp(&table, &a, &b);
        let (x, y) = (bytes16(&a), bytes16(&b));
        let (u, v) = (U16StrLe(&x), U16StrLe(&y));
        ensure!(u.upcase_cmp(&ntfs, &v) == want, "{:x?} against {:x?} is not {:?}", a, b, want);
        ensure!(v.upcase_cmp(&ntfs, &u) == want.reverse(), "{:x?} against {:x?} is not {:?}", b, a, want.reverse());
        if let Ok(s) = String::from_utf16(&b) {
            ensure!(u.upcase_cmp(&ntfs, &s.as_str()) == want, "{:x?} against {:?} is not {:?}", a, s, want);
            ensure!(s.as_str().upcase_cmp(&ntfs, &u) == want.reverse(), "{:?} against {:x?} is not {:?}", s, a, want.reverse());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- structured values

fn with_value(r: &mut Rng, ty: u32, v: &[u8], resident: bool) -> Option<Vol> {
    let geo = Geo::random(r);
    let frs = geo.frs as usize;
    let c = geo.cluster() as u64;
    let mut vb = VolB::new(r, geo, 60);
    let a = if resident {
        attr_resident(ty, &[], 0, 1, v)
    } else {
        let runs = vb.store(r, v, 1, 1, false)?;
        let t: u64 = runs.iter().map(|x| x.n).sum();
        let enc = encode_runs(r, &runs, true);
        attr_non_resident(ty, &[], 0, 1, 0, t, c, v.len() as u64, &enc)
    };
    let b = Rec { seq: 1, links: 1, flags: 1, attrs: vec![a] }.build(r, frs)?;
    vb.set(1, b);
    vb.finish(r, 0)
}

const FILE_ATTRS: u64 = 0x1 | 2 | 4 | 0x20 | 0x40 | 0x80 | 0x100 | 0x200 | 0x400 | 0x800 | 0x1000 | 0x2000 | 0x4000 | 0x1000_0000;

fn file_name_ok(v: &[u8]) -> bool {
    v.len() >= 68 && 66 + 2 * v[64] as usize <= v.len() && v[65] <= 3
}
fn check_file_name(n: &NtfsFileName, v: &[u8]) -> R {
    ensure!(n.parent_directory_reference().file_record_number() == le(v, 0, 6), "parent of a file name");
    ensure!(n.parent_directory_reference().sequence_number() as u64 == le(v, 6, 2), "parent of a file name");
    ensure!(n.creation_time().nt_timestamp() == le(v, 8, 8), "creation time");
    ensure!(n.modification_time().nt_timestamp() == le(v, 16, 8), "modification time");
    ensure!(n.mft_record_modification_time().nt_timestamp() == le(v, 24, 8), "record modification time");
    ensure!(n.access_time().nt_timestamp() == le(v, 32, 8), "access time");
    ensure!(n.allocated_size() == le(v, 40, 8), "allocated size");
    ensure!(n.data_size() == le(v, 48, 8), "data size");
    ensure!(n.file_attributes().bits() as u64 == le(v, 56, 4) & FILE_ATTRS, "file attributes");
    ensure!(n.is_directory() == (le(v, 56, 4) & 0x1000_0000 != 0), "is_directory");
    ensure!(n.name_length() == 2 * v[64] as usize, "name length");
    ensure!(n.namespace() as u8 == v[65], "namespace");
    ensure!(n.name().0 == &v[66..66 + 2 * v[64] as usize], "name");
    Ok(())
}
fn check_guid(g: Option<&NtfsGuid>, v: &[u8], at: usize, what: &str) -> R {
    if v.len() < at + 16 {
        ensure!(g.is_none(), "{} of a {} byte value", what, v.len());
        return Ok(());
    }
    let g = g.ok_or(format!("{what} of a {} byte value is missing", v.len()))?;
    ensure!(g.data1 as u64 == le(v, at, 4) && g.data2 as u64 == le(v, at + 4, 2) && g.data3 as u64 == le(v, at + 6, 2) && g.data4[..] == v[at + 8..at + 16], "{} differs", what);
    Ok(())
}
fn check_std(n: &NtfsStandardInformation, v: &[u8]) -> R {
    ensure!(n.creation_time().nt_timestamp() == le(v, 0, 8), "creation time");
    ensure!(n.modification_time().nt_timestamp() == le(v, 8, 8), "modification time");
    ensure!(n.mft_record_modification_time().nt_timestamp() == le(v, 16, 8), "record modification time");
    ensure!(n.access_time().nt_timestamp() == le(v, 24, 8), "access time");
    ensure!(n.file_attributes().bits() as u64 == le(v, 32, 4) & FILE_ATTRS, "file attributes");
    let x = v.len() >= 72;
    let f = |at: usize, n: usize| if x { Some(le(v, at, n)) } else { None };
    ensure!(n.maximum_versions().map(u64::from) == f(36, 4), "maximum versions");
    ensure!(n.version().map(u64::from) == f(40, 4), "version");
    ensure!(n.class_id().map(u64::from) == f(44, 4), "class id");
    ensure!(n.owner_id().map(u64::from) == f(48, 4), "owner id");
    ensure!(n.security_id().map(u64::from) == f(52, 4), "security id");
    ensure!(n.quota_charged() == f(56, 8), "quota");
    ensure!(n.usn() == f(64, 8), "usn");
    Ok(())
}

fn judge<T>(got: ntfs::Result<T>, ok: bool, len: usize, what: &str) -> Result<Option<T>, String> {
    match got {
        Ok(x) => {
            ensure!(ok, "{} accepted with a value of {} bytes", what, len);
            Ok(Some(x))
        }
        Err(e) => {
            ensure!(!ok, "{} refused with a value of {} bytes: {:?}", what, len, e);
            Ok(None)
        }
    }
}

pub fn c18(r: &mut Rng) -> R {
    let resident = r.chance(3, 4);
    let kind = r.below(5);
    let (ty, marks): (u32, &[u64]) = match kind {
        0 => (FILE_NAME, &[66, 67, 68, 70, 100, 576]),
        1 => (0x10, &[48, 72, 36, 0]),
        2 => (OBJECT_ID, &[16, 32, 48, 64, 0]),
        3 => (VOLUME_INFORMATION, &[12, 0, 16]),
        _ => (VOLUME_NAME, &[0, 256, 10, 300]),
    };
    let l = r.near(marks).min(700) as usize;
    let mut v = r.bytes(l);
    if kind == 0 && l > 65 {
        v[65] = r.pick(&[0, 1, 2, 3, 4, 0xff]);
        let room = (l - 66) / 2;
        v[64] = r.near(&[room as u64, 0, 1, 255]) as u8;
        if r.chance(1, 2) {
            v[65] = r.below(4) as u8;
            v[64] = room.min(255) as u8;
        }
    }
    let vol = match with_value(r, ty, &v, resident) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    dev.rng = Rng::new(r.u64(), "dev", 1);
    dev.short = r.pick(&[0, 0, 6]);
    dev.intr = r.pick(&[0, 0, 0, 3]);
    let ntfs = loop {
        match Ntfs::new(&mut dev) {
            Ok(n) => break n,
            Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(format!("boot: {e:?}")),
        }
    };
    let f = loop {
        match ntfs.file(&mut dev, 1) {
            Ok(n) => break n,
            Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(format!("file: {e:?}")),
        }
    };
    dev.intr = 0;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    // the wrong type is refused
    if ty != VOLUME_NAME {
        ensure!(a.structured_value::<_, NtfsVolumeName>(&mut dev).is_err(), "volume name of another attribute");
    }
    if ty != FILE_NAME {
        ensure!(a.structured_value::<_, NtfsFileName>(&mut dev).is_err(), "file name of another attribute");
    }
    match kind {
        0 => {
            if let Some(n) = judge(a.structured_value::<_, NtfsFileName>(&mut dev), file_name_ok(&v), l, "file name")? {
                check_file_name(&n, &v)?;
            }
            use ntfs::indexes::NtfsIndexEntryKey;
            if let Some(n) = judge(NtfsFileName::key_from_slice(&v, f.position()), file_name_ok(&v), l, "file name key")? {
                check_file_name(&n, &v)?;
            }
        }
        1 => {
            if let Some(n) = judge(a.structured_value::<_, NtfsStandardInformation>(&mut dev), l >= 48, l, "standard information")? {
                check_std(&n, &v)?;
            }
            if let Some(n) = judge(a.resident_structured_value::<NtfsStandardInformation>(), l >= 48 && resident, l, "standard information")? {
                check_std(&n, &v)?;
            }
            if let Some(n) = judge(f.info(), l >= 48 && resident, l, "standard information of the file")? {
                check_std(&n, &v)?;
            }
        }
        2 => {
            for _ in 0..2 {
                let x = if r.chance(1, 2) {
                    judge(a.structured_value::<_, NtfsObjectId>(&mut dev), l >= 16, l, "object id")?
                } else {
                    judge(a.resident_structured_value::<NtfsObjectId>(), l >= 16 && resident, l, "object id")?
                };
                if let Some(n) = x {
                    check_guid(Some(n.object_id()), &v, 0, "object id")?;
                    check_guid(n.birth_volume_id(), &v, 16, "birth volume id")?;
                    check_guid(n.birth_object_id(), &v, 32, "birth object id")?;
                    check_guid(n.domain_id(), &v, 48, "domain id")?;
                }
            }
        }
        3 => {
            for _ in 0..2 {
                let x = if r.chance(1, 2) {
                    judge(a.structured_value::<_, NtfsVolumeInformation>(&mut dev), l >= 12, l, "volume information")?
                } else {
                    judge(a.resident_structured_value::<NtfsVolumeInformation>(), l >= 12 && resident, l, "volume information")?
                };
                if let Some(n) = x {
                    ensure!(n.major_version() == v[8] && n.minor_version() == v[9], "version");
                    ensure!(n.flags().bits() as u64 == le(&v, 10, 2) & 0xC03F, "volume flags");
                }
            }
        }
        _ => {
            for _ in 0..2 {
                let x = if r.chance(1, 2) {
                    judge(a.structured_value::<_, NtfsVolumeName>(&mut dev), l <= 256, l, "volume name")?
                } else {
                    judge(a.resident_structured_value::<NtfsVolumeName>(), l <= 256 && resident, l, "volume name")?
                };
                if let Some(n) = x {
                    ensure!(n.name().0 == &v[..] && n.name_length() == l, "volume name");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- times, references

const EPOCH: i128 = (369 * 365 + 89) * 86400 * 10_000_000;

pub fn c19(r: &mut Rng) -> R {
    use std::time::{Duration, SystemTime};
    use time::OffsetDateTime;
    for _ in 0..50 {
        let nt = if r.chance(1, 3) { r.near(&[0, EPOCH as u64, u64::MAX, 1 << 63, 132539328000000000]) } else { r.wide() };
        let t = NtfsTime::from(nt);
        ensure!(t.nt_timestamp() == nt, "timestamp {} != {}", t.nt_timestamp(), nt);
        let dt = OffsetDateTime::from(t);
        ensure!(dt.unix_timestamp_nanos() == (nt as i128 - EPOCH) * 100, "{} converts to {:?}", nt, dt);
        let back = NtfsTime::try_from(dt).map_err(|e| format!("{nt} doesn't convert back: {e:?}"))?;
        ensure!(back.nt_timestamp() == nt, "{} converts back to {}", nt, back.nt_timestamp());
        // any point in time
        let nanos = match r.below(4) {
            0 => -EPOCH * 100 + r.wide() as i64 as i128,
            1 => (u64::MAX as i128 - EPOCH) * 100 + (r.below(400) as i128 - 200),
            2 => -EPOCH * 100 + (r.below(400) as i128 - 200),
            _ => (r.wide() as i64 as i128) * r.pick(&[1, 3, 100, 251]) as i128,
        };
        if let Ok(dt) = OffsetDateTime::from_unix_timestamp_nanos(nanos) {
            let want = nanos / 100 + EPOCH;
            match NtfsTime::try_from(dt) {
                Ok(t) => ensure!(t.nt_timestamp() as i128 == want, "{} converts to {} instead of {}", nanos, t.nt_timestamp(), want),
                Err(_) => ensure!(want < 0 || want > u64::MAX as i128, "{} doesn't convert, but should be {}", nanos, want),
            }
        }
        let secs = if r.chance(1, 2) { r.near(&[0, (u64::MAX as i128 / 10_000_000) as u64, ((u64::MAX as i128 - EPOCH) / 10_000_000) as u64]) } else { r.wide() };
        let d = Duration::new(secs.min(i64::MAX as u64), r.near(&[0, 999_999_999, 99, 100]).min(999_999_999) as u32);
        for neg in [false, true] {
            let st = if neg { SystemTime::UNIX_EPOCH.checked_sub(d) } else { SystemTime::UNIX_EPOCH.checked_add(d) };
            let Some(st) = st else { continue };
            let want = d.as_nanos() as i128 / 100 + EPOCH;
            match NtfsTime::try_from(st) {
                Ok(t) => ensure!((!neg || d.is_zero()) && t.nt_timestamp() as i128 == want, "{:?} (before 1970: {}) converts to {}", d, neg, t.nt_timestamp()),
                Err(_) => ensure!((neg && !d.is_zero()) || want > u64::MAX as i128, "{:?} (before 1970: {}) doesn't convert", d, neg),
            }
        }
    }
    Ok(())
}

pub fn c20(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let frs = geo.frs as usize;
    let refs: Vec<u64> = (0..4).map(|_| if r.chance(1, 2) { r.u64() } else { r.wide() }).collect();
    let mut ents = vec![];
    for x in &refs[..2] {
        ents.extend(index_entry(*x, &[1, 2, 3], 0, None));
    }
    ents.extend(index_entry(0, &[], LAST, None));
    let seq = r.u16();
    let target = 2u64;
    let list = [list_entry(DATA, &[], 0, refs[2], 1, 0), list_entry(DATA, &[], 1, target | (r.u16() as u64) << 48, 1, 0)].concat();
    let mut vb = VolB::new(r, geo, 40);
    let a = attr_resident(INDEX_ROOT, &[], 0, 1, &index_root(&ents, 4096, false, 0));
    let l = attr_resident(ATTRIBUTE_LIST, &[], 0, 2, &list);
    let n = attr_resident(FILE_NAME, &[], 0, 3, &file_name_value(r, refs[3], &utf16("x"), 1));
    let b = Rec { seq: 1, links: 1, flags: 1, attrs: vec![l, n, a] }.build(r, frs).ok_or("layout")?;
    vb.set(1, b);
    let b = Rec { seq, links: 1, flags: 1, attrs: vec![] }.build(r, frs).ok_or("layout")?;
    vb.set(2, b);
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let mut got: Vec<NtfsFileReference> = vec![];
    let mut lists = vec![];
    for a in f.attributes_raw() {
        let a = e2s(a, "attribute")?;
        match a.ty().map_err(|e| format!("{e:?}"))? {
            NtfsAttributeType::IndexRoot => {
                let root = e2s(a.resident_structured_value::<NtfsIndexRoot>(), "root")?;
                for e in e2s(root.entries::<RawIndex>(), "entries")?.take(2) {
                    got.insert(0, e2s(e, "entry")?.file_reference());
                }
            }
            NtfsAttributeType::AttributeList => {
                let l = e2s(a.structured_value::<_, NtfsAttributeList>(&mut dev), "list")?;
                let mut it = l.entries();
                while let Some(e) = it.next(&mut dev) {
                    let e = e2s(e, "list entry")?;
                    lists.push(e.base_file_reference());
                    if lists.len() == 2 {
                        let g = e2s(e.to_file(&ntfs, &mut dev), "referenced file")?;
                        ensure!(g.file_record_number() == target && g.sequence_number() == seq, "referenced file");
                        let g = e2s(e.base_file_reference().to_file(&ntfs, &mut dev), "referenced file")?;
                        ensure!(g.file_record_number() == target && g.sequence_number() == seq, "referenced file");
                    }
                }
            }
            _ => {
                let n = e2s(a.structured_value::<_, NtfsFileName>(&mut dev), "name")?;
                lists.push(n.parent_directory_reference());
            }
        }
    }
    got.reverse();
    let all = [(got[0], refs[0]), (got[1], refs[1]), (lists[0], refs[2]), (lists[2], refs[3])];
    for (g, w) in all {
        ensure!(g.file_record_number() == w & 0xffff_ffff_ffff, "record number of {:#x} is {:#x}", w, g.file_record_number());
        ensure!(g.sequence_number() as u64 == w >> 48, "sequence number of {:#x} is {:#x}", w, g.sequence_number());
    }
    Ok(())
}

/// A reader over bytes with short reads and failures, using the provided read_exact.
struct Odd {
    data: Vec<u8>,
    at: usize,
    r: Rng,
    fail_at: usize,
}
impl NtfsReadSeek for Odd {
    fn read<T: Read + Seek>(&mut self, _fs: &mut T, buf: &mut [u8]) -> ntfs::Result<usize> {
        if self.r.chance(1, 4) {
            return Err(NtfsError::Io(io::Error::new(io::ErrorKind::Interrupted, "again")));
        }
        if self.at >= self.fail_at {
            return Err(NtfsError::Io(io::Error::new(io::ErrorKind::PermissionDenied, "no")));
        }
        let n = buf.len().min(self.data.len() - self.at).min(self.fail_at - self.at);
        let n = if n > 1 { 1 + self.r.below(n as u64) as usize } else { n };
        let n = n.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
    fn seek<T: Read + Seek>(&mut self, _fs: &mut T, _pos: SeekFrom) -> ntfs::Result<u64> {
        Ok(0)
    }
    fn stream_position(&self) -> u64 {
        self.at as u64
    }
}

pub fn c21(r: &mut Rng) -> R {
    for _ in 0..8 {
        let l = r.below(60) as usize;
        let fail = r.chance(1, 3);
        let fail_at = if fail { r.below(l as u64 + 1) as usize } else { usize::MAX };
        let mut o = Odd { data: r.bytes(l), at: 0, r: Rng::new(r.u64(), "odd", 0), fail_at };
        let want = r.below(l as u64 + 6) as usize;
        let mut buf = vec![0u8; want];
        let mut dev = Dev::new(vec![]);
        match o.read_exact(&mut dev, &mut buf) {
            Ok(()) => ensure!(want <= l.min(fail_at) && buf[..] == o.data[..want] && o.at == want, "read_exact of {} of {} bytes", want, l),
            Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::UnexpectedEof => ensure!(want > l && fail_at >= l, "premature end"),
            Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::PermissionDenied => ensure!(want > fail_at, "failure at {} reported for {} bytes", fail_at, want),
            Err(e) => return Err(format!("read_exact: {e:?}")),
        }
    }
    // the same with the readers of this crate
    let geo = Geo::random(r);
    let c = geo.cluster() as u64;
    let mut vb = VolB::new(r, geo, 60);
    let k = 1 + r.below(6);
    let (runs, len) = value_case(r, &mut vb, k, false).ok_or("layout")?;
    let enc = encode_runs(r, &runs, true);
    let (vol, _) = match vol_with_runs(r, vb, &enc, len, false) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    let mut v = e2s(a.value(&mut dev), "value")?;
    let m = Model::of_runs(len, &runs, c, false);
    dev.rng = Rng::new(r.u64(), "dev", 2);
    dev.short = 8;
    dev.intr = r.pick(&[0, 6]);
    for _ in 0..8 {
        let p = v.stream_position();
        let lim = m.limit();
        let want = if r.chance(1, 4) { r.near(&[lim.saturating_sub(p)]).min(1 << 17) } else { r.below(3000) };
        let mut buf = vec![0u8; want as usize];
        match v.read_exact(&mut dev, &mut buf) {
            Ok(()) => {
                ensure!(want == 0 || p + want <= lim, "read_exact of {} bytes at {} of {}", want, p, lim);
                m.check_read(&dev, p, want as usize, &Ok(want as usize), &buf, v.stream_position(), false)?;
            }
            Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::UnexpectedEof => ensure!(p + want > lim, "premature end at {} of {} for {} bytes", p, lim, want),
            Err(e) => return Err(format!("read_exact: {e:?}")),
        }
        if r.chance(1, 3) {
            let t = r.below(lim + 2);
            loop {
                match v.seek(&mut dev, SeekFrom::Start(t)) {
                    Ok(_) => break,
                    Err(NtfsError::Io(e)) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => return Err(format!("seek: {e:?}")),
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- robustness

/// A device that stops answering after a number of operations, so that a damaged tree can't keep us here.
struct Budget {
    d: Dev,
    left: u64,
}
impl Read for Budget {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "budget"));
        }
        self.left -= 1;
        self.d.read(buf)
    }
}
impl Seek for Budget {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.d.seek(p)
    }
}

fn walk_value<V: NtfsReadSeek>(r: &mut Rng, v: &mut V, fs: &mut Budget) {
    for _ in 0..8 {
        match r.below(4) {
            0 => {
                let s = match r.below(3) {
                    0 => SeekFrom::Start(r.wide()),
                    1 => SeekFrom::Current(r.wide() as i64),
                    _ => SeekFrom::End(r.wide() as i64),
                };
                let _ = v.seek(fs, s);
            }
            1 => {
                let s = r.below(8000);
                let _ = v.seek(fs, SeekFrom::Start(s));
            }
            _ => {
                let mut b = vec![0; r.below(3000) as usize];
                let _ = v.read(fs, &mut b);
            }
        }
        let _ = v.stream_position();
    }
}

fn walk_attr(r: &mut Rng, a: &NtfsAttribute, fs: &mut Budget, ntfs: &Ntfs) {
    let _ = (a.attribute_length(), a.flags(), a.instance(), a.is_resident(), a.name_length(), a.position(), a.value_length());
    let _ = a.name().map(|n| n.to_string_lossy());
    let _ = a.ty().map(|t| t.to_string());
    if let Ok(mut v) = a.value(fs) {
        let _ = (v.data_position(), v.len(), v.is_empty());
        walk_value(r, &mut v, fs);
        match v {
            NtfsAttributeValue::NonResident(n) => {
                for d in n.data_runs().take(60) {
                    if let Ok(mut d) = d {
                        let _ = (d.data_position(), d.allocated_size(), d.stream_position());
                        if r.chance(1, 3) {
                            walk_value(r, &mut d, fs);
                        }
                    }
                }
            }
            NtfsAttributeValue::Resident(x) => {
                let _ = x.data();
            }
            _ => {}
        }
    }
    if let Ok(n) = a.structured_value::<_, NtfsFileName>(fs) {
        let _ = (n.namespace(), n.name().to_string_lossy(), n.is_directory(), n.name_length());
    }
    if let Ok(n) = a.structured_value::<_, NtfsStandardInformation>(fs) {
        let _ = (n.usn(), n.creation_time());
        if n.creation_time().nt_timestamp() > 0 {
            let _ = time::OffsetDateTime::from(n.creation_time());
        }
    }
    let _ = a.structured_value::<_, NtfsObjectId>(fs).map(|o| o.object_id().to_string());
    let _ = a.structured_value::<_, NtfsVolumeInformation>(fs).map(|o| o.flags());
    let _ = a.structured_value::<_, NtfsVolumeName>(fs).map(|o| o.name().to_string_lossy());
    let _ = a.resident_structured_value::<NtfsObjectId>();
    let _ = a.resident_structured_value::<NtfsStandardInformation>();
    if let Ok(l) = a.structured_value::<_, NtfsAttributeList>(fs) {
        let _ = l.position();
        let mut it = l.entries();
        for _ in 0..40 {
            match it.next(fs) {
                None => break,
                Some(Err(_)) => {}
                Some(Ok(e)) => {
                    let _ = (e.name().to_string_lossy(), e.ty().is_ok(), e.lowest_vcn(), e.list_entry_length(), e.position(), e.instance());
                    if let Ok(f) = e.to_file(ntfs, fs) {
                        if f.file_record_number() == e.base_file_reference().file_record_number() {
                            let _ = e.to_attribute(&f).map(|a| a.value_length());
                        }
                    }
                }
            }
        }
    }
    if let Ok(x) = a.resident_structured_value::<NtfsIndexRoot>() {
        let _ = (x.index_allocated_size(), x.index_data_size(), x.index_record_size(), x.is_large_index());
        if let Ok(es) = x.entries::<NtfsFileNameIndex>() {
            for e in es.take(60) {
                if let Ok(e) = e {
                    let _ = (e.key().is_some(), e.subnode_vcn().is_some(), e.file_reference().file_record_number(), e.key_length());
                }
            }
        }
        if let Ok(es) = x.entries::<DataIndex>() {
            for e in es.take(60) {
                if let Ok(e) = e {
                    let _ = e.data();
                }
            }
        }
    }
    if let Ok(x) = a.structured_value::<_, NtfsIndexAllocation>(fs) {
        let size = r.pick(&[0u32, 39, 40, 512, 1024, 4096, 8192, 1000]);
        let mut it = x.records(size);
        for _ in 0..20 {
            match it.next(fs) {
                None => break,
                Some(Ok(x)) => {
                    let _ = (x.vcn(), x.has_subnodes(), x.index_allocated_size());
                    if let Ok(es) = x.entries::<RawIndex>() {
                        for e in es.take(60) {
                            let _ = e.map(|e| (e.key(), e.subnode_vcn()));
                        }
                    }
                }
                Some(Err(_)) => {}
            }
        }
        let v = r.wide() as i64;
        let _ = x.record_from_vcn(fs, size, Vcn::from(v));
        let v = r.below(9) as i64;
        let _ = x.record_from_vcn(fs, size, Vcn::from(v));
    }
}

fn walk(r: &mut Rng, dev: Vec<u8>, recs: u64) {
    let mut fs = Budget { d: Dev::new(dev), left: 4000 };
    let Ok(mut ntfs) = Ntfs::new(&mut fs) else { return };
    let up = ntfs.read_upcase_table(&mut fs).is_ok();
    fs.left = 4000;
    let _ = ntfs.volume_info(&mut fs);
    let _ = ntfs.volume_name(&mut fs).map(|v| v.map(|v| v.name().to_string_lossy()));
    let _ = (ntfs.size(), ntfs.serial_number(), ntfs.mft_position());
    for n in 0..recs + 1 {
        let Ok(f) = ntfs.file(&mut fs, n) else { continue };
        let _ = (f.allocated_size(), f.data_size(), f.flags(), f.hard_link_count(), f.is_directory(), f.sequence_number(), f.position());
        let _ = f.info();
        let _ = f.name(&mut fs, None, None);
        let _ = f.name(&mut fs, Some(NtfsFileNamespace::Dos), Some(5));
        let _ = f.data(&mut fs, "");
        if up {
            let _ = f.data(&mut fs, "sTream");
        }
        for a in f.attributes_raw().take(30) {
            if let Ok(a) = a {
                walk_attr(r, &a, &mut fs, &ntfs);
            }
        }
        let mut it = f.attributes();
        for _ in 0..40 {
            match it.next(&mut fs) {
                None => break,
                Some(Ok(i)) => {
                    if let Ok(a) = i.to_attribute() {
                        if r.chance(1, 2) {
                            walk_attr(r, &a, &mut fs, &ntfs);
                        }
                    }
                }
                Some(Err(_)) => {}
            }
        }
        fs.left = 1000;
        if let Ok(ix) = f.directory_index(&mut fs) {
            let mut it = ix.entries();
            for _ in 0..80 {
                match it.next(&mut fs) {
                    None => break,
                    Some(Ok(e)) => {
                        let _ = e.key().map(|k| k.map(|k| k.name().to_string_lossy()));
                    }
                    Some(Err(_)) => {}
                }
            }
            fs.left = 300;
            if up {
                let mut fi = ix.finder();
                let _ = NtfsFileNameIndex::find(&mut fi, &ntfs, &mut fs, r.pick(&["a", "abcd", "zz"]));
            }
        }
        fs.left = 2000;
    }
}

pub fn c22(r: &mut Rng) -> R {
    // a structured volume, damaged in a few places after the protection has been taken off
    let (mut dev, recs, frs, at): (Vec<u8>, u64, usize, Vec<u64>) = match r.below(3) {
        0 => match tree(r, r.clone().chance(1, 4)) {
            Some(t) => {
                let n = t.vol.mft_len / t.vol.geo.frs as u64;
                let at = (0..n).map(|k| t.vol.rec_pos(k)).collect();
                (t.vol.dev.clone(), n, t.vol.geo.frs as usize, at)
            }
            None => return Ok(()),
        },
        _ => {
            let geo = Geo::random(r);
            let frs = geo.frs as usize;
            let c = geo.cluster() as u64;
            let mut vb = VolB::new(r, geo, 120);
            for n in 1..5usize {
                let mut attrs = vec![];
                for _ in 0..1 + r.below(4) {
                    let name = if r.chance(1, 3) { utf16("$I30") } else { vec![] };
                    let ents = random_entries(r, 300);
                    let v: (u32, Vec<u8>) = match r.below(9) {
                        0 => (0x10, r.bytes(72)),
                        1 => (FILE_NAME, file_name_value(r, 5, &utf16("name"), 1)),
                        2 => (OBJECT_ID, r.bytes(64)),
                        3 => (VOLUME_INFORMATION, r.bytes(12)),
                        4 => (VOLUME_NAME, r.bytes(20)),
                        5 => (INDEX_ROOT, index_root(&ents, 1024, true, 0)),
                        6 => {
                            let mut l = vec![];
                            for _ in 0..r.below(5) {
                                let x = r.range(1, 5) | 1 << 48;
                                let ty = r.pick(&[DATA, DATA, FILE_NAME, INDEX_ALLOCATION]);
                                l.extend(list_entry(ty, &name, r.below(3), x, r.below(3) as u16, 0));
                            }
                            (ATTRIBUTE_LIST, l)
                        }
                        _ => (0, vec![]),
                    };
                    let inst = r.below(3) as u16;
                    if v.0 != 0 && r.chance(4, 5) {
                        attrs.push(attr_resident(v.0, &name, 0, inst, &v.1));
                    } else {
                        let ty = if v.0 != 0 { v.0 } else { r.pick(&[DATA, INDEX_ALLOCATION, ATTRIBUTE_LIST]) };
                        let data = if v.0 != 0 { v.1 } else { r.bytes(2000) };
                        if let Some(runs) = vb.store(r, &data, 1, 2, false) {
                            let enc = encode_runs(r, &runs, true);
                            attrs.push(attr_non_resident(ty, &name, 0, inst, 0, 1, c, data.len() as u64, &enc));
                        }
                    }
                }
                if let Some(b) = (Rec { seq: 1, links: 1, flags: r.u16() & 3 | 2, attrs }).build(r, frs) {
                    vb.set(n, b);
                }
            }
            let Some(vol) = vb.finish(r, 0) else { return Ok(()) };
            let n = vol.mft_len / frs as u64;
            let at = (0..n).map(|k| vol.rec_pos(k)).collect();
            (vol.dev, n, frs, at)
        }
    };
    for _ in 0..r.below(5) {
        let k = r.below(dev.len() as u64) as usize;
        dev[k] = r.u8();
    }
    for (k, p) in at.iter().enumerate() {
        if !r.chance(1, 2) || (k == 0 && !r.chance(1, 4)) {
            continue;
        }
        let p = *p as usize;
        if p + frs > dev.len() || &dev[p..p + 4] != b"FILE" {
            continue;
        }
        let rec = dev[p..p + frs].to_vec();
        if fixup_model(&rec).map_or(true, |x| x.is_none()) {
            continue;
        }
        let mut raw = unprotect(&rec);
        for _ in 0..1 + r.below(4) {
            // mostly in the attribute headers
            let mut offs = vec![];
            let mut q = le(&raw, 20, 2) as usize;
            while let Tile::Attr(a, l) = tile(&raw, q) {
                offs.push((a, l));
                q += l;
                if offs.len() > 40 {
                    break;
                }
            }
            if offs.is_empty() || r.chance(1, 8) {
                let at = r.below(60) as usize;
                raw[at] = r.u8();
                continue;
            }
            let (a, l) = r.pick(&offs);
            let at = a + r.below(l as u64) as usize;
            let n = r.pick(&[1usize, 1, 2, 4, 8]);
            if at + n <= raw.len() {
                let v = r.near(&[0, l as u64, u64::MAX, 16, 24, 1 << 31, 1 << 63, raw.len() as u64]);
                put(&mut raw, at, n, v);
            }
        }
        let cnt = le(&raw, 6, 2) as usize;
        let off = le(&raw, 4, 2) as usize;
        if cnt >= 1 && off + 2 * cnt <= frs && (cnt - 1) * 512 <= frs {
            protect(&mut raw, r.u16());
        }
        dev[p..p + frs].copy_from_slice(&raw);
    }
    if r.chance(1, 6) {
        let k = r.below(dev.len() as u64) as usize;
        dev.truncate(k);
    }
    if r.chance(1, 8) {
        let k = r.range(11, 0x48) as usize;
        if k < dev.len() {
            dev[k] = r.u8();
        }
    }
    walk(r, dev, recs);
    Ok(())
}

// ---------------------------------------------------------------- positions

fn at_pos(dev: &Dev, p: NtfsPosition, want: &[u8], what: &str) -> R {
    let p = p.value().ok_or(format!("{what}: no position reported"))?.get() as usize;
    ensure!(p + want.len() <= dev.data.len(), "{}: position {} is outside of the volume", what, p);
    ensure!(&dev.data[p..p + want.len()] == want, "{}: the bytes at the reported position {} are {:02x?} instead of {:02x?}", what, p, &dev.data[p..p + want.len()], want);
    Ok(())
}

pub fn c23(r: &mut Rng) -> R {
    // 4096 byte clusters, so no record is split; values stay in the first 500 bytes of the record, so no sector tail interferes
    let geo = Geo { sector: 512, spc: 8, frs: r.pick(&[1024u32, 2048, 4096]) };
    let frs = geo.frs as usize;
    let c = geo.cluster() as u64;
    let mut vb = VolB::new(r, geo, 40);
    let list = [list_entry(DATA, &utf16("ab"), 0, 7, 1, 0), list_entry(DATA, &[], 1, r.u64(), 2, 8), list_entry(FILE_NAME, &[], 1, r.u64(), 2, 0)].concat();
    let big = (0..r.range(1, 120)).flat_map(|k| list_entry(DATA, &utf16("abc"), k, k << 3, 1, 0)).collect::<Vec<u8>>();
    let name = file_name_value(r, 5, &utf16("abc"), 1);
    let mut ents = index_entry(r.u64(), &name, 0, None);
    ents.extend(index_entry(0, &[], LAST, None));
    let root = index_root(&ents, 4096, false, r.pick(&[0, 8]));
    let large = r.chance(1, 2);
    let mut attrs = vec![];
    if large {
        let runs = vb.store(r, &big, 1, 1, false).ok_or("layout")?;
        let enc = encode_runs(r, &runs, true);
        attrs.push(attr_non_resident(ATTRIBUTE_LIST, &[], 0, 2, 0, runs.iter().map(|x| x.n).sum(), c, big.len() as u64, &enc));
    } else {
        attrs.push(attr_resident(ATTRIBUTE_LIST, &[], 0, 2, &list));
    }
    attrs.push(attr_resident(INDEX_ROOT, &[], 0, 3, &root));
    let b = Rec { seq: 1, links: 1, flags: 3, attrs }.build(r, frs).ok_or("layout")?;
    let raw = unprotect(&b);
    ensure!(le(&raw, 24, 4) < 508, "layout");
    vb.set(1, b);
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let mft = le(&dev.data, 0x30, 8) * c;
    ensure!(ntfs.mft_position().value().map(|x| x.get()) == Some(mft), "MFT position");
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    at_pos(&dev, f.position(), &raw[..4], "file record")?;
    ensure!(f.position().value().map(|x| x.get()) == vol.mft_at(frs as u64), "file record position");
    let mut at = le(&raw, 20, 2) as usize;
    for a in f.attributes_raw() {
        let a = e2s(a, "attribute")?;
        at_pos(&dev, a.position(), &raw[at..at + 24], "attribute")?;
        match a.ty().map_err(|e| format!("{e:?}"))? {
            NtfsAttributeType::AttributeList => {
                let l = e2s(a.structured_value::<_, NtfsAttributeList>(&mut dev), "list")?;
                let src = if large { &big } else { &list };
                at_pos(&dev, l.position(), &src[..8], "attribute list")?;
                let mut it = l.entries();
                let mut p = 0;
                while let Some(e) = it.next(&mut dev) {
                    let e = e2s(e, "list entry")?;
                    at_pos(&dev, e.position(), &src[p..p + (c as usize - p % c as usize).min(26)], "list entry")?;
                    p += e.list_entry_length() as usize;
                }
                ensure!(p == src.len(), "list entries end at {}", p);
            }
            _ => {
                let x = e2s(a.resident_structured_value::<NtfsIndexRoot>(), "root")?;
                at_pos(&dev, x.position(), &root[..16], "index root")?;
                let mut p = 16 + le(&root, 16, 4) as usize;
                for e in e2s(x.entries::<RawIndex>(), "entries")? {
                    let e = e2s(e, "entry")?;
                    at_pos(&dev, e.position(), &root[p..p + 16], "index entry")?;
                    if let Some(Ok(k)) = e.key() {
                        ensure!(k.1 == e.position().value().map(|x| x.get() + 16), "key position");
                    }
                    p += e.index_entry_length() as usize;
                }
                if let NtfsAttributeValue::Resident(v) = e2s(a.value(&mut dev), "value")? {
                    at_pos(&dev, v.data_position(), &root[..root.len().min(60)], "resident value")?;
                }
            }
        }
        at += a.attribute_length() as usize;
    }
    if r.chance(1, 2) {
        c12(r)
    } else {
        c05(r)
    }
}

pub fn c24(r: &mut Rng) -> R {
    let b = r.bytes(16);
    let b: Vec<u8> = b.iter().map(|x| if r.chance(1, 4) { x & 0xf } else { *x }).collect();
    let mut data4 = [0; 8];
    data4.copy_from_slice(&b[8..]);
    let g = NtfsGuid { data1: le(&b, 0, 4) as u32, data2: le(&b, 4, 2) as u16, data3: le(&b, 6, 2) as u16, data4 };
    let hex = |n: u64, w: usize| {
        let mut s = String::new();
        for k in (0..w).rev() {
            s.push(b"0123456789ABCDEF"[(n >> (4 * k)) as usize & 15] as char);
        }
        s
    };
    let mut want = format!("{}-{}-{}-", hex(le(&b, 0, 4), 8), hex(le(&b, 4, 2), 4), hex(le(&b, 6, 2), 4));
    for k in 8..16 {
        want += &hex(b[k] as u64, 2);
        if k == 9 {
            want.push('-');
        }
    }
    ensure!(g.to_string() == want, "{} instead of {}", g, want);
    Ok(())
}

/// Lookups by type and name pick the first match.
pub fn c25(r: &mut Rng) -> R {
    let mut geo = Geo::random(r);
    geo.frs = r.pick(&[2048, 4096]);
    let frs = geo.frs as usize;
    let c = geo.cluster() as usize;
    let table = upcase_table(r);
    let mut vb = VolB::new(r, geo, 200000 / c + 80);
    if add_upcase(r, &mut vb, &table, 131072).is_none() {
        return Ok(());
    }
    struct A {
        ty: u32,
        name: Vec<u16>,
        value: Vec<u8>,
        inst: u16,
    }
    let mut items: Vec<A> = vec![];
    let pool: Vec<Vec<u16>> = vec![vec![], utf16("$I30"), utf16("$i30"), utf16("abc"), utf16("ABC"), utf16("aBd"), utf16("\u{e4}x"), utf16("\u{c4}X"), utf16("ab")];
    for _ in 0..r.below(14) {
        let ty = r.pick(&[0x10u32, FILE_NAME, FILE_NAME, DATA, DATA, DATA, INDEX_ROOT, VOLUME_NAME, VOLUME_INFORMATION]);
        let name = if ty == DATA || ty == INDEX_ROOT || r.chance(1, 4) { r.pick(&pool) } else { vec![] };
        let value = match ty {
            0x10 => r.bytes(48),
            FILE_NAME => file_name_value(r, 5 + r.clone().below(3), &utf16("n"), r.clone().below(4) as u8),
            VOLUME_NAME => r.bytes(10),
            VOLUME_INFORMATION => r.bytes(12),
            INDEX_ROOT => {
                let e = index_entry(0, &[], LAST, None);
                index_root(&e, r.u32(), false, 0)
            }
            _ => r.bytes(9),
        };
        items.push(A { ty, name, value, inst: items.len() as u16 });
    }
    if r.chance(2, 3) {
        items.sort_by_key(|i| i.ty);
    }
    let flags = r.u16() & 3;
    let attrs = items.iter().map(|i| attr_resident(i.ty, &i.name, 0, i.inst, &i.value)).collect();
    let Some(b) = (Rec { seq: 1, links: 1, flags, attrs }).build(r, frs) else { return Ok(()) };
    vb.set(3, b);
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let mut ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    e2s(ntfs.read_upcase_table(&mut dev), "upcase table")?;
    let f = e2s(ntfs.file(&mut dev, 3), "file")?;
    // streams
    for q in &pool {
        let want = items.iter().find(|i| i.ty == DATA && if q.is_empty() { i.name.is_empty() } else { up_cmp(&table, &i.name, q) == Ordering::Equal });
        let s = String::from_utf16_lossy(q);
        match (f.data(&mut dev, &s), want) {
            (None, None) => {}
            (Some(Ok(i)), Some(w)) => {
                let a = e2s(i.to_attribute(), "stream")?;
                ensure!(a.instance() == w.inst, "stream {:?} is attribute {} instead of {}", s, a.instance(), w.inst);
            }
            (g, w) => return Err(format!("stream {:?}: {:?} instead of {:?}", s, g.map(|x| x.is_ok()), w.map(|w| w.inst))),
        }
    }
    // names
    for _ in 0..6 {
        let ns = r.pick(&[None, Some(NtfsFileNamespace::Posix), Some(NtfsFileNamespace::Win32), Some(NtfsFileNamespace::Dos), Some(NtfsFileNamespace::Win32AndDos)]);
        let parent = r.pick(&[None, Some(5u64), Some(6), Some(7), Some(8)]);
        let want = items.iter().find(|i| i.ty == FILE_NAME && ns.map_or(true, |n| n as u8 == i.value[65]) && parent.map_or(true, |p| p == le(&i.value, 0, 6)));
        match (f.name(&mut dev, ns, parent), want) {
            (None, None) => {}
            (Some(Ok(n)), Some(w)) => check_file_name(&n, &w.value)?,
            (g, w) => return Err(format!("name lookup ({ns:?}, {parent:?}): {:?} instead of {:?}", g.map(|x| x.is_ok()), w.map(|w| w.inst))),
        }
    }
    let first = |ty: u32| items.iter().find(|i| i.ty == ty);
    match (f.info(), first(0x10)) {
        (Ok(n), Some(w)) => check_std(&n, &w.value)?,
        (Err(_), None) => {}
        _ => return Err("standard information lookup".into()),
    }
    match (ntfs.volume_info(&mut dev), first(VOLUME_INFORMATION)) {
        (Ok(n), Some(w)) => ensure!(n.major_version() == w.value[8], "volume information"),
        (Err(_), None) => {}
        _ => return Err("volume information lookup".into()),
    }
    match (ntfs.volume_name(&mut dev), first(VOLUME_NAME)) {
        (Some(Ok(n)), Some(w)) => ensure!(n.name().0 == &w.value[..], "volume name"),
        (None, None) => {}
        _ => return Err("volume name lookup".into()),
    }
    // directory index
    let want = if flags & 2 != 0 { items.iter().find(|i| i.ty == INDEX_ROOT && i.name == utf16("$I30")) } else { None };
    match (f.directory_index(&mut dev), want) {
        (Ok(ix), Some(_)) => ensure!(ix.entries().next(&mut dev).is_none(), "entry in an empty directory"),
        (Err(_), None) => {}
        (g, w) => return Err(format!("directory index lookup: {} instead of {:?}", g.is_ok(), w.map(|w| w.inst))),
    }
    Ok(())
}
