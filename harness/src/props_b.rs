//! Attributes, attribute lists, index nodes.
use crate::dev::{le, Dev};
use crate::img::*;
use crate::props_a::*;
use crate::rng::Rng;
use crate::{ensure, R};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;

pub const TYPES: [u32; 16] = [0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x100];

fn random_attr(r: &mut Rng) -> Vec<u8> {
    let ty = if r.chance(1, 10) { r.u32() } else { r.pick(&TYPES) };
    let nl = r.pick(&[0usize, 0, 1, 4, 9]);
    let name: Vec<u16> = (0..nl).map(|_| r.u16()).collect();
    if r.chance(1, 2) {
        let l = r.below(60) as usize;
        attr_resident(ty, &name, r.u16(), r.u16(), &r.bytes(l))
    } else {
        let l = r.below(20) as usize;
        let mut b = attr_non_resident(ty, &name, r.u16(), r.u16(), 0, r.u8() as u64, 512, r.wide(), &r.bytes(l));
        let at = b.len() - (l + 7) / 8 * 8;
        if l > 0 && r.chance(2, 3) {
            b[at] = 0;
        }
        b
    }
}

fn mutate_attr(r: &mut Rng, a: &mut Vec<u8>) {
    let l = a.len() as u64;
    match r.below(9) {
        0 => {
            let v = r.near(&[0, 16, 24, 64, l, l + 8, 0xffff_ffff, l - 8]) & 0xffff_ffff;
            put(a, 4, 4, v);
        }
        1 => a[8] = r.pick(&[0, 1, 2, 0xff]),
        2 => a[9] = r.near(&[0, l / 2, 4, 255]) as u8,
        3 => {
            let v = r.near(&[0, 24, 64, l, 0xffff]);
            put(a, 10, 2, v);
        }
        4 => {
            let v = r.near(&[0, l, l - 24, 0xffff_ffff]) & 0xffff_ffff;
            put(a, 16, 4, v);
        }
        5 => {
            let v = r.near(&[0, 24, l, 0xffff]);
            put(a, 20, 2, v);
        }
        6 if a.len() >= 34 => {
            let v = r.near(&[0, 64, l, 0xffff]);
            put(a, 32, 2, v);
        }
        7 => {
            let k = r.below(l) as usize;
            a[k] = r.u8();
        }
        _ => {}
    }
}

/// A file with a random attribute area; returns the record as a reader has to see it and its position.
fn random_file(r: &mut Rng) -> Option<(Vol, Vec<u8>)> {
    let geo = Geo::random(r);
    let frs = geo.frs as usize;
    let mut vb = VolB::new(r, geo, 40);
    let k = r.below(9) as usize;
    let mut attrs = vec![];
    for _ in 0..k {
        let mut a = random_attr(r);
        if r.chance(1, 3) {
            mutate_attr(r, &mut a);
        }
        attrs.push(a);
    }
    if r.chance(1, 6) {
        // fill the record to the brim
        let used: usize = attrs.iter().map(|a| a.len()).sum();
        let room = frs.saturating_sub(used + 64 + 2 * frs / 512 + 40);
        if room > 40 {
            attrs.push(attr_resident(0x80, &[], 0, 9, &r.bytes(room - 24)));
        }
    }
    let b = Rec { seq: 1, links: 1, flags: 1, attrs }.build(r, frs)?;
    let mut raw = unprotect(&b);
    match r.below(6) {
        0 => {
            // no end marker
            let end = le(&raw, 24, 4) as usize - 8;
            let x = r.bytes(4);
            raw[end..end + 4].copy_from_slice(&x);
            let z = r.chance(1, 2);
            if z {
                for y in &mut raw[end..] {
                    *y = 0;
                }
            }
        }
        1 => {
            let v = r.near(&[frs as u64, 0, 48, frs as u64 - 4, frs as u64 - 16, 0xffff]);
            put(&mut raw, 20, 2, v);
        }
        _ => {}
    }
    let mut b = raw.clone();
    protect(&mut b, r.u16());
    if unprotect(&b) != raw && fixup_model(&b).is_err() {
        return None;
    }
    let raw = unprotect(&b);
    vb.set(1, b);
    let vol = vb.finish(r, 0)?;
    Some((vol, raw))
}

pub enum Tile {
    End,
    Bad,
    Attr(usize, usize),
}
pub fn tile(raw: &[u8], at: usize) -> Tile {
    if at + 4 > raw.len() || le(raw, at, 4) == 0xFFFF_FFFF {
        return Tile::End;
    }
    let left = raw.len() - at;
    if left < 16 {
        return Tile::Bad;
    }
    let l = le(raw, at + 4, 4) as usize;
    let min = if raw[at + 8] == 0 { 24 } else { 64 };
    if l < min || l > left {
        return Tile::Bad;
    }
    Tile::Attr(at, l)
}

pub fn c09(r: &mut Rng) -> R {
    let (vol, raw) = match random_file(r) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let base = f.position().value().unwrap().get();
    let mut at = le(&raw, 20, 2) as usize;
    let mut it = f.attributes_raw();
    for k in 0..5000 {
        match (it.next(), tile(&raw, at)) {
            (None, Tile::End) => {
                ensure!(it.next().is_none(), "attribute after the end");
                return Ok(());
            }
            (Some(Err(_)), Tile::Bad) => return Ok(()),
            (Some(Ok(a)), Tile::Attr(p, l)) => {
                ensure!(a.position().value().map(|x| x.get()) == Some(base + p as u64), "attribute {} is at {:?} instead of {}", k, a.position(), base + p as u64);
                ensure!(a.attribute_length() as usize == l, "attribute {} has {} bytes instead of {}", k, a.attribute_length(), l);
                ensure!(a.instance() as u64 == le(&raw, p + 14, 2), "attribute {} instance", k);
                at += l;
            }
            (g, w) => {
                let w = match w {
                    Tile::End => "the end".to_string(),
                    Tile::Bad => "an error".to_string(),
                    Tile::Attr(p, l) => format!("an attribute of {l} bytes at {p}"),
                };
                return Err(format!("item {k} of the attributes is {:?} instead of {}", g.map(|x| x.map(|a| (a.position(), a.attribute_length()))), w));
            }
        }
    }
    Err("the enumeration doesn't end".into())
}

pub fn c10(r: &mut Rng) -> R {
    let (vol, raw) = match random_file(r) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let base = f.position().value().unwrap().get();
    let c = vol.geo.cluster() as u64;
    for a in f.attributes_raw() {
        let a = match a {
            Ok(a) => a,
            Err(_) => break,
        };
        let p = (a.position().value().unwrap().get() - base) as usize;
        let l = le(&raw, p + 4, 4) as usize;
        let b = &raw[p..p + l];
        let ty = le(b, 0, 4) as u32;
        match a.ty() {
            Ok(t) => ensure!(t as u32 == ty, "type {:?} for {:#x}", t, ty),
            Err(_) => ensure!(!TYPES.contains(&ty), "type {:#x} not recognised", ty),
        }
        let ctx = format!("attribute {:02x?}", &b[..b.len().min(72)]);
        ensure!(a.attribute_length() as usize == l, "length of {}", ctx);
        ensure!(a.flags().bits() as u64 == le(b, 12, 2) & 0xC001, "flags of {}", ctx);
        ensure!(a.instance() as u64 == le(b, 14, 2), "instance of {}", ctx);
        let res = b[8] == 0;
        ensure!(a.is_resident() == res, "residency of {}", ctx);
        let nl = 2 * b[9] as usize;
        let no = le(b, 10, 2) as usize;
        ensure!(a.name_length() == nl, "name length of {}", ctx);
        let name_ok = no == 0 || nl == 0 || (no < l && no + nl <= l);
        match a.name() {
            Ok(n) => {
                ensure!(name_ok, "name accepted of {}", ctx);
                let want = if no == 0 || nl == 0 { &[][..] } else { &b[no..no + nl] };
                ensure!(n.0 == want, "name {:x?} instead of {:x?} of {}", n.0, want, ctx);
            }
            Err(_) => ensure!(!name_ok, "name refused of {}", ctx),
        }
        let v = a.value(&mut dev);
        if res {
            let vl = le(b, 16, 4);
            let vo = le(b, 20, 2);
            ensure!(a.value_length() == vl, "value length of {}", ctx);
            let ok = vo <= l as u64 && vo + vl <= l as u64;
            match v {
                Ok(NtfsAttributeValue::Resident(v)) => {
                    ensure!(ok, "value accepted of {}", ctx);
                    ensure!(v.data() == &b[vo as usize..(vo + vl) as usize], "value of {}", ctx);
                    if vl > 0 {
                        let want = base + p as u64 + vo;
                        ensure!(v.data_position().value().map(|x| x.get()) == Some(want), "value position {:?} of {}", v.data_position(), ctx);
                    }
                }
                Ok(_) => return Err(format!("kind of value of {ctx}")),
                Err(_) => ensure!(!ok, "value refused of {}", ctx),
            }
        } else {
            let ds = le(b, 48, 8);
            ensure!(a.value_length() == ds, "value length of {}", ctx);
            let ro = le(b, 32, 2) as usize;
            let ok = ro <= l && !matches!(dec_step(&b[ro..], 0, 0, c), Step::Bad);
            match v {
                Ok(NtfsAttributeValue::NonResident(v)) => {
                    ensure!(ok, "value accepted of {}", ctx);
                    ensure!(v.len() == ds, "value length of {}", ctx);
                    let n = v.data_runs().next();
                    match (n, dec_step(&b[ro..], 0, 0, c)) {
                        (None, Step::End) => {}
                        (Some(Ok(d)), Step::Run(w, _)) => {
                            ensure!(d.allocated_size() == w.n * c, "first run of {}", ctx);
                            ensure!(d.data_position().value().map(|x| x.get()) == w.lcn.map(|x| x * c).filter(|x| *x != 0), "first run of {}", ctx);
                        }
                        _ => return Err(format!("first run of {ctx}")),
                    }
                }
                Ok(_) => return Err(format!("kind of value of {ctx}")),
                Err(_) => ensure!(!ok, "value refused of {}", ctx),
            }
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
struct Seen {
    pos: u64,
    ty: u32,
    inst: u16,
    len: u64,
}

/// An attribute list over several records: the enumeration is the base attributes with the list expanded in place.
pub fn c11(r: &mut Rng) -> R {
    let mut geo = Geo::random(r);
    geo.spc = 1;
    geo.sector = 512;
    let frs = geo.frs as usize;
    let c = 512u64;
    let mut vb = VolB::new(r, geo, 300);
    let base = 2usize;
    let with_list = r.chance(4, 5);
    // (type, name, record, resident, instance, lowest vcn)
    struct Item {
        ty: u32,
        name: Vec<u16>,
        rec: usize,
        bytes: Vec<u8>,
        inst: u16,
        lowest: u64,
        cont: bool,
    }
    let recs: Vec<usize> = vec![base, 4, 5, 6, 7];
    let mut items: Vec<Item> = vec![];
    let mut tys = TYPES.to_vec();
    tys.retain(|t| *t != ATTRIBUTE_LIST);
    let mut key = 0u16;
    for ty in tys {
        if !r.chance(2, 5) {
            continue;
        }
        for k in 0..r.pick(&[1usize, 1, 2, 3]) {
            let name: Vec<u16> = if k == 0 { vec![] } else { vec![0x41 + k as u16; k] };
            key += 1;
            // the instance is unique per type here, but equal between types
            let inst = if r.chance(1, 2) { k as u16 } else { key + 20 };
            if r.chance(3, 5) {
                let rec = r.pick(&recs);
                let l = r.below(30) as usize;
                let bytes = attr_resident(ty, &name, 0, inst, &r.bytes(l));
                items.push(Item { ty, name, rec, bytes, inst, lowest: 0, cont: false });
            } else {
                let parts = 1 + r.below(3) as usize;
                let mut used = vec![];
                for p in 0..parts {
                    let mut rec = r.pick(&recs);
                    if parts > 1 {
                        while rec == base || used.contains(&rec) {
                            rec = r.pick(&recs);
                        }
                    }
                    used.push(rec);
                    let bytes = attr_non_resident(ty, &name, 0, inst, p as u64, 1, c, if p == 0 { parts as u64 * c } else { 0 }, &[0x11, 1, 3 + p as u8, 0]);
                    items.push(Item { ty, name: name.clone(), rec, bytes, inst, lowest: p as u64, cont: p > 0 });
                }
            }
        }
    }
    let mut list = vec![];
    for i in &items {
        if i.rec != base || r.chance(3, 4) {
            list.extend(list_entry(i.ty, &i.name, i.lowest, i.rec as u64 | 1 << 48, i.inst, r.pick(&[0, 0, 8])));
        }
    }
    // records
    let mut base_attrs: Vec<Vec<u8>> = vec![];
    let la_at;
    let mut la_done = !with_list;
    if with_list {
        let la = if list.len() < 200 && r.chance(2, 3) {
            attr_resident(ATTRIBUTE_LIST, &[], 0, 99, &list)
        } else {
            let lr = match vb.store(r, &list, 1, 2, false) {
                Some(x) => x,
                None => return Ok(()),
            };
            let n: u64 = lr.iter().map(|x| x.n).sum();
            let enc = encode_runs(r, &lr, true);
            attr_non_resident(ATTRIBUTE_LIST, &[], 0, 99, 0, n, c, list.len() as u64, &enc)
        };
        let mut v = vec![];
        for i in items.iter().filter(|i| i.rec == base) {
            if !la_done && i.ty > ATTRIBUTE_LIST {
                v.push(la.clone());
                la_done = true;
            }
            v.push(i.bytes.clone());
        }
        if !la_done {
            v.push(la.clone());
        }
        la_at = v.iter().position(|x| *x == la).unwrap();
        base_attrs.extend(v);
    } else {
        base_attrs.extend(items.iter().filter(|i| i.rec == base).map(|i| i.bytes.clone()));
        la_at = usize::MAX;
    }
    for n in recs.iter().copied() {
        let attrs: Vec<Vec<u8>> = if n == base { base_attrs.clone() } else { items.iter().filter(|i| i.rec == n).map(|i| i.bytes.clone()).collect() };
        match (Rec { seq: 1, links: 1, flags: 1, attrs }).build(r, frs) {
            Some(b) => vb.set(n, b),
            None => return Ok(()),
        }
    }
    let recs_raw: Vec<Option<Vec<u8>>> = vb.recs.clone();
    let vol = match vb.finish(r, 0) {
        Some(v) => v,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, base as u64), "file")?;
    // expectation
    let locate = |rec: usize, ty: u32, inst: u16| -> Seen {
        let raw = unprotect(recs_raw[rec].as_ref().unwrap());
        let mut at = le(&raw, 20, 2) as usize;
        loop {
            match tile(&raw, at) {
                Tile::Attr(p, l) => {
                    if le(&raw, p, 4) as u32 == ty && le(&raw, p + 14, 2) as u16 == inst {
                        return Seen { pos: vol.rec_pos(rec as u64) + p as u64, ty, inst, len: l as u64 };
                    }
                    at += l;
                }
                _ => unreachable!(),
            }
        }
    };
    let mut want = vec![];
    let raw = unprotect(recs_raw[base].as_ref().unwrap());
    let mut at = le(&raw, 20, 2) as usize;
    let mut k = 0;
    while let Tile::Attr(p, l) = tile(&raw, at) {
        if k == la_at {
            for i in items.iter().filter(|i| i.rec != base && !i.cont) {
                want.push(locate(i.rec, i.ty, i.inst));
            }
        } else {
            want.push(Seen { pos: vol.rec_pos(base as u64) + p as u64, ty: le(&raw, p, 4) as u32, inst: le(&raw, p + 14, 2) as u16, len: l as u64 });
        }
        at += l;
        k += 1;
    }
    let mut got = vec![];
    let attached = r.chance(1, 2);
    if attached {
        let d = &mut dev;
        for x in f.attributes().attach(d) {
            let x = e2s(x, "item")?;
            let a = e2s(x.to_attribute(), "attribute")?;
            got.push(Seen { pos: a.position().value().unwrap().get(), ty: a.ty().map_err(|e| format!("{e:?}"))? as u32, inst: a.instance(), len: a.attribute_length() as u64 });
        }
    } else {
        let mut it = f.attributes();
        while let Some(x) = it.next(&mut dev) {
            let x = e2s(x, "item")?;
            let a = e2s(x.to_attribute(), "attribute")?;
            got.push(Seen { pos: a.position().value().unwrap().get(), ty: a.ty().map_err(|e| format!("{e:?}"))? as u32, inst: a.instance(), len: a.attribute_length() as u64 });
            if got.len() > 200 {
                return Err("the enumeration doesn't end".into());
            }
        }
        ensure!(it.next(&mut dev).is_none(), "attribute after the end");
    }
    let split = vol.geo.frs > 512;
    if split {
        // records that are split over fragments don't have consecutive positions
        for s in got.iter_mut().chain(want.iter_mut()) {
            let _ = s;
        }
    }
    ensure!(got == want, "attributes {:x?} instead of {:x?}", got, want);
    Ok(())
}

pub fn c12(r: &mut Rng) -> R {
    let mut geo = Geo::random(r);
    geo.spc = 1;
    geo.sector = 512;
    let frs = geo.frs as usize;
    let c = 512u64;
    let mut vb = VolB::new(r, geo, 120);
    let resident = r.chance(1, 2);
    let mut list = vec![];
    for _ in 0..r.below(if resident { 6 } else { 40 }) {
        let nl = r.pick(&[0usize, 0, 3, 6, 40]);
        let name: Vec<u16> = (0..nl).map(|_| r.u16()).collect();
        let ty = if r.chance(1, 8) { r.u32() } else { r.pick(&TYPES) };
        let mut e = list_entry(ty, &name, r.u64(), r.u64(), r.u16(), r.pick(&[0, 0, 8, 2]));
        e[7] = r.pick(&[26, 26, 26, 0, 28, 32, 255]);
        if r.chance(1, 8) {
            let l = e.len() as u64;
            let v = r.near(&[0, 26, l, 26 + 2 * nl as u64, 0xffff]);
            put(&mut e, 4, 2, v);
        }
        if r.chance(1, 12) {
            e[6] = r.u8();
        }
        list.extend(e);
    }
    if r.chance(1, 4) {
        let k = r.below(list.len() as u64 + 1) as usize;
        list.truncate(k);
    }
    let mut where_is: Vec<Option<u64>> = vec![];
    let la = if resident {
        if list.len() > frs / 2 {
            list.truncate(frs / 2);
        }
        attr_resident(ATTRIBUTE_LIST, &[], 0, 99, &list)
    } else {
        let lr = vb.store(r, &list, 1, 2, false).ok_or("layout")?;
        for x in &lr {
            for i in 0..x.n * c {
                where_is.push(x.lcn.map(|l| l * c + i));
            }
        }
        let n: u64 = lr.iter().map(|x| x.n).sum();
        let enc = encode_runs(r, &lr, true);
        attr_non_resident(ATTRIBUTE_LIST, &[], 0, 99, 0, n, c, list.len() as u64, &enc)
    };
    let b = match (Rec { seq: 1, links: 1, flags: 1, attrs: vec![la] }).build(r, frs) {
        Some(b) => b,
        None => return Ok(()),
    };
    let raw = unprotect(&b);
    vb.set(1, b);
    let vol = vb.finish(r, 0).ok_or("layout")?;
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    let al = e2s(a.structured_value::<_, NtfsAttributeList>(&mut dev), "list")?;
    if resident {
        let base = f.position().value().unwrap().get() + le(&raw, 20, 2) + 24;
        for i in 0..list.len() as u64 {
            where_is.push(Some(base + i));
        }
    }
    if !list.is_empty() {
        ensure!(al.position().value().map(|x| x.get()) == where_is[0], "list position {:?} instead of {:?}", al.position(), where_is[0]);
    }
    let mut it = al.entries();
    let mut at = 0usize;
    for k in 0..4000 {
        let got = it.next(&mut dev);
        if at >= list.len() {
            ensure!(got.is_none(), "entry {} after the end of the list", k);
            return Ok(());
        }
        let left = &list[at..];
        let valid = left.len() >= 26 && {
            let n = if left[6] == 0 { 26 } else { (left[7] as usize + 2 * left[6] as usize).max(26) };
            n <= le(left, 4, 2) as usize && le(left, 4, 2) as usize <= left.len()
        };
        if !valid {
            ensure!(matches!(got, Some(Err(_))), "entry {} at {} should be refused", k, at);
            return Ok(());
        }
        let el = le(left, 4, 2) as usize;
        let e = match got {
            None => return Err(format!("entry {k} at {at} is missing")),
            Some(Err(e)) => return Err(format!("entry {k} at {at} refused: {e:?}")),
            Some(Ok(e)) => e,
        };
        let ty = le(left, 0, 4) as u32;
        match e.ty() {
            Ok(t) => ensure!(t as u32 == ty, "type of entry {}", k),
            Err(_) => ensure!(!TYPES.contains(&ty), "type of entry {} not recognised", k),
        }
        ensure!(e.list_entry_length() as usize == el, "length of entry {}", k);
        ensure!(e.name_length() == 2 * left[6] as usize, "name length of entry {}", k);
        let no = if left[6] == 0 { 26 } else { left[7] as usize };
        ensure!(e.name().0 == &left[no..no + 2 * left[6] as usize], "name of entry {}", k);
        ensure!(e.lowest_vcn().value() == le(left, 8, 8) as i64, "VCN of entry {}", k);
        ensure!(e.base_file_reference().file_record_number() == le(left, 16, 6), "record of entry {}", k);
        ensure!(e.base_file_reference().sequence_number() as u64 == le(left, 22, 2), "sequence of entry {}", k);
        ensure!(e.instance() as u64 == le(left, 24, 2), "instance of entry {}", k);
        let pos = e.position().value().map(|x| x.get());
        let prev_end = if at > 0 { where_is[at - 1].map(|x| x + 1) } else { None };
        ensure!(pos == where_is[at] || pos == prev_end || pos.is_none(), "position of entry {}: {:?} instead of {:?}", k, pos, where_is[at]);
        at += el;
    }
    Err("the list doesn't end".into())
}

pub enum Ent {
    End,
    Bad,
    E(usize, usize, bool),
}
/// One node entry of `b[at..end]`.
pub fn node_step(b: &[u8], at: usize, end: usize) -> Ent {
    if at >= end {
        return Ent::End;
    }
    if end - at < 16 {
        return Ent::Bad;
    }
    let l = le(b, at + 8, 2) as usize;
    if l < 16 || l > end - at {
        return Ent::Bad;
    }
    Ent::E(at, l, b[at + 12] & 2 != 0)
}

pub fn random_entries(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(8) {
        let kl = r.below(50) as usize;
        let key = r.bytes(kl);
        let vcn = if r.chance(1, 3) { Some(r.u64()) } else { None };
        let fl = if r.chance(1, 10) { LAST } else { r.pick(&[0, 0, 0, 0x80]) };
        let mut e = index_entry(r.u64(), &key, fl, vcn);
        if r.chance(1, 3) {
            // extra data instead of a file reference
            let l = e.len() as u64;
            let off = r.near(&[16, l, 0]) & 0xffff;
            let len = r.near(&[l.saturating_sub(off), 0, 4]) & 0xffff;
            put(&mut e, 0, 2, off);
            put(&mut e, 2, 2, len);
        }
        if r.chance(1, 7) {
            let l = e.len() as u64;
            let val = r.near(&[0, 16, 24, l, 0xffff, l + 8]);
            put(&mut e, 8, 2, val);
        }
        if r.chance(1, 7) {
            let l = e.len() as u64;
            let val = r.near(&[0, l - 16, 0xffff, l]);
            put(&mut e, 10, 2, val);
        }
        if r.chance(1, 10) {
            e[12] = r.u8();
        }
        v.extend(e);
    }
    if r.chance(2, 3) {
        let vcn = if r.chance(1, 3) { Some(r.u64()) } else { None };
        v.extend(index_entry(0, &[], LAST, vcn));
    }
    if r.chance(1, 5) {
        let k = r.below(v.len() as u64 + 1) as usize;
        v.truncate(k);
    }
    v.truncate(max);
    v
}

fn check_entries<'s, E>(b: &[u8], start: usize, end: usize, pos0: Option<u64>, it: &mut NtfsIndexNodeEntries<'s, E>, data: bool) -> R
where
    E: ntfs::indexes::NtfsIndexEntryType<KeyType = RawKey>,
{
    let _ = data;
    let mut at = start;
    for k in 0..4000 {
        match (it.next(), node_step(b, at, end)) {
            (None, Ent::End) => {
                ensure!(it.next().is_none(), "entry after the end");
                return Ok(());
            }
            (Some(Err(_)), Ent::Bad) => return Ok(()),
            (Some(Ok(e)), Ent::E(p, l, last)) => {
                ensure!(e.index_entry_length() as usize == l, "length of entry {}", k);
                ensure!(e.flags().bits() == b[p + 12] & 3, "flags of entry {}", k);
                let kl = le(b, p + 10, 2) as usize;
                ensure!(e.key_length() as usize == kl, "key length of entry {}", k);
                if let Some(p0) = pos0 {
                    ensure!(e.position().value().map(|x| x.get()) == Some(p0 + p as u64), "position of entry {}: {:?} instead of {}", k, e.position(), p0 + p as u64);
                }
                match e.key() {
                    None => ensure!(kl == 0 || last, "key of entry {} missing", k),
                    Some(Err(_)) => ensure!(kl > 0 && !last && 16 + kl > l, "key of entry {} refused", k),
                    Some(Ok(key)) => {
                        ensure!(kl > 0 && !last && 16 + kl <= l, "key of entry {} accepted", k);
                        ensure!(key.0 == &b[p + 16..p + 16 + kl], "key of entry {}", k);
                        if let Some(p0) = pos0 {
                            ensure!(key.1 == Some(p0 + p as u64 + 16), "key position of entry {}", k);
                        }
                    }
                }
                let sub = b[p + 12] & 1 != 0;
                match e.subnode_vcn() {
                    None => ensure!(!sub, "subnode of entry {} missing", k),
                    Some(Err(_)) => ensure!(sub && l < 24, "subnode of entry {} refused", k),
                    Some(Ok(v)) => {
                        ensure!(sub && l >= 24, "subnode of entry {} accepted", k);
                        ensure!(v.value() == le(b, p + l - 8, 8) as i64, "subnode of entry {}", k);
                    }
                }
                at = if last { end } else { at + l };
            }
            (g, w) => {
                let w = match w {
                    Ent::End => "the end".to_string(),
                    Ent::Bad => "an error".to_string(),
                    Ent::E(p, l, x) => format!("an entry of {l} bytes at {p} (last: {x})"),
                };
                return Err(format!("item {k} of the node is {:?} instead of {}", g.map(|x| x.map(|e| (e.position(), e.index_entry_length()))), w));
            }
        }
    }
    Err("the node doesn't end".into())
}

/// A file with an index root attribute.
fn root_file(r: &mut Rng, geo: Geo, value: &[u8]) -> Option<(Vol, usize)> {
    let frs = geo.frs as usize;
    let mut vb = VolB::new(r, geo, 40);
    let a = attr_resident(INDEX_ROOT, &utf16("$I30"), 0, 1, value);
    let b = Rec { seq: 1, links: 1, flags: 3, attrs: vec![a] }.build(r, frs)?;
    let raw = unprotect(&b);
    let at = le(&raw, 20, 2) as usize;
    let vo = at + le(&raw, at + 20, 2) as usize;
    vb.set(1, b);
    Some((vb.finish(r, 0)?, vo))
}

pub fn c13(r: &mut Rng) -> R {
    let geo = Geo::random(r);
    let max = geo.frs as usize - 300;
    let ents = random_entries(r, max);
    let pad = r.pick(&[0usize, 0, 8, 24]);
    let ents = if ents.is_empty() { vec![0u8; 4] } else { ents };
    let v = index_root(&ents, 4096, false, pad);
    let (vol, vo) = match root_file(r, geo, &v) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    let root = e2s(a.resident_structured_value::<NtfsIndexRoot>(), "root")?;
    let p0 = f.position().value().unwrap().get() + vo as u64;
    let mut it = e2s(root.entries::<RawIndex>(), "entries")?;
    check_entries(&v, 32 + pad, v.len(), Some(p0), &mut it, false)?;
    for e in e2s(root.entries::<RawIndex>(), "entries")? {
        let Ok(e) = e else { break };
        let p = (e.position().value().unwrap().get() - p0) as usize;
        ensure!(e.file_reference().file_record_number() == le(&v, p, 6), "file reference");
        ensure!(e.file_reference().sequence_number() as u64 == le(&v, p + 6, 2), "file reference");
    }
    let mut it = e2s(root.entries::<DataIndex>(), "entries")?;
    check_entries(&v, 32 + pad, v.len(), Some(p0), &mut it, true)?;
    for e in e2s(root.entries::<DataIndex>(), "entries")? {
        let Ok(e) = e else { break };
        let p = (e.position().value().unwrap().get() - p0) as usize;
        let (off, len, l) = (le(&v, p, 2) as usize, le(&v, p + 2, 2) as usize, le(&v, p + 8, 2) as usize);
        match e.data() {
            None => ensure!(off == 0 || len == 0, "data missing"),
            Some(Err(_)) => ensure!(off != 0 && len != 0 && off + len > l, "data refused"),
            Some(Ok(d)) => {
                ensure!(off != 0 && len != 0 && off + len <= l, "data accepted");
                ensure!(d.0 == &v[p + off..p + off + len], "data differs");
                ensure!(d.1 == Some(p0 + (p + off) as u64), "data position");
            }
        }
    }
    Ok(())
}

pub fn c14(r: &mut Rng) -> R {
    // root
    {
        let geo = Geo::random(r);
        let ents = random_entries(r, 400);
        let mut v = index_root(&ents, r.u32(), r.chance(1, 2), r.pick(&[0usize, 0, 8]));
        let l = v.len() as u64;
        match r.below(6) {
            0 => {
                let x = r.near(&[0, 16, l - 16, l, 0xffff_ffff]) & 0xffff_ffff;
                put(&mut v, 16, 4, x);
            }
            1 => {
                let x = r.near(&[0, 16, l - 16, l, 0xffff_ffff]) & 0xffff_ffff;
                put(&mut v, 20, 4, x);
            }
            2 => {
                let k = r.below(l + 1) as usize;
                v.truncate(k);
            }
            3 => {
                let x = r.below(l);
                put(&mut v, 16, 4, x);
                let x = r.below(l);
                put(&mut v, 20, 4, x);
            }
            _ => {}
        }
        if let Some((vol, vo)) = root_file(r, geo, &v) {
            let mut dev = Dev::new(vol.dev.clone());
            let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
            let f = e2s(ntfs.file(&mut dev, 1), "file")?;
            let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
            let got = a.resident_structured_value::<NtfsIndexRoot>();
            let ok = v.len() >= 32 && {
                let s = 16 + le(&v, 16, 4);
                let e = 16 + le(&v, 20, 4);
                s < v.len() as u64 && e <= v.len() as u64 && s <= e
            };
            match got {
                Err(e) => ensure!(!ok, "index root refused: {:?}", e),
                Ok(x) => {
                    ensure!(ok, "index root accepted: entries at {}, used {}, {} bytes", le(&v, 16.min(v.len() - 4), 4), if v.len() >= 24 { le(&v, 20, 4) } else { 0 }, v.len());
                    let p0 = f.position().value().unwrap().get() + vo as u64;
                    ensure!(x.position().value().map(|x| x.get()) == Some(p0), "index root position");
                    ensure!(x.index_record_size() as u64 == le(&v, 8, 4), "index record size");
                    ensure!(x.index_data_size() as u64 == le(&v, 20, 4), "used size");
                    ensure!(x.index_allocated_size() as u64 == le(&v, 24, 4), "allocated size");
                    ensure!(x.is_large_index() == (v[28] & 1 != 0), "large flag");
                    let mut it = e2s(x.entries::<RawIndex>(), "entries")?;
                    check_entries(&v, (16 + le(&v, 16, 4)) as usize, (16 + le(&v, 20, 4)) as usize, Some(p0), &mut it, false)?;
                }
            }
        }
    }
    // records
    let mut geo = Geo::random(r);
    if geo.cluster() > 1024 {
        geo.spc = 1;
        geo.sector = r.pick(&[512, 1024]);
    }
    let c = geo.cluster() as u64;
    let frs = geo.frs as usize;
    let irs = r.pick(&[1024usize, 2048, 4096]);
    let per = irs as u64 / c;
    let mut vb = VolB::new(r, geo, 200);
    let n = 1 + r.below(5) as usize;
    let mut all = vec![];
    let mut raws: Vec<Option<Vec<u8>>> = vec![];
    for k in 0..n {
        let room = irs - 24 - 16 - 2 * (irs / 512 + 1) - 24;
        let ents = random_entries(r, room);
        let vcn = if r.chance(1, 8) { r.below(20) } else { k as u64 * per };
        let sub = r.chance(1, 2);
        let b = match index_record(r, irs, vcn, &ents, sub) {
            Some(b) => b,
            None => return Ok(()),
        };
        let mut raw = unprotect(&b);
        let size = irs as u64;
        match r.below(10) {
            0 => {
                let x = r.near(&[size - 24, size, 0, 0xffff_ffff]) & 0xffff_ffff;
                put(&mut raw, 32, 4, x);
            }
            1 => {
                let x = r.near(&[le(&raw, 32, 4), size - 24, 0, 0xffff_ffff]) & 0xffff_ffff;
                put(&mut raw, 28, 4, x);
            }
            2 => {
                let x = r.near(&[le(&raw, 28, 4), 0, 0xffff_ffff]) & 0xffff_ffff;
                put(&mut raw, 24, 4, x);
            }
            3 => {
                let i = r.below(4) as usize;
                raw[i] ^= 1 << r.below(8);
            }
            _ => {}
        }
        let mut b = raw.clone();
        protect(&mut b, r.u16());
        let raw = unprotect(&b);
        let ok = &raw[..4] == b"INDX" && 24 + le(&raw, 32, 4) <= size && le(&raw, 28, 4) <= le(&raw, 32, 4) && le(&raw, 24, 4) <= le(&raw, 28, 4);
        raws.push(if ok { Some(raw) } else { None });
        all.extend(b);
    }
    let runs = vb.store(r, &all, 1, 3, false).ok_or("layout")?;
    let total: u64 = runs.iter().map(|x| x.n).sum();
    let enc = encode_runs(r, &runs, true);
    let a = attr_non_resident(INDEX_ALLOCATION, &utf16("$I30"), 0, 1, 0, total, c, all.len() as u64, &enc);
    let b = match (Rec { seq: 1, links: 1, flags: 3, attrs: vec![a] }).build(r, frs) {
        Some(b) => b,
        None => return Ok(()),
    };
    vb.set(1, b);
    let vol = match vb.finish(r, 0) {
        Some(v) => v,
        None => return Ok(()),
    };
    let mut dev = Dev::new(vol.dev.clone());
    let ntfs = e2s(Ntfs::new(&mut dev), "boot")?;
    let f = e2s(ntfs.file(&mut dev, 1), "file")?;
    let a = e2s(f.attributes_raw().next().ok_or("no attribute")?, "attribute")?;
    let ia = e2s(a.structured_value::<_, NtfsIndexAllocation>(&mut dev), "allocation")?;
    let check = |rec: &NtfsIndexRecord, raw: &[u8]| -> R {
        ensure!(rec.vcn().value() == le(raw, 16, 8) as i64, "record VCN");
        ensure!(rec.index_allocated_size() as u64 == le(raw, 32, 4), "record allocated size");
        ensure!(rec.index_data_size() as u64 == le(raw, 28, 4), "record used size");
        ensure!(rec.has_subnodes() == (raw[36] & 1 != 0), "record flags");
        let mut it = e2s(rec.entries::<RawIndex>(), "entries")?;
        check_entries(raw, 24 + le(raw, 24, 4) as usize, 24 + le(raw, 28, 4) as usize, None, &mut it, false)
    };
    let mut it = ia.records(irs as u32);
    for (k, raw) in raws.iter().enumerate() {
        match (it.next(&mut dev), raw) {
            (Some(Ok(rec)), Some(raw)) => check(&rec, raw).map_err(|e| format!("record {k}: {e}"))?,
            (Some(Err(_)), None) => break,
            (None, _) => return Err(format!("record {k} of {n} is missing")),
            (Some(Ok(_)), None) => return Err(format!("broken record {k} accepted")),
            (Some(Err(e)), Some(_)) => return Err(format!("record {k} refused: {e:?}")),
        }
        if k == n - 1 {
            ensure!(it.next(&mut dev).is_none(), "record after the end");
        }
    }
    for _ in 0..8 {
        let vcn = match r.below(5) {
            0 => r.wide() as i64,
            1 => -(r.below(5) as i64),
            _ => r.below(n as u64 * per + 2) as i64,
        };
        let got = ia.record_from_vcn(&mut dev, irs as u32, Vcn::from(vcn));
        let off = vcn as i128 * c as i128;
        let whole = off >= 0 && off % irs as i128 == 0 && off / (irs as i128) < n as i128;
        match got {
            Ok(rec) => {
                ensure!(rec.vcn().value() == vcn, "record for VCN {} has VCN {}", vcn, rec.vcn().value());
                if whole {
                    let raw = raws[(off / irs as i128) as usize].as_ref().ok_or(format!("broken record for VCN {vcn} accepted"))?;
                    check(&rec, raw).map_err(|e| format!("record for VCN {vcn}: {e}"))?;
                } else {
                    ensure!(off >= 0 && off < all.len() as i128, "record found for VCN {} outside of the allocation", vcn);
                }
            }
            Err(e) => {
                if whole {
                    if let Some(raw) = &raws[(off / irs as i128) as usize] {
                        ensure!(le(raw, 16, 8) as i64 != vcn, "record for VCN {} refused: {:?}", vcn, e);
                    }
                }
            }
        }
    }
    // too small record sizes must be refused
    let small = r.below(40) as u32;
    if let Some(Ok(_)) = ia.records(small).next(&mut dev) {
        return Err(format!("index record size {small} accepted"));
    }
    Ok(())
}
