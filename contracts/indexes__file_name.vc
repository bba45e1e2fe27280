@file src/indexes/file_name.rs indexes::file_name
@head
#[allow(unused_imports)] use crate::vx::nt_string::u16strle::{utf16, units};
#[allow(unused_imports)] use crate::index::{EntG, sorted, hits};
#[allow(unused_imports)] use crate::index_entry::{ie_key, ie_has_key};
#[allow(unused_imports)] use core::cmp::Ordering;
@text
/// Where an entry with the key `s` comes in a filename index, seen from the name `n`.
pub open spec fn name_order(ntfs: Ntfs, n: Seq<u16>) -> spec_fn(Seq<u8>) -> Ordering {
    |s: Seq<u8>| ntfs.up_cmp(n, units(s.subrange(66, 66 + 2 * s[64])))
}
@fn NtfsFileNameIndex::find
@props C16 C17
@requires
        old(fs).dinv(), old(index_finder).index.inv(old(fs).disk()),
        ntfs.inv(), ntfs.upcase_table is Some,
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            None => {
                let all = old(index_finder).index.all(old(fs).disk());
                let f = name_order(*ntfs, utf16(name@));
                all is Some && sorted(all->Some_0, f) ==> !hits(all->Some_0, f)
            },
            Some(Ok(x)) => {
                let all = old(index_finder).index.all(old(fs).disk());
                let f = name_order(*ntfs, utf16(name@));
                &&& x.inv() && ie_has_key(x.s())
                &&& f(ie_key(x.s())) == Ordering::Equal
                &&& all is Some ==> all->Some_0.contains(EntG::Ent(x.s()))
            },
            Some(Err(_)) => {
                let all = old(index_finder).index.all(old(fs).disk());
                T::dsound() && old(index_finder).index.whole(old(fs).disk(), old(fs).davail()) && all is Some ==> crate::index::some_unreadable::<NtfsFileName>(all->Some_0)
            },
        },
@proof start
        proof { reveal(crate::index::absent); }
@closure 0
|$0: &NtfsFileName| -> (o: Ordering)
    ensures o == ntfs.up_cmp(utf16(name@), units($0.name@))
