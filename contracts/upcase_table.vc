@file src/upcase_table.rs upcase_table
@head
#[allow(unused_imports)] use crate::vx::VxIter as _;
#[allow(unused_imports)] use crate::vx::VxStr as _;
#[allow(unused_imports)] use crate::vx::nt_string::u16strle::{units, utf16};
#[allow(unused_imports)] use crate::vx::*;
@text
impl UpcaseTable {
    pub open spec fn inv(&self) -> bool { self.uppercase_characters@.len() == 65536 }
}
pub open spec fn cmp_units(x: u16, y: u16) -> Ordering { if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal } }
/// Order of strings without regard to case: by the first code unit whose uppercase variants differ, then by length.
pub open spec fn up_cmp(t: Seq<u16>, a: Seq<u16>, b: Seq<u16>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if t[a[0] as int] != t[b[0] as int] { cmp_units(t[a[0] as int], t[b[0] as int]) }
    else { up_cmp(t, a.skip(1), b.skip(1)) }
}
/// Code units in uppercase.
pub open spec fn up(t: Seq<u16>, a: Seq<u16>) -> Seq<u16> { Seq::new(a.len(), |i: int| t[a[i] as int]) }
/// Equal exactly if the uppercase variants are; swapped operands give the reverse; transitive.
pub proof fn lemma_up_cmp(t: Seq<u16>, a: Seq<u16>, b: Seq<u16>, c: Seq<u16>)
    ensures
        up_cmp(t, a, b) == Ordering::Equal <==> up(t, a) == up(t, b),
        up_cmp(t, a, b) == Ordering::Less <==> up_cmp(t, b, a) == Ordering::Greater,
        up_cmp(t, a, b) == Ordering::Less && up_cmp(t, b, c) == Ordering::Less ==> up_cmp(t, a, c) == Ordering::Less,
        up_cmp(t, a, b) == Ordering::Equal ==> up_cmp(t, a, c) == up_cmp(t, b, c),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        let c1 = if c.len() > 0 { c.skip(1) } else { c };
        lemma_up_cmp(t, a.skip(1), b.skip(1), c1);
        if t[a[0] as int] == t[b[0] as int] {
            if up(t, a.skip(1)) == up(t, b.skip(1)) {
                assert(a.len() == b.len()) by { assert(up(t, a.skip(1)).len() == up(t, b.skip(1)).len()); }
                assert forall|i: int| 0 <= i < a.len() implies up(t, a)[i] == up(t, b)[i] by {
                    if i > 0 { assert(up(t, a.skip(1))[i - 1] == up(t, b.skip(1))[i - 1]); }
                }
                assert(up(t, a) =~= up(t, b));
            }
            if up(t, a) == up(t, b) {
                assert(a.len() == b.len()) by { assert(up(t, a).len() == up(t, b).len()); }
                assert forall|i: int| 0 <= i < a.len() - 1 implies up(t, a.skip(1))[i] == up(t, b.skip(1))[i] by {
                    assert(up(t, a)[i + 1] == up(t, b)[i + 1]);
                }
                assert(up(t, a.skip(1)) =~= up(t, b.skip(1)));
            }
        } else {
            assert(up(t, a)[0] != up(t, b)[0]);
        }
    } else {
        if a.len() == 0 && b.len() == 0 { assert(up(t, a) =~= up(t, b)); assert(a =~= b); }
        else { assert(up(t, a).len() != up(t, b).len()); }
    }
}
/// `l` is the table stored in the first data stream without name of file record 10.
pub open spec fn table_of(ntfs: Ntfs, d: Seq<u8>, l: Seq<u16>) -> bool {
    &&& ntfs.file_ok(d, 10)
    &&& l.len() == 65536
    &&& exists|f: crate::file::NtfsFile, g: crate::attribute::FlatG| {
        &&& ntfs.file_is(d, 10, f)
        &&& crate::attribute::flat_find(f.flat(d), f.is_stream(d, Seq::empty())) == crate::attribute::FlatFind::Found(g)
        &&& #[trigger] f.flat_content(d, g).len() == 131072
        &&& forall|i: int| 0 <= i < 65536 ==> #[trigger] l[i] == le16(f.flat_content(d, g), 2 * i)
    }
}
/// There is such a table, and all that leads to it lies before `a`.
pub open spec fn table_whole(ntfs: Ntfs, d: Seq<u8>, a: int) -> bool {
    &&& ntfs.mft_whole(d, a)
    &&& ntfs.file_ok(d, 10)
    &&& forall|f: crate::file::NtfsFile| #[trigger] ntfs.file_is(d, 10, f) ==> {
        let g = crate::attribute::flat_find(f.flat(d), f.is_stream(d, Seq::empty()))->Found_0;
        &&& f.whole(d, a)
        &&& crate::attribute::flat_find(f.flat(d), f.is_stream(d, Seq::empty())) is Found
        &&& f.flat_whole(d, g, a)
        &&& f.flat_content(d, g).len() == 131072
    }
}
@fn UpcaseTable::u16_to_uppercase
@props C17
@requires
        self.inv(),
@ensures
        r == self.uppercase_characters@[character as int],
@inject trait UpcaseOrd
    /// Code units of the operands.
    spec fn lhs(&self) -> Seq<u16>;
    spec fn rhs(other: &Rhs) -> Seq<u16>;
@fn trait UpcaseOrd::upcase_cmp
@props C17
@requires
        ntfs.inv(), ntfs.upcase_table is Some,
@ensures
        r == ntfs.up_cmp(self.lhs(), Self::rhs(other)),
@inject impl U16StrLe:UpcaseOrd<U16StrLe<'a>>
    open spec fn lhs(&self) -> Seq<u16> { units(self.0@) }
    open spec fn rhs(other: &U16StrLe<'a>) -> Seq<u16> { units(other.0@) }
@fn U16StrLe:UpcaseOrd<U16StrLe<'a>>::upcase_cmp
@props C17
@inject impl U16StrLe:UpcaseOrd<&str>
    open spec fn lhs(&self) -> Seq<u16> { units(self.0@) }
    open spec fn rhs(other: &&str) -> Seq<u16> { utf16((*other)@) }
@fn U16StrLe:UpcaseOrd<&str>::upcase_cmp
@props C17
@inject impl &str:UpcaseOrd<U16StrLe<'a>>
    open spec fn lhs(&self) -> Seq<u16> { utf16((*self)@) }
    open spec fn rhs(other: &U16StrLe<'a>) -> Seq<u16> { units(other.0@) }
@fn &str:UpcaseOrd<U16StrLe<'a>>::upcase_cmp
@props C17
@fn upcase_cmp_iter
@props C17
@attr
#[verifier::loop_isolation(false)]
@requires
        ntfs.inv(), ntfs.upcase_table is Some,
@ensures
        r == ntfs.up_cmp(this_iter.left(), other_iter.left()),
@loop 0
            invariant
                upcase_table.inv(), *upcase_table == ntfs.upcase_table->Some_0,
                ntfs.up_cmp(this_iter.left(), other_iter.left()) == ntfs.up_cmp(a0, b0),
            decreases this_iter.left().len(),
@proof start
        let ghost a0 = this_iter.left();
        let ghost b0 = other_iter.left();
@fn UpcaseTable::read
@hide crate::attribute::NtfsAttributeItem::is crate::file::NtfsFile::whole crate::attribute::NtfsAttribute::content crate::attribute::NtfsAttribute::whole
@props C17
@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
@requires
        ntfs.inv(), old(fs).dinv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r { Ok(t) => t.inv() && table_of(*ntfs, old(fs).disk(), t.uppercase_characters@), Err(_) => !(T::dsound() && table_whole(*ntfs, old(fs).disk(), old(fs).davail())) },
@proof start
        proof { reveal_strlit(""); crate::vx::nt_string::u16strle::lemma_utf16_empty(""@); }
        let ghost d = fs.disk();
        let ghost a = fs.davail();
@proof before let data_attribute
        let ghost p = upcase_file.is_stream(d, Seq::empty());
        let ghost g = crate::attribute::flat_find(upcase_file.flat(d), p)->Found_0;
        proof { crate::file::lemma_item(&upcase_file, data_item, d, g); }
@proof after let data_attribute
        proof {
            crate::file::lemma_flat_value(&upcase_file, data_item, data_attribute, d, g);
            if T::dsound() && table_whole(*ntfs, d, a) { crate::attribute::lemma_whole(data_attribute, d, a); }
        }
@proof after let mut data_value
        let ghost c = data_attribute.content(d);
        proof { crate::attribute::lemma_val_content(data_attribute, data_value, d); }
@proof before-tail
        proof {
            let l = uppercase_characters@;
            assert(l.len() == 65536);
            assert(c.len() == 131072 && data@ =~= c);
            assert forall|i: int| 0 <= i < 65536 implies #[trigger] l[i] == le16(c, 2 * i) by {
                assert(c.subrange(i * 2, (i + 1) * 2)[0] == c[2 * i]);
                assert(c.subrange(i * 2, (i + 1) * 2)[1] == c[2 * i + 1]);
            }
            assert(upcase_file.flat_content(d, g) == c);
            assert(table_of(*ntfs, d, l));
        }
@closure 0
|$0: &[u8]| -> (u: u16)
    requires $0@.len() == 2,
    ensures u == le16($0@, 0),
