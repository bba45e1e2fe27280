@file src/attribute_value/attribute_list_non_resident.rs attribute_value::attribute_list_non_resident
@head
use crate::attribute_value::non_resident::*;
use crate::structured_values::attribute_list::{le_ok, le_ty, le_len};
use crate::attribute::{at_ok, at_resident, at_runs, at_runs_ok, FindG};
@text
/// File record number in the entry at the start of the list `b`.
pub open spec fn le_num(b: Seq<u8>) -> int {
    let s = b.subrange(16, 24);
    le32(s, 0) + 0x1_0000_0000 * le16(s, 4)
}
/// The list `b` starts with an entry for an extent of the given attribute.
pub open spec fn conn(b: Seq<u8>, instance: u16, ty: NtfsAttributeType) -> bool {
    le_ok(b, 0) && le16(b, 24) == instance && NtfsAttributeType::n_spec(le_ty(b, 0)) == Some(ty)
}
/// The record data the extent lies in.
pub open spec fn ext_d(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>) -> Seq<u8> { ntfs.file_d(d, le_num(b)) }
pub open spec fn ext_at(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType) -> FindG {
    crate::file::rec_find(ext_d(ntfs, d, b), ty, None, Some(instance))
}
/// The extent exists.
pub open spec fn ext_ok(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType) -> bool {
    &&& ntfs.file_ok(d, le_num(b))
    &&& match ext_at(ntfs, d, b, instance, ty) {
        FindG::Found(o) => !at_resident(ext_d(ntfs, d, b), o) && at_runs_ok(ext_d(ntfs, d, b), o),
        _ => false,
    }
}
/// Its encoded runs.
pub open spec fn ext_s(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType) -> Seq<u8> {
    at_runs(ext_d(ntfs, d, b), ext_at(ntfs, d, b, instance, ty)->Found_0)
}
/// The runs of all extents listed at the start of `b`, in the order of the list, up to the first one that is malformed.
#[verifier::opaque]
pub open spec fn al_runs(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType) -> Seq<RunG>
    decreases b.len(),
{
    if !conn(b, instance, ty) || !ext_ok(ntfs, d, b, instance, ty) { Seq::empty() } else {
        let s = ext_s(ntfs, d, b, instance, ty);
        dec_runs(s, 0, 0, ntfs.cs()) + (if dec_bad(s, 0, 0, ntfs.cs()) { Seq::empty() } else { al_runs(ntfs, d, b.subrange(le_len(b, 0), b.len() as int), instance, ty) })
    }
}
/// The extents listed at the start of `b` and the entry after them can be told, and all their runs are well-formed.
#[verifier::opaque]
pub open spec fn al_good(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType) -> bool
    decreases b.len(),
{
    ||| b.len() == 0
    ||| le_ok(b, 0) && (le16(b, 24) == instance ==> NtfsAttributeType::n_spec(le_ty(b, 0)) is Some) && (conn(b, instance, ty) ==> {
        &&& ext_ok(ntfs, d, b, instance, ty)
        &&& !dec_bad(ext_s(ntfs, d, b, instance, ty), 0, 0, ntfs.cs())
        &&& al_good(ntfs, d, b.subrange(le_len(b, 0), b.len() as int), instance, ty)
    })
}
/// The value has `size` bytes, and everything that is to be read for it lies before `a`.
pub open spec fn al_whole(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType, size: int, a: int) -> bool {
    &&& ntfs.mft_whole(d, a)
    &&& al_good(ntfs, d, b, instance, ty)
    &&& total(al_runs(ntfs, d, b, instance, ty)) >= size
    &&& runs_in(al_runs(ntfs, d, b, instance, ty), a)
}
pub proof fn lemma_al_good(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType)
    ensures
        al_good(ntfs, d, b, instance, ty) == {
            ||| b.len() == 0
            ||| le_ok(b, 0) && (le16(b, 24) == instance ==> NtfsAttributeType::n_spec(le_ty(b, 0)) is Some) && (conn(b, instance, ty) ==> {
                &&& ext_ok(ntfs, d, b, instance, ty)
                &&& !dec_bad(ext_s(ntfs, d, b, instance, ty), 0, 0, ntfs.cs())
                &&& al_good(ntfs, d, b.subrange(le_len(b, 0), b.len() as int), instance, ty)
            })
        },
{
    reveal(al_good);
}
pub proof fn lemma_al_runs(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType)
    ensures
        !conn(b, instance, ty) || !ext_ok(ntfs, d, b, instance, ty) ==> al_runs(ntfs, d, b, instance, ty) == Seq::<RunG>::empty(),
        conn(b, instance, ty) && ext_ok(ntfs, d, b, instance, ty) ==> ({
            let s = ext_s(ntfs, d, b, instance, ty);
            al_runs(ntfs, d, b, instance, ty) == dec_runs(s, 0, 0, ntfs.cs()) + (if dec_bad(s, 0, 0, ntfs.cs()) { Seq::empty() } else { al_runs(ntfs, d, b.subrange(le_len(b, 0), b.len() as int), instance, ty) })
        }),
{
    reveal_with_fuel(al_runs, 2);
}
pub proof fn lemma_al_runs_ok(ntfs: Ntfs, d: Seq<u8>, b: Seq<u8>, instance: u16, ty: NtfsAttributeType)
    requires ntfs.inv(),
    ensures runs_ok(al_runs(ntfs, d, b, instance, ty)),
    decreases b.len(),
{
    lemma_al_runs(ntfs, d, b, instance, ty);
    if conn(b, instance, ty) && ext_ok(ntfs, d, b, instance, ty) {
        let s = ext_s(ntfs, d, b, instance, ty);
        lemma_dec_runs_ok(s, 0, 0, ntfs.cs());
        lemma_al_runs_ok(ntfs, d, b.subrange(le_len(b, 0), b.len() as int), instance, ty);
    }
}
/// Decoding one more run.
pub proof fn lemma_dec_step(s: Seq<u8>, o: int, prev: int, cs: int)
    requires 0 <= o, 0 < cs,
    ensures match dec_run(s, o, prev, cs) {
        Dec::Run { run, next, lcn } => o < next && dec_runs(s, o, prev, cs) == seq![run] + dec_runs(s, next, lcn, cs) && dec_bad(s, o, prev, cs) == dec_bad(s, next, lcn, cs),
        Dec::Bad => dec_runs(s, o, prev, cs) == Seq::<RunG>::empty() && dec_bad(s, o, prev, cs),
        Dec::End => dec_runs(s, o, prev, cs) == Seq::<RunG>::empty() && !dec_bad(s, o, prev, cs),
    },
{
    lemma_dec_run_ok(s, o, prev, cs);
}
pub proof fn lemma_skip_step(all: Seq<RunG>, k: int, run: RunG, tl: Seq<RunG>)
    requires 0 <= k <= all.len(), all.skip(k) == seq![run] + tl,
    ensures k < all.len(), all[k] == run, tl == all.skip(k + 1), tl.len() == all.len() - k - 1,
{
    assert(all.skip(k).len() == 1 + tl.len());
    assert(all.skip(k)[0] == run);
    assert(tl =~= all.skip(k).skip(1));
    assert(tl =~= all.skip(k + 1));
}
impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        self.attribute_list_entries is Some ==> self.attribute_list_entries->Some_0.inv(d)
    }
    /// The bytes of the list entries still to come.
    pub open spec fn bytes(&self, d: Seq<u8>) -> Seq<u8> {
        match self.attribute_list_entries { Some(e) => e.bytes(d), None => Seq::empty() }
    }
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool {
        self.attribute_list_entries is Some ==> self.attribute_list_entries->Some_0.whole(d, a)
    }
    pub open spec fn good(&self, ntfs: Ntfs, d: Seq<u8>) -> bool { al_good(ntfs, d, self.bytes(d), self.instance, self.ty) }
    pub open spec fn same(&self, o: &Self) -> bool { self.instance == o.instance && self.ty == o.ty }
    pub open spec fn rest(&self, ntfs: Ntfs, d: Seq<u8>) -> Seq<RunG> { al_runs(ntfs, d, self.bytes(d), self.instance, self.ty) }
}
impl<'n> AttributeState<'n> {
    pub open spec fn inv(&self, ntfs: Ntfs) -> bool {
        &&& self.file.inv() && *self.file.ntfs == ntfs
        &&& at_ok(self.file.d(), self.attribute_offset as int)
        &&& !at_resident(self.file.d(), self.attribute_offset as int)
        &&& at_runs_ok(self.file.d(), self.attribute_offset as int)
    }
    pub open spec fn s(&self) -> Seq<u8> { at_runs(self.file.d(), self.attribute_offset as int) }
    /// The runs of this extent still to come.
    pub open spec fn rest(&self) -> Seq<RunG> {
        match self.data_runs_state { Some(st) => dec_runs(self.s(), st.off(), st.prev(), self.file.ntfs.cs()), None => Seq::empty() }
    }
    pub open spec fn bad(&self) -> bool {
        match self.data_runs_state { Some(st) => dec_bad(self.s(), st.off(), st.prev(), self.file.ntfs.cs()), None => false }
    }
    pub open spec fn dec(&self) -> Dec {
        match self.data_runs_state { Some(st) => dec_run(self.s(), st.off(), st.prev(), self.file.ntfs.cs()), None => Dec::End }
    }
}
/// The runs of the current extent and of the listed ones still to come.
#[verifier::opaque]
pub open spec fn runs_rest<'n, 'f>(a: Option<AttributeState<'n>>, c: AttributeListConnectedEntries<'n, 'f>, ntfs: Ntfs, d: Seq<u8>) -> Seq<RunG> {
    match a {
        Some(a) => a.rest() + (if a.bad() { Seq::empty() } else { c.rest(ntfs, d) }),
        None => c.rest(ntfs, d),
    }
}
pub open spec fn runs_spent<'n>(a: Option<AttributeState<'n>>) -> bool {
    match a { Some(a) => a.data_runs_state is None, None => true }
}
impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
    /// All runs of the value.
    pub open spec fn all(&self, d: Seq<u8>) -> Seq<RunG> {
        al_runs(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty)
    }
    /// The runs still to come.
    pub open spec fn rest(&self, d: Seq<u8>) -> Seq<RunG> { runs_rest(self.attribute_state, self.connected_entries, *self.ntfs, d) }
    /// How many of all runs have been handed out.
    pub open spec fn k(&self, d: Seq<u8>) -> int { self.all(d).len() - self.rest(d).len() }
    /// The current extent has no more runs.
    pub open spec fn spent(&self) -> bool { runs_spent(self.attribute_state) }
    pub open spec fn runs_wf(&self, d: Seq<u8>) -> bool {
        &&& self.ntfs.inv()
        &&& self.initial_attribute_list_entries.inv(d)
        &&& self.connected_entries.inv(d)
        &&& self.attribute_state is Some ==> self.attribute_state->Some_0.inv(*self.ntfs)
        &&& 0 <= self.k(d) && self.rest(d) == self.all(d).skip(self.k(d))
        &&& self.stream_state.data_size == self.data_size
        &&& forall|a: int| #[trigger] self.initial_attribute_list_entries.whole(d, a) ==> self.connected_entries.whole(d, a)
        &&& self.good(d) ==> self.connected_entries.good(*self.ntfs, d) && (self.attribute_state is Some ==> !self.attribute_state->Some_0.bad())
    }
    pub open spec fn good(&self, d: Seq<u8>) -> bool {
        al_good(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty)
    }
    pub open spec fn same(&self, o: &Self) -> bool {
        &&& self.ntfs == o.ntfs
        &&& self.initial_attribute_list_entries == o.initial_attribute_list_entries
        &&& self.connected_entries.same(&o.connected_entries)
        &&& self.data_size == o.data_size
    }
    pub open spec fn al_pos(&self, p: NtfsPosition) -> bool {
        forall|d: Seq<u8>| #[trigger] self.rs_inv(d) ==> runs_pos(self.all(d), self.rs_pos(), p)
    }
}
/// What going on to the next listed extent does.
pub proof fn lemma_next_attribute<'n, 'f>(v: NtfsAttributeListNonResidentAttributeValue<'n, 'f>, d: Seq<u8>)
    requires v.runs_wf(d), v.spent(),
    ensures ({
        let b = v.connected_entries.bytes(d);
        let ntfs = *v.ntfs;
        let instance = v.connected_entries.instance;
        let ty = v.connected_entries.ty;
        let s = ext_s(ntfs, d, b, instance, ty);
        let b1 = b.subrange(le_len(b, 0), b.len() as int);
        let r1 = al_runs(ntfs, d, b1, instance, ty);
        &&& v.rest(d) == al_runs(ntfs, d, b, instance, ty)
        &&& forall|a: Option<AttributeState<'n>>, c: AttributeListConnectedEntries<'n, 'f>| c.same(&v.connected_entries) && runs_spent(a) ==> #[trigger] runs_rest(a, c, ntfs, d) == al_runs(ntfs, d, c.bytes(d), instance, ty)
        &&& forall|b2: Seq<u8>| b2.len() == 0 ==> #[trigger] al_runs(ntfs, d, b2, instance, ty) == Seq::<RunG>::empty()
        &&& !conn(b, instance, ty) ==> v.k(d) == v.all(d).len() && v.all(d).skip(v.k(d)) == Seq::<RunG>::empty()
        &&& conn(b, instance, ty) ==> b1.len() < b.len()
        &&& forall|b2: Seq<u8>| b2.len() == 0 ==> #[trigger] al_good(ntfs, d, b2, instance, ty)
        &&& al_good(ntfs, d, b, instance, ty) ==> {
            ||| b.len() == 0
            ||| le_ok(b, 0) && (le16(b, 24) == instance ==> NtfsAttributeType::n_spec(le_ty(b, 0)) is Some) && (conn(b, instance, ty) ==> ext_ok(ntfs, d, b, instance, ty) && !(dec_run(s, 0, 0, ntfs.cs()) is Bad) && al_good(ntfs, d, b1, instance, ty))
        }
        &&& al_good(ntfs, d, b, instance, ty) && conn(b, instance, ty) ==> match dec_run(s, 0, 0, ntfs.cs()) {
            Dec::Run { run, next, lcn } => !dec_bad(s, next, lcn, ntfs.cs()),
            _ => true,
        }
        &&& conn(b, instance, ty) && ext_ok(ntfs, d, b, instance, ty) ==> match dec_run(s, 0, 0, ntfs.cs()) {
            Dec::Run { run, next, lcn } => {
                let tl = dec_runs(s, next, lcn, ntfs.cs()) + (if dec_bad(s, next, lcn, ntfs.cs()) { Seq::empty() } else { r1 });
                &&& v.k(d) < v.all(d).len() && v.all(d)[v.k(d)] == run && tl == v.all(d).skip(v.k(d) + 1) && tl.len() == v.all(d).len() - v.k(d) - 1
                &&& forall|a: Option<AttributeState<'n>>, c: AttributeListConnectedEntries<'n, 'f>| c.same(&v.connected_entries) && c.bytes(d) == b1 && (match a {
                    Some(a) => a.s() == s && a.file.ntfs.cs() == ntfs.cs() && a.data_runs_state is Some && a.data_runs_state->Some_0.off() == next && a.data_runs_state->Some_0.prev() == lcn,
                    None => false,
                }) ==> #[trigger] runs_rest(a, c, ntfs, d) == tl
            },
            Dec::End => al_runs(ntfs, d, b, instance, ty) == r1,
            Dec::Bad => true,
        }
    }),
{
    let b = v.connected_entries.bytes(d);
    let ntfs = *v.ntfs;
    let instance = v.connected_entries.instance;
    let ty = v.connected_entries.ty;
    let s = ext_s(ntfs, d, b, instance, ty);
    let b1 = b.subrange(le_len(b, 0), b.len() as int);
    let r1 = al_runs(ntfs, d, b1, instance, ty);
    reveal(runs_rest);
    assert forall|a: Option<AttributeState<'n>>, c: AttributeListConnectedEntries<'n, 'f>| c.same(&v.connected_entries) && runs_spent(a) implies #[trigger] runs_rest(a, c, ntfs, d) == al_runs(ntfs, d, c.bytes(d), instance, ty) by {
        assert(runs_rest(a, c, ntfs, d) =~= al_runs(ntfs, d, c.bytes(d), instance, ty));
    }
    assert forall|b2: Seq<u8>| b2.len() == 0 implies #[trigger] al_runs(ntfs, d, b2, instance, ty) == Seq::<RunG>::empty() by { lemma_al_runs(ntfs, d, b2, instance, ty); }
    lemma_al_runs(ntfs, d, b, instance, ty);
    assert(v.all(d).skip(v.all(d).len() as int) =~= Seq::<RunG>::empty());
    assert forall|b2: Seq<u8>| b2.len() == 0 implies #[trigger] al_good(ntfs, d, b2, instance, ty) by { lemma_al_good(ntfs, d, b2, instance, ty); }
    lemma_al_good(ntfs, d, b, instance, ty);
    lemma_dec_step(s, 0, 0, ntfs.cs());
    if conn(b, instance, ty) && ext_ok(ntfs, d, b, instance, ty) {
        lemma_dec_step(s, 0, 0, ntfs.cs());
        match dec_run(s, 0, 0, ntfs.cs()) {
            Dec::Run { run, next, lcn } => {
                let tl = dec_runs(s, next, lcn, ntfs.cs()) + (if dec_bad(s, next, lcn, ntfs.cs()) { Seq::empty() } else { r1 });
                assert(v.rest(d) =~= seq![run] + tl);
                lemma_skip_step(v.all(d), v.k(d), run, tl);
            },
            _ => {},
        }
    }
}
@inject impl NtfsAttributeListNonResidentAttributeValue:NtfsReadSeek
    open spec fn rs_content(&self, d: Seq<u8>) -> Seq<u8> {
        Seq::new(self.data_size as nat, |i: int| runs_byte(self.all(d), d, self.all(d).len() as int, i))
    }
    open spec fn rs_avail(&self, d: Seq<u8>, a: int) -> int {
        if total(self.all(d)) < self.data_size { total(self.all(d)) } else { self.data_size as int }
    }
    open spec fn rs_whole(&self, d: Seq<u8>, a: int) -> bool {
        &&& self.initial_attribute_list_entries.whole(d, a)
        &&& al_whole(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty, self.data_size as int, a)
    }
    open spec fn rs_inv(&self, d: Seq<u8>) -> bool {
        self.runs_wf(d) && cur_ok(self.all(d), self.k(d), self.stream_state.stream_data_run, self.stream_state.stream_position as int)
    }
    open spec fn rs_pos(&self) -> int { self.stream_state.stream_position as int }
@fn AttributeListConnectedEntries::new
@props C08
@ensures
        r.attribute_list_entries == Some(attribute_list_entries), r.instance == instance, r.ty == ty,
@fn AttributeListConnectedEntries::next
@props C08
@requires
        old(fs).dinv(), old(self).inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).same(old(self)), final(self).inv(old(fs).disk()),
        forall|a: int| old(self).whole(old(fs).disk(), a) ==> #[trigger] final(self).whole(old(fs).disk(), a),
        match r {
            None => !conn(old(self).bytes(old(fs).disk()), old(self).instance, old(self).ty) && final(self).bytes(old(fs).disk()).len() == 0,
            Some(Ok(e)) => {
                let b = old(self).bytes(old(fs).disk());
                &&& conn(b, old(self).instance, old(self).ty)
                &&& e.is(b, 0)
                &&& final(self).bytes(old(fs).disk()) == b.subrange(le_len(b, 0), b.len() as int)
            },
            Some(Err(_)) => {
                let b = old(self).bytes(old(fs).disk());
                T::dsound() && old(self).whole(old(fs).disk(), old(fs).davail()) ==> b.len() > 0 && (!le_ok(b, 0) || le16(b, 24) == old(self).instance && NtfsAttributeType::n_spec(le_ty(b, 0)) is None)
            },
        },
@fn NtfsAttributeListNonResidentAttributeValue::new
@props C08 C23
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), ntfs.inv(), attribute_list_entries.inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        match r {
            Ok(v) => {
                &&& v.rs_inv(old(fs).disk()) && v.rs_pos() == 0
                &&& v.ntfs == ntfs && v.initial_attribute_list_entries == attribute_list_entries
                &&& v.connected_entries.instance == instance && v.connected_entries.ty == ty
                &&& v.data_size == data_size
            },
            Err(_) => !(T::dsound() && attribute_list_entries.whole(old(fs).disk(), old(fs).davail()) && ntfs.mft_whole(old(fs).disk(), old(fs).davail())
                && al_good(*ntfs, old(fs).disk(), attribute_list_entries.bytes(old(fs).disk()), instance, ty)),
        },
@proof before value.next_attribute
        proof {
            reveal(runs_rest);
            let d = fs.disk();
            assert(value.all(d).skip(0) =~= value.all(d));
            lemma_al_runs_ok(*ntfs, d, attribute_list_entries.bytes(d), instance, ty);
        }
@fn NtfsAttributeListNonResidentAttributeValue::data_position
@props C23
@ensures
        self.al_pos(r),
@proof start
        proof {
            assert forall|d: Seq<u8>| #[trigger] self.rs_inv(d) && self.stream_state.stream_data_run is Some implies
                    runs_pos(self.all(d), self.rs_pos(), crate::types::pos_add(self.stream_state.stream_data_run->Some_0.position, self.stream_state.stream_data_run->Some_0.stream_position as int)) by {
                lemma_al_runs_ok(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty);
                lemma_cur_pos(self.all(d), self.k(d), self.stream_state.stream_data_run, self.rs_pos());
            }
        }
@fn NtfsAttributeListNonResidentAttributeValue::is_empty
@props C08
@ensures
        r <==> self.data_size == 0,
@fn NtfsAttributeListNonResidentAttributeValue::len
@props C08 C06
@ensures
        r == self.data_size,
@fn NtfsAttributeListNonResidentAttributeValue::ntfs
@props C08
@ensures
        r == self.ntfs,
@fn NtfsAttributeListNonResidentAttributeValue::next_data_run
@props C08 C23
@requires
        old(self).ntfs.inv(),
        old(self).attribute_state is Some ==> old(self).attribute_state->Some_0.inv(*old(self).ntfs),
@ensures
        final(self).same(old(self)),
        final(self).connected_entries == old(self).connected_entries,
        final(self).stream_state.stream_position == old(self).stream_state.stream_position,
        final(self).stream_state.data_size == old(self).stream_state.data_size,
        forall|d: Seq<u8>| #[trigger] old(self).runs_wf(d) ==> final(self).runs_wf(d),
        match r {
            Ok(true) => {
                &&& final(self).attribute_state is Some
                &&& match final(self).stream_state.stream_data_run {
                    Some(x) => x.inv() && x.stream_position == 0
                        && forall|d: Seq<u8>| #[trigger] old(self).runs_wf(d) ==> final(self).k(d) == old(self).k(d) + 1 && final(self).k(d) <= old(self).all(d).len() && x.g() == old(self).all(d)[old(self).k(d)],
                    None => false,
                }
            },
            Ok(false) => final(self).stream_state == old(self).stream_state && final(self).spent()
                && forall|d: Seq<u8>| #[trigger] old(self).runs_wf(d) ==> final(self).k(d) == old(self).k(d),
            Err(_) => *final(self) == *old(self) && old(self).attribute_state is Some && old(self).attribute_state->Some_0.dec() is Bad,
        },
@proof start
        proof {
            reveal(runs_rest);
            if self.attribute_state is Some && self.attribute_state->Some_0.data_runs_state is Some {
                let a = self.attribute_state->Some_0;
                let st = a.data_runs_state->Some_0;
                lemma_dec_step(a.s(), st.off(), st.prev(), self.ntfs.cs());
                match a.dec() {
                    Dec::Run { run, next, lcn } => {
                        let tl0 = dec_runs(a.s(), next, lcn, self.ntfs.cs());
                        assert forall|d: Seq<u8>| #[trigger] self.runs_wf(d) implies ({
                            let tl = tl0 + (if a.bad() { Seq::empty() } else { self.connected_entries.rest(*self.ntfs, d) });
                            let k = self.k(d);
                            k < self.all(d).len() && self.all(d)[k] == run && tl == self.all(d).skip(k + 1) && tl.len() == self.all(d).len() - k - 1
                        }) by {
                            let tl = tl0 + (if a.bad() { Seq::empty() } else { self.connected_entries.rest(*self.ntfs, d) });
                            assert(self.rest(d) =~= seq![run] + tl);
                            lemma_skip_step(self.all(d), self.k(d), run, tl);
                        }
                    },
                    Dec::End => {
                        assert forall|d: Seq<u8>| #[trigger] self.runs_wf(d) implies Seq::<RunG>::empty() + self.connected_entries.rest(*self.ntfs, d) == self.rest(d) by {
                            assert(Seq::<RunG>::empty() + self.connected_entries.rest(*self.ntfs, d) =~= self.rest(d));
                        }
                    },
                    _ => {},
                }
            }
        }
@fn NtfsAttributeListNonResidentAttributeValue::next_attribute
@props C08 C23
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), old(self).runs_wf(old(fs).disk()), old(self).spent(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).same(old(self)),
        final(self).runs_wf(old(fs).disk()),
        final(self).stream_state.stream_position == old(self).stream_state.stream_position,
        final(self).stream_state.data_size == old(self).stream_state.data_size,
        T::dsound() && old(self).initial_attribute_list_entries.whole(old(fs).disk(), old(fs).davail()) && old(self).ntfs.mft_whole(old(fs).disk(), old(fs).davail()) && old(self).good(old(fs).disk()) ==> r is Ok,
        match r {
            Ok(true) => {
                &&& final(self).k(old(fs).disk()) == old(self).k(old(fs).disk()) + 1 && final(self).k(old(fs).disk()) <= old(self).all(old(fs).disk()).len()
                &&& match final(self).stream_state.stream_data_run {
                    Some(x) => x.inv() && x.stream_position == 0 && x.g() == old(self).all(old(fs).disk())[old(self).k(old(fs).disk())],
                    None => false,
                }
            },
            Ok(false) => final(self).stream_state == old(self).stream_state && final(self).k(old(fs).disk()) == final(self).all(old(fs).disk()).len() && old(self).k(old(fs).disk()) == final(self).k(old(fs).disk()),
            Err(_) => *final(self) == *old(self),
        },
@fn NtfsAttributeListNonResidentAttributeValue::read_next_attribute
@props C08 C23
@attr
#[verifier::spinoff_prover]
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), old(self).runs_wf(old(fs).disk()), old(self).spent(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).same(old(self)),
        final(self).stream_state.stream_position == old(self).stream_state.stream_position,
        final(self).stream_state.data_size == old(self).stream_state.data_size,
        T::dsound() && old(self).initial_attribute_list_entries.whole(old(fs).disk(), old(fs).davail()) && old(self).ntfs.mft_whole(old(fs).disk(), old(fs).davail()) && old(self).good(old(fs).disk()) ==> r is Ok,
        match r {
            Ok(true) => {
                &&& final(self).runs_wf(old(fs).disk())
                &&& final(self).k(old(fs).disk()) == old(self).k(old(fs).disk()) + 1 && final(self).k(old(fs).disk()) <= old(self).all(old(fs).disk()).len()
                &&& match final(self).stream_state.stream_data_run {
                    Some(x) => x.inv() && x.stream_position == 0 && x.g() == old(self).all(old(fs).disk())[old(self).k(old(fs).disk())],
                    None => false,
                }
            },
            Ok(false) => final(self).runs_wf(old(fs).disk()) && final(self).stream_state == old(self).stream_state && final(self).k(old(fs).disk()) == final(self).all(old(fs).disk()).len() && old(self).k(old(fs).disk()) == final(self).k(old(fs).disk()),
            Err(_) => final(self).stream_state == old(self).stream_state && final(self).attribute_state == old(self).attribute_state,
        },
@loop 0
            invariant
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                self.same(old(self)), self.runs_wf(fs.disk()), self.spent(),
                self.k(fs.disk()) == old(self).k(fs.disk()),
                self.stream_state == old(self).stream_state, self.attribute_state == old(self).attribute_state,
            decreases self.connected_entries.bytes(fs.disk()).len(),
@proof loop0.start
            proof { lemma_next_attribute(*self, fs.disk()); }
@fn NtfsAttributeListNonResidentAttributeValue::rewind
@props C08 C23 C06
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), old(self).runs_wf(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).same(old(self)),
        T::dsound() && old(self).initial_attribute_list_entries.whole(old(fs).disk(), old(fs).davail()) && old(self).ntfs.mft_whole(old(fs).disk(), old(fs).davail()) && old(self).good(old(fs).disk()) ==> r is Ok,
        r is Ok ==> final(self).rs_inv(old(fs).disk()) && final(self).rs_pos() == 0
            && (final(self).stream_state.stream_data_run is Some ==> final(self).stream_state.stream_data_run->Some_0.stream_position == 0),
@proof before self.next_attribute
        proof {
            reveal(runs_rest);
            let d = fs.disk();
            assert(self.all(d).skip(0) =~= self.all(d));
            lemma_al_runs_ok(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty);
        }
@fn NtfsAttributeListNonResidentAttributeValue:NtfsReadSeek::read
@props C08 C23
@attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
#[verifier::exec_allows_no_decreases_clause]
@ensures C08
        final(self).same(old(self)),
@proof start
        let ghost d = fs.disk();
        let ghost all = self.all(d);
        let ghost c = self.rs_content(d);
        let ghost p0 = self.rs_pos();
        let ghost a0 = fs.davail();
        proof { lemma_al_runs_ok(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty); }
@loop 0
            invariant
                fs.dinv(), fs.disk() == d, d == old(fs).disk(), fs.davail() == a0, a0 == old(fs).davail(),
                all == old(self).all(d), self.all(d) == all, runs_ok(all), c == old(self).rs_content(d), p0 == old(self).rs_pos(),
                self.same(old(self)), self.rs_inv(d),
                buf@.len() == old(buf)@.len(), bytes_read <= buf@.len(),
                self.rs_pos() == p0 + bytes_read,
                bytes_read > 0 ==> p0 + bytes_read <= self.rs_avail(d, a0),
                forall|i: int| 0 <= i < bytes_read ==> #[trigger] buf@[i] == c[p0 + i],
            ensures
                bytes_read > 0 || buf@.len() == 0 || self.rs_pos() >= self.rs_avail(d, a0),
            decreases buf@.len() - bytes_read, all.len() - self.k(d),
@proof loop0.start
            proof {
                if self.stream_state.stream_data_run is Some {
                    lemma_cur_byte(all, self.k(d), self.stream_state.stream_data_run, self.rs_pos(), d);
                    assert(prefix(all, self.k(d)) == prefix(all, self.k(d) - 1) + all[self.k(d) - 1].len);
                }
            }
@proof before-tail
        proof {
            if bytes_read > 0 { assert(buf@.subrange(0, bytes_read as int) =~= c.subrange(p0, p0 + bytes_read)); }
        }
@fn NtfsAttributeListNonResidentAttributeValue:NtfsReadSeek::seek
@props C08 C06 C23
@attr
#[verifier::exec_allows_no_decreases_clause]
@ensures C08
        final(self).same(old(self)),
@fn NtfsAttributeListNonResidentAttributeValue:NtfsReadSeek::stream_position
@props C06 C08
@fn NtfsAttributeListNonResidentAttributeValue::traverse_data_runs
@props C08 C06 C23
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(),
        old(self).rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(),
        final(fs).disk() == old(fs).disk(),
        final(fs).davail() == old(fs).davail(),
        final(self).same(old(self)),
        match r {
            Ok(n) => {
                &&& final(self).rs_inv(old(fs).disk())
                &&& n == crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), old(self).data_size as int)
                &&& final(self).rs_pos() == n
            },
            Err(_) => !(T::dsound() && old(self).rs_whole(old(fs).disk(), old(fs).davail()))
                || !(0 <= crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), old(self).data_size as int) <= u64::MAX),
        },
@proof before-loop0
        let ghost d = fs.disk();
        let ghost a0 = fs.davail();
        let ghost all = self.all(d);
        let ghost q = self.rs_pos();
        let ghost t = self.rs_pos() + bytes_left_to_seek;
        proof { lemma_al_runs_ok(*self.ntfs, d, self.initial_attribute_list_entries.bytes(d), self.connected_entries.instance, self.connected_entries.ty); }
@loop 0
            invariant_except_break
                seek_ok(all, self.k(d), self.stream_state.stream_data_run, bytes_left_to_seek as int, t),
                match pos {
                    SeekFrom::Start(_) => self.stream_state.stream_data_run is Some && bytes_left_to_seek > 0 ==> self.stream_state.stream_data_run->Some_0.stream_position == 0,
                    SeekFrom::Current(_) => bytes_left_to_seek <= i64::MAX,
                    SeekFrom::End(_) => false,
                },
            invariant
                fs.dinv(), fs.disk() == d, d == old(fs).disk(), fs.davail() == a0, a0 == old(fs).davail(),
                all == old(self).all(d), self.all(d) == all, runs_ok(all),
                self.same(old(self)), self.runs_wf(d), self.rs_pos() == q,
            ensures
                seek_ok(all, self.k(d), self.stream_state.stream_data_run, 0, t),
            decreases all.len() - self.k(d),
@proof loop0.start
            proof {
                if self.stream_state.stream_data_run is Some {
                    assert(prefix(all, self.k(d)) == prefix(all, self.k(d) - 1) + all[self.k(d) - 1].len);
                }
            }
