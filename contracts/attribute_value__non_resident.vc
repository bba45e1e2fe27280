@file src/attribute_value/non_resident.rs attribute_value::non_resident
@text
/// A run of clusters: its start in the filesystem (meaningless if sparse) and its length, in bytes.
pub struct RunG { pub pos: int, pub len: int, pub sparse: bool }
pub enum Dec { End, Bad, Run { run: RunG, next: int, lcn: int } }

/// Unsigned little-endian integer in `s[o..o+n]`.
pub open spec fn le_u(s: Seq<u8>, o: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { s[o] as int + 256 * le_u(s, o + 1, n - 1) }
}
pub open spec fn pow256(n: int) -> int
    decreases n,
{
    if n <= 0 { 1 } else { 256 * pow256(n - 1) }
}
/// Signed (two's complement) little-endian integer in `s[o..o+n]`.
pub open spec fn le_s(s: Seq<u8>, o: int, n: int) -> int {
    let u = le_u(s, o, n);
    if 2 * u >= pow256(n) && n > 0 { u - pow256(n) } else { u }
}
/// What the bytes at `o` of the encoded runs `s` denote; `prev` is the cluster of the previous non-sparse run.
pub open spec fn dec_run(s: Seq<u8>, o: int, prev: int, cs: int) -> Dec {
    if o >= s.len() || s[o] == 0 {
        Dec::End
    } else {
        let nc = s[o] as int % 16;
        let nv = s[o] as int / 16;
        let count = le_u(s, o + 1, nc);
        let lcn = prev + le_s(s, o + 1 + nc, nv);
        if nc > 8 || nv > 8 || o + 1 + nc + nv > s.len() || count == 0 || count * cs > u64::MAX {
            Dec::Bad
        } else if nv == 0 {
            Dec::Run { run: RunG { pos: 0, len: count * cs, sparse: true }, next: o + 1 + nc, lcn: prev }
        } else if lcn < 0 || lcn > u64::MAX || lcn * cs + count * cs > u64::MAX {
            Dec::Bad
        } else {
            Dec::Run { run: RunG { pos: lcn * cs, len: count * cs, sparse: false }, next: o + 1 + nc + nv, lcn }
        }
    }
}
/// All runs from offset `o` on, up to the end or the first malformed one.
pub open spec fn dec_runs(s: Seq<u8>, o: int, prev: int, cs: int) -> Seq<RunG>
    decreases s.len() - o,
{
    if o < 0 { Seq::empty() } else {
        match dec_run(s, o, prev, cs) {
            Dec::Run { run, next, lcn } => if o < next { seq![run] + dec_runs(s, next, lcn, cs) } else { Seq::empty() },
            _ => Seq::empty(),
        }
    }
}
/// Whether the run list ends in a malformed run.
pub open spec fn dec_bad(s: Seq<u8>, o: int, prev: int, cs: int) -> bool
    decreases s.len() - o,
{
    if o < 0 { false } else {
        match dec_run(s, o, prev, cs) {
            Dec::Run { run, next, lcn } => if o < next { dec_bad(s, next, lcn, cs) } else { false },
            Dec::Bad => true,
            Dec::End => false,
        }
    }
}
pub proof fn lemma_le_u(s: Seq<u8>, o: int, n: int)
    ensures 0 <= le_u(s, o, n) < pow256(n), pow256(n) >= 1,
    decreases n,
{
    if n > 0 { lemma_le_u(s, o + 1, n - 1); }
}
/// `b` is `s[o..o+n]` followed by zeros.
pub proof fn lemma_le_u_buf(b: Seq<u8>, s: Seq<u8>, o: int, n: int)
    requires
        b.len() == 8, 0 <= n <= 8,
        forall|i: int| 0 <= i < n ==> b[i] == s[o + i],
        forall|i: int| n <= i < 8 ==> b[i] == 0,
    ensures le64(b, 0) == le_u(s, o, n),
{
    reveal_with_fuel(le_u, 9);
}
pub proof fn lemma_pow256()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000,
        pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 9);
}
/// Sign extension by shifting an `n`-byte integer to the top and back.
pub proof fn lemma_sign_extend(x: u64, n: int, sh: u32)
    requires 0 <= n <= 8, x < pow256(n), sh == 64 - 8 * n,
    ensures (((x as i64) << (sh % 64)) >> (sh % 64)) as int == (if 2 * x >= pow256(n) && n > 0 { x - pow256(n) } else { x as int }),
{
    lemma_pow256();
    assert(x < 0x100u64 && x < 0x80u64 ==> (((x as i64) << 56i64) >> 56i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x100u64 && x >= 0x80u64 ==> (((x as i64) << 56i64) >> 56i64) as i128 == x as i128 - 0x100i128) by (bit_vector);
    assert(x < 0x10000u64 && x < 0x8000u64 ==> (((x as i64) << 48i64) >> 48i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x10000u64 && x >= 0x8000u64 ==> (((x as i64) << 48i64) >> 48i64) as i128 == x as i128 - 0x10000i128) by (bit_vector);
    assert(x < 0x1000000u64 && x < 0x800000u64 ==> (((x as i64) << 40i64) >> 40i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x1000000u64 && x >= 0x800000u64 ==> (((x as i64) << 40i64) >> 40i64) as i128 == x as i128 - 0x1000000i128) by (bit_vector);
    assert(x < 0x100000000u64 && x < 0x80000000u64 ==> (((x as i64) << 32i64) >> 32i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x100000000u64 && x >= 0x80000000u64 ==> (((x as i64) << 32i64) >> 32i64) as i128 == x as i128 - 0x100000000i128) by (bit_vector);
    assert(x < 0x10000000000u64 && x < 0x8000000000u64 ==> (((x as i64) << 24i64) >> 24i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x10000000000u64 && x >= 0x8000000000u64 ==> (((x as i64) << 24i64) >> 24i64) as i128 == x as i128 - 0x10000000000i128) by (bit_vector);
    assert(x < 0x1000000000000u64 && x < 0x800000000000u64 ==> (((x as i64) << 16i64) >> 16i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x1000000000000u64 && x >= 0x800000000000u64 ==> (((x as i64) << 16i64) >> 16i64) as i128 == x as i128 - 0x1000000000000i128) by (bit_vector);
    assert(x < 0x100000000000000u64 && x < 0x80000000000000u64 ==> (((x as i64) << 8i64) >> 8i64) as i128 == x as i128) by (bit_vector);
    assert(x < 0x100000000000000u64 && x >= 0x80000000000000u64 ==> (((x as i64) << 8i64) >> 8i64) as i128 == x as i128 - 0x100000000000000i128) by (bit_vector);
    assert(x < 0x8000000000000000u64 ==> (((x as i64) << 0i64) >> 0i64) as i128 == x as i128) by (bit_vector);
    assert(x >= 0x8000000000000000u64 ==> (((x as i64) << 0i64) >> 0i64) as i128 == x as i128 - 0x10000000000000000i128) by (bit_vector);
    assert(x == 0 ==> (((x as i64) << 0i64) >> 0i64) == 0) by (bit_vector);
    assert(n == 0 || n == 1 || n == 2 || n == 3 || n == 4 || n == 5 || n == 6 || n == 7 || n == 8);
}
pub proof fn lemma_nibble(h: u8)
    ensures (h & 0x0f) == h % 16, ((h & 0xf0) >> 4) == h / 16, (h >> 4) == h / 16,
{
    assert((h & 0x0f) == h % 16 && ((h & 0xf0) >> 4) == h / 16 && (h >> 4) == h / 16) by (bit_vector);
}
pub proof fn lemma_nibbles()
    ensures
        forall|h: u8| #[trigger] (h & 0x0f) == h % 16,
        forall|h: u8| (#[trigger] (h & 0xf0)) >> 4 == h / 16,
        forall|h: u8| #[trigger] (h >> 4) == h / 16,
{
    assert forall|h: u8| #[trigger] (h & 0x0f) == h % 16 by { lemma_nibble(h); }
    assert forall|h: u8| (#[trigger] (h & 0xf0)) >> 4 == h / 16 by { lemma_nibble(h); }
    assert forall|h: u8| #[trigger] (h >> 4) == h / 16 by { lemma_nibble(h); }
}
pub proof fn lemma_le_u_sub1(s: Seq<u8>, o: int, p: int, n: int)
    requires 0 <= o, 0 <= p, 0 <= n, o + p + n <= s.len(),
    ensures le_u(s.subrange(o, s.len() as int), p, n) == le_u(s, o + p, n),
    decreases n,
{
    if n > 0 { lemma_le_u_sub1(s, o, p + 1, n - 1); }
}
/// Integers read from `s[o..]`.
pub proof fn lemma_le_u_sub(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len(),
    ensures forall|p: int, n: int| 0 <= p && 0 <= n && o + p + n <= s.len() ==> #[trigger] le_u(s.subrange(o, s.len() as int), p, n) == le_u(s, o + p, n),
{
    assert forall|p: int, n: int| 0 <= p && 0 <= n && o + p + n <= s.len() implies #[trigger] le_u(s.subrange(o, s.len() as int), p, n) == le_u(s, o + p, n) by {
        lemma_le_u_sub1(s, o, p, n);
    }
}

pub open spec fn prefix(all: Seq<RunG>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { prefix(all, k - 1) + all[k - 1].len }
}
pub open spec fn total(all: Seq<RunG>) -> int { prefix(all, all.len() as int) }
/// All runs lie before `a`.
pub open spec fn runs_in(all: Seq<RunG>, a: int) -> bool {
    forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]).sparse || all[k].pos + all[k].len <= a
}
/// The runs encoded in `s` are well-formed, cover `size` bytes, and lie before `a`.
pub open spec fn nr_whole(s: Seq<u8>, size: int, cs: int, a: int) -> bool {
    !dec_bad(s, 0, 0, cs) && total(dec_runs(s, 0, 0, cs)) >= size && runs_in(dec_runs(s, 0, 0, cs), a)
}
/// Byte `i` of a run.
pub open spec fn run_byte(r: RunG, d: Seq<u8>, i: int) -> u8 {
    if r.sparse { 0 } else { d[r.pos + i] }
}
/// Byte `i` of the first `k` runs.
pub open spec fn runs_byte(all: Seq<RunG>, d: Seq<u8>, k: int, i: int) -> u8
    decreases k,
{
    if k <= 0 { 0 } else if i >= prefix(all, k - 1) { run_byte(all[k - 1], d, i - prefix(all, k - 1)) } else { runs_byte(all, d, k - 1, i) }
}
pub open spec fn runs_ok(all: Seq<RunG>) -> bool {
    forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]).len > 0 && (!all[k].sparse ==> 0 <= all[k].pos && all[k].pos + all[k].len <= u64::MAX) && all[k].len <= u64::MAX
}
pub proof fn lemma_prefix_mono(all: Seq<RunG>, i: int, j: int)
    requires runs_ok(all), 0 <= i <= j <= all.len(),
    ensures 0 <= prefix(all, i) <= prefix(all, j), i < j ==> prefix(all, i) < prefix(all, j),
    decreases j,
{
    if i < j { lemma_prefix_mono(all, i, j - 1); } else if i > 0 { lemma_prefix_mono(all, i - 1, j - 1); }
}
pub proof fn lemma_runs_byte(all: Seq<RunG>, d: Seq<u8>, k: int, n: int, i: int)
    requires runs_ok(all), 1 <= k <= n <= all.len(), prefix(all, k - 1) <= i < prefix(all, k),
    ensures runs_byte(all, d, n, i) == run_byte(all[k - 1], d, i - prefix(all, k - 1)),
    decreases n,
{
    if k < n {
        lemma_prefix_mono(all, k, n - 1);
        lemma_runs_byte(all, d, k, n - 1, i);
    }
}
pub proof fn lemma_dec_run_ok(s: Seq<u8>, o: int, prev: int, cs: int)
    requires 0 <= o, 0 < cs,
    ensures match dec_run(s, o, prev, cs) {
        Dec::Run { run, next, lcn } => o < next <= s.len() && 0 < run.len <= u64::MAX && (!run.sparse ==> 0 <= run.pos && run.pos + run.len <= u64::MAX)
            && (!run.sparse ==> 0 <= lcn <= u64::MAX) && (run.sparse ==> lcn == prev),
        _ => true,
    },
{
    if o < s.len() {
        let nc = s[o] as int % 16;
        let nv = s[o] as int / 16;
        let count = le_u(s, o + 1, nc);
        lemma_le_u(s, o + 1, nc);
        let lcn = prev + le_s(s, o + 1 + nc, nv);
        assert(count > 0 ==> count * cs > 0) by (nonlinear_arith) requires cs > 0;
        assert(lcn >= 0 ==> lcn * cs >= 0) by (nonlinear_arith) requires cs > 0;
    }
}
pub proof fn lemma_dec_runs_ok(s: Seq<u8>, o: int, prev: int, cs: int)
    requires 0 <= o, 0 < cs,
    ensures runs_ok(dec_runs(s, o, prev, cs)),
    decreases s.len() - o,
{
    lemma_dec_run_ok(s, o, prev, cs);
    match dec_run(s, o, prev, cs) {
        Dec::Run { run, next, lcn } => { lemma_dec_runs_ok(s, next, lcn, cs); },
        _ => {},
    }
}

pub proof fn lemma_rest_step(all: Seq<RunG>, k: int)
    requires 0 <= k <= all.len(),
    ensures
        all.skip(k).len() == all.len() - k,
        k < all.len() ==> all.skip(k) == seq![all[k]] + all.skip(k + 1),
{
    if k < all.len() { assert(all.skip(k) =~= seq![all[k]] + all.skip(k + 1)); }
}
impl NtfsDataRun {
    pub open spec fn start(&self) -> int {
        match self.position.0 { Some(x) => x.0 as int, None => 0 }
    }
    /// The run denoted by this object.
    pub open spec fn g(&self) -> RunG {
        RunG { pos: if self.is_sparse { 0 } else { self.start() }, len: self.allocated_size as int, sparse: self.is_sparse }
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.is_sparse ==> self.position.0 is None
        &&& self.position.0 is Some ==> self.start() != 0
        &&& self.is_sparse || self.start() + self.allocated_size <= u64::MAX
    }
}
impl DataRunsState {
    pub open spec fn off(&self) -> int { self.offset as int }
    pub open spec fn prev(&self) -> int { self.previous_lcn.0 as int }
}
impl<'n, 'f> NtfsDataRuns<'n, 'f> {
    pub open spec fn inv(&self) -> bool {
        0 < self.ntfs.cluster_size <= 2097152
    }
    pub open spec fn cs(&self) -> int { self.ntfs.cluster_size as int }
    /// What comes next.
    pub open spec fn dec(&self) -> Dec { dec_run(self.data@, self.state.off(), self.state.prev(), self.cs()) }
    /// All runs still to come.
    pub open spec fn rest(&self) -> Seq<RunG> { dec_runs(self.data@, self.state.off(), self.state.prev(), self.cs()) }
    pub open spec fn bad(&self) -> bool { dec_bad(self.data@, self.state.off(), self.state.prev(), self.cs()) }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.ntfs == o.ntfs && self.data@ == o.data@ && self.data == o.data && self.position == o.position
    }
}
/// The current run of a value with the runs `all`, `k` of which have been handed out, fits position `p`.
pub open spec fn cur_ok(all: Seq<RunG>, k: int, cur: Option<NtfsDataRun>, p: int) -> bool {
    match cur {
        Some(r) => {
            &&& 1 <= k <= all.len() && r.inv() && r.g() == all[k - 1] && r.stream_position <= r.allocated_size
            &&& p == prefix(all, k - 1) + r.stream_position
        },
        None => k == all.len() && total(all) <= p,
    }
}
/// Seeking by `left` from the current run leads to position `t`.
pub open spec fn seek_ok(all: Seq<RunG>, k: int, cur: Option<NtfsDataRun>, left: int, t: int) -> bool {
    match cur {
        Some(r) => {
            &&& 1 <= k <= all.len() && r.inv() && r.g() == all[k - 1] && r.stream_position <= r.allocated_size
            &&& t == prefix(all, k - 1) + r.stream_position + left
        },
        None => k == all.len() && total(all) + left <= t,
    }
}
/// A byte stored in runs that are not sparse and not at the start of the filesystem has a position.
pub proof fn lemma_runs_pos_some(all: Seq<RunG>, p: int)
    requires runs_ok(all), p < total(all), forall|k: int| 0 <= k < all.len() ==> !(#[trigger] all[k]).sparse && all[k].pos > 0,
    ensures !runs_pos(all, p, NtfsPosition(None)),
{
    assert forall|k: int| !#[trigger] run_pos(all, k, p, NtfsPosition(None)) by {
        if run_pos(all, k, p, NtfsPosition(None)) {
            assert(!all[k - 1].sparse && all[k - 1].pos > 0);
            assert(prefix(all, k) == prefix(all, k - 1) + all[k - 1].len);
        }
    }
}
/// Position of byte `p` (or of the byte after the last one read) in the filesystem.
pub open spec fn runs_pos(all: Seq<RunG>, p: int, r: NtfsPosition) -> bool {
    ||| r.0 is None && p >= total(all)
    ||| exists|k: int| #[trigger] run_pos(all, k, p, r)
}
pub open spec fn run_pos(all: Seq<RunG>, k: int, p: int, r: NtfsPosition) -> bool {
    &&& 1 <= k <= all.len() && prefix(all, k - 1) <= p <= prefix(all, k)
    &&& r == (if all[k - 1].sparse || all[k - 1].pos == 0 { NtfsPosition(None) } else { crate::types::pos_of(all[k - 1].pos + p - prefix(all, k - 1)) })
}
pub proof fn lemma_cur_pos(all: Seq<RunG>, k: int, cur: Option<NtfsDataRun>, p: int)
    requires runs_ok(all), cur_ok(all, k, cur, p), cur is Some,
    ensures runs_pos(all, p, crate::types::pos_add(cur->Some_0.position, cur->Some_0.stream_position as int)),
{
    let c = cur->Some_0;
    assert(prefix(all, k) == prefix(all, k - 1) + all[k - 1].len);
    assert(run_pos(all, k, p, crate::types::pos_add(c.position, c.stream_position as int)));
}
pub proof fn lemma_cur_byte(all: Seq<RunG>, k: int, cur: Option<NtfsDataRun>, p: int, d: Seq<u8>)
    requires runs_ok(all), cur_ok(all, k, cur, p), cur is Some,
    ensures
        p + cur->Some_0.allocated_size - cur->Some_0.stream_position <= total(all),
        cur->Some_0.stream_position < cur->Some_0.allocated_size ==> p < total(all),
        forall|j: int| cur->Some_0.stream_position <= j < cur->Some_0.allocated_size ==>
            #[trigger] run_byte(cur->Some_0.g(), d, j) == runs_byte(all, d, all.len() as int, p + j - cur->Some_0.stream_position)
                && p + j - cur->Some_0.stream_position < total(all),
{
    let c = cur->Some_0;
    lemma_prefix_mono(all, k, all.len() as int);
    assert(prefix(all, k) == prefix(all, k - 1) + all[k - 1].len);
    assert forall|j: int| c.stream_position <= j < c.allocated_size implies
            #[trigger] run_byte(c.g(), d, j) == runs_byte(all, d, all.len() as int, p + j - c.stream_position) && p + j - c.stream_position < total(all) by {
        lemma_runs_byte(all, d, k, all.len() as int, p + j - c.stream_position);
    }
}
impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
    /// All runs of the value.
    pub open spec fn all(&self) -> Seq<RunG> { dec_runs(self.data@, 0, 0, self.ntfs.cluster_size as int) }
    /// The run list ends in a malformed run.
    pub open spec fn bad(&self) -> bool { dec_bad(self.data@, 0, 0, self.ntfs.cluster_size as int) }
    /// How many of them the iterator has handed out.
    pub open spec fn k(&self) -> int { self.all().len() - self.stream_data_runs.rest().len() }
    pub open spec fn runs_wf(&self) -> bool {
        &&& self.stream_data_runs.inv()
        &&& self.stream_data_runs.ntfs == self.ntfs && self.stream_data_runs.data == self.data && self.stream_data_runs.position == self.position
        &&& 0 <= self.k() && self.stream_data_runs.rest() == self.all().skip(self.k())
        &&& self.stream_data_runs.bad() == self.bad()
    }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.ntfs == o.ntfs && self.data == o.data && self.position == o.position && self.stream_state.data_size == o.stream_state.data_size
    }
}
impl<'n, 'f, 'a, T: Read + Seek> crate::vx::binrw::io::Dev for NtfsNonResidentAttributeValueAttached<'n, 'f, 'a, T> {
    open spec fn disk(&self) -> Seq<u8> { self.value.rs_content((*self.fs).disk()) }
    type Under = (Seq<u8>, int, T);
    #[verifier::prophetic]
    open spec fn dunder(&self) -> (Seq<u8>, int, T) { ((*self.fs).disk(), (*self.fs).davail(), *final(self.fs)) }
    open spec fn dpos(&self) -> int { self.value.rs_pos() }
    open spec fn dinv(&self) -> bool { (*self.fs).dinv() && self.value.rs_inv((*self.fs).disk()) }
    open spec fn davail(&self) -> int { self.value.rs_avail((*self.fs).disk(), (*self.fs).davail()) }
    open spec fn dsafe(&self) -> int {
        if T::dsound() && self.value.rs_whole((*self.fs).disk(), (*self.fs).davail()) { self.value.stream_state.data_size as int } else { -1 }
    }
    open spec fn dsound() -> bool { false }
}
@fn NtfsDataRuns::new
@props C04 C05 C08
@ensures
        r.ntfs == ntfs, r.data == data, r.position == position, r.state.off() == 0, r.state.prev() == 0,
@fn NtfsDataRuns::from_state
@props C04 C08 C05
@ensures
        r.ntfs == ntfs, r.data == data, r.position == position, r.state == state,
@fn NtfsDataRuns::into_state
@props C04 C08 C05
@ensures
        r == self.state,
@fn NtfsDataRuns::position
@props C04 C23
@ensures
        r == crate::types::pos_add(self.position, self.state.offset as int),
@fn NtfsDataRuns::read_variable_length_bytes
@props C04 C05 C08
@requires
        old(cursor).p <= old(cursor).x@.len(),
@ensures
        r is Ok <==> byte_count <= 8 && old(cursor).p + byte_count <= old(cursor).x@.len(),
        final(cursor).x == old(cursor).x,
        match r {
            Ok(b) => {
                &&& final(cursor).p == old(cursor).p + byte_count
                &&& forall|i: int| 0 <= i < byte_count ==> b@[i] == old(cursor).x@[old(cursor).p + i]
                &&& forall|i: int| byte_count <= i < 8 ==> b@[i] == 0
            },
            Err(_) => true,
        },
@proof after let mut buf
        proof { assert(forall|i: int| 0 <= i < 8 ==> buf@[i] == 0); }
@fn NtfsDataRuns::read_variable_length_unsigned_integer
@props C04 C05 C08
@requires
        old(cursor).p <= old(cursor).x@.len(),
@ensures
        r is Ok <==> byte_count <= 8 && old(cursor).p + byte_count <= old(cursor).x@.len(),
        final(cursor).x == old(cursor).x,
        match r {
            Ok(v) => final(cursor).p == old(cursor).p + byte_count && v == le_u(old(cursor).x@, old(cursor).p as int, byte_count as int),
            Err(_) => true,
        },
@proof before-tail
        proof { lemma_le_u_buf(buf@, old(cursor).x@, old(cursor).p as int, byte_count as int); }
@fn NtfsDataRuns::read_variable_length_signed_integer
@props C04 C05 C08
@requires
        old(cursor).p <= old(cursor).x@.len(),
@ensures
        r is Ok <==> byte_count <= 8 && old(cursor).p + byte_count <= old(cursor).x@.len(),
        final(cursor).x == old(cursor).x,
        match r {
            Ok(v) => final(cursor).p == old(cursor).p + byte_count && v as int == le_s(old(cursor).x@, old(cursor).p as int, byte_count as int),
            Err(_) => true,
        },
@proof before-tail
        proof {
            lemma_le_u_buf(buf@, old(cursor).x@, old(cursor).p as int, byte_count as int);
            lemma_le_u(old(cursor).x@, old(cursor).p as int, byte_count as int);
            lemma_sign_extend(le64(buf@, 0), byte_count as int, ((8 - byte_count as int) * 8) as u32);
        }
@fn NtfsDataRuns:Iterator::next
@props C04 C05 C08 C23
@requires
        old(self).inv(),
@ensures
        final(self).same(old(self)),
        match old(self).dec() {
            Dec::End => r is None && final(self).dec() is End && final(self).state.prev() == old(self).state.prev(),
            Dec::Bad => r is Some && r->Some_0 is Err && final(self).state == old(self).state,
            Dec::Run { run, next, lcn } => {
                &&& match r { Some(Ok(x)) => x.g() == run && x.stream_position == 0 && x.inv(), _ => false }
                &&& final(self).state.off() == next
                &&& final(self).state.prev() == lcn
            },
        },
@proof start
        proof {
            if self.state.offset < self.data@.len() { lemma_le_u_sub(self.data@, self.state.offset as int); }
            lemma_nibbles();
        }
@fn NtfsDataRun::new
@props C04 C05 C08 C23
@ensures
        r.position == position, r.allocated_size == allocated_size, r.stream_position == 0, r.is_sparse == is_sparse,
@fn NtfsDataRun::allocated_size
@props C04 C05 C08
@ensures
        r == self.allocated_size,
@fn NtfsDataRun::data_position
@props C23
@ensures
        r == (if self.stream_position <= self.allocated_size { crate::types::pos_add(self.position, self.stream_position as int) } else { NtfsPosition(None) }),
@fn NtfsDataRun::remaining_len
@props C05 C08
@ensures
        r == (if self.stream_position <= self.allocated_size { self.allocated_size - self.stream_position } else { 0 }),
@inject impl NtfsDataRun:NtfsReadSeek
    open spec fn rs_content(&self, d: Seq<u8>) -> Seq<u8> { Seq::new(self.allocated_size as nat, |i: int| run_byte(self.g(), d, i)) }
    open spec fn rs_avail(&self, d: Seq<u8>, a: int) -> int {
        if self.is_sparse || a - self.start() >= self.allocated_size { self.allocated_size as int } else if a <= self.start() { 0 } else { a - self.start() }
    }
    open spec fn rs_whole(&self, d: Seq<u8>, a: int) -> bool { self.is_sparse || self.start() + self.allocated_size <= a }
    open spec fn rs_inv(&self, d: Seq<u8>) -> bool { self.inv() }
    open spec fn rs_pos(&self) -> int { self.stream_position as int }
@fn NtfsDataRun:NtfsReadSeek::read
@props C05 C08 C23
@ensures
        final(self).position == old(self).position, final(self).allocated_size == old(self).allocated_size, final(self).is_sparse == old(self).is_sparse,
@proof before-tail
        proof {
            let d = old(fs).disk();
            let p = old(self).stream_position as int;
            let n = self.stream_position - p;
            if n > 0 {
                let b = buf@.subrange(0, n);
                let e = old(self).rs_content(d).subrange(p, p + n);
                assert(b.len() == e.len());
                if self.is_sparse {
                    assert forall|i: int| 0 <= i < n implies b[i] == e[i] by { assert(b[i] == buf@[i]); assert(buf@[i] == 0); }
                } else {
                    assert(b == d.subrange(old(self).start() + p, old(self).start() + p + n));
                }
                assert(buf@.subrange(0, n) =~= old(self).rs_content(d).subrange(p, p + n));
            }
        }
@fn NtfsDataRun:NtfsReadSeek::seek
@props C06 C05 C08 C23
@ensures
        final(self).position == old(self).position, final(self).allocated_size == old(self).allocated_size, final(self).is_sparse == old(self).is_sparse,
        r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, old(self).stream_position as int, old(self).allocated_size as int) <= u64::MAX,
@fn NtfsDataRun:NtfsReadSeek::stream_position
@props C06 C05 C08
@fn StreamState::new
@props C05 C08 C23
@ensures
        r.stream_data_run is None, r.stream_position == 0, r.data_size == data_size,
@fn StreamState::data_position
@props C23
@ensures
        r == (match self.stream_data_run {
            Some(x) => if x.stream_position <= x.allocated_size { crate::types::pos_add(x.position, x.stream_position as int) } else { NtfsPosition(None) },
            None => NtfsPosition(None),
        }),
@fn StreamState::data_size
@props C05 C08
@ensures
        r == self.data_size,
@fn StreamState::simplify_seek
@props C06 C05 C08 C23
@ensures
        r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, self.stream_position as int, data_size as int) <= u64::MAX,
        match r {
            Ok(SeekFrom::Start(n)) => n == crate::vx::binrw::io::seek_target(pos, self.stream_position as int, data_size as int),
            Ok(SeekFrom::Current(n)) => n >= 0 && self.stream_position + n == crate::vx::binrw::io::seek_target(pos, self.stream_position as int, data_size as int),
            Ok(SeekFrom::End(_)) => false,
            Err(_) => true,
        },
@proof start
        proof { crate::vx::lemma_neg_cast(); }
@fn StreamState::optimize_seek
@props C06 C05 C08 C23
@ensures
        r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, self.stream_position as int, data_size as int) <= u64::MAX,
        match r {
            Ok(SeekFrom::Start(n)) => n == crate::vx::binrw::io::seek_target(pos, self.stream_position as int, data_size as int),
            Ok(SeekFrom::Current(n)) => n >= 0 && self.stream_position + n == crate::vx::binrw::io::seek_target(pos, self.stream_position as int, data_size as int),
            Ok(SeekFrom::End(_)) => false,
            Err(_) => true,
        },
@fn StreamState::read_data_run
@props C05 C08 C23
@requires
        old(fs).dinv(),
        *old(bytes_read) < old(buf)@.len(),
        old(self).stream_data_run is Some ==> old(self).stream_data_run->Some_0.inv(),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(buf)@.len() == old(buf)@.len(),
        forall|i: int| 0 <= i < *old(bytes_read) ==> #[trigger] final(buf)@[i] == old(buf)@[i],
        T::dsound() && (old(self).stream_data_run is Some ==> old(self).stream_data_run->Some_0.rs_whole(old(fs).disk(), old(fs).davail())) ==> r is Ok,
        match r {
            Ok(true) => {
                let c = old(self).stream_data_run->Some_0;
                let e = final(self).stream_data_run->Some_0;
                let n = *final(bytes_read) - *old(bytes_read);
                &&& old(self).stream_data_run is Some && final(self).stream_data_run is Some
                &&& n > 0 && *final(bytes_read) <= old(buf)@.len()
                &&& e.position == c.position && e.allocated_size == c.allocated_size && e.is_sparse == c.is_sparse
                &&& e.stream_position == c.stream_position + n && e.stream_position <= c.allocated_size
                &&& final(self).data_size == old(self).data_size
                &&& final(self).stream_position == old(self).stream_position + n && final(self).stream_position <= old(self).data_size
                &&& forall|i: int| *old(bytes_read) <= i < *final(bytes_read) ==> #[trigger] final(buf)@[i] == run_byte(c.g(), old(fs).disk(), c.stream_position + i - *old(bytes_read))
            },
            Ok(false) => {
                &&& *final(self) == *old(self) && *final(bytes_read) == *old(bytes_read)
                &&& old(self).stream_data_run is None
                    || old(self).stream_data_run->Some_0.stream_position >= old(self).stream_data_run->Some_0.allocated_size
                    || old(self).stream_position >= old(self).data_size
            },
            Err(_) => *final(self) == *old(self) && *final(bytes_read) == *old(bytes_read),
        },
@proof before-tail
        proof {
            let b0 = *old(bytes_read) as int;
            let b1 = *bytes_read as int;
            let c = old(self).stream_data_run->Some_0;
            assert forall|i: int| b0 <= i < b1 implies #[trigger] buf@[i] == run_byte(c.g(), old(fs).disk(), c.stream_position + i - b0) by {
                let e = buf@.subrange(b0, b1);
                assert(e =~= c.rs_content(old(fs).disk()).subrange(c.stream_position as int, c.stream_position + b1 - b0));
                assert(e[i - b0] == buf@[i]);
            }
        }
@fn StreamState::seek_data_run
@props C05 C06 C08 C23
@requires
        old(fs).dinv(),
        old(self).stream_data_run is Some ==> old(self).stream_data_run->Some_0.inv(),
        match bytes_to_seek {
            SeekFrom::Start(_) => old(self).stream_data_run is Some ==> old(self).stream_data_run->Some_0.stream_position == 0,
            SeekFrom::Current(_) => *old(bytes_left_to_seek) <= i64::MAX,
            SeekFrom::End(_) => false,
        },
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).data_size == old(self).data_size,
        final(self).stream_position == old(self).stream_position,
        r is Ok,
        match r {
            Ok(true) => {
                let c = old(self).stream_data_run->Some_0;
                let e = final(self).stream_data_run->Some_0;
                &&& old(self).stream_data_run is Some && final(self).stream_data_run is Some
                &&& e.position == c.position && e.allocated_size == c.allocated_size && e.is_sparse == c.is_sparse
                &&& e.stream_position == c.stream_position + *old(bytes_left_to_seek) && e.stream_position < c.allocated_size
            },
            Ok(false) => {
                let c = old(self).stream_data_run->Some_0;
                &&& final(self).stream_data_run == old(self).stream_data_run
                &&& old(self).stream_data_run is None ==> *final(bytes_left_to_seek) == *old(bytes_left_to_seek)
                &&& old(self).stream_data_run is Some ==> *final(bytes_left_to_seek) == *old(bytes_left_to_seek) - (if c.stream_position <= c.allocated_size { c.allocated_size - c.stream_position } else { 0 })
            },
            Err(_) => true,
        },
@fn StreamState::set_stream_data_run
@props C05 C08 C23
@ensures
        final(self).stream_data_run == stream_data_run, final(self).stream_position == old(self).stream_position, final(self).data_size == old(self).data_size,
@fn StreamState::set_stream_position
@props C05 C06 C08 C23
@ensures
        final(self).stream_data_run == old(self).stream_data_run, final(self).stream_position == stream_position, final(self).data_size == old(self).data_size,
@fn StreamState::stream_position
@props C05 C06 C08
@ensures
        r == self.stream_position,
@fn NtfsNonResidentAttributeValue::new
@props C05 C08 C23
@requires
        0 < ntfs.cluster_size <= 2097152,
@ensures
        match r {
            Ok(v) => {
                &&& v.rs_inv(Seq::empty()) && v.rs_pos() == 0
                &&& v.ntfs == ntfs && v.data == data && v.position == position && v.stream_state.data_size == data_size
            },
            Err(_) => dec_run(data@, 0, 0, ntfs.cluster_size as int) is Bad && dec_bad(data@, 0, 0, ntfs.cluster_size as int),
        },
@proof before value.next_data_run()
        proof { assert(value.all().skip(0) =~= value.all()); lemma_dec_runs_ok(data@, 0, 0, ntfs.cluster_size as int); }
@fn NtfsNonResidentAttributeValue::data_position
@props C23
@requires
        self.rs_inv(Seq::empty()),
@ensures
        runs_pos(self.all(), self.rs_pos(), r),
@proof start
        proof {
            lemma_dec_runs_ok(self.data@, 0, 0, self.ntfs.cluster_size as int);
            if self.stream_state.stream_data_run is Some {
                lemma_cur_pos(self.all(), self.k(), self.stream_state.stream_data_run, self.rs_pos());
            }
        }
@fn NtfsNonResidentAttributeValue::data_runs
@props C04
@ensures
        r.ntfs == self.ntfs, r.data == self.data, r.position == self.position, r.state.off() == 0, r.state.prev() == 0,
@fn NtfsNonResidentAttributeValue::is_empty
@props C05
@ensures
        r <==> self.stream_state.data_size == 0,
@fn NtfsNonResidentAttributeValue::len
@props C05 C06
@ensures
        r == self.stream_state.data_size,
@fn NtfsNonResidentAttributeValue::ntfs
@props C05
@ensures
        r == self.ntfs,
@fn NtfsNonResidentAttributeValue::next_data_run
@props C05 C23
@requires
        old(self).runs_wf(),
@ensures
        final(self).runs_wf(),
        final(self).same(old(self)),
        final(self).stream_state.stream_position == old(self).stream_state.stream_position,
        match r {
            Ok(true) => {
                &&& final(self).k() == old(self).k() + 1 && final(self).k() <= old(self).all().len()
                &&& match final(self).stream_state.stream_data_run {
                    Some(x) => x.inv() && x.stream_position == 0 && x.g() == old(self).all()[old(self).k()],
                    None => false,
                }
            },
            Ok(false) => final(self).stream_state == old(self).stream_state && final(self).k() == final(self).all().len() && old(self).k() == final(self).k(),
            Err(_) => final(self).stream_state == old(self).stream_state && final(self).stream_data_runs == old(self).stream_data_runs
                && old(self).stream_data_runs.dec() is Bad && old(self).bad(),
        },
@proof start
        proof {
            lemma_dec_run_ok(self.data@, self.stream_data_runs.state.off(), self.stream_data_runs.state.prev(), self.ntfs.cluster_size as int);
            lemma_rest_step(self.all(), self.k());
            match self.stream_data_runs.dec() {
                Dec::Run { run, next, lcn } => {
                    let tl = dec_runs(self.data@, next, lcn, self.ntfs.cluster_size as int);
                    assert(self.stream_data_runs.rest() == seq![run] + tl);
                    assert(tl =~= self.stream_data_runs.rest().skip(1));
                    assert(tl =~= self.all().skip(self.k() + 1));
                },
                _ => {},
            }
        }
@proof before-tail
        proof {
            assert(self.k() == old(self).k() + 1);
            assert(old(self).stream_data_runs.rest()[0] == old(self).all()[old(self).k()]);
            assert(old(self).all()[old(self).k()] == self.stream_state.stream_data_run->Some_0.g());
        }
@fn NtfsNonResidentAttributeValue::rewind
@props C05 C06 C23
@requires
        old(self).runs_wf(),
@ensures
        final(self).same(old(self)),
        r is Ok ==> final(self).rs_inv(Seq::empty()) && final(self).rs_pos() == 0
            && (final(self).stream_state.stream_data_run is Some ==> final(self).stream_state.stream_data_run->Some_0.stream_position == 0),
        r is Err ==> final(self).runs_wf() && old(self).bad(),
@proof before self.next_data_run()
        proof { assert(self.all().skip(0) =~= self.all()); lemma_dec_runs_ok(self.data@, 0, 0, self.ntfs.cluster_size as int); }
@inject impl NtfsNonResidentAttributeValue:NtfsReadSeek
    open spec fn rs_content(&self, d: Seq<u8>) -> Seq<u8> {
        Seq::new(self.stream_state.data_size as nat, |i: int| runs_byte(self.all(), d, self.all().len() as int, i))
    }
    open spec fn rs_avail(&self, d: Seq<u8>, a: int) -> int {
        if total(self.all()) < self.stream_state.data_size { total(self.all()) } else { self.stream_state.data_size as int }
    }
    open spec fn rs_whole(&self, d: Seq<u8>, a: int) -> bool { nr_whole(self.data@, self.stream_state.data_size as int, self.ntfs.cluster_size as int, a) }
    open spec fn rs_inv(&self, d: Seq<u8>) -> bool {
        self.runs_wf() && cur_ok(self.all(), self.k(), self.stream_state.stream_data_run, self.stream_state.stream_position as int)
    }
    open spec fn rs_pos(&self) -> int { self.stream_state.stream_position as int }
@fn NtfsNonResidentAttributeValue:NtfsReadSeek::read
@props C05 C23
@ensures C05
        final(self).same(old(self)),
@proof start
        let ghost d = fs.disk();
        let ghost all = self.all();
        let ghost c = self.rs_content(d);
        let ghost p0 = self.rs_pos();
        let ghost a0 = fs.davail();
        proof { lemma_dec_runs_ok(self.data@, 0, 0, self.ntfs.cluster_size as int); }
@loop 0
            invariant
                fs.dinv(), fs.disk() == d, d == old(fs).disk(), fs.davail() == a0, a0 == old(fs).davail(),
                all == old(self).all(), self.all() == all, runs_ok(all), c == old(self).rs_content(d), p0 == old(self).rs_pos(),
                self.same(old(self)), self.rs_inv(d),
                buf@.len() == old(buf)@.len(), bytes_read <= buf@.len(),
                self.rs_pos() == p0 + bytes_read,
                bytes_read > 0 ==> p0 + bytes_read <= self.rs_avail(d, a0),
                forall|i: int| 0 <= i < bytes_read ==> #[trigger] buf@[i] == c[p0 + i],
            ensures
                bytes_read > 0 || buf@.len() == 0 || self.rs_pos() >= self.rs_avail(d, a0),
            decreases buf@.len() - bytes_read, all.len() - self.k(),
@proof loop0.start
            proof {
                if self.stream_state.stream_data_run is Some {
                    lemma_cur_byte(all, self.k(), self.stream_state.stream_data_run, self.rs_pos(), d);
                    assert(prefix(all, self.k()) == prefix(all, self.k() - 1) + all[self.k() - 1].len);
                }
            }
@proof before-tail
        proof {
            if bytes_read > 0 { assert(buf@.subrange(0, bytes_read as int) =~= c.subrange(p0, p0 + bytes_read)); }
        }
@fn NtfsNonResidentAttributeValue:NtfsReadSeek::seek
@props C06 C05 C23
@ensures C06
        final(self).same(old(self)),
@fn NtfsNonResidentAttributeValue:NtfsReadSeek::stream_position
@props C06 C05
@fn NtfsNonResidentAttributeValue::traverse_data_runs
@props C06 C05 C23
@requires
        old(fs).dinv(),
        old(self).rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(),
        final(fs).disk() == old(fs).disk(),
        final(fs).davail() == old(fs).davail(),
        final(self).same(old(self)),
        match r {
            Ok(n) => {
                &&& final(self).rs_inv(old(fs).disk())
                &&& n == crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), old(self).stream_state.data_size as int)
                &&& final(self).rs_pos() == n
            },
            Err(_) => old(self).bad() || !(0 <= crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), old(self).stream_state.data_size as int) <= u64::MAX),
        },
@proof before-loop0
        let ghost d = fs.disk();
        let ghost a0 = fs.davail();
        let ghost all = self.all();
        let ghost q = self.rs_pos();
        let ghost t = self.rs_pos() + bytes_left_to_seek;
        proof { lemma_dec_runs_ok(self.data@, 0, 0, self.ntfs.cluster_size as int); }
@loop 0
            invariant_except_break
                seek_ok(all, self.k(), self.stream_state.stream_data_run, bytes_left_to_seek as int, t),
                match pos {
                    SeekFrom::Start(_) => self.stream_state.stream_data_run is Some && bytes_left_to_seek > 0 ==> self.stream_state.stream_data_run->Some_0.stream_position == 0,
                    SeekFrom::Current(_) => bytes_left_to_seek <= i64::MAX,
                    SeekFrom::End(_) => false,
                },
            invariant
                fs.dinv(), fs.disk() == d, d == old(fs).disk(), fs.davail() == a0, a0 == old(fs).davail(),
                all == old(self).all(), self.all() == all, runs_ok(all),
                self.same(old(self)), self.runs_wf(), self.rs_pos() == q,
            ensures
                seek_ok(all, self.k(), self.stream_state.stream_data_run, 0, t),
            decreases all.len() - self.k(),
@proof loop0.start
            proof {
                if self.stream_state.stream_data_run is Some {
                    assert(prefix(all, self.k()) == prefix(all, self.k() - 1) + all[self.k() - 1].len);
                }
            }
@fn NtfsNonResidentAttributeValue::attach
@props C05 C06
@ensures
        r.value == self,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsNonResidentAttributeValueAttached::new
@props C05 C06
@ensures
        r.value == value,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsNonResidentAttributeValueAttached::detach
@props C06
@ensures
        r == self.value,
@fn NtfsNonResidentAttributeValueAttached::data_position
@props C23
@requires
        self.value.rs_inv(Seq::empty()),
@ensures
        runs_pos(self.value.all(), self.value.rs_pos(), r),
@fn NtfsNonResidentAttributeValueAttached::is_empty
@props C05
@ensures
        r <==> self.value.stream_state.data_size == 0,
@fn NtfsNonResidentAttributeValueAttached::len
@props C05 C06
@ensures
        r == self.value.stream_state.data_size,
@fn NtfsNonResidentAttributeValueAttached:Read::read
@props C05
@fn NtfsNonResidentAttributeValueAttached:Seek::seek
@props C06 C05
