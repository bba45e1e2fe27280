@file src/traits.rs traits
@inject trait NtfsReadSeek
    /// The bytes of the value, given the bytes of the filesystem.  Its length is the length of the value.
    /// Bytes at and beyond `rs_avail` are arbitrary.
    spec fn rs_content(&self, d: Seq<u8>) -> Seq<u8>;
    /// How many bytes can be read, given the bytes of the filesystem and its end.
    spec fn rs_avail(&self, d: Seq<u8>, a: int) -> int;
    /// Every byte of the value lies before the end `a` of the filesystem, and nothing that leads to it is malformed.
    spec fn rs_whole(&self, d: Seq<u8>, a: int) -> bool;
    /// Representation invariant.
    spec fn rs_inv(&self, d: Seq<u8>) -> bool;
    /// Current position within the value.
    spec fn rs_pos(&self) -> int;
@fn trait NtfsReadSeek::read
@props C05 C06 C07 C08 C21
@requires
        old(fs).dinv(),
        old(self).rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(),
        final(fs).disk() == old(fs).disk(),
        final(fs).davail() == old(fs).davail(),
        final(self).rs_inv(old(fs).disk()),
        final(self).rs_content(old(fs).disk()) == old(self).rs_content(old(fs).disk()),
        final(self).rs_avail(old(fs).disk(), old(fs).davail()) == old(self).rs_avail(old(fs).disk(), old(fs).davail()),
        final(self).rs_whole(old(fs).disk(), old(fs).davail()) == old(self).rs_whole(old(fs).disk(), old(fs).davail()),
        old(self).rs_whole(old(fs).disk(), old(fs).davail()) ==> old(self).rs_avail(old(fs).disk(), old(fs).davail()) == old(self).rs_content(old(fs).disk()).len(),
        T::dsound() && old(self).rs_whole(old(fs).disk(), old(fs).davail()) ==> r is Ok,
        final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(n) => crate::traits::read_ok(old(self).rs_content(old(fs).disk()), old(self).rs_avail(old(fs).disk(), old(fs).davail()), old(self).rs_pos(), final(self).rs_pos(), n, final(buf)@),
            Err(_) => final(self).rs_pos() == old(self).rs_pos(),
        },
@fn trait NtfsReadSeek::read_exact
@props C21
@attr
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(),
        old(self).rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(),
        final(fs).disk() == old(fs).disk(),
        final(fs).davail() == old(fs).davail(),
        final(self).rs_inv(old(fs).disk()),
        final(self).rs_content(old(fs).disk()) == old(self).rs_content(old(fs).disk()),
        final(self).rs_avail(old(fs).disk(), old(fs).davail()) == old(self).rs_avail(old(fs).disk(), old(fs).davail()),
        final(self).rs_whole(old(fs).disk(), old(fs).davail()) == old(self).rs_whole(old(fs).disk(), old(fs).davail()),
        T::dsound() && old(self).rs_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> old(buf)@.len() == 0 || 0 <= old(self).rs_pos() && old(self).rs_pos() + old(buf)@.len() <= old(self).rs_content(old(fs).disk()).len()),
        final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(_) => {
                &&& final(self).rs_pos() == old(self).rs_pos() + old(buf)@.len()
                &&& old(buf)@.len() > 0 ==> 0 <= old(self).rs_pos() && old(self).rs_pos() + old(buf)@.len() <= old(self).rs_avail(old(fs).disk(), old(fs).davail()) <= old(self).rs_content(old(fs).disk()).len()
                &&& old(buf)@.len() > 0 ==> final(buf)@ == old(self).rs_content(old(fs).disk()).subrange(old(self).rs_pos(), old(self).rs_pos() + old(buf)@.len())
            },
            // A read that was interrupted is repeated.
            Err(e) => e is Io ==> e->Io_0.kind_spec() != crate::vx::binrw::io::ErrorKind::Interrupted,
        },
@proof start
        let ghost d = fs.disk();
        let ghost a = fs.davail();
        let ghost c = self.rs_content(d);
        let ghost av = self.rs_avail(d, a);
        let ghost p0 = self.rs_pos();
        let ghost buf0 = buf;
        let ghost n0 = buf@.len();
        let ghost mut pre: Seq<u8> = Seq::empty();
@loop 0
            invariant
                d == old(fs).disk(), a == old(fs).davail(), c == old(self).rs_content(d), av == old(self).rs_avail(d, a), p0 == old(self).rs_pos(), n0 == old(buf)@.len(), buf0 == old(buf), 
                fs.dinv(), fs.disk() == d, fs.davail() == a,
                self.rs_inv(d), self.rs_content(d) == c, self.rs_avail(d, a) == av, self.rs_whole(d, a) == old(self).rs_whole(d, a),
                self.rs_whole(d, a) && pre.len() > 0 ==> av == c.len(),
                self.rs_pos() == p0 + pre.len(),
                pre.len() + buf@.len() == n0,
                final(buf0)@ == pre + final(buf)@,
                pre.len() > 0 ==> 0 <= p0 && p0 + pre.len() <= av && av <= c.len() && pre == c.subrange(p0, p0 + pre.len()),
            ensures
                buf@.len() > 0 ==> self.rs_pos() >= av && (self.rs_whole(d, a) ==> av == c.len()),
@proof before buf = &mut buf[n..];
                proof {
                    let e = buf@.subrange(0, n as int);
                    assert(pre + e =~= c.subrange(p0, p0 + pre.len() + n));
                    pre = pre + e;
                }
@fn trait NtfsReadSeek::seek
@props C06 C05 C08
@requires
        old(fs).dinv(),
        old(self).rs_inv(old(fs).disk()),
@ensures
        final(fs).dinv(),
        final(fs).disk() == old(fs).disk(),
        final(fs).davail() == old(fs).davail(),
        final(self).rs_inv(old(fs).disk()),
        final(self).rs_content(old(fs).disk()) == old(self).rs_content(old(fs).disk()),
        final(self).rs_avail(old(fs).disk(), old(fs).davail()) == old(self).rs_avail(old(fs).disk(), old(fs).davail()),
        final(self).rs_whole(old(fs).disk(), old(fs).davail()) == old(self).rs_whole(old(fs).disk(), old(fs).davail()),
        T::dsound() && old(self).rs_whole(old(fs).disk(), old(fs).davail()) ==> (r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), old(self).rs_content(old(fs).disk()).len() as int) <= u64::MAX),
        match r {
            Ok(n) => {
                &&& n == crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), old(self).rs_content(old(fs).disk()).len() as int)
                &&& final(self).rs_pos() == n
            },
            Err(_) => final(self).rs_pos() == old(self).rs_pos(),
        },
@fn trait NtfsReadSeek::stream_position
@props C06
@ensures
        r == self.rs_pos(),
@text
/// What a successful `read` of `n` bytes at position `p` delivers.
pub open spec fn read_ok(content: Seq<u8>, avail: int, p: int, q: int, n: usize, buf: Seq<u8>) -> bool {
    &&& 0 <= p
    &&& n <= buf.len()
    &&& q == p + n
    &&& n > 0 ==> p + n <= avail && avail <= content.len() && buf.subrange(0, n as int) == content.subrange(p, p + n)
    &&& n == 0 ==> buf.len() == 0 || p >= avail
}
