@file src/record.rs record
@text
/// Byte offset of the update sequence (its number, followed by its array).
pub open spec fn us_off(s: Seq<u8>) -> int { le16(s, 4) as int }
/// Number of 16-bit elements of the update sequence, including the number.
pub open spec fn us_cnt(s: Seq<u8>) -> int { le16(s, 6) as int }
/// Number of 512-byte sectors protected by the update sequence.
pub open spec fn us_sectors(s: Seq<u8>) -> int { us_cnt(s) - 1 }
/// The update sequence lies within the record and the record has all protected sectors.
pub open spec fn us_fits(s: Seq<u8>) -> bool {
    us_cnt(s) >= 1 && us_off(s) + 2 * us_cnt(s) <= s.len() && us_off(s) + 2 <= s.len() && 512 * us_sectors(s) <= s.len()
}
/// The update sequence does not include one of the sector ends it protects.
pub open spec fn us_clear(s: Seq<u8>) -> bool {
    forall|k: int| 0 <= k < us_sectors(s) ==> us_off(s) + 2 * us_cnt(s) <= #[trigger] sector_end(k) || us_off(s) >= sector_end(k) + 2
}
pub open spec fn sector_end(k: int) -> int { 512 * k + 510 }
/// The last two bytes of sector `k` equal the update sequence number.
pub open spec fn sector_ok(s: Seq<u8>, k: int) -> bool {
    s[sector_end(k)] == s[us_off(s)] && s[sector_end(k) + 1] == s[us_off(s) + 1]
}
pub open spec fn sectors_ok(s: Seq<u8>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] sector_ok(s, k)
}
/// `s` with the ends of the first `n` sectors replaced by the array elements.
pub open spec fn fixed(s: Seq<u8>, n: int) -> Seq<u8> {
    Seq::new(s.len(), |i: int| if i % 512 >= 510 && i / 512 < n { s[us_off(s) + 2 + 2 * (i / 512) + (i % 512 - 510)] } else { s[i] })
}
pub open spec fn fixup_ok(s: Seq<u8>) -> bool {
    us_fits(s) && sectors_ok(s, us_sectors(s))
}
/// `s` after processing the first `k` sectors one after another, if their ends equal the update sequence number.
/// In contrast to `fixed`, this also covers an update sequence that includes one of the sector ends it protects.
pub open spec fn fx(s: Seq<u8>, k: int) -> Option<Seq<u8>>
    decreases k,
{
    if k <= 0 { Some(s) } else {
        match fx(s, k - 1) {
            Some(t) => if t[sector_end(k - 1)] == s[us_off(s)] && t[sector_end(k - 1) + 1] == s[us_off(s) + 1] {
                Some(t.update(sector_end(k - 1), t[us_off(s) + 2 * k]).update(sector_end(k - 1) + 1, t[us_off(s) + 2 * k + 1]))
            } else { None },
            None => None,
        }
    }
}
/// The record data as on disk has an intact update sequence.
pub open spec fn fx_ok(s: Seq<u8>) -> bool { us_fits(s) && fx(s, us_sectors(s)) is Some }
/// The record data after fixup.
pub open spec fn fxd(s: Seq<u8>) -> Seq<u8> { fx(s, us_sectors(s))->Some_0 }
pub proof fn lemma_fx_none(s: Seq<u8>, k: int, n: int)
    requires k <= n, fx(s, k) is None,
    ensures fx(s, n) is None,
    decreases n,
{
    if k < n { lemma_fx_none(s, k, n - 1); }
}
pub proof fn lemma_fx_len(s: Seq<u8>, k: int)
    ensures fx(s, k) is Some ==> fx(s, k)->Some_0.len() == s.len(),
    decreases k,
{
    if k > 0 { lemma_fx_len(s, k - 1); }
}
impl Record {
    pub open spec fn inv(&self) -> bool { 16 <= self.data@.len() <= u32::MAX }
}
pub proof fn lemma_sector_index(i: int, k: int)
    ensures
        sector_end(k) <= i < sector_end(k) + 2 ==> i / 512 == k && i % 512 == i - 512 * k,
        i % 512 >= 510 && i / 512 == k ==> sector_end(k) <= i < sector_end(k) + 2,
{
}
/// One more sector.
pub proof fn lemma_fixed_step(s: Seq<u8>, t: Seq<u8>, k: int)
    requires
        0 <= k < us_sectors(s),
        us_fits(s),
        t.len() == s.len(),
        forall|i: int| 0 <= i < s.len() && !(sector_end(k) <= i < sector_end(k) + 2) ==> t[i] == #[trigger] fixed(s, k)[i],
        t[sector_end(k)] == s[us_off(s) + 2 + 2 * k],
        t[sector_end(k) + 1] == s[us_off(s) + 2 + 2 * k + 1],
    ensures
        t == fixed(s, k + 1),
{
    assert forall|i: int| 0 <= i < s.len() implies t[i] == #[trigger] fixed(s, k + 1)[i] by {
        lemma_sector_index(i, k);
        if sector_end(k) <= i < sector_end(k) + 2 {
        } else {
            assert(fixed(s, k)[i] == t[i]);
        }
    }
    assert(t =~= fixed(s, k + 1));
}
/// As long as the array is clear of the sectors ends, it stays as it was.
pub proof fn lemma_fixed_clear(s: Seq<u8>, k: int)
    requires
        0 <= k <= us_sectors(s),
        us_fits(s),
        us_clear(s),
    ensures
        forall|i: int| us_off(s) <= i < us_off(s) + 2 * us_cnt(s) ==> fixed(s, k)[i] == #[trigger] s[i],
{
    assert forall|i: int| us_off(s) <= i < us_off(s) + 2 * us_cnt(s) implies fixed(s, k)[i] == #[trigger] s[i] by {
        if i % 512 >= 510 && i / 512 < k {
            let j = i / 512;
            lemma_sector_index(i, j);
            assert(us_off(s) + 2 * us_cnt(s) <= sector_end(j) || us_off(s) >= sector_end(j) + 2);
        }
    }
}
@fn Record::new
@props C02 C03 C14 C23
@ensures
        r.data@ == data@, r.position == position,
@fn Record::data
@props C02 C03 C14
@ensures
        r@ == self.data@,
@fn Record::into_data
@props C02 C03 C14
@ensures
        r@ == self.data@,
@fn Record::len
@props C02 C03 C14
@requires
        self.inv(),
@ensures
        r == self.data@.len(),
@fn Record::position
@props C23
@ensures
        r == self.position,
@fn Record::signature
@props C02 C03 C14
@requires
        self.inv(),
@ensures
        r@ == self.data@.subrange(0, 4),
@fn Record::update_sequence_array_count
@props C02
@requires
        self.inv(),
@ensures
        r is Ok <==> us_cnt(self.data@) >= 1,
        match r { Ok(n) => n == us_sectors(self.data@), Err(_) => true },
@fn Record::update_sequence_array_start
@props C02
@requires
        self.inv(),
@ensures
        r == us_off(self.data@) + 2,
@fn Record::update_sequence_number
@props C02
@requires
        self.inv(),
@ensures
        r is Ok <==> us_off(self.data@) + 2 <= self.data@.len(),
        match r { Ok(u) => u@ == self.data@.subrange(us_off(self.data@), us_off(self.data@) + 2), Err(_) => true },
@fn Record::update_sequence_offset
@props C02
@requires
        self.inv(),
@ensures
        r == us_off(self.data@),
@fn Record::update_sequence_size
@props C02
@requires
        self.inv(),
@ensures
        r == 2 * us_cnt(self.data@),
@fn Record::fixup
@props C02
@requires
        old(self).inv(),
@ensures
        final(self).inv(),
        final(self).position == old(self).position,
        final(self).data@.len() == old(self).data@.len(),
        r is Ok <==> fx_ok(old(self).data@),
        r is Ok ==> final(self).data@ == fxd(old(self).data@),
        us_clear(old(self).data@) ==> (r is Ok <==> fixup_ok(old(self).data@)),
        us_clear(old(self).data@) && r is Ok ==> final(self).data@ == fixed(old(self).data@, us_sectors(old(self).data@)),
@proof start
        let ghost s = self.data@;
        let ghost mut k: int = 0;
        proof { assert(fixed(s, 0) =~= s); }
@loop 0
        invariant
            s == old(self).data@,
            16 <= s.len() <= u32::MAX,
            us_fits(s),
            self.position == old(self).position,
            self.data@.len() == s.len(),
            0 <= k <= us_sectors(s),
            array_position == us_off(s) + 2 + 2 * k,
            array_end == us_off(s) + 2 * us_cnt(s),
            sector_position == sector_end(k),
            update_sequence_number@ == s.subrange(us_off(s), us_off(s) + 2),
            us_clear(s) ==> self.data@ == fixed(s, k) && sectors_ok(s, k),
            fx(s, k) == Some(self.data@),
        decreases array_end - array_position,
@proof loop0.start
            let ghost t0 = self.data@;
            proof {
                if us_clear(s) { lemma_fixed_clear(s, k); }
                if fx(s, k + 1) is None { lemma_fx_none(s, k + 1, us_sectors(s)); }
                assert(fx(s, k) == Some(t0));
                lemma_sector_index(sector_end(k), k);
                lemma_sector_index(sector_end(k) + 1, k);
                assert(update_sequence_number@[0] == s[us_off(s)] && update_sequence_number@[1] == s[us_off(s) + 1]);
                assert(us_clear(s) ==> t0[sector_end(k)] == s[sector_end(k)] && t0[sector_end(k) + 1] == s[sector_end(k) + 1]);
                assert(t0.subrange(sector_end(k), sector_end(k) + 2)[0] == t0[sector_end(k)]);
                assert(t0.subrange(sector_end(k), sector_end(k) + 2)[1] == t0[sector_end(k) + 1]);
                if t0[sector_end(k)] == s[us_off(s)] && t0[sector_end(k) + 1] == s[us_off(s) + 1] {
                    assert(t0.subrange(sector_end(k), sector_end(k) + 2) =~= update_sequence_number@);
                }
                if us_clear(s) && sector_ok(s, k) {
                    assert(t0.subrange(sector_end(k), sector_end(k) + 2) =~= update_sequence_number@);
                }
            }
@proof loop0.end
            proof {
                assert(new_bytes@ == t0.subrange(us_off(s) + 2 + 2 * k, us_off(s) + 4 + 2 * k));
                if us_clear(s) {
                    assert(t0.subrange(sector_end(k), sector_end(k) + 2) =~= s.subrange(us_off(s), us_off(s) + 2));
                    assert(sector_ok(s, k));
                    assert(new_bytes@[0] == s[us_off(s) + 2 + 2 * k] && new_bytes@[1] == s[us_off(s) + 2 + 2 * k + 1]);
                    lemma_fixed_step(s, self.data@, k);
                }
                assert(self.data@ =~= t0.update(sector_end(k), t0[us_off(s) + 2 * (k + 1)]).update(sector_end(k) + 1, t0[us_off(s) + 2 * (k + 1) + 1]));
                k = k + 1;
            }
