@file src/attribute_value/mod.rs attribute_value
@text
/// Same value, up to the position.
pub open spec fn same_value(a: NtfsAttributeValue, b: NtfsAttributeValue) -> bool {
    match (a, b) {
        (NtfsAttributeValue::Resident(x), NtfsAttributeValue::Resident(y)) => x.data == y.data && x.position == y.position,
        (NtfsAttributeValue::NonResident(x), NtfsAttributeValue::NonResident(y)) => x.same(&y),
        (NtfsAttributeValue::AttributeListNonResident(x), NtfsAttributeValue::AttributeListNonResident(y)) => x.same(&y),
        _ => false,
    }
}
/// `p` is the place of the byte at the current position of the value.
pub open spec fn value_pos(v: NtfsAttributeValue, p: NtfsPosition) -> bool {
    match v {
        NtfsAttributeValue::Resident(v) => p == v.pos_spec(),
        NtfsAttributeValue::NonResident(v) => crate::attribute_value::non_resident::runs_pos(v.all(), v.rs_pos(), p),
        NtfsAttributeValue::AttributeListNonResident(v) => v.al_pos(p),
    }
}
/// Length of the value.
pub open spec fn value_len(v: NtfsAttributeValue) -> int {
    match v {
        NtfsAttributeValue::Resident(v) => v.data@.len() as int,
        NtfsAttributeValue::NonResident(v) => v.stream_state.data_size as int,
        NtfsAttributeValue::AttributeListNonResident(v) => v.data_size as int,
    }
}
pub proof fn lemma_value_len(v: NtfsAttributeValue, d: Seq<u8>)
    ensures v.rs_inv(d) ==> v.rs_content(d).len() == value_len(v),
{
    crate::order::mark();
}
impl<'n, 'f, 'a, T: Read + Seek> crate::vx::binrw::io::Dev for NtfsAttributeValueAttached<'n, 'f, 'a, T> {
    open spec fn disk(&self) -> Seq<u8> { self.value.rs_content((*self.fs).disk()) }
    open spec fn dpos(&self) -> int { self.value.rs_pos() }
    open spec fn dinv(&self) -> bool { (*self.fs).dinv() && self.value.rs_inv((*self.fs).disk()) }
    open spec fn davail(&self) -> int { self.value.rs_avail((*self.fs).disk(), (*self.fs).davail()) }
    open spec fn dsafe(&self) -> int {
        match self.value {
            NtfsAttributeValue::Resident(v) => v.data@.len() as int,
            v => if T::dsound() && v.rs_whole((*self.fs).disk(), (*self.fs).davail()) { v.rs_content((*self.fs).disk()).len() as int } else { -1 },
        }
    }
    open spec fn dsound() -> bool { false }
    type Under = (Seq<u8>, int, T);
    #[verifier::prophetic]
    open spec fn dunder(&self) -> (Seq<u8>, int, T) { ((*self.fs).disk(), (*self.fs).davail(), *final(self.fs)) }
}
@inject impl NtfsAttributeValue:NtfsReadSeek
    open spec fn rs_content(&self, d: Seq<u8>) -> Seq<u8> {
        match self {
            NtfsAttributeValue::Resident(v) => v.rs_content(d),
            NtfsAttributeValue::NonResident(v) => v.rs_content(d),
            NtfsAttributeValue::AttributeListNonResident(v) => v.rs_content(d),
        }
    }
    open spec fn rs_avail(&self, d: Seq<u8>, a: int) -> int {
        match self {
            NtfsAttributeValue::Resident(v) => v.rs_avail(d, a),
            NtfsAttributeValue::NonResident(v) => v.rs_avail(d, a),
            NtfsAttributeValue::AttributeListNonResident(v) => v.rs_avail(d, a),
        }
    }
    open spec fn rs_whole(&self, d: Seq<u8>, a: int) -> bool {
        match self {
            NtfsAttributeValue::Resident(v) => v.rs_whole(d, a),
            NtfsAttributeValue::NonResident(v) => v.rs_whole(d, a),
            NtfsAttributeValue::AttributeListNonResident(v) => v.rs_whole(d, a),
        }
    }
    open spec fn rs_inv(&self, d: Seq<u8>) -> bool {
        match self {
            NtfsAttributeValue::Resident(v) => v.rs_inv(d),
            NtfsAttributeValue::NonResident(v) => v.rs_inv(d),
            NtfsAttributeValue::AttributeListNonResident(v) => v.rs_inv(d),
        }
    }
    open spec fn rs_pos(&self) -> int {
        match self {
            NtfsAttributeValue::Resident(v) => v.rs_pos(),
            NtfsAttributeValue::NonResident(v) => v.rs_pos(),
            NtfsAttributeValue::AttributeListNonResident(v) => v.rs_pos(),
        }
    }
@fn NtfsAttributeValue:NtfsReadSeek::read
@props C05 C07 C08
@attr
#[verifier::exec_allows_no_decreases_clause]
@ensures C07
        same_value(*old(self), *final(self)),
        (*old(self)) is Resident ==> r is Ok,
@fn NtfsAttributeValue:NtfsReadSeek::seek
@props C06 C05 C07 C08
@attr
#[verifier::exec_allows_no_decreases_clause]
@ensures C06 C07
        same_value(*old(self), *final(self)),
        (*old(self)) is Resident ==> (r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, old(self).rs_pos(), value_len(*old(self))) <= u64::MAX),
@fn NtfsAttributeValue:NtfsReadSeek::stream_position
@props C06 C05 C07 C08
@fn NtfsAttributeValue::attach
@props C06
@ensures
        r.value == self,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsAttributeValueAttached::new
@props C06
@ensures
        r.value == value,
        *r.fs == *old(fs),
        *final(r.fs) == *final(fs),
@fn NtfsAttributeValueAttached::detach
@props C06
@ensures
        r == self.value,
@fn NtfsAttributeValueAttached:Read::read
@props C05 C07 C08
@fn NtfsAttributeValueAttached:Seek::seek
@props C06
@fn seek_contiguous
@props C06 C07
@ensures
        r is Ok <==> 0 <= crate::vx::binrw::io::seek_target(pos, *old(stream_position) as int, length as int) <= u64::MAX,
        match r {
            Ok(n) => n == *final(stream_position) && n == crate::vx::binrw::io::seek_target(pos, *old(stream_position) as int, length as int),
            Err(_) => *final(stream_position) == *old(stream_position),
        },
@proof before let new_pos
        proof { lemma_neg_cast(); }
@fn NtfsAttributeValue::data_position
@props C23
@requires
        self is NonResident ==> self.rs_inv(Seq::empty()),
@ensures
        value_pos(*self, r),
@fn NtfsAttributeValue::is_empty
@props C05 C07
@ensures
        r <==> value_len(*self) == 0,
@fn NtfsAttributeValue::len
@props C05 C06 C07
@ensures
        r == value_len(*self),
@fn NtfsAttributeValueAttached::data_position
@props C23
@requires
        self.value is NonResident ==> self.value.rs_inv(Seq::empty()),
@ensures
        value_pos(self.value, r),
@fn NtfsAttributeValueAttached::is_empty
@props C05 C07
@ensures
        r <==> value_len(self.value) == 0,
@fn NtfsAttributeValueAttached::len
@props C05 C06 C07
@ensures
        r == value_len(self.value),
