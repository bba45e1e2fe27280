@file src/index.rs index
@head
#[allow(unused_imports)] use crate::traits::NtfsReadSeek as _;
#[allow(unused_imports)] use crate::structured_values::NtfsStructuredValue as _;
#[allow(unused_imports)] use crate::index_entry::{ie_ok, ie_at, ie_len, ie_last, ie_sub, ie_vcn, ie_has_key, ie_key, node_end};
#[allow(unused_imports)] use crate::index_record::{ir_start, ir_end};
#[allow(unused_imports)] use crate::indexes::NtfsIndexEntryKey as _;
#[allow(unused_imports)] use crate::attribute::{at_ok, at_resident};
#[allow(unused_imports)] use crate::structured_values::index_root::{ro_ok, ro_start, ro_end};
@text
/// An entry of an index (given by its bytes), or a node, entry or subnode that can't be read.
pub enum EntG { Ent(Seq<u8>), Bad }
/// Where the subnodes of an index are found.
pub struct IndexG { pub ia: Option<Seq<u8>>, pub irs: int, pub cs: int }
impl IndexG {
    /// The record data of the subnode of the entry `b`.
    pub open spec fn sub(&self, b: Seq<u8>) -> Option<Seq<u8>> {
        match self.ia {
            Some(c) => if b.len() >= 24 { crate::structured_values::index_allocation::ia_rec(c, self.irs, self.cs, ie_vcn(b) as int) } else { None },
            None => None,
        }
    }
}
pub open spec fn own(b: Seq<u8>) -> Seq<EntG> { if ie_last(b) { Seq::empty() } else { seq![EntG::Ent(b)] } }
/// The entries of the node `s[..e]` from offset `o` on, and of their subnodes, in order; `None` if that goes deeper than `depth`.
pub open spec fn tree_f(t: IndexG, s: Seq<u8>, o: int, e: int, depth: nat) -> Option<Seq<EntG>>
    decreases depth, e - o,
{
    if node_end(s, o, e) { Some(Seq::empty()) }
    else if !ie_ok(s.subrange(o, e)) { Some(seq![EntG::Bad]) }
    else {
        let b = ie_at(s, o, e);
        let l = ie_len(s.subrange(o, e));
        let sub = if !ie_sub(b) { Some(Seq::empty()) } else {
            match t.sub(b) {
                None => Some(seq![EntG::Bad]),
                Some(r) => if depth == 0 { None } else { tree_f(t, r, ir_start(r), ir_end(r), (depth - 1) as nat) },
            }
        };
        let rest = if ie_last(b) { Some(Seq::empty()) } else { tree_f(t, s, o + l, e, depth) };
        match (sub, rest) { (Some(x), Some(y)) => Some(x + own(b) + y), _ => None }
    }
}
pub proof fn lemma_tree_mono(t: IndexG, s: Seq<u8>, o: int, e: int, f: nat, g: nat)
    ensures tree_f(t, s, o, e, f) is Some && f <= g ==> tree_f(t, s, o, e, g) == tree_f(t, s, o, e, f),
    decreases f, e - o,
{
    if !node_end(s, o, e) && ie_ok(s.subrange(o, e)) && f <= g {
        let b = ie_at(s, o, e);
        if !ie_last(b) { lemma_tree_mono(t, s, o + ie_len(s.subrange(o, e)), e, f, g); }
        if ie_sub(b) && t.sub(b) is Some && f > 0 {
            let r = t.sub(b)->Some_0;
            lemma_tree_mono(t, r, ir_start(r), ir_end(r), (f - 1) as nat, (g - 1) as nat);
        }
    }
}
/// The entries of the node `s[..e]` from offset `o` on, and of their subnodes, in order; `None` if the subnodes form a cycle.
#[verifier::opaque]
pub open spec fn tree(t: IndexG, s: Seq<u8>, o: int, e: int) -> Option<Seq<EntG>> {
    let f = choose|f: nat| tree_f(t, s, o, e, f) is Some;
    tree_f(t, s, o, e, f)
}
pub proof fn lemma_tree_at(t: IndexG, s: Seq<u8>, o: int, e: int, f: nat)
    ensures tree_f(t, s, o, e, f) is Some ==> tree(t, s, o, e) == tree_f(t, s, o, e, f),
{
    reveal(tree);
    if tree_f(t, s, o, e, f) is Some {
        let g = choose|f: nat| tree_f(t, s, o, e, f) is Some;
        lemma_tree_mono(t, s, o, e, f, g);
        lemma_tree_mono(t, s, o, e, g, f);
    }
}
pub open spec fn subtree(t: IndexG, b: Seq<u8>) -> Option<Seq<EntG>> {
    if !ie_sub(b) { Some(Seq::empty()) } else {
        match t.sub(b) { None => Some(seq![EntG::Bad]), Some(r) => tree(t, r, ir_start(r), ir_end(r)) }
    }
}
pub open spec fn resttree(t: IndexG, s: Seq<u8>, o: int, e: int) -> Option<Seq<EntG>> {
    if ie_last(ie_at(s, o, e)) { Some(Seq::empty()) } else { tree(t, s, o + ie_len(s.subrange(o, e)), e) }
}
pub proof fn lemma_tree(t: IndexG, s: Seq<u8>, o: int, e: int)
    ensures
        node_end(s, o, e) ==> tree(t, s, o, e) == Some(Seq::<EntG>::empty()),
        !node_end(s, o, e) && !ie_ok(s.subrange(o, e)) ==> tree(t, s, o, e) == Some(seq![EntG::Bad]),
        !node_end(s, o, e) && ie_ok(s.subrange(o, e)) && tree(t, s, o, e) is Some ==> {
            &&& subtree(t, ie_at(s, o, e)) is Some
            &&& resttree(t, s, o, e) is Some
            &&& tree(t, s, o, e) == Some(subtree(t, ie_at(s, o, e))->Some_0 + own(ie_at(s, o, e)) + resttree(t, s, o, e)->Some_0)
        },
{
    let f = choose|f: nat| tree_f(t, s, o, e, f) is Some;
    assert(tree(t, s, o, e) == tree_f(t, s, o, e, f)) by { reveal(tree); }
    if node_end(s, o, e) || !ie_ok(s.subrange(o, e)) {
        assert(tree_f(t, s, o, e, 0) is Some);
        lemma_tree_at(t, s, o, e, 0);
    } else if tree_f(t, s, o, e, f) is Some {
        let b = ie_at(s, o, e);
        if !ie_last(b) { lemma_tree_at(t, s, o + ie_len(s.subrange(o, e)), e, f); }
        if ie_sub(b) && t.sub(b) is Some {
            let r = t.sub(b)->Some_0;
            lemma_tree_at(t, r, ir_start(r), ir_end(r), (f - 1) as nat);
        }
    }
}
pub open spec fn join(a: Option<Seq<EntG>>, x: Seq<EntG>, b: Option<Seq<EntG>>) -> Option<Seq<EntG>> {
    match (a, b) { (Some(a), Some(b)) => Some(a + x + b), _ => None }
}
/// The entry of level `n - 2` that comes after all of level `n - 1`.
pub open spec fn after<E>(its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>, n: int) -> Seq<EntG> where E: NtfsIndexEntryType {
    if n < 2 { Seq::empty() } else { match fol[n - 2] { Some(r) => seq![EntG::Ent(r.bytes(its[n - 2].data@))], None => Seq::empty() } }
}
/// What an in-order traversal that is at the levels `its[..n]` still has to visit.
pub open spec fn stack<E>(t: IndexG, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>, n: int) -> Option<Seq<EntG>> where E: NtfsIndexEntryType
    decreases n,
{
    if n <= 0 { Some(Seq::empty()) } else {
        join(tree(t, its[n - 1].data@, its[n - 1].o(), its[n - 1].e()), after(its, fol, n), stack(t, its, fol, n - 1))
    }
}
pub proof fn lemma_stack_prefix<E>(t: IndexG, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>, its2: Seq<IndexNodeEntryRanges<E>>, fol2: Seq<Option<IndexEntryRange<E>>>, n: int) where E: NtfsIndexEntryType
    requires
        forall|k: int| 0 <= k < n ==> its[k] == its2[k],
        forall|k: int| 0 <= k < n - 1 ==> fol[k] == fol2[k],
    ensures stack(t, its, fol, n) == stack(t, its2, fol2, n),
    decreases n,
{
    if n > 0 { lemma_stack_prefix(t, its, fol, its2, fol2, n - 1); }
}
#[verifier::opaque]
pub open spec fn stack_ok<E>(its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) -> bool where E: NtfsIndexEntryType {
    &&& if its.len() == 0 { fol.len() == 0 } else { fol.len() == its.len() - 1 }
    &&& forall|k: int| 0 <= k < its.len() ==> (#[trigger] its[k]).inv()
    &&& forall|k: int| 0 <= k < fol.len() ==> match #[trigger] fol[k] { Some(r) => r.fits(its[k].data@), None => true }
}
/// What an in-order traversal that is at these levels still has to visit.
#[verifier::opaque]
pub open spec fn rest_of<E>(t: IndexG, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) -> Option<Seq<EntG>> where E: NtfsIndexEntryType {
    stack(t, its, fol, its.len() as int)
}
/// Going on to the next entry of a node.
pub open spec fn advanced<E>(i: IndexNodeEntryRanges<E>, j: IndexNodeEntryRanges<E>) -> bool where E: NtfsIndexEntryType {
    let b = ie_at(i.data@, i.o(), i.e());
    j.data@ == i.data@ && j.e() == i.e() && (if ie_last(b) { node_end(j.data@, j.o(), j.e()) } else { j.o() == i.o() + ie_len(i.data@.subrange(i.o(), i.e())) })
}
pub open spec fn at_entry<E>(i: IndexNodeEntryRanges<E>) -> bool where E: NtfsIndexEntryType {
    !node_end(i.data@, i.o(), i.e()) && ie_ok(i.data@.subrange(i.o(), i.e()))
}
/// What is known of the innermost level.
pub proof fn lemma_top<E>(its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    requires stack_ok(its, fol),
    ensures
        its.len() > 0 ==> its.last().inv(),
        if its.len() == 0 { fol.len() == 0 } else { fol.len() == its.len() - 1 },
        fol.len() > 0 ==> its.drop_last().len() > 0 && (fol.last() is Some ==> fol.last()->Some_0.fits(its.drop_last().last().data@)),
{
    reveal(stack_ok);
    if fol.len() > 0 { assert(fol[fol.len() - 1] == fol.last()); assert(its[its.len() - 1] == its.last()); }
    else if its.len() > 0 { assert(its[its.len() - 1] == its.last()); }
}
/// Only the innermost level has moved.
pub open spec fn kept<E>(its0: Seq<IndexNodeEntryRanges<E>>, its: Seq<IndexNodeEntryRanges<E>>) -> bool where E: NtfsIndexEntryType {
    let n = its0.len() as int;
    its.len() == n && (n > 0 ==> its =~= its0.update(n - 1, its[n - 1]) && its[n - 1].inv() && its[n - 1].data@ == its0[n - 1].data@)
}
/// A level is finished.
pub open spec fn finished<E>(its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) -> bool where E: NtfsIndexEntryType {
    let i = its0.last();
    node_end(i.data@, i.o(), i.e()) && its =~= its0.drop_last() && if its0.len() == 1 { fol =~= fol0 } else { fol =~= fol0.drop_last() }
}
/// An entry without subnode.
pub open spec fn passed<E>(its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) -> bool where E: NtfsIndexEntryType {
    let i = its0.last();
    let n = its0.len() as int;
    let b = ie_at(i.data@, i.o(), i.e());
    &&& at_entry(i) && !ie_sub(b) && fol =~= fol0
    &&& its.len() == n && its =~= its0.update(n - 1, its[n - 1]) && its[n - 1].inv() && advanced(i, its[n - 1])
}
/// An entry with a subnode.
pub open spec fn entered<E>(t: IndexG, its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) -> bool where E: NtfsIndexEntryType {
    let i = its0.last();
    let n = its0.len() as int;
    let b = ie_at(i.data@, i.o(), i.e());
    &&& at_entry(i) && ie_sub(b)
    &&& its.len() == n + 1 && its =~= its0.update(n - 1, its[n - 1]).push(its[n]) && its[n - 1].inv() && advanced(i, its[n - 1])
    &&& fol.len() == n && fol =~= fol0.push(fol[n - 1])
    &&& match fol[n - 1] { None => ie_last(b), Some(r) => !ie_last(b) && r.fits(i.data@) && r.bytes(i.data@) == b }
    &&& its[n].inv() && t.sub(b) == Some(its[n].data@) && its[n].o() == ir_start(its[n].data@) && its[n].e() == ir_end(its[n].data@)
}
pub proof fn lemma_finished<E>(t: IndexG, its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    requires stack_ok(its0, fol0), its0.len() > 0, finished(its0, fol0, its, fol),
    ensures ({
        let st = rest_of(t, its0, fol0);
        let r = rest_of(t, its, fol);
        &&& stack_ok(its, fol)
        &&& st is Some && its0.len() > 1 ==> r is Some && st == (match fol0.last() { Some(x) => Some(seq![EntG::Ent(x.bytes(its.last().data@))] + r->Some_0), None => r })
        &&& st is Some && its0.len() == 1 ==> st == Some(Seq::<EntG>::empty()) && r == st
    }),
{
    reveal(rest_of);
    reveal(stack_ok);
    let n = its0.len() as int;
    let i = its0.last();
    assert(forall|k: int| 0 <= k < its.len() ==> its[k] == its0[k]);
    assert(forall|k: int| 0 <= k < fol.len() ==> fol[k] == fol0[k]);
    let st = stack(t, its0, fol0, n);
    if st is Some {
        let a0 = after(its0, fol0, n);
        let low = stack(t, its0, fol0, n - 1);
        lemma_tree(t, i.data@, i.o(), i.e());
        lemma_stack_prefix(t, its, fol, its0, fol0, n - 1);
        assert(Seq::<EntG>::empty() + a0 + low->Some_0 =~= a0 + low->Some_0);
        assert(a0.len() == 0 ==> a0 + low->Some_0 =~= low->Some_0);
    }
}
pub proof fn lemma_passed<E>(t: IndexG, its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    requires stack_ok(its0, fol0), its0.len() > 0, passed(its0, fol0, its, fol),
    ensures ({
        let i = its0.last();
        let b = ie_at(i.data@, i.o(), i.e());
        let st = rest_of(t, its0, fol0);
        let r = rest_of(t, its, fol);
        &&& stack_ok(its, fol)
        &&& st is Some ==> r is Some && (if ie_last(b) { st == r } else { st == Some(seq![EntG::Ent(b)] + r->Some_0) })
    }),
{
    reveal(rest_of);
    lemma_kept(its0, fol0, its, fol);
    let n = its0.len() as int;
    let i = its0.last();
    let b = ie_at(i.data@, i.o(), i.e());
    let j = its[n - 1];
    let st = stack(t, its0, fol0, n);
    assert(forall|k: int| 0 <= k < n - 1 ==> its[k] == its0[k]);
    if st is Some {
        let a0 = after(its0, fol0, n);
        let low = stack(t, its0, fol0, n - 1)->Some_0;
        lemma_stack_prefix(t, its, fol, its0, fol0, n - 1);
        lemma_tree(t, i.data@, i.o(), i.e());
        lemma_tree(t, i.data@, j.o(), i.e());
        assert(after(its, fol, n) == a0);
        let y = resttree(t, i.data@, i.o(), i.e())->Some_0;
        assert(tree(t, j.data@, j.o(), j.e()) == Some(y));
        assert(stack(t, its, fol, n) == Some(y + a0 + low));
        assert(st == Some(Seq::<EntG>::empty() + own(b) + y + a0 + low));
        assert(Seq::<EntG>::empty() + own(b) + y + a0 + low =~= own(b) + (y + a0 + low));
        if ie_last(b) { assert(own(b) + (y + a0 + low) =~= y + a0 + low); }
    }
}
pub proof fn lemma_kept<E>(its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    requires stack_ok(its0, fol0), kept(its0, its), fol =~= fol0,
    ensures stack_ok(its, fol),
{
    reveal(stack_ok);
    let n = its0.len() as int;
    assert(forall|k: int| 0 <= k < n - 1 ==> its[k] == its0[k]);
    assert forall|k: int| 0 <= k < its.len() implies (#[trigger] its[k]).inv() by { assert(its0[k].inv()); }
    assert forall|k: int| 0 <= k < fol.len() implies match #[trigger] fol[k] { Some(r) => r.fits(its[k].data@), None => true } by { assert(fol[k] == fol0[k] && its[k] == its0[k]); }
}
pub proof fn lemma_entered<E>(t: IndexG, its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    requires stack_ok(its0, fol0), its0.len() > 0, entered(t, its0, fol0, its, fol),
    ensures
        stack_ok(its, fol),
        rest_of(t, its0, fol0) is Some ==> rest_of(t, its, fol) == rest_of(t, its0, fol0),
{
    reveal(rest_of);
    let n = its0.len() as int;
    let i = its0.last();
    let b = ie_at(i.data@, i.o(), i.e());
    let j = its[n - 1];
    assert(forall|k: int| 0 <= k < n - 1 ==> its[k] == its0[k]);
    assert(stack_ok(its, fol)) by {
        reveal(stack_ok);
        assert forall|k: int| 0 <= k < its.len() implies (#[trigger] its[k]).inv() by { if k < n - 1 { assert(its0[k].inv()); } }
        assert forall|k: int| 0 <= k < fol.len() implies match #[trigger] fol[k] { Some(r) => r.fits(its[k].data@), None => true } by {
            if k < n - 1 { assert(fol[k] == fol0[k] && its[k] == its0[k]); } else { assert(its[k].data@ == i.data@); }
        }
    }
    let st = stack(t, its0, fol0, n);
    if st is Some {
        let a0 = after(its0, fol0, n);
        let low = stack(t, its0, fol0, n - 1)->Some_0;
        lemma_stack_prefix(t, its, fol, its0, fol0, n - 1);
        lemma_tree(t, i.data@, i.o(), i.e());
        lemma_tree(t, i.data@, j.o(), i.e());
        assert(after(its, fol, n) == a0);
        assert(after(its, fol, n + 1) == own(b));
        let x = subtree(t, b)->Some_0;
        let y = resttree(t, i.data@, i.o(), i.e())->Some_0;
        assert(tree(t, j.data@, j.o(), j.e()) == Some(y));
        assert(tree(t, its[n].data@, its[n].o(), its[n].e()) == Some(x));
        assert(stack(t, its, fol, n) == Some(y + a0 + low));
        assert(stack(t, its, fol, n + 1) == Some(x + own(b) + (y + a0 + low)));
        assert(x + own(b) + y + a0 + low =~= x + own(b) + (y + a0 + low));
    }
}
/// The steps of an in-order traversal.
pub proof fn lemma_step<E>(t: IndexG, its0: Seq<IndexNodeEntryRanges<E>>, fol0: Seq<Option<IndexEntryRange<E>>>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    requires stack_ok(its0, fol0), its0.len() > 0,
    ensures ({
        let i = its0.last();
        let b = ie_at(i.data@, i.o(), i.e());
        let st = rest_of(t, its0, fol0);
        let r = rest_of(t, its, fol);
        &&& finished(its0, fol0, its, fol) ==> stack_ok(its, fol)
        &&& finished(its0, fol0, its, fol) && st is Some && its0.len() > 1 ==>
                r is Some && st == (match fol0.last() { Some(x) => Some(seq![EntG::Ent(x.bytes(its.last().data@))] + r->Some_0), None => r })
        &&& finished(its0, fol0, its, fol) && st is Some && its0.len() == 1 ==> st == Some(Seq::<EntG>::empty()) && r == st
        &&& passed(its0, fol0, its, fol) ==> stack_ok(its, fol)
        &&& passed(its0, fol0, its, fol) && st is Some ==> r is Some && (if ie_last(b) { st == r } else { st == Some(seq![EntG::Ent(b)] + r->Some_0) })
        &&& entered(t, its0, fol0, its, fol) ==> stack_ok(its, fol)
        &&& entered(t, its0, fol0, its, fol) && st is Some ==> r == st
    }),
{
    if finished(its0, fol0, its, fol) { lemma_finished(t, its0, fol0, its, fol); }
    if passed(its0, fol0, its, fol) { lemma_passed(t, its0, fol0, its, fol); }
    if entered(t, its0, fol0, its, fol) { lemma_entered(t, its0, fol0, its, fol); }
}
/// The beginning of an in-order traversal.
pub proof fn lemma_first<E>(t: IndexG, i: IndexNodeEntryRanges<E>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    ensures
        tree(t, i.data@, i.o(), i.e()) is Some ==> rest_of(t, seq![i], fol) == tree(t, i.data@, i.o(), i.e()),
        i.inv() && fol.len() == 0 ==> stack_ok(seq![i], fol),
{
    reveal(rest_of);
    reveal(stack_ok);
    reveal_with_fuel(stack, 2);
    let a = tree(t, i.data@, i.o(), i.e());
    if a is Some { assert(a->Some_0 + Seq::<EntG>::empty() + Seq::<EntG>::empty() =~= a->Some_0); }
}
impl<'n, 'f, E> NtfsIndex<'n, 'f, E> where E: NtfsIndexEntryType {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        &&& self.index_root_entry_ranges.inv()
        &&& self.index_allocation_item is Some ==> self.index_allocation_item->Some_0.inv(d)
    }
    /// Where its subnodes are found, given the bytes of the filesystem.
    pub open spec fn g(&self, d: Seq<u8>) -> IndexG {
        match self.index_allocation_item {
            Some(i) => IndexG { ia: Some(i.content(d)), irs: self.index_record_size as int, cs: i.f().ntfs.cs() },
            None => IndexG { ia: None, irs: self.index_record_size as int, cs: 0 },
        }
    }
    /// All of the index allocation (and all that leads to it) lies before `a`.
    pub open spec fn whole(&self, d: Seq<u8>, a: int) -> bool {
        match self.index_allocation_item {
            Some(i) => {
                &&& i.ty() == Some(NtfsAttributeType::IndexAllocation)
                &&& !at_resident(i.f().d(), i.attribute_offset as int)
                &&& i.vwhole(d, a)
                &&& i.content(d).len() <= i64::MAX
            },
            None => true,
        }
    }
    /// All entries of the index, in order.
    pub open spec fn all(&self, d: Seq<u8>) -> Option<Seq<EntG>> {
        tree(self.g(d), self.index_root_entry_ranges.data@, self.index_root_entry_ranges.o(), self.index_root_entry_ranges.e())
    }
}
impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E> where E: NtfsIndexEntryType {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        &&& self.index.inv(d)
        &&& stack_ok(self.inner_iterators@, self.following_entries@)
    }
    /// The entries still to come, in order; `None` if the subnodes form a cycle.
    pub open spec fn todo(&self, d: Seq<u8>) -> Option<Seq<EntG>> {
        rest_of(self.index.g(d), self.inner_iterators@, self.following_entries@)
    }
}
/// What can't be read comes next.
pub proof fn lemma_bad<E>(t: IndexG, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>) where E: NtfsIndexEntryType
    ensures
        its.len() > 0 && bad_here(t, its.last()) && rest_of(t, its, fol) is Some ==> rest_of(t, its, fol)->Some_0.len() > 0 && rest_of(t, its, fol)->Some_0[0] is Bad,
{
    reveal(rest_of);
    if its.len() > 0 {
        let i = its.last();
        lemma_tree(t, i.data@, i.o(), i.e());
    }
}
/// The entry of a node (or its subnode) can't be read.
pub open spec fn bad_here<E>(t: IndexG, i: IndexNodeEntryRanges<E>) -> bool where E: NtfsIndexEntryType {
    let b = ie_at(i.data@, i.o(), i.e());
    !node_end(i.data@, i.o(), i.e()) && (!ie_ok(i.data@.subrange(i.o(), i.e())) || ie_sub(b) && t.sub(b) is None)
}
/// The value an index allocation is read from.
pub proof fn lemma_ia<'n, 'f>(a: crate::attribute::NtfsAttribute<'n, 'f>, v: crate::attribute_value::NtfsAttributeValue<'n, 'f>, ia: NtfsIndexAllocation<'n, 'f>, d: Seq<u8>)
    requires
        a.inv(), a.val(v), v.rs_inv(d), v.rs_pos() == 0,
        <NtfsIndexAllocation<'n, 'f> as crate::structured_values::NtfsStructuredValue<'n, 'f>>::sv_ok(v, d), ia.sv_of(v, d),
    ensures
        ia.inv(d), ia.value.rs_content(d) == a.content(d), ia.value.rs_pos() == 0, ia.ntfs == a.file.ntfs,
{
    crate::order::mark();
    crate::attribute::lemma_val_content(a, v, d);
}
@fn NtfsIndex::new
@props C15 C25
@requires
        index_root_item.f().inv(),
        index_allocation_item is Some ==> index_allocation_item->Some_0.f().inv(),
@ensures
        match r {
            Ok(i) => {
                let c = index_root_item.res();
                &&& at_ok(index_root_item.f().d(), index_root_item.attribute_offset as int)
                &&& at_resident(index_root_item.f().d(), index_root_item.attribute_offset as int)
                &&& index_root_item.ty() == Some(NtfsAttributeType::IndexRoot)
                &&& ro_ok(c)
                &&& i.index_root_entry_ranges.inv()
                &&& i.index_root_entry_ranges.data@ == c.subrange(ro_start(c), ro_end(c))
                &&& i.index_root_entry_ranges.o() == 0
                &&& i.index_root_entry_ranges.e() == ro_end(c) - ro_start(c)
                &&& i.index_record_size == le32(c, 8)
                &&& i.index_allocation_item == index_allocation_item
                &&& match index_allocation_item {
                    Some(x) => at_ok(x.f().d(), x.attribute_offset as int) && x.ty() == Some(NtfsAttributeType::IndexAllocation),
                    None => c[28] & 1 == 0,
                }
            },
            Err(_) => {
                let c = index_root_item.res();
                ||| !at_ok(index_root_item.f().d(), index_root_item.attribute_offset as int)
                ||| !at_resident(index_root_item.f().d(), index_root_item.attribute_offset as int)
                ||| index_root_item.ty() != Some(NtfsAttributeType::IndexRoot)
                ||| !crate::attribute::at_res_ok(index_root_item.f().d(), index_root_item.attribute_offset as int)
                ||| !ro_ok(c)
                ||| match index_allocation_item {
                    Some(x) => !at_ok(x.f().d(), x.attribute_offset as int) || x.ty() != Some(NtfsAttributeType::IndexAllocation),
                    None => c[28] & 1 != 0,
                }
            },
        },
@proof start
        proof { crate::structured_values::index_root::lemma_sv_ty(); }
@fn NtfsIndex::entries
@props C15
@ensures
        r.index == self, r.inner_iterators@ == seq![self.index_root_entry_ranges], r.following_entries@.len() == 0,
        forall|d: Seq<u8>| self.inv(d) ==> #[trigger] r.inv(d) && (self.all(d) is Some ==> r.todo(d) == self.all(d)),
@proof start
        proof {
            assert forall|d: Seq<u8>, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>| its == seq![self.index_root_entry_ranges] && self.all(d) is Some
                implies (#[trigger] rest_of(self.g(d), its, fol)) == self.all(d) by {
                lemma_first(self.g(d), self.index_root_entry_ranges, fol);
            }
            assert forall|its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>| its == seq![self.index_root_entry_ranges] && fol.len() == 0 && self.index_root_entry_ranges.inv()
                implies #[trigger] stack_ok(its, fol) by {
                lemma_first(IndexG { ia: None, irs: 0, cs: 0 }, self.index_root_entry_ranges, fol);
            }
        }
@fn NtfsIndex::finder
@props C16
@ensures
        r.index == self,
@fn NtfsIndexEntries::new
@props C15
@ensures
        r.index == index, r.inner_iterators@ == seq![index.index_root_entry_ranges], r.following_entries@.len() == 0,
@fn NtfsIndexFinder::new
@props C16
@ensures
        r.index == index,
@fn NtfsIndexEntries::next
@props C15
@hide crate::attribute::at_ty
@attr
#[verifier::spinoff_prover]
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(40)]
@requires
        old(fs).dinv(), old(self).inv(old(fs).disk()),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).inv(old(fs).disk()), final(self).index == old(self).index,
        old(self).todo(old(fs).disk()) is Some ==> match r {
            None => old(self).todo(old(fs).disk())->Some_0.len() == 0 && final(self).todo(old(fs).disk()) == old(self).todo(old(fs).disk()),
            Some(Ok(x)) => {
                let l = old(self).todo(old(fs).disk())->Some_0;
                &&& x.inv()
                &&& l.len() > 0 && l[0] == EntG::Ent(x.s())
                &&& final(self).todo(old(fs).disk()) == Some(l.skip(1))
            },
            Some(Err(_)) => {
                let l = old(self).todo(old(fs).disk())->Some_0;
                T::dsound() && old(self).index.whole(old(fs).disk(), old(fs).davail()) ==> l.len() > 0 && l[0] is Bad
            },
        },
@loop 0
            invariant_except_break
                self.inv(fs.disk()),
                old(self).todo(fs.disk()) is Some ==> self.todo(fs.disk()) == old(self).todo(fs.disk()),
            invariant
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                self.index == old(self).index,
            ensures
                self.inv(fs.disk()),
                self.inner_iterators@.len() > 0,
                <IndexEntryRange<E>>::fits(&brk__0, self.inner_iterators@.last().data@),
                old(self).todo(fs.disk()) is Some ==> self.todo(fs.disk()) is Some
                    && old(self).todo(fs.disk()) == Some(seq![EntG::Ent(<IndexEntryRange<E>>::bytes(&brk__0, self.inner_iterators@.last().data@))] + self.todo(fs.disk())->Some_0),
@proof loop0.start
            proof {
                crate::index_entry::lemma_flags_all();
                crate::structured_values::index_allocation::lemma_sv_ty();
                let d = fs.disk();
                assert forall|a: crate::attribute::NtfsAttribute<'n, 'f>, v: crate::attribute_value::NtfsAttributeValue<'n, 'f>, ia: NtfsIndexAllocation<'n, 'f>|
                    a.inv() && #[trigger] a.val(v) && v.rs_inv(d) && v.rs_pos() == 0
                    && <NtfsIndexAllocation<'n, 'f> as crate::structured_values::NtfsStructuredValue<'n, 'f>>::sv_ok(v, d) && #[trigger] ia.sv_of(v, d)
                    implies ia.inv(d) && ia.value.rs_content(d) == a.content(d) && ia.value.rs_pos() == 0 && ia.ntfs == a.file.ntfs by {
                    lemma_ia(a, v, ia, d);
                }
                lemma_top(self.inner_iterators@, self.following_entries@);
            }
            proof { lemma_bad(self.index.g(fs.disk()), self.inner_iterators@, self.following_entries@); }
            let ghost its0 = self.inner_iterators@;
            let ghost fol0 = self.following_entries@;
            proof {
                assert forall|its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>| kept(its0, its) && fol =~= fol0
                    implies #[trigger] stack_ok(its, fol) by { lemma_kept(its0, fol0, its, fol); }
                assert forall|t: IndexG, its: Seq<IndexNodeEntryRanges<E>>, fol: Seq<Option<IndexEntryRange<E>>>| its.len() == 0 && its0.len() <= 1 && fol =~= fol0 && (its0.len() == 1 ==> node_end(its0[0].data@, its0[0].o(), its0[0].e()))
                    implies stack_ok(its, fol) && (#[trigger] rest_of(t, its, fol) == Some(Seq::<EntG>::empty())) && (rest_of(t, its0, fol0) is Some ==> rest_of(t, its0, fol0) == Some(Seq::<EntG>::empty())) by {
                    if its0.len() > 0 { lemma_finished(t, its0, fol0, its, fol); } else { lemma_kept(its0, fol0, its, fol); }
                    reveal(rest_of);
                }
            }
@proof loop0.end
            proof { lemma_step(self.index.g(fs.disk()), its0, fol0, self.inner_iterators@, self.following_entries@); }
@proof loop0.break
            proof {
                lemma_step(self.index.g(fs.disk()), its0, fol0, self.inner_iterators@, self.following_entries@);
                lemma_top(self.inner_iterators@, self.following_entries@);
            }
@text
/// What the comparison function says about the key of an entry (`Greater`: what is looked for comes after it).
pub open spec fn rank(f: spec_fn(Seq<u8>) -> Ordering, b: Seq<u8>) -> int {
    match f(ie_key(b)) { Ordering::Greater => 0, Ordering::Equal => 1, Ordering::Less => 2 }
}
/// The comparison function gives `f` of the bytes of the key.
pub open spec fn agrees<K, F>(cmp: F, f: spec_fn(Seq<u8>) -> Ordering) -> bool where K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering {
    forall|k: &K, s: Seq<u8>, o: Ordering| #[trigger] k.key_of(s) && #[trigger] cmp.ensures((k,), o) ==> o == f(s)
}
/// All entries can be read, have a key, and are in order.
pub open spec fn sorted(l: Seq<EntG>, f: spec_fn(Seq<u8>) -> Ordering) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> match #[trigger] l[i] { EntG::Ent(b) => ie_has_key(b), EntG::Bad => false }
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> rank(f, (#[trigger] l[i])->Ent_0) <= rank(f, (#[trigger] l[j])->Ent_0)
}
/// The entry is what is looked for.
pub open spec fn hit(x: EntG, f: spec_fn(Seq<u8>) -> Ordering) -> bool {
    match x { EntG::Ent(b) => f(ie_key(b)) == Ordering::Equal, EntG::Bad => false }
}
pub open spec fn hits(l: Seq<EntG>, f: spec_fn(Seq<u8>) -> Ordering) -> bool { exists|i: int| 0 <= i < l.len() && hit(#[trigger] l[i], f) }
pub open spec fn within(c: Seq<EntG>, l: Seq<EntG>) -> bool { forall|i: int| 0 <= i < c.len() ==> l.contains(#[trigger] c[i]) }
/// The search can go on in `cur`.
#[verifier::opaque]
pub open spec fn narrowed<K, F>(cmp: F, all: Option<Seq<EntG>>, cur: Option<Seq<EntG>>) -> bool where K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering {
    all is Some ==> {
        &&& cur is Some
        &&& within(cur->Some_0, all->Some_0)
        &&& forall|f: spec_fn(Seq<u8>) -> Ordering| agrees(cmp, f) && #[trigger] sorted(all->Some_0, f) ==> sorted(cur->Some_0, f) && (hits(all->Some_0, f) ==> hits(cur->Some_0, f))
    }
}
/// What is looked for is not there, provided the entries are in order.
#[verifier::opaque]
pub open spec fn absent<K, F>(cmp: F, all: Option<Seq<EntG>>) -> bool where K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering {
    all is Some ==> forall|f: spec_fn(Seq<u8>) -> Ordering| agrees(cmp, f) && #[trigger] sorted(all->Some_0, f) ==> !hits(all->Some_0, f)
}
pub proof fn lemma_part(a: Seq<EntG>, b: Seq<EntG>, f: spec_fn(Seq<u8>) -> Ordering)
    ensures
        within(a, a + b), within(b, a + b),
        sorted(a + b, f) ==> sorted(a, f) && sorted(b, f),
        hits(a + b, f) ==> hits(a, f) || hits(b, f),
        sorted(a + b, f) ==> forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> rank(f, (#[trigger] a[i])->Ent_0) <= rank(f, (#[trigger] b[j])->Ent_0),
{
    let c = a + b;
    assert forall|i: int| 0 <= i < a.len() implies c.contains(#[trigger] a[i]) by { assert(c[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies c.contains(#[trigger] b[i]) by { assert(c[i + a.len()] == b[i]); }
    if sorted(c, f) {
        assert forall|i: int| 0 <= i < a.len() implies match #[trigger] a[i] { EntG::Ent(b) => ie_has_key(b), EntG::Bad => false } by { assert(c[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies match #[trigger] b[i] { EntG::Ent(b) => ie_has_key(b), EntG::Bad => false } by { assert(c[i + a.len()] == b[i]); }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies rank(f, (#[trigger] a[i])->Ent_0) <= rank(f, (#[trigger] a[j])->Ent_0) by { assert(c[i] == a[i] && c[j] == a[j]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies rank(f, (#[trigger] b[i])->Ent_0) <= rank(f, (#[trigger] b[j])->Ent_0) by { assert(c[i + a.len()] == b[i] && c[j + a.len()] == b[j]); }
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies rank(f, (#[trigger] a[i])->Ent_0) <= rank(f, (#[trigger] b[j])->Ent_0) by { assert(c[i] == a[i] && c[j + a.len()] == b[j]); }
    }
    if hits(c, f) {
        let i = choose|i: int| 0 <= i < c.len() && hit(#[trigger] c[i], f);
        if i < a.len() { assert(hit(a[i], f)); } else { assert(hit(b[i - a.len()], f)); }
    }
}
/// One step of a search: `cur` are the entries of a subnode `x`, an entry `b`, and what follows `y`.
pub proof fn lemma_narrow<K, F>(cmp: F, all: Option<Seq<EntG>>, x: Option<Seq<EntG>>, b: Seq<u8>, y: Option<Seq<EntG>>, o: Option<Ordering>) where K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering
    requires
        narrowed(cmp, all, join(x, own(b), y)),
        match o {
            None => !ie_has_key(b),
            Some(o) => ie_has_key(b) && forall|f: spec_fn(Seq<u8>) -> Ordering| #[trigger] agrees(cmp, f) ==> f(ie_key(b)) == o,
        },
        ie_last(b) && y is Some ==> y->Some_0.len() == 0,
    ensures
        match o {
            Some(Ordering::Greater) => narrowed(cmp, all, y),
            Some(Ordering::Equal) => all is Some ==> all->Some_0.contains(EntG::Ent(b)),
            _ => narrowed(cmp, all, x),
        },
{
    reveal(narrowed);
    if all is Some {
        let l = all->Some_0;
        let (x, y) = (x->Some_0, y->Some_0);
        let p = x + own(b);
        let c = p + y;
        assert(within(x, l)) by {
            assert forall|i: int| 0 <= i < x.len() implies l.contains(#[trigger] x[i]) by { assert(c[i] == x[i]); }
        }
        assert(within(y, l)) by {
            assert forall|i: int| 0 <= i < y.len() implies l.contains(#[trigger] y[i]) by { assert(c[p.len() + i] == y[i]); }
        }
        if !ie_last(b) { assert(p[x.len() as int] == EntG::Ent(b)); assert(c[x.len() as int] == EntG::Ent(b)); }
        assert forall|f: spec_fn(Seq<u8>) -> Ordering| agrees(cmp, f) && #[trigger] sorted(l, f) implies sorted(x, f) && sorted(y, f)
            && (hits(l, f) ==> match o { Some(Ordering::Greater) => hits(y, f), Some(Ordering::Equal) => true, _ => hits(x, f) }) by {
            assert(sorted(c, f));
            lemma_part(p, y, f);
            lemma_part(x, own(b), f);
            if !ie_last(b) {
                assert(p[x.len() as int] == EntG::Ent(b));
                assert(own(b)[0] == EntG::Ent(b));
                assert(ie_has_key(b));
            }
            if hits(l, f) {
                match o {
                    Some(Ordering::Greater) => {
                        assert forall|i: int| 0 <= i < p.len() implies !hit(#[trigger] p[i], f) by {
                            if i < x.len() { assert(p[i] == x[i]); assert(rank(f, x[i]->Ent_0) <= rank(f, own(b)[0]->Ent_0)); }
                        }
                    },
                    Some(Ordering::Equal) => {},
                    _ => {
                        assert forall|i: int| 0 <= i < y.len() implies !hit(#[trigger] y[i], f) by {
                            assert(!ie_last(b));
                            assert(rank(f, p[x.len() as int]->Ent_0) <= rank(f, y[i]->Ent_0));
                        }
                        assert(!hits(own(b), f));
                    },
                }
            }
        }
    }
}
/// The entry or its key is malformed.
pub open spec fn unreadable<K>(x: EntG) -> bool where K: crate::indexes::NtfsIndexEntryKey {
    match x { EntG::Ent(b) => ie_has_key(b) && (16 + crate::index_entry::ie_key_len(b) > b.len() || !K::key_ok(ie_key(b))), EntG::Bad => true }
}
pub open spec fn some_unreadable<K>(l: Seq<EntG>) -> bool where K: crate::indexes::NtfsIndexEntryKey { exists|i: int| 0 <= i < l.len() && unreadable::<K>(#[trigger] l[i]) }
/// What a search can't read is among the entries.
pub proof fn lemma_find_bad<K, F, E>(cmp: F, t: IndexG, all: Option<Seq<EntG>>, it: IndexNodeEntryRanges<E>) where E: NtfsIndexEntryType, K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering
    requires narrowed(cmp, all, tree(t, it.data@, it.o(), it.e())),
    ensures ({
        let b = ie_at(it.data@, it.o(), it.e());
        all is Some && (bad_here(t, it) || at_entry(it) && ie_has_key(b) && unreadable::<K>(EntG::Ent(b))) ==> some_unreadable::<K>(all->Some_0)
    }),
{
    let b = ie_at(it.data@, it.o(), it.e());
    lemma_tree(t, it.data@, it.o(), it.e());
    reveal(narrowed);
    if all is Some {
        let l = all->Some_0;
        let c = tree(t, it.data@, it.o(), it.e())->Some_0;
        if bad_here(t, it) {
            assert(l.contains(c[0]));
            let k = choose|k: int| 0 <= k < l.len() && l[k] == c[0];
            assert(unreadable::<K>(l[k]));
        } else if at_entry(it) && ie_has_key(b) && unreadable::<K>(EntG::Ent(b)) {
            let x = subtree(t, b)->Some_0;
            assert(c[x.len() as int] == EntG::Ent(b));
            assert(l.contains(c[x.len() as int]));
            let k = choose|k: int| 0 <= k < l.len() && l[k] == EntG::Ent(b);
            assert(unreadable::<K>(l[k]));
        }
    }
}
/// The steps of a search that is at the entry `it` of a node.
pub proof fn lemma_find<K, F, E>(cmp: F, t: IndexG, all: Option<Seq<EntG>>, it: IndexNodeEntryRanges<E>) where E: NtfsIndexEntryType, K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering
    requires narrowed(cmp, all, tree(t, it.data@, it.o(), it.e())),
    ensures ({
        let b = ie_at(it.data@, it.o(), it.e());
        &&& node_end(it.data@, it.o(), it.e()) ==> absent(cmp, all)
        &&& at_entry(it) && !ie_has_key(b) ==> narrowed(cmp, all, subtree(t, b)) && (!ie_sub(b) ==> absent(cmp, all))
        &&& at_entry(it) && ie_has_key(b) ==> forall|k: &K, o: Ordering| #[trigger] k.key_of(ie_key(b)) && #[trigger] cmp.ensures((k,), o) ==> match o {
            Ordering::Greater => narrowed(cmp, all, resttree(t, it.data@, it.o(), it.e())),
            Ordering::Less => narrowed(cmp, all, subtree(t, b)) && (!ie_sub(b) ==> absent(cmp, all)),
            Ordering::Equal => all is Some ==> all->Some_0.contains(EntG::Ent(b)),
        }
    }),
{
    let b = ie_at(it.data@, it.o(), it.e());
    let cur = tree(t, it.data@, it.o(), it.e());
    let x = subtree(t, b);
    let y = resttree(t, it.data@, it.o(), it.e());
    lemma_tree(t, it.data@, it.o(), it.e());
    if node_end(it.data@, it.o(), it.e()) { lemma_absent(cmp, all, cur); }
    if at_entry(it) {
        assert(narrowed(cmp, all, join(x, own(b), y))) by { reveal(narrowed); }
        if !ie_has_key(b) {
            lemma_narrow(cmp, all, x, b, y, None);
            if !ie_sub(b) { lemma_absent(cmp, all, x); }
        } else {
            assert forall|k: &K, o: Ordering| #[trigger] k.key_of(ie_key(b)) && #[trigger] cmp.ensures((k,), o) implies match o {
                Ordering::Greater => narrowed(cmp, all, y),
                Ordering::Less => narrowed(cmp, all, x) && (!ie_sub(b) ==> absent(cmp, all)),
                Ordering::Equal => all is Some ==> all->Some_0.contains(EntG::Ent(b)),
            } by {
                lemma_narrow(cmp, all, x, b, y, Some(o));
                if !ie_sub(b) && o == Ordering::Less { lemma_absent(cmp, all, x); }
            }
        }
    }
}
pub proof fn lemma_absent<K, F>(cmp: F, all: Option<Seq<EntG>>, cur: Option<Seq<EntG>>) where K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering
    requires narrowed(cmp, all, cur), cur is Some ==> cur->Some_0.len() == 0,
    ensures absent(cmp, all),
{
    reveal(narrowed);
    reveal(absent);
}
pub proof fn lemma_narrowed_first<K, F>(cmp: F, all: Option<Seq<EntG>>) where K: crate::indexes::NtfsIndexEntryKey, F: Fn(&K) -> Ordering
    ensures narrowed(cmp, all, all),
{
    reveal(narrowed);
    if all is Some {
        let l = all->Some_0;
        assert forall|i: int| 0 <= i < l.len() implies l.contains(#[trigger] l[i]) by {}
    }
}
@fn NtfsIndexFinder::find
@props C16
@hide crate::attribute::at_ty
@attr
#[verifier::spinoff_prover]
#[verifier::exec_allows_no_decreases_clause]
@requires
        old(fs).dinv(), old(self).index.inv(old(fs).disk()),
        forall|k: &E::KeyType| #[trigger] cmp.requires((k,)),
@ensures
        final(fs).dinv(), final(fs).disk() == old(fs).disk(), final(fs).davail() == old(fs).davail(),
        final(self).index == old(self).index,
        match r {
            None => absent(cmp, old(self).index.all(old(fs).disk())),
            Some(Ok(x)) => {
                let all = old(self).index.all(old(fs).disk());
                &&& x.inv() && ie_has_key(x.s())
                &&& exists|k: E::KeyType| #[trigger] k.key_of(ie_key(x.s())) && cmp.ensures((&k,), Ordering::Equal)
                &&& all is Some ==> all->Some_0.contains(EntG::Ent(x.s()))
            },
            Some(Err(_)) => {
                let all = old(self).index.all(old(fs).disk());
                T::dsound() && old(self).index.whole(old(fs).disk(), old(fs).davail()) && all is Some ==> some_unreadable::<E::KeyType>(all->Some_0)
            },
        },
@loop 0
            invariant
                fs.dinv(), fs.disk() == old(fs).disk(), fs.davail() == old(fs).davail(),
                self.index == old(self).index, self.index.inv(fs.disk()), self.inner_iterator.inv(),
                forall|k: &E::KeyType| #[trigger] cmp.requires((k,)),
                narrowed(cmp, self.index.all(fs.disk()), tree(self.index.g(fs.disk()), self.inner_iterator.data@, self.inner_iterator.o(), self.inner_iterator.e())),
@proof start
        proof { lemma_narrowed_first(cmp, self.index.all(fs.disk())); }
@proof loop0.start
            proof {
                crate::index_entry::lemma_flags_all();
                crate::structured_values::index_allocation::lemma_sv_ty();
                let d = fs.disk();
                assert forall|a: crate::attribute::NtfsAttribute<'n, 'f>, v: crate::attribute_value::NtfsAttributeValue<'n, 'f>, ia: NtfsIndexAllocation<'n, 'f>|
                    a.inv() && #[trigger] a.val(v) && v.rs_inv(d) && v.rs_pos() == 0
                    && <NtfsIndexAllocation<'n, 'f> as crate::structured_values::NtfsStructuredValue<'n, 'f>>::sv_ok(v, d) && #[trigger] ia.sv_of(v, d)
                    implies ia.inv(d) && ia.value.rs_content(d) == a.content(d) && ia.value.rs_pos() == 0 && ia.ntfs == a.file.ntfs by {
                    lemma_ia(a, v, ia, d);
                }
                lemma_find_bad(cmp, self.index.g(d), self.index.all(d), self.inner_iterator);
                lemma_find(cmp, self.index.g(d), self.index.all(d), self.inner_iterator);
            }
