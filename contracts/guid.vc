@file src/guid.rs guid
@text
/// The GUID stored in the 16 bytes at `o`.
pub open spec fn guid_of(g: NtfsGuid, c: Seq<u8>, o: int) -> bool {
    g.data1 == le32(c, o) && g.data2 == le16(c, o + 4) && g.data3 == le16(c, o + 6) && g.data4@ == c.subrange(o + 8, o + 16)
}
pub open spec fn opt_guid_of(g: Option<NtfsGuid>, c: Seq<u8>, o: int) -> bool {
    match g { Some(g) => c.len() >= o + 16 && guid_of(g, c, o), None => c.len() < o + 16 }
}

@head
#[allow(unused_imports)] use crate::vx::fmt::{hexw, hexdigit, pow16};
@text
/// Two upper-case hexadecimal digits.
#[verifier::opaque]
pub open spec fn byte_hex(b: u8) -> Seq<char> { seq![hexdigit(b as int / 16, true), hexdigit(b as int % 16, true)] }
/// The canonical form of the GUID stored in the 16 bytes `c`.
pub open spec fn guid_text(c: Seq<u8>) -> Seq<char> {
    byte_hex(c[3]) + byte_hex(c[2]) + byte_hex(c[1]) + byte_hex(c[0]) + seq!['-'] + byte_hex(c[5]) + byte_hex(c[4]) + seq!['-'] + byte_hex(c[7]) + byte_hex(c[6])
        + seq!['-'] + byte_hex(c[8]) + byte_hex(c[9]) + seq!['-'] + byte_hex(c[10]) + byte_hex(c[11]) + byte_hex(c[12]) + byte_hex(c[13]) + byte_hex(c[14]) + byte_hex(c[15])
}
pub proof fn lemma_hexw(v: int, w: nat)
    requires 0 <= v,
    ensures
        hexw(v, w + 2, true) == hexw(v / 256, w, true) + byte_hex((v % 256) as u8),
        hexw(v, 0, true) == Seq::<char>::empty(),
{
    reveal(hexw);
    reveal(byte_hex);
    let a = hexw(v, w + 2, true);
    assert(a == hexw(v / 16, w + 1, true).push(hexdigit(v % 16, true)));
    assert(hexw(v / 16, w + 1, true) == hexw((v / 16) / 16, w, true).push(hexdigit((v / 16) % 16, true)));
    assert((v / 16) / 16 == v / 256);
    assert((v / 16) % 16 == (v % 256) / 16);
    assert((v % 256) % 16 == v % 16);
    assert(a =~= hexw(v / 256, w, true) + byte_hex((v % 256) as u8));
}
/// The bytes of a number in hexadecimal.
pub proof fn lemma_hex2(b0: u8)
    ensures hexw(b0 as int, 2, true) == byte_hex(b0), pow16(2) == 256,
{
    reveal_with_fuel(pow16, 3);
    lemma_hexw(b0 as int, 0);
    lemma_hexw(b0 as int / 256, 0);
    assert(hexw(b0 as int, 2, true) =~= byte_hex(b0));
}
pub proof fn lemma_hex4(b0: u8, b1: u8)
    ensures hexw(b0 + 256 * b1, 4, true) == byte_hex(b1) + byte_hex(b0), pow16(4) == 65536,
{
    reveal_with_fuel(pow16, 5);
    let u = b0 + 256 * b1;
    lemma_hexw(u, 2);
    lemma_hex2(b1);
    assert(u / 256 == b1 && u % 256 == b0);
}
pub proof fn lemma_hex8(b0: u8, b1: u8, b2: u8, b3: u8)
    ensures hexw(b0 + 256 * b1 + 65536 * b2 + 16777216 * b3, 8, true) == byte_hex(b3) + byte_hex(b2) + byte_hex(b1) + byte_hex(b0), pow16(8) == 4294967296,
{
    reveal_with_fuel(pow16, 9);
    let v = b0 + 256 * b1 + 65536 * b2 + 16777216 * b3;
    let w = b1 + 256 * b2 + 65536 * b3;
    lemma_hexw(v, 6);
    assert(v / 256 == w && v % 256 == b0);
    lemma_hexw(w, 4);
    assert(w / 256 == b2 + 256 * b3 && w % 256 == b1);
    lemma_hex4(b2, b3);
}
pub proof fn lemma_byte_hex(a: u8, b: u8)
    ensures byte_hex(a).len() == 2, byte_hex(b).len() == 2, byte_hex(a) == byte_hex(b) ==> a == b,
{
    reveal(byte_hex);
    reveal(hexdigit);
    assert(byte_hex(a)[0] == hexdigit(a as int / 16, true) && byte_hex(a)[1] == hexdigit(a as int % 16, true));
    assert(byte_hex(b)[0] == hexdigit(b as int / 16, true) && byte_hex(b)[1] == hexdigit(b as int % 16, true));
}
pub proof fn lemma_cat(a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires a + x == b + y, x.len() == y.len(),
    ensures a == b, x == y,
{
    assert((a + x).len() == a.len() + x.len());
    assert((b + y).len() == b.len() + y.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert((a + x)[i] == a[i] && (b + y)[i] == b[i]); }
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert((a + x)[a.len() + i] == x[i] && (b + y)[b.len() + i] == y[i]); }
    assert(a =~= b);
    assert(x =~= y);
}
/// Distinct GUIDs have distinct texts.
pub proof fn lemma_guid_text(c: Seq<u8>, e: Seq<u8>)
    requires c.len() == 16, e.len() == 16, guid_text(c) == guid_text(e),
    ensures c == e,
{
    lemma_byte_hex(c[0], e[0]);
    lemma_byte_hex(c[1], e[1]);
    lemma_byte_hex(c[2], e[2]);
    lemma_byte_hex(c[3], e[3]);
    lemma_byte_hex(c[4], e[4]);
    lemma_byte_hex(c[5], e[5]);
    lemma_byte_hex(c[6], e[6]);
    lemma_byte_hex(c[7], e[7]);
    lemma_byte_hex(c[8], e[8]);
    lemma_byte_hex(c[9], e[9]);
    lemma_byte_hex(c[10], e[10]);
    lemma_byte_hex(c[11], e[11]);
    lemma_byte_hex(c[12], e[12]);
    lemma_byte_hex(c[13], e[13]);
    lemma_byte_hex(c[14], e[14]);
    lemma_byte_hex(c[15], e[15]);
    let p0 = byte_hex(c[3]);
    let q0 = byte_hex(e[3]);
    let p1 = p0 + byte_hex(c[2]);
    let q1 = q0 + byte_hex(e[2]);
    let p2 = p1 + byte_hex(c[1]);
    let q2 = q1 + byte_hex(e[1]);
    let p3 = p2 + byte_hex(c[0]);
    let q3 = q2 + byte_hex(e[0]);
    let p4 = p3 + seq!['-'];
    let q4 = q3 + seq!['-'];
    let p5 = p4 + byte_hex(c[5]);
    let q5 = q4 + byte_hex(e[5]);
    let p6 = p5 + byte_hex(c[4]);
    let q6 = q5 + byte_hex(e[4]);
    let p7 = p6 + seq!['-'];
    let q7 = q6 + seq!['-'];
    let p8 = p7 + byte_hex(c[7]);
    let q8 = q7 + byte_hex(e[7]);
    let p9 = p8 + byte_hex(c[6]);
    let q9 = q8 + byte_hex(e[6]);
    let p10 = p9 + seq!['-'];
    let q10 = q9 + seq!['-'];
    let p11 = p10 + byte_hex(c[8]);
    let q11 = q10 + byte_hex(e[8]);
    let p12 = p11 + byte_hex(c[9]);
    let q12 = q11 + byte_hex(e[9]);
    let p13 = p12 + seq!['-'];
    let q13 = q12 + seq!['-'];
    let p14 = p13 + byte_hex(c[10]);
    let q14 = q13 + byte_hex(e[10]);
    let p15 = p14 + byte_hex(c[11]);
    let q15 = q14 + byte_hex(e[11]);
    let p16 = p15 + byte_hex(c[12]);
    let q16 = q15 + byte_hex(e[12]);
    let p17 = p16 + byte_hex(c[13]);
    let q17 = q16 + byte_hex(e[13]);
    let p18 = p17 + byte_hex(c[14]);
    let q18 = q17 + byte_hex(e[14]);
    let p19 = p18 + byte_hex(c[15]);
    let q19 = q18 + byte_hex(e[15]);
    lemma_cat(p18, q18, byte_hex(c[15]), byte_hex(e[15]));
    lemma_cat(p17, q17, byte_hex(c[14]), byte_hex(e[14]));
    lemma_cat(p16, q16, byte_hex(c[13]), byte_hex(e[13]));
    lemma_cat(p15, q15, byte_hex(c[12]), byte_hex(e[12]));
    lemma_cat(p14, q14, byte_hex(c[11]), byte_hex(e[11]));
    lemma_cat(p13, q13, byte_hex(c[10]), byte_hex(e[10]));
    lemma_cat(p12, q12, seq!['-'], seq!['-']);
    lemma_cat(p11, q11, byte_hex(c[9]), byte_hex(e[9]));
    lemma_cat(p10, q10, byte_hex(c[8]), byte_hex(e[8]));
    lemma_cat(p9, q9, seq!['-'], seq!['-']);
    lemma_cat(p8, q8, byte_hex(c[6]), byte_hex(e[6]));
    lemma_cat(p7, q7, byte_hex(c[7]), byte_hex(e[7]));
    lemma_cat(p6, q6, seq!['-'], seq!['-']);
    lemma_cat(p5, q5, byte_hex(c[4]), byte_hex(e[4]));
    lemma_cat(p4, q4, byte_hex(c[5]), byte_hex(e[5]));
    lemma_cat(p3, q3, seq!['-'], seq!['-']);
    lemma_cat(p2, q2, byte_hex(c[0]), byte_hex(e[0]));
    lemma_cat(p1, q1, byte_hex(c[1]), byte_hex(e[1]));
    lemma_cat(p0, q0, byte_hex(c[2]), byte_hex(e[2]));
    assert(c =~= e);
}
pub open spec fn cat(t: Seq<char>, g: NtfsGuid) -> Seq<char> {
    t + hexw(g.data1 as int, 8, true) + seq!['-'] + hexw(g.data2 as int, 4, true) + seq!['-'] + hexw(g.data3 as int, 4, true) + seq!['-']
        + hexw(g.data4@[0] as int, 2, true) + hexw(g.data4@[1] as int, 2, true) + seq!['-'] + hexw(g.data4@[2] as int, 2, true) + hexw(g.data4@[3] as int, 2, true)
        + hexw(g.data4@[4] as int, 2, true) + hexw(g.data4@[5] as int, 2, true) + hexw(g.data4@[6] as int, 2, true) + hexw(g.data4@[7] as int, 2, true)
}
pub proof fn lemma_text(t: Seq<char>, g: NtfsGuid, c: Seq<u8>, o: int)
    requires 0 <= o, o + 16 <= c.len(), guid_of(g, c, o),
    ensures cat(t, g) == t + guid_text(c.subrange(o, o + 16)),
{
    let s = c.subrange(o, o + 16);
    lemma_hex8(s[0], s[1], s[2], s[3]);
    lemma_hex4(s[4], s[5]);
    lemma_hex4(s[6], s[7]);
    assert forall|k: int| 0 <= k < 8 implies hexw(#[trigger] g.data4@[k] as int, 2, true) == byte_hex(s[8 + k]) && byte_hex(s[8 + k]).len() == 2 by {
        lemma_hex2(s[8 + k]);
        lemma_byte_hex(s[8 + k], 0);
    }
    assert forall|k: int| 0 <= k < 16 implies byte_hex(#[trigger] s[k]).len() == 2 by { lemma_byte_hex(s[k], 0); }
    assert(cat(t, g) =~= t + guid_text(s));
}
@fn NtfsGuid:Display::fmt
@props C24
@ensures
        forall|c: Seq<u8>, o: int| 0 <= o && o + 16 <= c.len() && #[trigger] guid_of(*self, c, o) && r is Ok ==> final(f).text() == old(f).text() + guid_text(c.subrange(o, o + 16)),
@proof start
        proof {
            reveal_strlit("-");
            assert("-"@ =~= seq!['-']);
            lemma_hex8(0, 0, 0, 0);
            lemma_hex4(0, 0);
            lemma_hex2(0);
            assert forall|c: Seq<u8>, o: int| 0 <= o && o + 16 <= c.len() && #[trigger] guid_of(*self, c, o) implies cat(f.text(), *self) == f.text() + guid_text(c.subrange(o, o + 16)) by {
                lemma_text(f.text(), *self, c, o);
            }
        }
