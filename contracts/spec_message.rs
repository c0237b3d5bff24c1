// =====================================================================================================
// Specification functions: messages (RFC 6455 5.4 to 5.6)
// =====================================================================================================
/// the bytes a close frame carries
pub open spec fn close_bytes(code: u16, reason: Seq<u8>) -> Seq<u8> { enc16(code) + reason }
pub open spec fn cat_frames<D: DataFrameTrait>(fs: Seq<D>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { cat_frames(fs.drop_last()) + fs.last().v_pay() }
}
/// a complete message: one opening frame and continuations, no reserved bits
pub open spec fn frames_ok<D: DataFrameTrait>(fs: Seq<D>) -> bool {
    &&& fs.len() > 0
    &&& forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).v_rsv() =~= seq![false, false, false]
    &&& forall|i: int| 1 <= i < fs.len() ==> (#[trigger] fs[i]).v_op() == 0
}
/// a message with this opcode and this payload is legal
pub open spec fn msg_ok(op: u8, pay: Seq<u8>) -> bool {
    if op == 1 { valid_utf8(pay) }
    else if op == 8 { pay.len() == 0 || (pay.len() >= 2 && valid_utf8(pay.skip(2))) }
    else { op == 2 || op == 9 || op == 10 }
}
pub open spec fn no_rsv() -> Seq<bool> { seq![false, false, false] }
pub proof fn lemma_enc_be16(x: u16) ensures be16(enc16(x)) == x {
    let (a, b) = ((x >> 8) as u8, (x & 0xff) as u8);
    assert((((x >> 8) as u8 as u16) << 8) | ((x & 0xff) as u8 as u16) == x) by (bit_vector);
}
pub proof fn lemma_be_enc16(s: Seq<u8>) requires s.len() == 2 ensures enc16(be16(s)) == s {
    let (a, b) = (s[0], s[1]);
    let x = ((a as u16) << 8) | (b as u16);
    assert((x >> 8) as u8 == a && (x & 0xff) as u8 == b) by (bit_vector) requires x == ((a as u16) << 8) | (b as u16);
    assert(enc16(be16(s)) =~= s);
}
/// a close payload is its code and its reason
pub proof fn lemma_close_split()
    ensures forall|s: Seq<u8>| s.len() >= 2 ==> close_bytes(#[trigger] be16(s.subrange(0, 2)), s.skip(2)) == s,
{
    assert forall|s: Seq<u8>| s.len() >= 2 implies close_bytes(#[trigger] be16(s.subrange(0, 2)), s.skip(2)) == s by {
        lemma_be_enc16(s.subrange(0, 2));
        assert(close_bytes(be16(s.subrange(0, 2)), s.skip(2)) =~= s);
    }
}
pub broadcast proof fn lemma_wrote_close<W: Write>(a: &W, b: &W, c: &W, code: u16, y: Seq<u8>)
    requires a.w_wf(), #[trigger] W::wrote(a, b, enc16(code)), #[trigger] W::wrote(b, c, y)
    ensures W::wrote(a, c, close_bytes(code, y))
{ W::wrote_trans(a, b, c, enc16(code), y); }
pub proof fn lemma_enc_valid()
    ensures forall|s: Seq<char>| valid_utf8(#[trigger] encode_utf8(s)),
{
    assert forall|s: Seq<char>| valid_utf8(#[trigger] encode_utf8(s)) by { encode_utf8_valid_utf8(s); }
}
