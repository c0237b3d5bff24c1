
pub proof fn lemma_masked_split(key: Seq<u8>, at: int, x: Seq<u8>, y: Seq<u8>)
    requires key.len() == 4, 0 <= at
    ensures masked_from(key, at, x) + masked_from(key, (at + x.len()) % 4, y) == masked_from(key, at, x + y)
{
    let l = masked_from(key, at, x) + masked_from(key, (at + x.len()) % 4, y);
    let r = masked_from(key, at, x + y);
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < r.len() implies l[i] == r[i] by {
        if i >= x.len() {
            let j = i - x.len();
            assert(((at + x.len()) % 4 + j) % 4 == (at + i) % 4) by (nonlinear_arith) requires i == j + x.len(), at >= 0, j >= 0;
        }
    }
    assert(l =~= r);
}
/// masking commutes with taking a prefix
pub proof fn lemma_masked_prefix(key: Seq<u8>, at: int, x: Seq<u8>)
    ensures
        masked_from(key, at, Seq::<u8>::empty()) == Seq::<u8>::empty(),
        forall|n: int| 0 <= n <= x.len() ==> masked_from(key, at, x).subrange(0, n) == masked_from(key, at, #[trigger] x.subrange(0, n)),
{
    assert(masked_from(key, at, Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert forall|n: int| 0 <= n <= x.len() implies masked_from(key, at, x).subrange(0, n) == masked_from(key, at, #[trigger] x.subrange(0, n)) by {
        assert(masked_from(key, at, x).subrange(0, n) =~= masked_from(key, at, x.subrange(0, n)));
    }
}

pub mod vxseq {
use vstd::prelude::*;
// ---- sequences
pub broadcast proof fn lemma_skip_skip<A>(s: Seq<A>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_skip_subrange<A>(s: Seq<A>, a: int, i: int, j: int)
    requires 0 <= a, 0 <= i <= j, a + j <= s.len()
    ensures #[trigger] s.skip(a).subrange(i, j) == s.subrange(a + i, a + j)
{ assert(s.skip(a).subrange(i, j) =~= s.subrange(a + i, a + j)); }
}
pub use vxseq::*;

pub broadcast proof fn lemma_wrote_trans<W: Write>(a: &W, b: &W, c: &W, x: Seq<u8>, y: Seq<u8>)
    requires a.w_wf(), #[trigger] W::wrote(a, b, x), #[trigger] W::wrote(b, c, y)
    ensures W::wrote(a, c, x + y)
{ W::wrote_trans(a, b, c, x, y); }

// ---- bits
pub proof fn lemma_header_bits()
    ensures
        forall|b: u8| #[trigger] (b & 0x7f) <= 127,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x0f == 0,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x80 == b & 0x80,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x40 == b & 0x40,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x20 == b & 0x20,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x10 == b & 0x10,
        forall|b: u8| #[trigger] (b & 0x0f) <= 15,
        forall|b: u8| #[trigger] (b & 0x80) == 0 || b & 0x80 == 0x80,
{
    assert forall|b: u8| true implies #[trigger] (b & 0x7f) <= 127 by { assert(b & 0x7f <= 127) by (bit_vector); }
    assert forall|b: u8| true implies (#[trigger] (b & 0xf0)) & 0x0f == 0 by { assert((b & 0xf0) & 0x0f == 0) by (bit_vector); }
    assert forall|b: u8| true implies (#[trigger] (b & 0xf0)) & 0x80 == b & 0x80 by { assert((b & 0xf0) & 0x80 == b & 0x80) by (bit_vector); }
    assert forall|b: u8| true implies (#[trigger] (b & 0xf0)) & 0x40 == b & 0x40 by { assert((b & 0xf0) & 0x40 == b & 0x40) by (bit_vector); }
    assert forall|b: u8| true implies (#[trigger] (b & 0xf0)) & 0x20 == b & 0x20 by { assert((b & 0xf0) & 0x20 == b & 0x20) by (bit_vector); }
    assert forall|b: u8| true implies (#[trigger] (b & 0xf0)) & 0x10 == b & 0x10 by { assert((b & 0xf0) & 0x10 == b & 0x10) by (bit_vector); }
    assert forall|b: u8| true implies #[trigger] (b & 0x0f) <= 15 by { assert(b & 0x0f <= 15) by (bit_vector); }
    assert forall|b: u8| true implies #[trigger] (b & 0x80) == 0 || b & 0x80 == 0x80 by { assert(b & 0x80 == 0 || b & 0x80 == 0x80) by (bit_vector); }
}
pub open spec fn hb0(h: DataFrameHeader) -> Seq<u8> { seq![h.flags.bits | h.opcode] }
pub open spec fn hb1(h: DataFrameHeader) -> Seq<u8> { seq![(if h.mask is Some { 0x80u8 } else { 0u8 }) | len_code(h.len)] }
/// the left-to-right concatenation of the header parts, with empty parts omitted, is the header
pub proof fn lemma_hdr_bytes(h: DataFrameHeader)
    ensures
        hdr_bytes(h).len() == hdr_size(h),
        hb0(h) + hb1(h) + ext_bytes(h.len) + mask_bytes(h.mask) == hdr_bytes(h),
        h.mask is None ==> hb0(h) + hb1(h) + ext_bytes(h.len) == hdr_bytes(h),
        ext_len(h.len) == 0 ==> hb0(h) + hb1(h) + mask_bytes(h.mask) == hdr_bytes(h),
        ext_len(h.len) == 0 && h.mask is None ==> hb0(h) + hb1(h) == hdr_bytes(h),
{
    assert(hb0(h) + hb1(h) + ext_bytes(h.len) + mask_bytes(h.mask) =~= hdr_bytes(h));
    if h.mask is None { assert(hb0(h) + hb1(h) + ext_bytes(h.len) =~= hdr_bytes(h)); }
    if ext_len(h.len) == 0 { assert(hb0(h) + hb1(h) + mask_bytes(h.mask) =~= hdr_bytes(h)); }
    if ext_len(h.len) == 0 && h.mask is None { assert(hb0(h) + hb1(h) =~= hdr_bytes(h)); }
}

pub proof fn lemma_frame_bits()
    ensures forall|b: u8| #[trigger] (b & 0x0f) <= 15,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x80 == b & 0x80,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x40 == b & 0x40,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x20 == b & 0x20,
        forall|b: u8| (#[trigger] (b & 0xf0)) & 0x10 == b & 0x10,
{ lemma_header_bits(); }
pub proof fn lemma_flags(fin: bool, rsv: Seq<bool>)
    ensures
        frame_flags(fin, rsv) & 0x0f == 0,
        frame_flags(fin, rsv) & 0x80 == b2f(fin, 0x80),
        frame_flags(fin, rsv) & 0x40 == b2f(rsv[0], 0x40),
        frame_flags(fin, rsv) & 0x20 == b2f(rsv[1], 0x20),
        frame_flags(fin, rsv) & 0x10 == b2f(rsv[2], 0x10),
        forall|x: u8| #[trigger] (x | 0) == x,
        forall|x: u8| #[trigger] (0 | x) == x,
{
    let (a, b, c, d) = (b2f(fin, 0x80), b2f(rsv[0], 0x40), b2f(rsv[1], 0x20), b2f(rsv[2], 0x10));
    let f = a | b | c | d;
    assert(f & 0x0f == 0 && f & 0x80 == a && f & 0x40 == b && f & 0x20 == c && f & 0x10 == d) by (bit_vector)
        requires f == a | b | c | d, a == 0x80 || a == 0, b == 0x40 || b == 0, c == 0x20 || c == 0, d == 0x10 || d == 0;
    assert forall|x: u8| #[trigger] (x | 0) == x by { assert(x | 0 == x) by (bit_vector); }
    assert forall|x: u8| #[trigger] (0 | x) == x by { assert(0 | x == x) by (bit_vector); }
}
/// a frame is the header followed by the (masked) payload
pub proof fn lemma_frame_parts(fin: bool, rsv: Seq<bool>, op: u8, payload: Seq<u8>)
    ensures
        forall|k: Option<[u8; 4]>| (#[trigger] frame_bytes(fin, rsv, op, payload, k)).len() == frame_len(payload.len(), k is Some) || payload.len() > u64::MAX,
        forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s,
        forall|h: DataFrameHeader| h.flags.bits == frame_flags(fin, rsv) && h.opcode == op && h.len == payload.len() && h.mask is None
            ==> #[trigger] hdr_bytes(h) + payload == frame_bytes(fin, rsv, op, payload, h.mask),
        forall|h: DataFrameHeader| h.flags.bits == frame_flags(fin, rsv) && h.opcode == op && h.len == payload.len() && h.mask is Some
            ==> #[trigger] hdr_bytes(h) + masked_from(h.mask->0@, 0, payload) == frame_bytes(fin, rsv, op, payload, h.mask),
{
    assert forall|h: DataFrameHeader| h.flags.bits == frame_flags(fin, rsv) && h.opcode == op && h.len == payload.len() implies
        #[trigger] hdr_bytes(h) + (match h.mask { Some(k) => masked_from(k@, 0, payload), None => payload }) == frame_bytes(fin, rsv, op, payload, h.mask) by {
        assert(h == DataFrameHeader { flags: DataFrameFlags { bits: frame_flags(fin, rsv) }, opcode: op, mask: h.mask, len: payload.len() as u64 });
    }
    assert forall|k: Option<[u8; 4]>| (#[trigger] frame_bytes(fin, rsv, op, payload, k)).len() == frame_len(payload.len(), k is Some) || payload.len() > u64::MAX by {
        lemma_hdr_bytes(DataFrameHeader { flags: DataFrameFlags { bits: frame_flags(fin, rsv) }, opcode: op, mask: k, len: payload.len() as u64 });
    }
    assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
}

// --------------------------------------------------------------------- P03: what one side writes, the other side reads
pub proof fn lemma_be64(x: u64) ensures be64(enc64(x)) == x
{
    let s = enc64(x);
    assert(s[0] == (x >> 56) as u8 && s[1] == ((x >> 48) & 0xff) as u8 && s[2] == ((x >> 40) & 0xff) as u8 && s[3] == ((x >> 32) & 0xff) as u8
        && s[4] == ((x >> 24) & 0xff) as u8 && s[5] == ((x >> 16) & 0xff) as u8 && s[6] == ((x >> 8) & 0xff) as u8 && s[7] == (x & 0xff) as u8);
    assert((((x >> 56) as u8 as u64) << 56) | ((((x >> 48) & 0xff) as u8 as u64) << 48) | ((((x >> 40) & 0xff) as u8 as u64) << 40)
        | ((((x >> 32) & 0xff) as u8 as u64) << 32) | ((((x >> 24) & 0xff) as u8 as u64) << 24) | ((((x >> 16) & 0xff) as u8 as u64) << 16)
        | ((((x >> 8) & 0xff) as u8 as u64) << 8) | ((x & 0xff) as u8 as u64) == x) by (bit_vector);
}
pub proof fn lemma_be16(x: u16) ensures be16(enc16(x)) == x
{
    assert((((x >> 8) as u8 as u16) << 8) | ((x & 0xff) as u8 as u16) == x) by (bit_vector);
}
/// masking twice with the same key is the identity
pub proof fn lemma_mask_twice(key: Seq<u8>, data: Seq<u8>)
    ensures masked(key, masked(key, data)) == data
{
    assert forall|i: int| 0 <= i < data.len() implies masked(key, masked(key, data))[i] == data[i] by {
        let (a, b) = (data[i], key[i % 4]);
        assert((a ^ b) ^ b == a) by (bit_vector);
    }
    assert(masked(key, masked(key, data)) =~= data);
}
pub proof fn theorem_header_roundtrip(h: DataFrameHeader, rest: Seq<u8>) //P03
    requires hdr_wf(h), hdr_writable(h), h.opcode >= 8 ==> h.flags.bits & 0x80 == 0x80
    ensures
        d_complete(hdr_bytes(h) + rest), //P03
        d_size(hdr_bytes(h) + rest) == hdr_size(h), //P03
        !d_bad(hdr_bytes(h) + rest), //P03
        hdr_is(h, hdr_bytes(h) + rest), //P03
{
    let s = hdr_bytes(h) + rest;
    lemma_hdr_bytes(h);
    let (f, o, c) = (h.flags.bits, h.opcode, len_code(h.len));
    assert(s[0] == f | o);
    assert((f | o) & 0xf0 == f && (f | o) & 0x0f == o && (f & 0x80 == 0x80 ==> (f | o) & 0x80 == 0x80)) by (bit_vector) requires f & 0x0f == 0, o <= 15;
    assert(s[1] == (if h.mask is Some { 0x80u8 } else { 0u8 }) | c);
    assert(c <= 127);
    assert((0x80u8 | c) & 0x7f == c && (0u8 | c) & 0x7f == c && (0x80u8 | c) & 0x80 == 0x80 && (0u8 | c) & 0x80 == 0) by (bit_vector) requires c <= 127;
    lemma_be16(h.len as u16);
    lemma_be64(h.len);
    assert(c == 126 ==> s.subrange(2, 4) =~= enc16(h.len as u16));
    assert(c == 127 ==> s.subrange(2, 10) =~= enc64(h.len));
    match h.mask { Some(k) => { assert(d_mask(s) =~= k@); }, None => {} }
}
/// the frame `write_to` produces is read back unchanged, with whatever follows it left in place
pub proof fn theorem_frame_roundtrip(fin: bool, rsv: Seq<bool>, op: u8, payload: Seq<u8>, key: Option<[u8; 4]>, rest: Seq<u8>) //P03
    requires rsv.len() == 3, frame_ok(op, payload.len()), op >= 8 ==> fin, payload.len() <= u64::MAX
    ensures
        ({ let w = frame_bytes(fin, rsv, op, payload, key); let s = w + rest;
           f_complete(s) && !d_bad(s) && f_total(s) == w.len() && s.skip(f_total(s)) == rest
           && d_masked(s) == (key is Some) && d_op(s) == op && f_payload(s) == payload
           && (s[0] & 0x80 == 0x80) == fin && (s[0] & 0x40 == 0x40) == rsv[0] && (s[0] & 0x20 == 0x20) == rsv[1] && (s[0] & 0x10 == 0x10) == rsv[2] }), //P03
{
    let h = DataFrameHeader { flags: DataFrameFlags { bits: frame_flags(fin, rsv) }, opcode: op, mask: key, len: payload.len() as u64 };
    let body = match key { Some(k) => masked(k@, payload), None => payload };
    let w = frame_bytes(fin, rsv, op, payload, key);
    let s = w + rest;
    lemma_flags(fin, rsv);
    lemma_hdr_bytes(h);
    assert(s =~= hdr_bytes(h) + (body + rest));
    theorem_header_roundtrip(h, body + rest);
    assert(s.subrange(d_size(s), f_total(s)) =~= body);
    match key { Some(k) => { lemma_mask_twice(k@, payload); assert(d_mask(s) =~= k@); }, None => {} }
    assert(s.skip(f_total(s)) =~= rest);
    lemma_header_bits();
    let b = s[0];
    assert(b & 0xf0 == frame_flags(fin, rsv));
    assert(b & 0x80 == (b & 0xf0) & 0x80 && b & 0x40 == (b & 0xf0) & 0x40 && b & 0x20 == (b & 0xf0) & 0x20 && b & 0x10 == (b & 0xf0) & 0x10) by (bit_vector);
}
