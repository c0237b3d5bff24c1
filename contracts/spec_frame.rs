// =====================================================================================================
// Specification functions: RFC 6455 section 5.2 (headers and frames), masking.  Written from the RFC.
// =====================================================================================================
/// the data frame header as a value
pub open spec fn hdr_wf(h: DataFrameHeader) -> bool { h.flags.bits & 0x0fu8 == 0 }
pub open spec fn mask_len(m: Option<[u8; 4]>) -> nat { if m is Some { 4 } else { 0 } }
pub open spec fn ext_len(len: u64) -> nat { if len <= 125 { 0 } else if len <= 65535 { 2 } else { 8 } }
pub open spec fn len_code(len: u64) -> u8 { if len <= 125 { len as u8 } else if len <= 65535 { 126 } else { 127 } }
pub open spec fn ext_bytes(len: u64) -> Seq<u8> {
    if len <= 125 { Seq::empty() } else if len <= 65535 { enc16(len as u16) } else { enc64(len) }
}
pub open spec fn mask_bytes(m: Option<[u8; 4]>) -> Seq<u8> { match m { Some(k) => k@, None => Seq::empty() } }
pub open spec fn hdr_bytes(h: DataFrameHeader) -> Seq<u8> {
    seq![h.flags.bits | h.opcode, (if h.mask is Some { 0x80u8 } else { 0u8 }) | len_code(h.len)]
        + ext_bytes(h.len) + mask_bytes(h.mask)
}
pub open spec fn hdr_size(h: DataFrameHeader) -> nat { 2 + ext_len(h.len) + mask_len(h.mask) }
pub open spec fn hdr_writable(h: DataFrameHeader) -> bool { h.opcode <= 15 && (h.opcode >= 8 ==> h.len <= 125) }

pub open spec fn frame_ok(op: u8, n: nat) -> bool { op <= 15 && (op >= 8 ==> n <= 125) }
/// the number of bytes of a frame with n payload bytes
pub open spec fn frame_len(n: nat, masked: bool) -> nat {
    2 + (if n <= 125 { 0nat } else if n <= 65535 { 2 } else { 8 }) + (if masked { 4nat } else { 0 }) + n
}

// ---- decoding: s is the byte stream
pub open spec fn d_code(s: Seq<u8>) -> u8 { s[1] & 0x7fu8 }
pub open spec fn d_ext(s: Seq<u8>) -> int { if d_code(s) == 126 { 2 } else if d_code(s) == 127 { 8 } else { 0 } }
pub open spec fn d_masked(s: Seq<u8>) -> bool { s[1] & 0x80u8 == 0x80u8 }
pub open spec fn d_size(s: Seq<u8>) -> int { 2 + d_ext(s) + (if d_masked(s) { 4int } else { 0 }) }
pub open spec fn d_op(s: Seq<u8>) -> u8 { s[0] & 0x0fu8 }
pub open spec fn d_flags(s: Seq<u8>) -> u8 { s[0] & 0xf0u8 }
pub open spec fn d_len(s: Seq<u8>) -> u64 {
    if d_code(s) == 126 { be16(s.subrange(2, 4)) as u64 } else if d_code(s) == 127 { be64(s.subrange(2, 10)) } else { d_code(s) as u64 }
}
/// all header bytes are there
pub open spec fn d_complete(s: Seq<u8>) -> bool { s.len() >= 2 && s.len() >= d_size(s) }
/// the header violates the protocol (judged on the bytes that are there)
pub open spec fn d_bad(s: Seq<u8>) -> bool {
    s.len() >= 2 && (
        (d_op(s) >= 8 && (d_code(s) > 125 || s[0] & 0x80u8 == 0))
     || (s.len() >= 2 + d_ext(s) && d_code(s) == 126 && d_len(s) <= 125)
     || (s.len() >= 2 + d_ext(s) && d_code(s) == 127 && d_len(s) <= 65535))
}
pub open spec fn d_mask(s: Seq<u8>) -> Seq<u8> { s.subrange(2 + d_ext(s), 6 + d_ext(s)) }
/// h is what RFC 6455 says the first bytes of s mean
pub open spec fn hdr_is(h: DataFrameHeader, s: Seq<u8>) -> bool {
    &&& h.flags.bits == d_flags(s)
    &&& h.opcode == d_op(s)
    &&& h.len == d_len(s)
    &&& (h.mask is Some <==> d_masked(s))
    &&& (h.mask matches Some(k) ==> k@ =~= d_mask(s))
}

// ---- masking (RFC 6455 5.3)
pub open spec fn masked_from(key: Seq<u8>, at: int, data: Seq<u8>) -> Seq<u8> {
    Seq::new(data.len(), |i: int| data[i] ^ key[(at + i) % 4])
}
pub open spec fn masked(key: Seq<u8>, data: Seq<u8>) -> Seq<u8> { masked_from(key, 0, data) }

// ---- whole frames
pub open spec fn b2f(b: bool, bit: u8) -> u8 { if b { bit } else { 0 } }
pub open spec fn frame_flags(fin: bool, rsv: Seq<bool>) -> u8 {
    b2f(fin, 0x80) | b2f(rsv[0], 0x40) | b2f(rsv[1], 0x20) | b2f(rsv[2], 0x10)
}
pub open spec fn frame_bytes(fin: bool, rsv: Seq<bool>, op: u8, payload: Seq<u8>, key: Option<[u8; 4]>) -> Seq<u8> {
    hdr_bytes(DataFrameHeader { flags: DataFrameFlags { bits: frame_flags(fin, rsv) }, opcode: op, mask: key, len: payload.len() as u64 })
        + (match key { Some(k) => masked(k@, payload), None => payload })
}
/// f is the frame at the beginning of s
pub open spec fn f_total(s: Seq<u8>) -> int { d_size(s) + d_len(s) }
pub open spec fn f_complete(s: Seq<u8>) -> bool { d_complete(s) && s.len() >= f_total(s) }
pub open spec fn f_payload(s: Seq<u8>) -> Seq<u8> {
    let raw = s.subrange(d_size(s), f_total(s));
    if d_masked(s) { masked(d_mask(s), raw) } else { raw }
}
pub open spec fn frame_is(f: DataFrame, s: Seq<u8>) -> bool {
    &&& f.finished == (s[0] & 0x80u8 == 0x80u8)
    &&& f.reserved@[0] == (s[0] & 0x40u8 == 0x40u8)
    &&& f.reserved@[1] == (s[0] & 0x20u8 == 0x20u8)
    &&& f.reserved@[2] == (s[0] & 0x10u8 == 0x10u8)
    &&& f.opcode as u8 == d_op(s)
    &&& f.data@ == f_payload(s)
}
