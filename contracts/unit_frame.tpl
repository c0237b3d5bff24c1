@@include unit_errors.tpl
// ===================================================================== header
@file websocket-base/src/ws/util/header.rs
@bitflags DataFrameFlags
impl DataFrameFlags {
    // bitflags 1.x generated methods (assumed)
    pub fn from_bits_truncate(b: u8) -> (r: Self) ensures r.bits == b & Self::vx_all(), r.bits == b & 0xf0u8 {
        proof { assert(Self::vx_all() == 0xf0u8) by (compute); }
        DataFrameFlags { bits: b & 0xf0 }
    }
    pub fn contains(&self, o: Self) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { self.bits & o.bits == o.bits }
    pub fn insert(&mut self, o: Self) ensures final(self).bits == old(self).bits | o.bits { self.bits = self.bits | o.bits; }
    pub fn empty() -> (r: Self) ensures r.bits == 0 { DataFrameFlags { bits: 0 } }
    pub fn bits(&self) -> (r: u8) ensures r == self.bits { self.bits }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }
}
@struct DataFrameHeader #[derive(Clone, Copy)]
@@include spec_frame.rs
@@include lemmas_frame.rs

@fn write_header
 props P02
 params writer header
 spec <<<
    requires
        hdr_wf(header),
        old(writer).w_wf(),
    ensures
        final(writer).w_wf(),
        r is Ok ==> hdr_writable(header), //P02
        r is Ok ==> VxDyn0::wrote(old(writer), final(writer), hdr_bytes(header)), //P02
        !hdr_writable(header) ==> r is Err && *final(writer) == *old(writer), //P02
        forall|m: nat| hdr_writable(header) && m >= hdr_size(header) && #[trigger] old(writer).can_take(m)
            ==> r is Ok && final(writer).can_take((m - hdr_size(header)) as nat), //P02
        hdr_writable(header) && old(writer).w_total() ==> r is Ok && final(writer).w_total(), //P02
>>>
 start <<<
    proof { lemma_hdr_bytes(header); }
    broadcast use lemma_wrote_trans;
>>>
@end

@fn read_header
 props P01
 params reader
 spec <<<
    ensures
        r matches Ok(h) ==> d_complete(old(reader).rem()) && !d_bad(old(reader).rem()), //P01
        r matches Ok(h) ==> hdr_is(h, old(reader).rem()) && hdr_wf(h), //P01
        r matches Ok(h) ==> final(reader).rem() == old(reader).rem().skip(d_size(old(reader).rem())), //P01
        old(reader).reliable() && d_complete(old(reader).rem()) && !d_bad(old(reader).rem()) ==> r is Ok, //P01
        old(reader).reliable() && d_complete(old(reader).rem()) && d_bad(old(reader).rem())
            ==> r is Err && !(r->Err_0 is NoDataAvailable), //P01
        old(reader).reliable() && !d_complete(old(reader).rem()) && !d_bad(old(reader).rem())
            ==> r == Err::<DataFrameHeader, WebSocketError>(WebSocketError::NoDataAvailable), //P01
        final(reader).origin() == old(reader).origin(), //P01
        final(reader).reliable() == old(reader).reliable(),
>>>
 start <<< proof { lemma_header_bits(); } >>>
@end

// ===================================================================== mask
@file websocket-base/src/ws/util/mask.rs
@path Vec::with_capacity => vx_with_capacity
@dynparam Masker
@struct Masker
impl<'w, VxW: Write> Masker<'w, VxW> {
    pub open spec fn at(&self) -> VxW { *self.end }
}
@fn Masker::new
 props P04
 params key endpoint
 dynself
 spec <<<
    requires old(endpoint).w_wf()
    ensures
        r.w_wf(), r.key == key, r.pos == 0, *r.end == *old(endpoint), *final(r.end) == *final(endpoint),
>>>
@end
@impl Write for Masker
extra <<<
    /// what reaches the endpoint is the data XORed with the key, starting at the current key position
    #[verifier::prophetic]
    open spec fn wrote(pre: &Self, post: &Self, data: Seq<u8>) -> bool {
        &&& post.key == pre.key
        &&& post.pos == (pre.pos + data.len()) % 4
        &&& VxW::wrote(&*pre.end, &*post.end, masked_from(pre.key@, pre.pos as int, data))
        &&& *final(post.end) == *final(pre.end)
    }
    open spec fn can_take(&self, n: nat) -> bool { (*self.end).can_take(n) }
    open spec fn w_total(&self) -> bool { (*self.end).w_total() }
    open spec fn w_wf(&self) -> bool { self.pos < 4 && (*self.end).w_wf() }
    proof fn wrote_nil(a: &Self) {
        VxW::wrote_nil(&*a.end);
        assert(masked_from(a.key@, a.pos as int, Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    }
    proof fn wrote_trans(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>) {
        let mx = masked_from(a.key@, a.pos as int, x);
        let my = masked_from(b.key@, b.pos as int, y);
        VxW::wrote_trans(&*a.end, &*b.end, &*c.end, mx, my);
        lemma_masked_split(a.key@, a.pos as int, x, y);
    }
>>>
fn write
 props P04
 loop 0 <<<
    invariant
        buf@.len() + vx_it0@.len() == data@.len(),
        vx_it0@ == vx_s0.skip(buf@.len() as int),
        vx_s0.len() == data@.len(),
        forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] vx_s0[i]) == data@[i],
        pos == (self.pos + buf@.len()) % 4,
        self.pos < 4,
        self.w_wf(),
        *self == *old(self),
        forall|i: int| 0 <= i < buf@.len() ==> #[trigger] buf@[i] == data@[i] ^ self.key@[(self.pos + i) % 4],
    ensures buf@ =~= masked_from(self.key@, self.pos as int, data@),
    decreases vx_it0@.len(),
>>>
 start <<< proof { axiom_slice_len(data); lemma_masked_prefix(self.key@, self.pos as int, data@); } >>>
@end
fn flush
 props P04
 start <<< proof { lemma_masked_prefix(self.key@, self.pos as int, Seq::<u8>::empty()); } >>>
@end
@endimpl
@fn gen_mask
 props P04
 external
@end
@fn mask_data
 props P04
 params mask data
 spec <<<
    ensures r@ == masked(mask@, data@), //P04
>>>
 start <<< proof { axiom_slice_len(data); } >>>
 loop 0 <<<
    invariant
        out@.len() + vx_it0@.len() == data@.len(),
        vx_it0@ == vx_s0.skip(out@.len() as int),
        vx_s0.len() == data@.len(),
        forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] vx_s0[i]).0 == data@[i] && *vx_s0[i].1 == mask@[i % 4],
        forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == data@[i] ^ mask@[i % 4],
    ensures out@ =~= masked(mask@, data@),
    decreases vx_it0@.len(),
>>>
@end
// ===================================================================== dataframe
@file websocket-base/src/dataframe.rs
@struct DataFrame
@enum Opcode #[derive(Clone, Copy, PartialEq, Structural)]
@const MAX_PREALLOCATION
@fn Opcode::new
 props P01 P07 P09
 params op
 spec <<<
    ensures
        op <= 15 ==> (r matches Some(o) && o as u8 == op), //P01
        op > 15 ==> r is None, //P01
>>>
@end

// --------------------------------------------------------------------- the DataFrame trait
@file websocket-base/src/ws/dataframe.rs
@path DataFrame => DataFrameTrait
@path dfh => 
@path mask => 
@trait DataFrame
extra <<<
    /// what the frame says: final flag, opcode, reserved bits, payload
    spec fn v_last(&self) -> bool;
    spec fn v_op(&self) -> u8;
    spec fn v_rsv(&self) -> Seq<bool>;
    spec fn v_pay(&self) -> Seq<u8>;
    /// representation invariant
    spec fn v_wf(&self) -> bool;
>>>
fn is_last
 props P02 P18
 spec <<< ensures r == self.v_last(), //P02 P18 >>>
@end
fn opcode
 props P02 P18
 spec <<< ensures r == self.v_op(), //P02 P18 >>>
@end
fn reserved
 props P02 P18
 spec <<< ensures r@ == self.v_rsv(), r@.len() == 3, //P02 P18 >>>
@end
fn size
 props P02 P05 P18
 spec <<< ensures r == self.v_pay().len(), r <= isize::MAX as int + 2, //P05 >>>
@end
fn write_payload
 props P02 P04 P18
 params self socket
 spec <<<
    requires old(socket).w_wf(), self.v_wf()
    ensures
        final(socket).w_wf(),
        r is Ok ==> VxDyn0::wrote(old(socket), final(socket), self.v_pay()), //P02 P18
        forall|m: nat| m >= self.v_pay().len() && #[trigger] old(socket).can_take(m)
            ==> r is Ok && final(socket).can_take((m - self.v_pay().len()) as nat),
        old(socket).w_total() ==> r is Ok && final(socket).w_total(),
>>>
@end
fn take_payload
 props P09 P17
 spec <<< requires self.v_wf() ensures r@ == self.v_pay(), //P09 P17 >>>
@end
fn frame_size
 props P05
 params self masked
 spec <<<
    ensures
        r == frame_len(self.v_pay().len(), masked), //P05
>>>
@end
fn write_to
 props P02 P04 P05 P06 P18
 params self writer mask
 spec <<<
    requires old(writer).w_wf(), self.v_wf()
    ensures
        final(writer).w_wf(),
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> mask)
            && #[trigger] VxDyn0::wrote(old(writer), final(writer), frame_bytes(self.v_last(), self.v_rsv(), self.v_op(), self.v_pay(), k)), //P02 P06 P18
        r is Ok ==> frame_ok(self.v_op(), self.v_pay().len()), //P02
        !frame_ok(self.v_op(), self.v_pay().len()) ==> r is Err && *final(writer) == *old(writer), //P02
        forall|m: nat| frame_ok(self.v_op(), self.v_pay().len()) && m >= frame_len(self.v_pay().len(), mask) && #[trigger] old(writer).can_take(m)
            ==> r is Ok && final(writer).can_take((m - frame_len(self.v_pay().len(), mask)) as nat), //P05
        frame_ok(self.v_op(), self.v_pay().len()) && old(writer).w_total() ==> r is Ok && final(writer).w_total(), //P02
>>>
 start <<< proof { lemma_flags(self.v_last(), self.v_rsv()); lemma_frame_parts(self.v_last(), self.v_rsv(), self.v_op(), self.v_pay()); } >>>
@end
@endtrait

// --------------------------------------------------------------------- DataFrame
@file websocket-base/src/dataframe.rs
@path DataFrameable => DataFrameTrait
@path dfh => 
@path mask => 
@path io::Error => IoError
@path io::ErrorKind => ErrorKind
@path Vec::with_capacity => vx_with_capacity
@fn DataFrame::new
 props P17 P18
 params finished opcode data
 spec <<<
    ensures r.finished == finished, r.opcode == opcode, r.data@ == data@, r.reserved@ =~= seq![false, false, false], //P18
>>>
@end
@fn DataFrame::read_dataframe_body
 props P04 P06 P07
 params header body should_be_masked
 spec <<<
    requires header.opcode <= 15
    ensures
        r is Ok <==> (header.mask is Some) == should_be_masked, //P06
        r matches Ok(f) ==> f.finished == (header.flags.bits & 0x80 == 0x80)
            && f.reserved@ =~= seq![header.flags.bits & 0x40 == 0x40, header.flags.bits & 0x20 == 0x20, header.flags.bits & 0x10 == 0x10]
            && f.opcode as u8 == header.opcode
            && f.data@ == (match header.mask { Some(k) => masked(k@, body@), None => body@ }), //P07 P04
        r matches Err(e) ==> e is DataFrameError, //P06
>>>
@end
@fn DataFrame::read_dataframe
 props P03 P06 P07 P16
 params reader should_be_masked
 spec <<<
    ensures
        r matches Ok(f) ==> f_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && frame_is(f, old(reader).rem()), //P07 P03
        r matches Ok(f) ==> d_masked(old(reader).rem()) == should_be_masked, //P06
        r matches Ok(f) ==> final(reader).rem() == old(reader).rem().skip(f_total(old(reader).rem())), //P07
        old(reader).reliable() && f_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && d_masked(old(reader).rem()) == should_be_masked ==> r is Ok, //P07 P03
        old(reader).reliable() && f_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && d_masked(old(reader).rem()) != should_be_masked
            ==> (r matches Err(e) && e is DataFrameError), //P06
        old(reader).reliable() && d_bad(old(reader).rem()) && d_complete(old(reader).rem()) ==> r is Err && !(r->Err_0 is NoDataAvailable), //P07
        old(reader).reliable() && !d_bad(old(reader).rem()) && !f_complete(old(reader).rem())
            ==> r == Err::<DataFrame, WebSocketError>(WebSocketError::NoDataAvailable), //P07
        final(reader).origin() == old(reader).origin(),
        final(reader).reliable() == old(reader).reliable(),
>>>
 start <<< proof { lemma_frame_bits(); } >>>
@end
@fn DataFrame::read_dataframe_with_limit
 props P03 P06 P07 P08 P16
 params reader should_be_masked limit
 spec <<<
    ensures
        r matches Ok(f) ==> f_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && frame_is(f, old(reader).rem()), //P07 P03
        r matches Ok(f) ==> d_len(old(reader).rem()) <= limit, //P08
        r matches Ok(f) ==> d_masked(old(reader).rem()) == should_be_masked, //P06
        r matches Ok(f) ==> final(reader).rem() == old(reader).rem().skip(f_total(old(reader).rem())), //P07
        old(reader).reliable() && f_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && d_masked(old(reader).rem()) == should_be_masked
            && d_len(old(reader).rem()) <= limit ==> r is Ok, //P07 P08 P03
        old(reader).reliable() && d_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && d_len(old(reader).rem()) > limit
            ==> (r matches Err(e) && (e matches WebSocketError::IoError(x) && x.k == ErrorKind::InvalidData)), //P08
        old(reader).reliable() && d_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && d_len(old(reader).rem()) > limit
            ==> final(reader).rem() == old(reader).rem().skip(d_size(old(reader).rem())), //P08
        old(reader).reliable() && f_complete(old(reader).rem()) && !d_bad(old(reader).rem()) && d_masked(old(reader).rem()) != should_be_masked
            && d_len(old(reader).rem()) <= limit ==> (r matches Err(e) && e is DataFrameError), //P06
        old(reader).reliable() && d_bad(old(reader).rem()) && d_complete(old(reader).rem()) ==> r is Err && !(r->Err_0 is NoDataAvailable), //P07
        old(reader).reliable() && !d_bad(old(reader).rem()) && !f_complete(old(reader).rem()) && !(d_complete(old(reader).rem()) && d_len(old(reader).rem()) > limit)
            ==> r == Err::<DataFrame, WebSocketError>(WebSocketError::NoDataAvailable), //P07
        final(reader).origin() == old(reader).origin(),
        final(reader).reliable() == old(reader).reliable(),
>>>
 start <<< proof { lemma_frame_bits(); } >>>
@end
@impl DataFrameable for DataFrame
extra <<<
    open spec fn v_last(&self) -> bool { self.finished }
    open spec fn v_op(&self) -> u8 { self.opcode as u8 }
    open spec fn v_rsv(&self) -> Seq<bool> { self.reserved@ }
    open spec fn v_pay(&self) -> Seq<u8> { self.data@ }
    open spec fn v_wf(&self) -> bool { true }
>>>
fn is_last
 props P02
@end
fn opcode
 props P02
@end
fn reserved
 props P02
@end
fn size
 props P05
 start <<< proof { axiom_vec_len(self.data); } >>>
@end
fn write_payload
 props P02
@end
fn take_payload
 props P09
@end
@endimpl
