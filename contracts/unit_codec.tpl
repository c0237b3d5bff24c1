// ===================================================================== codec/ws.rs
@@include spec_codec.rs
pub trait Decoder {
    type Item;
    type Error;
    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error>;
}
pub trait Encoder {
    type Item;
    type Error;
    spec fn e_wf(item: &Self::Item) -> bool;
    fn encode(&mut self, item: Self::Item, dst: &mut BytesMut) -> Result<(), Self::Error> requires Self::e_wf(&item);
}
@file websocket-base/src/codec/ws.rs
@path DataFrameTrait => DataFrameTrait
@path MessageTrait => MessageTrait
@type PhantomData<fn(M)> => VxPhantom<M>
@path PhantomData => VxPhantom
@expr PhantomData => vx_phantom()
@path mem::replace => core::mem::replace
pub mod codec_consts {
@const DEFAULT_MAX_DATAFRAME_SIZE
@const DEFAULT_MAX_MESSAGE_SIZE
@const MAX_DATAFRAMES_IN_ONE_MESSAGE
@const PER_DATAFRAME_OVERHEAD
}
@path DEFAULT_MAX_DATAFRAME_SIZE => codec_consts::DEFAULT_MAX_DATAFRAME_SIZE
@path DEFAULT_MAX_MESSAGE_SIZE => codec_consts::DEFAULT_MAX_MESSAGE_SIZE
@path MAX_DATAFRAMES_IN_ONE_MESSAGE => codec_consts::MAX_DATAFRAMES_IN_ONE_MESSAGE
@path PER_DATAFRAME_OVERHEAD => codec_consts::PER_DATAFRAME_OVERHEAD
@enum Context #[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[verifier::reject_recursive_types(D)]
@struct DataFrameCodec
#[verifier::reject_recursive_types(M)]
@struct MessageCodec
@fn DataFrameCodec::new
 props P28
 params context
 spec <<<
    ensures r.is_server == (context == Context::Server), r.max_dataframe_size == 100 * 1024 * 1024, //P28 P06
>>>
@end
@fn DataFrameCodec::new_with_limits
 props P28
 params context max_dataframe_size
 spec <<<
    ensures r.is_server == (context == Context::Server), r.max_dataframe_size == clamp32(max_dataframe_size), //P28 P06
>>>
@end
@fn DataFrameCodec::default
 props P28
 params context
 spec <<<
    ensures r.is_server == (context == Context::Server), r.max_dataframe_size == 100 * 1024 * 1024, //P28 P06
>>>
@end
@impl Decoder for DataFrameCodec
fn decode
 props P07 P08 P14 P16
 params self src
 spec <<<
    ensures
        *final(self) == *old(self),
        rx_read(old(src)@, old(self).is_server, old(self).max_dataframe_size as nat) matches RxRead::Frame(f, t)
            ==> ((r matches Ok(Some(x)) && fv(x) == f) && final(src)@ == t), //P14 P07
        rx_read(old(src)@, old(self).is_server, old(self).max_dataframe_size as nat) matches RxRead::Bad(e)
            ==> (if e is NoData && !d_bad(old(src)@) { r is Ok && r->Ok_0 is None && final(src)@ == old(src)@ } //P14
                 else if e is NoData { (r is Err || (r is Ok && r->Ok_0 is None)) && final(src)@ == old(src)@ } //P14
                 else { r is Err && (e is TooLong || e is Header ==> final(src)@ == old(src)@) && (e is Header ==> !(r->Err_0 is NoDataAvailable)) }), //P08 P06 P14
>>>
 start <<< proof { lemma_frame_is(src@); lemma_frame_bits(); axiom_bytes_len(*src); } >>>
@end
@endimpl
@impl Encoder for DataFrameCodec
header <<<
impl<D: VxBorrowFrame> Encoder for DataFrameCodec<D> {
>>>
extra <<<
    open spec fn e_wf(item: &D) -> bool { item.fr().v_wf() }
>>>
fn encode
 props P05 P06 P02
 params self item dst
 spec <<<
    ensures
        *final(self) == *old(self),
        frame_ok(item.fr().v_op(), item.fr().v_pay().len()) ==> r is Ok, //P05 P02
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> !old(self).is_server)
            && final(dst)@ == old(dst)@ + #[trigger] frame_bytes(item.fr().v_last(), item.fr().v_rsv(), item.fr().v_op(), item.fr().v_pay(), k), //P06 P02 P05
        !frame_ok(item.fr().v_op(), item.fr().v_pay().len()) ==> r is Err && final(dst)@ == old(dst)@, //P02
>>>
@end
@endimpl
@fn MessageCodec::new
 props P28
 params context
 spec <<<
    ensures r.dataframe_codec.is_server == (context == Context::Server), r.buffer@.len() == 0, //P28 P06 P13
        r.dataframe_codec.max_dataframe_size == 100 * 1024 * 1024 && r.max_message_size == 200 * 1024 * 1024, //P28
>>>
@end
@fn MessageCodec::new_with_limits
 props P28
 params context max_dataframe_size max_message_size
 spec <<<
    ensures r.dataframe_codec.is_server == (context == Context::Server), r.buffer@.len() == 0, //P28 P06 P13
        r.dataframe_codec.max_dataframe_size == clamp32(max_dataframe_size) && r.max_message_size == clamp32(max_message_size), //P28
>>>
@end
@fn MessageCodec::default
 props P28
 params context
 spec <<<
    ensures r.dataframe_codec.is_server == (context == Context::Server), r.buffer@.len() == 0, //P28 P06 P13
        r.dataframe_codec.max_dataframe_size == 100 * 1024 * 1024 && r.max_message_size == 200 * 1024 * 1024, //P28
>>>
@end
pub open spec fn cx_of<M: MessageTrait>(c: MessageCodec<M>, s: Seq<u8>) -> CxOut {
    cx_run(fvs(c.buffer@), s, c.dataframe_codec.is_server, c.dataframe_codec.max_dataframe_size as nat, c.max_message_size as nat)
}
@impl Decoder for MessageCodec
fn decode
 props P13 P14 P15 P16
 params self src
 spec <<<
    ensures
        final(self).max_message_size == old(self).max_message_size && final(self).dataframe_codec == old(self).dataframe_codec,
        match cx_of(*old(self), old(src)@) {
            CxOut::Wait(b, t) => (r is Ok && r->Ok_0 is None && fvs(final(self).buffer@) == b && final(src)@ == t) || (d_bad(t) && r is Err), //P14 P13
            CxOut::Msg(b, t) => fvs(final(self).buffer@) == Seq::<FrameV>::empty() && final(src)@ == t && (r is Ok <==> fvs_ok(b))
                && (r is Ok ==> r->Ok_0 is Some && r->Ok_0->0.m_wf() && r->Ok_0->0.m_op() == b[0].op && r->Ok_0->0.m_pay() == cat_v(b)), //P13 P09 P14
            CxOut::Ctrl(f, b, t) => fvs(final(self).buffer@) == b && final(src)@ == t && (r is Ok <==> fvs_ok(seq![f]))
                && (r is Ok ==> r->Ok_0 is Some && r->Ok_0->0.m_wf() && r->Ok_0->0.m_op() == f.op && r->Ok_0->0.m_pay() == f.pay), //P13 P14
            CxOut::Bad(e, b) => r is Err && fvs(final(self).buffer@) == b, //P13 P15 P08
        },
>>>
 start <<<
    let ghost vx_req = self.dataframe_codec.is_server;
    let ghost vx_mf = self.dataframe_codec.max_dataframe_size as nat;
    let ghost vx_mm = self.max_message_size as nat;
    proof { lemma_rx_facts(vx_req, vx_mf); lemma_codec_facts(); axiom_frames_in_memory(self.buffer); assert(cx_weight(fvs(self.buffer@)) <= usize::MAX); }
>>>
 loop 0 <<<
    invariant
        self.max_message_size == old(self).max_message_size && self.dataframe_codec == old(self).dataframe_codec,
        vx_req == self.dataframe_codec.is_server, vx_mf == self.dataframe_codec.max_dataframe_size as nat, vx_mm == self.max_message_size as nat,
        current_message_length == cx_weight(fvs(self.buffer@)),
        cx_of(*old(self), old(src)@) == cx_of(*self, src@),
    ensures cx_of(*old(self), old(src)@) == CxOut::Wait(fvs(self.buffer@), src@),
    decreases src@.len(),
>>>
 loopstart 0 <<< proof { lemma_rx_facts(vx_req, vx_mf); lemma_codec_facts(); } >>>
@end
@endimpl
@impl Encoder for MessageCodec
extra <<<
    open spec fn e_wf(item: &M) -> bool { true }
>>>
fn encode
 props P05 P06 P18
 params self item dst
 spec <<<
    ensures
        *final(self) == *old(self),
        frame_ok(item.m_op(), item.m_pay().len()) ==> r is Ok, //P05 P18
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> !old(self).dataframe_codec.is_server)
            && final(dst)@ == old(dst)@ + #[trigger] frame_bytes(true, no_rsv(), item.m_op(), item.m_pay(), k), //P06 P18 P05
        !frame_ok(item.m_op(), item.m_pay().len()) ==> r is Err && final(dst)@ == old(dst)@, //P18
>>>
@end
@endimpl
