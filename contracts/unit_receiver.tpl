// ===================================================================== ws/receiver.rs
@@include spec_rx.rs
pub trait VxIterator { type Item; fn next(&mut self) -> Option<Self::Item>; }
pub open spec fn msg_rel<F: DataFrameTrait, M: MessageTrait>(a: WebSocketResult<Vec<F>>, r: WebSocketResult<M>) -> bool {
    match a {
        Err(e) => r == Err::<M, WebSocketError>(e),
        Ok(v) => (r is Ok <==> frames_ok(v@) && msg_ok(v@[0].v_op(), cat_frames(v@)))
            && (r matches Ok(m) ==> m.m_wf() && m.m_op() == v@[0].v_op() && m.m_pay() == cat_frames(v@)),
    }
}
/// one call of recv_message: some result of recv_message_dataframes, assembled into a message
pub open spec fn recv_rel<R: ReceiverTrait>(pre: &R, post: &R, s: Seq<u8>, t: Seq<u8>, reliable: bool, r: WebSocketResult<R::M>) -> bool {
    exists|a: WebSocketResult<Vec<R::F>>| #[trigger] R::ms_rel(pre, post, s, t, reliable, a) && msg_rel(a, r)
}
@file websocket-base/src/ws/receiver.rs
@path DataFrame => DataFrameTrait
@path Message => MessageTrait
@path Receiver => ReceiverTrait
@path Iterator => VxIterator
@struct DataFrameIterator
@struct MessageIterator
@trait Receiver
extra <<<
    /// how one call of recv_dataframe relates the states before and after, the stream before and after, and the result
    spec fn fr_rel(pre: &Self, post: &Self, s: Seq<u8>, t: Seq<u8>, reliable: bool, r: WebSocketResult<Self::F>) -> bool;
    /// the same for recv_message_dataframes
    spec fn ms_rel(pre: &Self, post: &Self, s: Seq<u8>, t: Seq<u8>, reliable: bool, r: WebSocketResult<Vec<Self::F>>) -> bool;
>>>
fn recv_dataframe
 props P12 P29
 params self reader
 spec <<<
    ensures
        Self::fr_rel(old(self), final(self), old(reader).rem(), final(reader).rem(), old(reader).reliable(), r), //P12 P08
        final(reader).reliable() == old(reader).reliable(),
>>>
@end
fn recv_message_dataframes
 props P12 P15
 params self reader
 spec <<<
    ensures
        Self::ms_rel(old(self), final(self), old(reader).rem(), final(reader).rem(), old(reader).reliable(), r), //P12 P15
        r matches Ok(v) ==> cat_frames(v@).len() <= isize::MAX && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).v_wf(), //P16
        final(reader).reliable() == old(reader).reliable(),
>>>
@end
fn incoming_dataframes
 props P29
 params self reader
 spec <<< ensures *r.inner == *old(self), *r.reader == *old(reader), *final(r.inner) == *final(self), *final(r.reader) == *final(reader), //P29
>>>
@end
fn recv_message
 props P12 P29
 params self reader
 spec <<<
    ensures
        exists|a: WebSocketResult<Vec<Self::F>>| #[trigger] Self::ms_rel(old(self), final(self), old(reader).rem(), final(reader).rem(), old(reader).reliable(), a) && msg_rel(a, r), //P12 P29
        final(reader).reliable() == old(reader).reliable(),
>>>
@end
fn incoming_messages
 props P29
 params self reader
 spec <<< ensures *r.inner == *old(self), *r.reader == *old(reader), *final(r.inner) == *final(self), *final(r.reader) == *final(reader), //P29
>>>
@end
@endtrait
@impl Iterator for DataFrameIterator
fn next
 props P29
 spec <<<
    ensures
        r matches Some(x) && Recv::fr_rel(&*old(self).inner, &*final(self).inner, (*old(self).reader).rem(), (*final(self).reader).rem(), (*old(self).reader).reliable(), x), //P29
        *final(final(self).inner) == *final(old(self).inner) && *final(final(self).reader) == *final(old(self).reader), //P29
>>>
@end
@endimpl
@impl Iterator for MessageIterator
fn next
 props P29
 spec <<<
    ensures
        r matches Some(x) && recv_rel::<Recv>(&*old(self).inner, &*final(self).inner, (*old(self).reader).rem(), (*final(self).reader).rem(), (*old(self).reader).reliable(), x), //P29
        *final(final(self).inner) == *final(old(self).inner) && *final(final(self).reader) == *final(old(self).reader), //P29
>>>
@end
@endimpl
// ===================================================================== src/receiver.rs
@file src/receiver.rs
@path ReceiverTrait => ReceiverTrait
@path ws::Receiver => ReceiverTrait
@const DEFAULT_MAX_DATAFRAME_SIZE
@const DEFAULT_MAX_MESSAGE_SIZE
@const MAX_DATAFRAMES_IN_ONE_MESSAGE
@const PER_DATAFRAME_OVERHEAD
@struct Receiver
pub open spec fn clamp32(n: usize) -> u32 { if n <= u32::MAX { n as u32 } else { u32::MAX } }
pub open spec fn rx_buf(r: Receiver) -> Seq<FrameV> { fvs(r.buffer@) }
pub open spec fn rx_of(r: Receiver, s: Seq<u8>) -> RxOut { rx_run(rx_buf(r), s, r.mask, r.max_dataframe_size as nat, r.max_message_size as nat) }
pub open spec fn rx_same(a: Receiver, b: Receiver) -> bool { a.mask == b.mask && a.max_dataframe_size == b.max_dataframe_size && a.max_message_size == b.max_message_size }
@fn Receiver::new
 props P28
 params mask
 spec <<<
    ensures r.mask == mask && r.buffer@.len() == 0, //P28 P12
        r.max_dataframe_size == 100 * 1024 * 1024 && r.max_message_size == 200 * 1024 * 1024, //P28
>>>
@end
@fn Receiver::new_with_limits
 props P28
 params mask max_dataframe_size max_message_size
 spec <<<
    ensures r.mask == mask && r.buffer@.len() == 0, //P28 P12
        r.max_dataframe_size == clamp32(max_dataframe_size) && r.max_message_size == clamp32(max_message_size), //P28
>>>
@end
@impl ws::Receiver for Receiver
extra <<<
    open spec fn fr_rel(pre: &Self, post: &Self, s: Seq<u8>, t: Seq<u8>, reliable: bool, r: WebSocketResult<DataFrame>) -> bool {
        &&& *post == *pre
        &&& match rx_read(s, pre.mask, pre.max_dataframe_size as nat) {
            RxRead::Frame(f, t2) => (r matches Ok(x) ==> fv(x) == f && t == t2) && (reliable ==> r is Ok),
            RxRead::Bad(e) => r is Err && (reliable && !d_bad(s) ==> (r->Err_0 is NoDataAvailable <==> e is NoData))
                && (reliable && d_complete(s) && d_bad(s) ==> !(r->Err_0 is NoDataAvailable))
                && (e is TooLong && reliable ==> t == s.skip(d_size(s))),
        }
    }
    open spec fn ms_rel(pre: &Self, post: &Self, s: Seq<u8>, t: Seq<u8>, reliable: bool, r: WebSocketResult<Vec<DataFrame>>) -> bool {
        &&& rx_same(*pre, *post)
        &&& match rx_of(*pre, s) {
            RxOut::Msg(b, t2) => (r matches Ok(v) ==> fvs(v@) == b && rx_buf(*post) == Seq::<FrameV>::empty() && t == t2) && (reliable ==> r is Ok),
            RxOut::Ctrl(f, b, t2) => (r matches Ok(v) ==> fvs(v@) == seq![f] && rx_buf(*post) == b && t == t2) && (reliable ==> r is Ok),
            RxOut::Bad(e, b) => r is Err && (reliable ==> rx_buf(*post) == b),
        }
    }
>>>
fn recv_dataframe
 props P12 P08 P29
 start <<< proof { lemma_frame_is(reader.rem()); } >>>
@end
fn recv_message_dataframes
 props P12 P15 P16 P08
 params self reader
 start <<<
    let ghost vx_s = reader.rem();
    let ghost vx_rel = reader.reliable();
    proof { lemma_rx_facts(self.mask, self.max_dataframe_size as nat); }
>>>
 loop 0 <<<
    invariant
        rx_same(*old(self), *self),
        reader.reliable() == vx_rel,
        vx_s == old(reader).rem(),
        vx_rel == old(reader).reliable(),
        current_message_length <= total_pay(rx_buf(*self)) + 64 * self.buffer@.len(),
        !finished ==> rx_buf(*self).len() > 0
            && rx_of(*old(self), vx_s) == rx_cont(rx_buf(*self), current_message_length as nat, reader.rem(), self.mask, self.max_dataframe_size as nat, self.max_message_size as nat),
        finished ==> rx_of(*old(self), vx_s) == RxOut::Msg(rx_buf(*self), reader.rem()),
    decreases reader.rem().len(),
>>>
 loopstart 0 <<< proof { lemma_rx_facts(self.mask, self.max_dataframe_size as nat); } >>>
@end
@endimpl
