// ===================================================================== src/client/sync.rs
pub mod stream_sync {
use super::*;
@trust on
@file websocket-base/src/stream.rs
@mod sync
@trait Splittable
extra <<<
    spec fn halves(self, r: Self::Reader, w: Self::Writer) -> bool;
    spec fn splits(self) -> bool;
>>>
fn split
 spec <<< ensures r matches Ok(h) ==> self.halves(h.0, h.1), self.splits() ==> r is Ok,
>>>
@end
@endtrait
@trust off
}
pub use stream_sync::Splittable;
@file src/client/sync.rs
@path ws::Message => MessageTrait
@path DataFrameable => DataFrameTrait
/// P35: the list a header names, empty when it is absent or unreadable
pub open spec fn listed<H: Header + HeaderFormat, T>(h: HMap, f: spec_fn(H) -> Seq<T>) -> Seq<T> { match hval::<H>(h) { Some(v) => f(v), None => Seq::empty() } }
#[verifier::reject_recursive_types(S)]
@struct Client
/// P28: the limits a receiver enforces
pub open spec fn has_limits(x: Receiver, frame: usize, msg: usize) -> bool { x.max_dataframe_size == clamp32(frame) && x.max_message_size == clamp32(msg) }
/// P06: the role of a connection: what is sent is masked, what is received has to be
pub open spec fn has_role<S: Stream>(c: Client<S>, out_mask: bool, in_mask: bool) -> bool { c.sender.mask == out_mask && c.receiver.mask == in_mask }
@fn Client::unchecked
 props P06 P24 P28
 params stream headers out_mask in_mask
 spec <<<
    ensures
        r.stream == stream, r.headers == headers, //P24 P22
        has_role(r, out_mask, in_mask), r.receiver.buffer@.len() == 0, //P06 P12
        has_limits(r.receiver, 104857600, 209715200), //P28
>>>
@end
@fn Client::unchecked_with_limits
 props P06 P24 P28
 params stream headers out_mask in_mask max_dataframe_size max_message_size
 spec <<<
    ensures
        r.stream == stream, r.headers == headers, //P24 P22
        has_role(r, out_mask, in_mask), r.receiver.buffer@.len() == 0, //P06 P12
        has_limits(r.receiver, max_dataframe_size, max_message_size), //P28
>>>
@end
@fn Client::protocols
 props P35
 spec <<< ensures r@ == listed::<WebSocketProtocol, String>(self.headers@, |p: WebSocketProtocol| p.0@), //P35
>>>
 closure 0 &[String] <<< ensures vx_q@ == $0.0@ >>>
@end
@fn Client::extensions
 props P35
 spec <<< ensures r@ == listed::<WebSocketExtensions, Extension>(self.headers@, |e: WebSocketExtensions| e.0@), //P35
>>>
 closure 0 &[Extension] <<< ensures vx_q@ == $0.0@ >>>
@end
@fn Client::stream_ref
 props P35
 spec <<< ensures *r == self.stream.inner(), //P35
>>>
@end
@fn Client::send_dataframe
 props P06 P18
 params self dataframe
 spec <<<
    requires dataframe.v_wf()
    ensures
        final(self).sender.mask == old(self).sender.mask, final(self).receiver == old(self).receiver, final(self).headers == old(self).headers, //P06
        final(self).stream.buffered() == old(self).stream.buffered(), //P24
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> old(self).sender.mask)
            && #[trigger] S::wrote(&old(self).stream.inner(), &final(self).stream.inner(), frame_bytes(dataframe.v_last(), dataframe.v_rsv(), dataframe.v_op(), dataframe.v_pay(), k)), //P02 P06
        !frame_ok(dataframe.v_op(), dataframe.v_pay().len()) ==> r is Err && final(self).stream.inner() == old(self).stream.inner(), //P02
>>>
 start <<< proof { S::always_wf(&self.stream.inner()); } >>>
@end
@fn Client::send_message
 props P06 P18
 params self message
 spec <<<
    ensures
        final(self).sender.mask == old(self).sender.mask, final(self).receiver == old(self).receiver, final(self).headers == old(self).headers, //P06
        final(self).stream.buffered() == old(self).stream.buffered(), //P24
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> old(self).sender.mask)
            && #[trigger] S::wrote(&old(self).stream.inner(), &final(self).stream.inner(), frame_bytes(true, no_rsv(), message.m_op(), message.m_pay(), k)), //P18 P06
        !frame_ok(message.m_op(), message.m_pay().len()) ==> r is Err && final(self).stream.inner() == old(self).stream.inner(), //P18
>>>
 start <<< proof { S::always_wf(&self.stream.inner()); } >>>
@end
@fn Client::recv_dataframe
 props P12 P29
 spec <<<
    ensures
        final(self).sender == old(self).sender, final(self).headers == old(self).headers,
        Receiver::fr_rel(&old(self).receiver, &final(self).receiver, old(self).stream.rem(), final(self).stream.rem(), old(self).stream.reliable(), r), //P12 P24
>>>
@end
@fn Client::recv_message
 props P12 P29
 spec <<<
    ensures
        final(self).sender == old(self).sender, final(self).headers == old(self).headers,
        recv_rel::<Receiver>(&old(self).receiver, &final(self).receiver, old(self).stream.rem(), final(self).stream.rem(), old(self).stream.reliable(), r), //P12 P24
>>>
@end
@fn Client::incoming_dataframes
 props P29
 spec <<< ensures *r.inner == old(self).receiver, *r.reader == old(self).stream, *final(r.inner) == final(self).receiver, *final(r.reader) == final(self).stream, //P29
>>>
@end
@fn Client::incoming_messages
 props P29
 spec <<< ensures *r.inner == old(self).receiver, *r.reader == old(self).stream, *final(r.inner) == final(self).receiver, *final(r.reader) == final(self).stream, //P29
>>>
@end
@fn Client::headers
 props P21 P22
 spec <<< ensures *r == self.headers >>>
@end
@fn Client::writer_mut
 props P24
 rettype &mut S
 spec <<<
    ensures
        *r == old(self).stream.inner(), final(self).stream.inner() == *final(r), //P24
        final(self).stream.buffered() == old(self).stream.buffered(), //P24
        final(self).sender == old(self).sender, final(self).headers == old(self).headers, final(self).receiver == old(self).receiver,
>>>
@end
@fn Client::reader_mut
 props P24
 rettype &mut BufReader<S>
 spec <<<
    ensures
        *r == old(self).stream, *final(r) == final(self).stream, //P24
        final(self).sender == old(self).sender, final(self).headers == old(self).headers, final(self).receiver == old(self).receiver,
>>>
@end
@fn Client::into_stream
 props P24
 spec <<<
    ensures
        r.0 == self.stream.inner(), //P24
        r.1 matches Some(b) ==> b.1 <= b.2 <= b.0@.len() && b.0@.subrange(b.1 as int, b.2 as int) == self.stream.buffered(), //P24
        r.1 is None ==> self.stream.buffered().len() == 0, //P24
>>>
@end
@fn Client::split
 props P24 P30
 spec <<<
    ensures r matches Ok(h) ==> {
        &&& self.stream.inner().halves(h.0.stream.inner(), h.1.stream) //P24 P30
        &&& h.0.stream.buffered() == self.stream.buffered() //P24
        &&& h.0.receiver == self.receiver //P28 P06
        &&& h.1.sender == self.sender //P06
    },
        self.stream.inner().splits() ==> r is Ok, //P30
>>>
@end
