// ===================================================================== ws/sender.rs, src/sender.rs
@file websocket-base/src/ws/sender.rs
@path DataFrame => DataFrameTrait
@path Message => MessageTrait
@path Sender => SenderTrait
@trait Sender
extra <<<
    spec fn s_masked(&self) -> bool;
>>>
fn is_masked
 props P06
 spec <<< ensures r == self.s_masked(), //P06
>>>
@end
fn send_dataframe
 props P02 P06 P18
 params self writer dataframe
 spec <<<
    requires old(writer).w_wf(), dataframe.v_wf()
    ensures
        final(self).s_masked() == old(self).s_masked(), //P06
        final(writer).w_wf(),
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> old(self).s_masked())
            && #[trigger] W::wrote(old(writer), final(writer), frame_bytes(dataframe.v_last(), dataframe.v_rsv(), dataframe.v_op(), dataframe.v_pay(), k)), //P02 P06
        !frame_ok(dataframe.v_op(), dataframe.v_pay().len()) ==> r is Err && *final(writer) == *old(writer), //P02
        frame_ok(dataframe.v_op(), dataframe.v_pay().len()) && old(writer).w_total() ==> r is Ok, //P02
>>>
@end
fn send_message
 props P02 P06 P18
 params self writer message
 spec <<<
    requires old(writer).w_wf()
    ensures
        final(self).s_masked() == old(self).s_masked(), //P06
        final(writer).w_wf(),
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> old(self).s_masked())
            && #[trigger] W::wrote(old(writer), final(writer), frame_bytes(true, no_rsv(), message.m_op(), message.m_pay(), k)), //P18 P06
        !frame_ok(message.m_op(), message.m_pay().len()) ==> r is Err && *final(writer) == *old(writer), //P18
        frame_ok(message.m_op(), message.m_pay().len()) && old(writer).w_total() ==> r is Ok, //P18
>>>
@end
@endtrait
@file src/sender.rs
@path ws::Message => MessageTrait
@path ws::Sender => SenderTrait
@path DataFrame => DataFrameTrait
@struct Sender
@struct Writer
@fn Sender::new
 props P06
 params mask
 spec <<< ensures r.mask == mask, //P06
>>>
@end
@impl ws::Sender for Sender
extra <<<
    open spec fn s_masked(&self) -> bool { self.mask }
>>>
fn is_masked
 props P06
@end
@endimpl
@fn Writer::send_dataframe
 props P06 P18
 params self dataframe
 spec <<<
    requires old(self).stream.w_wf(), dataframe.v_wf()
    ensures
        final(self).sender.mask == old(self).sender.mask, //P06
        final(self).stream.w_wf(),
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> old(self).sender.mask)
            && #[trigger] W::wrote(&old(self).stream, &final(self).stream, frame_bytes(dataframe.v_last(), dataframe.v_rsv(), dataframe.v_op(), dataframe.v_pay(), k)), //P02 P06
        !frame_ok(dataframe.v_op(), dataframe.v_pay().len()) ==> r is Err && final(self).stream == old(self).stream, //P02
>>>
@end
@fn Writer::send_message
 props P06 P18
 params self message
 spec <<<
    requires old(self).stream.w_wf()
    ensures
        final(self).sender.mask == old(self).sender.mask, //P06
        final(self).stream.w_wf(),
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> old(self).sender.mask)
            && #[trigger] W::wrote(&old(self).stream, &final(self).stream, frame_bytes(true, no_rsv(), message.m_op(), message.m_pay(), k)), //P18 P06
        !frame_ok(message.m_op(), message.m_pay().len()) ==> r is Err && final(self).stream == old(self).stream, //P18
>>>
@end
// ===================================================================== src/receiver.rs: Reader
@file src/receiver.rs
#[verifier::reject_recursive_types(R)]
@struct Reader
@fn Reader::recv_dataframe
 props P12 P29
 spec <<<
    ensures
        Receiver::fr_rel(&old(self).receiver, &final(self).receiver, old(self).stream.rem(), final(self).stream.rem(), old(self).stream.reliable(), r), //P12
>>>
@end
@fn Reader::incoming_dataframes
 props P29
 spec <<< ensures *r.inner == old(self).receiver, *r.reader == old(self).stream, *final(r.inner) == final(self).receiver, *final(r.reader) == final(self).stream, //P29
>>>
@end
@fn Reader::recv_message
 props P12 P29
 spec <<<
    ensures
        recv_rel::<Receiver>(&old(self).receiver, &final(self).receiver, old(self).stream.rem(), final(self).stream.rem(), old(self).stream.reliable(), r), //P12
>>>
@end
@fn Reader::incoming_messages
 props P29
 spec <<< ensures *r.inner == old(self).receiver, *r.reader == old(self).stream, *final(r.inner) == final(self).receiver, *final(r.reader) == final(self).stream, //P29
>>>
@end
