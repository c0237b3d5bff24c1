// ===================================================================== ws::Message
@file websocket-base/src/ws/message.rs
@path DataFrameable => DataFrameTrait
@path Message => MessageTrait
@trait Message
extra <<<
    spec fn m_op(&self) -> u8;
    spec fn m_pay(&self) -> Seq<u8>;
    spec fn m_wf(&self) -> bool;
>>>
fn serialize
 props P18 P06
 params self writer masked
 spec <<<
    requires old(writer).w_wf()
    ensures
        final(writer).w_wf(),
        r is Ok ==> exists|k: Option<[u8; 4]>| (k is Some <==> masked)
            && #[trigger] VxDyn0::wrote(old(writer), final(writer), frame_bytes(true, no_rsv(), self.m_op(), self.m_pay(), k)), //P18 P06
        r is Ok ==> frame_ok(self.m_op(), self.m_pay().len()), //P18
        !frame_ok(self.m_op(), self.m_pay().len()) ==> r is Err && *final(writer) == *old(writer), //P18
        frame_ok(self.m_op(), self.m_pay().len()) && old(writer).w_total() ==> r is Ok && final(writer).w_total(), //P18
        forall|m: nat| frame_ok(self.m_op(), self.m_pay().len()) && m >= frame_len(self.m_pay().len(), masked) && #[trigger] old(writer).can_take(m)
            ==> r is Ok && final(writer).can_take((m - frame_len(self.m_pay().len(), masked)) as nat), //P05
>>>
@end
fn message_size
 props P05
 params self masked
 spec <<< ensures r == frame_len(self.m_pay().len(), masked), //P05
>>>
@end
fn from_dataframes
 props P09 P10 P11
 params frames
 spec <<<
    requires
        cat_frames(frames@).len() <= isize::MAX,
        forall|i: int| 0 <= i < frames@.len() ==> (#[trigger] frames@[i]).v_wf(),
    ensures
        r is Ok <==> frames_ok(frames@) && msg_ok(frames@[0].v_op(), cat_frames(frames@)), //P09 P10 P11
        r matches Ok(m) ==> m.m_wf() && m.m_op() == frames@[0].v_op() && m.m_pay() == cat_frames(frames@), //P09 P10 P11
>>>
@end
@endtrait
// ===================================================================== message.rs
@file websocket-base/src/ws/util/mod.rs
@path from_utf8 => vx_from_utf8
@fn bytes_to_string
 props P10 P11
 params data
 spec <<<
    ensures
        r is Ok <==> valid_utf8(data@), //P10 P11
        r matches Ok(s) ==> encode_utf8(s@) == data@, //P10 P11
>>>
@end
@file websocket-base/src/message.rs
@path ws::dataframe::DataFrame => DataFrameTrait
@path ws::Message => MessageTrait
@path from_utf8 => vx_from_utf8
@path String::from_utf8_lossy => vx_from_utf8_lossy
@path Vec::with_capacity => vx_with_capacity
@path io::Result => IoResult
@const FALSE_RESERVED_BITS ensures FALSE_RESERVED_BITS@ == no_rsv()
@enum Type #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@struct Message
@struct CloseData
@enum OwnedMessage
@trait IntoCowBytes
extra <<<
    spec fn c_bytes(self) -> Seq<u8>;
>>>
fn into
 props P17
 spec <<< ensures cow_bytes(r) == self.c_bytes(), //P17
>>>
@end
@endtrait
@impl IntoCowBytes<'a> for Vec<u8>
extra <<<
    open spec fn c_bytes(self) -> Seq<u8> { self@ }
>>>
fn into
 props P17
@end
@endimpl
@impl IntoCowBytes<'a> for &'a [u8]
extra <<<
    open spec fn c_bytes(self) -> Seq<u8> { self@ }
>>>
fn into
 props P17
@end
@endimpl
@impl IntoCowBytes<'a> for Cow<'a, [u8]>
extra <<<
    open spec fn c_bytes(self) -> Seq<u8> { cow_bytes(self) }
>>>
fn into
 props P17
@end
@endimpl
pub open spec fn msg_pay(m: Message<'_>) -> Seq<u8> {
    match m.cd_status_code { Some(c) => close_bytes(c, cow_bytes(m.payload)), None => cow_bytes(m.payload) }
}
pub open spec fn msg_wf(m: Message<'_>) -> bool {
    &&& m.opcode == Type::Text ==> valid_utf8(cow_bytes(m.payload))
    &&& m.opcode != Type::Close ==> m.cd_status_code is None
    &&& m.opcode == Type::Close && m.cd_status_code is None ==> cow_bytes(m.payload).len() == 0
    &&& m.opcode == Type::Close ==> valid_utf8(cow_bytes(m.payload))
}
pub open spec fn own_op(m: OwnedMessage) -> u8 {
    match m { OwnedMessage::Text(_) => 1, OwnedMessage::Binary(_) => 2, OwnedMessage::Close(_) => 8, OwnedMessage::Ping(_) => 9, OwnedMessage::Pong(_) => 10 }
}
pub open spec fn own_pay(m: OwnedMessage) -> Seq<u8> {
    match m {
        OwnedMessage::Text(s) => encode_utf8(s@),
        OwnedMessage::Binary(b) => b@, OwnedMessage::Ping(b) => b@, OwnedMessage::Pong(b) => b@,
        OwnedMessage::Close(Some(c)) => close_bytes(c.status_code, encode_utf8(c.reason@)),
        OwnedMessage::Close(None) => Seq::empty(),
    }
}
@fn Message::new
 props P17 P18
 params code status payload
 spec <<< ensures r.opcode == code, r.cd_status_code == status, cow_bytes(r.payload) == cow_bytes(payload), //P17
>>>
@end
@fn Message::text
 props P17
 params data
 spec <<<
    ensures
        r.opcode == Type::Text && r.cd_status_code is None, //P17
        exists|c: Cow<'a, str>| #[trigger] call_ensures(<S as Into<Cow<'a, str>>>::into, (data,), c) && cow_bytes(r.payload) == encode_utf8(cow_str(c)), //P17
>>>
@end
@fn Message::binary
 props P17
 params data
 spec <<< ensures r.opcode == Type::Binary, r.cd_status_code is None, cow_bytes(r.payload) == data.c_bytes(), //P17
>>>
@end
@fn Message::close
 props P17 P11
 spec <<< ensures r.opcode == Type::Close, r.cd_status_code is None, cow_bytes(r.payload) =~= Seq::<u8>::empty(), //P17 P11
>>>
@end
@fn Message::close_because
 props P17 P11
 params code reason
 spec <<<
    ensures
        r.opcode == Type::Close && r.cd_status_code == Some(code), //P17 P11
        exists|c: Cow<'a, str>| #[trigger] call_ensures(<S as Into<Cow<'a, str>>>::into, (reason,), c) && cow_bytes(r.payload) == encode_utf8(cow_str(c)), //P17 P11
>>>
@end
@fn Message::ping
 props P17
 params data
 spec <<< ensures r.opcode == Type::Ping, r.cd_status_code is None, cow_bytes(r.payload) == data.c_bytes(), //P17
>>>
@end
@fn Message::pong
 props P17
 params data
 spec <<< ensures r.opcode == Type::Pong, r.cd_status_code is None, cow_bytes(r.payload) == data.c_bytes(), //P17
>>>
@end
@fn Message::into_pong
 props P17
 spec <<<
    ensures
        old(self).opcode == Type::Ping ==> r is Ok && final(self).opcode == Type::Pong, //P17
        old(self).opcode != Type::Ping ==> r is Err && final(self).opcode == old(self).opcode, //P17
        final(self).payload == old(self).payload && final(self).cd_status_code == old(self).cd_status_code, //P17
>>>
@end
@impl ws::dataframe::DataFrame for Message<'a>
extra <<<
    open spec fn v_last(&self) -> bool { true }
    open spec fn v_op(&self) -> u8 { self.opcode as u8 }
    open spec fn v_rsv(&self) -> Seq<bool> { no_rsv() }
    open spec fn v_pay(&self) -> Seq<u8> { msg_pay(*self) }
    open spec fn v_wf(&self) -> bool { true }
>>>
fn is_last
 props P18
@end
fn opcode
 props P18
@end
fn reserved
 props P18
@end
fn size
 props P05 P18
 start <<< proof { axiom_cow_len(self.payload); } >>>
@end
fn write_payload
 props P18
 start <<< broadcast use lemma_wrote_close; >>>
@end
fn take_payload
 props P17 P18
 start <<< proof { axiom_cow_len(self.payload); lemma_empty_cat(); } >>>
@end
@endimpl
@impl ws::Message for Message<'a>
extra <<<
    open spec fn m_op(&self) -> u8 { self.opcode as u8 }
    open spec fn m_pay(&self) -> Seq<u8> { msg_pay(*self) }
    open spec fn m_wf(&self) -> bool { msg_wf(*self) }
>>>
fn serialize
 props P18
 start <<< proof { assert(self.v_last() && self.v_rsv() == no_rsv() && self.v_op() == self.m_op() && self.v_pay() == self.m_pay()); } >>>
@end
fn message_size
 props P05
@end
fn from_dataframes
 props P09 P10 P11
 params frames
 start <<< let ghost vx_fs = frames@; proof { lemma_frames(vx_fs); lemma_close_split(); } >>>
 loop 0 <<<
    invariant
        frames@ == vx_fs,
        0 < vx_fs.len() <= usize::MAX,
        forall|i: int| 0 <= i < vx_fs.len() ==> (#[trigger] vx_fs[i]).v_wf(),
        vx_it0@.len() <= vx_fs.len(),
        vx_s0.len() == vx_fs.len(),
        vx_it0@ == vx_s0.skip(vx_fs.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < vx_fs.len() ==> #[trigger] vx_s0[i] == (i as usize, vx_fs[i]),
        data@ == cat_frames(vx_fs.take(vx_fs.len() - vx_it0@.len())),
        forall|i: int| 0 <= i < vx_fs.len() - vx_it0@.len() ==> (#[trigger] vx_fs[i]).v_rsv() =~= seq![false, false, false],
        forall|i: int| 1 <= i < vx_fs.len() - vx_it0@.len() ==> (#[trigger] vx_fs[i]).v_op() == 0,
    ensures
        data@ == cat_frames(vx_fs),
        frames_ok(vx_fs),
    decreases vx_it0@.len(),
>>>
 loopstart 0 <<< let ghost vx_n = vx_fs.len() - vx_it0@.len(); proof { lemma_cat_take(vx_fs, vx_n); assert(vx_fs.take(vx_fs.len() as int) =~= vx_fs); } >>>
@end
@endimpl
pub proof fn lemma_cat_take<D: DataFrameTrait>(fs: Seq<D>, n: int)
    requires 0 <= n <= fs.len()
    ensures
        n == 0 ==> cat_frames(fs.take(n)) == Seq::<u8>::empty(),
        n < fs.len() ==> cat_frames(fs.take(n + 1)) == cat_frames(fs.take(n)) + fs[n].v_pay(),
{
    if n < fs.len() { assert(fs.take(n + 1).drop_last() =~= fs.take(n)); }
}
pub proof fn lemma_cat_sum<D: DataFrameTrait>(fs: Seq<D>, s: Seq<usize>)
    requires s.len() == fs.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fs[i].v_pay().len(),
    ensures seq_sum(s) == cat_frames(fs).len()
    decreases fs.len()
{
    if fs.len() > 0 { lemma_cat_sum(fs.drop_last(), s.drop_last()); }
}
pub proof fn lemma_frames<D: DataFrameTrait>(fs: Seq<D>)
    ensures
        forall|s: Seq<usize>| s.len() == fs.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fs[i].v_pay().len())
            ==> #[trigger] seq_sum(s) == cat_frames(fs).len(),
        cat_frames(fs.take(0)) == Seq::<u8>::empty(),
{
    assert forall|s: Seq<usize>| s.len() == fs.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fs[i].v_pay().len())
            implies #[trigger] seq_sum(s) == cat_frames(fs).len() by { lemma_cat_sum(fs, s); }
    lemma_cat_take(fs, 0);
}
pub proof fn lemma_empty_cat() ensures forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s {
    assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
}
pub proof fn axiom_cow_len(c: Cow<'_, [u8]>) ensures cow_bytes(c).len() <= 0x8000_0000_0000 {
    match c { Cow::Borrowed(b) => axiom_slice_len(b), Cow::Owned(v) => axiom_vec_len(v) }
}
// ===================================================================== OwnedMessage
@fn OwnedMessage::is_close
 props P17
 spec <<< ensures r == (own_op(*self) == 8), //P17
>>>
@end
@fn OwnedMessage::is_control
 props P17
 spec <<< ensures r == (own_op(*self) >= 8), //P17
>>>
@end
@fn OwnedMessage::is_data
 props P17
 spec <<< ensures r == (own_op(*self) < 8), //P17
>>>
@end
@fn OwnedMessage::is_ping
 props P17
 spec <<< ensures r == (own_op(*self) == 9), //P17
>>>
@end
@fn OwnedMessage::is_pong
 props P17
 spec <<< ensures r == (own_op(*self) == 10), //P17
>>>
@end
@impl ws::dataframe::DataFrame for OwnedMessage
extra <<<
    open spec fn v_last(&self) -> bool { true }
    open spec fn v_op(&self) -> u8 { own_op(*self) }
    open spec fn v_rsv(&self) -> Seq<bool> { no_rsv() }
    open spec fn v_pay(&self) -> Seq<u8> { own_pay(*self) }
    open spec fn v_wf(&self) -> bool { true }
>>>
fn is_last
 props P18
@end
fn opcode
 props P18
@end
fn reserved
 props P18
@end
fn size
 props P05 P18
 start <<< proof { axiom_owned_len(*self); } >>>
@end
fn write_payload
 props P18
 start <<< proof { VxDyn0::wrote_nil(&*socket); } broadcast use lemma_wrote_close; >>>
@end
fn take_payload
 props P17 P18
 start <<< proof { axiom_owned_len(self); lemma_empty_cat(); } >>>
@end
@endimpl
pub proof fn axiom_string_len(s: String) ensures encode_utf8(s@).len() <= 0x8000_0000_0000 { admit(); }
pub proof fn axiom_owned_len(m: OwnedMessage)
    ensures
        m matches OwnedMessage::Text(s) ==> encode_utf8(s@).len() <= 0x8000_0000_0000,
        m matches OwnedMessage::Binary(b) ==> b@.len() <= 0x8000_0000_0000,
        m matches OwnedMessage::Ping(b) ==> b@.len() <= 0x8000_0000_0000,
        m matches OwnedMessage::Pong(b) ==> b@.len() <= 0x8000_0000_0000,
        m matches OwnedMessage::Close(Some(c)) ==> encode_utf8(c.reason@).len() <= 0x8000_0000_0000,
{
    match m {
        OwnedMessage::Text(s) => axiom_string_len(s),
        OwnedMessage::Binary(b) => axiom_vec_len(b), OwnedMessage::Ping(b) => axiom_vec_len(b), OwnedMessage::Pong(b) => axiom_vec_len(b),
        OwnedMessage::Close(Some(c)) => axiom_string_len(c.reason),
        OwnedMessage::Close(None) => {},
    }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for OwnedMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: String) -> OwnedMessage { OwnedMessage::Text(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<Vec<u8>> for OwnedMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Vec<u8>) -> OwnedMessage { OwnedMessage::Binary(e) }
}
impl<'m> vstd::std_specs::convert::FromSpecImpl<Message<'m>> for OwnedMessage {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: Message<'m>) -> OwnedMessage { arbitrary() }
}
impl<'m> vstd::std_specs::convert::FromSpecImpl<OwnedMessage> for Message<'m> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: OwnedMessage) -> Message<'m> { arbitrary() }
}
@impl From<String> for OwnedMessage
fn from
 props P17
@end
@endimpl
@impl From<Vec<u8>> for OwnedMessage
fn from
 props P17
@end
@endimpl
@impl From<Message<'m>> for OwnedMessage
fn from
 props P17
 params message
 spec <<<
    ensures
        own_op(r) == message.opcode as u8, //P17
        msg_wf(message) ==> own_pay(r) == msg_pay(message), //P17
>>>
@end
@endimpl
@impl From<OwnedMessage> for Message<'m>
fn from
 props P17
 params message
 spec <<<
    ensures
        r.opcode as u8 == own_op(message) && msg_wf(r), //P17
        msg_pay(r) == own_pay(message), //P17
>>>
 start <<< proof { lemma_enc_valid(); } >>>
@end
@endimpl
@impl ws::Message for OwnedMessage
extra <<<
    open spec fn m_op(&self) -> u8 { own_op(*self) }
    open spec fn m_pay(&self) -> Seq<u8> { own_pay(*self) }
    open spec fn m_wf(&self) -> bool { true }
>>>
fn serialize
 props P18
 start <<< proof { assert(self.v_last() && self.v_rsv() == no_rsv() && self.v_op() == self.m_op() && self.v_pay() == self.m_pay()); } >>>
@end
fn message_size
 props P05
@end
fn from_dataframes
 props P09 P10 P11 P17
@end
@endimpl
@fn CloseData::new
 props P11 P17
 params status_code reason
 spec <<< ensures r.status_code == status_code && r.reason == reason, //P17
>>>
@end
@fn CloseData::into_bytes
 props P11 P17
 spec <<< ensures r matches Ok(b) && b@ == close_bytes(self.status_code, encode_utf8(self.reason@)), //P11 P17
>>>
 start <<< let ghost vx_c = self; proof { lemma_empty_cat(); } >>>
 loop 0 <<<
    invariant
        vx_it0@.len() <= vx_s0.len(),
        vx_s0.len() == encode_utf8(self.reason@).len(),
        vx_it0@ == vx_s0.skip(vx_s0.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < vx_s0.len() ==> *(#[trigger] vx_s0[i]) == encode_utf8(self.reason@)[i],
        buf@ =~= enc16(self.status_code) + encode_utf8(self.reason@).take(vx_s0.len() - vx_it0@.len()),
    ensures
        buf@ =~= close_bytes(self.status_code, encode_utf8(self.reason@)),
    decreases vx_it0@.len(),
>>>
@end
