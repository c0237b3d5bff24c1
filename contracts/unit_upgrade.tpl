// ===================================================================== src/server/upgrade/mod.rs
pub mod upg {
use super::*;
use vstd::std_specs::convert::IntoSpec;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text};
@file src/server/upgrade/mod.rs
@macro format => @format
@macro upsert_header => @rules src/lib.rs
@method into_iter => vx_yield
@path IntoIterator => VxYields
@path ::hyper::error::Error => HyperError
@path String::from => vx_string_from
pub type Request = Incoming<(Method, RequestUri)>;
#[verifier::reject_recursive_types(B)]
@struct WsUpgrade
@enum HyperIntoWsError
// ---- P20: what a valid handshake is
pub open spec fn conn_opt_ok(o: ConnectionOption) -> bool { o matches ConnectionOption::ConnectionHeader(x) && same_token(x.0@, "upgrade"@) }
pub open spec fn conn_ok(c: Seq<ConnectionOption>) -> bool { exists|i: int| 0 <= i < c.len() && conn_opt_ok(#[trigger] c[i]) }
pub open spec fn up_ok(u: Seq<Protocol>) -> bool { exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).name is WebSocket }
pub open spec fn ver_ok(h: HMap) -> bool { h.contains_key(hkey::<WebSocketVersion>()) ==> (hval::<WebSocketVersion>(h) matches Some(v) && v is WebSocket13) }
pub open spec fn handshake_ok(m: Method, v: HttpVersion, h: HMap) -> bool {
    &&& m is Get
    &&& v.rank() >= 11
    &&& hval::<WebSocketKey>(h) is Some
    &&& (hval::<Upgrade>(h) matches Some(u) && up_ok(u.0@))
    &&& (hval::<Connection>(h) matches Some(c) && conn_ok(c.0@))
    &&& ver_ok(h)
}
/// the condition an error names is violated
pub open spec fn violated(e: HyperIntoWsError, m: Method, v: HttpVersion, h: HMap) -> bool {
    match e {
        HyperIntoWsError::MethodNotGet => !(m is Get),
        HyperIntoWsError::UnsupportedHttpVersion => v.rank() < 11,
        HyperIntoWsError::UnsupportedWebsocketVersion => !ver_ok(h),
        HyperIntoWsError::NoSecWsKeyHeader => hval::<WebSocketKey>(h) is None,
        HyperIntoWsError::NoUpgradeHeader => hval::<Upgrade>(h) is None,
        HyperIntoWsError::NoWsUpgradeHeader => hval::<Upgrade>(h) matches Some(u) && !up_ok(u.0@),
        HyperIntoWsError::NoConnectionHeader => hval::<Connection>(h) is None,
        HyperIntoWsError::NoWsConnectionHeader => hval::<Connection>(h) matches Some(c) && !conn_ok(c.0@),
        _ => false,
    }
}
@fn check_connection_header
 props P20
 params headers
 spec <<< ensures r == conn_ok(headers@), //P20
>>>
 loop 0 <<<
    invariant
        vx_it0@.len() <= vx_s0.len(), vx_s0.len() == headers@.len(),
        vx_it0@ == vx_s0.skip(vx_s0.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < vx_s0.len() ==> *(#[trigger] vx_s0[i]) == headers@[i],
        forall|i: int| 0 <= i < vx_s0.len() - vx_it0@.len() ==> !conn_opt_ok(#[trigger] headers@[i]),
    ensures
        forall|i: int| 0 <= i < headers@.len() ==> !conn_opt_ok(#[trigger] headers@[i]),
    decreases vx_it0@.len(),
>>>
@end
@fn validate
 props P20
 params method version headers
 spec <<<
    ensures
        r is Ok <==> handshake_ok(*method, version, headers@), //P20
        r matches Err(e) ==> violated(e, *method, version, headers@), //P20
>>>
@end
@impl From<io::Error> for HyperIntoWsError
fn from
 props P20
 params err
 spec <<< ensures r == HyperIntoWsError::Io(err), //P20
>>>
@end
@endimpl
@impl From<::hyper::error::Error> for HyperIntoWsError
fn from
 props P20
 params err
 spec <<< ensures r == HyperIntoWsError::Parsing(err), //P20
>>>
@end
@endimpl
impl vstd::std_specs::convert::FromSpecImpl<IoError> for HyperIntoWsError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> HyperIntoWsError { HyperIntoWsError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<HyperError> for HyperIntoWsError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: HyperError) -> HyperIntoWsError { HyperIntoWsError::Parsing(e) }
}
// ---- P21: what a response says
/// the headers a response starts from: those collected so far, and the custom ones (which come second)
pub open spec fn with_custom(h: HMap, c: Option<HMap>) -> HMap { match c { Some(m) => h.union_prefer_right(m), None => h } }
pub open spec fn opt_hm(c: Option<&Headers>) -> Option<HMap> { match c { Some(h) => Some(h@), None => None } }
pub open spec fn mandatory(k: Seq<char>) -> bool { k == hkey::<WebSocketAccept>() || k == hkey::<Connection>() || k == hkey::<Upgrade>() }
/// P21: the headers of the answer to a client that announced `key`
pub open spec fn answer_headers(h: HMap, base: HMap, key: Seq<u8>) -> bool {
    &&& (hval::<WebSocketAccept>(h) matches Some(a) && a.ab() == ll::accept_of(key))
    &&& (hval::<Connection>(h) matches Some(c) && c.0@.len() == 1 && (c.0@[0] matches ConnectionOption::ConnectionHeader(x) && x.0@ == "Upgrade"@))
    &&& (hval::<Upgrade>(h) matches Some(u) && u.0@.len() == 1 && u.0@[0].name is WebSocket && u.0@[0].version is None)
    &&& forall|k: Seq<char>| !mandatory(k) ==> (#[trigger] h.contains_key(k) == base.contains_key(k)) && (h.contains_key(k) ==> h[k] == base[k])
}
/// the bytes of a response head
pub open spec fn answer_text(v: HttpVersion, st: StatusCode, h: Headers) -> Seq<char> { v.shown() + " "@ + st.shown() + "\r\n"@ + h.shown() + "\r\n"@ }
pub proof fn lemma_hkeys()
    ensures hkey::<WebSocketAccept>() != hkey::<Connection>(), hkey::<WebSocketAccept>() != hkey::<Upgrade>(), hkey::<Connection>() != hkey::<Upgrade>(),
{
    reveal_strlit("Sec-WebSocket-Accept"); reveal_strlit("Connection"); reveal_strlit("Upgrade");
    assert(hkey::<WebSocketAccept>().len() == 20); assert(hkey::<Connection>().len() == 10); assert(hkey::<Upgrade>().len() == 7);
}
@fn WsUpgrade::use_protocol
 props P21 P26
 params self protocol
 spec <<<
    ensures
        r.stream == self.stream, r.request == self.request, r.buffer == self.buffer, //P24
        ({ let k = hkey::<WebSocketProtocol>(); let h = self.headers@;
           &&& (P::obeys_into_spec() && hval::<WebSocketProtocol>(h) is Some ==> (hval::<WebSocketProtocol>(r.headers@) matches Some(w) && w.0@ == (hval::<WebSocketProtocol>(h)->0).0@.push(protocol.into_spec()))) //P21
           &&& (P::obeys_into_spec() && !h.contains_key(k) ==> (hval::<WebSocketProtocol>(r.headers@) matches Some(w) && w.0@ =~= seq![protocol.into_spec()])) //P21
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P21
>>>
@end
@fn WsUpgrade::use_extension
 props P21 P26
 params self extension
 spec <<<
    ensures
        r.stream == self.stream, r.request == self.request, r.buffer == self.buffer, //P24
        ({ let k = hkey::<WebSocketExtensions>(); let h = self.headers@;
           &&& (hval::<WebSocketExtensions>(h) is Some ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ == (hval::<WebSocketExtensions>(h)->0).0@.push(extension))) //P21
           &&& (!h.contains_key(k) ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= seq![extension])) //P21
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P21
>>>
@end
@fn WsUpgrade::use_extensions
 props P21 P26
 params self extensions
 spec <<<
    ensures
        r.stream == self.stream, r.request == self.request, r.buffer == self.buffer, //P24
        ({ let k = hkey::<WebSocketExtensions>(); let h = self.headers@;
           &&& (hval::<WebSocketExtensions>(h) is Some ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= (hval::<WebSocketExtensions>(h)->0).0@ + extensions.yields())) //P21
           &&& (!h.contains_key(k) ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= extensions.yields())) //P21
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P21
>>>
@end
@fn WsUpgrade::key
 props P20 P21 P35
 spec <<< ensures r is Some <==> hval::<WebSocketKey>(self.request.headers@) is Some, r matches Some(k) ==> k@ == (hval::<WebSocketKey>(self.request.headers@)->0).kb(), //P20 P35
>>>
 closure 0 &[u8; 16] <<< ensures vx_q@ == $0.kb() >>>
@end
@fn WsUpgrade::version
 props P20 P35
 spec <<< ensures r is Some <==> hval::<WebSocketVersion>(self.request.headers@) is Some, r matches Some(v) ==> *v == hval::<WebSocketVersion>(self.request.headers@)->0, //P20 P35
>>>
@end
@fn WsUpgrade::protocols
 props P35
 spec <<< ensures r@ == listed::<WebSocketProtocol, String>(self.request.headers@, |p: WebSocketProtocol| p.0@), //P35
>>>
 closure 0 &[String] <<< ensures vx_q@ == $0.0@ >>>
@end
@fn WsUpgrade::extensions
 props P35
 spec <<< ensures r@ == listed::<WebSocketExtensions, Extension>(self.request.headers@, |e: WebSocketExtensions| e.0@), //P35
>>>
 closure 0 &[Extension] <<< ensures vx_q@ == $0.0@ >>>
@end
@fn WsUpgrade::uri
 props P35
 spec <<< ensures r@ == self.request.subject.1.shown(), //P35
>>>
@end
@fn WsUpgrade::origin
 props P35
 spec <<< ensures r is Some <==> hval::<Origin>(self.request.headers@) is Some, r matches Some(o) ==> o@ == (hval::<Origin>(self.request.headers@)->0).0@, //P35
>>>
 closure 0 &str <<< ensures vx_q@ == $0.0@ >>>
@end
@fn WsUpgrade::send
 props P21 P20
 params self status
 spec <<<
    ensures
        final(self).headers == old(self).headers, final(self).request == old(self).request, final(self).buffer == old(self).buffer, //P24
        r is Ok ==> S::wrote(&old(self).stream, &final(self).stream, encode_utf8(answer_text(old(self).request.version, status, old(self).headers))), //P21
        old(self).stream.w_total() ==> r is Ok, //P21
>>>
 start <<< proof { S::always_wf(&self.stream); } >>>
@end
@fn WsUpgrade::prepare_headers
 props P21
 params self custom
 spec <<<
    requires hval::<WebSocketKey>(old(self).request.headers@) is Some
    ensures
        final(self).stream == old(self).stream, final(self).request == old(self).request, final(self).buffer == old(self).buffer, //P24
        r.num() == 101, //P21
        answer_headers(final(self).headers@, with_custom(old(self).headers@, opt_hm(custom)), (hval::<WebSocketKey>(old(self).request.headers@)->0).kb()), //P21
>>>
 start <<< proof { lemma_hkeys(); } >>>
@end


// ===================================================================== src/server/upgrade/sync.rs
pub mod sync {
use super::*;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text, vxip::lemma_items_total, lemma_skip_skip};
@file src/server/upgrade/sync.rs
@method into => vx_conv
/// `e.into()`
pub trait VxConv<T>: Sized { spec fn conv(self, t: T) -> bool; fn vx_conv(self) -> (r: T) ensures self.conv(r); }
impl VxConv<HyperIntoWsError> for HyperError {
    open spec fn conv(self, t: HyperIntoWsError) -> bool { t == HyperIntoWsError::Parsing(self) }
    fn vx_conv(self) -> (r: HyperIntoWsError) { HyperIntoWsError::from(self) }
}
@const DEFAULT_MAX_DATAFRAME_SIZE
@const DEFAULT_MAX_MESSAGE_SIZE
@struct Buffer
@struct RequestStreamPair
pub type Upgrade<S> = WsUpgrade<S, Option<Buffer>>;
/// P24: positions that address the buffer
pub open spec fn buf_wf(b: Buffer) -> bool { b.pos <= b.cap <= b.buf@.len() }
/// P24: the bytes of the peer behind the head that were read along with it
pub open spec fn buf_bytes(b: Option<Buffer>) -> Seq<u8> { match b { Some(b) => b.buf@.subrange(b.pos as int, b.cap as int), None => Seq::empty() } }
pub open spec fn opt_buf_wf(b: Option<Buffer>) -> bool { b matches Some(x) ==> buf_wf(x) }
pub open spec fn req_ok(q: Request) -> bool { handshake_ok(q.subject.0, q.version, q.headers@) }
pub open spec fn req_violates(e: HyperIntoWsError, q: Request) -> bool { violated(e, q.subject.0, q.version, q.headers@) }
/// an upgrade that can be accepted: what into_ws returns, and every setter keeps
pub open spec fn can_accept<S: Stream>(u: Upgrade<S>) -> bool { hval::<WebSocketKey>(u.request.headers@) is Some && opt_buf_wf(u.buffer) }
/// the text written for an answer
#[verifier::prophetic]
pub open spec fn answered<S: Stream>(a: &S, b: &S, v: HttpVersion, code: u16, h: Headers) -> bool {
    exists|st: StatusCode| st.num() == code && #[trigger] S::wrote(a, b, encode_utf8(answer_text(v, st, h)))
}
/// a refusal: one 400 answer
#[verifier::prophetic]
pub open spec fn rejected<S: Stream>(a: &S, b: &S, v: HttpVersion, base: HMap) -> bool {
    exists|st: StatusCode, h: Headers| st.num() == 400 && h@ == base && #[trigger] S::wrote(a, b, encode_utf8(answer_text(v, st, h)))
}
/// an accepted upgrade: 101 and the headers, nothing lost
#[verifier::prophetic]
pub open spec fn accepted<S: Stream>(u: Upgrade<S>, custom: Option<HMap>, c: Client<S>) -> bool {
    &&& answered(&u.stream, &c.stream.inner(), u.request.version, 101, c.headers)
    &&& answer_headers(c.headers@, with_custom(u.headers@, custom), (hval::<WebSocketKey>(u.request.headers@)->0).kb())
    &&& c.stream.buffered() == buf_bytes(u.buffer)
    &&& c.stream.rem() == buf_bytes(u.buffer) + u.stream.rem()
    &&& has_role(c, false, true)
    &&& c.receiver.buffer@.len() == 0
}
/// P20: an accepted request is a valid handshake, a refused one violates the condition named by the error
pub proof fn theorem_refusal(e: HyperIntoWsError, q: Request) //P20
    ensures req_violates(e, q) ==> !req_ok(q) && !(e is Parsing) && !(e is Io) //P20
{}
@fn WsUpgrade::accept
 props P20 P21 P24 P28 P06
 params self
 spec <<<
    requires can_accept(self)
    ensures
        r matches Ok(c) ==> accepted(self, None, c), //P21 P24 P06
        r matches Ok(c) ==> has_limits(c.receiver, 104857600, 209715200), //P28
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::accept_with
 props P20 P21 P24 P28 P06
 params self custom_headers
 spec <<<
    requires can_accept(self)
    ensures
        r matches Ok(c) ==> accepted(self, Some(custom_headers@), c), //P21 P24 P06
        r matches Ok(c) ==> has_limits(c.receiver, 104857600, 209715200), //P28
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::accept_with_limits
 props P20 P21 P24 P28 P06
 params self max_dataframe_size max_message_size
 spec <<<
    requires can_accept(self)
    ensures
        r matches Ok(c) ==> accepted(self, None, c), //P21 P24 P06
        r matches Ok(c) ==> has_limits(c.receiver, max_dataframe_size, max_message_size), //P28
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::accept_with_headers_and_limits
 props P20 P21 P24 P28 P06
 params self custom_headers max_dataframe_size max_message_size
 spec <<<
    requires can_accept(self)
    ensures
        r matches Ok(c) ==> accepted(self, Some(custom_headers@), c), //P21 P24 P06
        r matches Ok(c) ==> has_limits(c.receiver, max_dataframe_size, max_message_size), //P28
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::internal_accept
 props P20 P21 P24 P28 P06
 params self headers
 spec <<<
    requires can_accept(self)
    ensures
        r matches Ok(c) ==> accepted(self, opt_hm(headers), c), //P21 P24 P06
        r matches Ok(c) ==> has_limits(c.receiver, 104857600, 209715200), //P28
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::internal_accept_with_limits
 props P20 P21 P24 P28 P06
 params self headers max_dataframe_size max_message_size
 spec <<<
    requires can_accept(self)
    ensures
        r matches Ok(c) ==> accepted(self, opt_hm(headers), c), //P21 P24 P06
        r matches Ok(c) ==> has_limits(c.receiver, max_dataframe_size, max_message_size), //P28
        self.stream.w_total() ==> r is Ok, //P21
>>>
 start <<< proof { lemma_hkeys(); S::always_wf(&self.stream); assert forall|a: &S, b: &S, d: Seq<u8>| #[trigger] S::wrote(a, b, d) implies a.rem() == b.rem() by { S::wrote_keeps_rem(a, b, d); } } >>>
@end
@fn WsUpgrade::reject
 props P20 P21
 params self
 spec <<<
    ensures
        r matches Ok(s) ==> rejected(&self.stream, &s, self.request.version, with_custom(self.headers@, None)), //P21
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::reject_with
 props P20 P21
 params self headers
 spec <<<
    ensures
        r matches Ok(s) ==> rejected(&self.stream, &s, self.request.version, with_custom(self.headers@, Some(headers@))), //P21
        self.stream.w_total() ==> r is Ok, //P21
>>>
@end
@fn WsUpgrade::internal_reject
 props P20 P21
 params self headers
 spec <<<
    ensures
        r matches Ok(s) ==> rejected(&self.stream, &s, self.request.version, with_custom(self.headers@, opt_hm(headers))), //P21
        self.stream.w_total() ==> r is Ok, //P21
>>>
 start <<< proof { lemma_hkeys(); S::always_wf(&self.stream); assert forall|a: &S, b: &S, d: Seq<u8>| #[trigger] S::wrote(a, b, d) implies a.rem() == b.rem() by { S::wrote_keeps_rem(a, b, d); } } >>>
@end
@trait IntoWs
extra <<<
    #[verifier::prophetic]
    spec fn into_rel(self, r: Result<Upgrade<Self::Stream>, Self::Error>) -> bool;
>>>
fn into_ws
 props P20 P24 P35
 spec <<< ensures self.into_rel(r), //P20 P24 P35
>>>
@end
@endtrait
@impl IntoWs for S
extra <<<
    #[verifier::prophetic]
    open spec fn into_rel(self, r: Result<Upgrade<S>, (S, Option<Request>, Option<Buffer>, HyperIntoWsError)>) -> bool {
        match r {
            Ok(u) => {
                &&& req_ok(u.request) && can_accept(u)
                &&& S::wrote(&self, &u.stream, Seq::<u8>::empty())
                &&& u.headers@ == Map::<Seq<char>, HCell>::empty()
                &&& exists|n: int| 0 <= n <= self.rem().len() && #[trigger] request_head(self.rem(), n, u.request) && buf_bytes(u.buffer) + u.stream.rem() == self.rem().skip(n)
            }
            Err(e) => {
                &&& opt_buf_wf(e.2)
                &&& S::wrote(&self, &e.0, Seq::<u8>::empty())
                &&& match e.1 {
                    None => e.3 is Parsing && buf_bytes(e.2) + e.0.rem() == self.rem(),
                    Some(q) => req_violates(e.3, q)
                        && exists|n: int| 0 <= n <= self.rem().len() && #[trigger] request_head(self.rem(), n, q) && buf_bytes(e.2) + e.0.rem() == self.rem().skip(n),
                }
            }
        }
    }
>>>
fn into_ws
 props P20 P24 P35
@end
@endimpl
@impl IntoWs for RequestStreamPair<S>
extra <<<
    #[verifier::prophetic]
    open spec fn into_rel(self, r: Result<Upgrade<S>, (S, Request, HyperIntoWsError)>) -> bool {
        match r {
            Ok(u) => req_ok(u.request) && can_accept(u) && u.request == self.1 && u.stream == self.0 && u.headers@ == Map::<Seq<char>, HCell>::empty() && buf_bytes(u.buffer).len() == 0,
            Err(e) => req_violates(e.2, self.1) && e.0 == self.0 && e.1 == self.1,
        }
    }
>>>
fn into_ws
 props P20 P24 P35
@end
@endimpl
// ---- a request that hyper's own server has read (`impl IntoWs for HyperRequest`; `&mut dyn NetworkStream` is an opaque stream here)
/// stub: `&'b mut dyn hyper::net::NetworkStream`
#[verifier::external_body]
pub struct NetRef<'b> { s: &'b mut u8 }
impl<'b> Read for NetRef<'b> { uninterp spec fn rem(&self) -> Seq<u8>; uninterp spec fn origin(&self) -> Seq<u8>; uninterp spec fn reliable(&self) -> bool; }
/// stub: hyper::http::h1::HttpReader, the reader of a message body, over the connection's reader
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct HttpReader<R> { r: R }
impl<R> HttpReader<R> {
    pub uninterp spec fn under(self) -> R;
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.under() { unimplemented!() }
}
#[verifier::external_body]
pub struct HyperAddr { }
/// stub: hyper::server::Request
pub struct ServerRequest<'a, 'b> { pub remote_addr: HyperAddr, pub method: Method, pub headers: Headers, pub uri: RequestUri, pub version: HttpVersion, pub body: HttpReader<&'a mut BufReader<NetRef<'b>>> }
impl<'a, 'b> ServerRequest<'a, 'b> {
    #[verifier::external_body]
    pub fn deconstruct(self) -> (r: (HyperAddr, Method, Headers, RequestUri, HttpVersion, HttpReader<&'a mut BufReader<NetRef<'b>>>))
        ensures r == (self.remote_addr, self.method, self.headers, self.uri, self.version, self.body)
    { unimplemented!() }
}
pub struct HyperRequest<'a, 'b>(pub ServerRequest<'a, 'b>);
/// WsUpgrade without its bound on the stream
pub struct HyperUpgrade<'a, 'b> { pub headers: Headers, pub stream: &'a mut NetRef<'b>, pub request: Request, pub buffer: Option<Buffer> }
#[verifier::prophetic]
pub open spec fn hyper_rel<'a, 'b>(q: ServerRequest<'a, 'b>, r: Result<HyperUpgrade<'a, 'b>, (ServerRequest<'a, 'b>, HyperIntoWsError)>) -> bool {
    match r {
        Ok(u) => {
            &&& req_ok(u.request) && hval::<WebSocketKey>(u.request.headers@) is Some && opt_buf_wf(u.buffer)
            &&& u.request.subject == (q.method, q.uri) && u.request.version == q.version && u.request.headers == q.headers
            &&& u.headers@ == Map::<Seq<char>, HCell>::empty()
            &&& *u.stream == (*q.body.under()).inner() && buf_bytes(u.buffer) == (*q.body.under()).buffered()
        }
        Err(e) => violated(e.1, q.method, q.version, q.headers@) && e.0 == q,
    }
}
@path Upgrade => HyperUpgrade
@fn HyperRequest as IntoWs::into_ws
 props P20 P24 P35
 params self
 rettype Result<HyperUpgrade<'a, 'b>, (ServerRequest<'a, 'b>, HyperIntoWsError)>
 spec <<<
    ensures hyper_rel(self.0, r), //P20 P24 P35
>>>
@end
}
}
pub use upg::*;
