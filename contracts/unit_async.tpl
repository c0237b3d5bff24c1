// ===================================================================== the asynchronous side
@file websocket-base/src/ws/util/mod.rs
@fn update_framed_codec
 props P24 P28
 params framed codec
 spec <<<
    ensures r.io == framed.io, r.codec == codec, r.read_buf == framed.read_buf, r.write_buf == framed.write_buf, //P24
>>>
@end
pub type AClient<S> = Framed<S, MessageCodec<OwnedMessage>>;
pub type ClientNew<S> = BoxFuture<(AClient<S>, Headers), WebSocketError>;
/// P28 P06: a codec that has received nothing yet, with its role and limits
pub open spec fn new_codec(c: MessageCodec<OwnedMessage>, is_server: bool, frame: usize, msg: usize) -> bool {
    c.dataframe_codec.is_server == is_server && c.buffer@.len() == 0 && c.dataframe_codec.max_dataframe_size == clamp32(frame) && c.max_message_size == clamp32(msg)
}
// ===================================================================== src/server/upgrade/async.rs
pub mod aupg {
use super::*;
use super::upg::*;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text};
@file src/server/upgrade/mod.rs
@path crate::codec::http::HttpCodecError => HttpCodecError
@impl From<crate::codec::http::HttpCodecError> for HyperIntoWsError
fn from
 props P20 P27
 params src
 spec <<< ensures r == codec_refusal(src), //P20
>>>
@end
@endimpl
pub open spec fn codec_refusal(e: HttpCodecError) -> HyperIntoWsError { match e { HttpCodecError::Io(x) => HyperIntoWsError::Io(x), HttpCodecError::Http(x) => HyperIntoWsError::Parsing(x) } }
impl vstd::std_specs::convert::FromSpecImpl<HttpCodecError> for HyperIntoWsError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: HttpCodecError) -> HyperIntoWsError { codec_refusal(e) }
}
pub trait VxConv<T>: Sized { spec fn conv(self, t: T) -> bool; fn vx_conv(self) -> (r: T) ensures self.conv(r); }
impl VxConv<HyperIntoWsError> for HttpCodecError {
    open spec fn conv(self, t: HyperIntoWsError) -> bool { t == codec_refusal(self) }
    fn vx_conv(self) -> (r: HyperIntoWsError) { HyperIntoWsError::from(self) }
}
@file src/server/upgrade/async.rs
@method into => vx_conv
@path Box::new => vx_boxed
@path Stream => AStream
@type Box<dyn Future<Item = Upgrade<Self::Stream>, Error = Self::Error> + Send> => BoxFuture<Upgrade<Self::Stream>, Self::Error>
@expr Into::into => |vx_x: IoError| -> (vx_q: WebSocketError) ensures vx_q == ws_of_io(vx_x) { WebSocketError::from(vx_x) }
@const DEFAULT_MAX_DATAFRAME_SIZE
@const DEFAULT_MAX_MESSAGE_SIZE
pub type Upgrade<S> = WsUpgrade<S, BytesMut>;
/// the bytes of the peer that are still to be used
pub open spec fn left<S: AStream>(u: Upgrade<S>) -> Seq<u8> { u.buffer@ + u.stream.rem() }
pub open spec fn has_key(q: Request) -> bool { hval::<WebSocketKey>(q.headers@) is Some }
/// an accepted upgrade: 101 and the headers, nothing lost
pub open spec fn a_accepted<S: AStream>(u: Upgrade<S>, custom: Option<HMap>, frame: usize, msg: usize, c: AClient<S>, h: Headers) -> bool {
    &&& exists|st: StatusCode| st.num() == 101 && c.io.out() == u.stream.out() + encode_utf8(#[trigger] answer_text(u.request.version, st, h))
    &&& answer_headers(h@, with_custom(u.headers@, custom), (hval::<WebSocketKey>(u.request.headers@)->0).kb())
    &&& to_come(c) == left(u) && c.write_buf@.len() == 0
    &&& new_codec(c.codec, true, frame, msg)
}
/// what an accepting future settles with
pub open spec fn accepting<S: AStream>(f: ClientNew<S>, u: Upgrade<S>, custom: Option<HMap>, frame: usize, msg: usize) -> bool {
    forall|r: Result<(AClient<S>, Headers), WebSocketError>| #[trigger] f.outcome(r) ==> match r { Ok(x) => a_accepted(u, custom, frame, msg, x.0, x.1), Err(_) => !u.stream.a_total() }
}
/// a refusal: one 400 answer
pub open spec fn refusing<S: AStream>(f: SinkSend<Framed<S, HttpServerCodec>>, u: Upgrade<S>, base: HMap) -> bool {
    forall|r: Result<Framed<S, HttpServerCodec>, IoError>| #[trigger] f.outcome(r) ==> match r {
        Ok(c) => to_come(c) == left(u) && c.write_buf@.len() == 0
            && exists|st: StatusCode, h: Headers| st.num() == 400 && h@ == base && c.io.out() == u.stream.out() + encode_utf8(#[trigger] answer_text(u.request.version, st, h)),
        Err(_) => !u.stream.a_total(),
    }
}
@fn WsUpgrade::accept
 props P20 P21 P24 P28 P06
 params self
 spec <<<
    requires has_key(self.request)
    ensures accepting(r, self, None, 104857600, 209715200), //P21 P24 P28 P06
>>>
@end
@fn WsUpgrade::accept_with
 props P20 P21 P24 P28 P06
 params self custom_headers
 spec <<<
    requires has_key(self.request)
    ensures accepting(r, self, Some(custom_headers@), 104857600, 209715200), //P21 P24 P28 P06
>>>
@end
@fn WsUpgrade::accept_with_limits
 props P20 P21 P24 P28 P06
 params self max_dataframe_size max_message_size
 spec <<<
    requires has_key(self.request)
    ensures accepting(r, self, None, max_dataframe_size, max_message_size), //P21 P24 P28 P06
>>>
@end
@fn WsUpgrade::accept_with_headers_and_limits
 props P20 P21 P24 P28 P06
 params self custom_headers max_dataframe_size max_message_size
 spec <<<
    requires has_key(self.request)
    ensures accepting(r, self, Some(custom_headers@), max_dataframe_size, max_message_size), //P21 P24 P28 P06
>>>
@end
@fn WsUpgrade::internal_accept
 props P20 P21 P24 P28 P06
 params self custom_headers
 spec <<<
    requires has_key(self.request)
    ensures accepting(r, self, opt_hm(custom_headers), 104857600, 209715200), //P21 P24 P28 P06
>>>
@end
@fn WsUpgrade::internal_accept_with_limits
 props P20 P21 P24 P28 P06
 params self custom_headers max_dataframe_size max_message_size
 spec <<<
    requires has_key(self.request)
    ensures accepting(r, self, opt_hm(custom_headers), max_dataframe_size, max_message_size), //P21 P24 P28 P06
>>>
 start <<< proof { lemma_hkeys(); assert forall|q: Incoming<StatusCode>, h: Headers| q.headers.shown() == #[trigger] h.shown() implies #[trigger] <HttpServerCodec as HeadEncoder>::e_text(&q) == answer_text(q.version, q.subject, h) by {} assert forall|x: Seq<u8>, y: Seq<u8>| y.len() == 0 implies #[trigger] (x + y) == x by { assert(x + y =~= x); } } >>>
 closure 0 (AClient<S>, Headers) <<< ensures vx_q.0.io == $0.io, vx_q.0.read_buf == $0.read_buf, vx_q.0.write_buf == $0.write_buf, vx_q.1 == headers, new_codec(vx_q.0.codec, true, max_dataframe_size, max_message_size) >>>
@end
@fn WsUpgrade::reject
 props P20 P21
 params self
 spec <<< ensures refusing(r, self, with_custom(self.headers@, None)), //P21
>>>
@end
@fn WsUpgrade::reject_with
 props P20 P21
 params self headers
 spec <<< ensures refusing(r, self, with_custom(self.headers@, Some(headers@))), //P21
>>>
@end
@fn WsUpgrade::internal_reject
 props P20 P21
 params self headers
 spec <<< ensures refusing(r, self, with_custom(self.headers@, opt_hm(headers))), //P21
>>>
 start <<< proof { lemma_hkeys(); assert forall|q: Incoming<StatusCode>, h: Headers| q.headers.shown() == #[trigger] h.shown() implies #[trigger] <HttpServerCodec as HeadEncoder>::e_text(&q) == answer_text(q.version, q.subject, h) by {} assert forall|x: Seq<u8>, y: Seq<u8>| y.len() == 0 implies #[trigger] (x + y) == x by { assert(x + y =~= x); } } >>>
@end
@trait IntoWs
extra <<<
    spec fn into_rel(self, r: Result<Upgrade<Self::Stream>, Self::Error>) -> bool;
>>>
fn into_ws
 props P20 P24 P35
 spec <<< ensures forall|x: Result<Upgrade<Self::Stream>, Self::Error>| #[trigger] r.outcome(x) ==> self.into_rel(x), //P20 P24 P35
>>>
@end
@endtrait
/// the first p bytes of s are a head, and it reads as q
pub open spec fn head_at(s: Seq<u8>, p: int, q: Request) -> bool { head_end(s, p) && request_is(s.take(p), q) }
@impl IntoWs for S
extra <<<
    open spec fn into_rel(self, r: Result<Upgrade<S>, (S, Option<Request>, BytesMut, HyperIntoWsError)>) -> bool {
        match r {
            Ok(u) => {
                &&& handshake_ok(u.request.subject.0, u.request.version, u.request.headers@)
                &&& u.stream.out() == self.out() && u.headers@ == Map::<Seq<char>, HCell>::empty()
                &&& exists|p: int| #[trigger] head_at(self.rem(), p, u.request) && left(u) == self.rem().skip(p)
            }
            Err(e) => {
                &&& e.0.out() == self.out()
                &&& match e.1 {
                    None => e.3 is Parsing || e.3 is Io,
                    Some(q) => violated(e.3, q.subject.0, q.version, q.headers@)
                        && exists|p: int| #[trigger] head_at(self.rem(), p, q) && e.2@ + e.0.rem() == self.rem().skip(p),
                }
                // nothing beyond an unreadable head is lost
                &&& e.1 is None ==> beyond(self.rem(), e.2@ + e.0.rem())
                &&& self.a_total() && e.1 is None ==> no_head(self.rem()) || exists|p: int| #[trigger] head_end(self.rem(), p) && !(req_read(self.rem().take(p)) is Whole)
            }
        }
    }
>>>
fn into_ws
 props P20 P24 P35
 start <<< proof { lemma_async_into_ws(self); } >>>
 closure 0 (S, Option<Request>, BytesMut, HyperIntoWsError) <<< ensures vx_q.0 == $0.1.io, vx_q.1 is None, vx_q.2 == $0.1.read_buf, vx_q.3 == codec_refusal($0.0) >>>
 closure 1 Result<(Request, S, BytesMut), (S, Option<Request>, BytesMut, HyperIntoWsError)> <<<
    ensures
        $0.0 matches Some(q) ==> (if handshake_ok(q.subject.0, q.version, q.headers@) { vx_q == Ok::<(Request, S, BytesMut), (S, Option<Request>, BytesMut, HyperIntoWsError)>((q, $0.1.io, $0.1.read_buf)) }
            else { vx_q matches Err(e) && e.0 == $0.1.io && e.1 == Some(q) && e.2 == $0.1.read_buf && violated(e.3, q.subject.0, q.version, q.headers@) }),
        $0.0 is None ==> (vx_q matches Err(e) && e.0 == $0.1.io && e.1 is None && e.2 == $0.1.read_buf && e.3 is Io)
>>>
 closure 2 Upgrade<S> <<< ensures vx_q.headers@ == Map::<Seq<char>, HCell>::empty(), vx_q.stream == $0.1, vx_q.request == $0.0, vx_q.buffer == $0.2 >>>
@end
@endimpl
/// b: all of s, or what follows the head of s
pub open spec fn beyond(s: Seq<u8>, b: Seq<u8>) -> bool { b == s || exists|p: int| #[trigger] head_end(s, p) && b == s.skip(p) }
/// what the first item of a fresh transport says about the bytes of the stream
pub proof fn lemma_async_into_ws<S: AStream>(s: S)
    ensures
        forall|f: Framed<S, HttpServerCodec>, r: Result<(Option<Request>, Framed<S, HttpServerCodec>), (HttpCodecError, Framed<S, HttpServerCodec>)>| f.io == s && f.read_buf@.len() == 0 && #[trigger] f.first(r) ==> match r {
            Ok((Some(q), g)) => exists|p: int| #[trigger] head_at(s.rem(), p, q) && to_come(g) == s.rem().skip(p),
            Ok((None, g)) => no_head(s.rem()) && beyond(s.rem(), to_come(g)),
            Err((e, g)) => beyond(s.rem(), to_come(g)) && (s.a_total() ==> no_head(s.rem()) || exists|p: int| #[trigger] head_end(s.rem(), p) && !(req_read(s.rem().take(p)) is Whole)),
        }
{
    assert forall|f: Framed<S, HttpServerCodec>, r: Result<(Option<Request>, Framed<S, HttpServerCodec>), (HttpCodecError, Framed<S, HttpServerCodec>)>| f.io == s && f.read_buf@.len() == 0 && #[trigger] f.first(r) implies match r {
            Ok((Some(q), g)) => exists|p: int| #[trigger] head_at(s.rem(), p, q) && to_come(g) == s.rem().skip(p),
            Ok((None, g)) => no_head(s.rem()) && beyond(s.rem(), to_come(g)),
            Err((e, g)) => beyond(s.rem(), to_come(g)) && (s.a_total() ==> no_head(s.rem()) || exists|p: int| #[trigger] head_end(s.rem(), p) && !(req_read(s.rem().take(p)) is Whole)),
        } by {
        let k = choose|k: int| 0 <= k <= f.io.rem().len() && #[trigger] f.first_at(k, r);
        let src = f.read_buf@ + f.io.rem().take(k);
        let w = s.rem();
        assert(src =~= w.take(k));
        assert(src + w.skip(k) =~= w);
        let g = match r { Ok(x) => x.1, Err(x) => x.1 };
        if k == w.len() { assert(src =~= w); }
        assert(w.take(k) + w.skip(k) =~= w);
        lemma_none_or_head(src);
        if !no_head(src) {
            let p = choose|p: int| #[trigger] head_end(src, p);
            htp::theorem_head_prefix(src, w.skip(k), p);
            assert(src.take(p) =~= w.take(p));
            assert(src.skip(p) + w.skip(k) =~= w.skip(p));
            assert(head_end(w, p));
            if let Ok((Some(q), g)) = r { assert(head_at(w, p, q)); }
        }
    }
}
pub proof fn lemma_none_or_head(s: Seq<u8>) ensures !no_head(s) ==> exists|p: int| #[trigger] head_end(s, p)
{ if !no_head(s) { let n = choose|n: int| #[trigger] crlf2(s, n) && content(s, n); htp::lemma_first_head(s, n); } }
}
// ===================================================================== src/client/builder.rs
pub mod abld {
use super::*;
use super::bld::*;
use vstd::std_specs::convert::IntoSpec;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text};
// ---- tokio-tcp, tokio-tls, name resolution
use super::srv::SocketAddr;
/// whether an address is one of the named host, with that port
/// the name has no address; looking it up, connecting to an address, a TLS handshake for a name fails with this error
pub uninterp spec fn unresolved(host: Seq<char>, port: u16) -> bool;
pub uninterp spec fn unresolved_with(host: Seq<char>, port: u16, e: IoError) -> bool;
pub uninterp spec fn a_unreachable(a: SocketAddr, e: IoError) -> bool;
pub uninterp spec fn a_no_session(domain: Seq<char>, e: TlsError) -> bool;
pub uninterp spec fn resolves(a: SocketAddr, host: Seq<char>, port: u16) -> bool;
impl<'a> HostAndPort<&'a str> {
    #[verifier::external_body]
    pub fn to_socket_addrs(&self) -> (r: IoResult<VxIter<SocketAddr>>) ensures r matches Ok(l) ==> forall|i: int| 0 <= i < l@.len() ==> resolves(#[trigger] l@[i], self.host@, self.port), r matches Ok(l) ==> (l@.len() == 0 ==> unresolved(self.host@, self.port)), r matches Err(e) ==> unresolved_with(self.host@, self.port, e) { unimplemented!() }
}
#[verifier::external_body] pub struct TokTcp { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct TokTls<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct TokConnector { p: u8 }
impl TokTcp {
    pub uninterp spec fn addr(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn connect(a: &SocketAddr) -> (f: BoxFuture<TokTcp, IoError>) ensures forall|s: TokTcp| #[trigger] f.outcome(Ok(s)) ==> s.addr() == *a, forall|e: IoError| #[trigger] f.outcome(Err(e)) ==> a_unreachable(*a, e) { unimplemented!() }
}
impl<T> TokTls<T> {
    pub uninterp spec fn under(&self) -> T;
    pub uninterp spec fn domain(&self) -> Seq<char>;
}
impl TokConnector {
    pub uninterp spec fn native(&self) -> TlsConnector;
    #[verifier::external_body]
    pub fn from(c: TlsConnector) -> (r: TokConnector) ensures r.native() == c { unimplemented!() }
    #[verifier::external_body]
    pub fn connect(&self, domain: &str, s: TokTcp) -> (f: BoxFuture<TokTls<TokTcp>, TlsError>) ensures forall|t: TokTls<TokTcp>| #[trigger] f.outcome(Ok(t)) ==> t.under() == s && t.domain() == domain@, forall|e: TlsError| #[trigger] f.outcome(Err(e)) ==> a_no_session(domain@, e) { unimplemented!() }
}
/// `Box<dyn stream::async::Stream + Send>`
pub enum BoxAStream { Tcp(TokTcp), Tls(TokTls<TokTcp>) }
impl VxBoxed for TokTcp { type Out = BoxAStream; open spec fn boxed(self, o: BoxAStream) -> bool { o == BoxAStream::Tcp(self) } fn vx_box(self) -> (o: BoxAStream) { BoxAStream::Tcp(self) } }
impl VxBoxed for TokTls<TokTcp> { type Out = BoxAStream; open spec fn boxed(self, o: BoxAStream) -> bool { o == BoxAStream::Tls(self) } fn vx_box(self) -> (o: BoxAStream) { BoxAStream::Tls(self) } }
net_stream!(TokTcp);
net_stream!(TokTls<TokTcp>);
net_stream!(BoxAStream);
impl AStream for TokTcp { uninterp spec fn out(&self) -> Seq<u8>; uninterp spec fn a_total(&self) -> bool; }
impl AStream for TokTls<TokTcp> { uninterp spec fn out(&self) -> Seq<u8>; uninterp spec fn a_total(&self) -> bool; }
impl AStream for BoxAStream { uninterp spec fn out(&self) -> Seq<u8>; uninterp spec fn a_total(&self) -> bool; }
// ---- P37
pub open spec fn of_codec(e: HttpCodecError) -> WebSocketOtherError { match e { HttpCodecError::Io(x) => WebSocketOtherError::IoError(x), HttpCodecError::Http(x) => WebSocketOtherError::HttpError(x) } }
impl vstd::std_specs::convert::FromSpecImpl<HttpCodecError> for WebSocketOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: HttpCodecError) -> WebSocketOtherError { of_codec(e) }
}
@file src/result.rs
@path crate::codec::http::HttpCodecError => HttpCodecError
@impl From<crate::codec::http::HttpCodecError> for WebSocketOtherError
fn from
 props P37
@end
@endimpl
@file src/client/builder.rs
@path stream::r#async::Stream => AStream
@path r#async::ClientNew => ClientNew
@path r#async::TlsStream => TokTls
@path r#async::TcpStream => TokTcp
@path TcpStreamNew => TokTcp
@path TlsConnectorExt => TokConnector
@path Box::new => vx_boxed
@path crate::codec::http::HttpClientCodec => HttpClientCodec
@type Box<dyn stream::r#async::Stream + Send> => BoxAStream
@type Box<dyn future::Future<Item = TcpStreamNew, Error = WebSocketError> + Send> => BoxFuture<TokTcp, WebSocketError>
@expr ::std::convert::Into::into => |vx_x: IoError| -> (vx_q: WebSocketError) ensures vx_q == ws_of_io(vx_x) { WebSocketError::from(vx_x) }
@expr Into::into => |vx_x: IoError| -> (vx_q: WebSocketError) ensures vx_q == ws_of_io(vx_x) { WebSocketError::from(vx_x) }
@method to_string => vx_to_string
@method to_owned => vx_to_owned
/// the first p bytes of s are a response head, and it reads as q
pub open spec fn resp_at(s: Seq<u8>, p: int, q: Incoming<RawStatus>) -> bool { head_end(s, p) && response_is(s.take(p), q) }
pub open spec fn answers(q: Incoming<RawStatus>, h: HMap) -> bool { hval::<WebSocketKey>(h) matches Some(k) && good_response(q, k.kb()) }
/// P22 P23 P24 P06 P28: the client made of a stream that was connected; g: the builder with the request's headers
pub open spec fn a_connected<S: AStream>(a: ClientBuilder, g: ClientBuilder, s: S, c: AClient<S>, h: Headers) -> bool {
    &&& built(a, g) && g.version == a.version
    &&& c.io.out() == s.out() + encode_utf8(request_text(g))
    &&& exists|p: int, q: Incoming<RawStatus>| #[trigger] resp_at(s.rem(), p, q) && answers(q, g.headers@) && h == q.headers && to_come(c) == s.rem().skip(p)
    &&& c.write_buf@.len() == 0
    &&& new_codec(c.codec, false, a.max_dataframe_size, a.max_message_size)
}
/// nothing but a failing stream, an unreadable response or a bad one is in the way of a connection
pub open spec fn a_may_fail<S: AStream>(a: ClientBuilder, g: ClientBuilder, s: S) -> bool {
    &&& built(a, g)
    &&& !s.a_total() || no_head(s.rem()) || exists|p: int| #[trigger] head_end(s.rem(), p) && (!(resp_read(s.rem().take(p)) is Whole) || exists|q: Incoming<RawStatus>| #[trigger] response_is(s.rem().take(p), q) && !answers(q, g.headers@))
}
/// a complete head that does not read as a response
pub open spec fn bad_head(s: Seq<u8>) -> bool { exists|p: int| #[trigger] head_end(s, p) && !(resp_read(s.take(p)) is Whole) }
/// P37: the cause named by the error of a failed connection over a stream
pub open spec fn a_cause<S: AStream>(g: ClientBuilder, s: S, e: WebSocketError) -> bool {
    // a failing stream
    ||| !s.a_total() && exists|x: IoError| e == #[trigger] ws_of_io(x) || e == other(WebSocketOtherError::IoError(x))
    // no response, or one that cannot be read
    ||| (!s.a_total() || no_head(s.rem()) || bad_head(s.rem())) && exists|x: HttpCodecError| e == other(#[trigger] of_codec(x))
    ||| no_head(s.rem()) && e is ProtocolError
    // it is not the one asked for
    ||| exists|p: int, q: Incoming<RawStatus>| #[trigger] resp_at(s.rem(), p, q) && !answers(q, g.headers@) && refused_for(q, hval::<WebSocketKey>(g.headers@) is Some, e)
}
pub open spec fn a_failed<S: AStream>(a: ClientBuilder, g: ClientBuilder, s: S, e: WebSocketError) -> bool { built(a, g) && a_cause(g, s, e) }
pub open spec fn fails_for<S: AStream>(a: ClientBuilder, s: S, e: WebSocketError) -> bool { exists|g: ClientBuilder| #[trigger] request_text(g).len() >= 0 && a_failed(a, g, s, e) }
/// the errors of a connection over s name their cause
pub open spec fn failing<S: AStream>(f: ClientNew<S>, a: ClientBuilder, s: S) -> bool { forall|e: WebSocketError| #[trigger] f.outcome(Err(e)) ==> fails_for(a, s, e) }
pub open spec fn a_tcp_cause(u: Url, secure: Option<bool>, e: WebSocketError) -> bool {
    ||| no_host(u, e)
    ||| exists|h: Seq<char>, p: u16| endpoint(u, secure, (h, p)) && #[trigger] unresolved(h, p) && e == other(WebSocketOtherError::WebSocketUrlError(WSUrlErrorKind::NoHostName))
    ||| exists|h: Seq<char>, p: u16, x: IoError| endpoint(u, secure, (h, p)) && #[trigger] unresolved_with(h, p, x) && e == ws_of_io(x)
    ||| exists|h: Seq<char>, p: u16, a: SocketAddr, x: IoError| endpoint(u, secure, (h, p)) && #[trigger] resolves(a, h, p) && #[trigger] a_unreachable(a, x) && e == ws_of_io(x)
}
pub open spec fn session_cause(domain: Seq<char>, e: WebSocketError) -> bool { exists|x: TlsError| #[trigger] a_no_session(domain, x) && e == other(WebSocketOtherError::TlsError(x)) }
pub open spec fn a_tls_cause(u: Url, e: WebSocketError) -> bool { tls_cause(u, e) || exists|h: Seq<char>| u.s_host() == Some(h) && #[trigger] session_cause(h, e) }
pub open spec fn connecting<S: AStream>(f: ClientNew<S>, a: ClientBuilder, s: S) -> bool {
    forall|r: Result<(AClient<S>, Headers), WebSocketError>| #[trigger] f.outcome(r) ==> match r {
        Ok(x) => exists|g: ClientBuilder| #[trigger] request_text(g).len() >= 0 && a_connected(a, g, s, x.0, x.1),
        Err(_) => exists|g: ClientBuilder| #[trigger] request_text(g).len() >= 0 && a_may_fail(a, g, s),
    }
}
/// what the request written by the codec and the one written by `connect_on` have in common
pub proof fn lemma_async_request()
    ensures
        forall|b: ClientBuilder, q: Incoming<(Method, RequestUri)>| q.subject.0 is Get && (q.subject.1 matches RequestUri::AbsolutePath(t) && t@ == target_of(cow_url(b.url))) && q.version == b.version && q.headers.shown() == b.headers.shown()
            ==> #[trigger] HttpClientCodec::e_text(&q) == #[trigger] request_text(b),
{
    assert forall|b: ClientBuilder, q: Incoming<(Method, RequestUri)>| q.subject.0 is Get && (q.subject.1 matches RequestUri::AbsolutePath(t) && t@ == target_of(cow_url(b.url))) && q.version == b.version && q.headers.shown() == b.headers.shown()
            implies #[trigger] HttpClientCodec::e_text(&q) == #[trigger] request_text(b) by {
        reveal_strlit("GET"); reveal_strlit("GET "); reveal_strlit(" ");
        assert("GET"@ + " "@ =~= "GET "@);
        assert(HttpClientCodec::e_text(&q) =~= request_text(b));
    }
}
/// what the first item of a transport says about the bytes of the stream
pub proof fn lemma_async_response<S: AStream>(s: S)
    ensures
        forall|f: Framed<S, HttpClientCodec>, r: Result<(Option<Incoming<RawStatus>>, Framed<S, HttpClientCodec>), (HttpCodecError, Framed<S, HttpClientCodec>)>| f.io.rem() == s.rem() && f.io.a_total() == s.a_total() && f.read_buf@.len() == 0 && #[trigger] f.first(r) ==> match r {
            Ok((Some(q), g)) => exists|p: int| #[trigger] resp_at(s.rem(), p, q) && to_come(g) == s.rem().skip(p),
            Ok((None, g)) => no_head(s.rem()),
            Err((e, g)) => s.a_total() ==> no_head(s.rem()) || exists|p: int| #[trigger] head_end(s.rem(), p) && !(resp_read(s.rem().take(p)) is Whole),
        }
{
    assert forall|f: Framed<S, HttpClientCodec>, r: Result<(Option<Incoming<RawStatus>>, Framed<S, HttpClientCodec>), (HttpCodecError, Framed<S, HttpClientCodec>)>| f.io.rem() == s.rem() && f.io.a_total() == s.a_total() && f.read_buf@.len() == 0 && #[trigger] f.first(r) implies match r {
            Ok((Some(q), g)) => exists|p: int| #[trigger] resp_at(s.rem(), p, q) && to_come(g) == s.rem().skip(p),
            Ok((None, g)) => no_head(s.rem()),
            Err((e, g)) => s.a_total() ==> no_head(s.rem()) || exists|p: int| #[trigger] head_end(s.rem(), p) && !(resp_read(s.rem().take(p)) is Whole),
        } by {
        let k = choose|k: int| 0 <= k <= f.io.rem().len() && #[trigger] f.first_at(k, r);
        let src = f.read_buf@ + f.io.rem().take(k);
        let w = s.rem();
        assert(src =~= w.take(k));
        assert(src + w.skip(k) =~= w);
        let g = match r { Ok(x) => x.1, Err(x) => x.1 };
        if k == w.len() { assert(src =~= w); }
        aupg::lemma_none_or_head(src);
        if !no_head(src) {
            let p = choose|p: int| #[trigger] head_end(src, p);
            htp::theorem_head_prefix(src, w.skip(k), p);
            assert(src.take(p) =~= w.take(p));
            assert(src.skip(p) + w.skip(k) =~= w.skip(p));
            assert(head_end(w, p));
            if let Ok((Some(q), g)) = r { assert(resp_at(w, p, q)); }
        }
    }
}
@fn ClientBuilder::async_connect_on
 props P22 P23 P24 P28 P06 P37
 params self stream
 spec <<< ensures
    connecting(r, self, stream), //P22 P23 P24 P28 P06
    failing(r, self, stream), //P37
>>>
 closure 0 BoxFuture<(Option<Incoming<RawStatus>>, Framed<S, HttpClientCodec>), WebSocketError> <<<
    ensures forall|vx_r: Result<(Option<Incoming<RawStatus>>, Framed<S, HttpClientCodec>), WebSocketError>| #[trigger] vx_q.outcome(vx_r) ==> match vx_r {
        Ok(vx_x) => $0.first(Ok(vx_x)),
        Err(_) => exists|vx_e: (HttpCodecError, Framed<S, HttpClientCodec>)| #[trigger] $0.first(Err(vx_e)),
    },
    forall|vx_c: WebSocketError| #[trigger] vx_q.outcome(Err(vx_c)) ==> exists|vx_e: (HttpCodecError, Framed<S, HttpClientCodec>)| #[trigger] $0.first(Err(vx_e)) && vx_c == other(of_codec(vx_e.0)), //P37
>>>
 closure 1 WebSocketError <<<
    ensures vx_q == other(of_codec($0.0)), //P37
>>>
 closure 2 Result<(Incoming<RawStatus>, Framed<S, HttpClientCodec>), WebSocketError> <<<
    ensures match vx_q {
        Ok(vx_x) => $0.0 == Some(vx_x.0) && $0.1 == vx_x.1 && answers(vx_x.0, builder.headers@),
        Err(_) => $0.0 matches Some(vx_m) ==> !answers(vx_m, builder.headers@),
    },
    vx_q matches Err(vx_e) ==> match $0.0 { Some(vx_m) => refused_for(vx_m, hval::<WebSocketKey>(builder.headers@) is Some, vx_e), None => vx_e is ProtocolError }, //P37
>>>
 closure 3 Result<(Incoming<RawStatus>, Framed<S, HttpClientCodec>), WebSocketError> <<<
    ensures match vx_q {
        Ok(vx_x) => $0 == vx_x.0 && stream == vx_x.1 && answers(vx_x.0, builder.headers@),
        Err(_) => !answers($0, builder.headers@),
    },
    vx_q matches Err(vx_e) ==> refused_for($0, hval::<WebSocketKey>(builder.headers@) is Some, vx_e), //P37
>>>
 closure 4 (Incoming<RawStatus>, Framed<S, HttpClientCodec>) <<< ensures vx_q == (message, stream) >>>
 closure 5 (AClient<S>, Headers) <<< ensures vx_q.0.io == $0.1.io, vx_q.0.read_buf == $0.1.read_buf, vx_q.0.write_buf == $0.1.write_buf, vx_q.1 == $0.0.headers, new_codec(vx_q.0.codec, false, max_dataframe_size, max_message_size) >>>
 start <<< proof { lemma_async_response(stream); lemma_async_request(); assert forall|x: Seq<u8>, y: Seq<u8>| y.len() == 0 implies #[trigger] (x + y) == x by { assert(x + y =~= x); } } >>>
@end
/// a TCP connection to the endpoint of the URL
pub open spec fn a_endpoint(u: Url, secure: Option<bool>, s: TokTcp) -> bool { exists|host: Seq<char>, port: u16| #[trigger] resolves(s.addr(), host, port) && endpoint(u, secure, (host, port)) }
@fn ClientBuilder::async_tcpstream
 props P25 P37
 params self secure
 spec <<< ensures
    forall|s: TokTcp| #[trigger] r.outcome(Ok(s)) ==> a_endpoint(cow_url(self.url), secure, s), //P25
    forall|e: WebSocketError| #[trigger] r.outcome(Err(e)) ==> a_tcp_cause(cow_url(self.url), secure, e), //P37
>>>
 start <<< broadcast use axiom_into_self; >>>
 closure 0 Result<VxIter<SocketAddr>, WebSocketError> <<<
    ensures
    vx_q matches Ok(vx_l) ==> (vx_l@.len() == 0 ==> unresolved($0.host@, $0.port)), //P37
    vx_q matches Err(vx_e) ==> exists|vx_x: IoError| #[trigger] unresolved_with($0.host@, $0.port, vx_x) && vx_e == ws_of_io(vx_x), //P37
    vx_q matches Ok(vx_l) ==> forall|vx_i: int| 0 <= vx_i < vx_l@.len() ==> resolves(#[trigger] vx_l@[vx_i], $0.host@, $0.port),
>>>
@end
/// the client is that of a connection made over s
pub open spec fn a_over<S: AStream>(a: ClientBuilder, s: S, c: AClient<S>, h: Headers) -> bool { exists|g: ClientBuilder| #[trigger] request_text(g).len() >= 0 && a_connected(a, g, s, c, h) }
/// two builders that make the same requests and clients
pub open spec fn same_builder(a: ClientBuilder, b: ClientBuilder) -> bool {
    cow_url(a.url) == cow_url(b.url) && a.version == b.version && a.headers@ == b.headers@ && a.version_set == b.version_set && a.key_set == b.key_set
    && a.max_dataframe_size == b.max_dataframe_size && a.max_message_size == b.max_message_size
}
/// the client is that of a handshake made over s
pub open spec fn a_run<S: AStream>(s: S, c: AClient<S>, h: Headers) -> bool { exists|b: ClientBuilder, g: ClientBuilder| #[trigger] a_connected(b, g, s, c, h) }
/// what a copy of the builder makes is what the builder itself would have made
pub proof fn lemma_copied<S: AStream>(a: ClientBuilder)
    ensures forall|b: ClientBuilder, g: ClientBuilder, s: S, c: AClient<S>, h: Headers| same_builder(a, b) && #[trigger] a_connected(b, g, s, c, h) ==> a_over(a, s, c, h),
{
    assert forall|b: ClientBuilder, g: ClientBuilder, s: S, c: AClient<S>, h: Headers| same_builder(a, b) && #[trigger] a_connected(b, g, s, c, h) implies a_over(a, s, c, h) by {
        assert(a_connected(a, g, s, c, h)); assert(request_text(g).len() >= 0);
    }
}
pub proof fn lemma_copied_fails<S: AStream>(a: ClientBuilder)
    ensures forall|b: ClientBuilder, g: ClientBuilder, s: S, e: WebSocketError| same_builder(a, b) && #[trigger] a_failed(b, g, s, e) ==> fails_for(a, s, e),
{
    assert forall|b: ClientBuilder, g: ClientBuilder, s: S, e: WebSocketError| same_builder(a, b) && #[trigger] a_failed(b, g, s, e) implies fails_for(a, s, e) by { assert(a_failed(a, g, s, e)); assert(request_text(g).len() >= 0); }
}
@fn ClientBuilder::async_connect
 props P25 P22 P23 P24 P28 P06 P35 P37
 params self ssl_config
 spec <<< ensures
  forall|x: (AClient<BoxAStream>, Headers)| #[trigger] r.outcome(Ok(x)) ==> exists|s: BoxAStream| #[trigger] a_over(self, s, x.0, x.1), //P22 P23 P24 P28 P06 P35
  forall|x: (AClient<BoxAStream>, Headers)| #[trigger] r.outcome(Ok(x)) ==> {
    // TLS exactly when the scheme asks for it, to the endpoint of the URL
    &&& secure_scheme(cow_url(self.url).s_scheme()) ==> exists|s: TokTls<TokTcp>| Some(#[trigger] s.domain()) == cow_url(self.url).s_host() && a_endpoint(cow_url(self.url), None, s.under()) && a_run(BoxAStream::Tls(s), x.0, x.1) //P25
    &&& !secure_scheme(cow_url(self.url).s_scheme()) ==> exists|s: TokTcp| #[trigger] a_endpoint(cow_url(self.url), None, s) && a_run(BoxAStream::Tcp(s), x.0, x.1) //P25
    },
  forall|e: WebSocketError| #[trigger] r.outcome(Err(e)) ==> a_tcp_cause(cow_url(self.url), None, e) || (secure_scheme(cow_url(self.url).s_scheme()) && a_tls_cause(cow_url(self.url), e)) || exists|s: BoxAStream| #[trigger] fails_for(self, s, e), //P37
>>>
 closure 0 BoxFuture<TokTls<TokTcp>, WebSocketError> <<<
    ensures
    forall|vx_t: TokTls<TokTcp>| #[trigger] vx_q.outcome(Ok(vx_t)) ==> vx_t.under() == $0 && vx_t.domain() == host@,
    forall|vx_e: WebSocketError| #[trigger] vx_q.outcome(Err(vx_e)) ==> session_cause(host@, vx_e), //P37
>>>
 closure 1 ClientNew<BoxAStream> <<<
    ensures connecting(vx_q, builder, BoxAStream::Tls($0)),
    failing(vx_q, builder, BoxAStream::Tls($0)), //P37
>>>
 closure 2 ClientNew<BoxAStream> <<<
    ensures connecting(vx_q, builder, BoxAStream::Tcp($0)),
    failing(vx_q, builder, BoxAStream::Tcp($0)), //P37
>>>
 start <<< proof { lemma_copied::<BoxAStream>(self); lemma_copied_fails::<BoxAStream>(self); } >>>
@end
@fn ClientBuilder::async_connect_secure
 props P25 P22 P23 P24 P28 P06 P35 P37
 params self ssl_config
 spec <<< ensures
  forall|x: (AClient<TokTls<TokTcp>>, Headers)| #[trigger] r.outcome(Ok(x)) ==> exists|s: TokTls<TokTcp>| #[trigger] a_over(self, s, x.0, x.1), //P22 P23 P24 P28 P06 P35
  forall|x: (AClient<TokTls<TokTcp>>, Headers)| #[trigger] r.outcome(Ok(x)) ==> exists|s: TokTls<TokTcp>| Some(#[trigger] s.domain()) == cow_url(self.url).s_host() && a_endpoint(cow_url(self.url), Some(true), s.under()) && a_run(s, x.0, x.1), //P25
  forall|e: WebSocketError| #[trigger] r.outcome(Err(e)) ==> a_tcp_cause(cow_url(self.url), Some(true), e) || a_tls_cause(cow_url(self.url), e) || exists|s: TokTls<TokTcp>| #[trigger] fails_for(self, s, e), //P37
>>>
 closure 0 BoxFuture<TokTls<TokTcp>, WebSocketError> <<<
    ensures
    forall|vx_t: TokTls<TokTcp>| #[trigger] vx_q.outcome(Ok(vx_t)) ==> vx_t.under() == $0 && vx_t.domain() == host@,
    forall|vx_e: WebSocketError| #[trigger] vx_q.outcome(Err(vx_e)) ==> session_cause(host@, vx_e), //P37
>>>
 closure 1 ClientNew<TokTls<TokTcp>> <<<
    ensures connecting(vx_q, builder, $0),
    failing(vx_q, builder, $0), //P37
>>>
 start <<< proof { lemma_copied::<TokTls<TokTcp>>(self); lemma_copied_fails::<TokTls<TokTcp>>(self); } >>>
@end
@fn ClientBuilder::async_connect_insecure
 props P25 P22 P23 P24 P28 P06 P35 P37
 spec <<< ensures
  forall|x: (AClient<TokTcp>, Headers)| #[trigger] r.outcome(Ok(x)) ==> exists|s: TokTcp| #[trigger] a_over(self, s, x.0, x.1), //P22 P23 P24 P28 P06 P35
  forall|x: (AClient<TokTcp>, Headers)| #[trigger] r.outcome(Ok(x)) ==> exists|s: TokTcp| #[trigger] a_endpoint(cow_url(self.url), Some(false), s) && a_run(s, x.0, x.1), //P25
  forall|e: WebSocketError| #[trigger] r.outcome(Err(e)) ==> a_tcp_cause(cow_url(self.url), Some(false), e) || exists|s: TokTcp| #[trigger] fails_for(self, s, e), //P37
>>>
 closure 0 ClientNew<TokTcp> <<<
    ensures connecting(vx_q, builder, $0),
    failing(vx_q, builder, $0), //P37
>>>
 start <<< proof { lemma_copied::<TokTcp>(self); lemma_copied_fails::<TokTcp>(self); } >>>
@end
}
