// ===================================================================== src/client/builder.rs
pub mod bld {
use super::*;
use vstd::std_specs::convert::IntoSpec;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text, vxip::lemma_items_total, lemma_skip_skip};
@@include stubs_url.rs
@file src/result.rs
@path HttpError => HyperError
@path io::Error => IoError
@path Box::new => vx_box_err
@type std::io::Error => IoError
pub enum WSUrlErrorKind { CannotSetFragment, InvalidScheme, NoHostName }
@enum WebSocketOtherError
// ---- P37: what an error says
pub uninterp spec fn box_of(e: WebSocketOtherError) -> VxBoxedError;
/// `Box::new` as an error object
#[verifier::external_body]
pub fn vx_box_err(e: WebSocketOtherError) -> (r: VxBoxedError) ensures r == box_of(e) { unimplemented!() }
/// the error as users of the library get it
pub open spec fn other(e: WebSocketOtherError) -> WebSocketError { WebSocketError::Other(box_of(e)) }
pub open spec fn of_tls<T>(e: TlsHandshakeError<T>) -> WebSocketOtherError { match e { TlsHandshakeError::Failure(_) => WebSocketOtherError::TlsHandshakeFailure, TlsHandshakeError::WouldBlock(_) => WebSocketOtherError::TlsHandshakeInterruption } }
/// core: `impl<T> From<T> for T` gives its argument back
pub broadcast axiom fn axiom_into_self(e: WebSocketOtherError)
    ensures <WebSocketOtherError as vstd::std_specs::convert::IntoSpec<WebSocketOtherError>>::obeys_into_spec(), #[trigger] <WebSocketOtherError as vstd::std_specs::convert::IntoSpec<WebSocketOtherError>>::into_spec(e) == e;
impl vstd::std_specs::convert::FromSpecImpl<WebSocketOtherError> for WebSocketError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: WebSocketOtherError) -> WebSocketError { other(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<HyperError> for WebSocketOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: HyperError) -> WebSocketOtherError { WebSocketOtherError::HttpError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<ParseError> for WebSocketOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParseError) -> WebSocketOtherError { WebSocketOtherError::UrlError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<TlsError> for WebSocketOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TlsError) -> WebSocketOtherError { WebSocketOtherError::TlsError(e) }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<TlsHandshakeError<T>> for WebSocketOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TlsHandshakeError<T>) -> WebSocketOtherError { of_tls(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<WSUrlErrorKind> for WebSocketOtherError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: WSUrlErrorKind) -> WebSocketOtherError { WebSocketOtherError::WebSocketUrlError(e) }
}
@impl From<WebSocketOtherError> for WebSocketError
fn from
 props P37
@end
@endimpl
@impl From<HttpError> for WebSocketOtherError
fn from
 props P37
@end
@endimpl
@impl From<ParseError> for WebSocketOtherError
fn from
 props P37
@end
@endimpl
@impl From<TlsError> for WebSocketOtherError
fn from
 props P37
@end
@endimpl
@impl From<TlsHandshakeError<T>> for WebSocketOtherError
fn from
 props P37
@end
@endimpl
@impl From<WSUrlErrorKind> for WebSocketOtherError
fn from
 props P37
@end
@endimpl
@fn towse
 props P37
 spec <<< ensures E::obeys_into_spec() ==> r == other(e.into_spec()), //P37
>>>
@end
// derive(PartialEq) on the accept header
impl vstd::std_specs::cmp::PartialEqSpecImpl for WebSocketAccept {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &WebSocketAccept) -> bool { self.ab() == o.ab() }
}
impl PartialEq for WebSocketAccept { #[verifier::external_body] fn eq(&self, o: &WebSocketAccept) -> (r: bool) { unimplemented!() } }
@file src/client/builder.rs
@macro format => @format
@macro upsert_header => @rules src/lib.rs
@type Box<dyn NetworkStream + Send> => BoxNet
@path Box::new => vx_box_net
@path ::url::HostAndPort => HostAndPort
@path hyper::header::Location => Location
@method to_owned => vx_to_owned
@method is_empty => vx_is_empty
@expr Into::into => |vx_x: S| -> (vx_q: String) ensures S::obeys_into_spec() ==> vx_q == vx_x.into_spec() { vx_x.into() }
@method to_string => vx_to_string
@method into_iter => vx_yield
@path IntoIterator => VxYields
@const DEFAULT_MAX_DATAFRAME_SIZE
@const DEFAULT_MAX_MESSAGE_SIZE
@struct ClientBuilder
pub open spec fn same_target(a: ClientBuilder, b: ClientBuilder) -> bool { cow_url(a.url) == cow_url(b.url) && a.version == b.version }
pub open spec fn same_limits(a: ClientBuilder, b: ClientBuilder) -> bool { a.max_dataframe_size == b.max_dataframe_size && a.max_message_size == b.max_message_size }
pub open spec fn fresh(u: Url, b: ClientBuilder) -> bool {
    cow_url(b.url) == u && b.version is Http11 && b.headers@ == Map::<Seq<char>, HCell>::empty() && !b.version_set && !b.key_set && b.max_dataframe_size == 104857600 && b.max_message_size == 209715200
}
pub open spec fn into_strings<S: Into<String>>(a: Seq<S>) -> Seq<String> { a.map_values(|x: S| x.into_spec()) }
@fn ClientBuilder::from_url
 props P23 P28
 params address
 spec <<<
    ensures
        fresh(*address, r), //P23 P28
>>>
@end
@fn ClientBuilder::new
 props P23 P28
 params address
 spec <<<
    ensures
        r is Ok <==> url_parses(address@), r matches Ok(b) ==> fresh(url_of(address@), b), //P23 P28
>>>
@end
@fn ClientBuilder::init
 props P23 P28
 params url
 spec <<<
    ensures
        fresh(cow_url(url), r), //P23 P28
>>>
@end
@fn ClientBuilder::add_protocol
 props P23 P26
 params self protocol
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        ({ let k = hkey::<WebSocketProtocol>(); let h = self.headers@;
           &&& (P::obeys_into_spec() && hval::<WebSocketProtocol>(h) is Some ==> (hval::<WebSocketProtocol>(r.headers@) matches Some(w) && w.0@ =~= (hval::<WebSocketProtocol>(h)->0).0@ + seq![protocol.into_spec()])) //P23
           &&& (P::obeys_into_spec() && !h.contains_key(k) ==> (hval::<WebSocketProtocol>(r.headers@) matches Some(w) && w.0@ =~= seq![protocol.into_spec()])) //P23
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P23
>>>
@end
@fn ClientBuilder::add_protocols
 props P23 P26
 params self protocols
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        ({ let k = hkey::<WebSocketProtocol>(); let h = self.headers@; let ps = into_strings(protocols.yields());
           &&& (S::obeys_into_spec() && hval::<WebSocketProtocol>(h) is Some ==> (hval::<WebSocketProtocol>(r.headers@) matches Some(w) && w.0@ =~= (hval::<WebSocketProtocol>(h)->0).0@ + ps)) //P23
           &&& (S::obeys_into_spec() && !h.contains_key(k) ==> (hval::<WebSocketProtocol>(r.headers@) matches Some(w) && w.0@ =~= ps)) //P23
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P23
>>>
@end
@fn ClientBuilder::add_extension
 props P23 P26
 params self extension
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        ({ let k = hkey::<WebSocketExtensions>(); let h = self.headers@;
           &&& (hval::<WebSocketExtensions>(h) is Some ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= (hval::<WebSocketExtensions>(h)->0).0@ + seq![extension])) //P23
           &&& (!h.contains_key(k) ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= seq![extension])) //P23
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P23
>>>
@end
@fn ClientBuilder::add_extensions
 props P23 P26
 params self extensions
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        ({ let k = hkey::<WebSocketExtensions>(); let h = self.headers@;
           &&& (hval::<WebSocketExtensions>(h) is Some ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= (hval::<WebSocketExtensions>(h)->0).0@ + extensions.yields())) //P23
           &&& (!h.contains_key(k) ==> (hval::<WebSocketExtensions>(r.headers@) matches Some(w) && w.0@ =~= extensions.yields())) //P23
           &&& forall|j: Seq<char>| j != k ==> (#[trigger] r.headers@.contains_key(j) == h.contains_key(j)) && (h.contains_key(j) ==> r.headers@[j] == h[j]) }), //P23
>>>
@end
@fn ClientBuilder::clear_protocols
 props P23
 params self
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.remove(hkey::<WebSocketProtocol>()), //P23
>>>
@end
@fn ClientBuilder::clear_extensions
 props P23
 params self
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.remove(hkey::<WebSocketExtensions>()), //P23
>>>
@end
@fn ClientBuilder::max_dataframe_size
 props P28 P23
 params self value
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, r.headers == self.headers, //P23
        r.max_dataframe_size == value, r.max_message_size == self.max_message_size, //P28
>>>
@end
@fn ClientBuilder::max_message_size
 props P28 P23
 params self value
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, r.headers == self.headers, //P23
        r.max_message_size == value, r.max_dataframe_size == self.max_dataframe_size, //P28
>>>
@end
@fn ClientBuilder::key
 props P23
 params self key
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set, same_limits(self, r), //P23
        hval::<WebSocketKey>(r.headers@) matches Some(k) && k.kb() == key@, //P23
        r.headers@.remove(hkey::<WebSocketKey>()) =~= self.headers@.remove(hkey::<WebSocketKey>()), //P23
>>>
@end
@fn ClientBuilder::clear_key
 props P23
 params self
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, !r.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.remove(hkey::<WebSocketKey>()), //P23
>>>
@end
@fn ClientBuilder::version
 props P23
 params self version
 spec <<<
    ensures
        same_target(self, r), r.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.insert(hkey::<WebSocketVersion>(), typed_cell::<WebSocketVersion>(version)), //P23
>>>
@end
@fn ClientBuilder::clear_version
 props P23
 params self
 spec <<<
    ensures
        same_target(self, r), !r.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.remove(hkey::<WebSocketVersion>()), //P23
>>>
@end
@fn ClientBuilder::origin
 props P23
 params self origin
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.insert(hkey::<Origin>(), typed_cell::<Origin>(Origin(origin))), //P23
>>>
@end
@fn ClientBuilder::clear_origin
 props P23
 params self
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.remove(hkey::<Origin>()), //P23
>>>
@end
@fn ClientBuilder::custom_headers
 props P23
 params self custom_headers
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.union_prefer_right(custom_headers@), //P23
>>>
@end
@fn ClientBuilder::clear_header
 props P23
 params self
 spec <<<
    ensures
        same_target(self, r), r.version_set == self.version_set, r.key_set == self.key_set, same_limits(self, r), //P23
        r.headers@ == self.headers@.remove(hkey::<H>()), //P23
>>>
@end
@fn ClientBuilder::get_header
 props P23
 params self
 spec <<<
    ensures
        r is Some <==> hval::<H>(self.headers@) is Some, r matches Some(v) ==> hval::<H>(self.headers@) == Some(*v), //P23
>>>
@end
// ---- P23: the request
pub open spec fn target_of(u: Url) -> Seq<char> { u.s_piece(Position::BeforePath, Position::AfterQuery) }
/// the Host header: the port is left out when there is none, or only the one the scheme stands for
pub open spec fn host_text(u: Url) -> Seq<char> { match u.s_port() { Some(p) => u.s_host()->0 + ":"@ + dec_text(p as int), None => u.s_host()->0 } }
pub open spec fn host_key() -> Seq<char> { lower("Host"@) }
pub open spec fn set_by_build(k: Seq<char>) -> bool {
    k == host_key() || k == hkey::<Authorization<Basic>>() || k == hkey::<Connection>() || k == hkey::<Upgrade>() || k == hkey::<WebSocketVersion>() || k == hkey::<WebSocketKey>()
}
pub open spec fn request_headers(u: Url, h: HMap, version_set: bool, key_set: bool, g: HMap) -> bool {
    &&& (u.s_host() is Some ==> g.contains_key(host_key()) && exists|l: Seq<Seq<u8>>| l =~= seq![encode_utf8(host_text(u))] && g[host_key()] == #[trigger] raw_cell(l))
    &&& (u.s_host() is None ==> (g.contains_key(host_key()) <==> h.contains_key(host_key())) && (h.contains_key(host_key()) ==> g[host_key()] == h[host_key()]))
    &&& (u.s_user().len() > 0 ==> (hval::<Authorization<Basic>>(g) matches Some(a) && a.0.username@ == u.s_user() && opt_txt(a.0.password) == u.s_password()))
    &&& (hval::<Connection>(g) matches Some(c) && c.0@.len() == 1 && (c.0@[0] matches ConnectionOption::ConnectionHeader(x) && x.0@ == "Upgrade"@))
    &&& (hval::<Upgrade>(g) matches Some(p) && p.0@.len() == 1 && p.0@[0].name is WebSocket && p.0@[0].version is None)
    &&& g.contains_key(hkey::<WebSocketVersion>())
    &&& (!version_set || !h.contains_key(hkey::<WebSocketVersion>()) ==> (hval::<WebSocketVersion>(g) matches Some(v) && v is WebSocket13))
    &&& (version_set && h.contains_key(hkey::<WebSocketVersion>()) ==> g[hkey::<WebSocketVersion>()] == h[hkey::<WebSocketVersion>()])
    &&& hval::<WebSocketKey>(g) is Some
    &&& (key_set && hval::<WebSocketKey>(h) is Some ==> g[hkey::<WebSocketKey>()] == h[hkey::<WebSocketKey>()])
    &&& forall|k: Seq<char>| !set_by_build(k) ==> (#[trigger] g.contains_key(k) == h.contains_key(k)) && (h.contains_key(k) ==> g[k] == h[k])
}
/// the builder after a request was built
pub open spec fn built(a: ClientBuilder, b: ClientBuilder) -> bool {
    &&& same_target(a, b) && same_limits(a, b)
    &&& b.version_set == (a.version_set && a.headers@.contains_key(hkey::<WebSocketVersion>())) && b.key_set == (a.key_set && hval::<WebSocketKey>(a.headers@) is Some)
    &&& request_headers(cow_url(a.url), a.headers@, a.version_set, a.key_set, b.headers@)
}
pub open spec fn request_text(b: ClientBuilder) -> Seq<char> { "GET "@ + target_of(cow_url(b.url)) + " "@ + b.version.shown() + "\r\n"@ + b.headers.shown() + "\r\n"@ }
pub proof fn lemma_request_keys()
    ensures
        ({ let a = host_key(); let b = hkey::<Authorization<Basic>>(); let c = hkey::<Connection>(); let d = hkey::<Upgrade>(); let e = hkey::<WebSocketVersion>(); let f = hkey::<WebSocketKey>();
           a != b && a != c && a != d && a != e && a != f && b != c && b != d && b != e && b != f && c != d && c != e && c != f && d != e && d != f && e != f }),
{
    reveal_strlit("Host"); reveal_strlit("Authorization"); reveal_strlit("Connection"); reveal_strlit("Upgrade"); reveal_strlit("Sec-WebSocket-Version"); reveal_strlit("Sec-WebSocket-Key");
    assert(host_key().len() == 4); assert(hkey::<Authorization<Basic>>().len() == 13); assert(hkey::<Connection>().len() == 10); assert(hkey::<Upgrade>().len() == 7); assert(hkey::<WebSocketVersion>().len() == 21); assert(hkey::<WebSocketKey>().len() == 17);
}
@fn ClientBuilder::build_request
 props P23 P22
 spec <<<
    ensures
        built(*old(self), *final(self)), //P23
        r@ == target_of(cow_url(old(self).url)), //P23
        request_text(*final(self)).len() >= 0, // names the term the specifications of the callers look for
>>>
 start <<< proof { lemma_request_keys(); } >>>
@end
// ---- P22: the response
pub open spec fn good_response(q: Incoming<RawStatus>, key: Seq<u8>) -> bool {
    &&& q.subject.0 == 101
    &&& (hval::<WebSocketAccept>(q.headers@) matches Some(a) && a.ab() == ll::accept_of(key))
    &&& (hval::<Upgrade>(q.headers@) matches Some(p) && p.0@.len() == 1 && p.0@[0].name is WebSocket && p.0@[0].version is None)
    &&& (hval::<Connection>(q.headers@) matches Some(c) && conn_ok(c.0@))
}
/// P37: what the error about such a response says: its status, where it redirects to, or, with the right status, that a field is wrong
pub open spec fn refused_for(q: Incoming<RawStatus>, own_key: bool, e: WebSocketError) -> bool {
    if q.subject.0 == 101 {
        ||| exists|t: &'static str| e == #[trigger] other(WebSocketOtherError::ResponseError(t))
        ||| !own_key && exists|t: &'static str| e == #[trigger] other(WebSocketOtherError::RequestError(t))
    } else if 300 <= q.subject.0 <= 399 && hval::<Location>(q.headers@) is Some {
        exists|st: StatusCode, t: String| e == #[trigger] other(WebSocketOtherError::RedirectError(st, t)) && st.num() == q.subject.0 && t@ == (hval::<Location>(q.headers@)->0).0@
    } else {
        exists|st: StatusCode| e == #[trigger] other(WebSocketOtherError::StatusCodeError(st)) && st.num() == q.subject.0
    }
}
@fn ClientBuilder::validate
 props P22 P37
 params self response
 spec <<<
    ensures r is Ok <==> (hval::<WebSocketKey>(self.headers@) matches Some(k) && good_response(*response, k.kb())), //P22
        r matches Err(e) ==> refused_for(*response, hval::<WebSocketKey>(self.headers@) is Some, e), //P37
>>>
 start <<< broadcast use axiom_into_self; >>>
 closure 0 bool <<< ensures vx_q == conn_opt_ok(*$0) >>>
@end
/// P24 P06 P28: the client made of a stream that was connected
#[verifier::prophetic]
pub open spec fn connected<S: Stream>(a: ClientBuilder, b: ClientBuilder, s: S, c: Client<S>) -> bool {
    &&& built(a, b)
    &&& S::wrote(&s, &c.stream.inner(), encode_utf8(request_text(b))) //P23
    &&& exists|n: int, q: Incoming<RawStatus>| 0 <= n <= s.rem().len() && #[trigger] response_head(s.rem(), n, q) && c.headers == q.headers
        && (hval::<WebSocketKey>(b.headers@) matches Some(k) && good_response(q, k.kb())) && c.stream.rem() == s.rem().skip(n)
    &&& has_role(c, true, false) && c.receiver.buffer@.len() == 0
    &&& has_limits(c.receiver, a.max_dataframe_size, a.max_message_size)
}
/// P37: the cause named by the error of a failed connection over a stream
pub open spec fn cause<S: Stream>(b: ClientBuilder, s: S, e: WebSocketError) -> bool {
    // the request could not be written
    ||| !s.w_total() && exists|x: IoError| e == #[trigger] ws_of_io(x)
    // the response could not be read
    ||| head_unreadable(s.rem()) && exists|x: HyperError| e == #[trigger] other(WebSocketOtherError::HttpError(x))
    // it is not the one asked for
    ||| exists|n: int, q: Incoming<RawStatus>| #[trigger] response_head(s.rem(), n, q) && !(hval::<WebSocketKey>(b.headers@) matches Some(k) && good_response(q, k.kb())) && refused_for(q, hval::<WebSocketKey>(b.headers@) is Some, e)
}
/// nothing but a failing stream, an unreadable response or a bad one is in the way of a connection
pub open spec fn may_fail<S: Stream>(b: ClientBuilder, s: S) -> bool {
    !s.w_total() || head_unreadable(s.rem())
    || exists|n: int, q: Incoming<RawStatus>| #[trigger] response_head(s.rem(), n, q) && !(hval::<WebSocketKey>(b.headers@) matches Some(k) && good_response(q, k.kb()))
}
@fn ClientBuilder::connect_on
 props P22 P23 P24 P28 P06 P35 P37
 params self stream
 spec <<<
    ensures
        built(*old(self), *final(self)), //P23
        r matches Ok(c) ==> connected(*old(self), *final(self), stream, c), //P22 P23 P24 P28 P06 P35
        r is Err ==> may_fail(*final(self), stream), //P22
        r matches Err(e) ==> cause(*final(self), stream, e), //P37
>>>
 start <<<
    proof { S::always_wf(&stream); let z = Seq::<char>::empty(); assert forall|x: Seq<char>| #[trigger] (z + x) == x by { assert(z + x =~= x); } assert forall|a: &S, b: &S, d: Seq<u8>| #[trigger] S::wrote(a, b, d) implies a.rem() == b.rem() by { S::wrote_keeps_rem(a, b, d); }
    assert forall|a: &S, b: &S, c: &S, x: Seq<u8>| #[trigger] S::wrote(a, b, x) && #[trigger] S::wrote(b, c, Seq::<u8>::empty()) implies S::wrote(a, c, x) by { S::always_wf(a); S::wrote_trans(a, b, c, x, Seq::<u8>::empty()); assert(x + Seq::<u8>::empty() =~= x); } }
>>>
@end
// ---- P25: the endpoint
pub open spec fn secure_scheme(s: Seq<char>) -> bool { s == "wss"@ || s == "https"@ }
/// P37: a URL that names no host
pub open spec fn no_host(u: Url, e: WebSocketError) -> bool { u.s_host() is None && e == other(WebSocketOtherError::WebSocketUrlError(WSUrlErrorKind::NoHostName)) }
/// P37: connecting the socket fails
pub open spec fn no_socket(u: Url, secure: Option<bool>, e: WebSocketError) -> bool { exists|h: &str, p: u16, x: IoError| endpoint(u, secure, (h@, p)) && #[trigger] unreachable_with(h@, p, x) && e == ws_of_io(x) }
pub open spec fn tcp_cause(u: Url, secure: Option<bool>, e: WebSocketError) -> bool { no_host(u, e) || no_socket(u, secure, e) }
/// P37: the TLS session fails, or could not even be set up
pub open spec fn tls_cause(u: Url, e: WebSocketError) -> bool {
    ||| no_host(u, e)
    ||| exists|x: TlsError| #[trigger] no_connector(x) && e == other(WebSocketOtherError::TlsError(x))
    ||| exists|h: Seq<char>, x: TlsHandshakeError<TcpStream>| u.s_host() == Some(h) && #[trigger] no_session(h, x) && e == other(of_tls(x))
}
/// the port to connect to: the explicit one, else the one the scheme stands for, else what the caller asked for decides
pub open spec fn endpoint_port(u: Url, secure: Option<bool>) -> u16 {
    if u.s_port() is Some { u.s_port()->0 } else if known_port(u.s_scheme()) is Some { known_port(u.s_scheme())->0 } else if secure == Some(true) { 443 } else { 80 }
}
pub open spec fn endpoint(u: Url, secure: Option<bool>, p: (Seq<char>, u16)) -> bool { u.s_host() == Some(p.0) && p.1 == endpoint_port(u, secure) }
/// P25: with no explicit port a plain URL means port 80 and a secure one 443, whatever entry point is used
pub proof fn theorem_endpoint(u: Url, secure: Option<bool>) //P25
    requires u.s_port() is None
    ensures
        u.s_scheme() == "ws"@ ==> endpoint_port(u, secure) == 80, //P25
        u.s_scheme() == "wss"@ ==> endpoint_port(u, secure) == 443, //P25
        secure is None && secure_scheme(u.s_scheme()) ==> endpoint_port(u, secure) == 443, //P25
{ reveal_strlit("ws"); reveal_strlit("wss"); reveal_strlit("http"); reveal_strlit("https"); assert("ws"@.len() == 2 && "wss"@.len() == 3 && "http"@.len() == 4 && "https"@.len() == 5); }
@fn ClientBuilder::is_secure_url
 props P25
 spec <<< ensures r == secure_scheme(cow_url(self.url).s_scheme()), //P25
>>>
@end
@fn ClientBuilder::extract_host_port
 props P25 P37
 params self secure
 rettype WebSocketResult<HostAndPort<&str>>
 spec <<<
    ensures
        r is Ok <==> cow_url(self.url).s_host() is Some, //P25
        r matches Ok(hp) ==> endpoint(cow_url(self.url), secure, (hp.host@, hp.port)), //P25
        r matches Err(e) ==> no_host(cow_url(self.url), e), //P37
>>>
 start <<< broadcast use axiom_into_self; >>>
 closure 0 Result<u16,()> <<< ensures vx_q is Ok, known_port($0.s_scheme()) is None ==> vx_q == Ok::<u16, ()>(if secure == Some(true) { 443u16 } else { 80u16 }) >>>
@end
@fn ClientBuilder::establish_tcp
 props P25 P37
 params self secure
 spec <<<
    ensures
        *final(self) == *old(self), //P25
        r matches Ok(s) ==> endpoint(cow_url(old(self).url), secure, s.peer()), //P25
        r matches Err(e) ==> tcp_cause(cow_url(old(self).url), secure, e), //P37
>>>
@end
@fn ClientBuilder::extract_host_ssl_conn
 props P25 P37
 params self connector
 spec <<<
    ensures
        r matches Ok(x) ==> Some(x.0@) == cow_url(self.url).s_host(), //P25
        r matches Ok(x) ==> (connector matches Some(c) ==> x.1 == c) && (connector is None ==> x.1.is_default()), //P25
        r matches Err(e) ==> tls_cause(cow_url(self.url), e), //P37
>>>
 start <<< broadcast use axiom_into_self; >>>
@end
@fn ClientBuilder::wrap_ssl
 props P25 P37
 params self tcp_stream connector
 spec <<<
    ensures
        r matches Ok(t) ==> t.under() == tcp_stream && Some(t.domain()) == cow_url(self.url).s_host(), //P25
        r matches Err(e) ==> tls_cause(cow_url(self.url), e), //P37
>>>
@end
/// the transport of a connection: TLS exactly when asked for, to the endpoint of the URL
pub open spec fn transport(u: Url, s: BoxNet) -> bool {
    match s {
        BoxNet::Tls(t) => secure_scheme(u.s_scheme()) && Some(t.domain()) == u.s_host() && endpoint(u, None, t.under().peer()),
        BoxNet::Tcp(t) => !secure_scheme(u.s_scheme()) && endpoint(u, None, t.peer()),
    }
}
@fn ClientBuilder::connect
 props P25 P22 P23 P37
 params self ssl_config
 spec <<<
    ensures r matches Ok(c) ==> exists|s: BoxNet| transport(cow_url(old(self).url), s) && #[trigger] connected(*old(self), *final(self), s, c), //P25
        r matches Err(e) ==> {
            ||| tcp_cause(cow_url(old(self).url), None, e)
            ||| secure_scheme(cow_url(old(self).url).s_scheme()) && tls_cause(cow_url(old(self).url), e)
            ||| exists|s: BoxNet| transport(cow_url(old(self).url), s) && #[trigger] cause(*final(self), s, e)
        }, //P37
>>>
@end
@fn ClientBuilder::connect_insecure
 props P25 P22 P23 P37
 spec <<<
    ensures r matches Ok(c) ==> exists|s: TcpStream| endpoint(cow_url(old(self).url), Some(false), s.peer()) && #[trigger] connected(*old(self), *final(self), s, c), //P25
        r matches Err(e) ==> tcp_cause(cow_url(old(self).url), Some(false), e) || exists|s: TcpStream| endpoint(cow_url(old(self).url), Some(false), s.peer()) && #[trigger] cause(*final(self), s, e), //P37
>>>
@end
@fn ClientBuilder::connect_secure
 props P25 P22 P23 P37
 params self ssl_config
 spec <<<
    ensures r matches Ok(c) ==> exists|s: TlsStream<TcpStream>| Some(s.domain()) == cow_url(old(self).url).s_host() && endpoint(cow_url(old(self).url), Some(true), s.under().peer()) && #[trigger] connected(*old(self), *final(self), s, c), //P25
        r matches Err(e) ==> tcp_cause(cow_url(old(self).url), Some(true), e) || tls_cause(cow_url(old(self).url), e)
            || exists|s: TlsStream<TcpStream>| Some(s.domain()) == cow_url(old(self).url).s_host() && endpoint(cow_url(old(self).url), Some(true), s.under().peer()) && #[trigger] cause(*final(self), s, e), //P37
>>>
@end
