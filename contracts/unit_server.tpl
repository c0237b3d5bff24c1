// ===================================================================== src/server/mod.rs, src/server/sync.rs
pub mod srv {
use super::*;
use super::bld::*;
use super::upg::sync::*;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text};
// ---- std::net::TcpListener, native_tls::TlsAcceptor
pub struct SocketAddr { p: u8 }
pub trait ToSocketAddrs {}
impl<A: ToSocketAddrs> ToSocketAddrs for &A {}
#[verifier::external_body] pub struct TcpListener { p: u8 }
impl TcpListener {
    /// s is a connection somebody made to this listener's socket
    pub uninterp spec fn hands(&self, s: TcpStream) -> bool;
    /// taking a connection can fail with e
    pub uninterp spec fn fails(&self, e: IoError) -> bool;
    #[verifier::external_body]
    pub fn accept(&self) -> (r: IoResult<(TcpStream, SocketAddr)>) ensures match r { Ok(x) => self.hands(x.0), Err(e) => self.fails(e) } { unimplemented!() }
    pub uninterp spec fn bound_to<A>(&self, a: A) -> bool;
    #[verifier::external_body]
    pub fn bind<A: ToSocketAddrs>(a: A) -> (r: IoResult<TcpListener>) ensures r matches Ok(l) ==> l.bound_to(a) { unimplemented!() }
    /// another handle of the same socket
    #[verifier::external_body]
    pub fn try_clone(&self) -> (r: IoResult<TcpListener>) ensures r matches Ok(l) ==> forall|s: TcpStream| #[trigger] l.hands(s) == self.hands(s) { unimplemented!() }
}
#[verifier::external_body] pub struct TlsAcceptor { p: u8 }
impl TlsAcceptor {
    /// t is the TLS session this acceptor made of a connection
    pub uninterp spec fn made(&self, t: TlsStream<TcpStream>) -> bool;
    /// the TLS handshake on s can fail
    pub uninterp spec fn refuses(&self, s: TcpStream) -> bool;
    #[verifier::external_body]
    pub fn accept(&self, s: TcpStream) -> (r: Result<TlsStream<TcpStream>, TlsHandshakeError<TcpStream>>) ensures match r { Ok(t) => t.under() == s && self.made(t), Err(_) => self.refuses(s) } { unimplemented!() }
}
pub fn vx_io_wrap<E>(k: ErrorKind, e: E) -> (r: IoError) ensures r.k == k { IoError { k } }
impl VxConv<HyperIntoWsError> for IoError {
    open spec fn conv(self, t: HyperIntoWsError) -> bool { t == HyperIntoWsError::Io(self) }
    fn vx_conv(self) -> (r: HyperIntoWsError) { HyperIntoWsError::from(self) }
}
@file src/server/mod.rs
@struct NoTlsAcceptor
@trait OptionalTlsAcceptor
@endtrait
@impl OptionalTlsAcceptor for NoTlsAcceptor
@endimpl
@impl OptionalTlsAcceptor for TlsAcceptor
@endimpl
@struct InvalidConnection
@struct WsServer
impl Clone for NoTlsAcceptor { fn clone(&self) -> (r: NoTlsAcceptor) { NoTlsAcceptor } }
@file src/server/sync.rs
@method into => vx_conv
@path io::Error::new => vx_io_wrap
@path Iterator => VxIterator
use super::upg::sync::Upgrade;
pub type Server<S> = WsServer<S, TcpListener>;
pub type AcceptResult<S> = Result<Upgrade<S>, InvalidConnection<S, Buffer>>;
/// what went wrong, with all that is left of the connection
pub open spec fn gave_back<S: Stream>(c: InvalidConnection<S, Buffer>, e: (S, Option<Request>, Option<Buffer>, HyperIntoWsError)) -> bool {
    c.stream == Some(e.0) && c.parsed == e.1 && c.buffer == e.2 && c.error == e.3
}
/// there is no connection to give back, only an I/O error
pub open spec fn nothing_but<S: Stream>(c: InvalidConnection<S, Buffer>) -> bool { c.stream is None && c.parsed is None && c.buffer is None && c.error is Io }
/// P34: one call of `accept` without TLS
#[verifier::prophetic]
pub open spec fn accepted(l: TcpListener, r: AcceptResult<TcpStream>) -> bool {
    match r {
        Ok(u) => exists|s: TcpStream| #[trigger] l.hands(s) && s.into_rel(Ok(u)),
        Err(c) => {
            ||| nothing_but(c) && l.fails(c.error->Io_0)
            ||| exists|s: TcpStream, e: (TcpStream, Option<Request>, Option<Buffer>, HyperIntoWsError)| #[trigger] l.hands(s) && #[trigger] s.into_rel(Err(e)) && gave_back(c, e)
        }
    }
}
/// P34: one call of `accept` with TLS: the handshake runs inside the TLS session, never on the connection itself
#[verifier::prophetic]
pub open spec fn accepted_tls(l: TcpListener, a: TlsAcceptor, r: AcceptResult<TlsStream<TcpStream>>) -> bool {
    match r {
        Ok(u) => exists|t: TlsStream<TcpStream>| #[trigger] a.made(t) && l.hands(t.under()) && t.into_rel(Ok(u)),
        Err(c) => {
            ||| nothing_but(c) && (l.fails(c.error->Io_0) || exists|s: TcpStream| #[trigger] l.hands(s) && a.refuses(s))
            ||| exists|t: TlsStream<TcpStream>, e: (TlsStream<TcpStream>, Option<Request>, Option<Buffer>, HyperIntoWsError)| #[trigger] a.made(t) && l.hands(t.under()) && #[trigger] t.into_rel(Err(e)) && gave_back(c, e)
        }
    }
}
@fn WsServer<TlsAcceptor, TcpListener>::accept
 props P34
 spec <<<
    ensures
        *final(self) == *old(self), //P34
        accepted_tls(old(self).listener, old(self).ssl_acceptor, r), //P34
>>>
@end
@fn WsServer<NoTlsAcceptor, TcpListener>::accept
 props P34
 spec <<<
    ensures
        *final(self) == *old(self), //P34
        accepted(old(self).listener, r), //P34
>>>
@end
@fn WsServer<NoTlsAcceptor, TcpListener>::try_clone
 props P34
 spec <<< ensures r matches Ok(v) ==> forall|s: TcpStream| #[trigger] v.listener.hands(s) == self.listener.hands(s), //P34
>>>
@end
@impl Iterator for WsServer<NoTlsAcceptor, TcpListener>
fn next
 props P34
 spec <<<
    ensures
        *final(self) == *old(self), //P34
        r matches Some(x) && accepted(old(self).listener, x), //P34
>>>
@end
@endimpl
@impl Iterator for WsServer<TlsAcceptor, TcpListener>
fn next
 props P34
 spec <<<
    ensures
        *final(self) == *old(self), //P34
        r matches Some(x) && accepted_tls(old(self).listener, old(self).ssl_acceptor, x), //P34
>>>
@end
@endimpl
@fn WsServer<NoTlsAcceptor, TcpListener>::bind
 props P34
 spec <<< ensures r matches Ok(v) ==> v.listener.bound_to(&addr), //P34
>>>
@end
@fn WsServer<TlsAcceptor, TcpListener>::bind_secure
 props P34
 params addr acceptor
 spec <<< ensures r matches Ok(v) ==> v.listener.bound_to(&addr) && v.ssl_acceptor == acceptor, //P34
>>>
@end
}
