// ===================================================================== src/server/async.rs
pub mod asrv {
use super::*;
use super::bld::*;
use super::abld::*;
use super::aupg::*;
use super::srv::{WsServer, NoTlsAcceptor, OptionalTlsAcceptor, InvalidConnection, TlsAcceptor, vx_io_wrap, ToSocketAddrs, SocketAddr};
use super::aupg::{Upgrade, IntoWs};
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_string_len, vxh::axiom_typed_cell, vxh::axiom_raw_cell, vxb::lemma_utf8_text};
// ---- futures::Stream: a stream is described by the items and errors it can produce
pub trait Items: Sized {
    type Item;
    type Error;
    spec fn yields(&self, r: Result<Self::Item, Self::Error>) -> bool;
}
pub trait VxStream: Items {
    #[verifier::external_body]
    fn map_err<T, F: Fn(Self::Error) -> T>(self, f: F) -> (m: BoxStream<Self::Item, T>)
        requires forall|x: Self::Error| self.yields(Err(x)) ==> call_requires(f, (x,))
        ensures
            forall|r: Result<Self::Item, T>| #[trigger] m.yields(r) ==> match r {
                Err(y) => exists|x: Self::Error| #[trigger] self.yields(Err(x)) && call_ensures(f, (x,), y),
                Ok(x) => self.yields(Ok(x)),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn and_then<B: IntoFuture<Error = Self::Error>, F: Fn(Self::Item) -> B>(self, f: F) -> (m: BoxStream<B::Item, Self::Error>)
        requires forall|x: Self::Item| self.yields(Ok(x)) ==> call_requires(f, (x,))
        ensures
            forall|r: Result<B::Item, Self::Error>| #[trigger] m.yields(r) ==> {
                ||| exists|x: Self::Item, b: B| #[trigger] self.yields(Ok(x)) && #[trigger] call_ensures(f, (x,), b) && b.settles(r)
                ||| (r matches Err(e) && self.yields(Err(e)))
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn buffer_unordered(self, n: usize) -> (m: BoxStream<<Self::Item as IntoFuture>::Item, Self::Error>) where Self::Item: IntoFuture<Error = Self::Error>
        ensures
            forall|r: Result<<Self::Item as IntoFuture>::Item, Self::Error>| #[trigger] m.yields(r) ==> {
                ||| exists|x: Self::Item| #[trigger] self.yields(Ok(x)) && x.settles(r)
                ||| (r matches Err(e) && self.yields(Err(e)))
            },
    { unimplemented!() }
}
impl<F: Items> VxStream for F {}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct BoxStream<I, E> { p: core::marker::PhantomData<(I, E)> }
impl<I, E> Items for BoxStream<I, E> { type Item = I; type Error = E; uninterp spec fn yields(&self, r: Result<I, E>) -> bool; }
// ---- tokio-tcp, tokio-tls
#[verifier::external_body] pub struct Handle { p: u8 }
#[verifier::external_body] pub struct TokListener { p: u8 }
impl TokListener {
    pub uninterp spec fn hands(&self, s: TokTcp) -> bool;
    pub uninterp spec fn fails(&self, e: IoError) -> bool;
    pub uninterp spec fn native(&self) -> super::srv::TcpListener;
    #[verifier::external_body]
    pub fn incoming(self) -> (m: BoxStream<TokTcp, IoError>) ensures forall|r: Result<TokTcp, IoError>| #[trigger] m.yields(r) ==> match r { Ok(s) => self.hands(s), Err(e) => self.fails(e) } { unimplemented!() }
    pub uninterp spec fn at(&self, r: IoResult<SocketAddr>) -> bool;
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: IoResult<SocketAddr>) ensures self.at(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_std(l: super::srv::TcpListener, h: &Handle) -> (r: IoResult<TokListener>) ensures r matches Ok(x) ==> x.native() == l { unimplemented!() }
}
impl TokTcp {
    /// who is at the other end
    pub uninterp spec fn from_peer(&self, a: SocketAddr) -> bool;
    pub uninterp spec fn no_peer(&self, e: IoError) -> bool;
    #[verifier::external_body]
    pub fn peer_addr(&self) -> (r: IoResult<SocketAddr>) ensures match r { Ok(a) => self.from_peer(a), Err(e) => self.no_peer(e) } { unimplemented!() }
}
/// t is a TLS session this acceptor made of a connection; this acceptor can refuse s
pub uninterp spec fn a_made(a: TlsAcceptor, t: TokTls<TokTcp>) -> bool;
pub uninterp spec fn a_refuses(a: TlsAcceptor, s: TokTcp) -> bool;
#[verifier::external_body] pub struct TokAcceptor { p: u8 }
impl TokAcceptor {
    pub uninterp spec fn native(&self) -> TlsAcceptor;
    #[verifier::external_body]
    pub fn from(c: TlsAcceptor) -> (r: TokAcceptor) ensures r.native() == c { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self, s: TokTcp) -> (f: BoxFuture<TokTls<TokTcp>, TlsError>) ensures forall|r: Result<TokTls<TokTcp>, TlsError>| #[trigger] f.outcome(r) ==> match r { Ok(t) => t.under() == s && a_made(self.native(), t), Err(_) => a_refuses(self.native(), s) } { unimplemented!() }
}
pub trait VxBoxedStream: Sized { type Out; spec fn boxed(self, o: Self::Out) -> bool; fn vx_sbox(self) -> (o: Self::Out) ensures self.boxed(o); }
impl<F: Items> VxBoxedStream for F {
    type Out = BoxStream<F::Item, F::Error>;
    open spec fn boxed(self, o: Self::Out) -> bool { forall|r: Result<F::Item, F::Error>| #[trigger] o.yields(r) ==> self.yields(r) }
    #[verifier::external_body]
    fn vx_sbox(self) -> (o: Self::Out) { unimplemented!() }
}
pub fn vx_sboxed<T: VxBoxedStream>(t: T) -> (o: T::Out) ensures t.boxed(o) { t.vx_sbox() }
pub trait VxConvH { fn vx_convh(self) -> HyperIntoWsError; }
pub fn vx_hinto(e: IoError) -> (r: HyperIntoWsError) ensures r == HyperIntoWsError::Io(e) { HyperIntoWsError::from(e) }
pub trait VxIntoH: Sized { spec fn is_h(self, h: HyperIntoWsError) -> bool; fn vx_into_h(self) -> (r: HyperIntoWsError) ensures self.is_h(r); }
impl VxIntoH for IoError { open spec fn is_h(self, h: HyperIntoWsError) -> bool { h == HyperIntoWsError::Io(self) } fn vx_into_h(self) -> (r: HyperIntoWsError) { HyperIntoWsError::from(self) } }
@file src/server/async.rs
@method into => vx_into_h
@path io::Error::new => vx_io_wrap
@path futures::future::ok => future::ok
@path std::usize::MAX => usize::MAX
@path Box::new => vx_sboxed
@path TcpListener => TokListener
@path ::std::net::TcpListener => super::srv::TcpListener
@path TcpStream => TokTcp
@path TlsStream => TokTls
@path TlsAcceptorExt => TokAcceptor
pub type Server<S> = WsServer<S, TokListener>;
pub type Bad<S> = InvalidConnection<S, BytesMut>;
pub type Item<S> = Result<(Upgrade<S>, SocketAddr), Bad<S>>;
pub type Incoming<S> = BoxStream<(Upgrade<S>, SocketAddr), Bad<S>>;
pub open spec fn gave_back<S: AStream>(c: Bad<S>, e: (S, Option<Request>, BytesMut, HyperIntoWsError)) -> bool {
    c.stream == Some(e.0) && c.parsed == e.1 && c.buffer == Some(e.2) && c.error == e.3
}
pub open spec fn nothing_but<S: AStream>(c: Bad<S>) -> bool { c.stream is None && c.parsed is None && c.buffer is None && c.error is Io }
/// no connection was taken: the listener failed, or the connection was gone before its peer could be named
pub open spec fn not_taken<S: AStream>(l: TokListener, c: Bad<S>) -> bool {
    nothing_but(c) && (l.fails(c.error->Io_0) || exists|s: TokTcp| #[trigger] l.hands(s) && s.no_peer(c.error->Io_0))
}
/// P34: one item of `incoming` without TLS
pub open spec fn incoming_rel(l: TokListener, r: Item<TokTcp>) -> bool {
    match r {
        Ok(x) => exists|s: TokTcp| #[trigger] l.hands(s) && s.from_peer(x.1) && s.into_rel(Ok(x.0)),
        Err(c) => not_taken(l, c) || exists|s: TokTcp, e: (TokTcp, Option<Request>, BytesMut, HyperIntoWsError)| #[trigger] l.hands(s) && #[trigger] s.into_rel(Err(e)) && gave_back(c, e),
    }
}
/// P34: one item of `incoming` with TLS: the handshake runs inside the TLS session, never on the connection itself
pub open spec fn incoming_tls_rel(l: TokListener, a: TlsAcceptor, r: Item<TokTls<TokTcp>>) -> bool {
    match r {
        Ok(x) => exists|t: TokTls<TokTcp>| #[trigger] a_made(a, t) && l.hands(t.under()) && t.under().from_peer(x.1) && t.into_rel(Ok(x.0)),
        Err(c) => {
            ||| not_taken(l, c)
            ||| nothing_but(c) && exists|s: TokTcp| #[trigger] l.hands(s) && a_refuses(a, s)
            ||| exists|t: TokTls<TokTcp>, e: (TokTls<TokTcp>, Option<Request>, BytesMut, HyperIntoWsError)| #[trigger] a_made(a, t) && l.hands(t.under()) && #[trigger] t.into_rel(Err(e)) && gave_back(c, e)
        }
    }
}
@fn WsServer<S, TcpListener>::local_addr
 props P36
 spec <<< ensures self.listener.at(r), //P36
>>>
@end
@fn WsServer<NoTlsAcceptor, TcpListener>::incoming
 props P34
 spec <<< ensures forall|x: Item<TokTcp>| #[trigger] r.yields(x) ==> incoming_rel(self.listener, x), //P34
>>>
 closure 0 IoResult<(TokTcp, SocketAddr)> <<< ensures match vx_q { Ok(vx_x) => vx_x.0 == $0 && $0.from_peer(vx_x.1), Err(vx_e) => $0.no_peer(vx_e) } >>>
 closure 1 (TokTcp, SocketAddr) <<< ensures vx_q == (s, $0) >>>
 closure 2 Bad<TokTcp> <<< ensures nothing_but(vx_q), vx_q.error == HyperIntoWsError::Io($0) >>>
 closure 3 FutureResult<BoxFuture<(Upgrade<TokTcp>, SocketAddr), Bad<TokTcp>>, Bad<TokTcp>> <<<
    ensures forall|vx_f: BoxFuture<(Upgrade<TokTcp>, SocketAddr), Bad<TokTcp>>, vx_r: Item<TokTcp>| #[trigger] vx_q.settles(Ok(vx_f)) && #[trigger] vx_f.outcome(vx_r) ==> match vx_r {
        Ok(vx_x) => vx_x.1 == $0.1 && $0.0.into_rel(Ok(vx_x.0)),
        Err(vx_c) => exists|vx_e: (TokTcp, Option<Request>, BytesMut, HyperIntoWsError)| #[trigger] $0.0.into_rel(Err(vx_e)) && gave_back(vx_c, vx_e),
    }, vx_q.r is Ok
>>>
 closure 4 Bad<TokTcp> <<< ensures gave_back(vx_q, $0) >>>
 closure 5 (Upgrade<TokTcp>, SocketAddr) <<< ensures vx_q == ($0, a) >>>
@end
@fn WsServer<TlsAcceptor, TcpListener>::incoming
 props P34
 spec <<< ensures forall|x: Item<TokTls<TokTcp>>| #[trigger] r.yields(x) ==> incoming_tls_rel(self.listener, self.ssl_acceptor, x), //P34
>>>
 closure 0 IoResult<(TokTcp, SocketAddr)> <<< ensures match vx_q { Ok(vx_x) => vx_x.0 == $0 && $0.from_peer(vx_x.1), Err(vx_e) => $0.no_peer(vx_e) } >>>
 closure 1 (TokTcp, SocketAddr) <<< ensures vx_q == (s, $0) >>>
 closure 2 Bad<TokTls<TokTcp>> <<< ensures nothing_but(vx_q), vx_q.error == HyperIntoWsError::Io($0) >>>
 closure 3 FutureResult<BoxFuture<(Upgrade<TokTls<TokTcp>>, SocketAddr), Bad<TokTls<TokTcp>>>, Bad<TokTls<TokTcp>>> <<<
    ensures forall|vx_f: BoxFuture<(Upgrade<TokTls<TokTcp>>, SocketAddr), Bad<TokTls<TokTcp>>>, vx_r: Item<TokTls<TokTcp>>| #[trigger] vx_q.settles(Ok(vx_f)) && #[trigger] vx_f.outcome(vx_r) ==> match vx_r {
        Ok(vx_x) => vx_x.1 == $0.1 && exists|vx_t: TokTls<TokTcp>| #[trigger] a_made(acceptor.native(), vx_t) && vx_t.under() == $0.0 && vx_t.into_rel(Ok(vx_x.0)),
        Err(vx_c) => {
            ||| nothing_but(vx_c) && a_refuses(acceptor.native(), $0.0)
            ||| exists|vx_t: TokTls<TokTcp>, vx_e: (TokTls<TokTcp>, Option<Request>, BytesMut, HyperIntoWsError)| #[trigger] a_made(acceptor.native(), vx_t) && vx_t.under() == $0.0 && #[trigger] vx_t.into_rel(Err(vx_e)) && gave_back(vx_c, vx_e)
        }
    }, vx_q.r is Ok
>>>
 closure 4 Bad<TokTls<TokTcp>> <<< ensures nothing_but(vx_q) >>>
 closure 5 BoxFuture<(Upgrade<TokTls<TokTcp>>, SocketAddr), Bad<TokTls<TokTcp>>> <<<
    ensures forall|vx_r: Item<TokTls<TokTcp>>| #[trigger] vx_q.outcome(vx_r) ==> match vx_r {
        Ok(vx_x) => vx_x.1 == a && $0.into_rel(Ok(vx_x.0)),
        Err(vx_c) => exists|vx_e: (TokTls<TokTcp>, Option<Request>, BytesMut, HyperIntoWsError)| #[trigger] $0.into_rel(Err(vx_e)) && gave_back(vx_c, vx_e),
    }
>>>
 closure 6 Bad<TokTls<TokTcp>> <<< ensures gave_back(vx_q, $0) >>>
 closure 7 (Upgrade<TokTls<TokTcp>>, SocketAddr) <<< ensures vx_q == ($0, a) >>>
@end
@fn WsServer<NoTlsAcceptor, TcpListener>::bind
 props P34
 params addr handle
 spec <<< ensures r matches Ok(v) ==> v.listener.native().bound_to(addr), //P34
>>>
@end
@fn WsServer<TlsAcceptor, TcpListener>::bind_secure
 props P34
 params addr acceptor handle
 spec <<< ensures r matches Ok(v) ==> v.listener.native().bound_to(addr) && v.ssl_acceptor == acceptor, //P34
>>>
@end
}
pub mod asrv_conv {
use super::*;
use super::srv::*;
use super::asrv::{TokListener, Handle};
@file src/server/sync.rs
@path AsyncTcpListener => TokListener
@type r#async::Server<S> => WsServer<S, TokListener>
@fn WsServer<S, TcpListener>::into_async
 props P34
 params self handle
 spec <<< ensures r matches Ok(v) ==> v.listener.native() == self.listener && v.ssl_acceptor == self.ssl_acceptor, //P34
>>>
@end
}
