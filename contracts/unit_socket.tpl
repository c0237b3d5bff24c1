// ===================================================================== P36: the socket under a connection
pub mod sock {
use super::*;
use super::bld::*;
use super::srv::*;
use super::upg::sync::*;
// ---- Trusted stubs: std::net::TcpStream, TcpListener, native_tls::TlsStream. `did(o, r)`: operation o on this socket has result r.
pub enum Shutdown { Read, Write, Both }
pub enum SockOp { Shutdown(Shutdown), NoDelay(bool), NonBlocking(bool) }
impl TcpStream {
    pub uninterp spec fn did(&self, o: SockOp, r: IoResult<()>) -> bool;
    /// true: the peer's address, false: this side's
    pub uninterp spec fn at(&self, peer: bool, r: IoResult<SocketAddr>) -> bool;
    #[verifier::external_body]
    pub fn shutdown(&self, how: Shutdown) -> (r: IoResult<()>) ensures self.did(SockOp::Shutdown(how), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_nodelay(&self, b: bool) -> (r: IoResult<()>) ensures self.did(SockOp::NoDelay(b), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_nonblocking(&self, b: bool) -> (r: IoResult<()>) ensures self.did(SockOp::NonBlocking(b), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn peer_addr(&self) -> (r: IoResult<SocketAddr>) ensures self.at(true, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: IoResult<SocketAddr>) ensures self.at(false, r) { unimplemented!() }
}
impl TcpListener {
    pub uninterp spec fn did(&self, o: SockOp, r: IoResult<()>) -> bool;
    pub uninterp spec fn at(&self, r: IoResult<SocketAddr>) -> bool;
    #[verifier::external_body]
    pub fn set_nonblocking(&self, b: bool) -> (r: IoResult<()>) ensures self.did(SockOp::NonBlocking(b), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: IoResult<SocketAddr>) ensures self.at(r) { unimplemented!() }
}
impl<T> TlsStream<T> {
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &T) ensures *r == self.under() { unimplemented!() }
}
@file websocket-base/src/stream.rs
@mod sync
@trait AsTcpStream
extra <<<
    /// the socket everything this stream carries goes through
    spec fn tcp(&self) -> TcpStream;
>>>
fn as_tcp
 props P36
 spec <<< ensures *r == self.tcp(), //P36
>>>
@end
@endtrait
@impl AsTcpStream for TcpStream
extra <<<
    open spec fn tcp(&self) -> TcpStream { *self }
>>>
fn as_tcp
 props P36
@end
@endimpl
@impl AsTcpStream for TlsStream<TcpStream>
extra <<<
    open spec fn tcp(&self) -> TcpStream { self.under() }
>>>
fn as_tcp
 props P36
@end
@endimpl
/// std::ops::Deref::deref of a box
pub trait VxDeref { type T; spec fn target(&self) -> Self::T; fn vx_deref(&self) -> (r: &Self::T) ensures *r == self.target(); }
impl<T> VxDeref for Box<T> { type T = T; open spec fn target(&self) -> T { **self } fn vx_deref(&self) -> (r: &T) { &**self } }
@method deref => vx_deref
@impl AsTcpStream for Box<T>
header <<< impl<T: AsTcpStream> AsTcpStream for Box<T> { >>>
extra <<<
    open spec fn tcp(&self) -> TcpStream { (**self).tcp() }
>>>
fn as_tcp
 props P36
@end
@endimpl
@file src/client/sync.rs
@fn Client<TcpStream>::shutdown_sender
 props P36
 spec <<< ensures self.stream.inner().did(SockOp::Shutdown(Shutdown::Write), r), //P36
>>>
@end
@fn Client<TcpStream>::shutdown_receiver
 props P36
 spec <<< ensures self.stream.inner().did(SockOp::Shutdown(Shutdown::Read), r), //P36
>>>
@end
@fn Client::shutdown
 props P36
 spec <<< ensures self.stream.inner().tcp().did(SockOp::Shutdown(Shutdown::Both), r), //P36
>>>
@end
@fn Client::peer_addr
 props P36
 spec <<< ensures self.stream.inner().tcp().at(true, r), //P36
>>>
@end
@fn Client::local_addr
 props P36
 spec <<< ensures self.stream.inner().tcp().at(false, r), //P36
>>>
@end
@fn Client::set_nodelay
 props P36
 params self nodelay
 spec <<< ensures old(self).stream.inner().tcp().did(SockOp::NoDelay(nodelay), r), *final(self) == *old(self), //P36
>>>
@end
@fn Client::set_nonblocking
 props P36
 params self nonblocking
 spec <<< ensures self.stream.inner().tcp().did(SockOp::NonBlocking(nonblocking), r), //P36
>>>
@end
@file src/receiver.rs
@fn Reader::shutdown
 props P36
 spec <<< ensures self.stream.inner().tcp().did(SockOp::Shutdown(Shutdown::Read), r), //P36
>>>
@end
@fn Reader::shutdown_all
 props P36
 spec <<< ensures self.stream.inner().tcp().did(SockOp::Shutdown(Shutdown::Both), r), //P36
>>>
@end
@file src/sender.rs
@fn Writer::shutdown
 props P36
 spec <<< ensures self.stream.tcp().did(SockOp::Shutdown(Shutdown::Write), r), //P36
>>>
@end
@fn Writer::shutdown_all
 props P36
 spec <<< ensures self.stream.tcp().did(SockOp::Shutdown(Shutdown::Both), r), //P36
>>>
@end
@file src/server/upgrade/sync.rs
@fn WsUpgrade::tcp_stream
 props P36
 spec <<< ensures *r == self.stream.tcp(), //P36
>>>
@end
@file src/server/sync.rs
@fn WsServer<S, TcpListener>::local_addr
 props P36
 spec <<< ensures self.listener.at(r), //P36
>>>
@end
@fn WsServer<S, TcpListener>::set_nonblocking
 props P36
 params self nonblocking
 spec <<< ensures self.listener.did(SockOp::NonBlocking(nonblocking), r), //P36
>>>
@end
}
