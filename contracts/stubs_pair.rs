// =====================================================================================================
// Trusted stubs for websocket-base/src/stream.rs: std::io::Read / Write and tokio's AsyncWrite as relations
// between the state before a call, the state after it, its arguments and its result. Nothing is assumed
// about these relations: what a ReadWritePair does has to be what its halves do, whatever that is.
// =====================================================================================================
#[verifier::external_body]
pub struct IoError { p: u8 }
pub type IoResult<T> = Result<T, IoError>;
#[verifier::external_body]
pub struct Arguments { p: u8 }
pub enum Async<T> { Ready(T), NotReady }
pub type Poll<T, E> = Result<Async<T>, E>;
pub trait Read: Sized {
    #[verifier::prophetic]
    spec fn did_read(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic]
    spec fn did_read_to_end(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic]
    spec fn did_read_to_string(a: &Self, b: &Self, old_buf: Seq<char>, new_buf: Seq<char>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic]
    spec fn did_read_exact(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<()>) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>) ensures Self::did_read(old(self), final(self), old(buf)@, final(buf)@, r); //P30
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: IoResult<usize>) ensures Self::did_read_to_end(old(self), final(self), old(buf)@, final(buf)@, r); //P30
    fn read_to_string(&mut self, buf: &mut String) -> (r: IoResult<usize>) ensures Self::did_read_to_string(old(self), final(self), old(buf)@, final(buf)@, r); //P30
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>) ensures Self::did_read_exact(old(self), final(self), old(buf)@, final(buf)@, r); //P30
}
pub trait Write: Sized {
    #[verifier::prophetic]
    spec fn did_write(a: &Self, b: &Self, buf: Seq<u8>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic]
    spec fn did_flush(a: &Self, b: &Self, r: IoResult<()>) -> bool;
    #[verifier::prophetic]
    spec fn did_write_all(a: &Self, b: &Self, buf: Seq<u8>, r: IoResult<()>) -> bool;
    #[verifier::prophetic]
    spec fn did_write_fmt(a: &Self, b: &Self, f: Arguments, r: IoResult<()>) -> bool;
    fn write(&mut self, buf: &[u8]) -> (r: IoResult<usize>) ensures Self::did_write(old(self), final(self), buf@, r); //P30
    fn flush(&mut self) -> (r: IoResult<()>) ensures Self::did_flush(old(self), final(self), r); //P30
    fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>) ensures Self::did_write_all(old(self), final(self), buf@, r); //P30
    fn write_fmt(&mut self, fmt: Arguments) -> (r: IoResult<()>) ensures Self::did_write_fmt(old(self), final(self), fmt, r); //P30
}
pub trait AsyncRead: Read {}
pub trait AsyncWrite: Write {
    #[verifier::prophetic]
    spec fn did_shutdown(a: &Self, b: &Self, r: Poll<(), IoError>) -> bool;
    fn shutdown(&mut self) -> (r: Poll<(), IoError>) ensures Self::did_shutdown(old(self), final(self), r); //P30
}
pub mod io { pub use super::{IoError as Error, IoResult as Result}; }
/// std::net::TcpStream; `conn()` names the connection the handle belongs to
#[verifier::external_body]
pub struct TcpStream { p: u8 }
impl TcpStream {
    pub uninterp spec fn conn(&self) -> int;
    #[verifier::external_body]
    pub fn try_clone(&self) -> (r: IoResult<TcpStream>) ensures r matches Ok(s) ==> s.conn() == self.conn() { unimplemented!() }
}
pub trait VxTcpIo {}
impl Read for TcpStream {
    #[verifier::prophetic] uninterp spec fn did_read(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic] uninterp spec fn did_read_to_end(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic] uninterp spec fn did_read_to_string(a: &Self, b: &Self, old_buf: Seq<char>, new_buf: Seq<char>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic] uninterp spec fn did_read_exact(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<()>) -> bool;
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_to_string(&mut self, buf: &mut String) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>) { unimplemented!() }
}
impl Write for TcpStream {
    #[verifier::prophetic] uninterp spec fn did_write(a: &Self, b: &Self, buf: Seq<u8>, r: IoResult<usize>) -> bool;
    #[verifier::prophetic] uninterp spec fn did_flush(a: &Self, b: &Self, r: IoResult<()>) -> bool;
    #[verifier::prophetic] uninterp spec fn did_write_all(a: &Self, b: &Self, buf: Seq<u8>, r: IoResult<()>) -> bool;
    #[verifier::prophetic] uninterp spec fn did_write_fmt(a: &Self, b: &Self, f: Arguments, r: IoResult<()>) -> bool;
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body] fn write_fmt(&mut self, fmt: Arguments) -> (r: IoResult<()>) { unimplemented!() }
}
/// equality in the contract of a closure whose type is left to inference
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
