//! Streams that cut, fail and record.
use std::io::{self, Read, Write};

/// Delivers `data` in pieces of the given sizes (cycled), then EOF or an error at `fail_at`.
pub struct ChunkReader { pub data: Vec<u8>, pub pos: usize, pub sizes: Vec<usize>, pub i: usize, pub fail_at: Option<(usize, io::ErrorKind)>, pub intr: bool, pub max_req: usize }
impl ChunkReader {
    pub fn new(data: Vec<u8>, sizes: Vec<usize>) -> Self { ChunkReader { data, pos: 0, sizes, i: 0, fail_at: None, intr: false, max_req: 0 } }
    pub fn all(data: Vec<u8>) -> Self { Self::new(data, vec![usize::MAX]) }
}
impl Read for ChunkReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.max_req = self.max_req.max(b.len());
        if b.is_empty() { return Ok(0); }
        self.i += 1;
        if self.intr && self.i % 3 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let mut lim = self.data.len();
        if let Some((at, k)) = self.fail_at { if self.pos >= at { return Err(io::Error::new(k, "injected")); } lim = lim.min(at); }
        let s = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.i % self.sizes.len()].max(1) };
        let n = b.len().min(s).min(lim - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts short pieces, may fail at a byte position, records what it accepted.
pub struct ShortWriter { pub out: Vec<u8>, pub sizes: Vec<usize>, pub i: usize, pub fail_calls: Vec<usize>, pub kind: io::ErrorKind, pub flushed: usize }
impl ShortWriter {
    pub fn new(sizes: Vec<usize>) -> Self { ShortWriter { out: vec![], sizes, i: 0, fail_calls: vec![], kind: io::ErrorKind::Other, flushed: 0 } }
}
impl Write for ShortWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.i += 1;
        if self.fail_calls.contains(&self.i) { return Err(io::Error::new(self.kind, "injected")); }
        if b.is_empty() { return Ok(0); }
        let s = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.i % self.sizes.len()] };
        let n = b.len().min(s);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushed += 1; Ok(()) }
}

use std::sync::{Arc, Mutex};
use websocket::stream::ReadWritePair;
pub type Out = Arc<Mutex<Vec<u8>>>;
/// Read half: fixed bytes, or bytes computed from what was written when the first read happens.
pub struct Src { pub data: Vec<u8>, pub pos: usize, pub sizes: Vec<usize>, pub i: usize, pub responder: Option<Box<dyn FnMut(&[u8]) -> Vec<u8> + Send>>, pub out: Out, pub wb: bool }
pub struct Snk { pub out: Out, pub sizes: Vec<usize>, pub i: usize, pub wb: bool, pub fail_after: Option<usize> }
pub type Pair = ReadWritePair<Src, Snk>;
pub fn pair(data: Vec<u8>, rs: Vec<usize>, ws: Vec<usize>, wb: bool) -> (Pair, Out) {
    let out: Out = Arc::new(Mutex::new(vec![]));
    (ReadWritePair(Src { data, pos: 0, sizes: rs, i: 0, responder: None, out: out.clone(), wb }, Snk { out: out.clone(), sizes: ws, i: 0, wb, fail_after: None }), out)
}
fn would_block() -> io::Error { futures::task::current().notify(); io::ErrorKind::WouldBlock.into() }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        self.i += 1;
        if self.wb && self.i % 3 == 1 { return Err(would_block()); }
        if let Some(mut f) = self.responder.take() { let o = self.out.lock().unwrap().clone(); self.data = f(&o); }
        let s = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.i % self.sizes.len()].max(1) };
        let n = b.len().min(s).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Snk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.i += 1;
        if self.wb && self.i % 3 == 1 { return Err(would_block()); }
        if b.is_empty() { return Ok(0); }
        let mut o = self.out.lock().unwrap();
        let s = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.i % self.sizes.len()].max(1) };
        let mut n = b.len().min(s);
        if let Some(k) = self.fail_after { if o.len() >= k { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected")); } n = n.min(k - o.len()); }
        o.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl tokio_io::AsyncRead for Src {}
impl tokio_io::AsyncWrite for Snk { fn shutdown(&mut self) -> futures::Poll<(), io::Error> { Ok(().into()) } }
/// one stream for hyper's own server
pub struct Net(pub Src, pub Snk);
impl Read for Net { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Write for Net { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.1.write(b) } fn flush(&mut self) -> io::Result<()> { self.1.flush() } }
impl hyper::net::NetworkStream for Net {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> { Ok(([127, 0, 0, 1], 9).into()) }
    fn set_read_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
}
