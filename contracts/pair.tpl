#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types)]
use vstd::prelude::*;
verus! {
@@include stubs_pair.rs
// ===================================================================== websocket-base/src/stream.rs
@file websocket-base/src/stream.rs
@struct ReadWritePair
/// P30: a read of the pair is a read of its reader and leaves the writer alone
@impl Read for ReadWritePair
extra <<<
    #[verifier::prophetic]
    open spec fn did_read(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<usize>) -> bool { R::did_read(&a.0, &b.0, old_buf, new_buf, r) && b.1 == a.1 }
    #[verifier::prophetic]
    open spec fn did_read_to_end(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<usize>) -> bool { R::did_read_to_end(&a.0, &b.0, old_buf, new_buf, r) && b.1 == a.1 }
    #[verifier::prophetic]
    open spec fn did_read_to_string(a: &Self, b: &Self, old_buf: Seq<char>, new_buf: Seq<char>, r: IoResult<usize>) -> bool { R::did_read_to_string(&a.0, &b.0, old_buf, new_buf, r) && b.1 == a.1 }
    #[verifier::prophetic]
    open spec fn did_read_exact(a: &Self, b: &Self, old_buf: Seq<u8>, new_buf: Seq<u8>, r: IoResult<()>) -> bool { R::did_read_exact(&a.0, &b.0, old_buf, new_buf, r) && b.1 == a.1 }
>>>
fn read
 props P30
@end
fn read_to_end
 props P30
@end
fn read_to_string
 props P30
@end
fn read_exact
 props P30
@end
@endimpl
/// P30: a write, a flush of the pair is one of its writer and leaves the reader alone
@impl Write for ReadWritePair
extra <<<
    #[verifier::prophetic]
    open spec fn did_write(a: &Self, b: &Self, buf: Seq<u8>, r: IoResult<usize>) -> bool { W::did_write(&a.1, &b.1, buf, r) && b.0 == a.0 }
    #[verifier::prophetic]
    open spec fn did_flush(a: &Self, b: &Self, r: IoResult<()>) -> bool { W::did_flush(&a.1, &b.1, r) && b.0 == a.0 }
    #[verifier::prophetic]
    open spec fn did_write_all(a: &Self, b: &Self, buf: Seq<u8>, r: IoResult<()>) -> bool { W::did_write_all(&a.1, &b.1, buf, r) && b.0 == a.0 }
    #[verifier::prophetic]
    open spec fn did_write_fmt(a: &Self, b: &Self, f: Arguments, r: IoResult<()>) -> bool { W::did_write_fmt(&a.1, &b.1, f, r) && b.0 == a.0 }
>>>
fn write
 props P30
@end
fn flush
 props P30
@end
fn write_all
 props P30
@end
fn write_fmt
 props P30
@end
@endimpl
pub mod r#async {
use super::*;
@file websocket-base/src/stream.rs
@mod async
@impl AsyncRead for ReadWritePair
@endimpl
@impl AsyncWrite for ReadWritePair
extra <<<
    #[verifier::prophetic]
    open spec fn did_shutdown(a: &Self, b: &Self, r: Poll<(), IoError>) -> bool { W::did_shutdown(&a.1, &b.1, r) && b.0 == a.0 }
>>>
fn shutdown
 props P30
@end
@endimpl
}
pub mod sync {
use super::*;
@file websocket-base/src/stream.rs
@mod sync
@trait Splittable
extra <<<
    /// whether these halves are what splitting gives
    spec fn halves(self, r: Self::Reader, w: Self::Writer) -> bool;
    /// whether splitting always succeeds
    spec fn splits(self) -> bool;
>>>
fn split
 spec <<< ensures r matches Ok(h) ==> self.halves(h.0, h.1), //P30
     self.splits() ==> r is Ok, //P30
>>>
@end
@endtrait
@impl Splittable for ReadWritePair
extra <<<
    open spec fn halves(self, r: R, w: W) -> bool { r == self.0 && w == self.1 }
    open spec fn splits(self) -> bool { true }
>>>
fn split
 props P30
@end
@endimpl
@impl Splittable for TcpStream
extra <<<
    open spec fn halves(self, r: TcpStream, w: TcpStream) -> bool { r.conn() == self.conn() && w.conn() == self.conn() }
    open spec fn splits(self) -> bool { false }
>>>
fn split
 props P30
 closure 0 (TcpStream, TcpStream)
@end
@endimpl
}
} // verus!
fn main() {}
