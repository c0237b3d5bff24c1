// ===================================================================== errors
@file websocket-base/src/result.rs
@path io::Error => IoError
@path io::ErrorKind => ErrorKind
@path std::error::Error => VxOtherError
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub use std::str::Utf8Error;
/// `Box<dyn Error>`
#[verifier::external_body] pub struct VxBoxedError { p: u8 }
pub type WebSocketResult<T> = Result<T, WebSocketError>;
pub enum WebSocketError {
    ProtocolError(&'static str), DataFrameError(&'static str), NoDataAvailable, IoError(IoError), Utf8Error(Utf8Error), Other(VxBoxedError),
}
pub open spec fn ws_of_io(e: IoError) -> WebSocketError {
    if e.k == ErrorKind::UnexpectedEof { WebSocketError::NoDataAvailable } else { WebSocketError::IoError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for WebSocketError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> WebSocketError { ws_of_io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<Utf8Error> for WebSocketError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Utf8Error) -> WebSocketError { WebSocketError::Utf8Error(e) }
}
@impl From<io::Error> for WebSocketError
fn from
 props P07 P01
@end
@endimpl
@impl From<Utf8Error> for WebSocketError
fn from
 props P10
@end
@endimpl

