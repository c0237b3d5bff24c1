// =====================================================================================================
// Trusted stubs: formatting, string splitting (std), base64, SHA-1, hyper's header parsing helpers
// =====================================================================================================
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
/// std::fmt::Formatter: `self@` is the text written so far
#[verifier::external_body]
pub struct Formatter { p: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@ + s@
    { unimplemented!() }
}
/// std::fmt::Display; `shown()` is the text it writes
pub trait VxDisplay {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures r is Ok ==> final(f)@ == old(f)@ + self.shown();
}
impl VxDisplay for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl VxDisplay for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T {
    open spec fn shown(&self) -> Seq<char> { (*self).shown() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
/// std's decimal printing of integers
pub uninterp spec fn dec_text(n: int) -> Seq<char>;
impl VxDisplay for u16 {
    open spec fn shown(&self) -> Seq<char> { dec_text(*self as int) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
// ---- what `format!` and `write!` do, one piece at a time
pub fn vx_empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_push_lit(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { s.push_str(l) }
#[verifier::external_body]
pub fn vx_push_shown<T: VxDisplay + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.shown() { unimplemented!() }
pub fn vx_write_lit(f: &mut Formatter, l: &str) -> (r: FmtResult) ensures r is Ok ==> final(f)@ == old(f)@ + l@ { f.write_str(l) }
pub fn vx_write_shown<T: VxDisplay + ?Sized>(f: &mut Formatter, x: &T) -> (r: FmtResult) ensures r is Ok ==> final(f)@ == old(f)@ + x.shown() { x.fmt(f) }
// ---- strings
#[verifier::external_body]
pub fn vx_string_with_capacity(n: usize) -> (r: String) requires n <= cap_limit() ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
pub trait VxInto<T> { fn vx_into(self) -> T; }
pub mod vxfs {
use vstd::prelude::*;
pub trait VxFromStr: Sized {
    type Err;
    spec fn s_ok(s: Seq<char>) -> bool;
    spec fn s_val(s: Seq<char>, v: Self) -> bool;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
        ensures r is Ok <==> Self::s_ok(s@), r matches Ok(v) ==> Self::s_val(s@, v);
}
}
pub use vxfs::*;
// ---- base64 0.10 (standard alphabet, padding) and SHA-1
pub trait VxAsBytes { spec fn by(&self) -> Seq<u8>; }
impl<const N: usize> VxAsBytes for [u8; N] { open spec fn by(&self) -> Seq<u8> { self@ } }
impl VxAsBytes for [u8] { open spec fn by(&self) -> Seq<u8> { self@ } }
impl VxAsBytes for Vec<u8> { open spec fn by(&self) -> Seq<u8> { self@ } }
impl VxAsBytes for str { open spec fn by(&self) -> Seq<u8> { encode_utf8(self@) } }
impl VxAsBytes for String { open spec fn by(&self) -> Seq<u8> { encode_utf8(self@) } }
pub mod vxb {
    use vstd::prelude::*;
    use vstd::utf8::*;
    pub broadcast axiom fn axiom_string_len(s: String) ensures #[trigger] encode_utf8(s@).len() <= 0x8000_0000_0000;
    pub broadcast proof fn lemma_utf8_text(s: Seq<char>) ensures #[trigger] decode_utf8(encode_utf8(s)) == s, valid_utf8(encode_utf8(s)) {
        encode_utf8_decode_utf8(s); encode_utf8_valid_utf8(s);
    }
    pub uninterp spec fn b64enc(b: Seq<u8>) -> Seq<char>;
    pub uninterp spec fn b64dec(t: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn sha1(b: Seq<u8>) -> Seq<u8>;
    pub broadcast axiom fn axiom_b64(b: Seq<u8>) ensures b64dec(encode_utf8(#[trigger] b64enc(b))) == Some(b);
    /// a non-empty input has a non-empty encoding
    pub axiom fn axiom_b64_len(b: Seq<u8>) ensures b.len() > 0 ==> encode_utf8(b64enc(b)).len() > 0;
    pub broadcast axiom fn axiom_sha1(b: Seq<u8>) ensures #[trigger] sha1(b).len() == 20;
}
pub use vxb::*;
pub struct DecodeError;
pub mod base64 {
    use super::*;
    #[verifier::external_body]
    pub fn encode<T: VxAsBytes + ?Sized>(x: &T) -> (r: String) ensures r@ == b64enc(x.by()) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<T: VxAsBytes + ?Sized>(x: &T) -> (r: Result<Vec<u8>, DecodeError>)
        ensures r is Ok <==> b64dec(x.by()) is Some, r matches Ok(v) ==> b64dec(x.by()) == Some(v@)
    { unimplemented!() }
}
pub struct Digest20(pub [u8; 20]);
impl VxInto<[u8; 20]> for Digest20 { fn vx_into(self) -> (r: [u8; 20]) ensures r@ == self.0@ { self.0 } }
pub struct Sha1;
impl Sha1 {
    #[verifier::external_body]
    pub fn digest<T: VxAsBytes + ?Sized>(x: &T) -> (r: Digest20) ensures r.0@ == sha1(x.by()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_random<T>() -> (r: T) { unimplemented!() }
pub assume_specification<T: Clone> [<[T]>::clone_from_slice] (_0: &mut [T], _1: &[T])
    requires old(_0)@.len() == _1@.len()
    ensures final(_0)@.len() == _1@.len(), forall|i: int| 0 <= i < _1@.len() ==> cloned(_1@[i], #[trigger] final(_0)@[i]);
pub mod fmt { pub use super::Formatter; pub use super::FmtResult as Result; pub use super::FmtError as Error; pub use super::VxDisplay as Display; }
pub mod io { pub use super::IoError as Error; pub use super::IoResult as Result; pub use super::ErrorKind; pub use super::{Read, Write}; }
/// `String::from(&str)`
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { vx_str_to_string(s) }
