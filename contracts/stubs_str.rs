// =====================================================================================================
// Trusted stubs: strings, Cow, UTF-8 (std).  Assumptions about std only.
// =====================================================================================================
pub assume_specification [std::string::String::len] (_0: &std::string::String) -> (r: usize) ensures r == encode_utf8(_0@).len();
pub assume_specification [std::string::String::as_bytes] (_0: &std::string::String) -> (r: &[u8]) ensures r@ == encode_utf8(_0@);
pub assume_specification [std::string::String::into_bytes] (_0: std::string::String) -> (r: std::vec::Vec<u8>) ensures r@ == encode_utf8(_0@);
/// std::str::from_utf8: accepts exactly the valid UTF-8 sequences (vstd's definition)
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@,
{ std::str::from_utf8(b) }
/// String::from_utf8_lossy: unchanged when the bytes are valid
#[verifier::external_body]
pub fn vx_from_utf8_lossy<'a>(b: &'a [u8]) -> (r: Cow<'a, str>)
    ensures valid_utf8(b@) ==> encode_utf8(cow_str(r)) == b@,
{ unimplemented!() }
// ---- std::borrow::Cow, written out (the same two variants)
pub trait VxToOwned { type Owned; }
impl VxToOwned for [u8] { type Owned = Vec<u8>; }
impl VxToOwned for str { type Owned = String; }
pub enum Cow<'a, B: ?Sized + VxToOwned> { Borrowed(&'a B), Owned(B::Owned) }
pub open spec fn cow_bytes(c: Cow<'_, [u8]>) -> Seq<u8> { match c { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
pub open spec fn cow_str(c: Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
impl<'a> core::ops::Deref for Cow<'a, [u8]> {
    type Target = [u8];
    fn deref(&self) -> (r: &[u8]) ensures r@ == cow_bytes(*self) { match self { Cow::Borrowed(b) => b, Cow::Owned(v) => v.as_slice() } }
}
impl<'a> Cow<'a, [u8]> {
    pub fn into_owned(self) -> (r: Vec<u8>) ensures r@ == cow_bytes(self) { match self { Cow::Borrowed(b) => vx_to_vec(b), Cow::Owned(v) => v } }
}
impl<'a> Cow<'a, str> {
    pub fn into_owned(self) -> (r: String) ensures r@ == cow_str(self) { match self { Cow::Borrowed(b) => vx_str_to_string(b), Cow::Owned(v) => v } }
}
pub fn vx_str_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for Cow<'a, str> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: String) -> Cow<'a, str> { Cow::Owned(e) }
}
impl<'a> From<String> for Cow<'a, str> { fn from(s: String) -> Self { Cow::Owned(s) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Cow<'a, str> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: &'a str) -> Cow<'a, str> { Cow::Borrowed(e) }
}
impl<'a> From<&'a str> for Cow<'a, str> { fn from(s: &'a str) -> Self { Cow::Borrowed(s) } }
/// `&x[..]`
pub trait VxAll { type O: ?Sized; spec fn all_of(&self, o: &Self::O) -> bool; fn vx_all(&self) -> (r: &Self::O) ensures self.all_of(r); }
impl VxAll for String {
    type O = str;
    open spec fn all_of(&self, o: &str) -> bool { o@ == self@ }
    fn vx_all(&self) -> (r: &str) { self.as_str() }
}
impl VxAll for str {
    type O = str;
    open spec fn all_of(&self, o: &str) -> bool { o@ == self@ }
    fn vx_all(&self) -> (r: &str) { self }
}
impl<T> VxAll for Vec<T> {
    type O = [T];
    open spec fn all_of(&self, o: &[T]) -> bool { o@ == self@ }
    fn vx_all(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T> VxAll for [T] {
    type O = [T];
    open spec fn all_of(&self, o: &[T]) -> bool { o@ == self@ }
    fn vx_all(&self) -> (r: &[T]) { self }
}
