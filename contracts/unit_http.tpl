// ===================================================================== src/codec/http.rs
broadcast use {vxq::axiom_question_mark_from, vxq::axiom_slice_bytes, vxb::axiom_string_len, vxb::lemma_utf8_text};
@@include spec_http.rs
impl<'a> Read for &'a [u8] {
    open spec fn rem(&self) -> Seq<u8> { (*self)@ }
    uninterp spec fn origin(&self) -> Seq<u8>;
    open spec fn reliable(&self) -> bool { true }
}
impl<R: Read> BufReader<R> {
    pub uninterp spec fn size(&self) -> nat;
    /// a buffer of size 0 never grows
    #[verifier::external_body]
    pub fn with_capacity(r: R, n: usize) -> (b: BufReader<R>) requires n > 0 ensures b.buffered() == Seq::<u8>::empty(), b.inner() == r, b.size() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn new(r: R) -> (b: BufReader<R>) ensures b.buffered() == Seq::<u8>::empty(), b.inner() == r, b.size() == 4096 { unimplemented!() }
}
/// hyper: a buffer grows up to 8192 + 4096 * 100 bytes; a longer head needs a larger buffer to begin with
pub open spec fn fits<R: Read>(b: &BufReader<R>) -> bool { b.rem().len() <= b.size() || b.rem().len() < 8192 + 4096 * 100 }
#[verifier::external_body]
pub fn parse_request<R: Read>(b: &mut BufReader<R>) -> (r: HyperResult<Incoming<(Method, RequestUri)>>)
    requires fits(old(b)), old(b).inner().reliable()
    ensures
        req_read(old(b).rem()) is Whole ==> r is Ok, req_read(old(b).rem()) is Short ==> r is Err,
        req_read(old(b).rem()) is Bad ==> r is Err && !(r matches Err(HyperError::Io(e)) && e.k == ErrorKind::UnexpectedEof),
        r matches Ok(q) ==> request_is(old(b).rem(), q),
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_response<R: Read>(b: &mut BufReader<R>) -> (r: HyperResult<Incoming<RawStatus>>)
    requires fits(old(b)), old(b).inner().reliable()
    ensures
        resp_read(old(b).rem()) is Whole ==> r is Ok, resp_read(old(b).rem()) is Short ==> r is Err,
        resp_read(old(b).rem()) is Bad ==> r is Err && !(r matches Err(HyperError::Io(e)) && e.k == ErrorKind::UnexpectedEof),
        r matches Ok(q) ==> response_is(old(b).rem(), q),
{ unimplemented!() }
// ---- slices
pub trait VxSlice { 
    fn vx_windows(&self, n: usize) -> (r: VxIter<&[u8]>);
    fn vx_as_slice(&self) -> (r: &[u8]);
}
impl VxSlice for [u8] {
    /// panics for n == 0
    #[verifier::external_body]
    fn vx_windows(&self, n: usize) -> (r: VxIter<&[u8]>)
        ensures r@.len() == (if n <= self@.len() { self@.len() - n + 1 } else { 0 }), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i]@ == self@.subrange(i, i + n)
    { unimplemented!() }
    fn vx_as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { self }
}
pub open spec fn s_bytes_are4(a: &[u8], b0: u8, b1: u8, b2: u8, b3: u8) -> bool { a@.len() == 4 && a@[0] == b0 && a@[1] == b1 && a@[2] == b2 && a@[3] == b3 }
#[verifier::when_used_as_spec(s_bytes_are4)]
#[verifier::external_body]
pub fn vx_bytes_are4(a: &[u8], b0: u8, b1: u8, b2: u8, b3: u8) -> (r: bool) ensures r == s_bytes_are4(a, b0, b1, b2, b3) { unimplemented!() }
pub open spec fn s_bytes_are2(a: &[u8], b0: u8, b1: u8) -> bool { a@.len() == 2 && a@[0] == b0 && a@[1] == b1 }
#[verifier::when_used_as_spec(s_bytes_are2)]
#[verifier::external_body]
pub fn vx_bytes_are2(a: &[u8], b0: u8, b1: u8) -> (r: bool) ensures r == s_bytes_are2(a, b0, b1) { unimplemented!() }
@@include unit_httpc.tpl
