// ---- the stream
/// `Read + Write`; what a peer will send does not depend on what is written here
pub trait Stream: Read + Write {
    proof fn wrote_keeps_rem(a: &Self, b: &Self, d: Seq<u8>) requires Self::wrote(a, b, d) ensures b.rem() == a.rem();
    proof fn always_wf(a: &Self) ensures a.w_wf();
}
impl<R: Read> BufReader<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (b: BufReader<R>) ensures b.buffered() == Seq::<u8>::empty(), b.inner() == r { unimplemented!() }
    /// reads panic when pos and cap are not positions of the buffer
    #[verifier::external_body]
    pub fn from_parts(r: R, buf: Vec<u8>, pos: usize, cap: usize) -> (b: BufReader<R>)
        requires pos <= cap <= buf@.len()
        ensures b.buffered() == buf@.subrange(pos as int, cap as int), b.inner() == r
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_parts(self) -> (r: (R, Vec<u8>, usize, usize))
        ensures r.0 == self.inner(), r.2 <= r.3 <= r.1@.len(), r.1@.subrange(r.2 as int, r.3 as int) == self.buffered()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_buf(&mut self) -> (r: (Vec<u8>, usize, usize))
        ensures r.1 <= r.2 <= r.0@.len(), r.0@.subrange(r.1 as int, r.2 as int) == old(self).buffered(), final(self).buffered() == Seq::<u8>::empty(), final(self).inner() == old(self).inner()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut R)
        ensures *r == old(self).inner(), final(self).inner() == *final(r), final(self).buffered() == old(self).buffered()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &R) ensures *r == self.inner() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
}
/// the message head at the front of s takes n bytes and reads as q
pub uninterp spec fn request_head(s: Seq<u8>, n: int, q: Incoming<(Method, RequestUri)>) -> bool;
pub uninterp spec fn response_head(s: Seq<u8>, n: int, q: Incoming<RawStatus>) -> bool;
/// reading a response head fails although the stream has the bytes s to come: they are no head, or the stream fails
pub uninterp spec fn head_unreadable(s: Seq<u8>) -> bool;
/// hyper::http::h1: takes exactly the head from the reader, or nothing and an error; never writes
#[verifier::external_body]
pub fn parse_request<S: Stream>(b: &mut BufReader<S>) -> (r: HyperResult<Incoming<(Method, RequestUri)>>)
    ensures
        S::wrote(&old(b).inner(), &final(b).inner(), Seq::<u8>::empty()),
        r matches Ok(q) ==> exists|n: int| 0 <= n <= old(b).rem().len() && #[trigger] request_head(old(b).rem(), n, q) && final(b).rem() == old(b).rem().skip(n),
        r is Err ==> final(b).rem() == old(b).rem(),
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_response<S: Stream>(b: &mut BufReader<S>) -> (r: HyperResult<Incoming<RawStatus>>)
    ensures
        S::wrote(&old(b).inner(), &final(b).inner(), Seq::<u8>::empty()),
        r matches Ok(q) ==> exists|n: int| 0 <= n <= old(b).rem().len() && #[trigger] response_head(old(b).rem(), n, q) && final(b).rem() == old(b).rem().skip(n),
        r is Err ==> final(b).rem() == old(b).rem(), r is Err ==> head_unreadable(old(b).rem()),
{ unimplemented!() }
/// `IntoIterator` arguments: what they yield
pub trait VxYields: Sized { type Item; spec fn yields(self) -> Seq<Self::Item>; fn vx_yield(self) -> (r: VxIter<Self::Item>) ensures r@ == self.yields(); }
