/// bytes::BytesMut 0.4: `cap` is the number of bytes that fit without growing; writing does not grow it
#[verifier::external_body]
pub struct BytesMut { b: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    pub uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    /// panics when at > len
    #[verifier::external_body]
    pub fn split_to(&mut self, at: usize) -> (r: BytesMut)
        requires at <= old(self)@.len()
        ensures r@ == old(self)@.take(at as int), final(self)@ == old(self)@.skip(at as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining_mut(&self) -> (r: usize) ensures r == self.room() { unimplemented!() }
    /// makes room for at least n more bytes; the content stays
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@, final(self).room() >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn writer<'a>(&'a mut self) -> (r: BmWriter<'a>)
        ensures *r.b == *old(self), *final(r.b) == *final(self), r.can_take(old(self).room())
    { unimplemented!() }
}
impl core::ops::Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// bytes::buf::Writer over &mut BytesMut: takes what fits, never grows
pub struct BmWriter<'a> { pub b: &'a mut BytesMut }
impl<'a> Write for BmWriter<'a> {
    #[verifier::prophetic]
    open spec fn wrote(pre: &Self, post: &Self, data: Seq<u8>) -> bool {
        &&& (*post.b)@ == (*pre.b)@ + data
        &&& *final(post.b) == *final(pre.b)
    }
    open spec fn can_take(&self, n: nat) -> bool { (*self.b).room() >= n }
    open spec fn w_total(&self) -> bool { false }
    open spec fn w_wf(&self) -> bool { true }
    #[verifier::external_body]
    fn write(&mut self, data: &[u8]) -> (r: IoResult<usize>)
        ensures r matches Ok(n) && n == (if old(self).b.room() < data@.len() { old(self).b.room() } else { data@.len() })
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: IoResult<()>) { unimplemented!() }
    proof fn wrote_nil(a: &Self) { assert((*a.b)@ + Seq::<u8>::empty() =~= (*a.b)@); }
    proof fn wrote_trans(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>) { assert((*a.b)@ + x + y =~= (*a.b)@ + (x + y)); }
}
#[verifier::external_body]
pub proof fn axiom_bytes_len(b: BytesMut) ensures b@.len() <= 0x8000_0000_0000 {}
