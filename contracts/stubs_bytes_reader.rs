/// hyper::buffer::BufReader: a reader with bytes buffered in front of the stream
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { inner: R }
impl<R> BufReader<R> {
    pub uninterp spec fn buffered(&self) -> Seq<u8>;
    pub uninterp spec fn inner(&self) -> R;
}
impl<R: Read> Read for BufReader<R> {
    open spec fn rem(&self) -> Seq<u8> { self.buffered() + self.inner().rem() }
    uninterp spec fn origin(&self) -> Seq<u8>;
    open spec fn reliable(&self) -> bool { self.inner().reliable() }
}
