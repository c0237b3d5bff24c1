// =====================================================================================================
// Trusted stubs: futures 0.1, tokio-codec 0.1, tokio-tcp, tokio-tls.  Nothing below comes from /repo.
// A future is described by the results it can settle with (`outcome`); whether it settles is not described.
// =====================================================================================================
pub trait Future: Sized {
    type Item;
    type Error;
    spec fn outcome(&self, r: Result<Self::Item, Self::Error>) -> bool;
}
pub trait IntoFuture: Sized {
    type Item;
    type Error;
    spec fn settles(&self, r: Result<Self::Item, Self::Error>) -> bool;
}
impl<F: Future> IntoFuture for F { type Item = F::Item; type Error = F::Error; open spec fn settles(&self, r: Result<F::Item, F::Error>) -> bool { self.outcome(r) } }
impl<T, E> IntoFuture for Result<T, E> { type Item = T; type Error = E; open spec fn settles(&self, r: Result<T, E>) -> bool { r == *self } }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
pub struct FutureResult<T, E> { pub r: Result<T, E> }
impl<T, E> Future for FutureResult<T, E> { type Item = T; type Error = E; open spec fn outcome(&self, r: Result<T, E>) -> bool { r == self.r } }
pub mod future {
    use super::*;
    pub fn err<T, E>(e: E) -> (f: FutureResult<T, E>) ensures f.r == Err::<T, E>(e) { FutureResult { r: Err(e) } }
    pub fn ok<T, E>(e: T) -> (f: FutureResult<T, E>) ensures f.r == Ok::<T, E>(e) { FutureResult { r: Ok(e) } }
    pub fn result<T, E>(r: Result<T, E>) -> (f: FutureResult<T, E>) ensures f.r == r { FutureResult { r } }
}
/// `Box<dyn Future<Item = I, Error = E> + Send>`, and what a combinator makes
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct BoxFuture<I, E> { p: core::marker::PhantomData<(I, E)> }
impl<I, E> Future for BoxFuture<I, E> { type Item = I; type Error = E; uninterp spec fn outcome(&self, r: Result<I, E>) -> bool; }
/// the combinators of futures
pub trait VxFuture: Future {
    #[verifier::external_body]
    fn map<T, F: FnOnce(Self::Item) -> T>(self, f: F) -> (m: BoxFuture<T, Self::Error>)
        requires forall|x: Self::Item| self.outcome(Ok(x)) ==> call_requires(f, (x,))
        ensures
            forall|r: Result<T, Self::Error>| #[trigger] m.outcome(r) ==> match r {
                Ok(y) => exists|x: Self::Item| #[trigger] self.outcome(Ok(x)) && call_ensures(f, (x,), y),
                Err(e) => self.outcome(Err(e)),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn and_then<B: IntoFuture<Error = Self::Error>, F: FnOnce(Self::Item) -> B>(self, f: F) -> (m: BoxFuture<B::Item, Self::Error>)
        requires forall|x: Self::Item| self.outcome(Ok(x)) ==> call_requires(f, (x,))
        ensures
            forall|r: Result<B::Item, Self::Error>| #[trigger] m.outcome(r) ==> {
                ||| exists|x: Self::Item, b: B| #[trigger] self.outcome(Ok(x)) && #[trigger] call_ensures(f, (x,), b) && b.settles(r)
                ||| (r matches Err(e) && self.outcome(Err(e)))
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn map_err<T, F: FnOnce(Self::Error) -> T>(self, f: F) -> (m: BoxFuture<Self::Item, T>)
        requires forall|x: Self::Error| self.outcome(Err(x)) ==> call_requires(f, (x,))
        ensures
            forall|r: Result<Self::Item, T>| #[trigger] m.outcome(r) ==> match r {
                Err(y) => exists|x: Self::Error| #[trigger] self.outcome(Err(x)) && call_ensures(f, (x,), y),
                Ok(x) => self.outcome(Ok(x)),
            },
    { unimplemented!() }
}
impl<F: Future> VxFuture for F {}
pub trait VxIntoFuture: IntoFuture {
    #[verifier::external_body]
    fn into_future(self) -> (f: BoxFuture<Self::Item, Self::Error>) ensures forall|r: Result<Self::Item, Self::Error>| #[trigger] f.outcome(r) ==> self.settles(r) { unimplemented!() }
}
impl<V: IntoFuture> VxIntoFuture for V {}
/// `Box::new` where a trait object is expected
pub trait VxBoxed: Sized { type Out; spec fn boxed(self, o: Self::Out) -> bool; fn vx_box(self) -> (o: Self::Out) ensures self.boxed(o); }
impl<F: Future> VxBoxed for F {
    type Out = BoxFuture<F::Item, F::Error>;
    open spec fn boxed(self, o: Self::Out) -> bool { forall|r: Result<F::Item, F::Error>| #[trigger] o.outcome(r) ==> self.outcome(r) }
    #[verifier::external_body]
    fn vx_box(self) -> (o: Self::Out) { unimplemented!() }
}
pub fn vx_boxed<T: VxBoxed>(t: T) -> (o: T::Out) ensures t.boxed(o) { t.vx_box() }

// ---- streams and framed transports
/// `AsyncRead + AsyncWrite`: `out()` is what has been written so far
pub trait AStream: Stream {
    spec fn out(&self) -> Seq<u8>;
    /// neither a write nor a read ever fails
    spec fn a_total(&self) -> bool;
}
pub struct FramedParts<S, C> { pub io: S, pub codec: C, pub read_buf: BytesMut, pub write_buf: BytesMut }
pub struct Framed<S, C> { pub io: S, pub codec: C, pub read_buf: BytesMut, pub write_buf: BytesMut }
#[verifier::external_body]
pub fn vx_no_bytes() -> (b: BytesMut) ensures b@.len() == 0 { unimplemented!() }
impl<S, C> FramedParts<S, C> {
    pub fn new(io: S, codec: C) -> (r: FramedParts<S, C>) ensures r.io == io, r.codec == codec, r.read_buf@.len() == 0, r.write_buf@.len() == 0 { FramedParts { io, codec, read_buf: vx_no_bytes(), write_buf: vx_no_bytes() } }
}
impl<S, C> Framed<S, C> {
    pub fn from_parts(p: FramedParts<S, C>) -> (r: Framed<S, C>) ensures r.io == p.io, r.codec == p.codec, r.read_buf == p.read_buf, r.write_buf == p.write_buf { Framed { io: p.io, codec: p.codec, read_buf: p.read_buf, write_buf: p.write_buf } }
    pub fn into_parts(self) -> (r: FramedParts<S, C>) ensures r.io == self.io, r.codec == self.codec, r.read_buf == self.read_buf, r.write_buf == self.write_buf { FramedParts { io: self.io, codec: self.codec, read_buf: self.read_buf, write_buf: self.write_buf } }
    pub fn into_inner(self) -> (r: S) ensures r == self.io { self.io }
    pub fn get_ref(&self) -> (r: &S) ensures *r == self.io { &self.io }
}
/// `Decoder::framed`
pub trait VxFramed: Sized {
    fn framed<S>(self, io: S) -> (r: Framed<S, Self>) ensures r.io == io, r.codec == self, r.read_buf@.len() == 0, r.write_buf@.len() == 0 { Framed { io, codec: self, read_buf: vx_no_bytes(), write_buf: vx_no_bytes() } }
}
impl<C: HeadDecoder> VxFramed for C {}
/// the bytes the transport has still to hand out: those read already, those the stream holds
pub open spec fn to_come<S: AStream, C>(f: Framed<S, C>) -> Seq<u8> { f.read_buf@ + f.io.rem() }
/// futures::Sink::send on a framed transport: the item encoded behind what waits to be written, all of it written and flushed
pub trait Sink: Sized {
    type SinkItem;
    type SinkError;
    spec fn after_send(&self, item: Self::SinkItem, r: Result<Self, Self::SinkError>) -> bool;
    fn send(self, item: Self::SinkItem) -> (r: SinkSend<Self>) ensures r.sink == self, r.item == item { SinkSend { sink: self, item } }
}
impl<S: AStream, C: HeadEncoder> Sink for Framed<S, C> {
    type SinkItem = C::Item;
    type SinkError = C::Error;
    open spec fn after_send(&self, item: C::Item, r: Result<Framed<S, C>, C::Error>) -> bool {
        match r {
            Ok(f) => f.io.out() == self.io.out() + self.write_buf@ + encode_utf8(C::e_text(&item)) && f.io.rem() == self.io.rem() && f.io.a_total() == self.io.a_total()
                && f.codec == self.codec && f.read_buf == self.read_buf && f.write_buf@.len() == 0,
            Err(e) => !self.io.a_total(),
        }
    }
}
#[verifier::reject_recursive_types(F)]
pub struct SinkSend<F: Sink> { pub sink: F, pub item: F::SinkItem }
impl<F: Sink> Future for SinkSend<F> { type Item = F; type Error = F::SinkError; open spec fn outcome(&self, r: Result<F, F::SinkError>) -> bool { self.sink.after_send(self.item, r) } }
/// futures::Stream::into_future on a framed transport.  The decoder sees more and more of what is to come, until it has an item or an error,
/// or the stream ends; a decoder that has no item has to leave the bytes where they are (`keeps`)
pub trait FramedStream: Sized {
    type Item;
    type Error;
    spec fn first(&self, r: Result<(Option<Self::Item>, Self), (Self::Error, Self)>) -> bool;
    fn into_future(self) -> (r: StreamFuture<Self>) ensures r.s == self { StreamFuture { s: self } }
}
impl<S: AStream, C: HeadDecoder> FramedStream for Framed<S, C> {
    type Item = C::Item;
    type Error = C::Error;
    open spec fn first(&self, r: Result<(Option<C::Item>, Framed<S, C>), (C::Error, Framed<S, C>)>) -> bool {
        let f = match r { Ok(x) => x.1, Err(x) => x.1 };
        &&& f.io.out() == self.io.out() && f.write_buf == self.write_buf && f.codec == self.codec && f.io.a_total() == self.io.a_total()
        &&& exists|k: int| 0 <= k <= self.io.rem().len() && #[trigger] self.first_at(k, r)
    }
}
impl<S: AStream, C: HeadDecoder> Framed<S, C> {
    /// the first item, k bytes taken from the stream
    pub open spec fn first_at(&self, k: int, r: Result<(Option<C::Item>, Framed<S, C>), (C::Error, Framed<S, C>)>) -> bool {
        let src = self.read_buf@ + self.io.rem().take(k);
        let f = match r { Ok(x) => x.1, Err(x) => x.1 };
        &&& f.io.rem() == self.io.rem().skip(k)
        &&& match r {
            Ok((Some(q), f)) => C::d_result(src, f.read_buf@, Ok(Some(q))),
            Ok((None, f)) => k == self.io.rem().len() && C::d_result(src, f.read_buf@, Ok(None)) && f.read_buf@.len() == 0,
            Err((e, f)) => {
                ||| C::d_result(src, f.read_buf@, Err(e))
                ||| k == self.io.rem().len() && C::d_result(src, f.read_buf@, Ok(None)) && f.read_buf@.len() > 0
                ||| f.read_buf@ == src && !self.io.a_total()
            }
        }
    }
}
#[verifier::reject_recursive_types(S)]
pub struct StreamFuture<S> { pub s: S }
impl<S: FramedStream> Future for StreamFuture<S> { type Item = (Option<S::Item>, S); type Error = (S::Error, S); open spec fn outcome(&self, r: Result<(Option<S::Item>, S), (S::Error, S)>) -> bool { self.s.first(r) } }
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a matches Ok(x) ==> call_requires(f, (x,))
    ensures a matches Ok(x) ==> call_ensures(f, (x,), r), a matches Err(e) ==> r == Err::<U, E>(e);
