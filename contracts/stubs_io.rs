// =====================================================================================================
// Trusted stubs: std::io, byteorder, bitflags, iterators.  Nothing below comes from /repo; every contract
// in this file is an assumption about a dependency (listed in the evidence, tested by the replay harness).
// =====================================================================================================
global size_of usize == 8;

pub mod vxbe {
    use vstd::prelude::*;
    // big-endian integers
    pub open spec fn be16(s: Seq<u8>) -> u16 { ((s[0] as u16) << 8) | (s[1] as u16) }
    pub open spec fn be64(s: Seq<u8>) -> u64 {
        ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32)
      | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64)
    }
    pub open spec fn enc16(x: u16) -> Seq<u8> { seq![(x >> 8) as u8, (x & 0xff) as u8] }
    pub open spec fn enc64(x: u64) -> Seq<u8> {
        seq![(x >> 56) as u8, ((x >> 48) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 32) & 0xff) as u8,
             ((x >> 24) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8]
    }
}
pub use vxbe::*;
pub mod vxq {
    use vstd::prelude::*;
    use vstd::std_specs::control_flow::*;
    /// the `?` operator converts the error with `From::from` (language definition)
    pub broadcast axiom fn axiom_question_mark_from<T, U: vstd::std_specs::convert::FromSpec<T>>(a: T, b: U)
        requires #[trigger] spec_from::<U, T>(a, b), U::obeys_from_spec()
        ensures b == U::from_spec(a);
    /// user address spaces are at most 2^47 bytes (x86-64), so no slice or vector is longer
    pub broadcast axiom fn axiom_vec_bytes(v: Vec<u8>) ensures #[trigger] v@.len() <= 0x8000_0000_0000;
    pub broadcast axiom fn axiom_slice_bytes(v: &[u8]) ensures #[trigger] v@.len() <= 0x8000_0000_0000;
}
pub use vxq::*;

#[derive(Clone, Copy, PartialEq, Eq, Structural, Debug)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
#[derive(Debug)]
pub struct IoError { pub k: ErrorKind }
pub type IoResult<T> = Result<T, IoError>;
impl IoError {
    pub fn new(k: ErrorKind, _msg: &'static str) -> (r: IoError) ensures r.k == k { IoError { k } }
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
}

/// std::io::Write.  `wrote(a, b, d)`: going from state a to state b has passed exactly the bytes d on.
/// `can_take(n)`: the next n bytes are accepted without an error.
pub trait Write: Sized {
    #[verifier::prophetic]
    spec fn wrote(pre: &Self, post: &Self, data: Seq<u8>) -> bool;
    spec fn can_take(&self, n: nat) -> bool;
    /// no write ever fails
    spec fn w_total(&self) -> bool;
    /// representation invariant of the writer
    spec fn w_wf(&self) -> bool;
    fn write(&mut self, data: &[u8]) -> (r: IoResult<usize>)
        requires old(self).w_wf()
        ensures
            final(self).w_wf(),
            r matches Ok(n) ==> n <= data.len() && Self::wrote(old(self), final(self), data@.subrange(0, n as int)),
            r is Err ==> Self::wrote(old(self), final(self), Seq::<u8>::empty()),
            forall|m: nat| m >= data.len() && data.len() > 0 && #[trigger] old(self).can_take(m)
                ==> (r matches Ok(n) && n > 0 && final(self).can_take((m - n) as nat)),
            old(self).w_total() ==> r is Ok && final(self).w_total() && (data.len() > 0 ==> r->Ok_0 > 0);
    fn flush(&mut self) -> (r: IoResult<()>)
        requires old(self).w_wf()
        ensures final(self).w_wf(), Self::wrote(old(self), final(self), Seq::<u8>::empty());
    proof fn wrote_nil(a: &Self) requires a.w_wf() ensures Self::wrote(a, a, Seq::<u8>::empty());
    proof fn wrote_trans(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>)
        requires a.w_wf(), Self::wrote(a, b, x), Self::wrote(b, c, y)
        ensures Self::wrote(a, c, x + y);
    /// std's provided method (loops over `write`)
    #[verifier::external_body]
    fn write_all(&mut self, data: &[u8]) -> (r: IoResult<()>)
        requires old(self).w_wf()
        ensures
            final(self).w_wf(),
            r is Ok ==> Self::wrote(old(self), final(self), data@),
            forall|m: nat| m >= data.len() && #[trigger] old(self).can_take(m) ==> r is Ok && final(self).can_take((m - data.len()) as nat),
            old(self).w_total() ==> r is Ok && final(self).w_total(),
            r is Err ==> exists|k: int| 0 <= k <= data.len() && Self::wrote(old(self), final(self), data@.subrange(0, k)),
    { unimplemented!() }
    /// byteorder::WriteBytesExt (provided methods over `write_all`)
    #[verifier::external_body]
    fn write_u8(&mut self, x: u8) -> (r: IoResult<()>)
        requires old(self).w_wf()
        ensures
            final(self).w_wf(),
            r is Ok ==> Self::wrote(old(self), final(self), seq![x]),
            forall|m: nat| m >= 1 && #[trigger] old(self).can_take(m) ==> r is Ok && final(self).can_take((m - 1) as nat),
            old(self).w_total() ==> r is Ok && final(self).w_total(),
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u16<T: ByteOrder>(&mut self, x: u16) -> (r: IoResult<()>)
        requires old(self).w_wf()
        ensures
            final(self).w_wf(),
            r is Ok ==> Self::wrote(old(self), final(self), T::s_enc16(x)),
            forall|m: nat| m >= 2 && #[trigger] old(self).can_take(m) ==> r is Ok && final(self).can_take((m - 2) as nat),
            old(self).w_total() ==> r is Ok && final(self).w_total(),
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u64<T: ByteOrder>(&mut self, x: u64) -> (r: IoResult<()>)
        requires old(self).w_wf()
        ensures
            final(self).w_wf(),
            r is Ok ==> Self::wrote(old(self), final(self), T::s_enc64(x)),
            forall|m: nat| m >= 8 && #[trigger] old(self).can_take(m) ==> r is Ok && final(self).can_take((m - 8) as nat),
            old(self).w_total() ==> r is Ok && final(self).w_total(),
    { unimplemented!() }
}
pub trait ByteOrder {
    spec fn s_enc16(x: u16) -> Seq<u8>;
    spec fn s_enc64(x: u64) -> Seq<u8>;
    spec fn s_dec16(s: Seq<u8>) -> u16;
    spec fn s_dec64(s: Seq<u8>) -> u64;
}
pub struct BigEndian;
pub struct LittleEndian;
impl ByteOrder for BigEndian {
    open spec fn s_enc16(x: u16) -> Seq<u8> { enc16(x) }
    open spec fn s_enc64(x: u64) -> Seq<u8> { enc64(x) }
    open spec fn s_dec16(s: Seq<u8>) -> u16 { be16(s) }
    open spec fn s_dec64(s: Seq<u8>) -> u64 { be64(s) }
}
impl ByteOrder for LittleEndian {
    open spec fn s_enc16(x: u16) -> Seq<u8> { enc16(x).reverse() }
    open spec fn s_enc64(x: u64) -> Seq<u8> { enc64(x).reverse() }
    open spec fn s_dec16(s: Seq<u8>) -> u16 { be16(s.reverse()) }
    open spec fn s_dec64(s: Seq<u8>) -> u64 { be64(s.reverse()) }
}
impl Write for Vec<u8> {
    #[verifier::prophetic]
    open spec fn wrote(pre: &Self, post: &Self, data: Seq<u8>) -> bool { post@ == pre@ + data }
    open spec fn can_take(&self, n: nat) -> bool { true }
    open spec fn w_total(&self) -> bool { true }
    open spec fn w_wf(&self) -> bool { true }
    #[verifier::external_body]
    fn write(&mut self, data: &[u8]) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: IoResult<()>) { unimplemented!() }
    proof fn wrote_nil(a: &Self) { assert(a@ + Seq::<u8>::empty() =~= a@); }
    proof fn wrote_trans(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>) { assert(a@ + x + y =~= a@ + (x + y)); }
}

/// std::io::Read.  `rem()`: the bytes still to come; `origin()`: the whole stream, including what was read.
/// `reliable()`: no read fails with anything but the end of the stream.
pub trait Read: Sized {
    spec fn rem(&self) -> Seq<u8>;
    spec fn origin(&self) -> Seq<u8>;
    spec fn reliable(&self) -> bool;
    #[verifier::external_body]
    fn vx_read_exact_n(&mut self, n: usize) -> (r: IoResult<Vec<u8>>)
        ensures
            r is Ok ==> old(self).rem().len() >= n && r->Ok_0@ == old(self).rem().subrange(0, n as int)
                && final(self).rem() == old(self).rem().skip(n as int),
            final(self).origin() == old(self).origin(),
            final(self).reliable() == old(self).reliable(),
            old(self).reliable() && old(self).rem().len() >= n ==> r is Ok,
            old(self).reliable() && old(self).rem().len() < n ==> (r matches Err(e) && e.k == ErrorKind::UnexpectedEof),
    { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).rem().len() >= old(buf)@.len() && final(buf)@ == old(self).rem().subrange(0, old(buf)@.len() as int)
                && final(self).rem() == old(self).rem().skip(old(buf)@.len() as int),
            final(self).origin() == old(self).origin(),
            final(self).reliable() == old(self).reliable(),
            old(self).reliable() && old(self).rem().len() >= old(buf)@.len() ==> r is Ok,
            old(self).reliable() && old(self).rem().len() < old(buf)@.len() ==> (r matches Err(e) && e.k == ErrorKind::UnexpectedEof),
    { unimplemented!() }
    /// byteorder::ReadBytesExt (provided methods over `read_exact`)
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: IoResult<u8>)
        ensures
            r is Ok ==> old(self).rem().len() >= 1 && r->Ok_0 == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
            final(self).origin() == old(self).origin(),
            final(self).reliable() == old(self).reliable(),
            old(self).reliable() && old(self).rem().len() >= 1 ==> r is Ok,
            old(self).reliable() && old(self).rem().len() < 1 ==> (r matches Err(e) && e.k == ErrorKind::UnexpectedEof),
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u16<T: ByteOrder>(&mut self) -> (r: IoResult<u16>)
        ensures
            r is Ok ==> old(self).rem().len() >= 2 && r->Ok_0 == T::s_dec16(old(self).rem().subrange(0, 2))
                && final(self).rem() == old(self).rem().skip(2),
            final(self).origin() == old(self).origin(),
            final(self).reliable() == old(self).reliable(),
            old(self).reliable() && old(self).rem().len() >= 2 ==> r is Ok,
            old(self).reliable() && old(self).rem().len() < 2 ==> (r matches Err(e) && e.k == ErrorKind::UnexpectedEof),
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u64<T: ByteOrder>(&mut self) -> (r: IoResult<u64>)
        ensures
            r is Ok ==> old(self).rem().len() >= 8 && r->Ok_0 == T::s_dec64(old(self).rem().subrange(0, 8))
                && final(self).rem() == old(self).rem().skip(8),
            final(self).origin() == old(self).origin(),
            final(self).reliable() == old(self).reliable(),
            old(self).reliable() && old(self).rem().len() >= 8 ==> r is Ok,
            old(self).reliable() && old(self).rem().len() < 8 ==> (r matches Err(e) && e.k == ErrorKind::UnexpectedEof),
    { unimplemented!() }
    #[verifier::external_body]
    fn take<'a>(&'a mut self, limit: u64) -> (r: Take<'a, Self>)
        ensures r.limit == limit, *r.inner == *old(self), *final(r.inner) == *final(self),
    { unimplemented!() }
}
pub struct Take<'a, R: Read> { pub inner: &'a mut R, pub limit: u64 }
impl<'a, R: Read> Take<'a, R> {
    /// std: Ok(n) only at the limit or at the end of the stream; everything read is appended to buf
    #[verifier::external_body]
    pub fn read_to_end(self, buf: &mut Vec<u8>) -> (r: IoResult<usize>)
        ensures
            ({ let s = old(self.inner).rem(); let n = if s.len() < self.limit { s.len() as int } else { self.limit as int };
               (r is Ok ==> r->Ok_0 == n && final(buf)@ == old(buf)@ + s.subrange(0, n) && final(self.inner).rem() == s.skip(n))
               && final(self.inner).origin() == old(self.inner).origin()
               && final(self.inner).reliable() == old(self.inner).reliable()
               && (old(self.inner).reliable() && n <= usize::MAX ==> r is Ok) }),
    { unimplemented!() }
}
/// std::io::Cursor over a byte slice
pub struct Cursor<'a> { pub data: &'a [u8], pub at: u64 }
impl<'a> Cursor<'a> {
    pub fn new(data: &'a [u8]) -> (r: Cursor<'a>)
        ensures r.rem() == data@, r.origin() == data@, r.reliable(),
    { Cursor { data, at: 0 } }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64)
        ensures r == self.origin().len() - self.rem().len(),
    { unimplemented!() }
}
impl<'a> Read for Cursor<'a> {
    open spec fn rem(&self) -> Seq<u8> { if self.at <= self.data@.len() { self.data@.skip(self.at as int) } else { Seq::empty() } }
    open spec fn origin(&self) -> Seq<u8> { self.data@ }
    open spec fn reliable(&self) -> bool { true }
}
/// `&[u8]` as a reader
pub trait VxSliceRead { fn read_u16<T: ByteOrder>(&self) -> IoResult<u16>; }
impl VxSliceRead for [u8] {
    #[verifier::external_body]
    fn read_u16<T: ByteOrder>(&self) -> (r: IoResult<u16>)
        ensures
            self@.len() >= 2 ==> r == Ok::<u16, IoError>(T::s_dec16(self@.subrange(0, 2))),
            self@.len() < 2 ==> (r matches Err(e) && e.k == ErrorKind::UnexpectedEof),
    { unimplemented!() }
}

// ---- std::vec, std::mem
pub open spec fn cap_limit() -> nat { 0x7fff_ffff_ffff_ffff }
/// Vec::with_capacity panics above isize::MAX bytes and aborts when memory is short: callers must show a bound
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= cap_limit()
    ensures r@ == Seq::<T>::empty()
{ Vec::with_capacity(n) }
pub assume_specification<T> [std::mem::replace] (_0: &mut T, _1: T) -> (r: T)
    ensures r == *old(_0), *final(_0) == _1;
pub assume_specification<T: std::default::Default> [std::mem::take] (_0: &mut T) -> (r: T)
    ensures r == *old(_0), call_ensures(T::default, (), *final(_0));
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
/// user address spaces are at most 2^47 bytes (x86-64), so no slice or vector is longer
#[verifier::external_body]
pub proof fn axiom_vec_len(v: Vec<u8>) ensures v@.len() <= 0x8000_0000_0000 {}
#[verifier::external_body]
pub proof fn axiom_slice_len(v: &[u8]) ensures v@.len() <= 0x8000_0000_0000 {}

// ---- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VxIter<A> { p: core::marker::PhantomData<A> }
impl<A> View for VxIter<A> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }
pub trait VxZip { type Item; spec fn z_has(&self, i: int) -> bool; spec fn z_at(&self, i: int) -> Self::Item; }
impl<A> VxZip for VxIter<A> {
    type Item = A;
    open spec fn z_has(&self, i: int) -> bool { 0 <= i < self@.len() }
    open spec fn z_at(&self, i: int) -> A { self@[i] }
}
#[verifier::reject_recursive_types(A)]
pub struct VxCycle<A> { pub base: Ghost<Seq<A>>, pub p: core::marker::PhantomData<A> }
impl<A> VxZip for VxCycle<A> {
    type Item = A;
    open spec fn z_has(&self, i: int) -> bool { self.base@.len() > 0 }
    open spec fn z_at(&self, i: int) -> A { self.base@[i % (self.base@.len() as int)] }
}
pub open spec fn seq_sum(s: Seq<usize>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() as nat }
}
impl<A> VxIter<A> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<A>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: Fn(A) -> B>(self, f: F) -> (r: VxIter<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(A) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures
            r matches Some(p) ==> p < old(self)@.len() && call_ensures(f, (old(self)@[p as int],), true) && forall|i: int| 0 <= i < p ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
            r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(A) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(A) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&A) -> bool>(self, f: F) -> (r: VxIter<A>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures
            r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&#[trigger] self@[i],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<A>)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }), forall|i: int| n <= i < self@.len() ==> #[trigger] self@[i] == r@[i - n]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<A>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<Z: VxZip>(self, z: Z) -> (r: VxIter<(A, Z::Item)>)
        ensures
            r@.len() <= self@.len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (self@[i], z.z_at(i)) && z.z_has(i),
            r@.len() == self@.len() || !z.z_has(r@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cycle(self) -> (r: VxCycle<A>) ensures r.base@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VxIter<(usize, A)>)
        requires self@.len() <= usize::MAX
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
}
impl VxIter<usize> {
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize) requires seq_sum(self@) <= usize::MAX ensures r == seq_sum(self@) { unimplemented!() }
}
pub trait VxBorrowIter<A> { fn vx_iter(&self) -> VxIter<&A>; }
impl<A> VxBorrowIter<A> for [A] {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&A>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i],
    { unimplemented!() }
}
impl<A> VxBorrowIter<A> for Vec<A> {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&A>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i],
    { unimplemented!() }
}
impl<A, const N: usize> VxBorrowIter<A> for [A; N] {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&A>)
        ensures r@.len() == N, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i],
    { unimplemented!() }
}
pub trait VxIntoIter { type Item; fn vx_into_iter(self) -> VxIter<Self::Item>; }
impl<A> VxIntoIter for VxIter<A> {
    type Item = A;
    fn vx_into_iter(self) -> (r: VxIter<A>) ensures r@ == self@ { self }
}
impl<A> VxIntoIter for Vec<A> {
    type Item = A;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<A>) ensures r@ == self@ { unimplemented!() }
}
impl<'a, A> VxIntoIter for &'a [A] {
    type Item = &'a A;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a A>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i],
    { unimplemented!() }
}
impl<'a, A> VxIntoIter for &'a Vec<A> {
    type Item = &'a A;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a A>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i],
    { unimplemented!() }
}
impl VxIntoIter for core::ops::Range<usize> {
    type Item = usize;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<usize>)
        ensures r@.len() == (if self.end > self.start { self.end - self.start } else { 0 }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.start + i,
    { unimplemented!() }
}
/// equality in the contract of a closure whose type is left to inference
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
