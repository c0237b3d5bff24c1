@file src/codec/http.rs
@macro format => @format
@method windows => vx_windows
@path io::ErrorKind => ErrorKind
@path io::Error => IoError
@path hyper::Error => HyperError
@struct HttpClientCodec
@struct HttpServerCodec
pub enum HttpCodecError { Io(IoError), Http(HyperError) }
impl vstd::std_specs::convert::FromSpecImpl<IoError> for HttpCodecError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> HttpCodecError { HttpCodecError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<HyperError> for HttpCodecError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: HyperError) -> HttpCodecError { HttpCodecError::Http(e) }
}
@impl From<io::Error> for HttpCodecError
fn from
 props P27
@end
@endimpl
@impl From<hyper::Error> for HttpCodecError
fn from
 props P27
@end
@endimpl
pub trait Decoder {
    type Item;
    type Error;
    /// what a decode call answers, given the bytes in front and the bytes left
    spec fn d_result(old_src: Seq<u8>, new_src: Seq<u8>, r: Result<Option<Self::Item>, Self::Error>) -> bool;
    /// a decoder that has no item leaves the bytes where they are
    proof fn keeps(s: Seq<u8>, t: Seq<u8>) requires Self::d_result(s, t, Ok(None)) ensures t == s; //P24 P27
    fn decode(&mut self, src: &mut BytesMut) -> (r: Result<Option<Self::Item>, Self::Error>)
        ensures Self::d_result(old(src)@, final(src)@, r); //P27 P24
}
pub trait Encoder {
    type Item;
    type Error;
    spec fn e_text(item: &Self::Item) -> Seq<char>;
    fn encode(&mut self, item: Self::Item, dst: &mut BytesMut) -> (r: Result<(), Self::Error>)
        ensures r is Ok && final(dst)@ == old(dst)@ + encode_utf8(Self::e_text(&item)); //P21 P23 P27
}
@fn split_off_http
 attr <<< #[verifier::spinoff_prover] >>>
 props P27 P24
 params src
 closure 0 bool
 closure 1 bool
 spec <<<
    ensures
        r is None ==> no_head(old(src)@) && final(src)@ == old(src)@, //P27
        r matches Some(h) ==> head_end(old(src)@, h@.len() as int) && h@ == old(src)@.take(h@.len() as int) && final(src)@ == old(src)@.skip(h@.len() as int), //P27 P24
>>>
@end
@impl Encoder for HttpClientCodec
extra <<<
    open spec fn e_text(q: &Incoming<(Method, RequestUri)>) -> Seq<char> {
        q.subject.0.shown() + " "@ + q.subject.1.shown() + " "@ + q.version.shown() + "\r\n"@ + q.headers.shown() + "\r\n"@
    }
>>>
fn encode
 props P23 P27
@end
@endimpl
@impl Encoder for HttpServerCodec
extra <<<
    open spec fn e_text(q: &Incoming<StatusCode>) -> Seq<char> {
        q.version.shown() + " "@ + q.subject.shown() + "\r\n"@ + q.headers.shown() + "\r\n"@
    }
>>>
fn encode
 props P21 P27
@end
@endimpl
@impl Decoder for HttpClientCodec
extra <<<
    open spec fn d_result(s: Seq<u8>, t: Seq<u8>, r: Result<Option<Incoming<RawStatus>>, HttpCodecError>) -> bool {
        &&& no_head(s) ==> (r matches Ok(None)) && t == s
        &&& forall|p: int| #![trigger head_end(s, p)] head_end(s, p) ==> {
            &&& t == s.skip(p)
            &&& resp_read(s.take(p)) is Whole ==> (r matches Ok(Some(q)) && response_is(s.take(p), q))
            &&& !(resp_read(s.take(p)) is Whole) ==> r is Err
        }
    }
    proof fn keeps(s: Seq<u8>, t: Seq<u8>) { if !no_head(s) { let n = choose|n: int| #[trigger] crlf2(s, n) && content(s, n); lemma_first_head(s, n); let p = choose|p: int| #[trigger] head_end(s, p); } }
>>>
fn decode
 props P27 P24
 params self src
 start <<< proof { let s = src@; assert forall|p: int| #[trigger] head_end(s, p) implies head_end(s.take(p), p) && !(req_read(s.take(p)) is Short) && !(resp_read(s.take(p)) is Short) && !no_head(s) && (forall|q: int| #[trigger] head_end(s, q) ==> q == p) by { theorem_one_head(s, p); } } >>>
@end
@endimpl
@impl Decoder for HttpServerCodec
extra <<<
    open spec fn d_result(s: Seq<u8>, t: Seq<u8>, r: Result<Option<Incoming<(Method, RequestUri)>>, HttpCodecError>) -> bool {
        &&& no_head(s) ==> (r matches Ok(None)) && t == s
        &&& forall|p: int| #![trigger head_end(s, p)] head_end(s, p) ==> {
            &&& t == s.skip(p)
            &&& req_read(s.take(p)) is Whole ==> (r matches Ok(Some(q)) && request_is(s.take(p), q))
            &&& !(req_read(s.take(p)) is Whole) ==> r is Err
        }
    }
    proof fn keeps(s: Seq<u8>, t: Seq<u8>) { if !no_head(s) { let n = choose|n: int| #[trigger] crlf2(s, n) && content(s, n); lemma_first_head(s, n); let p = choose|p: int| #[trigger] head_end(s, p); } }
>>>
fn decode
 props P27 P24
 params self src
 start <<< proof { let s = src@; assert forall|p: int| #[trigger] head_end(s, p) implies head_end(s.take(p), p) && !(req_read(s.take(p)) is Short) && !(resp_read(s.take(p)) is Short) && !no_head(s) && (forall|q: int| #[trigger] head_end(s, q) ==> q == p) by { theorem_one_head(s, p); } } >>>
@end
@endimpl
