// ---- hyper's head parser, on a reader over a byte slice
pub enum HeadRead { Whole, Bad, Short }
/// what the parser makes of the bytes s: a head, an error, or a head that is not complete
pub uninterp spec fn req_read(s: Seq<u8>) -> HeadRead;
pub uninterp spec fn resp_read(s: Seq<u8>) -> HeadRead;
pub uninterp spec fn request_is(s: Seq<u8>, q: Incoming<(Method, RequestUri)>) -> bool;
pub uninterp spec fn response_is(s: Seq<u8>, q: Incoming<RawStatus>) -> bool;
pub open spec fn crlf2(s: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= s.len() && s[p] == 13 && s[p + 1] == 10 && s[p + 2] == 13 && s[p + 3] == 10 }
/// whether anything but CR and LF bytes stands in front of q
pub open spec fn content(s: Seq<u8>, q: int) -> bool { exists|i: int| 0 <= i < q && #[trigger] s[i] != 13 && s[i] != 10 }
/// the head ends before p: p - 4 is the first blank line that has something in front of it
pub open spec fn head_end(s: Seq<u8>, p: int) -> bool { crlf2(s, p - 4) && content(s, p - 4) && forall|q: int| q < p - 4 && #[trigger] crlf2(s, q) ==> !content(s, q) }
pub open spec fn no_head(s: Seq<u8>) -> bool { forall|q: int| #[trigger] crlf2(s, q) ==> !content(s, q) }
/// httparse: bytes that end with the first blank line behind a first non-blank byte are never an incomplete head
pub axiom fn axiom_whole_head(s: Seq<u8>) requires head_end(s, s.len() as int) ensures !(req_read(s) is Short), !(resp_read(s) is Short);
/// P27: a head that was taken is one complete head; nothing else in it can be mistaken for its end
pub proof fn theorem_one_head(s: Seq<u8>, p: int) //P27
    requires head_end(s, p)
    ensures
        head_end(s.take(p), p), !(req_read(s.take(p)) is Short), !(resp_read(s.take(p)) is Short), //P27
        forall|q: int| #[trigger] head_end(s, q) ==> q == p, //P27
        !no_head(s), //P27
{
    lemma_head_take(s, p);
    axiom_whole_head(s.take(p));
    assert forall|q: int| #[trigger] head_end(s, q) implies q == p by { if q < p { assert(crlf2(s, q - 4)); } else if q > p { assert(crlf2(s, p - 4)); } }
}
pub proof fn lemma_head_take(s: Seq<u8>, p: int)
    requires head_end(s, p)
    ensures head_end(s.take(p), p)
{
    let h = s.take(p);
    let i = choose|i: int| 0 <= i < p - 4 && #[trigger] s[i] != 13 && s[i] != 10;
    assert(h[i] != 13 && h[i] != 10);
    assert forall|q: int| q < p - 4 && #[trigger] crlf2(h, q) implies !content(h, q) by {
        assert(crlf2(s, q));
        if content(h, q) { let j = choose|j: int| 0 <= j < q && #[trigger] h[j] != 13 && h[j] != 10; assert(s[j] != 13 && s[j] != 10); }
    }
    assert(crlf2(h, p - 4));
}
/// P27: how a head is cut does not depend on what follows it
pub proof fn theorem_head_prefix(s: Seq<u8>, t: Seq<u8>, p: int) //P27
    requires head_end(s, p)
    ensures head_end(s + t, p) //P27
{
    let w = s + t;
    let i = choose|i: int| 0 <= i < p - 4 && #[trigger] s[i] != 13 && s[i] != 10;
    assert(w[i] != 13 && w[i] != 10);
    assert forall|q: int| q < p - 4 && #[trigger] crlf2(w, q) implies !content(w, q) by {
        assert(crlf2(s, q));
        if content(w, q) { let j = choose|j: int| 0 <= j < q && #[trigger] w[j] != 13 && w[j] != 10; assert(s[j] != 13 && s[j] != 10); }
    }
    assert(crlf2(w, p - 4));
}
/// some blank line with something in front of it is the first one
pub proof fn lemma_first_head(s: Seq<u8>, n: int)
    requires crlf2(s, n), content(s, n)
    ensures exists|p: int| #[trigger] head_end(s, p)
    decreases n
{
    if exists|q: int| q < n && #[trigger] crlf2(s, q) && content(s, q) { let q = choose|q: int| q < n && #[trigger] crlf2(s, q) && content(s, q); lemma_first_head(s, q); }
    else { assert(head_end(s, n + 4)); }
}
