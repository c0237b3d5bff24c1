@@include unit_errors.tpl
// ===================================================================== websocket-base/src/header.rs
use core::ops::Deref;
pub mod ll {
use super::*;
broadcast use {vxq::axiom_question_mark_from, vxb::axiom_b64, vxb::axiom_sha1, vxb::axiom_string_len};
@file websocket-base/src/header.rs
@path FromStr => VxFromStr
@path base64:: => base64
@path rand::random => vx_random
@path String::with_capacity => vx_string_with_capacity
@method into => vx_into
pub open spec fn guid() -> Seq<char> { "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"@ }
/// P19: the accept value that belongs to a key
pub open spec fn accept_of(key: Seq<u8>) -> Seq<u8> { sha1(encode_utf8(b64enc(key) + guid())) }
@const MAGIC_GUID
@struct WebSocketKey
@struct WebSocketAccept
@impl FromStr for WebSocketKey
extra <<<
    open spec fn s_ok(s: Seq<char>) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b.len() == 16 }
    open spec fn s_val(s: Seq<char>, v: Self) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b =~= v.0@ }
>>>
fn from_str
 props P19 P20
@end
@endimpl
@fn WebSocketKey::new
 props P23
@end
@fn WebSocketKey::serialize
 props P19 P23
 spec <<< ensures r@ == b64enc(self.0@), //P19
>>>
@end
@impl FromStr for WebSocketAccept
extra <<<
    open spec fn s_ok(s: Seq<char>) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b.len() == 20 }
    open spec fn s_val(s: Seq<char>, v: Self) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b =~= v.0@ }
>>>
fn from_str
 props P19 P22
@end
@endimpl
@fn WebSocketAccept::new
 props P19 P21 P22
 spec <<< ensures r.0@ == accept_of(key.0@), //P19
>>>
@end
@fn WebSocketAccept::serialize
 props P19 P21
 spec <<< ensures r@ == b64enc(self.0@), //P19
>>>
@end
}
// ===================================================================== src/header/key.rs, accept.rs
@file src/header/key.rs
@path FromStr => VxFromStr
@path WebSocketKeyLL => ll::WebSocketKey
@path WebSocketAcceptLL => ll::WebSocketAccept
@macro write => @write
@struct WebSocketKey
/// the sixteen bytes of a key, the twenty of an accept value
impl WebSocketKey { pub open spec fn kb(&self) -> Seq<u8> { self.0.0@ } }
@impl FromStr for WebSocketKey
extra <<<
    open spec fn s_ok(s: Seq<char>) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b.len() == 16 }
    open spec fn s_val(s: Seq<char>, v: Self) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b =~= v.kb() }
>>>
fn from_str
 props P19 P20
@end
@endimpl
@fn WebSocketKey::new
 props P23
@end
@fn WebSocketKey::serialize
 props P19 P23
 spec <<< ensures r@ == b64enc(self.kb()), //P19
>>>
@end
@fn WebSocketKey::from_array
 props P19 P23
 spec <<< ensures r.kb() == a@, //P19 P23
>>>
@end
@impl Header for WebSocketKey
extra <<<
    open spec fn s_name() -> Seq<char> { "Sec-WebSocket-Key"@ }
    open spec fn s_parses(l: Seq<Seq<u8>>) -> bool { one_line(l) && WebSocketKey::s_ok(decode_utf8(l[0])) }
    open spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool { WebSocketKey::s_val(decode_utf8(l[0]), v) }
>>>
fn header_name
 props P19 P20 P23
@end
fn parse_header
 props P19 P20
@end
@endimpl
@impl HeaderFormat for WebSocketKey
extra <<<
    open spec fn s_text(&self) -> Seq<char> { b64enc(self.kb()) }
>>>
fn fmt_header
 props P19 P23
@end
@endimpl
@file src/header/accept.rs
@path FromStr => VxFromStr
@path WebSocketKeyLL => ll::WebSocketKey
@path WebSocketAcceptLL => ll::WebSocketAccept
@macro write => @write
@struct WebSocketAccept
impl WebSocketAccept { pub open spec fn ab(&self) -> Seq<u8> { self.0.0@ } }
@impl FromStr for WebSocketAccept
extra <<<
    open spec fn s_ok(s: Seq<char>) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b.len() == 20 }
    open spec fn s_val(s: Seq<char>, v: Self) -> bool { b64dec(encode_utf8(s)) matches Some(b) && b =~= v.ab() }
>>>
fn from_str
 props P19 P22
@end
@endimpl
@fn WebSocketAccept::new
 props P19 P21 P22
 spec <<< ensures r.ab() == ll::accept_of(key.kb()), //P19 P21 P22
>>>
@end
@fn WebSocketAccept::serialize
 props P19 P21
 spec <<< ensures r@ == b64enc(self.ab()), //P19
>>>
@end
@impl Header for WebSocketAccept
extra <<<
    open spec fn s_name() -> Seq<char> { "Sec-WebSocket-Accept"@ }
    open spec fn s_parses(l: Seq<Seq<u8>>) -> bool { one_line(l) && WebSocketAccept::s_ok(decode_utf8(l[0])) }
    open spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool { WebSocketAccept::s_val(decode_utf8(l[0]), v) }
>>>
fn header_name
 props P19 P21 P22
@end
fn parse_header
 props P19 P22
@end
@endimpl
@impl HeaderFormat for WebSocketAccept
extra <<<
    open spec fn s_text(&self) -> Seq<char> { b64enc(self.ab()) }
>>>
fn fmt_header
 props P19 P21
@end
@endimpl
/// P19: what is printed for a key or an accept value reads back as an equal value, and the accept
/// header for a key prints as base64(SHA-1(base64(key) ++ GUID))
pub proof fn theorem_key_roundtrip(k: WebSocketKey, a: WebSocketAccept) //P19
    ensures
        k.kb().len() == 16, a.ab().len() == 20,
        WebSocketKey::s_parses(seq![encode_utf8(k.s_text())]), //P19
        forall|v: WebSocketKey| WebSocketKey::s_parsed(seq![encode_utf8(k.s_text())], v) ==> v.kb() == k.kb(), //P19
        WebSocketAccept::s_parses(seq![encode_utf8(a.s_text())]), //P19
        forall|v: WebSocketAccept| WebSocketAccept::s_parsed(seq![encode_utf8(a.s_text())], v) ==> v.ab() == a.ab(), //P19
        a.ab() == ll::accept_of(k.kb()) ==> a.s_text() == b64enc(sha1(encode_utf8(b64enc(k.kb()) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"@))), //P19
{
    axiom_b64_len(k.kb()); axiom_b64_len(a.ab());
    let kt = encode_utf8(k.s_text()); let at = encode_utf8(a.s_text());
    vxb::lemma_utf8_text(k.s_text()); vxb::lemma_utf8_text(a.s_text());
    assert(k.kb().len() == 16); assert(a.ab().len() == 20);
    assert(one_line(seq![kt])); assert(one_line(seq![at]));
}
