// ===================================================================== src/header/origin.rs, version.rs
@file src/header/origin.rs
@macro write => @write
@struct Origin
@impl Header for Origin
extra <<<
    open spec fn s_name() -> Seq<char> { "Origin"@ }
    open spec fn s_parses(l: Seq<Seq<u8>>) -> bool { one_line(l) }
    open spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool { v.0@ == decode_utf8(l[0]) }
>>>
fn header_name
 props P23 P26
@end
fn parse_header
 props P26 P35
@end
@endimpl
@impl HeaderFormat for Origin
extra <<<
    open spec fn s_text(&self) -> Seq<char> { self.0@ }
>>>
fn fmt_header
 props P23 P26
@end
@endimpl
pub mod ver {
use vstd::prelude::*;
use vstd::utf8::*;
use super::{hyper, fmt, Header, HeaderFormat, from_one_raw_str, VxDebug, Formatter, vx_write_lit, vx_write_shown, vx_str_is, one_line, VxAll, VxFromStr};
@file src/header/version.rs
@macro write => @write
@path fmt::Debug => VxDebug
@path fmt::Display => super::VxDisplay
@enum WebSocketVersion
pub open spec fn v_text(v: WebSocketVersion) -> Seq<char> { match v { WebSocketVersion::WebSocket13 => "13"@, WebSocketVersion::Unknown(s) => s@ } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for WebSocketVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &WebSocketVersion) -> bool { (*self is Unknown) == (*o is Unknown) && v_text(*self) == v_text(*o) }
}
impl PartialEq for WebSocketVersion { #[verifier::external_body] fn eq(&self, o: &WebSocketVersion) -> (r: bool) { unimplemented!() } }
@impl fmt::Debug for WebSocketVersion
extra <<<
    open spec fn debugged(&self) -> Seq<char> { v_text(*self) }
>>>
fn fmt
 props P23 P26
@end
@endimpl
@impl Header for WebSocketVersion
extra <<<
    open spec fn s_name() -> Seq<char> { "Sec-WebSocket-Version"@ }
    open spec fn s_parses(l: Seq<Seq<u8>>) -> bool { one_line(l) }
    open spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool { v_text(v) == decode_utf8(l[0]) && (v is WebSocket13 <==> decode_utf8(l[0]) == "13"@) }
>>>
fn header_name
 props P20 P23 P26
@end
fn parse_header
 props P20 P26
 closure 0 WebSocketVersion <<< ensures v_text(vx_q) == $0@ && (vx_q is WebSocket13 <==> $0@ == "13"@) >>>
@end
@endimpl
@impl HeaderFormat for WebSocketVersion
extra <<<
    open spec fn s_text(&self) -> Seq<char> { v_text(*self) }
>>>
fn fmt_header
 props P23 P26
@end
@endimpl
}
pub use ver::*;
// ===================================================================== src/header/protocol.rs
@file src/header/protocol.rs
@struct WebSocketProtocol
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
@impl Deref for WebSocketProtocol
fn deref
 props P21 P26
 spec <<< ensures *r == self.0 >>>
@end
@endimpl
@impl Header for WebSocketProtocol
extra <<<
    open spec fn s_name() -> Seq<char> { "Sec-WebSocket-Protocol"@ }
    open spec fn s_parses(l: Seq<Seq<u8>>) -> bool { lines_utf8(l) }
    open spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool { texts(v.0@) =~= line_items(l) }
>>>
fn header_name
 props P21 P23 P26
@end
fn parse_header
 props P26 P35
@end
@endimpl
@impl HeaderFormat for WebSocketProtocol
extra <<<
    open spec fn s_text(&self) -> Seq<char> { list_text(texts(self.0@)) }
>>>
fn fmt_header
 props P21 P23 P26
 start <<< proof { assert(shown_all::<String>(self.0@) =~= texts(self.0@)); } >>>
@end
@endimpl
// ===================================================================== src/header/extensions.rs
@file src/header/extensions.rs
@path FromStr => VxFromStr
@path str::trim => vx_trim_fn
@path fmt::Display => VxDisplay
@method trim => vx_trim
@method split => vx_split
@method splitn => vx_splitn
@macro write => @write
@const INVALID_EXTENSION
@struct WebSocketExtensions
@struct Extension
@struct Parameter
pub open spec fn pview(p: Parameter) -> PView { PView { name: p.name@, value: opt_txt(p.value) } }
pub open spec fn pviews(v: Seq<Parameter>) -> Seq<PView> { v.map_values(|p: Parameter| pview(p)) }
pub open spec fn eview(e: Extension) -> EView { EView { name: e.name@, params: pviews(e.params@) } }
pub open spec fn eviews(v: Seq<Extension>) -> Seq<EView> { v.map_values(|e: Extension| eview(e)) }
@impl Deref for WebSocketExtensions
fn deref
 props P21 P26
 spec <<< ensures *r == self.0 >>>
@end
@endimpl
@fn Extension::new
 props P26
 params name
 spec <<< ensures eview(r) == (EView { name: name@, params: Seq::<PView>::empty() }), //P26
>>>
 tail <<< proof { assert(pviews(Seq::<Parameter>::empty()) =~= Seq::<PView>::empty()); } >>>
@end
@fn Parameter::new
 props P26
 params name value
 spec <<< ensures pview(r) == (PView { name: name@, value: opt_txt(value) }), //P26
>>>
@end
@impl FromStr for Extension
extra <<<
    open spec fn s_ok(s: Seq<char>) -> bool { true }
    open spec fn s_val(s: Seq<char>, v: Self) -> bool { eview(v) == ext_of(s) }
>>>
fn from_str
 props P26
 params s
 start <<< proof { lemma_split_len(s@, ';'); } >>>
 closure 0 Parameter <<< ensures pview(vx_q) == param_of($0@) >>>
 closure 1 String <<< ensures vx_q@ == trimmed($0@) >>>
 tail <<< proof { assert(vx_tail is Ok ==> pviews(vx_tail->Ok_0.params@) =~= params_of(split_at(s@, ';').skip(1))); } >>>
@end
@endimpl
@impl fmt::Display for Extension
extra <<<
    open spec fn shown(&self) -> Seq<char> { ext_text(eview(*self)) }
>>>
fn fmt
 props P26
 params self f
 start <<<
    proof { reveal_strlit("; "); assert("; "@ =~= seq![';', ' ']); }
    let ghost vx_f0 = f@; let ghost vx_ps = pviews(self.params@);
    proof { assert(vx_ps.take(0) =~= Seq::<PView>::empty()); assert(vx_ps.take(vx_ps.len() as int) =~= vx_ps); }
>>>
 loop 0 <<<
    invariant
        vx_ps == pviews(self.params@), vx_ps.take(vx_ps.len() as int) == vx_ps, "; "@ == seq![';', ' '],
        vx_it0@.len() <= vx_s0.len(), vx_s0.len() == vx_ps.len(),
        vx_it0@ == vx_s0.skip(vx_s0.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < vx_s0.len() ==> *(#[trigger] vx_s0[i]) == self.params@[i],
        f@ =~= vx_f0 + (self.name@ + params_text(vx_ps.take(vx_s0.len() - vx_it0@.len()))),
    ensures
        f@ =~= vx_f0 + (self.name@ + params_text(vx_ps)),
    decreases vx_it0@.len(),
>>>
 loopend 0 <<<
    proof {
        let k = vx_s0.len() - vx_it0@.len();
        assert(vx_ps.take(k).drop_last() =~= vx_ps.take(k - 1));
        assert(vx_ps.take(k).last() == vx_ps[k - 1]);
        assert(vx_ps[k - 1] == pview(self.params@[k - 1]));
    }
>>>
@end
@endimpl
@impl fmt::Display for Parameter
extra <<<
    open spec fn shown(&self) -> Seq<char> { param_text(pview(*self)) }
>>>
fn fmt
 props P26
 start <<< proof { reveal_strlit("="); assert("="@ =~= seq!['=']); } >>>
@end
@endimpl
@impl Header for WebSocketExtensions
extra <<<
    open spec fn s_name() -> Seq<char> { "Sec-WebSocket-Extensions"@ }
    open spec fn s_parses(l: Seq<Seq<u8>>) -> bool { lines_utf8(l) }
    open spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool { eviews(v.0@) =~= line_items(l).map_values(|t: Seq<char>| ext_of(t)) }
>>>
fn header_name
 props P21 P23 P26
@end
fn parse_header
 props P26 P35
@end
@endimpl
@impl HeaderFormat for WebSocketExtensions
extra <<<
    open spec fn s_text(&self) -> Seq<char> { list_text(eviews(self.0@).map_values(|e: EView| ext_text(e))) }
>>>
fn fmt_header
 props P21 P23 P26
 start <<< proof { assert(shown_all::<Extension>(self.0@) =~= eviews(self.0@).map_values(|e: EView| ext_text(e))); } >>>
@end
@endimpl
// ===================================================================== P26: printing and parsing again
/// a text from a comma list: tight, not empty, without commas
pub open spec fn item_ok(t: Seq<char>) -> bool { t.len() > 0 && tight(t) && !t.contains(',') }
pub proof fn lemma_trim_some(s: Seq<char>, i: int) requires 0 <= i < s.len(), !white(s[i]) ensures trimmed(s).len() > 0 {
    lemma_ltrim(s); lemma_rtrim(ltrim(s));
    if ltrim(s).len() == 0 { assert(white(s[i])); }
    if trimmed(s).len() == 0 { assert(white(ltrim(s)[0])); }
}
pub proof fn lemma_items_ok(ps: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ps.len() ==> !(#[trigger] ps[i]).contains(',')
    ensures forall|i: int| 0 <= i < nonempty(ps).len() ==> item_ok(#[trigger] nonempty(ps)[i])
    decreases ps.len()
{
    if ps.len() > 0 {
        let q = ps.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies !(#[trigger] q[i]).contains(',') by { assert(q[i] == ps[i]); }
        lemma_items_ok(q); lemma_trimmed(ps.last());
        assert(!ps[ps.len() - 1].contains(','));
        assert(ps[ps.len() - 1] == ps.last());
        let t = trimmed(ps.last());
        if t.contains(',') { assert(ps.last().contains(',')); }
        let r = nonempty(q);
        if t.len() > 0 {
            assert(nonempty(ps) == r.push(t));
            assert forall|i: int| 0 <= i < nonempty(ps).len() implies item_ok(#[trigger] nonempty(ps)[i]) by { if i < r.len() { assert(r.push(t)[i] == r[i]); assert(item_ok(r[i])); } else { assert(r.push(t)[i] == t); } }
        } else { assert(nonempty(ps) == r); }
    }
}
pub proof fn lemma_line_items_ok(l: Seq<Seq<u8>>)
    ensures forall|i: int| 0 <= i < line_items(l).len() ==> item_ok(#[trigger] line_items(l)[i])
    decreases l.len()
{
    if l.len() > 0 {
        lemma_line_items_ok(l.drop_last());
        let s = decode_utf8(l.last()); let p = split_at(s, ',');
        lemma_split_pieces(s, ',');
        assert forall|i: int| 0 <= i < p.len() implies !(#[trigger] p[i]).contains(',') by { if p[i].contains(',') { assert(split_at(s, ',')[i].contains(',')); } }
        lemma_items_ok(p);
        let a = line_items(l.drop_last()); let b = items_of(s);
        assert forall|i: int| 0 <= i < line_items(l).len() implies item_ok(#[trigger] line_items(l)[i]) by { if i < a.len() { assert(line_items(l)[i] == a[i]); } else { assert(line_items(l)[i] == b[i - a.len()]); } }
    }
}
pub proof fn lemma_one_line_items(s: Seq<char>) ensures line_items(seq![encode_utf8(s)]) == items_of(s), lines_utf8(seq![encode_utf8(s)]) {
    let l = seq![encode_utf8(s)];
    reveal_with_fuel(line_items, 3);
    lemma_utf8_text(s);
    assert(l.drop_last() =~= Seq::<Seq<u8>>::empty());
    assert(line_items(l) =~= items_of(s));
    assert forall|i: int| 0 <= i < l.len() implies valid_utf8(#[trigger] l[i]) by {}
}
pub open spec fn no_comma(e: EView) -> bool { !e.name.contains(',') && forall|i: int| 0 <= i < e.params.len() ==> pno_comma(#[trigger] e.params[i]) }
pub open spec fn pno_comma(p: PView) -> bool { !p.name.contains(',') && (p.value matches Some(v) ==> !v.contains(',')) }
pub proof fn lemma_text_no_comma(e: EView) requires no_comma(e) ensures !ext_text(e).contains(',') decreases e.params.len() {
    let t = ext_text(e);
    if e.params.len() == 0 { assert(t =~= e.name); } else {
        let f = EView { name: e.name, params: e.params.drop_last() }; let l = e.params.last();
        assert forall|i: int| 0 <= i < f.params.len() implies pno_comma(#[trigger] f.params[i]) by { assert(f.params[i] == e.params[i]); }
        lemma_text_no_comma(f);
        assert(pno_comma(e.params[e.params.len() - 1]));
        let a = ext_text(f); let b = param_text(l);
        assert(t =~= a + (seq![';', ' '] + b));
        if t.contains(',') {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == ',';
            if i < a.len() { assert(a[i] == ','); }
            else if i < a.len() + 2 { assert(t[i] == seq![';', ' '][i - a.len()]); }
            else {
                let j = i - a.len() - 2; assert(b[j] == ',');
                if j < l.name.len() { assert(l.name[j] == ','); } else { let v = l.value->0; assert(j != l.name.len()); assert(v[j - l.name.len() - 1] == ','); }
            }
        }
    }
}
pub proof fn lemma_of_no_comma(t: Seq<char>) requires !t.contains(',') ensures no_comma(ext_of(t)) {
    let p = split_at(t, ';'); let e = ext_of(t);
    lemma_split_pieces(t, ';'); lemma_trimmed(p[0]);
    if e.name.contains(',') { assert(p[0].contains(',')); assert(p[0 as int].contains(',')); }
    assert forall|i: int| 0 <= i < e.params.len() implies pno_comma(#[trigger] e.params[i]) by {
        let q = p.skip(1)[i]; assert(q == p[i + 1]);
        let x = trimmed(q); lemma_trimmed(q);
        if x.contains(',') { assert(q.contains(',')); assert(p[i + 1].contains(',')); }
        lemma_cut(x); let c = cut(x, '=');
        lemma_trimmed(c[0]);
        if trimmed(c[0]).contains(',') { assert(c[0].contains(',')); }
        if c.len() > 1 { lemma_trimmed(c[1]); if trimmed(c[1]).contains(',') { assert(c[1].contains(',')); } }
        assert(e.params[i] == param_of(x));
    }
}
pub proof fn lemma_split_one(s: Seq<char>, c: char) requires split_at(s, c).len() == 1 ensures split_at(s, c) =~= seq![s] decreases s.len() {
    if s.len() > 0 {
        let d = s.drop_last(); lemma_split_len(d, c);
        if s.last() != c { lemma_split_one(d, c); assert(d.push(s.last()) =~= s); }
    } else { assert(s =~= Seq::<char>::empty()); }
}
/// what is printed for a parsed extension is a list item again
pub proof fn lemma_reprint_item(t: Seq<char>) requires item_ok(t) ensures item_wf(ext_text(ext_of(t))) {
    let e = ext_of(t); let x = ext_text(e);
    lemma_of_no_comma(t); lemma_text_no_comma(e);
    lemma_split_len(t, ';');
    if e.params.len() == 0 {
        lemma_split_one(t, ';'); lemma_trimmed(t); assert(x =~= t); lemma_trim_some(t, 0);
    } else {
        let f = EView { name: e.name, params: e.params.drop_last() }; let a = ext_text(f);
        assert(x[a.len() as int] == ';');
        lemma_trim_some(x, a.len() as int);
    }
}
/// P26: an extensions header that was parsed from any lines and printed parses again, to equal extensions
pub proof fn theorem_extensions_roundtrip(l: Seq<Seq<u8>>, v: WebSocketExtensions) //P26
    requires WebSocketExtensions::s_parsed(l, v)
    ensures
        WebSocketExtensions::s_parses(seq![encode_utf8(v.s_text())]), //P26
        forall|w: WebSocketExtensions| #[trigger] WebSocketExtensions::s_parsed(seq![encode_utf8(v.s_text())], w) ==> eviews(w.0@) == eviews(v.0@), //P26
{
    let it = line_items(l); let es = eviews(v.0@);
    let ps = es.map_values(|e: EView| ext_text(e));
    lemma_line_items_ok(l); lemma_one_line_items(v.s_text());
    assert forall|i: int| 0 <= i < ps.len() implies item_wf(#[trigger] ps[i]) by { assert(es[i] == ext_of(it[i])); assert(item_ok(it[i])); lemma_reprint_item(it[i]); }
    theorem_list_roundtrip(ps);
    let back = items_of(list_text(ps)).map_values(|t: Seq<char>| ext_of(t));
    assert(back =~= es) by {
        assert forall|i: int| 0 <= i < es.len() implies back[i] == es[i] by {
            assert(es[i] == ext_of(it[i])); theorem_ext_parsed_wf(it[i]); theorem_ext_roundtrip(es[i]); theorem_ext_trimmed(ps[i]);
        }
    }
}
/// P26: a protocol list that was parsed from any lines and printed parses again, to the same names
pub proof fn theorem_protocols_roundtrip(l: Seq<Seq<u8>>, v: WebSocketProtocol) //P26
    requires WebSocketProtocol::s_parsed(l, v)
    ensures
        WebSocketProtocol::s_parses(seq![encode_utf8(v.s_text())]), //P26
        forall|w: WebSocketProtocol| #[trigger] WebSocketProtocol::s_parsed(seq![encode_utf8(v.s_text())], w) ==> texts(w.0@) == texts(v.0@), //P26
{
    let it = line_items(l); let ps = texts(v.0@);
    lemma_line_items_ok(l); lemma_one_line_items(v.s_text());
    assert(ps == it);
    assert forall|i: int| 0 <= i < ps.len() implies item_wf(#[trigger] ps[i]) by { assert(item_ok(it[i])); lemma_trimmed(it[i]); }
    theorem_list_roundtrip(ps);
    assert(items_of(list_text(ps)) =~= ps) by { assert forall|i: int| 0 <= i < ps.len() implies trimmed(#[trigger] ps[i]) == ps[i] by { assert(item_ok(it[i])); lemma_trimmed(it[i]); } }
}
/// P26: protocol names without blanks and commas survive, whatever their number
pub proof fn theorem_protocols_survive(v: WebSocketProtocol) //P26
    requires forall|i: int| 0 <= i < v.0@.len() ==> item_ok((#[trigger] v.0@[i])@)
    ensures
        WebSocketProtocol::s_parses(seq![encode_utf8(v.s_text())]), //P26
        forall|w: WebSocketProtocol| #[trigger] WebSocketProtocol::s_parsed(seq![encode_utf8(v.s_text())], w) ==> texts(w.0@) == texts(v.0@), //P26
{
    let ps = texts(v.0@);
    lemma_one_line_items(v.s_text());
    assert forall|i: int| 0 <= i < ps.len() implies item_wf(#[trigger] ps[i]) by { assert(item_ok(v.0@[i]@)); lemma_trimmed(v.0@[i]@); }
    theorem_list_roundtrip(ps);
    assert(items_of(list_text(ps)) =~= ps) by { assert forall|i: int| 0 <= i < ps.len() implies trimmed(#[trigger] ps[i]) == ps[i] by { assert(item_ok(v.0@[i]@)); lemma_trimmed(v.0@[i]@); } }
}
/// P26: the version header and the origin header survive printing and parsing
pub proof fn theorem_version_roundtrip(l: Seq<Seq<u8>>, v: WebSocketVersion, o: Origin) //P26
    requires one_line(l)
    ensures
        WebSocketVersion::s_parsed(l, v) ==> WebSocketVersion::s_parses(seq![encode_utf8(v.s_text())]), //P26
        WebSocketVersion::s_parsed(l, v) ==> forall|w: WebSocketVersion| #[trigger] WebSocketVersion::s_parsed(seq![encode_utf8(v.s_text())], w) ==> v_text(w) == v_text(v) && (w is WebSocket13 <==> v is WebSocket13), //P26
        v is WebSocket13 ==> v.s_text() == "13"@, //P26
        Origin::s_parsed(l, o) ==> Origin::s_parses(seq![encode_utf8(o.s_text())]), //P26
        Origin::s_parsed(l, o) ==> forall|w: Origin| #[trigger] Origin::s_parsed(seq![encode_utf8(o.s_text())], w) ==> w.0@ == o.0@, //P26
{
    decode_utf8_encode_utf8(l[0]);
    lemma_utf8_text(v.s_text()); lemma_utf8_text(o.s_text());
    let a = seq![encode_utf8(v.s_text())]; let b = seq![encode_utf8(o.s_text())];
    assert(a[0] == encode_utf8(v.s_text())); assert(b[0] == encode_utf8(o.s_text()));
}
