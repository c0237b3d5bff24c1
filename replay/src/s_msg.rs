use crate::core::*;
use crate::io::*;
use crate::model::*;
use crate::s_frame::*;
use bytes::BytesMut;
use std::borrow::Cow;
use std::io::Write;
use tokio_codec::Encoder;
use websocket_base::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket_base::message::{CloseData, Message, OwnedMessage, Type};
use websocket_base::result::{WebSocketError as E, WebSocketResult};
use websocket_base::ws::dataframe::DataFrame as DF;
use websocket_base::ws::Message as _;
use websocket_base::ws::Sender as _;

pub struct Fx(pub Fr, pub [bool; 3]);
impl DF for Fx {
    fn is_last(&self) -> bool { self.0.fin }
    fn opcode(&self) -> u8 { self.0.op }
    fn reserved(&self) -> &[bool; 3] { &self.1 }
    fn size(&self) -> usize { self.0.data.len() }
    fn write_payload(&self, w: &mut dyn Write) -> WebSocketResult<()> { for c in self.0.data.chunks(7) { w.write_all(c)?; } Ok(()) }
    fn take_payload(self) -> Vec<u8> { self.0.data }
}
pub fn fx(f: &Fr) -> Fx { Fx(f.clone(), [f.rsv & 4 != 0, f.rsv & 2 != 0, f.rsv & 1 != 0]) }

pub fn of_msg(m: &Message) -> Msg {
    let d = m.payload.to_vec();
    match m.opcode { Type::Text => Msg::Text(d), Type::Binary => Msg::Binary(d), Type::Ping => Msg::Ping(d), Type::Pong => Msg::Pong(d), Type::Close => Msg::Close(m.cd_status_code.map(|c| (c, d))) }
}
pub fn of_owned(m: &OwnedMessage) -> Msg {
    match m { OwnedMessage::Text(t) => Msg::Text(t.as_bytes().to_vec()), OwnedMessage::Binary(d) => Msg::Binary(d.clone()), OwnedMessage::Ping(d) => Msg::Ping(d.clone()), OwnedMessage::Pong(d) => Msg::Pong(d.clone()), OwnedMessage::Close(c) => Msg::Close(c.as_ref().map(|c| (c.status_code, c.reason.as_bytes().to_vec()))) }
}
pub fn to_owned_msg(m: &Msg) -> OwnedMessage {
    let s = |d: &Vec<u8>| String::from_utf8(d.clone()).unwrap();
    match m { Msg::Text(t) => OwnedMessage::Text(s(t)), Msg::Binary(d) => OwnedMessage::Binary(d.clone()), Msg::Ping(d) => OwnedMessage::Ping(d.clone()), Msg::Pong(d) => OwnedMessage::Pong(d.clone()), Msg::Close(c) => OwnedMessage::Close(c.as_ref().map(|c| CloseData::new(c.0, s(&c.1)))) }
}
pub fn to_msg(m: &Msg, owned: bool) -> Message<'_> {
    fn b<'a>(d: &'a Vec<u8>, owned: bool) -> Cow<'a, [u8]> { if owned { Cow::Owned(d.clone()) } else { Cow::Borrowed(&d[..]) } }
    fn s<'a>(d: &'a Vec<u8>, owned: bool) -> Cow<'a, str> { let t = std::str::from_utf8(d).unwrap(); if owned { Cow::Owned(t.to_string()) } else { Cow::Borrowed(t) } }
    match m { Msg::Text(t) => Message::text(s(t, owned)), Msg::Binary(d) => Message::binary(b(d, owned)), Msg::Ping(d) => Message::ping(b(d, owned)), Msg::Pong(d) => Message::pong(b(d, owned)), Msg::Close(None) => Message::close(), Msg::Close(Some((c, r))) => Message::close_because(*c, s(r, owned)) }
}
pub fn mshow(m: &Msg) -> String { let p = m.payload(); format!("{}({} bytes {})", match m { Msg::Text(_) => "Text", Msg::Binary(_) => "Binary", Msg::Ping(_) => "Ping", Msg::Pong(_) => "Pong", Msg::Close(_) => "Close" }, p.len(), hex(&p[..p.len().min(40)])) }

pub fn utf8_text(r: &mut Rng, chars: usize) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..chars { let c = match r.below(6) { 0 => *r.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}', '\0']), 1 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(), 2 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(), 3 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(), _ => (r.range(32, 126) as u8) as char }; s.push(c); }
    s.into_bytes()
}
pub fn maybe_bad(r: &mut Rng, mut d: Vec<u8>) -> Vec<u8> {
    match r.below(5) {
        0 if !d.is_empty() => { let i = r.below(d.len()); d[i] ^= 1 << r.below(8); }
        1 if !d.is_empty() => { d.truncate(d.len() - 1); }
        2 => { let bad: &[&[u8]] = &[&[0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe0, 0x80, 0x80], &[0x80], &[0xf0, 0x80, 0x80, 0x80], &[0xc3], &[0xf5, 0x80, 0x80, 0x80], &[0xfe]]; let p = r.below(d.len() + 1); let b: &[u8] = *r.pick(bad); let t = d.split_off(p); d.extend_from_slice(b); d.extend(t); }
        _ => {}
    }
    d
}
pub fn cut(r: &mut Rng, d: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut cuts: Vec<usize> = (1..n).map(|_| r.below(d.len() + 1)).collect(); cuts.sort();
    let mut out = vec![]; let mut a = 0; for c in cuts { out.push(d[a..c].to_vec()); a = c; } out.push(d[a..].to_vec()); out
}
/// message content of any kind
pub fn any_msg(r: &mut Rng, big: bool, illegal: bool) -> Msg {
    let c = r.below(7);
    let ctl = if illegal && r.one_in(3) { r.range(124, 300) } else { r.range(0, 125) };
    match c {
        0 | 1 => { let n = r.range(0, 60); Msg::Text(utf8_text(r, n)) }
        2 => { let n = pay_len(r, big); Msg::Binary(r.bytes(n)) }
        3 => Msg::Ping(r.bytes(ctl)), 4 => Msg::Pong(r.bytes(ctl)),
        5 => Msg::Close(None),
        _ => { let code = match r.below(3) { 0 => r.range(1000, 1015) as u16, 1 => *r.pick(&[0, 1, 255, 256, 999, 65535, 4999, 0x8000]), _ => r.next() as u16 }; let n = if illegal && r.one_in(3) { r.range(28, 60) } else { r.range(0, 25) }; let mut t = utf8_text(r, n); if !illegal { while t.len() > 123 { let s = String::from_utf8(t).unwrap(); let mut c = s.chars(); c.next_back(); t = c.as_str().as_bytes().to_vec(); } } Msg::Close(Some((code, t))) }
    }
}

fn assembly(cx: &mut Cx, case: u64) {
    let mut fs = vec![];
    let n = match case % 8 { 0 => cx.r.range(0, 1), 1..=4 => cx.r.range(1, 3), 5 | 6 => cx.r.range(2, 6), _ => cx.r.range(1, 40) };
    let op0 = match cx.r.below(8) { 0 => cx.r.below(20) as u8, 1 => cx.r.next() as u8, _ => *cx.r.pick(&[1, 1, 2, 8, 9, 10]) };
    let body = match op0 { 1 => { let k = cx.r.range(0, 30); let t = utf8_text(&mut cx.r, k); maybe_bad(&mut cx.r, t) } 8 => { let k = cx.r.range(0, 12); let t = utf8_text(&mut cx.r, k); let t = maybe_bad(&mut cx.r, t); let mut v = cx.r.bytes(2); v.extend(t); if cx.r.one_in(3) { v.truncate(cx.r.below(3)); } v } _ => { let k = pay_len(&mut cx.r, false); cx.r.bytes(k) } };
    let parts = if n == 0 { vec![] } else { cut(&mut cx.r, &body, n) };
    for (i, p) in parts.into_iter().enumerate() {
        let op = if i == 0 { op0 } else if cx.r.one_in(25) { cx.r.below(16) as u8 } else { 0 };
        let rsv = if cx.r.one_in(25) { cx.r.below(8) as u8 } else { 0 };
        fs.push(Fr { fin: cx.r.flip(), rsv, op, mask: None, data: p });
    }
    let want = assemble(&fs);
    let desc = || fs.iter().map(show).collect::<Vec<_>>().join(", ");
    cx.tr(|| desc());
    let custom = cx.r.flip() || fs.iter().any(|f| f.op > 15);
    let a = if custom { Message::from_dataframes(fs.iter().map(fx).collect::<Vec<_>>()) } else { Message::from_dataframes(fs.iter().map(df).collect::<Vec<_>>()) }.map(|m| of_msg(&m)).map_err(|e| ename(&e));
    let b = if custom { OwnedMessage::from_dataframes(fs.iter().map(fx).collect::<Vec<_>>()) } else { OwnedMessage::from_dataframes(fs.iter().map(df).collect::<Vec<_>>()) }.map(|m| of_owned(&m)).map_err(|e| ename(&e));
    let prop = match (&want, op0) { (Err("utf8"), _) => "P10", (Err("close1"), _) => "P11", (Ok(_), 1) => "P09|P10", (Ok(_), 8) => "P09|P10|P11", _ => "P09" };
    for (t, g) in [("Message", &a), ("OwnedMessage", &b)] {
        let ok = match (&want, g) { (Ok(w), Ok(x)) => w == x, (Err(_), Err(_)) => true, _ => false };
        cx.ck(prop, ok, || format!("{}::from_dataframes([{}]) = {:?}; expected {:?}", t, desc(), g.as_ref().map(mshow), want.as_ref().map(mshow)));
    }
    cx.note((fs.len(), op0, want.is_ok(), body.len()));
}

/// UTF-8: every 1- and 2-byte text, all lead/second byte pairs with sampled tails, split everywhere
fn utf8(cx: &mut Cx, case: u64) {
    let mut texts: Vec<Vec<u8>> = vec![];
    if case < 256 { for j in 0..=255u8 { texts.push(vec![case as u8, j]); let t = cx.r.bytes(2); texts.push([&[case as u8, j][..], &t].concat()); let t = [0x80 | t[0] & 63, 0x80 | t[1] & 63]; texts.push([&[case as u8, j][..], &t].concat()); texts.push([&[case as u8, j][..], &t[..1]].concat()); } texts.push(vec![case as u8]); }
    else { let n = cx.r.range(0, 50); let t = utf8_text(&mut cx.r, n); texts.push(t.clone()); texts.push(maybe_bad(&mut cx.r, t)); }
    for t in texts {
        let ok = utf8_ok(&t);
        let close = cx.r.one_in(2);
        let n = cx.r.range(1, 4);
        let mut body = if close { vec![3, 232] } else { vec![] }; body.extend_from_slice(&t);
        let parts = if close { vec![body] } else { cut(&mut cx.r, &body, n) };
        let last = parts.len() - 1;
        let fs: Vec<Fr> = parts.into_iter().enumerate().map(|(i, d)| Fr { fin: i == last, rsv: 0, op: if i > 0 { 0 } else if close { 8 } else { 1 }, mask: None, data: d }).collect();
        let g = OwnedMessage::from_dataframes(fs.iter().map(df).collect::<Vec<_>>());
        let want = if close { Msg::Close(Some((1000, t.clone()))) } else { Msg::Text(t.clone()) };
        cx.ck("P10", match &g { Ok(m) => ok && of_owned(m) == want, Err(_) => !ok }, || format!("{} {} in {} fragments ({}well-formed UTF-8) gave {:?}", if close { "close reason" } else { "text" }, hex(&t), fs.len(), if ok { "" } else { "not " }, g.as_ref().map(|m| mshow(&of_owned(m))).map_err(ename)));
        cx.note((&t, ok, close));
    }
    cx.tr(|| format!("byte {:02x}.. or random text", case & 255));
}

fn close(cx: &mut Cx, case: u64) {
    let code = case as u16;
    let n = cx.r.range(0, 30); let reason = utf8_text(&mut cx.r, n);
    let mut pay = vec![(code >> 8) as u8, code as u8]; pay.extend_from_slice(&reason);
    let g = OwnedMessage::from_dataframes(vec![df(&Fr { fin: true, rsv: 0, op: 8, mask: None, data: pay.clone() })]);
    cx.ck("P11", matches!(&g, Ok(OwnedMessage::Close(Some(c))) if c.status_code == code && c.reason.as_bytes() == &reason[..]), || format!("close payload {} gave {:?}", hex(&pay), g.as_ref().map(|m| mshow(&of_owned(m))).map_err(ename)));
    let rs = String::from_utf8(reason.clone()).unwrap();
    let cd = CloseData::new(code, rs.clone());
    let b = cd.clone().into_bytes();
    cx.ck("P11", matches!(&b, Ok(b) if *b == pay), || format!("CloseData({}, {:?}).into_bytes() = {:?}", code, rs, b));
    for m in [OwnedMessage::Close(Some(cd.clone())).take_payload(), Message::close_because(code, rs.clone()).take_payload()] { cx.ck("P11|P17", m == pay, || format!("payload of close {} {:?} is {}", code, rs, hex(&m))); }
    if pay.len() <= 125 {
        for masked in [false, true] {
            let (mut a, mut b2) = (vec![], vec![]);
            let _ = OwnedMessage::Close(Some(cd.clone())).serialize(&mut a, masked);
            let _ = Message::close_because(code, &rs[..]).serialize(&mut b2, masked);
            for o in [a, b2] { cx.ck("P11|P18", matches!(parse_frame(&o), Some((f, n)) if n == o.len() && f.op == 8 && f.fin && f.rsv == 0 && f.data == pay), || format!("close {} {:?} sent as {}", code, rs, hex(&o))); }
        }
    }
    for d in [vec![], vec![code as u8]] {
        let g = OwnedMessage::from_dataframes(vec![df(&Fr { fin: true, rsv: 0, op: 8, mask: None, data: d.clone() })]);
        cx.ck("P11", if d.is_empty() { matches!(g, Ok(OwnedMessage::Close(None))) } else { g.is_err() }, || format!("close payload {} gave {:?}", hex(&d), g.as_ref().map(|m| mshow(&of_owned(m))).map_err(ename)));
    }
    cx.tr(|| format!("close code {} with {} reason bytes", code, reason.len()));
    cx.note((code, reason.len()));
}

fn convert(cx: &mut Cx, case: u64) {
    let m = any_msg(&mut cx.r, case % 16 == 0, true);
    cx.tr(|| mshow(&m));
    let ow = cx.r.flip();
    let b = to_msg(&m, ow);
    cx.ck("P17", of_msg(&b) == m, || format!("Message constructor for {} gives {}", mshow(&m), mshow(&of_msg(&b))));
    let o: OwnedMessage = b.clone().into();
    cx.ck("P17", of_owned(&o) == m, || format!("OwnedMessage::from(Message) of {} is {}", mshow(&m), mshow(&of_owned(&o))));
    let o2 = to_owned_msg(&m);
    let b2: Message = o2.clone().into();
    cx.ck("P17", of_msg(&b2) == m, || format!("Message::from(OwnedMessage) of {} is {}", mshow(&m), mshow(&of_msg(&b2))));
    match &m { Msg::Text(t) => { let s = String::from_utf8(t.clone()).unwrap(); cx.ck("P17", of_owned(&OwnedMessage::from(s)) == m, || format!("OwnedMessage::from(String) of {}", mshow(&m))); } Msg::Binary(d) => { cx.ck("P17", of_owned(&OwnedMessage::from(d.clone())) == m, || format!("OwnedMessage::from(Vec) of {}", mshow(&m))); } _ => {} }
    let pay = m.payload();
    cx.ck("P17|P05", DF::size(&b) == pay.len() && DF::size(&o2) == pay.len(), || format!("size of {}: {} / {}", mshow(&m), DF::size(&b), DF::size(&o2)));
    let (mut w1, mut w2) = (vec![], vec![]);
    let _ = b.write_payload(&mut w1); let _ = o2.write_payload(&mut w2);
    cx.ck("P17", w1 == pay && w2 == pay, || format!("payload written by {}: {} / {}", mshow(&m), hex(&w1), hex(&w2)));
    let (t1, t2) = (b.clone().take_payload(), o2.clone().take_payload());
    cx.ck("P17", t1 == pay && t2 == pay, || format!("take_payload of {}: {} / {}", mshow(&m), hex(&t1), hex(&t2)));
    cx.ck("P17|P18", b.opcode() == m.op() && o2.opcode() == m.op() && b.is_last() && o2.is_last() && *b.reserved() == [false; 3] && *o2.reserved() == [false; 3], || format!("flags of {}: opcodes {} / {}", mshow(&m), b.opcode(), o2.opcode()));
    for masked in [false, true] {
        let (mut s1, mut s2) = (vec![], vec![]);
        let (r1, r2) = (b.serialize(&mut s1, masked), o2.serialize(&mut s2, masked));
        let ok = if masked { match (parse_frame(&s1), parse_frame(&s2)) { (Some((mut x, n)), Some((mut y, k))) => { let kk = x.mask.is_some() && y.mask.is_some(); x.mask = None; y.mask = None; kk && x == y && n == s1.len() && k == s2.len() } (None, None) => s1.is_empty() && s2.is_empty(), _ => false } } else { s1 == s2 };
        cx.ck("P17", ok && r1.is_ok() == r2.is_ok(), || format!("{} serialises differently from the two forms: {} / {}", mshow(&m), hex(&s1), hex(&s2)));
    }
    // equality of derived queries
    cx.ck("P17", o2.is_close() == (m.op() == 8) && o2.is_ping() == (m.op() == 9) && o2.is_pong() == (m.op() == 10) && o2.is_control() == (m.op() >= 8) && o2.is_data() == (m.op() < 8), || format!("kind queries of {}", mshow(&m)));
    let mut p = b.clone(); let was = m.op() == 9; let r = p.into_pong();
    cx.ck("P17", r.is_ok() == was && of_msg(&p) == if was { Msg::Pong(m.payload()) } else { m.clone() }, || format!("into_pong of {} gives {}", mshow(&m), mshow(&of_msg(&p))));
    cx.note((m.op(), pay.len()));
}

fn send(cx: &mut Cx, case: u64) {
    let m = any_msg(&mut cx.r, case % 8 == 0, true);
    let pay = m.payload();
    let legal = m.op() < 8 || pay.len() <= 125;
    cx.tr(|| mshow(&m));
    let o = to_owned_msg(&m); let b = to_msg(&m, false);
    for masked in [false, true] {
        for how in 0..8 {
            let mut w = ShortWriter::new(sizes(&mut cx.r));
            let mut role = "P06|P18";
            let pre = cx.r.below(5); let cap = *cx.r.pick(&[0usize, 1, 16, 64, 8192]);
            let mut bm = BytesMut::with_capacity(cap);
            if how >= 4 && how < 7 { bm.extend_from_slice(&vec![0xEE; pre]); }
            let ctx = if masked { Context::Client } else { Context::Server };
            let mut pred = None;
            let (name, r): (&str, Result<(), E>) = match how {
                0 => { role = "P18"; pred = Some(o.message_size(masked)); ("OwnedMessage::serialize", o.serialize(&mut w, masked)) }
                1 => { role = "P18"; pred = Some(b.message_size(masked)); ("Message::serialize", b.serialize(&mut w, masked)) }
                2 => ("Sender::send_message", websocket::sender::Sender::new(masked).send_message(&mut w, &o)),
                3 => ("Sender::send_dataframe", websocket::sender::Sender::new(masked).send_dataframe(&mut w, &b)),
                4 => ("MessageCodec<OwnedMessage>::encode", MessageCodec::default(ctx).encode(o.clone(), &mut bm)),
                5 => ("MessageCodec<Message>::encode", { let mut c: MessageCodec<Message> = MessageCodec::new(ctx); c.encode(b.clone(), &mut bm) }),
                6 => ("DataFrameCodec::encode", { let mut c: DataFrameCodec<Box<dyn DF>> = DataFrameCodec::new(ctx); c.encode(Box::new(fx(&Fr { fin: true, rsv: 0, op: m.op(), mask: None, data: pay.clone() })), &mut bm) }),
                _ => ("Writer::send_message", { let mut wr = websocket::sender::Writer { stream: ShortWriter::new(sizes(&mut cx.r)), sender: websocket::sender::Sender::new(masked) }; let r = if cx.r.flip() { wr.send_message(&b) } else { wr.send_dataframe(&o) }; w = wr.stream; r }),
            };
            let enc = how >= 4 && how < 7;
            let out = if enc { let v = bm.to_vec(); cx.ck("P18", v.len() >= pre && v[..pre].iter().all(|x| *x == 0xEE), || format!("{} of {} disturbed earlier bytes in the buffer", name, mshow(&m))); v[pre.min(v.len())..].to_vec() } else { w.out };
            if legal {
                let p = parse_frame(&out);
                cx.ck(if enc { "P18|P05" } else { "P18" }, r.is_ok() , || format!("{} (masked={}) of {} failed with {:?} (buffer capacity {}, {} bytes used)", name, masked, mshow(&m), r.as_ref().err().map(ename), cap, pre));
                cx.ck(if m.op() == 8 { "P18|P11|P03" } else { "P18|P03" }, matches!(&p, Some((f, n)) if *n == out.len() && f.fin && f.rsv == 0 && f.op == m.op() && f.data == pay), || format!("{} (masked={}) of {} wrote {}", name, masked, mshow(&m), hex(&out)));
                cx.ck(role, matches!(&p, Some((f, _)) if f.mask.is_some() == masked), || format!("{} (masked={}) of {} has the wrong mask bit: {}", name, masked, mshow(&m), hex(&out)));
                if let Some(k) = pred { cx.ck("P05", k == out.len(), || format!("{} masked={}: predicted {} bytes, serialised {}", mshow(&m), masked, k, out.len())); }
            } else {
                cx.ck("P18", r.is_err() && out.is_empty(), || format!("{} (masked={}) of {} cannot be sent legally, but gave {:?} and wrote {}", name, masked, mshow(&m), r.as_ref().map_err(ename), hex(&out)));
            }
            cx.note((m.op(), pay.len(), masked, how));
        }
    }
    // a failing writer: an error comes back and only a prefix was written
    let mut w = ShortWriter::new(vec![3]); let k = cx.r.range(1, 6); w.fail_calls = vec![k];
    let r = b.serialize(&mut w, false);
    let mut full = vec![]; let _ = b.serialize(&mut full, false);
    cx.ck("P18", full.starts_with(&w.out) && (r.is_ok() == (w.out.len() == full.len() && legal)), || format!("{} over a failing writer: {:?}, {} of {} bytes", mshow(&m), r.as_ref().map_err(ename), w.out.len(), full.len()));
}

pub fn sections() -> Vec<Section> {
    vec![
        Section { name: "assembly", props: &["P09", "P10", "P11", "P16"], quick: 300000, thorough: 5000000, f: assembly, rule: "random frame lists, mostly well-formed, built-in and user-defined frame types" },
        Section { name: "utf8", props: &["P10"], quick: 30000, thorough: 1000000, f: utf8, rule: "every pair of lead and second byte with tails, mutated texts, split at random places" },
        Section { name: "close", props: &["P11", "P16", "P17", "P18"], quick: 65536, thorough: 65536, f: close, rule: "every close code with a random reason" },
        Section { name: "convert", props: &["P05", "P17", "P18"], quick: 200000, thorough: 3000000, f: convert, rule: "messages of every kind, owned and borrowed payloads" },
        Section { name: "send", props: &["P03", "P05", "P06", "P11", "P18"], quick: 40000, thorough: 600000, f: send, rule: "messages of every kind through every sending entry point, both roles, short writers and small buffers" },
    ]
}
