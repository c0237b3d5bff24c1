use crate::core::*;
use crate::io::*;
use crate::model::*;
use crate::s_frame::*;
use crate::s_msg::*;
use crate::s_rx::*;
use bytes::BytesMut;
use futures::{Future, Sink, Stream as _};
use hyper::header::Headers;
use hyper::http::h1::Incoming;
use hyper::method::Method;
use hyper::version::HttpVersion;
use std::io::{Read, Write};
use std::str::FromStr;
use tokio_codec::{Decoder, Encoder, Framed, FramedParts};
use websocket::client::builder::ClientBuilder;
use websocket::client::sync::Client;
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::codec::ws::{Context, MessageCodec};
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Header, Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket::result::WebSocketError as E;
use websocket::server::upgrade::{r#async::IntoWs as AIntoWs, sync::IntoWs, sync::RequestStreamPair, HyperIntoWsError as H};
use websocket::stream::ReadWritePair;
use websocket::OwnedMessage;

const TOK: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
fn token(r: &mut Rng) -> String { let n = r.range(1, 9); (0..n).map(|_| *r.pick(&TOK[..62]) as char).collect() }
fn value(r: &mut Rng) -> String { let n = r.range(1, 20); let s: String = (0..n).map(|_| *r.pick(b"abcXYZ019 /;:=?@().-_,\"") as char).collect(); let t = s.trim().trim_matches(',').trim().to_string(); if t.is_empty() { "v".into() } else { t } }
fn recase(r: &mut Rng, s: &str) -> String { if r.flip() { return s.into(); } s.chars().map(|c| if r.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }

/// a head as start line and fields, in wire order
pub struct Head { pub start: String, pub fields: Vec<(String, String)> }
impl Head {
    pub fn get(&self, n: &str) -> Vec<&str> { self.fields.iter().filter(|f| f.0.eq_ignore_ascii_case(n)).map(|f| f.1.as_str()).collect() }
    pub fn bytes(&self) -> Vec<u8> { let mut s = format!("{}\r\n", self.start); for (k, v) in &self.fields { s.push_str(&format!("{}: {}\r\n", k, v)) } s.push_str("\r\n"); s.into_bytes() }
}
pub fn parse_head(b: &[u8]) -> Option<(Head, usize)> {
    let p = (0..b.len().saturating_sub(3)).find(|i| &b[*i..*i + 4] == b"\r\n\r\n")?;
    let t = std::str::from_utf8(&b[..p]).ok()?;
    let mut l = t.split("\r\n");
    let start = l.next()?.to_string();
    let mut fields = vec![];
    for x in l { let c = x.find(':')?; fields.push((x[..c].to_string(), x[c + 1..].trim().to_string())); }
    Some((Head { start, fields }, p + 4))
}

// ---------------------------------------------------------------- requests to a server

/// A handshake request and the conditions it violates.
pub fn request(r: &mut Rng, clean: bool) -> (Head, Vec<&'static str>, Option<[u8; 16]>) {
    let mut bad = vec![];
    let which = if clean { 0 } else { r.below(12) };
    let vio = |r: &mut Rng, n: usize| !clean && (which == n || r.one_in(12));
    let method = if vio(r, 1) { bad.push("MethodNotGet"); *r.pick(&["POST", "PUT", "HEAD", "OPTIONS", "DELETE", "PATCH", "TRACE", "get", "GETT"]) } else { "GET" };
    let ver = if vio(r, 2) { bad.push("UnsupportedHttpVersion"); "1.0" } else { "1.1" };
    let mut fields: Vec<(String, String)> = vec![];
    let mut key = None;
    let mut kb = [0u8; 16]; for x in &mut kb { *x = r.next() as u8; }
    if vio(r, 3) {
        bad.push("NoSecWsKeyHeader");
        let v = match r.below(6) { 0 => None, 1 => Some(b64(&kb[..15])), 2 => { let mut v = kb.to_vec(); v.push(1); Some(b64(&v)) } 3 => Some("not base64 at all!!".into()), 4 => Some(b64(&kb)[..21].to_string()), _ => Some(b64(&r.bytes(20))) };
        if let Some(v) = v { fields.push(("Sec-WebSocket-Key".into(), v)); }
    } else { fields.push(("Sec-WebSocket-Key".into(), b64(&kb))); key = Some(kb); }
    if vio(r, 4) && r.below(3) == 0 { bad.push("UnsupportedWebsocketVersion"); for v in *r.pick(&[&["8", "8"][..], &["13", "8"], &["8", "13"], &[""], &["", ""]]) { fields.push(("Sec-WebSocket-Version".into(), v.to_string())); } }
    else if vio(r, 4) { bad.push("UnsupportedWebsocketVersion"); fields.push(("Sec-WebSocket-Version".into(), r.pick(&["8", "12", "14", "130", "1 3", "0", "x13", "13.0", "013"]).to_string())); }
    else if r.below(4) > 0 { fields.push(("Sec-WebSocket-Version".into(), "13".into())); }
    if vio(r, 5) { if r.flip() { bad.push("NoUpgradeHeader") } else { bad.push("NoWsUpgradeHeader"); fields.push(("Upgrade".into(), r.pick(&["h2c", "websockets", "TLS/1.0, h2c", "web-socket", "HTTP/2.0"]).to_string())); } }
    else { let w = recase(r, "websocket"); let v = match r.below(5) { 0 => format!("h2c, {}", w), 1 => format!("{}, h2c", w), _ => w }; fields.push(("Upgrade".into(), v)); }
    if vio(r, 6) { if r.flip() { bad.push("NoConnectionHeader") } else { bad.push("NoWsConnectionHeader"); fields.push(("Connection".into(), r.pick(&["keep-alive", "close", "upgraded", "keep-alive, close", "up-grade", "keep-alive, x-upgrade"]).to_string())); } }
    else { let u = recase(r, "upgrade"); match r.below(9) { 0 => fields.push(("Connection".into(), format!("keep-alive, {}", u))), 1 => fields.push(("Connection".into(), format!("{}, keep-alive", u))), 4 => fields.push(("Connection".into(), format!("TE, {}", u))), 5 => fields.push(("Connection".into(), format!("HTTP2-Settings,close, {},x", u))), 6 => { fields.push(("Connection".into(), "X-Hop".into())); fields.push(("Connection".into(), u)); } 2 => { fields.push(("Connection".into(), "keep-alive".into())); fields.push(("Connection".into(), u)); } 3 => fields.push(("Connection".into(), format!("close , {}", u))), _ => fields.push(("Connection".into(), u)) } }
    fields.push(("Host".into(), "example.com".into()));
    for _ in 0..r.below(4) { let n = format!("X-{}", token(r)); let v = value(r); fields.push((n, v)); }
    // wire order and letter case do not matter (same-named fields keep their order)
    for i in (1..fields.len()).rev() { let j = r.below(i + 1); if !fields[i].0.eq_ignore_ascii_case("connection") && !fields[j].0.eq_ignore_ascii_case("connection") { fields.swap(i, j); } }
    for f in &mut fields { f.0 = recase(r, &f.0); }
    let uri = format!("/{}{}", token(r), if r.flip() { "?a=b" } else { "" });
    (Head { start: format!("{} {} HTTP/{}", method, uri, ver), fields }, bad, key)
}
fn hname(e: &H) -> String { let s = format!("{:?}", e); s.split('(').next().unwrap().to_string() }
fn hdrs(f: &[(String, String)]) -> Headers { let mut h = Headers::new(); for (k, v) in f { h.append_raw(k.clone(), v.as_bytes().to_vec()); } h }

fn srv_validate(cx: &mut Cx, case: u64) {
    let (head, bad, key) = request(&mut cx.r, case % 4 == 0);
    let n = cx.r.range(0, 30); let tail = cx.r.bytes(n);
    let mut data = head.bytes(); data.extend_from_slice(&tail);
    let txt = String::from_utf8_lossy(&head.bytes()).into_owned();
    cx.tr(|| format!("{:?} (violates {:?})", txt, bad));
    let verdict = |e: Option<String>| match (&e, bad.is_empty()) { (None, true) => true, (Some(e), false) => bad.contains(&e.as_str()), _ => false };
    let (sz, wsz) = (sizes(&mut cx.r), sizes(&mut cx.r));
    // blocking
    let (p, out) = pair(data.clone(), sz.clone(), wsz.clone(), false);
    match IntoWs::into_ws(p) {
        Ok(u) => {
            cx.ck("P20", bad.is_empty(), || format!("blocking server accepted {:?}, which violates {:?}", txt, bad));
            if bad.is_empty() { cx.ck("P20|P21", u.key() == key.as_ref(), || format!("key of {:?} is reported as {:?}", txt, u.key())); }
            let b = u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
            let s = &u.stream.0;
            cx.ck("P24", [b.clone(), s.data[s.pos..].to_vec()].concat() == tail, || format!("after the head {:?} the bytes {} follow; the upgrade kept {} in its buffer and {} in the stream", txt, hex(&tail), hex(&b), hex(&s.data[s.pos..])));
        }
        Err((s, req, buf, e)) => {
            cx.ck("P20", verdict(Some(hname(&e))), || format!("blocking server refused {:?} with {:?}; violated conditions {:?}", txt, e, bad));
            if !bad.is_empty() {
                cx.ck("P20", req.map_or(false, |q| format!("{} {} {}", q.subject.0, q.subject.1, q.version) == head.start), || format!("the request {:?} was not handed back", txt));
                let b = buf.map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
                cx.ck("P24|P20", [b.clone(), s.0.data[s.0.pos..].to_vec()].concat() == tail, || format!("refusing {:?} lost bytes behind the head: buffer {}", txt, hex(&b)));
            }
        }
    }
    let o = out.lock().unwrap().clone();
    cx.ck("P20", o.is_empty(), || format!("deciding on {:?} wrote {:?}", txt, String::from_utf8_lossy(&o)));
    // asynchronous
    let (p, out) = pair(data.clone(), sz, wsz, cx.r.flip());
    match AIntoWs::into_ws(p).wait() {
        Ok(u) => {
            cx.ck("P20", bad.is_empty(), || format!("asynchronous server accepted {:?}, which violates {:?}", txt, bad));
            let s = &u.stream.0;
            cx.ck("P24", [u.buffer.to_vec(), s.data[s.pos..].to_vec()].concat() == tail, || format!("after the head {:?} the bytes {} follow; the async upgrade kept {}", txt, hex(&tail), hex(&u.buffer)));
        }
        Err((s, req, buf, e)) => {
            cx.ck("P20", verdict(Some(hname(&e))), || format!("asynchronous server refused {:?} with {:?}; violated conditions {:?}", txt, e, bad));
            if !bad.is_empty() {
                cx.ck("P20", req.map_or(false, |q| format!("{} {} {}", q.subject.0, q.subject.1, q.version) == head.start), || format!("the request {:?} was not handed back (async)", txt));
                cx.ck("P24|P20", [buf.to_vec(), s.0.data[s.0.pos..].to_vec()].concat() == tail, || format!("refusing {:?} lost bytes behind the head (async): buffer {}", txt, hex(&buf)));
            }
        }
    }
    let o = out.lock().unwrap().clone();
    cx.ck("P20", o.is_empty(), || format!("deciding on {:?} wrote {:?}", txt, String::from_utf8_lossy(&o)));
    // already parsed requests, with versions only a library can hand over
    let m = Method::from_str(head.start.split(' ').next().unwrap()).unwrap();
    let mut bad2: Vec<&str> = bad.iter().cloned().filter(|b| *b != "UnsupportedHttpVersion").collect();
    let v = *cx.r.pick(&[HttpVersion::Http09, HttpVersion::Http10, HttpVersion::Http11, HttpVersion::Http11, HttpVersion::Http20]);
    if v == HttpVersion::Http09 || v == HttpVersion::Http10 { bad2.push("UnsupportedHttpVersion"); }
    let h = hdrs(&head.fields);
    let g = websocket::server::upgrade::validate(&m, v, &h);
    cx.ck("P20", match &g { Ok(()) => bad2.is_empty(), Err(e) => bad2.contains(&hname(e).as_str()) }, || format!("validate({}, {}, {:?}) = {:?}; violated conditions {:?}", m, v, h, g, bad2));
    let (p, out) = pair(vec![], vec![], vec![], false);
    let g = RequestStreamPair(p, Incoming { version: v, subject: (m.clone(), hyper::uri::RequestUri::AbsolutePath("/x".into())), headers: h }).into_ws();
    match g {
        Ok(_) => { cx.ck("P20", bad2.is_empty(), || format!("RequestStreamPair accepted {} {} {:?}, which violates {:?}", m, v, head.fields, bad2)); }
        Err((_, q, e)) => { cx.ck("P20", bad2.contains(&hname(&e).as_str()) && q.subject.0 == m && q.version == v, || format!("RequestStreamPair refused {} {} {:?} with {:?}; violated {:?}", m, v, head.fields, e, bad2)); }
    }
    cx.ck("P20", out.lock().unwrap().is_empty(), || "RequestStreamPair wrote something".into());
    // a request that hyper's own server has read from a connection
    {
        let (sz, wsz) = (sizes(&mut cx.r), sizes(&mut cx.r));
        let (ReadWritePair(r, w), out) = pair(data.clone(), sz, wsz, false);
        let mut net = Net(r, w);
        let kept;
        {
            let dy: &mut dyn hyper::net::NetworkStream = &mut net;
            let mut br = hyper::buffer::BufReader::new(dy);
            kept = match hyper::server::Request::new(&mut br, ([127, 0, 0, 1], 9).into()) {
                Err(_) => None,
                Ok(q) => match websocket::server::upgrade::sync::HyperRequest(q).into_ws() {
                    Ok(u) => {
                        cx.ck("P20", bad.is_empty(), || format!("a request of hyper's server was accepted: {:?}, which violates {:?}", txt, bad));
                        if bad.is_empty() { cx.ck("P20|P21", u.key() == key.as_ref(), || format!("key of {:?} is reported as {:?} (hyper)", txt, u.key())); }
                        cx.ck("P20", format!("{} {} {}", u.request.subject.0, u.request.subject.1, u.request.version) == head.start, || format!("the request {:?} of hyper's server is handed on as {} {} {}", txt, u.request.subject.0, u.request.subject.1, u.request.version));
                        Some(u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default())
                    }
                    Err((q, e)) => {
                        cx.ck("P20", verdict(Some(hname(&e))), || format!("a request of hyper's server was refused: {:?} with {:?}; violated conditions {:?}", txt, e, bad));
                        cx.ck("P20", format!("{} {} {}", q.method, q.uri, q.version) == head.start, || format!("the request {:?} of hyper's server was not handed back", txt));
                        None
                    }
                }
            };
        }
        if let Some(b) = kept {
            let rest = net.0.data[net.0.pos..].to_vec();
            cx.ck("P24", [b.clone(), rest.clone()].concat() == tail, || format!("after the head {:?} of a request of hyper's server the bytes {} follow; the upgrade kept {} in its buffer and {} in the stream", txt, hex(&tail), hex(&b), hex(&rest)));
        }
        cx.ck("P20", out.lock().unwrap().is_empty(), || "deciding on a request of hyper's server wrote something".into());
    }
    // damaged heads and heads that end early are refused without an answer
    if case % 3 == 0 {
        let mut d = head.bytes(); let k = cx.r.below(d.len());
        let what = cx.r.below(3);
        match what { 0 => d.truncate(k), 1 => { d = b"\x16\x03\x01 garbage \r\n\r\n".to_vec(); } _ => { d = [b"GET\r\n".to_vec(), d].concat(); } }
        for asy in [false, true] {
            let (p, out) = pair(d.clone(), sizes(&mut cx.r), vec![], false);
            let ok = if asy { AIntoWs::into_ws(p).wait().is_ok() } else { IntoWs::into_ws(p).is_ok() };
            cx.ck("P20", !ok && out.lock().unwrap().is_empty(), || format!("server (async={}) accepted or answered {:?}", asy, String::from_utf8_lossy(&d)));
        }
    }
    cx.note((&txt.len(), format!("{:?}", bad)));
}

// ---------------------------------------------------------------- connections after the handshake

enum Lim { Default, Set(usize, usize) }
fn limits_of(r: &mut Rng) -> Lim { if r.one_in(3) { Lim::Default } else { Lim::Set(match r.below(4) { 0 => r.range(0, 130), 1 => 1 << 20, 2 => usize::MAX, _ => r.range(100, 3000) }, match r.below(4) { 0 => r.range(0, 500), 1 => r.range(200, 6000), 2 => usize::MAX, _ => 1 << 20 }) } }

/// bytes a peer sends after the handshake, and the results they must produce
struct Post { data: Vec<u8>, want: Vec<Ev>, what: String, prop: &'static str, prefix_exact: bool }
fn post(r: &mut Rng, masked: bool, lim: &Lim) -> Post {
    let (fl, ml) = match lim { Lim::Default => (100 << 20, 200 << 20), Lim::Set(f, m) => (*f, *m) };
    match r.below(4) {
        0 => { // one frame on either side of the frame limit
            let f = (fl as u64).min(u32::MAX as u64);
            let len = *r.pick(&[f, f + 1, f.saturating_sub(1), f + 2, f + 1000]);
            let real = len <= 5000;
            let mut d = encode_header(&Hd { fin: true, rsv: 0, op: 2, mask: if masked { Some([0; 4]) } else { None }, len });
            if real { d.resize(d.len() + len as usize, 0x31); }
            let want = if len > f { vec![Ev::Err("frame-limit", 0)] } else if real { vec![Ev::M(Msg::Binary(vec![0x31; len as usize]), d.len()), Ev::End] } else { vec![Ev::End] };
            Post { what: format!("one frame of {} bytes", len), data: d, want, prop: "P28|P08", prefix_exact: true }
        }
        1 if ml <= 10000 && ml <= fl => { // an unfinished message on either side of the message limit
            let over = r.flip();
            let k = if masked { Some(r.key()) } else { None };
            let mut fs = vec![]; let mut want = vec![];
            if over { fs.push(Fr { fin: false, rsv: 0, op: 2, mask: k, data: vec![7; ml] }); fs.push(Fr { fin: false, rsv: 0, op: 0, mask: k, data: vec![7; 1] }); fs.push(Fr { fin: false, rsv: 0, op: 0, mask: k, data: vec![7; 1] }); fs.push(Fr { fin: true, rsv: 0, op: 0, mask: k, data: vec![] }); want.push(Ev::Err("message-limit", 0)); }
            else if ml > 256 { let t = ml - 1 - 192; let a = r.below(t + 1); let b = r.below(t - a + 1); for (i, n) in [a, b, t - a - b].iter().enumerate() { fs.push(Fr { fin: i == 2, rsv: 0, op: if i == 0 { 2 } else { 0 }, mask: k, data: vec![7; *n] }); } want.push(Ev::M(Msg::Binary(vec![7; t]), 0)); want.push(Ev::End); }
            else { want.push(Ev::End); }
            Post { what: format!("a fragmented message {} the message limit", if over { "beyond" } else { "within" }), data: fs.iter().flat_map(|f| f.bytes()).collect(), want, prop: "P28|P15", prefix_exact: true }
        }
        _ => {
            let clean = r.flip();
            let mut s = script(r, masked, clean, 90);
            if !s.tail.is_empty() && fl < 40 { s.tail.clear(); }
            let mut want = expect(&s, fl);
            // cut where the message limit might act
            let mut tot = 0; let mut ok = true; let mut n = 0;
            for (f, _) in &s.frames { if f.op < 8 { tot = if f.op == 0 { tot } else { 0 } + f.data.len() + 64; if tot >= ml { ok = false; } } }
            if !ok { for w in &want { match w { Ev::M(..) => n += 1, _ => break } } want.truncate(n.min(0)); }
            Post { what: s.show(), data: s.bytes(), want, prop: "P24|P06", prefix_exact: ok }
        }
    }
}
fn res_ok(w: &Ev, g: &Result<Msg, E>) -> bool { match (w, g) { (Ev::M(m, _), Ok(x)) => m == x, (Ev::Err(_, _), Err(_)) => true, (Ev::End, Err(E::NoDataAvailable)) => true, _ => false } }
fn gshow(g: &Result<Msg, E>) -> String { match g { Ok(m) => mshow(m), Err(e) => ename(e) } }
fn prop_for(p: &Post, w: &Ev) -> &'static str { match w { Ev::Err("mask", _) => "P06", Ev::Err("frame-limit", _) => "P28|P08", Ev::Err("message-limit", _) => "P28|P15", _ => p.prop } }

fn after_sync(cx: &mut Cx, mut c: Client<Pair>, p: &Post, server: bool, out: &Out, who: &str) {
    // sending: masked exactly when we are the client
    let before = out.lock().unwrap().len();
    let m = any_msg(&mut cx.r, false, false);
    let r = if cx.r.flip() { c.send_message(&to_owned_msg(&m)) } else { c.send_dataframe(&df(&Fr { fin: true, rsv: 0, op: m.op(), mask: None, data: m.payload() })) };
    let sent = out.lock().unwrap()[before..].to_vec();
    let f = parse_frame(&sent);
    cx.ck("P06", matches!(&f, Some((f, n)) if *n == sent.len() && f.mask.is_some() == !server) && r.is_ok(), || format!("{} sends {} as {}", who, mshow(&m), hex(&sent)));
    cx.ck("P18", matches!(&f, Some((f, n)) if *n == sent.len() && f.data == m.payload() && f.op == m.op() && f.fin), || format!("{} sends {} as {}", who, mshow(&m), hex(&sent)));
    match cx.r.below(6) {
        5 => {
            use std::io::{Read as _, Write as _};
            let before = out.lock().unwrap().len();
            let r = c.writer_mut().write_all(b"raw").and_then(|_| c.writer_mut().flush());
            let sent = out.lock().unwrap()[before..].to_vec();
            cx.ck("P24", r.is_ok() && sent == b"raw", || format!("{}: writer_mut sends {} for 726177", who, hex(&sent)));
            let mut got = vec![0u8; p.data.len()];
            let r = c.reader_mut().read_exact(&mut got);
            cx.ck("P24", r.is_ok() && got == p.data, || format!("{}: reader_mut says {:?} and reads {}, but {} followed the handshake", who, r, hex(&got), hex(&p.data)));
        }
        0 => {
            let (s, b) = c.into_stream();
            let b = b.map(|(b, p, c)| b[p..c].to_vec()).unwrap_or_default();
            let all = [b.clone(), s.0.data[s.0.pos..].to_vec()].concat();
            cx.ck("P24", all == p.data, || format!("{}: into_stream gives back {} buffered bytes and {} unread ones, but {} bytes followed the handshake", who, b.len(), s.0.data.len() - s.0.pos, p.data.len()));
        }
        1 => {
            let k = cx.r.below(p.want.len() + 1);
            let mut hist = vec![];
            for i in 0..k { let g = c.recv_message().map(|m| of_owned(&m)); hist.push(gshow(&g)); if !res_ok(&p.want[i], &g) { cx.ck(prop_for(p, &p.want[i]), false, || format!("{} receiving {}: got {:?}, expected {}", who, p.what, hist, evshow(&p.want))); return; } if g.is_err() { return; } }
            let (mut rd, mut wr) = match c.split() { Ok(x) => x, Err(e) => { cx.ck("P24", false, || format!("split failed: {}", e)); return; } };
            for w in &p.want[k..] { let g = rd.recv_message().map(|m| of_owned(&m)); hist.push(gshow(&g)); cx.ck(prop_for(p, w), res_ok(w, &g), || format!("{} split after {} messages, receiving {}: got {:?}, expected {}", who, k, p.what, hist, evshow(&p.want))); if g.is_err() { break; } }
            let before = out.lock().unwrap().len();
            let _ = wr.send_message(&to_owned_msg(&m));
            let sent = out.lock().unwrap()[before..].to_vec();
            cx.ck("P06|P24", matches!(parse_frame(&sent), Some((f, n)) if n == sent.len() && f.mask.is_some() == !server && f.data == m.payload()), || format!("{}: writer half sends {} as {}", who, mshow(&m), hex(&sent)));
        }
        how => {
            let mut hist = vec![];
            if how == 2 { let mut it = c.incoming_messages(); for w in &p.want { let g = match it.next() { Some(g) => g.map(|m| of_owned(&m)), None => { cx.ck("P29", false, || format!("{}: incoming_messages ended by itself", who)); return; } }; hist.push(gshow(&g)); cx.ck(prop_for(p, w), res_ok(w, &g), || format!("{} receiving {} (iterator): got {:?}, expected {}", who, p.what, hist, evshow(&p.want))); if g.is_err() { break; } } }
            else { for w in &p.want { let g = c.recv_message().map(|m| of_owned(&m)); hist.push(gshow(&g)); cx.ck(prop_for(p, w), res_ok(w, &g), || format!("{} receiving {}: got {:?}, expected {}", who, p.what, hist, evshow(&p.want))); if g.is_err() { break; } } }
        }
    }
    let _ = p.prefix_exact;
}
fn after_async(cx: &mut Cx, c: Framed<Pair, MessageCodec<OwnedMessage>>, p: &Post, server: bool, out: &Out, who: &str) {
    let before = out.lock().unwrap().len();
    let m = any_msg(&mut cx.r, false, false);
    let mut c = match c.send(to_owned_msg(&m)).wait() { Ok(c) => c, Err(e) => { cx.ck("P06|P18", false, || format!("{} cannot send {}: {}", who, mshow(&m), ename(&e))); return; } };
    let sent = out.lock().unwrap()[before..].to_vec();
    cx.ck("P06|P18", matches!(parse_frame(&sent), Some((f, n)) if n == sent.len() && f.mask.is_some() == !server && f.data == m.payload() && f.op == m.op()), || format!("{} sends {} as {}", who, mshow(&m), hex(&sent)));
    if cx.r.one_in(6) {
        let q = c.into_parts();
        let all = [q.read_buf.to_vec(), q.io.0.data[q.io.0.pos..].to_vec()].concat();
        cx.ck("P24", all == p.data, || format!("{}: {} bytes buffered and {} unread, but {} bytes followed the handshake", who, q.read_buf.len(), q.io.0.data.len() - q.io.0.pos, p.data.len()));
        return;
    }
    let mut hist: Vec<String> = vec![];
    for w in &p.want {
        // a truncated frame at the end of the stream shows as an error or as the end
        let (g, rest) = match c.into_future().wait() { Ok((g, rest)) => (Ok(g.map(|m| of_owned(&m))), rest), Err((e, rest)) => (Err(e), rest) };
        c = rest;
        hist.push(match &g { Ok(Some(m)) => mshow(m), Ok(None) => "end".into(), Err(e) => ename(e) });
        let ok = match (w, &g) { (Ev::M(m, _), Ok(Some(x))) => m == x, (Ev::Err("message-limit", _), Err(_)) | (Ev::Err(..), Err(_)) => true, (Ev::End, Ok(None)) => true, (Ev::End, Err(E::IoError(_))) => true, _ => false };
        cx.ck(prop_for(p, w), ok, || format!("{} receiving {}: got {:?}, expected {}", who, p.what, hist, evshow(&p.want)));
        if !matches!(g, Ok(Some(_))) { break; }
    }
}

// ---------------------------------------------------------------- server answers

fn split_list(v: &[&str]) -> Vec<String> { v.iter().flat_map(|x| x.split(',')).map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect() }
fn ext_str(e: &Extension) -> String { let mut s = e.name.clone(); for p in &e.params { s.push_str("; "); s.push_str(&p.name); if let Some(v) = &p.value { s.push('='); s.push_str(v) } } s }
fn rand_ext(r: &mut Rng) -> Extension { let mut e = Extension::new(token(r)); for _ in 0..r.below(3) { let n = token(r); let v = if r.flip() { Some(token(r)) } else { None }; e.params.push(Parameter::new(n, v)); } e }
fn custom(r: &mut Rng, attack: bool) -> (Headers, Vec<(String, String)>) {
    let mut h = Headers::new(); let mut l: Vec<(String, String)> = vec![];
    for i in 0..r.below(4) { let n = format!("X-{}{}", token(r), i); let v = value(r); h.set_raw(n.clone(), vec![v.as_bytes().to_vec()]); l.push((n, v)); }
    if attack { for (n, v) in [("Upgrade", "h2c"), ("Connection", "close"), ("Sec-WebSocket-Accept", "AAAAAAAAAAAAAAAAAAAAAAAAAAA="), ("Sec-WebSocket-Accept", "bogus")] { if r.one_in(3) { let n = recase(r, n); h.set_raw(n, vec![v.as_bytes().to_vec()]); } } }
    (h, l)
}

fn srv_accept(cx: &mut Cx, case: u64) {
    let asy = case % 2 == 1;
    let (head, _, key) = request(&mut cx.r, true);
    let key = key.unwrap();
    let lim = limits_of(&mut cx.r);
    let p = post(&mut cx.r, true, &lim);
    let mut data = head.bytes(); let hl = data.len(); data.extend_from_slice(&p.data);
    let attack = cx.r.flip();
    let (ch, cl) = custom(&mut cx.r, attack);
    let use_custom = cx.r.below(3) > 0;
    let nproto = cx.r.below(3); let protos: Vec<String> = (0..nproto).map(|_| token(&mut cx.r)).collect();
    let next = cx.r.below(3); let exts: Vec<Extension> = (0..next).map(|_| rand_ext(&mut cx.r)).collect();
    let (rs, ws) = (sizes(&mut cx.r), sizes(&mut cx.r));
    let (mut pr, out) = pair(data, rs, ws, asy && cx.r.flip());
    let reject = cx.r.one_in(5);
    let fail = !reject && cx.r.one_in(12);
    if fail { pr.1.fail_after = Some(cx.r.below(60)); }
    let who = format!("{} server", if asy { "asynchronous" } else { "blocking" });
    let sum = format!("{} answering {:?} with protocols {:?}, extensions {:?}, custom headers {}", who, String::from_utf8_lossy(&head.bytes()), protos, exts.iter().map(ext_str).collect::<Vec<_>>(), if use_custom { ch.to_string() } else { "none".into() });
    cx.tr(|| format!("{} then {}", sum, p.what));
    macro_rules! dress { ($u:expr) => {{ let mut u = $u; for q in &protos { u = u.use_protocol(q.clone()); } if cx.r.flip() { for e in &exts { u = u.use_extension(e.clone()); } } else if !exts.is_empty() { u = u.use_extensions(exts.clone()); } u }} }
    enum Got { S(Client<Pair>), A(Framed<Pair, MessageCodec<OwnedMessage>>), Rej(Vec<u8>), Fail }
    let got = if asy {
        let u = match AIntoWs::into_ws(pr).wait() { Ok(u) => u, Err(e) => { cx.ck("P20|P21|P24|P28|P06", false, || format!("{} refused a valid request: {:?} {:?}", who, e.3, String::from_utf8_lossy(&head.bytes()))); return; } };
        let u = dress!(u);
        if reject { match if use_custom { u.reject_with(&ch) } else { u.reject() }.wait() { Ok(f) => { let q = f.into_parts(); Got::Rej([q.read_buf.to_vec(), q.io.0.data[q.io.0.pos..].to_vec()].concat()) } Err(_) => Got::Fail } }
        else { let f = match (&lim, use_custom) { (Lim::Default, false) => u.accept(), (Lim::Default, true) => u.accept_with(&ch), (Lim::Set(f, m), false) => u.accept_with_limits(*f, *m), (Lim::Set(f, m), true) => u.accept_with_headers_and_limits(&ch, *f, *m) }; match f.wait() { Ok((c, _)) => Got::A(c), Err(_) => Got::Fail } }
    } else {
        let u = match IntoWs::into_ws(pr) { Ok(u) => u, Err(e) => { cx.ck("P20|P21|P24|P28|P06", false, || format!("{} refused a valid request: {:?} {:?}", who, e.3, String::from_utf8_lossy(&head.bytes()))); return; } };
        let u = dress!(u);
        if reject { match if use_custom { u.reject_with(&ch) } else { u.reject() } { Ok(s) => Got::Rej(s.0.data[s.0.pos..].to_vec()), Err(_) => Got::Fail } }
        else { match match (&lim, use_custom) { (Lim::Default, false) => u.accept(), (Lim::Default, true) => u.accept_with(&ch), (Lim::Set(f, m), false) => u.accept_with_limits(*f, *m), (Lim::Set(f, m), true) => u.accept_with_headers_and_limits(&ch, *f, *m) } { Ok(c) => Got::S(c), Err(_) => Got::Fail } }
    };
    let o = out.lock().unwrap().clone();
    let _ = hl;
    if fail { cx.ck("P21", matches!(got, Got::Fail), || format!("{}: the answer could not be written, yet accepting succeeded", sum)); return; }
    if let Got::Fail = got { cx.ck("P21|P24|P28|P06", false, || format!("{}: failed", sum)); return; }
    let h = match parse_head(&o) { Some((h, n)) if n == o.len() => h, _ => { cx.ck("P21", false, || format!("{}: wrote {:?}", sum, String::from_utf8_lossy(&o))); return; } };
    let os = String::from_utf8_lossy(&o).into_owned();
    if reject {
        cx.ck("P21", h.start.starts_with("HTTP/1.1 400 "), || format!("{}: rejecting wrote {:?}", sum, os));
        if let Got::Rej(rest) = &got { if !asy { cx.ck("P21", p.data.ends_with(rest), || "rejecting did not hand the stream back".into()); } else { cx.ck("P21|P24", *rest == p.data, || format!("rejecting lost bytes: {} of {} left", rest.len(), p.data.len())); } }
    } else {
        cx.ck("P21", h.start.starts_with("HTTP/1.1 101 "), || format!("{}: start line {:?}", sum, h.start));
        for (n, v) in [("Upgrade", "websocket".to_string()), ("Connection", "Upgrade".to_string()), ("Sec-WebSocket-Accept", accept_for(&b64(&key)))] {
            let g = h.get(n);
            let ok = g.len() == 1 && if n == "Sec-WebSocket-Accept" { g[0] == v } else { g[0].eq_ignore_ascii_case(&v) };
            cx.ck(if n == "Sec-WebSocket-Accept" { "P21|P19" } else { "P21" }, ok, || format!("{}: {} is {:?}, expected {:?} once", sum, n, g, v));
        }
    }
    cx.ck("P21", split_list(&h.get("Sec-WebSocket-Protocol")) == protos && split_list(&h.get("Sec-WebSocket-Extensions")) == exts.iter().map(ext_str).collect::<Vec<_>>(), || format!("{}: answered {:?}", sum, os));
    if use_custom { for (n, v) in &cl { cx.ck("P21", h.get(n) == vec![v.as_str()], || format!("{}: custom header {} is {:?}", sum, n, h.get(n))); } }
    cx.note((o.len(), reject, asy, p.data.len()));
    match got { Got::S(c) => after_sync(cx, c, &p, true, &out, &who), Got::A(c) => after_async(cx, c, &p, true, &out, &who), _ => {} }
}

// ---------------------------------------------------------------- clients

pub struct Resp { pub head: Head, pub bad: Vec<&'static str> }
pub fn response(r: &mut Rng, key_text: &str, clean: bool) -> Resp {
    let mut bad = vec![]; let mut fields: Vec<(String, String)> = vec![];
    let which = if clean { 0 } else { r.below(6) };
    let vio = |r: &mut Rng, n: usize| !clean && (which == n || r.one_in(12));
    let mut status = "101 Switching Protocols".to_string();
    if vio(r, 1) { bad.push("status"); status = r.pick(&["200 OK", "100 Continue", "102 Processing", "400 Bad Request", "300 Multiple Choices", "301 Moved Permanently", "302 Found", "303 See Other", "304 Not Modified", "307 Temporary Redirect", "308 Permanent Redirect", "399 Foo", "404 Not Found", "500 Oops", "299 Foo", "201 Created", "426 Upgrade Required", "110 Foo"]).to_string(); if status.starts_with('3') && r.flip() { { let l = r.pick(&["ws://example.com/", "wss://x:1/y?z", "/relative"]).to_string(); fields.push(("Location".into(), l)) }; } }
    if vio(r, 2) { bad.push("upgrade"); match r.below(3) { 0 => {} _ => fields.push(("Upgrade".into(), r.pick(&["h2c", "websockets", "web", "TLS/1.0"]).to_string())) } } else { let w = recase(r, "websocket"); fields.push(("Upgrade".into(), w)); }
    if vio(r, 3) { bad.push("connection"); match r.below(3) { 0 => {} _ => fields.push(("Connection".into(), r.pick(&["keep-alive", "close", "upgraded", "keep-alive, close", "TE", "x, y"]).to_string())) } } else { let u = recase(r, "upgrade"); match r.below(7) { 0 => fields.push(("Connection".into(), format!("keep-alive, {}", u))), 2 => fields.push(("Connection".into(), format!("TE, {}", u))), 3 => fields.push(("Connection".into(), format!("X-Hop,close,{}, y", u))), 1 => fields.push(("Connection".into(), format!("{}, keep-alive", u))), _ => fields.push(("Connection".into(), u)) } }
    let acc = accept_for(key_text);
    if vio(r, 4) { bad.push("accept"); match r.below(6) { 0 => {} 1 => fields.push(("Sec-WebSocket-Accept".into(), accept_for("dGhlIHNhbXBsZSBub25jZQ=="))), 2 => fields.push(("Sec-WebSocket-Accept".into(), key_text.to_string())), 3 => fields.push(("Sec-WebSocket-Accept".into(), acc[..25].to_string())), 4 => { let mut c: Vec<char> = acc.chars().collect(); let i = r.below(26); c[i] = if c[i] == 'A' { 'B' } else { 'A' }; fields.push(("Sec-WebSocket-Accept".into(), c.into_iter().collect())) } _ => { let sw: String = acc.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(); fields.push(("Sec-WebSocket-Accept".into(), sw)) } } } else { fields.push(("Sec-WebSocket-Accept".into(), acc)); }
    for _ in 0..r.below(3) { let n = format!("X-{}", token(r)); let v = value(r); fields.push((n, v)); }
    for i in (1..fields.len()).rev() { let j = r.below(i + 1); fields.swap(i, j); }
    for f in &mut fields { f.0 = recase(r, &f.0); }
    Resp { head: Head { start: format!("HTTP/1.1 {}", status), fields }, bad }
}

pub struct Plan { pub url: String, pub path: String, host: String, auth: Option<String>, pub protos: Vec<String>, exts: Vec<Extension>, origin: Option<String>, pub key: Option<[u8; 16]>, pub version: Option<String>, cust: Vec<(String, String)> }
fn plan(r: &mut Rng) -> (Plan, ClientBuilder<'static>, Vec<String>) {
    let scheme = *r.pick(&["ws", "wss", "ws", "http", "https"]);
    let hn = *r.pick(&["example.com", "127.0.0.1", "[::1]", "a.b.c", "localhost"]);
    let dp = if scheme == "ws" || scheme == "http" { 80 } else { 443 };
    let port = match r.below(4) { 0 => Some(dp), 1 => Some(*r.pick(&[8080, 1, 65535, 81])), 2 => Some(if dp == 80 { 443 } else { 80 }), _ => None };
    plan_at(r, scheme, hn, port)
}
/// a URL on that authority and a random history of builder calls
pub fn plan_at(r: &mut Rng, scheme: &str, hn: &str, port: Option<u16>) -> (Plan, ClientBuilder<'static>, Vec<String>) {
    let dp = if scheme == "ws" || scheme == "http" { 80 } else { 443 };
    let path = match r.below(4) { 0 => String::new(), 1 => "/".into(), _ => format!("/{}/{}", token(r), token(r)).replace(|c: char| !(c.is_ascii_alphanumeric() || c == '/'), "x") };
    let q = match r.below(3) { 0 => "?a=1&b=%20x", 1 => "?", _ => "" };
    let frag = if r.one_in(3) { "#frag" } else { "" };
    let user = match r.below(5) { 0 => "user:pw@", 1 => "bob@", _ => "" };
    let url = format!("{}://{}{}{}{}{}{}", scheme, user, hn, port.map_or(String::new(), |p| format!(":{}", p)), path, q, frag);
    let mut steps = vec![format!("ClientBuilder::new({:?})", url)];
    let mut b = ClientBuilder::new(&url).unwrap();
    let mut p = Plan { host: match port { Some(x) if x != dp => format!("{}:{}", hn, x), _ => hn.to_string() }, path: format!("{}{}", if path.is_empty() { "/" } else { &path }, q), auth: match user { "" => None, "bob@" => Some(format!("Basic {}", b64(b"bob:"))), _ => Some(format!("Basic {}", b64(b"user:pw"))) }, url, protos: vec![], exts: vec![], origin: None, key: None, version: None, cust: vec![] };
    for _ in 0..r.below(7) {
        match r.below(15) {
            0 => { let t = token(r); steps.push(format!("add_protocol({})", t)); p.protos.push(t.clone()); b = b.add_protocol(t); }
            1 => { let v: Vec<String> = (0..r.range(1, 3)).map(|_| token(r)).collect(); steps.push(format!("add_protocols({:?})", v)); p.protos.extend(v.clone()); b = b.add_protocols(v); }
            2 => { steps.push("clear_protocols".into()); p.protos.clear(); b = b.clear_protocols(); }
            3 => { let e = rand_ext(r); steps.push(format!("add_extension({})", ext_str(&e))); p.exts.push(e.clone()); b = b.add_extension(e); }
            4 => { let v: Vec<Extension> = (0..r.range(1, 2)).map(|_| rand_ext(r)).collect(); steps.push(format!("add_extensions({:?})", v.iter().map(ext_str).collect::<Vec<_>>())); p.exts.extend(v.clone()); b = b.add_extensions(v); }
            5 => { steps.push("clear_extensions".into()); p.exts.clear(); b = b.clear_extensions(); }
            6 => { let o = format!("http://{}.com", token(r)); steps.push(format!("origin({})", o)); p.origin = Some(o.clone()); b = b.origin(o); }
            7 => { steps.push("clear_origin".into()); p.origin = None; b = b.clear_origin(); }
            8 | 9 => { let mut k = [0u8; 16]; for x in &mut k { *x = r.next() as u8; } steps.push(format!("key({:?})", k)); p.key = Some(k); b = b.key(k); }
            10 => { steps.push("clear_key".into()); p.key = None; b = b.clear_key(); }
            12 => { steps.push("clear_header::<WebSocketKey>".into()); p.key = None; b = b.clear_header::<websocket::header::WebSocketKey>(); }
            13 => { steps.push("clear_header::<WebSocketVersion>".into()); p.version = None; b = b.clear_header::<WebSocketVersion>(); }
            11 => { if r.flip() { let v = *r.pick(&["8", "12"]); steps.push(format!("version({})", v)); p.version = Some(v.into()); b = b.version(WebSocketVersion::Unknown(v.into())); } else { steps.push("clear_version".into()); p.version = None; b = b.clear_version(); } }
            _ => { let mut h = Headers::new(); let n = format!("X-{}", token(r)); let v = value(r); h.set_raw(n.clone(), vec![v.as_bytes().to_vec()]); steps.push(format!("custom_headers({}: {})", n, v)); p.cust.retain(|c| !c.0.eq_ignore_ascii_case(&n)); p.cust.push((n, v)); b = b.custom_headers(&h); }
        }
    }
    (p, b, steps)
}
pub fn judge_request(cx: &mut Cx, p: &Plan, req: &[u8], steps: &[String]) -> Option<String> {
    let (h, n) = match parse_head(req) { Some(x) => x, None => { cx.ck("P23", false, || format!("{:?} sent no request head: {:?}", steps, String::from_utf8_lossy(req))); return None; } };
    let txt = String::from_utf8_lossy(req).into_owned();
    cx.ck("P23", n == req.len(), || format!("{:?} sent more than a request head: {:?}", steps, txt));
    cx.ck("P23", h.start == format!("GET {} HTTP/1.1", p.path), || format!("{:?}: request line {:?}, expected target {:?}", steps, h.start, p.path));
    let mut want: Vec<(&str, String)> = vec![("host", p.host.clone()), ("upgrade", "websocket".into()), ("connection", "upgrade".into()), ("sec-websocket-version", p.version.clone().unwrap_or("13".into()))];
    if let Some(a) = &p.auth { want.push(("authorization", a.clone())); }
    if let Some(o) = &p.origin { want.push(("origin", o.clone())); }
    for (n, v) in &p.cust { want.push((n, v.clone())); }
    let mut used = 0;
    for (n, v) in &want { let g = h.get(n); let ok = g.len() == 1 && if *n == "upgrade" || *n == "connection" { g[0].eq_ignore_ascii_case(v) } else { g[0] == v }; used += g.len(); cx.ck("P23", ok, || format!("{:?}: field {} is {:?}, expected {:?}; request {:?}", steps, n, g, v, txt)); }
    let k = h.get("sec-websocket-key"); used += k.len();
    let kt = k.get(0).map(|s| s.to_string());
    let good = k.len() == 1 && k[0].len() == 24 && k[0].ends_with("==") && p.key.map_or(true, |x| b64(&x) == k[0]);
    cx.ck("P23", good, || format!("{:?}: key field {:?}; request {:?}", steps, k, txt));
    let (a, b) = (h.get("sec-websocket-protocol"), h.get("sec-websocket-extensions")); used += a.len() + b.len();
    cx.ck("P23", split_list(&a) == p.protos && split_list(&b) == p.exts.iter().map(ext_str).collect::<Vec<_>>(), || format!("{:?}: request {:?}", steps, txt));
    cx.ck("P23", used == h.fields.len(), || format!("{:?}: request carries fields nobody asked for: {:?}", steps, txt));
    kt
}

fn client(cx: &mut Cx, case: u64) {
    let asy = case % 2 == 1;
    let (p, mut b, steps) = plan(&mut cx.r);
    let lim = limits_of(&mut cx.r);
    if let Lim::Set(f, m) = lim { if cx.r.flip() { b = b.max_dataframe_size(f).max_message_size(m); } else { b = b.max_message_size(m).max_dataframe_size(f); } }
    let clean = case % 3 != 0;
    let po = post(&mut cx.r, false, &lim);
    let seed = cx.r.next();
    cx.tr(|| format!("{:?}; then {}", steps, po.what));
    let rounds = if asy { 1 } else { cx.r.range(1, 2) };
    let mut keys = vec![];
    let mut b = Some(b);
    for round in 0..rounds {
        let (mut pr, out) = pair(vec![], sizes(&mut cx.r), sizes(&mut cx.r), asy && cx.r.flip());
        let tail = po.data.clone();
        let resp = std::sync::Arc::new(std::sync::Mutex::new((vec![], String::new())));
        let r2 = resp.clone();
        pr.0.responder = Some(Box::new(move |o: &[u8]| {
            let key = parse_head(o).and_then(|h| h.0.get("sec-websocket-key").get(0).map(|s| s.to_string())).unwrap_or_default();
            let re = response(&mut Rng::new(seed + round as u64), &key, clean);
            *r2.lock().unwrap() = (re.bad.clone(), String::from_utf8_lossy(&re.head.bytes()).into_owned());
            let mut d = re.head.bytes(); d.extend_from_slice(&tail); d
        }));
        let who = format!("{} client", if asy { "asynchronous" } else { "blocking" });
        enum G { S(Client<Pair>), A(Framed<Pair, MessageCodec<OwnedMessage>>), No(String) }
        let g = if asy { match b.take().unwrap().async_connect_on(pr).wait() { Ok((c, _)) => G::A(c), Err(e) => G::No(ename(&e)) } } else { match b.as_mut().unwrap().connect_on(pr) { Ok(c) => G::S(c), Err(e) => G::No(ename(&e)) } };
        let req = out.lock().unwrap().clone();
        if let Some(k) = judge_request(cx, &p, &req, &steps) { if p.key.is_none() { cx.ck("P23", !keys.contains(&k), || format!("{:?}: the same random key was announced twice", steps)); } keys.push(k); }
        let (bad, rt) = resp.lock().unwrap().clone();
        cx.note((bad.len(), req.len(), asy, po.data.len()));
        match g {
            G::No(e) => { cx.ck("P22", !bad.is_empty(), || format!("{} {:?} refused the valid response {:?}: {}", who, steps, rt, e)); if bad.is_empty() { cx.ck("P24|P28|P06", false, || format!("{} refused a valid response: {}", who, e)); } }
            G::S(c) => { if cx.ck("P22", bad.is_empty(), || format!("{} {:?} connected on {:?}, which fails {:?}", who, steps, rt, bad)) && bad.is_empty() { after_sync(cx, c, &po, false, &out, &format!("{} (limits {})", who, lshow(&lim))) } }
            G::A(c) => { if cx.ck("P22", bad.is_empty(), || format!("{} {:?} connected on {:?}, which fails {:?}", who, steps, rt, bad)) && bad.is_empty() { after_async(cx, c, &po, false, &out, &format!("{} (limits {})", who, lshow(&lim))) } }
        }
    }
    // a response that never completes is no connection
    if case % 5 == 0 {
        let (p, mut b, _) = plan(&mut cx.r);
        let _ = p;
        b = b.key([9; 16]);
        let full = response(&mut Rng::new(seed), &b64(&[9; 16]), true).head.bytes();
        let cutn = cx.r.below(full.len());
        let (pr, _) = pair(full[..cutn].to_vec(), sizes(&mut cx.r), vec![], false);
        let ok = if asy { b.async_connect_on(pr).wait().is_ok() } else { b.connect_on(pr).is_ok() };
        cx.ck("P22", !ok, || format!("connected on the truncated response {:?}", String::from_utf8_lossy(&full[..cutn])));
    }
}
fn lshow(l: &Lim) -> String { match l { Lim::Default => "default".into(), Lim::Set(f, m) => format!("frame {} message {}", f, m) } }

// ---------------------------------------------------------------- keys, lists, codec, endpoint, pair

fn keys(cx: &mut Cx, case: u64) {
    let mut k = [0u8; 16];
    for (i, x) in k.iter_mut().enumerate() { *x = match case { 0 => 0, 1 => 255, 2 => i as u8, _ => cx.r.next() as u8 }; }
    let key = WebSocketKey::from_array(k);
    let kt = b64(&k);
    cx.tr(|| format!("key {}", kt));
    cx.note(k);
    let acc = WebSocketAccept::new(&key);
    cx.ck("P19", acc.serialize() == accept_for(&kt), || format!("accept value for key {} is {}, expected {}", kt, acc.serialize(), accept_for(&kt)));
    cx.ck("P19", key.serialize() == kt, || format!("key {:?} prints as {}", k, key.serialize()));
    let mut h = Headers::new(); h.set(key); h.set(acc);
    let s = h.to_string();
    cx.ck("P19", s.contains(&format!("Sec-WebSocket-Key: {}\r\n", kt)) && s.contains(&format!("Sec-WebSocket-Accept: {}\r\n", accept_for(&kt))), || format!("headers print as {:?}", s));
    use websocket_base::header::{WebSocketAccept as A, WebSocketKey as K};
    cx.ck("P19", A::new(&K(k)).serialize() == accept_for(&kt), || format!("websocket_base accept for {}", kt));
    for n in [0, 1, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 40, cx.r.below(64)] {
        let raw = cx.r.bytes(n); let t = b64(&raw);
        let a: Result<K, _> = t.parse(); let b: Result<A, _> = t.parse();
        let (c, d): (Result<WebSocketKey, _>, Result<WebSocketAccept, _>) = (t.parse(), t.parse());
        cx.ck("P19", a.is_ok() == (n == 16) && c.is_ok() == (n == 16), || format!("parsing the base64 text {:?} of {} bytes as a key: ok={} / {}", t, n, a.is_ok(), c.is_ok()));
        cx.ck("P19", b.is_ok() == (n == 20) && d.is_ok() == (n == 20), || format!("parsing the base64 text {:?} of {} bytes as an accept value: ok={} / {}", t, n, b.is_ok(), d.is_ok()));
        if let Ok(x) = &c { cx.ck("P19", *x == WebSocketKey::from_array({ let mut z = [0; 16]; z.copy_from_slice(&raw); z }) && x.serialize() == t, || format!("key {} parses to another key", t)); }
        if let Ok(x) = &d { cx.ck("P19", x.serialize() == t && x.serialize().parse::<WebSocketAccept>().ok() == Some(*x), || format!("accept value {} prints as {}", t, x.serialize())); }
        let hk: Result<WebSocketKey, _> = Header::parse_header(&[t.clone().into_bytes()]); let ha: Result<WebSocketAccept, _> = Header::parse_header(&[t.clone().into_bytes()]);
        cx.ck("P19", hk.is_ok() == (n == 16) && ha.is_ok() == (n == 20), || format!("header value {:?} of {} bytes: key ok={}, accept ok={}", t, n, hk.is_ok(), ha.is_ok()));
    }
    let mut junk: Vec<char> = kt.chars().collect(); let i = cx.r.below(21); junk[i] = *cx.r.pick(&['!', ' ', '-', '_', '\u{e9}', '=', '.']);
    let j: String = junk.into_iter().collect();
    let a: Result<K, _> = j.parse();
    cx.ck("P19", a.is_err(), || format!("{:?} is not base64 but parses as a key", j));
    let a: Result<A, _> = j.parse();
    cx.ck("P19", a.is_err(), || format!("{:?} is not base64 but parses as an accept value", j));
}

fn blanks(r: &mut Rng) -> &'static str { r.pick(&["", " ", "  ", "\t"]) }
fn lists(cx: &mut Cx, _case: u64) {
    // parse: independent rendering with blanks
    let n = cx.r.range(1, 4);
    let mut want: Vec<Extension> = vec![]; let mut text: Vec<String> = vec![];
    for _ in 0..n {
        let nm = token(&mut cx.r); let mut t = format!("{}{}{}", blanks(&mut cx.r), nm, blanks(&mut cx.r)); let mut e = Extension::new(nm);
        for _ in 0..cx.r.below(4) {
            let pn = token(&mut cx.r);
            let v = match cx.r.below(5) { 0 => None, 1 => Some(String::new()), 2 => Some(format!("{}={}", token(&mut cx.r), token(&mut cx.r))), 3 => Some("a b==".to_string()), _ => Some(token(&mut cx.r)) };
            t.push_str(&format!(";{}{}{}", blanks(&mut cx.r), pn, blanks(&mut cx.r)));
            if let Some(v) = &v { t.push_str(&format!("={}{}{}", blanks(&mut cx.r), v, blanks(&mut cx.r))); }
            e.params.push(Parameter::new(pn, v));
        }
        let one: Result<Extension, _> = t.parse();
        cx.ck("P26", matches!(&one, Ok(o) if *o == e), || format!("extension {:?} parses as {:?}, expected {:?}", t, one.as_ref().map_err(ename), e));
        if let Ok(o) = &one { let pr = o.to_string(); let back: Result<Extension, _> = pr.parse(); cx.ck("P26", matches!(&back, Ok(x) if x == o), || format!("extension {:?} prints as {:?}, which parses as {:?}", t, pr, back.as_ref().map_err(ename))); }
        want.push(e); text.push(t);
    }
    let raw: Vec<Vec<u8>> = if cx.r.flip() { vec![text.join(",").into_bytes()] } else { text.iter().map(|t| t.clone().into_bytes()).collect() };
    let g: Result<WebSocketExtensions, _> = Header::parse_header(&raw);
    cx.tr(|| format!("extension list {:?}", text));
    cx.ck("P26", matches!(&g, Ok(x) if x.0 == want), || format!("extension list {:?} parses as {:?}, expected {:?}", text, g, want));
    let v = WebSocketExtensions(want.clone());
    let mut h = Headers::new(); h.set(v.clone());
    let line = h.to_string();
    let back: Result<WebSocketExtensions, _> = Header::parse_header(&[line["Sec-WebSocket-Extensions: ".len()..].trim_end().as_bytes().to_vec()]);
    cx.ck("P26", matches!(&back, Ok(x) if *x == v) && v.to_string() == line["Sec-WebSocket-Extensions: ".len()..].trim_end_matches("\r\n"), || format!("extensions {:?} print as {:?} and parse back as {:?}", v, line, back));
    // protocols
    let ps: Vec<String> = (0..cx.r.range(1, 4)).map(|_| token(&mut cx.r)).collect();
    let t: Vec<String> = ps.iter().map(|p| format!("{}{}{}", blanks(&mut cx.r), p, blanks(&mut cx.r))).collect();
    let raw: Vec<Vec<u8>> = if cx.r.flip() { vec![t.join(",").into_bytes()] } else { t.iter().map(|t| t.clone().into_bytes()).collect() };
    let g: Result<WebSocketProtocol, _> = Header::parse_header(&raw);
    cx.ck("P26", matches!(&g, Ok(x) if x.0 == ps), || format!("protocol list {:?} parses as {:?}", t, g));
    let v = WebSocketProtocol(ps.clone()); let mut h = Headers::new(); h.set(v.clone()); let line = h.to_string();
    let back: Result<WebSocketProtocol, _> = Header::parse_header(&[line["Sec-WebSocket-Protocol: ".len()..].trim_end().as_bytes().to_vec()]);
    cx.ck("P26", matches!(&back, Ok(x) if *x == v) && v.to_string() == line["Sec-WebSocket-Protocol: ".len()..].trim_end_matches("\r\n"), || format!("protocols {:?} print as {:?}", v, line));
    // versions
    for s in ["13".to_string(), cx.r.below(300).to_string(), token(&mut cx.r)] {
        let g: Result<WebSocketVersion, _> = Header::parse_header(&[s.clone().into_bytes()]);
        let w = if s == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(s.clone()) };
        cx.ck("P26", matches!(&g, Ok(x) if *x == w) && w.to_string() == s && format!("{:?}", w) == s, || format!("version {:?} parses as {:?} and prints as {}", s, g, w));
    }
    let o = format!("http://{}.com", token(&mut cx.r));
    let g: Result<Origin, _> = Header::parse_header(&[o.clone().into_bytes()]);
    cx.ck("P26", matches!(&g, Ok(x) if x.0 == o) && Origin(o.clone()).to_string() == o, || format!("origin {} parses as {:?}", o, g));
    cx.note(text.join(","));
}

fn httpcodec(cx: &mut Cx, case: u64) {
    let server = case % 2 == 0;
    let k = cx.r.range(1, 3);
    // heads (and perhaps a damaged one at the end), each followed by the next; then stray bytes
    let mut heads: Vec<(Vec<u8>, bool, String)> = vec![];
    for i in 0..k {
        let mut h = if server { let clean = cx.r.flip(); request(&mut cx.r, clean).0 } else { let clean = cx.r.flip(); response(&mut cx.r, "AAAAAAAAAAAAAAAAAAAAAA==", clean).head };
        if cx.r.one_in(8) { for j in 0..cx.r.range(1, 60) { h.fields.push((format!("X-N{}", j), value(&mut cx.r))); } }
        let mut ok = true; let mut b = h.bytes();
        if i + 1 == k && cx.r.one_in(3) {
            ok = false;
            match cx.r.below(4) {
                0 => { while h.fields.len() <= 130 { let j = h.fields.len(); h.fields.push((format!("X-M{}", j), "v".into())); } b = h.bytes(); }
                1 => { b = [b"\x01\x02 oops\r\n".to_vec(), b].concat(); }
                2 => { h.fields.insert(0, ("bad name with blanks".into(), "v".into())); b = h.bytes(); }
                _ => { b = if server { b"GET / HTTP/9.9\r\n\r\n".to_vec() } else { b"HTTP/1.1 9x9 No\r\n\r\n".to_vec() }; }
            }
        }
        // blank lines in front of a head belong to it
        if cx.r.one_in(3) { let n = cx.r.range(1, 5); b = [b"\r\n".repeat(n), b].concat(); }
        heads.push((b, ok, h.start.clone()));
    }
    let n = cx.r.range(0, 40);
    let stray: Vec<u8> = cx.r.bytes(n).into_iter().map(|b| if b == b'\n' { 0 } else { b }).collect();
    let data: Vec<u8> = heads.iter().flat_map(|h| h.0.clone()).chain(stray.clone()).collect();
    cx.tr(|| format!("{} codec: {:?}", if server { "server" } else { "client" }, String::from_utf8_lossy(&data)));
    let mut src = BytesMut::with_capacity(*cx.r.pick(&[0usize, 64, 8192]));
    let (mut fed, mut off, mut i) = (0, 0, 0);
    let cuts: Vec<usize> = match cx.r.below(3) { 0 if data.len() < 1500 => (1..=data.len()).collect(), 1 => vec![data.len()], _ => { let mut v: Vec<usize> = (0..8).map(|_| cx.r.below(data.len() + 1)).collect(); v.push(data.len()); v.sort(); v } };
    let mut done = false;
    for c in cuts {
        src.extend_from_slice(&data[fed..c]); fed = c;
        while !done {
            let before = src.len();
            let end = heads.get(i).map(|h| off + h.0.len());
            let due = end.map_or(false, |e| e <= fed);
            let g: Result<Option<(String, Headers)>, String> = if server { HttpServerCodec.decode(&mut src).map(|x| x.map(|q| (format!("{} {} {}", q.subject.0, q.subject.1, q.version), q.headers))).map_err(|e| e.to_string()) } else { HttpClientCodec.decode(&mut src).map(|x| x.map(|q| (format!("{} {} {}", q.version, q.subject.0, q.subject.1), q.headers))).map_err(|e| e.to_string()) };
            let what = || format!("{} codec with {} bytes in the buffer gave {:?} and left {}; data {:?}, head {} ends at {:?}", if server { "server" } else { "client" }, before, g.as_ref().map(|x| x.as_ref().map(|y| y.0.clone())), src.len(), String::from_utf8_lossy(&data[off..fed.min(off + 400)]), i, end);
            match &g {
                Ok(Some((start, hs))) => {
                    let ok = due && heads[i].1 && *start == heads[i].2 && src.to_vec() == data[end.unwrap()..fed];
                    if !cx.ck("P27|P24", ok, what) { return; }
                    let lead = heads[i].0.iter().take_while(|b| **b == b'\r' || **b == b'\n').count();
                    let w = parse_head(&heads[i].0[lead..]).unwrap().0;
                    let names: std::collections::HashSet<String> = w.fields.iter().map(|f| f.0.to_ascii_lowercase()).collect();
                    cx.ck("P27", hs.len() == names.len(), || format!("{} header names decoded, {} sent: {:?}", hs.len(), names.len(), String::from_utf8_lossy(&heads[i].0)));
                    off = end.unwrap(); i += 1;
                }
                Ok(None) => { cx.ck("P27", !due && src.len() == before && src.to_vec() == data[off..fed], what); break; }
                Err(_) => { cx.ck("P27", due && !heads[i].1, what); done = true; }
            }
        }
    }
    if !done { cx.ck("P27", i == heads.len(), || format!("{} of {} heads decoded from {:?}", i, heads.len(), String::from_utf8_lossy(&data))); }
    // encoding writes the head as one piece, in front of nothing and behind what is there
    let (hh, _) = custom(&mut cx.r, false);
    let mut dst = BytesMut::with_capacity(*cx.r.pick(&[0usize, 16, 8192])); let pre = cx.r.below(20); dst.extend_from_slice(&vec![b'#'; pre]);
    let (want, r) = if server { let s = *cx.r.pick(&[hyper::status::StatusCode::SwitchingProtocols, hyper::status::StatusCode::BadRequest]); (format!("HTTP/1.1 {}\r\n{}\r\n", s, hh), HttpServerCodec.encode(Incoming { version: HttpVersion::Http11, subject: s, headers: hh.clone() }, &mut dst)) } else { let u = format!("/{}", token(&mut cx.r)); (format!("GET {} HTTP/1.1\r\n{}\r\n", u, hh), HttpClientCodec.encode(Incoming { version: HttpVersion::Http11, subject: (Method::Get, hyper::uri::RequestUri::AbsolutePath(u.clone())), headers: hh.clone() }, &mut dst)) };
    cx.ck("P27|P21|P23", r.is_ok() && dst.len() >= pre && dst[..pre].iter().all(|b| *b == b'#') && &dst[pre..] == want.as_bytes(), || format!("encoding gave {:?}, expected {:?}", String::from_utf8_lossy(&dst), want));
    cx.note((data.len(), k, server, done));
}

/// what a listener sees first on a connection, if anything connects
fn listen(l: std::net::TcpListener, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) -> std::thread::JoinHandle<Option<Vec<u8>>> {
    l.set_nonblocking(true).unwrap();
    std::thread::spawn(move || {
        let t = std::time::Instant::now();
        let mut grace = 0;
        loop {
            match l.accept() {
                Ok((mut s, _)) => { s.set_nonblocking(false).ok(); s.set_read_timeout(Some(std::time::Duration::from_secs(5))).ok(); let mut b = vec![0u8; 4096]; let n = s.read(&mut b).unwrap_or(0); b.truncate(n); return Some(b); }
                Err(_) => { if stop.load(std::sync::atomic::Ordering::SeqCst) { grace += 1; if grace > 3 { return None; } } if t.elapsed().as_secs() > 20 { return None; } std::thread::sleep(std::time::Duration::from_millis(2)); }
            }
        }
    })
}
fn endpoint(cx: &mut Cx, case: u64) {
    // a scheme that stands for no port is a plain one
    let scheme = ["ws", "wss", "http", "https", "foo"][(case % 5) as usize];
    let how = (case / 5 % 6) as usize;
    let default_port = case / 30 % 2 == 1;
    let secure_url = scheme == "wss" || scheme == "https";
    let ip = format!("127.{}.{}.{}", 20 + std::process::id() % 200, 1 + (case / 200) % 200, 1 + case % 200);
    let want_tls = match how { 0 | 3 => secure_url, 1 | 4 => false, _ => true };
    let https = if scheme == "foo" { want_tls } else { secure_url };
    let port = if default_port { if https { 443 } else { 80 } } else { 0 };
    let l = match std::net::TcpListener::bind((ip.as_str(), port)) { Ok(l) => l, Err(_) => { cx.note((case, "skipped")); return; } };
    let port = l.local_addr().unwrap().port();
    // the other default port must stay untouched
    let other = if default_port { std::net::TcpListener::bind((ip.as_str(), if https { 80 } else { 443 })).ok() } else { None };
    let url = if default_port { format!("{}://{}/x", scheme, ip) } else { format!("{}://{}:{}/x", scheme, ip, port) };
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let t = listen(l, stop.clone());
    let t2 = other.map(|o| listen(o, stop.clone()));
    let mut b = ClientBuilder::new(&url).unwrap();
    let name = ["connect", "connect_insecure", "connect_secure", "async_connect", "async_connect_insecure", "async_connect_secure"][how];
    match how { 0 => { let _ = b.connect(None).map(|_| ()); } 1 => { let _ = b.connect_insecure().map(|_| ()); } 2 => { let _ = b.connect_secure(None).map(|_| ()); } 3 => { let _ = b.async_connect(None).wait().map(|_| ()); } 4 => { let _ = b.async_connect_insecure().wait().map(|_| ()); } _ => { let _ = b.async_connect_secure(None).wait().map(|_| ()); } }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let seen = t.join().unwrap();
    let seen2 = t2.and_then(|t| t.join().unwrap());
    let sh = |s: &Option<Vec<u8>>| match s { None => "no connection".to_string(), Some(b) if b.first() == Some(&0x16) => "a TLS handshake".into(), Some(b) => format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(24)])) };
    cx.tr(|| format!("{}({}) saw {}", name, url, sh(&seen)));
    cx.note((scheme, how, default_port));
    let ok = match &seen { None => false, Some(b) => if want_tls { b.len() > 3 && b[0] == 0x16 && b[1] == 3 } else { b.starts_with(b"GET /x HTTP/1.1\r\n") } };
    cx.ck("P25", ok && seen2.is_none(), || format!("{} on {}: port {} of {} saw {} (expected {}); the other default port saw {}", name, url, port, ip, sh(&seen), if want_tls { "a TLS handshake" } else { "a plain GET" }, sh(&seen2)));
}

#[derive(Clone, Default)]
struct Both { r: Vec<u8>, pos: usize, w: Vec<u8>, log: Vec<String>, script: Vec<u8> }
impl Both { fn act(&mut self) -> u8 { if self.script.is_empty() { 5 } else { let x = self.script.remove(0); self.script.push(x); x } } }
impl Read for Both {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.log.push(format!("read {}", b.len())); let a = self.act(); if a == 0 { return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "r")); } let n = b.len().min(a as usize).min(self.r.len() - self.pos); b[..n].copy_from_slice(&self.r[self.pos..self.pos + n]); self.pos += n; Ok(n) }
}
impl Write for Both {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.log.push(format!("write {}", b.len())); let a = self.act(); if a == 0 { return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "w")); } let n = b.len().min(a as usize); self.w.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { self.log.push("flush".into()); if self.act() == 0 { Err(std::io::ErrorKind::Other.into()) } else { Ok(()) } }
}
impl tokio_io::AsyncRead for Both {}
impl tokio_io::AsyncWrite for Both { fn shutdown(&mut self) -> futures::Poll<(), std::io::Error> { self.log.push("shutdown".into()); if self.act() == 0 { Err(std::io::ErrorKind::Other.into()) } else { Ok(().into()) } } }
fn rwpair(cx: &mut Cx, _case: u64) {
    let mk = |r: &mut Rng| { let n = r.range(0, 60); let t = utf8_text(r, n); let k = r.range(1, 6); Both { r: if r.flip() { t } else { r.bytes(n) }, pos: 0, w: vec![], log: vec![], script: (0..k).map(|_| if r.one_in(6) { 0 } else { r.range(1, 20) as u8 }).collect() } };
    let (mut a, mut b) = (mk(&mut cx.r), mk(&mut cx.r));
    if a.script.iter().all(|x| *x == 0) { a.script.push(3); } if b.script.iter().all(|x| *x == 0) { b.script.push(3); }
    let (a0, b0) = (a.clone(), b.clone());
    let mut p = ReadWritePair(a.clone(), b.clone());
    let mut hist = vec![];
    let es = |e: std::io::Error| format!("{:?}", e.kind());
    for _ in 0..cx.r.range(1, 10) {
        let n = cx.r.range(0, 30); let d = cx.r.bytes(n);
        let (name, x, y): (&str, String, String) = match cx.r.below(9) {
            0 | 1 => { let (mut u, mut v) = (vec![0; n], vec![0; n]); let x = p.read(&mut u).map_err(es); let y = a.read(&mut v).map_err(es); ("read", format!("{:?} {:?}", x, u), format!("{:?} {:?}", y, v)) }
            2 => { let (mut u, mut v) = (vec![1], vec![1]); let x = p.read_to_end(&mut u).map_err(es); let y = a.read_to_end(&mut v).map_err(es); ("read_to_end", format!("{:?} {:?}", x, u), format!("{:?} {:?}", y, v)) }
            3 => { let (mut u, mut v) = (String::from("s"), String::from("s")); let x = p.read_to_string(&mut u).map_err(es); let y = a.read_to_string(&mut v).map_err(es); ("read_to_string", format!("{:?} {:?}", x, u), format!("{:?} {:?}", y, v)) }
            4 => { let (mut u, mut v) = (vec![0; n], vec![0; n]); let x = p.read_exact(&mut u).map_err(es); let y = a.read_exact(&mut v).map_err(es); ("read_exact", format!("{:?} {:?}", x, u), format!("{:?} {:?}", y, v)) }
            5 => { let x = p.write(&d).map_err(es); let y = b.write(&d).map_err(es); ("write", format!("{:?}", x), format!("{:?}", y)) }
            6 => { let x = p.write_all(&d).map_err(es); let y = b.write_all(&d).map_err(es); ("write_all", format!("{:?}", x), format!("{:?}", y)) }
            7 => { let x = p.write_fmt(format_args!("{}-{:?}", n, d)).map_err(es); let y = b.write_fmt(format_args!("{}-{:?}", n, d)).map_err(es); ("write_fmt", format!("{:?}", x), format!("{:?}", y)) }
            _ => if cx.r.flip() { let x = p.flush().map_err(es); let y = b.flush().map_err(es); ("flush", format!("{:?}", x), format!("{:?}", y)) } else { let x = tokio_io::AsyncWrite::shutdown(&mut p).map_err(es); let y = tokio_io::AsyncWrite::shutdown(&mut b).map_err(es); ("shutdown", format!("{:?}", x), format!("{:?}", y)) },
        };
        hist.push(name);
        cx.ck("P30", x == y, || format!("{:?} on the pair: {} gives {}, on its half {}", hist, name, x, y));
    }
    cx.tr(|| format!("{:?}", hist));
    cx.note((a0.r.len(), b0.w.len(), format!("{:?}", hist)));
    use websocket::stream::sync::Splittable;
    let (r, w) = p.split().unwrap();
    cx.ck("P30|P24", r.r == a0.r && r.pos == a.pos && r.w.is_empty() && r.log == a.log && w.w == b.w && w.pos == 0 && w.log == b.log, || format!("after {:?} splitting gives a reader at {} (expected {}), with {} bytes written to it, calls {:?} (expected {:?}), and a writer holding {} (expected {}), calls {:?} (expected {:?})", hist, r.pos, a.pos, r.w.len(), r.log, a.log, hex(&w.w), hex(&b.w), w.log, b.log));
}

fn framed(cx: &mut Cx, _case: u64) {
    let (n, m, k) = (cx.r.range(0, 200), cx.r.range(0, 200), cx.r.range(0, 100));
    let (rb, wb, rest) = (cx.r.bytes(n), cx.r.bytes(m), cx.r.bytes(k));
    let (pr, out) = pair(rest.clone(), vec![], vec![], false);
    let mut parts = FramedParts::new(pr, HttpServerCodec);
    parts.read_buf = BytesMut::from(&rb[..]); parts.write_buf = BytesMut::from(&wb[..]);
    let f = websocket::ws::util::update_framed_codec(Framed::from_parts(parts), MessageCodec::<OwnedMessage>::new(Context::Server));
    let q = f.into_parts();
    cx.ck("P24", q.read_buf[..] == rb[..] && q.write_buf[..] == wb[..] && q.io.0.data == rest && q.io.0.pos == 0 && out.lock().unwrap().is_empty(), || format!("replacing the codec with {} bytes to decode, {} to write and {} unread left {}, {} and {}", n, m, k, q.read_buf.len(), q.write_buf.len(), q.io.0.data.len() - q.io.0.pos));
    cx.tr(|| format!("{} / {} / {}", n, m, k));
    cx.note((n, m, k));
}

/// default limits of connections, and a server over real sockets
fn deflt_conn(cx: &mut Cx, case: u64) {
    cx.note(case + 1);
    let (asy, server) = (case & 1 == 1, case & 2 == 2);
    let big = case >= 4;
    cx.tr(|| format!("default limits: async={} server={} {}", asy, server, if big { "message limit" } else { "frame limit" }));
    let mk = if server { Some([0u8; 4]) } else { None };
    let mut variants: Vec<(Vec<(bool, u64)>, bool)> = vec![];
    if big { variants.push((vec![(false, 99 * MIB), (false, 99 * MIB), (true, MIB)], true)); variants.push((vec![(false, 99 * MIB), (false, 99 * MIB), (false, 2 * MIB + 1), (true, 1)], false)); }
    else { variants.push((vec![(true, 100 * MIB)], true)); variants.push((vec![(true, 100 * MIB + 1)], false)); }
    let nb = if server { 2 } else { 1 };
    for which in 0..nb {
        for (fs, want) in &variants {
            if big && which == 1 { continue; }
            let mut post: Vec<u8> = vec![];
            for (i, (fin, len)) in fs.iter().enumerate() { post.extend(encode_header(&Hd { fin: *fin, rsv: 0, op: if i == 0 { 2 } else { 0 }, mask: mk, len: *len })); post.resize(post.len() + *len as usize, 0); }
            let total: u64 = fs.iter().map(|f| f.1).sum();
            let got = if server {
                let (h, _, _) = request(&mut cx.r, true); let mut d = h.bytes(); d.append(&mut post);
                let (pr, _) = pair(d, vec![], vec![], false);
                let ch = Headers::new();
                if asy { let u = AIntoWs::into_ws(pr).wait().map_err(|_| ()).unwrap(); let c = if which == 0 { u.accept() } else { u.accept_with(&ch) }.wait().unwrap().0; c.into_future().wait().map(|x| x.0).map_err(|e| ename(&e.0)) }
                else { let u = IntoWs::into_ws(pr).map_err(|_| ()).unwrap(); let mut c = if which == 0 { u.accept() } else { u.accept_with(&ch) }.map_err(|_| ()).unwrap(); c.recv_message().map(Some).map_err(|e| ename(&e)) }
            } else {
                let key = [3u8; 16];
                let mut d = response(&mut cx.r, &b64(&key), true).head.bytes(); d.append(&mut post);
                let (pr, _) = pair(d, vec![], vec![], false);
                let mut b = ClientBuilder::new("ws://example.com/").unwrap().key(key);
                if asy { b.async_connect_on(pr).wait().map_err(|e| ename(&e)).and_then(|c| c.0.into_future().wait().map(|x| x.0).map_err(|e| ename(&e.0))) }
                else { b.connect_on(pr).map_err(|e| ename(&e)).and_then(|mut c| c.recv_message().map(Some).map_err(|e| ename(&e))) }
            };
            let ok = match &got { Ok(Some(OwnedMessage::Binary(d))) => *want && d.len() as u64 == total, Err(_) => !*want, _ => false };
            cx.ck("P28", ok, || format!("{} {} with default limits on frames of {:?} bytes: {}", if asy { "asynchronous" } else { "blocking" }, if server { "server" } else { "client" }, fs, match &got { Ok(Some(_)) => "delivered a message".into(), Ok(None) => "ended".to_string(), Err(e) => format!("error {}", e) }));
        }
    }
}
fn tcp_server(cx: &mut Cx, case: u64) {
    let mut srv = match websocket::sync::Server::bind("127.0.0.1:0") { Ok(s) => s, Err(_) => { cx.note(case); return; } };
    let addr = srv.local_addr().unwrap();
    let bad = case % 2 == 1;
    let (h, viol, _) = loop { let x = request(&mut cx.r, !bad); if bad != x.1.is_empty() { break x; } };
    let p = post(&mut cx.r, true, &Lim::Default);
    let mut d = h.bytes(); d.extend_from_slice(&p.data);
    let hold = case % 3 == 0;
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let d2 = d.clone(); let hl = h.bytes().len();
    let cl = std::thread::spawn(move || { let mut s = std::net::TcpStream::connect(addr).unwrap(); s.set_nodelay(true).ok(); if hold { let _ = s.write_all(&d2[..hl - 1]); std::thread::sleep(std::time::Duration::from_millis(3)); let _ = s.write_all(&d2[hl - 1..]); } else { let _ = s.write_all(&d2); } s.shutdown(std::net::Shutdown::Write).ok(); let mut b = vec![]; let _ = rx.recv(); let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(5))); let _ = s.read_to_end(&mut b); b });
    cx.tr(|| format!("TCP server, request {:?}, {}", h.start, p.what));
    match srv.accept() {
        Ok(u) => {
            cx.ck("P20", viol.is_empty(), || format!("server accepted {:?}", String::from_utf8_lossy(&h.bytes())));
            match u.accept() {
                Ok(mut c) => { let mut hist = vec![]; for w in &p.want { let g = c.recv_message().map(|m| of_owned(&m)); hist.push(gshow(&g)); cx.ck(prop_for(&p, w), res_ok(w, &g), || format!("TCP server receiving {}: got {:?}, expected {}", p.what, hist, evshow(&p.want))); if g.is_err() { break; } } let _ = c.shutdown(); }
                Err((_, e)) => { cx.ck("P21|P24", false, || format!("TCP accept failed: {}", e)); }
            }
        }
        Err(e) => { cx.ck("P20", viol.contains(&hname(&e.error).as_str()), || format!("TCP server refused {:?} with {:?}; violated {:?}", String::from_utf8_lossy(&h.bytes()), e.error, viol)); cx.ck("P20", e.parsed.is_some() && e.stream.is_some(), || "TCP server did not hand request and stream back".into()); }
    }
    let _ = tx.send(()); drop(srv);
    let _ = cl.join();
    cx.note((case, d.len()));
}

/// protocol and extension lines, some repeated, some with blanks; what they list
fn lines(r: &mut Rng) -> (Vec<(String, String)>, Vec<String>, Vec<String>) {
    let mut f = vec![]; let (mut ps, mut es) = (vec![], vec![]);
    for _ in 0..r.below(3) {
        let v: Vec<String> = (0..r.range(1, 3)).map(|_| token(r)).collect();
        f.push((recase(r, "Sec-WebSocket-Protocol"), v.join(r.pick(&[",", ", ", " , "])))); ps.extend(v);
    }
    for _ in 0..r.below(3) {
        let v: Vec<String> = (0..r.range(1, 3)).map(|_| ext_str(&rand_ext(r))).collect();
        f.push((recase(r, "Sec-WebSocket-Extensions"), v.join(r.pick(&[",", ", ", " , "])))); es.extend(v);
    }
    (f, ps, es)
}
fn reports(cx: &mut Cx, case: u64) {
    // what an upgrade reports about the request
    let (mut head, _, key) = request(&mut cx.r, true);
    let (f, ps, es) = lines(&mut cx.r);
    head.fields.extend(f);
    let origin = if cx.r.flip() { let o = format!("https://{}.example", token(&mut cx.r)); let n = recase(&mut cx.r, "Origin"); head.fields.insert(0, (n, o.clone())); Some(o) } else { None };
    let uri = head.start.split(' ').nth(1).unwrap().to_string();
    let txt = String::from_utf8_lossy(&head.bytes()).into_owned();
    cx.tr(|| format!("{:?}", txt));
    cx.note((ps.len(), es.len(), origin.is_some(), txt.len()));
    let ver = head.get("Sec-WebSocket-Version").len() > 0;
    let (pr, _) = pair(head.bytes(), sizes(&mut cx.r), sizes(&mut cx.r), false);
    macro_rules! look { ($u:expr, $w:expr) => {{ let u = $u;
        cx.ck("P35", u.protocols() == &ps[..], || format!("{} reports protocols {:?} of {:?}, which lists {:?}", $w, u.protocols(), txt, ps));
        let got: Vec<String> = u.extensions().iter().map(ext_str).collect();
        cx.ck("P35", got == es, || format!("{} reports extensions {:?} of {:?}, which lists {:?}", $w, got, txt, es));
        cx.ck("P35", u.origin() == origin.as_deref(), || format!("{} reports origin {:?} of {:?}", $w, u.origin(), txt));
        cx.ck("P35", u.uri() == uri, || format!("{} reports uri {:?} of {:?}", $w, u.uri(), txt));
        cx.ck("P35", u.key() == key.as_ref(), || format!("{} reports key {:?} of {:?}", $w, u.key(), txt));
        cx.ck("P35", match u.version() { None => !ver, Some(v) => ver && *v == WebSocketVersion::WebSocket13 }, || format!("{} reports version {:?} of {:?}", $w, u.version(), txt));
    }} }
    if case % 2 == 0 { match IntoWs::into_ws(pr) { Ok(u) => {
        // what is chosen for the answer is no part of the request
        let u = if cx.r.flip() { u.use_protocol("chosen").use_extension(Extension::new("x-chosen".into())) } else { u };
        look!(u, "a blocking upgrade") } Err(e) => { cx.ck("P35|P20", false, || format!("valid request refused: {:?} {:?}", e.3, txt)); } } }
    else { match AIntoWs::into_ws(pr).wait() { Ok(u) => {
        let u = if cx.r.flip() { u.use_protocol("chosen").use_extension(Extension::new("x-chosen".into())) } else { u };
        look!(u, "an asynchronous upgrade") } Err(e) => { cx.ck("P35|P20", false, || format!("valid request refused: {:?} {:?}", e.3, txt)); } } }
    // what a client reports about the response
    let (f, ps, es) = lines(&mut cx.r);
    let mut re = response(&mut cx.r, &b64(&[9; 16]), true).head;
    re.fields.extend(f);
    let txt = String::from_utf8_lossy(&re.bytes()).into_owned();
    let (pr, _) = pair(re.bytes(), sizes(&mut cx.r), vec![], false);
    let mut b = ClientBuilder::new("ws://example.com/").unwrap().key([9; 16]);
    if cx.r.flip() { b = b.add_protocol("asked").add_extension(Extension::new("x-asked".into())); }
    if case % 2 == 0 {
        match b.connect_on(pr) {
            Ok(c) => {
                cx.ck("P35", c.protocols() == &ps[..], || format!("a client reports protocols {:?} of {:?}, which lists {:?}", c.protocols(), txt, ps));
                let got: Vec<String> = c.extensions().iter().map(ext_str).collect();
                cx.ck("P35", got == es, || format!("a client reports extensions {:?} of {:?}, which lists {:?}", got, txt, es));
                cx.ck("P35", c.headers().to_string() == hdrs(&re.fields).to_string() || c.headers().len() == hdrs(&re.fields).len(), || format!("a client reports the headers {:?} of {:?}", c.headers().to_string(), txt));
            }
            Err(e) => { cx.ck("P35|P22", false, || format!("valid response refused: {} {:?}", ename(&e), txt)); }
        }
    } else {
        match b.async_connect_on(pr).wait() {
            Ok((_, h)) => {
                let got: Vec<String> = h.get::<WebSocketProtocol>().map_or(vec![], |p| p.0.clone());
                cx.ck("P35", got == ps, || format!("an asynchronous client hands over protocols {:?} of {:?}, which lists {:?}", got, txt, ps));
                let got: Vec<String> = h.get::<WebSocketExtensions>().map_or(vec![], |p| p.0.iter().map(ext_str).collect());
                cx.ck("P35", got == es, || format!("an asynchronous client hands over extensions {:?} of {:?}, which lists {:?}", got, txt, es));
            }
            Err(e) => { cx.ck("P35|P22", false, || format!("valid response refused: {} {:?}", ename(&e), txt)); }
        }
    }
}

pub fn sections() -> Vec<Section> {
    vec![
        Section { name: "srv_validate", props: &["P20", "P21", "P24"], quick: 30000, thorough: 400000, f: srv_validate, rule: "requests with any subset of the conditions violated, any field order and letter case, bytes following the head; blocking, asynchronous and pre-parsed" },
        Section { name: "srv_accept", props: &["P06", "P08", "P15", "P18", "P19", "P20", "P21", "P24", "P28", "P29"], quick: 30000, thorough: 400000, f: srv_accept, rule: "valid requests accepted or rejected with random protocols, extensions, hostile custom headers and limits; then frames on the connection" },
        Section { name: "client", props: &["P06", "P08", "P15", "P18", "P22", "P23", "P24", "P28", "P29"], quick: 40000, thorough: 500000, f: client, rule: "random builder call sequences and URLs against responses with any subset of the conditions violated; then frames on the connection" },
        Section { name: "reports", props: &["P35"], quick: 20000, thorough: 300000, f: reports, rule: "requests and responses with repeated protocol and extension lines, an origin, any URI and letter case" },
        Section { name: "keys", props: &["P19"], quick: 20000, thorough: 400000, f: keys, rule: "random keys against an independent SHA-1 and base64; base64 texts of every length around the right one" },
        Section { name: "lists", props: &["P26"], quick: 40000, thorough: 600000, f: lists, rule: "random lists rendered with random blanks, parsed, printed and parsed again" },
        Section { name: "httpcodec", props: &["P21", "P23", "P24", "P27"], quick: 20000, thorough: 300000, f: httpcodec, rule: "sequences of heads, damaged and oversized ones, any chunking" },
        Section { name: "endpoint", props: &["P25"], quick: 120, thorough: 1200, f: endpoint, rule: "every scheme and entry point against local listeners, explicit and default ports" },
        Section { name: "rwpair", props: &["P24", "P30"], quick: 60000, thorough: 800000, f: rwpair, rule: "random call sequences on the pair and on its halves" },
        Section { name: "framed", props: &["P24"], quick: 2000, thorough: 20000, f: framed, rule: "codec replacement with bytes in both buffers" },
        Section { name: "deflt_conn", props: &["P28"], quick: 8, thorough: 8, f: deflt_conn, rule: "default limits on connections of every kind" },
        Section { name: "tcp_server", props: &["P20", "P21", "P24"], quick: 120, thorough: 1000, f: tcp_server, rule: "the TCP server type, valid and invalid requests with bytes following" },
    ]
}
