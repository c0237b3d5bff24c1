use crate::core::*;
use crate::io::*;
use crate::model::*;
use crate::s_frame::*;
use crate::s_msg::*;
use bytes::BytesMut;
use tokio_codec::Decoder;
use websocket::receiver::{Reader, Receiver};
use websocket_base::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket_base::dataframe::DataFrame;
use websocket_base::result::WebSocketError as E;
use websocket_base::ws::Receiver as _;

pub enum Bad { No, Mask, Header }
/// frames a peer sends (masked as the receiver under test expects), with rule violations now and then
pub struct Script { pub frames: Vec<(Fr, Bad)>, pub tail: Vec<u8> }
impl Script {
    pub fn bytes(&self) -> Vec<u8> { let mut v: Vec<u8> = vec![]; for (f, b) in &self.frames { v.extend(one(f, b)); } v.extend_from_slice(&self.tail); v }
    pub fn show(&self) -> String { let mut s = self.frames.iter().map(|(f, b)| format!("{}{}", show(f), match b { Bad::No => "", Bad::Mask => " [wrong masking]", Bad::Header => " [invalid header]" })).collect::<Vec<_>>().join(", "); if !self.tail.is_empty() { s.push_str(&format!(" + {} stray bytes", self.tail.len())) } s }
}
fn one(f: &Fr, b: &Bad) -> Vec<u8> {
    match b {
        Bad::No => f.bytes(),
        Bad::Mask => { let mut g = f.clone(); g.mask = if f.mask.is_some() { None } else { Some([1, 2, 3, 4]) }; g.bytes() }
        // a length that is not minimally encoded
        Bad::Header => { let mut v = vec![0x82, if f.mask.is_some() { 0xFE } else { 0x7E }, 0, 5, 9, 9, 9, 9]; v.extend_from_slice(&[0; 5]); v }
    }
}
pub fn script(r: &mut Rng, masked: bool, clean: bool, max_pay: usize) -> Script {
    let mut fs = vec![];
    let nmsg = r.range(1, 5);
    let k = |r: &mut Rng| if masked { Some(r.key()) } else { None };
    let ctl = |r: &mut Rng| { let op = *r.pick(&[9u8, 10, 8, 9, 10]); let data = if op == 8 { match r.below(3) { 0 => vec![], 1 => vec![3, 232], _ => { let n = r.range(0, 20); let mut v = r.bytes(2); v.extend(utf8_text(r, n)); v } } } else { let n = r.range(0, 125); r.bytes(n) }; Fr { fin: true, rsv: 0, op, mask: k(r), data } };
    for _ in 0..nmsg {
        if r.one_in(4) { fs.push((ctl(r), Bad::No)); continue; }
        let text = r.flip();
        let body = if text { let n = r.range(0, 40); let t = utf8_text(r, n); if clean { t } else { maybe_bad(r, t) } } else { let n = pay_len(r, false).min(max_pay); r.bytes(n) };
        let n = match r.below(4) { 0 => 1, 1 => 2, 2 => r.range(2, 4), _ => r.range(1, 12) };
        let parts = cut(r, &body, n);
        let last = parts.len() - 1;
        for (i, p) in parts.into_iter().enumerate() {
            fs.push((Fr { fin: i == last, rsv: 0, op: if i == 0 { if text { 1 } else { 2 } } else { 0 }, mask: k(r), data: p }, Bad::No));
            while i < last && r.one_in(3) { fs.push((ctl(r), Bad::No)); }
        }
    }
    let mut tail = vec![];
    if !clean {
        let i = r.below(fs.len() + 1);
        match r.below(9) {
            0 => { let n = r.range(0, 9); let d = r.bytes(n); fs.insert(i, (Fr { fin: r.flip(), rsv: 0, op: 0, mask: k(r), data: d }, Bad::No)); }
            1 => { let n = r.range(0, 9); let d = r.bytes(n); fs.insert(i, (Fr { fin: r.flip(), rsv: 0, op: 2, mask: k(r), data: d }, Bad::No)); }
            2 => { let n = r.range(0, 9); let d = r.bytes(n); fs.insert(i, (Fr { fin: true, rsv: 0, op: *r.pick(&[3, 4, 5, 6, 7, 11, 12, 13, 14, 15]), mask: k(r), data: d }, Bad::No)); }
            3 if i < fs.len() => { fs[i].0.rsv = r.range(1, 7) as u8; }
            4 if i < fs.len() => { fs[i].1 = Bad::Mask; }
            5 => { let d = r.bytes(5); fs.insert(i, (Fr { fin: true, rsv: 0, op: 2, mask: k(r), data: d }, Bad::Header)); }
            6 => { let d = r.bytes(1); fs.insert(i, (Fr { fin: true, rsv: 0, op: 8, mask: k(r), data: d }, Bad::No)); }
            7 => { fs.truncate(i); let f = Fr { fin: true, rsv: 0, op: 2, mask: k(r), data: vec![7; 40] }.bytes(); let c = r.below(f.len()); tail = f[..c].to_vec(); }
            _ => {}
        }
    }
    Script { frames: fs, tail }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { M(Msg, usize), Err(&'static str, usize), End }
/// What a receiver must deliver: messages with the stream offset behind their last frame, the first
/// error with the offset behind the offending frame, or the end of the bytes.
/// `fl`: frame limit. Message size limits are judged separately.
pub fn expect(s: &Script, fl: usize) -> Vec<Ev> {
    let (mut evs, mut buf, mut off) = (vec![], Vec::<Fr>::new(), 0);
    for (f, b) in &s.frames {
        off += one(f, b).len();
        match b { Bad::Header => { evs.push(Ev::Err("header", off)); return evs; } _ => {} }
        if f.data.len() > fl { evs.push(Ev::Err("frame-limit", off)); return evs; }
        match b { Bad::Mask => { evs.push(Ev::Err("mask", off)); return evs; } _ => {} }
        let complete = if f.op >= 8 { Some(vec![f.clone()]) }
            else if f.op == 0 && buf.is_empty() { evs.push(Ev::Err("stray continuation", off)); return evs; }
            else if f.op != 0 && !buf.is_empty() { evs.push(Ev::Err("new data frame inside a message", off)); return evs; }
            else { buf.push(f.clone()); if f.fin { Some(std::mem::take(&mut buf)) } else { None } };
        if let Some(fs) = complete { match assemble(&fs) { Ok(m) => evs.push(Ev::M(m, off)), Err(e) => { evs.push(Ev::Err(e, off)); return evs; } } }
    }
    evs.push(Ev::End);
    evs
}
pub fn evshow(v: &[Ev]) -> String { v.iter().map(|e| match e { Ev::M(m, o) => format!("{}@{}", mshow(m), o), Ev::Err(e, o) => format!("error({})@{}", e, o), Ev::End => "end".into() }).collect::<Vec<_>>().join(", ") }
fn prop_of(e: Option<&Ev>, sm: &'static str) -> String {
    match e { Some(Ev::Err("mask", _)) => "P06".into(), Some(Ev::Err("frame-limit", _)) => "P08".into(), Some(Ev::Err("utf8", _)) => "P10".into(), Some(Ev::Err("close1", _)) => "P11".into(), Some(Ev::Err("header", _)) => "P01".into(), Some(Ev::Err("reserved", _)) | Some(Ev::Err("opcode", _)) => format!("P09|{}", sm), Some(Ev::M(Msg::Text(_), _)) => format!("P10|P09|{}", sm), Some(Ev::M(Msg::Close(_), _)) => format!("P11|{}", sm), _ => format!("{}|P09", sm) }
}

fn blocking(cx: &mut Cx, case: u64) {
    let masked = cx.r.flip();
    let s = script(&mut cx.r, masked, case % 3 == 0, usize::MAX);
    let data = s.bytes();
    let fl = if s.tail.is_empty() && cx.r.one_in(4) { cx.r.range(0, 130) } else { usize::MAX };
    let want = expect(&s, fl);
    cx.tr(|| format!("masked={} frame limit {}: {}", masked, fl, s.show()));
    let mut rd = ChunkReader::new(data.clone(), sizes(&mut cx.r)); rd.intr = cx.r.one_in(4);
    let deflt = fl == usize::MAX && cx.r.flip();
    let mut rx = if deflt { Receiver::new(masked) } else { Receiver::new_with_limits(masked, fl, usize::MAX) };
    let mut got: Vec<String> = vec![];
    for (i, w) in want.iter().enumerate() {
        let frames = cx.r.one_in(3);
        let g: Result<Msg, E> = if frames { rx.recv_message_dataframes(&mut rd).and_then(|fs| { use websocket_base::ws::Message; websocket_base::OwnedMessage::from_dataframes(fs).map(|m| of_owned(&m)) }) } else { rx.recv_message(&mut rd).map(|m| of_owned(&m)) };
        got.push(match &g { Ok(m) => format!("{}@{}", mshow(m), rd.pos), Err(e) => format!("{}@{}", ename(e), rd.pos) });
        let ok = match (w, &g) { (Ev::M(m, o), Ok(x)) => m == x && rd.pos == *o, (Ev::Err(_, _), Err(e)) => !matches!(e, E::NoDataAvailable) || matches!(w, Ev::Err("close1", _)), (Ev::End, Err(E::NoDataAvailable)) => true, _ => false };
        let p = prop_of(Some(w), "P12");
        if !cx.ck(&p, ok, || format!("blocking receiver (masked={}, frame limit {}, granularity {:?}) at step {}: got {}; expected {}", masked, fl, rd.sizes, i, got.join(", "), evshow(&want))) { break; }
    }
    cx.note(format!("{:?}", want.iter().map(|e| match e { Ev::M(m, _) => m.op() as usize, Ev::Err(e, _) => e.len() + 100, Ev::End => 99 }).collect::<Vec<_>>()));
    cx.note(s.frames.len());
}

/// splits data at random places (or every byte)
fn chunks(r: &mut Rng, n: usize) -> Vec<usize> {
    if n == 0 { return vec![0]; }
    match r.below(4) { 0 if n < 3000 => (1..=n).collect(), 1 => vec![n], _ => { let k = r.range(1, 12); let mut v: Vec<usize> = (0..k).map(|_| r.below(n + 1)).collect(); v.push(n); v.sort(); v } }
}
fn boundaries(s: &Script) -> Vec<usize> { let mut o = 0; let mut v = vec![0]; for (f, b) in &s.frames { o += one(f, b).len(); v.push(o); } v }

fn codec(cx: &mut Cx, case: u64) {
    let masked = cx.r.flip();
    let s = script(&mut cx.r, masked, case % 3 == 0, usize::MAX);
    let data = s.bytes();
    let fl = if s.tail.is_empty() && cx.r.one_in(4) { cx.r.range(0, 130) } else { usize::MAX };
    let want = expect(&s, fl);
    cx.tr(|| format!("masked={} frame limit {}: {}", masked, fl, s.show()));
    let ctx = || if masked { Context::Server } else { Context::Client };
    let bnd = boundaries(&s);
    let deflt = fl == usize::MAX && cx.r.flip();
    for _ in 0..2 {
        let cuts = chunks(&mut cx.r, data.len());
        let mut c: MessageCodec<websocket_base::OwnedMessage> = if deflt { MessageCodec::default(ctx()) } else { MessageCodec::new_with_limits(ctx(), fl, usize::MAX) };
        let cap = *cx.r.pick(&[0usize, 16, 8192]);
        let mut src = BytesMut::with_capacity(cap);
        let (mut fed, mut k) = (0, 0);
        let mut got: Vec<String> = vec![];
        'outer: for &cut in &cuts {
            if cut == fed && cx.r.flip() && fed != 0 { continue; }
            src.extend_from_slice(&data[fed..cut]); fed = cut;
            loop {
                let before = src.to_vec();
                let g = c.decode(&mut src);
                let used = fed - src.len().min(fed);
                got.push(match &g { Ok(Some(m)) => format!("{}@{}", mshow(&of_owned(m)), used), Ok(None) => format!("none@{}", used), Err(e) => format!("{}@{}", ename(e), used) });
                let tail_ok = src.len() <= before.len() && before.ends_with(&src) && src.to_vec() == data[used..fed];
                let w = want.get(k);
                let due = match w { Some(Ev::M(_, o)) => *o <= fed, Some(Ev::Err(_, o)) => *o <= fed, _ => false };
                let p = if due { prop_of(w, "P13|P14") } else { "P13|P14".to_string() };
                let ok = match (w, &g) {
                    (Some(Ev::M(m, o)), Ok(Some(x))) => due && *m == of_owned(x) && used == *o && tail_ok,
                    (Some(Ev::Err(..)), Err(_)) => true,
                    (Some(Ev::End), Ok(None)) | (Some(Ev::M(..)), Ok(None)) | (Some(Ev::Err(..)), Ok(None)) => !due && tail_ok && used == *bnd.iter().filter(|b| **b <= fed).max().unwrap(),
                    _ => false,
                };
                if !cx.ck(&p, ok, || format!("message codec (masked={}, frame limit {}) fed up to {} in pieces {:?}: got {}; expected {}; frames end at {:?}", masked, fl, fed, &cuts[..cuts.len().min(30)], got[got.len().saturating_sub(12)..].join(", "), evshow(&want), &bnd)) { return; }
                match g { Ok(Some(_)) => k += 1, Ok(None) => break, Err(_) => { k += 1; break 'outer } }
            }
        }
        if fed == data.len() { cx.ck(&prop_of(want.get(k), "P13|P14"), k + 1 >= want.len(), || format!("message codec (masked={}) delivered {} results of {}", masked, k, evshow(&want))); }
        // the frame codec on the same bytes
        let cuts = chunks(&mut cx.r, data.len());
        let mut c = if deflt { DataFrameCodec::default(ctx()) } else { DataFrameCodec::new_with_limits(ctx(), fl) };
        let mut src = BytesMut::with_capacity(cap);
        let (mut fed, mut k, mut off) = (0, 0, 0);
        'o2: for &cut in &cuts {
            src.extend_from_slice(&data[fed..cut]); fed = cut;
            loop {
                let before = src.to_vec();
                let g: Result<Option<DataFrame>, E> = c.decode(&mut src);
                let wf = s.frames.get(k);
                let end = wf.map(|(f, b)| off + one(f, b).len());
                let due = end.map_or(false, |e| e <= fed);
                let bad = wf.map_or(false, |(f, b)| !matches!(b, Bad::No) || f.data.len() > fl);
                let ok = match &g {
                    Ok(Some(x)) => due && !bad && { let mut y = wf.unwrap().0.clone(); y.mask = None; fr_of(x) == y } && src.to_vec() == data[end.unwrap()..fed],
                    Ok(None) => !due && src.to_vec() == before,
                    Err(_) => bad,
                };
                let p = match wf { Some((_, Bad::Mask)) => "P06", Some((_, Bad::Header)) => "P01|P14", Some((f, _)) if f.data.len() > fl => "P08|P14", _ => "P14|P03" };
                if !cx.ck(p, ok, || format!("frame codec (masked={}, frame limit {}) with bytes {}..{} gave {:?}, {} bytes left; next is {:?}", masked, fl, off, fed, g.as_ref().map(|x| x.as_ref().map(|x| show(&fr_of(x)))).map_err(ename), src.len(), wf.map(|x| show(&x.0)))) { return; }
                match g { Ok(Some(_)) => { off = end.unwrap(); k += 1 } Ok(None) => break, Err(_) => break 'o2 }
            }
        }
        cx.note((cuts.len(), want.len(), k));
    }
    cx.note(format!("{:?}", want.iter().map(|e| match e { Ev::M(m, _) => m.op() as usize, Ev::Err(e, _) => e.len() + 100, Ev::End => 99 }).collect::<Vec<_>>()));
}

/// an oversized declared length is refused by the codec on the header alone
fn codec_limit(cx: &mut Cx, _case: u64) {
    let masked = cx.r.flip();
    let limit: usize = match cx.r.below(5) { 0 => cx.r.range(0, 130), 1 => cx.r.range(65530, 65540), 2 => usize::MAX, 3 => (1 << 32) - 1, _ => cx.r.range(0, 200000) };
    let eff = limit.min(u32::MAX as usize) as u64;
    for len in [eff, eff + 1, eff.saturating_sub(1), eff + 1 + cx.r.below(500) as u64, 1 << 40, 1 << 63, u64::MAX - 20, u64::MAX - 3, u64::MAX, cx.r.next() >> 1] {
        let h = Hd { fin: true, rsv: 0, op: 2, mask: if masked { Some([1, 2, 3, 4]) } else { None }, len };
        let mut b = encode_header(&h); let hl = b.len();
        let avail = if len <= 300 { len as usize } else { cx.r.range(0, 40) };
        b.extend(vec![0x55; avail]);
        for which in 0..2 {
            for upto in [hl - 1, hl, b.len()] {
                let mut src = BytesMut::from(&b[..upto]);
                let ctx = if masked { Context::Server } else { Context::Client };
                let (g, pk) = peak(|| if which == 0 { DataFrameCodec::<DataFrame>::new_with_limits(ctx, limit).decode(&mut src).map(|x| x.is_some()) } else { MessageCodec::<websocket_base::OwnedMessage>::new_with_limits(ctx, limit, usize::MAX).decode(&mut src).map(|x| x.is_some()) });
                let gs = format!("{:?}", g.as_ref().map_err(ename));
                let (p, ok) = if upto < hl { ("P08|P14", matches!(g, Ok(false)) && src.len() == upto) } else if len > eff { ("P08", g.is_err() && pk < 65536) } else if (upto - hl) as u64 >= len { ("P08", matches!(g, Ok(true))) } else { ("P08|P14", matches!(g, Ok(false)) && src.len() == upto) };
                cx.ck(p, ok, || format!("{} codec with frame limit {}: declared {} with {} of {} header bytes and {} payload bytes gave {}, {} bytes allocated, {} left in buffer", if which == 0 { "frame" } else { "message" }, limit, len, upto.min(hl), hl, upto.saturating_sub(hl), gs, pk, src.len()));
                cx.ck("P16", pk < 1 << 20, || format!("codec with frame limit {}: declared {}: {} bytes allocated", limit, len, pk));
            }
        }
        cx.note((limit, len, masked));
    }
    cx.tr(|| format!("frame limit {}", limit));
}

/// unfinished messages against the message limit, on both receivers, with control frames and any chunking
fn hoard(cx: &mut Cx, case: u64) {
    let masked = cx.r.flip();
    let limit = match cx.r.below(4) { 0 => cx.r.range(0, 400), 1 => cx.r.range(0, 3000), 2 => cx.r.range(1000, 20000), _ => 64 * cx.r.range(1, 30) + cx.r.below(3) };
    let style = cx.r.below(4);
    let mut lens: Vec<usize> = vec![];
    let nf = cx.r.range(2, 60);
    for _ in 0..nf { lens.push(match style { 0 => 0, 1 => cx.r.range(0, 10), 2 => cx.r.range(0, 300), _ => *cx.r.pick(&[0, 1, 125, 126, 500, limit, limit / 2 + 1]) }); }
    if cx.r.flip() { // stay just inside: payload + 64 per fragment below the limit
        let mut t = 0; let mut n = 0; for l in &lens { if t + l + 64 < limit { t += l + 64; n += 1 } else { break } } lens.truncate(n.max(1)); if n == 0 { lens[0] = 0; }
    }
    let finish = cx.r.flip();
    let mut fs: Vec<Fr> = vec![]; let mut ctl = 0;
    for (i, l) in lens.iter().enumerate() {
        while cx.r.one_in(4) { let op = *cx.r.pick(&[9u8, 10]); let m = if masked { Some(cx.r.key()) } else { None }; fs.push(Fr { fin: true, rsv: 0, op, mask: m, data: vec![1; (i * 7) % 100] }); ctl += 1; }
        let m = if masked { Some(cx.r.key()) } else { None };
        fs.push(Fr { fin: finish && i + 1 == lens.len(), rsv: 0, op: if i == 0 { 2 } else { 0 }, mask: m, data: cx.r.bytes(*l) });
    }
    cx.tr(|| format!("message limit {}, fragments {:?}{} with {} control frames between", limit, lens, if finish { " (finished)" } else { " (unfinished)" }, ctl));
    let data: Vec<u8> = fs.iter().flat_map(|f| f.bytes()).collect();
    // index of the last fragment that may still be retained without an error
    let mut must_err = None; let mut sum = 0;
    for (i, l) in lens.iter().enumerate() { if sum > limit && !(finish && i + 1 == lens.len()) { must_err = Some(i); break; } sum += l; }
    let weight: usize = lens.iter().map(|l| l + 64).sum();
    let must_accept = weight < limit;
    // stream offset behind fragment i
    let off_of = |k: usize| { let (mut o, mut n) = (0, 0); for f in &fs { o += f.bytes().len(); if f.op < 8 { if n == k { break; } n += 1; } } o };
    for which in 0..2 {
        let (mut err_at, mut done, mut nctl): (Option<usize>, bool, usize) = (None, false, 0);
        let mut kind = String::new();
        if which == 0 {
            let mut rd = ChunkReader::new(data.clone(), sizes(&mut cx.r));
            let mut rx = Receiver::new_with_limits(masked, 1 << 30, limit);
            loop { match rx.recv_message(&mut rd) { Ok(m) => { if of_owned(&m).op() >= 8 { nctl += 1 } else { done = true } } Err(E::NoDataAvailable) => break, Err(e) => { err_at = Some(rd.pos); kind = ename(&e); break } } if nctl > fs.len() { break } }
        } else {
            let cuts = chunks(&mut cx.r, data.len());
            let mut c: MessageCodec<websocket_base::OwnedMessage> = MessageCodec::new_with_limits(if masked { Context::Server } else { Context::Client }, 1 << 30, limit);
            let mut src = BytesMut::new(); let mut fed = 0;
            'o: for &cut in &cuts { src.extend_from_slice(&data[fed..cut]); fed = cut; loop { match c.decode(&mut src) { Ok(Some(m)) => { if of_owned(&m).op() >= 8 { nctl += 1 } else { done = true } } Ok(None) => break, Err(e) => { err_at = Some(fed - src.len()); kind = ename(&e); break 'o } } if nctl > fs.len() { break 'o } } }
        }
        let nm = ["blocking receiver", "message codec"][which];
        if let Some(i) = must_err { cx.ck("P15", err_at.map_or(false, |p| p <= off_of(i)), || format!("{} with message limit {} kept fragments {:?} of an unfinished message without an error by fragment {} (error at byte {:?})", nm, limit, &lens[..=i.min(lens.len() - 1)], i, err_at)); }
        if must_accept { cx.ck("P15|P28", err_at.is_none() && done == finish && nctl == ctl, || format!("{} with message limit {} and fragments {:?} (weight {}): error {} at {:?}, delivered {}", nm, limit, lens, weight, kind, err_at, done)); }
        if sum > limit && must_err.is_some() { cx.ck("P28", err_at.is_some(), || format!("{}: message limit {} not enforced on {:?}", nm, limit, lens)); }
        cx.note((which, limit, lens.len(), err_at.is_some(), done));
    }
    let _ = case;
}

fn flood(cx: &mut Cx, case: u64) {
    let n = (1usize << 20) + 2;
    let mut data = Vec::with_capacity(2 * n + 16);
    for i in 0..n { data.push(if i == 0 { 2 } else { 0 }); data.push(0); if case == 1 && i == n / 2 { data.extend_from_slice(&[0x89, 0]); } }
    let bound = 2 * ((1 << 20) + 1) + 2;
    let (pos, ok, s) = if case < 2 {
        let mut rx = Receiver::new_with_limits(false, usize::MAX, usize::MAX);
        let mut rd = ChunkReader::all(data);
        let mut r = rx.recv_message(&mut rd);
        if case == 1 && r.is_ok() { r = rx.recv_message(&mut rd); }
        (rd.pos, matches!(&r, Err(e) if !matches!(e, E::NoDataAvailable)), format!("{:?}", r.map(|m| mshow(&of_owned(&m))).map_err(|e| ename(&e))))
    } else {
        let mut c: MessageCodec<websocket_base::OwnedMessage> = MessageCodec::new_with_limits(Context::Client, usize::MAX, usize::MAX);
        let mut src = BytesMut::from(data); let l = src.len();
        let mut r = c.decode(&mut src);
        if let Ok(Some(_)) = r { r = c.decode(&mut src); }
        (l - src.len(), r.is_err(), format!("{:?}", r.map(|m| m.map(|m| mshow(&of_owned(&m)))).map_err(|e| ename(&e))))
    };
    cx.ck("P15", ok && pos <= bound, || format!("{} empty fragments: result {} after {} bytes", n, s, pos));
    cx.tr(|| format!("flood {}", case));
    cx.note(case + 1);
}

/// iterators agree with repeated receive calls, errors included, and do not end
fn iterators(cx: &mut Cx, case: u64) {
    let masked = cx.r.flip();
    let s = script(&mut cx.r, masked, case % 3 == 0, 2000);
    let mut data = s.bytes();
    if cx.r.one_in(3) { let s2 = script(&mut cx.r, masked, true, 500); data.extend(s2.bytes()); }
    let fl = if s.tail.is_empty() && cx.r.one_in(4) { cx.r.range(0, 130) } else { usize::MAX };
    cx.tr(|| format!("masked={} frame limit {}: {}", masked, fl, s.show()));
    let k = s.frames.len() + 6;
    let sz = sizes(&mut cx.r);
    let fm = |r: Result<websocket_base::OwnedMessage, E>| match r { Ok(m) => format!("{:?}", of_owned(&m)), Err(e) => ename(&e) };
    let ff = |r: Result<DataFrame, E>| match r { Ok(m) => format!("{:?}", fr_of(&m)), Err(e) => ename(&e) };
    let mk = || Receiver::new_with_limits(masked, fl, usize::MAX);
    let rd = || ChunkReader::new(data.clone(), sz.clone());
    let (mut a, mut b, mut c, mut d) = (vec![], vec![], vec![], vec![]);
    let fail = if cx.r.one_in(3) { Some((cx.r.below(data.len() + 1), { use std::io::ErrorKind::*; *cx.r.pick(&[TimedOut, WouldBlock, ConnectionReset, ConnectionAborted, BrokenPipe, UnexpectedEof, NotConnected, InvalidData, Other]) })) } else { None };
    let rd = || { let mut r = rd(); r.fail_at = fail; r };
    { let (mut x, mut r) = (mk(), rd()); for _ in 0..k { a.push(Some(fm(x.recv_message(&mut r)))); } }
    { let (mut x, mut r) = (mk(), rd()); let mut it = x.incoming_messages(&mut r); for _ in 0..k { b.push(it.next().map(fm)); } }
    cx.ck("P29", a == b, || format!("incoming_messages yields {:?}, repeated recv_message {:?}", b, a));
    { let (mut x, mut r) = (mk(), rd()); for _ in 0..k { c.push(Some(ff(x.recv_dataframe(&mut r)))); } }
    { let (mut x, mut r) = (mk(), rd()); let mut it = x.incoming_dataframes(&mut r); for _ in 0..k { d.push(it.next().map(ff)); } }
    cx.ck("P29", c == d, || format!("incoming_dataframes yields {:?}, repeated recv_dataframe {:?}", d, c));
    // Reader, with bytes already buffered
    let pre = cx.r.below(data.len().min(50) + 1).min(fail.map_or(usize::MAX, |f| f.0));
    let reader = || { let mut r = rd(); r.pos = pre; Reader { stream: hyper::buffer::BufReader::from_parts(r, data[..pre].to_vec(), 0, pre), receiver: mk() } };
    if pre > 0 {
        let (mut e, mut f, mut g) = (vec![], vec![], vec![]);
        { let mut x = reader(); for _ in 0..k { e.push(Some(fm(x.recv_message()))); } }
        { let mut x = reader(); let mut it = x.incoming_messages(); for _ in 0..k { f.push(it.next().map(fm)); } }
        { let mut x = reader(); let mut it = x.incoming_dataframes(); for _ in 0..k { g.push(it.next().map(ff)); } }
        cx.ck("P29", e == f, || format!("Reader::incoming_messages yields {:?}, repeated recv_message {:?}", f, e));
        cx.ck("P29", c.iter().take(s.frames.len()).eq(g.iter().take(s.frames.len())), || format!("Reader::incoming_dataframes yields {:?}, expected {:?}", g, c));
        let n = expect(&s, fl).iter().filter(|x| matches!(x, Ev::M(..))).count();
        if fail.is_none() { cx.ck("P29|P24", e[..n] == a[..n], || format!("Reader with {} bytes already buffered delivers {:?}, expected {:?}", pre, &e[..n], &a[..n])); }
    }
    cx.note((k, a.len(), format!("{:?}", a.iter().map(|x| x.as_ref().map(|s| s.len())).collect::<Vec<_>>())));
}

/// arbitrary bytes must never panic or hang anything
fn fuzz(cx: &mut Cx, _case: u64) {
    let n = cx.r.range(0, 200);
    let mut data = cx.r.bytes(n);
    if cx.r.flip() { let m = cx.r.flip(); let s = script(&mut cx.r, m, false, 300); data = s.bytes(); for _ in 0..cx.r.below(4) { if !data.is_empty() { let i = cx.r.below(data.len()); data[i] = cx.r.next() as u8; } } }
    if cx.r.one_in(3) && data.len() > 10 { let i = cx.r.below(data.len() - 9); let b = *cx.r.pick(&[0x7f, 0xff, 0x7e, 0xfe]); data[i] = b; for j in 1..9 { if cx.r.flip() { data[i + j] = *cx.r.pick(&[0, 0xff, 0x80, 0x7f]); } } }
    cx.tr(|| format!("bytes {}", hex(&data)));
    let masked = cx.r.flip();
    let fl = *cx.r.pick(&[0usize, 10, 1000, 1 << 27, usize::MAX]);
    let ml = *cx.r.pick(&[0usize, 10, 1000, 1 << 27, usize::MAX]);
    let (_, pk) = peak(|| {
        let mut rd = ChunkReader::new(data.clone(), sizes(&mut cx.r));
        let mut rx = Receiver::new_with_limits(masked, fl, ml);
        for _ in 0..40 { let _ = rx.recv_message(&mut rd); }
        let mut rd = ChunkReader::all(data.clone());
        for _ in 0..10 { let _ = DataFrame::read_dataframe(&mut rd, masked); }
        let ctx = || if masked { Context::Server } else { Context::Client };
        let mut c: MessageCodec<websocket_base::OwnedMessage> = MessageCodec::new_with_limits(ctx(), fl, ml);
        let mut d = DataFrameCodec::<DataFrame>::new_with_limits(ctx(), fl);
        let (mut s1, mut s2) = (BytesMut::new(), BytesMut::new());
        for ch in data.chunks(7) { s1.extend_from_slice(ch); s2.extend_from_slice(ch); for _ in 0..40 { if !matches!(c.decode(&mut s1), Ok(Some(_))) { break } } for _ in 0..40 { if !matches!(d.decode(&mut s2), Ok(Some(_))) { break } } }
    });
    cx.ck("P16", pk < 64 << 20, || format!("{} bytes allocated for {} input bytes (frame limit {})", pk, data.len(), fl));
    cx.note(&data);
}

pub struct Zeros { pub head: Vec<u8>, pub hp: usize, pub left: u64 }
impl std::io::Read for Zeros { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.hp < self.head.len() { let n = b.len().min(self.head.len() - self.hp); b[..n].copy_from_slice(&self.head[self.hp..self.hp + n]); self.hp += n; return Ok(n); } let n = (b.len() as u64).min(self.left) as usize; for x in &mut b[..n] { *x = 0 } self.left -= n as u64; Ok(n) } }
impl Zeros { pub fn frame(op: u8, fin: bool, len: u64) -> Zeros { Zeros { head: encode_header(&Hd { fin, rsv: 0, op, mask: None, len }), hp: 0, left: len } } }
pub const MIB: u64 = 1 << 20;

/// documented defaults: 100 MiB frames, 200 MiB messages
fn defaults(cx: &mut Cx, case: u64) {
    cx.tr(|| format!("defaults {}", case));
    cx.note(case + 1);
    match case {
        0 | 1 => for len in [100 * MIB, 100 * MIB + 1, 100 * MIB - 1, 101 * MIB] {
            let masked = case == 1;
            let b = encode_header(&Hd { fin: true, rsv: 0, op: 2, mask: if masked { Some([0; 4]) } else { None }, len });
            let refuse = len > 100 * MIB;
            let r = Receiver::new(masked).recv_dataframe(&mut &b[..]);
            cx.ck("P28", matches!(r, Err(E::NoDataAvailable)) != refuse, || format!("default receiver, declared {}: {:?}", len, r.map(|_| ()).map_err(|e| ename(&e))));
            let ctx = || if masked { Context::Server } else { Context::Client };
            let rs = [DataFrameCodec::<DataFrame>::default(ctx()).decode(&mut BytesMut::from(&b[..])).is_err(), DataFrameCodec::<DataFrame>::new(ctx()).decode(&mut BytesMut::from(&b[..])).is_err(), MessageCodec::default(ctx()).decode(&mut BytesMut::from(&b[..])).is_err(), MessageCodec::<websocket_base::OwnedMessage>::new(ctx()).decode(&mut BytesMut::from(&b[..])).is_err()];
            cx.ck("P28", rs.iter().all(|x| *x == refuse), || format!("default codecs, declared {}: refused {:?} (frame default, frame new, message default, message new)", len, rs));
        },
        2 => {
            let mut rx = Receiver::new(false);
            use std::io::Read;
            let mut s = Zeros::frame(2, false, 90 * MIB).chain(Zeros::frame(0, false, 90 * MIB)).chain(Zeros::frame(0, true, 19 * MIB));
            let r = rx.recv_message(&mut s);
            cx.ck("P28|P15", matches!(&r, Ok(websocket_base::OwnedMessage::Binary(d)) if d.len() as u64 == 199 * MIB), || format!("default receiver on a 199 MiB message: {:?}", r.as_ref().map(|_| ()).map_err(ename)));
            drop(r);
            let mut s = Zeros::frame(2, false, 90 * MIB).chain(Zeros::frame(0, false, 90 * MIB)).chain(Zeros::frame(0, false, 20 * MIB + 1)).chain(Zeros::frame(0, true, 20 * MIB));
            let r = rx.recv_message(&mut s);
            cx.ck("P28|P15", r.is_err(), || "default receiver accepted 200 MiB + 1 of unfinished message".to_string());
        }
        _ => {
            for (over, fin_ok) in [(0u64, true), (1, false)] {
                let mut c: MessageCodec<websocket_base::OwnedMessage> = MessageCodec::default(Context::Client);
                let mut err = false; let mut done = false;
                for (op, fin, len) in [(2, false, 90 * MIB), (0, false, 90 * MIB), (0, false, 20 * MIB - 256 + over * 257), (0, true, 16)] {
                    let mut v = encode_header(&Hd { fin, rsv: 0, op, mask: None, len }); v.resize(v.len() + len as usize, 0);
                    match c.decode(&mut BytesMut::from(v)) { Ok(Some(m)) => { done = matches!(m, websocket_base::OwnedMessage::Binary(d) if d.len() as u64 == 200 * MIB - 256 + over * 257 + 16) } Ok(None) => {} Err(_) => { err = true; break } }
                }
                cx.ck("P28|P15", done == fin_ok && err != fin_ok, || format!("default codec on a message of 200 MiB {} unfinished: delivered {}, error {}", if over == 1 { "+ 1 byte" } else { "- 256 bytes" }, done, err));
            }
        }
    }
}

pub fn sections() -> Vec<Section> {
    vec![
        Section { name: "blocking", props: &["P01", "P06", "P08", "P09", "P10", "P11", "P12", "P16"], quick: 200000, thorough: 3000000, f: blocking, rule: "random frame scripts with fragments, interleaved control frames and one rule violation, any read granularity, compared with a reference receiver" },
        Section { name: "codec", props: &["P01", "P03", "P06", "P08", "P09", "P10", "P11", "P13", "P14", "P16"], quick: 100000, thorough: 1500000, f: codec, rule: "random frame scripts fed to both codecs in random chunks (down to single bytes), compared with a reference receiver including the bytes left over" },
        Section { name: "codec_limit", props: &["P08", "P14", "P16"], quick: 4000, thorough: 60000, f: codec_limit, rule: "declared lengths around the limit and around integer boundaries on partial headers" },
        Section { name: "hoard", props: &["P15", "P28"], quick: 150000, thorough: 2000000, f: hoard, rule: "unfinished and finished messages around the message limit, control frames between, any chunking" },
        Section { name: "flood", props: &["P15"], quick: 4, thorough: 4, f: flood, rule: "2^20 + 2 empty fragments" },
        Section { name: "iterators", props: &["P24", "P29"], quick: 60000, thorough: 600000, f: iterators, rule: "random scripts with errors and failing readers, iterator against repeated calls" },
        Section { name: "fuzz", props: &["P16"], quick: 400000, thorough: 8000000, f: fuzz, rule: "random and mutated byte streams into every decoder" },
        Section { name: "defaults", props: &["P15", "P28"], quick: 4, thorough: 4, f: defaults, rule: "the documented default limits, each side of the boundary" },
    ]
}
