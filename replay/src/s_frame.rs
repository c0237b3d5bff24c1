use crate::core::*;
use crate::io::*;
use crate::model::*;
use std::io;
use std::io::Write;
use websocket_base::dataframe::{DataFrame, Opcode};
use websocket_base::result::WebSocketError as E;
use websocket_base::ws::dataframe::DataFrame as _;
use websocket_base::ws::util::header::{read_header, write_header, DataFrameFlags, DataFrameHeader};
use websocket_base::ws::util::mask::{mask_data, Masker};

pub fn ename(e: &E) -> String { match e { E::IoError(x) => format!("IoError({:?})", x.kind()), o => format!("{:?}", o).chars().take(60).collect() } }

const LENS: &[u64] = &[0, 1, 2, 124, 125, 126, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
fn a_len(r: &mut Rng) -> u64 { match r.below(4) { 0 => r.below(126) as u64, 1 => *r.pick(LENS), 2 => { let s = r.below(64); r.next() >> s } _ => r.range(120, 70000) as u64 } }
pub fn sizes(r: &mut Rng) -> Vec<usize> { match r.below(4) { 0 => vec![1], 1 => vec![usize::MAX], 2 => { let n = r.range(1, 5); (0..n).map(|_| r.range(1, 9)).collect() } _ => { let n = r.range(1, 4); (0..n).map(|_| *r.pick(&[1, 2, 3, 7, 64, 1000, 5000])).collect() } } }
fn hd_of(h: &DataFrameHeader) -> Hd { let b = h.flags.bits(); Hd { fin: b & 0x80 != 0, rsv: (b >> 4) & 7, op: h.opcode, mask: h.mask, len: h.len } }
fn raw_of(h: &Hd) -> DataFrameHeader { DataFrameHeader { flags: DataFrameFlags::from_bits_truncate((if h.fin { 0x80 } else { 0 }) | h.rsv << 4), opcode: h.op, mask: h.mask, len: h.len } }

/// every first byte pair, boundary and random extensions, all truncations, several read granularities
fn hdr_decode(cx: &mut Cx, case: u64) {
    let (b0, b1) = ((case & 255) as u8, ((case >> 8) & 255) as u8);
    let mut b = vec![b0, b1];
    let mut exts: Vec<u64> = vec![a_len(&mut cx.r), cx.r.next()];
    if case % 3 == 0 { exts.extend_from_slice(LENS); }
    match b1 & 127 { 126 | 127 => {} _ => exts.truncate(1) }
    for e in exts {
        b.truncate(2);
        match b1 & 127 { 126 => b.extend_from_slice(&(e as u16).to_be_bytes()), 127 => b.extend_from_slice(&e.to_be_bytes()), _ => {} }
        let n = cx.r.below(9);
        let k = cx.r.key(); b.extend_from_slice(&k);
        let t = cx.r.bytes(n); b.extend_from_slice(&t);
        let full = b.clone();
        for cut in (0..=full.len()).rev() {
            let data = full[..cut].to_vec();
            let sz = sizes(&mut cx.r);
            let mut rd = ChunkReader::new(data.clone(), sz);
            rd.intr = cx.r.one_in(4);
            let got = read_header(&mut rd);
            let want = parse_header(&data);
            let desc = || format!("read_header on {} gave {:?} after consuming {} bytes", hex(&data), got.as_ref().map(|h| hd_of(h)).map_err(ename), rd.pos);
            match &want {
                HdRes::Ok(h, n) => { cx.ck("P01|P08", matches!(&got, Ok(g) if hd_of(g) == *h) && rd.pos == *n, || format!("{}; RFC 6455 5.2 gives {:?} in {} bytes", desc(), h, n)); cx.note((h.op, h.fin, h.rsv, h.mask.is_some(), h.len.leading_zeros())); }
                HdRes::Bad => { cx.ck("P01", got.is_err(), || format!("{}; the header is invalid and must be refused", desc())); cx.note((b0, b1, 1)); }
                HdRes::Incomplete => { cx.ck("P01|P07", got.is_err(), || format!("{}; the header is incomplete", desc()));
                    // (a header already refusable from its first bytes may be refused early)
                    let early = b0 & 15 >= 8 && (b0 < 0x80 || b1 & 127 >= 126) || (cut >= 4 && b1 & 127 == 126 && u16::from_be_bytes([data[2], data[3]]) < 126) || (cut >= 10 && b1 & 127 == 127 && u64::from_be_bytes([data[2], data[3], data[4], data[5], data[6], data[7], data[8], data[9]]) < 65536);
                    if !early { cx.ck("P01|P07", matches!(got, Err(E::NoDataAvailable)), || format!("{}; a truncated header is the no-data error", desc())); } cx.note((b0 & 15, b1, cut, 2)); }
            }
        }
    }
    cx.tr(|| format!("first bytes {:02x} {:02x}, all truncations", b0, b1));
}

fn hdr_encode(cx: &mut Cx, case: u64) {
    let op = (case % 256) as u8;
    let op = if case % 3 == 2 { op } else { op % 16 };
    for rep in 0..(if op < 16 { 12 } else { 3 }) {
        let len = if rep < 2 { cx.r.range(124, 127) as u64 } else { a_len(&mut cx.r) };
        let h = Hd { fin: cx.r.flip(), rsv: cx.r.below(8) as u8, op, mask: if cx.r.flip() { Some(cx.r.key()) } else { None }, len };
        let mut w = ShortWriter::new(sizes(&mut cx.r));
        let got = write_header(&mut w, raw_of(&h));
        let legal = op < 16 && !(op >= 8 && len > 125);
        if legal {
            let e = encode_header(&h);
            cx.ck("P02", got.is_ok() && w.out == e, || format!("write_header({:?}) gave {:?} and wrote {}; RFC 6455 gives {}", h, got, hex(&w.out), hex(&e)));
            cx.ck("P18|P11|P03", got.is_ok() && w.out == e, || format!("write_header({:?}) gave {:?} and wrote {}; RFC 6455 gives {}", h, got, hex(&w.out), hex(&e)));
            if h.fin || h.op < 8 {
                let mut rd = ChunkReader::all(w.out.clone());
                let back = read_header(&mut rd);
                cx.ck("P02|P03", matches!(&back, Ok(b) if hd_of(b) == h) && rd.pos == w.out.len(), || format!("header {:?} was written as {} and reads back as {:?}", h, hex(&w.out), back.as_ref().map(hd_of).map_err(ename)));
            }
            cx.note((h.op, h.fin, h.rsv, h.mask.is_some(), h.len.leading_zeros()));
        } else {
            cx.ck("P02|P18", got.is_err() && w.out.is_empty() && w.i == 0, || format!("write_header({:?}) must be refused before any byte is written; gave {:?}, wrote {}", h, got, hex(&w.out)));
            cx.note((op, len > 125));
        }
    }
    cx.tr(|| format!("opcode {} with random flags, masks and lengths", op));
}

pub fn pay_len(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 12 } else { 10 }) { 0 => 0, 1 => 1, 2 => r.range(120, 130), 3 => r.range(2, 20), 4 | 5 => r.range(0, 125), 6 | 7 => r.range(0, 600), 8 => r.range(126, 4096), 9 => r.range(4090, 9000), 10 => r.range(65530, 65541), _ => r.range(30000, 140000) }
}
fn frame(r: &mut Rng, big: bool) -> Fr {
    let op = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    let n = if op >= 8 { r.range(0, 125) } else { pay_len(r, big) };
    Fr { fin: op >= 8 || r.flip(), rsv: if r.one_in(3) { r.below(8) as u8 } else { 0 }, op, mask: None, data: r.bytes(n) }
}
pub fn df(f: &Fr) -> DataFrame { DataFrame { finished: f.fin, reserved: [f.rsv & 4 != 0, f.rsv & 2 != 0, f.rsv & 1 != 0], opcode: Opcode::new(f.op).unwrap(), data: f.data.clone() } }
pub fn fr_of(d: &DataFrame) -> Fr { Fr { fin: d.finished, rsv: (d.reserved[0] as u8) << 2 | (d.reserved[1] as u8) << 1 | d.reserved[2] as u8, op: d.opcode as u8, mask: None, data: d.data.clone() } }
pub fn show(f: &Fr) -> String { format!("frame(fin={}, rsv={}, op={}, masked={}, {} payload bytes {})", f.fin, f.rsv, f.op, f.mask.is_some(), f.data.len(), hex(&f.data[..f.data.len().min(24)])) }

fn frame_rt(cx: &mut Cx, case: u64) {
    let mut f = frame(&mut cx.r, case % 4 == 0);
    if case % 64 == 0 { f.op = 2; let n = 65530 + (case / 64 % 12) as usize; f.data = cx.r.bytes(n); }
    let d = df(&f);
    for masked in [false, true] {
        let mut w = ShortWriter::new(sizes(&mut cx.r));
        let r = d.write_to(&mut w, masked);
        let out = w.out;
        let sz = d.frame_size(masked);
        cx.tr(|| format!("write_to({}) of {} -> {}", masked, show(&f), hex(&out[..out.len().min(40)])));
        if !cx.ck("P03|P05|P06", r.is_ok(), || format!("writing {} masked={} failed: {:?}", show(&f), masked, r)) { continue; }
        cx.ck("P05", sz == out.len() && d.size() == f.data.len(), || format!("{} masked={}: predicted {} bytes (payload {}), serialised {}", show(&f), masked, sz, d.size(), out.len()));
        cx.ck("P06", out.len() > 1 && (out[1] >= 128) == masked, || format!("{} written with mask={} has mask bit {}", show(&f), masked, out.get(1).map_or(0, |b| b >> 7)));
        let p = parse_frame(&out);
        let okp = matches!(&p, Some((g, n)) if *n == out.len() && g.fin == f.fin && g.rsv == f.rsv && g.op == f.op && g.data == f.data && g.mask.is_some() == masked);
        cx.ck("P03|P18", okp, || format!("{} masked={} was serialised as {} which reads as {:?}", show(&f), masked, hex(&out), p.as_ref().map(|x| show(&x.0))));
        if masked { cx.ck("P04", okp, || format!("payload of {} is not masked with the key in its header: {}", show(&f), hex(&out))); }
        // read back, with bytes following
        let tail = cx.r.bytes(5);
        let mut s = out.clone(); s.extend_from_slice(&tail);
        let lim = match cx.r.below(4) { 0 => f.data.len(), 1 => f.data.len() + cx.r.below(5), 2 => usize::MAX, _ => 1 << 27 };
        let mut rd = ChunkReader::new(s.clone(), sizes(&mut cx.r)); rd.intr = cx.r.one_in(3);
        let with = cx.r.flip();
        let got = if with { DataFrame::read_dataframe_with_limit(&mut rd, masked, lim) } else { DataFrame::read_dataframe(&mut rd, masked) };
        let mut fm = f.clone(); fm.mask = None;
        let p3 = if with { "P03|P07|P08" } else { "P03|P07" };
        cx.ck(p3, matches!(&got, Ok(g) if fr_of(g) == fm) && rd.pos == out.len(), || format!("{} masked={} (limit {}, read granularity {:?}) reads back as {:?}, consuming {} of {} frame bytes", show(&f), masked, if with { lim.to_string() } else { "none".into() }, rd.sizes, got.as_ref().map(|g| show(&fr_of(g))).map_err(ename), rd.pos, out.len()));
        // the other role refuses it
        let mut rd = ChunkReader::all(s.clone());
        let got = if with { DataFrame::read_dataframe_with_limit(&mut rd, !masked, lim) } else { DataFrame::read_dataframe(&mut rd, !masked) };
        cx.ck("P06", got.is_err(), || format!("{} masked={} was accepted by a reader expecting masked={}", show(&f), masked, !masked));
        // truncations and failures
        for _ in 0..6 {
            let cut = match cx.r.below(4) { 0 => out.len() - 1, 1 => cx.r.below(out.len().min(16)), _ => cx.r.below(out.len()) };
            let mut rd = ChunkReader::new(out[..cut].to_vec(), sizes(&mut cx.r));
            let inject = cx.r.one_in(3);
            let kind = *cx.r.pick(&[io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::InvalidData]);
            if inject { rd.fail_at = Some((cut, kind)); }
            let (got, pk) = peak(|| if with { DataFrame::read_dataframe_with_limit(&mut rd, masked, lim) } else { DataFrame::read_dataframe(&mut rd, masked) });
            let _ = pk;
            let ok = match &got { Err(E::NoDataAvailable) => !inject, Err(E::IoError(e)) => inject && e.kind() == kind, _ => false };
            cx.ck("P07", ok, || format!("{} masked={} cut after {} of {} bytes ({}) reads as {:?}", show(&f), masked, cut, out.len(), if inject { format!("then {:?}", kind) } else { "end of stream".into() }, got.as_ref().map(|g| show(&fr_of(g))).map_err(ename)));
        }
        cx.note((f.op, f.fin, f.rsv, f.data.len(), masked));
    }
}

fn masking(cx: &mut Cx, case: u64) {
    if case % 16 == 3 {   // long payloads: only position by position
        let n = match cx.r.below(3) { 0 => cx.r.range(65500, 65600), 1 => cx.r.range(1000, 30000), _ => cx.r.range(10000, 150000) };
        let d = cx.r.bytes(n); let key = cx.r.key(); let want = xor(key, &d);
        let at = |m: &[u8]| (0..n).find(|&i| m.get(i) != Some(&want[i]));
        let m = mask_data(key, &d);
        cx.ck("P04|P06", m == want, || format!("mask_data({:?}, {} bytes): first wrong position {:?}", key, n, at(&m)));
        let mut w = ShortWriter::new(vec![cx.r.range(1, 200000)]);
        let r = Masker::new(key, &mut w).write_all(&d);
        cx.ck("P04", r.is_ok() && w.out == want, || format!("Masker::write_all key {:?}, {} bytes: first wrong position {:?}", key, n, at(&w.out)));
        cx.note((n, 9usize, 0usize)); return;
    }
    let n = if case % 2 == 0 { cx.r.range(0, 40) } else { pay_len(&mut cx.r, false) };
    let d = cx.r.bytes(n); let key = cx.r.key();
    let want = xor(key, &d);
    let m = mask_data(key, &d);
    cx.ck("P04|P06", m == want, || format!("mask_data({:?}, {}) = {}, expected {}", key, hex(&d), hex(&m), hex(&want)));
    cx.ck("P04", mask_data(key, &m) == d, || format!("masking {} twice with {:?} does not give it back", hex(&d), key));
    // any sequence of pieces over a writer that is short and fails now and then
    let mut w = ShortWriter::new(sizes(&mut cx.r));
    if cx.r.flip() { for _ in 0..3 { let c = cx.r.range(1, 12); w.fail_calls.push(c); } w.kind = *cx.r.pick(&[io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted, io::ErrorKind::Other]); }
    let style = cx.r.below(3);
    let mut log = vec![];
    let mut acked = 0;
    {
        let mut mk = Masker::new(key, &mut w);
        while acked < d.len() && log.len() < 20000 {
            let p = match style { 0 => 1, 1 => d.len() - acked, _ => cx.r.range(1, 9).min(d.len() - acked) };
            if cx.r.one_in(9) { let _ = mk.write(&[]); let _ = mk.flush(); }
            match mk.write(&d[acked..acked + p]) { Ok(k) => { log.push((p, k as isize)); if k > p || k == 0 { break; } acked += k; } Err(_) => log.push((p, -1)) }
        }
    }
    cx.ck("P04", acked == d.len() && w.out == want, || format!("Masker key {:?} data {} written as (offered, accepted) {:?}: underneath arrived {}, expected {}", key, hex(&d), &log[..log.len().min(20)], hex(&w.out), hex(&want)));
    let mut w2 = ShortWriter::new(sizes(&mut cx.r));
    let r = Masker::new(key, &mut w2).write_all(&d);
    cx.ck("P04", r.is_ok() && w2.out == want, || format!("Masker::write_all key {:?} data {} over short writes: {} expected {}", key, hex(&d), hex(&w2.out), hex(&want)));
    // flush reaches the endpoint
    cx.tr(|| format!("key {:?}, {} bytes, pieces {:?}", key, d.len(), &log[..log.len().min(8)]));
    cx.note((n, style, log.len()));
}

/// refused lengths: no payload byte read, no allocation; accepted ones: never refused for size
fn limits(cx: &mut Cx, case: u64) {
    let limit: usize = match case % 6 { 0 => cx.r.range(0, 130), 1 => cx.r.range(65530, 65540), 2 => *cx.r.pick(&[0, 1, 125, 126, 127, 65535, 65536, 1 << 20]), 3 => 100 * 1024 * 1024, 4 => *cx.r.pick(&[(1usize << 32) - 1, 1 << 32, usize::MAX]), _ => cx.r.range(1, 100000) };
    let mut lens: Vec<u64> = vec![limit as u64, (limit as u64).saturating_add(1), (limit as u64).saturating_sub(1), a_len(&mut cx.r), u64::MAX, 1 << 63, 0];
    lens.push((limit as u64).saturating_add(cx.r.below(1000) as u64));
    for len in lens {
        let masked = cx.r.flip();
        let h = Hd { fin: cx.r.flip(), rsv: 0, op: *cx.r.pick(&[1u8, 2, 0]), mask: if masked { Some(cx.r.key()) } else { None }, len };
        let mut b = encode_header(&h);
        let hl = b.len();
        let avail = if len <= 200000 && len <= limit as u64 { len as usize + 3 } else { cx.r.range(0, 300) };
        b.extend(cx.r.bytes(avail));
        let mut rd = ChunkReader::all(b.clone());
        let (got, pk) = peak(|| DataFrame::read_dataframe_with_limit(&mut rd, masked, limit));
        let g = got.as_ref().map(|g| show(&fr_of(g))).map_err(ename);
        if len > limit as u64 {
            cx.ck("P08", got.is_err() && rd.pos <= hl && pk < 65536, || format!("declared {} over limit {}: {:?}, {} payload bytes read, {} bytes allocated", len, limit, g, rd.pos as isize - hl as isize, pk));
            cx.ck("P08", !matches!(got, Err(E::NoDataAvailable)), || format!("declared {} over limit {}: reported as missing data", len, limit));
            cx.ck("P16", pk < 1 << 20, || format!("declared {} over limit {}: {} bytes allocated", len, limit, pk));
        } else if avail as u64 >= len {
            cx.ck("P08", got.is_ok(), || format!("declared {} within limit {} was refused: {:?}", len, limit, g));
        } else {
            cx.ck("P08|P07", matches!(got, Err(E::NoDataAvailable)), || format!("declared {} within limit {} with {} bytes present: {:?}", len, limit, avail, g));
            cx.ck("P16", pk < 1 << 28, || format!("declared {}: {} bytes allocated", len, pk));
        }
        // unlimited reading must survive anything
        let mut rd = ChunkReader::all(b.clone());
        let (got, pk) = peak(|| DataFrame::read_dataframe(&mut rd, masked));
        if (avail as u64) < len { cx.ck("P07|P16", got.is_err(), || format!("declared {} with {} bytes present: {:?}", len, avail, got.as_ref().map(|g| show(&fr_of(g))))); }
        cx.ck("P16", pk < 1 << 28, || format!("unlimited read, declared {}: {} bytes allocated", len, pk));
        cx.note((limit, len, masked));
        cx.tr(|| format!("limit {} declared {}", limit, len));
    }
}

pub fn sections() -> Vec<Section> {
    vec![
        Section { name: "hdr_decode", props: &["P01", "P07", "P08", "P16"], quick: 65536, thorough: 262144, f: hdr_decode, rule: "every pair of first header bytes, boundary and random extended lengths, every truncation, several read granularities" },
        Section { name: "hdr_encode", props: &["P02", "P03", "P11", "P18"], quick: 60000, thorough: 1000000, f: hdr_encode, rule: "every opcode, random flags and masks, boundary and random lengths, short writes" },
        Section { name: "frame_rt", props: &["P03", "P04", "P05", "P06", "P07", "P08", "P16", "P18"], quick: 60000, thorough: 600000, f: frame_rt, rule: "random frames of every opcode and size class, both maskings, read back with trailing bytes, truncated or failing streams" },
        Section { name: "masking", props: &["P04", "P06"], quick: 20000, thorough: 300000, f: masking, rule: "random keys and payloads, random pieces over short and failing writers" },
        Section { name: "limits", props: &["P07", "P08", "P16"], quick: 40000, thorough: 400000, f: limits, rule: "limits and declared lengths at and around every boundary" },
    ]
}
