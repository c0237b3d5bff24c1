//! Reference functions written from RFC 6455 / RFC 3174 / RFC 3629, not from the code under test.

#[derive(Clone, Debug, PartialEq)]
pub struct Hd { pub fin: bool, pub rsv: u8, pub op: u8, pub mask: Option<[u8; 4]>, pub len: u64 }

pub enum HdRes { Incomplete, Bad, Ok(Hd, usize) }

/// RFC 6455 5.2, on the bytes available so far.
pub fn parse_header(b: &[u8]) -> HdRes {
    if b.len() < 2 { return HdRes::Incomplete; }
    let (fin, rsv, op) = (b[0] >= 0x80, (b[0] >> 4) & 7, b[0] % 16);
    let (m, l7) = (b[1] >= 0x80, b[1] % 128);
    let ext = match l7 { 126 => 2, 127 => 8, _ => 0 };
    if b.len() < 2 + ext { return HdRes::Incomplete; }
    let mut len: u64 = 0;
    if ext == 0 { len = l7 as u64 } else { for i in 0..ext { len = len * 256 + b[2 + i] as u64; } }
    let bad = (ext == 2 && len < 126) || (ext == 8 && len < 65536) || (op >= 8 && (len > 125 || !fin));
    if bad { return HdRes::Bad; }
    if !m { return HdRes::Ok(Hd { fin, rsv, op, mask: None, len }, 2 + ext); }
    if b.len() < 6 + ext { return HdRes::Incomplete; }
    let k = [b[2 + ext], b[3 + ext], b[4 + ext], b[5 + ext]];
    HdRes::Ok(Hd { fin, rsv, op, mask: Some(k), len }, 6 + ext)
}

pub fn encode_header(h: &Hd) -> Vec<u8> {
    let mut v = vec![(if h.fin { 0x80 } else { 0 }) + h.rsv * 16 + h.op];
    let mb = if h.mask.is_some() { 128u8 } else { 0 };
    if h.len < 126 { v.push(mb + h.len as u8); }
    else if h.len < 65536 { v.push(mb + 126); v.push((h.len / 256) as u8); v.push((h.len % 256) as u8); }
    else { v.push(mb + 127); for i in (0..8).rev() { v.push((h.len >> (8 * i)) as u8); } }
    if let Some(k) = h.mask { v.extend_from_slice(&k); }
    v
}

pub fn xor(key: [u8; 4], d: &[u8]) -> Vec<u8> { (0..d.len()).map(|i| d[i] ^ key[i % 4]).collect() }

#[derive(Clone, Debug, PartialEq)]
pub struct Fr { pub fin: bool, pub rsv: u8, pub op: u8, pub mask: Option<[u8; 4]>, pub data: Vec<u8> }

impl Fr {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = encode_header(&Hd { fin: self.fin, rsv: self.rsv, op: self.op, mask: self.mask, len: self.data.len() as u64 });
        match self.mask { Some(k) => v.extend(xor(k, &self.data)), None => v.extend_from_slice(&self.data) }
        v
    }
}

/// One complete frame at the start of b and its size.
pub fn parse_frame(b: &[u8]) -> Option<(Fr, usize)> {
    match parse_header(b) {
        HdRes::Ok(h, n) if (b.len() - n) as u64 >= h.len => {
            let raw = &b[n..n + h.len as usize];
            let data = match h.mask { Some(k) => xor(k, raw), None => raw.to_vec() };
            Some((Fr { fin: h.fin, rsv: h.rsv, op: h.op, mask: h.mask, data }, n + h.len as usize))
        }
        _ => None,
    }
}

/// RFC 3629 well-formedness.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => { i += 1; continue; }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= b.len() { return false; }
        if b[i + 1] < lo || b[i + 1] > hi { return false; }
        for j in 2..=n { if b[i + j] < 0x80 || b[i + j] > 0xbf { return false; } }
        i += n + 1;
    }
    true
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Msg { Text(Vec<u8>), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<(u16, Vec<u8>)>) }

impl Msg {
    pub fn op(&self) -> u8 { match self { Msg::Text(_) => 1, Msg::Binary(_) => 2, Msg::Close(_) => 8, Msg::Ping(_) => 9, Msg::Pong(_) => 10 } }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            Msg::Text(d) | Msg::Binary(d) | Msg::Ping(d) | Msg::Pong(d) => d.clone(),
            Msg::Close(None) => vec![],
            Msg::Close(Some((c, r))) => { let mut v = vec![(c >> 8) as u8, *c as u8]; v.extend_from_slice(r); v }
        }
    }
}

/// Assembly of the frames of one message (5.4, 5.5.1, 5.6); Err names the rule broken.
pub fn assemble(fs: &[Fr]) -> Result<Msg, &'static str> {
    if fs.is_empty() { return Err("empty"); }
    if fs.iter().any(|f| f.rsv != 0) { return Err("reserved"); }
    if fs[1..].iter().any(|f| f.op != 0) { return Err("non-continuation"); }
    let d: Vec<u8> = fs.iter().flat_map(|f| f.data.iter().cloned()).collect();
    match fs[0].op {
        1 => if utf8_ok(&d) { Ok(Msg::Text(d)) } else { Err("utf8") },
        2 => Ok(Msg::Binary(d)),
        9 => Ok(Msg::Ping(d)),
        10 => Ok(Msg::Pong(d)),
        8 => match d.len() {
            0 => Ok(Msg::Close(None)),
            1 => Err("close1"),
            _ => if utf8_ok(&d[2..]) { Ok(Msg::Close(Some((d[0] as u16 * 256 + d[1] as u16, d[2..].to_vec())))) } else { Err("utf8") },
        },
        _ => Err("opcode"),
    }
}

pub fn sha1(msg: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = msg.to_vec();
    let bits = (msg.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&bits.to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 { w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]); }
        for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
        let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for i in 0..80 {
            let (f, k) = match i / 20 { 0 => ((b & cc) | (!b & d), 0x5A827999), 1 => (b ^ cc ^ d, 0x6ED9EBA1u32), 2 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC), _ => (b ^ cc ^ d, 0xCA62C1D6) };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d; d = cc; cc = b.rotate_left(30); b = a; a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) { *x = x.wrapping_add(y); }
    }
    let mut o = [0; 20];
    for i in 0..5 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); }
    o
}

pub fn b64(d: &[u8]) -> String {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { s.push(t[(n >> (18 - 6 * i)) as usize & 63] as char) } else { s.push('=') } }
    }
    s
}

pub fn accept_for(key_text: &str) -> String {
    let mut v = key_text.as_bytes().to_vec();
    v.extend_from_slice(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
    b64(&sha1(&v))
}
