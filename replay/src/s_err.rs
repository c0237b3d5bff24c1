//! What the error of a failed connection says.
use crate::core::*;
use crate::io::*;
use crate::s_hs::*;
use futures::Future;
use std::io::{self, ErrorKind, Read, Write};
use websocket::client::builder::ClientBuilder;
use websocket::result::{WSUrlErrorKind, WebSocketError as E, WebSocketOtherError as O};
use websocket::server::upgrade::HyperIntoWsError as H;

/// gives the response, fails where told to; takes `w` bytes of the request before it fails
struct Wire { r: ChunkReader, w: Option<(usize, ErrorKind)> }
impl Read for Wire { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.r.read(b) } }
impl Write for Wire {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match &mut self.w { None => Ok(b.len()), Some((0, k)) => Err(io::Error::new(*k, "injected")), Some((n, _)) => { let m = b.len().min(*n); *n -= m; Ok(m) } }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl tokio_io::AsyncRead for Wire {}
impl tokio_io::AsyncWrite for Wire { fn shutdown(&mut self) -> futures::Poll<(), io::Error> { Ok(futures::Async::Ready(())) } }

/// the error, by its shape and what it carries
fn say(e: &E) -> String {
    match e {
        E::IoError(x) => format!("I/O {:?}", x.kind()),
        E::NoDataAvailable => "I/O UnexpectedEof".into(),
        E::ProtocolError(_) => "protocol".into(),
        E::Other(b) => match b.downcast_ref::<O>() { Some(o) => say_o(o), None => format!("other {}", b) },
        o => format!("{:?}", o),
    }
}
fn say_o(o: &O) -> String {
    match o {
        O::ProtocolError(_) => "protocol".into(),
        O::RequestError(_) => "request".into(),
        O::ResponseError(_) => "response".into(),
        O::StatusCodeError(s) => format!("status {}", s.to_u16()),
        O::RedirectError(s, l) => format!("redirection {} to {}", s.to_u16(), l),
        O::HttpError(hyper::Error::Io(x)) => format!("http I/O {:?}", x.kind()),
        O::HttpError(_) => "http".into(),
        O::IoError(x) => format!("I/O {:?}", x.kind()),
        O::WebSocketUrlError(WSUrlErrorKind::NoHostName) => "no host".into(),
        O::TlsError(_) => "tls".into(),
        O::TlsHandshakeFailure => "tls failure".into(),
        o => format!("{:?}", o),
    }
}
fn on(w: Wire, asy: bool, url: &str) -> Result<(), String> {
    let mut b = ClientBuilder::new(url).unwrap().key([9; 16]);
    if asy { b.async_connect_on(w).wait().map(|_| ()).map_err(|e| say(&e)) } else { b.connect_on(w).map(|_| ()).map_err(|e| say(&e)) }
}
fn dial(url: &str, how: usize) -> Result<(), String> {
    let mut b = ClientBuilder::new(url).unwrap();
    match how { 0 => b.connect(None).map(|_| ()), 1 => b.connect_insecure().map(|_| ()), 2 => b.connect_secure(None).map(|_| ()), 3 => b.async_connect(None).wait().map(|_| ()), 4 => b.async_connect_insecure().wait().map(|_| ()), _ => b.async_connect_secure(None).wait().map(|_| ()) }.map_err(|e| say(&e))
}
const HOWS: [&str; 6] = ["connect", "connect_insecure", "connect_secure", "async_connect", "async_connect_insecure", "async_connect_secure"];
fn causes(cx: &mut Cx, case: u64) {
    let asy = case % 2 == 1;
    let who = if asy { "an asynchronous connection" } else { "a connection" };
    let kind = *cx.r.pick(&[ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::Other]);
    let sizes = crate::s_frame::sizes(&mut cx.r);
    let key = crate::model::b64(&[9; 16]);
    match case / 2 % 8 {
        0 | 1 | 2 => {
            // a complete response that is refused
            let re = response(&mut cx.r, &key, false);
            if re.bad.is_empty() { return; }
            let text = String::from_utf8_lossy(&re.head.bytes()).into_owned();
            let status: u16 = re.head.start[9..12].parse().unwrap();
            let loc = re.head.fields.iter().find(|f| f.0.eq_ignore_ascii_case("location")).map(|f| f.1.clone());
            let want = match loc { _ if status == 101 => "response".to_string(), Some(l) if status / 100 == 3 => format!("redirection {} to {}", status, l), _ => format!("status {}", status) };
            let got = on(Wire { r: ChunkReader::new(re.head.bytes(), sizes), w: None }, asy, "ws://example.com/");
            cx.note((status, want.clone(), asy));
            cx.ck("P37", got.as_ref().err() == Some(&want), || format!("{} answered {:?} ends with {:?}, not with the error: {}", who, text, got, want));
        }
        3 => {
            // the response ends too soon
            let d = response(&mut cx.r, &key, true).head.bytes();
            let k = cx.r.below(d.len());
            let got = on(Wire { r: ChunkReader::new(d[..k].to_vec(), sizes), w: None }, asy, "ws://example.com/");
            let ok = match &got { Ok(()) => false, Err(e) => if asy { e == "protocol" || e.starts_with("I/O") || e.starts_with("http") } else { e.starts_with("http") } };
            cx.ck("P37", ok, || format!("{} answered with the first {} bytes of a response ends with {:?}", who, k, got));
        }
        4 => {
            // no HTTP at all
            let mut d = cx.r.pick(&["\u{1}\u{2} \0 nonsense", "HTTP/1.1 abc Switching", "HTTP/1.1 101 Switching Protocols\r\nBad Header\0: x", "HTP"]).as_bytes().to_vec();
            d.extend_from_slice(b"\r\n\r\n");
            let got = on(Wire { r: ChunkReader::new(d.clone(), sizes), w: None }, asy, "ws://example.com/");
            cx.ck("P37", got == Err("http".into()), || format!("{} answered {:?} ends with {:?}, not with the error of the HTTP parser", who, String::from_utf8_lossy(&d), got));
        }
        5 => {
            // reading fails on the way
            let d = response(&mut cx.r, &key, true).head.bytes();
            let k = cx.r.below(d.len());
            let mut r = ChunkReader::new(d, sizes); r.fail_at = Some((k, kind));
            let got = on(Wire { r, w: None }, asy, "ws://example.com/");
            let want = format!("{}I/O {:?}", if asy { "" } else { "http " }, kind);
            cx.ck("P37", got == Err(want.clone()), || format!("{} whose stream fails with {:?} after {} bytes ends with {:?}", who, kind, k, got));
        }
        6 => {
            // writing the request fails
            let d = response(&mut cx.r, &key, true).head.bytes();
            let k = cx.r.below(60);
            let got = on(Wire { r: ChunkReader::new(d, sizes), w: Some((k, kind)) }, asy, "ws://example.com/");
            cx.ck("P37", got == Err(format!("I/O {:?}", kind)), || format!("{} whose stream refuses the request with {:?} after {} bytes ends with {:?}", who, kind, k, got));
        }
        _ => {
            // what an upgrade failed for, as an error of this library
            let (h, want) = match cx.r.below(10) {
                0 => (H::Io(kind.into()), format!("I/O {:?}", kind)), 1 => (H::Parsing(hyper::Error::Header), "http".to_string()),
                2 => (H::MethodNotGet, "protocol".into()), 3 => (H::UnsupportedHttpVersion, "protocol".into()), 4 => (H::UnsupportedWebsocketVersion, "protocol".into()),
                5 => (H::NoSecWsKeyHeader, "protocol".into()), 6 => (H::NoWsUpgradeHeader, "protocol".into()), 7 => (H::NoUpgradeHeader, "protocol".into()),
                8 => (H::NoWsConnectionHeader, "protocol".into()), _ => (H::NoConnectionHeader, "protocol".into()) };
            let name = format!("{:?}", h);
            let got = say_o(&O::from(h));
            cx.ck("P37", got == want, || format!("{} is reported as {}", name, got));
        }
    }
}
fn dialling(cx: &mut Cx, case: u64) {
    let how = (case % 6) as usize;
    match case / 6 % 3 {
        0 => {
            // nothing to connect to
            let url = *cx.r.pick(&["foo:/bar", "unix:/tmp/socket", "data:x"]);
            let got = dial(url, how);
            cx.ck("P37", got == Err("no host".into()), || format!("{} on {} ends with {:?}", HOWS[how], url, got));
        }
        1 => {
            // nobody listens there
            let ip = format!("127.{}.{}.{}", 20 + std::process::id() % 200, 1 + (case / 200) % 200, 201 + case % 50);
            let Ok(l) = std::net::TcpListener::bind((ip.as_str(), 0)) else { return };
            let port = l.local_addr().unwrap().port(); drop(l);
            let url = format!("{}://{}:{}/", cx.r.pick(&["ws", "wss", "http", "https"]), ip, port);
            let got = dial(&url, how);
            cx.ck("P37", got == Err("I/O ConnectionRefused".into()), || format!("{} on {}, where nobody listens, ends with {:?}", HOWS[how], url, got));
        }
        _ => {
            // the peer does not speak TLS
            let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
            let url = format!("wss://localhost:{}/", l.local_addr().unwrap().port()).replace("localhost", "127.0.0.1");
            let t = std::thread::spawn(move || { if let Ok((mut s, _)) = l.accept() { let mut b = [0; 4096]; let _ = s.read(&mut b); let _ = s.write_all(b"HTTP/1.1 400 Bad Request\r\n\r\n"); let _ = s.shutdown(std::net::Shutdown::Write); let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(5))); while matches!(s.read(&mut b), Ok(n) if n > 0) {} } });
            let tls = how % 3 != 1;
            let got = dial(&url, how);
            let want = if !tls { "status 400" } else if how < 3 { "tls failure" } else { "tls" };
            cx.ck("P37", got == Err(want.into()), || format!("{} on a peer that speaks no TLS ends with {:?}, not with the error: {}", HOWS[how], got, want));
            let _ = t.join();
        }
    }
}
pub fn sections() -> Vec<Section> {
    vec![
        Section { name: "causes", props: &["P37"], quick: 16000, thorough: 300000, f: causes, rule: "connections over a stream that fail: every refused response, truncations, non-HTTP, reads and writes failing anywhere, five kinds of I/O error" },
        Section { name: "dialling", props: &["P37"], quick: 54, thorough: 540, f: dialling, rule: "all six entry points: URL without host, nobody listening, a peer that does not speak TLS" },
    ]
}
