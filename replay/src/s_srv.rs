//! The listening servers: what each accepted connection comes out as.
use crate::core::*;
use crate::s_hs::*;
use futures::{Future, Stream as _};
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::sync::mpsc::{channel, Receiver, Sender};
use websocket::native_tls::{Identity, TlsAcceptor, TlsConnector, TlsStream};
use websocket::server::upgrade::{HyperIntoWsError as H, Request};
use websocket::server::InvalidConnection;
use websocket::stream::sync::AsTcpStream;

#[derive(Clone, Debug, PartialEq)]
enum What { Valid, Bad(Vec<&'static str>), Garbage, Early, NoTls }
#[derive(Clone)]
struct Conn { what: What, start: String, head: usize, tail: Vec<u8>, data: Vec<u8>, stall: bool }
/// what a server said about one connection
#[derive(Debug)]
struct Got { ok: bool, named: Option<SocketAddr>, peer: Option<SocketAddr>, start: Option<String>, buffer: bool, left: Option<Vec<u8>>, err: String }

static CONNECTOR: std::sync::OnceLock<TlsConnector> = std::sync::OnceLock::new();
fn connector() -> TlsConnector { CONNECTOR.get_or_init(|| TlsConnector::builder().danger_accept_invalid_certs(true).danger_accept_invalid_hostnames(true).build().unwrap()).clone() }
fn acceptor() -> TlsAcceptor { TlsAcceptor::new(Identity::from_pkcs8(include_bytes!("test_cert.pem"), include_bytes!("test_key.pem")).unwrap()).unwrap() }
fn conn(r: &mut Rng, tls: bool) -> Conn {
    let what = match r.below(if tls { 8 } else { 7 }) { 0 | 1 | 2 => What::Valid, 3 | 4 => What::Bad(vec![]), 5 => What::Garbage, 6 => What::Early, _ => What::NoTls };
    let (h, viol) = loop { let x = request(r, !matches!(what, What::Bad(_))); if matches!(what, What::Bad(_)) != x.1.is_empty() { break (x.0, x.1); } };
    let n = if r.flip() { 0 } else { r.range(1, 60) };
    let tail = r.bytes(n);
    let mut data = h.bytes(); let head = data.len();
    let what = match what { What::Bad(_) => What::Bad(viol), w => w };
    match what {
        What::Garbage => data = { let mut v = b"\x01\x02 \x00 nonsense\r\n\r\n".to_vec(); v.extend_from_slice(&tail); v },
        What::Early => { let k = r.range(1, head - 5); data.truncate(k); }
        _ => data.extend_from_slice(&tail),
    }
    Conn { what, start: h.start, head, tail, data, stall: false }
}
/// a peer: connects, sends, closes its sending side, and stays until told to go
fn peer(addr: SocketAddr, tls: bool, c: Conn, gate: Receiver<()>, done: Receiver<()>) -> (SocketAddr, std::thread::JoinHandle<()>) {
    let s = std::net::TcpStream::connect(addr).unwrap();
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(std::time::Duration::from_secs(20))).ok();
    let me = s.local_addr().unwrap();
    let t = std::thread::spawn(move || {
        let cut = if c.stall { c.head - 1 } else { c.data.len() };
        if tls && c.what != What::NoTls {
            let Ok(mut s) = connector().connect("localhost", s) else { return };
            let _ = s.write_all(&c.data[..cut]);
            if c.stall { let _ = gate.recv(); let _ = s.write_all(&c.data[cut..]); }
            let _ = s.shutdown();
            let _ = done.recv();
        } else {
            let mut s = s;
            let _ = s.write_all(&c.data[..cut]);
            if c.stall { let _ = gate.recv(); let _ = s.write_all(&c.data[cut..]); }
            s.shutdown(std::net::Shutdown::Write).ok();
            let _ = done.recv();
        }
    });
    (me, t)
}
fn hname(e: &H) -> String { let s = format!("{:?}", e); s.split('(').next().unwrap().to_string() }
fn start_of(q: &Request) -> String { format!("{} {} {}", q.subject.0, q.subject.1, q.version) }

trait Peer { fn peer(&self) -> Option<SocketAddr>; }
impl<S: AsTcpStream> Peer for S { fn peer(&self) -> Option<SocketAddr> { self.as_tcp().peer_addr().ok() } }
fn drain<S: Read>(b: Option<(Vec<u8>, usize, usize)>, s: &mut S) -> Vec<u8> { let mut v = b.map(|(b, p, c)| b[p..c].to_vec()).unwrap_or_default(); let _ = s.read_to_end(&mut v); v }
fn of_sync<S: AsTcpStream + Read + websocket::stream::Stream>(r: websocket::server::sync::AcceptResult<S>) -> Got {
    match r {
        Ok(mut u) => { let b = u.buffer.take().map(|b| (b.buf, b.pos, b.cap)); Got { ok: true, named: None, peer: u.stream.peer(), start: Some(start_of(&u.request)), buffer: true, left: Some(drain(b, &mut u.stream)), err: String::new() } }
        Err(InvalidConnection { stream, parsed, buffer, error }) => {
            let has = buffer.is_some();
            let b = buffer.map(|b| (b.buf, b.pos, b.cap));
            let peer = stream.as_ref().and_then(|s| s.peer());
            let left = stream.map(|mut s| drain(b, &mut s));
            Got { ok: false, named: None, peer, start: parsed.as_ref().map(start_of), buffer: has, left, err: hname(&error) }
        }
    }
}
type AItem<S> = Result<(websocket::server::upgrade::r#async::Upgrade<S>, SocketAddr), InvalidConnection<S, bytes::BytesMut>>;
fn of_async<S: websocket::stream::r#async::Stream + 'static>(r: AItem<S>, pa: impl Fn(&S) -> Option<SocketAddr>) -> Got {
    let rest = |b: Option<bytes::BytesMut>, s: S| { let mut v = b.map(|b| b.to_vec()).unwrap_or_default(); if let Ok((_, x)) = tokio_io::io::read_to_end(s, vec![]).wait() { v.extend_from_slice(&x) } v };
    match r {
        Ok((u, a)) => { let p = pa(&u.stream); let st = start_of(&u.request); Got { ok: true, named: Some(a), peer: p, start: Some(st), buffer: true, left: Some(rest(Some(u.buffer), u.stream)), err: String::new() } }
        Err(InvalidConnection { stream, parsed, buffer, error }) => {
            let has = buffer.is_some();
            let peer = stream.as_ref().and_then(|s| pa(s));
            let left = stream.map(|s| rest(buffer, s));
            Got { ok: false, named: None, peer, start: parsed.as_ref().map(start_of), buffer: has, left, err: hname(&error) }
        }
    }
}
fn judge(cx: &mut Cx, kind: &str, c: &Conn, me: SocketAddr, g: &Got) {
    let base = g.peer == Some(me) && g.named.map_or(true, |a| a == me);
    let ok = match &c.what {
        What::Valid => g.ok && base && g.start.as_ref() == Some(&c.start) && g.left.as_ref() == Some(&c.tail),
        What::Bad(v) => !g.ok && base && g.start.as_ref() == Some(&c.start) && g.left.as_ref() == Some(&c.tail) && v.contains(&g.err.as_str()),
        What::Garbage => !g.ok && base && g.start.is_none() && (g.err == "Parsing" || g.err == "Io") && g.left.as_ref().map_or(false, |l| c.data.ends_with(l) && l.ends_with(&c.tail)),
        What::Early => !g.ok && base && g.start.is_none() && (g.err == "Parsing" || g.err == "Io") && g.left.as_ref() == Some(&c.data),
        What::NoTls => !g.ok && g.peer.is_none() && g.left.is_none() && g.start.is_none() && !g.buffer && g.err == "Io",
    };
    let p = match &c.what { What::Valid => "P34|P20|P24", What::Bad(_) => "P34|P20|P24", _ => "P34" };
    cx.ck(p, ok, || format!("{} server, a connection from {} sending {:?} ({:?}, {} bytes after the head): {:?}", kind, me, c.start, c.what, c.tail.len(), g));
}
fn run_sync<S: AsTcpStream + Read + websocket::stream::Stream>(cx: &mut Cx, kind: &str, addr: SocketAddr, tls: bool, conns: Vec<Conn>, mut next: impl FnMut(&mut Rng) -> Option<websocket::server::sync::AcceptResult<S>>) {
    for c in conns {
        let (_g, gr) = channel(); let (d, dr) = channel::<()>();
        let (me, t) = peer(addr, tls, c.clone(), gr, dr);
        match next(&mut cx.r) { None => { cx.ck("P34", false, || format!("{} server: the iterator ended", kind)); } Some(r) => { let g = of_sync(r); judge(cx, kind, &c, me, &g); } }
        drop(d); let _ = t.join();
    }
}
fn run_async<S: websocket::stream::r#async::Stream + 'static>(cx: &mut Cx, kind: &str, addr: SocketAddr, tls: bool, mut conns: Vec<Conn>, inc: websocket::server::r#async::Incoming<S>, pa: impl Fn(&S) -> Option<SocketAddr>) {
    // one of the peers may stop just before its head is complete: that must not hold up the others
    if conns.len() > 1 && matches!(conns[0].what, What::Valid | What::Bad(_)) { conns[0].stall = true; }
    let mut open: Vec<(Conn, SocketAddr, Sender<()>, Sender<()>, std::thread::JoinHandle<()>)> = vec![];
    for c in conns { let (g, gr) = channel(); let (d, dr) = channel::<()>(); let (me, t) = peer(addr, tls, c.clone(), gr, dr); open.push((c, me, g, d, t)); }
    let mut it = inc.wait();
    while !open.is_empty() {
        if open.len() == 1 && open[0].0.stall { let _ = open[0].2.send(()); }
        let Some(r) = it.next() else { cx.ck("P34", false, || format!("{} server: the stream of connections ended", kind)); break };
        let g = of_async(r, &pa);
        let i = open.iter().position(|o| match g.peer { Some(p) => o.1 == p, None => o.0.what == What::NoTls });
        let Some(i) = i else { cx.ck("P34", false, || format!("{} server gave a result for no open connection: {:?}; open: {:?}", kind, g, open.iter().map(|o| (o.1, &o.0.what)).collect::<Vec<_>>())); break };
        let (c, me, _g, d, t) = open.remove(i);
        judge(cx, kind, &c, me, &g);
        drop(d); drop(_g); let _ = t.join();
    }
}
fn servers(cx: &mut Cx, case: u64) {
    let kind = ["blocking", "blocking TLS", "asynchronous", "asynchronous TLS"][(case % 4) as usize];
    let tls = case % 2 == 1;
    let n = cx.r.range(1, 4);
    let conns: Vec<Conn> = (0..n).map(|_| conn(&mut cx.r, tls)).collect();
    cx.tr(|| format!("{}: {:?}", kind, conns.iter().map(|c| (&c.what, c.start.clone())).collect::<Vec<_>>()));
    cx.note((case % 4, conns.iter().map(|c| c.data.clone()).collect::<Vec<_>>()));
    let h = websocket::server::r#async::Handle::default();
    match case % 4 {
        0 => {
            let mut s = match websocket::sync::Server::bind("127.0.0.1:0") { Ok(s) => s, Err(_) => return };
            let a = s.local_addr().unwrap();
            // nobody there: an error that is just that, and the server goes on
            if cx.r.flip() {
                s.set_nonblocking(true).unwrap();
                let r = match cx.r.below(2) { 0 => s.accept(), _ => match s.next() { Some(r) => r, None => { cx.ck("P34", false, || "with nobody there the iterator ended".into()); return } } };
                let ok = match &r { Err(e) => e.stream.is_none() && e.parsed.is_none() && e.buffer.is_none() && matches!(&e.error, H::Io(x) if x.kind() == std::io::ErrorKind::WouldBlock), Ok(_) => false };
                cx.ck("P34", ok, || format!("with nobody there: {:?}", r.err().map(|e| format!("{:?}", e.error))));
                s.set_nonblocking(false).unwrap();
            }
            let mut other = s.try_clone().unwrap();
            run_sync(cx, kind, a, tls, conns, |r| match r.below(3) { 0 => Some(s.accept()), 1 => s.next(), _ => other.next() });
        }
        1 => {
            let mut s = match websocket::sync::Server::bind_secure("127.0.0.1:0", acceptor()) { Ok(s) => s, Err(_) => return };
            let a = s.local_addr().unwrap();
            run_sync::<TlsStream<std::net::TcpStream>>(cx, kind, a, tls, conns, |r| if r.flip() { Some(s.accept()) } else { s.next() });
        }
        2 => {
            let s = if cx.r.flip() { websocket::r#async::Server::bind("127.0.0.1:0", &h) } else { websocket::sync::Server::bind("127.0.0.1:0").and_then(|s| { s.set_nonblocking(true)?; s.into_async(&h) }) };
            let Ok(s) = s else { return };
            let a = s.local_addr().unwrap();
            run_async(cx, kind, a, tls, conns, s.incoming(), |s| s.peer_addr().ok());
        }
        _ => {
            let Ok(s) = websocket::r#async::Server::bind_secure("127.0.0.1:0", acceptor(), &h) else { return };
            let a = s.local_addr().unwrap();
            run_async(cx, kind, a, tls, conns, s.incoming(), |s| s.get_ref().get_ref().peer_addr().ok());
        }
    }
}
/// the library's client against the library's server, through every entry point
fn end_to_end(cx: &mut Cx, case: u64) {
    use websocket::OwnedMessage as M;
    use futures::Sink;
    let how = (case % 6) as usize;
    let name = ["connect", "connect_insecure", "connect_secure", "async_connect", "async_connect_insecure", "async_connect_secure"][how];
    let tls = match how % 3 { 0 => case / 6 % 2 == 1, 1 => false, _ => true };
    let scheme = if how % 3 == 0 { if tls { *cx.r.pick(&["wss", "https"]) } else { *cx.r.pick(&["ws", "http"]) } } else { *cx.r.pick(&["ws", "wss"]) };
    let (n1, n2) = (cx.r.range(0, 400), cx.r.range(0, 400));
    let (up, down) = (cx.r.bytes(n1), cx.r.bytes(n2));
    // the server: one connection, the greeting, one message from the client
    let (tx, rx) = channel::<SocketAddr>();
    let down2 = down.clone();
    type Saw = (Option<Vec<u8>>, Vec<String>, Option<M>);
    let srv = std::thread::spawn(move || -> Saw {
        fn head(q: &Request) -> Vec<u8> { format!("{}\r\n{}\r\n", start_of(q), q.headers).into_bytes() }
        fn serve<S: websocket::stream::Stream + Send + Read>(r: websocket::server::sync::AcceptResult<S>, down: Vec<u8>) -> Saw {
            let u = match r { Ok(u) => u, Err(e) => return (e.parsed.map(|q| head(&q)), vec![], None) };
            let st = head(&u.request); let pr = u.protocols().to_vec();
            let Ok(mut c) = u.accept() else { return (Some(st), pr, None) };
            let _ = c.send_message(&M::Binary(down));
            (Some(st), pr, c.recv_message().ok())
        }
        if tls { let Ok(mut s) = websocket::sync::Server::bind_secure("127.0.0.1:0", acceptor()) else { return (None, vec![], None) }; let _ = tx.send(s.local_addr().unwrap()); serve(s.accept(), down2) }
        else { let Ok(mut s) = websocket::sync::Server::bind("127.0.0.1:0") else { return (None, vec![], None) }; let _ = tx.send(s.local_addr().unwrap()); serve(s.accept(), down2) }
    });
    let Ok(a) = rx.recv() else { return };
    let (p, mut b, mut steps) = plan_at(&mut cx.r, scheme, "127.0.0.1", Some(a.port()));
    // sometimes a limit, well below or well above the greeting
    let limit = match cx.r.below(4) { 0 => Some(down.len() + 300), 1 if down.len() > 200 => Some(down.len() - 100), _ => None };
    let short = limit.map_or(false, |l| l < down.len());
    if let Some(l) = limit { let fm = match cx.r.below(3) { 1 => (l, 1 << 20), 2 if !short => (1 << 20, l), _ => (l, l) }; steps.push(format!("limits {:?}", fm)); b = if cx.r.flip() { b.max_dataframe_size(fm.0).max_message_size(fm.1) } else { b.max_message_size(fm.1).max_dataframe_size(fm.0) }; }
    cx.tr(|| format!("{} {:?}", name, steps));
    cx.note((how, scheme, up.clone(), down.clone(), limit));
    fn talk<S: websocket::stream::Stream + Read>(r: Result<websocket::sync::Client<S>, websocket::WebSocketError>, up: &[u8]) -> Result<M, String> { let mut c = r.map_err(|e| format!("connecting: {}", e))?; let g = c.recv_message().map_err(|e| e.to_string())?; c.send_message(&M::Binary(up.to_vec())).map_err(|e| e.to_string())?; Ok(g) }
    fn atalk<S: websocket::stream::r#async::Stream + Send + 'static>(f: websocket::client::r#async::ClientNew<S>, up: &[u8]) -> Result<M, String> { let (c, _) = f.wait().map_err(|e| format!("connecting: {}", e))?; let (g, c) = c.into_future().wait().map_err(|e| e.0.to_string())?; c.send(M::Binary(up.to_vec())).wait().map_err(|e| e.to_string())?; g.ok_or("ended".into()) }
    let k = Some(connector());
    let got = match how { 0 => talk(b.connect(k), &up), 1 => talk(b.connect_insecure(), &up), 2 => talk(b.connect_secure(k), &up), 3 => atalk(b.async_connect(k), &up), 4 => atalk(b.async_connect_insecure(), &up), _ => atalk(b.async_connect_secure(k), &up) };
    let (st, pr, heard) = srv.join().unwrap();
    let gs = || match &got { Ok(m) => if *m == M::Binary(down.clone()) { "the greeting".into() } else { "another message".to_string() }, Err(e) => e.clone() };
    let s = if tls { "TLS" } else { "plain" };
    let Some(st) = st else { cx.ck("P25|P23|P34", false, || format!("{} {:?} ({} server): the server saw no request, the client {}", name, steps, s, gs())); return };
    judge_request(cx, &p, &st, &steps);
    let refused = p.version.is_some();
    if refused { cx.ck("P20|P22", got.is_err() && heard.is_none(), || format!("{} {:?} ({} server) with version {:?}: the client got {}", name, steps, s, p.version, gs())); return; }
    cx.ck("P34", pr == p.protos, || format!("{} {:?}: the server saw protocols {:?}", name, steps, pr));
    if short { cx.ck("P28", matches!(&got, Err(e) if !e.starts_with("connecting")), || format!("{} {:?} ({} server): the {} byte greeting is above the limit, the client got {}", name, steps, s, down.len(), gs())); return; }
    cx.ck("P25|P22|P24|P34", got == Ok(M::Binary(down.clone())), || format!("{} {:?} ({} server): expected the {} byte greeting, got {}", name, steps, s, down.len(), gs()));
    cx.ck("P24|P34", heard == Some(M::Binary(up.clone())), || format!("{} {:?}: the server received {:?}, {} bytes were sent", name, steps, heard.as_ref().map(|m| format!("{:?}", m).len()), up.len()));
}
/// a connected pair of sockets over loopback: (ours, the peer's)
fn joined() -> (std::net::TcpStream, std::net::TcpStream) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let b = l.accept().unwrap().0;
    for s in [&a, &b] { s.set_read_timeout(Some(LONG)).unwrap(); s.set_write_timeout(Some(LONG)).unwrap(); }
    (a, b)
}
const LONG: std::time::Duration = std::time::Duration::from_secs(20);
const SHORT: std::time::Duration = std::time::Duration::from_millis(40);
/// what of a connected socket still works, seen from both ends: (bytes we send arrive, the peer sees our end, bytes the peer sends arrive, we see an end)
#[derive(Debug, PartialEq, Clone, Copy)]
enum Half { Nothing, Write, Read, Both }
fn left_open(mine: &std::net::TcpStream, peer: &mut std::net::TcpStream) -> Half {
    let mut b = [0u8; 8];
    let mut m = mine;
    // our sending side: writing to it fails exactly when it was shut
    let w = m.write(b"x").is_err();
    // our receiving side: reading gives the end at once exactly when it was shut, and otherwise waits
    mine.set_read_timeout(Some(SHORT)).unwrap();
    let r = matches!(m.read(&mut b), Ok(0));
    mine.set_read_timeout(Some(LONG)).unwrap();
    if w { assert!(matches!(peer.read(&mut b), Ok(0))); }
    match (w, r) { (false, false) => Half::Nothing, (true, false) => Half::Write, (false, true) => Half::Read, (true, true) => Half::Both }
}
/// does a read wait? Neither answer can come of a busy machine when it is the one expected.
fn waits(mine: &std::net::TcpStream, expected: bool) -> bool {
    let long = if expected { SHORT } else { LONG / 2 };
    mine.set_read_timeout(Some(long)).unwrap();
    let t = std::time::Instant::now();
    let mut b = [0u8; 1]; let mut m = mine;
    let _ = m.read(&mut b);
    t.elapsed() >= long / 2
}
fn controls(cx: &mut Cx, case: u64) {
    use websocket::client::sync::Client;
    use websocket::sync::Server;
    let keep: Box<dyn std::any::Any>;
    use websocket::stream::sync::NetworkStream;
    if case % 14 == 13 {
        let mut s = Server::bind("127.0.0.1:0").unwrap();
        let at = s.local_addr();
        cx.ck("P36", at.as_ref().map_or(false, |a| a.port() != 0 && std::net::TcpStream::connect(a).is_ok()), || format!("a server says it listens at {:?}, where nothing does", at));
        let mut eat = || s.accept().is_ok();
        cx.ck("P36|P34", !eat(), || "the server took a connection that closed at once for an upgrade".into());
        drop(eat);
        let r = s.set_nonblocking(true);
        cx.ck("P36", r.is_ok(), || format!("set_nonblocking of a server says {:?}", r));
        // with nobody connecting, a blocking accept would wait for ever: look at it from another thread
        let (tx, rx) = channel();
        let addr = s.local_addr().unwrap();
        let h = std::thread::spawn(move || { let r = s.accept().err().map(|e| e.error.to_string()); let _ = tx.send(r); s });
        let r = rx.recv_timeout(LONG);
        cx.ck("P36", r.is_ok(), || "a server set nonblocking waits in accept".into());
        if r.is_err() { drop(std::net::TcpStream::connect(addr)); }
        let s = h.join().unwrap();
        let r = s.set_nonblocking(false);
        cx.ck("P36", r.is_ok(), || format!("set_nonblocking of a server says {:?}", r));
        let (tx, rx) = channel();
        let h = std::thread::spawn(move || { let mut s = s; let r = s.accept().err().map(|e| e.error.to_string()); let _ = tx.send(r); });
        let r = rx.recv_timeout(SHORT);
        cx.ck("P36", r.is_err(), || "a server set blocking again does not wait in accept".into());
        drop(std::net::TcpStream::connect(addr));
        h.join().unwrap();
        // the asynchronous server
        let s = websocket::r#async::Server::bind("127.0.0.1:0", &Default::default()).unwrap();
        let at = s.local_addr();
        cx.ck("P36", at.as_ref().map_or(false, |a| a.port() != 0 && std::net::TcpStream::connect(a).is_ok()), || format!("an asynchronous server says it listens at {:?}, where nothing does", at));
        return;
    }
    let (mine, mut peer) = joined();
    let (me, them) = (mine.local_addr().unwrap(), mine.peer_addr().unwrap());
    let look = mine.try_clone().unwrap();
    fn plain(s: std::net::TcpStream) -> Client<std::net::TcpStream> { Client::unchecked(hyper::buffer::BufReader::new(s), websocket::header::Headers::new(), true, false) }
    let (what, want, r): (&str, Half, std::io::Result<()>);
    match case % 14 {
        0 => { let c = plain(mine); r = c.shutdown_sender(); what = "shutdown_sender"; want = Half::Write; keep = Box::new(c); }
        1 => { let c = plain(mine); r = c.shutdown_receiver(); what = "shutdown_receiver"; want = Half::Read; keep = Box::new(c); }
        2 => { let c = plain(mine); r = c.shutdown(); what = "shutdown"; want = Half::Both; keep = Box::new(c); }
        3 => { let b: Box<dyn NetworkStream + Send> = Box::new(mine); let c = Client::unchecked(hyper::buffer::BufReader::new(b), websocket::header::Headers::new(), true, false); r = c.shutdown(); what = "shutdown of a boxed stream"; want = Half::Both; keep = Box::new(c); }
        4 => { let (rd, wr) = plain(mine).split().unwrap(); r = rd.shutdown(); what = "Reader::shutdown"; want = Half::Read; keep = Box::new((rd, wr)); }
        5 => { let (rd, wr) = plain(mine).split().unwrap(); r = rd.shutdown_all(); what = "Reader::shutdown_all"; want = Half::Both; keep = Box::new((rd, wr)); }
        6 => { let (rd, wr) = plain(mine).split().unwrap(); r = wr.shutdown(); what = "Writer::shutdown"; want = Half::Write; keep = Box::new((rd, wr)); }
        7 => { let (rd, wr) = plain(mine).split().unwrap(); r = wr.shutdown_all(); what = "Writer::shutdown_all"; want = Half::Both; keep = Box::new((rd, wr)); }
        8 => {
            let c = plain(mine);
            let (p, l) = (c.peer_addr(), c.local_addr());
            cx.ck("P36", p.as_ref().ok() == Some(&them) && l.as_ref().ok() == Some(&me), || format!("peer_addr {:?} and local_addr {:?} of a connection from {} to {}", p, l, me, them));
            r = Ok(()); what = "peer_addr / local_addr"; want = Half::Nothing; keep = Box::new(c);
        }
        9 => {
            let mut c = plain(mine);
            for on in [true, false, true] {
                let x = c.set_nodelay(on);
                cx.ck("P36", x.is_ok() && look.nodelay().unwrap() == on, || format!("set_nodelay({}) says {:?} and leaves nodelay {:?}", on, x, look.nodelay()));
            }
            r = Ok(()); what = "set_nodelay"; want = Half::Nothing; keep = Box::new(c);
        }
        10 => {
            let c = plain(mine);
            for on in [true, false, true, false] {
                let x = c.set_nonblocking(on);
                cx.ck("P36", x.is_ok() && waits(&look, !on) != on, || format!("set_nonblocking({}) says {:?}, and reading {} wait", on, x, if on { "does" } else { "does not" }));
            }
            r = Ok(()); what = "set_nonblocking"; want = Half::Nothing; keep = Box::new(c);
        }
        11 => {
            // inside a TLS session
            let t = { let peer = peer.try_clone().unwrap(); std::thread::spawn(move || acceptor().accept(peer).ok()) };
            let s = connector().connect("localhost", mine).unwrap();
            let other = t.join().unwrap();
            // whatever the session's start left unread
            look.set_nonblocking(true).unwrap();
            let mut b = [0u8; 4096]; while matches!((&look).read(&mut b), Ok(n) if n > 0) {}
            look.set_nonblocking(false).unwrap();
            let mut c = Client::unchecked(hyper::buffer::BufReader::new(s), websocket::header::Headers::new(), true, false);
            let (p, l) = (c.peer_addr(), c.local_addr());
            cx.ck("P36", p.as_ref().ok() == Some(&them) && l.as_ref().ok() == Some(&me), || format!("peer_addr {:?} and local_addr {:?} of a TLS connection from {} to {}", p, l, me, them));
            let x = c.set_nodelay(true);
            cx.ck("P36", x.is_ok() && look.nodelay().unwrap(), || format!("set_nodelay inside TLS says {:?} and does nothing", x));
            let x = c.set_nonblocking(true);
            cx.ck("P36", x.is_ok() && !waits(&look, false), || format!("set_nonblocking inside TLS says {:?}, and reading waits", x));
            let x = c.set_nonblocking(false);
            cx.ck("P36", x.is_ok() && waits(&look, true), || format!("set_nonblocking(false) inside TLS says {:?}, and reading does not wait", x));
            r = c.shutdown(); keep = Box::new((c, other)); what = "shutdown inside TLS"; want = Half::Both;
        }
        _ => {
            let (h, _, _) = request(&mut cx.r, true);
            peer.write_all(&h.bytes()).unwrap();
            match websocket::server::upgrade::sync::IntoWs::into_ws(mine) {
                Ok(u) => {
                    let s = u.tcp_stream();
                    cx.ck("P36", s.local_addr().ok() == Some(me) && s.peer_addr().ok() == Some(them), || "tcp_stream of an upgrade is another socket".into());
                    keep = Box::new(u);
                }
                Err(e) => { cx.ck("P36|P20", false, || format!("valid request refused: {:?}", e.3)); keep = Box::new(e); }
            }
            r = Ok(()); what = "tcp_stream"; want = Half::Nothing;
        }
    }
    cx.ck("P36", r.is_ok(), || format!("{} says {:?}", what, r));
    let got = left_open(&look, &mut peer);
    cx.ck("P36", got == want, || format!("{} shut {:?} and not {:?}", what, got, want));
    // a control on a socket that is already shut reports the failure
    if want == Half::Both && case % 14 == 2 {
        let c = plain(look.try_clone().unwrap());
        drop(peer);
        let again = c.shutdown(); let sys = look.shutdown(std::net::Shutdown::Both);
        cx.ck("P36", again.is_ok() || sys.is_err(), || format!("shutdown says {:?} where the socket says {:?}", again, sys));
    }
    drop(keep);
}
pub fn sections() -> Vec<Section> {
    vec![Section { name: "servers", props: &["P34", "P20", "P24"], quick: 3000, thorough: 20000, f: servers, rule: "all four kinds of listening server over loopback, one to four connections each: valid, refused, garbage, closed early, plaintext to a TLS server, stalled" },
        Section { name: "end_to_end", props: &["P20", "P22", "P23", "P24", "P25", "P28", "P34"], quick: 900, thorough: 6000, f: end_to_end, rule: "the library's client, configured at random, against its server through every entry point, plain and TLS, one message each way" },
        Section { name: "controls", props: &["P36"], quick: 140, thorough: 1400, f: controls, rule: "each socket control of clients, boxed and TLS clients, readers, writers, upgrades and servers over loopback, its effect seen from both ends" }]
}
