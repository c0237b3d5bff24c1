// =====================================================================================================
// Trusted stubs: hyper 0.10 (headers, request/response heads, buffered reader), unicase, url.
// Assumptions about these dependencies only; nothing below comes from /repo.
// =====================================================================================================
pub open spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
/// ASCII lower case
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_c(c)) }
/// equal up to ASCII case
pub open spec fn same_token(a: Seq<char>, b: Seq<char>) -> bool { lower(a) =~= lower(b) }
pub enum HyperError { Method, Uri, Version, Header, TooLarge, Status, Io(IoError), Ssl, Utf8(Utf8Error) }
pub type HyperResult<T> = Result<T, HyperError>;
/// hyper::header::HeaderFormat: `s_text` is the value part of the printed header line
pub trait HeaderFormat {
    spec fn s_text(&self) -> Seq<char>;
    fn fmt_header(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures r is Ok ==> final(f)@ == old(f)@ + self.s_text();
}
/// one header in a `Headers`: a typed value or raw lines
#[verifier::external_body]
pub struct HCell { p: u8 }
pub mod vxh {
    use vstd::prelude::*;
    use super::{HCell, HyperResult};
    pub open spec fn lines(raw: Seq<Vec<u8>>) -> Seq<Seq<u8>> { raw.map_values(|v: Vec<u8>| v@) }
    /// hyper::header::Header: `s_parses(l)`: the header lines l have a value of this type, `s_parsed(l, v)`: v is one
    pub trait Header: Sized {
        spec fn s_name() -> Seq<char>;
        spec fn s_parses(l: Seq<Seq<u8>>) -> bool;
        spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool;
        fn header_name() -> (r: &'static str) ensures r@ == Self::s_name();
        fn parse_header(raw: &[Vec<u8>]) -> (r: HyperResult<Self>)
            ensures r is Ok <==> Self::s_parses(lines(raw@)), r matches Ok(v) ==> Self::s_parsed(lines(raw@), v);
    }
    
    pub uninterp spec fn typed_cell<H>(v: H) -> HCell;
    pub uninterp spec fn raw_cell(l: Seq<Seq<u8>>) -> HCell;
    pub uninterp spec fn cell_get<H>(c: HCell) -> Option<H>;
    /// hyper: a typed header is read back as it was set
    pub broadcast axiom fn axiom_typed_cell<H>(v: H) ensures cell_get::<H>(#[trigger] typed_cell::<H>(v)) == Some(v);
    /// hyper: a raw header is read with `parse_header`
    pub broadcast axiom fn axiom_raw_cell<H: Header>(l: Seq<Seq<u8>>)
        ensures (#[trigger] cell_get::<H>(raw_cell(l))) is Some <==> H::s_parses(l),
            cell_get::<H>(raw_cell(l)) matches Some(v) ==> H::s_parsed(l, v);
    /// String and slices of text are at most isize::MAX bytes: nothing else is assumed
    pub uninterp spec fn joined(ps: Seq<Seq<char>>) -> Seq<char>;
}
pub use vxh::*;
pub type HMap = Map<Seq<char>, HCell>;
/// the place of header H in a header map (names are compared without case)
pub open spec fn hkey<H: Header>() -> Seq<char> { lower(H::s_name()) }
pub open spec fn hval<H: Header>(m: HMap) -> Option<H> { if m.contains_key(hkey::<H>()) { cell_get::<H>(m[hkey::<H>()]) } else { None } }
/// hyper::header::Headers: at most one cell per name
#[verifier::external_body]
pub struct Headers { p: u8 }
impl View for Headers { type V = HMap; uninterp spec fn view(&self) -> HMap; }
#[verifier::external_body]
pub struct HeadersItems<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> View for HeadersItems<'a> { type V = HMap; uninterp spec fn view(&self) -> HMap; }
impl Headers {
    #[verifier::external_body]
    pub fn new() -> (r: Headers) ensures r@ == Map::<Seq<char>, HCell>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<H: Header + HeaderFormat>(&self) -> (r: Option<&H>)
        ensures r is Some <==> hval::<H>(self@) is Some, r matches Some(v) ==> hval::<H>(self@) == Some(*v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<H: Header + HeaderFormat>(&mut self) -> (r: Option<&mut H>)
        ensures
            r is Some <==> hval::<H>(old(self)@) is Some,
            r matches Some(v) ==> hval::<H>(old(self)@) == Some(*v) && final(self)@ == old(self)@.insert(hkey::<H>(), typed_cell::<H>(*final(v))),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has<H: Header + HeaderFormat>(&self) -> (r: bool) ensures r == self@.contains_key(hkey::<H>()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set<H: Header + HeaderFormat>(&mut self, v: H) ensures final(self)@ == old(self)@.insert(hkey::<H>(), typed_cell::<H>(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_raw(&mut self, name: &'static str, v: Vec<Vec<u8>>) ensures final(self)@ == old(self)@.insert(lower(name@), raw_cell(lines(v@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<H: Header + HeaderFormat>(&mut self) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(hkey::<H>()), r == old(self)@.contains_key(hkey::<H>())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_raw(&mut self, name: &str) ensures final(self)@ == old(self)@.remove(lower(name@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: HeadersItems<'_>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, i: HeadersItems<'_>) ensures final(self)@ == old(self)@.union_prefer_right(i@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, HCell>::empty() { unimplemented!() }
}
impl Clone for Headers {
    #[verifier::external_body]
    fn clone(&self) -> (r: Headers) ensures r@ == self@, r.shown() == self.shown() { unimplemented!() }
}
/// all header lines, each ended by CRLF
impl VxDisplay for Headers {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
// ---- unicase
pub trait VxText { spec fn txt(&self) -> Seq<char>; }
impl VxText for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a str { open spec fn txt(&self) -> Seq<char> { (*self)@ } }
impl<'a> VxText for &'a String { open spec fn txt(&self) -> Seq<char> { (*self)@ } }
pub struct UniCase<S>(pub S);
impl<S: VxText> vstd::std_specs::cmp::PartialEqSpecImpl for UniCase<S> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &UniCase<S>) -> bool { same_token(self.0.txt(), o.0.txt()) }
}
impl<S: VxText> PartialEq for UniCase<S> {
    #[verifier::external_body]
    fn eq(&self, o: &UniCase<S>) -> (r: bool) { unimplemented!() }
}
/// `x as &str` (deref coercion)
pub trait VxAsStr { spec fn as_txt(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.as_txt(); }
impl VxAsStr for String { open spec fn as_txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.as_str() } }
impl VxAsStr for str { open spec fn as_txt(&self) -> Seq<char> { self@ } fn vx_as_str(&self) -> (r: &str) { self } }
impl VxAsStr for UniCase<String> { open spec fn as_txt(&self) -> Seq<char> { self.0@ } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.0.vx_as_str() } }
// ---- hyper::header: Connection, Upgrade, Host, Location, Authorization
pub enum ConnectionOption { KeepAlive, Close, ConnectionHeader(UniCase<String>) }
pub struct Connection(pub Vec<ConnectionOption>);
impl core::ops::Deref for Connection { type Target = Vec<ConnectionOption>; fn deref(&self) -> (r: &Vec<ConnectionOption>) ensures *r == self.0 { &self.0 } }
pub enum ProtocolName { Http, Tls, WebSocket, H2c, Unregistered(String) }
pub struct Protocol { pub name: ProtocolName, pub version: Option<String> }
impl Protocol { pub fn new(name: ProtocolName, version: Option<String>) -> (r: Protocol) ensures r.name == name, r.version == version { Protocol { name, version } } }
pub struct Upgrade(pub Vec<Protocol>);
impl core::ops::Deref for Upgrade { type Target = Vec<Protocol>; fn deref(&self) -> (r: &Vec<Protocol>) ensures *r == self.0 { &self.0 } }
pub open spec fn opt_txt(a: Option<String>) -> Option<Seq<char>> { match a { Some(s) => Some(s@), None => None } }
pub open spec fn pname_eq(a: ProtocolName, b: ProtocolName) -> bool {
    match (a, b) {
        (ProtocolName::Http, ProtocolName::Http) => true, (ProtocolName::Tls, ProtocolName::Tls) => true,
        (ProtocolName::WebSocket, ProtocolName::WebSocket) => true, (ProtocolName::H2c, ProtocolName::H2c) => true,
        (ProtocolName::Unregistered(x), ProtocolName::Unregistered(y)) => x@ == y@,
        _ => false,
    }
}
pub open spec fn proto_eq(a: Protocol, b: Protocol) -> bool { pname_eq(a.name, b.name) && opt_txt(a.version) == opt_txt(b.version) }
pub open spec fn copt_eq(a: ConnectionOption, b: ConnectionOption) -> bool {
    match (a, b) {
        (ConnectionOption::KeepAlive, ConnectionOption::KeepAlive) => true, (ConnectionOption::Close, ConnectionOption::Close) => true,
        (ConnectionOption::ConnectionHeader(x), ConnectionOption::ConnectionHeader(y)) => same_token(x.0@, y.0@),
        _ => false,
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ProtocolName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ProtocolName) -> bool { pname_eq(*self, *o) }
}
impl PartialEq for ProtocolName { #[verifier::external_body] fn eq(&self, o: &ProtocolName) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Protocol {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Protocol) -> bool { proto_eq(*self, *o) }
}
impl PartialEq for Protocol { #[verifier::external_body] fn eq(&self, o: &Protocol) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ConnectionOption {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ConnectionOption) -> bool { copt_eq(*self, *o) }
}
impl PartialEq for ConnectionOption { #[verifier::external_body] fn eq(&self, o: &ConnectionOption) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Upgrade {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Upgrade) -> bool { self.0@.len() == o.0@.len() && forall|i: int| 0 <= i < self.0@.len() ==> proto_eq(#[trigger] self.0@[i], o.0@[i]) }
}
impl PartialEq for Upgrade { #[verifier::external_body] fn eq(&self, o: &Upgrade) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Connection {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Connection) -> bool { self.0@.len() == o.0@.len() && forall|i: int| 0 <= i < self.0@.len() ==> copt_eq(#[trigger] self.0@[i], o.0@[i]) }
}
impl PartialEq for Connection { #[verifier::external_body] fn eq(&self, o: &Connection) -> (r: bool) { unimplemented!() } }
macro_rules! hyper_header {
    ($t:ty, $n:expr) => { verus! {
        impl Header for $t {
            open spec fn s_name() -> Seq<char> { $n@ }
            uninterp spec fn s_parses(l: Seq<Seq<u8>>) -> bool;
            uninterp spec fn s_parsed(l: Seq<Seq<u8>>, v: Self) -> bool;
            #[verifier::external_body] fn header_name() -> (r: &'static str) { unimplemented!() }
            #[verifier::external_body] fn parse_header(raw: &[Vec<u8>]) -> (r: HyperResult<Self>) { unimplemented!() }
        }
        impl HeaderFormat for $t {
            uninterp spec fn s_text(&self) -> Seq<char>;
            #[verifier::external_body] fn fmt_header(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
        }
    } }
}
pub struct Host { pub hostname: String, pub port: Option<u16> }
pub struct Location(pub String);
pub struct Basic { pub username: String, pub password: Option<String> }
pub struct Authorization<S>(pub S);
hyper_header!(Connection, "Connection");
hyper_header!(Upgrade, "Upgrade");
hyper_header!(Host, "Host");
hyper_header!(Location, "Location");
hyper_header!(Authorization<Basic>, "Authorization");
impl VxDisplay for Location {
    open spec fn shown(&self) -> Seq<char> { self.0@ }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
// ---- hyper::method, version, status, uri
pub enum Method { Options, Get, Post, Put, Delete, Head, Trace, Connect, Patch, Extension(String) }
pub open spec fn method_eq(a: Method, b: Method) -> bool {
    match (a, b) {
        (Method::Options, Method::Options) => true, (Method::Get, Method::Get) => true, (Method::Post, Method::Post) => true,
        (Method::Put, Method::Put) => true, (Method::Delete, Method::Delete) => true, (Method::Head, Method::Head) => true,
        (Method::Trace, Method::Trace) => true, (Method::Connect, Method::Connect) => true, (Method::Patch, Method::Patch) => true,
        (Method::Extension(x), Method::Extension(y)) => x@ == y@, _ => false,
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Method) -> bool { method_eq(*self, *o) }
}
impl PartialEq for Method { #[verifier::external_body] fn eq(&self, o: &Method) -> (r: bool) { unimplemented!() } }
impl VxDisplay for Method {
    open spec fn shown(&self) -> Seq<char> {
        match self {
            Method::Options => "OPTIONS"@, Method::Get => "GET"@, Method::Post => "POST"@, Method::Put => "PUT"@, Method::Delete => "DELETE"@,
            Method::Head => "HEAD"@, Method::Trace => "TRACE"@, Method::Connect => "CONNECT"@, Method::Patch => "PATCH"@, Method::Extension(s) => s@,
        }
    }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum HttpVersion { Http09, Http10, Http11, Http20 }
impl HttpVersion { pub open spec fn rank(self) -> int { match self { HttpVersion::Http09 => 9, HttpVersion::Http10 => 10, HttpVersion::Http11 => 11, HttpVersion::Http20 => 20 } } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for HttpVersion {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &HttpVersion) -> Option<core::cmp::Ordering> {
        if self.rank() < o.rank() { Some(core::cmp::Ordering::Less) } else if self.rank() == o.rank() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for HttpVersion { #[verifier::external_body] fn partial_cmp(&self, o: &HttpVersion) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl VxDisplay for HttpVersion {
    open spec fn shown(&self) -> Seq<char> { match *self { HttpVersion::Http09 => "HTTP/0.9"@, HttpVersion::Http10 => "HTTP/1.0"@, HttpVersion::Http11 => "HTTP/1.1"@, HttpVersion::Http20 => "HTTP/2.0"@ } }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
/// the variants used by WebSocket handshakes; every other code is `Code(n)`
pub enum StatusCode { SwitchingProtocols, BadRequest, Forbidden, NotFound, InternalServerError, Ok, Code(u16) }
impl StatusCode {
    pub open spec fn num(self) -> u16 { match self { StatusCode::SwitchingProtocols => 101, StatusCode::BadRequest => 400, StatusCode::Forbidden => 403, StatusCode::NotFound => 404, StatusCode::InternalServerError => 500, StatusCode::Ok => 200, StatusCode::Code(n) => n } }
    #[verifier::external_body]
    pub fn from_u16(n: u16) -> (r: StatusCode) ensures r.num() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u16(&self) -> (r: u16) ensures r == self.num() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_redirection(&self) -> (r: bool) ensures r == (300 <= self.num() <= 399) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for StatusCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &StatusCode) -> bool { self.num() == o.num() }
}
impl PartialEq for StatusCode { #[verifier::external_body] fn eq(&self, o: &StatusCode) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn reason_of(n: u16) -> Seq<char>;
impl VxDisplay for StatusCode {
    open spec fn shown(&self) -> Seq<char> {
        if self.num() == 101 { "101 Switching Protocols"@ } else if self.num() == 400 { "400 Bad Request"@ } else { dec_text(self.num() as int) + " "@ + reason_of(self.num()) }
    }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
#[verifier::external_body]
pub struct Url { p: u8 }
pub enum RequestUri { AbsolutePath(String), AbsoluteUri(Url), Authority(String), Star }
pub uninterp spec fn url_text(u: Url) -> Seq<char>;
impl VxDisplay for RequestUri {
    open spec fn shown(&self) -> Seq<char> {
        match self { RequestUri::AbsolutePath(s) => s@, RequestUri::AbsoluteUri(u) => url_text(*u), RequestUri::Authority(s) => s@, RequestUri::Star => "*"@ }
    }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
pub struct RawStatus(pub u16, pub String);
pub struct Incoming<S> { pub version: HttpVersion, pub subject: S, pub headers: Headers }
// ---- hyper::header::parsing
pub open spec fn one_line(l: Seq<Seq<u8>>) -> bool { l.len() == 1 && l[0].len() > 0 && valid_utf8(l[0]) }
#[verifier::external_body]
pub fn from_one_raw_str<T: VxFromStr>(raw: &[Vec<u8>]) -> (r: HyperResult<T>)
    ensures
        r is Ok <==> one_line(lines(raw@)) && T::s_ok(decode_utf8(lines(raw@)[0])),
        r matches Ok(v) ==> T::s_val(decode_utf8(lines(raw@)[0]), v),
{ unimplemented!() }
impl VxFromStr for String {
    type Err = ();
    open spec fn s_ok(s: Seq<char>) -> bool { true }
    open spec fn s_val(s: Seq<char>, v: String) -> bool { v@ == s }
    fn from_str(s: &str) -> (r: Result<String, ()>) { Ok(vx_str_to_string(s)) }
}
pub mod hyper { pub use super::HyperResult as Result; pub use super::HyperError as Error; pub mod error { pub use super::super::HyperError as Error; } pub mod header { pub use super::super::{Location, Connection, Host, Headers}; } }
