// =====================================================================================================
// Trusted stubs: url 1.7, Cow. Assumptions about these dependencies only; nothing below comes from /repo.
// =====================================================================================================
impl VxToOwned for Url { type Owned = Url; }
pub open spec fn cow_url(c: Cow<'_, Url>) -> Url { match c { Cow::Borrowed(b) => *b, Cow::Owned(v) => v } }
impl<'a> core::ops::Deref for Cow<'a, Url> {
    type Target = Url;
    fn deref(&self) -> (r: &Url) ensures *r == cow_url(*self) { match self { Cow::Borrowed(b) => b, Cow::Owned(v) => v } }
}
impl<'a> Cow<'a, Url> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Url) ensures r == cow_url(self) { unimplemented!() }
}
#[verifier::external_body] pub struct ParseError { p: u8 }
pub enum Position { BeforeScheme, AfterScheme, BeforeUsername, AfterUsername, BeforePassword, AfterPassword, BeforeHost, AfterHost, BeforePort, AfterPort, BeforePath, AfterPath, BeforeQuery, AfterQuery, BeforeFragment, AfterFragment }
pub struct UrlHost { p: u8 }
pub struct HostAndPort<S> { pub host: S, pub port: u16 }
/// the port a scheme stands for, as the url crate knows it
pub open spec fn known_port(scheme: Seq<char>) -> Option<u16> {
    if scheme == "ws"@ || scheme == "http"@ { Some(80u16) } else if scheme == "wss"@ || scheme == "https"@ { Some(443u16) }
    else if scheme == "ftp"@ { Some(21u16) } else if scheme == "gopher"@ { Some(70u16) } else { None }
}
pub uninterp spec fn url_parses(s: Seq<char>) -> bool;
pub uninterp spec fn url_of(s: Seq<char>) -> Url;
impl Url {
    pub uninterp spec fn s_scheme(&self) -> Seq<char>;
    pub uninterp spec fn s_host(&self) -> Option<Seq<char>>;
    /// the explicit port, unless it is the one the scheme stands for
    pub uninterp spec fn s_port(&self) -> Option<u16>;
    pub uninterp spec fn s_user(&self) -> Seq<char>;
    pub uninterp spec fn s_password(&self) -> Option<Seq<char>>;
    pub uninterp spec fn s_piece(&self, a: Position, b: Position) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, ParseError>) ensures r is Ok <==> url_parses(s@), r matches Ok(u) ==> u == url_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &str) ensures r@ == self.s_scheme() { unimplemented!() }
    #[verifier::external_body]
    pub fn host_str(&self) -> (r: Option<&str>) ensures r is Some <==> self.s_host() is Some, r matches Some(h) ==> Some(h@) == self.s_host() { unimplemented!() }
    #[verifier::external_body]
    pub fn host(&self) -> (r: Option<UrlHost>) ensures r is Some <==> self.s_host() is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn port(&self) -> (r: Option<u16>) ensures r == self.s_port() { unimplemented!() }
    #[verifier::external_body]
    pub fn port_or_known_default(&self) -> (r: Option<u16>) ensures r == (if self.s_port() is Some { self.s_port() } else { known_port(self.s_scheme()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn username(&self) -> (r: &str) ensures r@ == self.s_user() { unimplemented!() }
    #[verifier::external_body]
    pub fn password(&self) -> (r: Option<&str>) ensures r is Some <==> self.s_password() is Some, r matches Some(h) ==> Some(h@) == self.s_password() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_piece(&self, a: Position, b: Position) -> (r: &str) ensures r@ == self.s_piece(a, b) { unimplemented!() }
    /// the host and the explicit port; else the port the scheme stands for; else what f says
    #[verifier::external_body]
    pub fn with_default_port<F: FnOnce(&Url) -> Result<u16, ()>>(&self, f: F) -> (r: IoResult<HostAndPort<&str>>)
        requires call_requires(f, (self,))
        ensures
            r matches Ok(hp) ==> Some(hp.host@) == self.s_host() && (
                if self.s_port() is Some { Some(hp.port) == self.s_port() }
                else if known_port(self.s_scheme()) is Some { Some(hp.port) == known_port(self.s_scheme()) }
                else { call_ensures(f, (self,), Ok(hp.port)) }),
            r is Err ==> self.s_host() is None || (self.s_port() is None && known_port(self.s_scheme()) is None && exists|e: Result<u16, ()>| e is Err && #[trigger] call_ensures(f, (self,), e)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub trait VxStrMore { fn vx_to_owned(&self) -> String; fn vx_is_empty(&self) -> bool; }
impl VxStrMore for str {
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self@ { vx_str_to_string(self) }
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { vx_str_empty(self) }
}
// ---- TCP and TLS (std::net, native_tls)
#[verifier::external_body] pub struct TcpStream { p: u8 }
#[verifier::external_body] pub struct TlsError { p: u8 }
#[verifier::reject_recursive_types(T)]
pub enum TlsHandshakeError<T> { Failure(VxPh<T>), WouldBlock(VxPh<T>) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxPh<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct TlsConnector { p: u8 }
#[verifier::external_body] pub struct TlsConnectorBuilder { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct TlsStream<T> { p: core::marker::PhantomData<T> }
impl TcpStream {
    /// the peer as it was named
    pub uninterp spec fn peer(&self) -> (Seq<char>, u16);
    #[verifier::external_body]
    pub fn connect(a: HostAndPort<&str>) -> (r: IoResult<TcpStream>) ensures r matches Ok(s) ==> s.peer() == (a.host@, a.port), r matches Err(e) ==> unreachable_with(a.host@, a.port, e) { unimplemented!() }
}
/// connecting to this host and port fails with this error
pub uninterp spec fn unreachable_with(host: Seq<char>, port: u16, e: IoError) -> bool;
/// a TLS handshake for this name, the setting up of a connector, fails with this error
pub uninterp spec fn no_session(domain: Seq<char>, e: TlsHandshakeError<TcpStream>) -> bool;
pub uninterp spec fn no_connector(e: TlsError) -> bool;
impl<T> TlsStream<T> {
    /// the transport under the TLS session, and the name the peer's certificate was checked for
    pub uninterp spec fn under(&self) -> T;
    pub uninterp spec fn domain(&self) -> Seq<char>;
}
impl TlsConnector {
    pub uninterp spec fn is_default(&self) -> bool;
    #[verifier::external_body]
    pub fn builder() -> (r: TlsConnectorBuilder) { unimplemented!() }
    #[verifier::external_body]
    pub fn connect(&self, domain: &str, s: TcpStream) -> (r: Result<TlsStream<TcpStream>, TlsHandshakeError<TcpStream>>) ensures r matches Ok(t) ==> t.under() == s && t.domain() == domain@, r matches Err(e) ==> no_session(domain@, e) { unimplemented!() }
}
impl TlsConnectorBuilder {
    #[verifier::external_body]
    pub fn build(&self) -> (r: Result<TlsConnector, TlsError>) ensures r matches Ok(c) ==> c.is_default(), r matches Err(e) ==> no_connector(e) { unimplemented!() }
}
/// `Box<dyn NetworkStream + Send>`
pub enum BoxNet { Tcp(TcpStream), Tls(TlsStream<TcpStream>) }
pub trait VxNet: Sized { spec fn boxed(self) -> BoxNet; fn vx_box(self) -> (r: BoxNet) ensures r == self.boxed(); }
impl VxNet for TcpStream { open spec fn boxed(self) -> BoxNet { BoxNet::Tcp(self) } fn vx_box(self) -> (r: BoxNet) { BoxNet::Tcp(self) } }
impl VxNet for TlsStream<TcpStream> { open spec fn boxed(self) -> BoxNet { BoxNet::Tls(self) } fn vx_box(self) -> (r: BoxNet) { BoxNet::Tls(self) } }
pub fn vx_box_net<T: VxNet>(t: T) -> (r: BoxNet) ensures r == t.boxed() { t.vx_box() }
#[macro_export]
macro_rules! net_stream {
    ($t:ty) => { verus! {
        impl Read for $t {
            uninterp spec fn rem(&self) -> Seq<u8>;
            uninterp spec fn origin(&self) -> Seq<u8>;
            uninterp spec fn reliable(&self) -> bool;
        }
        impl Write for $t {
            #[verifier::prophetic] uninterp spec fn wrote(pre: &Self, post: &Self, data: Seq<u8>) -> bool;
            uninterp spec fn can_take(&self, n: nat) -> bool;
            uninterp spec fn w_total(&self) -> bool;
            open spec fn w_wf(&self) -> bool { true }
            #[verifier::external_body] fn write(&mut self, data: &[u8]) -> (r: IoResult<usize>) { unimplemented!() }
            #[verifier::external_body] fn flush(&mut self) -> (r: IoResult<()>) { unimplemented!() }
            #[verifier::external_body] proof fn wrote_nil(a: &Self) { }
            #[verifier::external_body] proof fn wrote_trans(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>) { }
        }
        impl Stream for $t {
            #[verifier::external_body] proof fn wrote_keeps_rem(a: &Self, b: &Self, d: Seq<u8>) { }
            proof fn always_wf(a: &Self) { }
        }
    } }
}
net_stream!(TcpStream);
net_stream!(TlsStream<TcpStream>);
net_stream!(BoxNet);
/// std: ToString for every Display type
pub trait VxToStr { fn vx_to_string(&self) -> String; }
impl<T: VxDisplay + ?Sized> VxToStr for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() }
}
