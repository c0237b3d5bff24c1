From e836210f3d59cd111ada3ad1a34fc5b1f7bb0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 01/11] fix: keep the masking position in step with short
 writes

Masker::write advanced the key position by the length of the whole buffer
even if the underlying writer accepted only a part of it, so that the
remainder was masked with the wrong key bytes.
---
 websocket-base/src/ws/util/mask.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..cc2687d 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,15 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
+		let mut pos = self.pos;
 		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+			buf.push(byte ^ self.key[pos]);
+			pos = (pos + 1) % self.key.len();
 		}
-		self.end.write(&buf)
+		// the endpoint may accept only a part of the data, the rest gets masked again later
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From fd0e9a782224651712b13c40efe58038eda2a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 02/11] fix: do not allocate the payload length a peer merely
 declares

A header declaring a payload of up to 2^64-1 bytes made read_dataframe panic
(capacity overflow) or abort (allocation failure) before any payload arrived.
---
 websocket-base/src/dataframe.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..0d6c1b9 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -6,6 +6,9 @@ use crate::ws::util::header::DataFrameHeader;
 use crate::ws::util::mask;
 use std::io::{self, Read, Write};
 
+// the length in a header is not trusted: payloads larger than this grow the buffer as they arrive
+const MAX_PREALLOCATION: u64 = 64 * 1024;
+
 /// Represents a WebSocket data frame.
 ///
 /// The data held in a DataFrame is never masked.
@@ -88,7 +91,7 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
@@ -107,7 +110,7 @@ impl DataFrame {
 		if header.len > limit as u64 {
 			return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
 		}
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(MAX_PREALLOCATION) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From 0158b6dac58050bc083216975a4f913b4898fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 03/11] fix: pass the configured message limit to connect_on's
 client

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..199807e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From da3fc471a37021b1aee7d23028c1a5e83019e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 04/11] fix: check the Connection header of the response, not
 of the request

---
 src/client/builder.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 199807e..62a2670 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,17 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let connection_upgrade = match response.headers.get::<Connection>() {
+			Some(connection) => connection.iter().any(|option| match *option {
+				ConnectionOption::ConnectionHeader(ref name) => {
+					UniCase(name as &str) == UniCase("upgrade")
+				}
+				_ => false,
+			}),
+			None => false,
+		};
+
+		if !connection_upgrade {
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From a3e70ee8244f9f2509ef136887e163a70b092e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 05/11] fix: split extension parameters into name and value

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From a64227bf497b590421565b2a208fa3abeacb04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 06/11] fix: report an oversized HTTP head instead of dropping
 it

---
 src/codec/http.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..bdc5fed 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -101,7 +101,6 @@ impl Decoder for HttpClientCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
@@ -195,7 +194,6 @@ impl Decoder for HttpServerCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
-- 
2.43.0


From debc81fe6d5a398b2ff7418c226611d13630f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 07/11] fix: keep counting the per-frame overhead across decode
 calls

---
 websocket-base/src/codec/ws.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/websocket-base/src/codec/ws.rs b/websocket-base/src/codec/ws.rs
index c28e8b9..9c85f80 100644
--- a/websocket-base/src/codec/ws.rs
+++ b/websocket-base/src/codec/ws.rs
@@ -276,7 +276,7 @@ where
 	type Error = WebSocketError;
 
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
+		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len() + PER_DATAFRAME_OVERHEAD).sum();
 		while let Some(frame) = self.dataframe_codec.decode(src)? {
 			let is_first = self.buffer.is_empty();
 			let finished = frame.finished;
-- 
2.43.0


From 2b5c4092b2518d2f8dc2cb0d70b3c8d26579e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:46 +0000
Subject: [PATCH 08/11] fix: keep a port of 80 or 443 in Host when it is not
 the scheme's default

hyper's Host header prints neither port 80 nor port 443, so a request for
ws://host:443 or wss://host:80 named the wrong authority.
---
 src/client/builder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 62a2670..201f97c 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -19,7 +19,7 @@ mod common_imports {
 	pub use crate::result::{WSUrlErrorKind, WebSocketError, WebSocketOtherError, WebSocketResult};
 	pub use crate::stream::{self, Stream};
 	pub use hyper::buffer::BufReader;
-	pub use hyper::header::{Connection, ConnectionOption, Host, Protocol, ProtocolName, Upgrade};
+	pub use hyper::header::{Connection, ConnectionOption, Protocol, ProtocolName, Upgrade};
 	pub use hyper::http::h1::parse_response;
 	pub use hyper::http::h1::Incoming;
 	pub use hyper::http::RawStatus;
@@ -844,10 +844,13 @@ impl<'u> ClientBuilder<'u> {
 	fn build_request(&mut self) -> String {
 		// enter host if available (unix sockets don't have hosts)
 		if let Some(host) = self.url.host_str() {
-			self.headers.set(Host {
-				hostname: host.to_string(),
-				port: self.url.port(),
-			});
+			// written out here because hyper's `Host` leaves out both 80 and 443,
+			// whichever of the two is the default port of the URL's scheme
+			let host = match self.url.port() {
+				Some(port) => format!("{}:{}", host, port),
+				None => host.to_string(),
+			};
+			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From 2ed2278f2db35b183e98d4509835b067fac8a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:02 +0000
Subject: [PATCH 09/11] fix: do not take blank lines in front of an HTTP head
 for its end

---
 src/codec/http.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index bdc5fed..71f9244 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -63,8 +63,10 @@ use tokio_codec::{Decoder, Encoder};
 pub struct HttpClientCodec;
 
 fn split_off_http(src: &mut BytesMut) -> Option<BytesMut> {
-	match src.windows(4).position(|i| i == b"\r\n\r\n") {
-		Some(p) => Some(src.split_to(p + 4)),
+	// blank lines in front of a head are no end of it (RFC 7230 section 3.5)
+	let start = src.iter().take_while(|b| **b == b'\r' || **b == b'\n').count();
+	match src.windows(4).skip(start).position(|i| i == b"\r\n\r\n") {
+		Some(p) => Some(src.split_to(start + p + 4)),
 		None => None,
 	}
 }
-- 
2.43.0


From ebea768e723f240a843e83259bb190d548de1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 10/11] fix: refuse an upgrade request whose version header is
 repeated or empty

---
 src/server/upgrade/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/server/upgrade/mod.rs b/src/server/upgrade/mod.rs
index c49c012..43066ee 100644
--- a/src/server/upgrade/mod.rs
+++ b/src/server/upgrade/mod.rs
@@ -263,9 +263,11 @@ pub fn validate(
 		return Err(HyperIntoWsError::UnsupportedHttpVersion);
 	}
 
-	if let Some(version) = headers.get::<WebSocketVersion>() {
-		if version != &WebSocketVersion::WebSocket13 {
-			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
+	// a version header that is repeated or empty has no value, but it is there
+	if headers.has::<WebSocketVersion>() {
+		match headers.get::<WebSocketVersion>() {
+			Some(version) if version == &WebSocketVersion::WebSocket13 => (),
+			_ => return Err(HyperIntoWsError::UnsupportedWebsocketVersion),
 		}
 	}
 
-- 
2.43.0


From b0e0b244261049721b178192c329615e27367ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:34 +0000
Subject: [PATCH 11/11] fix: a client request always names a version and a key

---
 src/client/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 201f97c..c509e38 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -874,6 +874,10 @@ impl<'u> ClientBuilder<'u> {
 			version: None,
 		}]));
 
+		// what was set may have been taken out again, or replaced, as a header
+		self.version_set = self.version_set && self.headers.has::<WebSocketVersion>();
+		self.key_set = self.key_set && self.headers.get::<WebSocketKey>().is_some();
+
 		if !self.version_set {
 			self.headers.set(WebSocketVersion::WebSocket13);
 		}
-- 
2.43.0

