From 273cbe2b4efa48bab2b5268fc70c48412dd81c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 01/19] fix: scram client must not panic on a server-final with
 a multi-byte first character

---
 akasa-core/src/protocols/scram/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 2cd6cad..8efdcda 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -180,11 +180,11 @@ fn parse_server_final(data: &str) -> Result<Vec<u8>, Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)));
     }
-    match &data[..2] {
-        "v=" => STANDARD
+    match &data.as_bytes()[..2] {
+        b"v=" => STANDARD
             .decode(&data.as_bytes()[2..])
             .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
-        "e=" => Err(Error::Authentication(data[2..].to_string())),
+        b"e=" => Err(Error::Authentication(data[2..].to_string())),
         _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
     }
 }
-- 
2.43.0


From ecef99c4cc7f84f9026cd235220ab8fc671c737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 02/19] fix: scram server must verify the proof over the
 client-first message as received

---
 akasa-core/src/protocols/scram/server.rs | 43 ++++++++++++++----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..101452d 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -25,6 +25,8 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
@@ -53,7 +55,8 @@ impl ScramServer {
             _ => return Err(Error::Protocol(Kind::InvalidField(Field::ChannelBinding))),
         }
 
-        let authzid = match parts.next() {
+        let authzid_part = parts.next();
+        let authzid = match authzid_part {
             Some("") => None,
             Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
@@ -63,10 +66,16 @@ impl ScramServer {
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
+        // The proof covers the message as the client sent it, so keep its exact text.
+        let gs2header = format!("{},{},", token, authzid_part.unwrap_or_default());
+        let client_first_bare = data[gs2header.len()..].to_owned();
+
         *self = ScramServer::WaitingForPassword {
             authcid,
             authzid,
             client_nonce,
+            gs2header,
+            client_first_bare,
         };
         Ok(())
     }
@@ -94,17 +103,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,17 +128,12 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
             hashed_password,
             nonce,
-            gs2header,
+            gs2header: gs2header.into(),
             client_first_bare,
             server_first: server_first.clone(),
             authcid,
-- 
2.43.0


From 1f78cb8679efdebd60043053cd3da7a3fc234142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 03/19] fix: scram user names with ',' or '=' must be escaped
 by the client and unescaped by the server

---
 akasa-core/src/protocols/scram/client.rs | 11 +++--------
 akasa-core/src/protocols/scram/mod.rs    | 10 ++++++++++
 akasa-core/src/protocols/scram/server.rs |  6 +++---
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 8efdcda..09a8161 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -9,7 +9,7 @@ use ring::digest::SHA256_OUTPUT_LEN;
 use ring::hmac::Tag;
 
 use super::error::{Error, Field, Kind};
-use super::{NONCE_LENGTH, find_proofs, hash_password};
+use super::{NONCE_LENGTH, escape_name, find_proofs, hash_password};
 
 pub enum ScramClient<'a> {
     New {
@@ -42,7 +42,7 @@ impl<'a> ScramClient<'a> {
         rng: &mut R,
     ) -> Self {
         let gs2header: Cow<'static, str> = match authzid {
-            Some(az) => format!("n,a={},", az).into(),
+            Some(az) => format!("n,a={},", escape_name(az)).into(),
             None => "n,,".into(),
         };
         let nonce: String = Uniform::try_from(33..125)
@@ -74,12 +74,7 @@ impl<'a> ScramClient<'a> {
             }
         };
 
-        let escaped: Cow<'a, str> = if authcid.chars().any(|c| c == ',' || c == '=') {
-            authcid.into()
-        } else {
-            authcid.replace(',', "=2C").replace('=', "=3D").into()
-        };
-        let client_first_bare = format!("n={},r={}", escaped, nonce);
+        let client_first_bare = format!("n={},r={}", escape_name(authcid), nonce);
         let client_first = format!("{}{}", gs2header, client_first_bare);
 
         *self = ScramClient::WaitingForServerFirst {
diff --git a/akasa-core/src/protocols/scram/mod.rs b/akasa-core/src/protocols/scram/mod.rs
index 421f0c1..589007e 100644
--- a/akasa-core/src/protocols/scram/mod.rs
+++ b/akasa-core/src/protocols/scram/mod.rs
@@ -47,6 +47,16 @@ pub fn hash_password(
     salted_password
 }
 
+/// Encodes a user name for the `n=` and `a=` attributes (RFC 5802 section 5.1).
+fn escape_name(name: &str) -> String {
+    name.replace('=', "=3D").replace(',', "=2C")
+}
+
+/// Decodes a user name received in an `n=` or `a=` attribute.
+fn unescape_name(name: &str) -> String {
+    name.replace("=2C", ",").replace("=3D", "=")
+}
+
 pub(crate) fn find_proofs(
     gs2header: &str,
     client_first_bare: &str,
diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 101452d..bdb1ba7 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -8,7 +8,7 @@ use ring::digest::SHA256_OUTPUT_LEN;
 use ring::hmac::Tag;
 
 use super::error::{Error, Field, Kind};
-use super::{NONCE_LENGTH, find_proofs};
+use super::{NONCE_LENGTH, find_proofs, unescape_name};
 
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
 pub enum AuthenticationStatus {
@@ -58,12 +58,12 @@ impl ScramServer {
         let authzid_part = parts.next();
         let authzid = match authzid_part {
             Some("") => None,
-            Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
+            Some(p) if p.as_bytes().starts_with(b"a=") => Some(unescape_name(&p[2..])),
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
 
-        let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
+        let authcid = unescape_name(&next_field(&mut parts, Field::Authcid, b"n=")?);
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
         // The proof covers the message as the client sent it, so keep its exact text.
-- 
2.43.0


From c0af85c0daa1ed3263ac114301ecde14ed5ed569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 04/19] fix: a PROXY v2 header with an unspecified family or
 protocol must be rejected, not panic

---
 akasa-core/src/server/proxy.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..aa6b91b 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is not supported
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +150,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is not supported
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From 60412752ae8b0a235694e20d538bcbb2eb36a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 05/19] fix: forward a QoS 2 message exactly when its packet
 identifier is new

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 9 +++++++--
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..b460892 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -47,9 +47,13 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
-        packet.hash(&mut hasher);
+        // the dup flag is the only difference of a re-delivered packet
+        let mut packet_content = packet.clone();
+        packet_content.dup = false;
+        packet_content.hash(&mut hasher);
         let current_hash = hasher.finish();
 
         if let Some(previous_hash) = session.qos2_pids.get(&pid) {
@@ -65,13 +69,14 @@ topic name : {}
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            redelivered = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..c16cf67 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,9 +118,13 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
-        packet.hash(&mut hasher);
+        // the dup flag is the only difference of a re-delivered packet
+        let mut packet_content = packet.clone();
+        packet_content.dup = false;
+        packet_content.hash(&mut hasher);
         let current_hash = hasher.finish();
 
         if let Some(previous_hash) = session.qos2_pids.get(&pid) {
@@ -147,6 +151,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            redelivered = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,7 +165,7 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         let properties = &mut packet.properties;
         properties.topic_alias = None;
-- 
2.43.0


From 26d3ee594c7b7959c9435a36c80aa31ff38e5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 06/19] fix: answer a repeated v3 PUBREL with PUBCOMP instead
 of closing the connection

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..519dd1b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -312,7 +312,7 @@ impl OnlineSession for Session {
             }
             Packet::Puback(pid) => handle_puback(self, pid),
             Packet::Pubrec(pid) => write_packets.push_back(handle_pubrec(self, pid).into()),
-            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid)?.into()),
+            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid).into()),
             Packet::Pubcomp(pid) => handle_pubcomp(self, pid),
             Packet::Subscribe(pkt) => {
                 if global.config.hook.enable_subscribe {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index b460892..644ba4d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -120,17 +120,17 @@ pub(crate) fn handle_pubrec(session: &mut Session, pid: Pid) -> Packet {
 }
 
 #[inline]
-pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> io::Result<Packet> {
+pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> Packet {
     log::debug!(
         "{} received a pubrel  packet: id={}",
         session.client_id,
         pid.value()
     );
     if session.qos2_pids.remove(&pid).is_none() {
+        // [MQTT-4.3.3-2] a PUBREL re-sent since its PUBCOMP got lost is still acknowledged
         log::warn!("packet identifier not found: {}", pid.value());
-        return Err(io::ErrorKind::InvalidData.into());
     }
-    Ok(Packet::Pubcomp(pid))
+    Packet::Pubcomp(pid)
 }
 
 #[inline]
-- 
2.43.0


From af1cab3797f383521e0f12e00d7533462a1ad878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 07/19] fix: do not panic when the last subscriber of a filter
 leaves while a message is being routed

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 644ba4d..21def9a 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -200,7 +200,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // None if the last subscriber left since the content was matched
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index c16cf67..a1b719a 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -355,7 +355,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // None if the last subscriber left since the content was matched
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From 2a95e142c458a3a4d961c5a6f83dfb6ab7029482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 08/19] fix: deliver a message to a v3 client as long as one of
 the matched filters is still subscribed

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 519dd1b..d936857 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -627,6 +627,10 @@ fn handle_normal(
                 session.client_id,
                 sender
             );
+            // the client may have unsubscribed from some of the matched filters
+            let subscribe_filter = subscribe_filters
+                .iter()
+                .find(|filter| session.subscribes.contains_key(*filter))?;
             recv_publish(
                 session,
                 RecvPublish {
@@ -634,7 +638,7 @@ fn handle_normal(
                     qos,
                     retain,
                     payload,
-                    subscribe_filter: subscribe_filters.first()?,
+                    subscribe_filter,
                     subscribe_qos,
                 },
             )
-- 
2.43.0


From 5d92b719c6dc10a144ea5dc9bfbcacaa96b685da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 09/19] fix: leaving a shared group must not leave a stale
 index entry behind

---
 akasa-core/src/protocols/mqtt/route.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..754d16b 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -272,7 +272,10 @@ impl SharedClients {
             } else {
                 let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                // the last item is gone when it was itself the one to remove
+                if last_client_id != *item_key {
+                    self.index.insert(last_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From ff0ed7a02dfcec0b0c3857e7d1bde9ea771aeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 10/19] fix: keep the identities of an enhanced authentication

---
 .../src/protocols/mqtt/v5/packet/connect.rs   | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..7e7afa5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -453,6 +453,19 @@ pub(crate) fn handle_auth(
                 ));
             };
 
+            // decoding the final message ends the exchange and drops the identities
+            let authcid = session
+                .scram_stage
+                .machine
+                .authcid()
+                .unwrap_or("")
+                .to_owned();
+            let authzid = session
+                .scram_stage
+                .machine
+                .authzid()
+                .and_then(|az| az)
+                .map(str::to_owned);
             let (status, server_final) = match session
                 .scram_stage
                 .machine
@@ -497,18 +510,6 @@ pub(crate) fn handle_auth(
                 return Err(err_pkt);
             }
 
-            let authcid = session
-                .scram_stage
-                .machine
-                .authcid()
-                .unwrap_or("")
-                .to_owned();
-            let authzid = session
-                .scram_stage
-                .machine
-                .authzid()
-                .and_then(|az| az)
-                .map(str::to_owned);
             session.authorizing = false;
             session.scram_stage.time = Some(Instant::now());
             session.scram_auth_result = Some((authcid, authzid));
-- 
2.43.0


From c2ced97f5d5a68c893dba3b8a49c1e7dcef6e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 11/19] fix: drop the subscriptions of a session replaced by a
 clean start

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 4 ++++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..bf7a7cf 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -133,6 +133,10 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
+                // the client id is kept, the subscriptions of the removed session must not be
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 7e7afa5..91a28b0 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -247,6 +247,10 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
+                // the client id is kept, the subscriptions of the removed session must not be
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
-- 
2.43.0


From 8d58d7251017b48f24a316af78847401bb43ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 12/19] fix: hand over undelivered messages when a session is
 taken over

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 7 +++++++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index bf7a7cf..6f4c9da 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -117,6 +117,13 @@ clean session : {}
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // messages accepted from the client but not yet handed over to slow receivers
+            session.broadcast_packets = old_state.broadcast_packets;
+            session.broadcast_packets_cnt = session
+                .broadcast_packets
+                .values()
+                .map(|info| info.msgs.len())
+                .sum();
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_session && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 91a28b0..60e2fc0 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -231,6 +231,13 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // messages accepted from the client but not yet handed over to slow receivers
+            session.broadcast_packets = old_state.broadcast_packets;
+            session.broadcast_packets_cnt = session
+                .broadcast_packets
+                .values()
+                .map(|info| info.msgs.len())
+                .sum();
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_start && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
-- 
2.43.0


From 3c4e199cac4a67e0ab5986cbad0b1508b0973660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 13/19] fix: count an online client once when its session is
 taken over

---
 akasa-core/src/state.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..5bb0431 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -116,9 +116,12 @@ impl GlobalState {
     // When clean_session=0 and client disconnected
     pub fn offline_client(&self, client_id: ClientId) {
         let _guard = self.next_client_id.lock();
-        assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
         if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
-            pair.value_mut().1 = false;
+            let online = &mut pair.value_mut().1;
+            if *online {
+                *online = false;
+                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
+            }
         }
     }
 
@@ -148,20 +151,25 @@ impl GlobalState {
     ) -> io::Result<AddClientReceipt> {
         let control_sender = {
             let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
             let client_id_opt: Option<ClientId> = self
                 .client_identifier_map
                 .get(client_identifier)
                 .map(|pair| *pair.value());
             if let Some(old_id) = client_id_opt {
                 if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
+                    // taking over an online session does not add an online client
+                    let online = &mut pair.value_mut().1;
+                    if !*online {
+                        *online = true;
+                        self.online_clients.fetch_add(1, Ordering::AcqRel);
+                    }
                 }
                 self.get_client_control_sender(&old_id).unwrap()
             } else {
                 let client_id = *next_client_id;
                 self.client_id_map
                     .insert(client_id, (client_identifier.to_string(), true));
+                self.online_clients.fetch_add(1, Ordering::AcqRel);
                 self.client_identifier_map
                     .insert(client_identifier.to_string(), client_id);
                 // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
-- 
2.43.0


From 282f1ebd0ea81aa199f9778813a0db4995f10765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 14/19] fix: publish the will of a v5 client that disconnects
 with another reason than normal

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..5ab4f06 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -311,10 +311,8 @@ async fn handle_online<
         session.client_disconnected,
         session.server_disconnected,
     );
-    // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
-    }
+    // A normal DISCONNECT has already cleared the will, see: [MQTT-3.14.4-3]
+    handle_will(&mut session, global).await?;
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
-- 
2.43.0


From 89c6553e86f5a8b34666a11ddb06f690da1127ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 15/19] fix: go on writing until the connection is full, so
 that the rest of a packet is not left behind

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..20c30ae 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -428,9 +428,9 @@ where
                     have_write = true;
                     data_idx += size;
                     if data_idx < data_all.len() {
+                        // Go on until the write is pending: no one else wakes up this task
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
-- 
2.43.0


From fa4363fe28b19620afb5b3822d9a8de805be5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 16/19] fix: end the keep alive timer with its session, so that
 it does not kick the next connection of the client

---
 akasa-core/src/protocols/mqtt/common.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..c836385 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -1,5 +1,5 @@
 use std::io;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::{Duration, Instant};
 
 use parking_lot::RwLock;
@@ -16,14 +16,16 @@ pub(crate) fn start_keep_alive_timer(
     if keep_alive > 0 {
         let half_interval = Duration::from_millis(keep_alive as u64 * 500);
         log::debug!("{} keep alive: {:?}", client_id, half_interval * 2);
-        let last_packet_time = Arc::clone(last_packet_time);
+        // The timer ends with its session, the client may have another one then
+        let last_packet_time = Arc::downgrade(last_packet_time);
         let global = Arc::clone(global);
         let action_gen = move || {
             // Need clone twice: https://stackoverflow.com/a/68462908/1274372
-            let last_packet_time = Arc::clone(&last_packet_time);
+            let last_packet_time = Weak::clone(&last_packet_time);
             let global = Arc::clone(&global);
             async move {
                 {
+                    let last_packet_time = last_packet_time.upgrade()?;
                     let last_packet_time = last_packet_time.read();
                     if last_packet_time.elapsed() <= half_interval * 3 {
                         return Some(half_interval);
-- 
2.43.0


From 0333d8f7120b743afc643131e3e3f85ecb0ed84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 17/19] fix: deliver retained messages published with a higher
 QoS than that of a v3 subscription

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..6cd25d6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,19 +42,17 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From 7f4f00ca3b4afa842125649fe13188d204936fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 18/19] fix: call the after connect hook exactly if it is
 enabled

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index d936857..e577007 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -141,7 +141,7 @@ async fn handle_online<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(&mut session, session_present, hook_handler, global).await?;
     }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 5ab4f06..084040a 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -269,7 +269,7 @@ async fn handle_online<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(&mut session, session_present, hook_handler, global).await?;
     }
 
-- 
2.43.0


From 998a4d831bf60e50fd3fa959c9bc0ba2b9482794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 19/19] fix: time limit for the WebSocket handshake

---
 akasa-core/src/server/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 8d959a4..12207cc 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -135,13 +135,17 @@ pub async fn handle_accept<
             }
             Ok(resp)
         };
-        let stream = match accept_hdr_async(tls_wrapper, handler).await {
-            Ok(stream) => stream,
-            Err(err) => {
+        let stream = accept_hdr_async(tls_wrapper, handler)
+            .map_err(|err| {
                 log::warn!("Accept websocket connection error: {:?}", err);
-                return Err(io::ErrorKind::InvalidData.into());
-            }
-        };
+                io::Error::from(io::ErrorKind::InvalidData)
+            })
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when accept websocket: {}", peer);
+                Err(io::ErrorKind::TimedOut.into())
+            })
+            .await?;
         WebSocketWrapper::WebSocket {
             stream,
             read_data: Bytes::new(),
-- 
2.43.0

