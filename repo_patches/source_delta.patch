From 2ea62df7004962ecc3ffd04ad89b5dbe0d40979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 01/14] fix: return an error for a name pointer cut off by the
 end of the message

read_domain_name unwrapped the read of the two pointer bytes, so a message ending in the
first byte of a compression pointer made the decoder panic.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..d00b1a2 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 6323484a6db7445aec4a33768cb1f0f6e336a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 02/14] fix: resume decoding directly behind the first pointer
 of a compressed name

The position after a name was the maximum over all name parts. A pointer into bytes that, read as
labels, reach beyond the pointer made the decoder skip part of the message.
---
 src/packet/decoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index d00b1a2..4e0eacb 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -104,6 +104,8 @@ impl<'a> Reader<'a> {
     pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
+        // Position directly behind the first pointer, where decoding of the message continues.
+        let mut resume_pos = None;
         let mut copy = self.clone();
         loop {
             let length = copy.peek_u8()?;
@@ -117,7 +119,7 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        resume_pos.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +139,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(resume_pos.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From d8d4f6f24696b607cacc954c62dd0e968dcac71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 03/14] fix: only strip the unicast-response bit from question
 classes

The upper 7 bits of the class were dropped as well, so that class 0x0101 was decoded (and answered)
as class IN.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index 4e0eacb..51e78f0 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -148,7 +148,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & !0x8000);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From 6a04fa0f8dd64feb1773a69027cce935d768f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 04/14] fix: ignore TXT entries without a key

RFC 6763 requires it; a TXT record holding a single empty string (what a service without metadata
has to publish) was reported as metadata with an empty key.
---
 src/service.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..f2063c1 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -277,6 +277,10 @@ impl TxtRecords {
         for entry in txt.entries() {
             let mut split = entry.splitn(2, |&b| b == b'=');
             let key = split.next().unwrap();
+            if key.is_empty() {
+                // RFC 6763 section 6.4: strings without a key must be silently ignored.
+                continue;
+            }
             let key = match String::from_utf8(key.to_vec()) {
                 Ok(key) => key,
                 Err(e) => {
-- 
2.43.0


From 81d4132fbb057aa3cf4be446786538c82670a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 05/14] fix: reject PTR targets whose service name has no
 leading underscore

Such a Service could not be created with Service::new, and its name is documented to start with an
underscore.
---
 src/service.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index f2063c1..de7929a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -81,6 +81,9 @@ impl Service {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(Service {
             name: service_name.clone(),
             transport: match transport.as_bytes() {
@@ -156,6 +159,9 @@ impl ServiceInstance {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(ServiceInstance {
             instance_name: instance_name.clone(),
             service: Service {
-- 
2.43.0


From 1efca0905f7f935546a16d4e6123a198fdaa99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 06/14] fix: do not count entries that were cut off by the end
 of the buffer

The section counts of a truncated message included entries that are not (completely) in the
message, so it could not be decoded without an error.
---
 src/packet/encoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..c5e4d81 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -163,7 +163,9 @@ impl<'a> MessageEncoder<'a, section::Question> {
         self.inner.w.write_domain_name(question.name);
         self.inner.w.write_u16(question.ty.0);
         self.inner.w.write_u16(question.class.0);
-        self.inner.qdcount += 1;
+        if !self.inner.w.trunc {
+            self.inner.qdcount += 1;
+        }
     }
 
     /// Moves the encoder to the *Answer* section.
@@ -208,7 +210,9 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
 impl<'a> MessageEncoder<'a, section::Answer> {
     pub fn add_answer(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.ancount += 1;
+        if !self.inner.w.trunc {
+            self.inner.ancount += 1;
+        }
     }
 
     /// Moves the encoder to the *Authority* section.
@@ -224,7 +228,9 @@ impl<'a> MessageEncoder<'a, section::Answer> {
 impl<'a> MessageEncoder<'a, section::Authority> {
     pub fn add_authority(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.nscount += 1;
+        if !self.inner.w.trunc {
+            self.inner.nscount += 1;
+        }
     }
 
     /// Moves the encoder to the *Additional Records* section.
@@ -240,7 +246,9 @@ impl<'a> MessageEncoder<'a, section::Authority> {
 impl<'a> MessageEncoder<'a, section::Additional> {
     pub fn add_additional(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.arcount += 1;
+        if !self.inner.w.trunc {
+            self.inner.arcount += 1;
+        }
     }
 }
 
-- 
2.43.0


From 11b555bb56490711721da98b01ccbc05bb8c652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 07/14] fix: detect multicast resolvers by the server's address

The flag was derived from the unspecified address the socket is bound to, so add_server never
rejected a multicast resolver.
---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..c7b2669 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -42,7 +42,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..f9301a4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From 83d16873bbd24060db7eb6cb04feb185eb1ab5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 08/14] fix: discard the addresses of a response that turned
 out to be malformed

They stayed in the buffer and were returned together with those of the next response.
---
 src/resolver.rs             | 2 ++
 uwuhi-async/src/resolver.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index c7b2669..e21d45f 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -141,6 +141,8 @@ impl SyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Don't mix addresses from a broken packet with those of a later one.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index f9301a4..19d9816 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -138,6 +138,8 @@ impl AsyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Don't mix addresses from a broken packet with those of a later one.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
-- 
2.43.0


From 460932ed7c9de9f24049a9760c8a395c1904d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 09/14] fix: receive resolver responses into a buffer large
 enough for mDNS

The resolvers are used for mDNS, where responses can be larger than 512 bytes. Those were cut off
and then failed to decode.
---
 src/resolver.rs             | 4 ++--
 uwuhi-async/src/resolver.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index e21d45f..ed3ad5b 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use crate::MDNS_BUFFER_SIZE;
 
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
@@ -128,7 +128,7 @@ impl SyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 19d9816..7fece87 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -9,7 +9,7 @@ use std::{
 use async_io::{Async, Timer};
 use futures_lite::future;
 pub use uwuhi::resolver::*;
-use uwuhi::{name::DomainName, DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use uwuhi::{name::DomainName, MDNS_BUFFER_SIZE};
 
 pub struct AsyncResolver {
     servers: Vec<SocketAddr>,
@@ -121,7 +121,7 @@ impl AsyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let timeout = async {
                 Timer::after(self.timeout).await;
                 Err(io::ErrorKind::TimedOut.into())
-- 
2.43.0


From 0874191634b97d90b33b72eb55d93fd7be3463a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 10/14] fix: ignore responses that belong to another query of
 the resolver

All queries had the same ID and it was not compared, so a late response to an earlier query was
returned as the result of a later query for a different name.
---
 src/resolver.rs             | 12 +++++++++++-
 uwuhi-async/src/resolver.rs |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index ed3ad5b..eb31d90 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -3,6 +3,7 @@
 use std::{
     io,
     net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket},
+    sync::atomic::{AtomicU16, Ordering},
     time::Duration,
 };
 
@@ -133,6 +134,11 @@ impl SyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
+            if recv.get(..2) != data.get(..2) {
+                log::debug!("ignoring packet from {} with foreign ID", addr);
+                continue;
+            }
+
             match decode_answer(recv, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
@@ -153,10 +159,14 @@ impl SyncResolver {
 /// Writes a DNS query asking for IPv4 and IPv6 addresses of `name` into `buf`.
 ///
 /// The given buffer must be large enough to fit the query, or this method will panic.
+///
+/// Every query gets a different ID than the previous one.
 pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
+    static NEXT_ID: AtomicU16 = AtomicU16::new(12345);
+
     let mut header = Header::default();
     header.set_recursion_desired(true);
-    header.set_id(12345);
+    header.set_id(NEXT_ID.fetch_add(1, Ordering::Relaxed));
     let mut enc = MessageEncoder::new(buf);
     enc.set_header(header);
     enc.question(Question::new(&name).ty(QType::A));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 7fece87..7e62096 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -130,6 +130,11 @@ impl AsyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {:x?}", addr, recv);
 
+            if recv.get(..2) != data.get(..2) {
+                log::debug!("ignoring packet from {} with foreign ID", addr);
+                continue;
+            }
+
             match decode_answer(recv, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
-- 
2.43.0


From 9ce26b173177a2d99025b23da39b8aebbf6b962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 11/14] fix: only use answers of the queried name in service
 discovery

The owner name of answers was ignored. A late response to an earlier query of the same discoverer
was attributed to the current one: instances of other services were reported, and details of one
instance were returned as those of another.
---
 src/service/discovery.rs             | 45 +++++++++++++++++++++++++++-
 uwuhi-async/src/service/discovery.rs |  6 +++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index f1dc031..f49334e 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -166,6 +166,10 @@ impl SyncDiscoverer {
             };
 
             // FIXME should probably check that the domain matches ours
+            if !is_instance_of(&instance, service) {
+                log::debug!("ignoring instance of a different service: {}", instance);
+                return ControlFlow::Continue(());
+            }
 
             match instances.entry(instance) {
                 Entry::Vacant(e) => {
@@ -254,7 +258,7 @@ impl SyncDiscoverer {
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, Hex(recv));
 
-                let res = decode_answer(recv, callback);
+                let res = decode_answer_for(recv, domain, callback);
 
                 match res {
                     Ok(ControlFlow::Continue(())) => {}
@@ -289,10 +293,46 @@ pub fn encode_query<'a>(buf: &'a mut [u8], domain: &DomainName, qtypes: &[QType]
     data
 }
 
+/// Returns whether `instance` is an instance of `service` (ignoring ASCII case).
+pub fn is_instance_of(instance: &ServiceInstance, service: &Service) -> bool {
+    instance.service_transport() == service.transport()
+        && instance
+            .service_name()
+            .as_bytes()
+            .eq_ignore_ascii_case(service.name().as_bytes())
+}
+
 /// Decodes `recv` and invokes `callback` with every ANS record inside.
 pub fn decode_answer(
     recv: &[u8],
     callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
+) -> Result<ControlFlow<()>, Error> {
+    decode_answer_impl(recv, None, callback)
+}
+
+/// Decodes `recv` and invokes `callback` with every ANS record of `domain` inside.
+///
+/// Records of any other domain (for example, in a late response to an earlier query) are skipped.
+pub fn decode_answer_for(
+    recv: &[u8],
+    domain: &DomainName,
+    callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
+) -> Result<ControlFlow<()>, Error> {
+    decode_answer_impl(recv, Some(domain), callback)
+}
+
+fn eq_ignore_case(a: &DomainName, b: &DomainName) -> bool {
+    a.labels().len() == b.labels().len()
+        && a.labels()
+            .iter()
+            .zip(b.labels())
+            .all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()))
+}
+
+fn decode_answer_impl(
+    recv: &[u8],
+    domain: Option<&DomainName>,
+    callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
 ) -> Result<ControlFlow<()>, Error> {
     let dec = MessageDecoder::new(recv)?;
     let h = dec.header();
@@ -311,6 +351,9 @@ pub fn decode_answer(
             }
         };
         log::debug!("ANS: {}", ans);
+        if domain.map_or(false, |domain| !eq_ignore_case(ans.name(), domain)) {
+            continue;
+        }
         match ans.as_enum() {
             Some(Ok(record)) => match callback(record) {
                 ControlFlow::Continue(()) => {}
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 0acd1f6..f14d92e 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -166,6 +166,10 @@ impl AsyncDiscoverer {
             };
 
             // FIXME should probably check that the domain matches ours
+            if !is_instance_of(&instance, service) {
+                log::debug!("ignoring instance of a different service: {}", instance);
+                return ControlFlow::Continue(());
+            }
 
             match instances.entry(instance) {
                 Entry::Vacant(e) => {
@@ -256,7 +260,7 @@ impl AsyncDiscoverer {
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, recv.escape_ascii());
 
-                let res = decode_answer(recv, callback);
+                let res = decode_answer_for(recv, domain, callback);
 
                 match res {
                     Ok(ControlFlow::Continue(())) => {}
-- 
2.43.0


From 0f90205249f9e928e8f75e0811b9b70d69c9d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 12/14] fix: do not drop a TXT record received after the SRV
 record

load_instance_details stopped at the first SRV record, so the metadata of an instance was lost
unless its TXT record happened to be received first.
---
 src/service/discovery.rs             | 15 ++++++++-------
 uwuhi-async/src/service/discovery.rs | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index f49334e..633527f 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -98,13 +98,11 @@ impl SyncDiscoverer {
         let mut txt_records = None;
         self.send_query(&domain, &[QType::SRV, QType::TXT], &mut |record| {
             match record {
-                Record::SRV(srv) => {
+                Record::SRV(srv) if details.is_none() => {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
                             details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
                         }
                         Err(e) => {
                             log::debug!(
@@ -112,15 +110,18 @@ impl SyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
-                Record::TXT(txt) => {
+                Record::TXT(txt) if txt_records.is_none() => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })?;
 
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index f14d92e..86da34d 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -93,13 +93,11 @@ impl AsyncDiscoverer {
         let mut txt_records = None;
         self.send_query(&domain, &[QType::SRV, QType::TXT], &mut |record| {
             match record {
-                Record::SRV(srv) => {
+                Record::SRV(srv) if details.is_none() => {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
                             details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
                         }
                         Err(e) => {
                             log::debug!(
@@ -107,15 +105,18 @@ impl AsyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
-                Record::TXT(txt) => {
+                Record::TXT(txt) if txt_records.is_none() => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })
         .await?;
-- 
2.43.0


From ce699da66599996f3746fa94cf92c219bf8cd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 13/14] fix: do not exceed the discovery timeout by waiting for
 a retransmission

The time limit was only checked before receiving, so a discovery could take up to one retransmit
interval longer than documented, and sent a useless query after its time was up.
---
 src/service/discovery.rs             | 14 +++++++++++++-
 uwuhi-async/src/service/discovery.rs | 14 ++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 633527f..aac0f4c 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -29,6 +29,7 @@ pub struct SyncDiscoverer {
     sock: UdpSocket,
     server: SocketAddr,
     domain: DomainName,
+    retransmit_timeout: Duration,
     discovery_timeout: Duration,
 }
 
@@ -48,6 +49,7 @@ impl SyncDiscoverer {
             sock: UdpSocket::bind(bind_addr)?,
             server,
             domain,
+            retransmit_timeout: Self::DEFAULT_RETRANSMIT_TIMEOUT,
             discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
         };
         this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;
@@ -66,6 +68,7 @@ impl SyncDiscoverer {
     /// received in this amount of time.
     pub fn set_retransmit_timeout(&mut self, timeout: Duration) -> io::Result<()> {
         self.sock.set_read_timeout(Some(timeout))?;
+        self.retransmit_timeout = timeout;
         Ok(())
     }
 
@@ -240,11 +243,16 @@ impl SyncDiscoverer {
             self.sock.send_to(data, self.server)?;
 
             loop {
-                if discovery_start.elapsed() >= self.discovery_timeout {
+                let remaining = self
+                    .discovery_timeout
+                    .saturating_sub(discovery_start.elapsed());
+                if remaining.is_zero() {
                     // Max. discovery time exceeded.
                     return Ok(());
                 }
+                let timeout = remaining.min(self.retransmit_timeout);
 
+                self.sock.set_read_timeout(Some(timeout))?;
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                 let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
                     Ok(res) => res,
@@ -252,6 +260,10 @@ impl SyncDiscoverer {
                         if e.kind() == io::ErrorKind::WouldBlock
                             || e.kind() == io::ErrorKind::TimedOut =>
                     {
+                        if timeout == remaining {
+                            // Out of time, there is no point in asking again.
+                            continue;
+                        }
                         continue 'retransmit;
                     }
                     Err(e) => return Err(e),
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 86da34d..7b9df53 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -242,20 +242,26 @@ impl AsyncDiscoverer {
             self.sock.send_to(data, self.server).await?;
 
             loop {
-                if discovery_start.elapsed() >= self.discovery_timeout {
+                let remaining = self
+                    .discovery_timeout
+                    .saturating_sub(discovery_start.elapsed());
+                if remaining.is_zero() {
                     // Max. discovery time exceeded.
                     return Ok(());
                 }
+                let timeout = remaining.min(self.retransmit_timeout);
 
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
-                let timeout = async {
-                    Timer::after(self.retransmit_timeout).await;
+                let timer = async {
+                    Timer::after(timeout).await;
                     Err(())
                 };
                 let recv = async { Ok(self.sock.recv_from(&mut recv_buf).await) };
-                let (b, addr) = match future::or(recv, timeout).await {
+                let (b, addr) = match future::or(recv, timer).await {
                     Ok(Ok(res)) => res,
                     Ok(Err(e)) => return Err(e),
+                    // Out of time, there is no point in asking again.
+                    Err(()) if timeout == remaining => continue,
                     Err(()) => continue 'retransmit,
                 };
                 let recv = &recv_buf[..b];
-- 
2.43.0


From 9f60df4a86f58c0f339077a9fcb25c96663eaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 14/14] fix: do not panic on names that do not fit into a query

---
 src/resolver.rs                      | 11 ++++++-----
 src/service/discovery.rs             | 15 +++++++++++----
 uwuhi-async/src/resolver.rs          |  2 +-
 uwuhi-async/src/service/discovery.rs |  2 +-
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index eb31d90..7691f4e 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -119,7 +119,7 @@ impl SyncResolver {
         self.ip_buf.clear();
 
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
-        let data = encode_query(&mut send_buf, name);
+        let data = encode_query(&mut send_buf, name)?;
 
         log::trace!("resolving '{}', raw query: {}", name, Hex(data));
 
@@ -158,10 +158,11 @@ impl SyncResolver {
 
 /// Writes a DNS query asking for IPv4 and IPv6 addresses of `name` into `buf`.
 ///
-/// The given buffer must be large enough to fit the query, or this method will panic.
+/// The given buffer must be large enough to fit at least the message header, or this method will
+/// panic. If it cannot fit the whole query, [`Error::Truncated`] is returned.
 ///
 /// Every query gets a different ID than the previous one.
-pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
+pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> Result<&'a [u8], Error> {
     static NEXT_ID: AtomicU16 = AtomicU16::new(12345);
 
     let mut header = Header::default();
@@ -171,8 +172,8 @@ pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     enc.set_header(header);
     enc.question(Question::new(&name).ty(QType::A));
     enc.question(Question::new(&name).ty(QType::AAAA));
-    let bytes = enc.finish().unwrap();
-    &buf[..bytes]
+    let bytes = enc.finish()?;
+    Ok(&buf[..bytes])
 }
 
 /// Decodes an answer packet from a DNS resolver, adding any contained IP addresses to `ip_buf`.
diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index aac0f4c..b044711 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -236,7 +236,7 @@ impl SyncDiscoverer {
         callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
     ) -> io::Result<()> {
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
-        let data = encode_query(&mut send_buf, domain, qtypes);
+        let data = encode_query(&mut send_buf, domain, qtypes)?;
 
         let discovery_start = Instant::now();
         'retransmit: loop {
@@ -285,7 +285,14 @@ impl SyncDiscoverer {
     }
 }
 
-pub fn encode_query<'a>(buf: &'a mut [u8], domain: &DomainName, qtypes: &[QType]) -> &'a [u8] {
+/// Writes a DNS query asking for records of `domain` with the given types into `buf`.
+///
+/// If `buf` cannot fit the whole query, [`Error::Truncated`] is returned.
+pub fn encode_query<'a>(
+    buf: &'a mut [u8],
+    domain: &DomainName,
+    qtypes: &[QType],
+) -> Result<&'a [u8], Error> {
     let mut header = Header::default();
     header.set_id(12345);
     let mut enc = MessageEncoder::new(buf);
@@ -293,7 +300,7 @@ pub fn encode_query<'a>(buf: &'a mut [u8], domain: &DomainName, qtypes: &[QType]
     for qtype in qtypes {
         enc.question(encoder::Question::new(domain).ty(*qtype));
     }
-    let bytes = enc.finish().unwrap();
+    let bytes = enc.finish()?;
     let data = &buf[..bytes];
 
     log::trace!(
@@ -303,7 +310,7 @@ pub fn encode_query<'a>(buf: &'a mut [u8], domain: &DomainName, qtypes: &[QType]
         Hex(data),
     );
 
-    data
+    Ok(data)
 }
 
 /// Returns whether `instance` is an instance of `service` (ignoring ASCII case).
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 7e62096..5aa6aaa 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -111,7 +111,7 @@ impl AsyncResolver {
         self.ip_buf.clear();
 
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
-        let data = encode_query(&mut send_buf, name);
+        let data = encode_query(&mut send_buf, name)?;
 
         log::trace!("resolving '{}', raw query: {:x?}", name, data);
 
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 7b9df53..5b16583 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -235,7 +235,7 @@ impl AsyncDiscoverer {
         callback: &mut (dyn FnMut(Record<'_>) -> ControlFlow<()> + Send),
     ) -> io::Result<()> {
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
-        let data = encode_query(&mut send_buf, domain, qtypes);
+        let data = encode_query(&mut send_buf, domain, qtypes)?;
 
         let discovery_start = Instant::now();
         'retransmit: loop {
-- 
2.43.0

