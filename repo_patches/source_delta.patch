From af5e26a12a0d74ebcb4d92508ad155f4f7e48da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:03 +0000
Subject: [PATCH 01/11] fix: consider ERROR_KEY when sizing the dispatcher's
 outgoing keys

define_dispatch! picked the smallest key width without collisions among the
endpoint and topic keys only, but the server also emits WireError frames
under ERROR_KEY. When an endpoint response or outgoing topic key collided with
ERROR_KEY at the chosen width, clients could not tell errors from responses.
---
 source/postcard-rpc/src/server/dispatch_macro.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..0872903 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,8 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                // The server may also send `WireError`s, see `Sender::error`
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From 0160dc7e64d7ba409652f63d0fca7fd187a66bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:07 +0000
Subject: [PATCH 02/11] fix: send requests with the configured sequence number
 width

HostClient stored the configured seq_kind but never applied it, so every
request carried a four byte sequence number regardless of the configuration.
---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..5528a0b 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -359,6 +359,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From f57f9d030fdf6a3d5b1e51ec65ffe1759da5017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:50 +0000
Subject: [PATCH 03/11] fix: collect types nested in enum newtype variants

type_chewer_dmt listed the type wrapped by a newtype variant, but not the
types reachable from it, unlike all other kinds of composite types.
---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..91a7e3a 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this variant
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this variant...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From 2f05d6b12a68b5f3898f395744ae4a30d1869b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:20 +0000
Subject: [PATCH 04/11] fix: notice lost type messages when building a schema
 report

The totals sent by the server include the number of types, but only the
endpoint and topic totals were compared with what was received, so a report
could silently lack types.
---
 source/postcard-rpc/src/host_client/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 5528a0b..56a8312 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -274,10 +274,12 @@ where
         };
         let mut rpt = SchemaReport::default();
         let mut e_and_t = vec![];
+        let mut types_received = 0usize;
 
         for d in data {
             match d {
                 OwnedSchemaData::Type(d) => {
+                    types_received += 1;
                     rpt.add_type(d);
                 }
                 e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
@@ -307,6 +309,7 @@ where
         }
 
         let mut data_matches = true;
+        data_matches &= resp.types_sent as usize == types_received;
         data_matches &= resp.endpoints_sent as usize == rpt.endpoints.len();
         data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
         data_matches &= resp.topics_out_sent as usize == rpt.topics_out.len();
-- 
2.43.0


From c1aec3a363e1cf0e857b7de3fadced42713343e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:47 +0000
Subject: [PATCH 05/11] fix: stay in sync when a USB packet does not fit the
 receive buffer

If the space left in the buffer was smaller than a packet, receive() returned
without discarding the rest of the oversized message, and its tail was then
taken for a new message.
---
 .../src/server/impls/embassy_usb_v0_3.rs       | 18 ++++++++++++++++--
 .../src/server/impls/embassy_usb_v0_4.rs       | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..8d4e34f 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -543,8 +543,13 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
+        // Packets are at most 64 bytes. If we have less room than that left, read into
+        // here instead, so we always get to see how large the packet really was.
+        let mut pkt = [0u8; 64];
         while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+            let use_pkt = window.len() < pkt.len();
+            let dest = if use_pkt { &mut pkt[..] } else { &mut *window };
+            let n = match self.ep_out.read(dest).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -552,6 +557,15 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
+            if use_pkt {
+                match window.get_mut(..n) {
+                    Some(now) => now.copy_from_slice(&pkt[..n]),
+                    // Not enough room, and there are more packets in this message
+                    None if n == 64 => break,
+                    None => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
+                }
+            }
+
             let (_now, later) = window.split_at_mut(n);
             window = later;
             if n != 64 {
@@ -567,7 +581,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut pkt).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..da34079 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -591,8 +591,13 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
+        // Packets are at most 64 bytes. If we have less room than that left, read into
+        // here instead, so we always get to see how large the packet really was.
+        let mut pkt = [0u8; 64];
         while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+            let use_pkt = window.len() < pkt.len();
+            let dest = if use_pkt { &mut pkt[..] } else { &mut *window };
+            let n = match self.ep_out.read(dest).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -600,6 +605,15 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
+            if use_pkt {
+                match window.get_mut(..n) {
+                    Some(now) => now.copy_from_slice(&pkt[..n]),
+                    // Not enough room, and there are more packets in this message
+                    None if n == 64 => break,
+                    None => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
+                }
+            }
+
             let (_now, later) = window.split_at_mut(n);
             window = later;
             if n != 64 {
@@ -615,7 +629,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut pkt).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
-- 
2.43.0


From b1f1b57d6349bf77a7acaeaba40722fdc088e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:08 +0000
Subject: [PATCH 06/11] fix: accept USB messages that exactly fill the receive
 buffer

A message whose length is the buffer length and a multiple of the packet size
was reported as too large when its terminating empty packet arrived.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 6 +++++-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 8d4e34f..a06145d 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -580,9 +580,13 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
 
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
+        //
+        // If the buffer is exactly full, and the message ends here, it did fit after all.
+        let mut exact_fit = window.is_empty();
         loop {
             match self.ep_out.read(&mut pkt).await {
-                Ok(64) => {}
+                Ok(64) => exact_fit = false,
+                Ok(0) if exact_fit => return Ok(buf),
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index da34079..dc6581d 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -628,9 +628,13 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
 
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
+        //
+        // If the buffer is exactly full, and the message ends here, it did fit after all.
+        let mut exact_fit = window.is_empty();
         loop {
             match self.ep_out.read(&mut pkt).await {
-                Ok(64) => {}
+                Ok(64) => exact_fit = false,
+                Ok(0) if exact_fit => return Ok(buf),
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
-- 
2.43.0


From ea346d66692e21a5dbc08013b9dd58c578554552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:09 +0000
Subject: [PATCH 07/11] fix: truncate instead of panic when a log message does
 not fit

SliceWriter copied the whole string into the part of it that fits.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index a06145d..cfc98a7 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index dc6581d..aa3256d 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From daac31711e05c571db8abda7672b4680142c91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:10 +0000
Subject: [PATCH 08/11] fix: reserve enough bytes for the length of formatted
 log messages

A varint byte holds 7 bits, so a second byte is needed from 128, not from 256
on (and so on): longer messages panicked when their length was filled in.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index cfc98a7..df675b3 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index aa3256d..30a8b86 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From 6ee689a83e6ac37007282a288d569f5c76c078b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:37 +0000
Subject: [PATCH 09/11] fix: keep truncated log messages valid UTF-8

Cutting a formatted message at an arbitrary byte, or replacing its last three
bytes with dots, could split a character, and the receiver could then not
decode the message at all.
---
 .../src/server/impls/embassy_usb_v0_3.rs         | 16 ++++++++++++++--
 .../src/server/impls/embassy_usb_v0_4.rs         | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index df675b3..30aed29 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -382,7 +382,11 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         // of room. If we had an error, AND there is at least three
         // bytes, then replace those with '.'s like ...
         if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
+            let mut start = body.len() - 3;
+            // Don't replace only a part of a character
+            while start > 0 && start < used && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
             body[start..].iter_mut().for_each(|b| *b = b'.');
         }
 
@@ -469,7 +473,15 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(&s.as_bytes()[..to_write]);
+
+        // Don't write only a part of a character, the result must remain valid UTF-8
+        let mut whole = to_write;
+        while !s.is_char_boundary(whole) {
+            whole -= 1;
+        }
+        let (text, fill) = now.split_at_mut(whole);
+        text.copy_from_slice(&s.as_bytes()[..whole]);
+        fill.iter_mut().for_each(|b| *b = b'.');
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 30a8b86..30dc953 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -429,7 +429,11 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         // of room. If we had an error, AND there is at least three
         // bytes, then replace those with '.'s like ...
         if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
+            let mut start = body.len() - 3;
+            // Don't replace only a part of a character
+            while start > 0 && start < used && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
             body[start..].iter_mut().for_each(|b| *b = b'.');
         }
 
@@ -517,7 +521,15 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(&s.as_bytes()[..to_write]);
+
+        // Don't write only a part of a character, the result must remain valid UTF-8
+        let mut whole = to_write;
+        while !s.is_char_boundary(whole) {
+            whole -= 1;
+        }
+        let (text, fill) = now.split_at_mut(whole);
+        text.copy_from_slice(&s.as_bytes()[..whole]);
+        fill.iter_mut().for_each(|b| *b = b'.');
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From 873c8b69e8b0ea99ba0dc6671b41d2dbb811b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:11 +0000
Subject: [PATCH 10/11] fix: don't drop short messages on the serial transport

Headers are variable length: with shortened keys and sequence numbers a whole
message can be as short as three bytes.
---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..4111b43 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -211,10 +211,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // TODO hacky check: the minimum size of a message is 3 bytes,
+                        // one each for the header, the key and the seq_no. Discard any
+                        // "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From 27060467059b505ebad91d4becb31b6422dc5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 11/11] fix: report end of file on the serial transport

When the port goes away read() returns zero bytes from then on: recv_inner
kept reading forever and the client was never closed.
---
 source/postcard-rpc/src/host_client/serial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 4111b43..96fe7f7 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -191,6 +191,10 @@ impl SerialWireRx {
             // Nothing in the pending queue, do a read to see if we can pull more
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
+            if used == 0 {
+                // End of file: the port has gone away, and won't come back
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
 
             let mut window = &self.buf[..used];
 
-- 
2.43.0

