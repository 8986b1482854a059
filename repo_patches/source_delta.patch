From 01939a1f04beb3faa6375d5f066a1b22728a5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 01/16] fix: Event::end creates an event of type End

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..19e0459 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From 3c08ec5197c51d60843ba1e231ba9a12c4f52340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 02/16] fix: reject frames with impossible lengths instead of
 panicking

---
 src/events/event.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 19e0459..c01e2e0 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -138,7 +138,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +148,12 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        // don't trust the announced length for allocating the buffer
+        let mut buf = Vec::new();
+        reader.take(data_length).read_to_end(&mut buf).await?;
+        if (buf.len() as u64) < data_length {
+            return Err(Error::CorruptedEvent);
+        }
         let event = Event {
             header,
             data: Bytes::from(buf),
-- 
2.43.0


From ba3fbecf5f913ff27555fc50f085f1e3219316cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 03/16] fix: refuse to encode events with a header that exceeds
 the length fields

---
 src/events/event.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index c01e2e0..81eafe3 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -165,8 +165,9 @@ impl Event {
     /// Encodes the event into bytes
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
-        let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        let header_bytes = self.header.into_bytes()?;
+        let header_length = u16::try_from(header_bytes.len())
+            .map_err(|_| Error::from("the event header is too long"))?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
@@ -183,7 +184,7 @@ impl Event {
 
 impl EventHeader {
     /// Serializes the event header into bytes
-    pub fn into_bytes(self) -> Bytes {
+    pub fn into_bytes(self) -> Result<Bytes> {
         let mut buf = BytesMut::with_capacity(256);
         buf.put_slice(&FORMAT_VERSION);
         buf.put_u64(self.id);
@@ -196,15 +197,21 @@ impl EventHeader {
             buf.put_u8(0x00);
         }
         if let Some(namespace) = self.namespace {
-            buf.put_u16(namespace.len() as u16);
+            buf.put_u16(Self::string_length(&namespace)?);
             buf.put(Bytes::from(namespace));
         } else {
             buf.put_u16(0);
         }
-        buf.put_u16(self.name.len() as u16);
+        buf.put_u16(Self::string_length(&self.name)?);
         buf.put(Bytes::from(self.name));
 
-        buf.freeze()
+        Ok(buf.freeze())
+    }
+
+    /// Returns the length of a string in the header if it can be represented
+    #[inline]
+    fn string_length(string: &str) -> Result<u16> {
+        u16::try_from(string.len()).map_err(|_| Error::from("the event name is too long"))
     }
 
     /// Parses an event header from an async reader
-- 
2.43.0


From 65f0bd2a5d7e24d6cdc93e5df3e8646091842a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 04/16] fix: malformed payload lengths are errors instead of
 panics

---
 src/events/error_event.rs |  5 ++---
 src/events/payload.rs     | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..1f820c5 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -1,6 +1,6 @@
 use crate::context::Context;
 use crate::error::Result;
-use crate::payload::{FromPayload, IntoPayload};
+use crate::payload::{read_length, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
@@ -44,8 +44,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_length(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..95c8017 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,4 +1,4 @@
-use crate::prelude::IPCResult;
+use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::io::Read;
@@ -23,6 +23,18 @@ pub trait FromPayload: Sized {
     fn from_payload<R: Read>(reader: R) -> IPCResult<Self>;
 }
 
+/// Reads exactly the given number of bytes without trusting the length
+/// when allocating the buffer
+pub(crate) fn read_length<R: Read>(reader: &mut R, length: u64) -> IPCResult<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(length).read_to_end(&mut buf)?;
+
+    if (buf.len() as u64) < length {
+        return Err(IPCError::CorruptedEvent);
+    }
+    Ok(buf)
+}
+
 /// A payload wrapper type for sending bytes directly without
 /// serializing them
 #[derive(Clone)]
@@ -115,12 +127,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_length(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_length(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
-- 
2.43.0


From ef5d35163522d6866b87f93b28f280094ee05f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 05/16] fix: don't remove reply listeners by the id of a peer's
 event

---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..39b4ca5 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -62,7 +62,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -75,7 +74,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From 852798b4c1f948ae524edbaae268b8d9ed0f1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 06/16] fix: replies nobody waits for anymore are processed
 like any other event

---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 39b4ca5..e7e4288 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(()) => continue,
+                    // nobody is waiting for it anymore
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From 879e15d000f4bfa6491afa38937a8c1ada75ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 07/16] fix: events for unknown namespaces are ignored as
 specified

---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index e7e4288..863df69 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -48,9 +48,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(name) = event.namespace() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // events for unknown namespaces are ignored like events without a handler
+            let handler = namespaces
+                .get(name)
+                .map(|namespace| Arc::clone(&namespace.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From 72947f8f3b0fd6b513617ee6f987f159aa03708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 08/16] fix: encrypted reads return the data they have instead
 of stalling

---
 src/protocol/encrypted/io_impl.rs | 53 ++++++++++++-------------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..bef9394 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -51,47 +51,34 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         cx: &mut Context<'_>,
         buf: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
-        if self.fut.is_none() {
-            if self.remaining.len() > 0 {
-                let max_copy = min(buf.remaining(), self.remaining.len());
-                let bytes = self.remaining.copy_to_bytes(max_copy);
-                buf.put_slice(&bytes);
-                tracing::trace!("{} bytes read from buffer", bytes.len());
-            }
-
-            if buf.remaining() > 0 {
-                tracing::trace!("{} bytes remaining to read", buf.remaining());
+        loop {
+            if self.fut.is_none() {
+                if self.remaining.len() > 0 || buf.remaining() == 0 {
+                    let max_copy = min(buf.remaining(), self.remaining.len());
+                    let bytes = self.remaining.copy_to_bytes(max_copy);
+                    buf.put_slice(&bytes);
+                    tracing::trace!("{} bytes read from buffer", bytes.len());
+
+                    return Poll::Ready(Ok(()));
+                }
                 let reader = self.inner.take().unwrap();
                 let cipher = self.cipher.take().unwrap();
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
-            } else {
-                return Poll::Ready(Ok(()));
             }
-        }
-        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
-                match result {
-                    Ok(bytes) => {
-                        self.fut = None;
-                        self.remaining.put(bytes);
-                        let max_copy = min(self.remaining.len(), buf.remaining());
-                        let bytes = self.remaining.copy_to_bytes(max_copy);
-                        buf.put_slice(&bytes);
-                        tracing::trace!("{} bytes read from buffer", bytes.len());
-
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
-                        }
+            match self.fut.as_mut().unwrap().as_mut().poll(cx) {
+                Poll::Ready((result, reader, cipher)) => {
+                    self.fut = None;
+                    self.inner = Some(reader);
+                    self.cipher = Some(cipher);
+
+                    match result {
+                        Ok(bytes) => self.remaining.put(bytes),
+                        Err(e) => return Poll::Ready(Err(e)),
                     }
-                    Err(e) => Poll::Ready(Err(e)),
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 9268e338ecc993e3f5aec1b04758987b8a5b335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 09/16] fix: encrypted writes survive cancellation and the
 shutdown completes

---
 src/protocol/encrypted/io_impl.rs | 104 ++++++++++++++----------------
 src/protocol/encrypted/mod.rs     |   2 +-
 2 files changed, 50 insertions(+), 56 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index bef9394..585b6a4 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -8,7 +8,7 @@ use std::cmp::min;
 use std::io;
 use std::io::Error;
 use std::pin::Pin;
-use std::task::{Context, Poll};
+use std::task::{ready, Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
@@ -91,42 +91,35 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
         cx: &mut Context<'_>,
         buf: &[u8],
     ) -> Poll<Result<usize, Error>> {
-        let written_length = buf.len();
+        // finish what an earlier write or flush has started before accepting new data
+        if let Err(e) = ready!(self.poll_in_progress(cx)) {
+            return Poll::Ready(Err(e));
+        }
+        self.buffer.put(buf);
 
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let max_copy = min(u32::MAX as usize, self.buffer.len());
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
 
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
 
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
+            if let Poll::Ready(Err(e)) = self.poll_in_progress(cx) {
+                return Poll::Ready(Err(e));
             }
         }
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
-
-                Poll::Ready(result.map(|_| written_length))
-            }
-            Poll::Pending => Poll::Pending,
-        }
+        Poll::Ready(Ok(buf.len()))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let buffer_len = self.buffer.len();
-
         if self.fut_flush.is_none() {
-            let max_copy = min(u32::MAX as usize, buffer_len);
+            if let Err(e) = ready!(self.poll_in_progress(cx)) {
+                return Poll::Ready(Err(e));
+            }
+            let max_copy = min(u32::MAX as usize, self.buffer.len());
             let plaintext = self.buffer.copy_to_bytes(max_copy);
             let writer = self.inner.take().unwrap();
             let cipher = self.cipher.take().unwrap();
@@ -148,40 +141,41 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
                 }
             }))
         }
-        match self.fut_flush.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_flush = None;
-
-                Poll::Ready(result)
-            }
-            Poll::Pending => Poll::Pending,
-        }
+        self.poll_in_progress(cx)
     }
 
     fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         if self.fut_shutdown.is_none() {
-            match self.as_mut().poll_flush(cx) {
-                Poll::Ready(result) => match result {
-                    Ok(_) => {
-                        let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
-                },
-                Poll::Pending => Poll::Pending,
-            }
-        } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
+            if let Err(e) = ready!(self.as_mut().poll_flush(cx)) {
+                return Poll::Ready(Err(e));
             }
+            let mut writer = self.inner.take().unwrap();
+            self.fut_shutdown = Some(Box::pin(
+                async move { (writer.shutdown().await, writer) },
+            ));
         }
+        let (result, writer) = ready!(self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx));
+        self.fut_shutdown = None;
+        self.inner = Some(writer);
+
+        Poll::Ready(result)
+    }
+}
+
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Drives a write or flush that has been started to its completion.
+    fn poll_in_progress(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        let fut = match self.fut_write.as_mut().or(self.fut_flush.as_mut()) {
+            Some(fut) => fut,
+            None => return Poll::Ready(Ok(())),
+        };
+        let (result, writer, cipher) = ready!(fut.as_mut().poll(cx));
+        self.fut_write = None;
+        self.fut_flush = None;
+        self.inner = Some(writer);
+        self.cipher = Some(cipher);
+
+        Poll::Ready(result)
     }
 }
 
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..37335fc 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -114,7 +114,7 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
+    fut_shutdown: OptionalFuture<(io::Result<()>, T)>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
-- 
2.43.0


From b9a5e16d8d18169c14463e1fe19ac8c24f62f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 10/16] fix: a failed key exchange doesn't stop the listener

---
 src/protocol/encrypted/protocol_impl.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..a09f2ea 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -22,10 +22,16 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
-
-        Ok((stream, remote_addr))
+        loop {
+            let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
+
+            match Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await {
+                Ok(stream) => return Ok((stream, remote_addr)),
+                Err(e) => {
+                    tracing::warn!("Failed to establish an encrypted connection: {:?}", e)
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From d8ece8627fb4fb89b62195bffceee06d6d6d6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 11/16] fix: don't allocate buffers by the unauthenticated
 package length

---
 src/protocol/encrypted/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 37335fc..f03eabf 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -149,8 +149,15 @@ impl EncryptedPackage {
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        // don't trust the announced length for allocating the buffer
+        let mut bytes_buf = Vec::new();
+        reader
+            .take(length as u64)
+            .read_to_end(&mut bytes_buf)
+            .await?;
+        if bytes_buf.len() < length as usize {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
-- 
2.43.0


From f5817c10bad9f7ed3861ffc7a8a13cea302d4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 12/16] fix: reply listeners are removed on timeouts, failures
 and cancellation

---
 src/ipc/context.rs                            | 23 +++++++++++--
 .../emit_metadata_with_response.rs            |  9 +----
 .../emit_metadata_with_response_stream.rs     | 33 +++++++------------
 3 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..a23b35e 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -20,6 +20,18 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// Removes the reply listener of an event when it is dropped
+pub(crate) struct ReplyListenerGuard {
+    reply_listeners: ReplyListeners,
+    event_id: u64,
+}
+
+impl Drop for ReplyListenerGuard {
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +136,18 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
+    pub(crate) async fn register_reply_listener(
+        &self,
+        event_id: u64,
+    ) -> Result<(Receiver<Event>, ReplyListenerGuard)> {
         let (rx, tx) = mpsc::channel(8);
         self.reply_listeners.insert(event_id, rx);
+        let guard = ReplyListenerGuard {
+            reply_listeners: Arc::clone(&self.reply_listeners),
+            event_id,
+        };
 
-        Ok(tx)
+        Ok((tx, guard))
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..392c5f6 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -1,4 +1,3 @@
-use crate::context::Context;
 use crate::error::Error;
 use crate::error_event::ErrorEventData;
 use crate::event::{Event, EventType};
@@ -53,7 +52,7 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let mut tx = ctx.register_reply_listener(event_id).await?;
+                let (mut tx, _guard) = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
                 let reply = tokio::select! {
@@ -65,8 +64,6 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                     }
                 }?;
 
-                remove_reply_listener(&ctx, event_id).await;
-
                 if reply.event_type() == EventType::Error {
                     Err(reply.payload::<ErrorEventData>()?.into())
                 } else {
@@ -77,7 +74,3 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
         self.fut.as_mut().unwrap().as_mut().poll(cx)
     }
 }
-
-pub(crate) async fn remove_reply_listener(ctx: &Context, event_id: u64) {
-    ctx.reply_listeners.remove(&event_id);
-}
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..7560bea 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,8 +1,7 @@
-use crate::context::Context;
+use crate::context::ReplyListenerGuard;
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
-use crate::ipc::stream_emitter::emit_metadata_with_response::remove_reply_listener;
 use crate::payload::IntoPayload;
 use crate::poll_unwrap;
 use futures_core::Stream;
@@ -21,12 +20,11 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
-type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
+type StreamFutureResult = Result<(Option<Event>, ReplyListenerGuard, Receiver<Event>)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
 pub struct ResponseStream {
-    event_id: u64,
-    ctx: Option<Context>,
+    guard: Option<ReplyListenerGuard>,
     receiver: Option<Receiver<Event>>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
@@ -34,14 +32,12 @@ pub struct ResponseStream {
 
 impl ResponseStream {
     pub(crate) fn new(
-        event_id: u64,
         timeout: Duration,
-        ctx: Context,
+        guard: ReplyListenerGuard,
         receiver: Receiver<Event>,
     ) -> Self {
         Self {
-            event_id,
-            ctx: Some(ctx),
+            guard: Some(guard),
             receiver: Some(receiver),
             timeout,
             fut: None,
@@ -84,10 +80,10 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let tx = ctx.register_reply_listener(event_id).await?;
+                let (tx, guard) = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
-                Ok(ResponseStream::new(event_id, timeout, ctx, tx))
+                Ok(ResponseStream::new(timeout, guard, tx))
             }))
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
@@ -104,13 +100,12 @@ impl Stream for ResponseStream {
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Option<Self::Item>> {
         if self.fut.is_none() {
-            if self.ctx.is_none() || self.receiver.is_none() {
+            if self.guard.is_none() || self.receiver.is_none() {
                 return Poll::Ready(None);
             }
-            let ctx = self.ctx.take().unwrap();
+            let guard = self.guard.take().unwrap();
             let mut receiver = self.receiver.take().unwrap();
             let timeout = self.timeout;
-            let event_id = self.event_id;
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
@@ -122,22 +117,18 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
-                    remove_reply_listener(&ctx, event_id).await;
-                }
-
-                Ok((event, ctx, receiver))
+                Ok((event, guard, receiver))
             }));
         }
 
         match self.fut.as_mut().unwrap().as_mut().poll(cx) {
             Poll::Ready(r) => match r {
-                Ok((event, ctx, tx)) => {
+                Ok((event, guard, tx)) => {
                     self.fut = None;
 
                     if let Some(event) = event {
                         if event.event_type() != EventType::End {
-                            self.ctx = Some(ctx);
+                            self.guard = Some(guard);
                             self.receiver = Some(tx);
                         }
 
-- 
2.43.0


From 79ad0e740176eaaa95fd7fac8248ba5b870a7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 13/16] fix: polling a response stream after a timeout doesn't
 panic

---
 .../stream_emitter/emit_metadata_with_response_stream.rs    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 7560bea..85f38aa 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -137,7 +137,11 @@ impl Stream for ResponseStream {
                         Poll::Ready(None)
                     }
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    self.fut = None;
+
+                    Poll::Ready(Some(Err(e)))
+                }
             },
             Poll::Pending => Poll::Pending,
         }
-- 
2.43.0


From 1a48b65d36a68863fd0322b9fd742cef008cba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 14/16] fix: events are never sent partially when emitting is
 cancelled

---
 src/ipc/stream_emitter/emit_metadata.rs |  5 +--
 src/ipc/stream_emitter/mod.rs           | 41 +++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..4bb76a3 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -8,10 +8,8 @@ use crate::ipc::stream_emitter::SendStream;
 use crate::payload::IntoPayload;
 use crate::{error, poll_unwrap};
 use std::future::Future;
-use std::ops::DerefMut;
 use std::pin::Pin;
 use std::task::Poll;
-use tokio::io::AsyncWriteExt;
 
 /// A metadata object returned after emitting an event.
 /// To send the event this object needs to be awaited
@@ -90,8 +88,7 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
                 let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
+                stream.write(&event_bytes[..]).await?;
                 tracing::trace!(bytes_len = event_bytes.len());
 
                 Ok(event_id)
diff --git a/src/ipc/stream_emitter/mod.rs b/src/ipc/stream_emitter/mod.rs
index bc0f129..f47fd1d 100644
--- a/src/ipc/stream_emitter/mod.rs
+++ b/src/ipc/stream_emitter/mod.rs
@@ -5,7 +5,8 @@ mod event_metadata;
 
 use std::sync::Arc;
 
-use tokio::io::AsyncWrite;
+use bytes::{Buf, BufMut, BytesMut};
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 use tokio::sync::Mutex;
 use tracing;
 
@@ -29,7 +30,38 @@ macro_rules! poll_unwrap {
     };
 }
 
-type SendStream = Arc<Mutex<dyn AsyncWrite + Send + Sync + Unpin + 'static>>;
+type SendStream = Arc<Mutex<EventWriter<dyn AsyncWrite + Send + Sync + Unpin + 'static>>>;
+
+/// Writes encoded events to a stream. When a write is cancelled the remaining bytes of the
+/// event are kept and sent before the next one, so that events are never sent partially.
+pub(crate) struct EventWriter<W: ?Sized> {
+    pending: BytesMut,
+    writer: W,
+}
+
+impl<W: AsyncWrite + Unpin + ?Sized> EventWriter<W> {
+    /// Writes all bytes and flushes the stream
+    async fn write(&mut self, bytes: &[u8]) -> std::io::Result<()> {
+        self.write_pending().await?;
+        self.pending.put_slice(bytes);
+        self.write_pending().await?;
+
+        self.writer.flush().await
+    }
+
+    /// Writes what is left of the last event
+    async fn write_pending(&mut self) -> std::io::Result<()> {
+        while !self.pending.is_empty() {
+            let count = self.writer.write(&self.pending).await?;
+            if count == 0 {
+                return Err(std::io::ErrorKind::WriteZero.into());
+            }
+            self.pending.advance(count);
+        }
+
+        Ok(())
+    }
+}
 
 /// An abstraction over any type that implements the AsyncProtocolStream trait
 /// to emit events and share a connection across multiple
@@ -42,7 +74,10 @@ pub struct StreamEmitter {
 impl StreamEmitter {
     pub fn new<P: AsyncProtocolStream + 'static>(stream: P::OwnedSplitWriteHalf) -> Self {
         Self {
-            stream: Arc::new(Mutex::new(stream)),
+            stream: Arc::new(Mutex::new(EventWriter {
+                pending: BytesMut::new(),
+                writer: stream,
+            })),
         }
     }
 
-- 
2.43.0


From 97316650db1ce891a0b5ddceeeeddc20b868d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 15/16] fix: malformed bincode payloads are errors instead of
 panics

---
 src/events/payload_serializer/serialize_bincode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..fb04390 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,11 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // deserializing from a reader would allocate by lengths the data merely announces
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
+
     Ok(type_data)
 }
-- 
2.43.0


From a15843fdb588080b03ea23dafd6763eae7275dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:58 +0000
Subject: [PATCH 16/16] fix: a reply that arrived in time isn't reported as a
 timeout

---
 src/ipc/stream_emitter/emit_metadata_with_response.rs        | 2 ++
 src/ipc/stream_emitter/emit_metadata_with_response_stream.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index 392c5f6..d9bef30 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -56,6 +56,8 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                 emit_metadata.await?;
 
                 let reply = tokio::select! {
+                    // a reply that has arrived counts even if the timeout has elapsed by now
+                    biased;
                     tx_result = tx.recv() => {
                         tx_result.ok_or(Error::SendError)
                     }
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 85f38aa..34ebc47 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -109,6 +109,8 @@ impl Stream for ResponseStream {
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
+                    // a reply that has arrived counts even if the timeout has elapsed by now
+                    biased;
                     tx_result = receiver.recv() => {
                         Ok(tx_result)
                     }
-- 
2.43.0

