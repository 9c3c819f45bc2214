From 218ceb3818aac3a732e26a4692f3bb84f8d71c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/18] fix: Event::end creates an end event instead of a
 response

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..19e0459 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From 7781e5968caf41c329a82246a6e4264090d74d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/18] fix: don't trust the length fields of received events

A total length below the header length caused an underflow, a large one the allocation of any amount of
memory, both of which bring down the task or the process.
---
 src/events/event.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 19e0459..9bcf6b0 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -6,7 +6,7 @@ use bytes::{BufMut, Bytes, BytesMut};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
 use std::convert::TryFrom;
 use std::fmt::Debug;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub const FORMAT_VERSION: [u8; 3] = [0, 9, 0];
@@ -138,7 +138,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +148,12 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        // the length is not trustworthy, so memory is only allocated for data that was received
+        let mut buf = Vec::new();
+        reader.take(data_length).read_to_end(&mut buf).await?;
+        if (buf.len() as u64) < data_length {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         let event = Event {
             header,
             data: Bytes::from(buf),
-- 
2.43.0


From 7ab1df57f84a1cb8256b677c26e81a98f334399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 03/18] fix: refuse to encode events with a header that exceeds
 its length field

The lengths of the header, namespace and name were silently truncated, which corrupted the event and all
events after it on the connection.
---
 src/events/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 9bcf6b0..79a3499 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -166,7 +166,9 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
         let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        // the namespace and the name are part of the header, so their lengths fit if this one does
+        let header_length = u16::try_from(header_bytes.len())
+            .map_err(|_| Error::from("the namespace and name of the event are too long"))?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
-- 
2.43.0


From 6544b9b4f378b1fa47a2d8b754797d0450664b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/18] fix: don't trust the length fields of tandem and error
 payloads

They decided how much memory was allocated, which panicked or aborted on malformed payloads.
---
 src/events/error_event.rs |  5 ++---
 src/events/payload.rs     | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..897aedb 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -1,6 +1,6 @@
 use crate::context::Context;
 use crate::error::Result;
-use crate::payload::{FromPayload, IntoPayload};
+use crate::payload::{read_bytes, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
@@ -44,8 +44,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_bytes(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..ca262f2 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,7 +1,7 @@
 use crate::prelude::IPCResult;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
-use std::io::Read;
+use std::io::{self, Read};
 
 #[cfg(feature = "serialize")]
 pub use super::payload_serializer::*;
@@ -23,6 +23,18 @@ pub trait FromPayload: Sized {
     fn from_payload<R: Read>(reader: R) -> IPCResult<Self>;
 }
 
+/// Reads the given number of bytes without allocating more memory than there is data
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u64) -> IPCResult<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(length).read_to_end(&mut buf)?;
+
+    if (buf.len() as u64) < length {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+
+    Ok(buf)
+}
+
 /// A payload wrapper type for sending bytes directly without
 /// serializing them
 #[derive(Clone)]
@@ -115,12 +127,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_bytes(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_bytes(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
-- 
2.43.0


From c2fc33360b6312cd3acc81e1d36e2344bd8a1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 05/18] fix: only allocate memory for received data of an
 encrypted package

Four bytes sent by anyone, even before authentication, caused the allocation of up to 4 GiB.
---
 src/protocol/encrypted/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..b9b461a 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -149,8 +149,12 @@ impl EncryptedPackage {
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        // the length is not trustworthy, so memory is only allocated for data that was received
+        let mut bytes_buf = Vec::new();
+        reader.take(length as u64).read_to_end(&mut bytes_buf).await?;
+        if bytes_buf.len() < length as usize {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
-- 
2.43.0


From ea6df856755ee4c14216e27797d56ed359a01103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 06/18] fix: deserialize bincode payloads from a slice

With a reader a malformed length is allocated unchecked, which panics or aborts the process.
---
 src/events/payload_serializer/serialize_bincode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..492b00f 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,11 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // bincode allocates the lengths it reads from a reader, but checks them when it has a slice
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
+
     Ok(type_data)
 }
-- 
2.43.0


From 0400ecf991b4bb84c7b20006480e2d5fbc6d7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 07/18] fix: keep reply listeners when a handled event has the
 same id as an own event

The ids of the own events and those of the peer are independent. After handling an event of the peer the
listener for the replies to an own event with the same id was removed.
---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..39b4ca5 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -62,7 +62,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -75,7 +74,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From 6754893c3a00127b766e5504f6d6e0da0ea0d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 08/18] fix: unregister reply listeners whenever waiting for
 replies ends

Reply listeners were only removed after a reply. They leaked when the wait timed out, the event could not be
sent or the wait or stream was dropped.
---
 src/ipc/context.rs                            | 35 +++++++++++--
 .../emit_metadata_with_response.rs            | 13 ++---
 .../emit_metadata_with_response_stream.rs     | 50 ++++++-------------
 3 files changed, 50 insertions(+), 48 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..b4069df 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -20,6 +20,27 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// Receives the replies to an event. Unregisters itself when dropped, which is the only way to make
+/// sure that no listener is left behind when waiting for a reply fails or is cancelled.
+pub(crate) struct ReplyListener {
+    event_id: u64,
+    reply_listeners: ReplyListeners,
+    receiver: Receiver<Event>,
+}
+
+impl ReplyListener {
+    #[inline]
+    pub(crate) async fn recv(&mut self) -> Option<Event> {
+        self.receiver.recv().await
+    }
+}
+
+impl Drop for ReplyListener {
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +145,15 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
-        let (rx, tx) = mpsc::channel(8);
-        self.reply_listeners.insert(event_id, rx);
-
-        Ok(tx)
+    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyListener> {
+        let (tx, receiver) = mpsc::channel(8);
+        self.reply_listeners.insert(event_id, tx);
+
+        Ok(ReplyListener {
+            event_id,
+            reply_listeners: ReplyListeners::clone(&self.reply_listeners),
+            receiver,
+        })
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..1a4fd03 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -1,4 +1,3 @@
-use crate::context::Context;
 use crate::error::Error;
 use crate::error_event::ErrorEventData;
 use crate::event::{Event, EventType};
@@ -53,19 +52,19 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let mut tx = ctx.register_reply_listener(event_id).await?;
+                let mut listener = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
                 let reply = tokio::select! {
-                    tx_result = tx.recv() => {
-                        tx_result.ok_or(Error::SendError)
+                    reply = listener.recv() => {
+                        reply.ok_or(Error::SendError)
                     }
                     _ = tokio::time::sleep(timeout) => {
                         Err(Error::Timeout)
                     }
                 }?;
 
-                remove_reply_listener(&ctx, event_id).await;
+                drop(listener);
 
                 if reply.event_type() == EventType::Error {
                     Err(reply.payload::<ErrorEventData>()?.into())
@@ -77,7 +76,3 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
         self.fut.as_mut().unwrap().as_mut().poll(cx)
     }
 }
-
-pub(crate) async fn remove_reply_listener(ctx: &Context, event_id: u64) {
-    ctx.reply_listeners.remove(&event_id);
-}
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..ec8a187 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,8 +1,7 @@
-use crate::context::Context;
+use crate::context::ReplyListener;
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
-use crate::ipc::stream_emitter::emit_metadata_with_response::remove_reply_listener;
 use crate::payload::IntoPayload;
 use crate::poll_unwrap;
 use futures_core::Stream;
@@ -11,7 +10,6 @@ use std::pin::Pin;
 use std::task::Poll;
 use std::time::Duration;
 use futures_core::future::BoxFuture;
-use tokio::sync::mpsc::Receiver;
 
 /// A metadata object returned after waiting for a reply to an event
 /// This object needs to be awaited for to get the actual reply
@@ -21,28 +19,19 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
-type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
+type StreamFutureResult = Result<(Option<Event>, ReplyListener)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
 pub struct ResponseStream {
-    event_id: u64,
-    ctx: Option<Context>,
-    receiver: Option<Receiver<Event>>,
+    listener: Option<ReplyListener>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
 }
 
 impl ResponseStream {
-    pub(crate) fn new(
-        event_id: u64,
-        timeout: Duration,
-        ctx: Context,
-        receiver: Receiver<Event>,
-    ) -> Self {
+    pub(crate) fn new(timeout: Duration, listener: ReplyListener) -> Self {
         Self {
-            event_id,
-            ctx: Some(ctx),
-            receiver: Some(receiver),
+            listener: Some(listener),
             timeout,
             fut: None,
         }
@@ -84,10 +73,10 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let tx = ctx.register_reply_listener(event_id).await?;
+                let listener = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
-                Ok(ResponseStream::new(event_id, timeout, ctx, tx))
+                Ok(ResponseStream::new(timeout, listener))
             }))
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
@@ -104,41 +93,34 @@ impl Stream for ResponseStream {
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Option<Self::Item>> {
         if self.fut.is_none() {
-            if self.ctx.is_none() || self.receiver.is_none() {
-                return Poll::Ready(None);
-            }
-            let ctx = self.ctx.take().unwrap();
-            let mut receiver = self.receiver.take().unwrap();
+            let mut listener = match self.listener.take() {
+                Some(listener) => listener,
+                None => return Poll::Ready(None),
+            };
             let timeout = self.timeout;
-            let event_id = self.event_id;
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
-                    tx_result = receiver.recv() => {
-                        Ok(tx_result)
+                    event = listener.recv() => {
+                        Ok(event)
                     }
                     _ = tokio::time::sleep(timeout) => {
                         Err(Error::Timeout)
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
-                    remove_reply_listener(&ctx, event_id).await;
-                }
-
-                Ok((event, ctx, receiver))
+                Ok((event, listener))
             }));
         }
 
         match self.fut.as_mut().unwrap().as_mut().poll(cx) {
             Poll::Ready(r) => match r {
-                Ok((event, ctx, tx)) => {
+                Ok((event, listener)) => {
                     self.fut = None;
 
                     if let Some(event) = event {
                         if event.event_type() != EventType::End {
-                            self.ctx = Some(ctx);
-                            self.receiver = Some(tx);
+                            self.listener = Some(listener);
                         }
 
                         Poll::Ready(Some(Ok(event)))
-- 
2.43.0


From 57a7baf9c5778d5bb0998cafb09cf604413febf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 09/18] fix: allow polling a reply stream after it timed out

The finished future was polled again, which panicked.
---
 .../stream_emitter/emit_metadata_with_response_stream.rs   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index ec8a187..9b1cbf3 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -128,7 +128,12 @@ impl Stream for ResponseStream {
                         Poll::Ready(None)
                     }
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    // without a listener the stream is over
+                    self.fut = None;
+
+                    Poll::Ready(Some(Err(e)))
+                }
             },
             Poll::Pending => Poll::Pending,
         }
-- 
2.43.0


From 03bab0b877945cbdea0c039f3e7fa6b2dc9cfb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 10/18] fix: end reply streams after an error event

A handler that failed sends nothing after the error event, so the stream waited for its timeout.
---
 src/ipc/stream_emitter/emit_metadata_with_response_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 9b1cbf3..3c6afb7 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -119,7 +119,8 @@ impl Stream for ResponseStream {
                     self.fut = None;
 
                     if let Some(event) = event {
-                        if event.event_type() != EventType::End {
+                        // both are final replies
+                        if !matches!(event.event_type(), EventType::End | EventType::Error) {
                             self.listener = Some(listener);
                         }
 
-- 
2.43.0


From 18078c6f7cf7a020688297f2b7931961f48da75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 11/18] fix: process replies of a dropped listener as regular
 events

Those with a namespace were passed to the global handler and end events to any handler that is named 'end'.
---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 39b4ca5..ee7df13 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(_) => continue,
+                    // the listener is gone, so it's processed as a regular event
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From 4427fafc36a001a8e31b64cc37e4943bcecf4c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 12/18] fix: don't pass events of unknown namespaces to the
 global handlers

The specification says that those are ignored.
---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index ee7df13..0184aec 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -48,9 +48,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(namespace) = event.namespace() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // events of unknown namespaces have no handler and are answered like all events without one
+            let handler = namespaces
+                .get(namespace)
+                .map(|n| Arc::clone(&n.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From 8493f0f216249d0b330c26e23c42caf2cda3e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 13/18] fix: continue accepting clients after a failed key
 exchange

Any client that was refused or disconnected during the key exchange stopped the whole server.
---
 src/protocol/encrypted/protocol_impl.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..fbdb8ad 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -22,10 +22,15 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
-
-        Ok((stream, remote_addr))
+        loop {
+            let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
+
+            // a failing handshake only concerns that client, while an error would stop the server
+            match Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await {
+                Ok(stream) => return Ok((stream, remote_addr)),
+                Err(e) => tracing::warn!("key exchange with {:?} failed: {}", remote_addr, e),
+            }
+        }
     }
 }
 
-- 
2.43.0


From 7d373c5689febea69fd592e11b960e2df52ec5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/18] fix: return data from encrypted streams when it is
 available

A read that got less data than the buffer holds returned pending without ever being woken up again, and one
after an error panicked by polling the finished future.
---
 src/protocol/encrypted/io_impl.rs | 58 +++++++++++++------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..7af262f 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -51,47 +51,37 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         cx: &mut Context<'_>,
         buf: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
-        if self.fut.is_none() {
-            if self.remaining.len() > 0 {
-                let max_copy = min(buf.remaining(), self.remaining.len());
-                let bytes = self.remaining.copy_to_bytes(max_copy);
-                buf.put_slice(&bytes);
-                tracing::trace!("{} bytes read from buffer", bytes.len());
-            }
+        loop {
+            if self.fut.is_none() {
+                if buf.remaining() == 0 {
+                    return Poll::Ready(Ok(()));
+                }
+                if self.remaining.len() > 0 {
+                    let max_copy = min(buf.remaining(), self.remaining.len());
+                    let bytes = self.remaining.copy_to_bytes(max_copy);
+                    buf.put_slice(&bytes);
+                    tracing::trace!("{} bytes read from buffer", bytes.len());
 
-            if buf.remaining() > 0 {
+                    return Poll::Ready(Ok(()));
+                }
                 tracing::trace!("{} bytes remaining to read", buf.remaining());
-                let reader = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
+                let (reader, cipher) = match (self.inner.take(), self.cipher.take()) {
+                    (Some(reader), Some(cipher)) => (reader, cipher),
+                    // what comes after a package that couldn't be read can't be trusted
+                    _ => return Poll::Ready(Err(io::ErrorKind::InvalidData.into())),
+                };
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
-            } else {
-                return Poll::Ready(Ok(()));
             }
-        }
-        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
-                match result {
-                    Ok(bytes) => {
-                        self.fut = None;
-                        self.remaining.put(bytes);
-                        let max_copy = min(self.remaining.len(), buf.remaining());
-                        let bytes = self.remaining.copy_to_bytes(max_copy);
-                        buf.put_slice(&bytes);
-                        tracing::trace!("{} bytes read from buffer", bytes.len());
-
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
-                        }
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
+            match self.fut.as_mut().unwrap().as_mut().poll(cx) {
+                Poll::Ready((result, reader, cipher)) => {
+                    self.fut = None;
+                    self.remaining.put(result?);
+                    self.inner = Some(reader);
+                    self.cipher = Some(cipher);
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From d9b7748b697bd8124744201472f4fccb2ce967b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 15/18] fix: complete the shutdown of encrypted streams

It returned pending without ever being woken up again.
---
 src/protocol/encrypted/io_impl.rs | 26 ++++++--------------------
 src/protocol/encrypted/mod.rs     |  2 --
 2 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 7af262f..529ee26 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -164,26 +164,12 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
     }
 
     fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        if self.fut_shutdown.is_none() {
-            match self.as_mut().poll_flush(cx) {
-                Poll::Ready(result) => match result {
-                    Ok(_) => {
-                        let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
-                },
-                Poll::Pending => Poll::Pending,
-            }
-        } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
-            }
+        match self.as_mut().poll_flush(cx) {
+            Poll::Ready(Ok(())) => match self.inner.as_mut() {
+                Some(writer) => Pin::new(writer).poll_shutdown(cx),
+                None => Poll::Ready(Err(io::ErrorKind::NotConnected.into())),
+            },
+            result => result,
         }
     }
 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index b9b461a..f661af0 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -114,7 +114,6 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
@@ -125,7 +124,6 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
             buffer: BytesMut::with_capacity(1024),
             fut_write: None,
             fut_flush: None,
-            fut_shutdown: None,
         }
     }
 }
-- 
2.43.0


From f00c30b473a46518a8f0a5a50e9a9a160bf78df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 16/18] fix: complete the frame of an event when emitting it is
 cancelled

Dropping the future of an emit, or of a wait for a reply, while the frame was being written left a part of it
on the connection and corrupted all events after it.
---
 src/ipc/stream_emitter/emit_metadata.rs |  8 ++---
 src/ipc/stream_emitter/mod.rs           | 48 +++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..7bbcb7e 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -8,10 +8,8 @@ use crate::ipc::stream_emitter::SendStream;
 use crate::payload::IntoPayload;
 use crate::{error, poll_unwrap};
 use std::future::Future;
-use std::ops::DerefMut;
 use std::pin::Pin;
 use std::task::Poll;
-use tokio::io::AsyncWriteExt;
 
 /// A metadata object returned after emitting an event.
 /// To send the event this object needs to be awaited
@@ -90,9 +88,9 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
                 let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
-                tracing::trace!(bytes_len = event_bytes.len());
+                let bytes_len = event_bytes.len();
+                stream.write_frame(event_bytes).await?;
+                tracing::trace!(bytes_len);
 
                 Ok(event_id)
             }));
diff --git a/src/ipc/stream_emitter/mod.rs b/src/ipc/stream_emitter/mod.rs
index bc0f129..7ef8bfc 100644
--- a/src/ipc/stream_emitter/mod.rs
+++ b/src/ipc/stream_emitter/mod.rs
@@ -3,9 +3,11 @@ pub mod emit_metadata_with_response;
 pub mod emit_metadata_with_response_stream;
 mod event_metadata;
 
+use std::io;
 use std::sync::Arc;
 
-use tokio::io::AsyncWrite;
+use bytes::Bytes;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 use tokio::sync::Mutex;
 use tracing;
 
@@ -29,7 +31,47 @@ macro_rules! poll_unwrap {
     };
 }
 
-type SendStream = Arc<Mutex<dyn AsyncWrite + Send + Sync + Unpin + 'static>>;
+type SendStream = Arc<Mutex<FrameWriter<dyn AsyncWrite + Send + Sync + Unpin + 'static>>>;
+
+/// Writes complete frames, also when the future that writes one is dropped before it's done.
+/// In that case the remaining part of the frame is written before the next one.
+pub(crate) struct FrameWriter<W: ?Sized> {
+    pending: Bytes,
+    unflushed: bool,
+    inner: W,
+}
+
+impl<W> FrameWriter<W> {
+    fn new(inner: W) -> Self {
+        Self {
+            pending: Bytes::new(),
+            unflushed: false,
+            inner,
+        }
+    }
+}
+
+impl<W: ?Sized + AsyncWrite + Unpin> FrameWriter<W> {
+    /// Writes and flushes a frame
+    pub(crate) async fn write_frame(&mut self, frame: Bytes) -> io::Result<()> {
+        self.finish().await?;
+        self.pending = frame;
+        self.unflushed = true;
+
+        self.finish().await
+    }
+
+    async fn finish(&mut self) -> io::Result<()> {
+        if self.unflushed {
+            let mut inner = &mut self.inner;
+            AsyncWriteExt::write_all_buf(&mut inner, &mut self.pending).await?;
+            inner.flush().await?;
+            self.unflushed = false;
+        }
+
+        Ok(())
+    }
+}
 
 /// An abstraction over any type that implements the AsyncProtocolStream trait
 /// to emit events and share a connection across multiple
@@ -42,7 +84,7 @@ pub struct StreamEmitter {
 impl StreamEmitter {
     pub fn new<P: AsyncProtocolStream + 'static>(stream: P::OwnedSplitWriteHalf) -> Self {
         Self {
-            stream: Arc::new(Mutex::new(stream)),
+            stream: Arc::new(Mutex::new(FrameWriter::new(stream))),
         }
     }
 
-- 
2.43.0


From 98508ac63557c3cd77d40579cc093c03798f1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 17/18] fix: keep encrypted streams intact when a write or
 flush is cancelled

---
 src/protocol/encrypted/io_impl.rs | 60 +++++++++++++++++++------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 529ee26..2fdcd30 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -8,7 +8,7 @@ use std::cmp::min;
 use std::io;
 use std::io::Error;
 use std::pin::Pin;
-use std::task::{Context, Poll};
+use std::task::{ready, Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
@@ -88,6 +88,22 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> Unpin for EncryptedWriteStream<T> {}
 
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Completes sending the data that a previous write has accepted
+    fn poll_pending_write(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        if let Some(fut) = self.fut_write.as_mut() {
+            let (result, writer, cipher) = ready!(fut.as_mut().poll(cx));
+            self.inner = Some(writer);
+            self.cipher = Some(cipher);
+            self.fut_write = None;
+
+            return Poll::Ready(result);
+        }
+
+        Poll::Ready(Ok(()))
+    }
+}
+
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWriteStream<T> {
     fn poll_write(
         mut self: Pin<&mut Self>,
@@ -96,36 +112,34 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
     ) -> Poll<Result<usize, Error>> {
         let written_length = buf.len();
 
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
-
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
-
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
-            }
+        // the caller might have given up on these
+        ready!(self.poll_pending_write(cx))?;
+        if self.fut_flush.is_some() {
+            ready!(self.as_mut().poll_flush(cx))?;
         }
+        self.buffer.put(Bytes::from(buf.to_vec()));
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let buffer_len = self.buffer.len();
+            let max_copy = min(u32::MAX as usize, buffer_len);
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
+
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
 
-                Poll::Ready(result.map(|_| written_length))
+            // the data is accepted in any case, the next operation waits until it is sent
+            if let Poll::Ready(Err(e)) = self.poll_pending_write(cx) {
+                return Poll::Ready(Err(e));
             }
-            Poll::Pending => Poll::Pending,
         }
+
+        Poll::Ready(Ok(written_length))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        ready!(self.poll_pending_write(cx))?;
         let buffer_len = self.buffer.len();
 
         if self.fut_flush.is_none() {
-- 
2.43.0


From 46bd017d4db4c8442243f8c2d17374c2223de292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 18/18] fix: continue accepting clients after accepting one
 failed

---
 src/ipc/server.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ipc/server.rs b/src/ipc/server.rs
index ec88fa9..04e8cd1 100644
--- a/src/ipc/server.rs
+++ b/src/ipc/server.rs
@@ -15,6 +15,9 @@ use std::time::Duration;
 use tokio::sync::RwLock;
 use trait_bound_typemap::SendSyncTypeMap;
 
+/// How long to wait before accepting clients again after it failed
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 /// The IPC Server listening for connections.
 /// Use the [IPCBuilder](crate::builder::IPCBuilder) to create a server.
 /// Usually one does not need to use the IPCServer object directly.
@@ -43,7 +46,17 @@ impl IPCServer {
         let data = Arc::new(RwLock::new(self.data));
         tracing::info!("address = {:?}", address);
 
-        while let Ok((stream, remote_address)) = listener.protocol_accept().await {
+        loop {
+            let (stream, remote_address) = match listener.protocol_accept().await {
+                Ok(client) => client,
+                Err(e) => {
+                    // e.g. too many open files. The clients that are connected and those that
+                    // connect later still need the server
+                    tracing::error!("failed to accept a client: {}", e);
+                    tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+            };
             tracing::debug!("remote_address = {:?}", remote_address);
             let handler = Arc::clone(&handler);
             let namespaces = Arc::clone(&namespaces);
@@ -74,7 +87,5 @@ impl IPCServer {
                 handle_connection::<L::Stream>(namespaces, handler, read_half, ctx).await;
             });
         }
-
-        Ok(())
     }
 }
-- 
2.43.0

