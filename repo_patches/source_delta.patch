From 1a5752e2f8067938898289edc2e68d1b7c586378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 01/23] fix: reject truncated and overflowing variable-length
 integers

---
 spop/src/data/varint.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..a5f9853 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -26,16 +26,19 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
             let mut r = 4;
 
             while buf.has_remaining() {
-                let b = buf.get_u8();
-                n += (b as u64) << r;
+                let b = buf.get_u8() as u64;
+                if r >= u64::BITS || (b << r) >> r != b {
+                    return None;
+                }
+                n = n.checked_add(b << r)?;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
 
-            Some(n)
+            None
         }
     }
 }
-- 
2.43.0


From ab181e436eb7e1660ed776f3c6a6f326577022b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 02/23] fix: reject frames with malformed or truncated content
 instead of dropping its tail

---
 spop/src/data/buf.rs     | 10 ++++------
 spop/src/frame/decode.rs | 29 ++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..5097a96 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -19,7 +19,8 @@ pub trait BufExt {
     fn string(&mut self) -> Option<String>;
 
     /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Key/value items up to the end of the buffer, `None` for a malformed one.
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>>;
 }
 
 impl<T> BufExt for T
@@ -40,13 +41,10 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>> {
         iter::from_fn(move || {
             if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
-
-                Some((name, value))
+                Some(self.string().and_then(|name| Some((name, self.typed()?))))
             } else {
                 None
             }
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..299bf47 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,9 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +111,14 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,10 +126,10 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            message(&mut buf)
+            Some(message(&mut buf))
         } else {
             None
         }
@@ -135,15 +139,18 @@ fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf
+        .kv_list()
+        .take(nb as usize)
+        .collect::<Option<Vec<_>>>()?;
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
+fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Action>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            action(&mut buf)
+            Some(action(&mut buf))
         } else {
             None
         }
-- 
2.43.0


From 1709d909a99e6343269b86c5c187ce2d8033f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 03/23] fix: accept hellos with no or unknown capabilities

---
 spop/src/frame/decode.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 299bf47..8f659fb 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -221,10 +221,8 @@ impl KVList {
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
-        s.split(',')
-            .map(|s| s.trim().parse())
-            .collect::<StdResult<Vec<_>, _>>()
-            .map_err(|_| Invalid)
+        // the list may be empty, and unknown capabilities are ignored
+        Ok(s.split(',').filter_map(|s| s.trim().parse().ok()).collect())
     }
 
     pub fn status_code(&mut self) -> u32 {
-- 
2.43.0


From 65ea06d931e0d15efc96db9f40ec51aac014a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 04/23] fix: do not wrap a max-frame-size beyond 32 bits

---
 spop/src/frame/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 8f659fb..658b08f 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -214,7 +214,7 @@ impl KVList {
 
     pub fn max_frame_size(&mut self) -> Result<u32> {
         self.uint(kv::MAX_FRAME_SIZE_KEY)
-            .map(|n| n as u32)
+            .map(|n| n.min(u32::MAX as u64) as u32)
             .ok_or(NoFrameSize)
     }
 
-- 
2.43.0


From d3692e331f137a90f264539ee2aa972cf8c55fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 05/23] fix: flush a frame after writing it

---
 spop/src/frame/framer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..155854c 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -50,6 +50,7 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From 75bc9c58fbd9e4eaeb1c738ff07f8a6aabd5d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 06/23] fix: refuse to write a frame above the maximum frame
 size

---
 spop/src/frame/framer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 155854c..17ff34c 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -44,6 +44,9 @@ impl Framer {
         W: AsyncWrite + Sized,
     {
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
 
         trace!(buf=%HexView::new(&buf[4..]));
 
-- 
2.43.0


From 8e8dc276575a7f2fea33e93813cff33639a8ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 07/23] fix: refuse to write a message with more than 255
 arguments

---
 spop/src/frame/framer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 17ff34c..75e8897 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -43,6 +43,13 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
+        if let Frame::HaproxyNotify(ref notify) = frame {
+            // the number of arguments is written as one byte
+            if notify.messages.iter().any(|m| m.args.len() > u8::MAX as usize) {
+                return Err(Invalid);
+            }
+        }
+
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
         if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
             return Err(TooBig);
-- 
2.43.0


From 9c54e57336a964c59d36d2f18c71fc57b83854ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 08/23] fix: wake a task that waits for jobs or messages

---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..1327fc9 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|job| job.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From 2bac0296e99e8b032ec9f9b87bfb01663491f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 09/23] fix: do not keep a notification whose job could not be
 handed over

---
 spoa/src/runtime/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..1104e0f 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -34,14 +34,14 @@ impl Dispatcher {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
 
-                    if notify.fragmented {
-                        e.insert(sender.clone());
-                    }
-
                     let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
 
                     self.processing.send((acker, receiver))?;
 
+                    if notify.fragmented {
+                        e.insert(sender.clone());
+                    }
+
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From 0fb585e282d32a371044b06bd8a8a75bb69a905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 10/23] fix: report a hello without a common version as
 unsupported version

---
 spoa/src/state/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoa/src/state/handshake.rs b/spoa/src/state/handshake.rs
index 6b71b81..76dd821 100644
--- a/spoa/src/state/handshake.rs
+++ b/spoa/src/state/handshake.rs
@@ -5,7 +5,7 @@ use tracing::instrument;
 
 use crate::{
     error::Result,
-    spop::{AgentHello, Capability, Error::NoVersion, HaproxyHello, Version},
+    spop::{AgentHello, Capability, Error::BadVersion, HaproxyHello, Version},
 };
 
 #[instrument(ret, err, level = "trace")]
@@ -23,7 +23,7 @@ pub fn negotiate(
         .into_iter()
         .rev()
         .find(|version| supported_versions.iter().rev().any(|v| v == version))
-        .ok_or(NoVersion)?;
+        .ok_or(BadVersion)?;
     let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);
     let capabilities = hello
         .capabilities
-- 
2.43.0


From 00b72d6339da71a0f40a2f7dc817d3564c59c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 11/23] fix: refuse fragments on a connection that did not
 agree on fragmentation

---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..7347bb1 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation not negotiated");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From a90bca553faced36212da75790df1b2dda69af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 12/23] fix: take up no more frames once a connection is told
 to shut down

---
 spoa/src/conn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..2a76849 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -69,6 +69,8 @@ where
             }
 
             select! {
+                biased;
+
                 _ = self.tok.cancelled() => {
                     break;
                 }
-- 
2.43.0


From a5b46a975c959f3a7bf62a9c4217cc479bb69543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 13/23] fix: do not truncate a configured frame size beyond 32
 bits

---
 spoa/src/state/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..bd68f62 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,7 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
-- 
2.43.0


From 7a9ccc1f427c80653645f772c39855c31b947b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 14/23] fix: do not reserve the maximum frame size for every
 frame

---
 spop/src/frame/framer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 75e8897..4f664bb 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -29,7 +29,7 @@ impl Framer {
 
         let len = r.read_u32().await.map_err(|_| Io)? as usize;
         if len <= self.max_frame_size {
-            let mut buf = read_frame(r, self.max_frame_size, len).await?;
+            let mut buf = read_frame(r, len).await?;
 
             trace!(buf=%HexView::new(&buf));
 
@@ -50,7 +50,7 @@ impl Framer {
             }
         }
 
-        let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        let buf = write_frame(BytesMut::new(), frame);
         if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
             return Err(TooBig);
         }
@@ -66,12 +66,11 @@ impl Framer {
     }
 }
 
-async fn read_frame<R>(mut r: Pin<&mut R>, max_frame_size: usize, len: usize) -> Result<Bytes>
+async fn read_frame<R>(mut r: Pin<&mut R>, len: usize) -> Result<Bytes>
 where
     R: AsyncRead + Sized,
 {
-    let mut buf = BytesMut::with_capacity(max_frame_size);
-    buf.resize(len, 0);
+    let mut buf = BytesMut::zeroed(len);
 
     r.read_exact(&mut buf).await.map_err(|_| Io)?;
 
-- 
2.43.0


From 56cee7aa3911ebdd85c89f144a4f265b387b65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 15/23] fix: tell the peer about a frame that is too large or
 cannot be decoded

---
 spoa/src/conn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 2a76849..2f3be35 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -76,7 +76,13 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let handled = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        Err(err @ Status::Io) => return Err(err.into()),
+                        Err(err) => Err(err.into()),
+                    };
+
+                    match handled {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
                                 self.codec.write_frame(frame).await?;
-- 
2.43.0


From e6cf53b570ae82a240432039080b940184b64090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 16/23] fix: keep to the agreed frame size and disconnect when
 a reply does not fit

---
 spoa/src/conn.rs        | 25 +++++++++++++++++++++++--
 spop/src/frame/codec.rs |  4 ++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 2f3be35..be8ecc1 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -51,6 +51,27 @@ where
         self.codec.write_frame(disconnect).await?;
         Ok(())
     }
+
+    /// Sends a frame, or a disconnect frame when it does not fit in the agreed size.
+    async fn send(&mut self, frame: Frame) -> Result<()> {
+        let agreed = match frame {
+            Frame::AgentHello(ref hello) => Some(hello.max_frame_size as usize),
+            _ => None,
+        };
+
+        if let Err(err) = self.codec.write_frame(frame).await {
+            if let Status::TooBig = err {
+                self.disconnect(err, err.to_string()).await?;
+            }
+            return Err(err.into());
+        }
+
+        if let Some(max_frame_size) = agreed {
+            self.codec.set_framer(Framer::new(max_frame_size));
+        }
+
+        Ok(())
+    }
 }
 
 impl<IO, S, T> Connection<IO, S, T>
@@ -85,13 +106,13 @@ where
                     match handled {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                self.send(frame).await?;
                             }
                             self.state = next;
                         }
                         Err(err) => {
                             let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
+                            self.send(frame).await?;
                             self.tok.cancel();
                             break;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..e33504a 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,10 @@ where
         Self { stream, framer }
     }
 
+    pub fn set_framer(&mut self, framer: Framer) {
+        self.framer = framer;
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
-- 
2.43.0


From bd814ee9ff486b31b1ccf426167218156aa2f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 17/23] fix: call the service and its maker only when they are
 ready

---
 spoa/src/runtime/runtime.rs | 4 ++++
 spoa/src/state/process.rs   | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..2eb0ffe 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,9 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")?;
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index 7347bb1..0daabe1 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,12 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let process = async {
+                        poll_fn(|cx| self.service.poll_ready(cx)).await?;
+                        self.service.call(msgs).await
+                    };
+
+                    match timeout(self.runtime.max_process_time, process).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From 0003821dbf00e0fc6b4ebdf4f11bcef116d1759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 18/23] fix: do not hold the service maker while a service is
 being made

---
 spoa/src/runtime/runtime.rs | 9 ++++-----
 spoa/src/state/connect.rs   | 4 +++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 2eb0ffe..294db33 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -18,7 +18,8 @@ pub struct ServiceMaker<S, T> {
 }
 
 impl<S, T> ServiceMaker<S, T> {
-    pub async fn make<REQ>(&mut self) -> Result<S::Service>
+    /// Starts to make a service once the maker is ready.
+    pub async fn make<REQ>(&mut self) -> Result<S::Future>
     where
         S: MakeService<T, REQ>,
         S::MakeError: StdError + Send + Sync + 'static,
@@ -27,10 +28,8 @@ impl<S, T> ServiceMaker<S, T> {
         poll_fn(|cx| self.maker.poll_ready(cx))
             .await
             .context("make service")?;
-        self.maker
-            .make_service(self.state.clone())
-            .await
-            .context("make service")
+
+        Ok(self.maker.make_service(self.state.clone()))
     }
 }
 
diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index bd68f62..cc326bb 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -62,7 +62,9 @@ where
         let next = if is_healthcheck {
             State::Disconnecting
         } else {
-            let service = runtime.service_maker.write().await.make().await?;
+            // the other connections use the maker while this service is being made
+            let making = runtime.service_maker.write().await.make().await?;
+            let service = making.await.context("make service")?;
 
             Processing::new(
                 runtime,
-- 
2.43.0


From 044709e294193a8c4aa57f1c8586809eef570d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 19/23] fix: read the header block's lengths as variable-length
 integers and reject a cut block

---
 spoa/src/req.rs | 31 ++++++++++++++++---------------
 spop/src/lib.rs |  2 +-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..c0d4622 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -1,25 +1,18 @@
-use std::iter;
-
-use bytes::Buf;
+use bytes::{Buf, Bytes};
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{
+    error::Result,
+    spop::{varint, Error as Status},
+};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
-    let mut strs = iter::from_fn(|| {
-        if b.has_remaining() {
-            let len = b.get_u8() as usize;
-            if b.remaining() >= len {
-                return Some(b.copy_to_bytes(len));
-            }
-        }
-
-        None
-    });
+    while b.has_remaining() {
+        let k = get_bytes(&mut b)?;
+        let v = get_bytes(&mut b)?;
 
-    while let Some((k, v)) = strs.next().zip(strs.next()) {
         if k.is_empty() && v.is_empty() {
             break;
         }
@@ -29,3 +22,11 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
 
     Ok(hdrs)
 }
+
+fn get_bytes<T: Buf>(mut b: T) -> Result<Bytes> {
+    let len = varint::get(&mut b)
+        .filter(|&n| n <= b.remaining() as u64)
+        .ok_or(Status::Invalid)?;
+
+    Ok(b.copy_to_bytes(len as usize))
+}
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From d99e0bed9f939631d12afbad3aeb6f6c67592f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 20/23] fix: keep repeated headers and refuse too many

---
 spoa/src/req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index c0d4622..8d556a7 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -17,7 +17,8 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
-- 
2.43.0


From 658acf1a91a7fc9ed5c44bd80f3ca7964a766bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 21/23] fix: go on accepting connections after an accept has
 failed

---
 spoa/src/agent.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..39dbdd1 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -2,11 +2,13 @@ use std::error::Error as StdError;
 use std::fmt;
 use std::net::TcpListener as StdTcpListener;
 use std::sync::Arc;
+use std::time::Duration;
 
 use tokio::{
     io::{AsyncRead, AsyncWrite},
     net::TcpListener,
     select,
+    time::sleep,
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
@@ -18,6 +20,9 @@ use crate::{
     Connection, Runtime,
 };
 
+/// How long to wait after a connection could not be accepted.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 #[derive(Debug)]
 pub struct Agent<S, T> {
     runtime: Arc<Runtime<S, T>>,
@@ -65,7 +70,18 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                accepted = self.listener.accept() => {
+                    let (stream, peer) = match accepted {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            debug!(%err, "failed to accept a connection");
+
+                            // it may fail again until, e.g., a file descriptor is released
+                            sleep(ACCEPT_RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
+
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From c9ce838969c979510f5f084c12bfc77f769a1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 22/23] fix: wait for the connections at the end of every serve

---
 spoa/src/agent.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 39dbdd1..04af64b 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -93,15 +93,17 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
             );
-
-            self.shutdown.tracker.wait().await;
         }
 
+        self.shutdown.tracker.wait().await;
+
         Ok(())
     }
 }
-- 
2.43.0


From 8bb0b84f0f1447bd28e2c46adc25822fcfec99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 23/23] fix: make the agent's listener non-blocking

A listener from std blocks by default, and registering a blocking socket
panics in debug builds and blocks the thread in others.
---
 spoa/src/agent.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 04af64b..a2dacc1 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -32,6 +32,8 @@ pub struct Agent<S, T> {
 
 impl<S, T> Agent<S, T> {
     pub fn new(runtime: Arc<Runtime<S, T>>, listener: StdTcpListener) -> Result<Self> {
+        listener.set_nonblocking(true)?;
+
         let listener = TcpListener::from_std(listener)?;
 
         Ok(Agent {
-- 
2.43.0

