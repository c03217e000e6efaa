From 7ed291160cf558f92c83a20834c2c395285c87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 01/16] fix: end all streams when the connection is closed
 locally

---
 yamux/src/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..270eda6 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -380,7 +380,10 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        // No stream makes progress from here on, don't leave their tasks waiting.
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From 8a3314798d2f4aaaf2ed92a6fbd4873957b0c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 02/16] fix: report write errors of the socket instead of
 writing on

---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 270eda6..1e26f0d 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -403,7 +403,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 19f67f297f8226fb39a93c72899662e3af6d9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 03/16] fix: announce a stream that is closed before anything
 was written

---
 yamux/src/connection/stream.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..173aaab 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -415,14 +415,17 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
+        log::trace!("{}/{}: close", self.conn, self.id);
+        let cmd = if self.flag == Flag::Syn {
+            // Nothing was sent yet, the remote learns about the stream from this very frame.
+            let mut frame = Frame::close_stream(self.id, false).left();
+            self.add_flag(frame.header_mut());
+            StreamCommand::SendFrame(frame)
         } else {
-            false
+            let ack = self.flag == Flag::Ack;
+            self.flag = Flag::None;
+            StreamCommand::CloseStream { ack }
         };
-        log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From 4ac84b9cc2349c24d20be78d177d37b1ade41e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 04/16] fix: let reading and writing halves of a stream wait
 independently

---
 yamux/src/connection/stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 173aaab..479d655 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -96,6 +96,9 @@ pub struct Stream {
     conn: connection::Id,
     config: Arc<Config>,
     sender: mpsc::Sender<StreamCommand>,
+    /// Used for window updates only. These are sent by the reading half, which must not replace the
+    /// waker of the writing half.
+    window_update_sender: mpsc::Sender<StreamCommand>,
     flag: Flag,
     shared: Arc<Mutex<Shared>>,
 }
@@ -129,6 +132,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Ack,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -153,6 +157,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Syn,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -219,7 +224,7 @@ impl Stream {
         }
 
         ready!(self
-            .sender
+            .window_update_sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
 
@@ -230,7 +235,7 @@ impl Stream {
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
         let cmd = StreamCommand::SendFrame(frame);
-        self.sender
+        self.window_update_sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
 
-- 
2.43.0


From 7da9d5a7dff7fd1509153bd69ef621280fc8b64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 05/16] fix: wake the connection task for every new stream

---
 yamux/src/connection.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 1e26f0d..700e333 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -294,7 +294,8 @@ struct Active<T> {
 
     streams: IntMap<StreamId, Arc<Mutex<stream::Shared>>>,
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
-    no_streams_waker: Option<Waker>,
+    /// Wakes the task polling `stream_receivers`, which does not notice streams pushed to it later.
+    new_stream_waker: Option<Waker>,
 
     pending_read_frame: Option<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
@@ -366,7 +367,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             socket,
             streams: IntMap::default(),
             stream_receivers: SelectAll::default(),
-            no_streams_waker: None,
+            new_stream_waker: None,
             next_id: match mode {
                 Mode::Client => 1,
                 Mode::Server => 2,
@@ -454,10 +455,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                         };
                         continue;
                     }
-                    Poll::Ready(None) => {
-                        self.no_streams_waker = Some(cx.waker().clone());
+                    Poll::Ready(None) | Poll::Pending => {
+                        self.new_stream_waker = Some(cx.waker().clone());
                     }
-                    Poll::Pending => {}
                 }
             }
 
@@ -820,7 +820,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
         let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
         self.stream_receivers.push(TaggedStream::new(id, receiver));
-        if let Some(waker) = self.no_streams_waker.take() {
+        if let Some(waker) = self.new_stream_waker.take() {
             waker.wake();
         }
 
@@ -840,7 +840,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
         let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
         self.stream_receivers.push(TaggedStream::new(id, receiver));
-        if let Some(waker) = self.no_streams_waker.take() {
+        if let Some(waker) = self.new_stream_waker.take() {
             waker.wake();
         }
 
-- 
2.43.0


From b0ee4012d861d4ba55b6a3ed80ca0b7b61856fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 06/16] fix: wake a waiting open request whenever the ACK
 backlog shrinks

---
 yamux/src/connection.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 700e333..99e470a 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -488,6 +488,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
+            // The ACK backlog shrinks not only by ACKs but also when streams are closed, reset or dropped.
+            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {
+                self.wake_new_outbound_stream();
+            }
+
             // If we make it this far, at least one of the above must have registered a waker.
             return Poll::Pending;
         }
@@ -899,8 +904,16 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 }
 
 impl<T> Active<T> {
+    /// Wake the task waiting to open a new outbound stream.
+    fn wake_new_outbound_stream(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
+    }
+
     /// Close and drop all `Stream`s and wake any pending `Waker`s.
     fn drop_all_streams(&mut self) {
+        self.wake_new_outbound_stream();
         for (id, s) in self.streams.drain() {
             let mut shared = s.lock();
             shared.update_state(self.id, id, State::Closed);
-- 
2.43.0


From 8894ef79c87ad52aba588a0ae4b393389be73b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 07/16] fix: do not let the remote open a stream with the
 session id

---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 99e470a..1fc2594 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -897,7 +897,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From c5776bf19e816d934078ac0fc88db96f83dd6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 08/16] fix: ignore data the remote sends after closing a
 stream

---
 yamux/src/connection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 1fc2594..61772d7 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -678,11 +678,15 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 return Action::Terminate(Frame::protocol_error());
             }
 
+            // Nothing may follow the remote's FIN or RST.
+            if shared.state().can_read() {
+                shared.buffer.push(frame.into_body());
+            }
+
             if is_finish {
                 shared.update_state(self.id, stream_id, State::RecvClosed);
             }
 
-            shared.buffer.push(frame.into_body());
             if let Some(w) = shared.reader.take() {
                 w.wake()
             }
-- 
2.43.0


From 0257cd4aeb19b37d674c21073e978b36569dcc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 09/16] fix: send FIN only once

---
 yamux/src/connection/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 479d655..37515bf 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -413,7 +413,7 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
+        if !self.shared().state().can_write() {
             return Poll::Ready(Ok(()));
         }
         ready!(self
-- 
2.43.0


From 75ea448e7ebc859d6457d23169b237d45d8cf714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 10/16] fix: a stream acknowledged by a window update is not
 pending ACK

---
 yamux/src/connection/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 37515bf..d69b9dd 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -234,6 +234,10 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
         let cmd = StreamCommand::SendFrame(frame);
         self.window_update_sender
             .start_send(cmd)
-- 
2.43.0


From 4f2719b696757983f74b372b2126a8941027800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 11/16] fix: keep reading while closing cannot write

Both ends of a connection may be writing with the transport full in both
directions. When one of them starts to close and stops reading, neither can
make progress. Read and discard frames while our own writes are pending.
---
 yamux/src/connection/closing.rs | 42 ++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 062d789..80ce290 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -5,7 +5,7 @@ use crate::Result;
 use crate::{frame, StreamId};
 use futures::channel::mpsc;
 use futures::stream::{Fuse, SelectAll};
-use futures::{ready, AsyncRead, AsyncWrite, SinkExt, StreamExt};
+use futures::{AsyncRead, AsyncWrite, SinkExt, StreamExt};
 use std::collections::VecDeque;
 use std::future::Future;
 use std::pin::Pin;
@@ -18,6 +18,8 @@ pub struct Closing<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     pending_frames: VecDeque<Frame<()>>,
     socket: Fuse<frame::Io<T>>,
+    /// The remote has closed its side of the socket.
+    read_done: bool,
 }
 
 impl<T> Closing<T>
@@ -34,6 +36,30 @@ where
             stream_receivers,
             pending_frames,
             socket,
+            read_done: false,
+        }
+    }
+
+    /// Read and discard a frame from the remote.
+    ///
+    /// The remote may be unable to receive what we have left to send until it could send what it
+    /// has itself, so we need to keep reading for as long as our writes make no progress.
+    ///
+    /// Returns whether it makes sense to try writing again.
+    fn poll_discard(&mut self, cx: &mut Context<'_>) -> Result<bool> {
+        if self.read_done {
+            return Ok(false);
+        }
+        match self.socket.poll_next_unpin(cx) {
+            Poll::Ready(Some(frame)) => {
+                frame?;
+                Ok(true)
+            }
+            Poll::Ready(None) => {
+                self.read_done = true;
+                Ok(false)
+            }
+            Poll::Pending => Ok(false),
         }
     }
 }
@@ -75,7 +101,12 @@ where
                     }
                 }
                 State::FlushingPendingFrames => {
-                    ready!(this.socket.poll_ready_unpin(cx))?;
+                    if this.socket.poll_ready_unpin(cx)?.is_pending() {
+                        if this.poll_discard(cx)? {
+                            continue;
+                        }
+                        return Poll::Pending;
+                    }
 
                     match this.pending_frames.pop_front() {
                         Some(frame) => this.socket.start_send_unpin(frame)?,
@@ -83,7 +114,12 @@ where
                     }
                 }
                 State::ClosingSocket => {
-                    ready!(this.socket.poll_close_unpin(cx))?;
+                    if this.socket.poll_close_unpin(cx)?.is_pending() {
+                        if this.poll_discard(cx)? {
+                            continue;
+                        }
+                        return Poll::Pending;
+                    }
 
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0


From 49eaeaa4d6d3cbbc5fa68a2fcbce4bba4217d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 12/16] fix: keep reading while a pong is waiting to be written

With a pong waiting on either end and the transport full in both directions,
neither end would read and the connection was stuck for good.
---
 yamux/src/connection.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 61772d7..c054cf1 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -42,6 +42,9 @@ pub use stream::{Packet, State, Stream};
 /// Next connection identifier, used for debug logging.
 static NEXT_ID: AtomicU32 = AtomicU32::new(1);
 
+/// Number of frames waiting to be sent in response to received ones before we stop reading.
+const MAX_PENDING_READ_FRAMES: usize = 2;
+
 /// How the connection is used.
 #[derive(Copy, Clone, Debug, Hash, PartialEq, Eq)]
 pub enum Mode {
@@ -297,7 +300,8 @@ struct Active<T> {
     /// Wakes the task polling `stream_receivers`, which does not notice streams pushed to it later.
     new_stream_waker: Option<Waker>,
 
-    pending_read_frame: Option<Frame<()>>,
+    /// `Pong` and `GoAway` frames to send in response to frames read from the socket.
+    pending_read_frames: VecDeque<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
     new_outbound_stream_waker: Option<Waker>,
 
@@ -372,7 +376,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
-            pending_read_frame: None,
+            pending_read_frames: VecDeque::new(),
             pending_write_frame: None,
             new_outbound_stream_waker: None,
             rtt: rtt::Rtt::new(),
@@ -386,7 +390,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         self.drop_all_streams();
 
         let pending_frames = self
-            .pending_read_frame
+            .pending_read_frames
             .into_iter()
             .chain(self.pending_write_frame)
             .collect::<VecDeque<Frame<()>>>();
@@ -416,8 +420,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 // Privilege pending `Pong` and `GoAway` `Frame`s
                 // over `Frame`s from the receivers.
                 if let Some(frame) = self
-                    .pending_read_frame
-                    .take()
+                    .pending_read_frames
+                    .pop_front()
                     .or_else(|| self.pending_write_frame.take())
                 {
                     self.socket.start_send_unpin(frame)?;
@@ -461,7 +465,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
-            if self.pending_read_frame.is_none() {
+            // A single response waiting to be written must not keep us from reading: the remote may
+            // be in the same situation, unable to read before it could write.
+            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {
                 match self.socket.poll_next_unpin(cx) {
                     Poll::Ready(Some(frame)) => {
                         match self.on_frame(frame?)? {
@@ -472,11 +478,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             }
                             Action::Ping(f) => {
                                 log::trace!("{}/{}: pong", self.id, f.header().stream_id());
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                             Action::Terminate(f) => {
                                 log::trace!("{}: sending term", self.id);
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                         }
                         continue;
-- 
2.43.0


From 82c008819a8416c7551eaee4c1d91ab17ee569c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 13/16] verification hook: set the next outbound stream id (cfg
 yamux_verif)

---
 yamux/src/connection.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index c054cf1..56eb5cd 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -250,6 +250,21 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
     }
 }
 
+/// Access for verification, see `--cfg yamux_verif`.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(yamux_verif)]
+    impl<T> super::Connection<T> {
+        /// Set the identifier of the next outbound stream (while the connection is active).
+        #[doc(hidden)]
+        pub fn verif_set_next_stream_id(&mut self, next: u32) {
+            if let super::ConnectionState::Active(active) = &mut self.inner {
+                active.next_id = next;
+            }
+        }
+    }
+}
+
 impl<T> Drop for Connection<T> {
     fn drop(&mut self) {
         match &mut self.inner {
-- 
2.43.0


From c762dea782dfb4e4fcf9db0ea97c04022f39b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 14/16] fix: do not overflow when computing the receive window
 of all streams

With the limit disabled (or large), `set_max_num_streams` could overflow
`max_num_streams * DEFAULT_CREDIT`: a panic in debug builds, and in release builds
a limit below the minimum that was accepted, or windows that hardly grow although
no limit is configured.
---
 yamux/src/connection/stream/flow_control.rs | 13 ++++++-------
 yamux/src/lib.rs                            | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/yamux/src/connection/stream/flow_control.rs b/yamux/src/connection/stream/flow_control.rs
index a21c89d..ba7ab54 100644
--- a/yamux/src/connection/stream/flow_control.rs
+++ b/yamux/src/connection/stream/flow_control.rs
@@ -91,14 +91,14 @@ impl FlowController {
 
             // But one has to consider the configured connection limit:
             let new_max = {
-                let connection_limit: usize = self.max_receive_window as usize +
-                    // the overall configured conneciton limit
-                    (self.config.max_connection_receive_window.unwrap_or(usize::MAX)
+                let connection_limit: usize = (self.max_receive_window as usize).saturating_add(
+                    // the overall configured connection limit
                     // minus the minimum amount of window guaranteed to each stream
-                    - self.config.max_num_streams * DEFAULT_CREDIT as usize
+                    self.config.spare_receive_window().unwrap_or(0)
                     // minus the amount of bytes beyond the minimum amount (`DEFAULT_CREDIT`)
                     // already allocated by this and other streams on the connection.
-                    - *accumulated_max_stream_windows);
+                    - *accumulated_max_stream_windows,
+                );
 
                 cmp::min(new_max, connection_limit.try_into().unwrap_or(u32::MAX))
             };
@@ -148,8 +148,7 @@ impl FlowController {
         );
         assert!(
             (self.max_receive_window - DEFAULT_CREDIT) as usize
-                <= config.max_connection_receive_window.unwrap_or(usize::MAX)
-                    - config.max_num_streams * DEFAULT_CREDIT as usize,
+                <= config.spare_receive_window().unwrap_or(0),
             "The maximum never exceeds its maximum portion of the configured connection limit."
         );
         assert!(
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 0e5c65e..d22f81c 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -127,8 +127,7 @@ impl Config {
         self.max_connection_receive_window = n;
 
         assert!(
-            self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+            self.spare_receive_window().is_some(),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -141,8 +140,7 @@ impl Config {
         self.max_num_streams = n;
 
         assert!(
-            self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+            self.spare_receive_window().is_some(),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -163,6 +161,17 @@ impl Config {
         self.split_send_size = n;
         self
     }
+
+    /// The receive window the streams of a connection may have altogether, beyond the default
+    /// window of each. `None` if the limit does not even allow for the latter.
+    fn spare_receive_window(&self) -> Option<usize> {
+        match self.max_connection_receive_window {
+            None => Some(usize::MAX),
+            Some(limit) => {
+                limit.checked_sub(self.max_num_streams.checked_mul(DEFAULT_CREDIT as usize)?)
+            }
+        }
+    }
 }
 
 // Check that we can safely cast a `usize` to a `u64`.
-- 
2.43.0


From 15ffd981381a54958bda0ad7b899df18d32461eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 15/16] fix: read what has been received when the connection is
 closed concurrently

A read sends a window update where one is due. If another task closes the
connection between the check of the stream's state and the use of its sender,
this failed the read with an error although received data could be read.
---
 yamux/src/connection/stream.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index d69b9dd..660cfc3 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -218,18 +218,20 @@ impl Stream {
 
     /// Send new credit to the sending side via a window update message if
     /// permitted.
-    fn send_window_update(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
+    ///
+    /// The connection may be closed at any time by the task that owns it. Nobody needs our credit
+    /// then, and what has been received already can still be read.
+    fn send_window_update(&mut self, cx: &mut Context) -> Poll<()> {
         if !self.shared.lock().state.can_read() {
-            return Poll::Ready(Ok(()));
+            return Poll::Ready(());
         }
 
-        ready!(self
-            .window_update_sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        if ready!(self.window_update_sender.poll_ready(cx)).is_err() {
+            return Poll::Ready(());
+        }
 
         let Some(credit) = self.shared.lock().next_window_update() else {
-            return Poll::Ready(Ok(()));
+            return Poll::Ready(());
         };
 
         let mut frame = Frame::window_update(self.id, credit).right();
@@ -239,11 +241,9 @@ impl Stream {
                 .update_state(self.conn, self.id, State::Open { acknowledged: true });
         }
         let cmd = StreamCommand::SendFrame(frame);
-        self.window_update_sender
-            .start_send(cmd)
-            .map_err(|_| self.write_zero_err())?;
+        let _ = self.window_update_sender.start_send(cmd);
 
-        Poll::Ready(Ok(()))
+        Poll::Ready(())
     }
 }
 
@@ -266,8 +266,7 @@ impl futures::stream::Stream for Stream {
         }
 
         match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
+            Poll::Ready(()) => {}
             // Continue reading buffered data even though sending a window update blocked.
             Poll::Pending => {}
         }
@@ -319,8 +318,7 @@ impl AsyncRead for Stream {
         }
 
         match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+            Poll::Ready(()) => {}
             // Continue reading buffered data even though sending a window update blocked.
             Poll::Pending => {}
         }
-- 
2.43.0


From 3f05d4913db6747605073b42d9bd0b0872c03d21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 16/16] fix: send all that streams have written before closing
 the connection

The receivers of the streams are polled by `SelectAll` only once they have
woken it, so `Pending` did not mean that nothing follows: a stream in another
thread may be in the middle of sending a frame which it reports as written.
Poll all of the (closed) receivers until they end.
---
 yamux/src/connection/closing.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 80ce290..dd27b92 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -8,6 +8,7 @@ use futures::stream::{Fuse, SelectAll};
 use futures::{AsyncRead, AsyncWrite, SinkExt, StreamExt};
 use std::collections::VecDeque;
 use std::future::Future;
+use std::mem;
 use std::pin::Pin;
 use std::task::{Context, Poll};
 
@@ -79,6 +80,10 @@ where
                     for stream in this.stream_receivers.iter_mut() {
                         stream.inner_mut().close();
                     }
+                    // Have all of them polled again, in the same order, as closing wakes nobody.
+                    let streams: Vec<_> =
+                        mem::take(&mut this.stream_receivers).into_iter().collect();
+                    this.stream_receivers = streams.into_iter().rev().collect();
                     this.state = State::DrainingStreamReceiver;
                 }
 
@@ -92,7 +97,9 @@ where
                                 .push_back(Frame::close_stream(id, ack).into());
                         }
                         Poll::Ready(Some((_, None))) => {}
-                        Poll::Pending | Poll::Ready(None) => {
+                        // A stream in another thread is in the middle of sending us a frame.
+                        Poll::Pending => return Poll::Pending,
+                        Poll::Ready(None) => {
                             // No more frames from streams, append `Term` frame and flush them all.
                             this.pending_frames.push_back(Frame::term().into());
                             this.state = State::FlushingPendingFrames;
-- 
2.43.0

