From 0232096d2b74c0191ef6363fad2e0ebf674c5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 01/11] fix: client ID suffixes for index u32::MAX

`num + 1` overflowed for the largest possible index.
---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From 88e90a9e69596de5ac11e1e2c8059c9d66502403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 02/11] fix: reject non-canonical integer arguments

`+5`, `-0` and `-007` were decoded although they are not in canonical form.
---
 src/common/core/decode_argument.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..7193aa1 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -77,6 +77,10 @@ macro_rules! impl_DecodeArgument_for_integer {
                 if arg != b"0" && arg[0] == b'0' {
                     return None;
                 }
+                //str::parse() would also accept plus signs, "-0" and leading zeroes after a minus
+                if arg[0] == b'+' || arg.starts_with(b"-0") {
+                    return None;
+                }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
             }
-- 
2.43.0


From 242018e02942feaffcbd0035b7da33109c9440f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 03/11] fix: size_hint of MessageIterator

ExactSizeIterator requires an exact size_hint; adapters panic without it.
---
 src/common/core/msg/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 641fcd7..1d366c4 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -346,6 +346,10 @@ impl<'s> Iterator for MessageIterator<'s> {
     fn next(&mut self) -> Option<Self::Item> {
         self.next_or_error().unwrap_or(None)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_items, Some(self.remaining_items))
+    }
 }
 
 impl<'s> core::iter::ExactSizeIterator for MessageIterator<'s> {
-- 
2.43.0


From 408d3a3c1da1ea9a9fd9bc8c98d854b7b1e14f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 04/11] fix: do not recurse for each message or error in the
 receive buffer

A large amount of buffered garbage overflowed the stack.
---
 src/server/connection.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..d47e5e7 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,10 +171,12 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //handling a message (or error) may change into a different state, so the state needs to be
+        //disambiguated again for each message
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
-            match self.state {
+            let progress = match self.state {
                 Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
                 Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
                 Stdin(_) => {
@@ -186,17 +188,27 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     let n = server::Notification::IncomingBytesDiscarded(buf.contents());
                     self.dispatch.application().notify(&n);
                     buf.discard(buf.contents().len());
+                    false
                 }
                 Stdout(ref mut connector) => {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
+                    false
                 }
-                Teardown => {}
+                Teardown => false,
+            };
+            if !progress {
+                return;
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Returns whether something was removed from `buf` (otherwise we need to wait for more input).
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +246,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -261,8 +273,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        true
     }
 }
-- 
2.43.0


From 8d2de6005df55d8ef0697c38c76fb86c3c134945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 05/11] fix: do not panic when a message is too long to be sent

Clients can provoke this with an overlong message type in an unknown message.
The panic poisoned the dispatch's locks and thus killed all connections.
---
 src/server/tokio/dispatch.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..c77f023 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -351,8 +351,15 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legimitately too long; this can be provoked by clients (e.g. by sending an overlong
+            //message type that we have to answer with `have` or `nope`), so do not panic here
+            if send_buffer.fill_if_ok(|buf| msg.encode(buf)).is_err() {
+                std::mem::drop(tx); //release the write lock
+                let n = server::Notification::ConnectionIOError("message too long".into());
+                self.0.app.notify(&n);
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From d8dfd2b1d034f4d86ced033997bb9125f0c14297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 06/11] fix: core1.client-end must unregister the clients

Otherwise their IDs stay in use and unredeemed secrets remain valid forever.
---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..0b5e147 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //forget all registrations at or below this client ID
+                let d = conn.dispatch();
+                d.application()
+                    .unregister_clients(ClientSelector::AtOrBelow(msg.client_id));
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From 91deb61a1c0c76d79bc5cc2985aed084b623c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 07/11] fix: do not reply if the handler left message mode

enqueue_message() panics if the handler rejects a message after changing the
connection state.
---
 src/server/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index d47e5e7..b8400db 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -222,6 +222,8 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     (Err(_), HandlerObj::HandshakeHandler(_)) => {
                         self.set_state(ConnectionState::Teardown);
                     }
+                    //the handler changed into a state where we cannot send a reply
+                    (Err(_), _) if !self.state.can_receive_messages() => {}
                     //error handling according to [vt6/foundation, sect. 3.3.2]
                     (Err(InvalidMessage), HandlerObj::MessageHandler(_)) => {
                         self.enqueue_message(&Nope(msg.parsed_type()));
-- 
2.43.0


From 3708f988950261bd65f1d9bc426f4cec2289a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 08/11] fix: do not buffer overlong messages without limit

---
 src/common/core/msg/format.rs | 7 +++++--
 src/server/connection.rs      | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/core/msg/format.rs b/src/common/core/msg/format.rs
index b98cd3f..3b5c7ac 100644
--- a/src/common/core/msg/format.rs
+++ b/src/common/core/msg/format.rs
@@ -113,9 +113,12 @@ impl<'b> MessageFormatter<'b> {
 //This ensures that we never render a message > 1024 bytes. Overlong messages are forbidden by
 //[vt6/foundation, sect. 3.1.2].
 fn crop_buffer_to_max_msglen(buf: &mut [u8]) -> &mut [u8] {
-    if buf.len() <= 1024 {
+    if buf.len() <= MAX_MESSAGE_LEN {
         buf
     } else {
-        &mut buf[..1024]
+        &mut buf[..MAX_MESSAGE_LEN]
     }
 }
+
+//see [vt6/foundation, sect. 3.1.2]
+pub(crate) const MAX_MESSAGE_LEN: usize = 1024;
diff --git a/src/server/connection.rs b/src/server/connection.rs
index b8400db..28d1355 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -246,8 +246,9 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 }
                 buf.discard(bytes_parsed);
             }
-            Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
-                //if we don't have a full message yet, wait until the next read
+            Err(e) if e.is_incomplete() && buf.contents().len() < msg::MAX_MESSAGE_LEN => {
+                //if we don't have a full message yet, wait until the next read (unless the message
+                //would be longer than allowed, which is an error like any other)
                 return false;
             }
             Err(e) => {
-- 
2.43.0


From 58b295ae03f09482d3dd8caccd0db636fcd68a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 09/11] fix: create send queue before releasing the connection
 pool

Otherwise, a broadcast can see the connection without its send queue: output
gets lost, or the send queue is leaked if the connection is torn down.
---
 src/server/tokio/dispatch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index c77f023..700d409 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,7 +84,6 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
 
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
@@ -92,6 +91,7 @@ impl<A: server::Application> InnerDispatch<A> {
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+        std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
-- 
2.43.0


From d7906b5b25771d2c4e766dc507e7c7245bf2a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 10/11] fix: do not leave broadcasts in the queue when the pool
 lock is dropped

A broadcast that was queued between the last do_maintenance() check and the
release of the lock, or during create_connection_object(), was only executed
after further network traffic.
---
 src/server/tokio/dispatch.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 700d409..0b311ee 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -92,6 +92,7 @@ impl<A: server::Application> InnerDispatch<A> {
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
         std::mem::drop(pool); //release the write lock
+        self.run_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -102,7 +103,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -192,6 +193,19 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn run_pending_broadcasts(self: &Arc<Self>) {
+        //This function must be called after each `self.pool.write()` lock is dropped. Broadcasts
+        //that were queued after the last do_maintenance() call, but before the lock was dropped,
+        //would otherwise sit in the queue until a client sends data to us.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool) => self.do_maintenance(&mut pool),
+                //whoever holds the lock right now will call this function afterwards
+                Err(_) => break,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -204,13 +218,14 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>, //only `None` during drop()
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -219,9 +234,11 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        self.inner.run_pending_broadcasts();
     }
 }
 
@@ -305,9 +322,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.run_pending_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From 3107d73935b1e165168b1d290966dfd5b4d61938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 11/11] fix: clean up when the listener fails

The connections and the server socket were left behind on IO errors.
---
 src/server/tokio/dispatch.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 0b311ee..58c15cf 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -276,10 +276,10 @@ impl<A: server::Application> Dispatch<A> {
                 self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
-        match Abortable::new(accept_future, ar).await {
-            Ok(Ok(())) => {}
-            Ok(Err(e)) => return Err(e),
-            Err(Aborted) => {}
+        let result = match Abortable::new(accept_future, ar).await {
+            Ok(Ok(())) => Ok(()),
+            Ok(Err(e)) => Err(e),
+            Err(Aborted) => Ok(()),
         };
 
         //tell all receiver/transmitter jobs to quit it
@@ -290,7 +290,7 @@ impl<A: server::Application> Dispatch<A> {
 
         //clean up the server socket
         std::mem::drop(listener);
-        std::fs::remove_file(&self.0.path)
+        result.and(std::fs::remove_file(&self.0.path))
     }
 
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
-- 
2.43.0

