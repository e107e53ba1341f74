From ad553cb0ed5bda56ce204fb04415506f490a270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 01/27] verif hooks (cfg pushcdn_verif): connections over
 external streams, access to broker connection state

---
 cdn-broker/src/lib.rs                       |  4 ++
 cdn-broker/src/verif.rs                     | 10 ++++
 cdn-proto/src/connection/protocols/mod.rs   |  4 ++
 cdn-proto/src/connection/protocols/verif.rs | 55 +++++++++++++++++++++
 4 files changed, 73 insertions(+)
 create mode 100644 cdn-broker/src/verif.rs
 create mode 100644 cdn-proto/src/connection/protocols/verif.rs

diff --git a/cdn-broker/src/lib.rs b/cdn-broker/src/lib.rs
index 141aaf0..75a1760 100644
--- a/cdn-broker/src/lib.rs
+++ b/cdn-broker/src/lib.rs
@@ -13,6 +13,10 @@ mod connections;
 pub mod reexports;
 mod tasks;
 
+#[allow(unexpected_cfgs)]
+#[cfg(pushcdn_verif)]
+pub mod verif;
+
 /// This is not guarded by `![cfg(test)]` because we use the same functions
 /// when running benchmarks.
 mod tests;
diff --git a/cdn-broker/src/verif.rs b/cdn-broker/src/verif.rs
new file mode 100644
index 0000000..9521fc4
--- /dev/null
+++ b/cdn-broker/src/verif.rs
@@ -0,0 +1,10 @@
+// Copyright (c) 2024 Espresso Systems (espressosys.com)
+// This file is part of the Push-CDN repository.
+
+// You should have received a copy of the MIT License
+// along with the Push-CDN repository. If not, see <https://mit-license.org/>.
+
+//! Only compiled with `--cfg pushcdn_verif`: gives an external test harness access to the
+//! connection state that brokers keep and replicate.
+
+pub use crate::connections::{Connections, DirectMap, SubscriptionStatus, TopicSyncMap};
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index b53b1e6..362372d 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -35,6 +35,10 @@ pub mod quic;
 pub mod tcp;
 pub mod tcp_tls;
 
+#[allow(unexpected_cfgs)]
+#[cfg(pushcdn_verif)]
+mod verif;
+
 /// The `Protocol` trait lets us be generic over a connection type (Tcp, Quic, etc).
 #[async_trait]
 pub trait Protocol: Send + Sync + 'static {
diff --git a/cdn-proto/src/connection/protocols/verif.rs b/cdn-proto/src/connection/protocols/verif.rs
new file mode 100644
index 0000000..2fb223c
--- /dev/null
+++ b/cdn-proto/src/connection/protocols/verif.rs
@@ -0,0 +1,55 @@
+// Copyright (c) 2024 Espresso Systems (espressosys.com)
+// This file is part of the Push-CDN repository.
+
+// You should have received a copy of the MIT License
+// along with the Push-CDN repository. If not, see <https://mit-license.org/>.
+
+//! Only compiled with `--cfg pushcdn_verif`: lets an external test harness build a
+//! [`Connection`] on top of its own (fault-injecting) streams.
+
+use std::{
+    io::Result,
+    pin::Pin,
+    task::{Context, Poll},
+};
+
+use async_trait::async_trait;
+use tokio::io::{AsyncRead, AsyncWrite};
+
+use super::{Connection, SoftClose};
+use crate::connection::limiter::Limiter;
+
+/// Wraps any writer so it can be used as the writing half of a [`Connection`].
+struct Writer<W>(W);
+
+impl<W: AsyncWrite + Unpin> AsyncWrite for Writer<W> {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<Result<usize>> {
+        Pin::new(&mut self.0).poll_write(cx, buf)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
+        Pin::new(&mut self.0).poll_flush(cx)
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
+        Pin::new(&mut self.0).poll_shutdown(cx)
+    }
+}
+
+#[async_trait]
+impl<W: Send> SoftClose for Writer<W> {}
+
+impl Connection {
+    /// Build a connection from arbitrary streams.
+    pub fn verif_from_streams(
+        writer: impl AsyncWrite + Unpin + Send + 'static,
+        reader: impl AsyncRead + Unpin + Send + 'static,
+        limiter: Limiter,
+    ) -> Self {
+        Self::from_streams(Writer(writer), reader, limiter)
+    }
+}
-- 
2.43.0


From f6771f31cebbab83c4a4a40943234e89510d54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 02/27] fix: resolve equal-version conflicts by value, so that
 repeated or stale announcements kick no connected user

A conflict between two announcements of the same version was decided by comparing the sender's identity with the
receiver's. A peer with a larger identity that repeated what it had been told (every full sync does) therefore
'changed' the location of users to what it was already, which disconnected them; a departure (tombstone) known to a
larger broker won over the user's new session on a smaller one; and third brokers resolved conflicts differently.
---
 cdn-broker/src/connections/broadcast/mod.rs | 2 +-
 cdn-broker/src/connections/versioned_map.rs | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cdn-broker/src/connections/broadcast/mod.rs b/cdn-broker/src/connections/broadcast/mod.rs
index 863208a..db98880 100644
--- a/cdn-broker/src/connections/broadcast/mod.rs
+++ b/cdn-broker/src/connections/broadcast/mod.rs
@@ -16,7 +16,7 @@ use rkyv::{Archive, Deserialize, Serialize};
 
 use super::versioned_map::VersionedMap;
 
-#[derive(Debug, Eq, PartialEq, Serialize, Deserialize, Archive, Clone)]
+#[derive(Debug, Eq, PartialEq, PartialOrd, Serialize, Deserialize, Archive, Clone)]
 #[archive(check_bytes)]
 pub enum SubscriptionStatus {
     Subscribed,
diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 4649d1c..c736527 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -53,7 +53,7 @@ pub struct VersionedMap<K: Eq + Hash + Debug, V: Debug, C> {
 
 impl<
         K: PartialEq + Eq + Hash + Clone + Debug,
-        V: Clone + PartialEq + Debug,
+        V: Clone + PartialOrd + Debug,
         C: Clone + PartialOrd,
     > VersionedMap<K, V, C>
 {
@@ -194,7 +194,7 @@ impl<
     }
 
     /// Merge the changes from two `VersionedMap`s, keeping only the newest changes. On a conflict,
-    /// uses the `conflict_identity` to figure out who should get the value.
+    /// keeps the bigger value.
     ///
     /// Returns a vector of `(K, Option<V>)` pairs that represent the changes that were made.
     /// TODO: `Rc` or `Arc` the cloned values?
@@ -228,8 +228,9 @@ impl<
 
                     // If the remote value is equal to our value,
                     Ordering::Equal => {
-                        // The value with the bigger conflict identity wins
-                        if remote.conflict_identity > self.conflict_identity {
+                        // The bigger value wins (any value wins over a tombstone), so that everyone
+                        // resolves the conflict in the same way, whoever they heard it from
+                        if remote_value.value > local_value.value {
                             // If there is some value,
                             // TODO: duplicate code here and above. macro it?
                             if remote_value.value.is_some() {
-- 
2.43.0


From 490b51c79fa1ded5bea3ef2801df5c2915eb09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 03/27] fix: do not kick a connected user on hearing that it is
 connected here

A peer that returns after a partition may announce a newer version of a user's location that names this very broker;
that user was disconnected as if it had connected elsewhere.
---
 cdn-broker/src/connections/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..740dfc5 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,7 +156,12 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
+        for (user, new_broker) in users_to_remove {
+            // The user did not connect elsewhere if we were only told that it is here, and it is
+            if new_broker.as_ref() == Some(&self.identity) && self.users.contains_key(&user) {
+                continue;
+            }
+
             self.remove_user(user, "user connected elsewhere");
         }
     }
-- 
2.43.0


From 42f9d1fa6239c29c21d6e6f77b1968fae6be38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 04/27] fix: closing or losing a client connection releases the
 calls waiting on it and spares a newer connection

---
 cdn-client/src/lib.rs                     | 25 +++++++++++++++--------
 cdn-proto/src/connection/protocols/mod.rs | 18 ++++++++++++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..641bb73 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -147,15 +147,22 @@ pub struct Config<C: ConnectionDef> {
 // Disconnects the current connection if an error was passed in and we're
 // not already reconnecting.
 macro_rules! disconnect_on_error {
-    ($self:expr, $res: expr) => {
+    ($self:expr, $connection: expr, $res: expr) => {
         match $res {
             Ok(t) => Ok(t),
             Err(e) => {
+                // Close the failed connection so that no other call keeps waiting on it
+                $connection.close();
+
                 // If we are not currently reconnecting, take the current connection
                 if $self.connecting_guard.available_permits() > 0 {
-                    // If we ran into an error, take the current connection.
+                    // If we ran into an error, take the current connection, unless it is a newer
+                    // one than the one that failed.
                     // This will only start reconnecting if we try to receive or send another message.
-                    $self.connection.write().await.take();
+                    let mut current = $self.connection.write().await;
+                    if current.as_ref().is_some_and(|c| c.is_same_as(&$connection)) {
+                        current.take();
+                    }
                 }
 
                 Err(e)
@@ -297,7 +304,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.send_message(message).await)
+        disconnect_on_error!(self, connection, connection.send_message(message).await)
     }
 
     /// Receives a message from the underlying fallible connection. Reconnection logic is here,
@@ -311,7 +318,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.get_connection().await?;
 
         // Receive a message
-        disconnect_on_error!(self, connection.recv_message().await)
+        disconnect_on_error!(self, connection, connection.recv_message().await)
     }
 
     /// Returns only when the connection is fully initialized
@@ -453,7 +460,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.soft_close().await)
+        disconnect_on_error!(self, connection, connection.soft_close().await)
     }
 
     /// Shut down the client, closing the connection and aborting all tasks.
@@ -471,8 +478,10 @@ impl<C: ConnectionDef> Client<C> {
             reconnection_task.abort();
         }
 
-        // Take the connection
-        self.connection.write().await.take();
+        // Take the connection and close it, releasing the calls that are waiting on it
+        if let Some(connection) = self.connection.write().await.take() {
+            connection.close();
+        }
     }
 
     /// Returns whether or not the client has been manually closed
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 362372d..d7a153e 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -284,6 +284,24 @@ impl Connection {
         ))
     }
 
+    /// Close the connection at once. Pending and later operations on any handle to it fail.
+    pub fn close(&self) {
+        // Close the channels
+        self.0.sender.close();
+        self.0.receiver.close();
+
+        // Abort all tasks
+        for task in self.0.tasks.iter() {
+            task.abort();
+        }
+    }
+
+    /// Whether or not `other` is a handle to the same underlying connection
+    #[must_use]
+    pub fn is_same_as(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Soft close the connection, allowing all messages to be sent before closing.
     ///
     /// # Errors
-- 
2.43.0


From 1ff6a548ae5edbfe2cf4bb6bf06c3f8308f9d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 05/27] fix: ensure_initialized fails if the client is closed
 while waiting

---
 cdn-client/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 641bb73..53d9cd3 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -339,7 +339,11 @@ impl<C: ConnectionDef> Client<C> {
         }
 
         // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+        bail!(
+            self.connecting_guard.acquire().await,
+            Connection,
+            "client has been manually closed"
+        );
 
         Ok(())
     }
-- 
2.43.0


From 04287b87552c0a6d8dd3ac2ac70829eee07843fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 06/27] fix: do not send empty subscription changes, for which
 a broker disconnects the client

---
 cdn-client/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 53d9cd3..84dc778 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -401,6 +401,11 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| !subscribed_guard.contains(topic))
             .collect();
 
+        // If nothing would change, there is nothing to send (a broker rejects empty lists)
+        if topics_to_send.is_empty() && !self.is_closed() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Subscribe(topics_to_send.clone()))
@@ -435,6 +440,11 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| subscribed_guard.contains(topic))
             .collect();
 
+        // If nothing would change, there is nothing to send (a broker rejects empty lists)
+        if topics_to_send.is_empty() && !self.is_closed() {
+            return Ok(());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-- 
2.43.0


From bdfa5c7488b8c2cfe5bd5863fadc18b5b25df568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 07/27] fix: closing the client reliably aborts a reconnection
 that is just starting

---
 cdn-client/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 84dc778..988dbdd 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -210,6 +210,10 @@ impl<C: ConnectionDef> Client<C> {
     /// - If the connection has been manually closed
     fn reconnect_if_needed(&self, possible_connection: Option<Connection>) -> Result<Connection> {
         let Some(connection) = possible_connection else {
+            // Hold the lock on the reconnection task until it is updated, so that `close()` finds (and
+            // aborts) any task that we managed to spawn before it closed the semaphore
+            let mut reconnection_task_guard = self.reconnection_task.lock();
+
             // If the connection is not initialized for one reason or another, try to reconnect
             // Acquire the semaphore to ensure only one reconnection is happening at a time
             match Arc::clone(&self.connecting_guard).try_acquire_owned() {
@@ -245,7 +249,7 @@ impl<C: ConnectionDef> Client<C> {
                     }));
 
                     // Update the reconnection task
-                    *self.reconnection_task.lock() = Some(reconnection_task);
+                    *reconnection_task_guard = Some(reconnection_task);
                 }
                 Err(TryAcquireError::Closed) => {
                     // The client has been manually closed
-- 
2.43.0


From e1a51386141d21a690671daeabed1b246cf20332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 08/27] fix: refuse a message larger than the memory pool
 instead of blocking every connection on it

---
 cdn-proto/src/connection/limiter/mod.rs   | 13 +++++++++++++
 cdn-proto/src/connection/protocols/mod.rs |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/limiter/mod.rs b/cdn-proto/src/connection/limiter/mod.rs
index 81c2a26..995ac72 100644
--- a/cdn-proto/src/connection/limiter/mod.rs
+++ b/cdn-proto/src/connection/limiter/mod.rs
@@ -16,6 +16,9 @@ pub struct Limiter {
     /// The global memory pool to check with before allocating.
     global_memory_pool: Option<MemoryPool>,
 
+    /// The size of the global memory pool in bytes, if there is one.
+    global_memory_pool_size: Option<usize>,
+
     /// Per connection, the size of the channel buffer.
     connection_message_pool_size: Option<usize>,
 }
@@ -33,6 +36,7 @@ impl Limiter {
         // Create a new global memory pool if the size is set, otherwise set it to `None`.
         Self {
             global_memory_pool: global_memory_pool_size.map(MemoryPool::new),
+            global_memory_pool_size,
             connection_message_pool_size,
         }
     }
@@ -44,6 +48,7 @@ impl Limiter {
         // Create a new limiter with no global memory pool and no connection message pool size.
         Self {
             global_memory_pool: None,
+            global_memory_pool_size: None,
             connection_message_pool_size: None,
         }
     }
@@ -67,6 +72,14 @@ impl Limiter {
         }
     }
 
+    /// Whether a message of `num_bytes` bytes can ever be allocated. Waiting for one that
+    /// can not would block everybody else that is waiting for the global memory pool.
+    pub fn can_allocate(&self, num_bytes: u32) -> bool {
+        self.global_memory_pool_size.map_or(true, |size| {
+            usize::try_from(num_bytes).is_ok_and(|num_bytes| num_bytes <= size)
+        })
+    }
+
     /// Get the connection message pool size, if set.
     pub const fn connection_message_pool_size(&self) -> Option<usize> {
         // Return the connection message pool size
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index d7a153e..7e7b1ce 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -342,7 +342,7 @@ async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
     );
 
     // Make sure the message isn't too big
-    if message_size > MAX_MESSAGE_SIZE {
+    if message_size > MAX_MESSAGE_SIZE || !limiter.can_allocate(message_size) {
         return Err(Error::Connection("message was too large".to_string()));
     }
 
-- 
2.43.0


From 790d12bdfe15ce4237b1ea6bba8d50e24cf0a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 09/27] fix: a connection whose sending ended releases the
 messages still queued and fails pending soft closes

---
 cdn-proto/src/connection/protocols/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 7e7b1ce..d5e5e0f 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -96,6 +96,18 @@ enum BytesOrSoftClose {
     SoftClose(oneshot::Sender<()>),
 }
 
+/// The sending task's end of the channel. However the task ends, the channel is closed and emptied,
+/// so that messages that will never be sent release their memory, and those waiting for a soft close
+/// are told.
+struct ReceiveFromCaller(Receiver<BytesOrSoftClose>);
+
+impl Drop for ReceiveFromCaller {
+    fn drop(&mut self) {
+        self.0.close();
+        while self.0.try_recv().is_ok() {}
+    }
+}
+
 /// A reference to a delegated connection, containing the sender and
 /// receiver channels.
 #[derive(Clone)]
@@ -157,15 +169,15 @@ impl Connection {
             );
 
         // Spawn the task that receives from the caller and sends to the stream
+        let receive_from_caller = ReceiveFromCaller(receive_from_caller);
         let sender_task = tokio::spawn(async move {
             // While we can successfully receive messages from the caller,
-            while let Ok(message) = receive_from_caller.recv().await {
+            while let Ok(message) = receive_from_caller.0.recv().await {
                 match message {
                     BytesOrSoftClose::Bytes(message) => {
                         // Write the message to the stream
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
-                            receive_from_caller.close();
                             return;
                         };
 
@@ -173,7 +185,6 @@ impl Connection {
                         // Is a no-op for everything but TCP+TLS
                         if let Err(err) = writer.flush().await {
                             warn!("failed to flush writer: {:?}", err);
-                            receive_from_caller.close();
                             return;
                         };
                     }
-- 
2.43.0


From e5ae135e65cbaa29836695bd075d3bebf45215ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 10/27] fix: concurrent connections over the memory protocol
 get their own streams, and a dropped listener stops listening

---
 cdn-proto/src/connection/protocols/memory.rs | 106 +++++++++----------
 1 file changed, 51 insertions(+), 55 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/memory.rs b/cdn-proto/src/connection/protocols/memory.rs
index ab05ddf..01e54b6 100644
--- a/cdn-proto/src/connection/protocols/memory.rs
+++ b/cdn-proto/src/connection/protocols/memory.rs
@@ -7,16 +7,15 @@
 //! The memory protocol is a completely in-memory channel-based protocol.
 //! It can only be used intra-process.
 
-use std::{collections::HashMap, sync::OnceLock};
+use std::{
+    collections::HashMap,
+    sync::{OnceLock, RwLock},
+};
 
 use async_channel::{unbounded, Receiver, Sender};
 use async_trait::async_trait;
 use rustls::pki_types::{CertificateDer, PrivateKeyDer};
-use tokio::{
-    io::{duplex, DuplexStream},
-    sync::RwLock,
-    task::spawn_blocking,
-};
+use tokio::io::{duplex, DuplexStream};
 
 use super::{Connection, Listener, Protocol, SoftClose, UnfinalizedConnection};
 use crate::{
@@ -25,11 +24,13 @@ use crate::{
     error::{Error, Result},
 };
 
-type ChannelExchange = (Sender<DuplexStream>, Receiver<DuplexStream>);
+/// What a listener is sent by a new connection: the ends of the streams it receives from and
+/// sends to. They travel together, so that concurrent connections can not get each other's.
+type Streams = (DuplexStream, DuplexStream);
 
 /// A global list of listeners that are initialized later. This is to help
 /// connections find listeners.
-static LISTENERS: OnceLock<RwLock<HashMap<String, ChannelExchange>>> = OnceLock::new();
+static LISTENERS: OnceLock<RwLock<HashMap<String, Sender<Streams>>>> = OnceLock::new();
 
 #[derive(Clone, PartialEq, Eq)]
 /// The `Memory` protocol. Runs everything through channels for local testing purposes.
@@ -51,28 +52,25 @@ impl Protocol for Memory {
     ) -> Result<Connection> {
         // If the peer is not listening, return an error
         // Get or initialize the channels as a static value
-        let listeners = LISTENERS.get_or_init(RwLock::default).read().await;
-        let Some((channel_exchange_sender, channel_exchange_receiver)) =
-            listeners.get(remote_endpoint)
-        else {
+        let listener = LISTENERS
+            .get_or_init(RwLock::default)
+            .read()
+            .expect("lock poisoned")
+            .get(remote_endpoint)
+            .cloned();
+        let Some(send_to_listener) = listener else {
             return Err(Error::Connection(
                 "failed to connect to remote: connection refused".to_string(),
             ));
         };
 
-        // Create a duplex stream to send and receive bytes
+        // Create the duplex streams to send and receive bytes
         let (send_to_us, receive_from_them) = duplex(8192);
+        let (send_to_them, receive_from_us) = duplex(8192);
 
-        // Send our channel to them
+        // Send them their ends
         bail!(
-            channel_exchange_sender.send(send_to_us).await,
-            Connection,
-            "failed to connect to remote endpoint"
-        );
-
-        // Receive their channel
-        let send_to_them = bail!(
-            channel_exchange_receiver.recv().await,
+            send_to_listener.send((receive_from_us, send_to_us)).await,
             Connection,
             "failed to connect to remote endpoint"
         );
@@ -94,19 +92,21 @@ impl Protocol for Memory {
         _certificate: CertificateDer<'static>,
         _key: PrivateKeyDer<'static>,
     ) -> Result<Self::Listener> {
-        // Create our channels
-        let (send_to_us, receive_from_them) = unbounded();
-        let (send_to_them, receive_from_us) = unbounded();
+        // Create our channel
+        let (send_to_us, receive_new_connection) = unbounded();
 
         // Add to our listeners
-        let mut listeners = LISTENERS.get_or_init(RwLock::default).write().await;
-        listeners.insert(bind_endpoint.to_string(), (send_to_us, receive_from_us));
+        LISTENERS
+            .get_or_init(RwLock::default)
+            .write()
+            .expect("lock poisoned")
+            .insert(bind_endpoint.to_string(), send_to_us.clone());
 
         // Return our listener as a u64 bind endpoint
         Ok(MemoryListener {
             bind_endpoint: bind_endpoint.to_string(),
-            receive_new_connection: receive_from_them,
-            send_to_new_connection: send_to_them,
+            send_to_us,
+            receive_new_connection,
         })
     }
 }
@@ -134,40 +134,29 @@ impl UnfinalizedConnection for UnfinalizedMemoryConnection {
 /// so we can remove on drop.
 pub struct MemoryListener {
     bind_endpoint: String,
-    receive_new_connection: Receiver<DuplexStream>,
-    send_to_new_connection: Sender<DuplexStream>,
+    send_to_us: Sender<Streams>,
+    receive_new_connection: Receiver<Streams>,
 }
 
 #[async_trait]
 impl Listener<UnfinalizedMemoryConnection> for MemoryListener {
     /// Accept an unfinalized connection from the listener. Just
-    /// receives from our channel and performs channel exchange
-    /// with the connector.
+    /// receives the streams from our channel.
     ///
     /// # Errors
     /// - If we fail to accept a connection from the listener.
     async fn accept(&self) -> Result<UnfinalizedMemoryConnection> {
-        // Accept a channel from the sender
-        let bytes_sender = bail!(
+        // Accept the streams from the sender
+        let (receive_stream, send_stream) = bail!(
             self.receive_new_connection.recv().await,
             Connection,
             "failed to accept remote connection"
         );
 
-        // Create our bytes sender
-        let (send_bytes_to_us, bytes_receiver) = duplex(8192);
-
-        // Send the remote connection our channel
-        bail!(
-            self.send_to_new_connection.send(send_bytes_to_us).await,
-            Connection,
-            "failed to finalize connection"
-        );
-
         // Return our unfinalized connection
         Ok(UnfinalizedMemoryConnection {
-            send_stream: bytes_sender,
-            receive_stream: bytes_receiver,
+            send_stream,
+            receive_stream,
         })
     }
 }
@@ -175,14 +164,21 @@ impl Listener<UnfinalizedMemoryConnection> for MemoryListener {
 /// On `Drop`, we want to remove ourself from the map of listeners.
 impl Drop for MemoryListener {
     fn drop(&mut self) {
-        // Clone the bind endpoint so we can use it
-        let bind_endpoint = self.bind_endpoint.clone();
-
-        // Spawn a blocking task to remove the listener
-        spawn_blocking(move || async move {
-            let mut listeners = LISTENERS.get_or_init(RwLock::default).write().await;
-            listeners.remove(&bind_endpoint);
-        });
+        // Remove ourselves, unless someone else is listening there by now
+        let mut listeners = LISTENERS
+            .get_or_init(RwLock::default)
+            .write()
+            .expect("lock poisoned");
+        if listeners
+            .get(&self.bind_endpoint)
+            .is_some_and(|listener| listener.same_channel(&self.send_to_us))
+        {
+            listeners.remove(&self.bind_endpoint);
+        }
+
+        // Connections that were not accepted see the end of their streams
+        self.receive_new_connection.close();
+        while self.receive_new_connection.try_recv().is_ok() {}
     }
 }
 
-- 
2.43.0


From 38ef7fa10569e76f0af599b3746473ba9208a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 11/27] fix: refuse, instead of panicking on, an authentication
 timestamp that lies in the future

---
 cdn-proto/src/connection/auth/broker.rs  | 2 +-
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/connection/auth/broker.rs b/cdn-proto/src/connection/auth/broker.rs
index c75839c..8e956fa 100644
--- a/cdn-proto/src/connection/auth/broker.rs
+++ b/cdn-proto/src/connection/auth/broker.rs
@@ -278,7 +278,7 @@ impl<R: RunDef> BrokerAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        if timestamp.as_secs().abs_diff(auth_message.timestamp) > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..088625f 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -78,7 +78,7 @@ impl<R: RunDef> MarshalAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        if timestamp.as_secs().abs_diff(auth_message.timestamp) > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
-- 
2.43.0


From 0efa79285b828bf999b3e46f6d1fc59f557619e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 12/27] fix: issue the permit for the verified key's own
 encoding, not for the bytes the user sent

---
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 088625f..c892f21 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -123,7 +123,7 @@ impl<R: RunDef> MarshalAuth<R> {
                 #[cfg(not(feature = "global-permits"))]
                 &broker_with_least_connections,
                 Duration::from_secs(30),
-                auth_message.public_key,
+                public_key.clone(),
             )
             .await
         {
-- 
2.43.0


From d3738afb414c2cd2e0c75a4eb38aaca02616d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 13/27] fix: the end, or a late message, of an old connection
 does not affect the newer one of the same user or broker

---
 cdn-broker/src/connections/mod.rs      | 18 ++++++++
 cdn-broker/src/tasks/broker/handler.rs | 63 ++++++++++++++------------
 cdn-broker/src/tasks/broker/sender.rs  | 10 ++--
 cdn-broker/src/tasks/user/handler.rs   | 59 ++++++++++++++----------
 cdn-broker/src/tasks/user/sender.rs    |  9 ++--
 5 files changed, 96 insertions(+), 63 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 740dfc5..f0d34b0 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -85,6 +85,24 @@ impl Connections {
         self.users.get(user).map(|(c, _)| c.clone())
     }
 
+    /// Whether a user is (still) connected with this very connection, and not with a newer one
+    pub fn is_user_connection(&self, user: &UserPublicKey, connection: &Connection) -> bool {
+        self.users
+            .get(user)
+            .is_some_and(|(c, _)| c.is_same_as(connection))
+    }
+
+    /// Whether a broker is (still) connected with this very connection, and not with a newer one
+    pub fn is_broker_connection(
+        &self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+    ) -> bool {
+        self.brokers
+            .get(broker_identifier)
+            .is_some_and(|b| b.connection.is_same_as(connection))
+    }
+
     /// Get all broker identifiers that we are connected to
     pub fn get_broker_identifiers(&self) -> Vec<BrokerIdentifier> {
         self.brokers.keys().cloned().collect()
diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 9302490..d8cc789 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -67,32 +67,36 @@ impl<Def: RunDef> Inner<Def> {
         let connection_ = connection.clone();
         let broker_identifier_ = broker_identifier.clone();
 
-        // Start the receiving end of the broker
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_
-                .broker_receive_loop(&broker_identifier_, connection_)
-                .await
-            {
-                error!(
-                    id = %broker_identifier_,
-                    error = err.to_string(),
-                    "broker error"
-                );
-
-                // Remove the broker from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to receive message");
-            };
-        })
-        .abort_handle();
+        {
+            // Lock the connections until we have added the broker, so that nothing it sends (or
+            // its disconnection) is processed before that
+            let mut connections = self.connections.write();
+
+            // Start the receiving end of the broker
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .broker_receive_loop(&broker_identifier_, connection_.clone())
+                    .await
+                {
+                    error!(
+                        id = %broker_identifier_,
+                        error = err.to_string(),
+                        "broker error"
+                    );
 
-        // Add to our list of connections, removing the old one if it exists
-        self.connections
-            .write()
-            .add_broker(broker_identifier.clone(), connection, receive_handle);
+                    // Remove the broker from the map (unless it reconnected meanwhile)
+                    let mut connections = self_.connections.write();
+                    if connections.is_broker_connection(&broker_identifier_, &connection_) {
+                        connections.remove_broker(&broker_identifier_, "failed to receive message");
+                    }
+                };
+            })
+            .abort_handle();
+
+            // Add to our list of connections, removing the old one if it exists
+            connections.add_broker(broker_identifier.clone(), connection, receive_handle);
+        }
 
         // Send a full topic sync
         if let Err(err) = self.full_topic_sync(&broker_identifier).await {
@@ -181,10 +185,11 @@ impl<Def: RunDef> Inner<Def> {
                         "failed to deserialize topic sync message"
                     );
 
-                    // Apply the topic sync
-                    self.connections
-                        .write()
-                        .apply_topic_sync(broker_identifier, topic_sync);
+                    // Apply the topic sync, unless the broker has a newer connection
+                    let mut connections = self.connections.write();
+                    if connections.is_broker_connection(broker_identifier, &connection) {
+                        connections.apply_topic_sync(broker_identifier, topic_sync);
+                    }
                 }
 
                 // Do nothing if we receive an unexpected message
diff --git a/cdn-broker/src/tasks/broker/sender.rs b/cdn-broker/src/tasks/broker/sender.rs
index bbb7de8..c2536e5 100644
--- a/cdn-broker/src/tasks/broker/sender.rs
+++ b/cdn-broker/src/tasks/broker/sender.rs
@@ -35,11 +35,11 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to broker: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to send message");
+                // Remove the broker if we failed to send the message (unless it reconnected meanwhile)
+                let mut connections = self_.connections.write();
+                if connections.is_broker_connection(&broker_identifier_, &connection) {
+                    connections.remove_broker(&broker_identifier_, "failed to send message");
+                }
             }
         }
     }
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d43463c..67cff1e 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -55,25 +55,32 @@ impl<Def: RunDef> Inner<Def> {
         let public_key_ = public_key.clone();
         let connection_ = connection.clone();
 
-        // Spawn the user receive loop
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
-                warn!(id = user_identifier, error = err.to_string(), "user error");
-
-                // Remove the user from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_user(public_key_, "failed to receive message");
-            };
-        })
-        .abort_handle();
-
-        // Add our user and remove the old one if it exists
-        self.connections
-            .write()
-            .add_user(&public_key, connection, &topics, receive_handle);
+        {
+            // Lock the connections until we have added the user, so that nothing they send (or
+            // their disconnection) is processed before that
+            let mut connections = self.connections.write();
+
+            // Spawn the user receive loop
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .user_receive_loop(&public_key_, connection_.clone())
+                    .await
+                {
+                    warn!(id = user_identifier, error = err.to_string(), "user error");
+
+                    // Remove the user from the map (unless they reconnected meanwhile)
+                    let mut connections = self_.connections.write();
+                    if connections.is_user_connection(&public_key_, &connection_) {
+                        connections.remove_user(public_key_, "failed to receive message");
+                    }
+                };
+            })
+            .abort_handle();
+
+            // Add our user and remove the old one if it exists
+            connections.add_user(&public_key, connection, &topics, receive_handle);
+        }
 
         // If we have `strong-consistency` enabled,
         #[cfg(feature = "strong-consistency")]
@@ -142,9 +149,10 @@ impl<Def: RunDef> Inner<Def> {
                     Def::Topic::prune(&mut subscribe)?;
 
                     // TODO: add handle functions for this to make it easier to read
-                    self.connections
-                        .write()
-                        .subscribe_user_to(public_key, subscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_user_connection(public_key, &connection) {
+                        connections.subscribe_user_to(public_key, subscribe);
+                    }
                 }
 
                 // Unsubscribe messages from users will just update the state locally
@@ -152,9 +160,10 @@ impl<Def: RunDef> Inner<Def> {
                     // Prune the topics
                     Def::Topic::prune(&mut unsubscribe)?;
 
-                    self.connections
-                        .write()
-                        .unsubscribe_user_from(public_key, &unsubscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_user_connection(public_key, &connection) {
+                        connections.unsubscribe_user_from(public_key, &unsubscribe);
+                    }
                 }
 
                 _ => return Err(Error::Connection("invalid message received".to_string())),
diff --git a/cdn-broker/src/tasks/user/sender.rs b/cdn-broker/src/tasks/user/sender.rs
index c701f38..97c6aa1 100644
--- a/cdn-broker/src/tasks/user/sender.rs
+++ b/cdn-broker/src/tasks/user/sender.rs
@@ -23,10 +23,11 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to user: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self.connections
-                    .write()
-                    .remove_user(user.clone(), "failed to send message");
+                // Remove the user if we failed to send the message (unless they reconnected meanwhile)
+                let mut connections = self.connections.write();
+                if connections.is_user_connection(user, &connection) {
+                    connections.remove_user(user.clone(), "failed to send message");
+                }
             }
         }
     }
-- 
2.43.0


From b47651cf8e1ed031d53c6b50fb32683ec4cb85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 14/27] fix: send user syncs in the order in which they were
 taken, so that no broker is left with users that have left

---
 cdn-broker/src/lib.rs               | 7 ++++++-
 cdn-broker/src/tasks/broker/sync.rs | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/lib.rs b/cdn-broker/src/lib.rs
index 75a1760..6a76862 100644
--- a/cdn-broker/src/lib.rs
+++ b/cdn-broker/src/lib.rs
@@ -40,7 +40,7 @@ use cdn_proto::{crypto::signature::KeyPair, metrics as proto_metrics};
 use connections::Connections;
 use local_ip_address::local_ip;
 use parking_lot::RwLock;
-use tokio::{select, spawn};
+use tokio::{select, spawn, sync::Mutex};
 use tracing::info;
 
 /// The broker's configuration. We need this when we create a new one.
@@ -101,6 +101,10 @@ struct Inner<R: RunDef> {
     /// state or send messages.
     connections: Arc<RwLock<Connections>>,
 
+    /// Held while taking and sending a user sync, so that no broker receives a state of ours after a
+    /// newer one (which would bring back users that have left)
+    user_sync_lock: Mutex<()>,
+
     /// The shared limiter that we use for all connections.
     limiter: Limiter,
 
@@ -251,6 +255,7 @@ impl<R: RunDef> Broker<R> {
                 identity: identity.clone(),
                 keypair,
                 connections: Arc::from(RwLock::from(Connections::new(identity))),
+                user_sync_lock: Mutex::new(()),
                 limiter,
                 user_message_hook,
                 broker_message_hook,
diff --git a/cdn-broker/src/tasks/broker/sync.rs b/cdn-broker/src/tasks/broker/sync.rs
index 10edfc2..061f0e8 100644
--- a/cdn-broker/src/tasks/broker/sync.rs
+++ b/cdn-broker/src/tasks/broker/sync.rs
@@ -47,6 +47,9 @@ impl<Def: RunDef> Inner<Def> {
     /// - If we fail to serialize the message
     /// - If we fail to send the message
     pub async fn full_user_sync(self: &Arc<Self>, broker: &BrokerIdentifier) -> Result<()> {
+        // Send user syncs in the order in which we take them
+        let _guard = self.user_sync_lock.lock().await;
+
         // Get full user sync map
         let Some(full_sync_map) = self.connections.read().get_full_user_sync() else {
             return Ok(());
@@ -68,6 +71,9 @@ impl<Def: RunDef> Inner<Def> {
     /// # Errors
     /// - If we fail to serialize the message
     pub async fn partial_user_sync(self: &Arc<Self>) -> Result<()> {
+        // Send user syncs in the order in which we take them
+        let _guard = self.user_sync_lock.lock().await;
+
         // Get partial user sync map
         let Some(partial_sync_map) = self.connections.write().get_partial_user_sync() else {
             return Ok(());
-- 
2.43.0


From e0953680e631567990010bc40b89d8f20ccb91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 15/27] fix: do not panic on changing an entry whose version a
 peer announced as the largest one

---
 cdn-broker/src/connections/versioned_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index c736527..249f4c8 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -90,8 +90,8 @@ impl<
 
                 // If we haven't already made an unsynced local modification
                 if !self.locally_modified_keys.contains(&k) {
-                    // Add one to the version
-                    entry.version += 1;
+                    // Add one to the version. It may have come from a peer, so it can be any number
+                    entry.version = entry.version.saturating_add(1);
                 }
 
                 // Set the version equal to the one we supplied
-- 
2.43.0


From f36899fe4eedb64e1c6e2fc74e4f80a616ba5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 16/27] fix: replace the embedded whitelist in one transaction

---
 cdn-proto/src/discovery/embedded.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..c5750ac 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -343,12 +343,22 @@ impl DiscoveryClient for Embedded {
         // Build the query
         let query = query_builder.build();
 
-        // Execute the query
+        // Execute the query in a transaction, so that nobody sees the whitelist half replaced
+        let mut transaction = bail!(
+            self.pool.begin().await,
+            File,
+            "failed to begin whitelist transaction"
+        );
         bail!(
-            query.execute(&self.pool).await,
+            query.execute(&mut *transaction).await,
             File,
             "failed to set whitelist"
         );
+        bail!(
+            transaction.commit().await,
+            File,
+            "failed to commit whitelist transaction"
+        );
 
         Ok(())
     }
-- 
2.43.0


From 2a90df00aaddd658afa30e2b6df15505504659ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 17/27] fix: count the outstanding permits of a broker when
 choosing the least loaded one (Redis)

---
 cdn-proto/src/discovery/redis.rs | 50 +++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6518f8d..cb70404 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -216,18 +216,34 @@ impl DiscoveryClient for Redis {
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("SET");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("SET");
         #[cfg(not(feature = "global-permits"))]
         // Per-broker permit
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
         // Global permit
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+        pipeline
+            .arg(public_key)
+            .arg(&["EX", &expiry.as_secs().to_string()]);
+
+        // Add the permit to the broker's outstanding ones, which we count when looking for
+        // the broker with the least number of connections
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SADD")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .cmd("EXPIREMEMBER")
+            .arg(&[
+                format!("{for_broker}/permits"),
+                permit.to_string(),
+                expiry.as_secs().to_string(),
+            ]);
 
         // Issue the permit
         bail!(
-            cmd.arg(public_key)
-                .arg(&["EX", &expiry.as_secs().to_string()])
+            pipeline
                 .query_async::<()>(&mut self.underlying_connection)
                 .await,
             Connection,
@@ -250,18 +266,30 @@ impl DiscoveryClient for Redis {
     ) -> Result<Option<Vec<u8>>> {
         // Remove this permit verifying it exists for either one broker or
         // all brokers (with the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("GETDEL");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("GETDEL");
         #[cfg(not(feature = "global-permits"))]
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+
+        // It is not outstanding any more
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SREM")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .ignore();
 
         // Remove the permit
-        Ok(bail!(
-            cmd.query_async(&mut self.underlying_connection).await,
+        let (public_key,) = bail!(
+            pipeline
+                .query_async(&mut self.underlying_connection)
+                .await,
             Connection,
             "failed to connect to Redis"
-        ))
+        );
+
+        Ok(public_key)
     }
 
     /// Atomically set the list of whitelisted users
-- 
2.43.0


From e83c60bb3bdf46f7d15d550fb763b3b6b5173fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 18/27] fix: skip a broker whose registration just expired when
 choosing the least loaded one (Redis)

---
 cdn-proto/src/discovery/redis.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index cb70404..6970e45 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -140,7 +140,7 @@ impl DiscoveryClient for Redis {
 
         for broker in brokers {
             // Get the number of connections the broker has
-            let num_connections: u64 = bail!(
+            let num_connections: Option<u64> = bail!(
                 redis::cmd("GET")
                     .arg(format!("{broker}/num_connections"))
                     .query_async(&mut self.underlying_connection)
@@ -149,6 +149,11 @@ impl DiscoveryClient for Redis {
                 "failed to connect to Redis"
             );
 
+            // Skip the broker if its registration has just expired
+            let Some(num_connections) = num_connections else {
+                continue;
+            };
+
             // Get the number of permits the broker has
             let num_permits: u64 = bail!(
                 redis::cmd("SCARD")
@@ -166,6 +171,11 @@ impl DiscoveryClient for Redis {
             }
         }
 
+        // Return if all of the brokers' registrations have expired
+        if broker_with_least_connections.is_empty() {
+            return Err(Error::Connection("no brokers connected".to_string()));
+        }
+
         // Return the broker with the least amount of connections, for which we
         // will issue a permit. Try to parse the broker endpoint from a `String`.
         broker_with_least_connections.try_into()
-- 
2.43.0


From baa226471761e50797e05e2c2afa73e781e10049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 19/27] fix: wait for the next heartbeat when the other brokers
 cannot be looked up, rather than asking discovery in a loop

---
 cdn-broker/src/tasks/broker/heartbeat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/heartbeat.rs b/cdn-broker/src/tasks/broker/heartbeat.rs
index e7a8f5f..4cc6d6a 100644
--- a/cdn-broker/src/tasks/broker/heartbeat.rs
+++ b/cdn-broker/src/tasks/broker/heartbeat.rs
@@ -49,18 +49,18 @@ impl<Def: RunDef> Inner<Def> {
                 }
             }
 
-            // Attempt to get all other brokers
+            // Attempt to get all other brokers. If we fail, connect to nobody until the next heartbeat
             let other_brokers =
                 match timeout(Duration::from_secs(5), discovery_client.get_other_brokers()).await {
                     Ok(Ok(brokers)) => brokers,
                     Ok(Err(err)) => {
                         error!("failed to get other brokers: {}", err);
-                        continue;
+                        HashSet::new()
                     }
                     Err(_) => {
                         // This is an important error
                         error!("timed out trying to get other brokers");
-                        continue;
+                        HashSet::new()
                     }
                 };
 
-- 
2.43.0


From 6d69effec1f9c8a9871a4443d2270b84070ae2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 20/27] fix: process each topic of a message once, however
 often it is repeated

---
 cdn-broker/src/connections/mod.rs |  4 ++--
 cdn-proto/src/def.rs              | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index f0d34b0..1c35b90 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -118,8 +118,8 @@ impl Connections {
         let mut broker_recipients = HashSet::new();
         let mut user_recipients = HashSet::new();
 
-        // For each topic
-        for topic in topics {
+        // For each topic (once, however often it is repeated)
+        for topic in topics.iter().collect::<HashSet<_>>() {
             // Get all users interested in the topic
             for user in self.broadcast_map.users.get_keys_by_value(topic) {
                 user_recipients.insert(user);
diff --git a/cdn-proto/src/def.rs b/cdn-proto/src/def.rs
index 587190a..bdec857 100644
--- a/cdn-proto/src/def.rs
+++ b/cdn-proto/src/def.rs
@@ -34,11 +34,13 @@ pub trait Topic: Into<u8> + TryFrom<u8> + Clone + Send + Sync {
     /// # Errors
     /// - If no valid topics are supplied
     fn prune(topics: &mut Vec<u8>) -> Result<()> {
-        // Deduplicate the topics
-        topics.dedup();
-
-        // Retain only the topics that can be converted to the desired type
-        topics.retain(|topic| Self::try_from(*topic).is_ok());
+        // Deduplicate the topics (wherever they are repeated), and retain only those that can be
+        // converted to the desired type
+        let mut seen = [false; 256];
+        topics.retain(|topic| {
+            !std::mem::replace(&mut seen[usize::from(*topic)], true)
+                && Self::try_from(*topic).is_ok()
+        });
 
         // Make sure we have at least one topic
         if topics.is_empty() {
-- 
2.43.0


From 8ba89ac7613664d76e9eb3b46fc47bab427c1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 21/27] fix: never issue a permit that has one of the values
 reserved for authentication's outcome

---
 cdn-proto/src/discovery/embedded.rs | 6 +++---
 cdn-proto/src/discovery/redis.rs    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index c5750ac..af91a4e 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 use async_trait::async_trait;
-use rand::{rngs::StdRng, RngCore, SeedableRng};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 use sqlx::{query, query_as, sqlite::SqliteConnectOptions, QueryBuilder, Row, SqlitePool};
 
 use super::{BrokerIdentifier, DiscoveryClient};
@@ -234,9 +234,9 @@ impl DiscoveryClient for Embedded {
         expiry: Duration,
         public_key: Vec<u8>,
     ) -> Result<u64> {
-        // Create random permit number
+        // Create random permit number. 0 and 1 are reserved for failed and successful authentication
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u32();
+        let permit = StdRng::from_entropy().gen_range(2..=u32::MAX);
 
         #[cfg(not(feature = "global-permits"))]
         let broker = for_broker.to_string();
diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6970e45..2f81242 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -14,7 +14,7 @@
 use std::{collections::HashSet, time::Duration};
 
 use async_trait::async_trait;
-use rand::{rngs::StdRng, RngCore, SeedableRng};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 use redis::aio::ConnectionManager;
 
 use super::{BrokerIdentifier, DiscoveryClient};
@@ -220,9 +220,9 @@ impl DiscoveryClient for Redis {
         expiry: Duration,
         public_key: Vec<u8>,
     ) -> Result<u64> {
-        // Create random permit number
+        // Create random permit number. 0 and 1 are reserved for failed and successful authentication
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u64();
+        let permit = StdRng::from_entropy().gen_range(2..=u64::MAX);
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-- 
2.43.0


From b8977ee67c5e8d2591117f6549e747d1f36925df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 22/27] fix: let a client that was dropped while reconnecting
 end

---
 cdn-client/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 988dbdd..9b573a7 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -218,15 +218,20 @@ impl<C: ConnectionDef> Client<C> {
             // Acquire the semaphore to ensure only one reconnection is happening at a time
             match Arc::clone(&self.connecting_guard).try_acquire_owned() {
                 Ok(permit) => {
-                    // We were the first to try reconnecting, spawn a reconnection task
-                    let self_clone = self.0.clone();
+                    // We were the first to try reconnecting, spawn a reconnection task. It only holds on to
+                    // the client during an attempt, so that it ends when all handles have been dropped
+                    let client = Arc::downgrade(&self.0);
+                    let connection = self.0.connection.clone();
                     let reconnection_task = AbortOnDropHandle(spawn(async move {
-                        let mut connection = self_clone.connection.write().await;
+                        let mut connection = connection.write().await;
 
-                        // Forever,
-                        loop {
+                        // For as long as there is a client,
+                        while let Some(client_) = client.upgrade() {
                             // Try to reconnect
-                            match timeout(Duration::from_secs(10), self_clone.connect()).await {
+                            let result = timeout(Duration::from_secs(10), client_.connect()).await;
+                            drop(client_);
+
+                            match result {
                                 Ok(Ok(new_connection)) => {
                                     // We successfully reconnected
                                     *connection = Some(new_connection);
-- 
2.43.0


From 65bdf48dbe26590bae8b1dd7bbd041bcdc1f6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 23/27] fix: only report the client as initialized once it is
 connected

---
 cdn-client/src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 9b573a7..b2c409d 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -342,18 +342,16 @@ impl<C: ConnectionDef> Client<C> {
             ));
         }
 
-        // If we are already connected, return
-        if self.try_get_connection().is_ok() {
-            return Ok(());
+        // Until we are connected (which we start doing if nobody else did),
+        while self.get_connection().await.is_err() {
+            // wait to acquire the connecting guard
+            let _ = bail!(
+                self.connecting_guard.acquire().await,
+                Connection,
+                "client has been manually closed"
+            );
         }
 
-        // Otherwise, wait to acquire the connecting guard
-        bail!(
-            self.connecting_guard.acquire().await,
-            Connection,
-            "client has been manually closed"
-        );
-
         Ok(())
     }
 
-- 
2.43.0


From 29687ad650ef537d24ac7d036752080ae62891ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 24/27] fix: refuse a CA cert without its key (and the reverse)
 instead of using the local CA

---
 cdn-proto/src/crypto/tls.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cdn-proto/src/crypto/tls.rs b/cdn-proto/src/crypto/tls.rs
index bfa704d..59457b4 100644
--- a/cdn-proto/src/crypto/tls.rs
+++ b/cdn-proto/src/crypto/tls.rs
@@ -97,10 +97,18 @@ pub fn generate_cert_from_ca(
 ///
 /// # Errors
 /// - If we could not read either file
+/// - If only one of the two was specified
 pub fn load_ca(
     ca_cert_path: Option<String>,
     ca_key_path: Option<String>,
 ) -> Result<(String, String)> {
+    // One without the other is of no use, and using the local CA instead is not what was asked for
+    if ca_cert_path.is_some() != ca_key_path.is_some() {
+        return Err(Error::File(
+            "the CA cert and key can only be specified together".to_string(),
+        ));
+    }
+
     if let (Some(ca_cert_path), Some(ca_key_path)) = (ca_cert_path, ca_key_path) {
         // If we have supplied both, load them in
 
-- 
2.43.0


From 667502c91dac618488b41bd57c92c258a8a1c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 25/27] fix: do not wait forever for one user's whitelist
 lookup before looking up the others

---
 cdn-broker/src/tasks/broker/whitelist.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/whitelist.rs b/cdn-broker/src/tasks/broker/whitelist.rs
index 4fe1437..705b263 100644
--- a/cdn-broker/src/tasks/broker/whitelist.rs
+++ b/cdn-broker/src/tasks/broker/whitelist.rs
@@ -9,7 +9,7 @@
 use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{def::RunDef, discovery::DiscoveryClient};
-use tokio::time::sleep;
+use tokio::time::{sleep, timeout};
 
 use crate::Inner;
 
@@ -29,10 +29,12 @@ impl<Def: RunDef> Inner<Def> {
 
             // Make sure each user is still whitelisted
             for user in users {
-                if !discovery_client
-                    .check_whitelist(&user)
-                    .await
-                    .unwrap_or(true)
+                // If we can't find out (in time), leave them be until the next round
+                if let Ok(Ok(false)) = timeout(
+                    Duration::from_secs(5),
+                    discovery_client.check_whitelist(&user),
+                )
+                .await
                 {
                     // Kick the user off the network if they are not
                     self.connections
-- 
2.43.0


From 580197a4458d6785f992b3600b90ed19a96c38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:03 +0000
Subject: [PATCH 26/27] fix: do not wait forever for a remote that does not
 read when flushing a TLS connection

---
 cdn-proto/src/connection/protocols/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index d5e5e0f..1d41369 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -181,11 +181,18 @@ impl Connection {
                             return;
                         };
 
-                        // Flush the writer
+                        // Flush the writer. Like writing, this waits for a remote that does not read
                         // Is a no-op for everything but TCP+TLS
-                        if let Err(err) = writer.flush().await {
-                            warn!("failed to flush writer: {:?}", err);
-                            return;
+                        match timeout(Duration::from_secs(5), writer.flush()).await {
+                            Ok(Ok(())) => {}
+                            Ok(Err(err)) => {
+                                warn!("failed to flush writer: {:?}", err);
+                                return;
+                            }
+                            Err(_) => {
+                                warn!("timed out trying to flush writer");
+                                return;
+                            }
                         };
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
-- 
2.43.0


From c35e3851017fc0fdc755fedc2a18bbb79a2173bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:36 +0000
Subject: [PATCH 27/27] fix: do not wait for the client's connection while
 reconnecting may be waiting for us

A failed call waited for the lock on the connection, which reconnecting holds for as long as it takes.
If the call was subscribe() or unsubscribe(), reconnecting waited for the subscriptions it had locked:
neither ever got any further.
---
 cdn-client/src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index b2c409d..81bff9e 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -28,6 +28,7 @@ use parking_lot::Mutex;
 use tokio::{
     spawn,
     sync::{RwLock, Semaphore, TryAcquireError},
+    task::yield_now,
     time::{sleep, timeout},
 };
 use tracing::{info, warn};
@@ -154,15 +155,21 @@ macro_rules! disconnect_on_error {
                 // Close the failed connection so that no other call keeps waiting on it
                 $connection.close();
 
-                // If we are not currently reconnecting, take the current connection
-                if $self.connecting_guard.available_permits() > 0 {
+                // While we are not currently reconnecting, try to take the current connection. We can not
+                // just wait for it: reconnecting holds on to it, and may itself have to wait for our
+                // caller (for the subscriptions, which it locks)
+                while $self.connecting_guard.available_permits() > 0 {
                     // If we ran into an error, take the current connection, unless it is a newer
                     // one than the one that failed.
                     // This will only start reconnecting if we try to receive or send another message.
-                    let mut current = $self.connection.write().await;
-                    if current.as_ref().is_some_and(|c| c.is_same_as(&$connection)) {
-                        current.take();
+                    if let Ok(mut current) = $self.connection.try_write() {
+                        if current.as_ref().is_some_and(|c| c.is_same_as(&$connection)) {
+                            current.take();
+                        }
+                        break;
                     }
+
+                    yield_now().await;
                 }
 
                 Err(e)
-- 
2.43.0

