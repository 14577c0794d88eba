From 31f6dfeb6af4c4d41f74e4767d385c5330d813b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 01/23] verification hook: re-export the sync map types under
 cfg(pushcdn_verif)

---
 cdn-broker/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cdn-broker/src/lib.rs b/cdn-broker/src/lib.rs
index 141aaf0..389252e 100644
--- a/cdn-broker/src/lib.rs
+++ b/cdn-broker/src/lib.rs
@@ -13,6 +13,14 @@ mod connections;
 pub mod reexports;
 mod tasks;
 
+/// Verification hook (only with `--cfg pushcdn_verif`): names the types of the maps that brokers
+/// exchange, so that a conformance harness can act as a peer broker.
+#[allow(unexpected_cfgs)]
+#[cfg(pushcdn_verif)]
+pub mod verif {
+    pub use crate::connections::{DirectMap, SubscriptionStatus, TopicSyncMap};
+}
+
 /// This is not guarded by `![cfg(test)]` because we use the same functions
 /// when running benchmarks.
 mod tests;
-- 
2.43.0


From 48d413e02f744547de00d34a7f2e3e1ca000bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 02/23] fix: do not disconnect our own users when another
 broker repeats where they are

A peer with a larger identifier that repeats what we told it (same version, our
own identifier), for example in the full sync of a re-established link, made
apply_user_sync remove every such user from the broker it is connected to.
---
 cdn-broker/src/connections/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..d1c1100 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,7 +156,13 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
+        for (user, new_broker) in users_to_remove {
+            // Another broker may only be repeating what we told it: a user that is
+            // connected to us stays if that is where it is supposed to be
+            if new_broker.as_ref() == Some(&self.identity) && self.users.contains_key(&user) {
+                continue;
+            }
+
             self.remove_user(user, "user connected elsewhere");
         }
     }
-- 
2.43.0


From dd6e02dac95525841291766bf213d05b4243ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 03/23] verification hook: connections over in-memory byte
 streams under cfg(pushcdn_verif)

---
 cdn-proto/src/connection/protocols/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index b53b1e6..76de8c8 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -306,6 +306,20 @@ impl Connection {
     }
 }
 
+/// Verification hook (only with `--cfg pushcdn_verif`): a connection over in-memory byte streams whose
+/// other ends the conformance harness holds, so that it can write and read partial frames.
+#[allow(unexpected_cfgs)]
+#[cfg(pushcdn_verif)]
+impl Connection {
+    pub fn verif_from_duplex(
+        writer: tokio::io::DuplexStream,
+        reader: tokio::io::DuplexStream,
+        limiter: Limiter,
+    ) -> Self {
+        Self::from_streams(writer, reader, limiter)
+    }
+}
+
 /// Read a length-delimited (serialized) message from a stream.
 /// Has a bounds check for if the message is too big
 async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
-- 
2.43.0


From 04107c85364c6eb4a3f590916705575eff26a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 04/23] fix: end connections that announce a message larger
 than the memory pool

Waiting for such an allocation never succeeds, and since allocations are
served in order it also blocks every other connection of the process.
---
 cdn-proto/src/connection/limiter/mod.rs   |  8 ++++++++
 cdn-proto/src/connection/limiter/pool.rs  | 21 ++++++++++++++++++---
 cdn-proto/src/connection/protocols/mod.rs |  8 ++++++++
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/cdn-proto/src/connection/limiter/mod.rs b/cdn-proto/src/connection/limiter/mod.rs
index 81c2a26..1625ae5 100644
--- a/cdn-proto/src/connection/limiter/mod.rs
+++ b/cdn-proto/src/connection/limiter/mod.rs
@@ -67,6 +67,14 @@ impl Limiter {
         }
     }
 
+    /// Whether a message of `num_bytes` bytes can ever be allocated. This is only not the case
+    /// if it is larger than the whole global memory pool.
+    pub fn can_fit_message(&self, num_bytes: u32) -> bool {
+        self.global_memory_pool
+            .as_ref()
+            .map_or(true, |pool| pool.can_fit(num_bytes))
+    }
+
     /// Get the connection message pool size, if set.
     pub const fn connection_message_pool_size(&self) -> Option<usize> {
         // Return the connection message pool size
diff --git a/cdn-proto/src/connection/limiter/pool.rs b/cdn-proto/src/connection/limiter/pool.rs
index 9abe2d0..1823dbe 100644
--- a/cdn-proto/src/connection/limiter/pool.rs
+++ b/cdn-proto/src/connection/limiter/pool.rs
@@ -25,12 +25,27 @@ use crate::connection::metrics;
 /// A global memory arena that tracks but does not allocate memory.
 /// Allows for asynchronous capping of memory usage.
 #[derive(Clone)]
-pub struct MemoryPool(Arc<Semaphore>);
+pub struct MemoryPool {
+    /// The semaphore that tracks the bytes that are still available
+    semaphore: Arc<Semaphore>,
+
+    /// The total size of the pool in bytes
+    capacity: usize,
+}
 
 impl MemoryPool {
     /// Create a new `MemoryPool` from the number of bytes to
     pub fn new(n: usize) -> Self {
-        Self(Arc::from(Semaphore::const_new(n)))
+        Self {
+            semaphore: Arc::from(Semaphore::const_new(n)),
+            capacity: n,
+        }
+    }
+
+    /// Whether an allocation of `n` bytes can ever succeed. Waiting for one that can't
+    /// would block it, and everyone queued up behind it, forever.
+    pub fn can_fit(&self, n: u32) -> bool {
+        usize::try_from(n).is_ok_and(|n| n <= self.capacity)
     }
 }
 
@@ -59,7 +74,7 @@ impl MemoryPool {
     /// If the semaphore is dropped
     pub async fn alloc(&self, n: u32) -> Result<AllocationPermit> {
         // Acquire many permits to the underlying semaphore
-        let permit = self.0.clone().acquire_many_owned(n).await?;
+        let permit = self.semaphore.clone().acquire_many_owned(n).await?;
 
         #[cfg(feature = "metrics")]
         return Ok(AllocationPermit(permit, Instant::now()));
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 76de8c8..d7761f3 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -338,6 +338,14 @@ async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
         return Err(Error::Connection("message was too large".to_string()));
     }
 
+    // Make sure the message fits into the memory pool. If it doesn't, we (and everyone waiting
+    // behind us) would wait for the allocation forever
+    if !limiter.can_fit_message(message_size) {
+        return Err(Error::Connection(
+            "message was larger than the memory pool".to_string(),
+        ));
+    }
+
     // Acquire the allocation if necessary
     let permit = limiter.allocate_message_bytes(message_size).await;
 
-- 
2.43.0


From 25cfaaf532d7c4be69e56d4951854707dfbb61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 05/23] fix: fail pending soft closes when writing to the
 stream fails

The soft close stayed in the queue that nobody read anymore, and since the
caller waiting for it holds the connection, it waited forever.
---
 cdn-proto/src/connection/protocols/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index d7761f3..ea9bd2f 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -161,16 +161,14 @@ impl Connection {
                         // Write the message to the stream
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
-                            receive_from_caller.close();
-                            return;
+                            break;
                         };
 
                         // Flush the writer
                         // Is a no-op for everything but TCP+TLS
                         if let Err(err) = writer.flush().await {
                             warn!("failed to flush writer: {:?}", err);
-                            receive_from_caller.close();
-                            return;
+                            break;
                         };
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
@@ -182,6 +180,11 @@ impl Connection {
                     }
                 }
             }
+
+            // We can't send anymore. Close the channel and drop what is still queued, so that nobody
+            // waits forever for a soft close to be acknowledged
+            receive_from_caller.close();
+            while receive_from_caller.try_recv().is_ok() {}
         })
         .abort_handle();
 
-- 
2.43.0


From d1c205d29f29484e1233bba710bb5ec0e796b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 06/23] fix: set the embedded whitelist in one transaction,
 also when empty or with duplicates

---
 cdn-proto/src/discovery/embedded.rs | 56 +++++++++++++++++++----------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..3971361 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -6,13 +6,12 @@
 
 use std::{
     collections::HashSet,
-    ops::Deref,
     time::{Duration, SystemTime, UNIX_EPOCH},
 };
 
 use async_trait::async_trait;
 use rand::{rngs::StdRng, RngCore, SeedableRng};
-use sqlx::{query, query_as, sqlite::SqliteConnectOptions, QueryBuilder, Row, SqlitePool};
+use sqlx::{query, query_as, sqlite::SqliteConnectOptions, Row, SqlitePool};
 
 use super::{BrokerIdentifier, DiscoveryClient};
 use crate::{
@@ -323,31 +322,50 @@ impl DiscoveryClient for Embedded {
     /// # Errors
     /// - If the connection fails
     async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
-        // Create a query builder to atomically set the whitelist
-        let mut query_builder = QueryBuilder::new(
-            "
-        DROP TABLE IF EXISTS whitelist;     
-
-        CREATE TABLE IF NOT EXISTS whitelist (
-            user_public_key BYTEA PRIMARY KEY NOT NULL
+        // Start a transaction, so that the list is replaced either as a whole or not at all
+        let mut transaction = bail!(
+            self.pool.begin_with("BEGIN IMMEDIATE").await,
+            File,
+            "failed to start whitelist transaction"
         );
 
-        INSERT INTO whitelist (user_public_key) ",
+        // Create the table if it does not exist
+        bail!(
+            query(
+                "CREATE TABLE IF NOT EXISTS whitelist (user_public_key BYTEA PRIMARY KEY NOT NULL);",
+            )
+            .execute(&mut *transaction)
+            .await,
+            File,
+            "failed to create whitelist"
         );
 
-        // Push each value into `user_public_key`
-        query_builder.push_values(users, |mut b, user_public_key| {
-            b.push_bind(user_public_key.deref().clone());
-        });
+        // Remove the previous list
+        bail!(
+            query("DELETE FROM whitelist;")
+                .execute(&mut *transaction)
+                .await,
+            File,
+            "failed to remove previous whitelist"
+        );
 
-        // Build the query
-        let query = query_builder.build();
+        // Add each user. A user may be listed more than once
+        for user in users {
+            bail!(
+                query("INSERT OR IGNORE INTO whitelist (user_public_key) VALUES (?);")
+                    .bind(&**user)
+                    .execute(&mut *transaction)
+                    .await,
+                File,
+                "failed to set whitelist"
+            );
+        }
 
-        // Execute the query
+        // Make the new list effective
         bail!(
-            query.execute(&self.pool).await,
+            transaction.commit().await,
             File,
-            "failed to set whitelist"
+            "failed to commit whitelist"
         );
 
         Ok(())
-- 
2.43.0


From 3bf891bc4e5afa19ec2bbba1bf808721a5803587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 07/23] fix: an empty whitelist in Redis admits nobody

---
 cdn-proto/src/discovery/redis.rs | 35 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6518f8d..619bfd3 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -273,6 +273,9 @@ impl DiscoveryClient for Redis {
 
         pipeline
             .atomic()
+            // Remember that there is a whitelist. Redis does not keep empty sets
+            .cmd("SET")
+            .arg(&["whitelist/initialized", "1"])
             // Delete the current whitelist, if it exists
             .cmd("DEL")
             .arg(&["whitelist"]);
@@ -301,27 +304,29 @@ impl DiscoveryClient for Redis {
     /// # Errors
     /// - If the connection fails
     async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
-        // If the set does not exist, return true. The whitelist is not yet initialized
-        if !bail!(
-            redis::cmd("SCARD")
+        // Atomically get whether or not there is a whitelist, and whether or not the user is a member
+        let (is_initialized, num_users, is_member): (bool, u64, bool) = bail!(
+            redis::pipe()
+                .atomic()
+                .cmd("EXISTS")
+                .arg("whitelist/initialized")
+                .cmd("SCARD")
                 .arg("whitelist")
-                .query_async(&mut self.underlying_connection)
-                .await,
-            Connection,
-            "failed to connect to Redis"
-        ) {
-            return Ok(true);
-        };
-
-        // Check if the user is a member
-        Ok(bail!(
-            redis::cmd("SISMEMBER")
+                .cmd("SISMEMBER")
                 .arg("whitelist")
                 .arg(user.as_ref())
                 .query_async(&mut self.underlying_connection)
                 .await,
             Connection,
             "failed to connect to Redis"
-        ))
+        );
+
+        // If the whitelist is not yet initialized, return true
+        if !is_initialized && num_users == 0 {
+            return Ok(true);
+        }
+
+        // Otherwise, the user has to be a member
+        Ok(is_member)
     }
 }
-- 
2.43.0


From fb8424b11ae6b4e09a8df4bcf690705f6e991aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 08/23] fix: count outstanding permits towards a broker's load
 with Redis

---
 cdn-proto/src/discovery/redis.rs | 60 +++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 619bfd3..c04cf8f 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -216,18 +216,37 @@ impl DiscoveryClient for Redis {
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("SET");
         #[cfg(not(feature = "global-permits"))]
         // Per-broker permit
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        let key = format!("{for_broker}/permits/{permit}");
         #[cfg(feature = "global-permits")]
         // Global permit
-        cmd.arg(&[format!("permits/{permit}")]);
+        let key = format!("permits/{permit}");
+
+        // Atomically execute the following commands
+        let mut pipeline = redis::pipe();
+        pipeline
+            .atomic()
+            // Issue the permit
+            .cmd("SET")
+            .arg(key)
+            .arg(public_key)
+            .arg(&["EX", &expiry.as_secs().to_string()]);
+
+        // Count the permit towards the broker's load until it is redeemed or expires
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SADD")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .cmd("EXPIREMEMBER")
+            .arg(&[
+                format!("{for_broker}/permits"),
+                permit.to_string(),
+                expiry.as_secs().to_string(),
+            ]);
 
-        // Issue the permit
         bail!(
-            cmd.arg(public_key)
-                .arg(&["EX", &expiry.as_secs().to_string()])
+            pipeline
                 .query_async::<()>(&mut self.underlying_connection)
                 .await,
             Connection,
@@ -250,18 +269,33 @@ impl DiscoveryClient for Redis {
     ) -> Result<Option<Vec<u8>>> {
         // Remove this permit verifying it exists for either one broker or
         // all brokers (with the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("GETDEL");
         #[cfg(not(feature = "global-permits"))]
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        let key = format!("{for_broker}/permits/{permit}");
         #[cfg(feature = "global-permits")]
-        cmd.arg(&[format!("permits/{permit}")]);
+        let key = format!("permits/{permit}");
 
-        // Remove the permit
-        Ok(bail!(
-            cmd.query_async(&mut self.underlying_connection).await,
+        // Atomically execute the following commands
+        let mut pipeline = redis::pipe();
+        pipeline
+            .atomic()
+            // Remove the permit
+            .cmd("GETDEL")
+            .arg(key);
+
+        // No longer count the permit towards the broker's load
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SREM")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .ignore();
+
+        let (public_key,): (Option<Vec<u8>>,) = bail!(
+            pipeline.query_async(&mut self.underlying_connection).await,
             Connection,
             "failed to connect to Redis"
-        ))
+        );
+
+        Ok(public_key)
     }
 
     /// Atomically set the list of whitelisted users
-- 
2.43.0


From 4db439ca9dcf7dcca802df8ab107b0244ed4f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 09/23] fix: don't send empty subscription changes from the
 client

A broker disconnects users that supply no topics.
---
 cdn-client/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..2086034 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -390,6 +390,12 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| !subscribed_guard.contains(topic))
             .collect();
 
+        // If there is nothing to change, don't send anything: a broker disconnects users that
+        // supply no topics
+        if topics_to_send.is_empty() {
+            return self.try_get_connection().map(|_| ());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Subscribe(topics_to_send.clone()))
@@ -424,6 +430,12 @@ impl<C: ConnectionDef> Client<C> {
             .filter(|topic| subscribed_guard.contains(topic))
             .collect();
 
+        // If there is nothing to change, don't send anything: a broker disconnects users that
+        // supply no topics
+        if topics_to_send.is_empty() {
+            return self.try_get_connection().map(|_| ());
+        }
+
         // Send the topics
         bail!(
             self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-- 
2.43.0


From d7121a1b99ec508f8b7db1a5307a22febc4f4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 10/23] fix: ensure_initialized fails if the client is closed
 while it waits

---
 cdn-client/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 2086034..d722340 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -332,7 +332,11 @@ impl<C: ConnectionDef> Client<C> {
         }
 
         // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+        if self.connecting_guard.acquire().await.is_err() {
+            return Err(Error::Connection(
+                "client has been manually closed".to_string(),
+            ));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 8cec419100c3b42d50982d8c19e822519ca2ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 11/23] fix: a failing call disconnects only the connection it
 used

It took whatever connection was current by then, possibly a new one, and
left others receiving from the old one. Waiting for the write lock could
also deadlock with a reconnection that waits for the subscribed topics.
---
 cdn-client/src/lib.rs                     | 26 +++++++++++++----------
 cdn-proto/src/connection/protocols/mod.rs | 18 ++++++++++++++++
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index d722340..f8f7af2 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -144,18 +144,22 @@ pub struct Config<C: ConnectionDef> {
     pub subscribed_topics: Vec<Topic>,
 }
 
-// Disconnects the current connection if an error was passed in and we're
-// not already reconnecting.
+// Disconnects the connection that was used if an error was passed in
 macro_rules! disconnect_on_error {
-    ($self:expr, $res: expr) => {
+    ($self:expr, $connection:expr, $res: expr) => {
         match $res {
             Ok(t) => Ok(t),
             Err(e) => {
-                // If we are not currently reconnecting, take the current connection
-                if $self.connecting_guard.available_permits() > 0 {
-                    // If we ran into an error, take the current connection.
-                    // This will only start reconnecting if we try to receive or send another message.
-                    $self.connection.write().await.take();
+                // If we ran into an error, close the connection for everyone that still uses it.
+                $connection.close();
+
+                // If it is still the current connection, take it. Otherwise, it has already been replaced
+                // (or is just being replaced, in which case somebody else holds the lock).
+                // This will only start reconnecting if we try to receive or send another message.
+                if let Ok(mut current) = $self.connection.try_write() {
+                    if current.as_ref().is_some_and(|c| c.is_same(&$connection)) {
+                        current.take();
+                    }
                 }
 
                 Err(e)
@@ -297,7 +301,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.send_message(message).await)
+        disconnect_on_error!(self, connection, connection.send_message(message).await)
     }
 
     /// Receives a message from the underlying fallible connection. Reconnection logic is here,
@@ -311,7 +315,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.get_connection().await?;
 
         // Receive a message
-        disconnect_on_error!(self, connection.recv_message().await)
+        disconnect_on_error!(self, connection, connection.recv_message().await)
     }
 
     /// Returns only when the connection is fully initialized
@@ -469,7 +473,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.soft_close().await)
+        disconnect_on_error!(self, connection, connection.soft_close().await)
     }
 
     /// Shut down the client, closing the connection and aborting all tasks.
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index ea9bd2f..fa76968 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -283,6 +283,24 @@ impl Connection {
         ))
     }
 
+    /// Close the connection, even if others still hold it: they can neither send nor receive
+    /// any more.
+    pub fn close(&self) {
+        self.0.sender.close();
+        self.0.receiver.close();
+
+        // Stop receiving. The sender task, which comes first, is done as soon as it has dealt with
+        // what is queued. We can't abort it: somebody may be waiting for a soft close to be acknowledged.
+        for task in self.0.tasks.iter().skip(1) {
+            task.abort();
+        }
+    }
+
+    /// Whether or not this is a handle to the same connection as `other`
+    pub fn is_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Soft close the connection, allowing all messages to be sent before closing.
     ///
     /// # Errors
-- 
2.43.0


From 329aaa463710d2baa7768e3bc8e1e16ae577147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 12/23] fix: closing the client closes the connection while it
 is in use

A pending receive kept it open, and waiting for the write lock could hang.
---
 cdn-client/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index f8f7af2..8ffc421 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -206,6 +206,13 @@ impl<C: ConnectionDef> Client<C> {
     /// - If we are in the middle of reconnecting
     /// - If the connection has been manually closed
     fn reconnect_if_needed(&self, possible_connection: Option<Connection>) -> Result<Connection> {
+        // If the connecting guard is closed, the client has been manually closed
+        if self.connecting_guard.is_closed() {
+            return Err(Error::Connection(
+                "client has been manually closed".to_string(),
+            ));
+        }
+
         let Some(connection) = possible_connection else {
             // If the connection is not initialized for one reason or another, try to reconnect
             // Acquire the semaphore to ensure only one reconnection is happening at a time
@@ -491,8 +498,17 @@ impl<C: ConnectionDef> Client<C> {
             reconnection_task.abort();
         }
 
+        // Close the connection, even if somebody is still receiving from it. Don't wait for the write
+        // lock: it would be granted only after everyone who started waiting for the connection before
+        // us has been polled again
+        if let Some(connection) = self.connection.read().await.as_ref() {
+            connection.close();
+        }
+
         // Take the connection
-        self.connection.write().await.take();
+        if let Ok(mut connection) = self.connection.try_write() {
+            connection.take();
+        }
     }
 
     /// Returns whether or not the client has been manually closed
-- 
2.43.0


From 887757a9d4a2c1888d69447f003950fe6cb934d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 13/23] fix: add a user or broker before its first message is
 handled

The receive loop was spawned before the connection was in the map. With
several threads it could handle messages, or remove the connection, first:
a subscription was lost, or a dead connection stayed in the map.
---
 cdn-broker/src/tasks/broker/handler.rs | 52 ++++++++++++++------------
 cdn-broker/src/tasks/user/handler.rs   | 42 +++++++++++----------
 2 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 9302490..209989e 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -67,32 +67,36 @@ impl<Def: RunDef> Inner<Def> {
         let connection_ = connection.clone();
         let broker_identifier_ = broker_identifier.clone();
 
-        // Start the receiving end of the broker
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_
-                .broker_receive_loop(&broker_identifier_, connection_)
-                .await
-            {
-                error!(
-                    id = %broker_identifier_,
-                    error = err.to_string(),
-                    "broker error"
-                );
+        {
+            // Hold the lock while we spawn the loop, so that the broker is in the map before the loop
+            // handles its first message (or removes it)
+            let mut connections = self.connections.write();
+
+            // Start the receiving end of the broker
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_
+                    .broker_receive_loop(&broker_identifier_, connection_)
+                    .await
+                {
+                    error!(
+                        id = %broker_identifier_,
+                        error = err.to_string(),
+                        "broker error"
+                    );
 
-                // Remove the broker from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to receive message");
-            };
-        })
-        .abort_handle();
+                    // Remove the broker from the map
+                    self_
+                        .connections
+                        .write()
+                        .remove_broker(&broker_identifier_, "failed to receive message");
+                };
+            })
+            .abort_handle();
 
-        // Add to our list of connections, removing the old one if it exists
-        self.connections
-            .write()
-            .add_broker(broker_identifier.clone(), connection, receive_handle);
+            // Add to our list of connections, removing the old one if it exists
+            connections.add_broker(broker_identifier.clone(), connection, receive_handle);
+        }
 
         // Send a full topic sync
         if let Err(err) = self.full_topic_sync(&broker_identifier).await {
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d43463c..9d1d607 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -55,25 +55,29 @@ impl<Def: RunDef> Inner<Def> {
         let public_key_ = public_key.clone();
         let connection_ = connection.clone();
 
-        // Spawn the user receive loop
-        let receive_handle = spawn(async move {
-            // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
-                warn!(id = user_identifier, error = err.to_string(), "user error");
-
-                // Remove the user from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_user(public_key_, "failed to receive message");
-            };
-        })
-        .abort_handle();
-
-        // Add our user and remove the old one if it exists
-        self.connections
-            .write()
-            .add_user(&public_key, connection, &topics, receive_handle);
+        {
+            // Hold the lock while we spawn the loop, so that the user is in the map before the loop
+            // handles its first message (or removes it)
+            let mut connections = self.connections.write();
+
+            // Spawn the user receive loop
+            let receive_handle = spawn(async move {
+                // If we error, come back to the callback so we can remove the connection from the list.
+                if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+                    warn!(id = user_identifier, error = err.to_string(), "user error");
+
+                    // Remove the user from the map
+                    self_
+                        .connections
+                        .write()
+                        .remove_user(public_key_, "failed to receive message");
+                };
+            })
+            .abort_handle();
+
+            // Add our user and remove the old one if it exists
+            connections.add_user(&public_key, connection, &topics, receive_handle);
+        }
 
         // If we have `strong-consistency` enabled,
         #[cfg(feature = "strong-consistency")]
-- 
2.43.0


From 2e566b4a0e868ec1ba2390b573bfb3e38945d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 14/23] fix: a connection that has been replaced doesn't affect
 its replacement

A stale receive loop or a failed send removed whatever connection the user
or broker had by then, and messages of the old session could change the new
one's subscriptions.
---
 cdn-broker/src/connections/mod.rs      | 48 ++++++++++++++++++++++++++
 cdn-broker/src/tasks/broker/handler.rs | 20 ++++++-----
 cdn-broker/src/tasks/broker/sender.rs  | 11 +++---
 cdn-broker/src/tasks/user/handler.rs   | 30 +++++++++-------
 cdn-broker/src/tasks/user/sender.rs    | 10 +++---
 5 files changed, 89 insertions(+), 30 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index d1c1100..9b5df29 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -356,6 +356,54 @@ impl Connections {
             .remove_if_equals(user_public_key, self.identity.clone());
     }
 
+    /// Whether or not the broker is (still) connected to us through this connection.
+    pub fn is_broker_connection(
+        &self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+    ) -> bool {
+        self.brokers
+            .get(broker_identifier)
+            .is_some_and(|broker| broker.connection.is_same(connection))
+    }
+
+    /// Whether or not the user is (still) connected to us through this connection.
+    pub fn is_user_connection(
+        &self,
+        user_public_key: &UserPublicKey,
+        connection: &Connection,
+    ) -> bool {
+        self.users
+            .get(user_public_key)
+            .is_some_and(|(current, _)| current.is_same(connection))
+    }
+
+    /// Remove a broker from our map if it is still connected to us through this connection. It may
+    /// have reconnected since we took the connection from the map.
+    pub fn remove_broker_connection(
+        &mut self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self.is_broker_connection(broker_identifier, connection) {
+            self.remove_broker(broker_identifier, reason);
+        }
+    }
+
+    /// Remove a user from our map if it is still connected to us through this connection. It may
+    /// have reconnected since we took the connection from the map.
+    pub fn remove_user_connection(
+        &mut self,
+        user_public_key: UserPublicKey,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self.is_user_connection(&user_public_key, connection) {
+            self.remove_user(user_public_key, reason);
+        }
+    }
+
     /// Locally subscribe a broker to some topics.
     pub fn subscribe_broker_to(
         &mut self,
diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 209989e..92dc494 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -76,7 +76,7 @@ impl<Def: RunDef> Inner<Def> {
             let receive_handle = spawn(async move {
                 // If we error, come back to the callback so we can remove the connection from the list.
                 if let Err(err) = self_
-                    .broker_receive_loop(&broker_identifier_, connection_)
+                    .broker_receive_loop(&broker_identifier_, connection_.clone())
                     .await
                 {
                     error!(
@@ -85,11 +85,12 @@ impl<Def: RunDef> Inner<Def> {
                         "broker error"
                     );
 
-                    // Remove the broker from the map
-                    self_
-                        .connections
-                        .write()
-                        .remove_broker(&broker_identifier_, "failed to receive message");
+                    // Remove the broker from the map, unless it has reconnected
+                    self_.connections.write().remove_broker_connection(
+                        &broker_identifier_,
+                        &connection_,
+                        "failed to receive message",
+                    );
                 };
             })
             .abort_handle();
@@ -186,9 +187,10 @@ impl<Def: RunDef> Inner<Def> {
                     );
 
                     // Apply the topic sync
-                    self.connections
-                        .write()
-                        .apply_topic_sync(broker_identifier, topic_sync);
+                    let mut connections = self.connections.write();
+                    if connections.is_broker_connection(broker_identifier, &connection) {
+                        connections.apply_topic_sync(broker_identifier, topic_sync);
+                    }
                 }
 
                 // Do nothing if we receive an unexpected message
diff --git a/cdn-broker/src/tasks/broker/sender.rs b/cdn-broker/src/tasks/broker/sender.rs
index bbb7de8..0f2d4aa 100644
--- a/cdn-broker/src/tasks/broker/sender.rs
+++ b/cdn-broker/src/tasks/broker/sender.rs
@@ -35,11 +35,12 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to broker: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to send message");
+                // Remove the broker if we failed to send the message, unless it has reconnected
+                self_.connections.write().remove_broker_connection(
+                    &broker_identifier_,
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index 9d1d607..706ed01 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -63,14 +63,18 @@ impl<Def: RunDef> Inner<Def> {
             // Spawn the user receive loop
             let receive_handle = spawn(async move {
                 // If we error, come back to the callback so we can remove the connection from the list.
-                if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+                if let Err(err) = self_
+                    .user_receive_loop(&public_key_, connection_.clone())
+                    .await
+                {
                     warn!(id = user_identifier, error = err.to_string(), "user error");
 
-                    // Remove the user from the map
-                    self_
-                        .connections
-                        .write()
-                        .remove_user(public_key_, "failed to receive message");
+                    // Remove the user from the map, unless it has reconnected
+                    self_.connections.write().remove_user_connection(
+                        public_key_,
+                        &connection_,
+                        "failed to receive message",
+                    );
                 };
             })
             .abort_handle();
@@ -146,9 +150,10 @@ impl<Def: RunDef> Inner<Def> {
                     Def::Topic::prune(&mut subscribe)?;
 
                     // TODO: add handle functions for this to make it easier to read
-                    self.connections
-                        .write()
-                        .subscribe_user_to(public_key, subscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_user_connection(public_key, &connection) {
+                        connections.subscribe_user_to(public_key, subscribe);
+                    }
                 }
 
                 // Unsubscribe messages from users will just update the state locally
@@ -156,9 +161,10 @@ impl<Def: RunDef> Inner<Def> {
                     // Prune the topics
                     Def::Topic::prune(&mut unsubscribe)?;
 
-                    self.connections
-                        .write()
-                        .unsubscribe_user_from(public_key, &unsubscribe);
+                    let mut connections = self.connections.write();
+                    if connections.is_user_connection(public_key, &connection) {
+                        connections.unsubscribe_user_from(public_key, &unsubscribe);
+                    }
                 }
 
                 _ => return Err(Error::Connection("invalid message received".to_string())),
diff --git a/cdn-broker/src/tasks/user/sender.rs b/cdn-broker/src/tasks/user/sender.rs
index c701f38..d2762ad 100644
--- a/cdn-broker/src/tasks/user/sender.rs
+++ b/cdn-broker/src/tasks/user/sender.rs
@@ -23,10 +23,12 @@ impl<Def: RunDef> Inner<Def> {
             if let Err(e) = connection.send_message_raw(message).await {
                 error!("failed to send message to user: {:?}", e);
 
-                // Remove the broker if we failed to send the message
-                self.connections
-                    .write()
-                    .remove_user(user.clone(), "failed to send message");
+                // Remove the user if we failed to send the message, unless it has reconnected
+                self.connections.write().remove_user_connection(
+                    user.clone(),
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
-- 
2.43.0


From aeeee801d5ecaa8d6ab9c698bab16d212986b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 15/23] fix: don't spin without pause when the other brokers
 can't be listed (C16)

---
 cdn-broker/src/tasks/broker/heartbeat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/heartbeat.rs b/cdn-broker/src/tasks/broker/heartbeat.rs
index e7a8f5f..4a485e9 100644
--- a/cdn-broker/src/tasks/broker/heartbeat.rs
+++ b/cdn-broker/src/tasks/broker/heartbeat.rs
@@ -55,12 +55,12 @@ impl<Def: RunDef> Inner<Def> {
                     Ok(Ok(brokers)) => brokers,
                     Ok(Err(err)) => {
                         error!("failed to get other brokers: {}", err);
-                        continue;
+                        HashSet::new()
                     }
                     Err(_) => {
                         // This is an important error
                         error!("timed out trying to get other brokers");
-                        continue;
+                        HashSet::new()
                     }
                 };
 
-- 
2.43.0


From aa0a831284edf177cc8b9e1ead7540dea2c3f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 16/23] fix: a failed accept doesn't end the broker or marshal
 (C19)

---
 cdn-broker/src/tasks/broker/listener.rs |  9 ++++++---
 cdn-broker/src/tasks/user/listener.rs   |  9 ++++++---
 cdn-marshal/src/lib.rs                  | 20 +++++++++++++-------
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/listener.rs b/cdn-broker/src/tasks/broker/listener.rs
index 3e3f333..234b30c 100644
--- a/cdn-broker/src/tasks/broker/listener.rs
+++ b/cdn-broker/src/tasks/broker/listener.rs
@@ -6,13 +6,13 @@
 
 //! The broker listener task listens and handles connections from new brokers.
 
-use std::sync::Arc;
+use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{
     connection::protocols::{Listener as _, UnfinalizedConnection},
     def::{Listener, RunDef},
 };
-use tokio::spawn;
+use tokio::{spawn, time::sleep};
 use tracing::error;
 
 use crate::Inner;
@@ -26,7 +26,10 @@ impl<Def: RunDef> Inner<Def> {
                 Ok(connection) => connection,
                 Err(err) => {
                     error!("failed to accept connection: {}", err);
-                    return;
+
+                    // Don't retry in a hot loop
+                    sleep(Duration::from_millis(50)).await;
+                    continue;
                 }
             };
 
diff --git a/cdn-broker/src/tasks/user/listener.rs b/cdn-broker/src/tasks/user/listener.rs
index 5f2e8f3..7798bcc 100644
--- a/cdn-broker/src/tasks/user/listener.rs
+++ b/cdn-broker/src/tasks/user/listener.rs
@@ -6,13 +6,13 @@
 
 //! The user listener tasks listens and deals with user connections.
 
-use std::sync::Arc;
+use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{
     connection::protocols::{Listener as _, UnfinalizedConnection},
     def::{Listener, RunDef},
 };
-use tokio::spawn;
+use tokio::{spawn, time::sleep};
 use tracing::error;
 
 use crate::Inner;
@@ -26,7 +26,10 @@ impl<Def: RunDef> Inner<Def> {
                 Ok(connection) => connection,
                 Err(err) => {
                     error!("failed to accept connection: {}", err);
-                    return;
+
+                    // Don't retry in a hot loop
+                    sleep(Duration::from_millis(50)).await;
+                    continue;
                 }
             };
 
diff --git a/cdn-marshal/src/lib.rs b/cdn-marshal/src/lib.rs
index 3de9628..f1f4225 100644
--- a/cdn-marshal/src/lib.rs
+++ b/cdn-marshal/src/lib.rs
@@ -14,6 +14,7 @@
 use std::{
     net::{SocketAddr, ToSocketAddrs},
     sync::Arc,
+    time::Duration,
 };
 
 mod handlers;
@@ -31,8 +32,8 @@ use cdn_proto::{
     metrics as proto_metrics,
     util::AbortOnDropHandle,
 };
-use tokio::spawn;
-use tracing::info;
+use tokio::{spawn, time::sleep};
+use tracing::{error, info};
 
 /// The `Marshal's` configuration (with a Builder), to help with usability.
 /// We need this to construct a `Marshal`
@@ -157,11 +158,16 @@ impl<R: RunDef> Marshal<R> {
         // Listen for connections forever
         loop {
             // Accept an unfinalized connection. If we fail, print the error and keep going.
-            let unfinalized_connection = bail!(
-                self.listener.accept().await,
-                Connection,
-                "failed to accept connection"
-            );
+            let unfinalized_connection = match self.listener.accept().await {
+                Ok(connection) => connection,
+                Err(err) => {
+                    error!("failed to accept connection: {err}");
+
+                    // Don't retry in a hot loop
+                    sleep(Duration::from_millis(50)).await;
+                    continue;
+                }
+            };
 
             // Create a task to handle the connection
             let discovery_client = self.discovery_client.clone();
-- 
2.43.0


From 8470755ef56c58a305d5e127136eecc1bd00b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 17/23] fix: issue permits for the key in its canonical form
 (C11)

---
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..060ff83 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -123,7 +123,7 @@ impl<R: RunDef> MarshalAuth<R> {
                 #[cfg(not(feature = "global-permits"))]
                 &broker_with_least_connections,
                 Duration::from_secs(30),
-                auth_message.public_key,
+                public_key.clone(),
             )
             .await
         {
-- 
2.43.0


From 554ba533e68314b94168d6c9deb8974ea4e2cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 18/23] fix: another broker's tombstone doesn't end the session
 of a user that is connected here (C08)

---
 cdn-broker/src/connections/mod.rs           |  6 +++++-
 cdn-broker/src/connections/versioned_map.rs | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 9b5df29..1fed789 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -151,7 +151,11 @@ impl Connections {
 
     /// Apply a received user sync map. Overwrites our values if they are old.
     /// Kicks off users that are now connected elsewhere.
-    pub fn apply_user_sync(&mut self, map: DirectMap) {
+    pub fn apply_user_sync(&mut self, mut map: DirectMap) {
+        // A user that left another broker is still here if it is connected to us
+        self.direct_map
+            .outlive_tombstones(&mut map, |user| self.users.contains_key(user));
+
         // Merge the maps, returning the difference
         let users_to_remove = self.direct_map.merge(map);
 
diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 4649d1c..377b0dc 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -193,6 +193,25 @@ impl<
         }
     }
 
+    /// Drop the tombstones from `remote` that are for keys we know to still be `ours`. If they are not older than
+    /// our value, makes ours newer still (as a local modification), so that it also prevails everywhere else.
+    pub fn outlive_tombstones(&mut self, remote: &mut Self, ours: impl Fn(&K) -> bool) {
+        remote.underlying_map.retain(|key, remote_value| {
+            if remote_value.value.is_some() || !ours(key) {
+                return true;
+            }
+
+            if let Some(local_value) = self.underlying_map.get_mut(key) {
+                if remote_value.version >= local_value.version {
+                    local_value.version = remote_value.version + 1;
+                    self.locally_modified_keys.insert(key.clone());
+                }
+            }
+
+            false
+        });
+    }
+
     /// Merge the changes from two `VersionedMap`s, keeping only the newest changes. On a conflict,
     /// uses the `conflict_identity` to figure out who should get the value.
     ///
-- 
2.43.0


From 0e87e2368e0c1b7e263f768907b57cc5fc9aac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 19/23] hook (cfg pushcdn_verif): name the type of what a
 broker holds, so that several can be set against each other

---
 cdn-broker/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/lib.rs b/cdn-broker/src/lib.rs
index 389252e..602bf16 100644
--- a/cdn-broker/src/lib.rs
+++ b/cdn-broker/src/lib.rs
@@ -14,11 +14,12 @@ pub mod reexports;
 mod tasks;
 
 /// Verification hook (only with `--cfg pushcdn_verif`): names the types of the maps that brokers
-/// exchange, so that a conformance harness can act as a peer broker.
+/// exchange and that of what they hold, so that a conformance harness can act as a peer broker and set several against
+/// each other.
 #[allow(unexpected_cfgs)]
 #[cfg(pushcdn_verif)]
 pub mod verif {
-    pub use crate::connections::{DirectMap, SubscriptionStatus, TopicSyncMap};
+    pub use crate::connections::{Connections, DirectMap, SubscriptionStatus, TopicSyncMap};
 }
 
 /// This is not guarded by `![cfg(test)]` because we use the same functions
-- 
2.43.0


From 257a6f230e451d76117421af17767a4687903c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 20/23] fix: a peer repeating an old claim of ours doesn't
 leave a user with two sessions (C08)

---
 cdn-broker/src/connections/mod.rs           | 16 ++++++----------
 cdn-broker/src/connections/versioned_map.rs | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 1fed789..1c61757 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -152,21 +152,17 @@ impl Connections {
     /// Apply a received user sync map. Overwrites our values if they are old.
     /// Kicks off users that are now connected elsewhere.
     pub fn apply_user_sync(&mut self, mut map: DirectMap) {
-        // A user that left another broker is still here if it is connected to us
-        self.direct_map
-            .outlive_tombstones(&mut map, |user| self.users.contains_key(user));
+        // A user that left another broker, or of which another broker only repeats that it is
+        // here, is still here if it is connected to us
+        self.direct_map.outlive(&mut map, &self.identity, |user| {
+            self.users.contains_key(user)
+        });
 
         // Merge the maps, returning the difference
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, new_broker) in users_to_remove {
-            // Another broker may only be repeating what we told it: a user that is
-            // connected to us stays if that is where it is supposed to be
-            if new_broker.as_ref() == Some(&self.identity) && self.users.contains_key(&user) {
-                continue;
-            }
-
+        for (user, _new_broker) in users_to_remove {
             self.remove_user(user, "user connected elsewhere");
         }
     }
diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 377b0dc..687993a 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -193,16 +193,21 @@ impl<
         }
     }
 
-    /// Drop the tombstones from `remote` that are for keys we know to still be `ours`. If they are not older than
-    /// our value, makes ours newer still (as a local modification), so that it also prevails everywhere else.
-    pub fn outlive_tombstones(&mut self, remote: &mut Self, ours: impl Fn(&K) -> bool) {
+    /// Drop from `remote` what it says about keys we know to still be `ours`: tombstones, and values that are `our_value`
+    /// (these only repeat what we once told). If they are newer than our value (or as new, for a tombstone), makes ours
+    /// newer still (as a local modification), so that it also prevails everywhere else.
+    pub fn outlive(&mut self, remote: &mut Self, our_value: &V, ours: impl Fn(&K) -> bool) {
         remote.underlying_map.retain(|key, remote_value| {
-            if remote_value.value.is_some() || !ours(key) {
+            let is_tombstone = remote_value.value.is_none();
+            let is_echo = remote_value.value.as_ref() == Some(our_value);
+            if !(is_tombstone || is_echo) || !ours(key) {
                 return true;
             }
 
             if let Some(local_value) = self.underlying_map.get_mut(key) {
-                if remote_value.version >= local_value.version {
+                if remote_value.version > local_value.version
+                    || (is_tombstone && remote_value.version == local_value.version)
+                {
                     local_value.version = remote_value.version + 1;
                     self.locally_modified_keys.insert(key.clone());
                 }
-- 
2.43.0


From 3e6bf51099a512eeed0572f0a6dfde66d7a6d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 21/23] fix: versions of a user's location don't begin anew
 after its deletion was told (C08)

---
 cdn-broker/src/connections/versioned_map.rs | 22 ++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 687993a..fe8df08 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use derivative::Derivative;
-use rkyv::{Archive, Deserialize, Serialize};
+use rkyv::{with::Skip, Archive, Deserialize, Serialize};
 
 /// A tombstone is just a removed value.
 type Tombstone<T> = Option<T>;
@@ -45,6 +45,12 @@ pub struct VersionedMap<K: Eq + Hash + Debug, V: Debug, C> {
     #[derivative(PartialEq = "ignore")]
     locally_modified_keys: HashSet<K>,
 
+    /// The newest version at which a key was deleted, of those we no longer keep track of. Others may not know of the
+    /// deletion yet, so a key we don't know (any more) gets a newer version. Nobody else's concern: is not sent.
+    #[derivative(PartialEq = "ignore")]
+    #[with(Skip)]
+    forgotten_version: u64,
+
     /// The conflict identity for resolving conflicts. If there is a conflict, the higher value wins.
     /// There are no guarantees on what happens when two actors of the same identity try to make changes.
     #[derivative(PartialEq = "ignore")]
@@ -62,6 +68,7 @@ impl<
         Self {
             underlying_map: HashMap::new(),
             locally_modified_keys: HashSet::new(),
+            forgotten_version: 0,
             conflict_identity,
         }
     }
@@ -100,9 +107,9 @@ impl<
 
             // If there isn't already an entry,
             Entry::Vacant(entry) => {
-                // Insert it with a version of `1`.
+                // Insert it with a version of `1`, or one newer than any we have forgotten.
                 entry.insert(VersionedValue {
-                    version: 1,
+                    version: self.forgotten_version + 1,
                     value: v,
                 });
             }
@@ -159,6 +166,7 @@ impl<
         Self {
             underlying_map: self.underlying_map.clone(),
             locally_modified_keys: HashSet::new(),
+            forgotten_version: 0,
             conflict_identity: self.conflict_identity.clone(),
         }
     }
@@ -179,6 +187,8 @@ impl<
 
                 // If the value is none,
                 if value.value.is_none() {
+                    self.forgotten_version = self.forgotten_version.max(value.version);
+
                     // Remove it from the underlying map. We don't need to keep track of it any more.
                     self.underlying_map.remove(&modified_key);
                 }
@@ -189,6 +199,7 @@ impl<
         Self {
             underlying_map: diff_map,
             locally_modified_keys: HashSet::new(),
+            forgotten_version: 0,
             conflict_identity: self.conflict_identity.clone(),
         }
     }
@@ -228,6 +239,11 @@ impl<
 
         // For each `(k,v)` pair that has allegedly changed,
         for (remote_key, remote_value) in remote.underlying_map {
+            // We don't keep tombstones
+            if remote_value.value.is_none() {
+                self.forgotten_version = self.forgotten_version.max(remote_value.version);
+            }
+
             // If we have a local value for it,
             if let Some(local_value) = self.underlying_map.get_mut(&remote_key) {
                 // Compare the remote value's version to ours.
-- 
2.43.0


From 13c9ff1b35fad3cc3acb9be1e28276a5a67b9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 22/23] fix: a client that says it is initialized can be used
 right away (C21)

---
 cdn-client/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 8ffc421..b191fcb 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -245,6 +245,9 @@ impl<C: ConnectionDef> Client<C> {
                                 }
                             }
                         }
+                        // Only let go of the guard once the connection can be used: whoever waits for us to be done
+                        // uses it right away
+                        drop(connection);
                         drop(permit);
                     }));
 
-- 
2.43.0


From 1060e2d4ad386a83797c5fc597e0be66ba96d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 23/23] fix: a peer that takes nothing in ends a TLS connection
 too (C17)

---
 cdn-proto/src/connection/protocols/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index fa76968..548f05b 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -164,11 +164,18 @@ impl Connection {
                             break;
                         };
 
-                        // Flush the writer
+                        // Flush the writer, for which the same time limit holds as for writing to it
                         // Is a no-op for everything but TCP+TLS
-                        if let Err(err) = writer.flush().await {
-                            warn!("failed to flush writer: {:?}", err);
-                            break;
+                        match timeout(Duration::from_secs(5), writer.flush()).await {
+                            Ok(Ok(())) => (),
+                            Ok(Err(err)) => {
+                                warn!("failed to flush writer: {:?}", err);
+                                break;
+                            }
+                            Err(_) => {
+                                warn!("timed out trying to flush writer");
+                                break;
+                            }
                         };
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
-- 
2.43.0

