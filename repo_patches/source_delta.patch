From d122652d98d76eb993590780baef3a37ff5398df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:06 +0000
Subject: [PATCH 01/34] fix: account for the replaced filter when the cache
 already holds that height

---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From 41abceaa95c207f9f99519cf4646aa4394903f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:06 +0000
Subject: [PATCH 02/34] fix: forget queued filters of reverted blocks

---
 p2p/src/fsm/cbfmgr/rescan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..dacc4ca 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,9 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // Filters of blocks that are no longer on the active chain must not be processed.
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// A filter was received.
-- 
2.43.0


From 15ae1bee8590bf5057cccdeca22ba4ffe343adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:06 +0000
Subject: [PATCH 03/34] fix: reject `getcfheaders` requests with an inverted or
 oversized range

---
 p2p/src/fsm/cbfmgr.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..7a4f955 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -748,6 +748,19 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             });
         };
 
+        if start_height > stop_height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: start height is greater than stop height",
+            });
+        }
+        if stop_height - start_height >= MAX_MESSAGE_CFHEADERS as Height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: requested range exceeds maximum",
+            });
+        }
+
         let headers = self.filters.get_headers(start_height..=stop_height);
         if !headers.is_empty() {
             let hashes = headers.iter().map(|(hash, _)| *hash);
-- 
2.43.0


From a946bfe20946fabf703d26c0f680f474cd13a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:06 +0000
Subject: [PATCH 04/34] fix: do not panic when filters cannot be requested
 after a header import

---
 p2p/src/fsm/cbfmgr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 7a4f955..87acc9f 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -704,7 +704,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
+                // Nb. If there is no peer to request the filters from, they are requested on
+                // the next sync.
+                if let Err(err) = self.headers_imported(start_height, height, tree) {
+                    log::debug!(target: "p2p", "Filters not requested: {err}");
+                }
 
                 assert!(height <= tree.height());
 
-- 
2.43.0


From ac0dc25880c017c013b83743256c368b2328f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:06 +0000
Subject: [PATCH 05/34] fix: spare the unresponsive persistent peer, not the
 sampled one, on filter header timeouts

---
 p2p/src/fsm/cbfmgr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 87acc9f..2721431 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -329,11 +329,12 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
                 // Nb. Purposefully allow re-sampling the same peer, for cases where we are only
                 // connected to one peer.
-                if let Some((a, peer)) = self.peers.sample() {
+                if let Some((a, _)) = self.peers.sample() {
                     let a = *a;
-                    // Disconnect only if we found a different peer, and this isn't
-                    // a persistent peer.
-                    if a != *addr && !peer.persistent {
+                    let persistent = self.peers.get(addr).map_or(false, |p| p.persistent);
+                    // Disconnect only if we found a different peer, and the unresponsive
+                    // peer isn't a persistent peer.
+                    if a != *addr && !persistent {
                         self.peers.remove(addr);
                         self.outbox
                             .disconnect(*addr, DisconnectReason::PeerTimeout("getcfheaders"));
-- 
2.43.0


From c8d65c29154a2bba827ed99ab7377d4c352eb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:42 +0000
Subject: [PATCH 06/34] fix: stop a rescan once its last height was processed

---
 p2p/src/fsm/cbfmgr/rescan.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index dacc4ca..8022359 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -134,7 +134,8 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            // Nb. `current` is the next height to process, and may advance by more than one.
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From 6830d6a97481ab057a85f16a9466da3a95d5f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:54 +0000
Subject: [PATCH 07/34] fix: refuse a filter request beyond the filter header
 chain instead of panicking

---
 p2p/src/fsm/cbfmgr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 2721431..4b2b558 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -444,10 +444,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if self.peers.is_empty() {
             return Err(GetFiltersError::NotConnected);
         }
-        if range.is_empty() {
+        if range.is_empty() || *range.end() > self.filters.height() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 79f736cfb2a3c3971c40116137463f14ed5373f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:24 +0000
Subject: [PATCH 08/34] fix: keep imported addresses, which come without a
 last-active time

---
 p2p/src/fsm/addrmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..6ccbaef 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -368,8 +368,9 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time. It isn't known for imported
+            // addresses.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -403,7 +404,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From f881c2534c63e8db0dea2e8163ee9761b13620b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:24 +0000
Subject: [PATCH 09/34] fix: report blocks matched by cached filters of a
 rescan

---
 p2p/src/fsm/cbfmgr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 4b2b558..cdfc07f 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -429,6 +429,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         for event in events {
             self.outbox.event(event);
         }
+        // The caller fetches the matching blocks.
+        self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));
+
         matches
     }
 
-- 
2.43.0


From e1ae4355bade064ae1bcd99a7a9e12b56b562628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:12 +0000
Subject: [PATCH 10/34] fix: refuse a block whose transactions do not match its
 header

---
 p2p/src/fsm/invmgr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..a099d30 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -390,12 +390,21 @@ impl<C: Clock> InventoryManager<C> {
     /// Note that the confirmed transactions don't necessarily pertain to this block.
     pub fn received_block<T: BlockReader>(
         &mut self,
-        _from: &PeerId,
+        from: &PeerId,
         block: Block,
         tree: &T,
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
+        // The block hash only commits to the transactions through the merkle root.
+        if !block.check_merkle_root() {
+            self.outbox.event(Event::PeerMisbehaved {
+                addr: *from,
+                reason: "block transactions do not match the block header",
+            });
+            return vec![];
+        }
+
         if self.remaining.remove(&hash).is_none() {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
-- 
2.43.0


From c25e124e1cf36f3d7500a4195200f1aae71ac7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 11/34] fix: act on the cause of an aborted header import

---
 p2p/src/fsm/syncmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..6f9ff4a 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -314,7 +314,13 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
 
-        match self.import_blocks(headers.into_iter(), tree) {
+        let result = match self.import_blocks(headers.into_iter(), tree) {
+            // What matters here is why the import was aborted.
+            Err(Error::BlockImportAborted(err, _, _)) => Err(*err),
+            result => result,
+        };
+
+        match result {
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
-- 
2.43.0


From 1d46ed24fefd7db425a7abff0d59b8a36104ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:48 +0000
Subject: [PATCH 12/34] fix: detect connections to ourselves

---
 p2p/src/fsm/peermgr.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..372f702 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -113,6 +113,9 @@ pub struct Connection {
     pub link: Link,
     /// Connected since this time.
     pub since: LocalTime,
+
+    /// Nonce of our `version` message, if outbound. Used to detect self-connections.
+    nonce: Option<u64>,
 }
 
 /// Peer state.
@@ -157,8 +160,6 @@ pub struct PeerInfo {
     /// Whether this is a persistent peer.
     pub persistent: bool,
 
-    /// Peer nonce. Used to detect self-connections.
-    nonce: u64,
     /// Peer handshake state.
     state: HandshakeState,
 }
@@ -299,6 +300,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         height: Height,
     ) {
         let local_time = self.clock.local_time();
+        let nonce = link.is_outbound().then(|| self.rng.u64(..));
 
         #[cfg(debug_assertions)]
         if link.is_outbound() {
@@ -319,6 +321,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     local_addr,
                     link,
                     since: local_time,
+                    nonce,
                 },
                 peer: None,
             },
@@ -338,10 +341,15 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 }
             }
             Link::Outbound => {
-                let nonce = self.rng.u64(..);
                 self.outbox.version(
                     addr,
-                    self.version(addr, local_addr, nonce, height, local_time),
+                    self.version(
+                        addr,
+                        local_addr,
+                        nonce.unwrap_or_default(),
+                        height,
+                        local_time,
+                    ),
                 );
             }
         }
@@ -471,10 +479,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
-                if conn.link.is_outbound() && peer.nonce == nonce {
-                    return Err(DisconnectReason::SelfConnection);
-                }
+            if conn.link.is_inbound() && self.connected().any(|c| c.nonce == Some(nonce)) {
+                return Err(DisconnectReason::SelfConnection);
             }
 
             // If this peer doesn't have the preferred services, and we already have enough peers,
@@ -519,7 +525,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        nonce,
                         height: start_height as Height,
                         time_offset: timestamp - now.block_time() as i64,
                         services,
-- 
2.43.0


From cf40fb8b4575ae24610e9cc3c1782c405110dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:48 +0000
Subject: [PATCH 13/34] fix: ignore redundant version messages

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 372f702..cb65124 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -432,7 +432,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        // Nb. Redundant `version` messages are ignored.
+        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From 242d54963a9bee046991be90d913adac6a8ca95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:48 +0000
Subject: [PATCH 14/34] fix: do not overflow on extreme peer timestamps

---
 common/src/block/time.rs | 2 +-
 p2p/src/fsm/peermgr.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..c07b95a 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.saturating_abs() <= MAX_TIME_ADJUSTMENT {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index cb65124..5f50052 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -527,7 +527,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     conn,
                     peer: Some(PeerInfo {
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From 430ea86e8f7293caed2b5ec3a76ba7a0dc2ef046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:48 +0000
Subject: [PATCH 15/34] fix: do not take a negative peer height for a huge one

---
 p2p/src/fsm/peermgr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 5f50052..1e91ec1 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -454,6 +454,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 ..
             } = msg.clone();
 
+            let start_height = Height::try_from(start_height).unwrap_or_default();
             let target = self.config.target_outbound_peers;
             let preferred = self.config.preferred_services;
             let trusted = self.config.whitelist.contains(&addr.ip(), &user_agent)
@@ -473,10 +474,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // If the peer is too far behind, there's no use connecting to it, we'll
             // have to wait for it to catch up.
             if conn.link.is_outbound()
-                && height.saturating_sub(start_height as Height) > MAX_STALE_HEIGHT_DIFFERENCE
+                && height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE
                 && !trusted
             {
-                return Err(DisconnectReason::PeerHeight(start_height as Height));
+                return Err(DisconnectReason::PeerHeight(start_height));
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
@@ -526,7 +527,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        height: start_height as Height,
+                        height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
-- 
2.43.0


From 9dcb4940dc4b7e018e1b172179bc961ba768dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:58 +0000
Subject: [PATCH 16/34] fix: ban misbehaving peers whose address range is not
 known

---
 p2p/src/fsm/addrmgr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 6ccbaef..53c0ee7 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -555,13 +555,13 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        self.peers.remove(addr);
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
 
-            // TODO: Persist bans.
-            self.peers.remove(addr);
-            self.bans.insert(*addr);
-
             if range.is_empty() {
                 self.address_ranges.remove(&key);
             }
-- 
2.43.0


From 01d3f0e1693a13c59f87f75781dbc2eec3c33f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:25 +0000
Subject: [PATCH 17/34] fix: send the configured protocol version to peers

The protocol version of the configuration was only used in getheaders
messages; the handshake always used the default.
---
 p2p/src/fsm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 0ffd448..72097fc 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -509,7 +509,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
         );
         let peermgr = PeerManager::new(
             peermgr::Config {
-                protocol_version: PROTOCOL_VERSION,
+                protocol_version,
                 whitelist,
                 persistent: connect,
                 domains: domains.clone(),
-- 
2.43.0


From 2edd23f3a53adbaa6df5bb80916c5bd7a8310836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:41 +0000
Subject: [PATCH 18/34] fix: don't panic when the filter chain is ahead of the
 block chain

A re-org to a chain with more work but fewer blocks leaves the filter header
chain ahead of the block chain until the filter manager is told about it.
Messages, timers and commands handled in between must not crash the node.
---
 p2p/src/fsm/cbfmgr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index cdfc07f..939f547 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -403,7 +403,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             return vec![];
         }
 
-        let height = self.filters.height();
+        // Nb. The filter chain is ahead of the block chain until reverted blocks are rolled back.
+        let height = Height::min(self.filters.height(), tree.height());
         let start = self.rescan.start;
         let stop = self
             .rescan
@@ -571,7 +572,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let filter_height = self.filters.height();
         let block_height = tree.height();
 
-        assert!(filter_height <= block_height);
+        if filter_height > block_height {
+            // The block chain was re-organized to a shorter one, and the filter headers of the
+            // reverted blocks haven't been rolled back yet.
+            return;
+        }
 
         // Don't start syncing filter headers until block headers are synced passed the last
         // checkpoint. BIP 157 states that we should sync the full block header chain before
-- 
2.43.0


From 253d5c5ba4ac446fe8fc72893813fc0e05036e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:51 +0000
Subject: [PATCH 19/34] fix: don't panic on blocks with invalid transactions

The fee estimator asserted that transactions don't spend more than their
inputs, which peers can violate, as transactions aren't validated.
---
 p2p/src/fsm/fees.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..6e9fbcd 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -166,9 +166,8 @@ impl FeeEstimator {
                 return None;
             }
         }
-        assert!(received >= sent, "you can't spend what you don't have",);
-
-        let fee = received - sent;
+        // Nb. Transactions aren't validated: blocks may contain ones that spend too much.
+        let fee = received.checked_sub(sent)?;
         let weight = tx.weight();
         let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);
 
-- 
2.43.0


From 0c33a6636a3c93d4f61d4905debeb12654bd010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 20/34] fix: don't process queued blocks that were reverted

A block waiting for earlier blocks to arrive was still processed, and its
transactions reported as confirmed, if a re-org disconnected it meanwhile.
---
 p2p/src/fsm/invmgr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index a099d30..c9f308c 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -448,6 +448,11 @@ impl<C: Clock> InventoryManager<C> {
         {
             let hash = block.block_hash();
 
+            // The block may have been reverted while it was waiting to be processed.
+            if tree.get_block(&hash).is_none() {
+                continue;
+            }
+
             for tx in &block.txdata {
                 let wtxid = tx.wtxid();
 
-- 
2.43.0


From 70b4901a684f99fbf1228b425f40ab496305966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 21/34] fix: process queued blocks when the last one is stale

If the last outstanding block was no longer part of the active chain when it
arrived, the blocks waiting in the queue were left there.
---
 p2p/src/fsm/invmgr.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index c9f308c..8234046 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -420,14 +420,10 @@ impl<C: Clock> InventoryManager<C> {
         // Find the block height, otherwise we've somehow requested a block which
         // isn't part of the active chain. This could happen in the case of a re-org
         // and a delayed block arrival.
-        let height = if let Some((height, _)) = tree.get_block(&hash) {
-            height
-        } else {
-            return vec![];
-        };
-
-        // Add to processing queue. Blocks are processed in-order only.
-        self.received.insert(height, block);
+        if let Some((height, _)) = tree.get_block(&hash) {
+            // Add to processing queue. Blocks are processed in-order only.
+            self.received.insert(height, block);
+        }
 
         // If there are still blocks remaining to download, don't process any of the
         // received queue yet.
-- 
2.43.0


From 2f03f142c1e59b31caa5c1b4b8a8a8c1174148c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 22/34] fix: don't announce transactions to non-relay peers

Peers that asked not to be sent transactions when connecting were sent the
ones submitted earlier, and disconnected for not requesting them.
---
 p2p/src/fsm/invmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 8234046..57c8166 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -199,8 +199,10 @@ impl<C: Clock> InventoryManager<C> {
     ) {
         // Add existing inventories to this peer's outbox so that they are announced.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
-- 
2.43.0


From f8fce928f29838c443d1dfa8957b680c7e952d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 23/34] fix: overflow when pruning transactions after a re-org

If the new chain is shorter and the inventory manager wasn't told yet, the
subtraction overflowed, and the transactions to be reverted were lost.
---
 p2p/src/fsm/invmgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 57c8166..65bb27e 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -251,7 +251,7 @@ impl<C: Clock> InventoryManager<C> {
             // Prune confirmed transactions burried passed a certain depth.
             let height = tree.height();
             self.confirmed
-                .retain(|h, _| height - h <= TRANSACTION_PRUNE_DEPTH);
+                .retain(|h, _| height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH);
         }
 
         // Handle retries annd disconnects.
-- 
2.43.0


From 931b42b941c03beb4584a06bcd162eb4b45cf7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 24/34] fix: reset announce attempts when there is nothing left
 to announce

The attempts made for a transaction that confirmed were counted against the
next one, and the peer disconnected before it was announced.
---
 p2p/src/fsm/invmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 65bb27e..180f057 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -460,7 +460,9 @@ impl<C: Clock> InventoryManager<C> {
 
                     // Transactions that have been confirmed no longer need to be announced.
                     for peer in self.peers.values_mut() {
-                        peer.outbox.remove(&wtxid);
+                        if peer.outbox.remove(&wtxid).is_some() && peer.outbox.is_empty() {
+                            peer.reset();
+                        }
                     }
 
                     self.confirmed
-- 
2.43.0


From 09834fd2cbf554a56943a35fe3951c7d7d05ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:37 +0000
Subject: [PATCH 25/34] fix: don't roll back the fee estimator further than
 asked

Reverting blocks that weren't processed by the estimator discarded the state
of blocks that are still part of the chain.
---
 p2p/src/fsm/fees.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 6e9fbcd..0f349ac 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -125,6 +125,9 @@ impl FeeEstimator {
 
     /// Rollback to a certain height.
     pub fn rollback(&mut self, height: Height) {
+        if self.height <= height {
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
         if let Some((h, snapshot)) = self.snapshots.pop_back() {
-- 
2.43.0


From 560905abecdab379177f7ec535a9da810c35abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 26/34] fix: don't stop the reactor when interrupted by a
 signal

---
 net/poll/src/reactor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..3e9b9e5 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -268,6 +268,8 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         service.timer_expired();
                     }
                 }
+                // Nothing happened, we were only interrupted by a signal.
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
                 Err(err) => return Err(err.into()),
             }
             self.process(&mut service, &mut publisher, local_time);
-- 
2.43.0


From eb3abf1c61f703df5b35c0dba38f8c322c2d82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 27/34] fix: don't let network traffic hold up timers

---
 net/poll/src/reactor.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 3e9b9e5..e5dc3ea 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -258,20 +258,21 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 // Nothing happened, we were only interrupted by a signal.
                 Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
                 Err(err) => return Err(err.into()),
             }
+
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            // Timers expire whether or not there is traffic.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From 663a6c487ac66e4be7cf56a9e5b5cf154feb3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 28/34] fix: don't report failed connection attempts as
 connections

---
 net/poll/src/reactor.rs | 7 +++++++
 net/poll/src/socket.rs  | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index e5dc3ea..09bdb5e 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -424,6 +424,13 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         // Since we perform a non-blocking connect, we're only really connected once the socket
         // is writable.
         if self.connecting.remove(&addr) {
+            // A connection attempt that failed is signaled in the same way.
+            if let Some(err) = socket.take_error()? {
+                trace!("{}: Connection error: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..9d99b4e 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Take the pending error of the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From d38dc8d159faff2fdc2370121a4be11c311bfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 29/34] fix: waiting for a height that is passed in a single
 import

---
 client/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 85c301b..aeb5b8f 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -699,7 +699,10 @@ impl<W: Waker> handle::Handle for Handle<W> {
             None => event::wait(
                 &events,
                 |e| match e {
-                    Event::BlockHeadersImported { height, hash, .. } if height == h => Some(hash),
+                    Event::BlockHeadersImported { connected, .. } => connected
+                        .iter()
+                        .find(|(height, _)| *height == h)
+                        .map(|(_, header)| header.block_hash()),
                     _ => None,
                 },
                 self.timeout,
-- 
2.43.0


From f91c7268c965d866ce94e265a169ff6e73fc4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 30/34] fix: waiting for fewer peers than are connected

---
 client/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index aeb5b8f..f38c890 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -653,7 +653,7 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let required_services = required_services.into();
 
         let negotiated = self.get_peers(required_services)?;
-        if negotiated.len() == count {
+        if negotiated.len() >= count {
             return Ok(negotiated
                 .into_iter()
                 .map(|p| (p.addr, p.height, p.services))
@@ -678,7 +678,7 @@ impl<W: Waker> handle::Handle for Handle<W> {
                         negotiated.insert(addr, (height, services));
                     }
 
-                    if negotiated.len() == count {
+                    if negotiated.len() >= count {
                         Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())
                     } else {
                         None
-- 
2.43.0


From dedc8606dc0d3a9be13f7926acf6d734d6e71763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 31/34] fix: don't count peers that disconnected while waiting
 for peers

---
 client/src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/src/client.rs b/client/src/client.rs
index f38c890..75353c3 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -684,6 +684,10 @@ impl<W: Waker> handle::Handle for Handle<W> {
                         None
                     }
                 }
+                fsm::Event::PeerDisconnected { addr, .. } => {
+                    negotiated.remove(&addr);
+                    None
+                }
                 _ => None,
             },
             self.timeout,
-- 
2.43.0


From 1b38ab75a5c32fac3061b6d972386eab442e28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 32/34] fix: don't panic on an invalid address in the peer
 cache

---
 common/src/p2p/peer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0


From ac4b9b930f66287437937f99fae86d99447a26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 33/34] fix: start up with a peer cache that was not completely
 written

---
 client/src/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 75353c3..dd4d098 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -343,7 +343,16 @@ impl<R: Reactor> Client<R> {
         let mut peers = match peer::Cache::create(&peers_path) {
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                 log::info!(target: "client", "Found existing peer cache {:?}", peers_path);
-                let cache = peer::Cache::open(&peers_path).map_err(Error::PeerStore)?;
+                let cache = match peer::Cache::open(&peers_path) {
+                    Err(e) if e.kind() == io::ErrorKind::InvalidData => {
+                        // Eg. if we were stopped while writing it.
+                        log::warn!(target: "client", "Corruption detected in peer cache, resetting..");
+                        fs::remove_file(&peers_path)?;
+                        peer::Cache::create(&peers_path)
+                    }
+                    result => result,
+                }
+                .map_err(Error::PeerStore)?;
                 let cfpeers = cache
                     .iter()
                     .filter(|(_, ka)| ka.addr.services.has(ServiceFlags::COMPACT_FILTERS))
-- 
2.43.0


From e3746e709d0e6644370a6fa94cbff6dda70e5757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:53 +0000
Subject: [PATCH 34/34] fix: allow the configured number of inbound peers

The connection being established is already counted when the limit is
checked, so that one inbound peer less than configured was accepted.
---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 1e91ec1..ef34c42 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -331,7 +331,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         match link {
             Link::Inbound => {
                 if self.connected().filter(|c| c.link.is_inbound()).count()
-                    >= self.config.max_inbound_peers
+                    > self.config.max_inbound_peers
                 {
                     // TODO: Test this branch.
                     // Don't allow inbound connections beyond the configured limit.
-- 
2.43.0

