From 5a6b9358acea451ce0249d939dd129548606e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 01/40] fix: keep the cuckoos of a Flo when storing a newer
 version of it

---
 flmodules/src/dht_storage/core.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..e79746d 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -273,7 +273,7 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
-        self.remove_entry(&id);
+        let old = self.remove_entry(&id);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
         //     "{} Storing id({id}) / version({}) / flo_type({}) at depth {depth}",
@@ -285,19 +285,25 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        if let Some(old) = old {
+            // An update of the Flo must not lose the cuckoos attached to it.
+            df.cuckoos = old.cuckoos;
+        }
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
 
-    fn remove_entry(&mut self, id: &FloID) {
-        if let Some(df) = self.flos.remove(id) {
+    fn remove_entry(&mut self, id: &FloID) -> Option<FloStorage> {
+        let entry = self.flos.remove(id);
+        if let Some(df) = &entry {
             let distance = KNode::get_depth(&self.dht_config.our_id, id);
             self.distances
                 .entry(distance)
                 .and_modify(|v| v.retain(|i| i != id));
             self.size -= df.size() as u64;
         }
+        entry
     }
 
     fn remove_furthest(&mut self) {
-- 
2.43.0


From 7f92d40d2be4ffb9f5e51cac3ec1f8e781cbdec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 02/40] fix: respect the space of a realm when storing cuckoo
 IDs

---
 flmodules/src/dht_storage/core.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index e79746d..1d7d544 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -178,10 +178,16 @@ impl RealmStorage {
 
     pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) {
         for cuckoo in cuckoos {
-            self.store_cuckoo_id(parent, cuckoo);
+            self.add_cuckoo_id(parent, cuckoo);
         }
+        self.free_space();
     }
     pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
+        self.add_cuckoo_id(parent, cuckoo);
+        self.free_space();
+    }
+
+    fn add_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
         if let Some(fs) = self.flos.get_mut(parent) {
             if !fs.cuckoos.contains(&cuckoo) {
                 self.size -= fs.size() as u64;
@@ -221,7 +227,7 @@ impl RealmStorage {
         let flo_id = flo.flo_id();
         flo.flo_config()
             .cuckoo_parent()
-            .map(|pid| self.store_cuckoo_id(pid, flo_id.clone()));
+            .map(|pid| self.add_cuckoo_id(pid, flo_id.clone()));
 
         let mut is_new_flo = true;
         if let Some(old) = self.flos.get(&flo.flo_id()) {
@@ -245,9 +251,7 @@ impl RealmStorage {
             }
         }
 
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        self.free_space();
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
             log::warn!(
@@ -260,6 +264,13 @@ impl RealmStorage {
         is_new_flo
     }
 
+    // Removes the furthest Flos until the realm respects its space again.
+    fn free_space(&mut self) {
+        while self.size > self.realm_config.max_space {
+            self.remove_furthest();
+        }
+    }
+
     fn size_at_depth(&self, distance: usize) -> u64 {
         self.distances
             .get(&distance)
-- 
2.43.0


From 88fdf833e9d9ad4f7a9e137c0c8fa9ec9513902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 03/40] fix: don't loop forever when only the FloRealm is left
 and exceeds the space

---
 flmodules/src/dht_storage/core.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 1d7d544..86d0c03 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -266,9 +266,7 @@ impl RealmStorage {
 
     // Removes the furthest Flos until the realm respects its space again.
     fn free_space(&mut self) {
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        while self.size > self.realm_config.max_space && self.remove_furthest() {}
     }
 
     fn size_at_depth(&self, distance: usize) -> u64 {
@@ -317,7 +315,8 @@ impl RealmStorage {
         entry
     }
 
-    fn remove_furthest(&mut self) {
+    // Returns whether there was something to remove - the FloRealm is never removed.
+    fn remove_furthest(&mut self) -> bool {
         if let Some(furthest) = self
             .distances
             .iter()
@@ -346,9 +345,10 @@ impl RealmStorage {
                 //     KNode::get_depth(&self.dht_config.our_id, *id.clone())
                 // );
 
-                self.remove_entry(&id);
+                return self.remove_entry(&id).is_some();
             }
         }
+        false
     }
 }
 
-- 
2.43.0


From 31a0a9e503e007ddf94e6a8f9fb92dc2dfc665ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 04/40] fix: don't count the never-removed FloRealm as space a
 nearer Flo can take

---
 flmodules/src/dht_storage/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 86d0c03..00a5546 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -241,7 +241,7 @@ impl RealmStorage {
             if self.size + flo_size <= self.realm_config.max_space {
                 self.put(flo);
             } else {
-                // What [remove_furthest] can free.
+                // What [remove_furthest] can free - which never removes the FloRealm.
                 let size_above: u64 = (0..KNode::get_depth(&self.dht_config.our_id, &flo_id))
                     .map(|depth| self.size_at_depth(depth))
                     .sum();
@@ -274,6 +274,7 @@ impl RealmStorage {
             .get(&distance)
             .map(|ids| {
                 ids.iter()
+                    .filter(|&id| **id != *self.realm_id)
                     .map(|id| self.flos.get(id).map(|flo| flo.size()).unwrap_or(0))
                     .sum::<usize>() as u64
             })
-- 
2.43.0


From dd0c3d4ae4757b8a0a8262ccf466a5af342fa723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 05/40] fix: persist cuckoo IDs received from other nodes

---
 flmodules/src/dht_storage/intern.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..44fbe2a 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -242,9 +242,7 @@ impl Messages {
                     });
             }
             MessageClosest::StoreCuckooID(gid) => {
-                self.realms
-                    .get_mut(&gid.realm_id())
-                    .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store_cuckoo_ids(gid.realm_id(), &fid, vec![gid.flo_id().clone()]);
             }
         }
         vec![]
@@ -255,9 +253,7 @@ impl Messages {
             MessageDest::FloValue(fc) => {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
-                self.realms
-                    .get_mut(&fc.0.realm_id())
-                    .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -332,11 +328,7 @@ impl Messages {
             MessageNeighbour::Flos(flo_cuckoos) => {
                 for (flo, cuckoos) in flo_cuckoos {
                     self.store_flo(flo.clone());
-                    self.realms.get_mut(&flo.realm_id()).map(|realm| {
-                        cuckoos
-                            .into_iter()
-                            .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
-                    });
+                    self.store_cuckoo_ids(&flo.realm_id(), &flo.flo_id(), cuckoos);
                 }
                 vec![]
             }
@@ -352,6 +344,13 @@ impl Messages {
             .and_then(|realm| realm.get_flo_cuckoo(id.flo_id()))
     }
 
+    fn store_cuckoo_ids(&mut self, realm_id: &RealmID, parent: &FloID, cuckoos: Vec<FloID>) {
+        if let Some(realm) = self.realms.get_mut(realm_id) {
+            realm.store_cuckoo_ids(parent, cuckoos);
+            self.store();
+        }
+    }
+
     fn store_flo(&mut self, flo: Flo) -> Vec<InternOut> {
         let mut res = vec![];
         if self.upsert_flo(flo.clone()) {
@@ -392,6 +391,8 @@ impl Messages {
         //     flo.data(),
         //     TryInto::<FloRealm>::try_into(flo.clone())
         // );
+        // Even if the flo itself is not new, it might get attached to its parent.
+        let has_parent = flo.flo_config().cuckoo_parent().is_some();
         let modification = self
             .realms
             .get_mut(&flo.realm_id())
@@ -404,7 +405,7 @@ impl Messages {
                     .is_some()
             });
 
-        if modification {
+        if modification || has_parent {
             self.store();
         }
         modification
-- 
2.43.0


From 19b46ab0df3a6b679046c244c55a7c930f9bc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 06/40] fix: never return an older version of a Flo than the
 one stored

---
 flmodules/src/dht_storage/intern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index 44fbe2a..3a2cc33 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -254,7 +254,8 @@ impl Messages {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
                 self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
-                Some(DHTStorageOut::FloValue(fc).into())
+                // The reply might be older than what is already stored.
+                Some(DHTStorageOut::FloValue(self.read_flo(&fc.0.global_id()).unwrap_or(fc)).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
             MessageDest::CookooIDs(gid, cids) => Some(DHTStorageOut::CuckooIDs(gid, cids).into()),
-- 
2.43.0


From 0ad0c30e49ae116ae7d93b5f85cf556f757d5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 07/40] fix: don't report a gossip event as new when it is too
 old to be kept

---
 flmodules/src/gossip_events/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..b8fb2aa 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -160,10 +160,12 @@ impl Events {
     }
 
     // Insert the message in the events and make sure the limits are kept.
+    // Returns false if the message is too old to be kept.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
-- 
2.43.0


From 250ae203ae5c86b8d328ce24f94b2da6218b80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 08/40] fix: order gossip events of the same time by their id,
 so that all nodes keep the same

---
 flmodules/src/gossip_events/core.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index b8fb2aa..c19b102 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -151,7 +151,8 @@ impl Events {
             .find(|(_, v)| v.src == msg.src)
             .map(|(id, ev)| (*id, ev.clone()))
         {
-            if ev.created > msg.created {
+            // Events created at the same time are ordered by their id, so that all nodes keep the same one.
+            if (ev.created, id) > (msg.created, msg.get_id()) {
                 return false;
             }
             self.events.remove(&id);
@@ -197,11 +198,10 @@ impl Events {
         let ids: Vec<U256> = self
             .events
             .iter()
-            .map(|(k, v)| (k, v.created))
-            .sorted_by(|a, b| b.1.partial_cmp(&a.1).unwrap())
+            .map(|(k, v)| (v.created, *k))
+            .sorted_by(|a, b| b.cmp(a))
             .skip(self.config.max_events)
-            .map(|(k, _)| k)
-            .cloned()
+            .map(|(_, k)| k)
             .collect();
         for id in ids {
             self.events.remove(&id);
-- 
2.43.0


From 922a26eefc511da4d97b5f1f2ab6a2b09fb2adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 09/40] fix: also remove disconnected nodes from the root
 bucket

---
 flmodules/src/dht_router/kademlia.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..1793f93 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -81,15 +81,7 @@ impl Kademlia {
     }
 
     pub fn node_disconnected(&mut self, id: &NodeID) {
-        if let Some(bucket) = self
-            .buckets
-            .get_mut(KNode::get_depth(&self.config.root, id))
-        {
-            bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+        self.remove_node(id);
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From 2ec4591d7f273e261e286582a540287c5760a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 10/40] fix: don't route messages for the own ID away from the
 node

---
 flmodules/src/dht_router/intern.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_router/intern.rs b/flmodules/src/dht_router/intern.rs
index d24e0f2..351521e 100644
--- a/flmodules/src/dht_router/intern.rs
+++ b/flmodules/src/dht_router/intern.rs
@@ -216,7 +216,10 @@ impl Intern {
     }
 
     fn closest_or_connected(&self, key: U256, last: Option<&U256>) -> Vec<U256> {
-        if self.connected.contains(&key) {
+        if key == self.core.config.root {
+            // No other node can be closer to this key.
+            vec![]
+        } else if self.connected.contains(&key) {
             vec![key]
         } else {
             self.core.route_closest(&key, last)
-- 
2.43.0


From b295b69ce8381d9ea565326f6a4f80794ced595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 11/40] fix: keep only the newest info of a node in the random
 connections

A node that changed its info (name, modules) was listed with its old and its
new info among the connected nodes.
---
 flmodules/src/random_connections/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flmodules/src/random_connections/core.rs b/flmodules/src/random_connections/core.rs
index b95eefd..b9d0057 100644
--- a/flmodules/src/random_connections/core.rs
+++ b/flmodules/src/random_connections/core.rs
@@ -36,6 +36,7 @@ impl RandomStats {
         self.infos = self
             .infos
             .iter()
+            .filter(|old| !list.iter().any(|ni| ni.get_id() == old.get_id()))
             .chain(list.iter())
             .unique()
             .cloned()
-- 
2.43.0


From 808044979c39061c92c7948568ede66ee74dae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:07 +0000
Subject: [PATCH 12/40] fix: ignore unsupported signalling messages of other
 nodes

A remote node could stop the network layer with a todo!() by sending a
message of the network module.
---
 flmodules/src/network/intern.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..6186a95 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -186,10 +186,10 @@ impl Intern {
         match serde_yaml::from_str::<NetworkWrapper>(&msg) {
             Ok(nw) => {
                 if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
-                    match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
-                    }
+                    // Signalling over WebRTC is not supported yet, but the remote node must not
+                    // be able to stop this node by sending these messages.
+                    log::warn!("Ignoring unsupported message from {id}: {net_msg:?}");
+                    return vec![];
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
             }
-- 
2.43.0


From 15c9d5f7c024cd2897017f8d3429961db5d70dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:45 +0000
Subject: [PATCH 13/40] fix: refuse announcements with a malformed public key

---
 flmodules/src/nodeconfig.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..5b9b429 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -85,7 +85,10 @@ impl NodeInfo {
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
-- 
2.43.0


From 28505ba14eb495cfd1b978e646d852e6d5f4f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 14/40] fix: return an error for ed25519 signatures of a wrong
 length

---
 flcrypto/src/signer_ed25519.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/signer_ed25519.rs b/flcrypto/src/signer_ed25519.rs
index 8354156..31991ad 100644
--- a/flcrypto/src/signer_ed25519.rs
+++ b/flcrypto/src/signer_ed25519.rs
@@ -79,8 +79,9 @@ where
 
 impl VerifierTrait for VerifierEd25519 {
     fn verify(&self, msg: &Bytes, sig: &Signature) -> anyhow::Result<()> {
-        let s: ed25519_dalek::Signature =
-            TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref()).unwrap().into();
+        let s: ed25519_dalek::Signature = TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref())
+            .map_err(|_| SignerError::SignatureMessageMismatch)?
+            .into();
         match self.verifier.verify_strict(msg, &s) {
             Ok(_) => Ok(()),
             Err(_) => Err(SignerError::SignatureMessageMismatch.into()),
-- 
2.43.0


From 8459e00875b011e216ec23845521286a13378cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 15/40] fix: a wrong signature doesn't invalidate the other
 branches of a NofT condition

---
 flcrypto/src/access.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1f154c8..a4d9960 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -347,7 +347,10 @@ impl ConditionSignature {
             Condition::NofT(t, vec) => {
                 let mut correct = 0;
                 for cond in vec {
-                    self.verify_cond(cond, digest)?.then(|| correct += 1);
+                    // A wrong signature only makes its own condition fail.
+                    if self.verify_cond(cond, digest).unwrap_or(false) {
+                        correct += 1;
+                    }
                 }
                 correct >= *t
             }
-- 
2.43.0


From 952c3828f6fd3ede02c37f83977c0c62ec13a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 16/40] fix: compare a NofT condition with its link branch by
 branch

---
 flcrypto/src/access.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index a4d9960..0b5fa0b 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -208,8 +208,10 @@ impl Condition {
                 if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
                     .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
-            ConditionLink::NofT(_, condition_links) => {
-                condition_links.iter().all(|cl| self.equal_link(cl))
+            ConditionLink::NofT(thr, condition_links) => {
+                matches!(self, Condition::NofT(t, conditions)
+                if t == thr && conditions.len() == condition_links.len()
+                    && conditions.iter().zip(condition_links).all(|(c, cl)| c.equal_link(cl)))
             }
             ConditionLink::Pass => matches!(self, Condition::Pass),
             ConditionLink::Fail => matches!(self, Condition::Fail),
-- 
2.43.0


From 495b21410aa9c2a1b17a62fae1d12e6733a96656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 17/40] fix: check conditions with more than one possible
 signer

---
 flcrypto/src/access.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 0b5fa0b..626f3ce 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -247,22 +247,15 @@ impl Condition {
     }
 
     pub fn can_sign(&self, vids: &[&KeyPairID]) -> bool {
-        if vids.len() > 1 {
-            todo!("Check with more than one signer");
-        }
-        if let Some(&vid) = vids.first() {
-            match self {
-                Condition::Verifier(verifier) => &verifier.get_id() == vid,
-                Condition::Badge(_, badge) => badge.condition.can_sign(&[vid]),
-                Condition::NofT(nbr, conditions) => {
-                    conditions.iter().any(|c| c.can_sign(&[vid])) && nbr == &1
-                }
-                Condition::NotAvailable => false,
-                Condition::Pass => true,
-                Condition::Fail => false,
+        match self {
+            Condition::Verifier(verifier) => vids.contains(&&verifier.get_id()),
+            Condition::Badge(_, badge) => badge.condition.can_sign(vids),
+            Condition::NofT(nbr, conditions) => {
+                conditions.iter().filter(|c| c.can_sign(vids)).count() >= *nbr as usize
             }
-        } else {
-            self == &Condition::Pass
+            Condition::NotAvailable => false,
+            Condition::Pass => true,
+            Condition::Fail => false,
         }
     }
 
-- 
2.43.0


From 046af2b2384c45fc153076f121123556a852c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 18/40] fix: only use badges of the version required by the
 condition

---
 flmodules/src/dht_storage/broker.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 787c82f..7f923c0 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -226,6 +226,9 @@ impl DHTStorage {
                     .await
                 {
                     let bl = b.badge_link();
+                    if !bl.fits_version(version.clone()) {
+                        return Condition::NotAvailable;
+                    }
                     Condition::Badge(
                         version.clone(),
                         flcrypto::access::Badge {
-- 
2.43.0


From 8d565c31f77db5db56ab4d4af923c91140c25572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 19/40] fix: settle brokers which are linked in a loop
 concurrently

A broker waited in its own task for the linked brokers to settle. Two
concurrent settles of brokers which are linked with each other waited for
each other forever, and no message was treated anymore.
---
 flarch/src/broker.rs | 65 ++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 7d40bfc..2af66a1 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -421,12 +421,18 @@ impl<I: 'static + Message, O: 'static + Message> Broker<I, O> {
     /// The caller argument is to be used when recursively settling, to avoid
     /// endless loops.
     pub async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        let (tx, mut rx) = unbounded_channel();
+        self.settle_start(callers)?.recv().await;
+        Ok(())
+    }
+
+    /// Asks the broker to settle, and returns the channel which is notified once it
+    /// has settled.
+    fn settle_start(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<UnboundedReceiver<bool>> {
+        let (tx, rx) = unbounded_channel();
         self.intern_tx
-            .send(InternMessage::Settle(callers.clone(), tx))
+            .send(InternMessage::Settle(callers, tx))
             .map_err(|_| BrokerError::SendQueue("settle".into()))?;
-        rx.recv().await;
-        Ok(())
+        Ok(rx)
     }
 
     fn type_str(&self) -> String {
@@ -563,20 +569,28 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             InternMessage::MessageOut(dst, msg) => self.msg_queue_out.push((dst, msg)),
             InternMessage::Settle(list, reply) => {
                 let type_str = self.type_str();
+                let mut settling = vec![];
                 if !list.contains(&self.id) {
                     let mut list = list.clone();
                     list.push(self.id);
                     for (_, ss) in self.subsystems.iter_mut() {
-                        ss.settle(list.clone())
-                            .await
-                            .err()
-                            .map(|e| log::error!("{}: While settling: {e:?}", type_str));
+                        match ss.settle(list.clone()) {
+                            Ok(rx) => settling.extend(rx),
+                            Err(e) => log::error!("{}: While settling: {e:?}", type_str),
+                        }
                     }
                 }
-                reply
-                    .send(true)
-                    .err()
-                    .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                // Don't wait for the other brokers in this task: they might be waiting
+                // for this broker to settle, too.
+                spawn_local(async move {
+                    for mut rx in settling {
+                        rx.recv().await;
+                    }
+                    reply
+                        .send(true)
+                        .err()
+                        .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                });
                 return true;
             }
             InternMessage::Dropped => {
@@ -887,10 +901,13 @@ impl<I: Message, O: Message> Subsystem<I, O> {
         matches!(self, Self::Handler(_))
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
         match self {
-            Subsystem::Translator(tr) => tr.settle(callers).await,
-            _ => Ok(()),
+            Subsystem::Translator(tr) => tr.settle(callers),
+            _ => Ok(None),
         }
     }
 }
@@ -919,7 +936,12 @@ pub trait SubsystemHandler<I: Async, O: Async> {
 pub trait SubsystemTranslator<I: Async, O: Async> {
     async fn translate_input(&mut self, trail: Vec<BrokerID>, from_broker: I);
     async fn translate_output(&mut self, trail: Vec<BrokerID>, from_broker: O);
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()>;
+    /// Asks the broker behind this translator to settle, if it is not one of the callers.
+    /// The returned channel is notified once it has settled.
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>>;
 }
 
 #[target_send()]
@@ -982,11 +1004,14 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Subsy
         .await;
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        if !callers.contains(&self.broker.id) {
-            self.broker.settle(callers).await?;
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
+        if callers.contains(&self.broker.id) {
+            return Ok(None);
         }
-        Ok(())
+        Ok(Some(self.broker.settle_start(callers)?))
     }
 }
 
-- 
2.43.0


From aeb40fa9630ce98c4dfb3cf74c9bc7423f7c68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 20/40] fix: split WebRTC texts by encoded size and drop
 malformed packets

---
 flarch/src/web_rtc/node_connection.rs | 92 +++++++++++++++++----------
 1 file changed, 58 insertions(+), 34 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..963e04b 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -11,7 +11,7 @@
 //! _If you come here, I hope you're not trying to debug something that doesn't work.
 //! This code is quite obscure, and should be rewritten for the 5th time or so._
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{self, Display},
 };
 
@@ -302,7 +302,7 @@ impl SubsystemHandler<NCInput, NCOutput> for NodeConnection {
 
 impl Packet {
     fn split_msg(msg: String) -> Vec<String> {
-        if msg.len() <= WEBRTC_MAX_SIZE {
+        if msg.chars().map(Self::encoded_len).sum::<usize>() <= WEBRTC_MAX_SIZE {
             return vec![serde_json::to_string(&Self {
                 id: None,
                 part: None,
@@ -311,12 +311,7 @@ impl Packet {
             })
             .unwrap()];
         }
-        let chunks = msg
-            .chars()
-            .collect::<Vec<_>>()
-            .chunks(WEBRTC_MAX_SIZE as usize)
-            .map(|chunk| chunk.iter().collect::<String>())
-            .collect::<Vec<_>>();
+        let chunks = Self::chunks(&msg);
         let id = U256::rnd();
         let total = Some(chunks.len());
         chunks
@@ -333,45 +328,74 @@ impl Packet {
             })
             .collect::<Vec<_>>()
     }
+
+    // Splits the message in parts of at most WEBRTC_MAX_SIZE bytes when they are encoded.
+    fn chunks(msg: &str) -> Vec<String> {
+        let mut chunks = vec![];
+        let (mut chunk, mut size) = (String::new(), 0);
+        for c in msg.chars() {
+            let len = Self::encoded_len(c);
+            if size + len > WEBRTC_MAX_SIZE {
+                chunks.push(std::mem::take(&mut chunk));
+                size = 0;
+            }
+            chunk.push(c);
+            size += len;
+        }
+        chunks.push(chunk);
+        chunks
+    }
+
+    // How many bytes a character takes up at most in a JSON string.
+    fn encoded_len(c: char) -> usize {
+        match c {
+            '"' | '\\' => 2,
+            c if c.is_ascii_control() => 6,
+            c => c.len_utf8(),
+        }
+    }
 }
 
 #[derive(Default)]
 struct PacketCollector {
-    packets: HashMap<U256, Vec<Option<String>>>,
+    packets: HashMap<U256, PartialText>,
+}
+
+/// The parts of a text received so far.
+struct PartialText {
+    total: usize,
+    parts: BTreeMap<usize, String>,
 }
 
 impl PacketCollector {
     fn new_packet(&mut self, p: Packet) -> Option<String> {
-        match Self::get_params(&p) {
-            None => return Some(p.data),
-            Some((id, total, part)) => {
-                // Add the new packet to the list.
-                if let Some(e) = self
-                    .packets
-                    .entry(id)
-                    .or_insert(vec![None; total])
-                    .get_mut(part)
-                {
-                    *e = Some(p.data);
-                }
-
-                // Check if one of the entires is full, and return it.
-                self.packets
-                    .iter()
-                    .find(|(_, parts)| parts.iter().all(|p| p.is_some()))
-                    .map(|(id, _)| id.clone())
-                    .and_then(|id| self.packets.remove(&id))
-                    .map(|parts| parts.into_iter().flatten().collect())
+        let (id, total, part) = match (p.id, p.total, p.part) {
+            (None, None, None) => return Some(p.data),
+            (Some(id), Some(total), Some(part)) if part < total => (id, total, part),
+            _ => {
+                log::warn!("Dropping malformed packet");
+                return None;
             }
+        };
+        let text = self.packets.entry(id).or_insert(PartialText {
+            total,
+            parts: BTreeMap::new(),
+        });
+        if text.total != total {
+            log::warn!("Dropping packet which contradicts the ones before");
+            return None;
+        }
+        text.parts.insert(part, p.data);
+        if text.parts.len() < total {
+            return None;
         }
+        self.packets
+            .remove(&id)
+            .map(|text| text.parts.into_values().collect())
     }
 
     fn new_packet_str(&mut self, s: &str) -> Option<String> {
-        self.new_packet(serde_yaml::from_str(s).ok()?)
-    }
-
-    fn get_params(p: &Packet) -> Option<(U256, usize, usize)> {
-        Some((p.id?, p.total?, p.part?))
+        self.new_packet(serde_json::from_str(s).ok()?)
     }
 }
 
-- 
2.43.0


From 944f5ecf531a68db5af2d3047b59611a239f88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 21/40] fix: accept web-proxy answers only from the asked node
 and keep their order

---
 flmodules/src/web_proxy/core.rs   | 37 ++++++++++++++++++++++++-------
 flmodules/src/web_proxy/intern.rs |  2 +-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..dcb0b7e 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -68,14 +68,33 @@ impl WebProxyCore {
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            // A single task per request passes the pieces of the body on in the order
+            // they arrive, and stops once the client isn't interested anymore.
+            let (tx_body, mut rx_body) = unbounded_channel();
+            spawn_local(async move {
+                while let Some(body) = rx_body.recv().await {
+                    if tx.send(body).await.is_err() {
+                        break;
+                    }
+                }
+            });
+            self.requests.insert(rnd, (node, tx_body));
             return Some(node);
         }
         None
     }
 
-    pub fn handle_response(&mut self, nonce: U256, msg: ResponseMessage) -> Option<ResponseHeader> {
-        if let Some((_, tx)) = self.requests.get(&nonce) {
+    pub fn handle_response(
+        &mut self,
+        src: NodeID,
+        nonce: U256,
+        msg: ResponseMessage,
+    ) -> Option<ResponseHeader> {
+        if let Some((node, tx)) = self.requests.get(&nonce) {
+            if node != &src {
+                log::warn!("Got response for nonce {nonce} from {src} instead of {node}");
+                return None;
+            }
             match msg {
                 ResponseMessage::Header(header) => {
                     self.storage.counters.rx_packets += 1;
@@ -83,14 +102,16 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        log::debug!("Nobody is interested anymore in the response of nonce {nonce}");
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..8c1cf87 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -193,7 +193,7 @@ impl Intern {
         msg: ResponseMessage,
     ) -> Vec<InternOut> {
         self.core
-            .handle_response(nonce, msg)
+            .handle_response(src, nonce, msg)
             .map_or(vec![], |header| {
                 vec![InternOut::WebProxy(WebProxyOut::ResponseGet(
                     src, nonce, header,
-- 
2.43.0


From 5d39da3ecd5ec2a8b068c3df9406a2116f557b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 22/40] fix: report web-proxy failures while reading the answer

---
 flmodules/src/web_proxy/intern.rs   | 12 ++++++++----
 flmodules/src/web_proxy/response.rs |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index 8c1cf87..51ed10b 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -148,15 +148,19 @@ impl Intern {
                     let mut stream = resp.bytes_stream().chunks(1024);
                     while let Some(chunks) = stream.next().await {
                         for chunk in chunks {
+                            let (msg, failed) = match chunk {
+                                Ok(body) => (ResponseMessage::Body(body), false),
+                                Err(e) => (ResponseMessage::Error(e.to_string()), true),
+                            };
                             broker
                                 .emit_msg_out(Self::module_msg(
                                     src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
+                                    &ModuleMessage::Response(nonce, msg),
                                 ))
                                 .expect("sending body");
+                            if failed {
+                                return;
+                            }
                         }
                     }
                     broker
diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..873d1b2 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,7 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            values.push(String::from_utf8_lossy(v.as_bytes()).into_owned());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From 90ebc827ffdde0a55de3654045450875087a0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 23/40] fix: keep the old value when writing a file is
 interrupted

---
 flarch/src/data_storage/libc.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..a081b24 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
+    fs::{create_dir_all, remove_file, rename, File},
     path::PathBuf,
 };
 
@@ -63,11 +63,23 @@ impl DataStorage for DataStorageFile {
     }
 
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
-            .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
-            .write_all(value.as_bytes())
-            .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
-        Ok(())
+        // Write to a temporary file first, so that the old value stays if this is interrupted.
+        let name = self.name(key);
+        let tmp = name.with_extension("yaml.tmp");
+        let res = File::create(&tmp)
+            .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))
+            .and_then(|mut file| {
+                file.write_all(value.as_bytes())
+                    .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))
+            })
+            .and_then(|_| {
+                rename(&tmp, name)
+                    .map_err(|e| StorageError::Underlying(format!("While renaming file: {:?}", e)))
+            });
+        if res.is_err() {
+            let _ = remove_file(tmp);
+        }
+        res
     }
 
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
-- 
2.43.0


From 4e3c0a1350b0f4fedb2e98c85b5153a61ca9c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 24/40] fix: reconnect the websocket client whenever its
 connection ends

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 61 ++++++++++++--------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 5251aa5..f742d57 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -2,7 +2,7 @@ use async_trait::async_trait;
 use futures::stream::SplitStream;
 use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
 use std::pin::Pin;
-use tokio::net::TcpStream;
+use tokio::{net::TcpStream, task::JoinHandle};
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
@@ -12,6 +12,7 @@ use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError
 pub struct WebSocketClient {
     url: String,
     write: Option<SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, tungstenite::Message>>,
+    listener: Option<JoinHandle<()>>,
     broker: BrokerWSClient,
 }
 
@@ -20,6 +21,7 @@ impl WebSocketClient {
         let wsb = WebSocketClient {
             url: url.to_string(),
             write: None,
+            listener: None,
             broker: Broker::new(),
         };
         let mut broker = wsb.broker.clone();
@@ -30,36 +32,51 @@ impl WebSocketClient {
 
     fn listen(&mut self, mut read: SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>) {
         let mut broker_cl = self.broker.clone();
-        tokio::spawn(async move {
+        self.listener = Some(tokio::spawn(async move {
             wait_ms(1000).await;
             loop {
-                if let Some(msg) = read.next().await {
-                    match msg {
-                        Ok(msg) => {
-                            if msg.is_text() {
-                                broker_cl
-                                    .emit_msg_out(WSClientOut::Message(msg.to_string()))
-                                    .expect("Failed to emit message");
-                            }
-                        }
-                        Err(e) => {
-                            log::warn!("Closing connection because of error: {:?}", e);
-                            log::warn!("Trying to reconnect");
+                match read.next().await {
+                    Some(Ok(msg)) => {
+                        if msg.is_text() {
                             broker_cl
-                                .emit_msg_in(WSClientIn::Connect)
-                                .expect("tried to reconnect");
-                            return;
+                                .emit_msg_out(WSClientOut::Message(msg.to_string()))
+                                .expect("Failed to emit message");
                         }
                     }
+                    Some(Err(e)) => {
+                        log::warn!("Closing connection because of error: {:?}", e);
+                        break;
+                    }
+                    None => {
+                        log::warn!("Connection has been closed");
+                        break;
+                    }
                 }
             }
-        });
+            log::warn!("Trying to reconnect");
+            broker_cl
+                .emit_msg_in(WSClientIn::Connect)
+                .expect("tried to reconnect");
+        }));
+    }
+
+    // Closes the connection, if there is one. Nothing is received from it anymore.
+    async fn close(&mut self) -> bool {
+        if let Some(listener) = self.listener.take() {
+            listener.abort();
+        }
+        let Some(mut write) = self.write.take() else {
+            return false;
+        };
+        if let Err(e) = write.close().await {
+            log::debug!("While closing websocket to {}: {e}", self.url);
+        }
+        true
     }
 
     async fn connect_ws(&mut self) -> anyhow::Result<()> {
-        if let Some(mut write) = self.write.take() {
+        if self.close().await {
             log::debug!("Reconnecting to websocket at {}", self.url);
-            write.close().await?;
         } else {
             log::trace!("Connecting to websocket at {}", self.url);
         }
@@ -96,9 +113,7 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                     }
                 }
                 WSClientIn::Disconnect => {
-                    if let Some(mut write) = self.write.take() {
-                        write.close().await.unwrap();
-                    } else {
+                    if !self.close().await {
                         log::warn!("Trying to disconnect a disconnected connection");
                     }
                     return vec![WSClientOut::Disconnect];
-- 
2.43.0


From 80efa3226a5d83977bb8731389d0e3896db5af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 25/40] fix: do not panic when the websocket client cannot send

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 22 ++++++++------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index f742d57..0779158 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -1,13 +1,12 @@
 use async_trait::async_trait;
 use futures::stream::SplitStream;
-use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
-use std::pin::Pin;
+use futures::{stream::SplitSink, SinkExt, StreamExt};
 use tokio::{net::TcpStream, task::JoinHandle};
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
 use crate::tasks::wait_ms;
-use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError};
+use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
 
 pub struct WebSocketClient {
     url: String,
@@ -95,16 +94,13 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
         for msg in msgs {
             match msg {
                 WSClientIn::Message(msg) => {
-                    if let Some(mut write) = self.write.as_mut() {
-                        Pin::new(&mut write)
-                            .start_send(tungstenite::Message::text(msg))
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("Error sending message");
-                        Pin::new(&mut write)
-                            .flush()
-                            .await
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("msg flush error");
+                    if let Some(write) = self.write.as_mut() {
+                        if let Err(e) = write.send(tungstenite::Message::text(msg)).await {
+                            log::warn!("Error sending message: {e}");
+                            if let Err(e) = self.connect_ws().await {
+                                log::error!("Couldn't connect: {e}");
+                            }
+                        }
                     } else {
                         log::warn!("Tried to write a message to a closed connection");
                         if let Err(e) = self.connect_ws().await {
-- 
2.43.0


From 4a70af3ba1ddba146fe978421d5010445f6089b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 26/40] fix: keep websocket server connections by number and
 report their end once

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 148 ++++++++-----------
 1 file changed, 62 insertions(+), 86 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..34bd1b5 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,7 +4,7 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::sync::Arc;
+use std::{collections::HashMap, sync::Arc};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
@@ -19,34 +19,32 @@ use crate::{
     web_rtc::websocket::BrokerWSServer,
 };
 
+type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
+
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Connections,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Connections::default();
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
-        let mut broker_cl = broker.clone();
+        let broker_cl = broker.clone();
         let conn_thread = tokio::spawn(async move {
             let mut connection_id = 0;
             loop {
                 match server.accept().await {
                     Ok((stream, _)) => {
-                        let broker_cl2 = broker_cl.clone();
-                        match WSConnection::new(stream, broker_cl2, connection_id).await {
-                            Ok(conn) => {
-                                log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
-                                broker_cl
-                                    .emit_msg_out(WSServerOut::NewConnection(connection_id))
-                                    .expect("Error sending connect message");
-                            }
-                            Err(e) => log::error!("Error while getting connection: {:?}", e),
-                        }
+                        // A client which is slow to connect must not hold up the others.
+                        tokio::spawn(WSConnection::run(
+                            stream,
+                            broker_cl.clone(),
+                            Arc::clone(&connections_cl),
+                            connection_id,
+                        ));
                     }
                     Err(e) => log::error!("While accepting connection: {e:?}"),
                 }
@@ -72,20 +70,15 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
             match msg {
                 WSServerIn::Message(id, msg) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.send(msg).await {
                             log::error!("Error while sending: {e}");
-                            conn.close();
-                            connections.remove(id);
+                            connections.remove(&id);
                         }
                     }
                 }
                 WSServerIn::Close(id) => {
-                    let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
-                        conn.close();
-                        connections.remove(id);
-                    }
+                    self.connections.lock().await.remove(&id);
                 }
                 WSServerIn::Stop => {
                     log::trace!("Stopping thread");
@@ -98,77 +91,68 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
     }
 }
 
+/// The sending part of a connection. When it is dropped, the connection is closed.
 pub struct WSConnection {
     websocket: SplitSink<WebSocketStream<TcpStream>, Message>,
-    tx: Option<oneshot::Sender<bool>>,
+    _open: oneshot::Sender<()>,
 }
 
 impl WSConnection {
-    async fn new(
+    /// Runs from the connection of a client to its end.
+    async fn run(
         stream: TcpStream,
-        broker: BrokerWSServer,
+        mut broker: BrokerWSServer,
+        connections: Connections,
         id: usize,
-    ) -> anyhow::Result<WSConnection> {
-        let websocket = accept_async(stream)
-            .await
-            .map_err(|e| WSError::Underlying(e.to_string()))?;
-        let (wr, rd) = websocket.split();
-        let (tx, rx) = oneshot::channel();
-        let uwsc = WSConnection {
-            websocket: wr,
-            tx: Some(tx),
+    ) {
+        let websocket = match accept_async(stream).await {
+            Ok(websocket) => websocket,
+            Err(e) => {
+                log::error!("Error while getting connection: {e:?}");
+                return;
+            }
         };
-
-        WSConnection::loop_read(broker, rd, rx, id).await;
-        Ok(uwsc)
+        log::trace!("Got new connection");
+        let (websocket, rd) = websocket.split();
+        let (_open, closed) = oneshot::channel();
+        connections
+            .lock()
+            .await
+            .insert(id, WSConnection { websocket, _open });
+        broker
+            .emit_msg_out(WSServerOut::NewConnection(id))
+            .expect("Error sending connect message");
+        Self::loop_read(&mut broker, rd, closed, id).await;
+        connections.lock().await.remove(&id);
+        broker
+            .emit_msg_out(WSServerOut::Disconnection(id))
+            .expect("While sending message to broker.");
     }
 
+    // Returns once one of the sides closed the connection.
     async fn loop_read(
-        mut broker: BrokerWSServer,
+        broker: &mut BrokerWSServer,
         mut ws: SplitStream<WebSocketStream<TcpStream>>,
-        mut rx: oneshot::Receiver<bool>,
+        mut closed: oneshot::Receiver<()>,
         id: usize,
     ) {
-        tokio::spawn(async move {
-            loop {
-                select! {
-                    _ = (&mut rx) => {
-                        broker
-                        .emit_msg_out(WSServerOut::Disconnection(id))
-                        .expect("While sending message to broker.");
+        loop {
+            select! {
+                biased;
+                _ = &mut closed => return,
+                msg = ws.next() => match msg {
+                    Some(Ok(Message::Text(s))) => broker
+                        .emit_msg_out(WSServerOut::Message(id, s.to_string()))
+                        .expect("While sending message to broker."),
+                    Some(Ok(Message::Close(_))) | None => return,
+                    Some(Ok(_)) => {}
+                    Some(Err(e)) => {
+                        log::warn!("Closing connection because of error: {e:?}");
                         return;
-                    },
-                    ws_out = ws.next() =>
-                        if let Some(msg_ws) = ws_out {
-                            if let Some(out) = match msg_ws {
-                                Ok(msg) => match msg {
-                                    Message::Text(s) => {
-                                        Some(WSServerOut::Message(id, s.to_string()))
-                                    }
-                                    Message::Close(_) => {
-                                        Some(WSServerOut::Disconnection(id))
-                                    }
-                                    _ => None,
-                                },
-                                Err(e) => {
-                                    log::warn!("Closing connection because of error: {e:?}");
-                                    Some(WSServerOut::Disconnection(id))
-                                }
-                            } {
-                                broker
-                                    .emit_msg_out(out.clone())
-                                    .expect("While sending message to broker.");
-                                if matches!(
-                                    out,
-                                    WSServerOut::Disconnection(_)
-                                ) {
-                                    return;
-                                }
-                            }
-                        }
-                }
+                    }
+                },
             }
-        });
+        }
     }
 
     async fn send(&mut self, msg: String) -> anyhow::Result<()> {
@@ -178,14 +162,6 @@ impl WSConnection {
             .await
             .map_err(|e| WSError::Underlying(e.to_string()))?)
     }
-
-    fn close(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            tx.send(true)
-                .err()
-                .map(|_| log::error!("Closing Websocket failed"));
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a47c0ca4a61a1f4a64116d8d8681ecb61c909f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 27/40] fix: end all connections when the websocket server is
 stopped

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 34 +++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 34bd1b5..887ba20 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -19,7 +19,8 @@ use crate::{
     web_rtc::websocket::BrokerWSServer,
 };
 
-type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
+/// None once the server is stopped.
+type Connections = Arc<Mutex<Option<HashMap<usize, WSConnection>>>>;
 
 pub struct WebSocketServer {
     connections: Connections,
@@ -29,7 +30,7 @@ pub struct WebSocketServer {
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Connections::default();
+        let connections = Arc::new(Mutex::new(Some(HashMap::new())));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
         let broker_cl = broker.clone();
@@ -67,9 +68,12 @@ impl WebSocketServer {
 impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
     async fn messages(&mut self, from_broker: Vec<WSServerIn>) -> Vec<WSServerOut> {
         for msg in from_broker {
+            let mut connections_lock = self.connections.lock().await;
+            let Some(connections) = connections_lock.as_mut() else {
+                break;
+            };
             match msg {
                 WSServerIn::Message(id, msg) => {
-                    let mut connections = self.connections.lock().await;
                     if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.send(msg).await {
                             log::error!("Error while sending: {e}");
@@ -78,11 +82,12 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
                     }
                 }
                 WSServerIn::Close(id) => {
-                    self.connections.lock().await.remove(&id);
+                    connections.remove(&id);
                 }
                 WSServerIn::Stop => {
                     log::trace!("Stopping thread");
                     self.conn_thread.abort();
+                    connections_lock.take();
                     return vec![WSServerOut::Stopped];
                 }
             }
@@ -115,15 +120,20 @@ impl WSConnection {
         log::trace!("Got new connection");
         let (websocket, rd) = websocket.split();
         let (_open, closed) = oneshot::channel();
-        connections
-            .lock()
-            .await
-            .insert(id, WSConnection { websocket, _open });
-        broker
-            .emit_msg_out(WSServerOut::NewConnection(id))
-            .expect("Error sending connect message");
+        {
+            let mut connections = connections.lock().await;
+            let Some(connections) = connections.as_mut() else {
+                return;
+            };
+            connections.insert(id, WSConnection { websocket, _open });
+            broker
+                .emit_msg_out(WSServerOut::NewConnection(id))
+                .expect("Error sending connect message");
+        }
         Self::loop_read(&mut broker, rd, closed, id).await;
-        connections.lock().await.remove(&id);
+        if let Some(connections) = connections.lock().await.as_mut() {
+            connections.remove(&id);
+        }
         broker
             .emit_msg_out(WSServerOut::Disconnection(id))
             .expect("While sending message to broker.");
-- 
2.43.0


From 9ecfe21988cb56e6edf3f8a99455456c4fe2d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 28/40] fix: do not let a client which reads nothing hold up
 the websocket server

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 44 +++++++++++++-------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 887ba20..750df61 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,21 +4,25 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::{collections::HashMap, sync::Arc};
+use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
-    sync::oneshot,
+    sync::{mpsc, oneshot},
     task::JoinHandle,
+    time::timeout,
 };
 use tokio_tungstenite::{accept_async, tungstenite::Message, WebSocketStream};
 
-use crate::web_rtc::websocket::{WSError, WSServerIn, WSServerOut};
+use crate::web_rtc::websocket::{WSServerIn, WSServerOut};
 use crate::{
     broker::{Broker, SubsystemHandler},
     web_rtc::websocket::BrokerWSServer,
 };
 
+/// How long to wait for a closed connection to take the messages sent before.
+const CLOSE_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// None once the server is stopped.
 type Connections = Arc<Mutex<Option<HashMap<usize, WSConnection>>>>;
 
@@ -74,9 +78,8 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
             };
             match msg {
                 WSServerIn::Message(id, msg) => {
-                    if let Some(conn) = connections.get_mut(&id) {
-                        if let Err(e) = conn.send(msg).await {
-                            log::error!("Error while sending: {e}");
+                    if let Some(conn) = connections.get(&id) {
+                        if conn.messages.send(msg).is_err() {
                             connections.remove(&id);
                         }
                     }
@@ -98,7 +101,7 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
 
 /// The sending part of a connection. When it is dropped, the connection is closed.
 pub struct WSConnection {
-    websocket: SplitSink<WebSocketStream<TcpStream>, Message>,
+    messages: mpsc::UnboundedSender<String>,
     _open: oneshot::Sender<()>,
 }
 
@@ -119,17 +122,19 @@ impl WSConnection {
         };
         log::trace!("Got new connection");
         let (websocket, rd) = websocket.split();
+        let (messages, messages_rx) = mpsc::unbounded_channel();
         let (_open, closed) = oneshot::channel();
         {
             let mut connections = connections.lock().await;
             let Some(connections) = connections.as_mut() else {
                 return;
             };
-            connections.insert(id, WSConnection { websocket, _open });
+            connections.insert(id, WSConnection { messages, _open });
             broker
                 .emit_msg_out(WSServerOut::NewConnection(id))
                 .expect("Error sending connect message");
         }
+        let mut sending = tokio::spawn(Self::loop_send(websocket, messages_rx));
         Self::loop_read(&mut broker, rd, closed, id).await;
         if let Some(connections) = connections.lock().await.as_mut() {
             connections.remove(&id);
@@ -137,6 +142,9 @@ impl WSConnection {
         broker
             .emit_msg_out(WSServerOut::Disconnection(id))
             .expect("While sending message to broker.");
+        if timeout(CLOSE_TIMEOUT, &mut sending).await.is_err() {
+            sending.abort();
+        }
     }
 
     // Returns once one of the sides closed the connection.
@@ -165,12 +173,20 @@ impl WSConnection {
         }
     }
 
-    async fn send(&mut self, msg: String) -> anyhow::Result<()> {
-        Ok(self
-            .websocket
-            .send(Message::Text(msg.into()))
-            .await
-            .map_err(|e| WSError::Underlying(e.to_string()))?)
+    // A client which doesn't read its messages only holds up this task.
+    async fn loop_send(
+        mut ws: SplitSink<WebSocketStream<TcpStream>, Message>,
+        mut messages: mpsc::UnboundedReceiver<String>,
+    ) {
+        while let Some(msg) = messages.recv().await {
+            if let Err(e) = ws.send(Message::Text(msg.into())).await {
+                log::error!("Error while sending: {e}");
+                return;
+            }
+        }
+        if let Err(e) = ws.close().await {
+            log::trace!("While closing: {e}");
+        }
     }
 }
 
-- 
2.43.0


From 902cf16e5cae8c9b28990655035a301671a02bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 29/40] fix: return an error for ids which are no pairs of
 hexadecimal characters

---
 flarch/src/nodeids.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 7911751..bcbb4a8 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -12,6 +12,8 @@ use thiserror::Error;
 pub enum ParseError {
     #[error("Give no more than 64 hexadecimal characters")]
     HexTooLong,
+    #[error("Only pairs of hexadecimal characters are allowed")]
+    NotHex,
     #[error(transparent)]
     ParseInt(#[from] ParseIntError),
 }
@@ -133,6 +135,9 @@ impl FromStr for U256 {
         if s.len() > 64 {
             return Err(ParseError::HexTooLong.into());
         }
+        if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ParseError::NotHex.into());
+        }
         let v: Vec<u8> = (0..s.len())
             .step_by(2)
             .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.into()))
-- 
2.43.0


From c3691a311d4f73e8046b03b3496821bf80397d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 30/40] fix: do not let reading from the storage overtake
 storing

---
 flmodules/src/dht_storage/broker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 7f923c0..169144b 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -135,7 +135,10 @@ impl DHTStorage {
     }
 
     pub fn store_flo(&mut self, flo: Flo) -> anyhow::Result<()> {
-        Ok(self.broker.emit_msg_in(DHTStorageIn::StoreFlo(flo))?)
+        // Reading also goes directly to the intern broker, and must never overtake this.
+        Ok(self
+            .intern
+            .emit_msg_in(InternIn::Storage(DHTStorageIn::StoreFlo(flo)))?)
     }
 
     pub fn propagate(&mut self) -> anyhow::Result<()> {
-- 
2.43.0


From 08d61eaa1cf052d8e82d310f405daaf3d67386e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 31/40] fix: do not panic when decoding the first version of
 NodeInfo

---
 flmodules/src/nodeconfig.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 5b9b429..a7aeef5 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -175,14 +175,14 @@ bitflags! {
 }
 
 impl From<NodeInfoV1> for NodeInfoV2 {
-    fn from(_: NodeInfoV1) -> Self {
-        panic!("Old configuration not supported anymore")
+    fn from(old: NodeInfoV1) -> Self {
+        match old {}
     }
 }
 
-// This is not used anymore, so it's empty.
+// This is not supported anymore: it has no values, so that decoding it is an error.
 #[derive(Serialize, Deserialize, Clone)]
-struct NodeInfoV1 {}
+enum NodeInfoV1 {}
 
 /// NodeConfig is stored on the node itself and contains the private key.
 #[serde_as]
-- 
2.43.0


From 1bc5a509f82cebe4982f2c600ef36ebf76632c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 32/40] fix: do not panic on a NodeInfo with a public key of
 the wrong length

---
 flmodules/src/nodeconfig.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index a7aeef5..4638a32 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -79,8 +79,11 @@ impl NodeInfo {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.as_slice()) {
+            Ok(a) => U256::from(a),
+            // The info might come from another node, and hold anything.
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
-- 
2.43.0


From 3d1b21133b2aafa85e165385d3c0c6ede60b9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 33/40] fix: do not panic on empty mappings in messages from
 other nodes

---
 flmodules/src/nodeconfig.rs      |  6 +++---
 flmodules/src/router/messages.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 4638a32..c102b6f 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -13,7 +13,7 @@ use serde_with::{base64::Base64, hex::Hex, serde_as};
 use std::fmt::{Debug, Formatter};
 use thiserror::Error;
 
-use crate::Modules;
+use crate::{router::messages::from_yaml, Modules};
 
 /// Errors to be returned when setting up a new config
 #[derive(Error, Debug)]
@@ -101,7 +101,7 @@ impl NodeInfo {
 
     /// Decodes a given string as yaml and returns the corresponding `NodeInfo`.
     pub fn decode(data: &str) -> Result<Self, ConfigError> {
-        Ok(serde_yaml::from_str(data)?)
+        Ok(from_yaml(data)?)
     }
 
     /// Encodes this NodeInfo as yaml string.
@@ -232,7 +232,7 @@ impl NodeConfig {
     /// Returns the configuration or an error. Correctly handles
     /// old toml-configurations.
     pub fn decode(data: &str) -> Self {
-        serde_yaml::from_str(data)
+        from_yaml(data)
             .ok()
             .unwrap_or_else(|| Self::new())
     }
diff --git a/flmodules/src/router/messages.rs b/flmodules/src/router/messages.rs
index 3871a4d..7d83b9f 100644
--- a/flmodules/src/router/messages.rs
+++ b/flmodules/src/router/messages.rs
@@ -35,7 +35,7 @@ impl NetworkWrapper {
 
     pub fn unwrap_yaml<T: DeserializeOwned>(&self, module: &str) -> Option<T> {
         if self.module == module {
-            if let Ok(msg) = serde_yaml::from_str(&self.msg) {
+            if let Ok(msg) = from_yaml(&self.msg) {
                 return Some(msg);
             }
         }
@@ -43,6 +43,32 @@ impl NetworkWrapper {
     }
 }
 
+/// Decodes YAML coming from another node. serde_yaml panics if it finds an empty mapping
+/// where it expects an enum, while this returns an error.
+pub fn from_yaml<T: DeserializeOwned>(data: &str) -> Result<T, serde_yaml::Error> {
+    fn has_empty_mapping(value: &serde_yaml::Value) -> bool {
+        match value {
+            serde_yaml::Value::Mapping(map) => {
+                map.is_empty()
+                    || map
+                        .iter()
+                        .any(|(k, v)| has_empty_mapping(k) || has_empty_mapping(v))
+            }
+            serde_yaml::Value::Sequence(seq) => seq.iter().any(has_empty_mapping),
+            _ => false,
+        }
+    }
+
+    // Empty mappings always need a brace.
+    if data.contains('{') {
+        let value = serde_yaml::from_str(data)?;
+        if has_empty_mapping(&value) {
+            return serde_yaml::from_value(value);
+        }
+    }
+    serde_yaml::from_str(data)
+}
+
 impl std::fmt::Display for RouterOut {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From ae8117e4c707f262e352380b550ef830008bd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 34/40] fix: do not recurse endlessly if the parents of a page
 form a loop

---
 flmodules/src/dht_storage/realm_view.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 7eb1cd5..bbb630a 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -273,13 +273,25 @@ impl RealmView {
     }
 
     pub fn get_full_path_blob<T: BlobPathFamily>(&self, b: &T) -> anyhow::Result<String> {
-        let path = b
-            .get_path()
-            .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
-        if let Some(p) = b.get_parents().first() {
-            return Ok(format!("{}/{path}", self.get_full_path_id(p)?));
+        let mut full_path = String::new();
+        let mut blob: &dyn BlobPathFamily = b;
+        let mut seen = HashSet::new();
+        loop {
+            let path = blob
+                .get_path()
+                .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
+            full_path = format!("/{path}{full_path}");
+            let Some(parent) = blob.get_parents().first().cloned() else {
+                return Ok(full_path);
+            };
+            blob = self
+                .get_blob_path_family(&parent)
+                .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+            // Nothing prevents the parents from forming a loop.
+            if !seen.insert(parent) {
+                return Err(anyhow::anyhow!("The parents of this blob form a loop"));
+            }
         }
-        Ok(format!("/{path}"))
     }
 
     pub fn get_page_from_path(&self, path: &str) -> anyhow::Result<&FloBlobPage> {
-- 
2.43.0


From 317608bdf60a9ab54b71fcc764eb691f34b571bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 35/40] fix: find a page by its path even if other pages have
 the same names

---
 flmodules/src/dht_storage/realm_view.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index bbb630a..79338b9 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -23,6 +23,7 @@ use flcrypto::{
     access::Condition,
     signer::{Signer, SignerError, SignerTrait, VerifierTrait},
 };
+use itertools::Itertools;
 use regex::Regex;
 use serde::{de::DeserializeOwned, Serialize};
 use thiserror::Error;
@@ -488,18 +489,22 @@ where
             .flat_map(|id| once(id).chain(self.cuckoos.get(id).into_iter().flatten()))
             .collect::<Vec<_>>();
         if let Some(part) = parts.split_first() {
-            if let Some(f) = ids
+            // More than one blob can have this name.
+            let mut found = ids
                 .iter()
                 .filter_map(|id| self.storage.get(id))
-                .find(|f| f.get_path().map(|p| p == part.0).unwrap_or(false))
-            {
-                if part.1.len() == 0 {
+                .filter(|f| f.get_path().map(|p| p == part.0).unwrap_or(false));
+            if part.1.len() == 0 {
+                if let Some(f) = found.next() {
                     return Ok(f);
-                } else {
-                    let children = f.get_children();
-                    if !children.is_empty() {
-                        return self.get_path_internal(part.1.to_vec(), children.iter().collect());
-                    }
+                }
+            } else {
+                let children = found
+                    .flat_map(|f| f.get_children())
+                    .unique()
+                    .collect::<Vec<_>>();
+                if !children.is_empty() {
+                    return self.get_path_internal(part.1.to_vec(), children.iter().collect());
                 }
             }
         }
-- 
2.43.0


From fb076220e62e8be08a9e6233e9e56d12dec1b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 36/40] fix: update the parents of a page if only some of the
 signers may do so

---
 flmodules/src/dht_storage/realm_view.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 79338b9..2e8b896 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -165,10 +165,11 @@ impl RealmView {
                     log::warn!("Cannot update parent with this signer");
                 }
             } else {
+                let parent_signers = Self::filter_signers(&cond, signers);
                 let parent_update = parent_page.edit_data_signers(
                     cond,
                     |page| page.add_child(fp.blob_id()),
-                    signers,
+                    &parent_signers,
                 )?;
                 self.store_page(parent_update)?;
             }
@@ -376,7 +377,8 @@ impl RealmView {
                     .convert(parent.cond(), &parent.realm_id())
                     .await;
                 if cond.can_signers(signers) {
-                    match parent.edit_data_signers(cond, &mut edit, signers) {
+                    let parent_signers = Self::filter_signers(&cond, signers);
+                    match parent.edit_data_signers(cond, &mut edit, &parent_signers) {
                         Ok(new_parent) => {
                             self.store_page(new_parent.clone())
                                 .expect("Storing new parent");
@@ -388,6 +390,15 @@ impl RealmView {
         }
     }
 
+    // The signers of a page can include some which are not part of the condition of its parent.
+    fn filter_signers<'a>(cond: &Condition, signers: &[&'a Signer]) -> Vec<&'a Signer> {
+        signers
+            .iter()
+            .filter(|signer| cond.has_verifier(&signer.get_id()))
+            .cloned()
+            .collect()
+    }
+
     pub fn store_page(&mut self, page: FloBlobPage) -> anyhow::Result<()> {
         self.dht_storage.store_flo(page.clone().into())?;
         self.pages.storage.insert(page.blob_id(), page);
-- 
2.43.0


From c37e66534d9d56341d56a71ebf8a447d8f6c3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 37/40] fix: a stored gossip file without a category no longer
 stops the node

---
 flmodules/src/gossip_events/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index c19b102..b89a30d 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -86,7 +86,10 @@ impl EventsStorage {
     }
 
     pub fn set(&mut self, data: &str) -> anyhow::Result<()> {
-        self.storage = EventsStorageSave::from_str(data)?.storage;
+        let stored = EventsStorageSave::from_str(data)?.storage;
+        // A category which the stored data doesn't know about yet starts out empty.
+        self.storage = Self::new().storage;
+        self.storage.extend(stored);
         Ok(())
     }
 }
-- 
2.43.0


From ea3176dafd13a67c1880b086ee9518de0b4c11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 38/40] fix: an interval made while the clock moves on, or for
 the past, fires

---
 flarch/src/tasks/libc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flarch/src/tasks/libc.rs b/flarch/src/tasks/libc.rs
index 8b5793f..d7766f8 100644
--- a/flarch/src/tasks/libc.rs
+++ b/flarch/src/tasks/libc.rs
@@ -47,7 +47,7 @@ impl Interval {
     /// dur.
     pub fn new(next_millis: i64, dur: Duration) -> Self {
         let next = Instant::now()
-            .checked_add(Duration::from_millis((next_millis - now()) as u64))
+            .checked_add(Duration::from_millis((next_millis - now()).max(0) as u64))
             .unwrap();
         Self {
             interval: time::interval_at(next, dur),
-- 
2.43.0


From 31bf8a5dfcafacfabc0f23098480a6f16b7d5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 39/40] fix: the published list of connections follows the
 connections

---
 flmodules/src/network/intern.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 6186a95..456748f 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -126,9 +126,9 @@ impl Intern {
                 let dir = pi.get_direction(&own_id);
                 if self.connected_only(&remote_node, &dir) {
                     out.push(NetworkOut::Disconnected(remote_node.clone()).into());
-                    self.send_connections();
                 }
                 self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
+                self.send_connections();
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
                     remote_node,
                     NCInput::Setup(dir, pi.message),
@@ -204,6 +204,7 @@ impl Intern {
             NCOutput::Connected(dir) => {
                 let new_connection = !self.connected(&id);
                 self.connection_state_set(id, &dir, ConnectionState::Connected);
+                self.send_connections();
                 if new_connection {
                     vec![NetworkOut::Connected(id).into()]
                 } else {
@@ -213,6 +214,7 @@ impl Intern {
             NCOutput::Disconnected(dir) => {
                 let new_disconnection = self.connected_only(&id, &dir);
                 self.connection_state_set(id, &dir, ConnectionState::None);
+                self.send_connections();
                 if new_disconnection {
                     vec![NetworkOut::Disconnected(id).into()]
                 } else {
-- 
2.43.0


From 5e9dcf67b8d58d5e3669f7376e210b5c4aa6fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 40/40] fix: a connection which cannot be set up is tried again

---
 flmodules/src/random_connections/intern.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flmodules/src/random_connections/intern.rs b/flmodules/src/random_connections/intern.rs
index 21d2802..b70b59e 100644
--- a/flmodules/src/random_connections/intern.rs
+++ b/flmodules/src/random_connections/intern.rs
@@ -67,6 +67,7 @@ impl Intern {
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
         self.storage.tick();
+        self.connecting_failed();
 
         concat([
             self.new_connection(),
@@ -177,6 +178,16 @@ impl Intern {
             .collect()
     }
 
+    /// Gives up on connections which have not been set up in time, so that these nodes
+    /// can be chosen again.
+    fn connecting_failed(&mut self) {
+        let failed = self
+            .storage
+            .connecting
+            .oldest_ticks(self.cfg.connecting_timeout);
+        self.storage.connecting.remove(&failed);
+    }
+
     fn fill_connection(&mut self) -> Vec<InternOut> {
         self.fill += 1;
         if self.fill >= self.cfg.fill_connected {
-- 
2.43.0

