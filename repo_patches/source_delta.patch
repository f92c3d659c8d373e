From eb8e90a04502f776ff79a8235c8302c4a1135db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 01/55] fix: treat a zero parent hash as genesis only while the
 node has no best header

---
 node/src/roles/importer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 9023089..c84177a 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -180,7 +180,7 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        if block.is_genesis() {
+        if Self::is_genesis_import(&storage, block) {
             // Skip validation for the genesis block
             let output =
                 Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode)
@@ -201,6 +201,11 @@ impl BlockImporter {
         Ok(output)
     }
 
+    /// A zero parent hash denotes the genesis block only while the node has no best header yet.
+    fn is_genesis_import(storage: &NodeStorage, block: &Block) -> bool {
+        block.is_genesis() && storage.header_db().get_best_header() == BlockHeader::default()
+    }
+
     /// Note: Currently, each STF validates Xt types as well. Up-front Xt validations might work
     /// incorrectly, since some validation rules need to refer to partially transitioned state.
     #[allow(dead_code)]
@@ -512,7 +517,7 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        let account_state_changes = if block.is_genesis() {
+        let account_state_changes = if Self::is_genesis_import(storage, block) {
             let output = BlockExecutor::run_genesis_state_transition(storage, block).await?;
             BlockExecutor::append_beefy_belt_and_block_history(
                 storage,
-- 
2.43.0


From 619ff2930285b254cc4667455df979d77a22a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 02/55] fix: use a cached ring context only for the validator
 set it was built from

---
 state/src/manager.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index 6661d6f..aa0a002 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -334,10 +334,13 @@ impl StateManager {
         // Check the cache
         if let Some(RingContext {
             inserted_at,
-            validator_set,
+            validator_set: cached_set,
             verifier,
             ring_root,
-        }) = self.ring_cache_read_guard().curr()
+        }) = self
+            .ring_cache_read_guard()
+            .curr()
+            .filter(|context| context.validator_set == *validator_set)
         {
             // Validate if the `curr` ring cache holds the correct latest ring context
             let LastStagingSetTransitionContext {
@@ -352,7 +355,7 @@ impl StateManager {
             // Extra check for the same-slot fork making the ring cache stale
             if last_staging_set_transition_slot == *inserted_at {
                 let expected_effective_staging_set_hash =
-                    hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
+                    hash::<Blake2b256>(&StagingSet(cached_set.clone()).encode()?)?;
                 if last_effective_staging_set_hash == expected_effective_staging_set_hash {
                     return Ok((verifier.clone(), ring_root.clone()));
                 }
@@ -385,13 +388,16 @@ impl StateManager {
         // Check the cache
         if let Some(RingContext {
             inserted_at,
-            validator_set,
+            validator_set: cached_set,
             verifier,
             ring_root,
-        }) = self.ring_cache_read_guard().staging()
+        }) = self
+            .ring_cache_read_guard()
+            .staging()
+            .filter(|context| context.validator_set == *validator_set)
         {
             let expected_effective_staging_set_hash =
-                hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
+                hash::<Blake2b256>(&StagingSet(cached_set.clone()).encode()?)?;
 
             // The cache entry is valid only if StagingSet was not mutated after its insertion
             // Check both the transition slot and the effective staging set hash
-- 
2.43.0


From b76402fce5006ce52d7630647e733b30d3cef2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 03/55] fix: reject verdicts whose epoch lies in the future

---
 extrinsics/src/validation/disputes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/extrinsics/src/validation/disputes.rs b/extrinsics/src/validation/disputes.rs
index 656ec13..f6203c1 100644
--- a/extrinsics/src/validation/disputes.rs
+++ b/extrinsics/src/validation/disputes.rs
@@ -170,8 +170,11 @@ impl DisputesXtValidator {
         all_past_report_hashes: &[Hash32],
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
-        // Check if verdicts contain entries with epoch index older than the previous epoch
-        if entry.epoch_index + 1 < prior_timeslot.epoch() {
+        // Check if verdicts refer to neither the current nor the previous epoch
+        let current_epoch = prior_timeslot.epoch();
+        if entry.epoch_index != current_epoch
+            && entry.epoch_index.checked_add(1) != Some(current_epoch)
+        {
             return Err(XtError::InvalidJudgmentsAge(
                 entry.epoch_index,
                 prior_timeslot.epoch(),
-- 
2.43.0


From 3787e293798e2793c646d12ed7d3c473d9503da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 04/55] fix: keep the set of offenders free of duplicates

---
 state/src/types/disputes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/state/src/types/disputes.rs b/state/src/types/disputes.rs
index 190eba0..274feeb 100644
--- a/state/src/types/disputes.rs
+++ b/state/src/types/disputes.rs
@@ -74,6 +74,7 @@ impl DisputesState {
     pub fn sort_extend_punish_set(&mut self, punish_set: Vec<Ed25519PubKey>) {
         self.punish_set.extend(punish_set);
         self.punish_set.sort();
+        self.punish_set.dedup();
     }
 
     pub fn get_all_report_hashes(&self) -> Vec<WorkReportHash> {
-- 
2.43.0


From 3fe128b493bbc680cc8c2a3c10fcc690cc88d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 05/55] fix: connect to the next epoch's validators, not to
 those of the epoch after it

---
 network/src/manager.rs        | 2 +-
 state/src/types/validators.rs | 2 +-
 storage/src/node_storage.rs   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 0597032..92f7b3a 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -54,7 +54,7 @@ impl NetworkManager {
         let mut all_validator_peers = DashMap::new();
         let prev_epoch_peers = validator_set_to_peers(effective_validators.past_set.0);
         let curr_epoch_peers = validator_set_to_peers(effective_validators.active_set.0);
-        let next_epoch_peers = validator_set_to_peers(effective_validators.staging_set.0);
+        let next_epoch_peers = validator_set_to_peers(effective_validators.pending_set);
         all_validator_peers.extend(prev_epoch_peers);
         all_validator_peers.extend(curr_epoch_peers);
         all_validator_peers.extend(next_epoch_peers);
diff --git a/state/src/types/validators.rs b/state/src/types/validators.rs
index 9c24ab8..e3dd385 100644
--- a/state/src/types/validators.rs
+++ b/state/src/types/validators.rs
@@ -94,7 +94,7 @@ fn fmt_validator_set(
 pub struct EffectiveValidators {
     pub past_set: PastSet,
     pub active_set: ActiveSet,
-    pub staging_set: StagingSet,
+    pub pending_set: ValidatorKeySet,
 }
 
 /// A validator set that will become active in a future epoch.
diff --git a/storage/src/node_storage.rs b/storage/src/node_storage.rs
index e8aa49a..7fc688f 100644
--- a/storage/src/node_storage.rs
+++ b/storage/src/node_storage.rs
@@ -112,11 +112,11 @@ impl NodeStorage {
     pub async fn effective_validators(&self) -> Result<EffectiveValidators, NodeStorageError> {
         let past_set = self.state_manager.get_past_set().await?;
         let active_set = self.state_manager.get_active_set().await?;
-        let staging_set = self.state_manager.get_staging_set().await?;
+        let pending_set = self.state_manager.get_safrole().await?.pending_set;
         Ok(EffectiveValidators {
             past_set,
             active_set,
-            staging_set,
+            pending_set,
         })
     }
 
-- 
2.43.0


From 15db9a3fa34aee459047669340ddeed6b47dba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 06/55] fix: keep uncommitted state entries out of the
 evictable cache

---
 state/src/cache.rs   | 130 +++++++++++++++++--------------------------
 state/src/manager.rs |  16 ++----
 2 files changed, 57 insertions(+), 89 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index c548ef4..27b520e 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -6,7 +6,7 @@ use crate::{
 use fr_common::{ByteEncodable, StateKey};
 use mini_moka::sync::{Cache, ConcurrentCacheExt};
 use std::{
-    collections::HashSet,
+    collections::HashMap,
     sync::{Arc, Mutex, MutexGuard},
 };
 #[derive(Debug, Clone, PartialEq)]
@@ -63,66 +63,50 @@ impl CacheEntry {
 
 /// A thread-safe mapping from state keys to their corresponding cache entries.
 pub struct StateCache {
-    /// A state cache which ensures that dirty cache entries never get evicted.
+    /// A size-bounded cache of clean entries; any of its entries can get evicted at any time.
     inner: Cache<StateKey, CacheEntry>,
-    /// Tracks state keys of all "dirty" cache entries.
-    dirty_keys: Mutex<HashSet<StateKey>>,
+    /// All "dirty" cache entries. Kept apart from `inner`, since they must never get evicted.
+    dirty: Mutex<HashMap<StateKey, CacheEntry>>,
 }
 
 impl StateCache {
-    /// Creates a `StateCache` with the given max capacity.
-    /// Cache entries with `Dirty` status never gets evicted since they have zero weight.
+    /// Creates a `StateCache` with the given max capacity for clean entries.
     pub fn new(max_capacity: usize) -> Self {
         Self {
-            inner: Cache::builder()
-                .weigher(|_key, entry: &CacheEntry| -> u32 { u32::from(!entry.is_dirty()) })
-                .max_capacity(max_capacity as u64)
-                .build(),
-            dirty_keys: Mutex::new(HashSet::new()),
+            inner: Cache::builder().max_capacity(max_capacity as u64).build(),
+            dirty: Mutex::new(HashMap::new()),
         }
     }
 
-    fn dirty_keys_guard(&self) -> MutexGuard<'_, HashSet<StateKey>> {
-        self.dirty_keys.lock().unwrap_or_else(|poisoned| {
-            tracing::error!("State cache dirty_keys lock poisoned; continuing with inner data");
+    fn dirty_guard(&self) -> MutexGuard<'_, HashMap<StateKey, CacheEntry>> {
+        self.dirty.lock().unwrap_or_else(|poisoned| {
+            tracing::error!("State cache dirty entries lock poisoned; continuing with inner data");
             poisoned.into_inner()
         })
     }
 
-    fn get_dirty_state_keys(&self) -> Vec<StateKey> {
-        let guard = self.dirty_keys_guard();
-        guard.iter().cloned().collect()
-    }
-
-    fn insert_to_dirty_state_key_set(&self, state_key: StateKey) {
-        self.dirty_keys_guard().insert(state_key);
-    }
-
-    fn remove_dirty_state_key(&self, state_key: &StateKey) {
-        self.dirty_keys_guard().remove(state_key);
-    }
-
-    fn clear_dirty_state_keys(&self) {
-        self.dirty_keys_guard().clear();
-    }
-
     pub(crate) fn get_entry(&self, key: &StateKey) -> Option<CacheEntry> {
-        self.inner.get(key)
+        let dirty_entry = self.dirty_guard().get(key).cloned();
+        dirty_entry.or_else(|| self.inner.get(key))
     }
 
     pub(crate) fn get_entry_status(&self, key: &StateKey) -> Option<CacheEntryStatus> {
-        self.inner.get(key).map(|entry| entry.status.clone())
+        self.get_entry(key).map(|entry| entry.status)
     }
 
+    /// Inserts a cache entry. A clean entry never replaces a dirty one.
     pub(crate) fn insert_entry(&self, key: StateKey, entry: CacheEntry) {
+        let mut dirty = self.dirty_guard();
         if entry.is_dirty() {
-            self.insert_to_dirty_state_key_set(key.clone());
+            dirty.insert(key, entry);
+        } else if !dirty.contains_key(&key) {
+            self.inner.insert(key, entry);
         }
-        self.inner.insert(key, entry);
     }
 
     // Note: test-only
     pub(crate) fn invalidate_all(&self) {
+        self.dirty_guard().clear();
         self.inner.invalidate_all();
     }
 
@@ -130,6 +114,7 @@ impl StateCache {
         &self,
         state_key: &StateKey,
         state_mut: StateMut,
+        loaded_entry: T,
         f: F,
     ) -> Result<(), StateManagerError>
     where
@@ -137,11 +122,10 @@ impl StateCache {
         F: FnOnce(&mut T) -> Result<(), E>,
         StateManagerError: From<E>,
     {
-        // Cloned data
+        // Cloned data. The clean entry just loaded by the caller might be already evicted.
         let mut cache_entry = self
-            .inner
-            .get(state_key)
-            .ok_or(StateManagerError::CacheEntryNotFound)?;
+            .get_entry(state_key)
+            .unwrap_or_else(|| CacheEntry::new(loaded_entry.into_entry_type()));
 
         let entry_mut = T::from_entry_type_mut(Arc::make_mut(&mut cache_entry.value))
             .ok_or(StateManagerError::UnexpectedEntryType)?;
@@ -154,11 +138,10 @@ impl StateCache {
         if cache_entry.status != CacheEntryStatus::Dirty(StateMut::Add)
             || state_mut != StateMut::Update
         {
-            self.insert_to_dirty_state_key_set(state_key.clone());
             cache_entry.mark_dirty(state_mut)
         }
 
-        self.inner.insert(state_key.clone(), cache_entry);
+        self.insert_entry(state_key.clone(), cache_entry);
         Ok(())
     }
 
@@ -167,20 +150,18 @@ impl StateCache {
         key: &StateKey,
     ) -> Result<(), StateManagerError> {
         let mut cache_entry = self
-            .inner
-            .get(key)
+            .get_entry(key)
             .ok_or(StateManagerError::CacheEntryNotFound)?;
         cache_entry.mark_clean_and_snapshot();
-        self.remove_dirty_state_key(key);
-        self.inner.insert(key.clone(), cache_entry);
+        self.dirty_guard().remove(key);
+        self.insert_entry(key.clone(), cache_entry);
         Ok(())
     }
 
     pub(crate) fn collect_dirty(&self) -> Vec<(StateKey, CacheEntry)> {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys
-            .into_iter()
-            .filter_map(|key| self.get_entry(&key).map(|entry| (key, entry)))
+        self.dirty_guard()
+            .iter()
+            .map(|(key, entry)| (key.clone(), entry.clone()))
             .collect()
     }
 
@@ -188,17 +169,19 @@ impl StateCache {
     /// dirty state cache, by removing cache entries that are deleted from the global state and
     /// marking added or updated entries as clean.
     pub(crate) fn apply_direct_commit(&self, dirty_entries_from_cache: &[(StateKey, CacheEntry)]) {
+        let mut dirty = self.dirty_guard();
         for (key, entry) in dirty_entries_from_cache.iter() {
             // Remove cache entries that are removed from the global state
             if let CacheEntryStatus::Dirty(StateMut::Remove) = entry.status {
                 self.inner.invalidate(key);
-            } else if let Some(mut entry_mut) = self.inner.get(key) {
-                entry_mut.mark_clean_and_snapshot();
-                self.inner.insert(key.clone(), entry_mut);
+            } else {
+                let mut clean_entry = entry.clone();
+                clean_entry.mark_clean_and_snapshot();
+                self.inner.insert(key.clone(), clean_entry);
             }
         }
+        dirty.clear();
         self.inner.sync();
-        self.clear_dirty_state_keys();
     }
 
     /// Applies the provided dirty cache entries from a state commit artifact of staged block
@@ -233,33 +216,24 @@ impl StateCache {
     /// `Add`ed entries will be explicitly evicted from the state cache.
     /// `Update`d or `Remove`d entries will be reverted back to the clean snapshot.
     pub(crate) fn rollback_dirty_cache(&self) {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys.into_iter().for_each(|key| {
-            if let Some(mut entry) = self.get_entry(&key) {
-                match entry.status {
-                    CacheEntryStatus::Dirty(StateMut::Add) => {
-                        self.inner.invalidate(&key);
-                    }
-                    CacheEntryStatus::Dirty(StateMut::Update)
-                    | CacheEntryStatus::Dirty(StateMut::Remove) => {
-                        entry.revert_to_clean();
-                        self.insert_entry(key, entry);
-                    }
-                    CacheEntryStatus::Clean => {
-                        tracing::warn!(
-                            "Dirty state cache key points to clean entry. StateKey={}",
-                            key.to_hex()
-                        );
-                    }
+        for (key, mut entry) in self.dirty_guard().drain() {
+            match entry.status {
+                CacheEntryStatus::Dirty(StateMut::Add) => {
+                    self.inner.invalidate(&key);
+                }
+                CacheEntryStatus::Dirty(StateMut::Update)
+                | CacheEntryStatus::Dirty(StateMut::Remove) => {
+                    entry.revert_to_clean();
+                    self.inner.insert(key, entry);
+                }
+                CacheEntryStatus::Clean => {
+                    tracing::warn!(
+                        "Dirty state cache entry is clean. StateKey={}",
+                        key.to_hex()
+                    );
                 }
-            } else {
-                tracing::warn!(
-                    "Dirty state cache key missing from cache. StateKey={}",
-                    key.to_hex()
-                );
             }
-        });
-        self.clear_dirty_state_keys();
+        }
     }
 }
 
diff --git a/state/src/manager.rs b/state/src/manager.rs
index aa0a002..878a3b5 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -973,18 +973,12 @@ impl StateManager {
             return Err(StateManagerError::WrongStateMutType);
         }
 
-        let state_exists = self
-            .get_state_entry_internal::<T>(state_key)
-            .await?
-            .is_some();
-
-        if !state_exists {
-            return Err(StateManagerError::StateKeyNotInitialized(
-                state_key.encode_hex(),
-            ));
-        }
+        let loaded_entry = self.get_state_entry_internal::<T>(state_key).await?.ok_or(
+            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
+        )?;
 
-        self.cache.with_mut_entry(state_key, state_mut, f)
+        self.cache
+            .with_mut_entry(state_key, state_mut, loaded_entry, f)
     }
 
     async fn add_state_entry_internal<T>(
-- 
2.43.0


From 2c0c2603690f7b044eaf757d44de94b6ba1ad0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 07/55] fix: adding and removing a state entry before a commit
 leaves the committed state's entry status right

---
 state/src/cache.rs   | 37 +++++++++++++++++++++++++++++++++++++
 state/src/manager.rs | 16 +++++++---------
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index 27b520e..406db09 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -104,6 +104,35 @@ impl StateCache {
         }
     }
 
+    /// Inserts an entry of a state key that is currently absent, either since it is not in the
+    /// global state or since its removal has not been committed yet.
+    pub(crate) fn insert_added_entry(&self, key: StateKey, value: StateEntryType) {
+        let value = Arc::new(value);
+        let entry = match self.get_entry(&key) {
+            Some(CacheEntry {
+                clean_snapshot,
+                status: CacheEntryStatus::Dirty(StateMut::Remove),
+                ..
+            }) => CacheEntry {
+                clean_snapshot,
+                value,
+                status: CacheEntryStatus::Dirty(StateMut::Update),
+            },
+            _ => CacheEntry {
+                clean_snapshot: value.clone(),
+                value,
+                status: CacheEntryStatus::Dirty(StateMut::Add),
+            },
+        };
+        self.insert_entry(key, entry);
+    }
+
+    /// Drops an added entry that is removed again before it gets committed.
+    pub(crate) fn discard_added_entry(&self, key: &StateKey) {
+        self.dirty_guard().remove(key);
+        self.inner.invalidate(key);
+    }
+
     // Note: test-only
     pub(crate) fn invalidate_all(&self) {
         self.dirty_guard().clear();
@@ -132,6 +161,14 @@ impl StateCache {
 
         f(entry_mut)?; // Call the closure to apply the state mutation
 
+        // An entry that is not in the DB yet leaves nothing to be removed from the DB.
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add)
+            && state_mut == StateMut::Remove
+        {
+            self.discard_added_entry(state_key);
+            return Ok(());
+        }
+
         // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
         // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
         // they get committed to the db.
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 878a3b5..7bba7b7 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -905,6 +905,11 @@ impl StateManager {
         T: StateComponent,
     {
         // Check the cache
+        if let Some(CacheEntryStatus::Dirty(StateMut::Add)) = self.cache.get_entry_status(state_key)
+        {
+            // Not in the DB yet
+            return Ok(None);
+        }
         if let Some(clean_snapshot) = self.get_clean_cache_snapshot_as_state(state_key) {
             return Ok(Some(clean_snapshot));
         }
@@ -1005,15 +1010,8 @@ impl StateManager {
             )));
         }
 
-        let state_entry_type = Arc::new(state_entry.into_entry_type());
-        self.cache.insert_entry(
-            state_key.clone(),
-            CacheEntry {
-                clean_snapshot: state_entry_type.clone(),
-                value: state_entry_type,
-                status: CacheEntryStatus::Dirty(StateMut::Add),
-            },
-        );
+        self.cache
+            .insert_added_entry(state_key.clone(), state_entry.into_entry_type());
 
         Ok(())
     }
-- 
2.43.0


From 7e44e81cd5daa5b1f47b326e30de3eed444f9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 08/55] fix: raw state entry access sees uncommitted entries

---
 state/src/manager.rs | 75 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index 7bba7b7..7ec915b 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -537,9 +537,10 @@ impl StateManager {
     ) -> Result<Option<Vec<u8>>, StateManagerError> {
         // Check the cache
         if let Some(entry) = self.cache.get_entry(state_key) {
-            if let StateEntryType::Raw(octets) = entry.value.as_ref() {
-                return Ok(Some(octets.clone().into_vec()));
+            if let CacheEntryStatus::Dirty(StateMut::Remove) = entry.status {
+                return Ok(None);
             }
+            return Ok(Some(entry.value.encode()?));
         }
         self.retrieve_state_encoded(state_key).await
     }
@@ -558,20 +559,16 @@ impl StateManager {
         state_val: Vec<u8>,
     ) -> Result<(), StateManagerError> {
         // State entry must not exist to be added
-        let state_exists = self.get_raw_state_entry_from_db(state_key).await?.is_some();
+        let state_exists = self.get_raw_state_entry(state_key).await?.is_some();
         if state_exists {
             return Err(StateManagerError::StateEntryAlreadyExists(hex::encode(
                 state_key,
             )));
         }
 
-        self.cache.insert_entry(
+        self.cache.insert_added_entry(
             state_key.clone(),
-            CacheEntry {
-                clean_snapshot: Arc::new(StateEntryType::Raw(Octets::from_vec(state_val.clone()))),
-                value: Arc::new(StateEntryType::Raw(Octets::from_vec(state_val))),
-                status: CacheEntryStatus::Dirty(StateMut::Add),
-            },
+            StateEntryType::Raw(Octets::from_vec(state_val)),
         );
         Ok(())
     }
@@ -582,15 +579,17 @@ impl StateManager {
         new_val: Vec<u8>,
     ) -> Result<(), StateManagerError> {
         // State entry must exist to be updated
-        let old_state = self.get_raw_state_entry_from_db(state_key).await?.ok_or(
-            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
-        )?;
+        let old_entry = self.get_raw_cache_entry(state_key).await?;
+        let status = match old_entry.status {
+            CacheEntryStatus::Dirty(StateMut::Add) => old_entry.status,
+            _ => CacheEntryStatus::Dirty(StateMut::Update),
+        };
         self.cache.insert_entry(
             state_key.clone(),
             CacheEntry {
-                clean_snapshot: Arc::new(StateEntryType::Raw(Octets::from_vec(old_state))),
+                clean_snapshot: old_entry.clean_snapshot,
                 value: Arc::new(StateEntryType::Raw(Octets::from_vec(new_val))),
-                status: CacheEntryStatus::Dirty(StateMut::Update),
+                status,
             },
         );
         Ok(())
@@ -601,20 +600,43 @@ impl StateManager {
         state_key: &StateKey,
     ) -> Result<(), StateManagerError> {
         // State entry must exist to be removed
-        let old_state = self.get_raw_state_entry_from_db(state_key).await?.ok_or(
-            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
-        )?;
+        let old_entry = self.get_raw_cache_entry(state_key).await?;
+        if let CacheEntryStatus::Dirty(StateMut::Add) = old_entry.status {
+            self.cache.discard_added_entry(state_key);
+            return Ok(());
+        }
         self.cache.insert_entry(
             state_key.clone(),
             CacheEntry {
                 value: Arc::new(StateEntryType::Raw(Octets::default())),
-                clean_snapshot: Arc::new(StateEntryType::Raw(Octets::from_vec(old_state))),
+                clean_snapshot: old_entry.clean_snapshot,
                 status: CacheEntryStatus::Dirty(StateMut::Remove),
             },
         );
         Ok(())
     }
 
+    /// Gets the current entry of the state key, either from the cache or from the DB as a clean one.
+    async fn get_raw_cache_entry(
+        &self,
+        state_key: &StateKey,
+    ) -> Result<CacheEntry, StateManagerError> {
+        match self.cache.get_entry(state_key) {
+            Some(CacheEntry {
+                status: CacheEntryStatus::Dirty(StateMut::Remove),
+                ..
+            }) => None,
+            Some(entry) => Some(entry),
+            None => self
+                .get_raw_state_entry_from_db(state_key)
+                .await?
+                .map(|val| CacheEntry::new(StateEntryType::Raw(Octets::from_vec(val)))),
+        }
+        .ok_or(StateManagerError::StateKeyNotInitialized(
+            state_key.encode_hex(),
+        ))
+    }
+
     fn get_clean_cache_snapshot_as_state<T>(&self, state_key: &StateKey) -> Option<T>
     where
         T: StateComponent,
@@ -942,7 +964,22 @@ impl StateManager {
             // Special handling for the test-only `Raw` type
             if let StateEntryType::Raw(raw_octets) = entry.value.as_ref() {
                 let state_entry = T::decode(&mut raw_octets.as_slice())?;
-                self.insert_clean_cache_entry_and_snapshot(state_key, state_entry.clone());
+                let typed_value = Arc::new(state_entry.clone().into_entry_type());
+                let clean_snapshot = match entry.clean_snapshot.as_ref() {
+                    StateEntryType::Raw(raw) if entry.is_dirty() => {
+                        Arc::new(T::decode(&mut raw.as_slice())?.into_entry_type())
+                    }
+                    StateEntryType::Raw(_) => typed_value.clone(),
+                    _ => entry.clean_snapshot,
+                };
+                self.cache.insert_entry(
+                    state_key.clone(),
+                    CacheEntry {
+                        clean_snapshot,
+                        value: typed_value,
+                        status: entry.status,
+                    },
+                );
                 return Ok(Some(state_entry));
             }
 
-- 
2.43.0


From ab583afe3417b57516bc7dc286d41b240774b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 09/55] fix: removing the last entry of the state leaves the
 empty trie

---
 state/src/merkle_interface/manager.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/state/src/merkle_interface/manager.rs b/state/src/merkle_interface/manager.rs
index 3d82a74..1126c13 100644
--- a/state/src/merkle_interface/manager.rs
+++ b/state/src/merkle_interface/manager.rs
@@ -395,6 +395,16 @@ impl MerkleManager {
                     let leaf_path = self.get_leaf_path(state_key).await?.ok_or(
                         StateMerkleError::MerklePathUnknownForStateKey(format!("{state_key}")),
                     )?;
+                    // Remove case 0. The leaf is the only node in the trie.
+                    if leaf_path.0.is_empty() {
+                        self.merkle_change_set
+                            .insert_to_affected_paths(leaf_path.clone());
+                        self.merkle_change_set.insert_node(leaf_path, None);
+                        self.merkle_change_set
+                            .insert_leaf_path(state_key.clone(), None);
+                        return Ok(());
+                    }
+
                     // Find sibling of the leaf node to be removed
                     // Sibling of a leaf node always exists unless the leaf node is the only node in the trie
                     let sibling_path = leaf_path
@@ -615,8 +625,9 @@ impl MerkleManager {
             .merkle_change_set
             .get_node(&MerklePath::root())
             .ok_or(StateMerkleError::MissingAffectedMerkleRoot)?
-            .ok_or(StateMerkleError::RemovingMerkleRoot)?
-            .hash()?;
+            .map(|root_node| root_node.hash())
+            .transpose()?
+            .unwrap_or_default(); // The root of an empty trie
 
         Ok(Some(new_merkle_root))
     }
-- 
2.43.0


From 433c1effd5e8301cf8ab90ae365e36a1cf0974db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 10/55] fix: report the state keys added by the preimages
 extrinsic

---
 node/src/roles/executor.rs       | 10 +++++-----
 transition/src/state/services.rs | 23 ++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/node/src/roles/executor.rs b/node/src/roles/executor.rs
index 4beb37b..8d5d690 100644
--- a/node/src/roles/executor.rs
+++ b/node/src/roles/executor.rs
@@ -28,8 +28,8 @@ use fr_transition::{
         },
         safrole::{mark_safrole_header_markers, transition_safrole},
         services::{
-            transition_on_accumulate, transition_services_integrate_preimages,
-            transition_services_last_accumulate_at, AccountStateChanges,
+            integrate_preimages, transition_on_accumulate, transition_services_last_accumulate_at,
+            AccountStateChanges,
         },
         statistics::transition_onchain_statistics,
         timeslot::transition_timeslot,
@@ -255,7 +255,7 @@ impl BlockExecutor {
                 acc_summary.account_state_changes,
             ))
         });
-        let (acc_stats, acc_output_pairs, account_state_changes) = acc_jh.await??;
+        let (acc_stats, acc_output_pairs, mut account_state_changes) = acc_jh.await??;
 
         // LastAccumulateOutputs STF
         let manager = storage.state_manager();
@@ -295,7 +295,7 @@ impl BlockExecutor {
         // Preimage integration STF
         let manager = storage.state_manager();
         let preimage_jh = spawn_timed("preimage_stf", async move {
-            transition_services_integrate_preimages(manager, &preimages_xt).await
+            integrate_preimages(manager, &preimages_xt).await
         });
 
         // --- Join: AuthPool, Services(last_accumulate_at), OnChainStatistics, Preimage integration STFs
@@ -304,7 +304,7 @@ impl BlockExecutor {
         auth_pool_res?;
         last_acc_at_res?;
         stats_res?;
-        preimage_res?;
+        account_state_changes.extend(preimage_res?);
 
         Ok(BlockExecutionOutput {
             accumulate_root,
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index ab90b63..2d04708 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -434,12 +434,24 @@ pub async fn transition_services_integrate_preimages(
     state_manager: Arc<StateManager>,
     preimages_xt: &PreimagesXt,
 ) -> Result<(), TransitionError> {
+    integrate_preimages(state_manager, preimages_xt)
+        .await
+        .map(|_| ())
+}
+
+/// Integrates preimages (see `transition_services_integrate_preimages`) and collects the account
+/// state change set of all services.
+pub async fn integrate_preimages(
+    state_manager: Arc<StateManager>,
+    preimages_xt: &PreimagesXt,
+) -> Result<AccountStateChanges, TransitionError> {
     tracing::info!("Reports: {} preimages xts", preimages_xt.len());
     // Validate preimages extrinsic data.
     let preimages_validator = PreimagesXtValidator::new(state_manager.clone());
     preimages_validator.validate(preimages_xt).await?;
 
     let curr_timeslot = state_manager.get_timeslot().await?;
+    let mut account_state_changes = AccountStateChanges::default();
 
     for xt in preimages_xt.iter() {
         let preimage_data_hash = hash::<Blake2b256>(&xt.preimage_data)?;
@@ -496,8 +508,17 @@ pub async fn transition_services_integrate_preimages(
                     AccountPreimagesEntry::new(xt.preimage_data.clone()),
                 )
                 .await?;
+            account_state_changes
+                .inner
+                .entry(xt.service_id)
+                .or_default()
+                .added_state_keys
+                .insert(get_account_preimage_state_key(
+                    xt.service_id,
+                    &preimage_data_hash,
+                )?);
         }
     }
 
-    Ok(())
+    Ok(account_state_changes)
 }
-- 
2.43.0


From e0034e0e632495a98b49aa0657e2aeee92f3b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 11/55] fix: never allocate by an untrusted length when
 decoding

---
 codec/fr-codec/src/lib.rs                     | 19 +++++++++++++++----
 common/src/types/mod.rs                       | 10 ++++++++++
 .../src/refine/auditable_bundle.rs            |  5 +++++
 state/src/types/services.rs                   |  2 +-
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 2124931..ee9bbca 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -335,8 +335,9 @@ impl<T: JamEncode> JamEncode for Vec<T> {
 
 impl<T: JamDecode> JamDecode for Vec<T> {
     fn decode<I: JamInput>(input: &mut I) -> Result<Self, JamCodecError> {
-        let len = usize::decode(input)?; // length discriminator
-        let mut vec = Self::with_capacity(len);
+        // The announced length is untrusted: never reserve more than the input could hold.
+        let len = usize::decode(input)?;
+        let mut vec = Self::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -366,7 +367,7 @@ impl<T: JamDecode, const MAX_SIZE: usize> JamDecode for LimitedVec<T, MAX_SIZE>
                 "LimitedVec size limit exceeded".to_string(),
             ));
         }
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -685,8 +686,13 @@ impl JamDecodeFixed for BitVec<u8, Lsb0> {
     where
         Self: Sized,
     {
-        let mut bv = Self::with_capacity(size_in_bits);
         let expected_bytes = size_in_bits.div_ceil(8);
+        if expected_bytes > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to decode BitVec".into(),
+            ));
+        }
+        let mut bv = Self::with_capacity(size_in_bits);
         let mut bytes_read = 0;
 
         while bytes_read < expected_bytes {
@@ -731,6 +737,11 @@ impl JamDecodeFixed for Vec<u8> {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill buffer".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(buffer)
diff --git a/common/src/types/mod.rs b/common/src/types/mod.rs
index 2df8180..5af1526 100644
--- a/common/src/types/mod.rs
+++ b/common/src/types/mod.rs
@@ -163,6 +163,11 @@ impl JamDecode for ByteSequence {
         Self: Sized,
     {
         let len = usize::decode(input)?;
+        if len > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Failed to Decode ByteSequence".into(),
+            ));
+        }
         let mut vec = vec![0u8; len];
         input
             .read(&mut vec)
@@ -198,6 +203,11 @@ impl JamDecodeFixed for ByteSequence {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to fill buffer".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(Self(buffer))
diff --git a/pvm/pvm-invocation/src/refine/auditable_bundle.rs b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
index fc73161..91c58b8 100644
--- a/pvm/pvm-invocation/src/refine/auditable_bundle.rs
+++ b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
@@ -85,6 +85,11 @@ impl JamDecode for AuditableBundle {
             let mut work_item_xts = Vec::with_capacity(work_item.extrinsic_data_info.len());
             for xt_info in &work_item.extrinsic_data_info {
                 let blob_length = xt_info.blob_length as usize;
+                if blob_length > input.remaining_len() {
+                    return Err(JamCodecError::InputError(
+                        "Not enough data to decode extrinsic blob".into(),
+                    ));
+                }
                 let mut blob = vec![0u8; blob_length];
                 input.read(&mut blob)?;
                 work_item_xts.push(Octets::from_vec(blob));
diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 31dac09..dded087 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -518,7 +518,7 @@ impl JamDecode for AccountLookupsEntry {
         Self: Sized,
     {
         let len = usize::decode(input)?;
-        let mut timeslots = Vec::with_capacity(len);
+        let mut timeslots = Vec::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             let timeslot = Timeslot::decode_fixed(input, 4)?;
             timeslots.push(timeslot)
-- 
2.43.0


From 5a1b5785ed9d3d3760df3f3b840ecbd87d25554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 12/55] fix: decode instructions whose operands run past their
 own bytes

---
 pvm/pvm-core/src/program/instruction/mod.rs | 14 +++++++-------
 pvm/pvm-core/src/program/loader.rs          |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/mod.rs b/pvm/pvm-core/src/program/instruction/mod.rs
index eef61da..6afa6fe 100644
--- a/pvm/pvm-core/src/program/instruction/mod.rs
+++ b/pvm/pvm-core/src/program/instruction/mod.rs
@@ -104,21 +104,21 @@ impl Instruction {
     /// into a more easily consumable `Instruction` type, which can be used by
     /// single-step PVM state-transition functions.
     ///
-    /// The instruction blob should not exceed 16 bytes in length.
     /// The opcode is represented by the first byte of the instruction blob.
+    /// Operands are read from the at most 16 bytes starting there; code is implicitly followed by
+    /// zeroes, so operands reaching past its end read as zero.
     pub fn from_inst_blob(
         single_inst_blob: &[u8],
         current_pc: RegValue,
         skip_distance: usize,
     ) -> Result<Self, VMCoreError> {
         use crate::program::instruction::opcode::Opcode::*;
-        let op = Opcode::from_u8(single_inst_blob[0]);
 
-        // Note: the `single_inst_blob` is an octet slice that represents a single instruction.
-        // Validate instruction blob length
-        if single_inst_blob.len() > MAX_INST_BLOB_LENGTH {
-            return Err(VMCoreError::InvalidInstructionFormat);
-        }
+        let mut padded_inst_blob = [0u8; MAX_INST_BLOB_LENGTH];
+        let inst_blob_len = single_inst_blob.len().min(MAX_INST_BLOB_LENGTH);
+        padded_inst_blob[..inst_blob_len].copy_from_slice(&single_inst_blob[..inst_blob_len]);
+        let single_inst_blob = &padded_inst_blob[..];
+        let op = Opcode::from_u8(single_inst_blob[0]);
 
         match op {
             // Group 1: no arguments
diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index a1feab8..13bd8e2 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -157,7 +157,7 @@ impl ProgramLoader {
             let inst = if next_index > instructions.len() {
                 Instruction::trap()
             } else {
-                Instruction::from_inst_blob(&instructions[idx..next_index], idx as RegValue, skip)?
+                Instruction::from_inst_blob(&instructions[idx..], idx as RegValue, skip)?
             };
             decoded_instructions.push(inst);
             let decoded_index = decoded_instructions.len() as u32;
-- 
2.43.0


From 710bd5dc2875a1f3196e6cd709d294e2029d98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 13/55] fix: reject jump tables longer than the program that
 holds them

---
 pvm/pvm-core/src/program/loader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index 13bd8e2..aecebfa 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -68,6 +68,10 @@ impl ProgramLoader {
         let instructions_len = usize::decode(input)?;
 
         // Decode the dynamic jump table (j)
+        // Its announced length is untrusted and must fit in the remaining program code.
+        if jump_table_len > input.len() / (z as usize).max(1) {
+            return Err(VMCoreError::InvalidProgram);
+        }
         let mut jump_table = Vec::with_capacity(jump_table_len);
         for _ in 0..jump_table_len {
             jump_table.push(MemAddress::decode_fixed(input, z as usize)?);
-- 
2.43.0


From 82b4f63fa713c617c07cd37b3992ac2ad069a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 14/55] fix: begin a basic block after a terminating first
 instruction

---
 pvm/pvm-core/src/program/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index aecebfa..07266a4 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -96,7 +96,7 @@ impl ProgramLoader {
     fn set_basic_block_start_indices(program: &mut ProgramState) -> Result<(), VMCoreError> {
         program.basic_block_start_indices.set(0, true);
         let instructions_len = program.instructions.len();
-        for n in 1..instructions_len {
+        for n in 0..instructions_len {
             if program
                 .opcode_bitmask
                 .get(n)
-- 
2.43.0


From bf244ab4ccb361f4b0c216fee3e2b904b390e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 15/55] fix: panic the program on memory accesses that wrap
 around the address space

---
 pvm/pvm-core/src/state/memory.rs       | 12 +++++++++++-
 pvm/pvm-core/src/state/state_change.rs |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index bd31710..9d981be 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -1,6 +1,6 @@
 use fr_pvm_types::{
     common::MemAddress,
-    constants::{INIT_ZONE_SIZE, PAGE_SIZE},
+    constants::{INIT_ZONE_SIZE, MEMORY_SIZE, PAGE_SIZE},
 };
 use std::ops::Range;
 use thiserror::Error;
@@ -264,6 +264,11 @@ impl Memory {
             .checked_add(length)
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // The range wraps around the address space into the forbidden zone
+        if end > MEMORY_SIZE {
+            return Err(MemoryError::Forbidden(address));
+        }
+
         if end > self.data.len() {
             return Err(MemoryError::OutOfRange(address));
         }
@@ -335,6 +340,11 @@ impl Memory {
             .checked_add(bytes.len())
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // The range wraps around the address space into the forbidden zone
+        if end > MEMORY_SIZE {
+            return Err(MemoryError::Forbidden(address));
+        }
+
         if end > self.data.len() {
             return Err(MemoryError::OutOfRange(address));
         }
diff --git a/pvm/pvm-core/src/state/state_change.rs b/pvm/pvm-core/src/state/state_change.rs
index 666c87a..b35d259 100644
--- a/pvm/pvm-core/src/state/state_change.rs
+++ b/pvm/pvm-core/src/state/state_change.rs
@@ -157,6 +157,9 @@ impl VMStateMutator {
                 Err(MemoryError::AccessViolation(address)) => {
                     return Err(VMCoreError::PageFault(VMUtils::page_start_address(address)))
                 }
+                Err(MemoryError::Forbidden(address)) => {
+                    return Err(VMCoreError::ForbiddenMemZone(address))
+                }
                 Err(e) => return Err(e.into()),
             }
         }
-- 
2.43.0


From f80a715c6715aae8b812390f7b510dbd542f1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 16/55] fix: report the page's first address when a single-byte
 load faults

---
 pvm/pvm-core/src/state/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 9d981be..c0299ed 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -245,7 +245,7 @@ impl Memory {
         if self.is_page_readable(page_index) {
             Ok(self.data[address as usize])
         } else {
-            Err(MemoryError::AccessViolation(address))
+            Err(MemoryError::AccessViolation(mem_address(page_index, 0)))
         }
     }
 
-- 
2.43.0


From 1795daa4fb148f4ea7a9c4305d066a62fac6de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 17/55] fix: answer an unsatisfiable sbrk with zero instead of
 failing the block

---
 pvm/pvm-core/src/program/instruction/set.rs | 18 ++++++++++--------
 pvm/pvm-core/src/state/memory.rs            |  5 ++++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 720e507..dff95cf 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -801,16 +801,18 @@ impl InstructionSet {
         // find the first sequence of inaccessible memory cells that can satisfy the requested size
         let alloc_start = vm_state.memory.get_break(expand_size);
 
-        // try expanding the heap area
-        vm_state.memory.expand_heap(alloc_start, expand_size)?;
+        // try expanding the heap area; a request that cannot be satisfied leaves the memory as it is
+        // and is answered with zero
+        let alloc_result = match vm_state.memory.expand_heap(alloc_start, expand_size) {
+            Ok(()) => alloc_start as RegValue,
+            Err(e) => {
+                tracing::debug!("SBRK failed: {e}");
+                0
+            }
+        };
 
         // returns the start of the newly allocated heap memory
-        continue_with_reg_write!(
-            vm_state.pc,
-            program_state,
-            ins.rd()?,
-            alloc_start as RegValue
-        )
+        continue_with_reg_write!(vm_state.pc, program_state, ins.rd()?, alloc_result)
     }
 
     /// Count the number of set bits of a 64-bit value
diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index c0299ed..3e09fc7 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -379,7 +379,10 @@ impl Memory {
 
     /// Expand the heap area for the `sbrk` instruction.
     pub fn expand_heap(&mut self, start: MemAddress, size: usize) -> Result<(), MemoryError> {
-        let end = start + size as MemAddress;
+        let end = (start as usize)
+            .checked_add(size)
+            .and_then(|end| MemAddress::try_from(end).ok())
+            .ok_or(MemoryError::InvalidSbrk(start, size))?;
         if self.heap_start != 0 && end >= self.stack_start {
             return Err(MemoryError::SbrkHeapStackCollision(
                 start,
-- 
2.43.0


From c1b32e8d1f1fdc3c80a9dc0d101caed19258ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 18/55] fix: a malformed program panics its service instead of
 failing the block

---
 pvm/pvm-interface/src/invoke.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 6aa05be..6b88c78 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -166,6 +166,21 @@ impl InvocationType {
 
 pub struct PVMInterface;
 impl PVMInterface {
+    /// Decodes a standard program blob and loads its code into the immutable program state.
+    fn load_standard_program(
+        standard_program: &[u8],
+    ) -> Result<(FormattedProgram, ProgramState), VMCoreError> {
+        let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
+        if !formatted_program.is_program_size_valid() {
+            return Err(VMCoreError::InvalidProgram);
+        }
+
+        // Initialize the program state
+        let mut program_state = ProgramState::default();
+        ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
+        Ok((formatted_program, program_state))
+    }
+
     /// Initializes a PVM instance and executes it with a standard program blob and some arguments.
     /// This works as a common interface for the four PVM invocation entry-points.
     ///
@@ -196,14 +211,15 @@ impl PVMInterface {
         let cached_program = if let Some(entry) = program_cache().get(&program_hash) {
             entry
         } else {
-            let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
-            if !formatted_program.is_program_size_valid() {
-                return Err(PVMError::VMCoreError(VMCoreError::InvalidProgram));
-            }
-
-            // Initialize the program state
-            let mut program_state = ProgramState::default();
-            ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
+            // A malformed program is a panic of the service running it, not of the invoking node.
+            let (formatted_program, program_state) =
+                match Self::load_standard_program(standard_program) {
+                    Ok(loaded) => loaded,
+                    Err(e) => {
+                        tracing::warn!("Malformed program. s={service_id}: {e}");
+                        return Ok(PVMInvocationResult::panic(0));
+                    }
+                };
 
             let cached = Arc::new(CachedProgram {
                 formatted_program: Arc::new(formatted_program),
-- 
2.43.0


From 9f95420810434cefecfc02f0221f663b017170c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 19/55] fix: give no output for an output range outside of the
 address space

---
 pvm/pvm-interface/src/invoke.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 6b88c78..2487464 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -256,7 +256,10 @@ impl PVMInterface {
         match result.exit_reason {
             ExitReason::OutOfGas => Ok(PVMInvocationResult::out_of_gas(gas_used)),
             ExitReason::RegularHalt => {
-                let start_address = pvm.state.read_reg_as_mem_address(7)?;
+                // An output range outside of the address space is not readable
+                let Ok(start_address) = pvm.state.read_reg_as_mem_address(7) else {
+                    return Ok(PVMInvocationResult::no_output(gas_used));
+                };
                 let data_len = pvm.state.read_reg(8) as usize;
                 if !pvm
                     .state
-- 
2.43.0


From a45d890ec86b56ff338d81bb9ba0b3b017bdf3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 20/55] fix: treat host call numbers beyond a byte as unknown
 host calls

---
 pvm/pvm-core/src/program/instruction/set.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index dff95cf..5cab36c 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -172,10 +172,12 @@ impl InstructionSet {
         program_state: &ProgramState,
         ins: &Instruction,
     ) -> Result<SingleStepResult, VMCoreError> {
-        let imm_host_call_type = reg_to_u8(ins.imm1()?);
-        let exit_reason = ExitReason::HostCall(
-            HostCallType::from_u8(imm_host_call_type).ok_or(VMCoreError::InvalidHostCallType)?,
-        );
+        // Numbers beyond the identifiers of host calls are unknown host calls
+        let host_call_type = u8::try_from(ins.imm1()?)
+            .ok()
+            .and_then(HostCallType::from_u8)
+            .unwrap_or(HostCallType::INVALID);
+        let exit_reason = ExitReason::HostCall(host_call_type);
 
         Ok(SingleStepResult {
             exit_reason,
-- 
2.43.0


From 5bf5a5ac2178693c5f3cbd1384aee4d1a33b15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 21/55] fix: signed remainder of the least dividend keeps the
 dividend's sign

---
 pvm/pvm-core/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/utils.rs b/pvm/pvm-core/src/utils.rs
index 3c1d8fd..c5da102 100644
--- a/pvm/pvm-core/src/utils.rs
+++ b/pvm/pvm-core/src/utils.rs
@@ -313,8 +313,8 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i64).abs() as i32) % ((b as i64).abs() as i32))
+            // Truncated division: the remainder takes the sign of the dividend
+            a.wrapping_rem(b)
         }
     }
 
@@ -324,8 +324,8 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i128).abs() as i64) % ((b as i128).abs() as i64))
+            // Truncated division: the remainder takes the sign of the dividend
+            a.wrapping_rem(b)
         }
     }
 }
-- 
2.43.0


From ba9973de656bbbb1e2f97045dc1c6fbfa16e4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 22/55] fix: octets passed to service code are encoded as they
 are

---
 pvm/pvm-invocation/src/refine/mod.rs |  4 ++--
 pvm/pvm-types/src/invoke_args.rs     | 28 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-invocation/src/refine/mod.rs b/pvm/pvm-invocation/src/refine/mod.rs
index 235dcca..328aa58 100644
--- a/pvm/pvm-invocation/src/refine/mod.rs
+++ b/pvm/pvm-invocation/src/refine/mod.rs
@@ -30,7 +30,7 @@ struct RefineVMArgs {
     /// Associated service id (`s` of `WorkItem`)
     service_id: ServiceId,
     /// Work item payload blob (**`y`** of `WorkItem`)
-    work_payload: Vec<u8>,
+    work_payload: Octets,
     /// Work package hash (Hash of `WorkPackage`)
     work_package_hash: WorkPackageHash,
 }
@@ -149,7 +149,7 @@ impl RefineInvocation {
             core_idx: args.core_idx,
             item_idx: args.item_idx,
             service_id: work_item.service_id,
-            work_payload: work_item.payload_blob.clone().into_vec(),
+            work_payload: work_item.payload_blob.clone(),
             work_package_hash: hash::<Blake2b256>(&args.package.encode()?)?,
         };
 
diff --git a/pvm/pvm-types/src/invoke_args.rs b/pvm/pvm-types/src/invoke_args.rs
index 418186c..07ab5b9 100644
--- a/pvm/pvm-types/src/invoke_args.rs
+++ b/pvm/pvm-types/src/invoke_args.rs
@@ -7,7 +7,7 @@ use fr_common::{
 };
 use std::collections::HashMap;
 
-#[derive(Clone, JamEncode)]
+#[derive(Clone)]
 pub struct AccumulateOperand {
     /// `p`: Work package hash (`work_package_hash` of `AvailSpecs`)
     pub work_package_hash: WorkPackageHash,
@@ -25,6 +25,32 @@ pub struct AccumulateOperand {
     pub auth_trace: Vec<u8>,
 }
 
+impl JamEncode for AccumulateOperand {
+    fn size_hint(&self) -> usize {
+        self.work_package_hash.size_hint()
+            + self.segment_root.size_hint()
+            + self.authorizer_hash.size_hint()
+            + self.work_item_payload_hash.size_hint()
+            + self.accumulate_gas_limit.size_hint()
+            + self.refine_result.size_hint()
+            + self.auth_trace.len().size_hint()
+            + self.auth_trace.len()
+    }
+
+    fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
+        self.work_package_hash.encode_to(dest)?;
+        self.segment_root.encode_to(dest)?;
+        self.authorizer_hash.encode_to(dest)?;
+        self.work_item_payload_hash.encode_to(dest)?;
+        self.accumulate_gas_limit.encode_to(dest)?;
+        self.refine_result.encode_to(dest)?;
+        // Octets are written as is, not as a sequence of general integers
+        self.auth_trace.len().encode_to(dest)?;
+        dest.write(&self.auth_trace);
+        Ok(())
+    }
+}
+
 pub type TransferMemo = ByteArray<TRANSFER_MEMO_SIZE>;
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 33c8a733e7b1fa6d27da37d530a9a186721cbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 23/55] fix: service code metadata is plain octets

---
 state/src/types/services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index dded087..adbf365 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -91,7 +91,7 @@ impl JamDecode for AccountCode {
     where
         Self: Sized,
     {
-        let metadata = Vec::<u8>::decode(input)?;
+        let metadata = Octets::decode(input)?.into_vec();
         let code_len = input.remaining_len();
         let code = Vec::<u8>::decode_fixed(input, code_len)?;
         Ok(Self { metadata, code })
-- 
2.43.0


From e3e1e0ec5553142407f347e48f493a64164ed184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 24/55] fix: host call gas charge beyond the signed range is
 out of gas

---
 pvm/pvm-core/src/gas/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-core/src/gas/mod.rs b/pvm/pvm-core/src/gas/mod.rs
index ec3fbdb..2b47e21 100644
--- a/pvm/pvm-core/src/gas/mod.rs
+++ b/pvm/pvm-core/src/gas/mod.rs
@@ -10,13 +10,9 @@ impl GasCharger {
         vm_state: &mut VMState,
         gas_charge: UnsignedGas,
     ) -> Result<SignedGas, VMCoreError> {
-        let gas_charge_signed: SignedGas = gas_charge
-            .try_into()
-            .map_err(|_| VMCoreError::TooLargeGasCharge(gas_charge))?;
-        vm_state.gas_counter = vm_state
-            .gas_counter
-            .checked_sub(gas_charge_signed)
-            .ok_or(VMCoreError::GasCounterOverflow)?;
+        // A charge beyond any possible gas counter is simply more than what's left
+        let gas_charge_signed = SignedGas::try_from(gas_charge).unwrap_or(SignedGas::MAX);
+        vm_state.gas_counter = vm_state.gas_counter.saturating_sub(gas_charge_signed);
         Ok(vm_state.gas_counter)
     }
 }
-- 
2.43.0


From cff68a872f3101ccc5202686e64cadefbb2f89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 25/55] fix: a preimage without the form of a service code is
 no code

---
 pvm/pvm-host/src/context/partial_state.rs | 5 ++---
 state/src/manager.rs                      | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 2a5605d..13497c2 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -457,9 +457,8 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         let code_preimage = self
             .get_account_preimages_entry(state_provider, service_id, &code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.value.as_slice()))
-            .transpose()?)
+        // A preimage which doesn't have the form of a service code is no code at all
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.value.as_slice()).ok()))
     }
 
     pub async fn update_account_footprints(
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 7ec915b..0bb4930 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -712,9 +712,8 @@ impl StateManager {
         let code_preimage = self
             .lookup_historical_preimage(service_id, &Timeslot(reference_timeslot_index), code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.as_slice()))
-            .transpose()?)
+        // A preimage which doesn't have the form of a service code is no code at all
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.as_slice()).ok()))
     }
 
     /// The historical lookup function `Λ`
-- 
2.43.0


From 0bd0a92eaf858fd34249acbc1bfc076f85673b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 26/55] fix: ejecting an account updated earlier in the same
 accumulation removes it

---
 pvm/pvm-host/src/context/partial_state.rs | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 13497c2..51eb1e1 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -392,16 +392,22 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         state_provider: Arc<S>,
         service_id: ServiceId,
     ) -> Result<Option<AccountMetadata>, PartialStateError> {
-        let sandbox =
-            if let Some(sandbox) = self.get_account_sandbox(state_provider, service_id).await? {
-                sandbox
-            } else {
-                return Ok(None);
-            };
-        if let SandboxEntryStatus::Clean = sandbox.metadata.entry.status {
-            Ok(sandbox.metadata.entry.value.clone())
+        let sandbox = if let Some(sandbox) = self
+            .get_account_sandbox(state_provider.clone(), service_id)
+            .await?
+        {
+            sandbox
         } else {
-            Ok(sandbox.metadata.clean_snapshot.clone())
+            return Ok(None);
+        };
+        match (
+            &sandbox.metadata.entry.status,
+            &sandbox.metadata.clean_snapshot,
+        ) {
+            (SandboxEntryStatus::Clean, _) => Ok(sandbox.metadata.entry.value.clone()),
+            (_, Some(clean)) => Ok(Some(clean.clone())),
+            // Metadata is updated in place without taking a snapshot
+            _ => Ok(state_provider.get_account_metadata(service_id).await?),
         }
     }
 
-- 
2.43.0


From bddd6b7c9e9b93813d42e2bfd436d47b5fa3c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 27/55] fix: gas used by always-accumulate services doesn't
 fail the accumulation

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 8bc5fd1..e0e3216 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -152,8 +152,8 @@ pub async fn accumulate_outer(
         remaining_gas_limit = remaining_gas_limit
             .checked_add(deferred_transfer_gas)
             .ok_or(PVMInvokeError::GasOverflow)?
-            .checked_sub(gas_used)
-            .ok_or(PVMInvokeError::GasOverflow)?;
+            // Gas of always-accumulate services isn't reserved when selecting reports
+            .saturating_sub(gas_used);
         service_gas_pairs_flattened.extend(service_gas_pairs);
         service_output_pairs_flattened.extend(output_pairs.0);
     }
-- 
2.43.0


From 28115192d6ba7002c2006d30ebe9a3c397d73fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 28/55] fix: preimages provided to a service accumulated in the
 same round are kept

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index e0e3216..77f8a16 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -501,6 +501,7 @@ async fn accumulate_parallel(
     let mut service_gas_pairs = Vec::new();
     let mut service_output_pairs = BTreeSet::new();
     let mut new_deferred_transfers = Vec::new();
+    let mut provided_preimages = HashSet::new();
 
     // Concurrent accumulate invocations grouped by service ids.
     let mut handles = Vec::with_capacity(all_service_ids.len());
@@ -569,17 +570,21 @@ async fn accumulate_parallel(
                 new_deferred_transfers.extend(accumulate_result.deferred_transfers);
 
                 // Add provided preimages
-                add_provided_preimages(
-                    state_manager.clone(),
-                    partial_state_union,
-                    accumulate_result.provided_preimages,
-                    curr_timeslot_index,
-                )
-                .await?;
+                provided_preimages.extend(accumulate_result.provided_preimages);
             }
         }
     }
 
+    // Preimages are integrated once changes of all the services are merged, since the merge of
+    // a service's own changes would otherwise override the preimages provided to it.
+    add_provided_preimages(
+        state_manager.clone(),
+        partial_state_union,
+        provided_preimages,
+        curr_timeslot_index,
+    )
+    .await?;
+
     // Multiple services that are accumulated in the same `Δ*` round can produce conflicting
     // changes to the privileged services: assigners, designate and registrar.
     // So at this point, `partial_state_union` may hold `Some` variants for both `change_by_bless`
-- 
2.43.0


From 21aa2c8aae7350b3be506b2fda5babda1a40d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 29/55] fix: assigners keep their own change on cores left as
 they were by the manager

---
 pvm/pvm-host/src/context/partial_state.rs     |  1 -
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 36 +++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 51eb1e1..3e569a9 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -1114,7 +1114,6 @@ impl AssignServicesPartialState {
     ) -> Result<(), PartialStateError> {
         if let Some(assigners_by_manager) = &other.change_by_bless {
             self.change_by_bless = Some(assigners_by_manager.clone());
-            return Ok(());
         }
 
         for (&core_idx, &assigner_by_self) in &other.change_by_self {
diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 77f8a16..9d5d2de 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -3,11 +3,12 @@ use crate::{
     error::PVMInvokeError,
 };
 use fr_common::{
-    workloads::work_report::WorkReport, LookupsKey, Octets, ServiceId, TimeslotIndex, UnsignedGas,
+    workloads::work_report::WorkReport, CoreIndex, LookupsKey, Octets, ServiceId, TimeslotIndex,
+    UnsignedGas,
 };
 use fr_crypto::{hash, Blake2b256};
 use fr_pvm_host::context::partial_state::{
-    AccumulatePartialState, SandboxEntryAccessor, SandboxEntryStatus,
+    AccumulatePartialState, AssignServicesPartialState, SandboxEntryAccessor, SandboxEntryStatus,
 };
 use fr_pvm_types::{
     invoke_args::{AccumulateInputs, AccumulateInvokeArgs, AccumulateOperand, DeferredTransfer},
@@ -596,22 +597,21 @@ async fn accumulate_parallel(
     //
     // Once the state change is confirmed, partial state change fields of the union should be cleared.
 
-    // Confirm the new assign services
-    if let Some(new_assign_services_by_manager) =
-        &partial_state_union.assign_services.change_by_bless
-    {
-        partial_state_union.assign_services.last_confirmed = new_assign_services_by_manager.clone();
-    } else {
-        for (core_idx, new_assign_service_by_self) in
-            &partial_state_union.assign_services.change_by_self
-        {
-            if let Some(assign) = partial_state_union
-                .assign_services
-                .last_confirmed
-                .get_mut(*core_idx as usize)
-            {
-                *assign = *new_assign_service_by_self;
-            }
+    // Confirm the new assign services: the manager's choice prevails on each core it changes, and
+    // the assigner's own choice counts on the others.
+    let AssignServicesPartialState {
+        last_confirmed,
+        change_by_bless,
+        change_by_self,
+    } = &mut partial_state_union.assign_services;
+    for (core_idx, assign) in last_confirmed.iter_mut().enumerate() {
+        let by_manager = change_by_bless
+            .as_ref()
+            .and_then(|assigners| assigners.get(core_idx))
+            .filter(|assigner| *assigner != assign);
+        let by_self = change_by_self.get(&(core_idx as CoreIndex));
+        if let Some(new_assign) = by_manager.or(by_self) {
+            *assign = *new_assign;
         }
     }
 
-- 
2.43.0


From c5fb4d4ca998530890f026a724a9cd1cbb8dfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 30/55] fix: a service id freed by an ejection can be taken in
 a later round

---
 pvm/pvm-host/src/context/mod.rs  | 14 ++++++++++---
 transition/src/state/services.rs | 34 +++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/pvm/pvm-host/src/context/mod.rs b/pvm/pvm-host/src/context/mod.rs
index 4318b07..de8349c 100644
--- a/pvm/pvm-host/src/context/mod.rs
+++ b/pvm/pvm-host/src/context/mod.rs
@@ -419,6 +419,14 @@ impl<S: HostStateProvider> AccumulateHostContext<S> {
         new_service_id: ServiceId,
     ) -> Result<ServiceId, HostCallError> {
         let code_length = new_account_fields.code_lookups_key.clone().1;
+        // If the id belonged to an account ejected earlier, its removed entries must be kept so that
+        // they are not looked up from the global state again.
+        let (storage, preimages, lookups) = self
+            .partial_state
+            .accounts_sandbox
+            .remove(&new_service_id)
+            .map(|ejected| (ejected.storage, ejected.preimages, ejected.lookups))
+            .unwrap_or_default();
         let new_account = AccountSandbox {
             metadata: SandboxEntryVersioned::new_added(AccountMetadata {
                 version: SERVICE_ACCOUNT_VERSION,
@@ -433,9 +441,9 @@ impl<S: HostStateProvider> AccumulateHostContext<S> {
                 last_accumulate_at: new_account_fields.last_accumulate_at,
                 parent_service_id: new_account_fields.parent_service_id,
             }),
-            storage: HashMap::new(),
-            preimages: HashMap::new(),
-            lookups: HashMap::new(),
+            storage,
+            preimages,
+            lookups,
             _phantom: PhantomData,
         };
 
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index 2d04708..ec04421 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -166,17 +166,29 @@ async fn transition_service_account(
 
     match &sandbox.metadata.status() {
         SandboxEntryStatus::Added => {
-            state_manager
-                .add_account_metadata(
-                    service_id,
-                    sandbox.metadata.get_cloned().ok_or(
-                        TransitionError::TransitionedServiceAccountMissing(service_id),
-                    )?,
-                )
-                .await?;
-            account_state_change
-                .added_state_keys
-                .insert(get_account_metadata_state_key(service_id)?);
+            let metadata_added = sandbox.metadata.get_cloned().ok_or(
+                TransitionError::TransitionedServiceAccountMissing(service_id),
+            )?;
+            if state_manager.account_exists(service_id).await? {
+                // The id was freed by ejecting its former account in the same accumulation
+                state_manager
+                    .with_mut_account_metadata(
+                        StateMut::Update,
+                        service_id,
+                        |metadata| -> Result<(), StateManagerError> {
+                            *metadata = metadata_added;
+                            Ok(())
+                        },
+                    )
+                    .await?;
+            } else {
+                state_manager
+                    .add_account_metadata(service_id, metadata_added)
+                    .await?;
+                account_state_change
+                    .added_state_keys
+                    .insert(get_account_metadata_state_key(service_id)?);
+            }
         }
         SandboxEntryStatus::Updated => {
             let metadata_updated = sandbox.metadata.get_cloned().ok_or(
-- 
2.43.0


From 123e000d435f4bb41286be8ad4b08d92a8a927d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 31/55] fix: fuzz protocol octet sequences are raw octets, not
 variable-length integers

---
 fuzz/src/types.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/fuzz/src/types.rs b/fuzz/src/types.rs
index f01d11b..62f9af9 100644
--- a/fuzz/src/types.rs
+++ b/fuzz/src/types.rs
@@ -86,6 +86,18 @@ impl Version {
     }
 }
 
+/// Octet sequences are length-prefixed raw octets, unlike the generic `Vec<T>` encoding which
+/// encodes each `u8` element as a variable-length integer.
+fn octets_size_hint(octets: &[u8]) -> usize {
+    octets.len().size_hint() + octets.len()
+}
+
+fn encode_octets<T: JamOutput>(octets: &[u8], dest: &mut T) -> Result<(), JamCodecError> {
+    octets.len().encode_to(dest)?;
+    dest.write(octets);
+    Ok(())
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub struct PeerInfo {
     pub fuzz_version: u8,
@@ -100,7 +112,7 @@ impl JamEncode for PeerInfo {
         1 + 4
             + self.jam_version.size_hint()
             + self.app_version.size_hint()
-            + self.app_name.size_hint()
+            + octets_size_hint(&self.app_name)
     }
 
     fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
@@ -108,7 +120,7 @@ impl JamEncode for PeerInfo {
         self.fuzz_features.encode_to_fixed(dest, 4)?;
         self.jam_version.encode_to(dest)?;
         self.app_version.encode_to(dest)?;
-        self.app_name.encode_to(dest)?;
+        encode_octets(&self.app_name, dest)?;
         Ok(())
     }
 }
@@ -123,7 +135,7 @@ impl JamDecode for PeerInfo {
             fuzz_features: u32::decode_fixed(input, 4)?,
             jam_version: Version::decode(input)?,
             app_version: Version::decode(input)?,
-            app_name: <Vec<u8>>::decode(input)?,
+            app_name: ByteSequence::decode(input)?.0,
         })
     }
 }
@@ -255,7 +267,7 @@ impl JamEncode for FuzzMessageKind {
             Self::ImportBlock(msg) => msg.size_hint(),
             Self::GetState(msg) => msg.size_hint(),
             Self::State(msg) => msg.size_hint(),
-            Self::Error(err_msg) => err_msg.size_hint(),
+            Self::Error(err_msg) => octets_size_hint(err_msg),
         };
         1 + variant_size
     }
@@ -268,7 +280,11 @@ impl JamEncode for FuzzMessageKind {
             Self::ImportBlock(msg) => (3u8, msg.encode()?),
             Self::GetState(msg) => (4u8, msg.encode()?),
             Self::State(msg) => (5u8, msg.encode()?),
-            Self::Error(err_msg) => (255u8, err_msg.encode()?),
+            Self::Error(err_msg) => {
+                let mut buf = vec![];
+                encode_octets(err_msg, &mut buf)?;
+                (255u8, buf)
+            }
         };
 
         dest.push_byte(msg_id);
@@ -290,7 +306,7 @@ impl JamDecode for FuzzMessageKind {
             3 => Ok(Self::ImportBlock(ImportBlock::decode(input)?)),
             4 => Ok(Self::GetState(GetState::decode(input)?)),
             5 => Ok(Self::State(State::decode(input)?)),
-            255 => Ok(Self::Error(Vec::<u8>::decode(input)?)),
+            255 => Ok(Self::Error(ByteSequence::decode(input)?.0)),
             _ => Err(JamCodecError::InputError("Unknown message id".to_string())),
         }
     }
-- 
2.43.0


From f519d69e8cea56b57b75e0e5ca096ac8d37b442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 32/55] fix: imported segments of an auditable bundle are raw
 octets

---
 pvm/pvm-invocation/src/refine/auditable_bundle.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-invocation/src/refine/auditable_bundle.rs b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
index 91c58b8..8f5cb72 100644
--- a/pvm/pvm-invocation/src/refine/auditable_bundle.rs
+++ b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
@@ -58,7 +58,7 @@ impl JamEncode for AuditableBundle {
         // Iterate on import segments field of all work-items in a work-package.
         for work_item_segments in &self.imports {
             for segment in work_item_segments {
-                segment.encode_to(dest)?;
+                dest.write(segment.as_ref());
             }
         }
         // Iterate on import justifications field of all work-items in a work-package.
@@ -102,7 +102,10 @@ impl JamDecode for AuditableBundle {
         for work_item in &package.work_items {
             let mut work_item_segments = Vec::with_capacity(work_item.import_segment_ids.len());
             for _ in &work_item.import_segment_ids {
-                let segment = ExportDataSegment::decode(input)?;
+                let mut octets = vec![0u8; SEGMENT_SIZE];
+                input.read(&mut octets)?;
+                let segment = ExportDataSegment::try_from(octets)
+                    .map_err(|e| JamCodecError::InputError(e.to_string()))?;
                 work_item_segments.push(segment);
             }
             imports.push(work_item_segments);
-- 
2.43.0


From 624d77b6dd5095894934d463ca081a69c07a6a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 33/55] fix: an author's validator index comes from the active
 set of the new block

---
 node/src/scheduler/chain_extension.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index c33af31..883f799 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -7,7 +7,8 @@ use crate::{
 };
 use fr_block::{header_db::BlockHeaderDBError, types::block::BlockHeaderError, xt_db::XtDBError};
 use fr_network::error::NetworkError;
-use fr_state::types::Timeslot;
+use fr_state::{error::StateManagerError, types::Timeslot};
+use fr_transition::state_prediction::validator_sets::predict_active_set;
 use std::sync::Arc;
 use thiserror::Error;
 
@@ -15,6 +16,8 @@ use thiserror::Error;
 pub enum ChainExtensionError {
     #[error("NetworkError: {0}")]
     NetworkError(#[from] NetworkError),
+    #[error("StateManagerError: {0}")]
+    StateManagerError(#[from] StateManagerError),
     #[error("RoleManagerError: {0}")]
     RoleManagerError(#[from] RoleManagerError),
     #[error("BlockHeaderError: {0}")]
@@ -42,12 +45,14 @@ pub async fn extend_chain(
     .await?
     {
         tracing::info!("✍️ Role: Author");
-        let mut author = BlockAuthor::new(
-            jam_node
-                .curr_epoch_validator_index
-                .ok_or(ChainExtensionError::MissingValidatorIndex)?,
-            jam_node.local_node_info().clone(),
-        )?;
+        // The validator index within the active set of the new block, which may differ from
+        // the prior one if this block starts a new epoch.
+        let active_set =
+            predict_active_set(jam_node.storage().state_manager(), new_timeslot.slot()).await?;
+        let validator_index = active_set
+            .get_validator_index(jam_node.local_node_info().bandersnatch_key())
+            .ok_or(ChainExtensionError::MissingValidatorIndex)?;
+        let mut author = BlockAuthor::new(validator_index, jam_node.local_node_info().clone())?;
 
         let new_header = author
             .author_block_commit_header(jam_node.storage())
-- 
2.43.0


From bc7909c922dceeabbf7f09f6c8858d065ca298b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 34/55] fix: a nested machine has the address space of a
 machine

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 2 +-
 pvm/pvm-host/src/inner_vm.rs                  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index d06070b..d936d20 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -445,7 +445,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
-            memory: inner_vm_mut.memory.clone(),
+            memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
             gas_counter: gas_limit
                 .try_into()
diff --git a/pvm/pvm-host/src/inner_vm.rs b/pvm/pvm-host/src/inner_vm.rs
index 985b354..510c060 100644
--- a/pvm/pvm-host/src/inner_vm.rs
+++ b/pvm/pvm-host/src/inner_vm.rs
@@ -1,5 +1,8 @@
 use fr_pvm_core::state::memory::Memory;
-use fr_pvm_types::common::RegValue;
+use fr_pvm_types::{
+    common::RegValue,
+    constants::{MEMORY_SIZE, PAGE_SIZE},
+};
 
 #[derive(Clone)]
 pub(crate) struct InnerPVM {
@@ -15,7 +18,7 @@ impl InnerPVM {
     pub(crate) fn new(program_code: Vec<u8>, pc: RegValue) -> Self {
         Self {
             program_code,
-            memory: Memory::default(),
+            memory: Memory::new(MEMORY_SIZE, PAGE_SIZE),
             pc,
         }
     }
-- 
2.43.0


From 4e24f0edb7ae71b02a50cd9a22a693e6f530fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 35/55] fix: pages of a nested machine are cleared whatever
 their access

---
 pvm/pvm-core/src/state/memory.rs              | 13 +++++++++++++
 pvm/pvm-host/src/host_functions/refine/mod.rs |  4 +---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 3e09fc7..975e086 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -361,6 +361,19 @@ impl Memory {
         Ok(())
     }
 
+    /// Clears all values in a range of memory pages, regardless of their current access types.
+    pub fn clear_page_range(&mut self, page_range: Range<usize>) -> Result<(), MemoryError> {
+        if page_range.is_empty() {
+            return Ok(());
+        }
+        self.validate_page_index_bound(page_range.end - 1)?;
+        for page_index in page_range {
+            let start = page_index * self.page_size;
+            self.data[start..start + self.page_size].fill(0);
+        }
+        Ok(())
+    }
+
     /// Get the break address (end of the heap) of current memory layout.
     pub fn get_break(&self, expand_size: usize) -> MemAddress {
         let mut break_address = self.heap_end;
diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index d936d20..13cb220 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -370,9 +370,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // conditionally clear values
         if mode < 3 {
-            let address_offset = (inner_memory_page_offset * PAGE_SIZE) as MemAddress;
-            let data_size = pages_count * PAGE_SIZE;
-            let Ok(_) = inner_memory_mut.write_bytes(address_offset, &vec![0u8; data_size]) else {
+            let Ok(_) = inner_memory_mut.clear_page_range(page_start..page_end) else {
                 continue_huh!()
             };
         }
-- 
2.43.0


From fc4041b2230113dd3744846e86b1e89c01a485eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 36/55] fix: the page range of a nested machine cannot overflow

---
 pvm/pvm-core/src/state/memory.rs              | 6 +++++-
 pvm/pvm-host/src/host_functions/refine/mod.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 975e086..99b81be 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -369,7 +369,11 @@ impl Memory {
         self.validate_page_index_bound(page_range.end - 1)?;
         for page_index in page_range {
             let start = page_index * self.page_size;
-            self.data[start..start + self.page_size].fill(0);
+            let page = &mut self.data[start..start + self.page_size];
+            // Untouched pages don't have to be backed by physical memory
+            if page.iter().any(|b| *b != 0) {
+                page.fill(0);
+            }
         }
         Ok(())
     }
diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 13cb220..92f2f72 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -354,7 +354,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         if mode > 4
             || inner_memory_page_offset < 16
-            || inner_memory_page_offset + pages_count >= (1 << 32) / PAGE_SIZE
+            || inner_memory_page_offset.saturating_add(pages_count) >= (1 << 32) / PAGE_SIZE
         {
             continue_huh!()
         }
-- 
2.43.0


From 6c0cb9c279e364c5668c0f2cba534cdb18e61c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 37/55] fix: a nested machine gets the lowest unused id

---
 pvm/pvm-host/src/context/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-host/src/context/mod.rs b/pvm/pvm-host/src/context/mod.rs
index de8349c..338f7a1 100644
--- a/pvm/pvm-host/src/context/mod.rs
+++ b/pvm/pvm-host/src/context/mod.rs
@@ -534,11 +534,16 @@ impl RefineHostContext {
     pub(crate) fn add_pvm_instance(&mut self, pvm: InnerPVM) -> usize {
         let id = self.next_instance_id;
         self.pvm_instances.insert(id, pvm);
-        self.next_instance_id += 1;
+        // The next id is the lowest unused one
+        while self.pvm_instances.contains_key(&self.next_instance_id) {
+            self.next_instance_id += 1;
+        }
         id
     }
 
     pub(crate) fn remove_pvm_instance(&mut self, id: usize) {
-        self.pvm_instances.remove(&id);
+        if self.pvm_instances.remove(&id).is_some() {
+            self.next_instance_id = self.next_instance_id.min(id);
+        }
     }
 }
-- 
2.43.0


From 3a0ee0051228112c6c22c7f64dee7a87267d9f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 38/55] fix: any amount of gas can be given to a nested machine

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 92f2f72..e44a3df 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -440,14 +440,15 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- PVM Invocation
 
+        // Gas beyond the range of the gas counter cannot be used up.
+        let initial_gas = SignedGas::try_from(gas_limit).unwrap_or(SignedGas::MAX);
+
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
             memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
-            gas_counter: gas_limit
-                .try_into()
-                .map_err(|_| HostCallError::GasLimitOverflow(gas_limit))?,
+            gas_counter: initial_gas,
         };
 
         // Load program and invoke the PVM.
@@ -463,7 +464,10 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // 112-byte mem write
         let mut host_buf = vec![];
-        (inner_vm_state_copy.gas_counter as UnsignedGas).encode_to_fixed(&mut host_buf, 8)?;
+        let gas_used = initial_gas.wrapping_sub(inner_vm_state_copy.gas_counter) as UnsignedGas;
+        gas_limit
+            .wrapping_sub(gas_used)
+            .encode_to_fixed(&mut host_buf, 8)?;
         for reg in inner_vm_state_copy.regs {
             reg.encode_to_fixed(&mut host_buf, 8)?;
         }
-- 
2.43.0


From 59ffe7d6c4cf8665941ac2ee343b080e0fb42669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 39/55] fix: a faulted nested machine resumes at the faulting
 instruction

---
 pvm/pvm-core/src/interpreter/mod.rs           | 1 -
 pvm/pvm-host/src/host_functions/refine/mod.rs | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/interpreter/mod.rs b/pvm/pvm-core/src/interpreter/mod.rs
index 91dd8d9..9916af5 100644
--- a/pvm/pvm-core/src/interpreter/mod.rs
+++ b/pvm/pvm-core/src/interpreter/mod.rs
@@ -78,7 +78,6 @@ impl Interpreter {
                     return Ok(ExitReason::Panic);
                 }
                 Err(VMCoreError::PageFault(page_start_address)) => {
-                    vm_state.pc = 0; // TODO: PVM Revisit: (test vectors assume page-fault resets pc value but not in GP)
                     return Ok(ExitReason::PageFault(page_start_address));
                 }
                 Err(e) => return Err(e),
diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index e44a3df..1818e88 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -459,7 +459,11 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
             Interpreter::invoke_general(&mut inner_vm_state_copy, &inner_vm_program_state)?;
 
         // Apply the mutation of the `VMState` to the InnerVM state of the refine context
-        inner_vm_mut.pc = inner_vm_state_copy.pc;
+        inner_vm_mut.pc = match inner_vm_exit_reason {
+            // Terminated machines start over
+            ExitReason::Panic | ExitReason::RegularHalt => 0,
+            _ => inner_vm_state_copy.pc,
+        };
         inner_vm_mut.memory = inner_vm_state_copy.memory;
 
         // 112-byte mem write
-- 
2.43.0


From da3924fd9778bc21b534185a14932d70bcae7cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 40/55] Revert "fix: fuzz protocol octet sequences are raw
 octets, not variable-length integers"

---
 fuzz/src/types.rs | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/fuzz/src/types.rs b/fuzz/src/types.rs
index 62f9af9..f01d11b 100644
--- a/fuzz/src/types.rs
+++ b/fuzz/src/types.rs
@@ -86,18 +86,6 @@ impl Version {
     }
 }
 
-/// Octet sequences are length-prefixed raw octets, unlike the generic `Vec<T>` encoding which
-/// encodes each `u8` element as a variable-length integer.
-fn octets_size_hint(octets: &[u8]) -> usize {
-    octets.len().size_hint() + octets.len()
-}
-
-fn encode_octets<T: JamOutput>(octets: &[u8], dest: &mut T) -> Result<(), JamCodecError> {
-    octets.len().encode_to(dest)?;
-    dest.write(octets);
-    Ok(())
-}
-
 #[derive(Clone, Debug, PartialEq)]
 pub struct PeerInfo {
     pub fuzz_version: u8,
@@ -112,7 +100,7 @@ impl JamEncode for PeerInfo {
         1 + 4
             + self.jam_version.size_hint()
             + self.app_version.size_hint()
-            + octets_size_hint(&self.app_name)
+            + self.app_name.size_hint()
     }
 
     fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
@@ -120,7 +108,7 @@ impl JamEncode for PeerInfo {
         self.fuzz_features.encode_to_fixed(dest, 4)?;
         self.jam_version.encode_to(dest)?;
         self.app_version.encode_to(dest)?;
-        encode_octets(&self.app_name, dest)?;
+        self.app_name.encode_to(dest)?;
         Ok(())
     }
 }
@@ -135,7 +123,7 @@ impl JamDecode for PeerInfo {
             fuzz_features: u32::decode_fixed(input, 4)?,
             jam_version: Version::decode(input)?,
             app_version: Version::decode(input)?,
-            app_name: ByteSequence::decode(input)?.0,
+            app_name: <Vec<u8>>::decode(input)?,
         })
     }
 }
@@ -267,7 +255,7 @@ impl JamEncode for FuzzMessageKind {
             Self::ImportBlock(msg) => msg.size_hint(),
             Self::GetState(msg) => msg.size_hint(),
             Self::State(msg) => msg.size_hint(),
-            Self::Error(err_msg) => octets_size_hint(err_msg),
+            Self::Error(err_msg) => err_msg.size_hint(),
         };
         1 + variant_size
     }
@@ -280,11 +268,7 @@ impl JamEncode for FuzzMessageKind {
             Self::ImportBlock(msg) => (3u8, msg.encode()?),
             Self::GetState(msg) => (4u8, msg.encode()?),
             Self::State(msg) => (5u8, msg.encode()?),
-            Self::Error(err_msg) => {
-                let mut buf = vec![];
-                encode_octets(err_msg, &mut buf)?;
-                (255u8, buf)
-            }
+            Self::Error(err_msg) => (255u8, err_msg.encode()?),
         };
 
         dest.push_byte(msg_id);
@@ -306,7 +290,7 @@ impl JamDecode for FuzzMessageKind {
             3 => Ok(Self::ImportBlock(ImportBlock::decode(input)?)),
             4 => Ok(Self::GetState(GetState::decode(input)?)),
             5 => Ok(Self::State(State::decode(input)?)),
-            255 => Ok(Self::Error(ByteSequence::decode(input)?.0)),
+            255 => Ok(Self::Error(Vec::<u8>::decode(input)?)),
             _ => Err(JamCodecError::InputError("Unknown message id".to_string())),
         }
     }
-- 
2.43.0


From 0ca6c4e9b6793b2a01f5d5e56abf725d3c9a4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 41/55] fix: the number of a nested machine's host call is
 passed on

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 1818e88..85ea21a 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -481,10 +481,15 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
         tracing::debug!("INVOKE instance_id={inner_vm_id} exit_reason={inner_vm_exit_reason:?}");
         match inner_vm_exit_reason {
             ExitReason::HostCall(host_call_type) => {
+                // The inner VM may request any number, including those unknown to this host
+                let host_call_number = inner_vm_program_state
+                    .instruction_at(inner_vm_mut.pc as usize)
+                    .and_then(|inst| inst.imm1().ok())
+                    .unwrap_or(host_call_type as RegValue);
                 inner_vm_mut.pc = Interpreter::next_pc(inner_vm_mut.pc, &inner_vm_program_state);
                 continue_with_vm_change!(
                     r7: HOST,
-                    r8: host_call_type.clone(),
+                    r8: host_call_number,
                     mem_offset: memory_offset,
                     mem_data: host_buf
                 )
-- 
2.43.0


From 21ef2f56b42b75782c776cd9856c9faae2d77f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 42/55] fix: an authored block can be supplied before it is
 announced

---
 node/src/roles/author.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/node/src/roles/author.rs b/node/src/roles/author.rs
index 54fe071..5b817f7 100644
--- a/node/src/roles/author.rs
+++ b/node/src/roles/author.rs
@@ -139,6 +139,15 @@ impl BlockAuthor {
         self.seal_block_header(&curr_slot_sealer, curr_entropy_3)
             .await?;
 
+        // Store extrinsics, so that the block can be served once its header is announced
+        storage
+            .xt_db()
+            .set_xt(
+                self.new_block.header.extrinsic_hash(),
+                self.new_block.extrinsics.clone(),
+            )
+            .await?;
+
         // Commit block header and finalize block
         let (new_header, _new_header_hash) = self.commit_header(&storage).await?;
         Ok(new_header)
@@ -172,15 +181,6 @@ impl BlockAuthor {
             .set_post_state_root(&new_block_hash, post_state_root.clone())
             .await?;
 
-        // Store extrinsics
-        storage
-            .xt_db()
-            .set_xt(
-                self.new_block.header.extrinsic_hash(),
-                self.new_block.extrinsics.clone(),
-            )
-            .await?;
-
         Ok((self.new_block.clone(), post_state_root))
     }
 
-- 
2.43.0


From 20ed80f3a77b0236c9a01039ac74df6a9a5e9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 43/55] fix: block requests and responses are read to their end

---
 network/src/streams/ce_streams/mod.rs       | 17 ++++++++-------
 network/src/streams/ce_streams/responder.rs | 24 +++++++++------------
 network/src/types.rs                        |  6 ++++++
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/network/src/streams/ce_streams/mod.rs b/network/src/streams/ce_streams/mod.rs
index 0ef7d5b..a9660b1 100644
--- a/network/src/streams/ce_streams/mod.rs
+++ b/network/src/streams/ce_streams/mod.rs
@@ -1,4 +1,4 @@
-use crate::{error::NetworkError, streams::stream_kinds::CeStreamKind, types::CHUNK_SIZE};
+use crate::{error::NetworkError, streams::stream_kinds::CeStreamKind, types::MAX_RESPONSE_SIZE};
 use async_trait::async_trait;
 use fr_codec::prelude::*;
 use fr_storage::server_trait::NodeServerTrait;
@@ -44,16 +44,17 @@ mod ce_stream_utils {
     where
         T: CeStream + ?Sized,
     {
-        let resp = match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-            Ok(Some(chunk)) => {
-                let mut bytes: &[u8] = &chunk.bytes;
-                tracing::debug!("[{}] Received respond", T::CE_STREAM_KIND);
-                Some(T::decode_response(&mut bytes))
-            }
-            Ok(None) => {
+        // A response may arrive in any number of chunks. It ends where the peer finishes the stream.
+        let resp = match recv_stream.read_to_end(MAX_RESPONSE_SIZE).await {
+            Ok(response) if response.is_empty() => {
                 tracing::warn!("[{}] Stream closed", T::CE_STREAM_KIND);
                 None
             }
+            Ok(response) => {
+                let mut bytes: &[u8] = &response;
+                tracing::debug!("[{}] Received respond", T::CE_STREAM_KIND);
+                Some(T::decode_response(&mut bytes))
+            }
             Err(e) => {
                 tracing::error!("[{}] Error receiving respond: {e}", T::CE_STREAM_KIND);
                 None
diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index f3b234a..18f6fc7 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -6,7 +6,7 @@ use crate::{
         },
         stream_kinds::CeStreamKind,
     },
-    types::CHUNK_SIZE,
+    types::MAX_REQUEST_SIZE,
 };
 use fr_codec::prelude::*;
 use fr_storage::node_storage::NodeStorage;
@@ -22,20 +22,16 @@ impl CeStreamResponder {
     ) {
         match stream_kind {
             CeStreamKind::BlockRequest => {
-                let mut init_args_bytes: &[u8] =
-                    match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-                        Ok(Some(chunk)) => &chunk.bytes.clone(),
-                        Ok(None) => {
-                            tracing::warn!("[CE128] Stream closed");
-                            return;
-                        }
-                        Err(e) => {
-                            tracing::error!("[CE128] Failed to read block request: {e}");
-                            return;
-                        }
-                    };
+                // A request may arrive in any number of chunks. It ends where the peer finishes the stream.
+                let request = match recv_stream.read_to_end(MAX_REQUEST_SIZE).await {
+                    Ok(request) => request,
+                    Err(e) => {
+                        tracing::error!("[CE128] Failed to read block request: {e}");
+                        return;
+                    }
+                };
 
-                let Ok(init_args) = BlockRequestInitArgs::decode(&mut init_args_bytes) else {
+                let Ok(init_args) = BlockRequestInitArgs::decode(&mut request.as_slice()) else {
                     tracing::error!("[CE128] Failed to decode BlockRequestInitArgs");
                     return;
                 };
diff --git a/network/src/types.rs b/network/src/types.rs
index 93b10d7..7813338 100644
--- a/network/src/types.rs
+++ b/network/src/types.rs
@@ -4,6 +4,12 @@ use fr_common::BlockHeaderHash;
 use std::fmt::{Display, Formatter};
 
 pub const CHUNK_SIZE: usize = 1024;
+/// The maximum size of a message an initiator sends on a CE stream.
+pub const MAX_REQUEST_SIZE: usize = 1 << 20;
+/// The maximum size of a response on a CE stream.
+pub const MAX_RESPONSE_SIZE: usize = 1 << 26;
+/// The maximum size of a block announcement.
+pub const MAX_ANNOUNCEMENT_SIZE: usize = 1 << 20;
 
 #[derive(Clone, Debug, JamDecode)]
 pub struct BlockAnnouncement {
-- 
2.43.0


From 830811a5b80cc2ff8f447ba84f7b78261041aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 44/55] fix: block announcements are understood however their
 stream is divided

---
 network/src/streams/up_streams.rs | 97 ++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index f613dc6..45fa36c 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -7,7 +7,7 @@ use crate::{
         },
         stream_kinds::UpStreamKind,
     },
-    types::{BlockAnnouncement, CHUNK_SIZE},
+    types::{BlockAnnouncement, CHUNK_SIZE, MAX_ANNOUNCEMENT_SIZE},
 };
 use fr_block::types::block::Block;
 use fr_codec::prelude::*;
@@ -63,49 +63,28 @@ impl UpStreamHandler {
         mut recv_stream: RecvStream,
         block_import_mpsc_sender: mpsc::Sender<Block>,
     ) {
+        // Announcements follow each other in the stream, which the chunks divide arbitrarily.
+        let mut buffer: Vec<u8> = vec![];
         loop {
             match recv_stream.read_chunk(CHUNK_SIZE, true).await {
                 Ok(Some(chunk)) => {
-                    let mut bytes: &[u8] = &chunk.bytes;
-                    let Ok(block_announcement) = BlockAnnouncement::decode(&mut bytes) else {
+                    buffer.extend_from_slice(&chunk.bytes);
+                    let mut bytes: &[u8] = &buffer;
+                    let mut rest = bytes;
+                    while let Ok(block_announcement) = BlockAnnouncement::decode(&mut bytes) {
+                        rest = bytes;
+                        Self::request_announced_block(
+                            conn.clone(),
+                            block_announcement,
+                            block_import_mpsc_sender.clone(),
+                        );
+                    }
+                    let decoded = buffer.len() - rest.len();
+                    buffer.drain(..decoded);
+                    if buffer.len() > MAX_ANNOUNCEMENT_SIZE {
                         tracing::error!("[UP0] Failed to decode BlockAnnouncement");
-                        continue;
-                    };
-                    tracing::debug!(
-                        "[UP0] Received Block Announcement ({})",
-                        block_announcement.header_hash
-                    );
-
-                    // Request the block to the announcer
-                    let conn_cloned = conn.clone();
-                    let block_import_mpsc_sender_cloned = block_import_mpsc_sender.clone();
-                    tokio::spawn(async move {
-                        match BlockRequest::request(
-                            conn_cloned,
-                            BlockRequestInitArgs {
-                                header_hash: block_announcement.header_hash,
-                                ascending_excl: false,
-                                max_blocks: 1,
-                            },
-                        )
-                        .await
-                        {
-                            Ok(blocks) => {
-                                // Block Importer: validate the received block
-                                if let Err(e) = block_import_mpsc_sender_cloned
-                                    .send(blocks[0].clone())
-                                    .await
-                                {
-                                    tracing::error!(
-                                        "Block Importer mpsc channel receiver closed: {e}"
-                                    )
-                                }
-                            }
-                            Err(e) => {
-                                tracing::error!("[UP0 | CE128] Block request failed: {e}");
-                            }
-                        }
-                    });
+                        break;
+                    }
                 }
                 Ok(None) => {
                     tracing::warn!("[UP0] Stream closed");
@@ -120,6 +99,44 @@ impl UpStreamHandler {
         }
     }
 
+    /// Requests the block to the announcer
+    fn request_announced_block(
+        conn: quinn::Connection,
+        block_announcement: BlockAnnouncement,
+        block_import_mpsc_sender: mpsc::Sender<Block>,
+    ) {
+        tracing::debug!(
+            "[UP0] Received Block Announcement ({})",
+            block_announcement.header_hash
+        );
+        tokio::spawn(async move {
+            match BlockRequest::request(
+                conn,
+                BlockRequestInitArgs {
+                    header_hash: block_announcement.header_hash,
+                    ascending_excl: false,
+                    max_blocks: 1,
+                },
+            )
+            .await
+            {
+                Ok(blocks) => {
+                    let Some(block) = blocks.into_iter().next() else {
+                        tracing::error!("[UP0 | CE128] The response contains no block");
+                        return;
+                    };
+                    // Block Importer: validate the received block
+                    if let Err(e) = block_import_mpsc_sender.send(block).await {
+                        tracing::error!("Block Importer mpsc channel receiver closed: {e}")
+                    }
+                }
+                Err(e) => {
+                    tracing::error!("[UP0 | CE128] Block request failed: {e}");
+                }
+            }
+        });
+    }
+
     async fn handle_outgoing_stream(
         mut send_stream: SendStream,
         mut mpsc_recv: mpsc::Receiver<Vec<u8>>,
-- 
2.43.0


From 97cf28ae4742e4487bd1d007da6851f6dfb86cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 45/55] fix: a stream that fails or takes long does not stop
 the others of its connection

---
 network/src/manager.rs                      | 48 +++++++--------------
 network/src/streams/ce_streams/responder.rs |  2 +-
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 92f7b3a..a4054fc 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -306,41 +306,23 @@ impl NetworkManager {
         );
 
         tokio::spawn(async move {
-            while let Ok((send_stream, mut recv_stream)) = conn.accept_bi().await {
-                let stream_kind = match Self::read_stream_kind(&mut recv_stream).await {
-                    Ok(stream_kind) => stream_kind,
-                    Err(e) => {
-                        tracing::error!("Failed to read a single-byte stream-kind identifier: {e}");
-                        continue;
-                    }
-                };
-
+            while let Ok((send_stream, recv_stream)) = conn.accept_bi().await {
+                let conn_cloned = conn.clone();
                 let block_import_mpsc_sender_cloned = block_import_mpsc_sender.clone();
                 let all_peers_cloned = all_peers.clone();
-                let node_storage_cloned = storage.clone();
-
-                match stream_kind {
-                    StreamKind::UP(stream_kind) => {
-                        Self::run_up_stream_handler(
-                            conn.clone(),
-                            stream_kind,
-                            send_stream,
-                            recv_stream,
-                            block_import_mpsc_sender_cloned,
-                            all_peers_cloned,
-                            &socket_addr,
-                        );
-                    }
-                    StreamKind::CE(stream_kind) => {
-                        Self::run_ce_stream_responder(
-                            stream_kind,
-                            send_stream,
-                            recv_stream,
-                            node_storage_cloned,
-                        )
-                        .await;
-                    }
-                }
+                let storage_cloned = storage.clone();
+                tokio::spawn(async move {
+                    Self::handle_all_streams(
+                        conn_cloned,
+                        send_stream,
+                        recv_stream,
+                        block_import_mpsc_sender_cloned,
+                        storage_cloned,
+                        all_peers_cloned,
+                        &socket_addr,
+                    )
+                    .await;
+                });
             }
         });
         Ok(())
diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index 18f6fc7..777558a 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -44,7 +44,7 @@ impl CeStreamResponder {
                 }
             }
             _ => {
-                unimplemented!()
+                tracing::warn!("[{stream_kind}] Stream kind not supported");
             }
         }
     }
-- 
2.43.0


From 4a9fcba56fc3b7f4597064d8e288ae9e1882215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 46/55] fix: a peer that is gone does not keep others from
 hearing of a block

---
 network/src/manager.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index a4054fc..a7e17e2 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -378,9 +378,13 @@ impl NetworkManager {
                     conn.up_stream_handles.get(&UpStreamKind::BlockAnnouncement)
                 {
                     let handle = handle_ref.value();
-                    handle
+                    // A peer that cannot be reached should not keep the others from hearing of the block.
+                    if let Err(e) = handle
                         .send_block_announcement(block_header.block_announcement_blob()?)
-                        .await?
+                        .await
+                    {
+                        tracing::warn!("Failed to announce a block to {}: {e}", peer.key());
+                    }
                 }
             }
         }
-- 
2.43.0


From b7ae5f9cc1a4d5f9537bf5b0266f13bc8e3ec24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 47/55] fix: refuse VRF outputs outside the prime-order group

A key holder could add a point of order two to its output and prove it with
probability one half, which gave a validator two outputs for every input: a
choice of entropy for each block authored and two tickets for each attempt.
---
 crypto/src/vrf/vrf_core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/src/vrf/vrf_core.rs b/crypto/src/vrf/vrf_core.rs
index dafda75..bb5d175 100644
--- a/crypto/src/vrf/vrf_core.rs
+++ b/crypto/src/vrf/vrf_core.rs
@@ -181,7 +181,8 @@ impl IetfVrfVerifierCore {
     ) -> Result<[u8; 32], CryptoError> {
         use ark_vrf::ietf::Verifier as _;
 
-        let signature = IetfVrfSignature::deserialize_compressed_unchecked(signature)?;
+        // Checked: an output outside the prime-order group would be a second one for the same input.
+        let signature = IetfVrfSignature::deserialize_compressed(signature)?;
 
         let input = vrf_input_point(vrf_input_data)?;
         let output = signature.output;
@@ -249,7 +250,8 @@ impl RingVrfVerifierCore {
     ) -> Result<[u8; 32], CryptoError> {
         use ark_vrf::ring::Verifier as _;
 
-        let signature = RingVrfSignature::deserialize_compressed_unchecked(signature)?;
+        // Checked, as for the non-anonymous signature.
+        let signature = RingVrfSignature::deserialize_compressed(signature)?;
 
         let input = vrf_input_point(vrf_input_data)?;
         let output = signature.output; // extracted from the signature
-- 
2.43.0


From 6ff3dbc8860a057086348e9fba35e6d75b926e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 48/55] fix: keep validator keys of small order from aborting
 the ring commitment

A staging set with the neutral point (or the point of order two) as a
Bandersnatch key made every node panic at the next epoch change.
---
 crypto/src/vrf/ring.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto/src/vrf/ring.rs b/crypto/src/vrf/ring.rs
index dd5c6d4..6c506ea 100644
--- a/crypto/src/vrf/ring.rs
+++ b/crypto/src/vrf/ring.rs
@@ -1,5 +1,8 @@
 use crate::{error::CryptoError, types::*};
-use ark_vrf::{reexports::ark_serialize::CanonicalDeserialize, suites::bandersnatch};
+use ark_vrf::{
+    reexports::{ark_ff::Zero, ark_serialize::CanonicalDeserialize},
+    suites::bandersnatch,
+};
 use bandersnatch::{Public, RingProofParams};
 use fr_common::ByteEncodable;
 use tracing::instrument;
@@ -11,8 +14,11 @@ pub(crate) fn validator_set_to_bandersnatch_ring(
 ) -> Result<Vec<Public>, CryptoError> {
     let mut public_keys = vec![];
     validator_set.iter().for_each(|validator_key| {
-        // Use the padding point if the decoding fails.
+        // Use the padding point if the decoding fails, or if the point is one of those of small
+        // order that have no place in the ring commitment.
         let pk = Public::deserialize_compressed_unchecked(validator_key.bandersnatch.as_slice())
+            .ok()
+            .filter(|pk| !pk.0.x.is_zero())
             .unwrap_or(Public::from(RingProofParams::padding_point()));
         public_keys.push(pk);
     });
-- 
2.43.0


From e80d1f56c589d8b3a656b523745554da82c636ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 49/55] fix: run the author's and the importer's state
 transitions one after the other

---
 node/src/roles/importer.rs            |  5 ++++-
 node/src/scheduler/chain_extension.rs | 16 ++++++++++++++++
 state/src/manager.rs                  | 14 +++++++++++++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index c84177a..fcadcde 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -126,6 +126,9 @@ impl BlockImporter {
                 }
             };
             let timeslot_index = block.header.timeslot_index();
+            // The author of this node shares the state cache
+            let state_manager = storage.state_manager();
+            let _transition_guard = state_manager.lock_state_transition().await;
             match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
                 .await
             {
@@ -142,7 +145,7 @@ impl BlockImporter {
                 Err(e) => {
                     tracing::error!("Invalid block: {e}");
                     // Rollback uncommitted state changes
-                    storage.state_manager().rollback_dirty_cache();
+                    state_manager.rollback_dirty_cache();
                 }
             }
         }
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index 883f799..8d19186 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -36,6 +36,22 @@ pub enum ChainExtensionError {
 pub async fn extend_chain(
     jam_node: Arc<JamNode>,
     new_timeslot: &Timeslot,
+) -> Result<(), ChainExtensionError> {
+    // The block importer of this node shares the state cache
+    let state_manager = jam_node.storage().state_manager();
+    let _transition_guard = state_manager.lock_state_transition().await;
+
+    let result = extend_chain_exclusive(jam_node, new_timeslot).await;
+    if result.is_err() {
+        // Rollback uncommitted state changes
+        state_manager.rollback_dirty_cache();
+    }
+    result
+}
+
+async fn extend_chain_exclusive(
+    jam_node: Arc<JamNode>,
+    new_timeslot: &Timeslot,
 ) -> Result<(), ChainExtensionError> {
     if RoleManager::is_author_of_slot(
         jam_node.storage().state_manager(),
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 0bb4930..89d86a0 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -42,7 +42,7 @@ use fr_db::{
 };
 use fr_state_merkle_v2::{merkle_db::MerkleDB, types::LeafNodeData};
 use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, Mutex, MutexGuard};
 use tracing::{debug_span, instrument};
 
 #[derive(Clone)]
@@ -131,6 +131,8 @@ pub struct StateManager {
     merkle_manager: MerkleManagerHandle,
     ring_cache: RwLock<RingCache>,
     last_staging_set_transition_context: RwLock<LastStagingSetTransitionContext>,
+    /// Held while a block runs its state transition, which shares the dirty entries of the cache.
+    transition_lock: Mutex<()>,
 }
 
 macro_rules! impl_simple_state_accessors {
@@ -259,9 +261,19 @@ impl StateManager {
             last_staging_set_transition_context: RwLock::new(
                 LastStagingSetTransitionContext::default(),
             ),
+            transition_lock: Mutex::new(()),
         }
     }
 
+    /// Waits for the state transition of another block to complete and keeps others from starting
+    /// until the returned guard is dropped.
+    ///
+    /// State transitions share the dirty entries of the state cache, so that blocks authored and
+    /// imported by the same node must run them one after the other.
+    pub async fn lock_state_transition(&self) -> MutexGuard<'_, ()> {
+        self.transition_lock.lock().await
+    }
+
     fn last_staging_set_transition_context_read_guard(
         &self,
     ) -> RwLockReadGuard<'_, LastStagingSetTransitionContext> {
-- 
2.43.0


From 2d4b5c26f5362bbfa2571bd837fd4b7e2406bf83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 50/55] fix: author a block for the slot its author owns, not
 the one the clock has reached

---
 node/src/roles/author.rs              | 18 +++++++++---------
 node/src/scheduler/chain_extension.rs |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/node/src/roles/author.rs b/node/src/roles/author.rs
index 5b817f7..8adf079 100644
--- a/node/src/roles/author.rs
+++ b/node/src/roles/author.rs
@@ -14,11 +14,10 @@ use fr_block::{
     },
     xt_db::XtDBError,
 };
-use fr_clock::JamClock;
 use fr_codec::prelude::*;
 use fr_common::{
     ticket::Ticket, BlockHeaderHash, ByteEncodable, CommonTypeError, EntropyHash, StateRoot,
-    ValidatorIndex, XtHash, X_E, X_F, X_T,
+    TimeslotIndex, ValidatorIndex, XtHash, X_E, X_F, X_T,
 };
 use fr_crypto::{
     error::CryptoError,
@@ -56,8 +55,6 @@ pub enum BlockAuthorError {
     BlockExecutionError(#[from] BlockExecutionError),
     #[error("Block seal output hash doesn't match ticket proof output hash")]
     InvalidBlockSealOutput,
-    #[error("System time is before the JAM common era")]
-    InvalidSysTime,
     #[error("Author key is not found from the keystore")]
     AuthorKeyNotFound,
 }
@@ -119,11 +116,12 @@ impl BlockAuthor {
     pub async fn author_block_commit_header(
         &mut self,
         storage: Arc<NodeStorage>,
+        timeslot_index: TimeslotIndex,
     ) -> Result<BlockHeader, BlockAuthorError> {
         let xt = Self::collect_extrinsics();
         let xt_hash = xt.hash()?;
         self.set_extrinsics(xt.clone(), xt_hash.clone())?;
-        self.prelude(&storage).await?;
+        self.prelude(&storage, timeslot_index).await?;
 
         // STF phase #1
         let header_markers = self
@@ -240,7 +238,11 @@ impl BlockAuthor {
     }
 
     /// Sets header fields required for running STFs in advance.
-    async fn prelude(&mut self, storage: &NodeStorage) -> Result<(), BlockAuthorError> {
+    async fn prelude(
+        &mut self,
+        storage: &NodeStorage,
+        timeslot_index: TimeslotIndex,
+    ) -> Result<(), BlockAuthorError> {
         let parent_hash = storage.header_db().get_best_header().hash()?;
         tracing::debug!("Parent header hash: {}", &parent_hash);
         let prior_state_root = storage.state_manager().merkle_root().await?;
@@ -251,9 +253,7 @@ impl BlockAuthor {
         self.new_block
             .header
             .set_author_index(self.author_info.author_index);
-        self.new_block
-            .header
-            .set_timeslot(JamClock::now_jam_timeslot().ok_or(BlockAuthorError::InvalidSysTime)?);
+        self.new_block.header.set_timeslot(timeslot_index);
 
         Ok(())
     }
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index 8d19186..c4837df 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -71,7 +71,7 @@ async fn extend_chain_exclusive(
         let mut author = BlockAuthor::new(validator_index, jam_node.local_node_info().clone())?;
 
         let new_header = author
-            .author_block_commit_header(jam_node.storage())
+            .author_block_commit_header(jam_node.storage(), new_timeslot.slot())
             .await?;
         let storage = jam_node.storage();
         storage.header_db().set_best_header(new_header.clone());
-- 
2.43.0


From fe1b5eb0e6124ccb8a5fca4c2ec44d91f1db5045 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 51/55] fix: take a timeslot for a future one until its own
 beginning

---
 state/src/types/timeslot.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/state/src/types/timeslot.rs b/state/src/types/timeslot.rs
index d30c44a..932ae3d 100644
--- a/state/src/types/timeslot.rs
+++ b/state/src/types/timeslot.rs
@@ -83,11 +83,6 @@ impl Timeslot {
     }
 
     fn timeslot_beginning_to_unix_timestamp(&self) -> u64 {
-        if self.0 == 0 {
-            COMMON_ERA_TIMESTAMP
-        } else {
-            let slot_duration_secs = (self.0 - 1) as u64 * SLOT_DURATION;
-            COMMON_ERA_TIMESTAMP + slot_duration_secs
-        }
+        COMMON_ERA_TIMESTAMP + self.0 as u64 * SLOT_DURATION
     }
 }
-- 
2.43.0


From eb06ff376b7e7be5f94004cb16a7827d0d8b3cfc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:45:29 +0000
Subject: [PATCH 52/55] fix: wait for the next timeslot even if it begins while
 the clock is read

---
 clock/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clock/src/lib.rs b/clock/src/lib.rs
index dcf4fe4..80aaba2 100644
--- a/clock/src/lib.rs
+++ b/clock/src/lib.rs
@@ -47,10 +47,10 @@ impl<T: UnixTimeProvider> Clock<T> {
     }
 
     pub fn millis_until_next_timeslot_boundary() -> Option<u64> {
-        let millis_since_common_era = Self::millis_since_common_era()?;
-        let offset_millis = millis_since_common_era
-            .checked_sub(((Self::now_jam_timeslot()? as u64) * SLOT_DURATION) * 1_000)?;
-        (SLOT_DURATION * 1_000).checked_sub(offset_millis)
+        // A single reading, so that a boundary crossed meanwhile is not taken for a missing one
+        let slot_duration_millis = SLOT_DURATION * 1_000;
+        let offset_millis = Self::millis_since_common_era()? % slot_duration_millis;
+        Some(slot_duration_millis - offset_millis)
     }
 }
 
-- 
2.43.0


From 8a211db6c7185e6e6c7c0ac1d8044a214a8efb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:00 +0000
Subject: [PATCH 53/55] fix: take the locks of the extrinsics pool in one order

---
 extrinsics/src/pool/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extrinsics/src/pool/mod.rs b/extrinsics/src/pool/mod.rs
index 25bbbdd..6e32906 100644
--- a/extrinsics/src/pool/mod.rs
+++ b/extrinsics/src/pool/mod.rs
@@ -98,8 +98,9 @@ impl XtPool {
         extrinsic_type: XtType,
         timeslot_index: TimeslotIndex,
     ) -> Result<Vec<OpaqueXtEntry>, XtPoolError> {
-        let type_timeslot_index = self.type_timeslot_index.read().unwrap();
+        // The locks are taken in the same order as in `add_extrinsic`
         let extrinsics = self.extrinsics.read().unwrap();
+        let type_timeslot_index = self.type_timeslot_index.read().unwrap();
 
         Ok(type_timeslot_index
             .get(&(extrinsic_type, timeslot_index))
-- 
2.43.0


From 3357afd3cf3cbdfab063c3952c5ac4fda5ada811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:00 +0000
Subject: [PATCH 54/55] fix: list an extrinsic submitted again once

---
 extrinsics/src/pool/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/extrinsics/src/pool/mod.rs b/extrinsics/src/pool/mod.rs
index 6e32906..69ab084 100644
--- a/extrinsics/src/pool/mod.rs
+++ b/extrinsics/src/pool/mod.rs
@@ -84,10 +84,12 @@ impl XtPool {
         extrinsics.insert(entry.hash.clone(), entry.clone());
 
         // Add to the type-timeslot lookup index
-        type_timeslot_index
+        let hashes = type_timeslot_index
             .entry((entry.extrinsic_type.clone(), timeslot_index))
-            .or_default()
-            .push(entry.hash);
+            .or_default();
+        if !hashes.contains(&entry.hash) {
+            hashes.push(entry.hash);
+        }
 
         Ok(())
     }
-- 
2.43.0


From e81ab6bf799dc31d9a710287dfe95aa1439fec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:37 +0000
Subject: [PATCH 55/55] hook: let a harness choose where state accesses give
 way to other tasks (feature schedule of fr-state)

---
 state/Cargo.toml      |  4 ++++
 state/src/lib.rs      |  2 ++
 state/src/manager.rs  |  8 ++++++++
 state/src/schedule.rs | 31 +++++++++++++++++++++++++++++++
 4 files changed, 45 insertions(+)
 create mode 100644 state/src/schedule.rs

diff --git a/state/Cargo.toml b/state/Cargo.toml
index 7bc86f4..2d19d9b 100644
--- a/state/Cargo.toml
+++ b/state/Cargo.toml
@@ -6,6 +6,10 @@ license.workspace = true
 authors.workspace = true
 repository.workspace = true
 
+[features]
+# Lets a test harness choose where state accesses give way to other tasks
+schedule = []
+
 [dependencies]
 fr-block = { workspace = true }
 fr-clock = { workspace = true }
diff --git a/state/src/lib.rs b/state/src/lib.rs
index 7b77e9f..d9a2a16 100644
--- a/state/src/lib.rs
+++ b/state/src/lib.rs
@@ -3,6 +3,8 @@ pub mod error;
 pub mod manager;
 pub mod merkle_interface;
 pub mod provider;
+#[cfg(feature = "schedule")]
+pub mod schedule;
 pub mod state_db;
 pub mod state_utils;
 pub mod test_utils;
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 89d86a0..f03820b 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -937,6 +937,8 @@ impl StateManager {
     where
         T: StateComponent,
     {
+        #[cfg(feature = "schedule")]
+        crate::schedule::pause().await;
         // Check the cache
         if let Some(CacheEntryStatus::Dirty(StateMut::Add)) = self.cache.get_entry_status(state_key)
         {
@@ -965,6 +967,8 @@ impl StateManager {
     where
         T: StateComponent,
     {
+        #[cfg(feature = "schedule")]
+        crate::schedule::pause().await;
         // Check the cache
         if let Some(entry) = self.cache.get_entry(state_key) {
             // Cache entry exists and marked as removed
@@ -1030,6 +1034,8 @@ impl StateManager {
             StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
         )?;
 
+        #[cfg(feature = "schedule")]
+        crate::schedule::pause().await;
         self.cache
             .with_mut_entry(state_key, state_mut, loaded_entry, f)
     }
@@ -1058,6 +1064,8 @@ impl StateManager {
             )));
         }
 
+        #[cfg(feature = "schedule")]
+        crate::schedule::pause().await;
         self.cache
             .insert_added_entry(state_key.clone(), state_entry.into_entry_type());
 
diff --git a/state/src/schedule.rs b/state/src/schedule.rs
new file mode 100644
index 0000000..3ffc011
--- /dev/null
+++ b/state/src/schedule.rs
@@ -0,0 +1,31 @@
+//! Points at which state accesses give way to other tasks, chosen by a test harness.
+use std::sync::atomic::{AtomicU64, Ordering};
+
+/// Zero: never give way.
+static STATE: AtomicU64 = AtomicU64::new(0);
+
+/// Starts a new sequence of choices.
+pub fn set_seed(seed: u64) {
+    STATE.store(seed, Ordering::SeqCst);
+}
+
+pub(crate) async fn pause() {
+    let x = STATE.load(Ordering::SeqCst);
+    if x == 0 {
+        return;
+    }
+    let next = x
+        .wrapping_mul(6_364_136_223_846_793_005)
+        .wrapping_add(1_442_695_040_888_963_407);
+    STATE.store(next.max(1), Ordering::SeqCst);
+    // Mostly not at all, at times for long
+    let turns = match next >> 60 {
+        0..=7 => 0,
+        8..=12 => (next >> 40) & 3,
+        13..=14 => (next >> 40) & 15,
+        _ => (next >> 40) & 127,
+    };
+    for _ in 0..turns {
+        tokio::task::yield_now().await;
+    }
+}
-- 
2.43.0

