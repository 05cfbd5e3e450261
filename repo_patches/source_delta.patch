From 95d57d5272ba2be40066dacc3e536a6c90c0a044 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 01/81] fix: lock upgrades respect other holders and keep the
 held lock; waiting requests are recorded when granted and dropped with their
 transaction; row locks are recorded under their table

---
 src/concurrency/lock_manager.rs | 332 +++++++++++++++++---------------
 1 file changed, 178 insertions(+), 154 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..4cbf09e 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -389,45 +389,20 @@ impl LockRequestQueue {
             return false;
         }
 
-        // Check existing locks by this transaction
-        let has_lock = false;
         for existing_req in &self.request_queue {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
+            if !existing.is_granted() {
+                continue;
             }
-        }
-
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
-                    return false;
-                }
+            let held = existing.get_lock_mode();
+            let ok = if existing.get_txn_id() == txn_id {
+                // A lock this transaction already holds only has to be upgradable
+                held == new_mode || LockCompatibilityChecker::can_upgrade(held, new_mode)
+            } else {
+                LockCompatibilityChecker::are_compatible(held, new_mode)
+            };
+            if !ok {
+                return false;
             }
         }
         true
@@ -438,55 +413,91 @@ impl LockRequestQueue {
         let txn_id = request.lock().get_txn_id();
         let lock_mode = request.lock().get_lock_mode();
 
-        // Check for existing locks by this transaction
-        let mut existing_lock = None;
-        for (i, existing_req) in self.request_queue.iter().enumerate() {
-            let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                if existing.get_lock_mode() == lock_mode {
-                    return true; // Already have this lock
-                }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
-            }
+        // Locks this transaction already holds here
+        let held: Vec<LockMode> = self
+            .request_queue
+            .iter()
+            .map(|req| req.lock())
+            .filter(|req| req.is_granted() && req.get_txn_id() == txn_id)
+            .map(|req| req.get_lock_mode())
+            .collect();
+        if held
+            .iter()
+            .any(|&mode| mode == lock_mode || LockCompatibilityChecker::covers(mode, lock_mode))
+        {
+            return true; // Already have this lock, or a stronger one
         }
-
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
-                    }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
-            }
+        let upgrade = !held.is_empty();
+        if upgrade
+            && (held
+                .iter()
+                .any(|&mode| !LockCompatibilityChecker::can_upgrade(mode, lock_mode))
+                || (self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id))
+        {
+            return false; // Unsupported upgrade, or another transaction is upgrading
         }
 
+        // A new request replaces the one this transaction may still be waiting for
+        self.forget_waiting(txn_id);
+
         // Check compatibility with existing locks
         if self.compatible_with_existing_locks(&request.lock()) {
-            // Grant the new lock
-            self.request_queue.push_back(request.clone());
-            request.lock().granted = true;
-            if self.upgrading == txn_id {
-                self.upgrading = INVALID_TXN_ID;
-            }
+            self.grant(&request);
+            self.request_queue.push_back(request);
             self.cv.notify_all();
             return true;
         }
 
-        // Add request to queue but don't grant it yet
+        // Add request to queue but don't grant it yet; what the transaction holds stays held
+        if upgrade {
+            self.upgrading = txn_id;
+        }
         self.request_queue.push_back(request);
         false
     }
+
+    /// Marks a compatible request granted; an upgrade replaces the lock it upgrades.
+    fn grant(&mut self, request: &Arc<Mutex<LockRequest>>) {
+        let (txn_id, new_mode) = {
+            let req = request.lock();
+            (req.get_txn_id(), req.get_lock_mode())
+        };
+        self.request_queue.retain(|existing| {
+            let existing = existing.lock();
+            // Keep both locks for valid combinations
+            !(existing.is_granted() && existing.get_txn_id() == txn_id)
+                || matches!(
+                    (existing.get_lock_mode(), new_mode),
+                    (LockMode::IntentionShared, LockMode::Shared)
+                        | (LockMode::IntentionExclusive, LockMode::Exclusive)
+                )
+        });
+        request.lock().granted = true;
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
+
+    /// Drops every lock a transaction holds here; returns whether it held one.
+    fn release(&mut self, txn_id: TxnId) -> bool {
+        let before = self.request_queue.len();
+        self.request_queue.retain(|req| {
+            let req = req.lock();
+            !(req.is_granted() && req.get_txn_id() == txn_id)
+        });
+        self.request_queue.len() != before
+    }
+
+    /// Drops the requests a transaction is still waiting for.
+    fn forget_waiting(&mut self, txn_id: TxnId) {
+        self.request_queue.retain(|req| {
+            let req = req.lock();
+            req.is_granted() || req.get_txn_id() != txn_id
+        });
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -682,19 +693,23 @@ impl LockStateManager {
     ///
     /// # Returns
     /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
 
         let request = Arc::new(Mutex::new(LockRequest::new_row_request(
-            txn_id,
-            lock_mode,
-            rid.get_page_id(),
-            rid,
+            txn_id, lock_mode, oid, rid,
         )));
-        let granted = queue.lock().grant_lock(request.clone());
+        let mut queue_guard = queue.lock();
+        let granted = queue_guard.grant_lock(request);
 
         if granted {
             // Update transaction's lock set
@@ -703,7 +718,7 @@ impl LockStateManager {
                 table_locks: HashSet::new(),
                 row_locks: HashSet::new(),
             });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
+            lock_state.row_locks.insert((oid, rid));
         }
 
         granted
@@ -716,14 +731,7 @@ impl LockStateManager {
         if let Some(queue) = table_locks.get(&oid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
-
+            if queue_guard.release(txn_id) {
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
@@ -731,18 +739,7 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
-                }
-                queue_guard.cv.notify_all();
-
+                Self::grant_waiting_locks(&mut queue_guard, &mut txn_locks);
                 return Ok(());
             }
         }
@@ -757,21 +754,15 @@ impl LockStateManager {
         if let Some(queue) = row_locks.get(&rid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                queue_guard.request_queue.remove(pos);
-
+            if queue_guard.release(txn_id) {
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
+                    lock_state.row_locks.retain(|(_, held)| *held != rid);
                 }
 
                 // Try to grant waiting locks
-                self.grant_waiting_locks(&mut queue_guard);
+                Self::grant_waiting_locks(&mut queue_guard, &mut txn_locks);
                 return Ok(());
             }
         }
@@ -781,62 +772,67 @@ impl LockStateManager {
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
-        };
-
+        // Lock order: queue maps, then a queue, then the lock sets. The transaction may also be
+        // waiting for locks it does not hold, so every queue is looked at.
         // Release row locks first to avoid table-lock ordering issues.
-        {
-            let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
-                if let Some(queue) = row_locks.get(rid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
-                }
-            }
+        let row_locks = self.row_locks.lock();
+        for queue in row_locks.values() {
+            self.drop_txn_from_queue(txn_id, queue);
         }
+        drop(row_locks);
 
         // Release table locks.
-        {
-            let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
-                if let Some(queue) = table_locks_map.get(oid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
-                }
-            }
+        let table_locks = self.table_lock_map.lock();
+        for queue in table_locks.values() {
+            self.drop_txn_from_queue(txn_id, queue);
         }
+        drop(table_locks);
 
         // Remove transaction lock state entry.
-        let mut txn_locks = self.txn_lock_sets.lock();
-        txn_locks.remove(&txn_id);
+        self.txn_lock_sets.lock().remove(&txn_id);
 
         Ok(())
     }
 
+    /// Removes everything a transaction holds or waits for in one queue.
+    fn drop_txn_from_queue(&self, txn_id: TxnId, queue: &Mutex<LockRequestQueue>) {
+        let mut queue = queue.lock();
+        let before = queue.request_queue.len();
+        queue.forget_waiting(txn_id);
+        queue.release(txn_id);
+        if queue.request_queue.len() != before {
+            Self::grant_waiting_locks(&mut queue, &mut self.txn_lock_sets.lock());
+        }
+    }
+
     /// Attempts to grant locks to waiting transactions
-    fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
-        let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
+    fn grant_waiting_locks(
+        queue: &mut MutexGuard<RawMutex, LockRequestQueue>,
+        txn_locks: &mut HashMap<TxnId, TxnLockState>,
+    ) {
+        let mut waiting: Vec<_> = queue
+            .request_queue
+            .iter()
+            .filter(|req| !req.lock().is_granted())
+            .cloned()
+            .collect();
+        // An upgrade goes first: nothing else is granted while one is pending
+        waiting.sort_by_key(|req| req.lock().get_txn_id() != queue.upgrading);
+        for request in waiting {
+            if queue.compatible_with_existing_locks(&request.lock()) {
+                queue.grant(&request);
+                let req = request.lock();
+                let lock_state =
+                    txn_locks
+                        .entry(req.get_txn_id())
+                        .or_insert_with(|| TxnLockState {
+                            table_locks: HashSet::new(),
+                            row_locks: HashSet::new(),
+                        });
+                match req.get_rid() {
+                    Some(rid) => lock_state.row_locks.insert((req.get_oid(), rid)),
+                    None => lock_state.table_locks.insert(req.get_oid()),
+                };
             }
         }
         queue.cv.notify_all();
@@ -868,6 +864,34 @@ impl LockStateManager {
 }
 
 impl LockCompatibilityChecker {
+    /// Whether a held lock may be upgraded to the requested mode.
+    fn can_upgrade(held: LockMode, requested: LockMode) -> bool {
+        match held {
+            // IS -> [S, X, IX, SIX]
+            LockMode::IntentionShared => requested != held,
+            // S, IX -> [X, SIX]
+            LockMode::Shared | LockMode::IntentionExclusive => matches!(
+                requested,
+                LockMode::Exclusive | LockMode::SharedIntentionExclusive
+            ),
+            // SIX -> [X]
+            LockMode::SharedIntentionExclusive => requested == LockMode::Exclusive,
+            LockMode::Exclusive => false,
+        }
+    }
+
+    /// Whether a held lock already includes the requested, weaker mode.
+    fn covers(held: LockMode, requested: LockMode) -> bool {
+        match held {
+            LockMode::Exclusive => true,
+            LockMode::SharedIntentionExclusive => requested != LockMode::Exclusive,
+            LockMode::Shared | LockMode::IntentionExclusive => {
+                requested == LockMode::IntentionShared
+            },
+            LockMode::IntentionShared => false,
+        }
+    }
+
     /// Checks if two lock modes are compatible (can be held simultaneously).
     ///
     /// See module-level documentation for the full compatibility matrix.
@@ -1239,7 +1263,7 @@ impl LockManager {
         // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
         if !granted {
             // 5. If not granted, add edge to waits-for graph
-- 
2.43.0


From 39691de5830e32bf37f0c9605f5bad23c5501046 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 02/81] fix: the waits-for graph follows the lock queues, and a
 deadlock notice only reaches its victim while the cycle exists

---
 src/concurrency/lock_manager.rs | 119 ++++++++++++++++++++++++--------
 1 file changed, 90 insertions(+), 29 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 4cbf09e..0da6f6e 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -567,6 +567,34 @@ impl DeadlockDetector {
         latest.take()
     }
 
+    /// Takes the abort notice if it is addressed to the given transaction.
+    fn take_abort_notice(&self, txn_id: TxnId) -> bool {
+        let mut latest = self.latest_abort_txn.lock();
+        if *latest == Some(txn_id) {
+            *latest = None;
+            return true;
+        }
+        false
+    }
+
+    /// Checks if a transaction waits, directly or not, for itself.
+    fn in_cycle(&self, txn_id: TxnId) -> bool {
+        let waits_for = self.waits_for.lock();
+        let mut visited = HashSet::new();
+        let mut pending = vec![txn_id];
+        while let Some(curr) = pending.pop() {
+            for &next in waits_for.get(&curr).into_iter().flatten() {
+                if next == txn_id {
+                    return true;
+                }
+                if visited.insert(next) {
+                    pending.push(next);
+                }
+            }
+        }
+        false
+    }
+
     /// Checks if there is a cycle in the waits-for graph.
     ///
     /// # Parameters
@@ -1099,14 +1127,10 @@ impl LockManager {
                 });
             lock_state.table_locks.insert(oid);
         } else {
-            // 6. If not granted, add edge to waits-for graph
-            for existing_req in &queue_guard.request_queue {
-                let existing = existing_req.lock();
-                if existing.granted {
-                    self.deadlock_detector
-                        .add_edge(txn.get_transaction_id(), existing.txn_id);
-                }
-            }
+            // 6. If not granted, update the waits-for graph
+            drop(queue_guard);
+            drop(table_locks);
+            self.refresh_waits_for(true);
 
             // 7. Check for deadlock
             if self.check_deadlock(txn.clone())? {
@@ -1117,6 +1141,51 @@ impl LockManager {
         Ok(granted)
     }
 
+    /// Rebuilds the waits-for graph from the lock queues: each waiting transaction waits for the
+    /// holders its request conflicts with, and for the transaction upgrading its lock.
+    ///
+    /// # Parameters
+    /// - `waiting`: Whether a request has just been queued; otherwise an empty graph stays empty.
+    fn refresh_waits_for(&self, waiting: bool) {
+        let mut waits_for = self.deadlock_detector.waits_for.lock();
+        if waits_for.is_empty() && !waiting {
+            return;
+        }
+        waits_for.clear();
+        let mut add_queue = |queue: &Mutex<LockRequestQueue>| {
+            let queue = queue.lock();
+            for request in &queue.request_queue {
+                let waiter = request.lock();
+                if waiter.granted {
+                    continue;
+                }
+                let edges = waits_for.entry(waiter.txn_id).or_default();
+                for other in &queue.request_queue {
+                    if Arc::ptr_eq(request, other) {
+                        continue;
+                    }
+                    let holder = other.lock();
+                    if holder.txn_id != waiter.txn_id
+                        && (holder.txn_id == queue.upgrading
+                            || (holder.granted
+                                && !LockCompatibilityChecker::are_compatible(
+                                    holder.lock_mode,
+                                    waiter.lock_mode,
+                                )))
+                    {
+                        edges.push(holder.txn_id);
+                    }
+                }
+            }
+        };
+        for queue in self.lock_state_manager.row_locks.lock().values() {
+            add_queue(queue);
+        }
+        for queue in self.lock_state_manager.table_lock_map.lock().values() {
+            add_queue(queue);
+        }
+    }
+
     /// Releases a table lock held by a transaction.
     ///
     /// Fails if the transaction doesn't hold the lock or still holds row locks
@@ -1183,8 +1252,8 @@ impl LockManager {
             },
         }
 
-        // 5. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        // 5. Update the waits-for graph
+        self.refresh_waits_for(false);
 
         Ok(true)
     }
@@ -1266,18 +1335,8 @@ impl LockManager {
                 .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
         if !granted {
-            // 5. If not granted, add edge to waits-for graph
-            let row_locks = self.lock_state_manager.row_locks.lock();
-            if let Some(queue) = row_locks.get(&rid) {
-                let queue_guard = queue.lock();
-                for request in &queue_guard.request_queue {
-                    let req = request.lock();
-                    if req.granted {
-                        self.deadlock_detector
-                            .add_edge(txn.get_transaction_id(), req.txn_id);
-                    }
-                }
-            }
+            // 5. If not granted, update the waits-for graph
+            self.refresh_waits_for(true);
 
             // 6. Check for deadlock
             if self.check_deadlock(txn.clone())? {
@@ -1346,8 +1405,8 @@ impl LockManager {
             },
         }
 
-        // 4. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        // 4. Update the waits-for graph
+        self.refresh_waits_for(false);
 
         Ok(true)
     }
@@ -1381,17 +1440,19 @@ impl LockManager {
 
     /// Force releases all locks held by the provided transaction ID without altering its state.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Remove waits-for edges for this transaction as it no longer blocks others.
-        self.deadlock_detector.remove_edge(txn_id);
-        self.lock_state_manager.force_release_txn(txn_id)
+        self.lock_state_manager.force_release_txn(txn_id)?;
+        self.refresh_waits_for(false);
+        Ok(())
     }
 
     /// Checks if this transaction was selected as a deadlock victim.
     ///
     /// If so, sets the transaction state to Aborted and returns `Ok(true)`.
     pub fn check_deadlock(&self, txn: Arc<Transaction>) -> Result<bool, LockError> {
-        if let Some(abort_txn) = self.deadlock_detector.get_and_clear_abort_txn()
-            && abort_txn == txn.get_transaction_id()
+        let txn_id = txn.get_transaction_id();
+        // The notice is for this transaction only, and only while it is still in a cycle
+        if self.deadlock_detector.take_abort_notice(txn_id)
+            && self.deadlock_detector.in_cycle(txn_id)
         {
             txn.set_state(TransactionState::Aborted);
             return Ok(true);
-- 
2.43.0


From da9800dd8eb00a0bcab5b40d664bbf27c9edea5b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:07:06 +0000
Subject: [PATCH 03/81] fix: granting a waiting lock request no longer
 deadlocks on the request's own mutex

---
 src/concurrency/lock_manager.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 0da6f6e..ef04481 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -193,7 +193,7 @@ pub enum LockMode {
 ///
 /// For table lock requests, `rid` is `None`. For row lock requests,
 /// `rid` contains the specific row identifier.
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub struct LockRequest {
     /// Transaction ID of the requesting transaction.
     txn_id: TxnId,
@@ -847,9 +847,10 @@ impl LockStateManager {
         // An upgrade goes first: nothing else is granted while one is pending
         waiting.sort_by_key(|req| req.lock().get_txn_id() != queue.upgrading);
         for request in waiting {
-            if queue.compatible_with_existing_locks(&request.lock()) {
+            // The request is in the queue itself: its lock must not be held here
+            let req = request.lock().clone();
+            if queue.compatible_with_existing_locks(&req) {
                 queue.grant(&request);
-                let req = request.lock();
                 let lock_state =
                     txn_locks
                         .entry(req.get_txn_id())
-- 
2.43.0


From ee7bc32157c998bb68ee5d9cf41cdac70516361f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 04/81] fix: hash bucket splits follow the directory's new bit,
 and merges keep the surviving bucket and its depth

---
 src/container/disk_extendable_hash_table.rs            |  8 +++++---
 .../page_types/extendable_hash_table_directory_page.rs | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index 1e2e4ea..a26c53c 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -541,6 +541,7 @@ impl DiskExtendableHashTable {
         if removed {
             let is_empty = bucket_page.read().is_empty();
             if is_empty {
+                drop(bucket_page); // a pinned page cannot be deleted
                 self.merge_bucket(directory_index, bucket_index);
             }
         }
@@ -680,13 +681,14 @@ impl DiskExtendableHashTable {
 
                 // Redistribute entries based on the new local depth
                 let new_local_depth = directory.get_local_depth(bucket_index as u32);
-                let mask = (1 << new_local_depth) - 1;
+                let distinguishing_bit = 1 << (new_local_depth - 1);
 
                 for (key, value) in entries {
                     let hash = self.hash_fn.get_hash(&key) as u32;
-                    let target_bucket_index = hash & mask;
 
-                    if target_bucket_index == bucket_index as u32 {
+                    // The directory sends entries with the new bit set to the new bucket,
+                    // whichever index the split was reached through.
+                    if hash & distinguishing_bit == 0 {
                         old_bucket.insert(key, value);
                     } else {
                         new_bucket.insert(key, value);
diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 7988c4c..f3f8c1f 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -631,17 +631,19 @@ impl ExtendableHTableDirectoryPage {
 
         let buddy_page_id = self.get_bucket_page_id(buddy_bucket_index)?;
 
-        // Update all entries pointing to this bucket to point to buddy
-        let mask = (1 << local_depth) - 1;
+        let removed_page_id = self.get_bucket_page_id(bucket_index)?;
+
+        // All entries of either bucket now share the buddy, one bit shallower
+        let mask = (1 << (local_depth - 1)) - 1;
         for i in 0..(1 << self.get_global_depth()) {
-            if (i & mask) == bucket_index {
+            if (i & mask) == (bucket_index & mask) {
                 self.set_bucket_page_id(i, buddy_page_id);
                 self.set_local_depth(i, local_depth - 1);
             }
         }
 
         // Return the page ID of the bucket being removed
-        self.get_bucket_page_id(bucket_index)
+        Some(removed_page_id)
     }
 
     // Helper method to find the correct bucket index for a given page ID
-- 
2.43.0


From 41349fd33ce1ce5a79ad6cd1cacdd8e9334b303a Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 05/81] fix: table page placement respects tuples moved by
 updates and metadata that grows later; deleted count stays exact

---
 src/storage/page/page_types/table_page.rs | 57 +++++++++++++----------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..d5a5acc 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -233,6 +233,10 @@ impl Page for TablePage {
 }
 
 impl TablePage {
+    /// Offset and size (2 + 2 bytes) plus the largest `TupleMeta` encoding: two ids and the undo
+    /// index as varints (10 bytes each), two option tags and the deleted flag.
+    const MAX_TUPLE_INFO_BYTES: usize = 4 + 3 * 10 + 3;
+
     /// Initializes the table page.
     pub fn init(&mut self) {
         self.header.prev_page_id = INVALID_PAGE_ID;
@@ -268,11 +272,13 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        // An update may have moved any tuple to the lowest offset, not only the last one.
+        let slot_end_offset = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
@@ -303,6 +309,9 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
+        if tuple_data.len() > TUPLE_MAX_SERIALIZED_SIZE {
+            return Err(PageError::TupleInvalid);
+        }
         let new_size = tuple_data.len() as u16;
 
         // Get current tuple info
@@ -311,6 +320,7 @@ impl TablePage {
         // Try to update in place if the new tuple size is smaller than or equal to current size
         if new_size <= current_size {
             // Update metadata in tuple_info
+            self.count_deleted(tuple_id, &meta);
             self.tuple_info[tuple_id].2 = meta;
 
             // Update the size to reflect the actual new size
@@ -363,6 +373,7 @@ impl TablePage {
             }
 
             // Update tuple info with new location
+            self.count_deleted(tuple_id, &meta);
             self.tuple_info[tuple_id] = (new_offset, new_size, meta);
 
             // Write new tuple data
@@ -867,16 +878,21 @@ impl TablePage {
     }
 
     /// Returns the encoded size of all tuple-info entries (offset+size + encoded meta).
+    /// Keeps the deleted-tuple count in step with a tuple's metadata about to be replaced.
+    fn count_deleted(&mut self, tuple_id: usize, meta: &TupleMeta) {
+        match (self.tuple_info[tuple_id].2.is_deleted(), meta.is_deleted()) {
+            (false, true) => self.header.num_deleted_tuples += 1,
+            (true, false) => {
+                self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1)
+            },
+            _ => {},
+        }
+    }
+
+    /// Space reserved for the tuple entries. A tuple's metadata grows after the tuple was placed
+    /// (commit timestamp, undo link), so each entry is counted at its largest encoding.
     fn encoded_tuple_info_bytes(&self) -> usize {
-        self.tuple_info
-            .iter()
-            .map(|(_, _, meta)| {
-                // 2 bytes offset + 2 bytes size + encoded meta
-                4 + postcard::to_allocvec(meta)
-                    .expect("TupleMeta encoding should not fail")
-                    .len()
-            })
-            .sum()
+        self.tuple_info.len() * Self::MAX_TUPLE_INFO_BYTES
     }
 
     fn metadata_footprint_bytes(&self) -> usize {
@@ -888,16 +904,8 @@ impl TablePage {
     }
 
     fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
-        Some(
-            1 // page type
-                + TablePageHeader::size()
-                + 4 // start magic
-                + self.encoded_tuple_info_bytes()
-                + 4 // offset+size for new tuple
-                + meta_len
-                + 4, // end magic
-        )
+        postcard::to_allocvec(meta).ok()?;
+        Some(self.metadata_footprint_bytes() + Self::MAX_TUPLE_INFO_BYTES)
     }
 
     /// Gets the total size of all tuple data in the page
@@ -1217,6 +1225,7 @@ impl PageTrait for TablePage {
         self.data.fill(0);
         self.header.prev_page_id = INVALID_PAGE_ID;
         self.header.next_page_id = INVALID_PAGE_ID;
+        self.header.num_deleted_tuples = 0;
         self.header.num_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
-- 
2.43.0


From 0f8b02d440e3721bd4dda72c85d0588909caa3b6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 06/81] fix: table, hash table and tree header pages persist
 and reload their current content

---
 src/buffer/buffer_pool_manager_async.rs       | 10 +--
 src/storage/page/page_impl.rs                 |  6 ++
 .../page_types/b_plus_tree_header_page.rs     | 17 +++++
 .../extendable_hash_table_bucket_page.rs      | 62 +++++++++----------
 .../extendable_hash_table_directory_page.rs   | 34 ++++++++++
 .../extendable_hash_table_header_page.rs      | 23 +++++++
 src/storage/page/page_types/table_page.rs     | 12 ++++
 7 files changed, 126 insertions(+), 38 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..d786c72 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1202,9 +1202,7 @@ impl BufferPoolManager {
         // Prepare data for writing
         let data_buffer = {
             let page_guard = page.read();
-            let mut data = vec![0u8; DB_PAGE_SIZE as usize];
-            data.copy_from_slice(page_guard.get_data());
-            data
+            page_guard.to_bytes()
         };
 
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
@@ -1238,9 +1236,7 @@ impl BufferPoolManager {
         // Prepare data for writing
         let data_buffer = {
             let page_guard = page.read();
-            let mut data = vec![0u8; DB_PAGE_SIZE as usize];
-            data.copy_from_slice(page_guard.get_data());
-            data
+            page_guard.to_bytes()
         };
 
         // Use block_on for sync eviction path
@@ -1419,7 +1415,7 @@ impl BufferPoolManager {
                         let page_guard = page.read();
                         if page_guard.is_dirty() {
                             let page_id = page_guard.get_page_id();
-                            let data = page_guard.get_data().to_vec();
+                            let data = page_guard.to_bytes();
                             Some((page_id, data))
                         } else {
                             None
diff --git a/src/storage/page/page_impl.rs b/src/storage/page/page_impl.rs
index 0491f52..8eb92a4 100644
--- a/src/storage/page/page_impl.rs
+++ b/src/storage/page/page_impl.rs
@@ -180,6 +180,12 @@ pub trait PageTrait: Send + Sync + Debug {
     fn increment_pin_count(&mut self);
     fn decrement_pin_count(&mut self);
     fn get_data(&self) -> &[u8; DB_PAGE_SIZE as usize];
+    /// The page image to persist. Pages that keep decoded state next to their raw bytes encode it
+    /// here, so that what is written back is what the page currently holds.
+    fn to_bytes(&self) -> Vec<u8> {
+        self.get_data().to_vec()
+    }
+
     fn get_data_mut(&mut self) -> &mut [u8; DB_PAGE_SIZE as usize];
     fn set_data(&mut self, offset: usize, new_data: &[u8]) -> Result<(), PageError>;
     fn set_pin_count(&mut self, pin_count: i32);
diff --git a/src/storage/page/page_types/b_plus_tree_header_page.rs b/src/storage/page/page_types/b_plus_tree_header_page.rs
index 2b616b1..0395850 100644
--- a/src/storage/page/page_types/b_plus_tree_header_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_header_page.rs
@@ -237,6 +237,13 @@ impl PageTrait for BPlusTreeHeaderPage {
         &self.data
     }
 
+    fn to_bytes(&self) -> Vec<u8> {
+        let mut data = vec![Self::TYPE_ID.to_u8()];
+        data.extend_from_slice(&self.serialize());
+        data.resize(DB_PAGE_SIZE as usize, 0);
+        data
+    }
+
     fn get_data_mut(&mut self) -> &mut [u8; DB_PAGE_SIZE as usize] {
         &mut self.data
     }
@@ -249,6 +256,16 @@ impl PageTrait for BPlusTreeHeaderPage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image replaces the decoded header as well.
+        if offset == 0
+            && new_data.len() == self.data.len()
+            && let Ok((header, _)) = postcard::take_from_bytes::<HeaderData>(&new_data[1..])
+        {
+            self.root_page_id = header.root_page_id;
+            self.tree_height = header.tree_height;
+            self.num_keys = header.num_keys;
+            self.order = header.order;
+        }
         self.is_dirty = true;
         Ok(())
     }
diff --git a/src/storage/page/page_types/extendable_hash_table_bucket_page.rs b/src/storage/page/page_types/extendable_hash_table_bucket_page.rs
index 834ef11..55090d1 100644
--- a/src/storage/page/page_types/extendable_hash_table_bucket_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_bucket_page.rs
@@ -82,6 +82,12 @@ impl ExtendableHTableBucketPage {
 
         self.entries.push((key, value));
         self.size += 1;
+        if self.encode().is_err() {
+            // Never hold more than a page can store.
+            self.entries.pop();
+            self.size -= 1;
+            return false;
+        }
         self.is_dirty = true;
         true
     }
@@ -135,42 +141,32 @@ impl ExtendableHTableBucketPage {
         self.is_dirty = true;
     }
 
-    /// Serializes the bucket page data
-    #[allow(dead_code)]
-    fn serialize_entries(&mut self) -> Result<(), PageError> {
-        // Start after the page header
-        let mut offset = BUCKET_HEADER_SIZE;
-
-        // Write local depth
-        self.data[offset] = self.local_depth;
-        offset += 1;
-
-        // Write size and max_size
-        self.data[offset..offset + 2].copy_from_slice(&self.size.to_le_bytes());
-        offset += 2;
-        self.data[offset..offset + 2].copy_from_slice(&self.max_size.to_le_bytes());
-        offset += 2;
-
-        // Write entries
+    /// Encodes the bucket into a page image. Fails if the entries do not fit a page.
+    fn encode(&self) -> Result<Vec<u8>, PageError> {
+        let mut data = self.data[..BUCKET_HEADER_SIZE].to_vec();
+        data.push(self.local_depth);
+        data.extend_from_slice(&self.size.to_le_bytes());
+        data.extend_from_slice(&self.max_size.to_le_bytes());
         for (value, rid) in &self.entries {
-            // Serialize value
             let value_bytes =
                 postcard::to_allocvec(value).map_err(|_| PageError::SerializationError)?;
-            let value_size = value_bytes.len();
-
-            // Write value size and data
-            self.data[offset..offset + 4].copy_from_slice(&(value_size as u32).to_le_bytes());
-            offset += 4;
-            self.data[offset..offset + value_size].copy_from_slice(&value_bytes);
-            offset += value_size;
-
-            // Write RID
-            self.data[offset..offset + 8].copy_from_slice(&rid.get_page_id().to_le_bytes());
-            offset += 8;
-            self.data[offset..offset + 4].copy_from_slice(&rid.get_slot_num().to_le_bytes());
-            offset += 4;
+            data.extend_from_slice(&(value_bytes.len() as u32).to_le_bytes());
+            data.extend_from_slice(&value_bytes);
+            data.extend_from_slice(&rid.get_page_id().to_le_bytes());
+            data.extend_from_slice(&rid.get_slot_num().to_le_bytes());
+        }
+        if data.len() > DB_PAGE_SIZE as usize {
+            return Err(PageError::SerializationError);
         }
+        data.resize(DB_PAGE_SIZE as usize, 0);
+        Ok(data)
+    }
 
+    /// Serializes the bucket page data into its page image
+    #[allow(dead_code)]
+    fn serialize_entries(&mut self) -> Result<(), PageError> {
+        let data = self.encode()?;
+        self.data.copy_from_slice(&data);
         Ok(())
     }
 
@@ -271,6 +267,10 @@ impl PageTrait for ExtendableHTableBucketPage {
         &self.data
     }
 
+    fn to_bytes(&self) -> Vec<u8> {
+        self.encode().unwrap_or_else(|_| self.data.to_vec())
+    }
+
     fn get_data_mut(&mut self) -> &mut [u8; DB_PAGE_SIZE as usize] {
         &mut self.data
     }
diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index f3f8c1f..83604e6 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -730,6 +730,23 @@ impl PageTrait for ExtendableHTableDirectoryPage {
         &self.data
     }
 
+    /// Layout: type byte, global depth, maximum depth, then local depth (1 byte) and bucket page id
+    /// (4 bytes) of each entry.
+    fn to_bytes(&self) -> Vec<u8> {
+        let mut data = vec![
+            Self::TYPE_ID.to_u8(),
+            self.global_depth as u8,
+            self.max_depth as u8,
+        ];
+        for (depth, page_id) in self.local_depths.iter().zip(&self.bucket_page_ids) {
+            data.push(*depth as u8);
+            let page_id = u32::try_from(*page_id).unwrap_or(u32::MAX);
+            data.extend_from_slice(&page_id.to_le_bytes());
+        }
+        data.resize(DB_PAGE_SIZE as usize, 0);
+        data
+    }
+
     fn get_data_mut(&mut self) -> &mut [u8; DB_PAGE_SIZE as usize] {
         &mut self.data
     }
@@ -742,6 +759,23 @@ impl PageTrait for ExtendableHTableDirectoryPage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image replaces the decoded directory as well.
+        if offset == 0 && new_data.len() == self.data.len() {
+            self.global_depth = u32::from(new_data[1]);
+            self.max_depth = u32::from(new_data[2]);
+            for (i, entry) in new_data[3..]
+                .chunks_exact(5)
+                .take(HTABLE_DIRECTORY_ARRAY_SIZE as usize)
+                .enumerate()
+            {
+                self.local_depths[i] = u32::from(entry[0]);
+                let page_id = u32::from_le_bytes([entry[1], entry[2], entry[3], entry[4]]);
+                self.bucket_page_ids[i] = match page_id {
+                    u32::MAX => INVALID_PAGE_ID,
+                    id => PageId::from(id),
+                };
+            }
+        }
         self.is_dirty = true;
         Ok(())
     }
diff --git a/src/storage/page/page_types/extendable_hash_table_header_page.rs b/src/storage/page/page_types/extendable_hash_table_header_page.rs
index dbd01d6..f095290 100644
--- a/src/storage/page/page_types/extendable_hash_table_header_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_header_page.rs
@@ -296,6 +296,17 @@ impl PageTrait for ExtendableHTableHeaderPage {
         &self.data
     }
 
+    /// Layout: type byte, global depth, then the directory page ids (4 bytes each).
+    fn to_bytes(&self) -> Vec<u8> {
+        let mut data = vec![Self::TYPE_ID.to_u8(), self.global_depth as u8];
+        for page_id in self.directory_page_ids.iter().take(HTABLE_HEADER_ARRAY_SIZE) {
+            let page_id = u32::try_from(*page_id).unwrap_or(u32::MAX);
+            data.extend_from_slice(&page_id.to_le_bytes());
+        }
+        data.resize(DB_PAGE_SIZE as usize, 0);
+        data
+    }
+
     fn get_data_mut(&mut self) -> &mut [u8; DB_PAGE_SIZE as usize] {
         &mut self.data
     }
@@ -308,6 +319,18 @@ impl PageTrait for ExtendableHTableHeaderPage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image replaces the decoded header as well.
+        if offset == 0 && new_data.len() == self.data.len() {
+            self.global_depth = u32::from(new_data[1]);
+            self.directory_page_ids = new_data[2..]
+                .chunks_exact(4)
+                .take(HTABLE_HEADER_ARRAY_SIZE)
+                .map(|b| match u32::from_le_bytes([b[0], b[1], b[2], b[3]]) {
+                    u32::MAX => INVALID_PAGE_ID,
+                    id => PageId::from(id),
+                })
+                .collect();
+        }
         self.is_dirty = true;
         Ok(())
     }
diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index d5a5acc..ce1d46f 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -1201,6 +1201,10 @@ impl PageTrait for TablePage {
         &self.data
     }
 
+    fn to_bytes(&self) -> Vec<u8> {
+        self.serialize().to_vec()
+    }
+
     fn get_data_mut(&mut self) -> &mut [u8; DB_PAGE_SIZE as usize] {
         &mut self.data
     }
@@ -1213,6 +1217,14 @@ impl PageTrait for TablePage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image replaces the decoded header and tuple directory as well.
+        if offset == 0
+            && let Ok(image) = <&[u8; DB_PAGE_SIZE as usize]>::try_from(new_data)
+            && let Ok(page) = Self::deserialize(image)
+        {
+            self.header = page.header;
+            self.tuple_info = page.tuple_info;
+        }
         self.is_dirty = true;
         Ok(())
     }
-- 
2.43.0


From 933163c5dd8b215c8b144a6cab062f6ff78e1207 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 07/81] fix: waiting for an I/O operation no longer misses a
 completion between the status check and the subscription

---
 src/storage/disk/async_disk/io/completion.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 5005114..7d1e8f3 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -548,6 +548,9 @@ impl CompletionTracker {
         op_id: OperationId,
         wait_timeout: Duration,
     ) -> Result<OperationResult, String> {
+        // Subscribe before looking at the status, so a completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // First check if the operation is already completed
         {
             let operations = self.operations.read().await;
@@ -567,9 +570,6 @@ impl CompletionTracker {
             }
         }
 
-        // Subscribe to operation completion events
-        let mut event_receiver = self.event_sender.subscribe();
-
         // Use tokio::select to wait for either the operation completion or timeout
         tokio::select! {
             // Wait for operation completion event
@@ -805,6 +805,9 @@ impl CompletionTracker {
             return Ok(Vec::new());
         }
 
+        // Subscribe before looking at the statuses, so a completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         let mut results = Vec::new();
         let mut remaining_ids: std::collections::HashSet<OperationId> =
             op_ids.iter().copied().collect();
@@ -839,9 +842,6 @@ impl CompletionTracker {
             return Ok(results);
         }
 
-        // Subscribe to events for remaining operations
-        let mut event_receiver = self.event_sender.subscribe();
-
         tokio::select! {
             // Wait for all remaining operations
             _ = async {
-- 
2.43.0


From b9f22e7612ba2c40f250688afcc8fec027c74b6a Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 08/81] fix: storing a page refreshes every cached copy of it,
 so no tier serves older content

---
 .../disk/async_disk/cache/cache_manager.rs    | 44 +++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..ac4f5e3 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -1221,17 +1221,56 @@ impl CacheManager {
     /// for _ in 0..10 {
     ///     cache.get_page(42);  // Eventually promoted to hot
     /// }
+
+    /// Replaces every copy of a page that some tier still holds. Whether the new content is admitted,
+    /// deduplicated or placed in another tier, an older copy must not be served any more.
+    fn refresh_cached_copies(&self, page_id: PageId, data: &Arc<Vec<u8>>) {
+        // The tiers' locks are only held for single operations, never across an await point
+        fn lock<T>(tier: &RwLock<T>) -> tokio::sync::RwLockWriteGuard<'_, T> {
+            loop {
+                if let Ok(guard) = tier.try_write() {
+                    return guard;
+                }
+                std::thread::yield_now();
+            }
+        }
+        let page_data = |temperature| PageData {
+            data: Arc::clone(data),
+            last_accessed: Instant::now(),
+            access_count: 1,
+            temperature,
+        };
+
+        let mut hot = lock(&self.hot_cache);
+        if hot.contains(&page_id) {
+            hot.insert(page_id, Arc::clone(data));
+        }
+        drop(hot);
+        let mut warm = lock(&self.warm_cache);
+        if warm.contains(&page_id) {
+            warm.insert(page_id, page_data(DataTemperature::Warm));
+        }
+        drop(warm);
+        let mut cold = lock(&self.cold_cache);
+        if cold.contains(&page_id) {
+            cold.insert(page_id, page_data(DataTemperature::Cold));
+        }
+    }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        let data_arc = Arc::new(data);
+        self.refresh_cached_copies(page_id, &data_arc);
+        let data = data_arc.as_slice();
+
         // Check admission controller first
-        if !self.should_admit_page(page_id, &data) {
+        if !self.should_admit_page(page_id, data) {
             return;
         }
 
         // Check for duplicate pages
         let mut should_store = true;
         if let Ok(mut dedup) = self.dedup_engine.try_write()
-            && let Some(_existing_page) = dedup.check_duplicate(page_id, &data)
+            && let Some(_existing_page) = dedup.check_duplicate(page_id, data)
         {
             // This is a duplicate page, don't store it
             should_store = false;
@@ -1246,7 +1285,6 @@ impl CacheManager {
         let temperature = self.determine_data_temperature(page_id);
 
         // Wrap data in Arc for efficient sharing between cache levels
-        let data_arc = Arc::new(data);
 
         match temperature {
             DataTemperature::Hot => {
-- 
2.43.0


From f01ac2d5548ec579f280686ed776486ab8873581 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 09/81] fix: a heap LFU cache of capacity zero holds nothing

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..e97eb47 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,11 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        // A cache without capacity holds nothing
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From 476e91afc3dc17962a3566057357bfe2d411c445 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 10/81] fix: reads see writes waiting to be flushed, a full
 staging buffer keeps the incoming page, failed flushes keep theirs, and
 scheduled I/O is executed by its submitters

---
 src/storage/disk/async_disk/manager.rs        | 115 ++++++++++++++++--
 .../disk/async_disk/memory/write_manager.rs   |  38 ++++--
 .../async_disk/memory/write_staging_buffer.rs |  22 ++++
 3 files changed, 161 insertions(+), 14 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..6ec2c33 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -287,6 +287,9 @@ pub struct AsyncDiskManager {
     // State tracking
     is_shutting_down: Arc<AtomicBool>,
     background_tasks: Mutex<Vec<JoinHandle<()>>>,
+    // Held exclusively while a write is staged and while drained pages go to disk, and shared while
+    // a page is read from below the cache, so a read sees every write that completed before it.
+    flush_lock: RwLock<()>,
 }
 
 impl DurabilityProvider for AsyncDiskManager {
@@ -401,6 +404,7 @@ impl AsyncDiskManager {
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
+            flush_lock: RwLock::new(()),
         };
 
         info!(
@@ -469,6 +473,7 @@ impl AsyncDiskManager {
         priority: IOPriority,
         start_time: Instant,
     ) -> IoResult<Vec<u8>> {
+        let _reading = self.flush_lock.read().await;
         let (sender, receiver) = oneshot::channel();
 
         let task = IOTask {
@@ -488,7 +493,7 @@ impl AsyncDiskManager {
         }
 
         // Wait for completion
-        match receiver.await {
+        match self.drive_until(receiver).await {
             Ok(Ok(data)) => {
                 let elapsed = start_time.elapsed();
                 debug!(
@@ -526,7 +531,8 @@ impl AsyncDiskManager {
         page_id: PageId,
         start_time: Instant,
     ) -> IoResult<Vec<u8>> {
-        let data = self.io_engine.read().await.read_page(page_id).await?;
+        let _reading = self.flush_lock.read().await;
+        let data = self.read_below_cache(page_id).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -587,6 +593,7 @@ impl AsyncDiskManager {
 
         // Buffer the write using write manager
         debug!("Buffering write for page {}", page_id);
+        let writing = self.flush_lock.write().await;
         let flushed_pages = self
             .write_manager
             .buffer_write(page_id, data.clone(), self)
@@ -606,6 +613,7 @@ impl AsyncDiskManager {
             );
             self.write_pages_to_disk(pages).await?;
         }
+        drop(writing);
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -652,12 +660,14 @@ impl AsyncDiskManager {
         let start_time = std::time::Instant::now();
 
         // Get buffered pages to flush
+        let flushing = self.flush_lock.write().await;
         let pages = self.write_manager.force_flush(self).await?;
 
         if !pages.is_empty() {
             debug!("Flushing {} pages to disk", pages.len());
             self.write_pages_to_disk(pages.clone()).await?;
         }
+        drop(flushing);
 
         // Apply durability based on configuration
         // Note: write_manager.force_flush(self) already applies durability if configured,
@@ -683,6 +693,81 @@ impl AsyncDiskManager {
         Ok(())
     }
 
+    /// Reads the latest content of a page that is not in the cache: from the writes waiting to be
+    /// flushed if it is among them, from disk otherwise. The caller holds `flush_lock`.
+    async fn read_below_cache(&self, page_id: PageId) -> IoResult<Vec<u8>> {
+        match self.write_manager.get_buffered_page(page_id).await {
+            Some(data) => Ok(data),
+            None => self.io_engine.read().await.read_page(page_id).await,
+        }
+    }
+
+    /// Takes the next task out of the scheduler's queues, whichever worker it was assigned to.
+    async fn next_scheduled_task(&self) -> Option<IOTask> {
+        for worker_id in 0..self.config.io_threads {
+            let mut receiver = self.scheduler.get_worker_receiver(worker_id).lock().await;
+            if let Ok(task) = receiver.try_recv() {
+                return Some(task);
+            }
+        }
+        None
+    }
+
+    /// Executes scheduled tasks until the caller's own task has completed. The submitters drive the
+    /// scheduler themselves, so a queued task never waits for a worker that does not exist.
+    async fn drive_until(
+        &self,
+        mut receiver: oneshot::Receiver<IoResult<Vec<u8>>>,
+    ) -> Result<IoResult<Vec<u8>>, oneshot::error::RecvError> {
+        loop {
+            match receiver.try_recv() {
+                Ok(result) => return Ok(result),
+                Err(oneshot::error::TryRecvError::Closed) => return receiver.await,
+                Err(oneshot::error::TryRecvError::Empty) => {},
+            }
+            match self.next_scheduled_task().await {
+                Some(task) => {
+                    let result = self.run_scheduled_task(task.task_type).await;
+                    if let Some(callback) = task.completion_callback {
+                        let _ = callback.send(result);
+                    }
+                },
+                // Another submitter has taken the task and will complete it
+                None => return receiver.await,
+            }
+        }
+    }
+
+    /// Executes one scheduled task against the I/O engine.
+    async fn run_scheduled_task(&self, task: IOTaskType) -> IoResult<Vec<u8>> {
+        match task {
+            IOTaskType::Read(page_id) => self.read_below_cache(page_id).await,
+            IOTaskType::BatchRead(page_ids) | IOTaskType::Prefetch(page_ids) => {
+                let mut data = Vec::with_capacity(page_ids.len() * DB_PAGE_SIZE as usize);
+                for page_id in page_ids {
+                    data.extend(self.read_below_cache(page_id).await?);
+                }
+                Ok(data)
+            },
+            IOTaskType::Write(page_id, data) => {
+                let io_engine = self.io_engine.read().await;
+                io_engine.write_page(page_id, &data).await?;
+                Ok(Vec::new())
+            },
+            IOTaskType::BatchWrite(pages) => {
+                let io_engine = self.io_engine.read().await;
+                for (page_id, data) in &pages {
+                    io_engine.write_page(*page_id, data).await?;
+                }
+                Ok(Vec::new())
+            },
+            IOTaskType::Flush | IOTaskType::Sync => {
+                self.sync().await?;
+                Ok(Vec::new())
+            },
+        }
+    }
+
     /// Schedules a batch write operation through the scheduler
     async fn schedule_batch_write_operation(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
         let (sender, receiver) = oneshot::channel();
@@ -707,7 +792,7 @@ impl AsyncDiskManager {
         }
 
         // Wait for completion
-        match receiver.await {
+        match self.drive_until(receiver).await {
             Ok(Ok(_)) => {
                 debug!("Scheduled batch write completed for {} pages", pages.len());
                 Ok(())
@@ -725,13 +810,21 @@ impl AsyncDiskManager {
 
     /// Writes multiple pages to disk
     async fn write_pages_to_disk(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
+        if let Err(e) = self.try_write_pages_to_disk(&pages).await {
+            self.write_manager.restore_pages(pages).await;
+            return Err(e);
+        }
+        Ok(())
+    }
+
+    async fn try_write_pages_to_disk(&self, pages: &[(PageId, Vec<u8>)]) -> IoResult<()> {
         debug!("Writing {} pages to disk", pages.len());
         let start_time = Instant::now();
         let mut total_bytes = 0;
 
         let io_engine = self.io_engine.read().await;
 
-        for (page_id, data) in &pages {
+        for (page_id, data) in pages {
             trace!(
                 "Writing page {} to disk (size: {} bytes)",
                 page_id,
@@ -743,7 +836,7 @@ impl AsyncDiskManager {
 
         // Apply durability policy if needed
         debug!("Applying durability policy for {} pages", pages.len());
-        self.write_manager.apply_durability(&pages, self).await?;
+        self.write_manager.apply_durability(pages, self).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -801,6 +894,7 @@ impl AsyncDiskManager {
     /// Schedules a batch read operation through the scheduler
     async fn schedule_batch_read_operation(&self, page_ids: Vec<PageId>) -> IoResult<Vec<Vec<u8>>> {
         let start_time = Instant::now();
+        let _reading = self.flush_lock.read().await;
         let (sender, receiver) = oneshot::channel();
 
         let task = IOTask {
@@ -823,7 +917,7 @@ impl AsyncDiskManager {
         }
 
         // Wait for completion
-        match receiver.await {
+        match self.drive_until(receiver).await {
             Ok(Ok(data)) => {
                 debug!(
                     "Scheduled batch read completed for {} pages",
@@ -896,6 +990,7 @@ impl AsyncDiskManager {
             for (page_id, data) in chunk {
                 Self::validate_page_data_len(data.len())?;
                 trace!("Buffering page {} in batch write", page_id);
+                let _writing = self.flush_lock.write().await;
                 let flushed_pages = self
                     .write_manager
                     .buffer_write(*page_id, data.clone(), self)
@@ -1045,6 +1140,7 @@ impl AsyncDiskManager {
     /// Forces flush of all pending writes
     pub async fn force_flush_all(&self) -> IoResult<()> {
         warn!("Force flush all requested");
+        let flushing = self.flush_lock.write().await;
         let pages = self.write_manager.force_flush(self).await?;
 
         if !pages.is_empty() {
@@ -1052,12 +1148,17 @@ impl AsyncDiskManager {
 
             // Use scheduler for large batches if work-stealing is enabled
             if self.config.work_stealing_enabled && pages.len() > self.config.batch_size {
-                self.schedule_batch_write_operation(pages).await?;
+                if let Err(e) = self.schedule_batch_write_operation(pages.clone()).await {
+                    self.write_manager.restore_pages(pages).await;
+                    return Err(e);
+                }
             } else {
                 self.write_pages_to_disk(pages).await?;
             }
         }
 
+        drop(flushing);
+
         // Force sync regardless of policy
         debug!("Force syncing to disk");
         self.sync().await?;
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 4761017..5c3a92b 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -316,7 +316,7 @@ impl WriteManager {
         );
 
         // Step 2: Add to buffer manager with compression
-        let needs_flush = {
+        let (accepted, needs_flush) = {
             let mut buffer = self.buffer_manager.lock().await;
             let stats_before = buffer.get_stats();
             log::debug!(
@@ -325,7 +325,7 @@ impl WriteManager {
                 stats_before.buffer_size_bytes
             );
 
-            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data)?;
+            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data.clone())?;
 
             let stats_after = buffer.get_stats();
             log::debug!(
@@ -337,7 +337,7 @@ impl WriteManager {
 
             if !buffer_accepted {
                 log::debug!("WriteManager::buffer_write buffer full, needs flush");
-                true // Buffer is full, needs flush
+                (false, true) // Buffer is full, needs flush
             } else {
                 // Check if we should flush based on coordinator's decisions
                 let stats = buffer.get_stats();
@@ -355,12 +355,22 @@ impl WriteManager {
                     flush_decision,
                     should_flush
                 );
-                should_flush
+                (true, should_flush)
             }
         };
 
         // Step 3: Coordinate flush if needed
-        let flushed_pages = if needs_flush {
+        let flushed_pages = if !accepted {
+            // The full buffer did not take the page: stage it once the buffer has been drained, or
+            // hand it back with the flushed pages if it does not fit an empty buffer either.
+            let mut pages = self.force_flush(provider).await?;
+            let mut buffer = self.buffer_manager.lock().await;
+            if !buffer.buffer_write(page_id, coalesced_data.clone())? {
+                pages.retain(|(id, _)| *id != page_id);
+                pages.push((page_id, coalesced_data));
+            }
+            if pages.is_empty() { None } else { Some(pages) }
+        } else if needs_flush {
             log::debug!("WriteManager::buffer_write triggering flush");
             let pages = self.flush(provider).await?;
             log::debug!(
@@ -500,10 +510,14 @@ impl WriteManager {
         );
 
         // Step 2: Apply durability guarantees
-        let _durability_result = self
+        if let Err(e) = self
             .durability_manager
             .apply_durability(&pages_to_flush, provider)
-            .await?;
+            .await
+        {
+            self.restore_pages(pages_to_flush).await;
+            return Err(e);
+        }
 
         log::debug!(
             "WriteManager::flush_internal completed successfully with {} pages",
@@ -512,6 +526,16 @@ impl WriteManager {
         Ok(pages_to_flush)
     }
 
+    /// Stages again pages that were drained for a flush that failed.
+    pub async fn restore_pages(&self, pages: Vec<(PageId, Vec<u8>)>) {
+        self.buffer_manager.lock().await.restore_pages(pages);
+    }
+
+    /// Returns the content of a page whose latest write has not been flushed yet.
+    pub async fn get_buffered_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer_manager.lock().await.get(page_id)
+    }
+
     /// Checks if a flush should be performed based on current state
     pub async fn should_flush(&self) -> bool {
         let buffer = self.buffer_manager.lock().await;
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bd189dc..17dbf22 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -325,6 +325,28 @@ impl WriteStagingBuffer {
         Ok(true)
     }
 
+    /// Puts back pages whose flush failed, unless they were written again meanwhile.
+    pub fn restore_pages(&mut self, pages: Vec<(PageId, Vec<u8>)>) {
+        for (page_id, data) in pages {
+            if let std::collections::hash_map::Entry::Vacant(slot) = self.buffer.buffer.entry(page_id)
+            {
+                self.buffer
+                    .buffer_size_bytes
+                    .fetch_add(data.len(), Ordering::Relaxed);
+                self.buffer.dirty_pages.fetch_add(1, Ordering::Relaxed);
+                slot.insert(data);
+            }
+        }
+    }
+
+    /// Returns the staged content of a page, if a write of it is waiting to be flushed.
+    pub fn get(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer
+            .buffer
+            .get(&page_id)
+            .map(|data| self.decompress_data(data))
+    }
+
     /// Drains all buffered writes and resets buffer state
     pub fn drain_buffer(&mut self) -> Vec<(PageId, Vec<u8>)> {
         let pages = self.buffer.buffer.drain().collect();
-- 
2.43.0


From 60df0a2e4387c2987497a4ce564c66a5489f9a96 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 11/81] fix: a table scan reports the location of the tuple it
 returned, not of the deleted one it skipped

---
 src/storage/table/table_iterator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index cadab87..96d2721 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -422,7 +422,6 @@ impl Iterator for TableScanIterator {
             return None;
         }
 
-        let current_rid = self.inner.get_rid();
         let result = self.inner.next();
 
         // Update end status
@@ -430,7 +429,7 @@ impl Iterator for TableScanIterator {
             self.is_end = true;
             self.last_rid = None;
         } else {
-            self.last_rid = Some(current_rid);
+            self.last_rid = self.inner.get_last_rid();
         }
 
         result
@@ -441,10 +440,9 @@ impl Iterator for TableIterator {
     type Item = (Arc<TupleMeta>, Arc<Tuple>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Capture the RID we are about to return; `advance` will move to the next slot.
-        let current_rid = self.current_rid;
-
         while !self.is_end() {
+            // Capture the RID we may return; `advance` will move to the next slot.
+            let current_rid = self.current_rid;
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
             let result = if let Some(txn_ctx) = &self.txn_ctx {
-- 
2.43.0


From 9c17edfb01467a39731bb52ea88b6a6cd1da413a Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 12/81] fix: merging inner nodes of the in-memory B+ tree keeps
 the other separators, inserts find duplicates in other leaves, and index
 iterators end after their range

---
 src/storage/index/b_plus_tree.rs        | 50 +++++++++++++-------
 src/storage/index/index_iterator_mem.rs | 63 +++++--------------------
 2 files changed, 44 insertions(+), 69 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index bf87947..ec0ea35 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -180,6 +180,16 @@ impl BPlusTree {
     pub fn insert(&mut self, key: Value, rid: RID) -> bool {
         debug!("Inserting key {:?} with RID {:?}", key, rid);
 
+        // Entries with this key can span several leaves
+        if self
+            .entries_between(&key, &key, true)
+            .iter()
+            .any(|(_, existing)| *existing == rid)
+        {
+            debug!("Key-RID pair already present");
+            return false;
+        }
+
         let root_is_full = {
             let root_guard = self.root.read();
             let is_full = root_guard.keys.len() == self.order - 1;
@@ -312,9 +322,19 @@ impl BPlusTree {
         end_key: &Tuple,
         include_end: bool,
     ) -> Result<Vec<(Value, RID)>, String> {
-        let start_key = self.extract_key(start_key);
-        let end_key = self.extract_key(end_key);
+        Ok(self.entries_between(
+            &self.extract_key(start_key),
+            &self.extract_key(end_key),
+            include_end,
+        ))
+    }
 
+    fn entries_between(
+        &self,
+        start_key: &Value,
+        end_key: &Value,
+        include_end: bool,
+    ) -> Vec<(Value, RID)> {
         debug!("Starting range scan from {:?} to {:?}", start_key, end_key);
         let mut current_node = Arc::clone(&self.root);
         let mut entries = Vec::new();
@@ -329,7 +349,7 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(&start_key) == CmpBool::CmpTrue)
+                        .position(|k| k.compare_greater_than_equals(start_key) == CmpBool::CmpTrue)
                         .unwrap_or(0);
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
@@ -351,14 +371,14 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(&start_key) == CmpBool::CmpTrue {
+                if key.compare_less_than(start_key) == CmpBool::CmpTrue {
                     continue;
                 }
-                if key.compare_greater_than(&end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(&end_key) == CmpBool::CmpTrue)
+                if key.compare_greater_than(end_key) == CmpBool::CmpTrue
+                    || (!include_end && key.compare_equals(end_key) == CmpBool::CmpTrue)
                 {
                     debug!("Found key beyond range, ending scan");
-                    return Ok(entries);
+                    return entries;
                 }
                 debug!("Found entry in range - Key: {:?}, RID: {:?}", key, rid);
                 entries.push((key.clone(), *rid));
@@ -380,7 +400,7 @@ impl BPlusTree {
         }
 
         debug!("Scan complete, collected {} entries", entries.len());
-        Ok(entries)
+        entries
     }
 
     pub fn scan_full(&self) -> Result<Vec<(Value, RID)>, String> {
@@ -1003,6 +1023,8 @@ impl BPlusTree {
                 left.values.append(&mut right.values);
                 // Update leaf node links
                 left.next_leaf = right.next_leaf.take();
+                // The separator between the two goes away with them
+                parent.keys.remove(child_idx - 1);
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left sibling
@@ -1018,11 +1040,6 @@ impl BPlusTree {
         // Remove the right child from parent
         parent.children.remove(child_idx);
 
-        // Remove the separator key from parent if it exists
-        if child_idx - 1 < parent.keys.len() {
-            parent.keys.remove(child_idx - 1);
-        }
-
         debug!("Merge complete - Parent keys: {:?}", parent.keys);
     }
 
@@ -1041,6 +1058,8 @@ impl BPlusTree {
                 left.values.append(&mut right.values);
                 // Update leaf node links
                 left.next_leaf = right.next_leaf.take();
+                // The separator between the two goes away with them
+                parent.keys.remove(child_idx);
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left node
@@ -1056,11 +1075,6 @@ impl BPlusTree {
         // Remove the right sibling from parent
         parent.children.remove(child_idx + 1);
 
-        // Remove the separator key from parent
-        if child_idx < parent.keys.len() {
-            parent.keys.remove(child_idx);
-        }
-
         debug!("Merge complete - Parent keys: {:?}", parent.keys);
     }
 
diff --git a/src/storage/index/index_iterator_mem.rs b/src/storage/index/index_iterator_mem.rs
index f54349c..69a408c 100644
--- a/src/storage/index/index_iterator_mem.rs
+++ b/src/storage/index/index_iterator_mem.rs
@@ -210,56 +210,13 @@ impl IndexIterator {
 
             // Range scan case
             (Some(start), Some(end)) => {
-                let scan_start = if let Some(last_key) = &self.last_key {
-                    let schema = start.get_schema();
-                    let mut values = start.get_values();
-
-                    // Continue from the last processed key.
-                    //
-                    // NOTE: The B+ tree currently only supports a single key column.
-                    // We still validate the attribute index against the tuple to avoid panics.
-                    // Keep the metadata Arc alive while borrowing key attrs.
-                    let metadata = tree_guard.get_metadata();
-                    let key_attr = *metadata
-                        .get_key_attrs()
-                        .first()
-                        .expect("B+ tree metadata must have at least one key attribute");
-
-                    if let Err(e) = start.keys_from_tuple_checked(&[key_attr]) {
-                        let msg = format!(
-                            "invalid start_key for index range scan: missing key_attr {} (tuple cols={}): {}",
-                            key_attr,
-                            start.get_column_count(),
-                            e
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    if key_attr >= values.len() {
-                        let msg = format!(
-                            "invalid start_key for index range scan: key_attr {} out of bounds (values len={})",
-                            key_attr,
-                            values.len()
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    values[key_attr] = last_key.clone();
-
-                    // Create a new tuple with the modified values
-                    let new_start = Arc::new(Tuple::new(&values, &schema, RID::new(0, 0)));
-                    debug!("Continuing range scan from key: {:?}", new_start);
-                    new_start
-                } else {
-                    debug!("Starting fresh range scan from: {:?}", start);
-                    start.clone()
-                };
-
-                tree_guard.scan_range(&scan_start, end, self.last_key.is_none())
+                if self.last_key.is_some() {
+                    debug!("Already completed range scan");
+                    self.exhausted = true;
+                    return Ok(false);
+                }
+                debug!("Starting fresh range scan from: {:?}", start);
+                tree_guard.scan_range(start, end, true)
             },
             _ => {
                 let msg =
@@ -303,6 +260,7 @@ impl IndexIterator {
         self.current_batch.clear();
         self.position = 0;
         self.exhausted = false;
+        self.last_key = None;
         self.last_error = None;
         // Ignore errors here; callers can observe them via `try_next()` which is fallible.
         let _ = self.fetch_next_batch();
@@ -355,7 +313,7 @@ impl Iterator for IndexIterator {
 // Add support for reverse iteration
 impl DoubleEndedIterator for IndexIterator {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current_batch.is_empty() {
+        if self.position >= self.current_batch.len() {
             return None;
         }
 
@@ -388,6 +346,9 @@ impl IndexIterator {
             if let Some(end) = &self.end_key {
                 let mut results = tree_guard.scan_range(seek_key, end, true)?;
                 self.current_batch.append(results.as_mut());
+                // Nothing is left to fetch after these
+                self.last_key = self.current_batch.last().map(|(key, _)| key.clone());
+                self.exhausted = self.current_batch.is_empty();
             }
         } // tree_guard is dropped here
 
-- 
2.43.0


From 11ae27b859e06c1c2fdedae288ecd3e540d037c0 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 13/81] fix: the buffer pool loads a page once, keeps pinned
 pages, and writes out new pages; batch loads keep their order

---
 src/buffer/buffer_pool_manager_async.rs | 734 ++++++++++++------------
 src/storage/disk/async_disk/manager.rs  |   9 +
 2 files changed, 368 insertions(+), 375 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d786c72..e571c79 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -204,14 +204,14 @@
 //! - **Pinning/Unpinning**: Prevents eviction of pages in use by execution threads
 //! - **Replacement Policy**: Uses `LRUKReplacer` for access-frequency-based eviction
 //! - **Cache Coordination**: Manages L1/L2 cache interaction and efficiency
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::fmt::Debug;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use log::{error, info, trace, warn};
-use parking_lot::{RwLock, RwLockReadGuard};
+use parking_lot::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard};
 
 use crate::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
 use crate::common::config::{DB_PAGE_SIZE, FrameId, INVALID_PAGE_ID, PageId};
@@ -230,6 +230,56 @@ type PageCollection = Arc<RwLock<Vec<Option<Arc<RwLock<dyn PageTrait>>>>>>;
 /// Type alias for the page table mapping page IDs to their frame locations.
 type PageTable = Arc<RwLock<HashMap<PageId, FrameId>>>;
 
+/// Which pages are in use, and which are on their way in or out.
+///
+/// This is the lock that decides between fetching a page and reusing its frame: it is taken before the page
+/// table, the free list and the replacer, and never while waiting for a page lock or for I/O.
+#[derive(Debug, Default)]
+struct Residency {
+    /// Number of guards per resident page
+    pins: HashMap<PageId, usize>,
+    /// Pages being loaded, or written out by an eviction
+    in_transit: HashSet<PageId>,
+    /// New pages that are not on disk yet, whether they were changed or not
+    unwritten: HashSet<PageId>,
+    /// How many pages have left the pool so far
+    departures: u64,
+}
+
+/// A page that is neither in the pool nor evicted yet; the others wait until this is dropped.
+struct Transit<'a> {
+    pool: &'a BufferPoolManager,
+    page_id: PageId,
+}
+
+impl Drop for Transit<'_> {
+    fn drop(&mut self) {
+        self.pool.residency().in_transit.remove(&self.page_id);
+        self.pool.residency.1.notify_all();
+    }
+}
+
+/// A pin that does not count as an access: it keeps a page in its frame while the pool works on it.
+struct Held<'a> {
+    pool: &'a BufferPoolManager,
+    page_id: PageId,
+    page: Arc<RwLock<dyn PageTrait>>,
+}
+
+impl Drop for Held<'_> {
+    fn drop(&mut self) {
+        self.pool.release_pin(self.page_id, None);
+    }
+}
+
+/// What a fetch finds
+enum Arrival<'a> {
+    /// The page is in the pool, and now pinned
+    Resident(Arc<RwLock<dyn PageTrait>>),
+    /// The page is not in the pool, and the caller is the one to load it
+    Claimed(Transit<'a>),
+}
+
 /// The `BufferPoolManager` is responsible for managing the buffer pool,
 /// including fetching and unpinning pages, and handling page replacement.
 ///
@@ -241,7 +291,7 @@ pub struct BufferPoolManager {
     /// Maximum number of frames in the buffer pool.
     pool_size: usize,
     /// Atomic counter for generating unique page IDs.
-    next_page_id: AtomicU64,
+    next_page_id: Arc<AtomicU64>,
     /// Collection of page frames (L1 cache).
     pages: PageCollection,
     /// Mapping from page IDs to frame IDs.
@@ -250,6 +300,8 @@ pub struct BufferPoolManager {
     replacer: Arc<RwLock<LRUKReplacer>>,
     /// List of unoccupied frame IDs available for new pages.
     free_list: Arc<RwLock<Vec<FrameId>>>,
+    /// Pins and pages on their way in or out.
+    residency: Arc<(Mutex<Residency>, Condvar)>,
     /// Async disk manager for I/O operations (L2 cache + storage).
     disk_manager: Arc<AsyncDiskManager>,
     /// Whether to use the disk manager's read cache (L2).
@@ -329,11 +381,12 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: AtomicU64::new(0),
+            next_page_id: Arc::new(AtomicU64::new(disk_manager.initial_page_count())),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
             free_list: Arc::new(RwLock::new(free_list)),
+            residency: Arc::new((Mutex::new(Residency::default()), Condvar::new())),
             disk_manager,
             use_disk_manager_cache,
             bypass_disk_cache_for_pinned,
@@ -426,12 +479,11 @@ impl BufferPoolManager {
         let frame_id = self.get_available_frame()?;
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page::<T>(new_page_id);
+        self.residency().unwritten.insert(new_page_id);
         self.update_page_metadata(frame_id, new_page_id, &new_page);
 
         trace!("Created new page {} in frame {}", new_page_id, frame_id);
@@ -466,12 +518,11 @@ impl BufferPoolManager {
         let frame_id = self.get_available_frame()?;
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page_with_constructor::<T, F>(new_page_id, constructor);
+        self.residency().unwritten.insert(new_page_id);
         self.update_page_metadata(frame_id, new_page_id, &new_page);
 
         trace!(
@@ -495,28 +546,9 @@ impl BufferPoolManager {
     pub fn write_page(&self, page_id: PageId, data: [u8; DB_PAGE_SIZE as usize]) {
         trace!("Writing to page with ID: {}", page_id);
 
-        // Acquire read lock on the page collection
-        let pages = self.pages.read();
-
-        // Find the target page
-        let mut target_page = None;
-        for (i, page_opt) in pages.iter().enumerate() {
-            if let Some(page) = page_opt {
-                let page_data = page.read(); // Acquire read lock on the page
-                if page_data.get_page_id() == page_id {
-                    // Access trait method directly
-                    target_page = Some((page.clone(), i));
-                    break;
-                }
-            }
-        }
-
-        // Drop the read lock before acquiring the write lock on the target page
-        drop(pages);
-
-        if let Some((page, _index)) = target_page {
+        if let Some(held) = self.hold(page_id) {
             // Acquire write lock on the target page
-            let mut page_data = page.write();
+            let mut page_data = held.page.write();
 
             // Update the page data - access trait methods directly
             let _ = page_data.set_data(0, &data);
@@ -547,68 +579,21 @@ impl BufferPoolManager {
             return None;
         }
 
-        // Check if page is already in memory
-        if let Some(page) = self.get_page_internal(page_id) {
-            // Verify page type
-            let actual_type = {
-                let page_read = page.read();
-                let type_byte = page_read.get_data()[PAGE_TYPE_OFFSET];
-                let page_type = PageType::from_u8(type_byte);
-                trace!(
-                    "Page {} in memory - Type byte: {}, Parsed type: {:?}, Expected: {:?}",
-                    page_id,
-                    type_byte,
-                    page_type,
-                    T::TYPE_ID
-                );
-                page_type
-            };
-
-            if actual_type != Some(T::TYPE_ID) {
-                warn!(
-                    "Page type mismatch: expected {:?}, found {:?}",
-                    T::TYPE_ID,
-                    actual_type
-                );
-                return None;
-            }
-
-            // Mark frame as non-evictable while pinned and record access.
-            if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-                let mut replacer = self.replacer.write();
-                replacer.record_access(frame_id, AccessType::Unknown);
-                replacer.set_evictable(frame_id, false);
-            }
-
-            // Create new guard (which will increment pin count)
-            let typed_page = unsafe {
-                let raw = Arc::into_raw(page) as *const RwLock<T>;
-                Arc::from_raw(raw)
-            };
-
-            let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-            let unpinner: Arc<dyn PageUnpinner> = unpinner;
-            return Some(PageGuard::new(typed_page, page_id, Some(unpinner)));
+        match self.pin_or_claim(page_id) {
+            Arrival::Resident(page) => self.create_guard_from_existing::<T>(page_id, page),
+            // Page not in memory, need to load from disk
+            Arrival::Claimed(transit) => self.load_page_from_disk::<T>(transit),
         }
-
-        // Page not in memory, need to load from disk
-        self.load_page_from_disk::<T>(page_id)
     }
 
     /// Enhanced page loading with coordinated caching
     fn load_page_from_disk<T: Page + 'static>(
         self: &Arc<Self>,
-        page_id: PageId,
+        transit: Transit<'_>,
     ) -> Option<PageGuard<T>> {
+        let page_id = transit.page_id;
         trace!("Loading page {} with cache coordination", page_id);
 
-        // Get available frame
-        let frame_id = self.get_available_frame()?;
-        trace!("Got available frame: {} for page load", frame_id);
-
-        // Evict if necessary
-        self.evict_page_if_necessary(frame_id);
-
         // Try to get page data using coordinated caching
         let page_data = if self.use_disk_manager_cache {
             self.load_page_with_cache_coordination(page_id)
@@ -616,25 +601,44 @@ impl BufferPoolManager {
             self.load_page_bypass_cache(page_id)
         };
 
-        let page_data = match page_data {
-            Ok(data) => data,
+        match page_data {
+            Ok(data) => self.install_loaded_page(transit, data),
             Err(e) => {
                 error!("Failed to load page {} : {}", page_id, e);
-                return None;
+                None
             },
-        };
+        }
+    }
+
+    /// Puts a page that was read from disk into a frame
+    fn install_loaded_page<T: Page + 'static>(
+        self: &Arc<Self>,
+        transit: Transit<'_>,
+        data: Vec<u8>,
+    ) -> Option<PageGuard<T>> {
+        let page_id = transit.page_id;
 
         // Verify page type and create page
-        if let Some(page_guard) = self.create_page_from_data::<T>(page_id, page_data) {
-            // Update metadata
-            let page_arc = page_guard.get_page().clone();
-            self.update_page_metadata(frame_id, page_id, &page_arc);
-            trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
-            Some(page_guard)
-        } else {
+        let Some(page_arc) = self.create_page_from_data::<T>(page_id, data) else {
             error!("Failed to create page {} from data", page_id);
-            None
-        }
+            return None;
+        };
+
+        // Get available frame
+        let frame_id = self.get_available_frame()?;
+        trace!("Got available frame: {} for page load", frame_id);
+
+        // Update metadata
+        self.update_page_metadata(frame_id, page_id, &page_arc);
+        trace!("Successfully loaded page {} in frame {}", page_id, frame_id);
+
+        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
+        let unpinner: Arc<dyn PageUnpinner> = unpinner;
+        Some(PageGuard::new_for_new_page(
+            page_arc,
+            page_id,
+            Some(unpinner),
+        ))
     }
 
     /// Load page with cache coordination between BPM and AsyncDiskManager
@@ -666,7 +670,7 @@ impl BufferPoolManager {
         self: &Arc<Self>,
         page_id: PageId,
         data: Vec<u8>,
-    ) -> Option<PageGuard<T>> {
+    ) -> Option<Arc<RwLock<T>>> {
         // Verify data size
         if data.len() < DB_PAGE_SIZE as usize {
             error!(
@@ -709,15 +713,10 @@ impl BufferPoolManager {
                 error!("Failed to set page data for page {}: {:?}", page_id, e);
                 return None;
             }
+            page_guard.set_dirty(false);
         }
 
-        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-        let unpinner: Arc<dyn PageUnpinner> = unpinner;
-        Some(PageGuard::new_for_new_page(
-            page_arc,
-            page_id,
-            Some(unpinner),
-        ))
+        Some(page_arc)
     }
 
     /// Unpins a page with the given page ID.
@@ -732,18 +731,12 @@ impl BufferPoolManager {
     pub fn unpin_page(&self, page_id: PageId, is_dirty: bool, access_type: AccessType) -> bool {
         trace!("Unpinning page {} (dirty: {})", page_id, is_dirty);
 
-        let page_table = self.page_table.read();
-        let frame_id = match page_table.get(&page_id) {
-            Some(&fid) => fid,
-            None => {
-                trace!("Page {} not found in page table", page_id);
-                return false;
-            },
+        let Some(page) = self.get_page_internal(page_id) else {
+            trace!("Page {} not found in the pool", page_id);
+            return false;
         };
-        drop(page_table);
 
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
+        {
             let mut page_guard = page.write();
 
             // Update dirty flag
@@ -753,54 +746,32 @@ impl BufferPoolManager {
 
             // Decrement pin count
             let pin_count = page_guard.get_pin_count();
-            if pin_count > 0 {
-                page_guard.set_pin_count(pin_count - 1);
-                trace!(
-                    "Page {} unpinned, new pin count: {}",
-                    page_id,
-                    pin_count - 1
-                );
-
-                // If pin count reaches 0, mark as evictable
-                if pin_count == 1 {
-                    let mut replacer = self.replacer.write();
-                    replacer.record_access(frame_id, access_type);
-                    replacer.set_evictable(frame_id, true);
-                    trace!("Page {} marked as evictable", page_id);
-                }
-
-                true
-            } else {
+            if pin_count == 0 {
                 warn!("Attempted to unpin page {} with pin count 0", page_id);
-                false
+                return false;
             }
-        } else {
-            warn!("Page {} not found in pages array", page_id);
-            false
+            page_guard.set_pin_count(pin_count - 1);
+            trace!(
+                "Page {} unpinned, new pin count: {}",
+                page_id,
+                pin_count - 1
+            );
         }
+
+        // If this was the last pin, the frame becomes evictable
+        self.release_pin(page_id, Some(access_type));
+        true
     }
 
     /// Flushes a page to disk asynchronously
     pub async fn flush_page_async(&self, page_id: PageId) -> Result<(), String> {
         trace!("Flushing page {} to disk", page_id);
 
-        let frame_id = {
-            let page_table = self.page_table.read();
-            *page_table
-                .get(&page_id)
-                .ok_or_else(|| format!("Page {} not found in page table", page_id))?
-        };
+        let held = self
+            .hold(page_id)
+            .ok_or_else(|| format!("Page {} not found in page table", page_id))?;
 
-        let page = {
-            let pages = self.pages.read();
-            pages
-                .get(frame_id as usize)
-                .and_then(|p| p.as_ref())
-                .ok_or_else(|| format!("Page {} not found in pages array", page_id))?
-                .clone()
-        };
-
-        self.write_page_to_disk_async(page_id, &page).await
+        self.write_page_to_disk_async(page_id, &held.page).await
     }
 
     /// Flushes all pages to disk asynchronously.
@@ -852,8 +823,10 @@ impl BufferPoolManager {
     pub fn deallocate_page(&mut self, page_id: PageId) {
         trace!("Deallocating page {}", page_id);
 
-        // Remove from page table
-        self.remove_page_from_table(page_id);
+        // Free its frame, unless somebody still uses it
+        if let Err(e) = self.delete_page(page_id) {
+            trace!("Page {} stays in the pool: {:?}", page_id, e);
+        }
 
         // Note: In a full implementation, we might want to track deallocated page IDs
         // for reuse, but for now we'll just remove it from the buffer pool
@@ -869,29 +842,21 @@ impl BufferPoolManager {
     pub fn delete_page(&self, page_id: PageId) -> Result<(), DeletePageError> {
         trace!("Deleting page {}", page_id);
 
+        let mut residency = self.settled(page_id);
         let frame_id = self.get_frame_id(page_id)?;
 
         // Check if page is pinned
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            if page_guard.get_pin_count() > 0 {
-                return Err(DeletePageError::PagePinned(page_id));
-            }
+        if residency.pins.contains_key(&page_id) {
+            return Err(DeletePageError::PagePinned(page_id));
         }
-        drop(pages);
 
         // Reset the frame
         self.reset_frame(frame_id)?;
 
         // Remove from page table
         self.remove_page_from_table(page_id);
-
-        // Add frame to free list
-        {
-            let mut free_list = self.free_list.write();
-            free_list.push(frame_id);
-        }
+        residency.departures += 1;
+        residency.unwritten.remove(&page_id);
 
         // Remove from replacer
         {
@@ -899,6 +864,12 @@ impl BufferPoolManager {
             replacer.remove(frame_id);
         }
 
+        // Add frame to free list
+        {
+            let mut free_list = self.free_list.write();
+            free_list.push(frame_id);
+        }
+
         trace!("Successfully deleted page {}", page_id);
         Ok(())
     }
@@ -952,133 +923,181 @@ impl BufferPoolManager {
         }
     }
 
-    /// Evicts the page in the specified frame if it exists and is unpinned.
-    fn evict_page_if_necessary(&self, frame_id: FrameId) {
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            let old_page_id = page_guard.get_page_id();
-            let pin_count = page_guard.get_pin_count();
-            drop(page_guard);
-            drop(pages);
+    /// Gets an available frame, either from the free list or by evicting a page.
+    ///
+    /// This method first checks the free list for unused frames. If none are
+    /// available, it uses the LRU-K replacer to select a victim for eviction.
+    fn get_available_frame(&self) -> Option<FrameId> {
+        // Try a second time with every unpinned page evictable
+        for attempt in 0..2 {
+            let mut residency = self.residency();
 
-            if pin_count == 0 {
-                trace!("Evicting page {} from frame {}", old_page_id, frame_id);
-                self.evict_old_page(frame_id, old_page_id);
-            } else {
-                warn!(
-                    "Cannot evict pinned page {} (pin count: {}) from frame {}",
-                    old_page_id, pin_count, frame_id
-                );
+            // Try to get a frame from the free list first
+            if let Some(frame_id) = self.free_list.write().pop() {
+                trace!("Got frame {} from free list", frame_id);
+                return Some(frame_id);
+            }
+
+            // No free frames, try to evict using LRU-K
+            if attempt > 0 {
+                let mut replacer = self.replacer.write();
+                for (page_id, &frame_id) in self.page_table.read().iter() {
+                    if !residency.pins.contains_key(page_id) {
+                        replacer.set_evictable(frame_id, true);
+                    }
+                }
+            }
+
+            loop {
+                let victim = self.replacer.write().evict();
+                let Some(frame_id) = victim else {
+                    break;
+                };
+                trace!("LRU-K replacer selected frame {} for eviction", frame_id);
+
+                // Find the page_id for this frame
+                let page_id = self
+                    .page_table
+                    .read()
+                    .iter()
+                    .find(|&(_, &fid)| fid == frame_id)
+                    .map(|(&pid, _)| pid);
+                let Some(old_page_id) = page_id else {
+                    continue;
+                };
+
+                if residency.pins.contains_key(&old_page_id) {
+                    warn!("Cannot evict pinned page {}", old_page_id);
+                    continue;
+                }
+
+                self.remove_page_from_table(old_page_id);
+                residency.departures += 1;
+                residency.in_transit.insert(old_page_id);
+                drop(residency);
+                let transit = Transit {
+                    pool: self,
+                    page_id: old_page_id,
+                };
+                return self.write_out(frame_id, transit);
             }
         }
+
+        warn!("No evictable frames found after multiple attempts");
+        None
     }
 
-    /// Evicts a page from the specified frame, flushing to disk if dirty.
-    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) {
-        // Check if page is dirty and flush if necessary
-        let page_to_flush = {
+    /// Empties the frame of an evicted page, flushing the page to disk if dirty.
+    ///
+    /// A page that cannot be flushed stays in the pool.
+    fn write_out(&self, frame_id: FrameId, transit: Transit<'_>) -> Option<FrameId> {
+        let old_page_id = transit.page_id;
+        let page = {
             let pages = self.pages.read();
-            if let Some(Some(page)) = pages.get(frame_id as usize) {
-                let is_dirty = page.read().is_dirty();
-                if is_dirty { Some(page.clone()) } else { None }
-            } else {
-                None
-            }
+            pages.get(frame_id as usize).cloned().flatten()
         };
 
-        if let Some(page) = page_to_flush {
+        let unwritten = self.residency().unwritten.contains(&old_page_id);
+        if let Some(page) = page
+            && (unwritten || page.read().is_dirty())
+        {
             trace!("Flushing dirty page {} before eviction", old_page_id);
             if let Err(e) = self.write_page_to_disk_sync(old_page_id, &page) {
                 error!(
                     "Failed to flush page {} during eviction: {}",
                     old_page_id, e
                 );
+                let _residency = self.residency();
+                self.page_table.write().insert(old_page_id, frame_id);
+                let mut replacer = self.replacer.write();
+                replacer.record_access(frame_id, AccessType::Unknown);
+                replacer.set_evictable(frame_id, true);
+                return None;
             }
         }
 
-        // Remove from page table
-        self.remove_page_from_table(old_page_id);
-
-        // Reset frame
         if let Err(e) = self.reset_frame(frame_id) {
             error!(
                 "Failed to reset frame {} during eviction: {:?}",
                 frame_id, e
             );
         }
-
         trace!(
             "Successfully evicted page {} from frame {}",
             old_page_id, frame_id
         );
+        Some(frame_id)
     }
 
-    /// Gets an available frame, either from the free list or by evicting a page.
-    ///
-    /// This method first checks the free list for unused frames. If none are
-    /// available, it uses the LRU-K replacer to select a victim for eviction.
-    fn get_available_frame(&self) -> Option<FrameId> {
-        // Try to get a frame from the free list first
-        {
-            let mut free_list = self.free_list.write();
-            if let Some(frame_id) = free_list.pop() {
-                trace!("Got frame {} from free list", frame_id);
-                return Some(frame_id);
-            }
-        }
-
-        // No free frames, try to evict using LRU-K
-        trace!("No free frames, attempting eviction");
-        let mut replacer = self.replacer.write();
-
-        // Try multiple eviction attempts if needed
-        for _ in 0..self.pool_size {
-            if let Some(frame_id) = replacer.evict() {
-                trace!("LRU-K replacer selected frame {} for eviction", frame_id);
+    /// Locks the residency table.
+    fn residency(&self) -> MutexGuard<'_, Residency> {
+        self.residency.0.lock()
+    }
 
-                // Find the page_id for this frame
-                let page_id = {
-                    let page_table = self.page_table.read();
-                    let mut victim_page_id = None;
-
-                    for (&pid, &fid) in page_table.iter() {
-                        if fid == frame_id {
-                            victim_page_id = Some(pid);
-                            break;
-                        }
-                    }
+    /// Locks the residency table once the page is not on its way in or out.
+    fn settled(&self, page_id: PageId) -> MutexGuard<'_, Residency> {
+        let mut residency = self.residency();
+        while residency.in_transit.contains(&page_id) {
+            self.residency.1.wait(&mut residency);
+        }
+        residency
+    }
 
-                    victim_page_id
-                };
+    /// Pins a page if it is in the pool, without recording an access.
+    fn hold(&self, page_id: PageId) -> Option<Held<'_>> {
+        let mut residency = self.settled(page_id);
+        let page = self.get_page_internal(page_id)?;
+        *residency.pins.entry(page_id).or_insert(0) += 1;
+        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
+            self.replacer.write().set_evictable(frame_id, false);
+        }
+        Some(Held {
+            pool: self,
+            page_id,
+            page,
+        })
+    }
 
-                // If we found a page to evict, do it now
-                if let Some(old_page_id) = page_id {
-                    self.evict_old_page(frame_id, old_page_id);
-                }
+    /// Pins a page and records an access if it is in the pool, and otherwise claims its loading.
+    fn pin_or_claim(&self, page_id: PageId) -> Arrival<'_> {
+        let mut residency = self.settled(page_id);
+        let Some(page) = self.get_page_internal(page_id) else {
+            residency.in_transit.insert(page_id);
+            return Arrival::Claimed(Transit {
+                pool: self,
+                page_id,
+            });
+        };
+        *residency.pins.entry(page_id).or_insert(0) += 1;
 
-                return Some(frame_id);
-            }
+        // Mark frame as non-evictable while pinned and record access.
+        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
+            let mut replacer = self.replacer.write();
+            replacer.record_access(frame_id, AccessType::Unknown);
+            replacer.set_evictable(frame_id, false);
+        }
+        Arrival::Resident(page)
+    }
 
-            // If no frames are evictable, try to make some evictable
-            // Find pages with pin count 0 that aren't marked as evictable
-            let pages = self.pages.read();
-            for (i, page_opt) in pages.iter().enumerate() {
-                if let Some(page) = page_opt {
-                    let page_data = page.read();
-                    if page_data.get_pin_count() == 0 {
-                        // Drop read lock before acquiring write lock
-                        drop(page_data);
-
-                        // Set this frame as evictable
-                        replacer.set_evictable(i as FrameId, true);
-                    }
-                }
+    /// Gives a pin back, and makes the frame evictable if it was the last one.
+    fn release_pin(&self, page_id: PageId, access_type: Option<AccessType>) {
+        let mut residency = self.residency();
+        let Some(pins) = residency.pins.get_mut(&page_id) else {
+            return;
+        };
+        *pins -= 1;
+        if *pins > 0 {
+            return;
+        }
+        residency.pins.remove(&page_id);
+        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
+            let mut replacer = self.replacer.write();
+            if let Some(access_type) = access_type {
+                replacer.record_access(frame_id, access_type);
             }
+            replacer.set_evictable(frame_id, true);
+            trace!("Page {} marked as evictable", page_id);
         }
-
-        warn!("No evictable frames found after multiple attempts");
-        None
     }
 
     /// Allocates and returns the next available page ID atomically.
@@ -1151,6 +1170,9 @@ impl BufferPoolManager {
         page_id: PageId,
         new_page: &Arc<RwLock<P>>,
     ) {
+        let mut residency = self.residency();
+        residency.pins.insert(page_id, 1);
+
         // Update pages array
         {
             let mut pages = self.pages.write();
@@ -1199,22 +1221,13 @@ impl BufferPoolManager {
     ) -> Result<(), String> {
         trace!("Writing page {} to disk with cache coordination", page_id);
 
-        // Prepare data for writing
-        let data_buffer = {
-            let page_guard = page.read();
-            page_guard.to_bytes()
-        };
+        // Prepare data for writing; a change from here on makes the page dirty again
+        let data_buffer = self.take_snapshot(page_id, page);
 
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
-        self.disk_manager
-            .write_page(page_id, data_buffer)
-            .await
-            .map_err(|e| format!("Failed to write page to disk: {}", e))?;
-
-        // Mark page as clean after successful write
-        {
-            let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+        if let Err(e) = self.disk_manager.write_page(page_id, data_buffer).await {
+            page.write().set_dirty(true);
+            return Err(format!("Failed to write page to disk: {}", e));
         }
 
         trace!(
@@ -1224,6 +1237,14 @@ impl BufferPoolManager {
         Ok(())
     }
 
+    /// Copies the contents of a page that is about to be written, and marks the page clean.
+    fn take_snapshot(&self, page_id: PageId, page: &Arc<RwLock<dyn PageTrait>>) -> Vec<u8> {
+        self.residency().unwritten.remove(&page_id);
+        let mut page_guard = page.write();
+        page_guard.set_dirty(false);
+        page_guard.to_bytes()
+    }
+
     /// Internal sync version of write_page_to_disk for eviction paths.
     ///
     /// This is used during page eviction which happens in sync contexts (e.g., `fetch_page`).
@@ -1233,23 +1254,17 @@ impl BufferPoolManager {
         page_id: PageId,
         page: &Arc<RwLock<dyn PageTrait>>,
     ) -> Result<(), String> {
-        // Prepare data for writing
-        let data_buffer = {
-            let page_guard = page.read();
-            page_guard.to_bytes()
-        };
+        // Prepare data for writing; a change from here on makes the page dirty again
+        let data_buffer = self.take_snapshot(page_id, page);
 
         // Use block_on for sync eviction path
         let result = futures::executor::block_on(async {
             self.disk_manager.write_page(page_id, data_buffer).await
         });
 
-        result.map_err(|e| format!("Failed to write page to disk: {}", e))?;
-
-        // Mark page as clean after successful write
-        {
-            let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+        if let Err(e) = result {
+            page.write().set_dirty(true);
+            return Err(format!("Failed to write page to disk: {}", e));
         }
 
         trace!(
@@ -1292,63 +1307,58 @@ impl BufferPoolManager {
 
         trace!("Loading {} pages in batch", page_ids.len());
 
-        // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
+        // Read the missing pages from disk in one batch
         let mut pages_to_load = Vec::new();
-
-        for page_id in page_ids {
-            if let Some(page) = self.get_page_internal(page_id) {
-                // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
+        let departures = {
+            let residency = self.residency();
+            let page_table = self.page_table.read();
+            let limit = self.next_page_id.load(Ordering::SeqCst);
+            for &page_id in &page_ids {
+                if page_id < limit
+                    && !page_table.contains_key(&page_id)
+                    && !residency.in_transit.contains(&page_id)
+                    && !pages_to_load.contains(&page_id)
+                {
+                    pages_to_load.push(page_id);
                 }
-            } else {
-                pages_to_load.push(page_id);
             }
-        }
-
-        // Load missing pages from disk in batch
+            residency.departures
+        };
+        let mut loaded = HashMap::new();
         if !pages_to_load.is_empty() {
             match self
                 .disk_manager
                 .read_pages_batch(pages_to_load.clone())
                 .await
             {
-                Ok(pages_data) => {
-                    for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
-                        if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
-                        } else {
-                            in_memory_pages.push((page_id, None));
-                        }
-                    }
-                },
-                Err(e) => {
-                    error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
-                },
+                Ok(pages_data) => loaded.extend(pages_to_load.into_iter().zip(pages_data)),
+                Err(e) => error!("Failed to load pages in batch: {}", e),
             }
         }
 
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
+        // Pin them in the requested order
+        page_ids
             .into_iter()
-            .map(|(_, guard)| guard)
+            .map(|page_id| {
+                let Some(data) = loaded.remove(&page_id) else {
+                    return self.fetch_page::<T>(page_id);
+                };
+                match self.pin_or_claim(page_id) {
+                    Arrival::Resident(page) => self.create_guard_from_existing::<T>(page_id, page),
+                    // What was read is what is on disk unless a page was written out since
+                    Arrival::Claimed(transit) => {
+                        if self.residency().departures == departures {
+                            self.install_loaded_page::<T>(transit, data)
+                        } else {
+                            self.load_page_from_disk::<T>(transit)
+                        }
+                    },
+                }
+            })
             .collect()
     }
 
-    /// Creates a guard from an existing page in memory
+    /// Creates a guard from an existing page in memory, which the caller has pinned
     fn create_guard_from_existing<T: Page + 'static>(
         self: &Arc<Self>,
         page_id: PageId,
@@ -1368,16 +1378,10 @@ impl BufferPoolManager {
                 T::TYPE_ID,
                 actual_type
             );
+            self.release_pin(page_id, None);
             return None;
         }
 
-        // Mark frame as non-evictable while pinned and record access.
-        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-            let mut replacer = self.replacer.write();
-            replacer.record_access(frame_id, AccessType::Unknown);
-            replacer.set_evictable(frame_id, false);
-        }
-
         // Create typed page arc
         let typed_page = unsafe {
             let raw = Arc::into_raw(page) as *const RwLock<T>;
@@ -1405,58 +1409,38 @@ impl BufferPoolManager {
             max_pages
         );
 
-        // Collect dirty pages
-        let dirty_pages: Vec<(PageId, Vec<u8>)> = {
-            let pages = self.pages.read();
-            pages
-                .iter()
-                .filter_map(|page_opt| {
-                    if let Some(page) = page_opt {
-                        let page_guard = page.read();
-                        if page_guard.is_dirty() {
-                            let page_id = page_guard.get_page_id();
-                            let data = page_guard.to_bytes();
-                            Some((page_id, data))
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
-                })
-                .take(max_pages)
-                .collect()
-        };
+        // Collect dirty pages, and keep them in the pool until they are written
+        let page_ids: Vec<PageId> = self.page_table.read().keys().copied().collect();
+        let mut held_pages = Vec::new();
+        let mut dirty_pages: Vec<(PageId, Vec<u8>)> = Vec::new();
+        for page_id in page_ids {
+            if dirty_pages.len() == max_pages {
+                break;
+            }
+            if let Some(held) = self.hold(page_id) {
+                if held.page.read().is_dirty() {
+                    dirty_pages.push((page_id, self.take_snapshot(page_id, &held.page)));
+                    held_pages.push(held);
+                }
+            }
+        }
 
         if dirty_pages.is_empty() {
             return Ok(0);
         }
 
         // Write in batch using async disk manager
-        let result = self
-            .disk_manager
-            .write_pages_batch(dirty_pages.clone())
-            .await;
-
-        match result {
+        let flushed = dirty_pages.len();
+        match self.disk_manager.write_pages_batch(dirty_pages).await {
             Ok(()) => {
-                // Mark pages as clean
-                let pages = self.pages.read();
-                for (page_id, _) in &dirty_pages {
-                    if let Some(frame_id) = self.page_table.read().get(page_id)
-                        && let Some(Some(page)) = pages.get(*frame_id as usize)
-                    {
-                        page.write().set_dirty(false);
-                    }
-                }
-                trace!(
-                    "Successfully flushed {} dirty pages in batch",
-                    dirty_pages.len()
-                );
-                Ok(dirty_pages.len())
+                trace!("Successfully flushed {} dirty pages in batch", flushed);
+                Ok(flushed)
             },
             Err(e) => {
                 error!("Failed to flush pages in batch: {}", e);
+                for held in &held_pages {
+                    held.page.write().set_dirty(true);
+                }
                 Err(format!("Batch flush failed: {}", e))
             },
         }
@@ -1801,17 +1785,17 @@ pub struct CacheCoordinationStats {
 
 /// Manual Clone implementation that creates a shallow copy with shared state.
 ///
-/// All `Arc`-wrapped fields share state with the original. The `next_page_id`
-/// counter is copied as a new atomic with the current value.
+/// All `Arc`-wrapped fields share state with the original, the page ID counter included.
 impl Clone for BufferPoolManager {
     fn clone(&self) -> Self {
         Self {
             pool_size: self.pool_size,
-            next_page_id: AtomicU64::new(self.next_page_id.load(Ordering::SeqCst)),
+            next_page_id: Arc::clone(&self.next_page_id),
             pages: Arc::clone(&self.pages),
             page_table: Arc::clone(&self.page_table),
             replacer: Arc::clone(&self.replacer),
             free_list: Arc::clone(&self.free_list),
+            residency: Arc::clone(&self.residency),
             disk_manager: Arc::clone(&self.disk_manager),
             use_disk_manager_cache: self.use_disk_manager_cache,
             bypass_disk_cache_for_pinned: self.bypass_disk_cache_for_pinned,
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6ec2c33..693bb4b 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -290,6 +290,8 @@ pub struct AsyncDiskManager {
     // Held exclusively while a write is staged and while drained pages go to disk, and shared while
     // a page is read from below the cache, so a read sees every write that completed before it.
     flush_lock: RwLock<()>,
+    // Pages the database file had when it was opened
+    initial_page_count: u64,
 }
 
 impl DurabilityProvider for AsyncDiskManager {
@@ -343,6 +345,7 @@ impl AsyncDiskManager {
             true,
             &db_direct_io_config,
         )?;
+        let initial_page_count = db_file_std.metadata()?.len().div_ceil(DB_PAGE_SIZE);
         let db_file = Arc::new(Mutex::new(File::from_std(db_file_std)));
 
         debug!(
@@ -405,6 +408,7 @@ impl AsyncDiskManager {
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
             flush_lock: RwLock::new(()),
+            initial_page_count,
         };
 
         info!(
@@ -422,6 +426,11 @@ impl AsyncDiskManager {
             .await
     }
 
+    /// The number of pages the database file had when it was opened
+    pub fn initial_page_count(&self) -> u64 {
+        self.initial_page_count
+    }
+
     /// Reads a page with specified priority using scheduler
     pub async fn read_page_with_priority(
         &self,
-- 
2.43.0


From d9bdeba26910d0ae879e614484e4468617f1521d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 14/81] fix: waiting for an I/O operation survives missed
 notifications, and timeouts are counted once

---
 src/storage/disk/async_disk/io/completion.rs | 104 +++++++++++++------
 1 file changed, 74 insertions(+), 30 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 7d1e8f3..b4c99dc 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -426,6 +426,28 @@ impl CompletionTracker {
         op_id: OperationId,
         result: OperationResult,
     ) -> Result<(), String> {
+        let (duration, data_size, is_success) = self.resolve_operation(op_id, result).await?;
+
+        // Record metrics
+        if is_success {
+            self.metrics
+                .record_operation_complete(duration, data_size, true)
+                .await;
+        } else {
+            self.metrics.record_operation_failed();
+        }
+
+        Ok(())
+    }
+
+    /// Moves a pending operation to its final status and notifies those who wait for it
+    ///
+    /// Returns its duration, data size and whether it succeeded, for the caller to record.
+    async fn resolve_operation(
+        &self,
+        op_id: OperationId,
+        result: OperationResult,
+    ) -> Result<(Duration, u64, bool), String> {
         let (duration, data_size, is_success) = {
             let mut operations = self.operations.write().await;
 
@@ -468,16 +490,7 @@ impl CompletionTracker {
         // Ignore broadcast errors (no receivers is OK)
         let _ = self.event_sender.send(event);
 
-        // Record metrics
-        if is_success {
-            self.metrics
-                .record_operation_complete(duration, data_size, true)
-                .await;
-        } else {
-            self.metrics.record_operation_failed();
-        }
-
-        Ok(())
+        Ok((duration, data_size, is_success))
     }
 
     /// Fails an operation with an error
@@ -574,19 +587,28 @@ impl CompletionTracker {
         tokio::select! {
             // Wait for operation completion event
             result = async {
-                while let Ok(event) = event_receiver.recv().await {
-                    if event.operation_id == op_id {
-                        return event.result;
-                    }
-                }
-                // If the broadcast channel is closed, check final status
-                let operations = self.operations.read().await;
-                match operations.get(&op_id) {
-                    Some(OperationStatus::Completed { result, .. }) => result.clone(),
-                    Some(OperationStatus::Cancelled { reason, .. }) => {
-                        OperationResult::Error(format!("Operation was cancelled: {}", reason))
+                loop {
+                    let missed = match event_receiver.recv().await {
+                        Ok(event) if event.operation_id == op_id => return event.result,
+                        Ok(_) => continue,
+                        // Events were dropped before this waiter saw them
+                        Err(broadcast::error::RecvError::Lagged(_)) => true,
+                        Err(broadcast::error::RecvError::Closed) => false,
+                    };
+                    // Events were missed or the broadcast channel is closed, check the status
+                    let operations = self.operations.read().await;
+                    match operations.get(&op_id) {
+                        Some(OperationStatus::Completed { result, .. }) => return result.clone(),
+                        Some(OperationStatus::Cancelled { reason, .. }) => {
+                            return OperationResult::Error(format!("Operation was cancelled: {}", reason));
+                        }
+                        Some(OperationStatus::Pending { .. }) if missed => {}
+                        _ => {
+                            return OperationResult::Error(
+                                "Operation completed without notification".to_string(),
+                            );
+                        }
                     }
-                    _ => OperationResult::Error("Operation completed without notification".to_string()),
                 }
             } => {
                 Ok(result)
@@ -669,7 +691,10 @@ impl CompletionTracker {
 
         for op_id in timed_out_ids {
             if self
-                .fail_operation(op_id, "Operation timed out".to_string())
+                .resolve_operation(
+                    op_id,
+                    OperationResult::Error("Operation timed out".to_string()),
+                )
                 .await
                 .is_ok()
             {
@@ -846,14 +871,33 @@ impl CompletionTracker {
             // Wait for all remaining operations
             _ = async {
                 while !remaining_ids.is_empty() {
-                    if let Ok(event) = event_receiver.recv().await {
-                        if remaining_ids.contains(&event.operation_id) {
-                            results.push((event.operation_id, event.result));
-                            remaining_ids.remove(&event.operation_id);
-                        }
-                    } else {
+                    match event_receiver.recv().await {
+                        Ok(event) => {
+                            if remaining_ids.contains(&event.operation_id) {
+                                results.push((event.operation_id, event.result));
+                                remaining_ids.remove(&event.operation_id);
+                            }
+                        },
+                        // Events were dropped before this waiter saw them, check the statuses
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            let operations = self.operations.read().await;
+                            remaining_ids.retain(|op_id| {
+                                let result = match operations.get(op_id) {
+                                    Some(OperationStatus::Pending { .. }) => return true,
+                                    Some(OperationStatus::Completed { result, .. }) => result.clone(),
+                                    Some(OperationStatus::Cancelled { reason, .. }) => {
+                                        OperationResult::Error(format!("Operation was cancelled: {}", reason))
+                                    },
+                                    None => OperationResult::Error(
+                                        "Operation completed without notification".to_string(),
+                                    ),
+                                };
+                                results.push((*op_id, result));
+                                false
+                            });
+                        },
                         // Channel closed, break
-                        break;
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
             } => {}
-- 
2.43.0


From 38c61ec13474aaeac9b5e274b1579c4ded8b9862 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 15/81] fix: inner nodes of the disk B+ tree keep all children
 when they split, merge and redistribute

---
 src/storage/index/b_plus_tree_index.rs        | 233 ++++--------------
 .../page_types/b_plus_tree_internal_page.rs   |  43 ++++
 2 files changed, 88 insertions(+), 188 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index c83dffa..9e47b32 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -1514,39 +1514,20 @@ where
 
             // Determine split point - floor(max_size/2)
             let split_point = internal_max_size / 2;
-            let current_size = internal_write.get_size();
+            let (mut keys, mut children) = internal_write.get_entries();
+            if split_point >= keys.len() || children.len() != keys.len() + 1 {
+                return Err(BPlusTreeError::InvalidPageType);
+            }
+
+            // The keys and children after the middle key move to the new page
+            let right_keys = keys.split_off(split_point + 1);
+            let right_children = children.split_off(split_point + 1);
 
             // The middle key (at split_point) will be promoted to the parent
-            middle_key = internal_write
-                .get_key_at(split_point)
-                .ok_or(BPlusTreeError::InvalidPageType)?
-                .clone();
-
-            // Get the child that will be the leftmost pointer in the new page
-            // (This is the child pointer that goes immediately after the middle key)
-            let child_after_middle = internal_write
-                .get_value_at(split_point + 1)
-                .ok_or(BPlusTreeError::InvalidPageType)?;
-
-            // First insert the leftmost child pointer in the new page
-            // For an internal page, we need to setup the first child before any keys
-            new_internal_write.insert_key_value(middle_key.clone(), child_after_middle);
-            // This added a key and two pointers, but we only wanted one pointer (leftmost)
-            // We'll overwrite with the remaining keys and values
-
-            // Now move the remaining keys and values
-            for i in (split_point + 1)..current_size {
-                if let Some(key) = internal_write.get_key_at(i)
-                    && let Some(child_id) = internal_write.get_value_at(i + 1)
-                {
-                    new_internal_write.insert_key_value(key.clone(), child_id);
-                }
-            }
+            middle_key = keys.pop().ok_or(BPlusTreeError::InvalidPageType)?;
 
-            // Now remove keys from original page: remove the middle key and all keys after it
-            for _ in split_point..current_size {
-                internal_write.remove_key_value_at(split_point);
-            }
+            new_internal_write.set_entries(right_keys, right_children);
+            internal_write.set_entries(keys, children);
         }
 
         // Now handle the parent insertion
@@ -1658,7 +1639,7 @@ where
         left_write.set_next_page_id(right_write.get_next_page_id());
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        parent_write.remove_separator_at(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -1803,8 +1784,7 @@ where
             if let Some(new_sep) = new_separator {
                 // Fix: Replace set_key_at with proper method to update a key
                 if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
+                    parent_write.set_key_at(parent_key_index, new_sep);
                 }
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
@@ -1863,8 +1843,7 @@ where
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
                 if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
+                    parent_write.set_key_at(parent_key_index, new_sep);
                 }
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
@@ -1917,30 +1896,23 @@ where
 
         // Calculate combined size (including the separator key from parent)
         let combined_size = left_write.get_size() + right_write.get_size() + 1;
-        if combined_size > left_write.get_max_size() {
+        if combined_size >= left_write.get_max_size() {
             return Err(BPlusTreeError::BufferPoolError(
                 "Combined internal pages are too large to merge".to_string(),
             ));
         }
 
-        // 3. Move the separator key from parent to the left page
-        let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-            BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-        })?;
-        left_write.insert_key_value(separator_key, right_first_child);
-
-        // 4. Copy all keys and child pointers from right page to left page
-        // Skip the first child pointer of right page as it's already handled with the separator key
-        for i in 0..right_write.get_size() {
-            if let Some(key) = right_write.get_key_at(i)
-                && let Some(child_id) = right_write.get_value_at(i + 1)
-            {
-                left_write.insert_key_value(key.clone(), child_id);
-            }
-        }
+        // 3. Append the separator key from the parent and all keys of the right page
+        // 4. and the child pointers of the right page to the left page
+        let (mut keys, mut children) = left_write.get_entries();
+        let (right_keys, right_children) = right_write.get_entries();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
+        left_write.set_entries(keys, children);
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        parent_write.remove_separator_at(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -2059,140 +2031,24 @@ where
             ));
         }
 
-        // Calculate target sizes after redistribution (approximately balanced)
-        let target_size = total_entries / 2;
-
-        // 4. Determine direction of redistribution
-        if left_size < right_size {
-            // Move entries from right to left
-            // First, get the leftmost child from right page
-            let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Move separator key from parent to left page, with rightmost child pointer
-            left_write.insert_key_value(separator_key, right_first_child);
-
-            // Calculate how many more keys to move (excluding the first child already moved)
-            let additional_keys_to_move = target_size - left_size - 1;
-
-            // Move additional keys and children from right to left
-            for i in 0..additional_keys_to_move {
-                let key_to_move = right_write.get_key_at(i);
-                let child_id_to_move = right_write.get_value_at(i + 1);
-
-                if let (Some(key), Some(child_id)) = (key_to_move, child_id_to_move) {
-                    left_write.insert_key_value(key, child_id);
-                }
-            }
-
-            // Get the new separator key from right page
-            let new_separator = right_write
-                .get_key_at(additional_keys_to_move)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Not enough keys in right page".to_string())
-                })?
-                .clone();
-
-            // Update parent with new separator key
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(new_separator, right_page.get_page_id());
-
-            // Update right page: remove moved keys and update leftmost child
-            // We need to keep the old rightmost child of right page as its new leftmost child
-            right_write
-                .get_value_at(additional_keys_to_move + 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Invalid right page layout".to_string())
-                })?;
-
-            // Remove the transferred keys/values from right page
-            for _ in 0..=additional_keys_to_move {
-                right_write.remove_key_value_at(0);
-            }
-        } else {
-            // Move entries from left to right
-
-            // First, get the rightmost key and child from left page
-            let left_size = left_write.get_size();
-            let left_last_key = left_write
-                .get_key_at(left_size - 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Left page has no keys".to_string())
-                })?
-                .clone();
-            let left_last_child = left_write.get_value_at(left_size).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Left page has invalid child count".to_string())
-            })?;
-
-            // Calculate how many keys to move
-            let keys_to_move = left_size - target_size;
-
-            // Save right page's leftmost child
-            right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Shift everything in right page to make room
-            // To avoid modifying while iterating, we'll collect all keys/values first
-            let right_size = right_write.get_size();
-            let mut right_kv_pairs = Vec::with_capacity(right_size);
-
-            for i in 0..right_size {
-                let key = right_write.get_key_at(i);
-                let child_id = right_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    right_kv_pairs.push((k, v));
-                }
-            }
-
-            // Clear right page except for its leftmost child pointer
-            while right_write.get_size() > 0 {
-                right_write.remove_key_value_at(0);
-            }
-
-            // Insert separator key from parent with left's rightmost child
-            right_write.insert_key_value(separator_key, left_last_child);
+        // 4. Line up all keys (with the separator in between) and child pointers of both pages
+        let (mut keys, mut children) = left_write.get_entries();
+        let (right_keys, right_children) = right_write.get_entries();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
 
-            // Move the keys to move from left to right (except the last one that becomes the new separator)
-            let start_idx = left_size - keys_to_move;
-            let end_idx = left_size - 1; // Exclude the last key which becomes the separator
-
-            // Create a temporary vector of keys to move
-            let mut keys_to_move_vec = Vec::with_capacity(keys_to_move);
-            for i in start_idx..end_idx {
-                let key = left_write.get_key_at(i);
-                let child_id = left_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    keys_to_move_vec.push((k, v));
-                }
-            }
-
-            // Insert the keys to move
-            for (key, child_id) in keys_to_move_vec {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Put back the original keys in right page
-            for (key, child_id) in right_kv_pairs {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Update parent with last key from left as new separator
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(left_last_key, right_page.get_page_id());
-
-            // Remove transferred keys from left page
-            // Store current size to avoid borrowing issues
-            let current_left_size = left_write.get_size();
-            for i in 0..keys_to_move {
-                left_write.remove_key_value_at(current_left_size - 1 - i);
-            }
-        }
+        // 5. Split them evenly; the key in the middle becomes the new separator
+        let target_size = (keys.len() - 1) / 2;
+        let right_keys = keys.split_off(target_size + 1);
+        let right_children = children.split_off(target_size + 1);
+        let new_separator = keys.pop().ok_or_else(|| {
+            BPlusTreeError::BufferPoolError("Not enough keys for redistribution".to_string())
+        })?;
+        left_write.set_entries(keys, children);
+        right_write.set_entries(right_keys, right_children);
+        parent_write.set_key_at(parent_key_index, new_separator);
 
-        // The locks will be released when the write guards are dropped
         Ok(())
     }
 
@@ -2293,10 +2149,10 @@ where
         };
 
         // Check root page ID
-        let root_page_id = header_page.read().get_root_page_id();
+        let header = header_page.read();
 
-        // If root page ID is invalid, tree is empty
-        root_page_id == INVALID_PAGE_ID
+        // The tree is empty without a root page, or when its root leaf has no keys left
+        header.get_root_page_id() == INVALID_PAGE_ID || header.get_num_keys() == 0
     }
 
     /// Get the current height of the B+ tree
@@ -2695,7 +2551,8 @@ where
             let max_size = current_page.read().get_max_size();
 
             // Determine if merge or redistribution is needed
-            if total_entries <= max_size {
+            // (a page must keep room for the key of a later split of a child)
+            if total_entries < max_size {
                 // Merge the pages - ensure left page is always first argument
                 if sibling_is_left {
                     self.merge_internal_pages(
diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 0be5c61..837741c 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -378,6 +378,49 @@ impl<
         }
     }
 
+    /// Returns all keys and all child pointers, in order
+    pub fn get_entries(&self) -> (Vec<KeyType>, Vec<PageId>) {
+        (self.keys.clone(), self.values.clone())
+    }
+
+    /// Replaces all keys and child pointers; there is one more child than there are keys
+    pub fn set_entries(&mut self, keys: Vec<KeyType>, values: Vec<PageId>) {
+        debug_assert_eq!(values.len(), keys.len() + 1);
+        self.size = keys.len();
+        self.keys = keys;
+        self.values = values;
+        self.is_dirty = true;
+    }
+
+    /// Removes the key at the given index and the child pointer after it
+    ///
+    /// Unlike [`remove_key_value_at`](Self::remove_key_value_at), the last key leaves the
+    /// leftmost pointer behind, also in a page that is not the root.
+    pub fn remove_separator_at(&mut self, index: usize) -> bool {
+        if index >= self.keys.len() || index + 1 >= self.values.len() {
+            return false;
+        }
+        self.keys.remove(index);
+        self.values.remove(index + 1);
+        self.size = self.keys.len();
+        self.is_dirty = true;
+        true
+    }
+
+    /// Replaces the key at the given index, keeping the child pointers around it
+    ///
+    /// Returns false if the index is out of bounds
+    pub fn set_key_at(&mut self, index: usize, key: KeyType) -> bool {
+        match self.keys.get_mut(index) {
+            Some(slot) => {
+                *slot = key;
+                self.is_dirty = true;
+                true
+            },
+            None => false,
+        }
+    }
+
     /// Remove a key and its corresponding value (child pointer) from the internal page
     /// In a B+ tree internal node:
     /// - When removing key at index i, we remove the child pointer at index i+1
-- 
2.43.0


From 95760dcd632b66b7d63005835e7c285a381df686 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 16/81] fix: a row updated to a shorter one keeps its room, so
 the update can always be rolled back

---
 src/storage/page/page_types/table_page.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index ce1d46f..332b4c7 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -319,13 +319,11 @@ impl TablePage {
 
         // Try to update in place if the new tuple size is smaller than or equal to current size
         if new_size <= current_size {
-            // Update metadata in tuple_info
+            // Update metadata in tuple_info; the slot keeps its size, so that rolling the
+            // update back always finds room
             self.count_deleted(tuple_id, &meta);
             self.tuple_info[tuple_id].2 = meta;
 
-            // Update the size to reflect the actual new size
-            self.tuple_info[tuple_id].1 = new_size;
-
             // Update the tuple data
             let start = current_offset as usize;
             let end = start + new_size as usize;
-- 
2.43.0


From a0d00837631f7b491bc75613c6374692e572ba01 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 17/81] fix: a commit publishes its timestamp and stamps its
 rows in one step for transactions that begin

---
 src/concurrency/transaction_manager.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..12d40dd 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -513,17 +513,17 @@ impl TransactionManager {
         }
 
         // Use logical watermark-based commit to set commit_ts and update running set
-        {
-            let mut running_txns = self.state.running_txns.write();
-            txn.commit(&mut running_txns);
-        }
-
         // Update transaction map after commit
         {
             let mut txn_map = self.state.txn_map.write();
             txn_map.insert(txn.get_transaction_id(), txn.clone());
         }
 
+        // Publish the commit and stamp its rows in one step as far as new transactions are
+        // concerned: none gets a later read timestamp before all the rows carry this one.
+        let mut running_txns = self.state.running_txns.write();
+        txn.commit(&mut running_txns);
+
         // Mark all tuples written by this transaction as committed by setting their commit timestamps
         // We do this BEFORE flushing so the metadata updates are persisted with the batch.
         for (table_oid, rid) in txn.get_write_set() {
@@ -572,6 +572,7 @@ impl TransactionManager {
                 );
             }
         }
+        drop(running_txns);
 
         // Attempt to drop completed transactions once no active reader needs them.
         self.prune_completed_transactions();
-- 
2.43.0


From 2bb1de5bd27b85c5d5633d86c5e1184d67f7d73d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 18/81] fix: an abort takes each row back to the version the
 transaction found, in one step with its link

---
 src/concurrency/transaction_manager.rs | 170 ++++++++-----------------
 1 file changed, 50 insertions(+), 120 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 12d40dd..33d8252 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -639,137 +639,66 @@ impl TransactionManager {
             );
             if let Some(table_heap) = self.get_table_heap(table_oid) {
                 log::debug!("ABORT: Found table heap for table_oid={}", table_oid);
-                if let Some(undo_link) = self.get_undo_link(rid) {
-                    log::debug!(
-                        "ABORT: Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    log::debug!(
-                        "Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => {
-                            log::error!(
-                                "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
-                                rid,
-                                undo_link.prev_txn,
-                                undo_link.prev_log_idx,
-                                e
-                            );
-                            continue;
-                        },
-                    };
-
-                    // Check if this was a deleted tuple that needs to be restored
-                    // If the original_rid is present, it means this was a delete operation
-                    if let Some(original_rid) = undo_log.original_rid {
-                        log::debug!(
-                            "ABORT: Restoring deleted tuple with original RID {:?}",
-                            original_rid
-                        );
-
-                        // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
-
-                        // For deleted tuples, we need a different approach
-                        // First get the page directly to bypass the deletion check
-                        if let Some(page_guard) = table_heap
-                            .get_table_heap()
-                            .get_bpm()
-                            .fetch_page::<TablePage>(original_rid.get_page_id())
-                        {
-                            // First update the metadata to unmark the deletion
-                            {
-                                let mut page = page_guard.write();
-                                if let Err(e) = page.update_tuple_meta(meta, &original_rid) {
-                                    log::error!(
-                                        "Failed to update tuple metadata during restore: {}",
-                                        e
-                                    );
-                                    continue;
-                                }
-                                log::debug!(
-                                    "Successfully updated tuple metadata to unmark deletion"
-                                );
-                            }
-
-                            // Now that the tuple is no longer marked as deleted, we can restore its data
-                            if let Err(e) = table_heap.rollback_tuple(
-                                Arc::from(meta),
-                                &undo_log.tuple,
-                                original_rid,
-                            ) {
-                                log::error!("Failed to restore deleted tuple data: {}", e);
-                            } else {
-                                log::debug!(
-                                    "Successfully restored deleted tuple at RID {:?}",
-                                    original_rid
-                                );
+                // Follow everything this transaction did to the row back to what it found
+                let mut found = None;
+                let mut link = self.get_undo_link_for_txn(rid, txn.get_transaction_id());
+                while let Some(undo_link) = link.take() {
+                    match self.get_undo_log(undo_link) {
+                        Ok(log) => {
+                            let prev = &log.prev_version;
+                            if prev.prev_txn == txn.get_transaction_id() && prev.is_valid() {
+                                link = Some(prev.clone());
                             }
-                        } else {
-                            log::error!(
-                                "Failed to fetch page for deleted tuple restoration: page_id={}",
-                                original_rid.get_page_id()
-                            );
-                        }
+                            found = Some(log);
+                        },
+                        Err(e) => log::error!("ABORT: RID {:?}: {}", rid, e),
+                    }
+                }
+                // A row that it inserted itself has nothing to go back to
+                let found =
+                    found.filter(|log| log.prev_version.prev_txn != txn.get_transaction_id());
+
+                if let Some(undo_log) = found {
+                    let prev = &undo_log.prev_version;
+                    let mut meta = TupleMeta::new(prev.prev_txn);
+                    if undo_log.ts == INVALID_TS {
+                        meta.set_commit_timestamp_opt(None);
                     } else {
-                        // Regular update rollback
-                        // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
+                        meta.set_commit_timestamp(undo_log.ts);
+                    }
+                    // With the original_rid present, is_deleted describes the change, not the
+                    // version before it: only rows that are there can be changed
+                    meta.set_deleted(undo_log.original_rid.is_none() && undo_log.is_deleted);
+                    if prev.is_valid() {
+                        meta.set_undo_log_idx(prev.prev_log_idx)
                             .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
                             .unwrap();
-
-                        // Use a reference to the Arc<Tuple> without cloning
-                        log::debug!(
-                            "Rolling back tuple at RID {:?} with data: {:?}",
-                            rid,
-                            undo_log.tuple
-                        );
-                        if let Err(e) =
-                            table_heap.rollback_tuple(Arc::from(meta), &undo_log.tuple, rid)
-                        {
-                            log::error!("Failed to rollback tuple: {}", e);
-                        } else {
-                            log::debug!("Successfully rolled back tuple at RID {:?}", rid);
-                        }
                     }
 
-                    // Update the undo link to point to the previous version
-                    let prev_version_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
+                    // Restore the row and its metadata in one step
+                    if let Some(page_guard) = table_heap
+                        .get_table_heap()
+                        .get_bpm()
+                        .fetch_page::<TablePage>(rid.get_page_id())
+                    {
+                        let mut page = page_guard.write();
+                        if let Err(e) = page.update_tuple(meta, &undo_log.tuple, rid) {
+                            log::error!("Failed to roll back tuple at RID {:?}: {}", rid, e);
+                        }
+                        // Update the undo link to point to the previous version
+                        self.update_undo_link(rid, prev.is_valid().then(|| prev.clone()), None);
                     } else {
-                        None
-                    };
-                    self.update_undo_link(rid, prev_version_link, None);
+                        log::error!(
+                            "Failed to fetch page for rollback: page_id={}",
+                            rid.get_page_id()
+                        );
+                    }
                 } else {
                     log::debug!(
-                        "ABORT: No undo link found for RID {:?} - marking as deleted",
+                        "ABORT: RID {:?} did not exist before - marking as deleted",
                         rid
                     );
-                    // If no undo link exists, this was a newly inserted tuple
+                    // This was a newly inserted tuple
                     // Mark it as deleted since it was part of an aborted transaction
                     let mut meta = TupleMeta::new(txn.get_transaction_id());
                     meta.set_deleted(true);
@@ -788,6 +717,7 @@ impl TransactionManager {
                         {
                             log::error!("Failed to mark tuple as deleted: {}", e);
                         }
+                        self.update_undo_link(rid, None, None);
                     }
                 }
             }
-- 
2.43.0


From 31ff714f5562493cde73751e13e59ee83c7c8de1 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 19/81] fix: garbage collection keeps versions that running
 transactions still need

---
 src/concurrency/transaction_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 33d8252..e825307 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -757,10 +757,10 @@ impl TransactionManager {
 
         // Remove version info for pages that are no longer needed
         version_info.retain(|_, page_info| {
-            // Retain only links that point to transactions newer than watermark
+            // Drop only links to what every active transaction sees the successor of
             page_info.prev_link.write().retain(|_, link| {
                 if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
+                    txn.get_state() != TransactionState::Committed || txn.commit_ts() > watermark
                 } else {
                     false
                 }
-- 
2.43.0


From 6beaf5b22bee4cb55f2c2675d53ed22096f7b533 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 20/81] fix: a read belongs to one version of the row, and read
 committed reads the latest committed one

---
 src/storage/table/transactional_table_heap.rs | 58 ++++++++++---------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..ff51697 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -256,7 +256,7 @@ use std::sync::Arc;
 use log::{debug, info, warn};
 
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
+use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT, Timestamp};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
 use crate::concurrency::transaction::{
@@ -446,33 +446,35 @@ impl TransactionalTableHeap {
         let txn = txn_ctx.get_transaction();
         let txn_manager = txn_ctx.get_transaction_manager();
 
-        // Get latest version
-        // Important: allow reading deleted tuples so MVCC can interpret tombstones.
-        let (meta, tuple) = self.table_heap.get_tuple_internal(rid, true)?;
-
-        // Handle visibility based on isolation level
-        match txn.get_isolation_level() {
-            IsolationLevel::ReadUncommitted => {
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((meta, tuple))
-                }
-            },
-            IsolationLevel::ReadCommitted => {
-                if meta.get_creator_txn_id() == txn.get_transaction_id() || meta.is_committed() {
-                    if meta.is_deleted() {
+        loop {
+            // Get latest version
+            // Important: allow reading deleted tuples so MVCC can interpret tombstones.
+            let (meta, tuple) = self.table_heap.get_tuple_internal(rid, true)?;
+
+            // Handle visibility based on isolation level
+            let read_ts = match txn.get_isolation_level() {
+                IsolationLevel::ReadUncommitted => {
+                    return if meta.is_deleted() {
                         Err("Tuple is deleted".to_string())
                     } else {
                         Ok((meta, tuple))
-                    }
-                } else {
-                    // Head version is uncommitted by another transaction; walk the chain
-                    // to find the latest committed version that is visible.
-                    self.get_visible_version(rid, txn, txn_manager, meta, tuple)
-                }
-            },
-            _ => self.get_visible_version(rid, txn, txn_manager, meta, tuple),
+                    };
+                },
+                // Every read sees the latest committed version, whenever it was committed.
+                // If the head version is uncommitted by another transaction, the chain is
+                // walked to find it.
+                IsolationLevel::ReadCommitted => Timestamp::MAX,
+                _ => txn.read_ts(),
+            };
+            let visible =
+                self.get_visible_version(rid, &txn, read_ts, &txn_manager, meta.clone(), tuple);
+
+            // The chain is walked without the page latch. It belongs to the version read
+            // above only if that one is still the latest.
+            let (latest, _) = self.table_heap.get_tuple_internal(rid, true)?;
+            if latest == meta {
+                return visible;
+            }
         }
     }
 
@@ -585,13 +587,13 @@ impl TransactionalTableHeap {
     fn get_visible_version(
         &self,
         rid: RID,
-        txn: Arc<Transaction>,
-        txn_manager: Arc<TransactionManager>,
+        txn: &Transaction,
+        read_ts: Timestamp,
+        txn_manager: &TransactionManager,
         meta: Arc<TupleMeta>,
         tuple: Arc<Tuple>,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
         log::debug!(
             "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
             rid,
-- 
2.43.0


From 0c55d66350c7a47dc8499202718ea2f84c5fe232 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 21/81] fix: checking, changing and linking a row is one step,
 and the writer is the transaction itself

---
 src/storage/table/transactional_table_heap.rs | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index ff51697..efd1e41 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -480,7 +480,7 @@ impl TransactionalTableHeap {
 
     pub fn update_tuple(
         &self,
-        meta: &TupleMeta,
+        _meta: &TupleMeta,
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
@@ -492,11 +492,17 @@ impl TransactionalTableHeap {
             return Err("Transaction not in running state".to_string());
         }
 
+        // Check, rewrite and link the row under its page latch, so that no other
+        // writer gets in between and readers see the new row and its link together.
+        let _latch = self.table_heap.acquire_table_write_lock();
+        let page_guard = self.table_heap.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+
         // Get current version for visibility check
-        let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
+        let (current_meta, current_tuple) = page.get_tuple(&rid, false)?;
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != meta.get_creator_txn_id()
+        if current_meta.get_creator_txn_id() != txn.get_transaction_id()
             && !current_meta.is_committed()
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
@@ -530,7 +536,7 @@ impl TransactionalTableHeap {
         let undo_log = UndoLog {
             is_deleted: false,
             modified_fields: vec![true; tuple.get_column_count()],
-            tuple: current_tuple,
+            tuple: Arc::new(current_tuple),
             ts: current_commit_ts.unwrap_or(INVALID_TS),
             prev_version,
             original_rid: Some(rid),
@@ -556,9 +562,6 @@ impl TransactionalTableHeap {
             current_meta.get_undo_log_idx_raw_opt()
         );
 
-        // Update the undo link to point to the current version
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         // Uncommitted versions should not have a commit timestamp.
@@ -574,13 +577,13 @@ impl TransactionalTableHeap {
             new_meta.get_commit_timestamp()
         );
 
-        // Perform update
-        let result = self
-            .table_heap
-            .update_tuple_internal(Arc::from(new_meta), tuple, rid)?;
+        // Perform update; the version chain only changes once the row has
+        page.update_tuple(new_meta, tuple, rid)
+            .map_err(|e| format!("Failed to update tuple: {}", e))?;
+        txn_manager.update_undo_link(rid, Some(undo_link), None);
         txn.append_write_set(self.table_oid, rid);
 
-        Ok(result)
+        Ok(rid)
     }
 
     // Helper method for REPEATABLE_READ and SERIALIZABLE
@@ -749,8 +752,13 @@ impl TransactionalTableHeap {
         // lock_manager.lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
         //     .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
 
+        // Check, rewrite and link the row under its page latch, as for updates
+        let _latch = self.table_heap.acquire_table_write_lock();
+        let page_guard = self.table_heap.get_page(rid.get_page_id())?;
+        let mut page = page_guard.write();
+
         // Get the current version for visibility check
-        let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
+        let (current_meta, current_tuple) = page.get_tuple(&rid, false)?;
 
         // Visibility checks
         if current_meta.get_creator_txn_id() != txn.get_transaction_id()
@@ -787,7 +795,7 @@ impl TransactionalTableHeap {
         let undo_log = UndoLog::new_for_delete(
             true, // Deletion marker
             vec![true; current_tuple.get_column_count()],
-            current_tuple.clone(),
+            Arc::new(current_tuple.clone()),
             current_commit_ts.unwrap_or(INVALID_TS),
             prev_version,
             rid,
@@ -801,9 +809,6 @@ impl TransactionalTableHeap {
             undo_link.prev_log_idx
         );
 
-        // Update version chain
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         new_meta.set_deleted(true); // Mark as deleted
@@ -821,8 +826,11 @@ impl TransactionalTableHeap {
         );
 
         // Update the tuple with deleted metadata
-        self.table_heap
-            .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)?;
+        page.update_tuple(new_meta, &current_tuple, rid)
+            .map_err(|e| format!("Failed to update tuple: {}", e))?;
+
+        // Update version chain
+        txn_manager.update_undo_link(rid, Some(undo_link), None);
         txn.append_write_set(self.table_oid, rid);
 
         Ok(())
-- 
2.43.0


From a77098d06b1a11b09b5f766b4032306bec2dd891 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 22/81] fix: recovery continues the log: cuts off a partly
 written last record and does not reuse LSNs

---
 src/recovery/log_manager.rs               | 12 +++++++++
 src/recovery/log_recovery.rs              | 33 +++++++++++++++++++----
 src/storage/disk/async_disk/io/io_impl.rs |  8 ++++++
 src/storage/disk/async_disk/manager.rs    |  5 ++++
 4 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..9a1d18e 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -531,6 +531,18 @@ impl LogManager {
         lsn
     }
 
+    /// Continues a log that already holds records up to `last_lsn`: new records get later
+    /// LSNs, and everything up to it counts as persistent.
+    pub fn continue_after(&mut self, last_lsn: Lsn) {
+        self.state
+            .next_lsn
+            .fetch_max(last_lsn + 1, Ordering::SeqCst);
+        let persistent = self.state.persistent_lsn.load(Ordering::SeqCst);
+        if persistent == INVALID_LSN || persistent < last_lsn {
+            self.set_persistent_lsn(last_lsn);
+        }
+    }
+
     /// Sets the persistent log sequence number (LSN).
     ///
     /// # Parameters
diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6155949..e34b233 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -341,6 +341,9 @@ impl LogRecoveryManager {
         // Phase 1: Analysis - determine active transactions at time of crash
         let (mut txn_table, mut dirty_page_table, start_redo_lsn) = self.analyze_log().await?;
 
+        // New records continue after the ones in the log
+        self.continue_log().await?;
+
         // Phase 2: Redo - reapply all updates (even from aborted transactions)
         self.redo_log(&mut txn_table, &mut dirty_page_table, start_redo_lsn)
             .await?;
@@ -348,15 +351,35 @@ impl LogRecoveryManager {
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
-        // Update the log manager's persistent LSN
-        let mut log_manager = self.log_manager.write();
-        let lsn = log_manager.get_next_lsn();
-        log_manager.set_persistent_lsn(lsn);
-
         info!("Database recovery completed successfully");
         Ok(())
     }
 
+    /// Prepares the log for new records: a last record that was only partly written is
+    /// cut off, and LSNs go on after the last one in the log.
+    async fn continue_log(&self) -> Result<(), String> {
+        let mut log_iterator = LogIterator::new(self.disk_manager.clone());
+        let mut end = 0;
+        let mut last_lsn = None;
+        while let Some(log_record) = log_iterator.next().await {
+            end = log_iterator.get_offset();
+            last_lsn = last_lsn.max(Some(log_record.get_lsn()));
+        }
+
+        // The iterator stands on the last record if that ends beyond the end of the file
+        if log_iterator.get_offset() == end {
+            self.disk_manager
+                .truncate_log(end)
+                .await
+                .map_err(|e| format!("Failed to cut off a partial log record: {}", e))?;
+        }
+
+        if let Some(last_lsn) = last_lsn {
+            self.log_manager.write().continue_after(last_lsn);
+        }
+        Ok(())
+    }
+
     /// Phase 1: Analyzes the log to identify active transactions and dirty pages.
     ///
     /// # Returns
diff --git a/src/storage/disk/async_disk/io/io_impl.rs b/src/storage/disk/async_disk/io/io_impl.rs
index 1773e43..eac9d22 100644
--- a/src/storage/disk/async_disk/io/io_impl.rs
+++ b/src/storage/disk/async_disk/io/io_impl.rs
@@ -466,6 +466,14 @@ impl AsyncIOEngine {
         Ok(u64::from_le_bytes(offset_bytes))
     }
 
+    /// Cuts the log file off after `len` bytes, and syncs it.
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        let file = self.executor.log_file();
+        let file = file.lock().await;
+        file.set_len(len).await?;
+        file.sync_data().await
+    }
+
     /// Syncs the WAL/log file by executing directly on the caller task.
     ///
     /// This bypasses the queue/worker pipeline for the same reason as `append_log_direct`:
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 693bb4b..8590ff2 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -1444,6 +1444,11 @@ impl AsyncDiskManager {
         self.io_engine.read().await.read_log(offset, size).await
     }
 
+    /// Cuts the log file off after `len` bytes.
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        self.io_engine.read().await.truncate_log(len).await
+    }
+
     /// Writes a log record to the log file
     pub async fn write_log(&self, log_record: &LogRecord) -> IoResult<u64> {
         debug!("Writing log record: {:?}", log_record);
-- 
2.43.0


From 940556823b1f12bea8e4eda90d022e76c4e5ba16 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 23/81] fix: redoing an insert whose row is already on the page
 does not add a second one

---
 src/recovery/log_recovery.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index e34b233..cca2b69 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -672,7 +672,12 @@ impl LogRecoveryManager {
                         let mut page = page_guard.write();
                         let meta = TupleMeta::new(record.get_txn_id());
                         if let Some(tuple) = record.get_insert_tuple() {
-                            let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            // The page may have been written out with the row
+                            if rid.get_slot_num() < u32::from(page.get_num_tuples()) {
+                                let _ = page.update_tuple(meta, tuple, *rid);
+                            } else {
+                                let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            }
                             page.set_dirty(true);
                         }
                     }
-- 
2.43.0


From 3505b3fa2fe8afbf1a3d6dbeb0cf2eed424a563f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 24/81] fix: redo recreates pages that are missing from the
 database file, or were never written there

---
 src/recovery/log_recovery.rs | 52 ++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index cca2b69..4e5e9e6 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -253,12 +253,12 @@ use log::{debug, info, warn};
 use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
-use crate::common::config::{INVALID_LSN, Lsn, PageId, TxnId};
+use crate::common::config::{DB_PAGE_SIZE, INVALID_LSN, Lsn, PageId, TxnId};
 use crate::recovery::log_iterator::LogIterator;
 use crate::recovery::log_manager::LogManager;
 use crate::recovery::log_record::{LogRecord, LogRecordType};
 use crate::storage::disk::async_disk::AsyncDiskManager;
-use crate::storage::page::page_impl::PageTrait;
+use crate::storage::page::page_impl::{Page, PageTrait};
 use crate::storage::page::page_types::table_page::TablePage;
 use crate::storage::table::tuple::TupleMeta;
 
@@ -512,7 +512,12 @@ impl LogRecoveryManager {
 
             if should_redo {
                 debug!("Redoing operation at LSN {}", lsn);
-                self.redo_record(&log_record)?;
+                match (log_record.get_log_record_type(), log_record.get_page_id()) {
+                    (LogRecordType::NewPage, Some(page_id)) => {
+                        self.redo_new_page(*page_id).await?;
+                    },
+                    _ => self.redo_record(&log_record)?,
+                }
             }
         }
 
@@ -726,19 +731,44 @@ impl LogRecoveryManager {
                     }
                 }
             },
-            LogRecordType::NewPage => {
-                if let Some(page_id) = record.get_page_id() {
-                    debug!("Redoing NEW_PAGE for page {}", page_id);
-                    if self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
-                        let _ = self.bpm.new_page::<TablePage>();
-                    }
-                }
-            },
             _ => {}, // Ignore other record types for redo
         }
         Ok(())
     }
 
+    /// Redoes the creation of a page that was never written out.
+    async fn redo_new_page(&self, page_id: PageId) -> Result<(), String> {
+        debug!("Redoing NEW_PAGE for page {}", page_id);
+        if self.bpm.fetch_page::<TablePage>(page_id).is_some() {
+            return Ok(());
+        }
+        let io_error = |e| format!("Failed to redo the creation of page {}: {}", page_id, e);
+        let file_size = self
+            .disk_manager
+            .get_db_file_size()
+            .await
+            .map_err(io_error)?;
+        if page_id * DB_PAGE_SIZE >= file_size {
+            let _ = self.bpm.new_page::<TablePage>();
+            return Ok(());
+        }
+
+        // Later pages were written out, so there may be a gap in the file where this one
+        // belongs; otherwise it holds another kind of page
+        let data = self
+            .disk_manager
+            .read_page(page_id)
+            .await
+            .map_err(io_error)?;
+        if data.iter().all(|byte| *byte == 0) {
+            self.disk_manager
+                .write_page(page_id, TablePage::new(page_id).to_bytes())
+                .await
+                .map_err(io_error)?;
+        }
+        Ok(())
+    }
+
     /// Undo an insert operation
     ///
     /// # Parameters
-- 
2.43.0


From df722853ca2263bc61bbdc7342536b2ea33a35a0 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 25/81] fix: recovery rolls back aborted transactions where
 they were aborted, and logs its own aborts

---
 src/recovery/log_recovery.rs | 149 ++++++++++++++++++++++-------------
 1 file changed, 95 insertions(+), 54 deletions(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 4e5e9e6..f2ab362 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -474,6 +474,10 @@ impl LogRecoveryManager {
             start_redo_lsn
         );
 
+        // The last LSN of each transaction so far, to roll back the ones that were aborted
+        let mut last_lsns = TxnTable::new();
+        let mut lsn_to_offset_map = None;
+
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
 
@@ -519,6 +523,25 @@ impl LogRecoveryManager {
                     _ => self.redo_record(&log_record)?,
                 }
             }
+
+            // An aborted transaction was rolled back at this point: later changes to the
+            // same rows build on that
+            let txn_id = log_record.get_txn_id();
+            match log_record.get_log_record_type() {
+                LogRecordType::Commit => last_lsns.remove_txn(txn_id),
+                LogRecordType::Abort => {
+                    if let Some(last_lsn) = last_lsns.get_prev_lsn(txn_id) {
+                        if lsn_to_offset_map.is_none() {
+                            lsn_to_offset_map = Some(self.build_lsn_offset_map().await?);
+                        }
+                        if let Some(map) = &lsn_to_offset_map {
+                            self.undo_txn(txn_id, last_lsn, map).await?;
+                        }
+                        last_lsns.remove_txn(txn_id);
+                    }
+                },
+                _ => last_lsns.update_txn(txn_id, lsn),
+            }
         }
 
         info!("Redo phase complete");
@@ -540,74 +563,92 @@ impl LogRecoveryManager {
 
         info!("Undoing {} active transactions", active_txns.len());
 
+        // Build a map of LSN to offset in the log file
+        // This requires a full scan of the log to build the LSN-to-offset mapping
+        let lsn_to_offset_map = self.build_lsn_offset_map().await?;
+
         // For each active transaction, undo its operations in reverse LSN order
         for txn_id in active_txns {
             debug!("Undoing transaction {}", txn_id);
 
-            // Start from the last LSN of this transaction
-            let mut current_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
-
-            // Build a map of LSN to offset in the log file
-            // This requires a full scan of the log to build the LSN-to-offset mapping
-            let lsn_to_offset_map = self.build_lsn_offset_map().await?;
-
-            // Continue until we reach the BEGIN record or INVALID_LSN
-            while current_lsn != INVALID_LSN {
-                // Get the offset for this LSN
-                if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
-                    // Create a LogIterator at this specific offset
-                    let mut single_record_iterator =
-                        LogIterator::with_offset(self.disk_manager.clone(), *offset);
-
-                    if let Some(log_record) = single_record_iterator.next().await {
-                        if log_record.get_txn_id() == txn_id {
-                            match log_record.get_log_record_type() {
-                                LogRecordType::Begin => {
-                                    // We've reached the beginning of this transaction
-                                    debug!("Reached BEGIN record for transaction {}", txn_id);
-                                    break;
-                                },
-                                LogRecordType::Insert => {
-                                    // Undo insert by deleting
-                                    self.undo_insert(&log_record)?;
-                                },
-                                LogRecordType::Update => {
-                                    // Undo update by restoring old value
-                                    self.undo_update(&log_record)?;
-                                },
-                                LogRecordType::MarkDelete => {
-                                    // Undo delete by restoring tuple
-                                    self.undo_delete(&log_record)?;
-                                },
-                                LogRecordType::NewPage => {
-                                    // Don't need to undo new page creation
-                                },
-                                _ => {}, // Ignore other record types for undo
-                            }
+            let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
+            self.undo_txn(txn_id, last_lsn, &lsn_to_offset_map).await?;
 
-                            // Move to previous LSN
-                            current_lsn = log_record.get_prev_lsn();
-                        } else {
-                            // This shouldn't happen in a well-formed log
-                            warn!("Found record for different transaction during undo");
-                            break;
+            // Write an ABORT record for this transaction, so that it is rolled back at this
+            // point if the log is recovered again
+            debug!("Writing ABORT record for transaction {}", txn_id);
+            self.log_manager
+                .write()
+                .append_log_record(Arc::new(LogRecord::new_transaction_record(
+                    txn_id,
+                    last_lsn,
+                    LogRecordType::Abort,
+                )));
+        }
+
+        info!("Undo phase complete");
+        Ok(())
+    }
+
+    /// Undoes the operations of one transaction, from its last one back to its BEGIN record.
+    async fn undo_txn(
+        &self,
+        txn_id: TxnId,
+        last_lsn: Lsn,
+        lsn_to_offset_map: &HashMap<Lsn, u64>,
+    ) -> Result<(), String> {
+        let mut current_lsn = last_lsn;
+
+        // Continue until we reach the BEGIN record or INVALID_LSN
+        while current_lsn != INVALID_LSN {
+            // Get the offset for this LSN
+            if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
+                // Create a LogIterator at this specific offset
+                let mut single_record_iterator =
+                    LogIterator::with_offset(self.disk_manager.clone(), *offset);
+
+                if let Some(log_record) = single_record_iterator.next().await {
+                    if log_record.get_txn_id() == txn_id {
+                        match log_record.get_log_record_type() {
+                            LogRecordType::Begin => {
+                                // We've reached the beginning of this transaction
+                                debug!("Reached BEGIN record for transaction {}", txn_id);
+                                break;
+                            },
+                            LogRecordType::Insert => {
+                                // Undo insert by deleting
+                                self.undo_insert(&log_record)?;
+                            },
+                            LogRecordType::Update => {
+                                // Undo update by restoring old value
+                                self.undo_update(&log_record)?;
+                            },
+                            LogRecordType::MarkDelete | LogRecordType::ApplyDelete => {
+                                // Undo delete by restoring tuple
+                                self.undo_delete(&log_record)?;
+                            },
+                            LogRecordType::NewPage => {
+                                // Don't need to undo new page creation
+                            },
+                            _ => {}, // Ignore other record types for undo
                         }
+
+                        // Move to previous LSN
+                        current_lsn = log_record.get_prev_lsn();
                     } else {
-                        warn!("Could not read log record during undo");
+                        // This shouldn't happen in a well-formed log
+                        warn!("Found record for different transaction during undo");
                         break;
                     }
                 } else {
-                    warn!("Could not find offset for LSN {} during undo", current_lsn);
+                    warn!("Could not read log record during undo");
                     break;
                 }
+            } else {
+                warn!("Could not find offset for LSN {} during undo", current_lsn);
+                break;
             }
-
-            // Write an ABORT record for this transaction
-            debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
         }
-
-        info!("Undo phase complete");
         Ok(())
     }
 
-- 
2.43.0


From 78caa74a9d699e909aedea202bcf465627cca7ce Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 26/81] fix: after a failed log write nothing more is written
 or called persistent

---
 src/recovery/log_manager.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index 9a1d18e..b7c0109 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -323,9 +323,13 @@ impl LogManager {
                     }
                 }
 
-                if !records_to_flush.is_empty() {
-                    Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
-                        .await;
+                if !records_to_flush.is_empty()
+                    && !Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
+                        .await
+                {
+                    // Records are missing from the file: what comes after them must not be written,
+                    // let alone be called persistent.
+                    return;
                 }
             }
 
@@ -365,14 +369,18 @@ impl LogManager {
     ///
     /// If a disk write fails, the `stop_flag` is set to prevent false durability
     /// signals. Callers waiting on commit will detect this and stop waiting.
+    ///
+    /// # Returns
+    ///
+    /// Whether all the records were written.
     async fn perform_flush(
         state: &Arc<LogManagerState>,
         records: Vec<Arc<LogRecord>>,
         max_lsn: Lsn,
         flush_reason: &str,
-    ) {
+    ) -> bool {
         if records.is_empty() {
-            return;
+            return true;
         }
 
         let disk_manager = Arc::clone(&state.disk_manager);
@@ -397,6 +405,7 @@ impl LogManager {
                         flush_reason, max_lsn
                     );
                 }
+                true
             },
             Err(e) => {
                 error!(
@@ -406,6 +415,7 @@ impl LogManager {
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
                 state.stop_flag.store(true, Ordering::SeqCst);
+                false
             },
         }
     }
-- 
2.43.0


From fa605714cf67c52cb2e4cd531cd266708c6a0f18 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 27/81] fix: log records are read by their size, also at the
 end of the log

---
 src/recovery/log_manager.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index b7c0109..7691c89 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -242,6 +242,9 @@ struct LogManagerState {
 }
 
 impl LogManager {
+    /// Anything longer cannot be a log record.
+    const MAX_RECORD_SIZE: u32 = 1_000_000;
+
     /// Creates a new `LogManager`.
     ///
     /// # Parameters
@@ -604,7 +607,20 @@ impl LogManager {
     ) -> Option<LogRecord> {
         debug!("Reading log record from offset {}", offset);
 
-        match disk_manager.read_log(offset).await {
+        // The size in front of the record tells how much to read: the record may be longer than any
+        // fixed amount, or end with the file before it.
+        let read = match disk_manager.read_log_sized(offset, 4).await {
+            Ok(header) => {
+                let size = u32::from_le_bytes(header[..4].try_into().unwrap_or_default());
+                if !(4..=Self::MAX_RECORD_SIZE).contains(&size) {
+                    warn!("Invalid log record size {} at offset {}", size, offset);
+                    return None;
+                }
+                disk_manager.read_log_sized(offset, size as usize).await
+            },
+            Err(e) => Err(e),
+        };
+        match read {
             Ok(bytes) => match LogRecord::from_bytes(&bytes) {
                 Ok(record) => {
                     debug!(
-- 
2.43.0


From 083ff2e4aa690b53918a2528f7f753a48ee2393b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:42:09 +0000
Subject: [PATCH 28/81] fix: integer arithmetic on values that overflows is an
 error, not a panic or a wrapped result

---
 src/types_db/value.rs | 116 +++++++++++++++++++++++++++++-------------
 1 file changed, 81 insertions(+), 35 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 66ea03f..9c6451c 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1635,44 +1635,48 @@ impl Type for Value {
         }
 
         match (&self.value_, &other.value_) {
-            (Val::Integer(a), Val::Integer(b)) => {
-                Ok(Value::new_with_type(Val::Integer(a + b), TypeId::Integer))
-            },
-            (Val::BigInt(a), Val::BigInt(b)) => {
-                Ok(Value::new_with_type(Val::BigInt(a + b), TypeId::BigInt))
-            },
+            (Val::Integer(a), Val::Integer(b)) => Ok(Value::new_with_type(
+                Val::Integer(in_range(a.checked_add(*b))?),
+                TypeId::Integer,
+            )),
+            (Val::BigInt(a), Val::BigInt(b)) => Ok(Value::new_with_type(
+                Val::BigInt(in_range(a.checked_add(*b))?),
+                TypeId::BigInt,
+            )),
             (Val::Integer(a), Val::BigInt(b)) => Ok(Value::new_with_type(
-                Val::BigInt(*a as i64 + b),
+                Val::BigInt(in_range((*a as i64).checked_add(*b))?),
                 TypeId::BigInt,
             )),
             (Val::BigInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::BigInt(a + *b as i64),
+                Val::BigInt(in_range(a.checked_add(*b as i64))?),
                 TypeId::BigInt,
             )),
             (Val::Decimal(a), Val::Decimal(b)) => {
                 Ok(Value::new_with_type(Val::Decimal(a + b), TypeId::Decimal))
             },
-            (Val::SmallInt(a), Val::SmallInt(b)) => {
-                Ok(Value::new_with_type(Val::SmallInt(a + b), TypeId::SmallInt))
-            },
-            (Val::TinyInt(a), Val::TinyInt(b)) => {
-                Ok(Value::new_with_type(Val::TinyInt(a + b), TypeId::TinyInt))
-            },
+            (Val::SmallInt(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
+                Val::SmallInt(in_range(a.checked_add(*b))?),
+                TypeId::SmallInt,
+            )),
+            (Val::TinyInt(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
+                Val::TinyInt(in_range(a.checked_add(*b))?),
+                TypeId::TinyInt,
+            )),
             // Promote smaller types to larger ones
             (Val::TinyInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(in_range((*a as i32).checked_add(*b))?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(in_range(a.checked_add(*b as i32))?),
                 TypeId::Integer,
             )),
             (Val::SmallInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(in_range((*a as i32).checked_add(*b))?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(in_range(a.checked_add(*b as i32))?),
                 TypeId::Integer,
             )),
 
@@ -1683,9 +1687,10 @@ impl Type for Value {
             (Val::Timestamp(_), _) => Err("Cannot add Timestamp values".to_string()),
             (Val::Date(_), _) => Err("Cannot add Date values".to_string()),
             (Val::Time(_), _) => Err("Cannot add Time values".to_string()),
-            (Val::Interval(a), Val::Interval(b)) => {
-                Ok(Value::new_with_type(Val::Interval(a + b), TypeId::Interval))
-            },
+            (Val::Interval(a), Val::Interval(b)) => Ok(Value::new_with_type(
+                Val::Interval(in_range(a.checked_add(*b))?),
+                TypeId::Interval,
+            )),
             (Val::VarLen(a), Val::VarLen(b)) => Ok(Value::new_with_type(
                 Val::VarLen(a.clone() + b),
                 TypeId::VarChar,
@@ -1726,22 +1731,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a - b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_sub(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a - b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_sub(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a - b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_sub(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a - b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_sub(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1769,7 +1786,7 @@ impl Type for Value {
                 let b = other.get_val();
                 if let (Val::Interval(a_val), Val::Interval(b_val)) = (a, b) {
                     Ok(Value::new_with_type(
-                        Val::Interval(a_val - b_val),
+                        Val::Interval(in_range(a_val.checked_sub(*b_val))?),
                         TypeId::Interval,
                     ))
                 } else {
@@ -1800,22 +1817,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a * b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_mul(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a * b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_mul(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a * b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_mul(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a * b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_mul(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1866,22 +1895,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a / b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_div(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a / b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_div(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a / b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_div(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a / b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_div(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1934,7 +1975,7 @@ impl Type for Value {
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 if let (Ok(a), Ok(b)) = (self.as_integer(), other.as_integer()) {
-                    Value::new_with_type(Val::Integer(a % b), TypeId::Integer)
+                    Value::new_with_type(Val::Integer(a.wrapping_rem(b)), TypeId::Integer)
                 } else {
                     Value::new(Val::Null)
                 }
@@ -2285,6 +2326,11 @@ impl Debug for Value {
     }
 }
 
+/// The result of a checked integer operation, or an error if it overflowed.
+fn in_range<T>(result: Option<T>) -> Result<T, String> {
+    result.ok_or_else(|| "Arithmetic overflow".to_string())
+}
+
 fn canonical_f32_bits(v: f32) -> u32 {
     // Canonicalize -0.0 and all NaNs for stable Eq/Hash.
     if v == 0.0 {
-- 
2.43.0


From 7848257eca690f9120427751465ad3135c5fa3e4 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:42:26 +0000
Subject: [PATCH 29/81] fix: numbers out of the range of the target type are a
 cast error, not a different number

---
 src/types_db/value.rs | 103 ++++++++++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 9c6451c..9628cde 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -610,16 +610,20 @@ impl Value {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
             },
             (Val::Decimal(f), TypeId::TinyInt) => {
-                Ok(Value::new_with_type(Val::TinyInt(*f as i8), target_type))
+                let i = truncate_in_range(*f, i8::MIN as i64, i8::MAX as i64)?;
+                Ok(Value::new_with_type(Val::TinyInt(i as i8), target_type))
             },
             (Val::Decimal(f), TypeId::SmallInt) => {
-                Ok(Value::new_with_type(Val::SmallInt(*f as i16), target_type))
+                let i = truncate_in_range(*f, i16::MIN as i64, i16::MAX as i64)?;
+                Ok(Value::new_with_type(Val::SmallInt(i as i16), target_type))
             },
             (Val::Decimal(f), TypeId::Integer) => {
-                Ok(Value::new_with_type(Val::Integer(*f as i32), target_type))
+                let i = truncate_in_range(*f, i32::MIN as i64, i32::MAX as i64)?;
+                Ok(Value::new_with_type(Val::Integer(i as i32), target_type))
             },
             (Val::Decimal(f), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*f as i64), target_type))
+                let i = truncate_in_range(*f, i64::MIN, i64::MAX)?;
+                Ok(Value::new_with_type(Val::BigInt(i), target_type))
             },
             (Val::Decimal(f), TypeId::Float) => {
                 Ok(Value::new_with_type(Val::Float(*f as f32), target_type))
@@ -638,16 +642,20 @@ impl Value {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
             },
             (Val::Float(f), TypeId::TinyInt) => {
-                Ok(Value::new_with_type(Val::TinyInt(*f as i8), target_type))
+                let i = truncate_in_range(f64::from(*f), i8::MIN as i64, i8::MAX as i64)?;
+                Ok(Value::new_with_type(Val::TinyInt(i as i8), target_type))
             },
             (Val::Float(f), TypeId::SmallInt) => {
-                Ok(Value::new_with_type(Val::SmallInt(*f as i16), target_type))
+                let i = truncate_in_range(f64::from(*f), i16::MIN as i64, i16::MAX as i64)?;
+                Ok(Value::new_with_type(Val::SmallInt(i as i16), target_type))
             },
             (Val::Float(f), TypeId::Integer) => {
-                Ok(Value::new_with_type(Val::Integer(*f as i32), target_type))
+                let i = truncate_in_range(f64::from(*f), i32::MIN as i64, i32::MAX as i64)?;
+                Ok(Value::new_with_type(Val::Integer(i as i32), target_type))
             },
             (Val::Float(f), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*f as i64), target_type))
+                let i = truncate_in_range(f64::from(*f), i64::MIN, i64::MAX)?;
+                Ok(Value::new_with_type(Val::BigInt(i), target_type))
             },
             (Val::Float(f), TypeId::Decimal) => {
                 Ok(Value::new_with_type(Val::Decimal(*f as f64), target_type))
@@ -950,7 +958,9 @@ impl Value {
                 target_type,
             )),
             (Val::Timestamp(t), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*t as i64), target_type))
+                let i = i64::try_from(*t)
+                    .map_err(|_| format!("Timestamp value {} out of range for BigInt", t))?;
+                Ok(Value::new_with_type(Val::BigInt(i), target_type))
             },
             (Val::Timestamp(t), TypeId::Integer) => {
                 if *t <= i32::MAX as u64 {
@@ -2009,14 +2019,18 @@ impl Type for Value {
             Val::Integer(i) => Ok(*i),
             Val::TinyInt(i) => Ok(*i as i32),
             Val::SmallInt(i) => Ok(*i as i32),
-            Val::BigInt(i) => Ok(*i as i32),
-            Val::Decimal(f) => Ok(*f as i32),
-            Val::Float(f) => Ok(*f as i32),
+            Val::BigInt(i) => i32::try_from(*i).map_err(|e| e.to_string()),
+            Val::Decimal(f) => {
+                truncate_in_range(*f, i32::MIN as i64, i32::MAX as i64).map(|i| i as i32)
+            },
+            Val::Float(f) => {
+                truncate_in_range(f64::from(*f), i32::MIN as i64, i32::MAX as i64).map(|i| i as i32)
+            },
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i32),
+            Val::Timestamp(t) => i32::try_from(*t).map_err(|e| e.to_string()),
             Val::Date(d) => Ok(*d),
             Val::Time(t) => Ok(*t),
-            Val::Interval(i) => Ok(*i as i32),
+            Val::Interval(i) => i32::try_from(*i).map_err(|e| e.to_string()),
             Val::VarLen(s) | Val::ConstLen(s) => s
                 .parse()
                 .map_err(|e| format!("Cannot convert string to integer: {}", e)),
@@ -2037,10 +2051,10 @@ impl Type for Value {
             Val::Integer(i) => Ok(*i as i64),
             Val::SmallInt(i) => Ok(*i as i64),
             Val::TinyInt(i) => Ok(*i as i64),
-            Val::Decimal(f) => Ok(*f as i64),
-            Val::Float(f) => Ok(*f as i64),
+            Val::Decimal(f) => truncate_in_range(*f, i64::MIN, i64::MAX),
+            Val::Float(f) => truncate_in_range(f64::from(*f), i64::MIN, i64::MAX),
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i64),
+            Val::Timestamp(t) => i64::try_from(*t).map_err(|e| e.to_string()),
             Val::Date(d) => Ok(*d as i64),
             Val::Time(t) => Ok(*t as i64),
             Val::Interval(i) => Ok(*i),
@@ -2062,15 +2076,19 @@ impl Type for Value {
         match &self.value_ {
             Val::SmallInt(i) => Ok(*i),
             Val::TinyInt(i) => Ok(*i as i16),
-            Val::Integer(i) => Ok(*i as i16),
-            Val::BigInt(i) => Ok(*i as i16),
-            Val::Decimal(f) => Ok(*f as i16),
-            Val::Float(f) => Ok(*f as i16),
+            Val::Integer(i) => i16::try_from(*i).map_err(|e| e.to_string()),
+            Val::BigInt(i) => i16::try_from(*i).map_err(|e| e.to_string()),
+            Val::Decimal(f) => {
+                truncate_in_range(*f, i16::MIN as i64, i16::MAX as i64).map(|i| i as i16)
+            },
+            Val::Float(f) => {
+                truncate_in_range(f64::from(*f), i16::MIN as i64, i16::MAX as i64).map(|i| i as i16)
+            },
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i16),
-            Val::Date(d) => Ok(*d as i16),
-            Val::Time(t) => Ok(*t as i16),
-            Val::Interval(i) => Ok(*i as i16),
+            Val::Timestamp(t) => i16::try_from(*t).map_err(|e| e.to_string()),
+            Val::Date(d) => i16::try_from(*d).map_err(|e| e.to_string()),
+            Val::Time(t) => i16::try_from(*t).map_err(|e| e.to_string()),
+            Val::Interval(i) => i16::try_from(*i).map_err(|e| e.to_string()),
             Val::VarLen(s) | Val::ConstLen(s) => s
                 .parse()
                 .map_err(|e| format!("Cannot convert string to smallint: {}", e)),
@@ -2088,16 +2106,20 @@ impl Type for Value {
     fn as_tinyint(&self) -> Result<i8, String> {
         match &self.value_ {
             Val::TinyInt(i) => Ok(*i),
-            Val::SmallInt(i) => Ok(*i as i8),
-            Val::Integer(i) => Ok(*i as i8),
-            Val::BigInt(i) => Ok(*i as i8),
-            Val::Decimal(f) => Ok(*f as i8),
-            Val::Float(f) => Ok(*f as i8),
+            Val::SmallInt(i) => i8::try_from(*i).map_err(|e| e.to_string()),
+            Val::Integer(i) => i8::try_from(*i).map_err(|e| e.to_string()),
+            Val::BigInt(i) => i8::try_from(*i).map_err(|e| e.to_string()),
+            Val::Decimal(f) => {
+                truncate_in_range(*f, i8::MIN as i64, i8::MAX as i64).map(|i| i as i8)
+            },
+            Val::Float(f) => {
+                truncate_in_range(f64::from(*f), i8::MIN as i64, i8::MAX as i64).map(|i| i as i8)
+            },
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i8),
-            Val::Date(d) => Ok(*d as i8),
-            Val::Time(t) => Ok(*t as i8),
-            Val::Interval(i) => Ok(*i as i8),
+            Val::Timestamp(t) => i8::try_from(*t).map_err(|e| e.to_string()),
+            Val::Date(d) => i8::try_from(*d).map_err(|e| e.to_string()),
+            Val::Time(t) => i8::try_from(*t).map_err(|e| e.to_string()),
+            Val::Interval(i) => i8::try_from(*i).map_err(|e| e.to_string()),
             Val::VarLen(s) | Val::ConstLen(s) => s
                 .parse()
                 .map_err(|e| format!("Cannot convert string to tinyint: {}", e)),
@@ -2105,7 +2127,7 @@ impl Type for Value {
             Val::JSON(_) => Err("Cannot convert JSON to tinyint".to_string()),
             Val::UUID(_) => Err("Cannot convert UUID to tinyint".to_string()),
             Val::Vector(v) | Val::Array(v) => Ok(v.len() as i8),
-            Val::Enum(id, _) => Ok(*id as i8),
+            Val::Enum(id, _) => i8::try_from(*id).map_err(|e| e.to_string()),
             Val::Point(_, _) => Err("Cannot convert point to tinyint".to_string()),
             Val::Null => Err("Cannot convert NULL to tinyint".to_string()),
             Val::Struct => Ok(1), // Struct is considered as 1
@@ -2331,6 +2353,17 @@ fn in_range<T>(result: Option<T>) -> Result<T, String> {
     result.ok_or_else(|| "Arithmetic overflow".to_string())
 }
 
+/// The integer a floating point number truncates to, if it lies in `min..=max`.
+fn truncate_in_range(f: f64, min: i64, max: i64) -> Result<i64, String> {
+    let t = f.trunc();
+    // As a float, `i64::MAX` is 2^63, which is out of range itself.
+    if t >= min as f64 && t <= max as f64 && t < -(i64::MIN as f64) {
+        Ok(t as i64)
+    } else {
+        Err(format!("Value {} out of range for {}..={}", f, min, max))
+    }
+}
+
 fn canonical_f32_bits(v: f32) -> u32 {
     // Canonicalize -0.0 and all NaNs for stable Eq/Hash.
     if v == 0.0 {
-- 
2.43.0


From dc98ec4c8c2d8f0c96d40e76dca4c0ec56a1c51d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:42:26 +0000
Subject: [PATCH 30/81] fix: integers and decimals are compared with floats
 without rounding them to single precision

---
 src/types_db/value.rs | 52 +++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 9628cde..40845b4 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1340,13 +1340,13 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 == *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 == *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 == *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f64 == f64::from(*b)),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a == *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a == *b as i64),
             (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 == *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 == *b),
+            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f64 == f64::from(*b)),
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a == *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as f64),
@@ -1356,8 +1356,8 @@ impl Type for Value {
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a == *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a == *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a == *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(f64::from(*a) == *b as f64),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(f64::from(*a) == *b as f64),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) == *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a == *b),
             _ => {
@@ -1391,13 +1391,13 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 != *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 != *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 != *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f64 != f64::from(*b)),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a != *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a != *b as i64),
             (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 != *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 != *b),
+            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f64 != f64::from(*b)),
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a != *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as f64),
@@ -1407,8 +1407,8 @@ impl Type for Value {
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a != *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a != *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a != *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(f64::from(*a) != *b as f64),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(f64::from(*a) != *b as f64),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) != *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a != *b),
             _ => {
@@ -1445,13 +1445,13 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as i32)),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from((*a as i64) < *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from((*a as f32) < *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from((*a as f64) < f64::from(*b)),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a < (*b as i64)),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as i64)),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a < (*b as i64)),
             (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from((*a as f32) < *b),
+            (Val::BigInt(a), Val::Float(b)) => CmpBool::from((*a as f64) < f64::from(*b)),
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a < (*b as f64)),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as f64)),
@@ -1461,8 +1461,8 @@ impl Type for Value {
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a < (*b as f32)),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as f32)),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a < (*b as f32)),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a < (*b as f32)),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(f64::from(*a) < (*b as f64)),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(f64::from(*a) < (*b as f64)),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
             _ => {
                 // Check if types match before comparing values
@@ -1498,22 +1498,22 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 <= *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 <= *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 <= *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from((*a as f64) <= f64::from(*b)),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a <= *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a <= *b as i64),
             (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 <= *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 <= *b),
+            (Val::BigInt(a), Val::Float(b)) => CmpBool::from((*a as f64) <= f64::from(*b)),
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f64),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a <= *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(f64::from(*a) <= *b as f64),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(f64::from(*a) <= *b as f64),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(f64::from(*a) <= *b),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
@@ -1553,13 +1553,13 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 > *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 > *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 > *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f64 > f64::from(*b)),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a > *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a > *b as i64),
             (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 > *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 > *b),
+            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f64 > f64::from(*b)),
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a > *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as f64),
@@ -1569,8 +1569,8 @@ impl Type for Value {
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a > *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a > *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a > *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(f64::from(*a) > *b as f64),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(f64::from(*a) > *b as f64),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) > *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a > *b),
 
@@ -1608,13 +1608,13 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 >= *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 >= *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 >= *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f64 >= f64::from(*b)),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a >= *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a >= *b as i64),
             (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 >= *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 >= *b),
+            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f64 >= f64::from(*b)),
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a >= *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f64),
@@ -1624,9 +1624,9 @@ impl Type for Value {
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a >= *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(f64::from(*a) >= *b as f64),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(f64::from(*a) >= *b as f64),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(f64::from(*a) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
             _ => {
                 // Check if types match before comparing values
-- 
2.43.0


From 44f1972739091fe986ddce4234ef790c647c5578 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:28 +0000
Subject: [PATCH 31/81] fix: numbers of different types are compared by value,
 not after a lossy cast

---
 src/sql/execution/expressions/comparison_expression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..f7d9b4d 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -93,7 +93,10 @@ impl ComparisonExpression {
         }
 
         // If types are different, try casting to make them comparable
-        if lhs.get_type_id() != rhs.get_type_id() {
+        // Numbers of different types are compared as they are: casting one to the other's type
+        // would lose its fraction or fail for a value out of range.
+        let both_numeric = lhs.is_numeric() && rhs.is_numeric();
+        if lhs.get_type_id() != rhs.get_type_id() && !both_numeric {
             // Try casting left to right type first
             if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
                 let cast_result = match self.comp_type {
-- 
2.43.0


From 07b5a4701304bae18cab170256c9cc7388a9ba22 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:28 +0000
Subject: [PATCH 32/81] fix: BETWEEN with a NULL operand is unknown unless the
 other bound decides it

---
 .../expressions/between_expression.rs         | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/expressions/between_expression.rs b/src/sql/execution/expressions/between_expression.rs
index 3597c68..3cee013 100644
--- a/src/sql/execution/expressions/between_expression.rs
+++ b/src/sql/execution/expressions/between_expression.rs
@@ -7,7 +7,8 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct BetweenExpression {
@@ -38,6 +39,19 @@ impl BetweenExpression {
             children,
         }
     }
+
+    /// `value >= low AND value <= high` (or its negation), which is unknown if a NULL decides it.
+    fn is_between(&self, value: &Value, low: &Value, high: &Value) -> Value {
+        let between = match (
+            value.compare_greater_than_equals(low),
+            value.compare_less_than_equals(high),
+        ) {
+            (CmpBool::CmpFalse, _) | (_, CmpBool::CmpFalse) => false,
+            (CmpBool::CmpTrue, CmpBool::CmpTrue) => true,
+            _ => return Value::new(Val::Null),
+        };
+        Value::new(between != self.negated)
+    }
 }
 
 impl ExpressionOps for BetweenExpression {
@@ -46,10 +60,7 @@ impl ExpressionOps for BetweenExpression {
         let low = self.low.evaluate(tuple, schema)?;
         let high = self.high.evaluate(tuple, schema)?;
 
-        // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.is_between(&value, &low, &high))
     }
 
     fn evaluate_join(
@@ -69,10 +80,7 @@ impl ExpressionOps for BetweenExpression {
             .high
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.is_between(&value, &low, &high))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 7cb1c2f2b95637db956841f918d74bbfa39a28af Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 33/81] fix: a CASE condition that is NULL does not hold, and
 bases are compared like =

---
 src/sql/execution/expressions/case_expression.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 7b7df1b..dc0dbd0 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{self, CmpBool};
 use crate::types_db::value::{Val, Value};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -113,7 +114,7 @@ impl ExpressionOps for CaseExpression {
             let when_value = when_expr.evaluate(tuple, schema)?;
             let matches = match &base_value {
                 // For CASE expr WHEN ... form, compare base_value with when_value
-                Some(base) => base == &when_value,
+                Some(base) => types::Type::compare_equals(base, &when_value) == CmpBool::CmpTrue,
                 // For CASE WHEN ... form, check if when_value is true
                 None => match when_value.get_val() {
                     Val::Boolean(b) => {
@@ -123,6 +124,8 @@ impl ExpressionOps for CaseExpression {
                         );
                         *b
                     },
+                    // An unknown condition does not hold.
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
@@ -176,9 +179,11 @@ impl ExpressionOps for CaseExpression {
             let when_value =
                 when_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
             let matches = match &base_value {
-                Some(base) => base == &when_value,
+                Some(base) => types::Type::compare_equals(base, &when_value) == CmpBool::CmpTrue,
                 None => match when_value.get_val() {
                     Val::Boolean(b) => *b,
+                    // An unknown condition does not hold.
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
-- 
2.43.0


From 48537ab656de82c0d04ff116e434eb95b55be2e1 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 34/81] fix: a NOT expression can be cloned with new children

---
 src/sql/execution/expressions/logic_expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/logic_expression.rs b/src/sql/execution/expressions/logic_expression.rs
index 43ca410..1836638 100644
--- a/src/sql/execution/expressions/logic_expression.rs
+++ b/src/sql/execution/expressions/logic_expression.rs
@@ -175,8 +175,14 @@ impl ExpressionOps for LogicExpression {
     }
 
     fn clone_with_children(&self, children: Vec<Arc<Expression>>) -> Arc<Expression> {
+        if self.logic_type == LogicType::Not {
+            assert_eq!(children.len(), 1, "NOT requires exactly one child");
+            return Arc::new(Expression::Logic(LogicExpression::new_not(
+                children[0].clone(),
+            )));
+        }
         if children.len() != 2 {
-            panic!("ArithmeticExpression requires exactly two children");
+            panic!("LogicExpression requires exactly two children");
         }
 
         Arc::new(Expression::Logic(LogicExpression {
-- 
2.43.0


From 228114a2617304819864deb88902b506240b6faa Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 35/81] fix: negating the least integer is an error, and floats
 can be negated

---
 .../expressions/unary_op_expression.rs        | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/expressions/unary_op_expression.rs b/src/sql/execution/expressions/unary_op_expression.rs
index fd49cb1..5dac325 100644
--- a/src/sql/execution/expressions/unary_op_expression.rs
+++ b/src/sql/execution/expressions/unary_op_expression.rs
@@ -5,7 +5,7 @@ use sqlparser::ast::UnaryOperator;
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
-use crate::common::exception::ExpressionError;
+use crate::common::exception::{ArithmeticExpressionError, ExpressionError};
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
@@ -41,6 +41,7 @@ impl UnaryOpExpression {
                         | TypeId::Integer
                         | TypeId::BigInt
                         | TypeId::Decimal
+                        | TypeId::Float
                         | TypeId::Invalid
                 ) {
                     return Err(format!(
@@ -69,6 +70,15 @@ impl UnaryOpExpression {
     }
 }
 
+/// The negation of an integer, which may be out of range.
+fn negated<T: Into<Val>>(value: Option<T>) -> Result<Value, ExpressionError> {
+    value
+        .map(Value::new)
+        .ok_or(ExpressionError::ArithmeticError(
+            ArithmeticExpressionError::Overflow,
+        ))
+}
+
 impl ExpressionOps for UnaryOpExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         let val = self.expr.evaluate(tuple, schema)?;
@@ -91,11 +101,12 @@ impl ExpressionOps for UnaryOpExpression {
                     return Ok(Value::new(Val::Null));
                 }
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => negated(i.checked_neg()),
+                    Val::SmallInt(i) => negated(i.checked_neg()),
+                    Val::Integer(i) => negated(i.checked_neg()),
+                    Val::BigInt(i) => negated(i.checked_neg()),
                     Val::Decimal(f) => Ok(Value::new(-f)),
+                    Val::Float(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
                     )),
@@ -137,11 +148,12 @@ impl ExpressionOps for UnaryOpExpression {
                     return Ok(Value::new(Val::Null));
                 }
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => negated(i.checked_neg()),
+                    Val::SmallInt(i) => negated(i.checked_neg()),
+                    Val::Integer(i) => negated(i.checked_neg()),
+                    Val::BigInt(i) => negated(i.checked_neg()),
                     Val::Decimal(f) => Ok(Value::new(-f)),
+                    Val::Float(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
                     )),
@@ -195,6 +207,7 @@ impl ExpressionOps for UnaryOpExpression {
                         | TypeId::Integer
                         | TypeId::BigInt
                         | TypeId::Decimal
+                        | TypeId::Float
                 ) {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "Numeric operator requires numeric operand, got {:?}",
-- 
2.43.0


From cd38701252733cdcbf12bc25ed3e190e969decd3 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 36/81] fix: the operands of decimal and integer arithmetic
 keep their order

---
 .../expressions/arithmetic_expression.rs      | 38 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index db6e53e..9c07608 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -801,7 +801,7 @@ impl ExpressionOps for ArithmeticExpression {
                 };
                 Ok(Value::from(result))
             },
-            (Val::Integer(l), Val::Decimal(r)) | (Val::Decimal(r), Val::Integer(l)) => {
+            (Val::Integer(l), Val::Decimal(r)) => {
                 let l = *l as f64;
                 let r = *r;
                 let result = match self.op {
@@ -818,6 +818,23 @@ impl ExpressionOps for ArithmeticExpression {
                 };
                 Ok(Value::from(result))
             },
+            (Val::Decimal(l), Val::Integer(r)) => {
+                let l = *l;
+                let r = *r as f64;
+                let result = match self.op {
+                    ArithmeticOp::Add => l + r,
+                    ArithmeticOp::Subtract => l - r,
+                    ArithmeticOp::Multiply => l * r,
+                    ArithmeticOp::Divide => {
+                        if r != 0.0 {
+                            Ok(l / r)
+                        } else {
+                            Err(ExpressionError::ArithmeticError(DivisionByZero))
+                        }?
+                    },
+                };
+                Ok(Value::from(result))
+            },
             (Val::BigInt(l), Val::Integer(r)) => {
                 let result = match self.op {
                     ArithmeticOp::Add => l.checked_add(*r as i64),
@@ -850,7 +867,7 @@ impl ExpressionOps for ArithmeticExpression {
                     .map(Value::from)
                     .ok_or(ExpressionError::ArithmeticError(Overflow))
             },
-            (Val::BigInt(l), Val::Decimal(r)) | (Val::Decimal(r), Val::BigInt(l)) => {
+            (Val::BigInt(l), Val::Decimal(r)) => {
                 let l = *l as f64;
                 let r = *r;
                 let result = match self.op {
@@ -867,6 +884,23 @@ impl ExpressionOps for ArithmeticExpression {
                 };
                 Ok(Value::from(result))
             },
+            (Val::Decimal(l), Val::BigInt(r)) => {
+                let l = *l;
+                let r = *r as f64;
+                let result = match self.op {
+                    ArithmeticOp::Add => l + r,
+                    ArithmeticOp::Subtract => l - r,
+                    ArithmeticOp::Multiply => l * r,
+                    ArithmeticOp::Divide => {
+                        if r != 0.0 {
+                            Ok(l / r)
+                        } else {
+                            Err(ExpressionError::ArithmeticError(DivisionByZero))
+                        }?
+                    },
+                };
+                Ok(Value::from(result))
+            },
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
-- 
2.43.0


From e17e55eb08a45906e7e0ac77d347db08494b612c Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 37/81] fix: arithmetic in a join condition supports the same
 operands as elsewhere

---
 .../expressions/arithmetic_expression.rs      | 157 ++----------------
 1 file changed, 12 insertions(+), 145 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index 9c07608..5f0f8bb 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -135,11 +135,8 @@ impl ArithmeticExpression {
     }
 }
 
-impl ExpressionOps for ArithmeticExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_value = self.get_left().evaluate(tuple, schema)?;
-        let right_value = self.get_right().evaluate(tuple, schema)?;
-
+impl ArithmeticExpression {
+    fn compute(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
         match (left_value.get_val(), right_value.get_val()) {
             // TinyInt operations
             (Val::TinyInt(l), Val::TinyInt(r)) => {
@@ -748,6 +745,15 @@ impl ExpressionOps for ArithmeticExpression {
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
+}
+
+impl ExpressionOps for ArithmeticExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_value = self.get_left().evaluate(tuple, schema)?;
+        let right_value = self.get_right().evaluate(tuple, schema)?;
+
+        self.compute(&left_value, &right_value)
+    }
 
     fn evaluate_join(
         &self,
@@ -763,146 +769,7 @@ impl ExpressionOps for ArithmeticExpression {
             self.get_right()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        match (left_value.get_val(), right_value.get_val()) {
-            (Val::Integer(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Decimal(l), Val::Decimal(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l + *r,
-                    ArithmeticOp::Subtract => l - *r,
-                    ArithmeticOp::Multiply => l * *r,
-                    ArithmeticOp::Divide => {
-                        if *r != 0.0 {
-                            Ok(l / *r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Integer(l), Val::Decimal(r)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Decimal(l), Val::Integer(r)) => {
-                let l = *l;
-                let r = *r as f64;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::BigInt(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r as i64),
-                    ArithmeticOp::Subtract => l.checked_sub(*r as i64),
-                    ArithmeticOp::Multiply => l.checked_mul(*r as i64),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        l.checked_div(*r as i64)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Integer(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => (*l as i64).checked_add(*r),
-                    ArithmeticOp::Subtract => (*l as i64).checked_sub(*r),
-                    ArithmeticOp::Multiply => (*l as i64).checked_mul(*r),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        (*l as i64).checked_div(*r)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::Decimal(r)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Decimal(l), Val::BigInt(r)) => {
-                let l = *l;
-                let r = *r as f64;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            _ => Err(ExpressionError::ArithmeticError(Unknown)),
-        }
+        self.compute(&left_value, &right_value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From fe8cc43dcc4a0b4f226f31bcc1980897b07d1d33 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 38/81] fix: a binary operation in a join condition is applied
 to its operands

---
 .../expressions/binary_op_expression.rs       | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/sql/execution/expressions/binary_op_expression.rs b/src/sql/execution/expressions/binary_op_expression.rs
index 2d78b5d..8bc311a 100644
--- a/src/sql/execution/expressions/binary_op_expression.rs
+++ b/src/sql/execution/expressions/binary_op_expression.rs
@@ -203,29 +203,24 @@ impl BinaryOpExpression {
             )),
         }
     }
-}
-
-impl ExpressionOps for BinaryOpExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_val = self.left.evaluate(tuple, schema)?;
-        let right_val = self.right.evaluate(tuple, schema)?;
 
+    fn apply(&self, left_val: &Value, right_val: &Value) -> Result<Value, ExpressionError> {
         match self.op {
             BinaryOperator::Plus
             | BinaryOperator::Minus
             | BinaryOperator::Multiply
             | BinaryOperator::Divide
-            | BinaryOperator::Modulo => self.evaluate_arithmetic(&left_val, &right_val),
+            | BinaryOperator::Modulo => self.evaluate_arithmetic(left_val, right_val),
 
             BinaryOperator::Eq
             | BinaryOperator::NotEq
             | BinaryOperator::Gt
             | BinaryOperator::Lt
             | BinaryOperator::GtEq
-            | BinaryOperator::LtEq => self.evaluate_comparison(&left_val, &right_val),
+            | BinaryOperator::LtEq => self.evaluate_comparison(left_val, right_val),
 
             BinaryOperator::And | BinaryOperator::Or => {
-                self.evaluate_logical(&left_val, &right_val)
+                self.evaluate_logical(left_val, right_val)
             },
 
             BinaryOperator::StringConcat => match (left_val.get_val(), right_val.get_val()) {
@@ -241,6 +236,15 @@ impl ExpressionOps for BinaryOpExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for BinaryOpExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_val = self.left.evaluate(tuple, schema)?;
+        let right_val = self.right.evaluate(tuple, schema)?;
+
+        self.apply(&left_val, &right_val)
+    }
 
     fn evaluate_join(
         &self,
@@ -257,15 +261,8 @@ impl ExpressionOps for BinaryOpExpression {
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
         // Create a schema that matches our values
-        let temp_schema = Schema::new(vec![
-            Column::new("left_val", left_val.get_type_id()),
-            Column::new("right_val", right_val.get_type_id()),
-        ]);
-
-        self.evaluate(
-            &Tuple::new(&[left_val, right_val], &temp_schema, left_tuple.get_rid()),
-            &temp_schema,
-        )
+
+        self.apply(&left_val, &right_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 4854d56cf7583dac3394bf673f53d35c9ff50df1 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:49:01 +0000
Subject: [PATCH 39/81] fix: NULL LIKE anything is NULL

---
 src/sql/execution/expressions/like_expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 4bc970a..6245491 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -7,7 +7,7 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct LikeExpression {
@@ -120,6 +120,9 @@ impl ExpressionOps for LikeExpression {
         let value = self.get_expr().evaluate(tuple, schema)?;
         let pattern = self.get_pattern().evaluate(tuple, schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -141,6 +144,9 @@ impl ExpressionOps for LikeExpression {
             self.get_pattern()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
-- 
2.43.0


From d33ee40d4e3c6d03e698baf7f82d499c0b92820e Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 40/81] fix: LIKE with a wildcard before characters of more
 than one byte does not panic

---
 src/sql/execution/expressions/like_expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 6245491..4fa5931 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -74,7 +74,9 @@ impl LikeExpression {
                     }
 
                     let remaining_value: String = value_chars.clone().collect();
-                    for i in 0..=remaining_value.len() {
+                    let splits =
+                        (0..=remaining_value.len()).filter(|&i| remaining_value.is_char_boundary(i));
+                    for i in splits {
                         let test_value = &remaining_value[i..];
                         if self.matches_pattern(test_value, &remaining_pattern, escape) {
                             return true;
-- 
2.43.0


From 20571099c8104e9421af9b8240d31a713ae9e06f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:49:18 +0000
Subject: [PATCH 41/81] fix: IS DISTINCT FROM compares numbers of different
 types like =

---
 src/sql/execution/expressions/is_distinct_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/is_distinct_expression.rs b/src/sql/execution/expressions/is_distinct_expression.rs
index f601fde..100685b 100644
--- a/src/sql/execution/expressions/is_distinct_expression.rs
+++ b/src/sql/execution/expressions/is_distinct_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -50,7 +51,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true
         } else {
-            left_val != right_val
+            left_val.compare_not_equals(&right_val) == CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
@@ -79,7 +80,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true // NULL IS DISTINCT FROM any non-NULL value
         } else {
-            left_val != right_val
+            left_val.compare_not_equals(&right_val) == CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
-- 
2.43.0


From 8a3718bdf15dfc7d72d5e5863897cd11bc365f66 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:49:29 +0000
Subject: [PATCH 42/81] fix: a cast in a join condition is the same cast as
 elsewhere, and cloning keeps its format

---
 .../execution/expressions/cast_expression.rs  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sql/execution/expressions/cast_expression.rs b/src/sql/execution/expressions/cast_expression.rs
index 92d341d..e5e01ae 100644
--- a/src/sql/execution/expressions/cast_expression.rs
+++ b/src/sql/execution/expressions/cast_expression.rs
@@ -62,12 +62,8 @@ impl CastExpression {
             Ok(value)
         }
     }
-}
-
-impl ExpressionOps for CastExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let value = self.expr.evaluate(tuple, schema)?;
 
+    fn cast(&self, value: Value) -> Result<Value, ExpressionError> {
         // Handle NULL values first - return NULL of target type
         if value.is_null() {
             return Ok(Value::new_with_type(Val::Null, self.target_type));
@@ -150,6 +146,13 @@ impl ExpressionOps for CastExpression {
 
         self.apply_format(cast_result)
     }
+}
+
+impl ExpressionOps for CastExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let value = self.expr.evaluate(tuple, schema)?;
+        self.cast(value)
+    }
 
     fn evaluate_join(
         &self,
@@ -161,9 +164,7 @@ impl ExpressionOps for CastExpression {
         let value = self
             .expr
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        value
-            .cast_to(self.target_type)
-            .map_err(|e| ExpressionError::CastError(e.to_string()))
+        self.cast(value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
@@ -182,10 +183,9 @@ impl ExpressionOps for CastExpression {
         if children.len() != 1 {
             panic!("CastExpression requires exactly one child");
         }
-        Arc::new(Expression::Cast(CastExpression::new(
-            children[0].clone(),
-            self.target_type,
-        )))
+        let mut clone = CastExpression::new(children[0].clone(), self.target_type);
+        clone.format = self.format.clone();
+        Arc::new(Expression::Cast(clone))
     }
 
     fn validate(&self, schema: &Schema) -> Result<(), ExpressionError> {
-- 
2.43.0


From 128798820556f1a7b5f971e9c699fc35c623fe86 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:49:30 +0000
Subject: [PATCH 43/81] fix: casts between decimals and integers are checked
 for range, and those validated are performed

---
 .../execution/expressions/cast_expression.rs  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sql/execution/expressions/cast_expression.rs b/src/sql/execution/expressions/cast_expression.rs
index e5e01ae..173332b 100644
--- a/src/sql/execution/expressions/cast_expression.rs
+++ b/src/sql/execution/expressions/cast_expression.rs
@@ -73,10 +73,9 @@ impl CastExpression {
             // Decimal to Integer casting
             (TypeId::Decimal, TypeId::Integer) => {
                 if let Val::Decimal(d) = value.get_val() {
-                    Ok(Value::new_with_type(
-                        Val::Integer(d.round() as i32),
-                        TypeId::Integer,
-                    ))
+                    Value::new(d.round())
+                        .cast_to(TypeId::Integer)
+                        .map_err(ExpressionError::CastError)
                 } else {
                     Err(ExpressionError::CastError(
                         "Invalid value for decimal to integer cast".to_string(),
@@ -137,6 +136,19 @@ impl CastExpression {
             // Same type - return as is
             (source, target) if source == target => Ok(value),
 
+            // The other casts that validation admits
+            (TypeId::Decimal, TypeId::BigInt) => match value.get_val() {
+                Val::Decimal(d) => Value::new(d.round())
+                    .cast_to(TypeId::BigInt)
+                    .map_err(ExpressionError::CastError),
+                _ => value
+                    .cast_to(TypeId::BigInt)
+                    .map_err(ExpressionError::CastError),
+            },
+            (TypeId::BigInt, TypeId::Integer | TypeId::Decimal) => value
+                .cast_to(self.target_type)
+                .map_err(ExpressionError::CastError),
+
             // Invalid cast
             (source, target) => Err(ExpressionError::InvalidCast {
                 from: source,
-- 
2.43.0


From 963fd07c3e9dc40dacb7fe099ca826b5e597305b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 44/81] fix: every kind of expression in a join condition sees
 both tuples

---
 .../expressions/abstract_expression.rs        | 124 +++++++++++++-----
 1 file changed, 93 insertions(+), 31 deletions(-)

diff --git a/src/sql/execution/expressions/abstract_expression.rs b/src/sql/execution/expressions/abstract_expression.rs
index a7a201b..57fafe5 100644
--- a/src/sql/execution/expressions/abstract_expression.rs
+++ b/src/sql/execution/expressions/abstract_expression.rs
@@ -239,12 +239,18 @@ impl ExpressionOps for Expression {
                 // For mock expressions, we'll just use the regular evaluate
                 expr.evaluate(left_tuple, left_schema)
             },
-            Self::Aggregate(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Aggregate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Window(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Cast(expr) => expr.evaluate(left_tuple, right_schema),
-            Self::Case(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Cast(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Case(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Function(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
@@ -263,37 +269,93 @@ impl ExpressionOps for Expression {
             Self::Extract(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Exists(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Regex(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::DateTime(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Coalesce(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Random(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Trim(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Interval(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::GroupingSets(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Filter(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsDistinct(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Exists(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Regex(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::DateTime(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Coalesce(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Random(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Trim(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Interval(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::GroupingSets(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Filter(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsDistinct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Position(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Method(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Struct(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Overlay(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Collate(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::AtTimeZone(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::MapAccess(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Tuple(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Wildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::QualifiedWildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::TypedString(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Subscript(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsCheck(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::BinaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Any(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::All(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::UnaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Convert(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::CeilFloor(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Method(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Struct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Overlay(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Collate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::AtTimeZone(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::MapAccess(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Tuple(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Wildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::QualifiedWildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::TypedString(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Subscript(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsCheck(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::BinaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Any(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::All(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::UnaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Convert(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::CeilFloor(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Substring(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-- 
2.43.0


From f78ef2420842acb728f6d0522071982840d1104d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 45/81] fix: outer nested loop joins keep every right row, also
 equal ones and without left rows

---
 .../executors/nested_loop_join_executor.rs    | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/sql/execution/executors/nested_loop_join_executor.rs b/src/sql/execution/executors/nested_loop_join_executor.rs
index dfee6f2..ae1fe38 100644
--- a/src/sql/execution/executors/nested_loop_join_executor.rs
+++ b/src/sql/execution/executors/nested_loop_join_executor.rs
@@ -193,6 +193,9 @@ pub struct JoinState {
 
     /// Right tuples that have been matched (for full outer joins)
     pub matched_right_tuples: std::collections::HashSet<usize>,
+
+    /// Position in the current scan of the right side of the next tuple.
+    pub right_position: usize,
 }
 
 impl Default for JoinState {
@@ -216,6 +219,7 @@ impl JoinState {
             unmatched_left_index: 0,
             all_right_tuples: Vec::new(),
             matched_right_tuples: std::collections::HashSet::new(),
+            right_position: 0,
         }
     }
 
@@ -224,6 +228,7 @@ impl JoinState {
         self.current_left_tuple = Some(left_tuple);
         self.current_left_matched = false;
         self.right_executor_exhausted = false;
+        self.right_position = 0;
     }
 
     /// Mark current left tuple as matched
@@ -1088,6 +1093,12 @@ impl NestedLoopJoinExecutor {
                 if !self.join_state.right_executor_exhausted {
                     match self.executor_manager.get_next_right_tuple()? {
                         Some((right_tuple, right_rid)) => {
+                            // Every scan of the right side returns its tuples in the same
+                            // order, so the position in the scan identifies a tuple (its
+                            // values do not: equal rows are different rows).
+                            let right_index = self.join_state.right_position;
+                            self.join_state.right_position += 1;
+
                             // For right and full outer joins, track all right tuples
                             if matches!(
                                 self.join_handler.join_type,
@@ -1095,14 +1106,7 @@ impl NestedLoopJoinExecutor {
                                     | JoinType::RightOuter(_)
                                     | JoinType::FullOuter(_)
                             ) {
-                                // Check if this right tuple is already in our collection
-                                let tuple_exists = self
-                                    .join_state
-                                    .all_right_tuples
-                                    .iter()
-                                    .any(|(t, _)| t.get_values() == right_tuple.get_values());
-
-                                if !tuple_exists {
+                                if right_index == self.join_state.all_right_tuples.len() {
                                     self.join_state
                                         .add_right_tuple((right_tuple.clone(), right_rid));
                                 }
@@ -1120,14 +1124,7 @@ impl NestedLoopJoinExecutor {
                                         | JoinType::RightOuter(_)
                                         | JoinType::FullOuter(_)
                                 ) {
-                                    // Find the index of this right tuple
-                                    if let Some(index) =
-                                        self.join_state.all_right_tuples.iter().position(
-                                            |(t, _)| t.get_values() == right_tuple.get_values(),
-                                        )
-                                    {
-                                        self.join_state.mark_right_tuple_matched(index);
-                                    }
+                                    self.join_state.mark_right_tuple_matched(right_index);
                                 }
                                 return Ok(Some(result));
                             }
@@ -1169,6 +1166,19 @@ impl NestedLoopJoinExecutor {
                     }
                 }
             } else if self.join_state.left_executor_exhausted {
+                // Without any left tuple the right side has not been scanned yet: all of its
+                // tuples are unmatched.
+                if matches!(
+                    self.join_handler.join_type,
+                    JoinType::Right(_) | JoinType::RightOuter(_) | JoinType::FullOuter(_)
+                ) && self.join_state.all_right_tuples.is_empty()
+                {
+                    self.executor_manager.reset_right_executor()?;
+                    while let Some(right_tuple) = self.executor_manager.get_next_right_tuple()? {
+                        self.join_state.add_right_tuple(right_tuple);
+                    }
+                }
+
                 // Move to next phase
                 self.join_state.advance_phase(&self.join_handler.join_type);
                 return Ok(None);
-- 
2.43.0


From c413959806c5dd9f84daa97e6a047acb8732f537 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 46/81] fix: hash join returns every match, honours all keys,
 NULLs, the predicate and the join type

---
 .../execution/executors/hash_join_executor.rs | 330 ++++++++++--------
 1 file changed, 193 insertions(+), 137 deletions(-)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index c391f69..29953cb 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -20,13 +20,13 @@
 //! │                                                             │
 //! │  BUILD PHASE (right child):                                 │
 //! │  ┌─────────────┐    ┌─────────────────────────────────┐    │
-//! │  │ Right Tuple │───▶│ Hash(key) → DiskExtendableHash  │    │
-//! │  │ (id=1, 25)  │    │ table[hash] = RID               │    │
+//! │  │ Right Tuple │───▶│ table[key] += position of the   │    │
+//! │  │ (id=1, 25)  │    │ tuple                           │    │
 //! │  └─────────────┘    └─────────────────────────────────┘    │
 //! │                                                             │
 //! │  PROBE PHASE (left child):                                  │
 //! │  ┌─────────────┐    ┌─────────────┐    ┌─────────────┐     │
-//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup RID  │     │
+//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Candidates  │     │
 //! │  │ (id=1,Alice)│    │ → bucket    │    │ → Match!    │     │
 //! │  └─────────────┘    └─────────────┘    └─────────────┘     │
 //! │                              │                              │
@@ -46,44 +46,50 @@
 //!
 //! ## Storage
 //!
-//! Uses `DiskExtendableHashTable` for the build phase, which supports
-//! spilling to disk for large datasets that exceed memory.
+//! The tuples of the right child and the hash table over their keys are
+//! held in memory.
 
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use log::debug;
 use parking_lot::RwLock;
+use sqlparser::ast::JoinOperator;
 
 use crate::catalog::schema::Schema;
 use crate::common::exception::DBError;
 use crate::common::rid::RID;
-use crate::container::disk_extendable_hash_table::DiskExtendableHashTable;
-use crate::container::hash_function::HashFunction;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::hash_join_plan::HashJoinNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 /// Executor for hash-based equi-join operations.
 ///
 /// `HashJoinExecutor` implements a classic hash join algorithm with a
-/// build phase (right child) and probe phase (left child). It uses a
-/// disk-backed extendable hash table for the build side.
+/// build phase (right child) and probe phase (left child).
 ///
 /// # Join Types
 ///
-/// Currently supports inner joins. The output contains only rows where
-/// the join key matches in both tables.
+/// Inner, cross, left outer, right outer and full outer joins. Rows match
+/// when all of their join keys are equal and not NULL, and the join
+/// predicate does not reject the pair.
 ///
 /// # Algorithm
 ///
-/// 1. **Build Phase**: Consume all tuples from right child, hash the
-///    join key, and insert (key → RID) into the hash table.
+/// 1. **Build Phase**: Consume all tuples from right child, evaluate their
+///    join keys, and record their positions under these keys.
 ///
-/// 2. **Probe Phase**: For each left tuple, hash the join key, probe
-///    the hash table, and emit combined tuples for matches.
+/// 2. **Probe Phase**: For each left tuple, evaluate the join keys, look
+///    up the right tuples with the same keys, and emit combined tuples
+///    for all of them that match.
+///
+/// 3. **Outer joins**: A left tuple without a match is padded with NULLs
+///    right away, right tuples without a match at the end.
 ///
 /// # Example
 ///
@@ -100,8 +106,7 @@ use crate::storage::table::tuple::Tuple;
 /// # Memory Management
 ///
 /// Right-side tuples are stored in memory (`right_tuples` vector) for
-/// retrieval during the probe phase. The hash table itself may spill
-/// to disk via the buffer pool.
+/// retrieval during the probe phase.
 pub struct HashJoinExecutor {
     /// Shared execution context for buffer pool access.
     context: Arc<RwLock<ExecutionContext>>,
@@ -111,12 +116,20 @@ pub struct HashJoinExecutor {
     left_child: Box<dyn AbstractExecutor>,
     /// Right child executor (build side).
     right_child: Box<dyn AbstractExecutor>,
-    /// Disk-backed hash table built from right child.
-    hash_table: Option<DiskExtendableHashTable>,
-    /// Stored right tuples for lookup during probe phase.
-    right_tuples: Vec<(RID, Arc<Tuple>)>,
-    /// Current left tuple being probed (None if need next).
-    current_left_tuple: Option<(Arc<Tuple>, RID)>,
+    /// Positions in `right_tuples` by join keys.
+    hash_table: HashMap<Vec<Value>, Vec<usize>>,
+    /// Tuples of the right child with their join keys.
+    right_tuples: Vec<(Arc<Tuple>, Vec<Value>)>,
+    /// Which of the right tuples matched some left tuple.
+    right_matched: Vec<bool>,
+    /// Output for the current left tuple that has not been returned yet.
+    pending: VecDeque<(Arc<Tuple>, RID)>,
+    /// Whether the left child has returned all of its tuples.
+    left_exhausted: bool,
+    /// Next right tuple to consider after the left child is exhausted.
+    next_unmatched: usize,
+    /// Error of the build phase, returned by the next call of `next()`.
+    build_error: Option<DBError>,
     /// Flag indicating whether initialization is complete.
     initialized: bool,
 }
@@ -148,85 +161,148 @@ impl HashJoinExecutor {
             plan,
             left_child,
             right_child,
-            hash_table: None,
+            hash_table: HashMap::new(),
             right_tuples: Vec::new(),
-            current_left_tuple: None,
+            right_matched: Vec::new(),
+            pending: VecDeque::new(),
+            left_exhausted: false,
+            next_unmatched: 0,
+            build_error: None,
             initialized: false,
         }
     }
 
+    /// Evaluates the join keys of a tuple.
+    fn keys(
+        expressions: &[Arc<Expression>],
+        tuple: &Tuple,
+        schema: &Schema,
+    ) -> Result<Vec<Value>, DBError> {
+        expressions
+            .iter()
+            .map(|expression| {
+                expression
+                    .evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(format!("Failed to evaluate join key: {e}")))
+            })
+            .collect()
+    }
+
+    /// Maps join keys to the key of the hash table: numbers that compare equal are the same
+    /// entry whatever their types. Keys with a NULL match nothing and have no entry.
+    fn hash_key(keys: &[Value]) -> Option<Vec<Value>> {
+        keys.iter()
+            .map(|key| match key.get_val() {
+                Val::Null => None,
+                Val::TinyInt(i) => Some(Value::new(f64::from(*i))),
+                Val::SmallInt(i) => Some(Value::new(f64::from(*i))),
+                Val::Integer(i) => Some(Value::new(f64::from(*i))),
+                Val::BigInt(i) => Some(Value::new(*i as f64)),
+                // Adding zero turns a negative zero into a positive one
+                Val::Float(f) => Some(Value::new(f64::from(*f) + 0.0)),
+                Val::Decimal(f) => Some(Value::new(*f + 0.0)),
+                _ => Some(key.clone()),
+            })
+            .collect()
+    }
+
     /// Builds the hash table from the right child (build phase).
     ///
-    /// Consumes all tuples from the right child executor, evaluates the
-    /// join key expression on each, and inserts (key → RID) into the
-    /// disk-backed hash table.
-    ///
-    /// # Returns
-    ///
-    /// * `true` - Hash table built successfully
-    /// * `false` - Build failed (hash table creation, key evaluation, or insert error)
-    ///
-    /// # Hash Table Configuration
-    ///
-    /// Creates a `DiskExtendableHashTable` with:
-    /// - Bucket size: 4 entries
-    /// - Initial depth: 4
-    /// - Max buckets: 100
-    ///
-    /// # Side Effects
-    ///
-    /// - Populates `self.hash_table` with the built hash table
-    /// - Populates `self.right_tuples` with (RID, Tuple) pairs for lookup
-    fn build_hash_table(&mut self) -> bool {
+    /// Consumes all tuples from the right child executor, evaluates their
+    /// join keys, and records their positions by these keys.
+    fn build_hash_table(&mut self) -> Result<(), DBError> {
         debug!("Building hash table from right child");
 
-        let hash_table = match DiskExtendableHashTable::new(
-            "hash_join_table".to_string(),
-            self.get_executor_context().read().get_buffer_pool_manager(),
-            HashFunction::new(),
-            4,
-            4,
-            100,
-        ) {
-            Ok(ht) => ht,
-            Err(_) => return false,
-        };
+        self.right_child.init();
 
-        self.hash_table = Some(hash_table);
+        while let Some((tuple, _)) = self.right_child.next()? {
+            let keys = Self::keys(
+                self.plan.get_right_key_expressions(),
+                &tuple,
+                self.plan.get_right_schema(),
+            )?;
+            if let Some(key) = Self::hash_key(&keys) {
+                self.hash_table
+                    .entry(key)
+                    .or_default()
+                    .push(self.right_tuples.len());
+            }
+            self.right_tuples.push((tuple, keys));
+        }
+        self.right_matched = vec![false; self.right_tuples.len()];
 
-        self.right_child.init();
+        Ok(())
+    }
 
-        loop {
-            match self.right_child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let key = match self.plan.get_right_key_expressions()[0]
-                        .evaluate(&tuple, self.plan.get_right_schema())
-                    {
-                        Ok(value) => value,
-                        Err(_) => {
-                            debug!("Failed to evaluate right key expression");
-                            return false;
-                        },
-                    };
-
-                    if let Some(ref mut ht) = self.hash_table
-                        && !ht.insert(key, rid)
-                    {
-                        debug!("Failed to insert into hash table");
-                        return false;
-                    }
-
-                    self.right_tuples.push((rid, tuple));
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from right child executor: {}", e);
-                    return false;
-                },
+    /// Returns whether the join predicate accepts a pair of tuples with equal keys.
+    fn accepts(&self, left: &Tuple, right: &Tuple) -> Result<bool, DBError> {
+        let result = self
+            .plan
+            .get_predicate()
+            .evaluate_join(
+                left,
+                self.plan.get_left_schema(),
+                right,
+                self.plan.get_right_schema(),
+            )
+            .map_err(|e| DBError::Execution(format!("Predicate evaluation error: {e}")))?;
+        Ok(!matches!(result.get_val(), Val::Boolean(false) | Val::Null))
+    }
+
+    /// Puts the output for a left tuple in `pending` (probe phase).
+    fn probe(&mut self, left: &Tuple, rid: RID) -> Result<(), DBError> {
+        let keys = Self::keys(
+            self.plan.get_left_key_expressions(),
+            left,
+            self.plan.get_left_schema(),
+        )?;
+        let candidates = Self::hash_key(&keys)
+            .and_then(|key| self.hash_table.get(&key).cloned())
+            .unwrap_or_default();
+
+        let mut matched = false;
+        for index in candidates {
+            let (right, right_keys) = self.right_tuples[index].clone();
+            let equal = keys
+                .iter()
+                .zip(&right_keys)
+                .all(|(l, r)| l.compare_equals(r) == CmpBool::CmpTrue);
+            if equal && self.accepts(left, &right)? {
+                matched = true;
+                self.right_matched[index] = true;
+                self.pending
+                    .push_back((Arc::new(left.combine(&right)), rid));
             }
         }
 
-        true
+        if !matched && self.keeps_unmatched_left() {
+            let right = Self::nulls(self.plan.get_right_schema());
+            self.pending
+                .push_back((Arc::new(left.combine(&right)), rid));
+        }
+        Ok(())
+    }
+
+    /// Returns a tuple of NULLs.
+    fn nulls(schema: &Schema) -> Tuple {
+        let values = vec![Value::new(Val::Null); schema.get_column_count() as usize];
+        Tuple::new(&values, schema, RID::default())
+    }
+
+    /// Whether left tuples without a match are part of the result.
+    fn keeps_unmatched_left(&self) -> bool {
+        matches!(
+            self.plan.get_join_type(),
+            JoinOperator::Left(_) | JoinOperator::LeftOuter(_) | JoinOperator::FullOuter(_)
+        )
+    }
+
+    /// Whether right tuples without a match are part of the result.
+    fn keeps_unmatched_right(&self) -> bool {
+        matches!(
+            self.plan.get_join_type(),
+            JoinOperator::Right(_) | JoinOperator::RightOuter(_) | JoinOperator::FullOuter(_)
+        )
     }
 }
 
@@ -244,15 +320,14 @@ impl AbstractExecutor for HashJoinExecutor {
     ///
     /// # Failure Handling
     ///
-    /// If hash table construction fails, `initialized` remains `false` and
-    /// subsequent `next()` calls will return `None`.
+    /// If hash table construction fails, `next()` returns the error.
     fn init(&mut self) {
         if !self.initialized {
             debug!("Initializing HashJoinExecutor");
 
-            if !self.build_hash_table() {
-                debug!("Failed to build hash table");
-                return;
+            if let Err(e) = self.build_hash_table() {
+                debug!("Failed to build hash table: {}", e);
+                self.build_error = Some(e);
             }
 
             self.left_child.init();
@@ -263,23 +338,14 @@ impl AbstractExecutor for HashJoinExecutor {
 
     /// Returns the next joined tuple (probe phase).
     ///
-    /// For each left tuple, evaluates the join key and probes the hash
-    /// table. If a match is found, combines the left and right tuples
-    /// and returns the result.
-    ///
-    /// # Probe Algorithm
-    ///
-    /// 1. Get next left tuple (if current is None)
-    /// 2. Evaluate left key expression
-    /// 3. Probe hash table with key
-    /// 4. If match found: combine tuples and return
-    /// 5. If no match: advance to next left tuple
+    /// For each left tuple, evaluates the join keys and probes the hash
+    /// table. Every match is combined with the left tuple.
     ///
     /// # Returns
     ///
     /// * `Ok(Some((tuple, rid)))` - Combined tuple from matching rows
     /// * `Ok(None)` - No more matches (left child exhausted or not initialized)
-    /// * `Err(DBError)` - Error from left child executor
+    /// * `Err(DBError)` - Error from a child executor or an expression
     ///
     /// # Output Tuple Structure
     ///
@@ -292,45 +358,35 @@ impl AbstractExecutor for HashJoinExecutor {
         if !self.initialized {
             return Ok(None);
         }
+        if let Some(e) = self.build_error.take() {
+            self.left_exhausted = true;
+            self.next_unmatched = self.right_tuples.len();
+            return Err(e);
+        }
 
         loop {
-            if self.current_left_tuple.is_none() {
+            if let Some(result) = self.pending.pop_front() {
+                return Ok(Some(result));
+            }
+
+            if !self.left_exhausted {
                 match self.left_child.next()? {
-                    Some((tuple, rid)) => {
-                        self.current_left_tuple = Some((tuple, rid));
-                    },
-                    None => return Ok(None),
+                    Some((tuple, rid)) => self.probe(&tuple, rid)?,
+                    None => self.left_exhausted = true,
                 }
+                continue;
             }
 
-            // Clone the values we need and drop the borrow immediately
-            let (left_tuple, left_rid) = {
-                let (tuple, rid) = self.current_left_tuple.as_ref().unwrap();
-                (tuple.clone(), *rid)
-            };
-
-            let key = match self.plan.get_left_key_expressions()[0]
-                .evaluate(&left_tuple, self.plan.get_left_schema())
-            {
-                Ok(value) => value,
-                Err(_) => {
-                    debug!("Failed to evaluate left key expression");
-                    self.current_left_tuple = None;
-                    continue;
-                },
-            };
-
-            if let Some(ref ht) = self.hash_table
-                && let Some(right_rid) = ht.get_value(&key)
-                && let Some((_, right_tuple)) =
-                    self.right_tuples.iter().find(|(rid, _)| *rid == right_rid)
-            {
-                let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
-                self.current_left_tuple = None;
-                return Ok(Some((combined_tuple, left_rid)));
+            if !self.keeps_unmatched_right() || self.next_unmatched >= self.right_tuples.len() {
+                return Ok(None);
+            }
+            let index = self.next_unmatched;
+            self.next_unmatched += 1;
+            if !self.right_matched[index] {
+                let left = Self::nulls(self.plan.get_left_schema());
+                let combined = left.combine(&self.right_tuples[index].0);
+                return Ok(Some((Arc::new(combined), RID::default())));
             }
-
-            self.current_left_tuple = None;
         }
     }
 
-- 
2.43.0


From 10e348cc0e7a43417b92b1d97572a22f2dc20adc Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:15:33 +0000
Subject: [PATCH 47/81] fix: DISTINCT tells NULL from the bytes of other values

---
 src/sql/execution/executors/distinct_executor.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sql/execution/executors/distinct_executor.rs b/src/sql/execution/executors/distinct_executor.rs
index 055f6f0..de75b78 100644
--- a/src/sql/execution/executors/distinct_executor.rs
+++ b/src/sql/execution/executors/distinct_executor.rs
@@ -146,19 +146,21 @@ impl DistinctExecutor {
     ///
     /// # Serialization Format
     ///
-    /// Each value is serialized according to its type:
+    /// Each value starts with a byte that tells NULL (0) from other values (1), so that a
+    /// NULL cannot be confused with a part of another value. The others are then serialized
+    /// according to their type:
     /// - **INTEGER**: 4 bytes, little-endian
     /// - **BIGINT**: 8 bytes, little-endian
     /// - **VARCHAR**: 4-byte length prefix + UTF-8 bytes
     /// - **BOOLEAN**: 1 byte (0 = false, 1 = true)
-    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation)
-    /// - **NULL**: 1 byte marker (0xFF)
+    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation, zero without a sign)
     /// - **Other**: Debug string with length prefix (fallback)
     fn serialize_tuple(&self, tuple: &Tuple) -> Vec<u8> {
         let mut bytes = Vec::new();
 
         for value in tuple.get_values() {
             // Serialize each value to bytes for comparison
+            bytes.push(u8::from(!matches!(value.get_val(), Val::Null)));
             match value.get_val() {
                 Val::Integer(i) => bytes.extend_from_slice(&i.to_le_bytes()),
                 Val::BigInt(i) => bytes.extend_from_slice(&i.to_le_bytes()),
@@ -167,8 +169,8 @@ impl DistinctExecutor {
                     bytes.extend_from_slice(s.as_bytes());
                 },
                 Val::Boolean(b) => bytes.push(if *b { 1 } else { 0 }),
-                Val::Decimal(d) => bytes.extend_from_slice(&d.to_le_bytes()),
-                Val::Null => bytes.push(0xFF), // Special marker for NULL
+                Val::Decimal(d) => bytes.extend_from_slice(&(d + 0.0).to_le_bytes()),
+                Val::Null => {},
                 _ => {
                     // For other types, convert to string and serialize
                     let s = format!("{:?}", value);
-- 
2.43.0


From f4bb506594452075dde1f1d66e2ab6d7b7948faf Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:15:33 +0000
Subject: [PATCH 48/81] fix: top-n and row numbers are ordered by all keys with
 NULL first, and report errors

---
 src/sql/execution/executors/topn_executor.rs  |  88 ++++++++------
 .../executors/topn_per_group_executor.rs      | 110 +++++++++---------
 .../execution/executors/window_executor.rs    |  95 ++++++++-------
 3 files changed, 158 insertions(+), 135 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..0456f5e 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -27,12 +27,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -44,22 +39,28 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order for min-heap
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
+        // Compare sort keys in ascending order
+        compare_keys(&self.sort_keys, &other.sort_keys)
+    }
+}
+
+/// Compares lists of keys; NULL sorts before everything else.
+fn compare_keys(a: &[Value], b: &[Value]) -> Ordering {
+    for (a, b) in a.iter().zip(b.iter()) {
+        match (a.is_null(), b.is_null()) {
+            (true, true) => continue,
+            (true, false) => return Ordering::Less,
+            (false, true) => return Ordering::Greater,
+            (false, false) => {},
+        }
+        if a.compare_less_than(b) == CmpBool::CmpTrue {
+            return Ordering::Less;
+        }
+        if a.compare_greater_than(b) == CmpBool::CmpTrue {
+            return Ordering::Greater;
         }
-        Ordering::Equal
     }
+    a.len().cmp(&b.len())
 }
 
 /// TopNExecutor maintains a min-heap of size K to efficiently track the top K elements
@@ -70,6 +71,8 @@ pub struct TopNExecutor {
     // Store sorted tuples for output
     sorted_tuples: Vec<TupleWithKeys>,
     current_index: usize,
+    /// Error found while collecting the tuples, returned by the next call of `next()`
+    error: Option<DBError>,
     initialized: bool,
 }
 
@@ -91,21 +94,25 @@ impl TopNExecutor {
             child,
             sorted_tuples: Vec::new(),
             current_index: 0,
+            error: None,
             initialized: false,
         }
     }
 
     /// Evaluates the sort keys for a tuple based on the order by expressions
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys = self
             .plan
             .get_sort_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(format!("Failed to evaluate sort key: {e}")))
+            })
+            .collect::<Result<Vec<_>, _>>()?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 }
 
@@ -126,17 +133,19 @@ impl AbstractExecutor for TopNExecutor {
 
         // Process tuples one at a time
         loop {
-            match self.child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    debug!("Processing tuple with sort keys: {:?}", sort_keys);
-
-                    let tuple_with_keys = TupleWithKeys {
+            let next = self.child.next().and_then(|next| match next {
+                Some((tuple, rid)) => {
+                    let sort_keys = self.evaluate_sort_keys(&tuple)?;
+                    Ok(Some(TupleWithKeys {
                         sort_keys,
                         tuple, // tuple is already Arc<Tuple>
                         rid,
-                    };
-
+                    }))
+                },
+                None => Ok(None),
+            });
+            match next {
+                Ok(Some(tuple_with_keys)) => {
                     if heap.len() < k {
                         // Heap not full yet, add element
                         debug!("Heap not full (size {}), adding tuple", heap.len());
@@ -157,15 +166,19 @@ impl AbstractExecutor for TopNExecutor {
                 },
                 Err(e) => {
                     debug!("Error processing child tuple: {}", e);
+                    heap.clear();
+                    self.error = Some(e);
                     break;
                 },
             }
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
+        // The heap orders reversed tuples, so this is the descending order
+        self.sorted_tuples = heap
+            .into_sorted_vec()
+            .into_iter()
+            .map(|Reverse(t)| t)
+            .collect();
 
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
@@ -178,6 +191,9 @@ impl AbstractExecutor for TopNExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
 
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 9a47062..e99f3f6 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -27,12 +27,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_not_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -44,22 +39,28 @@ impl PartialOrd for TupleWithKeys {
 
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order for min-heap
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
+        // Compare sort keys in ascending order
+        compare_keys(&self.sort_keys, &other.sort_keys)
+    }
+}
+
+/// Compares lists of keys; NULL sorts before everything else.
+fn compare_keys(a: &[Value], b: &[Value]) -> Ordering {
+    for (a, b) in a.iter().zip(b.iter()) {
+        match (a.is_null(), b.is_null()) {
+            (true, true) => continue,
+            (true, false) => return Ordering::Less,
+            (false, true) => return Ordering::Greater,
+            (false, false) => {},
+        }
+        if a.compare_less_than(b) == CmpBool::CmpTrue {
+            return Ordering::Less;
+        }
+        if a.compare_greater_than(b) == CmpBool::CmpTrue {
+            return Ordering::Greater;
         }
-        Ordering::Equal
     }
+    a.len().cmp(&b.len())
 }
 
 pub struct TopNPerGroupExecutor {
@@ -75,6 +76,8 @@ pub struct TopNPerGroupExecutor {
     // Store sorted tuples for current group
     current_group_tuples: Vec<TupleWithKeys>,
     current_tuple_index: usize,
+    /// Error found while collecting the tuples, returned by the next call of `next()`
+    error: Option<DBError>,
     initialized: bool,
 }
 
@@ -97,53 +100,41 @@ impl TopNPerGroupExecutor {
             group_index: 0,
             current_group_tuples: Vec::new(),
             current_tuple_index: 0,
+            error: None,
             initialized: false,
         }
     }
 
     /// Evaluates the sort keys for a tuple
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys: Vec<Value> = self
             .plan
             .get_sort_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(format!("Failed to evaluate sort key: {e}")))
+            })
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 
     /// Evaluates the group keys for a tuple
-    fn evaluate_group_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_group_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys: Vec<Value> = self
             .plan
             .get_group_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(format!("Failed to evaluate group key: {e}")))
+            })
+            .collect::<Result<_, _>>()?;
         trace!("Evaluated group keys for tuple: {:?}", keys);
-        keys
-    }
-
-    /// Compare two group keys using the Value comparison methods
-    fn compare_group_keys(a: &[Value], b: &[Value]) -> Ordering {
-        for (a_val, b_val) in a.iter().zip(b.iter()) {
-            match a_val.compare_less_than(b_val) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a_val.compare_greater_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
-        }
-        // If all values are equal or we run out of values, compare lengths
-        a.len().cmp(&b.len())
+        Ok(keys)
     }
 }
 
@@ -161,11 +152,16 @@ impl AbstractExecutor for TopNPerGroupExecutor {
 
         // Process all input tuples and maintain top N per group
         loop {
-            match self.child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    let group_keys = self.evaluate_group_keys(&tuple);
-
+            let next = self.child.next().and_then(|next| match next {
+                Some((tuple, rid)) => {
+                    let sort_keys = self.evaluate_sort_keys(&tuple)?;
+                    let group_keys = self.evaluate_group_keys(&tuple)?;
+                    Ok(Some((tuple, rid, sort_keys, group_keys)))
+                },
+                None => Ok(None),
+            });
+            match next {
+                Ok(Some((tuple, rid, sort_keys, group_keys))) => {
                     debug!(
                         "Processing tuple with sort keys: {:?}, group keys: {:?}",
                         sort_keys, group_keys
@@ -201,15 +197,16 @@ impl AbstractExecutor for TopNPerGroupExecutor {
                 Ok(None) => break,
                 Err(e) => {
                     debug!("Error from child executor: {}", e);
-                    return; // Initialize failed, but we don't propagate errors from init
+                    self.groups.clear();
+                    self.error = Some(e);
+                    break;
                 },
             }
         }
 
         // Sort group keys for deterministic iteration order
         self.group_keys = self.groups.keys().cloned().collect();
-        self.group_keys
-            .sort_by(|a, b| Self::compare_group_keys(a.as_slice(), b.as_slice()));
+        self.group_keys.sort_by(|a, b| compare_keys(a, b));
 
         debug!(
             "TopNPerGroupExecutor initialization complete. Found {} groups",
@@ -222,6 +219,9 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
 
         loop {
             // If we have tuples from the current group, return them
diff --git a/src/sql/execution/executors/window_executor.rs b/src/sql/execution/executors/window_executor.rs
index 2e4659a..cf732d6 100644
--- a/src/sql/execution/executors/window_executor.rs
+++ b/src/sql/execution/executors/window_executor.rs
@@ -31,12 +31,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -49,21 +44,27 @@ impl PartialOrd for TupleWithKeys {
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal,
-            }
+        compare_keys(&self.sort_keys, &other.sort_keys)
+    }
+}
+
+/// Compares lists of keys; NULL sorts before everything else.
+fn compare_keys(a: &[Value], b: &[Value]) -> Ordering {
+    for (a, b) in a.iter().zip(b.iter()) {
+        match (a.is_null(), b.is_null()) {
+            (true, true) => continue,
+            (true, false) => return Ordering::Less,
+            (false, true) => return Ordering::Greater,
+            (false, false) => {},
+        }
+        if a.compare_less_than(b) == CmpBool::CmpTrue {
+            return Ordering::Less;
+        }
+        if a.compare_greater_than(b) == CmpBool::CmpTrue {
+            return Ordering::Greater;
         }
-        Ordering::Equal
     }
+    a.len().cmp(&b.len())
 }
 
 pub struct WindowExecutor {
@@ -76,6 +77,8 @@ pub struct WindowExecutor {
     current_partition_keys: Vec<Vec<Value>>,
     partition_index: usize,
     tuple_index: usize,
+    /// Error found while collecting the tuples, returned by the next call of `next()`
+    error: Option<DBError>,
     initialized: bool,
 }
 
@@ -94,25 +97,29 @@ impl WindowExecutor {
             current_partition_keys: Vec::new(),
             partition_index: 0,
             tuple_index: 0,
+            error: None,
             initialized: false,
         }
     }
 
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.child_executor.get_output_schema();
         let window_fn = &self.plan.get_window_functions()[0];
 
         window_fn
             .get_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(format!("Failed to evaluate window key: {e}")))
+            })
             .collect()
     }
 
-    fn evaluate_partition_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_partition_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let window_fns = self.plan.get_window_functions();
         if window_fns.is_empty() {
-            return vec![];
+            return Ok(vec![]);
         }
 
         let partition_exprs = window_fns[0].get_partition_by();
@@ -120,7 +127,10 @@ impl WindowExecutor {
 
         partition_exprs
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(format!("Failed to evaluate window key: {e}")))
+            })
             .collect()
     }
 }
@@ -133,16 +143,22 @@ impl AbstractExecutor for WindowExecutor {
             // Collect all tuples and their sort keys
             let mut all_tuples: Vec<TupleWithPartitionAndSort> = Vec::new();
             loop {
-                match self.child_executor.next() {
-                    Ok(Some((tuple, rid))) => {
-                        let partition_keys = self.evaluate_partition_keys(&tuple);
-                        let sort_keys = self.evaluate_sort_keys(&tuple);
-                        all_tuples.push((partition_keys, sort_keys, tuple, rid));
+                let next = self.child_executor.next().and_then(|next| match next {
+                    Some((tuple, rid)) => {
+                        let partition_keys = self.evaluate_partition_keys(&tuple)?;
+                        let sort_keys = self.evaluate_sort_keys(&tuple)?;
+                        Ok(Some((partition_keys, sort_keys, tuple, rid)))
                     },
+                    None => Ok(None),
+                });
+                match next {
+                    Ok(Some(tuple)) => all_tuples.push(tuple),
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        all_tuples.clear();
+                        self.error = Some(e);
+                        break;
                     },
                 }
             }
@@ -158,20 +174,8 @@ impl AbstractExecutor for WindowExecutor {
 
             // Sort partition keys for deterministic order
             self.current_partition_keys = partitions_map.keys().cloned().collect();
-            self.current_partition_keys.sort_by(|a, b| {
-                for (a_val, b_val) in a.iter().zip(b.iter()) {
-                    match a_val.compare_less_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Less,
-                        CmpBool::CmpFalse => match a_val.compare_greater_than(b_val) {
-                            CmpBool::CmpTrue => return Ordering::Greater,
-                            CmpBool::CmpFalse => continue,
-                            CmpBool::CmpNull => return Ordering::Equal,
-                        },
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                }
-                a.len().cmp(&b.len())
-            });
+            self.current_partition_keys
+                .sort_by(|a, b| compare_keys(a, b));
 
             // Sort each partition using binary heap
             for (partition_key, tuples) in partitions_map {
@@ -203,6 +207,9 @@ impl AbstractExecutor for WindowExecutor {
         if !self.initialized {
             self.init();
         }
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
 
         // Check if we have more partitions to process
         if self.partition_index >= self.current_partition_keys.len() {
-- 
2.43.0


From 251a5e75b1f54730dc15b3951f19b59259343110 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:15:33 +0000
Subject: [PATCH 49/81] fix: COUNT skips NULLs, AVG takes all numbers, and
 aggregation reports errors

---
 .../executors/aggregation_executor.rs         | 102 +++++++++++++-----
 1 file changed, 77 insertions(+), 25 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index bf21726..a4b815c 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -205,6 +205,8 @@ pub struct AggregationExecutor {
     output_schema: Schema,
     /// Shared execution context for buffer pool, catalog, and transaction access.
     exec_ctx: Arc<RwLock<ExecutionContext>>,
+    /// Error found while aggregating, returned by the next call of `next()`.
+    error: Option<DBError>,
     /// Flag indicating whether `init()` has been called.
     initialized: bool,
     /// Finalized groups ready for output, consumed by `next()`.
@@ -238,10 +240,30 @@ impl AggregationExecutor {
             avg_counts: HashMap::new(),
             groups_to_return: Vec::new(),
             output_schema: plan.get_output_schema().clone(),
+            error: None,
             initialized: false,
         }
     }
 
+    /// Evaluates an expression on an input tuple.
+    fn evaluate(expr: &Expression, tuple: &Tuple, schema: &Schema) -> Result<Value, String> {
+        expr.evaluate(tuple, schema)
+            .map_err(|e| format!("Failed to evaluate expression: {e}"))
+    }
+
+    /// Converts a number to a decimal.
+    fn as_decimal(value: &Value) -> Result<Value, String> {
+        match value.get_val() {
+            Val::TinyInt(i) => Ok(Value::new(f64::from(*i))),
+            Val::SmallInt(i) => Ok(Value::new(f64::from(*i))),
+            Val::Integer(i) => Ok(Value::new(f64::from(*i))),
+            Val::BigInt(i) => Ok(Value::new(*i as f64)),
+            Val::Float(f) => Ok(Value::new(f64::from(*f))),
+            Val::Decimal(_) => Ok(value.clone()),
+            _ => Err(format!("AVG of a value that is not a number: {value:?}")),
+        }
+    }
+
     /// Updates aggregate values for a group with a new input tuple.
     ///
     /// This is the core aggregation logic that processes each input tuple and
@@ -266,7 +288,8 @@ impl AggregationExecutor {
     /// | Type         | Update Rule                                    |
     /// |--------------|------------------------------------------------|
     /// | SUM          | Add value to running sum                       |
-    /// | COUNT/COUNT* | Increment counter                              |
+    /// | COUNT        | Increment counter if the value is not NULL     |
+    /// | COUNT*       | Increment counter                              |
     /// | MIN          | Keep smaller of current and new value          |
     /// | MAX          | Keep larger of current and new value           |
     /// | AVG          | Add to sum, increment count (finalize later)   |
@@ -297,7 +320,7 @@ impl AggregationExecutor {
                     debug!("Aggregate type: {:?}", agg.get_agg_type());
                     match agg.get_agg_type() {
                         AggregationType::Sum => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -307,15 +330,26 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Count | AggregationType::CountStar => {
+                            // COUNT(*) counts rows, COUNT(expr) counts values that are not NULL
+                            let counts = match agg.get_agg_type() {
+                                AggregationType::Count if !agg.get_children().is_empty() => {
+                                    !Self::evaluate(agg.get_arg(), tuple, schema)?.is_null()
+                                },
+                                _ => true,
+                            };
                             let count = if agg_value.values[i].is_null() {
-                                Value::new(1i64)
+                                Value::new(0i64)
                             } else {
-                                agg_value.values[i].add(&Value::new(1i64))?
+                                agg_value.values[i].clone()
+                            };
+                            agg_value.values[i] = if counts {
+                                count.add(&Value::new(1i64))?
+                            } else {
+                                count
                             };
-                            agg_value.values[i] = count;
                         },
                         AggregationType::Min => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -327,7 +361,7 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Max => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -339,15 +373,16 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Avg => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 // Track count for this average
                                 let count_key = (key.clone(), i);
                                 let current_count = avg_counts.entry(count_key).or_insert(0);
                                 *current_count += 1;
 
+                                // The sum is a decimal, so that it cannot overflow
+                                let arg_val = Self::as_decimal(&arg_val)?;
                                 if agg_value.values[i].is_null() {
-                                    // First value - store as sum with proper type
                                     agg_value.values[i] = arg_val;
                                 } else {
                                     // Add to the sum
@@ -367,13 +402,13 @@ impl AggregationExecutor {
                     debug!("Column reference found in values");
                     // For group by columns, store the value only on first occurrence
                     if agg_value.values[i].is_null() {
-                        agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                        agg_value.values[i] = Self::evaluate(agg_expr, tuple, schema)?;
                     }
                 },
                 _ => {
                     debug!("Other expression type found in aggregates");
                     // For other expressions, evaluate each time
-                    agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                    agg_value.values[i] = Self::evaluate(agg_expr, tuple, schema)?;
                 },
             }
             debug!("Updated aggregate values: {:?}", agg_value.values);
@@ -421,32 +456,45 @@ impl AbstractExecutor for AggregationExecutor {
                         let aggregates = self.aggregate_exprs.clone();
 
                         // Compute group by key
-                        let mut key_values = Vec::new();
-                        for expr in &self.group_by_exprs {
-                            key_values.push(expr.evaluate(&tuple, schema).unwrap());
-                        }
-                        let key = GroupKey { values: key_values };
+                        let key_values = self
+                            .group_by_exprs
+                            .iter()
+                            .map(|expr| Self::evaluate(expr, &tuple, schema))
+                            .collect::<Result<_, _>>();
 
                         // Update aggregates for this group
-                        if let Err(e) = Self::compute_aggregate(
-                            &mut self.groups,
-                            &mut self.avg_counts,
-                            &aggregates,
-                            key,
-                            &tuple,
-                            schema,
-                        ) {
+                        let result = key_values.and_then(|values| {
+                            Self::compute_aggregate(
+                                &mut self.groups,
+                                &mut self.avg_counts,
+                                &aggregates,
+                                GroupKey { values },
+                                &tuple,
+                                schema,
+                            )
+                        });
+                        if let Err(e) = result {
                             error!("Error computing aggregate: {}", e);
+                            self.error = Some(DBError::Execution(e));
+                            break;
                         }
                     },
                     Ok(None) => break,
                     Err(e) => {
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        self.error = Some(e);
+                        break;
                     },
                 }
             }
 
+            if self.error.is_some() {
+                // Nothing is returned but the error
+                self.groups.clear();
+                self.initialized = true;
+                return;
+            }
+
             // Handle empty input case
             if !has_rows && self.group_by_exprs.is_empty() {
                 // Create empty group key for no group by
@@ -527,6 +575,10 @@ impl AbstractExecutor for AggregationExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         // Take the next group from the Vec
         if let Some((key, mut value)) = self.groups_to_return.pop() {
             debug!(
-- 
2.43.0


From 2103d1f9e38a4d420211e046925b03645f2d7acd Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:15:33 +0000
Subject: [PATCH 50/81] fix: sorting reports the errors of its input and of its
 keys

---
 src/sql/execution/executors/sort_executor.rs | 25 ++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..3632524 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -190,6 +190,9 @@ pub struct SortExecutor {
     /// Current position in the sorted output vector.
     current_index: usize,
 
+    /// Error found while collecting the tuples, returned by the next call of `next()`.
+    error: Option<DBError>,
+
     /// Flag indicating whether initialization (and sorting) is complete.
     initialized: bool,
 }
@@ -250,6 +253,7 @@ impl SortExecutor {
             child_executor: Some(child_executor),
             sorted_tuples: Vec::new(),
             current_index: 0,
+            error: None,
             initialized: false,
         }
     }
@@ -322,6 +326,8 @@ impl AbstractExecutor for SortExecutor {
                     },
                     Err(e) => {
                         error!("Error collecting tuples from child executor: {}", e);
+                        self.sorted_tuples.clear();
+                        self.error = Some(e);
                         break;
                     },
                 }
@@ -338,6 +344,21 @@ impl AbstractExecutor for SortExecutor {
                 order_by_specs.len()
             );
 
+            // Without all sort keys there is no order
+            let failure = self.sorted_tuples.iter().find_map(|(tuple, _)| {
+                order_by_specs
+                    .iter()
+                    .find_map(|spec| spec.get_expression().evaluate(tuple, &schema).err())
+            });
+            if let Some(e) = failure {
+                error!("Error evaluating sort key: {}", e);
+                self.sorted_tuples.clear();
+                self.error = Some(DBError::Execution(format!(
+                    "Failed to evaluate sort key: {}",
+                    e
+                )));
+            }
+
             // Sort tuples using the order by specifications with ASC/DESC support
             self.sorted_tuples.sort_by(|(tuple_a, _), (tuple_b, _)| {
                 // Compare each order by expression in sequence
@@ -435,6 +456,10 @@ impl AbstractExecutor for SortExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
             return Ok(None);
-- 
2.43.0


From 7832bf3521016e511d6a16a3a42b5bd885a55876 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 51/81] fix: EXPLAIN of LIMIT and OFFSET shows their input
 instead of recursing forever

---
 src/sql/execution/plans/abstract_plan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sql/execution/plans/abstract_plan.rs b/src/sql/execution/plans/abstract_plan.rs
index 80521a6..d2c0b1d 100644
--- a/src/sql/execution/plans/abstract_plan.rs
+++ b/src/sql/execution/plans/abstract_plan.rs
@@ -355,7 +355,7 @@ impl PlanNode {
                     &node
                         .get_children()
                         .iter()
-                        .map(|_| self.explain_internal(depth + 1))
+                        .map(|child| child.explain_internal(depth + 1))
                         .collect::<Vec<String>>()
                         .join(" "),
                 );
@@ -367,7 +367,7 @@ impl PlanNode {
                     &node
                         .get_children()
                         .iter()
-                        .map(|_| self.explain_internal(depth + 1))
+                        .map(|child| child.explain_internal(depth + 1))
                         .collect::<Vec<String>>()
                         .join(" "),
                 );
@@ -379,7 +379,7 @@ impl PlanNode {
                     &node
                         .get_children()
                         .iter()
-                        .map(|_| self.explain_internal(depth + 1))
+                        .map(|child| child.explain_internal(depth + 1))
                         .collect::<Vec<String>>()
                         .join(" "),
                 );
-- 
2.43.0


From 3f60b60efbf9da1943fa1900179903c47a128817 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 52/81] fix: NULL keys have a place in the order of an
 in-memory B+ tree

---
 src/storage/index/b_plus_tree.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index ec0ea35..37131a8 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -247,10 +247,10 @@ impl BPlusTree {
 
                     // Check each key to find potential paths
                     for (i, k) in node.keys.iter().enumerate() {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                        if self.compare_keys_ordering(k, key).is_gt() {
                             // If this key is greater, we need to check the left child
                             child_indices.push(i);
-                        } else if k.compare_equals(key) == CmpBool::CmpTrue {
+                        } else if self.compare_keys_ordering(k, key).is_eq() {
                             // If this key equals our search key, check both children
                             child_indices.push(i);
                             child_indices.push(i + 1);
@@ -279,7 +279,7 @@ impl BPlusTree {
                         debug!("Checking entry {} - Key: {:?}, RID: {:?}", i, k, r);
 
                         // Check for exact match
-                        if k.compare_equals(key) == CmpBool::CmpTrue && *r == rid {
+                        if self.compare_keys_ordering(k, key).is_eq() && *r == rid {
                             debug!("Found matching key-RID pair at position {}", i);
                             drop(node);
                             let mut node_write = current_node.write();
@@ -349,7 +349,7 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(start_key) == CmpBool::CmpTrue)
+                        .position(|k| self.compare_keys_ordering(k, start_key).is_ge())
                         .unwrap_or(0);
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
@@ -371,11 +371,11 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(start_key) == CmpBool::CmpTrue {
+                if self.compare_keys_ordering(key, start_key).is_lt() {
                     continue;
                 }
-                if key.compare_greater_than(end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(end_key) == CmpBool::CmpTrue)
+                if self.compare_keys_ordering(key, end_key).is_gt()
+                    || (!include_end && self.compare_keys_ordering(key, end_key).is_eq())
                 {
                     debug!("Found key beyond range, ending scan");
                     return entries;
@@ -612,7 +612,14 @@ impl BPlusTree {
         CmpBool::CmpFalse
     }
 
+    /// Orders keys. NULL is a key like any other, before all values.
     pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> std::cmp::Ordering {
+        match (key1.is_null(), key2.is_null()) {
+            (true, true) => return std::cmp::Ordering::Equal,
+            (true, false) => return std::cmp::Ordering::Less,
+            (false, true) => return std::cmp::Ordering::Greater,
+            (false, false) => {},
+        }
         if key1.compare_less_than(key2) == CmpBool::CmpTrue {
             std::cmp::Ordering::Less
         } else if key1.compare_greater_than(key2) == CmpBool::CmpTrue {
@@ -631,12 +638,7 @@ impl BPlusTree {
         // This ensures proper routing in internal nodes
         let pos = keys
             .iter()
-            .position(|k| {
-                match k.compare_equals(key) {
-                    CmpBool::CmpTrue => false, // Keep looking, want to insert after equals
-                    _ => k.compare_greater_than(key) == CmpBool::CmpTrue,
-                }
-            })
+            .position(|k| self.compare_keys_ordering(k, key).is_gt())
             .unwrap_or(keys.len());
 
         debug!("Found insert position: {}", pos);
@@ -661,7 +663,7 @@ impl BPlusTree {
                 // Check entries before pos with same key
                 while i > 0 {
                     i -= 1;
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if self.compare_keys_ordering(&node.keys[i], &key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
@@ -673,7 +675,7 @@ impl BPlusTree {
                 // Check entries from pos onwards with same key
                 i = pos;
                 while i < node.keys.len() {
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if self.compare_keys_ordering(&node.keys[i], &key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
-- 
2.43.0


From bd05ef6c9793372ad1acf96a5f3bda779f598b84 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 53/81] fix: an index scan covers all rows that satisfy its
 predicates, and gives each once

---
 .../executors/index_scan_executor.rs          | 386 +++++++-----------
 1 file changed, 147 insertions(+), 239 deletions(-)

diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index c510415..5fceeb3 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -19,7 +19,7 @@
 //! │  1. Analyze predicates → compute scan bounds                │
 //! │  ┌─────────────────────────────────────────────────────┐    │
 //! │  │ Predicate: id >= 5 AND id < 10                      │    │
-//! │  │ Bounds: start_key=5 (inclusive), end_key=10 (excl)  │    │
+//! │  │ Bounds: start_key=5, end_key=10                     │    │
 //! │  └─────────────────────────────────────────────────────┘    │
 //! │                                                             │
 //! │  2. Create index iterator with bounds                       │
@@ -42,18 +42,22 @@
 //!
 //! | Predicate         | Start Bound    | End Bound      |
 //! |-------------------|----------------|----------------|
-//! | `x = 5`           | 5 (inclusive)  | 5 (inclusive)  |
-//! | `x > 5`           | 5 (exclusive)  | None           |
-//! | `x >= 5`          | 5 (inclusive)  | None           |
-//! | `x < 10`          | None           | 10 (exclusive) |
-//! | `x <= 10`         | None           | 10 (inclusive) |
-//! | `x > 5 AND x < 10`| 5 (exclusive)  | 10 (exclusive) |
+//! | `x = 5`           | 5              | 5              |
+//! | `x > 5`, `x >= 5` | 5              | None           |
+//! | `x < 9`, `x <= 9` | None           | 9              |
+//! | `x > 5 AND x < 9` | 5              | 9              |
+//! | `x = 5 OR x = 9`  | 5              | 9              |
+//!
+//! Bounds are inclusive and may be wider than the predicates, which are checked
+//! again on every row. The index is scanned as a whole unless both bounds exist.
 //!
 //! ## MVCC Integration
 //!
 //! Fetched tuples are checked for visibility using the transaction context.
 //! Deleted tuples are automatically skipped.
 
+use std::cmp::Ordering;
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use log::{debug, error, info};
@@ -73,6 +77,7 @@ use crate::storage::index::IndexInfo;
 use crate::storage::index::index_iterator_mem::IndexIterator;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::{Val, Value};
 
 /// Executor for index-based table scans.
@@ -119,6 +124,8 @@ pub struct IndexScanExecutor {
     initialized: bool,
     /// Iterator over index entries within the computed bounds.
     iterator: Option<IndexIterator>,
+    /// Rows already visited; one row has an entry for every key it had.
+    visited: HashSet<RID>,
 }
 
 impl IndexScanExecutor {
@@ -192,276 +199,169 @@ impl IndexScanExecutor {
             plan,
             table_heap,
             iterator: None,
+            visited: HashSet::new(),
             initialized: false,
         }
     }
 
-    /// Analyzes a predicate expression to extract index scan ranges.
+    /// Finds bounds for the key column that no row satisfying a predicate lies outside of.
     ///
-    /// Recursively processes comparison and logic expressions to determine
-    /// the optimal start and end bounds for an index scan.
+    /// The bounds are inclusive and may be wider than the predicate, which is
+    /// checked again on every row that is found; they are never narrower.
     ///
     /// # Arguments
     ///
     /// * `expr` - The predicate expression to analyze.
+    /// * `key_column` - Position of the index key in the table.
     ///
     /// # Returns
     ///
-    /// A vector of ranges, where each range is a tuple of:
-    /// - `Option<Value>`: Start bound (None = unbounded)
-    /// - `bool`: Start bound inclusive
-    /// - `Option<Value>`: End bound (None = unbounded)
-    /// - `bool`: End bound inclusive
+    /// The start and the end bound (None = unbounded).
     ///
-    /// # Logic Expression Handling
+    /// # Predicate Handling
     ///
-    /// - **AND**: Intersects ranges (takes most restrictive bounds)
-    /// - **OR**: Unions ranges (returns all child ranges)
-    /// - **NOT**: Inverts comparison operators
-    fn analyze_predicate_ranges(
+    /// - **Comparisons** of the key column with a constant, on either side
+    /// - **AND**: Intersects the bounds (takes the most restrictive ones)
+    /// - **OR**: Covers the bounds of both sides
+    /// - Anything else is unbounded
+    fn analyze_predicate_bounds(
         expr: &Expression,
-    ) -> Vec<(Option<Value>, bool, Option<Value>, bool)> {
+        key_column: usize,
+    ) -> (Option<Value>, Option<Value>) {
         match expr {
             Expression::Logic(logic_expr) => {
-                let mut ranges = Vec::new();
-
+                let left = Self::analyze_predicate_bounds(logic_expr.get_left(), key_column);
                 match logic_expr.get_logic_type() {
-                    LogicType::And => {
-                        // For AND, find the most restrictive range
-                        let mut start_value = None;
-                        let mut end_value = None;
-                        let mut include_start = false;
-                        let mut include_end = false;
-
-                        // Process each child of AND
-                        for child in logic_expr.get_children() {
-                            let child_ranges = Self::analyze_predicate_ranges(child);
-                            for (child_start, child_start_incl, child_end, child_end_incl) in
-                                child_ranges
-                            {
-                                // Update start bound if more restrictive
-                                if let Some(value) = child_start {
-                                    match &start_value {
-                                        None => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        Some(current) if value > *current => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-
-                                // Update end bound if more restrictive
-                                if let Some(value) = child_end {
-                                    match &end_value {
-                                        None => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        Some(current) if value < *current => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-                            }
-                        }
-                        ranges.push((start_value, include_start, end_value, include_end));
-                    },
+                    LogicType::And => Self::intersect_bounds(
+                        left,
+                        Self::analyze_predicate_bounds(logic_expr.get_right(), key_column),
+                    ),
                     LogicType::Or => {
-                        // For OR, collect all ranges and union them
-                        for child in logic_expr.get_children() {
-                            ranges.extend(Self::analyze_predicate_ranges(child));
-                        }
-                    },
-                    LogicType::Not => {
-                        // For NOT operations on comparisons, we need to invert the bounds
-                        if let Some(child) = logic_expr.get_children().first() {
-                            match child.as_ref() {
-                                Expression::Comparison(comp_expr) => {
-                                    if let Ok(value) = comp_expr.get_right().evaluate(
-                                        &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                                        &Schema::new(vec![]),
-                                    ) {
-                                        match comp_expr.get_comp_type() {
-                                            ComparisonType::Equal => {
-                                                // NOT (x = value) -> x < value OR x > value
-                                                // This requires full scan as it creates a disjoint range
-                                                Vec::new()
-                                            },
-                                            ComparisonType::GreaterThan => {
-                                                // NOT (x > value) -> x <= value
-                                                vec![(None, false, Some(value), true)]
-                                            },
-                                            ComparisonType::GreaterThanOrEqual => {
-                                                // NOT (x >= value) -> x < value
-                                                vec![(None, false, Some(value), false)]
-                                            },
-                                            ComparisonType::LessThan => {
-                                                // NOT (x < value) -> x >= value
-                                                vec![(Some(value), true, None, false)]
-                                            },
-                                            ComparisonType::LessThanOrEqual => {
-                                                // NOT (x <= value) -> x > value
-                                                vec![(Some(value), false, None, false)]
-                                            },
-                                            ComparisonType::NotEqual => {
-                                                // NOT (x != value) -> x = value
-                                                vec![(Some(value.clone()), true, Some(value), true)]
-                                            },
-                                            ComparisonType::IsNotNull => {
-                                                // NOT (IS NOT NULL) -> IS NULL
-                                                // This requires special handling at runtime
-                                                Vec::new()
-                                            },
-                                        }
-                                    } else {
-                                        Vec::new()
-                                    }
-                                },
-                                _ => Vec::new(), // NOT on non-comparison expressions
-                            }
-                        } else {
-                            Vec::new()
+                        let right =
+                            Self::analyze_predicate_bounds(logic_expr.get_right(), key_column);
+                        let start = match (left.0, right.0) {
+                            (Some(a), Some(b)) => Self::pick_bound(a, b, Ordering::Less),
+                            _ => None,
+                        };
+                        let end = match (left.1, right.1) {
+                            (Some(a), Some(b)) => Self::pick_bound(a, b, Ordering::Greater),
+                            _ => None,
                         };
+                        (start, end)
                     },
+                    LogicType::Not => (None, None),
                 }
-                ranges
             },
             Expression::Comparison(comp_expr) => {
-                if let Ok(value) = comp_expr.get_right().evaluate(
-                    &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                    &Schema::new(vec![]),
+                let (column, constant, flipped) = match (
+                    comp_expr.get_left().as_ref(),
+                    comp_expr.get_right().as_ref(),
                 ) {
-                    match comp_expr.get_comp_type() {
-                        ComparisonType::Equal => {
-                            // For equality, use same value for both bounds, inclusive
-                            vec![(Some(value.clone()), true, Some(value), true)]
-                        },
-                        ComparisonType::GreaterThan => {
-                            // x > value
-                            vec![(Some(value), false, None, false)]
-                        },
-                        ComparisonType::GreaterThanOrEqual => {
-                            // x >= value
-                            vec![(Some(value), true, None, false)]
-                        },
-                        ComparisonType::LessThan => {
-                            // x < value
-                            vec![(None, false, Some(value), false)]
-                        },
-                        ComparisonType::LessThanOrEqual => {
-                            // x <= value
-                            vec![(None, false, Some(value), true)]
-                        },
-                        ComparisonType::NotEqual => {
-                            // Full scan for not equal
-                            Vec::new()
-                        },
-                        ComparisonType::IsNotNull => {
-                            // For IS NOT NULL, scan all non-null values
-                            // This effectively means no bounds, as we'll filter nulls later
-                            Vec::new()
-                        },
-                    }
-                } else {
-                    Vec::new()
+                    (Expression::ColumnRef(column), Expression::Constant(constant)) => {
+                        (column, constant, false)
+                    },
+                    (Expression::Constant(constant), Expression::ColumnRef(column)) => {
+                        (column, constant, true)
+                    },
+                    _ => return (None, None),
+                };
+                let value = constant.get_value().clone();
+                if column.get_column_index() != key_column || value.is_null() {
+                    return (None, None);
+                }
+                match (comp_expr.get_comp_type(), flipped) {
+                    (ComparisonType::Equal, _) => (Some(value.clone()), Some(value)),
+                    (ComparisonType::GreaterThan | ComparisonType::GreaterThanOrEqual, false)
+                    | (ComparisonType::LessThan | ComparisonType::LessThanOrEqual, true) => {
+                        (Some(value), None)
+                    },
+                    (ComparisonType::LessThan | ComparisonType::LessThanOrEqual, false)
+                    | (ComparisonType::GreaterThan | ComparisonType::GreaterThanOrEqual, true) => {
+                        (None, Some(value))
+                    },
+                    (ComparisonType::NotEqual | ComparisonType::IsNotNull, _) => (None, None),
                 }
             },
-            _ => Vec::new(),
+            _ => (None, None),
+        }
+    }
+
+    /// The bounds of rows that lie within both of these.
+    fn intersect_bounds(
+        a: (Option<Value>, Option<Value>),
+        b: (Option<Value>, Option<Value>),
+    ) -> (Option<Value>, Option<Value>) {
+        let start = match (a.0, b.0) {
+            (Some(a), Some(b)) => Self::pick_bound(a, b, Ordering::Greater),
+            (a, b) => a.or(b),
+        };
+        let end = match (a.1, b.1) {
+            (Some(a), Some(b)) => Self::pick_bound(a, b, Ordering::Less),
+            (a, b) => a.or(b),
+        };
+        (start, end)
+    }
+
+    /// The smaller or the greater one of two bounds, or none if they cannot be compared.
+    fn pick_bound(a: Value, b: Value, wanted: Ordering) -> Option<Value> {
+        let (less, greater) = (a.compare_less_than(&b), a.compare_greater_than(&b));
+        match (less, greater) {
+            (CmpBool::CmpTrue, _) => Some(if wanted == Ordering::Less { a } else { b }),
+            (_, CmpBool::CmpTrue) => Some(if wanted == Ordering::Greater { a } else { b }),
+            (CmpBool::CmpFalse, CmpBool::CmpFalse) => Some(a),
+            _ => None,
         }
     }
 
     /// Computes the final index scan bounds from all predicates.
     ///
-    /// Analyzes all predicate keys, collects their ranges, and computes
-    /// the widest range that covers all predicates (for OR semantics)
-    /// or the narrowest range (for AND semantics within each predicate).
+    /// All predicates have to hold, so their bounds are intersected.
     ///
     /// # Arguments
     ///
-    /// * `index_info` - Index metadata containing the key schema.
+    /// * `index_info` - Index metadata containing the key attributes.
+    /// * `table_schema` - Schema of the indexed table.
     ///
     /// # Returns
     ///
-    /// A tuple of:
-    /// - `Option<Arc<Tuple>>`: Start key tuple (None = scan from beginning)
-    /// - `Option<Arc<Tuple>>`: End key tuple (None = scan to end)
-    ///
-    /// # Algorithm
-    ///
-    /// 1. Collect ranges from all predicate expressions
-    /// 2. Take the minimum start value (widest coverage)
-    /// 3. Take the maximum end value (widest coverage)
-    /// 4. Create key tuples using the index's key schema
-    fn analyze_bounds(&self, index_info: &IndexInfo) -> (Option<Arc<Tuple>>, Option<Arc<Tuple>>) {
-        let predicate_keys = self.plan.get_predicate_keys();
-        let mut all_ranges = Vec::new();
-
-        for pred in predicate_keys {
-            all_ranges.extend(Self::analyze_predicate_ranges(pred.as_ref()));
-        }
-
-        // If we have no ranges to analyze, return None for full scan
-        if all_ranges.is_empty() {
+    /// The tuples to scan between, both included, or none of them to scan the
+    /// whole index: the index iterator takes both bounds or none.
+    fn analyze_bounds(
+        &self,
+        index_info: &IndexInfo,
+        table_schema: &Schema,
+    ) -> (Option<Arc<Tuple>>, Option<Arc<Tuple>>) {
+        let [key_column] = index_info.get_key_attrs()[..] else {
             return (None, None);
-        }
-
-        // Find the widest range that covers all predicates
-        let mut final_start = None;
-        let mut final_end = None;
-        let mut final_start_incl = false;
-        let mut final_end_incl = false;
-
-        for (start, start_incl, end, end_incl) in all_ranges {
-            // Take minimum start value
-            match (&final_start, start) {
-                (None, Some(value)) => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                (Some(current), Some(value)) if value < *current => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                _ => {},
-            }
-
-            // Take maximum end value
-            match (&final_end, end) {
-                (None, Some(value)) => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                (Some(current), Some(value)) if value > *current => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                _ => {},
-            }
-        }
-
-        // Create tuples using the index's key schema
-        let key_schema = index_info.get_key_schema().clone();
-
-        let start_tuple = final_start
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        let end_tuple = final_end
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        debug!(
-            "Scan bounds: start={:?} (incl={}), end={:?} (incl={})",
-            final_start, final_start_incl, final_end, final_end_incl
-        );
-
-        (start_tuple, end_tuple)
+        };
+        let bounds = self
+            .plan
+            .get_predicate_keys()
+            .iter()
+            .map(|pred| Self::analyze_predicate_bounds(pred.as_ref(), key_column))
+            .reduce(Self::intersect_bounds);
+        let Some((Some(start), Some(end))) = bounds else {
+            return (None, None);
+        };
+        debug!("Scan bounds: start={:?}, end={:?}", start, end);
+
+        // The index takes its key from a row of the table
+        let key_tuple = |key: Value| {
+            let values: Vec<Value> = table_schema
+                .get_columns()
+                .iter()
+                .enumerate()
+                .map(|(i, column)| {
+                    if i == key_column {
+                        key.clone()
+                    } else {
+                        Value::new_with_type(Val::Null, column.get_type())
+                    }
+                })
+                .collect();
+            Arc::new(Tuple::new(&values, table_schema, RID::new(0, 0)))
+        };
+        (Some(key_tuple(start)), Some(key_tuple(end)))
     }
 }
 
@@ -488,7 +388,11 @@ impl AbstractExecutor for IndexScanExecutor {
             catalog_guard.get_index_by_index_oid(self.plan.get_index_id())
         {
             // Analyze predicates and create bounds...
-            let (start_key, end_key) = self.analyze_bounds(&index_info);
+            let table_schema = catalog_guard
+                .get_table(self.plan.get_table_name())
+                .map(|table| table.get_table_schema())
+                .unwrap_or_else(|| self.plan.get_output_schema().clone());
+            let (start_key, end_key) = self.analyze_bounds(&index_info, &table_schema);
 
             // Create iterator with Arc<Tuple> arguments
             self.iterator = Some(IndexIterator::new(btree.clone(), start_key, end_key));
@@ -561,6 +465,10 @@ impl AbstractExecutor for IndexScanExecutor {
             };
 
             debug!("Found RID {:?} in index", rid);
+            if !self.visited.insert(rid) {
+                debug!("RID {:?} was visited before, skipping", rid);
+                continue;
+            }
 
             // Use RID to fetch tuple from table heap with transaction context
             match self.table_heap.get_tuple(rid, txn_ctx.clone()) {
-- 
2.43.0


From 779ccf31efab5e488f06aaaf49d71060c40b1d59 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:41:33 +0000
Subject: [PATCH 54/81] fix: indexes follow inserts and updates, and cover
 composite keys and all versions

---
 src/catalog/catalog_impl.rs                   | 10 +-
 src/catalog/database.rs                       | 98 +++++++++++--------
 .../execution/executors/insert_executor.rs    | 37 ++++++-
 .../execution/executors/update_executor.rs    |  9 +-
 4 files changed, 109 insertions(+), 45 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index cd891f5..96a51a2 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -198,12 +198,13 @@ use crate::catalog::system_catalog::{
     SYS_TABLES_OID, SystemCatalogSchemas, SystemCatalogTables, TableCatalogRow,
 };
 use crate::common::config::{IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::table_iterator::TableScanIterator;
-use crate::storage::table::tuple::TupleMeta;
+use crate::storage::table::tuple::{Tuple, TupleMeta};
 use crate::types_db::value::Value;
 
 /// Parameters for creating a catalog with existing data.
@@ -562,6 +563,13 @@ impl Catalog {
             .unwrap_or_default()
     }
 
+    /// Adds a new version of a row to all indexes on its table.
+    pub fn add_row_to_indexes(&self, table_name: &str, tuple: &Tuple, rid: RID) {
+        if let Some(db) = self.get_current_database() {
+            db.add_row_to_indexes(table_name, tuple, rid);
+        }
+    }
+
     /// Gets an index by its OID in the current database.
     ///
     /// # Parameters
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 20e3834..50150d6 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -220,12 +220,15 @@ use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
 use crate::catalog::system_catalog::SYS_COLUMNS_OID;
-use crate::common::config::{DataBaseOid, IndexOidT, TableOidT};
+use crate::common::config::{DataBaseOid, INVALID_PAGE_ID, IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
+use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::Value;
 
 /// A static atomic counter for generating unique database IDs
 static NEXT_DATABASE_ID: AtomicU64 = AtomicU64::new(0);
@@ -630,6 +633,26 @@ impl Database {
         self.table_names.keys().cloned().collect()
     }
 
+    /// Adds a new version of a row to all indexes on its table.
+    ///
+    /// Entries of earlier versions stay, for the transactions that still see
+    /// them; an index scan checks the rows that it finds.
+    pub fn add_row_to_indexes(&self, table_name: &str, tuple: &Tuple, rid: RID) {
+        for (index_info, index) in self.indexes.values() {
+            if index_info.get_table_name() == table_name
+                && let Some(key) = Self::index_key(index_info, tuple)
+            {
+                index.write().insert(key, rid);
+            }
+        }
+    }
+
+    /// The key of a row: the value of the first key column.
+    fn index_key(index_info: &IndexInfo, tuple: &Tuple) -> Option<Value> {
+        let column = *index_info.get_key_attrs().first()?;
+        tuple.get_values().get(column).cloned()
+    }
+
     /// Populates a newly created index with existing data from the table
     fn populate_index_with_existing_data(
         &self,
@@ -639,52 +662,49 @@ impl Database {
     ) {
         use log::debug;
 
-        use crate::storage::table::table_iterator::TableScanIterator;
-
         debug!(
             "Populating index '{}' with existing table data",
             index_info.get_index_name()
         );
 
-        let key_attrs = index_info.get_key_attrs();
-
-        // Create a table scan iterator to scan through all tuples
-        let mut iterator = TableScanIterator::new(table_info.clone());
-
         let mut entry_count = 0;
-
-        // Iterate through all tuples in the table
-        while let Some((_meta, tuple)) = iterator.next() {
-            let rid = iterator.get_rid();
-
-            // Extract key values for the index
-            let mut key_values = Vec::new();
-            let tuple_values = tuple.get_values();
-
-            for &col_idx in key_attrs {
-                if col_idx < tuple_values.len() {
-                    key_values.push(tuple_values[col_idx].clone());
+        let table_heap = table_info.get_table_heap();
+        let mut index = index.write();
+
+        // Every version of every row: which ones a transaction sees is up to the transaction
+        let mut page_id = table_heap.get_first_page_id();
+        while page_id != INVALID_PAGE_ID {
+            let num_tuples = match table_heap.get_page(page_id) {
+                Ok(page_guard) => page_guard.read().get_num_tuples() as u32,
+                Err(e) => {
+                    warn!("Cannot read page {} to index it: {}", page_id, e);
+                    break;
+                },
+            };
+            for slot in 0..num_tuples {
+                let rid = RID::new(page_id, slot);
+                let Ok((_meta, tuple)) = table_heap.get_tuple_internal(rid, true) else {
+                    continue;
+                };
+                if let Some(key) = Self::index_key(index_info, &tuple)
+                    && index.insert(key, rid)
+                {
+                    entry_count += 1;
+                }
+                let mut link = self.txn_manager.get_undo_link(rid);
+                while let Some(undo_log) = link
+                    .filter(|link| link.is_valid())
+                    .and_then(|link| self.txn_manager.get_undo_log_optional(link))
+                {
+                    if let Some(key) = Self::index_key(index_info, &undo_log.tuple)
+                        && index.insert(key, rid)
+                    {
+                        entry_count += 1;
+                    }
+                    link = Some(undo_log.prev_version.clone());
                 }
             }
-
-            // For single-column indexes, use the value directly
-            if key_values.len() == 1 {
-                let key_value = key_values[0].clone();
-
-                // Insert into B+ tree
-                let mut btree_write = index.write();
-                btree_write.insert(key_value, rid);
-                entry_count += 1;
-
-                debug!(
-                    "Inserted index entry for key: {:?}, RID: {:?}",
-                    key_values[0], rid
-                );
-            } else if key_values.len() > 1 {
-                // For composite keys, we would need to handle this differently
-                // For now, we'll skip composite keys
-                log::warn!("Composite key index population not yet implemented");
-            }
+            page_id = table_heap.get_next_page_id(page_id);
         }
 
         debug!(
diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 5760cf0..b58557d 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -257,6 +257,22 @@ impl InsertExecutor {
         }
     }
 
+    /// Enters an inserted row into the indexes on its table.
+    fn add_to_indexes(
+        &self,
+        transactional_table_heap: &TransactionalTableHeap,
+        rid: RID,
+    ) -> Result<(), DBError> {
+        let (_meta, tuple) = transactional_table_heap
+            .get_table_heap()
+            .get_tuple_internal(rid, true)
+            .map_err(|e| DBError::Execution(format!("Insert failed: {}", e)))?;
+        let binding = self.context.read();
+        let catalog_guard = binding.get_catalog().read();
+        catalog_guard.add_row_to_indexes(self.plan.get_table_name(), &tuple, rid);
+        Ok(())
+    }
+
     /// Validates all foreign key constraints for a row before insertion.
     ///
     /// Iterates through each column in the schema, checking if any have
@@ -527,6 +543,13 @@ impl AbstractExecutor for InsertExecutor {
 
         // Create transactional table heap
         let transactional_table_heap = TransactionalTableHeap::new(table_heap, table_oidt);
+        let has_indexes = {
+            let binding = self.context.read();
+            let catalog_guard = binding.get_catalog().read();
+            !catalog_guard
+                .get_table_indexes(self.plan.get_table_name())
+                .is_empty()
+        };
 
         let mut insert_count = 0;
 
@@ -536,7 +559,7 @@ impl AbstractExecutor for InsertExecutor {
             debug!("Inserting {} direct value sets", values_to_insert.len());
 
             // PERFORMANCE OPTIMIZATION: Process inserts in batches
-            if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
+            if !has_indexes && values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
                 debug!(
                     "Using TRUE bulk insert optimization for {} rows",
                     values_to_insert.len()
@@ -561,7 +584,7 @@ impl AbstractExecutor for InsertExecutor {
                 }
             } else {
                 // OPTIMIZATION: Even for small batches, use bulk insert if we have multiple rows
-                if values_to_insert.len() > 1 {
+                if !has_indexes && values_to_insert.len() > 1 {
                     debug!(
                         "Using TRUE bulk insert for small batch of {} rows",
                         values_to_insert.len()
@@ -581,8 +604,11 @@ impl AbstractExecutor for InsertExecutor {
                             &schema,
                             txn_context.clone(),
                         ) {
-                            Ok(_rid) => {
+                            Ok(rid) => {
                                 insert_count += 1;
+                                if has_indexes {
+                                    self.add_to_indexes(&transactional_table_heap, rid)?;
+                                }
                                 trace!("Successfully inserted single tuple");
                             },
                             Err(e) => {
@@ -638,8 +664,11 @@ impl AbstractExecutor for InsertExecutor {
                         &schema,
                         txn_context.clone(),
                     ) {
-                        Ok(_rid) => {
+                        Ok(rid) => {
                             insert_count += 1;
+                            if has_indexes {
+                                self.add_to_indexes(&transactional_table_heap, rid)?;
+                            }
                             trace!(
                                 "Successfully inserted tuple #{} from VALUES/SELECT",
                                 insert_count
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index 5cbeb77..1ab7d68 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -162,8 +162,15 @@ impl AbstractExecutor for UpdateExecutor {
                     rid,
                     txn_context.clone(),
                 ) {
-                    Ok(_) => {
+                    Ok(rid) => {
                         update_count += 1;
+                        let binding = self.context.read();
+                        let catalog_guard = binding.get_catalog().read();
+                        catalog_guard.add_row_to_indexes(
+                            self.plan.get_table_name(),
+                            &updated_tuple,
+                            rid,
+                        );
                         trace!(
                             "Successfully updated tuple #{} with RID {:?}",
                             update_count, rid
-- 
2.43.0


From 73dd73b0064c46aedddb154580b3e19d60a4f00d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:50:48 +0000
Subject: [PATCH 55/81] fix: a row inserted from values may not refer to a
 missing row either

---
 .../execution/executors/insert_executor.rs    | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index b58557d..f7c9a35 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -94,6 +94,7 @@ use crate::sql::execution::plans::insert_plan::InsertNode;
 use crate::sql::planner::schema_manager::SchemaManager;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::{Val, Value};
 
 /// Executor for SQL `INSERT` statements.
 ///
@@ -551,6 +552,13 @@ impl AbstractExecutor for InsertExecutor {
                 .is_empty()
         };
 
+        let has_foreign_keys = schema
+            .get_columns()
+            .iter()
+            .any(|column| column.get_foreign_key().is_some());
+        // Index entries and references are made and checked one row at a time
+        let row_by_row = has_indexes || has_foreign_keys;
+
         let mut insert_count = 0;
 
         // Check if we have direct values to insert
@@ -559,7 +567,7 @@ impl AbstractExecutor for InsertExecutor {
             debug!("Inserting {} direct value sets", values_to_insert.len());
 
             // PERFORMANCE OPTIMIZATION: Process inserts in batches
-            if !has_indexes && values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
+            if !row_by_row && values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
                 debug!(
                     "Using TRUE bulk insert optimization for {} rows",
                     values_to_insert.len()
@@ -584,7 +592,7 @@ impl AbstractExecutor for InsertExecutor {
                 }
             } else {
                 // OPTIMIZATION: Even for small batches, use bulk insert if we have multiple rows
-                if !has_indexes && values_to_insert.len() > 1 {
+                if !row_by_row && values_to_insert.len() > 1 {
                     debug!(
                         "Using TRUE bulk insert for small batch of {} rows",
                         values_to_insert.len()
@@ -599,6 +607,25 @@ impl AbstractExecutor for InsertExecutor {
                 } else {
                     // Single row - fall back to individual insert
                     for values in values_to_insert {
+                        if has_foreign_keys {
+                            // Columns without a value get their default, or NULL
+                            let mut full_values = values.clone();
+                            for column in schema.get_columns().iter().skip(values.len()) {
+                                full_values.push(
+                                    column.get_default_value().clone().unwrap_or_else(|| {
+                                        Value::new_with_type(Val::Null, column.get_type())
+                                    }),
+                                );
+                            }
+                            if let Err(e) = Self::validate_foreign_key_constraints_with_context(
+                                &self.context,
+                                &full_values,
+                                &schema,
+                            ) {
+                                error!("Foreign key constraint violation: {}", e);
+                                return Err(DBError::Execution(format!("Insert failed: {}", e)));
+                            }
+                        }
                         match transactional_table_heap.insert_tuple_from_values(
                             values.clone(),
                             &schema,
-- 
2.43.0


From ebf7336f8d2f16a54f80a70977580eef4e75a4f5 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:57:03 +0000
Subject: [PATCH 56/81] fix: a plan whose child cannot be converted is an
 error, not an endless loop

---
 src/sql/planner/logical_plan.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index e149826..dc555b5 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -2859,6 +2859,12 @@ impl<'a> PlanConverter<'a> {
                 continue;
             }
 
+            // A node whose child cannot be converted cannot be converted either
+            if let Some(error) = self.child_error(node) {
+                self.results.insert(node_id, Err(error));
+                continue;
+            }
+
             // Check if all children have been processed
             if self.are_all_children_processed(node) {
                 // Process the current node
@@ -2886,6 +2892,17 @@ impl<'a> PlanConverter<'a> {
         }
     }
 
+    /// Returns the error of the first child that could not be converted, if any.
+    fn child_error(&self, node: &'a LogicalPlan) -> Option<String> {
+        node.children.iter().find_map(|child| {
+            let child_id = ptr::addr_of!(**child) as usize;
+            match self.results.get(&child_id) {
+                Some(Err(error)) => Some(error.clone()),
+                _ => None,
+            }
+        })
+    }
+
     /// Checks if all children of a node have been successfully processed.
     ///
     /// A child is considered processed if its result exists in the cache
-- 
2.43.0


From 1825c11f71f185b45a8fc24d8f6dc189124d0f69 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 57/81] fix: an optimised plan keeps its outer projections and
 the schema of its filters

---
 src/sql/optimizer/optimizer_impl.rs | 171 +++++-----------------------
 1 file changed, 27 insertions(+), 144 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index aad5634..cc43e79 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -37,7 +37,7 @@
 //! │   ┌──────────────────────────────────────────────────────────────────────┐      │
 //! │   │  Phase 2: Rewrite Rules                                              │      │
 //! │   │  - Predicate pushdown (push filters closer to data sources)          │      │
-//! │   │  - Projection merging (combine consecutive projections)              │      │
+//! │   │  - Filter merging (combine consecutive filters)                      │      │
 //! │   └──────────────────────────────────────────────────────────────────────┘      │
 //! │              │                                                                  │
 //! │              ▼                                                                  │
@@ -791,7 +791,7 @@ impl Optimizer {
     ///
     /// Implements the following transformations:
     /// - **Predicate Pushdown**: Moves filter predicates closer to data sources
-    /// - **Projection Merging**: Combines consecutive projection nodes
+    /// - **Filter Merging**: Combines consecutive filter nodes
     ///
     /// # Arguments
     ///
@@ -802,32 +802,10 @@ impl Optimizer {
     /// The rewritten plan with optimizations applied.
     fn apply_rewrite_rules(&self, mut plan: Box<LogicalPlan>) -> Result<Box<LogicalPlan>, DBError> {
         match &plan.plan_type {
-            LogicalPlanType::Filter {
-                schema: _,
-                output_schema: _,
-                table_oid: _,
-                table_name: _,
-                predicate,
-            } => {
+            LogicalPlanType::Filter { .. } => {
                 // Push down filter predicates
                 if let Some(child) = plan.children.pop() {
-                    self.push_down_predicate(predicate.clone(), child)
-                } else {
-                    Ok(plan)
-                }
-            },
-            LogicalPlanType::Projection {
-                expressions,
-                schema: _,
-                column_mappings: _,
-            } => {
-                // Combine consecutive projections
-                if let Some(child) = plan.children.pop() {
-                    if let LogicalPlanType::Projection { .. } = child.plan_type {
-                        return self.merge_projections(expressions.clone(), child);
-                    }
-                    plan.children = vec![self.apply_rewrite_rules(child)?];
-                    Ok(plan)
+                    self.push_down_predicate(plan.plan_type, child)
                 } else {
                     Ok(plan)
                 }
@@ -924,7 +902,9 @@ impl Optimizer {
             } => {
                 if let Some(child) = plan.children.pop() {
                     // Look for opportunities to use TopN instead of Sort
-                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type {
+                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type
+                        && limit > 0
+                    {
                         return Ok(Box::new(LogicalPlan::new(
                             LogicalPlanType::TopN {
                                 k: limit,
@@ -1002,7 +982,7 @@ impl Optimizer {
     ///
     /// # Arguments
     ///
-    /// * `predicate` - The filter predicate to push down
+    /// * `filter` - The filter whose predicate to push down; it keeps its schema and table
     /// * `child` - The child plan to push the predicate into
     ///
     /// # Returns
@@ -1010,128 +990,31 @@ impl Optimizer {
     /// A new plan with the predicate pushed as close to the source as possible.
     fn push_down_predicate(
         &self,
-        predicate: Arc<Expression>,
-        child: Box<LogicalPlan>,
+        mut filter: LogicalPlanType,
+        mut child: Box<LogicalPlan>,
     ) -> Result<Box<LogicalPlan>, DBError> {
-        match child.plan_type {
-            LogicalPlanType::TableScan { .. } => {
-                // Create a new filter node above the scan
-                Ok(Box::new(LogicalPlan::new(
-                    LogicalPlanType::Filter {
-                        schema: Default::default(),
-                        output_schema: Default::default(),
-                        table_oid: 0,
-                        table_name: "".to_string(),
-                        predicate,
-                    },
-                    vec![child],
-                )))
-            },
-            LogicalPlanType::Filter {
-                schema: _,
-                output_schema: _,
-                table_oid: _,
-                table_name: _,
-                predicate: existing_pred,
-            } => {
-                // Combine predicates using AND
-                let combined_pred = Arc::new(Expression::Logic(LogicExpression::new(
-                    predicate.clone(),
+        // Combine the predicates of consecutive filters using AND
+        while let LogicalPlanType::Filter {
+            predicate: existing_pred,
+            ..
+        } = &child.plan_type
+        {
+            if let LogicalPlanType::Filter { predicate, .. } = &mut filter {
+                *predicate = Arc::new(Expression::Logic(LogicExpression::new(
                     existing_pred.clone(),
+                    predicate.clone(),
                     LogicType::And,
-                    vec![],
+                    vec![existing_pred.clone(), predicate.clone()],
                 )));
-                if let Some(grandchild) = child.children.first() {
-                    self.push_down_predicate(combined_pred, grandchild.clone())
-                } else {
-                    Ok(Box::new(LogicalPlan::new(
-                        LogicalPlanType::Filter {
-                            schema: Default::default(),
-                            output_schema: Default::default(),
-                            table_oid: 0,
-                            table_name: "".to_string(),
-                            predicate: combined_pred,
-                        },
-                        vec![],
-                    )))
-                }
-            },
-            _ => Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Filter {
-                    schema: Default::default(),
-                    output_schema: Default::default(),
-                    table_oid: 0,
-                    table_name: "".to_string(),
-                    predicate,
-                },
-                vec![child],
-            ))),
-        }
-    }
-
-    /// Attempts to merge consecutive projection nodes.
-    ///
-    /// When two projections are stacked, this method tries to combine them
-    /// into a single projection by rewriting the outer expressions in terms
-    /// of the inner ones.
-    ///
-    /// # Arguments
-    ///
-    /// * `expressions` - Expressions from the outer projection
-    /// * `child` - The child plan (potentially another projection)
-    ///
-    /// # Returns
-    ///
-    /// A merged projection or the original structure if merging isn't beneficial.
-    ///
-    /// # Note
-    ///
-    /// Full projection merging logic is TODO - currently returns the child as-is
-    /// if it's a projection.
-    fn merge_projections(
-        &self,
-        expressions: Vec<Arc<Expression>>,
-        child: Box<LogicalPlan>,
-    ) -> Result<Box<LogicalPlan>, DBError> {
-        if let LogicalPlanType::Projection { .. } = child.clone().plan_type {
-            // TODO: Implement projection merging logic
-            // This would involve rewriting the outer expressions in terms of the inner ones
-            Ok(child)
-        } else {
-            // Calculate column mappings
-            let input_schema = child.get_schema().unwrap();
-            let mut column_mappings = Vec::with_capacity(expressions.len());
-
-            for expr in &expressions {
-                if let Expression::ColumnRef(col_ref) = expr.as_ref() {
-                    let col_name = col_ref.get_return_type().get_name();
-
-                    // Try to find the column in the input schema
-                    let input_idx = input_schema
-                        .get_columns()
-                        .iter()
-                        .position(|c| c.get_name() == col_name)
-                        .unwrap_or(0); // Default to first column if not found
-
-                    column_mappings.push(input_idx);
-                } else {
-                    // For non-column references, use a placeholder mapping
-                    column_mappings.push(0);
-                }
             }
-
-            // TODO: Compute correct schema
-            let output_schema = Schema::new(vec![]);
-
-            Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Projection {
-                    expressions,
-                    schema: output_schema,
-                    column_mappings,
-                },
-                vec![child],
-            )))
+            match child.children.pop() {
+                Some(grandchild) => child = grandchild,
+                None => return Ok(Box::new(LogicalPlan::new(filter, vec![]))),
+            }
         }
+
+        let child = self.apply_rewrite_rules(child)?;
+        Ok(Box::new(LogicalPlan::new(filter, vec![child])))
     }
 
     /// Determines whether to convert a nested loop join to a hash join.
-- 
2.43.0


From 9ebd9072771ea81b6f3903fa928ccc9693ed9110 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 58/81] fix: the first rows in ascending order are not the last
 ones

---
 src/sql/planner/logical_plan.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index dc555b5..a7e5717 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -252,7 +252,7 @@ use crate::sql::execution::plans::nested_loop_join_plan::NestedLoopJoinNode;
 use crate::sql::execution::plans::offset_plan::OffsetNode;
 use crate::sql::execution::plans::projection_plan::ProjectionNode;
 use crate::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
-use crate::sql::execution::plans::sort_plan::{OrderBySpec, SortNode};
+use crate::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
 use crate::sql::execution::plans::topn_plan::TopNNode;
 use crate::sql::execution::plans::update_plan::UpdateNode;
@@ -3289,6 +3289,23 @@ impl<'a> PlanConverter<'a> {
                 sort_specifications,
                 schema,
             } => {
+                // TopNNode keeps the largest rows; any other order needs a sort and a limit
+                if sort_specifications
+                    .iter()
+                    .any(|spec| spec.get_direction() != OrderDirection::Desc)
+                {
+                    let sort = PlanNode::Sort(SortNode::new(
+                        schema.clone(),
+                        sort_specifications.clone(),
+                        child_plans,
+                    ));
+                    return Ok(PlanNode::Limit(LimitNode::new(
+                        *k,
+                        schema.clone(),
+                        vec![sort],
+                    )));
+                }
+
                 // Convert OrderBySpec to expressions for backward compatibility with TopNNode
                 let sort_expressions = sort_specifications
                     .iter()
-- 
2.43.0


From cd3a70672364b76a58783694e98bc91d62e83d54 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:01:07 +0000
Subject: [PATCH 59/81] fix: join conditions are bound to the sides they name,
 and need not be equalities

---
 src/sql/planner/logical_plan.rs | 58 +++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index a7e5717..ba55dc4 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -3188,17 +3188,19 @@ impl<'a> PlanConverter<'a> {
                 if child_plans.len() < 2 {
                     Err("NestedLoopJoin requires two children".to_string())
                 } else {
-                    // Extract join key expressions and fixed predicate from the original predicate
-                    let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
-                            Ok((l, r, p)) => (l, r, p),
-                            Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
-                        };
+                    // Any predicate can be evaluated on pairs of rows; the keys are those of its
+                    // equalities, if it has no other parts
+                    let predicate =
+                        bind_join_columns(predicate, left_schema.get_column_count() as usize);
+                    let (left_keys, right_keys) = match extract_join_keys(&predicate) {
+                        Ok((l, r, _)) => (l, r),
+                        Err(_) => (vec![], vec![]),
+                    };
 
                     Ok(PlanNode::NestedLoopJoin(NestedLoopJoinNode::new(
                         left_schema.clone(),
                         right_schema.clone(),
-                        fixed_predicate, // Use the fixed predicate with correct tuple indices
+                        predicate,
                         join_type.clone(),
                         left_keys,
                         right_keys,
@@ -3624,6 +3626,48 @@ impl Display for LogicalPlan {
     }
 }
 
+/// Binds the columns of a join predicate to the sides of the join.
+///
+/// The planner numbers the columns of a join condition as they are in the joined schema, all
+/// as if they were of one tuple. Those behind the columns of the left side are of the right
+/// one. An equality is turned around if it names the right side first.
+fn bind_join_columns(predicate: &Arc<Expression>, left_columns: usize) -> Arc<Expression> {
+    let is_right = |expr: &Arc<Expression>| match expr.as_ref() {
+        Expression::ColumnRef(column) => Some(column.get_tuple_index() == 1),
+        _ => None,
+    };
+    match predicate.as_ref() {
+        Expression::ColumnRef(column)
+            if column.get_tuple_index() == 0 && column.get_column_index() >= left_columns =>
+        {
+            Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                1,
+                column.get_column_index(),
+                column.get_return_type().clone(),
+                vec![],
+            )))
+        },
+        Expression::ColumnRef(_) => predicate.clone(),
+        _ if predicate.get_children().is_empty() => predicate.clone(),
+        _ => {
+            let mut children: Vec<_> = predicate
+                .get_children()
+                .iter()
+                .map(|child| bind_join_columns(child, left_columns))
+                .collect();
+            if let Expression::Comparison(comparison) = predicate.as_ref()
+                && comparison.get_comp_type() == ComparisonType::Equal
+                && children.len() == 2
+                && is_right(&children[0]) == Some(true)
+                && is_right(&children[1]) == Some(false)
+            {
+                children.swap(0, 1);
+            }
+            predicate.clone_with_children(children)
+        },
+    }
+}
+
 /// Extracts and normalizes join key expressions from a join predicate.
 ///
 /// This function analyzes a join predicate (typically from an ON clause) and:
-- 
2.43.0


From 17505995cfd2cc3e5d97d34a0747311691b00d8f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:15:40 +0000
Subject: [PATCH 60/81] fix: text functions count characters, take any integer
 type, and give NULL for NULL

---
 .../expressions/overlay_expression.rs         | 258 ++++++------------
 .../expressions/position_expression.rs        |   8 +-
 .../expressions/string_expression.rs          |   2 +
 .../expressions/substring_expression.rs       | 235 +++++-----------
 4 files changed, 149 insertions(+), 354 deletions(-)

diff --git a/src/sql/execution/expressions/overlay_expression.rs b/src/sql/execution/expressions/overlay_expression.rs
index 5f811bb..f47ad0e 100644
--- a/src/sql/execution/expressions/overlay_expression.rs
+++ b/src/sql/execution/expressions/overlay_expression.rs
@@ -43,102 +43,88 @@ impl OverlayExpression {
             children,
         }
     }
-}
 
-impl ExpressionOps for OverlayExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let base_str = self.expr.evaluate(tuple, schema)?;
-        let overlay_str = self.overlay_what.evaluate(tuple, schema)?;
-        let from_pos = self.overlay_from.evaluate(tuple, schema)?;
-        let for_len = if let Some(for_expr) = &self.overlay_for {
-            Some(for_expr.evaluate(tuple, schema)?)
-        } else {
-            None
-        };
-
-        // Extract string values
-        let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+    /// An integer argument of at least `least`.
+    fn integer_argument(value: &Value, what: &str, least: i64) -> Result<usize, ExpressionError> {
+        let number = match value.get_val() {
+            Val::Integer(i) => *i as i64,
+            Val::BigInt(i) => *i,
+            Val::SmallInt(i) => *i as i64,
+            Val::TinyInt(i) => *i as i64,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY base expression must be a string, got {:?}",
-                    base_str.get_type_id()
+                    "OVERLAY {} expression must be an integer, got {:?}",
+                    what,
+                    value.get_type_id()
                 )));
             },
         };
+        if number < least {
+            return Err(ExpressionError::InvalidOperation(format!(
+                "OVERLAY {} must be >= {}, got {}",
+                what, least, number
+            )));
+        }
+        Ok(usize::try_from(number).unwrap_or(usize::MAX))
+    }
 
-        let overlay_text = match overlay_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY PLACING expression must be a string, got {:?}",
-                    overlay_str.get_type_id()
-                )));
-            },
-        };
+    fn string_argument<'a>(value: &'a Value, what: &str) -> Result<&'a str, ExpressionError> {
+        match value.get_val() {
+            Val::VarLen(s) | Val::ConstLen(s) => Ok(s),
+            _ => Err(ExpressionError::InvalidOperation(format!(
+                "OVERLAY {} expression must be a string, got {:?}",
+                what,
+                value.get_type_id()
+            ))),
+        }
+    }
 
-        // Get the starting position (1-indexed in SQL)
-        let start_pos = match from_pos.get_val() {
-            Val::Integer(i) => {
-                if *i < 1 {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "OVERLAY FROM position must be >= 1, got {}",
-                        i
-                    )));
-                }
-                (*i as usize).saturating_sub(1) // Convert to 0-indexed for Rust
-            },
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY FROM expression must be an integer, got {:?}",
-                    from_pos.get_type_id()
-                )));
-            },
-        };
+    /// Replaces characters of `base_str` from a position on (the first is 1), as many as
+    /// `for_len` says or else as `overlay_str` has. Any NULL argument makes the result NULL.
+    fn overlay(
+        base_str: Value,
+        overlay_str: Value,
+        from_pos: Value,
+        for_len: Option<Value>,
+    ) -> Result<Value, ExpressionError> {
+        if base_str.is_null()
+            || overlay_str.is_null()
+            || from_pos.is_null()
+            || for_len.as_ref().is_some_and(|len| len.is_null())
+        {
+            return Ok(Value::new(Val::Null));
+        }
 
-        // Get the length to replace (if specified)
+        let base_text = Self::string_argument(&base_str, "base")?;
+        let overlay_text = Self::string_argument(&overlay_str, "PLACING")?;
+        let start_pos = Self::integer_argument(&from_pos, "FROM position", 1)? - 1;
         let replace_len = match for_len {
-            Some(len) => match len.get_val() {
-                Val::Integer(i) => {
-                    if *i < 0 {
-                        return Err(ExpressionError::InvalidOperation(format!(
-                            "OVERLAY FOR length must be >= 0, got {}",
-                            i
-                        )));
-                    }
-                    *i as usize
-                },
-                _ => {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "OVERLAY FOR expression must be an integer, got {:?}",
-                        len.get_type_id()
-                    )));
-                },
-            },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
-        };
-
-        // Perform the overlay operation
-        let result = if start_pos >= base_text.len() {
-            // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
-        } else {
-            // Calculate the end position for replacement
-            let end_pos = if replace_len == 0 {
-                start_pos // When replace_len is 0, we don't remove any characters
-            } else {
-                std::cmp::min(start_pos + replace_len, base_text.len())
-            };
-            format!(
-                "{}{}{}",
-                &base_text[0..start_pos],
-                overlay_text,
-                &base_text[end_pos..]
-            )
+            Some(len) => Self::integer_argument(&len, "FOR length", 0)?,
+            None => overlay_text.chars().count(),
         };
 
+        let head = base_text.chars().take(start_pos);
+        let tail = base_text
+            .chars()
+            .skip(start_pos.saturating_add(replace_len));
+        let result: String = head.chain(overlay_text.chars()).chain(tail).collect();
         Ok(Value::new(result))
     }
+}
+
+impl ExpressionOps for OverlayExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let for_len = match &self.overlay_for {
+            Some(for_expr) => Some(for_expr.evaluate(tuple, schema)?),
+            None => None,
+        };
+        Self::overlay(
+            self.expr.evaluate(tuple, schema)?,
+            self.overlay_what.evaluate(tuple, schema)?,
+            self.overlay_from.evaluate(tuple, schema)?,
+            for_len,
+        )
+    }
 
     fn evaluate_join(
         &self,
@@ -147,105 +133,19 @@ impl ExpressionOps for OverlayExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        let base_str =
-            self.expr
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let overlay_str =
-            self.overlay_what
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let from_pos =
-            self.overlay_from
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let for_len = if let Some(for_expr) = &self.overlay_for {
-            Some(for_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?)
-        } else {
-            None
-        };
-
-        // Extract string values
-        let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY base expression must be a string, got {:?}",
-                    base_str.get_type_id()
-                )));
-            },
+        let evaluate = |expr: &Arc<Expression>| {
+            expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
         };
-
-        let overlay_text = match overlay_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY PLACING expression must be a string, got {:?}",
-                    overlay_str.get_type_id()
-                )));
-            },
+        let for_len = match &self.overlay_for {
+            Some(for_expr) => Some(evaluate(for_expr)?),
+            None => None,
         };
-
-        // Get the starting position (1-indexed in SQL)
-        let start_pos = match from_pos.get_val() {
-            Val::Integer(i) => {
-                if *i < 1 {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "OVERLAY FROM position must be >= 1, got {}",
-                        i
-                    )));
-                }
-                (*i as usize).saturating_sub(1) // Convert to 0-indexed for Rust
-            },
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY FROM expression must be an integer, got {:?}",
-                    from_pos.get_type_id()
-                )));
-            },
-        };
-
-        // Get the length to replace (if specified)
-        let replace_len = match for_len {
-            Some(len) => match len.get_val() {
-                Val::Integer(i) => {
-                    if *i < 0 {
-                        return Err(ExpressionError::InvalidOperation(format!(
-                            "OVERLAY FOR length must be >= 0, got {}",
-                            i
-                        )));
-                    }
-                    *i as usize
-                },
-                _ => {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "OVERLAY FOR expression must be an integer, got {:?}",
-                        len.get_type_id()
-                    )));
-                },
-            },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
-        };
-
-        // Perform the overlay operation
-        let result = if start_pos >= base_text.len() {
-            // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
-        } else {
-            // Calculate the end position for replacement
-            let end_pos = if replace_len == 0 {
-                start_pos // When replace_len is 0, we don't remove any characters
-            } else {
-                std::cmp::min(start_pos + replace_len, base_text.len())
-            };
-
-            // Construct the result string
-            format!(
-                "{}{}{}",
-                &base_text[0..start_pos],
-                overlay_text,
-                &base_text[end_pos..]
-            )
-        };
-
-        Ok(Value::new(result))
+        Self::overlay(
+            evaluate(&self.expr)?,
+            evaluate(&self.overlay_what)?,
+            evaluate(&self.overlay_from)?,
+            for_len,
+        )
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/position_expression.rs b/src/sql/execution/expressions/position_expression.rs
index 0ac8adb..73acbf3 100644
--- a/src/sql/execution/expressions/position_expression.rs
+++ b/src/sql/execution/expressions/position_expression.rs
@@ -68,8 +68,8 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
-            None => 0,                     // Not found
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
+            None => 0,                                                   // Not found
         };
 
         Ok(Value::new(position))
@@ -116,8 +116,8 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
-            None => 0,                     // Not found
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
+            None => 0,                                                   // Not found
         };
 
         Ok(Value::new(position))
diff --git a/src/sql/execution/expressions/string_expression.rs b/src/sql/execution/expressions/string_expression.rs
index 7271f8d..76fddfa 100644
--- a/src/sql/execution/expressions/string_expression.rs
+++ b/src/sql/execution/expressions/string_expression.rs
@@ -62,6 +62,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
@@ -81,6 +82,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(Value::new(Val::Null)),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
diff --git a/src/sql/execution/expressions/substring_expression.rs b/src/sql/execution/expressions/substring_expression.rs
index 9e5bcf1..ce27e52 100644
--- a/src/sql/execution/expressions/substring_expression.rs
+++ b/src/sql/execution/expressions/substring_expression.rs
@@ -59,19 +59,39 @@ impl SubstringExpression {
             children,
         }
     }
-}
 
-impl ExpressionOps for SubstringExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        // Evaluate the string expression
-        let string_val = self.string_expr.evaluate(tuple, schema)?;
+    /// An integer argument, or `None` for NULL.
+    fn integer_argument(value: &Value, what: &str) -> Result<Option<i64>, ExpressionError> {
+        if value.is_null() {
+            return Ok(None);
+        }
+        match value.get_val() {
+            Val::Integer(i) => Ok(Some(*i as i64)),
+            Val::BigInt(i) => Ok(Some(*i)),
+            Val::SmallInt(i) => Ok(Some(*i as i64)),
+            Val::TinyInt(i) => Ok(Some(*i as i64)),
+            _ => Err(ExpressionError::InvalidOperation(format!(
+                "SUBSTRING {} requires numeric input, got {:?}",
+                what,
+                value.get_type_id()
+            ))),
+        }
+    }
+
+    /// Takes the characters of `string_val` from a position on. Positions start at 1, negative
+    /// ones count from the end, and 0 is the beginning (the SQL standard calls it invalid, but
+    /// many DBs allow it). Any NULL argument makes the result NULL.
+    fn substring(
+        string_val: Value,
+        from_val: Value,
+        for_val: Option<Value>,
+    ) -> Result<Value, ExpressionError> {
         if string_val.is_null() {
             return Ok(Value::new(Val::Null));
         }
 
-        // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -80,83 +100,43 @@ impl ExpressionOps for SubstringExpression {
             },
         };
 
-        // Evaluate the FROM expression (start position)
-        let from_val = self.from_expr.evaluate(tuple, schema)?;
-        if from_val.is_null() {
+        let Some(start_pos) = Self::integer_argument(&from_val, "FROM")? else {
             return Ok(Value::new(Val::Null));
-        }
-
-        // Get the start position (1-indexed in SQL)
-        let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "SUBSTRING FROM requires numeric input, got {:?}",
-                    from_val.get_type_id()
-                )));
+        };
+        let length = match for_val {
+            Some(for_val) => match Self::integer_argument(&for_val, "FOR")? {
+                Some(length) => usize::try_from(length).unwrap_or(0),
+                None => return Ok(Value::new(Val::Null)),
             },
+            None => usize::MAX,
         };
 
-        // Convert to 0-indexed for Rust
-        // If start_pos is negative, count from the end of the string
         let start_idx = if start_pos > 0 {
-            (start_pos - 1) as usize
+            usize::try_from(start_pos - 1).unwrap_or(usize::MAX)
         } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
-            if abs_pos > string.len() {
-                0 // If negative position is beyond string start, start from beginning
-            } else {
-                string.len() - abs_pos
-            }
+            // If the negative position is beyond the string start, start from the beginning
+            let abs_pos = usize::try_from(start_pos.unsigned_abs()).unwrap_or(usize::MAX);
+            string.chars().count().saturating_sub(abs_pos)
         } else {
-            0 // If start_pos is 0, start from beginning (SQL standard says this is invalid, but many DBs allow it)
+            0
         };
 
-        // If start is beyond the end of the string, return empty string
-        if start_idx >= string.len() {
-            return Ok(Value::new(""));
-        }
-
-        // If FOR expression is provided, evaluate it
-        if let Some(for_expr) = &self.for_expr {
-            let for_val = for_expr.evaluate(tuple, schema)?;
-            if for_val.is_null() {
-                return Ok(Value::new(Val::Null));
-            }
-
-            // Get the length
-            let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
-                _ => {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "SUBSTRING FOR requires numeric input, got {:?}",
-                        for_val.get_type_id()
-                    )));
-                },
-            };
-
-            // If length is negative, return empty string (SQL standard behavior)
-            if length <= 0 {
-                return Ok(Value::new(""));
-            }
-
-            // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
+        let result: String = string.chars().skip(start_idx).take(length).collect();
+        Ok(Value::new(result))
+    }
+}
 
-            // Extract substring
-            let result = string[start_idx..end_idx].to_string();
-            Ok(Value::new(result))
-        } else {
-            // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
-            Ok(Value::new(result))
-        }
+impl ExpressionOps for SubstringExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let for_val = match &self.for_expr {
+            Some(for_expr) => Some(for_expr.evaluate(tuple, schema)?),
+            None => None,
+        };
+        Self::substring(
+            self.string_expr.evaluate(tuple, schema)?,
+            self.from_expr.evaluate(tuple, schema)?,
+            for_val,
+        )
     }
 
     fn evaluate_join(
@@ -166,105 +146,18 @@ impl ExpressionOps for SubstringExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // Evaluate the string expression
-        let string_val =
-            self.string_expr
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        if string_val.is_null() {
-            return Ok(Value::new(Val::Null));
-        }
-
-        // Get the string value
-        let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "SUBSTRING requires string input, got {:?}",
-                    string_val.get_type_id()
-                )));
-            },
-        };
-
-        // Evaluate the FROM expression (start position)
-        let from_val =
-            self.from_expr
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        if from_val.is_null() {
-            return Ok(Value::new(Val::Null));
-        }
-
-        // Get the start position (1-indexed in SQL)
-        let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "SUBSTRING FROM requires numeric input, got {:?}",
-                    from_val.get_type_id()
-                )));
-            },
+        let evaluate = |expr: &Arc<Expression>| {
+            expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
         };
-
-        // Convert to 0-indexed for Rust
-        // If start_pos is negative, count from the end of the string
-        let start_idx = if start_pos > 0 {
-            (start_pos - 1) as usize
-        } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
-            if abs_pos > string.len() {
-                0 // If negative position is beyond string start, start from beginning
-            } else {
-                string.len() - abs_pos
-            }
-        } else {
-            0 // If start_pos is 0, start from beginning (SQL standard says this is invalid, but many DBs allow it)
+        let for_val = match &self.for_expr {
+            Some(for_expr) => Some(evaluate(for_expr)?),
+            None => None,
         };
-
-        // If start is beyond the end of the string, return empty string
-        if start_idx >= string.len() {
-            return Ok(Value::new(""));
-        }
-
-        // If FOR expression is provided, evaluate it
-        if let Some(for_expr) = &self.for_expr {
-            let for_val =
-                for_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-            if for_val.is_null() {
-                return Ok(Value::new(Val::Null));
-            }
-
-            // Get the length
-            let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
-                _ => {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "SUBSTRING FOR requires numeric input, got {:?}",
-                        for_val.get_type_id()
-                    )));
-                },
-            };
-
-            // If length is negative, return empty string (SQL standard behavior)
-            if length <= 0 {
-                return Ok(Value::new(""));
-            }
-
-            // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
-
-            // Extract substring
-            let result = string[start_idx..end_idx].to_string();
-            Ok(Value::new(result))
-        } else {
-            // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
-            Ok(Value::new(result))
-        }
+        Self::substring(
+            evaluate(&self.string_expr)?,
+            evaluate(&self.from_expr)?,
+            for_val,
+        )
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 6b4028b1eab1c320e50b549e880a1ecb8da2260a Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:15:40 +0000
Subject: [PATCH 61/81] fix: matching NULL against a pattern is unknown, and
 SIMILAR TO matches line breaks

---
 src/sql/execution/expressions/regex_expression.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/regex_expression.rs b/src/sql/execution/expressions/regex_expression.rs
index 75f5bd2..7a65670 100644
--- a/src/sql/execution/expressions/regex_expression.rs
+++ b/src/sql/execution/expressions/regex_expression.rs
@@ -11,7 +11,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum RegexOperator {
@@ -125,7 +125,7 @@ impl RegexExpression {
             }
         }
 
-        Ok(format!("^{}$", result))
+        Ok(format!("(?s)^{}$", result))
     }
 }
 
@@ -134,6 +134,10 @@ impl ExpressionOps for RegexExpression {
         let value = self.expr().evaluate(tuple, schema)?;
         let pattern = self.pattern().evaluate(tuple, schema)?;
 
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
+
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -184,6 +188,10 @@ impl ExpressionOps for RegexExpression {
                     right_tuple,
                     right_schema,
                 )?;
+                if value.is_null() || pattern.is_null() {
+                    return Ok(Value::new(Val::Null));
+                }
+
                 let value_str = value.to_string();
                 let pattern_str = pattern.to_string();
 
-- 
2.43.0


From ff7a5d8333fbe3479f8b24d8f7d2e8c80a4e7777 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:15:40 +0000
Subject: [PATCH 62/81] fix: CEIL and FLOOR keep exact values, leap years and
 the right side of a join

---
 .../expressions/ceil_floor_expression.rs      | 213 ++++++------------
 1 file changed, 75 insertions(+), 138 deletions(-)

diff --git a/src/sql/execution/expressions/ceil_floor_expression.rs b/src/sql/execution/expressions/ceil_floor_expression.rs
index 8cfa480..774f87e 100644
--- a/src/sql/execution/expressions/ceil_floor_expression.rs
+++ b/src/sql/execution/expressions/ceil_floor_expression.rs
@@ -1,7 +1,8 @@
 #![allow(clippy::items_after_test_module)]
 use std::fmt::{Display, Formatter};
 use std::sync::Arc;
-use std::time::{SystemTime, UNIX_EPOCH};
+
+use chrono::{DateTime, Datelike, Months, NaiveDate, NaiveTime};
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
@@ -62,12 +63,34 @@ impl CeilFloorExpression {
             return_type,
         })
     }
-}
 
-impl ExpressionOps for CeilFloorExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let input_val = self.expr.evaluate(tuple, schema)?;
+    /// Rounds to `scale` digits behind (or, if negative, before) the decimal point. A number that
+    /// has no more digits is left as it is.
+    fn round_decimal(&self, num: f64, scale: i32) -> f64 {
+        let unit = 10f64.powi(scale.saturating_abs());
+        let to_units = |x: f64| if scale < 0 { x / unit } else { x * unit };
+        let from_units = |x: f64| if scale < 0 { x * unit } else { x / unit };
+
+        let scaled_num = to_units(num);
+        // Beyond 15 digits a number holds no further ones
+        if scaled_num.abs() >= 1e15 || from_units(scaled_num.round()) == num {
+            return num;
+        }
+        from_units(match self.operation {
+            CeilFloorOperation::Ceil => scaled_num.ceil(),
+            CeilFloorOperation::Floor => scaled_num.floor(),
+        })
+    }
 
+    /// Rounds a timestamp to a multiple of `unit` seconds.
+    fn round_seconds(&self, ts: u64, unit: u64) -> u64 {
+        match self.operation {
+            CeilFloorOperation::Ceil => ts.div_ceil(unit).saturating_mul(unit),
+            CeilFloorOperation::Floor => ts / unit * unit,
+        }
+    }
+
+    fn round(&self, input_val: Value, scale_val: Option<Value>) -> Result<Value, ExpressionError> {
         // Handle NULL input
         if input_val.is_null() {
             return Ok(Value::new(Val::Null));
@@ -76,26 +99,14 @@ impl ExpressionOps for CeilFloorExpression {
         match input_val.get_type_id() {
             TypeId::Decimal => {
                 let num = input_val.as_decimal().unwrap();
-                let scale = if let Some(scale_expr) = &self.scale {
-                    let scale_val = scale_expr.evaluate(tuple, schema)?;
-                    if scale_val.is_null() {
-                        return Ok(Value::new(Val::Null));
-                    }
-                    scale_val.as_integer().unwrap()
-                } else {
-                    0
-                };
-
-                let multiplier = 10f64.powi(scale);
-                let scaled_num = num * multiplier;
-
-                let result = match self.operation {
-                    CeilFloorOperation::Ceil => scaled_num.ceil(),
-                    CeilFloorOperation::Floor => scaled_num.floor(),
+                let scale = match scale_val {
+                    Some(scale_val) if scale_val.is_null() => return Ok(Value::new(Val::Null)),
+                    Some(scale_val) => scale_val.as_integer().unwrap(),
+                    None => 0,
                 };
 
                 Ok(Value::new_with_type(
-                    Val::Decimal(result / multiplier),
+                    Val::Decimal(self.round_decimal(num, scale)),
                     TypeId::Decimal,
                 ))
             },
@@ -107,65 +118,26 @@ impl ExpressionOps for CeilFloorExpression {
                 if let Some(field) = &self.datetime_field {
                     let timestamp = input_val.get_val();
                     if let Val::Timestamp(ts) = timestamp {
-                        let datetime = SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(*ts);
-                        let secs = datetime.duration_since(UNIX_EPOCH).unwrap().as_secs();
-
                         let result = match field {
                             DateTimeField::Second => {
                                 // Already in seconds, no rounding needed
                                 *ts
                             },
-                            DateTimeField::Minute => {
-                                let minutes = secs / 60;
-                                match self.operation {
-                                    CeilFloorOperation::Ceil => (minutes + 1) * 60,
-                                    CeilFloorOperation::Floor => minutes * 60,
-                                }
-                            },
-                            DateTimeField::Hour => {
-                                let hours = secs / 3600;
-                                match self.operation {
-                                    CeilFloorOperation::Ceil => (hours + 1) * 3600,
-                                    CeilFloorOperation::Floor => hours * 3600,
-                                }
-                            },
-                            DateTimeField::Day => {
-                                let days = secs / 86400;
-                                match self.operation {
-                                    CeilFloorOperation::Ceil => (days + 1) * 86400,
-                                    CeilFloorOperation::Floor => days * 86400,
-                                }
-                            },
-                            DateTimeField::Month => {
-                                let (year, month, _day, _hour, _min, _sec) = timestamp_to_date(*ts);
-                                match self.operation {
-                                    CeilFloorOperation::Floor => {
-                                        // First day of current month
-                                        date_to_timestamp(year, month, 1, 0, 0, 0)
-                                    },
-                                    CeilFloorOperation::Ceil => {
-                                        if month == 12 {
-                                            // First day of next year
-                                            date_to_timestamp(year + 1, 1, 1, 0, 0, 0)
-                                        } else {
-                                            // First day of next month
-                                            date_to_timestamp(year, month + 1, 1, 0, 0, 0)
-                                        }
-                                    },
-                                }
-                            },
-                            DateTimeField::Year => {
-                                let (year, _month, _day, _hour, _min, _sec) =
-                                    timestamp_to_date(*ts);
+                            DateTimeField::Minute => self.round_seconds(*ts, 60),
+                            DateTimeField::Hour => self.round_seconds(*ts, 3600),
+                            DateTimeField::Day => self.round_seconds(*ts, 86400),
+                            DateTimeField::Month | DateTimeField::Year => {
+                                let by_year = *field == DateTimeField::Year;
+                                let (start, end) =
+                                    month_or_year(*ts, by_year).ok_or_else(|| {
+                                        ExpressionError::InvalidOperation(format!(
+                                            "Timestamp {} is out of range",
+                                            ts
+                                        ))
+                                    })?;
                                 match self.operation {
-                                    CeilFloorOperation::Floor => {
-                                        // First day of current year
-                                        date_to_timestamp(year, 1, 1, 0, 0, 0)
-                                    },
-                                    CeilFloorOperation::Ceil => {
-                                        // First day of next year
-                                        date_to_timestamp(year + 1, 1, 1, 0, 0, 0)
-                                    },
+                                    CeilFloorOperation::Ceil if start < *ts => end,
+                                    _ => start,
                                 }
                             },
                             _ => {
@@ -197,16 +169,32 @@ impl ExpressionOps for CeilFloorExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for CeilFloorExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let scale_val = match &self.scale {
+            Some(scale_expr) => Some(scale_expr.evaluate(tuple, schema)?),
+            None => None,
+        };
+        self.round(self.expr.evaluate(tuple, schema)?, scale_val)
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we'll just evaluate against the left tuple and schema
-        self.evaluate(left_tuple, left_schema)
+        let evaluate = |expr: &Arc<Expression>| {
+            expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+        };
+        let scale_val = match &self.scale {
+            Some(scale_expr) => Some(evaluate(scale_expr)?),
+            None => None,
+        };
+        self.round(evaluate(&self.expr)?, scale_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
@@ -444,63 +432,12 @@ mod tests {
     }
 }
 
-// Add these helper functions at the module level
-fn is_leap_year(year: i32) -> bool {
-    year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
-}
-
-fn days_in_month(year: i32, month: i32) -> i32 {
-    match month {
-        4 | 6 | 9 | 11 => 30,
-        2 if is_leap_year(year) => 29,
-        2 => 28,
-        _ => 31,
-    }
-}
-
-fn timestamp_to_date(timestamp: u64) -> (i32, i32, i32, i32, i32, i32) {
-    let secs = timestamp as i32;
-    let mut days = secs / 86400;
-    let mut year = 1970;
-    let mut month = 1;
-
-    // Calculate year
-    while days >= (if is_leap_year(year) { 366 } else { 365 }) {
-        days -= if is_leap_year(year) { 366 } else { 365 };
-        year += 1;
-    }
-
-    // Calculate month
-    while days >= days_in_month(year, month) {
-        days -= days_in_month(year, month);
-        month += 1;
-    }
-
-    // Calculate remaining time
-    let day = days + 1;
-    let secs_of_day = secs % 86400;
-    let hour = secs_of_day / 3600;
-    let min = (secs_of_day % 3600) / 60;
-    let sec = secs_of_day % 60;
-
-    (year, month, day, hour, min, sec)
-}
-
-fn date_to_timestamp(year: i32, month: i32, day: i32, hour: i32, min: i32, sec: i32) -> u64 {
-    let mut timestamp = 0u64;
-
-    // Add years
-    for y in 1970..year {
-        timestamp += if is_leap_year(y) { 366 } else { 365 } * 86400;
-    }
-
-    // Add months
-    for m in 1..month {
-        timestamp += days_in_month(year, m) as u64 * 86400;
-    }
-
-    // Add days and time
-    timestamp += ((day - 1) as u64 * 86400) + (hour as u64 * 3600) + (min as u64 * 60) + sec as u64;
-
-    timestamp
+/// The timestamps at which the month (or the year) a timestamp is in begins and ends.
+fn month_or_year(timestamp: u64, by_year: bool) -> Option<(u64, u64)> {
+    let date = DateTime::from_timestamp(i64::try_from(timestamp).ok()?, 0)?.date_naive();
+    let start = NaiveDate::from_ymd_opt(date.year(), if by_year { 1 } else { date.month() }, 1)?;
+    let end = start.checked_add_months(Months::new(if by_year { 12 } else { 1 }))?;
+    let seconds =
+        |date: NaiveDate| u64::try_from(date.and_time(NaiveTime::MIN).and_utc().timestamp()).ok();
+    Some((seconds(start)?, seconds(end)?))
 }
-- 
2.43.0


From 06645d2090efd379f7b12432c78e071a4ec2e81d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 63/81] fix: find the end of the page chain when a table heap
 is reopened

The last page recorded in the system catalog is the one at creation; after
rebuilding, the next page was linked behind that one and cut off the others.
---
 src/storage/table/table_heap.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..682dfa5 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -360,13 +360,22 @@ impl TableHeap {
             last_page_id
         };
 
-        Self {
+        let heap = Self {
             bpm,
             first_page_id: RwLock::new(first_page_id),
             last_page_id: RwLock::new(resolved_last),
             table_oid,
             latch: RwLock::new(()),
+        };
+
+        // The recorded last page may be older than the chain: the table may have grown since
+        let mut last = resolved_last;
+        while last != INVALID_PAGE_ID {
+            *heap.last_page_id.write() = last;
+            last = heap.get_next_page_id(last);
         }
+
+        heap
     }
 
     /// Inserts a tuple into the table. If the tuple is too large (>= page_size), returns `None`.
-- 
2.43.0


From 9b900ab70dad9cedc4e10ceacca95d17327c5e9e Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:50:29 +0000
Subject: [PATCH 64/81] fix: rebuild every table into the database it was
 created in

The table numbers of two databases overlap, so rebuilding from the system
tables replaced tables of the current database by those of another one.
---
 src/catalog/catalog_impl.rs   | 27 +++++++++++++++++++--------
 src/catalog/system_catalog.rs | 12 ++++++++++--
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index 96a51a2..f2265cd 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -349,7 +349,7 @@ impl Catalog {
         // Seed system catalog with any provided tables
         if let Some(default_db_ref) = catalog.databases.get("default") {
             for table_info in default_db_ref.get_all_table_info() {
-                catalog.record_system_table(table_info, &table_info.get_table_schema());
+                catalog.record_system_table("default", table_info, &table_info.get_table_schema());
             }
         }
 
@@ -467,7 +467,9 @@ impl Catalog {
             .create_table(name.clone(), schema.clone())?;
 
         // Record metadata in system catalog (__tables)
-        self.record_system_table(&table_info, &schema);
+        if let Some(database_name) = &self.current_database {
+            self.record_system_table(database_name, &table_info, &schema);
+        }
         Some(table_info)
     }
 
@@ -667,7 +669,7 @@ impl Catalog {
     pub fn rebuild_from_system_catalog(&mut self) {
         let snapshot_path = Path::new("catalog.snapshot");
         let scan = TableScanIterator::new(self.system.tables.clone());
-        let mut rebuilt: Vec<TableInfo> = Vec::new();
+        let mut rebuilt: HashMap<String, Vec<TableInfo>> = HashMap::new();
         let mut rows: Vec<TableCatalogRow> = Vec::new();
 
         // Load snapshot first if available to seed faster rebuild
@@ -680,7 +682,7 @@ impl Catalog {
                     continue;
                 }
                 if let Some(info) = self.row_to_table_info(&row) {
-                    rebuilt.push(info);
+                    rebuilt.entry(row.database_name).or_default().push(info);
                 }
             }
         }
@@ -693,14 +695,22 @@ impl Catalog {
                 }
 
                 if let Some(info) = self.row_to_table_info(&row) {
-                    rebuilt.push(info);
+                    rebuilt
+                        .entry(row.database_name.clone())
+                        .or_default()
+                        .push(info);
                     rows.push(row);
                 }
             }
         }
 
-        if let Some(db) = self.get_current_database_mut() {
-            db.load_tables_from_catalog(rebuilt);
+        // Every table goes back to its own database: the oids of two databases overlap
+        for (name, tables) in rebuilt {
+            let (bpm, txn_manager) = (self.bpm.clone(), self.txn_manager.clone());
+            self.databases
+                .entry(name.clone())
+                .or_insert_with(|| Database::new(name, bpm, txn_manager))
+                .load_tables_from_catalog(tables);
         }
 
         if !rows.is_empty()
@@ -746,7 +756,7 @@ impl Catalog {
     ///
     /// Serializes the schema and inserts a row into the system tables heap
     /// for persistence.
-    fn record_system_table(&self, table_info: &TableInfo, schema: &Schema) {
+    fn record_system_table(&self, database_name: &str, table_info: &TableInfo, schema: &Schema) {
         let encoded_schema = postcard::to_allocvec(schema).unwrap_or_default();
 
         let row = TableCatalogRow {
@@ -755,6 +765,7 @@ impl Catalog {
             first_page_id: table_info.get_table_heap().get_first_page_id_raw(),
             last_page_id: table_info.get_table_heap().get_last_page_id_raw(),
             schema_bin: encoded_schema,
+            database_name: database_name.to_string(),
         };
 
         let values: Vec<Value> = row.to_values();
diff --git a/src/catalog/system_catalog.rs b/src/catalog/system_catalog.rs
index 5fbb55e..3d5681d 100644
--- a/src/catalog/system_catalog.rs
+++ b/src/catalog/system_catalog.rs
@@ -48,6 +48,7 @@
 //! | first_page_id | BigInt   | First page in table heap       |
 //! | last_page_id  | BigInt   | Last page in table heap        |
 //! | schema_bin    | Binary   | Serialized Schema (postcard)   |
+//! | database_name | VarChar  | Database of the table          |
 //!
 //! ### `__indexes` Schema
 //!
@@ -141,6 +142,7 @@
 //!     first_page_id: 5,
 //!     last_page_id: 10,
 //!     schema_bin: serialized_schema,
+//!     database_name: "default".to_string(),
 //! };
 //!
 //! let values = row.to_values();
@@ -212,7 +214,7 @@ impl SystemCatalogSchemas {
     /// Creates a new set of system catalog schemas.
     ///
     /// Each schema defines the column structure for a system catalog table:
-    /// - `__tables`: table_oid, table_name, first_page_id, last_page_id, schema_bin
+    /// - `__tables`: table_oid, table_name, first_page_id, last_page_id, schema_bin, database_name
     /// - `__indexes`: index_oid, index_name, table_oid, unique, index_type, key_attrs, key_schema_bin
     /// - `__dbs`: db_oid, db_name
     /// - `__columns`: table_oid, column_name, ordinal, column_type, column_len, is_pk
@@ -223,6 +225,7 @@ impl SystemCatalogSchemas {
             Column::new("first_page_id", TypeId::BigInt),
             Column::new("last_page_id", TypeId::BigInt),
             Column::new("schema_bin", TypeId::Binary),
+            Column::new("database_name", TypeId::VarChar),
         ]);
 
         let indexes = Schema::new(vec![
@@ -274,13 +277,15 @@ pub struct TableCatalogRow {
     pub last_page_id: PageId,
     /// Bincode-serialized [`Schema`] for the table.
     pub schema_bin: Vec<u8>,
+    /// Name of the database the table belongs to.
+    pub database_name: String,
 }
 
 impl TableCatalogRow {
     /// Converts this row to a vector of values for insertion into `__tables`.
     ///
     /// The values are ordered to match the `__tables` schema:
-    /// `[table_oid, table_name, first_page_id, last_page_id, schema_bin]`
+    /// `[table_oid, table_name, first_page_id, last_page_id, schema_bin, database_name]`
     pub fn to_values(&self) -> Vec<Value> {
         vec![
             Value::new(self.table_oid as i64),
@@ -288,6 +293,7 @@ impl TableCatalogRow {
             Value::new(self.first_page_id as i64),
             Value::new(self.last_page_id as i64),
             Value::new_with_type(Val::Binary(self.schema_bin.clone()), TypeId::Binary),
+            Value::new(self.database_name.clone()),
         ]
     }
 
@@ -304,12 +310,14 @@ impl TableCatalogRow {
         let first = value_to_i64(&tuple.get_value(2))? as PageId;
         let last = value_to_i64(&tuple.get_value(3))? as PageId;
         let schema_bin = value_to_binary(&tuple.get_value(4))?;
+        let database_name = value_to_string(&tuple.get_value(5))?;
         Some(Self {
             table_oid: oid,
             table_name: name,
             first_page_id: first,
             last_page_id: last,
             schema_bin,
+            database_name,
         })
     }
 }
-- 
2.43.0


From 009ca640888153b170302c044ba2804f5fa12ffd Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 65/81] fix: an index made while rows are inserted gets all of
 them

INSERT looked for indexes only before inserting: one that was made in between
was filled before the row was there and never got its entry.
---
 .../execution/executors/insert_executor.rs    | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index f7c9a35..2425491 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -258,6 +258,15 @@ impl InsertExecutor {
         }
     }
 
+    /// Whether there are indexes on the table.
+    fn has_indexes(&self) -> bool {
+        let binding = self.context.read();
+        let catalog_guard = binding.get_catalog().read();
+        !catalog_guard
+            .get_table_indexes(self.plan.get_table_name())
+            .is_empty()
+    }
+
     /// Enters an inserted row into the indexes on its table.
     fn add_to_indexes(
         &self,
@@ -544,13 +553,7 @@ impl AbstractExecutor for InsertExecutor {
 
         // Create transactional table heap
         let transactional_table_heap = TransactionalTableHeap::new(table_heap, table_oidt);
-        let has_indexes = {
-            let binding = self.context.read();
-            let catalog_guard = binding.get_catalog().read();
-            !catalog_guard
-                .get_table_indexes(self.plan.get_table_name())
-                .is_empty()
-        };
+        let has_indexes = self.has_indexes();
 
         let has_foreign_keys = schema
             .get_columns()
@@ -717,6 +720,15 @@ impl AbstractExecutor for InsertExecutor {
             }
         }
 
+        // An index made while the rows were inserted may have missed some of them
+        if !has_indexes && self.has_indexes() {
+            for (oid, rid) in txn_context.get_transaction().get_write_set() {
+                if oid == table_oidt {
+                    self.add_to_indexes(&transactional_table_heap, rid)?;
+                }
+            }
+        }
+
         info!(
             "Insert operation completed successfully, {} rows inserted",
             insert_count
-- 
2.43.0


From e17144fe5f0ed39c07259ae9589571293c4851ce Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 04:59:15 +0000
Subject: [PATCH 66/81] fix: do not lock the catalog twice when looking for
 constraint indexes

Another query waiting to write to the catalog between the two locks waited
for the first, and the second for it: both queries hung.
---
 src/sql/optimizer/optimizer_impl.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index cc43e79..5fa8b08 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -334,13 +334,15 @@ impl Optimizer {
             },
             LogicalPlanType::TableScan { table_name, .. } => {
                 // Check if this table needs constraint indexes
-                let catalog = self.catalog.read();
-                if let Some(table_info) = catalog.get_table(table_name) {
-                    let schema = table_info.get_table_schema();
-
+                // (the catalog must not stay locked: the check locks it, too)
+                let schema = self
+                    .catalog
+                    .read()
+                    .get_table(table_name)
+                    .map(|table_info| table_info.get_table_schema());
+                if let Some(schema) = schema {
                     // Check if constraint indexes are missing
                     if self.needs_constraint_indexes(table_name, &schema) {
-                        drop(catalog); // Release read lock
                         info!(
                             "Creating missing constraint indexes for table '{}'",
                             table_name
-- 
2.43.0


From f54dd93de8ebbe883a2b1c70208fd1e129cc154f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:32:47 +0000
Subject: [PATCH 67/81] fix: DATE_TRUNC to a year, quarter, decade or century
 gives its first day and does not panic

---
 .../expressions/datetime_expression.rs        | 49 ++++---------------
 1 file changed, 10 insertions(+), 39 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 69852f1..5e9c8a1 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -3,7 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Sub;
 use std::sync::Arc;
 
-use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
+use chrono::{DateTime, Datelike, NaiveDate, TimeZone, Timelike, Utc};
 use regex::Regex;
 
 use crate::catalog::column::Column;
@@ -152,11 +152,13 @@ impl DateTimeExpression {
         timestamp: DateTime<Utc>,
     ) -> Result<DateTime<Utc>, ExpressionError> {
         let naive = timestamp.naive_utc();
+        let first_day = |year: i32, month: u32| {
+            NaiveDate::from_ymd_opt(year, month, 1)
+                .and_then(|date| date.and_hms_opt(0, 0, 0))
+                .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))
+        };
         let truncated = match part {
-            DateTimeField::Year => naive
-                .date()
-                .and_hms_opt(0, 0, 0)
-                .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?,
+            DateTimeField::Year => first_day(naive.year(), 1)?,
             DateTimeField::Month => {
                 let date = naive
                     .date()
@@ -167,14 +169,7 @@ impl DateTimeExpression {
             },
             DateTimeField::Quarter => {
                 let month = (naive.month() - 1) / 3 * 3 + 1;
-                naive
-                    .date()
-                    .with_month(month)
-                    .unwrap()
-                    .with_day(1)
-                    .unwrap()
-                    .and_hms_opt(0, 0, 0)
-                    .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
+                first_day(naive.year(), month)?
             },
             DateTimeField::Day => naive
                 .date()
@@ -188,32 +183,8 @@ impl DateTimeExpression {
                 .date()
                 .and_hms_opt(naive.hour(), naive.minute(), 0)
                 .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?,
-            DateTimeField::Century => {
-                let year = (naive.year() / 100) * 100;
-                naive
-                    .date()
-                    .with_year(year)
-                    .unwrap()
-                    .with_month(1)
-                    .unwrap()
-                    .with_day(1)
-                    .unwrap()
-                    .and_hms_opt(0, 0, 0)
-                    .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
-            },
-            DateTimeField::Decade => {
-                let year = (naive.year() / 10) * 10;
-                naive
-                    .date()
-                    .with_year(year)
-                    .unwrap()
-                    .with_month(1)
-                    .unwrap()
-                    .with_day(1)
-                    .unwrap()
-                    .and_hms_opt(0, 0, 0)
-                    .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
-            },
+            DateTimeField::Century => first_day(naive.year().div_euclid(100) * 100, 1)?,
+            DateTimeField::Decade => first_day(naive.year().div_euclid(10) * 10, 1)?,
             DateTimeField::Week(Some(_)) => {
                 let weekday = naive.weekday().num_days_from_monday();
                 naive
-- 
2.43.0


From 50dd6db7eb71a8a27f8c0c0f0d6f1891f33b8fbe Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:33:20 +0000
Subject: [PATCH 68/81] fix: date and time expressions over a join read their
 arguments from both sides

---
 .../expressions/datetime_expression.rs        | 156 +++---------------
 1 file changed, 19 insertions(+), 137 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 5e9c8a1..84fa108 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -11,6 +11,7 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::common::rid::RID;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
+use crate::sql::execution::expressions::constant_value_expression::ConstantExpression;
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
 use crate::types_db::types::Type;
@@ -606,144 +607,25 @@ impl ExpressionOps for DateTimeExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        match self.operation {
-            DateTimeOperation::DateTrunc => {
-                if let Some(part) = &self.part {
-                    if self.args.len() != 1 {
-                        return Err(ExpressionError::InvalidOperation(
-                            "date_trunc requires exactly one argument".to_string(),
-                        ));
-                    }
-
-                    // Check if the argument is a ColumnRefExpression and use the appropriate tuple based on tuple_index
-                    let timestamp_val =
-                        if let Expression::ColumnRef(col_ref) = self.args[0].as_ref() {
-                            if col_ref.get_tuple_index() == 0 {
-                                // Use left tuple
-                                self.args[0].evaluate(left_tuple, left_schema)?
-                            } else {
-                                // Use right tuple
-                                self.args[0].evaluate(right_tuple, right_schema)?
-                            }
-                        } else {
-                            // For non-column expressions, try both tuples
-                            match self.args[0].evaluate(left_tuple, left_schema) {
-                                Ok(val) => val,
-                                Err(_) => self.args[0].evaluate(right_tuple, right_schema)?,
-                            }
-                        };
-
-                    let timestamp = match timestamp_val.get_val() {
-                        Val::VarLen(ts_str) | Val::ConstLen(ts_str) => {
-                            DateTime::parse_from_rfc3339(ts_str)
-                                .map_err(|e| {
-                                    ExpressionError::InvalidOperation(format!(
-                                        "Invalid timestamp format: {}",
-                                        e
-                                    ))
-                                })?
-                                .with_timezone(&Utc)
-                        },
-                        Val::Timestamp(ts) => {
-                            Utc.timestamp_opt(*ts as i64, 0).single().ok_or_else(|| {
-                                ExpressionError::InvalidOperation(
-                                    "Invalid timestamp value".to_string(),
-                                )
-                            })?
-                        },
-                        _ => {
-                            return Err(ExpressionError::InvalidOperation(
-                                "Expected timestamp value".to_string(),
-                            ));
-                        },
-                    };
-                    let result = self.evaluate_date_trunc(part, timestamp)?;
-                    Ok(Value::new(Self::format_datetime_utc(result)))
-                } else {
-                    Err(ExpressionError::InvalidOperation(
-                        "Missing date part for date_trunc".to_string(),
-                    ))
-                }
-            },
-            DateTimeOperation::DatePart => {
-                if let Some(part) = &self.part {
-                    if self.args.len() != 1 {
-                        return Err(ExpressionError::InvalidOperation(
-                            "date_part requires exactly one argument".to_string(),
-                        ));
-                    }
-
-                    // Try to evaluate the argument using both schemas
-                    let timestamp_val = match self.args[0].evaluate(left_tuple, left_schema) {
-                        Ok(val) => val,
-                        Err(_) => self.args[0].evaluate(right_tuple, right_schema)?,
-                    };
-
-                    let timestamp = match timestamp_val.get_val() {
-                        Val::VarLen(ts_str) | Val::ConstLen(ts_str) => {
-                            DateTime::parse_from_rfc3339(ts_str)
-                                .map_err(|e| {
-                                    ExpressionError::InvalidOperation(format!(
-                                        "Invalid timestamp format: {}",
-                                        e
-                                    ))
-                                })?
-                                .with_timezone(&Utc)
-                        },
-                        Val::Timestamp(ts) => {
-                            Utc.timestamp_opt(*ts as i64, 0).single().ok_or_else(|| {
-                                ExpressionError::InvalidOperation(
-                                    "Invalid timestamp value".to_string(),
-                                )
-                            })?
-                        },
-                        _ => {
-                            return Err(ExpressionError::InvalidOperation(
-                                "Expected timestamp value".to_string(),
-                            ));
-                        },
-                    };
-                    let result = self.evaluate_date_part(part, timestamp)?;
-                    Ok(Value::new(result))
-                } else {
-                    Err(ExpressionError::InvalidOperation(
-                        "Missing date part for date_part".to_string(),
-                    ))
-                }
-            },
-            DateTimeOperation::MakeDate
-            | DateTimeOperation::MakeTime
-            | DateTimeOperation::MakeTimestamp
-            | DateTimeOperation::Add
-            | DateTimeOperation::Subtract => {
-                if self.args.len() != 2 {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "{:?} operation requires exactly two arguments",
-                        self.operation
-                    )));
-                }
-
-                // Try to evaluate each argument using both schemas
-                let left = match self.args[0].evaluate(left_tuple, left_schema) {
-                    Ok(val) => val,
-                    Err(_) => self.args[0].evaluate(right_tuple, right_schema)?,
-                };
-
-                let right = match self.args[1].evaluate(left_tuple, left_schema) {
-                    Ok(val) => val,
-                    Err(_) => self.args[1].evaluate(right_tuple, right_schema)?,
-                };
-
-                // Create a dummy tuple with the evaluated arguments
-                let dummy_tuple = Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0));
-                let mut values = dummy_tuple.get_values();
-                values.push(left);
-                values.push(right);
-
-                // Use the regular evaluate method with the dummy tuple
-                self.evaluate(&dummy_tuple, &Schema::new(vec![]))
-            },
+        // Resolve the arguments against both sides, then compute with their values
+        let mut args = Vec::with_capacity(self.args.len());
+        for arg in &self.args {
+            let value = arg.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+            args.push(Arc::new(Expression::Constant(ConstantExpression::new(
+                value,
+                arg.get_return_type().clone(),
+                vec![],
+            ))));
         }
+        let schema = Schema::new(vec![]);
+        let tuple = Tuple::new(&[], &schema, RID::new(0, 0));
+        DateTimeExpression::new(
+            self.operation.clone(),
+            args,
+            self.part.clone(),
+            self.return_type.clone(),
+        )
+        .evaluate(&tuple, &schema)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From ddbe94c2acb97d623aa88c5b55713313227590ac Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:33:51 +0000
Subject: [PATCH 69/81] fix: INTERVAL and AT TIME ZONE over a join see the
 columns of both sides

---
 .../expressions/at_timezone_expression.rs     | 28 ++++++++++++-------
 .../expressions/interval_expression.rs        | 24 +++++++++-------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/sql/execution/expressions/at_timezone_expression.rs b/src/sql/execution/expressions/at_timezone_expression.rs
index 87a8274..d6591ae 100644
--- a/src/sql/execution/expressions/at_timezone_expression.rs
+++ b/src/sql/execution/expressions/at_timezone_expression.rs
@@ -33,13 +33,8 @@ impl AtTimeZoneExpression {
             children,
         }
     }
-}
-
-impl ExpressionOps for AtTimeZoneExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let timestamp_val = self.timestamp.evaluate(tuple, schema)?;
-        let timezone_val = self.timezone.evaluate(tuple, schema)?;
 
+    fn convert(timestamp_val: &Value, timezone_val: &Value) -> Result<Value, ExpressionError> {
         // Get timestamp as string
         let timestamp_str = timestamp_val.to_string();
 
@@ -59,16 +54,29 @@ impl ExpressionOps for AtTimeZoneExpression {
         // Return as RFC3339 string
         Ok(Value::new(converted.to_rfc3339()))
     }
+}
+
+impl ExpressionOps for AtTimeZoneExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let timestamp_val = self.timestamp.evaluate(tuple, schema)?;
+        let timezone_val = self.timezone.evaluate(tuple, schema)?;
+        Self::convert(&timestamp_val, &timezone_val)
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we can just use the regular evaluate
-        self.evaluate(left_tuple, left_schema)
+        let timestamp_val =
+            self.timestamp
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        let timezone_val =
+            self.timezone
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        Self::convert(&timestamp_val, &timezone_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/interval_expression.rs b/src/sql/execution/expressions/interval_expression.rs
index a424d87..00bd89a 100644
--- a/src/sql/execution/expressions/interval_expression.rs
+++ b/src/sql/execution/expressions/interval_expression.rs
@@ -40,12 +40,8 @@ impl IntervalExpression {
     fn value(&self) -> &Arc<Expression> {
         &self.children[0]
     }
-}
-
-impl ExpressionOps for IntervalExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let value = self.value().evaluate(tuple, schema)?;
 
+    fn interval_of(&self, value: &Value) -> Result<Value, ExpressionError> {
         // Convert value to numeric type if needed
         let numeric_value = match value.get_val() {
             Val::Integer(i) => *i as i64,
@@ -85,17 +81,25 @@ impl ExpressionOps for IntervalExpression {
             vec![Value::new(numeric_value)],
         ))
     }
+}
+
+impl ExpressionOps for IntervalExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let value = self.value().evaluate(tuple, schema)?;
+        self.interval_of(&value)
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we can just evaluate using the left tuple and schema
-        // since interval expressions don't depend on join context
-        self.evaluate(left_tuple, left_schema)
+        let value =
+            self.value()
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        self.interval_of(&value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From ca82edffa17e681ff5523804355303b527da723f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:34:45 +0000
Subject: [PATCH 70/81] fix: EXTRACT reads TIMESTAMP values, NULL gives NULL
 and an epoch out of range is refused

---
 .../expressions/extract_expression.rs         | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/sql/execution/expressions/extract_expression.rs b/src/sql/execution/expressions/extract_expression.rs
index 3f24003..3846d15 100644
--- a/src/sql/execution/expressions/extract_expression.rs
+++ b/src/sql/execution/expressions/extract_expression.rs
@@ -2,7 +2,7 @@ use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::sync::Arc;
 
-use chrono::{Datelike, NaiveDateTime, Timelike};
+use chrono::{DateTime, Datelike, NaiveDateTime, Timelike};
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
@@ -10,7 +10,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum ExtractField {
@@ -46,12 +46,18 @@ impl ExtractExpression {
         }
     }
 
-    fn extract_from_timestamp(&self, timestamp_str: &str) -> Result<i32, ExpressionError> {
-        // Parse the timestamp string into a NaiveDateTime
-        let timestamp =
-            NaiveDateTime::parse_from_str(timestamp_str, "%Y-%m-%d %H:%M:%S").map_err(|e| {
-                ExpressionError::InvalidOperation(format!("Failed to parse timestamp: {}", e))
-            })?;
+    fn extract_from(&self, value: &Value) -> Result<Value, ExpressionError> {
+        let timestamp = match value.get_val() {
+            Val::Null => return Ok(Value::new_with_type(Val::Null, TypeId::Integer)),
+            Val::Timestamp(seconds) => DateTime::from_timestamp(*seconds as i64, 0)
+                .ok_or_else(|| {
+                    ExpressionError::InvalidOperation("Invalid timestamp value".to_string())
+                })?
+                .naive_utc(),
+            _ => NaiveDateTime::parse_from_str(&value.to_string(), "%Y-%m-%d %H:%M:%S").map_err(
+                |e| ExpressionError::InvalidOperation(format!("Failed to parse timestamp: {}", e)),
+            )?,
+        };
 
         // Extract the requested field
         let result = match self.field {
@@ -65,7 +71,11 @@ impl ExtractExpression {
             ExtractField::Week => timestamp.iso_week().week() as i32,
             ExtractField::DayOfWeek => timestamp.weekday().num_days_from_monday() as i32 + 1,
             ExtractField::DayOfYear => timestamp.ordinal() as i32,
-            ExtractField::Epoch => timestamp.and_utc().timestamp() as i32,
+            ExtractField::Epoch => {
+                i32::try_from(timestamp.and_utc().timestamp()).map_err(|_| {
+                    ExpressionError::InvalidOperation("Epoch is out of range".to_string())
+                })?
+            },
             ExtractField::Timezone => {
                 return Err(ExpressionError::InvalidOperation(
                     "Timezone extraction not supported".to_string(),
@@ -73,7 +83,7 @@ impl ExtractExpression {
             },
         };
 
-        Ok(result)
+        Ok(Value::new(result))
     }
 }
 
@@ -82,12 +92,8 @@ impl ExpressionOps for ExtractExpression {
         // Evaluate the inner expression to get the timestamp
         let value = self.expr.evaluate(tuple, schema)?;
 
-        // Convert the value to a string representation
-        let timestamp_str = value.to_string();
-
         // Extract the field and return as an integer
-        let extracted_value = self.extract_from_timestamp(&timestamp_str)?;
-        Ok(Value::new(extracted_value))
+        self.extract_from(&value)
     }
 
     fn evaluate_join(
@@ -102,10 +108,7 @@ impl ExpressionOps for ExtractExpression {
             .expr
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Convert to string and extract
-        let timestamp_str = value.to_string();
-        let extracted_value = self.extract_from_timestamp(&timestamp_str)?;
-        Ok(Value::new(extracted_value))
+        self.extract_from(&value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 2f8032889871bd2f731b71da2696eec8ecf2120b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:34:45 +0000
Subject: [PATCH 71/81] fix: AT TIME ZONE reads TIMESTAMP values, and it and
 INTERVAL give NULL for NULL

---
 .../expressions/at_timezone_expression.rs     | 22 +++++++++++++------
 .../expressions/interval_expression.rs        |  1 +
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/sql/execution/expressions/at_timezone_expression.rs b/src/sql/execution/expressions/at_timezone_expression.rs
index d6591ae..08aa81c 100644
--- a/src/sql/execution/expressions/at_timezone_expression.rs
+++ b/src/sql/execution/expressions/at_timezone_expression.rs
@@ -12,7 +12,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct AtTimeZoneExpression {
@@ -35,18 +35,26 @@ impl AtTimeZoneExpression {
     }
 
     fn convert(timestamp_val: &Value, timezone_val: &Value) -> Result<Value, ExpressionError> {
-        // Get timestamp as string
-        let timestamp_str = timestamp_val.to_string();
+        if timestamp_val.is_null() || timezone_val.is_null() {
+            return Ok(Value::new_with_type(Val::Null, TypeId::Timestamp));
+        }
 
         // Parse the timezone string using chrono_tz
         let timezone_str = timezone_val.to_string();
         let timezone = Tz::from_str(&timezone_str)
             .map_err(|e| ExpressionError::InvalidOperation(format!("Invalid timezone: {}", e)))?;
 
-        // Parse the timestamp and convert to the target timezone
-        let dt = DateTime::parse_from_rfc3339(&timestamp_str).map_err(|e| {
-            ExpressionError::InvalidOperation(format!("Invalid timestamp format: {}", e))
-        })?;
+        // Read the timestamp
+        let dt = match timestamp_val.get_val() {
+            Val::Timestamp(seconds) => DateTime::from_timestamp(*seconds as i64, 0)
+                .ok_or_else(|| {
+                    ExpressionError::InvalidOperation("Invalid timestamp value".to_string())
+                })?
+                .fixed_offset(),
+            _ => DateTime::parse_from_rfc3339(&timestamp_val.to_string()).map_err(|e| {
+                ExpressionError::InvalidOperation(format!("Invalid timestamp format: {}", e))
+            })?,
+        };
 
         // Convert to target timezone
         let converted = dt.with_timezone(&timezone);
diff --git a/src/sql/execution/expressions/interval_expression.rs b/src/sql/execution/expressions/interval_expression.rs
index 00bd89a..e7c67e9 100644
--- a/src/sql/execution/expressions/interval_expression.rs
+++ b/src/sql/execution/expressions/interval_expression.rs
@@ -44,6 +44,7 @@ impl IntervalExpression {
     fn interval_of(&self, value: &Value) -> Result<Value, ExpressionError> {
         // Convert value to numeric type if needed
         let numeric_value = match value.get_val() {
+            Val::Null => return Ok(Value::new_with_type(Val::Null, TypeId::Struct)),
             Val::Integer(i) => *i as i64,
             Val::BigInt(i) => *i,
             Val::SmallInt(i) => *i as i64,
-- 
2.43.0


From ebbd4bad9ed4767d3a2ee43b9ba009a028bbf732 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:34:45 +0000
Subject: [PATCH 72/81] fix: date and time functions give NULL for NULL

---
 src/sql/execution/expressions/datetime_expression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 84fa108..0d01697 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -327,6 +327,13 @@ impl DateTimeExpression {
 
 impl ExpressionOps for DateTimeExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        // NULL in, NULL out
+        for arg in &self.args {
+            if arg.evaluate(tuple, schema)?.is_null() {
+                return Ok(Value::new_with_type(Val::Null, self.return_type.get_type()));
+            }
+        }
+
         match self.operation {
             DateTimeOperation::DateTrunc => {
                 if let Some(part) = &self.part {
-- 
2.43.0


From 2ac08caa2a8cedefe871140a6a096fe11123d690 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:34:59 +0000
Subject: [PATCH 73/81] fix: date arithmetic beyond the calendar and an epoch
 beyond 32 bits are refused instead of panicking or wrapping

---
 .../expressions/datetime_expression.rs        | 67 ++++++++++---------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 0d01697..793c98e 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -108,37 +108,26 @@ impl DateTimeExpression {
         .map_err(|_| "Failed to compile regex".to_string())?;
 
         if let Some(captures) = re.captures(duration_str) {
-            let years = captures
-                .get(1)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let months = captures
-                .get(2)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let days = captures
-                .get(3)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let hours = captures
-                .get(4)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let minutes = captures
-                .get(5)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let seconds = captures
-                .get(6)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
+            let part = |group: usize| match captures.get(group) {
+                Some(m) => m.as_str().parse::<i64>().ok(),
+                None => Some(0),
+            };
 
             // Convert to chrono::Duration
             // Note: This is a simplification - months and years are approximated
-            let total_days = years * 365 + months * 30 + days;
-            let total_seconds = hours * 3600 + minutes * 60 + seconds;
-
-            Ok(chrono::Duration::days(total_days) + chrono::Duration::seconds(total_seconds))
+            let duration = || {
+                let days = part(1)?
+                    .checked_mul(365)?
+                    .checked_add(part(2)?.checked_mul(30)?)?
+                    .checked_add(part(3)?)?;
+                let seconds = part(4)?
+                    .checked_mul(3600)?
+                    .checked_add(part(5)?.checked_mul(60)?)?
+                    .checked_add(part(6)?)?;
+                chrono::Duration::try_days(days)?
+                    .checked_add(&chrono::Duration::try_seconds(seconds)?)
+            };
+            duration().ok_or_else(|| format!("Duration is out of range: {}", duration_str))
         } else {
             Err(format!(
                 "Invalid ISO 8601 duration format: {}",
@@ -229,7 +218,9 @@ impl DateTimeExpression {
             DateTimeField::IsoWeek => Ok(timestamp.iso_week().week() as i32),
             DateTimeField::Isoyear => Ok(timestamp.iso_week().year()),
             DateTimeField::Isodow => Ok(timestamp.weekday().number_from_monday() as i32),
-            DateTimeField::Epoch => Ok(timestamp.timestamp() as i32),
+            DateTimeField::Epoch => i32::try_from(timestamp.timestamp()).map_err(|_| {
+                ExpressionError::InvalidOperation("Epoch is out of range".to_string())
+            }),
             DateTimeField::Millisecond | DateTimeField::Milliseconds => {
                 Ok((timestamp.timestamp_subsec_millis() % 1000) as i32)
             },
@@ -467,7 +458,11 @@ impl ExpressionOps for DateTimeExpression {
                         })?;
 
                         // Add duration to timestamp
-                        let result = timestamp + duration;
+                        let result = timestamp.checked_add_signed(duration).ok_or_else(|| {
+                            ExpressionError::InvalidOperation(
+                                "Timestamp is out of range".to_string(),
+                            )
+                        })?;
                         Ok(Value::new(Self::format_datetime_utc(result)))
                     },
                     // Interval + Timestamp (for addition)
@@ -505,7 +500,11 @@ impl ExpressionOps for DateTimeExpression {
                         })?;
 
                         // Add duration to timestamp
-                        let result = timestamp + duration;
+                        let result = timestamp.checked_add_signed(duration).ok_or_else(|| {
+                            ExpressionError::InvalidOperation(
+                                "Timestamp is out of range".to_string(),
+                            )
+                        })?;
                         Ok(Value::new(Self::format_datetime_utc(result)))
                     },
                     // Timestamp - Interval (for subtraction)
@@ -543,7 +542,11 @@ impl ExpressionOps for DateTimeExpression {
                         })?;
 
                         // Subtract duration from timestamp
-                        let result = timestamp - duration;
+                        let result = timestamp.checked_sub_signed(duration).ok_or_else(|| {
+                            ExpressionError::InvalidOperation(
+                                "Timestamp is out of range".to_string(),
+                            )
+                        })?;
                         Ok(Value::new(Self::format_datetime_utc(result)))
                     },
                     // Timestamp - Timestamp (only for subtraction)
-- 
2.43.0


From cb100d8026dd048504f5b426e7a7ef2753b00a36 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:37:16 +0000
Subject: [PATCH 74/81] fix: MAKE_TIME makes a time instead of always failing

---
 src/sql/execution/expressions/datetime_expression.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 793c98e..969354f 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -3,7 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Sub;
 use std::sync::Arc;
 
-use chrono::{DateTime, Datelike, NaiveDate, TimeZone, Timelike, Utc};
+use chrono::{DateTime, Datelike, NaiveDate, NaiveTime, TimeZone, Timelike, Utc};
 use regex::Regex;
 
 use crate::catalog::column::Column;
@@ -269,14 +269,12 @@ impl DateTimeExpression {
         let min = self.args[1].evaluate(tuple, schema)?.as_integer().unwrap();
         let sec = self.args[2].evaluate(tuple, schema)?.as_integer().unwrap();
 
-        let time = Utc
-            .with_ymd_and_hms(0, 0, 0, hour as u32, min as u32, sec as u32)
-            .earliest()
-            .ok_or_else(|| {
+        let time =
+            NaiveTime::from_hms_opt(hour as u32, min as u32, sec as u32).ok_or_else(|| {
                 ExpressionError::InvalidOperation("Invalid time components".to_string())
             })?;
 
-        Ok(Value::new(Self::format_datetime_utc(time)))
+        Ok(Value::new(time.format("%H:%M:%S").to_string()))
     }
 
     fn evaluate_make_timestamp(
-- 
2.43.0


From 84e840512c367c842ad1c8941030eeb91f78b751 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 75/81] fix: ALL is false if a comparison is false, whatever
 NULLs come before it

---
 src/sql/execution/expressions/all_expression.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sql/execution/expressions/all_expression.rs b/src/sql/execution/expressions/all_expression.rs
index ef4ed22..2c5cf0d 100644
--- a/src/sql/execution/expressions/all_expression.rs
+++ b/src/sql/execution/expressions/all_expression.rs
@@ -65,6 +65,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -88,11 +89,14 @@ impl ExpressionOps for AllExpression {
             // If any comparison is null and we haven't found a false yet,
             // the result might be null
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
-        // If we get here, all comparisons were true
+        // If we get here, no comparison was false
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
@@ -129,6 +133,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -152,11 +157,14 @@ impl ExpressionOps for AllExpression {
             // If any comparison is null and we haven't found a false yet,
             // the result might be null
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
-        // If we get here, all comparisons were true
+        // If we get here, no comparison was false
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
-- 
2.43.0


From 98e91a5c47ccf173f290ffc1213bbb2e36b625e2 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 76/81] fix: subscripts at the limits of their types are not
 wrapped and do not panic

---
 .../expressions/subscript_expression.rs       | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/sql/execution/expressions/subscript_expression.rs b/src/sql/execution/expressions/subscript_expression.rs
index f5d0357..b76009b 100644
--- a/src/sql/execution/expressions/subscript_expression.rs
+++ b/src/sql/execution/expressions/subscript_expression.rs
@@ -111,7 +111,7 @@ impl ExpressionOps for SubscriptExpression {
                         if *i < 0 {
                             let len = vec.len() as i32;
                             // Handle negative indices (counting from end)
-                            if -i > len {
+                            if *i < -len {
                                 return Err(ExpressionError::IndexOutOfBounds {
                                     idx: *i as usize,
                                     size: len as usize,
@@ -123,11 +123,11 @@ impl ExpressionOps for SubscriptExpression {
                         }
                     },
                     Val::BigInt(i) => {
-                        let i = *i as i32;
+                        let i = *i;
                         if i < 0 {
-                            let len = vec.len() as i32;
+                            let len = vec.len() as i64;
                             // Handle negative indices (counting from end)
-                            if -i > len {
+                            if i < -len {
                                 return Err(ExpressionError::IndexOutOfBounds {
                                     idx: i as usize,
                                     size: len as usize,
@@ -182,16 +182,16 @@ impl ExpressionOps for SubscriptExpression {
                             Val::Integer(i) => {
                                 if *i < 0 {
                                     let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    if *i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     *i as usize
                                 }
                             },
                             Val::BigInt(i) => {
-                                let i = *i as i32;
+                                let i = *i;
                                 if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    let len = vec.len() as i64;
+                                    if i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     i as usize
                                 }
@@ -231,16 +231,16 @@ impl ExpressionOps for SubscriptExpression {
                             Val::Integer(i) => {
                                 if *i < 0 {
                                     let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    if *i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     *i as usize
                                 }
                             },
                             Val::BigInt(i) => {
-                                let i = *i as i32;
+                                let i = *i;
                                 if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    let len = vec.len() as i64;
+                                    if i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     i as usize
                                 }
@@ -329,7 +329,7 @@ impl ExpressionOps for SubscriptExpression {
                     Val::Integer(i) => {
                         if *i < 0 {
                             let len = vec.len() as i32;
-                            if -i > len {
+                            if *i < -len {
                                 return Err(ExpressionError::IndexOutOfBounds {
                                     idx: *i as usize,
                                     size: len as usize,
@@ -341,10 +341,10 @@ impl ExpressionOps for SubscriptExpression {
                         }
                     },
                     Val::BigInt(i) => {
-                        let i = *i as i32;
+                        let i = *i;
                         if i < 0 {
-                            let len = vec.len() as i32;
-                            if -i > len {
+                            let len = vec.len() as i64;
+                            if i < -len {
                                 return Err(ExpressionError::IndexOutOfBounds {
                                     idx: i as usize,
                                     size: len as usize,
@@ -404,16 +404,16 @@ impl ExpressionOps for SubscriptExpression {
                             Val::Integer(i) => {
                                 if *i < 0 {
                                     let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    if *i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     *i as usize
                                 }
                             },
                             Val::BigInt(i) => {
-                                let i = *i as i32;
+                                let i = *i;
                                 if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    let len = vec.len() as i64;
+                                    if i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     i as usize
                                 }
@@ -458,16 +458,16 @@ impl ExpressionOps for SubscriptExpression {
                             Val::Integer(i) => {
                                 if *i < 0 {
                                     let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    if *i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     *i as usize
                                 }
                             },
                             Val::BigInt(i) => {
-                                let i = *i as i32;
+                                let i = *i;
                                 if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
+                                    let len = vec.len() as i64;
+                                    if i < -len { 0 } else { (len + i) as usize }
                                 } else {
                                     i as usize
                                 }
-- 
2.43.0


From a473907db0059b4cbb16f962d3dcb77bfb1124e6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 77/81] fix: a range with an end alone keeps it when its
 children are replaced

---
 .../execution/expressions/subscript_expression.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/sql/execution/expressions/subscript_expression.rs b/src/sql/execution/expressions/subscript_expression.rs
index b76009b..bcf56d5 100644
--- a/src/sql/execution/expressions/subscript_expression.rs
+++ b/src/sql/execution/expressions/subscript_expression.rs
@@ -525,19 +525,12 @@ impl ExpressionOps for SubscriptExpression {
                 );
                 Subscript::Single(children[1].clone())
             },
-            Subscript::Range { start: _, end: _ } => {
+            Subscript::Range { start, end } => {
                 assert!(children.len() <= 3, "Too many children for range subscript");
+                let mut bounds = children[1..].iter().cloned();
                 Subscript::Range {
-                    start: if children.len() > 1 {
-                        Some(children[1].clone())
-                    } else {
-                        None
-                    },
-                    end: if children.len() > 2 {
-                        Some(children[2].clone())
-                    } else {
-                        None
-                    },
+                    start: start.as_ref().and_then(|_| bounds.next()),
+                    end: end.as_ref().and_then(|_| bounds.next()),
                 }
             },
         };
-- 
2.43.0


From 4f60223eee7fcd723a186cdb47fc2b21028bb01b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 05:50:42 +0000
Subject: [PATCH 78/81] fix: a scalar subquery may return a value of any scalar
 type

---
 src/sql/execution/expressions/subquery_expression.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/subquery_expression.rs b/src/sql/execution/expressions/subquery_expression.rs
index 0713653..ba8a348 100644
--- a/src/sql/execution/expressions/subquery_expression.rs
+++ b/src/sql/execution/expressions/subquery_expression.rs
@@ -72,7 +72,16 @@ impl SubqueryExpression {
             | Val::Decimal(_)
             | Val::Timestamp(_)
             | Val::VarLen(_)
-            | Val::ConstLen(_) => Ok(value),
+            | Val::ConstLen(_)
+            | Val::Float(_)
+            | Val::Date(_)
+            | Val::Time(_)
+            | Val::Interval(_)
+            | Val::Binary(_)
+            | Val::JSON(_)
+            | Val::UUID(_)
+            | Val::Enum(_, _)
+            | Val::Point(_, _) => Ok(value),
 
             // If it's a vector with one element (common for scalar subqueries), return that element
             Val::Vector(v) if v.len() == 1 => Ok(v[0].clone()),
-- 
2.43.0


From 5bc3b72a785d373450f71ef429f0ae095be013b5 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 06:17:34 +0000
Subject: [PATCH 79/81] fix: direct page I/O uses aligned memory all the way to
 the file

---
 src/storage/disk/async_disk/io/executor.rs | 45 +++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 5dd217d..83c5f1f 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -294,7 +294,9 @@ use tokio::sync::Mutex;
 
 use super::operations::IOOperationType;
 use crate::common::config::{DB_PAGE_SIZE, PageId};
-use crate::storage::disk::direct_io::{AlignedBuffer, DirectIOConfig};
+use crate::storage::disk::direct_io::{
+    AlignedBuffer, DirectIOConfig, read_aligned_into, write_aligned,
+};
 
 /// I/O operation executor responsible for executing operations
 ///
@@ -404,6 +406,19 @@ impl IOOperationExecutor {
         }
     }
 
+    /// Runs direct I/O on the file itself: tokio's file copies the data through a buffer of its own, which
+    /// is not aligned as direct I/O requires
+    async fn direct_io<T: Send + 'static>(
+        file: &File,
+        config: DirectIOConfig,
+        io: impl FnOnce(&mut std::fs::File, &DirectIOConfig) -> IoResult<T> + Send + 'static,
+    ) -> IoResult<T> {
+        let mut file = file.try_clone().await?.into_std().await;
+        tokio::task::spawn_blocking(move || io(&mut file, &config))
+            .await
+            .map_err(std::io::Error::other)?
+    }
+
     /// Reads a page from the database file
     ///
     /// When direct I/O is enabled, uses aligned buffers to ensure
@@ -419,14 +434,21 @@ impl IOOperationExecutor {
         let size = DB_PAGE_SIZE as usize;
 
         let mut file = self.db_file.lock().await;
-        file.seek(std::io::SeekFrom::Start(offset)).await?;
 
         if self.db_direct_io_config.enabled {
-            // Use aligned buffer for direct I/O
-            let mut aligned_buf = AlignedBuffer::new(size, self.db_direct_io_config.alignment);
-            file.read_exact(aligned_buf.as_mut_slice()).await?;
-            Ok(aligned_buf.to_vec())
+            Self::direct_io(
+                &file,
+                self.db_direct_io_config.clone(),
+                move |file, config| {
+                    let mut buffer = vec![0u8; size];
+                    read_aligned_into(file, offset, &mut buffer, config)?;
+                    Ok(buffer)
+                },
+            )
+            .await
         } else {
+            file.seek(std::io::SeekFrom::Start(offset)).await?;
+
             // Use standard buffer for buffered I/O
             let mut buffer = vec![0u8; size];
             file.read_exact(&mut buffer).await?;
@@ -475,8 +497,6 @@ impl IOOperationExecutor {
             );
         }
 
-        file.seek(std::io::SeekFrom::Start(offset)).await?;
-
         if self.db_direct_io_config.enabled {
             // Use aligned buffer for direct I/O
             // DB_PAGE_SIZE (4096) is already aligned, but we ensure the buffer is aligned
@@ -485,8 +505,15 @@ impl IOOperationExecutor {
                 DB_PAGE_SIZE as usize,
                 self.db_direct_io_config.alignment,
             );
-            file.write_all(aligned_buf.as_slice()).await?;
+            Self::direct_io(
+                &file,
+                self.db_direct_io_config.clone(),
+                move |file, config| write_aligned(file, offset, aligned_buf.as_slice(), config),
+            )
+            .await?;
         } else {
+            file.seek(std::io::SeekFrom::Start(offset)).await?;
+
             // Use standard write for buffered I/O
             file.write_all(data).await?;
         }
-- 
2.43.0


From ec80cf1b160f2c0a1adb296d6eaa1050190f7624 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 06:32:17 +0000
Subject: [PATCH 80/81] fix: the staging buffer shrinks when a page is staged
 again with fewer bytes

---
 .../disk/async_disk/memory/write_staging_buffer.rs       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index 17dbf22..3280670 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -303,11 +303,11 @@ impl WriteStagingBuffer {
             .map(|d| d.len())
             .unwrap_or(0);
         let new_size = final_data.len();
-        let size_delta = new_size.saturating_sub(old_size);
 
         // Check if adding this write would exceed buffer capacity
         let current_size = self.buffer.buffer_size_bytes.load(Ordering::Relaxed);
-        if current_size + size_delta > self.buffer.max_buffer_size {
+        let total_size = current_size - old_size + new_size;
+        if total_size > self.buffer.max_buffer_size {
             return Ok(false); // Buffer full, needs flush
         }
 
@@ -316,7 +316,7 @@ impl WriteStagingBuffer {
         self.buffer.buffer.insert(page_id, final_data);
         self.buffer
             .buffer_size_bytes
-            .fetch_add(size_delta, Ordering::Relaxed);
+            .store(total_size, Ordering::Relaxed);
 
         if was_new {
             self.buffer.dirty_pages.fetch_add(1, Ordering::Relaxed);
@@ -328,7 +328,8 @@ impl WriteStagingBuffer {
     /// Puts back pages whose flush failed, unless they were written again meanwhile.
     pub fn restore_pages(&mut self, pages: Vec<(PageId, Vec<u8>)>) {
         for (page_id, data) in pages {
-            if let std::collections::hash_map::Entry::Vacant(slot) = self.buffer.buffer.entry(page_id)
+            if let std::collections::hash_map::Entry::Vacant(slot) =
+                self.buffer.buffer.entry(page_id)
             {
                 self.buffer
                     .buffer_size_bytes
-- 
2.43.0


From 891f4034ed30275b5a92a4dd97497cbf61b8929f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 06:32:17 +0000
Subject: [PATCH 81/81] fix: data stored uncompressed is read back whatever
 bytes it holds

---
 src/storage/disk/async_disk/compression.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/storage/disk/async_disk/compression.rs b/src/storage/disk/async_disk/compression.rs
index 2b6e05f..be49553 100644
--- a/src/storage/disk/async_disk/compression.rs
+++ b/src/storage/disk/async_disk/compression.rs
@@ -65,7 +65,7 @@ impl CompressionEngine {
         let original_size = data.len() as u64;
 
         let compressed = match algorithm {
-            CompressionAlgorithm::None => data.to_vec(),
+            CompressionAlgorithm::None => self.store(data),
             CompressionAlgorithm::LZ4 => self.compress_lz4(data),
             CompressionAlgorithm::Zstd => self.compress_zstd(data, level),
         };
@@ -100,6 +100,21 @@ impl CompressionEngine {
         result
     }
 
+    /// Stores data as it is, except for the bytes `decompress_data` takes for markers.
+    fn store(&self, data: &[u8]) -> Vec<u8> {
+        let mut result = Vec::with_capacity(data.len());
+        for (i, &byte) in data.iter().enumerate() {
+            match byte {
+                0xFF => result.extend_from_slice(&[0xFF, 0x00]),
+                // At the beginning these would name an algorithm: write them as a run of one
+                MAGIC_LZ4 | MAGIC_ZSTD if i == 0 => result.extend_from_slice(&[0xFF, 0x01, byte]),
+                _ => result.push(byte),
+            }
+        }
+
+        result
+    }
+
     /// Zstd compression for high compression ratios
     fn compress_zstd(&self, data: &[u8], level: u32) -> Vec<u8> {
         if data.is_empty() {
-- 
2.43.0

