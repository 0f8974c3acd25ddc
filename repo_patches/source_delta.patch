From 1da9df90cd4831b1fba864a575a5a378c855476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 1/9] fix: subsystem: do not leave calls unanswered when the
 subsystem stops

A call submitted concurrently with the drop of the action receiver could stay
in the channel for as long as some handle was alive, so that its caller waited
forever. Drain the closed channel until no submission is in progress.
---
 subsystem/src/task.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/subsystem/src/task.rs b/subsystem/src/task.rs
index 2c87523..2095cb2 100644
--- a/subsystem/src/task.rs
+++ b/subsystem/src/task.rs
@@ -17,6 +17,7 @@
 
 use std::future::IntoFuture;
 
+use futures::FutureExt as _;
 use tokio::{
     sync::{RwLock, mpsc, oneshot},
     task::JoinSet,
@@ -28,6 +29,31 @@ use utils::{once_destructor::OnceDestructor, sync::Arc, tokio_spawn_in_join_set}
 
 use crate::{Subsystem, calls::Action};
 
+/// The receiving side of the action channel.
+///
+/// Compared to the bare `UnboundedReceiver`, it makes sure that no action stays in the channel after
+/// the receiver has been dropped. The bare receiver also drops whatever it finds in the channel,
+/// but an action whose submission is in progress at that moment can be put there later, in which
+/// case it will only be dropped when all the handles are gone. Until then the caller won't get
+/// any response.
+struct ActionReceiver<T: ?Sized>(mpsc::UnboundedReceiver<Action<T>>);
+
+impl<T: ?Sized> Drop for ActionReceiver<T> {
+    fn drop(&mut self) {
+        self.0.close();
+
+        // After the channel has been closed, `recv` returns `None` only when there are no more
+        // actions in the channel and none is being put there.
+        loop {
+            match tokio::task::unconstrained(self.0.recv()).now_or_never() {
+                Some(Some(action)) => drop(action),
+                Some(None) => break,
+                None => std::thread::yield_now(),
+            }
+        }
+    }
+}
+
 /// Handle a task completion result
 pub fn handle_result(full_name: &str, task_type: &str, res: Result<(), tokio::task::JoinError>) {
     log::trace!("Subsystem {full_name} {task_type} task finished");
@@ -43,7 +69,7 @@ pub fn handle_result(full_name: &str, task_type: &str, res: Result<(), tokio::ta
 pub async fn subsystem<S, SF, E>(
     full_name: String,
     subsys_fut: SF,
-    mut action_rx: mpsc::UnboundedReceiver<Action<S::Interface>>,
+    action_rx: mpsc::UnboundedReceiver<Action<S::Interface>>,
     mut task_shutdown_trigger_rx: oneshot::Receiver<()>,
     task_shut_down_tx: mpsc::UnboundedSender<()>,
 ) where
@@ -52,6 +78,8 @@ pub async fn subsystem<S, SF, E>(
     S: Subsystem,
     E: std::error::Error,
 {
+    let mut action_rx = ActionReceiver(action_rx);
+
     log::info!("Subsystem {full_name} starting");
 
     // Make sure that we send the shutdown signal even in case of a panic.
@@ -99,7 +127,7 @@ pub async fn subsystem<S, SF, E>(
             }
 
             // Handle external call requests next.
-            Some(call) = action_rx.recv() => {
+            Some(call) = action_rx.0.recv() => {
                 match call {
                     Action::Mut(call) => {
                         call(subsys.write().await.interface_mut()).await
-- 
2.43.0


From 4593bc387bf26c93ad45993225d13e954956c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 2/9] fix: storage-sqlite: handle transactions that sqlite has
 rolled back by itself

On i/o errors, a full disk or a failed allocation sqlite rolls the whole
transaction back and returns to autocommit mode. A later put or del of the
same rw transaction was then committed on its own even though commit
reported an error, and dropping a read-only transaction hit an assertion
and left the read-only transaction counter incremented.
---
 storage/sqlite/src/lib.rs | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/storage/sqlite/src/lib.rs b/storage/sqlite/src/lib.rs
index 8f63b09..814ec37 100644
--- a/storage/sqlite/src/lib.rs
+++ b/storage/sqlite/src/lib.rs
@@ -89,6 +89,25 @@ impl<'m, const IS_READONLY: bool> DbTx<'m, IS_READONLY> {
     fn lock_connection(&self) -> MutexGuard<'_, SqliteConnection> {
         self.connection.lock().expect("poisoned mutex")
     }
+
+    // Same as lock_connection, but additionally make sure that the underlying rw transaction
+    // still exists.
+    // Note: on certain errors (e.g. on a disk i/o error or when the disk is full) sqlite rolls
+    // the entire transaction back automatically and returns to the autocommit mode. If we allowed
+    // further operations in this case, each of the following writes would become a separate
+    // transaction, which is committed immediately, and reads would no longer see the previous
+    // writes of this transaction.
+    // For a readonly transaction this is not a problem, because no rw transaction can be created
+    // while it exists.
+    fn lock_connection_for_op(&self) -> storage_core::Result<MutexGuard<'_, SqliteConnection>> {
+        let conn_lock = self.lock_connection();
+
+        if !IS_READONLY && conn_lock.connection.is_autocommit() {
+            return Err(storage_core::error::Recoverable::TransactionFailed.into());
+        }
+
+        Ok(conn_lock)
+    }
 }
 
 impl<'m> DbTx<'m, false> {
@@ -111,16 +130,7 @@ impl<const IS_READONLY: bool> Drop for DbTx<'_, IS_READONLY> {
     fn drop(&mut self) {
         let mut conn_lock = self.lock_connection();
 
-        // Note: is_autocommit basically checks whether there are no existing transaction
-        // (sqlite is in the autocommit mode by default; it switches to the manual mode on
-        // BEGIN and returns to autocommit mode after COMMIT or ROLLBACK).
-        // We can only get into this 'if' if `drop` is being called as a result of `commit_transaction`.
-        if conn_lock.connection.is_autocommit() {
-            assert!(!IS_READONLY);
-            return;
-        }
-
-        let need_actual_rollback = if IS_READONLY {
+        let is_last_tx = if IS_READONLY {
             assert!(conn_lock.read_only_tx_count > 0);
 
             conn_lock.read_only_tx_count -= 1;
@@ -132,7 +142,13 @@ impl<const IS_READONLY: bool> Drop for DbTx<'_, IS_READONLY> {
             true
         };
 
-        if need_actual_rollback {
+        // Note: is_autocommit basically checks whether there are no existing transaction
+        // (sqlite is in the autocommit mode by default; it switches to the manual mode on
+        // BEGIN and returns to autocommit mode after COMMIT or ROLLBACK).
+        // There will be no existing transaction if `drop` is being called as a result of
+        // `commit_transaction`, if BEGIN has failed, or if sqlite has already rolled the
+        // transaction back by itself because of an error (this includes readonly transactions).
+        if is_last_tx && !conn_lock.connection.is_autocommit() {
             let res = conn_lock.connection.execute("ROLLBACK TRANSACTION", ());
             if let Err(err) = res {
                 logging::log::error!("Error: transaction rollback failed: {}", err);
@@ -143,7 +159,7 @@ impl<const IS_READONLY: bool> Drop for DbTx<'_, IS_READONLY> {
 
 impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
     fn get(&self, map_id: DbMapId, key: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_for_op()?;
 
         let mut stmt = conn_lock
             .connection
@@ -166,7 +182,7 @@ impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
     ) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
         // TODO check if prefix.is_empty()
         // TODO Perform the filtering in the SQL query itself
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_for_op()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(self.queries[map_id].prefix_iter_query())
@@ -191,7 +207,7 @@ impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
         map_id: DbMapId,
         key: Data,
     ) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_for_op()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(&self.queries[map_id].greater_equal_iter_query(&key))
@@ -214,7 +230,7 @@ impl<const IS_READONLY: bool> backend::ReadOps for DbTx<'_, IS_READONLY> {
 
 impl backend::WriteOps for DbTx<'_, false> {
     fn put(&mut self, map_id: DbMapId, key: Data, val: Data) -> storage_core::Result<()> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_for_op()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(self.queries[map_id].put_query())
@@ -227,7 +243,7 @@ impl backend::WriteOps for DbTx<'_, false> {
     }
 
     fn del(&mut self, map_id: DbMapId, key: &[u8]) -> storage_core::Result<()> {
-        let conn_lock = self.lock_connection();
+        let conn_lock = self.lock_connection_for_op()?;
         let mut stmt = conn_lock
             .connection
             .prepare_cached(self.queries[map_id].delete_query())
-- 
2.43.0


From 5a5eb2c6d28ffef628ed6e074316850eaa85f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 3/9] fix: rpc: write the cookie through a fresh temporary file
 of its own

A temporary file left behind by a killed run was opened without truncating it, so that
a longer left-over ended up in the cookie file (and its permissions were inherited); a
cookie file with the extension 'tmp' was its own temporary file and written in place.
---
 rpc/src/rpc_creds.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rpc/src/rpc_creds.rs b/rpc/src/rpc_creds.rs
index 45a95aa..b5c6d40 100644
--- a/rpc/src/rpc_creds.rs
+++ b/rpc/src/rpc_creds.rs
@@ -38,7 +38,17 @@ fn gen_password(rng: &mut impl CryptoRng, len: usize) -> String {
 }
 
 fn write_file_atomically(path: &Path, data: &str) -> Result<(), std::io::Error> {
-    let path_tmp = path.with_extension("tmp");
+    // Append to the whole file name, so that the temporary file can never be the target itself.
+    let mut path_tmp = path.as_os_str().to_owned();
+    path_tmp.push(".tmp");
+
+    // A temporary file may have been left behind by a run that was killed; neither its contents
+    // nor its permissions must end up in the new file.
+    match std::fs::remove_file(&path_tmp) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => return Err(e),
+        Ok(()) | Err(_) => (),
+    }
+
     let mut options = std::fs::OpenOptions::new();
 
     #[cfg(unix)]
@@ -48,7 +58,7 @@ fn write_file_atomically(path: &Path, data: &str) -> Result<(), std::io::Error>
         options.mode(0o600);
     }
 
-    options.create(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
+    options.create_new(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
 
     std::fs::rename(path_tmp, path)
 }
-- 
2.43.0


From 8c970e695cdc18223926dc0df8166724783439f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 4/9] fix: chainstate: never store an ok status for a
 non-persisted block when its chain turns out to be bad

---
 chainstate/src/detail/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chainstate/src/detail/mod.rs b/chainstate/src/detail/mod.rs
index 7ee1be6..a4dd3ad 100644
--- a/chainstate/src/detail/mod.rs
+++ b/chainstate/src/detail/mod.rs
@@ -490,6 +490,16 @@ impl<S: BlockchainStorage, V: TransactionVerificationStrategy> Chainstate<S, V>
                     // (Also, invalidate_block needs the block index to exist in order to be able to
                     // set the corresponding failure bit.)
                     debug_assert!(status.is_ok());
+                    // Note that the block itself hasn't been persisted and its chain is known to be
+                    // bad, so its index must not be saved with an "ok" status, even temporarily -
+                    // the invalidation below happens in a separate db transaction, which may fail
+                    // or may never be reached if the node is terminated.
+                    let mut status = status;
+                    if first_invalid_parent_id == block_id {
+                        status.set_validation_failed();
+                    } else {
+                        status.set_has_invalid_parent();
+                    }
                     // Ignore the result, because we already have an error to return.
                     let _result = self.set_new_block_index(&block_index.with_status(status));
 
-- 
2.43.0


From 7f9f22bea226b0f725765e6539e0205c9599bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 5/9] fix: chainstate: resetting failure flags of a block must
 not make it ok while its parent is bad

---
 .../src/detail/block_invalidation/mod.rs      | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/chainstate/src/detail/block_invalidation/mod.rs b/chainstate/src/detail/block_invalidation/mod.rs
index 084e16c..1ea4d1d 100644
--- a/chainstate/src/detail/block_invalidation/mod.rs
+++ b/chainstate/src/detail/block_invalidation/mod.rs
@@ -269,18 +269,35 @@ impl<'a, S: BlockchainStorage, V: TransactionVerificationStrategy> BlockInvalida
 
     /// Reset fail flags in block indices for all blocks in the subtree that starts at the specified block.
     /// Block indices for which no block data exists in the db will be deleted.
+    /// If the parent of the specified block is itself marked as bad, the blocks will still be marked
+    /// as having an invalid parent.
     #[log_error]
     pub fn reset_block_failure_flags(
         &mut self,
         block_id: &Id<Block>,
     ) -> Result<(), BlockInvalidatorError> {
-        let block_indices_to_clear = {
+        let (block_indices_to_clear, is_parent_ok) = {
             let chainstate_ref =
                 self.chainstate.make_db_tx_ro().map_err(BlockInvalidatorError::from)?;
 
-            chainstate_ref
+            let block_indices = chainstate_ref
                 .collect_block_indices_in_branch(block_id)
-                .map_err(BlockInvalidatorError::BlockIndicesForBranchQueryError)?
+                .map_err(BlockInvalidatorError::BlockIndicesForBranchQueryError)?;
+
+            let parent_id = block_indices.first().and_then(|root_index| {
+                root_index
+                    .prev_block_id()
+                    .classify(&self.chainstate.chain_config)
+                    .chain_block_id()
+            });
+            let is_parent_ok = match parent_id {
+                Some(parent_id) => {
+                    get_existing_block_index(&chainstate_ref, &parent_id)?.status().is_ok()
+                }
+                None => true,
+            };
+
+            (block_indices, is_parent_ok)
         };
 
         self.chainstate.with_rw_tx(
@@ -296,11 +313,12 @@ impl<'a, S: BlockchainStorage, V: TransactionVerificationStrategy> BlockInvalida
                                 )
                             })?;
                     } else {
-                        update_block_status(
-                            chainstate_ref,
-                            cur_index.clone(),
-                            cur_index.status().with_cleared_fail_bits(),
-                        )?;
+                        let mut status = cur_index.status().with_cleared_fail_bits();
+                        // If the subtree's own parent is still bad, the subtree can't become ok.
+                        if !is_parent_ok {
+                            status.set_has_invalid_parent();
+                        }
+                        update_block_status(chainstate_ref, cur_index.clone(), status)?;
                     }
                 }
 
-- 
2.43.0


From 7149db4d7ed63045ecbd0ba3d7adf39261aada4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 6/9] fix: chainstate: a storage failure in the utxo view must
 not condemn the block

---
 chainstate/src/detail/error_classification.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/chainstate/src/detail/error_classification.rs b/chainstate/src/detail/error_classification.rs
index bfe3245..4b55243 100644
--- a/chainstate/src/detail/error_classification.rs
+++ b/chainstate/src/detail/error_classification.rs
@@ -477,9 +477,19 @@ impl BlockProcessingErrorClassification for DestinationSigError {
 
 impl BlockProcessingErrorClassification for utxo::Error {
     fn classify(&self) -> BlockProcessingErrorClass {
-        // Nothing other than BadBlock here.
-        // TODO: should we descend into inner errors just in case?
-        BlockProcessingErrorClass::BadBlock
+        match self {
+            // These are failures of the underlying storage, they say nothing about the block.
+            utxo::Error::ViewRead | utxo::Error::StorageWrite => BlockProcessingErrorClass::General,
+
+            utxo::Error::OverwritingUtxo
+            | utxo::Error::FreshUtxoAlreadyExists
+            | utxo::Error::UtxoAlreadySpent(_)
+            | utxo::Error::NoUtxoFound
+            | utxo::Error::NoBlockchainHeightFound
+            | utxo::Error::MissingBlockRewardUndo(_)
+            | utxo::Error::InvalidBlockRewardOutputType(_)
+            | utxo::Error::TxInputAndUndoMismatch(_) => BlockProcessingErrorClass::BadBlock,
+        }
     }
 }
 
-- 
2.43.0


From d7a434a3a6d102cac54fc672fdafbe6df9dbf2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 7/9] fix: p2p: keep track of a peer's header request answered
 during initial block download

---
 p2p/src/sync/peer/block_manager.rs | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/p2p/src/sync/peer/block_manager.rs b/p2p/src/sync/peer/block_manager.rs
index e20d510..4859821 100644
--- a/p2p/src/sync/peer/block_manager.rs
+++ b/p2p/src/sync/peer/block_manager.rs
@@ -438,19 +438,7 @@ where
             )));
         }
 
-        if self.chainstate_handle.is_initial_block_download().await? {
-            log::debug!(
-                "Responding with empty headers list because the node is in initial block download"
-            );
-            // Respond with an empty list to avoid being marked as stalled.
-            // Note: sending actual headers when in IBD is in general not a good idea, because
-            // we may not be on the correct chain. E.g. the current best block might be below
-            // the first checkpoint, so we'd have no way of knowing that the chain is bogus.
-            // And if we sent such headers to a peer that have seen a checkpointed block, it
-            // would discourage us.
-            self.send_headers(HeaderList::new(Vec::new()))?;
-            return Ok(());
-        }
+        let is_initial_block_download = self.chainstate_handle.is_initial_block_download().await?;
 
         // Obtain headers and also determine the new value for peers_best_block_that_we_have.
         let header_count_limit = *self.p2p_config.protocol_config.msg_header_count_limit;
@@ -484,6 +472,25 @@ where
             self.incoming.peers_best_block_that_we_have.as_displayable()
         );
 
+        let headers = if is_initial_block_download {
+            log::debug!(
+                "Responding with empty headers list because the node is in initial block download"
+            );
+            // Respond with an empty list to avoid being marked as stalled.
+            // Note: sending actual headers when in IBD is in general not a good idea, because
+            // we may not be on the correct chain. E.g. the current best block might be below
+            // the first checkpoint, so we'd have no way of knowing that the chain is bogus.
+            // And if we sent such headers to a peer that have seen a checkpointed block, it
+            // would discourage us.
+            //
+            // Also note that the peer will not repeat its request after getting the empty list,
+            // so the rest of the state must still be updated as usual. Otherwise new tips would
+            // never be announced to this peer, even after the node is no longer in IBD.
+            Vec::new()
+        } else {
+            headers
+        };
+
         // Sending a below-the-max amount of headers is a signal to the peer that we've sent
         // all headers that were available at the moment.
         self.have_sent_all_headers = headers.len() < header_count_limit;
-- 
2.43.0


From 77e619c91ca9769be7591b380b7b9205d95510bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 8/9] fix: mempool: do not miss a new tip that appears before
 the chainstate subscription

---
 .../src/interface/mempool_interface_impl.rs   | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mempool/src/interface/mempool_interface_impl.rs b/mempool/src/interface/mempool_interface_impl.rs
index 2f4f307..f1927b3 100644
--- a/mempool/src/interface/mempool_interface_impl.rs
+++ b/mempool/src/interface/mempool_interface_impl.rs
@@ -15,7 +15,7 @@
 
 use std::{collections::BTreeSet, num::NonZeroUsize, sync::Arc};
 
-use chainstate::ChainstateEventTracingWrapper;
+use chainstate::{ChainstateError, ChainstateEvent, ChainstateEventTracingWrapper};
 use common::{
     chain::{ChainConfig, GenBlock, SignedTransaction, Transaction},
     primitives::{Id, Idable},
@@ -69,7 +69,7 @@ impl MempoolInit {
         this: subsystem::SubmitOnlyHandle<dyn MempoolInterface>,
     ) -> Result<Mempool, Error> {
         log::info!("Starting mempool");
-        let mempool = Mempool::new(
+        let mut mempool = Mempool::new(
             self.chain_config,
             self.mempool_config,
             self.chainstate_handle,
@@ -78,16 +78,33 @@ impl MempoolInit {
         )?;
 
         log::trace!("Subscribing to chainstate events");
-        let subscribe_func = Arc::new(move |event: chainstate::ChainstateEvent| {
+        let subscribe_func = Arc::new(move |event: ChainstateEvent| {
             let _ = this
                 .submit_mut(|this| this.notify_chainstate_event(event))
                 .log_warn_pfx("Mempool cannot handle a chainstate event");
         });
 
-        mempool
+        // Obtain the current tip together with subscribing, because it may have already changed since
+        // the mempool was created, in which case there will be no event about it.
+        let (tip_id, tip_height, is_initial_block_download) = mempool
             .chainstate_handle()
-            .call_mut(|this| this.subscribe_to_subsystem_events(subscribe_func))
-            .await?;
+            .call_mut(|this| -> Result<_, ChainstateError> {
+                this.subscribe_to_subsystem_events(subscribe_func);
+                Ok((
+                    this.get_best_block_id()?,
+                    this.get_best_block_height()?,
+                    this.is_initial_block_download(),
+                ))
+            })
+            .await??;
+
+        if tip_id != mempool.best_block_id() {
+            mempool.process_chainstate_event(ChainstateEvent::NewTip {
+                id: tip_id,
+                height: tip_height,
+                is_initial_block_download,
+            })?;
+        }
 
         Ok(mempool)
     }
-- 
2.43.0


From e68ef30c1795a574c7c8b2d6f9f3cc0cdf779eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 9/9] fix: mempool: do not punish peers for transactions that
 may be valid on another tip

---
 mempool/src/error/ban_score.rs | 82 ++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/mempool/src/error/ban_score.rs b/mempool/src/error/ban_score.rs
index c3fe7df..1609478 100644
--- a/mempool/src/error/ban_score.rs
+++ b/mempool/src/error/ban_score.rs
@@ -17,6 +17,7 @@ use chainstate::{
     ChainstateError, ConnectTransactionError, IOPolicyError, TokensError,
     TransactionVerifierStorageError,
     ban_score::BanScore,
+    constraints_value_accumulator,
     tx_verifier::{
         self, CheckTransactionError,
         transaction_verifier::{RewardDistributionError, error::SignatureDestinationGetterError},
@@ -189,6 +190,7 @@ impl MempoolBanScore for ConnectTransactionError {
             // it is the transaction or the current tip that's wrong, we don't punish the peer.
             ConnectTransactionError::MissingOutputOrSpent(_) => 0,
             ConnectTransactionError::NonceIsNotIncremental(..) => 0,
+            ConnectTransactionError::AttemptToSpendFrozenToken(_) => 0,
 
             // These are delegated to the inner error
             ConnectTransactionError::UtxoError(err) => err.mempool_ban_score(),
@@ -201,6 +203,9 @@ impl MempoolBanScore for ConnectTransactionError {
             ConnectTransactionError::InputCheck(err) => err.mempool_ban_score(),
             ConnectTransactionError::OrdersAccountingError(err) => err.mempool_ban_score(),
             ConnectTransactionError::IdCreationError(err) => err.mempool_ban_score(),
+            ConnectTransactionError::ConstrainedValueAccumulatorError(err, _) => {
+                err.mempool_ban_score()
+            }
 
             // Transaction definitely invalid, ban peer
             ConnectTransactionError::RewardAdditionError(_) => 100,
@@ -211,13 +216,11 @@ impl MempoolBanScore for ConnectTransactionError {
             ConnectTransactionError::NotEnoughPledgeToCreateStakePool(_, _, _) => 100,
             ConnectTransactionError::TotalFeeRequiredOverflow => 100,
             ConnectTransactionError::InsufficientCoinsFee(_, _) => 100,
-            ConnectTransactionError::AttemptToSpendFrozenToken(_) => 100,
             ConnectTransactionError::ProduceBlockFromStakeChangesStakerDestination(_, _) => 100,
             ConnectTransactionError::ZeroTokenTransfer(_) => 100,
 
             // Need to drill down deeper into the error in these cases
             ConnectTransactionError::IOPolicyError(err, _) => err.ban_score(),
-            ConnectTransactionError::ConstrainedValueAccumulatorError(err, _) => err.ban_score(),
 
             // Should not happen when processing standalone transactions
             ConnectTransactionError::MissingBlockUndo(_) => 0,
@@ -262,16 +265,18 @@ impl MempoolBanScore for tx_verifier::error::InputCheckError {
 impl MempoolBanScore for tx_verifier::error::InputCheckErrorPayload {
     fn mempool_ban_score(&self) -> u32 {
         match self {
-            Self::MissingUtxo(_) => 100,
-            Self::PoolNotFound(_) => 100,
-            Self::OrderNotFound(_) => 100,
+            // These depend on the current state which may be out of sync
+            Self::MissingUtxo(_) => 0,
+            Self::PoolNotFound(_) => 0,
+            Self::OrderNotFound(_) => 0,
+
             Self::NonUtxoKernelInput(_) => 100,
             Self::UtxoView(e) => e.ban_score(),
             Self::UtxoInfoProvider(e) => e.ban_score(),
             Self::PoolInfoProvider(e) => e.ban_score(),
             Self::OrderInfoProvider(e) => e.ban_score(),
-            Self::Translation(e) => e.ban_score(),
-            Self::Verification(e) => e.ban_score(),
+            Self::Translation(e) => e.mempool_ban_score(),
+            Self::Verification(e) => e.mempool_ban_score(),
         }
     }
 }
@@ -279,42 +284,42 @@ impl MempoolBanScore for tx_verifier::error::InputCheckErrorPayload {
 impl MempoolBanScore for mintscript::translate::TranslationError {
     fn mempool_ban_score(&self) -> u32 {
         match self {
-            Self::Unspendable
-            | Self::IllegalAccountSpend
-            | Self::IllegalOutputSpend
-            | Self::PoolNotFound(_)
+            Self::Unspendable | Self::IllegalAccountSpend | Self::IllegalOutputSpend => 100,
+
+            // These depend on the current state which may be out of sync
+            Self::PoolNotFound(_)
             | Self::DelegationNotFound(_)
             | Self::TokenNotFound(_)
-            | Self::OrderNotFound(_) => 100,
+            | Self::OrderNotFound(_) => 0,
 
             Self::SignatureError(_) => 100,
-            Self::PoSAccounting(e) => e.ban_score(),
-            Self::TokensAccounting(e) => e.ban_score(),
-            Self::OrdersAccounting(e) => e.ban_score(),
+            Self::PoSAccounting(e) => e.mempool_ban_score(),
+            Self::TokensAccounting(e) => e.mempool_ban_score(),
+            Self::OrdersAccounting(e) => e.mempool_ban_score(),
         }
     }
 }
 
-impl<SE, TE: BanScore, HE> MempoolBanScore for mintscript::script::ScriptError<SE, TE, HE> {
+impl<SE, TE: MempoolBanScore, HE> MempoolBanScore for mintscript::script::ScriptError<SE, TE, HE> {
     fn mempool_ban_score(&self) -> u32 {
         match self {
             Self::Threshold(_) => 100,
             Self::Signature(_) => 100,
             Self::Hashlock(_) => 100,
-            Self::Timelock(e) => e.ban_score(),
+            Self::Timelock(e) => e.mempool_ban_score(),
         }
     }
 }
 
-impl<CE: BanScore> MempoolBanScore for mintscript::checker::TimelockError<CE> {
+impl<CE: MempoolBanScore> MempoolBanScore for mintscript::checker::TimelockError<CE> {
     fn mempool_ban_score(&self) -> u32 {
         match self {
-            Self::HeightLocked(_, _)
-            | Self::TimestampLocked(_, _)
-            | Self::HeightArith
-            | Self::TimestampArith => 100,
+            // The peer's tip may be ahead of ours
+            Self::HeightLocked(_, _) | Self::TimestampLocked(_, _) => 0,
 
-            Self::Context(e) => e.ban_score(),
+            Self::HeightArith | Self::TimestampArith => 100,
+
+            Self::Context(e) => e.mempool_ban_score(),
         }
     }
 }
@@ -465,11 +470,11 @@ impl MempoolBanScore for accounting::Error {
             // These should not happen with valid transactions
             accounting::Error::ArithmeticErrorDeltaAdditionFailed => 100,
             accounting::Error::ArithmeticErrorSumToSignedFailed => 100,
-            accounting::Error::ArithmeticErrorSumToUnsignedFailed => 100,
             accounting::Error::ArithmeticErrorToSignedFailed => 100,
             accounting::Error::ArithmeticErrorToUnsignedFailed => 100,
 
             // These depend on the current state which may be out of sync
+            accounting::Error::ArithmeticErrorSumToUnsignedFailed => 0,
             accounting::Error::DataCreatedMultipleTimes => 0,
             accounting::Error::ModifyNonexistingData => 0,
             accounting::Error::RemoveNonexistingData => 0,
@@ -485,6 +490,35 @@ impl MempoolBanScore for accounting::Error {
     }
 }
 
+impl MempoolBanScore for constraints_value_accumulator::Error {
+    fn mempool_ban_score(&self) -> u32 {
+        use constraints_value_accumulator::Error as E;
+        match self {
+            // These depend on the current state which may be out of sync
+            E::MissingOutputOrSpent(_) => 0,
+            E::PledgeAmountNotFound(_) => 0,
+            E::DelegationBalanceNotFound(_) => 0,
+            E::AccountBalanceNotFound(_) => 0,
+            E::NegativeAccountBalance(_) => 0,
+
+            // These are delegated to the inner error
+            E::PoSAccountingError(err) => err.mempool_ban_score(),
+            E::OrdersAccountingError(err) => err.mempool_ban_score(),
+            E::TokensAccountingError(err) => err.mempool_ban_score(),
+
+            // These signify an invalid transaction
+            E::AmountOverflow => 100,
+            E::CoinOrTokenOverflow(_) => 100,
+            E::AttemptToPrintMoney(_) => 100,
+            E::AttemptToPrintMoneyOrViolateTimelockConstraints(_) => 100,
+            E::AttemptToViolateFeeRequirements => 100,
+            E::InputsAndInputsUtxosLengthMismatch(_, _) => 100,
+            E::SpendingNonSpendableOutput(_) => 100,
+            E::UnsupportedTokenVersion => 100,
+        }
+    }
+}
+
 impl MempoolBanScore for IOPolicyError {
     fn mempool_ban_score(&self) -> u32 {
         match self {
-- 
2.43.0

