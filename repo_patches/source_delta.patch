From fd0efd12a5a39fa957f52263e4ba74a8f6b47b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 01/15] fix: a heartbeat refused with a higher vote must be
 reported and not extend the leader's lease

---
 openraft/src/core/heartbeat/worker.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..9b58284 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -93,6 +94,20 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                Ok(Ok(AppendEntriesResponse::HigherVote(higher))) => {
+                    // The target does not acknowledge this Leader:
+                    // report the higher vote, and do not extend the lease of this Leader.
+                    let res = self.tx_notification.send(Notification::HigherVote {
+                        target: self.target,
+                        higher,
+                        sender_vote: *heartbeat.session_id.leader_vote.deref(),
+                    });
+
+                    if res.is_err() {
+                        tracing::error!("{} failed to send a higher vote to RaftCore. quit", self);
+                        return;
+                    }
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From 60e628b35aa904f1cad26f1931baf69f0abad2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 02/15] fix: a snapshot built while a newer one is installed
 must not revert the stored snapshot position

---
 openraft/src/core/raft_core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..42f92f5 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1468,7 +1468,11 @@ where
                         self.engine.finish_building_snapshot(meta);
 
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        // A snapshot with a greater last log id may have been installed
+                        // while this one was being built.
+                        if last_log_id.as_ref() > st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From 857adbbf816d04691c1dba39c1d3d05a0355be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 03/15] fix: installing a snapshot must drop an effective
 membership of a discarded log

---
 openraft/src/engine/handler/following_handler/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..0f5da84 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -310,6 +310,11 @@ where C: RaftTypeConfig
                 // Conflict, delete all non-committed logs.
                 self.truncate_logs(self.state.committed().next_index());
             }
+        } else {
+            // All local logs are covered, and will be purged, by the snapshot.
+            // An effective membership found in a non-committed log may conflict with the leader,
+            // revert it: if it does not conflict, the snapshot contains it or a later one.
+            self.state.membership_state.truncate(self.state.committed().next_index());
         }
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
-- 
2.43.0


From 491dd59145332743b0aa60cc9f10cc5d45f07c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 04/15] fix: cancelling a shutdown must not lose the join
 handle of RaftCore

The future awaiting the core task owned its join handle: when it was
dropped (a timeout around shutdown(), a cancelled client call), the core
state stayed Joining forever. Later callers then panicked with
'RaftCore should have already quit', or shutdown() returned before the
core task ended. Put the handle back when the joining future is dropped,
and let the other waiters take over.
---
 openraft/src/raft/raft_inner.rs | 45 ++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/openraft/src/raft/raft_inner.rs b/openraft/src/raft/raft_inner.rs
index 3c190da..54f3950 100644
--- a/openraft/src/raft/raft_inner.rs
+++ b/openraft/src/raft/raft_inner.rs
@@ -13,11 +13,13 @@ use crate::core::raft_msg::external_command::ExternalCommand;
 use crate::core::raft_msg::RaftMsg;
 use crate::core::TickHandle;
 use crate::error::Fatal;
+use crate::error::Infallible;
 use crate::error::RaftError;
 use crate::metrics::RaftDataMetrics;
 use crate::metrics::RaftServerMetrics;
 use crate::raft::core_state::CoreState;
 use crate::type_config::alias::AsyncRuntimeOf;
+use crate::type_config::alias::JoinHandleOf;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::MutexOf;
 use crate::type_config::alias::OneshotReceiverOf;
@@ -173,6 +175,15 @@ where C: RaftTypeConfig
     /// Wait for `RaftCore` task to finish and record the returned value from the task.
     #[tracing::instrument(level = "debug", skip_all)]
     pub(in crate::raft) async fn join_core_task(&self) {
+        // The caller that is joining may be cancelled before the task finishes,
+        // then another one has to take over.
+        while !self.try_join_core_task().await {}
+    }
+
+    /// Join `RaftCore` task, or wait for the one that is joining it.
+    ///
+    /// Returns `false` if the one that is joining gives up before the task finishes.
+    async fn try_join_core_task(&self) -> bool {
         // Get the Running state of RaftCore,
         // or an error if RaftCore has been in Joining state.
         let running_res = {
@@ -193,14 +204,20 @@ where C: RaftTypeConfig
                 CoreState::Joining(watch_rx) => Err(watch_rx.clone()),
                 CoreState::Done(_) => {
                     // RaftCore has already finished exiting, nothing to do
-                    return;
+                    return true;
                 }
             }
         };
 
         match running_res {
             Ok((join_handle, tx)) => {
-                let join_res = join_handle.await;
+                // If this future is dropped while waiting, the handle is put back.
+                let mut joining = Joining {
+                    core_state: &self.core_state,
+                    join_handle: Some(join_handle),
+                };
+                let join_res = joining.join_handle.as_mut().unwrap().await;
+                joining.join_handle = None;
 
                 tracing::info!(res = debug(&join_res), "RaftCore exited");
 
@@ -220,19 +237,39 @@ where C: RaftTypeConfig
                     *state = CoreState::Done(core_task_res);
                 }
                 tx.send(true).ok();
+                true
             }
             Err(mut rx) => {
                 // Other thread is waiting for the core to finish.
                 loop {
                     let res = rx.changed().await;
                     if res.is_err() {
-                        break;
+                        return *rx.borrow_watched();
                     }
                     if *rx.borrow_watched() {
-                        break;
+                        return true;
                     }
                 }
             }
         }
     }
 }
+
+/// Holds the join handle of `RaftCore` while waiting for it, and puts it back when dropped before
+/// the task finishes, so that the handle is not lost if the waiting future is cancelled.
+struct Joining<'a, C>
+where C: RaftTypeConfig
+{
+    core_state: &'a std::sync::Mutex<CoreState<C>>,
+    join_handle: Option<JoinHandleOf<C, Result<Infallible, Fatal<C>>>>,
+}
+
+impl<'a, C> Drop for Joining<'a, C>
+where C: RaftTypeConfig
+{
+    fn drop(&mut self) {
+        if let Some(join_handle) = self.join_handle.take() {
+            *self.core_state.lock().unwrap() = CoreState::Running(join_handle);
+        }
+    }
+}
-- 
2.43.0


From f446bae2d3622c3c7b093bbfe608cc82e630f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 05/15] fix: with_state_machine must tell a stopped RaftCore
 from a wrong state machine type

CoreState stays Running until the core task is joined, so that after a
storage error or a panic with_state_machine() reported
InvalidStateMachineType instead of the fatal error.
---
 openraft/src/raft/core_state.rs | 9 ---------
 openraft/src/raft/raft_inner.rs | 9 +++++++--
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/openraft/src/raft/core_state.rs b/openraft/src/raft/core_state.rs
index a02e346..57cc02f 100644
--- a/openraft/src/raft/core_state.rs
+++ b/openraft/src/raft/core_state.rs
@@ -17,12 +17,3 @@ where C: RaftTypeConfig
     /// The RaftCore task has finished. The return value of the task is stored.
     Done(Result<Infallible, Fatal<C>>),
 }
-
-impl<C> CoreState<C>
-where C: RaftTypeConfig
-{
-    /// Returns `true` if the RaftCore task is still running.
-    pub(in crate::raft) fn is_running(&self) -> bool {
-        matches!(self, CoreState::Running(_))
-    }
-}
diff --git a/openraft/src/raft/raft_inner.rs b/openraft/src/raft/raft_inner.rs
index 54f3950..1e5f2b9 100644
--- a/openraft/src/raft/raft_inner.rs
+++ b/openraft/src/raft/raft_inner.rs
@@ -137,9 +137,14 @@ where C: RaftTypeConfig
         Ok(())
     }
 
+    /// Return `true` if `RaftCore` still receives messages.
+    ///
+    /// [`CoreState`] does not tell that: it stays `Running` until the task is joined.
     pub(in crate::raft) fn is_core_running(&self) -> bool {
-        let state = self.core_state.lock().unwrap();
-        state.is_running()
+        let probe = RaftMsg::ExternalCoreRequest {
+            req: Box::new(|_st| {}),
+        };
+        self.tx_api.send(probe).is_ok()
     }
 
     /// Get the error that caused RaftCore to stop.
-- 
2.43.0


From f70190ccfa40d98f6c1d29c3e1efa6f917c0546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 06/15] fix: ensure_linearizable must return the error that
 stopped RaftCore

It returned Fatal::Stopped even when RaftCore stopped because of a
storage error or a panic.
---
 openraft/src/raft/mod.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/openraft/src/raft/mod.rs b/openraft/src/raft/mod.rs
index a44d121..ea6c51a 100644
--- a/openraft/src/raft/mod.rs
+++ b/openraft/src/raft/mod.rs
@@ -536,15 +536,19 @@ where C: RaftTypeConfig
         let (read_log_id, applied) = self.get_read_log_id().await?;
 
         if read_log_id.index() > applied.index() {
-            self.wait(None)
-                .applied_index_at_least(read_log_id.index(), "ensure_linearizable")
-                .await
-                .map_err(|e| match e {
-                    WaitError::Timeout(_, _) => {
-                        unreachable!("did not specify timeout")
-                    }
-                    WaitError::ShuttingDown => Fatal::Stopped,
-                })?;
+            let res = self.wait(None).applied_index_at_least(read_log_id.index(), "ensure_linearizable").await;
+
+            match res {
+                Ok(_) => {}
+                Err(WaitError::Timeout(_, _)) => {
+                    unreachable!("did not specify timeout")
+                }
+                Err(WaitError::ShuttingDown) => {
+                    let when = "waiting for the read log id to be applied";
+                    let fatal = self.inner.get_core_stopped_error(when, None::<&'static str>).await;
+                    return Err(RaftError::Fatal(fatal));
+                }
+            }
         }
         Ok(read_log_id)
     }
-- 
2.43.0


From a8c23d1c4c77359e904c7a54f07c544e5f715ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 07/15] fix: a heartbeat refused as too large must not be
 retried as a request for entries

---
 openraft/src/replication/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openraft/src/replication/mod.rs b/openraft/src/replication/mod.rs
index fbbe46e..b15c707 100644
--- a/openraft/src/replication/mod.rs
+++ b/openraft/src/replication/mod.rs
@@ -293,8 +293,13 @@ where
                                     self.update_hint(too_large);
 
                                     // PayloadTooLarge is a retryable error: retry at once.
-                                    self.next_action = Some(Data::Logs(log_data.unwrap()));
-                                    true
+                                    //
+                                    // Except for a heartbeat: it carries no payload to split, and RaftCore does not
+                                    // expect the response a `Data::Logs` request would send back.
+                                    if need_notify {
+                                        self.next_action = Some(Data::Logs(log_data.unwrap()));
+                                    }
+                                    need_notify
                                 }
                                 RPCError::Network(_) => false,
                                 RPCError::RemoteError(_) => false,
-- 
2.43.0


From 44c447a7453eed60e4bc490d745191d03bd71570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 08/15] fix: stores: a snapshot build does not replace a newer
 snapshot installed meanwhile

---
 stores/memstore/src/lib.rs   |  6 ++++-
 stores/rocksstore/src/lib.rs | 51 +++++++++++++++++++++++++-----------
 stores/sledstore/src/lib.rs  | 13 +++++++--
 3 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/stores/memstore/src/lib.rs b/stores/memstore/src/lib.rs
index 9de0315..ff39cc9 100644
--- a/stores/memstore/src/lib.rs
+++ b/stores/memstore/src/lib.rs
@@ -303,7 +303,11 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<MemStateMachine> {
 
         {
             let mut current_snapshot = self.current_snapshot.write().await;
-            *current_snapshot = Some(snapshot);
+
+            // A newer snapshot may have been installed while this one was being built: keep the newer one.
+            if current_snapshot.as_ref().map(|s| s.meta.last_log_id) <= Some(last_applied_log) {
+                *current_snapshot = Some(snapshot);
+            }
         }
 
         tracing::info!(snapshot_size, "log compaction complete");
diff --git a/stores/rocksstore/src/lib.rs b/stores/rocksstore/src/lib.rs
index 4da9392..08ad522 100644
--- a/stores/rocksstore/src/lib.rs
+++ b/stores/rocksstore/src/lib.rs
@@ -15,6 +15,7 @@ use std::io::Cursor;
 use std::ops::RangeBounds;
 use std::path::Path;
 use std::sync::Arc;
+use std::sync::Mutex;
 
 use byteorder::BigEndian;
 use byteorder::ReadBytesExt;
@@ -107,6 +108,9 @@ pub struct StateMachine {
 pub struct RocksStateMachine {
     db: Arc<DB>,
     sm: StateMachine,
+
+    /// Held while replacing the stored snapshot, by a snapshot builder or by an installation.
+    snapshot_lock: Arc<Mutex<()>>,
 }
 
 impl RocksStateMachine {
@@ -114,6 +118,7 @@ impl RocksStateMachine {
         let mut state_machine = Self {
             db,
             sm: Default::default(),
+            snapshot_lock: Default::default(),
         };
         let snapshot = state_machine.get_current_snapshot().await.unwrap();
 
@@ -125,6 +130,24 @@ impl RocksStateMachine {
 
         state_machine
     }
+
+    /// Read the stored snapshot.
+    fn read_snapshot(&self) -> Result<Option<RocksSnapshot>, StorageError<TypeConfig>> {
+        let x = self
+            .db
+            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
+            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        let bytes = match x {
+            Some(x) => x,
+            None => return Ok(None),
+        };
+
+        let snapshot: RocksSnapshot =
+            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        Ok(Some(snapshot))
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -299,9 +322,15 @@ impl RaftSnapshotBuilder<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        // A newer snapshot may have been installed while this one was being built: keep the newer one.
+        let _guard = self.snapshot_lock.lock().unwrap();
+        let stored = self.read_snapshot()?;
+
+        if stored.map(|s| s.meta.last_log_id) <= Some(last_applied_log) {
+            self.db
+                .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        }
 
         Ok(Snapshot {
             meta,
@@ -471,6 +500,8 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&new_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
+        let _guard = self.snapshot_lock.lock().unwrap();
+
         self.db
             .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
@@ -480,24 +511,14 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
     }
 
     async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<TypeConfig>>, StorageError<TypeConfig>> {
-        let x = self
-            .db
-            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
-            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
-        let bytes = match x {
+        let snapshot = match self.read_snapshot()? {
             Some(x) => x,
             None => return Ok(None),
         };
 
-        let snapshot: RocksSnapshot =
-            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
-        let data = snapshot.data.clone();
-
         Ok(Some(Snapshot {
             meta: snapshot.meta,
-            snapshot: Box::new(Cursor::new(data)),
+            snapshot: Box::new(Cursor::new(snapshot.data)),
         }))
     }
 }
diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 57eded1..3dd48a6 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -455,7 +455,15 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<SledStore> {
             data: data.clone(),
         };
 
-        self.set_current_snapshot_(snapshot).await?;
+        {
+            // A newer snapshot may have been installed while this one was being built: keep the newer one.
+            let _state_machine = self.state_machine.write().await;
+            let stored = self.get_current_snapshot_()?;
+
+            if stored.map(|s| s.meta.last_log_id) <= Some(last_applied_log) {
+                self.set_current_snapshot_(snapshot).await?;
+            }
+        }
 
         Ok(Snapshot {
             meta,
@@ -646,9 +654,10 @@ impl RaftStateMachine<TypeConfig> for Arc<SledStore> {
                 .map_err(|e| StorageError::read_snapshot(Some(new_snapshot.meta.signature()), &e))?;
             let mut state_machine = self.state_machine.write().await;
             *state_machine = ExampleStateMachine::from_serializable(updated_state_machine, self.db.clone()).await?;
+
+            self.set_current_snapshot_(new_snapshot).await?;
         }
 
-        self.set_current_snapshot_(new_snapshot).await?;
         Ok(())
     }
 
-- 
2.43.0


From 66f8225f9817def071f157a7cae0b1ecc18dd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 09/15] fix: sledstore: install the state of a snapshot in one
 transaction

---
 stores/sledstore/src/lib.rs | 46 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 3dd48a6..db8ff1c 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -166,14 +166,6 @@ impl ExampleStateMachine {
 
         Ok(m)
     }
-    async fn set_last_membership(&self, membership: StoredMembership<TypeConfig>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&membership).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_membership", value).map_err(write_err)?;
-
-        state_machine.flush_async().await.map_err(write_err)?;
-        Ok(())
-    }
     fn set_last_membership_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -193,14 +185,6 @@ impl ExampleStateMachine {
         };
         Ok(last_applied)
     }
-    async fn set_last_applied_log(&self, log_id: LogId<ExampleNodeId>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&log_id).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_applied_log", value).map_err(read_logs_err)?;
-
-        state_machine.flush_async().await.map_err(read_logs_err)?;
-        Ok(())
-    }
     fn set_last_applied_log_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -211,19 +195,25 @@ impl ExampleStateMachine {
         Ok(())
     }
     async fn from_serializable(sm: SerializableExampleStateMachine, db: Arc<sled::Db>) -> StorageResult<Self> {
-        let data_tree = data(&db);
-        let mut batch = sled::Batch::default();
-        for (key, value) in sm.data {
-            batch.insert(key.as_bytes(), value.as_bytes())
-        }
-        data_tree.apply_batch(batch).map_err(write_sm_err)?;
-        data_tree.flush_async().await.map_err(write_snap_err)?;
-
         let r = Self { db };
-        if let Some(log_id) = sm.last_applied_log {
-            r.set_last_applied_log(log_id).await?;
-        }
-        r.set_last_membership(sm.last_membership).await?;
+
+        // Replace the data, the last applied log id and the membership as a unit:
+        // a crash must not leave the position of one state with the membership or the data of another.
+        let state_machine = state_machine(&r.db);
+        let data_tree = data(&r.db);
+        (&state_machine, &data_tree)
+            .transaction(|(tx_state_machine, tx_data_tree)| {
+                for (key, value) in &sm.data {
+                    r.insert_tx(tx_data_tree, key.clone(), value.clone())?;
+                }
+                if let Some(log_id) = sm.last_applied_log {
+                    r.set_last_applied_log_tx(tx_state_machine, log_id)?;
+                }
+                r.set_last_membership_tx(tx_state_machine, sm.last_membership.clone())
+            })
+            .map_err(|e| StorageError::write(&e))?;
+
+        r.db.flush_async().await.map_err(write_snap_err)?;
 
         Ok(r)
     }
-- 
2.43.0


From 74776e9d674af2f5fdc5cbdb9b51aa91863a3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 10/15] fix: a snapshot build does not withdraw a postponed
 purge that goes further

---
 openraft/src/engine/handler/log_handler/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..357a0db 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -55,7 +55,11 @@ where C: RaftTypeConfig
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn schedule_policy_based_purge(&mut self) {
         if let Some(purge_upto) = self.calc_purge_upto() {
-            self.update_purge_upto(purge_upto);
+            // A purge further than this one, e.g., triggered by the user, may already be scheduled but
+            // postponed, because a replication task is using the logs. Do not withdraw it.
+            if Some(&purge_upto) > self.state.purge_upto() {
+                self.update_purge_upto(purge_upto);
+            }
         }
     }
 
-- 
2.43.0


From 7e359b24de1086c4c0bdddc46813bd51ce890787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 11/15] fix: purge batch size 0 and huge batch sizes and
 snapshot thresholds do not overflow

---
 openraft/src/config/config.rs                  | 2 +-
 openraft/src/engine/handler/log_handler/mod.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/openraft/src/config/config.rs b/openraft/src/config/config.rs
index 1744923..d708c7a 100644
--- a/openraft/src/config/config.rs
+++ b/openraft/src/config/config.rs
@@ -41,7 +41,7 @@ impl SnapshotPolicy {
     where C: RaftTypeConfig {
         match self {
             SnapshotPolicy::LogsSinceLast(threshold) => {
-                state.committed().next_index() >= state.snapshot_last_log_id().next_index() + threshold
+                state.committed().next_index() >= state.snapshot_last_log_id().next_index().saturating_add(*threshold)
             }
             SnapshotPolicy::Never => false,
         }
diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 357a0db..3039977 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -81,7 +81,8 @@ where C: RaftTypeConfig
     pub(crate) fn calc_purge_upto(&self) -> Option<LogId<C::NodeId>> {
         let st = &self.state;
         let max_keep = self.config.max_in_snapshot_log_to_keep;
-        let batch_size = self.config.purge_batch_size;
+        // A batch contains at least one log.
+        let batch_size = self.config.purge_batch_size.max(1);
 
         let purge_end = self.state.snapshot_meta.last_log_id.next_index().saturating_sub(max_keep);
 
@@ -92,7 +93,7 @@ where C: RaftTypeConfig
             purge_end
         );
 
-        if st.last_purged_log_id().next_index() + batch_size > purge_end {
+        if st.last_purged_log_id().next_index().saturating_add(batch_size) > purge_end {
             tracing::debug!(
                 snapshot_last_log_id = debug(self.state.snapshot_meta.last_log_id),
                 max_keep,
-- 
2.43.0


From d8e35537f08ef770389359307c740849e060da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 12/15] fix: a leader that starts an election stops leading

It went on appending logs under its old vote while votes were collected. The new
leader continues after the last log id the candidate recorded, so it gave the
indexes of these logs to other entries; with debug assertions the core panicked.
---
 openraft/src/engine/engine_impl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..6d9816a 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -85,9 +85,8 @@ where C: RaftTypeConfig
 
     /// Represents the Candidate state within Openraft.
     ///
-    /// A Candidate can coexist with a Leader in the system.
-    /// This scenario is typically used to transition the Leader to a higher term (vote)
-    /// without losing leadership status.
+    /// A Candidate does not coexist with a Leader: a Leader that starts another election stops
+    /// leading, otherwise it would go on appending logs that the new Leader does not know of.
     pub(crate) candidate: CandidateState<C>,
 
     /// Output entry for the runtime.
@@ -212,6 +211,10 @@ where C: RaftTypeConfig
         let new_term = self.state.vote.leader_id().term + 1;
         let new_vote = Vote::new(new_term, self.config.id);
 
+        // Stop leading: logs appended after this point would not be known to the Candidate, which continues after
+        // the current last log id when it becomes Leader.
+        self.leader = None;
+
         let candidate = self.new_candidate(new_vote);
 
         tracing::info!("{}, new candidate: {}", func_name!(), candidate);
-- 
2.43.0


From 831a54572e895a22be870d8bad8c471363f3ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 13/15] fix: a node that is not a voter does not campaign when
 leadership is transferred to it

---
 openraft/src/core/raft_core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 42f92f5..377131b 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1252,7 +1252,8 @@ where
                     tracing::info!("Transfer Leader from: {}, to {}", current_leader_vote, to);
 
                     self.engine.state.vote.disable_lease();
-                    if self.id == to {
+                    // `to` may not be a voter in the membership this node knows: only a voter can campaign.
+                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&self.id) {
                         self.engine.elect();
                     }
                 }
-- 
2.43.0


From 9dced95efe0e54be3db3b6dbedb09508817769a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 14/15] fix: install a snapshot only after the IO submitted
 before it is flushed

---
 openraft/src/core/raft_core.rs                       |  7 +++++++
 openraft/src/engine/command.rs                       | 10 +++++++++-
 openraft/src/engine/handler/following_handler/mod.rs |  2 ++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 377131b..94a76e8 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1648,6 +1648,13 @@ where
                         return Ok(Some(cmd));
                     }
                 }
+                Condition::SubmittedFlushed => {
+                    let progress = &self.engine.state.io_state().io_progress;
+                    if progress.flushed() < progress.submitted() {
+                        tracing::debug!("submitted IO has not yet flushed: {} postpone cmd: {}", progress, cmd);
+                        return Ok(Some(cmd));
+                    }
+                }
                 Condition::Applied { log_id } => {
                     if self.engine.state.io_applied() < log_id.as_ref() {
                         tracing::debug!(
diff --git a/openraft/src/engine/command.rs b/openraft/src/engine/command.rs
index a7f234c..b0123fb 100644
--- a/openraft/src/engine/command.rs
+++ b/openraft/src/engine/command.rs
@@ -274,7 +274,11 @@ where C: RaftTypeConfig
             Command::SendVote { .. }                  => None,
 
             Command::Apply { .. }                     => None,
-            Command::StateMachine { .. }              => None,
+            // Installing a snapshot is an IO done by the state machine: it is not ordered with log IO.
+            Command::StateMachine { command }         => match command {
+                sm::Command::InstallFullSnapshot { .. } => Some(Condition::SubmittedFlushed),
+                _ => None,
+            },
         }
     }
 }
@@ -298,6 +302,9 @@ where C: RaftTypeConfig
     /// [`Raft::initialize()`]: `crate::Raft::initialize()`
     LogFlushed { log_id: Option<LogId<C::NodeId>> },
 
+    /// Wait until every IO submitted so far is flushed to the disk.
+    SubmittedFlushed,
+
     /// Wait until the log is applied to the state machine.
     #[allow(dead_code)]
     Applied { log_id: Option<LogId<C::NodeId>> },
@@ -317,6 +324,7 @@ where C: RaftTypeConfig
             Condition::LogFlushed { log_id } => {
                 write!(f, "LogFlushed: {}", log_id.display())
             }
+            Condition::SubmittedFlushed => write!(f, "SubmittedFlushed"),
             Condition::Applied { log_id } => write!(f, "Applied: log_id: {}", log_id.display()),
             Condition::Snapshot { log_id } => write!(f, "Snapshot: log_id: {}", log_id.display()),
         }
diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 0f5da84..fb72017 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -319,6 +319,8 @@ where C: RaftTypeConfig
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
         self.state.accept_io(io_id);
+        // The IO may be smaller than the accepted one, if logs after the snapshot are already accepted.
+        let io_id = *self.state.accepted_io().unwrap();
         self.state.committed = Some(snap_last_log_id);
         self.update_committed_membership(EffectiveMembership::new_from_stored_membership(
             meta.last_membership.clone(),
-- 
2.43.0


From 134150ce64d670ec914d58194615d326eeb58fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 15/15] fix: keep every value greater than the granted one in
 order

---
 openraft/src/progress/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..62edee1 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,16 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        if new_gt_granted {
+            // An element that is already greater than `granted` has to be kept in order too:
+            // otherwise `vector[0..=i]` includes ids with values smaller than `vector[i]`.
             let new_index = self.move_up(index);
 
+            // The ids greater than `granted` are the same as before and do not constitute a quorum.
+            if !prev_le_granted {
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0

