From dbe3abba3269b5b688e304907d9c9410b292149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:34 +0000
Subject: [PATCH 01/48] fix: enqueue queue storage ops under the state lock, so
 the log follows the order of the state changes

---
 src/brokers/queue/manager.rs | 106 +++++++++++++++--------------------
 1 file changed, 45 insertions(+), 61 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..b7ebbed 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -165,7 +165,7 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    let has_requeued = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -181,29 +181,26 @@ impl QueueManager {
                             inner.dlq.push((*dlq_msg).clone());
                         }
 
-                        (requeued, dlq_msgs)
-                    };
-
-                    if requeued.is_empty() && dlq_msgs.is_empty() {
-                        continue;
-                    }
+                        // Enqueued under the lock: the log must follow the order of the state changes
+                        for msg in &requeued {
+                            shared.store.execute(StorageOp::UpdateState {
+                                id: msg.id,
+                                visible_at: 0,
+                                attempts: msg.attempts,
+                            });
+                        }
 
-                    for msg in &requeued {
-                        shared.store.execute(StorageOp::UpdateState {
-                            id: msg.id,
-                            visible_at: 0,
-                            attempts: msg.attempts,
-                        });
-                    }
+                        for dlq_msg in dlq_msgs {
+                            shared.store.execute(StorageOp::MoveToDLQ {
+                                id: dlq_msg.id,
+                                msg: dlq_msg,
+                            });
+                        }
 
-                    for dlq_msg in dlq_msgs {
-                        shared.store.execute(StorageOp::MoveToDLQ {
-                            id: dlq_msg.id,
-                            msg: dlq_msg,
-                        });
-                    }
+                        !requeued.is_empty()
+                    };
 
-                    if !requeued.is_empty() {
+                    if has_requeued {
                         shared.notify.notify_waiters();
                     }
                 }
@@ -285,9 +282,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -296,11 +293,9 @@ impl QueueManager {
     pub async fn pop(&self, queue_name: &str) -> Option<Message> {
         let shared = self.get_queue(queue_name)?;
 
-        let (msg_opt, _) = {
-            let mut inner = Self::lock(&shared.inner);
-            let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let vt = inner.config.visibility_timeout_ms;
+        let (msg_opt, _) = inner.state.pop(vt);
 
         if let Some(msg) = &msg_opt {
             shared.store.execute(StorageOp::UpdateState {
@@ -319,10 +314,8 @@ impl QueueManager {
             None => return false,
         };
 
-        let result = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let result = inner.state.ack(id);
 
         if result {
             shared.store.execute(StorageOp::Delete(id));
@@ -337,17 +330,13 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
-            let mut inner = Self::lock(&shared.inner);
-            let max_retries = inner.config.max_retries;
-            let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
+        let mut inner = Self::lock(&shared.inner);
+        let max_retries = inner.config.max_retries;
+        let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
 
-            if let Some(ref dlq_message) = dlq_msg {
-                inner.dlq.push(dlq_message.clone());
-            }
-
-            (requeued, dlq_msg)
-        };
+        if let Some(ref dlq_message) = dlq_msg {
+            inner.dlq.push(dlq_message.clone());
+        }
 
         if let Some(msg) = requeued {
             shared.store.execute(StorageOp::UpdateState {
@@ -382,10 +371,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +394,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,22 +457,22 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let new_msg = {
+        let moved = {
             let mut inner = Self::lock(&shared.inner);
             if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
                 let new_msg = dlq_msg.clone().to_message();
                 inner.state.push(new_msg.clone());
-                Some(new_msg)
+                shared.store.execute(StorageOp::MoveToMain {
+                    id: message_id,
+                    msg: new_msg,
+                });
+                true
             } else {
-                None
+                false
             }
         };
 
-        if let Some(msg) = new_msg {
-            shared.store.execute(StorageOp::MoveToMain {
-                id: message_id,
-                msg,
-            });
+        if moved {
             shared.notify.notify_waiters();
             Ok(true)
         } else {
@@ -496,10 +485,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let removed = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let removed = inner.dlq.remove(&message_id).is_some();
 
         if removed {
             shared.store.execute(StorageOp::DeleteDLQ(message_id));
@@ -513,12 +500,9 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let count = {
-            let mut inner = Self::lock(&shared.inner);
-            let count = inner.dlq.len();
-            inner.dlq.clear();
-            count
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let count = inner.dlq.len();
+        inner.dlq.clear();
 
         shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
-- 
2.43.0


From d533efa8fc3c96bf19bfab277d453d2778a344b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:05 +0000
Subject: [PATCH 02/48] fix: apply the retry limit to queue leases that ended
 while the server was down

---
 src/brokers/queue/domain/persistence.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..e03e1ca 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -7,7 +7,7 @@ use rusqlite::{params, types::Type, Connection, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
-use crate::brokers::queue::domain::queue::{Message, MessageState, current_time_ms};
+use crate::brokers::queue::domain::queue::{Message, MessageState};
 use crate::brokers::queue::domain::dlq::DlqMessage;
 
 // ==========================================
@@ -286,10 +286,9 @@ fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
         let attempts: u32 = row.get(4)?;
         let created_at = row.get::<_, i64>(5)? as u64;
  
-         let now = current_time_ms();
-         
-         // Reconstruct State
-         let state = if visible_at > now && attempts > 0 {
+         // Reconstruct State. A lease that ended while the server was down stays in flight here:
+         // the timeout task expires it, so that the retry limit applies to it as to any other.
+         let state = if visible_at > 0 && attempts > 0 {
              MessageState::InFlight(visible_at)
          } else {
              MessageState::Ready
-- 
2.43.0


From a40d482cbb6f59ec41b429f6ac7aa777c97aa686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:35 +0000
Subject: [PATCH 03/48] fix: serialize queue create and delete, and finish a
 delete whose client disconnects

---
 src/brokers/queue/manager.rs | 48 ++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index b7ebbed..df7122c 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -46,6 +46,8 @@ pub struct QueueManager {
     queues: Arc<DashMap<String, Arc<QueueShared>>>,
     config: Arc<SystemQueueConfig>,
     cancel: CancellationToken,
+    /// Serializes create and delete, which touch the files of a queue
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl QueueManager {
@@ -63,6 +65,7 @@ impl QueueManager {
             queues: queues.clone(),
             config: system_config.clone(),
             cancel: cancel.clone(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         // WARM START: Discover and restore queues from filesystem
@@ -233,28 +236,37 @@ impl QueueManager {
     // ==========================================
 
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
-        use dashmap::mapref::entry::Entry;
-
-        match self.queues.entry(name.clone()) {
-            Entry::Occupied(_) => Ok(()),
-            Entry::Vacant(v) => {
-                let config = QueueConfig::from_options(options, &self.config);
-
-                // Persist config
-                let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
-                let config_path = persistence_path.join(format!("{}.config.json", name));
-                if let Ok(data) = serde_json::to_string_pretty(&config) {
-                    let _ = std::fs::write(&config_path, data);
-                }
+        let _lifecycle = self.lifecycle.lock().await;
 
-                let shared = Self::build_queue(name, config, &self.config);
-                v.insert(shared);
-                Ok(())
-            }
+        if self.queues.contains_key(&name) {
+            return Ok(());
+        }
+
+        let config = QueueConfig::from_options(options, &self.config);
+
+        // Persist config
+        let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
+        let config_path = persistence_path.join(format!("{}.config.json", name));
+        if let Ok(data) = serde_json::to_string_pretty(&config) {
+            let _ = std::fs::write(&config_path, data);
         }
+
+        let shared = Self::build_queue(name.clone(), config, &self.config);
+        self.queues.insert(name, shared);
+        Ok(())
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        // On its own task: once started it has to finish, even if the requesting client goes away
+        let manager = self.clone();
+        tokio::spawn(async move { manager.remove_queue(name).await })
+            .await
+            .map_err(|e| format!("Queue delete failed: {}", e))
+    }
+
+    async fn remove_queue(&self, name: String) {
+        let _lifecycle = self.lifecycle.lock().await;
+
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
         }
@@ -270,8 +282,6 @@ impl QueueManager {
         let _ = std::fs::remove_file(wal_path);
         let _ = std::fs::remove_file(shm_path);
         let _ = std::fs::remove_file(config_path);
-
-        Ok(())
     }
 
     pub async fn push(&self, queue_name: String, payload: Bytes, priority: u8) -> Result<(), String> {
-- 
2.43.0


From 90e053b547cda1b72070bb15fe1bdf4cdbd696de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:16 +0000
Subject: [PATCH 04/48] fix: keep queue operations the disk refused and write
 them when it works again

---
 src/brokers/queue/domain/persistence.rs | 36 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index e03e1ca..1d7f617 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -3,7 +3,7 @@ use std::sync::Mutex;
 use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
-use rusqlite::{params, types::Type, Connection, Result};
+use rusqlite::{params, types::Type, Connection, ErrorCode, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
@@ -198,26 +198,30 @@ async fn run_writer(
     }
 }
 
+/// Applies the batch in one transaction. If the disk refuses it, nothing of it is applied and
+/// it is kept, to be written in order as soon as the disk works again.
 fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
-    let tx = match conn.transaction() {
-        Ok(t) => t,
-        Err(e) => {
-            error!("Failed to start transaction: {}", e);
-            return;
-        }
-    };
+    match write_batch(conn, batch) {
+        Ok(()) => batch.clear(),
+        Err(e) => error!("Failed to flush {} ops, will retry: {}", batch.len(), e),
+    }
+}
+
+fn write_batch(conn: &mut Connection, batch: &[StorageOp]) -> Result<()> {
+    let tx = conn.transaction()?;
 
-    for op in batch.iter() {
-        if let Err(e) = exec_op(&tx, op) {
-            error!("Failed to exec op {:?}: {}", op, e);
+    for op in batch {
+        match exec_op(&tx, op) {
+            Ok(()) => {}
+            // The op itself cannot be stored: retrying would block all that follow it
+            Err(e) if matches!(e.sqlite_error_code(), Some(ErrorCode::ConstraintViolation | ErrorCode::TooBig)) => {
+                error!("Failed to exec op {:?}: {}", op, e);
+            }
+            Err(e) => return Err(e),
         }
     }
 
-    if let Err(e) = tx.commit() {
-        error!("Failed to commit batch: {}", e);
-    }
-    
-    batch.clear();
+    tx.commit()
 }
 
 // ==========================================
-- 
2.43.0


From 0f32be6c80065fa69f5fc5a1387ad1c9bfde78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:58 +0000
Subject: [PATCH 05/48] fix: report a queue that could not be created on disk
 instead of accepting messages it cannot keep

---
 src/brokers/queue/domain/persistence.rs | 27 +++++++++----------------
 src/brokers/queue/manager.rs            | 26 ++++++++++++++----------
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 1d7f617..a257c6c 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -62,29 +62,26 @@ impl QueueStore {
         db_path: PathBuf, 
         flush_ms: u64,
         batch_size: usize,
-    ) -> Self {
+    ) -> Result<Self, String> {
         // SYNCHRONOUS INIT: Ensure DB schema exists before anything else
         // This prevents race conditions where recover() runs before Writer creates tables.
-        if let Ok(conn) = Connection::open(&db_path) {
-            if let Err(e) = init_db(&conn) {
-                error!("FATAL: Failed to initialize Queue DB at {:?}: {}", db_path, e);
-            }
-        } else {
-            error!("FATAL: Failed to open Queue DB for initialization at {:?}", db_path);
-        }
+        let conn = Connection::open(&db_path)
+            .map_err(|e| format!("Failed to open Queue DB at {:?}: {}", db_path, e))?;
+        init_db(&conn)
+            .map_err(|e| format!("Failed to initialize Queue DB at {:?}: {}", db_path, e))?;
 
         let (tx, rx) = mpsc::unbounded_channel();
         
         let path_clone = db_path.clone();
         let handle = tokio::spawn(async move {
-            run_writer(rx, path_clone, flush_ms, batch_size).await;
+            run_writer(conn, rx, path_clone, flush_ms, batch_size).await;
         });
 
-        Self {
+        Ok(Self {
             sender: Mutex::new(Some(tx)),
             writer_handle: Mutex::new(Some(handle)),
             db_path,
-        }
+        })
     }
 
     /// Recover all messages from DB (Read-Only connection)
@@ -127,18 +124,12 @@ impl QueueStore {
 // ==========================================
 
 async fn run_writer(
+    mut conn: Connection,
     mut rx: mpsc::UnboundedReceiver<StorageOp>,
     db_path: PathBuf,
     flush_ms: u64,
     batch_size: usize,
 ) {
-    let mut conn = match Connection::open(&db_path) {
-        Ok(c) => c,
-        Err(e) => {
-            error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
-            return;
-        }
-    };
     if let Err(e) = conn.execute_batch(
         // Writer connection pragmas for high-throughput batch operations
         // synchronous=OFF for performance (data is flushed periodically via timer)
diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index df7122c..041d3f8 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -86,9 +86,13 @@ impl QueueManager {
                                     QueueConfig::from_options(QueueCreateOptions::default(), &system_config)
                                 };
 
-                                let shared = Self::build_queue(queue_name.clone(), config, &system_config);
-                                queues.insert(queue_name.clone(), shared);
-                                info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
+                                match Self::build_queue(queue_name.clone(), config, &system_config) {
+                                    Ok(shared) => {
+                                        queues.insert(queue_name.clone(), shared);
+                                        info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
+                                    }
+                                    Err(e) => error!("[QueueManager] Warm start: Queue '{}' not restored: {}", queue_name, e),
+                                }
                             }
                         }
                     }
@@ -104,14 +108,14 @@ impl QueueManager {
     // INTERNAL HELPERS
     // ==========================================
 
-    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Arc<QueueShared> {
+    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Result<Arc<QueueShared>, String> {
         let persistence_path = std::path::PathBuf::from(&system_config.persistence_path);
         let db_path = persistence_path.join(format!("{}.db", name));
         let store = QueueStore::new(
             db_path,
             system_config.default_flush_ms,
             system_config.writer_batch_size,
-        );
+        )?;
 
         let mut main_state = QueueState::new();
         let mut dlq_state = DlqState::new();
@@ -138,7 +142,7 @@ impl QueueManager {
             }
         }
 
-        Arc::new(QueueShared {
+        Ok(Arc::new(QueueShared {
             inner: Mutex::new(QueueInner {
                 name,
                 state: main_state,
@@ -147,7 +151,7 @@ impl QueueManager {
             }),
             notify: Notify::new(),
             store,
-        })
+        }))
     }
 
     fn spawn_timeout_task(&self) {
@@ -247,11 +251,11 @@ impl QueueManager {
         // Persist config
         let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
         let config_path = persistence_path.join(format!("{}.config.json", name));
-        if let Ok(data) = serde_json::to_string_pretty(&config) {
-            let _ = std::fs::write(&config_path, data);
-        }
+        let data = serde_json::to_string_pretty(&config).map_err(|e| e.to_string())?;
+        std::fs::write(&config_path, data)
+            .map_err(|e| format!("Failed to write queue config at {:?}: {}", config_path, e))?;
 
-        let shared = Self::build_queue(name.clone(), config, &self.config);
+        let shared = Self::build_queue(name.clone(), config, &self.config)?;
         self.queues.insert(name, shared);
         Ok(())
     }
-- 
2.43.0


From 0b4ee68f26f298919471a578bab404de88a7ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 06/48] fix: keep every queue name inside its own files,
 whatever characters it has

---
 src/brokers/mod.rs           |  1 +
 src/brokers/naming.rs        | 51 ++++++++++++++++++++++++++++++++++++
 src/brokers/queue/manager.rs | 12 +++++----
 3 files changed, 59 insertions(+), 5 deletions(-)
 create mode 100644 src/brokers/naming.rs

diff --git a/src/brokers/mod.rs b/src/brokers/mod.rs
index a1e92e7..773306e 100644
--- a/src/brokers/mod.rs
+++ b/src/brokers/mod.rs
@@ -1,3 +1,4 @@
+pub(crate) mod naming;
 pub mod store;
 pub mod queue;
 #[path = "pub-sub/mod.rs"]
diff --git a/src/brokers/naming.rs b/src/brokers/naming.rs
new file mode 100644
index 0000000..d65de85
--- /dev/null
+++ b/src/brokers/naming.rs
@@ -0,0 +1,51 @@
+//! File names for client-chosen names.
+
+/// Maps a name to a single path component, so that no name can reach outside its broker's data
+/// directory and no two names share a file. Ordinary names map to themselves.
+pub(crate) fn to_file_name(name: &str) -> String {
+    match name {
+        "." => return "%2E".to_string(),
+        ".." => return "%2E%2E".to_string(),
+        _ => {}
+    }
+
+    let mut out = String::with_capacity(name.len());
+    for (i, c) in name.char_indices() {
+        match c {
+            '/' => out.push_str("%2F"),
+            '\\' => out.push_str("%5C"),
+            '\0' => out.push_str("%00"),
+            '%' if escaped_byte(&name[i..]).is_some() => out.push_str("%25"),
+            c => out.push(c),
+        }
+    }
+    out
+}
+
+/// Inverse of `to_file_name`.
+pub(crate) fn from_file_name(file_name: &str) -> String {
+    let mut out = String::with_capacity(file_name.len());
+    let mut rest = file_name;
+    while let Some(c) = rest.chars().next() {
+        match escaped_byte(rest) {
+            Some(byte) if byte.is_ascii() => {
+                out.push(byte as char);
+                rest = &rest[3..];
+            }
+            _ => {
+                out.push(c);
+                rest = &rest[c.len_utf8()..];
+            }
+        }
+    }
+    out
+}
+
+/// The byte of the `%XX` escape `s` starts with, if it does.
+fn escaped_byte(s: &str) -> Option<u8> {
+    let b = s.as_bytes();
+    if b.len() < 3 || b[0] != b'%' || !b[1].is_ascii_hexdigit() || !b[2].is_ascii_hexdigit() {
+        return None;
+    }
+    u8::from_str_radix(&s[1..3], 16).ok()
+}
diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 041d3f8..3f9b192 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -14,6 +14,7 @@ use uuid::Uuid;
 use tracing::{error, info};
 
 use crate::brokers::queue::domain::queue::{QueueConfig, QueueState, Message, current_time_ms};
+use crate::brokers::naming::{from_file_name, to_file_name};
 use crate::brokers::queue::options::QueueCreateOptions;
 use crate::brokers::queue::domain::dlq::{DlqMessage, DlqState};
 use crate::brokers::queue::domain::persistence::{QueueStore, StorageOp};
@@ -76,10 +77,10 @@ impl QueueManager {
                     let path = entry.path();
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                            if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                            if let Some(base_name) = filename.strip_suffix(".db") {
+                                let queue_name = from_file_name(base_name);
 
-                                let config_path = persistence_path.join(format!("{}.config.json", queue_name));
+                                let config_path = persistence_path.join(format!("{}.config.json", base_name));
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
                                     serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))
                                 } else {
@@ -110,7 +111,7 @@ impl QueueManager {
 
     fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Result<Arc<QueueShared>, String> {
         let persistence_path = std::path::PathBuf::from(&system_config.persistence_path);
-        let db_path = persistence_path.join(format!("{}.db", name));
+        let db_path = persistence_path.join(format!("{}.db", to_file_name(&name)));
         let store = QueueStore::new(
             db_path,
             system_config.default_flush_ms,
@@ -250,7 +251,7 @@ impl QueueManager {
 
         // Persist config
         let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
-        let config_path = persistence_path.join(format!("{}.config.json", name));
+        let config_path = persistence_path.join(format!("{}.config.json", to_file_name(&name)));
         let data = serde_json::to_string_pretty(&config).map_err(|e| e.to_string())?;
         std::fs::write(&config_path, data)
             .map_err(|e| format!("Failed to write queue config at {:?}: {}", config_path, e))?;
@@ -277,6 +278,7 @@ impl QueueManager {
 
         // Delete Persistence (safe: writer has flushed and closed)
         let base_path = std::path::PathBuf::from(&self.config.persistence_path);
+        let name = to_file_name(&name);
         let db_path = base_path.join(format!("{}.db", name));
         let wal_path = base_path.join(format!("{}.db-wal", name));
         let shm_path = base_path.join(format!("{}.db-shm", name));
-- 
2.43.0


From 17e42dbf9f16602fa8b23791dff1ecacfa216977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:10 +0000
Subject: [PATCH 07/48] fix: hand published events to the stream log in the
 order of their sequence numbers

---
 src/brokers/stream/manager.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..212ad7f 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -154,21 +154,23 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+
+            // Sent under the lock: the log file must follow the order of the sequence numbers
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 0df1133d46f590299a19778b716222aac38cfd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:13 +0000
Subject: [PATCH 08/48] fix: after a crash, continue a stream where its
 readable log ends

---
 src/brokers/stream/domain/persistence.rs | 28 ++++++++++++++++++++----
 src/brokers/stream/domain/topic.rs       |  4 ++--
 src/brokers/stream/manager.rs            |  2 +-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..e06ceb7 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -38,6 +38,8 @@ pub struct RecoveredState {
     pub groups_data: HashMap<String, u64>,
     /// First retained sequence on disk
     pub head_seq: u64,
+    /// Sequence the next published message gets
+    pub next_seq: u64,
 }
 
 #[derive(Debug, Clone)]
@@ -452,7 +454,14 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
     if let Ok(segments) = find_segments(&base_path).await {
         state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
         if let Some(last_segment) = segments.last() {
-            state.messages = load_segment_file(&last_segment.path).await;
+            let (messages, valid_len) = load_segment_file(&last_segment.path).await;
+            // A crash in the middle of a write leaves part of a record behind, and what is appended
+            // after it could not be read
+            if let Err(e) = truncate_file(&last_segment.path, valid_len).await {
+                error!("Failed to cut the incomplete end of {:?}: {}", last_segment.path, e);
+            }
+            state.next_seq = messages.back().map(|m| m.seq + 1).unwrap_or(last_segment.start_seq);
+            state.messages = messages;
         }
         state.segments = segments;
     }
@@ -528,12 +537,14 @@ async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer
     Ok(())
 }
 
-async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
+/// Returns the messages of the segment and the length of the valid part of the file.
+async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, u64) {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
+    let mut valid_len = 0u64;
     let file = match File::open(path).await {
         Ok(f) => f,
-        Err(_) => return msgs,
+        Err(_) => return (msgs, valid_len),
     };
 
     let mut reader = BufReader::new(file);
@@ -562,8 +573,17 @@ async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
         let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));
 
         msgs.push_back(Message { seq, timestamp, payload });
+        valid_len += 8 + len as u64;
     }
-    msgs
+    (msgs, valid_len)
+}
+
+async fn truncate_file(path: &PathBuf, len: u64) -> std::io::Result<()> {
+    let file = OpenOptions::new().write(true).open(path).await?;
+    if file.metadata().await?.len() > len {
+        file.set_len(len).await?;
+    }
+    Ok(())
 }
 
 async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
diff --git a/src/brokers/stream/domain/topic.rs b/src/brokers/stream/domain/topic.rs
index 5aa7545..598e6bc 100644
--- a/src/brokers/stream/domain/topic.rs
+++ b/src/brokers/stream/domain/topic.rs
@@ -82,8 +82,8 @@ impl TopicState {
         }
     }
 
-    pub fn restore(name: String, ram_soft_limit: usize, head_seq: u64, messages: VecDeque<Message>) -> Self {
-        let next_seq = messages.back().map(|m| m.seq + 1).unwrap_or(head_seq.max(1));
+    pub fn restore(name: String, ram_soft_limit: usize, head_seq: u64, next_seq: u64, messages: VecDeque<Message>) -> Self {
+        let next_seq = next_seq.max(head_seq).max(1);
         let ram_start_seq = messages.front().map(|m| m.seq).unwrap_or(next_seq.max(head_seq));
 
         Self {
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 212ad7f..41c59d8 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -490,7 +490,7 @@ impl StreamManager {
         }
 
         let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await;
-        let state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
+        let state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.next_seq, recovered.messages);
 
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
-- 
2.43.0


From 264a6b08d50907201fc9e68a1c958374756f49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:56 +0000
Subject: [PATCH 09/48] fix: do not skip messages published after a crash that
 a saved group position is ahead of

---
 src/brokers/stream/domain/group.rs | 6 ++++--
 src/brokers/stream/manager.rs      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/brokers/stream/domain/group.rs b/src/brokers/stream/domain/group.rs
index 566ab33..c18330f 100644
--- a/src/brokers/stream/domain/group.rs
+++ b/src/brokers/stream/domain/group.rs
@@ -70,8 +70,10 @@ impl ConsumerGroup {
         self.pending.len() >= self.max_ack_pending
     }
 
-    pub fn restore(id: String, ack_floor: u64, head_seq: u64, max_ack_pending: usize, ack_wait: Duration, max_deliveries: u32) -> Self {
-        let normalized_floor = ack_floor.max(head_seq.saturating_sub(1));
+    pub fn restore(id: String, ack_floor: u64, head_seq: u64, next_seq: u64, max_ack_pending: usize, ack_wait: Duration, max_deliveries: u32) -> Self {
+        // The saved floor may be ahead of a log that lost its unflushed end: the sequence numbers
+        // from next_seq on are going to name other messages
+        let normalized_floor = ack_floor.min(next_seq.saturating_sub(1)).max(head_seq.saturating_sub(1));
         Self {
             id,
             ack_floor: normalized_floor,
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 41c59d8..2713e66 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -498,7 +498,7 @@ impl StreamManager {
         for (group_id, ack_floor) in recovered.groups_data {
             groups.insert(
                 group_id.clone(),
-                ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
+                ConsumerGroup::restore(group_id, ack_floor, state.head_seq, state.next_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
             );
         }
 
-- 
2.43.0


From deb4d8a4ad8d7eb6bcd2f3ee5ab93ccd5e9fdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:26 +0000
Subject: [PATCH 10/48] fix: let a group read old messages again after a
 consumer disconnected during a disk read

---
 src/brokers/stream/manager.rs | 49 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 2713e66..2ac8bcc 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -39,6 +39,21 @@ struct TopicInner {
     full_config: TopicConfig,
 }
 
+/// Marks the group's cold read as over when dropped, also when the request is aborted meanwhile.
+struct ColdFetchInFlight<'a> {
+    topic_ref: &'a Arc<TopicShared>,
+    group: &'a str,
+}
+
+impl Drop for ColdFetchInFlight<'_> {
+    fn drop(&mut self) {
+        let mut inner = StreamManager::lock_topic(&self.topic_ref.inner);
+        if let Some(group_ref) = inner.groups.get_mut(self.group) {
+            group_ref.is_fetching_cold = false;
+        }
+    }
+}
+
 enum FetchAttempt {
     Ready(Vec<Message>),
     NeedColdRead { from_seq: u64 },
@@ -721,35 +736,27 @@ impl StreamManager {
     }
 
     async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
-        let (tx, rx) = oneshot::channel();
-        if self.storage_tx.send(StorageCommand::ColdRead {
-            topic_name: topic.to_string(),
-            from_seq,
-            limit,
-            reply: tx,
-        }).is_err() {
-            let mut inner = Self::lock_topic(&topic_ref.inner);
-            if let Some(group_ref) = inner.groups.get_mut(group) {
-                group_ref.is_fetching_cold = false;
+        let messages = {
+            let _in_flight = ColdFetchInFlight { topic_ref, group };
+            let (tx, rx) = oneshot::channel();
+            if self.storage_tx.send(StorageCommand::ColdRead {
+                topic_name: topic.to_string(),
+                from_seq,
+                limit,
+                reply: tx,
+            }).is_err() {
+                return Err("Disk read failed".to_string());
             }
-            return Err("Disk read failed".to_string());
-        }
 
-        let messages = match rx.await {
-            Ok(messages) => messages,
-            Err(_) => {
-                let mut inner = Self::lock_topic(&topic_ref.inner);
-                if let Some(group_ref) = inner.groups.get_mut(group) {
-                    group_ref.is_fetching_cold = false;
-                }
-                return Err("Disk read failed".to_string());
+            match rx.await {
+                Ok(messages) => messages,
+                Err(_) => return Err("Disk read failed".to_string()),
             }
         };
 
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
         if let Some(group_ref) = inner.groups.get_mut(group) {
-            group_ref.is_fetching_cold = false;
             if group_cancel.is_cancelled() {
                 return Ok(Vec::new());
             }
-- 
2.43.0


From be92d8e75ca6b3866f71384f8cda40821d6a15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:55 +0000
Subject: [PATCH 11/48] fix: keep stream messages the disk refused and write
 them when it works again

---
 src/brokers/stream/domain/persistence.rs | 208 ++++++++++++++---------
 1 file changed, 127 insertions(+), 81 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index e06ceb7..ddc8ae2 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -2,7 +2,7 @@
 //! 
 //! Responsibilities:
 //! - Offloads disk I/O from individual topic actors.
-//! - Batches writes automatically via `BufWriter` for high throughput.
+//! - Batches writes per topic for high throughput, and keeps what the disk refused to try again.
 //! - Manages an LRU Cache of file descriptors to prevent OS limits exhaustion.
 //! - Executes a global periodic flush to sync bytes to disk and notify topic actors.
 
@@ -98,12 +98,27 @@ pub enum StorageCommand {
 }
 
 pub struct TopicContext {
-    active_path: PathBuf,
     persisted_seq: Arc<AtomicU64>,
-    highest_pending_seq: u64,
-    current_file_size: u64,
+    /// Segment being written, once known
+    active: Option<ActiveSegment>,
+    /// Serialized messages that are not in the log file yet, oldest first
+    unwritten: VecDeque<(u64, Vec<u8>)>,
+    unwritten_bytes: usize,
+    /// The last write failed: the next flush tries again
+    write_failed: bool,
 }
 
+struct ActiveSegment {
+    path: PathBuf,
+    /// Length of the complete records in the file
+    size: u64,
+    /// A write failed and may have left part of a record after `size`
+    damaged: bool,
+}
+
+/// Messages are written to the log file when this many bytes are waiting, or at the next flush.
+const WRITE_BUFFER_BYTES: usize = 8 * 1024;
+
 // ==========================================
 // STORAGE MANAGER ACTOR
 // ==========================================
@@ -111,7 +126,7 @@ pub struct TopicContext {
 pub struct StorageManager {
     base_path: PathBuf,
     rx: mpsc::UnboundedReceiver<StorageCommand>,
-    open_files: LruCache<PathBuf, BufWriter<File>>,
+    open_files: LruCache<PathBuf, File>,
     topics: HashMap<String, TopicContext>,
     flush_interval: Duration,
     max_segment_size: u64,
@@ -186,8 +201,9 @@ impl StorageManager {
                 let _ = reply.send(outcome);
             }
             StorageCommand::DropTopic { topic_name, reply } => {
-                if let Some(ctx) = self.topics.remove(&topic_name) {
-                    self.open_files.pop(&ctx.active_path);
+                self.dirty_topics.remove(&topic_name);
+                if let Some(active) = self.topics.remove(&topic_name).and_then(|ctx| ctx.active) {
+                    self.open_files.pop(&active.path);
                 }
                 let topic_path = self.base_path.join(&topic_name);
                 if topic_path.exists() {
@@ -206,98 +222,115 @@ impl StorageManager {
     ) {
         if messages.is_empty() { return; }
 
-        let highest_seq = messages.last().unwrap().seq;
-        let base_topic_path = self.base_path.join(&topic_name);
-
-        if !self.topics.contains_key(&topic_name) {
-            if !base_topic_path.exists() {
-                if let Err(e) = tokio::fs::create_dir_all(&base_topic_path).await {
-                    error!("FATAL: Failed to create topic dir {:?}: {}", base_topic_path, e);
-                    return;
-                }
-            }
-            
-            let segments = find_segments(&base_topic_path).await.unwrap_or_default();
-            let (active_path, file_size) = if let Some(last) = segments.last() {
-                let size = tokio::fs::metadata(&last.path).await.map(|m| m.len()).unwrap_or(0);
-                (last.path.clone(), size)
-            } else {
-                (base_topic_path.join("1.log"), 0)
-            };
+        let ctx = self.topics.entry(topic_name.clone()).or_insert_with(|| TopicContext {
+            persisted_seq: persisted_seq.clone(),
+            active: None,
+            unwritten: VecDeque::new(),
+            unwritten_bytes: 0,
+            write_failed: false,
+        });
+        ctx.persisted_seq = persisted_seq;
 
-            self.topics.insert(topic_name.clone(), TopicContext {
-                active_path,
-                persisted_seq: persisted_seq.clone(),
-                highest_pending_seq: 0,
-                current_file_size: file_size,
-            });
-        } else {
-            self.topics.get_mut(&topic_name).unwrap().persisted_seq = persisted_seq;
+        for msg in &messages {
+            let mut record = Vec::new();
+            serialize_message(&mut record, msg.seq, msg.timestamp, &msg.payload);
+            ctx.unwritten_bytes += record.len();
+            ctx.unwritten.push_back((msg.seq, record));
         }
 
-        let mut buffer = Vec::new();
-        for msg in &messages {
-            serialize_message(&mut buffer, msg.seq, msg.timestamp, &msg.payload);
+        let write_now = ctx.unwritten_bytes >= WRITE_BUFFER_BYTES && !ctx.write_failed;
+        self.dirty_topics.insert(topic_name.clone());
+        if write_now {
+            self.write_topic(&topic_name).await;
         }
-        let bytes_len = buffer.len() as u64;
+    }
 
-        let path = {
-            let ctx = self.topics.get_mut(&topic_name).unwrap();
-            if ctx.current_file_size + bytes_len > self.max_segment_size && ctx.current_file_size > 0 {
-                if let Some(mut old_writer) = self.open_files.pop(&ctx.active_path) {
-                    let _ = old_writer.flush().await;
-                }
-                let first_seq = messages.first().unwrap().seq;
-                ctx.active_path = base_topic_path.join(format!("{}.log", first_seq));
-                ctx.current_file_size = 0;
+    /// Writes what waits for a topic's log. On failure the rest stays waiting for the next flush.
+    async fn write_topic(&mut self, topic_name: &str) {
+        let result = self.try_write_topic(topic_name).await;
+        if let Some(ctx) = self.topics.get_mut(topic_name) {
+            ctx.write_failed = result.is_err();
+        }
+        match result {
+            Ok(()) => {
+                self.dirty_topics.remove(topic_name);
             }
-            ctx.active_path.clone()
+            Err(e) => error!("StorageManager: Failed to write topic '{}': {}", topic_name, e),
+        }
+    }
+
+    async fn try_write_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
+        let base_topic_path = self.base_path.join(topic_name);
+        let Some(ctx) = self.topics.get_mut(topic_name) else {
+            return Ok(());
         };
 
-        match self.get_or_open_writer(&path).await {
-            Ok(writer) => {
-                if let Err(e) = writer.write_all(&buffer).await {
-                    error!("StorageManager: Failed to write to {:?}: {}", path, e);
-                    self.open_files.pop(&path);
-                    return;
+        while let Some((first_seq, first_record)) = ctx.unwritten.front() {
+            let active = match ctx.active.as_mut() {
+                Some(active) => active,
+                None => ctx.active.insert(find_active_segment(&base_topic_path).await?),
+            };
+
+            if active.size + first_record.len() as u64 > self.max_segment_size && active.size > 0 && !active.damaged {
+                self.open_files.pop(&active.path);
+                *active = ActiveSegment {
+                    path: base_topic_path.join(format!("{}.log", first_seq)),
+                    size: 0,
+                    damaged: false,
+                };
+            }
+
+            if active.damaged {
+                truncate_file(&active.path, active.size).await?;
+                active.damaged = false;
+                continue;
+            }
+
+            let mut buffer = Vec::new();
+            let mut records = 0;
+            let mut last_seq = 0;
+            for (seq, record) in &ctx.unwritten {
+                let size = active.size + buffer.len() as u64;
+                if size + record.len() as u64 > self.max_segment_size && size > 0 {
+                    break;
                 }
-                let ctx = self.topics.get_mut(&topic_name).unwrap();
-                ctx.current_file_size += bytes_len;
-                ctx.highest_pending_seq = highest_seq;
-                self.dirty_topics.insert(topic_name.clone());
+                buffer.extend_from_slice(record);
+                records += 1;
+                last_seq = *seq;
+            }
+
+            let file = Self::get_or_open_file(&mut self.open_files, &active.path).await?;
+            let mut written = file.write_all(&buffer).await;
+            if written.is_ok() {
+                written = file.flush().await;
+            }
+            if let Err(e) = written {
+                self.open_files.pop(&active.path);
+                active.damaged = true;
+                return Err(e);
             }
-            Err(e) => error!("StorageManager: Failed to open file {:?}: {}", path, e),
+
+            active.size += buffer.len() as u64;
+            ctx.unwritten.drain(..records);
+            ctx.unwritten_bytes -= buffer.len();
+            ctx.persisted_seq.store(last_seq, Ordering::Release);
         }
+
+        Ok(())
     }
 
-    async fn get_or_open_writer(&mut self, path: &PathBuf) -> Result<&mut BufWriter<File>, std::io::Error> {
-        if !self.open_files.contains(path) {
-            if self.open_files.len() == self.open_files.cap().get() {
-                if let Some((_, mut evicted_writer)) = self.open_files.pop_lru() {
-                    let _ = evicted_writer.flush().await;
-                }
-            }
+    async fn get_or_open_file<'a>(open_files: &'a mut LruCache<PathBuf, File>, path: &PathBuf) -> std::io::Result<&'a mut File> {
+        if !open_files.contains(path) {
             let file = OpenOptions::new().create(true).append(true).open(path).await?;
-            self.open_files.put(path.clone(), BufWriter::new(file));
+            open_files.put(path.clone(), file);
         }
-        Ok(self.open_files.get_mut(path).unwrap())
+        Ok(open_files.get_mut(path).unwrap())
     }
 
     async fn flush_all(&mut self) {
-        for (_, writer) in self.open_files.iter_mut() {
-            let _ = writer.flush().await;
-        }
-
-        if !self.dirty_topics.is_empty() {
-            let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
-            for name in topics_to_flush {
-                if let Some(ctx) = self.topics.get_mut(&name) {
-                    if ctx.highest_pending_seq > 0 {
-                        ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
-                        ctx.highest_pending_seq = 0;
-                    }
-                }
-            }
+        let topics_to_flush: Vec<String> = self.dirty_topics.iter().cloned().collect();
+        for name in topics_to_flush {
+            self.write_topic(&name).await;
         }
     }
 
@@ -475,6 +508,19 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
     state
 }
 
+/// The segment new messages go to: the last one on disk, or the first of an empty log.
+async fn find_active_segment(base_topic_path: &Path) -> std::io::Result<ActiveSegment> {
+    tokio::fs::create_dir_all(base_topic_path).await?;
+    let (path, size) = match find_segments(base_topic_path).await?.pop() {
+        Some(last) => {
+            let size = tokio::fs::metadata(&last.path).await?.len();
+            (last.path, size)
+        }
+        None => (base_topic_path.join("1.log"), 0),
+    };
+    Ok(ActiveSegment { path, size, damaged: false })
+}
+
 /// Find all segment files for a topic, sorted by start_seq.
 pub async fn find_segments(base_path: &Path) -> std::io::Result<Vec<Segment>> {
     let mut segments = Vec::new();
-- 
2.43.0


From 2583bf3cc29649fa69f7b3f8de4a816b0f5a802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:26 +0000
Subject: [PATCH 12/48] fix: stream retention removes segments from the front
 only, so that the log never gets a hole

---
 src/brokers/stream/domain/persistence.rs | 40 +++++++++++++-----------
 src/brokers/stream/manager.rs            |  2 +-
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index ddc8ae2..0ff495f 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -372,26 +372,25 @@ impl StorageManager {
             };
         }
 
-        if let Some(max_age) = retention.max_age_ms {
-            let limit = std::time::SystemTime::now() - Duration::from_millis(max_age);
-            let mut survivors = Vec::new();
-            let last_start_seq = segments.last().map(|seg| seg.start_seq);
-            for seg in segments {
-                let mut deleted = false;
-                if Some(seg.start_seq) != last_start_seq {
-                    if let Ok(metadata) = tokio::fs::metadata(&seg.path).await {
-                        if let Ok(modified) = metadata.modified() {
-                            if modified < limit {
-                                self.open_files.pop(&seg.path);
-                                let _ = tokio::fs::remove_file(&seg.path).await;
-                                deleted = true;
-                            }
-                        }
-                    }
+        // Only ever cut from the front: the log must not get a hole
+        if let Some(limit) = retention.max_age_ms.and_then(|max_age| std::time::SystemTime::now().checked_sub(Duration::from_millis(max_age))) {
+            let mut expired = 0;
+            for seg in &segments[..segments.len() - 1] {
+                let modified = match tokio::fs::metadata(&seg.path).await.and_then(|metadata| metadata.modified()) {
+                    Ok(modified) => modified,
+                    Err(_) => break,
+                };
+                if modified >= limit {
+                    break;
                 }
-                if !deleted { survivors.push(seg); }
+                self.open_files.pop(&seg.path);
+                if let Err(e) = tokio::fs::remove_file(&seg.path).await {
+                    error!("Failed to remove expired segment {:?}: {}", seg.path, e);
+                    break;
+                }
+                expired += 1;
             }
-            segments = survivors;
+            segments.drain(..expired);
         }
 
         if let Some(max_bytes) = retention.max_bytes {
@@ -404,7 +403,10 @@ impl StorageManager {
                 let seg = &segments[i];
                 let size = tokio::fs::metadata(&seg.path).await.map(|m| m.len()).unwrap_or(0);
                 self.open_files.pop(&seg.path);
-                let _ = tokio::fs::remove_file(&seg.path).await;
+                if let Err(e) = tokio::fs::remove_file(&seg.path).await {
+                    error!("Failed to remove segment {:?}: {}", seg.path, e);
+                    break;
+                }
                 current_total = current_total.saturating_sub(size);
                 i += 1;
             }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 2ac8bcc..241dcbe 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -625,7 +625,7 @@ impl StreamManager {
                         {
                             let mut inner = StreamManager::lock_topic(&topic_ref.inner);
                             let mut groups_changed = false;
-                            if outcome.head_seq != inner.state.head_seq {
+                            if outcome.head_seq > inner.state.head_seq {
                                 inner.state.apply_head(outcome.head_seq);
                                 for group in inner.groups.values_mut() {
                                     if group.clamp_head(outcome.head_seq) {
-- 
2.43.0


From 8919c50f38d67df27c10bced199a1d60b9770b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 13/48] fix: serialize stream create and delete, and let a
 delete finish completely

---
 src/brokers/stream/domain/persistence.rs |  39 +++++--
 src/brokers/stream/manager.rs            | 126 +++++++++++++----------
 2 files changed, 100 insertions(+), 65 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 0ff495f..bd92bc1 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -93,10 +93,13 @@ pub enum StorageCommand {
 
     DropTopic {
         topic_name: String,
-        reply: oneshot::Sender<()>,
+        reply: oneshot::Sender<std::io::Result<()>>,
     }
 }
 
+/// Where a topic's directory goes to be deleted. No topic has this name.
+pub const DELETED_DIR: &str = "%deleted";
+
 pub struct TopicContext {
     persisted_seq: Arc<AtomicU64>,
     /// Segment being written, once known
@@ -201,17 +204,33 @@ impl StorageManager {
                 let _ = reply.send(outcome);
             }
             StorageCommand::DropTopic { topic_name, reply } => {
-                self.dirty_topics.remove(&topic_name);
-                if let Some(active) = self.topics.remove(&topic_name).and_then(|ctx| ctx.active) {
-                    self.open_files.pop(&active.path);
-                }
-                let topic_path = self.base_path.join(&topic_name);
-                if topic_path.exists() {
-                    let _ = std::fs::remove_dir_all(&topic_path);
-                }
-                let _ = reply.send(());
+                let _ = reply.send(self.drop_topic(&topic_name).await);
+            }
+        }
+    }
+
+    async fn drop_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
+        // Renamed first: a crash or error in the middle must not leave half a topic behind
+        let topic_path = self.base_path.join(topic_name);
+        let deleted_path = self.base_path.join(DELETED_DIR);
+        if topic_path.exists() {
+            if deleted_path.exists() {
+                tokio::fs::remove_dir_all(&deleted_path).await?;
             }
+            tokio::fs::rename(&topic_path, &deleted_path).await?;
         }
+
+        self.dirty_topics.remove(topic_name);
+        if let Some(active) = self.topics.remove(topic_name).and_then(|ctx| ctx.active) {
+            self.open_files.pop(&active.path);
+        }
+
+        if let Err(e) = tokio::fs::remove_dir_all(&deleted_path).await {
+            if e.kind() != std::io::ErrorKind::NotFound {
+                warn!("Failed to remove {:?}: {}", deleted_path, e);
+            }
+        }
+        Ok(())
     }
 
     async fn handle_append(
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 241dcbe..400a3e7 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -16,7 +16,7 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{recover_topic, DELETED_DIR, MessageToAppend, StorageCommand, StorageManager};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -37,6 +37,8 @@ struct TopicInner {
     client_map: HashMap<String, Vec<ConsumerBinding>>,
     groups_dirty: bool,
     full_config: TopicConfig,
+    /// Set under the lock before the files go: nothing may be sent to the storage after it
+    deleted: bool,
 }
 
 /// Marks the group's cold read as over when dropped, also when the request is aborted meanwhile.
@@ -69,16 +71,16 @@ pub struct JoinGroupResult {
 #[derive(Clone)]
 pub struct StreamManager {
     topics: Arc<DashMap<String, Arc<TopicShared>>>,
-    deleted_topics: Arc<DashMap<String, ()>>,
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
+    /// Serializes create and delete, which touch the files of a topic
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl StreamManager {
     pub async fn new(config: Arc<SystemStreamConfig>) -> Self {
         let topics = Arc::new(DashMap::new());
-        let deleted_topics = Arc::new(DashMap::new());
         let (storage_tx, storage_rx) = mpsc::unbounded_channel();
 
         let storage_manager = StorageManager::new(
@@ -92,10 +94,10 @@ impl StreamManager {
 
         let manager = Self {
             topics,
-            deleted_topics,
             storage_tx,
             config,
             cancel: CancellationToken::new(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         manager.bootstrap_from_disk().await;
@@ -108,7 +110,15 @@ impl StreamManager {
     }
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
-        self.deleted_topics.remove(&name);
+        // On its own task: once started it has to finish, even if the requesting client goes away
+        let manager = self.clone();
+        tokio::spawn(async move { manager.add_topic(name, options).await })
+            .await
+            .map_err(|e| format!("Stream create failed: {}", e))?
+    }
+
+    async fn add_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
 
         if self.topics.contains_key(&name) {
             return Ok(());
@@ -140,29 +150,40 @@ impl StreamManager {
 
         let shared = Self::build_topic_shared(name.clone(), topic_config).await;
 
-        use dashmap::mapref::entry::Entry;
-        match self.topics.entry(name) {
-            Entry::Occupied(_) => Ok(()),
-            Entry::Vacant(v) => {
-                v.insert(shared);
-                Ok(())
-            }
-        }
+        self.topics.insert(name, shared);
+        Ok(())
     }
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
-        self.deleted_topics.insert(name.clone(), ());
-
-        let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
-        if self.topics.remove(&name).is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
-            let (del_tx, del_rx) = oneshot::channel();
-            let _ = self.storage_tx.send(StorageCommand::DropTopic {
-                topic_name: name,
-                reply: del_tx,
-            });
-            let _ = del_rx.await;
+        // On its own task: once started it has to finish, even if the requesting client goes away
+        let manager = self.clone();
+        tokio::spawn(async move { manager.remove_topic(name).await })
+            .await
+            .map_err(|e| format!("Stream delete failed: {}", e))?
+    }
+
+    async fn remove_topic(&self, name: String) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
+
+        let Some((_, topic_ref)) = self.topics.remove(&name) else {
+            return Ok(());
+        };
+        Self::lock_topic(&topic_ref.inner).deleted = true;
+
+        let (del_tx, del_rx) = oneshot::channel();
+        let _ = self.storage_tx.send(StorageCommand::DropTopic {
+            topic_name: name.clone(),
+            reply: del_tx,
+        });
+
+        match del_rx.await {
+            Ok(Err(e)) => {
+                Self::lock_topic(&topic_ref.inner).deleted = false;
+                self.topics.insert(name, topic_ref);
+                Err(format!("Stream could not be deleted: {}", e))
+            }
+            _ => Ok(()),
         }
-        Ok(())
     }
 
     pub async fn publish(&self, topic: &str, payload: Bytes) -> Result<u64, String> {
@@ -171,6 +192,9 @@ impl StreamManager {
 
         let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
+            if inner.deleted {
+                return Err("Topic not found".to_string());
+            }
             let (seq, timestamp) = inner.state.append(payload.clone());
 
             // Sent under the lock: the log file must follow the order of the sequence numbers
@@ -429,12 +453,7 @@ impl StreamManager {
     }
 
     pub async fn exists(&self, name: &str) -> bool {
-        if self.topics.contains_key(name) {
-            return true;
-        }
-
-        let path = PathBuf::from(&self.config.persistence_path).join(name);
-        tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
+        self.topics.contains_key(name)
     }
 
     fn get_topic(&self, topic: &str) -> Option<Arc<TopicShared>> {
@@ -479,11 +498,13 @@ impl StreamManager {
                 continue;
             };
 
-            let name = topic_name.to_string();
-            if self.deleted_topics.contains_key(&name) {
+            if topic_name == DELETED_DIR {
+                // A delete was interrupted
+                let _ = tokio::fs::remove_dir_all(&path).await;
                 continue;
             }
 
+            let name = topic_name.to_string();
             let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
             let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
 
@@ -524,6 +545,7 @@ impl StreamManager {
                 client_map: HashMap::new(),
                 groups_dirty: false,
                 full_config: config,
+                deleted: false,
             }),
             notify: Notify::new(),
             persisted_seq,
@@ -567,17 +589,10 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let groups_data = {
-                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
-                            if !inner.groups_dirty {
-                                None
-                            } else {
-                                inner.groups_dirty = false;
-                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
-                            }
-                        };
-
-                        if let Some(groups_data) = groups_data {
+                        let mut inner = StreamManager::lock_topic(&topic_ref.inner);
+                        if inner.groups_dirty && !inner.deleted {
+                            inner.groups_dirty = false;
+                            let groups_data = inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>();
                             let _ = storage_tx.send(StorageCommand::SaveGroups {
                                 topic_name,
                                 groups_data,
@@ -602,19 +617,20 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let (retention, max_segment_size) = {
-                            let inner = StreamManager::lock_topic(&topic_ref.inner);
-                            (inner.full_config.retention.clone(), inner.full_config.max_segment_size)
-                        };
-
                         let (reply_tx, reply_rx) = oneshot::channel();
-                        if storage_tx.send(StorageCommand::ApplyRetention {
-                            topic_name,
-                            retention,
-                            max_segment_size,
-                            reply: reply_tx,
-                        }).is_err() {
-                            continue;
+                        {
+                            let inner = StreamManager::lock_topic(&topic_ref.inner);
+                            if inner.deleted {
+                                continue;
+                            }
+                            if storage_tx.send(StorageCommand::ApplyRetention {
+                                topic_name,
+                                retention: inner.full_config.retention.clone(),
+                                max_segment_size: inner.full_config.max_segment_size,
+                                reply: reply_tx,
+                            }).is_err() {
+                                continue;
+                            }
                         }
 
                         let Ok(outcome) = reply_rx.await else {
-- 
2.43.0


From faffadb71d1d50561b0f60332b699574e258d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:39 +0000
Subject: [PATCH 14/48] fix: keep every stream name inside its own directory,
 whatever characters it has

---
 src/brokers/stream/domain/persistence.rs | 30 +++++++++++++++++++-----
 src/brokers/stream/manager.rs            |  8 +++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index bd92bc1..9743f8e 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -21,6 +21,7 @@ use tokio::sync::{mpsc, oneshot};
 use tracing::{error, info, debug, warn};
 use crc32fast::Hasher;
 
+use crate::brokers::naming::{from_file_name, to_file_name};
 use crate::brokers::stream::options::RetentionOptions;
 use crate::brokers::stream::domain::message::Message;
 
@@ -193,13 +194,13 @@ impl StorageManager {
                 let _ = reply.send(msgs);
             }
             StorageCommand::SaveGroups { topic_name, groups_data } => {
-                let base_path = self.base_path.join(&topic_name);
+                let base_path = self.base_path.join(topic_dir_name(&topic_name));
                 if let Err(e) = save_groups_file(&base_path, &groups_data).await {
                     error!("Failed to save groups for {}: {}", topic_name, e);
                 }
             }
             StorageCommand::ApplyRetention { topic_name, retention, max_segment_size: _, reply } => {
-                let base_path = self.base_path.join(&topic_name);
+                let base_path = self.base_path.join(topic_dir_name(&topic_name));
                 let outcome = self.apply_retention(&topic_name, &base_path, &retention).await;
                 let _ = reply.send(outcome);
             }
@@ -211,7 +212,7 @@ impl StorageManager {
 
     async fn drop_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
         // Renamed first: a crash or error in the middle must not leave half a topic behind
-        let topic_path = self.base_path.join(topic_name);
+        let topic_path = self.base_path.join(topic_dir_name(topic_name));
         let deleted_path = self.base_path.join(DELETED_DIR);
         if topic_path.exists() {
             if deleted_path.exists() {
@@ -279,7 +280,7 @@ impl StorageManager {
     }
 
     async fn try_write_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
-        let base_topic_path = self.base_path.join(topic_name);
+        let base_topic_path = self.base_path.join(topic_dir_name(topic_name));
         let Some(ctx) = self.topics.get_mut(topic_name) else {
             return Ok(());
         };
@@ -354,7 +355,7 @@ impl StorageManager {
     }
 
     async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
-        let base_path = self.base_path.join(topic_name);
+        let base_path = self.base_path.join(topic_dir_name(topic_name));
         let segments = find_segments(&base_path).await.unwrap_or_default();
         let mut all_msgs = Vec::new();
         let Some(first_segment) = segments.first() else {
@@ -440,6 +441,23 @@ impl StorageManager {
 // HELPERS (Formerly in writer.rs)
 // ==========================================
 
+/// Directory of a topic inside the data directory. Ordinary names map to themselves.
+pub fn topic_dir_name(name: &str) -> String {
+    match name {
+        "" => "%".to_string(),
+        "%" => "%25".to_string(),
+        name => to_file_name(name),
+    }
+}
+
+/// Inverse of `topic_dir_name`.
+pub fn topic_name_of_dir(dir_name: &str) -> String {
+    match dir_name {
+        "%" => String::new(),
+        dir_name => from_file_name(dir_name),
+    }
+}
+
 /// Serialize a message into a buffer (does NOT write to disk).
 pub fn serialize_message(buf: &mut Vec<u8>, seq: u64, timestamp: u64, payload: &[u8]) {
     use bytes::BufMut;
@@ -501,7 +519,7 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
 
 /// Recover topic state from filesystem.
 pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredState {
-    let base_path = base_path.join(topic_name);
+    let base_path = base_path.join(topic_dir_name(topic_name));
     let mut state = RecoveredState::default();
     if !base_path.exists() { return state; }
 
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 400a3e7..e102fe5 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -16,7 +16,7 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, DELETED_DIR, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{recover_topic, topic_dir_name, topic_name_of_dir, DELETED_DIR, MessageToAppend, StorageCommand, StorageManager};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -124,7 +124,7 @@ impl StreamManager {
             return Ok(());
         }
 
-        let base_path = PathBuf::from(&self.config.persistence_path).join(&name);
+        let base_path = PathBuf::from(&self.config.persistence_path).join(topic_dir_name(&name));
         let existed_on_disk = tokio::fs::metadata(&base_path).await.map(|meta| meta.is_dir()).unwrap_or(false);
         let topic_config = Self::load_topic_config(&base_path, options, &self.config).await;
 
@@ -504,7 +504,7 @@ impl StreamManager {
                 continue;
             }
 
-            let name = topic_name.to_string();
+            let name = topic_name_of_dir(topic_name);
             let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
             let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
 
@@ -520,7 +520,7 @@ impl StreamManager {
     }
 
     async fn build_topic_shared(name: String, config: TopicConfig) -> Arc<TopicShared> {
-        let base_path = PathBuf::from(&config.persistence_path).join(&name);
+        let base_path = PathBuf::from(&config.persistence_path).join(topic_dir_name(&name));
         if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
             tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
         }
-- 
2.43.0


From 492fcbc3449a9eece2662c98c341307b0faa50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 15/48] fix: report a stream that could not be created on disk
 instead of accepting messages it cannot keep

---
 src/brokers/stream/manager.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index e102fe5..15dd0e9 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -130,21 +130,15 @@ impl StreamManager {
 
         info!("[StreamManager] Creating topic '{}'", name);
 
-        if !existed_on_disk {
-            if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
-                tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
-            } else {
-                let config_path = base_path.join("config.json");
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
-            }
-        } else {
-            let config_path = base_path.join("config.json");
-            if !config_path.exists() {
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
+        tokio::fs::create_dir_all(&base_path).await
+            .map_err(|e| format!("Failed to create topic directory at {:?}: {}", base_path, e))?;
+
+        let config_path = base_path.join("config.json");
+        if !existed_on_disk || !config_path.exists() {
+            let data = serde_json::to_string_pretty(&topic_config).map_err(|e| e.to_string())?;
+            if let Err(e) = tokio::fs::write(&config_path, data).await {
+                let _ = tokio::fs::remove_file(&config_path).await;
+                return Err(format!("Failed to write topic config at {:?}: {}", config_path, e));
             }
         }
 
-- 
2.43.0


From 232c59278b207dff3bfbdb6fb209e0df875fb306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 16/48] fix: reject group ids that groups.log cannot hold,
 which lost the positions of other groups

---
 src/brokers/stream/domain/persistence.rs |  3 +++
 src/brokers/stream/manager.rs            | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 9743f8e..3c66e75 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -98,6 +98,9 @@ pub enum StorageCommand {
     }
 }
 
+/// Group ids are stored with a 16-bit length.
+pub const MAX_GROUP_ID_BYTES: usize = u16::MAX as usize;
+
 /// Where a topic's directory goes to be deleted. No topic has this name.
 pub const DELETED_DIR: &str = "%deleted";
 
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 15dd0e9..5a8f0d7 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -16,7 +16,7 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, topic_dir_name, topic_name_of_dir, DELETED_DIR, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{recover_topic, topic_dir_name, topic_name_of_dir, DELETED_DIR, MAX_GROUP_ID_BYTES, MessageToAppend, StorageCommand, StorageManager};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -308,6 +308,7 @@ impl StreamManager {
     }
 
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
+        Self::check_group_id(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         {
             let mut inner = Self::lock_topic(&topic_ref.inner);
@@ -364,6 +365,7 @@ impl StreamManager {
     }
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
+        Self::check_group_id(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
@@ -398,6 +400,14 @@ impl StreamManager {
         })
     }
 
+    /// Group ids that do not fit the record format of groups.log could not be restored.
+    fn check_group_id(group: &str) -> Result<(), String> {
+        if group.len() > MAX_GROUP_ID_BYTES {
+            return Err(format!("Group id longer than {} bytes", MAX_GROUP_ID_BYTES));
+        }
+        Ok(())
+    }
+
     pub async fn disconnect(&self, client_id: String) {
         info!("[StreamManager] Disconnecting client: {}", client_id);
         for (_, topic_ref) in Self::collect_topics(&self.topics) {
-- 
2.43.0


From d8a87d310aa21c37afb0d96d06c78a894aca831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:58 +0000
Subject: [PATCH 17/48] fix: save group positions again when the disk refused
 them

---
 src/brokers/stream/domain/persistence.rs | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 3c66e75..0674bc4 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -138,6 +138,8 @@ pub struct StorageManager {
     flush_interval: Duration,
     max_segment_size: u64,
     dirty_topics: HashSet<String>,
+    /// Group positions by topic that could not be saved yet
+    unsaved_groups: HashMap<String, HashMap<String, u64>>,
 }
 
 impl StorageManager {
@@ -156,6 +158,7 @@ impl StorageManager {
             flush_interval: Duration::from_millis(flush_interval_ms),
             max_segment_size,
             dirty_topics: HashSet::new(),
+            unsaved_groups: HashMap::new(),
         }
     }
 
@@ -197,10 +200,8 @@ impl StorageManager {
                 let _ = reply.send(msgs);
             }
             StorageCommand::SaveGroups { topic_name, groups_data } => {
-                let base_path = self.base_path.join(topic_dir_name(&topic_name));
-                if let Err(e) = save_groups_file(&base_path, &groups_data).await {
-                    error!("Failed to save groups for {}: {}", topic_name, e);
-                }
+                self.unsaved_groups.insert(topic_name.clone(), groups_data);
+                self.save_groups(&topic_name).await;
             }
             StorageCommand::ApplyRetention { topic_name, retention, max_segment_size: _, reply } => {
                 let base_path = self.base_path.join(topic_dir_name(&topic_name));
@@ -213,6 +214,20 @@ impl StorageManager {
         }
     }
 
+    /// On failure the positions stay in `unsaved_groups` for the next flush.
+    async fn save_groups(&mut self, topic_name: &str) {
+        let Some(groups_data) = self.unsaved_groups.get(topic_name) else {
+            return;
+        };
+        let base_path = self.base_path.join(topic_dir_name(topic_name));
+        match save_groups_file(&base_path, groups_data).await {
+            Ok(()) => {
+                self.unsaved_groups.remove(topic_name);
+            }
+            Err(e) => error!("Failed to save groups for {}: {}", topic_name, e),
+        }
+    }
+
     async fn drop_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
         // Renamed first: a crash or error in the middle must not leave half a topic behind
         let topic_path = self.base_path.join(topic_dir_name(topic_name));
@@ -225,6 +240,7 @@ impl StorageManager {
         }
 
         self.dirty_topics.remove(topic_name);
+        self.unsaved_groups.remove(topic_name);
         if let Some(active) = self.topics.remove(topic_name).and_then(|ctx| ctx.active) {
             self.open_files.pop(&active.path);
         }
@@ -355,6 +371,11 @@ impl StorageManager {
         for name in topics_to_flush {
             self.write_topic(&name).await;
         }
+
+        let groups_to_save: Vec<String> = self.unsaved_groups.keys().cloned().collect();
+        for name in groups_to_save {
+            self.save_groups(&name).await;
+        }
     }
 
     async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
-- 
2.43.0


From 178d4c1dc89ab15f0745ec684957862ed594447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:32 +0000
Subject: [PATCH 18/48] fix: serve queue requests with a huge batch size or
 visibility timeout instead of panicking

---
 src/brokers/queue/domain/queue.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 02284ef..0544203 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -139,7 +139,7 @@ impl QueueState {
 
     /// Take up to `max` messages for batch consumption.
     pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
-        let mut result = Vec::with_capacity(max);
+        let mut result = Vec::new();
         let mut any_earliest = false;
 
         while result.len() < max {
@@ -392,7 +392,7 @@ impl QueueState {
             None => return (None, false),
         };
 
-        let timeout = now + visibility_timeout_ms;
+        let timeout = now.saturating_add(visibility_timeout_ms);
         self.transition_to(next_id, MessageState::InFlight(timeout));
 
         // Update message fields
-- 
2.43.0


From 0f4484cd1e184255cea57b180090a3d96324dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 19/48] fix: accept a huge TTL instead of panicking

---
 src/brokers/pub-sub/domain/retained.rs | 12 +++++++++---
 src/brokers/store/domain/map.rs        | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..447b546 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -4,6 +4,11 @@ use std::time::{Instant, SystemTime, UNIX_EPOCH};
 use bytes::Bytes;
 use serde::{Serialize, Deserialize};
 
+/// None (never) when the time is too far away to be represented.
+fn expires_in(secs: u64) -> Option<Instant> {
+    Instant::now().checked_add(std::time::Duration::from_secs(secs))
+}
+
 #[derive(Clone, Serialize, Deserialize)]
 pub(crate) struct RetainedMessage {
     pub(crate) data: Bytes,
@@ -14,12 +19,13 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
+        let expires_at = ttl_seconds.and_then(expires_in);
         let expires_at_unix = ttl_seconds.map(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .saturating_add(secs)
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +39,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                expires_in(remaining)
             } else {
                 None
             }
diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..1e87176 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -5,6 +5,8 @@ use tokio::time;
 use crate::brokers::store::config::StoreConfig;
 use bytes::Bytes;
 
+const MAX_TTL_SECS: u64 = 1000 * 365 * 24 * 60 * 60;
+
 #[derive(Clone, Debug)]
 pub struct Entry {
     pub value: MapValue,
@@ -55,11 +57,15 @@ impl MapStore {
     }
 
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
-        let expires_at = match ttl {
-            Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
-            }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+        let ttl_secs = match ttl {
+            Some(0) | None => self.config.default_ttl_secs,
+            Some(secs) => secs,
+        };
+        // A time that far away cannot be represented everywhere: the key never expires
+        let expires_at = if ttl_secs > MAX_TTL_SECS {
+            None
+        } else {
+            Some(Instant::now() + Duration::from_secs(ttl_secs))
         };
 
         self.inner.insert(key, Entry {
-- 
2.43.0


From b8ef4eaf49c98f08b1939b66c8057b97fad0c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 20/48] fix: do not bring retained messages back for good that
 expired while the server was down

---
 src/brokers/pub-sub/domain/retained.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 447b546..1d7f4b3 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -41,7 +41,8 @@ impl RetainedMessage {
                 let remaining = unix_ts - now_unix;
                 expires_in(remaining)
             } else {
-                None
+                // Expired while the server was down
+                Some(Instant::now())
             }
         });
         Self { data, expires_at, expires_at_unix }
-- 
2.43.0


From 83ba35a37591936b5d02e6602e2682ed58510c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:35 +0000
Subject: [PATCH 21/48] fix: flush retained messages again when the disk
 refused them

---
 src/brokers/pub-sub/manager.rs | 42 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..6d032d8 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -50,25 +50,35 @@ impl PubSubManager {
         let flush_ms = config.retained_flush_ms;
         
         tokio::spawn(async move {
-            if let Ok(mut conn) = persistence::init_db(&flush_path) {
-                let mut interval = tokio::time::interval(Duration::from_millis(flush_ms));
-                interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
-                loop {
-                    interval.tick().await;
-                    if !flush_dirty.swap(false, Ordering::Relaxed) {
-                        continue;
-                    }
+            let mut conn = None;
+            let mut interval = tokio::time::interval(Duration::from_millis(flush_ms));
+            interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
+            loop {
+                interval.tick().await;
+                if !flush_dirty.swap(false, Ordering::Relaxed) {
+                    continue;
+                }
 
-                    let entries = {
-                        let root = flush_tree.read();
-                        let mut results = Vec::new();
-                        root.collect_all_retained("", &mut results);
-                        results
-                    };
+                let entries = {
+                    let root = flush_tree.read();
+                    let mut results = Vec::new();
+                    root.collect_all_retained("", &mut results);
+                    results
+                };
 
-                    if let Err(e) = persistence::flush(&mut conn, &entries) {
-                        tracing::error!("Failed to flush retained messages to SQLite: {}", e);
+                let flushed = match conn.take().map_or_else(|| persistence::init_db(&flush_path), Ok) {
+                    Ok(mut db) => {
+                        let result = persistence::flush(&mut db, &entries);
+                        conn = Some(db);
+                        result
                     }
+                    Err(e) => Err(e),
+                };
+
+                if let Err(e) = flushed {
+                    tracing::error!("Failed to flush retained messages to SQLite: {}", e);
+                    // Still to be written: the next flush tries again
+                    flush_dirty.store(true, Ordering::Relaxed);
                 }
             }
         });
-- 
2.43.0


From a8949eb4fb51422b8ff4dadaa2931cd02c1a6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:48 +0000
Subject: [PATCH 22/48] fix: keep retained topics apart that differ in empty
 levels

---
 src/brokers/pub-sub/domain/radix_tree.rs | 36 +++++++++++++++---------
 src/brokers/pub-sub/manager.rs           |  5 ++--
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..4f4b17a 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -23,6 +23,14 @@ pub(crate) struct Node {
     pub(crate) retained: Option<RetainedMessage>,
 }
 
+/// Topic path of a child. The root has no path; the level "" of a topic like "/a" is a level too.
+fn child_path(path: Option<&str>, level: &str) -> String {
+    match path {
+        Some(path) => format!("{}/{}", path, level),
+        None => level.to_string(),
+    }
+}
+
 impl Node {
     pub(crate) fn new() -> Self {
         Self {
@@ -141,11 +149,11 @@ impl Node {
         current.retained = retained;
     }
 
-    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
                 }
             }
             return;
@@ -156,40 +164,40 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = child_path(current_path, key);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = child_path(current_path, head);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         }
     }
 
-    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained_for_subscribe(&next_path, results);
+            let next_path = child_path(current_path, key);
+            child.collect_all_retained_for_subscribe(Some(&next_path), results);
         }
     }
 
-    pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
+    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained(&next_path, results);
+            let next_path = child_path(current_path, key);
+            child.collect_all_retained(Some(&next_path), results);
         }
     }
 
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 6d032d8..a378d6b 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -62,7 +62,7 @@ impl PubSubManager {
                 let entries = {
                     let root = flush_tree.read();
                     let mut results = Vec::new();
-                    root.collect_all_retained("", &mut results);
+                    root.collect_all_retained(None, &mut results);
                     results
                 };
 
@@ -142,10 +142,9 @@ impl PubSubManager {
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
-        root.collect_retained_for_pattern(&parts, "", &mut retained);
+        root.collect_retained_for_pattern(&parts, None, &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = sender.send(msg);
         }
-- 
2.43.0


From 78c3568a70729cf576f552747c272144e10375d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 23/48] fix: update a client's subscription list and the
 routing tree together

---
 src/brokers/pub-sub/manager.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index a378d6b..df8791a 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -120,8 +120,9 @@ impl PubSubManager {
     }
 
     pub fn disconnect(&self, client_id: &ClientId) {
+        // The tree lock covers the registry too: both must always list the same subscriptions
+        let mut root = self.tree.write();
         if let Some((_, info)) = self.clients.remove(client_id) {
-            let mut root = self.tree.write();
             for sub in info.subscriptions {
                 let parts: Vec<String> = sub.split('/').map(|s| s.to_string()).collect();
                 root.remove_subscriber(&parts, client_id);
@@ -130,6 +131,7 @@ impl PubSubManager {
     }
 
     pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
+        let mut root = self.tree.write();
         let sender = if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.insert(pattern.to_string());
             info.sender.clone()
@@ -138,7 +140,6 @@ impl PubSubManager {
         };
 
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-        let mut root = self.tree.write();
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
@@ -151,11 +152,11 @@ impl PubSubManager {
     }
 
     pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
+        let mut root = self.tree.write();
         if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.remove(pattern);
         }
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-        let mut root = self.tree.write();
         root.remove_subscriber(&parts, client_id);
     }
 
-- 
2.43.0


From 3b54e68b534dd0b57447cab0afd1e2585193fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:37 +0000
Subject: [PATCH 24/48] fix: clean up after a client also when its connection
 ends with an error

---
 src/transport/tcp/connection.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..d4239a0 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let result = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -80,28 +80,29 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
                 match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
+                    Ok(Ok(())) => break Ok(()), // Clean disconnect
+                    Ok(Err(err)) => break Err(format!("Protocol error: {err:?}")),
+                    Err(err) => break Err(format!("Socket task panicked: {err:?}")),
                 }
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
     // ==========================================
     tracing::debug!("Client {:?} disconnected", client_id);
 
-    request_set.abort_all();
+    // Waits for the aborted requests: none may subscribe or join after the brokers forgot the client
+    request_set.shutdown().await;
     bridge_handle.abort();
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    result
 }
 
 
-- 
2.43.0


From 903a31ee179261380153fe1ffd5436b75cff6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 25/48] fix: reject topics so deep that routing them overflows
 the stack and ends the server

---
 src/brokers/pub-sub/tcp.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/brokers/pub-sub/tcp.rs b/src/brokers/pub-sub/tcp.rs
index 32d4e46..e2c76fb 100644
--- a/src/brokers/pub-sub/tcp.rs
+++ b/src/brokers/pub-sub/tcp.rs
@@ -35,7 +35,7 @@ impl PubSubCommand {
     fn parse(opcode: u8, cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
         match opcode {
             OP_PUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 let json_str = cursor.read_string()?;
                 let options: PubSubPublishOptions = serde_json::from_str(&json_str)
                     .map_err(|e| ParseError::Invalid(format!("Invalid JSON options: {}", e)))?;
@@ -43,7 +43,7 @@ impl PubSubCommand {
                 Ok(Self::Publish { topic, options, payload })
             }
             OP_SUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Subscribe { topic })
             }
             OP_UNSUB => {
@@ -55,6 +55,17 @@ impl PubSubCommand {
     }
 }
 
+/// The routing tree is walked recursively: its depth, and so the levels of a topic, are limited.
+const MAX_TOPIC_LEVELS: usize = 256;
+
+fn read_topic(cursor: &mut PayloadCursor) -> Result<String, ParseError> {
+    let topic = cursor.read_string()?;
+    if topic.split('/').count() > MAX_TOPIC_LEVELS {
+        return Err(ParseError::Invalid(format!("Topic has more than {} levels", MAX_TOPIC_LEVELS)));
+    }
+    Ok(topic)
+}
+
 // ==========================================
 // DISPATCH ENTRY POINT
 // ==========================================
-- 
2.43.0


From 4e3ababf3741d9df56f62fcd88eccdaa7b0824e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 26/48] fix: write a stream's log before the group positions
 that cover it

---
 src/brokers/stream/domain/persistence.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 0674bc4..a798574 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -216,6 +216,15 @@ impl StorageManager {
 
     /// On failure the positions stay in `unsaved_groups` for the next flush.
     async fn save_groups(&mut self, topic_name: &str) {
+        // The log first: a crash must not lose messages that a saved position already covers,
+        // because their sequence numbers are going to name other messages
+        if self.dirty_topics.contains(topic_name) {
+            self.write_topic(topic_name).await;
+            if self.dirty_topics.contains(topic_name) {
+                return;
+            }
+        }
+
         let Some(groups_data) = self.unsaved_groups.get(topic_name) else {
             return;
         };
-- 
2.43.0


From 5378a76b2005ffdbdb932b6fda536f369890e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 27/48] fix: reopen the retained message database after a
 failed flush, which may have left it open read-only

---
 src/brokers/pub-sub/manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index df8791a..7886426 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -69,7 +69,10 @@ impl PubSubManager {
                 let flushed = match conn.take().map_or_else(|| persistence::init_db(&flush_path), Ok) {
                     Ok(mut db) => {
                         let result = persistence::flush(&mut db, &entries);
-                        conn = Some(db);
+                        // After an error open it again: it may have been opened read-only
+                        if result.is_ok() {
+                            conn = Some(db);
+                        }
                         result
                     }
                     Err(e) => Err(e),
-- 
2.43.0


From 2a6c627104a55ae410e48e6cd901aea359ed3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:39 +0000
Subject: [PATCH 28/48] fix: an error while accepting a connection no longer
 ends the server

---
 src/main.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e6f29be..b9450d6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@
 use nexo::config::Config;
 use nexo::NexoEngine;
 use nexo::transport::{tcp, http};
+use std::time::Duration;
 use tokio::net::TcpListener;
 
 // ========================================
@@ -49,10 +50,15 @@ async fn main() {
     tracing::info!(address = %addr, "Nexo listening");
 
     loop {
-        let (socket, client_addr) = listener
-            .accept()
-            .await
-            .expect("Failed to accept connection");
+        let (socket, client_addr) = match listener.accept().await {
+            Ok(accepted) => accepted,
+            Err(e) => {
+                // The connections that are open go on
+                tracing::error!(error = %e, "Failed to accept connection");
+                tokio::time::sleep(Duration::from_millis(100)).await;
+                continue;
+            }
+        };
 
         let engine_clone = engine.clone();
 
-- 
2.43.0


From 0e458bb5c34a7487902ae35f89debc18762e2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 29/48] fix: listing topics with a huge offset no longer
 overflows

---
 src/brokers/pub-sub/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 7886426..f23383e 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -220,7 +220,7 @@ impl PubSubManager {
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
         let total_topics = all_topics.len();
         
-        let end = (offset + limit).min(total_topics);
+        let end = offset.saturating_add(limit).min(total_topics);
         let paginated = if offset < total_topics {
             all_topics[offset..end].to_vec()
         } else {
-- 
2.43.0


From b703deaea49a41a8db28943f88c668cccaecbb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 30/48] fix: retained messages that could not be read at
 startup are read later instead of being overwritten

---
 src/brokers/pub-sub/domain/persistence.rs |  9 ++--
 src/brokers/pub-sub/manager.rs            | 50 ++++++++++++++++-------
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/brokers/pub-sub/domain/persistence.rs b/src/brokers/pub-sub/domain/persistence.rs
index 8c02918..def4741 100644
--- a/src/brokers/pub-sub/domain/persistence.rs
+++ b/src/brokers/pub-sub/domain/persistence.rs
@@ -33,11 +33,10 @@ pub(crate) fn load_all(conn: &Connection) -> std::result::Result<Vec<(String, Re
 
     let mut results = Vec::new();
     for entry in entries {
-        if let Ok((path, data, expires)) = entry {
-            let msg = RetainedMessage::from_persisted(data, expires);
-            if !msg.is_expired() {
-                results.push((path, msg));
-            }
+        let (path, data, expires) = entry?;
+        let msg = RetainedMessage::from_persisted(data, expires);
+        if !msg.is_expired() {
+            results.push((path, msg));
         }
     }
     Ok(results)
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index f23383e..c8e19ab 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -3,7 +3,7 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::Duration;
 use bytes::Bytes;
 use dashmap::DashMap;
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 use tokio::sync::mpsc;
 use std::collections::HashSet;
 
@@ -18,6 +18,8 @@ pub struct PubSubManager {
     tree: Arc<RwLock<Node>>,
     clients: ClientRegistry,
     retained_dirty: Arc<AtomicBool>,
+    /// Topics whose retained message was changed while those in the database could not be read. None once they are loaded.
+    changed_before_load: Arc<Mutex<Option<HashSet<String>>>>,
     config: Arc<PubSubConfig>,
 }
 
@@ -29,18 +31,9 @@ impl PubSubManager {
         let persistence_path = format!("{}/retained.db", config.persistence_path);
 
         // Load retained from SQLite
-        if let Ok(conn) = persistence::init_db(&persistence_path) {
-            if let Ok(loaded) = persistence::load_all(&conn) {
-                let mut root = tree.write();
-                for (path, msg) in loaded {
-                    let parts: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
-                    root.set_retained(&parts, Some(msg));
-                }
-            } else {
-                tracing::warn!("Failed to load retained topics from SQLite DB");
-            }
-        } else {
-             tracing::warn!("Failed to initialize SQLite for retained at {}", persistence_path);
+        let changed_before_load = Arc::new(Mutex::new(Some(HashSet::new())));
+        if let Err(e) = Self::load_retained(&persistence_path, &tree, &changed_before_load) {
+            tracing::warn!("Failed to load retained messages from SQLite at {}: {}", persistence_path, e);
         }
 
         // Background Flush Task
@@ -48,13 +41,23 @@ impl PubSubManager {
         let flush_dirty = retained_dirty.clone();
         let flush_path = persistence_path.clone();
         let flush_ms = config.retained_flush_ms;
-        
+        let flush_changed = changed_before_load.clone();
+
         tokio::spawn(async move {
             let mut conn = None;
             let mut interval = tokio::time::interval(Duration::from_millis(flush_ms));
             interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
             loop {
                 interval.tick().await;
+
+                // A flush replaces what the database holds: it has to be in memory by then
+                if flush_changed.lock().is_some() {
+                    if let Err(e) = Self::load_retained(&flush_path, &flush_tree, &flush_changed) {
+                        tracing::error!("Failed to load retained messages from SQLite: {}", e);
+                        continue;
+                    }
+                }
+
                 if !flush_dirty.swap(false, Ordering::Relaxed) {
                     continue;
                 }
@@ -111,10 +114,26 @@ impl PubSubManager {
             tree,
             clients,
             retained_dirty,
+            changed_before_load,
             config,
         }
     }
 
+    /// Adds what the database holds to the tree, except for the topics changed since the server started.
+    fn load_retained(path: &str, tree: &RwLock<Node>, changed_before_load: &Mutex<Option<HashSet<String>>>) -> Result<(), rusqlite::Error> {
+        let loaded = persistence::load_all(&persistence::init_db(path)?)?;
+
+        let mut root = tree.write();
+        let changed = changed_before_load.lock().take().unwrap_or_default();
+        for (path, msg) in loaded {
+            if !changed.contains(&path) {
+                let parts: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
+                root.set_retained(&parts, Some(msg));
+            }
+        }
+        Ok(())
+    }
+
     pub fn connect(&self, client_id: ClientId, sender: mpsc::UnboundedSender<Arc<PubSubMessage>>) {
         self.clients.insert(client_id, ClientInfo {
             sender,
@@ -169,6 +188,9 @@ impl PubSubManager {
 
         if retain {
             let mut root = self.tree.write();
+            if let Some(changed) = self.changed_before_load.lock().as_mut() {
+                changed.insert(topic.to_string());
+            }
             if data.is_empty() {
                 root.set_retained(&parts, None);
             } else {
-- 
2.43.0


From 715eea217c96b274a770a2052efb5684d1b53e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:25 +0000
Subject: [PATCH 31/48] fix: an I/O error while reading the files of a stream
 is not the end of its data

---
 src/brokers/stream/domain/persistence.rs | 100 ++++++++++++-----------
 src/brokers/stream/manager.rs            |  42 ++++++----
 2 files changed, 81 insertions(+), 61 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index a798574..05ef06e 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -401,7 +401,16 @@ impl StorageManager {
         if let Some(idx) = segments.iter().rposition(|s| s.start_seq <= current_from_seq) {
             for segment in segments.iter().skip(idx) {
                 if remaining_limit == 0 { break; }
-                let msgs = read_log_segment(&segment.path, current_from_seq, remaining_limit).await;
+                let msgs = match read_log_segment(&segment.path, current_from_seq, remaining_limit).await {
+                    Ok(msgs) => msgs,
+                    // Removed by retention: the log starts further on
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound && all_msgs.is_empty() => continue,
+                    Err(e) => {
+                        // What comes after it would look like the continuation
+                        error!("Failed to read segment {:?}: {}", segment.path, e);
+                        break;
+                    }
+                };
                 if !msgs.is_empty() {
                     current_from_seq = msgs.last().unwrap().seq + 1;
                     remaining_limit = remaining_limit.saturating_sub(msgs.len());
@@ -509,26 +518,23 @@ pub fn serialize_message(buf: &mut Vec<u8>, seq: u64, timestamp: u64, payload: &
 }
 
 /// Read messages from a log segment file starting at a given seq.
-pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> Vec<Message> {
+pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> std::io::Result<Vec<Message>> {
     use bytes::Buf;
     let mut msgs = Vec::new();
-    let file = match File::open(path).await {
-        Ok(f) => f,
-        Err(_) => return msgs,
-    };
+    let file = File::open(path).await?;
     let mut reader = BufReader::new(file);
 
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut len_buf).await? { break; }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut crc_buf).await? { break; }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut content_buf).await? { break; }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
@@ -547,37 +553,33 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
             if msgs.len() >= limit { break; }
         }
     }
-    msgs
+    Ok(msgs)
 }
 
-/// Recover topic state from filesystem.
-pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredState {
+/// Recover topic state from filesystem. On an error nothing is known about the topic: with a guess
+/// it would give sequence numbers out again or forget the position of its groups.
+pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> std::io::Result<RecoveredState> {
     let base_path = base_path.join(topic_dir_name(topic_name));
     let mut state = RecoveredState::default();
-    if !base_path.exists() { return state; }
-
-    if let Ok(segments) = find_segments(&base_path).await {
-        state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
-        if let Some(last_segment) = segments.last() {
-            let (messages, valid_len) = load_segment_file(&last_segment.path).await;
-            // A crash in the middle of a write leaves part of a record behind, and what is appended
-            // after it could not be read
-            if let Err(e) = truncate_file(&last_segment.path, valid_len).await {
-                error!("Failed to cut the incomplete end of {:?}: {}", last_segment.path, e);
-            }
-            state.next_seq = messages.back().map(|m| m.seq + 1).unwrap_or(last_segment.start_seq);
-            state.messages = messages;
-        }
-        state.segments = segments;
+    if !tokio::fs::try_exists(&base_path).await? { return Ok(state); }
+
+    let segments = find_segments(&base_path).await?;
+    state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
+    if let Some(last_segment) = segments.last() {
+        let (messages, valid_len) = load_segment_file(&last_segment.path).await?;
+        // A crash in the middle of a write leaves part of a record behind, and what is appended
+        // after it could not be read
+        truncate_file(&last_segment.path, valid_len).await?;
+        state.next_seq = messages.back().map(|m| m.seq + 1).unwrap_or(last_segment.start_seq);
+        state.messages = messages;
     }
+    state.segments = segments;
 
     let groups_path = base_path.join("groups.log");
-    if groups_path.exists() {
-        if let Ok(groups) = load_groups_file(&groups_path).await {
-            state.groups_data = groups;
-        }
+    if tokio::fs::try_exists(&groups_path).await? {
+        state.groups_data = load_groups_file(&groups_path).await?;
     }
-    state
+    Ok(state)
 }
 
 /// The segment new messages go to: the last one on disk, or the first of an empty log.
@@ -596,12 +598,12 @@ async fn find_active_segment(base_topic_path: &Path) -> std::io::Result<ActiveSe
 /// Find all segment files for a topic, sorted by start_seq.
 pub async fn find_segments(base_path: &Path) -> std::io::Result<Vec<Segment>> {
     let mut segments = Vec::new();
-    if !base_path.exists() { return Ok(segments); }
+    if !tokio::fs::try_exists(base_path).await? { return Ok(segments); }
 
     let mut entries = tokio::fs::read_dir(base_path).await?;
     while let Some(entry) = entries.next_entry().await? {
         let path = entry.path();
-        if !path.is_file() { continue; }
+        if !entry.file_type().await?.is_file() { continue; }
         let fname = entry.file_name().to_string_lossy().to_string();
         if fname.ends_with(".log") && fname != "groups.log" {
             let name_part = &fname[..fname.len() - 4];
@@ -655,28 +657,34 @@ async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer
     Ok(())
 }
 
+/// Fills `buf`. False when the file ends before that.
+async fn read_full<R: tokio::io::AsyncRead + std::marker::Unpin>(reader: &mut R, buf: &mut [u8]) -> std::io::Result<bool> {
+    match reader.read_exact(buf).await {
+        Ok(_) => Ok(true),
+        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(false),
+        Err(e) => Err(e),
+    }
+}
+
 /// Returns the messages of the segment and the length of the valid part of the file.
-async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, u64) {
+async fn load_segment_file(path: &PathBuf) -> std::io::Result<(VecDeque<Message>, u64)> {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
     let mut valid_len = 0u64;
-    let file = match File::open(path).await {
-        Ok(f) => f,
-        Err(_) => return (msgs, valid_len),
-    };
+    let file = File::open(path).await?;
 
     let mut reader = BufReader::new(file);
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut len_buf).await? { break; }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut crc_buf).await? { break; }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut content_buf).await? { break; }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
@@ -693,7 +701,7 @@ async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, u64) {
         msgs.push_back(Message { seq, timestamp, payload });
         valid_len += 8 + len as u64;
     }
-    (msgs, valid_len)
+    Ok((msgs, valid_len))
 }
 
 async fn truncate_file(path: &PathBuf, len: u64) -> std::io::Result<()> {
@@ -712,15 +720,15 @@ async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::i
 
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut len_buf).await? { break; }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut crc_buf).await? { break; }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        if !read_full(&mut reader, &mut content_buf).await? { break; }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 5a8f0d7..1efdf3e 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -125,8 +125,8 @@ impl StreamManager {
         }
 
         let base_path = PathBuf::from(&self.config.persistence_path).join(topic_dir_name(&name));
-        let existed_on_disk = tokio::fs::metadata(&base_path).await.map(|meta| meta.is_dir()).unwrap_or(false);
-        let topic_config = Self::load_topic_config(&base_path, options, &self.config).await;
+        let topic_config = Self::load_topic_config(&base_path, options, &self.config).await
+            .map_err(|e| format!("Failed to read topic config at {:?}: {}", base_path, e))?;
 
         info!("[StreamManager] Creating topic '{}'", name);
 
@@ -134,7 +134,9 @@ impl StreamManager {
             .map_err(|e| format!("Failed to create topic directory at {:?}: {}", base_path, e))?;
 
         let config_path = base_path.join("config.json");
-        if !existed_on_disk || !config_path.exists() {
+        let config_exists = tokio::fs::try_exists(&config_path).await
+            .map_err(|e| format!("Failed to read topic config at {:?}: {}", config_path, e))?;
+        if !config_exists {
             let data = serde_json::to_string_pretty(&topic_config).map_err(|e| e.to_string())?;
             if let Err(e) = tokio::fs::write(&config_path, data).await {
                 let _ = tokio::fs::remove_file(&config_path).await;
@@ -142,7 +144,8 @@ impl StreamManager {
             }
         }
 
-        let shared = Self::build_topic_shared(name.clone(), topic_config).await;
+        let shared = Self::build_topic_shared(name.clone(), topic_config).await
+            .map_err(|e| format!("Failed to read topic at {:?}: {}", base_path, e))?;
 
         self.topics.insert(name, shared);
         Ok(())
@@ -472,12 +475,12 @@ impl StreamManager {
         topics.iter().map(|entry| (entry.key().clone(), entry.value().clone())).collect()
     }
 
-    async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
+    async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> std::io::Result<TopicConfig> {
         let config_path = base_path.join("config.json");
-        if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
-            serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
-        } else {
-            TopicConfig::from_options(options, config)
+        match tokio::fs::read_to_string(&config_path).await {
+            Ok(data) => Ok(serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(TopicConfig::from_options(options, config)),
+            Err(e) => Err(e),
         }
     }
 
@@ -509,8 +512,17 @@ impl StreamManager {
             }
 
             let name = topic_name_of_dir(topic_name);
-            let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
-            let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
+            let restored = match Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await {
+                Ok(topic_config) => Self::build_topic_shared(name.clone(), topic_config).await,
+                Err(e) => Err(e),
+            };
+            let topic_ref = match restored {
+                Ok(topic_ref) => topic_ref,
+                Err(e) => {
+                    tracing::error!("[StreamManager] Topic '{}' not restored: {}", name, e);
+                    continue;
+                }
+            };
 
             use dashmap::mapref::entry::Entry;
             match self.topics.entry(name.clone()) {
@@ -523,13 +535,13 @@ impl StreamManager {
         }
     }
 
-    async fn build_topic_shared(name: String, config: TopicConfig) -> Arc<TopicShared> {
+    async fn build_topic_shared(name: String, config: TopicConfig) -> std::io::Result<Arc<TopicShared>> {
         let base_path = PathBuf::from(&config.persistence_path).join(topic_dir_name(&name));
         if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
             tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
         }
 
-        let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await;
+        let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await?;
         let state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.next_seq, recovered.messages);
 
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
@@ -542,7 +554,7 @@ impl StreamManager {
             );
         }
 
-        Arc::new(TopicShared {
+        Ok(Arc::new(TopicShared {
             inner: Mutex::new(TopicInner {
                 state,
                 groups,
@@ -553,7 +565,7 @@ impl StreamManager {
             }),
             notify: Notify::new(),
             persisted_seq,
-        })
+        }))
     }
 
     fn spawn_background_tasks(&self) {
-- 
2.43.0


From 7d1c0655c50a12469fbb388abde8d3a679cd6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 32/48] fix: a queue whose data or options cannot be read is
 not restored as an empty one

---
 src/brokers/queue/manager.rs | 50 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 3f9b192..87f1dbb 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -80,14 +80,9 @@ impl QueueManager {
                             if let Some(base_name) = filename.strip_suffix(".db") {
                                 let queue_name = from_file_name(base_name);
 
-                                let config_path = persistence_path.join(format!("{}.config.json", base_name));
-                                let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-                                    serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))
-                                } else {
-                                    QueueConfig::from_options(QueueCreateOptions::default(), &system_config)
-                                };
-
-                                match Self::build_queue(queue_name.clone(), config, &system_config) {
+                                let config = Self::load_config(&persistence_path, base_name, &system_config);
+
+                                match config.and_then(|config| Self::build_queue(queue_name.clone(), config, &system_config)) {
                                     Ok(shared) => {
                                         queues.insert(queue_name.clone(), shared);
                                         info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
@@ -109,6 +104,15 @@ impl QueueManager {
     // INTERNAL HELPERS
     // ==========================================
 
+    fn load_config(dir: &std::path::Path, base_name: &str, system_config: &SystemQueueConfig) -> Result<QueueConfig, String> {
+        let config_path = dir.join(format!("{}.config.json", base_name));
+        match std::fs::read_to_string(&config_path) {
+            Ok(data) => Ok(serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), system_config))),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(QueueConfig::from_options(QueueCreateOptions::default(), system_config)),
+            Err(e) => Err(format!("Failed to read queue config at {:?}: {}", config_path, e)),
+        }
+    }
+
     fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Result<Arc<QueueShared>, String> {
         let persistence_path = std::path::PathBuf::from(&system_config.persistence_path);
         let db_path = persistence_path.join(format!("{}.db", to_file_name(&name)));
@@ -121,26 +125,20 @@ impl QueueManager {
         let mut main_state = QueueState::new();
         let mut dlq_state = DlqState::new();
 
-        // Recovery
-        match store.recover() {
-            Ok((main_messages, dlq_messages)) => {
-                let main_count = main_messages.len();
-                let dlq_count = dlq_messages.len();
+        // Recovery. Without it the queue would be served as if it were empty.
+        let (main_messages, dlq_messages) = store.recover()?;
+        let main_count = main_messages.len();
+        let dlq_count = dlq_messages.len();
 
-                for msg in main_messages {
-                    main_state.push(msg);
-                }
-                for msg in dlq_messages {
-                    dlq_state.push(msg);
-                }
+        for msg in main_messages {
+            main_state.push(msg);
+        }
+        for msg in dlq_messages {
+            dlq_state.push(msg);
+        }
 
-                if main_count > 0 || dlq_count > 0 {
-                    info!("Queue '{}': Recovered {} main + {} DLQ messages from storage", name, main_count, dlq_count);
-                }
-            }
-            Err(e) => {
-                error!("Queue '{}': Persistence recovery failed: {}", name, e);
-            }
+        if main_count > 0 || dlq_count > 0 {
+            info!("Queue '{}': Recovered {} main + {} DLQ messages from storage", name, main_count, dlq_count);
         }
 
         Ok(Arc::new(QueueShared {
-- 
2.43.0


From 2b0556fdea5de78a2cfd2dd51e92a4d4c953285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 33/48] fix: a queue database that can only be read is not
 taken for a working one

---
 src/brokers/queue/domain/persistence.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index a257c6c..740bdae 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -264,6 +264,9 @@ fn init_db(conn: &Connection) -> Result<()> {
         [],
     )?;
 
+    // If a file cannot be opened for writing SQLite opens it for reading and says nothing until the first write
+    conn.execute("DELETE FROM queue WHERE FALSE", [])?;
+
     Ok(())
 }
 
-- 
2.43.0


From 299b5f25c77ef20c655f71bd9ce31d9305b4f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 34/48] fix: creating a queue that could not be restored keeps
 its options

---
 src/brokers/queue/manager.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 87f1dbb..c30ee46 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -245,14 +245,23 @@ impl QueueManager {
             return Ok(());
         }
 
-        let config = QueueConfig::from_options(options, &self.config);
-
-        // Persist config
         let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
-        let config_path = persistence_path.join(format!("{}.config.json", to_file_name(&name)));
-        let data = serde_json::to_string_pretty(&config).map_err(|e| e.to_string())?;
-        std::fs::write(&config_path, data)
-            .map_err(|e| format!("Failed to write queue config at {:?}: {}", config_path, e))?;
+        let base_name = to_file_name(&name);
+        let exists = persistence_path.join(format!("{}.db", base_name)).try_exists()
+            .map_err(|e| format!("Failed to look for the data of queue '{}': {}", name, e))?;
+
+        let config = if exists {
+            // A queue that could not be restored keeps its options
+            Self::load_config(&persistence_path, &base_name, &self.config)?
+        } else {
+            // Persist config
+            let config = QueueConfig::from_options(options, &self.config);
+            let config_path = persistence_path.join(format!("{}.config.json", base_name));
+            let data = serde_json::to_string_pretty(&config).map_err(|e| e.to_string())?;
+            std::fs::write(&config_path, data)
+                .map_err(|e| format!("Failed to write queue config at {:?}: {}", config_path, e))?;
+            config
+        };
 
         let shared = Self::build_queue(name.clone(), config, &self.config)?;
         self.queues.insert(name, shared);
-- 
2.43.0


From 88e0f786df8e53cb8e6df18c23785ffef72e83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 35/48] fix: a queue database that fails to open half-way keeps
 its write-ahead log

---
 src/brokers/queue/domain/persistence.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 740bdae..bd20144 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -3,7 +3,7 @@ use std::sync::Mutex;
 use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
-use rusqlite::{params, types::Type, Connection, ErrorCode, Result};
+use rusqlite::{config::DbConfig, params, types::Type, Connection, ErrorCode, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
@@ -67,8 +67,11 @@ impl QueueStore {
         // This prevents race conditions where recover() runs before Writer creates tables.
         let conn = Connection::open(&db_path)
             .map_err(|e| format!("Failed to open Queue DB at {:?}: {}", db_path, e))?;
-        init_db(&conn)
-            .map_err(|e| format!("Failed to initialize Queue DB at {:?}: {}", db_path, e))?;
+        // Closed after a failure half-way, SQLite could take the WAL for checkpointed and delete it
+        let init = conn.set_db_config(DbConfig::SQLITE_DBCONFIG_NO_CKPT_ON_CLOSE, true)
+            .and_then(|_| init_db(&conn))
+            .and_then(|_| conn.set_db_config(DbConfig::SQLITE_DBCONFIG_NO_CKPT_ON_CLOSE, false));
+        init.map_err(|e| format!("Failed to initialize Queue DB at {:?}: {}", db_path, e))?;
 
         let (tx, rx) = mpsc::unbounded_channel();
         
-- 
2.43.0


From e15189353f916c7cdb852f4353b3f510d6d56972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 36/48] fix: sdk: request numbers stay valid after the first
 two billion

---
 sdk/ts/src/connection.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index b6420af..eff4806 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -213,7 +213,7 @@ export class NexoConnection extends EventEmitter {
     options?: { timeoutMs?: number }
   ): Promise<{ status: ResponseStatus, cursor: Cursor }> {
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId + 1) >>> 0 || 1;
 
     this.writer.begin();
     if (build) build(this.writer);
@@ -259,7 +259,7 @@ export class NexoConnection extends EventEmitter {
     if (!this.isConnected) return;
 
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId + 1) >>> 0 || 1;
 
     this.writer.begin();
     if (build) build(this.writer);
-- 
2.43.0


From 6b86fc6f51a342a1a20e7f45bc6180153f1a03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 37/48] fix: sdk: disconnect() fails the calls that are still
 waiting

---
 sdk/ts/src/connection.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index eff4806..e6f8984 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -271,8 +271,9 @@ export class NexoConnection extends EventEmitter {
     this.shouldReconnect = false;
     this.isReconnecting = false;
     this.stopSweep();
+    this.isConnected = false;
+    this.pending.forEach(p => p.reject(new ConnectionClosedError()));
     this.pending.clear();
     this.socket.destroy();
-    this.isConnected = false;
   }
 }
-- 
2.43.0


From aed0437be9eaa6b148d2641096cd1e4af7d9b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 38/48] fix: sdk: request timeouts no longer depend on the wall
 clock

---
 sdk/ts/src/connection.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index e6f8984..291c731 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -54,7 +54,7 @@ export class NexoConnection extends EventEmitter {
   private startSweep() {
     if (this.sweepInterval) return;
     this.sweepInterval = setInterval(() => {
-      const now = Date.now();
+      const now = performance.now();
       for (const [id, req] of this.pending) {
         if (now > req.deadline) {
           this.pending.delete(id);
@@ -241,7 +241,7 @@ export class NexoConnection extends EventEmitter {
           resolve({ status: res.status, cursor: new Cursor(res.data) });
         },
         reject,
-        deadline: Date.now() + timeoutMs,
+        deadline: performance.now() + timeoutMs,
         timeoutMs
       });
 
-- 
2.43.0


From 86625a91433b47a80ac83f3e47d32b541f7ab2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 39/48] fix: sdk: a pushed payload that cannot be decoded no
 longer ends the process

---
 sdk/ts/src/connection.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 291c731..5e7d0a6 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -170,7 +170,11 @@ export class NexoConnection extends EventEmitter {
       const frame = this.buffer.subarray(0, totalFrameLen);
       this.buffer = this.buffer.subarray(totalFrameLen); // Advance buffer
 
-      this.handleFrame(frame);
+      try {
+        this.handleFrame(frame);
+      } catch (e) {
+        this.logger.error('[Connection] Ignoring a frame that cannot be decoded', e);
+      }
     }
   }
 
-- 
2.43.0


From a17e5ebd4d790ac6545fe5d54101143d02a0c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 40/48] fix: sdk: disconnect() during the pause before a
 reconnect ends the reconnecting

---
 sdk/ts/src/connection.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 5e7d0a6..99415f6 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -135,6 +135,7 @@ export class NexoConnection extends EventEmitter {
 
     while (this.shouldReconnect && !this.isConnected) {
       await new Promise(r => setTimeout(r, this.config.reconnectDelayMs));
+      if (!this.shouldReconnect) break;
 
       try {
         await this.createSocketAndConnect();
-- 
2.43.0


From e93661dbdfd061f02b51fa30e13da65f2c917b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 41/48] fix: sdk: a connect() that failed leaves nothing
 running

---
 sdk/ts/src/client.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/ts/src/client.ts b/sdk/ts/src/client.ts
index 58b840c..f525c03 100644
--- a/sdk/ts/src/client.ts
+++ b/sdk/ts/src/client.ts
@@ -42,7 +42,12 @@ export class NexoClient {
 
   static async connect(options: NexoOptions): Promise<NexoClient> {
     const client = new NexoClient(options);
-    await client.conn.connect();
+    try {
+      await client.conn.connect();
+    } catch (e) {
+      client.disconnect();
+      throw e;
+    }
     return client;
   }
 
-- 
2.43.0


From 5b279f3c7db2e178b3e6030b0d462b491b39cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 42/48] fix: sdk: two subscribe() calls at once no longer start
 two consumers of a queue

---
 sdk/ts/src/brokers/queue.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 326c6ea..4d02b70 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -231,13 +231,14 @@ export class NexoQueue<T = any> {
   async subscribe(callback: (data: T) => Promise<any> | any, options: QueueSubscribeOptions = {}): Promise<{ stop: () => void }> {
     if (this.isSubscribed) throw new Error(`Queue '${this.name}' already subscribed.`);
 
+    this.isSubscribed = true;
+
     // Fail Fast: Check existence first
     if (!(await this.exists())) {
+      this.isSubscribed = false;
       throw new Error(`Queue '${this.name}' not found`);
     }
 
-    this.isSubscribed = true;
-
     const batchSize = options.batchSize ?? DEFAULT_CONFIG.queue.batchSize;
     const waitMs = options.waitMs ?? DEFAULT_CONFIG.queue.waitMs;
     const concurrency = options.concurrency ?? DEFAULT_CONFIG.queue.concurrency;
-- 
2.43.0


From d7a02f2f2e93d32256eb23ef9a8171da60b2d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 43/48] fix: sdk: a queue message that cannot be decoded no
 longer takes its whole batch along

---
 sdk/ts/src/brokers/queue.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 4d02b70..74124c0 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -61,8 +61,11 @@ const QueueCommands = {
       const idHex = res.cursor.readUUID();
       const payloadLen = res.cursor.readU32();
       const payloadBuf = res.cursor.readBuffer(payloadLen);
-      const data = new Cursor(payloadBuf).decodeAny();
-      messages.push({ id: idHex, data });
+      try {
+        messages.push({ id: idHex, data: new Cursor(payloadBuf).decodeAny() });
+      } catch (e: any) {
+        QueueCommands.nack(conn, name, idHex, `Undecodable payload: ${e.message}`);
+      }
     }
     return messages;
   },
@@ -93,7 +96,8 @@ const QueueCommands = {
       const idHex = res.cursor.readUUID();
       const payloadLen = res.cursor.readU32();
       const payloadBuf = res.cursor.readBuffer(payloadLen);
-      const data = new Cursor(payloadBuf).decodeAny();
+      let data: any = payloadBuf;
+      try { data = new Cursor(payloadBuf).decodeAny(); } catch { /* what cannot be decoded is shown as it is */ }
       const attempts = res.cursor.readU32();
       const failureReason = res.cursor.readString();
       items.push({ id: idHex, data, attempts, failureReason });
-- 
2.43.0


From 39423d902474903df2227ecb0d91cac300112de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 44/48] fix: sdk: a stream event that cannot be decoded no
 longer takes its whole batch along

---
 sdk/ts/src/brokers/stream.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 7c7f9b8..3b6621d 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -145,7 +145,11 @@ class StreamSubscription<T> {
       res.cursor.readU64(); // skip timestamp
       const payloadLen = res.cursor.readU32();
       const payloadBuf = res.cursor.readBuffer(payloadLen);
-      batch.push({ seq, data: new Cursor(payloadBuf).decodeAny() as T });
+      try {
+        batch.push({ seq, data: new Cursor(payloadBuf).decodeAny() as T });
+      } catch (err) {
+        this.logger.error(`[${this.streamName}:${this.group}] Undecodable payload at seq=${seq}`, err);
+      }
     }
 
     await runConcurrent(batch, this.concurrency, async ({ seq, data }) => {
-- 
2.43.0


From 63da3c95e3ee702d78701c64cc9bb1a654096910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 45/48] fix: sdk: a failed fetch keeps the membership instead
 of joining once more beside it

---
 sdk/ts/src/brokers/stream.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 3b6621d..9687b3d 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -108,11 +108,14 @@ class StreamSubscription<T> {
         await this.pollOnce();
       } catch (e: any) {
         if (!this.active) break;
-        this.consumerId = null;
 
-        if (isRecoverableMembershipError(e)) continue;
+        if (isRecoverableMembershipError(e)) {
+          this.consumerId = null;
+          continue;
+        }
 
         if (!this.conn.isConnected || e instanceof ConnectionClosedError || e.code === 'ECONNRESET') {
+          this.consumerId = null;
           await sleep(DEFAULT_CONFIG.connection.backoff.short);
           continue;
         }
-- 
2.43.0


From 53a8c8effd3b6fc1def650f62795cd2287b176fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 46/48] fix: sdk: stop() while a stream consumer joins again no
 longer leaves a member behind

---
 sdk/ts/src/brokers/stream.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 9687b3d..6816154 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -77,17 +77,25 @@ class StreamSubscription<T> {
 
   async stop(): Promise<void> {
     this.active = false;
-    if (this.consumerId !== null) {
+    await this.leave();
+    await this.loopDone;
+    // The loop may have joined again meanwhile
+    await this.leave();
+  }
+
+  private async leave(): Promise<void> {
+    const consumerId = this.consumerId;
+    this.consumerId = null;
+    if (consumerId !== null) {
       try {
         await this.conn.send(StreamOpcode.S_LEAVE, w => w
           .string(this.streamName)
           .string(this.group)
-          .string(this.consumerId!)
+          .string(consumerId)
           .u64(this.generation)
         );
       } catch { /* connection may already be closed */ }
     }
-    await this.loopDone;
   }
 
   private async join(): Promise<void> {
@@ -105,7 +113,7 @@ class StreamSubscription<T> {
     while (this.active) {
       try {
         if (this.consumerId === null) await this.join();
-        await this.pollOnce();
+        if (this.active) await this.pollOnce();
       } catch (e: any) {
         if (!this.active) break;
 
-- 
2.43.0


From a8c34c790f26b057fe60a6475e78d5425f7cbd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 47/48] fix: sdk: consumers end with disconnect() instead of
 polling for a connection for ever

---
 sdk/ts/src/brokers/queue.ts  | 2 +-
 sdk/ts/src/brokers/stream.ts | 2 +-
 sdk/ts/src/connection.ts     | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 74124c0..c1c406b 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -250,7 +250,7 @@ export class NexoQueue<T = any> {
     let active = true;
 
     const loop = async () => {
-      while (active) {
+      while (active && !this.conn.isClosed) {
         if (!this.conn.isConnected) {
           await new Promise(r => setTimeout(r, DEFAULT_CONFIG.connection.backoff.short));
           continue;
diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 6816154..6f38e9a 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -110,7 +110,7 @@ class StreamSubscription<T> {
   }
 
   private async loop(): Promise<void> {
-    while (this.active) {
+    while (this.active && !this.conn.isClosed) {
       try {
         if (this.consumerId === null) await this.join();
         if (this.active) await this.pollOnce();
diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 99415f6..78c3852 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -45,6 +45,11 @@ export class NexoConnection extends EventEmitter {
     this.socket = new net.Socket();
   }
 
+  /** disconnect() was called: the connection will not come back. */
+  get isClosed(): boolean {
+    return !this.shouldReconnect;
+  }
+
   async connect(): Promise<void> {
     this.shouldReconnect = true;
     this.startSweep();
-- 
2.43.0


From 22fc920499cde4b65c21a0f12eb655d9d3f06d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 48/48] fix: sdk: a subscribe or unsubscribe call ends only the
 subscription it is about

---
 sdk/ts/src/brokers/pubsub.ts | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sdk/ts/src/brokers/pubsub.ts b/sdk/ts/src/brokers/pubsub.ts
index 5155207..3061b27 100644
--- a/sdk/ts/src/brokers/pubsub.ts
+++ b/sdk/ts/src/brokers/pubsub.ts
@@ -36,7 +36,7 @@ export class NexoTopic<T = any> {
 type Handler = (data: any) => void;
 
 export class NexoPubSub {
-  private exact = new Map<string, Handler>();
+  private exact = new Map<string, { cb: Handler }>();
   private wild = new Map<string, { parts: string[], cb: Handler }>();
 
   constructor(private conn: NexoConnection, private logger: Logger) {
@@ -70,14 +70,14 @@ export class NexoPubSub {
     if (isWild) {
       this.wild.set(topic, { parts: topic.split('/'), cb: callback });
     } else {
-      this.exact.set(topic, callback);
+      this.exact.set(topic, { cb: callback });
     }
+    const entry = this.entry(topic);
 
     try {
       await PubSubCommands.subscribe(this.conn, topic);
     } catch (e) {
-      if (isWild) this.wild.delete(topic);
-      else this.exact.delete(topic);
+      this.remove(topic, entry);
       throw e;
     }
   }
@@ -85,15 +85,26 @@ export class NexoPubSub {
   async unsubscribe(topic: string): Promise<void> {
     if (!this.exact.has(topic) && !this.wild.has(topic)) return;
 
+    const entry = this.entry(topic);
     await PubSubCommands.unsubscribe(this.conn, topic);
+    this.remove(topic, entry);
+  }
+
+  private entry(topic: string) {
+    return this.exact.get(topic) ?? this.wild.get(topic);
+  }
+
+  // A call that ends late must not take away what was subscribed since.
+  private remove(topic: string, entry: unknown) {
+    if (this.entry(topic) !== entry) return;
     this.exact.delete(topic);
     this.wild.delete(topic);
   }
 
   private dispatch(topic: string, data: any) {
-    const exactCb = this.exact.get(topic);
-    if (exactCb) {
-      try { exactCb(data); } catch (e) { this.logger.error('[PubSub] handler error', e); }
+    const exact = this.exact.get(topic);
+    if (exact) {
+      try { exact.cb(data); } catch (e) { this.logger.error('[PubSub] handler error', e); }
     }
 
     if (this.wild.size === 0) return;
-- 
2.43.0

