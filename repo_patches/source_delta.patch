From d5c424858cec4887706e6dfc112c73525659500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 01/13] fix: remove deleted properties from the in-memory index
 in release builds

The removal from the secondary index happened inside debug_assert!, so it was
compiled out whenever debug assertions are off and index queries kept
returning vertices and edges whose property was gone.
---
 lib/src/memory/datastore.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..0de706f 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -263,10 +263,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    }
                 }
             }
         }
@@ -278,10 +277,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Edge(property_edge));
+                    }
                 }
             }
         }
-- 
2.43.0


From 1f8f724ab4d12f4d70096a018c3a208444b0ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 02/13] fix: list the properties of the vertex with the
 greatest id without panicking

The upper bound of the scan was the successor of the vertex id, which does
not exist for the all-ones UUID.
---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 0de706f..84935fa 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From 8743260eaccdbb39a9a7c5da7db3e3b280e08a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 03/13] fix: delete the inbound edges of a deleted vertex in
 the RocksDB datastore

The rows of the reversed adjacency table were passed to EdgeManager::delete
without turning them back, so the edges pointing at a deleted vertex, and
their properties, stayed behind.
---
 lib/src/rdb/managers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..5f460c5 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -118,7 +118,7 @@ impl<'a> VertexManager<'a> {
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                 let edge = item?;
                 debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
             }
         }
 
-- 
2.43.0


From 0d57ffcfe42739abef1c3295f411177c089911c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 04/13] fix: compact and flush the reversed edges when a
 RocksDB datastore syncs

The forward edge ranges were compacted twice and the reversed ones never.
---
 lib/src/rdb/datastore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..b3a59ad 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -245,7 +245,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     fn sync(&self) -> Result<()> {
         self.vertex_manager.compact();
         self.edge_range_manager.compact();
-        self.edge_range_manager.compact();
+        self.reversed_edge_range_manager.compact();
         self.vertex_property_manager.compact();
         self.edge_property_manager.compact();
         self.vertex_property_value_manager.compact();
-- 
2.43.0


From accdfd35cc7847573a6cb9ba542e73f7d86ce9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 05/13] fix: delete edges whose outbound vertex does not exist
 from RocksDB

Such edges can be created by a bulk insert and are returned by queries, but
deleting them silently did nothing.
---
 lib/src/rdb/datastore.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index b3a59ad..a96c777 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -207,9 +207,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let mut batch = WriteBatch::default();
 
         for edge in edges.into_iter() {
-            if self.vertex_manager.get(edge.outbound_id)?.is_some() {
-                self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
-            };
+            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
         }
 
         self.db.write(batch)?;
-- 
2.43.0


From 588c80e630e2f9449930bcb70e0446f46d80e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 06/13] fix: register a RocksDB property index only after it is
 written

When building or writing the index failed, the in-memory set already claimed
the property was indexed: queries then returned nothing instead of
NotIndexed, and indexing it again was a no-op.
---
 lib/src/rdb/datastore.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index a96c777..a1f8088 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -306,13 +306,18 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+        if indexed_properties.contains(&name) {
             return Ok(());
         }
 
+        // Only registered once the index is written, so that a failure does
+        // not leave behind a property that merely claims to be indexed.
+        let mut new_indexed_properties = indexed_properties.clone();
+        new_indexed_properties.insert(name);
+
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
         for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
             let vertex = item?;
@@ -331,6 +336,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+        *indexed_properties = new_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From 49a5f158a46b5b06ff92d5fd2b5856974ad23ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 07/13] fix: validate identifiers when they are deserialized

Deserialize built identifiers without any check, so safe code could obtain
identifiers that are too long or have invalid characters.
---
 lib/src/models/identifiers.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..6d55e34 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -96,8 +96,7 @@ impl<'de> Deserialize<'de> for Identifier {
         D: Deserializer<'de>,
     {
         let v: String = Deserialize::deserialize(deserializer)?;
-        let id = unsafe { Identifier::new_unchecked(v) };
-        Ok(id)
+        Identifier::new(v).map_err(serde::de::Error::custom)
     }
 }
 
-- 
2.43.0


From e6eee95d93b2e6b992af078b13c30acc68523508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 08/13] fix: never replace a persisted image by one that was
 not fully written

sync renamed the new image over the old one without checking that the
buffered tail was written and without syncing it to disk, so a full disk or
a crash could leave a truncated image with sync having returned Ok.
---
 lib/src/memory/datastore.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 84935fa..69f420b 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
@@ -293,7 +293,13 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                // dropping the writer would ignore a failure to write the rest
+                buf.flush().map_err(|err| Error::Datastore(Box::new(err)))?;
             }
+            temp_path
+                .as_file()
+                .sync_all()
+                .map_err(|err| Error::Datastore(Box::new(err)))?;
             temp_path
                 .persist(persist_path)
                 .map_err(|err| Error::Datastore(Box::new(err)))?;
-- 
2.43.0


From 186b4e8ea757db8b0028014eec6f432d260ded39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 09/13] fix: write the temporary image next to the image it
 replaces

The temporary file was made in the system's temporary directory; renaming it
over the image fails when that is another filesystem.
---
 lib/src/memory/datastore.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 69f420b..776603e 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,7 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Write};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
@@ -289,7 +289,12 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn sync(&self) -> Result<()> {
         if let Some(ref persist_path) = self.path {
-            let temp_path = NamedTempFile::new().map_err(|err| Error::Datastore(Box::new(err)))?;
+            // The rename only works, and only is atomic, within one filesystem.
+            let dir = match persist_path.parent() {
+                Some(dir) if !dir.as_os_str().is_empty() => dir,
+                _ => Path::new("."),
+            };
+            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
-- 
2.43.0


From 5316c7fddc82219e1a03e339536c1e317ad60e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 10/13] fix: report a panicking map operation of a plugin as an
 error

The thread pool swallows panics, so map returned Ok although the operation
did not complete for every vertex.
---
 plugins/host/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/host/src/util.rs b/plugins/host/src/util.rs
index 7898486..c6e8efb 100644
--- a/plugins/host/src/util.rs
+++ b/plugins/host/src/util.rs
@@ -63,6 +63,8 @@ pub fn map<'a, M: VertexMapper>(txn: &(dyn indradb::Transaction<'a> + 'a), mappe
     let mut first_err = first_err.lock().unwrap();
     if first_err.is_some() {
         Err(first_err.take().unwrap())
+    } else if pool.panic_count() > 0 {
+        Err(Error::Other("the map operation panicked".into()))
     } else {
         Ok(())
     }
-- 
2.43.0


From d4b938e0c045173c9267b3ed16ba1eae8062c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 11/13] fix: run plugins on a blocking thread

execute_plugin took a datastore transaction and ran the plugin directly on
the async runtime, stalling every other request of that worker (and the
whole server on a single-threaded runtime).
---
 proto/src/server.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index fdd0451..ee5c944 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -295,20 +295,23 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             indradb::Json::new(serde_json::Value::Null)
         };
 
-        if let Some(plugin) = self.plugins.entries.get(&request.name) {
-            let db = self.db.clone();
-            let mut txn = db.datastore.transaction();
-            let response = {
+        let db = self.db.clone();
+        let plugins = self.plugins.clone();
+        let response = tokio::task::spawn_blocking(move || {
+            if let Some(plugin) = plugins.entries.get(&request.name) {
+                let mut txn = db.datastore.transaction();
                 plugin
                     .call(&mut txn, arg)
-                    .map_err(|err| Status::internal(format!("{err}")))?
-            };
-            Ok(Response::new(crate::ExecutePluginResponse {
-                value: Some(response.into()),
-            }))
-        } else {
-            Err(Status::not_found("unknown plugin"))
-        }
+                    .map_err(|err| Status::internal(format!("{err}")))
+            } else {
+                Err(Status::not_found("unknown plugin"))
+            }
+        })
+        .await
+        .map_err(|err| Status::internal(format!("{err}")))??;
+        Ok(Response::new(crate::ExecutePluginResponse {
+            value: Some(response.into()),
+        }))
     }
 }
 
-- 
2.43.0


From b3f92f2ef83b2586ab06512e0a54f3b88c58a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 12/13] fix: fail the get stream when the query panics

The handle of the blocking task was dropped, so a panic while querying ended
the stream as if the query had completed with the results sent so far.
---
 proto/src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index ee5c944..926847b 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -232,7 +232,8 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
         let db = self.db.clone();
         let q: indradb::Query = map_conversion_result(request.into_inner().try_into())?;
         let (tx, rx) = mpsc::channel(CHANNEL_CAPACITY);
-        tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
+        let panic_tx = tx.clone();
+        let handle = tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
             Ok(output) => {
                 for output in output.into_iter() {
                     send(&tx, Ok(output.into()));
@@ -240,6 +241,12 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             }
             Err(err) => send(&tx, Err(err)),
         });
+        tokio::task::spawn(async move {
+            // Without this, a panic would look like a stream that just ended.
+            if let Err(err) = handle.await {
+                let _ = panic_tx.send(Err(Status::internal(format!("{err}")))).await;
+            }
+        });
 
         Ok(Response::new(Box::pin(ReceiverStream::new(rx))))
     }
-- 
2.43.0


From d24afee1fc79f4747c63ffce13aafdce93340236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 13/13] fix: only return existing edges from edge property
 queries

A bulk insert can set properties of edges that do not exist; the queries for
edges by an indexed property returned those edges, unlike the queries for
vertices.
---
 lib/src/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/database.rs b/lib/src/database.rs
index 3c622fc..1558a8f 100644
--- a/lib/src/database.rs
+++ b/lib/src/database.rs
@@ -565,6 +565,7 @@ unsafe fn query<'a, T: Transaction<'a> + 'a>(
         }
         Query::EdgeWithPropertyPresence(ref q) => {
             if let Some(iter) = (*txn).edges_with_property(q.name)? {
+                let iter = (*txn).specific_edges(iter.collect::<Result<Vec<Edge>>>()?)?;
                 QueryOutputValue::Edges(iter.collect::<Result<Vec<Edge>>>()?)
             } else {
                 return Err(Error::NotIndexed);
@@ -572,6 +573,7 @@ unsafe fn query<'a, T: Transaction<'a> + 'a>(
         }
         Query::EdgeWithPropertyValue(ref q) => {
             if let Some(iter) = (*txn).edges_with_property_value(q.name, &q.value)? {
+                let iter = (*txn).specific_edges(iter.collect::<Result<Vec<Edge>>>()?)?;
                 QueryOutputValue::Edges(iter.collect::<Result<Vec<Edge>>>()?)
             } else {
                 return Err(Error::NotIndexed);
-- 
2.43.0

