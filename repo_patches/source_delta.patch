From 2d3d9150916411f8c157ae1b6dd6c51f7905d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 01/17] fix: memory: remove index entries of deleted properties
 in release builds

The removal was an argument of debug_assert!, so builds without debug
assertions kept stale index entries: deleted or overwritten properties were
still found by indexed queries.
---
 lib/src/memory/datastore.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..0de706f 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -263,10 +263,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    }
                 }
             }
         }
@@ -278,10 +277,9 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
-                        .get_mut(&property_value)
-                        .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                    if let Some(members) = property_container.get_mut(&property_value) {
+                        members.remove(&IndexedPropertyMember::Edge(property_edge));
+                    }
                 }
             }
         }
-- 
2.43.0


From 45a974d30ff020d5a7b9c3a29197bf27dad369a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 02/17] fix: memory: do not panic on properties of the vertex
 with the largest id

---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 0de706f..84935fa 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From 7b4751cc951d4e104b295e3aaea40ebbdc8f32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 03/17] fix: rocksdb: delete inbound edges along with a vertex

The loop over the reversed edge ranges passed the reversed edge on as if it
were the edge itself, so edges into a deleted vertex, their properties and
index entries stayed behind.
---
 lib/src/rdb/managers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..5f460c5 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -118,7 +118,7 @@ impl<'a> VertexManager<'a> {
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                 let edge = item?;
                 debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
             }
         }
 
-- 
2.43.0


From 637b1f522890d27840f4a7eefe3b97ba25f23131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 04/17] fix: rocksdb: bulk insertion keeps the type of an
 existing vertex

Creating a vertex with a taken id is a no-op, both through create_vertex and
in bulk insertions into the memory datastore; RocksDB bulk insertions
overwrote the vertex's type instead.
---
 lib/src/rdb/datastore.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..9dc0275 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -283,10 +283,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // As with `create_vertex`, a vertex that already exists keeps its
+        // type. The batch isn't readable yet, so keep track of what's in it.
+        let mut batch_vertex_ids = HashSet::<Uuid>::default();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
-                    self.vertex_manager.create(&mut batch, vertex)?;
+                    if batch_vertex_ids.insert(vertex.id) && !self.vertex_manager.exists(vertex.id)? {
+                        self.vertex_manager.create(&mut batch, vertex)?;
+                    }
                 }
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
-- 
2.43.0


From 66a0f3e026a1c0059d0477ef5699b430bf928043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 05/17] fix: rocksdb: no stale index entries when a bulk
 insertion repeats a property

---
 lib/src/rdb/datastore.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 9dc0275..16d6247 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -287,6 +287,11 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         // type. The batch isn't readable yet, so keep track of what's in it.
         let mut batch_vertex_ids = HashSet::<Uuid>::default();
 
+        // If a property is set several times, only its last value counts.
+        // Writing all of them would leave index entries for the earlier ones.
+        let mut vertex_properties = HashMap::<(Uuid, Identifier), Json>::default();
+        let mut edge_properties = HashMap::<(Edge, Identifier), Json>::default();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -297,17 +302,24 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
-                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
-                    self.vertex_property_manager
-                        .set(&mut batch, &indexed_properties, id, *name, value)?;
+                BulkInsertItem::VertexProperty(id, name, value) => {
+                    vertex_properties.insert((id, name), value);
                 }
-                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
-                    self.edge_property_manager
-                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
+                BulkInsertItem::EdgeProperty(edge, name, value) => {
+                    edge_properties.insert((edge, name), value);
                 }
             }
         }
 
+        for ((id, name), value) in vertex_properties.iter() {
+            self.vertex_property_manager
+                .set(&mut batch, &indexed_properties, *id, *name, value)?;
+        }
+        for ((edge, name), value) in edge_properties.iter() {
+            self.edge_property_manager
+                .set(&mut batch, &indexed_properties, edge, *name, value)?;
+        }
+
         self.db.write(batch)?;
         Ok(())
     }
-- 
2.43.0


From b278f96f4da7653a3f3ab44b116105608fe40080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 06/17] fix: rocksdb: value queries do not return elements with
 another value

The value index is keyed by a hash of the value, and e.g. [[1], 2] and
[[1, 2]] share theirs. Compare with the stored value as well.
---
 lib/src/rdb/datastore.rs | 23 ++++++++++++++++++++---
 lib/src/rdb/managers.rs  | 12 ++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 16d6247..626b703 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -90,6 +90,17 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         if self.indexed_properties.read().unwrap().contains(&name) {
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+
+            // Values are indexed by their hash, which other values may share
+            let value_json = serde_json::to_vec(value)?;
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value_json) {
+                    Ok(true) => Some(Ok(id)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -149,12 +160,18 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            // Values are indexed by their hash, which other values may share
+            let value_json = serde_json::to_vec(value)?;
             let iter = self
                 .edge_property_value_manager
                 .iterate_for_value(name, value)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
+                .filter_map(move |r| match r {
+                    Ok((_, _, e)) => match self.edge_property_manager.has_value(&e, name, &value_json) {
+                        Ok(true) => Some(Ok(e)),
+                        Ok(false) => None,
+                        Err(err) => Some(Err(err)),
+                    },
+                    Err(err) => Some(Err(err)),
                 });
             Ok(Some(Box::new(iter)))
         } else {
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 5f460c5..2280889 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -340,6 +340,12 @@ impl<'a> VertexPropertyManager<'a> {
         }
     }
 
+    /// Whether the property holds the value with the given serialization.
+    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let stored = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
+        Ok(stored.as_deref() == Some(value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
@@ -454,6 +460,12 @@ impl<'a> EdgePropertyManager<'a> {
         }
     }
 
+    /// Whether the property holds the value with the given serialization.
+    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let stored = self.db.get_cf(&self.cf, self.key(edge, name))?;
+        Ok(stored.as_deref() == Some(value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
-- 
2.43.0


From f768782ff5db0860577bc006e8594b19e3c17d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 07/17] fix: exact comparison of JSON numbers, consistent with
 their hashes

Integers were compared with floats after a lossy conversion, so equality was
not transitive, and equal values (3 and 3.0, 0.0 and -0.0) had different
hashes, so that hash maps keyed by values gave arbitrary results.
---
 lib/src/models/json.rs | 64 ++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/lib/src/models/json.rs b/lib/src/models/json.rs
index 4e35657..f8868ef 100644
--- a/lib/src/models/json.rs
+++ b/lib/src/models/json.rs
@@ -1,5 +1,4 @@
 use std::cmp::Ordering;
-use std::convert::TryFrom;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
@@ -56,46 +55,37 @@ fn hash<H: Hasher>(value: &serde_json::Value, state: &mut H) {
     }
 }
 
+/// Compares numbers exactly, i.e. without losing precision by converting large
+/// integers to floats. As integers and floats are stored and hashed
+/// differently, an integer is not equal to a float: if they have the same
+/// numeric value, the float is the greater one. Likewise, -0.0 is less than
+/// 0.0.
+fn cmp_numbers(first: &serde_json::Number, second: &serde_json::Number) -> Ordering {
+    match (as_i128(first), as_i128(second)) {
+        (Some(v1), Some(v2)) => v1.cmp(&v2),
+        (Some(v1), None) => cmp_int_to_float(v1, second.as_f64().unwrap()),
+        (None, Some(v2)) => cmp_int_to_float(v2, first.as_f64().unwrap()).reverse(),
+        (None, None) => first.as_f64().unwrap().total_cmp(&second.as_f64().unwrap()),
+    }
+}
+
+fn as_i128(value: &serde_json::Number) -> Option<i128> {
+    match value.as_i64() {
+        Some(v) => Some(v.into()),
+        None => value.as_u64().map(i128::from),
+    }
+}
+
+fn cmp_int_to_float(int: i128, float: f64) -> Ordering {
+    // The conversion to `i128` saturates, which is fine as integers are 64-bit
+    int.cmp(&(float.floor() as i128)).then(Ordering::Less)
+}
+
 fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<Ordering> {
     match (first, second) {
         (serde_json::Value::Null, serde_json::Value::Null) => Some(Ordering::Equal),
         (serde_json::Value::Bool(v1), serde_json::Value::Bool(v2)) => v1.partial_cmp(v2),
-        (serde_json::Value::Number(v1), serde_json::Value::Number(v2)) => {
-            if v1.is_i64() {
-                let v1 = v1.as_i64().unwrap();
-                if v2.is_i64() {
-                    v1.partial_cmp(&v2.as_i64().unwrap())
-                } else if v2.is_u64() {
-                    match i64::try_from(v2.as_u64().unwrap()) {
-                        Ok(v2) => v1.partial_cmp(&v2),
-                        Err(_) => Some(Ordering::Less),
-                    }
-                } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
-                }
-            } else if v1.is_u64() {
-                let v1 = v1.as_u64().unwrap();
-                if v2.is_i64() {
-                    match u64::try_from(v2.as_i64().unwrap()) {
-                        Ok(v2) => v1.partial_cmp(&v2),
-                        Err(_) => Some(Ordering::Greater),
-                    }
-                } else if v2.is_u64() {
-                    v1.partial_cmp(&v2.as_u64().unwrap())
-                } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
-                }
-            } else {
-                let v1 = v1.as_f64().unwrap();
-                if v2.is_i64() {
-                    v1.partial_cmp(&(v2.as_i64().unwrap() as f64))
-                } else if v2.is_u64() {
-                    v1.partial_cmp(&(v2.as_u64().unwrap() as f64))
-                } else {
-                    v1.partial_cmp(&v2.as_f64().unwrap())
-                }
-            }
-        }
+        (serde_json::Value::Number(v1), serde_json::Value::Number(v2)) => Some(cmp_numbers(v1, v2)),
         (serde_json::Value::String(v1), serde_json::Value::String(v2)) => v1.partial_cmp(v2),
         (serde_json::Value::Array(v1), serde_json::Value::Array(v2)) => {
             partial_cmp_by(v1.iter(), v2.iter(), partial_cmp)
-- 
2.43.0


From 38b794ffccd3b0a0682951db5cb8781ef9f8540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 08/17] fix: memory: report write errors at the end of a sync

Errors of the last write were swallowed on dropping the buffer, and the
incomplete file then replaced the previous image.
---
 lib/src/memory/datastore.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 84935fa..aad27d7 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
@@ -293,6 +293,8 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                // Dropping the buffer would swallow errors
+                buf.flush()?;
             }
             temp_path
                 .persist(persist_path)
-- 
2.43.0


From 1222274cc680263c526061e699e6a64333cf3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 09/17] fix: memory: sync to an image on another file system
 than the temporary directory

---
 lib/src/memory/datastore.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index aad27d7..981c3c5 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,7 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Write};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
@@ -289,7 +289,13 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn sync(&self) -> Result<()> {
         if let Some(ref persist_path) = self.path {
-            let temp_path = NamedTempFile::new().map_err(|err| Error::Datastore(Box::new(err)))?;
+            // Renames only work within a file system, so the temporary file must
+            // be next to the image
+            let dir = match persist_path.parent() {
+                Some(dir) if !dir.as_os_str().is_empty() => dir,
+                _ => Path::new("."),
+            };
+            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
-- 
2.43.0


From a2435d65ef626f843c9411735bd2bb6ef51c08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 10/17] fix: rocksdb: open a database whose creation was
 interrupted

If the process ended after the database had been created, but before all of
its column families were, it could not be opened any more.
---
 lib/src/rdb/datastore.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 626b703..dfe2d6a 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -413,10 +413,15 @@ impl RocksdbDatastore {
         let db = match DB::open_cf(&opts, path, CF_NAMES) {
             Ok(db) => db,
             Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
+                // Either there's no database yet, or its creation was
+                // interrupted
+                let existing = DB::list_cf(&opts, path).unwrap_or_default();
+                let mut db = DB::open_cf(&opts, path, &existing)?;
+
+                for cf_name in CF_NAMES {
+                    if !existing.iter().any(|name| name == cf_name) {
+                        db.create_cf(cf_name, &opts)?;
+                    }
                 }
 
                 db
@@ -443,10 +448,15 @@ impl RocksdbDatastore {
         let db = match DB::open_cf(opts, path, CF_NAMES) {
             Ok(db) => db,
             Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
+                // Either there's no database yet, or its creation was
+                // interrupted
+                let existing = DB::list_cf(opts, path).unwrap_or_default();
+                let mut db = DB::open_cf(opts, path, &existing)?;
+
+                for cf_name in CF_NAMES {
+                    if !existing.iter().any(|name| name == cf_name) {
+                        db.create_cf(cf_name, opts)?;
+                    }
                 }
 
                 db
-- 
2.43.0


From 83887bb168b2b2c3a65a5d52c6ff052ed62bf352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 11/17] fix: rocksdb: repair keeps what is only in the log

RocksDB's repair ignores logged writes to column families that have no table
file yet, so repairing a small database that was closed normally lost all of
its data.
---
 lib/src/rdb/datastore.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index dfe2d6a..a996c72 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -6,7 +6,7 @@ use super::managers::*;
 use crate::errors::Result;
 use crate::{BulkInsertItem, Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
-use rocksdb::{DBCompactionStyle, Options, WriteBatch, DB};
+use rocksdb::{DBCompactionStyle, DBRecoveryMode, Options, WriteBatch, DB};
 use uuid::Uuid;
 
 const CF_NAMES: [&str; 8] = [
@@ -478,6 +478,23 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The rocksdb options used on datastore.
     pub fn repair<P: AsRef<Path>>(path: P, opts: &Options) -> Result<()> {
+        let path = path.as_ref();
+
+        // RocksDB's repair drops the logged writes of column families that
+        // don't have a table file yet. If the database can still be opened,
+        // write what's in its log to table files first.
+        let mut open_opts = opts.clone();
+        open_opts.set_wal_recovery_mode(DBRecoveryMode::TolerateCorruptedTailRecords);
+        if let Ok(cf_names) = DB::list_cf(&open_opts, path) {
+            if let Ok(db) = DB::open_cf(&open_opts, path, &cf_names) {
+                for cf_name in &cf_names {
+                    if let Some(cf) = db.cf_handle(cf_name) {
+                        db.flush_cf(cf)?;
+                    }
+                }
+            }
+        }
+
         DB::repair(opts, path)?;
         Ok(())
     }
-- 
2.43.0


From d1ea94c4bc5a77b71bedb19032465303ad159eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 12/17] fix: don't treat a property as indexed when writing its
 RocksDB index failed

---
 lib/src/rdb/datastore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index a996c72..0d441fd 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -343,13 +343,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+
+        // The property only counts as indexed once its index is written
+        let mut updated_indexed_properties = indexed_properties.clone();
+        if !updated_indexed_properties.insert(name) {
             return Ok(());
         }
 
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &updated_indexed_properties)?;
 
         for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
             let vertex = item?;
@@ -368,6 +371,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+        *indexed_properties = updated_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From c79a3ad0f613ceb25942b75992816da36543e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 13/17] fix: RocksDB writes no longer interfere with each other
 when concurrent

---
 lib/src/rdb/datastore.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 0d441fd..5548e3c 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError, RwLock};
 
 use super::managers::*;
 use crate::errors::Result;
@@ -23,6 +23,7 @@ const CF_NAMES: [&str; 8] = [
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: Arc<Mutex<()>>,
     vertex_manager: VertexManager<'a>,
     edge_manager: EdgeManager<'a>,
     edge_range_manager: EdgeRangeManager<'a>,
@@ -35,6 +36,13 @@ pub struct RocksdbTransaction<'a> {
 }
 
 impl<'a> RocksdbTransaction<'a> {
+    /// Writes depend on what they read (e.g. whether a vertex exists, which
+    /// edges it has, or the value that's indexed), so only one may be in
+    /// progress at a time.
+    fn lock_for_write(&self) -> MutexGuard<'_, ()> {
+        self.write_lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     fn vertex_ids_from_property_value_iterator(
         &'a self,
         iter: impl Iterator<Item = Result<VertexPropertyValueKey>> + 'a,
@@ -208,6 +216,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -220,6 +229,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -234,6 +244,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -247,6 +258,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -273,6 +285,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
+        let _write_guard = self.lock_for_write();
         if self.vertex_manager.exists(vertex.id)? {
             Ok(false)
         } else {
@@ -284,6 +297,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
+        let _write_guard = self.lock_for_write();
         if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
             Ok(false)
         } else {
@@ -297,6 +311,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     // We override the default `bulk_insert` implementation because further
     // optimization can be done by using `WriteBatch`s.
     fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -342,6 +357,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let mut indexed_properties = self.indexed_properties.write().unwrap();
 
         // The property only counts as indexed once its index is written
@@ -376,22 +392,30 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for id in vertices.into_iter() {
-            self.vertex_property_manager
-                .set(&mut batch, &indexed_properties, id, name, value)?;
+            // It may have been deleted since it was looked up
+            if self.vertex_manager.exists(id)? {
+                self.vertex_property_manager
+                    .set(&mut batch, &indexed_properties, id, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
     }
 
     fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
+        let _write_guard = self.lock_for_write();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for edge in edges.into_iter() {
-            self.edge_property_manager
-                .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            // It may have been deleted since it was looked up
+            if self.edge_range_manager.contains(&edge)? {
+                self.edge_property_manager
+                    .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
@@ -403,6 +427,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 pub struct RocksdbDatastore {
     db: Arc<DB>,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: Arc<Mutex<()>>,
 }
 
 impl RocksdbDatastore {
@@ -438,6 +463,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Arc::new(Mutex::new(())),
         }))
     }
 
@@ -473,6 +499,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Arc::new(Mutex::new(())),
         }))
     }
 
@@ -543,6 +570,7 @@ impl Datastore for RocksdbDatastore {
         RocksdbTransaction {
             db: &self.db,
             indexed_properties: self.indexed_properties.clone(),
+            write_lock: self.write_lock.clone(),
             vertex_manager: VertexManager::new(&self.db),
             edge_manager: EdgeManager::new(&self.db),
             edge_range_manager: EdgeRangeManager::new(&self.db),
-- 
2.43.0


From 8c4574734c760f50769f90d6f4053ab5bcda4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/17] fix: identifiers made by plugins equal those of the
 server

Identifiers were compared and hashed by the pointer into the intern table, of
which every plugin library has its own.
---
 lib/src/models/identifiers.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..053a4d9 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -1,4 +1,6 @@
+use std::cmp::Ordering;
 use std::convert::TryFrom;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
 
@@ -10,9 +12,38 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// A string that must be less than 256 characters long, and can only contain
 /// letters, numbers, dashes and underscores. This is used for vertex and edge
 /// types, as well as property names.
-#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]
+#[derive(Copy, Clone, Debug)]
 pub struct Identifier(pub(crate) Intern<String>);
 
+// `Intern` compares and hashes by pointer, which is only valid within a
+// single intern table. Plugin libraries have their own table, so identifiers
+// are compared and hashed by value instead.
+impl PartialEq for Identifier {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0 || self.as_str() == other.as_str()
+    }
+}
+
+impl Eq for Identifier {}
+
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state);
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
 impl Identifier {
     /// Constructs a new identifier.
     ///
-- 
2.43.0


From feebe2c6af96416e82fa3b0cf8520b8d9fd5127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 15/17] fix: force a memory image to the disk before it
 replaces the old one

sync() renamed the temporary file over the image without asking for its
contents to be written out first. A file system may carry out the rename
before it writes the contents, so that a power failure left an empty or
cut image where a complete one had been.
---
 lib/src/memory/datastore.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 981c3c5..fb8e58a 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -302,6 +302,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
                 // Dropping the buffer would swallow errors
                 buf.flush()?;
             }
+            // Otherwise the rename may reach the disk before the contents do
+            temp_path
+                .as_file()
+                .sync_all()
+                .map_err(|err| Error::Datastore(Box::new(err)))?;
             temp_path
                 .persist(persist_path)
                 .map_err(|err| Error::Datastore(Box::new(err)))?;
-- 
2.43.0


From b185b6267f707dede7a7a22a87bffdcafa038ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 16/17] fix: server: report a panic during a query instead of
 ending its output early

---
 proto/src/server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index fdd0451..37dce6a 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -232,7 +232,8 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
         let db = self.db.clone();
         let q: indradb::Query = map_conversion_result(request.into_inner().try_into())?;
         let (tx, rx) = mpsc::channel(CHANNEL_CAPACITY);
-        tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
+        let panic_tx = tx.clone();
+        let handle = tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
             Ok(output) => {
                 for output in output.into_iter() {
                     send(&tx, Ok(output.into()));
@@ -241,6 +242,13 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             Err(err) => send(&tx, Err(err)),
         });
 
+        // Without this, a panic would look like the end of the output
+        tokio::spawn(async move {
+            if let Err(err) = handle.await {
+                let _ = panic_tx.send(Err(Status::internal(format!("{err}")))).await;
+            }
+        });
+
         Ok(Response::new(Box::pin(ReceiverStream::new(rx))))
     }
 
-- 
2.43.0


From da24ba24e915b773789b9678f6abac7f5483faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 17/17] fix: plugins: report a map operation that panicked

---
 plugins/host/src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/host/src/util.rs b/plugins/host/src/util.rs
index 7898486..f04550f 100644
--- a/plugins/host/src/util.rs
+++ b/plugins/host/src/util.rs
@@ -1,4 +1,5 @@
 use std::cmp::max;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::{Arc, Mutex};
 
 use crate::errors::Error;
@@ -41,7 +42,9 @@ pub fn map<'a, M: VertexMapper>(txn: &(dyn indradb::Transaction<'a> + 'a), mappe
                 let mapper = mapper.clone();
                 let first_err = first_err.clone();
                 pool.execute(move || {
-                    if let Err(err) = mapper.map(vertex) {
+                    let result = catch_unwind(AssertUnwindSafe(|| mapper.map(vertex)))
+                        .unwrap_or_else(|_| Err(Error::Other("a map operation panicked".into())));
+                    if let Err(err) = result {
                         let mut first_err = first_err.lock().unwrap();
                         if first_err.is_none() {
                             *first_err = Some(err);
-- 
2.43.0

