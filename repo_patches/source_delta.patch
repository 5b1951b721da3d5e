From e2738a4cb9a5153317e733ab2e0a4239dfe3494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 01/42] sim: registry of object stores behind cfg(hudi_sim)

---
 crates/core/src/storage/mod.rs | 13 ++++++++
 crates/core/src/storage/sim.rs | 56 ++++++++++++++++++++++++++++++++++
 2 files changed, 69 insertions(+)
 create mode 100644 crates/core/src/storage/sim.rs

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index ce7695b..23e6c0a 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -17,6 +17,7 @@
  * under the License.
  */
 //! This module is responsible for interacting with the storage layer.
+#![allow(unexpected_cfgs)]
 
 use std::collections::HashMap;
 use std::path::PathBuf;
@@ -45,6 +46,8 @@ use crate::storage::util::join_url_segments;
 pub mod error;
 pub mod file_metadata;
 pub mod reader;
+#[cfg(hudi_sim)]
+pub mod sim;
 pub mod util;
 
 #[allow(dead_code)]
@@ -73,6 +76,16 @@ impl Storage {
             }
         };
 
+        #[cfg(hudi_sim)]
+        if let Some(object_store) = sim::lookup(&base_url) {
+            return Ok(Arc::new(Storage {
+                base_url: Arc::new(base_url),
+                object_store,
+                options,
+                hudi_configs,
+            }));
+        }
+
         match parse_url_opts(&base_url, options.as_ref()) {
             Ok((object_store, _)) => Ok(Arc::new(Storage {
                 base_url: Arc::new(base_url),
diff --git a/crates/core/src/storage/sim.rs b/crates/core/src/storage/sim.rs
new file mode 100644
index 0000000..652a06a
--- /dev/null
+++ b/crates/core/src/storage/sim.rs
@@ -0,0 +1,56 @@
+/*
+ * Licensed to the Apache Software Foundation (ASF) under one
+ * or more contributor license agreements.  See the NOTICE file
+ * distributed with this work for additional information
+ * regarding copyright ownership.  The ASF licenses this file
+ * to you under the Apache License, Version 2.0 (the
+ * "License"); you may not use this file except in compliance
+ * with the License.  You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing,
+ * software distributed under the License is distributed on an
+ * "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+ * KIND, either express or implied.  See the License for the
+ * specific language governing permissions and limitations
+ * under the License.
+ */
+//! Simulation seam, compiled only with `--cfg hudi_sim`.
+//!
+//! A simulator registers an [ObjectStore] for a scheme and authority; tables opened under that
+//! scheme and authority then use it in place of the one resolved from the URL.
+
+use std::collections::HashMap;
+use std::sync::{Arc, RwLock};
+
+use lazy_static::lazy_static;
+use object_store::ObjectStore;
+use url::Url;
+
+use crate::storage::util::get_scheme_authority;
+
+lazy_static! {
+    static ref STORES: RwLock<HashMap<String, Arc<dyn ObjectStore>>> = RwLock::new(HashMap::new());
+}
+
+/// Register `store` for every URL with the given scheme and authority, e.g. `sim://run1`.
+pub fn register(scheme_authority: &str, store: Arc<dyn ObjectStore>) {
+    STORES
+        .write()
+        .unwrap()
+        .insert(scheme_authority.to_string(), store);
+}
+
+/// Remove what [register] registered.
+pub fn unregister(scheme_authority: &str) {
+    STORES.write().unwrap().remove(scheme_authority);
+}
+
+pub(crate) fn lookup(url: &Url) -> Option<Arc<dyn ObjectStore>> {
+    STORES
+        .read()
+        .unwrap()
+        .get(&get_scheme_authority(url))
+        .cloned()
+}
-- 
2.43.0


From 35d834371b6bdc99cc22e64eeeae9032229376cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 02/42] fix: partition pruning panics when optional table
 properties are absent

hoodie.datasource.write.hive_style_partitioning and
hoodie.datasource.write.partitionpath.urlencode have no default, so every
snapshot read of a table without them panicked. Absent means false.
---
 crates/core/src/table/partition.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..3e1e5c7 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -70,11 +70,11 @@ impl PartitionPruner {
 
         let schema = Arc::new(partition_schema.clone());
         let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
+            .try_get(HudiTableConfig::IsHiveStylePartitioning)
+            .map_or(false, |v| v.to());
         let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+            .try_get(HudiTableConfig::IsPartitionPathUrlencoded)
+            .map_or(false, |v| v.to());
         Ok(PartitionPruner {
             schema,
             is_hive_style,
-- 
2.43.0


From 593011b453c30b771701884eba52bf9bc5cfeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 03/42] fix: partition values containing an encoded separator
 break pruning

Decoding the whole path before splitting it gives more parts than fields,
and a value with an encoded '=' or '/' was mistaken for something else.
---
 crates/core/src/table/partition.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 3e1e5c7..bf5ab8f 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -119,15 +119,27 @@ impl PartitionPruner {
     }
 
     fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
-                .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
+        let decode = |s: &str| -> Result<String> {
+            if self.is_url_encoded {
+                let decoded = percent_encoding::percent_decode_str(s).decode_utf8()?;
+                Ok(decoded.into_owned())
+            } else {
+                Ok(s.to_string())
+            }
         };
 
-        let parts: Vec<&str> = partition_path.split('/').collect();
+        // Decode each part after splitting, as an encoded value may contain separators.
+        let mut parts = partition_path
+            .split('/')
+            .map(decode)
+            .collect::<Result<Vec<String>>>()?;
+        if self.is_url_encoded && parts.len() != self.schema.fields().len() {
+            // The separators may have been encoded, too.
+            parts = decode(partition_path)?
+                .split('/')
+                .map(|part| part.to_string())
+                .collect();
+        }
 
         if parts.len() != self.schema.fields().len() {
             return Err(InvalidPartitionPath(format!(
@@ -155,7 +167,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From 719b696a04c529cfcf1bcd8d41e1250afbeee4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 04/42] fix: partition fields in schema order are matched to
 the wrong path parts

Partition paths follow the order of hoodie.table.partition.fields, while the
partition schema followed the order of the columns, so filters were applied
to another field's value and partitions with matching rows were dropped.
---
 crates/core/src/table/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..47fbc34 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -205,19 +205,16 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields: Vec<String> = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
+        // Keep the configured order, which is the order of the values in partition paths.
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        let partition_fields: Vec<Field> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.field_with_name(name).ok().cloned())
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From c9741c2fbacf6059ae10e27341b0a37b10f9eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 05/42] fix: listing parallelism of 0 hangs every query of a
 partitioned table

---
 crates/core/src/table/listing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..6146435 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -173,7 +173,8 @@ impl FileLister {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
                 Ok::<_, CoreError>((p, file_groups))
             })
-            .buffer_unordered(parallelism)
+            // a buffer of no future never makes progress
+            .buffer_unordered(parallelism.max(1))
             .try_for_each(|(p, file_groups)| {
                 let file_groups_map = file_groups_map.clone();
                 async move {
-- 
2.43.0


From 15dde39715ec56f1e08f8f8162d708acea9958f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 06/42] fix: concurrent queries of a table handle deadlock

collect_file_slices_as_of awaited storage requests while holding a shard
lock of the partition map, so another query of the same handle polled on
the same thread blocked that thread forever.
---
 crates/core/src/table/fs_view.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..1ce8af4 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -75,21 +75,25 @@ impl FileSystemView {
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
+        for partition_entry in self.partition_to_file_groups.iter() {
             if !partition_pruner.should_include(partition_entry.key()) {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
+            for fg in partition_entry.value() {
                 if excluding_file_groups.contains(fg) {
                     continue;
                 }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
+                if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
                     file_slices.push(fsl.clone());
                 }
             }
         }
+
+        // Wait for the storage only after releasing the locks of the map: a task that waits
+        // while holding one deadlocks with tasks on the same thread that need the map.
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.storage).await?;
+        }
         Ok(file_slices)
     }
 
-- 
2.43.0


From 95c61e6f8293ddd0809f81ffe98d5a86c83e9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 07/42] fix: short and non-ASCII timestamps panic

A file name in .hoodie/ like 2024.commit, or a timestamp argument shorter
than 14 bytes or with a multi-byte character there, panicked on slicing.
---
 crates/core/src/timeline/instant.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..6c0eea0 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -163,7 +163,10 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
-        let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
+        let seconds = timestamp
+            .get(..14)
+            .ok_or_else(|| CoreError::Timeline(format!("Invalid timestamp: {}", timestamp)))?;
+        let naive_dt = NaiveDateTime::parse_from_str(seconds, "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
         if timestamp.len() == 17 {
-- 
2.43.0


From 18598b5dc37b527ba9c0f5a5f3053a4b60655101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 08/42] fix: commits at ambiguous or skipped local times are
 dropped

With hoodie.table.timeline.timezone=LOCAL, instants in the hour repeated at
the end of daylight saving time, or in the one skipped at its start, could
not be converted and silently disappeared from the timeline.
---
 crates/core/src/timeline/instant.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 6c0eea0..3814219 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -21,7 +21,7 @@ use crate::error::CoreError;
 use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::error::StorageError;
 use crate::Result;
-use chrono::{DateTime, Local, NaiveDateTime, TimeZone, Timelike, Utc};
+use chrono::{DateTime, Local, NaiveDateTime, TimeDelta, TimeZone, Timelike, Utc};
 use std::cmp::Ordering;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -117,6 +117,7 @@ impl Ord for Instant {
     fn cmp(&self, other: &Self) -> Ordering {
         self.epoch_millis
             .cmp(&other.epoch_millis)
+            .then_with(|| self.timestamp.cmp(&other.timestamp))
             .then_with(|| self.state.cmp(&other.state))
     }
 }
@@ -130,6 +131,9 @@ impl FromStr for Instant {
     }
 }
 
+/// The longest local time gap to look past; a time zone may skip a whole day.
+const MAX_LOCAL_TIME_GAP_MINUTES: i64 = 25 * 60;
+
 impl Instant {
     pub fn try_from_file_name_and_timezone(file_name: &str, timezone: &str) -> Result<Self> {
         let (timestamp, action_suffix) = file_name
@@ -184,11 +188,24 @@ impl Instant {
     fn convert_to_timezone(naive_dt: NaiveDateTime, timezone: &str) -> Result<DateTime<Utc>> {
         match TimelineTimezoneValue::from_str(timezone)? {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
-            TimelineTimezoneValue::Local => Ok(Local
-                .from_local_datetime(&naive_dt)
-                .single()
-                .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
-                .to_utc()),
+            TimelineTimezoneValue::Local => {
+                // A time that occurs twice (the clock was set back) is taken for its first
+                // occurrence, and one that never occurs (the clock was set forward, or differs
+                // from the writer's) for the end of the gap. Both keep the order of timestamps.
+                let mut local_dt = Local.from_local_datetime(&naive_dt).earliest();
+                let minute = naive_dt.with_nanosecond(0).and_then(|dt| dt.with_second(0));
+                for i in 1..=MAX_LOCAL_TIME_GAP_MINUTES {
+                    if local_dt.is_some() {
+                        break;
+                    }
+                    local_dt = minute
+                        .and_then(|dt| dt.checked_add_signed(TimeDelta::minutes(i)))
+                        .and_then(|dt| Local.from_local_datetime(&dt).earliest());
+                }
+                Ok(local_dt
+                    .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
+                    .to_utc())
+            }
         }
     }
 
-- 
2.43.0


From 2ef182cf4477d169da534eb577b061991f17f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 09/42] fix: 14-digit timestamp arguments disagree with
 17-digit instants

read_snapshot_as_of("20240101000000") took the instant 20240101000000000
as committed on the timeline, yet dropped its file slices, whose timestamps
compare greater as strings. The same held for range starts and ends.
---
 crates/core/src/file_group/reader.rs |  9 +++++----
 crates/core/src/table/mod.rs         |  5 +++++
 crates/core/src/timeline/instant.rs  | 12 ++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 69f9cf4..540e3e6 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -27,6 +27,7 @@ use crate::file_group::log_file::scanner::LogFileScanner;
 use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
+use crate::timeline::instant::Instant;
 use crate::timeline::selector::InstantRange;
 use crate::Result;
 use arrow::compute::and;
@@ -103,7 +104,7 @@ impl FileGroupReader {
         if let Some(start) = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupStartTimestamp)
-            .map(|v| v.to::<String>())
+            .map(|v| Instant::to_millis_format(&v.to::<String>()))
         {
             let filter: Filter =
                 Filter::try_from((MetaField::CommitTime.as_ref(), ">", start.as_str()))?;
@@ -119,7 +120,7 @@ impl FileGroupReader {
         if let Some(end) = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
-            .map(|v| v.to::<String>())
+            .map(|v| Instant::to_millis_format(&v.to::<String>()))
         {
             let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_str()))?;
             let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
@@ -176,11 +177,11 @@ impl FileGroupReader {
         let start_timestamp = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupStartTimestamp)
-            .map(|v| v.to::<String>());
+            .map(|v| Instant::to_millis_format(&v.to::<String>()));
         let end_timestamp = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
-            .map(|v| v.to::<String>());
+            .map(|v| Instant::to_millis_format(&v.to::<String>()));
         InstantRange::new(timezone, start_timestamp, end_timestamp, false, true)
     }
 
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 47fbc34..5391be1 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -99,6 +99,7 @@ use crate::file_group::reader::FileGroupReader;
 use crate::table::builder::TableBuilder;
 use crate::table::fs_view::FileSystemView;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::instant::Instant;
 use crate::timeline::{Timeline, EARLIEST_START_TIMESTAMP};
 use crate::Result;
 
@@ -319,6 +320,8 @@ impl Table {
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<FileSlice>> {
+        let timestamp = Instant::to_millis_format(timestamp);
+        let timestamp = timestamp.as_str();
         let excludes = self
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
@@ -362,6 +365,8 @@ impl Table {
         start_timestamp: &str,
         end_timestamp: &str,
     ) -> Result<Vec<FileSlice>> {
+        let end_timestamp = Instant::to_millis_format(end_timestamp);
+        let end_timestamp = end_timestamp.as_str();
         let mut file_slices: Vec<FileSlice> = Vec::new();
         let file_groups = self
             .timeline
diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 3814219..669941e 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -161,6 +161,18 @@ impl Instant {
         Ok(())
     }
 
+    /// Bring a timestamp to the millisecond format.
+    ///
+    /// Instants are compared as points in time on the timeline, but as strings where they appear
+    /// in file names and records, and `20240101000000` < `20240101000000000` as strings.
+    pub(crate) fn to_millis_format(timestamp: &str) -> String {
+        if timestamp.len() == 14 {
+            format!("{timestamp}000")
+        } else {
+            timestamp.to_string()
+        }
+    }
+
     pub fn parse_datetime(timestamp: &str, timezone: &str) -> Result<DateTime<Utc>> {
         let naive_dt = Self::parse_naive_datetime(timestamp)?;
         Self::convert_to_timezone(naive_dt, timezone)
-- 
2.43.0


From cf6d33be516bdc51421f9c6bde8122faed72b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 10/42] fix: a log file ending inside a block's magic reads as
 complete

A torn write that leaves 1 to 5 bytes of the magic was taken for the end of
the file, so the block, whose commit completed, was silently lost.
---
 crates/core/src/file_group/log_file/reader.rs | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..8bdf40a 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -31,7 +31,7 @@ use crate::timeline::selector::InstantRange;
 use crate::Result;
 use bytes::BytesMut;
 use std::collections::HashMap;
-use std::io::{self, Read, Seek};
+use std::io::{Read, Seek};
 use std::sync::Arc;
 
 pub const DEFAULT_BUFFER_SIZE: usize = 16 * 1024 * 1024;
@@ -86,17 +86,20 @@ impl<R: Read + Seek> LogFileReader<R> {
     ///
     /// Returns an error if the magic bytes are invalid or an I/O error occurs.
     fn read_magic(&mut self) -> Result<bool> {
-        let mut magic = [0u8; 6];
-        match self.reader.read_exact(&mut magic) {
-            Ok(_) => {
-                if magic != MAGIC {
-                    return Err(CoreError::LogFormatError("Invalid magic".to_string()));
-                }
-                Ok(true)
-            }
-            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(false),
-            Err(e) => Err(CoreError::ReadLogFileError(e)),
+        let mut magic = Vec::with_capacity(MAGIC.len());
+        self.reader
+            .by_ref()
+            .take(MAGIC.len() as u64)
+            .read_to_end(&mut magic)
+            .map_err(CoreError::ReadLogFileError)?;
+        if magic.is_empty() {
+            return Ok(false);
+        }
+        // this includes an incomplete magic, left by a torn write
+        if magic != MAGIC {
+            return Err(CoreError::LogFormatError("Invalid magic".to_string()));
         }
+        Ok(true)
     }
 
     /// Read 8 bytes for the log block's length excluding the magic.
-- 
2.43.0


From ae2e245d419b73ec552c0dc3b4da698b7dcf75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 11/42] fix: corrupted counts in log block metadata abort the
 process

The number of entries and the length of values were allocated as read, so
damaged bytes made the process ask for gigabytes and abort.
---
 crates/core/src/file_group/log_file/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 8bdf40a..30735b2 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -179,8 +179,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        // No allocation may depend on a length that was not checked against the file.
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -188,8 +188,16 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            self.reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if value_buf.len() != value_len as usize {
+                return Err(CoreError::LogFormatError(
+                    "Log block metadata is truncated".to_string(),
+                ));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From a01907c17c74eda283321d1da597cd2f86531db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 12/42] fix: log blocks whose lengths do not match are accepted

The trailing block length exists to detect incomplete and corrupted blocks,
and was read but ignored.
---
 crates/core/src/file_group/log_file/reader.rs | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 30735b2..fd115a8 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -261,7 +261,25 @@ impl<R: Read + Seek> LogFileReader<R> {
             &header,
         )?;
         let footer = self.read_block_metadata(BlockMetadataType::Footer, &format_version)?;
-        let _ = self.read_total_block_length(&format_version)?;
+        if let Some(total_block_length) = self.read_total_block_length(&format_version)? {
+            // The first length excludes the magic, and is itself excluded; the last one includes
+            // the magic and the first length, and is itself excluded.
+            let end_pos = self
+                .reader
+                .stream_position()
+                .map_err(CoreError::ReadLogFileError)?;
+            let expected_end_pos = curr_pos
+                .checked_add(size_of::<u64>() as u64)
+                .and_then(|pos| pos.checked_add(block_length));
+            let expected_total_length = block_length.checked_add(MAGIC.len() as u64);
+            if Some(end_pos) != expected_end_pos
+                || Some(total_block_length) != expected_total_length
+            {
+                return Err(CoreError::LogFormatError(format!(
+                    "Log block at {curr_pos} is corrupted: its lengths do not match"
+                )));
+            }
+        }
 
         Ok(Some(LogBlock {
             format_version,
-- 
2.43.0


From 15ccfeceda11c6dad3237c3958c6f9e0284af6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 13/42] fix: log blocks outside of the queried range are
 decoded

A time-travel or incremental query failed on a block of an unsupported type
or format that it would have skipped anyway.
---
 .../core/src/file_group/log_file/content.rs   | 40 +++++++++++++++----
 crates/core/src/file_group/log_file/reader.rs | 30 +++++++-------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/crates/core/src/file_group/log_file/content.rs b/crates/core/src/file_group/log_file/content.rs
index c6564bc..066a754 100644
--- a/crates/core/src/file_group/log_file/content.rs
+++ b/crates/core/src/file_group/log_file/content.rs
@@ -44,6 +44,37 @@ impl Decoder {
             hudi_configs,
         }
     }
+    fn read_content_length(
+        reader: &mut impl Read,
+        log_format_version: &LogFormatVersion,
+        fallback_length: u64,
+    ) -> Result<u64> {
+        if log_format_version.has_content_length() {
+            let mut content_length_buf = [0u8; 8];
+            reader.read_exact(&mut content_length_buf)?;
+            Ok(u64::from_be_bytes(content_length_buf))
+        } else {
+            Ok(fallback_length)
+        }
+    }
+
+    /// Move past the content without decoding it.
+    pub fn skip_content(
+        reader: &mut impl Read,
+        log_format_version: &LogFormatVersion,
+        fallback_length: u64,
+    ) -> Result<()> {
+        let content_length =
+            Self::read_content_length(reader, log_format_version, fallback_length)?;
+        let skipped = std::io::copy(&mut reader.take(content_length), &mut std::io::sink())?;
+        if skipped != content_length {
+            return Err(CoreError::LogFormatError(
+                "Log block content is truncated".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     pub fn decode_content(
         &self,
         reader: &mut (impl Read + Seek),
@@ -52,13 +83,8 @@ impl Decoder {
         block_type: &BlockType,
         header: &HashMap<BlockMetadataKey, String>,
     ) -> Result<Vec<RecordBatch>> {
-        let content_length = if log_format_version.has_content_length() {
-            let mut content_length_buf = [0u8; 8];
-            reader.read_exact(&mut content_length_buf)?;
-            u64::from_be_bytes(content_length_buf)
-        } else {
-            fallback_length
-        };
+        let content_length =
+            Self::read_content_length(reader, log_format_version, fallback_length)?;
 
         let mut reader = reader.by_ref().take(content_length);
         match block_type {
diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index fd115a8..0fee61f 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -246,20 +246,22 @@ impl<R: Read + Seek> LogFileReader<R> {
         let format_version = self.read_log_format_version()?;
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
-        let mut skipped = false;
-        if self.should_skip_block(&header, instant_range)? {
-            skipped = true;
-            // TODO skip reading block
-        }
-
-        let decoder = Decoder::new(self.hudi_configs.clone());
-        let record_batches = decoder.decode_content(
-            self.reader.by_ref(),
-            &format_version,
-            block_length,
-            &block_type,
-            &header,
-        )?;
+        let skipped = self.should_skip_block(&header, instant_range)?;
+
+        // The content of a skipped block may be of a type or format that is not supported,
+        // which does not concern this read.
+        let record_batches = if skipped {
+            Decoder::skip_content(&mut self.reader, &format_version, block_length)?;
+            Vec::new()
+        } else {
+            Decoder::new(self.hudi_configs.clone()).decode_content(
+                self.reader.by_ref(),
+                &format_version,
+                block_length,
+                &block_type,
+                &header,
+            )?
+        };
         let footer = self.read_block_metadata(BlockMetadataType::Footer, &format_version)?;
         if let Some(total_block_length) = self.read_total_block_length(&format_version)? {
             // The first length excludes the magic, and is itself excluded; the last one includes
-- 
2.43.0


From 843bbaf6f9cd410265ccb09e7318d7d12ea8fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 14/42] fix: rolled back log blocks reappear in time-travel
 queries

The rollback's command block has a later instant time than the block it
undoes, and was skipped when the query ended between the two.
---
 crates/core/src/file_group/log_file/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 0fee61f..97d3487 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -246,7 +246,9 @@ impl<R: Read + Seek> LogFileReader<R> {
         let format_version = self.read_log_format_version()?;
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
-        let skipped = self.should_skip_block(&header, instant_range)?;
+        // A rollback undoes earlier blocks whenever it happened.
+        let skipped = self.should_skip_block(&header, instant_range)?
+            && block_type != BlockType::Command;
 
         // The content of a skipped block may be of a type or format that is not supported,
         // which does not concern this read.
-- 
2.43.0


From 9b7036b8f7d59d2198d0d36fb08ac52922d4fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 15/42] fix: base files of failed and unfinished commits are
 visible

File slices were built from every base file in the storage, so queries
returned rows of inflight or crashed writes, failed on half written files,
and failed on the files of retried tasks. Take only those whose instant the
handle's timeline has as completed, or archived.
---
 crates/core/src/file_group/log_file/reader.rs |  4 +-
 crates/core/src/table/builder.rs              |  5 +-
 crates/core/src/table/fs_view.rs              | 15 +++-
 crates/core/src/table/listing.rs              | 22 +++++
 crates/core/src/timeline/committed.rs         | 81 +++++++++++++++++++
 crates/core/src/timeline/mod.rs               | 22 ++++-
 6 files changed, 141 insertions(+), 8 deletions(-)
 create mode 100644 crates/core/src/timeline/committed.rs

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 97d3487..62b0648 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -247,8 +247,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
         // A rollback undoes earlier blocks whenever it happened.
-        let skipped = self.should_skip_block(&header, instant_range)?
-            && block_type != BlockType::Command;
+        let skipped =
+            self.should_skip_block(&header, instant_range)? && block_type != BlockType::Command;
 
         // The content of a skipped block may be of a type or format that is not supported,
         // which does not concern this read.
diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..24c5de4 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -117,8 +117,9 @@ impl TableBuilder {
         let timeline =
             Timeline::new_from_storage(hudi_configs.clone(), storage_options.clone()).await?;
 
-        let file_system_view =
-            FileSystemView::new(hudi_configs.clone(), storage_options.clone()).await?;
+        let file_system_view = FileSystemView::new(hudi_configs.clone(), storage_options.clone())
+            .await?
+            .with_committed_instants(timeline.committed_instants.clone());
 
         Ok(Table {
             hudi_configs,
diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index 1ce8af4..7a68b40 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -27,6 +27,7 @@ use crate::storage::Storage;
 use crate::file_group::file_slice::FileSlice;
 use crate::table::listing::FileLister;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::committed::CommittedInstants;
 use crate::Result;
 use dashmap::DashMap;
 
@@ -38,6 +39,7 @@ pub struct FileSystemView {
     pub(crate) hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     partition_to_file_groups: Arc<DashMap<String, Vec<FileGroup>>>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileSystemView {
@@ -51,15 +53,26 @@ impl FileSystemView {
             hudi_configs,
             storage,
             partition_to_file_groups,
+            committed_instants: None,
         })
     }
 
+    /// Limit the view to what the given instants wrote.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = committed_instants;
+        self
+    }
+
     async fn load_file_groups(&self, partition_pruner: &PartitionPruner) -> Result<()> {
         let lister = FileLister::new(
             self.hudi_configs.clone(),
             self.storage.clone(),
             partition_pruner.to_owned(),
-        );
+        )
+        .with_committed_instants(self.committed_instants.clone());
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
         for (partition_path, file_groups) in file_groups_map {
             self.partition_to_file_groups
diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 6146435..fdc9f43 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -28,6 +28,7 @@ use crate::storage::{get_leaf_dirs, Storage};
 use crate::table::partition::{
     is_table_partitioned, PartitionPruner, EMPTY_PARTITION_PATH, PARTITION_METAFIELD_PREFIX,
 };
+use crate::timeline::committed::CommittedInstants;
 use crate::Result;
 use dashmap::DashMap;
 use futures::{stream, StreamExt, TryStreamExt};
@@ -41,6 +42,7 @@ pub struct FileLister {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
     partition_pruner: PartitionPruner,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileLister {
@@ -53,9 +55,25 @@ impl FileLister {
             hudi_configs,
             storage,
             partition_pruner,
+            committed_instants: None,
         }
     }
 
+    /// List only the base files written by the given instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = committed_instants;
+        self
+    }
+
+    fn is_committed(&self, base_file: &BaseFile) -> bool {
+        self.committed_instants.as_ref().map_or(true, |instants| {
+            instants.contains(&base_file.commit_timestamp)
+        })
+    }
+
     fn should_exclude_for_listing(file_name: &str) -> bool {
         file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
     }
@@ -81,6 +99,10 @@ impl FileLister {
                 // After excluding the unintended files,
                 // we expect a file that has the base file extension to be a valid base file.
                 let base_file = BaseFile::try_from(file_metadata)?;
+                if !self.is_committed(&base_file) {
+                    // Written by an instant that failed, or has not completed.
+                    continue;
+                }
                 let file_id = &base_file.file_id;
                 file_id_to_base_files
                     .entry(file_id.to_owned())
diff --git a/crates/core/src/timeline/committed.rs b/crates/core/src/timeline/committed.rs
new file mode 100644
index 0000000..86f0c19
--- /dev/null
+++ b/crates/core/src/timeline/committed.rs
@@ -0,0 +1,81 @@
+/*
+ * Licensed to the Apache Software Foundation (ASF) under one
+ * or more contributor license agreements.  See the NOTICE file
+ * distributed with this work for additional information
+ * regarding copyright ownership.  The ASF licenses this file
+ * to you under the Apache License, Version 2.0 (the
+ * "License"); you may not use this file except in compliance
+ * with the License.  You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing,
+ * software distributed under the License is distributed on an
+ * "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+ * KIND, either express or implied.  See the License for the
+ * specific language governing permissions and limitations
+ * under the License.
+ */
+use crate::storage::file_metadata::FileMetadata;
+use crate::timeline::instant::{Instant, State};
+use crate::timeline::selector::TimelineSelector;
+use std::collections::HashSet;
+
+/// Actions that create data files, in any of their states.
+const DATA_WRITING_ACTIONS: &[&str] = &["commit", "deltacommit", "replacecommit", "compaction"];
+
+/// Tells if what an instant wrote is committed, as of the loading of the timeline.
+///
+/// Data files and log blocks become part of the table with the completion of their instant.
+/// Before, and forever if their writer failed, they are just lying around in the storage.
+#[derive(Clone, Debug)]
+pub(crate) struct CommittedInstants {
+    completed: HashSet<String>,
+    /// The start of the active timeline. Earlier instants are archived, hence committed, as
+    /// failed ones are rolled back before they may be archived.
+    active_start: Option<String>,
+}
+
+impl CommittedInstants {
+    /// From the selector of completed instants, and the files of the timeline.
+    pub(crate) fn new(selector: &TimelineSelector, files: &[FileMetadata]) -> Self {
+        let completed = files
+            .iter()
+            .filter_map(|file| selector.try_create_instant(&file.name).ok())
+            .map(|instant| instant.timestamp)
+            .collect();
+        let active_start = files
+            .iter()
+            .filter_map(|file| Self::parse_data_writing_instant_time(&file.name))
+            .min()
+            .map(|timestamp| timestamp.to_string());
+        Self {
+            completed,
+            active_start,
+        }
+    }
+
+    fn parse_data_writing_instant_time(file_name: &str) -> Option<&str> {
+        let (timestamp, suffix) = file_name.split_once('.')?;
+        if ![14, 17].contains(&timestamp.len()) {
+            return None;
+        }
+        Instant::parse_datetime(timestamp, "UTC").ok()?;
+        let is_data_writing = match suffix.split_once('.') {
+            Some((action, state)) => {
+                DATA_WRITING_ACTIONS.contains(&action)
+                    && [State::Requested.as_ref(), State::Inflight.as_ref()].contains(&state)
+            }
+            None => suffix == State::Inflight.as_ref() || DATA_WRITING_ACTIONS.contains(&suffix),
+        };
+        is_data_writing.then_some(timestamp)
+    }
+
+    pub(crate) fn contains(&self, timestamp: &str) -> bool {
+        self.completed.contains(timestamp)
+            || self
+                .active_start
+                .as_ref()
+                .is_some_and(|start| timestamp < start.as_str())
+    }
+}
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..5c9d9a6 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -16,6 +16,7 @@
  * specific language governing permissions and limitations
  * under the License.
  */
+pub(crate) mod committed;
 pub mod instant;
 pub(crate) mod selector;
 
@@ -24,7 +25,9 @@ use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
 use crate::metadata::HUDI_METADATA_DIR;
+use crate::storage::file_metadata::FileMetadata;
 use crate::storage::Storage;
+use crate::timeline::committed::CommittedInstants;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
 use crate::Result;
@@ -45,6 +48,8 @@ pub struct Timeline {
     hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     pub completed_commits: Vec<Instant>,
+    /// [None] if the timeline was not loaded from storage.
+    pub(crate) committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 pub const EARLIEST_START_TIMESTAMP: &str = "19700101000000000";
@@ -63,6 +68,7 @@ impl Timeline {
             hudi_configs,
             storage,
             completed_commits,
+            committed_instants: None,
         })
     }
 
@@ -77,11 +83,14 @@ impl Timeline {
             None,
             None,
         )?;
-        let completed_commits = Self::load_instants(&selector, &storage, false).await?;
+        let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        let committed_instants = Some(Arc::new(CommittedInstants::new(&selector, &files)));
+        let completed_commits = Self::select_instants(&selector, files, false);
         Ok(Self {
             hudi_configs,
             storage,
             completed_commits,
+            committed_instants,
         })
     }
 
@@ -91,7 +100,14 @@ impl Timeline {
         desc: bool,
     ) -> Result<Vec<Instant>> {
         let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        Ok(Self::select_instants(selector, files, desc))
+    }
 
+    fn select_instants(
+        selector: &TimelineSelector,
+        files: Vec<FileMetadata>,
+        desc: bool,
+    ) -> Vec<Instant> {
         // For most cases, we load completed instants, so we can pre-allocate the vector with a
         // capacity of 1/3 of the total number of listed files,
         // ignoring requested and inflight instants.
@@ -117,9 +133,9 @@ impl Timeline {
         instants.shrink_to_fit();
 
         if desc {
-            Ok(instants.into_iter().rev().collect())
+            instants.into_iter().rev().collect()
         } else {
-            Ok(instants)
+            instants
         }
     }
 
-- 
2.43.0


From 8843f07b9bed5ac23544aa3f92433ac0e264ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 16/42] fix: log files without their base file fail the whole
 query

The base file of a slice does not exist until a pending compaction
completes, and cleaning may remove it before its log files. Attach such log
files to the preceding slice, or ignore them if there is none.
---
 crates/core/src/table/listing.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index fdc9f43..b87c4ba 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -137,7 +137,19 @@ impl FileLister {
             file_group.add_base_files(base_files)?;
 
             let log_files = file_id_to_log_files.remove(&file_id).unwrap_or_default();
-            file_group.add_log_files(log_files)?;
+            for log_file in log_files {
+                // The base file may be missing: it is only created when a pending compaction
+                // completes, and cleaning may remove it before its log files. Then the log file
+                // belongs to the preceding file slice, if there is one.
+                let base_commit_timestamp = log_file.base_commit_timestamp.clone();
+                if let Some((_, file_slice)) = file_group
+                    .file_slices
+                    .range_mut(..=base_commit_timestamp)
+                    .next_back()
+                {
+                    file_slice.log_files.insert(log_file);
+                }
+            }
 
             file_groups.push(file_group);
         }
-- 
2.43.0


From bd1e5f12590ac9de346a76407dbf0892f1044765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:31 +0000
Subject: [PATCH 17/42] fix: log blocks of failed and unfinished commits are
 visible

Blocks are appended before their instant completes, and stay if it never
does, so queries of merge-on-read tables returned rows of inflight and
crashed writes. Read only the blocks of completed or archived instants that
are not rolled back.
---
 crates/core/src/file_group/log_file/reader.rs | 51 +++++++++++++++++--
 .../core/src/file_group/log_file/scanner.rs   | 45 ++++++++--------
 crates/core/src/file_group/reader.rs          | 21 ++++++++
 crates/core/src/table/mod.rs                  |  5 +-
 crates/core/src/timeline/committed.rs         | 18 +++++++
 5 files changed, 114 insertions(+), 26 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 62b0648..71d071e 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -27,10 +27,11 @@ use crate::file_group::log_file::log_block::{
 use crate::file_group::log_file::log_format::{LogFormatVersion, MAGIC};
 use crate::storage::reader::StorageReader;
 use crate::storage::Storage;
+use crate::timeline::committed::CommittedInstants;
 use crate::timeline::selector::InstantRange;
 use crate::Result;
 use bytes::BytesMut;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::{Read, Seek};
 use std::sync::Arc;
 
@@ -44,6 +45,8 @@ pub struct LogFileReader<R: Read + Seek> {
     reader: R,
     buffer: BytesMut,
     timezone: String,
+    committed_instants: Option<Arc<CommittedInstants>>,
+    rollback_targets: HashSet<String>,
 }
 
 impl LogFileReader<StorageReader> {
@@ -62,9 +65,36 @@ impl LogFileReader<StorageReader> {
             reader,
             buffer: BytesMut::with_capacity(DEFAULT_BUFFER_SIZE),
             timezone,
+            committed_instants: None,
+            rollback_targets: HashSet::new(),
         })
     }
 
+    /// Read only the blocks written by the given instants.
+    pub(crate) fn set_committed_instants(
+        &mut self,
+        committed_instants: Option<Arc<CommittedInstants>>,
+    ) {
+        self.committed_instants = committed_instants;
+    }
+
+    /// Do not read the blocks written by the given instants.
+    pub(crate) fn set_rollback_targets(&mut self, rollback_targets: HashSet<String>) {
+        self.rollback_targets = rollback_targets;
+    }
+
+    /// Collect the instants that this log file rolls back, and return to the file's start.
+    pub(crate) fn read_rollback_targets(&mut self) -> Result<HashSet<String>> {
+        let mut targets = HashSet::new();
+        while let Some(block) = self.read_next_block_unless(|_, _| Ok(true))? {
+            if block.is_rollback_block() {
+                targets.insert(block.target_instant_time()?.to_string());
+            }
+        }
+        self.reader.rewind()?;
+        Ok(targets)
+    }
+
     pub fn read_all_blocks(&mut self, instant_range: &InstantRange) -> Result<Vec<LogBlock>> {
         let mut blocks = Vec::new();
         while let Some(block) = self.read_next_block(instant_range)? {
@@ -229,10 +259,26 @@ impl<R: Read + Seek> LogFileReader<R> {
                 .ok_or(CoreError::LogFormatError(
                     "Instant time not found".to_string(),
                 ))?;
+        let is_committed = self
+            .committed_instants
+            .as_ref()
+            .map_or(true, |instants| instants.contains(instant_time));
+        if !is_committed || self.rollback_targets.contains(instant_time) {
+            return Ok(true);
+        }
         instant_range.not_in_range(instant_time, &self.timezone)
     }
 
     fn read_next_block(&mut self, instant_range: &InstantRange) -> Result<Option<LogBlock>> {
+        self.read_next_block_unless(|reader, header| {
+            reader.should_skip_block(header, instant_range)
+        })
+    }
+
+    fn read_next_block_unless(
+        &mut self,
+        should_skip: impl Fn(&Self, &HashMap<BlockMetadataKey, String>) -> Result<bool>,
+    ) -> Result<Option<LogBlock>> {
         if !self.read_magic()? {
             return Ok(None);
         }
@@ -247,8 +293,7 @@ impl<R: Read + Seek> LogFileReader<R> {
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
         // A rollback undoes earlier blocks whenever it happened.
-        let skipped =
-            self.should_skip_block(&header, instant_range)? && block_type != BlockType::Command;
+        let skipped = should_skip(self, &header)? && block_type != BlockType::Command;
 
         // The content of a skipped block may be of a type or format that is not supported,
         // which does not concern this read.
diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..62adb9c 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -17,9 +17,9 @@
  * under the License.
  */
 use crate::config::HudiConfigs;
-use crate::file_group::log_file::log_block::LogBlock;
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
+use crate::timeline::committed::CommittedInstants;
 use crate::timeline::selector::InstantRange;
 use crate::Result;
 use arrow_array::RecordBatch;
@@ -30,6 +30,7 @@ use std::sync::Arc;
 pub struct LogFileScanner {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl LogFileScanner {
@@ -37,42 +38,44 @@ impl LogFileScanner {
         Self {
             hudi_configs,
             storage,
+            committed_instants: None,
         }
     }
 
+    /// Scan only the blocks written by the given instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Arc<CommittedInstants>,
+    ) -> Self {
+        self.committed_instants = Some(committed_instants);
+        self
+    }
+
     pub async fn scan(
         &self,
         relative_paths: Vec<String>,
         instant_range: &InstantRange,
     ) -> Result<Vec<Vec<RecordBatch>>> {
-        let mut all_blocks: Vec<Vec<LogBlock>> = Vec::with_capacity(relative_paths.len());
+        let mut readers = Vec::with_capacity(relative_paths.len());
         let mut rollback_targets: HashSet<String> = HashSet::new();
 
-        // collect all blocks and rollback targets
+        // A rollback may be in a later file than the blocks it undoes,
+        // so collect the targets before reading any data.
         for path in relative_paths {
             let mut reader =
                 LogFileReader::new(self.hudi_configs.clone(), self.storage.clone(), &path).await?;
-            let blocks = reader.read_all_blocks(instant_range)?;
-
-            for block in &blocks {
-                if block.is_rollback_block() {
-                    rollback_targets.insert(block.target_instant_time()?.to_string());
-                }
-            }
-
-            // only rollback and parquet data blocks are supported
-            // TODO: support more block types
-            // push the whole vector to avoid cloning
-            all_blocks.push(blocks);
+            rollback_targets.extend(reader.read_rollback_targets()?);
+            readers.push(reader);
         }
 
-        // collect valid record batches
+        // only rollback and data blocks are supported
+        // TODO: support more block types
         let mut record_batches: Vec<Vec<RecordBatch>> = Vec::new();
-        for blocks in all_blocks {
-            for block in blocks {
-                if !rollback_targets.contains(block.instant_time()?) {
-                    record_batches.push(block.record_batches);
-                }
+        for mut reader in readers {
+            reader.set_committed_instants(self.committed_instants.clone());
+            reader.set_rollback_targets(rollback_targets.clone());
+            for block in reader.read_all_blocks(instant_range)? {
+                record_batches.push(block.record_batches);
             }
         }
 
diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 540e3e6..a0f9e3c 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -27,6 +27,7 @@ use crate::file_group::log_file::scanner::LogFileScanner;
 use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
+use crate::timeline::committed::CommittedInstants;
 use crate::timeline::instant::Instant;
 use crate::timeline::selector::InstantRange;
 use crate::Result;
@@ -42,6 +43,7 @@ use std::sync::Arc;
 pub struct FileGroupReader {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileGroupReader {
@@ -64,9 +66,20 @@ impl FileGroupReader {
         Ok(Self {
             hudi_configs,
             storage,
+            committed_instants: None,
         })
     }
 
+    /// Read only what was written by the given instants. By default, these are the committed ones
+    /// at the time of reading.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = committed_instants;
+        self
+    }
+
     /// Creates a new reader with the given base URI and options.
     ///
     /// # Arguments
@@ -214,8 +227,16 @@ impl FileGroupReader {
                 .map(|log_file| file_slice.log_file_relative_path(log_file))
                 .collect::<Result<Vec<String>>>()?;
             let instant_range = self.create_instant_range_for_log_file_scan();
+            let committed_instants = match &self.committed_instants {
+                Some(instants) => instants.clone(),
+                None => {
+                    let configs = self.hudi_configs.clone();
+                    Arc::new(CommittedInstants::load(configs, &self.storage).await?)
+                }
+            };
             let log_record_batches =
                 LogFileScanner::new(self.hudi_configs.clone(), self.storage.clone())
+                    .with_committed_instants(committed_instants)
                     .scan(log_file_paths, &instant_range)
                     .await?;
             for log_record_batch in log_record_batches {
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 5391be1..3835f17 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -398,10 +398,11 @@ impl Table {
         for (k, v) in options {
             overwriting_options.insert(k.as_ref().to_string(), v.into());
         }
-        FileGroupReader::new_with_configs_and_options(
+        let reader = FileGroupReader::new_with_configs_and_options(
             self.hudi_configs.clone(),
             overwriting_options,
-        )
+        )?;
+        Ok(reader.with_committed_instants(self.timeline.committed_instants.clone()))
     }
 
     /// Get all the latest records in the table.
diff --git a/crates/core/src/timeline/committed.rs b/crates/core/src/timeline/committed.rs
index 86f0c19..061af89 100644
--- a/crates/core/src/timeline/committed.rs
+++ b/crates/core/src/timeline/committed.rs
@@ -16,10 +16,16 @@
  * specific language governing permissions and limitations
  * under the License.
  */
+use crate::config::HudiConfigs;
+use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::file_metadata::FileMetadata;
+use crate::storage::Storage;
 use crate::timeline::instant::{Instant, State};
 use crate::timeline::selector::TimelineSelector;
+use crate::timeline::DEFAULT_LOADING_ACTIONS;
+use crate::Result;
 use std::collections::HashSet;
+use std::sync::Arc;
 
 /// Actions that create data files, in any of their states.
 const DATA_WRITING_ACTIONS: &[&str] = &["commit", "deltacommit", "replacecommit", "compaction"];
@@ -37,6 +43,18 @@ pub(crate) struct CommittedInstants {
 }
 
 impl CommittedInstants {
+    /// For when there is no timeline at hand.
+    pub(crate) async fn load(hudi_configs: Arc<HudiConfigs>, storage: &Storage) -> Result<Self> {
+        let selector = TimelineSelector::completed_actions_in_range(
+            DEFAULT_LOADING_ACTIONS,
+            hudi_configs,
+            None,
+            None,
+        )?;
+        let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        Ok(Self::new(&selector, &files))
+    }
+
     /// From the selector of completed instants, and the files of the timeline.
     pub(crate) fn new(selector: &TimelineSelector, files: &[FileMetadata]) -> Self {
         let completed = files
-- 
2.43.0


From 06382b215f8ff0ee0dee31e8a6000b14f036acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 18/42] fix: the latest schema is only looked for in the latest
 commit

A latest commit without write stats (deleted partitions, dropped data,
empty write), without a base file (log files of a file group that awaits
compaction), or whose files were replaced and cleaned made every query of
the table fail, as did one without an Avro schema for get_avro_schema, and
columns added by a commit to log files were missing.
---
 crates/core/src/timeline/mod.rs | 161 ++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 71 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 5c9d9a6..7bb9668 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -20,25 +20,26 @@ pub(crate) mod committed;
 pub mod instant;
 pub(crate) mod selector;
 
+use crate::avro_to_arrow::to_arrow_schema;
 use crate::config::HudiConfigs;
 use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
 use crate::metadata::HUDI_METADATA_DIR;
+use crate::storage::error::StorageError;
 use crate::storage::file_metadata::FileMetadata;
 use crate::storage::Storage;
 use crate::timeline::committed::CommittedInstants;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
 use crate::Result;
-use arrow_schema::Schema;
+use apache_avro::Schema as AvroSchema;
+use arrow_schema::{Schema, SchemaBuilder};
 use instant::Instant;
 use log::debug;
 use serde_json::{Map, Value};
 use std::collections::{HashMap, HashSet};
 use std::fmt::Debug;
-use std::path::PathBuf;
-use std::str::FromStr;
 use std::sync::Arc;
 
 /// A [Timeline] contains transaction logs of all actions performed on the table at different [Instant]s of time.
@@ -227,13 +228,6 @@ impl Timeline {
             .map_err(|e| CoreError::Timeline(format!("Failed to get commit metadata: {}", e)))
     }
 
-    async fn get_latest_commit_metadata(&self) -> Result<Map<String, Value>> {
-        match self.completed_commits.iter().next_back() {
-            Some(instant) => self.get_instant_metadata(instant).await,
-            None => Ok(Map::new()),
-        }
-    }
-
     pub(crate) fn get_latest_commit_timestamp_as_option(&self) -> Option<&str> {
         self.completed_commits
             .iter()
@@ -251,78 +245,103 @@ impl Timeline {
         )
     }
 
-    /// Get the latest Avro schema string from the [Timeline].
-    pub async fn get_latest_avro_schema(&self) -> Result<String> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
+    fn avro_schema_of_commit(commit_metadata: &Map<String, Value>) -> Option<&str> {
         commit_metadata
             .get("extraMetadata")
             .and_then(|v| v.as_object())
-            .and_then(|obj| {
-                obj.get("schema")
-                    .and_then(|v| v.as_str())
-                    .map(|s| s.to_string())
-            })
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no schema found".to_string(),
-                )
-            })
+            .and_then(|obj| obj.get("schema"))
+            .and_then(|v| v.as_str())
+            .filter(|s| !s.is_empty())
     }
 
-    /// Get the latest [arrow_schema::Schema] from the [Timeline].
-    pub async fn get_latest_schema(&self) -> Result<Schema> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
-
-        let first_partition = commit_metadata
+    /// Get the relative paths of the base files that a commit wrote or added to.
+    fn base_file_paths_of_commit(commit_metadata: &Map<String, Value>) -> Vec<String> {
+        let mut paths = Vec::new();
+        let partitions = commit_metadata
             .get("partitionToWriteStats")
             .and_then(|v| v.as_object());
+        for (partition_path, write_stats) in partitions.into_iter().flatten() {
+            for stat in write_stats.as_array().into_iter().flatten() {
+                match (stat["path"].as_str(), stat["baseFile"].as_str()) {
+                    (Some(path), _) if path.ends_with(".parquet") => paths.push(path.to_string()),
+                    (_, Some(base_file)) if partition_path.is_empty() && !base_file.is_empty() => {
+                        paths.push(base_file.to_string())
+                    }
+                    (_, Some(base_file)) if !base_file.is_empty() => {
+                        paths.push(format!("{partition_path}/{base_file}"))
+                    }
+                    _ => {}
+                }
+            }
+        }
+        paths
+    }
+
+    fn has_write_stats(commit_metadata: &Map<String, Value>) -> bool {
+        commit_metadata
+            .get("partitionToWriteStats")
+            .and_then(|v| v.as_object())
+            .into_iter()
+            .flat_map(|partitions| partitions.values())
+            .any(|v| v.as_array().is_some_and(|stats| !stats.is_empty()))
+    }
 
-        let partition_path = first_partition
-            .and_then(|obj| obj.keys().next())
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no partition path found".to_string(),
-                )
-            })?;
-
-        let first_value = first_partition
-            .and_then(|obj| obj.values().next())
-            .and_then(|value| value.as_array())
-            .and_then(|arr| arr.first());
-
-        let parquet_path = first_value.and_then(|v| v["path"].as_str());
-        match parquet_path {
-            Some(path) if path.ends_with(".parquet") => {
-                Ok(self.storage.get_parquet_file_schema(path).await?)
+    /// Get the latest Avro schema string from the [Timeline].
+    ///
+    /// Commits that write no records may have no schema.
+    pub async fn get_latest_avro_schema(&self) -> Result<String> {
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            if let Some(schema) = Self::avro_schema_of_commit(&commit_metadata) {
+                return Ok(schema.to_string());
             }
-            Some(_) => {
-                // TODO: properly handle deltacommit
-                let base_file = first_value
-                    .and_then(|v| v["baseFile"].as_str())
-                    .ok_or_else(|| {
-                        CoreError::CommitMetadata(
-                            "Failed to resolve the latest schema: no file path found".to_string(),
-                        )
-                    })?;
-                let parquet_file_path_buf = PathBuf::from_str(partition_path)
-                    .map_err(|e| {
-                        CoreError::CommitMetadata(format!(
-                            "Failed to resolve the latest schema: {}",
-                            e
-                        ))
-                    })?
-                    .join(base_file);
-                let path = parquet_file_path_buf.to_str().ok_or_else(|| {
-                    CoreError::CommitMetadata(
-                        "Failed to resolve the latest schema: invalid file path".to_string(),
-                    )
-                })?;
-                Ok(self.storage.get_parquet_file_schema(path).await?)
+        }
+        Err(CoreError::CommitMetadata(
+            "Failed to resolve the latest schema: no schema found".to_string(),
+        ))
+    }
+
+    /// Get the latest [arrow_schema::Schema] from the [Timeline].
+    ///
+    /// This is the schema of the latest base file, extended by the columns that were since then
+    /// added by commits to log files. The latest commit may have written no base file, and those
+    /// it wrote may have been replaced and cleaned.
+    pub async fn get_latest_schema(&self) -> Result<Schema> {
+        let mut latest_avro_schema: Option<Schema> = None;
+        let mut found_write_stats = false;
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+
+            if !found_write_stats && Self::has_write_stats(&commit_metadata) {
+                found_write_stats = true;
+                latest_avro_schema = Self::avro_schema_of_commit(&commit_metadata)
+                    .and_then(|s| AvroSchema::parse_str(s).ok())
+                    .and_then(|s| to_arrow_schema(&s).ok());
+            }
+
+            for path in Self::base_file_paths_of_commit(&commit_metadata) {
+                match self.storage.get_parquet_file_schema(&path).await {
+                    Ok(schema) => return Ok(Self::extend_schema(schema, latest_avro_schema)),
+                    Err(StorageError::ObjectStoreError(object_store::Error::NotFound {
+                        ..
+                    })) => continue,
+                    Err(e) => return Err(e.into()),
+                }
+            }
+        }
+        Err(CoreError::CommitMetadata(
+            "Failed to resolve the latest schema: no base file found".to_string(),
+        ))
+    }
+
+    fn extend_schema(schema: Schema, other: Option<Schema>) -> Schema {
+        let mut builder = SchemaBuilder::from(&schema);
+        for field in other.iter().flat_map(|s| s.fields()) {
+            if schema.column_with_name(field.name()).is_none() {
+                builder.push(field.clone());
             }
-            None => Err(CoreError::CommitMetadata(
-                "Failed to resolve the latest schema: no file path found".to_string(),
-            )),
         }
+        builder.finish().with_metadata(schema.metadata)
     }
 
     pub(crate) async fn get_replaced_file_groups_as_of(
-- 
2.43.0


From 57c0b4ff5a16d594ceb5a4390afb5923290d5ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 19/42] fix: queries without filters fail on tables without a
 schema

A table whose commits wrote nothing yet has no rows, not an error.
---
 crates/core/src/table/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 3835f17..3e0ff7b 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -326,9 +326,13 @@ impl Table {
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
             .await?;
-        let partition_schema = self.get_partition_schema().await?;
-        let partition_pruner =
-            PartitionPruner::new(filters, &partition_schema, self.hudi_configs.as_ref())?;
+        let partition_pruner = if filters.is_empty() {
+            // There may be no schema as long as nothing was written.
+            PartitionPruner::empty()
+        } else {
+            let partition_schema = self.get_partition_schema().await?;
+            PartitionPruner::new(filters, &partition_schema, self.hudi_configs.as_ref())?
+        };
         self.file_system_view
             .get_file_slices_as_of(timestamp, &partition_pruner, &excludes)
             .await
-- 
2.43.0


From 6bc09af5d5e69ca8a77bf97f0f74c9131d213253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 20/42] fix: nested nulls, booleans, times and binaries of avro
 log blocks are misread

Null lists inside of lists shifted the offsets of what followed, unions were
not resolved for booleans, records in lists of lists were looked up by the
wrong path, and named references, local timestamps and unexpected values
panicked. Timestamps are instants, so they get the UTC time zone that base
files carry.
---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 222 ++++++++++--------
 crates/core/src/avro_to_arrow/schema.rs       |  22 +-
 2 files changed, 133 insertions(+), 111 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..584650e 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -26,9 +26,9 @@ use apache_avro::{
     AvroResult, Error as AvroError,
 };
 use arrow::array::{
-    make_array, Array, ArrayBuilder, ArrayData, ArrayDataBuilder, ArrayRef, BooleanBuilder,
-    LargeStringArray, ListBuilder, NullArray, OffsetSizeTrait, PrimitiveArray, StringArray,
-    StringBuilder, StringDictionaryBuilder,
+    make_array, Array, ArrayBuilder, ArrayData, ArrayDataBuilder, ArrayRef, BooleanArray,
+    BooleanBuilder, LargeStringArray, ListBuilder, NullArray, OffsetSizeTrait, PrimitiveArray,
+    StringArray, StringBuilder, StringDictionaryBuilder,
 };
 use arrow::array::{BinaryArray, FixedSizeBinaryArray, GenericListArray};
 use arrow::buffer::{Buffer, MutableBuffer};
@@ -451,34 +451,11 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
         let valid_len = cur_offset.to_usize().unwrap();
         let array_data = match list_field.data_type() {
             DataType::Null => NullArray::new(valid_len).into_data(),
-            DataType::Boolean => {
-                let num_bytes = bit_util::ceil(valid_len, 8);
-                let mut bool_values = MutableBuffer::from_len_zeroed(num_bytes);
-                let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
-                let mut curr_index = 0;
-                rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
-                        vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
-                                // if valid boolean, append value
-                                if *child {
-                                    bit_util::set_bit(&mut bool_values, curr_index);
-                                }
-                            } else {
-                                // null slot
-                                bit_util::unset_bit(&mut bool_nulls, curr_index);
-                            }
-                            curr_index += 1;
-                        });
-                    }
-                });
-                ArrayData::builder(list_field.data_type().clone())
-                    .len(valid_len)
-                    .add_buffer(bool_values.into())
-                    .null_bit_buffer(Some(bool_nulls.into()))
-                    .build()
-                    .unwrap()
-            }
+            DataType::Boolean => flatten_values(rows)
+                .into_iter()
+                .map(resolve_boolean)
+                .collect::<BooleanArray>()
+                .into_data(),
             DataType::Int8 => self.read_primitive_list_values::<Int8Type>(rows),
             DataType::Int16 => self.read_primitive_list_values::<Int16Type>(rows),
             DataType::Int32 => self.read_primitive_list_values::<Int32Type>(rows),
@@ -490,14 +467,53 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             DataType::Float16 => return Err(SchemaError("Float16 not supported".to_string())),
             DataType::Float32 => self.read_primitive_list_values::<Float32Type>(rows),
             DataType::Float64 => self.read_primitive_list_values::<Float64Type>(rows),
-            DataType::Timestamp(_, _)
-            | DataType::Date32
-            | DataType::Date64
-            | DataType::Time32(_)
-            | DataType::Time64(_) => {
-                return Err(SchemaError(
-                    "Temporal types are not yet supported, see ARROW-4803".to_string(),
-                ))
+            DataType::Timestamp(unit, tz) => {
+                let values = match unit {
+                    TimeUnit::Second => {
+                        self.read_primitive_list_values::<TimestampSecondType>(rows)
+                    }
+                    TimeUnit::Millisecond => {
+                        self.read_primitive_list_values::<TimestampMillisecondType>(rows)
+                    }
+                    TimeUnit::Microsecond => {
+                        self.read_primitive_list_values::<TimestampMicrosecondType>(rows)
+                    }
+                    TimeUnit::Nanosecond => {
+                        self.read_primitive_list_values::<TimestampNanosecondType>(rows)
+                    }
+                };
+                values
+                    .into_builder()
+                    .data_type(DataType::Timestamp(*unit, tz.clone()))
+                    .build()?
+            }
+            DataType::Date32 => self.read_primitive_list_values::<Date32Type>(rows),
+            DataType::Date64 => self.read_primitive_list_values::<Date64Type>(rows),
+            DataType::Time32(TimeUnit::Second) => {
+                self.read_primitive_list_values::<Time32SecondType>(rows)
+            }
+            DataType::Time32(TimeUnit::Millisecond) => {
+                self.read_primitive_list_values::<Time32MillisecondType>(rows)
+            }
+            DataType::Time64(TimeUnit::Microsecond) => {
+                self.read_primitive_list_values::<Time64MicrosecondType>(rows)
+            }
+            DataType::Time64(TimeUnit::Nanosecond) => {
+                self.read_primitive_list_values::<Time64NanosecondType>(rows)
+            }
+            DataType::Binary => flatten_values(rows)
+                .into_iter()
+                .map(resolve_bytes)
+                .collect::<BinaryArray>()
+                .into_data(),
+            DataType::FixedSizeBinary(size) => {
+                FixedSizeBinaryArray::try_from_sparse_iter_with_size(
+                    flatten_values(rows)
+                        .into_iter()
+                        .map(|v| resolve_fixed(v, *size as usize)),
+                    *size,
+                )?
+                .into_data()
             }
             DataType::Utf8 => flatten_string_values(rows)
                 .into_iter()
@@ -509,7 +525,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .into_data(),
             DataType::List(field) => {
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -517,52 +533,30 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             }
             DataType::LargeList(field) => {
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
                 child.to_data()
             }
             DataType::Struct(fields) => {
-                // extract list values, with non-lists converted to Value::Null
-                let array_item_count = rows
-                    .iter()
-                    .map(|row| match maybe_resolve_union(row) {
-                        Value::Array(values) => values.len(),
-                        _ => 1,
-                    })
-                    .sum();
-                let num_bytes = bit_util::ceil(array_item_count, 8);
-                let mut null_buffer = MutableBuffer::from_len_zeroed(num_bytes);
-                let mut struct_index = 0;
-                let null_struct_array = vec![("null".to_string(), Value::Null)];
-                let rows: Vec<&Vec<(String, Value)>> = rows
-                    .iter()
-                    .map(|v| maybe_resolve_union(v))
-                    .flat_map(|row| {
-                        if let Value::Array(values) = row {
-                            values
-                                .iter()
-                                .map(maybe_resolve_union)
-                                .map(|v| match v {
-                                    Value::Record(record) => {
-                                        bit_util::set_bit(&mut null_buffer, struct_index);
-                                        struct_index += 1;
-                                        record
-                                    }
-                                    Value::Null => {
-                                        struct_index += 1;
-                                        &null_struct_array
-                                    }
-                                    other => panic!("expected Record, got {other:?}"),
-                                })
-                                .collect::<Vec<&Vec<(String, Value)>>>()
-                        } else {
-                            struct_index += 1;
-                            vec![&null_struct_array]
+                let items = flatten_values(rows);
+                let mut null_buffer =
+                    MutableBuffer::from_len_zeroed(bit_util::ceil(items.len(), 8));
+                let empty_vec = vec![];
+                let rows = items
+                    .into_iter()
+                    .map(maybe_resolve_union)
+                    .enumerate()
+                    .map(|(i, v)| match v {
+                        Value::Record(record) => {
+                            bit_util::set_bit(&mut null_buffer, i);
+                            Ok(record)
                         }
+                        Value::Null => Ok(&empty_vec),
+                        other => Err(SchemaError(format!("expected Record, got {other:?}"))),
                     })
-                    .collect();
+                    .collect::<ArrowResult<Vec<&Vec<(String, Value)>>>>()?;
 
                 let sub_parent_field_name = format!("{}.{}", parent_field_name, list_field.name());
                 let arrays = self.build_struct_array(&rows, &sub_parent_field_name, fields, &[])?;
@@ -571,8 +565,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .len(rows.len())
                     .null_bit_buffer(Some(null_buffer.into()))
                     .child_data(arrays.into_iter().map(|a| a.to_data()).collect())
-                    .build()
-                    .unwrap()
+                    .build()?
             }
             datatype => {
                 return Err(SchemaError(format!(
@@ -586,8 +579,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             .add_buffer(Buffer::from_slice_ref(&offsets))
             .add_child_data(array_data)
             .null_bit_buffer(Some(list_nulls.into()))
-            .build()
-            .unwrap();
+            .build()?;
         Ok(Arc::new(GenericListArray::<OffsetSize>::from(list_data)))
     }
 
@@ -633,18 +625,35 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     DataType::UInt16 => self.build_primitive_array::<UInt16Type>(rows, &field_path),
                     DataType::UInt8 => self.build_primitive_array::<UInt8Type>(rows, &field_path),
                     // TODO: this is incomplete
-                    DataType::Timestamp(unit, _) => match unit {
-                        TimeUnit::Second => {
-                            self.build_primitive_array::<TimestampSecondType>(rows, &field_path)
-                        }
-                        TimeUnit::Microsecond => self
-                            .build_primitive_array::<TimestampMicrosecondType>(rows, &field_path),
-                        TimeUnit::Millisecond => self
-                            .build_primitive_array::<TimestampMillisecondType>(rows, &field_path),
-                        TimeUnit::Nanosecond => {
-                            self.build_primitive_array::<TimestampNanosecondType>(rows, &field_path)
-                        }
-                    },
+                    DataType::Timestamp(unit, tz) => {
+                        let array = match unit {
+                            TimeUnit::Second => {
+                                self.build_primitive_array::<TimestampSecondType>(rows, &field_path)
+                            }
+                            TimeUnit::Microsecond => self
+                                .build_primitive_array::<TimestampMicrosecondType>(
+                                    rows,
+                                    &field_path,
+                                ),
+                            TimeUnit::Millisecond => self
+                                .build_primitive_array::<TimestampMillisecondType>(
+                                    rows,
+                                    &field_path,
+                                ),
+                            TimeUnit::Nanosecond => self
+                                .build_primitive_array::<TimestampNanosecondType>(
+                                    rows,
+                                    &field_path,
+                                ),
+                        };
+                        make_array(
+                            array
+                                .into_data()
+                                .into_builder()
+                                .data_type(DataType::Timestamp(*unit, tz.clone()))
+                                .build()?,
+                        )
+                    }
                     DataType::Date64 => self.build_primitive_array::<Date64Type>(rows, &field_path),
                     DataType::Date32 => self.build_primitive_array::<Date32Type>(rows, &field_path),
                     DataType::Time64(unit) => {
@@ -739,15 +748,15 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                 match v {
                                     Some(Value::Record(value)) => {
                                         bit_util::set_bit(&mut null_buffer, i);
-                                        value
+                                        Ok(value)
                                     }
-                                    None | Some(Value::Null) => &empty_vec,
+                                    None | Some(Value::Null) => Ok(&empty_vec),
                                     other => {
-                                        panic!("expected struct got {other:?}");
+                                        Err(SchemaError(format!("expected struct got {other:?}")))
                                     }
                                 }
                             })
-                            .collect::<Vec<&Vec<(String, Value)>>>();
+                            .collect::<ArrowResult<Vec<&Vec<(String, Value)>>>>()?;
                         let arrays =
                             self.build_struct_array(&struct_rows, &field_path, fields, &[])?;
                         // construct a struct array's data in order to set null buffer
@@ -806,8 +815,8 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
     }
 }
 
-/// Flattens a list of Avro values, by flattening lists, and treating all other values as
-/// single-value lists.
+/// Flattens a list of Avro values, by flattening lists, dropping nulls in place of lists, and
+/// treating all other values as single-value lists.
 /// This is used to read into nested lists (list of list, list of struct) and non-dictionary lists.
 #[inline]
 fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
@@ -817,6 +826,8 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
@@ -911,6 +922,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
@@ -959,12 +971,14 @@ where
             Value::Long(l)
             | Value::TimeMicros(l)
             | Value::TimestampMillis(l)
-            | Value::TimestampMicros(l) => NumCast::from(*l),
+            | Value::TimestampMicros(l)
+            | Value::TimestampNanos(l)
+            | Value::LocalTimestampMillis(l)
+            | Value::LocalTimestampMicros(l)
+            | Value::LocalTimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
-            Value::Duration(_d) => unimplemented!(), // shenanigans type
-            Value::Null => None,
-            _ => unreachable!(),
+            _ => None,
         }
     }
 }
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..9ff85a0 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -61,7 +61,11 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { .. } => {
+            return Err(CoreError::Unsupported(
+                "Avro named type references are not supported".to_string(),
+            ))
+        }
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -137,12 +141,16 @@ fn schema_to_field_with_props(
         AvroSchema::Date => DataType::Date32,
         AvroSchema::TimeMillis => DataType::Time32(TimeUnit::Millisecond),
         AvroSchema::TimeMicros => DataType::Time64(TimeUnit::Microsecond),
-        AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
-        AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
-        AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::TimestampMillis => {
+            DataType::Timestamp(TimeUnit::Millisecond, Some("UTC".into()))
+        }
+        AvroSchema::TimestampMicros => {
+            DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into()))
+        }
+        AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, Some("UTC".into())),
+        AvroSchema::LocalTimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
+        AvroSchema::LocalTimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
+        AvroSchema::LocalTimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
-- 
2.43.0


From 30c137309c49bb36bbdb41482fb248669afe392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 21/42] fix: log batches are merged to base batches by position
 and exact type

Align them by column name, casting where the types differ and filling what is
missing with nulls.
---
 crates/core/src/file_group/reader.rs |  3 +-
 crates/core/src/util/arrow.rs        | 47 ++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index a0f9e3c..278b40a 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -30,6 +30,7 @@ use crate::storage::Storage;
 use crate::timeline::committed::CommittedInstants;
 use crate::timeline::instant::Instant;
 use crate::timeline::selector::InstantRange;
+use crate::util::arrow::align_record_batches;
 use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
@@ -218,7 +219,6 @@ impl FileGroupReader {
             let base_record_batch = self
                 .read_file_slice_by_base_file_path(&relative_path)
                 .await?;
-            let schema = base_record_batch.schema();
             let mut all_record_batches = vec![base_record_batch];
 
             let log_file_paths = file_slice
@@ -243,6 +243,7 @@ impl FileGroupReader {
                 all_record_batches.extend(log_record_batch);
             }
 
+            let (schema, all_record_batches) = align_record_batches(all_record_batches)?;
             let merger = RecordMerger::new(self.hudi_configs.clone());
             merger.merge_record_batches(&schema, &all_record_batches)
         }
diff --git a/crates/core/src/util/arrow.rs b/crates/core/src/util/arrow.rs
index fd8c1f4..42e474e 100644
--- a/crates/core/src/util/arrow.rs
+++ b/crates/core/src/util/arrow.rs
@@ -21,9 +21,11 @@ use crate::Result;
 use arrow::array::ArrayRef;
 use arrow::array::RecordBatch;
 use arrow::array::StringArray;
-use arrow_array::{Array, UInt32Array};
+use arrow::compute::{cast_with_options, CastOptions};
+use arrow_array::{new_null_array, Array, UInt32Array};
 use arrow_row::{RowConverter, SortField};
-use arrow_schema::ArrowError;
+use arrow_schema::{ArrowError, FieldRef, Schema, SchemaRef};
+use std::sync::Arc;
 
 pub trait ColumnAsArray {
     fn get_array(&self, column_name: &str) -> Result<ArrayRef>;
@@ -68,6 +70,47 @@ pub fn lexsort_to_indices(arrays: &[ArrayRef], desc: bool) -> UInt32Array {
     UInt32Array::from_iter_values(sort.iter().map(|(i, _)| *i as u32))
 }
 
+/// Bring the batches to one schema: that of the first batch, followed by the fields found only in
+/// later ones. Columns are matched by name; those missing from a batch are filled with nulls.
+pub fn align_record_batches(batches: Vec<RecordBatch>) -> Result<(SchemaRef, Vec<RecordBatch>)> {
+    let mut fields: Vec<FieldRef> = Vec::new();
+    for (i, batch) in batches.iter().enumerate() {
+        for field in batch.schema().fields() {
+            if i == 0 {
+                fields.push(field.clone());
+            } else if !fields.iter().any(|f| f.name() == field.name()) {
+                fields.push(Arc::new(field.as_ref().clone().with_nullable(true)));
+            }
+        }
+    }
+    let metadata = batches
+        .first()
+        .map(|batch| batch.schema().metadata().clone())
+        .unwrap_or_default();
+    let schema = SchemaRef::new(Schema::new_with_metadata(fields, metadata));
+
+    let cast_options = CastOptions {
+        safe: false,
+        ..Default::default()
+    };
+    let batches = batches
+        .into_iter()
+        .map(|batch| {
+            let columns = schema
+                .fields()
+                .iter()
+                .map(|field| match batch.column_by_name(field.name()) {
+                    Some(column) if column.data_type() == field.data_type() => Ok(column.clone()),
+                    Some(column) => cast_with_options(column, field.data_type(), &cast_options),
+                    None => Ok(new_null_array(field.data_type(), batch.num_rows())),
+                })
+                .collect::<std::result::Result<Vec<_>, _>>()?;
+            Ok(RecordBatch::try_new(schema.clone(), columns)?)
+        })
+        .collect::<Result<Vec<_>>>()?;
+    Ok((schema, batches))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9535b53edc597cc37d2f12769d933d4484f500fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 22/42] fix: change data capture files are read as log files

The file name parser is expected to refuse them, so that the listing skips
them, but took the suffix for a part of the write token.
---
 crates/core/src/file_group/log_file/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..b6586d0 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -41,6 +41,7 @@ pub struct LogFile {
 }
 
 const LOG_FILE_PREFIX: char = '.';
+const CDC_LOG_FILE_SUFFIX: &str = ".cdc";
 
 impl LogFile {
     /// Parse a log file's name into parts.
@@ -82,6 +83,7 @@ impl LogFile {
             || log_file_extension.is_empty()
             || log_file_version.is_empty()
             || file_write_token.is_empty()
+            || file_write_token.ends_with(CDC_LOG_FILE_SUFFIX)
         {
             return Err(CoreError::FileGroup(err_msg.clone()));
         }
-- 
2.43.0


From 558b592d5e19b3d886568571bfa0cb79bef9d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 23/42] fix: clustering commits are not found

Writers record the operation type in upper case.
---
 crates/core/src/timeline/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 7bb9668..c8863ec 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -205,7 +205,7 @@ impl Timeline {
                 .ok_or_else(|| {
                     CoreError::CommitMetadata("Failed to get operation type".to_string())
                 })?;
-            if op_type == "cluster" {
+            if op_type.eq_ignore_ascii_case("cluster") {
                 clustering_instants.push(instant);
             }
         }
-- 
2.43.0


From fdd2966913f2c6db77b386723a91500655cfcde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 24/42] fix: opening a table with invalid configs panics

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 24c5de4..d50d6c2 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From 9a2f65da4a2918d8bae20e68d332aab10cf8ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 25/42] fix: incremental queries fail or miss records while
 compactions are pending

The file slices to read were put together from the commit metadata alone,
which names no base file while a compaction is pending, and may have more than
one entry per file group.
---
 crates/core/src/file_group/builder.rs |  8 ++++-
 crates/core/src/table/fs_view.rs      | 46 ++++++++++++++++++++++++++-
 crates/core/src/table/listing.rs      |  5 ++-
 crates/core/src/table/mod.rs          | 11 ++-----
 4 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..7e33a29 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -73,6 +73,11 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 let base_file_name = base_file_name
                     .as_str()
                     .ok_or_else(|| CoreError::CommitMetadata("Invalid base file name".into()))?;
+                if base_file_name.is_empty() {
+                    // There is no base file yet, e.g. while a compaction is pending.
+                    file_groups.merge([file_group])?;
+                    continue;
+                }
                 file_group.add_base_file_from_name(base_file_name)?;
 
                 if let Some(log_file_names) = stat.get("logFiles") {
@@ -103,7 +108,8 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            // A commit may have written more than one file to the same file group.
+            file_groups.merge([file_group])?;
         }
     }
 
diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index 7a68b40..d081dbc 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -17,7 +17,7 @@
  * under the License.
  */
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::sync::Arc;
 
 use crate::config::HudiConfigs;
@@ -110,6 +110,50 @@ impl FileSystemView {
         Ok(file_slices)
     }
 
+    /// Get the file slices, as of the timestamp, of the given file groups.
+    ///
+    /// What is known of the file groups by the caller serves for the files that are gone.
+    pub(crate) async fn get_file_slices_of_file_groups_as_of(
+        &self,
+        timestamp: &str,
+        file_groups: &HashSet<FileGroup>,
+    ) -> Result<Vec<FileSlice>> {
+        let lister = FileLister::new(
+            self.hudi_configs.clone(),
+            self.storage.clone(),
+            PartitionPruner::empty(),
+        )
+        .with_committed_instants(self.committed_instants.clone());
+        let partition_paths: BTreeSet<&str> = file_groups
+            .iter()
+            .map(|fg| fg.partition_path.as_str())
+            .collect();
+        let mut listed_file_groups: HashSet<FileGroup> = HashSet::new();
+        for partition_path in partition_paths {
+            listed_file_groups.extend(
+                lister
+                    .list_file_groups_for_partition(partition_path)
+                    .await?,
+            );
+        }
+
+        Ok(file_groups
+            .iter()
+            .filter_map(|fg| {
+                let known = fg.get_file_slice_as_of(timestamp);
+                let listed = listed_file_groups
+                    .get(fg)
+                    .and_then(|fg| fg.get_file_slice_as_of(timestamp));
+                // the latter if equal
+                [known, listed]
+                    .into_iter()
+                    .flatten()
+                    .max_by_key(|fsl| fsl.creation_instant_time())
+                    .cloned()
+            })
+            .collect())
+    }
+
     pub async fn get_file_slices_as_of(
         &self,
         timestamp: &str,
diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index b87c4ba..01a0774 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -78,7 +78,10 @@ impl FileLister {
         file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
     }
 
-    async fn list_file_groups_for_partition(&self, partition_path: &str) -> Result<Vec<FileGroup>> {
+    pub(crate) async fn list_file_groups_for_partition(
+        &self,
+        partition_path: &str,
+    ) -> Result<Vec<FileGroup>> {
         let base_file_format = self
             .hudi_configs
             .get_or_default(BaseFileFormat)
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 3e0ff7b..93195fe 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -371,18 +371,13 @@ impl Table {
     ) -> Result<Vec<FileSlice>> {
         let end_timestamp = Instant::to_millis_format(end_timestamp);
         let end_timestamp = end_timestamp.as_str();
-        let mut file_slices: Vec<FileSlice> = Vec::new();
         let file_groups = self
             .timeline
             .get_file_groups_between(Some(start_timestamp), Some(end_timestamp))
             .await?;
-        for file_group in file_groups {
-            if let Some(file_slice) = file_group.get_file_slice_as_of(end_timestamp) {
-                file_slices.push(file_slice.clone());
-            }
-        }
-
-        Ok(file_slices)
+        self.file_system_view
+            .get_file_slices_of_file_groups_as_of(end_timestamp, &file_groups)
+            .await
     }
 
     /// Create a [FileGroupReader] using the [Table]'s Hudi configs, and overwriting options.
-- 
2.43.0


From 65b7fead023e3e73aed6c54dad803d67715aa3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 26/42] fix: partition values of null are compared as strings
 or disable pruning

A partition with a null among its values was returned whatever the filters on its other
values, as the null did not parse as its type.
---
 crates/core/src/table/partition.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index bf5ab8f..a7d63b7 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -22,7 +22,7 @@ use crate::error::CoreError::InvalidPartitionPath;
 use crate::expr::filter::{Filter, SchemableFilter};
 use crate::Result;
 
-use arrow_array::{ArrayRef, Scalar};
+use arrow_array::{new_null_array, Array, ArrayRef, Scalar};
 use arrow_schema::Schema;
 
 use crate::config::table::HudiTableConfig::{KeyGeneratorClass, PartitionFields};
@@ -32,6 +32,9 @@ use std::sync::Arc;
 pub const PARTITION_METAFIELD_PREFIX: &str = ".hoodie_partition_metadata";
 pub const EMPTY_PARTITION_PATH: &str = "";
 
+/// What partition paths have in place of null.
+const NULL_PARTITION_VALUE: &str = "__HIVE_DEFAULT_PARTITION__";
+
 pub fn is_table_partitioned(hudi_configs: &HudiConfigs) -> bool {
     let has_partition_fields = !hudi_configs
         .get_or_default(PartitionFields)
@@ -109,7 +112,8 @@ impl PartitionPruner {
             match segments.get(filter.field.name()) {
                 Some(segment_value) => {
                     match filter.apply_comparsion(segment_value) {
-                        Ok(scalar) => scalar.value(0),
+                        // A null value satisfies no filter.
+                        Ok(scalar) => scalar.is_valid(0) && scalar.value(0),
                         Err(_) => true, // Include the partition when comparison error occurs
                     }
                 }
@@ -169,7 +173,11 @@ impl PartitionPruner {
                 } else {
                     part.as_str()
                 };
-                let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
+                let scalar = if value == NULL_PARTITION_VALUE {
+                    Scalar::new(new_null_array(field.data_type(), 1))
+                } else {
+                    SchemableFilter::cast_value(&[value], field.data_type())?
+                };
                 Ok((field.name().to_string(), scalar))
             })
             .collect()
-- 
2.43.0


From f8234c77de86563100338a131db190612e6c2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 27/42] fix: partition filters drop all records of an
 unpartitioned table

---
 crates/core/src/table/partition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index a7d63b7..b4b603a 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -103,6 +103,10 @@ impl PartitionPruner {
 
     /// Returns `true` if the partition path should be included based on the filters.
     pub fn should_include(&self, partition_path: &str) -> bool {
+        if partition_path == EMPTY_PARTITION_PATH {
+            return true; // An unpartitioned table has nothing to prune
+        }
+
         let segments = match self.parse_segments(partition_path) {
             Ok(s) => s,
             Err(_) => return true, // Include the partition regardless of parsing error
-- 
2.43.0


From 9c7115b667b36442ef81c3dabc1da0f64e6aade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 28/42] fix: time travel with filters fails on an empty table

---
 crates/core/src/table/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 93195fe..29e4099 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -320,6 +320,15 @@ impl Table {
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<FileSlice>> {
+        if self
+            .timeline
+            .get_latest_commit_timestamp_as_option()
+            .is_none()
+        {
+            // No latest commit timestamp means the table is empty.
+            return Ok(Vec::new());
+        }
+
         let timestamp = Instant::to_millis_format(timestamp);
         let timestamp = timestamp.as_str();
         let excludes = self
-- 
2.43.0


From 6694fdb9e02414f27003885e02db0cac30e2380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 29/42] fix: without completed instants, pending ones are taken
 for archived

---
 crates/core/src/timeline/committed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/committed.rs b/crates/core/src/timeline/committed.rs
index 061af89..4563505 100644
--- a/crates/core/src/timeline/committed.rs
+++ b/crates/core/src/timeline/committed.rs
@@ -57,15 +57,17 @@ impl CommittedInstants {
 
     /// From the selector of completed instants, and the files of the timeline.
     pub(crate) fn new(selector: &TimelineSelector, files: &[FileMetadata]) -> Self {
-        let completed = files
+        let completed: HashSet<String> = files
             .iter()
             .filter_map(|file| selector.try_create_instant(&file.name).ok())
             .map(|instant| instant.timestamp)
             .collect();
+        // archiving always leaves some completed instants
         let active_start = files
             .iter()
             .filter_map(|file| Self::parse_data_writing_instant_time(&file.name))
             .min()
+            .filter(|_| !completed.is_empty())
             .map(|timestamp| timestamp.to_string());
         Self {
             completed,
-- 
2.43.0


From 8ab019a86a2b70c1dd6a23bfa6f3036685a48364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 30/42] fix: there is no latest schema once all base files are
 deleted

---
 crates/core/src/timeline/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index c8863ec..0ff459b 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -21,10 +21,12 @@ pub mod instant;
 pub(crate) mod selector;
 
 use crate::avro_to_arrow::to_arrow_schema;
+use crate::config::table::HudiTableConfig;
 use crate::config::HudiConfigs;
 use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
+use crate::metadata::meta_field::MetaField;
 use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::error::StorageError;
 use crate::storage::file_metadata::FileMetadata;
@@ -329,9 +331,24 @@ impl Timeline {
                 }
             }
         }
-        Err(CoreError::CommitMetadata(
-            "Failed to resolve the latest schema: no base file found".to_string(),
-        ))
+        // Whatever was written may be deleted by now.
+        latest_avro_schema
+            .map(|schema| Self::extend_schema(self.meta_fields_schema(), Some(schema)))
+            .ok_or(CoreError::CommitMetadata(
+                "Failed to resolve the latest schema: no base file found".to_string(),
+            ))
+    }
+
+    fn meta_fields_schema(&self) -> Schema {
+        let populates_meta_fields = self
+            .hudi_configs
+            .get_or_default(HudiTableConfig::PopulatesMetaFields)
+            .to::<bool>();
+        if populates_meta_fields {
+            MetaField::schema().as_ref().clone()
+        } else {
+            Schema::empty()
+        }
     }
 
     fn extend_schema(schema: Schema, other: Option<Schema>) -> Schema {
-- 
2.43.0


From e099b74a109ee96d991330637ba9add0cb36ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 31/42] fix: schema lookup fails if a base file is deleted
 while it is read

---
 crates/core/src/storage/error.rs | 14 ++++++++++++++
 crates/core/src/timeline/mod.rs  |  5 +----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/storage/error.rs b/crates/core/src/storage/error.rs
index a29dd6a..6e1e80e 100644
--- a/crates/core/src/storage/error.rs
+++ b/crates/core/src/storage/error.rs
@@ -46,3 +46,17 @@ pub enum StorageError {
     #[error(transparent)]
     UrlParseError(#[from] url::ParseError),
 }
+
+impl StorageError {
+    /// Whether the object does not exist. It may also be deleted while it is read.
+    pub fn is_not_found(&self) -> bool {
+        match self {
+            StorageError::ObjectStoreError(object_store::Error::NotFound { .. }) => true,
+            StorageError::ParquetError(parquet::errors::ParquetError::External(e)) => matches!(
+                e.downcast_ref::<object_store::Error>(),
+                Some(object_store::Error::NotFound { .. })
+            ),
+            _ => false,
+        }
+    }
+}
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 0ff459b..abba286 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -28,7 +28,6 @@ use crate::file_group::builder::{build_file_groups, build_replaced_file_groups,
 use crate::file_group::FileGroup;
 use crate::metadata::meta_field::MetaField;
 use crate::metadata::HUDI_METADATA_DIR;
-use crate::storage::error::StorageError;
 use crate::storage::file_metadata::FileMetadata;
 use crate::storage::Storage;
 use crate::timeline::committed::CommittedInstants;
@@ -324,9 +323,7 @@ impl Timeline {
             for path in Self::base_file_paths_of_commit(&commit_metadata) {
                 match self.storage.get_parquet_file_schema(&path).await {
                     Ok(schema) => return Ok(Self::extend_schema(schema, latest_avro_schema)),
-                    Err(StorageError::ObjectStoreError(object_store::Error::NotFound {
-                        ..
-                    })) => continue,
+                    Err(e) if e.is_not_found() => continue,
                     Err(e) => return Err(e.into()),
                 }
             }
-- 
2.43.0


From 7af14e1a2f1a7dba422bd175b262a7653e419c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 32/42] fix: Avro map columns are taken for dictionaries in the
 latest schema

---
 crates/core/src/avro_to_arrow/schema.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index 9ff85a0..2f5b80f 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -83,9 +83,17 @@ fn schema_to_field_with_props(
         AvroSchema::Map(value_schema) => {
             let value_field =
                 schema_to_field_with_props(&value_schema.types, Some("value"), false, None)?;
-            DataType::Dictionary(
-                Box::new(DataType::Utf8),
-                Box::new(value_field.data_type().clone()),
+            let entries = vec![
+                Field::new("key", DataType::Utf8, false),
+                value_field.with_metadata(Default::default()),
+            ];
+            DataType::Map(
+                Arc::new(Field::new(
+                    "key_value",
+                    DataType::Struct(entries.into()),
+                    false,
+                )),
+                false,
             )
         }
         AvroSchema::Union(us) => {
@@ -219,7 +227,7 @@ fn default_field_name(dt: &DataType) -> &str {
         DataType::Struct(_) => "struct",
         DataType::Union(_, _) => "union",
         DataType::Dictionary(_, _) => "map",
-        DataType::Map(_, _) => unimplemented!("Map support not implemented"),
+        DataType::Map(_, _) => "map",
         DataType::RunEndEncoded(_, _) => {
             unimplemented!("RunEndEncoded support not implemented")
         }
-- 
2.43.0


From 92cd6cf5a47da8c5e17ab2406ad735363224c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 33/42] fix: do not hold 16 MiB for each open log file

A scan opens all log files of a file slice, and many file slices are read at a time.
---
 crates/core/src/file_group/log_file/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 71d071e..b322c5d 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -63,7 +63,8 @@ impl LogFileReader<StorageReader> {
             hudi_configs,
             storage,
             reader,
-            buffer: BytesMut::with_capacity(DEFAULT_BUFFER_SIZE),
+            // allocated on demand: many log files may be open at a time
+            buffer: BytesMut::new(),
             timezone,
             committed_instants: None,
             rollback_targets: HashSet::new(),
-- 
2.43.0


From da1cb88982fb653613349527de37d2fa756bc6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 34/42] fix: order records of equal precombine value by commit
 time

Sequence numbers start with the instant, so those of 14-digit instants sort
after the ones of 17-digit instants in the same second.
---
 crates/core/src/merge/record_merger.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 74fc568..a2f100e 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -107,10 +107,16 @@ impl RecordMerger {
                 let precombine_field = self.hudi_configs.get(PrecombineField)?.to::<String>();
                 let precombine_array = concat_batch.get_array(&precombine_field)?;
                 let commit_seqno_array = concat_batch.get_array(MetaField::CommitSeqno.as_ref())?;
-                let sorted_indices = lexsort_to_indices(
-                    &[precombine_array.clone(), commit_seqno_array.clone()],
-                    true,
-                );
+                let mut ordering_arrays = vec![precombine_array.clone()];
+                // Instants of second and of millisecond precision may be mixed: within a sequence
+                // number, these do not sort by time, as what follows the instant is compared.
+                if let Ok(commit_time_array) =
+                    concat_batch.get_array(MetaField::CommitTime.as_ref())
+                {
+                    ordering_arrays.push(commit_time_array.clone());
+                }
+                ordering_arrays.push(commit_seqno_array.clone());
+                let sorted_indices = lexsort_to_indices(&ordering_arrays, true);
 
                 let record_key_array =
                     concat_batch.get_string_array(MetaField::RecordKey.as_ref())?;
-- 
2.43.0


From 3a6ec98082046114a1e7dbac7956129f37b195b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 35/42] fix: SQL predicates on other than partition fields fail
 the query

---
 crates/datafusion/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..be43356 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -44,6 +44,7 @@ use datafusion_physical_expr::create_physical_expr;
 
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
+use hudi_core::config::table::HudiTableConfig::PartitionFields;
 use hudi_core::config::util::empty_options;
 use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
 use hudi_core::table::Table as HudiTable;
@@ -104,6 +105,13 @@ impl HudiDataSource {
             .to::<usize>()
     }
 
+    fn get_partition_fields(&self) -> Vec<String> {
+        self.table
+            .hudi_configs
+            .get_or_default(PartitionFields)
+            .to::<Vec<String>>()
+    }
+
     /// Check if the given expression can be pushed down to the Hudi table.
     ///
     /// The expression can be pushed down if it is a binary expression with a supported operator and operands.
@@ -176,7 +184,10 @@ impl TableProvider for HudiDataSource {
         self.table.register_storage(state.runtime_env().clone());
 
         // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        let mut pushdown_filters = exprs_to_filters(filters);
+        // Only partition values are known when planning
+        let partition_fields = self.get_partition_fields();
+        pushdown_filters.retain(|(field, _, _)| partition_fields.contains(field));
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 2db1f3123cf5ad39cc56204f91eaa0d1776c6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 36/42] fix: SQL predicates with the literal on the left prune
 the wrong partitions

---
 crates/datafusion/src/util/expr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..2ec9bce 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -49,16 +49,16 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From 5d85acdabce706006276a869134e7a36bc210376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 37/42] fix: SQL predicates with dates or null on partition
 fields fail the query

---
 crates/datafusion/src/util/expr.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 2ec9bce..3cdaf73 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -17,7 +17,9 @@
  * under the License.
  */
 
+use arrow_array::types::Date32Type;
 use datafusion::logical_expr::Operator;
+use datafusion_common::ScalarValue;
 use datafusion_expr::{BinaryExpr, Expr};
 use hudi_core::expr::filter::{col, Filter as HudiFilter};
 
@@ -56,7 +58,7 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     };
 
     let field = col(column.name());
-    let lit_str = literal.to_string();
+    let lit_str = literal_to_filter_value(literal)?;
 
     let filter = match op {
         Operator::Eq => field.eq(lit_str),
@@ -71,6 +73,32 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     Some(filter)
 }
 
+/// Formats a literal the way partition values are written, or returns `None` if the literal
+/// is null or its type is not supported for partition values.
+fn literal_to_filter_value(literal: &ScalarValue) -> Option<String> {
+    match literal {
+        ScalarValue::Utf8(Some(s))
+        | ScalarValue::LargeUtf8(Some(s))
+        | ScalarValue::Utf8View(Some(s)) => Some(s.clone()),
+        ScalarValue::Date32(Some(days)) => {
+            let date = Date32Type::to_naive_date(*days);
+            Some(date.format("%Y-%m-%d").to_string())
+        }
+        ScalarValue::Boolean(Some(_))
+        | ScalarValue::Int8(Some(_))
+        | ScalarValue::Int16(Some(_))
+        | ScalarValue::Int32(Some(_))
+        | ScalarValue::Int64(Some(_))
+        | ScalarValue::UInt8(Some(_))
+        | ScalarValue::UInt16(Some(_))
+        | ScalarValue::UInt32(Some(_))
+        | ScalarValue::UInt64(Some(_))
+        | ScalarValue::Float32(Some(_))
+        | ScalarValue::Float64(Some(_)) => Some(literal.to_string()),
+        _ => None,
+    }
+}
+
 /// Converts a NOT expression (`Expr::Not`) into a `PartitionFilter`.
 fn not_expr_to_filter(not_expr: &Expr) -> Option<HudiFilter> {
     match not_expr {
-- 
2.43.0


From bd297852da6a2d79895e8904ba059b901d594967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 38/42] fix: SQL queries do not find files whose paths have
 special characters

---
 crates/datafusion/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index be43356..19a66cb 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -28,7 +28,7 @@ use std::thread;
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
 use datafusion::catalog::{Session, TableProviderFactory};
-use datafusion::datasource::listing::PartitionedFile;
+use datafusion::datasource::listing::{ListingTableUrl, PartitionedFile};
 use datafusion::datasource::object_store::ObjectStoreUrl;
 use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
 use datafusion::datasource::physical_plan::FileScanConfig;
@@ -206,7 +206,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new("", size as u64);
+                // The path of the url is encoded, that of the object is not
+                partitioned_file.object_meta.location =
+                    ListingTableUrl::parse(url.as_str())?.prefix().clone();
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From 0d82cea160b0f866630aca5094b1057f08db02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 39/42] fix: SQL tables get an empty schema when it cannot be
 read

---
 crates/datafusion/src/lib.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 19a66cb..cc3eb4d 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,7 +23,6 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
-use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
@@ -46,6 +45,7 @@ use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::table::HudiTableConfig::PartitionFields;
 use hudi_core::config::util::empty_options;
+use hudi_core::error::CoreError;
 use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
@@ -79,6 +79,7 @@ use hudi_core::util::StrTupleRef;
 #[derive(Clone, Debug)]
 pub struct HudiDataSource {
     table: Arc<HudiTable>,
+    schema: SchemaRef,
 }
 
 impl HudiDataSource {
@@ -92,10 +93,20 @@ impl HudiDataSource {
         K: AsRef<str>,
         V: Into<String>,
     {
-        match HudiTable::new_with_options(base_uri, options).await {
-            Ok(t) => Ok(Self { table: Arc::new(t) }),
-            Err(e) => Err(Execution(format!("Failed to create Hudi table: {}", e))),
-        }
+        let table = HudiTable::new_with_options(base_uri, options)
+            .await
+            .map_err(|e| Execution(format!("Failed to create Hudi table: {}", e)))?;
+        let schema = match table.get_schema().await {
+            Ok(schema) => schema,
+            // Nothing was written to the table yet
+            Err(CoreError::CommitMetadata(_)) => Schema::empty(),
+            Err(e) => return Err(Execution(format!("Failed to get schema: {}", e))),
+        };
+
+        Ok(Self {
+            table: Arc::new(table),
+            schema: Arc::new(schema),
+        })
     }
 
     fn get_input_partitions(&self) -> usize {
@@ -161,13 +172,7 @@ impl TableProvider for HudiDataSource {
     }
 
     fn schema(&self) -> SchemaRef {
-        let table = self.table.clone();
-        let handle = thread::spawn(move || {
-            let rt = tokio::runtime::Runtime::new().unwrap();
-            rt.block_on(async { table.get_schema().await })
-        });
-        let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
-        SchemaRef::from(result)
+        self.schema.clone()
     }
 
     fn table_type(&self) -> TableType {
-- 
2.43.0


From 3175fce301e4fe7b943a4c6250905b1e4e6a92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 40/42] fix: some SQL queries that match no files fail to be
 planned

---
 crates/datafusion/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index cc3eb4d..83691ba 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -34,8 +34,10 @@ use datafusion::datasource::physical_plan::FileScanConfig;
 use datafusion::datasource::TableProvider;
 use datafusion::error::Result;
 use datafusion::logical_expr::Operator;
+use datafusion::physical_plan::empty::EmptyExec;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::config::TableParquetOptions;
+use datafusion_common::project_schema;
 use datafusion_common::DFSchema;
 use datafusion_common::DataFusionError::Execution;
 use datafusion_expr::{CreateExternalTable, Expr, TableProviderFilterPushDown, TableType};
@@ -219,6 +221,11 @@ impl TableProvider for HudiDataSource {
             }
             parquet_file_groups.push(parquet_file_group_vec)
         }
+        if parquet_file_groups.is_empty() {
+            // A scan without file groups has no output partition, which some plans reject
+            let schema = project_schema(&self.schema(), projection)?;
+            return Ok(Arc::new(EmptyExec::new(schema)));
+        }
 
         let base_url = self.table.base_url();
         let url = ObjectStoreUrl::parse(get_scheme_authority(&base_url))?;
-- 
2.43.0


From 66a06f3a96d699a775aa97ec13d899f6c0b9e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 41/42] sim: runtime seam of the Python binding behind
 cfg(hudi_sim)

---
 python/src/internal.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/python/src/internal.rs b/python/src/internal.rs
index 86c50e0..02082f1 100644
--- a/python/src/internal.rs
+++ b/python/src/internal.rs
@@ -21,7 +21,11 @@ use arrow::pyarrow::ToPyArrow;
 use std::collections::HashMap;
 use std::convert::From;
 use std::path::PathBuf;
+#[allow(unexpected_cfgs)]
+#[cfg(not(hudi_sim))]
 use std::sync::OnceLock;
+#[allow(unexpected_cfgs)]
+#[cfg(not(hudi_sim))]
 use tokio::runtime::Runtime;
 
 use hudi::error::CoreError;
@@ -601,7 +605,40 @@ pub fn build_hudi_table(
     Ok(HudiTable { inner })
 }
 
+/// Simulation seam, compiled only with `--cfg hudi_sim`: what blocks on futures instead of a runtime.
+#[allow(unexpected_cfgs)]
+#[cfg(hudi_sim)]
+pub mod sim {
+    use std::future::Future;
+    use std::pin::{pin, Pin};
+    use std::sync::OnceLock;
+
+    pub type BlockOn = fn(Pin<&mut dyn Future<Output = ()>>);
+    pub static BLOCK_ON: OnceLock<BlockOn> = OnceLock::new();
+
+    pub struct SimRuntime;
+
+    impl SimRuntime {
+        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
+            let mut out = None;
+            {
+                let g = pin!(async { out = Some(f.await) });
+                (BLOCK_ON.get().expect("no simulator"))(g);
+            }
+            out.expect("not finished")
+        }
+    }
+}
+
+#[allow(unexpected_cfgs)]
+#[cfg(hudi_sim)]
+fn rt() -> sim::SimRuntime {
+    sim::SimRuntime
+}
+
 #[cfg(not(tarpaulin_include))]
+#[allow(unexpected_cfgs)]
+#[cfg(not(hudi_sim))]
 fn rt() -> &'static Runtime {
     static TOKIO_RT: OnceLock<Runtime> = OnceLock::new();
     TOKIO_RT.get_or_init(|| Runtime::new().expect("Failed to create a tokio runtime."))
-- 
2.43.0


From 9c9d1b8c99e9b0211b6f417176bde8a725cea188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 42/42] fix: the Python binding fails to read file slices while
 compactions are pending

---
 python/src/internal.rs | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/python/src/internal.rs b/python/src/internal.rs
index 02082f1..82b8b05 100644
--- a/python/src/internal.rs
+++ b/python/src/internal.rs
@@ -21,6 +21,7 @@ use arrow::pyarrow::ToPyArrow;
 use std::collections::HashMap;
 use std::convert::From;
 use std::path::PathBuf;
+use std::str::FromStr;
 #[allow(unexpected_cfgs)]
 #[cfg(not(hudi_sim))]
 use std::sync::OnceLock;
@@ -29,9 +30,10 @@ use std::sync::OnceLock;
 use tokio::runtime::Runtime;
 
 use hudi::error::CoreError;
+use hudi::file_group::base_file::BaseFile;
 use hudi::file_group::file_slice::FileSlice;
+use hudi::file_group::log_file::LogFile;
 use hudi::file_group::reader::FileGroupReader;
-use hudi::file_group::FileGroup;
 use hudi::storage::error::StorageError;
 use hudi::table::builder::TableBuilder;
 use hudi::table::Table;
@@ -90,30 +92,15 @@ impl HudiFileGroupReader {
             .to_pyarrow(py)
     }
     fn read_file_slice(&self, file_slice: &HudiFileSlice, py: Python) -> PyResult<PyObject> {
-        let mut file_group = FileGroup::new(
-            file_slice.file_id.clone(),
-            file_slice.partition_path.clone(),
-        );
-        file_group
-            .add_base_file_from_name(&file_slice.base_file_name)
-            .map_err(PythonError::from)?;
+        let base_file =
+            BaseFile::from_str(&file_slice.base_file_name).map_err(PythonError::from)?;
+        let mut inner_file_slice = FileSlice::new(base_file, file_slice.partition_path.clone());
         for name in file_slice.log_file_names.iter() {
-            file_group
-                .add_log_file_from_name(name)
-                .map_err(PythonError::from)?;
+            // not necessarily of the base file's instant: a compaction may be pending
+            let log_file = LogFile::from_str(name).map_err(PythonError::from)?;
+            inner_file_slice.log_files.insert(log_file);
         }
-        let (_, inner_file_slice) = file_group
-            .file_slices
-            .iter()
-            .next()
-            .ok_or_else(|| {
-                CoreError::FileGroup(format!(
-                    "Failed to get file slice from file group: {:?}",
-                    file_group
-                ))
-            })
-            .map_err(PythonError::from)?;
-        rt().block_on(self.inner.read_file_slice(inner_file_slice))
+        rt().block_on(self.inner.read_file_slice(&inner_file_slice))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
-- 
2.43.0

