From 9aac1040fac9605ae25e108d4fc97abcca789159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 01/30] fix: use predicate id maps when rolling up predicates
 up to an ancestor

dictionary_rollup_upto collected the node/value id maps of the in-memory
layers where it needed their predicate id maps, so predicates of a rolled
up layer could be resolved to the wrong name or to nothing at all.
---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..aa0e97b 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -195,7 +195,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
             layer
                 .immediate_layers_upto(memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From b7b42a766bfc48f1421006805af3d55d91b18c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 02/30] fix: return the predicate count from
 CachedLayerStore::get_predicate_count

For a layer that was not in the cache this returned the value count.
---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..2cec0e7 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -197,7 +197,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From 677dfad92dc33839514365fafc096eca49987407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 03/30] fix: collect the changes of every ancestor in
 layer_changes

layer_changes walks the ancestors of a layer, but at each step it read the
additions and removals of the layer it started from.
---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..788f507 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From 2bcd30fca30ea9ae71e6a6254c05c7d5ad6995a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 04/30] fix: allow rolling up to an ancestor when a full rollup
 exists

The check for an equivalent rollup read the parent of the existing rollup.
A full rollup is a base layer, which has no parent file, so rollup_upto and
imprecise_rollup_upto failed (or panicked) on every fully rolled up layer.
---
 src/storage/layer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 788f507..a4f0bc7 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1770,7 +1770,9 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // (a full rollup is a base layer, which has no parent)
+            if self.layer_has_parent(rollup).await? && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1805,7 +1807,9 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // (a full rollup is a base layer, which has no parent)
+            if self.layer_has_parent(rollup).await? && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From e556fec0062260e4ae5ba408fc13c7e11ac57d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 05/30] fix: stack an imprecise rollup on the layer its changes
 start from

If the loaded layer is based on a rollup which skips over the requested
ancestor, only the changes since that rollup are collected. The resulting
rollup was still stacked on the requested ancestor, losing all changes in
between.
---
 src/storage/delta.rs |  2 +-
 src/storage/layer.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa0e97b..c715c03 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,7 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+pub(crate) async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index a4f0bc7..be5294b 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1815,10 +1815,18 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             }
         }
 
+        // The loaded layer may itself be based on rollups which skip over upto. The changes
+        // that get rolled up start at the oldest loaded layer that is not older than upto, so
+        // that is the layer the rollup has to be stacked on.
+        let bound = safe_upto_bound(self, &layer, upto).await?;
+        if layer.name() == bound || layer.parent_name() == Some(bound) {
+            return Ok(layer.name());
+        }
+
         let (layer_dir, _parent_layer, child_layer_files) = self
-            .create_child_layer_files_with_cache(upto, cache)
+            .create_child_layer_files_with_cache(bound, cache)
             .await?;
-        imprecise_delta_rollup_upto(self, &layer, upto, child_layer_files).await?;
+        imprecise_delta_rollup_upto(self, &layer, bound, child_layer_files).await?;
         self.finalize(layer_dir).await?;
         Ok(layer_dir)
     }
-- 
2.43.0


From e89756c0d4374fd0cc946619171e35d449d17e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 06/30] fix: compare the whole label when updating a label in
 memory

Only the version was compared, so an update based on a label that had since
been deleted and created again with the same version overwrote it. The file
based label stores compare the whole label.
---
 src/storage/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 0d8fbfc..75f0b61 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -130,7 +130,7 @@ impl LabelStore for MemoryLabelStore {
                 "label does not exist",
             )),
             Some(old_label) => {
-                if old_label.version + 1 != new_label.version {
+                if old_label != label {
                     Ok(None)
                 } else {
                     labels.insert(new_label.name.clone(), new_label.clone());
-- 
2.43.0


From f5fe01ab91c2fc70e9951cee16214b42e396a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 07/30] fix: report refused changes from apply_delta and
 apply_diff

When the builder is committed while a delta or diff is being applied to it,
the remaining changes are refused. apply_delta ignored that and reported
success, apply_diff panicked.
---
 src/store/mod.rs | 69 ++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..16569a7 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -169,58 +169,57 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        let (additions, removals) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                triple_additions.par_bridge().try_for_each(|t| {
+                    match delta.id_triple_to_string(&t) {
+                        Some(st) => self.add_value_triple(st),
+                        None => Ok(()),
+                    }
+                })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
-                })
+                triple_removals
+                    .par_bridge()
+                    .try_for_each(|t| match delta.id_triple_to_string(&t) {
+                        Some(st) => self.remove_value_triple(st),
+                        None => Ok(()),
+                    })
             },
         );
 
-        Ok(())
+        additions.and(removals)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
-            || {
-                if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
-                        if let Some(st) = this.id_triple_to_string(&t) {
-                            if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
-                            }
-                        }
-                    })
-                };
+        let (removals, additions) = rayon::join(
+            || match self.parent() {
+                Some(this) => this.triples().par_bridge().try_for_each(|t| {
+                    match this.id_triple_to_string(&t) {
+                        Some(st) if !other.value_triple_exists(&st) => self.remove_value_triple(st),
+                        _ => Ok(()),
+                    }
+                }),
+                None => Ok(()),
             },
             || {
-                other.triples().par_bridge().for_each(|t| {
-                    if let Some(st) = other.id_triple_to_string(&t) {
-                        if let Some(this) = self.parent() {
-                            if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
-                            }
-                        } else {
-                            self.add_value_triple(st).unwrap()
-                        };
-                    }
-                })
+                other
+                    .triples()
+                    .par_bridge()
+                    .try_for_each(|t| match other.id_triple_to_string(&t) {
+                        Some(st) => match self.parent() {
+                            Some(this) if this.value_triple_exists(&st) => Ok(()),
+                            _ => self.add_value_triple(st),
+                        },
+                        None => Ok(()),
+                    })
             },
         );
 
-        Ok(())
+        removals.and(additions)
     }
 }
 
-- 
2.43.0


From 7d5c14d2e6c98b53b35bc31daf91020f439045fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 08/30] fix: update label files atomically and durably

Label files were created empty or truncated in place and then written. A
crash, a failed write or an abandoned future in between left an empty or
partial label that made the graph and the listing of all graphs unusable, and
readers of a label being created could see the empty file. The cached label
store did not truncate at all, leaving the tail of a longer label. Creation
and deletion were reported without syncing the directory, so that they could
be undone by a crash.

Replace label files by renaming, sync the directory, and perform each update
as one blocking operation, so that it runs to completion once started and
never holds a lock while waiting for another blocking thread.
---
 src/storage/atomic.rs    |  51 ++++++
 src/storage/directory.rs | 351 ++++++++++++++++++---------------------
 src/storage/mod.rs       |   1 +
 3 files changed, 218 insertions(+), 185 deletions(-)
 create mode 100644 src/storage/atomic.rs

diff --git a/src/storage/atomic.rs b/src/storage/atomic.rs
new file mode 100644
index 0000000..51f681d
--- /dev/null
+++ b/src/storage/atomic.rs
@@ -0,0 +1,51 @@
+//! File updates that are atomic, also with regard to crashes.
+
+use std::fs;
+use std::io::{self, Write};
+use std::path::Path;
+
+use tokio::task::spawn_blocking;
+
+/// Ensure that the directory entries in the given directory are on disk.
+pub(crate) fn sync_directory(path: &Path) -> io::Result<()> {
+    if cfg!(unix) {
+        fs::File::open(path)?.sync_all()?;
+    }
+
+    Ok(())
+}
+
+/// Write a file such that anyone looking at it, now or after a crash, will find either what was
+/// there before (possibly nothing) or the complete new contents.
+///
+/// The file is on disk when this returns.
+pub(crate) fn write_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let directory = path.parent().expect("file has no parent directory");
+    let temp_path = directory.join(format!(".{:032x}.tmp", rand::random::<u128>()));
+
+    let result = fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(&temp_path)
+        .and_then(|mut file| {
+            file.write_all(contents)?;
+            file.sync_all()
+        })
+        .and_then(|_| fs::rename(&temp_path, path));
+
+    if let Err(e) = result {
+        let _ = fs::remove_file(&temp_path);
+        return Err(e);
+    }
+
+    sync_directory(directory)
+}
+
+/// Run a set of blocking file operations as a single unit.
+///
+/// When the returned future is dropped, the operations that were started will still be completed.
+pub(crate) async fn blocking<R: Send + 'static, F: FnOnce() -> io::Result<R> + Send + 'static>(
+    f: F,
+) -> io::Result<R> {
+    spawn_blocking(f).await?
+}
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..9752a99 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -1,14 +1,19 @@
 //! Directory-based implementation of storage traits.
 
-use locking::*;
+use fs2::FileExt;
 use std::collections::HashMap;
-use std::io::{self, SeekFrom};
-use std::path::PathBuf;
+use std::io;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
-use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::sync::RwLock;
 
+#[cfg(test)]
+use {
+    locking::*,
+    tokio::io::{AsyncReadExt, AsyncWriteExt},
+};
+
 use async_trait::async_trait;
 
 pub use tdb_succinct::storage::file::*;
@@ -168,91 +173,89 @@ fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
     }
 }
 
-async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
-    let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
-
-    let mut file = LockedFile::open(path).await?;
-    let mut data = Vec::new();
-    file.read_to_end(&mut data).await?;
+fn label_data(label: &Label) -> Vec<u8> {
+    match label.layer {
+        None => format!("{}\n\n", label.version).into_bytes(),
+        Some(layer) => {
+            format!("{}\n{}\n", label.version, layer::name_to_string(layer)).into_bytes()
+        }
+    }
+}
 
-    get_label_from_data(label, &data)
+fn label_path(directory: &Path, name: &str) -> PathBuf {
+    directory.join(format!("{}.label", name))
 }
 
-async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
-    path: P,
-) -> io::Result<(Label, ExclusiveLockedFile)> {
-    let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+/// Create the file for a new label. If this fails, there'll be no such file.
+fn create_label_file(path: &Path, label: &Label) -> io::Result<()> {
+    atomic::write_file(path, &label_data(label)).map_err(|e| {
+        let _ = std::fs::remove_file(path);
+        e
+    })
+}
 
-    let mut file = ExclusiveLockedFile::open(path).await?;
-    let mut data = Vec::new();
-    file.read_to_end(&mut data).await?;
+fn delete_label_file(path: &Path) -> io::Result<()> {
+    std::fs::remove_file(path)?;
+    atomic::sync_directory(path.parent().expect("file has no parent directory"))
+}
 
-    let label = get_label_from_data(label, &data)?;
-    file.seek(SeekFrom::Start(0)).await?;
+/// Lock the labels in a directory for an update.
+///
+/// Label files are never modified but always replaced. Therefore, updates lock a separate file,
+/// and readers need no lock at all.
+fn lock_labels(directory: &Path) -> io::Result<std::fs::File> {
+    let file = std::fs::OpenOptions::new()
+        .create(true)
+        .write(true)
+        .open(directory.join("labels.lock"))?;
+    file.lock_exclusive()?;
+
+    Ok(file)
+}
 
-    Ok((label, file))
+async fn get_label_from_dir(directory: &Path, name: &str) -> io::Result<Option<Label>> {
+    match fs::read(label_path(directory, name)).await {
+        Ok(data) => get_label_from_data(name.to_owned(), &data).map(Some),
+        Err(e) => match e.kind() {
+            io::ErrorKind::NotFound => Ok(None),
+            _ => Err(e),
+        },
+    }
 }
 
 #[async_trait]
 impl LabelStore for DirectoryLabelStore {
     async fn labels(&self) -> io::Result<Vec<Label>> {
-        let mut stream = fs::read_dir(self.path.clone()).await?;
-        let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_file() {
-                let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                if name.ends_with(".label") {
-                    let label = get_label_from_file(direntry.path()).await?;
-                    result.push(label);
-                }
-            }
-        }
-
-        Ok(result)
+        let labels = get_all_labels_from_dir(&self.path).await?;
+        Ok(labels.into_values().collect())
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label));
-        let contents = "0\n\n".to_string().into_bytes();
-        match fs::metadata(&p).await {
-            Ok(_) => Err(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                "database already exists",
-            )),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => {
-                    let mut file = ExclusiveLockedFile::create_and_open(p).await?;
-                    file.write_all(&contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
-                    Ok(Label::new_empty(label))
-                }
-                _ => Err(e),
-            },
-        }
+        let path = self.path.clone();
+        let label = Label::new_empty(label);
+        atomic::blocking(move || {
+            let _lock = lock_labels(&path)?;
+            let p = label_path(&path, &label.name);
+            match std::fs::metadata(&p) {
+                Ok(_) => Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "database already exists",
+                )),
+                Err(e) => match e.kind() {
+                    io::ErrorKind::NotFound => {
+                        create_label_file(&p, &label)?;
+
+                        Ok(label)
+                    }
+                    _ => Err(e),
+                },
+            }
+        })
+        .await
     }
 
     async fn get_label(&self, label: &str) -> io::Result<Option<Label>> {
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label));
-
-        match get_label_from_file(p).await {
-            Ok(label) => Ok(Some(label)),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => Ok(None),
-                _ => Err(e),
-            },
-        }
+        get_label_from_dir(&self.path, label).await
     }
 
     async fn set_label_option(
@@ -260,49 +263,38 @@ impl LabelStore for DirectoryLabelStore {
         label: &Label,
         layer: Option<[u32; 5]>,
     ) -> io::Result<Option<Label>> {
-        let new_label = label.with_updated_layer(layer);
-        let contents = match new_label.layer {
-            None => format!("{}\n\n", new_label.version).into_bytes(),
-            Some(layer) => {
-                format!("{}\n{}\n", new_label.version, layer::name_to_string(layer)).into_bytes()
+        let path = self.path.clone();
+        let label = label.clone();
+        atomic::blocking(move || {
+            let _lock = lock_labels(&path)?;
+            let p = label_path(&path, &label.name);
+            let retrieved_label = get_label_from_data(label.name.clone(), &std::fs::read(&p)?)?;
+            if retrieved_label == label {
+                // all good, let's a go
+                let new_label = label.with_updated_layer(layer);
+                atomic::write_file(&p, &label_data(&new_label))?;
+                Ok(Some(new_label))
+            } else {
+                Ok(None)
             }
-        };
-
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label.name));
-        let (retrieved_label, mut file) = get_label_from_exclusive_locked_file(p).await?;
-        if retrieved_label == *label {
-            // all good, let's a go
-            file.truncate().await?;
-            file.write_all(&contents).await?;
-            file.flush().await?;
-            file.sync_all().await?;
-            Ok(Some(new_label))
-        } else {
-            Ok(None)
-        }
+        })
+        .await
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", name));
-
-        // We're not locking here to remove the file. The assumption
-        // is that any concurrent operation that is done on the label
-        // file will not matter. If it is a label read, a concurrent
-        // operation will simply get the label contents, which
-        // immediately afterwards become invalid. Similarly if it is
-        // for a write, the write will appear to be succesful even
-        // though the file will be gone afterwards. This is
-        // indistinguishable from the case where the read/write and
-        // the remove happened in reverse order.
-        match tokio::fs::remove_file(p).await {
-            Ok(()) => Ok(true),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => Ok(false),
-                _ => Err(e),
-            },
-        }
+        let path = self.path.clone();
+        let name = name.to_owned();
+        atomic::blocking(move || {
+            let _lock = lock_labels(&path)?;
+            match delete_label_file(&label_path(&path, &name)) {
+                Ok(()) => Ok(true),
+                Err(e) => match e.kind() {
+                    io::ErrorKind::NotFound => Ok(false),
+                    _ => Err(e),
+                },
+            }
+        })
+        .await
     }
 }
 
@@ -348,10 +340,11 @@ async fn get_all_labels_from_dir(p: &PathBuf) -> io::Result<HashMap<String, Labe
                 continue;
             }
 
-            let label_name = file_name[..file_name.len() - 6].to_string();
-            let label = get_label_from_file(entry.path()).await?;
-
-            result.insert(label_name, label);
+            let label_name = &file_name[..file_name.len() - 6];
+            // the label could have been deleted in the meantime
+            if let Some(label) = get_label_from_dir(p, label_name).await? {
+                result.insert(label_name.to_string(), label);
+            }
         }
     }
 
@@ -366,40 +359,34 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
-        let mut labels = self.labels.write().await;
-        if labels.contains_key(label) {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                "database already exists",
-            ));
-        }
+        let mut labels = self.labels.clone().write_owned().await;
+        let p = label_path(&self.path, label);
+        let label = Label::new_empty(label);
+        atomic::blocking(move || {
+            if labels.contains_key(&label.name) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "database already exists",
+                ));
+            }
 
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label));
-        let contents = b"0\n\n";
-        match fs::metadata(&p).await {
-            Ok(_) => Err(io::Error::new(
-                io::ErrorKind::Other,
-                "label was not in cached map but was found on disk",
-            )),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => {
-                    let mut options = fs::OpenOptions::new();
-                    options.create_new(true);
-                    options.write(true);
-                    let mut file = options.open(p).await?;
-                    file.write_all(contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
-                    let l = Label::new_empty(label);
-                    labels.insert(label.to_string(), l.clone());
-
-                    Ok(l)
-                }
-                _ => Err(e),
-            },
-        }
+            match std::fs::metadata(&p) {
+                Ok(_) => Err(io::Error::new(
+                    io::ErrorKind::Other,
+                    "label was not in cached map but was found on disk",
+                )),
+                Err(e) => match e.kind() {
+                    io::ErrorKind::NotFound => {
+                        create_label_file(&p, &label)?;
+                        labels.insert(label.name.clone(), label.clone());
+
+                        Ok(label)
+                    }
+                    _ => Err(e),
+                },
+            }
+        })
+        .await
     }
     async fn get_label(&self, label: &str) -> io::Result<Option<Label>> {
         let labels = self.labels.read().await;
@@ -410,49 +397,43 @@ impl LabelStore for CachedDirectoryLabelStore {
         label: &Label,
         layer: Option<[u32; 5]>,
     ) -> io::Result<Option<Label>> {
-        let new_label = label.with_updated_layer(layer);
-        let contents = match new_label.layer {
-            None => format!("{}\n\n", new_label.version).into_bytes(),
-            Some(layer) => {
-                format!("{}\n{}\n", new_label.version, layer::name_to_string(layer)).into_bytes()
-            }
-        };
-
-        let mut labels = self.labels.write().await;
-        if let Some(retrieved_label) = labels.get(&label.name) {
-            if retrieved_label == label {
+        let mut labels = self.labels.clone().write_owned().await;
+        let p = label_path(&self.path, &label.name);
+        let label = label.clone();
+        atomic::blocking(move || match labels.get(&label.name) {
+            Some(retrieved_label) if *retrieved_label == label => {
                 // all good, let's a go
-                let mut p = self.path.clone();
-                p.push(format!("{}.label", label.name));
-                let mut options = fs::OpenOptions::new();
-                options.create(false);
-                options.write(true);
-                let mut file = options.open(p).await?;
-                file.write_all(&contents).await?;
-                file.flush().await?;
-                file.sync_data().await?;
-
-                labels.insert(label.name.clone(), new_label.clone());
+                let new_label = label.with_updated_layer(layer);
+                atomic::write_file(&p, &label_data(&new_label))?;
+
+                labels.insert(label.name, new_label.clone());
                 Ok(Some(new_label))
-            } else {
-                Ok(None)
             }
-        } else {
-            Err(io::Error::new(io::ErrorKind::NotFound, "label not found"))
-        }
+            Some(_) => Ok(None),
+            None => Err(io::Error::new(io::ErrorKind::NotFound, "label not found")),
+        })
+        .await
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
-        let mut labels = self.labels.write().await;
-        if labels.remove(name).is_some() {
-            let mut p = self.path.clone();
-            p.push(format!("{}.label", name));
-            tokio::fs::remove_file(p).await?;
-
-            Ok(true)
-        } else {
-            Ok(false)
-        }
+        let mut labels = self.labels.clone().write_owned().await;
+        let p = label_path(&self.path, name);
+        let name = name.to_owned();
+        atomic::blocking(move || {
+            if !labels.contains_key(&name) {
+                return Ok(false);
+            }
+
+            match delete_label_file(&p) {
+                // if the file is gone already, an earlier delete must have failed halfway
+                Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
+                _ => {
+                    labels.remove(&name);
+                    Ok(true)
+                }
+            }
+        })
+        .await
     }
 }
 
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 29c3ae3..29d5727 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -30,6 +30,7 @@ mod label;
 #[macro_use]
 mod layer;
 pub mod archive;
+mod atomic;
 mod copy;
 pub mod delta;
 mod locking;
-- 
2.43.0


From 266991457db31d48c286dd0f44e8a6ead0c7ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 09/30] fix: write layer archives atomically and durably

A layer archive was written under its final name, so it could be found and
loaded while incomplete, and a crash or failed write left a torn layer. The
prefix directory it is in was created without being synced, so a committed
layer could disappear in a crash.
---
 src/storage/archive.rs | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..792b10a 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -34,6 +34,7 @@ use tdb_succinct::{
 };
 
 use super::{
+    atomic,
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
@@ -164,36 +165,18 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         }
     }
 
-    async fn store_layer_file(&self, id: [u32; 5], mut bytes: Bytes) -> io::Result<()> {
+    async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()> {
+        let store_path = self.path.clone();
         let path = self.path_for_layer(id);
-        let mut directory_path = path.clone();
-        directory_path.pop();
-        fs::create_dir_all(&directory_path).await?;
-
-        let mut options = tokio::fs::OpenOptions::new();
-        options.create(true);
-        options.write(true);
-        let mut file = options.open(path).await?;
-        while bytes.remaining() > 0 {
-            let chunk = bytes.chunk();
-            let written = file.write(chunk).await?;
-            bytes.advance(written);
-        }
-
-        file.flush().await?;
-        file.sync_all().await?;
-
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
+        atomic::blocking(move || {
+            let directory_path = path.parent().expect("layer path has no parent");
+            std::fs::create_dir_all(directory_path)?;
+            // the prefix directory itself has to be on disk too
+            atomic::sync_directory(&store_path)?;
 
-        Ok(())
+            atomic::write_file(&path, &bytes)
+        })
+        .await
     }
 
     async fn read_layer_structure_bytes_from(
-- 
2.43.0


From d3ba47dffd45af9d841fba21f90aa7ae8afb43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 10/30] fix: look for layers in the prefix directories in
 get_layer_names

Archives are stored in prefix directories but were only searched for in the
root of the store, so no layer was ever listed.
---
 src/storage/archive.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 792b10a..2cd74bf 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -209,16 +209,26 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
         while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+            // layers are stored in prefix directories
+            if !direntry.file_type().await?.is_dir()
+                || direntry.file_name().len() != PREFIX_DIR_SIZE
+            {
+                continue;
+            }
+
+            let mut stream = fs::read_dir(direntry.path()).await?;
+            while let Some(direntry) = stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                let name = os_name.to_str().ok_or_else(|| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "unexpected non-utf8 directory name",
+                    )
+                })?;
+                if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
+                    let name_component = &name[..name.len() - 6];
+                    result.push(string_to_name(name_component)?);
+                }
             }
         }
 
-- 
2.43.0


From dd4fd176f31f42d03887d381e286b72a4031fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 11/30] fix: update rollup files atomically and durably

A rollup file was truncated or created empty and then written. A crash or
failed write in between made the layer fail to load, or panic. With the
directory store a concurrent reader could see the incomplete file. With the
archive store the directory was not synced, and locking panicked on I/O
errors and could use up all blocking threads that the lock holder needed.
---
 src/storage/archive.rs   | 36 +++++++++---------------------------
 src/storage/directory.rs | 13 +++++++++++++
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 2cd74bf..16d95b2 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -36,7 +36,6 @@ use tdb_succinct::{
 use super::{
     atomic,
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
-    locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
 };
 
@@ -292,15 +291,6 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     }
 
     async fn get_rollup(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
-        // acquire a shared lock on the layer. This ensures nobody will write a rollup file while we're retrieving it.
-        let layer_path = self.path_for_layer(id);
-        let layer_lock = LockedFile::open(layer_path).await;
-        if layer_lock.is_err() && layer_lock.as_ref().err().unwrap().kind() == ErrorKind::NotFound {
-            // no such layer - therefore no such rollup
-            return Ok(None);
-        }
-        let _layer_lock = layer_lock.unwrap();
-
         let path = self.path_for_rollup(id);
         let result = fs::read_to_string(path).await;
 
@@ -308,28 +298,20 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             return Ok(None);
         }
         let data = result?;
-        let name = data.lines().skip(1).next().expect(
-            "Expected rollup file to have two lines but was unable to skip to the second line",
-        );
+        let name = data.lines().skip(1).next().ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Expected rollup file to have two lines but was unable to skip to the second line",
+            )
+        })?;
         Ok(Some(string_to_name(&name)?))
     }
 
     async fn set_rollup(&self, id: [u32; 5], rollup: [u32; 5]) -> io::Result<()> {
-        // acquire an exclusive lock on the layer. This ensures nobody tries to lookup the rollup while we're writing it.
-        let layer_path = self.path_for_layer(id);
-        let _layer_lock = ExclusiveLockedFile::open(layer_path).await?;
-
+        // The rollup file is replaced as a whole, so that it can be retrieved without locking.
         let path = self.path_for_rollup(id);
-        let mut data = Vec::with_capacity(43);
-        data.extend_from_slice(b"1\n");
-        data.extend_from_slice(name_to_string(rollup).as_bytes());
-        data.extend_from_slice(b"\n");
-        let mut file = fs::File::create(path).await?;
-        file.write_all(&data).await?;
-        file.flush().await?;
-        file.sync_all().await?;
-
-        Ok(())
+        let data = format!("1\n{}\n", name_to_string(rollup));
+        atomic::blocking(move || atomic::write_file(&path, data.as_bytes())).await
     }
 
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 9752a99..567dc65 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -99,6 +99,19 @@ impl PersistentLayerStore for DirectoryLayerStore {
             Err(_) => Ok(false),
         }
     }
+
+    async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
+        // Unlike other files, the rollup file of a layer may be replaced while it is being read.
+        let mut p = self.path.clone();
+        let dir_name = name_to_string(dir_name);
+        p.push(&dir_name[0..PREFIX_DIR_SIZE]);
+        p.push(dir_name);
+        p.push(consts::FILENAMES.rollup);
+        let contents = format!("{}\n{}\n", 1, name_to_string(rollup_name));
+
+        atomic::blocking(move || atomic::write_file(&p, contents.as_bytes())).await
+    }
+
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
         if cfg!(unix) {
             // ensure the underlying directory record is properly synchronized
-- 
2.43.0


From c61105c148e97edf7ec505b991bba48ecfd69176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 12/30] fix: sync the parent directories of a finalized layer
 directory

Only the layer directory itself was synced, so a committed layer could
disappear in a crash together with its own or its prefix directory entry.
---
 src/storage/directory.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 567dc65..4f31945 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -115,6 +115,7 @@ impl PersistentLayerStore for DirectoryLayerStore {
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
         if cfg!(unix) {
             // ensure the underlying directory record is properly synchronized
+            // this includes the directories that have the new directories in them
             let mut directory_path = self.path.clone();
             let dir_name = name_to_string(directory);
             directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
@@ -124,8 +125,10 @@ impl PersistentLayerStore for DirectoryLayerStore {
             options.create(false);
             options.read(true);
             options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
+            for path in directory_path.ancestors().take(3) {
+                let dir_fd = options.open(path).await?;
+                dir_fd.sync_all().await?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 58b3f460b2b1db326215ee00308637a13e305aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 13/30] fix: look for layers in the prefix directories in
 DirectoryLayerStore

Listing the layers failed on the prefix directories, as their names are not
layer names.
---
 src/storage/directory.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 4f31945..c338e7b 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -40,15 +40,25 @@ impl PersistentLayerStore for DirectoryLayerStore {
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
         while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
-                let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+            // layers are stored in prefix directories
+            if !direntry.file_type().await?.is_dir()
+                || direntry.file_name().len() != PREFIX_DIR_SIZE
+            {
+                continue;
+            }
+
+            let mut stream = fs::read_dir(direntry.path()).await?;
+            while let Some(direntry) = stream.next_entry().await? {
+                if direntry.file_type().await?.is_dir() {
+                    let os_name = direntry.file_name();
+                    let name = os_name.to_str().ok_or_else(|| {
+                        io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "unexpected non-utf8 directory name",
+                        )
+                    })?;
+                    result.push(string_to_name(name)?);
+                }
             }
         }
 
-- 
2.43.0


From d53f74afd6ece8e4a18c2aa03d10c0606355b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 14/30] fix: keep the layer archive cache within its limit

The amount of cached data was never tracked, so nothing was evicted until a
single layer exceeded the limit, and layers were cached on being stored
without looking at the limit at all.
---
 src/storage/archive.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 16d95b2..04910d8 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -331,7 +331,6 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
@@ -343,6 +342,13 @@ enum CacheEntry {
 }
 
 impl CacheEntry {
+    fn len(&self) -> usize {
+        match self {
+            Self::Resolved(bytes) => bytes.len(),
+            Self::Resolving(_) => 0,
+        }
+    }
+
     fn is_resolving(&self) -> bool {
         if let Self::Resolving(_) = self {
             true
@@ -359,7 +365,6 @@ impl<M, D> LruArchiveBackend<M, D> {
         Self {
             cache,
             limit,
-            current: 0,
             metadata_origin,
             data_origin,
         }
@@ -414,7 +419,6 @@ fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut
 fn ensure_enough_cache_space(
     cache: &mut LruCache<[u32; 5], CacheEntry>,
     limit: usize,
-    current: usize,
     required: usize,
 ) -> bool {
     if required > limit {
@@ -422,6 +426,7 @@ fn ensure_enough_cache_space(
         return false;
     }
 
+    let current: usize = cache.iter().map(|(_, entry)| entry.len()).sum();
     let remaining = limit - current;
     if remaining < required {
         // we need to clean up some cache spacew to fit this entry
@@ -471,12 +476,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 let mut cache = self.cache.lock().await;
                 match lookup {
                     Ok(bytes) => {
-                        if ensure_enough_cache_space(
-                            &mut *cache,
-                            self.limit_bytes(),
-                            self.current,
-                            bytes.len(),
-                        ) {
+                        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
                             let cached = cache
                                 .get_mut(&id)
                                 .expect("layer resolving entry not found in cache");
@@ -515,7 +515,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
         let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        if !cache.contains(&id)
+            && ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len())
+        {
+            cache.put(id, CacheEntry::Resolved(bytes));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 01ead1c8561ce7dac271cbc1492c4ac7fb548ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 15/30] fix: recover when the lookup of a layer in the archive
 cache is abandoned

When the future of a lookup was dropped, its cache entry was left behind
without a result, and every later lookup of the layer panicked.
---
 src/storage/archive.rs | 103 ++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 42 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 04910d8..82a1eb2 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -446,51 +446,70 @@ fn drop_from_cache(cache: &mut LruCache<[u32; 5], CacheEntry>, id: [u32; 5]) {
 impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchiveBackend<M, D> {
     type Read = Either<BytesAsyncReader, D::Read>;
     async fn get_layer_bytes(&self, id: [u32; 5]) -> io::Result<Bytes> {
-        let mut cache = self.cache.lock().await;
-        let cached = cache.get(&id).cloned();
-
-        match cached {
-            Some(CacheEntry::Resolved(bytes)) => Ok(bytes),
-            Some(CacheEntry::Resolving(barrier)) => {
-                // someone is already looking up this layer. we'll wait for them to be done.
-                std::mem::drop(cache);
-                let guard = barrier.read().await;
-                match guard.as_ref().unwrap() {
-                    Ok(bytes) => Ok(bytes.clone()),
-                    Err(kind) => Err(io::Error::new(*kind, "layer resolve failed")),
-                }
-            }
-            None => {
-                // nobody is looking this up yet, it is up to us.
-                let barrier = Arc::new(tokio::sync::RwLock::new(None));
-                let mut result = barrier.write().await;
-                cache.get_or_insert(id, || CacheEntry::Resolving(barrier.clone()));
-
-                // drop the cache while doing the lookup
-                std::mem::drop(cache);
-                let lookup = self.data_origin.get_layer_bytes(id).await;
-
-                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
-
-                // reacquire cache
-                let mut cache = self.cache.lock().await;
-                match lookup {
-                    Ok(bytes) => {
-                        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
-                            let cached = cache
-                                .get_mut(&id)
-                                .expect("layer resolving entry not found in cache");
-                            *cached = CacheEntry::Resolved(bytes.clone());
-                        } else {
-                            // this entry is uncachable. Just remove the resolving entry
-                            drop_from_cache(&mut *cache, id);
+        loop {
+            let mut cache = self.cache.lock().await;
+            let cached = cache.get(&id).cloned();
+
+            match cached {
+                Some(CacheEntry::Resolved(bytes)) => return Ok(bytes),
+                Some(CacheEntry::Resolving(barrier)) => {
+                    // someone is already looking up this layer. we'll wait for them to be done.
+                    std::mem::drop(cache);
+                    let guard = barrier.read().await;
+                    match guard.as_ref() {
+                        Some(Ok(bytes)) => return Ok(bytes.clone()),
+                        Some(Err(kind)) => {
+                            return Err(io::Error::new(*kind, "layer resolve failed"))
+                        }
+                        None => {
+                            // the lookup was abandoned. Remove its entry, unless someone else
+                            // already did so, and try again.
+                            let mut cache = self.cache.lock().await;
+                            if let Some(CacheEntry::Resolving(found)) = cache.peek(&id) {
+                                if Arc::ptr_eq(found, &barrier) {
+                                    drop_from_cache(&mut *cache, id);
+                                }
+                            }
                         }
-                        Ok(bytes)
                     }
-                    Err(e) => {
-                        drop_from_cache(&mut *cache, id);
+                }
+                None => {
+                    // nobody is looking this up yet, it is up to us.
+                    let barrier = Arc::new(tokio::sync::RwLock::new(None));
+                    let mut result = barrier.write().await;
+                    cache.get_or_insert(id, || CacheEntry::Resolving(barrier.clone()));
+
+                    // drop the cache while doing the lookup
+                    std::mem::drop(cache);
+                    let lookup = self.data_origin.get_layer_bytes(id).await;
+
+                    // reacquire cache
+                    let mut cache = self.cache.lock().await;
+                    // From here on we can't be abandoned anymore, so those waiting for a result
+                    // will find the cache entry to have been resolved or removed.
+                    *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
+                    match lookup {
+                        Ok(bytes) => {
+                            if ensure_enough_cache_space(
+                                &mut *cache,
+                                self.limit_bytes(),
+                                bytes.len(),
+                            ) {
+                                let cached = cache
+                                    .get_mut(&id)
+                                    .expect("layer resolving entry not found in cache");
+                                *cached = CacheEntry::Resolved(bytes.clone());
+                            } else {
+                                // this entry is uncachable. Just remove the resolving entry
+                                drop_from_cache(&mut *cache, id);
+                            }
+                            return Ok(bytes);
+                        }
+                        Err(e) => {
+                            drop_from_cache(&mut *cache, id);
 
-                        Err(e)
+                            return Err(e);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 5df95b44c0fec952cc3584ac8c29ba133b4c8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 16/30] fix: do not find layers that are still under
 construction in an archive store

Looking up or listing a layer under construction found it, and then failed
because its files were not there yet.
---
 src/storage/archive.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 82a1eb2..fc9fc85 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1363,15 +1363,6 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
 
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
         let mut result = self.metadata_backend.get_layer_names().await?;
-
-        {
-            let guard = self.construction.read().unwrap();
-
-            for name in guard.keys() {
-                result.push(*name);
-            }
-        }
-
         result.sort();
         result.dedup();
 
@@ -1397,13 +1388,7 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
     }
 
     async fn directory_exists(&self, name: [u32; 5]) -> io::Result<bool> {
-        {
-            let guard = self.construction.read().unwrap();
-            if guard.contains_key(&name) {
-                return Ok(true);
-            }
-        }
-
+        // layers under construction do not exist until they've been finalized
         self.metadata_backend.layer_exists(name).await
     }
 
-- 
2.43.0


From a35de04a7070dd01559756c285161b27a51adeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 17/30] fix: store imported layers atomically and only if they
 were in the pack

Importing created directories for all requested layers up front, whether or
not they were in the pack, and filled them file by file. Requested layers that
were not in the pack became layers that failed to load, a failed or interrupted
import left incomplete layers, and importing a layer which was already there,
or was being imported, panicked with the archive store.
---
 src/storage/archive.rs   | 64 +++++++++++++++++++++++++++++-----------
 src/storage/atomic.rs    | 34 +++++++++++++++++++++
 src/storage/directory.rs | 22 ++++++++++++++
 src/storage/layer.rs     | 21 +++++++++++++
 src/storage/memory.rs    | 18 +++++++++++
 src/storage/pack.rs      | 55 +++++++++++++++++++++-------------
 6 files changed, 175 insertions(+), 39 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index fc9fc85..86b5f31 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1353,6 +1353,30 @@ impl<M, D> ArchiveLayerStore<M, D> {
     }
 }
 
+fn archive_from_files(mut files: Vec<(LayerFileEnum, Bytes)>) -> Bytes {
+    files.sort();
+    let presence_header =
+        ArchiveFilePresenceHeader::from_present(files.iter().map(|(t, _)| t).cloned());
+
+    let mut offsets = LateLogArrayBufBuilder::new(BytesMut::new());
+    let mut tally = 0;
+    for (_file_type, data) in files.iter() {
+        tally += data.len();
+        offsets.push(tally as u64);
+    }
+
+    let offsets_buf = offsets.finalize_header_first();
+
+    let mut data_buf = BytesMut::with_capacity(tally + 8 + offsets_buf.len());
+    data_buf.put_u64(presence_header.inner());
+    data_buf.extend(offsets_buf);
+    for (_file_type, data) in files {
+        data_buf.extend(data);
+    }
+
+    data_buf.freeze()
+}
+
 const PREFIX_DIR_SIZE: usize = 3;
 
 #[async_trait]
@@ -1456,33 +1480,37 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
                 .expect("layer to be finalized was not found in construction map")
         };
 
-        let mut files: Vec<(_, _)> = files
+        let files: Vec<(_, _)> = files
             .into_iter()
             .filter(|(_file_type, file)| file.is_finalized())
             .map(|(file_type, file)| (file_type, file.finalized_buf()))
             .collect();
-        files.sort();
-        let presence_header =
-            ArchiveFilePresenceHeader::from_present(files.iter().map(|(t, _)| t).cloned());
-
-        let mut offsets = LateLogArrayBufBuilder::new(BytesMut::new());
-        let mut tally = 0;
-        for (_file_type, data) in files.iter() {
-            tally += data.len();
-            offsets.push(tally as u64);
-        }
 
-        let offsets_buf = offsets.finalize_header_first();
+        self.data_backend
+            .store_layer_file(directory, archive_from_files(files))
+            .await
+    }
 
-        let mut data_buf = BytesMut::with_capacity(tally + 8 + offsets_buf.len());
-        data_buf.put_u64(presence_header.inner());
-        data_buf.extend(offsets_buf);
-        for (_file_type, data) in files {
-            data_buf.extend(data);
+    async fn store_layer(&self, name: [u32; 5], files: Vec<(String, Bytes)>) -> io::Result<()> {
+        if self.metadata_backend.layer_exists(name).await? {
+            return Ok(());
+        }
+
+        let mut archive_files = Vec::with_capacity(files.len());
+        for (file_name, data) in files {
+            match FILENAME_ENUM_MAP.get(file_name.as_str()) {
+                Some(file_type) => archive_files.push((*file_type, data)),
+                None => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        format!("unexpected layer file {}", file_name),
+                    ))
+                }
+            }
         }
 
         self.data_backend
-            .store_layer_file(directory, data_buf.freeze())
+            .store_layer_file(name, archive_from_files(archive_files))
             .await
     }
 
diff --git a/src/storage/atomic.rs b/src/storage/atomic.rs
index 51f681d..c22bb99 100644
--- a/src/storage/atomic.rs
+++ b/src/storage/atomic.rs
@@ -41,6 +41,40 @@ pub(crate) fn write_file(path: &Path, contents: &[u8]) -> io::Result<()> {
     sync_directory(directory)
 }
 
+/// Create a directory with the given files, such that anyone looking at it, now or after a crash,
+/// will find either nothing or the complete directory.
+///
+/// The directory is constructed as a temporary directory in `temp_parent`. It is on disk when this
+/// returns. If the directory already exists, this fails.
+pub(crate) fn write_directory<D: AsRef<[u8]>>(
+    temp_parent: &Path,
+    path: &Path,
+    files: &[(String, D)],
+) -> io::Result<()> {
+    let temp_path = temp_parent.join(format!(".{:032x}.tmp", rand::random::<u128>()));
+    fs::create_dir(&temp_path)?;
+
+    let result = (|| {
+        for (name, contents) in files {
+            let mut file = fs::File::create(temp_path.join(name))?;
+            file.write_all(contents.as_ref())?;
+            file.sync_all()?;
+        }
+        sync_directory(&temp_path)?;
+        fs::rename(&temp_path, path)
+    })();
+
+    if let Err(e) = result {
+        for (name, _) in files {
+            let _ = fs::remove_file(temp_path.join(name));
+        }
+        let _ = fs::remove_dir(&temp_path);
+        return Err(e);
+    }
+
+    sync_directory(path.parent().expect("directory has no parent directory"))
+}
+
 /// Run a set of blocking file operations as a single unit.
 ///
 /// When the returned future is dropped, the operations that were started will still be completed.
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index c338e7b..f58404e 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -1,5 +1,6 @@
 //! Directory-based implementation of storage traits.
 
+use bytes::Bytes;
 use fs2::FileExt;
 use std::collections::HashMap;
 use std::io;
@@ -110,6 +111,27 @@ impl PersistentLayerStore for DirectoryLayerStore {
         }
     }
 
+    async fn store_layer(&self, name: [u32; 5], files: Vec<(String, Bytes)>) -> io::Result<()> {
+        let store_path = self.path.clone();
+        let name_str = name_to_string(name);
+        let prefix_path = store_path.join(&name_str[0..PREFIX_DIR_SIZE]);
+        let path = prefix_path.join(name_str);
+        atomic::blocking(move || {
+            if path.is_dir() {
+                return Ok(());
+            }
+
+            std::fs::create_dir_all(&prefix_path)?;
+            atomic::sync_directory(&store_path)?;
+            match atomic::write_directory(&store_path, &path, &files) {
+                // someone else may have stored this layer in the meantime
+                Err(_) if path.is_dir() => atomic::sync_directory(&prefix_path),
+                result => result,
+            }
+        })
+        .await
+    }
+
     async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
         // Unlike other files, the rollup file of a layer may be replaced while it is being read.
         let mut p = self.path.clone();
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index be5294b..1efefd1 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -32,6 +32,7 @@ use std::sync::Arc;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
 use async_trait::async_trait;
+use bytes::Bytes;
 
 macro_rules! walk_backwards_from_disk {
     ($store:ident, $name:ident, $current:ident, $body:block) => {
@@ -370,6 +371,26 @@ pub trait PersistentLayerStore: 'static + Send + Sync + Clone {
         Ok(())
     }
 
+    /// Store a complete layer, given the names and contents of its files.
+    ///
+    /// If the layer already exists it is left alone.
+    async fn store_layer(&self, name: [u32; 5], files: Vec<(String, Bytes)>) -> io::Result<()> {
+        if self.directory_exists(name).await? {
+            return Ok(());
+        }
+
+        self.create_named_directory(name).await?;
+        for (file_name, contents) in files {
+            let file = self.get_file(name, &file_name).await?;
+            let mut writer = file.open_write().await?;
+            writer.write_all(&contents).await?;
+            writer.flush().await?;
+            writer.sync_all().await?;
+        }
+
+        self.finalize(name).await
+    }
+
     async fn layer_has_rollup(&self, name: [u32; 5]) -> io::Result<bool> {
         self.file_exists(name, FILENAMES.rollup).await
     }
diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 75f0b61..da65ccb 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -4,6 +4,8 @@ use std::collections::HashMap;
 use std::io;
 
 use async_trait::async_trait;
+use bytes::Bytes;
+use tokio::io::AsyncWriteExt;
 
 use super::file::*;
 use super::label::*;
@@ -43,6 +45,22 @@ impl PersistentLayerStore for MemoryLayerStore {
         Ok(guard.contains_key(&name))
     }
 
+    async fn store_layer(&self, name: [u32; 5], files: Vec<(String, Bytes)>) -> io::Result<()> {
+        let mut layer = HashMap::new();
+        for (file_name, contents) in files {
+            let file = MemoryBackedStore::new();
+            let mut writer = file.open_write().await?;
+            writer.write_all(&contents).await?;
+            writer.sync_all().await?;
+            layer.insert(file_name, file);
+        }
+
+        let mut guard = self.layers.write().await;
+        guard.entry(name).or_insert(layer);
+
+        Ok(())
+    }
+
     async fn file_exists(&self, directory: [u32; 5], file: &str) -> io::Result<bool> {
         let guard = self.layers.read().await;
         if let Some(files) = guard.get(&directory) {
diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..1bebb72 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -5,6 +5,7 @@ use std::path::PathBuf;
 use std::time::{SystemTime, UNIX_EPOCH};
 
 use async_trait::async_trait;
+use bytes::Bytes;
 
 use super::cache::*;
 use super::consts::*;
@@ -15,7 +16,6 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use tar::*;
-use tokio::io::AsyncWriteExt;
 
 #[async_trait]
 pub trait Packable {
@@ -65,17 +65,14 @@ impl<T: PersistentLayerStore> Packable for T {
         pack: &[u8],
         layer_ids: Box<dyn Iterator<Item = [u32; 5]> + Send>,
     ) -> io::Result<()> {
-        let mut layer_id_set = HashSet::new();
-        for id in layer_ids {
-            layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
-        }
+        let layer_id_set: HashSet<_> = layer_ids.map(name_to_string).collect();
 
-        let handle = tokio::runtime::Handle::current();
-        tokio::task::block_in_place(|| {
+        // Read everything before storing anything, so that a broken pack leaves no trace.
+        let mut layers = tokio::task::block_in_place(|| {
             let cursor = io::Cursor::new(pack);
             let tar = GzDecoder::new(cursor);
             let mut archive = Archive::new(tar);
+            let mut layers: HashMap<[u32; 5], Vec<(String, Bytes)>> = HashMap::new();
 
             // TODO we actually need to validate that these layers, when extracted, will make for a valid store.
             // In terminus-server we are currently already doing this validation. Due to time constraints, we're not implementing it here.
@@ -112,25 +109,41 @@ impl<T: PersistentLayerStore> Packable for T {
                     let mut content = Vec::with_capacity(header.size()? as usize);
                     entry.read_to_end(&mut content)?;
 
-                    handle.block_on(async move {
-                        let file = self.get_file(layer_id_arr, &file_name).await?;
-                        let mut writer = file.open_write().await?;
-                        writer.write_all(&content).await?;
-                        writer.flush().await?;
-                        writer.sync_all().await?;
+                    layers
+                        .entry(layer_id_arr)
+                        .or_default()
+                        .push((file_name, content.into()));
+                }
+            }
+
+            Ok::<_, io::Error>(layers)
+        })?;
+
+        let mut parents = HashMap::new();
+        for (layer_id, files) in layers.iter() {
+            if let Some((_, parent)) = files.iter().find(|(name, _)| name == FILENAMES.parent) {
+                parents.insert(*layer_id, bytes_to_name(parent)?);
+            }
+        }
 
-                        Ok::<_, io::Error>(())
-                    })?;
+        while let Some(layer_id) = layers.keys().next() {
+            // Store ancestors before their descendants, so that no layer is there without them.
+            let mut chain = vec![*layer_id];
+            while let Some(parent) = parents.get(chain.last().unwrap()) {
+                if !layers.contains_key(parent) || chain.len() == layers.len() {
+                    break;
                 }
+                chain.push(*parent);
             }
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
-                handle.block_on(self.finalize_layer(layer_id_arr))?;
+            for layer_id in chain.into_iter().rev() {
+                if let Some(files) = layers.remove(&layer_id) {
+                    self.store_layer(layer_id, files).await?;
+                }
             }
+        }
 
-            Ok(())
-        })
+        Ok(())
     }
 }
 
-- 
2.43.0


From 77d50c291fbe2c02510cc3cbeaafd7411cb3183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 18/30] fix: only return changes for the given object from a
 loaded layer

Seeking an object which has no additions or removals in a layer ends up at the
next object that does. The changes for that object were returned.
---
 src/layer/internal/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index dfb342f..4c0a741 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -416,7 +416,9 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_additions_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                // seeking ends up at a later object if this layer has no changes for this one
+                .take_while(move |t| t.object == object),
         )
     }
 
@@ -437,7 +439,9 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_removals_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                // seeking ends up at a later object if this layer has no changes for this one
+                .take_while(move |t| t.object == object),
         )
     }
 
-- 
2.43.0


From 8c9bf4036ccf0e380e35397ac7b8502c57ffae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 19/30] fix: allow rolling up a rolled up layer to an ancestor
 the rollup skips over

All changes have to come from disk in this case, but the code assumed there
always are changes to be taken from the loaded layers, and panicked.
---
 src/layer/internal/mod.rs | 4 ----
 src/storage/delta.rs      | 8 ++++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index 4c0a741..d5a79ed 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -504,10 +504,6 @@ impl InternalLayer {
     }
 
     pub fn immediate_layers_upto(&self, upto_layer_id: [u32; 5]) -> Vec<&InternalLayer> {
-        if self.name() == upto_layer_id {
-            panic!("tried to retrieve layers up to a boundary, but boundary was the top layer");
-        }
-
         let mut layer = Some(self);
         let mut result = Vec::new();
 
diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index c715c03..97ec11a 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -396,8 +396,12 @@ pub async fn delta_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore>
     .await?;
 
     let disk_changes = store.layer_changes_upto(bound, upto).await?;
-    let memory_changes =
-        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
+    let memory_changes = if layer.name() == bound {
+        // layer is a rollup that skips over upto, so everything has to come from disk
+        InternalTripleStackIterator::from_parts(Vec::new(), Vec::new())
+    } else {
+        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found")
+    };
     let changes = InternalTripleStackIterator::merge(vec![disk_changes, memory_changes]);
     let additions = changes
         .clone()
-- 
2.43.0


From 6a5e7868b73874788fb619b0916a99138a26a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 20/30] fix: allow export and import on a current-thread
 runtime

---
 src/storage/archive.rs |  2 +-
 src/storage/pack.rs    | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 86b5f31..0be82b9 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -24,7 +24,7 @@ use bytes::{Buf, BufMut, Bytes, BytesMut};
 use lru::LruCache;
 use tokio::{
     fs::{self, File},
-    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite},
 };
 use tokio_util::either::Either;
 
diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 1bebb72..bacf9df 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -68,7 +68,7 @@ impl<T: PersistentLayerStore> Packable for T {
         let layer_id_set: HashSet<_> = layer_ids.map(name_to_string).collect();
 
         // Read everything before storing anything, so that a broken pack leaves no trace.
-        let mut layers = tokio::task::block_in_place(|| {
+        let mut layers = block_in_place(|| {
             let cursor = io::Cursor::new(pack);
             let tar = GzDecoder::new(cursor);
             let mut archive = Archive::new(tar);
@@ -147,6 +147,15 @@ impl<T: PersistentLayerStore> Packable for T {
     }
 }
 
+/// Do some work that takes a while, letting other tasks move to another thread if there are any.
+fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
+    match tokio::runtime::Handle::current().runtime_flavor() {
+        // There are no other threads, and tokio's version would panic.
+        tokio::runtime::RuntimeFlavor::CurrentThread => f(),
+        _ => tokio::task::block_in_place(f),
+    }
+}
+
 async fn tar_append_file<S: PersistentLayerStore, W: io::Write>(
     store: &S,
     tar: &mut tar::Builder<W>,
@@ -166,7 +175,7 @@ async fn tar_append_file<S: PersistentLayerStore, W: io::Write>(
         header.set_mode(0o644);
         header.set_size(file.size().await? as u64);
         header.set_mtime(mtime);
-        tokio::task::block_in_place(|| tar.append_data(&mut header, path, cursor).unwrap());
+        block_in_place(|| tar.append_data(&mut header, path, cursor).unwrap());
 
         Ok(())
     } else {
@@ -196,7 +205,7 @@ async fn tar_append_file_if_exists<S: PersistentLayerStore, W: io::Write>(
         header.set_mode(0o644);
         header.set_size(file.size().await? as u64);
         header.set_mtime(mtime);
-        tokio::task::block_in_place(|| tar.append_data(&mut header, path, cursor).unwrap());
+        block_in_place(|| tar.append_data(&mut header, path, cursor).unwrap());
     }
 
     Ok(())
@@ -216,7 +225,7 @@ async fn tar_append_layer<W: io::Write, S: PersistentLayerStore>(
     let layer_name = name_to_string(layer);
     let mut path = PathBuf::new();
     path.push(layer_name);
-    tokio::task::block_in_place(|| {
+    block_in_place(|| {
         tar.append_data(&mut header, &path, std::io::empty())
             .unwrap()
     });
-- 
2.43.0


From 4adc8696634b14fd513b0be5955c3fea9a6ac5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 21/30] fix: use locks in memory stores that survive an
 abandoned read

---
 src/storage/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index da65ccb..f64e00d 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -2,10 +2,12 @@
 
 use std::collections::HashMap;
 use std::io;
+use std::sync::Arc;
 
 use async_trait::async_trait;
 use bytes::Bytes;
 use tokio::io::AsyncWriteExt;
+use tokio::sync::RwLock;
 
 use super::file::*;
 use super::label::*;
@@ -15,7 +17,7 @@ pub use tdb_succinct::storage::memory::*;
 
 #[derive(Clone, Default)]
 pub struct MemoryLayerStore {
-    layers: futures_locks::RwLock<HashMap<[u32; 5], HashMap<String, MemoryBackedStore>>>,
+    layers: Arc<RwLock<HashMap<[u32; 5], HashMap<String, MemoryBackedStore>>>>,
 }
 
 impl MemoryLayerStore {
@@ -96,7 +98,7 @@ impl PersistentLayerStore for MemoryLayerStore {
 
 #[derive(Clone, Default)]
 pub struct MemoryLabelStore {
-    labels: futures_locks::RwLock<HashMap<String, Label>>,
+    labels: Arc<RwLock<HashMap<String, Label>>>,
 }
 
 impl MemoryLabelStore {
-- 
2.43.0


From a5b44e909c0d8624a9067c312febdd5a53aa3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 22/30] fix: report errors when looking for a layer in a
 directory store

---
 src/storage/directory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index f58404e..487ca8b 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -85,7 +85,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_dir()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
 
@@ -107,7 +108,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_file()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
 
-- 
2.43.0


From 67a90bf5276028454dadefc1e1fc1e5769c48569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 23/30] fix: report read errors in archive slices instead of
 ending the slice

---
 src/storage/archive.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 0be82b9..0259ffb 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1021,9 +1021,10 @@ impl AsyncRead for ArchiveSliceReader {
         }
 
         let before_len = buf.filled().len();
-        let read = AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf);
-        if let Poll::Pending = read {
-            return Poll::Pending;
+        match AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf) {
+            Poll::Ready(Ok(())) => {}
+            // neither a pending read nor an error is the end of the slice
+            other => return other,
         }
 
         let after_len = buf.filled().len();
-- 
2.43.0


From db09c1a77df79d0662cebb50a35c204105f154fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 24/30] fix: keep labels in memory and on disk the same when
 syncing them fails

---
 src/storage/atomic.rs    | 11 ++++++++---
 src/storage/directory.rs | 41 ++++++++++++++++++----------------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/storage/atomic.rs b/src/storage/atomic.rs
index c22bb99..5f24510 100644
--- a/src/storage/atomic.rs
+++ b/src/storage/atomic.rs
@@ -20,6 +20,12 @@ pub(crate) fn sync_directory(path: &Path) -> io::Result<()> {
 ///
 /// The file is on disk when this returns.
 pub(crate) fn write_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    replace_file(path, contents)?;
+    sync_directory(path.parent().expect("file has no parent directory"))
+}
+
+/// Like `write_file`, but until the directory is synced too, a crash may undo this.
+pub(crate) fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
     let directory = path.parent().expect("file has no parent directory");
     let temp_path = directory.join(format!(".{:032x}.tmp", rand::random::<u128>()));
 
@@ -33,12 +39,11 @@ pub(crate) fn write_file(path: &Path, contents: &[u8]) -> io::Result<()> {
         })
         .and_then(|_| fs::rename(&temp_path, path));
 
-    if let Err(e) = result {
+    if result.is_err() {
         let _ = fs::remove_file(&temp_path);
-        return Err(e);
     }
 
-    sync_directory(directory)
+    result
 }
 
 /// Create a directory with the given files, such that anyone looking at it, now or after a crash,
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 487ca8b..921b44f 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -236,14 +236,6 @@ fn label_path(directory: &Path, name: &str) -> PathBuf {
     directory.join(format!("{}.label", name))
 }
 
-/// Create the file for a new label. If this fails, there'll be no such file.
-fn create_label_file(path: &Path, label: &Label) -> io::Result<()> {
-    atomic::write_file(path, &label_data(label)).map_err(|e| {
-        let _ = std::fs::remove_file(path);
-        e
-    })
-}
-
 fn delete_label_file(path: &Path) -> io::Result<()> {
     std::fs::remove_file(path)?;
     atomic::sync_directory(path.parent().expect("file has no parent directory"))
@@ -293,7 +285,7 @@ impl LabelStore for DirectoryLabelStore {
                 )),
                 Err(e) => match e.kind() {
                     io::ErrorKind::NotFound => {
-                        create_label_file(&p, &label)?;
+                        atomic::write_file(&p, &label_data(&label))?;
 
                         Ok(label)
                     }
@@ -410,7 +402,8 @@ impl LabelStore for CachedDirectoryLabelStore {
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
         let mut labels = self.labels.clone().write_owned().await;
-        let p = label_path(&self.path, label);
+        let directory = self.path.clone();
+        let p = label_path(&directory, label);
         let label = Label::new_empty(label);
         atomic::blocking(move || {
             if labels.contains_key(&label.name) {
@@ -427,8 +420,10 @@ impl LabelStore for CachedDirectoryLabelStore {
                 )),
                 Err(e) => match e.kind() {
                     io::ErrorKind::NotFound => {
-                        create_label_file(&p, &label)?;
+                        atomic::replace_file(&p, &label_data(&label))?;
+                        // the map always says what the files do, even if syncing fails
                         labels.insert(label.name.clone(), label.clone());
+                        atomic::sync_directory(&directory)?;
 
                         Ok(label)
                     }
@@ -448,15 +443,17 @@ impl LabelStore for CachedDirectoryLabelStore {
         layer: Option<[u32; 5]>,
     ) -> io::Result<Option<Label>> {
         let mut labels = self.labels.clone().write_owned().await;
-        let p = label_path(&self.path, &label.name);
+        let directory = self.path.clone();
+        let p = label_path(&directory, &label.name);
         let label = label.clone();
         atomic::blocking(move || match labels.get(&label.name) {
             Some(retrieved_label) if *retrieved_label == label => {
                 // all good, let's a go
                 let new_label = label.with_updated_layer(layer);
-                atomic::write_file(&p, &label_data(&new_label))?;
-
+                atomic::replace_file(&p, &label_data(&new_label))?;
                 labels.insert(label.name, new_label.clone());
+                atomic::sync_directory(&directory)?;
+
                 Ok(Some(new_label))
             }
             Some(_) => Ok(None),
@@ -467,21 +464,19 @@ impl LabelStore for CachedDirectoryLabelStore {
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
         let mut labels = self.labels.clone().write_owned().await;
-        let p = label_path(&self.path, name);
+        let directory = self.path.clone();
+        let p = label_path(&directory, name);
         let name = name.to_owned();
         atomic::blocking(move || {
             if !labels.contains_key(&name) {
                 return Ok(false);
             }
 
-            match delete_label_file(&p) {
-                // if the file is gone already, an earlier delete must have failed halfway
-                Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
-                _ => {
-                    labels.remove(&name);
-                    Ok(true)
-                }
-            }
+            std::fs::remove_file(&p)?;
+            labels.remove(&name);
+            atomic::sync_directory(&directory)?;
+
+            Ok(true)
         })
         .await
     }
-- 
2.43.0


From 0f2c060eb17e1d9bbe253fd83e19f5e8dc4b6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 25/30] fix: an import that finds a layer stored already makes
 sure it is durable

---
 src/storage/directory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 921b44f..f4f3864 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -120,7 +120,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
         let path = prefix_path.join(name_str);
         atomic::blocking(move || {
             if path.is_dir() {
-                return Ok(());
+                // whoever stored this layer may not have synced yet
+                return atomic::sync_directory(&prefix_path);
             }
 
             std::fs::create_dir_all(&prefix_path)?;
-- 
2.43.0


From 549b9d3d720fab8b4d5ca226204a43611612591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 26/30] fix: an import that finds a layer archive stored
 already makes sure it is durable

---
 src/storage/archive.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 0259ffb..9235823 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -49,6 +49,10 @@ pub trait ArchiveBackend: Clone + Send + Sync {
         file_type: LayerFileEnum,
     ) -> io::Result<Option<Bytes>>;
     async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()>;
+    /// Make sure that a layer that can be found is also still there after a crash.
+    async fn sync_layer_file(&self, _id: [u32; 5]) -> io::Result<()> {
+        Ok(())
+    }
     async fn read_layer_structure_bytes_from(
         &self,
         id: [u32; 5],
@@ -178,6 +182,14 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         .await
     }
 
+    async fn sync_layer_file(&self, id: [u32; 5]) -> io::Result<()> {
+        let path = self.path_for_layer(id);
+        atomic::blocking(move || {
+            atomic::sync_directory(path.parent().expect("layer path has no parent"))
+        })
+        .await
+    }
+
     async fn read_layer_structure_bytes_from(
         &self,
         id: [u32; 5],
@@ -542,6 +554,10 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
 
         Ok(())
     }
+    async fn sync_layer_file(&self, id: [u32; 5]) -> io::Result<()> {
+        self.data_origin.sync_layer_file(id).await
+    }
+
     async fn read_layer_structure_bytes_from(
         &self,
         id: [u32; 5],
@@ -1494,7 +1510,8 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
 
     async fn store_layer(&self, name: [u32; 5], files: Vec<(String, Bytes)>) -> io::Result<()> {
         if self.metadata_backend.layer_exists(name).await? {
-            return Ok(());
+            // whoever stored this layer may not have synced yet
+            return self.data_backend.sync_layer_file(name).await;
         }
 
         let mut archive_files = Vec::with_capacity(files.len());
-- 
2.43.0


From 99a283b214de95629c5a675b61438719cb1e335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 27/30] fix: load layers whose rollup was rolled up itself
 under their own name

---
 src/storage/layer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 1efefd1..d2d678c 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1517,14 +1517,17 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                         }
 
                         let original_parent;
-                        if self.layer_has_parent(current_layer).await? {
+                        if let Some((_, known_original_parent)) = rollup_option {
+                            // this rollup was rolled up itself, but it still stands in for the same layer
+                            original_parent = known_original_parent;
+                        } else if self.layer_has_parent(current_layer).await? {
                             original_parent = Some(self.read_parent_file(current_layer).await?);
                         } else {
                             original_parent = None;
                         }
 
                         layers_to_load.pop().unwrap(); // we don't want to load this, we want to load the rollup instead!
-                        layers_to_load.push((current_layer, Some((rollup, original_parent))));
+                        layers_to_load.push((original_layer, Some((rollup, original_parent))));
                     } else if self.layer_has_parent(current_layer).await? {
                         let parent = self.read_parent_file(current_layer).await?;
                         layers_to_load.push((parent, None));
-- 
2.43.0


From 3b32e1bfe2e7835f21d61a1fda9591258706e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 28/30] fix: use the id maps of rollup layers when merging base
 layers

---
 src/layer/internal/base_merge.rs | 40 ++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/layer/internal/base_merge.rs b/src/layer/internal/base_merge.rs
index bc1d362..d9ef6b2 100644
--- a/src/layer/internal/base_merge.rs
+++ b/src/layer/internal/base_merge.rs
@@ -9,7 +9,9 @@ use tokio::{fs::OpenOptions, io::AsyncWriteExt};
 
 use crate::{
     chrono_log,
-    layer::{builder::build_indexes, open_base_triple_stream, BaseLayerFileBuilderPhase2},
+    layer::{
+        builder::build_indexes, id_map::IdMap, open_base_triple_stream, BaseLayerFileBuilderPhase2,
+    },
     storage::{
         directory::DirectoryLayerStore, AdjacencyListFiles, BaseLayerFiles, DictionaryFiles,
         FileLoad, FileStore, PersistentLayerStore, TypedDictionaryFiles,
@@ -18,7 +20,7 @@ use crate::{
 use tdb_succinct::{
     dedup_merge_string_dictionaries_stream, dedup_merge_typed_dictionary_streams,
     stream::{TfcDictStream, TfcTypedDictStream},
-    util::heap_sorted_stream,
+    util::{self, heap_sorted_stream},
 };
 
 #[allow(unused)]
@@ -229,16 +231,44 @@ pub async fn merge_base_layers<F: FileLoad + FileStore + 'static, P: AsRef<Path>
         let inner_node_map = &node_map[ix];
         let inner_predicate_map = &predicate_map[ix];
         let inner_value_map = &value_map[ix];
-        let stream = raw_stream.map_ok(move |triple| {
+
+        // Rollup layers have id maps, their ids are not positions in their dictionaries.
+        let id_map_maps = input.id_map_files.map_all().await?;
+        let mapped = id_map_maps.node_value_idmap_maps.is_some()
+            || id_map_maps.predicate_idmap_maps.is_some();
+        let node_value_width =
+            util::calculate_width((inner_node_map.len() + inner_value_map.len()) as u64);
+        let node_value_idmap = id_map_maps
+            .node_value_idmap_maps
+            .map(|maps| IdMap::from_maps(maps, node_value_width))
+            .unwrap_or_default();
+        let predicate_width = util::calculate_width(inner_predicate_map.len() as u64);
+        let predicate_idmap = id_map_maps
+            .predicate_idmap_maps
+            .map(|maps| IdMap::from_maps(maps, predicate_width))
+            .unwrap_or_default();
+
+        let stream = raw_stream.map_ok(move |(s, p, o)| {
             map_triple(
-                triple,
+                (
+                    node_value_idmap.outer_to_inner(s),
+                    predicate_idmap.outer_to_inner(p),
+                    node_value_idmap.outer_to_inner(o),
+                ),
                 inner_node_map,
                 inner_predicate_map,
                 inner_value_map,
                 node_count,
             )
         });
-        triple_streams.push(stream);
+        if mapped {
+            // the order of the ids is not that of the dictionaries either
+            let mut triples: Vec<_> = stream.try_collect().await?;
+            triples.sort_unstable();
+            triple_streams.push(futures::stream::iter(triples.into_iter().map(Ok)).boxed());
+        } else {
+            triple_streams.push(stream.boxed());
+        }
     }
 
     let mut merged_triples = heap_sorted_stream(triple_streams).await?;
-- 
2.43.0


From 30e4681e2ccb84793e47951bd0b0a715790c3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 29/30] fix: refuse graph names with path separators in
 directory label stores

---
 src/storage/directory.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index f4f3864..49e878b 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -237,6 +237,22 @@ fn label_path(directory: &Path, name: &str) -> PathBuf {
     directory.join(format!("{}.label", name))
 }
 
+/// A label with a path separator in its name would end up in another directory.
+fn is_label_name(name: &str) -> bool {
+    !name.contains(std::path::is_separator)
+}
+
+fn check_label_name(name: &str) -> io::Result<()> {
+    if is_label_name(name) {
+        Ok(())
+    } else {
+        Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "label names cannot contain path separators",
+        ))
+    }
+}
+
 fn delete_label_file(path: &Path) -> io::Result<()> {
     std::fs::remove_file(path)?;
     atomic::sync_directory(path.parent().expect("file has no parent directory"))
@@ -257,6 +273,10 @@ fn lock_labels(directory: &Path) -> io::Result<std::fs::File> {
 }
 
 async fn get_label_from_dir(directory: &Path, name: &str) -> io::Result<Option<Label>> {
+    if !is_label_name(name) {
+        return Ok(None);
+    }
+
     match fs::read(label_path(directory, name)).await {
         Ok(data) => get_label_from_data(name.to_owned(), &data).map(Some),
         Err(e) => match e.kind() {
@@ -274,6 +294,7 @@ impl LabelStore for DirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
+        check_label_name(label)?;
         let path = self.path.clone();
         let label = Label::new_empty(label);
         atomic::blocking(move || {
@@ -306,6 +327,7 @@ impl LabelStore for DirectoryLabelStore {
         label: &Label,
         layer: Option<[u32; 5]>,
     ) -> io::Result<Option<Label>> {
+        check_label_name(&label.name)?;
         let path = self.path.clone();
         let label = label.clone();
         atomic::blocking(move || {
@@ -325,6 +347,10 @@ impl LabelStore for DirectoryLabelStore {
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
+        if !is_label_name(name) {
+            return Ok(false);
+        }
+
         let path = self.path.clone();
         let name = name.to_owned();
         atomic::blocking(move || {
@@ -402,6 +428,7 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
+        check_label_name(label)?;
         let mut labels = self.labels.clone().write_owned().await;
         let directory = self.path.clone();
         let p = label_path(&directory, label);
-- 
2.43.0


From 7f6f17c7f923e9cbc46b5d6bdc5f4b2c33ede2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 30/30] fix: a query for predicate 0 gives no triples

0 marks subjects without triples in the adjacency list, and is therefore also in
the predicate wavelet tree. Looking it up gave triples of other predicates.
---
 src/layer/internal/mod.rs | 9 ++++++---
 src/storage/layer.rs      | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index d5a79ed..14f8033 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -373,7 +373,8 @@ impl InternalLayer {
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
         match self.pos_predicate_wavelet_tree().lookup(predicate) {
-            Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
+            // 0 isn't a predicate, but it is in the tree for subjects without triples
+            Some(lookup) if predicate != 0 => OptInternalLayerTriplePredicateIterator(Some(
                 InternalLayerTriplePredicateIterator::new(
                     lookup,
                     self.pos_subjects().cloned(),
@@ -381,7 +382,7 @@ impl InternalLayer {
                     self.pos_sp_o_adjacency_list().clone(),
                 ),
             )),
-            None => OptInternalLayerTriplePredicateIterator(None),
+            _ => OptInternalLayerTriplePredicateIterator(None),
         }
     }
 
@@ -395,7 +396,9 @@ impl InternalLayer {
             self.neg_s_p_adjacency_list(),
             self.neg_sp_o_adjacency_list(),
         ) {
-            (Some(lookup), Some(s_p_adjacency_list), Some(sp_o_adjacency_list)) => {
+            (Some(lookup), Some(s_p_adjacency_list), Some(sp_o_adjacency_list))
+                if predicate != 0 =>
+            {
                 OptInternalLayerTriplePredicateIterator(Some(
                     InternalLayerTriplePredicateIterator::new(
                         lookup,
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index d2d678c..0a99846 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -2633,10 +2633,11 @@ pub(crate) async fn file_triple_iterator_by_predicate<F: FileLoad + FileStore>(
     let wavelet_bits = predicate_wavelet_maps.into();
     let wtree = WaveletTree::from_parts(wavelet_bits, width);
     Ok(match wtree.lookup(predicate) {
-        Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
+        // 0 isn't a predicate, but it is in the tree for subjects without triples
+        Some(lookup) if predicate != 0 => OptInternalLayerTriplePredicateIterator(Some(
             InternalLayerTriplePredicateIterator::new(lookup, subjects, s_p_aj, sp_o_aj),
         )),
-        None => OptInternalLayerTriplePredicateIterator(None),
+        _ => OptInternalLayerTriplePredicateIterator(None),
     })
 }
 
-- 
2.43.0

