From 7eb5076a9287ff41edd82c910dbe978e788c3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 01/27] fix: backup, prune and copy hang on machines with fewer
 than four cores

The packers, the indexer and the uploader feed each other through
rendezvous channels, but only as many of them as there are physical
cores were started.
---
 src/concurrently.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..859dd11 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,23 @@ where
     })
 }
 
+/// Run each of the given functions in its own (named!) thread.
+/// If one fails, kill the program instead of waiting around.
+///
+/// Unlike the others here, this starts *everything*, no matter how many CPUs we have:
+/// it's used for jobs that feed each other through channels,
+/// so holding some back until others finish would leave them waiting on each other forever.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From a24c203c802769ca2aba89a2f58f3f3bb17cff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 02/27] fix: semaphore loses wakeups with several waiters

Only the guard that raised the count from zero woke a waiter, so when
several guards were dropped before that waiter ran, the others slept on
with permits available.
---
 src/semaphored.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..0f2125b 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,11 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit
+        //
+        // Wake someone even if the count was already positive:
+        // With several sleepers, two posts in a row (0 -> 1 -> 2) have to wake two of them.
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From 4c0974b9191c6fe5ca59cae261ee6a00e3ab238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 03/27] fix: resumed prune deletes packs its new index refers
 to

An interrupted prune's WIP index can list packs that have become only
partly reachable since (a snapshot was forgotten in between). Resuming
from it skipped repacking their blobs, then deleted the packs.
---
 src/ui/prune.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..0b645f9 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -147,6 +147,16 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Does the WIP want to keep packs we're about to delete?
+        // (They could have been completely reachable when it was interrupted,
+        // but some snapshot's been forgotten since.)
+        else if wip_index
+            .packs
+            .keys()
+            .any(|id| packs_to_prune.contains_key(id))
+        {
+            warn!("WIP index file contains packs to prune. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
-- 
2.43.0


From 39fe12bb26331390136914650fc839c76e9a1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 04/27] fix: backup and copy resume from an interrupted prune's
 WIP index

The index they then upload supersedes every index prune meant to
replace, but lacks the packs it hadn't rewritten yet, so their blobs
are gone from the master index.
---
 src/backup.rs    | 14 ++++++++++++++
 src/ui/backup.rs |  2 +-
 src/ui/copy.rs   |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..c2ad9d9 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -303,6 +303,20 @@ pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<Resumab
     }))
 }
 
+/// [`find_resumable()`] for actions that only add to the backup (`backup`, `copy`).
+///
+/// A WIP index that supersedes others came from an interrupted prune.
+/// It only makes sense once prune has repacked all it needs to -
+/// finishing and uploading it from here would supersede indexes of packs still in use!
+pub fn find_resumable_backup(backend: &backend::CachedBackend) -> Result<ResumableBackup> {
+    let resumable = find_resumable(backend)?.unwrap_or_default();
+    if !resumable.wip_index.supersedes.is_empty() {
+        warn!("WIP index file is from an interrupted prune. Starting over.");
+        return Ok(ResumableBackup::default());
+    }
+    Ok(resumable)
+}
+
 fn find_cwd_packfiles(index: &index::Index) -> Result<Vec<ObjectId>> {
     let mut packfiles = vec![];
 
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..9b9a1c3 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_resumable_backup(&cached_backend)?;
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..e4f7c70 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -89,7 +89,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_resumable_backup(&dst_cached_backend)?;
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
-- 
2.43.0


From d8654b490cf16bf7858ed795e1f8d2423a86a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 05/27] fix: rebuild-index and dry runs overwrite the WIP index

Neither is resumable, but both persisted their index as the WIP one:
rebuild-index left it behind for the next command to resume from, and a
dry run replaced the one an interrupted backup needs.
---
 src/index.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 2face26..12c4194 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -111,7 +111,10 @@ pub fn index(
     }
     // If we haven't been saving a WIP index, write it all out now.
     if !index.is_empty() && resumable == Resumable::No {
-        persisted = Some(to_temp_file(&index)?);
+        // Leave any WIP index alone: it's some interrupted run's, which might still be resumed.
+        let mut tf = temp_file()?;
+        let id = to_file(tf.as_file_mut(), &index)?;
+        persisted = Some((id, tf.into_file()));
     }
 
     if let Some((index_id, mut fh)) = persisted {
@@ -151,18 +154,21 @@ pub fn index(
     }
 }
 
+fn temp_file() -> Result<tempfile::NamedTempFile> {
+    tempfile::Builder::new()
+        .prefix("temp-backpak-")
+        .suffix(".index")
+        .tempfile_in(".")
+        .context("Couldn't open temporary index for writing")
+}
+
 fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
     // Could we speed things up by reusing the same file handle instead of
     // opening, writing, and closing each time we update the WIP index file?
     // Probably, but we'd have to seek back to the beginning each time,
     // _and_ we'd be assuming that the file grows larger each time.
     // (This _might_ not be true since its contents are compressed...)
-    let mut tf = tempfile::Builder::new()
-        .prefix("temp-backpak-")
-        .suffix(".index")
-        .tempfile_in(".")
-        .context("Couldn't open temporary index for writing")?;
-
+    let mut tf = temp_file()?;
     let id = to_file(tf.as_file_mut(), index)?;
     let f = tf
         .persist(WIP_NAME)
-- 
2.43.0


From 6057f337b93bd6b0d14f01c331ded3d80e99c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 06/27] fix: dry runs remove the WIP index of an interrupted
 backup

---
 src/backup.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backup.rs b/src/backup.rs
index c2ad9d9..8f6a51d 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -67,6 +67,7 @@ use crate::index;
 use crate::pack;
 use crate::upload;
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Mode {
     DryRun,
     LiveFire,
@@ -77,6 +78,7 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    mode: Mode,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -97,6 +99,11 @@ impl Backup<'_, '_> {
         drop(self.upload_tx);
         self.threads.join().unwrap();
 
+        // Dry runs don't make a WIP index. If there is one, it's not ours to remove.
+        if self.mode == Mode::DryRun {
+            return Ok(());
+        }
+
         // If everything exited cleanly, we uploaded the new index.
         // We can axe the WIP one, which we kept around until now to make sure we're resumable.
         match fs::remove_file(index::WIP_NAME) {
@@ -154,6 +161,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        mode,
         threads,
     }
 }
-- 
2.43.0


From ac10423b6b4b1cf38e58fd3840a73f799c5d9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 07/27] fix: repositories with a blob in several packs are
 unusable

Two backups at once, or rebuild-index after an interrupted prune or
backup, can leave the same blob in two packs. Every command then
refused to start.
---
 src/index.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 12c4194..da18ec2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -27,7 +27,7 @@ use std::sync::{
     mpsc::{Receiver, SyncSender},
 };
 
-use anyhow::{Context, Result, anyhow, bail, ensure};
+use anyhow::{Context, Result, anyhow, ensure};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde_derive::{Deserialize, Serialize};
 use tracing::*;
@@ -278,14 +278,12 @@ pub fn blob_to_pack_map(index: &Index) -> Result<BlobMap> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if let Some(other_pack) = mapping.insert(blob.id, *pack_id) {
-                // TODO: Should this just be a warning?
-                // This might happen in weird cases like concurrent backups
-                // but isn't a huge issue so long as the blobs are valid...
-                bail!(
+                // This can happen with concurrent backups,
+                // or when rebuilding the index after an interrupted prune or backup.
+                // It isn't a huge issue so long as the blobs are valid.
+                debug!(
                     "Duplicate blob {} in pack {}, previously seen in pack {}",
-                    blob.id,
-                    pack_id,
-                    other_pack
+                    blob.id, pack_id, other_pack
                 );
             }
         }
@@ -302,8 +300,7 @@ pub fn blob_id_set(index: &Index) -> Result<FxHashSet<ObjectId>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if !blobs.insert(blob.id) {
-                // TODO: Ditto - just warn?
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
@@ -319,7 +316,7 @@ pub fn blob_to_size_map(index: &Index) -> Result<FxHashMap<ObjectId, u32>> {
     for (pack_id, manifest) in &index.packs {
         for blob in manifest {
             if size_map.insert(blob.id, blob.length).is_some() {
-                bail!("Duplicate blob {} in pack {}", blob.id, pack_id);
+                debug!("Duplicate blob {} in pack {}", blob.id, pack_id);
             }
         }
     }
-- 
2.43.0


From 62aa68ba80cc2f753453bd6821e43e3d9c79e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:12 +0000
Subject: [PATCH 08/27] fix: restore the times of files last changed before
 1970

A negative sub-second part was handed to utimensat as it was,
which refuses it (EINVAL) and so failed the whole restore.
---
 src/ui/restore.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..cc20a4f 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -281,10 +281,14 @@ fn load_fs_tree_and_mapping<'a>(
 
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
-    Timespec {
-        tv_sec: t.as_second(),
-        tv_nsec: t.subsec_nanosecond() as i64,
+    // Before 1970, both parts of a Timestamp are negative, but tv_nsec must be in [0, 1e9).
+    let mut tv_sec = t.as_second();
+    let mut tv_nsec = t.subsec_nanosecond() as i64;
+    if tv_nsec < 0 {
+        tv_sec -= 1;
+        tv_nsec += 1_000_000_000;
     }
+    Timespec { tv_sec, tv_nsec }
 }
 
 struct Restorer<'a> {
-- 
2.43.0


From d5e328f35d89b7fc71673e0950e2322464e1c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 09/27] fix: backup panics when it resumes but has nothing new
 to save

Finishing an interrupted backup's packs uploads things even when the given
paths are empty or match the last snapshot.
---
 src/ui/backup.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b9a1c3..79a9091 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -148,6 +148,10 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         }
     }
 
+    // If we're finishing off an interrupted backup, there's work to do (and count)
+    // even when there's nothing new in `paths`.
+    let resuming = !wip_index.packs.is_empty();
+
     let bmode = if args.dry_run {
         backup::Mode::DryRun
     } else {
@@ -211,12 +215,14 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     })?;
     if root == *tree::EMPTY_ID && !args.allow_empty {
         // We really did nothing, huh?
-        assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
-        assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+        if !resuming {
+            assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
+            assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
+            assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
+            assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
+            assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
+            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+        }
 
         info!("Nothing backed up! Pass --allow-empty to create an empty snapshot.");
         return Ok(());
@@ -250,11 +256,13 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     match prev_but_now {
         Some(p) if p == snapshot => {
             // We really did nothing, huh?
-            assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
-            assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+            if !resuming {
+                assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
+                assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
+                assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
+                assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
+                assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+            }
 
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
-- 
2.43.0


From f464cf8b735681b01e431da2558dbf46601d89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 10/27] fix: backup ignores --allow-repeat

---
 src/ui/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 79a9091..ce0582c 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -254,7 +254,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         s
     });
     match prev_but_now {
-        Some(p) if p == snapshot => {
+        Some(p) if p == snapshot && !args.allow_repeat => {
             // We really did nothing, huh?
             if !resuming {
                 assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
-- 
2.43.0


From 06a26198e9e99bbc34ccdad6a9cfa2ca09b1e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 11/27] fix: restore writes through dangling symlinks in the
 output directory

---
 src/ui/restore.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index cc20a4f..e3f869a 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -236,7 +236,9 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                // (Don't follow symlinks here either! A dangling one is still in the way,
+                // and we'd write through it to wherever it points.)
+                .filter(|p| p.symlink_metadata().is_ok())
                 .collect();
 
             fs_tree::forest_from_fs(
-- 
2.43.0


From 7fbc5313e46c220baf7e35ec8fd60a2b451e61f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 12/27] fix: restore fails when a path from the snapshot is
 gone

---
 src/ui/restore.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index e3f869a..1c61ba0 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -259,9 +259,16 @@ fn load_fs_tree_and_mapping<'a>(
             "Restoring snapshot {} to its paths, {:?}",
             id, snapshot.paths
         );
+        // Only walk what's still there. Anything that's not gets added.
+        let paths = snapshot
+            .paths
+            .iter()
+            .filter(|p| p.symlink_metadata().is_ok())
+            .cloned()
+            .collect();
         let (fs_id, fs_forest) = fs_tree::forest_from_fs(
             tree::Symlink::Read, // See above
-            &snapshot.paths,
+            &paths,
             Some(&snapshot.tree),
             snapshot_forest,
         )?;
-- 
2.43.0


From bae73b484f0a5133ecf972c7339d89227b95c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 13/27] fix: dump searches past a symlink in the wrong
 directory

---
 src/ui/dump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/dump.rs b/src/ui/dump.rs
index 0ec62c1..04b4e94 100644
--- a/src/ui/dump.rs
+++ b/src/ui/dump.rs
@@ -84,7 +84,11 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 }
             }
             tree::NodeContents::Symlink { target } => {
-                dump_symlink(target, &path_so_far, &args.output)?;
+                if is_last_component {
+                    dump_symlink(target, &path_so_far, &args.output)?;
+                } else {
+                    bail!("{path_so_far} is a symlink, not a directory");
+                }
             }
             tree::NodeContents::File { chunks } => {
                 if is_last_component {
-- 
2.43.0


From 7201b8f9cdc17c76066766168fa2942983f388a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 14/27] fix: panic on LAST~<huge number>

---
 src/snapshot.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index b747d96..14685e0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -259,12 +259,15 @@ pub fn find<'a>(
         let index = match groups[..] {
             [_, None, None] => 0,
             [_, Some(_), None] => 1,
-            [_, None, Some(n)] => n.as_str().parse().unwrap(),
+            [_, None, Some(n)] => n
+                .as_str()
+                .parse()
+                .with_context(|| format!("Don't have {} snapshots", n.as_str()))?,
             _ => unreachable!(),
         };
         match chronological_snapshots.iter().rev().nth(index) {
             Some(found) => return Ok(found),
-            None => bail!("Don't have {} snapshots yet", index + 1),
+            None => bail!("Don't have {} snapshots yet", index.saturating_add(1)),
         };
     }
 
-- 
2.43.0


From 58f245b0b8b61b1c1e29697a1722cf54dcce6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 15/27] fix: duplicate snapshot arguments when several share a
 time

---
 src/snapshot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 14685e0..63b6946 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -299,7 +299,8 @@ pub fn from_args_list(
         desired_snaps.push((s.clone(), *i));
     }
     // Take whatever the user asked for and make it chronological with no duplicates.
-    desired_snaps.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // (Sort by ID too, or duplicates aren't adjacent when several have the same time.)
+    desired_snaps.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     desired_snaps.dedup_by(|(_, id1), (_, id2)| id1 == id2);
     Ok(desired_snaps)
 }
-- 
2.43.0


From 03bd1eb72365248286dc1f11db7c454e5a7cf144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 16/27] fix: usage and snapshots --sizes fail when there's an
 empty directory

---
 src/tree.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..5374891 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::fs;
 use std::sync::{Arc, LazyLock};
 
-use anyhow::{Context, Result, anyhow, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use jiff::Timestamp;
 use rustc_hash::{FxHashMap, FxHashSet};
@@ -547,10 +547,12 @@ fn tree_size(
         .ok_or_else(|| anyhow!("Missing tree {tree_id}"))
         .unwrap();
 
-    let ts = size_map
-        .get(tree_id)
-        .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
-    let ts = *ts as u64;
+    let ts = match size_map.get(tree_id) {
+        Some(ts) => *ts as u64,
+        // Backups don't bother packing empty trees (see `Cache::new()`)
+        None if *tree_id == *EMPTY_ID => 0,
+        None => bail!("Couldn't find tree {tree_id} to get size"),
+    };
     s.tree_bytes += ts;
     if visited_blobs.insert(*tree_id) {
         s.introduced += ts;
-- 
2.43.0


From a9d6e4c4b723b90b1f31ab5cfaeb04c4c729f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 17/27] fix: copied files are renamed into place before they're
 synced

---
 src/file_util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 09a14fe..08db1d3 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -131,12 +131,14 @@ pub fn safe_copy_to_file<R: Read>(mut from: R, to: &Utf8Path) -> Result<File> {
         .with_context(|| format!("Couldn't write to {temp_path}"))?;
     drop(from);
 
+    // Sync before renaming, or we could lose power with `to` in place but its contents not.
+    to_fh
+        .as_file()
+        .sync_all()
+        .with_context(|| format!("Couldn't sync {temp_path}"))?;
     let persisted = to_fh
         .persist(to)
         .with_context(|| format!("Couldn't persist {temp_path} to {to}"))?;
-    persisted
-        .sync_all()
-        .with_context(|| format!("Couldn't sync {to}"))?;
 
     Ok(persisted)
 }
-- 
2.43.0


From 59a242d065cb6e683d1b00142e051ed3b45bad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:16 +0000
Subject: [PATCH 18/27] fix: a snapshot of a single file can't be restored into
 a directory

restore -o DIR mapped the file to DIR itself: it restored nothing (and said
nothing), and with --delete replaced the whole directory with the file.
---
 src/ui/restore.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 1c61ba0..57e0117 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -50,7 +50,8 @@ pub struct Args {
     ///
     /// A snapshot of a single directory, it is mapped directly:
     /// one of `/foo/bar/baz` restored with `--output ./bob`
-    /// will restore baz's contents into `./bob`
+    /// will restore baz's contents into `./bob`.
+    /// (A snapshot of a single file is restored to a file in `./bob`.)
     ///
     /// If the snapshot consists of multiple directories,
     /// they are dumped into the output:
@@ -155,7 +156,12 @@ fn load_fs_tree_and_mapping<'a>(
 
         // See the --help doc above: If the snapshot is a single directory,
         // map it directoy to `<DIR>` in `--output <DIR>`
-        let (fs_id, fs_forest) = if snapshot.paths.len() == 1 {
+        // (A single file goes _inside_ the output directory - it can't become it.)
+        let file_into_dir = to.is_dir()
+            && snapshot_forest[&snapshot.tree]
+                .values()
+                .any(|n| n.kind() != NodeType::Directory);
+        let (fs_id, fs_forest) = if snapshot.paths.len() == 1 && !file_into_dir {
             // Map the last component of the snapshot dir
             // (i.e., the one entry in our top-level tree) to the output dir.
             let last_dir = snapshot.paths.iter().next().unwrap().file_name().unwrap();
-- 
2.43.0


From 5e8bbb8fbf751a41c8804660c4c08c4abd912f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:29 +0000
Subject: [PATCH 19/27] fix: have check --read-packs compare the hash of a
 pack's manifest to its ID

CBOR decodes different bytes to the same values (a map key may be a text or a byte string),
so a manifest could be damaged, compare equal to the index's, and still be refused by
load_manifest() - by rebuild-index, of all things.
---
 src/pack.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pack.rs b/src/pack.rs
index c8244c5..cae02bc 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -331,13 +331,23 @@ pub fn verify<R: Read + Seek>(
     // Or is that fine, since verification isn't as performance critical
     // as other interactions?
     let mut packfile = decoder.finish();
-    let (manifest_from_file, _id) = manifest_from_reader(&mut packfile)?;
+    let (manifest_from_file, id_from_file) = manifest_from_reader(&mut packfile)?;
 
     ensure!(
         manifest_from_index == manifest_from_file,
         "Pack manifest doesn't match its index entry and file contents"
     );
 
+    // Different bytes can decode to the same manifest (CBOR is lenient that way),
+    // but load_manifest() won't have any of it.
+    let (_, expected_id) = serialize_and_hash(manifest_from_index)?;
+    ensure!(
+        id_from_file == expected_id,
+        "Pack manifest hashes to {}, expected {}",
+        id_from_file,
+        expected_id
+    );
+
     Ok(())
 }
 
-- 
2.43.0


From cf33293f8cb3b258b7544a9710e6d516b3219059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:54 +0000
Subject: [PATCH 20/27] fix: break ties between snapshots of the same time by
 ID, not by loading order

---
 src/snapshot.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 63b6946..a985ad4 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -229,7 +229,8 @@ pub fn load_chronologically_with_total_size(
             }
         });
     let mut snapshots = concurrently::map_concurrently(get_snapshots);
-    snapshots.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // Break ties by ID so that the order doesn't depend on which one we loaded first.
+    snapshots.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     Ok((snapshots, total.load(Ordering::SeqCst)))
 }
 
-- 
2.43.0


From 0d5e303c3a56fc9d311c9568cbfa5b2107067352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:43 +0000
Subject: [PATCH 21/27] fix: order cached chunks by access, not by a clock that
 might not advance

---
 src/read.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index a0e38b5..ebd9239 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -1,7 +1,7 @@
 //! Tools to traverse a repository, reading blobs
 //!
 //! This is ultimately how we read backups back out for restore, repack, etc.
-use std::{cmp::Ordering, io::prelude::*, rc::Rc, time::Instant};
+use std::{cmp::Ordering, io::prelude::*, rc::Rc};
 
 use anyhow::{Context, Result, anyhow, ensure};
 use mut_binary_heap::{BinaryHeap, FnComparator};
@@ -19,13 +19,12 @@ use crate::pack;
 type ZstdDecoder<R> = zstd::stream::read::Decoder<'static, R>;
 
 struct TimestampedChunk {
-    stamp: Instant,
+    stamp: u64,
     chunk: Rc<Vec<u8>>,
 }
 
 impl TimestampedChunk {
-    fn new(chunk: Vec<u8>) -> Self {
-        let stamp = Instant::now();
+    fn new(chunk: Vec<u8>, stamp: u64) -> Self {
         let chunk = Rc::new(chunk);
         Self { stamp, chunk }
     }
@@ -41,6 +40,8 @@ type ChunkComparator = FnComparator<ChunkOrder>;
 struct ChunkCache {
     cache: BinaryHeap<ObjectId, TimestampedChunk, ChunkComparator>,
     space_used: usize,
+    // Count accesses instead of using the clock, which might not advance between two of them.
+    now: u64,
 }
 
 impl ChunkCache {
@@ -48,13 +49,22 @@ impl ChunkCache {
         // min heap by timestamp
         let cache: BinaryHeap<ObjectId, TimestampedChunk, ChunkComparator> =
             BinaryHeap::new_by(min_time);
-        let space_used = 0;
-        Self { cache, space_used }
+        Self {
+            cache,
+            space_used: 0,
+            now: 0,
+        }
+    }
+
+    fn tick(&mut self) -> u64 {
+        self.now += 1;
+        self.now
     }
 
     fn get(&mut self, id: &ObjectId) -> Option<Rc<Vec<u8>>> {
+        let stamp = self.tick();
         if let Some(mut tb) = self.cache.get_mut(id) {
-            tb.stamp = Instant::now();
+            tb.stamp = stamp;
             Some(tb.chunk.clone())
         } else {
             None
@@ -62,13 +72,15 @@ impl ChunkCache {
     }
 
     fn insert(&mut self, id: &ObjectId, chunk: &[u8]) {
+        let stamp = self.tick();
+
         // If this chunk is already in-cache, just bump its timestamp.
         if let Some(mut tb) = self.cache.get_mut(id) {
-            tb.stamp = Instant::now();
+            tb.stamp = stamp;
             return;
         }
 
-        let new_entry = TimestampedChunk::new(Vec::from(chunk));
+        let new_entry = TimestampedChunk::new(Vec::from(chunk), stamp);
         self.space_used += chunk.len();
         self.cache.push(*id, new_entry);
     }
-- 
2.43.0


From f05e85028343af0555f02992dc2f82aae2e08699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:48 +0000
Subject: [PATCH 22/27] fix: heed .backpak even without a global configuration
 file

---
 src/config.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b7257d6..f653e04 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -71,13 +71,13 @@ pub fn load(p: Option<Utf8PathBuf>) -> Result<Configuration> {
         }
     };
     let confpath = confpath?;
-    let s = match fs::read_to_string(&confpath) {
-        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(Configuration::default()),
-        found => found,
-    }
-    .with_context(|| format!("Couldn't open {confpath}"))?;
-    let mut conf: Configuration =
-        toml::from_str(&s).with_context(|| format!("Couldn't parse {confpath}"))?;
+    let mut conf: Configuration = match fs::read_to_string(&confpath) {
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Configuration::default(),
+        found => {
+            let s = found.with_context(|| format!("Couldn't open {confpath}"))?;
+            toml::from_str(&s).with_context(|| format!("Couldn't parse {confpath}"))?
+        }
+    };
     let local_conf = load_cwd()?;
     // We have <> at home.
     if let Some(lc) = local_conf {
-- 
2.43.0


From 89eb9701cc6232eb2f66e5f9c2c3cad122a7a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:02 +0000
Subject: [PATCH 23/27] fix: take the cache database's write lock up front when
 opening it

---
 src/backend/cache.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 0dc23ac..4d1158c 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -7,7 +7,7 @@ use std::{
 use anyhow::{Context, Result, anyhow, bail};
 use byte_unit::Byte;
 use camino::{Utf8Path, Utf8PathBuf};
-use rusqlite::Connection;
+use rusqlite::{Connection, TransactionBehavior};
 
 use crate::counters::{Op, bump};
 use crate::file_util;
@@ -38,7 +38,9 @@ impl Cache {
     pub fn new(dir: &Utf8Path, cache_size: Byte) -> Result<Self> {
         let mut conn = Connection::open(dir.join("cache_metadata.sqlite"))?;
 
-        let t = conn.transaction()?;
+        // Take the write lock up front: SQLite won't wait for other processes
+        // when upgrading a read transaction to a write one - it just fails.
+        let t = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
         let ver: i32 = t.query_row("PRAGMA user_version", (), |r| r.get(0))?;
         if ver < 1 {
             t.execute(
-- 
2.43.0


From a2a84d0eec9dee687ef00ff06db8a3b0e805ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:34 +0000
Subject: [PATCH 24/27] fix: load snapshots before indexes, so that one made
 meanwhile isn't missing its trees

---
 src/ui/backup.rs          |  6 ++++--
 src/ui/check.rs           | 14 +++++++-------
 src/ui/copy.rs            |  4 +++-
 src/ui/diff.rs            |  4 +++-
 src/ui/filter_snapshot.rs |  4 +++-
 src/ui/restore.rs         |  4 +++-
 src/ui/usage.rs           |  6 ++++--
 7 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index ce0582c..87cc341 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -118,11 +118,13 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         backend::CacheBehavior::Normal,
     )?;
 
+    info!("Finding a parent snapshot");
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    info!("Finding a parent snapshot");
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let parent = parent_snapshot(&paths, &snapshots);
     let parent = parent.as_ref();
 
diff --git a/src/ui/check.rs b/src/ui/check.rs
index 328adc9..49cbb40 100644
--- a/src/ui/check.rs
+++ b/src/ui/check.rs
@@ -50,6 +50,9 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         backend::CacheBehavior::AlwaysRead,
     )?;
 
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let snapshots = snapshot::load_chronologically(&cached_backend);
     let index = index::build_master_index(&cached_backend)?;
 
     info!("Downloading pack list");
@@ -119,7 +122,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
 
     // Map the chunks that belong in each snapshot.
     let chunks_to_snapshots = map_chunks_to_snapshots(
-        &cached_backend,
+        &snapshots?,
         &mut tree::Cache::new(&index, &blob_map, &cached_backend),
     )?;
 
@@ -195,15 +198,12 @@ pub fn warn_on_unreachable_packs(index: &index::Index, all_packs: &[(String, u64
 
 /// Maps all reachable chunks to the set of snapshots that use them
 fn map_chunks_to_snapshots(
-    cached_backend: &backend::CachedBackend,
+    snapshots: &[(snapshot::Snapshot, ObjectId)],
     tree_cache: &mut tree::Cache,
 ) -> Result<FxHashMap<ObjectId, FxHashSet<ObjectId>>> {
     let mut chunks_to_snapshots = FxHashMap::default();
 
-    for (snapshot_path, _snapshot_len) in cached_backend.list_snapshots()? {
-        let snapshot_id = backend::id_from_path(&snapshot_path)?;
-        let snapshot = snapshot::load(&snapshot_id, cached_backend)?;
-
+    for (snapshot, snapshot_id) in snapshots {
         let snapshot_tree = tree::forest_from_root(&snapshot.tree, tree_cache)?;
 
         for chunks in snapshot_tree
@@ -213,7 +213,7 @@ fn map_chunks_to_snapshots(
             for chunk in chunks {
                 let needed_by: &mut FxHashSet<ObjectId> =
                     chunks_to_snapshots.entry(chunk).or_default();
-                needed_by.insert(snapshot_id);
+                needed_by.insert(*snapshot_id);
             }
         }
     }
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e4f7c70..3724a73 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -60,10 +60,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_index = index::build_master_index(&src_cached_backend)?;
     let src_blob_map = index::blob_to_pack_map(&src_index)?;
 
-    let src_snapshots = snapshot::load_chronologically(&src_cached_backend)?;
     let src_snapshots = if args.target.all {
         src_snapshots
     } else {
diff --git a/src/ui/diff.rs b/src/ui/diff.rs
index bf8d86a..1d35a63 100644
--- a/src/ui/diff.rs
+++ b/src/ui/diff.rs
@@ -51,11 +51,13 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot1, id1) = snapshot::find(&snapshots, &args.first_snapshot)?;
     let snapshot1_forest = tree::forest_from_root(&snapshot1.tree, &mut tree_cache)?;
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index a4793ef..04b4f70 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -55,10 +55,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let chrono_snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (target, target_id) = snapshot::find(&chrono_snapshots, &args.target_snapshot)?;
 
     let snapshot_and_forest = repack::load_forest(
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 57e0117..30880c6 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -100,10 +100,12 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
-    let snapshots = snapshot::load_chronologically(&cached_backend)?;
     let (snapshot, id) = snapshot::find(&snapshots, &args.restore_from)?;
     let snapshot_forest = tree::forest_from_root(
         &snapshot.tree,
diff --git a/src/ui/usage.rs b/src/ui/usage.rs
index ad278fc..298ead2 100644
--- a/src/ui/usage.rs
+++ b/src/ui/usage.rs
@@ -12,6 +12,10 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // Load snapshots before indexes: a backup running right now uploads its index
+    // before its snapshot, so we'll find everything the snapshots we see need.
+    let (snapshots, snapshot_size) =
+        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     let (index, index_sizes) = index::build_master_index_with_sizes(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
     let mut tree_cache = tree::Cache::new(&index, &blob_map, &cached_backend);
@@ -20,8 +24,6 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path) -> Result<()>
     let mut reachable_blobs = FxHashSet::default();
     let reachable_blob_size;
 
-    let (snapshots, snapshot_size) =
-        snapshot::load_chronologically_with_total_size(&cached_backend)?;
     if snapshots.is_empty() {
         reachable_blob_size = 0u64;
         println!("0 snapshots");
-- 
2.43.0


From af08bc0c8a157125b4b6417eaee0452189321094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:25 +0000
Subject: [PATCH 25/27] fix: take the cache database's write lock before
 pruning it

---
 src/backend/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 4d1158c..01a9008 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -143,9 +143,10 @@ impl Cache {
     }
 
     pub fn prune(&self) -> Result<()> {
-        // We want this all to be atomic.
+        // We want this all to be atomic, and to not fail when another process
+        // changes the cache between our reads and our writes.
         let mut c = self.conn.lock().unwrap();
-        let transaction = c.transaction()?;
+        let transaction = c.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         // Get the max cache size.
         let max_size: i64 =
-- 
2.43.0


From f76adf0a6cc3ff9e188dfa5f7987df7adecfabd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 26/27] fix: don't upload prune's new index when repacking
 failed

If reading some blob failed, the channels closed on the way out. The indexer
took that for the end and uploaded an index which supersedes all others but
misses what wasn't repacked yet.
---
 src/ui/prune.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 0b645f9..75d0809 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -10,6 +10,7 @@ use tracing::*;
 use crate::backend;
 use crate::backup;
 use crate::config::Configuration;
+use crate::fatal;
 use crate::file_util::nice_size;
 use crate::hashing::ObjectId;
 use crate::index;
@@ -195,7 +196,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &cached_backend.bytes_uploaded,
         );
 
-        let run_res = (|| {
+        let run_res = (|| -> Result<()> {
             // Finish the WIP resume business.
             if !args.dry_run {
                 backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)?;
@@ -218,18 +219,25 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 &walk_stats,
             )?;
 
-            // NB: Before deleting the old indexes, we make sure the new one's been written.
-            //     This ensures there's no point in time when we don't have a valid index
-            //     of reachable blobs in packs. rebuild-index plays the same game.
-            //
-            //     Any concurrent writers (writing a backup at the same time)
-            //     will upload their own index only after all packs are uploaded,
-            //     making sure indexes never refer to missing packs. (I hope...)
-            backup.join()?;
             Ok(())
         })();
+        // If that failed, don't let `backup` drop! Once its channels close, the indexer would
+        // think we're done and upload an index that supersedes the current ones
+        // but is missing everything we hadn't repacked yet.
+        if let Err(e) = run_res {
+            fatal(e);
+        }
+
+        // NB: Before deleting the old indexes, we make sure the new one's been written.
+        //     This ensures there's no point in time when we don't have a valid index
+        //     of reachable blobs in packs. rebuild-index plays the same game.
+        //
+        //     Any concurrent writers (writing a backup at the same time)
+        //     will upload their own index only after all packs are uploaded,
+        //     making sure indexes never refer to missing packs. (I hope...)
+        let join_res = backup.join();
         progress_thread.join();
-        run_res
+        join_res
     })?;
 
     if !args.dry_run {
-- 
2.43.0


From 39b0172eb5cd72fe17021ef61ecca74300fbc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 27/27] fix: wait for the thread that feeds unfilter instead of
 asserting it is over

The process can see the pipe close, exit, and be waited for before the thread
that closed it has finished.
---
 src/backend/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..86a8a20 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -58,8 +58,8 @@ impl Read for UnfilterRead {
             }
 
             // Make sure we actually fed all the bytes into the filter program.
+            // (It might still be on its way out: the process saw the pipe close before it returned.)
             let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
             copy_thread.join().expect("unfilter-copy thread aborted")?;
         }
 
-- 
2.43.0

