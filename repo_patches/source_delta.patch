From e3c250543a8b11c5e7ab1ec2f8c29ed8b65292d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 01/16] fix: sync copied files before renaming them into place

---
 src/file_util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 09a14fe..6359ef4 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -131,12 +131,14 @@ pub fn safe_copy_to_file<R: Read>(mut from: R, to: &Utf8Path) -> Result<File> {
         .with_context(|| format!("Couldn't write to {temp_path}"))?;
     drop(from);
 
+    // Sync *before* renaming - otherwise a crash could leave a partial file at `to`.
+    to_fh
+        .as_file()
+        .sync_all()
+        .with_context(|| format!("Couldn't sync {temp_path}"))?;
     let persisted = to_fh
         .persist(to)
         .with_context(|| format!("Couldn't persist {temp_path} to {to}"))?;
-    persisted
-        .sync_all()
-        .with_context(|| format!("Couldn't sync {to}"))?;
 
     Ok(persisted)
 }
-- 
2.43.0


From 226d0cb19e340ff886c1c354924b08e34c60b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 02/16] fix: don't resume a prune whose WIP index keeps packs
 about to be pruned

A pack that was reusable when the interrupted prune started may hold
unreferenced blobs by now (a snapshot was forgotten in between). Resuming
indexed that pack, skipped its blobs while repacking, then deleted it.
---
 src/ui/prune.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..15753d4 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -147,6 +147,15 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Does the WIP keep any pack we're about to remove?
+        // (Say, because a snapshot was forgotten after the WIP was written.)
+        else if wip_index
+            .packs
+            .keys()
+            .any(|id| packs_to_prune.contains_key(id))
+        {
+            warn!("WIP index file contains packs to be pruned. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
-- 
2.43.0


From fcd3244569e88cb0e57d8198f98af92d493e4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 03/16] fix: don't resume a backup or copy from an interrupted
 prune's WIP index

Such an index supersedes all the others before everything they hold
has been repacked. Uploading it makes existing snapshots unreadable.
---
 src/backup.rs    | 13 +++++++++++++
 src/ui/backup.rs |  4 +++-
 src/ui/copy.rs   |  4 +++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..9c337f4 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -251,6 +251,19 @@ pub struct ResumableBackup {
     pub cwd_packfiles: Vec<ObjectId>,
 }
 
+impl ResumableBackup {
+    /// Indexes from an interrupted `prune` supersede others before everything they replace
+    /// has been repacked, so only another `prune` can pick up from there.
+    pub fn unless_superseding(self) -> Option<Self> {
+        if self.wip_index.supersedes.is_empty() {
+            Some(self)
+        } else {
+            warn!("WIP index file supersedes other indexes. Starting over.");
+            None
+        }
+    }
+}
+
 /// Usable by backup actions (`backup`, `prune`, `copy`, etc.)
 /// to support resuming from the last incomplete pack.
 ///
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..69507a5 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,9 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_resumable(&cached_backend)?
+        .and_then(ResumableBackup::unless_superseding)
+        .unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..07ec095 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -89,7 +89,9 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_resumable(&dst_cached_backend)?
+        .and_then(backup::ResumableBackup::unless_superseding)
+        .unwrap_or_default();
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
-- 
2.43.0


From 5298d3b85beb000d536302ec8e77c502e3f9b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 04/16] fix: don't publish a partial index when prune fails
 midway

Returning the error closed the channels, so the indexer finished as usual and
uploaded an index superseding all others without all of their data.
---
 src/ui/prune.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 15753d4..c37130e 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -197,7 +197,8 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         let run_res = (|| {
             // Finish the WIP resume business.
             if !args.dry_run {
-                backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)?;
+                backup::upload_cwd_packfiles(&mut backup.upload_tx, &packs_to_upload)
+                    .unwrap_or_else(|e| crate::fatal(e));
             }
             drop(packs_to_upload);
 
@@ -207,6 +208,8 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             // We don't skip over anything as we prune; that'd leave us in a nasty state.
             let filter = |_p: &Utf8Path| true;
 
+            // If we can't finish, don't let the indexer (who can't tell the difference)
+            // upload an index that supersedes others before replacing everything in them.
             repack::walk_snapshots(
                 repack::Op::Prune,
                 &snapshots_and_forests,
@@ -215,7 +218,8 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 &mut packed_blobs,
                 &mut backup,
                 &walk_stats,
-            )?;
+            )
+            .unwrap_or_else(|e| crate::fatal(e));
 
             // NB: Before deleting the old indexes, we make sure the new one's been written.
             //     This ensures there's no point in time when we don't have a valid index
-- 
2.43.0


From 19e668444288efc272e32386d14652d0a5eb0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 05/16] fix: list the indexes prune replaces before reading
 them

An index added in between was superseded and deleted without being read.
---
 src/ui/prune.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index c37130e..7ecdff4 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -44,6 +44,16 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         config.cache_size,
         backend::CacheBehavior::Normal,
     )?;
+    // TODO: Should build_master_index() return some set of all packs read
+    // so we don't have to traverse the backend twice?
+    // (List them first: we can only replace indexes whose contents we're about to read,
+    // not any that show up in the meantime.)
+    let superseded = cached_backend
+        .list_indexes()?
+        .iter()
+        .map(|(idx, _idx_len)| idx)
+        .map(backend::id_from_path)
+        .collect::<Result<BTreeSet<ObjectId>>>()?;
     let index = index::build_master_index(&cached_backend)?;
     let blob_map = index::blob_to_pack_map(&index)?;
 
@@ -77,15 +87,6 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         return Ok(());
     }
 
-    // TODO: Should build_master_index() return some set of all packs read
-    // so we don't have to traverse the backend twice?
-    let superseded = cached_backend
-        .list_indexes()?
-        .iter()
-        .map(|(idx, _idx_len)| idx)
-        .map(backend::id_from_path)
-        .collect::<Result<BTreeSet<ObjectId>>>()?;
-
     // `[ObjectId] -> String` helper for logs below
     fn idlist<S: ToString, I: Iterator<Item = S>>(p: I) -> String {
         p.map(|id| id.to_string()).collect::<Vec<_>>().join(", ")
-- 
2.43.0


From a3ecca28a093bcb81ae9f856e4f0faf4fa36263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 06/16] fix: keep an interrupted run's WIP index when not
 making one

rebuild-index and dry runs overwrote it; dry runs then deleted it, and an
interrupted rebuild-index left one behind that superseded every index.
---
 src/backup.rs | 8 ++++++++
 src/index.rs  | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/backup.rs b/src/backup.rs
index 9c337f4..7f7c4cd 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -67,6 +67,7 @@ use crate::index;
 use crate::pack;
 use crate::upload;
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Mode {
     DryRun,
     LiveFire,
@@ -77,6 +78,7 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    mode: Mode,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -97,6 +99,11 @@ impl Backup<'_, '_> {
         drop(self.upload_tx);
         self.threads.join().unwrap();
 
+        // A dry run made no WIP index. If there is one, some interrupted run wants it back.
+        if self.mode == Mode::DryRun {
+            return Ok(());
+        }
+
         // If everything exited cleanly, we uploaded the new index.
         // We can axe the WIP one, which we kept around until now to make sure we're resumable.
         match fs::remove_file(index::WIP_NAME) {
@@ -154,6 +161,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        mode,
         threads,
     }
 }
diff --git a/src/index.rs b/src/index.rs
index 2face26..0a7f8e4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -111,7 +111,7 @@ pub fn index(
     }
     // If we haven't been saving a WIP index, write it all out now.
     if !index.is_empty() && resumable == Resumable::No {
-        persisted = Some(to_temp_file(&index)?);
+        persisted = Some(to_anonymous_file(&index)?);
     }
 
     if let Some((index_id, mut fh)) = persisted {
@@ -170,6 +170,13 @@ fn to_temp_file(index: &Index) -> Result<(ObjectId, File)> {
     Ok((id, f))
 }
 
+/// Like [`to_temp_file()`], but leaves any WIP index alone
+fn to_anonymous_file(index: &Index) -> Result<(ObjectId, File)> {
+    let mut f = tempfile::tempfile_in(".").context("Couldn't open temporary index for writing")?;
+    let id = to_file(&mut f, index)?;
+    Ok((id, f))
+}
+
 fn to_file(fh: &mut fs::File, index: &Index) -> Result<ObjectId> {
     fh.write_all(MAGIC_BYTES)?;
 
-- 
2.43.0


From bbb4e44e5e21d530a9cdbc886d9e293276a0713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 07/16] fix: wait for the unfilter feeder instead of asserting
 it's done

The child can exit before the thread feeding it returns from its last write.
---
 src/backend/filter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..1100a6c 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -59,7 +59,6 @@ impl Read for UnfilterRead {
 
             // Make sure we actually fed all the bytes into the filter program.
             let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
             copy_thread.join().expect("unfilter-copy thread aborted")?;
         }
 
-- 
2.43.0


From 10428c5c2942556fd30c629c5d55575ffe34317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 08/16] fix: respect backup --allow-repeat

---
 src/ui/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 69507a5..0e84a9a 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -250,7 +250,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         s
     });
     match prev_but_now {
-        Some(p) if p == snapshot => {
+        Some(p) if p == snapshot && !args.allow_repeat => {
             // We really did nothing, huh?
             assert_eq!(back_stats.chunk_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
-- 
2.43.0


From de710d15cc9443c51dfc37ecbd57d4172e064673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 09/16] fix: skip over trees when reading chunks from a mixed
 pack

Their bytes were left in the stream, so the next chunk failed its hash check.
---
 src/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/read.rs b/src/read.rs
index a0e38b5..b62db93 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -1,7 +1,7 @@
 //! Tools to traverse a repository, reading blobs
 //!
 //! This is ultimately how we read backups back out for restore, repack, etc.
-use std::{cmp::Ordering, io::prelude::*, rc::Rc, time::Instant};
+use std::{cmp::Ordering, io, io::prelude::*, rc::Rc, time::Instant};
 
 use anyhow::{Context, Result, anyhow, ensure};
 use mut_binary_heap::{BinaryHeap, FnComparator};
@@ -197,6 +197,10 @@ impl<'a> ChunkReader<'a> {
                     "Tree {} found in pack where we expected only chunks",
                     entry.id
                 );
+                io::copy(
+                    &mut (&mut blob_stream).take(entry.length as u64),
+                    &mut io::sink(),
+                )?;
                 continue;
             }
 
-- 
2.43.0


From b907601d259d42ea3bbafaa63d72e6477034f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 10/16] fix: start all stages of the backup pipeline however
 few CPUs there are

With fewer than four, the stages waited for each other forever.
---
 src/concurrently.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..b65b646 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,19 @@ where
     })
 }
 
+/// Like [`concurrently()`], but every function gets its own named thread right away,
+/// however few CPUs there are: these can be stages of a pipeline that wait on each other.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From 7b85b6ca36e4ae272290e158a714740dae64ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 11/16] fix: wake a waiter whenever a semaphore is released

Two releases in a row woke one waiter and could leave the other asleep forever.
---
 src/semaphored.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..a91fe3a 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,11 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit
+        //
+        // (Even if the count was already positive: someone could be asleep because
+        // whoever was woken for the previous post(s) hasn't gotten to decrement it yet.)
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From a95b423c1f28802cfdb2a2aa0d2b3c4b6b0e8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 12/16] fix: size snapshots with empty directories

The empty tree is never packed, so usage and snapshots --sizes failed to find it.
---
 src/tree.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..fd77c5a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -547,10 +547,14 @@ fn tree_size(
         .ok_or_else(|| anyhow!("Missing tree {tree_id}"))
         .unwrap();
 
-    let ts = size_map
-        .get(tree_id)
-        .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
-    let ts = *ts as u64;
+    // See ui/backup.rs: we don't bother uploading the empty tree.
+    let ts = if *tree_id == *EMPTY_ID {
+        0
+    } else {
+        *size_map
+            .get(tree_id)
+            .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))? as u64
+    };
     s.tree_bytes += ts;
     if visited_blobs.insert(*tree_id) {
         s.introduced += ts;
-- 
2.43.0


From d0e6ffcbbfc807a645198732737a82d57e574f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 13/16] fix: start uploads over from the beginning when
 retrying them

The reader handed to a failed attempt may be anywhere in the file (likely its end),
so trying again sent the rest of it (likely nothing).
---
 src/backend.rs            | 7 ++++++-
 src/backend/backblaze.rs  | 8 ++++++--
 src/backend/filter.rs     | 2 +-
 src/backend/fs.rs         | 2 +-
 src/backend/memory.rs     | 2 +-
 src/backend/semaphored.rs | 2 +-
 src/progress.rs           | 8 +++++++-
 7 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/backend.rs b/src/backend.rs
index 53f15d9..1a2d448 100644
--- a/src/backend.rs
+++ b/src/backend.rs
@@ -99,13 +99,18 @@ pub fn write_config<W: Write>(mut w: W, c: Configuration) -> Result<()> {
     Ok(())
 }
 
+/// What's written to a backend. It's seekable so that a backend can start over
+/// (with the whole thing!) if its first attempt doesn't work out.
+pub trait WriteSource: Read + Seek + Send {}
+impl<T> WriteSource for T where T: Read + Seek + Send {}
+
 /// A backend is anything we can read from, write to, list, and remove items from.
 pub trait Backend {
     /// Read from the given key
     fn read(&self, from: &str) -> Result<Box<dyn Read + Send + 'static>>;
 
     /// Write the given read stream to the given key
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()>;
+    fn write(&self, len: u64, from: &mut dyn WriteSource, to: &str) -> Result<()>;
 
     fn remove(&self, which: &str) -> Result<()>;
 
diff --git a/src/backend/backblaze.rs b/src/backend/backblaze.rs
index f15629d..1ec82aa 100644
--- a/src/backend/backblaze.rs
+++ b/src/backend/backblaze.rs
@@ -72,8 +72,12 @@ impl Backend for BackblazeBackend {
         Ok(Box::new(r))
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
-        retry(|| self.session.put(to, len, from))?;
+    fn write(&self, len: u64, from: &mut dyn WriteSource, to: &str) -> Result<()> {
+        retry(|| {
+            // A previous attempt could have read some (or all) of it.
+            from.rewind()?;
+            self.session.put(to, len, from)
+        })?;
         Ok(())
     }
 
diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index 1100a6c..668d23a 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -99,7 +99,7 @@ impl Backend for BackendFilter {
         }))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn WriteSource, to: &str) -> Result<()> {
         debug!("{} > {to}", self.filter);
 
         let mut f = Command::new("sh")
diff --git a/src/backend/fs.rs b/src/backend/fs.rs
index da54923..90654bd 100644
--- a/src/backend/fs.rs
+++ b/src/backend/fs.rs
@@ -84,7 +84,7 @@ impl Backend for FilesystemBackend {
         ))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn WriteSource, to: &str) -> Result<()> {
         let to = self.path_of(to);
         file_util::safe_copy_to_file(from, &to)?;
         Ok(())
diff --git a/src/backend/memory.rs b/src/backend/memory.rs
index c8a09a1..228c574 100644
--- a/src/backend/memory.rs
+++ b/src/backend/memory.rs
@@ -44,7 +44,7 @@ impl Backend for MemoryBackend {
         Ok(Box::new(self.read_cursor(from)?))
     }
 
-    fn write(&self, _len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, _len: u64, from: &mut dyn WriteSource, to: &str) -> Result<()> {
         let mut vec = Vec::new();
         io::copy(from, &mut vec)?;
         self.files.lock().unwrap().insert(to.to_owned(), vec);
diff --git a/src/backend/semaphored.rs b/src/backend/semaphored.rs
index ee591ba..2a6f2e9 100644
--- a/src/backend/semaphored.rs
+++ b/src/backend/semaphored.rs
@@ -23,7 +23,7 @@ impl<B: Backend> Backend for Semaphored<B> {
         self.inner.read(from)
     }
 
-    fn write(&self, len: u64, from: &mut (dyn Read + Send), to: &str) -> Result<()> {
+    fn write(&self, len: u64, from: &mut dyn WriteSource, to: &str) -> Result<()> {
         let _sem = semaphored::dec(&self.count);
         self.inner.write(len, from, to)
     }
diff --git a/src/progress.rs b/src/progress.rs
index 6ecd7a2..2ae5d51 100644
--- a/src/progress.rs
+++ b/src/progress.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read, Write},
+    io::{self, Read, Seek, Write},
     sync::{
         Arc,
         atomic::{AtomicBool, AtomicU64, Ordering},
@@ -41,6 +41,12 @@ impl<R: Read> Read for AtomicCountRead<'_, R> {
     }
 }
 
+impl<R: Seek> Seek for AtomicCountRead<'_, R> {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.inner.seek(pos)
+    }
+}
+
 pub struct AtomicCountWrite<'a, W> {
     inner: W,
     count: &'a AtomicU64,
-- 
2.43.0


From 19299ec88b5f7296889ffe5e81d126d46b6c0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:39 +0000
Subject: [PATCH 14/16] fix: don't deadlock with a filter whose output can't be
 written

If copying the filter's output to a temporary file failed (say, because the disk is full),
the thread feeding the filter was waited for with the filter still blocked on its output.
---
 src/backend/filter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index 668d23a..e743546 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -134,7 +134,11 @@ impl Backend for BackendFilter {
                 .unwrap(); // Panic if we can't spawn a thread.
 
             // Meanwhile, in this thread, copy output to our tempfile.
-            io::copy(&mut from_filter, &mut filtered)?;
+            let copied = io::copy(&mut from_filter, &mut filtered);
+            // If that failed, nobody will read the rest of the filter's output. Close it,
+            // or the filter waits for us while the thread above waits for the filter.
+            drop(from_filter);
+            copied?;
 
             // Unwrap the result of the join (i.e., that the child didn't panic)
             // and check that copying to the filter didn't fail.
-- 
2.43.0


From 0a8cd2ef9df90fb68e931141289f7b29470aeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 15/16] fix: restore never writes through what's at a path it
 adds

Restoring several paths with --output checked whether each was there with
exists(), which follows symlinks. A dangling symlink was taken for nothing, and
the file was then created wherever the link points, outside of the output.
Look for symlinks, and create files that are being added with O_EXCL so that
nothing else that isn't in our picture of the filesystem (a pipe, a device)
is written to either.
---
 src/ui/restore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..b2bec64 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -236,7 +236,8 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                // NB: Not exists(), which follows symlinks (and so misses dangling ones).
+                .filter(|p| p.symlink_metadata().is_ok())
                 .collect();
 
             fs_tree::forest_from_fs(
@@ -378,7 +379,9 @@ impl Restorer<'_> {
     fn add_node(&mut self, node_path: &Utf8Path, new_node: &Node, forest: &Forest) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
-                let fh = File::create(node_path)
+                // We're adding this file - don't write to whatever else might be there
+                // (following a symlink, opening a pipe or a device...)
+                let fh = File::create_new(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
             }
-- 
2.43.0


From f64446c4c0b1efc195647b141a954a8e8a346596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 16/16] fix: dump doesn't look past a symlink

Given a path through a symlink, it printed the link, then looked for
the rest of the path in the directory the link is in, and dumped the wrong file.
---
 src/ui/dump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/dump.rs b/src/ui/dump.rs
index 0ec62c1..04b4e94 100644
--- a/src/ui/dump.rs
+++ b/src/ui/dump.rs
@@ -84,7 +84,11 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
                 }
             }
             tree::NodeContents::Symlink { target } => {
-                dump_symlink(target, &path_so_far, &args.output)?;
+                if is_last_component {
+                    dump_symlink(target, &path_so_far, &args.output)?;
+                } else {
+                    bail!("{path_so_far} is a symlink, not a directory");
+                }
             }
             tree::NodeContents::File { chunks } => {
                 if is_last_component {
-- 
2.43.0

