From 71651f413810499beaf6789792bd098c9ca93a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 01/19] fix: read the signature chain that belongs to the
 backup chain

Backup chains and signature chains were matched by position, so a missing
or left over full signature made snapshots list another chain's files, or
panic when there were fewer signature chains than the backup chain's index.
---
 src/collections/mod.rs | 16 ++++++++++++----
 src/lib.rs             |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..6153f65 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -542,20 +542,28 @@ impl Collections {
 
     /// Returns the backup chains.
     ///
-    /// Each backup chain should be coupled with a signature chain. They can be matched because
-    /// they are both in chronological order.
+    /// Each backup chain should be coupled with a signature chain, the one with the same start
+    /// time. There could be chains without a counterpart, when some file is missing.
     pub fn backup_chains(&self) -> ChainIter<BackupChain> {
         self.backup_chains.iter()
     }
 
     /// Returns the signature chains.
     ///
-    /// Each signature chain should be coupled with a backup chain. They can be matched because
-    /// they are both in chronological order.
+    /// Each signature chain should be coupled with a backup chain, the one with the same start
+    /// time. There could be chains without a counterpart, when some file is missing.
     pub fn signature_chains(&self) -> ChainIter<SignatureChain> {
         self.sig_chains.iter()
     }
 
+    /// Returns the signature chain of the given backup chain, if present.
+    ///
+    /// The backup chain is identified by its position in `backup_chains`.
+    pub(crate) fn signature_chain_of(&self, backup_chain: usize) -> Option<&SignatureChain> {
+        let start = self.backup_chains.get(backup_chain)?.start_time();
+        self.sig_chains.iter().find(|s| s.start_time() == start)
+    }
+
     /// Returns the total number of snapshots.
     pub fn num_snapshots(&self) -> usize {
         let mut i = 0;
diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..7ec4a3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -154,7 +154,7 @@ impl<B: Backend> Backup<B> {
         let files = backend.file_names()?;
         let collections = Collections::from_filenames(files);
         let signatures = collections
-            .signature_chains()
+            .backup_chains()
             .map(|_| RefCell::new(None))
             .collect();
         let manifests = (0..collections.num_snapshots())
@@ -349,7 +349,7 @@ impl<B: Backend> ResourceCache for Backup<B> {
             let mut sig = self.signatures[chain_id].borrow_mut();
             if sig.is_none() {
                 // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+                if let Some(sigchain) = self.collections.signature_chain_of(chain_id) {
                     let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
                     *sig = Some(new_sig);
                 } else {
-- 
2.43.0


From 2b1b056167c4e744be88eeefc735f25b09492fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 02/19] fix: list a snapshot from its own signature

The n-th snapshot of a chain was listed with the n-th signature of the
signature chain.  When a signature is missing these are different backups.
---
 src/collections/mod.rs | 12 ++++++++++++
 src/lib.rs             | 31 +++++++++++++++----------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 6153f65..3597512 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -475,6 +475,18 @@ impl SignatureChain {
         self.fullsig.time
     }
 
+    /// Returns the position in the chain of the signature taken at the given time, if present.
+    pub(crate) fn position_of_time(&self, time: Timespec) -> Option<usize> {
+        if self.fullsig.time == time {
+            Some(0)
+        } else {
+            self.incsigs
+                .iter()
+                .position(|s| s.time == time)
+                .map(|p| p + 1)
+        }
+    }
+
     /// Returns the time of the last signature in the chain.
     pub fn end_time(&self) -> Timespec {
         self.incsigs
diff --git a/src/lib.rs b/src/lib.rs
index 7ec4a3d..133df96 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,7 +88,6 @@ pub struct Snapshots<'a> {
 pub struct SnapshotsIter<'a> {
     set_iter: CollectionsIter<'a>,
     chain_id: usize,
-    sig_id: usize,
     man_id: usize,
     backup: &'a dyn ResourceCache,
 }
@@ -98,7 +97,6 @@ pub struct Snapshot<'a> {
     set: &'a BackupSet,
     // the number of the parent backup chain, starting from zero
     chain_id: usize,
-    sig_id: usize,
     man_id: usize,
     backup: &'a dyn ResourceCache,
 }
@@ -202,7 +200,6 @@ impl<'a> IntoIterator for Snapshots<'a> {
         SnapshotsIter {
             set_iter: set_iter,
             chain_id: 0,
-            sig_id: 0,
             man_id: 0,
             backup: self.backup,
         }
@@ -217,12 +214,10 @@ impl<'a> Iterator for SnapshotsIter<'a> {
         if let Some(ref mut incset_iter) = self.set_iter.incset_iter {
             // we have a set iter, so return the next element if present
             if let Some(inc_set) = incset_iter.next() {
-                self.sig_id += 1;
                 self.man_id += 1;
                 return Some(Snapshot {
                     set: inc_set,
                     chain_id: self.chain_id - 1,
-                    sig_id: self.sig_id,
                     man_id: self.man_id - 1,
                     backup: self.backup,
                 });
@@ -234,13 +229,11 @@ impl<'a> Iterator for SnapshotsIter<'a> {
         match self.set_iter.chain_iter.next() {
             Some(chain) => {
                 self.chain_id += 1;
-                self.sig_id = 0;
                 self.man_id += 1;
                 self.set_iter.incset_iter = Some(chain.inc_sets());
                 Some(Snapshot {
                     set: chain.full_set(),
                     chain_id: self.chain_id - 1,
-                    sig_id: self.sig_id,
                     man_id: self.man_id - 1,
                     backup: self.backup,
                 })
@@ -287,15 +280,21 @@ impl<'a> Snapshot<'a> {
     /// backup chain must be loaded, and this could take some time, depending on the file access
     /// provided by the backend and the signatures size.
     pub fn entries(&self) -> io::Result<SnapshotEntries> {
-        let sig = self.backup._signature_chain(self.chain_id)?;
-        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
-            Ok(SnapshotEntries {
-                chain: sig,
-                sig_id: self.sig_id,
-            })
-        } else {
-            Err(not_found("The signature chain is incomplete"))
-        }
+        // the signature of this snapshot is not necessarily at the same position of the snapshot
+        // inside its chain, because some signature could be missing
+        let sig_id = self
+            .backup
+            ._collections()
+            .signature_chain_of(self.chain_id)
+            .ok_or_else(|| {
+                not_found("The given backup snapshot does not have a corresponding signature")
+            })?
+            .position_of_time(self.time())
+            .ok_or_else(|| not_found("The signature chain is incomplete"))?;
+        Ok(SnapshotEntries {
+            chain: self.backup._signature_chain(self.chain_id)?,
+            sig_id: sig_id,
+        })
     }
 
     /// Returns the manifest for this snapshot.
-- 
2.43.0


From 9c2ed9317c0b8ba9172b60ccd813191f054e99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 03/19] fix: do not panic when entries or a manifest are
 requested while held

The caches were mutably borrowed on every request, which panics when an
earlier result for the same chain or snapshot is still alive.
---
 src/lib.rs | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 133df96..3f818fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -343,24 +343,21 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 
     fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        {
-            // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
-                // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chain_of(chain_id) {
-                    let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
-                } else {
-                    return Err(not_found(
-                        "The given backup snapshot does not have a \
+        // check if there is a cached value
+        // note: a present value could be already borrowed, so do not borrow it mutably
+        if self.signatures[chain_id].borrow().is_none() {
+            // compute signatures now
+            if let Some(sigchain) = self.collections.signature_chain_of(chain_id) {
+                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+                *self.signatures[chain_id].borrow_mut() = Some(new_sig);
+            } else {
+                return Err(not_found(
+                    "The given backup snapshot does not have a \
                                          corresponding signature",
-                    ));
-                }
+                ));
             }
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.signatures[chain_id].borrow())
     }
@@ -370,17 +367,15 @@ impl<B: Backend> ResourceCache for Backup<B> {
         id: usize,
         path: &str,
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
-        {
-            // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
-                // compute manifest now
-                let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
-            }
+        // check if there is a cached value
+        // note: a present value could be already borrowed, so do not borrow it mutably
+        if self.manifests[id].borrow().is_none() {
+            // compute manifest now
+            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
+            let new_manifest = Manifest::parse(&mut file)?;
+            *self.manifests[id].borrow_mut() = Some(new_manifest);
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.manifests[id].borrow())
     }
-- 
2.43.0


From 06559ccdf09d17dd55acf05d5b5be66579cb054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 04/19] fix: support signature chains longer than 255

The snapshots of a chain were counted in 8 bits: the 256th signature file
overflowed the counter, and nth() gave up before the end.
---
 src/signatures.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..bd77f7e 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -24,7 +24,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -33,20 +33,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -105,7 +105,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -187,7 +187,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -297,13 +297,8 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
+        // be fool-proof against overflows
+        let id = self.snapshot_id.saturating_add(n);
         if id < self.chain.num_snapshots {
             self.snapshot_id = id + 1;
             Some(Snapshot {
@@ -318,7 +313,7 @@ impl<'a> Iterator for Snapshots<'a> {
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
     fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+        self.chain.num_snapshots - self.snapshot_id
     }
 }
 
-- 
2.43.0


From 5916092b74ca0d976040af158e3909080b79fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 05/19] fix: size hint and nth() past the end of the snapshots
 iterator

The size hint was (0, None), contradicting ExactSizeIterator, and skipping
past the end left the iterator where it was.
---
 src/signatures.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index bd77f7e..a84e2ca 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -306,17 +306,20 @@ impl<'a> Iterator for Snapshots<'a> {
                 index: id,
             })
         } else {
+            // the skipped elements are consumed
+            self.snapshot_id = self.chain.num_snapshots;
             None
         }
     }
-}
 
-impl<'a> ExactSizeIterator for Snapshots<'a> {
-    fn len(&self) -> usize {
-        self.chain.num_snapshots - self.snapshot_id
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.chain.num_snapshots - self.snapshot_id;
+        (len, Some(len))
     }
 }
 
+impl<'a> ExactSizeIterator for Snapshots<'a> {}
+
 impl<'a> Snapshot<'a> {
     /// Returns the files inside this backup snapshot.
     pub fn files(&self) -> SnapshotEntries<'a> {
-- 
2.43.0


From dd9a379973d99e5696af1e040b6b6be6459bc420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 06/19] fix: merge signatures in the order in which paths are
 sorted

Paths are sorted component by component, both in signature files and in the
chain, but merging compared them as bytes, where e.g. 'a.b' comes before
'a/b': the scan then skipped known paths, and deleted or changed files were
listed twice or not removed.
---
 src/signatures.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index a84e2ca..1bdc3cf 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -3,6 +3,7 @@
 //! This sub-module exposes types to deal with duplicity signatures. It can be used to get
 //! information about files backupped in a backup chain.
 
+use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
@@ -229,21 +230,21 @@ impl Chain {
                     info: info,
                     index: snapshot_id,
                 };
+                let path = RawPath::from_bytes(path.to_owned());
                 // find the current path in the old snapshots
-                // note: they are ordered
+                // note: they are ordered, component by component
                 let position = {
                     let mut position: Option<&mut PathSnapshots> = None;
                     loop {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
-                            let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            match path_snapshots.path.cmp(&path) {
                                 // this path is already present in old snapshots: update them
-                                found = true;
-                            } else if old_path > path {
+                                Ordering::Equal => found = true,
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
-                                break;
+                                Ordering::Greater => break,
+                                Ordering::Less => (),
                             }
                         }
                         if found {
@@ -263,7 +264,7 @@ impl Chain {
                 } else {
                     // the path is not present in the old snapshots: add to new list
                     new_files.push(PathSnapshots {
-                        path: RawPath::from_bytes(path.to_owned()),
+                        path: path,
                         snapshots: vec![new_snapshot],
                     });
                 }
-- 
2.43.0


From 0a315ac60dfec3b5bbb481c1a6eb51b560fda06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 07/19] fix: do not allocate volumes by their number

A set kept a slot for every number up to its highest volume: a file name with
a huge volume number aborted the program (capacity overflow), and the number
of volumes counted the slot 0 and the missing volumes.
---
 src/collections/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 3597512..61e1ff3 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,8 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    // volume paths, by volume number
+    volumes_paths: BTreeMap<usize, String>,
 }
 
 /// Information about a signature file.
@@ -142,9 +144,7 @@ impl BackupSet {
 
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
-        self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+        self.volumes_paths.get(&volume_num).map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -238,7 +238,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
         };
         result.add_filename(fname);
         result
@@ -259,14 +259,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From 9617282ea305044a129e5e2da1fc0783299ae5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 08/19] fix: the order of the listing does not change what a
 set reports

The flags of a set came from the first file listed, and its manifest path from
the last one: now the flags come from all its files, a complete manifest is
never replaced by a partial one, and names are processed in a fixed order.
---
 src/collections/mod.rs | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 61e1ff3..cd8c554 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -221,22 +221,11 @@ impl BackupSet {
                 end_time: end_time,
             },
         };
-        // set partial
-        let partial = {
-            match fname.info.tp {
-                fnm::Type::FullManifest { partial, .. }
-                | fnm::Type::IncManifest { partial, .. }
-                | fnm::Type::FullSig { partial, .. }
-                | fnm::Type::NewSig { partial, .. } => partial,
-                _ => false,
-            }
-        };
-
         let mut result = BackupSet {
             tp: tp,
-            partial: partial,
-            compressed: fname.info.compressed,
-            encrypted: fname.info.encrypted,
+            partial: false,
+            compressed: false,
+            encrypted: false,
             manifest_path: String::new(),
             volumes_paths: BTreeMap::new(),
         };
@@ -247,8 +236,8 @@ impl BackupSet {
     /// Adds a filename to given set. Return true if it fits.
     ///
     /// The filename will match the given set if it has the right
-    /// times and is of the right type. The information will be set
-    /// from the first filename given.
+    /// times and is of the right type. The information of all the
+    /// files of the set are collected.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -261,21 +250,24 @@ impl BackupSet {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
                     self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
-                fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
-                    self.manifest_path = fname.to_owned();
+                fnm::Type::FullManifest { partial, .. }
+                | fnm::Type::IncManifest { partial, .. } => {
+                    self.partial |= partial;
+                    // a complete manifest has the precedence over a partial one
+                    if self.manifest_path.is_empty() || !partial {
+                        self.manifest_path = fname.to_owned();
+                    }
+                }
+                fnm::Type::FullSig { partial, .. } | fnm::Type::NewSig { partial, .. } => {
+                    self.partial |= partial;
                 }
-                _ => (),
             }
-            self.fix_encrypted(pr.encrypted);
+            // a set could contain different kinds of files
+            self.compressed |= pr.compressed;
+            self.encrypted |= pr.encrypted;
             true
         }
     }
-
-    fn fix_encrypted(&mut self, pr_encrypted: bool) {
-        if self.encrypted != pr_encrypted && self.partial && pr_encrypted {
-            self.encrypted = pr_encrypted;
-        }
-    }
 }
 
 impl Display for BackupSet {
@@ -585,14 +577,17 @@ where
     E: AsRef<Path> + 'a,
 {
     let parser = FileNameParser::new();
-    filenames
+    let mut infos: Vec<_> = filenames
         .into_iter()
         .filter_map(|path| path.as_ref().to_str())
         .filter_map(|name| match parser.parse(name) {
             Some(info) => Some(FileNameInfo::new(name, info)),
             None => None,
         })
-        .collect()
+        .collect();
+    // backends do not list files in a defined order
+    infos.sort_by(|a, b| a.file_name.cmp(b.file_name));
+    infos
 }
 
 fn compute_backup_chains(fname_infos: &[FileNameInfo]) -> Vec<BackupChain> {
-- 
2.43.0


From 07a0e2e79cfd7e226f2855a445b9e082488ae9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 09/19] fix: signature chains follow the backup chains when a
 backup is redone

With two incremental signatures from the same parent (an interrupted backup
that was redone), the signature chain kept either of them depending on the
order, so the signatures of the redone backup were lost.
---
 src/collections/file_naming.rs |  4 ++--
 src/collections/mod.rs         | 36 ++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/collections/file_naming.rs b/src/collections/file_naming.rs
index 5d65aeb..0788800 100644
--- a/src/collections/file_naming.rs
+++ b/src/collections/file_naming.rs
@@ -64,8 +64,8 @@ impl<'a> FileNameInfo<'a> {
         }
     }
 
-    pub fn start_time(&self) -> Timespec {
-        self.info.tp.time_range().0
+    pub fn end_time(&self) -> Timespec {
+        self.info.tp.time_range().1
     }
 }
 
diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index cd8c554..77fd976 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -436,13 +436,33 @@ impl SignatureChain {
 
     /// Adds the given incremental signature to the signature chain if possible,
     /// returns false otherwise.
+    ///
+    /// Like backup sets in a backup chain, the signature replaces the last one if they have the
+    /// same start time.
     pub fn add_new_sig(&mut self, fname: &FileNameInfo) -> bool {
-        if matches!(fname.info.tp, fnm::Type::NewSig{ .. }) {
-            self.incsigs.push(SignatureFile::from_filename_info(fname));
-            true
-        } else {
-            false
+        let (start_time, end_time) = match fname.info.tp {
+            fnm::Type::NewSig {
+                start_time,
+                end_time,
+                ..
+            } => (start_time, end_time),
+            _ => {
+                return false;
+            }
+        };
+        if self.end_time() != start_time {
+            let last_start_time = match self.incsigs.len() {
+                0 => None,
+                1 => Some(self.fullsig.time),
+                n => Some(self.incsigs[n - 2].time),
+            };
+            if last_start_time != Some(start_time) || end_time <= self.end_time() {
+                return false;
+            }
+            self.incsigs.pop();
         }
+        self.incsigs.push(SignatureFile::from_filename_info(fname));
+        true
     }
 
     /// The file name of the full signature chain.
@@ -644,20 +664,20 @@ fn compute_signature_chains(fname_infos: &[FileNameInfo]) -> Vec<SignatureChain>
         .map(SignatureChain::from_filename_info)
         .collect::<Vec<_>>();
     sig_chains.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
-    // collect inc signatures and sort them by start time
+    // collect inc signatures and sort them by end time
     let inc_sigs = {
         let mut is = fname_infos
             .iter()
             .filter(|f| matches!(f.info.tp, fnm::Type::NewSig{..}))
             .collect::<Vec<_>>();
-        is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
+        is.sort_by(|a, b| a.end_time().cmp(&b.end_time()));
         is
     };
     // add inc signatures to chains
     for inc in inc_sigs {
         let mut added = false;
         for chain in &mut sig_chains {
-            if chain.end_time() == inc.start_time() && chain.add_new_sig(inc) {
+            if chain.add_new_sig(inc) {
                 added = true;
                 break;
             }
-- 
2.43.0


From 3fa5bf97a20be4e0ec2eb49e8e3d990e71bd8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 10/19] fix: find the first and last volume of any path

Volumes were searched comparing paths as bytes, while a backup is sorted
component by component, paths that span whole volumes or end exactly at a
volume boundary were not found or were found in the wrong volume, and so was
the root.
---
 src/manifest.rs | 51 +++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..09b2bcf 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -103,20 +103,11 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        let path = RawPath::from_bytes(path.to_owned());
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
-                Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
-                    Ordering::Less | Ordering::Equal => Ordering::Equal,
-                    Ordering::Greater => Ordering::Less,
-                },
-                Ordering::Equal => match v.start_path.block {
-                    Some(n) if n > 0 => Ordering::Greater,
-                    _ => Ordering::Equal,
-                },
-            })
+            .iter()
+            .position(|v| v.contains(&path))
             .map(|idx| idx + 1)
-            .ok()
     }
 
     /// Returns the index of the last volume containing the given path, if present.
@@ -126,23 +117,11 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        let path = RawPath::from_bytes(path.to_owned());
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
-                Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
-                    Ordering::Greater | Ordering::Equal => Ordering::Equal,
-                    Ordering::Less => Ordering::Greater,
-                },
-                Ordering::Equal => {
-                    if v.end_path.block.is_some() {
-                        Ordering::Less
-                    } else {
-                        Ordering::Equal
-                    }
-                }
-            })
+            .iter()
+            .rposition(|v| v.contains(&path))
             .map(|idx| idx + 1)
-            .ok()
     }
 }
 
@@ -200,6 +179,24 @@ impl Volume {
     pub fn hash(&self) -> &[u8] {
         &self.hash
     }
+
+    fn contains(&self, path: &RawPath) -> bool {
+        cmp_paths(&self.start_path.path, path) != Ordering::Greater
+            && cmp_paths(path, &self.end_path.path) != Ordering::Greater
+    }
+}
+
+/// Compares two paths component by component, since this is the order of paths in a backup.
+///
+/// The root comes first, and could be represented either by an empty path or by a dot.
+fn cmp_paths(a: &RawPath, b: &RawPath) -> Ordering {
+    let is_root = |p: &RawPath| p.as_bytes().is_empty() || p.as_bytes() == b".";
+    match (is_root(a), is_root(b)) {
+        (true, true) => Ordering::Equal,
+        (true, false) => Ordering::Less,
+        (false, true) => Ordering::Greater,
+        (false, false) => a.cmp(b),
+    }
 }
 
 impl Error for ParseError {}
-- 
2.43.0


From 7cd0fc97bad3f606ea4c3c53388d2165396da45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 11/19] fix: size hint of unusual signatures

Computing the bounds could overflow or underflow with lengths found in a
damaged signature file, and counted a block too much for signatures without
strong sums, because the header takes 12 bytes.
---
 src/signatures.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 1bdc3cf..3beeedb 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -622,10 +622,11 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
         let sign_block_len_bytes = 4 + ss_len;
         // the remaining part of the file are blocks
+        // note: lengths are taken from the file, so they could be anything
         let file_size = file.header().size().ok()? as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let num_blocks = file_size.checked_sub(12)? / sign_block_len_bytes;
 
-        let max_file_len = file_block_len_bytes * num_blocks;
+        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
         if max_file_len > file_block_len_bytes {
             Some((max_file_len - file_block_len_bytes + 1, max_file_len))
         } else {
-- 
2.43.0


From aad3c3cc738aba521ac3e90282819e4e2668b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 12/19] fix: display times too far away for a date

A modification time that has no representable year, as in a damaged
signature file, made displaying a listing panic.
---
 src/timefmt.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..93745b3 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -49,15 +49,23 @@ pub fn parse_time_str(s: &str) -> Option<Timespec> {
         .map(|tm| tm.to_timespec())
 }
 
+/// Limits the given time to a range where the year can be computed.
+///
+/// Outside of it (about two billion years away) the conversion to date would panic.
+fn representable(time: Timespec) -> Timespec {
+    const LIMIT: i64 = 67_767_000_000_000_000;
+    Timespec::new(time.sec.max(-LIMIT).min(LIMIT), time.nsec)
+}
+
 impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(self))
+        PrettyDisplay(time::at(representable(self)))
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(self))
+        PrettyDisplay(time::at_utc(representable(self)))
     }
 }
 
-- 
2.43.0


From b7c39708427cfde4083b87acbe18d09dec4bf2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 13/19] fix: do not stop reading a manifest at an empty line

The volumes after an empty line were silently dropped.
---
 src/manifest.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 09b2bcf..d3ead38 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -58,6 +58,7 @@ struct PathBlock {
 struct ManifestParser<R> {
     input: R,
     buf: Vec<u8>,
+    eof: bool,
 }
 
 struct WordIter<'a>(&'a [u8]);
@@ -250,6 +251,7 @@ impl<R: BufRead> ManifestParser<R> {
         ManifestParser {
             input: input,
             buf: vec![],
+            eof: false,
         }
     }
 
@@ -276,9 +278,11 @@ impl<R: BufRead> ManifestParser<R> {
     }
 
     fn read_volume(&mut self) -> Result<Option<(Volume, usize)>, ParseError> {
-        if !self.read_line()? {
-            // EOF
-            return Ok(None);
+        // an empty line is not the end of the file
+        while !self.read_line()? {
+            if self.eof {
+                return Ok(None);
+            }
         }
 
         // volume number
@@ -306,6 +310,7 @@ impl<R: BufRead> ManifestParser<R> {
     fn read_line(&mut self) -> io::Result<bool> {
         self.buf.clear();
         let mut len = self.input.read_until(b'\n', &mut self.buf)?;
+        self.eof = len == 0;
         if len > 0 && self.buf[len - 1] == b'\n' {
             len -= 1;
         }
-- 
2.43.0


From 0e3defb11daa9434d3b357f1a1e277bc67e717ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 14/19] fix: report a missing manifest without opening the
 archive directory

For a set without manifest the backend was asked to open the empty file name,
which the local backend resolves to the directory itself: the error was not
the one of a missing file.
---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3f818fc..21df17a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -301,6 +301,11 @@ impl<'a> Snapshot<'a> {
     ///
     /// The relative manifest file is read on demand and cached for subsequent uses.
     pub fn manifest(&self) -> Result<ManifestRef<'a>, manifest::ParseError> {
+        if !self.set.is_complete() {
+            return Err(From::from(not_found(
+                "The given backup snapshot does not have a manifest",
+            )));
+        }
         Ok(ManifestRef(
             self.backup
                 ._manifest(self.man_id, self.set.manifest_path())?,
-- 
2.43.0


From 97e3801ee07678077a5d95f6cb8f14cdc9fdd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 15/19] fix: reject malformed timestamps

Trailing garbage, single digit fields, second 60 and days past the end of the
month were accepted, so that foreign files were taken for backups.
---
 src/timefmt.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 93745b3..b716aa3 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -44,9 +44,25 @@ pub struct PrettyDisplay(Tm);
 /// An example of such a timestamp is "19881211t152000z" which represents the date
 /// `1988-12-11T15:20:00Z` in the UTC time zone.
 pub fn parse_time_str(s: &str) -> Option<Timespec> {
-    time::strptime(s, "%Y%m%dt%H%M%S%Z")
-        .ok()
-        .map(|tm| tm.to_timespec())
+    // strptime is more tolerant than the format: check it first
+    let well_formed = s.len() == 16
+        && s.bytes().enumerate().all(|(i, b)| match i {
+            8 => b == b't',
+            15 => b == b'z',
+            _ => b.is_ascii_digit(),
+        });
+    if !well_formed {
+        return None;
+    }
+    let tm = time::strptime(s, "%Y%m%dt%H%M%S%Z").ok()?;
+    let time = tm.to_timespec();
+    // values out of range, such as February 30 or second 60, end up in a different date
+    let actual = time::at_utc(time);
+    if (actual.tm_mon, actual.tm_mday, actual.tm_sec) == (tm.tm_mon, tm.tm_mday, tm.tm_sec) {
+        Some(time)
+    } else {
+        None
+    }
 }
 
 /// Limits the given time to a range where the year can be computed.
-- 
2.43.0


From 204e2c28939316a92d8b89637961b21e8a526a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 16/19] fix: read owner names, modification time and size from
 PAX headers

Names that are long or not ASCII and times and sizes that are out of range are
stored in PAX extensions, the header has a placeholder.
---
 src/signatures.rs | 52 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 3beeedb..08f4523 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -120,6 +120,14 @@ struct PathInfo {
     link: Option<RawPath>,
 }
 
+// values that cannot be stored in a tar header, taken from its PAX extensions
+#[derive(Debug, Default)]
+struct PaxInfo {
+    mtime: Option<i64>,
+    username: Option<String>,
+    groupname: Option<String>,
+}
+
 #[derive(Debug)]
 struct UserGroupMap {
     uid_map: HashMap<u64, String>,
@@ -199,17 +207,27 @@ impl Chain {
                 // better than abort the whole signature
                 let mut tarfile = unwrap_or_continue!(tarfile);
                 let size_hint = compute_size_hint(&mut tarfile);
+                let pax = PaxInfo::new(&mut tarfile);
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
                 let info = match difftype {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
-                        let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
-                        if let (Ok(uid), Ok(Some(name))) = (header.uid(), header.username()) {
-                            self.ug_map.add_user(uid, name.to_owned());
+                        let mtime = pax
+                            .mtime
+                            .unwrap_or_else(|| header.mtime().unwrap_or(0) as i64);
+                        let time = Timespec::new(mtime, 0);
+                        let username = pax
+                            .username
+                            .or_else(|| header.username().ok()?.map(ToOwned::to_owned));
+                        if let (Ok(uid), Some(name)) = (header.uid(), username) {
+                            self.ug_map.add_user(uid, name);
                         }
-                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), header.groupname()) {
-                            self.ug_map.add_group(gid, name.to_owned());
+                        let groupname = pax
+                            .groupname
+                            .or_else(|| header.groupname().ok()?.map(ToOwned::to_owned));
+                        if let (Ok(gid), Some(name)) = (header.gid(), groupname) {
+                            self.ug_map.add_group(gid, name);
                         }
                         let link = tarfile
                             .link_name_bytes()
@@ -509,6 +527,26 @@ impl Display for EntryType {
     }
 }
 
+impl PaxInfo {
+    pub fn new<R: Read>(file: &mut tar::Entry<R>) -> Self {
+        let mut result = Self::default();
+        if let Ok(Some(extensions)) = file.pax_extensions() {
+            for ext in extensions.filter_map(|e| e.ok()) {
+                match (ext.key(), ext.value()) {
+                    // fractions of seconds are not needed
+                    (Ok("mtime"), Ok(v)) => {
+                        result.mtime = v.split('.').next().and_then(|v| v.parse().ok())
+                    }
+                    (Ok("uname"), Ok(v)) => result.username = Some(v.to_owned()),
+                    (Ok("gname"), Ok(v)) => result.groupname = Some(v.to_owned()),
+                    _ => (),
+                }
+            }
+        }
+        result
+    }
+}
+
 impl UserGroupMap {
     pub fn new() -> Self {
         UserGroupMap {
@@ -623,7 +661,7 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         let sign_block_len_bytes = 4 + ss_len;
         // the remaining part of the file are blocks
         // note: lengths are taken from the file, so they could be anything
-        let file_size = file.header().size().ok()? as usize;
+        let file_size = file.size() as usize;
         let num_blocks = file_size.checked_sub(12)? / sign_block_len_bytes;
 
         let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
@@ -637,7 +675,7 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
 }
 
 fn compute_size_hint_snapshot<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
-    let bytes = file.header().size().ok()? as usize;
+    let bytes = file.size() as usize;
     Some((bytes, bytes))
 }
 
-- 
2.43.0


From 0c1471d72774c658f2b483bc395c4b190a8db797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 17/19] fix: report backend errors while reading signatures

---
 src/signatures.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index 08f4523..3f2d9ce 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -137,6 +137,13 @@ struct UserGroupMap {
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
 
+// reader that keeps the error of the underlying reader, to tell it apart from the errors due to the
+// contents that have been read
+struct BackendReader<'a, R> {
+    inner: R,
+    error: &'a mut Option<io::Error>,
+}
+
 impl Chain {
     /// Builds a new empty signature chain.
     pub fn new() -> Self {
@@ -175,8 +182,13 @@ impl Chain {
     }
 
     fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {
+        let mut backend_error = None;
         let result = {
             let snapshot_id = self.num_snapshots;
+            let file = BackendReader {
+                inner: file,
+                error: &mut backend_error,
+            };
             if sigfile.compressed {
                 let gz_decoder = GzDecoder::new(file);
                 self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
@@ -184,6 +196,9 @@ impl Chain {
                 self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)
             }
         };
+        // the errors found in the contents are ignored, but when the backend fails to deliver them
+        // we know nothing about the contents
+        let result = backend_error.map_or(result, Err);
         if result.is_ok() {
             // add to the list of snapshots only if everything is ok
             // we do not need to cleanup the chain if someting went wrong, because if the
@@ -527,6 +542,18 @@ impl Display for EntryType {
     }
 }
 
+impl<'a, R: Read> Read for BackendReader<'a, R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.inner.read(buf).map_err(|e| {
+            let kind = e.kind();
+            if kind != io::ErrorKind::Interrupted {
+                *self.error = Some(e);
+            }
+            kind.into()
+        })
+    }
+}
+
 impl PaxInfo {
     pub fn new<R: Read>(file: &mut tar::Entry<R>) -> Self {
         let mut result = Self::default();
-- 
2.43.0


From cdfec12dd167eca2e1c981ed0cf051dbecac7d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 18/19] fix: the current year depends on the time zone

---
 src/timefmt.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index b716aa3..63c78b7 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -37,7 +37,8 @@ pub trait TimeDisplay {
 /// Suppose to have the timestamp `2012-02-22T14:53:18Z`. If we are in 2012, the display will be
 /// `Feb 22 14:53`; if we are in 2015, the display will be `Feb 22  2012`.
 #[derive(Copy, Clone, Debug)]
-pub struct PrettyDisplay(Tm);
+// the time, and how to get the current time in the same time zone
+pub struct PrettyDisplay(Tm, fn() -> Tm);
 
 /// Parse a string representing a duplicity timestamp and returns a `Timespec` if all goes well.
 ///
@@ -77,17 +78,17 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(representable(self)))
+        PrettyDisplay(time::at(representable(self)), time::now)
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(representable(self)))
+        PrettyDisplay(time::at_utc(representable(self)), time::now_utc)
     }
 }
 
 impl Display for PrettyDisplay {
     fn fmt(&self, f: &mut Formatter) -> Result {
-        if time::now_utc().tm_year == self.0.tm_year {
+        if (self.1)().tm_year == self.0.tm_year {
             // the year is the current, so print month, day, hour
             write!(f, "{}", time::strftime("%b %d %R", &self.0).unwrap())
         } else {
-- 
2.43.0


From 606755cb060612de8f26b244764187ada0db3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 19/19] fix: try interrupted reads of signatures again

---
 src/signatures.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 3f2d9ce..bcc42bd 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -544,13 +544,18 @@ impl Display for EntryType {
 
 impl<'a, R: Read> Read for BackendReader<'a, R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.inner.read(buf).map_err(|e| {
-            let kind = e.kind();
-            if kind != io::ErrorKind::Interrupted {
-                *self.error = Some(e);
+        loop {
+            match self.inner.read(buf) {
+                // the decoders do not retry, and entries would be lost
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => (),
+                Err(e) => {
+                    let kind = e.kind();
+                    *self.error = Some(e);
+                    return Err(kind.into());
+                }
+                ok => return ok,
             }
-            kind.into()
-        })
+        }
     }
 }
 
-- 
2.43.0

