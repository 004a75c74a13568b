From facd588e663f26a6da1d4812eb9743499a3a317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:08 +0000
Subject: [PATCH 01/50] fix: do not panic when looking up a path made only of
 slashes

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..b176bd0 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -217,7 +217,7 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        if path.trim_start_matches('/').is_empty() {
             return Err(util::Error::NoDirent);
         }
 
-- 
2.43.0


From 32b082901c8457122ddb60a0a453d463984b1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:08 +0000
Subject: [PATCH 02/50] fix: report a directory record that straddles a sector
 instead of panicking

---
 xdvdfs-core/src/read.rs | 4 +++-
 xdvdfs-core/src/util.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index b176bd0..0242091 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -63,7 +63,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
 
             let name_len = dirent.node.dirent.filename_length as usize;
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
+            if name_offset + name_len > layout::SECTOR_SIZE as usize {
+                return Err(util::Error::MalformedDirectory);
+            }
             name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
 
             // Dirent is valid, advance cursor before returning
diff --git a/xdvdfs-core/src/util.rs b/xdvdfs-core/src/util.rs
index ef107e7..6303708 100644
--- a/xdvdfs-core/src/util.rs
+++ b/xdvdfs-core/src/util.rs
@@ -16,6 +16,7 @@ pub enum Error<E> {
     InvalidFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    MalformedDirectory,
 }
 
 impl<E> Error<E> {
@@ -34,6 +35,7 @@ impl<E> Error<E> {
             Self::InvalidFileName => "Invalid file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::MalformedDirectory => "Directory structure is malformed",
         }
     }
 }
-- 
2.43.0


From 71f562048d583e9ac6dea0638e8a83def209922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:08 +0000
Subject: [PATCH 03/50] fix: stop on directory entry trees whose child offsets
 form a cycle

---
 xdvdfs-core/src/read.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 0242091..40da25a 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -182,8 +182,13 @@ impl DirectoryEntryTable {
         }
 
         let mut offset = self.offset(0)?;
+        let mut visited = alloc::collections::BTreeSet::new();
 
         loop {
+            if !visited.insert(offset) {
+                return Err(util::Error::MalformedDirectory);
+            }
+
             let dirent = read_dirent(dev, offset).await?;
             let dirent = dirent.ok_or(util::Error::DoesNotExist)?;
             let dirent_name = dirent.name_str()?;
@@ -298,7 +303,12 @@ impl DirectoryEntryTable {
         }
 
         let mut stack = vec![0];
+        let mut visited = alloc::collections::BTreeSet::new();
         while let Some(top) = stack.pop() {
+            if !visited.insert(top) {
+                return Err(util::Error::MalformedDirectory);
+            }
+
             let offset = self.offset(top)?;
             let dirent = read_dirent(dev, offset).await?;
 
-- 
2.43.0


From 8089fb3fa628c62d51e3a448be440e324f379902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:08 +0000
Subject: [PATCH 04/50] fix: treat 0xffff child offsets as absent in path
 lookup, as listing does

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 40da25a..e065d7f 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -204,7 +204,7 @@ impl DirectoryEntryTable {
                 core::cmp::Ordering::Greater => dirent.node.right_entry_offset,
             };
 
-            if next_offset == 0 {
+            if next_offset == 0 || next_offset == 0xffff {
                 return Err(util::Error::DoesNotExist);
             }
 
-- 
2.43.0


From 2540e50899880c2cda1d3db13f81211933357b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:43 +0000
Subject: [PATCH 05/50] fix: stop when a directory in an image contains itself

---
 xdvdfs-core/src/read.rs            | 19 ++++++++++++++---
 xdvdfs-core/src/write/fs/xdvdfs.rs | 33 ++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index e065d7f..523120e 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -347,14 +347,27 @@ impl DirectoryEntryTable {
 
         let mut dirents = vec![];
 
-        let mut stack = vec![(String::from(""), *self)];
-        while let Some((parent, tree)) = stack.pop() {
+        let mut stack = vec![(String::from(""), *self, vec![self.region.sector])];
+        while let Some((parent, tree, ancestors)) = stack.pop() {
             debugln!("[file_tree] Descending through {}", parent);
             let children = tree.walk_dirent_tree(dev).await?;
             for child in children.iter() {
                 if let Some(dirent_table) = child.node.dirent.dirent_table() {
                     let child_name = child.name_str()?;
-                    stack.push((format!("{}/{}", parent, child_name), dirent_table));
+                    let child_sector = dirent_table.region.sector;
+
+                    // A directory that contains itself would never be fully listed
+                    if !dirent_table.is_empty() && ancestors.contains(&child_sector) {
+                        return Err(util::Error::MalformedDirectory);
+                    }
+
+                    let mut ancestors = ancestors.clone();
+                    ancestors.push(child_sector);
+                    stack.push((
+                        format!("{}/{}", parent, child_name),
+                        dirent_table,
+                        ancestors,
+                    ));
                 }
 
                 dirents.push((parent.clone(), *child));
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..f91cf2b 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -219,6 +219,35 @@ where
             None
         }
     }
+
+    /// Whether a directory shares its entry table with a directory that contains it
+    fn is_own_ancestor(&self, dir: &PathVec) -> bool {
+        let Some(table) = self
+            .dirent_cache
+            .get(dir)
+            .and_then(|dirent| dirent.node.dirent.dirent_table())
+        else {
+            return false;
+        };
+
+        let mut ancestor = dir.clone();
+        while !ancestor.is_root() {
+            ancestor = ancestor.base();
+            let ancestor_sector = if ancestor.is_root() {
+                Some(self.volume.root_table.region.sector)
+            } else {
+                self.dirent_cache
+                    .get(&ancestor)
+                    .map(|dirent| dirent.node.dirent.data.sector)
+            };
+
+            if !table.is_empty() && ancestor_sector == Some(table.region.sector) {
+                return true;
+            }
+        }
+
+        false
+    }
 }
 
 impl<E> From<util::Error<E>> for std::io::Error
@@ -243,6 +272,10 @@ where
         let (dirtab, cache_node) = if dir.is_root() {
             (self.volume.root_table, &mut self.dirent_cache)
         } else {
+            if self.is_own_ancestor(dir) {
+                return Err(util::Error::MalformedDirectory);
+            }
+
             // FIXME: This lookup does not work if `dir` has not been previously
             // found by this function. That is, `dir`'s parent needs to have been queried
             // before `dir` can be queried. This assumption is valid currently as `read_dir`
-- 
2.43.0


From 1e11fbb808d8c3ca0a0c0db600c2318935a2b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 06/50] fix: accept file names with any Unicode character in
 the path prefix tree

---
 xdvdfs-core/src/write/fs/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..bffed9b 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -192,7 +192,7 @@ struct PathPrefixTree<T> {
 }
 
 struct PPTIter<'a, T> {
-    queue: Vec<(String, &'a PathPrefixTree<T>)>,
+    queue: Vec<(Vec<u8>, &'a PathPrefixTree<T>)>,
 }
 
 impl<'a, T> Iterator for PPTIter<'a, T> {
@@ -207,13 +207,15 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
             for (ch, child) in node.children.iter().enumerate() {
                 if let Some(child) = child {
                     let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
+                    name.push(ch as u8);
                     self.queue.push((name, child));
                 }
             }
 
             if let Some(record) = &node.record {
-                return Some((name.to_owned(), &record.0));
+                // Unwrap note: records are only inserted at the end of a valid string
+                let name = String::from_utf8(name.to_owned()).unwrap();
+                return Some((name, &record.0));
             }
         }
 
@@ -237,7 +239,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -258,7 +260,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &mut node.children[ch as usize];
                 node = next.as_mut()?;
             }
@@ -278,7 +280,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for component in path.iter() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -294,7 +296,7 @@ impl<T> PathPrefixTree<T> {
     pub fn insert_tail(&mut self, tail: &str, val: T) -> &mut Self {
         let mut node = self;
 
-        for ch in tail.chars() {
+        for ch in tail.bytes() {
             let next = &mut node.children[ch as usize];
             node = next.get_or_insert_with(|| Box::new(Self::default()));
         }
@@ -312,7 +314,7 @@ impl<T> PathPrefixTree<T> {
 
     pub fn iter(&self) -> PPTIter<'_, T> {
         PPTIter {
-            queue: alloc::vec![(String::new(), self)],
+            queue: alloc::vec![(Vec::new(), self)],
         }
     }
 }
-- 
2.43.0


From 5f2d7aee1fee222a49070398035bce297334044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 07/50] fix: report out of bounds reads of in-memory devices
 instead of panicking

---
 xdvdfs-core/src/blockdev.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..ff148f4 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -57,12 +57,12 @@ impl BlockDeviceRead for [u8] {
     type ReadError = OutOfBounds;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), OutOfBounds> {
-        let offset = offset as usize;
-        if offset >= self.as_ref().len() {
+        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
+        let size = <[u8]>::len(buffer);
+        if offset >= self.as_ref().len() || self.as_ref().len() - offset < size {
             return Err(OutOfBounds);
         }
 
-        let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
         let range = offset..(offset + size);
         buffer.copy_from_slice(&self[range]);
         Ok(())
-- 
2.43.0


From 0644f1de019d6d50f5ce3696be3ec04d920259c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 08/50] fix: never read past the end of a file when reading at
 an offset

---
 xdvdfs-core/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..761bd7e 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -273,7 +273,7 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        let size = core::cmp::min(size, (self.data.size as u64).saturating_sub(offset));
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-- 
2.43.0


From 7f7154f73046c223a45cd418ef58617969fb8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 09/50] fix: compress images containing files that do not fill
 their last sector

---
 xdvdfs-core/src/write/fs/sector_linear.rs | 3 ++-
 xdvdfs-core/src/write/fs/xdvdfs.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..a21aae9 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -206,7 +206,8 @@ where
                         sector_size as u64,
                     )
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                // The last sector of a file may be partially filled
+                assert!(bytes_read <= sector_size as u64);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index f91cf2b..35f568d 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -339,7 +339,8 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let size_available = (dirent.node.dirent.data.size as u64).saturating_sub(input_offset);
+        let size_to_copy = core::cmp::min(size, size_available);
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From 1a663d71872be41e8f2b2eccf93edaa8a6dc68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 10/50] fix: copy files to a nonzero offset of an in-memory
 device

---
 xdvdfs-core/src/write/fs/stdfs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..43b829e 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -125,7 +125,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
 
         let dest = &mut dest[output_offset..(output_offset + size)];
         let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
@@ -154,7 +154,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
 
         let dest = &mut dest[output_offset..(output_offset + size)];
         let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 1108714170505b70a2558db4ff33f84029761515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:18 +0000
Subject: [PATCH 11/50] fix: substitute glob matches in rewrite paths in a
 single pass

Matched text that looks like a reference was substituted again, and an index
with too many digits overflowed.
---
 xdvdfs-core/src/write/fs/remap.rs | 49 ++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8305b05..3ba9029 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -105,11 +105,7 @@ where
     E: Into<RemapOverlayError<E>> + Send + Sync,
     FS: FilesystemHierarchy<Error = E>,
 {
-    fn find_match_indices(
-        rewrite: &str,
-    ) -> Result<Vec<usize>, RemapOverlayFilesystemBuildingError<E>> {
-        let mut match_indices: Vec<usize> = Vec::new();
-        let mut match_index = 0;
+    fn check_match_indices(rewrite: &str) -> Result<(), RemapOverlayFilesystemBuildingError<E>> {
         let mut matching = false;
 
         for (idx, c) in rewrite.chars().enumerate() {
@@ -125,14 +121,10 @@ where
 
             if c == '}' {
                 matching = false;
-                match_indices.push(match_index);
-                match_index = 0;
                 continue;
             }
 
-            if let Some(digit) = c.to_digit(10) {
-                match_index *= 10;
-                match_index += digit as usize;
+            if c.is_ascii_digit() {
                 continue;
             }
 
@@ -155,7 +147,33 @@ where
             );
         }
 
-        Ok(match_indices)
+        Ok(())
+    }
+
+    /// Replaces each `{x}` with match `x` in a single pass, so that text
+    /// inserted for one match is never taken for another reference.
+    fn substitute_matches<'a>(
+        rewrite: &str,
+        get_match: impl Fn(usize) -> Option<&'a str>,
+    ) -> String {
+        let mut output = String::new();
+        let mut rest = rewrite;
+        while let Some((head, tail)) = rest.split_once('}') {
+            rest = tail;
+            let Some((literal, index)) = head.rsplit_once('{') else {
+                output.push_str(head);
+                output.push('}');
+                continue;
+            };
+
+            output.push_str(literal);
+            // An index too large to be represented has no match
+            let index = index.parse().ok();
+            output.push_str(index.and_then(&get_match).unwrap_or(""));
+        }
+
+        output.push_str(rest);
+        output
     }
 
     #[maybe_async]
@@ -229,12 +247,9 @@ where
                     continue;
                 }
 
-                let mut rewrite = cfg.map_rules[idx].1.clone();
-                let match_indices = Self::find_match_indices(&rewrite)?;
-                for index in match_indices {
-                    let replace = matched.get(index).unwrap_or("");
-                    rewrite = rewrite.replace(&alloc::format!("{{{index}}}"), replace);
-                }
+                let rewrite = &cfg.map_rules[idx].1;
+                Self::check_match_indices(rewrite)?;
+                let mut rewrite = Self::substitute_matches(rewrite, |index| matched.get(index));
 
                 // If this path matched a prefix (e.g. the rule "bin") and has a suffix (e.g.
                 // "/default.xbe"), then we need to re-add the suffix to the rewritten prefix
-- 
2.43.0


From 2e879bdcbab19352e3b07fcb27cb64e5521d512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 12/50] fix: keep the leading dot of a file name in rewritten
 paths

---
 xdvdfs-core/src/write/fs/remap.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 3ba9029..8931d2a 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -260,9 +260,8 @@ where
 
                 let rewrite = PathVec::from_iter(
                     rewrite
-                        .trim_start_matches('.')
-                        .trim_start_matches('/')
-                        .split('/'),
+                        .split('/')
+                        .skip_while(|component| matches!(*component, "" | "." | "..")),
                 );
                 rewritten_path = Some(rewrite);
             }
-- 
2.43.0


From af245dd01057355debbccf929d5ebd07a1ac3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:37 +0000
Subject: [PATCH 13/50] fix: refuse to extract entries whose names lead outside
 of the target

---
 xdvdfs-cli/src/cmd_unpack.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..0d46411 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,14 +1,27 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
     fs::File,
     io::{BufReader, Read, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
     str::FromStr,
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Returns whether an entry name refers to a file directly inside of the
+/// directory it is extracted to. Names come from the image, and could otherwise
+/// refer to any path on the host
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    let is_normal = matches!(
+        components.next(),
+        Some(Component::Normal(component)) if component == name
+    );
+    is_normal && components.next().is_none()
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
@@ -17,6 +30,13 @@ async fn copyout_directory(
 ) -> Result<(), anyhow::Error> {
     let tree = dirtab.file_tree(img).await?;
 
+    for (dir, dirent) in &tree {
+        let file_name = dirent.name_str::<std::io::Error>()?;
+        if !file_name.is_empty() && !is_plain_file_name(&file_name) {
+            bail!("Entry {dir}/{file_name} has a name that cannot be extracted");
+        }
+    }
+
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
-- 
2.43.0


From 8d99d4228aab0c2ff2ad865613bea878943ae7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:04 +0000
Subject: [PATCH 14/50] fix: report entries that end early when extracting

---
 xdvdfs-cli/src/cmd_unpack.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 0d46411..3097664 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -75,9 +75,11 @@ async fn copyout_directory(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
-                let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                let size = dirent.node.dirent.data.size as u64;
+                let mut data = std::io::BufReader::new(data.take(size));
+                if std::io::copy(&mut data, &mut file)? != size {
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -161,9 +163,11 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let data = img.get_ref().get_ref().try_clone();
     match data {
         Ok(data) => {
-            let data = data.take(dirent.node.dirent.data.size as u64);
-            let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            let size = dirent.node.dirent.data.size as u64;
+            let mut data = std::io::BufReader::new(data.take(size));
+            if std::io::copy(&mut data, &mut file)? != size {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From 22a4c788cd7cf8fe02fb7a2bfbb6859f0b0dbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:38 +0000
Subject: [PATCH 15/50] fix: fail when a file is shorter than the entry being
 packed

---
 xdvdfs-core/src/write/img.rs | 23 ++++++++++++++---------
 xdvdfs-core/src/write/mod.rs |  2 ++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..69fe36b 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -169,15 +169,20 @@ pub async fn create_xdvdfs_image<
             if entry.is_dir {
                 dir_sectors.insert(file_path.clone(), entry.sector);
             } else {
-                fs.copy_file_in(
-                    &file_path,
-                    image,
-                    0,
-                    entry.sector * layout::SECTOR_SIZE as u64,
-                    entry.size,
-                )
-                .await
-                .map_err(WriteError::FilesystemCopierError)?;
+                let copied = fs
+                    .copy_file_in(
+                        &file_path,
+                        image,
+                        0,
+                        entry.sector * layout::SECTOR_SIZE as u64,
+                        entry.size,
+                    )
+                    .await
+                    .map_err(WriteError::FilesystemCopierError)?;
+
+                if copied < entry.size {
+                    return Err(FileStructureError::FileTruncated.into());
+                }
             }
         }
     }
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index d269ecb..f34d7fb 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -18,6 +18,7 @@ pub enum FileStructureError {
     DuplicateFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    FileTruncated,
 }
 
 #[derive(Debug)]
@@ -43,6 +44,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::FileTruncated => "File is shorter than its directory entry",
         }
     }
 }
-- 
2.43.0


From 7eba98aa826ea536383d04e2178bb5a761e9db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:12 +0000
Subject: [PATCH 16/50] fix: report a failure to write the end of a packed
 image

---
 xdvdfs-cli/src/cmd_build_image.rs | 3 +++
 xdvdfs-cli/src/cmd_pack.rs        | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..9f8a01d 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -244,6 +244,9 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    // Errors while dropping the writer are ignored
+    image.flush()?;
+
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..bcc4396 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 use anyhow::bail;
@@ -99,5 +100,8 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    // Errors while dropping the writer are ignored
+    image.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From 7807ad638e44ce626c3f1665ad9a7cef12651cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:37 +0000
Subject: [PATCH 17/50] fix: accept every form of extract-xiso -c arguments

---
 xdvdfs-cli/src/exiso_compat.rs | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..fa89b7a 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -20,7 +20,6 @@ pub enum EXMode {
     )]
     C {
         dir: String,
-        file: Option<String>,
 
         #[arg(allow_hyphen_values = true, trailing_var_arg = true)]
         rest: Vec<String>,
@@ -95,32 +94,33 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
 }
 
 #[maybe_async]
-async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> anyhow::Result<()> {
-    let mut tasks = Vec::new();
-    tasks.push((dir, file.clone()));
-
-    let mut i = 0;
-    while i < rest.len() {
-        if rest[i] != "-c" {
-            bail!(
-                "Create arg in position {} must begin with `-c`",
-                tasks.len() + 1
-            );
+async fn exiso_create(dir: &String, rest: &[String]) -> anyhow::Result<()> {
+    let mut tasks: Vec<(&String, Option<String>)> = Vec::new();
+    let mut dir = dir;
+    let mut rest = rest;
+
+    // `dir` is followed by its optional file name, and the following `-c` args
+    loop {
+        let file = rest.first().filter(|arg| !arg.starts_with('-'));
+        if file.is_some() {
+            rest = &rest[1..];
         }
+        tasks.push((dir, file.cloned()));
 
-        if i + 1 >= rest.len() {
-            bail!(
+        match rest {
+            [] => break,
+            [flag, next_dir, next_rest @ ..] if flag == "-c" => {
+                dir = next_dir;
+                rest = next_rest;
+            }
+            [flag] if flag == "-c" => bail!(
                 "Create arg in position {} is missing dir name",
                 tasks.len() + 1
-            );
-        }
-
-        if i + 2 < rest.len() && rest[i + 2] != "-c" {
-            tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
-            i += 2;
-        } else {
-            tasks.push((&rest[i + 1], None));
-            i += 2;
+            ),
+            _ => bail!(
+                "Create arg in position {} must begin with `-c`",
+                tasks.len() + 1
+            ),
         }
     }
 
@@ -199,7 +199,7 @@ async fn exiso_repack(
 pub async fn run_exiso_command(cmd: &EXCommand) -> anyhow::Result<()> {
     // FIXME: Respect -q and -Q during processing
     match &cmd.mode {
-        EXMode::C { dir, file, rest } => exiso_create(dir, file, rest).await,
+        EXMode::C { dir, rest } => exiso_create(dir, rest).await,
         EXMode::L { xiso } => exiso_list(xiso).await,
         EXMode::X { xiso } | EXMode::None(xiso) => exiso_extract(xiso, &cmd.directory).await,
         EXMode::R { xiso } => exiso_repack(xiso, &cmd.directory, cmd.delete).await,
-- 
2.43.0


From 1e1a0b85da3eec83a1cf557d6b3ef3240e5035ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 18/50] fix: rewrite images into the directory given to
 extract-xiso -d

---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index fa89b7a..53cceac 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From cf5ea45173dcdf2f2449f23160995878b5d308d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 19/50] fix: show child offsets of more than 64 KiB

---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..34e2c91 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * u32::from(dirent.node.left_entry_offset))
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * u32::from(dirent.node.right_entry_offset))
         } else {
             String::from("None")
         }
-- 
2.43.0


From 3b3a00b2a979f55f2cc932bcdd5252a01023f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 20/50] fix: print paths without empty components in md5

---
 xdvdfs-cli/src/cmd_md5.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_md5.rs b/xdvdfs-cli/src/cmd_md5.rs
index 22a930d..c3695e0 100644
--- a/xdvdfs-cli/src/cmd_md5.rs
+++ b/xdvdfs-cli/src/cmd_md5.rs
@@ -36,13 +36,8 @@ async fn md5_file_tree<BDR: BlockDeviceRead>(
     base: &str,
 ) -> Result<(), util::Error<BDR::ReadError>> {
     for (dir, file) in tree {
-        let dir = if base.is_empty() {
-            String::from(dir)
-        } else if dir.is_empty() {
-            String::from(base)
-        } else {
-            format!("{}/{}", base, dir)
-        };
+        // `dir` is either empty, or starts with a slash
+        let dir = format!("{}{}", base.trim_end_matches('/'), dir);
         let checksum = md5_file_dirent(img, *file).await?;
         let name = file.name_str()?;
         println!("{}  {}/{}", checksum, dir, name);
-- 
2.43.0


From 1b0dfa6a0e46a9978aad102e3aab977c40b95911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:58 +0000
Subject: [PATCH 21/50] fix: respect the output option of build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 9f8a01d..c9b420c 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -195,10 +195,11 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
     let image_path = if let Some(path) = &args.image_path {
         PathBuf::from_str(path)?
     } else {
-        let output_path = image_spec
+        let spec_output = image_spec
             .as_ref()
             .and_then(|spec| spec.metadata.as_ref())
             .and_then(|meta| meta.output.as_ref());
+        let output_path = args.meta_output.as_ref().or(spec_output);
 
         if let Some(output) = output_path {
             source_path.join(output)
-- 
2.43.0


From a0fcd1b0ebf6bc4b75f37dd98096aaf02b95dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:59 +0000
Subject: [PATCH 22/50] fix: recognise a new destination inside of the source
 behind links and dots

---
 xdvdfs-cli/src/img.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index f570ff6..fa0f653 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -80,10 +80,19 @@ pub async fn open_image(
 /// otherwise returns the result of std::path::absolute
 /// std::fs::canonicalize will follow symlinks, but seems to error on some filesystems
 /// on Windows. Following symlinks is desirable, so it is attempted first
+/// If the path does not exist, its parent directory is resolved in the same way
 pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
-    match std::fs::canonicalize(path) {
-        Err(_) => std::path::absolute(path),
-        ok => ok,
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
+    }
+
+    let path = std::path::absolute(path)?;
+    match (path.parent(), path.file_name()) {
+        (Some(parent), Some(name)) => match std::fs::canonicalize(parent) {
+            Ok(parent) => Ok(parent.join(name)),
+            Err(_) => Ok(path),
+        },
+        _ => Ok(path),
     }
 }
 
-- 
2.43.0


From 936190d985738d5274199d1ecfbf9d9e8acb6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:05 +0000
Subject: [PATCH 23/50] fix: write compressed images to the directory of the
 output path

---
 xdvdfs-cli/src/cmd_compress.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..5e572e2 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -20,7 +20,9 @@ pub struct CompressArgs {
     image_path: Option<String>,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    directory: PathBuf,
+}
 
 type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
@@ -35,7 +37,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
+        let file = std::fs::File::create(self.directory.join(name))?;
         let bf: BufFile = std::io::BufWriter::new(file);
         Ok(bf)
     }
@@ -74,7 +76,13 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, image_path);
+    // The names of the parts that are passed to the filesystem do not include the directory
+    let (Some(directory), Some(_)) = (image_path.parent(), image_path.file_name()) else {
+        return Err(anyhow::anyhow!("Destination path is not a file path"));
+    };
+    let directory = directory.to_path_buf();
+
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { directory }, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
-- 
2.43.0


From e5920c6f9ff2e309ae418502687c740ce44fb856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:07 +0000
Subject: [PATCH 24/50] fix: compare absolute paths before compressing

---
 xdvdfs-cli/src/cmd_compress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 5e572e2..ec155d7 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -54,7 +54,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -70,7 +70,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if image_path.starts_with(&source_path) {
+    if absolute_path(&image_path)?.starts_with(&source_path) {
         return Err(anyhow::anyhow!(
             "Destination path is contained by source path"
         ));
-- 
2.43.0


From bed794ad6834f5cbc78f0963cee5bc180150e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:47 +0000
Subject: [PATCH 25/50] fix: report a failure to write the end of a compressed
 image

---
 xdvdfs-cli/src/cmd_compress.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index ec155d7..926a102 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -24,7 +24,6 @@ struct SplitStdFs {
     directory: PathBuf,
 }
 
-type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -35,14 +34,17 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(self.directory.join(name))?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs {
+    // Output is not buffered, as every write comes with a seek, and errors while
+    // dropping a buffer are ignored
+    async fn create_file(
+        &mut self,
+        name: &std::ffi::OsStr,
+    ) -> Result<std::fs::File, std::io::Error> {
+        std::fs::File::create(self.directory.join(name))
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: std::fs::File) {}
 }
 
 fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
-- 
2.43.0


From cb65f3fd4a20f9d767bedbaeb6d4731267e6c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:35 +0000
Subject: [PATCH 26/50] fix: read whole sectors when compressing from the file
 system

---
 xdvdfs-core/src/write/fs/stdfs.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 43b829e..18ed611 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -73,6 +73,21 @@ impl FilesystemHierarchy for StdFilesystem {
     }
 }
 
+/// A single read may return fewer bytes than are available
+fn read_until_full(file: &mut impl std::io::Read, dest: &mut [u8]) -> std::io::Result<usize> {
+    let mut total = 0;
+    while total < <[u8]>::len(dest) {
+        match file.read(&mut dest[total..]) {
+            Ok(0) => break,
+            Ok(bytes_read) => total += bytes_read,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+
+    Ok(total)
+}
+
 #[maybe_async]
 impl<T> FilesystemCopier<T> for StdFilesystem
 where
@@ -113,7 +128,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         output_offset: u64,
         size: u64,
     ) -> Result<u64, std::io::Error> {
-        use std::io::{Read, Seek, SeekFrom};
+        use std::io::{Seek, SeekFrom};
 
         let src = src.as_path_buf(&self.root);
         let file = std::fs::File::open(src)?;
@@ -124,7 +139,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
+        let bytes_read = read_until_full(&mut file, dest)?;
         dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
@@ -142,7 +157,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         output_offset: u64,
         size: u64,
     ) -> Result<u64, std::io::Error> {
-        use std::io::{Read, Seek, SeekFrom};
+        use std::io::{Seek, SeekFrom};
 
         let src = src.as_path_buf(&self.root);
         let file = std::fs::File::open(src)?;
@@ -153,7 +168,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
+        let bytes_read = read_until_full(&mut file, dest)?;
         dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
-- 
2.43.0


From 6157123767323bcef4ac6c7fd0e048364d0228e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:35 +0000
Subject: [PATCH 27/50] fix: refuse compressed outputs that have no name
 without panicking

---
 xdvdfs-cli/src/cmd_compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 926a102..cf33fc8 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -79,7 +79,8 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
     }
 
     // The names of the parts that are passed to the filesystem do not include the directory
-    let (Some(directory), Some(_)) = (image_path.parent(), image_path.file_name()) else {
+    let first_part = image_path.with_extension("1.cso");
+    let (Some(directory), Some(_)) = (image_path.parent(), first_part.file_name()) else {
         return Err(anyhow::anyhow!("Destination path is not a file path"));
     };
     let directory = directory.to_path_buf();
-- 
2.43.0


From 17c1bd4221a86cc0e2040e4fd71866e7435f957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 28/50] fix: refuse image specs with more than one rule for a
 host path

The rules of an image spec are a table, so that all but one of the rules with
the same host path were lost, and the spec did not mean the same as the options.
---
 xdvdfs-cli/src/cmd_build_image.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index c9b420c..777c6c0 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -267,10 +267,17 @@ pub async fn cmd_image_spec(args: &ImageSpecArgs) -> Result<(), anyhow::Error> {
                 return Err(anyhow!("Map rule \"{host}\" must have an image path unless it is an exclusion rule (starting with '!')"));
             }
 
-            map_rules.insert(
+            let previous = map_rules.insert(
                 host.to_owned(),
                 toml::Value::String(image.map(|s| s.to_owned()).unwrap_or_default()),
             );
+
+            // The table holds a single rule for each host path
+            if previous.is_some() {
+                return Err(anyhow!(
+                    "Host path \"{host}\" cannot have more than one map rule in an image spec"
+                ));
+            }
         }
 
         Some(map_rules)
-- 
2.43.0


From ec282838498041298cd3360395af8998045e4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 29/50] fix: build images from relative source paths without a
 directory or name

The directory of a spec in the working directory was the empty path, which
cannot be listed, and a source path like `.` or `..` has no name to infer the
output path from.
---
 xdvdfs-cli/src/cmd_build_image.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 777c6c0..99f61aa 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -1,4 +1,8 @@
-use std::{io::Write, path::PathBuf, str::FromStr};
+use std::{
+    io::Write,
+    path::{Path, PathBuf},
+    str::FromStr,
+};
 
 use anyhow::anyhow;
 use clap::{Args, Subcommand};
@@ -9,7 +13,7 @@ use xdvdfs::write::{
     img::ProgressInfo,
 };
 
-use crate::img::with_extension;
+use crate::img::{absolute_path, with_extension};
 
 #[derive(Args)]
 #[command(
@@ -137,7 +141,7 @@ fn deserialize_overlay_config(
 #[maybe_async]
 pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error> {
     let source_path = if let Some(path) = &args.source_path {
-        PathBuf::from_str(path)?
+        absolute_path(Path::new(path))?
     } else {
         std::env::current_dir()?
     };
-- 
2.43.0


From 76efeaa43a29efcbc806ed7e3604422f4cebb936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 30/50] fix: keep the whole directory name in the name of a
 created image

Images of directories like `game.1` and `game.2` were both written to
`game.iso`, and the second replaced the first.
---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 53cceac..ba44e70 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -87,7 +87,7 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
     let image_path = file
         .as_ref()
         .map(PathBuf::from)
-        .unwrap_or_else(|| dir.with_extension("iso"));
+        .unwrap_or_else(|| with_extension(&dir, "iso", true));
 
     use crate::cmd_pack::*;
     cmd_pack_path(&dir, &image_path).await
-- 
2.43.0


From 2677fbd66e4c13748592660a91ced19adf6eb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:55 +0000
Subject: [PATCH 31/50] fix: report source paths of build-image that cannot be
 accessed

A directory that could not be queried was taken for a spec file, and its parent
directory was packed instead.
---
 xdvdfs-cli/src/cmd_build_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 99f61aa..56ffc94 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -146,7 +146,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         std::env::current_dir()?
     };
 
-    let (spec_path, source_path) = if source_path.is_dir() {
+    let (spec_path, source_path) = if std::fs::metadata(&source_path)?.is_dir() {
         (source_path.join("xdvdfs.toml"), source_path)
     } else {
         let source = source_path
-- 
2.43.0


From 34faa6637295e5841186227df45c46c7510bc09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 32/50] fix: do not overwrite mapped files with the image that
 is built

An output path that is one of the mapped files truncated it before it was read.
---
 xdvdfs-cli/src/cmd_build_image.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 56ffc94..bbcb3dd 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -224,6 +224,16 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         return Ok(());
     }
 
+    // Mapped files are read after the image has been created
+    if image_path.exists() {
+        let image_path = absolute_path(&image_path)?;
+        for (host, _) in remapfs.dump() {
+            if absolute_path(&host.as_path_buf(&source_path))? == image_path {
+                return Err(anyhow!("Destination path is mapped into the image"));
+            }
+        }
+    }
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
-- 
2.43.0


From c1ffffc7e413cfdcc6a115da535b3846481bf91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 33/50] fix: return no data when reading at or past the end of
 a file

Reading at an offset cuts the size at the end of the file, but failed with
SizeOutOfBounds when nothing was left. A mounted file answered reads at its
end with EIO instead of an empty read.
---
 xdvdfs-core/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 761bd7e..b20f92d 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -277,7 +277,7 @@ impl DirectoryEntryDiskData {
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-        if self.data.size == 0 {
+        if buf.is_empty() {
             return Ok(buf);
         }
 
-- 
2.43.0


From ddbee6dd1484fcc7532a5bd09ac5abf6a092fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 34/50] fix: give scanned entries their offset in the image

The offset of an entry is its position in the image, except that entries
found by scanning a directory got the position in the sector. The mounted
file system identifies entries by it: a directory listing and a lookup gave
the same entry different inodes.
---
 xdvdfs-core/src/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 523120e..278264e 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,8 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let sector_offset = (self.sector as u64) * (layout::SECTOR_SIZE as u64);
+            let dirent = deserialize_dirent_node(&buf, sector_offset + self.offset as u64)?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From ae9a9066ded5196756c4e9e8463263b8dcc1858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 35/50] fix: answer lookups of absent names with ENOENT

A name that is not in a mounted directory was an I/O error.
---
 xdvdfs-fsd/src/img_fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6112fc9..61f193c 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -13,6 +13,7 @@ use tokio::runtime::Runtime;
 use xdvdfs::{
     blockdev::OffsetWrapper,
     layout::{DirectoryEntryNode, DirectoryEntryTable, VolumeDescriptor},
+    util::Error,
 };
 
 struct FuseFilesystemCache {
@@ -212,6 +213,10 @@ impl fuser::Filesystem for FuseFilesystem {
         let dirent = self.rt.block_on(dirtab.walk_path(&mut self.device, name));
         let dirent = match dirent {
             Ok(dirent) => dirent,
+            Err(Error::DoesNotExist | Error::DirectoryEmpty) => {
+                reply.error(libc::ENOENT);
+                return;
+            }
             Err(_) => {
                 reply.error(libc::EIO);
                 return;
-- 
2.43.0


From 21076d590bf57aa2a90b78f3ae9450cbb55f0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 36/50] fix: count blocks of mounted files in units of 512
 bytes

st_blocks was the number of sectors, a quarter of the space.
---
 xdvdfs-fsd/src/img_fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 61f193c..95f6a25 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -16,6 +16,9 @@ use xdvdfs::{
     util::Error,
 };
 
+// st_blocks counts units of 512 bytes
+const BLOCKS_PER_SECTOR: u64 = xdvdfs::layout::SECTOR_SIZE as u64 / 512;
+
 struct FuseFilesystemCache {
     inode_lookup: HashMap<u64, DirectoryEntryNode>,
     inode_rev_lookup: HashMap<DirectoryEntryNode, u64>,
@@ -168,7 +171,7 @@ impl FuseFilesystem {
         fuser::FileAttr {
             ino,
             size: byte_size,
-            blocks: byte_size.div_ceil(xdvdfs::layout::SECTOR_SIZE as u64),
+            blocks: byte_size.div_ceil(xdvdfs::layout::SECTOR_SIZE as u64) * BLOCKS_PER_SECTOR,
             atime: self.src_atime,
             mtime: self.src_mtime,
             ctime: self.src_ctime,
-- 
2.43.0


From 69696fd106cc176c20a0cbd058eeefd737f3bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 37/50] fix: report a failed mount from the forked daemon

The launching process exited with 0 as soon as the daemon was done with
opening the image, and also when that or the mount itself failed. The daemon
now reports when the file system is mounted; when it ends without that, the
launching process exits with 1.
---
 xdvdfs-fsd/src/daemonize.rs | 31 +++++++++----------------------
 xdvdfs-fsd/src/img_fs.rs    | 24 +++++++++++++++++++++++-
 xdvdfs-fsd/src/main.rs      |  5 +----
 3 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/xdvdfs-fsd/src/daemonize.rs b/xdvdfs-fsd/src/daemonize.rs
index cb6b7a8..725019a 100644
--- a/xdvdfs-fsd/src/daemonize.rs
+++ b/xdvdfs-fsd/src/daemonize.rs
@@ -6,25 +6,11 @@ type Inner = OwnedFd;
 #[cfg(not(target_os = "linux"))]
 type Inner = ();
 
-pub struct Daemonize(Inner, bool);
-
-impl Drop for Daemonize {
-    fn drop(&mut self) {
-        if !self.1 {
-            self.finish_impl().unwrap();
-        }
-    }
-}
+pub struct Daemonize(Inner);
 
 impl Daemonize {
     pub fn finish(mut self) -> anyhow::Result<()> {
-        if self.1 {
-            return Ok(());
-        }
-
-        self.finish_impl()?;
-        self.1 = true;
-        Ok(())
+        self.finish_impl()
     }
 }
 
@@ -33,8 +19,9 @@ impl Daemonize {
     /// Fork the daemon off of the parent
     /// This function will never return in the parent,
     /// and will return a Daemonize handle to the child.
-    /// The parent will wait for the child to drop, or
-    /// to call `finish()` before exiting.
+    /// The parent will wait for the child to call `finish()`
+    /// before exiting successfully. If the child drops the
+    /// handle without doing so, the parent exits with an error.
     /// Safety: Unsafe when called in multithreaded context.
     pub unsafe fn fork() -> anyhow::Result<Daemonize> {
         use nix::unistd;
@@ -48,13 +35,13 @@ impl Daemonize {
                 // Wait for message on pipe, then exit
                 std::mem::drop(w);
                 let mut buf = [0];
-                unistd::read(r.as_raw_fd(), &mut buf)?;
+                let finished = unistd::read(r.as_raw_fd(), &mut buf)? == 1;
                 std::mem::drop(r);
-                std::process::exit(0);
+                std::process::exit(if finished { 0 } else { 1 });
             }
             unistd::ForkResult::Child => {
                 std::mem::drop(r);
-                Ok(Daemonize(w, false))
+                Ok(Daemonize(w))
             }
         }
     }
@@ -70,7 +57,7 @@ impl Daemonize {
     /// Daemonizing is not supported on this platform,
     /// all functions are no-op.
     pub unsafe fn fork() -> anyhow::Result<Daemonize> {
-        Ok(Daemonize((), true))
+        Ok(Daemonize(()))
     }
 
     fn finish_impl(&mut self) -> anyhow::Result<()> {
diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 95f6a25..1b2f0af 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -9,6 +9,7 @@ use std::{
     time::{Duration, SystemTime},
 };
 
+use crate::daemonize::Daemonize;
 use tokio::runtime::Runtime;
 use xdvdfs::{
     blockdev::OffsetWrapper,
@@ -34,6 +35,9 @@ pub struct FuseFilesystem {
     volume: VolumeDescriptor,
     rt: Runtime,
     cache: FuseFilesystemCache,
+
+    // Taken when the filesystem has been mounted
+    daemon: Option<Daemonize>,
 }
 
 // An INode can resolve to either a non-root entry,
@@ -101,7 +105,12 @@ impl FuseFilesystemCache {
 }
 
 impl FuseFilesystem {
-    pub fn new(img_path: &Path, metadata: Metadata, rt: Runtime) -> anyhow::Result<FuseFilesystem> {
+    pub fn new(
+        img_path: &Path,
+        metadata: Metadata,
+        rt: Runtime,
+        daemon: Option<Daemonize>,
+    ) -> anyhow::Result<FuseFilesystem> {
         let img = File::open(img_path)?;
         let img = BufReader::new(img);
         let mut device = rt.block_on(OffsetWrapper::new(img))?;
@@ -124,6 +133,7 @@ impl FuseFilesystem {
             src_crtime,
             volume,
             cache: FuseFilesystemCache::new(),
+            daemon,
         })
     }
 
@@ -189,6 +199,18 @@ impl FuseFilesystem {
 }
 
 impl fuser::Filesystem for FuseFilesystem {
+    fn init(
+        &mut self,
+        _req: &fuser::Request<'_>,
+        _config: &mut fuser::KernelConfig,
+    ) -> Result<(), libc::c_int> {
+        if let Some(daemon) = self.daemon.take() {
+            daemon.finish().map_err(|_| libc::EIO)?;
+        }
+
+        Ok(())
+    }
+
     fn lookup(
         &mut self,
         req: &fuser::Request<'_>,
diff --git a/xdvdfs-fsd/src/main.rs b/xdvdfs-fsd/src/main.rs
index ab849fb..a2bc32f 100644
--- a/xdvdfs-fsd/src/main.rs
+++ b/xdvdfs-fsd/src/main.rs
@@ -111,10 +111,7 @@ fn mount_image_file(
         .transpose()?;
 
     let rt = Runtime::new()?;
-    let fs = FuseFilesystem::new(src, metadata, rt)?;
-    if let Some(dm) = dm {
-        dm.finish()?;
-    }
+    let fs = FuseFilesystem::new(src, metadata, rt, dm)?;
     fuser::mount2(fs, mount_point, &mount_opts)?;
     Ok(())
 }
-- 
2.43.0


From 6fdd549be725da83e6d313fdffd4ee758aded4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 38/50] fix: desktop: report errors instead of answering like
 after success

---
 xdvdfs-desktop/src/compress.rs | 36 ++++++++++++++-------
 xdvdfs-desktop/src/pack.rs     | 35 ++++++++++++--------
 xdvdfs-desktop/src/unpack.rs   | 58 ++++++++++++++++++++++++++--------
 3 files changed, 92 insertions(+), 37 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index bcfdc58..e01f858 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -45,6 +45,16 @@ pub async fn compress_image(
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    compress_image_impl(window, source_path, dest_path)
+        .await
+        .err()
+}
+
+async fn compress_image_impl(
+    window: Window,
+    source_path: String,
+    dest_path: String,
+) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -80,7 +90,7 @@ pub async fn compress_image(
             .expect("should be able to send event")
     };
 
-    let meta = std::fs::metadata(&source_path).ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = write::fs::StdFilesystem::create(&source_path);
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
@@ -89,34 +99,38 @@ pub async fn compress_image(
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source)
+            .await
+            .map_err(|e| e.to_string())?;
         let mut fs = write::fs::XDVDFSFilesystem::new(source)
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
         let mut slbfs: BufFileSectorLinearFs = write::fs::SectorLinearBlockFilesystem::new(&mut fs);
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 5ab8a01..86552a5 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -3,6 +3,14 @@ use tauri::Window;
 
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
+    pack_image_impl(window, source_path, dest_path).await.err()
+}
+
+async fn pack_image_impl(
+    window: Window,
+    source_path: String,
+    dest_path: String,
+) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -11,8 +19,7 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
         .truncate(true)
         .create(true)
         .open(dest_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+        .map_err(|e| e.to_string())?;
     let mut image = std::io::BufWriter::with_capacity(1024 * 1024, image);
 
     let progress_callback = |pi| {
@@ -21,31 +28,33 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
             .expect("should be able to send event");
     };
 
-    let meta = std::fs::metadata(&source_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = xdvdfs::write::fs::StdFilesystem::create(&source_path);
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source)
+            .await
+            .map_err(|e| e.to_string())?;
         let mut fs =
             xdvdfs::write::fs::XDVDFSFilesystem::<_, _, xdvdfs::write::fs::StdIOCopier<_, _>>::new(
                 source,
             )
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index caee664..718b9eb 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -10,15 +10,36 @@ pub async fn unpack_image(
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    unpack_image_impl(window, source_path, dest_path)
+        .await
+        .err()
+}
+
+async fn unpack_image_impl(
+    window: Window,
+    source_path: String,
+    dest_path: String,
+) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let img = std::fs::File::options().read(true).open(source_path).ok()?;
+    let img = std::fs::File::options()
+        .read(true)
+        .open(source_path)
+        .map_err(|e| e.to_string())?;
     let img = std::io::BufReader::new(img);
-    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img).await.ok()?;
+    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img)
+        .await
+        .map_err(|e| e.to_string())?;
 
-    let volume = xdvdfs::read::read_volume(&mut img).await.ok()?;
-    let tree = volume.root_table.file_tree(&mut img).await.ok()?;
+    let volume = xdvdfs::read::read_volume(&mut img)
+        .await
+        .map_err(|e| e.to_string())?;
+    let tree = volume
+        .root_table
+        .file_tree(&mut img)
+        .await
+        .map_err(|e| e.to_string())?;
 
     window
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
@@ -27,7 +48,9 @@ pub async fn unpack_image(
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
-        let file_name = dirent.name_str::<std::io::Error>().ok()?;
+        let file_name = dirent
+            .name_str::<std::io::Error>()
+            .map_err(|e| e.to_string())?;
         let file_path = dirname.join(&*file_name);
 
         window
@@ -37,9 +60,9 @@ pub async fn unpack_image(
             )
             .expect("should be able to send event");
 
-        std::fs::create_dir_all(dirname).ok()?;
+        std::fs::create_dir_all(dirname).map_err(|e| e.to_string())?;
         if dirent.node.dirent.is_directory() {
-            std::fs::create_dir(file_path).ok()?;
+            std::fs::create_dir(file_path).map_err(|e| e.to_string())?;
             continue;
         }
 
@@ -52,27 +75,36 @@ pub async fn unpack_image(
             .truncate(true)
             .create(true)
             .open(file_path)
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         if dirent.node.dirent.is_empty() {
             continue;
         }
 
-        dirent.node.dirent.seek_to(&mut img).ok()?;
+        dirent
+            .node
+            .dirent
+            .seek_to(&mut img)
+            .map_err(|e| e.to_string())?;
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
                 let data = data.take(dirent.node.dirent.data.size as u64);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).ok()?;
+                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-                let data = dirent.node.dirent.read_data_all(&mut img).await.ok()?;
-                file.write_all(&data).ok()?;
+                let data = dirent
+                    .node
+                    .dirent
+                    .read_data_all(&mut img)
+                    .await
+                    .map_err(|e| e.to_string())?;
+                file.write_all(&data).map_err(|e| e.to_string())?;
             }
         }
     }
 
-    None
+    Ok(())
 }
-- 
2.43.0


From 4d2004c4dd4c1034b97a9e8c88515649473fb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 39/50] fix: desktop: report a failure to write the end of a
 packed image

---
 xdvdfs-desktop/src/pack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 86552a5..aeacd72 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::PathBuf;
 use tauri::Window;
 
@@ -56,5 +57,8 @@ async fn pack_image_impl(
         return Err("Symlink image sources are not supported".to_string());
     }
 
+    // Errors while dropping the writer are ignored
+    image.flush().map_err(|e| e.to_string())?;
+
     Ok(())
 }
-- 
2.43.0


From d83d3f9c1e8816fe1147542702f49cbb68729add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 40/50] fix: desktop: report files that are cut off by the end
 of the image

---
 xdvdfs-desktop/src/unpack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 718b9eb..fb01017 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -89,9 +89,12 @@ async fn unpack_image_impl(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
-                let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                let size = dirent.node.dirent.data.size as u64;
+                let mut data = std::io::BufReader::new(data.take(size));
+                let copied = std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                if copied != size {
+                    return Err("Unexpected end of image".to_string());
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From 78e4ddb3678c07da72c6866631c959f8a325d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 41/50] fix: desktop: refuse entry names that lead out of the
 target when unpacking

---
 xdvdfs-desktop/src/unpack.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index fb01017..54bd293 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -1,9 +1,21 @@
 use std::io::Read;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use tauri::Window;
 use xdvdfs::write::img::ProgressInfo;
 
+/// Returns whether an entry name refers to a file directly inside of the
+/// directory it is extracted to. Names come from the image, and could otherwise
+/// refer to any path on the host
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    let is_normal = matches!(
+        components.next(),
+        Some(Component::Normal(component)) if component == name
+    );
+    is_normal && components.next().is_none()
+}
+
 #[tauri::command]
 pub async fn unpack_image(
     window: Window,
@@ -41,6 +53,17 @@ async fn unpack_image_impl(
         .await
         .map_err(|e| e.to_string())?;
 
+    for (dir, dirent) in &tree {
+        let file_name = dirent
+            .name_str::<std::io::Error>()
+            .map_err(|e| e.to_string())?;
+        if !file_name.is_empty() && !is_plain_file_name(&file_name) {
+            return Err(format!(
+                "Entry {dir}/{file_name} has a name that cannot be extracted"
+            ));
+        }
+    }
+
     window
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
         .expect("should be able to send event");
-- 
2.43.0


From 8c19e06b6f87560b51d7fdf035836fc5aed39f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 42/50] fix: desktop: write compressed images to the chosen
 directory

---
 xdvdfs-desktop/src/compress.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index e01f858..33f7103 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -16,7 +16,9 @@ pub enum CisoProgressInfo {
     Finished,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    directory: PathBuf,
+}
 
 type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
@@ -31,7 +33,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
+        let file = std::fs::File::create(self.directory.join(name))?;
         let bf: BufFile = std::io::BufWriter::new(file);
         Ok(bf)
     }
@@ -58,8 +60,6 @@ async fn compress_image_impl(
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, dest_path);
-
     let progress_callback = |pi: ProgressInfo| {
         window
             .emit("progress_callback", pi)
@@ -91,6 +91,24 @@ async fn compress_image_impl(
     };
 
     let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
+
+    // The destination is a directory, in which the output is named after the source
+    let mut name = source_path
+        .file_name()
+        .ok_or("Failed to get file name from source path".to_string())?
+        .to_owned();
+    if meta.is_dir() {
+        name.push(".cso");
+    }
+
+    let name = PathBuf::from(name);
+    if name.with_extension("1.cso").file_name().is_none() {
+        return Err("Source path does not have a name for the output".to_string());
+    }
+
+    let directory = dest_path;
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { directory }, name);
+
     if meta.is_dir() {
         let mut fs = write::fs::StdFilesystem::create(&source_path);
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
-- 
2.43.0


From bb6fc784466e43fdf45083668c24ff2be45ffb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 43/50] fix: desktop: report a failure to write the end of a
 compressed image

---
 xdvdfs-desktop/src/compress.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 33f7103..ae2e83d 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -20,7 +20,6 @@ struct SplitStdFs {
     directory: PathBuf,
 }
 
-type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -31,14 +30,17 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(self.directory.join(name))?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs {
+    // Output is not buffered, as every write comes with a seek, and errors while
+    // dropping a buffer are ignored
+    async fn create_file(
+        &mut self,
+        name: &std::ffi::OsStr,
+    ) -> Result<std::fs::File, std::io::Error> {
+        std::fs::File::create(self.directory.join(name))
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: std::fs::File) {}
 }
 
 #[tauri::command]
-- 
2.43.0


From 3143c83aa35623f67c28a232de5895f13213ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 44/50] fix: desktop: refuse an output that is the source or
 inside of it

---
 xdvdfs-desktop/src/compress.rs |  5 +++++
 xdvdfs-desktop/src/pack.rs     | 28 +++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index ae2e83d..77913a2 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -4,6 +4,7 @@ use tauri::Window;
 
 use maybe_async::maybe_async;
 
+use crate::pack::is_contained;
 use xdvdfs::{
     blockdev,
     write::{self, img::ProgressInfo},
@@ -94,6 +95,10 @@ async fn compress_image_impl(
 
     let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
 
+    if is_contained(&dest_path, &source_path).map_err(|e| e.to_string())? {
+        return Err("Destination path is the source path, or contained by it".to_string());
+    }
+
     // The destination is a directory, in which the output is named after the source
     let mut name = source_path
         .file_name()
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index aeacd72..580d690 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,7 +1,29 @@
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use tauri::Window;
 
+/// Returns the path with links resolved as far as possible
+/// If the path does not exist, its parent directory is resolved instead
+pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
+    }
+
+    let path = std::path::absolute(path)?;
+    match (path.parent(), path.file_name()) {
+        (Some(parent), Some(name)) => match std::fs::canonicalize(parent) {
+            Ok(parent) => Ok(parent.join(name)),
+            Err(_) => Ok(path),
+        },
+        _ => Ok(path),
+    }
+}
+
+/// Returns whether a file is the given source, or would be created inside of it
+pub fn is_contained(path: &Path, source: &Path) -> std::io::Result<bool> {
+    Ok(absolute_path(path)?.starts_with(absolute_path(source)?))
+}
+
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
     pack_image_impl(window, source_path, dest_path).await.err()
@@ -15,6 +37,10 @@ async fn pack_image_impl(
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
+    if is_contained(&dest_path, &source_path).map_err(|e| e.to_string())? {
+        return Err("Destination path is the source path, or contained by it".to_string());
+    }
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
-- 
2.43.0


From 957f6a12e12c0802fd7b21ca0a88512a4d72c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 45/50] fix: compress: report a file that lost data since it
 was listed

---
 xdvdfs-core/src/write/fs/sector_linear.rs | 22 ++++++++++++++++++----
 xdvdfs-core/src/write/fs/stdfs.rs         |  4 ++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index a21aae9..5add5e3 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -17,6 +17,9 @@ pub enum SectorLinearBlockContents {
 #[derive(Clone, Debug, Default)]
 pub struct SectorLinearBlockDevice {
     contents: alloc::collections::BTreeMap<u64, SectorLinearBlockContents>,
+
+    /// Number of bytes in sectors which a file does not fill
+    partial: alloc::collections::BTreeMap<u64, u64>,
 }
 
 pub struct SectorLinearBlockFilesystem<'a, F: ?Sized> {
@@ -141,6 +144,11 @@ where
             }
         }
 
+        let last_bytes = size % layout::SECTOR_SIZE as u64;
+        if last_bytes > 0 {
+            dest.partial.insert(sector + sector_span - 1, last_bytes);
+        }
+
         Ok(size)
     }
 }
@@ -195,19 +203,25 @@ where
                 buf.copy_from_slice(data.as_slice());
             }
             SectorLinearBlockContents::File(path, sector_idx) => {
+                // The last sector of a file may be partially filled
+                let size = self
+                    .linear
+                    .partial
+                    .get(&(sector as u64))
+                    .copied()
+                    .unwrap_or(sector_size as u64);
                 let bytes_read = self
                     .fs
                     .fs
                     .copy_file_in(
                         path,
-                        &mut buf,
+                        &mut buf[0..(size as usize)],
                         sector_size as u64 * sector_idx,
                         0,
-                        sector_size as u64,
+                        size,
                     )
                     .await?;
-                // The last sector of a file may be partially filled
-                assert!(bytes_read <= sector_size as u64);
+                assert_eq!(bytes_read, size);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 18ed611..3cf1f78 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -168,8 +168,8 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = read_until_full(&mut file, dest)?;
-        dest[bytes_read..].fill(0);
+        // A file that ends early has changed since it was listed
+        std::io::Read::read_exact(&mut file, dest)?;
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 4bd8572c6131fb116a65643160110cc03b406701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 46/50] fix: web: report failures to list the source or to open
 or close the output

---
 xdvdfs-web/src/fs/ciso.rs     | 24 ++++++++++++++++++++----
 xdvdfs-web/src/fs/mod.rs      | 19 +++++++++++--------
 xdvdfs-web/src/ops/browser.rs | 16 +++++++++-------
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/xdvdfs-web/src/fs/ciso.rs b/xdvdfs-web/src/fs/ciso.rs
index b42c8e9..56910ba 100644
--- a/xdvdfs-web/src/fs/ciso.rs
+++ b/xdvdfs-web/src/fs/ciso.rs
@@ -1,4 +1,8 @@
 use std::ffi::OsStr;
+use std::sync::{
+    atomic::{AtomicBool, Ordering},
+    Arc,
+};
 
 use async_trait::async_trait;
 use ciso::{split::SplitFilesystem, write::AsyncWriter};
@@ -8,11 +12,22 @@ use super::{FSWriteWrapper, FileSystemDirectoryHandle};
 
 pub struct CisoOutputDirectory {
     dir: FileSystemDirectoryHandle,
+
+    /// Set when a file could not be closed, which the
+    /// SplitFilesystem interface does not allow to report
+    close_failed: Arc<AtomicBool>,
 }
 
 impl CisoOutputDirectory {
     pub fn new(dir: FileSystemDirectoryHandle) -> Self {
-        Self { dir }
+        Self {
+            dir,
+            close_failed: Arc::default(),
+        }
+    }
+
+    pub fn close_failed(&self) -> Arc<AtomicBool> {
+        self.close_failed.clone()
     }
 }
 
@@ -25,12 +40,13 @@ impl SplitFilesystem<String, FSWriteWrapper> for CisoOutputDirectory {
             .create_file(name.to_owned())
             .await
             .map_err(|_| "Failed to create file")?;
-        let file = FSWriteWrapper::new(&file).await;
-        Ok(file)
+        FSWriteWrapper::new(&file).await
     }
 
     async fn close(&mut self, f: FSWriteWrapper) {
-        f.close().await;
+        if f.close().await.is_err() {
+            self.close_failed.store(true, Ordering::Relaxed);
+        }
     }
 }
 
diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index da06c30..8dfd86f 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -21,13 +21,16 @@ unsafe impl Send for FSWriteWrapper {}
 unsafe impl Sync for FSWriteWrapper {}
 
 impl FSWriteWrapper {
-    pub async fn new(fh: &FileSystemFileHandle) -> Self {
-        let stream = fh.writable_stream().await.unwrap();
-        Self { stream, len: 0 }
+    pub async fn new(fh: &FileSystemFileHandle) -> Result<Self, String> {
+        let stream = fh.writable_stream().await?;
+        Ok(Self { stream, len: 0 })
     }
 
-    pub async fn close(self) {
-        UnsafeJSFuture::from(self.stream.close()).await.unwrap();
+    pub async fn close(self) -> Result<(), String> {
+        UnsafeJSFuture::from(self.stream.close())
+            .await
+            .map_err(|_| "Failed to close file")?;
+        Ok(())
     }
 }
 
@@ -259,14 +262,14 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
 }
 
 impl WebFileSystem {
-    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Self {
+    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Result<Self, String> {
         let mut root = FSTree {
             subtree: BTreeMap::new(),
             handle: util::HandleType::Directory(root_handle),
         };
 
-        root.populate().await.unwrap();
-        Self(root)
+        root.populate().await?;
+        Ok(Self(root))
     }
 
     fn walk(&self, path: &PathVec) -> Option<&FSTree> {
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 6ce0341..9990822 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -1,4 +1,4 @@
-use std::{fmt::Display, path::PathBuf};
+use std::{fmt::Display, path::PathBuf, sync::atomic::Ordering};
 
 use async_trait::async_trait;
 use xdvdfs::{
@@ -28,16 +28,14 @@ async fn pack_image_impl<T: Display, V: Display>(
     use crate::packing::{ImageCreationState, WorkflowState};
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::PackingImage));
-    let mut dest = fs::FSWriteWrapper::new(&dest).await;
+    let mut dest = fs::FSWriteWrapper::new(&dest).await?;
 
     xdvdfs::write::img::create_xdvdfs_image(fs, &mut dest, |pi| progress_callback.emit(pi))
         .await
         .map_err(|e| e.to_string())?;
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
-    dest.close().await;
-
-    Ok(())
+    dest.close().await
 }
 
 async fn compress_image_impl<
@@ -65,6 +63,7 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Compressing);
 
     let output = crate::fs::ciso::CisoOutputDirectory::new(dest);
+    let close_failed = output.close_failed();
     let mut output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
     let mut input = xdvdfs::write::fs::CisoSectorInput::new(slbd, slbfs);
     ciso::write::write_ciso_image(&mut input, &mut output, |pi| {
@@ -86,6 +85,9 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
 
     output.close().await;
+    if close_failed.load(Ordering::Relaxed) {
+        return Err(String::from("Failed to close file"));
+    }
 
     Ok(())
 }
@@ -100,7 +102,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
     ) -> Result<(), String> {
         match src {
             PickerResult::DirectoryHandle(dh) => {
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 pack_image_impl(&mut fs, dest, progress_callback, state_change_callback).await
             }
             PickerResult::FileHandle(fh) => {
@@ -196,7 +198,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
         match src {
             PickerResult::DirectoryHandle(dh) => {
                 let name = dh.name();
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 compress_image_impl(
                     &mut fs,
                     name,
-- 
2.43.0


From 5ed2202665139c35ceda0a303760b966c188e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 47/50] fix: web: report a file that lost data since it was
 listed

---
 xdvdfs-web/src/fs/mod.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index 8dfd86f..e83fd9f 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -198,7 +198,9 @@ impl xdvdfs::write::fs::FilesystemCopier<FSWriteWrapper> for WebFileSystem {
                 .map_err(|_| "Failed to slice file handle")
             })
             .map(|blob| (blob.size() as u64, dest.stream.write_blob(blob)))?;
-        assert_eq!(file_size, size);
+        if file_size != size {
+            return Err(String::from("File is shorter than expected"));
+        }
 
         UnsafeJSFuture::from(write_promise)
             .await
@@ -222,7 +224,8 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
         size: u64,
     ) -> Result<u64, String> {
         let src_node = self.walk(src).ok_or("Failed to find src")?;
-        let size = core::cmp::min(size, dest.len() as u64);
+        let output_offset = output_offset as usize;
+        let size = core::cmp::min(size, (dest.len() - output_offset) as u64);
         let util::HandleType::File(ref src_fh) = src_node.handle else {
             return Err(String::from("Not a file"));
         };
@@ -232,8 +235,6 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
             .await
             .map_err(|_| "Failed to get file from handle")
             .and_then(|file| {
-                let file_size = file.size() as u64;
-                let size = core::cmp::min(file_size, size);
                 file.slice_with_f64_and_f64_and_content_type(
                     input_offset as f64,
                     input_offset as f64 + size as f64,
@@ -248,16 +249,13 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
             .map_err(|_| "failed to obtain array buffer")?;
         let slice_buf = js_sys::Uint8Array::new(&slice_buf);
 
-        // Now that we have the slice, readjust expected copy size
-        let output_offset = output_offset as usize;
-        let size = core::cmp::min(dest.len() - output_offset, slice_buf.byte_length() as usize);
-        slice_buf.copy_to(&mut dest[output_offset..(output_offset + size)]);
-
-        if size != dest.len() - output_offset {
-            dest[(output_offset + size)..].fill(0);
+        // A file that ends early has changed since it was listed
+        if slice_buf.byte_length() as u64 != size {
+            return Err(String::from("File is shorter than expected"));
         }
 
-        Ok(dest.len() as u64)
+        slice_buf.copy_to(&mut dest[output_offset..(output_offset + size as usize)]);
+        Ok(size)
     }
 }
 
-- 
2.43.0


From 60de3bc4a922af2cae849df2782301e66d6f91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 48/50] fix: web: report files that are cut off by the end of
 the image

---
 xdvdfs-web/src/ops/browser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 9990822..520cc61 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -170,6 +170,10 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .await
                     .map_err(|_| "Failed to obtain array buffer")?;
                 let data = js_sys::Uint8Array::new(&data);
+                if data.byte_length() != node.node.dirent.data.size {
+                    return Err(String::from("Unexpected end of image"));
+                }
+
                 let writeable_stream = file.writable_stream().await?;
                 wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
                     .await
-- 
2.43.0


From 83eacf4fd486d8bd2c70b8972960c329ebcf9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 49/50] fix: web: empty existing files when an empty file is
 unpacked over them

---
 xdvdfs-web/src/ops/browser.rs | 46 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 520cc61..8d1da49 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -153,31 +153,31 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .create_file(file_name.clone())
                     .await
                     .map_err(|_| "failed to create file")?;
-                if node.node.dirent.data.size == 0 {
-                    continue;
-                }
-
-                let offset = node.node.dirent.data.offset::<String>(0)? as f64;
-                let size = node.node.dirent.data.size as f64;
-                let data = src_file
-                    .slice_with_f64_and_f64_and_content_type(
-                        img_offset + offset,
-                        img_offset + offset + size,
-                        "application/octet-stream",
-                    )
-                    .map_err(|_| "Failed to slice")?;
-                let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
-                    .await
-                    .map_err(|_| "Failed to obtain array buffer")?;
-                let data = js_sys::Uint8Array::new(&data);
-                if data.byte_length() != node.node.dirent.data.size {
-                    return Err(String::from("Unexpected end of image"));
+                let writeable_stream = file.writable_stream().await?;
+                if node.node.dirent.data.size != 0 {
+                    let offset = node.node.dirent.data.offset::<String>(0)? as f64;
+                    let size = node.node.dirent.data.size as f64;
+                    let data = src_file
+                        .slice_with_f64_and_f64_and_content_type(
+                            img_offset + offset,
+                            img_offset + offset + size,
+                            "application/octet-stream",
+                        )
+                        .map_err(|_| "Failed to slice")?;
+                    let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
+                        .await
+                        .map_err(|_| "Failed to obtain array buffer")?;
+                    let data = js_sys::Uint8Array::new(&data);
+                    if data.byte_length() != node.node.dirent.data.size {
+                        return Err(String::from("Unexpected end of image"));
+                    }
+
+                    wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
+                        .await
+                        .map_err(|_| "Failed to write file")?;
                 }
 
-                let writeable_stream = file.writable_stream().await?;
-                wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
-                    .await
-                    .map_err(|_| "Failed to write file")?;
+                // An empty file also replaces what was there
                 wasm_bindgen_futures::JsFuture::from(writeable_stream.close())
                     .await
                     .map_err(|_| "Failed to flush file")?;
-- 
2.43.0


From 41b9f128e5164b98915f25428ce66f1def65cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 50/50] fix: web: name compressed images after the whole name
 of the source directory

---
 xdvdfs-web/src/ops/browser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 8d1da49..f05d4f3 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -51,6 +51,11 @@ async fn compress_image_impl<
     state_change_callback: &yew::Callback<crate::compress::WorkflowState>,
 ) -> Result<(), String> {
     use crate::compress::{ImageCreationState, WorkflowState};
+    let name = PathBuf::from(name);
+    if name.with_extension("1.cso").file_name().is_none() {
+        return Err(String::from("Source does not have a name for the output"));
+    }
+
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::PackingImage));
 
     let mut slbd = xdvdfs::write::fs::SectorLinearBlockDevice::default();
@@ -64,7 +69,7 @@ async fn compress_image_impl<
 
     let output = crate::fs::ciso::CisoOutputDirectory::new(dest);
     let close_failed = output.close_failed();
-    let mut output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
+    let mut output = ciso::split::SplitOutput::new(output, name);
     let mut input = xdvdfs::write::fs::CisoSectorInput::new(slbd, slbfs);
     ciso::write::write_ciso_image(&mut input, &mut output, |pi| {
         let pi = match pi {
@@ -201,7 +206,8 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
     ) -> Result<(), String> {
         match src {
             PickerResult::DirectoryHandle(dh) => {
-                let name = dh.name();
+                // The extension is replaced by that of the output
+                let name = dh.name() + ".cso";
                 let mut fs = fs::WebFileSystem::new(dh).await?;
                 compress_image_impl(
                     &mut fs,
-- 
2.43.0

