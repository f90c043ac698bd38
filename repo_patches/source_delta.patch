From 39c5ca731490cb7fd5d10916f83edfd934238b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:48 +0000
Subject: [PATCH 01/54] fix: match tag filters by character so that non-ASCII
 text does not panic

---
 src/ringhopper/src/tag/tree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..0fd5c97 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -84,7 +84,7 @@ impl TagFilter {
             let group_len = group_as_string.len();
             let filter_len = filter.len();
             let possible_dot = filter_len.wrapping_sub(group_len + 1);
-            if filter_len > group_len && filter.chars().nth(possible_dot) == Some('.') && filter.ends_with(group_as_string) {
+            if filter_len > group_len && filter.as_bytes().get(possible_dot) == Some(&b'.') && filter.ends_with(group_as_string) {
                 filter = &filter[..possible_dot];
             }
         }
@@ -136,7 +136,7 @@ impl TagFilter {
         let group_len = group_as_string.len();
         let filter_len = path.len();
         let possible_dot = filter_len.wrapping_sub(group_len + 1);
-        if filter_len > group_len && path.chars().nth(possible_dot) == Some('.') && path.ends_with(group_as_string) {
+        if filter_len > group_len && path.as_bytes().get(possible_dot) == Some(&b'.') && path.ends_with(group_as_string) {
             &path[..possible_dot]
         }
         else {
@@ -256,9 +256,9 @@ impl TagFilter {
 
             let what_first = what_first.unwrap();
 
-            filter = &filter[1..];
+            filter = &filter[filter_first.len_utf8()..];
             if filter_first != '*' {
-                what = &what[1..];
+                what = &what[what_first.len_utf8()..];
             }
 
             if filter_first == '?' || filter_first == what_first {
@@ -268,11 +268,11 @@ impl TagFilter {
                 if filter.is_empty() {
                     return true
                 }
-                while !what.is_empty() {
+                while let Some(c) = what.chars().next() {
                     if Self::filter_passes_raw(filter, what) {
                         return true
                     }
-                    what = &what[1..];
+                    what = &what[c.len_utf8()..];
                 }
                 return false
             }
-- 
2.43.0


From 4e294be09b6c87a19ec2a8300426e3c802220cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 02/54] fix: check that a reflexive fits in the tag file before
 allocating its items

---
 src/ringhopper-primitives/src/primitive/data.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..0927dde 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -596,13 +596,15 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let count = c_primitive.count as usize;
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
+        let mut item_offset = *extra_data_cursor;
+
+        // Check this before allocating anything, as the count is not to be trusted.
+        *extra_data_cursor = fits(total_length, item_offset, data.len())?;
+
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
         };
 
-        let mut item_offset = *extra_data_cursor;
-        *extra_data_cursor = (item_offset).add_overflow_checked(total_length)?;
-
         for _ in 0..count {
             let struct_end = item_offset + item_size;
             result.items.push(T::read_from_tag_file(data, item_offset, struct_end, extra_data_cursor)?);
-- 
2.43.0


From 7327ef99a03501a19455ac3cbe72fcbadae6725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 03/54] fix: give access to reflexives as DynamicReflexive

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 0927dde..7138225 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -859,6 +859,10 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
         DynamicTagDataType::Reflexive
     }
 
+    fn as_reflexive_mut(&mut self) -> Option<&mut dyn DynamicReflexive> {
+        Some(self as &mut dyn DynamicReflexive)
+    }
+
     fn as_array(&self) -> Option<&dyn DynamicTagDataArray> {
         Some(self as &dyn DynamicTagDataArray)
     }
-- 
2.43.0


From ef8dfd21eb6ebad2317413fff5b868a9990d1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 04/54] fix: return None for out-of-range indices of dynamic
 arrays

---
 src/ringhopper-primitives/src/primitive/array.rs | 4 ++--
 src/ringhopper-primitives/src/primitive/data.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/array.rs b/src/ringhopper-primitives/src/primitive/array.rs
index c30c063..c2b7173 100644
--- a/src/ringhopper-primitives/src/primitive/array.rs
+++ b/src/ringhopper-primitives/src/primitive/array.rs
@@ -240,11 +240,11 @@ impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> SimpleTagData fo
 
 impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> DynamicTagDataArray for [T; U] {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self[index])
+        self.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self[index])
+        self.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 7138225..9336434 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -874,11 +874,11 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
 
 impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagDataArray for Reflexive<T> {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self.items[index])
+        self.items.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self.items[index])
+        self.items.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 64d8016732830710b7f6333107a6aa00606c40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 05/54] fix: find the last tag group by its name

---
 src/ringhopper-primitives/src/primitive/group.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..c4e102e 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -215,7 +215,8 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
+        // The last one, <unset>, is not in order and does not correspond to a group.
+        ALL_GROUPS[..ALL_GROUPS.len() - 1].binary_search_by(|probe| probe.0.cmp(str))
             .map(|n| ALL_GROUPS[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
-- 
2.43.0


From 575bb199b660d1a4162e00d3b9a0b452bb64d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 06/54] fix: list items of overlaid tags directories only once

---
 src/ringhopper/src/tag/tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 0fd5c97..c0fe7b3 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,5 @@
 use std::borrow::Cow;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use crc64::crc64;
@@ -716,9 +716,9 @@ impl TagTree for VirtualTagsDirectory {
             }
         }
 
-        result.dedup_by(|a, b| {
-            a.item_type == b.item_type && a.tag_group == b.tag_group && a.path == b.path
-        });
+        // The same item may be found in any of the directories, so duplicates need not be adjacent.
+        let mut found = HashSet::new();
+        result.retain(|item| found.insert((item.tag_group, item.path.clone())));
 
         if !success {
             return None
-- 
2.43.0


From 1a9a27b3e4395da62af0296db759d26586725d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 07/54] fix: leave files without a valid tag path out of the
 tag tree

---
 src/ringhopper/src/tag/tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index c0fe7b3..757412e 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -692,6 +692,14 @@ impl TagTree for VirtualTagsDirectory {
                     if !is_dir {
                         let extension = path.rfind('.')?;
                         let tag_group = TagGroup::from_str(&path[extension + 1..]).ok()?;
+
+                        // Leave out files that can't be opened as a tag because their name isn't a valid tag path or
+                        // because the tag path refers to another file.
+                        let native_path = TagPath::new(&path[..extension], tag_group).ok()?.to_native_path();
+                        if native_path != path && std::fs::canonicalize(dir_path.join(native_path)).ok()? != std::fs::canonicalize(f.path()).ok()? {
+                            return None
+                        }
+
                         path.truncate(extension);
                         Some(TagTreeItem::new(
                             TagTreeItemType::Tag,
-- 
2.43.0


From 23aaa747b9e6aa4a500dc5c5c1c827950dc37e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 08/54] fix: don't take a directory for a tag

---
 src/ringhopper/src/tag/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 757412e..0c94469 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -645,7 +645,7 @@ impl VirtualTagsDirectory {
         for index in 0..self.directories.len() {
             let directory = &self.directories[index];
             let path_to_test = directory.join(&native_path);
-            if !path_to_test.exists() {
+            if !path_to_test.is_file() {
                 continue
             }
             return Some((index, path_to_test));
-- 
2.43.0


From bfa936f70f454e75e02e3a39f75b7bab4a871b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 09/54] fix: refuse to write a tag to a tags directory that
 does not exist

---
 src/ringhopper/src/tag/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 0c94469..f22c060 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -617,7 +617,7 @@ impl VirtualTagsDirectory {
             },
             None => match &self.cow_output {
                 Some(_) => PathBuf::new(), // will be overwritten in file_to_write_to
-                None => self.directories[directory].join(path.to_native_path())
+                None => self.directories.get(directory).ok_or(Error::InvalidTagsDirectory)?.join(path.to_native_path())
             }
         };
 
-- 
2.43.0


From 67edc0bd1de59fcbe89ba304599a5c98be0ceab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 10/54] fix: evict tags from the cache even if they are still
 in use

---
 src/ringhopper/src/tag/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index f22c060..12db6a7 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -482,7 +482,10 @@ impl<T: TagTree> CachingTagTree<T> {
             .lock()
             .unwrap()
             .remove(path)
-            .map(|tag| Arc::into_inner(tag).unwrap().into_inner().unwrap())
+            .map(|tag| match Arc::try_unwrap(tag) {
+                Ok(tag) => tag.into_inner().unwrap(),
+                Err(shared) => shared.lock().unwrap().clone_inner()
+            })
     }
 
     /// Write the tag to the delegate.
-- 
2.43.0


From e54425bcd585f4a69e6760427dbb6b7d5363d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 11/54] fix: report unreadable tags when looking for reverse
 dependencies

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..a2a6c60 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 558a4045a41310c6a7f36ca740ceca5666b3acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 12/54] fix: write no data for references with an empty path so
 that the tag can be read again

---
 src/ringhopper-primitives/src/primitive/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 7645310..dfb5522 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -500,8 +500,11 @@ impl TagData for TagReference {
                 }
             },
             TagReference::Set(path) => {
-                data.extend_from_slice(path.path.as_bytes());
-                data.push(0x00);
+                // A path with no length has no data (not even a null terminator)
+                if !path.path.is_empty() {
+                    data.extend_from_slice(path.path.as_bytes());
+                    data.push(0x00);
+                }
                 TagReferenceC {
                     tag_group: path.group,
                     path_length: path.path.len().into_u32()?,
-- 
2.43.0


From 1cef1ef94e85c4163b9f5b4cdeb5efcb83deb671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 13/54] fix: don't rename tags to an empty path

---
 src/ringhopper/src/tag/dependency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index a2a6c60..0c2ab87 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -215,6 +215,9 @@ pub fn refactor_paths_for_tag_tree(
                 }
             };
             let replacement = TagPath::new(&replacement, i.group()).map_err(|e| (e, HashMap::default()))?;
+            if replacement.path().is_empty() {
+                return Err((Error::InvalidTagPath, HashMap::default()));
+            }
             if no_move && !all_tags.contains(&replacement) {
                 return Err((Error::TagNotFound(replacement), HashMap::default()));
             }
-- 
2.43.0


From 02e5a8cc31292ff8731ddb51060739eb680c3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 14/54] fix: report tags that can't be opened when renaming
 tags

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 0c2ab87..54fad9c 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -343,7 +343,7 @@ pub fn refactor_paths_for_tag_tree(
                 Ok(n) => n,
                 Err(e) => {
                     let mut l = context.results.lock().unwrap();
-                    l.get_mut(tag).unwrap().errors.push(format!("Can't open {tag}: {e}"));
+                    l.entry(tag.to_owned()).or_default().errors.push(format!("Can't open {tag}: {e}"));
                     continue;
                 }
             };
-- 
2.43.0


From 7fb15885ed72f7a42d84de90bbecf1b3a672c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 15/54] fix: move tags back into directories that were removed
 when renaming them

---
 src/ringhopper/src/tag/dependency.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 54fad9c..a0c7638 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -282,8 +282,13 @@ pub fn refactor_paths_for_tag_tree(
         }
 
         if undo_history.len() != tags_to_rename.len() {
-            for i in undo_history {
-                std::fs::rename(&i.1, &i.0).unwrap();
+            for (old, new) in undo_history.into_iter().rev() {
+                // the directory may have been removed when it became empty
+                let undone = std::fs::create_dir_all(old.parent().unwrap())
+                    .and_then(|_| std::fs::rename(&new, &old));
+                if let Err(e) = undone {
+                    return Err((Error::Other(format!("Filesystem errors occurred, and {} can't be moved back to {}: {e}", new.display(), old.display())), results));
+                }
             }
             return Err((Error::Other("Filesystem errors occurred".to_owned()), results));
         }
-- 
2.43.0


From 3f5b5b26410c74be0badf0050a855145b8f0543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 16/54] fix: retarget each reference only once when renaming
 tags

---
 src/ringhopper/src/tag/dependency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index a0c7638..9b6f998 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -360,6 +360,7 @@ pub fn refactor_paths_for_tag_tree(
                     if r.path() == Some(old_path) {
                         *r = TagReference::Set(new_path.to_owned());
                         changes_made = true;
+                        break;
                     }
                 }
             });
-- 
2.43.0


From 0d68013e60ef000ca192d261204d9717e9972c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 17/54] fix: verify tags even if other threads are reading them

---
 src/ringhopper/src/tag/verify.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 52880e9..36511e5 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -134,20 +134,20 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
 
     /// Verify the tag
     ///
-    /// If `skip_if_locked` is true, then this will return `None` if the tag is currently open in another thread.
+    /// If `skip_if_reserved` is true, then this will return `None` if the tag is being verified or was verified already.
     ///
     /// Otherwise, return `true` if the tag is OK, and `false` if not.
-    fn verify_tag(&self, path: &TagPath, skip_if_locked: bool) -> Option<bool> {
+    fn verify_tag(&self, path: &TagPath, skip_if_reserved: bool) -> Option<bool> {
         let mut result = TagResult::default();
         match self.tag_tree.open_tag_shared(&path) {
             Ok(tag) => {
-                // We want to acquire the tag ASAP in case something tries to read this tag before we verify it
-                let lock = if skip_if_locked {
-                    tag.try_lock().ok()?
+                // Another thread already has this one (or is done with it)
+                if skip_if_reserved && self.results.lock().unwrap().contains_key(path) {
+                    return None
                 }
-                else {
-                    tag.lock().unwrap()
-                };
+
+                // We want to acquire the tag ASAP in case something tries to read this tag before we verify it
+                let lock = tag.lock().unwrap();
 
                 match self.reserve_tag_to_verify(path) {
                     VerifyStatus::Unverified => (),
-- 
2.43.0


From 7d1ed1ab6a1ed514fdf1cbe37453b0fc9b535c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 18/54] fix: keep tags locked until their verification result
 is stored

---
 src/ringhopper/src/tag/verify.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 36511e5..701a8ee 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -187,20 +187,25 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
                     TagGroup::ScenarioStructureBSP => verify_scenario_structure_bsp(tag, path, self, &mut result),
                     _ => ()
                 }
+
+                // The tag has to stay locked until its result is known to everything that waits for it
+                Some(self.store_result(path, result))
             },
             Err(e) => {
                 if self.reserve_tag_to_verify(path) != VerifyStatus::Unverified {
                     return Some(false);
                 }
-                result.errors.push(format!("Failed to open tag: {e}"))
+                result.errors.push(format!("Failed to open tag: {e}"));
+                Some(self.store_result(path, result))
             }
         }
+    }
 
+    /// Store the result, returning `true` if the tag is OK
+    fn store_result(&self, path: &TagPath, result: TagResult) -> bool {
         let is_ok = result.is_ok();
-        let path = path.to_owned();
-        self.results.lock().unwrap().insert(path, result);
-
-        Some(is_ok)
+        self.results.lock().unwrap().insert(path.to_owned(), result);
+        is_ok
     }
 
     fn open_tag_reference_maybe(&self, tag_reference: &TagReference, result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
-- 
2.43.0


From 4ed2048b09ef27b808d5da820fb86676fb3311e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 19/54] fix: detect loops of child HUDs without verifying a
 locked tag again

---
 src/ringhopper/src/tag/result.rs              |  3 ++-
 src/ringhopper/src/tag/verify.rs              | 15 +++++++++++-
 .../src/tag/verify/hud_interface.rs           | 23 ++++++++-----------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/ringhopper/src/tag/result.rs b/src/ringhopper/src/tag/result.rs
index aaee43c..4667876 100644
--- a/src/ringhopper/src/tag/result.rs
+++ b/src/ringhopper/src/tag/result.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
 use definitions::ScenarioType;
 use primitives::engine::Engine;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use crate::tag::tree::TagTree;
 
@@ -31,5 +31,6 @@ pub(crate) struct ScenarioContext<T: TagTree + Send + Sync> {
     pub scenario_type: ScenarioType,
     pub engine: &'static Engine,
     pub tag_tree: Arc<T>,
+    pub child_huds: HashMap<TagPath, TagReference>,
     pub results: Mutex<HashMap<TagPath, TagResult>>
 }
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 701a8ee..6e338b1 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -20,7 +20,7 @@ use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_engines::Engine;
-use ringhopper_structs::{Globals, Scenario, ScenarioType};
+use ringhopper_structs::{Globals, Scenario, ScenarioType, WeaponHUDInterface};
 use crate::tag::object::is_object;
 use crate::tag::result::*;
 use crate::tag::tree::TagTree;
@@ -81,6 +81,7 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         scenario_type: ScenarioType::Multiplayer,
         engine,
         tag_tree: Arc::new(tag_tree),
+        child_huds: HashMap::new(),
         results: Mutex::new(HashMap::new())
     };
 
@@ -88,6 +89,18 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         .map_err(|e| Error::Other(format!("Failed to query dependencies: {e}")))?;
     context.scenario_type = context.scenario.lock().unwrap().as_any().downcast_ref::<Scenario>().unwrap()._type;
 
+    // Note which HUDs are children of which before locking any of them; these can (incorrectly) form loops.
+    for i in &all_dependencies {
+        if i.group() != TagGroup::WeaponHUDInterface {
+            continue
+        }
+        if let Ok(tag) = context.tag_tree.open_tag_shared(i) {
+            if let Some(hud) = tag.lock().unwrap().as_any().downcast_ref::<WeaponHUDInterface>() {
+                context.child_huds.insert(i.to_owned(), hud.child_hud.to_owned());
+            }
+        }
+    }
+
     let mut v = Vec::with_capacity(all_dependencies.len());
     v.extend(all_dependencies.into_iter());
     let all_dependencies = Arc::new(v);
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index ededa66..f3ff4e0 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -149,21 +149,18 @@ fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String
 
 fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDInterface, path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let mut all_references = HashSet::new();
-    all_references.insert(path.to_owned());
-    let mut child_ref = base.child_hud.to_owned();
-    while let TagReference::Set(n) = &child_ref {
-        if all_references.contains(n) {
+    let mut child = base.child_hud.path();
+    while let Some(n) = child {
+        // If it leads back to this tag, then the next one must not be verified while this one is locked.
+        if n == path {
             result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
-            break
+            return
         }
-
-        child_ref = match context.open_tag_reference_maybe(&child_ref, result, None) {
-            Some(n) => {
-                let lock = n.lock().unwrap();
-                let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
-                child.child_hud.clone()
-            },
-            None => break // failed to load
+        if !all_references.insert(n) {
+            break
         }
+        child = context.child_huds.get(n).and_then(|c| c.path());
     }
+
+    context.open_tag_reference_maybe(&base.child_hud, result, None);
 }
-- 
2.43.0


From 4e4857da7ded92f2f51d96fde293550444d516d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 20/54] fix: don't follow references to disallowed groups when
 verifying tags

---
 src/ringhopper/src/tag/verify.rs              | 10 +++++++++-
 src/ringhopper/src/tag/verify/dependencies.rs | 16 +++++++++++-----
 src/ringhopper/src/tag/verify/object.rs       |  5 ++++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 6e338b1..6cbb14a 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -67,6 +67,9 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         let hud_globals_path = n.hud_globals
             .path()
             .ok_or_else(|| Error::InvalidTagData(format!("{globals_path} does not have HUD globals set for interface bitmaps #0")))?;
+        if hud_globals_path.group() != TagGroup::HUDGlobals {
+            return Err(Error::InvalidTagData(format!("{globals_path} has HUD globals set to {hud_globals_path} which is not a {} tag", TagGroup::HUDGlobals)))
+        }
         hud_globals_ref = tag_tree.open_tag_shared(hud_globals_path)?;
     }
     else {
@@ -174,7 +177,12 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
                 floats::check_bad_floats(tag, &mut result);
 
                 // TODO: Verify indices
-                verify_dependencies(tag, path, self, &mut result);
+                let references_allowed = verify_dependencies(tag, path, self, &mut result);
+
+                // References can't be followed if they are not to tags of the expected groups
+                if !references_allowed {
+                    return Some(self.store_result(path, result));
+                }
 
                 // Verify supergroups
                 if is_object(group) {
diff --git a/src/ringhopper/src/tag/verify/dependencies.rs b/src/ringhopper/src/tag/verify/dependencies.rs
index d5a8e7f..7bec7a4 100644
--- a/src/ringhopper/src/tag/verify/dependencies.rs
+++ b/src/ringhopper/src/tag/verify/dependencies.rs
@@ -5,13 +5,16 @@ use ringhopper_structs::group_supported_on_engine;
 use crate::tag::tree::TagTree;
 use super::{ScenarioContext, TagResult};
 
-pub fn verify_dependencies<T: TagTree + Send + Sync>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
+/// Verify the dependencies' groups, returning `false` if any reference is set to a group that the field does not allow.
+pub fn verify_dependencies<T: TagTree + Send + Sync>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) -> bool {
     fn iterate_dependencies_recursively<D: DynamicTagData + ?Sized, T: TagTree + Send + Sync>(
         data: &D,
         result: &mut TagResult,
         context: &ScenarioContext<T>,
         stack: &mut Vec<Cow<str>>
-    ) {
+    ) -> bool {
+        let mut all_allowed = true;
+
         for field_name in data.fields() {
             let make_stack_path = || if stack.is_empty() {
                 String::new()
@@ -44,6 +47,7 @@ pub fn verify_dependencies<T: TagTree + Send + Sync>(tag: &dyn PrimaryTagStructD
                     }
 
                     result.errors.push(format!("{stack_path}{field_name} references `{group}`, which is not allowed for this reference (allowed references are: {allowed_list})"));
+                    all_allowed = false;
                     continue
                 }
 
@@ -57,17 +61,19 @@ pub fn verify_dependencies<T: TagTree + Send + Sync>(tag: &dyn PrimaryTagStructD
                 for i in 0..arr.len() {
                     let item = arr.get_at_index(i).unwrap();
                     stack.push(Cow::Owned(format!("{field_name}[{i}]")));
-                    iterate_dependencies_recursively(item, result, context, stack);
+                    all_allowed &= iterate_dependencies_recursively(item, result, context, stack);
                     stack.pop();
                 }
             }
 
             stack.push(Cow::Borrowed(field_name));
-            iterate_dependencies_recursively(field, result, context, stack);
+            all_allowed &= iterate_dependencies_recursively(field, result, context, stack);
             stack.pop();
         }
+
+        all_allowed
     }
 
     let mut stack = Vec::with_capacity(16);
-    iterate_dependencies_recursively(tag, result, context, &mut stack);
+    iterate_dependencies_recursively(tag, result, context, &mut stack)
 }
diff --git a/src/ringhopper/src/tag/verify/object.rs b/src/ringhopper/src/tag/verify/object.rs
index b6a3c9c..44446c7 100644
--- a/src/ringhopper/src/tag/verify/object.rs
+++ b/src/ringhopper/src/tag/verify/object.rs
@@ -1,6 +1,6 @@
 use definitions::{Bitmap, Weapon, WeaponHUDInterface};
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagGroup, TagPath};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{GBXModel, HUDGlobals, Model, ModelAnimations, UnicodeStringList, WeaponHUDInterfaceCrosshairType};
 use crate::tag::object::downcast_base_object;
@@ -59,6 +59,9 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
     let hud_globals_lock = context.hud_globals.clone();
     let hud_globals = hud_globals_lock.lock().unwrap();
     let hud_globals = hud_globals.as_any().downcast_ref::<HUDGlobals>().unwrap();
+    if hud_globals.messaging_parameters.item_message_text.group() != TagGroup::UnicodeStringList {
+        return // the HUD globals tag gets the error
+    }
     if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
         let item_message_text = r.lock().unwrap();
         let index = object.hud_text_message_index;
-- 
2.43.0


From d00b1fb3f379be8169130bca58ad0a6670083b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 21/54] fix: don't report changes when changing references to
 the group they already have

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 9b6f998..b0a5d77 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -48,7 +48,7 @@ pub fn refactor_groups_for_block<T: TagTree>(data: &mut dyn DynamicTagData, from
     for_each_dependency_mut(data, access_read_only_fields, |allowed, dependency| {
         let allowed = allowed.contains(&to);
 
-        if !allowed || dependency.group() != from {
+        if !allowed || dependency.group() != from || from == to {
             return;
         }
 
-- 
2.43.0


From 214834981ad749fc74b6eab4267d4299dc607724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 22/54] fix: check IDs the right way around in
 ID::from_u32_checked

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 9336434..58daea6 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -135,10 +135,10 @@ impl ID {
     pub const fn from_u32_checked(id: u32) -> RinghopperResult<Self> {
         let id = Self::from_u32(id);
         if id.is_valid() {
-            Err(Error::InvalidID)
+            Ok(id)
         }
         else {
-            Ok(id)
+            Err(Error::InvalidID)
         }
     }
 
-- 
2.43.0


From 3599196fdd21d43834bb7e77356ea85c1f22b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 23/54] fix: compress very small negative values to 0 instead
 of -1

---
 src/ringhopper-primitives/src/primitive/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index ff741ee..cf57447 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -859,6 +859,10 @@ fn compress_float<const BITS: usize>(value: f64) -> u32 {
     let value = (positive * (max as f64)).round();
     let mut integer = value as u32;
     if is_negative {
+        // Values that round to zero can't be stored as negative, since the sign bit alone is -1.0
+        if integer == max {
+            return 0
+        }
         integer = integer | 1 << (BITS - 1);
     }
 
-- 
2.43.0


From 8f27460b5c8ae62c734248df902ca44e89ddf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 24/54] fix: report the stored size of planes, not their size
 in memory

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From e45666d2887751ffa9a44cf2be6ec11da9301422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 25/54] fix: strip default sound distances read from tags

---
 src/ringhopper/src/tag/default/sound.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/default/sound.rs b/src/ringhopper/src/tag/default/sound.rs
index 8ba5955..9f75fbb 100644
--- a/src/ringhopper/src/tag/default/sound.rs
+++ b/src/ringhopper/src/tag/default/sound.rs
@@ -21,9 +21,9 @@ fn set_or_unset_defaults_for_sound(tag: &mut dyn PrimaryTagStructDyn, undefault:
 
     let default = |value: &mut [&mut f64], default: &[f64]| {
         if undefault {
-            // Check for defaults
+            // Check for defaults (tags store single precision floats, so 0.9 read from a tag is not exactly 0.9)
             for (val, default) in value.iter().zip(default.iter()) {
-                if **val != *default {
+                if **val as f32 != *default as f32 {
                     return;
                 }
             }
-- 
2.43.0


From 837abdf18d3fc0698ea37a02ed89a3326b9b896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 26/54] fix: keep line breaks at the end of strings when
 writing unicode string list text

---
 src/ringhopper/src/tag/unicode_string_list.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 7c1eb49..1e96e47 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -191,9 +191,12 @@ impl UnicodeStringListFunctions for UnicodeStringList {
         data.extend_from_slice(0xFEFFu16.to_le_bytes().as_slice());
         for i in 0..self.string_count() {
             let string = self.strings.items[i].string.get_string().map_err(|_| UnicodeStringListError::InvalidStringData)?;
-            for line in string.lines() {
-                let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
-                data.extend(line_encoder);
+            if !string.is_empty() {
+                // Not lines(), as it ignores a line break at the end of the string.
+                for line in string.split("\r\n") {
+                    let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
+                    data.extend(line_encoder);
+                }
             }
             data.extend("###END-STRING###\r\n".encode_utf16().map(|b| b.to_le_bytes()).flatten());
         }
-- 
2.43.0


From 129acedda6704d298383655347e57b43450db889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 27/54] fix: carry correctly when rounding nudged floats to
 significant digits

---
 src/ringhopper/src/tag/nudge.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 7c8b79a..324d5e2 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -192,18 +192,24 @@ pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
     }
 
     // Do rounding here
+    let mut carry = round_up;
     if round_up {
-        for (byte, _) in ignore_dot_iter!(written[..sig_figs_end]).rev() {
+        for byte in written[..sig_figs_end].iter_mut().rev().filter(|b| **b != b'.') {
             if *byte == b'9' {
                 *byte = b'0';
             } else {
                 *byte += 1;
+                carry = false;
                 break;
             }
         }
     }
 
-    let fstr = std::str::from_utf8(&written).expect("should be utf-8");
+    let mut fstr = std::str::from_utf8(&written).expect("should be utf-8").to_owned();
+    if carry {
+        // every digit was a 9, so there is one more digit now
+        fstr.insert(0, '1');
+    }
     let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
     f * signum
 }
-- 
2.43.0


From 95613937123a6ca7818a6554073031c88fc1c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 28/54] fix: report a tag as nudged only if something changed

---
 src/ringhopper/src/tag/nudge.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 324d5e2..a73fad7 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -46,8 +46,9 @@ fn nudge_object(object: &mut Object) -> bool {
             continue
         }
 
+        let original_weights: Vec<f64> = cc.permutations.items.iter().map(|p| p.weight).collect();
         for p in &mut cc.permutations {
-            nudge(&mut p.weight, &mut result);
+            nudge(&mut p.weight, &mut false);
         }
 
         let mut all_same = true;
@@ -66,11 +67,12 @@ fn nudge_object(object: &mut Object) -> bool {
         }
 
         if all_same {
-            result = true;
             for p in &mut cc.permutations {
                 p.weight = 1.0;
             }
         }
+
+        result |= cc.permutations.items.iter().zip(original_weights).any(|(p, original)| was_changed(original, p.weight));
     }
     result
 }
@@ -132,12 +134,17 @@ fn nudge_light(a: &mut Light) -> bool {
 
 fn nudge(float: &mut f64, was_nudged_thus_far: &mut bool) {
     let fixed = fix_decimal_rounding(*float);
-    if fixed != *float {
+    if was_changed(*float, fixed) {
         *float = fixed;
         *was_nudged_thus_far |= true;
     }
 }
 
+// NaN stays NaN, so it is not a change even if it never equals itself
+fn was_changed(before: f64, after: f64) -> bool {
+    before != after && !(before.is_nan() && after.is_nan())
+}
+
 const MAX_SIG_FIGS: usize = 6;
 
 pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
-- 
2.43.0


From fbfbd3fae6d58e4aa1e0039b837c8a8be8b293b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 29/54] fix: convert sample rates from Hz back to sample rates

---
 src/ringhopper/src/tag/sound.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/sound.rs b/src/ringhopper/src/tag/sound.rs
index 9b340bd..d2e0140 100644
--- a/src/ringhopper/src/tag/sound.rs
+++ b/src/ringhopper/src/tag/sound.rs
@@ -166,8 +166,8 @@ pub fn sample_rate_to_u32(sample_rate: SoundSampleRate) -> u32 {
 /// Get a [`SoundChannelCount`] from its equivalent numerical value.
 pub fn sample_rate_from_u32(sample_rate: u32) -> Option<SoundSampleRate> {
     match sample_rate {
-        1 => Some(SoundSampleRate::_22050Hz),
-        2 => Some(SoundSampleRate::_44100Hz),
+        22050 => Some(SoundSampleRate::_22050Hz),
+        44100 => Some(SoundSampleRate::_44100Hz),
         _ => None
     }
 }
-- 
2.43.0


From 25408c307953840eaccdcab0480245d2abb743f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 30/54] fix: do not take NaN for an equal share when nudging
 change color weights

---
 src/ringhopper/src/tag/nudge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index a73fad7..fc1cc1a 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -60,7 +60,7 @@ fn nudge_object(object: &mut Object) -> bool {
             let weight = p.weight;
             let proportion = (weight * &permutation_ratio_inverse) - 1.0;
 
-            if p.weight < 0.0 || proportion.abs() > error {
+            if p.weight < 0.0 || proportion.is_nan() || proportion.abs() > error {
                 all_same = false;
                 break;
             }
-- 
2.43.0


From 2312e99cbb438bb71b77d77647c3415349aee66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 31/54] fix: check shader and centroid node indices of Xbox
 models, too

---
 src/ringhopper/src/tag/model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 916fbe4..e889fc9 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -218,6 +218,7 @@ impl ModelFunctions for Model {
         check_base_model(self)?;
         for geometry in &self.geometries {
             for part in &geometry.parts {
+                check_base_part(self, &part)?;
                 check_indices_for_part(self, &part)?;
                 if part.flags.zoner {
                     return Err(Error::InvalidTagData("corrupted model: zoner is set on a tag that does not support local nodes".to_string()))
-- 
2.43.0


From 38d19822dd8ca9bfdf1eb192015cd33ff1e6bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 32/54] fix: restore uncompressed vertices of parts with local
 nodes using the local nodes

---
 src/ringhopper/src/tag/model.rs | 40 ++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index e889fc9..b567db4 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -396,7 +396,45 @@ impl ModelFunctions for GBXModel {
     }
 
     fn fix_uncompressed_vertices(&mut self) -> bool {
-        fix_vertices!(self, restore_missing_uncompressed_vertices)
+        if !self.flags.parts_have_local_nodes {
+            return fix_vertices!(self, restore_missing_uncompressed_vertices)
+        }
+
+        // Compressed vertices refer to the nodes of the model, but uncompressed vertices refer to the local nodes of
+        // the part here.
+        let mut fixed = false;
+        for g in &mut self.geometries {
+            for p in &mut g.parts {
+                let part = &mut p.model_geometry_part;
+                if !restore_missing_uncompressed_vertices(part) {
+                    continue
+                }
+
+                let local_nodes = p.local_node_indices.get(..p.local_node_count as usize).unwrap_or(&[]);
+                let find_local_node = |node: Index| match node {
+                    Some(n) => local_nodes.iter().position(|l| *l as u16 == n).map(|l| Some(l as u16)),
+                    None => Some(None)
+                };
+
+                let mut all_found = true;
+                for v in &mut part.uncompressed_vertices {
+                    match (find_local_node(v.node0_index), find_local_node(v.node1_index)) {
+                        (Some(node0_index), Some(node1_index)) => {
+                            v.node0_index = node0_index;
+                            v.node1_index = node1_index;
+                        }
+                        _ => all_found = false
+                    }
+                }
+
+                // If a node is not among the local nodes, the vertices cannot be restored.
+                if !all_found {
+                    part.uncompressed_vertices.items.clear();
+                }
+                fixed |= all_found;
+            }
+        }
+        fixed
     }
 
     fn flip_lod_cutoffs(&mut self) {
-- 
2.43.0


From edbc99ac734cdff9a355a65937a9d14b27acf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 33/54] fix: do not compress vertices with node indices that do
 not fit

---
 src/ringhopper/src/tag/model.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index b567db4..9051437 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -120,6 +120,21 @@ macro_rules! fix_vertices {
     }};
 }
 
+// Bad node indices can be too high for a compressed vertex even if the model has few enough nodes.
+macro_rules! vertex_nodes_can_be_compressed {
+    ($model:expr) => {
+        $model
+            .geometries
+            .items
+            .iter()
+            .flat_map(|g| &g.parts.items)
+            .flat_map(|p| &p.get_model_part().uncompressed_vertices.items)
+            .flat_map(|v| [v.node0_index, v.node1_index])
+            .flatten()
+            .all(|n| (n as usize) < MAX_NODES_FOR_COMPRESSED_VERTICES)
+    };
+}
+
 #[allow(dead_code)]
 pub(crate) trait ModelPartGet {
     /// Get the base model part.
@@ -275,7 +290,7 @@ impl ModelFunctions for Model {
         flip_lod_cutoffs(&mut self.detail_cutoff)
     }
     fn supports_compressed_vertices(&mut self) -> bool {
-        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES
+        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES && vertex_nodes_can_be_compressed!(self)
     }
 }
 
@@ -442,7 +457,7 @@ impl ModelFunctions for GBXModel {
     }
 
     fn supports_compressed_vertices(&mut self) -> bool {
-        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES && !self.flags.parts_have_local_nodes
+        self.nodes.len() <= MAX_NODES_FOR_COMPRESSED_VERTICES && !self.flags.parts_have_local_nodes && vertex_nodes_can_be_compressed!(self)
     }
 }
 
-- 
2.43.0


From 6b6d6337235f055662014ed3a4c438dd4f2f1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 34/54] fix: look for bad floats in bounds and arrays, too

---
 src/ringhopper/src/tag/bludgeon/floats.rs | 9 ++++++++-
 src/ringhopper/src/tag/verify/floats.rs   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/bludgeon/floats.rs b/src/ringhopper/src/tag/bludgeon/floats.rs
index 8aba919..6feb123 100644
--- a/src/ringhopper/src/tag/bludgeon/floats.rs
+++ b/src/ringhopper/src/tag/bludgeon/floats.rs
@@ -89,7 +89,14 @@ pub fn fix_bad_floats(tag: &mut dyn PrimaryTagStructDyn) {
                 }
                 _ => return
             },
-            _ => return
+            _ => {
+                // the items of bounds and arrays
+                if let Some(array) = field.as_array_mut() {
+                    for i in 0..array.len() {
+                        check_field(array.get_at_index_mut(i).unwrap());
+                    }
+                }
+            }
         }
     }
 
diff --git a/src/ringhopper/src/tag/verify/floats.rs b/src/ringhopper/src/tag/verify/floats.rs
index f1940a3..3cedca6 100644
--- a/src/ringhopper/src/tag/verify/floats.rs
+++ b/src/ringhopper/src/tag/verify/floats.rs
@@ -89,7 +89,14 @@ pub fn check_bad_floats(tag: &dyn PrimaryTagStructDyn, result: &mut TagResult) {
                 }
                 _ => return
             },
-            _ => return
+            _ => {
+                // the items of bounds and arrays
+                if let Some(array) = field.as_array() {
+                    for i in 0..array.len() {
+                        check_field(array.get_at_index(i).unwrap(), result);
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From 5938fb0917d1580a71ebfd9a56ab4cd6e460b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 35/54] fix: report missing detail object collection palettes

---
 src/ringhopper/src/tag/verify/scenario_structure_bsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
index 6ffd795..c025a29 100644
--- a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
@@ -69,7 +69,7 @@ pub fn verify_scenario_structure_bsp<T: TagTree + Send + Sync + 'static>(tag: &d
                     .and_then(|r| r.path())
                     .and_then(|r| context.tag_tree.open_tag_shared(r).ok()) else {
                     let bit = 1 << bit_offset;
-                    if (complained_bitfield & bit) != 0 {
+                    if (complained_bitfield & bit) == 0 {
                         complained_bitfield |= bit;
                         result.errors.push(format!("Missing detail object collection palette #{bit_offset} in scenario tag"));
                     }
-- 
2.43.0


From 4460bc14dfca259d9b25078fbfb753582b86a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 36/54] fix: normalize vectors without a finite length to the
 unit vector

---
 src/ringhopper-primitives/src/primitive/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index cf57447..9123dc5 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -40,7 +40,7 @@ pub trait Vector: Sized + Copy + Clone {
     /// Normalize the vector into the given unit.
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
-        if magnitude_sq == 0.0 {
+        if magnitude_sq == 0.0 || !magnitude_sq.is_finite() {
             return Self::one();
         }
 
-- 
2.43.0


From d21fbb87ad058e63b7281e9fe510d3b04dde2ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 37/54] fix: look for data below the base address of a BSP in
 the tag data, too

---
 src/ringhopper-primitives/src/map.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 761deec..b7d4ec9 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -160,10 +160,9 @@ pub trait Map {
         size: usize
     ) -> Option<&[u8]> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let end = offset.checked_add(size)?;
-
-        let data = domain_start.get(offset..end);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..offset.checked_add(size)?));
         if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             self.get_data_at_address(address, &DomainType::TagData, size)
@@ -188,8 +187,9 @@ pub trait Map {
         domain: &DomainType
     ) -> Option<&str> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let data = domain_start.get(offset..);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..));
         let data = if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             return self.get_c_string_at_address(address, &DomainType::TagData)
-- 
2.43.0


From 2b7e15a3a0ff41f819c0154c2574c21301213e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 38/54] fix: read enumerations that are shifted by one in cache
 files

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index 1925a35..fee7061 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -506,7 +506,7 @@ impl ToTokenStream for Struct {
                     let field_name = &fields_with_names[i];
                     let field_type = &fields_with_types[i];
 
-                    let read_map_code = if self.flags.shifted_by_one {
+                    let read_map_code = if self.fields[i].flags.shifted_by_one {
                         "(u16::read_from_map(map, _pos, domain_type)?.wrapping_add(1)).try_into()?".to_owned()
                     }
                     else if field_type == "BSPVertexData" {
-- 
2.43.0


From a2de5a9160c115a2deed2e10ec2d48fa4380af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 39/54] fix: do not allocate memory for counts in cache files
 that cannot be right

---
 src/ringhopper-primitives/src/primitive/data.rs | 10 ++++++++--
 src/ringhopper/src/map/resource.rs              |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 58daea6..a3d1469 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
@@ -641,7 +641,13 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let mut address = c_primitive.address.into();
 
         // Make sure we can add all of these
-        count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
+        let total_size = count.mul_overflow_checked(item_size)?;
+        total_size.add_overflow_checked(address)?;
+
+        // Make sure that these are actually present before allocating memory for them
+        if count > 0 && map.get_data_at_address(address, domain_type, total_size).is_none() {
+            return Err(Error::MapDataOutOfBounds(format!("can't read {count} elements of {item_size} bytes at 0x{address:08X} from {domain_type:?}")))
+        }
 
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..f3f7fff 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,7 +26,7 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
+        let mut resources = Vec::new();
         let resource_len = ResourceMapResource::simple_size();
 
         for i in 0..array_len {
-- 
2.43.0


From 34fed3004b44138f9bff3a59852d0d5809278c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 40/54] fix: refuse maps without a scenario tag

---
 src/ringhopper/src/map/gearbox.rs | 2 +-
 src/ringhopper/src/map/util.rs    | 6 ++++--
 src/ringhopper/src/map/xbox.rs    | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..3fbbbd6 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -95,7 +95,7 @@ impl GearboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, map.scenario_tag, &map.tags)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index 8fc94e4..3006abb 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -10,8 +10,10 @@ use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
 
 /// Get all scenario and BSP data for a map.
-pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
-    let scenario = map.get_scenario_tag();
+pub fn load_scenario_info<M: Map>(map: &M, scenario_tag: ID, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
+    let scenario = map
+        .get_tag_by_id(scenario_tag)
+        .ok_or_else(|| Error::MapParseFailure("the map has no scenario tag; likely protected/corrupted map".to_owned()))?;
     if scenario.tag_path.group() != TagGroup::Scenario {
         return Err(Error::MapParseFailure(format!("scenario tag is marked as a {} tag; likely protected/corrupted map", scenario.tag_path.group())))
     }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..620aefd 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -68,7 +68,7 @@ impl XboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, map.scenario_tag, &map.tags)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
-- 
2.43.0


From 793d059e49ee7bfa52234d863a40cbbeb0935995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 41/54] fix: refuse maps with BSPs that are too short for their
 headers

---
 src/ringhopper/src/map/gearbox.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 3fbbbd6..69e7210 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -161,8 +161,7 @@ impl GearboxCacheFile {
         self.bsp_vertex_data.reserve(bsp_count);
 
         for bsp_index in 0..bsp_count {
-            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
-- 
2.43.0


From 4e409201f29e8098791a3fe2573acd4011c93613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 42/54] fix: refuse compressed maps that claim to be smaller
 than their header

---
 src/ringhopper/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..d21de7a 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -193,6 +193,10 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
+    if header.decompressed_size < compressed_start {
+        return Err(Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than header".to_owned()))
+    }
+
     let mut result = Vec::with_capacity(header.decompressed_size);
     result.extend_from_slice(&data[..compressed_start]);
     result.resize(header.decompressed_size, 0);
-- 
2.43.0


From e6a1fbd1eecb9287426a3e0a1e8b18e9c01ffc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 43/54] fix: don't look for offsets in tags that are not detail
 object collections

---
 src/ringhopper/src/map/extract.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index ccbce26..23b8da3 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -243,13 +243,16 @@ pub fn fix_scenario_structure_bsp_tag<M: Map>(bsp: &mut ScenarioStructureBSP, sc
             continue // tool.exe will just not apply an offset
         };
 
-        let offset = map.extract_tag(&tag.tag_path)?
-            .as_any()
-            .downcast_ref::<DetailObjectCollection>()
-            .expect("we just verified this existed!")
-            .global_z_offset * 0.125;
+        if tag.tag_path.group() != TagGroup::DetailObjectCollection {
+            continue // not something that has an offset (and it might refer back to this tag)
+        }
+
+        let collection = map.extract_tag(&tag.tag_path)?;
+        let Some(collection) = collection.as_any().downcast_ref::<DetailObjectCollection>() else {
+            continue
+        };
 
-        global_z_offset[i] = offset;
+        global_z_offset[i] = collection.global_z_offset * 0.125;
     }
 
     for obj in &mut bsp.detail_objects {
-- 
2.43.0


From 90381286f4c52e60c4ce05b988300a1b51fb0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 44/54] fix: don't reserve memory for bitmap sizes that have
 not been checked

---
 src/ringhopper/src/map/extract.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index 23b8da3..67260e2 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -376,19 +376,12 @@ pub fn fix_bitmap_tag<M: Map>(tag: &mut Bitmap, map: &M) -> RinghopperResult<()>
         }
     }
 
-    let total_bitmap_data = tag
-        .bitmap_data
-        .items
-        .iter()
-        .map(|b| Ok(b.pixel_data_size as usize))
-        .reduce(|a, b| {
-            a.and_then(|size| b.and_then(|size2| size.add_overflow_checked(size2)))
-        });
-    let new_data = match total_bitmap_data {
-        Some(n) => n?,
-        None => return Ok(())
-    };
-    let mut processed_data: Vec<u8> = Vec::with_capacity(new_data);
+    if tag.bitmap_data.items.is_empty() {
+        return Ok(())
+    }
+
+    // The sizes aren't verified yet, so don't reserve memory based on them.
+    let mut processed_data: Vec<u8> = Vec::new();
 
     let engine = map.get_engine();
     let engine_name = engine.name;
-- 
2.43.0


From 2ca2953588f80740945f68129e4dedca43d4eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 45/54] fix: refuse scripts whose nodes are not trees, or too
 deep ones, before decompiling them

---
 src/ringhopper/src/tag/scenario.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 0058455..d0638e0 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -440,16 +440,21 @@ fn get_string_data_for_node<'a>(scenario: &'a Scenario, node: &ScenarioScriptNod
     }
 }
 
+/// Maximum depth of function calls.
+///
+/// Decompiling is recursive, and the scripts are indented, so this has to be limited.
+const MAX_SCRIPT_DEPTH: usize = 512;
+
 fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>) -> RinghopperResult<()> {
     todo.clear();
 
     let node_count = extracted_nodes.len();
-    let iteration_limit = node_count + 32;
+    let mut visited = vec![false; node_count];
     todo.push((node.index(), 0));
 
     while let Some((index, depth)) = todo.pop() {
-        if depth > iteration_limit {
-            return Err(Error::InvalidTagData(format!("Depth exceeds actual node count ({node_count}); infinite recursion detected!")))
+        if depth > MAX_SCRIPT_DEPTH {
+            return Err(Error::InvalidTagData(format!("Depth exceeds the maximum depth ({MAX_SCRIPT_DEPTH})")))
         }
 
         let index = match index {
@@ -461,13 +466,15 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
         }
 
         // Loop until we are at the end of the block, adding function calls to the stack
-        let mut iterated_nodes = 0usize;
-        let mut node = &extracted_nodes[index];
+        let mut index = index;
         loop {
-            iterated_nodes += 1;
-            if iterated_nodes > iteration_limit {
-                return Err(Error::InvalidTagData(format!("Block length exceeds actual node count ({node_count}); infinite loop detected!")));
+            let node = &extracted_nodes[index];
+
+            // Otherwise, this goes on forever, or the same nodes are decompiled over and over again
+            if visited[index] {
+                return Err(Error::InvalidTagData("Node referenced more than once; infinite loop or recursion detected!".to_owned()));
             }
+            visited[index] = true;
 
             if !node.flags.is_primitive {
                 let id: ID = node.data.into();
@@ -475,14 +482,13 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
             }
 
             let next_node_index = node.next_node.index();
-            let index = match next_node_index {
+            index = match next_node_index {
                 Some(n) => n as usize,
                 None => break
             };
             if index >= node_count {
                 return Err(Error::InvalidTagData("Out-of-bounds node index detected mid-block!".to_owned()));
             }
-            node = &extracted_nodes[index];
         }
     }
 
-- 
2.43.0


From 71d97dbc02b2d43e3c70f686febb83b3cf05eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 46/54] fix: quote everything in decompiled scripts that needs
 it

---
 src/ringhopper/src/tag/scenario.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index d0638e0..b46dd9e 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -94,7 +94,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
         tokens.push(Cow::Borrowed("("));
         tokens.push(Cow::Borrowed("global"));
         tokens.push(Cow::Borrowed(i._type.to_str()));
-        tokens.push(Cow::Borrowed(i.name.as_str()));
+        tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         decompile_script_block_to_tokens(scenario, &all_nodes, i.initialization_expression_index, &mut tokens, false)?;
         tokens.push(Cow::Borrowed(")"));
     }
@@ -111,7 +111,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
 
         if !i.parameters.items.is_empty() {
             tokens.push(Cow::Borrowed("("));
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
             for p in &i.parameters {
                 tokens.push(Cow::Borrowed("("));
                 tokens.push(Cow::Borrowed(p.return_type.to_str()));
@@ -121,7 +121,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
             tokens.push(Cow::Borrowed(")"));
         }
         else {
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         }
 
         decompile_script_block_to_tokens(scenario, &all_nodes, i.root_expression_index, &mut tokens, true)?;
@@ -374,7 +374,7 @@ fn sanitize(mut string: Cow<str>) -> Cow<str> {
     if string.contains("\"") {
         string = Cow::Owned(string.replace("\"", "\\\""));
     }
-    if string.contains("(") || string.contains(")") || string.contains(" ") {
+    if string.contains(|c: char| matches!(c, '(' | ')' | ';' | '"') || c.is_whitespace() || c.is_control()) {
         string = Cow::Owned(format!("\"{string}\""));
     }
     string
-- 
2.43.0


From cbd304443b7b1babffd39a2c4163ef675240304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 47/54] fix: refuse TIFF images whose channels are stored
 separately

---
 src/ringhopper/src/data/bitmap/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ringhopper/src/data/bitmap/parse.rs b/src/ringhopper/src/data/bitmap/parse.rs
index 4badfe8..dc40d73 100644
--- a/src/ringhopper/src/data/bitmap/parse.rs
+++ b/src/ringhopper/src/data/bitmap/parse.rs
@@ -144,6 +144,12 @@ impl Image {
             ColorType::RGBA(_) => (|pixels| ColorARGBIntBytes { alpha: pixels[3], red: pixels[0], green: pixels[1], blue: pixels[2] }.into(), 4),
             _ => unreachable!()
         };
+
+        // If the channels are stored separately, only the first one is read
+        if raw_pixels_vec.len() != width * height * bytes_per_pixel {
+            return Err(Error::Other("only interleaved channels supported for tiff".to_string()))
+        }
+
         for i in (0..raw_pixels_vec.len()).step_by(bytes_per_pixel) {
             pixels.push(conversion_function(&raw_pixels_vec[i..]))
         }
-- 
2.43.0


From b193c5b81f8f823627523bed9103303885eb9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 48/54] fix: stop at the first missing sequence, refuse
 non-ASCII padding colours

---
 src/ringhopper/src/data/bitmap/plate.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index befccc9..e9d81ca 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -77,6 +77,12 @@ impl<'a> Iterator for LooseColorPlateIterator<'a> {
                 return Some(n);
             }
             None => {
+                // The current sequence is only empty here if it does not exist.
+                if self.bitmap == 0 {
+                    self.done = true;
+                    return None;
+                }
+
                 advance_sequence(self)?;
                 let next = format_path(self.directory, self.sequence, self.bitmap);
                 if next.is_none() {
@@ -102,11 +108,10 @@ fn parse_padding_file(padding_metadata: &Path) -> RinghopperResult<ColorARGBInt>
         return Err(Error::Other(format!("{padding_metadata:?} is empty")));
     }
 
-    let (octothorpe, color) = padding_color.split_at(1);
-
-    if octothorpe != "#" || (color.len() != 6 && color.len() != 3) {
-        return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")));
-    }
+    let color = match padding_color.strip_prefix('#') {
+        Some(color) if color.is_ascii() && (color.len() == 6 || color.len() == 3) => color,
+        _ => return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")))
+    };
 
     let colors: [char; 6] = if color.len() == 3 {
         let mut colors_iterator = color.chars();
-- 
2.43.0


From db7383b357cb6ec6a50f78887eed8bd184159863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 49/54] fix: refuse script source names that lead elsewhere or
 are used twice when recovering

---
 src/ringhopper/src/tag/recover.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index 281e890..c4d6316 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use definitions::*;
 use primitives::error::Error::InvalidTagData;
 use primitives::error::RinghopperResult;
@@ -48,14 +48,21 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
         return Ok(None)
     }
 
-    // TODO: Verify that there are no duplicate script source files, and that all source files have lowercase names.
+    // TODO: Verify that all source files have lowercase names.
 
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
     for i in &scenario.source_files.items {
+        let file_name = format!("{}.hsc", i.name);
+
+        // Names that lead to another directory must not be followed.
+        if Path::new(&file_name).file_name() != Some(file_name.as_ref()) {
+            return Err(InvalidTagData(format!("script source file name {} is not a file name", i.name)))
+        }
+
         let path = match i.name.as_str() {
-            "global_scripts" => "global_scripts.hsc".into(),
-            name => base_scripts_dir.clone().join(format!("{name}.hsc"))
+            "global_scripts" => file_name.into(),
+            _ => base_scripts_dir.join(file_name)
         };
 
         // Trim to null terminator if present
@@ -64,7 +71,9 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
 
         // Finally add the script
         let data = data[..end].to_owned();
-        fs.insert(path, data);
+        if fs.insert(path, data).is_some() {
+            return Err(InvalidTagData(format!("more than one script source file is named {}", i.name)))
+        }
     }
 
     Ok(Some(fs))
-- 
2.43.0


From ae2e0e92147ff5842a2ed3f1a3333877eae2509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 50/54] fix: start no more threads than there are tags to
 process

---
 src/invader/src/threading.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invader/src/threading.rs b/src/invader/src/threading.rs
index 2e27d90..e63ce3b 100644
--- a/src/invader/src/threading.rs
+++ b/src/invader/src/threading.rs
@@ -83,7 +83,7 @@ pub fn do_with_threads<T: TagTree + Send + 'static + Clone, U: Clone + Send + 's
     else {
         let filter = TagFilter::new(user_filter, group);
         let tags: VecDeque<TagPath> = context.tags_directory.get_all_tags_with_filter(Some(&filter)).into();
-        match context.args.get_jobs() {
+        match context.args.get_jobs().min(tags.len()) {
             1 => {
                 for path in tags {
                     process_tags(&mut context, &success, &failure, &ignored, &total, &path, &mut user_data, display_mode, &logger, function);
-- 
2.43.0


From c491e97f6f769708cbd8ad29ab86f8f6d855e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 51/54] fix: start no more threads than there are tags when
 fixing references

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index b0a5d77..323e20c 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -373,7 +373,7 @@ pub fn refactor_paths_for_tag_tree(
     }
 
     let mut t = Vec::new();
-    for _ in 0..threads.get() {
+    for _ in 0..threads.get().min(context.all_tags_post_rename.len()) {
         let c = context.clone();
         t.push(std::thread::spawn(move || thread_some_shit(c)));
     }
-- 
2.43.0


From 80298bd2648e1d943693764672de63aaeb26fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 52/54] fix: refuse tags and data folders that are not
 directories

---
 src/invader/src/cli.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/invader/src/cli.rs b/src/invader/src/cli.rs
index 311b2c1..eb5b984 100644
--- a/src/invader/src/cli.rs
+++ b/src/invader/src/cli.rs
@@ -485,6 +485,9 @@ impl CommandLineParser {
                     if !path.exists() {
                         return Err(format!("Path `{}` does not exist for --{}", path.display(), n.name))
                     }
+                    if !path.is_dir() {
+                        return Err(format!("Path `{}` is not a directory for --{}", path.display(), n.name))
+                    }
                 }
             }
             Ok(())
-- 
2.43.0


From 0dfa8b125a91303465170423a42cd7ab9fc17dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 53/54] fix: bludgeon files with wrong checksums as intended

---
 src/invader/src/verb/bludgeon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invader/src/verb/bludgeon.rs b/src/invader/src/verb/bludgeon.rs
index ac90286..ed2eb51 100644
--- a/src/invader/src/verb/bludgeon.rs
+++ b/src/invader/src/verb/bludgeon.rs
@@ -17,7 +17,7 @@ pub fn bludgeon(args: Args, description: &'static str) -> Result<(), String> {
     let mut directory = parser.get_virtual_tags_directory();
     directory.set_strictness(ParseStrictness::Relaxed);
 
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(directory, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let mut tag = context.tags_directory.open_tag_copy(&path)?;
 
         match bludgeon::bludgeon_tag(tag.as_mut(), path) {
-- 
2.43.0


From 0c2475ce0d27b26c0fe47cb81c0b0f652a6f34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 54/54] fix: start no more threads than there are tags to
 verify

---
 src/ringhopper/src/tag/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 6cbb14a..08b9c0e 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -109,7 +109,7 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
     let all_dependencies = Arc::new(v);
 
     let context = Arc::new(context);
-    let thread_count = threads.get();
+    let thread_count = threads.get().min(all_dependencies.len());
     let mut threads = Vec::with_capacity(thread_count);
     for _ in 0..thread_count {
         let all_dependencies = all_dependencies.clone();
-- 
2.43.0

