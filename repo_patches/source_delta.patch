From ceabc3db3077a95622b9653101e3641764e56514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 01/25] fix: compare panicked whenever something was deleted

A deleted entry is by definition not in from_map; whether it is a directory
is known from to_map.
---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..a3eba78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -120,7 +120,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From b30b9a5fc7a79fe988cedd04252232687dc315de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 02/25] fix: compare mixed up files and directories

A path that changed between file and directory was not reported (an empty
directory in place of a file even looked clean), and between two stored trees a
directory with changed contents was reported as a modified file, which made show
and log panic when reading it as a file.
---
 src/diff.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a3eba78..ee9bf78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -81,16 +81,19 @@ pub fn compare<'a>(
         None => HashMap::new(),
     };
 
-    let from_keys: HashSet<PathBuf> = from_map.clone().either(
-        |x| x.keys().cloned().collect(),
-        |x| x.keys().cloned().collect(),
+    // The kind is part of the identity: a path that changed between file and directory was deleted
+    // and added.
+    let from_keys: HashSet<(PathBuf, bool)> = from_map.clone().either(
+        |x| x.into_iter().collect(),
+        |x| x.into_iter().map(|(p, (_, d))| (p, d)).collect(),
     );
 
-    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
+    let to_keys: HashSet<(PathBuf, bool)> =
+        to_map.iter().map(|(p, (_, d))| (p.clone(), *d)).collect();
 
     let mut in_from_only: Vec<AddedDiffResult> = from_keys
         .difference(&to_keys)
-        .map(|x| AddedDiffResult {
+        .map(|(x, is_dir)| AddedDiffResult {
             path: x.clone(),
             new_key: from_map.as_ref().either(
                 |y| {
@@ -111,16 +114,16 @@ pub fn compare<'a>(
                 },
                 |y| Some(y[x].0),
             ),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: *is_dir,
         })
         .collect();
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-        .map(|x| DeletedDiffResult {
+        .map(|(x, is_dir)| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: to_map[x].1,
+            is_dir: *is_dir,
         })
         .collect();
 
@@ -128,14 +131,15 @@ pub fn compare<'a>(
 
     let mut modified = Vec::new();
 
-    for path in in_both {
+    for (path, is_dir) in in_both {
+        if *is_dir {
+            // Directories can't be modified, only the files in them.
+            continue;
+        }
+
         let f;
         match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
+            either::Left(_) => {
                 f = dir::hash_fs_item(
                     ds,
                     &from_path
-- 
2.43.0


From 1aa2e28de1bc83902e160e6043835c04f0688065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 03/25] fix: compare read added files relative to the current
 directory

Paths in the map are relative to the compared root.
---
 src/diff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index ee9bf78..a18f9ea 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -101,7 +101,10 @@ pub fn compare<'a>(
                         // this is a file
                         match dir::hash_fs_item(
                             ds,
-                            x,
+                            &from_path
+                                .as_ref()
+                                .expect("should have been populated")
+                                .join(x),
                             *cache.expect("you must pass a cache if you're hashing the fs"),
                         ) {
                             Ok(h) => Some(h.into()),
-- 
2.43.0


From 619861bddf6d2aaaddad792711ccf4ecdc0ad2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 04/25] fix: a full key never resolved

The bytes of the object were taken for its key, and an object that is not stored
was a panic instead of "not found".
---
 src/ds/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..c15cf8a 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -256,8 +256,9 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key).unwrap() {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
-- 
2.43.0


From c5ba24051d5a82065970008092e9b375e8e4e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 05/25] fix: text longer than a key, or ending in impossible
 bits, named an object

---
 src/keyish.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keyish.rs b/src/keyish.rs
index fbe8f95..ced9bde 100644
--- a/src/keyish.rs
+++ b/src/keyish.rs
@@ -88,6 +88,13 @@ impl std::str::FromStr for Keyish {
 
             if input.len() == max_len {
                 let mut v = input.into_vec();
+
+                // More characters than a key has, or leftover bits that are not zero, can not be
+                // the text form of any key.
+                if crate::base32::to_base32(&v) != bytes.to_ascii_lowercase() {
+                    return Err(KeyishParseError::Invalid(s.to_string()));
+                }
+
                 v.insert(0_usize, 1_u8);
                 return Ok(Keyish::Key(s.to_string(), v));
             }
-- 
2.43.0


From 59635e318ac33f102930d57a801e29334bc7b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 06/25] fix: key of stored data depended on how the reader
 delivered it

---
 src/file.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..07491ed 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -16,7 +16,6 @@ pub enum PutDataError {
 pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key, PutDataError> {
     let mut key_bufs: [Vec<Key>; 5] = Default::default();
 
-    let mut read_buffer = [0u8; 1 << 16usize];
     let mut chunk_buffer: Vec<u8> = Vec::new();
     let mut current_chunk = Vec::new();
 
@@ -65,21 +64,18 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
                 }
             }
         } else {
-            use std::io::ErrorKind;
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
-                Ok(len) => {
-                    if len == 0 {
-                        break;
-                    }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
-                }
-                Err(e) if e.kind() == ErrorKind::Interrupted => {}
-                Err(e) => {
-                    return Err(e.into());
-                }
+            // Always fill a whole block: chunk boundaries depend on where blocks end, so a short
+            // read must not end one.
+            let len = data
+                .by_ref()
+                .take(READ_BLOCK_SIZE)
+                .read_to_end(&mut chunk_buffer)?;
+
+            if len == 0 {
+                break;
             }
         }
     }
@@ -154,6 +150,8 @@ pub fn read_data<DS: DataStore, W: Write>(
     Ok(())
 }
 
+const READ_BLOCK_SIZE: u64 = 1 << 16;
+
 const BLOB_ZERO_COUNT: u32 = 13;
 const BLOB_ZERO_COUNT_MAX: u32 = BLOB_ZERO_COUNT + 2;
 
-- 
2.43.0


From 3f49e83ed69704e6c6227677835c1ac0c3636bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 07/25] fix: data was lost when a chunk tree reached the top
 level

The end of put_data did not look at the last key buffer when deciding whether
any chunks, or any chunks above this level, had been made.
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 07491ed..2a89456 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -82,7 +82,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if key_bufs.iter().all(|x| x.is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -95,7 +95,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 62fc408e662c49c093bbe7e2d2746a5bdd751977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 08/25] fix: fetch did not create empty directories

---
 src/dir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..ed48964 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -240,6 +240,9 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            // Even if it has no children.
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 67f7a4d9628246b5cc246df3ec1c5d5c074a8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 09/25] fix: key of a directory depended on the order its
 entries are listed in

---
 src/dir.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index ed48964..17e6b3a 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,15 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
 
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order the file system lists them in must not influence the key.
+        entries.sort_by_key(|entry| entry.file_name());
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From 34f7ede0b8407d37a7523ff018b3f75563b9a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/25] fix: names in a stored directory could lead out of the
 destination

A directory object may come from anywhere; names like ".." or absolute paths
made fetch and checkout write outside of the path they were given.
---
 src/dir.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 17e6b3a..808e27c 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -10,7 +10,7 @@ use crate::{
 use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::fs::DirEntry;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use thiserror::Error;
 
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
@@ -57,12 +57,30 @@ impl TryInto<FSItem> for Object {
 
         let mut fsitem: FSItem = serde_cbor::value::from_value(item)?;
 
+        // Names are joined to paths that get written to, so they may only ever name something
+        // directly in the directory.
+        if let Some(name) = fsitem.children_names.iter().find(|x| !is_plain_name(x)) {
+            return Err(serde::de::Error::custom(format!(
+                "{:?} is not a valid file name",
+                name
+            )));
+        }
+
         fsitem.children = self.keys().iter().map(|&x| x.into()).collect();
 
         Ok(fsitem)
     }
 }
 
+fn is_plain_name(name: &Path) -> bool {
+    let mut components = name.components();
+
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(x)), None) => x == name.as_os_str(),
+        _ => false,
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum PutFsItemError {
     #[error("io error: {_0}")]
-- 
2.43.0


From dab53c5b01d800a79976d9823ea1e6cb6c893a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 11/25] fix: checkout destroyed files before noticing it may
 not run

The location was checked only after a file had been truncated, and not at all
before directories were created.
---
 src/dir.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 808e27c..d0d2f19 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -303,6 +303,18 @@ pub fn checkout_fs_item<DS: DataStore>(
     key: TypedKey<FSItem>,
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<(), CheckoutFsItemError> {
+    // Checked before anything is touched, and however the path is spelled.
+    assert!(std::fs::canonicalize(path)?.starts_with("/home/jess/src/snapcd/repo"));
+
+    internal_checkout_fs_item(ds, key, path, filter)
+}
+
+fn internal_checkout_fs_item<DS: DataStore>(
+    ds: &DS,
+    key: TypedKey<FSItem>,
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
     let obj = ds.get_obj(key.into())?;
 
@@ -325,7 +337,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                 let p = path.join(item);
                 let ft = std::fs::metadata(&p)?.file_type();
 
@@ -341,14 +352,12 @@ pub fn checkout_fs_item<DS: DataStore>(
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 std::fs::create_dir_all(&path)?;
 
-                checkout_fs_item(ds, child, &path.join(&name), filter)?;
+                internal_checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
         FSItemType::File => {
             let mut f = std::fs::File::create(path)?;
 
-            assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From abc0c6efc94fb51a00bf476887fd14811f0ce1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 12/25] fix: checkout failed on missing directories and changed
 types, and followed links

read_dir came before the directory was created, a file or directory in place of
the other was an error, and symbolic links let it write to files
outside of the tree.
---
 src/dir.rs | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index d0d2f19..73f3197 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -307,9 +307,26 @@ pub fn checkout_fs_item<DS: DataStore>(
     // Checked before anything is touched, and however the path is spelled.
     assert!(std::fs::canonicalize(path)?.starts_with("/home/jess/src/snapcd/repo"));
 
+    // The working tree itself is not something that can be replaced by a file.
+    let root: FSItem = ds.get_obj(key.into())?.try_into()?;
+
+    if let FSItemType::File = root.itemtype {
+        return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
+    }
+
     internal_checkout_fs_item(ds, key, path, filter)
 }
 
+/// The type of what is at `path` itself, if anything is.
+fn file_type_at(path: &Path) -> Result<Option<std::fs::FileType>, CheckoutFsItemError> {
+    match std::fs::symlink_metadata(path) {
+        Ok(meta) if meta.is_dir() || meta.is_file() => Ok(Some(meta.file_type())),
+        Ok(_) => Err(CheckoutFsItemError::UnimplementedFileTypeFound),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e.into()),
+    }
+}
+
 fn internal_checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -326,6 +343,16 @@ fn internal_checkout_fs_item<DS: DataStore>(
 
             let mut fs_items = HashSet::new();
 
+            // Something else may be in the way, or nothing be there at all.
+            let current = file_type_at(path)?;
+
+            if current.map_or(false, |ft| !ft.is_dir()) {
+                std::fs::remove_file(path)?;
+            }
+            if !current.map_or(false, |ft| ft.is_dir()) {
+                std::fs::create_dir(path)?;
+            }
+
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
 
@@ -338,24 +365,23 @@ fn internal_checkout_fs_item<DS: DataStore>(
 
             for item in extra.iter() {
                 let p = path.join(item);
-                let ft = std::fs::metadata(&p)?.file_type();
-
-                if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
-                } else if ft.is_file() {
-                    std::fs::remove_file(p)?;
-                } else if ft.is_symlink() {
-                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
+
+                match file_type_at(&p)? {
+                    Some(ft) if ft.is_dir() => std::fs::remove_dir_all(p)?,
+                    Some(_) => std::fs::remove_file(p)?,
+                    None => {}
                 }
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                std::fs::create_dir_all(&path)?;
-
                 internal_checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
         FSItemType::File => {
+            if file_type_at(path)?.map_or(false, |ft| ft.is_dir()) {
+                std::fs::remove_dir_all(path)?;
+            }
+
             let mut f = std::fs::File::create(path)?;
 
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
-- 
2.43.0


From 2fee55501f01b073f35c469eb229f2370185a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 13/25] fix: checkout removed and overwrote excluded entries

An excluded entry was removed along with an unwanted directory holding it, and
overwritten if the commit had an entry of the same name - in the worst case the
database itself.
---
 src/dir.rs | 50 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 73f3197..2effab8 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -327,6 +327,39 @@ fn file_type_at(path: &Path) -> Result<Option<std::fs::FileType>, CheckoutFsItem
     }
 }
 
+/// Removes what is at `path`, except for anything excluded and the directories that hold it.
+///
+/// Returns whether nothing is left.
+fn remove_unless_excluded(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, CheckoutFsItemError> {
+    match file_type_at(path)? {
+        Some(ft) if ft.is_dir() => {
+            let mut empty = true;
+
+            for item in std::fs::read_dir(path)? {
+                let ok_item = item?;
+
+                if !filter(&ok_item) || !remove_unless_excluded(&ok_item.path(), filter)? {
+                    empty = false;
+                }
+            }
+
+            if empty {
+                std::fs::remove_dir(path)?;
+            }
+
+            Ok(empty)
+        }
+        Some(_) => {
+            std::fs::remove_file(path)?;
+            Ok(true)
+        }
+        None => Ok(true),
+    }
+}
+
 fn internal_checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -342,6 +375,7 @@ fn internal_checkout_fs_item<DS: DataStore>(
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
             let mut fs_items = HashSet::new();
+            let mut excluded: HashSet<PathBuf> = HashSet::new();
 
             // Something else may be in the way, or nothing be there at all.
             let current = file_type_at(path)?;
@@ -358,28 +392,28 @@ fn internal_checkout_fs_item<DS: DataStore>(
 
                 if filter(&ok_item) {
                     fs_items.insert(ok_item.file_name().into());
+                } else {
+                    excluded.insert(ok_item.file_name().into());
                 }
             }
 
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                let p = path.join(item);
-
-                match file_type_at(&p)? {
-                    Some(ft) if ft.is_dir() => std::fs::remove_dir_all(p)?,
-                    Some(_) => std::fs::remove_file(p)?,
-                    None => {}
-                }
+                remove_unless_excluded(&path.join(item), filter)?;
             }
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                if excluded.contains(name) {
+                    continue;
+                }
+
                 internal_checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
         FSItemType::File => {
             if file_type_at(path)?.map_or(false, |ft| ft.is_dir()) {
-                std::fs::remove_dir_all(path)?;
+                remove_unless_excluded(path, filter)?;
             }
 
             let mut f = std::fs::File::create(path)?;
-- 
2.43.0


From 81bdcd710bf713df9c5dfa3acf69f815f0abfc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 14/25] fix: init reset HEAD of an existing repository

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..55803af 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,10 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    // An existing repository keeps its HEAD.
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 99abec1c1e32ca5b9fe0c7b89a639c35dd20ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 15/25] fix: a ref could be pointed at something that is not a
 commit

Everything that followed the ref afterwards panicked.
---
 src/main.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 55803af..a1ca043 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,7 @@
 
 use snapcd::{
     cache::SqliteCache, commit, diff, dir, display, ds::sqlite::SqliteDS, ds::GetReflogError,
-    ds::Transactional, filter, key, DataStore, Keyish, Reflog,
+    ds::Transactional, filter, key, object::ObjType, DataStore, Keyish, Reflog,
 };
 
 use colored::*;
@@ -240,6 +240,10 @@ struct DatabaseNotFoundError;
 )]
 struct NoHeadError;
 
+#[derive(Debug, Error)]
+#[error("{_0} is not a commit")]
+struct NotACommitError(key::Key);
+
 fn insert(state: &mut State, args: InsertArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -297,6 +301,16 @@ fn ref_log(state: &mut State, args: RefLogArgs) -> CMDResult {
     Ok(())
 }
 
+fn as_commit(
+    ds: &impl DataStore,
+    key: key::Key,
+) -> Result<key::TypedKey<commit::Commit>, anyhow::Error> {
+    match ds.get_obj(key)?.objtype() {
+        ObjType::Commit => Ok(key.into()),
+        _ => Err(NotACommitError(key).into()),
+    }
+}
+
 fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -308,7 +322,7 @@ fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     };
 
     let log = Reflog {
-        key: key.into(),
+        key: as_commit(&ds_state.ds, key)?,
         refname,
         remote: None,
     };
@@ -422,7 +436,7 @@ fn debug_reflog_push(state: &mut State, args: ReflogPushArgs) -> CMDResult {
     let key = ds_state.ds.canonicalize(args.key)?;
 
     let log = Reflog {
-        key: key.into(),
+        key: as_commit(&ds_state.ds, key)?,
         refname: args.refname,
         remote: args.remote,
     };
-- 
2.43.0


From 5f98cad083bed344d799a7cecdab851388895abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 16/25] fix: success was reported when the transaction could
 not be committed

Errors from beginning and committing the transaction were ignored, so a locked
database, an I/O error or a full disk silently discarded the work. The cache on
the other hand can not make a committed command fail.
---
 src/main.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a1ca043..a1a3bd5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -784,7 +784,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -802,6 +804,14 @@ fn main() -> CMDResult {
         Command::Ref(args) => ref_cmd(&mut state, args),
     };
 
+    let result = result.and_then(|()| {
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.commit()?;
+        }
+
+        Ok(())
+    });
+
     if let Err(e) = result {
         log::debug!("error debug: {:?}", e);
 
@@ -809,9 +819,9 @@ fn main() -> CMDResult {
 
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
-    } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
-        state.cache.commit()?;
+    } else if let Err(e) = state.cache.commit() {
+        // What the command was asked to do has been done.
+        log::warn!("could not update cache: {}", e);
     }
 
     Ok(())
-- 
2.43.0


From 964359dbcc43b97c12b18411c49b031f36d4a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 17/25] fix: a command that failed exited with status 0

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index a1a3bd5..0a03512 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -819,6 +819,8 @@ fn main() -> CMDResult {
 
         state.ds_state.as_mut().map(|x| x.ds.rollback());
         state.cache.rollback()?;
+
+        std::process::exit(1);
     } else if let Err(e) = state.cache.commit() {
         // What the command was asked to do has been done.
         log::warn!("could not update cache: {}", e);
-- 
2.43.0


From 5abc9036df73d7132c0febb2014e965d8b39daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 18/25] fix: the cache returned keys of objects that are not in
 the repository

The cache is shared by all repositories of a user and outlives them.
---
 src/dir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 2effab8..56e7a5b 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -166,6 +166,9 @@ pub enum HashFsItemError {
     #[error("put data error: {_0}")]
     PutDataError(#[from] file::PutDataError),
 
+    #[error("error looking for object: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
@@ -196,7 +199,10 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         };
 
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            // The cache is shared, so this may never have been put into this data store.
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
-- 
2.43.0


From dcc40a30f19c40a73bab3dfb41288810bcaaefab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 19/25] fix: the cache returned the hash of what a file used to
 contain

Its key was only inode, whole seconds of mtime, and size, which several contents
of a file (or files on different devices) easily share.
---
 src/cache.rs | 37 +++++++++++++++++++++++--------------
 src/dir.rs   | 34 +++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..3af3f5a 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,9 +7,29 @@ use crate::{ds, key};
 
 #[derive(Copy, Clone, Debug)]
 pub struct CacheKey {
+    pub dev: u64,
     pub inode: u64,
-    pub mtime: i64,
     pub size: u64,
+    pub mtime: i64,
+    pub mtime_nsec: i64,
+    pub ctime: i64,
+    pub ctime_nsec: i64,
+}
+
+impl CacheKey {
+    fn to_bytes(&self) -> Vec<u8> {
+        let mut data = Vec::with_capacity(8 * 7);
+
+        data.extend(self.dev.to_le_bytes().iter());
+        data.extend(self.inode.to_le_bytes().iter());
+        data.extend(self.size.to_le_bytes().iter());
+        data.extend(self.mtime.to_le_bytes().iter());
+        data.extend(self.mtime_nsec.to_le_bytes().iter());
+        data.extend(self.ctime.to_le_bytes().iter());
+        data.extend(self.ctime_nsec.to_le_bytes().iter());
+
+        data
+    }
 }
 
 #[derive(Debug, Error)]
@@ -44,12 +64,7 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        let cache_result = self.raw_get(&data)?;
+        let cache_result = self.raw_get(&cachekey.to_bytes())?;
 
         match cache_result {
             Some(data) => {
@@ -61,13 +76,7 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
-
-        data.extend(cachekey.inode.to_le_bytes().iter());
-        data.extend(cachekey.mtime.to_le_bytes().iter());
-        data.extend(cachekey.size.to_le_bytes().iter());
-
-        self.raw_put(&data, &value.as_db_key())?;
+        self.raw_put(&cachekey.to_bytes(), &value.as_db_key())?;
 
         Ok(())
     }
diff --git a/src/dir.rs b/src/dir.rs
index 56e7a5b..eb2ac6b 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -179,6 +179,9 @@ pub enum HashFsItemError {
     NonFileError,
 }
 
+/// No file system has coarser timestamps than this.
+const CACHE_SETTLE_SECS: i64 = 2;
+
 pub fn hash_fs_item<DS: DataStore, C: Cache>(
     ds: &mut DS,
     path: &Path,
@@ -193,11 +196,22 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
-            mtime: ext_metadata.mtime(),
+            dev: ext_metadata.dev(),
             inode: ext_metadata.ino(),
             size: ext_metadata.size(),
+            mtime: ext_metadata.mtime(),
+            mtime_nsec: ext_metadata.mtime_nsec(),
+            ctime: ext_metadata.ctime(),
+            ctime_nsec: ext_metadata.ctime_nsec(),
         };
 
+        // If the file has only just been changed, it can be changed again without its timestamps
+        // changing, so what is read from it now must not be remembered.
+        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
+        let settled = now.map_or(false, |now| {
+            cache_key.ctime + CACHE_SETTLE_SECS < now.as_secs() as i64
+        });
+
         if let Some(h) = cache.get(cache_key)? {
             // The cache is shared, so this may never have been put into this data store.
             if ds.raw_exists(&h.as_db_key())? {
@@ -220,14 +234,16 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let obj_hash = ds.put_obj(&object)?;
 
-        match cache.put(cache_key, obj_hash) {
-            Ok(()) => {}
-            Err(e) => log::warn!(
-                "Error {:?} putting cache entry {:?} as {}",
-                e,
-                cache_key,
-                &obj_hash
-            ),
+        if settled {
+            match cache.put(cache_key, obj_hash) {
+                Ok(()) => {}
+                Err(e) => log::warn!(
+                    "Error {:?} putting cache entry {:?} as {}",
+                    e,
+                    cache_key,
+                    &obj_hash
+                ),
+            }
         }
 
         return Ok(obj_hash);
-- 
2.43.0


From d2bf6d01ed18af0103930403ea5ce44637a80841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 20/25] fix: hunk headers stated the wrong number of lines

---
 src/diff.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a18f9ea..b59353e 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -580,16 +580,19 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
         assert!(!collected.is_empty());
 
         let (start_before, start_after, _) = collected.first().unwrap();
-        let (end_before, end_after, _) = collected.last().unwrap();
+
+        let count_lines = |on_side: fn(&difference::Difference) -> bool| -> u64 {
+            collected.iter().filter(|x| on_side(&x.2)).count() as u64
+        };
 
         let before_range = patch::Range {
             start: *start_before,
-            count: *end_before - *start_before,
+            count: count_lines(|x| !matches!(x, difference::Difference::Add(_))),
         };
 
         let after_range = patch::Range {
             start: *start_after,
-            count: *end_after - *start_after,
+            count: count_lines(|x| !matches!(x, difference::Difference::Rem(_))),
         };
 
         let mut lines = Vec::new();
-- 
2.43.0


From 4ba89b84bb15b623c4e4cff5f3d28727b8998cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 21/25] fix: a ref that could not be read was taken for one
 without commits

status and checkout-head ignored storage errors when looking up HEAD's ref.
checkout-head then switched HEAD if the working tree was empty.
---
 src/main.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0a03512..b14b6cf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -467,6 +467,18 @@ fn find_db_folder(name: &Path) -> Result<Option<PathBuf>, anyhow::Error> {
     }
 }
 
+/// The newest commit of a ref, if it has one. Failing to read it is not the same as not having one.
+fn tip_of(
+    ds: &impl DataStore,
+    refname: &str,
+) -> Result<Option<key::TypedKey<commit::Commit>>, GetReflogError> {
+    match ds.reflog_get(refname, None) {
+        Ok(k) => Ok(Some(k)),
+        Err(GetReflogError::NotFound) => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 fn get_head_key(ds: &impl DataStore) -> Result<key::TypedKey<commit::Commit>, anyhow::Error> {
     let reflog = ds.get_head()?.ok_or(NoHeadError)?;
     let key = ds.reflog_get(&reflog, None)?;
@@ -614,7 +626,7 @@ fn status(state: &mut State, _args: StatusArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = tip_of(&ds_state.ds, &reflog)?;
 
     match &ref_key {
         Some(k) => {
@@ -669,7 +681,7 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = tip_of(&ds_state.ds, &reflog)?;
 
     let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());
 
-- 
2.43.0


From def429382903a0d770263a221e8227f2ed93a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:49 +0000
Subject: [PATCH 22/25] fix: show exited with success when the end of a file
 could not be written

---
 src/display.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 5d51d0c..b063f24 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,7 @@ use colored::*;
 
 use crate::{commit, diff, file, key::Key, object, DataStore};
 use std::convert::TryInto;
+use std::io::Write;
 use thiserror::Error;
 
 #[derive(Debug, Error)]
@@ -11,6 +12,9 @@ pub enum ShowError {
 
     #[error("error showing diff patch: {_0}")]
     DiffPatch(#[from] diff::DiffPatchError),
+
+    #[error("error writing data: {_0}")]
+    Write(#[from] std::io::Error),
 }
 
 #[derive(Debug, Clone, Copy)]
@@ -63,7 +67,12 @@ pub fn display_obj(ds: &mut impl DataStore, key: Key, kind: Kind) -> Result<(),
 
     match obj.objtype() {
         ObjType::FileBlobTree | ObjType::FileBlob => {
-            file::read_data(ds, key, &mut std::io::stdout())?;
+            let mut out = std::io::stdout();
+
+            file::read_data(ds, key, &mut out)?;
+
+            // What does not end in a newline is still to be written.
+            out.flush()?;
         }
         ObjType::FSItemFile => {
             assert!(obj.keys().len() == 1);
-- 
2.43.0


From 56f2689e791820582541b679eaf5fb826c06b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:24 +0000
Subject: [PATCH 23/25] fix: checkout wrote through hard links into other files

A file that has another name, in the working tree, among what is excluded
or outside of it, was written in place, so that the other name changed as
well: two linked files ended up with the same content whatever the commit
says, and files that checkout does not manage were overwritten.
---
 src/dir.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index eb2ac6b..ccf14c4 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -434,8 +434,17 @@ fn internal_checkout_fs_item<DS: DataStore>(
             }
         }
         FSItemType::File => {
-            if file_type_at(path)?.map_or(false, |ft| ft.is_dir()) {
-                remove_unless_excluded(path, filter)?;
+            use std::os::unix::fs::MetadataExt;
+
+            match file_type_at(path)? {
+                Some(ft) if ft.is_dir() => {
+                    remove_unless_excluded(path, filter)?;
+                }
+                // What other names of the same file hold must not be written through this one.
+                Some(_) if std::fs::symlink_metadata(path)?.nlink() > 1 => {
+                    std::fs::remove_file(path)?;
+                }
+                _ => {}
             }
 
             let mut f = std::fs::File::create(path)?;
-- 
2.43.0


From ee927e9ec52f48e9ea9f21e4a19d2e96889cfc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:45 +0000
Subject: [PATCH 24/25] fix: an excluded link that leads nowhere made commands
 panic

Whether an entry lies in the database directory was asked before whether it
is excluded, which fails for dangling links, so that exclusions could not be
used to leave those out.
---
 src/filter.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index 01b3ca2..bca9730 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -16,19 +16,20 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
-        let canon_path = std::fs::canonicalize(&path).unwrap();
-        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
-
-        if canon_path.starts_with(canon_db_path) {
-            return false;
-        }
-
         let normalised_path = if path.starts_with("./") {
             path.strip_prefix("./").unwrap()
         } else {
             &path
         };
 
-        !excl_globset.is_match(normalised_path)
+        // Nothing about what is excluded matters, not even whether a link leads anywhere.
+        if excl_globset.is_match(normalised_path) {
+            return false;
+        }
+
+        let canon_path = std::fs::canonicalize(&path).unwrap();
+        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
+
+        !canon_path.starts_with(canon_db_path)
     })
 }
-- 
2.43.0


From 74a0f7ca7ecc5308a53d35d8ecc2b1647065b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:51 +0000
Subject: [PATCH 25/25] fix: exclusions missed paths with a newline, and names
 ending in a dot

A set of globs matches with regexes in which a wildcard does not match a
newline, and takes a name which ends in a dot for no name at all, so a
file which -e was to keep out was stored all the same.
---
 src/filter.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index bca9730..c34aa9f 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -5,13 +5,11 @@ pub fn make_filter_fn<T: AsRef<str>>(
     excludes: &[T],
     db_path: PathBuf,
 ) -> Box<dyn Fn(&DirEntry) -> bool> {
-    let mut excl_globs = globset::GlobSetBuilder::new();
-
-    for exclude in excludes {
-        excl_globs.add(globset::Glob::new(exclude.as_ref()).unwrap());
-    }
-
-    let excl_globset = excl_globs.build().unwrap();
+    // One matcher each: in a set of them, no wildcard matches a newline in a file's name.
+    let excl_globs: Vec<globset::GlobMatcher> = excludes
+        .iter()
+        .map(|exclude| globset::Glob::new(exclude.as_ref()).unwrap().compile_matcher())
+        .collect();
 
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
@@ -23,7 +21,7 @@ pub fn make_filter_fn<T: AsRef<str>>(
         };
 
         // Nothing about what is excluded matters, not even whether a link leads anywhere.
-        if excl_globset.is_match(normalised_path) {
+        if excl_globs.iter().any(|glob| glob.is_match(normalised_path)) {
             return false;
         }
 
-- 
2.43.0

