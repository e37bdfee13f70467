From 160c9d906b6135285c15885f4cbd36d2792605fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 01/29] fix: exact ceiling division for the chunk grid extent

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 130f993bbaa15b380bbe9ca374ffaf8b2dbd6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 02/29] fix: chunk enumeration overflowed for array dimensions
 near u64::MAX

---
 src/ndarray.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..8b91640 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -389,14 +389,7 @@ impl<T: HierarchyWriter> ZarrNdarrayWriter for T {}
 
 impl ArrayMetadata {
     pub fn coord_iter(&self) -> impl Iterator<Item = Vec<u64>> + ExactSizeIterator {
-        let coord_ceil = self
-            .get_shape()
-            .iter()
-            .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
-            .collect::<GridCoord>();
-
-        CoordIterator::new(&coord_ceil)
+        CoordIterator::new(&self.get_grid_extent())
     }
 
     pub fn bounded_coord_iter(
-- 
2.43.0


From 4bc6b5829f92472fa1ee4f1818c46ad019368abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 03/29] fix: zero-dimensional arrays have one chunk, and
 exhausted coordinate iterators have length 0

---
 src/ndarray.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 8b91640..2c16549 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -512,8 +512,16 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.accumulator += 1;
-        self.iter.next()
+        let coord = match self.iter.next() {
+            // The product over no dimensions is a single empty coordinate, but
+            // `multi_cartesian_product` yields none.
+            None if self.accumulator < self.total_coords => Some(Vec::new()),
+            coord => coord,
+        };
+        if coord.is_some() {
+            self.accumulator += 1;
+        }
+        coord
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 10f47f900fb448b23cfe13214d8dd1dc9c170b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 04/29] fix: regions that are empty or outside the array
 contain no chunks

---
 src/ndarray.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 2c16549..a27d96f 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -409,7 +409,11 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            // An empty range contains no chunks, wherever it is.
+            .map(|((&o, &s), cs)| match s {
+                0 => o / cs,
+                _ => (o + s - 1) / cs + 1,
+            })
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
-- 
2.43.0


From fb8c8e18ef163f52fb458d63f59882c6e693ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 05/29] fix: reject store keys that leave the base path before
 descending again

---
 src/store/filesystem.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..ba60454 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,18 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // The path must not leave the base path even if it later descends
+            // again, since it need not descend into the base path.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From df467a4794269f1560d863df50cfbe83c318063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 06/29] fix: do not serialize padding after raw data type names

---
 src/data_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..bc4e96e 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -156,8 +156,10 @@ impl Serialize for DataType {
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
             Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
+                let mut unwritten = &mut buf[..];
+                write!(unwritten, "r{}", size).expect("TODO");
+                let len = 32 - unwritten.len();
+                std::str::from_utf8(&buf[..len]).unwrap()
             }
         };
         serializer.serialize_str(s)
-- 
2.43.0


From 46a0a14c27af40ed3c0314e46f3b1e87154c0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 07/29] fix: malformed data type strings are errors rather than
 panics

---
 src/data_type.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index bc4e96e..f487105 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -207,22 +207,15 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                     ));
                 }
             }
-            dtype if dtype.len() == 3 => {
+            dtype if dtype.len() == 3 && dtype.is_ascii() => {
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
-                    'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
-                        DataType::Int { size, endian }
-                    }
-                    'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
-                        DataType::UInt { size, endian }
-                    }
-                    'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
-                        DataType::Float { size, endian }
-                    }
+                let endian = Endian::deserial_char(chars.next().unwrap());
+                let kind = chars.next().unwrap();
+                let size = chars.next().unwrap();
+                match (kind, endian, IntSize::deserial_char(size), FloatSize::deserial_char(size)) {
+                    ('i', Some(endian), Some(size), _) => DataType::Int { size, endian },
+                    ('u', Some(endian), Some(size), _) => DataType::UInt { size, endian },
+                    ('f', Some(endian), _, Some(size)) => DataType::Float { size, endian },
                     _ => {
                         return Err(serde::de::Error::invalid_value(
                             serde::de::Unexpected::Str(value),
-- 
2.43.0


From e44de70f8e7ccf8e95b7a8c214e03b24562ba9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 08/29] fix: extended data types without a fallback are errors
 rather than panics

---
 src/data_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index f487105..a49d203 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -299,7 +299,10 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            // There is no core type to use in place of the extended type.
+            Extended { type_string, .. } => Err(MetadataError::UnexpectedType(
+                serde_json::Value::String(type_string.clone()),
+            )),
         }
     }
 }
-- 
2.43.0


From 98ec28be0d22c69c247cf7098b5b994176c4e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 09/29] fix: out-of-range bzip2 block sizes and xz presets
 panicked when encoding

---
 src/compression/bzip.rs | 13 ++++++++++++-
 src/compression/xz.rs   | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..a545b4a 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -20,6 +20,17 @@ pub struct Bzip2Compression {
     block_size: u8,
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9].
+    fn get_effective_block_size(&self) -> u8 {
+        if self.block_size < 1 || self.block_size > 9 {
+            default_bzip_block_size()
+        } else {
+            self.block_size
+        }
+    }
+}
+
 fn default_bzip_block_size() -> u8 {
     9
 }
@@ -40,7 +51,7 @@ impl Compression for Bzip2Compression {
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
         Box::new(BzEncoder::new(
             w,
-            BzCompression::new(u32::from(self.block_size)),
+            BzCompression::new(u32::from(self.get_effective_block_size())),
         ))
     }
 }
diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..56a6e18 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -19,6 +19,17 @@ pub struct XzCompression {
     preset: i32,
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured one is not in [0, 9].
+    fn get_effective_preset(&self) -> i32 {
+        if self.preset < 0 || self.preset > 9 {
+            default_xz_preset()
+        } else {
+            self.preset
+        }
+    }
+}
+
 fn default_xz_preset() -> i32 {
     6
 }
@@ -37,8 +48,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset() as u32))
     }
 }
 
-- 
2.43.0


From d925b58232c0f95b150e0960cc81faa3b888d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 10/29] fix: removing a node also removes the metadata of its
 descendants

---
 src/storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..09c9ecb 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -449,6 +449,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         self.erase(metadata_key.to_str().expect("TODO"))?;
         metadata_key.set_extension("");
         metadata_key.set_extension("");
+        self.erase_prefix(metadata_key.to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From 3d408ce29e2c3f36a48c7744bd0d76c982e8cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 11/29] fix: a rejected chunk write destroyed the existing
 chunk

---
 src/chunk.rs   | 33 ++++++++++++++++++++++-----------
 src/storage.rs |  5 +++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..3053b4e 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -301,21 +301,32 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     }
 }
 
+/// Check that a chunk has the element type and number of elements of an array.
+pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
+    array_meta: &ArrayMetadata,
+    chunk: &B,
+) -> Result<()> {
+    check_array_type::<T>(array_meta)?;
+
+    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            format!(
+                "Can not write chunk with too few elements. Expected {} given {}",
+                array_meta.get_chunk_num_elements(),
+                chunk.get_num_elements()
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
-        check_array_type::<T>(array_meta)?;
+        check_chunk(array_meta, chunk)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                format!(
-                    "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
-                ),
-            ));
-        }
         let mut compressor = array_meta.compressor.encoder(buffer);
         chunk.write_data(&mut compressor, array_meta)?;
 
diff --git a/src/storage.rs b/src/storage.rs
index 09c9ecb..d476f25 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -462,6 +462,11 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
     ) -> Result<(), Error> {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
+
+        // Check before setting so that a rejected chunk does not truncate an
+        // existing one.
+        crate::chunk::check_chunk(array_meta, chunk)?;
+
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
         self.set(&chunk_key, |writer| {
             <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-- 
2.43.0


From 2773f94ee3fdcbbe2d380765a59f2c80be6988d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 12/29] fix: keys listed by the filesystem store lacked the
 separator after the prefix

---
 src/store/filesystem.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index ba60454..a3f96c5 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -229,13 +229,23 @@ impl ListableStore for FilesystemHierarchy {
         let mut keys = vec![];
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
+        let separator = if prefix.is_empty() || prefix.ends_with('/') {
+            ""
+        } else {
+            "/"
+        };
 
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let entries = fs::read_dir(target)?.filter_map(|e| {
             e.and_then(|file| {
                 fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
                     (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
+                        format!(
+                            "{}{}{}",
+                            prefix,
+                            separator,
+                            file.file_name().to_str().unwrap()
+                        ),
                         t,
                     )
                 })
-- 
2.43.0


From e43b253768361dcec8b22d3688fcbed2e623ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 13/29] fix: listing nodes panicked on or misnamed arrays and
 groups

---
 src/storage.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d476f25..ad6db2e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -310,11 +310,14 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
         // TODO: Inelegant.
 
-        let key_prefix = format!(
+        let mut key_prefix = format!(
             "{}/{}",
             crate::META_ROOT_PATH,
             crate::canonicalize_path(prefix_path)
         );
+        if !key_prefix.ends_with('/') {
+            key_prefix.push('/');
+        }
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
         // Find array and group metadata keys.
@@ -323,8 +326,8 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
             k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
         });
         keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
+            k.ends_with(&format!(".{}", crate::ARRAY_METADATA_KEY_EXT))
+                || k.ends_with(&format!(".{}", crate::GROUP_METADATA_KEY_EXT))
         });
         assert_eq!(
             crate::ARRAY_METADATA_KEY_EXT.len(),
@@ -332,9 +335,7 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
         );
 
         // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
+        let suffix_len = crate::ARRAY_METADATA_KEY_EXT.len() + 1;
         keys.iter_mut()
             .for_each(|k| k.truncate(k.len() - suffix_len));
 
-- 
2.43.0


From b569b24db516aedc70731b24413426b53a824d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 14/29] fix: chunk writes reported success when the encoded
 data could not be written

---
 src/chunk.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 3053b4e..a59806e 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -324,13 +324,18 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
 
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
-    fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
+    fn write_chunk(mut buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_chunk(array_meta, chunk)?;
 
-        let mut compressor = array_meta.compressor.encoder(buffer);
-        chunk.write_data(&mut compressor, array_meta)?;
-
-        Ok(())
+        // Encoders complete their stream when dropped, at which point errors
+        // from the underlying writer would be lost, so encode to memory first.
+        let mut encoded: Vec<u8> = Vec::new();
+        {
+            let mut compressor = array_meta.compressor.encoder(&mut encoded);
+            chunk.write_data(&mut compressor, array_meta)?;
+        }
+        buffer.write_all(&encoded)?;
+        buffer.flush()
     }
 }
 
-- 
2.43.0


From 95d4290e32c3c68f85ff3363e7db2b008d714eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 15/29] fix: metadata writes reported success when buffered
 data could not be written

---
 src/storage.rs          | 15 +++++++++------
 src/store/filesystem.rs |  6 ++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index ad6db2e..a560d53 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -391,8 +391,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &merged)?;
+                writer.flush()
             })?;
         }
         Ok(())
@@ -414,8 +415,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         } else if self.exists(metadata_key.to_str().expect("TODO"))? {
             Ok(())
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
+                writer.flush()
             })
         }
     }
@@ -436,8 +438,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, array_meta)?;
+                writer.flush()
             })
         }
     }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index a3f96c5..0bb8797 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::PathBuf;
 
@@ -97,8 +98,9 @@ impl FilesystemHierarchy {
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
 
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &metadata)?;
+            writer.flush()?;
             metadata
         };
 
-- 
2.43.0


From dc98051bf11b161ec1997a50da3cdd3b5c9f2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 16/29] fix: inaccessible keys were mistaken for missing ones
 by the filesystem store

---
 src/store/filesystem.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 0bb8797..6abd0ef 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -140,6 +140,20 @@ impl FilesystemHierarchy {
         }
     }
 
+    /// Get metadata for a filesystem path, or `None` if nothing exists there.
+    ///
+    /// Unlike `Path::exists` and `Path::is_file`, other errors accessing the
+    /// path are not mistaken for it not existing.
+    fn path_metadata(path: &std::path::Path) -> Result<Option<fs::Metadata>> {
+        match fs::metadata(path) {
+            Ok(metadata) => Ok(Some(metadata)),
+            Err(e) => match e.kind() {
+                ErrorKind::NotFound | ErrorKind::NotADirectory => Ok(None),
+                _ => Err(e),
+            },
+        }
+    }
+
     /// Get the filesystem path for a given Zarr key.
     fn get_path(&self, key: &str) -> Result<PathBuf> {
         // Note: cannot use `canonicalize` on both the constructed array path
@@ -199,12 +213,12 @@ impl ReadableStore for FilesystemHierarchy {
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        Ok(Self::path_metadata(&target)?.map_or(false, |m| m.is_file()))
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
+        if Self::path_metadata(&target)?.map_or(false, |m| m.is_file()) {
             let file = File::open(target)?;
             file.lock_shared()?;
             Ok(Some(BufReader::new(file)))
@@ -296,19 +310,19 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
+        if Self::path_metadata(&path)?.is_some() {
             let file = File::open(&path)?;
             file.lock_exclusive()?;
             fs::remove_file(&path)?;
         }
 
-        Ok(!path.exists())
+        Ok(Self::path_metadata(&path)?.is_none())
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
+        if Self::path_metadata(&path)?.is_some() {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
@@ -322,7 +336,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.exists())
+        Ok(Self::path_metadata(&path)?.is_none())
     }
 }
 
-- 
2.43.0


From 2d5f841fc335febc6919d58d8fd931e1008305a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 17/29] fix: lz_pure chunks larger than one write could not be
 read back

---
 src/compression/lz_pure.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..6fd38d9 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -15,20 +15,30 @@ use serde::{
 
 use super::Compression;
 
+// `lz_fear` compresses a whole frame at once and its reader only reads one
+// frame, so gather all the data to compress on Drop.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    data: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.data.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
-        self.writer.flush()
+        Ok(())
+    }
+}
+
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        self.settings
+            .compress(&self.data[..], &mut self.writer)
+            .unwrap();
     }
 }
 
@@ -65,7 +75,11 @@ impl Compression for Lz4Compression {
         settings
             .block_size(self.block_size as usize)
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            data: Vec::new(),
+        })
     }
 }
 
-- 
2.43.0


From 23b978c216c78d3f1e3e1ea4ab0e72dfb54aae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 18/29] fix: lz_pure block sizes other than those of LZ4 could
 not be written

---
 src/compression/lz_pure.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index 6fd38d9..da9bcb6 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -49,6 +49,22 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// LZ4 only allows certain block sizes, so choose the smallest larger size
+    /// from those.
+    fn get_effective_block_size(&self) -> usize {
+        if self.block_size <= 64 * 1024 {
+            64 * 1024
+        } else if self.block_size <= 256 * 1024 {
+            256 * 1024
+        } else if self.block_size <= 1024 * 1024 {
+            1024 * 1024
+        } else {
+            4 * 1024 * 1024
+        }
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -73,7 +89,7 @@ impl Compression for Lz4Compression {
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
         Box::new(Wrapper {
             writer,
-- 
2.43.0


From e79eb5c02c2b890d2fcd730f63704d09d0a912b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 19/29] fix: lz_pure panicked reading data without a valid
 frame header

---
 src/compression/lz_pure.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index da9bcb6..fbf4354 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -42,6 +44,18 @@ impl<W: Write> Drop for Wrapper<W> {
     }
 }
 
+// A reader for data whose frame header could not be read.
+struct FailedReader(Option<Error>);
+
+impl Read for FailedReader {
+    fn read(&mut self, _buffer: &mut [u8]) -> Result<usize> {
+        Err(self
+            .0
+            .take()
+            .unwrap_or_else(|| Error::from(ErrorKind::InvalidData)))
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -79,11 +93,10 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        match LZ4FrameReader::new(r) {
+            Ok(reader) => Box::new(reader.into_read()),
+            Err(e) => Box::new(FailedReader(Some(e.into()))),
+        }
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From 4da70bdebf6e4e8329a11b4695f3d42843f1bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 20/29] fix: the lz4 codec name was not recognized with only
 the lz_pure feature

---
 src/compression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0


From a79024cf176044b14d7ed9b050e263e9591691cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 21/29] fix: listing a group without children was an error

---
 src/store/filesystem.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 6abd0ef..fe73ba0 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -245,6 +245,10 @@ impl ListableStore for FilesystemHierarchy {
         let mut keys = vec![];
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
+        if !Self::path_metadata(&target)?.map_or(false, |m| m.is_dir()) {
+            // There are no keys with this prefix, e.g., for an empty group.
+            return Ok((keys, prefixes));
+        }
         let separator = if prefix.is_empty() || prefix.ends_with('/') {
             ""
         } else {
-- 
2.43.0


From bc507e0e1af532eb58a486af79fc1299df558ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 22/29] fix: exhausted coordinate iterators started over

---
 src/ndarray.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index a27d96f..4482b3b 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -485,10 +485,11 @@ struct CoordIterator<T: Iterator<Item = Vec<u64>>> {
     total_coords: usize,
 }
 
-impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
+// `multi_cartesian_product` starts over after its end, so must be fused.
+impl CoordIterator<std::iter::Fuse<itertools::MultiProduct<std::ops::Range<u64>>>> {
     fn new(ceil: &[u64]) -> Self {
         CoordIterator {
-            iter: ceil.iter().map(|&c| 0..c).multi_cartesian_product(),
+            iter: ceil.iter().map(|&c| 0..c).multi_cartesian_product().fuse(),
             accumulator: 0,
             total_coords: ceil.iter().product::<u64>() as usize,
         }
@@ -505,7 +506,8 @@ impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
                 .iter()
                 .zip(ceil.iter())
                 .map(|(&f, &c)| f..c)
-                .multi_cartesian_product(),
+                .multi_cartesian_product()
+                .fuse(),
             accumulator: 0,
             total_coords,
         }
-- 
2.43.0


From f5af6e8d3881d7d245cdd76bb387ba9eec8aff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 23/29] fix: a format URI without a version was compatible with
 any version

---
 src/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index a560d53..f2211e3 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -148,6 +148,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             .zarr_format
             .rsplit('/')
             .next()
+            // An empty string would parse as a requirement for any version.
+            .filter(|vers_str| !vers_str.is_empty())
             .ok_or_else(|| {
                 Error::new(
                     ErrorKind::InvalidData,
-- 
2.43.0


From fefda5fb4e2d2ad5e20f455e810a8a5d16cb5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 24/29] fix: array_exists mistook an unreadable array for a
 missing one

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..2972cee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,7 +227,14 @@ pub trait HierarchyReader: Hierarchy {
 
     /// Test whether an array exists.
     fn array_exists(&self, path_name: &str) -> Result<bool, Error> {
-        Ok(self.exists(path_name)? && self.get_array_metadata(path_name).is_ok())
+        if !self.exists(path_name)? {
+            return Ok(false);
+        }
+        match self.get_array_metadata(path_name) {
+            Ok(_) => Ok(true),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
+        }
     }
 
     /// Get a URI string for a data chunk.
-- 
2.43.0


From a6df2eb76c137c5f35a65753ca7ec09c16bfb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 25/29] fix: errors listing directory entries were ignored

---
 src/store/filesystem.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index fe73ba0..be784cf 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -255,25 +255,20 @@ impl ListableStore for FilesystemHierarchy {
             "/"
         };
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!(
-                            "{}{}{}",
-                            prefix,
-                            separator,
-                            file.file_name().to_str().unwrap()
-                        ),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        for entry in fs::read_dir(target)? {
+            let entry = entry?;
+            let t = match Self::path_metadata(&entry.path())? {
+                Some(metadata) => metadata.file_type(),
+                // A dangling symlink, or since removed.
+                None => continue,
+            };
+            let key = format!(
+                "{}{}{}",
+                prefix,
+                separator,
+                entry.file_name().to_str().unwrap()
+            );
 
-        for (key, t) in entries {
             if t.is_file() {
                 keys.push(key);
             } else {
-- 
2.43.0


From 7b2f6616441992ef7711ac01c3034b9d7ddf4af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 26/29] fix: removing a node erased metadata or chunks of other
 nodes with such a key

---
 src/storage.rs          | 11 +++++++++--
 src/store/filesystem.rs |  7 ++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index f2211e3..04a3e32 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -455,8 +455,15 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         self.erase(metadata_key.to_str().expect("TODO"))?;
         metadata_key.set_extension("");
         metadata_key.set_extension("");
-        self.erase_prefix(metadata_key.to_str().expect("TODO"))?;
-        self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
+        // Prefixes end with a slash, so as not to match keys of other nodes, e.g.,
+        // the metadata document `foo.array.json` when removing a node of that name.
+        for path in &[metadata_key, self.data_path_key(path_name)] {
+            let mut prefix = path.to_str().expect("TODO").to_owned();
+            if !prefix.ends_with('/') {
+                prefix.push('/');
+            }
+            self.erase_prefix(&prefix)?;
+        }
         Ok(())
     }
 
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index be784cf..5075b11 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -321,7 +321,12 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if Self::path_metadata(&path)?.is_some() {
+        if let Some(metadata) = Self::path_metadata(&path)? {
+            if key_prefix.ends_with('/') && !metadata.is_dir() {
+                // The prefix only matches keys below this path.
+                return Ok(true);
+            }
+
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
-- 
2.43.0


From 37698fe58dda539fe3ed9ad31ed48dadf4095407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:25 +0000
Subject: [PATCH 27/29] fix: list nodes whatever the spelling of the metadata
 key suffix

---
 src/storage.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 04a3e32..db038df 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -322,11 +322,12 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
         }
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
-        // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
+        // Find array and group metadata keys, whose suffix always starts with a dot.
+        let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let suffix = format!(".{}", suffix.strip_prefix('.').unwrap_or(suffix));
+        keys.retain(|k| k.ends_with(&suffix));
+        keys.iter_mut()
+            .for_each(|k| k.truncate(k.len() - suffix.len()));
         keys.retain(|k| {
             k.ends_with(&format!(".{}", crate::ARRAY_METADATA_KEY_EXT))
                 || k.ends_with(&format!(".{}", crate::GROUP_METADATA_KEY_EXT))
-- 
2.43.0


From 06810c2982a8c6baf73c623b103344c11a64b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:38 +0000
Subject: [PATCH 28/29] fix: remove the metadata below a node whatever the
 metadata key suffix

---
 src/storage.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index db038df..87da51c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -4,6 +4,7 @@ use std::io::{
     Read,
     Write,
 };
+use std::path::PathBuf;
 
 use semver::VersionReq;
 use serde_json::Value;
@@ -452,13 +453,12 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        let metadata_path = PathBuf::from(crate::META_ROOT_PATH).join(canonicalize_path(path_name));
         // Prefixes end with a slash, so as not to match keys of other nodes, e.g.,
         // the metadata document `foo.array.json` when removing a node of that name.
-        for path in &[metadata_key, self.data_path_key(path_name)] {
+        for path in &[metadata_path, self.data_path_key(path_name)] {
             let mut prefix = path.to_str().expect("TODO").to_owned();
             if !prefix.ends_with('/') {
                 prefix.push('/');
-- 
2.43.0


From 64c513fe5d32da26d933c28a4b64b5c45d31b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:35 +0000
Subject: [PATCH 29/29] fix: do not write an entry point when it is not known
 whether there is one

`Path::exists` is false also when the path cannot be examined, in which case
`open_or_create` wrote a new entry point over the existing one.
---
 src/store/filesystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 5075b11..d137970 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -86,7 +86,7 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
+        let entry_point_metadata = if Self::path_metadata(&entry_point_path)?.is_some() {
             Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
-- 
2.43.0

