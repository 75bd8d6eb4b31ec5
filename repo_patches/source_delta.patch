From 1e1b7e6cd54f95990e29269de8e4d3049599441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 01/28] Add schedule points for runtime monitors (cfg
 jubako_verif)

---
 src/bases/cache.rs                        |  2 ++
 src/bases/io/compression.rs               |  6 ++++++
 src/creator/content_pack/clusterwriter.rs |  6 ++++++
 src/lib.rs                                | 13 +++++++++++++
 src/reader/content_pack/cluster.rs        |  2 ++
 src/reader/content_pack/mod.rs            |  2 ++
 src/reader/jubako.rs                      |  2 ++
 src/verif.rs                              | 23 +++++++++++++++++++++++
 8 files changed, 56 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/bases/cache.rs b/src/bases/cache.rs
index 67fb888..1df71e8 100644
--- a/src/bases/cache.rs
+++ b/src/bases/cache.rs
@@ -28,7 +28,9 @@ where
     pub fn get(&self, index: Source::Idx) -> Result<&Arc<Value>, Source::Error> {
         let cache_slot = &self.values[index.into()];
         if cache_slot.get().is_none() {
+            verif_point!("cache.miss", 0, 0);
             let new_value = self.source.get_value(index)?;
+            verif_point!("cache.set", 0, 0);
             let _ = cache_slot.set(new_value);
         }
 
diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..08a7ce0 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -71,6 +71,7 @@ impl SyncVecRd {
     #[inline]
     fn slice(&self) -> &[u8] {
         let size = self.current_size();
+        verif_point!("read.slice", self.buffer, size);
         unsafe { std::slice::from_raw_parts(self.buffer, size) }
     }
 }
@@ -117,9 +118,11 @@ fn decode_to_end<T: Read + Send>(
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        verif_point!("decode.chunk", buffer.data.as_ptr(), buffer.data.len());
         let (lock, cvar) = &*buffer.decoded;
         let mut decoded = lock.lock().unwrap();
         *decoded = uncompressed;
+        verif_point!("decode.publish", buffer.data.as_ptr(), uncompressed);
         cvar.notify_all();
     }
     //println!("Decompress done");
@@ -139,6 +142,7 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
+                verif_point!("decode.start", write_hand.data.as_ptr(), write_hand.total_size);
                 decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
             });
         Self { buffer: read_hand }
@@ -146,7 +150,9 @@ impl SeekableDecoder {
 
     #[inline]
     pub fn decode_to(&self, end: usize) {
+        verif_point!("read.wait", self.buffer.buffer, end);
         self.buffer.wait_while(|d: &mut usize| *d < end);
+        verif_point!("read.ready", self.buffer.buffer, end);
     }
 
     #[inline]
diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..f64ed72 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -166,10 +166,13 @@ impl ClusterCompressor {
             let mut data = Vec::<u8>::with_capacity(1024 * 1024);
             let mut cursor = std::io::Cursor::new(&mut data);
             let cluster_idx = cluster.index;
+            verif_point!("worker.recv", 0, cluster_idx.into_u32());
             let sized_offset = self.compress_cluster(cluster, &mut cursor)?;
+            verif_point!("worker.compressed", 0, cluster_idx.into_u32());
             self.output
                 .send(WriteTask::Compressed(data, sized_offset, cluster_idx))
                 .unwrap();
+            verif_point!("worker.sent", 0, cluster_idx.into_u32());
             let (count, cvar) = &*self.nb_cluster_in_queue;
             let mut count = count.lock().unwrap();
             *count -= 1;
@@ -252,6 +255,7 @@ where
 
     pub fn run(mut self) -> std::io::Result<(O, Vec<Late<SizedOffset>>)> {
         while let Ok(task) = self.input.recv() {
+            verif_point!("writer.recv", 0, 0);
             let (sized_offset, idx) = match task {
                 WriteTask::Cluster(cluster) => {
                     let cluster_idx = cluster.index;
@@ -269,6 +273,7 @@ where
             if self.cluster_addresses.len() <= idx {
                 self.cluster_addresses.resize(idx + 1, Default::default());
             }
+            verif_point!("writer.set", 0, idx);
             self.cluster_addresses[idx].set(sized_offset);
         }
         Ok((
@@ -350,6 +355,7 @@ impl<O: OutStream + 'static> ClusterWriterProxy<O> {
                 .wait_while(count.lock().unwrap(), |c| *c >= self.max_queue_size)
                 .unwrap();
             *count += 1;
+            verif_point!("proxy.queue", 0, *count);
             self.dispatch_tx
                 .send(cluster)
                 .expect("Receiver should not be closed");
diff --git a/src/lib.rs b/src/lib.rs
index 49317d2..e85586b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,12 +1,25 @@
 #![cfg_attr(feature = "nightly", feature(error_generic_member_access))]
 #![cfg_attr(feature = "nightly", feature(seek_stream_len))]
 
+// `jubako_verif` is only set by runtime monitors (see `verif_point`).
+#![allow(unexpected_cfgs)]
+
+/// A schedule point for runtime monitors. Expands to nothing without `--cfg jubako_verif`.
+macro_rules! verif_point {
+    ($name:literal, $obj:expr, $value:expr) => {
+        #[cfg(jubako_verif)]
+        crate::verif::point($name, $obj as usize, $value as u64);
+    };
+}
+
 #[macro_use]
 mod bases;
 mod common;
 pub mod creator;
 pub mod reader;
 pub mod tools;
+#[cfg(jubako_verif)]
+pub mod verif;
 
 #[cfg(feature = "clap")]
 pub mod cmd_utils;
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index b96ff26..bde2624 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -74,6 +74,7 @@ fn zstd_source(_raw_stream: ByteStream, _data_size: ASize) -> Result<Arc<dyn Sou
 
 impl Cluster {
     fn build_plain_reader(&self) -> Result<()> {
+        verif_point!("cluster.plain", 0, 0);
         let mut cluster_reader = self.reader.write().unwrap();
         if let ClusterReader::Plain(_) = *cluster_reader {
             return Ok(());
@@ -110,6 +111,7 @@ impl Cluster {
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
         self.build_plain_reader()?;
+        verif_point!("cluster.bytes", 0, index.into_u64());
         let offset = self.blob_offsets[index.into_usize()];
         let end_offset = self.blob_offsets[index.into_usize() + 1];
         let size = end_offset - offset;
diff --git a/src/reader/content_pack/mod.rs b/src/reader/content_pack/mod.rs
index 6492f34..49c3e19 100644
--- a/src/reader/content_pack/mod.rs
+++ b/src/reader/content_pack/mod.rs
@@ -59,12 +59,14 @@ impl ContentPack {
     }
 
     fn _get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
+        verif_point!("cluster.load", 0, cluster_index.into_u32());
         let cluster_info = self.cluster_ptrs.index(*cluster_index)?;
         let cluster = self.reader.parse_data_block::<Cluster>(cluster_info)?;
         Ok(Arc::new(cluster))
     }
 
     fn get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
+        verif_point!("cluster.lookup", 0, cluster_index.into_u32());
         let mut cache = self.cluster_cache.lock().unwrap();
         let cached = cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;
         Ok(cached.clone())
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..eec5e4c 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -139,12 +139,14 @@ impl Container {
         }
         let cache_slot = &self.packs[pack_id.into_usize()];
         if cache_slot.get().is_none() {
+            verif_point!("pack.miss", 0, pack_id.into_u64());
             match self._get_pack(pack_id)? {
                 None => return Ok(None),
                 Some(MayMissPack::MISSING(pack_info)) => {
                     return Ok(Some(MayMissPack::MISSING(pack_info)))
                 }
                 Some(MayMissPack::FOUND(p)) => {
+                    verif_point!("pack.set", 0, pack_id.into_u64());
                     let _ = cache_slot.set(p);
                 }
             }
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..dc25365
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,23 @@
+//! Schedule points used by the runtime monitors (only with `--cfg jubako_verif`).
+//!
+//! A monitor may register one hook; each point reports its name, the identity of the
+//! object it acts on and a value. The hook may delay the calling thread.
+use std::sync::atomic::{AtomicPtr, Ordering};
+
+pub type Hook = fn(point: &'static str, obj: usize, value: u64);
+
+static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
+
+/// Register the hook called at every schedule point.
+pub fn set_hook(hook: Hook) {
+    HOOK.store(hook as *mut (), Ordering::Release);
+}
+
+pub(crate) fn point(name: &'static str, obj: usize, value: u64) {
+    let hook = HOOK.load(Ordering::Acquire);
+    if !hook.is_null() {
+        // SAFETY: Only `set_hook` stores in HOOK, and it stores a `Hook`.
+        let hook: Hook = unsafe { std::mem::transmute::<*mut (), Hook>(hook) };
+        hook(name, obj, value)
+    }
+}
-- 
2.43.0


From 1ffcef90777b0e0a58766a0ab44f5cfbdb05a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 02/28] fix: declare the check block in the size of a container
 pack

---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..f92f26f 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size =
+            Size::from(check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE);
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From c988e1ba9b2a45b2aa680611c65351a28623509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 03/28] fix: start a ByteStream made from a ByteRegion at the
 beginning of the region

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..28364d7 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let offset = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, offset)
     }
 }
-- 
2.43.0


From 8f355308a6af236ac2b6af47a9fe61dbcc312c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 04/28] fix: set_location reads the manifest header at the
 right offset

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..958b072 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -52,7 +52,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From fdac6cbfb9c89417adadee50b3104e201851acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 05/28] fix: size signed columns for their sign bit and
 negative values

---
 src/creator/directory_pack/schema/property.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..a51405c 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -54,6 +54,11 @@ where
     }
 }
 
+/// An unsigned value needing as many bytes as the two's complement of `v` (sign bit included).
+fn signed_magnitude(v: i64) -> u64 {
+    ((v ^ (v >> 63)) as u64) << 1
+}
+
 #[derive(Default, Debug)]
 pub enum ValueCounter<T> {
     #[default]
@@ -96,7 +101,8 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        // Size of the value (as returned by `signed_magnitude`)
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +248,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_magnitude(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_magnitude(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 18b257a2c6eb0c5621a19adcfad8ec696fbb5198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 06/28] fix: read variants whose last properties take no place
 in the entry

---
 src/reader/directory_pack/layout/mod.rs | 62 +++++++++----------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..a6eae92 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -14,8 +14,6 @@ pub(crate) use properties::{Properties, SharedProperties};
 pub(crate) use property::Property;
 use std::collections::HashMap;
 
-use std::cmp::Ordering;
-
 #[derive(Debug)]
 #[cfg_attr(feature = "explorable_serde", derive(serde::Serialize))]
 pub struct VariantPart {
@@ -130,55 +128,39 @@ impl Parsable for Layout {
             let variant_id_offset = Offset::from(common_size);
             common_size += 1;
 
-            let mut variant_size = 0;
-            let mut variants = Vec::new();
-            let mut variants_map = HashMap::new();
-            let mut variant_def = Vec::new();
-            let mut variant_name: Option<SmallString> = None;
+            // A variant definition goes from its VariantId to the next one (or to the last property).
+            // Some properties take no place in the entry, so the size cannot tell where it ends.
+            let mut variant_defs: Vec<(SmallString, Vec<_>)> = Vec::new();
             for raw_property in property_iter {
-                if !raw_property.is_variant_id() && variant_name.is_none() {
-                    return Err(format_error!(
-                        "Variant definition must start with a VariantId.",
-                        parser
-                    ));
-                }
-                if raw_property.is_variant_id() && variant_name.is_some() {
-                    return Err(format_error!(
-                        "VariantId cannot be in the middle of a variant definition.",
-                        parser
-                    ));
-                }
                 if raw_property.is_variant_id() {
                     // This is a special property
-                    variant_name = Some(raw_property.name);
+                    variant_defs.push((raw_property.name, Vec::new()));
                     continue;
                 }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
-                    Ordering::Greater => {
+                match variant_defs.last_mut() {
+                    Some((_, variant_def)) => variant_def.push(raw_property),
+                    None => {
                         return Err(format_error!(
-                            &format!(
-                                "Sum of variant size ({common_size} + {variant_size}) cannot exceed the entry size ({entry_size})"
-                            ),
+                            "Variant definition must start with a VariantId.",
                             parser
                         ))
                     }
-                    Ordering::Equal => {
-                        variants.push(Properties::new(common_size, variant_def).into());
-                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
-                        variant_def = Vec::new();
-                        variant_size = 0;
-                        variant_name = None;
-                    }
-                    Ordering::Less => {
-                        /* Noting to do */
-                        continue;
-                    }
                 }
             }
-            if !variant_def.is_empty() {
-                return Err(format_error!("We cannot have left over variant definiton."));
+            let mut variants = Vec::new();
+            let mut variants_map = HashMap::new();
+            for (variant_name, variant_def) in variant_defs {
+                let variant_size = variant_def.iter().map(|p| p.size).sum::<usize>();
+                if common_size + variant_size != entry_size {
+                    return Err(format_error!(
+                        &format!(
+                            "Sum of variant size ({common_size} + {variant_size}) must be the entry size ({entry_size})"
+                        ),
+                        parser
+                    ));
+                }
+                variants.push(Properties::new(common_size, variant_def).into());
+                variants_map.insert(variant_name, variants.len() as u8 - 1);
             }
             if variants.len() != variant_count.into_usize() {
                 return Err(format_error!(
-- 
2.43.0


From cc5e4d4ad1a8b1bd0834c82c84a6c5bcce9bd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 07/28] fix: entries with the same sort keys compare equal

---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From b7d5604c72b706a65c816117537e32f02529ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 08/28] fix: fail to create a directory pack whose tail cannot
 be referenced

---
 src/bases/types/sized_offset.rs |  3 +++
 src/creator/mod.rs              | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bases/types/sized_offset.rs b/src/bases/types/sized_offset.rs
index a405257..42606bc 100644
--- a/src/bases/types/sized_offset.rs
+++ b/src/bases/types/sized_offset.rs
@@ -8,6 +8,9 @@ pub struct SizedOffset {
 }
 
 impl SizedOffset {
+    /// The size is stored on 16 bits.
+    pub(crate) const MAX_SIZE: usize = 0xFF_FF;
+
     pub(crate) fn new(size: ASize, offset: Offset) -> Self {
         debug_assert!(size.into_u64() <= 0xFF_FF_u64);
         debug_assert!(offset.into_u64() <= 0xFF_FF_FF_FF_FF_FF_u64);
diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index b09300f..00b10ef 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -36,8 +36,18 @@ mod private {
             let offset = stream.tell();
             let mut serializer = Serializer::new(BlockCheck::Crc32);
             self.serialize_tail(&mut serializer)?;
-            let size = stream.write_serializer(serializer)?.into();
-            Ok(SizedOffset { size, offset })
+            let size = stream.write_serializer(serializer)?;
+            if size > SizedOffset::MAX_SIZE {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("Tail of {size} bytes is too big to be referenced"),
+                )
+                .into());
+            }
+            Ok(SizedOffset {
+                size: size.into(),
+                offset,
+            })
         }
     }
 
-- 
2.43.0


From af70ae347dcc0b54b5d660ddee23d292d040ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 09/28] fix: fail to create a directory pack exceeding the
 limits of the format

---
 src/creator/directory_pack/directory_pack.rs  | 10 ++++++++++
 src/creator/directory_pack/layout/entry.rs    | 13 ++++++++++---
 src/creator/directory_pack/schema/property.rs |  2 ++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..77cdb9b 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -58,6 +58,16 @@ impl DirectoryPackCreator {
     pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "Directory pack cannot have {} value stores",
+                    self.value_stores.len()
+                ),
+            ));
+        }
+
         info!("----- Finalize value_stores -----");
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..2150340 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -35,8 +35,15 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> IoResult<Count<u8>> {
+        let key_count = self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>();
+        match u8::try_from(key_count) {
+            Ok(key_count) => Ok(key_count.into()),
+            Err(_) => Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Entry layout cannot have {key_count} keys"),
+            )),
+        }
     }
 }
 
@@ -45,7 +52,7 @@ impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
         written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += self.key_count()?.serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index a51405c..2c3cf79 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -329,6 +329,8 @@ impl<PN: PropertyName> Property<PN> {
                 name,
             } => {
                 let value_id_size = store_handle.key_size();
+                // Stored on 5 bits
+                assert!(fixed_array_len <= 0x1F_usize);
                 layout::Property::Array {
                     array_len_size: Some(max_array_size.into()),
                     fixed_array_len: fixed_array_len as u8,
-- 
2.43.0


From d0d2708a9b85e477e0c03c35755c9c5eac009e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 10/28] fix: find a pack at the end of a file starting with
 anything

---
 src/reader/jubako.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index eec5e4c..4205562 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -38,18 +38,32 @@ pub struct Container {
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
     // Check at beginning
     // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+    if let Err(e) = reader.parse_block_unchecked_at::<PackHeader>(Offset::zero()) {
+        if let ErrorKind::Version(_) = *e {
+            return Err(e);
+        }
+    }
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
+        Err(head_error) => {
             //Check at end
-            let mut buffer_reader = [0u8; 64];
+            if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {
+                return Err(head_error);
+            }
+            let mut buffer_reader = [0u8; PackHeader::BLOCK_SIZE];
             reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
+                .create_stream(
+                    (reader.size() - Size::from(PackHeader::BLOCK_SIZE)).into(),
+                    Size::from(PackHeader::BLOCK_SIZE),
+                    false,
+                )?
                 .read_exact(&mut buffer_reader)?;
             buffer_reader.reverse();
             let end_reader: Reader = buffer_reader.into();
             let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+            if pack_header.file_size > reader.size() {
+                return Err(format_error!("Pack is bigger than the file"));
+            }
             let origin = reader.size() - pack_header.file_size;
             (pack_header, origin.into())
         }
-- 
2.43.0


From 91c4d03c32e09e473b7c25815eae546ed6ef7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 11/28] fix: locate packs in the file system by their identity

---
 src/reader/locator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..9408c5b 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,12 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The pack may be stored in a container pack, and the file may contain other packs.
+            let reader = Reader::from(FileSource::open(path)?);
+            Ok(open_as_container_pack(reader)?.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From f9e3c7098d395871ff2fc50be2388503a0716624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 12/28] fix: tools open packs embedded at the end of a file

---
 src/reader/mod.rs | 1 +
 src/tools.rs      | 8 ++------
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 0f003f0..f9aeabc 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -10,6 +10,7 @@ mod locator;
 mod manifest_pack;
 mod missing;
 
+pub(crate) use self::jubako::open_as_container_pack;
 pub use self::jubako::Container;
 pub use container_pack::ContainerPack;
 pub use content_pack::ContentPack;
diff --git a/src/tools.rs b/src/tools.rs
index 958b072..0d783e4 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,6 +1,6 @@
 use crate as jbk;
 use crate::common::{PackHeader, PackKind};
-use crate::reader::{ManifestPackHeader, PackOffsetsIter};
+use crate::reader::{open_as_container_pack, ManifestPackHeader, PackOffsetsIter};
 use camino::Utf8Path;
 use jbk::bases::*;
 use jbk::reader::ContainerPack;
@@ -28,11 +28,7 @@ pub fn concat(infiles: &[impl AsRef<Path>], outfile: impl AsRef<Utf8Path>) -> jb
 
 pub fn open_pack(path: impl AsRef<Path>) -> jbk::Result<ContainerPack> {
     let reader = Reader::from(FileSource::open(path.as_ref())?);
-    let pack_header = reader.parse_block_at::<jbk::common::PackHeader>(Offset::zero())?;
-    Ok(match pack_header.magic {
-        jbk::common::PackKind::Container => ContainerPack::new(reader)?,
-        _ => ContainerPack::new_fake(reader, pack_header.uuid),
-    })
+    open_as_container_pack(reader)
 }
 
 pub fn set_location(
-- 
2.43.0


From b09ac46cdb2d92da37ad7c26b1a9e389eb483533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 13/28] fix: cutting out of a reader is an error

---
 src/bases/reader.rs      | 23 +++++++++++++++++++++++
 src/bases/types/range.rs |  9 +++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..2508941 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -13,6 +13,26 @@ use super::{Region, Source};
 use std::borrow::Cow;
 use std::sync::Arc;
 
+/// Where to cut is read from the file. It may be anything if the file is damaged or truncated.
+fn check_bounds(
+    region: &Region,
+    offset: Offset,
+    size: Size,
+    block_check: &BlockCheck,
+) -> Result<()> {
+    let full_size = match size.into_u64().checked_add(block_check.size() as u64) {
+        Some(full_size) => Size::new(full_size),
+        None => return Err(format_error!(format!("Invalid size {size}"))),
+    };
+    if !region.contains(offset, full_size) {
+        return Err(format_error!(format!(
+            "{full_size} bytes at {offset} are out of a region of {} bytes",
+            region.size()
+        )));
+    }
+    Ok(())
+}
+
 // A wrapper around a source. Allowing access only on a region of the source
 #[derive(Debug, Clone)]
 pub struct Reader {
@@ -98,6 +118,7 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
+        check_bounds(&self.region, offset, size, &block_check)?;
         let region = self.region.cut_rel(offset, size);
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
@@ -161,6 +182,7 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
+        check_bounds(&self.region, offset, size.into(), &BlockCheck::None)?;
         let region = self.region.cut_rel_asize(offset, size);
         let slice = self.source.get_slice(region, BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
@@ -176,6 +198,7 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
+        check_bounds(&self.region, offset, size.into(), &BlockCheck::None)?;
         let region = self.region.cut_rel_asize(offset, size);
         self.source.get_slice(region, BlockCheck::None)
     }
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..9104c66 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -47,6 +47,15 @@ pub type EntryRange = Range<EntryIdx>;
 pub(crate) type Region = Range<Offset>;
 
 impl Region {
+    /// Is the (relative) region `[offset, offset+size[` fully inside the current region ?
+    #[inline]
+    pub(crate) fn contains(&self, offset: Offset, size: Size) -> bool {
+        match offset.into_u64().checked_add(size.into_u64()) {
+            Some(end) => end <= self.size().into_u64(),
+            None => false,
+        }
+    }
+
     /// Relative cut.
     /// offset and end are relative to the current region
     #[inline]
-- 
2.43.0


From 9fc556795b9b91987da3ece2d525bd132d1541eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 14/28] fix: reading data which cannot be decompressed is an
 error

---
 src/bases/io/compression.rs | 68 +++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 08a7ce0..3b219ed 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -1,4 +1,5 @@
 use crate::bases::*;
+use log::warn;
 use std::borrow::Cow;
 use std::io::Read;
 use std::mem::ManuallyDrop;
@@ -27,20 +28,37 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+/// How far the decoding is.
+struct Progress {
+    /// Number of bytes decoded.
+    size: usize,
+    /// The decoding is over. If `size` is less than the total size, it has failed.
+    done: bool,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
 
+impl Drop for SyncVecWr {
+    // However the decoding ends, nobody must wait for it anymore.
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.decoded;
+        lock.lock().unwrap().done = true;
+        cvar.notify_all();
+    }
+}
+
 struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
@@ -50,17 +68,17 @@ impl SyncVecRd {
     #[inline]
     pub fn wait_while<F>(&self, function: F) -> usize
     where
-        F: Fn(&mut usize) -> bool,
+        F: Fn(&mut Progress) -> bool,
     {
         let (lock, cvar) = &*self.decoded;
         let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        decoded.size
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().size
     }
 
     #[inline]
@@ -78,7 +96,13 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((
+        Mutex::new(Progress {
+            size: 0,
+            done: false,
+        }),
+        Condvar::new(),
+    ));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -114,14 +138,18 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        if read == 0 {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+        uncompressed += read;
         verif_point!("decode.chunk", buffer.data.as_ptr(), buffer.data.len());
         let (lock, cvar) = &*buffer.decoded;
         let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
+        decoded.size = uncompressed;
         verif_point!("decode.publish", buffer.data.as_ptr(), uncompressed);
         cvar.notify_all();
     }
@@ -143,16 +171,28 @@ impl SeekableDecoder {
             })
             .spawn(move || {
                 verif_point!("decode.start", write_hand.data.as_ptr(), write_hand.total_size);
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                // Readers see that not everything is decoded.
+                if let Err(e) = decode_to_end(decoder, write_hand, 4 * 1024) {
+                    warn!("Cannot decompress data: {e}");
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
         verif_point!("read.wait", self.buffer.buffer, end);
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+        let decoded = self
+            .buffer
+            .wait_while(|d: &mut Progress| d.size < end && !d.done);
         verif_point!("read.ready", self.buffer.buffer, end);
+        if decoded < end {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Data cannot be decompressed",
+            ));
+        }
+        Ok(())
     }
 
     #[inline]
@@ -170,7 +210,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -183,7 +223,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -201,7 +241,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From 30a062e88c5c5f6ae051495b417371028684eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 15/28] fix: opening a container without its directory pack is
 an error

---
 src/reader/jubako.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 4205562..d6a9576 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -116,11 +116,10 @@ impl Container {
         let locator = Arc::new(ChainedLocator::new(locators));
 
         let pack_info = manifest_pack.get_directory_pack_info();
-        let directory_pack = Arc::new(DirectoryPack::new(
-            locator
-                .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
-        )?);
+        let directory_pack = match locator.locate(pack_info.uuid, &pack_info.pack_location)? {
+            Some(reader) => Arc::new(DirectoryPack::new(reader)?),
+            None => return Err(format_error!("Impossible to locate the directory pack")),
+        };
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-- 
2.43.0


From cb5c73313510f327d4770df839858ed0d9b0c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 16/28] fix: a container may have a content pack with the
 biggest id

---
 src/reader/jubako.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index d6a9576..be3a633 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -123,7 +123,7 @@ impl Container {
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From d1606161785912f156301fc79f36cf079aac68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 17/28] fix: size the offsets of a cluster for its stored size
 too

---
 src/creator/content_pack/clusterwriter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index f64ed72..08b67b3 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,8 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // Data which doesn't compress may be stored bigger than it is.
+    let offset_size = needed_bytes(std::cmp::max(cluster.data_size(), raw_data_size).into_u64());
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 22fc4db14aec11aa66c568bd4aa1440a69f2e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 18/28] fix: positions of all entries are final before entry
 stores are sized

---
 src/creator/directory_pack/directory_pack.rs | 17 +++++++++++++++-
 src/creator/directory_pack/entry_store.rs    | 21 ++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 77cdb9b..5624b3d 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         if self.value_stores.len() > u8::MAX as usize {
@@ -73,6 +73,21 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        // Entries may refer to (and be sorted on) positions of entries in any other store.
+        // So all positions must be known before we finalize the first store.
+        let mut watchdog = 50;
+        while self
+            .entry_stores
+            .iter_mut()
+            .fold(false, |moved, e| e.sort() || moved)
+        {
+            watchdog -= 1;
+            if watchdog == 0 {
+                panic!("Cannot sort entry stores");
+            }
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..488d667 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,12 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Set the position of the entries, according to the sort keys.
+    ///
+    /// Return true if entries have been moved.
+    fn sort(&mut self) -> bool;
+
+    /// Finalize the store. Positions of the entries in all stores must be final.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,28 +77,31 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
+    fn sort(&mut self) -> bool {
         set_entry_idx(&mut self.entries);
+        let mut moved = false;
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            self.entries.par_sort_unstable_by(compare);
-            set_entry_idx(&mut self.entries);
             let mut watchdog = 50;
             while !self
                 .entries
                 .windows(2)
                 .all(|w| w[0].compare(&keys, &w[1]).is_le())
             {
+                if watchdog == 0 {
+                    panic!("Cannot sort entry store");
+                }
                 debug!(".");
                 self.entries.par_sort_unstable_by(compare);
                 set_entry_idx(&mut self.entries);
+                moved = true;
                 watchdog -= 1;
-                if watchdog == 0 {
-                    panic!("Cannot sort entry store");
-                }
             }
         }
+        moved
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From b956ffe033ab7b81c2ebd29029a86677e769b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 19/28] fix: a content is the whole of its source, wherever the
 source stands when it is added

---
 src/creator/content_pack/creator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/creator/content_pack/creator.rs b/src/creator/content_pack/creator.rs
index fe2a418..8b7c61d 100644
--- a/src/creator/content_pack/creator.rs
+++ b/src/creator/content_pack/creator.rs
@@ -220,6 +220,8 @@ impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> {
         comp_hint: CompHint,
     ) -> std::io::Result<ContentAddress> {
         let content_size = content.size();
+        // The content is the whole source, even if a part of it has already been read.
+        content.rewind()?;
         self.progress.content_added(content_size);
         let should_compress = self.detect_compression(content.as_mut(), comp_hint)?;
         let cluster = self.get_open_cluster(should_compress, content_size)?;
-- 
2.43.0


From 6040c57e5a5ece5783ffc63418469eb4fd395da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 20/28] fix: a source which gives less bytes than declared
 fails instead of shifting the contents of its cluster

---
 src/creator/content_pack/clusterwriter.rs | 27 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 08b67b3..09e1093 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -23,6 +23,21 @@ where
 
 type InputData = Vec<Box<dyn InputReader>>;
 
+/// Copy the whole of a content.
+///
+/// The position of the contents following it in the cluster is already set, so a source which gives
+/// less bytes than it has declared must not be accepted.
+fn copy_content(mut content: Box<dyn InputReader>, out: &mut impl Write) -> std::io::Result<()> {
+    let size = content.size();
+    if std::io::copy(&mut content, out)? != size.into_u64() {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "Content is shorter than its declared size",
+        ));
+    }
+    Ok(())
+}
+
 #[cfg(feature = "lz4")]
 fn lz4_compress<'b>(
     data: &mut InputData,
@@ -35,8 +50,8 @@ fn lz4_compress<'b>(
         .block_mode(lz4::BlockMode::Linked)
         .checksum(lz4::ContentChecksum::NoChecksum)
         .build(stream)?;
-    for mut in_reader in data.drain(..) {
-        std::io::copy(&mut in_reader, &mut encoder)?;
+    for in_reader in data.drain(..) {
+        copy_content(in_reader, &mut encoder)?;
     }
     let (stream, err) = encoder.finish();
     err?;
@@ -53,8 +68,8 @@ fn lzma_compress<'b>(
         stream,
         xz2::stream::Stream::new_lzma_encoder(&xz2::stream::LzmaOptions::new_preset(level)?)?,
     );
-    for mut in_reader in data.drain(..) {
-        std::io::copy(&mut in_reader, &mut encoder)?;
+    for in_reader in data.drain(..) {
+        copy_content(in_reader, &mut encoder)?;
     }
     encoder.finish()
 }
@@ -69,8 +84,8 @@ fn zstd_compress<'b>(
     encoder.include_contentsize(false)?;
     encoder.include_checksum(false)?;
     encoder.window_log(23)?;
-    for mut in_reader in data.drain(..) {
-        std::io::copy(&mut in_reader, &mut encoder)?;
+    for in_reader in data.drain(..) {
+        copy_content(in_reader, &mut encoder)?;
     }
     encoder.finish()
 }
-- 
2.43.0


From 4d8c5fa4d96f34a5926227526331758e06da3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 21/28] fix: creation doesn't wait forever for compression
 workers stopped by an error

---
 src/creator/content_pack/clusterwriter.rs | 33 ++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 09e1093..c891fa5 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -176,26 +176,35 @@ impl ClusterCompressor {
         })
     }
 
+    fn handle_cluster(&mut self, cluster: ClusterCreator) -> std::io::Result<()> {
+        //[TODO] Avoid allocation. Reuse the data once it is written ?
+        let mut data = Vec::<u8>::with_capacity(1024 * 1024);
+        let mut cursor = std::io::Cursor::new(&mut data);
+        let cluster_idx = cluster.index;
+        verif_point!("worker.recv", 0, cluster_idx.into_u32());
+        let sized_offset = self.compress_cluster(cluster, &mut cursor)?;
+        verif_point!("worker.compressed", 0, cluster_idx.into_u32());
+        self.output
+            .send(WriteTask::Compressed(data, sized_offset, cluster_idx))
+            .map_err(|_| std::io::Error::from(std::io::ErrorKind::BrokenPipe))?;
+        verif_point!("worker.sent", 0, cluster_idx.into_u32());
+        Ok(())
+    }
+
     pub fn run(mut self) -> std::io::Result<()> {
+        let mut result = Ok(());
         while let Ok(cluster) = self.input.recv() {
-            //[TODO] Avoid allocation. Reuse the data once it is written ?
-            let mut data = Vec::<u8>::with_capacity(1024 * 1024);
-            let mut cursor = std::io::Cursor::new(&mut data);
-            let cluster_idx = cluster.index;
-            verif_point!("worker.recv", 0, cluster_idx.into_u32());
-            let sized_offset = self.compress_cluster(cluster, &mut cursor)?;
-            verif_point!("worker.compressed", 0, cluster_idx.into_u32());
-            self.output
-                .send(WriteTask::Compressed(data, sized_offset, cluster_idx))
-                .unwrap();
-            verif_point!("worker.sent", 0, cluster_idx.into_u32());
+            // After an error, the queue is still emptied: the producer must not wait forever for a place.
+            if result.is_ok() {
+                result = self.handle_cluster(cluster);
+            }
             let (count, cvar) = &*self.nb_cluster_in_queue;
             let mut count = count.lock().unwrap();
             *count -= 1;
             cvar.notify_one();
         }
         drop(self.output);
-        Ok(())
+        result
     }
 }
 
-- 
2.43.0


From 0d19460d87289bf8d3c4ef90f738955965fb3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 22/28] fix: exploring a damaged container panicked instead of
 telling the error

---
 src/bin/jbk/explore.rs           |  4 +--
 src/reader/container_pack.rs     |  6 ++--
 src/reader/directory_pack/mod.rs | 53 ++++++++++++++------------------
 3 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/bin/jbk/explore.rs b/src/bin/jbk/explore.rs
index 35adf8f..1fa509d 100644
--- a/src/bin/jbk/explore.rs
+++ b/src/bin/jbk/explore.rs
@@ -38,10 +38,10 @@ pub fn run(options: Options) -> Result<(), Box<dyn std::error::Error>> {
         Format::Json => {
             let mut serializer = serde_json::Serializer::pretty(std::io::stdout());
             let display = |n: &dyn graphex::Node| {
-                erased_serde::serialize(n.serde().unwrap(), &mut serializer).unwrap()
+                erased_serde::serialize(n.serde().unwrap(), &mut serializer)
             };
             match graphex::explore(&pack, &options.key, display) {
-                Ok(_) => {}
+                Ok(serialized) => serialized?,
                 Err(graphex::Error::Key(_key)) => {
                     println!("Error, {} is not a valid key", options.key)
                 }
diff --git a/src/reader/container_pack.rs b/src/reader/container_pack.rs
index b440b36..3b44ba8 100644
--- a/src/reader/container_pack.rs
+++ b/src/reader/container_pack.rs
@@ -101,7 +101,9 @@ impl serde::Serialize for ContainerPack {
         use serde::ser::SerializeMap;
         let mut container = serializer.serialize_map(Some(self.packs.len()))?;
         for (uuid, reader) in self.packs.iter() {
-            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero()).unwrap();
+            let pack_header = reader
+                .parse_block_at::<PackHeader>(Offset::zero())
+                .map_err(serde::ser::Error::custom)?;
             container.serialize_entry(&uuid, &pack_header)?;
         }
         container.end()
@@ -116,7 +118,7 @@ impl graphex::Display for ContainerPack {
     fn print_content(&self, out: &mut graphex::Output) -> graphex::Result {
         use yansi::Paint;
         for (_uuid, reader) in self.packs.iter() {
-            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero()).unwrap();
+            let pack_header = reader.parse_block_at::<PackHeader>(Offset::zero())?;
             out.field(&pack_header.uuid.bold(), &pack_header)?;
         }
         Ok(())
diff --git a/src/reader/directory_pack/mod.rs b/src/reader/directory_pack/mod.rs
index 0df3881..c2ac8c8 100644
--- a/src/reader/directory_pack/mod.rs
+++ b/src/reader/directory_pack/mod.rs
@@ -232,14 +232,14 @@ impl serde::Serialize for DirectoryPack {
                 .index_count
                 .into_iter()
                 .map(|c| {
-                    let sized_offset = self.index_ptrs.index(*c).unwrap();
+                    let sized_offset = self.index_ptrs.index(*c)?;
                     let index_header = self
                         .reader
-                        .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)
-                        .unwrap();
-                    Index::new(index_header)
+                        .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)?;
+                    Ok(Index::new(index_header))
                 })
-                .collect::<Vec<_>>(),
+                .collect::<Result<Vec<_>>>()
+                .map_err(serde::ser::Error::custom)?,
         )?;
         cont.serialize_field(
             "entry_stores",
@@ -248,12 +248,11 @@ impl serde::Serialize for DirectoryPack {
                 .entry_store_count
                 .into_iter()
                 .map(|c| {
-                    let sized_offset = self.entry_stores_ptrs.index(*c).unwrap();
-                    self.reader
-                        .parse_data_block::<EntryStore>(sized_offset)
-                        .unwrap()
+                    let sized_offset = self.entry_stores_ptrs.index(*c)?;
+                    self.reader.parse_data_block::<EntryStore>(sized_offset)
                 })
-                .collect::<Vec<_>>(),
+                .collect::<Result<Vec<_>>>()
+                .map_err(serde::ser::Error::custom)?,
         )?;
         cont.serialize_field(
             "value_stores",
@@ -262,12 +261,11 @@ impl serde::Serialize for DirectoryPack {
                 .value_store_count
                 .into_iter()
                 .map(|c| {
-                    let sized_offset = self.value_stores_ptrs.index(*c).unwrap();
-                    self.reader
-                        .parse_data_block::<ValueStore>(sized_offset)
-                        .unwrap()
+                    let sized_offset = self.value_stores_ptrs.index(*c)?;
+                    self.reader.parse_data_block::<ValueStore>(sized_offset)
                 })
-                .collect::<Vec<_>>(),
+                .collect::<Result<Vec<_>>>()
+                .map_err(serde::ser::Error::custom)?,
         )?;
         cont.serialize_field("free_data", &self.header.free_data)?;
         cont.end()
@@ -305,14 +303,13 @@ impl graphex::Display for DirectoryPack {
                 .index_count
                 .into_iter()
                 .map(|c| {
-                    let sized_offset = self.index_ptrs.index(*c).unwrap();
+                    let sized_offset = self.index_ptrs.index(*c)?;
                     let index_header = self
                         .reader
-                        .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)
-                        .unwrap();
-                    Index::new(index_header)
+                        .parse_block_in::<IndexHeader>(sized_offset.offset, sized_offset.size)?;
+                    Ok(Index::new(index_header))
                 })
-                .collect::<Vec<_>>(),
+                .collect::<Result<Vec<_>>>()?,
         )?;
         out.field(
             "entry_stores",
@@ -323,12 +320,10 @@ impl graphex::Display for DirectoryPack {
                     .entry_store_count
                     .into_iter()
                     .map(|c| {
-                        let sized_offset = self.entry_stores_ptrs.index(*c).unwrap();
-                        self.reader
-                            .parse_data_block::<EntryStore>(sized_offset)
-                            .unwrap()
+                        let sized_offset = self.entry_stores_ptrs.index(*c)?;
+                        self.reader.parse_data_block::<EntryStore>(sized_offset)
                     })
-                    .collect::<Vec<_>>(),
+                    .collect::<Result<Vec<_>>>()?,
             },
         )?;
         out.field(
@@ -340,12 +335,10 @@ impl graphex::Display for DirectoryPack {
                     .value_store_count
                     .into_iter()
                     .map(|c| {
-                        let sized_offset = self.value_stores_ptrs.index(*c).unwrap();
-                        self.reader
-                            .parse_data_block::<ValueStore>(sized_offset)
-                            .unwrap()
+                        let sized_offset = self.value_stores_ptrs.index(*c)?;
+                        self.reader.parse_data_block::<ValueStore>(sized_offset)
                     })
-                    .collect::<Vec<_>>(),
+                    .collect::<Result<Vec<_>>>()?,
             },
         )?;
         out.field("free_data", &self.header.free_data)
-- 
2.43.0


From 8bc19ba73b81e5d297a3f474307a9c6e5eb588fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 23/28] fix: exploring as json a content which cannot be
 decompressed panicked

---
 src/reader/byte_region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/byte_region.rs b/src/reader/byte_region.rs
index c225ba3..d211da9 100644
--- a/src/reader/byte_region.rs
+++ b/src/reader/byte_region.rs
@@ -103,7 +103,7 @@ impl serde::Serialize for ByteRegion {
             serializer.serialize_bytes(
                 &self
                     .get_slice(Offset::zero(), self.size().into_u64() as usize)
-                    .unwrap(),
+                    .map_err(serde::ser::Error::custom)?,
             )
         } else {
             serializer.serialize_str(&format!(
-- 
2.43.0


From 09e78bafcfc30123ef4db0519267bb2f55812ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 24/28] fix: a container pack found inside of a container pack
 is an error, not a panic

---
 src/reader/container_pack.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reader/container_pack.rs b/src/reader/container_pack.rs
index 3b44ba8..89f8b0e 100644
--- a/src/reader/container_pack.rs
+++ b/src/reader/container_pack.rs
@@ -76,7 +76,11 @@ impl ContainerPack {
                 PackKind::Manifest => ManifestPack::new(reader.clone())?.check()?,
                 PackKind::Directory => DirectoryPack::new(reader.clone())?.check()?,
                 PackKind::Content => ContentPack::new(reader.clone())?.check()?,
-                PackKind::Container => todo!(),
+                PackKind::Container => {
+                    return Err(format_error!(
+                        "A container pack cannot contain a container pack"
+                    ))
+                }
             };
             if !ok {
                 return Ok(false);
@@ -147,7 +151,11 @@ impl graphex::Node for ContainerPack {
                 PackKind::Manifest => Box::new(ManifestPack::new(reader.clone())?).into(),
                 PackKind::Directory => Box::new(DirectoryPack::new(reader.clone())?).into(),
                 PackKind::Content => Box::new(ContentPack::new(reader.clone())?).into(),
-                PackKind::Container => unreachable!(),
+                PackKind::Container => {
+                    let e: Error =
+                        format_error!("A container pack cannot contain a container pack");
+                    return Err(e.into());
+                }
             },
         )
     }
-- 
2.43.0


From df7bafa4be13ed71af1d96c5e73e7ab7f021c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 25/28] fix: a manifest without directory, or with its pack
 infos out of it, is an error, not a panic

---
 src/reader/manifest_pack.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 6f7737e..9478db0 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -57,6 +57,10 @@ impl ManifestPack {
 
         let header =
             reader.parse_block_at::<ManifestPackHeader>(Offset::from(PackHeader::BLOCK_SIZE))?;
+        let packs_size = header.pack_count * Size::from(PackInfo::BLOCK_SIZE);
+        if packs_size.into_u64() > pack_header.check_info_pos.into_u64() {
+            return Err(format_error!("Pack infos are out of the manifest pack"));
+        }
         let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
         let mut directory_pack_info = None;
         let mut pack_infos: Vec<PackInfo> = Vec::with_capacity(header.pack_count.into_usize());
@@ -71,6 +75,10 @@ impl ManifestPack {
                 }
             }
         }
+        let directory_pack_info = match directory_pack_info {
+            Some(pack_info) => pack_info,
+            None => return Err(format_error!("No directory pack in the manifest pack")),
+        };
         let vs_posinfo = header.value_store_posinfo;
         let value_store = if !vs_posinfo.is_zero() {
             Some(reader.parse_data_block::<ValueStore>(vs_posinfo)?)
@@ -81,7 +89,7 @@ impl ManifestPack {
             pack_header,
             header,
             reader,
-            directory_pack_info: directory_pack_info.unwrap(),
+            directory_pack_info,
             pack_infos,
             check_info: OnceLock::new(),
             value_store,
-- 
2.43.0


From 2f28fb27e4e6ec6069b50941413a1dfe053754b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 26/28] fix: blocks pointing out of what they describe (data,
 blob, array element, store kind) are errors, not panics

---
 src/bases/block.rs                       |  8 ++++++++
 src/bases/mod.rs                         | 12 ++++++------
 src/reader/content_pack/cluster.rs       |  9 ++++++++-
 src/reader/directory_pack/entry_store.rs |  6 +++---
 src/reader/directory_pack/value_store.rs |  2 +-
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/bases/block.rs b/src/bases/block.rs
index 77e8d2a..315284c 100644
--- a/src/bases/block.rs
+++ b/src/bases/block.rs
@@ -59,6 +59,14 @@ impl<T: BlockParsable + SizedParsable> SizedBlockParsable for T {
     const BLOCK_SIZE: usize = <T as SizedParsable>::SIZE + BlockCheck::Crc32.size();
 }
 
+/// The offset of `size` bytes of data stored just before their tail.
+pub(crate) fn data_offset(tail_offset: Offset, size: Size) -> Result<Offset> {
+    match tail_offset.into_u64().checked_sub(size.into_u64()) {
+        Some(offset) => Ok(offset.into()),
+        None => Err(format_error!("Data is out of the pack")),
+    }
+}
+
 pub(crate) trait DataBlockParsable {
     type TailParser: BlockParsable;
     type Output;
diff --git a/src/bases/mod.rs b/src/bases/mod.rs
index 27c530e..56ab6e0 100644
--- a/src/bases/mod.rs
+++ b/src/bases/mod.rs
@@ -64,12 +64,12 @@ where
 {
     type OutputType = Result<OutType::Output>;
     fn index(&self, idx: Idx<IdxType>) -> Result<OutType::Output> {
-        debug_assert!(
-            idx.is_valid(self.length),
-            "idx = {:?}, length = {:?}",
-            idx,
-            self.length
-        );
+        if !idx.is_valid(self.length) {
+            return Err(format_error!(&format!(
+                "idx = {:?}, length = {:?}",
+                idx, self.length
+            )));
+        }
         let offset = u64::from(idx.into_base()) * self.elem_size.into_u64();
         self.reader
             .parse_in::<OutType>(Offset::from(offset), self.elem_size)
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index bde2624..3b13122 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -110,6 +110,9 @@ impl Cluster {
     }
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
+        if index.into_usize() + 1 >= self.blob_offsets.len() {
+            return Err(format_error!("Blob is out of the cluster"));
+        }
         self.build_plain_reader()?;
         verif_point!("cluster.bytes", 0, index.into_u64());
         let offset = self.blob_offsets[index.into_usize()];
@@ -139,7 +142,11 @@ impl DataBlockParsable for Cluster {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (cluster_builder, raw_data_size) = intermediate;
-        let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;
+        let reader = reader.cut(
+            data_offset(header_offset, raw_data_size)?,
+            raw_data_size,
+            false,
+        )?;
         let reader = if cluster_builder.compression == CompressionType::None {
             assert_eq!(cluster_builder.data_size, raw_data_size);
             ClusterReader::Plain(reader)
diff --git a/src/reader/directory_pack/entry_store.rs b/src/reader/directory_pack/entry_store.rs
index 23d048c..8d5d391 100644
--- a/src/reader/directory_pack/entry_store.rs
+++ b/src/reader/directory_pack/entry_store.rs
@@ -57,7 +57,7 @@ impl Parsable for EntryStoreBuilder {
                 let layout = Layout::parse(parser)?;
                 Ok(layout)
             }
-            _ => todo!(),
+            _ => Err(format_error!("Entry store kind is not supported", parser)),
         }
     }
 }
@@ -72,12 +72,12 @@ impl DataBlockParsable for EntryStore {
         let entry_reader = if layout.is_entry_checked {
             let data_size =
                 layout.entry_count * (layout.entry_size + BlockCheck::Crc32.size()).into();
-            reader.cut(header_offset - data_size, data_size, false)?
+            reader.cut(data_offset(header_offset, data_size)?, data_size, false)?
         } else {
             let data_size = layout.entry_count * layout.entry_size.into();
             reader
                 .cut_check(
-                    header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+                    data_offset(header_offset, data_size + BlockCheck::Crc32.size() as u64)?,
                     data_size,
                     BlockCheck::Crc32,
                 )?
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index 325575d..cc6ec66 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -152,7 +152,7 @@ impl DataBlockParsable for ValueStore {
     ) -> Result<Self::Output> {
         let (store_builder, data_size) = intermediate;
         let reader = reader.cut_check(
-            header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+            data_offset(header_offset, data_size + BlockCheck::Crc32.size() as u64)?,
             data_size,
             BlockCheck::Crc32,
         )?;
-- 
2.43.0


From 603dd99726ccfaed51e21fad925d80858526f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:48 +0000
Subject: [PATCH 27/28] fix: a content pack in its own file is not replaced by
 an entry point with the .jbkc extension

---
 src/creator/basic_creator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index dd1ce1f..2ad2e40 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -55,6 +55,10 @@ pub struct BasicCreator {
 fn new_with_extension(path: &Utf8Path, extension: &str) -> Utf8PathBuf {
     let mut buf = path.to_path_buf();
     buf.set_extension(extension);
+    if buf == path {
+        // The file at `path` is the entry point, the pack must not be replaced by it.
+        buf = format!("{path}.{extension}").into();
+    }
     buf
 }
 
-- 
2.43.0


From 87ed3fff1eccef101d93c501bad79f6d2ce9657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 28/28] fix: locations of packs are relative to the real
 directory of the entry point

---
 src/creator/basic_creator.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index 2ad2e40..045307f 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use camino::{Utf8Path, Utf8PathBuf};
-use pathdiff::diff_utf8_paths;
+use pathdiff::diff_paths;
 
 use super::{
     content_pack::{CompHint, ContentAdder},
@@ -119,12 +119,21 @@ impl BasicCreator {
             .outpath
             .parent()
             .expect("outfile is absolute and have a parent");
-        let relative_locator = |p: Utf8PathBuf| {
+        // Paths may be relative, or go through `..` and links: compare the real directories.
+        let real_parent_path = parent_path.as_std_path().canonicalize()?;
+        let relative_locator = |p: Utf8PathBuf| -> Result<Utf8PathBuf> {
             if p.as_str().is_empty() {
-                p
-            } else {
-                diff_utf8_paths(p, parent_path).expect("outfile is absolute")
+                return Ok(p);
             }
+            let p = camino::absolute_utf8(p)?;
+            let (Some(dir), Some(name)) = (p.parent(), p.file_name()) else {
+                return Ok(p);
+            };
+            let p = dir.as_std_path().canonicalize()?.join(name);
+            let locator = diff_paths(p, &real_parent_path).expect("both paths are absolute");
+            Ok(locator
+                .try_into()
+                .map_err(camino::FromPathBufError::into_io_error)?)
         };
         entry_store_creator.finalize(&mut self.directory_pack);
         let finalized_directory_pack_creator = self.directory_pack.finalize()?;
@@ -191,11 +200,11 @@ impl BasicCreator {
 
         // Time to build our manifest
         let mut manifest_creator = ManifestPackCreator::new(self.vendor_id, Default::default());
-        manifest_creator.add_pack(directory_pack_info, relative_locator(directory_locator));
-        manifest_creator.add_pack(content_pack_info, relative_locator(content_locator));
+        manifest_creator.add_pack(directory_pack_info, relative_locator(directory_locator)?);
+        manifest_creator.add_pack(content_pack_info, relative_locator(content_locator)?);
 
         for (extra_pack_info, extra_locator) in extra_locators {
-            manifest_creator.add_pack(extra_pack_info, relative_locator(extra_locator));
+            manifest_creator.add_pack(extra_pack_info, relative_locator(extra_locator)?);
         }
 
         match container.take() {
-- 
2.43.0

