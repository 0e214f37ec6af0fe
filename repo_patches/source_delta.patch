From de545d64d0968e897734492b6536c9ed08236203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 01/26] fix: read segments that carry no metadata

The lead-in's flag says whether metadata follows; parsing it regardless
misreads the raw data as an object list, so files with a repeated write
could not be opened again.
---
 src/io/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..7950ead 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,18 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        // A segment without the meta data flag goes straight on to the raw data.
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From 0825d7f88fbd7c477a0a9aad621e6af3a22c3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 02/26] fix: write metadata when a write changes the format of
 the live channels

A second write to the same channels with another count or type left the
metadata out, so the data was indexed with the previous format.
---
 src/file/file_writer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..1916283 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -79,7 +79,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         let object = ObjectMetaData {
             path: path.to_string(),
             properties,
-            raw_data_index: crate::meta_data::RawDataIndex::None,
+            raw_data_index: RawDataIndex::None,
         };
 
         let meta = MetaData {
@@ -129,6 +129,12 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
+        // Without metadata the previous description applies, so a changed format must be written.
+        let matches_live = matches_live
+            && channels
+                .iter()
+                .all(|(_, format)| matches!(format, RawDataIndex::MatchPrevious));
+
         let meta = if matches_live {
             None
         } else {
-- 
2.43.0


From 2bab83c03eec15d6748073f9a024653e93c3f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 03/26] fix: compare the whole live object list before leaving
 out metadata

Zipping the lists treated a write to a prefix or an extension of the
live channels as a match, so its data went to the wrong channels.
---
 src/index/writing.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..00b0d30 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,17 +14,18 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
-            self.active_objects
-                .iter()
-                .zip(objects.iter())
-                .fold(true, |matches, (active, new)| {
-                    matches && active.path == new.0
-                })
-        } else {
-            //empty
-            false
-        };
+        let live_matches =
+            if !self.active_objects.is_empty() && self.active_objects.len() == objects.len() {
+                self.active_objects
+                    .iter()
+                    .zip(objects.iter())
+                    .fold(true, |matches, (active, new)| {
+                        matches && active.path == new.0
+                    })
+            } else {
+                //empty or a different number of channels
+                false
+            };
 
         let raw_data_formats = objects
             .into_iter()
-- 
2.43.0


From 05ed11f8f8ff51a80ada2915eb9dc8a6bddb6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 04/26] fix: use the stored sizes of timestamps and extended
 floats

Timestamps take 16 bytes and extended floats 10; the planned sizes of 8
and 16 gave wrong segment offsets, lengths and channel positions.
---
 src/io/data_types/extended.rs | 3 +++
 src/io/data_types/mod.rs      | 6 +++---
 src/raw_data/write.rs         | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..4d8a69d 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,9 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    // The in-memory u128 is larger than the stored value.
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..791c610 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,13 +73,13 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..c6e5a54 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.len() * D::SIZE_BYTES
     }
 }
 
-- 
2.43.0


From 053a4e45a17de02c9462a6372b6029e44d666a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 05/26] fix: correct the type codes of double and extended
 floats with unit

The format's enumeration continues from 0x19.
---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 791c610..14c7c4d 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From e42bf1c37d88aecd76964734a2bd697dc947638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 06/26] fix: account for the total size of string channels

The description of a string channel ends with the size of its data.
Leaving it unread shifted the rest of the metadata, and skipping the
channel as zero-sized values gave the wrong samples for its neighbours.
---
 src/meta_data.rs        | 22 ++++++++++++++++------
 src/raw_data/records.rs | 13 ++++++++++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..8743db0 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -286,10 +286,14 @@ impl TdmsMetaData for RawDataIndex {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                let total_size_bytes = match data_type {
+                    DataType::TdmsString => Some(reader.read_value()?),
+                    _ => None,
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
@@ -303,12 +307,15 @@ impl TdmsMetaData for RawDataIndex {
             RawDataIndex::None => writer.write_value(&0xFFFF_FFFFu32)?,
             RawDataIndex::MatchPrevious => writer.write_value(&0u32)?,
             RawDataIndex::RawData(raw_meta) => {
-                //size: until we add string support it is 20 bytes.
-                writer.write_value(&20u32)?;
+                //size: 20 bytes, plus the total size for strings.
+                writer.write_value(&(self.size() as u32))?;
                 writer.write_meta(&raw_meta.data_type)?;
                 //array dim is alway 1 in TDMS v2.0.
                 writer.write_value(&1u32)?;
-                writer.write_value(&raw_meta.number_of_values)?
+                writer.write_value(&raw_meta.number_of_values)?;
+                if let Some(total_size) = &raw_meta.total_size_bytes {
+                    writer.write_value(total_size)?;
+                }
             }
         }
         Ok(())
@@ -318,8 +325,11 @@ impl TdmsMetaData for RawDataIndex {
         match self {
             RawDataIndex::None => std::mem::size_of::<u32>(),
             RawDataIndex::MatchPrevious => std::mem::size_of::<u32>(),
-            RawDataIndex::RawData(_raw_meta) => {
-                3 * std::mem::size_of::<u32>() + std::mem::size_of::<u64>()
+            RawDataIndex::RawData(raw_meta) => {
+                let total_size = raw_meta
+                    .total_size_bytes
+                    .map_or(0, |_| std::mem::size_of::<u64>());
+                3 * std::mem::size_of::<u32>() + std::mem::size_of::<u64>() + total_size
             }
         }
     }
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..732715a 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -129,9 +129,16 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn build_base_record(channels: &[RawDataMeta]) -> Self {
         let mut plan = Vec::with_capacity(channels.len());
         for channel in channels {
-            plan.push(RecordEntry {
-                length: channel.number_of_values as usize,
-                plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+            plan.push(match channel.total_size_bytes {
+                // Variable length values are skipped as one entry.
+                Some(total_size) => RecordEntry {
+                    length: 1,
+                    plan: RecordEntryPlan::Skip(total_size as i64),
+                },
+                None => RecordEntry {
+                    length: channel.number_of_values as usize,
+                    plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+                },
             })
         }
         Self(plan)
-- 
2.43.0


From ec59e987e76cf6ee3e07fde3c308eb41a3fd60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 07/26] fix: refuse to read or write string samples

They were written in the layout of string properties with a size taken
from memory, which made the rest of the file unreadable, and read back
as if each value had its own length.
---
 src/file/file_writer.rs |  6 +++++-
 src/raw_data/records.rs | 10 +++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 1916283..21ecb13 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -1,6 +1,6 @@
 use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
-use crate::io::data_types::TdmsStorageType;
+use crate::io::data_types::{DataType, TdmsStorageType};
 use crate::io::writer::TdmsWriter;
 use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
@@ -115,6 +115,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        // String data has its own layout, which we can't write yet.
+        if D::NATURAL_TYPE == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 732715a..1933c9e 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -4,7 +4,11 @@
 //! This is used to define a read pattern for a data segment and
 //! is used by the data readers to efficiently read the data.
 
-use crate::{error::TdmsError, io::data_types::TdmsStorageType, meta_data::RawDataMeta};
+use crate::{
+    error::TdmsError,
+    io::data_types::{DataType, TdmsStorageType},
+    meta_data::RawDataMeta,
+};
 
 /// An instruction on how to move through the record based on the read instructions.
 ///
@@ -60,6 +64,10 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         let mut plan = Self::build_base_record(channels);
 
         validate_types_match(outputs, channels)?;
+        // String data has its own layout, which we can't read yet.
+        if T::NATURAL_TYPE == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(T::NATURAL_TYPE));
+        }
         plan.set_readable_records(outputs);
         plan.compress_reads();
         Ok(plan)
-- 
2.43.0


From 6c8a4eeaa41de092c9625ae93cbe727cd3d2d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 08/26] fix: allow path separators in group and channel names

---
 src/paths.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..e3f0f42 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -33,8 +33,7 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
+    let mut parts = split_path(path)
         .skip(1)
         .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
     let group = invert(parts.next())?;
@@ -48,13 +47,30 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
     Ok((group, channel))
 }
 
+/// Split the path into its parts. A separator inside the quotes is a part of the name.
+fn split_path(path: ObjectPath<'_>) -> impl Iterator<Item = &str> {
+    let mut in_name = false;
+    path.split(move |character| {
+        if character == '\'' {
+            in_name = !in_name;
+        }
+        character == '/' && !in_name
+    })
+}
+
 //expects name with quotes and removes the quotes.
 fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
+    if name.len() < 2 || !name.starts_with('\'') || !name.ends_with('\'') {
+        return None;
+    }
+
+    let name = &name[1..name.len() - 1];
+    // A quote inside of the name must be doubled.
+    if name.replace("''", "").contains('\'') {
         return None;
     }
 
-    Some(&name[1..name.len() - 1])
+    Some(name)
 }
 
 /// Get the group name for the path, if one exists.
@@ -118,13 +134,7 @@ impl PropertyPath {
 
     /// Get the levels of the path structure
     fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+        split_path(&self.0).skip(1).filter_map(parse_name)
     }
 
     /// Get the group name from the path, if there is one.
@@ -164,7 +174,7 @@ impl PropertyPath {
     }
 
     fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        split_path(&self.0).skip(1).count()
     }
 
     fn is_channel(&self) -> bool {
-- 
2.43.0


From ccc398b199a115ae2676cdeaa798eae41f079204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 09/26] fix: keep names with quotes as they are stored

---
 src/file/mod.rs |  9 ++++++++-
 src/paths.rs    | 10 +++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..31bb1cb 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,14 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        paths
+            .filter_map(|path| ChannelPath::try_from(path).ok())
+            // Another group can start with the same text when there are quotes in its name.
+            .filter(|path| {
+                group
+                    .group_name()
+                    .is_none_or(|name| name == path.group_name())
+            })
     }
 }
 
diff --git a/src/paths.rs b/src/paths.rs
index e3f0f42..dfa812f 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -198,13 +198,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        // The names in an object path are already escaped so keep the path as it is.
+        parse_path(value)?;
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From b3696cb1e35260259466ea5673e83601eb64bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 10/26] fix: track the read progress of each channel on its own

---
 src/file/channel_reader.rs | 71 ++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..3974aa7 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -1,5 +1,5 @@
 use crate::paths::ChannelPath;
-use crate::raw_data::BlockReadChannelConfig;
+use crate::raw_data::{BlockReadChannelConfig, DataBlock};
 use crate::{TdmsFile, error::TdmsError, index::DataLocation, io::data_types::TdmsStorageType};
 
 #[derive(Eq, PartialEq, Clone, Debug)]
@@ -169,26 +169,27 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            // Each channel takes its own number of samples from the block.
+            let samples_to_read = get_block_samples(&location, block, &channel_progress)?;
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &samples_to_read,
+                );
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
+                    get_block_read_data(&location, output, &channel_progress, &samples_to_read);
+                block.read(&mut self.file, &mut channels_to_read)?;
             };
 
             // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
+            for (samples, progress) in samples_to_read.iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(*samples);
             }
 
             if all_channels_complete(&channel_progress) {
@@ -200,23 +201,53 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
     }
 }
 
+/// Get the number of samples to read from this block for each channel.
+fn get_block_samples(
+    location: &BlockRead,
+    block: &DataBlock,
+    channel_progress: &[ChannelProgress],
+) -> Result<Vec<usize>, TdmsError> {
+    let chunks = block.number_of_chunks()? as u64;
+    let samples = location
+        .channel_indexes
+        .iter()
+        .zip(channel_progress.iter())
+        .map(|(plan, progress)| {
+            let Some(plan) = plan else {
+                return 0;
+            };
+            let available = (block.channels[plan.index].number_of_values * chunks)
+                .saturating_sub(plan.samples_to_skip);
+            let remaining = progress
+                .samples_target
+                .saturating_sub(progress.samples_read);
+            available.min(remaining as u64) as usize
+        })
+        .collect();
+    Ok(samples)
+}
+
 /// Get the read parameters and output for this particular block.
 fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    samples_to_read: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(samples_to_read.iter())
+        .filter_map(|(((plan, output), progress), samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => {
+                    Some((plan.index, &mut output[progress.samples_read..][..*samples]))
+                }
                 _ => None,
             }
         })
@@ -228,20 +259,22 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    samples_to_read: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(samples_to_read.iter())
+        .filter_map(|(((plan, output), progress), samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..*samples],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
-- 
2.43.0


From 2e158d5b8580b75f4fc06d36a95df47d48d2d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 11/26] fix: apply the skip of each channel on its own

---
 src/raw_data/contigious_multi_channel_read.rs | 62 ++++---------------
 .../interleaved_multi_channel_read.rs         |  8 +--
 src/raw_data/mod.rs                           |  3 +
 src/raw_data/records.rs                       | 17 +++++
 4 files changed, 34 insertions(+), 56 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..ee14cfa 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -54,53 +54,11 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
     /// To skip samples, we need to skip within each channel's contiguous data.
     pub fn read_from<D: TdmsStorageType>(
         &mut self,
-        mut channels: RecordPlan<D>,
+        channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
-        }
-
-        Ok(length)
+        let skip_amounts = vec![start_sample; channels.block_skips().count()];
+        self.read_with_per_channel_skip(channels, &skip_amounts)
     }
 
     /// Read the data from the block with per-channel skip amounts.
@@ -116,21 +74,23 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
 
         // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
+        let sub_block_lengths = channels.read_lengths();
         let sub_blocks_to_skip: Vec<u64> = skip_amounts
             .iter()
-            .map(|&skip| skip / sub_block_length)
+            .zip(sub_block_lengths.iter())
+            .map(|(&skip, &sub_block_length)| skip / sub_block_length)
             .collect();
         let remainder_skips: Vec<u64> = skip_amounts
             .iter()
-            .map(|&skip| skip % sub_block_length)
+            .zip(sub_block_lengths.iter())
+            .map(|(&skip, &sub_block_length)| skip % sub_block_length)
             .collect();
 
         let mut length = 0;
 
         for sub_block_idx in 0..total_sub_blocks {
             // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
+            let any_channel_reads = sub_blocks_to_skip.iter().any(|&skip| sub_block_idx >= skip);
 
             if !any_channel_reads {
                 // Skip entire sub-block
@@ -183,8 +143,8 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
             // Subsequent sub-blocks - no skip
             0
         } else {
-            // Should not happen if any_channel_reads is correct
-            0
+            // Another channel reads this sub-block so skip all of it for this channel.
+            u64::MAX
         }
     }
 
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..d3d4824 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -67,7 +67,9 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
 
         let mut samples_read = 0;
         for row in 0..rows_to_process {
-            let mut any_values_read = false;
+            if channels.outputs_full() {
+                break;
+            }
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
                     RecordEntryPlan::Read { output, block_skip } => {
@@ -78,7 +80,6 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                             && let Some(value) = output.next()
                         {
                             *value = read_value;
-                            any_values_read = true;
                         }
                     }
                     RecordEntryPlan::Skip(bytes) => {
@@ -86,9 +87,6 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                     }
                 };
             }
-            if !any_values_read {
-                break;
-            }
             samples_read += 1;
         }
 
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..dcb248b 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -323,6 +323,9 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
+        // The skip amounts must be in the order of the channels in the block.
+        channels_to_read.sort_by_key(|channel| channel.channel_index);
+
         // Extract skip amounts first (before mutable borrow)
         let skip_amounts: Vec<u64> = channels_to_read
             .iter()
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 1933c9e..b41c857 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -100,6 +100,23 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         })
     }
 
+    /// Have all of the outputs been filled?
+    pub fn outputs_full(&self) -> bool {
+        self.0.iter().all(|entry| match &entry.plan {
+            RecordEntryPlan::Read { output, .. } => output.len() == 0,
+            RecordEntryPlan::Skip(_) => true,
+        })
+    }
+
+    /// Get the number of values per sub-block for each read channel in the read plan.
+    pub fn read_lengths(&self) -> Vec<u64> {
+        self.0
+            .iter()
+            .filter(|entry| matches!(entry.plan, RecordEntryPlan::Read { .. }))
+            .map(|entry| entry.length as u64)
+            .collect()
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From 792624d4d136f44ff4069a2aec43f08df59856fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 12/26] fix: do not panic or spin on the sizes in a damaged
 file

---
 src/index/mod.rs                              |  2 +-
 src/raw_data/contigious_multi_channel_read.rs | 90 ++++++++++---------
 .../interleaved_multi_channel_read.rs         |  7 +-
 src/raw_data/mod.rs                           |  8 +-
 src/raw_data/records.rs                       | 14 ++-
 5 files changed, 69 insertions(+), 52 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..cb7b8bd 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -172,7 +172,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0, u64::saturating_add)
         })
     }
 
diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index ee14cfa..41be9cb 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -2,7 +2,7 @@
 //!
 //!
 
-use super::records::{RecordEntryPlan, RecordPlan};
+use super::records::{RecordEntryPlan, RecordPlan, size_in_bytes};
 use crate::io::reader::TdmsReader;
 use crate::{error::TdmsError, io::data_types::TdmsStorageType};
 use std::num::NonZeroU64;
@@ -71,61 +71,63 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
 
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
+        let sub_block_size = channels.block_size() as u64;
+        let total_sub_blocks = self.block_size.get().checked_div(sub_block_size);
+        let total_sub_blocks = total_sub_blocks.unwrap_or(0);
 
         // Calculate per-channel sub-blocks to skip and remainders
         let sub_block_lengths = channels.read_lengths();
         let sub_blocks_to_skip: Vec<u64> = skip_amounts
             .iter()
             .zip(sub_block_lengths.iter())
-            .map(|(&skip, &sub_block_length)| skip / sub_block_length)
+            .map(|(&skip, &sub_block_length)| skip.checked_div(sub_block_length).unwrap_or(0))
             .collect();
         let remainder_skips: Vec<u64> = skip_amounts
             .iter()
             .zip(sub_block_lengths.iter())
-            .map(|(&skip, &sub_block_length)| skip % sub_block_length)
+            .map(|(&skip, &sub_block_length)| skip.checked_rem(sub_block_length).unwrap_or(0))
             .collect();
 
         let mut length = 0;
 
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().any(|&skip| sub_block_idx >= skip);
-
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
-                }
-                length += self.read_sub_block(&mut channels)?;
+        // Skip the sub-blocks which no channel reads from.
+        let first_sub_block = sub_blocks_to_skip.iter().min().copied().unwrap_or(0);
+        let first_sub_block = first_sub_block.min(total_sub_blocks);
+        self.reader
+            .move_position(size_in_bytes(first_sub_block, sub_block_size)?)?;
+
+        for sub_block_idx in first_sub_block..total_sub_blocks {
+            if channels.outputs_full() {
+                break;
+            }
+            // Build skip amounts for this sub-block
+            let channel_skip_values =
+                channels
+                    .read_instructions()
+                    .iter_mut()
+                    .filter_map(|instruction| {
+                        if let RecordEntryPlan::Read {
+                            block_skip: skip_first_samples,
+                            ..
+                        } = &mut instruction.plan
+                        {
+                            Some(skip_first_samples)
+                        } else {
+                            None
+                        }
+                    });
+            for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
+                .iter()
+                .zip(remainder_skips.iter())
+                .zip(channel_skip_values)
+            {
+                *sub_block_skip = Self::calculate_skip_for_this_block(
+                    sub_block_idx,
+                    *blocks_to_skip,
+                    *remainder_skip,
+                );
             }
+            length += self.read_sub_block(&mut channels)?;
         }
 
         Ok(length)
@@ -166,7 +168,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
 
                     // Skip samples by seeking
                     if skip > 0 {
-                        let skip_bytes = skip as i64 * D::SIZE_BYTES as i64;
+                        let skip_bytes = size_in_bytes(skip as u64, D::SIZE_BYTES as u64)?;
                         self.reader.move_position(skip_bytes)?;
                     }
 
@@ -174,7 +176,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
                     length = self.read_sequential_samples(output, samples_to_read)?;
                 }
                 RecordEntryPlan::Skip(bytes) => {
-                    let skip_bytes = *bytes * read_instruction.length as i64;
+                    let skip_bytes = size_in_bytes(read_instruction.length as u64, *bytes as u64)?;
                     self.reader.move_position(skip_bytes)?;
                 }
             };
@@ -198,7 +200,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         let unread_samples = samples_to_read - length;
         if unread_samples > 0 {
             self.reader
-                .move_position(unread_samples as i64 * D::SIZE_BYTES as i64)?;
+                .move_position(size_in_bytes(unread_samples as u64, D::SIZE_BYTES as u64)?)?;
         }
         Ok(length)
     }
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index d3d4824..aaffbfc 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -2,7 +2,7 @@
 //!
 //!
 
-use super::records::{RecordEntryPlan, RecordPlan};
+use super::records::{RecordEntryPlan, RecordPlan, size_in_bytes};
 use crate::io::reader::TdmsReader;
 use crate::{error::TdmsError, io::data_types::TdmsStorageType};
 use std::num::NonZeroU64;
@@ -46,14 +46,15 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         mut channels: RecordPlan<D>,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
-        let total_row_count = self.block_size.get() / channels.row_size() as u64;
+        let row_size = channels.row_size() as u64;
+        let total_row_count = self.block_size.get().checked_div(row_size).unwrap_or(0);
 
         // Find minimum skip (we can skip entire rows up to this point)
         let min_skip = channels.block_skips().min().unwrap_or(0);
 
         // Skip entire rows
         if min_skip > 0 {
-            let skip_bytes = min_skip as i64 * channels.row_size() as i64;
+            let skip_bytes = size_in_bytes(min_skip, row_size)?;
             self.reader.move_position(skip_bytes)?;
         }
 
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index dcb248b..4390ed2 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -142,8 +142,14 @@ impl DataBlock {
             return Err(TdmsError::NoActiveChannelsInDataBlock);
         }
 
+        let start = segment
+            .raw_data_offset
+            .checked_add(LEAD_IN_BYTES)
+            .and_then(|offset| offset.checked_add(segment_start))
+            .ok_or(TdmsError::SegmentAddressOverflow)?;
+
         Ok(DataBlock {
-            start: segment.raw_data_offset + LEAD_IN_BYTES + segment_start,
+            start,
             length,
             layout,
             channels: active_channels_meta,
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index b41c857..d2aeb9b 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -129,7 +129,7 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
                 Some(bytes) => bytes,
                 None => todo!("Variable length records not yet supported"),
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     /// Get the size of the entire written block based on the structure.
@@ -145,9 +145,9 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
                     .plan
                     .entry_size_bytes()
                     .expect("Variable length records not yet supported")
-                    * entry.length
+                    .saturating_mul(entry.length)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     /// Build a base record structure which just skips all channels.
@@ -183,6 +183,14 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn compress_reads(&mut self) {}
 }
 
+/// The size of a number of entries, as an offset to move by.
+pub fn size_in_bytes(count: u64, entry_size: u64) -> Result<i64, TdmsError> {
+    count
+        .checked_mul(entry_size)
+        .and_then(|size| i64::try_from(size).ok())
+        .ok_or(TdmsError::ChunkSizeOverflow)
+}
+
 fn validate_types_match<T: TdmsStorageType>(
     outputs: &[(usize, &mut [T])],
     channels: &[RawDataMeta],
-- 
2.43.0


From 02e76eac9820381ecc0e477c373935ddaaf7692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 13/26] fix: reject a raw data offset beyond any segment

---
 src/io/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7950ead..dd95f19 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -43,8 +43,11 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
     /// Called immediately after ToC has been read so we have determined the endianess.
     fn read_segment(&mut self, toc: ToC) -> Result<Segment, TdmsError> {
         let _version: u32 = self.read_value()?;
-        let next_segment_offset = self.read_value()?;
-        let raw_data_offset = self.read_value()?;
+        let next_segment_offset: u64 = self.read_value()?;
+        let raw_data_offset: u64 = self.read_value()?;
+        if raw_data_offset > next_segment_offset {
+            return Err(TdmsError::InvalidRawOffset);
+        }
 
         // A segment without the meta data flag goes straight on to the raw data.
         let meta_data = if toc.contains_meta_data {
-- 
2.43.0


From 4f7a57eac56d5c9b9b6a7c760c89b0d06d820e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 14/26] fix: recognise DAQmx channels in little endian segments

---
 src/meta_data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index 8743db0..3c273ef 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -282,8 +282,13 @@ impl TdmsMetaData for RawDataIndex {
             0xFFFF_FFFF => RawDataIndex::None,
             0x69120000..=0x6912FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), // daqmx 1
             0x69130000..=0x6913FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), //daqmx 2
+            // The same headers in a little endian segment.
+            0x1269 | 0x126A | 0x1369 => return Err(TdmsError::DaqmxChannelsNotSupported),
             _ => {
                 let data_type: DataType = reader.read_meta()?;
+                if data_type == DataType::DAQmxRawData {
+                    return Err(TdmsError::DaqmxChannelsNotSupported);
+                }
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
                 let total_size_bytes = match data_type {
-- 
2.43.0


From 056023afcd1693db6e5cd24082c449fa0de327c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 15/26] fix: refuse a write without samples before it reaches
 the file

---
 src/file/file_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 21ecb13..d4d5ea5 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -119,6 +119,9 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         if D::NATURAL_TYPE == DataType::TdmsString {
             return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
         }
+        if values.is_empty() {
+            return Err(TdmsError::ZeroLengthDataBlock);
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From 977da8b7307ba44314d041c0d665328abc3e9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 16/26] fix: report a failure to seek while indexing the file

---
 src/file/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 31bb1cb..85d7440 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -5,7 +5,7 @@ mod file_writer;
 
 use std::{
     fs::File,
-    io::{Read, Seek, SeekFrom, Write},
+    io::{ErrorKind, Read, Seek, SeekFrom, Write},
     path::Path,
 };
 
@@ -63,8 +63,11 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<Index, TdmsError> {
         match Segment::read(file) {
             Ok(segment) => {
                 let next_segment = index.add_segment(segment)?;
-                if file.seek(SeekFrom::Start(next_segment)).is_err() {
-                    break;
+                match file.seek(SeekFrom::Start(next_segment)) {
+                    Ok(_) => {}
+                    // The address is beyond any position that the file can have.
+                    Err(e) if e.kind() == ErrorKind::InvalidInput => break,
+                    Err(e) => return Err(e.into()),
                 }
             }
             Err(TdmsError::EndOfFile) => break,
-- 
2.43.0


From d2229c27bc8b6d5a49fab337d4d8f3beb44e58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 17/26] fix: keep a live channel in the object list when
 writing its properties

---
 src/file/file_writer.rs | 9 ++++++++-
 src/index/writing.rs    | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index d4d5ea5..27ebf68 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -76,10 +76,17 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
             .map(|(name, value)| (name.to_string(), (*value).clone()))
             .collect();
 
+        // A channel with live data keeps its place in the following data segments.
+        let raw_data_index = if self.index.is_active(path) {
+            RawDataIndex::MatchPrevious
+        } else {
+            RawDataIndex::None
+        };
+
         let object = ObjectMetaData {
             path: path.to_string(),
             properties,
-            raw_data_index: RawDataIndex::None,
+            raw_data_index,
         };
 
         let meta = MetaData {
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 00b0d30..c8695f9 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -4,6 +4,7 @@
 //! They are split out to manage the module sizes.
 
 use crate::meta_data::RawDataIndex;
+use crate::paths::ObjectPath;
 
 use super::{DataFormat, Index};
 
@@ -44,6 +45,11 @@ impl Index {
             .collect();
         (live_matches, raw_data_formats)
     }
+
+    /// Checks if data for the object is expected in the next data block.
+    pub fn is_active(&self, path: ObjectPath<'_>) -> bool {
+        self.active_objects.iter().any(|active| active.path == path)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 67430b2bbdea2c60fad9e600de9658de1a2a2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 18/26] fix: refuse to extend a file with an incomplete segment

---
 src/error.rs     | 4 ++++
 src/file/mod.rs  | 6 +++++-
 src/index/mod.rs | 5 +++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4fa54fc..bbe3ba9 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -67,6 +67,10 @@ pub enum TdmsError {
         "The calculated size for a data chunk is grater than 2^64 bytes. This isn't allowed and probably indicates a corrupt file."
     )]
     ChunkSizeOverflow,
+    #[error(
+        "The file ends at {1} but the last segment ends at {0}. The file is incomplete and can't be extended."
+    )]
+    IncompleteFile(u64, u64),
     #[error("DAQmx Channels are not supported yet")]
     DaqmxChannelsNotSupported,
     #[cfg(feature = "chrono")]
diff --git a/src/file/mod.rs b/src/file/mod.rs
index 85d7440..48660ff 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -190,7 +190,11 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
         //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        let end = self.file.seek(SeekFrom::End(0))?;
+        let expected_end = self.index.next_segment_start();
+        if end != expected_end {
+            return Err(TdmsError::IncompleteFile(expected_end, end));
+        }
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index cb7b8bd..683f1f9 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -176,6 +176,11 @@ impl Index {
         })
     }
 
+    /// Get the position where the next segment should start.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
+
     pub fn get_data_block(&self, index: usize) -> Option<&DataBlock> {
         self.data_blocks.get(index)
     }
-- 
2.43.0


From f3cb502fb2e3aad5f52914451f3c612901978cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 19/26] fix: refuse to write or sync after a write that failed
 part way

---
 src/error.rs            |  2 ++
 src/file/file_writer.rs | 30 +++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index bbe3ba9..c69e1d8 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -71,6 +71,8 @@ pub enum TdmsError {
         "The file ends at {1} but the last segment ends at {0}. The file is incomplete and can't be extended."
     )]
     IncompleteFile(u64, u64),
+    #[error("A previous write has failed part way so no more can be written to the file.")]
+    WriteIncomplete,
     #[error("DAQmx Channels are not supported yet")]
     DaqmxChannelsNotSupported,
     #[cfg(feature = "chrono")]
diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 27ebf68..b1c96f6 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -12,6 +12,8 @@ use std::num::NonZeroUsize;
 pub struct TdmsFileWriter<'a, F: Write + 'a, W: TdmsWriter<&'a mut F>> {
     index: &'a mut Index,
     writer: W,
+    /// Set once a write has failed part way so the end of the file is unknown.
+    write_incomplete: bool,
     _file: std::marker::PhantomData<F>,
 }
 
@@ -25,6 +27,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         Self {
             index,
             writer,
+            write_incomplete: false,
             _file: std::marker::PhantomData,
         }
     }
@@ -42,9 +45,11 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
-        let stream = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)?;
-        stream.end_stream()?;
-        Ok(())
+        self.check_writable()?;
+        let result = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)
+            .and_then(|stream| stream.end_stream());
+        self.write_incomplete = matches!(result, Err(TdmsError::IoError(_)));
+        result
     }
 
     /// Write the properties to the given path.
@@ -70,6 +75,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         path: &PropertyPath,
         properties: &[(&str, PropertyValue)],
     ) -> Result<(), TdmsError> {
+        self.check_writable()?;
         let path = path.path();
         let properties = properties
             .iter()
@@ -93,15 +99,25 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
             objects: vec![object],
         };
 
-        let segment =
-            self.writer
-                .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None)?;
-        self.index.add_segment(segment)?;
+        let result = self
+            .writer
+            .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None);
+        self.write_incomplete = result.is_err();
+        self.index.add_segment(result?)?;
+        Ok(())
+    }
+
+    /// More segments can't be added after one that is incomplete.
+    fn check_writable(&self) -> Result<(), TdmsError> {
+        if self.write_incomplete {
+            return Err(TdmsError::WriteIncomplete);
+        }
         Ok(())
     }
 
     /// Forces the file to sync to disk by calling the sync method on the writer.
     pub fn sync(&mut self) -> Result<(), TdmsError> {
+        self.check_writable()?;
         self.writer.sync()
     }
 }
-- 
2.43.0


From 99abe54c60dca34bc8a23931ed16d3c857f3e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 20/26] fix: refuse text longer than its length field can hold

---
 src/error.rs            |  2 ++
 src/file/file_writer.rs | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index c69e1d8..6622091 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -73,6 +73,8 @@ pub enum TdmsError {
     IncompleteFile(u64, u64),
     #[error("A previous write has failed part way so no more can be written to the file.")]
     WriteIncomplete,
+    #[error("A name or text of {0} bytes is longer than the TDMS format can store.")]
+    TextTooLong(usize),
     #[error("DAQmx Channels are not supported yet")]
     DaqmxChannelsNotSupported,
     #[cfg(feature = "chrono")]
diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index b1c96f6..08ba5ef 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -46,6 +46,9 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
         self.check_writable()?;
+        for channel in channels {
+            check_text_length(channel.as_ref().path())?;
+        }
         let result = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)
             .and_then(|stream| stream.end_stream());
         self.write_incomplete = matches!(result, Err(TdmsError::IoError(_)));
@@ -77,6 +80,13 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
     ) -> Result<(), TdmsError> {
         self.check_writable()?;
         let path = path.path();
+        check_text_length(path)?;
+        for (name, value) in properties {
+            check_text_length(name)?;
+            if let PropertyValue::String(text) = value {
+                check_text_length(text)?;
+            }
+        }
         let properties = properties
             .iter()
             .map(|(name, value)| (name.to_string(), (*value).clone()))
@@ -122,6 +132,14 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
     }
 }
 
+/// Lengths of text are stored as 32 bits.
+fn check_text_length(text: &str) -> Result<(), TdmsError> {
+    match u32::try_from(text.len()) {
+        Ok(_) => Ok(()),
+        Err(_) => Err(TdmsError::TextTooLong(text.len())),
+    }
+}
+
 struct DataStreamWriter<'a, F: Write, W: TdmsWriter<F>> {
     index: &'a mut Index,
     writer: &'a mut W,
-- 
2.43.0


From 16c81c73fde80c8549322878e6470d80c8820f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 21/26] fix: report timestamps beyond any calendar time rather
 than overflowing

---
 src/properties.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index e67d479..647958d 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -269,16 +269,23 @@ impl<'a> TryFrom<&'a PropertyValue> for &'a str {
 mod chrono_support {
     use super::*;
     use chrono::{DateTime, Utc};
+    use labview_interop::types::timestamp::{LVTimeError, UNIX_EPOCH_IN_LV_SECONDS_I64};
+
+    fn to_date_time(lvtime: LVTime) -> Result<DateTime<Utc>, TdmsError> {
+        // The shift between the epochs must not overflow.
+        lvtime
+            .seconds()
+            .checked_sub(UNIX_EPOCH_IN_LV_SECONDS_I64)
+            .ok_or(LVTimeError::ChronoOutOfRange)
+            .and_then(|_| lvtime.try_into())
+            .map_err(TdmsError::ChronoDateTimeConversionFailed)
+    }
 
     impl TryFrom<PropertyValue> for DateTime<Utc> {
         type Error = TdmsError;
 
         fn try_from(value: PropertyValue) -> Result<Self, Self::Error> {
-            let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_date_time(value.try_into()?)
         }
     }
 
@@ -286,11 +293,7 @@ mod chrono_support {
         type Error = TdmsError;
 
         fn try_from(value: &'a PropertyValue) -> Result<Self, Self::Error> {
-            let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            to_date_time(value.try_into()?)
         }
     }
 
-- 
2.43.0


From b3ea1eeddfefda2918ac85596d75b0ad1842e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 22/26] fix: convert timestamps at the very end of a second to
 calendar times

---
 src/properties.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 647958d..b37c126 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -272,9 +272,11 @@ mod chrono_support {
     use labview_interop::types::timestamp::{LVTimeError, UNIX_EPOCH_IN_LV_SECONDS_I64};
 
     fn to_date_time(lvtime: LVTime) -> Result<DateTime<Utc>, TdmsError> {
+        let (seconds, fractions) = lvtime.to_parts();
+        // Keep within the precision of f64 so it doesn't round up to a whole second.
+        let lvtime = LVTime::from_parts(seconds, fractions.min(u64::MAX << 11));
         // The shift between the epochs must not overflow.
-        lvtime
-            .seconds()
+        seconds
             .checked_sub(UNIX_EPOCH_IN_LV_SECONDS_I64)
             .ok_or(LVTimeError::ChronoOutOfRange)
             .and_then(|_| lvtime.try_into())
-- 
2.43.0


From cfc5140f48fafa93543cb86cbfac8f2edcb60ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 23/26] fix: fill every output of a channel that is read more
 than once

---
 src/file/channel_reader.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 3974aa7..d186ee8 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -1,6 +1,7 @@
 use crate::paths::ChannelPath;
 use crate::raw_data::{BlockReadChannelConfig, DataBlock};
 use crate::{TdmsFile, error::TdmsError, index::DataLocation, io::data_types::TdmsStorageType};
+use std::collections::HashSet;
 
 #[derive(Eq, PartialEq, Clone, Debug)]
 struct ChannelReadPlan {
@@ -132,6 +133,19 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             })
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
+        // A channel's data in a block goes to a single output, so a channel with several
+        // outputs is read for each of them.
+        let mut paths = HashSet::new();
+        if !channels
+            .iter()
+            .all(|path| paths.insert(path.as_ref().path()))
+        {
+            for (channel, output) in channels.iter().zip(output.iter_mut()) {
+                self.read_channel_from(channel.as_ref(), start, output)?;
+            }
+            return Ok(());
+        }
+
         let start_skips: Vec<u64> = vec![start; channels.len()];
         let plan = read_plan(&channel_positions[..], &start_skips);
 
-- 
2.43.0


From a2312ccf0c6d52c6b0d208488ab0a259d58ed209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 24/26] fix: refuse a write that names a channel twice

---
 src/error.rs            | 2 ++
 src/file/file_writer.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 6622091..f17de8b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -43,6 +43,8 @@ pub enum TdmsError {
     InvalidChannelPath(String),
     #[error("Data blocks must have at least 1 channel")]
     NoChannels,
+    #[error("A channel can only be given once in a write. {0}")]
+    DuplicateChannel(ObjectPathOwned),
     #[error("Memory allocation error for vector. This is likely to be due to file corruption.")]
     VecAllocationFailed,
     #[error("Memory allocation error for string. This is likely to be due to file corruption.")]
diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 08ba5ef..ef33e7a 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -6,6 +6,7 @@ use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
+use std::collections::HashSet;
 use std::io::Write;
 use std::num::NonZeroUsize;
 
@@ -46,8 +47,14 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
         self.check_writable()?;
+        let mut paths = HashSet::new();
         for channel in channels {
-            check_text_length(channel.as_ref().path())?;
+            let path = channel.as_ref().path();
+            check_text_length(path)?;
+            // A segment can only hold one set of data for a channel.
+            if !paths.insert(path) {
+                return Err(TdmsError::DuplicateChannel(path.to_owned()));
+            }
         }
         let result = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)
             .and_then(|stream| stream.end_stream());
-- 
2.43.0


From 40556b9d3ec77815d81b4a57091ca6cd2af26d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 25/26] fix: keep the sub-seconds of calendar times before 1904

---
 src/properties.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/properties.rs b/src/properties.rs
index b37c126..70d8fbb 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -301,7 +301,17 @@ mod chrono_support {
 
     impl From<DateTime<Utc>> for PropertyValue {
         fn from(value: DateTime<Utc>) -> Self {
-            PropertyValue::Timestamp(value.into())
+            // Going through f64 loses the sub-seconds of times before 1904.
+            const NANOS_PER_SECOND: u32 = 1_000_000_000;
+            // More than a second of nanoseconds marks a leap second.
+            let nanos = value.timestamp_subsec_nanos();
+            let seconds = value.timestamp()
+                + UNIX_EPOCH_IN_LV_SECONDS_I64
+                + i64::from(nanos / NANOS_PER_SECOND);
+            // Round up so that the way back does not round to the nanosecond before.
+            let fractions =
+                (u128::from(nanos % NANOS_PER_SECOND) << 64).div_ceil(u128::from(NANOS_PER_SECOND));
+            PropertyValue::Timestamp(LVTime::from_parts(seconds, fractions as u64))
         }
     }
 
-- 
2.43.0


From 1c69c237f193bed97b8817ec38e2b91277abbf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 26/26] fix: drop data of an object that a segment lists
 without data

---
 src/index/building.rs | 20 ++++++++++++++++++--
 src/index/writing.rs  | 27 ++++++++++++++-------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index 01a8101..3a5d4af 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -19,6 +19,8 @@ use super::{DataFormat, DataLocation, ObjectData, ObjectIndex};
 pub struct ActiveObject {
     pub path: String,
     pub number_of_samples: u64,
+    /// False if the object is listed without data. It keeps its place in case it gets data again.
+    pub has_data: bool,
 }
 
 impl ActiveObject {
@@ -31,12 +33,14 @@ impl ActiveObject {
         Self {
             path,
             number_of_samples,
+            has_data: true,
         }
     }
     fn update(&mut self, meta: &ObjectMetaData) {
         if let RawDataIndex::RawData(ref raw) = meta.raw_data_index {
             self.number_of_samples = raw.number_of_values;
         }
+        self.has_data = true;
     }
 
     /// Fetch the corresponding [`ObjectData`] for the active object.
@@ -73,7 +77,10 @@ impl super::Index {
         if let Some(meta_data) = &segment.meta_data {
             for obj in meta_data.objects.iter() {
                 match obj.raw_data_index {
-                    RawDataIndex::None => self.update_meta_object(obj)?,
+                    RawDataIndex::None => {
+                        self.update_meta_object(obj)?;
+                        self.exclude_from_data(&obj.path);
+                    }
                     _ => self.update_or_activate_data_object(obj)?,
                 }
             }
@@ -104,6 +111,7 @@ impl super::Index {
     fn get_active_raw_data_meta(&self) -> Vec<RawDataMeta> {
         self.active_objects
             .iter()
+            .filter(|ao| ao.has_data)
             .map(|ao| {
                 ao.get_object_data(&self.objects)
                     .latest_data_format
@@ -124,7 +132,8 @@ impl super::Index {
 
         self.data_blocks.push(block);
 
-        for (channel_index, active_object) in self.active_objects.iter_mut().enumerate() {
+        let objects_with_data = self.active_objects.iter_mut().filter(|ao| ao.has_data);
+        for (channel_index, active_object) in objects_with_data.enumerate() {
             let number_of_samples = active_object
                 .number_of_samples
                 .checked_mul(chunks as u64)
@@ -148,6 +157,13 @@ impl super::Index {
         self.active_objects.clear();
     }
 
+    /// Mark an active object as having no data from this segment on.
+    fn exclude_from_data(&mut self, path: ObjectPath) {
+        if let Some(active) = self.active_objects.iter_mut().find(|ao| ao.path == path) {
+            active.has_data = false;
+        }
+    }
+
     /// Activate Data Object
     ///
     /// Adds the object by path to the active objects. Creates it if it doesn't exist.
diff --git a/src/index/writing.rs b/src/index/writing.rs
index c8695f9..cf59a73 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -15,18 +15,17 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches =
-            if !self.active_objects.is_empty() && self.active_objects.len() == objects.len() {
-                self.active_objects
-                    .iter()
-                    .zip(objects.iter())
-                    .fold(true, |matches, (active, new)| {
-                        matches && active.path == new.0
-                    })
-            } else {
-                //empty or a different number of channels
-                false
-            };
+        let live_objects = self.active_objects.iter().filter(|active| active.has_data);
+        let live_matches = if !objects.is_empty() && live_objects.clone().count() == objects.len() {
+            live_objects
+                .zip(objects.iter())
+                .fold(true, |matches, (active, new)| {
+                    matches && active.path == new.0
+                })
+        } else {
+            //empty or a different number of channels
+            false
+        };
 
         let raw_data_formats = objects
             .into_iter()
@@ -48,7 +47,9 @@ impl Index {
 
     /// Checks if data for the object is expected in the next data block.
     pub fn is_active(&self, path: ObjectPath<'_>) -> bool {
-        self.active_objects.iter().any(|active| active.path == path)
+        self.active_objects
+            .iter()
+            .any(|active| active.has_data && active.path == path)
     }
 }
 
-- 
2.43.0

