From 4217d7c86aa745e3dffdb3f351ba3c89b51156e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 01/27] fix: reject index entries whose reported length is
 smaller than their header

---
 src/index_entry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..feef4b9 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,15 @@ where
             });
         }
 
+        // The reported length must cover at least the Index Entry header itself.
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: INDEX_ENTRY_HEADER_SIZE as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From b827f9c66b3c4acb35b588c6b4d8f89a046ce0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 02/27] fix: keep index entries within the used part of their
 index node

---
 src/index_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index feef4b9..83fcb29 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -352,7 +352,10 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));
+        let entry = iter_try!(NtfsIndexEntry::<E>::new(
+            &self.data[self.range.clone()],
+            position
+        ));
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
-- 
2.43.0


From 540d736c997204601343299fa9b61f1608a8a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 03/27] fix: avoid integer overflow when validating index
 record sizes

---
 src/index_record.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..e46c793 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -153,7 +153,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -164,7 +165,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
-- 
2.43.0


From 31d7a1da8d4b8b263d4ae72efe71b14f6ee93157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 04/27] fix: reject index records whose entries start after the
 used index data

---
 src/error.rs        |  6 ++++++
 src/index_record.rs | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..83ca03d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -84,6 +84,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but the Index Record only has a used size of {actual} bytes
+    InvalidIndexEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
     /// The NTFS Index Entry at byte position {position:#x} references a data field in the range {range:?}, but the entry only has a size of {size} bytes
     InvalidIndexEntryDataRange {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index e46c793..22163f7 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -174,6 +174,16 @@ impl NtfsIndexRecord {
             });
         }
 
+        // Finally, the index entries must not start after the used index data.
+        let entries_start = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_entries_offset());
+        if entries_start > total_data_size {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.record.position(),
+                expected: entries_start,
+                actual: total_data_size,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 2fbbc9106e9a20fc35e6ba413caccc393eac6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 05/27] fix: reject index record sizes that cannot fit the
 index record headers

---
 src/index_record.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/index_record.rs b/src/index_record.rs
index 22163f7..cbd1090 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -66,6 +66,17 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        // The Index Record must at least fit its headers.
+        // All further functions rely on that.
+        let min_index_record_size = INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32;
+        if index_record_size < min_index_record_size {
+            return Err(NtfsError::InvalidIndexAllocatedSize {
+                position: data_position,
+                expected: index_record_size,
+                actual: min_index_record_size,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
-- 
2.43.0


From 95d4fbcd6d28f2d38efd28ee16128a7e178e46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 06/27] fix: reject index roots whose entries start after the
 used index data

---
 src/structured_values/index_root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..a8b84b9 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -153,6 +153,14 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        if entries_range.start > entries_range.end {
+            return Err(NtfsError::InvalidIndexRootEntriesOffset {
+                position: self.position,
+                expected: entries_range.start,
+                actual: entries_range.end,
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From a7359c21121341503c2090b5d63b2303e4076964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 07/27] fix: avoid integer overflow for update sequence arrays
 at high offsets

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..915acf6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 5ae9c09f22694bebe93c43043c1abbac46e198c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 08/27] fix: reject attributes too short for their resident or
 non-resident header

---
 src/attribute.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..0084036 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -28,6 +28,12 @@ use crate::types::{NtfsPosition, Vcn};
 /// Size of all [`NtfsAttributeHeader`] fields.
 const ATTRIBUTE_HEADER_SIZE: usize = 16;
 
+/// Size of all [`NtfsResidentAttributeHeader`] fields plus some reserved bytes.
+const RESIDENT_ATTRIBUTE_HEADER_SIZE: usize = 24;
+
+/// Size of all [`NtfsNonResidentAttributeHeader`] fields.
+const NON_RESIDENT_ATTRIBUTE_HEADER_SIZE: usize = 64;
+
 /// On-disk structure of the generic header of an NTFS Attribute.
 #[repr(C, packed)]
 struct NtfsAttributeHeader {
@@ -432,6 +438,20 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        // The attribute must also fit the extra header fields for its (non-)resident value.
+        let header_size = if self.is_resident() {
+            RESIDENT_ATTRIBUTE_HEADER_SIZE
+        } else {
+            NON_RESIDENT_ATTRIBUTE_HEADER_SIZE
+        };
+        if attribute_length < header_size {
+            return Err(NtfsError::InvalidAttributeLength {
+                position: self.position(),
+                expected: header_size,
+                actual: attribute_length,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From b30899fb13bd77cef114e2feb84cfa1b9fc39083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 09/27] fix: report the actual data position of resident
 attribute values

---
 src/attribute.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 0084036..904a04f 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -366,7 +366,8 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        let position = self.file.position() + start;
+        Ok(NtfsResidentAttributeValue::new(data, position))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From 4130c2e764ae9bb0b5be64541328e8f8d01a7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 10/27] fix: return an I/O error instead of panicking when a
 structure is truncated

---
 src/error.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 83ca03d..fac8897 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -235,11 +235,12 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
-        if let binrw::error::Error::Io(io_error) = error {
-            Self::Io(io_error)
-        } else {
+        match error {
+            binrw::error::Error::Io(io_error) => Self::Io(io_error),
+            // binrw wraps errors that occur while reading a structure field.
+            binrw::error::Error::Backtrace(backtrace) => Self::from(*backtrace.error),
             // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            error => unreachable!("Got a binrw error of unexpected type: {:?}", error),
         }
     }
 }
-- 
2.43.0


From 2282163d49a86945d2abbc002b105513738191c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 11/27] fix: return an error when a data run lies beyond the
 end of the filesystem

---
 src/attribute_value/non_resident.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..ae22645 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -655,7 +655,12 @@ impl StreamState {
         // Perform the actual read.
         let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
         if bytes_read_in_data_run == 0 {
-            return Ok(false);
+            // There is something left to read in this Data Run, but the filesystem reader is already at its end.
+            // We must not continue with the next Data Run and return its data in place of the missing one.
+            return Err(NtfsError::Io(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "unexpected end of the filesystem within a Data Run",
+            )));
         }
 
         *bytes_read += bytes_read_in_data_run;
-- 
2.43.0


From 1d860cf9fff1847c0eeb7b7f2991e315f7fd867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 12/27] fix: report the same data run error again on subsequent
 calls

---
 src/attribute_value/non_resident.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index ae22645..f774070 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -411,8 +411,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
+            let position = iter_try!(new_lcn.position(self.ntfs));
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            position
         } else {
             // This is a sparse Data Run.
             NtfsPosition::none()
-- 
2.43.0


From 2bdcebf593a5debe253647843af273d2bc084975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 13/27] fix: reject data runs whose end exceeds the addressable
 range

---
 src/attribute_value/non_resident.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f774070..d908f7e 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -412,6 +412,15 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                 }
             ));
             let position = iter_try!(new_lcn.position(self.ntfs));
+
+            // The end of the Data Run must also be a valid position within the filesystem.
+            if let Some(start) = position.value() {
+                iter_try!(start
+                    .get()
+                    .checked_add(allocated_size)
+                    .ok_or(NtfsError::LcnTooBig { lcn: new_lcn }));
+            }
+
             self.state.previous_lcn = new_lcn;
             position
         } else {
-- 
2.43.0


From 0a0bdba710b79c8e7818b5a410358172edd352e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 14/27] fix: read data runs located at the very beginning of
 the filesystem

---
 src/attribute_value/non_resident.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index d908f7e..129dbc3 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -401,7 +401,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         ));
 
         // The VCN may either indicate "real" data or a sparse Data Run.
-        let position = if vcn.value() != 0 {
+        // Only a missing VCN denotes a sparse Data Run. A VCN of zero is a valid location.
+        let is_sparse = vcn_byte_count == 0;
+        let position = if !is_sparse {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
@@ -433,7 +435,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         let bytes_to_advance = cursor.stream_position().unwrap() as usize;
         self.state.offset += bytes_to_advance;
 
-        let data_run = NtfsDataRun::new(position, allocated_size);
+        let data_run = NtfsDataRun::new(position, allocated_size, is_sparse);
         Some(Ok(data_run))
     }
 }
@@ -454,21 +456,25 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
+    /// This is `NtfsPosition(None)` if this is a "sparse" Data Run or if it is located at the very beginning
+    /// of the filesystem.
     position: NtfsPosition,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
     /// Current relative position within the Data Run value, in bytes.
     stream_position: u64,
+    /// Whether this is a "sparse" Data Run, which has no position and reads as zeros.
+    is_sparse: bool,
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: NtfsPosition, allocated_size: u64, is_sparse: bool) -> Self {
         Self {
             position,
             allocated_size,
             stream_position: 0,
+            is_sparse,
         }
     }
 
@@ -506,14 +512,19 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
-            // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
-            fs.read(work_slice)?
-        } else {
+        let bytes_read = if self.is_sparse {
             // This is a sparse Data Run.
             work_slice.fill(0);
             work_slice.len()
+        } else {
+            // This Data Run contains "real" data.
+            // Note that `NtfsPosition` cannot represent a Data Run at the very beginning of the filesystem.
+            let position = match self.position.value() {
+                Some(position) => position.get(),
+                None => 0,
+            };
+            fs.seek(SeekFrom::Start(position + self.stream_position))?;
+            fs.read(work_slice)?
         };
 
         self.stream_position += bytes_read as u64;
-- 
2.43.0


From 1fbfa4da3166407658afca84bb899bae72e7e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 15/27] fix: keep the data position when reading up to the end
 of a non-resident value

---
 src/attribute_value/attribute_list_non_resident.rs | 5 +++++
 src/attribute_value/non_resident.rs                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..a43fed5 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -204,6 +204,11 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
                 continue;
             }
 
+            // Stay in the current Data Run if we have reached the end of the (used) data.
+            if self.stream_position() >= self.len() {
+                break;
+            }
+
             // Move to the next Data Run of the current attribute.
             if self.next_data_run()? {
                 // We got another Data Run of the current attribute, so read again.
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 129dbc3..5c01d03 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -133,6 +133,11 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
                 continue;
             }
 
+            // Stay in the current Data Run if we have reached the end of the (used) data.
+            if self.stream_position() >= self.len() {
+                break;
+            }
+
             // Move to the next Data Run.
             if self.next_data_run()? {
                 // We got another Data Run, so read again.
-- 
2.43.0


From fa2ff69b5004aefadea446b8e4a4d0b61b856ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 16/27] fix: pad the fields of a formatted GUID with zeros

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From 330b1d0330cd5fc05c885eabe5f902d880c8ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 17/27] fix: forget the current attribute when rewinding an
 attribute list value

---
 src/attribute_value/attribute_list_non_resident.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index a43fed5..c416b75 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -183,6 +183,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
+        self.attribute_state = None;
         self.stream_state = StreamState::new(self.len());
         self.next_attribute(fs)?;
 
-- 
2.43.0


From 0bf4a70ab41cc53c2491e9f866cf483df46d761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 18/27] fix: name the right attribute type in volume
 information errors

---
 src/structured_values/volume_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structured_values/volume_information.rs b/src/structured_values/volume_information.rs
index 07e42ff..cfc0da9 100644
--- a/src/structured_values/volume_information.rs
+++ b/src/structured_values/volume_information.rs
@@ -71,7 +71,7 @@ impl NtfsVolumeInformation {
         if value_length < VOLUME_INFORMATION_SIZE as u64 {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
-                ty: NtfsAttributeType::StandardInformation,
+                ty: NtfsAttributeType::VolumeInformation,
                 expected: VOLUME_INFORMATION_SIZE as u64,
                 actual: value_length,
             });
-- 
2.43.0


From 9e439958f631b11cd45a171333d925e4a1f0312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 19/27] fix: return an error for system times beyond the NTFS
 timestamp range

---
 src/time.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..8349439 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -69,12 +69,18 @@ impl TryFrom<SystemTime> for NtfsTime {
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
         let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
-        let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+        let intervals_since_windows_epoch = duration_since_unix_epoch
+            .as_secs()
+            .checked_mul(INTERVALS_PER_SECOND)
+            .and_then(|n| n.checked_add(duration_since_unix_epoch.subsec_nanos() as u64 / 100))
+            .and_then(|n| n.checked_add(EPOCH_DIFFERENCE_IN_INTERVALS));
+
+        match intervals_since_windows_epoch {
+            Some(nt_timestamp) => Ok(Self(nt_timestamp)),
+            // This point in time is too far in the future for an NTFS timestamp.
+            // A `SystemTimeError` cannot be constructed, so get one from the inverse calculation.
+            None => Err(SystemTime::UNIX_EPOCH.duration_since(st).unwrap_err()),
+        }
     }
 }
 
-- 
2.43.0


From d6067ebd398bed03de61276467de182ba5a84680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 20/27] fix: read fragmented file records and reject record
 numbers beyond the MFT

---
 src/file.rs | 12 +++++++++++-
 src/ntfs.rs | 11 ++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..b2f7536 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,7 +145,16 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
-        let mut record = Record::new(data, position.into());
+        Self::from_record_data(ntfs, data, position.into(), file_record_number)
+    }
+
+    pub(crate) fn from_record_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NtfsPosition,
+        file_record_number: u64,
+    ) -> Result<Self> {
+        let mut record = Record::new(data, position);
         Self::validate_signature(&record)?;
         record.fixup()?;
 
diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..f556038 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -100,13 +101,21 @@ impl Ntfs {
             mft.find_resident_attribute(NtfsAttributeType::Data, None, None)?;
         let mut mft_data_value = mft_data_attribute.value(fs)?;
 
+        if offset >= mft_data_value.len() {
+            return Err(NtfsError::InvalidFileRecordNumber { file_record_number });
+        }
+
         mft_data_value.seek(fs, SeekFrom::Start(offset))?;
         let position = mft_data_value
             .data_position()
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // A File Record may be split over two data runs if it is larger than a cluster.
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_record_data(self, data, position.into(), file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From 27946d0a2021afeea93a2fa4b5cc4a460ebf2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 21/27] fix: report bytes already read when a later Data Run of
 a value fails

Both readers for non-resident values discarded the number of bytes they had
already copied when moving to the next Data Run or reading from it failed.
The stream position had been advanced though, so a caller retrying the read
(such as read_exact on an Interrupted error) silently skipped data.
---
 .../attribute_list_non_resident.rs            | 32 +++++++++++--------
 src/attribute_value/non_resident.rs           | 18 +++++++----
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index c416b75..052363e 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -200,9 +200,13 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         while bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
+            match self.stream_state.read_data_run(fs, buf, &mut bytes_read) {
                 // We read something, so check the loop condition again if we need to read more.
-                continue;
+                Ok(true) => continue,
+                Ok(false) => {}
+                // Report the bytes we have already read, the next call will output this error.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
 
             // Stay in the current Data Run if we have reached the end of the (used) data.
@@ -210,19 +214,19 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
                 break;
             }
 
-            // Move to the next Data Run of the current attribute.
-            if self.next_data_run()? {
-                // We got another Data Run of the current attribute, so read again.
-                continue;
-            }
-
-            // Move to the first Data Run of the next connected attribute.
-            if self.next_attribute(fs)? {
-                // We got another attribute, so read again.
-                continue;
-            } else {
+            // Move to the next Data Run of the current attribute or to the first Data Run of the next connected attribute.
+            let moved = match self.next_data_run() {
+                Ok(false) => self.next_attribute(fs),
+                result => result,
+            };
+            match moved {
+                // We got another Data Run, so read again.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // Report the bytes we have already read, the next call will output this error.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 5c01d03..42b55ce 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -128,9 +128,13 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         while bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
+            match self.stream_state.read_data_run(fs, buf, &mut bytes_read) {
                 // We read something, so check the loop condition again if we need to read more.
-                continue;
+                Ok(true) => continue,
+                Ok(false) => {}
+                // Report the bytes we have already read, the next call will output this error.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
 
             // Stay in the current Data Run if we have reached the end of the (used) data.
@@ -139,12 +143,14 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             }
 
             // Move to the next Data Run.
-            if self.next_data_run()? {
+            match self.next_data_run() {
                 // We got another Data Run, so read again.
-                continue;
-            } else {
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // Report the bytes we have already read, the next call will output this error.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 8239182ea3da40f3c879aa2e4fcdce7b390f7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 22/27] fix: restore the reader state when a seek within a
 non-resident value fails

An error while traversing the Data Runs left the reader at its old stream
position, but with another Data Run selected. Subsequent reads then returned
data from the wrong location.
---
 .../attribute_list_non_resident.rs            | 26 ++++++++++++++---
 src/attribute_value/non_resident.rs           | 28 ++++++++++++++++---
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 052363e..83f0376 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -234,6 +234,28 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     }
 
     fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        // A failed seek must not leave us with a Data Run that doesn't belong to our stream position.
+        let previous = self.clone();
+
+        let result = self.traverse_data_runs(fs, pos);
+        if result.is_err() {
+            *self = previous;
+        }
+
+        result
+    }
+
+    fn stream_position(&self) -> u64 {
+        self.stream_state.stream_position()
+    }
+}
+
+impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    /// Seeks to the given position by traversing the Data Runs of all connected attributes.
+    fn traverse_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -285,10 +307,6 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         Ok(self.stream_position())
     }
-
-    fn stream_position(&self) -> u64 {
-        self.stream_state.stream_position()
-    }
 }
 
 #[derive(Clone, Debug)]
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 42b55ce..ff132ad 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -158,6 +158,30 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
     }
 
     fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        // A failed seek must not leave us with a Data Run that doesn't belong to our stream position.
+        let previous_data_runs = self.stream_data_runs.clone();
+        let previous_state = self.stream_state.clone();
+
+        let result = self.traverse_data_runs(fs, pos);
+        if result.is_err() {
+            self.stream_data_runs = previous_data_runs;
+            self.stream_state = previous_state;
+        }
+
+        result
+    }
+
+    fn stream_position(&self) -> u64 {
+        self.stream_state.stream_position()
+    }
+}
+
+impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
+    /// Seeks to the given position by traversing the Data Runs.
+    fn traverse_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -203,10 +227,6 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(self.stream_position())
     }
-
-    fn stream_position(&self) -> u64 {
-        self.stream_state.stream_position()
-    }
 }
 
 /// A variant of [`NtfsNonResidentAttributeValue`] that implements [`Read`] and [`Seek`]
-- 
2.43.0


From a21f8fd5a5f7208f863e9506854c0ea60d620c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 23/27] fix: don't skip data of an attribute list value after
 an error

An error while moving to the next Data Run or to the next connected attribute
dropped the iterator state or the attribute list entry. A subsequent read then
continued with the data of the following attribute.
---
 .../attribute_list_non_resident.rs            | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 83f0376..6fc9092 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -94,7 +94,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         };
 
         // Get the state of the `NtfsDataRuns` iterator of that attribute.
-        let data_runs_state = match attribute_state.data_runs_state.take() {
+        // Only a copy is used here, so that a subsequent call outputs the same error again in case of an error.
+        let data_runs_state = match attribute_state.data_runs_state.clone() {
             Some(data_runs_state) => data_runs_state,
             None => return Ok(false),
         };
@@ -112,13 +113,16 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Do we have a next Data Run? Save that.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                // We have fully iterated this iterator (and hence also the attribute and file).
+                attribute_state.data_runs_state = None;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // We got another Data Run, so serialize the updated `NtfsDataRuns` state for the next iteration.
-        // This step is skipped when we got no Data Run, because it means we have fully iterated this iterator (and hence also the attribute and file).
         attribute_state.data_runs_state = Some(stream_data_runs.into_state());
 
         Ok(true)
@@ -126,6 +130,21 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
 
     /// Advances to the next attribute and returns whether we got another connected attribute.
     fn next_attribute<T>(&mut self, fs: &mut T) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // In case of an error, a subsequent call must try the same entry again instead of skipping its data.
+        let connected_entries = self.connected_entries.clone();
+
+        let result = self.read_next_attribute(fs);
+        if result.is_err() {
+            self.connected_entries = connected_entries;
+        }
+
+        result
+    }
+
+    fn read_next_attribute<T>(&mut self, fs: &mut T) -> Result<bool>
     where
         T: Read + Seek,
     {
-- 
2.43.0


From d82393971fd20e85a8358c33c665528e07feadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 24/27] fix: avoid accepting index record sizes whose sum with
 the header saturates

---
 src/index_record.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/index_record.rs b/src/index_record.rs
index cbd1090..0205590 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -164,33 +164,32 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size =
-            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
-        if total_allocated_size > index_record_size {
+        // Note that the record is at least as large as its headers.
+        if self.index_allocated_size() > index_record_size - INDEX_RECORD_HEADER_SIZE {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
                 expected: index_record_size,
-                actual: total_allocated_size,
+                actual: INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size()),
             });
         }
+        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
-        if total_data_size > total_allocated_size {
+        if self.index_data_size() > self.index_allocated_size() {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
                 expected: total_allocated_size,
-                actual: total_data_size,
+                actual: INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size()),
             });
         }
+        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
 
         // Finally, the index entries must not start after the used index data.
-        let entries_start = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_entries_offset());
-        if entries_start > total_data_size {
+        if self.index_entries_offset() > self.index_data_size() {
             return Err(NtfsError::InvalidIndexEntriesOffset {
                 position: self.record.position(),
-                expected: entries_start,
+                expected: INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_entries_offset()),
                 actual: total_data_size,
             });
         }
-- 
2.43.0


From 97c877753aa5b400c2fe9a85d3c723f3e162ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 25/27] fix: report attribute list entries that extend beyond
 the attribute list

---
 src/structured_values/attribute_list.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..22fdc9c 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -145,6 +145,8 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let mut value_attached = value.clone().attach(fs);
         let position = value.data_position();
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
+        let remaining_length = value.len() - value.stream_position();
+        iter_try!(entry.validate_list_entry_length(remaining_length));
 
         // Advance our iterator to the next entry.
         iter_try!(value.seek(fs, SeekFrom::Current(entry.list_entry_length() as i64)));
@@ -163,10 +165,11 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         // Get the current entry.
         let mut cursor = Cursor::new(*slice);
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));
+        iter_try!(entry.validate_list_entry_length(slice.len() as u64));
 
         // Advance our iterator to the next entry.
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        *slice = &slice[bytes_to_advance..];
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
@@ -312,4 +315,17 @@ impl NtfsAttributeListEntry {
 
         Ok(())
     }
+
+    fn validate_list_entry_length(&self, remaining_length: u64) -> Result<()> {
+        if self.list_entry_length() as u64 > remaining_length {
+            return Err(NtfsError::InvalidStructuredValueSize {
+                position: self.position(),
+                ty: NtfsAttributeType::AttributeList,
+                expected: self.list_entry_length() as u64,
+                actual: remaining_length,
+            });
+        }
+
+        Ok(())
+    }
 }
-- 
2.43.0


From 6da09973eea0650bda5a6e1d749f85990e6fe553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 26/27] fix: read the name of an attribute list entry from its
 declared offset

---
 src/structured_values/attribute_list.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index 22fdc9c..a52bcf8 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -243,6 +243,11 @@ impl NtfsAttributeListEntry {
         self.header.name_length as usize * mem::size_of::<u16>()
     }
 
+    /// Returns the offset to the beginning of the name, in bytes from the beginning of this entry.
+    fn name_offset(&self) -> usize {
+        self.header.name_offset as usize
+    }
+
     /// Returns the absolute position of this attribute list entry within the filesystem, in bytes.
     pub fn position(&self) -> NtfsPosition {
         self.position
@@ -255,6 +260,13 @@ impl NtfsAttributeListEntry {
         debug_assert_eq!(self.name.len(), NAME_MAX_SIZE);
 
         let name_length = self.name_length();
+
+        // The name doesn't necessarily follow the header.
+        if name_length > 0 {
+            let name_gap = self.name_offset() as i64 - ATTRIBUTE_LIST_ENTRY_HEADER_SIZE as i64;
+            r.seek(SeekFrom::Current(name_gap))?;
+        }
+
         r.read_exact(&mut self.name[..name_length])?;
         self.name.truncate(name_length);
 
@@ -302,7 +314,10 @@ impl NtfsAttributeListEntry {
     }
 
     fn validate_entry_and_name_length(&self) -> Result<()> {
-        let total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE + self.name_length();
+        let mut total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE;
+        if self.name_length() > 0 {
+            total_size = usize::max(total_size, self.name_offset() + self.name_length());
+        }
 
         if total_size > self.list_entry_length() as usize {
             return Err(NtfsError::InvalidStructuredValueSize {
-- 
2.43.0


From c7fa6ce1b5d5f434a474b7614b13408ce849dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 27/27] fix: don't end an attribute list value at an attribute
 without data runs

---
 .../attribute_list_non_resident.rs            | 75 ++++++++++---------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 6fc9092..8fd27ef 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -148,46 +148,49 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        // Do we have another connected attribute?
-        let entry = match self.connected_entries.next(fs) {
-            Some(entry) => entry,
-            None => return Ok(false),
-        };
-
-        // Read the correspoding File Record into an `NtfsFile` and get the corresponding `NtfsAttribute`.
-        let entry = entry?;
-        let file = entry.to_file(self.ntfs, fs)?;
-        let attribute = entry.to_attribute(&file)?;
-        let attribute_offset = attribute.offset();
+        loop {
+            // Do we have another connected attribute?
+            let entry = match self.connected_entries.next(fs) {
+                Some(entry) => entry,
+                None => return Ok(false),
+            };
 
-        // Connected attributes must always be non-resident. Verify that.
-        if attribute.is_resident() {
-            return Err(NtfsError::UnexpectedResidentAttribute {
-                position: attribute.position(),
-            });
-        }
+            // Read the correspoding File Record into an `NtfsFile` and get the corresponding `NtfsAttribute`.
+            let entry = entry?;
+            let file = entry.to_file(self.ntfs, fs)?;
+            let attribute = entry.to_attribute(&file)?;
+            let attribute_offset = attribute.offset();
+
+            // Connected attributes must always be non-resident. Verify that.
+            if attribute.is_resident() {
+                return Err(NtfsError::UnexpectedResidentAttribute {
+                    position: attribute.position(),
+                });
+            }
 
-        // Get an `NtfsDataRuns` iterator for iterating through the attribute value's data runs.
-        let (data, position) = attribute.non_resident_value_data_and_position()?;
-        let mut stream_data_runs = NtfsDataRuns::new(self.ntfs, data, position);
+            // Get an `NtfsDataRuns` iterator for iterating through the attribute value's data runs.
+            let (data, position) = attribute.non_resident_value_data_and_position()?;
+            let mut stream_data_runs = NtfsDataRuns::new(self.ntfs, data, position);
 
-        // Get the first Data Run already here to save time and let `data_position` return something meaningful.
-        let stream_data_run = match stream_data_runs.next() {
-            Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
-        };
-        let stream_data_run = stream_data_run?;
-        self.stream_state.set_stream_data_run(Some(stream_data_run));
-
-        // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
-        let data_runs_state = Some(stream_data_runs.into_state());
-        self.attribute_state = Some(AttributeState {
-            file,
-            attribute_offset,
-            data_runs_state,
-        });
+            // Get the first Data Run already here to save time and let `data_position` return something meaningful.
+            let stream_data_run = match stream_data_runs.next() {
+                Some(stream_data_run) => stream_data_run,
+                // This attribute has no data runs at all, so go on with the next one.
+                None => continue,
+            };
+            let stream_data_run = stream_data_run?;
+            self.stream_state.set_stream_data_run(Some(stream_data_run));
+
+            // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
+            let data_runs_state = Some(stream_data_runs.into_state());
+            self.attribute_state = Some(AttributeState {
+                file,
+                attribute_offset,
+                data_runs_state,
+            });
 
-        Ok(true)
+            return Ok(true);
+        }
     }
 
     /// Returns the [`Ntfs`] object reference associated to this value.
-- 
2.43.0

