From 64287813d33cb1f8a02c3bbb1d158d2dfe6bd07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 1/8] fix: don't lose output when CRC calculation is suspended
 or fails after something was written

---
 src/reader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..07fffa8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -80,6 +80,11 @@ impl<D: EntryData> ReaderEntry<D> {
         }
     }
 
+    /// Returns true if [`Self::get_crc()`] has to read the entry data to get the CRC.
+    fn needs_crc(&self) -> bool {
+        self.crc32.is_none() && self.size != 0
+    }
+
     /// Get the CRC for this entry, possibly recomputing it from the file.
     /// Stores state in `self.crc32` and `pinned`,
     /// Calling this method repeatedly will either return the already computed CRC without changes.
@@ -815,6 +820,11 @@ impl ReadState {
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining && entries[entry_index].needs_crc() {
+                        // Same as with entry data, we might need to return Pending (or an error)
+                        // when calculating the CRC.
+                        break;
+                    }
                     zippity_ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
@@ -824,6 +834,11 @@ impl ReadState {
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining && entries[entry_index].needs_crc() {
+                        // Same as with entry data, we might need to return Pending (or an error)
+                        // when calculating the CRC.
+                        break;
+                    }
                     zippity_ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
-- 
2.43.0


From 67fd2e7c24648b441c91cc99b73425dfb28c655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 2/8] fix: don't poll a failed entry opening future again

---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 07fffa8..e28d6fd 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            match ready!(reader_future.as_mut().poll(ctx)) {
+                Ok(reader) => pinned.set(ReaderPinned::FileReader(CrcReader::new(reader))),
+                Err(e) => {
+                    // The future is finished and must not be polled again
+                    pinned.set(ReaderPinned::Nothing);
+                    return Poll::Ready(Err(e));
+                }
+            }
         }
 
         match pinned.project() {
-- 
2.43.0


From c075ae97aea640cd7785fe78d05a58382ee0bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 3/8] fix: start a new seek in the entry after a failed one

---
 src/crc_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..c5a803a 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From e7503036adb1b1617ac74516b497e43e1ab7251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 4/8] fix: make all or_default datetime setters fall back to
 the default value

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..7ecf64f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,15 +190,14 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
             datetime.hour(),
             datetime.minute(),
             datetime.second(),
-        );
-        self
+        )
     }
 
     /// Sets the entry to be a file.
-- 
2.43.0


From 0a06a1f7278d59cfa4d223ef285d9d00d921bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 5/8] fix: encode the default datetime as 1980-01-01 and not as
 day 0 of month 0

---
 src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..7cb98a0 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,23 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// Returns 1980-01-01T00:00:00, the first representable value.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 0e4f8f92acc2588b904d32ea40f325f089b4e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 6/8] fix: allocate a buffer for clones of BytesStream

---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..43483f8 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -15,7 +15,7 @@ use crate::{Reader, entry_data::EntryData, reader::READ_SIZE};
 ///
 /// This is useful for streaming the output of the ZIP reader, for example,
 /// to a network socket or other byte-based sink.
-#[derive(Clone, Debug)]
+#[derive(Debug)]
 #[pin_project]
 pub struct BytesStream<D: EntryData> {
     #[pin]
@@ -23,6 +23,13 @@ pub struct BytesStream<D: EntryData> {
     buffer: BytesMut,
 }
 
+impl<D: EntryData + Clone> Clone for BytesStream<D> {
+    fn clone(&self) -> Self {
+        // Cloning `BytesMut` doesn't keep the capacity, which is needed for reading.
+        BytesStream::new(self.reader.clone())
+    }
+}
+
 // TODO: Implement also std::async_iter::AsyncIterator, once it stablises
 impl<D: EntryData> Stream for BytesStream<D> {
     type Item = Result<Bytes>;
-- 
2.43.0


From 66366bd84688866e7f5271c83b5655e43e85e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 7/8] fix: update the announced size after changes made through
 get_entries_mut

---
 src/builder.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7ecf64f..9a5ed5c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -318,7 +318,9 @@ pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
     /// Total size of the zip.
-    total_size: u64,
+    /// `None` if it has to be calculated again, because the entries might have been changed
+    /// through [`Builder::get_entries_mut()`].
+    total_size: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -373,7 +375,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: eocd_size(),
+            total_size: Some(eocd_size()),
         }
     }
 
@@ -395,6 +397,7 @@ impl<D: EntryData> Builder<D> {
             return Err(AddEntryError::TooLongEntryName { entry_name: name });
         }
         let headers_size = local_header_size(&name) + cd_header_size(&name);
+        let total_size = self.size();
 
         let map_vacant_entry = match self.entries.entry(name) {
             Entry::Vacant(e) => e,
@@ -408,9 +411,9 @@ impl<D: EntryData> Builder<D> {
         let data = data.into();
         self.total_size = match headers_size
             .checked_add(data.size())
-            .and_then(|s| s.checked_add(self.total_size))
+            .and_then(|s| s.checked_add(total_size))
         {
-            Some(size) => size,
+            Some(size) => Some(size),
             None => {
                 return Err(AddEntryError::TooLongZipFile {
                     entry_name: map_vacant_entry.into_key(),
@@ -427,13 +430,21 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size
+        self.total_size.unwrap_or_else(|| {
+            self.entries
+                .iter()
+                .map(|(name, entry)| {
+                    local_header_size(name) + cd_header_size(name) + entry.data.size()
+                })
+                .sum::<u64>()
+                + eocd_size()
+        })
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
     #[must_use]
     pub fn build(self) -> Reader<D> {
-        // All size calculations in this method add up to self.total_size, so they are guaranteed to not overflow.
+        // All size calculations in this method add up to self.size(), so they are guaranteed to not overflow.
         let mut offset: u64 = 0;
         let mut cd_size: u64 = 0;
         let entries = {
@@ -506,6 +517,7 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
+        self.total_size = None;
         &mut self.entries
     }
 }
-- 
2.43.0


From a22e74e004cca63071cad49555e6ccdc3b2b3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 8/8] fix: don't deliver entry data again when reading after a
 size mismatch

---
 src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e28d6fd..b51f8dc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -613,9 +613,8 @@ impl ReadState {
                 entry.crc32 = Some(actual_crc);
             }
 
-            pinned.set(ReaderPinned::Nothing);
-
             if self.chunk_processed_size == entry.size {
+                pinned.set(ReaderPinned::Nothing);
                 Poll::Ready(Ok(true)) // We're done with this state
             } else {
                 Poll::Ready(Err(ReadError::SizeMismatch {
-- 
2.43.0

