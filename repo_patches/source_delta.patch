From af9ec8750080ea7e7fdd0f54933b70bedc6b4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 01/10] fix: Store 1980-01-01T00:00:00 as the default
 modification time

The documented default is 1980-01-01T00:00:00, but the stored value was
all zeros, that is day 0 of month 0.
---
 src/structs.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..f499888 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,24 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// 1980-01-01T00:00:00, the first representable value.
+    /// All zeros would mean month 0 and day 0, which is not a valid date.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 741ce1736e933eca27f259d4f488bb136a4c58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 02/10] fix: Set the default time in datetime_or_default and
 datetime_system_or_default

Times out of range kept the previously set value instead of replacing it
with the default one, unlike datetime_fields_or_default.
---
 src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..50369b5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,7 +190,7 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
-- 
2.43.0


From 17f8943d4d2caf09818104811ca639f49ac669a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 03/10] fix: Don't panic when converting extreme system times

chrono panics when converting a SystemTime (for example file modification
time) which is outside of its range.
---
 src/builder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 50369b5..6662805 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -524,8 +524,18 @@ where
     Tz: TimeZone + 'static,
 {
     use chrono::{DateTime, Utc};
+    use std::time::{Duration, UNIX_EPOCH};
+
+    // Times more than a day outside of 1980-01-01 to 2107-12-31 (UTC) can't be represented,
+    // regardless of the time zone. They must not get to chrono, which panics on extreme values.
+    let first = UNIX_EPOCH + Duration::from_secs(315_532_800 - 86_400);
+    let last = UNIX_EPOCH + Duration::from_secs(4_354_819_200 + 86_400);
 
     move |system_time| {
+        if system_time < first || system_time > last {
+            return (0, 0, 0, 0, 0, 0);
+        }
+
         let naive = DateTime::<Utc>::from(system_time)
             .with_timezone(&tz)
             .naive_local();
-- 
2.43.0


From 4e623c23c5261ce5e18ae3567bbe59d96e49f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 04/10] fix: Don't lose output or position when CRC calculation
 is pending or fails

When a read has already written something and then the CRC calculation of
the following header returned Pending, tell() was not advanced. When it
failed, the bytes that were already written were lost.
---
 src/reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..a900be3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -771,7 +771,7 @@ impl ReadState {
                     Poll::Pending if output.remaining() == initial_remaining => {
                         return Poll::Pending
                     }
-                    _ => return Poll::Ready(Ok(())),
+                    _ => break,
                 }
             };
         }
@@ -815,6 +815,12 @@ impl ReadState {
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining
+                        && entries[entry_index].crc32.is_none()
+                    {
+                        // Calculating the CRC might fail or return Pending -> same as in EntryData
+                        break;
+                    }
                     zippity_ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
@@ -824,6 +830,12 @@ impl ReadState {
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
+                    if output.remaining() != initial_remaining
+                        && entries[entry_index].crc32.is_none()
+                    {
+                        // Calculating the CRC might fail or return Pending -> same as in EntryData
+                        break;
+                    }
                     zippity_ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
-- 
2.43.0


From 4fb076a79f84ba251037ad62c5d9d726afda3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 05/10] fix: Don't poll a completed future after opening an
 entry failed

Retrying the read polled the same future again, which panics.
---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a900be3..0933f88 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            match ready!(reader_future.as_mut().poll(ctx)) {
+                Ok(reader) => pinned.set(ReaderPinned::FileReader(CrcReader::new(reader))),
+                Err(e) => {
+                    // The future is finished, it can't be polled again
+                    pinned.set(ReaderPinned::Nothing);
+                    return Poll::Ready(Err(e));
+                }
+            }
         }
 
         match pinned.project() {
-- 
2.43.0


From bd0d82f09c3befd6b4f9ad23c1ad8eab090835ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 06/10] fix: Don't panic when reading is retried after a failed
 seek in entry data

A failed seek was considered to be still in progress, so the retry did not
seek again and the position check panicked. The same happens for an entry
shorter than announced, whose reader doesn't seek past its end.
---
 src/crc_reader.rs | 7 ++++---
 src/reader.rs     | 9 ++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..c5a803a 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
diff --git a/src/reader.rs b/src/reader.rs
index 0933f88..08b113a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -582,7 +582,14 @@ impl ReadState {
                     ctx,
                     SeekFrom::Start(self.to_skip)
                 ))?;
-                assert!(pos_after_seek == self.to_skip);
+                if pos_after_seek != self.to_skip {
+                    return Poll::Ready(Err(ReadError::SizeMismatch {
+                        entry_name: entry.name.clone(),
+                        expected_size: entry.size,
+                        actual_size: pos_after_seek,
+                    }
+                    .into()));
+                }
                 self.chunk_processed_size += self.to_skip;
                 self.to_skip = 0;
             }
-- 
2.43.0


From 3352b6465a6d6f90b3b676dc7eba1ab81236f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 07/10] fix: Repeat the size mismatch error when the read is
 retried

After the error was reported, the CRC of the wrong data was kept and the
next read continued with the entry from its start, which could end up with
damaged output without any error.
---
 src/reader.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 08b113a..0fce423 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -601,32 +601,35 @@ impl ReadState {
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
 
-            if let Some(actual_crc) = file_reader.get_crc32() {
-                if let Some(expected_crc) = entry.crc32
-                    && expected_crc != actual_crc
-                {
-                    return Poll::Ready(Err(ReadError::Crc32Mismatch {
-                        entry_name: entry.name.clone(),
-                        expected_crc,
-                        actual_crc,
-                    }
-                    .into()));
+            let actual_crc = file_reader.get_crc32();
+            if let Some(actual_crc) = actual_crc
+                && let Some(expected_crc) = entry.crc32
+                && expected_crc != actual_crc
+            {
+                return Poll::Ready(Err(ReadError::Crc32Mismatch {
+                    entry_name: entry.name.clone(),
+                    expected_crc,
+                    actual_crc,
                 }
-                entry.crc32 = Some(actual_crc);
+                .into()));
             }
 
-            pinned.set(ReaderPinned::Nothing);
-
-            if self.chunk_processed_size == entry.size {
-                Poll::Ready(Ok(true)) // We're done with this state
-            } else {
-                Poll::Ready(Err(ReadError::SizeMismatch {
+            if self.chunk_processed_size != entry.size {
+                // The state stays unchanged, so that the error repeats if the read is retried.
+                return Poll::Ready(Err(ReadError::SizeMismatch {
                     entry_name: entry.name.clone(),
                     expected_size: entry.size,
                     actual_size: self.chunk_processed_size,
                 }
-                .into()))
+                .into()));
+            }
+
+            if actual_crc.is_some() {
+                entry.crc32 = actual_crc;
             }
+            pinned.set(ReaderPinned::Nothing);
+
+            Poll::Ready(Ok(true)) // We're done with this state
         } else {
             let written_chunk_size = remaining_before_poll - output.remaining();
             let buf_slice = output.filled();
-- 
2.43.0


From f3438d6da9810cae5bb3f5a5704876ae74eccd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 08/10] fix: Never output entry data past the announced size

When an entry was longer than announced (for example a file that is being
appended to), all of its data was output before the size mismatch was
reported, with positions belonging to the following parts of the archive.
---
 src/reader.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0fce423..c918ed5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -596,7 +596,10 @@ impl ReadState {
         }
 
         let remaining_before_poll = output.remaining();
-        ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
+        let filled_before_poll = output.filled().len();
+        if self.chunk_processed_size <= entry.size {
+            ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
+        } // else we already know that the entry is too long, report it again
 
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
@@ -638,6 +641,17 @@ impl ReadState {
 
             self.chunk_processed_size += written_chunk_size as u64;
 
+            if self.chunk_processed_size > entry.size {
+                // The entry is longer than announced, the extra data must not get to the output
+                output.set_filled(filled_before_poll);
+                return Poll::Ready(Err(ReadError::SizeMismatch {
+                    entry_name: entry.name.clone(),
+                    expected_size: entry.size,
+                    actual_size: self.chunk_processed_size,
+                }
+                .into()));
+            }
+
             Poll::Ready(Ok(false))
         }
     }
-- 
2.43.0


From 233ddcb080cc526cf3a91f6e48267679f061c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 09/10] fix: Don't panic when reading from a cloned BytesStream

Cloning an empty BytesMut doesn't keep its capacity.
---
 src/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..a4753e3 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -31,7 +31,8 @@ impl<D: EntryData> Stream for BytesStream<D> {
         let projected = self.project();
 
         assert!(projected.buffer.is_empty());
-        assert!(projected.buffer.capacity() > 0);
+        // The buffer has no capacity in a cloned stream
+        projected.buffer.reserve(READ_SIZE);
 
         let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;
 
-- 
2.43.0


From ff18ea6eaefe3434ad04574afdc2f0148f98e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 10/10] fix: Keep Builder::size() right after entries are
 edited through get_entries_mut

---
 src/builder.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6662805..7095ca0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -318,8 +318,9 @@ pub(crate) fn eocd_size() -> u64 {
 pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
-    /// Total size of the zip.
-    total_size: u64,
+    /// Total size of the zip, or `None` if the entries might have been changed
+    /// through [`Builder::get_entries_mut()`] since it was calculated.
+    total_size: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -374,7 +375,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: eocd_size(),
+            total_size: Some(eocd_size()),
         }
     }
 
@@ -396,6 +397,7 @@ impl<D: EntryData> Builder<D> {
             return Err(AddEntryError::TooLongEntryName { entry_name: name });
         }
         let headers_size = local_header_size(&name) + cd_header_size(&name);
+        let current_size = self.size();
 
         let map_vacant_entry = match self.entries.entry(name) {
             Entry::Vacant(e) => e,
@@ -409,9 +411,9 @@ impl<D: EntryData> Builder<D> {
         let data = data.into();
         self.total_size = match headers_size
             .checked_add(data.size())
-            .and_then(|s| s.checked_add(self.total_size))
+            .and_then(|s| s.checked_add(current_size))
         {
-            Some(size) => size,
+            Some(size) => Some(size),
             None => {
                 return Err(AddEntryError::TooLongZipFile {
                     entry_name: map_vacant_entry.into_key(),
@@ -428,13 +430,21 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size
+        self.total_size.unwrap_or_else(|| {
+            self.entries
+                .iter()
+                .map(|(name, entry)| {
+                    local_header_size(name) + cd_header_size(name) + entry.data.size()
+                })
+                .sum::<u64>()
+                + eocd_size()
+        })
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
     #[must_use]
     pub fn build(self) -> Reader<D> {
-        // All size calculations in this method add up to self.total_size, so they are guaranteed to not overflow.
+        // All size calculations in this method add up to self.size(), so they are guaranteed to not overflow.
         let mut offset: u64 = 0;
         let mut cd_size: u64 = 0;
         let entries = {
@@ -507,6 +517,7 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
+        self.total_size = None;
         &mut self.entries
     }
 }
-- 
2.43.0

