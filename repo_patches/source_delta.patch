From 7f7757a7470ace0e46717005137117cae618ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 01/10] fix: update position and keep the output when computing
 a CRC is pending or fails

When the output already contained bytes and computing the CRC for a data descriptor
or central directory header returned Pending, the read returned early without updating
the position; when it failed, the bytes already written to the output were lost.
---
 src/reader.rs | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..475e048 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -80,6 +80,11 @@ impl<D: EntryData> ReaderEntry<D> {
         }
     }
 
+    /// Returns true if [`ReaderEntry::get_crc()`] has to read the entry data to get the CRC.
+    fn needs_reader_for_crc(&self) -> bool {
+        self.crc32.is_none() && self.size != 0
+    }
+
     /// Get the CRC for this entry, possibly recomputing it from the file.
     /// Stores state in `self.crc32` and `pinned`,
     /// Calling this method repeatedly will either return the already computed CRC without changes.
@@ -763,19 +768,6 @@ impl ReadState {
     ) -> Poll<std::io::Result<()>> {
         let initial_remaining = output.remaining();
 
-        macro_rules! zippity_ready {
-            ($expression:expr) => {
-                match $expression {
-                    Poll::Ready(Ok(x)) => x,
-                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
-                    Poll::Pending if output.remaining() == initial_remaining => {
-                        return Poll::Pending
-                    }
-                    _ => return Poll::Ready(Ok(())),
-                }
-            };
-        }
-
         while output.remaining() > 0 {
             if !self.staging_buffer.is_empty() {
                 self.read_from_staging(output);
@@ -806,30 +798,44 @@ impl ReadState {
                         assert!(self.staging_buffer.is_empty());
                         break;
                     }
-                    zippity_ready!(self.read_entry_data(
+                    ready!(self.read_entry_data(
                         &mut entries[entry_index],
                         pinned.as_mut(),
                         ctx,
                         output,
-                    ))
+                    ))?
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
-                    zippity_ready!(self.read_data_descriptor(
+                    if output.remaining() != initial_remaining
+                        && entries[entry_index].needs_reader_for_crc()
+                    {
+                        // Same as for the entry data, computing the CRC might need to return Pending
+                        // or an error.
+                        break;
+                    }
+                    ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
                         ctx,
                         output
-                    ))
+                    ))?
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
-                    zippity_ready!(self.read_cd_file_header(
+                    if output.remaining() != initial_remaining
+                        && entries[entry_index].needs_reader_for_crc()
+                    {
+                        // Same as for the entry data, computing the CRC might need to return Pending
+                        // or an error.
+                        break;
+                    }
+                    ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
                         ctx,
                         output
-                    ))
+                    ))?
                 }
                 Chunk::Eocd => self.read_eocd(sizes, entries, output),
                 Chunk::Finished => unreachable!(),
-- 
2.43.0


From f9cebad67ef1804e0f411916b34829ad3e0b0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 02/10] fix: don't poll the completed reader future again after
 it returned an error

---
 src/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 475e048..6d265d0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,10 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            let result = ready!(reader_future.as_mut().poll(ctx));
+            // The future is finished now and must not be polled again, not even after an error.
+            pinned.set(ReaderPinned::Nothing);
+            pinned.set(ReaderPinned::FileReader(CrcReader::new(result?)));
         }
 
         match pinned.project() {
-- 
2.43.0


From e31ce2d9da939bea0b1ee0ea0be7675288ba4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 03/10] fix: keep reporting a size mismatch instead of reading
 the entry again

---
 src/reader.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6d265d0..16ba000 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -595,25 +595,29 @@ impl ReadState {
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
 
-            if let Some(actual_crc) = file_reader.get_crc32() {
-                if let Some(expected_crc) = entry.crc32
-                    && expected_crc != actual_crc
-                {
-                    return Poll::Ready(Err(ReadError::Crc32Mismatch {
-                        entry_name: entry.name.clone(),
-                        expected_crc,
-                        actual_crc,
-                    }
-                    .into()));
+            let computed_crc = file_reader.get_crc32();
+
+            if let Some(actual_crc) = computed_crc
+                && let Some(expected_crc) = entry.crc32
+                && expected_crc != actual_crc
+            {
+                return Poll::Ready(Err(ReadError::Crc32Mismatch {
+                    entry_name: entry.name.clone(),
+                    expected_crc,
+                    actual_crc,
                 }
-                entry.crc32 = Some(actual_crc);
+                .into()));
             }
 
-            pinned.set(ReaderPinned::Nothing);
-
             if self.chunk_processed_size == entry.size {
+                if computed_crc.is_some() {
+                    entry.crc32 = computed_crc;
+                }
+                pinned.set(ReaderPinned::Nothing);
                 Poll::Ready(Ok(true)) // We're done with this state
             } else {
+                // Keeping the finished reader, so that trying again reports the same error
+                // instead of outputting the data for the second time.
                 Poll::Ready(Err(ReadError::SizeMismatch {
                     entry_name: entry.name.clone(),
                     expected_size: entry.size,
-- 
2.43.0


From 72a1d07a8fd80eab148324de459f3d055412c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 04/10] fix: start a new seek in the entry after the previous
 one failed

---
 src/crc_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..7bef875 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,10 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
+        // The seek is over even if it failed, trying again has to start a new one.
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From d5e9be83320a04e27d04f2421c669a436895d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 05/10] fix: allocate a buffer for a cloned BytesStream

The derived clone had a buffer without capacity and panicked when first polled.
---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..fd16229 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -15,7 +15,7 @@ use crate::{Reader, entry_data::EntryData, reader::READ_SIZE};
 ///
 /// This is useful for streaming the output of the ZIP reader, for example,
 /// to a network socket or other byte-based sink.
-#[derive(Clone, Debug)]
+#[derive(Debug)]
 #[pin_project]
 pub struct BytesStream<D: EntryData> {
     #[pin]
@@ -77,6 +77,13 @@ impl<D: EntryData> BytesStream<D> {
     }
 }
 
+impl<D: EntryData + Clone> Clone for BytesStream<D> {
+    fn clone(&self) -> Self {
+        // Cloning an empty `BytesMut` doesn't preserve its capacity, so the clone needs its own buffer.
+        BytesStream::new(self.reader.clone())
+    }
+}
+
 impl<D: EntryData> From<Reader<D>> for BytesStream<D> {
     fn from(value: Reader<D>) -> Self {
         BytesStream::new(value)
-- 
2.43.0


From c9b731dfe0dfe825566646ae74dd1eebf9e3d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 06/10] fix: reset the datetime to the default in the
 *_or_default setters as documented

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..7ecf64f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,15 +190,14 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
             datetime.hour(),
             datetime.minute(),
             datetime.second(),
-        );
-        self
+        )
     }
 
     /// Sets the entry to be a file.
-- 
2.43.0


From 5bb04ecb7864c49e03ee233fcc8fa90a37713a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 07/10] fix: use the documented default datetime
 1980-01-01T00:00:00

The derived default was the invalid date 1980-00-00.
---
 src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..67cc5a9 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,23 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// 1980-01-01T00:00:00, the earliest representable value.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 7f66df5b2c8509b25ebc849ff7b38e69044acd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 08/10] fix: return an error instead of panicking when a seek
 target overflows u64

---
 src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 16ba000..4e1161a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -973,7 +973,10 @@ impl<D: EntryData> AsyncSeek for Reader<D> {
                     ReadError::SeekingBeforeStart,
                 ))
             } else {
-                core::panic!("Attempting to seek to a position that causes u64 overflow");
+                Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    "Attempting to seek to a position that causes u64 overflow",
+                ))
             }
         };
         let pos = match position {
-- 
2.43.0


From 03380384277eff74ead4f92df206eee0f4091251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 09/10] fix: call an existing method in
 BuilderEntry::permissions on non-unix systems

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7ecf64f..cfe41ae 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -247,7 +247,7 @@ impl<D: EntryData> BuilderEntry<D> {
         };
         #[cfg(not(unix))]
         {
-            self.ro(permissions.readonly());
+            self.readonly(permissions.readonly());
         }
         self
     }
-- 
2.43.0


From eddee24e45fc18c481a43cb9d6aaf66ce3b1508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 10/10] fix: make FilesystemEntryFuture (and readers of
 FilesystemEntry) Send

---
 src/filesystem_entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem_entry.rs b/src/filesystem_entry.rs
index e472d66..9f5e296 100644
--- a/src/filesystem_entry.rs
+++ b/src/filesystem_entry.rs
@@ -98,7 +98,7 @@ impl EntryData for FilesystemEntry {
 /// Mostly this covers opening the file.
 pub enum FilesystemEntryFuture {
     File {
-        file_future: Pin<Box<dyn Future<Output = std::io::Result<File>>>>,
+        file_future: Pin<Box<dyn Future<Output = std::io::Result<File>> + Send>>,
     },
     Symlink {
         target_bytes: Arc<[u8]>,
-- 
2.43.0

