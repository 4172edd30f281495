From 57da8d20952c57ee17589654a1f0fa5d14ce7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 01/32] sim: scheduling hooks behind cfg stream_download_sim

---
 crates/stream-download/src/lib.rs            |   4 +
 crates/stream-download/src/sim.rs            | 111 +++++++++++++++++++
 crates/stream-download/src/source/handle.rs  |   4 +
 crates/stream-download/src/storage/memory.rs |   3 +
 4 files changed, 122 insertions(+)
 create mode 100644 crates/stream-download/src/sim.rs

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..d1a0de2 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -1,6 +1,7 @@
 #![deny(missing_docs)]
 #![forbid(clippy::unwrap_used)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![expect(unexpected_cfgs, reason = "stream_download_sim is only set by the simulator")]
 #![doc = include_str!("../README.md")]
 
 use std::fmt::Debug;
@@ -24,6 +25,9 @@ pub mod process;
 #[cfg(feature = "registry")]
 pub mod registry;
 mod settings;
+#[cfg(stream_download_sim)]
+#[doc(hidden)]
+pub mod sim;
 pub mod source;
 pub mod storage;
 
diff --git a/crates/stream-download/src/sim.rs b/crates/stream-download/src/sim.rs
new file mode 100644
index 0000000..5212649
--- /dev/null
+++ b/crates/stream-download/src/sim.rs
@@ -0,0 +1,111 @@
+//! Scheduling hooks for deterministic simulation.
+//!
+//! This module only exists when the crate is compiled with `--cfg stream_download_sim`. It wraps
+//! the atomics used to share state between the reader and the download task so that a simulator
+//! can decide what runs before and after each access.
+
+use std::sync::OnceLock;
+
+static SCHEDULE_POINT: OnceLock<fn()> = OnceLock::new();
+
+/// Installs the function to call at every scheduling point. Only the first call has an effect.
+pub fn install(schedule_point: fn()) {
+    let _ = SCHEDULE_POINT.set(schedule_point);
+}
+
+fn point() {
+    if let Some(schedule_point) = SCHEDULE_POINT.get() {
+        schedule_point();
+    }
+}
+
+/// Drop-in replacements for the types in [`std::sync::atomic`].
+pub mod atomic {
+    use std::sync::atomic as real;
+    pub use std::sync::atomic::Ordering;
+
+    use super::point;
+
+    macro_rules! atomic {
+        ($name:ident, $ty:ty) => {
+            #[doc = "Atomic that calls the scheduling hook around every access."]
+            #[derive(Debug, Default)]
+            pub struct $name(real::$name);
+
+            #[expect(missing_docs, reason = "same as std")]
+            impl $name {
+                pub const fn new(val: $ty) -> Self {
+                    Self(real::$name::new(val))
+                }
+
+                pub fn load(&self, order: Ordering) -> $ty {
+                    point();
+                    self.0.load(order)
+                }
+
+                pub fn store(&self, val: $ty, order: Ordering) {
+                    point();
+                    self.0.store(val, order);
+                    point();
+                }
+
+                pub fn swap(&self, val: $ty, order: Ordering) -> $ty {
+                    point();
+                    let old = self.0.swap(val, order);
+                    point();
+                    old
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    point();
+                    let res = self.0.compare_exchange(current, new, success, failure);
+                    point();
+                    res
+                }
+            }
+        };
+    }
+
+    macro_rules! atomic_int {
+        ($name:ident, $ty:ty) => {
+            atomic!($name, $ty);
+
+            #[expect(missing_docs, reason = "same as std")]
+            impl $name {
+                pub fn fetch_add(&self, val: $ty, order: Ordering) -> $ty {
+                    point();
+                    let old = self.0.fetch_add(val, order);
+                    point();
+                    old
+                }
+
+                pub fn fetch_sub(&self, val: $ty, order: Ordering) -> $ty {
+                    point();
+                    let old = self.0.fetch_sub(val, order);
+                    point();
+                    old
+                }
+
+                pub fn fetch_max(&self, val: $ty, order: Ordering) -> $ty {
+                    point();
+                    let old = self.0.fetch_max(val, order);
+                    point();
+                    old
+                }
+            }
+        };
+    }
+
+    atomic!(AtomicBool, bool);
+    atomic_int!(AtomicI32, i32);
+    atomic_int!(AtomicI64, i64);
+    atomic_int!(AtomicU32, u32);
+    atomic_int!(AtomicU64, u64);
+    atomic_int!(AtomicUsize, usize);
+}
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..e20d79a 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
+#[cfg(not(stream_download_sim))]
 use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
 use std::time::Instant;
 
@@ -11,6 +12,9 @@ use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::{Notify, mpsc};
 use tracing::{debug, error};
 
+#[cfg(stream_download_sim)]
+use crate::sim::atomic::{AtomicBool, AtomicI64, Ordering};
+
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
     pub(super) downloaded: Downloaded,
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..b1c034e 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -5,12 +5,15 @@
 use std::io::{self, Read, Seek, SeekFrom, Write};
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
+#[cfg(not(stream_download_sim))]
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 use parking_lot::RwLock;
 
 use super::StorageProvider;
 use crate::WrapIoResult;
+#[cfg(stream_download_sim)]
+use crate::sim::atomic::{AtomicUsize, Ordering};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
-- 
2.43.0


From 61503807d424447234cfdf9ac71a61ee48b80ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 02/32] fix: reading past the end of memory storage panicked

---
 crates/stream-download/src/storage/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index b1c034e..73cc23e 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -66,6 +66,10 @@ impl Read for MemoryStorage {
         let available_len =
             (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            // the position may be beyond the end of the buffer
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
-- 
2.43.0


From daa72cad5a2850c7b3f2a8c2f4a25133cf0f3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 03/32] fix: temp storage returned outdated bytes from its
 read-ahead buffer

---
 crates/stream-download/src/storage/temp.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index 8e724ec..b6b5d15 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -5,7 +5,7 @@
 use std::ffi::OsString;
 use std::fmt::Debug;
 use std::fs::File;
-use std::io::{self, BufReader, Read, Seek};
+use std::io::{self, Read, Seek};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -125,7 +125,7 @@ impl StorageProvider for TempStorageProvider {
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
         let reader = TempStorageReader {
-            reader: BufReader::new(tempfile),
+            reader: tempfile,
         };
         let writer = handle
             .try_clone()
@@ -137,7 +137,9 @@ impl StorageProvider for TempStorageProvider {
 /// Reader created by a [`TempStorageProvider`]. Reads from a temporary file.
 #[derive(Debug)]
 pub struct TempStorageReader {
-    reader: BufReader<NamedTempFile>,
+    // Not buffered on purpose: the file is still being written to, so read-ahead would return
+    // outdated data for the regions that haven't been downloaded yet.
+    reader: NamedTempFile,
 }
 
 impl Read for TempStorageReader {
-- 
2.43.0


From 2bd474e8068a58ca597d5269255b28a739655b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 04/32] fix: bounded storage's byte counters underflowed after
 seeks

---
 crates/stream-download/src/storage/bounded.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..457afe9 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -90,8 +90,6 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
-            read: 0,
-            written: 0,
             read_position: 0,
             write_position: 0,
             size: buffer_size,
@@ -110,8 +108,6 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
-    read: usize,
-    written: usize,
     read_position: usize,
     write_position: usize,
     size: usize,
@@ -172,8 +168,8 @@ where
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
+        if available_len == 0 {
+            debug!("read position >= write position, ending read");
             return Ok(0);
         }
 
@@ -195,7 +191,6 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
             "bounded read"
         );
 
@@ -224,7 +219,6 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
 
         Ok(buf_len)
     }
@@ -239,10 +233,6 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -296,7 +286,6 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
             "bounded write"
         );
 
@@ -322,7 +311,6 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -343,7 +331,6 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From 1c966632873ea661297b7851b9e11ef0ee3a1bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 05/32] fix: bounded storage rejected reads larger than the
 content but within the capacity

---
 crates/stream-download/src/storage/bounded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 457afe9..17615f4 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -93,6 +93,7 @@ where
             read_position: 0,
             write_position: 0,
             size: buffer_size,
+            capacity: self.buffer_size,
         })));
         let reader = BoundedStorageReader {
             inner: reader,
@@ -110,7 +111,10 @@ where
 struct SharedInfo {
     read_position: usize,
     write_position: usize,
+    /// Actual size of the underlying buffer. This is smaller than the capacity if the content is.
     size: usize,
+    /// Capacity requested by the user.
+    capacity: usize,
 }
 
 impl SharedInfo {
@@ -143,13 +147,13 @@ where
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut shared_info = self.shared_info.lock();
 
-        if buf.len() > shared_info.size {
+        if buf.len() > shared_info.capacity {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
                     "read size {} is greater than buffer size {}",
                     buf.len(),
-                    shared_info.size
+                    shared_info.capacity
                 ),
             ));
         }
-- 
2.43.0


From 52ae37e14ce5091605cdfd5b7eaaaf3923a0a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 06/32] fix: seeking before the start of the stream wrapped
 around instead of failing

---
 crates/stream-download/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index d1a0de2..2746142 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -436,12 +436,17 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                self.output_reader
+                    .stream_position()?
+                    .checked_add_signed(position)
+                    .ok_or_else(invalid_seek_position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    length
+                        .checked_add_signed(position)
+                        .ok_or_else(invalid_seek_position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
@@ -520,6 +525,13 @@ impl<P: StorageProvider> StreamDownload<P> {
     }
 }
 
+fn invalid_seek_position() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidInput,
+        "invalid seek to a negative or overflowing position",
+    )
+}
+
 /// Error returned when initializing a stream.
 #[derive(thiserror::Error, Educe)]
 #[educe(Debug)]
-- 
2.43.0


From 1f2fa4923b21ddccb800fa0b9edf2c4b8713922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 07/32] fix: on_reconnect was called for failed reconnect
 attempts

---
 crates/stream-download/src/source/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..c8dd08a 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -277,6 +277,7 @@ where
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
         let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
         if reconnect_pos
+            .unwrap_or_else(|e| Err(e.into()))
             .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
             .is_ok()
             && let Some(on_reconnect) = &mut self.on_reconnect
-- 
2.43.0


From f34fcc8b590d4a8d1dcb413664e34f6af7409ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 08/32] fix: an empty chunk at the start of the stream caused a
 panic

---
 crates/stream-download/src/source/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c8dd08a..200d777 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -377,6 +377,10 @@ where
             }
         };
 
+        if bytes.as_ref().is_some_and(Bytes::is_empty) {
+            return Ok(DownloadAction::Continue);
+        }
+
         if !self.prefetch_complete {
             return self
                 .handle_prefetch(stream, bytes, self.prefetch_start_position, download_start)
-- 
2.43.0


From a26c97de005206739dcf3688f95cc6b22f047905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 09/32] fix: http content was corrupted if the server ignored
 the range or couldn't be asked for one

---
 crates/stream-download/src/http/mod.rs | 52 ++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..2923f9c 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -35,9 +35,9 @@ use std::pin::Pin;
 use std::task::{self, Poll};
 use std::time::Instant;
 
-use bytes::Bytes;
+use bytes::{Buf, Bytes};
 use educe::Educe;
-use futures_util::{Future, Stream};
+use futures_util::{Future, Stream, TryStreamExt};
 use mediatype::MediaTypeBuf;
 #[cfg(feature = "reqwest")]
 pub use reqwest;
@@ -274,6 +274,35 @@ impl<C: Client> HttpStream<C> {
             None => false,
         }
     }
+
+    /// Turns a response body that begins at `response_start` into a stream that begins at `start`.
+    fn set_response(&mut self, response: C::Response, response_start: u64, start: u64) {
+        let mut skip = start - response_start;
+        let stream = response.stream();
+        self.stream = if skip == 0 {
+            stream
+        } else {
+            // Empty chunks are left in so skipping a large portion of the body isn't mistaken for
+            // a stalled connection.
+            Box::new(stream.map_ok(move |mut bytes| {
+                let skipped = skip.min(bytes.len() as u64);
+                skip -= skipped;
+                bytes.advance(skipped as usize);
+                bytes
+            }))
+        };
+    }
+
+    /// Servers are free to ignore the `Range` header and respond with the entire body instead.
+    fn is_range_ignored(&self, response: &C::Response) -> bool {
+        if response.headers().header("Content-Range").is_some() {
+            return false;
+        }
+        match (response.content_length(), self.content_length) {
+            (Some(response_length), Some(content_length)) => response_length == content_length,
+            _ => !self.supports_range_request(),
+        }
+    }
 }
 
 impl<C: Client> Stream for HttpStream<C> {
@@ -335,7 +364,13 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 ))
             }
         }?;
-        self.stream = Box::new(response.stream());
+        let response_start = if self.is_range_ignored(&response) {
+            warn!("range request ignored by server, skipping to the requested position");
+            0
+        } else {
+            start
+        };
+        self.set_response(response, response_start, start);
         debug!("done seeking");
         Ok(())
     }
@@ -350,7 +385,16 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
-            self.stream = Box::new(response.stream());
+            let response = match response.into_result() {
+                Ok(response) => Ok(response),
+                Err(e) => {
+                    let error = e.decode_error().await;
+                    Err(io::Error::other(error))
+                        .wrap_err(&format!("error getting HTTP response from {}", self.url))
+                }
+            }?;
+            // The server is going to send everything again
+            self.set_response(response, 0, current_position);
             Ok(())
         }
     }
-- 
2.43.0


From 9fa6a6288f8ac3a1027060b51221111c19a1a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 10/32] fix: wait_for_completion returned before a cancelled
 download was finished

---
 crates/stream-download/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 2746142..26f0878 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -69,6 +69,7 @@ pub struct StreamDownload<P: StorageProvider> {
     output_reader: P::Reader,
     handle: SourceHandle,
     download_task_cancellation_token: CancellationToken,
+    download_task_finished: CancellationToken,
     cancel_on_drop: bool,
     content_length: Option<u64>,
     storage_capacity: Option<usize>,
@@ -377,7 +378,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     /// the stream remotely.
     pub fn handle(&self) -> StreamHandle {
         StreamHandle {
-            finished: self.download_task_cancellation_token.clone(),
+            finished: self.download_task_finished.clone(),
         }
     }
 
@@ -405,13 +406,18 @@ impl<P: StorageProvider> StreamDownload<P> {
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
+        // This is separate from the cancellation token because a cancelled task still needs some
+        // time to shut down.
+        let finished = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
         let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
         let handle = source.source_handle();
 
         tokio::spawn({
             let cancellation_token = cancellation_token.clone();
+            let finished_guard = finished.clone().drop_guard();
             async move {
+                let _finished_guard = finished_guard;
                 source.download(stream).await;
                 cancellation_token.cancel();
                 debug!("download task finished");
@@ -422,6 +428,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             output_reader: reader,
             handle,
             download_task_cancellation_token: cancellation_token,
+            download_task_finished: finished,
             cancel_on_drop,
             content_length,
             storage_capacity,
-- 
2.43.0


From 430fc9947c9350493269b9fab3bd175bf18601b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 11/32] fix: readers hung if the download task panicked or its
 runtime was shut down

---
 crates/stream-download/src/source/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 200d777..f9b4b70 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -131,6 +131,24 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     prefetch_start_position: u64,
     remaining_bytes: Option<Bytes>,
     cancellation_token: CancellationToken,
+    finished: bool,
+}
+
+impl<S: SourceStream, W: StorageWriter> Source<S, W> {
+    fn signal_download_complete(&self) {
+        self.position_reached.notify_stream_done();
+    }
+}
+
+impl<S: SourceStream, W: StorageWriter> Drop for Source<S, W> {
+    fn drop(&mut self) {
+        // If the task panicked or the runtime was shut down, nothing else is going to release a
+        // waiting reader.
+        if !self.finished {
+            self.download_status.set_failed();
+            self.signal_download_complete();
+        }
+    }
 }
 
 impl<S, W> Source<S, W>
@@ -166,6 +184,7 @@ where
             prefetch_start_position: 0,
             remaining_bytes: None,
             cancellation_token,
+            finished: false,
         }
     }
 
@@ -190,6 +209,7 @@ where
             }
             self.download_status.set_failed();
         }
+        self.finished = true;
         self.signal_download_complete();
     }
 
@@ -475,10 +495,6 @@ where
         Ok(())
     }
 
-    fn signal_download_complete(&self) {
-        self.position_reached.notify_stream_done();
-    }
-
     fn report_progress(&mut self, stream: &S, info: StreamState) {
         if let Some(on_progress) = self.on_progress.as_mut() {
             on_progress(stream, info, &self.cancellation_token);
-- 
2.43.0


From 25ec1793e17dc26f6c7672a07aa48828c24f2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 12/32] fix: downloads couldn't be cancelled during a seek, a
 reconnect or a blocked write

---
 crates/stream-download/src/source/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index f9b4b70..4357688 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -190,7 +190,17 @@ where
 
     #[instrument(skip_all)]
     pub(crate) async fn download(&mut self, mut stream: S) {
-        let res = self.download_inner(&mut stream).await;
+        let cancellation_token = self.cancellation_token.clone();
+        let res = tokio::select! {
+            biased;
+            res = self.download_inner(&mut stream) => res,
+            // The task could be waiting on anything, like a slow seek or a reader that stopped
+            // reading, so this needs to interrupt more than the next chunk.
+            () = cancellation_token.cancelled() => {
+                debug!("received cancellation request, stopping download task");
+                Ok(StreamOutcome::CancelledByUser)
+            }
+        };
         let (res, stream_res) = match res {
             Ok(StreamOutcome::Completed) => (Ok(()), StreamOutcome::Completed),
             Ok(StreamOutcome::CancelledByUser) => (
-- 
2.43.0


From e6223fb50574d86785dc93b9eae1ec776cd4bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 13/32] fix: readers could hang, miss wakeups or be handed
 bytes that weren't downloaded

The reader and the download task agreed on positions through independent flags: a
wakeup between checking and waiting was lost, seek requests queued up behind each
other or were ignored while a write was blocked on a full storage, and a read was
released by any position beyond the requested one, even if the range in between
was never downloaded (or the stream ended early).

- wait until the requested range is downloaded, re-checking after every wakeup
- only keep the latest seek request and handle it even if the writer is blocked
- seek to the requested position instead of the first gap around it
- don't write the rest of a chunk a second time after a partial prefetch write
- limit reads to the downloaded range and report UnexpectedEof for missing content
---
 crates/stream-download/src/lib.rs           |  56 +++--
 crates/stream-download/src/source/handle.rs | 181 ++++++++++++----
 crates/stream-download/src/source/mod.rs    | 223 +++++++++++++-------
 3 files changed, 321 insertions(+), 139 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 26f0878..09fe691 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -1,7 +1,10 @@
 #![deny(missing_docs)]
 #![forbid(clippy::unwrap_used)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
-#![expect(unexpected_cfgs, reason = "stream_download_sim is only set by the simulator")]
+#![expect(
+    unexpected_cfgs,
+    reason = "stream_download_sim is only set by the simulator"
+)]
 #![doc = include_str!("../README.md")]
 
 use std::fmt::Debug;
@@ -410,7 +413,13 @@ impl<P: StorageProvider> StreamDownload<P> {
         // time to shut down.
         let finished = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
+        let mut source = Source::new(
+            writer,
+            content_length,
+            stream.supports_seek(),
+            settings,
+            cancellation_token.clone(),
+        );
         let handle = source.source_handle();
 
         tokio::spawn({
@@ -489,6 +498,13 @@ impl<P: StorageProvider> StreamDownload<P> {
         }
     }
 
+    fn is_missing_content(&self, position: u64) -> bool {
+        self.content_length.map_or_else(
+            || self.handle.is_downloaded_after(position),
+            |length| position < length,
+        )
+    }
+
     fn check_for_excessive_read(&self, buf_len: usize) -> io::Result<()> {
         // Ensure the buffer fits within the storage capacity.
         // We could get around this from erroring by breaking this into multiple smaller reads, but
@@ -583,30 +599,34 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             requested_position = requested_position
         );
 
-        if let Some(closest_set) = self.handle.get_downloaded_at_position(stream_position) {
-            trace!(
-                downloaded_range = format!("{closest_set:?}"),
-                "current position already downloaded"
-            );
-            if closest_set.end >= requested_position {
-                trace!("requested position already downloaded");
-                return self.handle_read(buf);
-            }
-            debug!("requested position not yet downloaded");
-        } else {
-            debug!("stream position not yet downloaded");
+        if requested_position > stream_position {
+            self.handle
+                .wait_for_range(stream_position..requested_position);
+        } else if !buf.is_empty() {
+            self.handle.wait_for_end(stream_position);
         }
-
-        self.handle.wait_for_position(requested_position);
         self.check_for_failure()?;
         debug!(
             current_position = stream_position,
             requested_position = requested_position,
-            output_stream_position = self.output_reader.stream_position()?,
             "reached requested position"
         );
 
-        self.handle_read(buf)
+        // The stream may have ended early, so make sure we only return what was really downloaded
+        let available = self
+            .handle
+            .get_downloaded_at_position(stream_position)
+            .map_or(0, |range| range.end - stream_position);
+        if available == 0 && !buf.is_empty() && self.is_missing_content(stream_position) {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "stream ended before the requested position was downloaded",
+            ));
+        }
+        let len = usize::try_from(available)
+            .unwrap_or(usize::MAX)
+            .min(buf.len());
+        self.handle_read(&mut buf[..len])
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index e20d79a..2d2ce83 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -3,17 +3,16 @@ use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 #[cfg(not(stream_download_sim))]
-use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
 use rangemap::RangeSet;
-use tokio::sync::mpsc::error::TrySendError;
-use tokio::sync::{Notify, mpsc};
-use tracing::{debug, error};
+use tokio::sync::{Notify, watch};
+use tracing::{debug, warn};
 
 #[cfg(stream_download_sim)]
-use crate::sim::atomic::{AtomicBool, AtomicI64, Ordering};
+use crate::sim::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
 
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
@@ -21,8 +20,10 @@ pub(crate) struct SourceHandle {
     pub(super) download_status: DownloadStatus,
     pub(super) requested_position: RequestedPosition,
     pub(super) position_reached: PositionReached,
+    pub(super) next_position: NextPosition,
     pub(super) content_length: Option<u64>,
-    pub(super) seek_tx: mpsc::Sender<u64>,
+    pub(super) supports_seek: bool,
+    pub(super) seek_tx: watch::Sender<Option<SeekRequest>>,
     pub(super) notify_read: NotifyRead,
 }
 
@@ -31,24 +32,99 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    pub(crate) fn wait_for_position(&self, requested_position: u64) {
-        self.request_position(requested_position);
-        debug!(
-            requested_position = requested_position,
-            "waiting for requested position"
-        );
-        self.notify_read.notify_waiting();
-        self.position_reached.wait_for_position_reached();
+    /// Returns whether anything after the given position was downloaded.
+    pub(crate) fn is_downloaded_after(&self, position: u64) -> bool {
+        self.downloaded.end() > position
+    }
+
+    /// Blocks until everything in the range is downloaded. This stops waiting early if the stream
+    /// is done.
+    pub(crate) fn wait_for_range(&self, range: Range<u64>) {
+        self.wait_for_download(range.end, || {
+            self.downloaded.next_gap(range.clone()).map(|g| g.start)
+        });
     }
 
+    /// Blocks until the stream is done. The end of the content is downloaded first.
+    pub(crate) fn wait_for_end(&self, content_length: u64) {
+        if let Some(last) = content_length.checked_sub(1) {
+            self.wait_for_range(last..content_length);
+        }
+        while !self.wait(content_length) {}
+    }
+
+    /// Blocks until the download continues from the seek position or the content at the seek
+    /// position is downloaded. This stops waiting early if the stream is done.
     pub(crate) fn seek(&self, seek_position: u64) {
-        self.request_position(seek_position);
-        self.request_seek(seek_position);
-        debug!(
-            requested_position = seek_position,
-            "waiting for requested position"
-        );
-        self.position_reached.wait_for_position_reached();
+        if self
+            .content_length
+            .is_some_and(|length| seek_position >= length)
+        {
+            // There's nothing to download here
+            return;
+        }
+        let mut requested = !self.supports_seek;
+        if !self.supports_seek {
+            warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
+        }
+        loop {
+            self.request_position(seek_position);
+            if self.downloaded.get(seek_position).is_some() {
+                break;
+            }
+            if self.seek_tx.borrow().is_none() {
+                // no pending request
+                if requested && self.next_position.get() == seek_position {
+                    break;
+                }
+                if self.supports_seek {
+                    self.request_seek(Some(SeekRequest {
+                        position: seek_position,
+                        force: !requested,
+                    }));
+                    requested = true;
+                }
+            }
+            if self.wait(seek_position) {
+                break;
+            }
+        }
+        self.finish_request();
+    }
+
+    /// Blocks until there is no missing position or the stream is done.
+    fn wait_for_download(&self, requested_position: u64, missing: impl Fn() -> Option<u64>) {
+        loop {
+            // The request has to be visible before checking what's missing, otherwise the download
+            // could make progress in between without notifying us.
+            self.request_position(requested_position);
+            let Some(missing) = missing() else {
+                break;
+            };
+            if self.supports_seek && self.next_position.get() != missing {
+                // This isn't where the download is going to continue
+                self.request_seek(Some(SeekRequest {
+                    position: missing,
+                    force: false,
+                }));
+            }
+            if self.wait(requested_position) {
+                break;
+            }
+        }
+        self.finish_request();
+    }
+
+    /// Returns whether the stream is done.
+    fn wait(&self, requested_position: u64) -> bool {
+        debug!(requested_position, "waiting for requested position");
+        self.notify_read.notify_waiting();
+        self.position_reached.wait_for_position_reached()
+    }
+
+    fn finish_request(&self) {
+        self.requested_position.clear();
+        self.request_seek(None);
     }
 
     pub(crate) fn notify_read(&self) {
@@ -67,15 +143,33 @@ impl SourceHandle {
         self.requested_position.set(position);
     }
 
-    fn request_seek(&self, position: u64) {
-        self.seek_tx
-            .try_send(position)
-            .inspect_err(|e| {
-                if let TrySendError::Full(_) = e {
-                    error!("Sent multiple seek requests without waiting");
-                }
-            })
-            .ok();
+    fn request_seek(&self, request: Option<SeekRequest>) {
+        self.seek_tx.send_if_modified(|current| {
+            let modified = request.is_some() || current.is_some();
+            *current = request;
+            modified
+        });
+    }
+}
+
+#[derive(Debug, Clone, Copy)]
+pub(super) struct SeekRequest {
+    pub(super) position: u64,
+    /// Move the stream even if this is where the download would continue anyway.
+    pub(super) force: bool,
+}
+
+/// Position that will be added to the downloaded content next.
+#[derive(Debug, Clone, Default)]
+pub(super) struct NextPosition(Arc<AtomicU64>);
+
+impl NextPosition {
+    pub(super) fn get(&self) -> u64 {
+        self.0.load(Ordering::SeqCst)
+    }
+
+    pub(super) fn set(&self, position: u64) {
+        self.0.store(position, Ordering::SeqCst);
     }
 }
 
@@ -88,20 +182,18 @@ impl Default for RequestedPosition {
     }
 }
 
-// relaxed ordering as we are not using the atomic to
-// lock something or to synchronize threads.
 impl RequestedPosition {
-    pub(super) fn clear(&self) {
-        self.0.store(-1, Ordering::Relaxed);
+    fn clear(&self) {
+        self.0.store(-1, Ordering::SeqCst);
     }
 
     pub(super) fn get(&self) -> Option<u64> {
-        let val = self.0.load(Ordering::Relaxed);
+        let val = self.0.load(Ordering::SeqCst);
         if val == -1 { None } else { Some(val as u64) }
     }
 
     fn set(&self, position: u64) {
-        self.0.store(position as i64, Ordering::Relaxed);
+        self.0.store(position as i64, Ordering::SeqCst);
     }
 }
 
@@ -131,11 +223,12 @@ impl PositionReached {
         cvar.notify_all();
     }
 
-    fn wait_for_position_reached(&self) {
+    /// Returns whether the stream is done.
+    fn wait_for_position_reached(&self) -> bool {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
-            return;
+            return true;
         }
 
         let wait_start = Instant::now();
@@ -150,6 +243,7 @@ impl PositionReached {
         if !waiter.stream_done {
             waiter.position_reached = false;
         }
+        waiter.stream_done
     }
 }
 
@@ -168,8 +262,17 @@ impl Downloaded {
         self.0.read().get(&position).cloned()
     }
 
+    pub(super) fn end(&self) -> u64 {
+        self.0.read().last().map_or(0, |range| range.end)
+    }
+
     pub(super) fn next_gap(&self, range: Range<u64>) -> Option<Range<u64>> {
-        self.0.read().gaps(&range).next()
+        // explicit check here prevents panic
+        if range.end > range.start {
+            self.0.read().gaps(&range).next()
+        } else {
+            None
+        }
     }
 }
 
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 4357688..ad6f5b4 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -6,14 +6,16 @@ use std::error::Error;
 use std::fmt::Debug;
 use std::future;
 use std::io::{self, SeekFrom};
+use std::ops::Range;
 use std::time::{Duration, Instant};
 
-use bytes::{BufMut, Bytes, BytesMut};
+use bytes::Bytes;
 use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
-    DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SourceHandle,
+    DownloadStatus, Downloaded, NextPosition, NotifyRead, PositionReached, RequestedPosition,
+    SeekRequest, SourceHandle,
 };
-use tokio::sync::mpsc;
+use tokio::sync::watch;
 use tokio::task::yield_now;
 use tokio::time::timeout;
 use tokio_util::sync::CancellationToken;
@@ -119,9 +121,11 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     requested_position: RequestedPosition,
     position_reached: PositionReached,
     notify_read: NotifyRead,
+    next_position: NextPosition,
     content_length: Option<u64>,
-    seek_tx: mpsc::Sender<u64>,
-    seek_rx: mpsc::Receiver<u64>,
+    supports_seek: bool,
+    seek_tx: watch::Sender<Option<SeekRequest>>,
+    seek_rx: watch::Receiver<Option<SeekRequest>>,
     prefetch_bytes: u64,
     batch_write_size: usize,
     retry_timeout: Duration,
@@ -129,7 +133,6 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     on_reconnect: Option<ReconnectFn<S>>,
     prefetch_complete: bool,
     prefetch_start_position: u64,
-    remaining_bytes: Option<Bytes>,
     cancellation_token: CancellationToken,
     finished: bool,
 }
@@ -159,12 +162,12 @@ where
     pub(crate) fn new(
         writer: W,
         content_length: Option<u64>,
+        supports_seek: bool,
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
-        // buffer size of 1 is fine here because we wait for the position to update after we send
-        // each request
-        let (seek_tx, seek_rx) = mpsc::channel(1);
+        // only the most recent request matters
+        let (seek_tx, seek_rx) = watch::channel(None);
         Self {
             writer,
             downloaded: Downloaded::default(),
@@ -172,9 +175,11 @@ where
             requested_position: RequestedPosition::default(),
             position_reached: PositionReached::default(),
             notify_read: NotifyRead::default(),
+            next_position: NextPosition::default(),
             seek_tx,
             seek_rx,
             content_length,
+            supports_seek,
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
             batch_write_size: settings.batch_write_size,
@@ -182,7 +187,6 @@ where
             on_progress: settings.on_progress,
             on_reconnect: settings.on_reconnect,
             prefetch_start_position: 0,
-            remaining_bytes: None,
             cancellation_token,
             finished: false,
         }
@@ -232,9 +236,8 @@ where
             // chunk. Forcing the client to abort and retry may help in these cases.
             let next_chunk = timeout(self.retry_timeout, stream.next());
             tokio::select! {
-                position = self.seek_rx.recv() => {
-                    // seek_tx can't be dropped here since we keep a reference in this struct
-                    self.handle_seek(stream, position.expect("seek_tx dropped")).await?;
+                request = next_seek(&mut self.seek_rx) => {
+                    self.handle_seek(stream, request).await?;
                 },
                 bytes = next_chunk => {
                     let Ok(bytes) = bytes else {
@@ -263,40 +266,52 @@ where
         Ok(StreamOutcome::Completed)
     }
 
-    async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
-        if self.should_seek(stream, position)? {
+    /// Returns whether the stream was moved to a different position.
+    async fn handle_seek(&mut self, stream: &mut S, request: SeekRequest) -> io::Result<bool> {
+        let SeekRequest { position, force } = request;
+        let mut moved = false;
+        if self.should_seek(stream, request)? {
             debug!("seek position not yet downloaded");
-            let current_stream_position = self.writer.stream_position()?;
-            if self.prefetch_complete {
-                debug!("re-starting prefetch");
-                self.prefetch_start_position = position;
-                self.prefetch_complete = false;
-            } else {
+            let was_prefetching = !self.prefetch_complete;
+            if was_prefetching {
                 debug!("seeking during prefetch, ending prefetch early");
-                self.downloaded
-                    .add(self.prefetch_start_position..current_stream_position);
-                self.prefetch_complete = true;
+                self.finish_prefetch()?;
             }
-            if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
+            let seek_range = if let Some(content_length) = self.content_length {
                 debug!(
-                    start = min_start_position,
+                    start = position,
                     end = content_length,
                     "checking for seek range",
                 );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
-                }
+                self.downloaded
+                    .next_gap(position..content_length)
+                    .map(|gap| (gap.start, Some(gap.end)))
             } else {
-                self.seek(stream, position, None).await?;
+                Some((position, None))
+            };
+            if let Some((seek_start, seek_end)) = seek_range
+                && (seek_start != self.writer.stream_position()? || force)
+            {
+                debug!(seek_start, seek_end, "requesting seek range");
+                self.seek(stream, seek_start, seek_end).await?;
+                moved = true;
+                if !was_prefetching {
+                    debug!("re-starting prefetch");
+                    self.prefetch_start_position = seek_start;
+                    self.prefetch_complete = false;
+                }
             }
         }
-        Ok(())
+        self.finish_seek_request();
+        Ok(moved)
+    }
+
+    fn finish_seek_request(&self) {
+        self.seek_tx.send_if_modified(|request| {
+            *request = None;
+            false
+        });
+        self.position_reached.notify_position_reached();
     }
 
     async fn handle_reconnect(&mut self, stream: &mut S) -> io::Result<()> {
@@ -326,11 +341,9 @@ where
         download_start: Instant,
     ) -> io::Result<DownloadAction> {
         let Some(bytes) = bytes else {
-            self.prefetch_complete = true;
             debug!("file shorter than prefetch length, download finished");
             self.writer.flush()?;
-            let position = self.writer.stream_position()?;
-            self.downloaded.add(start_position..position);
+            self.finish_prefetch()?;
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -347,18 +360,49 @@ where
                 bytes_len = bytes.len(),
                 "failed to write all during prefetch"
             );
-            self.remaining_bytes = Some(bytes.slice(written..));
         }
         if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
-            self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
-            self.prefetch_complete = true;
+            self.finish_prefetch()?;
         }
 
         self.report_prefetch_progress(stream, stream_position, download_start, written);
+        if partial_write {
+            self.write_chunk(stream, bytes.slice(written..), download_start)
+                .await?;
+        }
         Ok(DownloadAction::Continue)
     }
 
+    fn finish_prefetch(&mut self) -> io::Result<()> {
+        let position = self.writer.stream_position()?;
+        self.prefetch_complete = true;
+        self.add_downloaded(self.prefetch_start_position..position);
+        Ok(())
+    }
+
+    fn add_downloaded(&self, range: Range<u64>) {
+        let position = range.end;
+        self.downloaded.add(range);
+        self.next_position.set(position);
+
+        if let Some(requested) = self.requested_position.get() {
+            debug!(
+                requested_position = requested,
+                current_position = position,
+                "received requested position"
+            );
+            let end = position
+                .checked_sub(1)
+                .and_then(|last| self.downloaded.get(last))
+                .map_or(position, |range| range.end);
+            if end >= requested {
+                debug!("notifying position reached");
+                self.position_reached.notify_position_reached();
+            }
+        }
+    }
+
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
         if stream.supports_seek()
             && let Some(content_length) = self.content_length
@@ -417,27 +461,30 @@ where
                 .await;
         }
 
-        let bytes = match (self.remaining_bytes.take(), bytes) {
-            (Some(remaining), Some(bytes)) => {
-                let mut combined = BytesMut::new();
-                combined.put(remaining);
-                combined.put(bytes);
-                combined.freeze()
-            }
-            (Some(remaining), None) => remaining,
-            (None, Some(bytes)) => bytes,
-            (None, None) => {
-                return self.finish_or_find_next_gap(stream).await;
-            }
+        let Some(bytes) = bytes else {
+            return self.finish_or_find_next_gap(stream).await;
         };
-        let bytes_len = bytes.len();
-        let new_position = self.write(bytes).await?;
-        self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        self.write_chunk(stream, bytes, download_start).await?;
 
         Ok(DownloadAction::Continue)
     }
 
-    async fn write(&mut self, bytes: Bytes) -> io::Result<u64> {
+    async fn write_chunk(
+        &mut self,
+        stream: &mut S,
+        bytes: Bytes,
+        download_start: Instant,
+    ) -> io::Result<()> {
+        let bytes_len = bytes.len();
+        if let Some(new_position) = self.write(stream, bytes).await? {
+            self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        }
+        Ok(())
+    }
+
+    /// Returns the new position or `None` if the rest of the bytes are obsolete because the stream
+    /// was moved to a different position.
+    async fn write(&mut self, stream: &mut S, bytes: Bytes) -> io::Result<Option<u64>> {
         let mut written = 0;
         let position = self.writer.stream_position()?;
         let mut new_position = position;
@@ -453,28 +500,21 @@ where
                 written += new_written;
             }
             new_position = self.writer.stream_position()?;
-            if new_position > position {
-                self.downloaded.add(position..new_position);
-            }
+            self.add_downloaded(position..new_position);
 
-            if let Some(requested) = self.requested_position.get() {
-                debug!(
-                    requested_position = requested,
-                    current_position = new_position,
-                    "received requested position"
-                );
-
-                if new_position >= requested {
-                    debug!("notifying position reached");
-                    self.requested_position.clear();
-                    self.position_reached.notify_position_reached();
-                }
-            }
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
-                self.notify_read.wait_for_read().await;
-                debug!("read finished");
+                tokio::select! {
+                    () = self.notify_read.wait_for_read() => {
+                        debug!("read finished");
+                    }
+                    request = next_seek(&mut self.seek_rx) => {
+                        if self.handle_seek(stream, request).await? {
+                            return Ok(None);
+                        }
+                    }
+                }
             }
 
             trace!(
@@ -484,24 +524,29 @@ where
                 "received response chunk"
             );
         }
-        Ok(new_position)
+        Ok(Some(new_position))
     }
 
-    fn should_seek(&mut self, stream: &S, position: u64) -> io::Result<bool> {
+    fn should_seek(&mut self, stream: &S, request: SeekRequest) -> io::Result<bool> {
+        let SeekRequest { position, force } = request;
         if !stream.supports_seek() {
-            warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
             return Ok(false);
         }
+        let writer_position = self.writer.stream_position()?;
         Ok(if let Some(range) = self.downloaded.get(position) {
-            !range.contains(&self.writer.stream_position()?)
+            // the end is included because that's where the next chunk is going to be written
+            !(range.start..=range.end).contains(&writer_position)
         } else {
-            true
+            force || position != self.next_position.get()
         })
     }
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
         self.writer.seek(SeekFrom::Start(start))?;
+        self.next_position.set(start);
+        // The reader may be waiting for something that won't be downloaded next anymore
+        self.position_reached.notify_position_reached();
         Ok(())
     }
 
@@ -576,9 +621,23 @@ where
             download_status: self.download_status.clone(),
             requested_position: self.requested_position.clone(),
             notify_read: self.notify_read.clone(),
+            next_position: self.next_position.clone(),
             position_reached: self.position_reached.clone(),
             seek_tx: self.seek_tx.clone(),
             content_length: self.content_length,
+            supports_seek: self.supports_seek,
+        }
+    }
+}
+
+/// Waits for the next seek request.
+async fn next_seek(seek_rx: &mut watch::Receiver<Option<SeekRequest>>) -> SeekRequest {
+    loop {
+        // the sender can't be dropped here since we keep a reference in the source
+        seek_rx.changed().await.expect("seek_tx dropped");
+        // the request is withdrawn if the reader doesn't need it anymore
+        if let Some(request) = *seek_rx.borrow_and_update() {
+            return request;
         }
     }
 }
-- 
2.43.0


From 4ad81d1a71f5169fe9f11d090dadd639bcb1562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 14/32] fix: prefetch progress after a seek included content
 that wasn't downloaded

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index ad6f5b4..8e6606d 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -567,7 +567,7 @@ where
             stream,
             StreamState {
                 current_position: stream_position,
-                current_chunk: (0..stream_position),
+                current_chunk: (self.prefetch_start_position..stream_position),
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Prefetching {
                     target: self.prefetch_bytes,
-- 
2.43.0


From dfe7df1dbed488e5c6fb8641089d77ffcabd11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 15/32] fix: missing content was requested in an endless loop
 if the server didn't return it

---
 crates/stream-download/src/source/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 8e6606d..c344cb8 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -114,6 +114,9 @@ enum DownloadAction {
     Complete,
 }
 
+/// Stop trying to download the missing parts if this many requests in a row didn't return anything.
+const MAX_EMPTY_GAP_REQUESTS: usize = 10;
+
 pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     writer: W,
     downloaded: Downloaded,
@@ -134,6 +137,7 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     prefetch_complete: bool,
     prefetch_start_position: u64,
     cancellation_token: CancellationToken,
+    empty_gap_requests: usize,
     finished: bool,
 }
 
@@ -188,6 +192,7 @@ where
             on_reconnect: settings.on_reconnect,
             prefetch_start_position: 0,
             cancellation_token,
+            empty_gap_requests: 0,
             finished: false,
         }
     }
@@ -347,6 +352,7 @@ where
 
             return self.finish_or_find_next_gap(stream).await;
         };
+        self.empty_gap_requests = 0;
         let written = self.write_batched(&bytes).await?;
         self.writer.flush()?;
 
@@ -408,7 +414,10 @@ where
             && let Some(content_length) = self.content_length
         {
             let gap = self.downloaded.next_gap(0..content_length);
-            if let Some(gap) = gap {
+            if gap.is_some() && self.empty_gap_requests == MAX_EMPTY_GAP_REQUESTS {
+                warn!("unable to download the missing parts of the stream");
+            } else if let Some(gap) = gap {
+                self.empty_gap_requests += 1;
                 debug!(
                     missing = format!("{gap:?}"),
                     "downloading missing stream chunk"
@@ -464,6 +473,7 @@ where
         let Some(bytes) = bytes else {
             return self.finish_or_find_next_gap(stream).await;
         };
+        self.empty_gap_requests = 0;
         self.write_chunk(stream, bytes, download_start).await?;
 
         Ok(DownloadAction::Continue)
-- 
2.43.0


From 16da56b59c2bb80f4fa99be21cd5601bae930a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 16/32] fix: bounded storage returned wrong data after a seek

The buffer only holds one contiguous part of the content, so the parts downloaded
before a seek aren't available anymore and it's not possible to fill gaps.
---
 crates/stream-download/src/lib.rs           | 10 +++++++---
 crates/stream-download/src/source/handle.rs |  9 ++++++++-
 crates/stream-download/src/source/mod.rs    | 16 +++++++++++++++-
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 09fe691..6ff2c6a 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -417,6 +417,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             writer,
             content_length,
             stream.supports_seek(),
+            storage_capacity.is_some(),
             settings,
             cancellation_token.clone(),
         );
@@ -654,13 +655,16 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
         }
 
+        // Move the reader first so a bounded writer knows which part needs to be kept
+        let new_position = self
+            .output_reader
+            .seek(SeekFrom::Start(absolute_seek_position))
+            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))?;
         self.handle.seek(absolute_seek_position);
         self.check_for_failure()?;
         debug!("reached seek position");
 
-        self.output_reader
-            .seek(SeekFrom::Start(absolute_seek_position))
-            .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"))
+        Ok(new_position)
     }
 }
 
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 2d2ce83..bbb9a78 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -23,6 +23,7 @@ pub(crate) struct SourceHandle {
     pub(super) next_position: NextPosition,
     pub(super) content_length: Option<u64>,
     pub(super) supports_seek: bool,
+    pub(super) sequential: bool,
     pub(super) seek_tx: watch::Sender<Option<SeekRequest>>,
     pub(super) notify_read: NotifyRead,
 }
@@ -47,7 +48,9 @@ impl SourceHandle {
 
     /// Blocks until the stream is done. The end of the content is downloaded first.
     pub(crate) fn wait_for_end(&self, content_length: u64) {
-        if let Some(last) = content_length.checked_sub(1) {
+        if !self.sequential
+            && let Some(last) = content_length.checked_sub(1)
+        {
             self.wait_for_range(last..content_length);
         }
         while !self.wait(content_length) {}
@@ -258,6 +261,10 @@ impl Downloaded {
         }
     }
 
+    pub(super) fn clear(&self) {
+        self.0.write().clear();
+    }
+
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
         self.0.read().get(&position).cloned()
     }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index c344cb8..e55a37e 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -127,6 +127,9 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     next_position: NextPosition,
     content_length: Option<u64>,
     supports_seek: bool,
+    /// The storage can only hold a limited number of bytes, so there's no way to keep separate
+    /// parts of the content.
+    sequential: bool,
     seek_tx: watch::Sender<Option<SeekRequest>>,
     seek_rx: watch::Receiver<Option<SeekRequest>>,
     prefetch_bytes: u64,
@@ -167,6 +170,7 @@ where
         writer: W,
         content_length: Option<u64>,
         supports_seek: bool,
+        sequential: bool,
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
@@ -184,6 +188,7 @@ where
             seek_rx,
             content_length,
             supports_seek,
+            sequential,
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
             batch_write_size: settings.batch_write_size,
@@ -413,7 +418,12 @@ where
         if stream.supports_seek()
             && let Some(content_length) = self.content_length
         {
-            let gap = self.downloaded.next_gap(0..content_length);
+            let start = if self.sequential {
+                self.writer.stream_position()?
+            } else {
+                0
+            };
+            let gap = self.downloaded.next_gap(start..content_length);
             if gap.is_some() && self.empty_gap_requests == MAX_EMPTY_GAP_REQUESTS {
                 warn!("unable to download the missing parts of the stream");
             } else if let Some(gap) = gap {
@@ -553,6 +563,9 @@ where
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
+        if self.sequential {
+            self.downloaded.clear();
+        }
         self.writer.seek(SeekFrom::Start(start))?;
         self.next_position.set(start);
         // The reader may be waiting for something that won't be downloaded next anymore
@@ -636,6 +649,7 @@ where
             seek_tx: self.seek_tx.clone(),
             content_length: self.content_length,
             supports_seek: self.supports_seek,
+            sequential: self.sequential,
         }
     }
 }
-- 
2.43.0


From 170310209285078eb21f1ff7e5cf6b194bdaaa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 17/32] fix: adaptive storage accepted reads that can never fit
 into its bounded buffer

---
 crates/stream-download/src/lib.rs              |  2 +-
 crates/stream-download/src/storage/adaptive.rs | 10 ++++++++++
 crates/stream-download/src/storage/mod.rs      |  7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 6ff2c6a..1fe57dc 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -404,7 +404,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             .await
             .map_err(StreamInitializationError::StreamCreationFailure)?;
         let content_length = stream.content_length();
-        let storage_capacity = storage_provider.max_capacity();
+        let storage_capacity = storage_provider.max_capacity_for(content_length);
         let (reader, writer) = storage_provider
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
diff --git a/crates/stream-download/src/storage/adaptive.rs b/crates/stream-download/src/storage/adaptive.rs
index 2da8418..5718015 100644
--- a/crates/stream-download/src/storage/adaptive.rs
+++ b/crates/stream-download/src/storage/adaptive.rs
@@ -104,6 +104,16 @@ where
     type Reader = AdaptiveStorageReader<F::Reader, V::Reader>;
     type Writer = AdaptiveStorageWriter<F::Writer, V::Writer>;
 
+    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
+        match content_length {
+            None => Some(self.buffer_size.get()),
+            Some(length) if length <= self.buffer_size.get() as u64 => {
+                self.fixed_storage.max_capacity_for(content_length)
+            }
+            Some(_) => self.variable_storage.max_capacity_for(content_length),
+        }
+    }
+
     fn into_reader_writer(
         self,
         content_length: Option<u64>,
diff --git a/crates/stream-download/src/storage/mod.rs b/crates/stream-download/src/storage/mod.rs
index ea41bf5..c07e7cd 100644
--- a/crates/stream-download/src/storage/mod.rs
+++ b/crates/stream-download/src/storage/mod.rs
@@ -28,6 +28,13 @@ pub trait StorageProvider: Send {
     fn max_capacity(&self) -> Option<usize> {
         None
     }
+
+    /// Returns the maximum number of bytes this provider can hold at a time for content with the
+    /// given length. Implement this if the capacity depends on the content length.
+    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
+        let _ = content_length;
+        self.max_capacity()
+    }
 }
 
 /// Trait used to read from a storage layer
-- 
2.43.0


From 6b593f54b806fb131c1804fad5f85c3c4ecd8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 18/32] fix: the end of the stream was signalled before
 on_finish could report a failure

---
 crates/stream-download/src/source/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index e55a37e..8c1c08c 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -437,7 +437,6 @@ where
             }
         }
         self.writer.flush()?;
-        self.signal_download_complete();
         Ok(DownloadAction::Complete)
     }
 
-- 
2.43.0


From ba306bc4c50ddc72fdb7a25059aa707af0866b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 19/32] fix: readers at the end hung if the connection stayed
 silent, and missing content of unknown length was reported as the end

---
 crates/stream-download/src/lib.rs             |  6 ++----
 crates/stream-download/src/source/handle.rs   |  6 +++---
 crates/stream-download/src/source/mod.rs      | 18 +++++++++++++++---
 crates/stream-download/src/storage/bounded.rs | 15 ++-------------
 crates/stream-download/src/storage/temp.rs    |  4 +---
 5 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 1fe57dc..ba246ea 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -500,10 +500,8 @@ impl<P: StorageProvider> StreamDownload<P> {
     }
 
     fn is_missing_content(&self, position: u64) -> bool {
-        self.content_length.map_or_else(
-            || self.handle.is_downloaded_after(position),
-            |length| position < length,
-        )
+        self.content_length
+            .map_or_else(|| self.handle.is_past(position), |length| position < length)
     }
 
     fn check_for_excessive_read(&self, buf_len: usize) -> io::Result<()> {
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index bbb9a78..f47a790 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -33,9 +33,9 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    /// Returns whether anything after the given position was downloaded.
-    pub(crate) fn is_downloaded_after(&self, position: u64) -> bool {
-        self.downloaded.end() > position
+    /// Returns whether the download got past the given position.
+    pub(crate) fn is_past(&self, position: u64) -> bool {
+        self.downloaded.end().max(self.next_position.get()) > position
     }
 
     /// Blocks until everything in the range is downloaded. This stops waiting early if the stream
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 8c1c08c..44f030d 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -250,9 +250,14 @@ where
                     self.handle_seek(stream, request).await?;
                 },
                 bytes = next_chunk => {
-                    let Ok(bytes) = bytes else {
-                        self.handle_reconnect(stream).await?;
-                        continue;
+                    let bytes = match bytes {
+                        Ok(bytes) => bytes,
+                        // There's nothing left to reconnect for
+                        Err(_) if self.is_at_end()? => None,
+                        Err(_) => {
+                            self.handle_reconnect(stream).await?;
+                            continue;
+                        }
                     };
                     if self
                         .handle_bytes(stream, bytes, download_start)
@@ -324,6 +329,13 @@ where
         self.position_reached.notify_position_reached();
     }
 
+    fn is_at_end(&mut self) -> io::Result<bool> {
+        let position = self.writer.stream_position()?;
+        Ok(self
+            .content_length
+            .is_some_and(|content_length| position >= content_length))
+    }
+
     async fn handle_reconnect(&mut self, stream: &mut S) -> io::Result<()> {
         warn!("timed out reading next chunk, retrying");
         let pos = self.writer.stream_position()?;
diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 17615f4..599ce33 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -190,13 +190,7 @@ where
         let start = shared_info.mapped_read_position(0);
         // is_empty check above prevents subtraction with overflow here
         let end = shared_info.mapped_read_position(available_buf_size - 1) + 1;
-        trace!(
-            start,
-            end,
-            size,
-            buf_len = buf.len(),
-            "bounded read"
-        );
+        trace!(start, end, size, buf_len = buf.len(), "bounded read");
 
         self.inner
             .seek(SeekFrom::Start(start as u64))
@@ -286,12 +280,7 @@ where
         let start = shared_info.mapped_write_position(0);
         // is_empty check above prevents subtraction with overflow here
         let end = shared_info.mapped_write_position(buf.len() - 1) + 1;
-        trace!(
-            start,
-            end,
-            buf_len = buf.len(),
-            "bounded write"
-        );
+        trace!(start, end, buf_len = buf.len(), "bounded write");
 
         self.inner
             .seek(SeekFrom::Start(start as u64))
diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index b6b5d15..6d6f27f 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -124,9 +124,7 @@ impl StorageProvider for TempStorageProvider {
         .wrap_err("error creating temp file")?;
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
-        let reader = TempStorageReader {
-            reader: tempfile,
-        };
+        let reader = TempStorageReader { reader: tempfile };
         let writer = handle
             .try_clone()
             .wrap_err("error cloning temporary file")?;
-- 
2.43.0


From cdd011713a5cd33c9244d2f4e978bd00441696e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 20/32] fix: bounded storage dropped unread content when a
 truncated download was continued

---
 crates/stream-download/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 44f030d..d7f1bbc 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -574,7 +574,7 @@ where
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
-        if self.sequential {
+        if self.sequential && start != self.writer.stream_position()? {
             self.downloaded.clear();
         }
         self.writer.seek(SeekFrom::Start(start))?;
-- 
2.43.0


From 2a84b228132a3930081c8ac5a45971e2bcc3ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 21/32] fix: bounded content was discarded after a seek to it
 returned

---
 crates/stream-download/src/source/handle.rs | 28 ++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index f47a790..909981d 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -72,7 +72,7 @@ impl SourceHandle {
         }
         loop {
             self.request_position(seek_position);
-            if self.downloaded.get(seek_position).is_some() {
+            if !self.is_moving() && self.downloaded.get(seek_position).is_some() {
                 break;
             }
             if self.seek_tx.borrow().is_none() {
@@ -101,15 +101,19 @@ impl SourceHandle {
             // The request has to be visible before checking what's missing, otherwise the download
             // could make progress in between without notifying us.
             self.request_position(requested_position);
-            let Some(missing) = missing() else {
-                break;
-            };
-            if self.supports_seek && self.next_position.get() != missing {
+            let moving = self.is_moving();
+            match missing() {
+                None if !moving => {
+                    break;
+                }
                 // This isn't where the download is going to continue
-                self.request_seek(Some(SeekRequest {
-                    position: missing,
-                    force: false,
-                }));
+                Some(missing) if self.supports_seek && self.next_position.get() != missing => {
+                    self.request_seek(Some(SeekRequest {
+                        position: missing,
+                        force: false,
+                    }));
+                }
+                _ => {}
             }
             if self.wait(requested_position) {
                 break;
@@ -125,6 +129,12 @@ impl SourceHandle {
         self.position_reached.wait_for_position_reached()
     }
 
+    /// Returns whether the content that is downloaded right now may be discarded. Storage that is
+    /// written sequentially only keeps what's downloaded after moving to the requested position.
+    fn is_moving(&self) -> bool {
+        self.sequential && self.seek_tx.borrow().is_some()
+    }
+
     fn finish_request(&self) {
         self.requested_position.clear();
         self.request_seek(None);
-- 
2.43.0


From eb366f99adf7c04ba4ea5d803cf86347018f75a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 22/32] fix: http content was corrupted if a range was ignored
 for content of unknown length

---
 crates/stream-download/src/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 2923f9c..65eefb3 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -300,7 +300,8 @@ impl<C: Client> HttpStream<C> {
         }
         match (response.content_length(), self.content_length) {
             (Some(response_length), Some(content_length)) => response_length == content_length,
-            _ => !self.supports_range_request(),
+            // A response to a range request is required to mention the range
+            _ => true,
         }
     }
 }
-- 
2.43.0


From 4ae64c5414e767839bdd5fcdb6ede1d36b2ff91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 23/32] sim: simulated child processes behind cfg
 stream_download_sim

---
 .../src/process/command_builder.rs            |   2 +
 crates/stream-download/src/process/mod.rs     |   2 +
 crates/stream-download/src/sim.rs             |   5 +-
 crates/stream-download/src/sim/process.rs     | 300 ++++++++++++++++++
 4 files changed, 308 insertions(+), 1 deletion(-)
 create mode 100644 crates/stream-download/src/sim/process.rs

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index 2102b11..ab4a068 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -2,6 +2,8 @@ use std::io;
 use std::process::Stdio;
 
 use super::{Command, SpawnCommand, SpawnedCommand, WrapIoResult, stdio_to_tmp_file};
+#[cfg(stream_download_sim)]
+use crate::sim::process::shadow::std;
 
 /// A builder object that can pipe multiple commands together and automatically configure the child
 /// process' handles correctly.
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 254b61e..23a1549 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -32,6 +32,8 @@ pub use yt_dlp::*;
 
 use crate::WrapIoResult;
 use crate::async_read::AsyncReadStream;
+#[cfg(stream_download_sim)]
+use crate::sim::process::shadow::{std, tokio};
 use crate::source::{SourceStream, StreamOutcome};
 
 mod command_builder;
diff --git a/crates/stream-download/src/sim.rs b/crates/stream-download/src/sim.rs
index 5212649..df977a6 100644
--- a/crates/stream-download/src/sim.rs
+++ b/crates/stream-download/src/sim.rs
@@ -2,10 +2,13 @@
 //!
 //! This module only exists when the crate is compiled with `--cfg stream_download_sim`. It wraps
 //! the atomics used to share state between the reader and the download task so that a simulator
-//! can decide what runs before and after each access.
+//! can decide what runs before and after each access, and replaces child processes.
 
 use std::sync::OnceLock;
 
+#[cfg(feature = "process")]
+pub mod process;
+
 static SCHEDULE_POINT: OnceLock<fn()> = OnceLock::new();
 
 /// Installs the function to call at every scheduling point. Only the first call has an effect.
diff --git a/crates/stream-download/src/sim/process.rs b/crates/stream-download/src/sim/process.rs
new file mode 100644
index 0000000..c9f1994
--- /dev/null
+++ b/crates/stream-download/src/sim/process.rs
@@ -0,0 +1,300 @@
+//! Simulated child processes.
+//!
+//! [`shadow`] has the parts of `std` and `tokio` that the [`process`][crate::process] module uses.
+//! Commands spawned through them are handed to the function installed with [`install`] instead of
+//! the operating system.
+
+use std::ffi::OsString;
+use std::fmt::Debug;
+use std::fs::File;
+use std::io;
+use std::process::ExitStatus;
+use std::sync::OnceLock;
+use std::task::{Context, Poll};
+
+use ::tokio::io::AsyncRead;
+
+/// Reading end of a pipe connected to the output of a simulated process.
+pub trait Pipe: AsyncRead + Debug + Send + Sync + Unpin {
+    /// Identifies the pipe.
+    fn id(&self) -> u64;
+}
+
+/// A simulated process. Dropping it drops the handle, not the process.
+pub trait Process: Debug + Send + Sync {
+    /// Waits for the process to exit and reaps it.
+    fn poll_wait(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<ExitStatus>>;
+    /// Reaps the process if it exited.
+    fn try_wait(&mut self) -> io::Result<Option<ExitStatus>>;
+    /// Kills the process.
+    fn kill(&mut self) -> io::Result<()>;
+    /// Identifies the process, unless it was reaped.
+    fn id(&self) -> Option<u32>;
+}
+
+/// One of the standard streams of a process.
+#[derive(Debug, Default)]
+pub enum Io {
+    /// The one of the parent.
+    #[default]
+    Inherit,
+    /// Nothing.
+    Null,
+    /// A new pipe.
+    Piped,
+    /// A file.
+    File(File),
+    /// The output of another process.
+    Pipe(Box<dyn Pipe>),
+}
+
+/// Everything known about a process to be spawned.
+#[derive(Debug, Default)]
+pub struct Spec {
+    /// Program to run.
+    pub program: OsString,
+    /// Its arguments.
+    pub args: Vec<OsString>,
+    /// Standard input.
+    pub stdin: Io,
+    /// Standard output.
+    pub stdout: Io,
+    /// Standard error.
+    pub stderr: Io,
+    /// Dropping the handle kills the process.
+    pub kill_on_drop: bool,
+    /// Something else reaps the process after the handle was dropped.
+    pub reaped_on_drop: bool,
+}
+
+/// A running process.
+#[derive(Debug)]
+pub struct Spawned {
+    /// Handle of the process.
+    pub process: Box<dyn Process>,
+    /// Its standard output, if it was piped.
+    pub stdout: Option<Box<dyn Pipe>>,
+}
+
+type Spawn = fn(Spec) -> io::Result<Spawned>;
+static SPAWN: OnceLock<Spawn> = OnceLock::new();
+
+/// Installs the function that spawns processes. Only the first call has an effect.
+pub fn install(spawn: Spawn) {
+    let _ = SPAWN.set(spawn);
+}
+
+fn spawn(spec: Spec) -> io::Result<Spawned> {
+    SPAWN.get().expect("no simulator installed")(spec)
+}
+
+#[expect(missing_docs, reason = "same as the originals")]
+pub mod shadow {
+    macro_rules! command {
+        ($reaped_on_drop:expr) => {
+            #[derive(Debug)]
+            pub struct Command(crate::sim::process::Spec);
+
+            impl Command {
+                pub fn new<S: AsRef<std::ffi::OsStr>>(program: S) -> Self {
+                    Self(crate::sim::process::Spec {
+                        program: program.as_ref().to_owned(),
+                        reaped_on_drop: $reaped_on_drop,
+                        ..Default::default()
+                    })
+                }
+
+                pub fn arg<S: AsRef<std::ffi::OsStr>>(&mut self, arg: S) -> &mut Self {
+                    self.0.args.push(arg.as_ref().to_owned());
+                    self
+                }
+
+                pub fn args<I, S>(&mut self, args: I) -> &mut Self
+                where
+                    I: IntoIterator<Item = S>,
+                    S: AsRef<std::ffi::OsStr>,
+                {
+                    for arg in args {
+                        self.arg(arg);
+                    }
+                    self
+                }
+
+                pub fn stdin<T: Into<Stdio>>(&mut self, io: T) -> &mut Self {
+                    self.0.stdin = io.into().0;
+                    self
+                }
+
+                pub fn stdout<T: Into<Stdio>>(&mut self, io: T) -> &mut Self {
+                    self.0.stdout = io.into().0;
+                    self
+                }
+
+                pub fn stderr<T: Into<Stdio>>(&mut self, io: T) -> &mut Self {
+                    self.0.stderr = io.into().0;
+                    self
+                }
+
+                pub fn spawn(&mut self) -> std::io::Result<Child> {
+                    // a command with its handles moved out can only be spawned once
+                    let spec = std::mem::take(&mut self.0);
+                    let spawned = crate::sim::process::spawn(spec)?;
+                    Ok(Child {
+                        stdin: None,
+                        stdout: spawned.stdout.map(ChildStdout),
+                        stderr: None,
+                        process: spawned.process,
+                    })
+                }
+            }
+
+            #[derive(Debug)]
+            pub struct Child {
+                pub stdin: Option<()>,
+                pub stdout: Option<ChildStdout>,
+                pub stderr: Option<()>,
+                process: Box<dyn crate::sim::process::Process>,
+            }
+
+            #[derive(Debug)]
+            pub struct ChildStdout(Box<dyn crate::sim::process::Pipe>);
+        };
+    }
+
+    pub mod std {
+        pub use ::std::*;
+
+        pub mod process {
+            pub use ::std::process::*;
+            use ::std::{self, fs, io, task};
+
+            use crate::sim::process::Io;
+
+            #[derive(Debug)]
+            pub struct Stdio(pub(crate) Io);
+
+            impl Stdio {
+                pub fn piped() -> Self {
+                    Self(Io::Piped)
+                }
+
+                pub fn null() -> Self {
+                    Self(Io::Null)
+                }
+
+                pub fn inherit() -> Self {
+                    Self(Io::Inherit)
+                }
+            }
+
+            impl From<fs::File> for Stdio {
+                fn from(file: fs::File) -> Self {
+                    Self(Io::File(file))
+                }
+            }
+
+            impl From<ChildStdout> for Stdio {
+                fn from(out: ChildStdout) -> Self {
+                    Self(Io::Pipe(out.0))
+                }
+            }
+
+            command!(false);
+
+            impl Child {
+                pub fn id(&self) -> u32 {
+                    self.process.id().unwrap_or_default()
+                }
+
+                pub fn kill(&mut self) -> io::Result<()> {
+                    self.process.kill()
+                }
+
+                pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
+                    self.process.try_wait()
+                }
+
+                /// The simulator has to make sure that this does not block.
+                pub fn wait(&mut self) -> io::Result<ExitStatus> {
+                    let waker = task::Waker::noop();
+                    match self
+                        .process
+                        .poll_wait(&mut task::Context::from_waker(waker))
+                    {
+                        task::Poll::Ready(res) => res,
+                        task::Poll::Pending => {
+                            Err(io::Error::other("blocking wait for a simulated process"))
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    pub mod tokio {
+        pub use ::tokio::*;
+
+        pub mod process {
+            use ::std::future::poll_fn;
+            use ::std::pin::Pin;
+            use ::std::process::ExitStatus;
+            use ::std::task::{Context, Poll};
+            use ::std::{self, io};
+            use ::tokio::io::{AsyncRead, ReadBuf};
+
+            use crate::sim::process::Io;
+            use crate::sim::process::shadow::std::process::Stdio;
+
+            command!(true);
+
+            impl Command {
+                pub fn kill_on_drop(&mut self, kill_on_drop: bool) -> &mut Self {
+                    self.0.kill_on_drop = kill_on_drop;
+                    self
+                }
+            }
+
+            impl Child {
+                pub fn id(&self) -> Option<u32> {
+                    self.process.id()
+                }
+
+                pub fn start_kill(&mut self) -> io::Result<()> {
+                    self.process.kill()
+                }
+
+                pub async fn kill(&mut self) -> io::Result<()> {
+                    self.start_kill()?;
+                    self.wait().await?;
+                    Ok(())
+                }
+
+                pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
+                    self.process.try_wait()
+                }
+
+                pub async fn wait(&mut self) -> io::Result<ExitStatus> {
+                    poll_fn(|cx| self.process.poll_wait(cx)).await
+                }
+            }
+
+            impl AsyncRead for ChildStdout {
+                fn poll_read(
+                    mut self: Pin<&mut Self>,
+                    cx: &mut Context<'_>,
+                    buf: &mut ReadBuf<'_>,
+                ) -> Poll<io::Result<()>> {
+                    Pin::new(&mut self.0).poll_read(cx, buf)
+                }
+            }
+
+            impl TryFrom<ChildStdout> for Stdio {
+                type Error = io::Error;
+
+                fn try_from(out: ChildStdout) -> io::Result<Self> {
+                    Ok(Self(Io::Pipe(out.0)))
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From e33e92adad4e199f61bc6a13c408e25c7d6cd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 24/32] fix: commands of a pipeline were never reaped and kept
 running after a cancellation

---
 .../src/process/command_builder.rs            | 28 ++++++++++---------
 crates/stream-download/src/process/mod.rs     | 20 +++++++++++--
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index ab4a068..7470d85 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -3,7 +3,7 @@ use std::process::Stdio;
 
 use super::{Command, SpawnCommand, SpawnedCommand, WrapIoResult, stdio_to_tmp_file};
 #[cfg(stream_download_sim)]
-use crate::sim::process::shadow::std;
+use crate::sim::process::shadow::{std, tokio};
 
 /// A builder object that can pipe multiple commands together and automatically configure the child
 /// process' handles correctly.
@@ -38,35 +38,37 @@ impl CommandBuilder {
 impl SpawnCommand for CommandBuilder {
     fn spawn(mut self) -> io::Result<SpawnedCommand> {
         let last = self.commands.pop().expect("prevented by constructor");
-        let mut prev_stdout = None;
+        let mut prev_stdout: Option<Stdio> = None;
+        let mut upstream = Vec::new();
         let mut stderr_files = Vec::new();
 
         for command in self.commands {
-            let mut std_command = std::process::Command::new(command.program);
-            std_command
+            let mut tokio_command = tokio::process::Command::new(command.program);
+            tokio_command
                 .args(command.args.clone())
-                .stdout(Stdio::piped());
+                .stdout(Stdio::piped())
+                .kill_on_drop(true);
             if let Some(handle) = command.stderr_handle {
-                std_command.stderr(handle);
+                tokio_command.stderr(handle);
             } else {
                 let (stdio, stderr_file) = stdio_to_tmp_file()?;
-                std_command.stderr(stdio);
+                tokio_command.stderr(stdio);
                 stderr_files.push(stderr_file);
             }
 
             #[cfg(target_os = "windows")]
             {
                 // CREATE_NO_WINDOW
-                use std::os::windows::process::CommandExt;
-                std_command.creation_flags(0x08000000);
+                tokio_command.creation_flags(0x08000000);
             }
 
             if let Some(prev_stdout) = prev_stdout.take() {
-                std_command.stdin(prev_stdout);
+                tokio_command.stdin(prev_stdout);
             }
-            let mut command_out = std_command.spawn().wrap_err("error spawning process")?;
-            prev_stdout = command_out.stdout.take();
+            let mut child = tokio_command.spawn().wrap_err("error spawning process")?;
+            prev_stdout = child.stdout.take().map(TryInto::try_into).transpose()?;
+            upstream.push(child);
         }
-        SpawnedCommand::new(last, prev_stdout, stderr_files)
+        SpawnedCommand::new(last, prev_stdout, upstream, stderr_files)
     }
 }
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 23a1549..3693ac1 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -19,7 +19,7 @@ use std::ffi::OsString;
 use std::io::{self, Read, Write};
 use std::mem;
 use std::pin::Pin;
-use std::process::{ChildStdout, Stdio};
+use std::process::Stdio;
 use std::task::Poll;
 
 use bytes::Bytes;
@@ -116,7 +116,7 @@ impl Command {
 
 impl SpawnCommand for Command {
     fn spawn(self) -> io::Result<SpawnedCommand> {
-        SpawnedCommand::new(self, None, Vec::new())
+        SpawnedCommand::new(self, None, Vec::new(), Vec::new())
     }
 }
 
@@ -124,13 +124,16 @@ impl SpawnCommand for Command {
 #[derive(Debug)]
 pub struct SpawnedCommand {
     child_handle: tokio::process::Child,
+    // Commands that are piped into this one
+    upstream: Vec<tokio::process::Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
 impl SpawnedCommand {
     fn new(
         command: Command,
-        prev_out: Option<ChildStdout>,
+        prev_out: Option<Stdio>,
+        upstream: Vec<tokio::process::Child>,
         mut stderr_files: Vec<NamedTempFile>,
     ) -> Result<Self, io::Error> {
         let mut tokio_command = tokio::process::Command::new(command.program);
@@ -157,6 +160,7 @@ impl SpawnedCommand {
 
         Ok(Self {
             child_handle: tokio_command.spawn().wrap_err("error spawning process")?,
+            upstream,
             stderr_files,
         })
     }
@@ -211,6 +215,7 @@ impl ProcessStreamParams {
 pub struct ProcessStream {
     stream: AsyncReadStream<tokio::process::ChildStdout>,
     child_handle: tokio::process::Child,
+    upstream: Vec<tokio::process::Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
@@ -260,6 +265,7 @@ impl SourceStream for ProcessStream {
                 content_length,
             ),
             child_handle: command.child_handle,
+            upstream: command.upstream,
             stderr_files: command.stderr_files,
         })
     }
@@ -291,10 +297,18 @@ impl SourceStream for ProcessStream {
             if command_failed {
                 warn!("command exited with error code: {wait_res:?}");
             }
+            // The other commands may still have some cleanup to do, but they need to be reaped
+            // after that
+            for mut child in mem::take(&mut self.upstream) {
+                tokio::spawn(async move { child.wait().await });
+            }
             command_failed
         } else {
             debug!("killing child process");
             self.child_handle.kill().await?;
+            for child in &mut self.upstream {
+                child.kill().await?;
+            }
             debug!("child process killed");
             // Don't need to check process for errors if the user explicitly cancelled the stream
             outcome == StreamOutcome::Completed
-- 
2.43.0


From d038491b55693dda8561de45736396dd9c27727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 25/32] fix: error output of a child process was not reported
 if it was not UTF-8

---
 crates/stream-download/src/process/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 3693ac1..6516bb1 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -231,10 +231,11 @@ impl ProcessStream {
                 .reopen()
                 .inspect_err(|e| error!("error opening file: {e:?}"))
             {
-                let mut buf = String::new();
+                let mut buf = Vec::new();
                 let _ = file_handle
-                    .read_to_string(&mut buf)
+                    .read_to_end(&mut buf)
                     .inspect_err(|e| error!("error reading file: {e:?}"));
+                let buf = String::from_utf8_lossy(&buf);
                 warn!("stderr from child process: {buf}");
             }
         }
-- 
2.43.0


From f3fe64b4a71c05fece18a388d5f7c454a2aa4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 26/32] fix: end the opendal stream after an error

When the connection is closed early, opendal repeats the same error on
every poll. The download task then span forever without ever yielding.
The missing part is requested again once the stream has ended.
---
 crates/stream-download-opendal/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download-opendal/src/lib.rs b/crates/stream-download-opendal/src/lib.rs
index ba21def..fb6cdc8 100644
--- a/crates/stream-download-opendal/src/lib.rs
+++ b/crates/stream-download-opendal/src/lib.rs
@@ -120,6 +120,7 @@ pin_project! {
         reader: Reader,
         buf: BytesMut,
         capacity: usize,
+        failed: bool,
         content_length: Option<u64>,
         content_type: Option<String>,
     }
@@ -133,6 +134,7 @@ impl Debug for OpendalStream {
             .field("reader", &"<reader>")
             .field("buf", &self.buf)
             .field("capacity", &self.capacity)
+            .field("failed", &self.failed)
             .field("content_length", &self.content_length)
             .field("content_type", &self.content_type)
             .finish()
@@ -164,6 +166,7 @@ impl OpendalStream {
             reader,
             buf: BytesMut::with_capacity(params.chunk_size),
             capacity: params.chunk_size,
+            failed: false,
             content_length: if content_length > 0 {
                 Some(content_length)
             } else {
@@ -203,6 +206,7 @@ impl SourceStream for OpendalStream {
             .map_err(Into::into)
             .wrap_err("error creating async reader")?
             .compat();
+        self.failed = false;
         Ok(())
     }
 
@@ -224,12 +228,21 @@ impl Stream for OpendalStream {
     ) -> std::task::Poll<Option<Self::Item>> {
         let mut this = self.as_mut().project();
 
+        // The reader can't recover from an error. If the connection was closed early, it'd repeat
+        // the error forever. The missing part will be requested once the stream has ended.
+        if *this.failed {
+            return Poll::Ready(None);
+        }
+
         if this.buf.capacity() == 0 {
             this.buf.reserve(*this.capacity);
         }
 
         match ready!(poll_read_buf(this.async_reader, cx, &mut this.buf)) {
-            Err(err) => Poll::Ready(Some(Err(err))),
+            Err(err) => {
+                *this.failed = true;
+                Poll::Ready(Some(Err(err)))
+            }
             Ok(0) => Poll::Ready(None),
             Ok(_) => {
                 let chunk = this.buf.split();
-- 
2.43.0


From 443e56520ff5d3d943884c390104072e8b57223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 27/32] fix: reading close to the largest possible position
 overflowed

---
 crates/stream-download/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index ba246ea..e025c88 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -592,7 +592,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         trace!(buffer_length = buf.len(), "read requested");
         let stream_position = self.output_reader.stream_position()?;
         let requested_position =
-            self.normalize_requested_position(stream_position + buf.len() as u64);
+            self.normalize_requested_position(stream_position.saturating_add(buf.len() as u64));
         trace!(
             current_position = stream_position,
             requested_position = requested_position
-- 
2.43.0


From e5c17413eed178fb43f47df5c95024bbadda58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 28/32] fix: an interrupted write to the storage failed the
 download

---
 crates/stream-download/src/source/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index d7f1bbc..9619aa5 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -456,7 +456,10 @@ where
         let mut written = 0;
         loop {
             let write_size = self.batch_write_size.min(bytes[written..].len());
-            let batch_written = self.writer.write(&bytes[written..written + write_size])?;
+            let batch_written = match self.writer.write(&bytes[written..written + write_size]) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                res => res?,
+            };
             if batch_written == 0 {
                 return Ok(written);
             }
-- 
2.43.0


From 3e436e8f86f22b78ab26de0a0692a8b11aa183d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 29/32] fix: storage accepted seeks to negative positions

---
 crates/stream-download/src/storage/bounded.rs |  7 +++++--
 crates/stream-download/src/storage/memory.rs  | 17 ++++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 599ce33..99aaedc 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -29,7 +29,7 @@ use parking_lot::Mutex;
 use tracing::{debug, instrument, trace, warn};
 
 use super::{StorageProvider, StorageReader, StorageWriter};
-use crate::WrapIoResult;
+use crate::{WrapIoResult, invalid_seek_position};
 
 /// Creates a [`BoundedStorageReader`] with a fixed size.
 #[derive(Clone, Debug)]
@@ -239,7 +239,10 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => (current_position as u64)
+            .checked_add_signed(from_current)
+            .map(|position| position as usize)
+            .ok_or_else(invalid_seek_position),
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 73cc23e..8c3b5fe 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -11,9 +11,9 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use parking_lot::RwLock;
 
 use super::StorageProvider;
-use crate::WrapIoResult;
 #[cfg(stream_download_sim)]
 use crate::sim::atomic::{AtomicUsize, Ordering};
+use crate::{WrapIoResult, invalid_seek_position};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
@@ -80,13 +80,16 @@ impl Seek for MemoryStorage {
     fn seek(&mut self, position: SeekFrom) -> io::Result<u64> {
         let len = self.inner.read().len();
         let new_position = match position {
-            SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
-        };
+            SeekFrom::Start(position) => Some(position),
+            SeekFrom::Current(from_current) => {
+                (self.position as u64).checked_add_signed(from_current)
+            }
+            SeekFrom::End(from_end) => (len as u64).checked_add_signed(from_end),
+        }
+        .ok_or_else(invalid_seek_position)?;
 
-        self.position = new_position;
-        Ok(new_position as u64)
+        self.position = new_position as usize;
+        Ok(new_position)
     }
 }
 
-- 
2.43.0


From 045706c587d11e731e46ca142bdf296882649162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 30/32] fix: a large prefetch target overflowed after a seek

---
 crates/stream-download/src/source/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 9619aa5..4da8d2c 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -384,7 +384,8 @@ where
                 "failed to write all during prefetch"
             );
         }
-        if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
+        if (stream_position >= start_position.saturating_add(self.prefetch_bytes)) || partial_write
+        {
             debug!("prefetch complete");
             self.finish_prefetch()?;
         }
-- 
2.43.0


From adef13b1089fa9ffbb178901747ccbf751fd32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 31/32] fix: announcing a huge content length panicked or
 aborted the process with memory storage

---
 crates/stream-download/src/storage/memory.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 8c3b5fe..39d9c99 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -2,6 +2,7 @@
 //! known, the buffer size will be initialized to the content length, but the buffer will expand
 //! beyond that if required.
 
+use std::hint::black_box;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
@@ -35,6 +36,18 @@ impl StorageProvider for MemoryStorageProvider {
                 "Requested buffer size of {initial_buffer_size} exceeds the maximum value"
             ))?;
 
+        // The content length may be arbitrary and allocating more than what's available would abort
+        // the process, so this is attempted first. black_box prevents the allocation from being
+        // optimized out.
+        let mut available = Vec::<u8>::new();
+        available
+            .try_reserve_exact(initial_buffer_size)
+            .map_err(io::Error::from)
+            .wrap_err(&format!(
+                "Requested buffer size of {initial_buffer_size} can't be allocated"
+            ))?;
+        drop(black_box(available));
+
         let inner = Arc::new(AssertUnwindSafe(RwLock::new(vec![0; initial_buffer_size])));
         let written = Arc::new(AtomicUsize::new(0));
         let reader = MemoryStorage {
-- 
2.43.0


From 13d1bc4a56016baffb226239864bf490b1968b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:08 +0000
Subject: [PATCH 32/32] Simulation hook: every atomic type and operation can be
 used

---
 crates/stream-download/src/sim.rs            | 12 +++++++++++-
 crates/stream-download/src/source/handle.rs  |  2 +-
 crates/stream-download/src/storage/memory.rs |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/sim.rs b/crates/stream-download/src/sim.rs
index df977a6..6f5f120 100644
--- a/crates/stream-download/src/sim.rs
+++ b/crates/stream-download/src/sim.rs
@@ -24,8 +24,9 @@ fn point() {
 
 /// Drop-in replacements for the types in [`std::sync::atomic`].
 pub mod atomic {
+    use std::ops::Deref;
     use std::sync::atomic as real;
-    pub use std::sync::atomic::Ordering;
+    pub use std::sync::atomic::*;
 
     use super::point;
 
@@ -35,6 +36,15 @@ pub mod atomic {
             #[derive(Debug, Default)]
             pub struct $name(real::$name);
 
+            /// Everything else is available too, but isn't a scheduling point.
+            impl Deref for $name {
+                type Target = real::$name;
+
+                fn deref(&self) -> &Self::Target {
+                    &self.0
+                }
+            }
+
             #[expect(missing_docs, reason = "same as std")]
             impl $name {
                 pub const fn new(val: $ty) -> Self {
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 909981d..ff14fb9 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -12,7 +12,7 @@ use tokio::sync::{Notify, watch};
 use tracing::{debug, warn};
 
 #[cfg(stream_download_sim)]
-use crate::sim::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
+use crate::sim::atomic::*;
 
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 39d9c99..18a12a5 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -13,7 +13,7 @@ use parking_lot::RwLock;
 
 use super::StorageProvider;
 #[cfg(stream_download_sim)]
-use crate::sim::atomic::{AtomicUsize, Ordering};
+use crate::sim::atomic::*;
 use crate::{WrapIoResult, invalid_seek_position};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
-- 
2.43.0

