From 6e308976755140139d32948bd287a76907804b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 01/11] fix: opening a profile for writing always failed

open_from_file* truncated the file and then tried to read a header from the
write-only handle, so AccessMode::Write could never succeed. Return the new
profile once the file has been created, as lcms2 does.
---
 src/types/profile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..866ffaa 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -102,6 +102,9 @@ impl Profile {
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
+
+            // A profile being written has no header to read yet
+            return Ok(profile);
         };
 
         profile.read_header_thr(context)?;
-- 
2.43.0


From 6aeeeed93af62fd85177749915a464296e5d3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 02/11] fix: tag extent overflow panicked instead of dropping
 the entry

offset + size was computed in u32 before being tested for wrap-around, which
panics in builds with overflow checks on a directory entry such as
offset 0xFFFFFFFF, size 0xFFFFFFFF.
---
 src/types/profile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 866ffaa..e4f343e 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -182,8 +182,9 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
-                continue;
+            match tag.offset.checked_add(tag.size) {
+                Some(end) if end <= header_size as u32 => (),
+                _ => continue,
             }
 
             self.tag_names[self.tag_count] = tag.sig;
-- 
2.43.0


From 9cd14e949910fb92307b21e6b90e5fbf592372a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 03/11] fix: invalid creation date in a profile panicked

A header date that is not a calendar date (month 0 or 13, for example) made
the open panic; through open_from_file it also poisoned the global context,
so every later open_from_file in the process panicked too. Report it as
corrupt data instead.
---
 src/types/date_time_number.rs |  8 ++++++++
 src/types/profile.rs          | 11 ++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..b3549e0 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -12,6 +12,14 @@ pub struct DateTimeNumber {
     pub seconds: u16,
 }
 
+impl DateTimeNumber {
+    /// Converts to a date and time, or `None` if there is no such date or time of day.
+    pub(crate) fn to_naive_opt(self) -> Option<chrono::NaiveDateTime> {
+        chrono::NaiveDate::from_ymd_opt(self.year as i32, self.month as u32, self.day as u32)?
+            .and_hms_opt(self.hours as u32, self.minutes as u32, self.seconds as u32)
+    }
+}
+
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
         chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
diff --git a/src/types/profile.rs b/src/types/profile.rs
index e4f343e..740dab3 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -163,7 +163,16 @@ impl Profile {
         };
 
         // Get creation date/time
-        self.created = header.date.into();
+        self.created = match header.date.to_naive_opt() {
+            Some(date) => date,
+            None => {
+                context.signal_error(
+                    ErrorCode::CorruptionDetected,
+                    "invalid creation date".to_string(),
+                );
+                return err;
+            }
+        };
 
         // The profile ID are 32 raw bytes
         self.profile_id = header.profile_id;
-- 
2.43.0


From 1f2663cf36840746fd63eeaa0cc3cc522877f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 04/11] fix: reading s15Fixed16 -32768.0 panicked

abs() of i32::MIN overflows, which panics in builds with overflow checks.
---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From d94907e577de636cbf4bdb6a6a4913b39b3b553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 05/11] fix: FileNull backward seeks panicked and reads left
 the buffer as it was

Seeking by a negative offset cast it to usize and overflowed, which panics in
builds with overflow checks; seeking before the start was not refused as it is
by the other streams. Reads are documented to yield zeros but did not touch
the caller's buffer.
---
 src/io/file_null.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..8251a11 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{Error, ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -44,6 +44,12 @@ impl FileNull {
     pub const fn new() -> FileNull {
         FileNull { pointer: 0, used_space: 0 }
     }
+
+    fn advanced(&self, len: usize) -> Result<usize> {
+        self.pointer
+            .checked_add(len)
+            .ok_or_else(|| Error::from(ErrorKind::InvalidInput))
+    }
 }
 
 impl Default for FileNull {
@@ -54,24 +60,20 @@ impl Default for FileNull {
 
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.pointer = self.advanced(buf.len())?;
+        buf.fill(0);
 
         Ok(())
     }
 
     fn seek(&mut self, pos: SeekFrom) -> Result<()> {
-        match pos {
-            SeekFrom::Start(value) => {
-                self.pointer = value as usize;
-            },
-            SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
-            },
-            SeekFrom::Current(value) => {
-                self.pointer += value as usize;
-            }
-        }
+        let target = match pos {
+            SeekFrom::Start(value) => value as i128,
+            SeekFrom::End(value) => self.used_space as i128 + value as i128,
+            SeekFrom::Current(value) => self.pointer as i128 + value as i128,
+        };
+        self.pointer = usize::try_from(target).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
+
         Ok(())
     }
 
@@ -84,8 +86,7 @@ impl IOHandler for FileNull {
     }
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.pointer = self.advanced(buf.len())?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
-- 
2.43.0


From 7244728e5df991c929c3effc06a4f88ff311fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 06/11] fix: get_tag_signature(tag_count) panicked on a full
 tag directory

The index one past the last tag was let through, which is out of bounds for
a profile with the maximum of 100 tags.
---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 740dab3..8ecc068 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -48,7 +48,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From e4dda8f95fd3614ed2579fd80c1880a00685c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 07/11] fix: shared tag data linked the earlier tag to itself

When two directory entries share the same data, lcms2 links the later one to
the earlier. The earlier one was linked to its own name instead, leaving the
later unlinked and making link resolution loop forever.
---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 8ecc068..13cc977 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -205,7 +205,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From b2b8b946e17954e1487599b3dab55147168ffda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 08/11] fix: init_plugin never checked the last plugin of a
 chain

The loop ran only while a further plugin followed, so a single plugin, or the
last of several, was accepted whatever its magic number, version or type.
---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..2679866 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -66,8 +66,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -105,7 +105,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From d6e48b7fcec82770e96264d837aa84bbb9d71b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 09/11] hooks: error-handler seam for simulation, behind --cfg
 lcms2_dst

---
 src/dst_hooks.rs | 21 +++++++++++++++++++++
 src/lib.rs       |  5 +++++
 2 files changed, 26 insertions(+)
 create mode 100644 src/dst_hooks.rs

diff --git a/src/dst_hooks.rs b/src/dst_hooks.rs
new file mode 100644
index 0000000..fbbba41
--- /dev/null
+++ b/src/dst_hooks.rs
@@ -0,0 +1,21 @@
+//! Seams for deterministic simulation, compiled only with `--cfg lcms2_dst`.
+//!
+//! Error handlers have no public setter yet, so the simulator installs its recording handlers through these.
+
+use crate::state::{chunks::error_handler::LogErrorHandlerFunction, Context, GLOBAL_CONTEXT};
+
+/// Installs an error handler on `context`.
+pub fn set_error_handler(context: &mut Context, handler: LogErrorHandlerFunction) {
+    context.error_handler.handler = handler;
+}
+
+/// Installs an error handler on the global context. Returns `false` if the global context is poisoned.
+pub fn set_global_error_handler(handler: LogErrorHandlerFunction) -> bool {
+    match GLOBAL_CONTEXT.lock() {
+        Ok(mut context) => {
+            context.error_handler.handler = handler;
+            true
+        }
+        Err(_) => false,
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 48ed8fd..b7e0593 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,6 +47,11 @@ pub mod plugins;
 pub mod state;
 pub mod types;
 
+#[allow(unexpected_cfgs)]
+#[cfg(lcms2_dst)]
+#[doc(hidden)]
+pub mod dst_hooks;
+
 /// The version/release of lcms2 implemented. (2.13.1)
 pub const LCMS_VERSION: u32 = 2131;
 const MATRIX_DET_TOLERANCE: f64 = 0.0001;
-- 
2.43.0


From c55b44d46d30ab5b4c87fcfa98ed256102a0b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 10/11] fix: an empty write past the end grew a memory stream

---
 src/io/file_mem.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/file_mem.rs b/src/io/file_mem.rs
index 0a8d23e..d7556eb 100644
--- a/src/io/file_mem.rs
+++ b/src/io/file_mem.rs
@@ -92,6 +92,11 @@ where
     }
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
+        // Writing nothing past the end must not grow the buffer, as it does not grow a file.
+        if buf.is_empty() {
+            return Ok(());
+        }
+
         self.cursor.write_all(buf)
     }
 }
-- 
2.43.0


From b773aafafbb04552b3169aaac1d9617ebf76a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 11/11] fix: an empty write past the end grew the null stream

---
 src/io/file_null.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 8251a11..b2b324b 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -88,7 +88,8 @@ impl IOHandler for FileNull {
     fn write(&mut self, buf: &[u8]) -> Result<()> {
         self.pointer = self.advanced(buf.len())?;
 
-        if self.pointer > self.used_space {
+        // Writing nothing past the end does not grow a file.
+        if !buf.is_empty() && self.pointer > self.used_space {
             self.used_space = self.pointer
         }
 
-- 
2.43.0

