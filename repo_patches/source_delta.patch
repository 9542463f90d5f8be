From 870b1f4ca64517f21d7efb1d5b4fbd4a3ea81d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 01/16] fix: return the default signature for an index equal to
 the tag count

With a full directory (100 tags) index 100 was out of bounds and panicked.
---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..555b715 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -48,7 +48,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From cc201c64153561387633ab91ab3e63930cf6b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 02/16] fix: do not overflow when checking the bounds of a tag

A crafted offset/size pair made the addition panic when overflow checks are on.
---
 src/types/profile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 555b715..c3fa2a0 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -179,7 +179,8 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
+            let end = tag.offset.checked_add(tag.size);
+            if end.map_or(true, |end| end > header_size as u32) {
                 continue;
             }
 
-- 
2.43.0


From 0af8bbd44ff95466cf3c9b2ff26ffd3108714ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 03/16] fix: link a duplicated tag to the earlier entry instead
 of to itself

The earlier entry was linked to its own name, so a lookup that follows links
never ended, and the new entry was not linked at all.
---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index c3fa2a0..895c312 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -193,7 +193,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From e5639a8edde1a02a0c19e51ffaa5d5e8f358facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 04/16] fix: do not read the header of a profile that was just
 created for writing

Opening in write mode always failed, as the new file is empty and write only.
---
 src/types/profile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 895c312..b482c9b 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -102,6 +102,9 @@ impl Profile {
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
+
+            // A freshly created file has no header to read yet
+            return Ok(profile);
         };
 
         profile.read_header_thr(context)?;
-- 
2.43.0


From 1acf7da8c96c84a08ff7292af0f55f35d01aaf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 05/16] fix: do not panic on a date and time that does not
 exist

Any profile with, say, an all zero creation date made opening it panic.
---
 src/types/date_time_number.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..8146914 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -14,11 +14,10 @@ pub struct DateTimeNumber {
 
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
-        chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
-            d.hours as u32,
-            d.minutes as u32,
-            d.seconds as u32,
-        )
+        // Profiles in the wild carry dates that do not exist (all zeros, for one)
+        chrono::NaiveDate::from_ymd_opt(d.year as i32, d.month as u32, d.day as u32)
+            .and_then(|date| date.and_hms_opt(d.hours as u32, d.minutes as u32, d.seconds as u32))
+            .unwrap_or_else(|| chrono::NaiveDateTime::from_timestamp(0, 0))
     }
 }
 impl From<chrono::NaiveDateTime> for DateTimeNumber {
-- 
2.43.0


From 3a8eae5f9ec99aa8f92af6db45ba69c36e7b3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 06/16] fix: keep year 0 when converting to a DateTimeNumber

The year of the BCE/CE era is 1 for year 0, so it did not survive a round trip.
---
 src/types/date_time_number.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 8146914..e9672cb 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -24,9 +24,8 @@ impl From<chrono::NaiveDateTime> for DateTimeNumber {
     fn from(d: chrono::NaiveDateTime) -> Self {
         let time = d.time();
 
-        let (_, year) = d.year_ce();
         Self {
-            year: year as u16,
+            year: d.year() as u16,
             month: d.month() as u16,
             day: d.day() as u16,
             hours: time.hour() as u16,
-- 
2.43.0


From 56a8f8500aae79ed1518937af78141a5fc31a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 07/16] fix: report unrepresentable positions of a FileNull as
 errors

Seeking backwards, or past the end of the address space, overflowed and panicked
(or wrapped) instead of failing as the other devices do.
---
 src/io/file_null.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..c0c4ccd 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{Error, ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -52,10 +52,15 @@ impl Default for FileNull {
     }
 }
 
+/// Unwraps a computed position, failing the same way [`Cursor`](std::io::Cursor) does if it can't be represented.
+fn checked_position(position: Option<usize>) -> Result<usize> {
+    position.ok_or_else(|| Error::from(ErrorKind::InvalidInput))
+}
+
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         let len = buf.len();
-        self.pointer += len;
+        self.pointer = checked_position(self.pointer.checked_add(len))?;
 
         Ok(())
     }
@@ -66,10 +71,10 @@ impl IOHandler for FileNull {
                 self.pointer = value as usize;
             },
             SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
+                self.pointer = checked_position(self.used_space.checked_add_signed(value as isize))?;
             },
             SeekFrom::Current(value) => {
-                self.pointer += value as usize;
+                self.pointer = checked_position(self.pointer.checked_add_signed(value as isize))?;
             }
         }
         Ok(())
@@ -85,7 +90,7 @@ impl IOHandler for FileNull {
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
         let len = buf.len();
-        self.pointer += len;
+        self.pointer = checked_position(self.pointer.checked_add(len))?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
-- 
2.43.0


From 10b0bd927d7a9da7c3123b085f1b27cb22eec124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 08/16] fix: fill the buffer with zeros when reading from a
 FileNull

It is documented that '0' is always read, but the buffer was left untouched.
---
 src/io/file_null.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index c0c4ccd..cf81af8 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -61,6 +61,7 @@ impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         let len = buf.len();
         self.pointer = checked_position(self.pointer.checked_add(len))?;
+        buf.fill(0);
 
         Ok(())
     }
-- 
2.43.0


From 2bb84d22e093fea1fe7b6372a26677cf0ad0837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 09/16] fix: only pass negative values through a type 1 curve
 when gamma is 1

Any gamma below 1.0001 did.
---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 025cf98..9d8e82f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -97,7 +97,7 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let gamma = params[0];
 
             if r < 0.0 {
-                if gamma.abs() - 1.0 < MATRIX_DET_TOLERANCE {
+                if (gamma - 1.0).abs() < MATRIX_DET_TOLERANCE {
                     r
                 } else {
                     0.0
-- 
2.43.0


From ebb827d73e52520dad5cb3bfa02928bf07a72bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 10/16] fix: reverse type 7 curves with negative parameters

Only parameters close to zero make the curve degenerate.
---
 src/plugins/para_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 9d8e82f..7ba6136 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -386,7 +386,9 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let c = params[3];
             let d = params[4];
 
-            if gamma < MATRIX_DET_TOLERANCE || a < MATRIX_DET_TOLERANCE || b < MATRIX_DET_TOLERANCE
+            if gamma.abs() < MATRIX_DET_TOLERANCE
+                || a.abs() < MATRIX_DET_TOLERANCE
+                || b.abs() < MATRIX_DET_TOLERANCE
             {
                 0.0
             } else {
-- 
2.43.0


From 6435a3bcafc32235e3b54952a8769de6f09dde67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 11/16] fix: use the natural logarithm to invert the sigmoid

The sigmoid is built on the exponential function, so type -109 was not the
inverse of type 109.
---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 7ba6136..b301492 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -453,7 +453,7 @@ fn sigmoid_base(k: f64, t: f64) -> f64 {
 }
 #[inline]
 fn inverted_sigmoid_base(k: f64, t: f64) -> f64 {
-    -((1.0 / (t + 0.5)) - 1.0).log10() / k
+    -((1.0 / (t + 0.5)) - 1.0).ln() / k
 }
 #[inline]
 fn sigmoid_factory(k: f64, t: f64) -> f64 {
-- 
2.43.0


From fd6b9226054cf4e4a2bac8d76b9599fdb6844c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 12/16] fix: do not overflow when looking up the most negative
 curve type

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index b301492..4d02833 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -82,7 +82,7 @@ impl Default for ParametricCurves {
 impl ParametricCurves {
     pub fn is_in_set(&self, r#type: i32) -> Option<usize> {
         for i in 0..self.curves.len() {
-            if r#type.abs() == self.curves[i].function_curve_id {
+            if r#type.checked_abs() == Some(self.curves[i].function_curve_id) {
                 return Some(i);
             }
         }
-- 
2.43.0


From df74d117b38692ee4bc906c16549e0869b3b48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 13/16] fix: do not overflow when converting the most negative
 fixed point number

---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From 4b0d2780e197555850cd0593ce1a6c58ac9a0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 14/16] fix: validate the last plugin of a chain too

A single plugin, or the last one of a chain, was never looked at.
---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..2679866 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -66,8 +66,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -105,7 +105,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From 1717e1e9f4f2799cb7ba948c128ccf9de299fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 15/16] fix: InterpolationPluginChunk's debug output names the
 type and its field

---
 src/state/chunks/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/chunks/interpolation.rs b/src/state/chunks/interpolation.rs
index 8240a96..189e76b 100644
--- a/src/state/chunks/interpolation.rs
+++ b/src/state/chunks/interpolation.rs
@@ -23,8 +23,8 @@ impl Default for InterpolationPluginChunk {
 
 impl Debug for InterpolationPluginChunk {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        f.debug_struct("LogErrorChunk")
-            .field("handler", &"[Function Pointer]")
+        f.debug_struct("InterpolationPluginChunk")
+            .field("interpolators", &"[Function Pointer]")
             .finish()
     }
 }
-- 
2.43.0


From ffa2108598e45481f7941dd10ff145f7e7ad102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 16/16] fix: IntentsListItem's debug output carries the name of
 the type

---
 src/plugins/intent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/intent.rs b/src/plugins/intent.rs
index 8ab8264..8350089 100644
--- a/src/plugins/intent.rs
+++ b/src/plugins/intent.rs
@@ -23,7 +23,7 @@ pub struct IntentsListItem {
 }
 impl Debug for IntentsListItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        f.debug_struct("IntentListItem")
+        f.debug_struct("IntentsListItem")
             .field("intent", &self.intent)
             .field("description", &self.description)
             .field("link", &"[Function Ptr]")
-- 
2.43.0

