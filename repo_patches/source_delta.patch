From 6978a9c60de09c4d1ee49ffc4a47726a8369dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 01/18] fix: end map keys nested inside flattened values

The pass-through branch of `map_key_end` began a second key instead of ending the current one.
---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..83f6d65 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From bfaaf32d8cdfae0ec38ace7cf8094a0aa9719ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 02/18] fix: report truncated JSON when an io writer stops
 accepting bytes

A writer returning `Ok(0)` was treated as success, silently dropping the rest of the document.
---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From e2bec81b4883336cdc4871045b82c92b0c15736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 03/18] fix: keep the integral zero of JSON numbers like `0e5`

---
 json/src/to_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..ceb9f67 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -605,8 +605,8 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
-                    // If we encounter a decimal point we might need to write a leading `0`
-                    b'.' => {
+                    // If we encounter a decimal point or exponent we might need to write a leading `0`
+                    b'.' | b'e' | b'E' => {
                         if self.at_start {
                             if self.sign_negative {
                                 _try_no_conv!(out.write_char('-'));
-- 
2.43.0


From c9e56f1424ff177dfcb49bc8a8b6793609109f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 04/18] fix: produce valid JSON for maps with tagged or enum
 keys

The internally tagged state left behind by a key leaked into the value that follows it.
---
 json/src/to_fmt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index ceb9f67..aca9da7 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -254,6 +254,8 @@ where
     }
 
     fn map_value_begin(&mut self) -> sval::Result {
+        self.is_internally_tagged = false;
+
         Ok(())
     }
 
-- 
2.43.0


From 1caf229e4e6b3511b4549972e03ddc86ded081eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 05/18] fix: return an error instead of panicking when
 collecting a failing value

---
 buffer/src/fragments.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..62f564d 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -42,7 +42,11 @@ impl<'sval> TextBuf<'sval> {
 
         value
             .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+            .map_err(|_| {
+                collector
+                    .err
+                    .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+            })?;
 
         Ok(collector.buf)
     }
@@ -299,7 +303,11 @@ impl<'sval> BinaryBuf<'sval> {
 
         value
             .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+            .map_err(|_| {
+                collector
+                    .err
+                    .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+            })?;
 
         Ok(collector.buf)
     }
-- 
2.43.0


From e37fa34e9933253699e00e0a02e3054391a55e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 06/18] fix: keep the tag hint when cloning or owning labels

---
 src/data.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..b4c782a 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -163,7 +163,11 @@ impl<'computed> Label<'computed> {
         #[cfg(not(feature = "alloc"))]
         {
             self.as_static_str()
-                .map(Label::new)
+                .map(|label| {
+                    let mut label = Label::new(label);
+                    label.tag = self.tag.clone();
+                    label
+                })
                 .ok_or_else(crate::Error::new)
         }
     }
@@ -570,7 +574,9 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut label = Label::new_owned(unsafe { &*owned }.to_owned());
+                label.tag = self.tag.clone();
+                label
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +596,13 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut label = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+            label.tag = self.tag.clone();
+            label
         }
     }
 
-- 
2.43.0


From b48ebc65f2fb42533b79259d8e98e12fec89f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 07/18] fix: keep sequence value boundaries in buffered nested
 values

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..296924b 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -250,11 +250,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From 3eab47fe4845bc9ecbf970bb34fc009f7a6de9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:22 +0000
Subject: [PATCH 08/18] fix: produce valid JSON for an unlabeled enum nested in
 an enum

The inner enum closed its variant without clearing the internally tagged state, so the outer one closed it again.
---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index aca9da7..9083db5 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -328,10 +328,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From ba56fc8d426c1e6d8dbe1c4865313155d5e33003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:17 +0000
Subject: [PATCH 09/18] fix: integer conversions see integers streamed at a
 narrower width

The default Value::to_i128 and to_u128 only recognised the i128 and u128
tokens themselves, but every narrower integer reaches a stream that doesn't
override it as an i64. A value streaming i8(1) converted to none of the
integer types, including i8.
---
 src/value.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..6c56258 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -621,8 +621,15 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.i128(value.into())
+            }
+
+            fn u128(&mut self, value: u128) -> Result {
+                match value.try_into() {
+                    Ok(value) => self.i128(value),
+                    Err(_) => crate::error(),
+                }
             }
 
             fn f64(&mut self, _: f64) -> Result {
@@ -711,8 +718,18 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                match value.try_into() {
+                    Ok(value) => self.u128(value),
+                    Err(_) => crate::error(),
+                }
+            }
+
+            fn i128(&mut self, value: i128) -> Result {
+                match value.try_into() {
+                    Ok(value) => self.u128(value),
+                    Err(_) => crate::error(),
+                }
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From 36c17ddcd11def4baa324c4756b17bb734fe3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:49 +0000
Subject: [PATCH 10/18] fix: don't repeat the enum name after a variant ending
 in an empty container

---
 fmt/src/writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..4ed7f82 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -392,6 +392,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
         label: Option<&sval::Label>,
         _: Option<&sval::Index>,
     ) -> sval::Result {
+        self.is_current_depth_empty = false;
+
         if tag == Some(&tags::NUMBER) {
             self.is_number = false;
         }
@@ -471,6 +473,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +525,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From 42c8edeed1df8ee681c624ed6e2d6692307e5846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:11 +0000
Subject: [PATCH 11/18] fix: complete empty enums in nested streams instead of
 recursing forever

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..856dd26 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -40,7 +40,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From 4b44be3c8871c379a32a8b7baccafddcaf87f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 12/18] fix: stream tuple and record variants of nested enums
 instead of panicking

---
 nested/src/flat.rs      | 34 ++++++++++++++++++++++++++++++++--
 nested/src/flat_enum.rs |  4 ++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 296924b..975dfd6 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -417,7 +417,7 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
-        self.buffer_or_begin_with(
+        self.buffer_or_begin_variant_with(
             |buf| buf.record_begin(tag, label, index, num_entries),
             |stream| {
                 Ok(State::Record(Some(Record {
@@ -492,7 +492,7 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
-        self.buffer_or_begin_with(
+        self.buffer_or_begin_variant_with(
             |buf| buf.tuple_begin(tag, label, index, num_entries),
             |stream| {
                 Ok(State::Tuple(Some(Tuple {
@@ -1136,6 +1136,26 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         Ok(())
     }
 
+    fn buffer_or_begin_variant_with(
+        &mut self,
+        buffer: impl FnMut(&mut ValueBuf<'sval>) -> sval::Result,
+        transition_any: impl FnOnce(Any<'sval, S>) -> Result<State<'sval, S>>,
+        transition_enum: impl FnOnce(Enum<FlatStreamEnum<S::Enum>>) -> Result<State<'sval, S>>,
+    ) -> sval::Result {
+        match self {
+            // The variant of a nested enum can only be streamed from within its parents,
+            // so it's buffered until it's complete
+            FlatStream {
+                buffered: None,
+                state: State::Enum(Some(variant)),
+            } if variant.stream.is_nested() => {
+                self.buffered = Some(Buffered::Value(ValueBuf::new()));
+                self.buffer_or_with(buffer, |_| Ok(()))
+            }
+            _ => self.buffer_or_begin_with(buffer, transition_any, transition_enum),
+        }
+    }
+
     fn buffer_or_end_with(
         &mut self,
         buffer: impl FnOnce(&mut ValueBuf<'sval>) -> sval::Result,
@@ -1164,6 +1184,16 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
                     let buf = mem::take(buf);
                     *buffered = None;
 
+                    if let State::Enum(ref mut variant) = stream.state {
+                        let variant = variant.take().ok_or_else(|| {
+                            Error::invalid_value(
+                                "cannot stream an enum; the stream is already completed",
+                            )
+                        })?;
+
+                        return Ok(Some(variant.stream.value_computed(buf)?));
+                    }
+
                     return stream
                         .state
                         .value_computed(&buf, |stream, value| stream.value_computed(value));
diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 856dd26..91e79dc 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -39,6 +39,10 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         })
     }
 
+    pub fn is_nested(&self) -> bool {
+        !self.queue.is_empty()
+    }
+
     pub fn end(self) -> Result<S::Ok> {
         self.value_or_recurse(
             |stream, _| stream.stream.empty(),
-- 
2.43.0


From 298a5bf91d7e1b920ba649055dc6a044ac02f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:48 +0000
Subject: [PATCH 13/18] fix: report values that fail after a complete nested
 stream

---
 nested/src/flat.rs |  9 +++++++++
 nested/src/lib.rs  | 16 ++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 975dfd6..8bf0347 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -173,6 +173,15 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
             Err(Error::invalid_value("incomplete stream"))
         }
     }
+
+    pub fn finish_with(&mut self, streamed: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // The value may have failed after streaming something complete
+        streamed.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
 }
 
 impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..e5b6000 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -937,8 +937,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let streamed = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(streamed)
     }
 
     /**
@@ -959,8 +959,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let streamed = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(streamed)
     }
 
     /**
@@ -992,8 +992,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let streamed = sval::stream_number(&mut stream, value);
+            stream.finish_with(streamed)
         }
     }
 
@@ -1033,8 +1033,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let streamed = sval::stream_number(&mut stream, value);
+            stream.finish_with(streamed)
         }
     }
 
-- 
2.43.0


From b7cafb3da9ec8dd3aa13faeff099d03f78dfc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:49 +0000
Subject: [PATCH 14/18] fix: keep the tag of labels in nested streams without
 alloc

---
 nested/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index e5b6000..18b6599 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,8 +914,14 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
+        if let Some(static_label) = label.as_static_str() {
+            let owned = sval::Label::new(static_label);
+
+            Ok(if let Some(tag) = label.tag() {
+                owned.with_tag(tag)
+            } else {
+                owned
+            })
         } else {
             Err(Error::no_alloc("streaming value"))
         }
-- 
2.43.0


From 2541933be7fecf40eb9bd19948ab6201096d0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:11 +0000
Subject: [PATCH 15/18] fix: reset the enum state when a flattened enum ends

A tagged value around an enum, such as Option<Enum>, underflowed the depth.
---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 83f6d65..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From a09c58d0fa5899ed065e74ff6a461250c8b7599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:29 +0000
Subject: [PATCH 16/18] fix: concatenate numbers in complex map keys flattened
 to labels

A number replaced whatever was already buffered for the label, so [1, 2] became 2.
---
 flatten/src/label.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..2e8cef9 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,26 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?))
+    }
+
+    fn number(&mut self, number: LabelBuf<'sval>) -> sval::Result {
+        match self {
+            LabelBuf::Empty => {
+                *self = number;
+                Ok(())
+            }
+            // If there's already a value buffered then concatenate with it
+            _ => number.with_label(|label| self.text_fragment_computed(label.as_str())),
+        }
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +106,15 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let mut text = TextBuf::new();
+                if !matches!(self, LabelBuf::Empty) {
+                    self.with_label(|label| {
+                        text.push_fragment_computed(label.as_str())
+                            .map_err(|_| sval::Error::new())
+                    })?;
+                }
+
+                *self = LabelBuf::Text(text);
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From 1916c9a9c138e0780926d5c84453715469515519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:50 +0000
Subject: [PATCH 17/18] fix: give transparent newtypes the tag of their field

---
 derive_macros/src/derive/derive_newtype.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index 6662826..d7037ce 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -86,7 +86,12 @@ pub(crate) fn derive_newtype<'a>(
         attrs.transparent(),
     );
 
-    let tag = quote_optional_tag_owned(attrs.tag());
+    // Transparent newtypes have the tag of their field, so leave it to the default
+    let tag = if attrs.transparent() {
+        None
+    } else {
+        Some(quote_optional_tag_owned(attrs.tag()))
+    };
 
     impl_tokens(
         impl_generics,
@@ -100,6 +105,6 @@ pub(crate) fn derive_newtype<'a>(
 
             Ok(())
         }),
-        Some(tag),
+        tag,
     )
 }
-- 
2.43.0


From 1770e9f2bc8cd2073535537adb7a77dbd714d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:10 +0000
Subject: [PATCH 18/18] fix: number enum variants after an explicit index from
 it, as fields are

---
 derive_macros/src/derive/derive_enum.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/derive_macros/src/derive/derive_enum.rs b/derive_macros/src/derive/derive_enum.rs
index 41e107c..06a8971 100644
--- a/derive_macros/src/derive/derive_enum.rs
+++ b/derive_macros/src/derive/derive_enum.rs
@@ -92,14 +92,12 @@ pub(crate) fn derive_enum<'a>(
     let mut variant_match_arms = Vec::new();
     let mut index_allocator = IndexAllocator::new();
 
-    let mut variant_index = |index: Option<Index>, discriminant: Option<IndexValue>| {
-        index.or_else(|| {
-            if attrs.dynamic || attrs.unindexed_variants {
-                None
-            } else {
-                Some(index_allocator.next_const_index(discriminant))
-            }
-        })
+    let mut variant_index = |index: Option<IndexValue>, discriminant: Option<IndexValue>| {
+        if attrs.dynamic || attrs.unindexed_variants {
+            index.map(IndexAllocator::const_index_of)
+        } else {
+            Some(index_allocator.next_const_index(index.or(discriminant)))
+        }
     };
 
     let variant_label = |label: Option<LabelValue>, ident: &Ident| {
@@ -142,6 +140,8 @@ pub(crate) fn derive_enum<'a>(
             .as_ref()
             .and_then(|(_, discriminant)| attr::IndexAttr.try_from_expr(discriminant));
 
+        let index = attr::get_unchecked("enum variant", attr::IndexAttr, &variant.attrs);
+
         let variant_ident = &variant.ident;
 
         variant_match_arms.push(match variant.fields {
@@ -153,7 +153,7 @@ pub(crate) fn derive_enum<'a>(
                     &fields.unnamed[0],
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(index, discriminant),
                     variant_transparent,
                 )
             }
@@ -164,7 +164,7 @@ pub(crate) fn derive_enum<'a>(
                     quote!(#ident :: #variant_ident),
                     attrs.tag(),
                     unit_variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(index, discriminant),
                 )
             }
             Fields::Named(ref fields) => {
@@ -176,7 +176,7 @@ pub(crate) fn derive_enum<'a>(
                     RecordTupleTarget::named_fields(),
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(index, discriminant),
                     attrs.unlabeled_fields(),
                     attrs.unindexed_fields(),
                 )
@@ -190,7 +190,7 @@ pub(crate) fn derive_enum<'a>(
                     RecordTupleTarget::unnamed_fields(),
                     attrs.tag(),
                     variant_label(attrs.label(), variant_ident),
-                    variant_index(attrs.index(), discriminant),
+                    variant_index(index, discriminant),
                     attrs.unlabeled_fields(),
                     attrs.unindexed_fields(),
                 )
-- 
2.43.0

