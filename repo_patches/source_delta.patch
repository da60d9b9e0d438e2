From 664b2f6124426d5a66e06301c93044d5a250e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 01/13] fix: report malformed var-len ints and enum ordinals as
 MalformedData, not Io

---
 binschema/src/var_len.rs | 48 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..37cbda9 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,19 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    Result,
+    error,
+    bail,
+    ensure,
+};
 use std::io::{
+    self,
     Read,
     Write,
-    Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -41,7 +33,7 @@ pub fn write_ord<W>(
     write: &mut W,
     ord: usize,
     num_variants: usize,
-) -> Result<()>
+) -> io::Result<()>
 where
     W: Write,
 {
@@ -62,7 +54,12 @@ pub fn read_ord<R>(
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,7 +67,9 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
-        "malformed data, enum ordinal {} out of range 0..{}",
+        MalformedData,
+        None,
+        "enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
     );
@@ -87,7 +86,7 @@ const LO_7_BITS: u8 = 0b01111111;
 pub fn write_var_len_uint<W>(
     write: &mut W,
     mut n: u128,
-) -> Result<()>
+) -> io::Result<()>
 where
     W: Write,
 {
@@ -115,7 +114,9 @@ where
     while more {
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len uint",
+            MalformedData,
+            None,
+            "too many bytes in var len uint",
         );
 
         let mut buf = [0];
@@ -137,7 +138,7 @@ const LO_6_BITS: u8        = 0b00111111;
 pub fn write_var_len_sint<W>(
     write: &mut W,
     mut n: i128,
-) -> Result<()>
+) -> io::Result<()>
 where
     W: Write,
 {
@@ -183,10 +184,11 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len sint",
+            MalformedData,
+            None,
+            "too many bytes in var len sint",
         );
 
         let mut buf = [0];
-- 
2.43.0


From f832ee9e712325774f04df4ed56153f4f775f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 02/13] fix: reject var-len ints too large for 128 bits instead
 of dropping their high bits

---
 FORMAT.txt               | 14 ++++++++++++--
 binschema/src/var_len.rs | 18 ++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/FORMAT.txt b/FORMAT.txt
index 6d8d1e2..fd310cc 100644
--- a/FORMAT.txt
+++ b/FORMAT.txt
@@ -231,7 +231,12 @@ Reference code:
             read.read_exact(&mut buf)?;
             let [curr_byte] = buf;
 
-            n |= ((curr_byte & LO_7_BITS) as u128) << shift;
+            let lo_7_bits = (curr_byte & LO_7_BITS) as u128;
+            ensure!(
+                (lo_7_bits << shift) >> shift == lo_7_bits,
+                "malformed data: var len uint too large",
+            );
+            n |= lo_7_bits << shift;
             shift += 7;
             more = (curr_byte & MORE_BIT) != 0;
         }
@@ -321,7 +326,12 @@ Reference code:
             read.read_exact(&mut buf)?;
             let [curr_byte] = buf;
 
-            n |= ((curr_byte & LO_7_BITS) as i128) << shift;
+            let lo_7_bits = (curr_byte & LO_7_BITS) as i128;
+            ensure!(
+                (lo_7_bits << shift) >> shift == lo_7_bits,
+                "malformed data: var len sint too large",
+            );
+            n |= lo_7_bits << shift;
             shift += 7;
             more = (curr_byte & MORE_BIT) != 0;
         }
diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 37cbda9..ddef4a8 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -123,7 +123,14 @@ where
         read.read_exact(&mut buf)?;
         let [curr_byte] = buf;
 
-        n |= ((curr_byte & LO_7_BITS) as u128) << shift;
+        let lo_7_bits = (curr_byte & LO_7_BITS) as u128;
+        ensure!(
+            (lo_7_bits << shift) >> shift == lo_7_bits,
+            MalformedData,
+            None,
+            "var len uint too large",
+        );
+        n |= lo_7_bits << shift;
         shift += 7;
         more = (curr_byte & MORE_BIT) != 0;
     }
@@ -195,7 +202,14 @@ where
         read.read_exact(&mut buf)?;
         let [curr_byte] = buf;
 
-        n |= ((curr_byte & LO_7_BITS) as i128) << shift;
+        let lo_7_bits = (curr_byte & LO_7_BITS) as i128;
+        ensure!(
+            (lo_7_bits << shift) >> shift == lo_7_bits,
+            MalformedData,
+            None,
+            "var len sint too large",
+        );
+        n |= lo_7_bits << shift;
         shift += 7;
         more = (curr_byte & MORE_BIT) != 0;
     }
-- 
2.43.0


From a5d648a19ac81f2b3dd7438a8db2136f293927bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 03/13] fix: break the decoder on a malformed char, bool or
 option someness

---
 binschema/src/decoder.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..3baaa53 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -182,7 +183,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid bool",
                 n,
             )),
-        }
+        }.do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_unit(&mut self) -> Result<()> {
@@ -274,12 +275,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    );
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 23b7bbeb969d6947770ac4287cab0160d91ccad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 04/13] fix: don't allocate for undecoded str, bytes and seq
 lengths

---
 binschema/src/decoder.rs | 33 ++++++++++++++++++++-------------
 binschema/src/value.rs   |  8 ++++++--
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3baaa53..d46e731 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -20,9 +20,8 @@ use std::{
         size_of,
         take,
     },
-    io::Read,
+    io::{self, Read},
     borrow::BorrowMut,
-    iter::repeat,
 };
 
 
@@ -128,6 +127,22 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             .do_if_err(|| self.state.mark_broken())
     }
 
+    /// Read `len` bytes, appending them to `buf`. Only allocates proportionally
+    /// to the number of bytes actually read, as `len` may be malformed.
+    fn read_into(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        self.read
+            .by_ref()
+            .take(len as u64)
+            .read_to_end(buf)
+            .and_then(|n| if n == len {
+                Ok(())
+            } else {
+                Err(io::ErrorKind::UnexpectedEof.into())
+            })
+            .map_err(Error::from)
+            .do_if_err(|| self.state.mark_broken())
+    }
+
     decode_le_bytes!(
         decode_u8(u8) code_u8,
         decode_u16(u16) code_u16,
@@ -205,17 +220,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_into(&mut bbuf, len) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -251,10 +261,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
-        Ok(())
+        self.read_into(buf, len)
     }
 
     /// Decode a bytes into a new alloc.
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..69c6ff5 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -54,6 +54,10 @@ pub struct EnumValue {
 }
 
 
+/// Maximum number of seq elements to allocate for before having decoded them,
+/// as the seq length may be malformed.
+const MAX_PREALLOC: usize = 256;
+
 impl Value {
     pub fn encode_to<W: Write>(&self, e: &mut Encoder<W>) -> Result<()> {
         match self {
@@ -132,7 +136,7 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::with_capacity(usize::min(len, MAX_PREALLOC));
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +149,7 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::with_capacity(usize::min(len, MAX_PREALLOC));
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0


From b53fd5ce80c1deacbec183231ea6c3657e59a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 05/13] fix: don't panic on finishing a seq before all its
 elements are coded

---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From ec83ca86c9bdd317c1ca9d90c503faf893d6cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 06/13] fix: don't panic on encoding an enum variant that is an
 illegal recurse

---
 binschema/src/coder/coder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..e27b936 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -854,8 +854,10 @@ impl<'a> CoderState<'a> {
             need_variant_name,
         );
         dbg_log!(self, "variant name = {:?}", variant_name);
-        self.top().api_state = ApiState::AutoFinish;
+        // if this fails, the enum is left in a state which can be canceled
+        let i = self.stack.len() - 1;
         self.push_need(&variants[variant_ord].inner)?;
+        self.stack[i].api_state = ApiState::AutoFinish;
         Ok(())
     }
 
-- 
2.43.0


From 0e7aff1b162c0dfc1c095b75405e3cfdc5da2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 07/13] fix: reject recurse at the root of a schema as illegal

---
 binschema/src/coder/coder.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index e27b936..90260d2 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -218,6 +218,17 @@ macro_rules! validate_top {
                     &ApiState::AutoFinish => unreachable!("{:#?}", $self.stack),
                     &ApiState::OptionUninitSomeness => unreachable!(),
                     &ApiState::SeqUninitLen => unreachable!(),
+                    &ApiState::Need if matches!(
+                        $top.schema,
+                        &Schema::Recurse(_)
+                    ) => {
+                        $self.broken = true;
+                        bail!(
+                            IllegalSchema,
+                            Some($self),
+                            "recurse at root of schema",
+                        );
+                    }
                     &ApiState::Need => bail!(
                         SchemaNonConformance,
                         Some($self),
@@ -375,6 +386,12 @@ impl<'a> CoderState<'a> {
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
         match self.stack.iter().rev().next() {
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                api_state: ApiState::Need,
+            }) => Err(error!(
+                IllegalSchema, Some(self), "recurse at root of schema"
+            )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
-- 
2.43.0


From 2265526dc03227ee88a8d37337bdfb868bde53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 08/13] fix: resolve recurse levels in the schema tree, not in
 the stack of values being coded

---
 binschema/src/coder/coder.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 90260d2..1f49e2b 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -95,6 +95,10 @@ macro_rules! dbg_log_pop {
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
     api_state: ApiState,
+    /// Index in the stack of the parent of `schema` in the schema tree, or
+    /// None if `schema` is the root of the schema tree. This is not necessarily
+    /// the frame below, as `schema` may have been recursed to.
+    parent: Option<usize>,
 }
 
 #[derive(Debug, Clone)]
@@ -171,6 +175,7 @@ impl<'a> CoderState<'a> {
         stack.push(StackFrame {
             schema,
             api_state: ApiState::Need,
+            parent: None,
         });
         CoderState {
             stack,
@@ -309,6 +314,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -345,25 +351,32 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
+        let mut parent = self.stack.len().checked_sub(1);
         while let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
+            for _ in 1..n {
+                match parent {
+                    Some(i) => parent = self.stack[i].parent,
+                    None => break,
+                }
+            }
+            let i = parent
                 .ok_or_else(|| error!(
                     IllegalSchema,
                     Some(self),
-                    "recurse past base of stack",
+                    "recurse past root of schema",
                 ))
                 .do_if_err(|| self.broken = true)?;
             schema = self.stack[i].schema;
+            parent = self.stack[i].parent;
         }
         self.stack.push(StackFrame {
             schema,
             api_state: ApiState::Need,
+            parent,
         });
         Ok(())
     }
@@ -389,12 +402,14 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema: &Schema::Recurse(_),
                 api_state: ApiState::Need,
+                ..
             }) => Err(error!(
                 IllegalSchema, Some(self), "recurse at root of schema"
             )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -561,6 +576,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -635,6 +651,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -669,6 +686,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -717,6 +735,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -760,6 +779,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -816,6 +836,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -853,6 +874,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From 03cadc83b852d402f94343010a25da714cac7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 09/13] fix: finish empty seqs, tuples, maps and structs when
 deserializing

---
 binschema/src/serde/de.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..cf73b9b 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,11 +81,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
-        v.visit_seq(SeqDecoder {
+        let mut seq = SeqDecoder {
             decoder: self,
             remaining: len,
             seq_like,
-        })
+        };
+        if len == 0 {
+            seq.finish()?;
+        }
+        v.visit_seq(seq)
     }
 
     fn inner_deserialize_struct<'d, V, N>(
@@ -98,6 +102,9 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        if fields.is_empty() {
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +258,9 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        if len == 0 {
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
@@ -305,6 +315,16 @@ struct SeqDecoder<'a, 'b, 'c, R> {
     seq_like: SeqLike,
 }
 
+impl<'a, 'b, 'c, R: Read> SeqDecoder<'a, 'b, 'c, R> {
+    fn finish(&mut self) -> Result<()> {
+        match self.seq_like {
+            SeqLike::Seq => self.decoder.finish_seq(),
+            SeqLike::Tuple => self.decoder.finish_tuple(),
+            SeqLike::Unit => Ok(()),
+        }
+    }
+}
+
 impl<'a, 'b, 'c, 'd, R: Read> SeqAccess<'d> for SeqDecoder<'a, 'b, 'c, R> {
     type Error = Error;
 
@@ -327,11 +347,7 @@ impl<'a, 'b, 'c, 'd, R: Read> SeqAccess<'d> for SeqDecoder<'a, 'b, 'c, R> {
             let value = seed.deserialize(&mut *self.decoder)?;
 
             if self.remaining == 0 {
-                match self.seq_like {
-                    SeqLike::Seq => self.decoder.finish_seq()?,
-                    SeqLike::Tuple => self.decoder.finish_tuple()?,
-                    SeqLike::Unit => unreachable!(),
-                }
+                self.finish()?;
             }
 
             Ok(Some(value))
-- 
2.43.0


From cb074dfa21e14bf4d26336985f1dd0157ea1e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 10/13] fix: make known schemas of Range, RangeInclusive and
 Bound match their serde impls

---
 binschema/src/known_schema.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..5b5101f 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -234,7 +234,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -244,7 +244,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -254,9 +254,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From a29fd02e18252e6cfb80da11dee3d6a952713027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 11/13] fix: count both schema levels of maps when resolving
 recursive types

---
 binschema/src/known_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 5b5101f..029b3a5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -182,6 +182,7 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
-- 
2.43.0


From eb87e94c687a24f8899b9121546d2dd0dfbb34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 12/13] fix: derive correct recurse levels for recursive
 structs and newtypes

---
 binschema/src/known_schema.rs | 26 +++++++++++++++++++++++---
 binschema_derive/src/lib.rs   | 30 ++++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 029b3a5..23e0d4c 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -36,6 +36,8 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
     dbg: &'static str,
+    // whether this layer is a level in the schema tree
+    is_level: bool,
     next: &'a Option<Node<'a>>,
 }
 
@@ -54,6 +56,18 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
             dbg: type_name::<T>(),
+            is_level: true,
+            next: &self.0,
+        }))
+    }
+
+    /// Layer for a type which has the same schema as the single type inside it,
+    /// and thus isn't a level in the schema tree of its own.
+    pub fn with_transparent_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            dbg: type_name::<T>(),
+            is_level: false,
             next: &self.0,
         }))
     }
@@ -62,30 +76,36 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: None,
             dbg: "",
+            is_level: true,
             next: &self.0,
         }))
     }
 
     pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+        self.recurse_level::<T>()
+            .map(|n| n.saturating_sub(1))
+    }
+
+    fn recurse_level<T: KnownSchema>(&self) -> Option<usize> {
         let mut opt_curr = &self.0;
         let mut level = 0;
 
         while let Some(curr) = opt_curr {
+            level += curr.is_level as usize;
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
                     return Some(level);
                 }
             }
             opt_curr = curr.next;
-            level += 1;
         }
 
         None
     }
 
     pub fn parent_recurse<T: KnownSchema>(&self) -> Option<Schema> {
-        self.find_type::<T>()
-            .map(|n| Schema::Recurse(n + 1))
+        self.recurse_level::<T>()
+            .map(Schema::Recurse)
     }
 }
 
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..fcb826e 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -50,7 +50,16 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// Schema of fields, given that `stack` is in scope. If `new_level`, that is the
+/// stack of a parent schema of these fields, otherwise `stack` already includes
+/// the level of the schema of these fields.
+fn fields_schema(fields: &Fields, new_level: bool) -> TokenStream2 {
+    let stack =
+        if new_level {
+            quote! { stack.with_none_layer() }
+        } else {
+            quote! { stack }
+        };
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -65,7 +74,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    let stack = #stack;
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -91,7 +100,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    let stack = #stack;
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -112,13 +121,22 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
 
     let name = &input.ident;
+    let layer =
+        match &input.data {
+            // newtypes have the schema of their field
+            &Data::Struct(DataStruct {
+                fields: Fields::Unnamed(ref fields),
+                ..
+            }) if fields.unnamed.len() == 1 => quote! { with_transparent_type_layer },
+            _ => quote! { with_type_layer },
+        };
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, false),
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = &variant.ident;
-                    let inner = fields_schema(&variant.fields);
+                    let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
                     }
@@ -139,7 +157,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From 4443443a6244fcbc1ad0704d11e14900dd1a2036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 13/13] fix: derive schema names of raw identifiers without the
 r# prefix

---
 binschema_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index fcb826e..f96e8bd 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -15,6 +15,7 @@ use syn::{
     DataEnum,
     Meta,
     Lit,
+    ext::IdentExt,
 };
 use quote::quote;
 
@@ -65,7 +66,7 @@ fn fields_schema(fields: &Fields, new_level: bool) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -135,7 +136,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0

