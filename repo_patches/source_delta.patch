From 8c43185599fbfd00966bab2d01bedf6a2d843401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 01/18] fix: reject string IDs that do not fit in 16 bits
 instead of truncating them

---
 src/compact1/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..25f921c 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -35,7 +35,7 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) if (0..=Self::MAX as i32).contains(&value) => Ok(value as Self),
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From 54c7deca0863d8abfb278f033ba03378e7b1b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 02/18] fix: reject a character set in format 0 for no glyphs
 instead of underflowing

---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..889690c 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From 585408f3190ae9faec3cd26b9939815b5a1d5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 03/18] fix: reject negative offsets and sizes in dictionaries
 instead of overflowing

---
 src/compact1/font_set/character_id_keyed.rs   |  4 +++-
 src/compact1/font_set/character_name_keyed.rs |  4 +++-
 src/compact1/font_set/mod.rs                  | 10 +++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..c534523 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -107,7 +107,9 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => {
+                jump_take!(@unwrap tape, position, offset as u64 + another_offset as u64)
+            }
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..6b0eefc 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -26,7 +26,9 @@ impl<'l> crate::walue::Read<'l> for Record {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => {
+                jump_take!(@unwrap tape, position, offset as u64 + another_offset as u64)
+            }
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..712c429 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -3,21 +3,25 @@
 macro_rules! get(
     (@single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => value,
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => value,
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
     );
     (@try @single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => Some(value),
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => Some(value),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => None,
         }
     );
     (@double $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
-            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
+            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1)))
+                if value0 >= 0 && value1 >= 0 =>
+            {
+                (value0, value1)
+            }
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
-- 
2.43.0


From 1bec2f98d19732462508b52b4be275ecc5242019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 04/18] fix: do not allocate memory for chunks of declared but
 missing data

---
 src/compact1/font_set/character_id_keyed.rs   |  3 ++-
 src/compact1/font_set/character_name_keyed.rs |  3 ++-
 src/compact1/index/mod.rs                     |  2 +-
 src/compact1/mod.rs                           | 10 ++++++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index c534523..3645bda 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -104,7 +104,8 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         use crate::tape::Read;
 
         let (size, offset) = get!(@double top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = crate::compact1::take_chunk(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 6b0eefc..2887ed5 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -23,7 +23,8 @@ impl<'l> crate::walue::Read<'l> for Record {
         use crate::tape::Read;
 
         let (size, offset) = get!(@double top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = crate::compact1::take_chunk(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => {
diff --git a/src/compact1/index/mod.rs b/src/compact1/index/mod.rs
index d5f36ce..2bc8116 100644
--- a/src/compact1/index/mod.rs
+++ b/src/compact1/index/mod.rs
@@ -42,7 +42,7 @@ impl crate::value::Read for Index {
                 raise!("found a malformed index");
             }
             let size = (offsets[i + 1].0 - offsets[i].0) as usize;
-            data.push(tape.take_given(size)?);
+            data.push(crate::compact1::take_chunk(tape, size)?);
         }
         Ok(Index {
             count,
diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 25f921c..3c5e489 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -29,6 +29,16 @@ pub type GlyphID = u16;
 /// A string identifier.
 pub type StringID = u16;
 
+/// Read a chunk of bytes without trusting its declared size.
+fn take_chunk<T: crate::tape::Read>(tape: &mut T, size: usize) -> Result<Vec<u8>> {
+    let mut chunk = vec![];
+    std::io::Read::read_to_end(&mut std::io::Read::take(tape, size as u64), &mut chunk)?;
+    if chunk.len() != size {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(chunk)
+}
+
 impl TryFrom<Number> for StringID {
     type Error = Error;
 
-- 
2.43.0


From 72d272a713de4054d5ee24b6976857ce1845885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 05/18] fix: interpret charstrings iteratively so that long
 ones do not exhaust the stack

---
 src/type2/program.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..277fd14 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -1,4 +1,5 @@
 use std::io::Cursor;
+use std::ops::ControlFlow;
 
 use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
@@ -36,12 +37,20 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let ControlFlow::Break(operation) = self.step()? {
+                return Ok(operation);
+            }
+        }
+    }
+
+    #[allow(unused_comparisons, unused_must_use)]
+    fn step(&mut self) -> Result<ControlFlow<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(ControlFlow::Break(None));
         }
 
         macro_rules! pop(
@@ -132,7 +141,7 @@ impl<'l> Program<'l> {
                 if min > 0 && self.width.is_none() {
                     self.width = Some(stack[min - 1]);
                 }
-                return Ok(Some((operator, operands)));
+                return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
 
@@ -167,7 +176,7 @@ impl<'l> Program<'l> {
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
-                return Ok(None);
+                return Ok(ControlFlow::Break(None));
             }
 
             // Hint operators
@@ -286,7 +295,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(ControlFlow::Continue(()))
     }
 
     /// Return the width difference with respect to the nominal width.
-- 
2.43.0


From e34d5a74921314cea8ee8d78d75883ed766a9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 06/18] fix: limit the nesting of subroutines so that recursive
 ones do not exhaust the stack

---
 src/type2/program.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 277fd14..2711339 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -5,6 +5,9 @@ use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+// The maximum nesting of subroutines (Appendix B of the specification).
+const MAX_DEPTH: usize = 10;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -18,6 +21,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    depth: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -268,6 +272,9 @@ impl<'l> Program<'l> {
 
             // Subroutine operators
             CallSubr | CallGSubr => {
+                if self.routine.depth == MAX_DEPTH {
+                    raise!("found too deeply nested subroutines");
+                }
                 let address = pop!(i32);
                 let mut routine = {
                     let subroutines = if operator == CallSubr {
@@ -283,6 +290,7 @@ impl<'l> Program<'l> {
                     Routine::new(&subroutines[i as usize])
                 };
                 std::mem::swap(&mut self.routine, &mut routine);
+                self.routine.depth = routine.depth + 1;
                 self.routine.caller = Some(Box::new(routine));
             }
             Return => {
@@ -311,6 +319,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            depth: 0,
             caller: None,
         }
     }
-- 
2.43.0


From 1b310ac79bdf1ca3cfce33cdd6fbc5bbe63ce418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 07/18] fix: do not overflow when computing the index of a
 subroutine

---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 2711339..3b16e16 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -283,7 +283,7 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
+                    let i = address as i64 + bias(count) as i64;
                     if i < 0 || i as usize >= count {
                         raise!("found no subroutine");
                     }
-- 
2.43.0


From 6b6980618ee63d4ac49aa1ca7a97ded8eb9f8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 08/18] fix: reduce the shift of the roll operator so that it
 does not overflow or take forever

---
 src/type2/program.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 3b16e16..eac1df2 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -229,6 +229,7 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
+                    let shift = shift % span;
                     match shift.cmp(&0) {
                         std::cmp::Ordering::Greater => {
                             for _ in 0..shift {
-- 
2.43.0


From 18a412e95c0d2d5837a3783fa272bfed0d81ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 09/18] fix: do not take the operands of an implicit stem hint
 for the width

---
 src/type2/program.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eac1df2..e0a79e2 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -191,7 +191,12 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
-                clear!([equal(0)]);
+                // The operands are those of an implicit vertical stem hint.
+                if self.stack.len() & 1 > 0 && self.width.is_none() {
+                    self.width = Some(self.stack[0]);
+                }
+                self.stack.clear();
+                return Ok(ControlFlow::Break(Some((operator, vec![]))));
             }
 
             // Arithmetic operators
-- 
2.43.0


From 1bc24516ba356be19205d6cefa722fb47a123fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 10/18] fix: do not take the operands of an accented character
 for the width

---
 src/type2/program.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index e0a79e2..7b59ce3 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -176,7 +176,12 @@ impl<'l> Program<'l> {
                     }
                     std::mem::replace(&mut self.routine, *caller);
                 }
-                let length = self.stack.len();
+                // The last four operands, if present, form an accented character
+                // (Appendix C of the specification).
+                let mut length = self.stack.len();
+                if length >= 4 {
+                    length -= 4;
+                }
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
-- 
2.43.0


From d749d023868ea881ea4ee0f41b64b51a5667fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 11/18] fix: do not continue past the end operator

---
 src/type2/program.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 7b59ce3..dc53bee 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -185,6 +185,8 @@ impl<'l> Program<'l> {
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
+                let size = self.routine.size as u64;
+                self.routine.jump(size)?;
                 return Ok(ControlFlow::Break(None));
             }
 
-- 
2.43.0


From ad40121a3ab49d241f816106aceedff372f8da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 12/18] fix: index the names of the expert character sets by
 glyph instead of string ID

---
 src/compact1/character_set.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 889690c..a092020 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -398,8 +398,16 @@ fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
     })
 }
 
+macro_rules! get(
+    ($glyph_id:ident { $($string_id:literal => $name:expr,)+ }) => ({
+        // The missing glyph is not listed.
+        const NAMES: &[&str] = &[$($name,)+];
+        NAMES.get(($glyph_id as usize).checked_sub(1)?).copied()
+    });
+);
+
 fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
-    Some(match glyph_id {
+    get!(glyph_id {
         1 => "space",
         229 => "exclamsmall",
         230 => "Hungarumlautsmall",
@@ -565,12 +573,11 @@ fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
         376 => "Yacutesmall",
         377 => "Thornsmall",
         378 => "Ydieresissmall",
-        _ => return None,
     })
 }
 
 fn get_expert_subset(glyph_id: GlyphID) -> Option<&'static str> {
-    Some(match glyph_id {
+    get!(glyph_id {
         1 => "space",
         231 => "dollaroldstyle",
         232 => "dollarsuperior",
@@ -657,6 +664,5 @@ fn get_expert_subset(glyph_id: GlyphID) -> Option<&'static str> {
         344 => "dollarinferior",
         345 => "periodinferior",
         346 => "commainferior",
-        _ => return None,
     })
 }
-- 
2.43.0


From 007348773c8f32bb230cb1ea7220afddadec0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 13/18] fix: read the codes that precede the supplements of an
 encoding

---
 src/compact1/encoding.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/compact1/encoding.rs b/src/compact1/encoding.rs
index 9a31bed..8546d71 100644
--- a/src/compact1/encoding.rs
+++ b/src/compact1/encoding.rs
@@ -39,8 +39,27 @@ table! {
 
 table! {
     /// An encoding in the supplemental format.
+    ///
+    /// The supplements follow the data of format 0 or 1.
     pub EncodingSupplemental { // Supplemental Encoding Data
-        format           (u8),
+        format (u8), // format
+
+        codes (Vec<u8>) |this, tape| { // code
+            if this.format & 0x7f != 0 {
+                return Ok(vec![]);
+            }
+            let count = tape.take::<u8>()?;
+            tape.take_given(count as usize)
+        },
+
+        ranges (Vec<Range1>) |this, tape| { // Range1
+            if this.format & 0x7f != 1 {
+                return Ok(vec![]);
+            }
+            let count = tape.take::<u8>()?;
+            tape.take_given(count as usize)
+        },
+
         supplement_count (u8), // nSups
 
         supplements (Vec<Supplement>) |this, tape| { // Supplement
@@ -85,7 +104,7 @@ impl crate::value::Read for Encoding {
         Ok(match tape.peek::<u8>()? {
             0 => Encoding::Format0(tape.take()?),
             1 => Encoding::Format1(tape.take()?),
-            format if format & 0x80 > 0 => Encoding::FormatSupplemental(tape.take()?),
+            0x80 | 0x81 => Encoding::FormatSupplemental(tape.take()?),
             format => raise!("found an unknown format of encodings ({format})"),
         })
     }
-- 
2.43.0


From e00167d87abacca1e6f3d7381de5b97a18d5f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 14/18] fix: reject a glyph-to-dictionary mapping in format 0
 of another format instead of panicking

---
 src/compact1/font_set/character_id_keyed.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 3645bda..271e85e 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -144,8 +144,10 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         tape: &mut T,
         character_strings: Self::Parameter,
     ) -> Result<Self> {
-        let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        let format = tape.take::<u8>()?;
+        if format != 0 {
+            raise!("found a malformed glyph-to-dictionary encoding");
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


From e0065650ed324931e45f9ade93614598183e60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 15/18] fix: reject a supplemental encoding of an unknown
 format

---
 src/compact1/encoding.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compact1/encoding.rs b/src/compact1/encoding.rs
index 8546d71..1f516a3 100644
--- a/src/compact1/encoding.rs
+++ b/src/compact1/encoding.rs
@@ -45,7 +45,10 @@ table! {
         format (u8), // format
 
         codes (Vec<u8>) |this, tape| { // code
-            if this.format & 0x7f != 0 {
+            if !matches!(this.format, 0x80 | 0x81) {
+                raise!("found a malformed encoding");
+            }
+            if this.format != 0x80 {
                 return Ok(vec![]);
             }
             let count = tape.take::<u8>()?;
@@ -53,7 +56,7 @@ table! {
         },
 
         ranges (Vec<Range1>) |this, tape| { // Range1
-            if this.format & 0x7f != 1 {
+            if this.format != 0x81 {
                 return Ok(vec![]);
             }
             let count = tape.take::<u8>()?;
-- 
2.43.0


From 2e1bd26d2461ab30d0e9667f7e99627bcbf7dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 16/18] fix: reject shifts of 2147483648 in roll instead of
 rotating by one less

---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index dc53bee..517c0cd 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -67,7 +67,7 @@ impl<'l> Program<'l> {
                 _ => raise!("expected an operand"),
             });
             (i32) => (match self.stack.pop() {
-                Some(value) if value as i32 as Operand == value => value as i32,
+                Some(value) if value as i32 as f64 == value as f64 => value as i32,
                 _ => raise!("expected an operand of a different type"),
             });
         );
-- 
2.43.0


From ba501c3e7286fbfc4212413e2f4b75adcb1ad13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 17/18] fix: roll in time proportional to the operands, not to
 the operands times the shift

---
 src/type2/program.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 517c0cd..42bad0c 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -241,21 +241,7 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
-                    let shift = shift % span;
-                    match shift.cmp(&0) {
-                        std::cmp::Ordering::Greater => {
-                            for _ in 0..shift {
-                                let operand = pop!();
-                                self.stack.insert(position, operand);
-                            }
-                        }
-                        std::cmp::Ordering::Less => {
-                            for _ in 0..(-shift) {
-                                push!(self.stack.remove(position));
-                            }
-                        }
-                        _ => {}
-                    }
+                    self.stack[position..].rotate_right(shift.rem_euclid(span) as usize);
                 }
             }
             Dup => push!(read!(0)),
-- 
2.43.0


From 42e509c51c3e439b3a3dbc1597434756b53c66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:19 +0000
Subject: [PATCH 18/18] fix: do not take operands left below a later operation
 for the width

---
 src/type2/program.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 42bad0c..93c4e45 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -15,6 +15,7 @@ pub struct Program<'l> {
     local: &'l [Vec<u8>],
     stack: Vec<Operand>,
     stems: usize,
+    cleared: bool,
     width: Option<Operand>,
 }
 
@@ -35,6 +36,7 @@ impl<'l> Program<'l> {
             local,
             stack: vec![],
             stems: 0,
+            cleared: false,
             width: None,
         }
     }
@@ -142,9 +144,10 @@ impl<'l> Program<'l> {
                 }
                 let mut stack = std::mem::take(&mut self.stack);
                 let operands = stack.drain(min..).collect();
-                if min > 0 && self.width.is_none() {
+                if min > 0 && !self.cleared {
                     self.width = Some(stack[min - 1]);
                 }
+                self.cleared = true;
                 return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
@@ -182,9 +185,10 @@ impl<'l> Program<'l> {
                 if length >= 4 {
                     length -= 4;
                 }
-                if length > 0 && self.width.is_none() {
+                if length > 0 && !self.cleared {
                     self.width = Some(self.stack[length - 1]);
                 }
+                self.cleared = true;
                 let size = self.routine.size as u64;
                 self.routine.jump(size)?;
                 return Ok(ControlFlow::Break(None));
@@ -199,9 +203,10 @@ impl<'l> Program<'l> {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
                 // The operands are those of an implicit vertical stem hint.
-                if self.stack.len() & 1 > 0 && self.width.is_none() {
+                if self.stack.len() & 1 > 0 && !self.cleared {
                     self.width = Some(self.stack[0]);
                 }
+                self.cleared = true;
                 self.stack.clear();
                 return Ok(ControlFlow::Break(Some((operator, vec![]))));
             }
-- 
2.43.0

