From 6105e4110d1aea392df37bb74c5241906d0df8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 01/17] fix: write string bytes back as the single bytes they
 were read from

---
 src/serialization/writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..6da34e4 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -41,8 +41,12 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        // Every character holds exactly one byte of the original string, see
+        // `ByteStream::string`.
+        let bytes: Vec<u8> = value.chars().map(|character| character as u8).collect();
+
+        self.size_t(bytes.len() as i64);
+        self.slice(&bytes);
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From 8f7484c6f15b6cd4d1f1014ca9d9aded2f00c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 02/17] fix: report strings with impossible lengths as too
 short instead of overflowing

---
 src/serialization/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..9a7548e 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,7 +85,7 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
@@ -98,7 +98,7 @@ impl<'a> ByteStream<'a> {
         let length = self.size_t()? as usize;
         let start = self.offset;
 
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
-- 
2.43.0


From b60140bf4e13f20b5c6c5c878c1011a443648a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 03/17] fix: recognise 32 bit floating point numbers in Lua 5.0
 headers

---
 src/format/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..783ff11 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,9 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                // Only the integral part is compared, because a 32 bit number can't hold all
+                // the digits.
+                value as i64 != 31415926
             }
         };
 
-- 
2.43.0


From 6a1e1f1ee6776153c0903e2f1e8ae9fcfc8931a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 04/17] fix: reject constants an integral output number can't
 hold

---
 src/number.rs               |  2 +-
 src/serialization/writer.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..2b7066f 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -12,7 +12,7 @@ impl Number {
     pub(crate) fn as_integer(self) -> Result<i64, LunifyError> {
         match self {
             Number::Integer(value) => Ok(value),
-            Number::Float(value) => match value == value.round() {
+            Number::Float(value) => match value == value.round() && value >= i64::MIN as f64 && value < i64::MAX as f64 {
                 true => Ok(value as i64),
                 false => Err(LunifyError::FloatPrecisionLoss),
             },
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 6da34e4..a19a04d 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -34,7 +34,15 @@ impl<'a> ByteWriter<'a> {
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
+            true => {
+                let value = value.as_integer()?;
+
+                if self.format.number_width == BitWidth::Bit32 && i32::try_from(value).is_err() {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, value, number_width, i32)
+            }
             false => to_slice!(self, value.as_float()?, number_width, f32),
         }
         Ok(())
-- 
2.43.0


From 1d66bbe56a66482e9f752e7c0bd20ed479d20532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 05/17] fix: only return input that is already Lua 5.1 with the
 output settings as is

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..1ff8a88 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,12 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
     // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    let is_unified = version == LuaVersion::Lua51
+        && input_format == *output_format
+        && settings.lua51 == settings.output
+        && input_bytes.starts_with(settings.output.binary_signature.as_bytes());
+
+    if is_unified && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
-- 
2.43.0


From 83d799513b17c36f5f8c0a8cf75a232760143ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 06/17] fix: keep the number of upvalues of functions without
 upvalue names

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..0d36e76 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From deb57e9767fa3dc5062abd606a15688a9ae52804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 07/17] fix: reject instruction layouts that are wider than any
 instruction

---
 src/function/instruction/operand/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..3233259 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -125,6 +125,11 @@ impl InstructionLayout {
             }
         }
 
+        // An instruction is at most 64 bits wide.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
-- 
2.43.0


From a3ce89ea16bcf94e27d648847a2b2e44a91ede07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 08/17] fix: reject instructions that don't fit the output
 instruction width

---
 src/function/mod.rs         | 4 ++++
 src/serialization/writer.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0d36e76..e3d3c26 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -297,6 +297,10 @@ impl Function {
         // instructions
         byte_writer.integer(self.instructions.len() as i64);
         for instruction in self.instructions {
+            if !byte_writer.can_hold_instruction(instruction) {
+                return Err(LunifyError::ValueTooBigForOperand);
+            }
+
             byte_writer.instruction(instruction);
         }
 
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index a19a04d..6b48433 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -28,6 +28,10 @@ impl<'a> ByteWriter<'a> {
         to_slice!(self, value, size_t_width, i32)
     }
 
+    pub fn can_hold_instruction(&self, instruction: u64) -> bool {
+        self.format.instruction_width == BitWidth::Bit64 || u32::try_from(instruction).is_ok()
+    }
+
     pub fn instruction(&mut self, instruction: u64) {
         to_slice!(self, instruction, instruction_width, u32)
     }
-- 
2.43.0


From 8c9c65588c9d525bf2743cc15e0e50e07d9ee416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 09/17] fix: report deeply nested functions instead of
 overflowing the stack

---
 src/error.rs        |  2 ++
 src/function/mod.rs | 30 ++++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..285eb5b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -42,6 +42,8 @@ pub enum LunifyError {
     /// The byte code contains an integral value that is too big to be
     /// represented when `is_number_integral` is set to false.
     IntegerOverflow,
+    /// The functions inside the byte code are nested deeper than Lua can load.
+    FunctionNestingTooDeep,
     /// The byte code is truncated.
     InputTooShort,
     /// The byte code has access padding.
diff --git a/src/function/mod.rs b/src/function/mod.rs
index e3d3c26..1e1e2d0 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,10 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum depth of nested functions that Lua is able to load
+/// (`LUAI_MAXCCALLS`).
+const MAXIMUM_NESTING: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -114,7 +118,12 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        depth: usize,
+    ) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -122,7 +131,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as usize {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::from_nested_byte_stream(byte_stream, version, settings, depth + 1)?;
             functions.push(function);
         }
 
@@ -198,6 +207,19 @@ impl Function {
     }
 
     pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+        Self::from_nested_byte_stream(byte_stream, version, settings, 1)
+    }
+
+    fn from_nested_byte_stream(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        depth: usize,
+    ) -> Result<Self, LunifyError> {
+        if depth > MAXIMUM_NESTING {
+            return Err(LunifyError::FunctionNestingTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -226,7 +248,7 @@ impl Function {
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -242,7 +264,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
 
             if is_variadic != 0 {
-- 
2.43.0


From 64c25e156e18dfbef78b0aa5a1591bdba2601358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 10/17] fix: keep the code of functions without line info

---
 src/function/builder.rs |  2 +-
 src/function/convert.rs | 14 ++++++++++++--
 src/function/upcast.rs  | 14 ++++++++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..0625940 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,7 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..97bcd7f 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,3 +1,5 @@
+use std::iter::repeat;
+
 use super::builder::FunctionBuilder;
 use crate::function::instruction::{Generic, LuaInstruction, BC};
 use crate::{lua51, LunifyError, Settings};
@@ -16,7 +18,10 @@ pub(crate) fn convert(
 
     let mut builder = FunctionBuilder::default();
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // Stripped functions don't have any line info.
+    let is_stripped = line_info.is_empty();
+
+    for (instruction, line_number) in instructions.into_iter().zip(line_info.into_iter().chain(repeat(0))) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
 
@@ -104,7 +109,12 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match is_stripped {
+        true => Ok((instructions, Vec::new())),
+        false => Ok((instructions, line_info)),
+    }
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..d564b77 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,3 +1,5 @@
+use std::iter::repeat;
+
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
@@ -15,7 +17,10 @@ pub(crate) fn upcast(
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // Stripped functions don't have any line info.
+    let is_stripped = line_info.is_empty();
+
+    for (instruction, line_number) in instructions.into_iter().zip(line_info.into_iter().chain(repeat(0))) {
         builder.set_line_number(line_number);
 
         match instruction {
@@ -354,7 +359,12 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match is_stripped {
+        true => Ok((instructions, Vec::new())),
+        false => Ok((instructions, line_info)),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0e1a18ed4bf4204b3223610741fbe8d0f4b8b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 11/17] fix: compute jump destinations over rewritten code
 correctly

---
 src/function/builder.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 0625940..54eb0e6 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -80,36 +80,43 @@ impl FunctionBuilder {
         self.contexts.len()
     }
 
-    fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
-        let (mut steps, mut offset) = match destination.is_positive() {
-            true => (destination + 1, 1),
-            false => (destination.abs(), 0),
+    fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
+        // Number of instructions in the original byte code that we still need to skip.
+        // Every context skips one instruction minus its line weight.
+        let (mut remaining, contexts) = match destination.is_negative() {
+            true => (-destination, &self.contexts[..=context_index]),
+            false => (destination + 1, &self.contexts[context_index + 1..]),
         };
+        let mut visited = 0;
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+        while remaining > 0 && visited < contexts.len() {
+            let context = match destination.is_negative() {
+                true => contexts[contexts.len() - visited - 1],
+                false => contexts[visited],
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
-            steps += context.line_weight - 1;
-            offset += 1;
+            remaining -= 1 - context.line_weight;
+            visited += 1;
         }
 
-        destination + final_offset
+        // If the jump leaves the function, it needs to leave the new function too.
+        let steps = visited as i64 + remaining.max(0);
+
+        match destination.is_negative() {
+            true => final_offset - steps,
+            false => final_offset + steps - 1,
+        }
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-        if bx.is_positive() {
+        if !bx.is_negative() {
             return Err(LunifyError::UnexpectedForwardJump);
         }
 
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        Ok(((program_counter as i64) + new_bx).max(0) as usize)
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From a96632199e593fe7691040d9192bfc8c60e4316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 12/17] fix: don't reserve stack for results that calls and
 varargs don't push

---
 src/function/instruction/lua51.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..8b91f3a 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,7 +131,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.max((a + c.0).saturating_sub(2))),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
@@ -140,7 +140,7 @@ impl Instruction {
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(2))),
         }
     }
 }
-- 
2.43.0


From 9de440bb5c07d8d791d2c48e203df79514bf6463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 13/17] fix: reject functions that need more stack than the
 output allows

---
 src/function/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 1e1e2d0..6894f4e 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -289,6 +289,10 @@ impl Function {
             (instructions, constants, functions, line_info, local_variables, upvalues)
         };
 
+        if maximum_stack_size as u64 > settings.output.stack_limit {
+            return Err(LunifyError::StackTooLarge(maximum_stack_size as u64));
+        }
+
         Ok(Self {
             source_file,
             line_defined,
-- 
2.43.0


From cd5036248655d2e852b19e2164923d15926125fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 14/17] fix: add every value of a table constructor at its
 index

---
 src/function/builder.rs | 151 +++++++++++++++++++++++++++++++++++++++-
 src/function/convert.rs |  86 ++++-------------------
 src/function/upcast.rs  |  85 +++-------------------
 3 files changed, 171 insertions(+), 151 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 54eb0e6..0071562 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,6 @@
+use std::ops::Range;
+
+use super::instruction::{Generic, LuaInstruction, Register, BC};
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -72,8 +75,8 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
-        &mut self.contexts[index].instruction
+    pub(super) fn last_instruction(&self) -> Option<&Instruction> {
+        self.contexts.last().map(|context| &context.instruction)
     }
 
     pub(super) fn get_program_counter(&self) -> usize {
@@ -119,6 +122,150 @@ impl FunctionBuilder {
         Ok(((program_counter as i64) + new_bx).max(0) as usize)
     }
 
+    /// Find the closest preceding instruction that started or continued
+    /// populating the table at `a`.
+    fn find_table_setup(&self, a: u64) -> Option<usize> {
+        self.contexts.iter().rposition(|context| match context.instruction {
+            Instruction::NewTable { a: table, .. } | Instruction::SetList { a: table, .. } => table == a,
+            _ => false,
+        })
+    }
+
+    /// Get the index of the instruction following the expression that ends up
+    /// in `register`.
+    fn end_of_expression(&mut self, register: u64, start: usize, end: usize) -> usize {
+        let writes_register = |context: &InstructionContext| match context.instruction.stack_destination() {
+            Some(destination) => (destination.start..=destination.end).contains(&register),
+            None => false,
+        };
+
+        let Some(offset) = self.contexts[start..end].iter().rposition(writes_register) else {
+            return start;
+        };
+
+        let index = start + offset;
+        let mut end_index = index + 1;
+
+        match self.contexts[index].instruction {
+            // Multiple nil values are set by a single instruction, so it needs to be split if some
+            // of them are for the next page.
+            Instruction::LoadNil { a, mode: BC(b, unused) } if b.0 > register => {
+                self.contexts[index].instruction = Instruction::LoadNil {
+                    a,
+                    mode: BC(Register(register), unused),
+                };
+
+                let line_number = self.line_info[index];
+                let remaining = Instruction::LoadNil {
+                    a: register + 1,
+                    mode: BC(b, unused),
+                };
+                self.contexts.insert(end_index, InstructionContext::new_extra(remaining));
+                self.line_info.insert(end_index, line_number);
+            }
+            // The instructions capturing the upvalues are part of the closure.
+            Instruction::Closure { .. } => {
+                let captures_upvalue = |instruction| matches!(instruction, Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. });
+
+                while end_index < end && captures_upvalue(self.contexts[end_index].instruction) {
+                    end_index += 1;
+                }
+            }
+            _ => {}
+        }
+
+        end_index
+    }
+
+    /// Insert a `SETLIST` at the given index. Jumps to the instruction that was
+    /// at this index before will lead to the `SETLIST` instead.
+    fn insert_set_list(&mut self, index: usize, instruction: Instruction) {
+        self.insert_extra_instruction(index, instruction);
+
+        if index + 1 < self.contexts.len() {
+            self.contexts[index].line_weight = self.contexts[index + 1].line_weight;
+            self.contexts[index + 1].line_weight = 1;
+        }
+    }
+
+    fn move_stack_accesses(&mut self, range: Range<usize>, stack_start: u64, offset: i64) {
+        self.contexts[range]
+            .iter_mut()
+            .for_each(|context| context.instruction.move_stack_accesses(stack_start, offset));
+    }
+
+    /// Add the `count` values on the stack above `a` to the table at `a`,
+    /// following the `base` values that were added previously. If `is_open` is
+    /// set, an open number of values follows the `count` values.
+    ///
+    /// Every `SETLIST` except for the last one needs to add exactly
+    /// `fields_per_flush` values, so values that were previously added in one
+    /// go might need to be added separately and vice versa.
+    pub(super) fn set_list(&mut self, a: u64, base: u64, count: u64, is_open: bool, settings: &Settings) -> Result<(), LunifyError> {
+        let fields_per_flush = settings.output.fields_per_flush;
+        let page = base / fields_per_flush;
+        // Number of previously added values that are on the same page as our first
+        // value.
+        let pending = base % fields_per_flush;
+        let total = pending.saturating_add(count);
+
+        let highest_register = a.saturating_add(count.max(total.min(fields_per_flush)));
+        if highest_register > u8::MAX as u64 {
+            return Err(LunifyError::StackTooLarge(highest_register.saturating_add(1)));
+        }
+
+        let full_pages = match is_open {
+            true => total / fields_per_flush,
+            false => total.saturating_sub(1) / fields_per_flush,
+        };
+
+        if pending > 0 || full_pages > 0 {
+            let setup_index = self.find_table_setup(a);
+            let mut start = setup_index.map(|index| index + 1).unwrap_or_default();
+
+            // The pending values need to be added together with our values.
+            if let Some(index) = setup_index {
+                let is_set_list = matches!(self.contexts[index].instruction, Instruction::SetList { .. });
+
+                if pending > 0 && is_set_list && start < self.contexts.len() {
+                    self.remove_instruction(index);
+                    start = index;
+                }
+            }
+
+            // Add all pages that are full.
+            let mut end = self.contexts.len();
+            for full_page in (1..=full_pages).rev() {
+                let last_register = a + fields_per_flush * full_page - pending;
+                let instruction_count = self.contexts.len();
+                let index = self.end_of_expression(last_register, start, end);
+                end += self.contexts.len() - instruction_count;
+
+                self.move_stack_accesses(index..end, last_register + 1, pending as i64 - (fields_per_flush * full_page) as i64);
+                self.insert_set_list(index, Instruction::SetList {
+                    a,
+                    mode: BC(Generic(fields_per_flush), Generic(page + full_page)),
+                });
+
+                end = index;
+            }
+
+            self.move_stack_accesses(start..end, a + 1, pending as i64);
+        }
+
+        let remaining = match is_open {
+            true => 0,
+            false => total - full_pages * fields_per_flush,
+        };
+
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(Generic(remaining), Generic(page + full_pages + 1)),
+        });
+
+        Ok(())
+    }
+
     pub(super) fn finalize(
         mut self,
         maximum_stack_size: &mut u8,
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 97bcd7f..3dc2785 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,7 +1,7 @@
 use std::iter::repeat;
 
 use super::builder::FunctionBuilder;
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -29,81 +29,19 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
+                let base = c.0.saturating_sub(1).saturating_mul(settings.lua51.fields_per_flush);
+                let is_open = b.0 == 0;
+
+                // If the number of values is open, the values in front of the open part are
+                // delimited by the instruction that pushed the open part.
+                let count = match builder.last_instruction() {
+                    Some(lua51::Instruction::Call { a: open, .. } | lua51::Instruction::VarArg { a: open, .. }) if is_open => {
+                        open.saturating_sub(a + 1)
                     }
-                }
+                    _ => b.0,
+                };
 
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, base, count, is_open, settings)?;
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index d564b77..0a53370 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -2,7 +2,7 @@ use std::iter::repeat;
 
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -240,82 +240,17 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
-                // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
+                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction.
+                let is_open = matches!(instruction, lua50::Instruction::SetListO { .. });
+                let offset = bx % settings.lua50.fields_per_flush;
+
+                // `SETLISTO` specifies the index of the first value of the open part.
+                let count = match is_open {
+                    true => offset,
+                    false => offset + 1,
                 };
 
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, bx - offset, count, is_open, settings)?;
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From 17498296cfe7fd3f94f34bed4b7a2aaeafff7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 15/17] fix: adjust the active range of local variables to the
 rewritten code

---
 src/function/builder.rs | 33 +++++++++++++++++++++++++++++++++
 src/function/convert.rs | 16 +++++++++++++++-
 src/function/mod.rs     | 14 ++++++++++----
 src/function/upcast.rs  | 28 +++++++++++++++++++++++++++-
 4 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 0071562..8530a5b 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,6 +1,7 @@
 use std::ops::Range;
 
 use super::instruction::{Generic, LuaInstruction, Register, BC};
+use super::local::LocalVariable;
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -266,6 +267,38 @@ impl FunctionBuilder {
         Ok(())
     }
 
+    /// Adjust the range of instructions in which the local variables are
+    /// active.
+    pub(super) fn adjust_local_variables(&self, local_variables: &mut [LocalVariable]) {
+        // Position of every instruction in the original byte code.
+        let mut positions = Vec::new();
+        let mut original_count = 0;
+
+        for (position, context) in self.contexts.iter().enumerate() {
+            original_count += 1 - context.line_weight;
+
+            while (positions.len() as i64) < original_count {
+                positions.push(position as i64);
+            }
+        }
+
+        positions.push(self.contexts.len() as i64);
+
+        let adjust = |program_counter: &mut i64| {
+            // Parameters are active from the very beginning.
+            if *program_counter > 0 {
+                if let Some(position) = positions.get(*program_counter as usize) {
+                    *program_counter = *position;
+                }
+            }
+        };
+
+        for local_variable in local_variables {
+            adjust(&mut local_variable.start_program_counter);
+            adjust(&mut local_variable.end_program_counter);
+        }
+    }
+
     pub(super) fn finalize(
         mut self,
         maximum_stack_size: &mut u8,
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 3dc2785..a0eba17 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,13 +1,15 @@
 use std::iter::repeat;
 
 use super::builder::FunctionBuilder;
+use super::local::LocalVariable;
 use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
-pub(crate) fn convert(
+pub(crate) fn convert_with_local_variables(
     instructions: Vec<lua51::Instruction>,
     line_info: Vec<i64>,
     maximum_stack_size: &mut u8,
+    local_variables: &mut [LocalVariable],
     settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
     // If `fields_per_flush` is the same, there is nothing to convert, so return
@@ -47,6 +49,8 @@ pub(crate) fn convert(
         };
     }
 
+    builder.adjust_local_variables(local_variables);
+
     let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
 
     match is_stripped {
@@ -55,6 +59,16 @@ pub(crate) fn convert(
     }
 }
 
+#[cfg(test)]
+pub(crate) fn convert(
+    instructions: Vec<lua51::Instruction>,
+    line_info: Vec<i64>,
+    maximum_stack_size: &mut u8,
+    settings: &Settings,
+) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+    convert_with_local_variables(instructions, line_info, maximum_stack_size, &mut [], settings)
+}
+
 #[cfg(test)]
 mod tests {
     use super::{lua51, BC};
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 6894f4e..2e1bd4c 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -8,11 +8,15 @@ mod upcast;
 use std::fmt::Debug;
 
 use self::constant::Constant;
+#[cfg(test)]
 use self::convert::convert;
+use self::convert::convert_with_local_variables;
 use self::instruction::LuaInstruction;
 pub use self::instruction::{lua50, lua51, InstructionLayout, OperandType, Settings};
 use self::local::LocalVariable;
+#[cfg(test)]
 use self::upcast::upcast;
+use self::upcast::upcast_with_local_variables;
 use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
@@ -250,18 +254,19 @@ impl Function {
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
 
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
-            let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            let (instructions, line_info) =
+                convert_with_local_variables(instructions, line_info, &mut maximum_stack_size, &mut local_variables, settings)?;
             let instructions = Self::strip_instructions(instructions, settings)?;
 
             (instructions, constants, functions, line_info, local_variables, upvalues)
         } else {
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, depth)?;
@@ -274,13 +279,14 @@ impl Function {
             }
 
             // Up-cast instructions from Lua 5.0 to Lua 5.1.
-            let (instructions, line_info) = upcast(
+            let (instructions, line_info) = upcast_with_local_variables(
                 instructions,
                 line_info,
                 &mut constants,
                 &mut maximum_stack_size,
                 parameter_count,
                 is_variadic != 0,
+                &mut local_variables,
                 settings,
             )?;
 
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 0a53370..b352d16 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -3,15 +3,17 @@ use std::iter::repeat;
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
+use super::local::LocalVariable;
 use crate::LunifyError;
 
-pub(crate) fn upcast(
+pub(crate) fn upcast_with_local_variables(
     instructions: Vec<lua50::Instruction>,
     line_info: Vec<i64>,
     constants: &mut Vec<Constant>,
     maximum_stack_size: &mut u8,
     parameter_count: u8,
     is_variadic: bool,
+    local_variables: &mut [LocalVariable],
     settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
     let mut builder = FunctionBuilder::default();
@@ -294,6 +296,8 @@ pub(crate) fn upcast(
         });
     }
 
+    builder.adjust_local_variables(local_variables);
+
     let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
 
     match is_stripped {
@@ -302,6 +306,28 @@ pub(crate) fn upcast(
     }
 }
 
+#[cfg(test)]
+pub(crate) fn upcast(
+    instructions: Vec<lua50::Instruction>,
+    line_info: Vec<i64>,
+    constants: &mut Vec<Constant>,
+    maximum_stack_size: &mut u8,
+    parameter_count: u8,
+    is_variadic: bool,
+    settings: &Settings,
+) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+    upcast_with_local_variables(
+        instructions,
+        line_info,
+        constants,
+        maximum_stack_size,
+        parameter_count,
+        is_variadic,
+        &mut [],
+        settings,
+    )
+}
+
 #[cfg(test)]
 mod tests {
     use super::{lua50, lua51, Bx, BC};
-- 
2.43.0


From d51015f5fa1a7b5777c071d956f5190ece08fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 16/17] fix: check that the limit and the step of converted for
 loops are numbers

---
 src/function/builder.rs | 27 ++++++++++++++++++++++++++-
 src/function/upcast.rs  |  4 ++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 8530a5b..fcccb8c 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,6 +1,6 @@
 use std::ops::Range;
 
-use super::instruction::{Generic, LuaInstruction, Register, BC};
+use super::instruction::{ConstantRegister, Generic, LuaInstruction, Register, SignedBx, BC};
 use super::local::LocalVariable;
 use super::Settings;
 use crate::lua51::Instruction;
@@ -112,6 +112,31 @@ impl FunctionBuilder {
         }
     }
 
+    /// In Lua 5.0 the preparation of a numeric for loop is a `SUB` followed by a
+    /// `JMP` to the `FORLOOP`. Replace the `SUB` with a `FORPREP`, which
+    /// additionally makes sure that all values of the loop are numbers.
+    ///
+    /// `position` is the position of the loop body.
+    pub(super) fn prepare_for_loop(&mut self, position: usize, loop_register: u64, bx: i64) {
+        let Some(subtract_index) = position.checked_sub(2) else {
+            return;
+        };
+
+        let is_jump = matches!(self.contexts[position - 1].instruction, Instruction::Jump { mode, .. } if mode.0 == -bx - 1);
+        let is_subtract = self.contexts[subtract_index].instruction
+            == Instruction::Subtract {
+                a: loop_register,
+                mode: BC(ConstantRegister(loop_register, false), ConstantRegister(loop_register + 2, false)),
+            };
+
+        if is_jump && is_subtract {
+            self.contexts[subtract_index].instruction = Instruction::ForPrep {
+                a: loop_register,
+                mode: SignedBx(0),
+            };
+        }
+    }
+
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
         if !bx.is_negative() {
             return Err(LunifyError::UnexpectedForwardJump);
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index b352d16..532ebc4 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -83,6 +83,10 @@ pub(crate) fn upcast_with_local_variables(
                 // make the old Bx invalid.
                 let position = builder.adjusted_jump_destination(mode.0)?;
 
+                // Unlike Lua 5.0, the `FORLOOP` instruction of Lua 5.1 doesn't check that the limit
+                // and the step are numbers.
+                builder.prepare_for_loop(position, a, mode.0);
+
                 // Instruction to restore RA+3 if we take the jump.
                 // This instruction is actually inserted *before* the `SETGLOBAL` instruction,
                 // but this works because of the way that for loops are
-- 
2.43.0


From 9d81bc6f09041e763d0e3109664e504f1074ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 17/17] fix: reject generic for loops with too many variables
 before expanding them

---
 src/function/upcast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 532ebc4..ecbc0be 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -120,6 +120,13 @@ pub(crate) fn upcast_with_local_variables(
                     let call_base = a + variable_count + 2;
                     let constant_nil = constant_manager.constant_nil();
 
+                    // Every variable is moved by an instruction of its own, so make sure that they
+                    // fit on the stack before generating any of them.
+                    let stack_size = call_base + variable_count;
+                    if stack_size > settings.output.stack_limit {
+                        return Err(LunifyError::StackTooLarge(stack_size));
+                    }
+
                     // Move the iterator function, the table and the index to our call base.
                     builder.instruction(lua51::Instruction::Move {
                         a: call_base,
-- 
2.43.0

