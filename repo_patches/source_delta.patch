From 2784a1d50c8241634e891f848cbc78937c534829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 01/62] fix: give integer constants the C type int (or the
 first wider type that holds them)

---
 src/middle_end/instructions.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..f439bb0 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -16,22 +16,13 @@ pub enum Constant {
 impl Constant {
     pub fn get_type(&self, expected: Option<IrType>) -> IrType {
         match self {
-            Constant::Int(i) => {
+            Constant::Int(_) => {
                 if let Some(t) = expected {
                     if t.is_integral_type() {
                         return t;
                     }
                 }
-                match i {
-                    0..=255 => IrType::U8,
-                    -128..=127 => IrType::I8,
-                    0..=65_535 => IrType::U16,
-                    -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
-                    -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=18_446_744_073_709_551_615 => IrType::U64,
-                    _ => IrType::I64,
-                }
+                self.get_type_minimum_i32()
             }
             Constant::Float(_) => IrType::F64,
         }
@@ -39,11 +30,12 @@ impl Constant {
 
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
+            // the first type that can represent the value
             Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
                 -2_147_483_648..=2_147_483_647 => IrType::I32,
-                0..=18_446_744_073_709_551_615 => IrType::U64,
-                _ => IrType::I64,
+                0..=4_294_967_295 => IrType::U32,
+                -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                _ => IrType::U64,
             },
             Constant::Float(_) => IrType::F64,
         }
-- 
2.43.0


From 48c5f966c248b27be40b9c5962b6ca018589f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 02/62] fix: preserve the value in every arithmetic and pointer
 conversion

---
 .../dataflow_analysis/instruction_def_ref.rs  |   6 +
 .../stack_allocation/get_vars_from_block.rs   |   3 +
 src/back_end/target_code_generation.rs        |  57 ++++
 src/middle_end/instructions.rs                |  17 +-
 src/middle_end/type_conversions.rs            | 273 ++++++++++++------
 5 files changed, 272 insertions(+), 84 deletions(-)

diff --git a/src/back_end/dataflow_analysis/instruction_def_ref.rs b/src/back_end/dataflow_analysis/instruction_def_ref.rs
index 4205ad9..447cbb0 100644
--- a/src/back_end/dataflow_analysis/instruction_def_ref.rs
+++ b/src/back_end/dataflow_analysis/instruction_def_ref.rs
@@ -57,6 +57,9 @@ pub fn def_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::I64toF64(_, dest, _)
         | Instruction::F32toF64(_, dest, _)
         | Instruction::F64toI32(_, dest, _)
+        | Instruction::F64toI64(_, dest, _)
+        | Instruction::F64toU64(_, dest, _)
+        | Instruction::F64toF32(_, dest, _)
         | Instruction::I32toI8(_, dest, _)
         | Instruction::U32toI8(_, dest, _)
         | Instruction::I64toI8(_, dest, _)
@@ -114,6 +117,9 @@ pub fn ref_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::I64toF64(_, _, src)
         | Instruction::F32toF64(_, _, src)
         | Instruction::F64toI32(_, _, src)
+        | Instruction::F64toI64(_, _, src)
+        | Instruction::F64toU64(_, _, src)
+        | Instruction::F64toF32(_, _, src)
         | Instruction::I32toI8(_, _, src)
         | Instruction::U32toI8(_, _, src)
         | Instruction::I64toI8(_, _, src)
diff --git a/src/back_end/stack_allocation/get_vars_from_block.rs b/src/back_end/stack_allocation/get_vars_from_block.rs
index 06cba07..668616a 100644
--- a/src/back_end/stack_allocation/get_vars_from_block.rs
+++ b/src/back_end/stack_allocation/get_vars_from_block.rs
@@ -114,6 +114,9 @@ fn get_vars_from_instrs(
             | Instruction::I64toF64(_, dest, _)
             | Instruction::F32toF64(_, dest, _)
             | Instruction::F64toI32(_, dest, _)
+            | Instruction::F64toI64(_, dest, _)
+            | Instruction::F64toU64(_, dest, _)
+            | Instruction::F64toF32(_, dest, _)
             | Instruction::I32toI8(_, dest, _)
             | Instruction::U32toI8(_, dest, _)
             | Instruction::I64toI8(_, dest, _)
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..57dfddf 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -2177,6 +2177,63 @@ fn convert_ir_instr_to_wasm(
                 prog_metadata,
             );
         }
+        Instruction::F64toI64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to i64
+            temp_instrs.push(WasmInstruction::I64TruncF64S);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toU64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to u64
+            temp_instrs.push(WasmInstruction::I64TruncF64U);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toF32(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to f32
+            temp_instrs.push(WasmInstruction::F32DemoteF64);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
         Instruction::Nop(..) => {
             // do nothing
         }
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index f439bb0..5a75292 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -218,6 +218,10 @@ pub enum Instruction {
 
     // double to int
     F64toI32(InstructionId, Dest, Src),
+    F64toI64(InstructionId, Dest, Src),
+    F64toU64(InstructionId, Dest, Src),
+    // double to float
+    F64toF32(InstructionId, Dest, Src),
 
     // integer truncation
     I32toI8(InstructionId, Dest, Src),
@@ -316,6 +320,9 @@ impl Instruction {
             | Instruction::I64toF64(id, _, _)
             | Instruction::F32toF64(id, _, _)
             | Instruction::F64toI32(id, _, _)
+            | Instruction::F64toI64(id, _, _)
+            | Instruction::F64toU64(id, _, _)
+            | Instruction::F64toF32(id, _, _)
             | Instruction::I32toI8(id, _, _)
             | Instruction::U32toI8(id, _, _)
             | Instruction::I64toI8(id, _, _)
@@ -474,18 +481,22 @@ impl fmt::Display for Instruction {
             | Instruction::I32toU32(id, dest, src) => {
                 write!(f, "[{id}] {dest} = (U32) {src}")
             }
-            Instruction::I32toI64(id, dest, src) | Instruction::U32toI64(id, dest, src) => {
+            Instruction::I32toI64(id, dest, src)
+            | Instruction::U32toI64(id, dest, src)
+            | Instruction::F64toI64(id, dest, src) => {
                 write!(f, "[{id}] {dest} = (I64) {src}")
             }
             Instruction::I32toU64(id, dest, src)
             | Instruction::U32toU64(id, dest, src)
-            | Instruction::I64toU64(id, dest, src) => {
+            | Instruction::I64toU64(id, dest, src)
+            | Instruction::F64toU64(id, dest, src) => {
                 write!(f, "[{id}] {dest} = (U64) {src}")
             }
             Instruction::U32toF32(id, dest, src)
             | Instruction::I32toF32(id, dest, src)
             | Instruction::U64toF32(id, dest, src)
-            | Instruction::I64toF32(id, dest, src) => {
+            | Instruction::I64toF32(id, dest, src)
+            | Instruction::F64toF32(id, dest, src) => {
                 write!(f, "[{id}] {dest} = (F32) {src}")
             }
             Instruction::U32toF64(id, dest, src)
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..17b22d5 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -317,26 +317,16 @@ pub fn get_type_conversion_instrs(
         return Ok((instrs, src));
     }
     match (src_type, dest_type) {
-        // char promotions
+        // char and short promotions: first widen to the next signed type, which can
+        // represent every value of the source type
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I8toI16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I16;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I8toU16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U16;
-            }
+            let intermediate_type = IrType::I16;
+            instrs.push(Instruction::I8toI16(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -347,31 +337,14 @@ pub fn get_type_conversion_instrs(
             instrs.append(&mut convert_instrs);
             Ok((instrs, dest))
         }
-        // (IrType::U8, IrType::I8) => {
-        //     let dest = prog.new_var(src.get_value_type());
-        //     instrs.push(Instruction::U8toI8(dest.to_owned(), src));
-        //     prog.add_var_type(dest.to_owned, Box::new(dest.to_owned()))?;
-        //     Ok((instrs, dest))
-        // }
         (IrType::U8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::U8toI16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I16;
-            } else {
-                // unsigned
-                instrs.push(Instruction::U8toU16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U16;
-            }
+            let intermediate_type = IrType::I16;
+            instrs.push(Instruction::U8toI16(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -384,23 +357,12 @@ pub fn get_type_conversion_instrs(
         }
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I16toI32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I32;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I16toU32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U32;
-            }
+            let intermediate_type = IrType::I32;
+            instrs.push(Instruction::I16toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -413,23 +375,12 @@ pub fn get_type_conversion_instrs(
         }
         (IrType::U16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::U16toI32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I32;
-            } else {
-                // unsigned
-                instrs.push(Instruction::U16toU32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U32;
-            }
+            let intermediate_type = IrType::I32;
+            instrs.push(Instruction::U16toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -510,10 +461,10 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::I32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        // integer to pointer
+        (IrType::I32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::I32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -582,10 +533,10 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::U32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        // integer to pointer
+        (IrType::U32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::U32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -706,6 +657,64 @@ pub fn get_type_conversion_instrs(
             Ok((instrs, Src::Var(dest)))
         }
 
+        // dest and src are held as the same wasm type, so storing to dest converts
+        (IrType::I32, dest_type @ IrType::I16)
+        | (IrType::I32, dest_type @ IrType::U16)
+        | (IrType::U32, dest_type @ IrType::I16)
+        | (IrType::U32, dest_type @ IrType::U16)
+        | (IrType::U32, dest_type @ IrType::I32)
+        | (IrType::U64, dest_type @ IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // 64-bit to 16-bit or unsigned 32-bit: via int
+        (
+            IrType::I64,
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::U32 | IrType::PointerTo(_)),
+        ) => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::I64toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::I32,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+        (
+            IrType::U64,
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::U32 | IrType::PointerTo(_)),
+        ) => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::U64toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::I32,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+
         (IrType::F32, IrType::F64) => {
             let dest = prog.new_var(src.get_value_type());
             prog.add_var_type(dest.to_owned(), IrType::F64)?;
@@ -716,6 +725,90 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // float to integer: via double
+        (IrType::F32, dest_type) if dest_type.is_integral_type() => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::F64)?;
+            instrs.push(Instruction::F32toF64(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::F64,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+        (IrType::F64, IrType::F32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::F32)?;
+            instrs.push(Instruction::F64toF32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::I64)?;
+            instrs.push(Instruction::F64toI64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::U64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U64)?;
+            instrs.push(Instruction::F64toU64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // double to char or short: via int
+        (IrType::F64, dest_type @ (IrType::I8 | IrType::U8 | IrType::I16 | IrType::U16)) => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::F64toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::I32,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+        // double to unsigned int: via long
+        (IrType::F64, dest_type @ IrType::U32) => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::I64)?;
+            instrs.push(Instruction::F64toI64(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::I64,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
         (IrType::F64, IrType::I32) => {
             let dest = prog.new_var(src.get_value_type());
             prog.add_var_type(dest.to_owned(), IrType::I32)?;
@@ -760,6 +853,24 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // pointer to other integer types: via int
+        (IrType::PointerTo(_), dest_type) if dest_type.is_integral_type() => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::PtrToI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::I32,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
         (s, d) => Err(MiddleEndError::TypeConversionError(
             "Cannot convert type",
             s,
-- 
2.43.0


From faacb0cbd84cc8018e105de47e7691f09334c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 03/62] fix: parse sign, prefix, base and out-of-range values
 in strtol and strtoul as C does

---
 runtime/stdlib/stdlib.mjs | 84 +++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..14a6ce4 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -1,6 +1,44 @@
-import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
+import {I32_SIZE, I64_SIZE, MAX_I64, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
-import {signed_to_unsigned_i64} from "../number_operations.mjs";
+
+const LONG_MAX = MAX_I64 / 2n - 1n;
+const LONG_MIN = -(MAX_I64 / 2n);
+const ULONG_MAX = MAX_I64 - 1n;
+
+// parse the integer at the start of str, in the given base (0 to detect the base from the prefix)
+// returns the sign, the magnitude, and the index of the first char after the number,
+// which is 0 if there is no number
+function parse_integer(str, base) {
+    let i = 0;
+    // skip initial whitespace
+    while (i < str.length && " \t\n\v\f\r".includes(str[i])) {
+        i++;
+    }
+    let is_negative = false;
+    if (str[i] === "+" || str[i] === "-") {
+        is_negative = str[i] === "-";
+        i++;
+    }
+    const digit_value = (c) => {
+        const value = /^[0-9A-Za-z]$/.test(c) ? parseInt(c, 36) : 36;
+        return value < base ? value : -1;
+    };
+    // optional hex prefix, which must be followed by a hex digit
+    if ((base === 0 || base === 16) && /^0[xX][0-9A-Fa-f]/.test(str.slice(i, i + 3))) {
+        base = 16;
+        i += 2;
+    } else if (base === 0) {
+        base = str[i] === "0" ? 8 : 10;
+    }
+    let magnitude = 0n;
+    let end = 0;
+    while (i < str.length && digit_value(str[i]) !== -1) {
+        magnitude = magnitude * BigInt(base) + BigInt(digit_value(str[i]));
+        i++;
+        end = i;
+    }
+    return {is_negative, magnitude, end};
+}
 
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
@@ -17,19 +55,17 @@ export function strtol(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        const {is_negative, magnitude, end} = parse_integer(str, Number(base));
+        let result = is_negative ? -magnitude : magnitude;
+        // out of range values are clamped
+        if (result > LONG_MAX) {
+            result = LONG_MAX;
+        } else if (result < LONG_MIN) {
+            result = LONG_MIN;
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
+            let end_ptr_value = str_ptr + end;
             store_ptr(end_ptr, end_ptr_value, memory);
         }
 
@@ -53,20 +89,18 @@ export function strtoul(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        const {is_negative, magnitude, end} = parse_integer(str, Number(base));
+        let unsigned_result;
+        if (magnitude > ULONG_MAX) {
+            // out of range values are clamped
+            unsigned_result = ULONG_MAX;
+        } else {
+            // a negated value wraps around
+            unsigned_result = BigInt.asUintN(64, is_negative ? -magnitude : magnitude);
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
+            let end_ptr_value = str_ptr + end;
             store_ptr(end_ptr, end_ptr_value, memory);
         }
 
-- 
2.43.0


From a3bc0c5ceb95c2858a52450899d6fc64f3cade81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 04/62] fix: convert call arguments and return values to the
 declared types

Arguments are converted to the parameter type, extra arguments of variadic
functions get the default promotions (so printf reads %c and %h as int, and
prints %f with six digits), returned values are converted to the return type,
and calls with the wrong number of arguments are rejected.
---
 runtime/stdlib/stdio.mjs       | 47 ++++++++++++++++++++++++++--------
 src/middle_end/ast_to_ir.rs    | 44 ++++++++++++++++++++++++++++---
 src/middle_end/context.rs      |  3 +++
 src/middle_end/instructions.rs | 14 ++++++++++
 4 files changed, 95 insertions(+), 13 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..42fe2af 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -1,9 +1,7 @@
 import {
     F64_SIZE,
-    I16_SIZE,
     I32_SIZE,
     I64_SIZE,
-    I8_SIZE,
     PTR_SIZE,
 } from "../memory_constants.mjs";
 import {
@@ -16,6 +14,33 @@ import {
 } from "../memory_operations.mjs";
 import {signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
 
+// format a double with 6 digits after the decimal point, as specified by %f
+function format_double(value) {
+    if (Number.isNaN(value)) {
+        return "nan";
+    }
+    const sign = value < 0 || Object.is(value, -0) ? "-" : "";
+    const magnitude = Math.abs(value);
+    if (magnitude === Infinity) {
+        return `${sign}inf`;
+    }
+    // write the exact value as an integer multiple of 2^-1074
+    const bits = new BigUint64Array(new Float64Array([magnitude]).buffer)[0];
+    const exponent = bits >> 52n;
+    const mantissa = bits & ((1n << 52n) - 1n);
+    const exact = exponent === 0n ? mantissa : ((1n << 52n) | mantissa) << (exponent - 1n);
+    // round to the nearest multiple of 10^-6, ties to even
+    const scaled = exact * 1_000_000n;
+    let digits = scaled >> 1074n;
+    const remainder = scaled & ((1n << 1074n) - 1n);
+    const half = 1n << 1073n;
+    if (remainder > half || (remainder === half && (digits & 1n) === 1n)) {
+        digits += 1n;
+    }
+    const padded = digits.toString().padStart(7, "0");
+    return `${sign}${padded.slice(0, -6)}.${padded.slice(-6)}`;
+}
+
 // print a null-terminated string from memory to console
 // int printf(const char *format, ...);
 export function printf(wasm_memory) {
@@ -74,7 +99,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // passed as an int, and converted back to short
+                            value = BigInt.asIntN(16, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -92,12 +118,12 @@ export function printf(wasm_memory) {
                             break;
                         case "f":
                             // double
-                            value = next_vararg_double();
+                            value = format_double(next_vararg_double());
                             break;
                         case "c":
-                            // char
-                            value = next_vararg_int(I8_SIZE);
-                            value = String.fromCharCode(value);
+                            // char, passed as an int
+                            value = next_vararg_int(I32_SIZE);
+                            value = String.fromCharCode(Number(BigInt.asUintN(8, value)));
                             break;
                         case "s":
                             // string
@@ -118,9 +144,10 @@ export function printf(wasm_memory) {
             c = next_char();
         }
 
-        process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
+        // each char of the string is one byte of output
+        process.stdout.write(Buffer.from(str, "latin1")); // only works in node.js, use console.log otherwise, but that prints newline
 
-        // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        // write return value: the number of bytes printed
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..a790048 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -78,7 +78,18 @@ fn convert_statement_to_ir(
             Some(expr) => {
                 let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
                 instrs.append(&mut expr_instrs);
-                instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
+                // convert the value to the return type of the function
+                let return_type = context.function_return_type.to_owned();
+                match return_type {
+                    Some(return_type) if return_type != IrType::Void => {
+                        let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                        let (mut convert_instrs, converted_var) =
+                            convert_type_for_assignment(expr_var, expr_var_type, return_type, prog)?;
+                        instrs.append(&mut convert_instrs);
+                        instrs.push(Instruction::Ret(prog.new_instr_id(), Some(converted_var)));
+                    }
+                    _ => instrs.push(Instruction::Ret(prog.new_instr_id(), None)),
+                }
             }
         },
         Statement::While(cond, body) => {
@@ -682,6 +693,10 @@ fn convert_statement_to_ir(
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
+            context.function_return_type = match &type_info {
+                IrType::Function(return_type, _, _) => Some(*return_type.to_owned()),
+                _ => None,
+            };
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
@@ -846,12 +861,35 @@ pub fn convert_expression_to_ir(
             // must be a function name to be able to be called
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
+            let (param_types, is_variadic) = fun_var.get_function_param_types(prog)?;
+            // a function declared without parameters may be called with any arguments
+            let has_prototype = !param_types.is_empty();
+            if has_prototype
+                && (params.len() < param_types.len()
+                    || (params.len() > param_types.len() && !is_variadic))
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Wrong number of arguments in function call",
+                ));
+            }
 
             let mut param_srcs: Vec<Src> = Vec::new();
-            for param in params {
+            for (i, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
+                // convert the argument to the type of the parameter, or if it has no
+                // corresponding parameter, apply the default argument promotions
+                let param_var_type = param_var.get_type(&prog.program_metadata)?;
+                let converted_type = match param_types.get(i) {
+                    Some(param_type) => array_to_pointer_type(param_type.to_owned()),
+                    None => match param_var_type.unary_convert() {
+                        IrType::F32 => IrType::F64,
+                        t => t,
+                    },
+                };
+                let (mut convert_instrs, param_var) =
+                    convert_type_for_assignment(param_var, param_var_type, converted_type, prog)?;
+                instrs.append(&mut convert_instrs);
                 param_srcs.push(param_var);
             }
             let dest = prog.new_var(ValueType::RValue);
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..58d6c70 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -15,6 +15,8 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    /// return type of the function we're currently converting
+    pub function_return_type: Option<IrType>,
 }
 
 pub enum IdentifierResolveResult {
@@ -30,6 +32,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            function_return_type: None,
         }
     }
 
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index 5a75292..4933f99 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -101,6 +101,20 @@ impl Src {
         }
     }
 
+    /// the parameter types of a function, and whether it's variadic
+    pub fn get_function_param_types(
+        &self,
+        prog: &Program,
+    ) -> Result<(Vec<IrType>, bool), MiddleEndError> {
+        match self {
+            Src::Fun(fun_id) => match prog.get_fun_type(fun_id)? {
+                IrType::Function(_, param_types, is_variadic) => Ok((param_types, is_variadic)),
+                _ => Err(MiddleEndError::UnwrapNonFunctionType),
+            },
+            _ => Err(MiddleEndError::UnwrapNonFunctionType),
+        }
+    }
+
     pub fn unwrap_var(&self) -> Result<VarId, MiddleEndError> {
         match self {
             Src::Var(var_id) | Src::StoreAddressVar(var_id) => Ok(var_id.to_owned()),
-- 
2.43.0


From ddecee0b3384e08198d38eec8f61bd17a3d0b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 05/62] fix: test floating-point conditions correctly and
 evaluate the right operand of && and || only when needed

---
 src/middle_end/ast_to_ir.rs | 124 ++++++++++++++++++++++++++----------
 1 file changed, 91 insertions(+), 33 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a790048..8a12f45 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -105,7 +105,7 @@ fn convert_statement_to_ir(
                 loop_end_label.to_owned(),
             ));
             // while condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump out of loop if condition false
             instrs.push(Instruction::BrIfEq(
@@ -140,7 +140,7 @@ fn convert_statement_to_ir(
             // continue label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_continue_label));
             // loop condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump back to start of loop if condition true
 
@@ -194,7 +194,7 @@ fn convert_statement_to_ir(
                     Src::Var(temp)
                 }
                 Some(e) => {
-                    let (mut expr_instrs, expr_var) = convert_expression_to_ir(e, prog, context)?;
+                    let (mut expr_instrs, expr_var) = convert_condition_to_ir(e, prog, context)?;
                     instrs.append(&mut expr_instrs);
                     expr_var
                 }
@@ -225,7 +225,7 @@ fn convert_statement_to_ir(
         }
         Statement::If(cond, body) => {
             // if statement condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to after body
             let if_end_label = prog.new_label();
@@ -241,7 +241,7 @@ fn convert_statement_to_ir(
             instrs.push(Instruction::Label(prog.new_instr_id(), if_end_label));
         }
         Statement::IfElse(cond, true_body, false_body) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to else body
             let else_label = prog.new_label();
@@ -714,6 +714,37 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// Convert an expression whose value is tested for being zero. The result can be
+/// compared with integer 0.
+fn convert_condition_to_ir(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+    let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
+    instrs.append(&mut unary_convert_instrs);
+    let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+    expr_var_type.require_scalar_type()?;
+    match expr_var_type {
+        IrType::F32 | IrType::F64 => {
+            let (mut compare_instrs, expr_var, zero) =
+                binary_convert(expr_var, Src::Constant(Constant::Float(0.)), prog)?;
+            instrs.append(&mut compare_instrs);
+            let is_non_zero = prog.new_var(ValueType::RValue);
+            prog.add_var_type(is_non_zero.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::NotEqual(
+                prog.new_instr_id(),
+                is_non_zero.to_owned(),
+                expr_var,
+                zero,
+            ));
+            Ok((instrs, Src::Var(is_non_zero)))
+        }
+        _ => Ok((instrs, expr_var)),
+    }
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1592,14 +1623,64 @@ pub fn convert_expression_to_ir(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::BinaryOp(
+            op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
+            left,
+            right,
+        ) => {
+            // the right operand is only evaluated if the left doesn't decide the result
+            let (mut left_instrs, left_var) = convert_condition_to_ir(*left, prog, context)?;
+            instrs.append(&mut left_instrs);
+            // result is always int 0 or 1
+            let dest = prog.new_var(ValueType::RValue);
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            let short_circuit_label = prog.new_label();
+            let end_label = prog.new_label();
+            let zero = Src::Constant(Constant::Int(0));
+            let short_circuit_value = match op {
+                BinaryOperator::LogicalAnd => {
+                    instrs.push(Instruction::BrIfEq(
+                        prog.new_instr_id(),
+                        left_var,
+                        zero.to_owned(),
+                        short_circuit_label.to_owned(),
+                    ));
+                    0
+                }
+                _ => {
+                    instrs.push(Instruction::BrIfNotEq(
+                        prog.new_instr_id(),
+                        left_var,
+                        zero.to_owned(),
+                        short_circuit_label.to_owned(),
+                    ));
+                    1
+                }
+            };
+            let (mut right_instrs, right_var) = convert_condition_to_ir(*right, prog, context)?;
+            instrs.append(&mut right_instrs);
+            instrs.push(Instruction::NotEqual(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                right_var,
+                zero,
+            ));
+            instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
+            instrs.push(Instruction::Label(prog.new_instr_id(), short_circuit_label));
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Constant(Constant::Int(short_circuit_value)),
+            ));
+            instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+            Ok((instrs, Src::Var(dest)))
+        }
         Expression::BinaryOp(op, left, right) => {
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
             let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
             instrs.append(&mut right_instrs);
             let dest = prog.new_var(ValueType::RValue);
-            let left_var_type = left_var.get_type(&prog.program_metadata)?;
-            let right_var_type = right_var.get_type(&prog.program_metadata)?;
             match op {
                 BinaryOperator::Mult => {
                     let (mut convert_instrs, left_var, right_var) =
@@ -2006,37 +2087,14 @@ pub fn convert_expression_to_ir(
                         right_var,
                     ));
                 }
-                BinaryOperator::LogicalAnd => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalAnd(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LogicalOr => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalOr(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    unreachable!("handled separately")
                 }
             }
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(*cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(*cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             let dest = prog.new_var(ValueType::RValue);
             let false_label = prog.new_label();
-- 
2.43.0


From ee2a80d330df7be30acd38b0d5fb0b9007e27073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 06/62] fix: evaluate constant expressions in the types of
 their operands, with enum constants, sizeof and casts

---
 src/middle_end/compile_time_eval.rs | 300 ++++++++++++++++++++++------
 src/middle_end/get_ast_type_info.rs |  23 ++-
 2 files changed, 258 insertions(+), 65 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..a439eaa 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -1,23 +1,23 @@
-use crate::front_end::ast::{BinaryOperator, Expression};
+use crate::front_end::ast::{BinaryOperator, Expression, Identifier};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
+use crate::middle_end::ast_to_ir::convert_expression_to_ir;
+use crate::middle_end::context::{Context, IdentifierResolveResult};
+use crate::middle_end::get_ast_type_info::get_type_info;
 use crate::middle_end::instructions::Constant as IrConstant;
+use crate::middle_end::ir::Program;
+use crate::middle_end::ir_types::{IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 /// constant expression used for array bounds, explicit enum values,
 /// values of case labels. Must evaluate to an integer
-pub fn eval_integral_constant_expression(expr: Expression) -> Result<i128, MiddleEndError> {
-    match eval(expr)? {
-        ConstantExpressionType::Int(i) => Ok(i),
-        _ => Err(MiddleEndError::InvalidConstantExpression),
-    }
-}
-
-pub fn eval_initialiser_constant_expression(
+pub fn eval_integral_constant_expression(
     expr: Expression,
-) -> Result<IrConstant, MiddleEndError> {
-    match eval(expr)? {
-        ConstantExpressionType::Int(i) => Ok(IrConstant::Int(i)),
-        ConstantExpressionType::Float(f) => Ok(IrConstant::Float(f)),
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<i128, MiddleEndError> {
+    match eval(expr, prog, context)? {
+        (ConstantExpressionType::Int(i), _) => Ok(i),
+        _ => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
 
@@ -26,55 +26,198 @@ enum ConstantExpressionType {
     Float(f64),
 }
 
-fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
+/// The value of a constant after conversion to the given type
+fn convert_constant(
+    constant: ConstantExpressionType,
+    dest_type: &IrType,
+) -> Result<ConstantExpressionType, MiddleEndError> {
+    if dest_type.is_integral_type() {
+        let i = match constant {
+            ConstantExpressionType::Int(i) => i,
+            ConstantExpressionType::Float(f) => f as i128,
+        };
+        return Ok(ConstantExpressionType::Int(match dest_type {
+            IrType::I8 => i as i8 as i128,
+            IrType::U8 => i as u8 as i128,
+            IrType::I16 => i as i16 as i128,
+            IrType::U16 => i as u16 as i128,
+            IrType::I32 => i as i32 as i128,
+            IrType::U32 => i as u32 as i128,
+            IrType::I64 => i as i64 as i128,
+            _ => i as u64 as i128,
+        }));
+    }
+    let f = match constant {
+        ConstantExpressionType::Int(i) => i as f64,
+        ConstantExpressionType::Float(f) => f,
+    };
+    match dest_type {
+        IrType::F32 => Ok(ConstantExpressionType::Float(f as f32 as f64)),
+        IrType::F64 => Ok(ConstantExpressionType::Float(f)),
+        _ => Err(MiddleEndError::InvalidConstantExpression),
+    }
+}
+
+/// The value of the result of an operation. Unsigned integers wrap around, but a signed
+/// integer that doesn't fit its type is an error.
+fn check_result(
+    constant: ConstantExpressionType,
+    result_type: IrType,
+) -> Result<(ConstantExpressionType, IrType), MiddleEndError> {
+    let is_signed_int = match &constant {
+        ConstantExpressionType::Int(i) if result_type.is_signed_integral() => Some(*i),
+        _ => None,
+    };
+    let converted = convert_constant(constant, &result_type)?;
+    match (is_signed_int, &converted) {
+        (Some(i), ConstantExpressionType::Int(converted_i)) if i != *converted_i => {
+            Err(MiddleEndError::InvalidConstantExpression)
+        }
+        _ => Ok((converted, result_type)),
+    }
+}
+
+/// The common type of two operands after the usual arithmetic conversions
+fn get_common_type(left_type: &IrType, right_type: &IrType) -> IrType {
+    let left_type = left_type.unary_convert();
+    let right_type = right_type.unary_convert();
+    for t in [
+        IrType::F64,
+        IrType::F32,
+        IrType::U64,
+        IrType::I64,
+        IrType::U32,
+    ] {
+        if left_type == t || right_type == t {
+            return t;
+        }
+    }
+    IrType::I32
+}
+
+fn is_nonzero(constant: &ConstantExpressionType) -> bool {
+    match constant {
+        ConstantExpressionType::Int(i) => *i != 0,
+        ConstantExpressionType::Float(f) => *f != 0.,
+    }
+}
+
+fn eval(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(ConstantExpressionType, IrType), MiddleEndError> {
     match expr {
-        Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+        Expression::Identifier(Identifier(name)) => {
+            match context.resolve_identifier_to_var_or_const(&name)? {
+                IdentifierResolveResult::EnumConst(c) => {
+                    Ok((ConstantExpressionType::Int(c as i128), IrType::I32))
+                }
+                IdentifierResolveResult::Var(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+            }
+        }
         Expression::Constant(c) => match c {
-            AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
-            AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            AstConstant::Int(i) => {
+                let int_type = IrConstant::Int(i as i128).get_type(None);
+                Ok((ConstantExpressionType::Int(i as i128), int_type))
+            }
+            AstConstant::Float(f) => Ok((ConstantExpressionType::Float(f), IrType::F64)),
+            AstConstant::Char(c) => Ok((ConstantExpressionType::Int(c as i128), IrType::I32)),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::DirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::IndirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::UnaryOp(op, expr) => {
-            let expr_result = eval(*expr)?;
+            let (expr_result, expr_type) = match op {
+                UnaryOperator::AddressOf | UnaryOperator::Dereference => {
+                    return Err(MiddleEndError::CantEvaluateAtCompileTime)
+                }
+                _ => eval(*expr, prog, context)?,
+            };
+            let expr_type = expr_type.unary_convert();
             match op {
                 UnaryOperator::AddressOf => Err(MiddleEndError::CantEvaluateAtCompileTime),
                 UnaryOperator::Dereference => Err(MiddleEndError::CantEvaluateAtCompileTime),
                 UnaryOperator::Plus => match expr_result {
                     ConstantExpressionType::Int(_) | ConstantExpressionType::Float(_) => {
-                        Ok(expr_result)
+                        Ok((expr_result, expr_type))
                     }
                 },
                 UnaryOperator::Minus => match expr_result {
-                    ConstantExpressionType::Int(i) => Ok(ConstantExpressionType::Int(-i)),
-                    ConstantExpressionType::Float(f) => Ok(ConstantExpressionType::Float(-f)),
-                },
-                UnaryOperator::BitwiseNot => match expr_result {
-                    ConstantExpressionType::Int(i) => Ok(ConstantExpressionType::Int(!i)),
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
-                UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        check_result(ConstantExpressionType::Int(-i), expr_type)
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok((ConstantExpressionType::Float(-f), expr_type))
+                    }
+                },
+                UnaryOperator::BitwiseNot => match expr_result {
+                    ConstantExpressionType::Int(i) => {
+                        check_result(ConstantExpressionType::Int(!i), expr_type)
                     }
+                    _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
+                UnaryOperator::LogicalNot => Ok((
+                    ConstantExpressionType::Int(!is_nonzero(&expr_result) as i128),
+                    IrType::I32,
+                )),
             }
         }
-        Expression::SizeOfExpr(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-        Expression::SizeOfType(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+        Expression::SizeOfExpr(e) => {
+            // the operand is not evaluated, so ignore its instructions
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
+            let expr_type = expr_var.get_type(&prog.program_metadata)?;
+            Ok((eval_sizeof(expr_type, prog)?, IrType::I32))
+        }
+        Expression::SizeOfType(t) => match get_type_info(&t.0, t.1, false, prog, context)? {
+            None => Err(MiddleEndError::InvalidTypedefDeclaration),
+            Some((type_info, _, _)) => Ok((eval_sizeof(type_info, prog)?, IrType::I32)),
+        },
+        Expression::BinaryOp(
+            op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
+            left,
+            right,
+        ) => {
+            // the right operand is not evaluated if the left decides the result
+            let (left_result, _) = eval(*left, prog, context)?;
+            let left_value = is_nonzero(&left_result);
+            let value = match op {
+                BinaryOperator::LogicalAnd if !left_value => false,
+                BinaryOperator::LogicalOr if left_value => true,
+                _ => is_nonzero(&eval(*right, prog, context)?.0),
+            };
+            Ok((ConstantExpressionType::Int(value as i128), IrType::I32))
+        }
         Expression::BinaryOp(op, left, right) => {
-            let left_result = eval(*left)?;
-            let right_result = eval(*right)?;
-            match op {
+            let (left_result, left_type) = eval(*left, prog, context)?;
+            let (right_result, right_type) = eval(*right, prog, context)?;
+            // convert the operands to a common type, except for shifts where each
+            // operand is promoted separately
+            let (left_type, right_type) = match op {
+                BinaryOperator::LeftShift | BinaryOperator::RightShift => {
+                    (left_type.unary_convert(), right_type.unary_convert())
+                }
+                _ => {
+                    let common_type = get_common_type(&left_type, &right_type);
+                    (common_type.to_owned(), common_type)
+                }
+            };
+            let left_result = convert_constant(left_result, &left_type)?;
+            let right_result = convert_constant(right_result, &right_type)?;
+            let result_type = match op {
+                BinaryOperator::LessThan
+                | BinaryOperator::GreaterThan
+                | BinaryOperator::LessThanEq
+                | BinaryOperator::GreaterThanEq
+                | BinaryOperator::Equal
+                | BinaryOperator::NotEqual => IrType::I32,
+                _ => left_type.to_owned(),
+            };
+            let result = match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l * r))
+                        Ok(ConstantExpressionType::Int(l.wrapping_mul(r)))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -86,7 +229,9 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Div => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l / r))
+                        l.checked_div(r)
+                            .map(ConstantExpressionType::Int)
+                            .ok_or(MiddleEndError::InvalidConstantExpression)
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l / r as f64))
@@ -100,7 +245,9 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Mod => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l % r))
+                        l.checked_rem(r)
+                            .map(ConstantExpressionType::Int)
+                            .ok_or(MiddleEndError::InvalidConstantExpression)
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
@@ -132,12 +279,14 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::LeftShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
+                        check_shift_count(r, &left_type)?;
                         Ok(ConstantExpressionType::Int(l << r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::RightShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
+                        check_shift_count(r, &left_type)?;
                         Ok(ConstantExpressionType::Int(l >> r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
@@ -244,33 +393,35 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
-                BinaryOperator::LogicalAnd => match (left_result, right_result) {
-                    (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(((l != 0) && (r != 0)) as i128))
-                    }
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
-                BinaryOperator::LogicalOr => match (left_result, right_result) {
-                    (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(((l != 0) || (r != 0)) as i128))
-                    }
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
-            }
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    unreachable!("handled separately")
+                }
+            }?;
+            check_result(result, result_type)
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let cond_result = eval(*cond)?;
-            let cond_value = match cond_result {
-                ConstantExpressionType::Int(i) => i != 0,
-                ConstantExpressionType::Float(f) => f != 0.,
-            };
-            if cond_value {
-                eval(*true_expr)
+            let (cond_result, _) = eval(*cond, prog, context)?;
+            let cond_value = is_nonzero(&cond_result);
+            // only one of the operands is evaluated, but both determine the type
+            let (chosen_expr, other_expr) = if cond_value {
+                (true_expr, false_expr)
             } else {
-                eval(*false_expr)
-            }
+                (false_expr, true_expr)
+            };
+            let (result, chosen_type) = eval(*chosen_expr, prog, context)?;
+            let (_, other_var) = convert_expression_to_ir(*other_expr, prog, context)?;
+            let other_type = other_var.get_type(&prog.program_metadata)?;
+            let result_type = get_common_type(&chosen_type, &other_type);
+            Ok((convert_constant(result, &result_type)?, result_type))
+        }
+        Expression::Cast(t, expr) => {
+            let cast_type = match get_type_info(&t.0, t.1, false, prog, context)? {
+                None => return Err(MiddleEndError::InvalidTypedefDeclaration),
+                Some((cast_type, _, _)) => cast_type,
+            };
+            let (result, _) = eval(*expr, prog, context)?;
+            Ok((convert_constant(result, &cast_type)?, cast_type))
         }
-        Expression::Cast(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
 
         Expression::ExpressionList(_, _)
         | Expression::FunctionCall(_, _)
@@ -281,3 +432,30 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
+
+fn eval_sizeof(
+    type_info: IrType,
+    prog: &mut Program,
+) -> Result<ConstantExpressionType, MiddleEndError> {
+    let type_size = if type_info.is_array_type() {
+        type_info.get_array_byte_size(&prog.program_metadata)?
+    } else {
+        type_info.get_byte_size(&prog.program_metadata)
+    };
+    match type_size {
+        TypeSize::CompileTime(size) => Ok(ConstantExpressionType::Int(size as i128)),
+        TypeSize::Runtime(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+    }
+}
+
+/// shifting by a negative count, or by at least the width of the type, is an error
+fn check_shift_count(count: i128, shifted_type: &IrType) -> Result<(), MiddleEndError> {
+    let bit_width = match shifted_type {
+        IrType::I64 | IrType::U64 => 64,
+        _ => 32,
+    };
+    match (0..bit_width).contains(&count) {
+        true => Ok(()),
+        false => Err(MiddleEndError::InvalidConstantExpression),
+    }
+}
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..ff91fb0 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -167,7 +167,11 @@ pub fn get_type_info(
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
                                     let value =
-                                        eval_integral_constant_expression(value_expr.to_owned())?
+                                        eval_integral_constant_expression(
+                                            value_expr.to_owned(),
+                                            prog,
+                                            context,
+                                        )?
                                             as EnumConstant;
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
@@ -243,9 +247,20 @@ fn add_type_info_from_declarator(
         Declarator::ArrayDeclarator(d, size_expr) => {
             let size = match size_expr {
                 None => None,
-                Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned()) {
-                    Ok(size) => Some(TypeSize::CompileTime(size as u64)),
-                    Err(_) => Some(TypeSize::Runtime(*size_expr)),
+                Some(size_expr) => match eval_integral_constant_expression(
+                    *size_expr.to_owned(),
+                    prog,
+                    context,
+                ) {
+                    // an array can be at most as large as the address space
+                    Ok(size) if (0..=i32::MAX as i128).contains(&size) => {
+                        Some(TypeSize::CompileTime(size as u64))
+                    }
+                    Ok(_) => return Err(MiddleEndError::UndefinedArraySize),
+                    Err(MiddleEndError::CantEvaluateAtCompileTime) => {
+                        Some(TypeSize::Runtime(*size_expr))
+                    }
+                    Err(e) => return Err(e),
                 },
             };
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
-- 
2.43.0


From 5697f52bdee27146b1c74b687b56d3020f6705f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 07/62] fix: keep the statements of a switch body in source
 order, and take case values as constants of the promoted type

---
 src/middle_end/ast_to_ir.rs         | 65 +++++++++++++----------------
 src/middle_end/compile_time_eval.rs | 14 +++++++
 src/middle_end/context.rs           | 61 ++++++---------------------
 src/middle_end/middle_end_error.rs  |  2 +-
 4 files changed, 58 insertions(+), 84 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 8a12f45..0c5261b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -8,6 +8,7 @@ use crate::front_end::ast::{
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
 };
+use crate::middle_end::compile_time_eval::eval_constant_expression_as_type;
 use crate::middle_end::context::{Context, IdentifierResolveResult, LoopContext, SwitchContext};
 use crate::middle_end::get_ast_type_info::get_type_info;
 use crate::middle_end::ids::{ValueType, VarId};
@@ -269,6 +270,11 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            switch_src
+                .get_type(&prog.program_metadata)?
+                .require_integral_type()?;
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -284,9 +290,9 @@ fn convert_statement_to_ir(
                 Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
             };
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // convert switch body - the case conditions will be stored into the
+            // SwitchContext, and we'll get them from there after
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -307,10 +313,8 @@ fn convert_statement_to_ir(
                 }
             }
 
-            // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            // add switch body
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -327,39 +331,35 @@ fn convert_statement_to_ir(
                     if !context.is_in_switch_context() {
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
-                    let (mut condition_instrs, expr_var) =
-                        convert_expression_to_ir(expr, prog, context)?;
+                    // the case value is a constant, converted to the type of the switch expression
+                    let switch_var = context.get_switch_variable().unwrap();
+                    let case_value = eval_constant_expression_as_type(
+                        expr,
+                        &prog.get_var_type(&switch_var)?,
+                        prog,
+                        context,
+                    )?;
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
                     // if so, jump to the corresponding block
-                    condition_instrs.push(Instruction::BrIfEq(
+                    let condition_instrs = vec![Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
-                        expr_var,
+                        Src::Var(switch_var),
+                        Src::Constant(Constant::Int(case_value)),
                         case_body_label.to_owned(),
-                    ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    )];
+                    context.add_switch_case(case_value, condition_instrs)?;
+                    // start of case body
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
-                    context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.add_default_switch_block_label(case_body_label.to_owned())?;
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -706,11 +706,6 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index a439eaa..fb4cf1f 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -21,6 +21,20 @@ pub fn eval_integral_constant_expression(
     }
 }
 
+/// integral constant expression, converted to the given integral type
+pub fn eval_constant_expression_as_type(
+    expr: Expression,
+    dest_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<i128, MiddleEndError> {
+    let value = eval_integral_constant_expression(expr, prog, context)?;
+    match convert_constant(ConstantExpressionType::Int(value), dest_type)? {
+        ConstantExpressionType::Int(i) => Ok(i),
+        _ => Err(MiddleEndError::InvalidConstantExpression),
+    }
+}
+
 enum ConstantExpressionType {
     Int(i128),
     Float(f64),
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 58d6c70..33514d9 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,6 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::{EnumConstant, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
@@ -79,6 +78,9 @@ impl Context {
                 Some(LoopOrSwitchContext::Switch(_)) => {}
             }
             // if context was a switch context, keep looking backwards for the top loop context
+            if i == 0 {
+                return None;
+            }
             i -= 1;
         }
     }
@@ -121,11 +123,10 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn add_switch_case(
         &mut self,
-        case_body_label: LabelId,
+        case_value: i128,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
     ) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::CaseOutsideSwitchContext);
@@ -137,13 +138,7 @@ impl Context {
                 Some(loop_or_switch_context) => match loop_or_switch_context {
                     LoopOrSwitchContext::Loop(_) => {}
                     LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
+                        switch_context.add_case_value(case_value)?;
                         switch_context
                             .case_condition_instrs
                             .append(&mut case_condition_instrs);
@@ -158,31 +153,6 @@ impl Context {
         }
     }
 
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::DefaultOutsideSwitchContext);
@@ -638,7 +608,7 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
+    pub case_values: Vec<i128>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -648,22 +618,17 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
+            case_values: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
+    fn add_case_value(&mut self, case_value: i128) -> Result<(), MiddleEndError> {
+        if self.case_values.contains(&case_value) {
+            return Err(MiddleEndError::DuplicateCaseInSwitch);
         }
+        self.case_values.push(case_value);
+        Ok(())
     }
 
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 11180d2..d9244cc 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,7 +12,7 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
-    NoCaseBlockToPushInstructionTo,
+    DuplicateCaseInSwitch,
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
-- 
2.43.0


From dfb4e908160bcb69dd59e2a41d314aa2bbd64fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 08/62] fix: scope labels to their function, and accept forward
 gotos

---
 src/middle_end/ast_to_ir.rs        | 15 ++++++++++++++-
 src/middle_end/context.rs          | 12 +++++++++++-
 src/middle_end/middle_end_error.rs |  1 +
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 0c5261b..85c170d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -322,7 +322,12 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // the label may already have been used by an earlier goto
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name.to_owned()),
+                    };
+                    context.define_label(label_name)?;
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -697,7 +702,15 @@ fn convert_statement_to_ir(
                 IrType::Function(return_type, _, _) => Some(*return_type.to_owned()),
                 _ => None,
             };
+            context.defined_labels.clear();
+            prog.program_metadata.label_ids.clear();
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            // labels are local to the function, and must all be defined in it
+            for label_name in prog.program_metadata.label_ids.keys() {
+                if !context.defined_labels.contains(label_name) {
+                    return Err(MiddleEndError::UndeclaredIdentifier(label_name.to_owned()));
+                }
+            }
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 33514d9..2497877 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::trace;
 
@@ -14,6 +14,8 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    /// names of the labels defined so far in the function we're currently converting
+    pub defined_labels: HashSet<String>,
     /// return type of the function we're currently converting
     pub function_return_type: Option<IrType>,
 }
@@ -31,6 +33,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            defined_labels: HashSet::new(),
             function_return_type: None,
         }
     }
@@ -175,6 +178,13 @@ impl Context {
         }
     }
 
+    pub fn define_label(&mut self, name: String) -> Result<(), MiddleEndError> {
+        match self.defined_labels.insert(name.to_owned()) {
+            true => Ok(()),
+            false => Err(MiddleEndError::DuplicateLabel(name)),
+        }
+    }
+
     pub fn push_scope(&mut self) {
         self.scope_stack.push(Scope::new());
     }
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index d9244cc..1e339ea 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -15,6 +15,7 @@ pub enum MiddleEndError {
     DuplicateCaseInSwitch,
     /// in theory this should never occur
     LoopNestingError,
+    DuplicateLabel(String),
     UndeclaredIdentifier(String),
     UndeclaredType(String),
     UndeclaredEnumTag(String),
-- 
2.43.0


From 83375b5f370db13d2ba12c15ca35c14adf7af669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 09/62] fix: leave unreachable code out of the relooper, and
 keep every entry of a loop inside it

---
 src/relooper/relooper.rs |  4 +++-
 src/relooper/soupify.rs  | 28 ++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..e83c0da 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -494,7 +494,9 @@ fn create_loop_block(
     let mut next_labels: Labels = HashMap::new();
     // find the labels that can return to one of the entries, and those that can't
     for (label_id, label) in labels {
-        let mut can_return = false;
+        // the entries themselves are always part of the loop, even an entry that's only
+        // reachable from the other entries
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..5dcd362 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::trace;
 
@@ -214,6 +214,8 @@ fn instructions_to_soup_of_labels(instrs: Vec<Instruction>) -> (HashMap<LabelId,
     let mut labels = HashMap::new();
     let mut current_label_id: Option<LabelId> = None;
     let mut entry: Option<LabelId> = None;
+    // instructions between an unconditional jump and the next label can't be reached
+    let mut is_unreachable = false;
     for instr in instrs {
         match instr {
             Instruction::Label(_, label_id) => {
@@ -222,11 +224,17 @@ fn instructions_to_soup_of_labels(instrs: Vec<Instruction>) -> (HashMap<LabelId,
                     entry = Some(label_id.to_owned());
                 }
                 // start of a new block
+                is_unreachable = false;
                 current_label_id = Some(label_id.to_owned());
                 let new_label = Label::new(label_id.to_owned());
                 labels.insert(label_id, new_label);
             }
+            _ if is_unreachable => {}
             i => {
+                is_unreachable = matches!(
+                    i,
+                    Instruction::Br(..) | Instruction::Ret(..) | Instruction::TailCall(..)
+                );
                 // any other instruction is continuation of the current block
                 if let Some(current_label_id) = &current_label_id {
                     labels.get_mut(current_label_id).unwrap().instrs.push(i);
@@ -234,5 +242,21 @@ fn instructions_to_soup_of_labels(instrs: Vec<Instruction>) -> (HashMap<LabelId,
             }
         }
     }
-    (labels, entry.unwrap())
+    let entry = entry.unwrap();
+    remove_unreachable_labels(&mut labels, &entry);
+    (labels, entry)
+}
+
+/// Remove all the labels that can't be reached from the entry-point
+fn remove_unreachable_labels(labels: &mut HashMap<LabelId, Label>, entry: &LabelId) {
+    let mut reachable = HashSet::new();
+    let mut to_visit = vec![entry.to_owned()];
+    while let Some(label_id) = to_visit.pop() {
+        if let Some(label) = labels.get(&label_id) {
+            if reachable.insert(label_id) {
+                to_visit.append(&mut label.possible_branch_targets());
+            }
+        }
+    }
+    labels.retain(|label_id, _| reachable.contains(label_id));
 }
-- 
2.43.0


From 0f1b364cf3f3f2533f7f6f6d8616570b63e0ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 10/62] fix: store arrays inside the object that contains them,
 and take the address of the designated object

---
 src/middle_end/aggregate_type_initialisers.rs |   4 +-
 src/middle_end/ast_to_ir.rs                   | 245 +++++++++++-------
 src/middle_end/ir_types.rs                    |  20 +-
 3 files changed, 175 insertions(+), 94 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..4ba6569 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -19,7 +19,9 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type
+        .get_storage_byte_size(&prog.program_metadata)?
+    {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 85c170d..ae8d203 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -753,6 +753,56 @@ fn convert_condition_to_ir(
     }
 }
 
+/// Convert an expression that designates an object, without reading the value of the
+/// object. If the object isn't a variable, the result is a pointer to it, as a
+/// [Src::StoreAddressVar].
+fn convert_lvalue_to_ir(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    context.directly_on_lhs_of_assignment = true;
+    let result = convert_expression_to_ir(expr, prog, context);
+    context.directly_on_lhs_of_assignment = false;
+    result
+}
+
+/// The type of the object designated by the result of [convert_lvalue_to_ir]
+fn get_object_type(object: &Src, prog: &Program) -> Result<IrType, MiddleEndError> {
+    let src_type = object.get_type(&prog.program_metadata)?;
+    match object {
+        Src::StoreAddressVar(_) => src_type.dereference_pointer_type(),
+        _ => Ok(src_type),
+    }
+}
+
+/// Read the object that ptr points to into a new variable
+fn load_object(
+    ptr: Src,
+    object_type: IrType,
+    instrs: &mut Vec<Instruction>,
+    prog: &mut Program,
+) -> Result<VarId, MiddleEndError> {
+    let dest = prog.new_var(ValueType::LValue);
+    prog.add_var_type(dest.to_owned(), object_type.to_owned())?;
+    if object_type.is_array_type() {
+        // an array variable is a pointer to the start of the array
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            ptr,
+        ));
+    } else {
+        // dest = *ptr
+        instrs.push(Instruction::LoadFromAddress(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            ptr,
+        ));
+    }
+    Ok(dest)
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -840,7 +890,7 @@ pub fn convert_expression_to_ir(
             }
 
             // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_byte_size(&prog.program_metadata);
+            let element_byte_size = arr_inner_type.get_storage_byte_size(&prog.program_metadata)?;
             let byte_size_var = match element_byte_size {
                 TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
                 TypeSize::Runtime(byte_size_expr) => {
@@ -878,13 +928,7 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::StoreAddressVar(ptr)))
             } else {
                 // read from array index
-                let dest = prog.new_var(ValueType::LValue);
-                prog.add_var_type(dest.to_owned(), arr_inner_type)?;
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    Src::Var(ptr),
-                ));
+                let dest = load_object(Src::Var(ptr), arr_inner_type, &mut instrs, prog)?;
                 Ok((instrs, Src::Var(dest)))
             }
         }
@@ -942,22 +986,29 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
-            let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            let (mut obj_instrs, obj_var) = convert_lvalue_to_ir(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
+            let obj_var_type = get_object_type(&obj_var, prog)?;
             obj_var_type.require_struct_or_union_type()?;
 
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
+            let obj_ptr = match obj_var {
+                // the object is in memory, and this is already a pointer to it
+                Src::StoreAddressVar(ptr) => ptr,
+                obj_var => {
+                    // obj_ptr = &obj_var
+                    let obj_ptr = prog.new_var(obj_var.get_value_type());
+                    prog.add_var_type(
+                        obj_ptr.to_owned(),
+                        IrType::PointerTo(Box::new(obj_var_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::AddressOf(
+                        prog.new_instr_id(),
+                        obj_ptr.to_owned(),
+                        obj_var,
+                    ));
+                    obj_ptr
+                }
+            };
 
             match obj_var_type {
                 IrType::Struct(struct_id) => {
@@ -965,7 +1016,7 @@ pub fn convert_expression_to_ir(
                     let member_type = struct_type.get_member_type(&member_name)?;
                     let member_byte_offset = struct_type.get_member_byte_offset(&member_name)?;
 
-                    let ptr = prog.new_var(ValueType::LValue);
+                    let ptr = prog.new_var(obj_ptr.get_value_type());
                     prog.add_var_type(
                         ptr.to_owned(),
                         IrType::PointerTo(Box::new(member_type.to_owned())),
@@ -983,14 +1034,8 @@ pub fn convert_expression_to_ir(
                         Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
                         // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
+                        let dest = load_object(Src::Var(ptr), member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -998,19 +1043,25 @@ pub fn convert_expression_to_ir(
                     let union_type = prog.get_union_type(&union_id)?;
                     let member_type = union_type.get_member_type(&member_name)?;
 
+                    // ptr = obj_ptr, as a pointer to the member
+                    let ptr = prog.new_var(obj_ptr.get_value_type());
+                    prog.add_var_type(
+                        ptr.to_owned(),
+                        IrType::PointerTo(Box::new(member_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        ptr.to_owned(),
+                        Src::Var(obj_ptr),
+                    ));
+
                     if this_expr_directly_on_lhs_of_assignment {
                         // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_ptr)))
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(obj_ptr),
-                        ));
+                        // dest = *ptr
+                        let dest = load_object(Src::Var(ptr), member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1020,6 +1071,8 @@ pub fn convert_expression_to_ir(
         Expression::IndirectMemberSelection(obj, Identifier(member_name)) => {
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
+            let (mut unary_convert_instrs, obj_var) = unary_convert(obj_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
             let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
             obj_var_type.require_pointer_type()?;
             let inner_type = obj_var_type.dereference_pointer_type()?;
@@ -1048,14 +1101,8 @@ pub fn convert_expression_to_ir(
                         Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
                         // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
+                        let dest = load_object(Src::Var(ptr), member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1063,19 +1110,25 @@ pub fn convert_expression_to_ir(
                     let union_type = prog.get_union_type(&union_id)?;
                     let member_type = union_type.get_member_type(&member_name)?;
 
+                    // ptr = obj_var, as a pointer to the member
+                    let ptr = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(
+                        ptr.to_owned(),
+                        IrType::PointerTo(Box::new(member_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        ptr.to_owned(),
+                        obj_var,
+                    ));
+
                     if this_expr_directly_on_lhs_of_assignment {
                         // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_var.unwrap_var()?)))
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            obj_var,
-                        ));
+                        // dest = *ptr
+                        let dest = load_object(Src::Var(ptr), member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1405,15 +1458,34 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            let (mut expr_instrs, expr_var) = convert_lvalue_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            if !expr_var.get_value_type().is_lvalue() {
+                return Err(MiddleEndError::InvalidLValue);
+            }
+            let expr_var_type = get_object_type(&expr_var, prog)?;
             let dest = prog.new_var(ValueType::RValue);
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                expr_var,
-            ));
+            match expr_var {
+                // the object is in memory, and this is already a pointer to it
+                Src::StoreAddressVar(ptr) => instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    Src::Var(ptr),
+                )),
+                // an array variable is a pointer to the start of the array
+                Src::Var(var) if expr_var_type.is_array_type() => {
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        dest.to_owned(),
+                        Src::Var(var),
+                    ))
+                }
+                expr_var => instrs.push(Instruction::AddressOf(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    expr_var,
+                )),
+            }
             // store type of dest
             prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(expr_var_type)))?;
             Ok((instrs, Src::Var(dest)))
@@ -1421,36 +1493,36 @@ pub fn convert_expression_to_ir(
         Expression::UnaryOp(UnaryOperator::Dereference, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             if this_expr_directly_on_lhs_of_assignment {
                 // store to memory address
                 match expr_var_type {
                     IrType::PointerTo(_) => {
-                        // prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                        match expr_var {
-                            Src::Var(expr_var) => Ok((instrs, Src::StoreAddressVar(expr_var))),
-                            _ => Err(MiddleEndError::AttemptToStoreToNonVariable),
-                        }
+                        // a dereferenced pointer is always an lvalue, whatever the pointer itself is
+                        let ptr = prog.new_var(ValueType::LValue);
+                        prog.add_var_type(ptr.to_owned(), expr_var_type)?;
+                        instrs.push(Instruction::SimpleAssignment(
+                            prog.new_instr_id(),
+                            ptr.to_owned(),
+                            expr_var,
+                        ));
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     }
                     _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
                 }
             } else {
                 // dereference load from memory address
-                let dest = prog.new_var(ValueType::LValue);
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    expr_var,
-                ));
                 // check whether the var is allowed to be dereferenced;
                 // if so, store the type of dest
                 match expr_var_type {
                     IrType::PointerTo(inner_type) => {
-                        prog.add_var_type(dest.to_owned(), *inner_type)?;
+                        let dest = load_object(expr_var, *inner_type, &mut instrs, prog)?;
+                        Ok((instrs, Src::Var(dest)))
                     }
-                    _ => return Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
+                    _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
                 }
-                Ok((instrs, Src::Var(dest)))
             }
         }
         Expression::UnaryOp(op, expr) => {
@@ -1576,14 +1648,15 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-
-            let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
-            } else {
-                expr_var_type.get_byte_size(&prog.program_metadata)
+            let type_size = match &*e {
+                // the array of chars, including the terminating null char
+                Expression::StringLiteral(s) => TypeSize::CompileTime(s.chars().count() as u64 + 1),
+                _ => {
+                    // the operand isn't evaluated, only its type is needed
+                    let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
+                    let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                    expr_var_type.get_storage_byte_size(&prog.program_metadata)?
+                }
             };
             let size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
@@ -1608,11 +1681,7 @@ pub fn convert_expression_to_ir(
                 None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                 Some(x) => x,
             };
-            let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
-            } else {
-                type_info.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = type_info.get_storage_byte_size(&prog.program_metadata)?;
             let byte_size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 996c9cd..ade0e9a 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -97,12 +97,22 @@ impl IrType {
         }
     }
 
+    /// Get the number of bytes an object of this type takes up in memory. An array
+    /// variable is represented by a pointer to the array, but an array that is an element
+    /// or a member of another object is stored inside of that object.
+    pub fn get_storage_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
+        match self {
+            IrType::ArrayOf(_, _) => self.get_array_byte_size(prog),
+            t => Ok(t.get_byte_size(prog)),
+        }
+    }
+
     pub fn get_pointer_object_byte_size(
         &self,
         prog: &ProgramMetadata,
     ) -> Result<TypeSize, MiddleEndError> {
         match self {
-            IrType::PointerTo(inner_type) => Ok(inner_type.get_byte_size(prog)),
+            IrType::PointerTo(inner_type) => inner_type.get_storage_byte_size(prog),
             t => Err(MiddleEndError::DereferenceNonPointerType(t.to_owned())),
         }
     }
@@ -110,7 +120,7 @@ impl IrType {
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-                Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::CompileTime(count)) => match inner_type.get_storage_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
                     TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
@@ -118,7 +128,7 @@ impl IrType {
                         Box::new(Expression::Constant(Constant::Int(*count as u128))),
                     ))),
                 },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_storage_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(count_expr.to_owned()),
@@ -458,7 +468,7 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_storage_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
@@ -578,7 +588,7 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_storage_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
-- 
2.43.0


From b49582975ab9b4f7bc0217f23670f314c19e5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 11/62] fix: evaluate the operand of assignments, increments,
 casts, comma, unary operators and shifts once and with the right type and
 value

---
 src/back_end/target_code_generation.rs |   6 +-
 src/front_end/ast.rs                   |  23 +
 src/front_end/c_parser.lalrpop         |  20 +-
 src/middle_end/ast_to_ir.rs            | 645 ++++++++++++-------------
 src/middle_end/compile_time_eval.rs    |   1 +
 src/middle_end/ir_types.rs             |  17 -
 6 files changed, 335 insertions(+), 377 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 57dfddf..a2d6af2 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -635,12 +635,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -648,7 +648,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0d98dd7..282702e 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -247,10 +247,25 @@ pub enum Expression {
     BinaryOp(BinaryOperator, Box<Expression>, Box<Expression>),
     Ternary(Box<Expression>, Box<Expression>, Box<Expression>),
     Assignment(Box<Expression>, Box<Expression>),
+    /// an assignment that evaluates its destination once, and then both reads and writes it
+    CompoundAssignment(Box<Expression>, BinaryOperator, Box<Expression>),
     Cast(TypeName, Box<Expression>),
     ExpressionList(Box<Expression>, Box<Expression>),
 }
 
+impl Expression {
+    pub fn compound_assignment(dest: Expression, op: BinaryOperator, src: Expression) -> Self {
+        match dest {
+            // nothing to evaluate more than once
+            dest @ Expression::Identifier(_) => Expression::Assignment(
+                Box::new(dest.to_owned()),
+                Box::new(Expression::BinaryOp(op, Box::new(dest), Box::new(src))),
+            ),
+            dest => Expression::CompoundAssignment(Box::new(dest), op, Box::new(src)),
+        }
+    }
+}
+
 impl AstNode for Expression {
     fn reconstruct_source(&self) -> String {
         match self {
@@ -299,6 +314,14 @@ impl AstNode for Expression {
                 t.reconstruct_source(),
                 f.reconstruct_source()
             ),
+            Expression::CompoundAssignment(l, op, r) => {
+                format!(
+                    "{} {}= {}",
+                    l.reconstruct_source(),
+                    op.reconstruct_source(),
+                    r.reconstruct_source()
+                )
+            }
             Expression::Assignment(l, r) => {
                 format!("{} = {}", l.reconstruct_source(), r.reconstruct_source())
             }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index b679a5a..dd034f5 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -370,25 +370,25 @@ AssignmentExpression: ast::Expression = {
   <dest:ConditionalExpression> "=" <src:AssignmentExpression>
     => ast::Expression::Assignment(Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "*=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::Mult, src),
   <dest:ConditionalExpression> "/=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::Div, src),
   <dest:ConditionalExpression> "%=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::Mod, src),
   <dest:ConditionalExpression> "+=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::Add, src),
   <dest:ConditionalExpression> "-=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::Sub, src),
   <dest:ConditionalExpression> "<<=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::LeftShift, src),
   <dest:ConditionalExpression> ">>=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::RightShift, src),
   <dest:ConditionalExpression> "&=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::BitwiseAnd, src),
   <dest:ConditionalExpression> "^=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::BitwiseXor, src),
   <dest:ConditionalExpression> "|=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)))),
+    => ast::Expression::compound_assignment(dest, ast::BinaryOperator::BitwiseOr, src),
 }
 
 ConditionalExpression: ast::Expression = {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ae8d203..a0c5806 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,4 +1,4 @@
-use log::{debug, trace};
+use log::trace;
 
 use crate::front_end::ast;
 use crate::front_end::ast::{
@@ -776,6 +776,29 @@ fn get_object_type(object: &Src, prog: &Program) -> Result<IrType, MiddleEndErro
     }
 }
 
+/// Make sure that a value isn't an lvalue, and doesn't change if the variable it was
+/// read from does
+fn copy_to_rvalue(
+    src: Src,
+    instrs: &mut Vec<Instruction>,
+    prog: &mut Program,
+) -> Result<Src, MiddleEndError> {
+    let src_type = src.get_type(&prog.program_metadata)?;
+    match &src {
+        Src::Var(var) if var.get_value_type().is_lvalue() && src_type.is_scalar_type() => {
+            let dest = prog.new_var(ValueType::RValue);
+            prog.add_var_type(dest.to_owned(), src_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok(Src::Var(dest))
+        }
+        _ => Ok(src),
+    }
+}
+
 /// Read the object that ptr points to into a new variable
 fn load_object(
     ptr: Src,
@@ -803,6 +826,93 @@ fn load_object(
     Ok(dest)
 }
 
+/// Convert an increment or decrement. The object is changed by 1, or if it's a pointer,
+/// by the size of the type it points to. The result is an rvalue: the new value of the
+/// object for a prefix operator, and the old value for a postfix operator.
+fn convert_increment_to_ir(
+    expr: Expression,
+    op: BinaryOperator,
+    is_prefix: bool,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, object) = convert_lvalue_to_ir(expr, prog, context)?;
+    if !object.get_value_type().is_lvalue() {
+        return Err(MiddleEndError::InvalidLValue);
+    }
+    let object_type = get_object_type(&object, prog)?;
+    // check type is valid to be incremented
+    let step = match &object_type {
+        IrType::F32 | IrType::F64 => Src::Constant(Constant::Float(1.)),
+        t if t.is_integral_type() => Src::Constant(Constant::Int(1)),
+        t if t.is_object_pointer_type() => {
+            match t.get_pointer_object_byte_size(&prog.program_metadata)? {
+                TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
+                TypeSize::Runtime(size_expr) => {
+                    let (mut size_expr_instrs, size_var) =
+                        convert_expression_to_ir(size_expr, prog, context)?;
+                    instrs.append(&mut size_expr_instrs);
+                    size_var
+                }
+            }
+        }
+        _ => {
+            return Err(MiddleEndError::InvalidOperation(
+                "Incrementing or decrementing a non-scalar type",
+            ))
+        }
+    };
+
+    // the values of the object before and after
+    let old_value = prog.new_var(ValueType::RValue);
+    prog.add_var_type(old_value.to_owned(), object_type.to_owned())?;
+    let new_value = prog.new_var(ValueType::RValue);
+    prog.add_var_type(new_value.to_owned(), object_type)?;
+
+    match &object {
+        Src::StoreAddressVar(ptr) => instrs.push(Instruction::LoadFromAddress(
+            prog.new_instr_id(),
+            old_value.to_owned(),
+            Src::Var(ptr.to_owned()),
+        )),
+        object => instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            old_value.to_owned(),
+            object.to_owned(),
+        )),
+    }
+    instrs.push(match op {
+        BinaryOperator::Add => Instruction::Add(
+            prog.new_instr_id(),
+            new_value.to_owned(),
+            Src::Var(old_value.to_owned()),
+            step,
+        ),
+        _ => Instruction::Sub(
+            prog.new_instr_id(),
+            new_value.to_owned(),
+            Src::Var(old_value.to_owned()),
+            step,
+        ),
+    });
+    match object {
+        Src::StoreAddressVar(ptr) => instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            ptr,
+            Src::Var(new_value.to_owned()),
+        )),
+        object => instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            object.unwrap_var()?,
+            Src::Var(new_value.to_owned()),
+        )),
+    }
+    Ok((
+        instrs,
+        Src::Var(if is_prefix { new_value } else { old_value }),
+    ))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1136,326 +1246,16 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::PostfixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_increment.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Add, false, prog, context)
         }
         Expression::PostfixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Decrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to decrement
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_decrement.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Sub, false, prog, context)
         }
         Expression::PrefixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after incrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Add, true, prog, context)
         }
         Expression::PrefixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after decrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Sub, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
             let (mut expr_instrs, expr_var) = convert_lvalue_to_ir(*expr, prog, context)?;
@@ -1580,10 +1380,9 @@ pub fn convert_expression_to_ir(
                 // }
                 UnaryOperator::Plus => {
                     let dest = prog.new_var(ValueType::RValue);
-                    instrs.push(Instruction::Add(
+                    instrs.push(Instruction::SimpleAssignment(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1597,10 +1396,15 @@ pub fn convert_expression_to_ir(
                 }
                 UnaryOperator::Minus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    let zero = match expr_var_type {
+                        // -0.0 - x negates every x, including zeros
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.),
+                        _ => Constant::Int(0),
+                    };
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        Src::Constant(zero),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1608,8 +1412,8 @@ pub fn convert_expression_to_ir(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
-                    prog.add_var_type(dest.to_owned(), dest_type)?;
+                    // type of dest is same as (promoted) type of src
+                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 UnaryOperator::BitwiseNot => {
@@ -1640,8 +1444,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
@@ -1839,6 +1643,16 @@ pub fn convert_expression_to_ir(
                         // pointer + int
                         // result is the pointer type
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
+                        // the offset has to be an int, so we can add it to the pointer
+                        let (mut offset_convert_instrs, offset_var) = get_type_conversion_instrs(
+                            right_var,
+                            right_var_type,
+                            IrType::I32,
+                            prog,
+                        )?;
+                        instrs.append(&mut offset_convert_instrs);
+                        right_var = offset_var;
+                        right_var_type = IrType::I32;
                         // add to pointer in multiples of the byte size of the type it points to
                         let temp = prog.new_var(right_var.get_value_type());
                         prog.add_var_type(temp.to_owned(), right_var_type)?;
@@ -1875,7 +1689,7 @@ pub fn convert_expression_to_ir(
                         binary_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
+                    let mut right_var_type = right_var.get_type(&prog.program_metadata)?;
                     // must be either arithmetic - arithmetic, or pointer - integer, or pointer - pointer
                     // todo check for pointers being compatible types
                     if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
@@ -1894,6 +1708,16 @@ pub fn convert_expression_to_ir(
                         // pointer - integer
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
 
+                        // the offset has to be an int, so we can subtract it from the pointer
+                        let (mut offset_convert_instrs, offset_var) = get_type_conversion_instrs(
+                            right_var,
+                            right_var_type,
+                            IrType::I32,
+                            prog,
+                        )?;
+                        instrs.append(&mut offset_convert_instrs);
+                        right_var = offset_var;
+                        right_var_type = IrType::I32;
                         // subtract from pointer in multiples of the byte size it points to
                         let temp_right_var = prog.new_var(right_var.get_value_type());
                         prog.add_var_type(temp_right_var.to_owned(), right_var_type)?;
@@ -1930,6 +1754,36 @@ pub fn convert_expression_to_ir(
                     } else {
                         // pointer - pointer -> int
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
+
+                        // the result is in multiples of the byte size they point to
+                        let ptr_object_byte_size = match left_var_type
+                            .get_pointer_object_byte_size(&prog.program_metadata)?
+                        {
+                            TypeSize::CompileTime(size) => {
+                                Src::Constant(Constant::Int(size as i128))
+                            }
+                            TypeSize::Runtime(size_expr) => {
+                                let (mut size_expr_instrs, size_var) =
+                                    convert_expression_to_ir(size_expr, prog, context)?;
+                                instrs.append(&mut size_expr_instrs);
+                                size_var
+                            }
+                        };
+                        let byte_difference = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            byte_difference.to_owned(),
+                            left_var,
+                            right_var,
+                        ));
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(byte_difference),
+                            ptr_object_byte_size,
+                        ));
+                        return Ok((instrs, Src::Var(dest)));
                     }
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
@@ -1939,13 +1793,22 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::LeftShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
+                    // the operands are promoted separately, and the result has the type of
+                    // the promoted left operand
+                    let (mut left_convert_instrs, left_var) = unary_convert(left_var, prog)?;
+                    instrs.append(&mut left_convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
                     right_var_type.require_integral_type()?;
+                    // wasm shifts need both operands to have the same type
+                    let (mut right_convert_instrs, right_var) = get_type_conversion_instrs(
+                        right_var,
+                        right_var_type,
+                        left_var_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut right_convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::LeftShift(
                         prog.new_instr_id(),
@@ -1955,13 +1818,22 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::RightShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
+                    // the operands are promoted separately, and the result has the type of
+                    // the promoted left operand
+                    let (mut left_convert_instrs, left_var) = unary_convert(left_var, prog)?;
+                    instrs.append(&mut left_convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
                     right_var_type.require_integral_type()?;
+                    // wasm shifts need both operands to have the same type
+                    let (mut right_convert_instrs, right_var) = get_type_conversion_instrs(
+                        right_var,
+                        right_var_type,
+                        left_var_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut right_convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::RightShift(
                         prog.new_instr_id(),
@@ -2200,7 +2072,29 @@ pub fn convert_expression_to_ir(
             let false_var_type = false_var.get_type(&prog.program_metadata)?;
 
             let mut false_binary_convert_instrs = Vec::new();
-            if true_var_type != false_var_type {
+            if true_var_type.is_pointer_type() && false_var_type.is_integral_type() {
+                // a null pointer constant is converted to the pointer type
+                (false_binary_convert_instrs, false_var) =
+                    get_type_conversion_instrs(false_var, false_var_type, true_var_type, prog)?;
+            } else if true_var_type.is_integral_type() && false_var_type.is_pointer_type() {
+                let (mut true_convert_instrs, converted_true_var) =
+                    get_type_conversion_instrs(true_var, true_var_type, false_var_type, prog)?;
+                instrs.append(&mut true_convert_instrs);
+                true_var = converted_true_var;
+            } else if true_var_type.is_pointer_type() && false_var_type.is_pointer_type() {
+                // if one is a void pointer then so is the result
+                if false_var_type == IrType::PointerTo(Box::new(IrType::Void)) {
+                    let (mut true_convert_instrs, converted_true_var) =
+                        get_type_conversion_instrs(true_var, true_var_type, false_var_type, prog)?;
+                    instrs.append(&mut true_convert_instrs);
+                    true_var = converted_true_var;
+                }
+            } else if true_var_type != false_var_type {
+                if !true_var_type.is_arithmetic_type() || !false_var_type.is_arithmetic_type() {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Invalid conditional operand types",
+                    ));
+                }
                 let (
                     mut true_binary_convert_instrs,
                     false_convert_instrs,
@@ -2212,14 +2106,17 @@ pub fn convert_expression_to_ir(
                 false_binary_convert_instrs = false_convert_instrs;
                 instrs.append(&mut true_binary_convert_instrs);
             }
-            prog.add_var_type(dest.to_owned(), true_var.get_type(&prog.program_metadata)?)?;
+            let dest_type = true_var.get_type(&prog.program_metadata)?;
+            prog.add_var_type(dest.to_owned(), dest_type.to_owned())?;
 
-            // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                true_var,
-            ));
+            // assign the result to dest, if there is one
+            if dest_type != IrType::Void {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    true_var,
+                ));
+            }
             // jump over the false instructions
             instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
             // false instructions
@@ -2228,11 +2125,13 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut unary_convert_false_instrs);
             instrs.append(&mut false_binary_convert_instrs);
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                false_var,
-            ));
+            if dest_type != IrType::Void {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    false_var,
+                ));
+            }
             instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
 
             Ok((instrs, Src::Var(dest)))
@@ -2256,6 +2155,10 @@ pub fn convert_expression_to_ir(
 
             let mut dest_var_type = dest_var.get_type(&prog.program_metadata)?;
             match dest_var {
+                // an array can't be assigned to
+                Src::Var(_) if dest_var_type.is_array_type() => {
+                    return Err(MiddleEndError::InvalidAssignment)
+                }
                 Src::Var(_) => {}
                 Src::StoreAddressVar(_) => {
                     dest_var_type = dest_var_type.dereference_pointer_type()?
@@ -2283,16 +2186,45 @@ pub fn convert_expression_to_ir(
                 instrs.push(Instruction::StoreToAddress(
                     prog.new_instr_id(),
                     dest.to_owned(),
-                    src_var,
+                    src_var.to_owned(),
                 ));
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
                     dest.to_owned(),
-                    src_var,
+                    src_var.to_owned(),
                 ));
             }
-            Ok((instrs, Src::Var(dest)))
+            // the result is the value that was assigned, not the object assigned to
+            let result = copy_to_rvalue(src_var, &mut instrs, prog)?;
+            Ok((instrs, result))
+        }
+        Expression::CompoundAssignment(dest_expr, op, src_expr) => {
+            // evaluate which object to assign to, once
+            let (mut dest_expr_instrs, dest_var) = convert_lvalue_to_ir(*dest_expr, prog, context)?;
+            instrs.append(&mut dest_expr_instrs);
+            let ptr = match dest_var {
+                Src::StoreAddressVar(ptr) if ptr.get_value_type().is_lvalue() => ptr,
+                _ => return Err(MiddleEndError::AttemptToModifyNonLValue),
+            };
+            // then assign to it through a pointer, which has a name that can't clash
+            let ptr_name = "compound assignment".to_owned();
+            let ptr_type = prog.get_var_type(&ptr)?;
+            context.push_scope();
+            context.add_variable_to_scope(ptr_name.to_owned(), ptr, ptr_type)?;
+            let dest_expr = Expression::UnaryOp(
+                UnaryOperator::Dereference,
+                Box::new(Expression::Identifier(Identifier(ptr_name))),
+            );
+            let assignment = Expression::Assignment(
+                Box::new(dest_expr.to_owned()),
+                Box::new(Expression::BinaryOp(op, Box::new(dest_expr), src_expr)),
+            );
+            let (mut assignment_instrs, result) =
+                convert_expression_to_ir(assignment, prog, context)?;
+            instrs.append(&mut assignment_instrs);
+            context.pop_scope();
+            Ok((instrs, result))
         }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
@@ -2304,14 +2236,33 @@ pub fn convert_expression_to_ir(
                     Some(x) => x,
                 };
             // get conversion instrs into cast type
+            let (mut unary_convert_instrs, expr_var) = match expr_var.get_type(&prog.program_metadata)? {
+                // an array is converted to a pointer to its first element
+                IrType::ArrayOf(_, _) => unary_convert(expr_var, prog)?,
+                _ => (Vec::new(), expr_var),
+            };
+            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            if cast_type == IrType::Void {
+                // the value is discarded
+                let dest = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest.to_owned(), IrType::Void)?;
+                return Ok((instrs, Src::Var(dest)));
+            }
             let (mut cast_instrs, dest) =
                 get_type_conversion_instrs(expr_var, expr_var_type, cast_type, prog)?;
             instrs.append(&mut cast_instrs);
+            let dest = copy_to_rvalue(dest, &mut instrs, prog)?;
             Ok((instrs, dest))
         }
-        Expression::ExpressionList(_, _) => {
-            todo!("expression lists")
+        Expression::ExpressionList(left, right) => {
+            // the value of the left expression is discarded
+            let (mut left_instrs, _) = convert_expression_to_ir(*left, prog, context)?;
+            instrs.append(&mut left_instrs);
+            let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
+            instrs.append(&mut right_instrs);
+            let result = copy_to_rvalue(right_var, &mut instrs, prog)?;
+            Ok((instrs, result))
         }
     }
 }
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index fb4cf1f..562eb58 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -443,6 +443,7 @@ fn eval(
         | Expression::PostfixDecrement(_)
         | Expression::PrefixIncrement(_)
         | Expression::PrefixDecrement(_)
+        | Expression::CompoundAssignment(_, _, _)
         | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index ade0e9a..ec745f1 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -166,23 +166,6 @@ impl IrType {
         matches!(self, IrType::U8 | IrType::U16 | IrType::U32 | IrType::U64)
     }
 
-    pub fn smallest_signed_equivalent(&self) -> Result<Self, MiddleEndError> {
-        match self {
-            IrType::U8 => Ok(IrType::I16), // go up one size cos might be bigger than can fit
-            IrType::U16 => Ok(IrType::I32),
-            IrType::U32 => Ok(IrType::I64),
-            IrType::U64 => Ok(IrType::I64),
-            IrType::I8 | IrType::I16 | IrType::I32 | IrType::I64 | IrType::F32 | IrType::F64 => {
-                Ok(self.to_owned())
-            }
-            _ => Err(MiddleEndError::TypeConversionError(
-                "Cannot convert to signed",
-                self.to_owned(),
-                None,
-            )),
-        }
-    }
-
     pub fn is_integral_type(&self) -> bool {
         matches!(
             self,
-- 
2.43.0


From 7d5ae34ee91d6181c89bc1f730de87a32ab932f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 12/62] fix: encode float constants as four bytes

---
 src/back_end/wasm_instructions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..d7282b4 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -745,7 +745,7 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                bytes.append(&mut z.to_le_bytes().to_vec());
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From 33a5a62ba6afa1889e18aa5c9330a47fbd1976ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 13/62] fix: reject malformed literals, and give integer, char
 and string literals the value and type C does

---
 src/back_end/initialise_memory.rs   |  3 +-
 src/front_end/ast.rs                | 18 ++++++++++++
 src/front_end/c_parser.lalrpop      | 17 +++++------
 src/front_end/interpret_string.rs   | 21 ++++++++------
 src/front_end/lexer.rs              | 45 +++++++++++++++++++++++++++--
 src/middle_end/ast_to_ir.rs         |  6 +++-
 src/middle_end/compile_time_eval.rs |  6 +++-
 7 files changed, 92 insertions(+), 24 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..a591ff6 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -35,7 +35,8 @@ pub fn initialise_memory(
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
         // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        // each char of the literal is one byte
+        data.extend(string.chars().map(|c| c as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 282702e..981ca2b 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -254,6 +254,24 @@ pub enum Expression {
 }
 
 impl Expression {
+    /// A decimal constant is never unsigned: if it's too big for int then its type is
+    /// long, even if it could be represented as an unsigned int
+    pub fn decimal_constant(value: u128) -> Self {
+        let constant = Expression::Constant(Constant::Int(value));
+        match value {
+            0x8000_0000..=0xFFFF_FFFF => {
+                let long = SpecifierQualifier {
+                    type_specifier: TypeSpecifier::ArithmeticType(ArithmeticType::I64),
+                    storage_class_specifier: None,
+                    const_: false,
+                    inline: false,
+                };
+                Expression::Cast(TypeName(long, None), Box::new(constant))
+            }
+            _ => constant,
+        }
+    }
+
     pub fn compound_assignment(dest: Expression, op: BinaryOperator, src: Expression) -> Self {
         match dest {
             // nothing to evaluate more than once
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index dd034f5..1daaecd 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -1,6 +1,5 @@
 use crate::front_end::ast;
 use crate::front_end::lexer;
-use crate::front_end::interpret_string::interpret_string;
 
 grammar;
 
@@ -144,26 +143,25 @@ pub Constant: ast::Constant = {
 };
 
 IntegerConstant: u128 = {
-  DecimalConstant,
   BinaryConstant,
   OctalConstant,
   HexConstant,
 };
 
-DecimalConstant: u128 = "DecimalConstant" => u128::from_str_radix(&<>, 10).unwrap();
+DecimalConstant: u128 = "DecimalConstant" =>? lexer::parse_integer_constant(&<>, 10);
 
-BinaryConstant: u128 = "BinaryConstant" => u128::from_str_radix(&<>[2..], 2).unwrap();
+BinaryConstant: u128 = "BinaryConstant" =>? lexer::parse_integer_constant(&<>[2..], 2);
 
-OctalConstant: u128 = "OctalConstant" => u128::from_str_radix(&<>, 8).unwrap();
+OctalConstant: u128 = "OctalConstant" =>? lexer::parse_integer_constant(&<>, 8);
 
-HexConstant: u128 = "HexConstant" => u128::from_str_radix(&<>[2..], 16).unwrap();
+HexConstant: u128 = "HexConstant" =>? lexer::parse_integer_constant(&<>[2..], 16);
 
-DecimalFloatingConstant: f64 = "FloatingConstant" => <>.parse::<f64>().unwrap();
+DecimalFloatingConstant: f64 = "FloatingConstant" =>? lexer::parse_floating_constant(&<>);
 
 // remove leading and trailing double quote using slice
-pub StringLiteral: String = "StringLiteral" => interpret_string(&<>).unwrap();
+pub StringLiteral: String = "StringLiteral" =>? lexer::parse_char_sequence(&<>);
 
-CharConstant: char = "CharConstant" => interpret_string(&<>).unwrap().chars().nth(0).unwrap();
+CharConstant: char = "CharConstant" =>? lexer::parse_char_constant(&<>);
 
 // STATEMENTS -------------------------------
 
@@ -515,6 +513,7 @@ ArgumentExpressionList = CommaSepList<AssignmentExpression>;
 
 PrimaryExpression: ast::Expression = {
   <Identifier> => ast::Expression::Identifier(<>),
+  <DecimalConstant> => ast::Expression::decimal_constant(<>),
   <Constant> => ast::Expression::Constant(<>),
   <StringLiteral> => ast::Expression::StringLiteral(<>),
   "(" <Expression> ")",
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..bfba5bc 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -31,9 +31,13 @@ impl Iterator for InterpretString<'_> {
                     Some('\"') => Ok('"'),
                     Some('?') => Ok('?'),
                     Some('\\') => Ok('\\'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('f') => Ok('\x0c'),
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
+                    Some('v') => Ok('\x0b'),
                     Some('x') => {
                         // hex char code
                         // check whether the next digit is a valid hex digit,
@@ -54,10 +58,10 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
+                                // (which has to fit into a byte)
+                                match u8::from_str_radix(&buffer, 16) {
+                                    Ok(hex_code) => Ok(char::from(hex_code)),
+                                    Err(_) => Err(Error::InvalidCharCode(buffer)),
                                 }
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
@@ -85,11 +89,10 @@ impl Iterator for InterpretString<'_> {
                             }
                         }
                         // convert the octal code to an int, and then to the
-                        // corresponding char
-                        let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
-                            Some(c) => Ok(c),
-                            None => Err(Error::InvalidCharCode(buffer)),
+                        // corresponding char (which has to fit into a byte)
+                        match u8::from_str_radix(&buffer, 8) {
+                            Ok(oct_code) => Ok(char::from(oct_code)),
+                            Err(_) => Err(Error::InvalidCharCode(buffer)),
                         }
                     }
                     Some(c) => Err(Error::InvalidEscapeChar(c)),
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..aab09ef 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -2,8 +2,10 @@ use std::error::Error;
 use std::fmt::Formatter;
 use std::{fmt, iter::Peekable, str::CharIndices};
 
+use lalrpop_util::ParseError;
 use log::trace;
 
+use crate::front_end::interpret_string::interpret_string;
 use crate::front_end::lexer::LexError::InvalidTypedefDeclaration;
 
 use super::ast;
@@ -301,7 +303,8 @@ impl<'input> Iterator for Lexer<'input> {
                                 } else if t == Token::LeftCurly {
                                     self.typedef_stmt_nesting_depth += 1;
                                 } else if t == Token::RightCurly {
-                                    self.typedef_stmt_nesting_depth -= 1;
+                                    self.typedef_stmt_nesting_depth =
+                                        self.typedef_stmt_nesting_depth.saturating_sub(1);
                                 }
                             }
                             Some(Ok((start.unwrap(), t, end.unwrap())))
@@ -338,6 +341,7 @@ pub enum LexError {
     InvalidToken(usize, usize),
     InvalidEOF,
     InvalidTypedefDeclaration,
+    InvalidConstant(String),
 }
 
 impl fmt::Display for LexError {
@@ -348,12 +352,47 @@ impl fmt::Display for LexError {
             }
             LexError::InvalidEOF => write!(f, "Invalid end of file"),
             InvalidTypedefDeclaration => write!(f, "Invalid typedef declaration"),
+            LexError::InvalidConstant(s) => write!(f, "Invalid constant: {s}"),
         }
     }
 }
 
 impl Error for LexError {}
 
+type ConstantParseError = ParseError<usize, Token, LexError>;
+
+fn invalid_constant(s: &str) -> ConstantParseError {
+    ParseError::User {
+        error: LexError::InvalidConstant(s.to_owned()),
+    }
+}
+
+/// the value has to be representable in the largest integer type
+pub fn parse_integer_constant(s: &str, radix: u32) -> Result<u128, ConstantParseError> {
+    match u64::from_str_radix(s, radix) {
+        Ok(value) => Ok(value as u128),
+        Err(_) => Err(invalid_constant(s)),
+    }
+}
+
+pub fn parse_floating_constant(s: &str) -> Result<f64, ConstantParseError> {
+    s.parse().map_err(|_| invalid_constant(s))
+}
+
+/// Interpret the contents of a string literal or char constant. Each char of the result
+/// is one byte.
+pub fn parse_char_sequence(s: &str) -> Result<String, ConstantParseError> {
+    let bytes: String = s.bytes().map(char::from).collect();
+    interpret_string(&bytes).map_err(|_| invalid_constant(s))
+}
+
+pub fn parse_char_constant(s: &str) -> Result<char, ConstantParseError> {
+    parse_char_sequence(s)?
+        .chars()
+        .next()
+        .ok_or_else(|| invalid_constant(s))
+}
+
 #[derive(Debug)]
 enum State {
     Start,
@@ -1024,10 +1063,10 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
+                '\'' | '"' | '?' | '\\' | 'a' | 'b' | 'f' | 'n' | 'r' | 't' | 'v' => {
                     match self.token {
                         Some(Token::CharConstant(mut s)) => {
-                            s.push(c);
+                            s.push(input);
                             Some(Fsm {
                                 state: State::Char3,
                                 token: Some(Token::CharConstant(s)),
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a0c5806..b581dd2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -941,7 +941,11 @@ pub fn convert_expression_to_ir(
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            // char is signed
+            ast::Constant::Char(ch) => Ok((
+                instrs,
+                Src::Constant(Constant::Int(ch as u8 as i8 as i128)),
+            )),
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 562eb58..c972a9d 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -136,7 +136,11 @@ fn eval(
                 Ok((ConstantExpressionType::Int(i as i128), int_type))
             }
             AstConstant::Float(f) => Ok((ConstantExpressionType::Float(f), IrType::F64)),
-            AstConstant::Char(c) => Ok((ConstantExpressionType::Int(c as i128), IrType::I32)),
+            // char is signed
+            AstConstant::Char(c) => Ok((
+                ConstantExpressionType::Int(c as u8 as i8 as i128),
+                IrType::I32,
+            )),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From e02c3afec2765ccf24dddcafa200b91f7bc42899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 14/62] fix: accept every spelling of the integer types, and
 report invalid declaration specifiers as errors

---
 src/front_end/ast.rs           | 24 ++++++++++++++++++------
 src/front_end/c_parser.lalrpop | 18 +++++++++---------
 src/front_end/lexer.rs         |  2 ++
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 981ca2b..023cc12 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -2,6 +2,10 @@ use std::error::Error;
 use std::fmt;
 use std::fmt::{Formatter, Write};
 
+use lalrpop_util::ParseError;
+
+use crate::front_end::lexer::{LexError, Token};
+
 pub trait AstNode {
     fn reconstruct_source(&self) -> String;
 }
@@ -25,6 +29,14 @@ impl fmt::Display for AstError {
 
 impl Error for AstError {}
 
+impl From<AstError> for ParseError<usize, Token, LexError> {
+    fn from(e: AstError) -> Self {
+        ParseError::User {
+            error: LexError::InvalidDeclaration(e.to_string()),
+        }
+    }
+}
+
 pub type Program = StatementList;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -643,17 +655,17 @@ impl ArithmeticType {
             // unsigned char
             0b00_10_0001 => Ok(ArithmeticType::U8),
             // signed short
-            0b00_00_0010 | 0b00_01_0010 => Ok(ArithmeticType::I16),
+            0b00_00_0010 | 0b00_01_0010 | 0b00_00_0110 | 0b00_01_0110 => Ok(ArithmeticType::I16),
             // unsigned short
-            0b00_10_0010 => Ok(ArithmeticType::U16),
+            0b00_10_0010 | 0b00_10_0110 => Ok(ArithmeticType::U16),
             // signed int
-            0b00_00_0100 | 0b00_01_0100 => Ok(ArithmeticType::I32),
+            0b00_00_0100 | 0b00_01_0100 | 0b00_01_0000 => Ok(ArithmeticType::I32),
             // unsigned int
-            0b00_10_0100 => Ok(ArithmeticType::U32),
+            0b00_10_0100 | 0b00_10_0000 => Ok(ArithmeticType::U32),
             // signed long
-            0b00_00_1000 | 0b00_01_1000 => Ok(ArithmeticType::I64),
+            0b00_00_1000 | 0b00_01_1000 | 0b00_00_1100 | 0b00_01_1100 => Ok(ArithmeticType::I64),
             // unsigned long
-            0b00_10_1000 => Ok(ArithmeticType::U64),
+            0b00_10_1000 | 0b00_10_1100 => Ok(ArithmeticType::U64),
             // float
             0b01_00_0000 => Ok(ArithmeticType::F32),
             // double
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 1daaecd..77b0154 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -211,16 +211,16 @@ Block: ast::Statement = {
 #[inline]
 ExpressionOrDeclaration: ast::ExpressionOrDeclaration = {
   <Expression> => ast::ExpressionOrDeclaration::Expression(<>),
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> => ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d))),
+  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> =>? Ok(ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs)?, d)))),
 };
 
 // DECLARATIONS -----------------------------
 
 pub Declaration: ast::Statement = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> ";" => ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
-  <sqs:SpecifierQualifier+> <d:Declarator> <b:Block> => ast::Statement::FunctionDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d, Box::new(b)),
+  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> ";" =>? Ok(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs)?, d)),
+  <sqs:SpecifierQualifier+> <d:Declarator> <b:Block> =>? Ok(ast::Statement::FunctionDeclaration(ast::SpecifierQualifier::create(sqs)?, d, Box::new(b))),
   // for structs, unions, enums
-  <SpecifierQualifier+> ";" => ast::Statement::EmptyDeclaration(ast::SpecifierQualifier::create(<>).unwrap()),
+  <SpecifierQualifier+> ";" =>? Ok(ast::Statement::EmptyDeclaration(ast::SpecifierQualifier::create(<>)?)),
 };
 
 pub SpecifierQualifier: ast::SpecifierQualifierToken = {
@@ -274,7 +274,7 @@ StructDeclaration: ast::StructType = {
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" => ast::StructMemberDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
+  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" =>? Ok(ast::StructMemberDeclaration(ast::SpecifierQualifier::create(sqs)?, d)),
 };
 
 UnionDeclaration: ast::UnionType = {
@@ -326,8 +326,8 @@ ParameterTypeList: ast::ParameterTypeList = {
 ParameterList = CommaSepList<ParameterDeclaration>;
 
 ParameterDeclaration: ast::ParameterDeclaration = {
-  <sqs:SpecifierQualifier+> <d:Declarator?> => {
-    ast::ParameterDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d)
+  <sqs:SpecifierQualifier+> <d:Declarator?> =>? {
+    Ok(ast::ParameterDeclaration(ast::SpecifierQualifier::create(sqs)?, d))
   }
 };
 
@@ -473,7 +473,7 @@ MultiplicativeExpression: ast::Expression = {
 
 CastExpression: ast::Expression = {
   UnaryExpression,
-  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> => ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d), Box::new(e)),
+  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> =>? Ok(ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create(sqs)?, d), Box::new(e))),
 };
 
 UnaryExpression: ast::Expression = {
@@ -482,7 +482,7 @@ UnaryExpression: ast::Expression = {
   "--" <UnaryExpression> => ast::Expression::PrefixDecrement(Box::new(<>)),
   <op:UnaryOperator> <e:CastExpression> => ast::Expression::UnaryOp(op, Box::new(e)),
   "sizeof" <UnaryExpression> => ast::Expression::SizeOfExpr(Box::new(<>)),
-   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" => ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d)),
+   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" =>? Ok(ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create(sqs)?, d))),
 };
 
 UnaryOperator: ast::UnaryOperator = {
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index aab09ef..a49b1f3 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -342,6 +342,7 @@ pub enum LexError {
     InvalidEOF,
     InvalidTypedefDeclaration,
     InvalidConstant(String),
+    InvalidDeclaration(String),
 }
 
 impl fmt::Display for LexError {
@@ -352,6 +353,7 @@ impl fmt::Display for LexError {
             }
             LexError::InvalidEOF => write!(f, "Invalid end of file"),
             InvalidTypedefDeclaration => write!(f, "Invalid typedef declaration"),
+            LexError::InvalidDeclaration(msg) => write!(f, "Invalid declaration: {msg}"),
             LexError::InvalidConstant(s) => write!(f, "Invalid constant: {s}"),
         }
     }
-- 
2.43.0


From f6066b4580c88c63ec06be8fcaa2aae6f3971401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 15/62] fix: branch on the value of integer constants wider
 than 32 bits

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b581dd2..680cb64 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -749,7 +749,13 @@ fn convert_condition_to_ir(
             ));
             Ok((instrs, Src::Var(is_non_zero)))
         }
-        _ => Ok((instrs, expr_var)),
+        _ => match expr_var {
+            // a constant may be too wide for the i32 that branches test
+            Src::Constant(Constant::Int(c)) => {
+                Ok((instrs, Src::Constant(Constant::Int((c != 0) as i128))))
+            }
+            expr_var => Ok((instrs, expr_var)),
+        },
     }
 }
 
-- 
2.43.0


From ed4dcfd22f0f6eeea820477203d94725c204f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 16/62] fix: allow control flow in the initialisers of global
 variables

---
 src/back_end/target_code_generation.rs         | 5 ++++-
 src/back_end/target_code_generation_context.rs | 4 ++--
 src/relooper/relooper.rs                       | 3 +++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index a2d6af2..565308e 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -117,7 +117,10 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks.global_label_variable.unwrap(),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..d11ea39 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -90,11 +90,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index e83c0da..8637f62 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,7 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +55,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -141,6 +143,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From 34f7ef99deb6193eedf24c367ef4c773c251ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 17/62] fix: report enum constants that don't fit in an int

---
 src/middle_end/get_ast_type_info.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index ff91fb0..14ee477 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -157,12 +157,15 @@ pub fn get_type_info(
                         }
                     }
                     if !skip_constant_definition {
-                        let mut next_constant_value = 0;
+                        let mut next_constant_value = 0_i128;
                         for enum_constant in enum_constants {
                             match enum_constant {
                                 Enumerator::Simple(Identifier(name)) => {
-                                    context
-                                        .add_enum_constant(name.to_owned(), next_constant_value)?;
+                                    context.add_enum_constant(
+                                        name.to_owned(),
+                                        EnumConstant::try_from(next_constant_value)
+                                            .map_err(|_| MiddleEndError::InvalidConstantExpression)?,
+                                    )?;
                                     next_constant_value += 1;
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
@@ -171,9 +174,12 @@ pub fn get_type_info(
                                             value_expr.to_owned(),
                                             prog,
                                             context,
-                                        )?
-                                            as EnumConstant;
-                                    context.add_enum_constant(name.to_owned(), value)?;
+                                        )?;
+                                    context.add_enum_constant(
+                                        name.to_owned(),
+                                        EnumConstant::try_from(value)
+                                            .map_err(|_| MiddleEndError::InvalidConstantExpression)?,
+                                    )?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
                                     next_constant_value = value + 1;
-- 
2.43.0


From 714e258d180625871cb76d36a8984149b3ebedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 18/62] fix: initialise struct variables and nested structs in
 place, and zero the members without an initialiser

---
 src/middle_end/aggregate_type_initialisers.rs | 184 +++++++++++++-----
 src/middle_end/ast_to_ir.rs                   |  45 +----
 2 files changed, 145 insertions(+), 84 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 4ba6569..28a6b15 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -44,22 +44,33 @@ pub fn array_initialiser(
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedArraySize),
     };
-    // check that the array length matches the number of initialisers
-    if array_size as usize != initialiser_list.len() {
+    // check that there aren't more initialisers than array members
+    if (array_size as usize) < initialiser_list.len() {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
+    // members without an initialiser are zero
+    if initialiser_list.len() < array_size as usize {
+        zero_initialise(
+            Src::Var(member_ptr_var.to_owned()),
+            array_size * array_member_byte_size,
+            &mut instrs,
+            prog,
+        )?;
+    }
 
     for array_member_initialiser in initialiser_list {
-        match array_member_initialiser {
+        match convert_string_literal_initialiser(array_member_initialiser, &array_member_type)? {
             Initialiser::Expr(e) => {
-                if array_member_type.is_aggregate_type() {
-                    return Err(MiddleEndError::AssignNonAggregateValueToAggregateType);
-                }
                 let (mut expr_instrs, mut expr_var) = convert_expression_to_ir(e, prog, context)?;
                 instrs.append(&mut expr_instrs);
 
                 // check type of the expression and convert if necessary
                 let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                if array_member_type.is_array_type()
+                    || array_member_type.is_aggregate_type() && expr_var_type != array_member_type
+                {
+                    return Err(MiddleEndError::AssignNonAggregateValueToAggregateType);
+                }
                 if expr_var_type != array_member_type {
                     if let Src::Constant(c) = &expr_var {
                         let temp = prog.new_var(ValueType::RValue);
@@ -139,13 +150,44 @@ pub fn struct_initialiser(
 
     let struct_type = dest_type_info.unwrap_struct_type(prog)?;
 
-    // check that the number of initialisers matches the number of struct members
-    if struct_type.member_count() != initialiser_list.len() {
+    // check that there aren't more initialisers than struct members
+    if struct_type.member_count() < initialiser_list.len() {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
 
-    for member_index in 0..struct_type.member_count() {
-        let mut member_initialiser = initialiser_list.get(member_index).unwrap().to_owned();
+    // pointer to the struct: dest is either the struct itself, or a pointer to it
+    let struct_ptr_var = prog.new_var(ValueType::RValue);
+    prog.add_var_type(
+        struct_ptr_var.to_owned(),
+        IrType::PointerTo(Box::new(dest_type_info.to_owned())),
+    )?;
+    instrs.push(match prog.get_var_type(&dest)? {
+        IrType::PointerTo(_) => Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            struct_ptr_var.to_owned(),
+            Src::Var(dest),
+        ),
+        _ => Instruction::AddressOf(
+            prog.new_instr_id(),
+            struct_ptr_var.to_owned(),
+            Src::Var(dest),
+        ),
+    });
+    // members without an initialiser are zero
+    if initialiser_list.len() < struct_type.member_count() {
+        let struct_byte_size = dest_type_info
+            .get_byte_size(&prog.program_metadata)
+            .get_compile_time_value()?;
+        zero_initialise(
+            Src::Var(struct_ptr_var.to_owned()),
+            struct_byte_size,
+            &mut instrs,
+            prog,
+        )?;
+    }
+
+    for member_index in 0..initialiser_list.len() {
+        let member_initialiser = initialiser_list.get(member_index).unwrap().to_owned();
         let member_type = struct_type.get_member_type_by_index(member_index)?;
         let member_byte_offset = struct_type.get_member_byte_offset_by_index(member_index)?;
 
@@ -156,52 +198,25 @@ pub fn struct_initialiser(
             IrType::PointerTo(Box::new(member_type.to_owned())),
         )?;
         // member_ptr_var = &dest + byte_offset
-        instrs.push(Instruction::AddressOf(
-            prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(dest.to_owned()),
-        ));
         instrs.push(Instruction::Add(
             prog.new_instr_id(),
             member_ptr_var.to_owned(),
-            Src::Var(member_ptr_var.to_owned()),
+            Src::Var(struct_ptr_var.to_owned()),
             Src::Constant(Constant::Int(member_byte_offset as i128)),
         ));
 
-        // check for case of initialising a char array with a string literal
-        if member_type.is_array_type() {
-            match member_initialiser.to_owned() {
-                Initialiser::Expr(e) => {
-                    if let Expression::StringLiteral(s) = e.to_owned() {
-                        // convert string literal to array of chars
-                        member_initialiser = convert_string_literal_to_init_list_of_chars_ast(s);
-                    }
-                }
-                Initialiser::List(inits) => {
-                    if inits.len() == 1 {
-                        if let Initialiser::Expr(e) = inits.first().unwrap() {
-                            if let Expression::StringLiteral(s) = e.to_owned() {
-                                // convert string literal in braces to array of chars
-                                member_initialiser =
-                                    convert_string_literal_to_init_list_of_chars_ast(s);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-
-        match member_initialiser {
+        match convert_string_literal_initialiser(member_initialiser, &member_type)? {
             Initialiser::Expr(e) => {
-                if member_type.is_aggregate_type() {
-                    return Err(MiddleEndError::AssignNonAggregateValueToAggregateType);
-                }
-
                 let (mut expr_instrs, mut expr_var) = convert_expression_to_ir(e, prog, context)?;
                 instrs.append(&mut expr_instrs);
 
                 // check type of the expression and convert if necessary
                 let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                if member_type.is_array_type()
+                    || member_type.is_aggregate_type() && expr_var_type != member_type
+                {
+                    return Err(MiddleEndError::AssignNonAggregateValueToAggregateType);
+                }
                 if expr_var_type != member_type {
                     if let Src::Constant(c) = &expr_var {
                         let temp = prog.new_var(ValueType::RValue);
@@ -263,6 +278,87 @@ pub fn struct_initialiser(
     Ok(instrs)
 }
 
+/// Set the bytes of an object to zero
+fn zero_initialise(
+    ptr: Src,
+    byte_size: u64,
+    instrs: &mut Vec<Instruction>,
+    prog: &mut Program,
+) -> Result<(), MiddleEndError> {
+    // pointers to the byte to set next, and to the end of the object
+    let byte_ptr = prog.new_var(ValueType::RValue);
+    prog.add_var_type(byte_ptr.to_owned(), IrType::PointerTo(Box::new(IrType::I8)))?;
+    let end_ptr = prog.new_var(ValueType::RValue);
+    prog.add_var_type(end_ptr.to_owned(), IrType::PointerTo(Box::new(IrType::I8)))?;
+    let loop_label = prog.new_label();
+    instrs.push(Instruction::SimpleAssignment(
+        prog.new_instr_id(),
+        byte_ptr.to_owned(),
+        ptr.to_owned(),
+    ));
+    instrs.push(Instruction::Add(
+        prog.new_instr_id(),
+        end_ptr.to_owned(),
+        ptr,
+        Src::Constant(Constant::Int(byte_size as i128)),
+    ));
+    instrs.push(Instruction::Label(
+        prog.new_instr_id(),
+        loop_label.to_owned(),
+    ));
+    instrs.push(Instruction::StoreToAddress(
+        prog.new_instr_id(),
+        byte_ptr.to_owned(),
+        Src::Constant(Constant::Int(0)),
+    ));
+    instrs.push(Instruction::Add(
+        prog.new_instr_id(),
+        byte_ptr.to_owned(),
+        Src::Var(byte_ptr.to_owned()),
+        Src::Constant(Constant::Int(1)),
+    ));
+    instrs.push(Instruction::BrIfNotEq(
+        prog.new_instr_id(),
+        Src::Var(byte_ptr),
+        Src::Var(end_ptr),
+        loop_label,
+    ));
+    Ok(())
+}
+
+/// If a char array is initialised with a string literal (possibly in braces), convert the
+/// string literal to an array of chars. The terminating null char is left out if the
+/// array has no space for it.
+pub fn convert_string_literal_initialiser(
+    initialiser: Initialiser,
+    dest_type: &IrType,
+) -> Result<Initialiser, MiddleEndError> {
+    if !dest_type.is_array_type() {
+        return Ok(initialiser);
+    }
+    let string_literal = match &initialiser {
+        Initialiser::Expr(Expression::StringLiteral(s)) => s,
+        Initialiser::List(inits) => match &inits[..] {
+            [Initialiser::Expr(Expression::StringLiteral(s))] => s,
+            _ => return Ok(initialiser),
+        },
+        _ => return Ok(initialiser),
+    };
+    if !matches!(dest_type.unwrap_array_type()?, IrType::I8 | IrType::U8) {
+        return Ok(initialiser);
+    }
+    let chars = convert_string_literal_to_init_list_of_chars_ast(string_literal.to_owned());
+    match (chars, dest_type.get_array_size()?) {
+        (Initialiser::List(mut chars), TypeSize::CompileTime(size))
+            if size > 0 && chars.len() as u64 == size + 1 =>
+        {
+            chars.pop();
+            Ok(Initialiser::List(chars))
+        }
+        (chars, _) => Ok(chars),
+    }
+}
+
 /// convert a string literal to an array of chars, for array initialiser
 pub fn convert_string_literal_to_init_list_of_chars_ast(s: String) -> Initialiser {
     let mut char_initialisers = Vec::new();
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 680cb64..adddf24 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -6,7 +6,7 @@ use crate::front_end::ast::{
     Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
-    array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
+    array_initialiser, convert_string_literal_initialiser, struct_initialiser,
 };
 use crate::middle_end::compile_time_eval::eval_constant_expression_as_type;
 use crate::middle_end::context::{Context, IdentifierResolveResult, LoopContext, SwitchContext};
@@ -449,7 +449,7 @@ fn convert_statement_to_ir(
                             },
                         };
                     }
-                    DeclaratorInitialiser::Init(d, mut init_expr) => {
+                    DeclaratorInitialiser::Init(d, init_expr) => {
                         let (dest_type_info, name, _) = match get_type_info(
                             &sq,
                             Some(d),
@@ -462,27 +462,8 @@ fn convert_statement_to_ir(
                         };
 
                         // check for case of initialising a char array with a string literal
-                        if dest_type_info.is_array_type() {
-                            match init_expr.to_owned() {
-                                Initialiser::Expr(e) => {
-                                    if let Expression::StringLiteral(s) = e.to_owned() {
-                                        // convert string literal to array of chars
-                                        init_expr =
-                                            convert_string_literal_to_init_list_of_chars_ast(s);
-                                    }
-                                }
-                                Initialiser::List(inits) => {
-                                    if inits.len() == 1 {
-                                        if let Initialiser::Expr(e) = inits.first().unwrap() {
-                                            if let Expression::StringLiteral(s) = e.to_owned() {
-                                                // convert string literal in braces to array of chars
-                                                init_expr = convert_string_literal_to_init_list_of_chars_ast(s);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
+                        let init_expr =
+                            convert_string_literal_initialiser(init_expr, &dest_type_info)?;
 
                         // if array type, get array size from number of initialisers (recursively)
                         let dest_type_info =
@@ -606,25 +587,9 @@ fn convert_statement_to_ir(
                                                 dest_type.to_owned(),
                                             )?;
 
-                                            let byte_size = match dest_type
-                                                .get_byte_size(&prog.program_metadata)
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
+                                            instrs.push(Instruction::DeclareVariable(
                                                 prog.new_instr_id(),
                                                 dest.to_owned(),
-                                                byte_size,
                                             ));
 
                                             let mut init_instrs = struct_initialiser(
-- 
2.43.0


From 505425e0c9006a02c76d7c98199929f66f205cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 19/62] fix: copy struct and union values in assignments, calls
 and returns

---
 src/back_end/memory_operations.rs      | 27 +++++++++++++++++++++++---
 src/back_end/stack_frame_operations.rs | 10 +++++-----
 src/back_end/target_code_generation.rs |  5 +++--
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..88c7b81 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -8,7 +8,8 @@ use crate::middle_end::instructions::{Constant, Src};
 use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::IrType;
 
-/// Insert a load instruction of the correct type
+/// Insert a load instruction of the correct type.
+/// The value of a struct or union on the wasm stack is represented by its address.
 pub fn load(value_type: IrType, wasm_instrs: &mut Vec<WasmInstruction>) {
     match value_type {
         IrType::I8 => wasm_instrs.push(WasmInstruction::I32Load8S {
@@ -38,6 +39,7 @@ pub fn load(value_type: IrType, wasm_instrs: &mut Vec<WasmInstruction>) {
         IrType::F64 => wasm_instrs.push(WasmInstruction::F64Load {
             mem_arg: MemArg::zero(),
         }),
+        IrType::Struct(_) | IrType::Union(_) => {}
         _ => {
             unreachable!()
         }
@@ -45,7 +47,11 @@ pub fn load(value_type: IrType, wasm_instrs: &mut Vec<WasmInstruction>) {
 }
 
 /// Insert a store instruction of the correct type
-pub fn store(value_type: IrType, wasm_instrs: &mut Vec<WasmInstruction>) {
+pub fn store(
+    value_type: IrType,
+    wasm_instrs: &mut Vec<WasmInstruction>,
+    prog_metadata: &ProgramMetadata,
+) {
     match value_type {
         IrType::I8 | IrType::U8 => wasm_instrs.push(WasmInstruction::I32Store8 {
             mem_arg: MemArg::zero(),
@@ -70,6 +76,17 @@ pub fn store(value_type: IrType, wasm_instrs: &mut Vec<WasmInstruction>) {
         IrType::F64 => wasm_instrs.push(WasmInstruction::F64Store {
             mem_arg: MemArg::zero(),
         }),
+        t @ (IrType::Struct(_) | IrType::Union(_)) => {
+            // copy the bytes of the struct from its address
+            let byte_size = t
+                .get_byte_size(prog_metadata)
+                .get_compile_time_value()
+                .unwrap();
+            wasm_instrs.push(WasmInstruction::I32Const {
+                n: byte_size as i32,
+            });
+            wasm_instrs.push(WasmInstruction::MemoryCopy);
+        }
         t => {
             debug!("store type: {}", t);
             unreachable!()
@@ -152,7 +169,11 @@ pub fn store_var(
     wasm_instrs.append(&mut store_value_instrs);
 
     // store
-    store(prog_metadata.get_var_type(&var_id).unwrap(), wasm_instrs);
+    store(
+        prog_metadata.get_var_type(&var_id).unwrap(),
+        wasm_instrs,
+        prog_metadata,
+    );
 }
 
 pub fn load_constant(
diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..02fee81 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -273,7 +273,7 @@ pub fn set_up_new_stack_frame(
                 load_var(var_id, wasm_instrs, function_context, prog_metadata);
 
                 // store param
-                store(var_type, wasm_instrs);
+                store(var_type, wasm_instrs, prog_metadata);
 
                 // advance the stack pointer
                 increment_stack_ptr_by_known_offset(
@@ -301,7 +301,7 @@ pub fn set_up_new_stack_frame(
                 load_constant(constant, param_type.to_owned(), wasm_instrs);
 
                 // store
-                store(param_type.to_owned(), wasm_instrs);
+                store(param_type.to_owned(), wasm_instrs, prog_metadata);
 
                 // advance the stack pointer
                 increment_stack_ptr_by_known_offset(
@@ -414,7 +414,7 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
             );
 
             // store param in temp space at top of stack
-            store(var_type, wasm_instrs);
+            store(var_type, wasm_instrs, prog_metadata);
 
             param_var_stack_ptr_offsets.insert(var_id.to_owned(), temp_stack_ptr_offset);
 
@@ -461,7 +461,7 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
                 load(var_type.to_owned(), wasm_instrs);
 
                 // store param
-                store(var_type, wasm_instrs);
+                store(var_type, wasm_instrs, prog_metadata);
 
                 // advance stack ptr
                 increment_stack_ptr_by_known_offset(
@@ -489,7 +489,7 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
                 load_constant(constant.to_owned(), param_type.to_owned(), wasm_instrs);
 
                 // store
-                store(param_type.to_owned(), wasm_instrs);
+                store(param_type.to_owned(), wasm_instrs, prog_metadata);
 
                 // advance the stack pointer
                 increment_stack_ptr_by_known_offset(
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 565308e..9bf4a8d 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -533,7 +533,7 @@ fn convert_ir_instr_to_wasm(
                 prog_metadata,
             );
 
-            store(inner_dest_type, wasm_instrs);
+            store(inner_dest_type, wasm_instrs, prog_metadata);
         }
         Instruction::DeclareVariable(..) | Instruction::ReferenceVariable(..) => {
             // no instructions to generate here
@@ -550,6 +550,7 @@ fn convert_ir_instr_to_wasm(
             store(
                 IrType::PointerTo(Box::new(prog_metadata.get_var_type(&dest).unwrap())),
                 wasm_instrs,
+                prog_metadata,
             );
 
             // store_var(
@@ -1851,7 +1852,7 @@ fn convert_ir_instr_to_wasm(
                     prog_metadata,
                 );
 
-                store(return_type, wasm_instrs);
+                store(return_type, wasm_instrs, prog_metadata);
             }
 
             wasm_instrs.push(WasmInstruction::Return);
-- 
2.43.0


From 3e7f3c3c8c8570a98c4892dcb5bd563f129f0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:30 +0000
Subject: [PATCH 20/62] fix: allocate local arrays once, on entry to the
 function

---
 src/middle_end/ast_to_ir.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index adddf24..4fcb36b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -670,6 +670,16 @@ fn convert_statement_to_ir(
             context.defined_labels.clear();
             prog.program_metadata.label_ids.clear();
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            // allocate arrays once, on entry to the function, because control can jump into
+            // the scope of an array past its declaration, or reach the declaration repeatedly
+            let (mut allocate_instrs, mut body_instrs): (Vec<_>, Vec<_>) =
+                instrs.into_iter().partition(|instr| {
+                    matches!(
+                        instr,
+                        Instruction::AllocateVariable(_, _, Src::Constant(_))
+                    )
+                });
+            allocate_instrs.append(&mut body_instrs);
             // labels are local to the function, and must all be defined in it
             for label_name in prog.program_metadata.label_ids.keys() {
                 if !context.defined_labels.contains(label_name) {
@@ -677,7 +687,7 @@ fn convert_statement_to_ir(
                 }
             }
             // update function in program with full body
-            let fun = Function::new(instrs, type_info, param_var_mappings);
+            let fun = Function::new(allocate_instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
             context.pop_scope()
         }
-- 
2.43.0


From b1d98b971291ff1c638eb44b4c2c13525c2387ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:53 +0000
Subject: [PATCH 21/62] fix: end the scope of a declaration in a for statement
 with the statement

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 4fcb36b..d88a3ed 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -156,6 +156,8 @@ fn convert_statement_to_ir(
             context.pop_loop();
         }
         Statement::For(init, cond, end, body) => {
+            // the scope of a declaration in the for statement is the for statement
+            context.push_scope();
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
@@ -223,6 +225,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope()
         }
         Statement::If(cond, body) => {
             // if statement condition
-- 
2.43.0


From 8ff9f1851c9f626aad99a8a5c9e28939152b4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:56 +0000
Subject: [PATCH 22/62] fix: treat a void parameter list as empty, and array
 parameters as pointers

---
 src/middle_end/ast_to_ir.rs         |  5 +++
 src/middle_end/get_ast_type_info.rs | 61 +++++++++++++++++------------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d88a3ed..aa69bf5 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -649,6 +649,11 @@ fn convert_statement_to_ir(
             let mut param_var_mappings: Vec<VarId> = Vec::new();
             // put parameter names into scope
             if let Some(param_bindings) = param_bindings {
+                // all parameters of a function definition must have a name
+                if !matches!(&type_info, IrType::Function(_, param_types, _) if param_types.len() == param_bindings.len())
+                {
+                    return Err(MiddleEndError::InvalidFunctionDeclaration);
+                }
                 for (param_name, param_type) in param_bindings {
                     let param_var = prog.new_var(ValueType::LValue);
                     param_var_mappings.push(param_var.to_owned());
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 14ee477..9ab9445 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -8,7 +8,9 @@ use crate::front_end::ast::{
 use crate::middle_end::compile_time_eval::eval_integral_constant_expression;
 use crate::middle_end::context::Context;
 use crate::middle_end::ir::Program;
-use crate::middle_end::ir_types::{EnumConstant, IrType, StructType, TypeSize, UnionType};
+use crate::middle_end::ir_types::{
+    array_to_pointer_type, EnumConstant, IrType, StructType, TypeSize, UnionType,
+};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 pub type FunctionParameterBindings = Vec<(String, IrType)>;
@@ -163,22 +165,23 @@ pub fn get_type_info(
                                 Enumerator::Simple(Identifier(name)) => {
                                     context.add_enum_constant(
                                         name.to_owned(),
-                                        EnumConstant::try_from(next_constant_value)
-                                            .map_err(|_| MiddleEndError::InvalidConstantExpression)?,
+                                        EnumConstant::try_from(next_constant_value).map_err(
+                                            |_| MiddleEndError::InvalidConstantExpression,
+                                        )?,
                                     )?;
                                     next_constant_value += 1;
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
-                                    let value =
-                                        eval_integral_constant_expression(
-                                            value_expr.to_owned(),
-                                            prog,
-                                            context,
-                                        )?;
+                                    let value = eval_integral_constant_expression(
+                                        value_expr.to_owned(),
+                                        prog,
+                                        context,
+                                    )?;
                                     context.add_enum_constant(
                                         name.to_owned(),
-                                        EnumConstant::try_from(value)
-                                            .map_err(|_| MiddleEndError::InvalidConstantExpression)?,
+                                        EnumConstant::try_from(value).map_err(|_| {
+                                            MiddleEndError::InvalidConstantExpression
+                                        })?,
                                     )?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
@@ -253,21 +256,19 @@ fn add_type_info_from_declarator(
         Declarator::ArrayDeclarator(d, size_expr) => {
             let size = match size_expr {
                 None => None,
-                Some(size_expr) => match eval_integral_constant_expression(
-                    *size_expr.to_owned(),
-                    prog,
-                    context,
-                ) {
-                    // an array can be at most as large as the address space
-                    Ok(size) if (0..=i32::MAX as i128).contains(&size) => {
-                        Some(TypeSize::CompileTime(size as u64))
-                    }
-                    Ok(_) => return Err(MiddleEndError::UndefinedArraySize),
-                    Err(MiddleEndError::CantEvaluateAtCompileTime) => {
-                        Some(TypeSize::Runtime(*size_expr))
+                Some(size_expr) => {
+                    match eval_integral_constant_expression(*size_expr.to_owned(), prog, context) {
+                        // an array can be at most as large as the address space
+                        Ok(size) if (0..=i32::MAX as i128).contains(&size) => {
+                            Some(TypeSize::CompileTime(size as u64))
+                        }
+                        Ok(_) => return Err(MiddleEndError::UndefinedArraySize),
+                        Err(MiddleEndError::CantEvaluateAtCompileTime) => {
+                            Some(TypeSize::Runtime(*size_expr))
+                        }
+                        Err(e) => return Err(e),
                     }
-                    Err(e) => return Err(e),
-                },
+                }
             };
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
         }
@@ -286,12 +287,22 @@ fn add_type_info_from_declarator(
 
             let mut param_types: Vec<IrType> = Vec::new();
             let mut param_bindings: FunctionParameterBindings = Vec::new();
+            let param_count = param_decls.len();
             for p in param_decls {
                 let (param_type, param_name, _sub_param_bindings) =
                     match get_type_info(&p.0, p.1, false, prog, context)? {
                         None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                         Some(x) => x,
                     };
+                if param_type == IrType::Void {
+                    // a parameter list that is just void means that there are no parameters
+                    if param_count == 1 && param_name.is_none() && !is_variadic {
+                        break;
+                    }
+                    return Err(MiddleEndError::InvalidFunctionDeclaration);
+                }
+                // parameters that are declared as arrays are pointers
+                let param_type = array_to_pointer_type(param_type);
                 param_types.push(param_type.to_owned());
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
-- 
2.43.0


From f16abe74cf9a863d77b7c65e08aea28619fb01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:48 +0000
Subject: [PATCH 23/62] fix: let structs and unions refer to themselves, and
 several declarators share one struct definition

---
 src/middle_end/ast_to_ir.rs         |  5 ++
 src/middle_end/context.rs           | 12 ++++
 src/middle_end/get_ast_type_info.rs | 94 ++++++++++++++++++++++++-----
 src/middle_end/ir.rs                | 40 ++++++++++++
 src/middle_end/ir_types.rs          | 16 +++++
 src/middle_end/middle_end_error.rs  |  1 +
 6 files changed, 153 insertions(+), 15 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index aa69bf5..de376c4 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -411,6 +411,11 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
+                                    if type_info == IrType::Void {
+                                        return Err(MiddleEndError::InvalidDeclaration);
+                                    }
+                                    // the type must be complete
+                                    type_info.get_storage_byte_size(&prog.program_metadata)?;
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 2497877..340c421 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -317,6 +317,12 @@ impl Context {
         }
     }
 
+    pub fn resolve_struct_tag_in_current_scope(&self, name: &str) -> Option<StructId> {
+        self.scope_stack
+            .last()
+            .and_then(|scope| scope.resolve_struct_tag_to_struct_id(name).ok())
+    }
+
     pub fn resolve_struct_tag_to_struct_id(
         &self,
         identifier_name: &str,
@@ -350,6 +356,12 @@ impl Context {
         }
     }
 
+    pub fn resolve_union_tag_in_current_scope(&self, name: &str) -> Option<UnionId> {
+        self.scope_stack
+            .last()
+            .and_then(|scope| scope.resolve_union_tag_to_union_id(name).ok())
+    }
+
     pub fn resolve_union_tag_to_union_id(
         &self,
         identifier_name: &str,
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 9ab9445..d7dd9a8 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -51,7 +51,7 @@ pub fn get_type_info(
                     Ok(struct_id) => IrType::Struct(struct_id),
                     Err(MiddleEndError::UndeclaredStructTag(_)) => {
                         let struct_type_id =
-                            prog.add_struct_type(StructType::named(struct_name.to_owned()))?;
+                            prog.new_struct_type(StructType::named(struct_name.to_owned()));
                         context
                             .add_struct_tag(struct_name.to_owned(), struct_type_id.to_owned())?;
                         IrType::Struct(struct_type_id)
@@ -59,17 +59,47 @@ pub fn get_type_info(
                     Err(e) => return Err(e),
                 }
             }
+            AstStructType::Definition(Some(Identifier(struct_name)), _)
+                if is_duplicate_specifier =>
+            {
+                // this is another declarator of the declaration that defined the struct
+                IrType::Struct(context.resolve_struct_tag_to_struct_id(struct_name)?)
+            }
             AstStructType::Definition(struct_name, members) => {
+                // declare the struct before its members, because they can point to it
+                let declared_struct_id = match struct_name {
+                    Some(Identifier(name)) => {
+                        Some(match context.resolve_struct_tag_in_current_scope(name) {
+                            Some(struct_id)
+                                if prog.get_struct_type(&struct_id)?.is_incomplete() =>
+                            {
+                                struct_id
+                            }
+                            Some(_) => {
+                                return Err(MiddleEndError::DuplicateTypeDeclaration(
+                                    name.to_owned(),
+                                ))
+                            }
+                            None => {
+                                let struct_id =
+                                    prog.new_struct_type(StructType::named(name.to_owned()));
+                                context.add_struct_tag(name.to_owned(), struct_id.to_owned())?;
+                                struct_id
+                            }
+                        })
+                    }
+                    None => None,
+                };
                 let mut struct_type = match struct_name {
                     Some(Identifier(name)) => StructType::named(name.to_owned()),
                     None => StructType::unnamed(),
                 };
                 for member in members {
-                    for decl in &member.1 {
+                    for (decl_index, decl) in member.1.iter().enumerate() {
                         let (member_type_info, member_name, _params) = match get_type_info(
                             &member.0,
                             Some(decl.to_owned()),
-                            false,
+                            is_duplicate_specifier || decl_index > 0,
                             prog,
                             context,
                         )? {
@@ -86,10 +116,13 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let struct_type_id = prog.add_struct_type(struct_type)?;
-                if let Some(Identifier(name)) = struct_name {
-                    context.add_struct_tag(name.to_owned(), struct_type_id.to_owned())?;
-                }
+                let struct_type_id = match declared_struct_id {
+                    Some(struct_id) => {
+                        prog.define_struct_type(&struct_id, struct_type);
+                        struct_id
+                    }
+                    None => prog.add_struct_type(struct_type)?,
+                };
                 IrType::Struct(struct_type_id)
             }
         },
@@ -100,24 +133,50 @@ pub fn get_type_info(
                     Ok(union_id) => IrType::Union(union_id),
                     Err(MiddleEndError::UndeclaredUnionTag(_)) => {
                         let union_type_id =
-                            prog.add_union_type(UnionType::named(union_name.to_owned()))?;
+                            prog.new_union_type(UnionType::named(union_name.to_owned()));
                         context.add_union_tag(union_name.to_owned(), union_type_id.to_owned())?;
                         IrType::Union(union_type_id)
                     }
                     Err(e) => return Err(e),
                 }
             }
+            AstUnionType::Definition(Some(Identifier(union_name)), _) if is_duplicate_specifier => {
+                // this is another declarator of the declaration that defined the union
+                IrType::Union(context.resolve_union_tag_to_union_id(union_name)?)
+            }
             AstUnionType::Definition(union_name, members) => {
+                // declare the union before its members, because they can point to it
+                let declared_union_id = match union_name {
+                    Some(Identifier(name)) => {
+                        Some(match context.resolve_union_tag_in_current_scope(name) {
+                            Some(union_id) if prog.get_union_type(&union_id)?.is_incomplete() => {
+                                union_id
+                            }
+                            Some(_) => {
+                                return Err(MiddleEndError::DuplicateTypeDeclaration(
+                                    name.to_owned(),
+                                ))
+                            }
+                            None => {
+                                let union_id =
+                                    prog.new_union_type(UnionType::named(name.to_owned()));
+                                context.add_union_tag(name.to_owned(), union_id.to_owned())?;
+                                union_id
+                            }
+                        })
+                    }
+                    None => None,
+                };
                 let mut union_type = match union_name {
                     Some(Identifier(name)) => UnionType::named(name.to_owned()),
                     None => UnionType::unnamed(),
                 };
                 for member in members {
-                    for decl in &member.1 {
+                    for (decl_index, decl) in member.1.iter().enumerate() {
                         let (member_type_info, member_name, _params) = match get_type_info(
                             &member.0,
                             Some(decl.to_owned()),
-                            false,
+                            is_duplicate_specifier || decl_index > 0,
                             prog,
                             context,
                         )? {
@@ -134,10 +193,13 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let union_type_id = prog.add_union_type(union_type)?;
-                if let Some(Identifier(name)) = union_name {
-                    context.add_union_tag(name.to_owned(), union_type_id.to_owned())?;
-                }
+                let union_type_id = match declared_union_id {
+                    Some(union_id) => {
+                        prog.define_union_type(&union_id, union_type);
+                        union_id
+                    }
+                    None => prog.add_union_type(union_type)?,
+                };
                 IrType::Union(union_type_id)
             }
         },
@@ -150,10 +212,12 @@ pub fn get_type_info(
                 }
                 EnumType::Definition(enum_name, enum_constants) => {
                     let mut skip_constant_definition = false;
+                    if is_duplicate_specifier {
+                        skip_constant_definition = true;
+                    }
                     if let Some(Identifier(enum_name)) = enum_name {
                         if is_duplicate_specifier {
                             context.resolve_identifier_to_enum_tag(enum_name)?;
-                            skip_constant_definition = true;
                         } else {
                             context.add_enum_tag(enum_name.to_owned())?;
                         }
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index ac8c163..8d3cd77 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -215,6 +215,18 @@ impl ProgramMetadata {
         Ok(struct_id)
     }
 
+    /// Add a new struct type, which is different from all other struct types
+    pub fn new_struct_type(&mut self, struct_type: StructType) -> StructId {
+        let struct_id = self.struct_id_generator.new_id();
+        self.structs.insert(struct_id.to_owned(), struct_type);
+        struct_id
+    }
+
+    /// Set the members of a struct type that has been declared before
+    pub fn define_struct_type(&mut self, struct_id: &StructId, struct_type: StructType) {
+        self.structs.insert(struct_id.to_owned(), struct_type);
+    }
+
     pub fn get_struct_type(&self, struct_id: &StructId) -> Result<StructType, MiddleEndError> {
         match self.structs.get(struct_id) {
             None => Err(MiddleEndError::TypeNotFound),
@@ -234,6 +246,18 @@ impl ProgramMetadata {
         Ok(union_id)
     }
 
+    /// Add a new union type, which is different from all other union types
+    pub fn new_union_type(&mut self, union_type: UnionType) -> UnionId {
+        let union_id = self.union_id_generator.new_id();
+        self.unions.insert(union_id.to_owned(), union_type);
+        union_id
+    }
+
+    /// Set the members of a union type that has been declared before
+    pub fn define_union_type(&mut self, union_id: &UnionId, union_type: UnionType) {
+        self.unions.insert(union_id.to_owned(), union_type);
+    }
+
     pub fn get_union_type(&self, union_id: &UnionId) -> Result<UnionType, MiddleEndError> {
         match self.unions.get(union_id) {
             None => Err(MiddleEndError::TypeNotFound),
@@ -408,6 +432,14 @@ impl Program {
         self.program_metadata.add_struct_type(struct_type)
     }
 
+    pub fn new_struct_type(&mut self, struct_type: StructType) -> StructId {
+        self.program_metadata.new_struct_type(struct_type)
+    }
+
+    pub fn define_struct_type(&mut self, struct_id: &StructId, struct_type: StructType) {
+        self.program_metadata.define_struct_type(struct_id, struct_type)
+    }
+
     pub fn get_struct_type(&self, struct_id: &StructId) -> Result<StructType, MiddleEndError> {
         self.program_metadata.get_struct_type(struct_id)
     }
@@ -416,6 +448,14 @@ impl Program {
         self.program_metadata.add_union_type(union_type)
     }
 
+    pub fn new_union_type(&mut self, union_type: UnionType) -> UnionId {
+        self.program_metadata.new_union_type(union_type)
+    }
+
+    pub fn define_union_type(&mut self, union_id: &UnionId, union_type: UnionType) {
+        self.program_metadata.define_union_type(union_id, union_type)
+    }
+
     pub fn get_union_type(&self, union_id: &UnionId) -> Result<UnionType, MiddleEndError> {
         self.program_metadata.get_union_type(union_id)
     }
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index ec745f1..0991fa9 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -103,6 +103,12 @@ impl IrType {
     pub fn get_storage_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(_, _) => self.get_array_byte_size(prog),
+            IrType::Struct(struct_id) if prog.get_struct_type(struct_id)?.is_incomplete() => {
+                Err(MiddleEndError::IncompleteType)
+            }
+            IrType::Union(union_id) if prog.get_union_type(union_id)?.is_incomplete() => {
+                Err(MiddleEndError::IncompleteType)
+            }
             t => Ok(t.get_byte_size(prog)),
         }
     }
@@ -465,6 +471,11 @@ impl StructType {
         Ok(())
     }
 
+    /// whether this struct type has been declared, but its members haven't
+    pub fn is_incomplete(&self) -> bool {
+        self.members.is_empty()
+    }
+
     pub fn member_count(&self) -> usize {
         self.members.len()
     }
@@ -583,6 +594,11 @@ impl UnionType {
         Ok(())
     }
 
+    /// whether this union type has been declared, but its members haven't
+    pub fn is_incomplete(&self) -> bool {
+        self.member_types.is_empty()
+    }
+
     pub fn has_member(&self, member_name: &str) -> bool {
         self.member_types.contains_key(member_name)
     }
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 1e339ea..3cdfa4a 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -53,6 +53,7 @@ pub enum MiddleEndError {
     CantEvaluateAtCompileTime,
     UnwrapNonFunctionType,
     DereferenceNonPointerType(IrType),
+    IncompleteType,
     InvalidOperation(&'static str),
     TypeConversionError(&'static str, IrType, Option<IrType>),
     UnwrapNonArrayType(IrType),
-- 
2.43.0


From 4b0f2000b79b9e2648d60dbf2bcee8172098aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:22 +0000
Subject: [PATCH 24/62] fix: keep global variables in their own memory, and
 base stack slot sharing on the whole flowgraph

---
 src/back_end/dataflow_analysis/clash_graph.rs | 17 +++++++++++-
 .../dataflow_analysis/dead_code_analysis.rs   | 24 +++++++++++++++--
 src/back_end/dataflow_analysis/flowgraph.rs   | 27 ++++++++++++++-----
 .../stack_allocation/allocate_vars.rs         |  3 +++
 .../stack_allocation/naive_allocation.rs      |  3 +++
 .../stack_allocation/optimised_allocation.rs  |  5 +++-
 src/back_end/target_code_generation.rs        |  1 +
 7 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/src/back_end/dataflow_analysis/clash_graph.rs b/src/back_end/dataflow_analysis/clash_graph.rs
index 431d579..5f365d4 100644
--- a/src/back_end/dataflow_analysis/clash_graph.rs
+++ b/src/back_end/dataflow_analysis/clash_graph.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::fmt::Formatter;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
+use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
@@ -31,7 +32,7 @@ impl ClashGraph {
     pub fn remove_var(&mut self, var: &VarId) {
         self.clashes.remove(var);
         self.universal_clashes.remove(var);
-        for (var, clashes) in &mut self.clashes {
+        for clashes in self.clashes.values_mut() {
             clashes.remove(var);
         }
     }
@@ -108,6 +109,20 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
 
     let mut clash_graph = ClashGraph::new();
 
+    // writing a var mustn't overwrite any var that's live after the write
+    for (instr_id, instr) in &flowgraph.instrs {
+        for def_var in def_set(instr) {
+            clash_graph.add_var(def_var.to_owned());
+            for successor in flowgraph.successors.get(instr_id).unwrap() {
+                for live_var in live_vars.get(successor).unwrap() {
+                    if live_var != &def_var {
+                        clash_graph.add_clash(def_var.to_owned(), live_var.to_owned());
+                    }
+                }
+            }
+        }
+    }
+
     for (_instr, simultaneously_live_vars) in live_vars {
         if simultaneously_live_vars.len() < 2 {
             // no clashes
diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..aea3820 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,15 +1,20 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_vars: &HashMap<VarId, u32>,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     let mut changes = true;
@@ -18,6 +23,16 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
         let live_vars = live_variable_analysis(&flowgraph);
 
+        // the value of these vars can be read without an instr that references them
+        let address_taken_vars: HashSet<VarId> = flowgraph
+            .instrs
+            .values()
+            .filter_map(|instr| match instr {
+                Instruction::AddressOf(_, _, src) => src.unwrap_var().ok(),
+                _ => None,
+            })
+            .collect();
+
         let mut remove_instrs = Vec::new();
         let mut replace_instrs = HashMap::new();
 
@@ -33,6 +48,11 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
 
+                if address_taken_vars.contains(&def_var) || global_vars.contains_key(&def_var) {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
+
                 for successor in flowgraph.successors.get(instr_id).unwrap() {
                     let is_live_at_successor = live_vars.get(successor).unwrap().contains(&def_var);
                     if is_live_at_successor {
diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..6dd11d9 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -61,13 +61,16 @@ impl Flowgraph {
         self.successors.remove(instr_id);
         self.predecessors.remove(instr_id);
 
-        for successor_id in self.successors.keys() {
-            self.predecessors
-                .insert(successor_id.to_owned(), predecessors.to_owned());
+        // connect every predecessor of the removed instr to every successor
+        for successor_id in &successors {
+            let successor_predecessors = self.predecessors.get_mut(successor_id).unwrap();
+            successor_predecessors.remove(instr_id);
+            successor_predecessors.extend(predecessors.to_owned());
         }
-        for predecessor_id in self.predecessors.keys() {
-            self.successors
-                .insert(predecessor_id.to_owned(), successors.to_owned());
+        for predecessor_id in &predecessors {
+            let predecessor_successors = self.successors.get_mut(predecessor_id).unwrap();
+            predecessor_successors.remove(instr_id);
+            predecessor_successors.extend(successors.to_owned());
         }
 
         if self.entries.contains(instr_id) {
@@ -128,6 +131,11 @@ fn add_block_to_flowgraph_and_get_entries_and_exits(
 
                 jump_exit_instrs.extend(next_jump_exit_instrs);
 
+                if successors.is_empty() {
+                    // there are no instrs in the next block, so we leave it where we leave this one
+                    return (block_entry_instrs, block_exit_instrs, jump_exit_instrs);
+                }
+
                 for successor in successors {
                     for end_of_block_instr in &block_exit_instrs {
                         flowgraph
@@ -320,11 +328,16 @@ fn add_instrs_to_flowgraph(
                     flowgraph.add_successor(prev_instr_id.to_owned(), instr_id.to_owned());
                 }
 
-                let (instrs1_entry, instrs1_exits, instrs1_jump_exits) =
+                let (instrs1_entry, mut instrs1_exits, instrs1_jump_exits) =
                     add_instrs_to_flowgraph(instrs1, flowgraph);
                 let (instrs2_entry, instrs2_exits, instrs2_jump_exits) =
                     add_instrs_to_flowgraph(instrs2, flowgraph);
 
+                if instrs1_entry.is_none() || instrs2_entry.is_none() {
+                    // control goes straight past an empty branch
+                    instrs1_exits.insert(instr_id.to_owned());
+                }
+
                 if let Some(entry) = instrs1_entry {
                     flowgraph.add_successor(instr_id.to_owned(), entry);
                 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..7e5c2e5 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -59,6 +60,7 @@ pub fn allocate_local_vars(
         optimised_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
@@ -69,6 +71,7 @@ pub fn allocate_local_vars(
         naive_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..b31b376 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -13,6 +13,7 @@ use crate::relooper::blocks::Block;
 pub fn naive_allocate_local_vars(
     block: &Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -25,6 +26,8 @@ pub fn naive_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars.remove(param_var);
     }
+    // global vars are already allocated
+    vars.retain(|var, _| !global_var_addrs.contains_key(var));
 
     let mut offset = 0;
 
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..8f098cb 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -22,13 +22,14 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_var_addrs, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -42,6 +43,8 @@ pub fn optimised_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars_to_allocate.remove(param_var);
     }
+    // global vars are already allocated
+    vars_to_allocate.retain(|var, _| !global_var_addrs.contains_key(var));
 
     // pop vars from clash graph onto a stack
     let mut var_allocation_stack: VarAllocationStack = Vec::new();
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 9bf4a8d..9d1670f 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -265,6 +265,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From dbff12617b8c7f121248182e0527dce18166cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 25/62] fix: keep the frame of a tail-calling function while
 the callee may use it, and rewrite every tail call of a function

---
 src/back_end/stack_frame_operations.rs        | 22 +++++++++++--
 .../middle_end_optimiser/ir_optimiser.rs      | 14 ++++++++
 .../tail_call_optimise.rs                     | 32 +++++++++++++++++--
 3 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index 02fee81..d1f1552 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -385,10 +385,28 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     // before we copy them to their new param position
     // use temp_fp to hold the stack ptr value, so we can offset from it while
     // constructing the new stack frame
-    // todo make sure this is definitely after the space for all the new params
     set_temp_frame_ptr_to_stack_ptr(wasm_instrs);
 
-    let mut temp_stack_ptr_offset = 0;
+    // start the temp space at an offset of the size of the new stack frame, so it's definitely
+    // after the space for all the new params
+    let mut temp_stack_ptr_offset = PTR_SIZE as u64
+        + return_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    for param_index in 0..params.len() {
+        let param_type = match params.get(param_index).unwrap() {
+            Src::Constant(constant) if param_index >= param_types.len() => {
+                constant.get_type_minimum_i32()
+            }
+            Src::Constant(_) => param_types.get(param_index).unwrap().to_owned(),
+            param => param.get_type(prog_metadata).unwrap(),
+        };
+        temp_stack_ptr_offset += param_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    }
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
diff --git a/src/middle_end/middle_end_optimiser/ir_optimiser.rs b/src/middle_end/middle_end_optimiser/ir_optimiser.rs
index 4a482bc..3f62d01 100644
--- a/src/middle_end/middle_end_optimiser/ir_optimiser.rs
+++ b/src/middle_end/middle_end_optimiser/ir_optimiser.rs
@@ -1,3 +1,4 @@
+use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::Program;
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::middle_end_optimiser::remove_redundancy::remove_unused_labels;
@@ -9,12 +10,25 @@ pub fn optimise_ir(
     prog: &mut Program,
     enabled_optimisations: &EnabledOptimisations,
 ) -> Result<(), MiddleEndError> {
+    let global_vars = prog
+        .program_instructions
+        .global_instrs
+        .iter()
+        .filter_map(|instr| match instr {
+            Instruction::DeclareVariable(_, var) | Instruction::AllocateVariable(_, var, _) => {
+                Some(var.to_owned())
+            }
+            _ => None,
+        })
+        .collect();
+
     for (fun_id, function) in &mut prog.program_instructions.functions {
         if enabled_optimisations.is_tail_call_optimisation_enabled() {
             tail_call_optimise(
                 &mut function.instrs,
                 fun_id,
                 &function.param_var_mappings,
+                &global_vars,
                 &mut prog.program_metadata,
             );
         }
diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..ea31f1b 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use crate::middle_end::ids::{FunId, ValueType, VarId};
 use crate::middle_end::instructions::{Dest, Instruction, Src};
 use crate::middle_end::ir::ProgramMetadata;
@@ -6,8 +8,18 @@ pub fn tail_call_optimise(
     fun_instrs: &mut Vec<Instruction>,
     this_fun_id: &FunId,
     param_var_mappings: &[VarId],
+    global_vars: &HashSet<VarId>,
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // a tail call reuses the stack frame of the caller, so it can't be optimised if the callee
+    // could have a pointer to something in that frame
+    if fun_instrs
+        .iter()
+        .any(|instr| exposes_stack_frame(instr, global_vars))
+    {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
@@ -42,7 +54,8 @@ pub fn tail_call_optimise(
                                 // first make a temp copy of each of the param vars, so we don't
                                 // accidentally overwrite a value before we use it in another param
                                 let mut temp_param_vars = Vec::new();
-                                for param_i in 0..params.len() {
+                                // (the function can't use any variadic arguments)
+                                for param_i in 0..param_var_mappings.len() {
                                     let new_param_src = params.get(param_i).unwrap();
                                     let temp_var = prog_metadata.new_var(ValueType::RValue);
                                     prog_metadata
@@ -59,7 +72,7 @@ pub fn tail_call_optimise(
                                     ));
                                 }
                                 // store the temp params to the actual params
-                                for param_i in 0..params.len() {
+                                for param_i in 0..param_var_mappings.len() {
                                     let temp_param = temp_param_vars.get(param_i).unwrap();
                                     let param_var = param_var_mappings.get(param_i).unwrap();
                                     new_instrs.push(Instruction::SimpleAssignment(
@@ -97,7 +110,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace the last instrs first, so that the indexes of the others stay valid
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
@@ -108,3 +122,15 @@ pub fn tail_call_optimise(
         }
     }
 }
+
+/// Whether the instruction makes a pointer to an object in the stack frame of the function
+fn exposes_stack_frame(instr: &Instruction, global_vars: &HashSet<VarId>) -> bool {
+    match instr {
+        Instruction::AllocateVariable(..) => true,
+        Instruction::AddressOf(_, _, src) => match src {
+            Src::Var(var) | Src::StoreAddressVar(var) => !global_vars.contains(var),
+            _ => false,
+        },
+        _ => false,
+    }
+}
-- 
2.43.0


From 0ce49bb91b6d30acbf730370f553e66de7fd3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 26/62] fix: place global variables below the program
 arguments, which the runtime puts on the stack

---
 src/back_end/initialise_memory.rs             | 23 +++++++++++++++----
 .../stack_allocation/allocate_vars.rs         | 13 +++--------
 .../stack_allocation/naive_allocation.rs      | 11 ++-------
 src/back_end/target_code_generation.rs        | 10 ++++----
 4 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index a591ff6..74e65ae 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -43,11 +43,7 @@ pub fn initialise_memory(
 
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
-    info!("Setting stack ptr to {}", stack_ptr_value);
-    data[STACK_PTR_ADDR as usize] = (stack_ptr_value & 0xFF) as u8;
-    data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0xFF) as u8;
-    data[(STACK_PTR_ADDR + 2) as usize] = ((stack_ptr_value >> 16) & 0xFF) as u8;
-    data[(STACK_PTR_ADDR + 3) as usize] = ((stack_ptr_value >> 24) & 0xFF) as u8;
+    store_stack_ptr_value(stack_ptr_value as u32, &mut data);
 
     // insert data segment to module
     let data_segment = DataSegment::ActiveSegmentMemIndexZero {
@@ -72,3 +68,20 @@ pub fn initialise_memory(
 
     stack_ptr_value as u32
 }
+
+/// Change the value the stack pointer has at the start of the program
+pub fn set_initial_stack_ptr(wasm_module: &mut WasmModule, stack_ptr_value: u32) {
+    for data_segment in &mut wasm_module.data_section.data_segments {
+        if let DataSegment::ActiveSegmentMemIndexZero { data, .. } = data_segment {
+            store_stack_ptr_value(stack_ptr_value, data);
+        }
+    }
+}
+
+fn store_stack_ptr_value(stack_ptr_value: u32, data: &mut [u8]) {
+    info!("Setting stack ptr to {}", stack_ptr_value);
+    data[STACK_PTR_ADDR as usize] = (stack_ptr_value & 0xFF) as u8;
+    data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0xFF) as u8;
+    data[(STACK_PTR_ADDR + 2) as usize] = ((stack_ptr_value >> 16) & 0xFF) as u8;
+    data[(STACK_PTR_ADDR + 3) as usize] = ((stack_ptr_value >> 24) & 0xFF) as u8;
+}
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7e5c2e5..a947a83 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -81,18 +81,11 @@ pub fn allocate_local_vars(
     }
 }
 
+/// Returns the address of each global variable, and the first address after all of them
 pub fn allocate_global_vars(
     block: &Block,
     initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+) -> (VariableAllocationMap, u32) {
+    naive_allocate_global_vars(block, initial_top_of_stack_addr, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index b31b376..ab70e19 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -55,16 +55,12 @@ pub fn naive_allocate_local_vars(
 pub fn naive_allocate_global_vars(
     block: &Block,
     initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
+) -> (VariableAllocationMap, u32) {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
     let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -76,10 +72,7 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
-    var_addrs
+    (var_addrs, addr)
 }
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 9d1670f..f539c35 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, VecDeque};
 use log::{debug, info};
 
 use crate::back_end::backend_error::BackendError;
-use crate::back_end::initialise_memory::initialise_memory;
+use crate::back_end::initialise_memory::{initialise_memory, set_initial_stack_ptr};
 use crate::back_end::memory_constants::PTR_SIZE;
 use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
@@ -101,13 +101,15 @@ pub fn generate_target_code(
 
     let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
+        let (var_addrs, top_of_stack_addr) = allocate_global_vars(
             &global_block,
             initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
             &prog.program_metadata,
         );
+        global_var_addrs = var_addrs;
+        // the runtime puts the program arguments on top of the stack before calling main, so the
+        // stack must already start after the global variables
+        set_initial_stack_ptr(&mut wasm_module, top_of_stack_addr);
 
         // let var_offsets = allocate_local_vars(
         //     &global_block,
-- 
2.43.0


From a49ee20c5f29971a8ce942f25378b3030765d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 27/62] fix: accept a subscript whose left operand is the
 integer

---
 src/middle_end/ast_to_ir.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index de376c4..f20f2db 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -960,10 +960,17 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut index_instrs);
 
             // unary conversion
-            let (mut unary_convert_arr_instrs, arr_var) = unary_convert(arr_var, prog)?;
+            let (mut unary_convert_arr_instrs, mut arr_var) = unary_convert(arr_var, prog)?;
             instrs.append(&mut unary_convert_arr_instrs);
             let (mut unary_convert_index_instrs, mut index_var) = unary_convert(index_var, prog)?;
             instrs.append(&mut unary_convert_index_instrs);
+            // either operand can be the pointer
+            if index_var
+                .get_type(&prog.program_metadata)?
+                .is_pointer_type()
+            {
+                std::mem::swap(&mut arr_var, &mut index_var);
+            }
             let arr_var_type = arr_var.get_type(&prog.program_metadata)?;
             arr_var_type.require_pointer_type()?;
             // the type of the actual array elements
-- 
2.43.0


From 33b987742eca4d051b44d6b267d0c296d57d90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 28/62] fix: accept repeated declarations of a function or
 global variable as one, and report redefinitions

---
 src/middle_end/ast_to_ir.rs        | 97 ++++++++++++++++++++----------
 src/middle_end/context.rs          | 22 ++++++-
 src/middle_end/ir.rs               |  8 ++-
 src/middle_end/middle_end_error.rs |  4 ++
 4 files changed, 97 insertions(+), 34 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f20f2db..fd2574a 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -416,6 +416,12 @@ fn convert_statement_to_ir(
                                     }
                                     // the type must be complete
                                     type_info.get_storage_byte_size(&prog.program_metadata)?;
+                                    if context
+                                        .resolve_global_declaration(&name, &type_info)
+                                        .is_some()
+                                    {
+                                        continue;
+                                    }
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -522,35 +528,38 @@ fn convert_statement_to_ir(
                                             src = converted_var;
                                         }
 
-                                        let dest = prog.new_var(ValueType::LValue);
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            src.get_type(&prog.program_metadata)?,
+                                        let (dest, is_new) = declare_initialised_variable(
+                                            &name,
+                                            &src.get_type(&prog.program_metadata)?,
+                                            prog,
+                                            context,
                                         )?;
                                         instrs.push(Instruction::SimpleAssignment(
                                             prog.new_instr_id(),
                                             dest.to_owned(),
                                             src,
                                         ));
-                                        context.add_variable_to_scope(
-                                            name,
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
-                                        )?;
+                                        if is_new {
+                                            context.add_variable_to_scope(
+                                                name,
+                                                dest.to_owned(),
+                                                dest_type_info.to_owned(),
+                                            )?;
+                                        }
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::ArrayOf(member_type, size);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
+                                            let (dest, is_new) = declare_initialised_variable(
+                                                &name, &dest_type, prog, context,
                                             )?;
+                                            if is_new {
+                                                context.add_variable_to_scope(
+                                                    name,
+                                                    dest.to_owned(),
+                                                    dest_type.to_owned(),
+                                                )?;
+                                            }
 
                                             let array_byte_size = match dest_type
                                                 .get_array_byte_size(&prog.program_metadata)?
@@ -567,11 +576,13 @@ fn convert_statement_to_ir(
                                                     size_var
                                                 }
                                             };
-                                            instrs.push(Instruction::AllocateVariable(
-                                                prog.new_instr_id(),
-                                                dest.to_owned(),
-                                                array_byte_size,
-                                            ));
+                                            if is_new {
+                                                instrs.push(Instruction::AllocateVariable(
+                                                    prog.new_instr_id(),
+                                                    dest.to_owned(),
+                                                    array_byte_size,
+                                                ));
+                                            }
 
                                             let mut init_instrs = array_initialiser(
                                                 dest,
@@ -583,17 +594,17 @@ fn convert_statement_to_ir(
                                             instrs.append(&mut init_instrs);
                                         }
                                         IrType::Struct(struct_id) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::Struct(struct_id);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
+                                            let (dest, is_new) = declare_initialised_variable(
+                                                &name, &dest_type, prog, context,
                                             )?;
+                                            if is_new {
+                                                context.add_variable_to_scope(
+                                                    name,
+                                                    dest.to_owned(),
+                                                    dest_type.to_owned(),
+                                                )?;
+                                            }
 
                                             instrs.push(Instruction::DeclareVariable(
                                                 prog.new_instr_id(),
@@ -2271,3 +2282,25 @@ pub fn convert_expression_to_ir(
         }
     }
 }
+
+/// Finds the variable that a declaration with an initialiser declares: a new one, unless it repeats
+/// the declaration of a global variable. Returns whether the variable is new.
+fn declare_initialised_variable(
+    name: &str,
+    type_info: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(VarId, bool), MiddleEndError> {
+    let existing_var = context.resolve_global_declaration(name, type_info);
+    let is_new = existing_var.is_none();
+    let var = existing_var.unwrap_or_else(|| prog.new_var(ValueType::LValue));
+    if is_new {
+        prog.add_var_type(var.to_owned(), type_info.to_owned())?;
+    }
+    if !context.initialised_globals.insert(var.to_owned()) {
+        return Err(MiddleEndError::DuplicateVariableDeclaration(
+            name.to_owned(),
+        ));
+    }
+    Ok((var, is_new))
+}
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 340c421..80e4320 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -18,6 +18,8 @@ pub struct Context {
     pub defined_labels: HashSet<String>,
     /// return type of the function we're currently converting
     pub function_return_type: Option<IrType>,
+    /// global variables whose declaration has an initialiser
+    pub initialised_globals: HashSet<VarId>,
 }
 
 pub enum IdentifierResolveResult {
@@ -35,6 +37,7 @@ impl Context {
             directly_on_lhs_of_assignment: false,
             defined_labels: HashSet::new(),
             function_return_type: None,
+            initialised_globals: HashSet::new(),
         }
     }
 
@@ -206,6 +209,16 @@ impl Context {
         }
     }
 
+    /// Finds the variable of an earlier declaration of the same global variable
+    pub fn resolve_global_declaration(&self, name: &str, type_info: &IrType) -> Option<VarId> {
+        match self.scope_stack.as_slice() {
+            [global_scope] => global_scope
+                .resolve_identifier_to_var(name)
+                .filter(|var| global_scope.variable_types.get(var) == Some(type_info)),
+            _ => None,
+        }
+    }
+
     // pub fn resolve_identifier_to_var(
     //     &self,
     //     identifier_name: &str,
@@ -492,6 +505,13 @@ impl Scope {
         var: VarId,
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
+        if self.variable_names.contains_key(&identifier_name)
+            || self.enum_constants.contains_key(&identifier_name)
+        {
+            return Err(MiddleEndError::DuplicateVariableDeclaration(
+                identifier_name,
+            ));
+        }
         self.variable_names.insert(identifier_name, var.to_owned());
         self.variable_types.insert(var, type_info);
         Ok(())
@@ -521,7 +541,7 @@ impl Scope {
         name: String,
         value: EnumConstant,
     ) -> Result<(), MiddleEndError> {
-        if self.enum_constants.contains_key(&name) {
+        if self.enum_constants.contains_key(&name) || self.variable_names.contains_key(&name) {
             return Err(MiddleEndError::DuplicateEnumConstantDeclaration(name));
         }
         trace!("Setting enum constant {} = {}", name, value);
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index 8d3cd77..02f974b 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -369,6 +369,12 @@ impl Program {
         name: String,
         fun: Function,
     ) -> Result<FunId, MiddleEndError> {
+        // the same declaration can be repeated
+        if let Some(existing_fun_id) = self.program_metadata.function_ids.get(&name) {
+            if self.get_fun_type(existing_fun_id)? == fun.type_info {
+                return Ok(existing_fun_id.to_owned());
+            }
+        }
         let fun_id = self.program_metadata.new_fun_declaration(name)?;
         self.program_metadata
             .function_types
@@ -392,7 +398,7 @@ impl Program {
                     .functions
                     .get(existing_fun_id)
                     .unwrap();
-                if existing_fun.type_info != fun.type_info {
+                if existing_fun.type_info != fun.type_info || existing_fun.body_is_defined {
                     return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
                 }
                 self.program_metadata
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 3cdfa4a..7dd47b8 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -24,6 +24,7 @@ pub enum MiddleEndError {
     InvalidLValue,
     DuplicateFunctionDeclaration(String),
     DuplicateTypeDeclaration(String),
+    DuplicateVariableDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
     InvalidDeclaration,
     InvalidAbstractDeclarator,
@@ -120,6 +121,9 @@ impl fmt::Display for MiddleEndError {
             MiddleEndError::DuplicateTypeDeclaration(t) => {
                 write!(f, "Duplicate typedef declaration: \"{t}\"")
             }
+            MiddleEndError::DuplicateVariableDeclaration(name) => {
+                write!(f, "Duplicate declaration: \"{name}\"")
+            }
             MiddleEndError::InvalidTypedefDeclaration => {
                 write!(f, "Invalid typedef declaration")
             }
-- 
2.43.0


From 0ecd16eb8ec1eed167c18e49e2b1e640c50c7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 29/62] fix: recognise typedef names of one character

---
 src/front_end/lexer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index a49b1f3..d03a482 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -597,14 +597,8 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() => Some(lex_identifier(c.to_string(), typedef_names)),
+                '_' => Some(lex_identifier("_".to_owned(), typedef_names)),
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From d04b9586a3c202e983cce48928df2579611f55c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 30/62] fix: compile on a thread with a large stack, so that
 long expressions and deep nesting don't overflow it

---
 src/main.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0c08733..bcf1da0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,13 @@ extern crate log;
 
 use c_to_wasm_compiler::CliConfig;
 use clap::Parser;
+use std::panic;
 use std::process;
+use std::thread;
+
+/// The compiler recurses over the nested structure of the program, so how deeply a program can
+/// be nested depends on the size of the stack.
+const STACK_SIZE: usize = 1 << 30;
 
 fn main() {
     pretty_env_logger::init();
@@ -16,8 +22,16 @@ fn main() {
     debug!("Cli arguments: {:?}", args);
 
     // run program and handle error
-    if let Err(e) = c_to_wasm_compiler::run(args) {
-        error!("Compile error: {e}");
-        process::exit(1);
+    let compiler = thread::Builder::new()
+        .stack_size(STACK_SIZE)
+        .spawn(|| c_to_wasm_compiler::run(args).map_err(|e| e.to_string()))
+        .expect("failed to start the compiler thread");
+    match compiler.join() {
+        Ok(Ok(())) => (),
+        Ok(Err(e)) => {
+            error!("Compile error: {e}");
+            process::exit(1);
+        }
+        Err(e) => panic::resume_unwind(e),
     }
 }
-- 
2.43.0


From ce2cbf0c1c8bd6e26da3c0be126b81c6a1f2e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 31/62] fix: return at the end of a function body whose last
 statement is in a loop block

---
 src/middle_end/ast_to_ir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index fd2574a..5357ebf 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -693,7 +693,11 @@ fn convert_statement_to_ir(
             };
             context.defined_labels.clear();
             prog.program_metadata.label_ids.clear();
-            let instrs = convert_statement_to_ir(*body, prog, context)?;
+            let mut instrs = convert_statement_to_ir(*body, prog, context)?;
+            // reaching the end of the body returns from the function
+            if !matches!(instrs.last(), Some(Instruction::Ret(..))) {
+                instrs.push(Instruction::Ret(prog.new_instr_id(), None));
+            }
             // allocate arrays once, on entry to the function, because control can jump into
             // the scope of an array past its declaration, or reach the declaration repeatedly
             let (mut allocate_instrs, mut body_instrs): (Vec<_>, Vec<_>) =
-- 
2.43.0


From 153249de5e3c5f47d8a099f5d76735ddff6a1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 32/62] fix: report type specifiers that are given more than
 once

---
 src/front_end/ast.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 023cc12..7a81e85 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -626,17 +626,21 @@ impl ArithmeticType {
     fn create_from_type_specifiers(types: Vec<TypeSpecifierToken>) -> Result<Self, AstError> {
         // bitfield: double float | unsigned signed | long int short char
         let mut bitfield = 0;
+        let mut long_count = 0;
         for t in types {
-            match t {
+            let bit = match t {
                 TypeSpecifierToken::ArithmeticType(at) => match at {
-                    ArithmeticTypeSpecifierToken::Char => bitfield |= 0b1,
-                    ArithmeticTypeSpecifierToken::Short => bitfield |= 0b10,
-                    ArithmeticTypeSpecifierToken::Int => bitfield |= 0b100,
-                    ArithmeticTypeSpecifierToken::Long => bitfield |= 0b1000,
-                    ArithmeticTypeSpecifierToken::Signed => bitfield |= 0b1_0000,
-                    ArithmeticTypeSpecifierToken::Unsigned => bitfield |= 0b10_0000,
-                    ArithmeticTypeSpecifierToken::Float => bitfield |= 0b100_0000,
-                    ArithmeticTypeSpecifierToken::Double => bitfield |= 0b1000_0000,
+                    ArithmeticTypeSpecifierToken::Char => 0b1,
+                    ArithmeticTypeSpecifierToken::Short => 0b10,
+                    ArithmeticTypeSpecifierToken::Int => 0b100,
+                    ArithmeticTypeSpecifierToken::Long => {
+                        long_count += 1;
+                        0b1000
+                    }
+                    ArithmeticTypeSpecifierToken::Signed => 0b1_0000,
+                    ArithmeticTypeSpecifierToken::Unsigned => 0b10_0000,
+                    ArithmeticTypeSpecifierToken::Float => 0b100_0000,
+                    ArithmeticTypeSpecifierToken::Double => 0b1000_0000,
                 },
                 TypeSpecifierToken::Void
                 | TypeSpecifierToken::Struct(_)
@@ -647,7 +651,14 @@ impl ArithmeticType {
                         "Conflicting types declared",
                     ))
                 }
+            };
+            // only `long` can be given more than once: long long is the same type as long
+            if bitfield & bit != 0 && (bit != 0b1000 || long_count > 2) {
+                return Err(AstError::InvalidTypeDeclaration(
+                    "Type specifier given more than once",
+                ));
             }
+            bitfield |= bit;
         }
         match bitfield {
             // signed char (make char by itself be signed, like GCC)
-- 
2.43.0


From 248b5194f00a21d86f410d2db4f56588fd530b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 33/62] fix: report string literals and char constants that
 aren't closed on their line

---
 src/front_end/lexer.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index d03a482..f59cc20 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -250,7 +250,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return match fsm.state {
                         // EOF
                         State::Start => None,
-                        _ => match fsm.token {
+                        _ => match fsm.finished_token() {
                             Some(t) => Some(Ok((start.unwrap(), t, end.unwrap() + 1))),
                             None => Some(Err(LexError::InvalidEOF)),
                         },
@@ -266,7 +266,7 @@ impl<'input> Iterator for Lexer<'input> {
                 start = Some(i.to_owned());
             }
             end = Some(i.to_owned());
-            let current_token = fsm.token.to_owned();
+            let current_token = fsm.finished_token();
             let new_state = fsm.step(c.to_owned(), &self.typedef_names);
             match new_state {
                 Some(f) => {
@@ -489,6 +489,26 @@ impl Fsm {
         }
     }
 
+    /// The token that's been read so far, if it could end here. String literals and char
+    /// constants only end with their closing quote.
+    fn finished_token(&self) -> Option<Token> {
+        match self.state {
+            State::String1
+            | State::String2
+            | State::String3
+            | State::Char1
+            | State::Char2
+            | State::Char3
+            | State::Char4
+            | State::Char5
+            | State::Char6
+            | State::Char7
+            | State::Char8
+            | State::Char9 => None,
+            _ => self.token.to_owned(),
+        }
+    }
+
     fn step(self, input: char, typedef_names: &[String]) -> Option<Self> {
         match self.state {
             State::Start => match input {
@@ -996,6 +1016,7 @@ impl Fsm {
                 _ => None,
             },
             State::String1 => match input {
+                '\n' => None,
                 '\\' => Some(Fsm {
                     state: State::String2,
                     token: Some(Token::StringLiteral("\\".to_owned())),
@@ -1010,7 +1031,7 @@ impl Fsm {
                 }),
             },
             State::String2 => match self.token {
-                Some(Token::StringLiteral(mut s)) => {
+                Some(Token::StringLiteral(mut s)) if input != '\n' => {
                     s.push(input);
                     Some(Fsm {
                         state: State::String3,
@@ -1020,6 +1041,7 @@ impl Fsm {
                 _ => None,
             },
             State::String3 => match input {
+                '\n' => None,
                 '\\' => match self.token {
                     Some(Token::StringLiteral(s)) => Some(Fsm {
                         state: State::String2,
@@ -1051,8 +1073,8 @@ impl Fsm {
                     state: State::Char2,
                     token: Some(Token::CharConstant("\\".to_owned())),
                 }),
-                // empty char constant isn't allowed
-                '\'' => None,
+                // empty char constant isn't allowed, and it can't continue on the next line
+                '\'' | '\n' => None,
                 c => Some(Fsm {
                     state: State::Char9,
                     token: Some(Token::CharConstant(c.to_string())),
-- 
2.43.0


From 52aa5160b74102be548ca4396e7ee32ee400e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 34/62] fix: accept floating constants whose digits start with
 0 and contain 8 or 9

---
 src/front_end/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index f59cc20..63cd12f 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -947,7 +947,8 @@ impl Fsm {
                     state: State::Hex1,
                     token: Some(Token::HexConstant("0x".to_owned())),
                 }),
-                c if c.is_digit(8) => {
+                // digits 8 and 9 are only valid if this becomes a floating constant, such as 09.5
+                c if c.is_ascii_digit() => {
                     let s = format!("0{c}");
                     Some(Fsm {
                         state: State::Oct2,
@@ -977,7 +978,8 @@ impl Fsm {
                     }
                     _ => None,
                 },
-                c if c.is_digit(8) => match self.token {
+                // digits 8 and 9 are only valid if this becomes a floating constant, such as 09.5
+                c if c.is_ascii_digit() => match self.token {
                     Some(Token::OctalConstant(mut s)) => {
                         s.push(c);
                         Some(Fsm {
-- 
2.43.0


From c3c511c1fb48a6e7cba4121a1f34446b87863e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 35/62] fix: report a variable of a function body that
 redeclares a parameter

---
 src/middle_end/ast_to_ir.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 5357ebf..3ead308 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -693,7 +693,16 @@ fn convert_statement_to_ir(
             };
             context.defined_labels.clear();
             prog.program_metadata.label_ids.clear();
-            let mut instrs = convert_statement_to_ir(*body, prog, context)?;
+            let mut instrs = Vec::new();
+            match *body {
+                // the body is the same scope as the parameters
+                Statement::Block(stmts) => {
+                    for s in stmts {
+                        instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
+                    }
+                }
+                body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
+            }
             // reaching the end of the body returns from the function
             if !matches!(instrs.last(), Some(Instruction::Ret(..))) {
                 instrs.push(Instruction::Ret(prog.new_instr_id(), None));
-- 
2.43.0


From 5f6ddd9cf33f34fcf31c0f4dd8223b4ffb32aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 36/62] fix: report two tags of the same name and different
 kinds in one scope

---
 src/middle_end/context.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 80e4320..4546e16 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -549,8 +549,15 @@ impl Scope {
         Ok(())
     }
 
+    /// The tags of structs, unions and enums share a name space
+    fn has_tag(&self, name: &str) -> bool {
+        self.enum_tags.iter().any(|tag| tag == name)
+            || self.struct_tags.contains_key(name)
+            || self.union_tags.contains_key(name)
+    }
+
     fn add_enum_tag(&mut self, name: String) -> Result<(), MiddleEndError> {
-        if self.enum_tags.contains(&name) {
+        if self.has_tag(&name) {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.enum_tags.push(name);
@@ -568,7 +575,7 @@ impl Scope {
     }
 
     fn add_struct_tag(&mut self, name: String, struct_id: StructId) -> Result<(), MiddleEndError> {
-        if self.struct_tags.contains_key(&name) {
+        if self.has_tag(&name) {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.struct_tags.insert(name, struct_id);
@@ -588,7 +595,7 @@ impl Scope {
     }
 
     fn add_union_tag(&mut self, name: String, union_id: UnionId) -> Result<(), MiddleEndError> {
-        if self.union_tags.contains_key(&name) {
+        if self.has_tag(&name) {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.union_tags.insert(name, union_id);
-- 
2.43.0


From 337f6c19c1e2cff5664ea795797c93bd77e29061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 37/62] fix: resolve #include directives in the C preprocessor,
 which honours their form and conditions

---
 src/preprocessor.rs | 169 ++++++++------------------------------------
 1 file changed, 30 insertions(+), 139 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 5957077..6e0b676 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -1,26 +1,31 @@
 use std::error::Error;
 use std::io;
-use std::io::{BufRead, ErrorKind, Write};
-use std::path::{Path, PathBuf};
+use std::io::{ErrorKind, Write};
+use std::path::Path;
 use std::process::{Command, Stdio};
 use std::{fmt, fs};
 
-use lazy_static::lazy_static;
 use log::info;
-use regex::Regex;
+
+/// The directory of bundled standard library headers
+const HEADERS_DIR: &str = "headers";
 
 pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     info!("Running preprocessor");
 
-    let (mut file_contents, includes) = remove_include_directives(filepath)?;
-
-    info!("Includes: {:?}", includes);
-
-    file_contents = include_headers(file_contents, includes, filepath)?;
-
-    info!("Included headers:\n{file_contents}");
+    let source = match fs::read_to_string(filepath) {
+        Ok(s) => s,
+        Err(e) => {
+            return match e.kind() {
+                ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
+                    filepath.display().to_string(),
+                )),
+                _ => Err(PreprocessorError::IoError(e)),
+            }
+        }
+    };
 
-    let processed_source = match run_c_preprocessor(file_contents) {
+    let processed_source = match run_c_preprocessor(source, filepath) {
         Ok(s) => s,
         Err(e) => return Err(PreprocessorError::CppError(e)),
     };
@@ -30,135 +35,27 @@ pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     Ok(processed_source)
 }
 
-fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), PreprocessorError> {
-    // store the includes we remove from the file
-    let mut includes: Vec<String> = Vec::new();
-    let mut output = String::new();
-
-    match read_lines(filepath) {
-        Ok(lines) => {
-            for line in lines {
-                if let Ok(l) = line {
-                    // check if line is a #include directive
-                    if let Some(include) = check_for_include(&l) {
-                        includes.push(include);
-                        continue;
-                    }
-                    output.push_str(&l);
-                    output.push('\n');
-                }
-            }
-            Ok((output, includes))
-        }
-        Err(e) => match e.kind() {
-            ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
-                filepath.to_str().unwrap().to_owned(),
-            )),
-            _ => Err(PreprocessorError::IoError(e)),
-        },
-    }
-}
-
-/// Checks if the given line is a #include directive.
-/// If so, returns the name of the header file included, or None otherwise
-fn check_for_include(line: &str) -> Option<String> {
-    lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^#include\s[<"](.*)[>"]"#).unwrap();
-    }
-
-    if let Some(captures) = INCLUDE_RE.captures(line) {
-        // store what the include was that we're removing
-        if let Some(captured_include) = captures.get(1) {
-            return Some(captured_include.as_str().to_owned());
-        }
-    }
-
-    None
-}
-
-/// Returns an iterator over the lines of the file
-fn read_lines(filepath: &Path) -> io::Result<io::Lines<io::BufReader<fs::File>>> {
-    let file = fs::File::open(filepath)?;
-    Ok(io::BufReader::new(file).lines())
-}
-
-fn include_headers(
-    mut source: String,
-    mut includes: Vec<String>,
-    filepath: &Path,
-) -> Result<String, PreprocessorError> {
-    loop {
-        if includes.is_empty() {
-            break;
-        }
-        let include_name = includes.pop().unwrap();
-        let header =
-            if include_name == format!("{}.h", filepath.file_stem().unwrap().to_str().unwrap()) {
-                match load_program_header(filepath, &include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            } else {
-                match load_header_file(&include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            };
-        let (header_source, mut new_includes) = header;
-        info!("New includes: {:?}", new_includes);
-        includes.append(&mut new_includes);
-        source.insert(0, '\n');
-        source.insert_str(0, header_source.as_str())
-    }
-    Ok(source)
-}
-
-fn load_program_header(
-    source_filepath: &Path,
-    header_name: &String,
-) -> Result<(String, Vec<String>), PreprocessorError> {
-    let path = match source_filepath.parent() {
-        Some(p) => {
-            let mut path = PathBuf::from(p);
-            path.push(header_name);
-            path
-        }
-        None => PathBuf::from(&header_name),
+/// Runs the C preprocessor over the given source. The headers it can include are those next to
+/// the source file, and the bundled standard library headers.
+fn run_c_preprocessor(source: String, filepath: &Path) -> Result<String, Box<dyn Error>> {
+    let source_dir = match filepath.parent() {
+        Some(p) if p != Path::new("") => p,
+        _ => Path::new("."),
     };
-    remove_include_directives(path.as_path())
-}
-
-fn load_header_file(header_name: &String) -> Result<(String, Vec<String>), PreprocessorError> {
-    let mut path = PathBuf::from("headers");
-    path.push(header_name);
-    remove_include_directives(path.as_path())
-}
-
-/// Runs the C preprocessor over the given source.
-fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
     let mut cpp_child = Command::new("cpp")
         // capture input, output, and error
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .stderr(Stdio::piped())
         // args to cpp
+        .arg("-P") // don't include line marker information
+        .arg("-nostdinc") // don't search for the headers of the system
+        .arg("-I")
+        .arg(source_dir)
+        .arg("-I")
+        .arg(HEADERS_DIR)
         .arg("-") // process from stdin
         .arg("-") // output to stdout
-        .arg("-P") // don't include line marker information
         .spawn()?;
 
     // write the contents of source to stdin for cpp
@@ -174,16 +71,13 @@ fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
     if output.status.success() {
         Ok(String::from_utf8(output.stdout)?)
     } else {
-        // terminate the program if the preprocessor can't parse the file
-        let err = String::from_utf8(output.stderr)?;
-        panic!("C preprocessor failed:\n{err}");
+        Err(format!("\n{}", String::from_utf8_lossy(&output.stderr)).into())
     }
 }
 
 #[derive(Debug)]
 pub enum PreprocessorError {
     FileNotFound(String),
-    UnsupportedHeaderInclude(String),
     IoError(io::Error),
     CppError(Box<dyn Error>),
 }
@@ -191,9 +85,6 @@ pub enum PreprocessorError {
 impl fmt::Display for PreprocessorError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
-            PreprocessorError::UnsupportedHeaderInclude(h) => {
-                write!(f, "Header \"{h}\" not supported")
-            }
             PreprocessorError::IoError(e) => {
                 write!(f, "IO Error occurred during preprocessor: {e}")
             }
-- 
2.43.0


From c33704d41de4f191838d45e9b3eec708094055f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 38/62] fix: don't let the preprocessor define macros such as
 linux and unix

---
 src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 6e0b676..7f63fc1 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -48,6 +48,7 @@ fn run_c_preprocessor(source: String, filepath: &Path) -> Result<String, Box<dyn
         .stdout(Stdio::piped())
         .stderr(Stdio::piped())
         // args to cpp
+        .arg("-std=c11") // don't define macros with names that programs can use, such as linux
         .arg("-P") // don't include line marker information
         .arg("-nostdinc") // don't search for the headers of the system
         .arg("-I")
-- 
2.43.0


From ade52f29b48c99cb47a117125db52d2536bb9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 39/62] fix: let stddef.h and string.h be included together

---
 headers/stddef.h | 3 +++
 headers/string.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/headers/stddef.h b/headers/stddef.h
index bada4d3..5cfded6 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef int size_t;
+#endif
 typedef int ptrdiff_t;
 typedef int wchar_t;
 
diff --git a/headers/string.h b/headers/string.h
index 7bb19d1..96b590e 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef int size_t;
+#endif
 
 size_t strlen(const char *s);
 
-- 
2.43.0


From 24009d47f5a0a853e0ebb03f96623450f7997b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 40/62] fix: classify all characters in ctype.h as C does

---
 headers/ctype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..9ba90b1 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -44,7 +44,7 @@ int ispunct(char c) {
 }
 
 int isprint(char c) {
-    return !iscntrl(c);
+    return c >= ' ' && c <= '~';
 }
 
 int islower(char c) {
@@ -56,7 +56,7 @@ int isupper(char c) {
 }
 
 int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+    return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 char tolower(char c) {
-- 
2.43.0


From 19bbbf3c9c99358b23c9f706d6637c3254739bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 41/62] fix: give the macros of limits.h the values and types
 of this implementation

---
 headers/limits.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..f19c690 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -2,27 +2,27 @@
 #define _LIMITS_H
 
 #define CHAR_BIT 8
-#define SCHAR_MIN -128
+#define SCHAR_MIN (-128)
 #define SCHAR_MAX 127
 #define UCHAR_MAX 255
-#define CHAR_MIN -128
+#define CHAR_MIN (-128)
 #define CHAR_MAX 127
 
-#define SHRT_MIN -32768
+#define SHRT_MIN (-32768)
 #define SHRT_MAX 32767
 #define USHRT_MAX 65535
 
-#define INT_MIN -2147483648
+#define INT_MIN (-INT_MAX - 1)
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 0xffffffff
 
-#define LONG_MIN -9223372036854775808
+#define LONG_MIN (-LONG_MAX - 1)
 #define LONG_MAX 9223372036854775807
-#define ULONG_MAX 18446744073709551615
+#define ULONG_MAX 0xffffffffffffffff
 
 // same as long
-#define LLONG_MIN -9223372036854775808
+#define LLONG_MIN (-LLONG_MAX - 1)
 #define LLONG_MAX 9223372036854775807
-#define ULLONG_MAX 18446744073709551615
+#define ULLONG_MAX 0xffffffffffffffff
 
 #endif
\ No newline at end of file
-- 
2.43.0


From beadef4e7121b9fbfa67531e731ca39fbac262df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 42/62] fix: argv[argc] is a null pointer

---
 runtime/init_memory.mjs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/init_memory.mjs b/runtime/init_memory.mjs
index 62c9b4d..c012bd3 100644
--- a/runtime/init_memory.mjs
+++ b/runtime/init_memory.mjs
@@ -1,4 +1,4 @@
-import {PTR_SIZE} from "./memory_constants.mjs";
+import {NULL, PTR_SIZE} from "./memory_constants.mjs";
 import {read_stack_ptr, store_ptr, store_stack_ptr} from "./memory_operations.mjs";
 
 // put the program arguments into wasm memory
@@ -10,8 +10,9 @@ export const put_args_into_memory = (args, wasm_memory) => {
     const argc = args.length;
     const argv = stack_ptr;
 
-    // allocate space for each pointer in argv
-    stack_ptr += PTR_SIZE * argc;
+    // allocate space for each pointer in argv, and the null pointer after the last one
+    stack_ptr += PTR_SIZE * (argc + 1);
+    store_ptr(argv + (argc * PTR_SIZE), NULL, memory);
 
     // store each arg after each other in memory and null-terminate
     for (let i = 0; i < argc; i++) {
-- 
2.43.0


From 087bfc3351d2e7b4ff942b8993994fd3832e773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 43/62] fix: a declaration without a name is an error instead
 of a panic

---
 src/middle_end/ast_to_ir.rs         | 9 ++-------
 src/middle_end/get_ast_type_info.rs | 5 ++++-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3ead308..a6161af 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -400,12 +400,7 @@ fn convert_statement_to_ir(
                                         prog.new_fun_declaration(name.to_owned(), fun_declaration)?;
                                     context.add_function_declaration(name, fun_id)?;
                                 }
-                                None => {
-                                    // If declarator has no name, it should be a
-                                    // Statement::EmptyDeclaration, so this case should never
-                                    // be reached
-                                    unreachable!()
-                                }
+                                None => return Err(MiddleEndError::InvalidAbstractDeclarator),
                             },
                             Some((type_info, name, None)) => match name {
                                 // non-function declaration (normal variable)
@@ -459,7 +454,7 @@ fn convert_statement_to_ir(
                                         ));
                                     }
                                 }
-                                None => unreachable!(),
+                                None => return Err(MiddleEndError::InvalidAbstractDeclarator),
                             },
                         };
                     }
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index d7dd9a8..94d7c40 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -290,7 +290,10 @@ pub fn get_type_info(
             let (ir_type, decl_name, param_bindings) =
                 add_type_info_from_declarator(decl, ir_type, prog, context)?;
             if is_typedef {
-                context.add_typedef(decl_name.unwrap(), ir_type)?;
+                context.add_typedef(
+                    decl_name.ok_or(MiddleEndError::InvalidTypedefDeclaration)?,
+                    ir_type,
+                )?;
                 return Ok(None);
             }
             Ok(Some((ir_type, decl_name, param_bindings)))
-- 
2.43.0


From 405855fdd257068955958f936bbae690bebd1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 44/62] fix: reject function definitions that are nested or
 have no function type

---
 src/middle_end/ast_to_ir.rs | 4 ++++
 src/middle_end/context.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a6161af..ab0c54a 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -655,6 +655,10 @@ fn convert_statement_to_ir(
                 None => return Err(MiddleEndError::InvalidFunctionDeclaration),
                 Some(n) => n,
             };
+            // a function can only be defined at file scope
+            if !matches!(type_info, IrType::Function(..)) || !context.is_global_scope() {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             context.push_scope();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 4546e16..fefdc31 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -196,6 +196,10 @@ impl Context {
         self.scope_stack.pop();
     }
 
+    pub fn is_global_scope(&self) -> bool {
+        self.scope_stack.len() == 1
+    }
+
     pub fn add_variable_to_scope(
         &mut self,
         name: String,
-- 
2.43.0


From aaf20509ccfbeb2247b3fe496281bc6ad1ffca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 45/62] fix: reject statements at file scope

---
 src/middle_end/ast_to_ir.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ab0c54a..6ae57be 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -26,6 +26,16 @@ pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
     let mut prog = Program::new();
     let mut context = Context::new();
     for stmt in ast.0 {
+        // only declarations and function definitions are allowed at file scope
+        if !matches!(
+            stmt,
+            Statement::Declaration(..)
+                | Statement::EmptyDeclaration(_)
+                | Statement::FunctionDeclaration(..)
+                | Statement::Empty
+        ) {
+            return Err(MiddleEndError::InvalidDeclaration);
+        }
         let global_instrs = convert_statement_to_ir(stmt, &mut prog, &mut context);
         match global_instrs {
             Ok(mut instrs) => prog.program_instructions.global_instrs.append(&mut instrs),
-- 
2.43.0


From e3da6cf5bfe9f5e4c1d0770e06ffa7fca850e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 46/62] fix: a variable is in scope in its own initialiser

---
 src/middle_end/ast_to_ir.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6ae57be..3f65844 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -493,6 +493,20 @@ fn convert_statement_to_ir(
                             Some(name) => {
                                 match init_expr {
                                     Initialiser::Expr(e) => {
+                                        // the variable is in scope in its own initialiser
+                                        let (dest, is_new) = declare_initialised_variable(
+                                            &name,
+                                            &dest_type_info,
+                                            prog,
+                                            context,
+                                        )?;
+                                        if is_new {
+                                            context.add_variable_to_scope(
+                                                name,
+                                                dest.to_owned(),
+                                                dest_type_info.to_owned(),
+                                            )?;
+                                        }
                                         let (mut expr_instrs, expr_var) =
                                             convert_expression_to_ir(e, prog, context)?;
                                         instrs.append(&mut expr_instrs);
@@ -533,24 +547,11 @@ fn convert_statement_to_ir(
                                             src = converted_var;
                                         }
 
-                                        let (dest, is_new) = declare_initialised_variable(
-                                            &name,
-                                            &src.get_type(&prog.program_metadata)?,
-                                            prog,
-                                            context,
-                                        )?;
                                         instrs.push(Instruction::SimpleAssignment(
                                             prog.new_instr_id(),
-                                            dest.to_owned(),
+                                            dest,
                                             src,
                                         ));
-                                        if is_new {
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type_info.to_owned(),
-                                            )?;
-                                        }
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-- 
2.43.0


From edb6523180cf1dee193aabc3f1bfd794002353e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 47/62] fix: sizeof a string literal in a constant expression

---
 src/middle_end/compile_time_eval.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index c972a9d..a58b856 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -183,6 +183,13 @@ fn eval(
             }
         }
         Expression::SizeOfExpr(e) => {
+            if let Expression::StringLiteral(s) = *e {
+                // the array of chars, including the terminating null char
+                return Ok((
+                    ConstantExpressionType::Int(s.chars().count() as i128 + 1),
+                    IrType::I32,
+                ));
+            }
             // the operand is not evaluated, so ignore its instructions
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_type = expr_var.get_type(&prog.program_metadata)?;
-- 
2.43.0


From 31b200afd0a0f83dbacaba0a607a8aeab6725b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 48/62] fix: a string literal is an array that can't be
 modified

---
 src/middle_end/ast_to_ir.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3f65844..ad19880 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -977,7 +977,8 @@ pub fn convert_expression_to_ir(
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
-            let dest = prog.new_var(ValueType::LValue);
+            // the array can't be assigned to
+            let dest = prog.new_var(ValueType::RValue);
             instrs.push(Instruction::PointerToStringLiteral(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -1297,6 +1298,22 @@ pub fn convert_expression_to_ir(
             convert_increment_to_ir(*expr, BinaryOperator::Sub, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            if let Expression::StringLiteral(s) = *expr {
+                // a pointer to the array of chars, including the terminating null char
+                let size = TypeSize::CompileTime(s.chars().count() as u64 + 1);
+                let string_id = prog.new_string_literal(s);
+                let dest = prog.new_var(ValueType::RValue);
+                instrs.push(Instruction::PointerToStringLiteral(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    string_id,
+                ));
+                prog.add_var_type(
+                    dest.to_owned(),
+                    IrType::PointerTo(Box::new(IrType::I8.wrap_with_array(Some(size)))),
+                )?;
+                return Ok((instrs, Src::Var(dest)));
+            }
             let (mut expr_instrs, expr_var) = convert_lvalue_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
             if !expr_var.get_value_type().is_lvalue() {
-- 
2.43.0


From 6b8e50464f6dfe1028b6f934303965f0ee048a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 49/62] fix: a tag can be the same as a typedef name

---
 src/front_end/c_parser.lalrpop | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 77b0154..2064093 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -268,9 +268,15 @@ ArithmeticTypeSpecifier: ast::ArithmeticTypeSpecifierToken = {
   "double" => ast::ArithmeticTypeSpecifierToken::Double,
 };
 
+// tags have their own namespace, so can be the same as a typedef name
+Tag: ast::Identifier = {
+  <Identifier>,
+  <TypeName>,
+};
+
 StructDeclaration: ast::StructType = {
-  "struct" <Identifier> => ast::StructType::Declaration(<>),
-  "struct" <Identifier?> "{" <StructMemberDeclaration+> "}" => ast::StructType::Definition(<>),
+  "struct" <Tag> => ast::StructType::Declaration(<>),
+  "struct" <Tag?> "{" <StructMemberDeclaration+> "}" => ast::StructType::Definition(<>),
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
@@ -278,13 +284,13 @@ StructMemberDeclaration: ast::StructMemberDeclaration = {
 };
 
 UnionDeclaration: ast::UnionType = {
-  "union" <Identifier> => ast::UnionType::Declaration(<>),
-  "union" <Identifier?> "{" <StructMemberDeclaration+> "}" => ast::UnionType::Definition(<>),
+  "union" <Tag> => ast::UnionType::Declaration(<>),
+  "union" <Tag?> "{" <StructMemberDeclaration+> "}" => ast::UnionType::Definition(<>),
 };
 
 EnumDeclaration: ast::EnumType = {
-  "enum" <Identifier> => ast::EnumType::Declaration(<>),
-  "enum" <Identifier?> "{" <EnumeratorList> "}" => ast::EnumType::Definition(<>),
+  "enum" <Tag> => ast::EnumType::Declaration(<>),
+  "enum" <Tag?> "{" <EnumeratorList> "}" => ast::EnumType::Definition(<>),
 };
 
 EnumeratorList = CommaSepListAllowTrailing<Enumerator>;
-- 
2.43.0


From 1680c8d8411327595b3e6e165100c4f7352b9e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 50/62] fix: a declaration can't be the body of another
 statement

---
 src/front_end/c_parser.lalrpop | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 2064093..e91f90f 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -165,7 +165,13 @@ CharConstant: char = "CharConstant" =>? lexer::parse_char_constant(&<>);
 
 // STATEMENTS -------------------------------
 
-pub Program: ast::StatementList = <Statement+> => ast::StatementList(<>);
+pub Program: ast::StatementList = <BlockItem+> => ast::StatementList(<>);
+
+// a declaration can't be the body of another statement
+BlockItem: ast::Statement = {
+  Statement,
+  Declaration,
+};
 
 pub Statement: ast::Statement = {
   OpenStatement,
@@ -195,7 +201,6 @@ ClosedStatement: ast::Statement = {
   "switch" "(" <e:Expression> ")" <s:ClosedStatement> => ast::Statement::Switch(e, Box::new(s)),
   Block,
   <Expression> ";" => ast::Statement::Expr(<>),
-  <Declaration>,
   "case" <e:ConditionalExpression> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Case(e, Box::new(s))),
   "default" ":" <ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Default(Box::new(<>))),
   <i:Identifier> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
@@ -203,7 +208,7 @@ ClosedStatement: ast::Statement = {
 };
 
 Block: ast::Statement = {
-  "{" <Statement*> "}" => ast::Statement::Block(<>),
+  "{" <BlockItem*> "}" => ast::Statement::Block(<>),
 };
 
 // for for statements, where the first expression can be either an expression
-- 
2.43.0


From 7b28aad697a87e695a3cc0954e4a37c08f99bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 51/62] fix: reject arrays, members and parameters of
 incomplete types

---
 src/middle_end/ast_to_ir.rs         |  2 ++
 src/middle_end/get_ast_type_info.rs |  9 +++++++++
 src/middle_end/ir_types.rs          | 10 ++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ad19880..efa74f4 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -684,6 +684,8 @@ fn convert_statement_to_ir(
                     let param_var = prog.new_var(ValueType::LValue);
                     param_var_mappings.push(param_var.to_owned());
                     let param_type = array_to_pointer_type(param_type);
+                    // the type must be complete
+                    param_type.get_storage_byte_size(&prog.program_metadata)?;
                     context.add_variable_to_scope(
                         param_name,
                         param_var.to_owned(),
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 94d7c40..643974c 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -109,6 +109,10 @@ pub fn get_type_info(
                         if member_name.is_none() {
                             return Err(MiddleEndError::UnnamedStructMember);
                         }
+                        // only an array can have an unknown size
+                        if !member_type_info.is_array_type() {
+                            member_type_info.require_complete_type(&prog.program_metadata)?;
+                        }
                         struct_type.push_member(
                             member_name.unwrap(),
                             member_type_info,
@@ -186,6 +190,10 @@ pub fn get_type_info(
                         if member_name.is_none() {
                             return Err(MiddleEndError::UnnamedUnionMember);
                         }
+                        // only an array can have an unknown size
+                        if !member_type_info.is_array_type() {
+                            member_type_info.require_complete_type(&prog.program_metadata)?;
+                        }
                         union_type.push_member(
                             member_name.unwrap(),
                             member_type_info,
@@ -321,6 +329,7 @@ fn add_type_info_from_declarator(
             Ok((type_info.wrap_with_pointer(), None, None))
         }
         Declarator::ArrayDeclarator(d, size_expr) => {
+            type_info.require_complete_type(&prog.program_metadata)?;
             let size = match size_expr {
                 None => None,
                 Some(size_expr) => {
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 0991fa9..ec550f4 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -123,6 +123,16 @@ impl IrType {
         }
     }
 
+    /// Check that this is the type of an object with a known size
+    pub fn require_complete_type(&self, prog: &ProgramMetadata) -> Result<(), MiddleEndError> {
+        match self {
+            IrType::Void | IrType::Function(..) | IrType::ArrayOf(_, None) => {
+                Err(MiddleEndError::IncompleteType)
+            }
+            t => t.get_storage_byte_size(prog).map(|_| ()),
+        }
+    }
+
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-- 
2.43.0


From de9c2568a867b270e1fcf5bafbefc91218979b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 52/62] fix: a type name can't declare a name

---
 src/middle_end/ast_to_ir.rs         | 13 +++----------
 src/middle_end/compile_time_eval.rs | 15 ++++++---------
 src/middle_end/get_ast_type_info.rs | 17 +++++++++++++++--
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index efa74f4..50efbfe 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -10,7 +10,7 @@ use crate::middle_end::aggregate_type_initialisers::{
 };
 use crate::middle_end::compile_time_eval::eval_constant_expression_as_type;
 use crate::middle_end::context::{Context, IdentifierResolveResult, LoopContext, SwitchContext};
-use crate::middle_end::get_ast_type_info::get_type_info;
+use crate::middle_end::get_ast_type_info::{get_type_info, get_type_name_info};
 use crate::middle_end::ids::{ValueType, VarId};
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::instructions::{Constant, Src};
@@ -1539,10 +1539,7 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::SizeOfType(t) => {
-            let (type_info, _, _) = match get_type_info(&t.0, t.1, false, prog, context)? {
-                None => return Err(MiddleEndError::InvalidTypedefDeclaration),
-                Some(x) => x,
-            };
+            let type_info = get_type_name_info(t, prog, context)?;
             let type_size = type_info.get_storage_byte_size(&prog.program_metadata)?;
             let byte_size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
@@ -2288,11 +2285,7 @@ pub fn convert_expression_to_ir(
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
             // get type to cast into
-            let (cast_type, _, _) =
-                match get_type_info(&cast_type_decl.0, cast_type_decl.1, false, prog, context)? {
-                    None => return Err(MiddleEndError::InvalidTypedefDeclaration),
-                    Some(x) => x,
-                };
+            let cast_type = get_type_name_info(cast_type_decl, prog, context)?;
             // get conversion instrs into cast type
             let (mut unary_convert_instrs, expr_var) = match expr_var.get_type(&prog.program_metadata)? {
                 // an array is converted to a pointer to its first element
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index a58b856..d276ec1 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -2,7 +2,7 @@ use crate::front_end::ast::{BinaryOperator, Expression, Identifier};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
 use crate::middle_end::ast_to_ir::convert_expression_to_ir;
 use crate::middle_end::context::{Context, IdentifierResolveResult};
-use crate::middle_end::get_ast_type_info::get_type_info;
+use crate::middle_end::get_ast_type_info::get_type_name_info;
 use crate::middle_end::instructions::Constant as IrConstant;
 use crate::middle_end::ir::Program;
 use crate::middle_end::ir_types::{IrType, TypeSize};
@@ -195,10 +195,10 @@ fn eval(
             let expr_type = expr_var.get_type(&prog.program_metadata)?;
             Ok((eval_sizeof(expr_type, prog)?, IrType::I32))
         }
-        Expression::SizeOfType(t) => match get_type_info(&t.0, t.1, false, prog, context)? {
-            None => Err(MiddleEndError::InvalidTypedefDeclaration),
-            Some((type_info, _, _)) => Ok((eval_sizeof(type_info, prog)?, IrType::I32)),
-        },
+        Expression::SizeOfType(t) => {
+            let type_info = get_type_name_info(t, prog, context)?;
+            Ok((eval_sizeof(type_info, prog)?, IrType::I32))
+        }
         Expression::BinaryOp(
             op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
             left,
@@ -440,10 +440,7 @@ fn eval(
             Ok((convert_constant(result, &result_type)?, result_type))
         }
         Expression::Cast(t, expr) => {
-            let cast_type = match get_type_info(&t.0, t.1, false, prog, context)? {
-                None => return Err(MiddleEndError::InvalidTypedefDeclaration),
-                Some((cast_type, _, _)) => cast_type,
-            };
+            let cast_type = get_type_name_info(t, prog, context)?;
             let (result, _) = eval(*expr, prog, context)?;
             Ok((convert_constant(result, &cast_type)?, cast_type))
         }
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 643974c..513e0f4 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -2,8 +2,8 @@ use log::trace;
 
 use crate::front_end::ast::{
     ArithmeticType, Declarator, EnumType, Enumerator, Identifier, ParameterTypeList,
-    SpecifierQualifier, StorageClassSpecifier, StructType as AstStructType, TypeSpecifier,
-    UnionType as AstUnionType,
+    SpecifierQualifier, StorageClassSpecifier, StructType as AstStructType, TypeName,
+    TypeSpecifier, UnionType as AstUnionType,
 };
 use crate::middle_end::compile_time_eval::eval_integral_constant_expression;
 use crate::middle_end::context::Context;
@@ -310,6 +310,19 @@ pub fn get_type_info(
     }
 }
 
+/// The type of a type name, which can't declare anything
+pub fn get_type_name_info(
+    type_name: TypeName,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<IrType, MiddleEndError> {
+    match get_type_info(&type_name.0, type_name.1, false, prog, context)? {
+        Some((type_info, None, _)) => Ok(type_info),
+        Some(_) => Err(MiddleEndError::InvalidDeclaration),
+        None => Err(MiddleEndError::InvalidTypedefDeclaration),
+    }
+}
+
 /// Modifies the TypeInfo struct it's given, and returns the identifier name,
 /// and the types of any parameters
 fn add_type_info_from_declarator(
-- 
2.43.0


From 1c46641e1b7ef4d0b180b202dc2e95e52534e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 53/62] fix: allocate variables that are read but never
 assigned

---
 src/back_end/dataflow_analysis.rs                    | 2 +-
 src/back_end/stack_allocation/get_vars_from_block.rs | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/back_end/dataflow_analysis.rs b/src/back_end/dataflow_analysis.rs
index 79d462e..bb869a1 100644
--- a/src/back_end/dataflow_analysis.rs
+++ b/src/back_end/dataflow_analysis.rs
@@ -1,5 +1,5 @@
 pub mod clash_graph;
 pub mod dead_code_analysis;
 pub mod flowgraph;
-mod instruction_def_ref;
+pub mod instruction_def_ref;
 pub mod live_variable_analysis;
diff --git a/src/back_end/stack_allocation/get_vars_from_block.rs b/src/back_end/stack_allocation/get_vars_from_block.rs
index 668616a..546fd28 100644
--- a/src/back_end/stack_allocation/get_vars_from_block.rs
+++ b/src/back_end/stack_allocation/get_vars_from_block.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::back_end::dataflow_analysis::instruction_def_ref::ref_set;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
@@ -61,6 +62,13 @@ fn get_vars_from_instrs(
     let mut vars = HashMap::new();
 
     for instr in instrs {
+        // a variable might only be read, if no assignment to it can be reached
+        for var in ref_set(instr) {
+            if !prog_metadata.is_var_the_null_dest(&var) {
+                let var_type = prog_metadata.get_var_type(&var).unwrap();
+                vars.insert(var, var_type);
+            }
+        }
         match instr {
             Instruction::SimpleAssignment(_, dest, _)
             | Instruction::LoadFromAddress(_, dest, _)
-- 
2.43.0


From aa019fd25b17d6efaa1cc8f75b167458581fba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 54/62] fix: reject a name declared as a function, a variable
 or a type in one scope

---
 src/middle_end/context.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index fefdc31..f698d2a 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -207,6 +207,9 @@ impl Context {
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
         trace!("adding variable \"{}\" to scope", name);
+        if self.is_global_scope() && self.function_names.contains_key(&name) {
+            return Err(MiddleEndError::DuplicateVariableDeclaration(name));
+        }
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_var(name, var, type_info),
@@ -285,6 +288,9 @@ impl Context {
         name: String,
         value: EnumConstant,
     ) -> Result<(), MiddleEndError> {
+        if self.is_global_scope() && self.function_names.contains_key(&name) {
+            return Err(MiddleEndError::DuplicateEnumConstantDeclaration(name));
+        }
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_enum_constant(name, value),
@@ -418,6 +424,12 @@ impl Context {
             }
             return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
         }
+        // functions share a name space with the global variables and enum constants
+        if let Some(global_scope) = self.scope_stack.first() {
+            if global_scope.has_var_or_enum_constant(&name) {
+                return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
+            }
+        }
         self.function_names.insert(name, fun_id);
         Ok(())
     }
@@ -445,6 +457,9 @@ impl Context {
                 return Err(MiddleEndError::DuplicateTypeDeclaration(typedef_name));
             }
         }
+        if self.is_global_scope() && self.function_names.contains_key(&typedef_name) {
+            return Err(MiddleEndError::DuplicateTypeDeclaration(typedef_name));
+        }
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_typedef(typedef_name, type_info),
@@ -532,6 +547,9 @@ impl Scope {
         typedef_name: String,
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
+        if self.has_var_or_enum_constant(&typedef_name) {
+            return Err(MiddleEndError::DuplicateTypeDeclaration(typedef_name));
+        }
         self.typedef_types.insert(typedef_name, type_info);
         Ok(())
     }
@@ -553,6 +571,10 @@ impl Scope {
         Ok(())
     }
 
+    fn has_var_or_enum_constant(&self, name: &str) -> bool {
+        self.variable_names.contains_key(name) || self.enum_constants.contains_key(name)
+    }
+
     /// The tags of structs, unions and enums share a name space
     fn has_tag(&self, name: &str) -> bool {
         self.enum_tags.iter().any(|tag| tag == name)
-- 
2.43.0


From 26bee080a8f637410d598e85141385e34f17edae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 55/62] fix: evaluate the size of a variable length array once,
 at its declaration

---
 src/middle_end/ast_to_ir.rs | 61 +++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 50efbfe..bbfae6e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -421,6 +421,12 @@ fn convert_statement_to_ir(
                                     }
                                     // the type must be complete
                                     type_info.get_storage_byte_size(&prog.program_metadata)?;
+                                    let type_info = evaluate_array_sizes(
+                                        type_info,
+                                        &mut instrs,
+                                        prog,
+                                        context,
+                                    )?;
                                     if context
                                         .resolve_global_declaration(&name, &type_info)
                                         .is_some()
@@ -487,6 +493,8 @@ fn convert_statement_to_ir(
                         // if array type, get array size from number of initialisers (recursively)
                         let dest_type_info =
                             dest_type_info.resolve_array_size_from_initialiser(&init_expr)?;
+                        let dest_type_info =
+                            evaluate_array_sizes(dest_type_info, &mut instrs, prog, context)?;
 
                         match name {
                             None => return Err(MiddleEndError::InvalidAbstractDeclarator),
@@ -2318,6 +2326,59 @@ pub fn convert_expression_to_ir(
     }
 }
 
+/// The sizes of a variable length array are evaluated once, when the program
+/// reaches its declaration. Stores them in variables of their own.
+fn evaluate_array_sizes(
+    type_info: IrType,
+    instrs: &mut Vec<Instruction>,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<IrType, MiddleEndError> {
+    match type_info {
+        IrType::PointerTo(t) => {
+            Ok(evaluate_array_sizes(*t, instrs, prog, context)?.wrap_with_pointer())
+        }
+        IrType::ArrayOf(t, size) => {
+            let size = match size {
+                Some(TypeSize::Runtime(size_expr)) => {
+                    let (mut size_instrs, size) =
+                        convert_expression_to_ir(size_expr, prog, context)?;
+                    instrs.append(&mut size_instrs);
+                    let size_type = size.get_type(&prog.program_metadata)?;
+                    size_type.require_integral_type()?;
+                    let (mut convert_instrs, size) =
+                        get_type_conversion_instrs(size, size_type, IrType::I32, prog)?;
+                    instrs.append(&mut convert_instrs);
+                    let size_var = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(size_var.to_owned(), IrType::I32)?;
+                    // not the spelling of an identifier, so it can't be hidden by another variable
+                    let size_name = format!("array size {size_var}");
+                    context.add_variable_to_scope(
+                        size_name.to_owned(),
+                        size_var.to_owned(),
+                        IrType::I32,
+                    )?;
+                    instrs.push(Instruction::DeclareVariable(
+                        prog.new_instr_id(),
+                        size_var.to_owned(),
+                    ));
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        size_var,
+                        size,
+                    ));
+                    Some(TypeSize::Runtime(Expression::Identifier(Identifier(
+                        size_name,
+                    ))))
+                }
+                size => size,
+            };
+            Ok(evaluate_array_sizes(*t, instrs, prog, context)?.wrap_with_array(size))
+        }
+        t => Ok(t),
+    }
+}
+
 /// Finds the variable that a declaration with an initialiser declares: a new one, unless it repeats
 /// the declaration of a global variable. Returns whether the variable is new.
 fn declare_initialised_variable(
-- 
2.43.0


From 924483c307e946cc8afb5b773d38ba65c2ab90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 56/62] fix: static variables in a function keep their value
 between calls

---
 src/middle_end/ast_to_ir.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index bbfae6e..118f759 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -3,7 +3,8 @@ use log::trace;
 use crate::front_end::ast;
 use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, Statement, StorageClassSpecifier,
+    TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_initialiser, struct_initialiser,
@@ -647,6 +648,14 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            // a static variable in a function exists, and is initialised, before the program starts
+            if matches!(
+                sq.storage_class_specifier,
+                Some(StorageClassSpecifier::Static)
+            ) && !context.is_global_scope()
+            {
+                prog.program_instructions.global_instrs.append(&mut instrs);
+            }
         }
         Statement::EmptyDeclaration(sq) => {
             match get_type_info(&sq, None, false, prog, context)? {
-- 
2.43.0


From 3751b298083499d17644284fc1344509a62fa8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 57/62] fix: an extern declaration in a function refers to the
 global variable

---
 src/middle_end/ast_to_ir.rs | 37 +++++++++++++++++++++++++++++++------
 src/middle_end/context.rs   | 31 +++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 118f759..3c2db82 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -387,6 +387,14 @@ fn convert_statement_to_ir(
             instrs.append(&mut expr_instrs);
         }
         Statement::Declaration(sq, declarators) => {
+            let is_local_static = matches!(
+                sq.storage_class_specifier,
+                Some(StorageClassSpecifier::Static)
+            ) && !context.is_global_scope();
+            let is_local_extern = matches!(
+                sq.storage_class_specifier,
+                Some(StorageClassSpecifier::Extern)
+            ) && !context.is_global_scope();
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -434,7 +442,23 @@ fn convert_statement_to_ir(
                                     {
                                         continue;
                                     }
+                                    if is_local_extern {
+                                        if let Some(var) =
+                                            context.resolve_global_variable(&name, &type_info)?
+                                        {
+                                            context.add_variable_to_scope(name, var, type_info)?;
+                                            is_initial_declarator = false;
+                                            continue;
+                                        }
+                                    }
                                     let var = prog.new_var(ValueType::LValue);
+                                    if is_local_extern {
+                                        context.add_variable_to_global_scope(
+                                            name.to_owned(),
+                                            var.to_owned(),
+                                            type_info.to_owned(),
+                                        )?;
+                                    }
                                     context.add_variable_to_scope(
                                         name,
                                         var.to_owned(),
@@ -476,6 +500,10 @@ fn convert_statement_to_ir(
                         };
                     }
                     DeclaratorInitialiser::Init(d, init_expr) => {
+                        // an extern declaration in a function can't have an initialiser
+                        if is_local_extern {
+                            return Err(MiddleEndError::InvalidDeclaration);
+                        }
                         let (dest_type_info, name, _) = match get_type_info(
                             &sq,
                             Some(d),
@@ -648,12 +676,9 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
-            // a static variable in a function exists, and is initialised, before the program starts
-            if matches!(
-                sq.storage_class_specifier,
-                Some(StorageClassSpecifier::Static)
-            ) && !context.is_global_scope()
-            {
+            // a static variable in a function exists, and is initialised, before the program starts,
+            // and so does a variable declared extern
+            if is_local_static || is_local_extern {
                 prog.program_instructions.global_instrs.append(&mut instrs);
             }
         }
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index f698d2a..585b3ab 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -226,6 +226,37 @@ impl Context {
         }
     }
 
+    /// The global variable that an extern declaration inside a function refers to
+    pub fn resolve_global_variable(
+        &self,
+        name: &str,
+        type_info: &IrType,
+    ) -> Result<Option<VarId>, MiddleEndError> {
+        let global_scope = self.scope_stack.first().ok_or(MiddleEndError::ScopeError)?;
+        match global_scope.resolve_identifier_to_var(name) {
+            Some(var) if global_scope.variable_types.get(&var) != Some(type_info) => Err(
+                MiddleEndError::DuplicateVariableDeclaration(name.to_owned()),
+            ),
+            var => Ok(var),
+        }
+    }
+
+    /// Declares a global variable from inside a function
+    pub fn add_variable_to_global_scope(
+        &mut self,
+        name: String,
+        var: VarId,
+        type_info: IrType,
+    ) -> Result<(), MiddleEndError> {
+        if self.function_names.contains_key(&name) {
+            return Err(MiddleEndError::DuplicateVariableDeclaration(name));
+        }
+        match self.scope_stack.first_mut() {
+            None => Err(MiddleEndError::ScopeError),
+            Some(global_scope) => global_scope.add_var(name, var, type_info),
+        }
+    }
+
     // pub fn resolve_identifier_to_var(
     //     &self,
     //     identifier_name: &str,
-- 
2.43.0


From f7f225a2aeb5899eebfe001ebbff9f57fdbec2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 58/62] fix: accept a call or an assignment in the size of a
 variable length array

---
 src/middle_end/compile_time_eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index d276ec1..fda99a5 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -452,7 +452,7 @@ fn eval(
         | Expression::PrefixIncrement(_)
         | Expression::PrefixDecrement(_)
         | Expression::CompoundAssignment(_, _, _)
-        | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
+        | Expression::Assignment(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
     }
 }
 
-- 
2.43.0


From 88956c7d9159f8ae88b4aef418f591f81e7285c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 59/62] fix: reject a variable length array with static storage

---
 src/middle_end/ast_to_ir.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3c2db82..1d2776a 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -395,6 +395,8 @@ fn convert_statement_to_ir(
                 sq.storage_class_specifier,
                 Some(StorageClassSpecifier::Extern)
             ) && !context.is_global_scope();
+            let has_static_storage =
+                context.is_global_scope() || is_local_static || is_local_extern;
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -432,6 +434,7 @@ fn convert_statement_to_ir(
                                     type_info.get_storage_byte_size(&prog.program_metadata)?;
                                     let type_info = evaluate_array_sizes(
                                         type_info,
+                                        has_static_storage,
                                         &mut instrs,
                                         prog,
                                         context,
@@ -522,8 +525,13 @@ fn convert_statement_to_ir(
                         // if array type, get array size from number of initialisers (recursively)
                         let dest_type_info =
                             dest_type_info.resolve_array_size_from_initialiser(&init_expr)?;
-                        let dest_type_info =
-                            evaluate_array_sizes(dest_type_info, &mut instrs, prog, context)?;
+                        let dest_type_info = evaluate_array_sizes(
+                            dest_type_info,
+                            has_static_storage,
+                            &mut instrs,
+                            prog,
+                            context,
+                        )?;
 
                         match name {
                             None => return Err(MiddleEndError::InvalidAbstractDeclarator),
@@ -2364,16 +2372,24 @@ pub fn convert_expression_to_ir(
 /// reaches its declaration. Stores them in variables of their own.
 fn evaluate_array_sizes(
     type_info: IrType,
+    has_static_storage: bool,
     instrs: &mut Vec<Instruction>,
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<IrType, MiddleEndError> {
     match type_info {
         IrType::PointerTo(t) => {
-            Ok(evaluate_array_sizes(*t, instrs, prog, context)?.wrap_with_pointer())
+            Ok(
+                evaluate_array_sizes(*t, has_static_storage, instrs, prog, context)?
+                    .wrap_with_pointer(),
+            )
         }
         IrType::ArrayOf(t, size) => {
             let size = match size {
+                // the size has to be known before the program starts
+                Some(TypeSize::Runtime(_)) if has_static_storage => {
+                    return Err(MiddleEndError::UndefinedArraySize);
+                }
                 Some(TypeSize::Runtime(size_expr)) => {
                     let (mut size_instrs, size) =
                         convert_expression_to_ir(size_expr, prog, context)?;
@@ -2407,7 +2423,10 @@ fn evaluate_array_sizes(
                 }
                 size => size,
             };
-            Ok(evaluate_array_sizes(*t, instrs, prog, context)?.wrap_with_array(size))
+            Ok(
+                evaluate_array_sizes(*t, has_static_storage, instrs, prog, context)?
+                    .wrap_with_array(size),
+            )
         }
         t => Ok(t),
     }
-- 
2.43.0


From 70c891b8851f225870f4be9d9537c9a9915f2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 60/62] fix: accept a string literal in the size of a variable
 length array

---
 src/middle_end/compile_time_eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index fda99a5..0cc799d 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -142,7 +142,7 @@ fn eval(
                 IrType::I32,
             )),
         },
-        Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
+        Expression::StringLiteral(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::DirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::IndirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From 68bee8763814a444834097f7d4ece0d91319bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 61/62] fix: accept an extern declaration repeated in a block

---
 src/middle_end/ast_to_ir.rs | 5 ++++-
 src/middle_end/context.rs   | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 1d2776a..e26ed2f 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -449,7 +449,10 @@ fn convert_statement_to_ir(
                                         if let Some(var) =
                                             context.resolve_global_variable(&name, &type_info)?
                                         {
-                                            context.add_variable_to_scope(name, var, type_info)?;
+                                            // it may be declared more than once in a block
+                                            if !context.is_variable_in_scope(&name, &var) {
+                                                context.add_variable_to_scope(name, var, type_info)?;
+                                            }
                                             is_initial_declarator = false;
                                             continue;
                                         }
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 585b3ab..cf1e2b6 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -241,6 +241,14 @@ impl Context {
         }
     }
 
+    /// Whether a name means the variable because of a declaration in the current scope
+    pub fn is_variable_in_scope(&self, name: &str, var: &VarId) -> bool {
+        match self.scope_stack.last() {
+            None => false,
+            Some(scope) => scope.resolve_identifier_to_var(name).as_ref() == Some(var),
+        }
+    }
+
     /// Declares a global variable from inside a function
     pub fn add_variable_to_global_scope(
         &mut self,
-- 
2.43.0


From c3052337429db2733016fcae0aa5ba16831b0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 62/62] fix: evaluate the size of a variable length array type
 at its typedef

---
 src/middle_end/ast_to_ir.rs | 14 +++++++++++++-
 src/middle_end/context.rs   | 12 ++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index e26ed2f..10ec228 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -409,7 +409,19 @@ fn convert_statement_to_ir(
                             context,
                         )? {
                             None => {
-                                // typedef declaration, so no need to do anything more here
+                                // typedef declaration, the sizes of an array type are
+                                // evaluated here and not where the type is used
+                                if let Some(name) = d.get_identifier_name() {
+                                    let type_info = context.resolve_typedef(&name)?;
+                                    let type_info = evaluate_array_sizes(
+                                        type_info,
+                                        has_static_storage,
+                                        &mut instrs,
+                                        prog,
+                                        context,
+                                    )?;
+                                    context.set_typedef(name, type_info)?;
+                                }
                             }
                             Some((type_info, name, Some(_params))) => match name {
                                 // function declaration
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index cf1e2b6..56453fa 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -505,6 +505,18 @@ impl Context {
         }
     }
 
+    /// Replaces the type that a typedef in the current scope stands for
+    pub fn set_typedef(
+        &mut self,
+        typedef_name: String,
+        type_info: IrType,
+    ) -> Result<(), MiddleEndError> {
+        match self.scope_stack.last_mut() {
+            None => Err(MiddleEndError::ScopeError),
+            Some(scope) => scope.add_typedef(typedef_name, type_info),
+        }
+    }
+
     pub fn resolve_typedef(&self, typedef_name: &str) -> Result<IrType, MiddleEndError> {
         if self.scope_stack.is_empty() {
             return Err(MiddleEndError::ScopeError);
-- 
2.43.0

