From 180b56398294a747949da058531cf8add6292b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 01/20] fix: do not lose pending exceptions that share a
 priority

---
 m68000/src/exception.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..5a2c086 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -141,7 +141,9 @@ impl Ord for Exception {
         match self.priority.cmp(&other.priority) {
             Ordering::Greater => Ordering::Less,
             Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
+            // Different vectors sharing a priority are distinct exceptions, otherwise BTreeSet would discard all but one.
+            // Reset being vector 0, it is still processed first.
+            Ordering::Equal => self.vector.cmp(&other.vector),
         }
     }
 }
-- 
2.43.0


From 118be3018fbfe29dd1b7cfe4be9fcf25695bf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 02/20] fix: process pending interrupts by level, on-chip ones
 included

---
 m68000/src/exception.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 5a2c086..b202fa2 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -83,6 +83,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         2 => 1, // Access Error.
         9 => 2, // Trace.
         24..=31 => 3, // Interrupt.
+        57..=63 => 3, // On-chip interrupt.
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
@@ -114,6 +115,11 @@ impl Exception {
     pub const fn is_interrupt(&self) -> bool {
         is_interrupt(self.vector)
     }
+
+    /// Returns the interrupt level, or 0 if this exception is not a levelled interrupt.
+    const fn level(&self) -> u8 {
+        if self.is_interrupt() { self.vector & 7 } else { 0 }
+    }
 }
 
 impl From<u8> for Exception {
@@ -142,8 +148,8 @@ impl Ord for Exception {
             Ordering::Greater => Ordering::Less,
             Ordering::Less => Ordering::Greater,
             // Different vectors sharing a priority are distinct exceptions, otherwise BTreeSet would discard all but one.
-            // Reset being vector 0, it is still processed first.
-            Ordering::Equal => self.vector.cmp(&other.vector),
+            // Interrupts are ordered by level. Reset being vector 0, it is still processed first.
+            Ordering::Equal => self.level().cmp(&other.level()).then(self.vector.cmp(&other.vector)),
         }
     }
 }
-- 
2.43.0


From 7ebadd1407664fc76e18b80cbad99edb987935e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 03/20] fix: ORI and EORI to CCR leave the system byte alone

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..15044f9 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1700,7 +1700,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From 7a6f0c8d5d3f69787fe5d6e689d493bcabc8019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 04/20] fix: EXT.W sets N and Z from the word result

---
 m68000/src/interpreter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 15044f9..7ae877c 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,14 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+            self.regs.sr.n = d & SIGN_BIT_16 != 0;
+            self.regs.sr.z = d == 0;
         } else {
             self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+            self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
+            self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From 2a33adde94945997fe740815802ed184042f7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 05/20] fix: DIVS with a quotient of -32768 is not an overflow

---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 7ae877c..66d804e 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -860,7 +860,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From a8f00682305db62993ba3197156640ebfca263cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 06/20] fix: JSR computes its target before pushing the return
 address

---
 m68000/src/interpreter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 66d804e..8686d30 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1065,8 +1065,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        let address = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = address;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From 31cb2be89ea06eaee4b7b71a4596f4c9e3a0051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 07/20] fix: CHK sets N according to the bound that is violated

---
 m68000/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 8686d30..3a9e8f4 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -687,6 +687,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let data = self.regs.d[reg as usize].0 as i16;
 
         if data < 0 || data > src {
+            self.regs.sr.n = data < 0;
             Err(Vector::ChkInstruction as u8)
         } else {
             Ok(CPU::CHK_NO_TRAP + exec_time)
-- 
2.43.0


From 295c1530548fd82171bbd422d155a1ad3557476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 08/20] fix: MOVEM to (An)+ and from -(An) are illegal opcodes

---
 m68000/src/bin/decoder.rs | 7 +++++--
 m68000/src/decoder.rs     | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/m68000/src/bin/decoder.rs b/m68000/src/bin/decoder.rs
index 21c1bbc..db3cf8b 100644
--- a/m68000/src/bin/decoder.rs
+++ b/m68000/src/bin/decoder.rs
@@ -219,9 +219,11 @@ fn generate_isa(opcodes: &mut [Isa; 65536]) {
 
     generate_opcodes(opcodes, "010011100110abbb", &[&V0_1, &V0_7], Isa::Moveusp);
 
-    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001b010ddd", &[&V0_1, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V4_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010010001b111ddd", &[&V0_1, &V0_1], Isa::Movem);
-    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_3, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V5_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010011001b111ddd", &[&V0_1, &V0_3], Isa::Movem);
 
     generate_opcodes(opcodes, "0000aaabbb001ccc", &[&V0_7, &V4_7, &V0_7], Isa::Movep);
@@ -444,6 +446,7 @@ const V2_6: [u8; 5] = [2, 3, 4, 5, 6];
 const V2_15: [u8; 14] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
 const V4_6: [u8; 3] = [4, 5, 6];
 const V4_7: [u8; 4] = [4, 5, 6, 7];
+const V5_6: [u8; 2] = [5, 6];
 const V8_9__17: [u8; 3] = [8, 9, 17];
 const VBYTE: [u8; 256] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From bb3a708d5d1850d3512cfd2eb3286524f212428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 09/20] fix: word access at the last byte of a byte slice fails
 instead of panicking

---
 m68000/src/memory_access.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..f0bda6d 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -240,7 +240,7 @@ impl MemoryAccess for [u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
         } else {
             None
@@ -259,7 +259,7 @@ impl MemoryAccess for [u8] {
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             self[addr] = (data >> 8) as u8;
             self[addr.wrapping_add(1)] = data as u8;
             Some(())
@@ -283,7 +283,7 @@ impl MemoryAccess for &[u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
         } else {
             None
-- 
2.43.0


From b3be0e4ddfdbf530522980938deebcc4e8357795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 10/20] fix: count the long operand time once for
 read-modify-write instructions

---
 m68000/src/memory_access.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index f0bda6d..c396e2c 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -162,9 +162,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Drd(reg) => { self.regs.d[reg as usize].0 = value; Ok(()) },
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
+                // When the operand has been read from the same address, the long access time is already counted.
+                let extra_time = if ea.address.is_none() { 4 } else { 0 };
                 let addr = self.get_effective_address(ea, exec_time).even()?;
                 let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
+                *exec_time += extra_time;
                 r
             },
         }
-- 
2.43.0


From 032781b4ec0bd5a12010a4e9979cd5409d89b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 11/20] fix: the disassembling interpreter skips an unreadable
 opcode like the normal one

---
 m68000/src/interpreter_disassembler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 865a433..28420c0 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -14,9 +14,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// If an error occurs when reading the next instruction, the Err variant contains the exception vector.
     fn get_next_instruction<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> Result<Instruction, u8> {
         let mut iter = self.iter_from_pc(memory);
-        let instruction = Instruction::from_memory(&mut iter)?;
+        let instruction = Instruction::from_memory(&mut iter);
         self.regs.pc.0 = iter.next_addr;
-        Ok(instruction)
+        instruction
     }
 
     /// Runs the interpreter loop once and disassembles the next instruction if any.
-- 
2.43.0


From ed3f47419d640bff6a5cce96febd681bbe304587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 12/20] fix: cycle returns the cycles executed by the STOP that
 overshoots the budget

---
 m68000/src/interpreter_fast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index a8f0672..73755c7 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -22,7 +22,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             total += self.interpreter(memory);
 
             if self.stop {
-                return cycles;
+                return cycles.max(total);
             }
         }
 
-- 
2.43.0


From 7f2905ac7d3c1ef7f067e7b795d370b7aa110914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 13/20] fix: the saved PC of an illegal, unimplemented or
 privileged instruction is its own address

---
 m68000/src/exception.rs                | 10 ++++++++++
 m68000/src/interpreter_disassembler.rs |  9 +++++++--
 m68000/src/interpreter_fast.rs         | 10 ++++++++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index b202fa2..338a24a 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -99,6 +99,16 @@ const fn is_interrupt(vector: u8) -> bool {
     vector >= Vector::Level1OnChipInterrupt as u8 && vector <= Vector::Level7OnChipInterrupt as u8
 }
 
+/// Whether the vector is the one of an instruction that is not executed at all (illegal, unimplemented or privileged).
+///
+/// MC68000UM 6.3.6 and 6.3.7: the program counter saved is then the address of that instruction.
+pub(super) const fn is_unexecuted(vector: u8) -> bool {
+    vector == Vector::IllegalInstruction as u8 ||
+    vector == Vector::PrivilegeViolation as u8 ||
+    vector == Vector::LineAEmulator as u8 ||
+    vector == Vector::LineFEmulator as u8
+}
+
 /// M68000 exception, with a vector number and a priority.
 ///
 /// This struct implements `From<u8>` and `From<Vector>`, to create an
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 28420c0..e34537b 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{is_unexecuted, Exception, Vector};
 use crate::instruction::Instruction;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -72,7 +72,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if is_unexecuted(e) {
+                    self.regs.pc.0 = instruction.pc;
+                }
+                Some(e)
+            },
         };
 
         (instruction.pc, dis, cycle_count, exception)
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 73755c7..010b3b2 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{is_unexecuted, Exception, Vector};
 use crate::instruction::*;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -102,6 +102,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             cycle_count += self.process_pending_exceptions(memory);
         }
 
+        let pc = self.regs.pc;
         let opcode = match self.get_next_word(memory) {
             Ok(op) => op,
             Err(e) => return (cycle_count, Some(e)),
@@ -119,7 +120,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if is_unexecuted(e) {
+                    self.regs.pc = pc;
+                }
+                Some(e)
+            },
         };
 
         (cycle_count, exception)
-- 
2.43.0


From e830a3375c1aed560c6a655393ce1fe6be07fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 14/20] fix: a masked interrupt does not leave the stopped
 state

---
 m68000/src/exception.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 338a24a..bf1819c 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -169,13 +169,21 @@ impl<CPU: CpuDetails> M68000<CPU> {
     pub fn exception(&mut self, ex: Exception) {
         if ex.vector == Vector::ResetSspPc as u8 ||
            ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+           ex.is_interrupt() && !self.is_masked(&ex) {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
     }
 
+    /// Returns true if the given exception is an interrupt inhibited by the interrupt priority mask.
+    ///
+    /// MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
+    fn is_masked(&self, ex: &Exception) -> bool {
+        let level = ex.level();
+        ex.is_interrupt() && level != 7 && level <= self.regs.sr.interrupt_mask
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
@@ -194,13 +202,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut to_process = Vec::new();
 
         for ex in &self.exceptions {
-            if ex.is_interrupt() {
-                // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
-                // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
-                let level = ex.vector & 0x7;
-                if level != 7 && level <= self.regs.sr.interrupt_mask {
-                    continue;
-                }
+            // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
+            if self.is_masked(ex) {
+                continue;
             }
             to_process.push(*ex);
         }
-- 
2.43.0


From ef2edf0a3aa0a7a30eb14d30f170f4c10661218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 15/20] fix: user and spurious interrupts leave the stopped
 state

---
 m68000/src/exception.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index bf1819c..d69067c 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -169,6 +169,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
     pub fn exception(&mut self, ex: Exception) {
         if ex.vector == Vector::ResetSspPc as u8 ||
            ex.vector == Vector::Trace as u8 ||
+           ex.vector == Vector::SpuriousInterrupt as u8 ||
+           ex.vector >= Vector::UserInterrupt as u8 ||
            ex.is_interrupt() && !self.is_masked(&ex) {
             self.stop = false;
         }
-- 
2.43.0


From e2492b895b315f313c2a17bf4c517aa37d764da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 16/20] fix: processing time of line A, line F and of vectored
 interrupts

---
 m68000/src/cpu_details/mc68000.rs  | 4 ++--
 m68000/src/cpu_details/scc68070.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/m68000/src/cpu_details/mc68000.rs b/m68000/src/cpu_details/mc68000.rs
index 20db7d1..fad9529 100644
--- a/m68000/src/cpu_details/mc68000.rs
+++ b/m68000/src/cpu_details/mc68000.rs
@@ -16,13 +16,13 @@ impl CpuDetails for Mc68000 {
         match vector {
             2 => 50, // Access Error
             3 => 50, // Address Error
-            4 => 34, // Illegal
+            4 | 10 | 11 => 34, // Illegal, unimplemented
             5 => 38, // Zero Divide
             6 => 40, // Chk
             7 => 34, // Trapv
             8 => 34, // Privilege Violation
             9 => 34, // Trace
-            24..=31 => 44, // Interrupt
+            15 | 24..=31 | 57..=255 => 44, // Interrupt (uninitialized, spurious, autovector, on-chip, user)
             32..=47 => 34, // Trap
             _ => Self::VECTOR_RESET, // TODO: what to return with the other vectors?
         }
diff --git a/m68000/src/cpu_details/scc68070.rs b/m68000/src/cpu_details/scc68070.rs
index f85a5e3..9e1a06c 100644
--- a/m68000/src/cpu_details/scc68070.rs
+++ b/m68000/src/cpu_details/scc68070.rs
@@ -16,13 +16,13 @@ impl CpuDetails for Scc68070 {
         match vector {
             2 => 158, // Access Error
             3 => 158, // Address Error
-            4 => 55, // Illegal
+            4 | 10 | 11 => 55, // Illegal, unimplemented
             5 => 64, // Zero Divide
             6 => 64, // Chk
             7 => 55, // Trapv
             8 => 55, // Privilege Violation
             9 => 55, // Trace
-            24..=31 => 65, // Interrupt
+            15 | 24..=31 | 57..=255 => 65, // Interrupt (uninitialized, spurious, autovector, on-chip, user)
             32..=47 => 52, // Trap
             _ => Self::VECTOR_RESET, // TODO: what to return with the other vectors?
         }
-- 
2.43.0


From 496407f74f8f6f3a5921427463b9e36d2937ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 17/20] fix: reject invalid registers in the operands of ADDA,
 CMPA, MOVE, MOVEA and SUBA

---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..78e2efe 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -561,6 +563,7 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
     size_effective_address_effective_address(size, dst, src)
 }
@@ -568,6 +571,7 @@ pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16>
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0


From d3962555b93eb306f3e5a17bb6f9c41a4c52915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 18/20] fix: leave a zero-length disassembly buffer untouched
 in the C interface

---
 m68000-ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000-ffi/src/lib.rs b/m68000-ffi/src/lib.rs
index 9b6ade9..3e74b74 100644
--- a/m68000-ffi/src/lib.rs
+++ b/m68000-ffi/src/lib.rs
@@ -345,7 +345,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
@@ -375,7 +375,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
-- 
2.43.0


From 9af41a237129a407c1e950f168b6e9caa5edcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 19/20] fix: LINK A7 stores the decremented stack pointer

---
 m68000/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 3a9e8f4..e388d74 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1101,7 +1101,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_link<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8, disp: i16) -> InterpreterResult {
-        self.push_long(memory, self.regs.a(reg))?;
+        // The stack pointer is decremented first: LINK A7 stores the decremented value.
+        let addr = self.ariwpr(7, Size::Long);
+        memory.set_long(addr.even()?, self.regs.a(reg)).ok_or(ACCESS_ERROR)?;
         self.regs.a_mut(reg).0 = self.regs.sp();
         *self.regs.sp_mut() += disp as u32;
 
-- 
2.43.0


From d2f6122589244398537a4c782ade78195d784e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 20/20] fix: m68000-ffi.h includes stddef.h for size_t

The header uses size_t but only included stdint.h, so the documented C
example (which includes it first) did not compile.
---
 include/m68000/m68000-ffi.h  | 1 +
 m68000-ffi/cbindgen-ffi.toml | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/m68000/m68000-ffi.h b/include/m68000/m68000-ffi.h
index 6c6396d..82396c4 100644
--- a/include/m68000/m68000-ffi.h
+++ b/include/m68000/m68000-ffi.h
@@ -1,6 +1,7 @@
 #ifndef M68000_FFI_H
 #define M68000_FFI_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include "m68000.h"
 
diff --git a/m68000-ffi/cbindgen-ffi.toml b/m68000-ffi/cbindgen-ffi.toml
index 50d55dd..d600165 100644
--- a/m68000-ffi/cbindgen-ffi.toml
+++ b/m68000-ffi/cbindgen-ffi.toml
@@ -2,7 +2,7 @@ language = "C"
 include_guard = "M68000_FFI_H"
 
 include_version = false
-sys_includes = ["stdint.h"]
+sys_includes = ["stddef.h", "stdint.h"]
 includes = ["m68000.h"]
 no_includes = true
 cpp_compat = true
-- 
2.43.0

