From af3d230b2c10d4a43f3709d5b965a3dc9529247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 01/90] hooks: state accessors for external monitors (cfg
 carron_verif)

---
 src/cpu.rs       |  2 ++
 src/cpu/verif.rs | 30 ++++++++++++++++++++++++++++++
 src/lib.rs       |  1 +
 3 files changed, 33 insertions(+)
 create mode 100644 src/cpu/verif.rs

diff --git a/src/cpu.rs b/src/cpu.rs
index 1c7ce89..c333731 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -6,6 +6,8 @@ mod instruction;
 mod mmu;
 mod reg;
 mod trap;
+#[cfg(carron_verif)]
+mod verif;
 
 use crate::{bus, elfload, log, Arguments, Isa};
 use csr::{CSRname, Xstatus};
diff --git a/src/cpu/verif.rs b/src/cpu/verif.rs
new file mode 100644
index 0000000..ec4f64a
--- /dev/null
+++ b/src/cpu/verif.rs
@@ -0,0 +1,30 @@
+//! Accessors for external monitors, compiled only with `--cfg carron_verif`.
+//! They read or set architectural state and have no other effect.
+
+use super::{Cpu, PrivilegedLevel};
+
+impl Cpu {
+    pub fn verif_csr_read(&self, csr: usize) -> u64 {
+        self.csrs.read(Some(csr)).unwrap()
+    }
+
+    pub fn verif_csr_write(&mut self, csr: usize, value: u64) {
+        self.csrs.write(Some(csr), value).unwrap();
+    }
+
+    pub fn verif_priv(&self) -> u64 {
+        self.priv_lv as u64
+    }
+
+    pub fn verif_set_priv(&mut self, level: u64) {
+        self.priv_lv = match level {
+            0b00 => PrivilegedLevel::User,
+            0b01 => PrivilegedLevel::Supervisor,
+            _ => PrivilegedLevel::Machine,
+        };
+    }
+
+    pub fn verif_set_pc(&mut self, pc: u64) {
+        *self.pc.borrow_mut() = pc;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7ca75c8..a3aa79d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 pub mod bus;
 pub mod cmdline;
+#[allow(unexpected_cfgs)] // carron_verif: see src/cpu/verif.rs
 pub mod cpu;
 pub mod elfload;
 mod fesvr;
-- 
2.43.0


From d74ebb1067ebd1a8cac6db24778dcd120d7769f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 02/90] fix: REM on RV64 divides the full 64-bit operands

---
 src/cpu/execution/inst_32/m_extension.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index fed0360..4bbf1c1 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -96,8 +96,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             } else if rs1 as i64 == i64::MIN && rs2 as i64 == -1 {
                 cpu.regs.write(inst.rd, 0);
             } else {
-                cpu.regs
-                    .write(inst.rd, (rs1 as i32 as i64 % rs2 as i32 as i64) as u64);
+                cpu.regs.write(
+                    inst.rd,
+                    match *cpu.isa {
+                        Isa::Rv32 => (rs1 as i32 as i64 % rs2 as i32 as i64) as u64,
+                        Isa::Rv64 => (rs1 as i64 % rs2 as i64) as u64,
+                    },
+                );
             }
         }
         OpecodeKind::OP_REMU => {
-- 
2.43.0


From 19490c2aed72dd21e15336aad02617d38057326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 03/90] fix: DIVUW/REMUW treat a divisor with a zero lower word
 as zero

---
 src/cpu/execution/inst_32/m_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index 4bbf1c1..408b05e 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_DIVUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, (2i32.pow(32) - 1) as u64);
             } else {
                 cpu.regs
@@ -147,7 +147,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_REMUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, rs1 as i32 as u64);
             } else {
                 cpu.regs
-- 
2.43.0


From e48758829fdec484cf66bae4f9b15f23a3efbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 04/90] fix: SLT on RV64 compares the full 64-bit operands

---
 src/cpu/execution/inst_32/base_i.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index c6f4465..98fac65 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -227,7 +227,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
                 inst.rd,
-                ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64
+                    }
+                    Isa::Rv64 => {
+                        ((cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64)) as u64
+                    }
+                },
             );
         }
         OpecodeKind::OP_SLTU => {
-- 
2.43.0


From b0d4ffbd289c0b997ccac07dbdeab21af0b47cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 05/90] fix: SLL/SRL on RV32 use only the low five bits of rs2

---
 src/cpu/execution/inst_32/base_i.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 98fac65..82f36ab 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -221,8 +221,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) - cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SLL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0x1f),
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) << (cpu.regs.read(inst.rs2) & 0x3f),
+                },
+            );
         }
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
@@ -248,8 +253,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) ^ cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SRL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2));
+            cpu.regs.write(
+                inst.rd,
+                match *cpu.isa {
+                    Isa::Rv32 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0x1f),
+                    Isa::Rv64 => cpu.regs.read(inst.rs1) >> (cpu.regs.read(inst.rs2) & 0x3f),
+                },
+            );
         }
         OpecodeKind::OP_SRA => {
             cpu.regs.write(
-- 
2.43.0


From 897f07b03b8c2d3923208a450c1c8bed8b457b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 06/90] fix: jumps, branches and traps that land on the current
 pc do not fall through

---
 src/cpu/execution/inst_16.rs                |  7 ++----
 src/cpu/execution/inst_16/c_extension.rs    | 11 ++++++--
 src/cpu/execution/inst_32.rs                | 24 +++++++++++-------
 src/cpu/execution/inst_32/base_i.rs         | 28 ++++++++++++++++-----
 src/cpu/execution/inst_32/priv_extension.rs | 21 +++++++++++-----
 5 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index b222c4e..133e6f4 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -9,13 +9,10 @@ pub fn exe_cinst(
 ) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 2;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
-    c_extension::exec(inst, cpu)?;
+    let pc_updated = c_extension::exec(inst, cpu)?;
 
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
+    if !pc_updated {
         cpu.add2pc(INST_SIZE as i32);
     }
 
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 68a50bf..b34aa7d 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -2,7 +2,8 @@ use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TransAlign, TransFor, TrapCause};
 use crate::Isa;
 
-pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
+// returns whether the instruction has set the program counter by itself
+pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 2;
     const REG_SP: usize = 2;
     const REG_LINK: usize = 1;
@@ -111,10 +112,12 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_C_J => {
             cpu.add2pc(inst.imm.unwrap());
+            return Ok(true);
         }
         OpecodeKind::OP_C_JAL => {
             cpu.regs.write(Some(1), cpu.pc() + INST_SIZE);
             cpu.add2pc(inst.imm.unwrap());
+            return Ok(true);
         }
         OpecodeKind::OP_C_JALR => {
             // calc next_pc before updated
@@ -123,19 +126,23 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             // the result to zero                ->vvvvvv
             cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
             cpu.regs.write(Some(REG_LINK), next_pc);
+            return Ok(true);
         }
         OpecodeKind::OP_C_BEQZ => {
             if cpu.regs.read(inst.rs1) == 0 {
                 cpu.add2pc(inst.imm.unwrap());
+                return Ok(true);
             }
         }
         OpecodeKind::OP_C_BNEZ => {
             if cpu.regs.read(inst.rs1) != 0 {
                 cpu.add2pc(inst.imm.unwrap());
+                return Ok(true);
             }
         }
         OpecodeKind::OP_C_JR => {
             cpu.update_pc(cpu.regs.read(inst.rs1));
+            return Ok(true);
         }
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
@@ -196,7 +203,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         _ => panic!("not a compressed Instruction"),
     }
 
-    Ok(())
+    Ok(false)
 }
 
 #[cfg(test)]
diff --git a/src/cpu/execution/inst_32.rs b/src/cpu/execution/inst_32.rs
index 727fe06..47554af 100644
--- a/src/cpu/execution/inst_32.rs
+++ b/src/cpu/execution/inst_32.rs
@@ -10,20 +10,26 @@ use crate::cpu::{Cpu, TrapCause};
 pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
-    match inst.opc_to_extension() {
+    let pc_updated = match inst.opc_to_extension() {
         Extensions::BaseI => base_i::exec(inst, cpu)?,
-        Extensions::A => a_extension::exec(inst, cpu)?,
-        Extensions::M => m_extension::exec(inst, cpu)?,
+        Extensions::A => {
+            a_extension::exec(inst, cpu)?;
+            false
+        }
+        Extensions::M => {
+            m_extension::exec(inst, cpu)?;
+            false
+        }
         Extensions::Priv => priv_extension::exec(inst, cpu)?,
-        Extensions::Zicsr => zicsr_extension::exec(inst, cpu)?,
+        Extensions::Zicsr => {
+            zicsr_extension::exec(inst, cpu)?;
+            false
+        }
         _ => panic!("not a full size instruction."),
-    }
+    };
 
     // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
+    if !pc_updated {
         cpu.add2pc(INST_SIZE as i32);
     }
 
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 82f36ab..aaabca0 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -2,7 +2,8 @@ use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{Cpu, CrossIsaUtil, PrivilegedLevel, TransAlign, TransFor, TrapCause};
 use crate::Isa;
 
-pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
+// returns whether the instruction has set the program counter by itself
+pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
     match inst.opc {
@@ -15,6 +16,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_JAL => {
             cpu.regs.write(inst.rd, cpu.pc() + INST_SIZE);
             cpu.add2pc(inst.imm.unwrap());
+            return Ok(true);
         }
         OpecodeKind::OP_JALR => {
             // calc next_pc before updated
@@ -24,26 +26,31 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 (cpu.regs.read(inst.rs1) as i64 + inst.imm.unwrap() as i64) as u64 & !0x1,
             );
             cpu.regs.write(inst.rd, next_pc);
+            return Ok(true);
         }
         OpecodeKind::OP_BEQ => {
             if cpu.regs.read(inst.rs1) == cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+                return Ok(true);
             }
         }
         OpecodeKind::OP_BNE => {
             if cpu.regs.read(inst.rs1) != cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+                return Ok(true);
             }
         }
         OpecodeKind::OP_BLT => match *cpu.isa {
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                    return Ok(true);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                    return Ok(true);
                 }
             }
         },
@@ -51,22 +58,26 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) >= (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                    return Ok(true);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) >= (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                    return Ok(true);
                 }
             }
         },
         OpecodeKind::OP_BLTU => {
             if cpu.regs.read(inst.rs1) < cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+                return Ok(true);
             }
         }
         OpecodeKind::OP_BGEU => {
             if cpu.regs.read(inst.rs1) >= cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+                return Ok(true);
             }
         }
         OpecodeKind::OP_LB => {
@@ -286,18 +297,23 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             // nop (pipeline are not yet implemented)
         }
         OpecodeKind::OP_ECALL => {
-            cpu.trap(
-                0,
+            return Err((
+                Some(0),
                 match cpu.priv_lv() {
                     PrivilegedLevel::User => TrapCause::UmodeEcall,
                     PrivilegedLevel::Supervisor => TrapCause::SmodeEcall,
                     PrivilegedLevel::Machine => TrapCause::MmodeEcall,
                     _ => panic!("cannot enviroment call in current privileged mode."),
                 },
-            );
+                "environment call".to_string(),
+            ));
         }
         OpecodeKind::OP_EBREAK => {
-            cpu.trap(cpu.pc(), TrapCause::Breakpoint);
+            return Err((
+                Some(cpu.pc()),
+                TrapCause::Breakpoint,
+                "environment break".to_string(),
+            ));
         }
         OpecodeKind::OP_LWU => {
             let load_addr = cpu.trans_addr(
@@ -382,5 +398,5 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         _ => panic!("not an Base extension"),
     }
 
-    Ok(())
+    Ok(false)
 }
diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7e60da7..367d283 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -3,7 +3,8 @@ use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{Cpu, PrivilegedLevel, TrapCause};
 use crate::log;
 
-pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
+// returns whether the instruction has set the program counter by itself
+pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, TrapCause, String)> {
     match inst.opc {
         OpecodeKind::OP_SRET => {
             let require_priv = if cpu
@@ -28,8 +29,11 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
             if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
                 // mstatus.TSR == 1
-                let except_pc = cpu.pc();
-                cpu.trap(except_pc, TrapCause::IllegalInst);
+                return Err((
+                    Some(cpu.bus.load32(cpu.pc())?),
+                    TrapCause::IllegalInst,
+                    "exec sret but mstatus.TSR == 1".to_string(),
+                ));
             } else {
                 let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
                 cpu.update_pc(new_pc);
@@ -56,6 +60,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             });
             log::debugln!("priv: {:?}", cpu.priv_lv());
             log::debugln!("csrs.sepc: {:#x}", cpu.csrs.read(CSRname::sepc.wrap())?);
+            return Ok(true);
         }
         OpecodeKind::OP_MRET => {
             let new_priv = cpu
@@ -84,6 +89,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 _ => panic!("invalid PrivilegedLevel"),
             });
             log::debugln!("priv: {:?}", cpu.priv_lv());
+            return Ok(true);
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
@@ -93,12 +99,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                     .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
                     == 1
             {
-                let illegal_inst = cpu.bus.load32(cpu.pc())?;
-                cpu.trap(illegal_inst, TrapCause::IllegalInst);
+                return Err((
+                    Some(cpu.bus.load32(cpu.pc())?),
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma but mstatus.TVM == 1".to_string(),
+                ));
             }
         }
         _ => panic!("not an privileged extension"),
     }
 
-    Ok(())
+    Ok(false)
 }
-- 
2.43.0


From bcdbdca4b7c8b88d747d21286235152e3ec1e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 07/90] fix: the program counter wraps at 32 bits on RV32

---
 src/cpu.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index c333731..7bf9ea8 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -97,11 +97,11 @@ impl Cpu {
     }
 
     fn add2pc(&mut self, addval: i32) {
-        *self.pc.borrow_mut() = (self.pc() as i64 + addval as i64) as u64;
+        *self.pc.borrow_mut() = ((self.pc() as i64 + addval as i64) as u64).fix2regsz(&self.isa);
     }
 
     fn update_pc(&mut self, newpc: u64) {
-        *self.pc.borrow_mut() = newpc;
+        *self.pc.borrow_mut() = newpc.fix2regsz(&self.isa);
     }
 
     fn priv_lv(&self) -> PrivilegedLevel {
-- 
2.43.0


From a2c9d97d551a882036920faa12e88a11a33502fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 08/90] fix: C.JR clears bit 0 of its target

---
 src/cpu/execution/inst_16/c_extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index b34aa7d..363f63f 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -141,7 +141,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
             }
         }
         OpecodeKind::OP_C_JR => {
-            cpu.update_pc(cpu.regs.read(inst.rs1));
+            // setting the least-significant bit of the result to zero
+            cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
             return Ok(true);
         }
         OpecodeKind::OP_C_MV => {
-- 
2.43.0


From d92ee37e926ad8ae32ab6445e46090803f768115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 09/90] fix: C.SDSP requires 8-byte alignment

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 363f63f..dd015f2 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -177,7 +177,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
         OpecodeKind::OP_C_SDSP => {
             let store_addr = cpu.trans_addr(
                 TransFor::StoreAMO,
-                TransAlign::Size32,
+                TransAlign::Size64,
                 (cpu.regs.read(Some(REG_SP)) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
             cpu.bus.store64(store_addr, cpu.regs.read(inst.rs2))?;
-- 
2.43.0


From 09ede04e9933551060fee30cd999ad40ec0693b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 10/90] fix: C.EBREAK raises a breakpoint exception

---
 src/cpu/execution/inst_16/c_extension.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index dd015f2..819f56b 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -148,7 +148,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
         }
-        OpecodeKind::OP_C_EBREAK => { /* NOP */ }
+        OpecodeKind::OP_C_EBREAK => {
+            return Err((
+                Some(cpu.pc()),
+                TrapCause::Breakpoint,
+                "environment break".to_string(),
+            ));
+        }
         // -- rv64 --
         OpecodeKind::OP_C_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 287f8b5d85b6ea77328ad63ec3aeb9a74b26c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 11/90] fix: unknown funct7 of the OP-32 opcode is an illegal
 instruction, not a panic

---
 src/cpu/decode/inst_32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index dc6419f..8e2b42e 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -121,9 +121,8 @@ impl DecodeUtil for u32 {
                 _ => Extensions::BaseI,
             },
             0b0111011 => match funct7 {
-                0b0000000 | 0b0100000 => Extensions::BaseI,
                 0b0000001 => Extensions::M,
-                _ => unreachable!(),
+                _ => Extensions::BaseI,
             },
             0b1110011 => match funct3 {
                 0b000 => match funct7 {
-- 
2.43.0


From 6e8691a1131b3c670e73ead48ce4b7216ec02324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 12/90] fix: 32-bit words with reserved funct or register
 fields are illegal instructions

---
 src/cpu/decode/inst_32/a_extension.rs    |  5 +-
 src/cpu/decode/inst_32/base_i.rs         | 64 ++++++++++++++++--------
 src/cpu/decode/inst_32/priv_extension.rs |  3 +-
 3 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/cpu/decode/inst_32/a_extension.rs b/src/cpu/decode/inst_32/a_extension.rs
index e39a3cf..4af8ef5 100644
--- a/src/cpu/decode/inst_32/a_extension.rs
+++ b/src/cpu/decode/inst_32/a_extension.rs
@@ -6,6 +6,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     let opmap: u8 = inst.slice(6, 0) as u8;
     let funct3: u8 = inst.slice(14, 12) as u8;
     let funct7: u8 = inst.slice(31, 27) as u8;
+    let rs2: u8 = inst.slice(24, 20) as u8;
     let illegal_inst_exception = || {
         Err((
             Some(u64::from(inst)),
@@ -17,7 +18,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
     match opmap {
         0b0101111 => match funct3 {
             0b010 => match funct7 {
-                0b00010 => Ok(OpecodeKind::OP_LR_W),
+                0b00010 if rs2 == 0 => Ok(OpecodeKind::OP_LR_W),
                 0b00011 => Ok(OpecodeKind::OP_SC_W),
                 0b00001 => Ok(OpecodeKind::OP_AMOSWAP_W),
                 0b00000 => Ok(OpecodeKind::OP_AMOADD_W),
@@ -31,7 +32,7 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 _ => illegal_inst_exception(),
             },
             0b011 => match funct7 {
-                0b00010 => only_rv64(OpecodeKind::OP_LR_D, isa),
+                0b00010 if rs2 == 0 => only_rv64(OpecodeKind::OP_LR_D, isa),
                 0b00011 => only_rv64(OpecodeKind::OP_SC_D, isa),
                 0b00001 => only_rv64(OpecodeKind::OP_AMOSWAP_D, isa),
                 0b00000 => only_rv64(OpecodeKind::OP_AMOADD_D, isa),
diff --git a/src/cpu/decode/inst_32/base_i.rs b/src/cpu/decode/inst_32/base_i.rs
index f609bc0..93e5225 100644
--- a/src/cpu/decode/inst_32/base_i.rs
+++ b/src/cpu/decode/inst_32/base_i.rs
@@ -5,7 +5,6 @@ use crate::cpu::{Isa, TrapCause};
 pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)> {
     let opmap: u8 = inst.slice(6, 0) as u8;
     let funct3: u8 = inst.slice(14, 12) as u8;
-    let funct5: u8 = inst.slice(24, 20) as u8;
     let funct6: u8 = inst.slice(31, 26) as u8;
     let funct7: u8 = inst.slice(31, 25) as u8;
     let illegal_inst_exception = || {
@@ -20,7 +19,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
         0b0110111 => Ok(OpecodeKind::OP_LUI),
         0b0010111 => Ok(OpecodeKind::OP_AUIPC),
         0b1101111 => Ok(OpecodeKind::OP_JAL),
-        0b1100111 => Ok(OpecodeKind::OP_JALR),
+        0b1100111 => match funct3 {
+            0b000 => Ok(OpecodeKind::OP_JALR),
+            _ => illegal_inst_exception(),
+        },
         0b1100011 => match funct3 {
             0b000 => Ok(OpecodeKind::OP_BEQ),
             0b001 => Ok(OpecodeKind::OP_BNE),
@@ -84,34 +86,53 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => Ok(OpecodeKind::OP_SUB),
                 _ => illegal_inst_exception(),
             },
-            0b001 => Ok(OpecodeKind::OP_SLL),
-            0b010 => Ok(OpecodeKind::OP_SLT),
-            0b011 => Ok(OpecodeKind::OP_SLTU),
-            0b100 => Ok(OpecodeKind::OP_XOR),
+            0b001 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_SLL),
+                _ => illegal_inst_exception(),
+            },
+            0b010 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_SLT),
+                _ => illegal_inst_exception(),
+            },
+            0b011 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_SLTU),
+                _ => illegal_inst_exception(),
+            },
+            0b100 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_XOR),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => Ok(OpecodeKind::OP_SRL),
                 0b0100000 => Ok(OpecodeKind::OP_SRA),
                 _ => illegal_inst_exception(),
             },
-            0b110 => Ok(OpecodeKind::OP_OR),
-            0b111 => Ok(OpecodeKind::OP_AND),
-            _ => illegal_inst_exception(),
-        },
-        0b0001111 => Ok(OpecodeKind::OP_FENCE),
-        0b1110011 => match funct3 {
-            0b000 => match funct7 {
-                0b0000000 => match funct5 {
-                    0b00000 => Ok(OpecodeKind::OP_ECALL),
-                    0b00001 => Ok(OpecodeKind::OP_EBREAK),
-                    _ => illegal_inst_exception(),
-                },
+            0b110 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_OR),
+                _ => illegal_inst_exception(),
+            },
+            0b111 => match funct7 {
+                0b0000000 => Ok(OpecodeKind::OP_AND),
                 _ => illegal_inst_exception(),
             },
             _ => illegal_inst_exception(),
         },
+        0b0001111 => match funct3 {
+            // FENCE, FENCE.I
+            0b000 | 0b001 => Ok(OpecodeKind::OP_FENCE),
+            _ => illegal_inst_exception(),
+        },
+        0b1110011 => match inst {
+            0b00000000000000000000000001110011 => Ok(OpecodeKind::OP_ECALL),
+            0b00000000000100000000000001110011 => Ok(OpecodeKind::OP_EBREAK),
+            _ => illegal_inst_exception(),
+        },
         0b0011011 => match funct3 {
             0b000 => only_rv64(OpecodeKind::OP_ADDIW, isa),
-            0b001 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+            0b001 => match funct7 {
+                0b0000000 => only_rv64(OpecodeKind::OP_SLLIW, isa),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLIW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAIW, isa),
@@ -125,7 +146,10 @@ pub fn parse_opecode(inst: u32, isa: Isa) -> Result<OpecodeKind, (Option<u64>, T
                 0b0100000 => only_rv64(OpecodeKind::OP_SUBW, isa),
                 _ => illegal_inst_exception(),
             },
-            0b001 => only_rv64(OpecodeKind::OP_SLLW, isa),
+            0b001 => match funct7 {
+                0b0000000 => only_rv64(OpecodeKind::OP_SLLW, isa),
+                _ => illegal_inst_exception(),
+            },
             0b101 => match funct7 {
                 0b0000000 => only_rv64(OpecodeKind::OP_SRLW, isa),
                 0b0100000 => only_rv64(OpecodeKind::OP_SRAW, isa),
diff --git a/src/cpu/decode/inst_32/priv_extension.rs b/src/cpu/decode/inst_32/priv_extension.rs
index d433373..16225c5 100644
--- a/src/cpu/decode/inst_32/priv_extension.rs
+++ b/src/cpu/decode/inst_32/priv_extension.rs
@@ -6,13 +6,14 @@ pub fn parse_opecode(inst: u32) -> Result<OpecodeKind, (Option<u64>, TrapCause,
     let _opmap: u8 = inst.slice(6, 0) as u8;
     let _funct3: u8 = inst.slice(14, 12) as u8;
     let funct7: u8 = inst.slice(31, 25) as u8;
+    let rd: u8 = inst.slice(11, 7) as u8;
 
     match inst {
         0b00010000001000000000000001110011 => Ok(OpecodeKind::OP_SRET),
         0b00110000001000000000000001110011 => Ok(OpecodeKind::OP_MRET),
         0b00010000010100000000000001110011 => Ok(OpecodeKind::OP_WFI),
         _ => match funct7 {
-            0b0001001 => Ok(OpecodeKind::OP_SFENCE_VMA),
+            0b0001001 if rd == 0 => Ok(OpecodeKind::OP_SFENCE_VMA),
             _ => Err((
                 Some(u64::from(inst)),
                 TrapCause::IllegalInst,
-- 
2.43.0


From 52c392710c035dc4fbddf923bc000e21d53f15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 13/90] fix: reserved compressed encodings are illegal
 instructions

---
 src/cpu/decode/inst_16/c_extension.rs | 51 +++++++++++++++++++++------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4eef8..50a6315 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -21,6 +21,18 @@ fn quadrant0(
     }
 }
 
+// shamt[5] must be zero on rv32
+fn shift_amount(
+    opcode: OpecodeKind,
+    inst: u16,
+    isa: Isa,
+) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)> {
+    match inst.slice(12, 12) {
+        0b0 => Ok(opcode),
+        _ => only_rv64(opcode, isa),
+    }
+}
+
 fn quadrant1(
     inst: u16,
     opmap: &u8,
@@ -45,7 +57,10 @@ fn quadrant1(
         },
         0b001 => match isa {
             Isa::Rv32 => Ok(OpecodeKind::OP_C_JAL),
-            Isa::Rv64 => Ok(OpecodeKind::OP_C_ADDIW),
+            Isa::Rv64 => match mi_flag {
+                0b00000 => illegal_inst_exception(),
+                _ => Ok(OpecodeKind::OP_C_ADDIW),
+            },
         },
         0b010 => Ok(OpecodeKind::OP_C_LI),
         0b011 => match mi_flag {
@@ -53,8 +68,8 @@ fn quadrant1(
             _ => Ok(OpecodeKind::OP_C_LUI),
         },
         0b100 => match sr_flag {
-            0b00 => Ok(OpecodeKind::OP_C_SRLI),
-            0b01 => Ok(OpecodeKind::OP_C_SRAI),
+            0b00 => shift_amount(OpecodeKind::OP_C_SRLI, inst, isa),
+            0b01 => shift_amount(OpecodeKind::OP_C_SRAI, inst, isa),
             0b10 => Ok(OpecodeKind::OP_C_ANDI),
             0b11 => match bit_12 {
                 0b0 => match lo_flag {
@@ -90,12 +105,19 @@ fn quadrant2(
     let hi_flag: u8 = inst.slice(12, 12) as u8;
 
     match opmap {
-        0b000 => Ok(OpecodeKind::OP_C_SLLI),
-        0b010 => Ok(OpecodeKind::OP_C_LWSP),
-        0b011 => only_rv64(OpecodeKind::OP_C_LDSP, isa),
+        0b000 => shift_amount(OpecodeKind::OP_C_SLLI, inst, isa),
+        0b010 if mi_flag != 0 => Ok(OpecodeKind::OP_C_LWSP),
+        0b011 if mi_flag != 0 => only_rv64(OpecodeKind::OP_C_LDSP, isa),
         0b100 => match hi_flag {
             0b0 => match lo_flag {
-                0b0 => Ok(OpecodeKind::OP_C_JR),
+                0b0 => match mi_flag {
+                    0b0 => Err((
+                        Some(u64::from(inst)),
+                        TrapCause::IllegalInst,
+                        format!("opecode decoding failed, {inst:b}"),
+                    )),
+                    _ => Ok(OpecodeKind::OP_C_JR),
+                },
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
             0b1 => match mi_flag {
@@ -299,9 +321,18 @@ pub fn parse_imm(
     let q2_swsp_imm = || inst.slice(12, 7).set(&[5, 4, 3, 2, 7, 6]) as i32;
     let q2_sdsp_imm = || inst.slice(12, 7).set(&[5, 4, 3, 8, 7, 6]) as i32;
 
+    let non_zero = |imm: i32| match imm {
+        0 => Err((
+            Some(u64::from(inst)),
+            TrapCause::IllegalInst,
+            format!("immediate must not be zero, {inst:b}"),
+        )),
+        _ => Ok(Some(imm)),
+    };
+
     match opkind {
         // Quadrant0
-        OpecodeKind::OP_C_ADDI4SPN => Ok(Some(q0_nzuimm())),
+        OpecodeKind::OP_C_ADDI4SPN => non_zero(q0_nzuimm()),
         OpecodeKind::OP_C_LW => Ok(Some(q0_uimm())),
         OpecodeKind::OP_C_LD => Ok(Some(q0_uimm_64())),
         OpecodeKind::OP_C_SW => Ok(Some(q0_uimm())),
@@ -312,8 +343,8 @@ pub fn parse_imm(
         OpecodeKind::OP_C_JAL => Ok(Some(q1_j_imm())),
         OpecodeKind::OP_C_ADDIW => Ok(Some(q1_imm())),
         OpecodeKind::OP_C_LI => Ok(Some(q1_imm())),
-        OpecodeKind::OP_C_ADDI16SP => Ok(Some(q1_16sp_nzimm())),
-        OpecodeKind::OP_C_LUI => Ok(Some(q1_lui_imm())),
+        OpecodeKind::OP_C_ADDI16SP => non_zero(q1_16sp_nzimm()),
+        OpecodeKind::OP_C_LUI => non_zero(q1_lui_imm()),
         OpecodeKind::OP_C_SRLI => Ok(Some(q1_nzuimm())),
         OpecodeKind::OP_C_SRAI => Ok(Some(q1_nzuimm())),
         OpecodeKind::OP_C_ANDI => Ok(Some(q1_imm())),
-- 
2.43.0


From a93259d96eb41534dd12c6f664080ba4e3c51400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 14/90] fix: every illegal-instruction exception reports the
 instruction word, without refetching it

---
 src/cpu.rs                                   | 10 +++++++++-
 src/cpu/decode.rs                            |  1 +
 src/cpu/decode/inst_16.rs                    |  4 ++++
 src/cpu/decode/inst_32.rs                    |  4 ++++
 src/cpu/execution/inst_32/priv_extension.rs  |  6 +++---
 src/cpu/execution/inst_32/zicsr_extension.rs | 17 +++++++----------
 6 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 7bf9ea8..4743b3a 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -118,7 +118,15 @@ impl Cpu {
 
         self.check_interrupt()?;
 
-        fetch(self)?.decode(*self.isa)?.execution(self)
+        let inst_word = fetch(self)?;
+        inst_word
+            .decode(*self.isa)
+            .and_then(|inst| inst.execution(self))
+            .map_err(|(tval, cause, msg)| match cause {
+                // the trap value is the faulting instruction itself
+                TrapCause::IllegalInst => (Some(inst_word.bits()), cause, msg),
+                _ => (tval, cause, msg),
+            })
     }
 
     fn trans_addr(
diff --git a/src/cpu/decode.rs b/src/cpu/decode.rs
index e50e0fa..72cbf65 100644
--- a/src/cpu/decode.rs
+++ b/src/cpu/decode.rs
@@ -20,6 +20,7 @@ pub fn only_rv64(
 }
 
 pub trait Decode {
+    fn bits(&self) -> u64;
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)>;
     fn parse_opecode(self, isa: Isa) -> Result<OpecodeKind, (Option<u64>, TrapCause, String)>;
     fn parse_rd(
diff --git a/src/cpu/decode/inst_16.rs b/src/cpu/decode/inst_16.rs
index 5f3f1ef..0b9989f 100644
--- a/src/cpu/decode/inst_16.rs
+++ b/src/cpu/decode/inst_16.rs
@@ -6,6 +6,10 @@ use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Isa, TrapCause};
 
 impl Decode for u16 {
+    fn bits(&self) -> u64 {
+        u64::from(*self)
+    }
+
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc = self.parse_opecode(isa)?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index 8e2b42e..5022419 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -10,6 +10,10 @@ use crate::cpu::{Isa, TrapCause};
 
 #[allow(non_snake_case)]
 impl Decode for u32 {
+    fn bits(&self) -> u64 {
+        u64::from(*self)
+    }
+
     fn decode(&self, isa: Isa) -> Result<Instruction, (Option<u64>, TrapCause, String)> {
         let new_opc: OpecodeKind = self.parse_opecode(isa)?;
         let new_rd: Option<usize> = self.parse_rd(&new_opc)?;
diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 367d283..e16cf4b 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -18,7 +18,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
             };
             if cpu.priv_lv() < require_priv {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    None,
                     TrapCause::IllegalInst,
                     "exec sret but mstatus.TSR == 1".to_string(),
                 ));
@@ -30,7 +30,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
             if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
                 // mstatus.TSR == 1
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    None,
                     TrapCause::IllegalInst,
                     "exec sret but mstatus.TSR == 1".to_string(),
                 ));
@@ -100,7 +100,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
                     == 1
             {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    None,
                     TrapCause::IllegalInst,
                     "exec sfence.vma but mstatus.TVM == 1".to_string(),
                 ));
diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 1a4077e..4f4008b 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,10 +1,7 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
-use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause, Xstatus};
+use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TrapCause, Xstatus};
 
 fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
-    let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let invalid_instruction = Some(cpu.bus.load_u32(inst_addr).expect("get instruction failed"));
-
     if dist >= 4096 {
         return Err((
             None,
@@ -17,7 +14,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         PrivilegedLevel::User => {
             if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     format!("You are in User mode but accessed {dist:x}"),
                 ));
@@ -27,7 +24,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "mcounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -35,7 +32,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;
                 if sctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "scounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -45,7 +42,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         PrivilegedLevel::Supervisor => {
             if (0x300..=0x344).contains(&dist) {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     format!("You are in Supervisor mode but accessed {dist:x}"),
                 ));
@@ -55,7 +52,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
                     return Err((
-                        invalid_instruction,
+                        None,
                         TrapCause::IllegalInst,
                         "mcounteren bit is cleared, but attempt reading".to_string(),
                     ));
@@ -69,7 +66,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                     == 1
             {
                 return Err((
-                    invalid_instruction,
+                    None,
                     TrapCause::IllegalInst,
                     "mstatus.TVM == 1 but accessed satp".to_string(),
                 ));
-- 
2.43.0


From d057205d51d1ce38981a5dc206a6aa64d6bdad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 15/90] fix: a device's address range ends before base+size,
 and the CLINT has all 64 KiB

---
 src/bus/clint.rs | 4 ++--
 src/bus/dram.rs  | 2 +-
 src/bus/mrom.rs  | 2 +-
 src/bus/plic.rs  | 2 +-
 src/bus/uart.rs  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 152a4aa..1a12027 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -16,7 +16,7 @@ impl Default for Clint {
 impl Clint {
     #[allow(arithmetic_overflow)]
     pub fn new() -> Self {
-        const CLINT_SIZE: usize = 0xFFFF;
+        const CLINT_SIZE: usize = 0x10000;
 
         Clint {
             clint: vec![0; CLINT_SIZE],
@@ -30,7 +30,7 @@ impl Clint {
 impl Device for Clint {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 4328fad..0d1477a 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -81,7 +81,7 @@ impl Dram {
 impl Device for Dram {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index e655374..f66677b 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -49,7 +49,7 @@ impl Mrom {
 impl Device for Mrom {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ee8439..709c729 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -261,7 +261,7 @@ impl Plic {
 impl Device for Plic {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 8f6aa23..3668207 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -253,7 +253,7 @@ impl Uart {
 impl Device for Uart {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
-- 
2.43.0


From a6319a970ed7b355dd3f9546d2dcd87099eac969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 16/90] fix: unsupported device accesses raise access faults,
 not page faults

---
 src/bus/clint.rs | 14 +++++++-------
 src/bus/mrom.rs  |  8 ++++----
 src/bus/uart.rs  | 16 ++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 1a12027..726ae66 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -42,7 +42,7 @@ impl Device for Clint {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store8".to_string(),
         ))
     }
@@ -50,7 +50,7 @@ impl Device for Clint {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store16".to_string(),
         ))
     }
@@ -81,7 +81,7 @@ impl Device for Clint {
     fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load8".to_string(),
         ))
     }
@@ -89,7 +89,7 @@ impl Device for Clint {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load16".to_string(),
         ))
     }
@@ -116,7 +116,7 @@ impl Device for Clint {
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u8".to_string(),
         ))
     }
@@ -124,7 +124,7 @@ impl Device for Clint {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u16".to_string(),
         ))
     }
@@ -132,7 +132,7 @@ impl Device for Clint {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u32".to_string(),
         ))
     }
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index f66677b..2f7ae23 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -61,7 +61,7 @@ impl Device for Mrom {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -69,7 +69,7 @@ impl Device for Mrom {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -77,7 +77,7 @@ impl Device for Mrom {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -85,7 +85,7 @@ impl Device for Mrom {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 3668207..43c38ba 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -269,7 +269,7 @@ impl Device for Uart {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store16".to_string(),
         ))
     }
@@ -277,7 +277,7 @@ impl Device for Uart {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store32".to_string(),
         ))
     }
@@ -285,7 +285,7 @@ impl Device for Uart {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store64".to_string(),
         ))
     }
@@ -298,7 +298,7 @@ impl Device for Uart {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load16".to_string(),
         ))
     }
@@ -306,7 +306,7 @@ impl Device for Uart {
     fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load32".to_string(),
         ))
     }
@@ -314,7 +314,7 @@ impl Device for Uart {
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load64".to_string(),
         ))
     }
@@ -327,7 +327,7 @@ impl Device for Uart {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u16".to_string(),
         ))
     }
@@ -335,7 +335,7 @@ impl Device for Uart {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u32".to_string(),
         ))
     }
-- 
2.43.0


From ae115871370b9e438fa2088f5efa1b1391d37eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 17/90] fix: unsigned and signed loads of device registers read
 the same register

---
 src/bus.rs       | 11 ++++++-----
 src/bus/uart.rs  |  2 +-
 src/cpu/fetch.rs |  4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bus.rs b/src/bus.rs
index ff67479..d8bde0f 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -212,7 +212,7 @@ impl Bus {
         }
     }
 
-    pub fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+    pub fn load_u8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.mrom.in_range(addr) {
             self.mrom.load_u8(addr)
         } else if self.clint.in_range(addr) {
@@ -220,7 +220,8 @@ impl Bus {
         } else if self.dram.in_range(addr) {
             self.dram.load_u8(addr)
         } else if self.uart.in_range(addr) {
-            self.uart.load_u8(addr)
+            // the same register access as load8, zero-extended
+            Ok(self.uart.load8_with_plic(addr, &mut self.plic)? & 0xff)
         } else if self.plic.in_range(addr) {
             self.plic.load_u8(addr)
         } else {
@@ -252,17 +253,17 @@ impl Bus {
         }
     }
 
-    pub fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+    pub fn load_u32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.mrom.in_range(addr) {
             self.mrom.load_u32(addr)
         } else if self.clint.in_range(addr) {
-            self.clint.load_u32(addr)
+            Ok(self.clint.load32(addr)? & 0xffff_ffff)
         } else if self.dram.in_range(addr) {
             self.dram.load_u32(addr)
         } else if self.uart.in_range(addr) {
             self.uart.load_u32(addr)
         } else if self.plic.in_range(addr) {
-            self.plic.load_u32(addr)
+            Ok(self.plic.load32(addr)? & 0xffff_ffff)
         } else {
             Err((
                 Some(addr),
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 43c38ba..2746244 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -155,7 +155,7 @@ impl Uart {
                 };
                 self.update_interrupt(plic);
 
-                Ok(data as u64)
+                Ok(data as i8 as i64 as u64)
             }
             IER => {
                 if self.uart[UartRegister::LCR as usize] & LcrMask::DLAB as u8 != 0 {
diff --git a/src/cpu/fetch.rs b/src/cpu/fetch.rs
index 0ad2b9e..f2a291c 100644
--- a/src/cpu/fetch.rs
+++ b/src/cpu/fetch.rs
@@ -5,8 +5,8 @@ use crate::{log, Isa};
 
 pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause, String)> {
     let index_pc: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let is_cinst: bool = match cpu.bus.load_u8(index_pc) {
-        Ok(inst_byte) => inst_byte & 0x3 != 0x3,
+    let is_cinst: bool = match cpu.bus.load_u16(index_pc) {
+        Ok(inst) => inst & 0x3 != 0x3,
         Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
     };
 
-- 
2.43.0


From 6f909ff6a87250b4954e4e9d19ec73a7bceb422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 18/90] fix: 64-bit and sign-extended PLIC accesses carry all
 register bits

---
 src/bus/plic.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 709c729..f94740d 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -329,8 +329,8 @@ impl Device for Plic {
     }
 
     fn store64(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        self.store32(addr, data & 0xffff)?;
-        self.store32(addr + 4, data >> 32 & 0xffff)
+        self.store32(addr, data & 0xffff_ffff)?;
+        self.store32(addr + 4, data >> 32)
     }
 
     // load
@@ -356,12 +356,12 @@ impl Device for Plic {
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
         let addr = self.addr2index(addr);
         match addr {
-            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as u64),
+            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as i32 as u64),
             ENABLE_BASE..=CONTEXT_BASE_MINUS_ONE => {
                 let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
                 let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as u64)
+                    Ok(self.context_enable_read(cntx, addr) as i32 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
@@ -388,8 +388,9 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        self.load32(addr)?;
-        self.load32(addr + 4)
+        let lower = self.load32(addr)? & 0xffff_ffff;
+        let upper = self.load32(addr + 4)?;
+        Ok(upper << 32 | lower)
     }
 
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-- 
2.43.0


From 0c62f99a371e4f53df63c2260aad2ba5305c67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 19/90] fix: PLIC context offsets without a register raise
 access faults instead of panicking

---
 src/bus/plic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index f94740d..f05e2a9 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -313,7 +313,7 @@ impl Device for Plic {
             CONTEXT_BASE..=PLIC_SIZE_MINUS_ONE => {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
-                if cntx < CONTEXT_NUM {
+                if cntx < CONTEXT_NUM && (addr == CONTEXT_THRESHOLD || addr == CONTEXT_CLAIM) {
                     self.context_write(cntx, addr, data as u32);
                     Ok(())
                 } else {
@@ -373,7 +373,7 @@ impl Device for Plic {
             CONTEXT_BASE..=PLIC_SIZE_MINUS_ONE => {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
-                if cntx < CONTEXT_NUM {
+                if cntx < CONTEXT_NUM && (addr == CONTEXT_THRESHOLD || addr == CONTEXT_CLAIM) {
                     Ok(self.context_read(cntx, addr) as u64)
                 } else {
                     Err((
-- 
2.43.0


From ba531ad255c4fb125f9c4771b15cbe1e1f2f6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 20/90] fix: the PLIC honours source priorities, priority 0 and
 the context threshold

---
 src/bus/plic.rs | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index f05e2a9..19ad5e6 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -21,7 +21,6 @@ pub struct PlicContext {
     priority_thresould: u8,
     enable: Vec<u32>,
     pending: Vec<u32>,
-    pending_priority: Vec<u8>,
     claimed: Vec<u32>,
     context_priv: PrivilegedLevel,
 }
@@ -32,7 +31,6 @@ impl PlicContext {
             priority_thresould: 0,
             enable: vec![0; PLIC_MAX_DEVICES / 32],
             pending: vec![0; PLIC_MAX_DEVICES / 32],
-            pending_priority: vec![0; PLIC_MAX_DEVICES],
             claimed: vec![0; PLIC_MAX_DEVICES / 32],
             context_priv,
         }
@@ -82,17 +80,18 @@ impl Plic {
 
             for off in 0..32 {
                 let id = i * 32 + off;
+                // priority 0 never interrupts
                 if (NUM_IDS <= id)
+                    || self.priority[id] == 0
                     || ((self.contexts[context_id].pending[i] & (1 << off)) == 0)
                     || ((self.contexts[context_id].claimed[i] & (1 << off)) != 0)
                 {
                     continue;
                 }
 
-                if (best_id == 0) || (best_id_prio < self.contexts[context_id].pending_priority[id])
-                {
+                if (best_id == 0) || (best_id_prio < self.priority[id]) {
                     best_id = id as u32;
-                    best_id_prio = self.contexts[context_id].pending_priority[id];
+                    best_id_prio = self.priority[id];
                 }
             }
         }
@@ -109,15 +108,16 @@ impl Plic {
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
-        self.mip_value = if best_id == 0 {
-            0
-        } else {
-            match self.contexts[context_id].context_priv {
-                PrivilegedLevel::Machine => MIP_MEIP_MASK,
-                PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
-                _ => unreachable!(),
-            }
-        };
+        self.mip_value =
+            if self.priority[best_id as usize] <= self.contexts[context_id].priority_thresould {
+                0
+            } else {
+                match self.contexts[context_id].context_priv {
+                    PrivilegedLevel::Machine => MIP_MEIP_MASK,
+                    PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
+                    _ => unreachable!(),
+                }
+            };
     }
 
     fn context_claim(&mut self, context_id: usize) -> u32 {
@@ -147,6 +147,9 @@ impl Plic {
         let id = offset >> 2;
         if id > 0 && id < NUM_IDS {
             self.priority[id] = (val & PLIC_PRIO_MASK) as u8;
+            for c in 0..CONTEXT_NUM {
+                self.context_update(c);
+            }
         }
     }
 
@@ -172,9 +175,7 @@ impl Plic {
         self.contexts[context_id].enable[id_word] = new_val;
 
         for i in 0..32 {
-            let id = id_word * 32 + i;
             let id_mask = 1 << i;
-            let id_prio = self.priority[id];
 
             if xor_val & id_mask == 0 {
                 continue;
@@ -182,10 +183,8 @@ impl Plic {
 
             if new_val & id_mask != 0 && self.level[id_word] & id_mask != 0 {
                 self.contexts[context_id].pending[id_word] |= id_mask;
-                self.contexts[context_id].pending_priority[id] = id_prio;
             } else if new_val & id_mask == 0 {
                 self.contexts[context_id].pending[id_word] &= !id_mask;
-                self.contexts[context_id].pending_priority[id] = 0;
                 self.contexts[context_id].claimed[id_word] &= !id_mask;
             }
         }
@@ -229,7 +228,6 @@ impl Plic {
             return;
         }
 
-        let id_prio = self.priority[id as usize];
         let id_word = (id / 32) as usize;
         let id_mask = 1 << (id % 32);
 
@@ -243,10 +241,8 @@ impl Plic {
             if self.contexts[c].enable[id_word] & id_mask != 0 {
                 if level != 0 {
                     self.contexts[c].pending[id_word] |= id_mask;
-                    self.contexts[c].pending_priority[id as usize] = id_prio;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].pending_priority[id as usize] = 0;
                     self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
-- 
2.43.0


From bb7fc4ca597cb247b96f9eb6a755fec24868a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 21/90] fix: the PLIC drives the lines of its two contexts
 independently

---
 src/bus/plic.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 19ad5e6..0f07c60 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -103,21 +103,17 @@ impl Plic {
         const MIP_MEIP_MASK: u64 = 1 << 11;
         const MIP_SEIP_MASK: u64 = 1 << 9;
         let best_id = self.context_best_pending(context_id);
-        self.mip_mask = match self.contexts[context_id].context_priv {
+        let line = match self.contexts[context_id].context_priv {
             PrivilegedLevel::Machine => MIP_MEIP_MASK,
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
-        self.mip_value =
-            if self.priority[best_id as usize] <= self.contexts[context_id].priority_thresould {
-                0
-            } else {
-                match self.contexts[context_id].context_priv {
-                    PrivilegedLevel::Machine => MIP_MEIP_MASK,
-                    PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
-                    _ => unreachable!(),
-                }
-            };
+        self.mip_mask |= line;
+        if self.priority[best_id as usize] <= self.contexts[context_id].priority_thresould {
+            self.mip_value &= !line;
+        } else {
+            self.mip_value |= line;
+        }
     }
 
     fn context_claim(&mut self, context_id: usize) -> u32 {
@@ -247,7 +243,6 @@ impl Plic {
                 }
 
                 self.context_update(c);
-                break;
             }
         }
     }
-- 
2.43.0


From 8f6ade98de0789a77f1f8195fe8f964cdcd4ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 22/90] fix: the UART transmits the written byte unchanged
 instead of as a Unicode scalar

---
 src/bus/uart.rs    | 2 +-
 src/bus/uart/io.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 2746244..22096d4 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -199,7 +199,7 @@ impl Uart {
                     return Ok(());
                 }
 
-                self.tx_byte(char::from_u32(data as u32).unwrap())
+                self.tx_byte(data as u8)
             }
             IER => {
                 if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index ece61f3..5606ee4 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -62,9 +62,10 @@ impl Uart {
         front
     }
 
-    pub fn tx_byte(&mut self, data: char) {
+    pub fn tx_byte(&mut self, data: u8) {
         self.uart[UartRegister::LSR as usize] |= (LsrMask::TEMT as u8) | (LsrMask::THRE as u8);
-        print!("{}", char::from_u32(data as u32).unwrap());
-        io::stdout().flush().expect("stdout flush failed");
+        let mut stdout = io::stdout();
+        stdout.write_all(&[data]).expect("stdout write failed");
+        stdout.flush().expect("stdout flush failed");
     }
 }
-- 
2.43.0


From e329ea3dadf7ff1df8d913b914102911619b8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 23/90] fix: the UART receives standard input as bytes and
 stops reading at its end

---
 src/bus/uart.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 22096d4..18ccefb 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -4,6 +4,7 @@ use super::Device;
 use crate::bus::Plic;
 use crate::TrapCause;
 use std::collections::VecDeque;
+use std::io::BufRead;
 use std::sync::mpsc;
 
 const UART_QUEUE_SIZE: usize = 64;
@@ -99,7 +100,7 @@ pub struct Uart {
     pub base_addr: u64,
     size: usize,
     rx_queue: VecDeque<u8>,
-    stdin_channel: mpsc::Receiver<String>,
+    stdin_channel: mpsc::Receiver<Vec<u8>>,
 }
 
 impl Default for Uart {
@@ -117,11 +118,16 @@ impl Uart {
         uart[UartRegister::MSR as usize] = 0xb0; // UART_MSR_DCD | UART_MSR_DSR | UART_MSR_CTS
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
-        let (tx, rx) = mpsc::channel::<String>();
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
         std::thread::spawn(move || loop {
-            let mut buffer = String::new();
-            std::io::stdin().read_line(&mut buffer).unwrap();
-            tx.send(buffer).unwrap();
+            let mut buffer = Vec::new();
+            match std::io::stdin().lock().read_until(b'\n', &mut buffer) {
+                Ok(0) | Err(_) => break, // end of input
+                Ok(_) => (),
+            }
+            if tx.send(buffer).is_err() {
+                break;
+            }
         });
 
         Uart {
@@ -236,9 +242,7 @@ impl Uart {
             Ok(input) => {
                 self.backoff_counter = 0;
 
-                for c in input.chars() {
-                    self.rx_queue.push_back(c as u8);
-                }
+                self.rx_queue.extend(input);
                 self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
                 self.update_interrupt(plic);
             }
-- 
2.43.0


From 5bbe9d6c0677bcde5169d0cec38ffe33e7edfa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 24/90] fix: UART FIFOs are cleared by FCR bits, not LCR bits

---
 src/bus/uart.rs    | 3 +++
 src/bus/uart/io.rs | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 18ccefb..43d4156 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -96,6 +96,7 @@ pub struct Uart {
     pub uart: Vec<u8>,
     dll: u8,
     dlm: u8,
+    fcr: u8,
     backoff_counter: u64,
     pub base_addr: u64,
     size: usize,
@@ -134,6 +135,7 @@ impl Uart {
             uart,
             dll: 0x0c,
             dlm: 0,
+            fcr: 0,
             backoff_counter: 0,
             base_addr: 0x1000_0000,
             size: UART_SIZE,
@@ -214,6 +216,7 @@ impl Uart {
                     self.dlm = data as u8;
                 }
             }
+            FCR => self.fcr = data as u8,
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 5606ee4..05305ba 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -7,14 +7,14 @@ impl Uart {
     pub fn update_interrupt(&mut self, plic: &mut Plic) {
         const UART_INTERRUPT_ID: u32 = 1;
         let mut interrupts = 0;
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_RCVR as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_RCVR as u8);
+        if self.fcr & FcrMask::CLEAR_RCVR as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_RCVR as u8);
             self.rx_queue.clear();
             self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
         }
 
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_XMIT as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_XMIT as u8);
+        if self.fcr & FcrMask::CLEAR_XMIT as u8 != 0 {
+            self.fcr &= !(FcrMask::CLEAR_XMIT as u8);
             self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
         }
 
-- 
2.43.0


From f1036fb7ce4962f038ad79fbbf432172a37d9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 25/90] fix: a pending UART interrupt does not stop reception

---
 src/bus/uart.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 43d4156..a1cf410 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -229,8 +229,7 @@ impl Uart {
     }
 
     pub fn tick(&mut self, plic: &mut Plic) {
-        if (self.uart[UartRegister::IIR_FCR as usize] & FcrMask::ENABLE_FIFO as u8 == 0)
-            || (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
+        if (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
             || (UART_QUEUE_SIZE <= self.rx_queue.len())
         {
             return;
-- 
2.43.0


From e64cacf9f127139bc720c4c0fc4d65f225c50d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 26/90] fix: UART line and modem status registers are read-only

---
 src/bus/uart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index a1cf410..0e1fa0d 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -188,6 +188,8 @@ impl Uart {
         const FCR: usize = UartRegister::IIR_FCR as usize;
         const LCR: usize = UartRegister::LCR as usize;
         const MCR: usize = UartRegister::MCR as usize;
+        const LSR: usize = UartRegister::LSR as usize;
+        const MSR: usize = UartRegister::MSR as usize;
         let index = self.addr2index(addr);
 
         match index {
@@ -217,6 +219,7 @@ impl Uart {
                 }
             }
             FCR => self.fcr = data as u8,
+            LSR | MSR => (), // read only
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
-- 
2.43.0


From a3616aacea98fdbd39e91b978179ae7e07c6da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 27/90] fix: UART IIR identifies the highest-priority pending
 interrupt

---
 src/bus/uart/io.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 05305ba..6dc59a4 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -34,7 +34,12 @@ impl Uart {
             self.uart[UartRegister::IIR_FCR as usize] = IirMask::NO_INT as u8;
             plic.set_interrupt_level(UART_INTERRUPT_ID, 0);
         } else {
-            self.uart[UartRegister::IIR_FCR as usize] = interrupts;
+            // report the one of highest priority
+            self.uart[UartRegister::IIR_FCR as usize] = if interrupts & IirMask::RDI as u8 != 0 {
+                IirMask::RDI as u8
+            } else {
+                interrupts
+            };
             plic.set_interrupt_level(UART_INTERRUPT_ID, 1);
         }
 
-- 
2.43.0


From 2b1b4acbddf65e49dfa9045ff34e00731836ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 28/90] fix: a page-table entry outside of memory raises an
 access fault instead of a panic

---
 src/cpu/mmu.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 222b1a1..303e767 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -78,6 +78,14 @@ impl Mmu {
         }
     }
 
+    fn access_fault(&self, purpose: TransFor) -> TrapCause {
+        match purpose {
+            TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+            TransFor::Load => TrapCause::LoadAccessFault,
+            TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
+        }
+    }
+
     fn check_leaf_pte(
         &self,
         purpose: TransFor,
@@ -186,6 +194,10 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
+                        if !dram.in_range(pte_addr) {
+                            log::debugln!("pte is outside of memory: {:x}", pte_addr);
+                            return Err(self.access_fault(purpose));
+                        }
                         let pte =
                             match *self.isa {
                                 Isa::Rv32 => self
-- 
2.43.0


From b1a94a3fe0b5706d60b01f0fbd5d5d36e892a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 29/90] fix: non-canonical Sv39 addresses raise a page fault

---
 src/cpu/mmu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 303e767..046b9f3 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -174,6 +174,13 @@ impl Mmu {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
                 AddrTransMode::Bare => Ok(addr),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
+                    // bits 63-39 must all be equal to bit 38 in Sv39
+                    if matches!(*self.isa, Isa::Rv64) && ((addr << 25) as i64 >> 25) as u64 != addr
+                    {
+                        log::debugln!("non-canonical address: {:x}", addr);
+                        return Err(self.trap_cause(purpose));
+                    }
+
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
                     let vpn = match *self.isa {
-- 
2.43.0


From b767a51953114db75831d70466561d0fe9027610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 30/90] fix: S-mode may not fetch from user pages

---
 src/cpu/mmu.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 046b9f3..6c7694b 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -117,6 +117,12 @@ impl Mmu {
         // check the PTE field according to translate purpose
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
+                // S-mode never executes from user pages, whatever SUM is
+                if pte_u == 1 && priv_lv == PrivilegedLevel::Supervisor {
+                    log::debugln!("invalid pte_u: {:x}", pte);
+                    return Err(self.trap_cause(purpose));
+                }
+
                 if pte_x == 0 {
                     log::debugln!("invalid pte_x: {:x}", pte);
                     return Err(TrapCause::InstPageFault);
-- 
2.43.0


From 87dd511c22ba51d0cb3655f51e7132144e85a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 31/90] fix: Sv32 physical addresses keep all 34 bits

---
 src/cpu.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 4743b3a..e4dca42 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -161,9 +161,9 @@ impl Cpu {
             .mmu
             .trans_addr(purpose, addr, &self.csrs, &mut self.bus.dram, trans_priv)
         {
-            Ok(vaddr) => {
+            Ok(paddr) => {
                 if addr % align as u64 == 0 {
-                    Ok(vaddr.fix2regsz(&self.isa))
+                    Ok(paddr)
                 } else {
                     let cause = match purpose {
                         TransFor::Fetch | TransFor::Deleg => TrapCause::InstAddrMisaligned,
-- 
2.43.0


From eafc87d0547b92c64aa634d9310833145d1f200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 32/90] fix: PMP configuration bytes are found where the
 specification puts them, for all 16 entries

---
 src/cpu/mmu/pmp.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index c91331b..14fbdec 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,7 +1,7 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::log;
+use crate::{log, Isa};
 
 impl Mmu {
     fn check_pmp(
@@ -44,11 +44,14 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
+        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
-            let cfgnum = pmpnum / 4;
-            let cfgoff = pmpnum % 4;
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (4 * cfgoff)
+            // rv32: pmpcfg0-3 hold 4 entries each, rv64: pmpcfg0,2 hold 8 entries each
+            let (cfgnum, cfgoff) = match *self.isa {
+                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
+            };
+            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff) & 0xFF
         };
 
         for index in 0..pmpaddrs.len() {
-- 
2.43.0


From 58b0b3946bb2e60f1f9f885884a089305e2ee33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 33/90] fix: PMP violations raise access faults, not page
 faults

---
 src/cpu/mmu/pmp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 14fbdec..0928676 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -17,19 +17,19 @@ impl Mmu {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
                     log::debugln!("invalid pmp_x: {:x}", pmpcfg);
-                    return Err(TrapCause::InstPageFault);
+                    return Err(TrapCause::InstAccessFault);
                 }
             }
             TransFor::Load => {
                 if pmp_r != 1 {
                     log::debugln!("invalid pmp_r: {:x}", pmpcfg);
-                    return Err(TrapCause::LoadPageFault);
+                    return Err(TrapCause::LoadAccessFault);
                 }
             }
             TransFor::StoreAMO => {
                 if pmp_w != 1 {
                     log::debugln!("invalid pmp_w: {:x}", pmpcfg);
-                    return Err(TrapCause::StoreAMOPageFault);
+                    return Err(TrapCause::StoreAMOAccessFault);
                 }
             }
         }
@@ -104,9 +104,9 @@ impl Mmu {
             Ok(addr)
         } else {
             Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstPageFault,
-                TransFor::Load => TrapCause::LoadPageFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOPageFault,
+                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+                TransFor::Load => TrapCause::LoadAccessFault,
+                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
             })
         }
     }
-- 
2.43.0


From 9b58b483f6d0843b470ad61d92d9d22828685c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 34/90] fix: a PMP entry that is off does not grant access to
 everything

---
 src/cpu/mmu/pmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 0928676..3db47da 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -62,7 +62,7 @@ impl Mmu {
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
             match pmp_a {
-                0b00 => return Ok(addr),
+                0b00 => (), // OFF
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
-- 
2.43.0


From af5ce80260e7269a5a77848ffe24521517594cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 35/90] fix: PMP entries restrict M-mode only when they are
 locked

---
 src/cpu/mmu/pmp.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 3db47da..41bd5ec 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -8,11 +8,19 @@ impl Mmu {
         &self,
         purpose: TransFor,
         addr: u64,
+        priv_lv: PrivilegedLevel,
         pmpcfg: u64,
-        pmp_r: u64,
-        pmp_w: u64,
-        pmp_x: u64,
     ) -> Result<u64, TrapCause> {
+        let pmp_r = pmpcfg & 0x1;
+        let pmp_w = pmpcfg >> 1 & 0x1;
+        let pmp_x = pmpcfg >> 2 & 0x1;
+        let pmp_l = pmpcfg >> 7 & 0x1;
+
+        // only locked entries restrict M-mode
+        if priv_lv == PrivilegedLevel::Machine && pmp_l == 0 {
+            return Ok(addr);
+        }
+
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
@@ -57,9 +65,6 @@ impl Mmu {
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
             let pmpcfg = get_pmpcfg(index);
-            let pmp_r = pmpcfg & 0x1;
-            let pmp_w = pmpcfg >> 1 & 0x1;
-            let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
             match pmp_a {
                 0b00 => (), // OFF
@@ -71,14 +76,14 @@ impl Mmu {
                             && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
                             && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
                     {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
                     }
                 }
                 0b10 => {
                     // NA4
                     let addr_aligned = addr >> 2; // addr[:2]
                     if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
                     }
                 }
                 0b11 => {
@@ -93,7 +98,7 @@ impl Mmu {
                     addr_aligned >>= 1;
 
                     if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
                     }
                 }
                 _ => panic!("pmp_a does not matched"),
-- 
2.43.0


From c4d384a4a9a30c94fde708ad4bd1637a56d42253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 36/90] fix: PMP also applies to S- and U-mode accesses in Bare
 mode

---
 src/cpu/mmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 6c7694b..ffa5c7c 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -178,7 +178,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => Ok(addr),
+                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     // bits 63-39 must all be equal to bit 38 in Sv39
                     if matches!(*self.isa, Isa::Rv64) && ((addr << 25) as i64 >> 25) as u64 != addr
-- 
2.43.0


From 502c36ffe8fbd093976d2186d5d3a979ef6bad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 37/90] fix: a PMP entry must match every byte of an access

---
 src/cpu.rs         | 23 +++++++++++---
 src/cpu/mmu.rs     |  7 ++--
 src/cpu/mmu/pmp.rs | 79 ++++++++++++++++++++++------------------------
 3 files changed, 59 insertions(+), 50 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index e4dca42..43baba7 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -157,12 +157,25 @@ impl Cpu {
             }
         }
 
-        match self
-            .mmu
-            .trans_addr(purpose, addr, &self.csrs, &mut self.bus.dram, trans_priv)
-        {
+        // fetches are made of 16-bit parcels
+        let size = match purpose {
+            TransFor::Fetch | TransFor::Deleg => 2,
+            TransFor::Load | TransFor::StoreAMO => align as u64,
+        };
+        match self.mmu.trans_addr(
+            purpose,
+            addr,
+            size,
+            &self.csrs,
+            &mut self.bus.dram,
+            trans_priv,
+        ) {
             Ok(paddr) => {
-                if addr % align as u64 == 0 {
+                let aligned = match purpose {
+                    TransFor::Fetch | TransFor::Deleg => true,
+                    TransFor::Load | TransFor::StoreAMO => addr % size == 0,
+                };
+                if aligned {
                     Ok(paddr)
                 } else {
                     let cause = match purpose {
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index ffa5c7c..b5e8dc2 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -167,6 +167,7 @@ impl Mmu {
         &mut self,
         purpose: TransFor,
         addr: u64,
+        size: u64,
         csrs: &CSRs,
         dram: &mut Dram,
         priv_lv: PrivilegedLevel,
@@ -178,7 +179,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
+                AddrTransMode::Bare => self.pmp(purpose, addr, size, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     // bits 63-39 must all be equal to bit 38 in Sv39
                     if matches!(*self.isa, Isa::Rv64) && ((addr << 25) as i64 >> 25) as u64 != addr
@@ -279,11 +280,11 @@ impl Mmu {
                         paddr,
                     );
 
-                    self.pmp(purpose, paddr, priv_lv, csrs)
+                    self.pmp(purpose, paddr, size, priv_lv, csrs)
                 }
             },
             // return raw address if privileged level is Machine
-            _ => self.pmp(purpose, addr, priv_lv, csrs),
+            _ => self.pmp(purpose, addr, size, priv_lv, csrs),
         }
     }
 }
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 41bd5ec..2cd2ebf 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -49,70 +49,65 @@ impl Mmu {
         &self,
         purpose: TransFor,
         addr: u64,
+        size: u64,
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
-        let get_pmpcfg = |pmpnum| {
+        let get_pmpaddr = |pmpnum: usize| csrs.read(Some(0x3B0 + pmpnum)).unwrap() as u128;
+        let get_pmpcfg = |pmpnum: usize| {
             // rv32: pmpcfg0-3 hold 4 entries each, rv64: pmpcfg0,2 hold 8 entries each
             let (cfgnum, cfgoff) = match *self.isa {
                 Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
                 Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
             };
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff) & 0xFF
+            (csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)) & 0xFF
         };
 
-        for index in 0..pmpaddrs.len() {
-            // pmpaddr0 ~ pmpaddr15
+        // the accessed bytes
+        let first = addr as u128;
+        let last = first + size as u128 - 1;
+
+        // pmpaddr0 ~ pmpaddr15
+        for index in 0..16 {
             let pmpcfg = get_pmpcfg(index);
-            let pmp_a = pmpcfg >> 3 & 0x3;
-            match pmp_a {
-                0b00 => (), // OFF
+
+            // region: start <= byte address < end
+            let (start, end) = match (pmpcfg >> 3) & 0x3 {
+                // OFF
+                0b00 => continue,
+                // TOR
                 0b01 => {
-                    // TOR
-                    let addr_aligned = addr >> 2; // addr[:2]
-                    if (index == 0 && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
-                        || (index != 0
-                            && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
-                            && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
-                    {
-                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
-                    }
+                    let start = match index {
+                        0 => 0,
+                        _ => get_pmpaddr(index - 1) << 2,
+                    };
+                    (start, get_pmpaddr(index) << 2)
                 }
-                0b10 => {
-                    // NA4
-                    let addr_aligned = addr >> 2; // addr[:2]
-                    if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
-                    }
+                // NA4
+                0b10 => (get_pmpaddr(index) << 2, (get_pmpaddr(index) << 2) + 4),
+                // NAPOT
+                _ => {
+                    let pmpaddr = get_pmpaddr(index);
+                    let ones = pmpaddr.trailing_ones();
+                    let start = pmpaddr >> ones << ones << 2;
+                    (start, start + (8 << ones))
                 }
-                0b11 => {
-                    // NAPOT
-                    let mut addr_aligned = addr >> 2; // addr[:2]
-                    let mut pmpaddr = csrs.read(Some(pmpaddrs[index])).unwrap();
-                    while pmpaddr & 0x1 == 1 {
-                        pmpaddr >>= 1;
-                        addr_aligned >>= 1;
-                    }
-                    pmpaddr >>= 1;
-                    addr_aligned >>= 1;
+            };
 
-                    if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
-                    }
+            // the first entry that matches any byte decides, and it has to match all bytes
+            if start < end && start <= last && first < end {
+                if start <= first && last < end {
+                    return self.check_pmp(purpose, addr, priv_lv, pmpcfg);
                 }
-                _ => panic!("pmp_a does not matched"),
+                log::debugln!("partial match with pmp entry {}: {:x}", index, addr);
+                return Err(self.access_fault(purpose));
             }
         }
 
         if priv_lv == PrivilegedLevel::Machine {
             Ok(addr)
         } else {
-            Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
-                TransFor::Load => TrapCause::LoadAccessFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
-            })
+            Err(self.access_fault(purpose))
         }
     }
 }
-- 
2.43.0


From a3873a9c5f6c68171f583c85aa5b971ac57dec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 38/90] fix: page-table reads are subject to PMP

---
 src/cpu/mmu.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index b5e8dc2..ba90293 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -212,6 +212,15 @@ impl Mmu {
                             log::debugln!("pte is outside of memory: {:x}", pte_addr);
                             return Err(self.access_fault(purpose));
                         }
+                        // the page-table walk itself is subject to PMP, as a S-mode load
+                        self.pmp(
+                            TransFor::Load,
+                            pte_addr,
+                            pte_size,
+                            PrivilegedLevel::Supervisor,
+                            csrs,
+                        )
+                        .map_err(|_| self.access_fault(purpose))?;
                         let pte =
                             match *self.isa {
                                 Isa::Rv32 => self
-- 
2.43.0


From 2cbf9591deeadce5f0f5fd46bf4c24ce6d4269f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 39/90] fix: access faults report the virtual address

---
 src/cpu.rs       |  5 ++++
 src/cpu/fetch.rs | 59 ++++++++++++++++++++----------------------------
 src/cpu/mmu.rs   |  2 ++
 3 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 43baba7..abf1e22 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -125,6 +125,10 @@ impl Cpu {
             .map_err(|(tval, cause, msg)| match cause {
                 // the trap value is the faulting instruction itself
                 TrapCause::IllegalInst => (Some(inst_word.bits()), cause, msg),
+                // the bus only knows the physical address
+                TrapCause::LoadAccessFault | TrapCause::StoreAMOAccessFault => {
+                    (Some(self.mmu.last_vaddr), cause, msg)
+                }
                 _ => (tval, cause, msg),
             })
     }
@@ -136,6 +140,7 @@ impl Cpu {
         addr: u64,
     ) -> Result<u64, (Option<u64>, TrapCause, String)> {
         let addr = addr.fix2regsz(&self.isa);
+        self.mmu.last_vaddr = addr;
         self.check_breakpoint(purpose, addr)?;
 
         let mut trans_priv = self.priv_lv();
diff --git a/src/cpu/fetch.rs b/src/cpu/fetch.rs
index f2a291c..79c873d 100644
--- a/src/cpu/fetch.rs
+++ b/src/cpu/fetch.rs
@@ -1,42 +1,33 @@
 use super::decode::Decode;
 use super::{TransAlign, TransFor, TrapCause};
-use crate::cpu::Cpu;
+use crate::cpu::{Cpu, CrossIsaUtil};
 use crate::{log, Isa};
 
+// read a 16-bit parcel of the instruction
+fn fetch_parcel(cpu: &mut Cpu, vaddr: u64) -> Result<u16, (Option<u64>, TrapCause, String)> {
+    let paddr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, vaddr)?;
+    match cpu.bus.load_u16(paddr) {
+        Ok(parcel) => Ok(parcel as u16),
+        Err((_, _, msg)) => Err((
+            Some(vaddr.fix2regsz(&cpu.isa)),
+            TrapCause::InstAccessFault,
+            msg,
+        )),
+    }
+}
+
 pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause, String)> {
-    let index_pc: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let is_cinst: bool = match cpu.bus.load_u16(index_pc) {
-        Ok(inst) => inst & 0x3 != 0x3,
-        Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+    let inst_lower = fetch_parcel(cpu, cpu.pc())?;
+    let inst: Box<dyn Decode> = if inst_lower & 0x3 != 0x3 {
+        Box::new(inst_lower)
+    } else {
+        let inst_upper = fetch_parcel(cpu, cpu.pc().wrapping_add(2))?;
+        Box::new((inst_upper as u32) << 16 | inst_lower as u32)
     };
 
-    if is_cinst {
-        match *cpu.isa {
-            Isa::Rv32 => log::infoln!("pc: 0x{:08x}", cpu.pc()),
-            Isa::Rv64 => {
-                log::infoln!("pc: 0x{:016x}", cpu.pc());
-            }
-        };
-        match cpu.bus.load_u16(index_pc) {
-            Ok(new_inst) => Ok(Box::new(new_inst as u16)),
-            Err((inst, _, msg)) => Err((inst, TrapCause::InstAccessFault, msg)),
-        }
-    } else {
-        let index_pc2: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc() + 2)?;
-        let inst_upper: u32 = match cpu.bus.load_u16(index_pc2) {
-            Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
-        };
-        let inst_lower: u32 = match cpu.bus.load_u16(index_pc) {
-            Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
-        };
-        match *cpu.isa {
-            Isa::Rv32 => log::infoln!("pc: 0x{:08x}", cpu.pc()),
-            Isa::Rv64 => {
-                log::infoln!("pc: 0x{:016x}", cpu.pc());
-            }
-        };
-        Ok(Box::new(inst_upper << 16 | inst_lower))
-    }
+    match *cpu.isa {
+        Isa::Rv32 => log::infoln!("pc: 0x{:08x}", cpu.pc()),
+        Isa::Rv64 => log::infoln!("pc: 0x{:016x}", cpu.pc()),
+    };
+    Ok(inst)
 }
diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index ba90293..6cb80fe 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -16,6 +16,7 @@ pub enum AddrTransMode {
 pub struct Mmu {
     ppn: u64,
     trans_mode: AddrTransMode,
+    pub last_vaddr: u64, // virtual address of the latest access
     isa: Rc<Isa>,
 }
 
@@ -24,6 +25,7 @@ impl Mmu {
         Mmu {
             ppn: 0,
             trans_mode: AddrTransMode::Bare,
+            last_vaddr: 0,
             isa,
         }
     }
-- 
2.43.0


From 309de87ee172d5717999c4a36d0817ce8e6ea0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 40/90] fix: a faulting AMO leaves rd unchanged and raises a
 store/AMO fault

---
 src/cpu/execution/inst_32/a_extension.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 348c87d..e0082e4 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -1,6 +1,11 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TransAlign, TransFor, TrapCause};
 
+// both halves of an AMO raise store/AMO exceptions
+fn amo_fault((addr, _, msg): (Option<u64>, TrapCause, String)) -> (Option<u64>, TrapCause, String) {
+    (addr, TrapCause::StoreAMOAccessFault, msg)
+}
+
 fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
     operation: F,
     inst: &Instruction,
@@ -11,11 +16,11 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
         TransAlign::Size32,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load32(amo_addr)?;
+    let loaded_data = cpu.bus.load32(amo_addr).map_err(amo_fault)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
@@ -30,11 +35,11 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
         TransAlign::Size64,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load64(amo_addr)?;
+    let loaded_data = cpu.bus.load64(amo_addr).map_err(amo_fault)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
-- 
2.43.0


From 48d744635212417dc123744978f0b535b8a2dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 41/90] fix: a failed store-conditional invalidates the
 reservation

---
 src/cpu/execution/inst_32/a_extension.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index e0082e4..f079ebf 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -69,6 +69,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                // a failed SC also invalidates the reservation
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
@@ -138,6 +140,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                // a failed SC also invalidates the reservation
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
-- 
2.43.0


From cbf8a3de5d42aa28a45404836694982e80d44fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 42/90] fix: CSRRS and CSRRC legalise values and update
 triggers like CSRRW

---
 src/cpu/csr.rs | 50 ++++++++------------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index a77c9d8..344f446 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -72,43 +72,17 @@ impl CSRs {
         }
     }
 
-    fn mask_warl(&mut self, dst: usize, mask: u64) -> u64 {
-        match dst {
-            MISA => {
-                if *self.pc.borrow() % 4 != 0 {
-                    mask & !0b100 // clear C extension flag
-                } else {
-                    mask
-                }
-            }
-            MSTATUS => match *self.isa {
-                Isa::Rv32 => mask,
-                Isa::Rv64 => mask & !(0b1111 << 32),
-            },
-            MHPMCOUNTER3 => 0,
-            _ => mask,
-        }
-    }
-
     pub fn bitset(
         &mut self,
         dist: Option<usize>,
         src: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        let dist = dist.unwrap();
-
-        let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
-        if mask != 0 {
-            match dist {
-                USTATUS => self.csrs[MSTATUS] |= mask & self.umask(),
-                SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
-                SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
-                SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
-                _ => self.csrs[dist] |= mask,
-            }
+        let mask = src.fix2regsz(&self.isa);
+        if mask == 0 {
+            return Ok(());
         }
 
-        Ok(())
+        self.write(dist, self.read(dist)? | mask)
     }
 
     pub fn bitclr(
@@ -116,20 +90,12 @@ impl CSRs {
         dist: Option<usize>,
         src: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        let dist = dist.unwrap();
-
-        let mask = self.mask_warl(dist, src.fix2regsz(&self.isa));
-        if mask != 0 {
-            match dist {
-                USTATUS => self.csrs[MSTATUS] &= !(mask & self.umask()),
-                SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
-                SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
-                SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
-                _ => self.csrs[dist] &= !mask,
-            }
+        let mask = src.fix2regsz(&self.isa);
+        if mask == 0 {
+            return Ok(());
         }
 
-        Ok(())
+        self.write(dist, self.read(dist)? & !mask)
     }
 
     pub fn write(
-- 
2.43.0


From cc145a543aa06718d7b5a85ec767fd6bffff6f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 43/90] fix: a misa write that may not change C keeps bit 2

---
 src/cpu/csr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 344f446..15d4f44 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -113,7 +113,7 @@ impl CSRs {
             SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
-                    let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
+                    let c_ext_bit = self.csrs[MISA] & 0b100;
                     self.csrs[MISA] = (src & !0b100) | c_ext_bit
                 } else {
                     self.csrs[MISA] = src
-- 
2.43.0


From 782b94d97c23ebf5cf03e161fa7ae236bab35292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 44/90] fix: sstatus and ustatus are exact views of the fields
 they share with mstatus

---
 src/cpu/csr.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 15d4f44..0acd78b 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -51,24 +51,26 @@ impl CSRs {
         self
     }
 
+    // UIE, UPIE
     fn umask(&self) -> u64 {
-        match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
-        }
+        1 << 0 | 1 << 4
     }
 
+    // UIE, SIE, UPIE, SPIE, SPP, FS, XS, SUM, MXR, (UXL,) SD
     fn smask(&self) -> u64 {
+        let common = 0b0000_1101_1110_0001_0011_0011;
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => common | 1 << 31,
+            Isa::Rv64 => common | 0b11 << 32 | 1 << 63,
         }
     }
 
+    // the above and MIE, MPIE, MPP, MPRV, TVM, TW, TSR, (SXL)
     fn mmask(&self) -> u64 {
+        let common = 0b0111_1111_1111_1001_1011_1011;
         match *self.isa {
-            Isa::Rv32 => 0b10000000011111111111100110111011,
-            Isa::Rv64 => 0b100000000000000000000000000111100000000011111111111100110111011,
+            Isa::Rv32 => common | 1 << 31,
+            Isa::Rv64 => common | 0b1111 << 32 | 1 << 63,
         }
     }
 
@@ -107,8 +109,8 @@ impl CSRs {
 
         let src = src.fix2regsz(&self.isa);
         match dist {
-            USTATUS => self.csrs[MSTATUS] |= src & self.umask(),
-            SSTATUS => self.csrs[MSTATUS] |= src & self.smask(),
+            USTATUS => return self.write_view(MSTATUS, src, self.umask()),
+            SSTATUS => return self.write_view(MSTATUS, src, self.smask()),
             SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
             SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
             MISA => {
@@ -131,6 +133,16 @@ impl CSRs {
         Ok(())
     }
 
+    // write the bits of mask through a less privileged view of dist
+    fn write_view(
+        &mut self,
+        dist: usize,
+        src: u64,
+        mask: u64,
+    ) -> Result<(), (Option<u64>, TrapCause, String)> {
+        self.write(Some(dist), self.csrs[dist] & !mask | src & mask)
+    }
+
     fn read_xepc(&self, dist: usize) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.csrs[CSRname::misa as usize] >> 2 & 0x1 == 1 {
             // C extension enabled (IALIGN = 16)
-- 
2.43.0


From 5ae5d53c3d20613e74b304bb7975c40089a785b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 45/90] fix: sie and sip only access the delegated bits of mie
 and mip

---
 src/cpu/csr.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 0acd78b..9b4e199 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -13,6 +13,7 @@ const MSTATUS: usize = CSRname::mstatus as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
+const SIP_WRITABLE_MASK: u64 = 0x0103; // USIP, SSIP, UEIP
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -51,6 +52,11 @@ impl CSRs {
         self
     }
 
+    // the interrupts delegated to S-mode are visible in sie and sip
+    fn siemask(&self) -> u64 {
+        self.csrs[CSRname::mideleg as usize] & SIESIPMASK
+    }
+
     // UIE, UPIE
     fn umask(&self) -> u64 {
         1 << 0 | 1 << 4
@@ -111,8 +117,14 @@ impl CSRs {
         match dist {
             USTATUS => return self.write_view(MSTATUS, src, self.umask()),
             SSTATUS => return self.write_view(MSTATUS, src, self.smask()),
-            SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
-            SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
+            SIE => return self.write_view(CSRname::mie as usize, src, self.siemask()),
+            SIP => {
+                return self.write_view(
+                    CSRname::mip as usize,
+                    src,
+                    self.siemask() & SIP_WRITABLE_MASK,
+                )
+            }
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = self.csrs[MISA] & 0b100;
@@ -159,8 +171,8 @@ impl CSRs {
         match dist {
             0x000 => Ok(self.csrs[0x300].fix2regsz(&self.isa) & self.umask()),
             0x100 => Ok(self.csrs[0x300].fix2regsz(&self.isa) & self.smask()),
-            SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & SIESIPMASK),
-            SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & SIESIPMASK),
+            SIE => Ok(self.csrs[CSRname::mie as usize].fix2regsz(&self.isa) & self.siemask()),
+            SIP => Ok(self.csrs[CSRname::mip as usize].fix2regsz(&self.isa) & self.siemask()),
             0x341 | 0x141 => self.read_xepc(dist),
             _ => Ok(self.csrs[dist].fix2regsz(&self.isa)),
         }
-- 
2.43.0


From 06d94e7969c6d3df13291359cbd280ef8a827d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 46/90] fix: mstatus.MPP never holds the reserved privilege
 level

---
 src/cpu/csr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 9b4e199..161cbeb 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -133,10 +133,18 @@ impl CSRs {
                     self.csrs[MISA] = src
                 }
             }
-            MSTATUS => match *self.isa {
-                Isa::Rv32 => self.csrs[dist] = src,
-                Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
-            },
+            MSTATUS => {
+                let src = if src >> 11 & 0b11 == 0b10 {
+                    // reserved privilege level: MPP keeps its value
+                    src & !(0b11 << 11) | self.csrs[dist] & 0b11 << 11
+                } else {
+                    src
+                };
+                match *self.isa {
+                    Isa::Rv32 => self.csrs[dist] = src,
+                    Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
+                }
+            }
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
-- 
2.43.0


From 5702151e7b7e57fa99618813bac6a3b4d4de519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 47/90] fix: satp writes with an unsupported mode are ignored

---
 src/cpu/csr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 161cbeb..204ecb2 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -10,6 +10,7 @@ const MISA: usize = CSRname::misa as usize;
 const USTATUS: usize = CSRname::ustatus as usize;
 const SSTATUS: usize = CSRname::sstatus as usize;
 const MSTATUS: usize = CSRname::mstatus as usize;
+const SATP: usize = CSRname::satp as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
 const SIESIPMASK: u64 = 0x0333;
@@ -145,6 +146,10 @@ impl CSRs {
                     Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
                 }
             }
+            SATP => match (*self.isa, src >> 60) {
+                (Isa::Rv32, _) | (Isa::Rv64, 0 | 8) => self.csrs[dist] = src,
+                _ => (), // unsupported mode: the write has no effect
+            },
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
-- 
2.43.0


From c416d52ddf9366d147d6aaac79ba348704e9594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 48/90] fix: MSIP, MTIP and MEIP of mip ignore CSR writes

---
 src/cpu/csr.rs  |  8 ++++++++
 src/cpu/trap.rs | 31 +++++++++++--------------------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 204ecb2..61950b8 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -13,6 +13,8 @@ const MSTATUS: usize = CSRname::mstatus as usize;
 const SATP: usize = CSRname::satp as usize;
 const SIE: usize = CSRname::sie as usize;
 const SIP: usize = CSRname::sip as usize;
+const MIP: usize = CSRname::mip as usize;
+const MIP_READONLY_MASK: u64 = 0x0888; // MSIP, MTIP, MEIP
 const SIESIPMASK: u64 = 0x0333;
 const SIP_WRITABLE_MASK: u64 = 0x0103; // USIP, SSIP, UEIP
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
@@ -150,6 +152,7 @@ impl CSRs {
                 (Isa::Rv32, _) | (Isa::Rv64, 0 | 8) => self.csrs[dist] = src,
                 _ => (), // unsupported mode: the write has no effect
             },
+            MIP => self.csrs[dist] = src & !MIP_READONLY_MASK | self.csrs[dist] & MIP_READONLY_MASK,
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
@@ -233,6 +236,11 @@ impl CSRs {
         .fix2regsz(&self.isa)
     }
 
+    // interrupt-pending bits driven by the hardware
+    pub fn set_pending(&mut self, mask: u64, value: u64) {
+        self.csrs[MIP] = self.csrs[MIP] & !mask | value & mask;
+    }
+
     pub fn write_xstatus(&mut self, priv_lv: PrivilegedLevel, xfield: Xstatus, data: u64) {
         let data = data.fix2regsz(&self.isa);
         let xstatus = CSRname::mstatus as usize;
diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7bb99b3..73e3b2f 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -15,23 +15,14 @@ impl Cpu {
         const MTIMECMP: u64 = 0x0200_4000;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
         let mtimecmp: u64 = self.bus.load64(MTIMECMP).unwrap();
-        if mtime >= mtimecmp {
-            self.csrs
-                .bitset(CSRname::mip.wrap(), 1 << MTIP | 1 << STIP)
-                .unwrap() // ignore result
+        let timer_pending = if mtime >= mtimecmp {
+            1 << MTIP | 1 << STIP
         } else {
-            self.csrs
-                .bitclr(CSRname::mip.wrap(), 1 << MTIP | 1 << STIP)
-                .unwrap()
+            0
         };
-
+        self.csrs.set_pending(1 << MTIP | 1 << STIP, timer_pending);
         self.csrs
-            .write(
-                CSRname::mip.wrap(),
-                self.csrs.read(CSRname::mip.wrap()).unwrap() & !(self.bus.plic.mip_mask)
-                    | self.bus.plic.mip_value,
-            )
-            .ok();
+            .set_pending(self.bus.plic.mip_mask, self.bus.plic.mip_value);
 
         let mip = self.csrs.read(CSRname::mip.wrap()).unwrap();
         let mie = self.csrs.read(CSRname::mie.wrap()).unwrap();
@@ -63,7 +54,7 @@ impl Cpu {
         let is_interrupt_enabled = |bit: u64| (enabled_interrupt_mask & (1 << bit)) != 0;
 
         if is_interrupt_enabled(MEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MEIP).unwrap();
+            self.csrs.set_pending(1 << MEIP, 0);
             self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
@@ -72,7 +63,7 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MSIP).unwrap();
+            self.csrs.set_pending(1 << MSIP, 0);
             return Err((
                 Some(0),
                 TrapCause::MachineSoftwareInterrupt,
@@ -81,7 +72,7 @@ impl Cpu {
         }
         if is_interrupt_enabled(MTIP) {
             // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MTIP).unwrap();
+            self.csrs.set_pending(1 << MTIP, 0);
             return Err((
                 Some(0),
                 TrapCause::MachineTimerInterrupt,
@@ -89,7 +80,7 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SEIP).unwrap();
+            self.csrs.set_pending(1 << SEIP, 0);
             self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
@@ -98,7 +89,7 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SSIP).unwrap();
+            self.csrs.set_pending(1 << SSIP, 0);
             return Err((
                 Some(0),
                 TrapCause::SupervisorSoftwareInterrupt,
@@ -107,7 +98,7 @@ impl Cpu {
         }
         if is_interrupt_enabled(STIP) {
             // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << STIP).unwrap();
+            self.csrs.set_pending(1 << STIP, 0);
             return Err((
                 Some(0),
                 TrapCause::SupervisorTimerInterrupt,
-- 
2.43.0


From eef4857e84ac4782a55037f30c38206dabbd455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 49/90] fix: taking an interrupt does not clear its pending bit

---
 src/cpu/trap.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 73e3b2f..56b2206 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -54,8 +54,6 @@ impl Cpu {
         let is_interrupt_enabled = |bit: u64| (enabled_interrupt_mask & (1 << bit)) != 0;
 
         if is_interrupt_enabled(MEIP) {
-            self.csrs.set_pending(1 << MEIP, 0);
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::MachineExternalInterrupt,
@@ -63,7 +61,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MSIP) {
-            self.csrs.set_pending(1 << MSIP, 0);
             return Err((
                 Some(0),
                 TrapCause::MachineSoftwareInterrupt,
@@ -71,8 +68,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MTIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.set_pending(1 << MTIP, 0);
             return Err((
                 Some(0),
                 TrapCause::MachineTimerInterrupt,
@@ -80,8 +75,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SEIP) {
-            self.csrs.set_pending(1 << SEIP, 0);
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::SupervisorExternalInterrupt,
@@ -89,7 +82,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SSIP) {
-            self.csrs.set_pending(1 << SSIP, 0);
             return Err((
                 Some(0),
                 TrapCause::SupervisorSoftwareInterrupt,
@@ -97,8 +89,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(STIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.set_pending(1 << STIP, 0);
             return Err((
                 Some(0),
                 TrapCause::SupervisorTimerInterrupt,
-- 
2.43.0


From a3d809bd65518b03ae926e12f65dfabeb390bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 50/90] fix: the CLINT msip register drives MSIP

---
 src/cpu/trap.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 56b2206..f94b482 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -11,6 +11,7 @@ impl Cpu {
         const SEIP: u64 = 9;
         const MEIP: u64 = 11;
 
+        const MSIP_REG: u64 = 0x0200_0000;
         const MTIME: u64 = 0x0200_BFF8;
         const MTIMECMP: u64 = 0x0200_4000;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
@@ -21,6 +22,8 @@ impl Cpu {
             0
         };
         self.csrs.set_pending(1 << MTIP | 1 << STIP, timer_pending);
+        let msip: u64 = self.bus.load32(MSIP_REG).unwrap();
+        self.csrs.set_pending(1 << MSIP, (msip & 1) << MSIP);
         self.csrs
             .set_pending(self.bus.plic.mip_mask, self.bus.plic.mip_value);
 
-- 
2.43.0


From 6065e31c58e079a6949e51c492e6cf21e32cd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 51/90] fix: the CLINT drives MTIP only, STIP belongs to
 software

---
 src/cpu/trap.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index f94b482..8c724a9 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -16,12 +16,8 @@ impl Cpu {
         const MTIMECMP: u64 = 0x0200_4000;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
         let mtimecmp: u64 = self.bus.load64(MTIMECMP).unwrap();
-        let timer_pending = if mtime >= mtimecmp {
-            1 << MTIP | 1 << STIP
-        } else {
-            0
-        };
-        self.csrs.set_pending(1 << MTIP | 1 << STIP, timer_pending);
+        let timer_pending = (mtime >= mtimecmp) as u64;
+        self.csrs.set_pending(1 << MTIP, timer_pending << MTIP);
         let msip: u64 = self.bus.load32(MSIP_REG).unwrap();
         self.csrs.set_pending(1 << MSIP, (msip & 1) << MSIP);
         self.csrs
-- 
2.43.0


From f32ac8809751b10b8edbbad7677f2cbfce3dde82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 52/90] fix: mip and mie bits of no interrupt do not mask
 S-mode interrupts

---
 src/cpu/trap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 8c724a9..9c96884 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -26,7 +26,9 @@ impl Cpu {
         let mip = self.csrs.read(CSRname::mip.wrap()).unwrap();
         let mie = self.csrs.read(CSRname::mie.wrap()).unwrap();
 
-        let pending_interrupts = mip & mie;
+        const INTERRUPTS: u64 =
+            1 << SSIP | 1 << MSIP | 1 << STIP | 1 << MTIP | 1 << SEIP | 1 << MEIP;
+        let pending_interrupts = mip & mie & INTERRUPTS;
         let mideleg = self.csrs.read(CSRname::mideleg.wrap()).unwrap();
         let mstatus_mie = self
             .csrs
-- 
2.43.0


From 5f82805a33d5fe19d3b51b3a6d3727d5e3bfc091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 53/90] fix: vectored traps go to base+4*cause for interrupts
 and to base otherwise

---
 src/cpu/trap.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 9c96884..3591383 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -127,6 +127,19 @@ impl Cpu {
         }
     }
 
+    // vectored mode only applies to interrupts
+    fn trap_vector(&self, xtvec: u64, cause_of_trap: TrapCause) -> u64 {
+        let cause = cause_of_trap as u64;
+        let is_interrupt = cause >> 31 & 1 == 1;
+        if xtvec & 0b1 == 0 {
+            xtvec
+        } else if is_interrupt {
+            (xtvec - 1).wrapping_add(4 * (cause & 0x7fff_ffff))
+        } else {
+            xtvec - 1
+        }
+    }
+
     pub fn trap(&mut self, tval_addr: u64, cause_of_trap: TrapCause) {
         let prev_priv = self.priv_lv();
 
@@ -136,7 +149,6 @@ impl Cpu {
             && (deleg & 1 << cause_of_trap as u32) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
-            let scause = self.csrs.read(CSRname::scause.wrap()).unwrap();
 
             log::infoln!("delegated");
             self.csrs
@@ -173,14 +185,9 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP, prev_priv as u64); // set prev_priv to SPP
 
             let stvec = self.csrs.read(CSRname::stvec.wrap()).unwrap();
-            if stvec & 0b1 == 1 {
-                (stvec - 1) + 4 * scause.trailing_zeros() as u64
-            } else {
-                stvec
-            }
+            self.trap_vector(stvec, cause_of_trap)
         } else {
             self.set_priv_lv(PrivilegedLevel::Machine);
-            let mcause = self.csrs.read(CSRname::mcause.wrap()).unwrap();
 
             self.csrs
                 .write(
@@ -216,11 +223,7 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Machine, Xstatus::MPP, prev_priv as u64); // set prev_priv to MPP
 
             let mtvec = self.csrs.read(CSRname::mtvec.wrap()).unwrap();
-            if mtvec & 0b1 == 1 {
-                (mtvec - 1) + 4 * mcause.trailing_zeros() as u64
-            } else {
-                mtvec
-            }
+            self.trap_vector(mtvec, cause_of_trap)
         };
 
         self.update_pc(new_pc);
-- 
2.43.0


From 189d444c484054896ebc41ce7e9809816d9e0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 54/90] fix: mstatus.TSR does not trap SRET in M-mode

---
 src/cpu/execution/inst_32/priv_extension.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index e16cf4b..280fbda 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -27,17 +27,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
-            if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
-                // mstatus.TSR == 1
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    "exec sret but mstatus.TSR == 1".to_string(),
-                ));
-            } else {
-                let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
-                cpu.update_pc(new_pc);
-            }
+            let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
+            cpu.update_pc(new_pc);
 
             // sstatus.SIE = sstatus.SPIE
             cpu.csrs.write_xstatus(
-- 
2.43.0


From 4245cac9d1fb497290eab3e505d6dd75769a98cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 55/90] fix: MRET below M-mode is an illegal instruction

---
 src/cpu/execution/inst_32/priv_extension.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 280fbda..4ce6363 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -54,6 +54,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
             return Ok(true);
         }
         OpecodeKind::OP_MRET => {
+            if cpu.priv_lv() != PrivilegedLevel::Machine {
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec mret below M-mode".to_string(),
+                ));
+            }
+
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::MPP);
-- 
2.43.0


From 8c61327ca2aa429e8d7dd508d454ba6a3b8d4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 56/90] fix: SFENCE.VMA in U-mode is an illegal instruction

---
 src/cpu/execution/inst_32/priv_extension.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 4ce6363..d48670b 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -92,6 +92,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<bool, (Option<u64>, Tra
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
+            if cpu.priv_lv() == PrivilegedLevel::User {
+                return Err((
+                    None,
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma in U-mode".to_string(),
+                ));
+            }
+
             if cpu.priv_lv() == PrivilegedLevel::Supervisor
                 && cpu
                     .csrs
-- 
2.43.0


From 79d3cde34d3855c98bef5aec32ad249189e35d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 57/90] fix: the privilege a CSR requires is encoded in its
 number

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 25 +++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 4f4008b..8de5c8b 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -10,16 +10,17 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // csr[9:8] is the lowest privilege level that can access the CSR
+    if (cpu.priv_lv() as usize) < (dist >> 8 & 0b11) {
+        return Err((
+            None,
+            TrapCause::IllegalInst,
+            format!("You are in {:?} mode but accessed {dist:x}", cpu.priv_lv()),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("You are in User mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
@@ -40,14 +41,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0x300..=0x344).contains(&dist) {
-                return Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("You are in Supervisor mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
-- 
2.43.0


From 87adf27bb3a62729100faad78ec6cffce3b0ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 58/90] fix: writing a read-only CSR is an illegal instruction

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 8de5c8b..cbb8361 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -160,6 +160,19 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     check_accessible(cpu, inst.rs2.unwrap())?;
 
+    // csr[11:10] == 0b11: read-only
+    let writes = match inst.opc {
+        OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI => true,
+        _ => inst.rs1 != Some(0),
+    };
+    if writes && inst.rs2.unwrap() >> 10 == 0b11 {
+        return Err((
+            None,
+            TrapCause::IllegalInst,
+            format!("write to a read-only CSR: {:x}", inst.rs2.unwrap()),
+        ));
+    }
+
     match inst.opc {
         OpecodeKind::OP_CSRRW => {
             let rs1 = cpu.regs.read(inst.rs1);
-- 
2.43.0


From 4c600d41b8c7af19a0974aad17c56baa0c2e1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 59/90] fix: counter enables also apply to the upper counter
 halves

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index cbb8361..67a34f8 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -21,9 +21,9 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0xc00..=0xc1f).contains(&dist) {
+            if (0xc00..=0xc1f).contains(&(dist & !0x80)) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
-                if mctren >> (dist - 0xc00) & 0x1 == 0 {
+                if mctren >> (dist & 0x1f) & 0x1 == 0 {
                     return Err((
                         None,
                         TrapCause::IllegalInst,
@@ -31,7 +31,7 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
                     ));
                 }
                 let sctren = cpu.csrs.read(CSRname::scounteren.wrap())?;
-                if sctren >> (dist - 0xc00) & 0x1 == 0 {
+                if sctren >> (dist & 0x1f) & 0x1 == 0 {
                     return Err((
                         None,
                         TrapCause::IllegalInst,
@@ -41,9 +41,9 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0xc00..=0xc1f).contains(&dist) {
+            if (0xc00..=0xc1f).contains(&(dist & !0x80)) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
-                if mctren >> (dist - 0xc00) & 0x1 == 0 {
+                if mctren >> (dist & 0x1f) & 0x1 == 0 {
                     return Err((
                         None,
                         TrapCause::IllegalInst,
-- 
2.43.0


From 95e2a7e0597372f1bd2acbb061ed0d8ae8e908f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 60/90] fix: tselect only holds numbers of existing triggers

---
 src/cpu/csr.rs            | 10 ++++++----
 src/cpu/csr/breakpoint.rs |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 61950b8..e5934b1 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -2,7 +2,7 @@ mod breakpoint;
 
 use super::{CrossIsaUtil, PrivilegedLevel, TrapCause};
 use crate::Isa;
-use breakpoint::Triggers;
+use breakpoint::{Triggers, TRIGGER_NUM};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -17,6 +17,7 @@ const MIP: usize = CSRname::mip as usize;
 const MIP_READONLY_MASK: u64 = 0x0888; // MSIP, MTIP, MEIP
 const SIESIPMASK: u64 = 0x0333;
 const SIP_WRITABLE_MASK: u64 = 0x0103; // USIP, SSIP, UEIP
+const TSELECT: usize = CSRname::tselect as usize;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
 pub struct CSRs {
@@ -33,8 +34,8 @@ impl CSRs {
             csrs: [0; 4096],
             triggers: Triggers {
                 tselect: 0,
-                tdata1: [0; 8],
-                tdata2: [0; 8],
+                tdata1: [0; TRIGGER_NUM],
+                tdata2: [0; TRIGGER_NUM],
             },
             pc,
             isa,
@@ -153,7 +154,8 @@ impl CSRs {
                 _ => (), // unsupported mode: the write has no effect
             },
             MIP => self.csrs[dist] = src & !MIP_READONLY_MASK | self.csrs[dist] & MIP_READONLY_MASK,
-            MHPMCOUNTER3 => (), // protect from any value
+            TSELECT if src as usize >= TRIGGER_NUM => return Ok(()), // no such trigger
+            MHPMCOUNTER3 => (),                                      // protect from any value
             other => self.csrs[other] = src,
         }
         self.update_triggers(dist, src);
diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index d2f3dff..6b87980 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -2,10 +2,12 @@ use crate::cpu::csr::{CSRname, CSRs};
 use crate::cpu::{Cpu, PrivilegedLevel, TransFor, TrapCause};
 use crate::Isa;
 
+pub const TRIGGER_NUM: usize = 8;
+
 pub struct Triggers {
     pub tselect: usize,
-    pub tdata1: [u64; 8],
-    pub tdata2: [u64; 8],
+    pub tdata1: [u64; TRIGGER_NUM],
+    pub tdata2: [u64; TRIGGER_NUM],
 }
 
 impl CSRs {
-- 
2.43.0


From 626811e64a8b5c3af34fb0de38b5c7acb0113b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 61/90] fix: every trigger slot is checked, whatever the others
 hold

---
 src/cpu/csr/breakpoint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 6b87980..490d296 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -39,7 +39,7 @@ impl Cpu {
         purpose: TransFor,
         addr: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        for trigger_num in 0..self.csrs.triggers.tselect + 1 {
+        for trigger_num in 0..TRIGGER_NUM {
             let tdata1 = self.csrs.triggers.tdata1[trigger_num];
             let trigger_type = match *self.isa {
                 Isa::Rv32 => tdata1 >> 28 & 0xF,
@@ -61,7 +61,7 @@ impl Cpu {
                         || self.priv_lv() == PrivilegedLevel::Supervisor && mode_s == 0x0
                         || self.priv_lv() == PrivilegedLevel::User && mode_u == 0x0
                     {
-                        return Ok(());
+                        continue;
                     }
 
                     if match_mode != 0x0 {
-- 
2.43.0


From 0b3f5b946da0782c22951eade5d8b0257b42b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 62/90] fix: unsupported trigger types and match modes never
 fire instead of panicking

---
 src/cpu/csr/breakpoint.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 490d296..01e9664 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -47,8 +47,6 @@ impl Cpu {
             };
 
             match trigger_type {
-                0x0 => (),
-                0x1 => panic!("SiFive address match trigger is not implemented."),
                 0x2 => {
                     let tdata2 = self.csrs.triggers.tdata2[trigger_num];
                     let match_mode = tdata1 >> 7 & 0xF;
@@ -65,7 +63,7 @@ impl Cpu {
                     }
 
                     if match_mode != 0x0 {
-                        panic!("this match mode is not supported");
+                        continue; // this match mode is not supported
                     }
 
                     match purpose {
@@ -101,10 +99,7 @@ impl Cpu {
                         }
                     }
                 }
-                0x3 => panic!("Instruction count trigger is not implemented."),
-                0x4 => panic!("Interrupt trigger is not implemented."),
-                0x5 => panic!("Exception trigger is not implemented."),
-                _ => panic!("this trigger is not supported: {trigger_type}"),
+                _ => (), // no trigger, or a type that is not supported
             }
         }
 
-- 
2.43.0


From 45f148120ce0d4d486cb77db4332f67d1c4b8ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 63/90] fix: execute triggers do not match the second half of
 an instruction

---
 src/cpu/csr/breakpoint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 01e9664..88082e3 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -69,7 +69,8 @@ impl Cpu {
                     match purpose {
                         TransFor::Fetch | TransFor::Deleg => {
                             let fetch_bit = tdata1 >> 2 & 0x1;
-                            if addr == tdata2 && fetch_bit == 1 {
+                            // the address of an instruction is that of its first parcel
+                            if addr == tdata2 && addr == self.pc() && fetch_bit == 1 {
                                 return Err((
                                     Some(addr),
                                     TrapCause::Breakpoint,
-- 
2.43.0


From fa924ee7eae95e8336d5c38a776b06167bc3243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 64/90] fix: the time CSR always equals mtime

---
 src/cpu.rs      | 3 ---
 src/cpu/csr.rs  | 9 +++++++--
 src/cpu/trap.rs | 1 +
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index abf1e22..86358aa 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -211,9 +211,6 @@ impl Cpu {
         const MTIME: u64 = 0x0200_BFF8;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
         self.bus.store64(MTIME, mtime + inc).unwrap();
-
-        // time(CSRs: 0xc01)
-        self.csrs.timer_increment(inc);
     }
 }
 
diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index e5934b1..44f98da 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -347,8 +347,12 @@ impl CSRs {
         }
     }
 
-    pub fn timer_increment(&mut self, inc: u64) {
-        self.csrs[CSRname::timer as usize] += inc;
+    // time(h) is a read-only shadow of mtime
+    pub fn set_time(&mut self, mtime: u64) {
+        self.csrs[CSRname::timer as usize] = mtime;
+        if let Isa::Rv32 = *self.isa {
+            self.csrs[CSRname::timerh as usize] = mtime >> 32;
+        }
     }
 }
 
@@ -394,6 +398,7 @@ pub enum CSRname {
     tdata5 = 0x7a5,
     mhpmcounter3 = 0xb03,
     timer = 0xc01,
+    timerh = 0xc81,
     marchid = 0xf12,
 }
 
diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 3591383..db4477f 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -15,6 +15,7 @@ impl Cpu {
         const MTIME: u64 = 0x0200_BFF8;
         const MTIMECMP: u64 = 0x0200_4000;
         let mtime: u64 = self.bus.load64(MTIME).unwrap();
+        self.csrs.set_time(mtime);
         let mtimecmp: u64 = self.bus.load64(MTIMECMP).unwrap();
         let timer_pending = (mtime >= mtimecmp) as u64;
         self.csrs.set_pending(1 << MTIP, timer_pending << MTIP);
-- 
2.43.0


From 8cf55498684a349f85c82225e90630512e29b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 65/90] fix: locked PMP entries cannot be modified

---
 src/cpu/csr.rs     | 31 +++++++++++++++++++++++++++++++
 src/cpu/mmu/pmp.rs | 12 ++----------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 44f98da..87ba0f6 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -17,6 +17,10 @@ const MIP: usize = CSRname::mip as usize;
 const MIP_READONLY_MASK: u64 = 0x0888; // MSIP, MTIP, MEIP
 const SIESIPMASK: u64 = 0x0333;
 const SIP_WRITABLE_MASK: u64 = 0x0103; // USIP, SSIP, UEIP
+const PMPCFG0: usize = 0x3a0;
+const PMPCFG3: usize = 0x3a3;
+const PMPADDR0: usize = 0x3b0;
+const PMPADDR15: usize = 0x3bf;
 const TSELECT: usize = CSRname::tselect as usize;
 const MHPMCOUNTER3: usize = CSRname::mhpmcounter3 as usize;
 
@@ -154,6 +158,24 @@ impl CSRs {
                 _ => (), // unsupported mode: the write has no effect
             },
             MIP => self.csrs[dist] = src & !MIP_READONLY_MASK | self.csrs[dist] & MIP_READONLY_MASK,
+            PMPCFG0..=PMPCFG3 => {
+                // locked entries keep their configuration
+                for entry in 0..8 {
+                    let byte = 0xff << (8 * entry);
+                    if self.csrs[dist] >> (8 * entry) & 0x80 == 0 {
+                        self.csrs[dist] = self.csrs[dist] & !byte | src & byte;
+                    }
+                }
+            }
+            PMPADDR0..=PMPADDR15 => {
+                let pmpnum = dist - PMPADDR0;
+                let top_locked = pmpnum < 15
+                    && self.pmpcfg(pmpnum + 1) & 0x80 != 0
+                    && self.pmpcfg(pmpnum + 1) >> 3 & 0x3 == 0b01; // TOR
+                if self.pmpcfg(pmpnum) & 0x80 == 0 && !top_locked {
+                    self.csrs[dist] = src;
+                }
+            }
             TSELECT if src as usize >= TRIGGER_NUM => return Ok(()), // no such trigger
             MHPMCOUNTER3 => (),                                      // protect from any value
             other => self.csrs[other] = src,
@@ -163,6 +185,15 @@ impl CSRs {
         Ok(())
     }
 
+    // rv32: pmpcfg0-3 hold 4 entries each, rv64: pmpcfg0,2 hold 8 entries each
+    pub fn pmpcfg(&self, pmpnum: usize) -> u64 {
+        let (cfgnum, cfgoff) = match *self.isa {
+            Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+            Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
+        };
+        self.csrs[PMPCFG0 + cfgnum] >> (8 * cfgoff) & 0xff
+    }
+
     // write the bits of mask through a less privileged view of dist
     fn write_view(
         &mut self,
diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 2cd2ebf..6e7e49e 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,7 +1,7 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::{log, Isa};
+use crate::log;
 
 impl Mmu {
     fn check_pmp(
@@ -54,14 +54,6 @@ impl Mmu {
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
         let get_pmpaddr = |pmpnum: usize| csrs.read(Some(0x3B0 + pmpnum)).unwrap() as u128;
-        let get_pmpcfg = |pmpnum: usize| {
-            // rv32: pmpcfg0-3 hold 4 entries each, rv64: pmpcfg0,2 hold 8 entries each
-            let (cfgnum, cfgoff) = match *self.isa {
-                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
-                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
-            };
-            (csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff)) & 0xFF
-        };
 
         // the accessed bytes
         let first = addr as u128;
@@ -69,7 +61,7 @@ impl Mmu {
 
         // pmpaddr0 ~ pmpaddr15
         for index in 0..16 {
-            let pmpcfg = get_pmpcfg(index);
+            let pmpcfg = csrs.pmpcfg(index);
 
             // region: start <= byte address < end
             let (start, end) = match (pmpcfg >> 3) & 0x3 {
-- 
2.43.0


From f8a942baed5242955e6eebca55d8e73bf2ffb789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 66/90] fix: pmpaddr registers hold 54 bits on RV64

---
 src/cpu/csr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 87ba0f6..78e7abb 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -173,7 +173,7 @@ impl CSRs {
                     && self.pmpcfg(pmpnum + 1) & 0x80 != 0
                     && self.pmpcfg(pmpnum + 1) >> 3 & 0x3 == 0b01; // TOR
                 if self.pmpcfg(pmpnum) & 0x80 == 0 && !top_locked {
-                    self.csrs[dist] = src;
+                    self.csrs[dist] = src & 0x3f_ffff_ffff_ffff; // address bits 55-2
                 }
             }
             TSELECT if src as usize >= TRIGGER_NUM => return Ok(()), // no such trigger
-- 
2.43.0


From 7dffbe1071085ff87ada72a3c101f4d7f857462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 67/90] fix: file names passed to the host are NUL-terminated
 byte strings

---
 src/fesvr/syscall.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index e225cfb..1a79e1e 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -3,6 +3,7 @@ use crate::fesvr::FrontendServer;
 use crate::log;
 use crate::Arguments;
 use libc::c_void;
+use std::ffi::CString;
 
 fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     let mut buf = Vec::new();
@@ -13,6 +14,15 @@ fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     buf
 }
 
+// a name of at most len bytes, its terminating NUL included
+fn memread_cstr(cpu: &mut Cpu, addr: u64, len: u64) -> CString {
+    let mut name = memread(cpu, addr, len);
+    if let Some(nul) = name.iter().position(|&c| c == 0) {
+        name.truncate(nul);
+    }
+    CString::new(name).unwrap()
+}
+
 fn memwrite(cpu: &mut Cpu, addr: u64, len: usize, data: Vec<u8>) {
     for off in 0..len as u64 {
         cpu.bus
@@ -40,15 +50,9 @@ impl FrontendServer {
         mode: u64,
     ) -> i64 {
         log::infoln!("sys_openat(56)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name: CString = memread_cstr(cpu, name_addr, len);
         let fd = sysret_errno(unsafe {
-            libc::openat(
-                dirfd as i32,
-                name.as_ptr() as *const i8,
-                flags as i32,
-                mode as i32,
-            ) as i64
+            libc::openat(dirfd as i32, name.as_ptr(), flags as i32, mode as i32) as i64
         });
 
         if fd < 0 {
@@ -151,14 +155,13 @@ impl FrontendServer {
         flags: u64,
     ) -> i64 {
         log::infoln!("sys_fstatat(79)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let name: CString = memread_cstr(cpu, name_addr, len);
         let (ret, rbuf) = unsafe {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
                 dirfd as i32,
-                name.as_ptr() as *const i8,
+                name.as_ptr(),
                 &mut buf as *mut libc::stat,
                 flags as i32,
             );
-- 
2.43.0


From 8cde7295ff674ef72bbce4de2981c7bd03d6679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 68/90] fix: directory descriptors of openat and fstatat are
 guest descriptors

---
 src/fesvr/syscall.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 1a79e1e..1f1c4df 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -40,6 +40,13 @@ fn sysret_errno(ret: i64) -> i64 {
 }
 
 impl FrontendServer {
+    fn dirfd_lookup(&self, dirfd: u64) -> i32 {
+        match dirfd as i32 {
+            libc::AT_FDCWD => libc::AT_FDCWD,
+            _ => self.fd_lookup(dirfd) as i32,
+        }
+    }
+
     pub fn openat(
         &mut self,
         cpu: &mut Cpu,
@@ -52,7 +59,12 @@ impl FrontendServer {
         log::infoln!("sys_openat(56)");
         let name: CString = memread_cstr(cpu, name_addr, len);
         let fd = sysret_errno(unsafe {
-            libc::openat(dirfd as i32, name.as_ptr(), flags as i32, mode as i32) as i64
+            libc::openat(
+                self.dirfd_lookup(dirfd),
+                name.as_ptr(),
+                flags as i32,
+                mode as i32,
+            ) as i64
         });
 
         if fd < 0 {
@@ -160,7 +172,7 @@ impl FrontendServer {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd),
                 name.as_ptr(),
                 &mut buf as *mut libc::stat,
                 flags as i32,
-- 
2.43.0


From b74855a52c575304b318fef62253bcf010a153dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 69/90] fix: pwrite returns the host error number

---
 src/fesvr/syscall.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 1f1c4df..10466d2 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -154,7 +154,7 @@ impl FrontendServer {
             )
         };
 
-        wrote_len as i64
+        sysret_errno(wrote_len as i64)
     }
 
     pub fn fstatat(
-- 
2.43.0


From 9a4ca54cbdbd5a26251f2db9cc7f6d4c5db2551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 70/90] fix: a failed stat does not write the guest's buffer

---
 src/fesvr/syscall.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 10466d2..f8ed47a 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -201,7 +201,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret.into());
-        if ret != -1 {
+        if ret == 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
@@ -243,7 +243,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret as i64);
-        if ret != -1 {
+        if ret == 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
-- 
2.43.0


From 82fa78fea6bc9e9d6e68c8cf2522edc24c892ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 71/90] fix: stat results have the layout of the riscv64 struct
 stat

---
 src/fesvr/syscall.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index f8ed47a..02070b6 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -183,18 +183,18 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
-                    PADDING,
+                    buf.st_atime_nsec as u64,
                     buf.st_mtime as u64,
-                    PADDING,
+                    buf.st_mtime_nsec as u64,
                     buf.st_ctime as u64,
-                    PADDING,
+                    buf.st_ctime_nsec as u64,
                     (PADDING as u32 as u64) << 32 | PADDING as u32 as u64,
                 ],
             )
@@ -225,18 +225,18 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    PADDING << 32 | buf.st_blksize as u32 as u64,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
-                    PADDING,
+                    buf.st_atime_nsec as u64,
                     buf.st_mtime as u64,
-                    PADDING,
+                    buf.st_mtime_nsec as u64,
                     buf.st_ctime as u64,
-                    PADDING,
+                    buf.st_ctime_nsec as u64,
                     (PADDING as u32 as u64) << 32 | PADDING as u32 as u64,
                 ],
             )
-- 
2.43.0


From 15b626889df2b61c8b3b2706dcfea8c0f2a594ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 72/90] fix: a read with a huge length does not exhaust the
 emulator's memory

---
 src/fesvr/syscall.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 02070b6..de6de09 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -5,6 +5,9 @@ use crate::Arguments;
 use libc::c_void;
 use std::ffi::CString;
 
+// the host transfers no more than this at once
+const MAX_RW_COUNT: u64 = 0x7fff_f000;
+
 fn memread(cpu: &mut Cpu, addr: u64, len: u64) -> Vec<u8> {
     let mut buf = Vec::new();
     for off in 0..len {
@@ -92,11 +95,12 @@ impl FrontendServer {
 
     pub fn read(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64, len: u64) -> i64 {
         log::infoln!("sys_read(63)");
-        let buf: Vec<u8> = vec![0; len as usize];
+        let len = len.min(MAX_RW_COUNT);
+        let mut buf: Vec<u8> = vec![0; len as usize];
         let read_len = unsafe {
             libc::read(
                 self.fd_lookup(fd) as i32,
-                buf.as_ptr() as *mut c_void,
+                buf.as_mut_ptr() as *mut c_void,
                 len as usize,
             )
         };
@@ -125,11 +129,12 @@ impl FrontendServer {
 
     pub fn pread(&self, cpu: &mut Cpu, fd: u64, dst_addr: u64, len: u64, off: u64) -> i64 {
         log::infoln!("sys_pread(67)");
-        let buf: Vec<u8> = vec![0; len as usize];
+        let len = len.min(MAX_RW_COUNT);
+        let mut buf: Vec<u8> = vec![0; len as usize];
         let read_len = unsafe {
             libc::pread(
                 self.fd_lookup(fd) as i32,
-                buf.as_ptr() as *mut c_void,
+                buf.as_mut_ptr() as *mut c_void,
                 len as usize,
                 off as i64,
             )
-- 
2.43.0


From f44ea5b5737dce7ade3583c495f0fa22a84c46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 73/90] fix: ELF header table offsets do not overflow 16 bits

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_32/section_header.rs | 4 ++--
 src/elfload/elf_64/program_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 1266692..7b67d1c 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader32 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u32) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u32 * segment_num as u32) as usize;
 
             new_prog.push(Box::new(ProgramHeader32 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3620bff..17dc80d 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -19,12 +19,12 @@ impl SectionHeader32 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader32) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u32;
+            elf_header.e_shoff + elf_header.e_shentsize as u32 * elf_header.e_shstrndx as u32;
         let name_table_off: usize = get_u32(mmap, (name_table as usize) + 16) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u32) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
                 sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c1e6753..ceb9271 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader64 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u64) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u64 * segment_num as u64) as usize;
 
             new_prog.push(Box::new(ProgramHeader64 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index c957e30..876a284 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -20,12 +20,12 @@ impl SectionHeader64 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader64) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u64;
+            elf_header.e_shoff + elf_header.e_shentsize as u64 * elf_header.e_shstrndx as u64;
         let name_table_off: usize = get_u64(mmap, (name_table as usize) + 24) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u64) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
                 sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
-- 
2.43.0


From 13adb98b787d0edb48ca2e18a6a9a97291080acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 74/90] fix: p_memsz and p_align of ELF64 and sh_entsize of
 ELF32 are read from their own fields

---
 src/elfload/elf_32/section_header.rs | 2 +-
 src/elfload/elf_64/program_header.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 17dc80d..e689aa2 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -36,7 +36,7 @@ impl SectionHeader32 {
                 sh_link: get_u32(mmap, section_head + 24),
                 sh_info: get_u32(mmap, section_head + 28),
                 sh_addralign: get_u32(mmap, section_head + 32),
-                sh_entsize: get_u32(mmap, section_head + 34),
+                sh_entsize: get_u32(mmap, section_head + 36),
             }));
         }
 
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index ceb9271..8e24340 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -42,8 +42,8 @@ impl ProgramHeader64 {
                 p_vaddr: get_u64(mmap, segment_start + 16),
                 p_paddr: get_u64(mmap, segment_start + 24),
                 p_filesz: get_u64(mmap, segment_start + 32),
-                p_memsz: get_u64(mmap, segment_start + 48),
-                p_align: get_u64(mmap, segment_start + 56),
+                p_memsz: get_u64(mmap, segment_start + 40),
+                p_align: get_u64(mmap, segment_start + 48),
             }));
         }
 
-- 
2.43.0


From 059def8f2e8a35d2a9d5ad8239eacae0d8481707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 75/90] fix: segment dumps end with the segment's bytes in the
 file

---
 src/elfload.rs                       | 12 ++++++++++++
 src/elfload/elf_32/program_header.rs | 12 ++----------
 src/elfload/elf_64/program_header.rs | 12 ++----------
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/elfload.rs b/src/elfload.rs
index 53197bd..f262e16 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -38,6 +38,18 @@ pub fn is_cinst(mmap: &[u8], index: usize) -> bool {
     mmap[index] & 0x3 != 0x3
 }
 
+// the last word is padded with zeros
+pub fn dump_words(data: &[u8]) {
+    for (block, bytes) in data.chunks(4).enumerate() {
+        if block % 8 == 0 {
+            println!()
+        }
+        let mut word = [0; 4];
+        word[..bytes.len()].copy_from_slice(bytes);
+        print!("{:08x} ", u32::from_le_bytes(word));
+    }
+}
+
 pub struct ElfIdentification {
     magic: [u8; 16],
     class: u8,
diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 7b67d1c..71b0a39 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -1,5 +1,5 @@
 use super::ElfHeader32;
-use crate::elfload::{get_u32, ProgramHeader};
+use crate::elfload::{dump_words, get_u32, ProgramHeader};
 
 fn get_segment_type_name(segment_type: u32) -> &'static str {
     match segment_type {
@@ -65,15 +65,7 @@ impl ProgramHeader for ProgramHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
-            if block % 8 == 0 {
-                println!()
-            }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
-        }
+        dump_words(&mmap[self.p_offset as usize..(self.p_offset + self.p_filesz) as usize]);
     }
 
     fn offset_and_addr(&self) -> (u64, u64) {
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 8e24340..1d9cf05 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -1,5 +1,5 @@
 use super::ElfHeader64;
-use crate::elfload::{get_u32, get_u64, ProgramHeader};
+use crate::elfload::{dump_words, get_u32, get_u64, ProgramHeader};
 
 fn get_segment_type_name(segment_type: u32) -> &'static str {
     match segment_type {
@@ -65,15 +65,7 @@ impl ProgramHeader for ProgramHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
-            .step_by(4)
-            .enumerate()
-        {
-            if block % 8 == 0 {
-                println!()
-            }
-            print!("{:08x} ", get_u32(mmap, dump_part as usize));
-        }
+        dump_words(&mmap[self.p_offset as usize..(self.p_offset + self.p_filesz) as usize]);
     }
 
     fn offset_and_addr(&self) -> (u64, u64) {
-- 
2.43.0


From 8b9bd99299d1adac81bf9e7b7ea11bda882b5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 76/90] fix: the disassembler survives data and truncated
 instructions in code sections

---
 src/elfload.rs                       | 30 ++++++++++++++++++++++++++++
 src/elfload/elf_32/section_header.rs | 28 +++++---------------------
 src/elfload/elf_64/section_header.rs | 28 +++++---------------------
 3 files changed, 40 insertions(+), 46 deletions(-)

diff --git a/src/elfload.rs b/src/elfload.rs
index f262e16..d115e9d 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -50,6 +50,36 @@ pub fn dump_words(data: &[u8]) {
     }
 }
 
+pub fn disassemble(code: &[u8], isa: Isa) {
+    use crate::cpu::decode::Decode;
+
+    let mut dump_head = 0;
+    while dump_head < code.len() {
+        let rest = code.len() - dump_head;
+        let inst = if rest < 2 {
+            print!("{:02x}\t\t", code[dump_head]);
+            dump_head += 1;
+            None
+        } else if is_cinst(code, dump_head) || rest < 4 {
+            let mdump = get_u16(code, dump_head);
+            print!("{mdump:<04x}\t\t");
+            dump_head += 2;
+            mdump.decode(isa).ok()
+        } else {
+            let mdump = get_u32(code, dump_head);
+            print!("{mdump:<08x}\t");
+            dump_head += 4;
+            mdump.decode(isa).ok()
+        };
+
+        match inst {
+            Some(inst) => inst.print_myself(),
+            None => print!("unknown"), // data
+        }
+        println!();
+    }
+}
+
 pub struct ElfIdentification {
     magic: [u8; 16],
     class: u8,
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index e689aa2..4bd65ff 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -1,5 +1,5 @@
 use super::ElfHeader32;
-use crate::elfload::{get_u16, get_u32, is_cinst, SectionHeader};
+use crate::elfload::{disassemble, get_u32, SectionHeader};
 use crate::Isa;
 
 pub struct SectionHeader32 {
@@ -108,31 +108,13 @@ impl SectionHeader for SectionHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        use crate::cpu::decode::Decode;
-
         println!("--------------------------------");
-        let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
-            if is_cinst(mmap, dump_head as usize) {
-                let mdump = get_u16(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv32);
-                dump_head += 2;
-
-                print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
-            } else {
-                let mdump = get_u32(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv32);
-                dump_head += 4;
-
-                print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
-            }
-            println!();
-        }
+        let range = self.section_range();
+        disassemble(&mmap[range.start as usize..range.end as usize], Isa::Rv32);
     }
 
     fn is_dumpable(&self) -> bool {
-        self.sh_flags >> 2 & 1 == 1
+        const SHT_NOBITS: u32 = 8;
+        self.sh_flags >> 2 & 1 == 1 && self.sh_type != SHT_NOBITS
     }
 }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 876a284..7ede77a 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -1,5 +1,5 @@
 use super::ElfHeader64;
-use crate::elfload::{get_u16, get_u32, get_u64, is_cinst, SectionHeader};
+use crate::elfload::{disassemble, get_u32, get_u64, SectionHeader};
 use crate::Isa;
 
 #[derive(Debug)]
@@ -112,31 +112,13 @@ impl SectionHeader for SectionHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        use crate::cpu::decode::Decode;
-
         println!("--------------------------------");
-        let mut dump_head = self.sh_offset;
-        while dump_head != self.sh_offset + self.sh_size {
-            if is_cinst(mmap, dump_head as usize) {
-                let mdump = get_u16(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv64);
-                dump_head += 2;
-
-                print!("{mdump:<04x}\t\t");
-                inst.unwrap().print_myself();
-            } else {
-                let mdump = get_u32(mmap, dump_head as usize);
-                let inst = mdump.decode(Isa::Rv64);
-                dump_head += 4;
-
-                print!("{mdump:<08x}\t");
-                inst.unwrap().print_myself();
-            }
-            println!();
-        }
+        let range = self.section_range();
+        disassemble(&mmap[range.start as usize..range.end as usize], Isa::Rv64);
     }
 
     fn is_dumpable(&self) -> bool {
-        self.sh_flags >> 2 & 1 == 1
+        const SHT_NOBITS: u32 = 8;
+        self.sh_flags >> 2 & 1 == 1 && self.sh_type != SHT_NOBITS
     }
 }
-- 
2.43.0


From 2dc1f128e957eeafdb611bc1ff9e15bb87323184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 77/90] fix: the mnemonic of MULHSU has no comma

---
 src/cpu/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/instruction.rs b/src/cpu/instruction.rs
index a009ab4..d92ac4b 100644
--- a/src/cpu/instruction.rs
+++ b/src/cpu/instruction.rs
@@ -399,7 +399,7 @@ impl Instruction {
             OpecodeKind::OP_SFENCE_VMA => "sfence.vma",
             OpecodeKind::OP_MUL => "mul",
             OpecodeKind::OP_MULH => "mulh",
-            OpecodeKind::OP_MULHSU => "mulhsu,",
+            OpecodeKind::OP_MULHSU => "mulhsu",
             OpecodeKind::OP_MULHU => "mulhu",
             OpecodeKind::OP_DIV => "div",
             OpecodeKind::OP_DIVU => "divu",
-- 
2.43.0


From 8fed007517bd3ee0dc485ad80fd35a2a03eb4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 78/90] fix: the reset code starts the guest at the ELF entry
 point

---
 src/bus.rs                           |  3 ++-
 src/elfload.rs                       | 12 ++++++++++++
 src/elfload/elf_32/elf_header.rs     |  4 ++++
 src/elfload/elf_32/program_header.rs |  4 ++++
 src/elfload/elf_64/elf_header.rs     |  4 ++++
 src/elfload/elf_64/program_header.rs |  4 ++++
 6 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/bus.rs b/src/bus.rs
index d8bde0f..456cc9d 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -23,8 +23,9 @@ pub struct Bus {
 impl Bus {
     pub fn new(loader: elfload::ElfLoader, args: &Arguments, isa: Isa) -> Self {
         // load proxy kernel before user program when it's given
+        let start_addr = loader.get_start_addr().expect("entry point not found.");
         let dram = Dram::new(loader, args, isa);
-        let mut mrom = Mrom::new(dram.base_addr, isa);
+        let mut mrom = Mrom::new(start_addr, isa);
 
         // create and load DTB
         mrom.load_dtb(dram.base_addr, dram.initrd_start, dram.initrd_end, isa);
diff --git a/src/elfload.rs b/src/elfload.rs
index d115e9d..fd687ee 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -195,6 +195,16 @@ impl ElfLoader {
         self.elf_header.is_elf()
     }
 
+    // physical address of the first instruction
+    pub fn get_start_addr(&self) -> Option<u64> {
+        let e_entry = self.elf_header.e_entry();
+        self.prog_headers
+            .iter()
+            .find(|seg| seg.is_loadable() && seg.virt_range().contains(&e_entry))
+            .map(|seg| e_entry - seg.virt_range().start + seg.offset_and_addr().1)
+            .or_else(|| self.get_entry_point())
+    }
+
     pub fn get_entry_point(&self) -> Option<u64> {
         for segment in self.prog_headers.iter() {
             if segment.is_loadable() {
@@ -304,6 +314,7 @@ impl ElfLoader {
 pub trait ElfHeader {
     fn show(&self);
     fn target_arch(&self) -> Isa;
+    fn e_entry(&self) -> u64;
     fn is_elf(&self) -> bool;
 }
 
@@ -313,6 +324,7 @@ pub trait ProgramHeader {
     fn is_loadable(&self) -> bool;
     fn offset_and_addr(&self) -> (u64, u64);
     fn p_filesz(&self) -> u64;
+    fn virt_range(&self) -> std::ops::Range<u64>;
 }
 
 pub trait SectionHeader {
diff --git a/src/elfload/elf_32/elf_header.rs b/src/elfload/elf_32/elf_header.rs
index 5b86e68..61543ee 100644
--- a/src/elfload/elf_32/elf_header.rs
+++ b/src/elfload/elf_32/elf_header.rs
@@ -74,6 +74,10 @@ impl ElfHeader for ElfHeader32 {
         self.e_ident.target_arch()
     }
 
+    fn e_entry(&self) -> u64 {
+        self.e_entry as u64
+    }
+
     fn is_elf(&self) -> bool {
         const HEADER_MAGIC: [u8; 4] = [0x7f, 0x45, 0x4c, 0x46];
         self.e_ident.magic[0..4] == HEADER_MAGIC
diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 71b0a39..fc172c9 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -79,4 +79,8 @@ impl ProgramHeader for ProgramHeader32 {
     fn p_filesz(&self) -> u64 {
         self.p_filesz as u64
     }
+
+    fn virt_range(&self) -> std::ops::Range<u64> {
+        self.p_vaddr as u64..self.p_vaddr as u64 + self.p_memsz as u64
+    }
 }
diff --git a/src/elfload/elf_64/elf_header.rs b/src/elfload/elf_64/elf_header.rs
index eb9600f..01b78c8 100644
--- a/src/elfload/elf_64/elf_header.rs
+++ b/src/elfload/elf_64/elf_header.rs
@@ -74,6 +74,10 @@ impl ElfHeader for ElfHeader64 {
         self.e_ident.target_arch()
     }
 
+    fn e_entry(&self) -> u64 {
+        self.e_entry
+    }
+
     fn is_elf(&self) -> bool {
         const HEADER_MAGIC: [u8; 4] = [0x7f, 0x45, 0x4c, 0x46];
         self.e_ident.magic[0..4] == HEADER_MAGIC
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 1d9cf05..0b15d4d 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -79,4 +79,8 @@ impl ProgramHeader for ProgramHeader64 {
     fn is_loadable(&self) -> bool {
         self.p_type == 0x1
     }
+
+    fn virt_range(&self) -> std::ops::Range<u64> {
+        self.p_vaddr..self.p_vaddr + self.p_memsz
+    }
 }
-- 
2.43.0


From 0e7f796ff3c26187f8b47a297ee8532e44f423fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 79/90] fix: segments below the first one are loaded

---
 src/elfload.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/elfload.rs b/src/elfload.rs
index fd687ee..a0025db 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -205,15 +205,13 @@ impl ElfLoader {
             .or_else(|| self.get_entry_point())
     }
 
+    // lowest physical address of the segments
     pub fn get_entry_point(&self) -> Option<u64> {
-        for segment in self.prog_headers.iter() {
-            if segment.is_loadable() {
-                let (_, paddr) = segment.offset_and_addr();
-                return Some(paddr);
-            }
-        }
-
-        None
+        self.prog_headers
+            .iter()
+            .filter(|segment| segment.is_loadable())
+            .map(|segment| segment.offset_and_addr().1)
+            .min()
     }
 
     pub fn get_host_addr(&self, isa: Isa) -> (Option<u64>, Option<u64>) {
-- 
2.43.0


From 051a895fda3e0134b68d6e4d7c5b76fcc1706786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 80/90] fix: the device tree names the translation mode RV64
 has

---
 src/bus/device_tree/dts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a66f17d..a64f1be 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -106,7 +106,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               status = \"okay\";
               compatible = \"riscv\";
               riscv,isa = \"rv64imac\";
-              mmu-type = \"riscv,sv57\";
+              mmu-type = \"riscv,sv39\";
               riscv,pmpregions = <16>;
               riscv,pmpgranularity = <4>;
               clock-frequency = <1000000000>;
-- 
2.43.0


From 83232dbc18a112f0572a93f6f9472525f0430cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 81/90] fix: the device tree gives the CLINT its emulated size

---
 src/bus/device_tree/dts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a64f1be..a647d18 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -50,7 +50,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
                 clint@2000000 {{
                   compatible = \"riscv,clint0\";
                   interrupts-extended = <&CPU0_intc 3 &CPU0_intc 7 >;
-                  reg = <0x0 0x2000000 0x0 0xc0000>;
+                  reg = <0x0 0x2000000 0x0 0x10000>;
                 }};
                 PLIC: plic@c000000 {{
                   compatible = \"riscv,plic0\";
@@ -130,7 +130,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
             clint@2000000 {{
               compatible = \"riscv,clint0\";
               interrupts-extended = <&CPU0_intc 3 &CPU0_intc 7 >;
-              reg = <0x0 0x2000000 0x0 0xc0000>;
+              reg = <0x0 0x2000000 0x0 0x10000>;
             }};
             PLIC: plic@c000000 {{
               compatible = \"riscv,plic0\";
-- 
2.43.0


From 55f20012273f39d95fcb9584fb51088881ce5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 82/90] fix: the device tree can describe memory above 4 GiB

---
 src/bus/device_tree/dts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a647d18..9a68434 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -1,6 +1,8 @@
 use crate::Isa;
 
 fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
+    let dram_upper = dram_addr >> 32;
+    let dram_lower = dram_addr & 0xffff_ffff;
     let initrd_start = initrd_start.unwrap_or(0);
     let initrd_end = initrd_end.unwrap_or(0);
     format!(
@@ -40,7 +42,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               }};
               memory@{dram_addr:x} {{
                 device_type = \"memory\";
-                reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+                reg = <{dram_upper:#x} {dram_lower:#x} 0x0 0x80000000>;
               }};
               soc {{
                 #address-cells = <2>;
@@ -80,6 +82,8 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
 }
 
 fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
+    let dram_upper = dram_addr >> 32;
+    let dram_lower = dram_addr & 0xffff_ffff;
     let initrd_start = initrd_start.unwrap_or(0);
     let initrd_end = initrd_end.unwrap_or(0);
     format!(
@@ -120,7 +124,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
           }};
           memory@{dram_addr:x} {{
             device_type = \"memory\";
-            reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+            reg = <{dram_upper:#x} {dram_lower:#x} 0x0 0x80000000>;
           }};
           soc {{
             #address-cells = <2>;
-- 
2.43.0


From 9e49bd7401c01ad43b77c7dd2b1025d554def50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 83/90] fix: the initrd stays inside memory that starts below 2
 GiB

---
 src/bus/dram.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 0d1477a..bf7bdd5 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -55,11 +55,12 @@ impl Dram {
             let file = File::open(path).unwrap();
             let mapped_initrd = unsafe { Mmap::map(&file).unwrap() };
 
-            const INITRD_END: usize = 0x8000_0000 + DRAM_SIZE - 0x1000;
-            let initrd_head = INITRD_END - mapped_initrd.len();
+            // near the end of the memory, and below 4 GiB
+            let initrd_end_addr = virt_entry.min(0x8000_0000) as usize + DRAM_SIZE - 0x1000;
+            let initrd_head = initrd_end_addr - mapped_initrd.len();
             let initrd_offset = initrd_head - virt_entry as usize;
-            initrd_start = Some(INITRD_END - mapped_initrd.len());
-            initrd_end = Some(INITRD_END);
+            initrd_start = Some(initrd_head);
+            initrd_end = Some(initrd_end_addr);
             new_dram.splice(
                 initrd_offset..initrd_offset + mapped_initrd.len(),
                 mapped_initrd.iter().cloned(),
-- 
2.43.0


From 021333280f4072665d24ee92ec26079aea5ae0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 84/90] hooks: where emulated memory is in the host (cfg
 carron_verif)

---
 src/bus/dram.rs | 6 ++++++
 src/lib.rs      | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index bf7bdd5..ba8aaca 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -76,6 +76,12 @@ impl Dram {
             initrd_end,
         }
     }
+
+    /// Where the memory is in the host's address space (for external monitors).
+    #[cfg(carron_verif)]
+    pub fn verif_host_addr(&self) -> usize {
+        self.dram.as_ptr() as usize
+    }
 }
 
 #[allow(clippy::identity_op)]
diff --git a/src/lib.rs b/src/lib.rs
index a3aa79d..09e9ca4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#[allow(unexpected_cfgs)] // carron_verif: see src/cpu/verif.rs
 pub mod bus;
 pub mod cmdline;
 #[allow(unexpected_cfgs)] // carron_verif: see src/cpu/verif.rs
-- 
2.43.0


From 054340a03c0c9c94620ee725aed29c60981d02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 85/90] fix: C.ADD with rd = x0 is a hint, not C.EBREAK

---
 src/cpu/decode/inst_16/c_extension.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 50a6315..1210e18 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -120,12 +120,11 @@ fn quadrant2(
                 },
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
-            0b1 => match mi_flag {
-                0b0 => Ok(OpecodeKind::OP_C_EBREAK),
-                _ => match lo_flag {
-                    0b0 => Ok(OpecodeKind::OP_C_JALR),
-                    _ => Ok(OpecodeKind::OP_C_ADD),
-                },
+            0b1 => match (mi_flag, lo_flag) {
+                (0b0, 0b0) => Ok(OpecodeKind::OP_C_EBREAK),
+                (_, 0b0) => Ok(OpecodeKind::OP_C_JALR),
+                // C.ADD with rd = x0 is a hint
+                _ => Ok(OpecodeKind::OP_C_ADD),
             },
             _ => Err((
                 Some(u64::from(inst)),
-- 
2.43.0


From 24056cd4ec72ebbc8495b4f6bd875c5617a83170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 86/90] fix: UART input is delivered when it arrives, not when
 a line is complete

---
 src/bus/uart.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 0e1fa0d..5cbef1f 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -121,11 +121,14 @@ impl Uart {
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>();
         std::thread::spawn(move || loop {
-            let mut buffer = Vec::new();
-            match std::io::stdin().lock().read_until(b'\n', &mut buffer) {
-                Ok(0) | Err(_) => break, // end of input
-                Ok(_) => (),
-            }
+            // whatever has arrived, a whole line or not
+            let mut stdin = std::io::stdin().lock();
+            let buffer = match stdin.fill_buf() {
+                Ok(arrived) if !arrived.is_empty() => arrived.to_vec(),
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                _ => break, // end of input
+            };
+            stdin.consume(buffer.len());
             if tx.send(buffer).is_err() {
                 break;
             }
-- 
2.43.0


From f12aec104a6b96b78de84fa4c8745a1895365bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 87/90] fix: segment and section types have the names of the
 ELF specification

---
 src/elfload/elf_32/program_header.rs |  5 +++--
 src/elfload/elf_32/section_header.rs | 13 +++++++++----
 src/elfload/elf_64/program_header.rs |  5 +++--
 src/elfload/elf_64/section_header.rs | 13 +++++++++----
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index fc172c9..c1fed9e 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -10,8 +10,9 @@ fn get_segment_type_name(segment_type: u32) -> &'static str {
         4 => "PT_NOTE",
         5 => "PT_SHLIB",
         6 => "PT_PHDR",
-        7 => "PT_LOPROC",
-        8 => "PT_HIPROC",
+        7 => "PT_TLS",
+        0x7000_0000 => "PT_LOPROC",
+        0x7fff_ffff => "PT_HIPROC",
         _ => "unknown type",
     }
 }
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 4bd65ff..2bd8eff 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -85,10 +85,15 @@ impl SectionHeader for SectionHeader32 {
             9 => "SHT_REL",
             10 => "SHT_SHLIB",
             11 => "SHT_DYNSYM",
-            12 => "SHT_LOPROC",
-            13 => "SHT_HIPROC",
-            14 => "SHT_LOUSER",
-            15 => "SHT_HIUSER",
+            14 => "SHT_INIT_ARRAY",
+            15 => "SHT_FINI_ARRAY",
+            16 => "SHT_PREINIT_ARRAY",
+            17 => "SHT_GROUP",
+            18 => "SHT_SYMTAB_SHNDX",
+            0x7000_0000 => "SHT_LOPROC",
+            0x7fff_ffff => "SHT_HIPROC",
+            0x8000_0000 => "SHT_LOUSER",
+            0xffff_ffff => "SHT_HIUSER",
             _ => "unknown type",
         }
     }
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index 0b15d4d..842cd95 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -10,8 +10,9 @@ fn get_segment_type_name(segment_type: u32) -> &'static str {
         4 => "PT_NOTE",
         5 => "PT_SHLIB",
         6 => "PT_PHDR",
-        7 => "PT_LOPROC",
-        8 => "PT_HIPROC",
+        7 => "PT_TLS",
+        0x7000_0000 => "PT_LOPROC",
+        0x7fff_ffff => "PT_HIPROC",
         _ => "unknown type",
     }
 }
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 7ede77a..3868cfe 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -89,10 +89,15 @@ impl SectionHeader for SectionHeader64 {
             9 => "SHT_REL",
             10 => "SHT_SHLIB",
             11 => "SHT_DYNSYM",
-            12 => "SHT_LOPROC",
-            13 => "SHT_HIPROC",
-            14 => "SHT_LOUSER",
-            15 => "SHT_HIUSER",
+            14 => "SHT_INIT_ARRAY",
+            15 => "SHT_FINI_ARRAY",
+            16 => "SHT_PREINIT_ARRAY",
+            17 => "SHT_GROUP",
+            18 => "SHT_SYMTAB_SHNDX",
+            0x7000_0000 => "SHT_LOPROC",
+            0x7fff_ffff => "SHT_HIPROC",
+            0x8000_0000 => "SHT_LOUSER",
+            0xffff_ffff => "SHT_HIUSER",
             _ => "unknown type",
         }
     }
-- 
2.43.0


From 44821bedfb0f3c6d2315ce757694c46024345388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 88/90] fix: sections of a file without a section name table
 have no name

---
 src/elfload/elf_32/section_header.rs | 6 +++++-
 src/elfload/elf_64/section_header.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 2bd8eff..d2a73fb 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -27,7 +27,11 @@ impl SectionHeader32 {
                 (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
-                sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
+                // without a name table there are no names
+                sh_name: match elf_header.e_shstrndx {
+                    0 => String::new(),
+                    _ => SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
+                },
                 sh_type: get_u32(mmap, section_head + 4),
                 sh_flags: get_u32(mmap, section_head + 8),
                 sh_addr: get_u32(mmap, section_head + 12),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index 3868cfe..9dd6b68 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -28,7 +28,11 @@ impl SectionHeader64 {
                 (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
-                sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
+                // without a name table there are no names
+                sh_name: match elf_header.e_shstrndx {
+                    0 => String::new(),
+                    _ => Self::get_sh_name(mmap, section_head, name_table_off),
+                },
                 sh_type: get_u32(mmap, section_head + 4),
                 sh_flags: get_u64(mmap, section_head + 8),
                 sh_addr: get_u64(mmap, section_head + 16),
-- 
2.43.0


From 18654e6754dff1ef3983855b2dfac8de3fa289cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 89/90] fix: reading cycle is permitted below M-mode where the
 counter enables allow it

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 67a34f8..476e38c 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -114,15 +114,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 
     if csrs_ranges.iter().any(|x| x.contains(&dist)) {
         match dist {
-            // == depends on access type ==
-            0xc00 => match cpu.priv_lv() {
-                PrivilegedLevel::Machine => Ok(()),
-                _ => Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("writing to cycle is not allowed: {dist:x}"),
-                )),
-            },
             // == depends on privilege ==
             // scounteren(0x106) only allow higher
             0x106 => {
-- 
2.43.0


From 98b0a69471983af76c2096fb2693334017c4a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 90/90] fix: a guest that closes a standard stream does not
 take it from the emulator

---
 src/fesvr/syscall.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index de6de09..5b42e4a 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -79,7 +79,9 @@ impl FrontendServer {
 
     pub fn close(&mut self, fd: u64) -> i64 {
         log::infoln!("sys_close(57)");
-        if unsafe { libc::close(self.fd_lookup(fd) as i32) } < 0 {
+        let host_fd = self.fd_lookup(fd) as i32;
+        // the standard streams stay open: the emulator itself uses them
+        if !(0..=2).contains(&host_fd) && unsafe { libc::close(host_fd) } < 0 {
             return sysret_errno(-1);
         }
 
-- 
2.43.0

