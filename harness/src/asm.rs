//! Instruction encoders and a tiny program builder.

use crate::dec::Op;

pub fn r(op: u32, f3: u32, f7: u32, rd: usize, rs1: usize, rs2: usize) -> u32 {
    f7 << 25 | (rs2 as u32) << 20 | (rs1 as u32) << 15 | f3 << 12 | (rd as u32) << 7 | op
}
pub fn i(op: u32, f3: u32, rd: usize, rs1: usize, imm: i64) -> u32 {
    (imm as u32 & 0xfff) << 20 | (rs1 as u32) << 15 | f3 << 12 | (rd as u32) << 7 | op
}
pub fn s(op: u32, f3: u32, rs1: usize, rs2: usize, imm: i64) -> u32 {
    let v = imm as u32;
    (v >> 5 & 0x7f) << 25 | (rs2 as u32) << 20 | (rs1 as u32) << 15 | f3 << 12 | (v & 0x1f) << 7 | op
}
pub fn b(f3: u32, rs1: usize, rs2: usize, imm: i64) -> u32 {
    let v = imm as u32;
    (v >> 12 & 1) << 31
        | (v >> 5 & 0x3f) << 25
        | (rs2 as u32) << 20
        | (rs1 as u32) << 15
        | f3 << 12
        | (v >> 1 & 0xf) << 8
        | (v >> 11 & 1) << 7
        | 0x63
}
pub fn u(op: u32, rd: usize, imm: i64) -> u32 {
    imm as u32 & 0xffff_f000 | (rd as u32) << 7 | op
}
pub fn j(rd: usize, imm: i64) -> u32 {
    let v = imm as u32;
    (v >> 20 & 1) << 31 | (v >> 1 & 0x3ff) << 21 | (v >> 11 & 1) << 20 | (v >> 12 & 0xff) << 12
        | (rd as u32) << 7
        | 0x6f
}

/// Encodes an instruction; fields that the format does not have are ignored.
pub fn enc(op: Op, rd: usize, rs1: usize, rs2: usize, imm: i64) -> u32 {
    use Op::*;
    let amo = |f5: u32, f3: u32| r(0x2f, f3, f5 << 2, rd, rs1, rs2);
    match op {
        Lui => u(0x37, rd, imm),
        Auipc => u(0x17, rd, imm),
        Jal => j(rd, imm),
        Jalr => i(0x67, 0, rd, rs1, imm),
        Beq => b(0, rs1, rs2, imm),
        Bne => b(1, rs1, rs2, imm),
        Blt => b(4, rs1, rs2, imm),
        Bge => b(5, rs1, rs2, imm),
        Bltu => b(6, rs1, rs2, imm),
        Bgeu => b(7, rs1, rs2, imm),
        Lb => i(3, 0, rd, rs1, imm),
        Lh => i(3, 1, rd, rs1, imm),
        Lw => i(3, 2, rd, rs1, imm),
        Ld => i(3, 3, rd, rs1, imm),
        Lbu => i(3, 4, rd, rs1, imm),
        Lhu => i(3, 5, rd, rs1, imm),
        Lwu => i(3, 6, rd, rs1, imm),
        Sb => s(0x23, 0, rs1, rs2, imm),
        Sh => s(0x23, 1, rs1, rs2, imm),
        Sw => s(0x23, 2, rs1, rs2, imm),
        Sd => s(0x23, 3, rs1, rs2, imm),
        Addi => i(0x13, 0, rd, rs1, imm),
        Slti => i(0x13, 2, rd, rs1, imm),
        Sltiu => i(0x13, 3, rd, rs1, imm),
        Xori => i(0x13, 4, rd, rs1, imm),
        Ori => i(0x13, 6, rd, rs1, imm),
        Andi => i(0x13, 7, rd, rs1, imm),
        Slli => i(0x13, 1, rd, rs1, imm & 0x3f),
        Srli => i(0x13, 5, rd, rs1, imm & 0x3f),
        Srai => i(0x13, 5, rd, rs1, imm & 0x3f | 0x400),
        Add => r(0x33, 0, 0, rd, rs1, rs2),
        Sub => r(0x33, 0, 0x20, rd, rs1, rs2),
        Sll => r(0x33, 1, 0, rd, rs1, rs2),
        Slt => r(0x33, 2, 0, rd, rs1, rs2),
        Sltu => r(0x33, 3, 0, rd, rs1, rs2),
        Xor => r(0x33, 4, 0, rd, rs1, rs2),
        Srl => r(0x33, 5, 0, rd, rs1, rs2),
        Sra => r(0x33, 5, 0x20, rd, rs1, rs2),
        Or => r(0x33, 6, 0, rd, rs1, rs2),
        And => r(0x33, 7, 0, rd, rs1, rs2),
        Addiw => i(0x1b, 0, rd, rs1, imm),
        Slliw => i(0x1b, 1, rd, rs1, imm & 0x1f),
        Srliw => i(0x1b, 5, rd, rs1, imm & 0x1f),
        Sraiw => i(0x1b, 5, rd, rs1, imm & 0x1f | 0x400),
        Addw => r(0x3b, 0, 0, rd, rs1, rs2),
        Subw => r(0x3b, 0, 0x20, rd, rs1, rs2),
        Sllw => r(0x3b, 1, 0, rd, rs1, rs2),
        Srlw => r(0x3b, 5, 0, rd, rs1, rs2),
        Sraw => r(0x3b, 5, 0x20, rd, rs1, rs2),
        Mul => r(0x33, 0, 1, rd, rs1, rs2),
        Mulh => r(0x33, 1, 1, rd, rs1, rs2),
        Mulhsu => r(0x33, 2, 1, rd, rs1, rs2),
        Mulhu => r(0x33, 3, 1, rd, rs1, rs2),
        Div => r(0x33, 4, 1, rd, rs1, rs2),
        Divu => r(0x33, 5, 1, rd, rs1, rs2),
        Rem => r(0x33, 6, 1, rd, rs1, rs2),
        Remu => r(0x33, 7, 1, rd, rs1, rs2),
        Mulw => r(0x3b, 0, 1, rd, rs1, rs2),
        Divw => r(0x3b, 4, 1, rd, rs1, rs2),
        Divuw => r(0x3b, 5, 1, rd, rs1, rs2),
        Remw => r(0x3b, 6, 1, rd, rs1, rs2),
        Remuw => r(0x3b, 7, 1, rd, rs1, rs2),
        Fence => 0x0ff0_000f,
        FenceI => 0x0000_100f,
        Ecall => 0x73,
        Ebreak => 0x10_0073,
        LrW => r(0x2f, 2, 2 << 2, rd, rs1, 0),
        ScW => amo(3, 2),
        AmoswapW => amo(1, 2),
        AmoaddW => amo(0, 2),
        AmoxorW => amo(4, 2),
        AmoandW => amo(0xc, 2),
        AmoorW => amo(8, 2),
        AmominW => amo(0x10, 2),
        AmomaxW => amo(0x14, 2),
        AmominuW => amo(0x18, 2),
        AmomaxuW => amo(0x1c, 2),
        LrD => r(0x2f, 3, 2 << 2, rd, rs1, 0),
        ScD => amo(3, 3),
        AmoswapD => amo(1, 3),
        AmoaddD => amo(0, 3),
        AmoxorD => amo(4, 3),
        AmoandD => amo(0xc, 3),
        AmoorD => amo(8, 3),
        AmominD => amo(0x10, 3),
        AmomaxD => amo(0x14, 3),
        AmominuD => amo(0x18, 3),
        AmomaxuD => amo(0x1c, 3),
        Csrrw => i(0x73, 1, rd, rs1, imm),
        Csrrs => i(0x73, 2, rd, rs1, imm),
        Csrrc => i(0x73, 3, rd, rs1, imm),
        Csrrwi => i(0x73, 5, rd, rs1, imm),
        Csrrsi => i(0x73, 6, rd, rs1, imm),
        Csrrci => i(0x73, 7, rd, rs1, imm),
        Mret => 0x3020_0073,
        Sret => 0x1020_0073,
        Wfi => 0x1050_0073,
        SfenceVma => r(0x73, 0, 9, 0, rs1, rs2),
    }
}

pub const ALU_RR: [Op; 10] = [
    Op::Add, Op::Sub, Op::Sll, Op::Slt, Op::Sltu, Op::Xor, Op::Srl, Op::Sra, Op::Or, Op::And,
];
pub const ALU_RR64: [Op; 5] = [Op::Addw, Op::Subw, Op::Sllw, Op::Srlw, Op::Sraw];
pub const ALU_RI: [Op; 9] = [
    Op::Addi, Op::Slti, Op::Sltiu, Op::Xori, Op::Ori, Op::Andi, Op::Slli, Op::Srli, Op::Srai,
];
pub const ALU_RI64: [Op; 4] = [Op::Addiw, Op::Slliw, Op::Srliw, Op::Sraiw];
pub const MULDIV: [Op; 8] = [
    Op::Mul, Op::Mulh, Op::Mulhsu, Op::Mulhu, Op::Div, Op::Divu, Op::Rem, Op::Remu,
];
pub const MULDIV64: [Op; 5] = [Op::Mulw, Op::Divw, Op::Divuw, Op::Remw, Op::Remuw];
pub const BRANCHES: [Op; 6] = [Op::Beq, Op::Bne, Op::Blt, Op::Bge, Op::Bltu, Op::Bgeu];
pub const LOADS: [Op; 5] = [Op::Lb, Op::Lh, Op::Lw, Op::Lbu, Op::Lhu];
pub const LOADS64: [Op; 7] = [Op::Lb, Op::Lh, Op::Lw, Op::Lbu, Op::Lhu, Op::Ld, Op::Lwu];
pub const STORES: [Op; 3] = [Op::Sb, Op::Sh, Op::Sw];
pub const STORES64: [Op; 4] = [Op::Sb, Op::Sh, Op::Sw, Op::Sd];
pub const AMOS32: [Op; 9] = [
    Op::AmoswapW, Op::AmoaddW, Op::AmoxorW, Op::AmoandW, Op::AmoorW, Op::AmominW, Op::AmomaxW,
    Op::AmominuW, Op::AmomaxuW,
];
pub const AMOS64: [Op; 9] = [
    Op::AmoswapD, Op::AmoaddD, Op::AmoxorD, Op::AmoandD, Op::AmoorD, Op::AmominD, Op::AmomaxD,
    Op::AmominuD, Op::AmomaxuD,
];
pub const CSR_OPS: [Op; 6] =
    [Op::Csrrw, Op::Csrrs, Op::Csrrc, Op::Csrrwi, Op::Csrrsi, Op::Csrrci];

pub fn size_of(op: Op) -> u64 {
    use Op::*;
    match op {
        Lb | Lbu | Sb => 1,
        Lh | Lhu | Sh => 2,
        Ld | Sd | LrD | ScD | AmoswapD | AmoaddD | AmoxorD | AmoandD | AmoorD | AmominD
        | AmomaxD | AmominuD | AmomaxuD => 8,
        _ => 4,
    }
}

/// Program builder with labels.
#[derive(Clone)]
pub struct Asm {
    pub base: u64,
    pub rv64: bool,
    pub code: Vec<u8>,
    labels: std::collections::HashMap<String, u64>,
    fix: Vec<(usize, String, Op, usize, usize, usize)>,
}

impl Asm {
    pub fn new(base: u64, rv64: bool) -> Asm {
        Asm { base, rv64, code: vec![], labels: Default::default(), fix: vec![] }
    }
    pub fn here(&self) -> u64 {
        self.base + self.code.len() as u64
    }
    pub fn w(&mut self, w: u32) {
        self.code.extend(w.to_le_bytes());
    }
    pub fn h(&mut self, h: u16) {
        self.code.extend(h.to_le_bytes());
    }
    pub fn o(&mut self, op: Op, rd: usize, rs1: usize, rs2: usize, imm: i64) {
        self.w(enc(op, rd, rs1, rs2, imm));
    }
    pub fn label(&mut self, l: &str) {
        assert!(self.labels.insert(l.to_string(), self.here()).is_none(), "label {l}");
    }
    pub fn addr(&self, l: &str) -> u64 {
        self.labels[l]
    }
    /// branch or jal to a label
    pub fn to(&mut self, op: Op, rd: usize, rs1: usize, rs2: usize, l: &str) {
        self.fix.push((self.code.len(), l.to_string(), op, rd, rs1, rs2));
        self.w(0);
    }
    pub fn jmp(&mut self, l: &str) {
        self.to(Op::Jal, 0, 0, 0, l);
    }
    pub fn call(&mut self, l: &str) {
        self.to(Op::Jal, 1, 0, 0, l);
    }
    pub fn ret(&mut self) {
        self.o(Op::Jalr, 0, 1, 0, 0);
    }
    /// load an arbitrary constant
    pub fn li(&mut self, rd: usize, v: u64) {
        if !self.rv64 {
            let v = v as u32;
            let hi = v.wrapping_add(0x800) & 0xffff_f000;
            self.o(Op::Lui, rd, 0, 0, hi as i32 as i64);
            self.o(Op::Addi, rd, rd, 0, (v.wrapping_sub(hi)) as i32 as i64);
            return;
        }
        if v as i64 >= -2048 && (v as i64) < 2048 {
            self.o(Op::Addi, rd, 0, 0, v as i64);
            return;
        }
        if v as i64 == v as i32 as i64 && (v as i32) <= 0x7fff_f7ff {
            let hi = (v as u32).wrapping_add(0x800) & 0xffff_f000;
            self.o(Op::Lui, rd, 0, 0, hi as i32 as i64);
            self.o(Op::Addiw, rd, rd, 0, (v as u32).wrapping_sub(hi) as i32 as i64);
            return;
        }
        // 11 bits at a time from the top
        self.o(Op::Addi, rd, 0, 0, (v >> 55) as i64);
        for sh in [44, 33, 22, 11, 0] {
            self.o(Op::Slli, rd, rd, 0, 11);
            self.o(Op::Ori, rd, rd, 0, (v >> sh & 0x7ff) as i64);
        }
    }
    pub fn la(&mut self, rd: usize, v: u64) {
        self.li(rd, v)
    }
    pub fn align(&mut self, n: usize) {
        while self.code.len() % n != 0 {
            self.code.push(0);
        }
    }
    pub fn d64(&mut self, v: u64) {
        self.code.extend(v.to_le_bytes());
    }
    pub fn space(&mut self, n: usize) {
        self.code.resize(self.code.len() + n, 0);
    }
    pub fn finish(mut self) -> Vec<u8> {
        for (off, l, op, rd, rs1, rs2) in std::mem::take(&mut self.fix) {
            let t = *self.labels.get(&l).unwrap_or_else(|| panic!("no label {l}"));
            let rel = t.wrapping_sub(self.base + off as u64) as i64;
            let w = enc(op, rd, rs1, rs2, rel);
            self.code[off..off + 4].copy_from_slice(&w.to_le_bytes());
        }
        self.code
    }
}
