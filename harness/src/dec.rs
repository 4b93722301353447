//! Independent decoder, written from the RISC-V unprivileged and privileged specifications
//! (RV32/RV64 IMAC, Zicsr, Zifencei, MRET, SRET, WFI, SFENCE.VMA).

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Lui, Auipc, Jal, Jalr,
    Beq, Bne, Blt, Bge, Bltu, Bgeu,
    Lb, Lh, Lw, Ld, Lbu, Lhu, Lwu,
    Sb, Sh, Sw, Sd,
    Addi, Slti, Sltiu, Xori, Ori, Andi, Slli, Srli, Srai,
    Add, Sub, Sll, Slt, Sltu, Xor, Srl, Sra, Or, And,
    Addiw, Slliw, Srliw, Sraiw, Addw, Subw, Sllw, Srlw, Sraw,
    Mul, Mulh, Mulhsu, Mulhu, Div, Divu, Rem, Remu,
    Mulw, Divw, Divuw, Remw, Remuw,
    Fence, FenceI, Ecall, Ebreak,
    LrW, ScW, AmoswapW, AmoaddW, AmoxorW, AmoandW, AmoorW, AmominW, AmomaxW, AmominuW, AmomaxuW,
    LrD, ScD, AmoswapD, AmoaddD, AmoxorD, AmoandD, AmoorD, AmominD, AmomaxD, AmominuD, AmomaxuD,
    Csrrw, Csrrs, Csrrc, Csrrwi, Csrrsi, Csrrci,
    Mret, Sret, Wfi, SfenceVma,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Inst {
    pub op: Op,
    pub rd: usize,
    pub rs1: usize,
    pub rs2: usize,
    pub imm: i64,
    pub len: u64,
    pub raw: u32,
}

fn bits(w: u32, hi: u32, lo: u32) -> u32 {
    (w >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32
}

fn sx(v: u32, width: u32) -> i64 {
    ((v << (32 - width)) as i32 >> (32 - width)) as i64
}

pub fn decode32(w: u32, rv64: bool) -> Option<Inst> {
    use Op::*;
    let rd = bits(w, 11, 7) as usize;
    let rs1 = bits(w, 19, 15) as usize;
    let rs2 = bits(w, 24, 20) as usize;
    let f3 = bits(w, 14, 12);
    let f7 = bits(w, 31, 25);
    let i_imm = sx(bits(w, 31, 20), 12);
    let s_imm = sx(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12);
    let b_imm = sx(
        bits(w, 31, 31) << 12 | bits(w, 7, 7) << 11 | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1,
        13,
    );
    let u_imm = (w & 0xffff_f000) as i32 as i64;
    let j_imm = sx(
        bits(w, 31, 31) << 20 | bits(w, 19, 12) << 12 | bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1,
        21,
    );
    let mk = |op, imm| Some(Inst { op, rd, rs1, rs2, imm, len: 4, raw: w });
    let only64 = |op, imm| if rv64 { mk(op, imm) } else { None };
    if w & 3 != 3 {
        return None;
    }
    match bits(w, 6, 2) {
        0b01101 => mk(Lui, u_imm),
        0b00101 => mk(Auipc, u_imm),
        0b11011 => mk(Jal, j_imm),
        0b11001 if f3 == 0 => mk(Jalr, i_imm),
        0b11000 => match f3 {
            0 => mk(Beq, b_imm),
            1 => mk(Bne, b_imm),
            4 => mk(Blt, b_imm),
            5 => mk(Bge, b_imm),
            6 => mk(Bltu, b_imm),
            7 => mk(Bgeu, b_imm),
            _ => None,
        },
        0b00000 => match f3 {
            0 => mk(Lb, i_imm),
            1 => mk(Lh, i_imm),
            2 => mk(Lw, i_imm),
            3 => only64(Ld, i_imm),
            4 => mk(Lbu, i_imm),
            5 => mk(Lhu, i_imm),
            6 => only64(Lwu, i_imm),
            _ => None,
        },
        0b01000 => match f3 {
            0 => mk(Sb, s_imm),
            1 => mk(Sh, s_imm),
            2 => mk(Sw, s_imm),
            3 => only64(Sd, s_imm),
            _ => None,
        },
        0b00100 => {
            let shamt = if rv64 { bits(w, 25, 20) } else { bits(w, 24, 20) } as i64;
            let top = if rv64 { bits(w, 31, 26) << 1 } else { f7 };
            match (f3, top) {
                (0, _) => mk(Addi, i_imm),
                (2, _) => mk(Slti, i_imm),
                (3, _) => mk(Sltiu, i_imm),
                (4, _) => mk(Xori, i_imm),
                (6, _) => mk(Ori, i_imm),
                (7, _) => mk(Andi, i_imm),
                (1, 0) => mk(Slli, shamt),
                (5, 0) => mk(Srli, shamt),
                (5, 0x20) => mk(Srai, shamt),
                _ => None,
            }
        }
        0b01100 => match (f7, f3) {
            (0x00, 0) => mk(Add, 0),
            (0x20, 0) => mk(Sub, 0),
            (0x00, 1) => mk(Sll, 0),
            (0x00, 2) => mk(Slt, 0),
            (0x00, 3) => mk(Sltu, 0),
            (0x00, 4) => mk(Xor, 0),
            (0x00, 5) => mk(Srl, 0),
            (0x20, 5) => mk(Sra, 0),
            (0x00, 6) => mk(Or, 0),
            (0x00, 7) => mk(And, 0),
            (0x01, 0) => mk(Mul, 0),
            (0x01, 1) => mk(Mulh, 0),
            (0x01, 2) => mk(Mulhsu, 0),
            (0x01, 3) => mk(Mulhu, 0),
            (0x01, 4) => mk(Div, 0),
            (0x01, 5) => mk(Divu, 0),
            (0x01, 6) => mk(Rem, 0),
            (0x01, 7) => mk(Remu, 0),
            _ => None,
        },
        0b00110 if rv64 => match (f7, f3) {
            (_, 0) => mk(Addiw, i_imm),
            (0x00, 1) => mk(Slliw, rs2 as i64),
            (0x00, 5) => mk(Srliw, rs2 as i64),
            (0x20, 5) => mk(Sraiw, rs2 as i64),
            _ => None,
        },
        0b01110 if rv64 => match (f7, f3) {
            (0x00, 0) => mk(Addw, 0),
            (0x20, 0) => mk(Subw, 0),
            (0x00, 1) => mk(Sllw, 0),
            (0x00, 5) => mk(Srlw, 0),
            (0x20, 5) => mk(Sraw, 0),
            (0x01, 0) => mk(Mulw, 0),
            (0x01, 4) => mk(Divw, 0),
            (0x01, 5) => mk(Divuw, 0),
            (0x01, 6) => mk(Remw, 0),
            (0x01, 7) => mk(Remuw, 0),
            _ => None,
        },
        // the reserved fields of FENCE and FENCE.I are ignored
        0b00011 => match f3 {
            0 => mk(Fence, 0),
            1 => mk(FenceI, 0),
            _ => None,
        },
        0b01011 => {
            let f5 = bits(w, 31, 27);
            let d = match f3 {
                2 => false,
                3 if rv64 => true,
                _ => return None,
            };
            let op = match f5 {
                0x02 if rs2 == 0 => [LrW, LrD],
                0x02 => return None,
                0x03 => [ScW, ScD],
                0x01 => [AmoswapW, AmoswapD],
                0x00 => [AmoaddW, AmoaddD],
                0x04 => [AmoxorW, AmoxorD],
                0x0c => [AmoandW, AmoandD],
                0x08 => [AmoorW, AmoorD],
                0x10 => [AmominW, AmominD],
                0x14 => [AmomaxW, AmomaxD],
                0x18 => [AmominuW, AmominuD],
                0x1c => [AmomaxuW, AmomaxuD],
                _ => return None,
            };
            mk(op[d as usize], 0)
        }
        0b11100 => {
            let csr = bits(w, 31, 20) as i64;
            match f3 {
                0 => match w {
                    0x0000_0073 => mk(Ecall, 0),
                    0x0010_0073 => mk(Ebreak, 0),
                    0x3020_0073 => mk(Mret, 0),
                    0x1020_0073 => mk(Sret, 0),
                    0x1050_0073 => mk(Wfi, 0),
                    _ if f7 == 0x09 && rd == 0 => mk(SfenceVma, 0),
                    _ => None,
                },
                1 => mk(Csrrw, csr),
                2 => mk(Csrrs, csr),
                3 => mk(Csrrc, csr),
                5 => mk(Csrrwi, csr),
                6 => mk(Csrrsi, csr),
                7 => mk(Csrrci, csr),
                _ => None,
            }
        }
        _ => None,
    }
}

/// Expands a 16-bit instruction; hints decode to their (ineffective) base instruction.
pub fn decode16(h: u16, rv64: bool) -> Option<Inst> {
    use Op::*;
    let w = h as u32;
    let mk = |op, rd: u32, rs1: u32, rs2: u32, imm: i64| {
        Some(Inst { op, rd: rd as usize, rs1: rs1 as usize, rs2: rs2 as usize, imm, len: 2, raw: w })
    };
    let r = bits(w, 11, 7); // full rd/rs1
    let r2 = bits(w, 6, 2); // full rs2
    let p1 = bits(w, 9, 7) + 8; // rs1'/rd'
    let p2 = bits(w, 4, 2) + 8; // rs2'/rd'
    let imm6 = sx(bits(w, 12, 12) << 5 | bits(w, 6, 2), 6);
    let sh6 = (bits(w, 12, 12) << 5 | bits(w, 6, 2)) as i64;
    let lw_off = (bits(w, 5, 5) << 6 | bits(w, 12, 10) << 3 | bits(w, 6, 6) << 2) as i64;
    let ld_off = (bits(w, 6, 5) << 6 | bits(w, 12, 10) << 3) as i64;
    match (w & 3, bits(w, 15, 13)) {
        (0, 0) => {
            let imm = bits(w, 10, 7) << 6 | bits(w, 12, 11) << 4 | bits(w, 5, 5) << 3 | bits(w, 6, 6) << 2;
            if imm == 0 {
                return None;
            }
            mk(Addi, p2, 2, 0, imm as i64)
        }
        (0, 2) => mk(Lw, p2, p1, 0, lw_off),
        (0, 3) if rv64 => mk(Ld, p2, p1, 0, ld_off),
        (0, 6) => mk(Sw, 0, p1, p2, lw_off),
        (0, 7) if rv64 => mk(Sd, 0, p1, p2, ld_off),
        (0, _) => None,
        (1, 0) => mk(Addi, r, r, 0, imm6),
        (1, 1) if rv64 => {
            if r == 0 {
                return None;
            }
            mk(Addiw, r, r, 0, imm6)
        }
        (1, 1) | (1, 5) => {
            let off = sx(
                bits(w, 12, 12) << 11
                    | bits(w, 8, 8) << 10
                    | bits(w, 10, 9) << 8
                    | bits(w, 6, 6) << 7
                    | bits(w, 7, 7) << 6
                    | bits(w, 2, 2) << 5
                    | bits(w, 11, 11) << 4
                    | bits(w, 5, 3) << 1,
                12,
            );
            let link = if bits(w, 15, 13) == 1 { 1 } else { 0 };
            mk(Jal, link, 0, 0, off)
        }
        (1, 2) => mk(Addi, r, 0, 0, imm6),
        (1, 3) if r == 2 => {
            let imm = sx(
                bits(w, 12, 12) << 9
                    | bits(w, 4, 3) << 7
                    | bits(w, 5, 5) << 6
                    | bits(w, 2, 2) << 5
                    | bits(w, 6, 6) << 4,
                10,
            );
            if imm == 0 {
                return None;
            }
            mk(Addi, 2, 2, 0, imm)
        }
        (1, 3) => {
            if imm6 == 0 {
                return None;
            }
            mk(Lui, r, 0, 0, imm6 << 12)
        }
        (1, 4) => match (bits(w, 11, 10), bits(w, 12, 12), bits(w, 6, 5)) {
            (0, hi, _) if rv64 || hi == 0 => mk(Srli, p1, p1, 0, sh6),
            (1, hi, _) if rv64 || hi == 0 => mk(Srai, p1, p1, 0, sh6),
            (2, _, _) => mk(Andi, p1, p1, 0, imm6),
            (3, 0, 0) => mk(Sub, p1, p1, p2, 0),
            (3, 0, 1) => mk(Xor, p1, p1, p2, 0),
            (3, 0, 2) => mk(Or, p1, p1, p2, 0),
            (3, 0, 3) => mk(And, p1, p1, p2, 0),
            (3, 1, 0) if rv64 => mk(Subw, p1, p1, p2, 0),
            (3, 1, 1) if rv64 => mk(Addw, p1, p1, p2, 0),
            _ => None,
        },
        (1, f) => {
            let off = sx(
                bits(w, 12, 12) << 8
                    | bits(w, 6, 5) << 6
                    | bits(w, 2, 2) << 5
                    | bits(w, 11, 10) << 3
                    | bits(w, 4, 3) << 1,
                9,
            );
            mk(if f == 6 { Beq } else { Bne }, 0, p1, 0, off)
        }
        (2, 0) => {
            if !rv64 && bits(w, 12, 12) == 1 {
                return None;
            }
            mk(Slli, r, r, 0, sh6)
        }
        (2, 2) => {
            if r == 0 {
                return None;
            }
            let off = bits(w, 3, 2) << 6 | bits(w, 12, 12) << 5 | bits(w, 6, 4) << 2;
            mk(Lw, r, 2, 0, off as i64)
        }
        (2, 3) if rv64 => {
            if r == 0 {
                return None;
            }
            let off = bits(w, 4, 2) << 6 | bits(w, 12, 12) << 5 | bits(w, 6, 5) << 3;
            mk(Ld, r, 2, 0, off as i64)
        }
        (2, 4) => match (bits(w, 12, 12), r, r2) {
            (0, 0, 0) => None,
            (0, _, 0) => mk(Jalr, 0, r, 0, 0),
            (0, _, _) => mk(Add, r, 0, r2, 0),
            (1, 0, 0) => mk(Ebreak, 0, 0, 0, 0),
            (1, _, 0) => mk(Jalr, 1, r, 0, 0),
            _ => mk(Add, r, r, r2, 0),
        },
        (2, 6) => {
            let off = bits(w, 8, 7) << 6 | bits(w, 12, 9) << 2;
            mk(Sw, 0, 2, r2, off as i64)
        }
        (2, 7) if rv64 => {
            let off = bits(w, 9, 7) << 6 | bits(w, 12, 10) << 3;
            mk(Sd, 0, 2, r2, off as i64)
        }
        _ => None,
    }
}

/// The operation with this number.
pub fn op_from(n: usize) -> Op {
    assert!(n <= Op::SfenceVma as usize);
    // Op is a fieldless enum numbered from 0
    unsafe { std::mem::transmute(n as u8) }
}
