//! Workload generation: instructions, register steering, machine states, page tables.

use crate::asm::*;
use crate::dec::{decode16, decode32, Inst, Op};
use crate::lock::Rig;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Alu,
    MulDiv,
    Branch,
    Jump,
    Load,
    Store,
    Amo,
    LrSc,
    Csr,
    Sys,   // ecall ebreak mret sret wfi sfence
    Fence,
    C16,   // any valid compressed instruction
    Word,  // any 32-bit word
    Half,  // any halfword
}

pub type Mix = &'static [(K, u64)];

pub const MIX_ALL: Mix = &[
    (K::Alu, 14), (K::MulDiv, 4), (K::Branch, 8), (K::Jump, 6), (K::Load, 12), (K::Store, 12),
    (K::Amo, 6), (K::LrSc, 6), (K::Csr, 10), (K::Sys, 6), (K::Fence, 1), (K::C16, 20), (K::Word, 1),
    (K::Half, 1),
];

pub fn reg(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 | 2 => 8 + r.below(8) as usize,
        _ => r.below(32) as usize,
    }
}

/// Three registers that are often the same.
pub fn regs3(r: &mut Rng) -> (usize, usize, usize) {
    let (rd, mut a, mut b) = (reg(r), reg(r), reg(r));
    match r.below(8) {
        0 => a = rd,
        1 => b = rd,
        2 => b = a,
        3 => {
            a = rd;
            b = rd
        }
        _ => (),
    }
    (rd, a, b)
}

pub fn imm12(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.pick(&[0, 1, -1, 2047, -2048, 4, 8, -4, 0x7f, 0x555, -0x555]),
        1 => r.below(32) as i64 - 16,
        _ => r.below(4096) as i64 - 2048,
    }
}

pub fn pick_alu(r: &mut Rng, rv64: bool) -> Op {
    match r.below(if rv64 { 6 } else { 4 }) {
        0 => r.pick(&[Op::Lui, Op::Auipc, Op::Addi]),
        1 | 2 => r.pick(&ALU_RR),
        3 => r.pick(&ALU_RI),
        4 => r.pick(&ALU_RR64),
        _ => r.pick(&ALU_RI64),
    }
}

pub fn enc_alu(r: &mut Rng, op: Op, rv64: bool) -> u32 {
    let (rd, a, b) = regs3(r);
    let imm = match op {
        Op::Lui | Op::Auipc => r.edgy(32) as i32 as i64,
        Op::Slli | Op::Srli | Op::Srai => r.below(if rv64 { 64 } else { 32 }) as i64,
        Op::Slliw | Op::Srliw | Op::Sraiw => r.below(32) as i64,
        _ => imm12(r),
    };
    enc(op, rd, a, b, imm)
}

/// A CSR number, mostly of those that exist.
pub fn csr_num(r: &mut Rng, rv64: bool) -> u16 {
    const COMMON: [u16; 21] = [
        0x100, 0x104, 0x105, 0x106, 0x140, 0x141, 0x142, 0x143, 0x144, 0x180, 0x300, 0x302, 0x303,
        0x304, 0x305, 0x306, 0x340, 0x341, 0x342, 0x343, 0x344,
    ];
    match r.below(16) {
        0 => r.pick(&[0x301, 0xc01, 0xc81, 0xf11, 0xf12, 0xf13, 0xf14, 0xc00, 0xc02]),
        1 => 0x3b0 + r.below(16) as u16,
        2 => {
            if rv64 { r.pick(&[0x3a0, 0x3a2]) } else { 0x3a0 + r.below(4) as u16 }
        }
        3 => r.pick(&[0x7a0, 0x7a1, 0x7a2]),
        4 => r.below(4096) as u16,
        _ => r.pick(&COMMON),
    }
}

pub fn word_of(r: &mut Rng, k: K, rv64: bool) -> (u32, u64) {
    let (rd, a, b) = regs3(r);
    let w = match k {
        K::Alu => {
            let op = pick_alu(r, rv64);
            enc_alu(r, op, rv64)
        }
        K::MulDiv => {
            let op = if rv64 && r.bool() { r.pick(&MULDIV64) } else { r.pick(&MULDIV) };
            enc(op, rd, a, b, 0)
        }
        K::Branch => {
            let off = if r.chance(1, 8) { r.below(0x1000) as i64 * 2 - 0x1000 } else { r.below(40) as i64 * 2 - 32 };
            enc(r.pick(&BRANCHES), 0, a, b, off)
        }
        K::Jump => {
            if r.bool() {
                let off = if r.chance(1, 8) { r.below(0x10_0000) as i64 * 2 - 0x10_0000 } else { r.below(64) as i64 * 2 - 56 };
                enc(Op::Jal, r.pick(&[rd, 0, 1, 5]), 0, 0, off)
            } else {
                enc(Op::Jalr, rd, a, 0, imm12(r))
            }
        }
        K::Load => {
            let op = if rv64 { r.pick(&LOADS64) } else { r.pick(&LOADS) };
            enc(op, rd, a, 0, imm12(r))
        }
        K::Store => {
            let op = if rv64 { r.pick(&STORES64) } else { r.pick(&STORES) };
            enc(op, 0, a, b, imm12(r))
        }
        K::Amo => {
            let op = if rv64 && r.bool() { r.pick(&AMOS64) } else { r.pick(&AMOS32) };
            enc(op, rd, a, b, 0) | (r.below(4) as u32) << 25
        }
        K::LrSc => {
            let op = if rv64 && r.bool() { r.pick(&[Op::LrD, Op::ScD]) } else { r.pick(&[Op::LrW, Op::ScW]) };
            enc(op, rd, a, b, 0) | (r.below(4) as u32) << 25
        }
        K::Csr => {
            let op = r.pick(&CSR_OPS);
            let n = csr_num(r, rv64);
            enc(op, rd, if r.chance(1, 3) { 0 } else { a }, 0, n as i64)
        }
        K::Sys => {
            let op = r.pick(&[
                Op::Ecall, Op::Ebreak, Op::Mret, Op::Mret, Op::Sret, Op::Sret, Op::Wfi, Op::SfenceVma,
            ]);
            enc(op, 0, a, b, 0)
        }
        K::Fence => r.pick(&[0x0ff0_000f, 0x100f, 0x0330_000f]),
        K::C16 => loop {
            let h = r.u64() as u16;
            if h & 3 != 3 && decode16(h, rv64).is_some() {
                return (h as u32, 2);
            }
        },
        K::Word => {
            let w = match r.below(3) {
                0 => r.u64() as u32 | 3,
                1 => {
                    // one bit away from something valid
                    let (w, _) = word_of(r, K::Alu, rv64);
                    w ^ 1 << (2 + r.below(30))
                }
                _ => {
                    let k = r.pick(&[K::Amo, K::Csr, K::Sys, K::Load, K::Store, K::MulDiv, K::LrSc]);
                    let (w, _) = word_of(r, k, rv64);
                    w ^ 1 << (2 + r.below(30))
                }
            };
            w
        }
        K::Half => {
            let h = r.u64() as u16;
            return if h & 3 == 3 { (h as u32 | (r.u64() as u32) << 16, 4) } else { (h as u32, 2) };
        }
    };
    (w, 4)
}

pub fn pick_mix(r: &mut Rng, mix: Mix) -> K {
    let total: u64 = mix.iter().map(|m| m.1).sum();
    let mut k = r.below(total);
    for (kind, w) in mix {
        if k < *w {
            return *kind;
        }
        k -= w;
    }
    unreachable!()
}

// ---- page tables ------------------------------------------------------------------------------

pub const PTE_V: u64 = 1;
pub const PTE_R: u64 = 2;
pub const PTE_W: u64 = 4;
pub const PTE_X: u64 = 8;
pub const PTE_U: u64 = 16;
pub const PTE_G: u64 = 32;
pub const PTE_A: u64 = 64;
pub const PTE_D: u64 = 128;

/// Physical layout of a scene, relative to the DRAM base.
pub const CODE: u64 = 0x1000; // four pages
pub const CODE_PAGES: u64 = 4;
pub const DATA: u64 = 0x1_0000; // four pages
pub const DATA_PAGES: u64 = 4;
pub const PT: u64 = 0x4_0000;

pub struct Tables {
    pub root: u64,
    next: u64,
    /// addresses of the PTEs written
    pub ptes: Vec<u64>,
    pub rv64: bool,
}

impl Tables {
    pub fn new(base: u64, rv64: bool, which: u64) -> Tables {
        let root = base + PT + which * 0x2_0000;
        Tables { root, next: root + 0x1000, ptes: vec![], rv64 }
    }
    pub fn levels(&self) -> u32 {
        if self.rv64 { 3 } else { 2 }
    }
    pub fn vbits(&self) -> u32 {
        if self.rv64 { 9 } else { 10 }
    }
    /// Maps va by a leaf at `level` with the raw PTE (low bits and PPN); creates the tables on the
    /// way. Gives up (false) when an ancestor is already a leaf.
    pub fn map(&mut self, m: &mut Mem, va: u64, level: u32, pte: u64) -> bool {
        let (vb, sz) = (self.vbits(), if self.rv64 { 8 } else { 4 });
        let mut t = self.root;
        let mut l = self.levels() - 1;
        while l > level {
            let a = t + (va >> (12 + vb * l) & ((1 << vb) - 1)) * sz;
            let e = m.read(a, sz);
            if e & 1 == 0 {
                let n = self.next;
                self.next += 0x1000;
                m.write(a, sz, n >> 12 << 10 | PTE_V);
                self.ptes.push(a);
                t = n;
            } else if e & 0xe != 0 {
                return false;
            } else {
                t = e >> 10 << 12;
            }
            l -= 1;
        }
        let a = t + (va >> (12 + vb * l) & ((1 << vb) - 1)) * sz;
        m.write(a, sz, pte);
        self.ptes.push(a);
        true
    }
    pub fn satp(&self) -> u64 {
        if self.rv64 { 8 << 60 | self.root >> 12 } else { 1 << 31 | self.root >> 12 }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub mix: Mix,
    pub translation: u64, // of 16
    pub pmp: u64,
    pub triggers: u64,
    pub ints: u64,
    pub modes: [u64; 3], // weights of U, S, M
    pub devices: u64,    // of 16: addresses steered at devices
    pub wild: u64,       // of 16: addresses anywhere
    pub bad_pte: u64,    // of 16
    pub steer: u64,      // of 16: operands steered
}

pub const OPTS: Opts = Opts {
    mix: MIX_ALL,
    translation: 8,
    pmp: 4,
    triggers: 2,
    ints: 4,
    modes: [1, 1, 1],
    devices: 2,
    wild: 1,
    bad_pte: 3,
    steer: 13,
};

pub struct Scene {
    pub o: Opts,
    /// addresses worth accessing
    pub data: Vec<u64>,
    /// addresses worth jumping to
    pub code: Vec<u64>,
    pub ptes: Vec<u64>,
    pub roots: Vec<u64>, // satp values
    pub last_lr: u64,
    pub trap_run: u32,
}

fn perms(r: &mut Rng) -> u64 {
    let p = r.pick(&[
        PTE_R, PTE_R | PTE_W, PTE_R | PTE_X, PTE_X, PTE_R | PTE_W | PTE_X, PTE_R | PTE_W | PTE_X,
    ]);
    let mut p = p | PTE_V | PTE_A | PTE_D;
    if r.bool() {
        p |= PTE_U;
    }
    if r.chance(1, 4) {
        p |= PTE_G;
    }
    p
}

/// Makes a leaf PTE (low 10 bits) wrong in one way.
fn spoil(r: &mut Rng, p: u64) -> u64 {
    match r.below(7) {
        0 => p & !PTE_V,
        1 => p & !PTE_A,
        2 => p & !PTE_D,
        3 => p & !(PTE_R | PTE_W | PTE_X) & !(PTE_A | PTE_D | PTE_U), // pointer
        4 => (p | PTE_W) & !PTE_R, // reserved
        5 => p & !(PTE_A | PTE_D),
        _ => p ^ PTE_U,
    }
}

pub fn random_mstatus(r: &mut Rng) -> u64 {
    let mut s = r.u64() & MSTATUS_FIELDS;
    if s & MPP == 2 << 11 {
        s ^= 1 << 11;
    }
    if r.chance(3, 4) {
        s &= !MPRV;
    }
    if r.chance(1, 2) {
        s &= !(TVM | TW | TSR);
    }
    s
}

pub fn vec_value(r: &mut Rng, code: &[u64]) -> u64 {
    let b = r.pick(code) & !3;
    b | r.below(2)
}

/// Addresses around the edges of devices and memory.
pub fn device_addr(r: &mut Rng, base: u64) -> u64 {
    let end = base + DRAM_SIZE;
    match r.below(10) {
        0 => 0x1000 + r.below(0x1000),
        1 => 0x0200_0000 + r.pick(&[0, 4, 8, 0x4000, 0x4004, 0x4008, 0xbff8, 0xbffc, 0xc000, 0xfff8, 0xfffc]),
        2 => 0x0c00_0000 + r.pick(&[0u64, 4, 8, 0x7c, 0x80, 0x1000, 0x2000, 0x2080, 0x2004]),
        3 => 0x0c20_0000 + r.pick(&[0u64, 4, 0x1000, 0x1004, 8]),
        4 => 0x1000_0000 + r.below(9),
        5 => {
            // edges
            let e = r.pick(&[
                0x1000, 0x2000, 0x0200_0000, 0x0201_0000, 0x0c00_0000, 0x0d00_0000, 0x1000_0000,
                0x1000_0100, base, end,
            ]);
            e.wrapping_add(r.below(24)).wrapping_sub(12)
        }
        6 => r.edgy(64),
        7 => r.edgy(32),
        8 => 0x0200_0000 + r.below(0x1_0000),
        _ => 0x0c00_0000 + 4 * r.below(0x400),
    }
}

/// Sets up rig.m with a random machine state. The caller calls rig.start().
pub fn scene(rig: &mut Rig, r: &mut Rng, o: Opts) -> Scene {
    let rv64 = rig.m.rv64;
    let base = rig.m.mem.base;
    let xm = rig.m.xmask();
    rig.begin();
    let m = &mut rig.m;
    let code: Vec<u64> = (0..16)
        .map(|_| base + CODE + r.below(CODE_PAGES * 0x1000 - 64) / 2 * 2)
        .chain([base + CODE, base + CODE + 0xffe, base + CODE + 0x1000])
        .collect();
    let mut data: Vec<u64> = vec![];
    for _ in 0..12 {
        let p = base + DATA + r.below(DATA_PAGES) * 0x1000;
        data.push(p + r.below(0x1000));
        data.push(p + r.below(0x200) * 8);
        data.push(p + r.pick(&[0u64, 0xff8, 0xffc, 0xffe, 0xfff, 1, 2, 4]));
    }
    data.push(base + DRAM_SIZE - 8);
    data.push(base + DRAM_SIZE - r.below(16));
    for i in 0..DATA_PAGES {
        for k in 0..512 {
            if r.chance(1, 4) {
                let v = r.edgy(64);
                m.mem.write(base + DATA + i * 0x1000 + 8 * k, 8, v);
            }
        }
    }
    let mut s = Scene {
        o, data, code, ptes: vec![], roots: vec![0, 0], last_lr: 0, trap_run: 0,
    };
    for a in s.data.iter_mut() {
        *a &= xm;
    }
    let o = s.o.clone();
    // page tables
    for which in 0..2 {
        let mut t = Tables::new(base, rv64, which);
        // code pages one to one
        for i in 0..CODE_PAGES {
            let pa = base + CODE + i * 0x1000;
            let mut p = PTE_V | PTE_R | PTE_W | PTE_X | PTE_A | PTE_D;
            if (i + which) % 2 == 1 {
                p |= PTE_U;
            }
            if r.chance(o.bad_pte, 64) {
                p = spoil(r, p);
            }
            t.map(&mut m.mem, pa, 0, pa >> 12 << 10 | p);
        }
        // data pages and devices at other places
        for _ in 0..10 {
            let level = if r.chance(1, 3) { r.below(t.levels() as u64) as u32 } else { 0 };
            let span = 12 + t.vbits() * level;
            let va = if rv64 {
                let v = match r.below(6) {
                    0 => (1 << 38) - (1 << span),                       // last low page
                    1 => !((1u64 << 38) - 1),                           // first high page
                    2 => 0u64.wrapping_sub(1 << span),                  // last page
                    _ => ((r.u64() << 25) as i64 >> 25) as u64,
                };
                v
            } else {
                r.u64() & 0xffff_ffff
            };
            let va = va >> span << span & xm;
            let target = match r.below(12) {
                0 => r.pick(&[0x1000u64, 0x0200_0000, 0x0200_4000, 0x0c00_0000, 0x0c20_0000, 0x1000_0000]),
                1 => base + CODE + r.below(CODE_PAGES) * 0x1000,
                2 => base + DRAM_SIZE - 0x1000,
                3 => r.pick(&[0u64, 0x3000, 0x0201_0000, base + DRAM_SIZE, base.wrapping_sub(0x1000)]),
                _ => base + DATA + r.below(DATA_PAGES) * 0x1000,
            };
            let mut ppn = target >> 12;
            let low = (1u64 << (t.vbits() * level)) - 1;
            let off = (target >> 12 & low) << 12;
            if !r.chance(o.bad_pte, 32) {
                ppn &= !low;
            }
            let mut p = perms(r);
            if r.chance(o.bad_pte, 16) {
                p = spoil(r, p);
            }
            let pte = ppn << 10 | p;
            if t.map(&mut m.mem, va, level, if rv64 { pte & ((1 << 54) - 1) } else { pte & 0xffff_ffff }) {
                for _ in 0..4 {
                    s.data.push((va + off + r.below(0x1000)) & xm);
                }
                s.data.push((va + off + r.pick(&[0u64, 0xff8, 0xffc, 0xffe, 0xfff])) & xm);
                if r.chance(1, 4) && p & PTE_X != 0 {
                    s.code.push(((va + off + r.below(0x1000)) & !1) & xm);
                }
                if rv64 && r.chance(1, 4) {
                    // the same address made non-canonical
                    s.data.push(va ^ 1 << (39 + r.below(25)));
                }
            }
        }
        // and the data pages one to one, so that M-mode addresses work too
        for i in 0..DATA_PAGES {
            let pa = base + DATA + i * 0x1000;
            let p = perms(r);
            let p = if r.chance(o.bad_pte, 16) { spoil(r, p) } else { p };
            t.map(&mut m.mem, pa, 0, pa >> 12 << 10 | p);
        }
        s.roots[which as usize] = t.satp();
        s.ptes.extend(t.ptes.iter());
    }
    // a root outside memory now and then
    if r.chance(1, 24) {
        let bad = r.pick(&[0u64, base + DRAM_SIZE, base.wrapping_sub(0x1000), 0x0200_0000, 0x0c00_0000]);
        s.roots[1] = if rv64 { 8 << 60 | (bad >> 12 & ((1 << 44) - 1)) } else { 1 << 31 | (bad >> 12 & 0x3f_ffff) };
    }
    if r.chance(o.translation, 16) {
        m.c.satp = r.pick(&s.roots);
    }
    // PMP
    if r.chance(o.pmp, 16) {
        random_pmp(m, r, &s.data, base);
    } else {
        m.c.pmpcfg[0] = 0x1f;
        m.c.pmpaddr[0] = if rv64 { (1 << 54) - 1 } else { 0xffff_ffff };
    }
    if r.chance(o.triggers, 16) {
        for i in 0..8 {
            if r.chance(1, 2) {
                m.c.tdata1[i] = trigger_value(r, rv64);
                m.c.tdata2[i] = (if r.bool() { r.pick(&s.code) } else { r.pick(&s.data) }) & xm;
            }
        }
        m.c.tselect = r.below(8);
    }
    m.c.mstatus = random_mstatus(r);
    m.c.medeleg = r.u64() & MEDELEG_MASK;
    m.c.mideleg = r.u64() & S_INTS;
    if r.chance(o.ints, 16) {
        m.c.mie = r.u64() & INTS;
        m.c.mip_sw = r.u64() & 0x22;
    }
    m.c.mtvec = vec_value(r, &s.code);
    m.c.stvec = vec_value(r, &s.code);
    m.c.mepc = r.pick(&s.code);
    m.c.sepc = r.pick(&s.code);
    m.c.mcounteren = r.below(8);
    m.c.scounteren = r.below(8);
    m.c.mscratch = r.edgy(64) & xm;
    m.c.sscratch = r.edgy(64) & xm;
    m.c.mtval = r.edgy(64) & xm;
    m.c.stval = r.edgy(64) & xm;
    m.c.mcause = r.pick(&[0, 2, 3, 5, 7, 8, 13, 15]);
    m.c.scause = r.pick(&[0, 2, 3, 5, 7, 8, 13, 15]);
    for i in 1..32 {
        m.regs[i] = if r.bool() { r.edgy(64) & xm } else { r.pick(&s.data) & xm };
    }
    let t = o.modes.iter().sum::<u64>();
    let mut k = r.below(t);
    m.prv = 3;
    for (p, w) in [(0u64, o.modes[0]), (1, o.modes[1]), (3, o.modes[2])] {
        if k < w {
            m.prv = p;
            break;
        }
        k -= w;
    }
    m.pc = r.pick(&s.code) & xm;
    m.mtime = r.below(1000);
    m.mtimecmp = match r.below(4) {
        0 => r.below(2000),
        _ => u64::MAX,
    };
    s
}

pub fn trigger_value(r: &mut Rng, rv64: bool) -> u64 {
    let ty = 2u64 << if rv64 { 60 } else { 28 };
    match r.below(8) {
        0 => 0,
        _ => ty | r.u64() & 0x5f,
    }
}

pub fn random_pmp(m: &mut Model, r: &mut Rng, data: &[u64], base: u64) {
    let top = if m.rv64 { (1u64 << 54) - 1 } else { 0xffff_ffff };
    let n = r.below(17) as usize;
    for i in 0..16 {
        let mut cfg = 0u8;
        let mut addr = match r.below(4) {
            0 => r.pick(data),
            1 => base + r.below(0x5_0000),
            2 => base + r.pick(&[CODE, DATA, PT, CODE + 0x1000, DATA + 0x1000]),
            _ => device_addr(r, base),
        } >> 2;
        if i < n {
            let a = r.below(4) as u8;
            let p = r.pick(&[0u8, 1, 3, 4, 5, 7, 7, 7]);
            cfg = a << 3 | p;
            if r.chance(1, 12) {
                cfg |= 0x80;
            }
            if a == 3 {
                // NAPOT of some size
                let k = r.pick(&[0u64, 1, 2, 5, 8, 9, 10, 11, 14, 20, 28]);
                addr = addr >> k << k | ((1u64 << k) - 1) & addr.wrapping_sub(1) | ((1u64 << k) >> 1).wrapping_sub(1) & if k > 0 { u64::MAX } else { 0 };
                if k == 0 {
                    addr &= !1;
                }
            }
        }
        m.c.pmpcfg[i] = cfg;
        m.c.pmpaddr[i] = addr & top;
    }
    // usually something grants the rest
    if r.chance(7, 8) {
        let last = if n >= 16 { 15 } else { n };
        m.c.pmpcfg[last] = 0x18 | r.pick(&[7u8, 7, 7, 5, 3]);
        m.c.pmpaddr[last] = top;
    }
}

/// What will be executed next, without any effect on the model.
pub fn peek(m: &Model) -> Option<(u64, Option<Inst>)> {
    let pa = m.translate(m.pc, Acc::Fetch, m.prv).ok()?;
    if !m.mem.contains(pa, 2) {
        return Some((pa, None));
    }
    let lo = m.mem.read(pa, 2) as u16;
    if lo & 3 != 3 {
        return Some((pa, decode16(lo, m.rv64)));
    }
    let va = m.pc.wrapping_add(2) & m.xmask();
    let pb = m.translate(va, Acc::Fetch, m.prv).ok()?;
    if !m.mem.contains(pb, 2) {
        return Some((pa, None));
    }
    let hi = m.mem.read(pb, 2) as u32;
    Some((pa, decode32(lo as u32 | hi << 16, m.rv64)))
}

impl Scene {
    /// Writes an instruction where the machine is about to execute an empty word.
    pub fn fill(&mut self, rig: &mut Rig, r: &mut Rng) {
        let m = &rig.m;
        let base = m.mem.base;
        let Ok(pa) = m.translate(m.pc, Acc::Fetch, m.prv) else { return };
        let in_code = |pa: u64| pa.wrapping_sub(base + CODE) < CODE_PAGES * 0x1000;
        if !in_code(pa) || pa & 1 == 1 || m.mem.read(pa, 2) != 0 || r.chance(1, 200) {
            return;
        }
        let k = pick_mix(r, self.o.mix);
        let (w, n) = word_of(r, k, m.rv64);
        if n == 2 {
            rig.poke(pa, &(w as u16).to_le_bytes());
            return;
        }
        let va = m.pc.wrapping_add(2) & m.xmask();
        let Ok(pb) = m.translate(va, Acc::Fetch, m.prv) else { return };
        if !in_code(pb) {
            return;
        }
        rig.poke(pa, &(w as u16).to_le_bytes());
        rig.poke(pb, &((w >> 16) as u16).to_le_bytes());
    }

    pub fn address(&self, rig: &Rig, r: &mut Rng) -> u64 {
        let base = rig.m.mem.base;
        if r.chance(self.o.devices, 16) {
            return device_addr(r, base);
        }
        if r.chance(self.o.wild, 16) {
            return r.edgy(64);
        }
        if self.last_lr != 0 && r.chance(1, 6) {
            return self.last_lr;
        }
        if r.chance(1, 12) && !self.ptes.is_empty() {
            return r.pick(&self.ptes);
        }
        let a = r.pick(&self.data);
        match r.below(4) {
            0 => a & !7,
            1 => a & !3,
            _ => a,
        }
    }

    /// Chooses operands that make the next instruction interesting.
    pub fn steer(&mut self, rig: &mut Rig, r: &mut Rng) {
        use Op::*;
        if !r.chance(self.o.steer, 16) {
            return;
        }
        let Some((_, Some(i))) = peek(&rig.m) else { return };
        let rv64 = rig.m.rv64;
        match i.op {
            Lb | Lh | Lw | Ld | Lbu | Lhu | Lwu => {
                let mut a = self.address(rig, r);
                if r.chance(3, 4) {
                    a &= !(size_of(i.op) - 1);
                }
                rig.set_x(i.rs1, a.wrapping_sub(i.imm as u64));
            }
            Sb | Sh | Sw | Sd | LrW | LrD | ScW | ScD | AmoswapW | AmoaddW | AmoxorW | AmoandW
            | AmoorW | AmominW | AmomaxW | AmominuW | AmomaxuW | AmoswapD | AmoaddD | AmoxorD
            | AmoandD | AmoorD | AmominD | AmomaxD | AmominuD | AmomaxuD => {
                let mut a = self.address(rig, r);
                if matches!(i.op, ScW | ScD) && r.chance(2, 3) && self.last_lr != 0 {
                    a = self.last_lr;
                } else if r.chance(7, 8) {
                    a &= !(size_of(i.op) - 1);
                }
                if matches!(i.op, LrW | LrD) {
                    self.last_lr = a & rig.xm();
                }
                // stores into code make the instruction stream depend on FENCE.I
                if a.wrapping_sub(rig.m.mem.base + CODE) < CODE_PAGES * 0x1000 {
                    a = rig.m.mem.base + DATA + r.below(0x200) * 8;
                }
                let mut v = r.edgy(64);
                if self.ptes.contains(&a) {
                    // change one bit of the entry that is there
                    let sz = if rv64 { 8 } else { 4 };
                    v = rig.m.mem.read(a, sz) ^ 1 << r.below(8);
                }
                if i.rs2 != i.rs1 {
                    if a >> 28 == 0 || a >> 8 == 0x10_0000 {
                        v = device_value(r, a);
                    }
                    rig.set_x(i.rs2, v);
                }
                rig.set_x(i.rs1, a.wrapping_sub(if matches!(i.op, Sb | Sh | Sw | Sd) { i.imm as u64 } else { 0 }));
            }
            Jalr => {
                let t = r.pick(&self.code);
                rig.set_x(i.rs1, t.wrapping_sub(i.imm as u64));
            }
            Beq | Bne | Blt | Bge | Bltu | Bgeu => {
                let v = r.edgy(64);
                rig.set_x(i.rs1, v);
                let w = match r.below(4) {
                    0 => v,
                    1 => v.wrapping_add(r.below(3)).wrapping_sub(1),
                    2 => v ^ 1 << r.below(64),
                    _ => r.edgy(64),
                };
                rig.set_x(i.rs2, w);
            }
            Csrrw | Csrrs | Csrrc => {
                let v = self.csr_operand(rig, r, i.imm as u16);
                rig.set_x(i.rs1, v);
            }
            Div | Divu | Rem | Remu | Divw | Divuw | Remw | Remuw | Mul | Mulh | Mulhsu | Mulhu
            | Mulw => {
                let v = r.edgy(64);
                rig.set_x(i.rs1, v);
                let v = r.edgy(64);
                rig.set_x(i.rs2, v);
            }
            _ => {
                if r.chance(1, 2) {
                    let v = r.edgy(64);
                    rig.set_x(i.rs1, v);
                }
            }
        }
    }

    /// A value worth writing to this CSR.
    pub fn csr_operand(&self, rig: &Rig, r: &mut Rng, n: u16) -> u64 {
        let rv64 = rig.m.rv64;
        let top = if rv64 { 63 } else { 31 };
        match n {
            csr::MSTATUS | csr::SSTATUS => {
                if r.chance(1, 4) { r.u64() } else { random_mstatus(r) }
            }
            csr::MTVEC | csr::STVEC => vec_value(r, &self.code),
            csr::MEPC | csr::SEPC => r.pick(&self.code) | r.below(8) / 7,
            csr::SATP => match r.below(6) {
                0 => 0,
                1 => r.u64(),
                2 => r.pick(&self.roots) | (r.u64() & 0xffff) << if rv64 { 44 } else { 22 },
                _ => r.pick(&self.roots),
            },
            csr::MIDELEG => r.u64() & S_INTS,
            csr::MIE | csr::SIE | csr::MEDELEG => r.u64(),
            csr::MIP | csr::SIP => r.u64() & !(1 << 9),
            csr::MCAUSE | csr::SCAUSE => {
                if r.bool() { r.below(16) } else { 1 << top | r.below(12) }
            }
            0x3a0..=0x3a3 => {
                let mut v = 0u64;
                for j in 0..8 {
                    let p = r.pick(&[0u8, 1, 3, 4, 5, 7, 7]);
                    let b = p | (r.below(4) as u8) << 3 | if r.chance(1, 40) { 0x80 } else { 0 };
                    v |= (b as u64) << (8 * j);
                }
                if r.bool() {
                    v = v & !0xff | 0x1f;
                }
                v
            }
            0x3b0..=0x3bf => {
                if r.bool() { u64::MAX } else { self.address(rig, r) >> 2 }
            }
            csr::TSELECT => r.below(9),
            csr::TDATA1 => trigger_value(r, rv64),
            csr::TDATA2 => {
                if r.bool() { r.pick(&self.code) } else { r.pick(&self.data) }
            }
            _ => r.edgy(64),
        }
    }

    /// Up to n steps; bookkeeping for stuck machines.
    pub fn run(&mut self, rig: &mut Rig, r: &mut Rng, n: u64) -> Result<u64, crate::report::Violation> {
        let mut done = 0;
        for _ in 0..n {
            if r.chance(self.o.ints, 400) {
                let inc = r.pick(&[50u64, 50, 50, 1, 1000]);
                rig.tick(inc)?;
            }
            if r.chance(self.o.ints, 300) && rig.m.plic.enable != [0, 0] {
                let id = 1 + r.below(31) as u32;
                let on = r.bool();
                // source 1 is the UART's
                if id != 1 {
                    rig.level(id, on)?;
                }
            }
            self.fill(rig, r);
            self.steer(rig, r);
            match rig.step()? {
                crate::lock::Next::Go(out) => {
                    done += 1;
                    if out.traps.is_empty() {
                        self.trap_run = 0;
                    } else {
                        self.trap_run += 1;
                        if self.trap_run > 3 {
                            // stuck in traps: go on elsewhere
                            let t = r.pick(&self.code);
                            rig.set_pc(t);
                            if self.trap_run > 6 {
                                break;
                            }
                        }
                    }
                }
                crate::lock::Next::Open => {
                    // step over what the specification leaves open
                    let len = match peek(&rig.m) {
                        Some((_, Some(i))) => i.len,
                        _ => break,
                    };
                    let pc = rig.m.pc.wrapping_add(len);
                    rig.set_pc(pc);
                }
            }
        }
        Ok(done)
    }
}

/// Values that the modelled device registers accept.
pub fn device_value(r: &mut Rng, a: u64) -> u64 {
    if a >> 16 == 0x200 {
        return match r.below(4) {
            0 => r.below(2),
            1 => r.below(4000),
            2 => u64::MAX,
            _ => if a & 0xffff < 8 { r.below(2) } else { r.u64() },
        };
    }
    if a >> 24 == 0x0c {
        return match a & 0x3f_ffff {
            0x2000 | 0x2080 => r.u64(),
            _ => r.below(16) | r.below(16) << 32,
        };
    }
    r.u64()
}
