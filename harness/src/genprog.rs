//! Complete guest programs made in advance: they set themselves up from reset, run random code
//! with traps and timer interrupts, print a digest of what they computed and end through tohost.
//! Everything they print has the top bit set, so that it can be told from the emulator's log.

use crate::asm::*;
use crate::dec::{decode16, decode32, Op};
use crate::elf::Elf;
use crate::model::csr;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Plan {
    pub rv64: bool,
    pub base: u64,
    /// 3, 1 or 0
    pub mode: u64,
    pub translate: bool,
    pub timer: Option<u64>,
    pub traps: bool,
    pub loops: u64,
    pub blocks: u64,
    /// the program ends by writing this to tohost
    pub status: u64,
    pub clock: bool,
    pub prints: bool,
    /// exceptions that the S-mode handler gets
    pub delegate: u64,
    /// asks the host now and then
    pub asks: bool,
}

pub fn plan(r: &mut Rng) -> Plan {
    let rv64 = r.bool();
    let mode = r.pick(&[3, 3, 1, 0]);
    let base = if rv64 { r.pick(&[0x8000_0000, 0x8000_0000, 0x4000_0000, 0xc000_0000]) } else { r.pick(&[0x8000_0000, 0x8000_0000, 0x4000_0000]) };
    let translate = mode < 3 && r.bool();
    // S mode cannot fetch from the pages of U mode
    let may = mode < 3 && !(translate && mode == 0);
    Plan {
        rv64,
        base,
        mode,
        translate,
        timer: r.chance(2, 3).then(|| r.range(1, 200)),
        traps: r.chance(2, 3),
        loops: if r.chance(1, 4) { r.range(50, 300) } else { r.range(1, 30) },
        blocks: r.range(10, 60),
        status: r.u64() >> 17 << 1 | 1,
        clock: r.bool(),
        prints: r.bool(),
        delegate: match r.below(6) {
            0 | 1 => 0,
            2 if may => r.u64() & 0xb0ff,
            _ if may => 0xb0ff,
            _ => 0,
        },
        asks: r.chance(1, 3),
    }
}

pub const DATA: u64 = 0x4_0000;
pub const TABLES: u64 = 0x6_0000;
pub const SAVE: u64 = 0x7_0000;
pub const TOHOST: u64 = 0x7_8000;
pub const UART: u64 = 0x1000_0000;
const MTIME: u64 = 0x0200_bff8;
const MTIMECMP: u64 = 0x0200_4000;

/// registers the body may write: all but x29 (loop counter) and x30 (data)
fn dst(r: &mut Rng) -> usize {
    let k = r.below(30) as usize;
    if k == 29 { 31 } else { k }
}
fn src(r: &mut Rng) -> usize {
    r.below(32) as usize
}

struct Body<'a> {
    a: Asm,
    p: &'a Plan,
    n: u64,
}

impl Body<'_> {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("l{}", self.n)
    }
    fn size(&self, op: Op) -> u64 {
        size_of(op)
    }
    fn alu(&mut self, r: &mut Rng) {
        let rv64 = self.p.rv64;
        let (d, s1, s2) = (dst(r), src(r), src(r));
        match r.below(8) {
            0 | 1 => {
                let op = if rv64 && r.bool() { r.pick(&ALU_RR64) } else { r.pick(&ALU_RR) };
                self.a.o(op, d, s1, s2, 0)
            }
            2 | 3 => {
                let op = if rv64 && r.bool() { r.pick(&ALU_RI64) } else { r.pick(&ALU_RI) };
                let imm = match op {
                    Op::Slli | Op::Srli | Op::Srai => r.below(if rv64 { 64 } else { 32 }) as i64,
                    Op::Slliw | Op::Srliw | Op::Sraiw => r.below(32) as i64,
                    _ => r.below(4096) as i64 - 2048,
                };
                self.a.o(op, d, s1, 0, imm)
            }
            4 => {
                let op = if rv64 && r.bool() { r.pick(&MULDIV64) } else { r.pick(&MULDIV) };
                self.a.o(op, d, s1, s2, 0)
            }
            5 => {
                let op = r.pick(&[Op::Lui, Op::Auipc]);
                self.a.o(op, d, 0, 0, (r.u64() as u32 & 0xffff_f000) as i32 as i64)
            }
            _ => loop {
                let h = r.u64() as u16;
                if h & 3 == 3 {
                    continue;
                }
                let Some(i) = decode16(h, rv64) else { continue };
                let ok = matches!(
                    i.op,
                    Op::Addi | Op::Addiw | Op::Lui | Op::Add | Op::Addw | Op::Sub | Op::Subw | Op::Xor | Op::Or
                        | Op::And | Op::Andi | Op::Slli | Op::Srli | Op::Srai
                );
                if ok && i.rd != 29 && i.rd != 30 {
                    self.a.h(h);
                    break;
                }
            },
        }
    }
    fn offset(&self, r: &mut Rng, n: u64) -> i64 {
        let v = r.below(4096 - 8) as i64 - 2048;
        if self.p.traps && r.chance(1, 12) { v } else { v & !(n as i64 - 1) }
    }
    fn block(&mut self, r: &mut Rng) {
        let rv64 = self.p.rv64;
        match r.below(16) {
            0..=3 => {
                for _ in 0..r.range(1, 8) {
                    self.alu(r);
                }
            }
            4 | 5 => {
                let op = if rv64 { r.pick(&LOADS64) } else { r.pick(&LOADS) };
                let (d, n) = (dst(r), self.size(op));
                let o = self.offset(r, n);
                self.a.o(op, d, 30, 0, o);
            }
            6 | 7 => {
                let op = if rv64 { r.pick(&STORES64) } else { r.pick(&STORES) };
                let n = self.size(op);
                let o = self.offset(r, n);
                let s = src(r);
                self.a.o(op, 0, 30, s, o);
            }
            8 => {
                let op = if rv64 && r.bool() { r.pick(&AMOS64) } else { r.pick(&AMOS32) };
                let n = self.size(op);
                let o = self.offset(r, n);
                self.a.o(Op::Addi, 28, 30, 0, o);
                let (d, s) = (dst(r), src(r));
                self.a.o(op, d, 28, s, 0);
            }
            9 => {
                let (lr, sc) = if rv64 && r.bool() { (Op::LrD, Op::ScD) } else { (Op::LrW, Op::ScW) };
                let o = r.below(4080) as i64 - 2048 & !7;
                self.a.o(Op::Addi, 28, 30, 0, o);
                let (d, s) = (dst(r), src(r));
                let d = if d == 28 { 27 } else { d };
                self.a.o(lr, d, 28, 0, 0);
                let e = dst(r);
                self.a.o(sc, e, 28, s, 0);
            }
            10 | 11 => {
                let l = self.fresh();
                let op = r.pick(&BRANCHES);
                let (s1, s2) = (src(r), src(r));
                self.a.to(op, 0, s1, s2, &l);
                for _ in 0..r.range(1, 4) {
                    self.alu(r);
                }
                self.a.label(&l);
            }
            12 => {
                let l = self.fresh();
                if r.bool() {
                    let d = dst(r);
                    self.a.to(Op::Jal, d, 0, 0, &l);
                } else {
                    // over the following, through a register
                    let t = r.range(1, 27) as usize;
                    let skip = r.below(4) as usize;
                    self.a.o(Op::Auipc, t, 0, 0, 0);
                    let d = dst(r);
                    self.a.o(Op::Jalr, d, t, 0, 8 + 4 * skip as i64 + r.below(2) as i64);
                    for _ in 0..skip {
                        self.a.o(Op::Addi, t, t, 0, 1);
                    }
                }
                for _ in 0..r.below(2) {
                    self.alu(r);
                }
                self.a.label(&l);
            }
            13 => {
                let d = dst(r);
                let s = src(r);
                let ops = [Op::Csrrw, Op::Csrrs, Op::Csrrc, Op::Csrrwi, Op::Csrrsi, Op::Csrrci];
                match r.below(4) {
                    0 if self.p.clock => self.a.o(Op::Csrrs, d, 0, 0, csr::TIME as i64),
                    1 if self.p.clock && !rv64 => self.a.o(Op::Csrrs, d, 0, 0, csr::TIMEH as i64),
                    _ if self.p.mode > 0 || self.p.traps => {
                        let n = r.pick(&[csr::SSCRATCH, csr::SSCRATCH, csr::STVAL, csr::SEPC, csr::MHARTID]);
                        if n == csr::MHARTID {
                            if self.p.mode == 3 || self.p.traps {
                                self.a.o(Op::Csrrs, d, 0, 0, n as i64)
                            }
                        } else {
                            self.a.o(r.pick(&ops), d, s, 0, n as i64)
                        }
                    }
                    _ => self.alu(r),
                }
            }
            14 if self.p.traps => match r.below(5) {
                0 => self.a.o(Op::Ecall, 0, 0, 0, 0),
                1 => loop {
                    let w = r.u64() as u32 | 3;
                    if decode32(w, rv64).is_none() {
                        self.a.w(w);
                        break;
                    }
                },
                2 => loop {
                    let h = r.u64() as u16;
                    if h & 3 != 3 && decode16(h, rv64).is_none() {
                        self.a.h(h);
                        break;
                    }
                },
                3 => {
                    let hole = r.pick(&[0x0u64, 0x3000_0000, 0x2f00_0000, 0x1000_0100, 0x0201_0000, 0x0d00_0000]);
                    self.a.li(28, hole);
                    let d = dst(r);
                    if r.bool() {
                        self.a.o(Op::Lw, d, 28, 0, 0)
                    } else {
                        self.a.o(Op::Sw, 0, 28, d, 0)
                    }
                }
                _ => {
                    // a jump to nowhere; the handler goes on behind it
                    let l = self.fresh();
                    self.a.to(Op::Jal, 27, 0, 0, &l);
                    self.a.label(&l);
                    self.a.o(Op::Addi, 27, 27, 0, 0x60);
                    self.a.li(28, self.p.base + SAVE + 0x40);
                    let st = if rv64 { Op::Sd } else { Op::Sw };
                    self.a.o(st, 0, 28, 27, 0);
                    self.a.li(28, r.pick(&[0x3000_0000u64, 0x2000_0000, 0x0200_0000 - 4]));
                    self.a.o(Op::Jalr, dst(r) & 15, 28, 0, 0);
                    // the resume address is 0x60 behind the label
                    while self.a.here() < self.a.addr(&l) + 0x60 {
                        self.a.o(Op::Addi, 0, 0, 0, 0);
                    }
                }
            },
            15 if self.p.asks && r.chance(1, 2) => {
                let at = self.p.base + SAVE + 0x200;
                let q = question(r, at + 64);
                let l = self.fresh();
                ask(&mut self.a, self.p.base + TOHOST, at, &q, &l);
                let d = dst(r);
                self.a.o(if rv64 { Op::Ld } else { Op::Lw }, d, 28, 0, 8 * r.pick(&[0, 0, 0, 1, 2, 7]));
            }
            15 if self.p.prints => {
                self.a.li(28, UART);
                let s = dst(r);
                let s = if s == 28 { 1 } else { s };
                self.a.o(Op::Ori, 27, s, 0, 0x80);
                self.a.o(Op::Sb, 0, 28, 27, 0);
            }
            _ => {
                if self.p.clock && r.chance(1, 3) {
                    self.a.li(28, MTIME);
                    let d = dst(r);
                    if rv64 && r.bool() {
                        self.a.o(Op::Ld, d, 28, 0, 0)
                    } else {
                        let o = r.pick(&[0, 4]);
                        self.a.o(Op::Lw, d, 28, 0, o)
                    }
                } else {
                    self.alu(r)
                }
            }
        }
    }
}

/// Text for requests, all with the top bit set.
pub fn text() -> Vec<u8> {
    (0..64u8).map(|k| 0xc0 | k).collect()
}

/// A request to the host that has the same answer everywhere; `text` is where the 64 bytes of text() are.
pub fn question(r: &mut Rng, text: u64) -> [u64; 4] {
    let bad = r.range(1000, 3000);
    match r.below(8) {
        0 => [57, bad, 0, 0],
        1 => [62, bad, r.below(100), r.below(3)],
        2 => [63, bad, text, r.below(64)],
        3 => [80, bad, text, 0],
        4 => [2011, text, r.below(30), 0],
        _ => {
            let o = r.below(64);
            [64, 1, text + o, r.range(0, 64 - o)]
        }
    }
}

/// Makes it, with the block of 64 bytes at `block` and tohost and fromhost at `htif`, and waits for the
/// answer; x27 and x28 change.
pub fn ask(a: &mut Asm, htif: u64, block: u64, call: &[u64; 4], label: &str) {
    let (ld, st) = if a.rv64 { (Op::Ld, Op::Sd) } else { (Op::Lw, Op::Sw) };
    a.li(28, block);
    for (k, v) in call.iter().enumerate() {
        a.li(27, *v);
        a.o(st, 0, 28, 27, 8 * k as i64);
        if !a.rv64 {
            a.o(Op::Sw, 0, 28, 0, 8 * k as i64 + 4);
        }
    }
    a.li(27, htif);
    a.o(st, 0, 27, 28, 0);
    a.label(label);
    a.o(ld, 28, 27, 0, 8);
    a.to(Op::Beq, 0, 28, 0, label);
    a.o(st, 0, 27, 0, 8);
    a.li(28, block);
}

/// Prints the value of x5 as nibbles with the top bit set; changes x6 and x7.
pub fn print_x5(a: &mut Asm) {
    a.li(6, UART);
    for _ in 0..if a.rv64 { 16 } else { 8 } {
        a.o(Op::Andi, 7, 5, 0, 15);
        a.o(Op::Ori, 7, 7, 0, 0x80);
        a.o(Op::Sb, 0, 6, 7, 0);
        a.o(Op::Srli, 5, 5, 0, 4);
    }
}

/// Opens all memory to S and U with PMP entry 0.
pub fn open_pmp(a: &mut Asm) {
    a.o(Op::Addi, 5, 0, 0, -1);
    a.o(Op::Csrrw, 0, 5, 0, csr::PMPADDR0 as i64);
    a.o(Op::Addi, 5, 0, 0, 0x1f);
    a.o(Op::Csrrw, 0, 5, 0, csr::PMPCFG0 as i64);
}

/// tohost := v (64 bits), then wait
pub fn exit_with(a: &mut Asm, tohost: u64, v: u64) {
    a.li(5, tohost);
    if a.rv64 {
        a.li(6, v);
        a.o(Op::Sd, 0, 5, 6, 0);
    } else {
        a.li(6, v >> 32);
        a.o(Op::Sw, 0, 5, 6, 4);
        a.li(6, v & 0xffff_ffff);
        a.o(Op::Sw, 0, 5, 6, 0);
    }
    let l = format!("wait{:x}", a.here());
    a.label(&l);
    a.to(Op::Jal, 0, 0, 0, &l);
}

pub fn generate(r: &mut Rng, p: &Plan) -> Elf {
    let (ld, st) = if p.rv64 { (Op::Ld, Op::Sd) } else { (Op::Lw, Op::Sw) };
    let mut a = Asm::new(p.base, p.rv64);
    // ---- set up
    let wide = p.rv64 as i64 * 4 + 4;
    a.to(Op::Jal, 0, 0, 0, "start");
    a.align(4);
    a.label("handler");
    a.o(Op::Csrrw, 31, 31, 0, csr::MSCRATCH as i64);
    for (k, x) in [5, 6, 7].into_iter().enumerate() {
        a.o(st, 0, 31, x, k as i64 * wide);
    }
    // a digest of the trap registers
    a.o(ld, 5, 31, 0, 0x48);
    for n in [csr::MCAUSE, csr::MEPC, csr::MTVAL] {
        a.o(Op::Csrrs, 6, 0, 0, n as i64);
        a.o(Op::Slli, 7, 5, 0, 1);
        a.o(Op::Add, 5, 5, 7, 0);
        a.o(Op::Xor, 5, 5, 6, 0);
    }
    a.o(st, 0, 31, 5, 0x48);
    a.o(Op::Csrrs, 5, 0, 0, csr::MCAUSE as i64);
    a.to(Op::Blt, 0, 5, 0, "interrupt");
    a.o(Op::Csrrs, 6, 0, 0, csr::MEPC as i64);
    // the last ecall of the program
    a.o(ld, 7, 31, 0, 0x50);
    a.to(Op::Beq, 0, 6, 7, "finish");
    a.o(Op::Addi, 7, 0, 0, 1);
    a.to(Op::Beq, 0, 5, 7, "fetch");
    a.o(Op::Addi, 7, 0, 0, 12);
    a.to(Op::Beq, 0, 5, 7, "fetch");
    a.o(Op::Lhu, 5, 6, 0, 0);
    a.o(Op::Andi, 5, 5, 0, 3);
    a.o(Op::Addi, 6, 6, 0, 2);
    a.o(Op::Addi, 7, 0, 0, 3);
    a.to(Op::Bne, 0, 5, 7, "resume");
    a.o(Op::Addi, 6, 6, 0, 2);
    a.to(Op::Jal, 0, 0, 0, "resume");
    a.label("fetch");
    a.o(ld, 6, 31, 0, 0x40);
    a.label("resume");
    a.o(Op::Csrrw, 0, 6, 0, csr::MEPC as i64);
    a.label("back");
    for (k, x) in [5, 6, 7].into_iter().enumerate() {
        a.o(ld, x, 31, 0, k as i64 * wide);
    }
    a.o(Op::Csrrw, 31, 31, 0, csr::MSCRATCH as i64);
    a.o(Op::Mret, 0, 0, 0, 0);
    a.label("interrupt");
    // the next one some ticks later
    a.li(5, MTIME);
    a.li(6, MTIMECMP);
    if p.rv64 {
        a.o(Op::Ld, 7, 5, 0, 0);
        a.o(Op::Addi, 7, 7, 0, p.timer.unwrap_or(1) as i64);
        a.o(Op::Sd, 0, 6, 7, 0);
    } else {
        a.o(Op::Lw, 7, 5, 0, 0);
        a.o(Op::Addi, 7, 7, 0, p.timer.unwrap_or(1) as i64);
        a.o(Op::Sw, 0, 6, 7, 0);
    }
    a.to(Op::Jal, 0, 0, 0, "back");
    if p.delegate != 0 {
        // the same in S mode, with room in the data for two registers
        a.align(4);
        a.label("shandler");
        a.o(st, 0, 30, 5, -2048);
        a.o(st, 0, 30, 6, -2040);
        a.o(st, 0, 30, 7, -2032);
        a.li(7, p.base + SAVE);
        a.o(ld, 5, 7, 0, 0x48);
        for n in [csr::SCAUSE, csr::SEPC, csr::STVAL] {
            a.o(Op::Csrrs, 6, 0, 0, n as i64);
            a.o(Op::Xor, 5, 5, 6, 0);
            a.o(Op::Slli, 6, 5, 0, 1);
            a.o(Op::Add, 5, 5, 6, 0);
        }
        a.o(st, 0, 7, 5, 0x48);
        a.o(Op::Csrrs, 5, 0, 0, csr::SCAUSE as i64);
        a.o(Op::Addi, 6, 0, 0, 1);
        a.to(Op::Beq, 0, 5, 6, "sfetch");
        a.o(Op::Addi, 6, 0, 0, 12);
        a.to(Op::Beq, 0, 5, 6, "sfetch");
        a.o(Op::Csrrs, 6, 0, 0, csr::SEPC as i64);
        a.o(Op::Lhu, 5, 6, 0, 0);
        a.o(Op::Andi, 5, 5, 0, 3);
        a.o(Op::Addi, 6, 6, 0, 2);
        a.o(Op::Addi, 7, 0, 0, 3);
        a.to(Op::Bne, 0, 5, 7, "sresume");
        a.o(Op::Addi, 6, 6, 0, 2);
        a.to(Op::Jal, 0, 0, 0, "sresume");
        a.label("sfetch");
        a.o(ld, 6, 7, 0, 0x40);
        a.label("sresume");
        a.o(Op::Csrrw, 0, 6, 0, csr::SEPC as i64);
        a.o(ld, 5, 30, 0, -2048);
        a.o(ld, 6, 30, 0, -2040);
        a.o(ld, 7, 30, 0, -2032);
        a.o(Op::Sret, 0, 0, 0, 0);
    }
    a.label("finish");
    a.o(ld, 5, 31, 0, 0);
    a.o(ld, 6, 31, 0, wide);
    a.o(ld, 7, 31, 0, 2 * wide);
    // registers into memory behind the data, then a digest of all of it
    for x in 1..32 {
        if x != 31 {
            a.o(st, 0, 31, x as usize, 0x100 + x * 8);
        }
    }
    a.o(Op::Csrrs, 5, 0, 0, csr::MSCRATCH as i64);
    a.o(st, 0, 31, 5, 0x100);
    a.o(ld, 5, 31, 0, 0x48);
    for (lo, hi) in [(p.base + DATA, p.base + DATA + 0x1000), (p.base + SAVE + 0x100, p.base + SAVE + 0x200)] {
        a.li(10, lo);
        a.li(11, hi);
        let l = format!("sum{lo:x}");
        a.label(&l);
        a.o(Op::Lw, 6, 10, 0, 0);
        a.o(Op::Slli, 7, 5, 0, 3);
        a.o(Op::Sub, 5, 7, 5, 0);
        a.o(Op::Add, 5, 5, 6, 0);
        a.o(Op::Addi, 10, 10, 0, 4);
        a.to(Op::Bltu, 0, 10, 11, &l);
    }
    print_x5(&mut a);
    exit_with(&mut a, p.base + TOHOST, p.status);

    a.label("start");
    a.la(5, a.addr("handler"));
    a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
    a.li(5, p.base + SAVE);
    a.o(Op::Csrrw, 0, 5, 0, csr::MSCRATCH as i64);
    if p.delegate != 0 {
        a.la(5, a.addr("shandler"));
        a.o(Op::Csrrw, 0, 5, 0, csr::STVEC as i64);
        a.li(5, p.delegate);
        a.o(Op::Csrrw, 0, 5, 0, csr::MEDELEG as i64);
    }
    open_pmp(&mut a);
    a.o(Op::Addi, 5, 0, 0, 7);
    a.o(Op::Csrrw, 0, 5, 0, csr::MCOUNTEREN as i64);
    a.o(Op::Csrrw, 0, 5, 0, csr::SCOUNTEREN as i64);
    for n in [csr::SSCRATCH, csr::STVAL, csr::SEPC] {
        a.o(Op::Csrrw, 0, 0, 0, n as i64);
    }
    // the body's data under addresses of their own
    let mut data_at = p.base + DATA + 0x800;
    if p.translate {
        // the same addresses, in the largest pages
        a.li(5, p.base + TABLES);
        let pte = if p.mode == 0 { 0xdf } else { 0xcf };
        if p.rv64 {
            for g in 0..4u64 {
                a.li(6, g << 28 | pte);
                a.o(Op::Sd, 0, 5, 6, g as i64 * 8);
            }
            if r.bool() {
                let g = r.range(4, 511);
                a.li(6, data_at >> 30 << 28 | pte);
                a.li(5, p.base + TABLES + g * 8);
                a.o(Op::Sd, 0, 5, 6, 0);
                data_at = (((g << 30) as i64) << 25 >> 25) as u64 | data_at & 0x3fff_ffff;
            }
            a.li(6, 8 << 60 | (p.base + TABLES) >> 12);
        } else {
            a.li(6, pte);
            a.li(7, 0x10_0000);
            a.li(8, p.base + TABLES + 0x1000);
            a.label("fill");
            a.o(Op::Sw, 0, 5, 6, 0);
            a.o(Op::Add, 6, 6, 7, 0);
            a.o(Op::Addi, 5, 5, 0, 4);
            a.to(Op::Bne, 0, 5, 8, "fill");
            if r.bool() {
                let g = r.pick(&[0x41, 0x7f, 0x3ff, 0x2ff]);
                a.li(6, data_at >> 22 << 20 | pte);
                a.li(5, p.base + TABLES + g * 4);
                a.o(Op::Sw, 0, 5, 6, 0);
                data_at = g << 22 | data_at & 0x3f_ffff;
            }
            a.li(6, 1 << 31 | (p.base + TABLES) >> 12);
        }
        a.o(Op::Csrrw, 0, 6, 0, csr::SATP as i64);
    }
    if let Some(t) = p.timer {
        a.li(5, MTIMECMP);
        a.o(Op::Sw, 0, 5, 0, 4);
        a.li(6, t);
        a.o(Op::Sw, 0, 5, 6, 0);
        a.li(6, 0x80);
        a.o(Op::Csrrw, 0, 6, 0, csr::MIE as i64);
    } else {
        a.o(Op::Csrrw, 0, 0, 0, csr::MIE as i64);
    }
    a.li(5, p.mode << 11 | if p.timer.is_some() { 0x80 } else { 0 });
    a.o(Op::Csrrw, 0, 5, 0, csr::MSTATUS as i64);
    a.to(Op::Jal, 5, 0, 0, "here");
    a.label("here");
    a.o(Op::Addi, 5, 5, 0, 12);
    a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
    a.o(Op::Mret, 0, 0, 0, 0);
    // ---- the body, in its mode
    for x in 1..32 {
        a.li(x, r.edgy(if p.rv64 { 64 } else { 32 }));
    }
    a.li(30, data_at);
    a.li(29, p.loops);
    let mut b = Body { a, p, n: 0 };
    b.a.to(Op::Jal, 0, 0, 0, "loop");
    if b.a.code.len() % 4 != 0 {
        b.a.h(1);
    }
    b.a.label("loop");
    for _ in 0..p.blocks {
        b.block(r);
    }
    b.a.o(Op::Addi, 29, 29, 0, -1);
    // far backwards
    b.a.to(Op::Beq, 0, 29, 0, "out");
    b.a.to(Op::Jal, 0, 0, 0, "loop");
    b.a.label("out");
    let end = b.a.here();
    b.a.o(Op::Ecall, 0, 0, 0, 0);
    let base = p.base;
    let mut code = b.a.finish();
    assert!(code.len() < DATA as usize, "program too long");
    code.resize(DATA as usize, 0);
    let mut data = vec![0u8; 0x1000];
    for b in data.iter_mut() {
        *b = r.u64() as u8;
    }
    let mut save = vec![0u8; 0x60];
    save[0x50..0x58].copy_from_slice(&end.to_le_bytes());
    save.resize(0x240, 0);
    save.extend(text());
    let mut e = Elf::simple(p.rv64, base, code);
    e.segs.push(crate::elf::Seg::load(base + DATA, data));
    e.segs.push(crate::elf::Seg::load(base + SAVE, save));
    e.htif(base + TOHOST, base + TOHOST + 8)
}
