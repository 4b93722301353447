//! Single instructions (and short sequences) from chosen states, compared with the reference.

use crate::asm::*;
use crate::dec::{decode16, decode32, Op};
use crate::gen::*;
use crate::lock::{Next, Rig};
use crate::model::*;
use crate::report::*;
use crate::rng::{mix, Rng};

/// RV32/RV64, and mostly the usual DRAM base.
pub fn pick_machine(r: &mut Rng) -> (bool, u64) {
    let rv64 = r.bool();
    let base = match r.below(8) {
        0 => 0x4000_0000,
        1 if rv64 => 0x1_0000_0000,
        _ => 0x8000_0000,
    };
    (rv64, base)
}

/// A quiet machine: no translation, no pending interrupts, everything allowed.
pub fn plain(rig: &mut Rig, r: &mut Rng) -> bool {
    rig.begin();
    let xm = rig.m.xmask();
    let base = rig.m.mem.base;
    let m = &mut rig.m;
    for i in 1..32 {
        m.regs[i] = r.edgy(64) & xm;
    }
    m.c.mstatus = random_mstatus(r) & !MPRV;
    m.c.pmpcfg[0] = 0x1f;
    m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
    m.c.mtvec = base + 0x100;
    m.c.stvec = base + 0x200;
    m.c.medeleg = r.u64() & MEDELEG_MASK;
    m.c.mscratch = r.edgy(64) & xm;
    m.c.mepc = r.edgy(64) & xm & !1;
    m.c.sepc = r.edgy(64) & xm & !1;
    m.pc = base + CODE;
    rig.start()
}

/// Where to put an instruction of n bytes.
pub fn slot(rig: &Rig, r: &mut Rng, n: u64) -> u64 {
    let base = rig.m.mem.base;
    match r.below(16) {
        0 => base + DRAM_SIZE - n,
        1 => base + CODE + 0x1000 - 2,
        2 => base,
        _ => base + CODE + r.below(0x1f00) / 2 * 2,
    }
}

fn key(parts: &[u64]) -> Option<u64> {
    Some(parts.iter().fold(0x1234, |a, b| mix(a, *b)))
}

/// Places a word at a slot and executes it; false when the specification is open.
fn exec_word(rig: &mut Rig, pc: u64, w: u32, n: usize) -> Result<bool, Violation> {
    rig.poke(pc, &w.to_le_bytes()[..n]);
    rig.set_pc(pc);
    Ok(matches!(rig.step()?, Next::Go(_)))
}

fn rejected(cx: &mut Ctx, rig: &mut Rig) {
    let d = rig.full_diff().unwrap_or_default();
    let k: String = d.split(':').next().unwrap_or("").into();
    cx.st.inconclusive(&format!("start state not accepted: {k}"));
}

macro_rules! quiet_rig {
    ($cx:ident, $rv64:ident, $base:ident, $rig:ident) => {
        let ($rv64, $base) = pick_machine(&mut $cx.rng);
        #[allow(unused_mut)]
        let mut $rig = $cx.rig($rv64, $base);
        if !plain(&mut $rig, &mut $cx.rng) {
            rejected($cx, &mut $rig);
            return Ok(());
        }
    };
}

// ---- C01 ---------------------------------------------------------------------------------

fn alu(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    for _ in 0..150 {
        let op = pick_alu(r, rv64);
        let w = enc_alu(r, op, rv64);
        let i = decode32(w, rv64).unwrap();
        rig.set_prv(r.pick(&[3, 3, 1, 0]));
        let a = r.edgy(64);
        rig.set_x(i.rs1, a);
        let b = match r.below(6) {
            0 => a,
            1 => a.wrapping_add(r.below(3)).wrapping_sub(1),
            2 => r.below(70),
            _ => r.edgy(64),
        };
        rig.set_x(i.rs2, b);
        let pc = slot(&rig, r, 4);
        exec_word(&mut rig, pc, w, 4)?;
        let alias = (i.rd == i.rs1) as u64 | ((i.rd == i.rs2) as u64) << 1 | ((i.rd == 0) as u64) << 2;
        cx.st.case(key(&[op as u64, a, b, i.imm as u64, alias, rv64 as u64]));
    }
    rig.finish()?;
    let _ = base;
    cx.st.sample(|| format!("rv{}: {}", if rv64 { 64 } else { 32 }, rig.last()));
    cx.put(rig);
    Ok(())
}

/// Every shift amount, immediate edge and operand pair for one operation.
fn alu_grid(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    let vals: Vec<u64> = (0..14).map(|_| r.edgy(64)).collect();
    let op = pick_alu(r, rv64);
    let (rd, ra, rb) = (5, 6, 7);
    let imms: Vec<i64> = match op {
        Op::Slli | Op::Srli | Op::Srai => (0..if rv64 { 64 } else { 32 }).collect(),
        Op::Slliw | Op::Srliw | Op::Sraiw => (0..32).collect(),
        Op::Lui | Op::Auipc => (0..20).map(|k| (1u32 << (12 + k)) as i32 as i64).collect(),
        _ => (0..12).map(|k| 1i64 << k).chain([-1, 0, 2047, -2048]).map(|v| if v == 2048 { -2048 } else { v }).collect(),
    };
    let reg_op = matches!(op, Op::Add | Op::Sub | Op::Sll | Op::Slt | Op::Sltu | Op::Xor | Op::Srl | Op::Sra | Op::Or | Op::And | Op::Addw | Op::Subw | Op::Sllw | Op::Srlw | Op::Sraw);
    for a in &vals {
        let n = if reg_op { 70 } else { imms.len() };
        for k in 0..n {
            let (imm, b) = if reg_op { (0, if k < 64 { k as u64 | r.u64() << 7 } else { vals[k % vals.len()] }) } else { (imms[k], 0) };
            rig.set_x(ra, *a);
            rig.set_x(rb, b);
            exec_word(&mut rig, base + CODE, enc(op, rd, ra, rb, imm), 4)?;
            cx.st.case(key(&[op as u64, *a, b, imm as u64, 8, rv64 as u64]));
        }
    }
    rig.finish()?;
    cx.put(rig);
    Ok(())
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        gens: vec![
            Gen { name: "random operands", weight: 4, run: alu },
            Gen { name: "operand grid of one operation", weight: 1, run: alu_grid },
        ],
        quick: 160000,
        thorough: 1_500_000,
        rule: "one case = one executed computational instruction with operands biased to XLEN edges, shift amounts, equal/adjacent values and register aliasing (rd=rs1, rd=rs2, x0), in M/S/U mode at slots incl. page crossings and the last bytes of DRAM; all registers, pc, privilege, CSRs are compared after each, all touched memory at the end; distinct by (op, operands, immediate, aliasing, XLEN)",
        assumptions: &["the reference model in /verif/harness/src/model.rs is right", "operand values are sampled, not enumerated"],
        must: &["steps compared"],
    }
}

// ---- C02 ---------------------------------------------------------------------------------

fn jumps(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    for _ in 0..150 {
        let (rd, ra, rb) = regs3(r);
        rig.set_prv(r.pick(&[3, 3, 1, 0]));
        let a = r.edgy(64);
        let b = match r.below(7) {
            0 | 1 => a,
            2 => a.wrapping_add(1),
            3 => a.wrapping_sub(1),
            4 => a ^ 1 << r.below(64),
            5 => a ^ 0xffff_ffff_0000_0000,
            _ => r.edgy(64),
        };
        rig.set_x(ra, a);
        rig.set_x(rb, b);
        let w = match r.below(8) {
            0 | 1 => {
                let off = match r.below(4) {
                    0 => r.pick(&[0i64, 2, 4, -2, -4, 0xffffe, -0x100000]),
                    1 => 2 << r.below(19),
                    2 => -(2 << r.below(20)),
                    _ => r.below(0x10_0000) as i64 * 2 - 0x10_0000,
                };
                let off = if off == 0x10_0000 { 0 } else { off };
                enc(Op::Jal, rd, 0, 0, off)
            }
            2 | 3 => {
                let imm = imm12(r);
                if r.bool() {
                    let t = base + r.below(0x4000);
                    rig.set_x(ra, t.wrapping_sub(imm as u64));
                }
                enc(Op::Jalr, rd, ra, 0, imm)
            }
            _ => {
                let off = match r.below(4) {
                    0 => r.pick(&[0i64, 2, 4, -2, -4, 4094, -4096]),
                    1 => 2 << r.below(11),
                    2 => -(2 << r.below(12)),
                    _ => r.below(0x1000) as i64 * 2 - 0x1000,
                };
                let off = if off == 4096 { 0 } else { off };
                enc(r.pick(&BRANCHES), 0, ra, rb, off)
            }
        };
        let pc = slot(&rig, r, 4);
        exec_word(&mut rig, pc, w, 4)?;
        let i = decode32(w, rv64).unwrap();
        cx.st.case(key(&[w as u64, a, b, pc]));
        cx.st.add(if i.op == Op::Jal || i.op == Op::Jalr { "jumps" } else if rig.m.pc == pc + 4 { "branches not taken (or to the next instruction)" } else { "branches taken" }, 1);
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        gens: vec![Gen { name: "jumps and branches", weight: 1, run: jumps }],
        quick: 192000,
        thorough: 1_500_000,
        rule: "one case = one executed JAL, JALR or branch with equal, adjacent, sign- and upper-half-differing operands, offsets at every power of two and both extremes (self-jumps included), rd=rs1 aliasing, odd JALR sums and instructions at both ends of DRAM (32-bit wrap on RV32); distinct by (word, operands, pc)",
        assumptions: &["the reference model in /verif/harness/src/model.rs is right"],
        must: &["jumps", "branches taken", "branches not taken (or to the next instruction)"],
    }
}

// ---- C03 ---------------------------------------------------------------------------------

fn muldiv(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    for _ in 0..150 {
        let op = if rv64 && r.chance(2, 5) { r.pick(&MULDIV64) } else { r.pick(&MULDIV) };
        let (rd, ra, rb) = regs3(r);
        rig.set_prv(r.pick(&[3, 3, 1, 0]));
        let a = match r.below(4) {
            0 => r.pick(&[0u64, 1, u64::MAX, 1 << 63, 1 << 31, 0xffff_ffff_8000_0000, 0x7fff_ffff, i64::MAX as u64, 0x1234_5678_8000_0000, 0x8000_0000]),
            _ => r.edgy(64),
        };
        let b = match r.below(5) {
            0 => r.pick(&[0u64, 1, u64::MAX, 2, 1 << 63, 1 << 31, 0xffff_ffff, 0x7fff_ffff_0000_0000, 0x1234_5678_0000_0000, 0xdead_beef_ffff_ffff, 0x1_0000_0000]),
            1 => a,
            _ => r.edgy(64),
        };
        rig.set_x(ra, a);
        rig.set_x(rb, b);
        let pc = slot(&rig, r, 4);
        exec_word(&mut rig, pc, enc(op, rd, ra, rb, 0), 4)?;
        if b == 0 {
            cx.st.count("zero divisors or factors");
        }
        cx.st.case(key(&[op as u64, a, b, (ra == rb) as u64, (rd == 0) as u64, rv64 as u64]));
    }
    rig.finish()?;
    let _ = base;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        gens: vec![Gen { name: "multiply and divide", weight: 1, run: muldiv }],
        quick: 192000,
        thorough: 1_500_000,
        rule: "one case = one executed M-extension instruction; operands biased to 0, 1, -1, the most negative 32- and 64-bit values, values whose low or high half alone is special, and equal operands; rd/rs aliasing and x0; distinct by (op, operands, aliasing, XLEN)",
        assumptions: &["the reference model in /verif/harness/src/model.rs is right"],
        must: &["zero divisors or factors"],
    }
}

// ---- C04 ---------------------------------------------------------------------------------

/// All 65536 halfwords, in blocks, each from several states.
fn compressed(cx: &mut Ctx) -> Result<(), Violation> {
    let k = cx.index();
    let rv64 = k & 1 == 1;
    let block = (k >> 1) % 256;
    let base = if cx.rng.chance(1, 8) { 0x4000_0000 } else { 0x8000_0000 };
    let mut rig = cx.rig(rv64, base);
    let mut s = scene(&mut rig, &mut cx.rng, Opts { translation: 0, pmp: 0, triggers: 0, ints: 0, ..OPTS });
    if !rig.start() {
        rejected(cx, &mut rig);
        return Ok(());
    }
    s.o.steer = 16;
    for h in 0..256u32 {
        let h = (block << 8) as u32 | h;
        if h & 3 == 3 {
            continue;
        }
        let r = &mut cx.rng;
        let i = decode16(h as u16, rv64);
        for rep in 0..3 {
            rig.set_prv(r.pick(&[3, 1, 0]));
            for x in 1..32 {
                if r.chance(1, 4) {
                    let v = r.edgy(64);
                    rig.set_x(x, v);
                }
            }
            let pc = slot(&rig, r, 2);
            rig.poke(pc, &(h as u16).to_le_bytes());
            rig.set_pc(pc);
            s.steer(&mut rig, r);
            if let Next::Open = rig.step()? {
                continue;
            }
            cx.st.case(if i.is_some() { key(&[h as u64, rv64 as u64, rep]) } else { None });
            if i.is_some() {
                cx.st.count("valid compressed instructions executed");
            }
        }
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        gens: vec![Gen { name: "all halfwords", weight: 1, run: compressed }],
        quick: 512 * 96,
        thorough: 512 * 600,
        rule: "all 49152 16-bit words x RV32/RV64 are enumerated over and over (a block of 256 per trial), each executed 3 times per pass from a random state (registers, mode, pc at page ends and ends of DRAM; loads/stores steered at memory, devices, holes and misaligned addresses) and compared with the reference, whose decoder expands the halfword to the 32-bit instruction; non-trivial = valid C instruction; distinct by (halfword, XLEN, repetition)",
        assumptions: &["the reference decoder and model are right"],
        must: &["valid compressed instructions executed"],
    }
}

// ---- C05 ---------------------------------------------------------------------------------

fn mem_addr(rig: &Rig, r: &mut Rng) -> u64 {
    let base = rig.m.mem.base;
    match r.below(10) {
        0 => base + DRAM_SIZE - 1 - r.below(32),
        1 => base + DATA + r.below(32),
        2 => base + DATA + 0x1000 - 16 + r.below(32),
        3 => base + r.below(16),
        4 => base + r.below(DRAM_SIZE),
        _ => base + DATA + r.below(0x100),
    }
}

fn loads_stores(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    let mut window = base + DATA + r.below(64) * 8;
    for n in 0..200 {
        rig.set_prv(r.pick(&[3, 3, 1, 0]));
        let store = r.bool();
        let op = match (store, rv64) {
            (true, true) => r.pick(&STORES64),
            (true, false) => r.pick(&STORES),
            (false, true) => r.pick(&LOADS64),
            (false, false) => r.pick(&LOADS),
        };
        if n % 40 == 0 {
            window = mem_addr(&rig, r) & !7;
        }
        // mostly the same few bytes in different widths
        let mut a = if r.chance(2, 3) { window.wrapping_add(r.below(24)) } else { mem_addr(&rig, r) };
        if !r.chance(1, 6) {
            a &= !(size_of(op) - 1);
        }
        let (rd, ra, rb) = regs3(r);
        let ra = if ra == 0 { 9 } else { ra };
        let imm = imm12(r);
        let v = r.edgy(64);
        rig.set_x(rb, v);
        rig.set_x(ra, a.wrapping_sub(imm as u64));
        let pc = base + CODE + r.below(0x700) * 4;
        exec_word(&mut rig, pc, enc(op, rd, ra, rb, imm), 4)?;
        cx.st.case(key(&[op as u64, a, rb as u64 ^ ra as u64, rig.m.x(rd)]));
        cx.st.count(if a % size_of(op) != 0 { "misaligned" } else if store { "stores" } else { "loads" });
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        gens: vec![Gen { name: "loads and stores", weight: 1, run: loads_stores }],
        quick: 120000,
        thorough: 1_000_000,
        rule: "one case = one executed load or store; addresses revisit a small window in all widths (so loads read bytes of earlier stores of other widths), plus both ends of DRAM, page ends, random DRAM and misaligned ones; after each store 16 bytes on either side are compared, at the end of each trial all touched pages, and at the end of each worker every host page backing guest memory (stray writes); distinct by (op, address, registers, value)",
        assumptions: &["the reference model is right", "for addresses both misaligned and out of memory either exception is accepted"],
        must: &["loads", "stores", "misaligned", "pages swept for stray writes"],
    }
}

// ---- C06 ---------------------------------------------------------------------------------

fn atomics(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    let mut addrs = vec![base + DATA, base + DATA + 8, base + DATA + 4, base + DATA + 0x1000, base + DATA + 0x40];
    addrs.push(base + DRAM_SIZE - 8);
    addrs.push(device_addr(r, base));
    addrs.push(base + DATA + 1 + r.below(7));
    for a in addrs.clone() {
        if rig.m.mem.contains(a, 16) {
            let v = r.edgy(64).to_le_bytes();
            rig.poke(a & !7, &v);
        }
    }
    let hot = r.pick(&addrs[..6]);
    let mut lr: Option<u64> = None;
    for _ in 0..120 {
        if r.chance(1, 30) {
            rig.tick(50)?;
        }
        rig.set_prv(r.pick(&[3, 3, 1, 0]));
        let (rd, ra, rb) = regs3(r);
        let ra = if ra == 0 { 10 } else { ra };
        let mut a = if r.chance(1, 2) { hot } else { r.pick(&addrs) };
        let v = r.edgy(64);
        let (w, kind) = match r.below(10) {
            0..=2 => {
                let op = if rv64 && r.bool() { Op::LrD } else { Op::LrW };
                if r.chance(9, 10) {
                    a &= !(size_of(op) - 1);
                }
                (enc(op, rd, ra, 0, 0), "load-reserved")
            }
            3..=5 => {
                let op = if rv64 && r.bool() { Op::ScD } else { Op::ScW };
                if let (Some(l), true) = (lr, r.chance(2, 3)) {
                    a = l;
                }
                (enc(op, rd, ra, rb, 0), "store-conditionals")
            }
            6..=8 => {
                let op = if rv64 && r.bool() { r.pick(&AMOS64) } else { r.pick(&AMOS32) };
                if r.chance(7, 8) {
                    a &= !(size_of(op) - 1);
                }
                (enc(op, rd, ra, rb, 0), "AMOs")
            }
            _ => (enc(r.pick(&[Op::Sw, Op::Lw, Op::Ecall, Op::Add]), rd, ra, rb, 0), "others between"),
        };
        let w = if w & 0x7f == 0x2f { w | (r.below(4) as u32) << 25 } else { w };
        rig.set_x(rb, v);
        rig.set_x(ra, a);
        let pc = base + CODE + r.below(0x700) * 4;
        rig.poke(pc, &w.to_le_bytes());
        rig.set_pc(pc);
        let mut ok = None;
        if let Next::Go(out) = rig.step()? {
            if out.traps.is_empty() && kind == "load-reserved" {
                lr = Some(a);
            }
            if out.traps.is_empty() && kind == "store-conditionals" && rd != 0 {
                ok = Some(rig.m.x(rd) == 0);
            }
            if !out.traps.is_empty() {
                cx.st.count("trapped");
            }
        }
        match ok {
            Some(true) => cx.st.count("store-conditionals that succeeded"),
            Some(false) => cx.st.count("store-conditionals that failed"),
            None => (),
        }
        cx.st.count(kind);
        cx.st.case(key(&[w as u64, a, v, ok.is_some() as u64]));
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

/// LR directly followed by SC must succeed, and a second SC must fail, wherever they are.
fn lr_sc_pairs(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let r = &mut cx.rng;
    for _ in 0..40 {
        let wide = rv64 && r.bool();
        let (lr, sc) = if wide { (Op::LrD, Op::ScD) } else { (Op::LrW, Op::ScW) };
        let a = match r.below(3) {
            0 => base + DRAM_SIZE - 8 - 8 * r.below(4),
            1 => base + r.below(DRAM_SIZE) / 8 * 8,
            _ => base + DATA + 4 * r.below(64),
        } & !(if wide { 7 } else { 3 });
        rig.set_prv(r.pick(&[3, 1, 0]));
        let pc = base + CODE + r.below(0x700) * 4;
        let (x, y, v, d, e) = (10, 11, 12, 13, 14);
        let val = r.edgy(64);
        rig.set_x(x, a);
        rig.set_x(y, a ^ if r.bool() { 0 } else { 8 });
        rig.set_x(v, val);
        let seq = match r.below(5) {
            0 => vec![enc(lr, d, x, 0, 0), enc(sc, e, x, v, 0), enc(sc, e, x, v, 0)],
            1 => vec![enc(lr, d, x, 0, 0), enc(lr, d, y, 0, 0), enc(sc, e, x, v, 0), enc(sc, e, y, v, 0)],
            2 => vec![enc(lr, d, x, 0, 0), enc(sc, e, y, v, 0), enc(sc, e, x, v, 0)],
            3 => vec![enc(sc, e, x, v, 0), enc(lr, d, x, 0, 0), enc(sc, e, x, v, 0)],
            _ => vec![enc(lr, x, x, 0, 0), enc(sc, v, y, v, 0), enc(sc, y, y, v, 0)],
        };
        let mut bytes = vec![];
        for w in &seq {
            bytes.extend(w.to_le_bytes());
        }
        rig.poke(pc, &bytes);
        rig.set_pc(pc);
        for _ in &seq {
            rig.step()?;
        }
        cx.st.count("LR/SC sequences");
        cx.st.case(key(&[a, val, seq.len() as u64, wide as u64]));
    }
    rig.finish()?;
    cx.put(rig);
    Ok(())
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        gens: vec![
            Gen { name: "mixed atomics on few addresses", weight: 180, run: atomics },
            Gen { name: "LR/SC sequences", weight: 60, run: lr_sc_pairs },
            Gen { name: "reservations over whole runs of the binary", weight: 1, run: super::e2e::reservations },
        ],
        quick: 160000,
        thorough: 1_200_000,
        rule: "one case = one executed AMO, LR, SC or intervening instruction on a handful of addresses (same word, neighbouring words, end of DRAM, device, misaligned), any rd/rs1/rs2 aliasing, any mode, timer ticks in between; the reference allows only the outcomes the property allows (an SC to the address and of the width of the LR must succeed if neither an SC nor a tick came in between, one without matching reservation must fail, one of another width may do either and must then be consistent with rd); and whole runs of the binary across its own ticks, traps and host requests; distinct by (word, address, value)",
        assumptions: &["the reference model is right", "the reservation is of a physical address, and survives traps and stores"],
        must: &["AMOs", "store-conditionals that succeeded", "store-conditionals that failed", "trapped", "LR/SC sequences", "LR/SC pairs in whole runs", "ticks in whole runs"],
    }
}

// ---- C07 ---------------------------------------------------------------------------------

/// Every combination of opcode, funct3 and bits 31:20, with random rd and rs1.
fn decode_blocks(cx: &mut Ctx) -> Result<(), Violation> {
    let k = cx.index();
    let rv64 = k & 1 == 1;
    let block = (k >> 1) % 1024; // bits 6:2 and bits 31:27
    let base = 0x8000_0000;
    let mut rig = cx.rig(rv64, base);
    let mut s = scene(&mut rig, &mut cx.rng, Opts { translation: 0, pmp: 0, triggers: 0, ints: 0, devices: 0, wild: 0, ..OPTS });
    if !rig.start() {
        rejected(cx, &mut rig);
        return Ok(());
    }
    s.o.steer = 12;
    let (opc, hi) = (block & 31, block >> 5);
    for k in 0..1024u64 {
        let (f3, mid) = (k & 7, k >> 3);
        let r = &mut cx.rng;
        let (rd, rs1) = match r.below(4) {
            0 => (0, 0),
            1 => (reg(r) as u64, 0),
            _ => (reg(r) as u64, reg(r) as u64),
        };
        let w = (hi << 27 | mid << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc << 2 | 3) as u32;
        one_word(cx, &mut rig, &mut s, w, 4)?;
    }
    rig.finish()?;
    cx.put(rig);
    Ok(())
}

fn one_word(cx: &mut Ctx, rig: &mut Rig, s: &mut Scene, w: u32, n: usize) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let base = rig.m.mem.base;
    rig.set_prv(r.pick(&[3, 3, 1, 0]));
    let pc = base + CODE + r.below(0xff0) * 4;
    rig.poke(pc, &w.to_le_bytes()[..n]);
    rig.set_pc(pc);
    s.steer(rig, r);
    let valid = if n == 4 { decode32(w, rig.m.rv64).is_some() } else { decode16(w as u16, rig.m.rv64).is_some() };
    match rig.step()? {
        Next::Open => cx.st.count("words whose effect the specification leaves open"),
        Next::Go(_) => {
            cx.st.case(key(&[w as u64, rig.m.rv64 as u64]));
            cx.st.count(if valid { "valid words" } else { "rejected words" });
        }
    }
    Ok(())
}

fn decode_random(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    let mut s = scene(&mut rig, &mut cx.rng, Opts { translation: 0, pmp: 0, triggers: 0, ints: 0, devices: 0, wild: 0, ..OPTS });
    if !rig.start() {
        rejected(cx, &mut rig);
        return Ok(());
    }
    for _ in 0..300 {
        let r = &mut cx.rng;
        let (w, n) = match r.below(4) {
            0 => (r.u64() as u32 | 3, 4),
            1 => {
                let h = r.u64() as u32;
                if h & 3 == 3 { (h, 4) } else { (h & 0xffff, 2) }
            }
            2 => {
                // SYSTEM and MISC-MEM words
                let opc = r.pick(&[0x73u32, 0x73, 0x0f, 0x2f]);
                let f12 = r.pick(&[0u32, 1, 2, 0x102, 0x302, 0x105, 0x120, 0x002, 0x202, 0x7b2, 0x104]) ^ if r.bool() { 0 } else { 1 << r.below(12) };
                let (rd, rs1) = if r.bool() { (0, 0) } else { (r.below(32) as u32, r.below(32) as u32) };
                (f12 << 20 | rs1 << 15 | r.pick(&[0u32, 0, 0, 1, 4, 7]) << 12 | rd << 7 | opc, 4)
            }
            _ => {
                let k = pick_mix(r, MIX_ALL);
                let (w, n) = word_of(r, k, rv64);
                if n == 2 {
                    let h = w as u16 ^ 1 << r.below(16);
                    if h & 3 == 3 { (h as u32 | (r.u64() as u32) << 16, 4) } else { (h as u32, 2) }
                } else {
                    (w ^ 1 << (2 + r.below(30)), 4)
                }
            }
        };
        one_word(cx, &mut rig, &mut s, w, n)?;
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        gens: vec![
            Gen { name: "opcode/funct3/31:20 enumeration", weight: 3, run: decode_blocks },
            Gen { name: "random and one-bit-off words", weight: 1, run: decode_random },
        ],
        quick: 2048 * 20,
        thorough: 2048 * 500,
        rule: "one case = one instruction word executed from a random state: the combinations of opcode, funct3 and bits 31:20 (2^20 words x RV32/RV64) are enumerated in blocks with random rd/rs1 (zero fields over-weighted), plus random words, halfwords, SYSTEM words and valid words with one bit flipped; behaviour (effect of the decoded instruction, or illegal-instruction with the word as trap value) is compared with the reference; distinct by (word, XLEN)",
        assumptions: &["decoding is judged by what executing the word does", "reserved-but-ignorable FENCE fields follow the specification (ignored)"],
        must: &["valid words", "rejected words"],
    }
}

// ---- C08 ---------------------------------------------------------------------------------

fn csr_access(cx: &mut Ctx) -> Result<(), Violation> {
    let k = cx.index();
    let rv64 = k & 1 == 1;
    let block = (k >> 1) % 64;
    let base = 0x8000_0000;
    let mut rig = cx.rig(rv64, base);
    for sub in 0..2 {
        rig.begin();
        let r = &mut cx.rng;
        let xm = rig.m.xmask();
        let m = &mut rig.m;
        for i in 1..32 {
            m.regs[i] = r.edgy(64) & xm;
        }
        m.c.mstatus = random_mstatus(r) & !(MPRV | SIE | MIE);
        m.c.pmpcfg[0] = 0x1f;
        m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
        m.c.mtvec = base + 0x100;
        m.c.stvec = base + 0x200;
        m.c.mcounteren = r.below(8);
        m.c.scounteren = r.below(8);
        m.c.medeleg = r.u64() & MEDELEG_MASK;
        m.c.mscratch = r.u64() & xm;
        m.c.sscratch = r.u64() & xm;
        m.c.satp = if r.bool() { 0 } else { r.u64() & if rv64 { 0xfff } else { 0xfff } };
        m.pc = base + CODE;
        if !rig.start() {
            rejected(cx, &mut rig);
            return Ok(());
        }
        for j in 0..32u16 {
            let n = (block * 64) as u16 + sub * 32 + j;
            for prv in [0u64, 1, 3] {
                let r = &mut cx.rng;
                access(&mut rig, r, &mut cx.st, n, prv)?;
            }
        }
        // the ones the rules are about, in every mode
        for _ in 0..20 {
            let r = &mut cx.rng;
            let n = match r.below(3) {
                0 => r.pick(&[csr::SATP, csr::TIME, csr::TIMEH, 0xc00, 0xc02, csr::SSTATUS, csr::MSTATUS, csr::MHARTID]),
                _ => csr_num(r, rv64),
            };
            let prv = r.pick(&[0, 1, 1, 3]);
            access(&mut rig, r, &mut cx.st, n, prv)?;
        }
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

fn access(rig: &mut Rig, r: &mut Rng, st: &mut Stats, n: u16, prv: u64) -> Result<(), Violation> {
    let base = rig.m.mem.base;
    let op = r.pick(&CSR_OPS);
    let rd = if r.chance(1, 3) { 0 } else { reg(r) };
    let rs1 = if r.bool() { 0 } else { reg(r) };
    if rs1 != 0 && !matches!(op, Op::Csrrwi | Op::Csrrsi | Op::Csrrci) {
        // nothing that changes what the following accesses may do too much
        let v = match n {
            csr::MSTATUS | csr::SSTATUS => random_mstatus(r) & !(MPRV | SIE | MIE),
            csr::MTVEC | csr::STVEC => base + 0x100,
            0x3a0..=0x3a3 => 0x1f,
            csr::MIE | csr::SIE => 0,
            csr::TDATA1 => 0,
            csr::SATP => r.below(0x1000),
            csr::MIDELEG => r.u64() & S_INTS,
            _ => r.edgy(64),
        };
        rig.set_x(rs1, v);
    }
    rig.set_prv(prv);
    let pc = base + CODE + r.below(0x700) * 4;
    let w = enc(op, rd, rs1, 0, n as i64);
    rig.poke(pc, &w.to_le_bytes());
    rig.set_pc(pc);
    let writes = matches!(op, Op::Csrrw | Op::Csrrwi) || rs1 != 0;
    match rig.step()? {
        Next::Open => st.count("accesses the property does not decide"),
        Next::Go(out) => {
            let illegal = !out.traps.is_empty();
            st.count(if illegal { "refused accesses" } else { "permitted accesses" });
            let fl = rig.m.c.mcounteren << 8 | rig.m.c.scounteren << 4 | (rig.m.c.mstatus & TVM != 0) as u64;
            st.case(key(&[n as u64, prv, op as u64, writes as u64, fl, rig.m.rv64 as u64]));
        }
    }
    Ok(())
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        gens: vec![Gen { name: "all CSR numbers", weight: 1, run: csr_access }],
        quick: 128 * 800,
        thorough: 128 * 4000,
        rule: "one case = one executed CSR instruction; all 4096 CSR numbers x U/S/M x RV32/RV64 are enumerated over and over with random operation, zero/non-zero source and destination, mcounteren, scounteren and TVM, with extra weight on satp, counters and existing CSRs; refused exactly as the property says, state compared after each; distinct by (number, mode, operation, writes, counter enables, TVM, XLEN)",
        assumptions: &["accesses to CSR numbers outside the standard M/S set that privilege and read-only rules permit are not judged", "counters other than cycle, time, instret are not judged below M-mode"],
        must: &["refused accesses", "permitted accesses"],
    }
}

// ---- C11 ---------------------------------------------------------------------------------

fn privileged(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    for _ in 0..6 {
        rig.begin();
        let r = &mut cx.rng;
        let xm = rig.m.xmask();
        let m = &mut rig.m;
        for i in 1..32 {
            m.regs[i] = r.edgy(64) & xm;
        }
        let code: Vec<u64> = (0..8).map(|_| base + CODE + r.below(0xe00) * 2).collect();
        m.c.mstatus = random_mstatus(r);
        m.c.pmpcfg[0] = 0x1f;
        m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
        m.c.mtvec = vec_value(r, &code);
        m.c.stvec = vec_value(r, &code);
        m.c.mepc = if r.chance(1, 4) { r.edgy(64) & xm & !1 } else { r.pick(&code) };
        m.c.sepc = if r.chance(1, 4) { r.edgy(64) & xm & !1 } else { r.pick(&code) };
        m.c.medeleg = r.u64() & MEDELEG_MASK;
        m.prv = r.pick(&[0, 1, 3]);
        m.pc = base + CODE;
        if !rig.start() {
            rejected(cx, &mut rig);
            return Ok(());
        }
        // a chain of returns and traps
        for _ in 0..12 {
            let r = &mut cx.rng;
            let (rd, a, b) = regs3(r);
            let op = r.pick(&[Op::Mret, Op::Mret, Op::Sret, Op::Sret, Op::Wfi, Op::Ecall, Op::Ebreak, Op::SfenceVma, Op::Addi, Op::FenceI]);
            let st = rig.m.c.mstatus;
            let pc = rig.m.pc;
            let pc = if rig.m.mem.contains(pc, 4) && r.bool() { pc & !1 } else { r.pick(&code) };
            let w = enc(op, rd, a, b, 5);
            rig.poke(pc, &w.to_le_bytes());
            rig.set_pc(pc);
            let prv = rig.m.prv;
            if let Next::Go(out) = rig.step()? {
                cx.st.case(key(&[op as u64, prv, st, rv64 as u64]));
                cx.st.count(match (op, out.traps.is_empty()) {
                    (Op::Mret, true) => "MRET done",
                    (Op::Mret, false) => "MRET refused",
                    (Op::Sret, true) => "SRET done",
                    (Op::Sret, false) => "SRET refused",
                    (Op::SfenceVma, true) => "SFENCE.VMA done",
                    (Op::SfenceVma, false) => "SFENCE.VMA refused",
                    (Op::Ecall, _) => "ECALL",
                    _ => "others",
                });
            }
            if r.chance(1, 8) {
                rig.set_prv(r.pick(&[0, 1, 3]));
            }
        }
        rig.finish()?;
    }
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        gens: vec![Gen { name: "returns, ECALL, WFI, SFENCE.VMA", weight: 1, run: privileged }],
        quick: 168000,
        thorough: 1_000_000,
        rule: "one case = one executed privileged instruction in a chain from random mstatus (all of SIE, MIE, SPIE, MPIE, SPP, MPP, MPRV, SUM, MXR, TVM, TW, TSR), delegation, xepc and mode; distinct by (operation, mode, mstatus, XLEN)",
        assumptions: &["WFI in U-mode or with TW=1 may trap or retire", "MPRV after a return to a less privileged mode is not judged"],
        must: &["MRET done", "MRET refused", "SRET done", "SRET refused", "SFENCE.VMA done", "SFENCE.VMA refused", "ECALL"],
    }
}

// ---- C10, C12 -----------------------------------------------------------------------------

fn traps(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    for _ in 0..8 {
        rig.begin();
        let r = &mut cx.rng;
        let xm = rig.m.xmask();
        let m = &mut rig.m;
        for i in 1..32 {
            m.regs[i] = r.edgy(64) & xm;
        }
        m.c.mstatus = random_mstatus(r) & !MPRV;
        m.c.pmpcfg[0] = 0x1f;
        m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
        // vectors anywhere, wrapping included
        m.c.mtvec = r.edgy(64) & xm & !3 | r.below(2);
        m.c.stvec = r.edgy(64) & xm & !3 | r.below(2);
        m.c.mepc = r.edgy(64) & xm & !1;
        m.c.sepc = r.edgy(64) & xm & !1;
        m.c.mcause = r.pick(&[0, 2, 5, 8]);
        m.c.scause = r.pick(&[0, 2, 5, 8]);
        m.c.mtval = r.edgy(64) & xm;
        m.c.stval = r.edgy(64) & xm;
        m.c.medeleg = r.u64() & MEDELEG_MASK;
        m.c.mideleg = r.u64() & S_INTS;
        let ints = r.bool();
        if ints {
            m.c.mie = r.u64() & INTS;
            m.c.mip_sw = r.u64() & 0x22;
            m.msip = r.below(2);
            m.mtimecmp = r.pick(&[0, u64::MAX]);
        }
        m.prv = r.pick(&[0, 1, 3]);
        m.pc = base + CODE;
        if !rig.start() {
            rejected(cx, &mut rig);
            return Ok(());
        }
        for _ in 0..4 {
            let r = &mut cx.rng;
            let pc = slot(&rig, r, 4);
            let (rd, a, b) = regs3(r);
            let ra = if a == 0 { 10 } else { a };
            let w = match r.below(9) {
                0 => enc(Op::Ecall, 0, 0, 0, 0),
                1 => enc(Op::Ebreak, 0, 0, 0, 0),
                2 => 0x9002, // c.ebreak
                3 => r.pick(&[0xffff_ffffu32, 0, 0x0000_00ff, 0x7b20_0073]),
                4 => {
                    let op = r.pick(&LOADS);
                    let t = r.pick(&[base + DATA + 1, base - 8, base + DRAM_SIZE, 0, 0x0200_0001]);
                    rig.set_x(ra, t);
                    enc(op, rd, ra, 0, 0)
                }
                5 => {
                    let op = r.pick(&STORES);
                    let t = r.pick(&[base + DATA + 1, base - 8, base + DRAM_SIZE, 0, 0x1000]);
                    rig.set_x(ra, t);
                    enc(op, 0, ra, b, 0)
                }
                6 => {
                    let t = r.pick(&[base + DATA + 1, base - 8, base + DRAM_SIZE, 0]);
                    rig.set_x(ra, t);
                    let op = r.pick(&[Op::LrW, Op::ScW, Op::AmoaddW, Op::AmomaxuW]);
                    enc(op, rd, ra, b, 0)
                }
                7 => {
                    let t = r.edgy(64) & xm;
                    rig.set_x(ra, t);
                    enc(Op::Jalr, rd, ra, 0, 0)
                }
                _ => enc(Op::Addi, rd, ra, 0, 1),
            };
            if w == 0x9002 {
                rig.poke(pc, &(w as u16).to_le_bytes());
            } else {
                rig.poke(pc, &w.to_le_bytes());
            }
            let prv = if r.chance(1, 3) { r.pick(&[0, 1, 3]) } else { rig.m.prv };
            rig.set_prv(prv);
            rig.set_pc(pc);
            let before = (rig.m.c.mstatus, rig.m.c.medeleg, rig.m.c.mideleg);
            match rig.step()? {
                Next::Go(out) => {
                    if let Some((c, _)) = out.traps.first() {
                        let to = rig.m.prv;
                        let vec = (if to == 3 { rig.m.c.mtvec } else { rig.m.c.stvec }) & 1;
                        cx.st.name(format!("{} {c} from {prv} to {to}{}", if out.interrupt { "interrupt" } else { "exception" }, if vec == 1 { " vectored" } else { "" }));
                        cx.st.case(key(&[*c, out.interrupt as u64, prv, to, vec, before.0, rv64 as u64]));
                        cx.st.count(if out.interrupt { "interrupts taken" } else { "exceptions taken" });
                    } else if w & 0x7f == 0x67 {
                        // the jump went somewhere that may not be executable
                        let _ = rig.step()?;
                    }
                }
                Next::Open => (),
            }
        }
        rig.finish()?;
    }
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        gens: vec![
            Gen { name: "single traps", weight: 6, run: traps },
            Gen { name: "programs", weight: 1, run: super::program::trap_programs },
        ],
        quick: 192000,
        thorough: 1_000_000,
        rule: "one case = one trap: every exception cause the machine can raise without translation and every interrupt, from U/S/M, with random status, delegation, direct and vectored vectors at any address (wrapping included), epc at both ends of DRAM, plus page-fault and PMP causes in random programs; mode, pc, all trap CSRs of both modes, mstatus and registers compared; distinct by (cause, kind, from, to, mode of vector, mstatus, XLEN)",
        assumptions: &["EBREAK's trap value may be its address or 0", "misaligned and inaccessible at once: either exception"],
        must: &["interrupts taken", "exceptions taken"],
    }
}

fn interrupts(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    for _ in 0..8 {
        rig.begin();
        let r = &mut cx.rng;
        let xm = rig.m.xmask();
        let m = &mut rig.m;
        for i in 1..32 {
            m.regs[i] = r.edgy(64) & xm;
        }
        m.c.mstatus = random_mstatus(r) & !MPRV;
        m.c.pmpcfg[0] = 0x1f;
        m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
        let code: Vec<u64> = (0..8).map(|_| base + CODE + r.below(0x700) * 4).collect();
        m.c.mtvec = vec_value(r, &code);
        m.c.stvec = vec_value(r, &code);
        m.c.mideleg = r.pick(&[0, S_INTS, 2, 0x20, 0x200, 0x222, r.clone().u64() & S_INTS]);
        m.c.mie = if r.bool() { INTS } else { r.u64() & INTS };
        m.c.mip_sw = r.u64() & 0x22;
        m.c.mcounteren = 7;
        m.c.scounteren = 7;
        m.msip = r.below(2);
        m.mtime = r.edgy(64);
        m.mtimecmp = match r.below(5) {
            0 => m.mtime,
            1 => m.mtime.wrapping_add(1),
            2 => m.mtime.wrapping_sub(1),
            3 => u64::MAX,
            _ => r.edgy(64),
        };
        m.prv = r.pick(&[0, 1, 3]);
        m.pc = r.pick(&code);
        if !rig.start() {
            rejected(cx, &mut rig);
            return Ok(());
        }
        // PLIC outputs, set up through its registers
        if r.bool() {
            for ctx in 0..2u64 {
                let en = r.u64() as u32;
                bus_w32(&mut rig, 0x0c00_2000 + 0x80 * ctx, en)?;
                let t = r.below(4) as u32;
                bus_w32(&mut rig, 0x0c20_0000 + 0x1000 * ctx, t)?;
            }
            for _ in 0..4 {
                let id = 2 + r.below(30) as u32;
                let p = r.below(6) as u32;
                bus_w32(&mut rig, 0x0c00_0000 + 4 * id as u64, p)?;
                rig.level(id, r.bool())?;
            }
        }
        for _ in 0..10 {
            let r = &mut cx.rng;
            if r.chance(1, 6) {
                rig.tick(r.clone().below(4))?;
            }
            if r.chance(1, 8) {
                rig.level(2 + r.below(30) as u32, r.bool())?;
            }
            let pc = rig.m.pc;
            if rig.m.mem.contains(pc, 4) && rig.m.mem.read(pc, 2) == 0 || r.chance(1, 4) {
                // something that may change what is pending
                let pc = if rig.m.mem.contains(pc, 4) { pc } else { r.pick(&code) };
                let (rd, a, _) = regs3(r);
                let a = if a == 0 { 10 } else { a };
                let w = match r.below(8) {
                    0 => enc(Op::Csrrs, rd, 0, 0, r.pick(&[csr::MIP, csr::SIP, csr::MIE, csr::SIE]) as i64),
                    1 => enc(Op::Csrrc, rd, a, 0, r.pick(&[csr::MIP, csr::SIP]) as i64),
                    2 => {
                        let v = r.u64() & !(1 << 9);
                        rig.set_x(a, v);
                        enc(Op::Csrrw, rd, a, 0, r.pick(&[csr::MIP, csr::SIP, csr::MIE, csr::SIE]) as i64)
                    }
                    3 => {
                        let v = random_mstatus(r) & !MPRV;
                        rig.set_x(a, v);
                        enc(Op::Csrrw, rd, a, 0, r.pick(&[csr::MSTATUS, csr::SSTATUS]) as i64)
                    }
                    4 => enc(r.pick(&[Op::Mret, Op::Sret, Op::Ecall, Op::Wfi]), 0, 0, 0, 0),
                    5 => {
                        rig.set_x(a, 0x0200_0000);
                        let v = r.below(2);
                        rig.set_x(11, v);
                        enc(Op::Sw, 0, a, 11, 0)
                    }
                    6 => {
                        rig.set_x(a, 0x0200_4000);
                        let v = rig.m.mtime.wrapping_add(r.below(3)).wrapping_sub(1);
                        rig.set_x(11, v);
                        enc(if rv64 { Op::Sd } else { Op::Sw }, 0, a, 11, 0)
                    }
                    _ => enc(Op::Addi, rd, a, 0, 1),
                };
                rig.poke(pc, &w.to_le_bytes());
                rig.set_pc(pc);
            }
            let (mip, mie, prv) = (rig.m.mip(), rig.m.c.mie, rig.m.prv);
            match rig.step()? {
                Next::Go(out) => {
                    if out.interrupt {
                        cx.st.count("interrupts taken");
                        let k = out.traps[0].0;
                        cx.st.name(format!("interrupt {k} among pending&enabled {:#x} in mode {prv}", mip & mie));
                    } else if mip & mie != 0 {
                        cx.st.count("steps with a pending enabled interrupt that must wait");
                    }
                    cx.st.case(key(&[mip & INTS, mie, prv, rig.m.c.mideleg, rig.m.c.mstatus & (MIE | SIE), rv64 as u64]));
                }
                Next::Open => {
                    let pc = rig.m.pc.wrapping_add(4);
                    rig.set_pc(pc);
                }
            }
        }
        rig.finish()?;
    }
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

/// A 32-bit write on the physical bus of both machines.
pub fn bus_w32(rig: &mut Rig, a: u64, v: u32) -> Result<bool, Violation> {
    match rig.m.bus_write(a, 4, v as u64) {
        Bus::Data { .. } => (),
        _ => return Ok(false),
    }
    let bus = &mut rig.emu.e.cpu.bus;
    match crate::emu::guarded(|| bus.store32(a, v as u64).is_ok()) {
        Ok(true) => Ok(true),
        Ok(false) => violation("the bus refused a device register write", format!("store32 {a:#x} <- {v:#x}")),
        Err(m) => violation("the bus panicked", format!("store32 {a:#x} <- {v:#x}: {m}")),
    }
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        gens: vec![Gen { name: "pending and enabled sets", weight: 1, run: interrupts }],
        quick: 168000,
        thorough: 1_000_000,
        rule: "one case = one step from a random combination of pending sources (msip, mtime against mtimecmp at -1/0/+1, both PLIC lines, SSIP, STIP), mie, mideleg, MIE/SIE and mode, with instructions and ticks that change them in between; the interrupt taken (or none) and mip/sip as the guest reads them are compared; distinct by (pending, enabled, mode, delegation, global enables, XLEN)",
        assumptions: &["machine interrupts are not delegated (delegating them is not judged)", "software writes of SEIP are not judged"],
        must: &["interrupts taken", "steps with a pending enabled interrupt that must wait"],
    }
}

// ---- C16 ---------------------------------------------------------------------------------

fn memory_map(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    rig.m.dev_touched = true;
    let end = base + DRAM_SIZE;
    let mrom = rig.m.mrom.clone();
    for n in 0..160u64 {
        let r = &mut cx.rng;
        rig.set_prv(r.pick(&[3, 3, 1, 0]));
        let edges = [
            0, 0x1000, 0x1000 + mrom.len() as u64, 0x0200_0000, 0x0201_0000, 0x0c00_0000, 0x0d00_0000,
            0x1000_0000, 0x1000_0100, base, end, 1 << 32, 0u64.wrapping_sub(8),
        ];
        let a = match r.below(6) {
            0 | 1 => r.pick(&edges).wrapping_add(r.below(20)).wrapping_sub(10),
            2 => r.edgy(if rv64 { 64 } else { 32 }),
            3 => {
                // upper address bits must not be ignored
                let d = device_addr(r, base);
                d ^ 1 << (16 + r.below(if rv64 { 48 } else { 16 }))
            }
            _ => device_addr(r, base),
        } & rig.xm();
        let (rd, ra, rb) = (12, 13, 14);
        let fetch = r.chance(1, 5);
        let op = match (r.bool(), rv64) {
            (true, true) => r.pick(&STORES64),
            (true, false) => r.pick(&STORES),
            (false, true) => r.pick(&LOADS64),
            (false, false) => r.pick(&LOADS),
        };
        let atomic = r.chance(1, 12);
        let size = size_of(op);
        let a = if r.chance(7, 8) { a & !(if fetch { 1 } else { size - 1 }) } else { a };
        let v = if a >> 28 <= 1 { device_value(r, a) } else { r.u64() };
        rig.set_x(rb, v);
        rig.set_x(ra, a);
        let pc = base + CODE + (n % 64) * 4;
        let w = if fetch {
            enc(Op::Jalr, rd, ra, 0, 0)
        } else if atomic {
            enc(r.pick(&[Op::AmoaddW, Op::LrW, Op::ScW, Op::AmoswapW]), rd, ra, rb, 0)
        } else {
            enc(op, rd, ra, rb, 0)
        };
        exec_word(&mut rig, pc, w, 4)?;
        let mut what = "no case";
        if fetch {
            // the fetch itself
            if let Next::Go(out) = rig.step()? {
                what = if out.inst.is_some() { "fetches served" } else { "fetches refused" };
            }
        } else {
            let served = rig.m.bus_serves(a, size, STORES64.contains(&op));
            what = if served { "accesses served" } else { "accesses refused" };
        }
        cx.st.count(what);
        cx.st.case(key(&[w as u64, a]));
    }
    // the state of every device, as the guest sees it
    rig.set_prv(3);
    let mut probes: Vec<(u64, Op)> = vec![(0x0200_0000, Op::Lw), (0x0200_4000, Op::Lw), (0x0200_4004, Op::Lw), (0x0200_bff8, Op::Lw)];
    for i in 1..32 {
        probes.push((0x0c00_0000 + 4 * i, Op::Lw));
    }
    probes.extend([(0x0c00_2000, Op::Lw), (0x0c00_2080, Op::Lw), (0x0c20_0000, Op::Lw), (0x0c20_1000, Op::Lw)]);
    for i in 0..8 {
        probes.push((0x1000_0000 + i, Op::Lbu));
    }
    let k = cx.rng.below(mrom.len() as u64 / 4);
    for i in 0..32 {
        probes.push((0x1000 + (k + i) % (mrom.len() as u64 / 4) * 4, Op::Lw));
    }
    for (a, op) in probes {
        rig.set_x(13, a);
        exec_word(&mut rig, base + CODE, enc(op, 12, 13, 0, 0), 4)?;
    }
    if rig.emu.rom() != *mrom {
        return violation("the guest changed the boot ROM", "boot ROM contents differ from those at start");
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        gens: vec![Gen { name: "map edges and devices", weight: 1, run: memory_map }],
        quick: 90000,
        thorough: 700_000,
        rule: "one case = one load, store, AMO or instruction fetch at an address around every region boundary, inside devices, in holes, and at device addresses with one upper bit flipped, in every width and mode; afterwards every device register and part of the boot ROM is read back through the guest and compared, and the boot ROM compared in full; distinct by (instruction, address)",
        assumptions: &["values of non-register CLINT/PLIC/UART offsets are not judged, only that they do not trap or touch anything else", "fetching from CLINT, PLIC or UART raises an access fault"],
        must: &["accesses served", "accesses refused", "fetches served", "fetches refused"],
    }
}

// ---- C18, C19, C20: devices ----------------------------------------------------------------

/// One guest load or store at a physical address (M-mode).
fn guest_access(rig: &mut Rig, store: bool, size: u64, a: u64, v: u64, signed: bool) -> Result<Option<u64>, Violation> {
    let rv64 = rig.m.rv64;
    let op = match (store, size) {
        (true, 1) => Op::Sb,
        (true, 2) => Op::Sh,
        (true, 4) => Op::Sw,
        (true, _) => Op::Sd,
        (false, 1) => if signed { Op::Lb } else { Op::Lbu },
        (false, 2) => if signed { Op::Lh } else { Op::Lhu },
        (false, 4) => if signed || !rv64 { Op::Lw } else { Op::Lwu },
        (false, _) => Op::Ld,
    };
    rig.set_x(14, v);
    rig.set_x(13, a);
    let pc = rig.m.mem.base + CODE + (rig.steps & 63) * 4;
    let go = exec_word(rig, pc, enc(op, 12, 13, 14, 0), 4)?;
    Ok(if go { Some(rig.m.x(12)) } else { None })
}

fn csr_read(rig: &mut Rig, n: u16) -> Result<Option<u64>, Violation> {
    let pc = rig.m.mem.base + CODE + (rig.steps & 63) * 4;
    let go = exec_word(rig, pc, enc(Op::Csrrs, 12, 0, 0, n as i64), 4)?;
    Ok(if go { Some(rig.m.x(12)) } else { None })
}

fn timer(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let _ = base;
    rig.set_prv(3);
    for _ in 0..120 {
        let r = &mut cx.rng;
        match r.below(10) {
            0 | 1 => {
                let inc = r.pick(&[50u64, 50, 50, 1, 0, 49, 1 << 31, 1 << 33]);
                rig.tick(inc)?;
                cx.st.count("timer ticks");
            }
            2..=4 => {
                let (a, size) = r.pick(&[(0x0200_bff8u64, 4u64), (0x0200_bffc, 4), (0x0200_bff8, 8), (0x0200_4000, 4), (0x0200_4004, 4), (0x0200_4000, 8), (0x0200_0000, 4)]);
                let size = if rv64 { size } else { 4 };
                let near = rig.m.mtime.wrapping_add(r.below(5)).wrapping_sub(2);
                let near = if a & 4 != 0 { near >> 32 } else { near };
                let v = if a == 0x0200_0000 { r.below(2) } else if r.bool() { near } else { r.edgy(64) };
                guest_access(&mut rig, true, size, a, v, false)?;
                cx.st.count("CLINT writes");
            }
            5..=7 => {
                let (a, size) = r.pick(&[(0x0200_bff8u64, 4u64), (0x0200_bffc, 4), (0x0200_bff8, 8), (0x0200_4000, 4), (0x0200_4004, 4), (0x0200_4000, 8), (0x0200_0000, 4)]);
                let size = if rv64 { size } else { 4 };
                let s = r.bool();
                guest_access(&mut rig, false, size, a, 0, s)?;
                cx.st.count("CLINT reads");
            }
            8 => {
                let n = if rv64 { csr::TIME } else { r.pick(&[csr::TIME, csr::TIMEH]) };
                csr_read(&mut rig, n)?;
                cx.st.count("time reads");
            }
            _ => {
                csr_read(&mut rig, csr::MIP)?;
                cx.st.count("mip reads");
            }
        }
        cx.st.case(key(&[rig.m.mtime, rig.m.mtimecmp, rig.m.msip, rig.m.x(12)]));
        // time and MTIP after every event
        let n = if rv64 { csr::TIME } else { r.pick(&[csr::TIME, csr::TIMEH]) };
        csr_read(&mut rig, n)?;
        csr_read(&mut rig, csr::MIP)?;
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        gens: vec![
            Gen { name: "CLINT registers, time, MTIP", weight: 4000, run: timer },
            Gen { name: "rate over whole runs of the emulator", weight: 20, run: super::e2e::timer_rate },
            Gen { name: "the clock over millions of instructions", weight: 1, run: super::e2e::long_clock },
        ],
        quick: 90000,
        thorough: 500_000,
        rule: "one case = one CLINT access, timer tick or time/mip read by guest code with mtime and mtimecmp near each other, near 32-bit carries and at extremes, in 32- and 64-bit accesses, with time/timeh and mip read by the guest after every event; plus whole runs of the emulator binary where the guest samples mtime at known instruction counts; distinct by (mtime, mtimecmp, msip, value read)",
        assumptions: &["msip is only written with 0 and 1", "increments beyond 50 are injected to reach carries"],
        must: &["timer ticks", "CLINT writes", "CLINT reads", "time reads", "mip reads"],
    }
}

fn plic(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let _ = base;
    rig.set_prv(3);
    rig.m.dev_touched = true;
    let ids: Vec<u64> = (0..4).map(|_| 1 + cx.rng.below(31)).collect();
    for _ in 0..160 {
        let r = &mut cx.rng;
        let id = if r.chance(7, 8) { r.pick(&ids) } else { 1 + r.below(31) };
        let ctx = r.below(2);
        let wide = rv64 && r.chance(1, 6);
        let size = if wide { 8 } else { 4 };
        match r.below(14) {
            0..=2 => {
                if id != 1 {
                    rig.level(id as u32, r.chance(2, 3))?;
                    cx.st.count("level changes");
                }
            }
            3 | 4 => {
                let a = 0x0c00_0000 + 4 * id & if wide { !7 } else { !0 };
                let v = device_value(r, a);
                guest_access(&mut rig, true, size, a, v, false)?;
            }
            5 | 6 => {
                let mut en = r.u64();
                if r.chance(3, 4) {
                    en |= ids.iter().fold(0, |a, i| a | 1 << i);
                }
                if r.chance(2, 3) {
                    en |= rig.m.plic.claimed[ctx as usize] as u64;
                }
                guest_access(&mut rig, true, 4, 0x0c00_2000 + 0x80 * ctx, en & 0xffff_ffff, false)?;
            }
            7 => {
                let v = r.below(5);
                guest_access(&mut rig, true, 4, 0x0c20_0000 + 0x1000 * ctx, v, false)?;
            }
            8 | 9 => {
                let v = guest_access(&mut rig, false, size, 0x0c20_0004 - if wide { 4 } else { 0 } + 0x1000 * ctx, 0, r.bool())?;
                cx.st.count(match v {
                    Some(v) if (if wide { v >> 32 } else { v }) != 0 => "claims that returned a source",
                    _ => "claims that returned 0",
                });
            }
            10 | 11 => {
                let cl = rig.m.plic.claimed[ctx as usize];
                let v = if cl != 0 && r.chance(2, 3) {
                    31 - cl.leading_zeros() as u64
                } else {
                    r.pick(&[id, 0, 31, 32, 1023, 1])
                };
                if wide {
                    let t = r.below(4);
                    guest_access(&mut rig, true, 8, 0x0c20_0000 + 0x1000 * ctx, v << 32 | t, false)?;
                } else {
                    guest_access(&mut rig, true, 4, 0x0c20_0004 + 0x1000 * ctx, v, false)?;
                }
                cx.st.count("completions");
            }
            12 => {
                let a = r.pick(&[0x0c00_0000 + 4 * id, 0x0c00_2000, 0x0c00_2080, 0x0c20_0000, 0x0c20_1000]);
                let s = r.bool();
                guest_access(&mut rig, false, if wide && a < 0x0c00_0080 { 8 } else { 4 }, a & !(if wide && a < 0x0c00_0080 { 7 } else { 0 }), 0, s)?;
                cx.st.count("register reads");
            }
            _ => {
                // the UART as source 1
                let v = r.below(4);
                guest_access(&mut rig, true, 1, 0x1000_0001, v, false)?;
            }
        }
        let p = rig.m.plic.clone();
        cx.st.case(key(&[p.level as u64, p.enable[0] as u64, p.enable[1] as u64, p.claimed[0] as u64, p.claimed[1] as u64, p.thr[0] as u64 * 16 + p.thr[1] as u64]));
        if p.line(0) {
            cx.st.count("states with the machine line up");
        }
        if p.line(1) {
            cx.st.count("states with the supervisor line up");
        }
        csr_read(&mut rig, csr::MIP)?;
        // keep away from interrupts: they are not what is under test
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        gens: vec![Gen { name: "PLIC histories", weight: 1, run: plic }],
        quick: 108000,
        thorough: 700_000,
        rule: "one case = one event of a random history (source level changes, priority, enable, threshold writes, claims, completions of claimed, unclaimed and impossible sources, register reads, 32- and 64-bit, UART as source 1) through guest code, after which the guest reads mip; every value read is compared with the reference PLIC; distinct by (levels, enables, claims, thresholds)",
        assumptions: &["priorities and thresholds up to 15", "registers that do not exist and disabling a source while it is claimed are not judged"],
        must: &["level changes", "claims that returned a source", "claims that returned 0", "completions", "register reads", "states with the machine line up", "states with the supervisor line up"],
    }
}

fn uart(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    let _ = (rv64, base);
    rig.set_prv(3);
    rig.m.dev_touched = true;
    for ctx in 0..2u64 {
        bus_w32(&mut rig, 0x0c00_2000 + 0x80 * ctx, 2)?;
    }
    bus_w32(&mut rig, 0x0c00_0004, 3)?;
    for _ in 0..160 {
        let r = &mut cx.rng;
        let u = 0x1000_0000u64;
        match r.below(16) {
            0..=3 => {
                let v = r.u64() & 0xff;
                guest_access(&mut rig, true, 1, u, v, false)?;
                cx.st.count("transmit or divisor writes");
            }
            4..=6 => {
                let s = r.bool();
                guest_access(&mut rig, false, 1, u, 0, s)?;
                cx.st.count("receive or divisor reads");
            }
            7 => {
                let v = r.u64() & 0xff;
                guest_access(&mut rig, true, 1, u + 1, v, false)?;
            }
            8 => {
                let v = r.u64() & 0xff & if r.bool() { 0xff } else { 0xfd };
                guest_access(&mut rig, true, 1, u + 2, v, false)?;
            }
            9 => {
                let v = r.u64() & if r.bool() { 0x7f } else { 0xff };
                guest_access(&mut rig, true, 1, u + 3, v, false)?;
            }
            10 => {
                let v = r.u64() & 0xff | if r.bool() { 0x10 } else { 0 };
                guest_access(&mut rig, true, 1, u + 4, v, false)?;
            }
            11 => {
                let k = r.pick(&[5u64, 6, 7, 7]);
                let v = r.u64() & 0xff;
                guest_access(&mut rig, true, 1, u + k, v, false)?;
            }
            12 => rig.tick(50)?,
            _ => {
                let k = r.below(8);
                let s = r.bool();
                guest_access(&mut rig, false, 1, u + k, 0, s)?;
                cx.st.count("register reads");
            }
        }
        let q = &rig.m.uart;
        if !q.rx.is_empty() && q.mcr & 0x10 != 0 {
            cx.st.count("states with looped-back bytes queued");
        }
        cx.st.case(key(&[q.rx.len() as u64, q.ier as u64, q.lcr as u64, q.mcr as u64, q.rx.front().copied().unwrap_or(0) as u64]));
        // line status, interrupt identification and the interrupt itself
        guest_access(&mut rig, false, 1, u + 5, 0, false)?;
        guest_access(&mut rig, false, 1, u + 2, 0, false)?;
        csr_read(&mut rig, csr::MIP)?;
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c20() -> Check {
    Check {
        id: "C20",
        gens: vec![
            Gen { name: "register histories", weight: 100, run: uart },
            Gen { name: "bytes through the emulator binary", weight: 2, run: super::e2e::uart_bytes },
            Gen { name: "dialogues with the emulator binary", weight: 1, run: super::e2e::dialogue },
        ],
        quick: 36000,
        thorough: 300_000,
        rule: "one case = one UART register access of a random history by guest code (DLAB, loop-back, FIFO clears, IER, scratch, all registers), after which LSR, IIR and mip are read and compared with the reference UART; plus runs of the emulator binary in which a guest transmits random bytes and echoes standard input (polling and interrupt-driven), whose standard output is compared byte for byte; distinct by register state and queue",
        assumptions: &["bits of IIR, MCR, LSR and MSR outside those named in the property are not judged", "loop-back bytes beyond 64 queued are not judged"],
        must: &["transmit or divisor writes", "receive or divisor reads", "register reads", "states with looped-back bytes queued", "bytes transmitted", "bytes echoed"],
    }
}

// ---- C25 ---------------------------------------------------------------------------------

fn triggers(cx: &mut Ctx) -> Result<(), Violation> {
    quiet_rig!(cx, rv64, base, rig);
    // triggers are set up by guest CSR instructions of every kind
    for _ in 0..4 {
        let mut spots = vec![];
        for _ in 0..(1 + cx.rng.below(8)) {
            let r = &mut cx.rng;
            let slot = r.below(8);
            let t1 = trigger_value(r, rv64);
            let t2 = match r.below(3) {
                0 => base + CODE + r.below(64) * 2,
                1 => base + DATA + r.below(32),
                _ => r.edgy(64) & rig.xm(),
            };
            spots.push(t2);
            rig.set_prv(3);
            for (n, v) in [(csr::TSELECT, slot), (csr::TDATA1, t1), (csr::TDATA2, t2)] {
                // by write, or by clear and set
                let steps: Vec<(Op, u64)> = match r.below(4) {
                    0 => vec![(Op::Csrrc, u64::MAX), (Op::Csrrs, v)],
                    1 => {
                        let old = rig.m.csr_value(n).unwrap().0;
                        vec![(Op::Csrrs, v & !old), (Op::Csrrc, old & !v)]
                    }
                    2 if v < 32 => vec![(Op::Csrrwi, v)],
                    3 if v < 32 => vec![(Op::Csrrci, 31), (Op::Csrrc, u64::MAX), (Op::Csrrsi, v)],
                    _ => vec![(Op::Csrrw, v)],
                };
                for (op, v) in steps {
                    let imm = matches!(op, Op::Csrrwi | Op::Csrrsi | Op::Csrrci);
                    let rs1 = if imm { v as usize } else { 11 };
                    if !imm {
                        rig.set_x(11, v);
                    }
                    // a place no trigger of these points at
                    let pc = base + 0x3_0000 + (rig.steps & 0xff) * 4;
                    rig.poke(pc, &enc(op, 12, rs1, 0, n as i64).to_le_bytes());
                    rig.set_pc(pc);
                    if let Next::Open = rig.step()? {
                        let v = rig.m.csr_value(n).unwrap().0;
                        let _ = v;
                    }
                }
            }
            cx.st.count("triggers set up");
        }
        for _ in 0..30 {
            let r = &mut cx.rng;
            rig.set_prv(r.pick(&[0, 1, 3]));
            let spot = r.pick(&spots);
            let near = spot.wrapping_add(r.pick(&[0u64, 0, 0, 0, 1, 2, 4, 8, u64::MAX, 0u64.wrapping_sub(2), 0u64.wrapping_sub(4)]));
            let op = match (r.below(5), rv64) {
                (0, true) => r.pick(&LOADS64),
                (0, false) => r.pick(&LOADS),
                (1, true) => r.pick(&STORES64),
                (1, false) => r.pick(&STORES),
                (2, _) => r.pick(&[Op::ScW, Op::LrW, Op::AmoaddW]),
                _ => Op::Addi,
            };
            let w = if r.chance(1, 8) { 0x0001 } else { enc(op, 12, 13, 14, 0) };
            let pc = if matches!(op, Op::Addi) || r.chance(1, 4) {
                if rig.m.mem.contains(near & !1, 4) { near & !1 } else { base + CODE + r.below(64) * 2 }
            } else {
                base + CODE + 0x200 + r.below(64) * 2
            };
            let v = r.u64();
            rig.set_x(14, v);
            rig.set_x(13, if r.chance(3, 4) { near } else { near & !7 });
            if rig.m.mem.contains(pc, 4) {
                rig.poke(pc, &w.to_le_bytes()[..if w & 3 == 3 { 4 } else { 2 }]);
            }
            rig.set_pc(pc);
            if let Next::Go(out) = rig.step()? {
                let hit = out.traps.first().is_some_and(|t| t.0 == 3);
                cx.st.count(if hit { "breakpoints" } else { "steps without breakpoint" });
                cx.st.case(key(&[op as u64, pc, near, rig.m.c.tdata1[0], rig.m.prv]));
            }
        }
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        gens: vec![
            Gen { name: "triggers set up by guest code", weight: 3, run: triggers },
            Gen { name: "programs with triggers", weight: 1, run: super::program::trigger_programs },
        ],
        quick: 160000,
        thorough: 1_000_000,
        rule: "one case = one executed instruction at, or accessing, an address on or next to a trigger address; triggers in all eight slots with random mode/execute/store/load bits are set up by guest CSRRW/S/C and immediate forms; also random programs with translation and triggers; distinct by (op, pc, address, configuration, mode)",
        assumptions: &["type 2, exact match, action 0, no chaining", "AMOs against load triggers, and data triggers under MPRV, are not judged"],
        must: &["triggers set up", "breakpoints", "steps without breakpoint"],
    }
}
