//! C17: whatever the guest does, the emulator goes on. The emulator alone, no reference model:
//! every state below is one a guest can bring about (CSRs are written by executed instructions).

use crate::asm::*;
use crate::dec::Op;
use crate::elf::Elf;
use crate::emu::{guarded, Emu, StepRes};
use crate::gen::*;
use crate::proc::{self, Input};
use crate::report::*;
use crate::rng::{mix, Rng};
use carron::bus::Device;
use std::time::Duration;

const CODE_AT: u64 = 0x1000;
const CODE_LEN: u64 = 0x2000;
const TABLES: u64 = 0x8000;
const TABLE_PAGES: u64 = 6;
const DRAM: u64 = 0x8000_0000;

fn address(r: &mut Rng, base: u64) -> u64 {
    match r.below(10) {
        0..=3 => base + r.below(0x10000),
        4 => base + DRAM - r.below(64),
        5 => base + (r.below(16) << 27) + r.below(0x1000),
        6 => base.wrapping_add(r.below(0x40)).wrapping_sub(0x20),
        7 | 8 => device_addr(r, base),
        _ => r.edgy(64),
    }
}

fn garbage(r: &mut Rng, rv64: bool) -> Vec<u8> {
    let (w, len) = match r.below(12) {
        0 => (r.u64() as u32 | 3, 4),
        1 => {
            let h = r.u64() as u16;
            (h as u32, if h & 3 == 3 { 4 } else { 2 })
        }
        2 => {
            // every field of a random major opcode
            let op = r.pick(&[0x03u32, 0x0f, 0x13, 0x17, 0x1b, 0x23, 0x2f, 0x33, 0x37, 0x3b, 0x63, 0x67, 0x6f, 0x73, 0x07, 0x27, 0x53]);
            (r.u64() as u32 & !0x7f | op, 4)
        }
        _ => {
            let k = pick_mix(r, MIX_ALL);
            word_of(r, k, rv64)
        }
    };
    w.to_le_bytes()[..len as usize].to_vec()
}

fn pte(r: &mut Rng, base: u64, rv64: bool) -> u64 {
    let flags = match r.below(4) {
        0 => r.below(0x400),
        1 => 1,
        _ => 0xcf | r.below(2) << 4,
    };
    let ppn = match r.below(6) {
        0 => r.u64() >> r.below(64),
        1 => r.edgy(64),
        2 => device_addr(r, base) >> 12,
        _ => (base >> 12) + r.below(16),
    };
    let v = ppn << 10 | flags;
    if rv64 && !r.chance(1, 8) { v & ((1 << 54) - 1) } else { v }
}

fn csr_value(r: &mut Rng, n: u16, base: u64, rv64: bool) -> u64 {
    match n {
        0x180 if !r.chance(1, 6) => {
            let root = (base + TABLES) >> 12;
            if rv64 { 8 << 60 | root } else { 1 << 31 | root }
        }
        0x305 | 0x105 if !r.chance(1, 4) => base + CODE_AT + r.below(CODE_LEN) + r.below(2),
        0x341 | 0x141 if !r.chance(1, 4) => base + CODE_AT + r.below(CODE_LEN),
        0x3b0..=0x3bf if !r.chance(1, 4) => (base >> 2) + r.below(0x8000) | if r.bool() { (1 << r.below(32)) - 1 } else { 0 },
        0x3a0..=0x3af => {
            let mut v = 0;
            for i in 0..8 {
                // locked entries stay until the machine is replaced: few of them
                let l = if r.chance(1, 60) { 0x80 } else { 0 };
                v |= (r.below(0x20) | l) << (8 * i);
            }
            v
        }
        _ => r.edgy(64),
    }
}

struct Drive<'a> {
    m: &'a mut Emu,
    story: Vec<String>,
}

impl Drive<'_> {
    /// Whether the instruction retired.
    fn step(&mut self, cx: &mut Ctx) -> Result<bool, Violation> {
        let pc = self.m.e.cpu.pc();
        let prv = self.m.e.cpu.verif_priv();
        let b = self.m.base;
        let bare = prv == 3 || self.m.csr(0x180) >> (if self.m.rv64 { 60 } else { 31 }) == 0;
        let word = if bare && pc >= b && pc < b + DRAM - 8 {
            self.m.e.cpu.bus.dram.load32(pc).unwrap_or(0) & 0xffff_ffff
        } else {
            0
        };
        let res = self.m.step();
        let key = match &res {
            StepRes::Panic(p) => {
                let x: Vec<String> = (0..32).map(|i| format!("{:#x}", self.m.x(i))).collect();
                return violation(
                    format!("the emulator panicked: {}", p.rsplit(" at ").next().unwrap_or("")),
                    format!("{p}\npc {pc:#x} privilege {prv} word {word:#010x}, satp {:#x}\nregisters {}\n{}", self.m.csr(0x180), x.join(" "), self.story.join("\n")),
                );
            }
            StepRes::Retired => {
                cx.st.count("instructions retired");
                0x100
            }
            StepRes::Trapped => {
                cx.st.count("traps taken");
                let p = self.m.e.cpu.verif_priv();
                let c = self.m.csr(if p == 1 { 0x142 } else { 0x342 });
                cx.st.name(format!("cause {:#x} to mode {p}", c));
                c & 0xff
            }
        };
        let class = if word & 3 == 3 { word & 0xfe00_707f } else { word & 0xe003 };
        cx.st.case(Some(mix(mix(class, key), prv << 1 | bare as u64)));
        Ok(key == 0x100)
    }

    /// Executes one instruction in machine mode.
    fn exec(&mut self, cx: &mut Ctx, w: u32) -> Result<bool, Violation> {
        let at = self.m.base + 0x100;
        self.m.write_bytes(at, &w.to_le_bytes());
        self.m.e.cpu.verif_set_priv(3);
        self.m.e.cpu.verif_set_pc(at);
        self.step(cx)
    }
}

fn chaos(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let base = cx.rng.pick(if rv64 { &[0x8000_0000u64, 0x8000_0000, 0x4000_0000_0000] } else { &[0x8000_0000, 0x8000_0000, 0x9000_0000, 0xf000_0000] });
    let key = (rv64, base);
    let m = if cx.rng.chance(1, 40) { None } else { cx.solo.remove(&key) };
    let mut m = match m {
        Some(m) => m,
        None => {
            cx.st.count("fresh machines");
            Emu::blank(rv64, base)
        }
    };
    let r = chaos_on(cx, &mut m);
    if r.is_ok() {
        cx.solo.insert(key, m);
    }
    r
}

fn chaos_on(cx: &mut Ctx, m: &mut Emu) -> Result<(), Violation> {
    let (rv64, base) = (m.rv64, m.base);
    let mut d = Drive { m, story: vec![format!("rv{} base {base:#x}", if rv64 { 64 } else { 32 })] };
    let r = &mut cx.rng;
    // code and tables
    let mut at = base + CODE_AT;
    while at < base + CODE_AT + CODE_LEN {
        let b = garbage(r, rv64);
        d.m.write_bytes(at, &b);
        at += b.len() as u64;
    }
    for i in 0..TABLE_PAGES * 512 {
        if r.chance(1, 4) {
            let v = pte(r, base, rv64);
            d.m.w64(base + TABLES + 8 * i, v);
        }
    }
    // the tail of memory holds code as well
    for k in 0..8 {
        let b = garbage(r, rv64);
        d.m.write_bytes(base + DRAM - 4 * (k + 1), &b);
    }
    for _ in 0..cx.rng.below(24) {
        let r = &mut cx.rng;
        let n = csr_num(r, rv64);
        let v = csr_value(r, n, base, rv64);
        let op = r.pick(&[Op::Csrrw, Op::Csrrw, Op::Csrrs, Op::Csrrc]);
        d.story.push(format!("{op:?} {n:#x} {v:#x}"));
        d.m.set_x(6, v);
        d.exec(cx, enc(op, 5, 6, 0, n as i64))?;
    }
    for i in 1..32 {
        let r = &mut cx.rng;
        let v = if r.chance(1, 4) { r.edgy(64) } else { address(r, base) };
        d.m.set_x(i, v);
    }
    let prv = cx.rng.pick(&[0, 1, 3]);
    d.m.e.cpu.verif_set_priv(prv);
    let start = |r: &mut Rng| {
        let v = match r.below(8) {
            0 => base + DRAM - 2 * r.below(8),
            1 => address(r, base) & !1,
            2 => 0x1000 + r.below(0x800) * 2,
            _ => base + CODE_AT + r.below(CODE_LEN / 2) * 2,
        };
        if rv64 { v } else { v & 0xffff_fffe }
    };
    let pc = start(&mut cx.rng);
    d.m.e.cpu.verif_set_pc(pc);
    d.story.push(format!("privilege {prv} pc {pc:#x}"));
    let mut stuck = 0;
    for _ in 0..cx.rng.range(50, 400) {
        stuck = if d.step(cx)? { 0 } else { stuck + 1 };
        let r = &mut cx.rng;
        if stuck > 2 && r.chance(3, 4) {
            // a trap vector that does not work
            let (p, pc) = (r.pick(&[0, 1, 3, 3]), start(r));
            d.m.e.cpu.verif_set_priv(p);
            d.m.e.cpu.verif_set_pc(pc);
            stuck = 0;
        }
        match r.below(60) {
            0..=9 => {
                let (i, v) = (r.below(32) as usize, if r.chance(1, 4) { r.edgy(64) } else { address(r, base) });
                d.m.set_x(i, v);
            }
            10 | 11 => {
                let pc = start(r);
                d.m.e.cpu.verif_set_pc(pc);
            }
            12 => {
                let p = r.pick(&[0, 1, 3]);
                d.m.e.cpu.verif_set_priv(p);
            }
            13 => {
                // what the main loop does every 5000 instructions
                cx.st.count("timer and UART ticks");
                let cpu = &mut d.m.e.cpu;
                let t = guarded(|| {
                    cpu.reservation_set = None;
                    cpu.timer_increment(50);
                    cpu.bus.uart.tick(&mut cpu.bus.plic);
                });
                if let Err(p) = t {
                    return violation("the emulator panicked in a tick", format!("{p}\n{}", d.story.join("\n")));
                }
            }
            14 => {
                let v = csr_value(r, 0x180, base, rv64);
                d.m.set_x(6, v);
                d.exec(cx, enc(Op::Csrrw, 5, 6, 0, 0x180))?;
                let (p, pc) = (cx.rng.pick(&[0, 1]), start(&mut cx.rng));
                d.m.e.cpu.verif_set_priv(p);
                d.m.e.cpu.verif_set_pc(pc);
            }
            15 => {
                let i = r.below(TABLE_PAGES * 512);
                let v = pte(r, base, rv64);
                d.m.w64(base + TABLES + 8 * i, v);
            }
            _ => (),
        }
    }
    cx.st.count("random histories");
    cx.st.sample(|| d.story[..d.story.len().min(6)].join("; "));
    Ok(())
}

/// Direct accesses of every width to the bus, as a store in machine mode would make them.
fn poke(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let key = (rv64, 0x8000_0000);
    let mut m = cx.solo.remove(&key).unwrap_or_else(|| Emu::blank(rv64, 0x8000_0000));
    let mut d = Drive { m: &mut m, story: vec![format!("rv{}", if rv64 { 64 } else { 32 })] };
    let mut res: Result<(), Violation> = Ok(());
    for _ in 0..cx.rng.range(20, 120) {
        let r = &mut cx.rng;
        let op = match r.below(4) {
            0 => r.pick(if rv64 { &LOADS64 } else { &LOADS }),
            1 | 2 => r.pick(if rv64 { &STORES64 } else { &STORES }),
            _ => r.pick(if rv64 { &AMOS64 } else { &AMOS32 }),
        };
        let mut a = device_addr(r, 0x8000_0000);
        if r.chance(3, 4) {
            a &= !(size_of(op) - 1);
        }
        let v = r.edgy(64);
        d.m.set_x(6, a);
        d.m.set_x(7, v);
        d.story.push(format!("{op:?} at {a:#x} value {v:#x}"));
        let rd = if STORES64.contains(&op) { 0 } else { 5 };
        res = d.exec(cx, enc(op, rd, 6, 7, 0)).map(|_| ());
        if res.is_ok() && cx.rng.chance(1, 8) {
            let cpu = &mut d.m.e.cpu;
            if let Err(p) = guarded(|| {
                cpu.timer_increment(50);
                cpu.bus.uart.tick(&mut cpu.bus.plic);
            }) {
                res = violation("the emulator panicked in a tick", format!("{p}\n{}", d.story.join("\n")));
            }
        }
        if res.is_err() {
            return res;
        }
    }
    cx.st.count("device histories");
    cx.solo.insert(key, m);
    res
}

/// A program of random instructions for the binary: it starts over at its end and skips what traps.
fn garbage_elf(r: &mut Rng, rv64: bool) -> Elf {
    let base = 0x8000_0000;
    let mut a = Asm::new(base + 0x200, rv64);
    a.la(31, base + 0x100);
    a.o(Op::Csrrw, 0, 31, 0, 0x305);
    a.o(Op::Csrrw, 0, 31, 0, 0x105);
    let deleg = if r.bool() { 0 } else { r.u64() & 0xffff_ffff };
    a.li(31, deleg);
    a.o(Op::Csrrw, 0, 31, 0, 0x302);
    // open PMP
    a.li(31, if rv64 { (1 << 54) - 1 } else { 0xffff_ffff });
    a.o(Op::Csrrw, 0, 31, 0, 0x3bf);
    a.li(31, 0x1f00_0000);
    a.o(Op::Csrrw, 0, 31, 0, if rv64 { 0x3a2 } else { 0x3a3 });
    for i in 1..31 {
        let v = address(r, base);
        a.li(i, if rv64 { v } else { v & 0xffff_ffff });
    }
    a.la(31, base + 0x1000);
    a.o(Op::Jalr, 0, 31, 0, 0);
    let mut code = a.finish();
    assert!(code.len() < 0x1000 - 0x100);
    let mut h = Asm::new(base + 0x100, rv64);
    let skip = r.chance(3, 4);
    if skip {
        h.o(Op::Csrrs, 31, 0, 0, 0x341);
        h.o(Op::Addi, 31, 31, 0, r.pick(&[2, 4]));
    } else {
        h.la(31, base + 0x1000 + r.below(0x4000) * 2);
    }
    h.o(Op::Csrrw, 0, 31, 0, 0x341);
    h.li(31, r.pick(&[0, 0x800, 0x1800, 0x1800]));
    h.o(Op::Csrrs, 0, 31, 0, 0x300);
    h.o(Op::Mret, 0, 0, 0, 0);
    let h = h.finish();
    let mut image = vec![0u8; 0x100];
    image.extend(h);
    image.resize(0x200, 0);
    image.append(&mut code);
    image.resize(0x1000, 0);
    while image.len() < 0x9000 {
        let b = garbage(r, rv64);
        image.extend(b);
    }
    image.truncate(0x9000);
    let mut j = Asm::new(base + 0x9000, rv64);
    j.la(31, base + 0x1000);
    j.o(Op::Jalr, 0, 31, 0, 0);
    image.extend(j.finish());
    let mut e = Elf::simple(rv64, base, image);
    e.entry = base + 0x200;
    e
}

fn binary(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let e = garbage_elf(&mut cx.rng, rv64);
    let lv = cx.rng.pick(&["", "", "info", "diff", "debug", "trace"]);
    let d = proc::dir("garbage");
    proc::put(&d, "prog.elf", &e.bytes());
    let args: Vec<&str> = if lv.is_empty() { vec!["prog.elf"] } else { vec!["--loglv", lv, "prog.elf"] };
    let chunk: Vec<u8> = (0..64).map(|_| cx.rng.u64() as u8).collect();
    let input = Input::Chunks(vec![(0, chunk.clone()), (20, chunk.clone()), (20, chunk)]);
    let wait = Duration::from_millis(if lv.is_empty() { 400 } else { 200 });
    let run = proc::run_bin(proc::bin(), &d, &args, input, wait, |_| false);
    proc::remove(&d);
    cx.st.name(format!("garbage program at log level {lv:?}: {}", run.ending()));
    if run.timed_out || run.signal == Some(libc::SIGXFSZ) {
        cx.st.count("garbage programs still running at their deadline");
        cx.st.case(Some(mix(cx.rng.u64(), 0)));
        return Ok(());
    }
    violation(
        "the emulator ended by itself",
        format!("log level {lv:?}: {}\nstderr: {}\nprogram: {}", run.ending(), run.err_text(), crate::checks::e2e::hex(&e.segs[0].data[0x1000..0x1080])),
    )
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        gens: vec![
            Gen { name: "random instructions on random reachable states", weight: 60, run: chaos },
            Gen { name: "device and edge accesses of every width", weight: 39, run: poke },
            Gen { name: "random programs in the emulator binary", weight: 1, run: binary },
        ],
        quick: 48000,
        thorough: 4_000_000,
        rule: "states a guest can bring about: CSRs written by executed instructions with edge values, page tables of random entries, PMP entries (some locked), random triggers, registers holding device, edge and random addresses, code of valid, mutated and random instructions, also in the last bytes of memory; 50 to 400 steps each from any privilege, with timer and UART ticks in between; distinct by instruction class, outcome and mode; plus programs of random instructions in the binary at every log level with input arriving, which must still be running at the deadline",
        assumptions: &["debug assertions of the emulator are compiled in"],
        must: &["random histories", "device histories", "garbage programs still running at their deadline", "traps taken"],
    }
}
