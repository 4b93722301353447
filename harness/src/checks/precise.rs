//! C15: an instruction that faults leaves nothing behind, and executing it again after the cause
//! is gone gives what it would have given at once. Two emulators: A meets the fault, is repaired
//! and returns from the trap; B never meets it. No reference model is involved.

use crate::asm::*;
use crate::dec::Op;
use crate::emu::{dram_host_addr, Emu, StepRes};
use crate::gen::*;
use crate::model::csr;
use crate::report::*;
use crate::rng::{mix, Rng};
use carron::bus::Device;

const UART: u64 = 0x1000_0000;
const HANDLERS: u64 = 0; // page 0 of DRAM
const M_AT: u64 = 0x100;
const S_AT: u64 = 0x200;
const WORK: [u64; 12] = [0, 0x1000, 0x2000, 0x10000, 0x11000, 0x12000, 0x13000, PT, PT + 0x1000, PT + 0x2000, PT + 0x3000, PT + 0x4000];
const V_DATA: u64 = 0x4000_0000;
const V_DEV: u64 = 0x5000_0000; // UART, CLINT, PLIC pages

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cause {
    Irq(u64),
    Misaligned(u64),
    Pte(u64, u64),
    Pmp,
    Trigger(u64),
    Counters,
    Tvm,
    Tsr,
}

impl Cause {
    fn name(&self) -> &'static str {
        match self {
            Cause::Irq(_) => "interrupt",
            Cause::Misaligned(_) => "misaligned address",
            Cause::Pte(..) => "page-table entry",
            Cause::Pmp => "PMP entry",
            Cause::Trigger(_) => "trigger",
            Cause::Counters => "counter access off",
            Cause::Tvm => "TVM",
            Cause::Tsr => "TSR",
        }
    }
}

fn page<'a>(e: &'a Emu, off: u64) -> &'a [u8] {
    let p = dram_host_addr(e).unwrap() + off as usize;
    unsafe { std::slice::from_raw_parts(p as *const u8, 4096) }
}

fn csr_list(rv64: bool) -> Vec<u16> {
    let mut v = vec![
        csr::MSTATUS, csr::MISA, csr::MEDELEG, csr::MIDELEG, csr::MIE, csr::MTVEC, csr::MCOUNTEREN, csr::MSCRATCH,
        csr::MEPC, csr::MCAUSE, csr::MTVAL, csr::STVEC, csr::SCOUNTEREN, csr::SSCRATCH, csr::SEPC, csr::SCAUSE,
        csr::STVAL, csr::SATP, csr::TSELECT, csr::TDATA1, csr::TDATA2, csr::MIP,
    ];
    v.extend(0x3b0..0x3c0);
    v.extend(if rv64 { vec![0x3a0, 0x3a2] } else { vec![0x3a0, 0x3a1, 0x3a2, 0x3a3] });
    v
}

const M_TRAP: [u16; 3] = [csr::MEPC, csr::MCAUSE, csr::MTVAL];
const S_TRAP: [u16; 3] = [csr::SEPC, csr::SCAUSE, csr::STVAL];
const M_BITS: u64 = 0x1880 | 8; // MPP, MPIE, MIE
const S_BITS: u64 = 0x120 | 2; // SPP, SPIE, SIE

#[derive(Clone)]
struct Snap {
    x: [u64; 32],
    pc: u64,
    prv: u64,
    csrs: Vec<u64>,
    res: Option<usize>,
    dev: Vec<u8>,
    mem: Vec<u8>,
}

fn snap(e: &mut Emu, list: &[u16]) -> Snap {
    let mut x = [0; 32];
    for (i, v) in x.iter_mut().enumerate() {
        *v = e.x(i);
    }
    // the registers whose reading has no effect
    let bus = &mut e.e.cpu.bus;
    let mut dev = vec![];
    for a in [0x0200_0000u64, 0x0200_4000, 0x0200_4004, 0x0200_bff8, 0x0200_bffc, 0x0c00_2000, 0x0c00_2080, 0x0c20_0000, 0x0c20_1000] {
        dev.extend((bus.load32(a).unwrap_or(0xbad) as u32).to_le_bytes());
    }
    for id in 1..32 {
        dev.push(bus.load32(0x0c00_0000 + 4 * id).unwrap_or(0xbad) as u8);
    }
    for o in [1, 3, 4, 5, 7] {
        dev.push(bus.load8(UART + o).unwrap_or(0xbad) as u8);
    }
    let mut mem = vec![];
    for o in WORK {
        mem.extend_from_slice(page(e, o));
    }
    Snap { x, pc: e.e.cpu.pc(), prv: e.e.cpu.verif_priv(), csrs: list.iter().map(|n| e.csr(*n)).collect(), res: e.e.cpu.reservation_set, dev, mem }
}

/// What differs, given the CSRs and mstatus bits that may.
fn differ(a: &Snap, b: &Snap, list: &[u16], free: &[u16], bits: u64) -> Option<(String, String)> {
    for r in 0..32 {
        if a.x[r] != b.x[r] {
            return Some(("a general register".into(), format!("x{r} {:#x} / {:#x}", a.x[r], b.x[r])));
        }
    }
    for (i, n) in list.iter().enumerate() {
        if free.contains(n) {
            continue;
        }
        let mask = match *n {
            csr::MSTATUS => !bits,
            csr::MIP => 0x22,
            _ => !0,
        };
        if (a.csrs[i] ^ b.csrs[i]) & mask != 0 {
            return Some((format!("CSR {n:#x}"), format!("CSR {n:#x} {:#x} / {:#x}", a.csrs[i], b.csrs[i])));
        }
    }
    if a.res != b.res {
        return Some(("the load reservation".into(), format!("reservation {:x?} / {:x?}", a.res, b.res)));
    }
    if let Some(i) = (0..a.dev.len()).find(|i| a.dev[*i] != b.dev[*i]) {
        return Some(("device state".into(), format!("device state byte {i:#x}: {:#x} / {:#x}", a.dev[i], b.dev[i])));
    }
    if a.mem != b.mem {
        let i = (0..a.mem.len()).find(|i| a.mem[*i] != b.mem[*i]).unwrap();
        return Some(("memory".into(), format!("memory at base+{:#x}: {:#x} / {:#x}", WORK[i / 4096] + i as u64 % 4096, a.mem[i], b.mem[i])));
    }
    None
}

struct World {
    rv64: bool,
    base: u64,
    prv: u64,
    translated: bool,
    tables: Option<Tables>,
    list: Vec<u16>,
}

fn reset(e: &mut Emu) {
    let base = e.base;
    for o in WORK {
        for i in 0..512 {
            if e.r64(base + o + 8 * i) != 0 {
                e.w64(base + o + 8 * i, 0);
            }
        }
    }
    let bus = &mut e.e.cpu.bus;
    for (o, v) in [(3u64, 0u64), (1, 0), (2, 2), (1, 0), (4, 0x18), (7, 0)] {
        let _ = bus.store8(UART + o, v);
    }
    bus.plic.set_interrupt_level(1, 0);
    bus.plic.set_interrupt_level(5, 0);
    for id in 1..32u64 {
        let _ = bus.store32(0x0c00_0000 + 4 * id, id % 3);
    }
    for ctx in 0..2 {
        let _ = bus.store32(0x0c00_2000 + 0x80 * ctx, 0);
        let _ = bus.store32(0x0c00_2000 + 0x80 * ctx, 0x22);
        let _ = bus.store32(0x0c20_0000 + 0x1000 * ctx, 0);
    }
    bus.plic.set_interrupt_level(5, 1);
    let _ = bus.store32(0x0200_0000, 0);
    let _ = bus.store64(0x0200_4000, u64::MAX);
    for i in 0..8 {
        e.set_csr(csr::TSELECT, i);
        e.set_csr(csr::TDATA1, 0);
        e.set_csr(csr::TDATA2, 0);
    }
    e.set_csr(csr::TSELECT, 0);
    for n in [0x3a0, 0x3a1, 0x3a2, 0x3a3] {
        if !(e.rv64 && n % 2 == 1) {
            e.set_csr(n, 0);
        }
    }
    for n in 0x3b0..0x3c0 {
        e.set_csr(n, 0);
    }
    e.set_csr(csr::PMPADDR0 + 8, (1 << 54) - 1);
    e.set_csr(0x3a2, 0x1f);
    for n in [csr::MEPC, csr::MCAUSE, csr::MTVAL, csr::SEPC, csr::SCAUSE, csr::STVAL, csr::MIP, csr::SATP] {
        e.set_csr(n, 0);
    }
    e.e.cpu.reservation_set = None;
}

fn world(a: &mut Emu, b: &mut Emu, r: &mut Rng) -> World {
    let (rv64, base) = (a.rv64, a.base);
    let xm = if rv64 { !0 } else { 0xffff_ffff };
    let prv = r.pick(&[0u64, 1, 1, 3]);
    let translated = prv != 3 && r.chance(3, 4);
    let mut mem = crate::model::Mem::new(base);
    for i in 0..4 * 512u64 {
        if r.chance(1, 3) {
            mem.write(base + DATA + 8 * i, 8, r.edgy(64));
        }
    }
    mem.write(base + HANDLERS + M_AT, 4, enc(Op::Mret, 0, 0, 0, 0) as u64);
    mem.write(base + HANDLERS + S_AT, 4, enc(Op::Sret, 0, 0, 0, 0) as u64);
    let u = if prv == 0 { PTE_U } else { 0 };
    let leaf = |pa: u64, f: u64| pa >> 12 << 10 | f | PTE_V | PTE_A | PTE_D;
    let mut tables = None;
    if translated {
        let mut t = Tables::new(base, rv64, 0);
        let rwx = PTE_R | PTE_W | PTE_X;
        t.map(&mut mem, base & xm, 0, leaf(base, rwx));
        for i in 1..3 {
            t.map(&mut mem, base + i * 0x1000, 0, leaf(base + i * 0x1000, rwx | u));
        }
        for i in 0..4 {
            t.map(&mut mem, V_DATA + i * 0x1000, 0, leaf(base + DATA + i * 0x1000, PTE_R | PTE_W | u));
        }
        for (i, pa) in [UART, 0x0200_b000, 0x0200_4000, 0x0c20_0000].into_iter().enumerate() {
            t.map(&mut mem, V_DEV + i as u64 * 0x1000, 0, leaf(pa, PTE_R | PTE_W | u));
        }
        tables = Some(t);
    }
    let regs: Vec<u64> = (0..32).map(|_| r.edgy(64) & xm).collect();
    let status = (r.u64() & 0xc0100 & 0xc_0000) | 0xa | r.pick(&[0, 1 << 18]);
    let deleg = if r.bool() { r.u64() & 0xb3ff } else { 0 };
    let mideleg = r.pick(&[0, 0x222]);
    let mtime = r.u64() >> 8;
    for e in [a, b] {
        reset(e);
        for (p, d) in &mem.pages {
            for i in 0..512usize {
                let v = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
                let at = (p << 12) + 8 * i as u64;
                if e.r64(at) != v {
                    e.w64(at, v);
                }
            }
        }
        for (i, v) in regs.iter().enumerate().skip(1) {
            e.set_x(i, *v);
        }
        let hi = if rv64 { 0xa_0000_0000 } else { 0 };
        e.set_csr(csr::MSTATUS, status | hi);
        e.set_csr(csr::MEDELEG, deleg);
        e.set_csr(csr::MIDELEG, mideleg);
        e.set_csr(csr::MIE, 0x22);
        e.set_csr(csr::MTVEC, base + M_AT);
        e.set_csr(csr::STVEC, base + S_AT);
        e.set_csr(csr::MCOUNTEREN, 7);
        e.set_csr(csr::SCOUNTEREN, 7);
        e.set_csr(csr::MSCRATCH, regs[7]);
        e.set_csr(csr::SSCRATCH, regs[8]);
        e.set_csr(csr::SATP, tables.as_ref().map_or(0, |t| t.satp()));
        let _ = e.e.cpu.bus.store64(0x0200_bff8, mtime);
        e.e.cpu.verif_set_priv(prv);
        // something in the loop-back queue of the UART
        for k in 0..3 {
            let _ = e.e.cpu.bus.store8(UART, 0x30 + k);
        }
    }
    World { rv64, base, prv, translated, tables, list: csr_list(rv64) }
}

/// One instruction: its bytes, the address in x13 (if it accesses memory), its access size and
/// where that is physically.
struct Victim {
    code: Vec<u8>,
    at: u64,
    access: Option<(u64, u64, u64, bool)>, // address, size, physical, is a store or AMO
    name: String,
    counters: bool,
    satp: bool,
    sret: bool,
}

fn victim(w: &World, r: &mut Rng, lr_at: Option<(u64, u64)>) -> Victim {
    let rd = r.pick(&[12usize, 12, 13, 14, 0]);
    let mut v = Victim { code: vec![], at: 0, access: None, name: String::new(), counters: false, satp: false, sret: false };
    let k = r.below(20);
    let word = |o: Op, rd, rs1, rs2, imm| enc(o, rd, rs1, rs2, imm).to_le_bytes().to_vec();
    if k < 16 {
        // a memory access through x13
        let dev = r.chance(1, 4);
        let (op, c16) = if dev {
            (r.pick(&[Op::Lb, Op::Lbu, Op::Sb, Op::Lw, Op::Sw]), None)
        } else {
            match r.below(12) {
                0..=2 => (r.pick(if w.rv64 { &LOADS64 } else { &LOADS }), None),
                3..=4 => (r.pick(if w.rv64 { &STORES64 } else { &STORES }), None),
                5..=6 => (r.pick(if w.rv64 { &AMOS64 } else { &AMOS32 }), None),
                7 => (if w.rv64 && r.bool() { Op::LrD } else { Op::LrW }, None),
                8..=9 => (if w.rv64 && r.bool() { Op::ScD } else { Op::ScW }, None),
                _ => {
                    let (o, h) = r.pick(&[(Op::Lw, 0x4000u16), (Op::Sw, 0xc000), (Op::Ld, 0x6000), (Op::Sd, 0xe000)]);
                    if w.rv64 || matches!(o, Op::Lw | Op::Sw) { (o, Some(h)) } else { (Op::Lw, Some(0x4000)) }
                }
            }
        };
        let size = size_of(op);
        let store = !(LOADS64.contains(&op) || matches!(op, Op::LrW | Op::LrD));
        let (va, pa) = if dev {
            if size == 1 {
                let o = r.pick(&[0, 0, 0, 5, 7, 1]);
                (V_DEV + o, UART + o)
            } else {
                match r.below(4) {
                    0 => (V_DEV + 0x1ff8, 0x0200_bff8),
                    1 => (V_DEV + 0x2000, 0x0200_4000),
                    2 => (V_DEV + 0x3000, 0x0c20_0000),
                    _ => (V_DEV + 0x3004, 0x0c20_0004), // claim
                }
            }
        } else if let (Some(l), true) = (lr_at, matches!(op, Op::ScW | Op::ScD) && r.chance(5, 6)) {
            (l.0 & !(size - 1), l.1 & !(size - 1))
        } else {
            let o = r.below(4) * 0x1000 + if r.chance(1, 4) { 0x1000 - size } else { r.below(0x1000 / size) * size };
            (V_DATA + o, w.base + DATA + o)
        };
        let va = if w.translated { va } else { pa };
        v.access = Some((va, size, pa, store));
        v.code = match c16 {
            Some(h) => {
                let reg = if store { 6 } else { r.pick(&[4u16, 5]) };
                (h | 5 << 7 | reg << 2).to_le_bytes().to_vec()
            }
            None => word(op, rd, 13, 14, 0),
        };
        v.name = format!("{}{op:?}{}", if c16.is_some() { "C." } else { "" }, if dev { " of a device" } else { "" });
    } else {
        match k {
            16 => {
                v.code = word(Op::Csrrs, 12, 0, 0, csr::TIME as i64);
                v.counters = true;
                v.name = "read of time".into();
            }
            17 if w.prv >= 1 => {
                v.code = word(Op::Csrrw, 12, 14, 0, csr::SSCRATCH as i64);
                v.name = "write of sscratch".into();
            }
            18 if w.prv == 1 => {
                v.code = word(Op::Csrrs, 12, 0, 0, csr::SATP as i64);
                v.satp = true;
                v.name = "read of satp".into();
            }
            19 if w.prv == 1 => {
                v.code = word(Op::Sret, 0, 0, 0, 0);
                v.sret = true;
                v.name = "SRET".into();
            }
            _ => {
                v.code = word(Op::Jal, 12, 0, 0, r.below(64) as i64 * 4);
                v.name = "JAL".into();
            }
        }
    }
    // anywhere in the two code pages, often across their border
    let o = match r.below(4) {
        0 => 0x1ffe,
        1 => 0x1000 + r.below(0x7f0) * 2,
        2 => 0x1ffc,
        _ => 0x2000 + r.below(0x7f0) * 2,
    };
    v.at = w.base + o;
    v
}

fn pte_of(w: &World, e: &mut Emu, va: u64) -> Option<u64> {
    let t = w.tables.as_ref()?;
    let (vb, sz, lv) = (t.vbits(), if w.rv64 { 8 } else { 4 }, t.levels());
    let mut p = t.root;
    for l in (0..lv).rev() {
        let a = p + (va >> (12 + vb * l) & ((1 << vb) - 1)) * sz;
        if l == 0 {
            return Some(a);
        }
        let v = e.r64(a);
        let v = if w.rv64 { v } else { v & 0xffff_ffff };
        p = v >> 10 << 12;
    }
    None
}

fn pte_rw(w: &World, e: &mut Emu, a: u64, v: Option<u64>) -> u64 {
    let bus = &mut e.e.cpu.bus.dram;
    let old = if w.rv64 { bus.load64(a).unwrap() } else { bus.load32(a).unwrap() & 0xffff_ffff };
    if let Some(v) = v {
        if w.rv64 {
            bus.store64(a, v).unwrap()
        } else {
            bus.store32(a, v).unwrap()
        }
    }
    old
}

/// Makes the instruction fail on this machine; what has to be undone, interrupts first.
fn impose(w: &World, e: &mut Emu, v: &Victim, r: &mut Rng) -> Vec<Cause> {
    let mut cs = vec![];
    let n = 1 + r.below(3);
    for _ in 0..n {
        match r.below(9) {
            0 if !v.sret => {
                if cs.iter().any(|c| matches!(c, Cause::Irq(_))) {
                    continue;
                }
                let b = r.pick(&[2u64, 0x20]);
                e.set_csr(csr::MIP, b);
                cs.insert(0, Cause::Irq(b));
            }
            1 | 2 => {
                if let Some((va, size, _, _)) = v.access {
                    if size > 1 && !cs.iter().any(|c| matches!(c, Cause::Misaligned(_))) {
                        e.set_x(13, va + 1 + r.below(size - 1));
                        cs.push(Cause::Misaligned(va));
                    }
                }
            }
            3 | 4 if w.translated => {
                let code = r.chance(1, 3) || v.access.is_none();
                let va = if code { v.at + r.pick(&[0, v.code.len() as u64 - 2]) } else { v.access.unwrap().0 };
                let Some(a) = pte_of(w, e, va) else { continue };
                if cs.iter().any(|c| matches!(c, Cause::Pte(x, _) if *x == a)) {
                    continue;
                }
                let old = pte_rw(w, e, a, None);
                // (a failing SC to a hole need not fault)
                let bad = match r.below(if v.name.starts_with("Sc") && !code { 5 } else { 6 }) {
                    0 => old & !PTE_V,
                    1 => old & !PTE_A,
                    2 => old & !PTE_D,
                    3 => old & !(PTE_R | PTE_X),
                    4 => old ^ PTE_U,
                    _ => old & 0x3ff | 0x3_0000 << 10, // no memory there
                };
                pte_rw(w, e, a, Some(bad));
                cs.push(Cause::Pte(a, old));
            }
            5 | 6 if w.prv != 3 => {
                if cs.contains(&Cause::Pmp) {
                    continue;
                }
                let target = match (v.access, r.below(3)) {
                    (Some((_, _, pa, _)), 0 | 1) => pa,
                    (Some((va, ..)), _) if w.translated => match pte_of(w, e, va) {
                        Some(a) => a,
                        None => continue,
                    },
                    _ => v.at + r.pick(&[0, v.code.len() as u64 - 2]),
                };
                if target >> 12 == w.base >> 12 {
                    continue;
                }
                let perms = r.below(8) & !2 & if r.bool() { 0 } else { 7 };
                // NA4 or the whole page
                let (addr, cfg) = if r.bool() { (target >> 2, 0x10) } else { (target >> 12 << 10 | 0x1ff, 0x18) };
                e.set_csr(csr::PMPADDR0, addr);
                e.set_csr(csr::PMPCFG0, cfg | perms);
                cs.push(Cause::Pmp);
            }
            7 => {
                if cs.iter().any(|c| matches!(c, Cause::Trigger(_))) {
                    continue;
                }
                let slot = r.below(8);
                let (t, bits) = match v.access {
                    Some((va, _, _, store)) if r.bool() && !v.name.contains("Amo") => (va, if store { 2 } else { 1 }),
                    _ => (v.at, 4),
                };
                e.set_csr(csr::TSELECT, slot);
                e.set_csr(csr::TDATA2, t);
                e.set_csr(csr::TDATA1, 2 << (if w.rv64 { 60 } else { 28 }) | 0x58 | bits);
                e.set_csr(csr::TSELECT, 0);
                cs.push(Cause::Trigger(slot));
            }
            _ if v.counters && w.prv != 3 => {
                if !cs.contains(&Cause::Counters) {
                    e.set_csr(if w.prv == 0 && r.bool() { csr::SCOUNTEREN } else { csr::MCOUNTEREN }, 5);
                    cs.push(Cause::Counters);
                }
            }
            _ if v.satp && !cs.contains(&Cause::Tvm) => {
                e.set_csr(csr::MSTATUS, e.csr(csr::MSTATUS) | 1 << 20);
                cs.push(Cause::Tvm);
            }
            _ if v.sret && !cs.contains(&Cause::Tsr) => {
                e.set_csr(csr::MSTATUS, e.csr(csr::MSTATUS) | 1 << 22);
                cs.push(Cause::Tsr);
            }
            _ => (),
        }
    }
    cs
}

fn repair(w: &World, e: &mut Emu, c: Cause) {
    match c {
        Cause::Irq(_) => e.set_csr(csr::MIP, 0),
        Cause::Misaligned(va) => e.set_x(13, va),
        Cause::Pte(a, old) => {
            pte_rw(w, e, a, Some(old));
        }
        Cause::Pmp => {
            e.set_csr(csr::PMPCFG0, 0);
            e.set_csr(csr::PMPADDR0, 0);
        }
        Cause::Trigger(s) => {
            e.set_csr(csr::TSELECT, s);
            e.set_csr(csr::TDATA1, 0);
            e.set_csr(csr::TDATA2, 0);
            e.set_csr(csr::TSELECT, 0);
        }
        Cause::Counters => {
            e.set_csr(csr::MCOUNTEREN, 7);
            e.set_csr(csr::SCOUNTEREN, 7);
        }
        Cause::Tvm => e.set_csr(csr::MSTATUS, e.csr(csr::MSTATUS) & !(1 << 20)),
        Cause::Tsr => e.set_csr(csr::MSTATUS, e.csr(csr::MSTATUS) & !(1 << 22)),
    }
}

fn trial(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let base = cx.rng.pick(&[0x8000_0000u64, 0x4_0000_0000u64 >> if rv64 { 0 } else { 3 }]);
    let (mut a, mut b) = cx.pairs.remove(&(rv64, base)).unwrap_or_else(|| (Emu::blank(rv64, base), Emu::blank(rv64, base)));
    let w = world(&mut a, &mut b, &mut cx.rng);
    let verdict = sequence(cx, &w, &mut a, &mut b);
    cx.pairs.insert((rv64, base), (a, b));
    verdict
}

fn sequence(cx: &mut Ctx, w: &World, a: &mut Emu, b: &mut Emu) -> Result<(), Violation> {
    let mut lr_at = None;
    let n = cx.rng.range(4, 12);
    let mut story = vec![format!("rv{} base {:#x} privilege {} translation {}", if w.rv64 { 64 } else { 32 }, w.base, w.prv, w.translated)];
    for _ in 0..n {
        let r = &mut cx.rng;
        let v = victim(w, r, lr_at);
        let val = r.edgy(64);
        let medeleg = if v.sret { 0 } else { a.csr(csr::MEDELEG) };
        for e in [&mut *a, &mut *b] {
            e.write_bytes(v.at, &v.code);
            e.e.cpu.verif_set_pc(v.at);
            e.set_x(14, val);
            if let Some((va, ..)) = v.access {
                e.set_x(13, va);
            }
            e.set_csr(csr::MEDELEG, medeleg);
            if v.sret {
                // to where it came from, in the same mode
                e.set_csr(csr::SEPC, v.at + 4);
                e.set_csr(csr::MSTATUS, e.csr(csr::MSTATUS) | 0x100);
            }
        }
        let mut causes = impose(w, a, &v, &mut cx.rng);
        let imposed: Vec<&str> = causes.iter().map(|c| c.name()).collect();
        story.push(format!("{} at {:#x} {:x?} address {:x?} with {imposed:?}", v.name, v.at, v.code, v.access));
        let tell = |what: &str, d: &str, story: &[String]| format!("{what}: {d}\nmost recent last:\n {}", story[story.len().saturating_sub(6)..].join("\n "));
        let (mut m_traps, mut s_traps) = (0, 0);
        let mut retired = false;
        for _ in 0..12 {
            let before = snap(a, &w.list);
            match a.step() {
                StepRes::Panic(m) => return violation("the emulator panicked", tell("panic", &m, &story)),
                StepRes::Retired => {
                    retired = true;
                    break;
                }
                StepRes::Trapped => (),
            }
            let after = snap(a, &w.list);
            let to_s = after.prv == 1;
            let free = if to_s { S_TRAP } else { M_TRAP };
            let bits = if to_s { S_BITS } else { M_BITS };
            let cause = a.csr(if to_s { csr::SCAUSE } else { csr::MCAUSE });
            if let Some((what, d)) = differ(&before, &after, &w.list, &free, bits) {
                return violation(format!("an exception changed {what}"), tell("before / after the exception", &format!("{d} (cause {cause:#x})"), &story));
            }
            let epc = a.csr(if to_s { csr::SEPC } else { csr::MEPC });
            if epc != before.pc {
                return violation("the saved pc is not that of the instruction", tell("saved pc", &format!("{epc:#x} instead of {:#x} (cause {cause:#x})", before.pc), &story));
            }
            cx.st.count("exceptions checked");
            cx.st.name(format!("cause {}{}", if cause >> (if w.rv64 { 63 } else { 31 }) == 1 { "interrupt " } else { "" }, cause & 0x7fff_ffff));
            if to_s {
                s_traps += 1;
            } else {
                m_traps += 1;
            }
            if causes.is_empty() {
                break;
            }
            // one cause after the other
            let k = if matches!(causes[0], Cause::Irq(_)) { 0 } else { cx.rng.below(causes.len() as u64) as usize };
            let c = causes.remove(k);
            repair(w, a, c);
            match a.step() {
                StepRes::Retired => (),
                x => return violation("the return from the trap did not work", tell("xRET", &format!("{x:?}"), &story)),
            }
            if a.e.cpu.pc() != v.at || a.e.cpu.verif_priv() != w.prv {
                return violation("the return from the trap went elsewhere", tell("xRET", &format!("pc {:#x} privilege {}", a.e.cpu.pc(), a.e.cpu.verif_priv()), &story));
            }
        }
        for c in causes.drain(..) {
            // what did not show (any more)
            let keep = a.x(13);
            repair(w, a, c);
            if matches!(c, Cause::Misaligned(_)) && retired {
                a.set_x(13, keep);
            }
        }
        let rb = b.step();
        if let StepRes::Panic(m) = &rb {
            return violation("the emulator panicked", tell("panic", m, &story));
        }
        if (rb == StepRes::Retired) != retired {
            return violation("executing again differs from executing once", tell("outcome", &format!("after repair retired={retired}, undisturbed {rb:?}"), &story));
        }
        if !retired {
            // not repairable: the instruction faults by itself
            cx.st.count("instructions that fault anyway");
            return Ok(());
        }
        let (sa, sb) = (snap(a, &w.list), snap(b, &w.list));
        let mut free = vec![];
        let mut bits = 0;
        if m_traps > 0 {
            free.extend(M_TRAP);
            bits |= M_BITS & !8;
        }
        if s_traps > 0 {
            free.extend(S_TRAP);
            bits |= S_BITS & !2;
        }
        let d = differ(&sa, &sb, &w.list, &free, bits);
        let d = d.or_else(|| {
            (sa.pc != sb.pc || sa.prv != sb.prv)
                .then(|| ("pc or privilege".into(), format!("pc {:#x}/{:#x} privilege {}/{}", sa.pc, sb.pc, sa.prv, sb.prv)))
        });
        if let Some((what, d)) = d {
            return violation(
                format!("executing again after the repair differs in {what}"),
                tell("after faults and repair / undisturbed", &d, &story),
            );
        }
        if m_traps + s_traps > 0 {
            cx.st.count("instructions executed again after a fault");
            cx.st.name(format!("{} again", v.name));
            let key = v.name.bytes().fold(mix(w.prv, w.rv64 as u64), |h, x| mix(h, x as u64));
            let key = imposed.iter().flat_map(|s| s.bytes()).fold(key, |h, x| mix(h, x as u64));
            cx.st.case(Some(mix(key, (v.at & 0xfff == 0xffe) as u64)));
        } else {
            cx.st.case(None);
        }
        // the next instruction starts from the same state on both
        for n in free {
            let x = a.csr(n);
            b.set_csr(n, x);
        }
        let x = a.csr(csr::MSTATUS);
        b.set_csr(csr::MSTATUS, x);
        if let Some((va, _, pa, _)) = v.access {
            if v.name.starts_with("Lr") {
                lr_at = Some((if w.translated { V_DATA + (pa - w.base - DATA) } else { va }, pa));
            } else if v.name.starts_with("Sc") {
                lr_at = None;
            }
        }
    }
    // what the devices hold inside
    for (name, addr) in [("UART receive queue", UART), ("PLIC claim 0", 0x0c20_0004), ("PLIC claim 1", 0x0c20_1004)] {
        for _ in 0..8 {
            let mut v = vec![];
            for e in [&mut *a, &mut *b] {
                let bus = &mut e.e.cpu.bus;
                v.push(if addr == UART { bus.load8(addr).unwrap() } else { bus.load32(addr).unwrap() });
            }
            if v[0] != v[1] {
                return violation("device state differs at the end", format!("{name}: {:#x} / {:#x}\n {}", v[0], v[1], story.join("\n ")));
            }
        }
    }
    cx.st.count("sequences");
    cx.st.sample(|| story[..story.len().min(4)].join("; "));
    Ok(())
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        gens: vec![
            Gen { name: "faults, repair, execution again, next to a machine without them", weight: 3, run: trial },
            Gen { name: "programs full of traps against the reference machine", weight: 1, run: super::program::trap_programs },
        ],
        quick: 90000,
        thorough: 4_000_000,
        rule: "sequences of loads, stores, AMOs, LR, SC, compressed accesses, UART/CLINT/PLIC accesses, counter and CSR accesses, SRET and jumps, each of which first meets one to three causes (page-table entry of data or of either half of the instruction, PMP entry over data, code or page table, misalignment, execute/load/store trigger, pending interrupt, counter enable, TVM, TSR) on one emulator; after each trap the whole state (registers, CSRs, reservation, devices, memory) except what trap entry defines is compared with before, the cause is removed, xRET executes, and in the end the state is compared with a second emulator that never saw the causes; distinct by instruction, causes, mode and page straddling; plus random trap-heavy programs in lock-step with the reference machine",
        assumptions: &["the bits of sstatus/mstatus and the epc, cause and tval registers of the mode trapped to are what trap entry defines"],
        must: &["exceptions checked", "instructions executed again after a fault", "program steps"],
    }
}
