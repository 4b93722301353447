//! Systematic walks: bits of one CSR, one page mapping, edges of PMP regions.

use super::drill::{pick_machine, slot};
use crate::asm::*;
use crate::dec::Op;
use crate::gen::*;
use crate::lock::{Next, Rig};
use crate::model::*;
use crate::report::*;
use crate::rng::{mix, Rng};

fn key(parts: &[u64]) -> Option<u64> {
    Some(parts.iter().fold(0x77, |a, b| mix(a, *b)))
}

/// One CSR instruction executed by the guest in this mode; None when nothing is specified.
pub fn csr_op(rig: &mut Rig, op: Op, rd: usize, v: u64, n: u16, prv: u64) -> Result<Option<StepOut>, Violation> {
    let imm = matches!(op, Op::Csrrwi | Op::Csrrsi | Op::Csrrci);
    let rs1 = if imm { (v & 31) as usize } else { 11 };
    if !imm {
        rig.set_x(11, v);
    }
    rig.set_prv(prv);
    let pc = rig.m.mem.base + CODE + (rig.steps & 0x3f) * 4;
    rig.poke(pc, &enc(op, rd, rs1, 0, n as i64).to_le_bytes());
    rig.set_pc(pc);
    Ok(match rig.step()? {
        Next::Go(o) => Some(o),
        Next::Open => None,
    })
}

fn views(n: u16) -> &'static [u16] {
    match n {
        csr::MSTATUS | csr::SSTATUS => &[csr::MSTATUS, csr::SSTATUS],
        csr::MIE | csr::SIE | csr::MIDELEG => &[csr::MIE, csr::SIE, csr::MIDELEG],
        csr::MIP | csr::SIP => &[csr::MIP, csr::SIP],
        _ => &[],
    }
}

pub fn csr_bits(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    rig.begin();
    let r = &mut cx.rng;
    let xm = rig.m.xmask();
    let m = &mut rig.m;
    for i in 1..32 {
        m.regs[i] = r.edgy(64) & xm;
    }
    m.c.mstatus = random_mstatus(r) & !(MPRV | MIE);
    m.c.pmpcfg[0] = 0x1f;
    m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
    m.c.mtvec = base + 0x100;
    m.c.stvec = base + 0x200;
    m.c.mideleg = r.u64() & S_INTS;
    m.c.mie = r.u64() & INTS;
    m.c.mip_sw = r.u64() & 0x22;
    m.c.medeleg = r.u64() & MEDELEG_MASK;
    m.c.mcounteren = 7;
    m.c.scounteren = r.below(8);
    m.msip = r.below(2);
    m.pc = base + CODE;
    if !rig.start() {
        cx.st.inconclusive("start state not accepted");
        return Ok(());
    }
    let mut n = csr_num(r, rv64);
    if views(n).is_empty() && r.bool() {
        n = r.pick(&[csr::MSTATUS, csr::SSTATUS, csr::MIE, csr::SIE, csr::MIP, csr::SIP]);
    }
    let mut bits: Vec<u64> = (0..rig.m.xlen() as u64).collect();
    for i in (1..bits.len()).rev() {
        bits.swap(i, r.below(i as u64 + 1) as usize);
    }
    for b in bits {
        let r = &mut cx.rng;
        let v = 1u64 << b;
        // supervisor registers also from S-mode
        let prv = if n >> 8 & 3 == 1 && r.bool() { 1 } else { 3 };
        if (n == csr::MIP || n == csr::SIP) && b == 9 || n == csr::MISA {
            continue;
        }
        let order = if r.bool() { [Op::Csrrs, Op::Csrrc] } else { [Op::Csrrc, Op::Csrrs] };
        for op in order {
            let small = v < 32 && r.chance(1, 3);
            let op = match (op, small) {
                (Op::Csrrs, true) => Op::Csrrsi,
                (Op::Csrrc, true) => Op::Csrrci,
                (o, _) => o,
            };
            let rd = r.pick(&[0, 12]);
            let out = csr_op(&mut rig, op, rd, v, n, prv)?;
            cx.st.count("single-bit writes");
            cx.st.case(if out.is_some() { key(&[n as u64, b, op as u64, prv, rv64 as u64]) } else { None });
            for w in views(n).iter().chain([&n]) {
                let p = if w >> 8 & 3 == 1 && r.bool() { 1 } else { 3 };
                csr_op(&mut rig, Op::Csrrs, 12, 0, *w, p)?;
                // with x0 as source nothing is written
                if r.chance(1, 4) {
                    let w = enc(Op::Csrrc, 12, 0, 0, *w as i64);
                    let pc = slot(&rig, r, 4);
                    rig.poke(pc, &w.to_le_bytes());
                    rig.set_pc(pc);
                    rig.step()?;
                }
            }
        }
        // MIE must not let interrupts in all the time
        if rig.m.c.mstatus & MIE != 0 && r.chance(1, 2) {
            csr_op(&mut rig, Op::Csrrci, 0, 8, csr::MSTATUS, 3)?;
        }
    }
    // a full-width write and the views of it
    for _ in 0..8 {
        let r = &mut cx.rng;
        let mut v = r.edgy(64);
        if n == csr::MIP || n == csr::SIP {
            v &= !(1 << 9);
        }
        let op = r.pick(&[Op::Csrrw, Op::Csrrs, Op::Csrrc]);
        csr_op(&mut rig, op, 12, v, n, 3)?;
        for w in views(n).iter().chain([&n]) {
            csr_op(&mut rig, Op::Csrrs, 12, 0, *w, 3)?;
        }
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

const ACCESSES: [(Op, Acc); 12] = [
    (Op::Lb, Acc::Load), (Op::Lhu, Acc::Load), (Op::Lw, Acc::Load), (Op::Ld, Acc::Load),
    (Op::Sb, Acc::Store), (Op::Sh, Acc::Store), (Op::Sw, Acc::Store), (Op::Sd, Acc::Store),
    (Op::LrW, Acc::Load), (Op::ScW, Acc::Store), (Op::AmoaddW, Acc::Store), (Op::AmoswapW, Acc::Store),
];

/// Any access instruction through x13 (value in x14, result in x12), or None for a fetch.
fn pick_access(r: &mut Rng, rv64: bool) -> Option<Op> {
    if r.chance(1, 5) {
        return None;
    }
    loop {
        let (op, _) = r.pick(&ACCESSES);
        if rv64 || size_of(op) < 8 {
            return Some(op);
        }
    }
}

/// Performs it; a fetch jumps to the address by setting pc. The code page is chosen by the caller.
fn do_access(rig: &mut Rig, r: &mut Rng, op: Option<Op>, va: u64, prv: u64, code: u64) -> Result<Option<StepOut>, Violation> {
    let n = match op {
        None => {
            rig.set_prv(prv);
            rig.set_pc(va & !1);
            rig.step()?
        }
        Some(op) => {
            let v = r.edgy(64);
            rig.set_x(14, v);
            rig.set_x(13, va);
            rig.set_prv(prv);
            rig.poke(code, &enc(op, 12, 13, 14, 0).to_le_bytes());
            rig.set_pc(code);
            rig.step()?
        }
    };
    Ok(match n {
        Next::Go(o) => Some(o),
        Next::Open => None,
    })
}

pub fn one_mapping(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    rig.begin();
    let r = &mut cx.rng;
    let xm = rig.m.xmask();
    let m = &mut rig.m;
    m.c.pmpcfg[0] = 0x1f;
    m.c.pmpaddr[0] = xm & ((1 << 54) - 1);
    m.c.mtvec = base + 0x100;
    m.c.stvec = base + 0x200;
    m.c.medeleg = r.u64() & MEDELEG_MASK;
    let mut t = Tables::new(base, rv64, 0);
    let full = PTE_V | PTE_R | PTE_W | PTE_X | PTE_A | PTE_D;
    let (s_code, u_code) = (base + CODE, base + CODE + 0x1000);
    t.map(&mut m.mem, s_code, 0, s_code >> 12 << 10 | full);
    t.map(&mut m.mem, u_code, 0, u_code >> 12 << 10 | full | PTE_U);
    let level = r.below(t.levels() as u64) as u32;
    let span = 12 + t.vbits() * level;
    let region = loop {
        let va = match (r.below(6), rv64) {
            (0, true) => (1 << 38) - (1 << span),
            (1, true) => !((1u64 << 38) - 1),
            (2, true) => 0u64.wrapping_sub(1 << span),
            (_, true) => ((r.u64() << 25) as i64 >> 25) as u64,
            (0, false) => 0xffff_ffff,
            (1, false) => 0,
            (_, false) => r.u64() & xm,
        };
        let va = va >> span << span;
        // not the region the code is in
        if va >> (12 + t.vbits() * 1) != base >> (12 + t.vbits() * 1) && (level < 2 || va >> 30 != base >> 30) {
            break va & xm;
        }
    };
    let psize = if rv64 { 8 } else { 4 };
    let first = t.ptes.len();
    if !t.map(&mut m.mem, region, level, 0) {
        cx.put(rig);
        return Ok(());
    }
    let path: Vec<u64> = t.ptes[first..].to_vec(); // new intermediate entries, then the leaf
    let leaf = *path.last().unwrap();
    let inner: Vec<(u64, u64)> = path[..path.len() - 1].iter().map(|a| (*a, m.mem.read(*a, psize))).collect();
    m.c.satp = t.satp();
    for i in 0..512 {
        let v = r.u64();
        m.mem.write(base + DATA + 8 * i, 8, v & 0xffff_0000_ffff_0000 | 0x0001_0000_0001); // c.nop among data
    }
    m.pc = s_code;
    if !rig.start() {
        cx.st.inconclusive("start state not accepted");
        return Ok(());
    }
    for n in 0..50u64 {
        let r = &mut cx.rng;
        // the leaf
        let mut fl = PTE_V | PTE_A | PTE_D | r.pick(&[PTE_R, PTE_X, PTE_R | PTE_X, PTE_R | PTE_W, PTE_R | PTE_W | PTE_X]);
        if r.bool() {
            fl |= PTE_U;
        }
        match r.below(4) {
            0 => fl ^= 1 << r.below(8),
            1 => fl = r.u64() & 0xff,
            _ => (),
        }
        fl |= r.below(4) << 8;
        let low = (1u64 << (t.vbits() * level)) - 1;
        let target = match r.below(10) {
            0 => r.pick(&[0x1000u64, 0x0200_0000, 0x0c00_0000, 0x1000_0000, 0x0200_4000]),
            1 => base + DRAM_SIZE - 0x1000,
            2 => r.pick(&[0u64, 0x2000, base + DRAM_SIZE, base.wrapping_sub(0x1000), 0x0201_0000]),
            3 if !rv64 => (1 << 34) - 0x1000,
            3 => (1 << 56) - 0x1000,
            4 if !rv64 => 1 << 32 | base, // Sv32 reaches beyond 4 GiB
            _ => base + DATA + r.below(DATA_PAGES) * 0x1000,
        };
        let mut ppn = target >> 12;
        let off = (ppn & low) << 12;
        if level > 0 {
            ppn &= !low;
            if r.chance(1, 6) {
                ppn |= 1 << r.below((t.vbits() * level) as u64);
            }
        }
        let pte = (ppn << 10 | fl) & if rv64 { (1 << 54) - 1 } else { 0xffff_ffff };
        rig.poke(leaf, &pte.to_le_bytes()[..psize as usize]);
        for (a, v) in &inner {
            let v = if r.chance(1, 20) {
                match r.below(4) {
                    0 => v & !1,
                    1 => v | PTE_W,
                    2 => v ^ 1 << (10 + r.below(22)),
                    _ => v | PTE_R | PTE_A | PTE_D | PTE_W, // a leaf higher up
                }
            } else {
                *v
            };
            rig.poke(*a, &v.to_le_bytes()[..psize as usize]);
        }
        // the status register, through M-mode
        let mut st = random_mstatus(r) & !(MIE | SIE);
        let mprv = r.chance(1, 3);
        if mprv {
            st |= MPRV;
        } else {
            st &= !MPRV;
        }
        csr_op(&mut rig, Op::Csrrw, 0, st, csr::MSTATUS, 3)?;
        let f = base + CODE + 0x400;
        rig.poke(f, &enc(Op::SfenceVma, 0, 0, 0, 0).to_le_bytes());
        rig.set_pc(f);
        rig.step()?;
        let r = &mut cx.rng;
        let prv = if mprv { r.pick(&[3, 3, 1, 0]) } else { r.pick(&[1, 0, 1, 0, 3]) };
        let code = if prv == 0 { u_code } else { s_code } + 0x800 + (n & 15) * 4;
        let op = pick_access(r, rv64);
        let mut va = region.wrapping_add(off).wrapping_add(r.pick(&[0u64, 8, 0xff8, 0xff0, 0x10, 0x800]));
        if op.is_none() {
            va = va.wrapping_add(2 * r.below(4));
        } else if r.chance(1, 12) {
            va = va.wrapping_add(r.below(8));
        }
        if level > 0 && r.chance(1, 4) {
            va = region.wrapping_add(r.u64() & ((1 << span) - 8));
        }
        if rv64 && r.chance(1, 12) {
            va ^= 1 << (39 + r.below(25));
        }
        if r.chance(1, 30) {
            va = region.wrapping_sub(8);
        }
        let Some(out) = do_access(&mut rig, r, op, va & xm, prv, code)? else {
            cx.st.count("not decided");
            continue;
        };
        cx.st.count(match out.traps.first() {
            None => "mapped accesses done",
            Some((12 | 13 | 15, _)) => "page faults",
            Some((1 | 5 | 7, _)) => "access faults",
            _ => "other exceptions",
        });
        cx.st.case(key(&[
            fl, level as u64, op.map(|o| o as u64).unwrap_or(999), prv,
            st & (SUM | MXR | MPRV | MPP), rv64 as u64, target,
        ]));
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

/// A few pages accessed again and again while what decides about them changes: the status bits and
/// the privilege mode with nothing in between, the entries, the root and the PMP with an
/// sfence.vma behind each change, as the architecture asks of a guest.
pub fn revisited(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    rig.begin();
    let r = &mut cx.rng;
    let xm = rig.m.xmask();
    let m = &mut rig.m;
    m.c.pmpcfg[15] = 0x1f;
    m.c.pmpaddr[15] = xm & ((1 << 54) - 1);
    m.c.mtvec = base + 0x100;
    m.c.stvec = base + 0x200;
    m.c.medeleg = r.u64() & MEDELEG_MASK;
    let full = PTE_V | PTE_R | PTE_W | PTE_X | PTE_A | PTE_D;
    let (s_code, u_code) = (base + CODE, base + CODE + 0x1000);
    let psize = if rv64 { 8 } else { 4 };
    let pages: Vec<u64> = (0..3)
        .map(|i| {
            let va = match (r.below(3), i) {
                (0, _) => base + DATA + r.below(DATA_PAGES) * 0x1000, // the same number as a physical page
                (1, 1) => 0x4000_0000 + r.below(0x100) * 0x1000,
                _ if rv64 => ((r.u64() << 25) as i64 >> 25) as u64 & !0xfff,
                _ => r.u64() & xm & !0xfff,
            };
            va & xm
        })
        .collect();
    let fresh = |r: &mut Rng| -> u64 {
        let mut fl = PTE_V | PTE_A | PTE_D | r.pick(&[PTE_R, PTE_X, PTE_R | PTE_X, PTE_R | PTE_W, PTE_R | PTE_W | PTE_X]);
        if r.bool() {
            fl |= PTE_U;
        }
        if r.chance(1, 5) {
            fl ^= 1 << r.below(8);
        }
        (base + DATA + r.below(DATA_PAGES) * 0x1000) >> 12 << 10 | fl
    };
    let mut leaves = vec![]; // (page, root, address)
    let mut roots = vec![];
    for w in 0..2 {
        let mut t = Tables::new(base, rv64, w);
        t.map(&mut m.mem, s_code, 0, s_code >> 12 << 10 | full);
        t.map(&mut m.mem, u_code, 0, u_code >> 12 << 10 | full | PTE_U);
        for va in &pages {
            if va.wrapping_sub(base + CODE) < CODE_PAGES << 12 {
                continue;
            }
            let e = fresh(r);
            if t.map(&mut m.mem, *va, 0, e) {
                leaves.push(*t.ptes.last().unwrap());
            }
        }
        roots.push(t.satp());
    }
    m.c.satp = roots[0];
    for i in 0..2048 {
        let v = r.u64();
        m.mem.write(base + DATA + 8 * i, 8, v & 0xffff_0000_ffff_0000 | 0x0001_0000_0001);
    }
    m.pc = s_code;
    if !rig.start() {
        cx.st.inconclusive("start state not accepted");
        return Ok(());
    }
    let mut fav = (0u64, None, 1);
    for n in 0..120u64 {
        let r = &mut cx.rng;
        let mut fence = false;
        match r.below(12) {
            0..=3 => {
                let bits = r.pick(&[SUM, MXR, SUM | MXR, MPRV, MPP, MPRV | MPP]);
                let op = r.pick(&[Op::Csrrs, Op::Csrrc, Op::Csrrs, Op::Csrrc, Op::Csrrw]);
                let v = if op == Op::Csrrw { random_mstatus(r) & !(MIE | SIE) } else { bits };
                let reg = r.pick(&[csr::MSTATUS, csr::MSTATUS, csr::SSTATUS]);
                csr_op(&mut rig, op, 0, v, reg, 3)?;
                cx.st.count("status changes");
            }
            4 if !leaves.is_empty() => {
                let a = r.pick(&leaves);
                let e = match r.below(3) {
                    0 => rig.m.mem.read(a, psize) ^ 1 << r.below(8),
                    _ => fresh(r),
                };
                rig.poke(a, &e.to_le_bytes()[..psize as usize]);
                fence = true;
                cx.st.count("entry changes");
            }
            5 => {
                let v = match r.below(5) {
                    0 => 0,
                    _ => r.pick(&roots),
                };
                csr_op(&mut rig, Op::Csrrw, 0, v, csr::SATP, 3)?;
                fence = true;
                cx.st.count("root changes");
            }
            6 => {
                // one data page, or one table, closed or opened again
                let i = r.below(3);
                let reg = csr::PMPADDR0 + i as u16;
                let v = match r.below(4) {
                    0 => (base + PT + r.below(4) * 0x1000 + r.below(2) * 0x2_0000) >> 2 | 0x1ff,
                    _ => (base + DATA + r.below(DATA_PAGES) * 0x1000) >> 2 | 0x1ff,
                };
                csr_op(&mut rig, Op::Csrrw, 0, v, reg, 3)?;
                let r = &mut cx.rng;
                let cfg = r.pick(&[0u64, 0, 0x18, 0x19, 0x1b, 0x1c, 0x1f]) << (8 * i);
                csr_op(&mut rig, Op::Csrrc, 0, 0xff << (8 * i), csr::PMPCFG0, 3)?;
                csr_op(&mut rig, Op::Csrrs, 0, cfg, csr::PMPCFG0, 3)?;
                fence = true;
                cx.st.count("PMP changes");
            }
            _ => (),
        }
        if fence {
            let f = base + CODE + 0x400;
            rig.poke(f, &enc(Op::SfenceVma, 0, 0, 0, 0).to_le_bytes());
            rig.set_prv(3);
            rig.set_pc(f);
            rig.step()?;
        }
        let r = &mut cx.rng;
        if r.chance(1, 2) {
            fav = (r.pick(&pages), pick_access(r, rv64), r.pick(&[0, 1, 1, 3]));
        }
        let (page, op, mut prv) = fav;
        if rig.m.c.mstatus & MPRV != 0 && r.bool() {
            prv = 3;
        }
        let op = match op {
            Some(_) if r.chance(1, 3) => pick_access(r, rv64),
            o => o,
        };
        let mut off = r.pick(&[0u64, 8, 0xff8, 0x10, 0x800]);
        if op.is_none() {
            off += 2 * r.below(4);
        }
        let code = if prv == 0 { u_code } else { s_code } + 0x800 + (n & 15) * 4;
        let va = page + off & xm;
        // with translation off the page number may be anything
        if op.is_some() && (va.wrapping_sub(base + CODE) < 0x4000 || va.wrapping_sub(base + PT) < 0x4_0000) {
            continue;
        }
        let Some(out) = do_access(&mut rig, r, op, va, prv, code)? else {
            cx.st.count("not decided");
            continue;
        };
        cx.st.count(match out.traps.first() {
            None => "revisits done",
            Some((12 | 13 | 15, _)) => "revisits with a page fault",
            Some((1 | 5 | 7, _)) => "revisits with an access fault",
            _ => "other exceptions",
        });
        cx.st.case(key(&[va, op.map(|o| o as u64).unwrap_or(999), prv, rig.m.c.mstatus & (SUM | MXR | MPRV | MPP), rig.m.c.satp, n, rig.steps]));
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

/// The byte range of PMP entry i, empty when off.
fn region(m: &Model, i: usize) -> (u64, u64) {
    let a = m.c.pmpaddr[i];
    match m.c.pmpcfg[i] >> 3 & 3 {
        0 => (0, 0),
        1 => (if i == 0 { 0 } else { m.c.pmpaddr[i - 1] << 2 }, a << 2),
        2 => (a << 2, (a << 2).wrapping_add(4)),
        _ => {
            let k = a.trailing_ones();
            if k > 58 {
                return (0, u64::MAX);
            }
            let s = a >> k << k << 2;
            (s, s.wrapping_add(8 << k))
        }
    }
}

pub fn pmp_edges(cx: &mut Ctx) -> Result<(), Violation> {
    let (rv64, base) = pick_machine(&mut cx.rng);
    let mut rig = cx.rig(rv64, base);
    rig.begin();
    let r = &mut cx.rng;
    let xm = rig.m.xmask();
    let m = &mut rig.m;
    m.c.mtvec = base + 0x100;
    m.c.stvec = base + 0x200;
    m.c.medeleg = r.u64() & MEDELEG_MASK;
    let data: Vec<u64> = (0..16).map(|_| base + DATA + r.below(0x4000) / 4 * 4).collect();
    random_pmp(m, r, &data, base);
    let code_ok = r.chance(5, 6);
    if code_ok {
        // the code pages first, so that the accesses get to happen
        m.c.pmpcfg[0] = 0x1d;
        m.c.pmpaddr[0] = base + CODE >> 2 | 0x1ff;
    }
    // translation with identity tables, readable by PMP or not
    let mut t = Tables::new(base, rv64, 0);
    let full = PTE_V | PTE_R | PTE_W | PTE_X | PTE_A | PTE_D;
    let s_code = base + CODE;
    t.map(&mut m.mem, s_code, 0, s_code >> 12 << 10 | full);
    for i in 0..DATA_PAGES {
        let pa = base + DATA + i * 0x1000;
        t.map(&mut m.mem, pa, 0, pa >> 12 << 10 | full);
    }
    let paged = r.chance(1, 4);
    if paged {
        m.c.satp = t.satp();
    }
    for i in 0..2048 {
        if r.chance(1, 3) {
            m.mem.write(base + DATA + 8 * i, 8, 0x0001_0001_0001_0001);
        }
    }
    m.pc = s_code;
    if !rig.start() {
        cx.st.inconclusive("start state not accepted");
        cx.rigs.clear();
        return Ok(());
    }
    for n in 0..60u64 {
        let r = &mut cx.rng;
        if r.chance(1, 10) {
            // change the configuration through M-mode CSR writes, locked entries included
            let i = r.below(16) as usize;
            let locked = rig.m.c.pmpcfg[i] & 0x80 != 0;
            let (reg, v) = if r.bool() {
                (csr::PMPADDR0 + i as u16, if r.bool() { r.u64() } else { (r.pick(&data) >> 2).wrapping_add(r.below(3)) })
            } else {
                let k = (i / 4) & if rv64 { !1 } else { !0 };
                let mut v = r.u64();
                for j in 0..8 {
                    let b = v >> (8 * j) & 0x9f;
                    // W without R is not judged, and not everything should end up locked
                    let b = if b & 3 == 2 { b | 1 } else { b };
                    let b = if r.chance(15, 16) { b & !0x80 } else { b };
                    v = v & !(0xff << (8 * j)) | b << (8 * j);
                }
                if code_ok && k == 0 {
                    v = v & !0xff | 0x1d;
                }
                (csr::PMPCFG0 + k as u16, v)
            };
            let op = r.pick(&[Op::Csrrw, Op::Csrrs, Op::Csrrc]);
            if code_ok && (reg == csr::PMPADDR0 || reg == csr::PMPCFG0 && op != Op::Csrrw) {
                continue;
            }
            let out = csr_op(&mut rig, op, 12, v, reg, 3)?;
            if out.is_some_and(|o| o.traps.is_empty()) {
                cx.st.count(if locked { "writes to locked entries" } else { "writes to unlocked entries" });
            }
        }
        let r = &mut cx.rng;
        let i = r.below(16) as usize;
        let (lo, hi) = region(&rig.m, i);
        let edge = r.pick(&[lo, hi, hi, lo, lo.wrapping_add(hi.wrapping_sub(lo) / 2)]);
        let mut a = edge.wrapping_add(r.below(20)).wrapping_sub(10);
        if r.chance(1, 6) {
            a = r.pick(&data);
        }
        if r.chance(1, 12) {
            a = device_addr(r, base);
        }
        let op = pick_access(r, rv64);
        if let Some(op) = op {
            if r.chance(7, 8) {
                a &= !(size_of(op) - 1);
            }
        }
        let a = a & xm;
        // stores into the code or tables would only confuse
        if op.is_some() && (a.wrapping_sub(base + CODE) < 0x4000 || a.wrapping_sub(base + PT) < 0x4_0000) {
            continue;
        }
        let prv = r.pick(&[0u64, 1, 1, 3]);
        let prv = if paged && prv == 0 { 1 } else { prv };
        if r.chance(1, 4) {
            let st = random_mstatus(r) & !(MIE | SIE);
            csr_op(&mut rig, Op::Csrrw, 0, st, csr::MSTATUS, 3)?;
        }
        let r = &mut cx.rng;
        let code = s_code + 0x800 + (n & 15) * 4;
        let acc = match op {
            None => Acc::Fetch,
            Some(o) => ACCESSES.iter().find(|x| x.0 == o).unwrap().1,
        };
        rig.set_prv(prv);
        let walk = rig.m.translate(a, acc, rig.m.effective_priv(acc));
        let Some(out) = do_access(&mut rig, r, op, a, prv, code)? else {
            cx.st.count("not decided");
            continue;
        };
        match out.traps.first() {
            None => cx.st.count("allowed accesses"),
            Some((1 | 5 | 7, tv)) => {
                cx.st.count(if *tv == a && walk.is_err() { "walks refused" } else { "refused accesses" });
            }
            Some(_) => cx.st.count("other exceptions"),
        }
        cx.st.case(key(&[a, op.map(|o| o as u64).unwrap_or(999), prv, i as u64, rig.m.c.pmpcfg[i] as u64, rig.m.c.pmpaddr[i], paged as u64]));
    }
    rig.finish()?;
    cx.st.sample(|| rig.last());
    cx.put(rig);
    Ok(())
}

/// Switching the C extension off and on through misa: it must not go off while that would leave the
/// next instruction misaligned, nothing else in misa moves, and the exception pcs read as IALIGN says.
pub fn misa_c(cx: &mut Ctx) -> Result<(), Violation> {
    use crate::emu::{Emu, StepRes};
    let (rv64, base) = pick_machine(&mut cx.rng);
    let r = &mut cx.rng;
    let xm = if rv64 { !0 } else { 0xffff_ffff };
    let mut e = Emu::blank(rv64, base);
    let (mut story, mut k) = (vec![], 0u64);
    let (mut m_raw, mut s_raw) = ([0u64; 2], [0u64; 2]); // values bit 1 may come back as
    let mut now = 0x301;
    let step = |e: &mut Emu, at: u64, w: u32, story: &mut Vec<String>| -> Result<(), Violation> {
        let pc = base + 0x1000 + at;
        e.write_bytes(pc, &w.to_le_bytes());
        e.e.cpu.verif_set_pc(pc);
        story.push(format!("{pc:#x}: {w:08x}, x11 = {:#x}", e.x(11)));
        match e.step() {
            StepRes::Retired => Ok(()),
            StepRes::Trapped => violation("a permitted CSR instruction trapped", format!("in M-mode\n{}", story.join("\n"))),
            StepRes::Panic(p) => violation("the emulator panicked", format!("{p}\n{}", story.join("\n"))),
        }
    };
    e.set_x(11, 0);
    step(&mut e, 0, enc(Op::Csrrs, 10, 0, 0, 0x301), &mut story)?;
    let misa0 = e.x(10);
    if misa0 & 4 == 0 {
        return violation("misa does not say that C is there", format!("{misa0:#x}"));
    }
    let mut c = true;
    for _ in 0..r.range(4, 24) {
        let half = c && r.bool();
        let at = r.below(0x200) * 4 + if half { 2 } else { 0 };
        match r.below(8) {
            0..=3 => {
                let set = if c { false } else { r.below(4) != 0 };
                let op = r.pick(&[Op::Csrrs, Op::Csrrw, Op::Csrrwi]);
                let (op, v) = match op {
                    Op::Csrrw => (op, if set { misa0 } else { misa0 & !4 }),
                    Op::Csrrs => (if set { Op::Csrrs } else { Op::Csrrc }, 4),
                    _ => (if set { Op::Csrrsi } else { Op::Csrrci }, 4),
                };
                let imm = matches!(op, Op::Csrrsi | Op::Csrrci);
                e.set_x(11, v);
                step(&mut e, at, enc(op, 10, if imm { 4 } else { 11 }, 0, 0x301), &mut story)?;
                let was = misa0 & !4 | (c as u64) << 2;
                if e.x(10) != was {
                    return violation("a CSR instruction did not return the old value", format!("misa {:#x} instead of {was:#x}\n{}", e.x(10), story.join("\n")));
                }
                now = at;
                let at2 = at + 4;
                step(&mut e, at2, enc(Op::Csrrs, 12, 0, 0, 0x301), &mut story)?;
                let got = e.x(12);
                if got & !4 != misa0 & !4 {
                    return violation("writing one bit of misa changed others", format!("{got:#x}, it was {was:#x}\n{}", story.join("\n")));
                }
                if got & 4 == 0 && half {
                    return violation("C was switched off with the next instruction at a misaligned address", format!("misa {got:#x}\n{}", story.join("\n")));
                }
                if c == set && (got & 4 != 0) != set {
                    return violation("a write that changes nothing changed misa", format!("misa {got:#x}\n{}", story.join("\n")));
                }
                if c && half {
                    cx.st.add("C kept for alignment", 1);
                }
                if c != (got & 4 != 0) {
                    cx.st.add("C switched", 1);
                }
                c = got & 4 != 0;
            }
            x => {
                let (n, raw) = if r.bool() { (csr::MEPC, &mut m_raw) } else { (csr::SEPC, &mut s_raw) };
                if x < 6 {
                    let v = (if r.bool() { base + 0x3000 + r.below(0x800) } else { r.u64() }) & xm;
                    e.set_x(11, v);
                    step(&mut e, at, enc(Op::Csrrw, 0, 11, 0, n as i64), &mut story)?;
                    *raw = [v & !1, if c { v & !1 } else { v & !3 }];
                }
                if n == csr::MEPC && x == 7 {
                    // MRET reads it too
                    e.set_csr(csr::MSTATUS, 0x1800);
                    e.e.cpu.verif_set_priv(3);
                    step(&mut e, at, 0x3020_0073, &mut story)?;
                    let pc = e.e.cpu.pc();
                    if !raw.iter().any(|v| pc == v & if c { !1 } else { !3 }) {
                        return violation("MRET went elsewhere than mepc reads", format!("pc {pc:#x}, mepc written {:#x}, C {c}\n{}", raw[0], story.join("\n")));
                    }
                    cx.st.add("returns with C off or on", 1);
                } else {
                    let at2 = at + 4;
                    step(&mut e, at2, enc(Op::Csrrs, 12, 0, 0, n as i64), &mut story)?;
                    let got = e.x(12);
                    if !raw.iter().any(|v| got == v & if c { !1 } else { !3 }) {
                        return violation("an exception pc reads wrong for this IALIGN", format!("{got:#x}, written {:#x}, C {c}\n{}", raw[0], story.join("\n")));
                    }
                    cx.st.add("exception pcs read", 1);
                }
            }
        }
        k = mix(k, now ^ (c as u64) << 32);
    }
    cx.st.case(key(&[k, rv64 as u64, base]));
    Ok(())
}
