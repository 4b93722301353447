//! The emulator and the reference model run in lock-step; every step is compared.

use crate::emu::{guarded, Emu, StepRes};
use crate::model::{csr, Model, Step, StepOut, INTS, MEDELEG_MASK, MPP, MPRV, MSTATUS_FIELDS, S_INTS};
use crate::dec::Op;
use crate::report::{violation, Stats, Violation};

/// Architectural state before a step.
#[derive(Clone)]
pub struct Pre {
    regs: [u64; 32],
    pc: u64,
    prv: u64,
    c: crate::model::Csrs,
    res: Option<crate::model::Res>,
    plic: crate::model::Plic,
}

pub struct Rig {
    pub emu: Emu,
    pub m: Model,
    pub steps: u64,
    /// the last instructions, for reports
    tail: std::collections::VecDeque<String>,
    pub verbose: bool,
    watch: std::collections::BTreeSet<u64>,
    /// PLIC levels set from outside: the model only
    ops: Vec<u64>,
    causes: [u64; 128],
    /// trials whose start state had to be taken from the emulator
    pub adopted: u64,
}

pub enum Next {
    /// compared and equal
    Go(StepOut),
    /// the specification leaves the next step open: the trial ends here
    Open,
}

fn hexpair(name: &str, emu: u64, model: u64) -> String {
    format!("{name}: emulator {emu:#x}, reference {model:#x}")
}

const CMP_CSRS: [(u16, &str); 17] = [
    (csr::MSTATUS, "mstatus"), (csr::MEDELEG, "medeleg"), (csr::MIDELEG, "mideleg"),
    (csr::MIE, "mie"), (csr::MTVEC, "mtvec"), (csr::MCOUNTEREN, "mcounteren"),
    (csr::MSCRATCH, "mscratch"), (csr::MEPC, "mepc"), (csr::MCAUSE, "mcause"),
    (csr::MTVAL, "mtval"), (csr::STVEC, "stvec"), (csr::SCOUNTEREN, "scounteren"),
    (csr::SSCRATCH, "sscratch"), (csr::SEPC, "sepc"), (csr::SCAUSE, "scause"),
    (csr::STVAL, "stval"), (csr::SATP, "satp"),
];

const RUNNING_BASES: [u64; 4] = [0x8000_0000, 0x4000_0000, 0x1_0000_0000, 0x2000_0000];
pub fn some_base(k: u64) -> u64 {
    RUNNING_BASES[k as usize % 4]
}

impl Rig {
    pub fn new(rv64: bool, base: u64) -> Rig {
        let mut emu = Emu::blank(rv64, base);
        let mrom = emu.rom();
        Rig {
            emu,
            m: Model::new(rv64, base, mrom),
            steps: 0,
            tail: Default::default(),
            verbose: false,
            watch: Default::default(),
            ops: vec![0; 128],
            causes: [0; 128],
            adopted: 0,
        }
    }

    /// Clean slate on both sides; the caller then sets up the model and calls start().
    pub fn begin(&mut self) {
        if self.m.c.pmpcfg.iter().any(|c| c & 0x80 != 0) {
            // locked entries can only be reset with the hart
            let n = Rig::new(self.m.rv64, self.m.mem.base);
            let (ops, causes, verbose) = (std::mem::take(&mut self.ops), self.causes, self.verbose);
            *self = n;
            self.ops = ops;
            self.causes = causes;
            self.verbose = verbose;
        }
        let pages: Vec<u64> = self.m.mem.pages.keys().copied().collect();
        for p in pages {
            if self.m.mem.contains(p << 12, 4096) {
                for i in 0..512 {
                    let a = (p << 12) + 8 * i;
                    if self.emu.r64(a) != 0 {
                        self.emu.w64(a, 0);
                    }
                }
            }
        }
        self.m.mem.pages.clear();
        self.m.regs = [0; 32];
        self.m.c = crate::model::Csrs::reset();
        self.m.prv = 3;
        self.m.pc = self.m.mem.base;
        self.m.res = None;
        self.tail.clear();
        self.watch.clear();
        let bus = &mut self.emu.e.cpu.bus;
        if self.m.dev_touched {
            // UART and PLIC back to quiet
            for (o, v) in [(3u64, 0u64), (1, 0), (4, 8), (2, 2), (1, 0)] {
                let _ = bus.store8(0x1000_0000 + o, v);
            }
            for id in 1..32 {
                if id == 1 || self.m.plic.level >> id & 1 == 1 {
                    bus.plic.set_interrupt_level(id, 0);
                }
                let _ = bus.store32(0x0c00_0000 + 4 * id as u64, 0);
            }
            for ctx in 0..2 {
                let _ = bus.store32(0x0c00_2000 + 0x80 * ctx, 0);
                let _ = bus.store32(0x0c20_0000 + 0x1000 * ctx, 0);
            }
            self.m.plic = crate::model::Plic::new();
            self.m.uart = crate::model::Uart::new();
            self.m.dev_touched = false;
        }
        self.m.msip = 0;
        self.m.mtime = 0;
        self.m.mtimecmp = u64::MAX;
    }

    pub fn xm(&self) -> u64 {
        self.m.xmask()
    }

    fn push_csr(&mut self, n: u16, v: u64, mask: u64) {
        if (self.emu.csr(n) ^ v) & mask != 0 {
            self.emu.set_csr(n, v);
        }
    }

    /// Copies the model's state into the emulator. False: the emulator legalises some value
    /// differently, so the trial cannot start from this state (not a verdict).
    pub fn start(&mut self) -> bool {
        let m = &self.m;
        let pages: Vec<(u64, Box<[u8; 4096]>)> =
            m.mem.pages.iter().map(|(k, v)| (*k, v.clone())).collect();
        for (p, d) in pages {
            if !self.m.mem.contains(p << 12, 4096) {
                continue;
            }
            for i in 0..512usize {
                let v = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
                let a = (p << 12) + 8 * i as u64;
                if self.emu.r64(a) != v {
                    self.emu.w64(a, v);
                }
            }
        }
        for r in 1..32 {
            let v = self.m.regs[r];
            self.emu.set_x(r, v);
        }
        let c = self.m.c.clone();
        let xm = self.xm();
        let (hi, hik) = self.m.status_hi();
        self.push_csr(csr::MSTATUS, c.mstatus | hi, MSTATUS_FIELDS | hik);
        self.push_csr(csr::MEDELEG, c.medeleg, xm);
        self.push_csr(csr::MIDELEG, c.mideleg, xm);
        self.push_csr(csr::MIE, c.mie, xm);
        self.push_csr(csr::MIP, c.mip_sw, 0x22);
        for (n, v) in [
            (csr::MTVEC, c.mtvec), (csr::STVEC, c.stvec), (csr::MCOUNTEREN, c.mcounteren),
            (csr::SCOUNTEREN, c.scounteren), (csr::MSCRATCH, c.mscratch),
            (csr::SSCRATCH, c.sscratch), (csr::MEPC, c.mepc), (csr::SEPC, c.sepc),
            (csr::MCAUSE, c.mcause), (csr::SCAUSE, c.scause), (csr::MTVAL, c.mtval),
            (csr::STVAL, c.stval), (csr::SATP, c.satp),
        ] {
            self.push_csr(n, v, xm);
        }
        let step = if self.m.rv64 { 8 } else { 4 };
        for i in 0..16 {
            self.push_csr(csr::PMPADDR0 + i as u16, c.pmpaddr[i], xm);
        }
        for i in (0..16).step_by(step) {
            let n = csr::PMPCFG0 + (i / 4) as u16;
            let v = (0..step).fold(0u64, |a, j| a | (c.pmpcfg[i + j] as u64) << (8 * j));
            self.push_csr(n, v, xm);
        }
        for i in 0..8 {
            self.emu.set_csr(csr::TSELECT, i);
            self.push_csr(csr::TDATA1, c.tdata1[i as usize], xm);
            self.push_csr(csr::TDATA2, c.tdata2[i as usize], xm);
        }
        self.emu.set_csr(csr::TSELECT, c.tselect);
        let bus = &mut self.emu.e.cpu.bus;
        let _ = bus.store32(0x0200_0000, self.m.msip);
        let _ = bus.store64(0x0200_4000, self.m.mtimecmp);
        let _ = bus.store64(0x0200_bff8, self.m.mtime);
        self.emu.e.cpu.verif_set_priv(self.m.prv);
        self.emu.e.cpu.verif_set_pc(self.m.pc);
        self.emu.e.cpu.reservation_set = None;
        self.m.res = None;
        if self.full_diff().is_none() {
            return true;
        }
        // Some CSR did not take the value pushed through the hook. The trial runs from what
        // the CSRs hold instead: a trial must not be lost because of the way the state was
        // prepared, and what guest-executed CSR writes do is judged in the steps.
        self.adopt();
        self.full_diff().is_none()
    }

    /// Takes over the emulator's CSR values.
    fn adopt(&mut self) {
        self.adopted += 1;
        let xm = self.xm();
        let e = &mut self.emu;
        let c = &mut self.m.c;
        c.mstatus = e.csr(csr::MSTATUS) & MSTATUS_FIELDS;
        c.medeleg = e.csr(csr::MEDELEG) & MEDELEG_MASK;
        c.mideleg = e.csr(csr::MIDELEG) & S_INTS;
        c.mie = e.csr(csr::MIE) & INTS;
        c.mip_sw = e.csr(csr::MIP) & 0x22;
        for (n, f) in [
            (csr::MTVEC, &mut c.mtvec), (csr::STVEC, &mut c.stvec),
            (csr::MCOUNTEREN, &mut c.mcounteren), (csr::SCOUNTEREN, &mut c.scounteren),
            (csr::MSCRATCH, &mut c.mscratch), (csr::SSCRATCH, &mut c.sscratch),
            (csr::MEPC, &mut c.mepc), (csr::SEPC, &mut c.sepc),
            (csr::MCAUSE, &mut c.mcause), (csr::SCAUSE, &mut c.scause),
            (csr::MTVAL, &mut c.mtval), (csr::STVAL, &mut c.stval), (csr::SATP, &mut c.satp),
        ] {
            *f = e.csr(n) & xm;
        }
        c.mcounteren &= 7;
        c.scounteren &= 7;
        let step = if self.m.rv64 { 8 } else { 4 };
        for i in 0..16 {
            c.pmpaddr[i] = e.csr(csr::PMPADDR0 + i as u16) & xm;
            let v = e.csr(csr::PMPCFG0 + (i / step * step / 4) as u16);
            c.pmpcfg[i] = (v >> (8 * (i % step))) as u8 & 0x9f;
        }
        c.tselect = e.csr(csr::TSELECT) & 7;
        for i in 0..8 {
            e.set_csr(csr::TSELECT, i);
            c.tdata1[i as usize] = e.csr(csr::TDATA1) & (0xfu64 << (xm.count_ones() - 4) | 0x7df);
            c.tdata2[i as usize] = e.csr(csr::TDATA2) & xm;
        }
        e.set_csr(csr::TSELECT, c.tselect);
    }

    fn regs_diff(&self, m_regs: &[u64; 32], m_pc: u64, m_prv: u64) -> Option<String> {
        let xm = self.xm();
        let e = &self.emu;
        let pc = e.e.cpu.pc();
        let mut d = vec![];
        if pc & xm != m_pc & xm {
            d.push(hexpair("pc", pc, m_pc));
        }
        let prv = e.e.cpu.verif_priv();
        if prv != m_prv {
            d.push(hexpair("privilege", prv, m_prv));
        }
        for r in 0..32 {
            let v = e.x(r) & xm;
            if v != m_regs[r] & xm {
                d.push(hexpair(&format!("x{r}"), v, m_regs[r]));
            }
        }
        if d.is_empty() { None } else { Some(d.join("; ")) }
    }

    fn csr_diff(&self, m: &Model) -> Option<String> {
        let mut d = vec![];
        for (n, name) in CMP_CSRS {
            let (v, known) = m.csr_value(n).unwrap();
            let e = self.emu.csr(n);
            if (e ^ v) & known != 0 {
                d.push(hexpair(name, e & known, v & known));
            }
        }
        let e = self.emu.csr(csr::MIP);
        if (e ^ m.c.mip_sw) & 0x22 != 0 {
            d.push(hexpair("mip(SSIP,STIP)", e & 0x22, m.c.mip_sw));
        }
        if d.is_empty() { None } else { Some(d.join("; ")) }
    }

    fn ext_diff(&mut self) -> Option<String> {
        let mut d = vec![];
        let rv64 = self.m.rv64;
        let mut list: Vec<u16> = (0x3b0..0x3c0).collect();
        list.extend(if rv64 { vec![0x3a0, 0x3a2] } else { vec![0x3a0, 0x3a1, 0x3a2, 0x3a3] });
        list.push(csr::TSELECT);
        for n in list {
            let (v, known) = self.m.csr_value(n).unwrap();
            let e = self.emu.csr(n);
            if (e ^ v) & known != 0 {
                d.push(hexpair(&format!("CSR {n:#x}"), e & known, v & known));
            }
        }
        let ts = self.emu.csr(csr::TSELECT);
        let saved = self.m.c.tselect;
        for i in 0..8 {
            self.emu.set_csr(csr::TSELECT, i);
            self.m.c.tselect = i;
            for n in [csr::TDATA1, csr::TDATA2] {
                let (v, known) = self.m.csr_value(n).unwrap();
                let e = self.emu.csr(n);
                if (e ^ v) & known != 0 {
                    d.push(hexpair(&format!("trigger {i} CSR {n:#x}"), e & known, v & known));
                }
            }
        }
        self.m.c.tselect = saved;
        self.emu.set_csr(csr::TSELECT, ts);
        if d.is_empty() { None } else { Some(d.join("; ")) }
    }

    fn page_diff(&mut self) -> Option<String> {
        let (base, emu) = (self.m.mem.base, &mut self.emu);
        let _ = base;
        let mut d = vec![];
        for (p, data) in self.m.mem.pages.iter() {
            if !self.m.mem.contains(p << 12, 4096) {
                continue;
            }
            for i in 0..512usize {
                let v = u64::from_le_bytes(data[8 * i..8 * i + 8].try_into().unwrap());
                let a = (p << 12) + 8 * i as u64;
                let e = emu.r64(a);
                if e != v {
                    d.push(hexpair(&format!("memory {a:#x}"), e, v));
                    if d.len() > 4 {
                        return Some(d.join("; "));
                    }
                }
            }
        }
        if d.is_empty() { None } else { Some(d.join("; ")) }
    }

    pub fn full_diff(&mut self) -> Option<String> {
        let a = self.regs_diff(&self.m.regs, self.m.pc, self.m.prv);
        let b = self.csr_diff(&self.m);
        let c = self.ext_diff();
        let d = self.page_diff();
        let v: Vec<String> = [a, b, c, d].into_iter().flatten().collect();
        if v.is_empty() { None } else { Some(v.join("; ")) }
    }

    fn pre(&self) -> Pre {
        let m = &self.m;
        Pre { regs: m.regs, pc: m.pc, prv: m.prv, c: m.c.clone(), res: m.res, plic: m.plic.clone() }
    }
    fn restore(&mut self, p: &Pre) {
        let m = &mut self.m;
        m.regs = p.regs;
        m.pc = p.pc;
        m.prv = p.prv;
        m.c = p.c.clone();
        m.res = p.res;
    }

    pub fn describe(out: &StepOut) -> String {
        if out.interrupt {
            return format!("interrupt {}", out.traps[0].0);
        }
        match &out.inst {
            Some(i) => format!(
                "{:?} rd=x{} rs1=x{} rs2=x{} imm={:#x} ({:0w$x})",
                i.op, i.rd, i.rs1, i.rs2, i.imm, i.raw, w = if i.len == 2 { 4 } else { 8 }
            ),
            None => "no instruction (fetch fault or illegal)".into(),
        }
    }

    fn report<T>(&self, pre: &Pre, out: &StepOut, what: &str, diff: String) -> Result<T, Violation> {
        let inst = Self::describe(out);
        let regs: Vec<String> = (0..32)
            .filter(|r| pre.regs[*r] != 0)
            .map(|r| format!("x{r}={:#x}", pre.regs[r]))
            .collect();
        let opn = out.inst.map(|i| format!("{:?}", i.op)).unwrap_or(if out.interrupt {
            "interrupt".into()
        } else {
            "no instruction".into()
        });
        // the first differing item names the signature
        let key: String = diff.split(':').next().unwrap_or("").to_string();
        let key: String = key.split_whitespace().next().unwrap_or("").to_string();
        let traps = if out.traps.is_empty() {
            "retires".to_string()
        } else {
            format!("traps with (cause, tval) in {:x?}{}", out.traps, if out.may_retire { " or retires" } else { "" })
        };
        violation(
            format!("{what}: {opn} differs from the reference in {key} ({})", if self.m.rv64 { "rv64" } else { "rv32" }),
            format!(
                "rv{} step {}: {inst} at pc={:#x} in mode {}; the reference {traps}\n  {diff}\n  before: {}\n  CSRs: {:x?}\n  last instructions:\n    {}",
                self.m.xlen(), self.steps, pre.pc, pre.prv, regs.join(" "), pre.c,
                self.tail.iter().cloned().collect::<Vec<_>>().join("\n    ")
            ),
        )
    }

    /// One step on both sides.
    pub fn step(&mut self) -> Result<Next, Violation> {
        let pre = self.pre();
        let mut out = match self.m.step() {
            Step::Done(o) => o,
            Step::Unspec(_) => {
                self.restore(&pre);
                self.m.plic = pre.plic.clone();
                self.m.stores.clear();
                return Ok(Next::Open);
            }
        };
        self.steps += 1;
        if self.tail.len() >= 12 {
            self.tail.pop_front();
        }
        let line = (pre.pc, pre.prv, out.interrupt, out.inst, out.traps.first().copied());
        self.tail.push_back(String::new());
        let er = self.emu.step();
        if let StepRes::Panic(msg) = er {
            let at = msg.rsplit(" at ").next().unwrap_or("").to_string();
            return self.report(&pre, &out, &format!("emulator panicked ({at})"), format!("panic: {msg}"));
        }
        let (trapped_e, mut done) = (er == StepRes::Trapped, false);
        // the trap the emulator took must be one of those allowed
        if !out.traps.is_empty() && (trapped_e || !out.may_retire) {
            let post_mem = out.clone();
            let _ = post_mem;
            let mut first = None;
            let mut alts = out.traps.clone();
            alts.dedup();
            for (cause, tval) in alts {
                self.restore(&pre);
                self.m.take_trap(cause, tval, out.interrupt);
                let d = self
                    .regs_diff(&self.m.regs, self.m.pc, self.m.prv)
                    .into_iter()
                    .chain(self.csr_diff(&self.m))
                    .collect::<Vec<_>>()
                    .join("; ");
                if d.is_empty() {
                    self.causes[(cause + if out.interrupt { 64 } else { 0 }) as usize & 127] += 1;
                    out.traps = vec![(cause, tval)];
                    done = true;
                    break;
                }
                first.get_or_insert(d);
            }
            if !done {
                let d = first.unwrap();
                return self.report(&pre, &out, "trap", d);
            }
            out.may_retire = false;
        } else {
            out.traps.clear();
            if trapped_e {
                return self.report(&pre, &out, "unexpected trap", {
                    let e = &self.emu;
                    let (c, t, p) = if e.e.cpu.verif_priv() == 1 {
                        (csr::SCAUSE, csr::STVAL, csr::SEPC)
                    } else {
                        (csr::MCAUSE, csr::MTVAL, csr::MEPC)
                    };
                    format!(
                        "trap: the emulator trapped with cause {:#x}, tval {:#x}, epc {:#x}",
                        e.csr(c), e.csr(t), e.csr(p)
                    )
                });
            }
            if let Some(i) = &out.inst {
                self.ops[i.op as usize & 127] += 1;
            }
            if let Some((pa, size, v, rd)) = out.sc_open {
                let old = self.m.mem.read(pa, size);
                let mut now = 0;
                for i in 0..size {
                    now |= (self.emu.r8(pa + i) as u64) << (8 * i);
                }
                let mask = if size == 8 { u64::MAX } else { 0xffff_ffff };
                let ok = if rd != 0 { self.emu.x(rd) == 0 } else { now == v & mask };
                let _ = old;
                if ok {
                    self.m.mem.write(pa, size, v);
                }
                let x = self.emu.x(rd);
                self.m.set_x(rd, x);
            }
            if let Some((rd, mask)) = out.unk_rd {
                let v = self.emu.x(rd);
                if let Some(i) = &out.inst {
                    if matches!(i.op, Op::ScW | Op::ScD) && rd != 0 && v & self.xm() == 0 {
                        return self.report(&pre, &out, "store-conditional", "rd: a failing store-conditional returned 0".into());
                    }
                }
                let n = self.m.regs[rd] & !mask | v & mask;
                self.m.set_x(rd, n);
            }
            if let Some(n) = out.unk_csr {
                let v = self.emu.csr(n) & self.xm();
                match n {
                    csr::MCAUSE => self.m.c.mcause = v,
                    csr::SCAUSE => self.m.c.scause = v,
                    csr::TSELECT => {
                        if v > 7 {
                            return Ok(Next::Open);
                        }
                        self.m.c.tselect = v
                    }
                    _ => (),
                }
            }
            if out.unk_mprv {
                let v = self.emu.csr(csr::MSTATUS) & MPRV;
                self.m.c.mstatus = self.m.c.mstatus & !MPRV | v;
            }
            if out.unk_mpp {
                let v = self.emu.csr(csr::MSTATUS) & MPP;
                if v == 2 << 11 {
                    return self.report(&pre, &out, "illegal MPP", "mstatus.MPP: emulator 2 is not a legal value".into());
                }
                self.m.c.mstatus = self.m.c.mstatus & !MPP | v;
            }
            let d = self
                .regs_diff(&self.m.regs, self.m.pc, self.m.prv)
                .into_iter()
                .chain(self.csr_diff(&self.m))
                .collect::<Vec<_>>()
                .join("; ");
            if !d.is_empty() {
                return self.report(&pre, &out, "state", d);
            }
            if matches!(out.inst, Some(i) if (i.op as usize) >= Op::Csrrw as usize && (i.op as usize) <= Op::Csrrci as usize) {
                if let Some(d) = self.ext_diff() {
                    return self.report(&pre, &out, "state", d);
                }
            }
        }
        *self.tail.back_mut().unwrap() = format!(
            "{:#x} [{}] {}{}",
            line.0,
            line.1,
            match &line.3 {
                Some(_) => Self::describe(&out),
                None => "".into(),
            },
            match out.traps.first() {
                Some((c, t)) => format!(" -> {} {c} tval {t:#x}", if line.2 { "interrupt" } else { "exception" }),
                None => "".into(),
            }
        );
        if self.verbose {
            crate::report::say(self.tail.back().unwrap());
        }
        // bytes around what was stored
        let stores = std::mem::take(&mut self.m.stores);
        for (a, n) in &stores {
            let lo = a.saturating_sub(16).max(self.m.mem.base);
            let end = self.m.mem.base + crate::model::DRAM_SIZE;
            let hi = (a + n + 16).min(end);
            for b in lo..hi {
                let e = self.emu.r8(b);
                let v = self.m.mem.read(b, 1) as u8;
                if e != v {
                    return self.report(&pre, &out, "memory", hexpair(&format!("memory {b:#x}"), e as u64, v as u64));
                }
            }
        }
        self.m.stores = stores;
        Ok(Next::Go(out))
    }

    /// The last instruction, for samples.
    pub fn last(&self) -> String {
        self.tail(1)
    }
    pub fn tail(&self, n: usize) -> String {
        let k = self.tail.len().saturating_sub(n);
        self.tail.iter().skip(k).cloned().collect::<Vec<_>>().join(" | ")
    }

    /// Runs up to n steps; the number of steps compared.
    pub fn run(&mut self, n: u64) -> Result<u64, Violation> {
        for k in 0..n {
            match self.step()? {
                Next::Go(_) => (),
                Next::Open => return Ok(k),
            }
        }
        Ok(n)
    }

    /// Everything that is not compared after each step.
    pub fn finish(&mut self) -> Result<(), Violation> {
        let mut d: Vec<String> = vec![];
        d.extend(self.ext_diff());
        d.extend(self.page_diff());
        if !d.is_empty() {
            let pre = self.pre();
            return self.report(&pre, &Model::blank(), "end of the run", d.join("; "));
        }
        Ok(())
    }

    pub fn set_x(&mut self, r: usize, v: u64) {
        let v = v & self.xm();
        if r != 0 {
            self.m.set_x(r, v);
            self.emu.set_x(r, v);
        }
    }
    pub fn set_pc(&mut self, pc: u64) {
        self.m.pc = pc & self.xm();
        self.emu.e.cpu.verif_set_pc(pc & self.xm());
    }
    pub fn set_prv(&mut self, p: u64) {
        self.m.prv = p;
        self.emu.e.cpu.verif_set_priv(p);
    }
    /// Write memory on both sides.
    pub fn poke(&mut self, a: u64, b: &[u8]) {
        for (i, v) in b.iter().enumerate() {
            self.m.mem.write(a + i as u64, 1, *v as u64);
        }
        self.emu.write_bytes(a, b);
    }
    /// One timer tick of the main loop on both sides.
    pub fn tick(&mut self, inc: u64) -> Result<(), Violation> {
        let cpu = &mut self.emu.e.cpu;
        let r = guarded(|| {
            cpu.reservation_set = None;
            cpu.timer_increment(inc);
            cpu.bus.uart.tick(&mut cpu.bus.plic);
        });
        if let Err(m) = r {
            return violation("panic in the timer tick", m);
        }
        self.m.mtime = self.m.mtime.wrapping_add(inc);
        self.m.res = None;
        Ok(())
    }
    /// Drive an interrupt line of the PLIC on both sides.
    pub fn level(&mut self, id: u32, on: bool) -> Result<(), Violation> {
        let plic = &mut self.emu.e.cpu.bus.plic;
        if let Err(m) = guarded(|| plic.set_interrupt_level(id, on as u32)) {
            return violation("panic in the PLIC", m);
        }
        self.m.plic.set_level(id, on);
        self.m.dev_touched = true;
        Ok(())
    }

    pub fn flush_stats(&mut self, st: &mut Stats) {
        for (i, n) in self.ops.iter_mut().enumerate() {
            if *n > 0 {
                let name = format!("retired {:?}", crate::dec::op_from(i));
                *st.named.entry(name).or_insert(0) += *n;
                *n = 0;
            }
        }
        for (i, n) in self.causes.iter_mut().enumerate() {
            if *n > 0 {
                let name = if i >= 64 { format!("interrupt {}", i - 64) } else { format!("exception {i}") };
                *st.named.entry(name).or_insert(0) += *n;
                *n = 0;
            }
        }
        st.add("steps compared", self.steps);
        self.steps = 0;
        if self.adopted > 0 {
            st.add("start states taken from the emulator", self.adopted);
            self.adopted = 0;
        }
    }

    /// Every page the emulator's memory has ever touched must match the model (zero when the model
    /// does not have it).
    pub fn sweep(&mut self) -> Result<u64, Violation> {
        let base = self.m.mem.base;
        let host = self.host_addr();
        let pages = present_pages(host);
        let mut n = 0;
        for p in pages {
            let a = base + p * 4096;
            n += 1;
            for i in 0..512 {
                let b = a + 8 * i;
                if b + 8 > base + crate::model::DRAM_SIZE {
                    break;
                }
                let e = self.emu.r64(b);
                let v = self.m.mem.read(b, 8);
                if e != v {
                    return violation(
                        "memory no instruction addressed has changed",
                        format!("at the end of the run: {}", hexpair(&format!("memory {b:#x}"), e, v)),
                    );
                }
            }
        }
        Ok(n)
    }

    fn host_addr(&self) -> Option<usize> {
        crate::emu::dram_host_addr(&self.emu)
    }
}

/// Page numbers (relative to DRAM) that the host has backed; when that cannot be found out, a
/// sample of all pages.
pub fn present_pages(host: Option<usize>) -> Vec<u64> {
    use std::io::{Read, Seek, SeekFrom};
    let total = crate::model::DRAM_SIZE / 4096;
    let Some(host) = host else { return (0..total).step_by(64).collect() };
    let first = host / 4096;
    let read = || -> std::io::Result<Vec<u8>> {
        let mut f = std::fs::File::open("/proc/self/pagemap")?;
        f.seek(SeekFrom::Start(first as u64 * 8))?;
        let mut v = vec![0u8; (total as usize + 1) * 8];
        f.read_exact(&mut v)?;
        Ok(v)
    };
    match read() {
        Err(_) => (0..total).step_by(64).collect(),
        Ok(v) => {
            let off = host % 4096;
            let mut out = std::collections::BTreeSet::new();
            for (i, e) in v.chunks(8).enumerate() {
                let e = u64::from_le_bytes(e.try_into().unwrap());
                if e >> 62 != 0 {
                    // host page i covers guest bytes [4096*i - off, ...)
                    let lo = (i as i64 * 4096 - off as i64).max(0) as u64 / 4096;
                    let hi = (i as i64 * 4096 - off as i64 + 4095) as u64 / 4096;
                    for p in lo..=hi {
                        if p < total {
                            out.insert(p);
                        }
                    }
                }
            }
            out.into_iter().collect()
        }
    }
}

pub fn legal_ints() -> (u64, u64, u64) {
    (INTS, S_INTS, MEDELEG_MASK)
}
