//! Reference model of the machine: RV32/RV64 IMAC_Zicsr hart with M/S/U, Sv32/Sv39, PMP,
//! address triggers, CLINT, PLIC, UART registers. Written from the specifications and from
//! /verif/properties.jsonl, independently of the emulator's code.
//!
//! Where the specification (or the property list) leaves a behaviour open, the model says so
//! (`Step::Unspec`, alternatives, or bits to be adopted) instead of guessing.

use crate::dec::{decode16, decode32, Inst, Op};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct PageHasher(u64);
impl Hasher for PageHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    }
}
pub type PageMap<T> = HashMap<u64, T, BuildHasherDefault<PageHasher>>;

pub const DRAM_SIZE: u64 = 1 << 31;

#[derive(Clone)]
pub struct Mem {
    pub base: u64,
    pub pages: PageMap<Box<[u8; 4096]>>,
}

impl Mem {
    pub fn new(base: u64) -> Mem {
        Mem { base, pages: Default::default() }
    }
    pub fn contains(&self, a: u64, n: u64) -> bool {
        a >= self.base && a - self.base <= DRAM_SIZE - n
    }
    pub fn page(&mut self, a: u64) -> &mut [u8; 4096] {
        self.pages.entry(a >> 12).or_insert_with(|| Box::new([0; 4096]))
    }
    /// naturally aligned, so never across a page
    pub fn read(&self, a: u64, n: u64) -> u64 {
        let mut v = 0;
        if a & 0xfff <= 4096 - n {
            match self.pages.get(&(a >> 12)) {
                None => return 0,
                Some(p) => {
                    let o = (a & 0xfff) as usize;
                    for i in 0..n as usize {
                        v |= (p[o + i] as u64) << (8 * i);
                    }
                    return v;
                }
            }
        }
        for i in 0..n {
            v |= self.read(a + i, 1) << (8 * i);
        }
        v
    }
    pub fn write(&mut self, a: u64, n: u64, v: u64) {
        for i in 0..n {
            let b = a + i;
            self.page(b)[(b & 0xfff) as usize] = (v >> (8 * i)) as u8;
        }
    }
}

pub const SIE: u64 = 1 << 1;
pub const MIE: u64 = 1 << 3;
pub const SPIE: u64 = 1 << 5;
pub const MPIE: u64 = 1 << 7;
pub const SPP: u64 = 1 << 8;
pub const MPP: u64 = 3 << 11;
pub const MPRV: u64 = 1 << 17;
pub const SUM: u64 = 1 << 18;
pub const MXR: u64 = 1 << 19;
pub const TVM: u64 = 1 << 20;
pub const TW: u64 = 1 << 21;
pub const TSR: u64 = 1 << 22;
/// the mstatus fields the model knows
pub const MSTATUS_FIELDS: u64 =
    SIE | MIE | SPIE | MPIE | SPP | MPP | MPRV | SUM | MXR | TVM | TW | TSR;
pub const SSTATUS_FIELDS: u64 = SIE | SPIE | SPP | SUM | MXR;
/// bits of sstatus that belong to M-mode fields and must read as zero
pub const SSTATUS_ZERO: u64 = MIE | MPIE | MPP | MPRV | TVM | TW | TSR;
pub const INTS: u64 = 0xaaa;
pub const S_INTS: u64 = 0x222;
pub const M_INTS: u64 = 0x888;
pub const MEDELEG_MASK: u64 = 0xb3ff;

pub mod csr {
    pub const SSTATUS: u16 = 0x100;
    pub const SIE: u16 = 0x104;
    pub const STVEC: u16 = 0x105;
    pub const SCOUNTEREN: u16 = 0x106;
    pub const SSCRATCH: u16 = 0x140;
    pub const SEPC: u16 = 0x141;
    pub const SCAUSE: u16 = 0x142;
    pub const STVAL: u16 = 0x143;
    pub const SIP: u16 = 0x144;
    pub const SATP: u16 = 0x180;
    pub const MSTATUS: u16 = 0x300;
    pub const MISA: u16 = 0x301;
    pub const MEDELEG: u16 = 0x302;
    pub const MIDELEG: u16 = 0x303;
    pub const MIE: u16 = 0x304;
    pub const MTVEC: u16 = 0x305;
    pub const MCOUNTEREN: u16 = 0x306;
    pub const MSCRATCH: u16 = 0x340;
    pub const MEPC: u16 = 0x341;
    pub const MCAUSE: u16 = 0x342;
    pub const MTVAL: u16 = 0x343;
    pub const MIP: u16 = 0x344;
    pub const PMPCFG0: u16 = 0x3a0;
    pub const PMPADDR0: u16 = 0x3b0;
    pub const TSELECT: u16 = 0x7a0;
    pub const TDATA1: u16 = 0x7a1;
    pub const TDATA2: u16 = 0x7a2;
    pub const CYCLE: u16 = 0xc00;
    pub const INSTRET: u16 = 0xc02;
    pub const CYCLEH: u16 = 0xc80;
    pub const INSTRETH: u16 = 0xc82;
    pub const TIME: u16 = 0xc01;
    pub const TIMEH: u16 = 0xc81;
    pub const MVENDORID: u16 = 0xf11;
    pub const MARCHID: u16 = 0xf12;
    pub const MIMPID: u16 = 0xf13;
    pub const MHARTID: u16 = 0xf14;
}

/// The modelled CSRs with state of their own, in comparison order.
pub const STATE_CSRS: [u16; 18] = [
    csr::STVEC, csr::SCOUNTEREN, csr::SSCRATCH, csr::SEPC, csr::SCAUSE, csr::STVAL, csr::SATP,
    csr::MSTATUS, csr::MEDELEG, csr::MIDELEG, csr::MIE, csr::MTVEC, csr::MCOUNTEREN, csr::MSCRATCH,
    csr::MEPC, csr::MCAUSE, csr::MTVAL, csr::MIP,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Csrs {
    pub mstatus: u64,
    pub medeleg: u64,
    pub mideleg: u64,
    pub mie: u64,
    pub mip_sw: u64, // SSIP, STIP
    pub mtvec: u64,
    pub mcounteren: u64,
    pub mscratch: u64,
    pub mepc: u64,
    pub mcause: u64,
    pub mtval: u64,
    pub stvec: u64,
    pub scounteren: u64,
    pub sscratch: u64,
    pub sepc: u64,
    pub scause: u64,
    pub stval: u64,
    pub satp: u64,
    pub pmpcfg: [u8; 16],
    pub pmpaddr: [u64; 16],
    pub tselect: u64,
    pub tdata1: [u64; 8],
    pub tdata2: [u64; 8],
}

impl Csrs {
    pub fn reset() -> Csrs {
        Csrs {
            mstatus: 0, medeleg: 0, mideleg: 0, mie: 0, mip_sw: 0, mtvec: 0, mcounteren: 0,
            mscratch: 0, mepc: 0, mcause: 0, mtval: 0, stvec: 0, scounteren: 0, sscratch: 0,
            sepc: 0, scause: 0, stval: 0, satp: 0, pmpcfg: [0; 16], pmpaddr: [0; 16], tselect: 0,
            tdata1: [0; 8], tdata2: [0; 8],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plic {
    pub prio: [u32; 32],
    pub enable: [u32; 2],
    pub thr: [u32; 2],
    pub claimed: [u32; 2],
    pub level: u32,
}

impl Plic {
    pub fn new() -> Plic {
        Plic { prio: [0; 32], enable: [0; 2], thr: [0; 2], claimed: [0; 2], level: 0 }
    }
    fn best(&self, ctx: usize) -> u32 {
        let cand = self.level & self.enable[ctx] & !self.claimed[ctx];
        let mut best = 0u32;
        for id in 1..32u32 {
            if cand >> id & 1 == 1
                && self.prio[id as usize] > 0
                && (best == 0 || self.prio[id as usize] > self.prio[best as usize])
            {
                best = id;
            }
        }
        best
    }
    pub fn line(&self, ctx: usize) -> bool {
        let b = self.best(ctx);
        b != 0 && self.prio[b as usize] > self.thr[ctx]
    }
    pub fn set_level(&mut self, id: u32, on: bool) {
        if on {
            self.level |= 1 << id;
        } else {
            self.level &= !(1 << id);
            self.claimed[0] &= !(1 << id);
            self.claimed[1] &= !(1 << id);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Uart {
    pub rx: std::collections::VecDeque<u8>,
    pub dll: Option<u8>,
    pub dlm: Option<u8>,
    pub ier: u8,
    pub lcr: u8,
    pub mcr: u8,
    pub scr: Option<u8>,
    pub tx: Vec<u8>,
}

impl Uart {
    pub fn new() -> Uart {
        Uart {
            rx: Default::default(), dll: None, dlm: None, ier: 0, lcr: 0, mcr: 8, scr: None,
            tx: vec![],
        }
    }
    pub fn dlab(&self) -> bool {
        self.lcr & 0x80 != 0
    }
    pub fn irq(&self) -> bool {
        self.ier & 1 != 0 && !self.rx.is_empty() || self.ier & 2 != 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Fetch,
    Load,
    Store,
}

impl Acc {
    fn page_fault(self) -> u64 {
        match self {
            Acc::Fetch => 12,
            Acc::Load => 13,
            Acc::Store => 15,
        }
    }
    pub fn access_fault(self) -> u64 {
        match self {
            Acc::Fetch => 1,
            Acc::Load => 5,
            Acc::Store => 7,
        }
    }
    fn misaligned(self) -> u64 {
        match self {
            Acc::Fetch => 0,
            Acc::Load => 4,
            Acc::Store => 6,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Fault(u64),
    Unspec(&'static str),
}

pub enum Bus {
    Data { v: u64, known: u64 },
    Fault,
    Unspec(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Res {
    pub pa: u64,
    pub size: u64,
}

/// What one step did, as far as it is specified.
#[derive(Clone, Debug)]
pub struct StepOut {
    /// the permitted (cause, tval) pairs if an exception or interrupt must be taken
    pub traps: Vec<(u64, u64)>,
    pub interrupt: bool,
    /// the instruction may also retire (with the state in the model) although traps is not empty
    pub may_retire: bool,
    /// bits of register rd whose value is not specified
    pub unk_rd: Option<(usize, u64)>,
    /// CSR whose value is unspecified after this step
    pub unk_csr: Option<u16>,
    /// MPRV is unspecified after this step
    pub unk_mprv: bool,
    /// a store-conditional whose outcome is not specified: (pa, size, value, rd)
    pub sc_open: Option<(u64, u64, u64, usize)>,
    /// MPP may be any legal value after this step
    pub unk_mpp: bool,
    pub inst: Option<Inst>,
}

pub enum Step {
    Done(StepOut),
    Unspec(&'static str),
}

#[derive(Clone)]
pub struct Model {
    pub rv64: bool,
    pub regs: [u64; 32],
    pub pc: u64,
    pub prv: u64,
    pub c: Csrs,
    pub res: Option<Res>,
    pub mem: Mem,
    pub msip: u64,
    pub mtime: u64,
    pub mtimecmp: u64,
    pub plic: Plic,
    pub uart: Uart,
    pub mrom: std::sync::Arc<Vec<u8>>,
    /// DRAM stores of the last step: (address, size)
    pub stores: Vec<(u64, u64)>,
    /// whether PLIC/UART were touched (for cheap resets)
    pub dev_touched: bool,
    /// physical accesses to devices and memory in the last step (for coverage)
    pub touched: [u64; 6],
}

const MROM_BASE: u64 = 0x1000;
const CLINT_BASE: u64 = 0x0200_0000;
const CLINT_SIZE: u64 = 0x10000;
const PLIC_BASE: u64 = 0x0c00_0000;
const PLIC_SIZE: u64 = 0x100_0000;
const UART_BASE: u64 = 0x1000_0000;
const UART_SIZE: u64 = 0x100;

impl Model {
    pub fn new(rv64: bool, base: u64, mrom: Vec<u8>) -> Model {
        Model {
            rv64,
            regs: [0; 32],
            pc: MROM_BASE,
            prv: 3,
            c: Csrs::reset(),
            res: None,
            mem: Mem::new(base),
            msip: 0,
            mtime: 0,
            mtimecmp: 0,
            plic: Plic::new(),
            uart: Uart::new(),
            mrom: std::sync::Arc::new(mrom),
            stores: vec![],
            dev_touched: false,
            touched: [0; 6],
        }
    }

    pub fn xmask(&self) -> u64 {
        if self.rv64 { u64::MAX } else { 0xffff_ffff }
    }
    pub fn xlen(&self) -> u32 {
        if self.rv64 { 64 } else { 32 }
    }
    /// sign-extended register value
    pub fn sx(&self, v: u64) -> i64 {
        if self.rv64 { v as i64 } else { v as u32 as i32 as i64 }
    }
    pub fn x(&self, r: usize) -> u64 {
        self.regs[r]
    }
    pub fn set_x(&mut self, r: usize, v: u64) {
        if r != 0 {
            self.regs[r] = v & self.xmask();
        }
    }

    // ---- interrupts ----------------------------------------------------------------------

    pub fn mip(&self) -> u64 {
        self.c.mip_sw
            | (self.msip & 1) << 3
            | ((self.mtime >= self.mtimecmp) as u64) << 7
            | (self.plic.line(1) as u64) << 9
            | (self.plic.line(0) as u64) << 11
    }

    pub fn pending_interrupt(&self) -> Option<u64> {
        let p = self.mip() & self.c.mie & INTS;
        let m_on = self.prv < 3 || self.c.mstatus & MIE != 0;
        let s_on = self.prv < 1 || self.prv == 1 && self.c.mstatus & SIE != 0;
        let m = if m_on { p & !self.c.mideleg } else { 0 };
        let s = if s_on { p & self.c.mideleg } else { 0 };
        let set = if m != 0 { m } else { s };
        [11, 3, 7, 9, 1, 5].into_iter().find(|b| set >> b & 1 == 1)
    }

    pub fn take_trap(&mut self, cause: u64, tval: u64, interrupt: bool) {
        let deleg = if interrupt { self.c.mideleg } else { self.c.medeleg & MEDELEG_MASK };
        let to_s = self.prv < 3 && deleg >> cause & 1 == 1;
        let xcause = if interrupt { cause | 1 << (self.xlen() - 1) } else { cause };
        let tval = tval & self.xmask();
        let epc = self.pc & !1;
        let st = self.c.mstatus;
        let vec;
        if to_s {
            self.c.scause = xcause;
            self.c.sepc = epc;
            self.c.stval = tval;
            let mut n = st & !(SIE | SPIE | SPP);
            if st & SIE != 0 {
                n |= SPIE;
            }
            if self.prv == 1 {
                n |= SPP;
            }
            self.c.mstatus = n;
            self.prv = 1;
            vec = self.c.stvec;
        } else {
            self.c.mcause = xcause;
            self.c.mepc = epc;
            self.c.mtval = tval;
            let mut n = st & !(MIE | MPIE | MPP);
            if st & MIE != 0 {
                n |= MPIE;
            }
            n |= self.prv << 11;
            self.c.mstatus = n;
            self.prv = 3;
            vec = self.c.mtvec;
        }
        let base = vec & !3;
        self.pc = if vec & 3 == 1 && interrupt { base.wrapping_add(4 * cause) } else { base }
            & self.xmask();
    }

    // ---- PMP ----------------------------------------------------------------------------------

    /// Whether the access to [pa, pa+size) is allowed.
    pub fn pmp_ok(&self, pa: u64, size: u64, acc: Acc, prv: u64) -> bool {
        let lo = pa as u128;
        let hi = lo + size as u128;
        for i in 0..16 {
            let cfg = self.c.pmpcfg[i];
            let a = self.c.pmpaddr[i] as u128;
            let (s, e) = match cfg >> 3 & 3 {
                0 => continue,
                1 => {
                    let s = if i == 0 { 0 } else { (self.c.pmpaddr[i - 1] as u128) << 2 };
                    (s, a << 2)
                }
                2 => (a << 2, (a << 2) + 4),
                _ => {
                    // yyyy...01..1: NAPOT
                    let mut k = 0;
                    while a >> k & 1 == 1 {
                        k += 1;
                    }
                    let len = 8u128 << k;
                    let s = (a >> k << k) << 2;
                    (s, s + len)
                }
            };
            if e <= s || hi <= s || e <= lo {
                continue;
            }
            if !(s <= lo && hi <= e) {
                return false; // matches some bytes but not all
            }
            if prv == 3 && cfg & 0x80 == 0 {
                return true;
            }
            return match acc {
                Acc::Load => cfg & 1 != 0,
                Acc::Store => cfg & 2 != 0,
                Acc::Fetch => cfg & 4 != 0,
            };
        }
        prv == 3
    }

    // ---- address translation ---------------------------------------------------------------

    pub fn effective_priv(&self, acc: Acc) -> u64 {
        if acc != Acc::Fetch && self.c.mstatus & MPRV != 0 {
            self.c.mstatus >> 11 & 3
        } else {
            self.prv
        }
    }

    pub fn translation_on(&self) -> bool {
        if self.rv64 { self.c.satp >> 60 == 8 } else { self.c.satp >> 31 == 1 }
    }

    pub fn translate(&self, va: u64, acc: Acc, prv: u64) -> Result<u64, Fail> {
        if prv == 3 || !self.translation_on() {
            return Ok(va);
        }
        let pf = Err(Fail::Fault(acc.page_fault()));
        let (levels, ptesize, vbits, pbits) =
            if self.rv64 { (3, 8u64, 9, 44) } else { (2, 4u64, 10, 22) };
        if self.rv64 {
            let top = (va as i64) >> 38;
            if top != 0 && top != -1 {
                return pf;
            }
        }
        let mut ppn = self.c.satp & ((1u64 << pbits) - 1);
        let mut level = levels as i32 - 1;
        loop {
            let idx = va >> (12 + vbits * level as u32) & ((1 << vbits) - 1);
            let pa = (ppn << 12) + idx * ptesize;
            if !self.mem.contains(pa, ptesize) {
                if pa >= MROM_BASE && pa < MROM_BASE + self.mrom.len() as u64 {
                    return Err(Fail::Unspec("page table in boot ROM"));
                }
                return Err(Fail::Fault(acc.access_fault()));
            }
            if !self.pmp_ok(pa, ptesize, Acc::Load, 1) {
                return Err(Fail::Fault(acc.access_fault()));
            }
            let pte = self.mem.read(pa, ptesize);
            let (v, r, w, x, u) =
                (pte & 1, pte >> 1 & 1, pte >> 2 & 1, pte >> 3 & 1, pte >> 4 & 1);
            if v == 0 || r == 0 && w == 1 {
                return pf;
            }
            if self.rv64 && pte >> 54 != 0 {
                return Err(Fail::Unspec("reserved PTE bits"));
            }
            let pppn = pte >> 10;
            if r == 0 && x == 0 {
                if level == 0 {
                    return pf;
                }
                if pte & 0xd0 != 0 {
                    return Err(Fail::Unspec("non-leaf PTE with D, A or U"));
                }
                ppn = pppn;
                level -= 1;
                continue;
            }
            // leaf
            if prv == 0 && u == 0 {
                return pf;
            }
            if prv == 1 && u == 1 && (acc == Acc::Fetch || self.c.mstatus & SUM == 0) {
                return pf;
            }
            let ok = match acc {
                Acc::Fetch => x == 1,
                Acc::Load => r == 1 || self.c.mstatus & MXR != 0 && x == 1,
                Acc::Store => w == 1,
            };
            if !ok {
                return pf;
            }
            let low = (1u64 << (vbits * level as u32)) - 1;
            if pppn & low != 0 {
                return pf;
            }
            if pte >> 6 & 1 == 0 || acc == Acc::Store && pte >> 7 & 1 == 0 {
                return pf;
            }
            let vpn = va >> 12 & low;
            return Ok((pppn | vpn) << 12 | va & 0xfff);
        }
    }

    // ---- triggers ---------------------------------------------------------------------------

    /// Some(true): a trigger fires; None: not specified.
    fn trigger(&self, va: u64, acc: Acc, bit: u64) -> Option<bool> {
        let xl = self.xlen();
        let mut fire = false;
        for i in 0..8 {
            let t = self.c.tdata1[i];
            if t >> (xl - 4) != 2 {
                continue;
            }
            let mode = match self.prv {
                3 => t >> 6 & 1,
                1 => t >> 4 & 1,
                _ => t >> 3 & 1,
            };
            if mode == 0 || t & bit == 0 || t >> 7 & 0xf != 0 || self.c.tdata2[i] != va {
                continue;
            }
            if acc != Acc::Fetch && self.c.mstatus & MPRV != 0 && self.prv == 3 {
                return None;
            }
            fire = true;
        }
        Some(fire)
    }

    /// A load trigger that would match an AMO's read half (not specified whether it fires).
    fn load_trigger_set(&self, va: u64) -> bool {
        self.trigger(va, Acc::Load, 1) != Some(false)
    }

    /// Writing this to tdata1: does the model know what it means?
    fn tdata1_known(&self, v: u64) -> bool {
        let xl = self.xlen();
        let ty = v >> (xl - 4);
        // type 2, dmode 0, no hit/select/timing/size bits, action 0, no chain, match 0
        ty == 0 || ty == 2 && (v & !(0xfu64 << (xl - 4)) & !0x5f) == 0
    }

    // ---- physical memory and devices ------------------------------------------------------

    fn plic_reg_read(&mut self, off: u64) -> Bus {
        let ok = |v: u32| Bus::Data { v: v as u64, known: 0xffff_ffff };
        match off {
            4..=0x7f => ok(self.plic.prio[(off / 4) as usize]),
            0..=0x1fff => Bus::Unspec("PLIC register that does not exist"),
            0x2000 => ok(self.plic.enable[0]),
            0x2080 => ok(self.plic.enable[1]),
            0x2004..=0x20ff => Bus::Unspec("PLIC register that does not exist"),
            0x20_0000 | 0x20_1000 => ok(self.plic.thr[(off >> 12 & 1) as usize]),
            0x20_0004 | 0x20_1004 => {
                let ctx = (off >> 12 & 1) as usize;
                let id = self.plic.best(ctx);
                if id != 0 {
                    self.plic.claimed[ctx] |= 1 << id;
                }
                ok(id)
            }
            _ => Bus::Unspec("PLIC register that does not exist"),
        }
    }

    fn plic_reg_write(&mut self, off: u64, v: u32) -> Bus {
        let done = Bus::Data { v: 0, known: 0 };
        match off {
            4..=0x7f => {
                if v > 15 {
                    return Bus::Unspec("PLIC priority above the maximum");
                }
                self.plic.prio[(off / 4) as usize] = v;
                done
            }
            0x2000 | 0x2080 => {
                let ctx = (off >> 7 & 1) as usize;
                let new = v & !1;
                if self.plic.claimed[ctx] & !new != 0 {
                    return Bus::Unspec("disabling a claimed source");
                }
                self.plic.enable[ctx] = new;
                done
            }
            0x20_0000 | 0x20_1000 => {
                if v > 15 {
                    return Bus::Unspec("PLIC threshold above the maximum");
                }
                self.plic.thr[(off >> 12 & 1) as usize] = v;
                done
            }
            0x20_0004 | 0x20_1004 => {
                let ctx = (off >> 12 & 1) as usize;
                if v < 32 && self.plic.enable[ctx] >> v & 1 == 1 {
                    self.plic.claimed[ctx] &= !(1 << v);
                }
                done
            }
            _ => Bus::Unspec("PLIC register that does not exist"),
        }
    }

    fn uart_read(&mut self, off: u64) -> Bus {
        let some = |v: Option<u8>| match v {
            Some(v) => Bus::Data { v: v as u64, known: 0xff },
            None => Bus::Data { v: 0, known: 0 },
        };
        match off {
            0 if self.uart.dlab() => some(self.uart.dll),
            0 => {
                let v = self.uart.rx.pop_front();
                self.uart_irq();
                some(v)
            }
            1 if self.uart.dlab() => some(self.uart.dlm),
            1 => Bus::Data { v: self.uart.ier as u64, known: 0xff },
            2 => {
                let id = if self.uart.ier & 1 != 0 && !self.uart.rx.is_empty() {
                    4
                } else if self.uart.ier & 2 != 0 {
                    2
                } else {
                    1
                };
                Bus::Data { v: id, known: 0x0f }
            }
            3 => Bus::Data { v: self.uart.lcr as u64, known: 0xff },
            4 => Bus::Data { v: self.uart.mcr as u64, known: 0x1f },
            5 => Bus::Data { v: 0x60 | !self.uart.rx.is_empty() as u64, known: 0x61 },
            7 => some(self.uart.scr),
            _ => Bus::Data { v: 0, known: 0 },
        }
    }

    pub fn uart_irq(&mut self) {
        let on = self.uart.irq();
        self.plic.set_level(1, on);
    }

    fn uart_write(&mut self, off: u64, v: u8) -> Bus {
        match off {
            0 if self.uart.dlab() => self.uart.dll = Some(v),
            0 if self.uart.mcr & 0x10 != 0 => {
                if self.uart.rx.len() >= 64 {
                    return Bus::Unspec("loop-back queue full");
                }
                self.uart.rx.push_back(v);
            }
            0 => self.uart.tx.push(v),
            1 if self.uart.dlab() => self.uart.dlm = Some(v),
            1 => self.uart.ier = v & 0x0f,
            2 => {
                if v & 2 != 0 {
                    self.uart.rx.clear();
                }
            }
            3 => self.uart.lcr = v,
            4 => self.uart.mcr = v,
            7 => self.uart.scr = Some(v),
            _ => (),
        }
        self.uart_irq();
        Bus::Data { v: 0, known: 0 }
    }

    fn clint_read(&mut self, off: u64, size: u64) -> Bus {
        let all = u64::MAX;
        match (off, size) {
            (0, 4) => Bus::Data { v: self.msip, known: all },
            (0x4000, 8) => Bus::Data { v: self.mtimecmp, known: all },
            (0x4000, 4) => Bus::Data { v: self.mtimecmp & 0xffff_ffff, known: all },
            (0x4004, 4) => Bus::Data { v: self.mtimecmp >> 32, known: all },
            (0xbff8, 8) => Bus::Data { v: self.mtime, known: all },
            (0xbff8, 4) => Bus::Data { v: self.mtime & 0xffff_ffff, known: all },
            (0xbffc, 4) => Bus::Data { v: self.mtime >> 32, known: all },
            _ => Bus::Data { v: 0, known: 0 },
        }
    }

    fn clint_write(&mut self, off: u64, size: u64, v: u64) -> Bus {
        let lo = |old: u64| old & !0xffff_ffff | v & 0xffff_ffff;
        let hi = |old: u64| old & 0xffff_ffff | v << 32;
        match (off, size) {
            (0, 4) if v & 0xffff_ffff <= 1 => self.msip = v & 1,
            (0, _) => return Bus::Unspec("msip written with other bits"),
            (0x4000, 8) => self.mtimecmp = v,
            (0x4000, 4) => self.mtimecmp = lo(self.mtimecmp),
            (0x4004, 4) => self.mtimecmp = hi(self.mtimecmp),
            (0xbff8, 8) => self.mtime = v,
            (0xbff8, 4) => self.mtime = lo(self.mtime),
            (0xbffc, 4) => self.mtime = hi(self.mtime),
            _ => (),
        }
        Bus::Data { v: 0, known: 0 }
    }

    pub fn bus_read(&mut self, pa: u64, size: u64) -> Bus {
        if self.mem.contains(pa, size) {
            self.touched[0] += 1;
            return Bus::Data { v: self.mem.read(pa, size), known: u64::MAX };
        }
        if (MROM_BASE..MROM_BASE + self.mrom.len() as u64).contains(&pa) {
            self.touched[1] += 1;
            let o = (pa - MROM_BASE) as usize;
            let mut v = 0;
            for i in 0..size as usize {
                v |= (*self.mrom.get(o + i).unwrap_or(&0) as u64) << (8 * i);
            }
            return Bus::Data { v, known: u64::MAX };
        }
        if (CLINT_BASE..CLINT_BASE + CLINT_SIZE).contains(&pa) {
            self.touched[2] += 1;
            if size < 4 {
                return Bus::Fault;
            }
            return self.clint_read(pa - CLINT_BASE, size);
        }
        if (PLIC_BASE..PLIC_BASE + PLIC_SIZE).contains(&pa) {
            self.touched[3] += 1;
            if size < 4 {
                return Bus::Fault;
            }
            self.dev_touched = true;
            let off = pa - PLIC_BASE;
            let lo = self.plic_reg_read(off);
            if size == 4 {
                return lo;
            }
            return match (lo, self.plic_reg_read(off + 4)) {
                (Bus::Data { v, known }, Bus::Data { v: v2, known: k2 }) => {
                    Bus::Data { v: v | v2 << 32, known: known | k2 << 32 }
                }
                _ => Bus::Unspec("PLIC register that does not exist"),
            };
        }
        if (UART_BASE..UART_BASE + UART_SIZE).contains(&pa) {
            self.touched[4] += 1;
            if size != 1 {
                return Bus::Fault;
            }
            self.dev_touched = true;
            return self.uart_read(pa - UART_BASE);
        }
        self.touched[5] += 1;
        Bus::Fault
    }

    pub fn bus_write(&mut self, pa: u64, size: u64, v: u64) -> Bus {
        if self.mem.contains(pa, size) {
            self.touched[0] += 1;
            self.mem.write(pa, size, v);
            self.stores.push((pa, size));
            return Bus::Data { v: 0, known: 0 };
        }
        if (MROM_BASE..MROM_BASE + self.mrom.len() as u64).contains(&pa) {
            self.touched[1] += 1;
            return Bus::Fault;
        }
        if (CLINT_BASE..CLINT_BASE + CLINT_SIZE).contains(&pa) {
            self.touched[2] += 1;
            if size < 4 {
                return Bus::Fault;
            }
            return self.clint_write(pa - CLINT_BASE, size, v);
        }
        if (PLIC_BASE..PLIC_BASE + PLIC_SIZE).contains(&pa) {
            self.touched[3] += 1;
            if size < 4 {
                return Bus::Fault;
            }
            self.dev_touched = true;
            let off = pa - PLIC_BASE;
            let lo = self.plic_reg_write(off, v as u32);
            if size == 4 {
                return lo;
            }
            return match (lo, self.plic_reg_write(off + 4, (v >> 32) as u32)) {
                (Bus::Data { .. }, Bus::Data { .. }) => Bus::Data { v: 0, known: 0 },
                _ => Bus::Unspec("PLIC register that does not exist"),
            };
        }
        if (UART_BASE..UART_BASE + UART_SIZE).contains(&pa) {
            self.touched[4] += 1;
            if size != 1 {
                return Bus::Fault;
            }
            self.dev_touched = true;
            return self.uart_write(pa - UART_BASE, v as u8);
        }
        self.touched[5] += 1;
        Bus::Fault
    }

    /// Whether the bus would serve this access (no side effect).
    pub fn bus_serves(&self, pa: u64, size: u64, write: bool) -> bool {
        let within = |b: u64, s: u64| pa >= b && pa - b < s;
        self.mem.contains(pa, size)
            || within(MROM_BASE, self.mrom.len() as u64) && !write
            || within(CLINT_BASE, CLINT_SIZE) && size >= 4
            || within(PLIC_BASE, PLIC_SIZE) && size >= 4
            || within(UART_BASE, UART_SIZE) && size == 1
    }

    // ---- fetch ----------------------------------------------------------------------------------

    fn fetch_parcel(&self, va: u64) -> Result<u16, Fail> {
        let pa = self.translate(va, Acc::Fetch, self.prv)?;
        if !self.pmp_ok(pa, 2, Acc::Fetch, self.prv) {
            return Err(Fail::Fault(1));
        }
        if self.mem.contains(pa, 2) {
            return Ok(self.mem.read(pa, 2) as u16);
        }
        if pa >= MROM_BASE && pa - MROM_BASE + 2 <= self.mrom.len() as u64 && pa < 0x1_0000 {
            let o = (pa - MROM_BASE) as usize;
            return Ok(self.mrom[o] as u16 | (self.mrom[o + 1] as u16) << 8);
        }
        Err(Fail::Fault(1))
    }

    // ---- CSRs ------------------------------------------------------------------------------------

    pub fn status_hi(&self) -> (u64, u64) {
        // UXL and SXL
        if self.rv64 { (0xau64 << 32, 0xfu64 << 32) } else { (0, 0) }
    }

    /// (value, known bits) of a CSR as a read returns it
    pub fn csr_value(&self, n: u16) -> Option<(u64, u64)> {
        let xm = self.xmask();
        let c = &self.c;
        Some(match n {
            csr::MSTATUS => {
                let (v, k) = self.status_hi();
                (c.mstatus | v, MSTATUS_FIELDS | k)
            }
            csr::SSTATUS => {
                let (v, k) = if self.rv64 { (2u64 << 32, 0xfu64 << 32) } else { (0, 0) };
                (c.mstatus & SSTATUS_FIELDS | v, SSTATUS_FIELDS | SSTATUS_ZERO | k)
            }
            csr::MISA => {
                (if self.rv64 { 0x8000_0000_0014_1105 } else { 0x4014_1105 }, xm)
            }
            csr::MEDELEG => (c.medeleg, MEDELEG_MASK),
            csr::MIDELEG => (c.mideleg, S_INTS),
            csr::MIE => (c.mie, INTS),
            csr::MIP => (self.mip(), INTS),
            csr::SIE => (c.mie & c.mideleg & S_INTS, INTS),
            csr::SIP => (self.mip() & c.mideleg & S_INTS, INTS),
            csr::MTVEC => (c.mtvec, xm),
            csr::STVEC => (c.stvec, xm),
            csr::MCOUNTEREN => (c.mcounteren, 7),
            csr::SCOUNTEREN => (c.scounteren, 7),
            csr::MSCRATCH => (c.mscratch, xm),
            csr::SSCRATCH => (c.sscratch, xm),
            csr::MEPC => (c.mepc, xm),
            csr::SEPC => (c.sepc, xm),
            csr::MCAUSE => (c.mcause, xm),
            csr::SCAUSE => (c.scause, xm),
            csr::MTVAL => (c.mtval, xm),
            csr::STVAL => (c.stval, xm),
            csr::SATP => (
                c.satp,
                if self.rv64 { 0xf000_0fff_ffff_ffff } else { 0x803f_ffff },
            ),
            0x3a0..=0x3a3 => {
                let i = (n - 0x3a0) as usize;
                let (first, cnt) = if self.rv64 {
                    if i % 2 == 1 {
                        return None;
                    }
                    (i / 2 * 8, 8)
                } else {
                    (i * 4, 4)
                };
                let (mut v, mut k) = (0, 0);
                for j in 0..cnt {
                    v |= (c.pmpcfg[first + j] as u64) << (8 * j);
                    k |= 0x9fu64 << (8 * j);
                }
                (v, k)
            }
            0x3b0..=0x3bf => (c.pmpaddr[(n - 0x3b0) as usize], xm),
            csr::TSELECT => (c.tselect, xm),
            csr::TDATA1 => (c.tdata1[c.tselect as usize], 0xf << (self.xlen() - 4) | 0x7df),
            csr::TDATA2 => (c.tdata2[c.tselect as usize], xm),
            csr::TIME => (self.mtime & xm, xm),
            csr::TIMEH if !self.rv64 => (self.mtime >> 32, xm),
            csr::MHARTID => (0, xm),
            csr::CYCLE | csr::INSTRET => (0, 0),
            csr::CYCLEH | csr::INSTRETH if !self.rv64 => (0, 0),
            // must be accessible, values are up to the implementation
            csr::MVENDORID | csr::MARCHID | csr::MIMPID | 0xb00 | 0xb02 | 0x320 => (0, 0),
            _ => return None,
        })
    }

    /// Some(true): the access must trap; Some(false): it must not; None: not specified.
    pub fn csr_illegal(&self, n: u16, writes: bool) -> Option<bool> {
        if self.prv < (n >> 8 & 3) as u64 {
            return Some(true);
        }
        if writes && n >> 10 == 3 {
            return Some(true);
        }
        if n & !0x9f == 0xc00 {
            // counters and, on RV32, their upper halves
            let bit = n & 0x1f;
            let off = self.prv < 3 && self.c.mcounteren >> bit & 1 == 0
                || self.prv == 0 && self.c.scounteren >> bit & 1 == 0;
            if bit >= 3 && self.prv < 3 {
                return None;
            }
            if off {
                return Some(true);
            }
            return match n {
                csr::TIME => Some(false),
                csr::CYCLE | csr::INSTRET => Some(false),
                csr::TIMEH | csr::CYCLEH | csr::INSTRETH if !self.rv64 => Some(false),
                _ => None,
            };
        }
        if n == csr::SATP && self.prv == 1 && self.c.mstatus & TVM != 0 {
            return Some(true);
        }
        match self.csr_value(n) {
            Some(_) => Some(false),
            None => None,
        }
    }

    pub fn legal_cause(&self, v: u64) -> bool {
        let top = 1u64 << (self.xlen() - 1);
        if v & top != 0 {
            matches!(v & !top, 1 | 3 | 5 | 7 | 9 | 11)
        } else {
            v <= 15 && v != 10 && v != 14
        }
    }

    /// A CSR write by software. Err: the effect is not specified.
    pub fn csr_write(&mut self, n: u16, v: u64, out: &mut StepOut) -> Result<(), &'static str> {
        let xm = self.xmask();
        let v = v & xm;
        match n {
            csr::MSTATUS => {
                let mut new = v & MSTATUS_FIELDS;
                if new & MPP == 2 << 11 {
                    new = new & !MPP | self.c.mstatus & MPP;
                    out.unk_mpp = true;
                }
                self.c.mstatus = new;
            }
            csr::SSTATUS => {
                self.c.mstatus = self.c.mstatus & !SSTATUS_FIELDS | v & SSTATUS_FIELDS
            }
            csr::MISA => return Err("misa write"),
            csr::MEDELEG => self.c.medeleg = v & MEDELEG_MASK,
            csr::MIDELEG => {
                if v & M_INTS != 0 {
                    return Err("delegating machine interrupts");
                }
                self.c.mideleg = v & S_INTS
            }
            csr::MIE => self.c.mie = v & INTS,
            csr::SIE => {
                let m = self.c.mideleg & S_INTS;
                self.c.mie = self.c.mie & !m | v & m
            }
            csr::MIP => {
                if (v ^ self.mip()) >> 9 & 1 == 1 {
                    return Err("software write of SEIP");
                }
                self.c.mip_sw = v & 0x22
            }
            csr::SIP => {
                let m = self.c.mideleg & 2;
                self.c.mip_sw = self.c.mip_sw & !m | v & m
            }
            csr::MTVEC | csr::STVEC => {
                if v & 2 != 0 {
                    return Err("reserved trap-vector mode");
                }
                if n == csr::MTVEC { self.c.mtvec = v } else { self.c.stvec = v }
            }
            csr::MCOUNTEREN => self.c.mcounteren = v & 7,
            csr::SCOUNTEREN => self.c.scounteren = v & 7,
            csr::MSCRATCH => self.c.mscratch = v,
            csr::SSCRATCH => self.c.sscratch = v,
            csr::MEPC => self.c.mepc = v & !1,
            csr::SEPC => self.c.sepc = v & !1,
            csr::MCAUSE | csr::SCAUSE => {
                if !self.legal_cause(v) {
                    out.unk_csr = Some(n);
                }
                if n == csr::MCAUSE { self.c.mcause = v } else { self.c.scause = v }
            }
            csr::MTVAL => self.c.mtval = v,
            csr::STVAL => self.c.stval = v,
            csr::SATP => {
                if self.rv64 {
                    match v >> 60 {
                        0 | 8 => self.c.satp = v & 0xf000_0fff_ffff_ffff,
                        _ => (),
                    }
                } else {
                    self.c.satp = v & 0x803f_ffff;
                }
            }
            0x3a0..=0x3a3 => {
                let i = (n - 0x3a0) as usize;
                let (first, cnt) = if self.rv64 {
                    if i % 2 == 1 {
                        return Err("odd pmpcfg on RV64");
                    }
                    (i / 2 * 8, 8)
                } else {
                    (i * 4, 4)
                };
                for j in 0..cnt {
                    let b = (v >> (8 * j)) as u8;
                    if self.c.pmpcfg[first + j] & 0x80 != 0 {
                        continue;
                    }
                    if b & 3 == 2 {
                        return Err("PMP W without R");
                    }
                    self.c.pmpcfg[first + j] = b & 0x9f;
                }
            }
            0x3b0..=0x3bf => {
                let i = (n - 0x3b0) as usize;
                let next_locks = i < 15
                    && self.c.pmpcfg[i + 1] & 0x80 != 0
                    && self.c.pmpcfg[i + 1] >> 3 & 3 == 1;
                if self.c.pmpcfg[i] & 0x80 == 0 && !next_locks {
                    self.c.pmpaddr[i] = v & ((1 << 54) - 1);
                }
            }
            csr::TSELECT => {
                if v < 8 {
                    self.c.tselect = v;
                } else {
                    out.unk_csr = Some(n);
                }
            }
            csr::TDATA1 => {
                if !self.tdata1_known(v) {
                    return Err("unsupported trigger configuration");
                }
                self.c.tdata1[self.c.tselect as usize] = v;
            }
            csr::TDATA2 => self.c.tdata2[self.c.tselect as usize] = v,
            0xb00 | 0xb02 | 0x320 => (),
            _ => return Err("unmodelled CSR"),
        }
        Ok(())
    }

    // ---- execution -------------------------------------------------------------------------------

    pub fn blank() -> StepOut {
        StepOut {
            traps: vec![], interrupt: false, may_retire: false, unk_rd: None, unk_csr: None,
            unk_mprv: false, sc_open: None, unk_mpp: false, inst: None,
        }
    }

    /// One step: take a pending interrupt, or execute one instruction. When the result has traps,
    /// the architectural state is unchanged and the caller applies `take_trap`.
    pub fn step(&mut self) -> Step {
        let mut out = Self::blank();
        self.stores.clear();
        if let Some(i) = self.pending_interrupt() {
            out.interrupt = true;
            out.traps.push((i, 0));
            return Step::Done(out);
        }
        // execute triggers come before everything else
        match self.trigger(self.pc, Acc::Fetch, 4) {
            Some(true) => {
                out.traps.push((3, self.pc));
                return Step::Done(out);
            }
            Some(false) => (),
            None => return Step::Unspec("trigger under MPRV"),
        }
        let lo = match self.fetch_parcel(self.pc) {
            Ok(v) => v,
            Err(Fail::Fault(c)) => {
                out.traps.push((c, self.pc));
                return Step::Done(out);
            }
            Err(Fail::Unspec(s)) => return Step::Unspec(s),
        };
        let (inst, raw) = if lo & 3 != 3 {
            (decode16(lo, self.rv64), lo as u32)
        } else {
            let va = self.pc.wrapping_add(2) & self.xmask();
            let hi = match self.fetch_parcel(va) {
                Ok(v) => v,
                Err(Fail::Fault(c)) => {
                    out.traps.push((c, va));
                    return Step::Done(out);
                }
                Err(Fail::Unspec(s)) => return Step::Unspec(s),
            };
            let w = lo as u32 | (hi as u32) << 16;
            (decode32(w, self.rv64), w)
        };
        let Some(inst) = inst else {
            out.traps.push((2, raw as u64));
            return Step::Done(out);
        };
        out.inst = Some(inst);
        let r = self.exec(&inst, &mut out);
        match r {
            Ok(()) => Step::Done(out),
            Err(s) => Step::Unspec(s),
        }
    }

    /// Checks and translates a data access; Ok(None): traps pushed to out.
    fn data_addr(
        &mut self,
        va: u64,
        size: u64,
        acc: Acc,
        out: &mut StepOut,
    ) -> Result<Option<u64>, &'static str> {
        let bit = if acc == Acc::Load { 1 } else { 2 };
        match self.trigger(va, acc, bit) {
            Some(true) => {
                out.traps.push((3, va));
                return Ok(None);
            }
            Some(false) => (),
            None => return Err("trigger under MPRV"),
        }
        let prv = self.effective_priv(acc);
        let misaligned = va % size != 0;
        let pa = match self.translate(va, acc, prv) {
            Ok(pa) => pa,
            Err(Fail::Fault(c)) => {
                out.traps.push((c, va));
                if misaligned {
                    out.traps.push((acc.misaligned(), va));
                }
                return Ok(None);
            }
            Err(Fail::Unspec(s)) => return Err(s),
        };
        if misaligned {
            out.traps.push((acc.misaligned(), va));
            // either kind of fault may be reported when both apply
            let last = va.wrapping_add(size - 1) & self.xmask();
            if !self.pmp_ok(pa, size, acc, prv) {
                out.traps.push((acc.access_fault(), va));
            }
            if last >> 12 != va >> 12 {
                match self.translate(last, acc, prv) {
                    Ok(_) => (),
                    Err(Fail::Fault(c)) => out.traps.push((c, va)),
                    Err(Fail::Unspec(s)) => return Err(s),
                }
            }
            return Ok(None);
        }
        if !self.pmp_ok(pa, size, acc, prv) {
            out.traps.push((acc.access_fault(), va));
            return Ok(None);
        }
        Ok(Some(pa))
    }

    fn load(
        &mut self,
        i: &Inst,
        va: u64,
        size: u64,
        signed: bool,
        out: &mut StepOut,
    ) -> Result<bool, &'static str> {
        let va = va & self.xmask();
        let Some(pa) = self.data_addr(va, size, Acc::Load, out)? else {
            return Ok(false);
        };
        match self.bus_read(pa, size) {
            Bus::Fault => {
                out.traps.push((5, va));
                Ok(false)
            }
            Bus::Unspec(s) => Err(s),
            Bus::Data { v, known } => {
                let sh = 64 - 8 * size as u32;
                let val = if signed { ((v << sh) as i64 >> sh) as u64 } else { v << sh >> sh };
                let low = u64::MAX >> sh;
                if known & low != low {
                    // unknown bits (sign bits included when the top bit is unknown)
                    let mut unk = !known & low;
                    if signed && unk >> (8 * size - 1) & 1 == 1 {
                        unk |= !low;
                    }
                    out.unk_rd = Some((i.rd, unk & self.xmask()));
                }
                self.set_x(i.rd, val);
                Ok(true)
            }
        }
    }

    fn store(
        &mut self,
        va: u64,
        size: u64,
        v: u64,
        out: &mut StepOut,
    ) -> Result<bool, &'static str> {
        let va = va & self.xmask();
        let Some(pa) = self.data_addr(va, size, Acc::Store, out)? else {
            return Ok(false);
        };
        match self.bus_write(pa, size, v) {
            Bus::Fault => {
                out.traps.push((7, va));
                Ok(false)
            }
            Bus::Unspec(s) => Err(s),
            Bus::Data { .. } => Ok(true),
        }
    }

    fn exec(&mut self, i: &Inst, out: &mut StepOut) -> Result<(), &'static str> {
        use Op::*;
        let a = self.x(i.rs1);
        let b = self.x(i.rs2);
        let sa = self.sx(a);
        let sb = self.sx(b);
        let xm = self.xmask();
        let xl = self.xlen();
        let imm = i.imm;
        let next = self.pc.wrapping_add(i.len) & xm;
        let mut pc = next;
        let w = |v: i64| v as i32 as i64 as u64;
        let shm = (xl - 1) as u64;
        let illegal = (2, i.raw as u64);
        let branch = |t: bool, pc: u64| {
            if t { pc.wrapping_add(imm as u64) & xm } else { next }
        };
        match i.op {
            Lui => self.set_x(i.rd, imm as u64),
            Auipc => self.set_x(i.rd, self.pc.wrapping_add(imm as u64)),
            Jal => {
                pc = self.pc.wrapping_add(imm as u64) & xm;
                self.set_x(i.rd, next);
            }
            Jalr => {
                pc = a.wrapping_add(imm as u64) & !1 & xm;
                self.set_x(i.rd, next);
            }
            Beq => pc = branch(a == b, self.pc),
            Bne => pc = branch(a != b, self.pc),
            Blt => pc = branch(sa < sb, self.pc),
            Bge => pc = branch(sa >= sb, self.pc),
            Bltu => pc = branch(a < b, self.pc),
            Bgeu => pc = branch(a >= b, self.pc),
            Lb | Lh | Lw | Ld | Lbu | Lhu | Lwu => {
                let (size, signed) = match i.op {
                    Lb => (1, true),
                    Lh => (2, true),
                    Lw => (4, true),
                    Ld => (8, true),
                    Lbu => (1, false),
                    Lhu => (2, false),
                    _ => (4, false),
                };
                if !self.load(i, a.wrapping_add(imm as u64), size, signed, out)? {
                    return Ok(());
                }
            }
            Sb | Sh | Sw | Sd => {
                let size = match i.op {
                    Sb => 1,
                    Sh => 2,
                    Sw => 4,
                    _ => 8,
                };
                if !self.store(a.wrapping_add(imm as u64), size, b, out)? {
                    return Ok(());
                }
            }
            Addi => self.set_x(i.rd, a.wrapping_add(imm as u64)),
            Slti => self.set_x(i.rd, (sa < imm) as u64),
            Sltiu => self.set_x(i.rd, (a < imm as u64 & xm) as u64),
            Xori => self.set_x(i.rd, a ^ imm as u64),
            Ori => self.set_x(i.rd, a | imm as u64),
            Andi => self.set_x(i.rd, a & imm as u64),
            Slli => self.set_x(i.rd, a << imm),
            Srli => self.set_x(i.rd, a >> imm),
            Srai => self.set_x(i.rd, (sa >> imm) as u64),
            Add => self.set_x(i.rd, a.wrapping_add(b)),
            Sub => self.set_x(i.rd, a.wrapping_sub(b)),
            Sll => self.set_x(i.rd, a << (b & shm)),
            Slt => self.set_x(i.rd, (sa < sb) as u64),
            Sltu => self.set_x(i.rd, (a < b) as u64),
            Xor => self.set_x(i.rd, a ^ b),
            Srl => self.set_x(i.rd, a >> (b & shm)),
            Sra => self.set_x(i.rd, (sa >> (b & shm)) as u64),
            Or => self.set_x(i.rd, a | b),
            And => self.set_x(i.rd, a & b),
            Addiw => self.set_x(i.rd, w(sa.wrapping_add(imm))),
            Slliw => self.set_x(i.rd, w((a as u32).wrapping_shl(imm as u32) as i64)),
            Srliw => self.set_x(i.rd, w((a as u32 >> imm) as i64)),
            Sraiw => self.set_x(i.rd, w((a as i32 >> imm) as i64)),
            Addw => self.set_x(i.rd, w(sa.wrapping_add(sb))),
            Subw => self.set_x(i.rd, w(sa.wrapping_sub(sb))),
            Sllw => self.set_x(i.rd, w(((a as u32) << (b & 31)) as i64)),
            Srlw => self.set_x(i.rd, w((a as u32 >> (b & 31)) as i64)),
            Sraw => self.set_x(i.rd, w((a as i32 >> (b & 31)) as i64)),
            Mul => self.set_x(i.rd, a.wrapping_mul(b)),
            Mulh => self.set_x(i.rd, (sa as i128 * sb as i128 >> xl) as u64),
            Mulhsu => self.set_x(i.rd, (sa as i128 * b as i128 >> xl) as u64),
            Mulhu => self.set_x(i.rd, (a as u128 * b as u128 >> xl) as u64),
            Div => {
                let min = if xl == 64 { i64::MIN } else { i32::MIN as i64 };
                let v = if sb == 0 {
                    -1
                } else if sa == min && sb == -1 {
                    sa
                } else {
                    sa / sb
                };
                self.set_x(i.rd, v as u64)
            }
            Divu => self.set_x(i.rd, if b == 0 { u64::MAX } else { a / b }),
            Rem => {
                let v = if sb == 0 {
                    sa
                } else if sb == -1 {
                    0
                } else {
                    sa % sb
                };
                self.set_x(i.rd, v as u64)
            }
            Remu => self.set_x(i.rd, if b == 0 { a } else { a % b }),
            Mulw => self.set_x(i.rd, w((a as i32 as i64).wrapping_mul(b as i32 as i64))),
            Divw => {
                let (p, q) = (a as i32, b as i32);
                let v = if q == 0 {
                    -1
                } else if p == i32::MIN && q == -1 {
                    p
                } else {
                    p / q
                };
                self.set_x(i.rd, v as i64 as u64)
            }
            Divuw => {
                let (p, q) = (a as u32, b as u32);
                let v = if q == 0 { u32::MAX } else { p / q };
                self.set_x(i.rd, v as i32 as i64 as u64)
            }
            Remw => {
                let (p, q) = (a as i32, b as i32);
                let v = if q == 0 {
                    p
                } else if q == -1 {
                    0
                } else {
                    p % q
                };
                self.set_x(i.rd, v as i64 as u64)
            }
            Remuw => {
                let (p, q) = (a as u32, b as u32);
                let v = if q == 0 { p } else { p % q };
                self.set_x(i.rd, v as i32 as i64 as u64)
            }
            Fence | FenceI => (),
            Ecall => {
                out.traps.push((8 + self.prv, 0));
                return Ok(());
            }
            Ebreak => {
                out.traps.push((3, self.pc));
                out.traps.push((3, 0));
                return Ok(());
            }
            LrW | LrD => {
                let size = if i.op == LrW { 4 } else { 8 };
                let va = a;
                let Some(pa) = self.data_addr(va, size, Acc::Load, out)? else {
                    return Ok(());
                };
                match self.bus_read(pa, size) {
                    Bus::Fault => {
                        out.traps.push((5, va));
                        return Ok(());
                    }
                    Bus::Unspec(s) => return Err(s),
                    Bus::Data { v, known } => {
                        if !self.mem.contains(pa, size) {
                            return Err("LR on a device");
                        }
                        debug_assert!(known == u64::MAX);
                        let v = if size == 4 { v as i32 as i64 as u64 } else { v };
                        self.set_x(i.rd, v);
                        self.res = Some(Res { pa, size });
                    }
                }
            }
            ScW | ScD => {
                let size = if i.op == ScW { 4 } else { 8 };
                let va = a;
                let Some(pa) = self.data_addr(va, size, Acc::Store, out)? else {
                    return Ok(());
                };
                let matching = self.res.filter(|r| r.pa == pa);
                if !self.mem.contains(pa, size) {
                    if matching.is_some() {
                        return Err("SC on a device");
                    }
                    if self.bus_serves(pa, size, true) {
                        return Err("SC on a device");
                    }
                    // may fault, or fail like any unreserved SC
                    out.traps.push((7, va));
                    out.may_retire = true;
                }
                let old = self.res.take();
                match matching {
                    Some(r) if r.size == size => {
                        self.mem.write(pa, size, b);
                        self.stores.push((pa, size));
                        self.set_x(i.rd, 0);
                    }
                    Some(_) => {
                        out.sc_open = Some((pa, size, b, i.rd));
                        self.stores.push((pa, size));
                    }
                    None => {
                        // fails: rd is any non-zero value
                        let _ = old;
                        out.sc_open = None;
                        out.unk_rd = Some((i.rd, u64::MAX & xm));
                        self.set_x(i.rd, 1);
                    }
                }
            }
            AmoswapW | AmoaddW | AmoxorW | AmoandW | AmoorW | AmominW | AmomaxW | AmominuW
            | AmomaxuW | AmoswapD | AmoaddD | AmoxorD | AmoandD | AmoorD | AmominD | AmomaxD
            | AmominuD | AmomaxuD => {
                let word = (i.op as u32) < (LrD as u32);
                let size = if word { 4 } else { 8 };
                let va = a;
                if self.load_trigger_set(va) {
                    return Err("AMO and load trigger");
                }
                let Some(pa) = self.data_addr(va, size, Acc::Store, out)? else {
                    return Ok(());
                };
                // PMP must also allow the read
                if !self.pmp_ok(pa, size, Acc::Load, self.effective_priv(Acc::Store)) {
                    return Err("AMO to write-only memory");
                }
                if !self.mem.contains(pa, size) {
                    if self.bus_serves(pa, size, true) {
                        return Err("AMO on a device");
                    }
                    out.traps.push((7, va));
                    return Ok(());
                }
                let m = self.mem.read(pa, size);
                let (ms, bs) = if word { (m as i32 as i64, b as i32 as i64) } else { (m as i64, b as i64) };
                let (mu, bu) = if word { (m as u32 as u64, b as u32 as u64) } else { (m, b) };
                let v = match i.op {
                    AmoswapW | AmoswapD => b,
                    AmoaddW | AmoaddD => m.wrapping_add(b),
                    AmoxorW | AmoxorD => m ^ b,
                    AmoandW | AmoandD => m & b,
                    AmoorW | AmoorD => m | b,
                    AmominW | AmominD => ms.min(bs) as u64,
                    AmomaxW | AmomaxD => ms.max(bs) as u64,
                    AmominuW | AmominuD => mu.min(bu),
                    _ => mu.max(bu),
                };
                self.mem.write(pa, size, v);
                self.stores.push((pa, size));
                self.set_x(i.rd, ms as u64);
            }
            Csrrw | Csrrs | Csrrc | Csrrwi | Csrrsi | Csrrci => {
                let n = imm as u16;
                let src = match i.op {
                    Csrrwi | Csrrsi | Csrrci => i.rs1 as u64,
                    _ => a,
                };
                let writes = matches!(i.op, Csrrw | Csrrwi) || i.rs1 != 0;
                match self.csr_illegal(n, writes) {
                    Some(true) => {
                        out.traps.push(illegal);
                        return Ok(());
                    }
                    Some(false) => (),
                    None => return Err("CSR outside the modelled set"),
                }
                let (old, known) = self.csr_value(n).ok_or("CSR outside the modelled set")?;
                let new = match i.op {
                    Csrrw | Csrrwi => src,
                    Csrrs | Csrrsi => old | src,
                    _ => old & !src,
                };
                if writes {
                    self.csr_write(n, new, out)?;
                }
                self.set_x(i.rd, old);
                if !known & xm != 0 {
                    out.unk_rd = Some((i.rd, !known & xm));
                }
            }
            Mret => {
                if self.prv < 3 {
                    out.traps.push(illegal);
                    return Ok(());
                }
                let s = self.c.mstatus;
                let mpp = s >> 11 & 3;
                let mut n = s & !(MIE | MPP) | MPIE;
                if s & MPIE != 0 {
                    n |= MIE;
                }
                self.c.mstatus = n;
                self.prv = mpp;
                out.unk_mprv = mpp != 3;
                pc = self.c.mepc;
            }
            Sret => {
                if self.prv == 0 || self.prv == 1 && self.c.mstatus & TSR != 0 {
                    out.traps.push(illegal);
                    return Ok(());
                }
                let s = self.c.mstatus;
                let mut n = s & !(SIE | SPP) | SPIE;
                if s & SPIE != 0 {
                    n |= SIE;
                }
                self.c.mstatus = n;
                self.prv = (s & SPP != 0) as u64;
                out.unk_mprv = true;
                pc = self.c.sepc;
            }
            Wfi => {
                if self.prv == 0 || self.prv == 1 && self.c.mstatus & TW != 0 {
                    out.traps.push(illegal);
                    out.may_retire = true;
                }
            }
            SfenceVma => {
                if self.prv == 0 || self.prv == 1 && self.c.mstatus & TVM != 0 {
                    out.traps.push(illegal);
                    return Ok(());
                }
            }
        }
        self.pc = pc;
        Ok(())
    }
}
