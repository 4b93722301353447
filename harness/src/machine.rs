//! The reference model run as a whole machine from reset: boot ROM, timer, host interface.

use crate::elf::Elf;
use crate::model::{Model, Step};

pub const INTERLEAVE: u64 = 5000;
pub const TICKS: u64 = 50;

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    /// an odd value was written to tohost
    Exit(u64),
    /// a request to the host other than that
    Request,
    /// something the specification leaves open
    Open(&'static str),
    Steps,
}

pub struct Machine {
    pub m: Model,
    pub htif: Option<(u64, u64)>,
    pub n: u64,
    pub pcs: Vec<u64>,
    pub traps: u64,
    pub interrupts: u64,
    /// traps taken in S mode
    pub delegated: u64,
    /// requests to the host that were answered
    pub requests: u64,
    pub last: Last,
    /// the program tells only 0 from other results of SC
    pub any_failure: bool,
}

/// What the last step did.
#[derive(Default, Clone)]
pub struct Last {
    pub fetched: Option<u64>,
    pub inst: Option<crate::dec::Inst>,
    /// cause, interrupt, taken in S mode, where it goes on
    pub trap: Option<(u64, bool, bool, u64)>,
    /// number of a request to the host
    pub request: Option<u64>,
}

impl Machine {
    /// mrom: contents of the boot ROM (its own correctness is the subject of C21 and C22)
    pub fn boot(e: &Elf, mrom: Vec<u8>) -> Machine {
        let base = e.segs.iter().filter(|s| s.ptype == 1).map(|s| s.paddr).min().unwrap();
        let mut m = Model::new(e.rv64, base, mrom);
        for s in e.segs.iter().filter(|s| s.ptype == 1) {
            for (i, b) in s.data.iter().enumerate() {
                m.mem.write(s.paddr + i as u64, 1, *b as u64);
            }
        }
        let sym = |n: &str| e.syms.iter().find(|s| s.0 == n).map(|s| s.1);
        let htif = match (sym("tohost"), sym("fromhost")) {
            (Some(t), Some(f)) => Some((t, f)),
            _ => None,
        };
        Machine { m, htif, n: 0, pcs: vec![], traps: 0, interrupts: 0, delegated: 0, requests: 0, last: Last::default(), any_failure: false }
    }

    pub fn output(&self) -> &[u8] {
        &self.m.uart.tx
    }

    pub fn step(&mut self) -> Option<End> {
        self.last = Last::default();
        let pc = self.m.pc;
        let m = &self.m;
        let before = (m.c.clone(), m.regs, m.res, m.prv);
        let o = match self.m.step() {
            Step::Unspec(s) => return Some(End::Open(s)),
            Step::Done(o) => o,
        };
        if !o.interrupt && (o.inst.is_some() || o.traps.first().is_some_and(|t| t.0 == 2)) {
            self.pcs.push(pc);
            self.last.fetched = Some(pc);
        }
        self.last.inst = o.inst;
        let sc = o.inst.is_some_and(|i| matches!(i.op, crate::dec::Op::ScW | crate::dec::Op::ScD));
        if !o.traps.is_empty() {
            if o.may_retire || o.traps.iter().any(|t| *t != o.traps[0]) {
                return Some(End::Open("several outcomes"));
            }
            // a trap leaves everything else as it was
            (self.m.c, self.m.regs, self.m.res, self.m.prv) = before;
            self.m.pc = pc;
            self.m.take_trap(o.traps[0].0, o.traps[0].1, o.interrupt);
            let to_s = self.m.prv == 1;
            self.last.trap = Some((o.traps[0].0, o.interrupt, to_s, self.m.pc));
            self.delegated += to_s as u64;
            self.traps += 1;
            self.interrupts += o.interrupt as u64;
        } else if o.unk_rd.is_some_and(|u| u.0 != 0 && !(self.any_failure && sc)) || o.unk_csr.is_some() || o.unk_mprv && before.0.mstatus & crate::model::MPRV != 0 || o.unk_mpp || o.sc_open.is_some() {
            return Some(End::Open("unspecified value"));
        }
        self.n += 1;
        if let Some((t, _)) = self.htif {
            if self.m.mem.read(t, 4) != 0 {
                let v = self.m.mem.read(t, 8);
                if v & 1 == 1 {
                    return Some(End::Exit(v));
                }
                if !self.answer(v) {
                    return Some(End::Request);
                }
            }
        }
        if self.n % INTERLEAVE == 0 {
            self.m.mtime = self.m.mtime.wrapping_add(TICKS);
            self.m.res = None;
        }
        None
    }

    /// The host's answer, for requests that have the same answer everywhere.
    fn answer(&mut self, v: u64) -> bool {
        let (tohost, fromhost) = self.htif.unwrap();
        let at = v & 0xffff_ffff_ffff;
        let mem = &mut self.m.mem;
        if !mem.contains(at, 64) {
            return false;
        }
        let w = |mem: &crate::model::Mem, k: u64| mem.read(at + 8 * k, 8);
        let (nr, a, b, c) = (w(mem, 0), w(mem, 1), w(mem, 2), w(mem, 3));
        let no_fd = (1000..4000).contains(&a);
        let ret = match nr {
            57 | 62 | 63 | 80 if no_fd => -9i64,
            64 if a == 1 && c < 4096 && mem.contains(b, c.max(1)) => {
                for k in 0..c {
                    let x = mem.read(b + k, 1) as u8;
                    self.m.uart.tx.push(x);
                }
                c as i64
            }
            2011 if b < 32 => -12,
            _ => return false,
        };
        let mem = &mut self.m.mem;
        mem.write(at, 8, ret as u64);
        mem.write(tohost, 8, 0);
        if mem.read(fromhost, 8) == 0 {
            mem.write(fromhost, 8, v & 0xffff | 1);
        }
        self.last.request = Some(nr);
        self.requests += 1;
        true
    }

    pub fn run(&mut self, max: u64) -> End {
        while self.n < max {
            if let Some(e) = self.step() {
                return e;
            }
        }
        End::Steps
    }
}

