//! C29: how programs end; and the part of C23 that goes through the binary.

use crate::asm::*;
use crate::dec::Op;
use crate::elf::{Elf, Sec, Seg};
use crate::genprog::UART;
use crate::model::csr;
use crate::proc::{self, Input};
use crate::report::*;
use crate::rng::{mix, Rng};

use super::e2e::{crashed, hex};

const DRAM: u64 = 0x8000_0000;
const DATA: u64 = 0x10_0000;

pub(super) struct Prog {
    pub rv64: bool,
    pub base: u64,
    pub mode: u64,
    /// alias of tohost, and one that can only be read
    pub alias: Option<(u64, u64)>,
    pub traps: bool,
    pub a: Asm,
    pub data: Vec<u8>,
    pub tohost: u64,
    pub fromhost: u64,
    pub expect: Vec<u8>,
    pub story: Vec<String>,
    pub n: usize,
}

impl Prog {
    pub fn new(r: &mut Rng) -> Prog {
        let rv64 = r.bool();
        let base: u64 = if rv64 { r.pick(&[0x8000_0000, 0x8000_0000, 0x4000_0000, 0xc000_0000]) } else { r.pick(&[0x8000_0000, 0x4000_0000]) };
        let mode = r.pick(&[3, 3, 1, 0]);
        let mut p = Prog {
            rv64,
            base,
            mode,
            alias: None,
            traps: false,
            a: Asm::new(base, rv64),
            data: vec![],
            tohost: 0,
            fromhost: 0,
            expect: vec![],
            story: vec![],
            n: 0,
        };
        let place = |p: &mut Prog, r: &mut Rng| match r.below(6) {
            0 => base + DRAM - 8 - 8 * r.below(4),
            1 => base + DATA + 0x10_0000 + r.below(0x1000) * 8,
            2 => base + r.below(DRAM - 0x50_0000) / 8 * 8 + 0x40_0000,
            _ => {
                // with room on both sides
                let n = r.below(3) * 8;
                p.alloc(n, 8);
                p.alloc(24, 8) + 8
            }
        };
        p.tohost = place(&mut p, r);
        p.fromhost = loop {
            let f = place(&mut p, r);
            if f != p.tohost {
                break f;
            }
        };
        p
    }

    /// From reset to the mode the program runs in.
    pub fn start(&mut self, r: &mut Rng) {
        let mode = self.mode;
        let translate = mode < 3 && r.chance(2, 3);
        self.traps = translate || r.bool();
        if self.traps {
            self.a.la(5, self.base + 0x80);
            self.a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
            self.a.jmp("begin");
            self.a.space(0x80 - (self.a.here() - self.base) as usize);
            // the handler: on to the next instruction, having said something
            self.a.o(Op::Csrrw, 0, 5, 0, csr::MSCRATCH as i64);
            self.a.o(Op::Csrrs, 5, 0, 0, csr::MEPC as i64);
            self.a.o(Op::Addi, 5, 5, 0, 4);
            self.a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
            self.a.o(Op::Lui, 5, 0, 0, UART as i64);
            self.a.o(Op::Sb, 0, 5, 28, 0);
            self.a.o(Op::Csrrs, 5, 0, 0, csr::MSCRATCH as i64);
            self.a.o(Op::Mret, 0, 0, 0, 0);
            self.a.label("begin");
        }
        if mode < 3 {
            crate::genprog::open_pmp(&mut self.a);
            if translate {
                let u = if mode == 0 { 0x10 } else { 0 };
                let (rw, ro) = (0xcf | u, 0xc3 | u);
                let t = self.tohost;
                let table;
                if self.rv64 {
                    let mut w = vec![0u64; 512];
                    for g in 0..6 {
                        w[g] = (g as u64) << 28 | rw;
                    }
                    let (i, j) = (6 + r.below(200), 206 + r.below(50));
                    w[i as usize] = (t >> 30) << 28 | rw;
                    w[j as usize] = (t >> 30) << 28 | ro;
                    let off = t & ((1 << 30) - 1);
                    self.alias = Some((i << 30 | off, j << 30 | off));
                    table = w.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
                } else {
                    let mut w: Vec<u32> = (0..1024u32).map(|g| g << 20 | rw as u32).collect();
                    let used = [UART >> 22, self.base >> 22, t >> 22, self.fromhost >> 22, (self.base + DATA) >> 22, (self.base + DATA + 0x10_0000) >> 22];
                    let mut free = |not: u64| loop {
                        let i = r.below(1024);
                        if !used.contains(&i) && i != not {
                            return i;
                        }
                    };
                    let i = free(9999);
                    let j = free(i);
                    w[i as usize] = (t >> 22 << 20) as u32 | rw as u32;
                    w[j as usize] = (t >> 22 << 20) as u32 | ro as u32;
                    let off = t & 0x3f_ffff;
                    self.alias = Some((i << 22 | off, j << 22 | off));
                    table = w.iter().flat_map(|x| x.to_le_bytes()).collect();
                }
                let at = self.alloc(4096, 4096);
                self.fill(at, &table);
                let mode_bits = if self.rv64 { 8 << 60 } else { 1 << 31 };
                self.a.li(5, mode_bits | at >> 12);
                self.a.o(Op::Csrrw, 0, 5, 0, csr::SATP as i64);
            }
            self.a.li(5, mode << 11);
            self.a.o(Op::Csrrw, 0, 5, 0, csr::MSTATUS as i64);
            self.a.to(Op::Jal, 5, 0, 0, "here");
            self.a.label("here");
            self.a.o(Op::Addi, 5, 5, 0, 12);
            self.a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
            self.a.o(Op::Mret, 0, 0, 0, 0);
        }
    }

    pub fn alloc(&mut self, n: u64, align: usize) -> u64 {
        let o = (self.data.len() + align - 1) & !(align - 1);
        self.data.resize(o + n as usize, 0);
        self.base + DATA + o as u64
    }
    pub fn fill(&mut self, at: u64, d: &[u8]) {
        let o = (at - self.base - DATA) as usize;
        self.data[o..o + d.len()].copy_from_slice(d);
    }
    pub fn uniq(&mut self) -> String {
        self.n += 1;
        format!("l{}", self.n)
    }
    pub fn put(&mut self, b: u8) {
        self.a.o(Op::Lui, 5, 0, 0, UART as i64);
        self.a.o(Op::Addi, 6, 0, 0, b as i64);
        self.a.o(Op::Sb, 0, 5, 6, 0);
    }
    pub fn say(&mut self, r: &mut Rng) {
        for _ in 0..r.range(1, 8) {
            let b = r.u64() as u8;
            self.put(b);
            self.expect.push(b);
        }
    }
    pub fn wait(&mut self, n: u64) {
        if n == 0 {
            return;
        }
        let l = self.uniq();
        self.a.li(6, n);
        self.a.label(&l);
        self.a.o(Op::Addi, 6, 6, 0, -1);
        self.a.to(Op::Bne, 0, 6, 0, &l);
    }
    /// Where the program writes for tohost.
    fn at_tohost(&self, r: &mut Rng) -> u64 {
        match self.alias {
            Some((a, _)) if r.chance(2, 3) => a,
            _ => self.tohost,
        }
    }
    pub fn request(&mut self, r: &mut Rng, nr: u64, args: &[u64]) -> u64 {
        let block = self.alloc(64, 8);
        let mut w = vec![nr];
        w.extend(args);
        while w.len() < 8 {
            w.push(r.u64());
        }
        self.request_at(r, block, &w);
        block
    }
    pub fn request_at(&mut self, r: &mut Rng, block: u64, w: &[u64]) {
        let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        self.fill(block, &b);
        let t = self.at_tohost(r);
        self.a.li(5, t);
        self.a.li(6, block);
        self.a.o(if self.rv64 { Op::Sd } else { Op::Sw }, 0, 5, 6, 0);
    }
    /// Things near tohost that end nothing.
    pub fn quiet(&mut self, r: &mut Rng) {
        let odd = r.u64() | 1;
        let t = self.tohost;
        let k = r.below(9);
        self.story.push(format!("quiet {k}"));
        match k {
            0 | 1 => {
                // next to it
                let after = k == 0;
                let at = if after { t + 8 } else { t - 8 };
                if at != self.fromhost && at < self.base + DRAM {
                    self.a.li(5, at);
                    self.a.li(6, odd);
                    if self.rv64 {
                        self.a.o(Op::Sd, 0, 5, 6, 0);
                    } else {
                        self.a.o(Op::Sw, 0, 5, 6, if after { 0 } else { 4 });
                    }
                }
            }
            2 => {
                let f = self.fromhost;
                self.a.li(5, f);
                self.a.li(6, odd);
                self.a.o(Op::Sw, 0, 5, 6, 0);
            }
            3 => {
                let a = self.at_tohost(r);
                self.a.li(5, a);
                let op = r.pick(&[Op::Sb, Op::Sh, Op::Sw]);
                self.a.o(op, 0, 5, 0, 0);
                self.a.o(Op::Lw, 7, 5, 0, 0);
            }
            4 => {
                // a store-conditional that fails
                let a = self.at_tohost(r);
                self.a.li(5, a);
                self.a.li(6, odd);
                let other = self.alloc(8, 8);
                self.a.li(8, other);
                self.a.o(Op::ScW, 9, 8, 0, 0); // drops any reservation
                self.a.o(Op::ScW, 7, 5, 6, 0);
            }
            5 => {
                // atomics that leave it zero
                let a = self.at_tohost(r);
                self.a.li(5, a);
                self.a.li(6, odd);
                let op = r.pick(&[Op::AmoandW, Op::AmominuW]);
                self.a.o(op, 7, 5, 6, 0);
            }
            6 | 7 if self.traps => {
                let b = r.u64() as u8;
                self.a.li(6, odd);
                self.a.li(28, b as u64);
                match self.alias {
                    Some((_, ro)) if k == 6 => {
                        self.a.li(5, ro);
                        let op = r.pick(&[Op::Sb, Op::Sh, Op::Sw, Op::AmoorW, Op::AmoswapW]);
                        self.a.o(op, 7, 5, 6, 0);
                    }
                    _ => {
                        // misaligned atomics: to the word at tohost from below
                        self.a.li(5, t + 2);
                        self.a.o(Op::AmoswapW, 7, 5, 6, 0);
                    }
                }
                self.expect.push(b);
            }
            _ => {
                // registers only
                self.a.li(5, t);
                self.a.li(6, odd);
                self.a.o(Op::Add, 7, 5, 6, 0);
            }
        }
    }

    /// Ends the program, with this status; it says 0xee if it goes on.
    pub fn end(&mut self, r: &mut Rng) -> u8 {
        let v = match r.below(4) {
            0 => r.below(256) | 1,
            1 => 1,
            2 => r.u64() & 0xffff_ffff | 1,
            _ => r.u64() | 1,
        };
        let t = self.at_tohost(r);
        let k = r.below(10);
        self.story.push(format!("end {k} value {v:#x}"));
        let mut status = v as u8;
        match k {
            0 | 1 => {
                let code = if r.bool() { r.u64() } else { r.below(4) };
                self.story.push(format!("exit({code:#x})"));
                self.request(r, 93, &[code]);
                status = code as u8;
            }
            2 => {
                let (op, v) = if r.bool() { (Op::Sb, v & 0xff) } else { (Op::Sh, v & 0xffff) };
                self.a.li(5, t);
                self.a.li(6, v);
                self.a.o(op, 0, 5, 6, 0);
            }
            3 => {
                self.a.li(10, t);
                self.a.li(11, v);
                if self.a.code.len() % 4 != 0 {
                    self.a.h(1);
                }
                let op = if self.rv64 && r.bool() { 0xe000 } else { 0xc000 };
                self.a.h(op | 2 << 7 | 3 << 2);
                self.a.h(1);
            }
            4 => {
                self.a.li(2, t);
                self.a.li(11, v);
                let op = if self.rv64 && r.bool() { 0xe002 } else { 0xc002 };
                self.a.h(op | 11 << 2);
                self.a.h(1);
            }
            5 | 6 => {
                let mut ops = vec![(Op::AmoswapW, v), (Op::AmoaddW, v), (Op::AmoorW, v), (Op::AmoxorW, v), (Op::AmomaxuW, v), (Op::AmomaxW, v & 0x7fff_ffff), (Op::AmominW, v | 0x8000_0000)];
                if self.rv64 {
                    ops.extend([(Op::AmoswapD, v), (Op::AmoaddD, v), (Op::AmoorD, v), (Op::AmoxorD, v), (Op::AmomaxuD, v), (Op::AmomaxD, v >> 2 | 1), (Op::AmominD, v | 1 << 63)]);
                }
                let (op, v) = r.pick(&ops);
                status = v as u8;
                self.a.li(5, t);
                self.a.li(6, v);
                self.a.o(op, 7, 5, 6, 0);
            }
            7 => {
                self.a.li(5, t);
                self.a.li(6, v);
                let (lr, sc) = if self.rv64 && r.bool() { (Op::LrD, Op::ScD) } else { (Op::LrW, Op::ScW) };
                // it may be dropped by the interval in between: again until it takes
                let l = self.uniq();
                self.a.label(&l);
                self.a.o(lr, 7, 5, 0, 0);
                self.a.o(sc, 7, 5, 6, 0);
                self.a.to(Op::Bne, 0, 7, 0, &l);
            }
            8 if !self.rv64 => {
                self.a.li(5, t);
                self.a.li(6, v >> 32);
                self.a.o(Op::Sw, 0, 5, 6, 4);
                self.a.li(6, v & 0xffff_ffff);
                self.a.o(Op::Sw, 0, 5, 6, 0);
            }
            _ => {
                self.a.li(5, t);
                self.a.li(6, v);
                self.a.o(if self.rv64 && r.bool() { Op::Sd } else { Op::Sw }, 0, 5, 6, 0);
            }
        }
        self.put(0xee);
        self.put(0xee);
        let l = self.uniq();
        self.a.label(&l);
        self.a.jmp(&l);
        status
    }

    /// What writes through descriptor 1.
    pub fn print(&mut self, r: &mut Rng, d: &[u8]) {
        let at = self.alloc(d.len() as u64, 1);
        self.fill(at, d);
        self.request(r, 64, &[1, at, d.len() as u64]);
        self.expect.extend(d);
    }

    pub fn image(self, r: &mut Rng, symbols: Symbols) -> (Elf, Vec<u8>, String) {
        let entry = self.base;
        let mut e = Elf::new(self.rv64, entry);
        let story = format!(
            "rv{}, base {:#x}, mode {}, alias {:x?}, tohost {:#x}, fromhost {:#x}: {}",
            if self.rv64 { 64 } else { 32 }, self.base, self.mode, self.alias, self.tohost, self.fromhost, self.story.join(", ")
        );
        let code = self.a.finish();
        assert!(code.len() < DATA as usize);
        e.segs.push(Seg::load(self.base, code));
        e.segs.push(Seg::load(self.base + DATA, self.data));
        if r.chance(1, 3) {
            e.segs.rotate_left(1);
        }
        let stop = self.base + r.below(DRAM) / 8 * 8;
        for n in ["tohost_", "_tohost", "fromhos", "to", "tohos", "ohost", "TOHOST", "fromhost.1", "main", ""] {
            if r.chance(1, 3) {
                e.syms.push((n.into(), stop));
            }
        }
        let more = match r.below(120) {
            0 => 70_000,
            1 => 20_000,
            2..=20 => 2000,
            _ => 5,
        };
        for i in 0..r.below(more) {
            e.syms.push((format!("symbol{i}"), stop));
        }
        if symbols != Symbols::OnlyFrom && symbols != Symbols::Neither {
            e.syms.push(("tohost".into(), self.tohost));
        }
        if symbols != Symbols::OnlyTo && symbols != Symbols::Neither {
            e.syms.push(("fromhost".into(), self.fromhost));
        }
        for i in (1..e.syms.len()).rev() {
            e.syms.swap(i, r.below(i as u64 + 1) as usize);
        }
        for i in 0..r.below(4) {
            let n = r.below(50) as usize;
            let name = r.pick(&[".text", ".data", ".bss", ".comment", ".sym", ".strtab2", ""]).to_string();
            let mut s = Sec::new(&name, 1, 0, 0, (0..n).map(|_| r.u64() as u8).collect());
            s.addr = i;
            e.secs.push(s);
        }
        e.sym_at = r.bool().then(|| r.below(5) as usize);
        e.str_first = r.bool();
        e.pad = r.pick(&[0, 0, 1, 8, 64]);
        e.sh_first = r.bool();
        (e, self.expect, story)
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub(super) enum Symbols {
    Both,
    OnlyTo,
    OnlyFrom,
    Neither,
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

/// A program that ends by itself, at some point, in some way.
fn ends(cx: &mut Ctx) -> Result<(), Violation> {
    let mut p = Prog::new(&mut cx.rng);
    p.start(&mut cx.rng);
    for _ in 0..cx.rng.below(6) {
        match cx.rng.below(5) {
            0 | 1 => p.say(&mut cx.rng),
            2 => {
                let d: Vec<u8> = (0..cx.rng.below(200)).map(|_| cx.rng.u64() as u8).collect();
                p.print(&mut cx.rng, &d);
            }
            _ => p.quiet(&mut cx.rng),
        }
    }
    if cx.rng.chance(2, 3) {
        let n = if cx.rng.bool() { cx.rng.below(200) } else { cx.rng.below(9000) };
        p.wait(n);
    }
    p.say(&mut cx.rng);
    let status = p.end(&mut cx.rng);
    let key = p.story.iter().fold(0, |h, s| mix(h, s.bytes().fold(0, |h, b| mix(h, b as u64))));
    let last = p.story.iter().rev().find(|s| s.starts_with("end")).unwrap().split(" value").next().unwrap().to_string();
    let (e, expect, story) = p.image(&mut cx.rng, Symbols::Both);
    let story = format!("{story}; status {status}");
    let d = proc::dir("ends");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::carron(&d, &["prog.elf"], || Input::Null);
    proc::remove(&d);
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped", format!("{story}: {c}"));
    }
    if run.timed_out {
        return violation("a program that asked to end goes on", format!("{story}; output {}", hex(run.guest_out().unwrap_or(&[]))));
    }
    let Some(out) = run.guest_out() else {
        return violation("no greeting before the guest's output", format!("{story}; {}", run.ending()));
    };
    if out != expect {
        let i = first_diff(out, &expect);
        return violation(
            if out.len() > expect.len() && i == expect.len() { "the program went on after it asked to end" } else { "output when the program ends" },
            format!("{story}: from byte {i} on {} instead of {}", hex(&out[i..]), hex(&expect[i..])),
        );
    }
    if run.code != Some(status as i32) {
        return violation("exit status", format!("{story}: {}", run.ending()));
    }
    cx.st.case(Some(key));
    cx.st.count("programs that ended as they asked");
    cx.st.name(last);
    cx.st.add("guest bytes compared", expect.len() as u64);
    cx.st.sample(|| story);
    Ok(())
}

/// A program that does not ask to end, or has nobody to ask.
fn goes_on(cx: &mut Ctx) -> Result<(), Violation> {
    let symbols = cx.rng.pick(&[Symbols::Both, Symbols::OnlyTo, Symbols::OnlyFrom, Symbols::Neither]);
    let mut p = Prog::new(&mut cx.rng);
    p.start(&mut cx.rng);
    p.say(&mut cx.rng);
    if symbols == Symbols::Both {
        for _ in 0..cx.rng.below(6) {
            p.quiet(&mut cx.rng);
            if cx.rng.bool() {
                p.say(&mut cx.rng);
            }
        }
    } else {
        for _ in 0..cx.rng.range(1, 4) {
            let v = cx.rng.u64() | 1;
            let t = if cx.rng.bool() { p.tohost } else { p.fromhost };
            p.a.li(5, t);
            p.a.li(6, v);
            p.a.o(Op::Sw, 0, 5, 6, 0);
            p.say(&mut cx.rng);
        }
    }
    let n = if cx.rng.chance(1, 40) { cx.rng.range(30_000, 3_000_000) } else { cx.rng.range(5000, 30_000) };
    p.wait(n);
    p.expect.extend(b"still here");
    for b in b"still here" {
        p.put(*b);
    }
    p.a.label("forever");
    p.a.jmp("forever");
    let (e, expect, story) = p.image(&mut cx.rng, symbols);
    let story = format!("{symbols:?}: {story}");
    let d = proc::dir("goes-on");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::run_bin(proc::bin(), &d, &["prog.elf"], Input::Null, proc::SECOND, |o| o.ends_with(b"still here"));
    proc::remove(&d);
    if run.timed_out {
        cx.st.inconclusive("the end of a program's output did not come in time");
        return Ok(());
    }
    if !run.stopped {
        return violation("the run ended though the program did not ask", format!("{story}: {} {}", run.ending(), run.err_text()));
    }
    if run.guest_out() != Some(&expect[..]) {
        return violation("output of a program that goes on", format!("{story}: {} instead of {}", hex(run.guest_out().unwrap_or(&[])), hex(&expect)));
    }
    cx.st.case(None);
    cx.st.count("programs that went on as they should");
    cx.st.name(format!("going on with {symbols:?}"));
    Ok(())
}

/// A program that works on a file through the proxy, in the binary.
pub fn files(cx: &mut Ctx) -> Result<(), Violation> {
    let mut p = Prog::new(&mut cx.rng);
    p.start(&mut cx.rng);
    let calls = cx.rng.range(3, 25);
    let blocks = p.alloc(64 * (calls + 1), 8);
    let name = format!("f{}", cx.rng.below(1000));
    let nat = p.alloc(name.len() as u64 + 1, 1);
    p.fill(nat, name.as_bytes());
    let (mut file, mut pos, mut open): (Vec<u8>, usize, bool) = (vec![], 0, true);
    let mut words: Vec<[u64; 8]> = vec![];
    let mut k = 0;
    let (mut reads, mut writes) = (0, 0);
    let mut call = |p: &mut Prog, r: &mut Rng, w: [u64; 8], result: i64| {
        p.request_at(r, blocks + 64 * k, &w);
        k += 1;
        let mut w = w;
        w[0] = result as u64;
        words.push(w);
    };
    let flags = (libc::O_RDWR | libc::O_CREAT) as u64;
    let mode = cx.rng.pick(&[0o600u64, 0o644, 0o444, 0]);
    let w = [56, -100i64 as u64, nat, name.len() as u64 + 1, flags, mode, 0, 0];
    call(&mut p, &mut cx.rng, w, 3);
    for _ in 1..calls {
        let n = cx.rng.below(300);
        let o = cx.rng.below(file.len() as u64 + 40);
        let fill = cx.rng.u64();
        match cx.rng.below(8) {
            0..=2 => {
                let d: Vec<u8> = (0..n).map(|_| cx.rng.u64() as u8).collect();
                let at = p.alloc(n, 1);
                p.fill(at, &d);
                let pw = cx.rng.bool();
                let w = [if pw { 68 } else { 64 }, 3, at, n, o, fill, 0, 0];
                let at = if pw { o as usize } else { pos };
                if open {
                    if n > 0 {
                        file.resize(file.len().max(at + n as usize), 0);
                        file[at..at + n as usize].copy_from_slice(&d);
                    }
                    if !pw {
                        pos += n as usize;
                    }
                    writes += 1;
                }
                call(&mut p, &mut cx.rng, w, if open { n as i64 } else { -9 });
            }
            3 | 4 => {
                let at = p.alloc(n, 1);
                let pr = cx.rng.bool();
                let w = [if pr { 67 } else { 63 }, 3, at, n, o, fill, 0, 0];
                let from = (if pr { o as usize } else { pos }).min(file.len());
                let got = file[from..(from + n as usize).min(file.len())].to_vec();
                if open {
                    if !pr {
                        pos += got.len();
                    }
                    call(&mut p, &mut cx.rng, w, got.len() as i64);
                    // and what was read, printed
                    if !got.is_empty() {
                        p.request(&mut cx.rng, 64, &[1, at, got.len() as u64]);
                        p.expect.extend(got);
                        reads += 1;
                    }
                } else {
                    call(&mut p, &mut cx.rng, w, -9);
                }
            }
            5 | 6 => {
                let w = [62, 3, o, 0, fill, 0, 0, 0];
                if open {
                    pos = o as usize;
                }
                call(&mut p, &mut cx.rng, w, if open { o as i64 } else { -9 });
            }
            _ if cx.rng.chance(1, 4) => {
                call(&mut p, &mut cx.rng, [57, 3, fill, 0, 0, 0, 0, 0], if open { 0 } else { -9 });
                open = false;
            }
            _ => p.say(&mut cx.rng),
        }
    }
    let done = words.len() as u64;
    p.request(&mut cx.rng, 64, &[1, blocks, 64 * done]);
    p.expect.extend(words.iter().flatten().flat_map(|w| w.to_le_bytes()));
    let status = p.end(&mut cx.rng);
    let (e, expect, story) = p.image(&mut cx.rng, Symbols::Both);
    let d = proc::dir("files");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::carron(&d, &["prog.elf"], || Input::Null);
    let after = std::fs::read(d.join(&name));
    proc::remove(&d);
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped on a valid request", format!("{story}: {c}"));
    }
    if run.timed_out {
        cx.st.inconclusive("deadline");
        return Ok(());
    }
    let out = run.guest_out().unwrap_or(&[]);
    if out != expect {
        let i = first_diff(out, &expect);
        return violation("what a program read back", format!("{story}: from byte {i} on {} instead of {}", hex(&out[i..]), hex(&expect[i..])));
    }
    if after.as_ref().ok() != Some(&file) {
        return violation("the file a program wrote", format!("{story}: {:?} instead of {}", after.map(|f| hex(&f)), hex(&file)));
    }
    if run.code != Some(status as i32) {
        return violation("exit status", format!("{story}: {}", run.ending()));
    }
    cx.st.case(Some(mix(done, mix(reads, mix(writes, file.len() as u64)))));
    cx.st.add("calls of whole programs compared", done);
    cx.st.count("files written by whole programs compared");
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Slot {
    Free,
    /// the emulator's own
    Std(usize),
    File(usize),
}

/// The standard descriptors closed and their numbers taken by files, with the UART and the
/// remaining descriptors in use throughout.
pub fn streams(cx: &mut Ctx) -> Result<(), Violation> {
    let mut p = Prog::new(&mut cx.rng);
    p.start(&mut cx.rng);
    let calls = cx.rng.range(6, 40);
    let blocks = p.alloc(64 * calls, 8);
    let names: Vec<String> = (0..4).map(|i| format!("s{i}-{}", cx.rng.below(1000))).collect();
    let nat: Vec<u64> = names
        .iter()
        .map(|n| {
            let at = p.alloc(n.len() as u64 + 1, 1);
            p.fill(at, n.as_bytes());
            at
        })
        .collect();
    let mut files: Vec<Option<Vec<u8>>> = vec![None; 4];
    let mut table = vec![Slot::Std(0), Slot::Std(1), Slot::Std(2)];
    let mut err: Vec<u8> = vec![];
    let mut results: Vec<i64> = vec![];
    let mut what = vec![];
    let (mut taken, mut said) = (0, 0);
    let mut used = 0;
    while used < calls {
        match cx.rng.below(8) {
            0 | 1 => {
                let fd = cx.rng.below(table.len() as u64 + 1) as usize;
                let open = fd < table.len() && table[fd] != Slot::Free;
                let w: Vec<u64> = [57, fd as u64].into_iter().chain((0..6).map(|_| cx.rng.u64())).collect();
                p.request_at(&mut cx.rng, blocks + 64 * used, &w);
                used += 1;
                what.push(format!("close({fd})"));
                results.push(if open { 0 } else { -9 });
                if open {
                    table[fd] = Slot::Free;
                }
            }
            2 => {
                // each file once: it has one position
                let Some(k) = (0..4).find(|k| files[*k].is_none()) else { continue };
                files[k] = Some(vec![]);
                let w = [56, -100i64 as u64, nat[k], names[k].len() as u64 + 1, (libc::O_RDWR | libc::O_CREAT) as u64, 0o644, 0, 0];
                p.request_at(&mut cx.rng, blocks + 64 * used, &w);
                used += 1;
                let fd = table.iter().position(|s| *s == Slot::Free).unwrap_or(table.len());
                if fd == table.len() {
                    table.push(Slot::Free);
                }
                table[fd] = Slot::File(k);
                taken += (fd < 3) as u64;
                what.push(format!("openat = {fd}"));
                results.push(fd as i64);
            }
            3..=5 => {
                // never to the emulator's standard input
                let fd = cx.rng.below(table.len() as u64 + 1) as usize;
                let slot = table.get(fd).copied().unwrap_or(Slot::Free);
                if slot == Slot::Std(0) {
                    continue;
                }
                let n = cx.rng.range(1, 20);
                let d: Vec<u8> = (0..n).map(|_| cx.rng.u64() as u8).collect();
                let at = p.alloc(n, 1);
                p.fill(at, &d);
                let w = [64, fd as u64, at, n, 0, 0, 0, 0];
                p.request_at(&mut cx.rng, blocks + 64 * used, &w);
                used += 1;
                what.push(format!("write({fd}, {n})"));
                match slot {
                    Slot::Free => (),
                    Slot::Std(1) => p.expect.extend(&d),
                    Slot::Std(_) => err.extend(&d),
                    Slot::File(k) => files[k].as_mut().unwrap().extend(&d),
                }
                results.push(if slot == Slot::Free { -9 } else { n as i64 });
            }
            _ => {
                p.say(&mut cx.rng);
                what.push("uart".into());
                said += 1;
            }
        }
    }
    // the results, by way of the UART
    for (k, v) in results.iter().enumerate() {
        p.a.li(7, blocks + 64 * k as u64);
        p.a.o(Op::Lui, 5, 0, 0, UART as i64);
        for i in 0..8 {
            p.a.o(Op::Lbu, 6, 7, 0, i);
            p.a.o(Op::Sb, 0, 5, 6, 0);
        }
        p.expect.extend(v.to_le_bytes());
    }
    let status = p.end(&mut cx.rng);
    let (e, expect, story) = p.image(&mut cx.rng, Symbols::Both);
    let story = format!("{story} {}", what.join("; "));
    let d = proc::dir("streams");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::carron(&d, &["prog.elf"], || Input::Null);
    let after: Vec<Option<Vec<u8>>> = names.iter().map(|n| std::fs::read(d.join(n)).ok()).collect();
    proc::remove(&d);
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped on a valid request", format!("{story}: {c}"));
    }
    if run.timed_out {
        cx.st.inconclusive("deadline");
        return Ok(());
    }
    let out = run.guest_out().unwrap_or(&[]);
    if out != expect {
        let i = first_diff(out, &expect);
        return violation("standard output after descriptors were closed", format!("{story}: from byte {i} on {} instead of {}", hex(&out[i..]), hex(&expect[i..])));
    }
    if run.err != err {
        return violation("standard error after descriptors were closed", format!("{story}: {} instead of {}", hex(&run.err), hex(&err)));
    }
    if after != files {
        let k = (0..4).find(|k| after[*k] != files[*k]).unwrap();
        let show = |f: &Option<Vec<u8>>| f.as_ref().map_or("no file".into(), |f| hex(f));
        return violation("a file opened after descriptors were closed", format!("{story}: file {k} holds {} instead of {}", show(&after[k]), show(&files[k])));
    }
    if run.code != Some(status as i32) {
        return violation("exit status", format!("{story}: {}", run.ending()));
    }
    cx.st.case(Some(mix(used, mix(taken, mix(said, err.len() as u64)))));
    cx.st.add("calls of whole programs compared", used);
    if taken > 0 && said > 0 {
        cx.st.count("programs whose files took the number of a closed standard stream");
    }
    Ok(())
}

pub fn c29() -> Check {
    Check {
        id: "C29",
        gens: vec![
            Gen { name: "programs that end, by every kind of store and by exit", weight: 5, run: ends },
            Gen { name: "programs that do not", weight: 2, run: goes_on },
        ],
        quick: 8000,
        thorough: 60_000,
        rule: "a complete run of the emulator binary, of a program that ends (its output byte for byte, its exit status and nothing after it compared), or that must not end (seen to go on and print); distinct by the mix of what it did before and how it ended",
        assumptions: &[
            "tohost and fromhost are 8-byte aligned words of DRAM, as the HTIF convention has them",
            "the guest's tohost word is zero at the start, and is written whole (RV32: high half first)",
        ],
        must: &["programs that ended as they asked", "programs that went on as they should", "guest bytes compared"],
    }
}
