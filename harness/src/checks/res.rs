//! C31: what a long run costs the host. The watching is done by a process of the unprivileged
//! user (`monitor child-watch SEED`), which may look at its own children.

use crate::asm::*;
use crate::dec::Op;
use crate::elf::{Elf, Seg};
use crate::genprog::{self, UART};
use crate::model::csr;
use crate::report::*;
use crate::rng::Rng;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const BASE: u64 = 0x8000_0000;
const HTIF: u64 = BASE + 0x4_0000;
const BLOCKS: u64 = BASE + 0x4_1000;
const NAMES: u64 = BASE + 0x4_4000;
const BUF: u64 = BASE + 0x4_5000;

/// Requests to the host without end; descriptors are closed again.
fn requests(r: &mut Rng) -> (Elf, String) {
    let rv64 = r.bool();
    let (ld, st) = if rv64 { (Op::Ld, Op::Sd) } else { (Op::Lw, Op::Sw) };
    let mut a = Asm::new(BASE, rv64);
    let names: [&[u8]; 4] = [b"file\0", b"other\0", b"missing/x\0", b".\0"];
    let mut blob = vec![];
    for n in names {
        let mut n = n.to_vec();
        n.resize(64, 0);
        blob.extend(n);
    }
    // (request, whether its first argument is the descriptor just opened)
    let mut calls: Vec<([u64; 7], bool)> = vec![];
    let cwd = (-100i64) as u64;
    let mut open = false;
    let mut nr = vec![];
    let n = r.range(2, 24);
    for k in 0..n {
        let bad = r.pick(&[99u64, 1 << 20, 0xffff_ffff]);
        let m = r.pick(&[1u64, 8, 64, 700, 3000]);
        let fd = |c: [u64; 7], open: bool| (c, open);
        if open && (k + 1 == n || r.chance(1, 5)) {
            calls.push(([57, bad, 0, 0, 0, 0, 0], true));
            open = false;
            continue;
        }
        let mut what = r.below(14);
        if !open && r.chance(1, 3) {
            what = 0;
        }
        calls.push(match what {
            0 if !open && k + 1 < n => {
                let f = r.below(2);
                open = true;
                let fl = r.pick(&[0o102u64, 0o1102, 0o2102, 0o102]);
                let l = names[f as usize].len() as u64;
                ([56, cwd, NAMES + 64 * f, l, fl, 0o666, 0], false)
            }
            1 => ([56, cwd, NAMES + 128, 10, 0, 0, 0], false),
            2 => ([57, bad, 0, 0, 0, 0, 0], false),
            3 => fd([62, bad, r.below(4000), r.below(3), 0, 0, 0], open),
            4 => fd([63, bad, BUF, m, 0, 0, 0], open),
            5 => ([62, bad, 0, 0, 0, 0, 0], open),
            6 => fd([67, bad, BUF, m, r.below(5000), 0, 0], open),
            7 | 8 => fd([68, bad, BUF, m, r.below(5000), 0, 0], open),
            9 => ([79, cwd, NAMES + r.below(4) * 64, 64, BUF, 0, 0], false),
            10 => fd([80, bad, BUF, 0, 0, 0, 0], open),
            11 => ([2011, BUF, r.pick(&[8, 4096]), 0, 0, 0, 0], false),
            12 => ([64, r.pick(&[1, 2]), BUF, m, 0, 0, 0], false),
            _ => fd([63, bad, BUF, m, 0, 0, 0], open),
        });
    }
    if open {
        calls.push(([57, 0, 0, 0, 0, 0, 0], true));
    }
    // lengths of names include the NUL
    for (c, _) in calls.iter_mut() {
        if c[0] == 79 {
            c[3] = names[((c[2] - NAMES) / 64) as usize].len() as u64;
        }
    }
    a.li(8, HTIF);
    a.li(20, 0);
    a.label("loop");
    a.li(9, BLOCKS);
    let mut data = vec![];
    for (k, (c, fd)) in calls.iter().enumerate() {
        data.extend(c.iter().chain(&[0]).flat_map(|x| x.to_le_bytes()));
        nr.push(c[0]);
        a.o(Op::Addi, 5, 0, 0, c[0] as i64);
        a.o(st, 0, 9, 5, 0);
        if *fd {
            a.o(st, 0, 9, 20, 8);
        }
        if !rv64 {
            a.o(Op::Sw, 0, 9, 0, 4);
        }
        a.o(st, 0, 8, 9, 0);
        let l = format!("w{k}");
        a.label(&l);
        a.o(ld, 6, 8, 0, 64);
        a.to(Op::Beq, 0, 6, 0, &l);
        a.o(st, 0, 8, 0, 64);
        if c[0] == 56 && c[2] < NAMES + 128 {
            a.o(ld, 20, 9, 0, 0);
            // no descriptor left: end
            let l = format!("ok{k}");
            a.to(Op::Bge, 0, 20, 0, &l);
            a.jmp("fail");
            a.label(&l);
        }
        a.o(Op::Addi, 9, 9, 0, 64);
    }
    a.jmp("loop");
    a.label("fail");
    genprog::exit_with(&mut a, HTIF, 77);
    let mut e = Elf::simple(rv64, BASE, a.finish());
    e.segs.push(Seg::load(BLOCKS, data));
    e.segs.push(Seg::load(NAMES, blob));
    e.segs.push(Seg::load(BUF, vec![0x61; 0x1800]));
    (e.htif(HTIF, HTIF + 64), format!("rv64 {rv64}, requests {nr:?}"))
}

/// Pages, devices and traps without end.
fn machine(r: &mut Rng) -> (Elf, String) {
    let rv64 = r.bool();
    let mut a = Asm::new(BASE, rv64);
    let (ld, st) = if rv64 { (Op::Ld, Op::Sd) } else { (Op::Lw, Op::Sw) };
    let translate = r.chance(3, 4);
    let mode = if translate { r.pick(&[1u64, 1, 3]) } else { 3 };
    let tables = BASE + 0x8_0000;
    a.jmp("start");
    a.align(8);
    a.label("handler");
    // x5 to x7 belong to the handler
    a.o(Op::Csrrs, 5, 0, 0, csr::MCAUSE as i64);
    a.to(Op::Blt, 0, 5, 0, "interrupt");
    a.o(Op::Csrrs, 5, 0, 0, csr::MEPC as i64);
    a.o(Op::Addi, 5, 5, 0, 4);
    a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
    a.o(Op::Mret, 0, 0, 0, 0);
    a.label("interrupt");
    a.li(5, 0x0200_0000);
    a.o(Op::Sw, 0, 5, 0, 0);
    a.li(5, 0x0200_bff8);
    a.li(6, 0x0200_4000);
    let gap = r.range(1, 60) as i64;
    a.o(ld, 7, 5, 0, 0);
    a.o(Op::Addi, 7, 7, 0, gap);
    a.o(st, 0, 6, 7, 0);
    // external interrupts are claimed and completed
    a.li(5, 0x0c20_0004);
    a.o(Op::Lw, 6, 5, 0, 0);
    a.o(Op::Sw, 0, 5, 6, 0);
    a.o(Op::Mret, 0, 0, 0, 0);
    a.align(8);
    a.label("shandler");
    a.o(Op::Csrrs, 5, 0, 0, csr::SEPC as i64);
    a.o(Op::Addi, 5, 5, 0, 4);
    a.o(Op::Csrrw, 0, 5, 0, csr::SEPC as i64);
    a.o(Op::Sret, 0, 0, 0, 0);
    a.label("start");
    // everything to S mode, nothing left for M
    let deleg = mode == 1 && r.bool();
    let quiet = r.chance(1, 3);
    if deleg {
        a.la(5, a.addr("shandler"));
        a.o(Op::Csrrw, 0, 5, 0, csr::STVEC as i64);
        a.li(5, 0xb3ff);
        a.o(Op::Csrrw, 0, 5, 0, csr::MEDELEG as i64);
    }
    a.la(5, a.addr("handler"));
    a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
    genprog::open_pmp(&mut a);
    a.li(5, 0x0200_4000);
    a.o(Op::Sw, 0, 5, 0, 4);
    a.o(Op::Sw, 0, 5, 0, 0);
    a.li(5, if quiet { 0 } else { r.pick(&[0x888u64, 0x80, 0x8, 0x880]) });
    a.o(Op::Csrrw, 0, 5, 0, csr::MIE as i64);
    // the UART's interrupt
    a.li(5, 0x0c00_0004);
    a.o(Op::Addi, 6, 0, 0, 1);
    a.o(Op::Sw, 0, 5, 6, 0);
    a.li(5, 0x0c00_2000);
    a.li(6, 2);
    a.o(Op::Sw, 0, 5, 6, 0);
    // which may be there all the time
    let storm = !quiet && r.chance(1, 3);
    if storm {
        a.li(5, UART);
        a.o(Op::Addi, 6, 0, 0, 2);
        a.o(Op::Sb, 0, 5, 6, 1);
        a.li(5, 0x888);
        a.o(Op::Csrrw, 0, 5, 0, csr::MIE as i64);
    }
    // tables: all 4 GB in place, and 64 small pages at 0x4000_0000
    let w = if rv64 { 8usize } else { 4 };
    let mut pt = vec![0u8; 4 * 4096];
    let mut put = |at: usize, v: u64| pt[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
    let ppn = |pa: u64| pa >> 12 << 10;
    if rv64 {
        for g in 0..4u64 {
            put(g as usize * 8, g << 28 | 0xcf);
        }
        put(8, ppn(tables + 4096) | 1);
        put(4096, ppn(tables + 8192) | 1);
    } else {
        for g in 0..1024u64 {
            put(g as usize * 4, g << 20 | 0xcf);
        }
        put(256 * 4, ppn(tables + 8192) | 1);
    }
    let mut pages = vec![];
    for k in 0..64u64 {
        let f = r.pick(&[0xcfu64, 0xcf, 0xcf, 0xc3, 0xc0, 0x0f, 0xdf, 0xc9]);
        pages.push(f);
        put(8192 + k as usize * w, ppn(BASE + 0x10_0000 + 4096 * (k % 16)) | f);
    }
    if translate {
        a.li(5, if rv64 { 8 << 60 } else { 1 << 31 } | tables >> 12);
        a.o(Op::Csrrw, 0, 5, 0, csr::SATP as i64);
    }
    // M mode looks through the tables, too
    let mprv = if mode == 3 && translate { 1u64 << 17 } else { 0 };
    a.li(5, (if mprv != 0 { 1 } else { mode }) << 11 | 0x8 | 0x80 | r.below(4) << 18);
    a.o(Op::Csrrw, 0, 5, 0, csr::MSTATUS as i64);
    if mode == 3 {
        if mprv != 0 {
            a.li(5, mprv);
            a.o(Op::Csrrs, 0, 5, 0, csr::MSTATUS as i64);
        }
    } else {
        a.to(Op::Jal, 5, 0, 0, "here");
        a.label("here");
        a.o(Op::Addi, 5, 5, 0, 12);
        a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
        a.o(Op::Mret, 0, 0, 0, 0);
    }
    a.label("loop");
    let mut kinds = std::collections::BTreeSet::new();
    // often only a few kinds of things, so that each happens more often
    let few: Vec<u64> = (0..r.range(1, 5)).map(|_| r.below(16)).collect();
    let all = r.chance(1, 3);
    for _ in 0..r.range(10, 80) {
        let k = if all { r.below(16) } else { few[r.below(few.len() as u64) as usize] };
        kinds.insert(k);
        match k {
            0..=3 => {
                let at = if translate { 0x4000_0000 + r.below(64) * 4096 } else { BASE + 0x10_0000 + r.below(16) * 4096 };
                a.li(28, at + r.below(1024) * 4);
                match r.below(5) {
                    0 => a.o(Op::Sw, 0, 28, 10, 0),
                    1 => a.o(Op::AmoaddW, 11, 28, 10, 0),
                    2 => {
                        a.o(Op::LrW, 11, 28, 0, 0);
                        a.o(Op::ScW, 12, 28, 11, 0);
                    }
                    _ => a.o(Op::Lw, 10, 28, 0, 0),
                }
            }
            4 => a.o(Op::SfenceVma, 0, 0, 0, 0),
            5 => {
                a.o(Op::Csrrs, 13, 0, 0, csr::SATP as i64);
                a.o(Op::Csrrw, 0, 13, 0, csr::SATP as i64);
            }
            6 => a.o(Op::FenceI, 0, 0, 0, 0),
            7 => a.o(Op::Ecall, 0, 0, 0, 0),
            8 => a.w(0xffff_ffff),
            9 => {
                // not aligned
                a.li(28, BASE + 0x10_0001);
                a.o(Op::Lw, 10, 28, 0, 0);
                a.o(Op::Sw, 0, 28, 10, 0);
            }
            10 => {
                a.li(28, UART);
                match r.below(7) {
                    0 => {
                        a.o(Op::Addi, 13, 0, 0, r.below(32) as i64);
                        a.o(Op::Sb, 0, 28, 13, r.pick(&[1, 2, 4, 4]));
                    }
                    1..=3 => {
                        a.o(Op::Addi, 13, 0, 0, 0x61);
                        a.o(Op::Sb, 0, 28, 13, 0);
                    }
                    4 => a.o(Op::Sb, 0, 28, 10, 7),
                    5 => a.o(Op::Lbu, 13, 28, 0, 0),
                    _ => a.o(Op::Lbu, 13, 28, 0, r.range(2, 7) as i64),
                }
            }
            11 => {
                a.li(28, 0x0c00_0000 + r.pick(&[4u64, 0x1000, 0x2000, 0x2080, 0x20_0000, 0x20_1000]));
                a.o(Op::Lw, 13, 28, 0, 0);
                a.li(28, 0x0c20_1004);
                a.o(Op::Lw, 13, 28, 0, 0);
                a.o(Op::Sw, 0, 28, 13, 0);
            }
            12 => {
                a.li(28, 0x0200_0000);
                a.o(Op::Addi, 13, 0, 0, 1);
                a.o(Op::Sw, 0, 28, 13, 0);
            }
            13 => {
                // an instruction made here
                a.o(Op::Auipc, 28, 0, 0, 0);
                a.li(13, enc(Op::Addi, 14, 14, 0, r.below(100) as i64) as u64);
                let at = a.here();
                a.o(Op::Addi, 28, 28, 0, 12 + (at as i64 & 0));
                a.o(Op::Lw, 13, 28, 0, 0);
            }
            14 => {
                let c = r.pick(&[csr::SSCRATCH, csr::SEPC, csr::STVAL, csr::SCOUNTEREN, csr::SCAUSE, csr::MSCRATCH, csr::CYCLE]);
                let op = r.pick(&[Op::Csrrw, Op::Csrrs, Op::Csrrc]);
                a.o(op, 13, 14, 0, c as i64);
            }
            _ => {
                a.o(Op::Mul, 14, 14, 10, 0);
                a.o(Op::Addi, 14, 14, 0, 7);
                a.o(Op::Divu, 15, 14, 10, 0);
            }
        }
    }
    a.jmp("loop");
    let code = a.finish();
    assert!(code.len() < 0x4_0000);
    let mut e = Elf::simple(rv64, BASE, code);
    e.segs.push(Seg::load(tables, pt));
    e.segs.push(Seg::load(BASE + 0x10_0000, vec![1; 16 * 4096]));
    let e = if r.bool() { e.htif(HTIF, HTIF + 64) } else { e };
    (e, format!("rv64 {rv64}, mode {mode}, delegated {deleg}, quiet {quiet}, storm {storm}, translate {translate}, kinds {kinds:?}"))
}

/// A marker no input contains: printed for every so many bytes taken from the input.
const TAKEN: u8 = 1;

/// What is typed is read, byte by byte, without end; how many bytes there are to a marker.
fn input(r: &mut Rng) -> (Elf, String, usize) {
    let rv64 = r.bool();
    let mut a = Asm::new(BASE, rv64);
    let per = r.pick(&[200u64, 512, 1000, 2048]);
    let (interrupts, echo, iir, csrs) = (r.bool(), r.chance(1, 3), r.chance(1, 3), r.chance(1, 3));
    a.jmp("start");
    a.align(8);
    a.label("handler");
    a.li(7, 0x0c20_0004);
    a.o(Op::Lw, 6, 7, 0, 0);
    a.to(Op::Jal, 1, 0, 0, "drain");
    a.o(Op::Sw, 0, 7, 6, 0);
    a.o(Op::Mret, 0, 0, 0, 0);
    a.label("drain");
    a.o(Op::Lbu, 13, 28, 0, 5);
    a.o(Op::Andi, 13, 13, 0, 1);
    a.to(Op::Beq, 0, 13, 0, "dry");
    if iir {
        a.o(Op::Lbu, 13, 28, 0, 2);
    }
    a.o(Op::Lbu, 13, 28, 0, 0);
    if echo {
        a.o(Op::Sb, 0, 28, 13, 0);
    }
    if csrs {
        a.o(Op::Csrrw, 0, 13, 0, csr::MSCRATCH as i64);
    }
    a.o(Op::Addi, 20, 20, 0, -1);
    a.to(Op::Bne, 0, 20, 0, "drain");
    a.o(Op::Addi, 20, 21, 0, 0);
    a.o(Op::Addi, 13, 0, 0, TAKEN as i64);
    a.o(Op::Sb, 0, 28, 13, 0);
    a.jmp("drain");
    a.label("dry");
    a.o(Op::Jalr, 0, 1, 0, 0);
    a.label("start");
    a.li(28, UART);
    a.li(21, per);
    a.o(Op::Addi, 20, 21, 0, 0);
    a.la(5, a.addr("handler"));
    a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
    if interrupts {
        a.li(5, 0x0c00_0004);
        a.o(Op::Addi, 6, 0, 0, 1);
        a.o(Op::Sw, 0, 5, 6, 0);
        a.li(5, 0x0c00_2000);
        a.li(6, 2);
        a.o(Op::Sw, 0, 5, 6, 0);
        a.o(Op::Addi, 6, 0, 0, 1);
        a.o(Op::Sb, 0, 28, 6, 1);
        a.li(5, 0x800);
        a.o(Op::Csrrw, 0, 5, 0, csr::MIE as i64);
        a.li(5, 8);
        a.o(Op::Csrrs, 0, 5, 0, csr::MSTATUS as i64);
        a.label("loop");
        a.o(Op::Wfi, 0, 0, 0, 0);
        a.o(Op::Addi, 14, 14, 0, 1);
    } else {
        a.label("loop");
        a.to(Op::Jal, 1, 0, 0, "drain");
    }
    a.jmp("loop");
    (Elf::simple(rv64, BASE, a.finish()), format!("rv64 {rv64}, interrupts {interrupts}, a marker every {per} bytes, echo {echo}, iir {iir}"), per as usize)
}

/// Types on, never more than is soon read; tells how many markers it saw.
fn typist(c: &mut Child, per: usize, mut r: Rng) -> std::sync::Arc<std::sync::atomic::AtomicUsize> {
    use std::io::Read;
    let seen = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (mut i, mut o, s) = (c.stdin.take().unwrap(), c.stdout.take().unwrap(), seen.clone());
    std::thread::spawn(move || {
        // bytes that may be typed; usually many at once, as little comes through otherwise
        let mut may = 24 << 10;
        let most = r.pick(&[4096usize, 8192, 1500, 3000]);
        let mut chunk = move |r: &mut Rng, may: &mut usize| {
            while *may >= most {
                *may -= most;
                let b: Vec<u8> = (0..most).map(|_| r.range(2, 255) as u8).collect();
                if i.write_all(&b).is_err() {
                    return false;
                }
            }
            true
        };
        chunk(&mut r, &mut may);
        let mut b = [0u8; 4096];
        while let Ok(n) = o.read(&mut b) {
            if n == 0 {
                break;
            }
            for _ in b[..n].iter().filter(|b| **b == TAKEN) {
                s.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                may += per;
            }
            if !chunk(&mut r, &mut may) {
                return;
            }
        }
    });
    seen
}

/// Generated programs whose loop has no end.
fn random(r: &mut Rng) -> (Elf, String) {
    let mut p = genprog::plan(r);
    p.loops = if p.rv64 { 1 << 50 } else { 0xffff_fff0 };
    let e = genprog::generate(r, &p);
    (e, format!("{p:x?}"))
}

#[derive(Clone, Copy, Debug, Default)]
struct Use {
    /// memory of its own, in bytes
    memory: i64,
    fds: i64,
    threads: i64,
}

fn used(pid: u32) -> Option<Use> {
    let t = std::fs::read_to_string(format!("/proc/{pid}/smaps_rollup")).ok()?;
    let kb = t.lines().find(|l| l.starts_with("Anonymous:"))?.split_whitespace().nth(1)?.parse::<i64>().ok()?;
    let s = std::fs::read_to_string(format!("/proc/{pid}/status")).ok()?;
    let threads = s.lines().find(|l| l.starts_with("Threads:"))?.split_whitespace().nth(1)?.parse().ok()?;
    Some(Use { memory: kb << 10, fds: std::fs::read_dir(format!("/proc/{pid}/fd")).ok()?.count() as i64, threads })
}

/// CPU time in ms
fn cpu(pid: u32) -> Option<u64> {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) * 10)
}

/// Waits until it has used this much CPU time; false if it ended or there is no time left.
fn until(c: &mut Child, ms: u64, deadline: Instant) -> bool {
    loop {
        if c.try_wait().ok().flatten().is_some() || Instant::now() > deadline {
            return false;
        }
        match cpu(c.id()) {
            Some(t) if t >= ms => return true,
            None => return false,
            _ => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

/// The largest of a few looks: single looks fall on either side of an open or a buffer.
fn settled(c: &mut Child, deadline: Instant) -> Option<Use> {
    let mut u = Use { memory: i64::MAX, fds: i64::MAX, threads: i64::MAX };
    for _ in 0..4 {
        let n = used(c.id())?;
        u = Use { memory: u.memory.min(n.memory), fds: u.fds.min(n.fds), threads: u.threads.min(n.threads) };
        if Instant::now() > deadline {
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    Some(u)
}

/// `monitor child-watch KIND SEED EMULATOR`, in an empty directory.
pub fn child(args: &[String]) -> i32 {
    let mut r = Rng::new(args[1].parse().unwrap());
    let mut per = 0;
    let (elf, tell) = match args[0].as_str() {
        "requests" => requests(&mut r),
        "machine" => machine(&mut r),
        "input" => {
            let (e, t, p) = input(&mut r);
            per = p;
            (e, t)
        }
        _ => random(&mut r),
    };
    std::fs::write("prog.elf", elf.bytes()).unwrap();
    std::fs::write("file", vec![7u8; 6000]).unwrap();
    let say = |s: String| {
        let mut o = std::io::stdout();
        let _ = writeln!(o, "{}", s.replace('\n', "\\n"));
        let _ = o.flush();
    };
    let mut cmd = Command::new(&args[2]);
    cmd.arg("prog.elf").arg("argument").env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create("err").unwrap());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    if per > 0 {
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped());
    }
    let mut c = cmd.spawn().unwrap();
    let markers = (per > 0).then(|| typist(&mut c, per, Rng::new(r.u64())));
    let deadline = Instant::now() + Duration::from_secs(45);
    // CPU times at which it is looked at; the last one only if it has grown
    let at = [500u64, 1500, 4500, 9000];
    let mut seen: Vec<Use> = vec![];
    let grew = |a: &Use, b: &Use, n: i64| b.memory - a.memory > n * (20 << 10) || b.fds - a.fds > 2 * n || b.threads - a.threads > n;
    let mut verdict = None;
    for (k, t) in at.iter().enumerate() {
        if !until(&mut c, *t, deadline) {
            break;
        }
        let Some(u) = settled(&mut c, deadline) else { break };
        seen.push(u);
        // no guest has more than one file open: whatever this is, it has grown to its limit
        if k == 1 && seen.iter().all(|u| u.fds > 100 || u.threads > 50) {
            verdict = Some(());
            break;
        }
        if k == 1 && !grew(&seen[0], &seen[1], 1) {
            say("count long runs that stayed as they were".into());
            break;
        }
        if k == 2 && !grew(&seen[1], &seen[2], 2) {
            say("count long runs that grew only at first".into());
            break;
        }
        if k == 3 {
            if grew(&seen[2], &seen[3], 3) {
                verdict = Some(());
            } else {
                say("count long runs that grew only at first".into());
            }
        }
    }
    let ended = c.try_wait().ok().flatten();
    let _ = c.kill();
    let _ = c.wait();
    let h = args[1].bytes().fold(9u64, |h, b| crate::rng::mix(h, b as u64));
    say(format!("case {h:x}"));
    say(format!("count watched {}", args[0]));
    if let (Some(a), Some(b)) = (seen.first(), seen.last()) {
        say(format!("name {}: memory {} KB after {} ms of CPU time, growth {} KB, {} descriptors, {} threads", args[0], b.memory >> 12 << 2, at[seen.len() - 1], (b.memory - a.memory) >> 10, b.fds, b.threads));
        say(format!("sample {} {tell}: {seen:?}", args[0]));
    }
    let taken = markers.map_or(0, |m| m.load(std::sync::atomic::Ordering::Relaxed) * per);
    if per > 0 {
        say(format!("name input: {}00 KB and more read by the guest", taken / 102_400));
        if taken >= 40_000 {
            say("count guests that read at least 40 KB of input".into());
        }
    }
    if let Some(e) = ended {
        let err = String::from_utf8_lossy(&std::fs::read("err").unwrap_or_default()).chars().take(500).collect::<String>();
        say(format!("viol a program without an end ended\t{tell}\n{e:?}; {seen:?}\n{err}"));
    } else if verdict.is_some() {
        say(format!("viol the emulator takes more and more\t{tell}\nat {at:?} ms of CPU time: {seen:?}"));
    } else if seen.len() < 2 {
        say("name too slow to be watched".into());
    }
    say("done".into());
    0
}

fn watch(cx: &mut Ctx, kind: &str) -> Result<(), Violation> {
    let s = cx.rng.u64().to_string();
    super::host::child(cx, "child-watch", &[kind.into(), s, crate::proc::bin().to_str().unwrap().into()])
}

pub fn c31() -> Check {
    Check {
        id: "C31",
        gens: vec![
            Gen { name: "requests to the host without end", weight: 3, run: |cx| watch(cx, "requests") },
            Gen { name: "pages, devices and traps without end", weight: 3, run: |cx| watch(cx, "machine") },
            Gen { name: "generated programs without end", weight: 2, run: |cx| watch(cx, "random") },
            Gen { name: "input without end", weight: 2, run: |cx| watch(cx, "input") },
        ],
        quick: 160,
        thorough: 3000,
        rule: "one guest that never ends, run in the binary for several million instructions while its memory, descriptors and threads were looked at twice, and twice more if they had grown; each has a seed of its own",
        assumptions: &[
            "guests keep to a fixed set of pages and close what they open, so that a run which grows with time grows for no reason of the guest's",
            "growth is believed when it goes on over three periods of 1, 3 and 4.5 s of CPU time, by more than 20 KB a second, or when there are more than 100 descriptors or 50 threads",
            "what is typed ahead is kept until the guest reads it: input is empty, or comes as fast as the guest reads it, at most 24 KB ahead",
        ],
        must: &["long runs that stayed as they were", "watched requests", "watched machine", "watched random", "watched input", "guests that read at least 40 KB of input"],
    }
}
