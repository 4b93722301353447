//! The emulator binary as a user runs it, against the reference machine.

use crate::asm::*;
use crate::dec::Op;
use crate::elf::Elf;
use crate::emu::Emu;
use crate::genprog::{self, exit_with, print_x5, Plan};
use crate::machine::{End, Machine};
use crate::model::csr;
use crate::proc::{self, Input, Run};
use crate::report::*;
use crate::rng::mix;

/// The boot ROM the emulator makes for this image.
pub fn boot_rom(e: &Elf) -> Vec<u8> {
    let base = e.segs.iter().filter(|s| s.ptype == 1).map(|s| s.paddr).min().unwrap();
    Emu::from_elf(&e.bytes(), e.rv64, base).rom()
}

/// Output of the emulator at a log level, taken apart: guest bytes (all have the top bit set)
/// and log lines.
pub fn split(out: &[u8]) -> (Vec<u8>, String) {
    let guest: Vec<u8> = out.iter().copied().filter(|b| *b >= 0x80).collect();
    let log: String = out.iter().filter(|b| **b < 0x80).map(|b| *b as char).collect();
    (guest, log)
}

pub fn pcs_of(log: &str) -> Vec<u64> {
    log.lines()
        .filter_map(|l| u64::from_str_radix(l.strip_prefix("pc: 0x")?.trim(), 16).ok())
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(120).map(|b| format!("{b:02x}")).collect();
    if b.len() > 120 { format!("{s}... ({} bytes)", b.len()) } else { s }
}

fn first_diff<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

/// The panic message in what the process wrote to stderr, for violations and inconclusive notes.
pub fn crashed(r: &Run) -> Option<String> {
    let t = r.err_text();
    if r.signal.is_some() && !r.stopped && !r.timed_out {
        return Some(format!("{}; stderr: {t}", r.ending()));
    }
    if r.code == Some(101) && t.contains("panicked at") {
        return Some(t);
    }
    None
}

/// Runs the image and compares with what the machine says it does.
fn compare(cx: &mut Ctx, e: &Elf, m: &mut Machine, end: &End, info: bool, what: &str) -> Result<(), Violation> {
    let d = proc::dir("run");
    proc::put(&d, "prog.elf", &e.bytes());
    let args: &[&str] = if info { &["--loglv", "info", "prog.elf"] } else { &["prog.elf"] };
    let want_pcs = m.pcs.len();
    let complete = matches!(end, End::Exit(_));
    let r = if complete {
        proc::carron(&d, args, || Input::Null)
    } else {
        proc::run_bin(proc::bin(), &d, args, Input::Null, proc::FIRST, |o| o.len() > want_pcs * 26 + 4096)
    };
    proc::remove(&d);
    let Some(body) = r.guest_out() else {
        if let Some(c) = crashed(&r) {
            return violation("the emulator stopped while starting", format!("{what}: {c}"));
        }
        cx.st.inconclusive("no greeting from the emulator");
        return Ok(());
    };
    let (mut guest, log) = if info { split(body) } else { (body.to_vec(), String::new()) };
    if let Some(c) = crashed(&r) {
        return violation("the emulator stopped", format!("{what}: {c}"));
    }
    if info {
        let pcs = pcs_of(&log);
        if pcs.is_empty() {
            cx.st.inconclusive("no pc lines in the log");
        } else {
            let n = first_diff(&pcs, &m.pcs);
            let short = pcs.len() < m.pcs.len() && r.timed_out;
            if n < m.pcs.len() && !short || complete && n < pcs.len() {
                let at = |v: &[u64]| {
                    v[n.saturating_sub(4)..(n + 4).min(v.len())].iter().map(|p| format!("{p:x}")).collect::<Vec<_>>().join(" ")
                };
                return violation(
                    "executed addresses differ",
                    format!(
                        "{what}: from instruction {n} on\n emulator: {}\n reference: {}\n(the fifth of each is the first that differs; emulator {} of {} instructions, {})",
                        at(&pcs), at(&m.pcs), pcs.len(), m.pcs.len(), r.ending()
                    ),
                );
            }
            cx.st.add("instruction addresses compared", n as u64);
        }
    }
    if !complete {
        // after something unspecified only the common beginning counts
        let n = guest.len().min(m.output().len());
        guest.truncate(n);
        if guest != m.output()[..n] {
            return violation("guest output differs", format!("{what}: emulator {} reference {}", hex(&guest), hex(&m.output()[..n])));
        }
        cx.st.count("runs compared up to an unspecified point");
        return Ok(());
    }
    if r.timed_out {
        cx.st.inconclusive("deadline");
        return Ok(());
    }
    if guest != m.output() {
        return violation(
            "guest output differs",
            format!("{what}: emulator {} reference {} ({})", hex(&guest), hex(m.output()), r.ending()),
        );
    }
    if let End::Exit(v) = end {
        if r.code != Some((*v & 0xff) as i32) {
            return violation("exit status differs", format!("{what}: tohost {v:#x}, {}", r.ending()));
        }
    }
    cx.st.add("guest bytes compared", guest.len() as u64);
    cx.st.count("complete runs compared");
    Ok(())
}

fn whole(cx: &mut Ctx, p: &Plan, info: bool) -> Result<(), Violation> {
    let mut e = genprog::generate(&mut cx.rng, p);
    if cx.rng.chance(1, 8) {
        e.pad = 8;
    }
    let mut m = Machine::boot(&e, boot_rom(&e));
    let end = m.run(120_000);
    if end == End::Steps {
        cx.st.inconclusive("program too long");
        return Ok(());
    }
    if let End::Open(s) = &end {
        cx.st.inconclusive(&format!("stopped by something unspecified: {s}"));
    }
    cx.st.case(Some(mix(cx.rng.clone().u64(), 1)));
    cx.st.add("instructions on the reference machine", m.n);
    cx.st.add("traps on the reference machine", m.traps);
    cx.st.add("timer interrupts on the reference machine", m.interrupts);
    cx.st.add("traps taken in S mode on the reference machine", m.delegated);
    cx.st.add("requests to the host on the reference machine", m.requests);
    cx.st.sample(|| format!("{p:?}: {} instructions, {} traps, {end:?}", m.n, m.traps));
    compare(cx, &e, &mut m, &end, info, &format!("{p:x?}"))
}

/// C28: generated programs in the real binary.
pub fn whole_program(cx: &mut Ctx) -> Result<(), Violation> {
    let p = genprog::plan(&mut cx.rng);
    let info = cx.rng.chance(3, 4);
    whole(cx, &p, info)
}

/// C18: the clock over whole runs: a program without traps that reads it in all ways and sets it.
pub fn timer_rate(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let mut a = Asm::new(base, rv64);
    let tohost = base + 0x8000;
    a.li(20, 0x0200_bff8);
    a.o(Op::Addi, 5, 0, 0, 7);
    a.o(Op::Csrrw, 0, 5, 0, csr::MCOUNTEREN as i64);
    let reads = r.range(3, 12);
    let asks = r.bool();
    for k in 0..reads {
        // the host's time is none of the guest's
        for j in 0..if asks { r.below(4) } else { 0 } {
            let q = genprog::question(r, tohost + 0x240);
            genprog::ask(&mut a, tohost, tohost + 0x200, &q, &format!("q{k}_{j}"));
        }
        // some time
        let n = r.range(1, 9000);
        a.li(10, n);
        let l = format!("w{k}");
        a.label(&l);
        for _ in 0..r.below(3) {
            a.o(Op::Addi, 11, 11, 0, 1);
        }
        a.o(Op::Addi, 10, 10, 0, -1);
        a.to(Op::Bne, 0, 10, 0, &l);
        if r.chance(1, 4) {
            let v = r.edgy(64);
            // not where a carry could come between the halves
            let v = if rv64 { v } else { v & !0xffff_ffff | v & 0xff_ffff };
            if rv64 && r.bool() {
                a.li(5, v);
                a.o(Op::Sd, 0, 20, 5, 0);
            } else {
                a.li(5, v >> 32);
                a.o(Op::Sw, 0, 20, 5, 4);
                a.li(5, v & 0xffff_ffff);
                a.o(Op::Sw, 0, 20, 5, 0);
            }
        }
        match r.below(3) {
            0 => a.o(Op::Csrrs, 5, 0, 0, csr::TIME as i64),
            1 if !rv64 => a.o(Op::Csrrs, 5, 0, 0, csr::TIMEH as i64),
            1 => a.o(Op::Ld, 5, 20, 0, 0),
            _ => {
                let o = r.pick(&[0, 4]);
                a.o(Op::Lw, 5, 20, 0, o)
            }
        }
        print_x5(&mut a);
    }
    let status = r.u64() | 1;
    exit_with(&mut a, tohost, status);
    let mut e = Elf::simple(rv64, base, a.finish()).htif(tohost, tohost + 8);
    e.segs.push(crate::elf::Seg::load(tohost + 0x200, [vec![0; 64], genprog::text()].concat()));
    let mut m = Machine::boot(&e, boot_rom(&e));
    let end = m.run(200_000);
    if !matches!(end, End::Exit(_)) {
        cx.st.inconclusive(&format!("timer program: {end:?}"));
        return Ok(());
    }
    cx.st.case(Some(mix(cx.rng.clone().u64(), 2)));
    cx.st.add("instructions on the reference machine", m.n);
    cx.st.add("clock reads over whole runs", reads);
    cx.st.add("requests between clock reads", m.requests);
    compare(cx, &e, &mut m, &end, false, "program that reads the clock")
}

/// C06: reservations over whole runs, across the real timer tick, traps and requests.
pub fn reservations(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let tohost = base + 0x8000;
    let data = base + 0x9000;
    let mut a = Asm::new(base, rv64);
    a.jmp("start");
    a.align(4);
    a.label("handler");
    a.o(Op::Csrrs, 5, 0, 0, csr::MEPC as i64);
    a.o(Op::Addi, 5, 5, 0, 4);
    a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
    a.o(Op::Mret, 0, 0, 0, 0);
    a.label("start");
    a.la(5, a.addr("handler"));
    a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
    a.li(12, 0);
    a.li(8, data);
    let pairs = r.range(2, 30);
    let long = r.range(0, 4);
    let mut ticks = 0;
    for k in 0..pairs {
        let wide = rv64 && r.bool();
        let (lr, sc, st) = if wide { (Op::LrD, Op::ScD, Op::Sd) } else { (Op::LrW, Op::ScW, Op::Sw) };
        let at = 8 * r.below(3) as i64;
        a.o(Op::Addi, 9, 8, 0, at);
        a.o(Op::Addi, 13, 13, 0, r.below(2000) as i64);
        a.o(lr, 10, 9, 0, 0);
        for j in 0..r.below(3) {
            match r.below(10) {
                0 => a.o(st, 0, 9, 13, 0),
                1 => a.o(Op::AmoaddW, 11, 9, 13, 0),
                2 => a.o(Op::Ecall, 0, 0, 0, 0),
                3 => {
                    let q = genprog::question(r, tohost + 0x240);
                    genprog::ask(&mut a, tohost, tohost + 0x200, &q, &format!("q{k}_{j}"));
                }
                4 => a.o(lr, 10, 8, 0, 8 * r.below(1) as i64),
                5 => a.o(Op::FenceI, 0, 0, 0, 0),
                6 => a.o(Op::Lw, 10, 9, 0, 0),
                7 => a.o(Op::Sb, 0, 8, 13, r.below(24) as i64),
                _ => {
                    // long enough to have a tick in it, sometimes
                    let n = if r.below(8) < long { r.range(1000, 6000) } else { r.range(1, 60) };
                    ticks += n / 2500;
                    a.li(14, n);
                    let l = format!("w{k}_{j}");
                    a.label(&l);
                    a.o(Op::Addi, 14, 14, 0, -1);
                    a.to(Op::Bne, 0, 14, 0, &l);
                }
            }
        }
        a.o(sc, 11, 9, 13, 0);
        if r.chance(1, 4) {
            a.o(sc, 15, 9, 13, 0);
            a.o(Op::Sltu, 15, 0, 15, 0);
            a.o(Op::Add, 12, 12, 15, 0);
        }
        // any value but zero means that it failed
        a.o(Op::Sltu, 11, 0, 11, 0);
        a.o(Op::Slli, 12, 12, 0, 1);
        a.o(Op::Add, 12, 12, 11, 0);
        a.o(Op::Lw, 10, 9, 0, 0);
        a.o(Op::Add, 12, 12, 10, 0);
        if r.chance(1, 3) || k + 1 == pairs {
            a.o(Op::Addi, 5, 12, 0, 0);
            print_x5(&mut a);
        }
    }
    let status = r.u64() | 1;
    exit_with(&mut a, tohost, status);
    let code = a.finish();
    assert!(code.len() < 0x8000);
    let mut e = Elf::simple(rv64, base, code).htif(tohost, tohost + 8);
    e.segs.push(crate::elf::Seg::load(tohost + 0x200, [vec![0; 64], genprog::text()].concat()));
    e.segs.push(crate::elf::Seg::load(data, vec![1; 64]));
    let mut m = Machine::boot(&e, boot_rom(&e));
    m.any_failure = true;
    let end = m.run(400_000);
    if !matches!(end, End::Exit(_)) {
        cx.st.inconclusive(&format!("reservation program: {end:?}"));
    }
    cx.st.case(Some(mix(cx.rng.clone().u64(), 4)));
    cx.st.add("ticks in whole runs", m.n / crate::machine::INTERLEAVE);
    cx.st.add("LR/SC pairs in whole runs", pairs);
    cx.st.add("pairs in whole runs with a tick inside, about", ticks);
    cx.st.add("requests between LR and SC", m.requests);
    compare(cx, &e, &mut m, &end, false, "program with reservations")
}

/// C20: a dialogue. Each answer is typed once the prompt stands on the screen, and not before.
pub fn dialogue(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let tohost = base + 0x2_0000;
    let mut a = Asm::new(base, rv64);
    a.li(20, genprog::UART);
    let header = b"\nIn file prog.elf\nelfcheck: OK\n\n".len() as u64;
    let mut want: Vec<u8> = vec![];
    let mut answers = vec![];
    let rounds = r.range(1, 6);
    for k in 0..rounds {
        for _ in 0..r.range(1, 30) {
            let b = if r.chance(1, 8) { r.u64() as u8 } else { r.pick(b"name> login: ?\t") };
            a.o(Op::Addi, 5, 0, 0, b as i64);
            a.o(Op::Sb, 0, 20, 5, 0);
            want.push(b);
        }
        let mut said: Vec<u8> = (0..r.range(1, 12)).map(|_| r.u64() as u8).collect();
        if r.chance(1, 4) {
            // a key that means something to a terminal, pressed alone
            said = vec![r.pick(&[1, 3, 4, 8, 13, 17, 19, 26, 27, 28, 0x7f, 0, 10, 0xff])];
            if r.bool() {
                said = vec![r.below(32) as u8];
            }
        }
        answers.push((header + want.len() as u64, said.clone()));
        let key = r.u64() as u8;
        a.li(21, said.len() as u64);
        a.label(&format!("poll{k}"));
        a.o(Op::Lbu, 5, 20, 0, 5);
        a.o(Op::Andi, 5, 5, 0, 1);
        a.to(Op::Beq, 0, 5, 0, &format!("poll{k}"));
        a.o(Op::Lbu, 6, 20, 0, 0);
        a.o(Op::Xori, 6, 6, 0, key as i64);
        a.o(Op::Sb, 0, 20, 6, 0);
        a.o(Op::Addi, 21, 21, 0, -1);
        a.to(Op::Bne, 0, 21, 0, &format!("poll{k}"));
        want.extend(said.iter().map(|b| b ^ key));
    }
    let status = r.u64() | 1;
    exit_with(&mut a, tohost, status);
    let e = Elf::simple(rv64, base, a.finish()).htif(tohost, tohost + 8);
    let d = proc::dir("dialogue");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::carron(&d, &["prog.elf"], || Input::Answers(answers.clone()));
    proc::remove(&d);
    let what = format!("{rounds} prompts, answered at {:?} bytes of output", answers.iter().map(|a| a.0 - header).collect::<Vec<_>>());
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped", format!("{what}: {c}"));
    }
    let Some(out) = run.guest_out() else {
        cx.st.inconclusive("no greeting from the emulator");
        return Ok(());
    };
    let at = first_diff(out, &want);
    if at < out.len().max(want.len()) {
        return violation(
            "a dialogue over the UART",
            format!("{what}: from byte {at}: got {} want {}, {}", hex(&out[at.min(out.len())..]), hex(&want[at.min(want.len())..]), run.ending()),
        );
    }
    if run.code != Some(status as u8 as i32) {
        return violation("wrong ending", format!("{what}: {}", run.ending()));
    }
    cx.st.case(Some(mix(cx.rng.clone().u64(), 4)));
    cx.st.add("prompts answered", rounds);
    Ok(())
}

/// C18: the clock over millions of instructions, whose number the program's text gives.
pub fn long_clock(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let tohost = base + 0x8000;
    let mut a = Asm::new(base, rv64);
    let at = |a: &Asm| (a.here() - base) / 4;
    // in the boot ROM, found out by a run on the reference machine below
    let reads = r.range(1, 5);
    let most = if cx.thorough { 40_000_000 } else { 9_000_000 };
    let total = r.range(1_000_000, most);
    let mut extra = 0;
    let mut index = vec![];
    let mut regs = 11;
    for k in 0..reads {
        let n = r.range(1, total / reads / 2 + 2);
        a.li(10, n);
        a.label(&format!("w{k}"));
        a.o(Op::Addi, 10, 10, 0, -1);
        a.to(Op::Bne, 0, 10, 0, &format!("w{k}"));
        extra += 2 * (n - 1);
        index.push(at(&a) + extra);
        a.o(Op::Csrrs, regs, 0, 0, csr::TIME as i64);
        regs += 1;
    }
    for k in 0..reads {
        a.o(Op::Addi, 5, 11 + k as usize, 0, 0);
        print_x5(&mut a);
    }
    let status = r.u64() | 1;
    exit_with(&mut a, tohost, status);
    let e = Elf::simple(rv64, base, a.finish()).htif(tohost, tohost + 8);
    let mut m = Machine::boot(&e, boot_rom(&e));
    let rom = (1..100).find(|_| m.step().is_some() || m.m.pc == base);
    let Some(rom) = rom else {
        cx.st.inconclusive("the boot ROM does not lead to the program");
        return Ok(());
    };
    let d = proc::dir("clock");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::carron(&d, &["prog.elf"], || Input::Null);
    proc::remove(&d);
    if run.timed_out {
        cx.st.inconclusive("deadline");
        return Ok(());
    }
    let want: Vec<u8> = index.iter().map(|i| 50 * ((i + rom) / 5000)).flat_map(|v| (0..if rv64 { 16 } else { 8 }).map(move |k| (v >> (4 * k) & 15) as u8 | 0x80)).collect();
    let out = run.guest_out().unwrap_or(&[]);
    if out != want {
        return violation("the clock after millions of instructions", format!("rv{}: read at instructions {index:?}: {} instead of {}; {}", if rv64 { 64 } else { 32 }, hex(out), hex(&want), run.ending()));
    }
    cx.st.case(Some(mix(total, 5)));
    cx.st.add("clock reads over whole runs", reads);
    cx.st.add("instructions of long runs", index.last().unwrap() + rom);
    Ok(())
}

/// Accesses to the other registers of the UART, which take nothing from what is received.
fn aside(a: &mut Asm, r: &mut crate::rng::Rng) {
    for _ in 0..r.range(1, 3) {
        match r.below(6) {
            0 | 1 => {
                a.o(Op::Lbu, 18, 20, 0, 3);
                a.o(Op::Ori, 18, 18, 0, 0x80);
                a.o(Op::Sb, 0, 20, 18, 3);
                for _ in 0..r.range(1, 3) {
                    match r.below(3) {
                        0 => a.o(Op::Lbu, 19, 20, 0, r.below(2) as i64),
                        1 => a.o(Op::Lb, 19, 20, 0, 0),
                        _ => a.o(Op::Sb, 0, 20, 18, r.below(2) as i64),
                    }
                }
                a.o(Op::Andi, 18, 18, 0, 0x7f);
                a.o(Op::Sb, 0, 20, 18, 3);
            }
            2 => a.o(Op::Lbu, 19, 20, 0, r.pick(&[2, 4, 5, 6, 7])),
            3 => a.o(Op::Sb, 0, 20, 18, 7),
            4 => {
                a.o(Op::Lbu, 19, 20, 0, 1);
                a.o(Op::Sb, 0, 20, 19, 1); // as it was
            }
            _ => a.o(Op::Sb, 0, 20, 18, r.pick(&[5, 6])), // read-only
        }
    }
}

/// C20: bytes from standard input through the UART to standard output.
pub fn uart_bytes(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let tohost = base + 0x2_0000;
    let n = match r.below(20) {
        0 => r.range(3000, 40_000),
        1..=3 => r.range(400, 3000),
        _ => r.range(1, 200),
    } as usize;
    let style = r.below(4);
    let bytes: Vec<u8> = (0..n)
        .map(|k| match style {
            0 => r.u64() as u8,
            1 => r.pick(b"abc\n\r\0\x7f\x80\xff"),
            2 => k as u8,
            _ => (b' ' + r.below(90) as u8).max(if r.chance(1, 20) { b'\n' } else { 0 }),
        })
        .collect();
    let irq = r.chance(1, 3);
    let asides = r.chance(1, 3);
    let late = if r.chance(1, 4) { r.range(10_000, 400_000) } else { 0 };
    let greet: Vec<u8> = (0..r.below(40)).map(|_| r.u64() as u8).collect();
    let mut a = Asm::new(base, rv64);
    a.li(20, genprog::UART);
    a.li(21, n as u64);
    a.li(22, 0x0c00_0000);
    a.li(23, 0x0c20_0000);
    a.li(24, 0x0c00_2000);
    if r.bool() {
        a.o(Op::Addi, 5, 0, 0, 7); // FIFOs on and empty
        a.o(Op::Sb, 0, 20, 5, 2);
    }
    for b in &greet {
        a.o(Op::Addi, 5, 0, 0, *b as i64);
        a.o(Op::Sb, 0, 20, 5, 0);
    }
    if late > 0 {
        // what has arrived waits
        a.li(10, late);
        a.label("late");
        a.o(Op::Addi, 10, 10, 0, -1);
        a.to(Op::Bne, 0, 10, 0, "late");
    }
    if irq {
        // source 1 enabled for context 0, machine external interrupts on
        a.la(5, a.base + 0x1_0000);
        a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
        a.o(Op::Addi, 5, 0, 0, 1);
        a.o(Op::Sw, 0, 22, 5, 4);
        a.o(Op::Addi, 5, 0, 0, 2);
        a.o(Op::Sw, 0, 24, 5, 0);
        a.o(Op::Addi, 5, 0, 0, 1);
        a.o(Op::Sb, 0, 20, 5, 1);
        a.li(5, 0x800);
        a.o(Op::Csrrw, 0, 5, 0, csr::MIE as i64);
        a.o(Op::Csrrsi, 0, 8, 0, csr::MSTATUS as i64);
        a.label("idle");
        if r.bool() {
            a.o(Op::Wfi, 0, 0, 0, 0);
        }
        a.to(Op::Bne, 0, 21, 0, "idle");
        a.o(Op::Csrrci, 0, 8, 0, csr::MSTATUS as i64);
    } else {
        a.label("poll");
        a.o(if r.bool() { Op::Lb } else { Op::Lbu }, 5, 20, 0, 5);
        a.o(Op::Andi, 5, 5, 0, 1);
        a.to(Op::Beq, 0, 5, 0, "poll");
        if asides {
            aside(&mut a, r);
        }
        a.o(if r.bool() { Op::Lb } else { Op::Lbu }, 6, 20, 0, 0);
        a.o(Op::Sb, 0, 20, 6, 0);
        a.o(Op::Addi, 21, 21, 0, -1);
        a.to(Op::Bne, 0, 21, 0, "poll");
    }
    // nothing more may arrive: the status after a while goes into the exit status
    a.li(10, 60_000);
    a.label("after");
    a.o(Op::Addi, 10, 10, 0, -1);
    a.to(Op::Bne, 0, 10, 0, "after");
    a.o(Op::Lbu, 5, 20, 0, 5);
    a.o(Op::Andi, 5, 5, 0, 1);
    a.o(Op::Slli, 5, 5, 0, 1);
    a.o(Op::Addi, 6, 5, 0, 0x41);
    a.li(5, tohost);
    a.o(Op::Sw, 0, 5, 6, 0);
    a.label("end");
    a.to(Op::Jal, 0, 0, 0, "end");
    if irq {
        while a.code.len() < 0x1_0000 {
            a.w(0);
        }
        a.o(Op::Lw, 7, 23, 0, 4); // claim
        a.o(Op::Addi, 8, 0, 0, 1);
        a.to(Op::Bne, 0, 7, 8, "wrong");
        a.label("more");
        a.o(Op::Lbu, 5, 20, 0, 5);
        a.o(Op::Andi, 5, 5, 0, 1);
        a.to(Op::Beq, 0, 5, 0, "drained");
        if asides {
            aside(&mut a, r);
        }
        a.o(Op::Lbu, 6, 20, 0, 0);
        a.o(Op::Sb, 0, 20, 6, 0);
        a.o(Op::Addi, 21, 21, 0, -1);
        if r.bool() {
            a.jmp("more");
        } else {
            // one byte per interrupt
            a.jmp("drained");
        }
        a.label("drained");
        a.o(Op::Sw, 0, 23, 7, 4); // complete
        a.o(Op::Mret, 0, 0, 0, 0);
        a.label("wrong");
        a.li(6, 0x51);
        a.li(5, tohost);
        a.o(Op::Sw, 0, 5, 6, 0);
        a.jmp("wrong");
    }
    let e = Elf::simple(rv64, base, a.finish()).htif(tohost, tohost + 8);
    // how the bytes arrive
    let mut chunks = vec![];
    let slow = r.chance(1, 3);
    let mut k = 0;
    while k < bytes.len() {
        let m = if slow { r.range(1, 1 + bytes.len() as u64 / 3) as usize } else { bytes.len() };
        let m = m.min(bytes.len() - k);
        chunks.push((if slow { r.below(30) } else { 0 }, bytes[k..k + m].to_vec()));
        k += m;
    }
    let close = r.bool();
    let leaked: &'static [u8] = Vec::leak(bytes.clone());
    let input = || if close { Input::All(leaked) } else { Input::Chunks(chunks.clone()) };
    let d = proc::dir("uart");
    proc::put(&d, "prog.elf", &e.bytes());
    let run = proc::carron(&d, &["prog.elf"], input);
    proc::remove(&d);
    let what = format!(
        "{} guest{}{}, {n} bytes {}, {}",
        if irq { "interrupt-driven" } else { "polling" },
        if asides { " that uses the other registers too" } else { "" },
        if late > 0 { " that starts late" } else { "" },
        if slow { "in pieces" } else { "at once" },
        if close { "then end of input" } else { "input kept open" }
    );
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped", format!("{what}: {c}"));
    }
    let Some(out) = run.guest_out() else {
        cx.st.inconclusive("no greeting from the emulator");
        return Ok(());
    };
    let mut want = greet.clone();
    want.extend(&bytes);
    let at = first_diff(out, &want);
    if at < out.len() {
        return violation(
            "bytes through the UART differ",
            format!("{what}: from byte {at}: got {} want {}", hex(&out[at.min(out.len())..]), hex(&want[at.min(want.len())..])),
        );
    }
    if at < want.len() {
        return violation(
            "bytes through the UART are lost",
            format!("{what}: {} of {} bytes arrived, {}", out.len(), want.len(), run.ending()),
        );
    }
    match run.code {
        Some(0x41) => (),
        Some(0x43) => return violation("data ready without data", what),
        Some(0x51) => return violation("an external interrupt whose claim is not source 1", what),
        _ if run.timed_out => cx.st.inconclusive("deadline after all bytes arrived"),
        _ => return violation("wrong ending", format!("{what}: {}", run.ending())),
    }
    cx.st.case(Some(mix(cx.rng.clone().u64(), 3)));
    cx.st.add("bytes echoed", bytes.len() as u64);
    cx.st.add("bytes transmitted", want.len() as u64);
    if asides {
        cx.st.count("echo runs with accesses to the other registers");
    }
    if late > 0 && !slow {
        cx.st.add("bytes waiting for a guest that starts late", bytes.len() as u64);
    }
    cx.st.count(if irq { "interrupt-driven echo runs" } else { "polling echo runs" });
    cx.st.sample(|| what);
    Ok(())
}
