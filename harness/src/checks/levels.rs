//! C26: the same run again, at other log levels, in other surroundings.

use crate::asm::*;
use crate::dec::Op;
use crate::elf::Elf;
use crate::genprog::{self, UART};
use crate::model::csr;
use crate::proc::{self, Disturb, Input, Run};
use crate::report::*;
use crate::rng::{mix, Rng};

use super::e2e::{crashed, hex, pcs_of, split};
use super::ends::{Prog, Symbols};

struct Seen {
    what: String,
    guest: Vec<u8>,
    err: Vec<u8>,
    code: Option<i32>,
    ending: String,
    /// executed addresses, from the levels that log them
    pcs: Option<Vec<u64>>,
    files: Vec<(String, Vec<u8>)>,
}

fn disturb(r: &mut Rng) -> Disturb {
    let mut d = Disturb::default();
    for _ in 0..r.below(4) {
        let k = r.pick(&["TZ", "LANG", "LC_ALL", "HOME", "PATH", "TERM", "RUST_LOG", "SEED", "TMPDIR", "COLUMNS"]);
        let v = r.pick(&["", "C", "UTC+5", "de_DE.UTF-8", "trace", "1", "/nonexistent", "dumb"]);
        d.env.push((k.into(), v.into()));
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            d.pauses.push((r.below(12), r.range(1, 25)));
        }
    }
    d
}

fn first_diff<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

struct Job<'a> {
    image: &'a [u8],
    extra: Vec<&'a str>,
    input: Option<&'static [u8]>,
}

fn input(j: &Job, pieces: &[u64]) -> Input<'static> {
    match j.input {
        None => Input::Null,
        Some(b) if pieces.is_empty() => Input::All(b),
        Some(b) => {
            let mut v = vec![];
            let mut k = 0;
            for p in pieces {
                let n = (*p as usize).min(b.len() - k);
                v.push((p % 7, b[k..k + n].to_vec()));
                k += n;
            }
            v.push((0, b[k..].to_vec()));
            Input::Chunks(v)
        }
    }
}

enum Got {
    Run(Seen),
    Late,
    Crash(String),
}

fn once(cx: &mut Ctx, j: &Job, level: &str, ahead: Option<u64>) -> Got {
    let how = disturb(&mut cx.rng);
    let pieces: Vec<u64> = (0..cx.rng.below(4)).map(|_| cx.rng.below(20)).collect();
    let one = |cx: &mut Ctx, t| {
        let d = proc::dir("level");
        proc::put(&d, "prog.elf", j.image);
        let ahead_text = ahead.unwrap_or(0).to_string();
        let mut args: Vec<&str> = vec![];
        let bin = match ahead {
            Some(_) => {
                args.extend([level, &ahead_text]);
                proc::difflog().unwrap()
            }
            None => {
                if !level.is_empty() {
                    args.extend(["--loglv", level]);
                }
                proc::bin()
            }
        };
        args.push("prog.elf");
        args.extend(&j.extra);
        let run: Run = proc::run_disturbed(bin, &d, &args, input(j, &pieces), t, &how);
        let mut files = vec![];
        for f in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let n = f.file_name().to_string_lossy().to_string();
            if n != "prog.elf" {
                files.push((n, std::fs::read(f.path()).unwrap_or_default()));
            }
        }
        files.sort();
        proc::remove(&d);
        cx.st.count("runs of the emulator");
        (run, files)
    };
    let (mut run, mut files) = one(cx, proc::FIRST);
    if run.timed_out {
        (run, files) = one(cx, proc::SECOND);
    }
    if run.timed_out {
        return Got::Late;
    }
    if let Some(c) = crashed(&run) {
        return Got::Crash(c);
    }
    let body = run.guest_out().unwrap_or(&run.out);
    let (guest, log) = split(body);
    let pcs = matches!(level, "info" | "debug" | "trace").then(|| pcs_of(&log));
    if level.is_empty() || level == "nolog" {
        cx.st.add("bytes of runs without a log", body.len() as u64);
    }
    if !log.is_empty() {
        cx.st.count("runs that logged something");
    }
    Got::Run(Seen {
        what: format!("level {level:?} (counter ahead {ahead:?}), {how:?}"),
        // without a log there is nothing but the guest's output
        guest: if level.is_empty() || level == "nolog" { body.to_vec() } else { guest },
        err: run.err.clone(),
        code: run.code,
        ending: run.ending(),
        pcs,
        files,
    })
}

/// All the runs of one job, each against the first.
fn compare(cx: &mut Ctx, j: &Job, trace: bool, what: &str) -> Result<(), Violation> {
    let mut plan: Vec<(&str, Option<u64>)> = vec![(cx.rng.pick(&["nolog", ""]), None), ("info", None)];
    if cx.rng.bool() {
        plan.push((cx.rng.pick(&["nolog", "", "diff"]), None));
    }
    if cx.rng.bool() {
        plan.push(("info", None));
    }
    if proc::difflog().is_some() && j.input.is_none() && j.extra.is_empty() {
        // from the first instruction on, or somewhere in the middle
        if cx.rng.bool() {
            let n = if cx.rng.bool() { 1 } else { cx.rng.below(3000) };
            plan.push(("diff", Some(n)));
            cx.st.count("runs at level diff beyond its silent beginning");
        }
    }
    let mut seen: Vec<Seen> = vec![];
    let mut k = 0;
    while k < plan.len() {
        let (level, ahead) = plan[k];
        k += 1;
        match once(cx, j, level, ahead) {
            Got::Run(s) => {
                if k == 2 && s.pcs.as_ref().is_some_and(|p| p.len() < 4000) {
                    // short enough for the wordy levels
                    let l = cx.rng.pick(&["debug", "trace", "trace"]);
                    plan.push((l, None));
                    cx.st.count("runs at level debug or trace");
                }
                seen.push(s);
            }
            Got::Late => {
                cx.st.inconclusive("a run did not end in time");
                if k == 1 {
                    return Ok(());
                }
            }
            Got::Crash(c) => {
                if k == 1 {
                    cx.st.inconclusive("the emulator stopped (subject of another property)");
                    return Ok(());
                }
                return violation(
                    "the emulator stops at one log level and not at another",
                    format!("{what}: {} {}; {level:?} {ahead:?}: {c}", seen[0].what, seen[0].ending),
                );
            }
        }
    }
    let a = &seen[0];
    if let Some(i) = a.guest.iter().position(|b| *b < 0x80) {
        return violation("log text without a log level", format!("{what}: {}: {:?}", a.what, String::from_utf8_lossy(&a.guest[i..(i + 200).min(a.guest.len())])));
    }
    for b in &seen[1..] {
        let both = format!("{what}\n first: {}\n other: {}", a.what, b.what);
        if a.guest != b.guest {
            let i = first_diff(&a.guest, &b.guest);
            return violation("guest output differs between runs", format!("{both}\nfrom byte {i}: {} / {}", hex(&a.guest[i..]), hex(&b.guest[i..])));
        }
        if a.code != b.code {
            return violation("exit status differs between runs", format!("{both}\n{} / {}", a.ending, b.ending));
        }
        if a.err != b.err {
            let i = first_diff(&a.err, &b.err);
            return violation("standard error differs between runs", format!("{both}\nfrom byte {i}: {} / {}", hex(&a.err[i..]), hex(&b.err[i..])));
        }
        if a.files != b.files {
            let names = |v: &[(String, Vec<u8>)]| v.iter().map(|(n, d)| format!("{n}: {}", hex(d))).collect::<Vec<_>>().join("; ");
            return violation("files differ between runs", format!("{both}\n{} / {}", names(&a.files), names(&b.files)));
        }
        cx.st.count("pairs of runs compared");
    }
    if trace {
        let mut t = seen.iter().filter_map(|s| s.pcs.as_ref().map(|p| (&s.what, p)));
        if let Some((w, p)) = t.next() {
            if p.is_empty() {
                cx.st.inconclusive("no pc lines in the log");
            }
            for (w2, q) in t {
                if p != q {
                    let n = first_diff(p, q);
                    let at = |v: &[u64]| v[n.saturating_sub(3)..(n + 3).min(v.len())].iter().map(|p| format!("{p:x}")).collect::<Vec<_>>().join(" ");
                    return violation(
                        "executed addresses differ between runs",
                        format!("{what}\n first: {w}: {} instructions\n other: {w2}: {} instructions\nfrom {n} on: {} / {}", p.len(), q.len(), at(p), at(q)),
                    );
                }
                cx.st.add("instruction addresses compared", p.len() as u64);
            }
        }
    }
    cx.st.add("guest bytes compared", a.guest.len() as u64);
    Ok(())
}

/// Generated programs with traps, interrupts, translation.
fn programs(cx: &mut Ctx) -> Result<(), Violation> {
    let mut p = genprog::plan(&mut cx.rng);
    if cx.rng.chance(1, 2) {
        p.loops = cx.rng.range(1, 3);
        p.blocks = cx.rng.range(5, 20);
    }
    let e = genprog::generate(&mut cx.rng, &p);
    let image = e.bytes();
    let extra = if cx.rng.chance(1, 3) { vec!["one", "two"] } else { vec![] };
    let j = Job { image: &image, extra, input: None };
    cx.st.case(Some(mix(cx.rng.clone().u64(), 1)));
    compare(cx, &j, true, &format!("{p:x?}"))
}

/// x9 = 31 * x9 + x5; changes x6
fn digest(a: &mut Asm) {
    a.o(Op::Slli, 6, 9, 0, 5);
    a.o(Op::Sub, 9, 6, 9, 0);
    a.o(Op::Add, 9, 9, 5, 0);
}

fn print_low(a: &mut Asm, x: usize) {
    a.li(6, UART);
    for k in 0..2 {
        a.o(Op::Srli, 7, x, 0, 4 * k);
        a.o(Op::Ori, 7, 7, 0, 0x80);
        a.o(Op::Sb, 0, 6, 7, 0);
    }
}

/// Accesses with effects: the devices, atomics, traps, host calls.
fn effects(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let mut p = Prog::new(r);
    p.start(r);
    p.a.o(Op::Addi, 28, 0, 0, 0x80 + r.below(0x80) as i64);
    p.a.o(Op::Addi, 9, 0, 0, 1);
    let data = p.alloc(256, 8);
    let fill: Vec<u8> = (0..256).map(|_| r.u64() as u8).collect();
    p.fill(data, &fill);
    let name = "made";
    let nat = p.alloc(8, 8);
    p.fill(nat, name.as_bytes());
    let mut fds = 0;
    let mut dlab = false;
    if r.chance(1, 8) {
        // the boot ROM: reset code and device tree
        p.a.li(8, 0x1000);
        p.a.li(7, 0x1000 + r.range(0x20, 0x800));
        let l = p.uniq();
        p.a.label(&l);
        p.a.o(Op::Lw, 5, 8, 0, 0);
        digest(&mut p.a);
        p.a.o(Op::Addi, 8, 8, 0, 4);
        p.a.to(Op::Bltu, 0, 8, 7, &l);
        p.story.push("boot ROM".into());
    }
    let steps = r.range(5, 60);
    for _ in 0..steps {
        let k = r.below(20);
        match k {
            0..=4 => {
                // the UART's registers
                p.a.li(8, UART);
                let o = r.pick(&[0, 1, 2, 2, 2, 3, 4, 5, 5, 6, 7]);
                if r.chance(2, 3) {
                    p.a.o(r.pick(&[Op::Lb, Op::Lbu]), 5, 8, 0, o);
                    digest(&mut p.a);
                } else {
                    let v = match o {
                        0 => 0x80 + r.below(0x80),
                        1 => r.below(16),
                        3 => {
                            dlab = r.chance(1, 8);
                            if dlab { 0x83 } else { 3 }
                        }
                        // not the loop back
                        4 => r.below(16),
                        _ => r.below(256),
                    };
                    p.a.o(Op::Addi, 7, 0, 0, v as i64);
                    p.a.o(Op::Sb, 0, 8, 7, o);
                }
                p.story.push(format!("uart {o}"));
            }
            5..=7 => {
                let at = r.pick(&[0x0c20_0004u64, 0x0c20_0004, 0x0c20_1004, 0x0c20_0000, 0x0c20_1000, 0x0c00_0004, 0x0c00_0000, 0x0c00_1000, 0x0c00_2000, 0x0c00_2080]);
                p.a.li(8, at);
                if r.bool() {
                    p.a.o(Op::Lw, 5, 8, 0, 0);
                    digest(&mut p.a);
                } else {
                    let v = r.pick(&[0u64, 1, 2, 3, 7]);
                    p.a.li(7, v);
                    p.a.o(Op::Sw, 0, 8, 7, 0);
                }
                p.story.push(format!("plic {at:x}"));
            }
            8 | 9 => {
                let at = r.pick(&[0x0200_bff8u64, 0x0200_bffc, 0x0200_4000, 0x0200_4004, 0x0200_0000]);
                p.a.li(8, at);
                if r.chance(2, 3) {
                    p.a.o(Op::Lw, 5, 8, 0, 0);
                    digest(&mut p.a);
                } else {
                    let v = if at == 0x0200_0000 { r.below(2) } else { r.below(1000) };
                    p.a.li(7, v);
                    p.a.o(Op::Sw, 0, 8, 7, 0);
                }
                p.story.push(format!("clint {at:x}"));
            }
            10..=12 => {
                let o = r.below(30) * 8;
                p.a.li(8, data + o);
                p.a.li(7, r.edgy(if p.rv64 { 64 } else { 32 }));
                let wide = p.rv64 && r.bool();
                match r.below(4) {
                    0 => p.a.o(if wide { r.pick(&AMOS64) } else { r.pick(&AMOS32) }, 5, 8, 7, 0),
                    1 => {
                        p.a.o(if wide { Op::LrD } else { Op::LrW }, 5, 8, 0, 0);
                        p.a.o(if wide { Op::ScD } else { Op::ScW }, 5, 8, 7, 0);
                    }
                    2 => p.a.o(if wide { Op::Sd } else { r.pick(&STORES) }, 0, 8, 7, 0),
                    _ => p.a.o(if wide { Op::Ld } else { r.pick(&LOADS) }, 5, 8, 0, 0),
                }
                digest(&mut p.a);
                p.story.push("memory".into());
            }
            13 => {
                // what every mode may have
                let n = match p.mode {
                    3 => r.pick(&[csr::MSCRATCH, csr::MIP, csr::MIE, csr::MEPC, csr::MCAUSE, csr::MTVAL, csr::MSTATUS, csr::SIP, csr::SSCRATCH]),
                    1 => r.pick(&[csr::SSCRATCH, csr::SEPC, csr::STVAL, csr::SCAUSE, csr::SIP, csr::SIE, csr::SSTATUS]),
                    _ => csr::SSCRATCH,
                };
                if p.mode > 0 || p.traps {
                    p.a.o(Op::Csrrs, 5, 0, 0, n as i64);
                    digest(&mut p.a);
                }
                p.story.push(format!("csr {n:x}"));
            }
            14 | 15 if p.traps => {
                match r.below(6) {
                    0 => p.a.o(Op::Ecall, 0, 0, 0, 0),
                    1 => p.a.w(0xffff_ffff),
                    2 => {
                        p.a.li(8, 0x3000_0000);
                        p.a.o(r.pick(&[Op::Lw, Op::Lbu]), 5, 8, 0, 0);
                    }
                    3 => {
                        p.a.li(8, data + 1);
                        p.a.o(r.pick(&[Op::AmoaddW, Op::LrW]), 5, 8, 0, 0);
                    }
                    4 => {
                        p.a.li(8, 0x0c00_0001);
                        p.a.o(Op::Sb, 0, 8, 8, 0);
                    }
                    _ => p.a.o(Op::Csrrw, 0, 5, 0, csr::MHARTID as i64),
                }
                p.story.push("trap".into());
            }
            14 | 15 => {
                // bytes sent to itself
                p.a.li(8, UART);
                let mode = 0x10 | r.below(16) as i64;
                p.a.o(Op::Addi, 7, 0, 0, mode);
                p.a.o(Op::Sb, 0, 8, 7, 4);
                let n = r.range(1, 20);
                for _ in 0..n {
                    p.a.o(Op::Addi, 7, 0, 0, r.below(256) as i64);
                    p.a.o(Op::Sb, 0, 8, 7, 0);
                }
                if r.bool() {
                    p.wait(r.range(1, 6000));
                }
                let m = if r.chance(1, 3) { n + 2 } else { r.below(n + 1) };
                for _ in 0..m {
                    if r.chance(1, 3) {
                        p.a.o(Op::Lbu, 5, 8, 0, r.pick(&[1, 2, 2, 5, 5]));
                        digest(&mut p.a);
                    }
                    p.a.o(Op::Lbu, 5, 8, 0, 0);
                    digest(&mut p.a);
                }
                p.a.o(Op::Addi, 7, 0, 0, mode & 15);
                p.a.o(Op::Sb, 0, 8, 7, 4);
                p.story.push(format!("loop back {n} read {m}"));
            }
            16 | 17 => {
                // host calls; what they return goes into the digest
                let fd = if fds > 0 && r.chance(2, 3) { 3 + r.below(fds) } else { r.pick(&[1, 2]) };
                let n = r.below(60);
                let o = r.below(100);
                let call = r.below(9);
                let w: Vec<u64> = match call {
                    0 => {
                        fds += 1;
                        vec![56, -100i64 as u64, nat, 5, (libc::O_RDWR | libc::O_CREAT) as u64, 0o644]
                    }
                    1 | 2 => {
                        let at = p.alloc(n, 1);
                        let d: Vec<u8> = (0..n).map(|_| 0x80 | r.u64() as u8).collect();
                        p.fill(at, &d);
                        vec![if fd > 2 && r.bool() { 68 } else { 64 }, fd, at, n, o]
                    }
                    3 if fd > 2 => vec![63, fd, data, n.min(200)],
                    4 if fd > 2 => vec![67, fd, data, n.min(200), o],
                    5 if fd > 2 => vec![62, fd, o, 0],
                    6 => {
                        let at = p.alloc(128, 8);
                        vec![80, if fd > 2 { fd } else { 99 }, at]
                    }
                    7 => {
                        let at = p.alloc(200, 8);
                        vec![2011, at, 200]
                    }
                    _ => vec![57, 77],
                };
                let block = p.request(r, w[0], &w[1..]);
                p.a.li(8, block);
                p.a.o(Op::Lw, 5, 8, 0, 0);
                digest(&mut p.a);
                if w[0] == 2011 {
                    for o in [0, 8, 16, 24, 32, 40, 48] {
                        p.a.li(8, w[1] + o);
                        p.a.o(Op::Lw, 5, 8, 0, 0);
                        digest(&mut p.a);
                    }
                }
                p.story.push(format!("call {}", w[0]));
            }
            18 => {
                let n = if r.chance(1, 4) { r.range(1, 12_000) } else { r.range(1, 200) };
                p.wait(n);
                p.story.push(format!("wait {n}"));
            }
            _ => print_low(&mut p.a, r.pick(&[5, 9])),
        }
        if r.chance(1, 4) {
            print_low(&mut p.a, 5);
        }
    }
    if dlab {
        p.a.li(8, UART);
        p.a.o(Op::Addi, 7, 0, 0, 3);
        p.a.o(Op::Sb, 0, 8, 7, 3);
    }
    p.a.o(Op::Addi, 5, 9, 0, 0);
    genprog::print_x5(&mut p.a);
    let status = p.end(r);
    let key = p.story.iter().fold(0, |h, s| mix(h, s.bytes().fold(0, |h, b| mix(h, b as u64))));
    let (e, _, story): (Elf, _, _) = p.image(r, Symbols::Both);
    let image = e.bytes();
    let extra = if r.chance(1, 3) { vec!["arg"] } else { vec![] };
    let j = Job { image: &image, extra, input: None };
    cx.st.case(Some(key));
    cx.st.sample(|| format!("{story}, status {status}"));
    compare(cx, &j, true, &story)
}

/// The same bytes on standard input, at another pace.
fn echoes(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let tohost = base + 0x2000;
    let n = r.range(1, 60) as usize;
    let bytes: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    let mut a = Asm::new(base, rv64);
    a.li(20, UART);
    a.li(21, n as u64);
    a.label("poll");
    a.o(Op::Lbu, 5, 20, 0, 5);
    a.o(Op::Andi, 5, 5, 0, 1);
    a.to(Op::Beq, 0, 5, 0, "poll");
    a.o(Op::Lbu, 5, 20, 0, 0);
    digest(&mut a);
    a.o(Op::Ori, 6, 5, 0, 0x80);
    a.o(Op::Sb, 0, 20, 6, 0);
    a.o(Op::Addi, 21, 21, 0, -1);
    a.to(Op::Bne, 0, 21, 0, "poll");
    a.o(Op::Addi, 5, 9, 0, 0);
    genprog::print_x5(&mut a);
    let status = r.u64() | 1;
    genprog::exit_with(&mut a, tohost, status);
    let image = Elf::simple(rv64, base, a.finish()).htif(tohost, tohost + 8).bytes();
    let leaked: &'static [u8] = Vec::leak(bytes);
    let j = Job { image: &image, extra: vec![], input: Some(leaked) };
    cx.st.case(Some(mix(cx.rng.clone().u64(), 3)));
    cx.st.add("bytes of input", n as u64);
    compare(cx, &j, false, &format!("echo of {}", hex(leaked)))
}

fn echo_image(rv64: bool, n: u64, patience: u64) -> Vec<u8> {
    let base = 0x8000_0000u64;
    let tohost = base + 0x2000;
    let mut a = Asm::new(base, rv64);
    a.li(20, UART);
    a.li(21, n);
    a.label("next");
    a.li(22, patience);
    a.label("poll");
    a.o(Op::Addi, 22, 22, 0, -1);
    a.to(Op::Beq, 0, 22, 0, "none");
    a.o(Op::Lbu, 5, 20, 0, 5);
    a.o(Op::Andi, 5, 5, 0, 1);
    a.to(Op::Beq, 0, 5, 0, "poll");
    a.o(Op::Lbu, 5, 20, 0, 0);
    a.o(Op::Ori, 6, 5, 0, 0x80);
    a.o(Op::Sb, 0, 20, 6, 0);
    a.o(Op::Addi, 21, 21, 0, -1);
    a.to(Op::Bne, 0, 21, 0, "next");
    genprog::exit_with(&mut a, tohost, 0x51);
    a.label("none");
    genprog::exit_with(&mut a, tohost, 0x53);
    Elf::simple(rv64, base, a.finish()).htif(tohost, tohost + 8).bytes()
}

/// Input at the wordy levels: all of it reaches the guest, in order.
fn wordy(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let n = cx.rng.range(1, 60);
    let bytes: Vec<u8> = (0..n).map(|_| cx.rng.u64() as u8).collect();
    let want: Vec<u8> = bytes.iter().map(|b| b | 0x80).collect();
    let leaked: &'static [u8] = Vec::leak(bytes);
    let level = cx.rng.pick(&["info", "debug", "trace", "trace"]);
    cx.st.case(Some(mix(cx.rng.clone().u64(), 4)));
    let mut last = String::new();
    // the guest gives up when nothing arrives; the reader of the input needs a moment
    for patience in if level == "info" { [30_000u64, 100_000, 300_000] } else { [4_000, 12_000, 36_000] } {
        let image = echo_image(rv64, n, patience);
        let j = Job { image: &image, extra: vec![], input: Some(leaked) };
        match once(cx, &j, level, None) {
            Got::Run(s) => {
                if s.code == Some(0x51 >> 1) || s.code == Some(0x51) {
                    if s.guest != want {
                        return violation("guest reads other input at another log level", format!("level {level}: input {}, echoed {}", hex(leaked), hex(&s.guest)));
                    }
                    cx.st.count("inputs echoed at a wordy level");
                    cx.st.add("bytes of input", n);
                    return Ok(());
                }
                last = format!("{}; echoed {} of {n} bytes: {}", s.ending, s.guest.len(), hex(&s.guest));
                cx.st.count("guest gave up waiting for input");
            }
            Got::Late => {
                cx.st.inconclusive("a run did not end in time");
                return Ok(());
            }
            Got::Crash(c) => {
                cx.st.inconclusive("the emulator stopped (subject of another property)");
                let _ = c;
                return Ok(());
            }
        }
    }
    violation("input does not reach the guest at another log level", format!("level {level}: input {}, {last}", hex(leaked)))
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        gens: vec![
            Gen { name: "generated programs", weight: 3, run: programs },
            Gen { name: "devices, atomics, traps, host calls", weight: 5, run: effects },
            Gen { name: "input at different paces", weight: 1, run: echoes },
            Gen { name: "input at the wordy levels", weight: 1, run: wordy },
        ],
        quick: 800,
        thorough: 12_000,
        rule: "a program run several times in the emulator binary, at different log levels, with different environments and pauses; guest output, standard error, files, exit status and executed addresses of each run compared with those of the first",
        assumptions: &[
            "guest bytes are told from log text by their top bit",
            "the level that logs only after 350 million instructions is reached by setting its counter forward in a program of the harness",
        ],
        must: &["pairs of runs compared", "runs that logged something", "runs at level debug or trace", "instruction addresses compared", "inputs echoed at a wordy level"],
    }
}
