//! C32: the execution log against the reference machine.

use crate::asm::*;
use crate::dec::{Inst, Op};
use crate::elf::{Elf, Seg};
use crate::genprog::{self, exit_with};
use crate::machine::{End, Machine};
use crate::model::csr;
use crate::proc::{self, Input};
use crate::report::*;
use crate::rng::mix;

use super::e2e::{boot_rom, crashed, split};

const NAMES: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6",
];

fn cause_name(c: u64, interrupt: bool) -> &'static str {
    match (interrupt, c) {
        (false, 0) => "InstAddrMisaligned",
        (false, 1) => "InstAccessFault",
        (false, 2) => "IllegalInst",
        (false, 3) => "Breakpoint",
        (false, 4) => "LoadAddrMisaligned",
        (false, 5) => "LoadAccessFault",
        (false, 6) => "StoreAMOAddrMisaligned",
        (false, 7) => "StoreAMOAccessFault",
        (false, 8) => "UmodeEcall",
        (false, 9) => "SmodeEcall",
        (false, 11) => "MmodeEcall",
        (false, 12) => "InstPageFault",
        (false, 13) => "LoadPageFault",
        (false, 15) => "StoreAMOPageFault",
        (true, 1) => "SupervisorSoftwareInterrupt",
        (true, 3) => "MachineSoftwareInterrupt",
        (true, 5) => "SupervisorTimerInterrupt",
        (true, 7) => "MachineTimerInterrupt",
        (true, 9) => "SupervisorExternalInterrupt",
        (true, 11) => "MachineExternalInterrupt",
        _ => "?",
    }
}

#[derive(PartialEq, Clone)]
enum Event {
    Pc(u64, usize),
    Exception(String),
    Delegated,
    NewPc(u64),
    /// name and registers (rd, rs1, rs2) of an instruction, or the names it may go by
    Inst(String, [Option<u64>; 3]),
    Regs(Box<[u64; 32]>),
    /// register names are missing, doubled or unknown
    Odd(String),
    Request(u64),
}

impl std::fmt::Debug for Event {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Event::Pc(p, n) => write!(f, "pc: {p:#x} in {n} digits"),
            Event::Exception(n) => write!(f, "exception: {n}"),
            Event::Delegated => write!(f, "delegated"),
            Event::NewPc(p) => write!(f, "new pc: {p:#x}"),
            Event::Inst(n, [d, s, t]) => write!(f, "instruction {n} rd {d:?} rs1 {s:?} rs2 {t:?}"),
            Event::Regs(r) => write!(f, "registers {:x?}", &r[..]),
            Event::Odd(s) => write!(f, "{s}"),
            Event::Request(n) => write!(f, "request {n}"),
        }
    }
}

/// "OP_AMOADD_W" and AmoaddW become "amoaddw".
fn plain(n: &str) -> String {
    n.trim_start_matches("OP_").chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}

/// What the log says, in order.
fn read(log: &str) -> Vec<Event> {
    let mut out = vec![];
    let mut dump: Option<(Box<[u64; 32]>, [u8; 32], String)> = None;
    let mut inst: Option<(String, [Option<u64>; 3])> = None;
    let mut field = "";
    for l in log.lines() {
        if let Some((_, n, odd)) = &mut dump {
            if l.starts_with("====") {
                if n.iter().any(|k| *k != 1) {
                    odd.push_str(" not every register once");
                }
                let (r, _, odd) = dump.take().unwrap();
                out.push(if odd.is_empty() { Event::Regs(r) } else { Event::Odd(odd) });
                continue;
            }
            let (r, n, odd) = dump.as_mut().unwrap();
            for e in l.split('\t').map(|e| e.trim()).filter(|e| !e.is_empty()) {
                let v = e.split_once(": 0x").and_then(|(k, v)| Some((NAMES.iter().position(|n| *n == k)?, u64::from_str_radix(v, 16).ok()?)));
                match v {
                    Some((k, v)) => {
                        r[k] = v;
                        n[k] += 1;
                    }
                    None => odd.push_str(&format!(" entry {e:?}")),
                }
            }
            continue;
        }
        if let Some(i) = &mut inst {
            if l == "}" {
                let (n, regs) = inst.take().unwrap();
                out.push(Event::Inst(n, regs));
                continue;
            }
            let t = l.trim();
            if let Some(v) = t.strip_prefix("opc: ") {
                i.0 = plain(v.trim_end_matches(','));
            }
            for f in ["rd", "rs1", "rs2", "imm"] {
                if t.starts_with(&format!("{f}: ")) {
                    field = f;
                }
            }
            if let Ok(v) = t.trim_end_matches(',').parse::<u64>() {
                match field {
                    "rd" => i.1[0] = Some(v),
                    "rs1" => i.1[1] = Some(v),
                    "rs2" => i.1[2] = Some(v),
                    _ => (),
                }
            }
            continue;
        }
        if let Some(v) = l.strip_prefix("pc: 0x") {
            out.push(u64::from_str_radix(v, 16).map_or_else(|_| Event::Odd(l.into()), |p| Event::Pc(p, v.len())));
        } else if let Some(v) = l.strip_prefix("new pc: 0x") {
            out.push(u64::from_str_radix(v, 16).map_or_else(|_| Event::Odd(l.into()), Event::NewPc));
        } else if let Some(v) = l.strip_prefix("[exception: ") {
            out.push(Event::Exception(v.split(']').next().unwrap_or("").into()));
        } else if l == "delegated" {
            out.push(Event::Delegated);
        } else if l.starts_with("====") && l.contains(" dump ") {
            dump = Some((Box::new([0; 32]), [0; 32], String::new()));
        } else if l == "Instruction {" {
            inst = Some((String::new(), [None; 3]));
            field = "";
        } else if let Some(v) = l.strip_prefix("sys_") {
            let n = v.split_once('(').and_then(|(_, n)| n.trim_end_matches(')').parse().ok());
            out.push(n.map_or_else(|| Event::Odd(l.into()), Event::Request));
        }
    }
    out
}

fn said(i: &Inst, rv64: bool) -> Event {
    let regs = [Some(i.rd as u64), Some(i.rs1 as u64), Some(i.rs2 as u64)];
    if i.len == 2 {
        return Event::Inst(super::inspect::name16(i.raw as u16, rv64).iter().map(|n| plain(n)).collect::<Vec<_>>().join("|"), regs);
    }
    let n = plain(&format!("{:?}", i.op));
    let n = if n == "fencei" { "fence".into() } else { n };
    Event::Inst(n, regs)
}

fn agree(got: &Event, want: &Event) -> bool {
    match (got, want) {
        // instructions without this register say nothing about it
        (Event::Inst(n, g), Event::Inst(m, w)) => {
            let csr = m.starts_with("csr");
            // a compressed instruction names its register field under either name
            let c = m.starts_with("c") && !csr;
            m.split('|').any(|m| m == n)
                && (g[0].is_none() || g[0] == w[0] || c && g[0] == w[1])
                && (csr || g[1].is_none() || g[1] == w[1] || c && g[1] == w[0])
                && (csr || g[2].is_none() || g[2] == w[2])
        }
        _ => got == want,
    }
}

/// Adds what the last step is to have logged.
fn expect(m: &Machine, debug: bool, out: &mut Vec<Event>) {
    if let Some(p) = m.last.fetched {
        out.push(Event::Pc(p, if m.m.rv64 { 16 } else { 8 }));
        if let (true, Some(i)) = (debug, &m.last.inst) {
            out.push(said(i, m.m.rv64));
        }
    }
    if let Some((c, int, to_s, pc)) = m.last.trap {
        out.push(Event::Exception(cause_name(c, int).into()));
        if to_s {
            out.push(Event::Delegated);
        }
        out.push(Event::NewPc(pc));
    }
    if debug {
        out.push(Event::Regs(Box::new(m.m.regs)));
    }
    if let Some(n) = m.last.request {
        out.push(Event::Request(n));
    }
}

/// Looks for the first difference; `complete` if nothing may be missing at the end.
fn judge(cx: &mut Ctx, got: &[Event], want: &[Event], complete: bool, tell: &str) -> Result<(), Violation> {
    let n = got.iter().zip(want).take_while(|(a, b)| agree(a, b)).count();
    for e in &want[..n] {
        cx.st.count(match e {
            Event::Pc(..) => "instruction addresses compared",
            Event::Exception(_) => "exceptions and interrupts compared",
            Event::Delegated => "traps said to be delegated",
            Event::NewPc(_) => "trap targets compared",
            Event::Inst(..) => "instructions compared",
            Event::Regs(_) => "register dumps compared",
            Event::Odd(_) => "?",
            Event::Request(_) => "requests compared",
        });
    }
    if n >= want.len() && (!complete || n >= got.len()) || n >= got.len() && !complete {
        return Ok(());
    }
    let near = |v: &[Event]| {
        let b = n.saturating_sub(3).min(v.len());
        let s: String = format!("{:?}", &v[b..(n + 2).min(v.len())]).chars().take(2500).collect();
        s
    };
    let what = match (got.get(n), want.get(n)) {
        (Some(Event::Regs(a)), Some(Event::Regs(b))) => {
            let k = (0..32).find(|k| a[*k] != b[*k]).unwrap();
            format!("{} is {:#x} in the log and {:#x} in the machine", NAMES[k], a[k], b[k])
        }
        (a, b) => format!("log: {}; machine: {}", a.map_or("its end".into(), |e| brief(e)), b.map_or("its end".into(), |e| brief(e))),
    };
    violation("the log does not say what happened", format!("{tell}\nevent {n}: {what}\nlog {}\nmachine {}", near(got), near(want)))
}

fn brief(e: &Event) -> String {
    match e {
        Event::Regs(_) => "a register dump".into(),
        e => format!("{e:?}"),
    }
}

/// Runs the image at this level; None if it cannot be judged.
fn log_of(cx: &mut Ctx, e: &Elf, level: &str, enough: usize, complete: bool, tell: &str) -> Result<Option<Vec<Event>>, Violation> {
    let d = proc::dir("log");
    proc::put(&d, "prog.elf", &e.bytes());
    let l = format!("--loglv={level}");
    let args = if cx.rng.bool() { vec![l.as_str(), "prog.elf"] } else { vec!["prog.elf", "--loglv", level] };
    let r = if complete {
        proc::carron(&d, &args, || Input::Null)
    } else {
        proc::run_bin(proc::bin(), &d, &args, Input::Null, proc::FIRST, |o| o.len() > enough)
    };
    proc::remove(&d);
    if let Some(c) = crashed(&r) {
        return violation("the emulator stopped", format!("{tell}\n{c}"));
    }
    if complete && (r.timed_out || r.code.is_none()) {
        cx.st.inconclusive("a logged run did not end in time");
        return Ok(None);
    }
    let Some(body) = r.guest_out() else {
        cx.st.inconclusive("no greeting from the emulator");
        return Ok(None);
    };
    let (_, mut log) = split(body);
    if !complete {
        let n = log.rfind('\n').map_or(0, |n| n + 1);
        log.truncate(n);
    }
    let mut ev = read(&log);
    if !complete {
        ev.pop();
    }
    Ok(Some(ev))
}

/// Generated programs.
fn programs(cx: &mut Ctx) -> Result<(), Violation> {
    let level = cx.rng.pick(&["info", "info", "debug", "debug", "trace"]);
    let debug = level != "info";
    let mut p = genprog::plan(&mut cx.rng);
    if debug {
        p.loops = cx.rng.range(1, 3);
    }
    let e = genprog::generate(&mut cx.rng, &p);
    let mut m = Machine::boot(&e, boot_rom(&e));
    let most = if debug { 20_000 } else { 60_000 };
    let mut want = vec![];
    let mut end = End::Steps;
    while m.n < most {
        let before = m.n;
        let x = m.step();
        if m.n > before {
            expect(&m, debug, &mut want);
        }
        if let Some(x) = x {
            end = x;
            break;
        }
    }
    let complete = matches!(end, End::Exit(_));
    let tell = format!("--loglv {level}, {p:x?}: {} instructions, {} traps, {end:?}", m.n, m.traps);
    cx.st.case(Some(mix(cx.rng.clone().u64(), 3)));
    cx.st.name(format!("programs at {level}"));
    cx.st.sample(|| tell.clone());
    if complete {
        cx.st.count("programs logged from start to end");
    }
    let enough = if debug { m.n * 1500 } else { m.n * 60 } as usize + 0x10000;
    match log_of(cx, &e, level, enough, complete, &tell)? {
        None => Ok(()),
        Some(got) => judge(cx, &got, &want, complete, &tell),
    }
}

/// Programs that ask the host for something.
fn requests(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let (blk, htif, buf) = (base + 0x1_0000, base + 0x2_0000, base + 0x2_1000);
    let st = if rv64 { Op::Sd } else { Op::Sw };
    let ld = if rv64 { Op::Ld } else { Op::Lw };
    let mut a = Asm::new(base, rv64);
    a.li(8, htif);
    a.li(9, blk);
    let n = r.range(1, 40);
    let mut data = vec![];
    let mut want = vec![];
    let mut calls = vec![];
    let ends = r.chance(1, 2);
    for k in 0..n {
        let bad = r.pick(&[99u64, 3, 1 << 20]);
        let call: [u64; 7] = match r.below(11) {
            0 => [56, (-100i64) as u64, buf, 5, 0, 0, 0],
            1 => [57, bad, 0, 0, 0, 0, 0],
            2 => [62, bad, 0, 1, 0, 0, 0],
            3 => [63, bad, buf + 64, 8, 0, 0, 0],
            4 => [64, bad, buf, 4, 0, 0, 0],
            5 => [67, bad, buf + 64, 8, 0, 0, 0],
            6 => [68, bad, buf, 4, 0, 0, 0],
            7 => [79, (-100i64) as u64, buf, 5, buf + 64, 0, 0],
            8 => [80, bad, buf + 64, 0, 0, 0, 0],
            9 => [2011, buf + 64, 8, 0, 0, 0, 0],
            _ => [2011, buf + 64, 4096, 0, 0, 0, 0],
        };
        let call = if ends && k == n - 1 { [93, r.below(256), 0, 0, 0, 0, 0] } else { call };
        data.extend(call.iter().chain(&[0]).flat_map(|x| x.to_le_bytes()));
        want.push(Event::Request(call[0]));
        calls.push(call[0]);
        a.o(st, 0, 8, 9, 0);
        let l = format!("w{k}");
        a.label(&l);
        a.o(ld, 6, 8, 0, 64);
        a.to(Op::Beq, 0, 6, 0, &l);
        a.o(st, 0, 8, 0, 64);
        a.o(Op::Addi, 9, 9, 0, 64);
    }
    exit_with(&mut a, htif, 1);
    let mut e = Elf::simple(rv64, base, a.finish());
    e.segs.push(Seg::load(blk, data));
    e.segs.push(Seg::load(buf, b"nope\0".to_vec()));
    let e = e.htif(htif, htif + 64);
    let level = r.pick(&["info", "info", "debug", "trace"]);
    let tell = format!("--loglv {level}, rv64 {rv64}, requests {calls:?}");
    cx.st.case(Some(calls.iter().fold(rv64 as u64, |h, c| mix(h, *c))));
    match log_of(cx, &e, level, 0, true, &tell)? {
        None => Ok(()),
        Some(got) => {
            let got: Vec<Event> = got.into_iter().filter(|e| matches!(e, Event::Request(_) | Event::Odd(_))).collect();
            judge(cx, &got, &want, true, &tell)
        }
    }
}

/// Straight code that sends every kind of trap to M or S mode.
fn traps(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let base = 0x8000_0000u64;
    let th = base + 0x1_0000;
    let (ld, st) = if rv64 { (Op::Ld, Op::Sd) } else { (Op::Lw, Op::Sw) };
    let mut a = Asm::new(base, rv64);
    let mode = r.pick(&[3u64, 1, 1, 0, 0]);
    let vectored = r.bool() as u64;
    a.jmp("start");
    // both handlers: on behind the instruction (all have 4 bytes), or where x9 says after a fetch
    let handler = |a: &mut Asm, name: &str, cause, epc, ret, timer: bool| {
        a.align(128);
        a.label(name);
        for k in 0..12 {
            // interrupts when vectored
            let l = if k == 7 || k == 1 || k == 5 || k == 3 || k == 9 || k == 11 { format!("{name}int") } else { format!("{name}exc") };
            a.to(Op::Jal, 0, 0, 0, &l);
        }
        a.label(&format!("{name}exc"));
        a.o(Op::Csrrs, 5, 0, 0, cause as i64);
        a.to(Op::Blt, 0, 5, 0, &format!("{name}int"));
        a.o(Op::Csrrs, 6, 0, 0, epc as i64);
        a.o(Op::Addi, 6, 6, 0, 4);
        for c in [1, 12] {
            a.o(Op::Addi, 7, 0, 0, c);
            a.to(Op::Beq, 0, 5, 7, &format!("{name}fetch"));
        }
        a.jmp(&format!("{name}out"));
        a.label(&format!("{name}fetch"));
        a.o(Op::Addi, 6, 9, 0, 0);
        a.label(&format!("{name}out"));
        a.o(Op::Csrrw, 0, 6, 0, epc as i64);
        a.o(ret, 0, 0, 0, 0);
        a.label(&format!("{name}int"));
        // whatever it was, not again
        a.o(Op::Csrrw, 0, 0, 0, if timer { csr::MIE } else { csr::SIE } as i64);
        a.o(ret, 0, 0, 0, 0);
    };
    handler(&mut a, "mh", csr::MCAUSE, csr::MEPC, Op::Mret, true);
    handler(&mut a, "sh", csr::SCAUSE, csr::SEPC, Op::Sret, false);
    a.label("start");
    genprog::open_pmp(&mut a);
    a.la(5, a.addr("mh"));
    a.o(Op::Addi, 5, 5, 0, vectored as i64);
    a.o(Op::Csrrw, 0, 5, 0, csr::MTVEC as i64);
    a.la(5, a.addr("sh"));
    a.o(Op::Addi, 5, 5, 0, vectored as i64);
    a.o(Op::Csrrw, 0, 5, 0, csr::STVEC as i64);
    let deleg = r.u64() & if r.bool() { 0xffff } else { r.u64() };
    a.li(5, deleg & 0xb3ff);
    a.o(Op::Csrrw, 0, 5, 0, csr::MEDELEG as i64);
    a.li(5, r.u64() & 0x222);
    a.o(Op::Csrrw, 0, 5, 0, csr::MIDELEG as i64);
    a.li(5, r.pick(&[0u64, 2, 0x20, 0x22, 0x222]));
    a.o(Op::Csrrw, 0, 5, 0, csr::MIP as i64);
    if r.bool() {
        // software interrupt for M
        a.li(6, 0x0200_0000);
        a.li(7, 1);
        a.o(Op::Sw, 0, 6, 7, 0);
    }
    if r.bool() {
        a.li(6, 0x0200_4000);
        a.o(Op::Sw, 0, 6, 0, 0);
        a.o(Op::Sw, 0, 6, 0, 4);
    } else {
        a.li(6, 0x0200_4000);
        a.o(Op::Addi, 7, 0, 0, -1);
        a.o(Op::Sw, 0, 6, 7, 0);
        a.o(Op::Sw, 0, 6, 7, 4);
    }
    a.li(5, r.pick(&[0u64, 0x2aa, 0x222, 0x88, 0x8, 0x80, 0x20, 0x2, 0x200]));
    a.o(Op::Csrrw, 0, 5, 0, csr::MIE as i64);
    a.li(5, mode << 11 | r.u64() & 0xa0);
    a.o(Op::Csrrw, 0, 5, 0, csr::MSTATUS as i64);
    a.to(Op::Jal, 5, 0, 0, "here");
    a.label("here");
    a.o(Op::Addi, 5, 5, 0, 12);
    a.o(Op::Csrrw, 0, 5, 0, csr::MEPC as i64);
    a.o(Op::Mret, 0, 0, 0, 0);
    a.li(10, base + 0x8000);
    for k in 0..r.range(3, 25) {
        match r.below(10) {
            0 => a.o(Op::Ecall, 0, 0, 0, 0),
            1 => a.o(Op::Ebreak, 0, 0, 0, 0),
            2 => a.w(0xffff_ffff),
            3 => a.o(Op::Lw, 11, 10, 0, 2),
            4 => a.o(Op::Sw, 0, 10, 11, 2),
            5 => {
                a.li(12, 0x3000_0000);
                a.o(Op::Lw, 11, 12, 0, 0)
            }
            6 => {
                a.li(12, 0x3000_0000);
                a.o(Op::Sw, 0, 12, 11, 0)
            }
            7 => {
                let l = format!("b{k}");
                a.li(12, 0x3000_0000);
                a.to(Op::Jal, 9, 0, 0, &l);
                a.label(&l);
                a.o(Op::Addi, 9, 9, 0, 8);
                a.o(Op::Jalr, 0, 12, 0, 0);
            }
            8 => a.o(Op::Mret, 0, 0, 0, 0),
            _ => a.o(ld, 13, 10, 0, 64),
        }
        a.o(st, 0, 10, 13, 64);
        if mode == 3 {
            // an mret from M goes where the last trap came from
            a.o(Op::Addi, 13, 13, 0, 1);
        }
    }
    exit_with(&mut a, th, 1);
    let e = Elf::simple(rv64, base, a.finish()).htif(th, th + 8);
    let mut m = Machine::boot(&e, boot_rom(&e));
    let level = cx.rng.pick(&["info", "info", "debug"]);
    let debug = level == "debug";
    let mut want = vec![];
    let mut end = End::Steps;
    while m.n < 3000 {
        let before = m.n;
        let x = m.step();
        if m.n > before {
            expect(&m, debug, &mut want);
        }
        if let Some((c, int, to_s, _)) = m.last.trap {
            cx.st.name(format!("{} taken in {} mode", cause_name(c, int), if to_s { "S" } else { "M" }));
        }
        if let Some(x) = x {
            end = x;
            break;
        }
    }
    let complete = matches!(end, End::Exit(_));
    let tell = format!("--loglv {level}, rv64 {rv64}, mode {mode}, medeleg {deleg:#x}: {} instructions, {} traps, {end:?}", m.n, m.traps);
    cx.st.case(Some(mix(m.n, mix(m.traps, deleg))));
    if end == End::Steps {
        cx.st.count("programs cut");
    }
    let enough = if debug { m.n * 1500 } else { m.n * 80 } as usize + 0x4000;
    match log_of(cx, &e, level, enough, complete, &tell)? {
        None => Ok(()),
        Some(got) => judge(cx, &got, &want, complete, &tell),
    }
}

pub fn c32() -> Check {
    Check {
        id: "C32",
        gens: vec![
            Gen { name: "generated programs", weight: 3, run: programs },
            Gen { name: "every kind of trap", weight: 3, run: traps },
            Gen { name: "programs that ask the host for something", weight: 1, run: requests },
        ],
        quick: 4000,
        thorough: 60_000,
        rule: "one run of the binary at a log level whose log was taken apart and compared event by event with the reference machine; programs are generated, so nearly all are distinct",
        assumptions: &[
            "only the recurring parts of the log are read: addresses, exception names, where traps go, decoded instructions, register dumps and the numbers of requests; messages in words are not",
            "the guest prints only bytes above 0x7f, so that its output can be told from the log",
            "of compressed instructions only that they are compressed is compared",
        ],
        must: &["instruction addresses compared", "exceptions and interrupts compared", "traps said to be delegated", "trap targets compared", "instructions compared", "register dumps compared", "requests compared", "programs logged from start to end"],
    }
}
