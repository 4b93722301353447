//! C34: several emulators in one process, built with ThreadSanitizer.
#![allow(dead_code)]

mod asm;
mod bigmem;
mod dec;
mod elf;
mod emu;
mod genprog;
mod model;
mod rng;
mod report {
    pub fn scratch() -> std::path::PathBuf {
        std::env::current_dir().unwrap()
    }
}

use carron::bus::Device;
use emu::{guarded, Emu, StepRes};
use rng::{mix, Rng};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::Barrier;

struct Out(std::fs::File);
impl Out {
    fn line(&mut self, s: &str) {
        let _ = writeln!(self.0, "{}", s.replace('\n', "\\n"));
    }
}

fn report_fd() -> Out {
    unsafe {
        let h = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 200);
        assert!(h >= 0);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
        Out(std::fs::File::from_raw_fd(h))
    }
}

struct Program {
    image: Vec<u8>,
    rv64: bool,
    base: u64,
    tohost: u64,
    most: u64,
    story: String,
}

/// Half of the time like another one, in other words with the same addresses.
fn program(r: &mut Rng, like: &mut Option<genprog::Plan>) -> Program {
    let mut p = genprog::plan(r);
    while !p.translate && r.bool() {
        p = genprog::plan(r);
    }
    match like {
        Some(q) => p = genprog::Plan { rv64: q.rv64, base: q.base, mode: q.mode, translate: q.translate, delegate: q.delegate, ..p },
        None if r.bool() => *like = Some(p.clone()),
        None => (),
    }
    p.loops = p.loops.min(40);
    let e = genprog::generate(r, &p);
    let tohost = e.syms.iter().find(|s| s.0 == "tohost").unwrap().1;
    Program { image: e.bytes(), rv64: p.rv64, base: p.base, tohost, most: r.range(500, 9000), story: format!("{p:?}") }
}

#[derive(PartialEq, Debug, Clone)]
struct State {
    steps: u64,
    ending: String,
    pc: u64,
    level: u64,
    regs: Vec<u64>,
    csrs: Vec<u64>,
    memory: u64,
    clock: u64,
    answers: Vec<i64>,
}

/// A machine and how far it has come.
struct Going {
    m: Emu,
    tohost: u64,
    most: u64,
    steps: u64,
    ending: String,
    /// files opened and closed between the instructions, and what that returned
    files: Rng,
    answers: Vec<i64>,
}

impl Going {
    fn new(p: &Program) -> Going {
        let m = Emu::with_args(&p.image, p.rv64, p.base, |a| a.main_args = vec!["prog".into(), "argument".into()]);
        Going { m, tohost: p.tohost, most: p.most, steps: 0, ending: String::new(), files: Rng::new(p.most), answers: vec![] }
    }

    /// A request, made as if by the guest, far away from the program.
    fn request(&mut self) -> Result<i64, String> {
        let r = &mut self.files;
        let at = self.m.base + 0x7000_0000;
        let block = match r.below(6) {
            0..=2 => [56, -100i64 as u64, at + 0x100, r.below(2) * 2 + 6, 0, 0],
            3 | 4 => [57, r.range(3, 9), 0, 0, 0, 0],
            _ => [63, r.range(3, 9), at + 0x200, r.below(40), 0, 0],
        };
        self.m.write_bytes(at + 0x100, b"input\0\0\0");
        for k in 0..8 {
            self.m.w64(at + 8 * k, block.get(k as usize).copied().unwrap_or(0));
        }
        let kept = [self.m.r64(self.tohost), self.m.r64(self.tohost + 8)];
        self.m.w64(self.tohost, at);
        let e = &mut self.m.e;
        guarded(|| e.handle_syscall())?;
        self.m.w64(self.tohost, kept[0]);
        self.m.w64(self.tohost + 8, kept[1]);
        Ok(self.m.r64(at) as i64)
    }

    /// The main loop, for at most n instructions.
    fn go(&mut self, n: u64) {
        for _ in 0..n {
            if !self.ending.is_empty() {
                return;
            }
            if self.steps >= self.most {
                self.ending = "enough".into();
                return;
            }
            self.steps += 1;
            if let StepRes::Panic(s) = self.m.step() {
                self.ending = format!("panic: {s}");
                return;
            }
            let (e, at) = (&mut self.m.e, self.tohost);
            let asked = guarded(|| {
                if e.check_tohost() {
                    if e.cpu.bus.dram.load8(at).unwrap() & 1 == 1 {
                        return true;
                    }
                    e.handle_syscall();
                }
                false
            });
            match asked {
                Ok(true) => self.ending = "exit".into(),
                Ok(false) => (),
                Err(s) => self.ending = format!("panic: {s}"),
            }
            if self.steps % 101 == 0 {
                match self.request() {
                    Ok(v) => self.answers.push(v),
                    Err(s) => self.ending = format!("panic: {s}"),
                }
            }
            if self.steps % 500 == 0 {
                let cpu = &mut self.m.e.cpu;
                cpu.reservation_set = None;
                cpu.timer_increment(50);
                let bus = &mut cpu.bus;
                bus.uart.tick(&mut bus.plic);
            }
        }
    }

    fn over(&self) -> bool {
        !self.ending.is_empty()
    }

    fn state(mut self) -> State {
        let base = self.m.base;
        // its descriptors
        let at = base + 0x7000_0000;
        for k in 3..200 {
            for (i, v) in [57, k, 0, 0, 0, 0, 0, 0].into_iter().enumerate() {
                self.m.w64(at + 8 * i as u64, v);
            }
            self.m.w64(self.tohost, at);
            let e = &mut self.m.e;
            if guarded(|| e.handle_syscall()).is_err() || self.m.r64(at) != 0 && k > 100 {
                break;
            }
        }
        let clock = self.m.e.cpu.bus.load64(0x0200_bff8).unwrap_or(1);
        State {
            steps: self.steps,
            pc: self.m.e.cpu.pc(),
            level: self.m.e.cpu.verif_priv(),
            regs: (0..32).map(|k| self.m.x(k)).collect(),
            csrs: model::STATE_CSRS.iter().map(|n| self.m.csr(*n)).collect(),
            memory: (0..0x1_0000).map(|k| self.m.r64(base + 8 * k)).fold(0, mix),
            clock,
            ending: self.ending,
            answers: self.answers,
        }
    }
}

fn alone(p: &Program) -> State {
    let mut g = Going::new(p);
    while !g.over() {
        g.go(1000);
    }
    g.state()
}

/// Each in a thread of its own.
fn threads(ps: &[Program]) -> Vec<State> {
    let start = Barrier::new(ps.len());
    std::thread::scope(|s| {
        let hs: Vec<_> = ps
            .iter()
            .map(|p| {
                let start = &start;
                s.spawn(move || {
                    let mut g = Going::new(p);
                    start.wait();
                    while !g.over() {
                        g.go(200);
                    }
                    g.state()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// In turns, in one thread.
fn turns(ps: &[Program], r: &mut Rng) -> Vec<State> {
    let mut gs: Vec<Going> = ps.iter().map(Going::new).collect();
    let most = r.pick(&[1, 3, 30, 1000]);
    while gs.iter().any(|g| !g.over()) {
        let k = r.below(gs.len() as u64) as usize;
        gs[k].go(r.range(1, most));
    }
    gs.into_iter().map(|g| g.state()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[2].parse().unwrap();
    let count: u64 = args[3].parse().unwrap();
    let mut out = report_fd();
    emu::init_log();
    emu::install_panic_hook();
    std::fs::write("input", vec![b'x'; 100]).unwrap();
    for k in 0..count {
        let mut r = Rng::new(mix(seed, k));
        let n = r.range(2, 4);
        let mut like = None;
        let ps: Vec<Program> = (0..n).map(|_| program(&mut r, &mut like)).collect();
        let in_turns = r.chance(1, 3);
        let got = if in_turns { turns(&ps, &mut r) } else { threads(&ps) };
        for (p, g) in ps.iter().zip(got) {
            let want = alone(p);
            out.line(&format!("case {:x}", mix(want.memory, want.steps)));
            out.line("count programs run among others and alone");
            out.line(if in_turns { "count emulators taking turns" } else { "count emulators in threads" });
            out.line(&format!("add instructions of programs among others {}", g.steps));
            if g != want {
                out.line(&format!("viol a program runs differently among other emulators\t{} of {n} {}\n{}\nalone {want:x?}\namong others {g:x?}", k, if in_turns { "in turns" } else { "in threads" }, p.story));
                out.line("done");
                unsafe { libc::_exit(0) }
            }
        }
    }
    out.line("done");
    let _ = out.0.flush();
    // the sanitizer reports at once: nothing is lost
    unsafe { libc::_exit(0) }
}
