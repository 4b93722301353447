//! The emulator under test, driven in-process one instruction at a time.

use carron::bus::Device;
use carron::cmdline::{Arguments, ExeOption};
use carron::elfload::ElfLoader;
use carron::log::{LogLv, LOG_LEVEL};
use carron::Emulator;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Emu {
    pub e: Emulator,
    pub rv64: bool,
    pub base: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum StepRes {
    Retired,
    Trapped,
    Panic(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Silences panics of the emulator and remembers where they happened.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".into(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let ours = loc.starts_with("src/") && !std::env::var("MONITOR_PANIC").is_err();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if ours || !GUARDED.with(|g| g.get()) {
            old(info);
        }
    }));
}

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs f; a panic inside becomes Err(message at location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn init_log() {
    LOG_LEVEL.get_or_init(|| LogLv::NoLog);
}

pub fn arguments(file: &str) -> Arguments {
    Arguments {
        filename: file.to_string(),
        exe_option: ExeOption::OPT_DEFAULT,
        pk_path: None,
        kernel_path: None,
        initrd_path: None,
        init_pc: None,
        main_args: vec![file.to_string()],
    }
}

static COUNTER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn temp_path(tag: &str) -> std::path::PathBuf {
    let n = COUNTER.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    crate::report::scratch().join(format!("{tag}-{n}"))
}

impl Emu {
    pub fn from_elf(bytes: &[u8], rv64: bool, base: u64) -> Emu {
        Emu::with_args(bytes, rv64, base, |_| ())
    }

    pub fn with_args(bytes: &[u8], rv64: bool, base: u64, f: impl FnOnce(&mut Arguments)) -> Emu {
        init_log();
        let path = temp_path("elf");
        std::fs::write(&path, bytes).unwrap();
        let p = path.to_str().unwrap().to_string();
        let loader = ElfLoader::try_new(&p).unwrap();
        let mut args = arguments(&p);
        f(&mut args);
        let e = Emulator::new(loader, args);
        let _ = std::fs::remove_file(&path);
        Emu { e, rv64, base }
    }

    /// A machine with empty DRAM at `base`.
    pub fn blank(rv64: bool, base: u64) -> Emu {
        let elf = crate::elf::Elf::simple(rv64, base, vec![0; 16]);
        Emu::from_elf(&elf.bytes(), rv64, base)
    }

    /// The contents of the boot ROM.
    pub fn rom(&mut self) -> Vec<u8> {
        let bus = &mut self.e.cpu.bus;
        let (base, mut a, mut v) = (self.base, 0x1000, vec![]);
        while a != base && a < 0x2_0000 {
            match bus.load_u8(a) {
                Ok(b) => v.push(b as u8),
                Err(_) => break,
            }
            a += 1;
        }
        v
    }

    /// One iteration of the emulator's main loop (without the front-end server).
    pub fn step(&mut self) -> StepRes {
        let cpu = &mut self.e.cpu;
        let r = guarded(|| match cpu.exec_one_cycle() {
            Ok(()) => StepRes::Retired,
            Err((addr, cause, _)) => {
                let tval = addr.unwrap_or(cpu.pc());
                cpu.trap(tval, cause);
                StepRes::Trapped
            }
        });
        match r {
            Ok(r) => r,
            Err(m) => StepRes::Panic(m),
        }
    }

    pub fn x(&self, r: usize) -> u64 {
        self.e.cpu.regs.read(Some(r))
    }
    pub fn set_x(&mut self, r: usize, v: u64) {
        self.e.cpu.regs.write(Some(r), v);
    }
    pub fn csr(&self, n: u16) -> u64 {
        self.e.cpu.verif_csr_read(n as usize)
    }
    pub fn set_csr(&mut self, n: u16, v: u64) {
        self.e.cpu.verif_csr_write(n as usize, v);
    }
    pub fn r8(&mut self, a: u64) -> u8 {
        self.e.cpu.bus.dram.load_u8(a).unwrap() as u8
    }
    pub fn r64(&mut self, a: u64) -> u64 {
        self.e.cpu.bus.dram.load64(a).unwrap()
    }
    pub fn w64(&mut self, a: u64, v: u64) {
        self.e.cpu.bus.dram.store64(a, v).unwrap();
    }
    pub fn w8(&mut self, a: u64, v: u8) {
        self.e.cpu.bus.dram.store8(a, v as u64).unwrap();
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        for (i, v) in b.iter().enumerate() {
            self.w8(a + i as u64, *v);
        }
    }
}

pub fn dram_host_addr(e: &Emu) -> Option<usize> {
    Some(e.e.cpu.bus.dram.verif_host_addr())
}
