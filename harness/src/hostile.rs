//! C24: hostile requests, programs and images for an emulator built with AddressSanitizer.
//! The host calls the emulator makes go through the functions below, which look at the buffer
//! handed to the kernel before they make the call.
#![allow(dead_code)]
#![feature(alloc_error_hook)]

mod asm;
mod dec;
mod elf;
mod emu;
mod rng;
mod syscalls;
mod report {
    pub fn scratch() -> std::path::PathBuf {
        std::env::current_dir().unwrap()
    }
}
mod lock {
    pub fn present_pages(_: Option<usize>) -> Vec<u64> {
        vec![]
    }
}

use carron::elfload::ElfLoader;
use emu::{guarded, Emu, StepRes};
use rng::{mix, Rng};
use std::ffi::{c_char, c_int, c_long, c_void};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};

extern "C" {
    fn __asan_region_is_poisoned(beg: *const c_void, size: usize) -> *const c_void;
}

static REPORT: AtomicI32 = AtomicI32::new(-1);
static LOOKED: AtomicU64 = AtomicU64::new(0);

fn bad(text: &str) -> ! {
    let fd = REPORT.load(Ordering::Relaxed);
    let s = format!("viol {text}\ndone\n");
    unsafe {
        libc::syscall(libc::SYS_write, if fd < 0 { 2 } else { fd }, s.as_ptr(), s.len());
        libc::_exit(66)
    }
}

/// The kernel may read or write all of [p, p + n).
unsafe fn look(call: &str, p: *const c_void, n: usize) {
    LOOKED.fetch_add(1, Ordering::Relaxed);
    if n == 0 {
        return;
    }
    let q = __asan_region_is_poisoned(p, n);
    if !q.is_null() {
        bad(&format!("the kernel is given a buffer that is too small\t{call} of {n:#x} bytes: byte {:#x} is not the emulator's", q as usize - p as usize));
    }
}
unsafe fn look_name(call: &str, p: *const c_char) {
    LOOKED.fetch_add(1, Ordering::Relaxed);
    for i in 0..1 << 24 {
        if !__asan_region_is_poisoned(p.add(i) as *const c_void, 1).is_null() {
            bad(&format!("the kernel is given a name without an end\t{call}: {i} bytes and no NUL"));
        }
        if *p.add(i) == 0 {
            return;
        }
    }
}
const STAT: usize = std::mem::size_of::<libc::stat>();

macro_rules! host {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty, $nr:ident, $look:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            $look;
            libc::syscall(libc::$nr, $($a),*) as $r
        }
    )*};
}
host! {
    read(fd: c_int, p: *mut c_void, n: usize) -> isize, SYS_read, look("read", p, n);
    write(fd: c_int, p: *const c_void, n: usize) -> isize, SYS_write, look("write", p, n);
    pread(fd: c_int, p: *mut c_void, n: usize, o: c_long) -> isize, SYS_pread64, look("pread", p, n);
    pread64(fd: c_int, p: *mut c_void, n: usize, o: c_long) -> isize, SYS_pread64, look("pread", p, n);
    pwrite(fd: c_int, p: *const c_void, n: usize, o: c_long) -> isize, SYS_pwrite64, look("pwrite", p, n);
    pwrite64(fd: c_int, p: *const c_void, n: usize, o: c_long) -> isize, SYS_pwrite64, look("pwrite", p, n);
    openat(d: c_int, name: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int, SYS_openat, look_name("openat", name);
    openat64(d: c_int, name: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int, SYS_openat, look_name("openat", name);
    fstat(fd: c_int, p: *mut c_void) -> c_int, SYS_fstat, look("fstat", p, STAT);
    fstat64(fd: c_int, p: *mut c_void) -> c_int, SYS_fstat, look("fstat", p, STAT);
    fstatat(d: c_int, name: *const c_char, p: *mut c_void, flags: c_int) -> c_int, SYS_newfstatat, { look_name("fstatat", name); look("fstatat", p, STAT) };
    fstatat64(d: c_int, name: *const c_char, p: *mut c_void, flags: c_int) -> c_int, SYS_newfstatat, { look_name("fstatat", name); look("fstatat", p, STAT) };
}

struct Out(std::fs::File);
impl Out {
    fn line(&mut self, s: &str) {
        let _ = writeln!(self.0, "{}", s.replace('\n', "\\n"));
    }
}

/// The report gets a descriptor of its own; what the guest prints goes nowhere.
fn report_fd() -> Out {
    unsafe {
        let h = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 200);
        assert!(h >= 0);
        REPORT.store(h, Ordering::Relaxed);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
        Out(std::fs::File::from_raw_fd(h))
    }
}

/// Kept outside the report: only of interest if this process ends.
fn doing(s: &str) {
    let s = format!("{s:<400}\n");
    unsafe {
        let fd = match LAST.load(Ordering::Relaxed) {
            -1 => {
                let h = libc::open(c"doing".as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_CLOEXEC, 0o600);
                let k = libc::fcntl(h, libc::F_DUPFD_CLOEXEC, 201);
                libc::close(h);
                LAST.store(k, Ordering::Relaxed);
                k
            }
            fd => fd,
        };
        libc::syscall(libc::SYS_pwrite64, fd, s.as_ptr(), s.len(), 0);
    }
}

static LAST: AtomicI32 = AtomicI32::new(-1);

const DRAM: u64 = 0x8000_0000;

fn files(r: &mut Rng) {
    let _ = std::fs::create_dir("d");
    for (n, len) in [("a", 100_000), ("b", 1), ("c", 4096), ("d/e", 300), ("f", 0)] {
        let v: Vec<u8> = (0..len).map(|_| r.u64() as u8).collect();
        std::fs::write(n, v).unwrap();
    }
}

fn machine(r: &mut Rng, base: u64, tohost: u64, fromhost: u64) -> Emu {
    let rv64 = r.bool();
    let mut elf = elf::Elf::new(rv64, base);
    elf.segs.push(elf::Seg::load(base, vec![0; 16]));
    let elf = elf.htif(tohost, fromhost);
    let args: Vec<String> = (0..r.range(1, 30)).map(|_| "argument".repeat(r.below(20) as usize)).collect();
    Emu::with_args(&elf.bytes(), rv64, base, |a| a.main_args = args)
}

/// Somewhere, and how many bytes from there on are in the same device.
fn address(r: &mut Rng, base: u64) -> (u64, u64) {
    let end = base + DRAM;
    let near = r.pick(&[0, 1, 2, 4, 7, 8, 9, 16, 63, 64, 65, 127, 128, 129, 4096]);
    let a = match r.below(13) {
        0..=2 => base + r.below(0x4_0000),
        3..=5 => end - near,
        6 => end + r.below(3),
        7 => base - r.below(9),
        8 => r.pick(&[0u64, 0x1000, 0x1020, 0x1fff]),
        9 => {
            let (a, n) = r.pick(&[(0x0200_0000u64, 0x1_0000u64), (0x1000_0000, 0x100)]);
            a + n - near.min(n)
        }
        10 => 0x0d00_0000 - near,
        11 => 0u64.wrapping_sub(near),
        _ => r.u64() >> r.below(64),
    };
    let mut room = 0;
    for (at, n) in [(base, DRAM), (0x0c00_0000, 0x100_0000), (0x0200_0000, 0x1_0000), (0x1000, 0x1_0000)] {
        if a >= at && a < at + n {
            room = at + n - a;
        }
    }
    (a, room)
}

/// A length for a transfer from memory: the emulator goes through it byte by byte until it
/// leaves the device, so a long one only where that is soon.
fn length(r: &mut Rng, room: u64) -> u64 {
    let huge = r.pick(&[1u64 << 31, 1 << 32, 1 << 40, 1 << 47, 1 << 62, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 7, 0x7fff_f000, 0x7fff_f001, 0xffff_ffff]);
    match r.below(8) {
        0 => 0,
        1 => r.below(9),
        2 | 3 if room < 0x1_0000 => huge,
        4 => room.min(0x1_0000) + r.below(3),
        5 => room.min(0x1_0000).saturating_sub(r.below(3)),
        6 => r.below(0x1_0000),
        7 if r.chance(1, 20) => {
            let most = if r.chance(1, 100) { 1 << 25 } else { 1 << 20 };
            r.below(most)
        }
        _ => r.below(600),
    }
}

fn requests(seed: u64, count: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    files(&mut r);
    let base = r.pick(&[0x8000_0000u64, 0x8000_0000, 0x4000_0000, 0xc000_0000]);
    let place = |r: &mut Rng| if r.chance(1, 4) { base + DRAM - 8 } else { base + 8 * r.below(0x200) };
    let tohost = place(&mut r);
    let fromhost = place(&mut r);
    let mut e = machine(&mut r, base, tohost, fromhost);
    let fill: Vec<u8> = (0..0x4_0000).map(|_| r.u64() as u8 | 1).collect();
    e.write_bytes(base, &fill);
    e.write_bytes(base + DRAM - 0x2000, &fill[..0x2000]);
    let mut fds: Vec<u64> = vec![0, 1, 2];
    let mut story: Vec<String> = vec![];
    for _ in 0..count {
        let nr = r.pick(&[56u64, 56, 56, 56, 57, 62, 63, 63, 63, 64, 64, 67, 67, 68, 68, 79, 79, 80, 80, 2011, 2011, 0]);
        let nr = if nr == 0 { r.pick(&[0u64, 17, 25, 291, 1039, 5000, 1 << 63]) } else { nr };
        let fd = match r.below(10) {
            0 => r.pick(&[u64::MAX, 1 << 32, (1 << 32) + 3, 1 << 63, 0x7fff_ffff, 0xffff_ffff, 200, 300]),
            1 => r.below(20),
            2 => fds[r.below(fds.len() as u64) as usize],
            _ => fds[fds.len() - 1 - r.below(fds.len().min(5) as u64) as usize],
        };
        let (mut at, room) = address(&mut r, base);
        let mut len = length(&mut r, room);
        let off = r.pick(&[0u64, 0, 1, 99_999, 100_000, u64::MAX, 1 << 63, 1 << 40, 50_000]);
        let mut w = [nr, fd, at, len, off, r.u64(), r.u64(), r.u64()];
        match nr {
            63 | 67 if r.chance(1, 20) => {
                // a read takes what the file has, whatever is announced
                len = r.pick(&[1u64 << 20, 1 << 31, 1 << 40, i64::MAX as u64, u64::MAX, 0x7fff_f000]);
                w[3] = len;
            }
            56 | 79 => {
                let mut name: Vec<u8> = match r.below(12) {
                    0 => b"a".to_vec(),
                    1 => r.pick(&["b", "c", "d", "d/e", "f", "nothing", "", "."]).into(),
                    2 => (0..r.below(40)).map(|_| r.u64() as u8).map(|b| if b == b'/' || b == b'.' { 1 } else { b }).collect(),
                    3 => vec![b'x'; r.pick(&[254usize, 255, 256, 4094, 4095, 4096, 5000])],
                    4 => vec![r.u64() as u8 | 0x81; r.below(300) as usize],
                    _ => r.pick(&["a", "b", "c", "d"]).into(),
                };
                if r.chance(3, 4) {
                    name.push(0);
                }
                if name.iter().all(|b| *b != 0) && name.first() == Some(&b'/') {
                    name[0] = b'x';
                }
                let n = name.len() as u64;
                // at the end of memory, or in the midst of what has no zeros
                at = if r.chance(1, 3) && n < 0x2000 { base + DRAM - n } else { base + 0x2000 + r.below(0x3_0000) };
                e.write_bytes(at, &name);
                let end = base + DRAM - at;
                len = match r.below(6) {
                    0 => n + r.below(3),
                    1 => n.saturating_sub(1),
                    2 => 0,
                    3 => length(&mut r, end),
                    _ => n,
                };
                if r.chance(1, 10) {
                    (at, _) = address(&mut r, base);
                    len = r.below(40);
                }
                let d = if r.chance(2, 3) { -100i64 as u64 } else { fd };
                let (dst, _) = address(&mut r, base);
                // never create: names here are arbitrary bytes
                let flags = r.pick(&[0u64, 1, 2, 2, 2, 2, 0x1000, 0x10000, u64::MAX & !0o100 & !0o20000000]);
                let flags = if nr == 56 { flags & !0o20200100 | if r.chance(1, 8) { 0o200000 } else { 0 } } else { flags };
                let any = r.u64();
                w = if nr == 56 { [56, d, at, len, flags, r.u64(), 0, 0] } else { [79, d, at, len, dst, r.pick(&[0, 0, 0x100, 0x1000, any]), 0, 0] };
            }
            80 => w[2] = at,
            2011 => {
                w[1] = at;
                w[2] = r.pick(&[0, 1, 100, 1 << 20, u64::MAX, 1 << 63]);
            }
            _ => (),
        }
        // the request itself may be anywhere
        let mut block = base + 0x1000 + 8 * r.below(0x100);
        let odd_place = r.chance(1, 8);
        if odd_place {
            block = address(&mut r, base).0 & !1;
            for (i, v) in w.iter().flat_map(|v| v.to_le_bytes()).enumerate() {
                let a = block.wrapping_add(i as u64);
                if a >= base && a < base + DRAM {
                    e.w8(a, v);
                }
            }
        } else {
            for (i, v) in w.iter().enumerate() {
                e.w64(block + 8 * i as u64, *v);
            }
        }
        if odd_place && r.bool() {
            // not to end by accident
            block &= (1 << 48) - 1;
        }
        e.w64(tohost, block | if r.chance(1, 6) { r.u64() << 48 } else { 0 });
        if tohost != fromhost {
            let v = if r.chance(1, 4) { r.u64() } else { 0 };
            e.w64(fromhost, v);
        }
        // a buffer of gigabytes takes the sanitizer a while
        if matches!(nr, 63 | 67) && w[3] > 1 << 24 && !r.chance(1, 12) {
            continue;
        }
        // what will be executed must not be an exit
        let t = e.r64(tohost);
        if t & 1 == 1 || t as u32 == 0 {
            continue;
        }
        let b = t << 16 >> 16;
        use carron::bus::Device;
        let bus = &mut e.e.cpu.bus;
        if guarded(|| bus.load64(b).unwrap_or(0)).unwrap_or(0) == 93 {
            continue;
        }
        let what = format!("request at {b:#x}: {}", w.iter().map(|v| format!("{v:#x}")).collect::<Vec<_>>().join(" "));
        if story.len() > 20 {
            story.remove(0);
        }
        story.push(what.clone());
        doing(&format!("{what}"));
        let emu = &mut e.e;
        let res = guarded(|| {
            if emu.check_tohost() {
                emu.handle_syscall();
            }
        });
        let answer = if res.is_ok() && !odd_place { e.r64(block) as i64 } else { 0 };
        match &res {
            Ok(()) if nr == 56 && answer >= 0 && !fds.contains(&(answer as u64)) => fds.push(answer as u64),
            Ok(()) if nr == 57 && answer == 0 && fds.len() > 3 => fds.retain(|f| *f != fd),
            _ => (),
        }
        let outcome = match &res {
            Ok(()) if answer < 0 => "an error",
            Ok(()) => "a result",
            Err(_) => "an orderly stop",
        };
        out.line(&format!("name call {nr} -> {outcome}"));
        out.line(&format!("case {:x}", mix(mix(nr, len.min(1 << 17) >> 3), mix(at >> 12, outcome.len() as u64))));
        out.line("count hostile requests");
        if res.is_err() {
            out.line("count orderly stops of requests");
        }
    }
    out.line(&format!("sample {}", story.join("; ")));
}

/// Loads, stores and atomics at every kind of address, and arbitrary words.
fn programs(seed: u64, count: u64, out: &mut Out) {
    use dec::Op;
    let mut r = Rng::new(seed);
    let base = r.pick(&[0x8000_0000u64, 0x8000_0000, 0x4000_0000]);
    let mut e = machine(&mut r, base, base, base + 8);
    let rv64 = e.rv64;
    let end = base + DRAM;
    let mut ops = vec![Op::Lb, Op::Lh, Op::Lw, Op::Lbu, Op::Lhu, Op::Sb, Op::Sh, Op::Sw, Op::LrW, Op::ScW, Op::AmoaddW, Op::AmoswapW, Op::AmomaxuW];
    if rv64 {
        ops.extend([Op::Ld, Op::Lwu, Op::Sd, Op::LrD, Op::ScD, Op::AmoaddD, Op::AmominD, Op::AmoandD]);
    }
    for _ in 0..count {
        // code somewhere, often where memory ends
        let n = r.range(1, 9);
        let at = if r.chance(1, 3) { end - 2 * n } else { base + 0x1000 + 2 * r.below(0x1000) };
        for i in 1..32 {
            let (a, _) = address(&mut r, base);
            e.set_x(i, if rv64 { a } else { a as u32 as i32 as i64 as u64 });
        }
        let mut code: Vec<u8> = vec![];
        while (code.len() as u64) < 2 * n {
            if r.chance(1, 4) {
                code.extend((r.u64() as u32).to_le_bytes());
            } else {
                let w = asm::enc(r.pick(&ops), r.below(32) as usize, r.range(1, 31) as usize, r.below(32) as usize, r.below(64) as i64 - 32);
                code.extend(w.to_le_bytes());
            }
        }
        code.truncate((end - at).min(code.len() as u64) as usize);
        e.write_bytes(at, &code);
        e.e.cpu.verif_set_pc(at);
        e.e.cpu.verif_set_priv(3);
        e.set_csr(0x305, at & !3);
        doing(&format!("code at {at:#x}: {code:02x?}"));
        for _ in 0..r.range(1, 12) {
            match e.step() {
                StepRes::Retired => out.line("count instructions with hostile addresses"),
                StepRes::Trapped => out.line("count traps of hostile accesses"),
                StepRes::Panic(_) => out.line("count orderly stops"),
            }
        }
        out.line(&format!("case {:x}", mix(at, u64::from_le_bytes({
            let mut b = [0; 8];
            let k = code.len().min(8);
            b[..k].copy_from_slice(&code[..k]);
            b
        }))));
    }
}

/// Images with fields out of place: loaded and listed.
fn images(seed: u64, count: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    for k in 0..count {
        let rv64 = r.bool();
        let base = 0x8000_0000u64;
        let mut e = elf::Elf::new(rv64, base);
        for i in 0..r.range(1, 3) {
            let d: Vec<u8> = (0..r.below(3000)).map(|_| r.u64() as u8).collect();
            e.segs.push(elf::Seg::load(base + i * 0x1000, d));
        }
        for i in 0..r.below(4) {
            let d: Vec<u8> = (0..r.below(300)).map(|_| r.u64() as u8).collect();
            e.secs.push(elf::Sec::new(".text", 1, 6, base + i, d));
        }
        let (mut b, lay) = e.htif(base + 64, base + 128).build();
        let edge = [0u64, 1, 3, 0x40, b.len() as u64 - 1, b.len() as u64, b.len() as u64 + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 40, 1 << 63, u64::MAX];
        let spots: Vec<u64> = (0..64)
            .chain(lay.phoff..lay.phoff + 120)
            .chain(lay.shoff..lay.shoff + 64 * 8)
            .filter(|o| *o < b.len() as u64)
            .collect();
        for _ in 0..r.range(1, 6) {
            let at = r.pick(&spots) as usize;
            let n = r.pick(&[1usize, 2, 4, 8]);
            let at = at / n * n;
            let v = if r.chance(1, 4) { r.u64() } else { r.pick(&edge) };
            for (i, x) in v.to_le_bytes().iter().enumerate().take(n) {
                if at + i < b.len() {
                    b[at + i] = *x;
                }
            }
        }
        if r.chance(1, 6) {
            b.truncate(r.below(b.len() as u64) as usize + 1);
        }
        let p = emu::temp_path("image");
        std::fs::write(&p, &b).unwrap();
        let p = p.to_str().unwrap().to_string();
        doing(&format!("image {k} of seed {seed}"));
        let load = r.chance(1, 4);
        let res = guarded(|| {
            let l = ElfLoader::try_new(&p).unwrap();
            l.show_all_header();
            l.target_arch();
            // a listing of terabytes is no matter of memory safety
            if load {
                let args = emu::arguments(&p);
                let mut e = carron::Emulator::new(l, args);
                for _ in 0..50 {
                    if let Err((a, c, _)) = e.cpu.exec_one_cycle() {
                        let t = a.unwrap_or(e.cpu.pc());
                        e.cpu.trap(t, c);
                    }
                }
                std::mem::forget(e);
            } else {
                l.dump_section();
                l.dump_segment();
            }
        });
        out.line(if res.is_ok() { "count images taken" } else { "count images refused" });
        out.line(&format!("case {:x}", mix(seed, k)));
        let _ = std::fs::remove_file(&p);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "child-syscalls" {
        // the sequences of C23, with the sanitizer watching
        std::process::exit(syscalls::child(&args[2..]));
    }
    let seed: u64 = args[2].parse().unwrap();
    let count: u64 = args[3].parse().unwrap();
    let mut out = report_fd();
    emu::init_log();
    emu::install_panic_hook();
    // a buffer the host has no memory for stops the emulator, in good order: for the workload, like a panic
    std::alloc::set_alloc_error_hook(|l| panic!("memory allocation of {} bytes failed", l.size()));
    std::env::set_var("TMPDIR", std::env::current_dir().unwrap());
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        // files stay small: what is read is copied byte by byte
        let l = libc::rlimit { rlim_cur: 1_000_000, rlim_max: 1_000_000 };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    match args[1].as_str() {
        "requests" => requests(seed, count, &mut out),
        "programs" => programs(seed, count, &mut out),
        _ => images(seed, count, &mut out),
    }
    out.line(&format!("add host calls looked at {}", LOOKED.load(Ordering::Relaxed)));
    out.line("done");
    let _ = out.0.flush();
    unsafe { libc::_exit(0) }
}
