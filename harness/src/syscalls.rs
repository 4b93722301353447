//! C23: proxied system calls. Runs in a process of its own, as an unprivileged user in a scratch
//! directory: the emulator serves requests on the files under E/, the oracle makes the same calls
//! on the files under O/ and keeps its own idea of guest memory and descriptors.

use std::sync::atomic::{AtomicBool, Ordering};
use crate::emu::{guarded, Emu};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashMap};
use std::ffi::CString;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::os::unix::fs::{FileTypeExt, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

const BASE: u64 = 0x8000_0000;
const DRAM: u64 = 0x8000_0000;
const LOW: u64 = 0x14_0000; // arena at the start of memory
const HIGH: u64 = 0x2000; // and at its end
const TOHOST: u64 = BASE + 0x1000;
const FROMHOST: u64 = BASE + 0x1008;
const BLOCKS: u64 = BASE + 0x2000; // requests, 0x1000 bytes
const BUFS: u64 = 0x4000; // from here on buffers

/// Where a name says E or O.
const SIDE: u8 = 1;

struct Out(std::fs::File);
impl Out {
    fn line(&mut self, s: &str) {
        let _ = writeln!(self.0, "{}", s.replace('\n', "\\n"));
    }
}

fn side(name: &[u8], s: u8) -> Vec<u8> {
    name.iter().map(|b| if *b == SIDE { s } else { *b }).collect()
}

fn errno() -> i64 {
    unsafe { *libc::__errno_location() as i64 }
}

fn ret(v: i64) -> i64 {
    if v == -1 { -errno() } else { v }
}

fn filler(r: &mut Rng, n: u64) -> Vec<u8> {
    (0..n).map(|_| r.u64() as u8).collect()
}

fn make_tree(root: &Path, seed: u64) {
    let mut r = Rng::new(seed);
    std::fs::create_dir(root).unwrap();
    let put = |n: &str, d: &[u8], mode: u32| {
        let p = root.join(n);
        std::fs::write(&p, d).unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
    };
    std::fs::create_dir(root.join("sub")).unwrap();
    std::fs::create_dir(root.join("sub/deep")).unwrap();
    std::fs::create_dir(root.join("closed")).unwrap();
    for (n, len, mode) in [
        ("a", 5000, 0o2644), ("b", 0, 0o1600), ("c", 0x1_2345, 0o4666), ("ro", 300, 0o444), ("none", 10, 0),
        ("sub/a", 1, 0o6755), ("sub/deep/x", 4096, 0o3640), ("closed/y", 7, 0o644), ("wo", 64, 0o200),
    ] {
        let d = filler(&mut r, len);
        put(n, &d, mode);
    }
    for (n, to) in [("la", "a"), ("lsub", "sub"), ("dangling", "nothing/here"), ("loop", "loop"), ("sub/up", "../c"), ("lnew", "made-by-link"), ("lfifo", "fifo")] {
        std::os::unix::fs::symlink(to, root.join(n)).unwrap();
    }
    let c = CString::new(root.join("fifo").into_os_string().into_encoded_bytes()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o622) }, 0);
    let l = filler(&mut r, 0);
    put(&"n".repeat(255), &l, 0o644);
    for n in ["in", "out", "err"] {
        let d = filler(&mut r, if n == "in" { 3000 } else { 20 });
        put(n, &d, 0o666);
    }
    // times before 1970, beyond 2038 and beyond 2106
    for n in ["a", "b", "c", "ro", "sub/a", "sub/deep/x", "in", "sub", "la"] {
        let mut t = || libc::timespec {
            tv_sec: r.pick(&[0, -1, -86_400_000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x2_3456_789a]) + r.below(1000) as i64,
            tv_nsec: r.pick(&[0, 1, 999_999_999, 123_456_789]),
        };
        let c = CString::new(root.join(n).into_os_string().into_encoded_bytes()).unwrap();
        let times = [t(), t()];
        unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), times.as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    }
    std::fs::set_permissions(root.join("closed"), std::fs::Permissions::from_mode(0)).unwrap();
    std::fs::set_permissions(root.join("sub"), std::fs::Permissions::from_mode(0o3755)).unwrap();
}

#[derive(PartialEq, Debug, Clone)]
struct Entry {
    kind: String,
    mode: u32,
    data: Vec<u8>,
}

fn walk(root: &Path, at: &Path, out: &mut BTreeMap<PathBuf, Entry>, inodes: &mut HashMap<(u64, u64), PathBuf>) {
    let full = root.join(at);
    let Ok(md) = std::fs::symlink_metadata(&full) else { return };
    inodes.insert((md.dev(), md.ino()), at.to_path_buf());
    let t = md.file_type();
    let (kind, data) = if t.is_symlink() {
        ("link", std::fs::read_link(&full).unwrap().into_os_string().into_encoded_bytes())
    } else if t.is_dir() {
        ("dir", vec![])
    } else if t.is_fifo() || t.is_char_device() {
        ("special", vec![])
    } else {
        ("file", std::fs::read(&full).unwrap_or_else(|_| format!("unreadable, {} bytes", md.len()).into_bytes()))
    };
    out.insert(at.to_path_buf(), Entry { kind: kind.into(), mode: md.mode(), data });
    if t.is_dir() {
        if let Ok(d) = std::fs::read_dir(&full) {
            for e in d.flatten() {
                walk(root, &at.join(e.file_name()), out, inodes);
            }
        }
    }
}

fn tree(root: &str) -> (BTreeMap<PathBuf, Entry>, HashMap<(u64, u64), PathBuf>) {
    let (mut a, mut b) = (BTreeMap::new(), HashMap::new());
    walk(Path::new(root), Path::new(""), &mut a, &mut b);
    (a, b)
}

/// struct stat of 64-bit RISC-V Linux (include/uapi/asm-generic/stat.h).
fn riscv_stat(s: &libc::stat) -> Vec<u8> {
    let mut v = vec![];
    v.extend((s.st_dev as u64).to_le_bytes());
    v.extend((s.st_ino as u64).to_le_bytes());
    v.extend((s.st_mode as u32).to_le_bytes());
    v.extend((s.st_nlink as u32).to_le_bytes());
    v.extend((s.st_uid as u32).to_le_bytes());
    v.extend((s.st_gid as u32).to_le_bytes());
    v.extend((s.st_rdev as u64).to_le_bytes());
    v.extend(0u64.to_le_bytes());
    v.extend(s.st_size.to_le_bytes());
    v.extend((s.st_blksize as i32).to_le_bytes());
    v.extend(0u32.to_le_bytes());
    v.extend(s.st_blocks.to_le_bytes());
    for t in [(s.st_atime, s.st_atime_nsec), (s.st_mtime, s.st_mtime_nsec), (s.st_ctime, s.st_ctime_nsec)] {
        v.extend(t.0.to_le_bytes());
        v.extend(t.1.to_le_bytes());
    }
    v.extend([0; 8]);
    assert_eq!(v.len(), 128);
    v
}

struct World {
    rv64: bool,
    here: String,
    e: Emu,
    low: Vec<u8>,
    high: Vec<u8>,
    fds: Vec<Option<i32>>,
    args: Vec<String>,
    story: Vec<String>,
}

impl World {
    fn mem(&mut self, a: u64, n: u64) -> &mut [u8] {
        let o = a - BASE;
        if o < LOW {
            &mut self.low[o as usize..(o + n) as usize]
        } else {
            let o = o - (DRAM - HIGH);
            &mut self.high[o as usize..(o + n) as usize]
        }
    }
    fn put(&mut self, a: u64, d: &[u8]) {
        self.e.write_bytes(a, d);
        self.mem(a, d.len() as u64).copy_from_slice(d);
    }
    fn host(&self, fd: u64) -> i32 {
        if fd < self.fds.len() as u64 { self.fds[fd as usize].unwrap_or(-1) } else { -1 }
    }
    fn some_fd(&self, r: &mut Rng) -> u64 {
        let open: Vec<u64> = (0..self.fds.len() as u64).filter(|f| self.fds[*f as usize].is_some()).collect();
        if !open.is_empty() && !r.chance(1, 7) {
            // the newer ones more often
            return if r.bool() { r.pick(&open) } else { open[open.len() - 1 - r.below(open.len().min(4) as u64) as usize] };
        }
        match r.below(3) {
            0 => r.below(self.fds.len() as u64 + 3),
            1 => self.fds.len() as u64,
            _ => r.pick(&[u64::MAX, 0xffff_ffff, 0x7fff_ffff, 1000, 64, u64::MAX - 1]),
        }
    }
    /// A buffer of n bytes clear of the request.
    fn buffer(&self, r: &mut Rng, n: u64) -> u64 {
        if n <= HIGH && r.chance(1, 6) {
            let room = HIGH - n;
            let o = if r.bool() { room } else { r.below(room + 1) };
            return BASE + DRAM - HIGH + o;
        }
        let room = LOW - BUFS - n;
        let mut o = r.below(room + 1);
        if r.chance(1, 3) {
            o &= !7;
        }
        BASE + BUFS + o
    }
    /// A name for a call with this directory; a relative one stays inside the side's own tree.
    fn name(&self, r: &mut Rng, dir: u64) -> Vec<u8> {
        let mut v = self.any_name(r);
        if dir as i32 == -100 && !v.is_empty() && v[0] != b'/' && v[0] != SIDE {
            v.splice(0..0, [SIDE, b'/']);
        }
        v
    }
    fn any_name(&self, r: &mut Rng) -> Vec<u8> {
        const LEAF: [&str; 24] = [
            "fifo", "lfifo",
            "a", "b", "c", "ro", "none", "sub", "sub/a", "sub/deep/x", "closed/y", "wo", "la", "lsub/a", "dangling", "loop", "sub/up",
            "new", "sub/new2", "missing/x", "a/x", ".", "lnew", "sub/../a",
        ];
        let leaf = r.pick(&LEAF).to_string();
        let mut v = match r.below(12) {
            0 => vec![],
            1 => return b"/dev/full".to_vec(),
            2 => return r.pick(&["/dev/null", "/dev/zero"]).as_bytes().to_vec(),
            3 => format!("{}/\u{1}/{leaf}", self.here).into_bytes(),
            4 => "n".repeat(r.pick(&[254, 255, 256, 300])).into_bytes(),
            5 => format!("\u{1}/{}", "x/../".repeat(r.pick(&[3, 900]))).into_bytes(),
            6 => leaf.clone().into_bytes(),
            7 => format!("\u{1}/{leaf}/").into_bytes(),
            8 => format!("\u{1}/fresh{}", r.below(20)).into_bytes(),
            _ => format!("\u{1}/{leaf}").into_bytes(),
        };
        if r.chance(1, 40) && !v.is_empty() {
            v.push(0xc3); // not text
        }
        v
    }
    fn dirfd(&self, r: &mut Rng) -> u64 {
        match r.below(4) {
            0 => 0xffff_ff9c,
            1 => {
                // rather one of a directory
                let dirs: Vec<u64> = (0..self.fds.len() as u64).filter(|f| self.kind(self.host(*f)).0 == libc::S_IFDIR).collect();
                if dirs.is_empty() || r.chance(1, 4) { self.some_fd(r) } else { r.pick(&dirs) }
            }
            _ => -100i64 as u64,
        }
    }
    /// File type and size behind a host descriptor.
    fn kind(&self, h: i32) -> (u32, i64) {
        unsafe {
            let mut s: libc::stat = std::mem::zeroed();
            if libc::fstat(h, &mut s) == 0 { (s.st_mode & libc::S_IFMT, s.st_size) } else { (0, 0) }
        }
    }
    /// Whether a transfer of at most a page does not wait; only a FIFO ever makes one wait.
    fn ready(&self, h: i32, ev: i16) -> bool {
        unsafe {
            if self.kind(h).0 != libc::S_IFIFO || libc::fcntl(h, libc::F_GETFL) & libc::O_NONBLOCK != 0 {
                return true;
            }
            let mut p = libc::pollfd { fd: h, events: ev, revents: 0 };
            libc::poll(&mut p, 1, 0);
            p.revents & ev != 0
        }
    }
    fn length(&self, r: &mut Rng) -> u64 {
        match r.below(8) {
            0 => 0,
            1 => 1,
            2 => r.below(16),
            3 => 4096,
            4 => r.below(20000),
            5 => r.pick(&[8192, 65536, 0x1_2345, 0x1_2346, 5000, 5001]),
            6 if r.chance(1, 12) => r.pick(&[0x1_0001u64, 0x2_0000, 0x2_0001, 0x4_0001, 0x8_0000, 0x10_0000, 0x10_0001]),
            _ => r.below(600),
        }
    }
    fn offset(&self, r: &mut Rng) -> u64 {
        match r.below(10) {
            0 => 0,
            1 => -1i64 as u64,
            2 => i64::MIN as u64,
            3 => r.pick(&[1u64 << 62, i64::MAX as u64, 1 << 40, (1 << 63) - 4096]),
            4 => r.below(300_000),
            5 => r.pick(&[4999, 5000, 5001, 0x1_2345, 0x1_2344]),
            _ => r.below(6000),
        }
    }
    fn put_name(&mut self, r: &mut Rng, name: &[u8]) -> (u64, u64) {
        let mut d = side(name, b'E');
        d.push(0);
        let mut len = d.len() as u64;
        if r.chance(1, 4) {
            // more than the name
            let n = r.below(30);
            d.extend(filler(r, n));
            len = d.len() as u64;
        }
        // something that would lengthen a name without end
        d.extend(b"zz");
        let at = self.buffer(r, d.len() as u64);
        self.put(at, &d);
        (at, len)
    }

    fn low_fd(&mut self, h: i32) -> i64 {
        let i = match self.fds.iter().position(|f| f.is_none()) {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[i] = Some(h);
        i as i64
    }

    /// The stat the guest has to see: that of the file of E which the oracle's is a twin of.
    fn twin_stat(&self, o: &libc::stat) -> Option<libc::stat> {
        let (_, inodes) = tree("O");
        let Some(p) = inodes.get(&(o.st_dev, o.st_ino)) else { return Some(*o) };
        let full = if p.as_os_str().is_empty() { PathBuf::from("E") } else { Path::new("E").join(p) };
        let c = CString::new(full.into_os_string().into_encoded_bytes()).unwrap();
        unsafe {
            let mut s: libc::stat = std::mem::zeroed();
            (libc::lstat(c.as_ptr(), &mut s) == 0).then_some(s)
        }
    }

    fn compare_memory(&self, what: &str) -> Result<(), (String, String)> {
        let host = crate::emu::dram_host_addr(&self.e).unwrap() as u64;
        for (name, off, want) in [("start", 0, &self.low), ("end", DRAM - HIGH, &self.high)] {
            let got = unsafe { std::slice::from_raw_parts((host + off) as *const u8, want.len()) };
            if got != &want[..] {
                let i = (0..want.len()).find(|i| got[*i] != want[*i]).unwrap();
                return Err((
                    "guest memory after the call".into(),
                    format!("{what}: {name} of memory, {:#x}: {:#x} instead of {:#x}", BASE + off + i as u64, got[i], want[i]),
                ));
            }
        }
        Ok(())
    }
}

static RANG: AtomicBool = AtomicBool::new(false);

/// How often this thread has gone to sleep.
fn sleeps() -> i64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        u.ru_nvcsw
    }
}

fn viol<T>(s: &str, d: String) -> Result<T, (String, String)> {
    Err((s.into(), d))
}

/// One request: to the emulator, and to the oracle.
fn request(w: &mut World, r: &mut Rng, out: &mut Out) -> Result<(), (String, String)> {
    let open = w.fds.iter().filter(|f| f.is_some()).count();
    let k = if open > 40 { 1 } else { r.below(20) };
    // arguments, how the oracle answers, and the bytes it puts into memory where
    let (nr, args, expect, store): (u64, [u64; 7], i64, Option<(u64, Vec<u8>)>);
    let what;
    let mut is_stat = None;
    let mut fifo = false;
    match k {
        0 | 2..=4 => {
            let dir = w.dirfd(r);
            let name = w.name(r, dir);
            let (at, len) = w.put_name(r, &name);
            let mut flags = r.pick(&[0, 1, 2, 2, 0]);
            for f in [libc::O_CREAT, libc::O_EXCL, libc::O_TRUNC, libc::O_APPEND, libc::O_DIRECTORY, libc::O_NOFOLLOW, libc::O_PATH, libc::O_CLOEXEC, libc::O_NONBLOCK] {
                if r.chance(1, if f == libc::O_CREAT { 2 } else { 8 }) {
                    flags |= f;
                }
            }
            let mode = r.pick(&[0o644u64, 0o600, 0o777, 0, 0o444, 0o1666]);
            let oname = CString::new(side(&name, b'O')).unwrap();
            let dh = if dir as i32 == -100 { -100 } else { w.host(dir) };
            unsafe {
                // a FIFO is only opened in ways that do not wait
                let mut s: libc::stat = std::mem::zeroed();
                if libc::fstatat(dh, oname.as_ptr(), &mut s, 0) == 0 && s.st_mode & libc::S_IFMT == libc::S_IFIFO {
                    if flags & libc::O_ACCMODE != libc::O_RDWR {
                        flags |= libc::O_NONBLOCK;
                    }
                    fifo = true;
                }
            }
            nr = 56;
            args = [dir, at, len, flags as u64, mode, 0, 0];
            let h = ret(unsafe { libc::openat(dh, oname.as_ptr(), flags, mode as libc::c_uint) } as i64);
            expect = if h < 0 { h } else { w.low_fd(h as i32) };
            store = None;
            what = format!("openat({dir:#x}, {:?}, len {len}, {flags:#o}, {mode:#o})", String::from_utf8_lossy(&side(&name, b'E')));
        }
        1 | 5 => {
            let fd = w.some_fd(r);
            nr = 57;
            args = [fd, r.u64(), 0, 0, 0, 0, 0];
            let h = w.host(fd);
            expect = ret(unsafe { libc::close(h) } as i64);
            if expect == 0 {
                w.fds[fd as usize] = None;
            }
            store = None;
            what = format!("close({fd:#x})");
        }
        6 | 7 => {
            let (fd, off, wh) = (w.some_fd(r), w.offset(r), r.pick(&[0u64, 0, 1, 1, 2, 2, 7, u64::MAX, 0x7fff_ffff]));
            nr = 62;
            args = [fd, off, wh, 0, 0, 0, 0];
            expect = ret(unsafe { libc::lseek(w.host(fd), off as i64, wh as i32) });
            store = None;
            what = format!("lseek({fd:#x}, {off:#x}, {wh:#x})");
        }
        8..=10 => {
            let (fd, mut n) = (w.some_fd(r), w.length(r));
            let mut at = w.buffer(r, n);
            let (kind, size) = w.kind(w.host(fd));
            fifo = kind == libc::S_IFIFO;
            if fifo && !w.ready(w.host(fd), libc::POLLIN) {
                n = 0;
            }
            let room = size.max(0) as u64;
            if (kind == libc::S_IFREG || kind == 0) && room <= LOW - BUFS && r.chance(1, 10) {
                // announces more than there can be, up to the end of memory and beyond
                at = if room <= HIGH { BASE + DRAM - room } else { BASE + LOW - room };
                n = r.pick(&[room, room + 1, 1 << 20, 0x7fff_f000, 0x7fff_f001, 1 << 33, 1 << 40, i64::MAX as u64]);
                out.line("count reads that announce more than memory holds");
            }
            let pread = k == 10;
            let off = w.offset(r);
            nr = if pread { 67 } else { 63 };
            args = [fd, at, n, off, r.u64(), 0, 0];
            let mut b = vec![0u8; n.min(0x7fff_f000) as usize];
            let p = b.as_mut_ptr() as *mut libc::c_void;
            let h = w.host(fd);
            expect = ret(unsafe { if pread { libc::pread(h, p, b.len(), off as i64) } else { libc::read(h, p, b.len()) } } as i64);
            store = (expect > 0).then(|| (at, b[..expect as usize].to_vec()));
            what = if pread { format!("pread({fd:#x}, {at:#x}, {n:#x}, {off:#x})") } else { format!("read({fd:#x}, {at:#x}, {n:#x})") };
        }
        11..=14 => {
            let (fd, mut n) = (w.some_fd(r), w.length(r));
            if !w.ready(w.host(fd), libc::POLLOUT) {
                n = 0;
            } else if w.kind(w.host(fd)).0 == libc::S_IFIFO {
                let waits = unsafe { libc::fcntl(w.host(fd), libc::F_GETFL) } & libc::O_NONBLOCK == 0;
                if waits || r.bool() {
                    n = n.min(4096); // there is room for a page
                }
            }
            let at = w.buffer(r, n);
            let pwrite = k == 14;
            fifo = w.kind(w.host(fd)).0 == libc::S_IFIFO;
            let off = w.offset(r);
            nr = if pwrite { 68 } else { 64 };
            args = [fd, at, n, off, r.u64(), 0, 0];
            let b = w.mem(at, n).to_vec();
            let p = b.as_ptr() as *const libc::c_void;
            let h = w.host(fd);
            expect = ret(unsafe { if pwrite { libc::pwrite(h, p, n as usize, off as i64) } else { libc::write(h, p, n as usize) } } as i64);
            store = None;
            what = if pwrite { format!("pwrite({fd:#x}, {at:#x}, {n:#x}, {off:#x})") } else { format!("write({fd:#x}, {at:#x}, {n:#x})") };
        }
        15 | 16 => {
            let dir = w.dirfd(r);
            let name = w.name(r, dir);
            let (nat, len) = w.put_name(r, &name);
            let at = loop {
                let a = w.buffer(r, 128);
                if a + 128 <= nat || a >= nat + len + 2 {
                    break a;
                }
            };
            let flags = r.pick(&[0u64, 0, 0x100, 0x1000, 0x1100, 0x800, 0x4000_0000, 2]);
            nr = 79;
            args = [dir, nat, len, at, flags, r.u64(), 0];
            let oname = CString::new(side(&name, b'O')).unwrap();
            let dh = if dir as i32 == -100 { -100 } else { w.host(dir) };
            let mut s: libc::stat = unsafe { std::mem::zeroed() };
            expect = ret(unsafe { libc::fstatat(dh, oname.as_ptr(), &mut s, flags as i32) } as i64);
            store = None;
            is_stat = (expect == 0).then_some((at, s));
            what = format!("fstatat({dir:#x}, {:?}, len {len}, {at:#x}, {flags:#x})", String::from_utf8_lossy(&side(&name, b'E')));
        }
        17 | 18 => {
            let fd = w.some_fd(r);
            let at = w.buffer(r, 128);
            nr = 80;
            args = [fd, at, r.u64(), 0, 0, 0, 0];
            let mut s: libc::stat = unsafe { std::mem::zeroed() };
            expect = ret(unsafe { libc::fstat(w.host(fd), &mut s) } as i64);
            store = None;
            is_stat = (expect == 0).then_some((at, s));
            what = format!("fstat({fd:#x}, {at:#x})");
        }
        _ => {
            let n = w.args.len() as u64;
            let size = 8 * (n + 3) + w.args.iter().map(|a| a.len() as u64 + 1).sum::<u64>();
            let limit = match r.below(5) {
                0 => size,
                1 => size - 1,
                2 => r.below(size),
                3 => 0,
                _ => size + r.below(4000),
            };
            let at = w.buffer(r, size);
            nr = 2011;
            args = [at, limit, r.u64(), 0, 0, 0, 0];
            let mut v = n.to_le_bytes().to_vec();
            let mut p = at + 8 * (n + 3);
            for a in &w.args {
                v.extend(p.to_le_bytes());
                p += a.len() as u64 + 1;
            }
            v.extend([0; 16]);
            for a in &w.args {
                v.extend(a.as_bytes());
                v.push(0);
            }
            expect = if size > limit { -12 } else { 0 };
            store = (expect == 0).then_some((at, v));
            what = format!("getmainvars({at:#x}, {limit:#x}) of {size:#x} bytes");
        }
    }
    w.story.push(format!("{what} -> {expect}"));
    // to the emulator
    let block = BLOCKS + 8 * r.below((0x1000 - 64) / 8);
    let before_from = if r.chance(1, 12) { r.u64() | 1 } else { 0 };
    let high = if r.chance(1, 4) { r.below(0x100) << 48 } else { 0 };
    let mut b = nr.to_le_bytes().to_vec();
    for a in args {
        b.extend(a.to_le_bytes());
    }
    w.put(block, &b);
    w.put(TOHOST, &(block | high).to_le_bytes());
    w.put(FROMHOST, &before_from.to_le_bytes());
    let emu = &mut w.e.e;
    // none of these calls waits; one that does is interrupted
    let mut slept = 0;
    let alarm = |usec| unsafe {
        let t = libc::timeval { tv_sec: 0, tv_usec: usec };
        libc::setitimer(libc::ITIMER_REAL, &libc::itimerval { it_interval: t, it_value: t }, std::ptr::null_mut());
    };
    if fifo {
        RANG.store(false, Ordering::SeqCst);
        slept = sleeps();
        alarm(900_000);
        out.line("count calls on a FIFO");
    }
    let served = guarded(|| {
        let seen = emu.check_tohost();
        if seen {
            emu.handle_syscall();
        }
        seen
    });
    if fifo {
        alarm(0);
        if RANG.load(Ordering::SeqCst) && sleeps() > slept {
            return viol("a call waits where the host's does not", format!("{what}\n{}", w.story[w.story.len().saturating_sub(14)..].join("\n")));
        }
    }
    let story = |w: &World| w.story[w.story.len().saturating_sub(14)..].join("\n");
    match served {
        Err(p) => return viol("the emulator panicked on a valid request", format!("{p}\n{}", story(w))),
        Ok(false) => return viol("a request was not seen", story(w)),
        Ok(true) => (),
    }
    let got = w.e.r64(block) as i64;
    if got != expect {
        return viol(
            &format!("result of {}", what.split('(').next().unwrap()),
            format!("{what}: {got} instead of {expect}\n{}", story(w)),
        );
    }
    // what memory has to be now
    w.mem(block, 8).copy_from_slice(&expect.to_le_bytes());
    w.mem(TOHOST, 8).fill(0);
    if let Some((at, d)) = store {
        w.mem(at, d.len() as u64).copy_from_slice(&d);
    }
    if let Some((at, s)) = is_stat {
        if let Some(t) = w.twin_stat(&s) {
            let d = riscv_stat(&t);
            w.mem(at, 128).copy_from_slice(&d);
            out.line("count stat results compared");
        } else {
            let cur: Vec<u8> = (0..128).map(|i| w.e.r8(at + i)).collect();
            w.mem(at, 128).copy_from_slice(&cur);
        }
    }
    let from = w.e.r64(FROMHOST);
    if (before_from != 0 && from != before_from) || from == 0 {
        return viol("the answer in fromhost", format!("{what}: fromhost {before_from:#x} before, {from:#x} after\n{}", story(w)));
    }
    w.mem(FROMHOST, 8).copy_from_slice(&from.to_le_bytes());
    w.compare_memory(&what).map_err(|(s, d)| (s, format!("{d}\n{}", story(w))))?;
    // no second answer without a request
    if w.e.e.check_tohost() {
        return viol("a request stays after it was answered", what);
    }
    out.line(&format!("name {} -> {}", what.split('(').next().unwrap(), if expect < 0 { expect.to_string() } else { "success".into() }));
    let key = mix(mix(nr, expect.min(64) as u64), open as u64);
    out.line(&format!("case {key:x}"));
    out.line("count proxied calls compared");
    if matches!(nr, 64 | 68) && expect >= 0 && (expect as u64) < args[2] {
        out.line("count writes done in part");
    }
    if w.story.len() % 16 == 0 {
        compare_trees(w, out)?;
    }
    Ok(())
}

fn compare_trees(w: &World, out: &mut Out) -> Result<(), (String, String)> {
    let (e, o) = (tree("E").0, tree("O").0);
    if e != o {
        let k = e.keys().chain(o.keys()).find(|k| e.get(*k) != o.get(*k)).unwrap();
        let show = |x: Option<&Entry>| x.map_or("nothing".to_string(), |x| format!("{} mode {:o} {} bytes {:x?}", x.kind, x.mode, x.data.len(), &x.data[..x.data.len().min(24)]));
        return viol(
            "files after the calls",
            format!("{k:?}: {} instead of {}\n{}", show(e.get(k)), show(o.get(k)), w.story[w.story.len().saturating_sub(40)..].join("\n")),
        );
    }
    out.line("count file trees compared");
    Ok(())
}

/// Takes fd 1 away from the emulator's reach, for the report.
fn report_fd() -> Out {
    unsafe {
        let h = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 200);
        assert!(h >= 0);
        Out(std::fs::File::from_raw_fd(h))
    }
}

/// Puts the stdio of both sides in place: E's on 0 to 2, O's anywhere.
fn stdio(w: &mut World) {
    // the thread of the emulated UART has seen the end of /dev/null by then
    for _ in 0..5000 {
        if std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count()) == 1 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    for (i, n) in ["in", "out", "err"].iter().enumerate() {
        unsafe {
            let c = CString::new(format!("E/{n}")).unwrap();
            let h = libc::open(c.as_ptr(), libc::O_RDWR);
            libc::dup2(h, i as i32);
            libc::close(h);
            let c = CString::new(format!("O/{n}")).unwrap();
            w.fds.push(Some(libc::open(c.as_ptr(), libc::O_RDWR)));
        }
    }
}

fn machine(r: &mut Rng) -> (Emu, Vec<String>) {
    let rv64 = r.bool();
    let mut elf = crate::elf::Elf::new(rv64, BASE);
    elf.segs.push(crate::elf::Seg::load(BASE, vec![0; 16]));
    let elf = elf.htif(TOHOST, FROMHOST);
    let words = ["prog", "", "-x", "argument with spaces", "h\u{e9}t\u{e9}", "0123456789abcdef", "=", "a"];
    let args: Vec<String> = (0..r.range(1, 7)).map(|_| r.pick(&words).to_string()).collect();
    let a2 = args.clone();
    (Emu::with_args(&elf.bytes(), rv64, BASE, |a| a.main_args = a2), args)
}

/// `monitor child-syscalls SEED COUNT`, in an empty directory.
pub fn child(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let count: u64 = args[1].parse().unwrap();
    let mut out = report_fd();
    crate::emu::install_panic_hook();
    let mut r = Rng::new(seed);
    let scratch = std::env::current_dir().unwrap();
    std::env::set_var("TMPDIR", &scratch);
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        extern "C" fn rang(_: libc::c_int) {
            RANG.store(true, Ordering::SeqCst);
        }
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = rang as extern "C" fn(libc::c_int) as usize;
        libc::sigaction(libc::SIGALRM, &a, std::ptr::null_mut());
        libc::umask(0o022);
        if r.chance(1, 3) {
            // writes that only succeed in part
            let n = r.range(75_000, 90_000);
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
    }
    let (e, gargs) = machine(&mut r);
    make_tree(Path::new("E"), seed);
    make_tree(Path::new("O"), seed);
    let mut w = World {
        rv64: e.rv64,
        here: scratch.to_str().unwrap().into(),
        e,
        low: vec![0; LOW as usize],
        high: vec![0; HIGH as usize],
        fds: vec![],
        args: gargs,
        story: vec![],
    };
    stdio(&mut w);
    let d = filler(&mut r, LOW - BUFS);
    w.put(BASE + BUFS, &d);
    let d = filler(&mut r, HIGH);
    w.put(BASE + DRAM - HIGH, &d);
    let mut res = Ok(());
    for _ in 0..count {
        res = request(&mut w, &mut r, &mut out);
        if res.is_err() {
            break;
        }
    }
    if res.is_ok() {
        res = compare_trees(&w, &mut out);
    }
    if res.is_ok() {
        // nothing anywhere else in memory
        let host = crate::emu::dram_host_addr(&w.e).unwrap();
        for p in crate::lock::present_pages(Some(host)) {
            let a = p * 4096;
            if a < LOW || a >= DRAM - HIGH {
                continue;
            }
            let got = unsafe { std::slice::from_raw_parts((host as u64 + a) as *const u8, 4096) };
            if let Some(i) = got.iter().position(|b| *b != 0) {
                res = viol("guest memory no call addressed has changed", format!("{:#x}", BASE + a + i as u64));
                break;
            }
        }
    }
    if let Err((s, d)) = res {
        out.line(&format!("viol {s}\t(rv{}) {d}", if w.rv64 { 64 } else { 32 }));
    } else {
        out.line("count sequences of proxied calls");
        out.line(&format!("sample {}", w.story[..w.story.len().min(6)].join("; ")));
    }
    out.line("done");
    0
}

/// `monitor child-exhaust SEED`: opens until the host has no more descriptors.
pub fn exhaust(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let mut out = report_fd();
    crate::emu::install_panic_hook();
    let mut r = Rng::new(seed);
    std::env::set_var("TMPDIR", std::env::current_dir().unwrap());
    let (mut e, _) = machine(&mut r);
    std::fs::write("f", b"x").unwrap();
    e.write_bytes(BASE + 0x4000, b"f\0");
    unsafe {
        let n = if r.chance(1, 4) { r.range(60, 400) } else { r.range(12, 60) };
        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let mut call = |nr: u64, a: [u64; 5]| -> Result<i64, String> {
        e.w64(BLOCKS, nr);
        for (i, v) in a.iter().enumerate() {
            e.w64(BLOCKS + 8 + 8 * i as u64, *v);
        }
        e.w64(FROMHOST, 0);
        e.w64(TOHOST, BLOCKS);
        let emu = &mut e.e;
        guarded(|| {
            assert!(emu.check_tohost());
            emu.handle_syscall()
        })?;
        Ok(e.r64(BLOCKS) as i64)
    };
    let mut table = vec![true; 3];
    let mut res: Result<(), String> = Ok(());
    let mut full = 0;
    for k in 0..1200 {
        let open: Vec<usize> = (3..table.len()).filter(|i| table[*i]).collect();
        if !open.is_empty() && (r.chance(1, 12) || full > 2) {
            full = 0;
            for _ in 0..r.range(1, 6).min(open.len() as u64) {
                let open: Vec<usize> = (3..table.len()).filter(|i| table[*i]).collect();
                let fd = r.pick(&open);
                match call(57, [fd as u64, 0, 0, 0, 0]) {
                    Ok(0) => table[fd] = false,
                    x => res = Err(format!("close({fd}) gives {x:?}")),
                }
            }
        } else {
            let room = unsafe {
                let h = libc::open(b"f\0".as_ptr() as *const _, libc::O_RDONLY);
                h >= 0 && libc::close(h) == 0
            };
            match call(56, [-100i64 as u64, BASE + 0x4000, 2, 0, 0]) {
                Ok(-24) if !room => {
                    full += 1;
                    out.line("count opens refused for want of descriptors");
                }
                Ok(fd) => {
                    let want = table.iter().position(|t| !t).unwrap_or(table.len());
                    if fd != want as i64 {
                        res = Err(format!("request {k}: openat gives {fd}, the lowest free descriptor is {want}"));
                    } else {
                        if want == table.len() {
                            table.push(true);
                        }
                        table[want] = true;
                    }
                }
                x => res = Err(format!("openat gives {x:?}")),
            }
        }
        if let Err(d) = &res {
            out.line(&format!("viol descriptors near the host's limit\t{d}"));
            break;
        }
    }
    out.line(&format!("case {:x}", mix(seed, 24)));
    out.line("done");
    0
}
