//! C33: what the emulator does to the host, by the system calls it makes.

use crate::elf::Elf;
use crate::proc::{self, Disturb, Input, Run};
use crate::report::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::Command;

use super::e2e::crashed;
use super::ends::{Prog, Symbols};

const OPENS: &[&str] = &["open", "openat", "openat2", "creat", "name_to_handle_at", "open_by_handle_at"];
const LOOKS: &[&str] = &["stat", "lstat", "newfstatat", "statx", "access", "faccessat", "faccessat2", "readlink", "readlinkat"];
const WRITES: &[&str] = &["write", "pwrite64", "writev", "pwritev", "pwritev2", "sendfile", "copy_file_range", "splice", "tee", "vmsplice"];
/// nothing any guest or command line can ask for
const NEVER: &[&str] = &[
    "unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "mknod", "mknodat",
    "chmod", "fchmod", "fchmodat", "fchmodat2", "chown", "fchown", "lchown", "fchownat", "truncate", "ftruncate", "utime", "utimes", "utimensat", "futimesat",
    "setxattr", "lsetxattr", "fsetxattr", "removexattr", "lremovexattr", "fremovexattr", "fallocate", "chdir", "fchdir", "chroot", "pivot_root", "mount", "umount2",
    "umask", "socket", "socketpair", "connect", "bind", "listen", "accept", "accept4", "sendto", "sendmsg", "sendmmsg", "fork", "vfork", "execveat", "kill", "tkill",
    "pidfd_send_signal", "rt_sigqueueinfo", "ptrace", "process_vm_writev", "process_vm_readv", "setuid", "setgid", "setreuid", "setregid", "setresuid", "setresgid",
    "setgroups", "setsid", "setpgid", "shmget", "msgget", "semget", "mq_open", "mq_unlink", "reboot", "sethostname", "setdomainname", "settimeofday", "clock_settime",
    "adjtimex", "swapon", "swapoff", "bpf", "perf_event_open", "io_uring_setup", "acct", "quotactl", "keyctl", "add_key", "init_module", "finit_module", "delete_module",
];
const OTHERS: &[&str] = &["execve", "clone", "clone3", "mmap", "tgkill"];

/// A file of the trial: kind, mode, time of change, contents.
type Entry = (char, u32, i64, i64, Vec<u8>);

fn tree(at: &Path) -> BTreeMap<String, Entry> {
    fn walk(root: &Path, at: &Path, out: &mut BTreeMap<String, Entry>) {
        for f in std::fs::read_dir(at).into_iter().flatten().flatten() {
            let p = f.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let name = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            if m.is_dir() {
                // its time changes with what the guest creates in it
                out.insert(name, ('d', m.mode(), 0, 0, vec![]));
                walk(root, &p, out);
            } else {
                let kind = if m.file_type().is_symlink() { 'l' } else { 'f' };
                let data = if kind == 'l' { vec![] } else { std::fs::read(&p).unwrap_or_default() };
                out.insert(name, (kind, m.mode(), m.mtime(), m.mtime_nsec(), data));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(at, at, &mut out);
    out
}

/// One host call of the trace.
#[derive(Debug, Clone)]
struct Call {
    name: String,
    args: Vec<String>,
    /// what follows the closing parenthesis
    result: String,
    line: String,
}

fn plain(s: &str) -> String {
    // every character is written as \xNN
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b.get(i + 1) == Some(&b'x') && i + 3 < b.len() {
            out.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(b'?'));
            i += 4;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).to_string()
}

fn parse(trace: &str) -> Vec<Call> {
    let mut out = vec![];
    let mut begun: BTreeMap<&str, &str> = BTreeMap::new();
    for l in trace.lines() {
        let Some((thread, l)) = l.split_once(' ') else { continue };
        let l = l.trim_start();
        // a call during which another thread made one
        let joined;
        let l = if let Some(first) = l.strip_suffix("<unfinished ...>") {
            begun.insert(thread, first);
            continue;
        } else if let (true, Some((_, rest))) = (l.starts_with("<... "), l.split_once(" resumed>")) {
            joined = format!("{}{rest}", begun.remove(thread).unwrap_or(""));
            &joined[..]
        } else {
            l
        };
        if l.starts_with('<') || l.starts_with('+') || l.starts_with('-') {
            continue;
        }
        let Some((name, rest)) = l.split_once('(') else { continue };
        let (mut args, mut cur, mut depth, mut quoted) = (vec![], String::new(), 0, false);
        let mut end = rest.len();
        for (i, c) in rest.char_indices() {
            match c {
                '"' => quoted = !quoted,
                _ if quoted => (),
                '(' | '[' | '{' | '<' => depth += 1,
                ')' if depth == 0 => {
                    end = i;
                    break;
                }
                ')' | ']' | '}' | '>' => depth -= 1,
                ',' if depth == 0 => {
                    args.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => (),
            }
            cur.push(c);
        }
        args.push(cur);
        let args: Vec<String> = args.into_iter().map(|a| a.trim().to_string()).collect();
        out.push(Call { name: name.into(), args, result: rest[end..].to_string(), line: plain(l).chars().take(400).collect() });
    }
    out
}

fn num(s: &str) -> u64 {
    let s = s.split('<').next().unwrap_or(s).trim();
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).unwrap_or(u64::MAX),
        None if s.len() > 1 && s.starts_with('0') => u64::from_str_radix(s, 8).unwrap_or(u64::MAX),
        None => s.parse::<i64>().map_or(u64::MAX, |v| v as u64),
    }
}

fn text(s: &str) -> Option<String> {
    Some(plain(s.strip_prefix('"')?.strip_suffix('"')?))
}

/// The file a descriptor stands for, in the tracer's words.
fn behind(s: &str) -> Option<String> {
    let (_, r) = s.split_once('<')?;
    Some(plain(&r[..r.rfind('>')?]))
}

struct Asked {
    /// the guest's requests to open, in order: name, flags, mode
    opens: Vec<(String, u64, u64)>,
    /// names the guest asks about otherwise
    names: BTreeSet<String>,
    /// files of the command line
    given: Vec<String>,
}

const IGNORED: u64 = (libc::O_CLOEXEC | 0x8000) as u64;

fn system(p: &str) -> bool {
    ["/lib", "/usr/", "/etc/ld.so", "/etc/localtime", "/etc/locale", "/proc/", "/sys/", "/dev/"].iter().any(|s| p.starts_with(s)) || p.rsplit('/').next().is_some_and(|f| f.contains(".so"))
}

/// Every call must be accounted for. Returns how many opens and calls there were.
fn judge(calls: &[Call], asked: &Asked, d: &Path, bin: &str) -> Result<(u64, u64), (String, String)> {
    let start = calls.iter().position(|c| c.name == "execve" && c.args.first().and_then(|a| text(a)).as_deref() == Some(bin));
    let Some(start) = start else { return Err(("".into(), "no start in the trace".into())) };
    let mut next = 0;
    let mut written: BTreeSet<String> = BTreeSet::new();
    let here = d.to_str().unwrap();
    let bad = |s: &str, c: &Call| Err((s.to_string(), format!("{}\nguest's requests to open: {:?}; files of the command line: {:?}", c.line, asked.opens, asked.given)));
    let mut opens = 0;
    for c in &calls[start + 1..] {
        let n = c.name.as_str();
        if NEVER.contains(&n) {
            return bad(&format!("a host call nobody asked for: {n}"), c);
        }
        match n {
            "execve" => return bad("a host call nobody asked for: execve", c),
            "clone" | "clone3" => {
                let f = c.args.iter().find_map(|a| a.split_once("flags=")).map(|(_, v)| v.split([',', '}']).next().unwrap_or(""));
                if f.is_none_or(|f| num(f) & libc::CLONE_THREAD as u64 == 0) {
                    return bad("a process nobody asked for", c);
                }
            }
            "tgkill" if num(c.args.last().unwrap()) != libc::SIGABRT as u64 => return bad("a host call nobody asked for: tgkill", c),
            "mmap" if c.args.len() == 6 && num(&c.args[4]) as i32 >= 0 => {
                if num(&c.args[2]) & 2 != 0 && num(&c.args[3]) & 3 == 1 {
                    return bad("a file is mapped for writing", c);
                }
            }
            _ if OPENS.contains(&n) => {
                opens += 1;
                let (name, flags, mode) = match n {
                    "openat" => (text(&c.args[1]), num(&c.args[2]), c.args.get(3).map_or(0, |m| num(m))),
                    "open" => (text(&c.args[0]), num(&c.args[1]), c.args.get(2).map_or(0, |m| num(m))),
                    _ => return bad("a way of opening files nobody asked for", c),
                };
                let Some(name) = name else { return bad("an open without a name", c) };
                let reading = flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) as u64 == 0;
                if let Some((w, f, m)) = asked.opens.get(next) {
                    let creates = f & libc::O_CREAT as u64 != 0;
                    if *w == name && (f ^ flags) & !IGNORED & 0xffff_ffff == 0 && (!creates || *m & 0o7777 == mode & 0o7777) {
                        next += 1;
                        if let Some(p) = behind(&c.result) {
                            written.insert(p);
                        }
                        continue;
                    }
                }
                if reading && (asked.given.contains(&name) || system(&name)) {
                    continue;
                }
                return bad("a file is opened that neither the command line nor the guest asked for in this way", c);
            }
            _ if LOOKS.contains(&n) => {
                let k = !matches!(n, "stat" | "lstat" | "access" | "readlink") as usize;
                let Some(name) = c.args.get(k).and_then(|a| text(a)) else { continue };
                let mine = name.is_empty() || name == "." || system(&name) || asked.given.contains(&name) || asked.names.contains(&name) || here.starts_with(&name);
                // a file of the command line under its full name
                let full = name.strip_prefix(here).is_some_and(|r| asked.given.contains(&r.trim_start_matches('/').to_string()));
                if !mine && !full && !name.ends_with(".so") {
                    return bad("a look at a file neither the command line nor the guest asked for", c);
                }
            }
            _ if WRITES.contains(&n) => {
                let k = matches!(n, "splice" | "copy_file_range" | "tee") as usize * if n == "tee" { 1 } else { 2 };
                let to = &c.args[k.min(c.args.len() - 1)];
                if num(to) > 2 && num(to) < i32::MAX as u64 && !behind(to).is_some_and(|p| written.contains(&p)) {
                    return bad("something is written to a file the guest did not open", c);
                }
            }
            _ => (),
        }
    }
    if next < asked.opens.len() {
        return Err(("a request to open did not reach the host as it was made".into(), format!("{:?}", asked.opens[next])));
    }
    Ok((opens, (calls.len() - start) as u64))
}

fn trace(d: &Path, args: &[String], env: &[(String, String)]) -> (Run, Vec<Call>) {
    let logs = proc::dir("trace");
    let to = logs.join("trace");
    let mut what = String::from("trace=");
    for n in OPENS.iter().chain(LOOKS).chain(WRITES).chain(NEVER).chain(OTHERS) {
        what += &format!("?{n},");
    }
    let mut c = Command::new(proc::self_bin());
    c.arg("launch").arg("/usr/bin/strace").args(["-f", "-y", "-xx", "-X", "raw", "-qq", "-s", "0", "--kill-on-exit", "-e"]).arg(what.trim_end_matches(','));
    c.arg("-o").arg(&to).arg("--").arg(proc::bin()).args(args);
    let how = Disturb { env: env.to_vec(), pauses: vec![] };
    let run = proc::run_with(&mut c, d, Input::Null, proc::SECOND, &mut |_| false, &how);
    let t = std::fs::read(&to).unwrap_or_default();
    proc::remove(&logs);
    (run, parse(&String::from_utf8_lossy(&t)))
}

/// Files nobody speaks of.
const DECOYS: &[&str] = &[
    "carron.log", ".carronrc", "carron.toml", "config", "log", "log.txt", "trace.log", "kernel", "Image", "vmlinux", "pk", "bbl", "initrd", "rootfs.cpio", "a.out", "core", "tohost", "uart.log",
    "fw_jump.bin", "carron.dtb", "system.dts", "mem.bin",
];

fn furnish(d: &Path, r: &mut Rng) -> Vec<&'static str> {
    let mut out = vec![];
    std::fs::create_dir_all(d.join("sub")).unwrap();
    proc::own(&d.join("sub"));
    let n = r.range(2, 8);
    for _ in 0..n {
        let n = r.pick(DECOYS);
        proc::put(d, n, &(0..r.below(200)).map(|_| r.u64() as u8).collect::<Vec<u8>>());
    }
    for n in ["data.txt", "ro.txt", "sub/inner", "one", "two"] {
        let p = proc::put(d, n, &(0..r.below(600)).map(|_| r.u64() as u8).collect::<Vec<u8>>());
        if n == "ro.txt" {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444)).unwrap();
        }
        out.push(n);
    }
    out
}

/// Long ago, so that any change shows.
fn age(d: &Path) {
    for n in tree(d).keys() {
        let c = std::ffi::CString::new(d.join(n).to_str().unwrap()).unwrap();
        let t = libc::timespec { tv_sec: 1_000_000_007, tv_nsec: 123_456_789 };
        unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    }
}

fn surroundings(d: &Path, r: &mut Rng) -> Vec<(String, String)> {
    let here = d.to_str().unwrap().to_string();
    [("HOME", here.clone()), ("TMPDIR", here.clone()), ("PATH", "/usr/bin:/bin".into()), ("RUST_LOG", "trace".into()), ("CARRON_LOG", "carron.log".into()), ("XDG_CONFIG_HOME", here), ("PAGER", "less".into()), ("LANG", "C.UTF-8".into())]
        .into_iter()
        .filter(|_| r.bool())
        .map(|(k, v)| (k.to_string(), v))
        .collect()
}

/// Finishes a trial: the run, its trace and the files afterwards.
fn finish(cx: &mut Ctx, d: PathBuf, args: &[String], asked: &Asked, open_to_change: &BTreeSet<String>, story: &str) -> Result<Option<Run>, Violation> {
    age(&d);
    let env = surroundings(&d, &mut cx.rng);
    let before = tree(&d);
    let (run, calls) = trace(&d, args, &env);
    let after = tree(&d);
    proc::remove(&d);
    let tell = |x: &str| format!("carron {args:?}\n{story}\n{}\n{x}", run.ending());
    if run.timed_out {
        cx.st.inconclusive("deadline");
        return Ok(None);
    }
    let (opens, n) = match judge(&calls, asked, &d, proc::bin().to_str().unwrap()) {
        Ok(x) => x,
        Err((s, _)) if s.is_empty() => {
            cx.st.inconclusive("no trace");
            cx.st.name(format!("no trace: {}", run.err_text().chars().take(100).collect::<String>()));
            return Ok(None);
        }
        Err((s, x)) => return violation(s, tell(&x)),
    };
    for (name, e) in &before {
        let a = after.get(name);
        let may = open_to_change.contains(name);
        let same = match a {
            None => false,
            Some(a) if may => (a.0, a.1) == (e.0, e.1),
            Some(a) => a == e,
        };
        if !same {
            let show = |e: &Entry| format!("{} mode {:o} time {}.{:09} {} bytes", e.0, e.1, e.2, e.3, e.4.len());
            return violation("a file changed that nobody asked to change", tell(&format!("{name}: {} before, {} after", show(e), a.map_or("gone".into(), show))));
        }
    }
    if let Some(name) = after.keys().find(|n| !before.contains_key(*n) && !open_to_change.contains(*n)) {
        return violation("a file appeared that nobody asked for", tell(name));
    }
    cx.st.add("host calls accounted for", n);
    cx.st.add("opens accounted for", opens);
    cx.st.add("files compared before and after", before.len() as u64);
    Ok(Some(run))
}

/// Programs that work on files, with whatever else the command line can name.
fn runs(cx: &mut Ctx) -> Result<(), Violation> {
    let mut p = Prog::new(&mut cx.rng);
    p.start(&mut cx.rng);
    let d = proc::dir("touch");
    let files = furnish(&d, &mut cx.rng);
    let mut asked = Asked { opens: vec![], names: BTreeSet::new(), given: vec![] };
    let mut change = BTreeSet::new();
    let mut what = vec![];
    let r = &mut cx.rng;
    let calls = r.below(24);
    for _ in 0..calls {
        let fd = if r.bool() { r.below(8) } else { 3 + r.below(asked.opens.len() as u64 + 1) };
        let n = if r.chance(1, 12) { r.below(9000) } else { r.below(60) };
        let buf = p.alloc(n.max(1), 8);
        let o = if r.chance(1, 6) { r.below(200_000) } else { r.below(400) };
        match r.below(9) {
            0..=3 => {
                let base = match r.below(6) {
                    0 => format!("new{}", r.below(9)),
                    1 => format!("sub/new {}", r.below(9)),
                    2 => "absent/x".to_string(),
                    _ => r.pick(&files).to_string(),
                };
                let name = match r.below(6) {
                    0 => format!("{}/{base}", d.to_str().unwrap()),
                    1 => format!("./{base}"),
                    2 => format!("sub/../{base}"),
                    _ => base.clone(),
                };
                let mut flags = r.pick(&[libc::O_RDONLY, libc::O_RDONLY, libc::O_WRONLY, libc::O_RDWR]);
                for f in [libc::O_CREAT, libc::O_TRUNC, libc::O_APPEND, libc::O_EXCL, libc::O_NOFOLLOW, libc::O_NONBLOCK, libc::O_CLOEXEC, libc::O_SYNC] {
                    if r.chance(1, 4) {
                        flags |= f;
                    }
                }
                if flags & libc::O_CREAT == 0 {
                    flags &= !libc::O_EXCL;
                }
                if flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != 0 {
                    change.insert(base.clone());
                }
                let mode = r.pick(&[0o600u64, 0o644, 0o640, 0o400]);
                let at = p.alloc(name.len() as u64 + 1, 1);
                p.fill(at, name.as_bytes());
                p.request(r, 56, &[-100i64 as u64, at, name.len() as u64 + 1, flags as u64, mode]);
                what.push(format!("openat({name:?}, {flags:#x}, {mode:o})"));
                asked.opens.push((name.clone(), flags as u64, mode));
                asked.names.insert(name);
            }
            4 => {
                let name = if r.bool() { r.pick(&files).to_string() } else { r.pick(&["absent", ".", "sub"]).to_string() };
                let at = p.alloc(name.len() as u64 + 1, 1);
                p.fill(at, name.as_bytes());
                let buf = p.alloc(128, 8);
                p.request(r, 79, &[-100i64 as u64, at, name.len() as u64 + 1, buf, 0]);
                what.push(format!("fstatat({name:?})"));
                asked.names.insert(name);
            }
            5 => {
                p.request(r, 57, &[fd]);
                what.push(format!("close({fd})"));
            }
            6 => {
                let pw = r.bool();
                // not over the emulator's own output
                let fd = fd.max(3);
                p.request(r, if pw { 68 } else { 64 }, &[fd, buf, n, o]);
                what.push(format!("write({fd}, {n})"));
            }
            7 => {
                let nr = r.pick(&[63, 67, 62]);
                p.request(r, nr, &if nr == 62 { [fd, o, 0, 0] } else { [fd, buf, n, o] });
                what.push(format!("{nr}({fd})"));
            }
            _ => p.say(r),
        }
    }
    let status = p.end(r);
    let (e, _, story) = p.image(r, Symbols::Both);
    let mut args: Vec<String> = vec![];
    let pk = r.chance(1, 4);
    if pk {
        proc::put(&d, "the pk", &e.bytes());
        args.extend(["--pk".into(), "the pk".into(), "program".into()]);
        if r.bool() {
            proc::put(&d, "program", b"not looked at");
        }
        asked.given.push("the pk".into());
    } else {
        proc::put(&d, "prog.elf", &e.bytes());
        args.push("prog.elf".into());
        asked.given.push("prog.elf".into());
    }
    // words for the guest; some are names of files
    for _ in 0..r.below(4) {
        args.push(r.pick(&["one", "two", "data.txt", "--x", "sub/inner", "/etc/passwd", "kernel"]).trim_start_matches('-').to_string());
    }
    let mut options = vec![];
    for (o, f) in [("--kernel", "given kernel"), ("--initrd", "given initrd")] {
        if r.chance(1, 4) && !(o == "--kernel" && story.contains("quiet")) {
            proc::put(&d, f, &[0x55; 300]);
            options.extend([o.to_string(), f.to_string()]);
            asked.given.push(f.into());
        }
    }
    // 200 and 300 bytes into the program's own memory would hurt: only where nothing of it is
    if p_overlaps(&e, &options) {
        options.clear();
        asked.given.truncate(1);
    }
    if r.chance(1, 5) {
        options.extend(["--loglv".to_string(), r.pick(&["info", "diff", "nolog"]).to_string()]);
    }
    for o in options.into_iter().rev() {
        args.insert(0, o);
    }
    let story = format!("{story}; {}", what.join("; "));
    let opened = asked.opens.len() as u64;
    let Some(run) = finish(cx, d, &args, &asked, &change, &story)? else { return Ok(()) };
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped on a valid program", format!("{story}: {c}"));
    }
    if run.code != Some(status as i32) {
        return violation("exit status", format!("{args:?} {story}: {}", run.ending()));
    }
    cx.st.case(Some(mix(calls, mix(opened, mix(args.len() as u64, status as u64)))));
    cx.st.count("runs traced");
    if args.iter().any(|a| a == "--kernel" || a == "--initrd") {
        cx.st.count("runs with a kernel or an initrd");
    }
    if pk {
        cx.st.count("runs with --pk");
    }
    cx.st.sample(|| format!("carron {args:?}: {}", what.join("; ")));
    Ok(())
}

fn p_overlaps(e: &Elf, options: &[String]) -> bool {
    let base = e.segs.iter().map(|s| s.paddr).min().unwrap();
    let k = base + if e.rv64 { 0x20_0000 } else { 0x40_0000 };
    let near = |a: u64, n: u64, lo: u64, hi: u64| a < hi && a + n > lo;
    let top = base + (2 << 30) - 0x2000;
    let words: Vec<(u64, u64)> = e.segs.iter().map(|s| (s.paddr, s.data.len() as u64)).chain(e.syms.iter().map(|s| (s.1, 8))).collect();
    !options.is_empty() && words.iter().any(|(a, n)| near(*a, *n, k, k + 0x1000) || near(*a, *n, top, top + 0x2000))
}

/// Looks at files, and command lines that fail.
fn looks(cx: &mut Ctx) -> Result<(), Violation> {
    let mut p = Prog::new(&mut cx.rng);
    p.start(&mut cx.rng);
    p.say(&mut cx.rng);
    p.end(&mut cx.rng);
    let r = &mut cx.rng;
    let (e, _, _) = p.image(r, Symbols::Both);
    let d = proc::dir("touch");
    furnish(&d, r);
    let mut asked = Asked { opens: vec![], names: BTreeSet::new(), given: vec!["prog.elf".into()] };
    let mut image = e.bytes();
    let mut args: Vec<String> = vec![];
    let k = r.below(8);
    match k {
        0..=4 => args.push(r.pick(&["-e", "-p", "-s", "-d", "-a", "--all", "--section"]).to_string()),
        5 => image[r.below(4) as usize] ^= 0x20,
        6 => {
            let o = r.pick(&["--kernel", "--initrd", "--pk"]);
            args.extend([o.to_string(), "missing".into()]);
            asked.given.push("missing".into());
        }
        _ => args.push(r.pick(&["--help", "--version", "--bogus", "--pc=zz"]).to_string()),
    }
    let missing = r.chance(1, 10);
    if !missing {
        proc::put(&d, "prog.elf", &image);
    }
    args.push("prog.elf".into());
    if r.chance(1, 4) {
        args.push("data.txt".into());
    }
    let Some(run) = finish(cx, d, &args, &asked, &BTreeSet::new(), "nothing is to run")? else { return Ok(()) };
    if k <= 4 && !missing && run.code != Some(0) {
        return violation("asked for a look, the emulator fails", format!("{args:?}: {} {}", run.ending(), run.err_text()));
    }
    cx.st.case(Some(mix(k, mix(missing as u64, args.iter().map(|a| a.len() as u64).fold(0, mix)))));
    cx.st.count(if k <= 4 && !missing { "looks traced" } else { "failing starts traced" });
    Ok(())
}

pub fn c33() -> Check {
    Check {
        id: "C33",
        gens: vec![
            Gen { name: "programs that work on files, by the host calls they cause", weight: 4, run: runs },
            Gen { name: "looks and failing starts", weight: 1, run: looks },
        ],
        quick: 5000,
        thorough: 150_000,
        rule: "one run of the binary under a tracer of system calls, in a directory of files nobody speaks of, every open, look, write, mapping and process accounted for, and all files compared before and after; distinct by number of requests, opens, arguments and status",
        assumptions: &[
            "strace reports the calls; the loader and the Rust runtime may read system files (/lib, /usr, /proc, /sys, /etc/ld.so*, /etc/localtime)",
            "what each proxied call does is compared in C23: here only that nothing else happens",
        ],
        must: &["runs traced", "looks traced", "failing starts traced", "host calls accounted for", "opens accounted for", "files compared before and after", "runs with --pk", "runs with a kernel or an initrd"],
    }
}
