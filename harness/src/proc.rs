//! Runs the emulator binary itself, as an unprivileged user inside a scratch directory.

use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const NOBODY: u32 = 65534;

pub struct Run {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// still running at the deadline, and ended by the monitor
    pub timed_out: bool,
    /// ended because `enough` said so
    pub stopped: bool,
}

impl Run {
    pub fn ending(&self) -> String {
        match (self.code, self.signal, self.timed_out, self.stopped) {
            (_, _, true, _) => "still running at the deadline".into(),
            (_, _, _, true) => "stopped by the monitor".into(),
            (Some(c), ..) => format!("exit status {c}"),
            (_, Some(s), ..) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    pub fn err_text(&self) -> String {
        let s = String::from_utf8_lossy(&self.err);
        s.chars().take(600).collect()
    }
    /// stdout after the emulator's own greeting
    pub fn guest_out(&self) -> Option<&[u8]> {
        let mark = b"elfcheck: OK\n\n";
        let p = self.out.windows(mark.len()).position(|w| w == mark)?;
        Some(&self.out[p + mark.len()..])
    }
}

/// A directory of its own for one trial; the unprivileged user may write there.
pub fn dir(tag: &str) -> PathBuf {
    let p = crate::emu::temp_path(tag);
    std::fs::create_dir_all(&p).unwrap();
    own(&p);
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o777)).unwrap();
    p
}

pub fn own(p: &Path) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) };
}

pub fn remove(p: &Path) {
    assert!(p.starts_with(crate::report::scratch()));
    let _ = std::fs::remove_dir_all(p);
}

static BIN: OnceLock<PathBuf> = OnceLock::new();

fn copy_bin(from: &Path, name: &str) -> PathBuf {
    let to = crate::report::scratch().join(name);
    std::fs::copy(from, &to).expect("emulator binary");
    std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).unwrap();
    to
}

pub fn bin() -> &'static Path {
    BIN.get_or_init(|| {
        let b = std::env::var("CARRON_BIN").unwrap_or("/verif/harness/target/debug/carron".into());
        copy_bin(Path::new(&b), "carron")
    })
}

static DIFFLOG: OnceLock<Option<PathBuf>> = OnceLock::new();

/// The program of difflog.rs, when it could be built.
pub fn difflog() -> Option<&'static Path> {
    DIFFLOG
        .get_or_init(|| {
            let b = PathBuf::from(std::env::var("DIFFLOG_BIN").ok()?);
            b.exists().then(|| copy_bin(&b, "difflog"))
        })
        .as_deref()
}

thread_local! {
    static TSAN: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) };
}
static TSAN_BIN: OnceLock<PathBuf> = OnceLock::new();

/// From now on this thread runs the emulator built with ThreadSanitizer, which reports into that directory.
pub fn tsan(reports: Option<&Path>) {
    TSAN_BIN.get_or_init(|| copy_bin(Path::new(&std::env::var("CARRON_TSAN_BIN").expect("CARRON_TSAN_BIN")), "carron-tsan"));
    TSAN.with(|t| *t.borrow_mut() = reports.map(|p| p.to_path_buf()));
}

static SELF: OnceLock<PathBuf> = OnceLock::new();
pub fn self_bin() -> &'static Path {
    SELF.get_or_init(|| copy_bin(&std::env::current_exe().unwrap(), "monitor"))
}

/// `monitor launch PROGRAM ARGS...`: becomes PROGRAM as nobody, ended together with the monitor,
/// with nothing large left behind. (A program of its own because forking a process with this many
/// emulated memories is refused.)
pub fn launch(args: &[String]) -> ! {
    unsafe {
        if libc::getuid() == 0 {
            assert_eq!(libc::setgroups(0, std::ptr::null()), 0);
            assert_eq!(libc::setgid(NOBODY), 0);
            assert_eq!(libc::setuid(NOBODY), 0);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        libc::prctl(libc::PR_SET_THP_DISABLE, 1, 0, 0, 0);
        let lim = |r, n| {
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(r, &l);
        };
        lim(libc::RLIMIT_CORE, 0);
        lim(libc::RLIMIT_FSIZE, 256 << 20);
    }
    let e = Command::new(&args[0]).args(&args[1..]).exec();
    eprintln!("launch: {e}");
    std::process::exit(126)
}

pub enum Input<'a> {
    Null,
    /// written at once, then closed
    All(&'a [u8]),
    /// chunks with pauses before them (ms); kept open afterwards
    Chunks(Vec<(u64, Vec<u8>)>),
    /// each once that much output has appeared; kept open afterwards
    Answers(Vec<(u64, Vec<u8>)>),
}

fn out_file(dir: &Path, name: &str) -> std::fs::File {
    std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(dir.join(name))
        .unwrap()
}

/// Runs `bin args` until it ends, the deadline passes, or `enough(stdout so far)`.
pub fn run_bin(
    bin: &Path,
    dir: &Path,
    args: &[&str],
    input: Input,
    timeout: Duration,
    mut enough: impl FnMut(&[u8]) -> bool,
) -> Run {
    run_with(Command::new(self_bin()).arg("launch").arg(bin).args(args), dir, input, timeout, &mut enough, &Disturb::default())
}

/// What the run must not depend on.
#[derive(Default, Clone, Debug)]
pub struct Disturb {
    pub env: Vec<(String, String)>,
    /// how long it runs and is stopped for, in ms
    pub pauses: Vec<(u64, u64)>,
}

pub fn run_disturbed(bin: &Path, dir: &Path, args: &[&str], input: Input, timeout: Duration, how: &Disturb) -> Run {
    run_with(Command::new(self_bin()).arg("launch").arg(bin).args(args), dir, input, timeout, &mut |_| false, how)
}

/// The environment is the one given in `how`.
pub fn run_with(
    c: &mut Command,
    dir: &Path,
    input: Input,
    timeout: Duration,
    enough: &mut dyn FnMut(&[u8]) -> bool,
    how: &Disturb,
) -> Run {
    crate::report::beat();
    // outside the trial's directory, so that the guest cannot see them
    let logs = crate::emu::temp_path("logs");
    std::fs::create_dir_all(&logs).unwrap();
    let mut fo = out_file(&logs, "out");
    let mut fe = out_file(&logs, "err");
    c.current_dir(dir).env_clear().env("RUST_BACKTRACE", "0").envs(how.env.iter().cloned());
    c.stdout(fo.try_clone().unwrap()).stderr(fe.try_clone().unwrap());
    match input {
        Input::Null => c.stdin(Stdio::null()),
        _ => c.stdin(Stdio::piped()),
    };
    let mut child: Child = c.spawn().expect("spawn");
    let stdin = child.stdin.take();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut r = Run {
        out: vec![],
        err: vec![],
        code: None,
        signal: None,
        timed_out: false,
        stopped: false,
    };
    std::thread::scope(|s| {
        let stop = &stop;
        if let Some(mut i) = stdin {
            match input {
                Input::All(b) => {
                    s.spawn(move || {
                        let _ = i.write_all(b);
                    });
                }
                Input::Chunks(cs) => {
                    s.spawn(move || {
                        for (ms, b) in cs {
                            std::thread::sleep(Duration::from_millis(ms));
                            if i.write_all(&b).is_err() || i.flush().is_err() {
                                return;
                            }
                        }
                        while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                            std::thread::sleep(Duration::from_millis(5));
                        }
                    });
                }
                Input::Answers(cs) => {
                    let seen = fo.try_clone().unwrap();
                    s.spawn(move || {
                        let gone = || stop.load(std::sync::atomic::Ordering::Relaxed);
                        for (n, b) in cs {
                            while seen.metadata().map_or(0, |m| m.len()) < n {
                                if gone() {
                                    return;
                                }
                                std::thread::sleep(Duration::from_millis(1));
                            }
                            if i.write_all(&b).is_err() || i.flush().is_err() {
                                return;
                            }
                        }
                        while !gone() {
                            std::thread::sleep(Duration::from_millis(5));
                        }
                    });
                }
                Input::Null => (),
            }
        }
        let start = Instant::now();
        let mut nap = 1;
        for (run, halt) in &how.pauses {
            std::thread::sleep(Duration::from_millis(*run));
            if child.try_wait().unwrap().is_some() {
                break;
            }
            unsafe { libc::kill(child.id() as i32, libc::SIGSTOP) };
            std::thread::sleep(Duration::from_millis(*halt));
            unsafe { libc::kill(child.id() as i32, libc::SIGCONT) };
        }
        loop {
            if let Some(st) = child.try_wait().unwrap() {
                r.code = st.code();
                r.signal = st.signal();
                break;
            }
            if start.elapsed() > timeout {
                r.timed_out = true;
            } else {
                let mut b = vec![];
                // a reader of its own: the offset of fo is shared with the child
                if let Ok(mut f) = std::fs::File::open(logs.join("out")) {
                    let _ = f.read_to_end(&mut b);
                }
                r.stopped = enough(&b);
            }
            if r.timed_out || r.stopped {
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap + 1).min(20);
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    for (f, b) in [(&mut fo, &mut r.out), (&mut fe, &mut r.err)] {
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.read_to_end(b);
    }
    remove(&logs);
    crate::report::beat();
    r
}

pub const FIRST: Duration = Duration::from_secs(20);
pub const SECOND: Duration = Duration::from_secs(60);

/// The emulator with these arguments; a second, longer try when the first does not end.
pub fn carron(dir: &Path, args: &[&str], mut input: impl FnMut() -> Input<'static>) -> Run {
    if let Some(reports) = TSAN.with(|t| t.borrow().clone()) {
        let options = format!("log_path={}/tsan:exitcode=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0", reports.to_str().unwrap());
        let how = Disturb { env: vec![("TSAN_OPTIONS".into(), options)], pauses: vec![] };
        return run_disturbed(TSAN_BIN.get().unwrap(), dir, args, input(), SECOND, &how);
    }
    let r = run_bin(bin(), dir, args, input(), FIRST, |_| false);
    if !r.timed_out {
        return r;
    }
    run_bin(bin(), dir, args, input(), SECOND, |_| false)
}

/// Writes a file the unprivileged user can read.
pub fn put(dir: &Path, name: &str, b: &[u8]) -> PathBuf {
    let p = dir.join(name);
    std::fs::write(&p, b).unwrap();
    own(&p);
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o666)).unwrap();
    p
}
