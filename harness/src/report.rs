//! Running trials on all cores, collecting what was observed, and reporting it.

use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Violation {
    /// what fails, without the accidental details: identifies known findings
    pub sig: String,
    pub detail: String,
}

pub fn violation<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub named: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
}

const DISTINCT_CAP: usize = 3_000_000;

impl Stats {
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn name(&mut self, k: String) {
        *self.named.entry(k).or_insert(0) += 1;
    }
    /// One evaluated case; `key` identifies it among the non-trivial ones.
    pub fn case(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(k);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s: String = f().chars().take(600).collect();
            self.samples.push(s);
        }
    }
    /// Something that could not be decided; never a violation.
    pub fn inconclusive(&mut self, what: &str) {
        *self.notes.entry(what.to_string()).or_insert(0) += 1;
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub st: Stats,
    pub thorough: bool,
    pub rigs: HashMap<(bool, u64), crate::lock::Rig>,
    pub solo: HashMap<(bool, u64), crate::emu::Emu>,
    pub pairs: HashMap<(bool, u64), (crate::emu::Emu, crate::emu::Emu)>,
    pub child_names: HashMap<String, &'static str>,
    pub verbose: bool,
    pub worker: u64,
    pub trial: u64,
}

impl Ctx {
    /// A machine pair with this configuration; give it back with put().
    pub fn rig(&mut self, rv64: bool, base: u64) -> crate::lock::Rig {
        let mut rig =
            self.rigs.remove(&(rv64, base)).unwrap_or_else(|| crate::lock::Rig::new(rv64, base));
        rig.verbose = self.verbose;
        rig
    }
    pub fn put(&mut self, mut rig: crate::lock::Rig) {
        rig.flush_stats(&mut self.st);
        self.rigs.insert((rig.m.rv64, rig.m.mem.base), rig);
    }
    /// The number of this trial over all workers.
    pub fn index(&self) -> u64 {
        self.trial * 8 + self.worker
    }
}

pub type Trial = fn(&mut Ctx) -> Result<(), Violation>;

pub struct Gen {
    pub name: &'static str,
    pub weight: u64,
    pub run: Trial,
}

pub struct Check {
    pub id: &'static str,
    pub gens: Vec<Gen>,
    /// trials over all workers
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must not be zero for the run to count
    pub must: &'static [&'static str],
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()))
}

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

/// A directory of this process, removed at its end.
pub fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| {
        let p = std::env::temp_dir().join(format!("carron-monitor-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o777)).unwrap();
        p
    })
}

pub fn cleanup() {
    if let Some(p) = SCRATCH.get() {
        assert!(p.to_str().unwrap().contains("carron-monitor-"));
        let _ = std::fs::remove_dir_all(p);
    }
}

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();

/// Keeps the real stdout for the monitor and points fd 0 and 1 at /dev/null, because the emulated
/// UART uses them.
pub fn take_stdio() {
    use std::os::fd::FromRawFd;
    unsafe {
        let saved = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        assert!(saved >= 0);
        OUT.get_or_init(|| Mutex::new(std::fs::File::from_raw_fd(saved)));
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        libc::close(null);
        // one huge page per touched byte of the 2 GiB of emulated memory would be too much
        libc::prctl(libc::PR_SET_THP_DISABLE, 1, 0, 0, 0);
    }
}

pub fn say(s: &str) {
    match OUT.get() {
        Some(o) => {
            let mut o = o.lock().unwrap();
            let _ = writeln!(o, "{s}");
        }
        None => println!("{s}"),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn is_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn id_hash(id: &str) -> u64 {
    id.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn trial_seed(id: &str, seed: u64, worker: u64, n: u64) -> u64 {
    mix(mix(seed, id_hash(id)), worker << 40 | n)
}

/// One trial, as a function of its seed and of what the worker's machines went through before.
fn run_trial(check: &Check, cx: &mut Ctx, seed: u64, n: u64) -> (usize, Result<(), Violation>) {
    cx.rng = Rng::new(trial_seed(check.id, seed, cx.worker, n));
    cx.trial = n;
    let total: u64 = check.gens.iter().map(|g| g.weight).sum();
    let mut k = cx.rng.below(total);
    let mut gi = 0;
    while k >= check.gens[gi].weight {
        k -= check.gens[gi].weight;
        gi += 1;
    }
    let run = check.gens[gi].run;
    match crate::emu::guarded(|| run(cx)) {
        Ok(r) => (gi, r),
        Err(m) => {
            // a panic of the emulator where no step was being executed, or of the monitor itself
            let at = m.rsplit(" at ").next().unwrap_or("").to_string();
            // memory of the machine that refuses an access of the monitor's own
            if m.contains("`Err` value: (") && m.contains("AccessFault") {
                return (gi, violation("the machine's memory does not answer", m));
            }
            assert!(!at.starts_with("src/"), "the monitor failed: {m}");
            (gi, violation("the emulator panicked outside a step", m))
        }
    }
}

fn new_ctx(worker: u64, thorough: bool) -> Ctx {
    Ctx {
        rng: Rng::new(0),
        st: Stats::default(),
        thorough,
        rigs: HashMap::new(),
        solo: HashMap::new(),
        pairs: HashMap::new(),
        child_names: HashMap::new(),
        verbose: false,
        worker,
        trial: 0,
    }
}

/// Compares all memory the emulators touched with the models.
fn sweep(cx: &mut Ctx) -> Result<(), Violation> {
    let keys: Vec<_> = cx.rigs.keys().copied().collect();
    for k in keys {
        let n = cx.rigs.get_mut(&k).unwrap().sweep()?;
        cx.st.add("pages swept for stray writes", n);
    }
    Ok(())
}

pub struct Known {
    pub property: String,
    pub sig: String,
}

/// known_findings.txt: "known: property=<id> sig=<signature>" lines are findings recorded
/// rather than repaired; "fixed: ..." lines are history and suppress nothing.
pub fn known_findings() -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else {
        return vec![];
    };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, s) = l.split_once(" sig=")?;
            Some(Known { property: p.trim().into(), sig: s.trim().into() })
        })
        .collect()
}

const WORKERS: usize = 8;
/// a trial (or a process it runs) that takes longer than this never ends
const HUNG: u64 = 150;
static BEATS: [AtomicU64; WORKERS] = [const { AtomicU64::new(0) }; WORKERS];
static CURRENT: [AtomicU64; WORKERS] = [const { AtomicU64::new(u64::MAX) }; WORKERS];
static EPOCH: OnceLock<Instant> = OnceLock::new();
thread_local! {
    static ME: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// The current trial is getting on.
pub fn beat() {
    if let Some(w) = ME.with(|m| m.get()) {
        let now = EPOCH.get_or_init(Instant::now).elapsed().as_secs();
        BEATS[w].store(now, Ordering::Relaxed);
    }
}

/// Ends the run when a step of the emulator never returns.
fn watch_for_hangs(check: &Check, seed: u64, thorough: bool) {
    let now = EPOCH.get_or_init(Instant::now).elapsed().as_secs();
    for w in 0..WORKERS {
        let trial = CURRENT[w].load(Ordering::Relaxed);
        if trial != u64::MAX && now > BEATS[w].load(Ordering::Relaxed) + HUNG {
            let v = Violation {
                sig: "the emulator hangs".into(),
                detail: format!(
                    "trial {trial} of worker {w} has been running for over {HUNG} s; such a trial takes milliseconds: a step of the emulator does not return"
                ),
            };
            let f = Found { v, gen: 0, worker: w as u64, trial };
            let path = write_replay(check, &f, seed, thorough);
            say(&format!("--- {}\n{}", f.v.sig, f.v.detail));
            say(&format!("VIOLATION property={} replay={}", check.id, path.display()));
            cleanup();
            std::process::exit(1);
        }
    }
}

struct Leaving<'a>(&'a AtomicU64);
impl Drop for Leaving<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::Relaxed);
    }
}

struct Found {
    v: Violation,
    gen: usize,
    worker: u64,
    trial: u64,
}

pub fn run_check(check: &Check) -> i32 {
    let start = Instant::now();
    let thorough = is_thorough();
    let seed = seed();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { check.thorough } else { check.quick }) as f64 * scale) as u64;
    let cap = Duration::from_secs(
        std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough {
            780
        } else {
            120
        }),
    );
    let workers = 8u64;
    let stop = AtomicBool::new(false);
    // when the first violation was found (s, from 1): the run ends soon after
    let first_found = AtomicU64::new(0);
    let known = known_findings();
    let capped = AtomicU64::new(0);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    let trials_done = AtomicU64::new(0);
    let per_gen: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let running = AtomicU64::new(workers);
    std::thread::scope(|s| {
        let running = &running;
        s.spawn(move || {
            while running.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                watch_for_hangs(check, seed, thorough);
            }
        });
        for w in 0..workers {
            let (stop, capped, found, all, trials_done, per_gen) =
                (&stop, &capped, &found, &all, &trials_done, &per_gen);
            let (first_found, known) = (&first_found, &known);
            s.spawn(move || {
                ME.with(|m| m.set(Some(w as usize)));
                let guard = Leaving(running);
                let mut cx = new_ctx(w, thorough);
                let mut gens = vec![0u64; check.gens.len()];
                let share = (total + workers - 1 - w) / workers;
                for n in 0..share {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let since = first_found.load(Ordering::Relaxed);
                    if since != 0 && start.elapsed().as_secs() > since + 15 {
                        break;
                    }
                    if start.elapsed() > cap {
                        capped.fetch_add(1, Ordering::Relaxed);
                        break;
                    }
                    beat();
                    CURRENT[w as usize].store(n, Ordering::Relaxed);
                    let (gi, r) = run_trial(check, &mut cx, seed, n);
                    gens[gi] += 1;
                    trials_done.fetch_add(1, Ordering::Relaxed);
                    let r = match r {
                        Ok(()) if n + 1 == share || n % 4096 == 4095 => sweep(&mut cx),
                        r => r,
                    };
                    if let Err(v) = r {
                        // what the machine went through no longer matches the model
                        cx.rigs.clear();
                        let mut f = found.lock().unwrap();
                        if !known.iter().any(|k| k.property == check.id && k.sig == v.sig) {
                            let now = start.elapsed().as_secs() + 1;
                            let _ = first_found.compare_exchange(0, now, Ordering::Relaxed, Ordering::Relaxed);
                        }
                        f.push(Found { v, gen: gi, worker: w, trial: n });
                        let sigs: HashSet<_> = f.iter().map(|f| f.v.sig.clone()).collect();
                        if sigs.len() >= 8 || f.len() >= 200 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                CURRENT[w as usize].store(u64::MAX, Ordering::Relaxed);
                drop(guard);
                let mut a = all.lock().unwrap();
                a.evals += cx.st.evals;
                for (k, v) in cx.st.counters {
                    *a.counters.entry(k).or_insert(0) += v;
                }
                for (k, v) in cx.st.named {
                    *a.named.entry(k).or_insert(0) += v;
                }
                for (k, v) in cx.st.notes {
                    *a.notes.entry(k).or_insert(0) += v;
                }
                a.distinct.extend(cx.st.distinct);
                if a.samples.len() < 8 {
                    a.samples.extend(cx.st.samples.into_iter().take(2));
                }
                let mut pg = per_gen.lock().unwrap();
                for (i, n) in gens.into_iter().enumerate() {
                    *pg.entry(check.gens[i].name).or_insert(0) += n;
                }
            });
        }
    });
    let st = all.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let mut seen = HashSet::new();
    let mut bad = 0;
    for f in &found {
        if !seen.insert(f.v.sig.clone()) {
            continue;
        }
        if known.iter().any(|k| k.property == check.id && k.sig == f.v.sig) {
            say(&format!("KNOWN-FINDING: property={} {}", check.id, f.v.sig));
            continue;
        }
        bad += 1;
        let path = write_replay(check, f, seed, thorough);
        say(&format!("--- {}", f.v.sig));
        say(&f.v.detail);
        say(&format!("VIOLATION property={} replay={}", check.id, path.display()));
    }
    let capped = capped.into_inner();
    let done = trials_done.into_inner();
    let mut missing = vec![];
    if bad == 0 {
        for m in check.must {
            if st.counters.get(m).copied().unwrap_or(0) == 0 {
                missing.push(*m);
            }
        }
    }
    write_evidence(check, &st, thorough, seed, done, capped, &per_gen.into_inner().unwrap(), start, bad);
    say(&format!(
        "{}: {} trials, {} cases, {} distinct, {} violations, {:.1} s{}",
        check.id,
        done,
        st.evals,
        st.distinct.len(),
        bad,
        start.elapsed().as_secs_f64(),
        if capped > 0 { " (time cap reached)" } else { "" }
    ));
    if bad > 0 {
        return 1;
    }
    if !missing.is_empty() || st.evals == 0 {
        say(&format!("INCONCLUSIVE: never observed: {missing:?}"));
        return 3;
    }
    0
}

fn write_replay(check: &Check, f: &Found, seed: u64, thorough: bool) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", check.id, seed, f.worker, f.trial));
    let s = format!(
        "{{\"property\": {}, \"generator\": {}, \"seed\": {}, \"worker\": {}, \"trial\": {}, \"thorough\": {},\n \"signature\": {},\n \"how\": {},\n \"detail\": {}}}\n",
        json_str(check.id),
        json_str(check.gens[f.gen].name),
        seed,
        f.worker,
        f.trial,
        thorough,
        json_str(&f.v.sig),
        json_str("run /verif/check.sh replay FILE: runs this trial again against the current /repo (alone, then after the trials that preceded it in its worker)"),
        json_str(&f.v.detail)
    );
    let _ = std::fs::write(&path, s);
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    check: &Check,
    st: &Stats,
    thorough: bool,
    seed: u64,
    trials: u64,
    capped: u64,
    per_gen: &BTreeMap<&'static str, u64>,
    start: Instant,
    bad: u64,
) {
    let map = |m: Vec<(String, u64)>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let samples: Vec<String> = st.samples.iter().map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| json_str(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"trials\": {},\n  \"trials_per_generator\": {},\n  \"observed\": {},\n  \"observed_by_name\": {},\n  \"inconclusive\": {},\n  \"time_cap_reached_by_workers\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        st.evals,
        st.distinct.len(),
        json_str(check.rule),
        trials,
        map(per_gen.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
        map(st.counters.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
        map(st.named.iter().map(|(k, v)| (k.clone(), *v)).collect()),
        map(st.notes.iter().map(|(k, v)| (k.clone(), *v)).collect()),
        capped,
        samples.join(", "),
        assumptions.join(", "),
        start.elapsed().as_secs_f64(),
        bad
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", check.id));
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, dir.join(format!("{}.json", check.id))).unwrap();
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let i = t.find(&format!("\"{k}\": "))? + k.len() + 4;
    let r = &t[i..];
    let e = r.find([',', '\n', '}'])?;
    Some(r[..e].trim_matches('"'))
}

/// Runs the trial of a replay file again.
pub fn replay(path: &str, checks: &[Check]) -> i32 {
    let t = std::fs::read_to_string(path).or_else(|_| std::fs::read_to_string(verif_dir().join(path))).unwrap();
    let get = |k: &str| field(&t, k).unwrap_or_else(|| panic!("no {k} in {path}"));
    let check = checks.iter().find(|c| c.id == get("property")).expect("unknown property");
    let (seed, worker, trial): (u64, u64, u64) = (
        get("seed").parse().unwrap(),
        get("worker").parse().unwrap(),
        get("trial").parse().unwrap(),
    );
    let thorough = get("thorough") == "true";
    for first in [trial, 0] {
        let mut cx = new_ctx(worker, thorough);
        for n in first..=trial {
            cx.verbose = n == trial;
            let (_, r) = run_trial(check, &mut cx, seed, n);
            let r = r.and_then(|_| if n == trial { sweep(&mut cx) } else { Ok(()) });
            if let Err(v) = r {
                if n < trial {
                    cx.rigs.clear();
                    continue;
                }
                say(&format!("--- {}\n{}", v.sig, v.detail));
                say(&format!("VIOLATION property={} replay={path}", check.id));
                return 1;
            }
        }
        say(if first == trial { "not reproduced alone" } else { "not reproduced" });
        if trial == 0 {
            break;
        }
    }
    0
}
