//! C23 and C24: requests to the host system-call proxy.

use crate::proc::{self, Input};
use crate::report::*;
use std::process::Command;
use std::time::Duration;

/// Runs `monitor KIND ARGS` as the unprivileged user in a directory of its own and takes over
/// what it reports.
pub(super) fn child(cx: &mut Ctx, kind: &str, args: &[String]) -> Result<(), Violation> {
    child_of(cx, proc::self_bin(), kind, args)
}

/// What a sanitizer wrote into files of this name in d.
pub(super) fn reports(d: &std::path::Path, prefix: &str) -> String {
    let mut text = String::new();
    for f in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with(prefix) {
            text += &String::from_utf8_lossy(&std::fs::read(f.path()).unwrap_or_default());
        }
    }
    text
}

/// The violation a report of ThreadSanitizer is, if there is one.
pub(super) fn sanitized(tool: &str, text: &str, what: &str) -> Option<Result<(), Violation>> {
    let line = text.lines().find(|l| l.contains("WARNING: "))?;
    let kind = line.split(": ").last().unwrap_or(line).split(" (").next().unwrap_or(line);
    let head: Vec<&str> = text.lines().take(40).collect();
    Some(violation(format!("{tool}: {kind}"), format!("{what}\n{}", head.join("\n"))))
}

pub(super) fn child_of(cx: &mut Ctx, bin: &std::path::Path, kind: &str, args: &[String]) -> Result<(), Violation> {
    let d = proc::dir(kind);
    let mut c = Command::new(proc::self_bin());
    let how = proc::Disturb { env: vec![("TSAN_OPTIONS".into(), "log_path=tsan:exitcode=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0".into()), ("ASAN_OPTIONS".into(), "detect_leaks=0:allocator_may_return_null=1:log_path=asan:exitcode=99:quarantine_size_mb=64:detect_stack_use_after_return=0".into())], pauses: vec![] };
    c.arg("launch").arg(bin).arg(kind).args(args);
    let run = proc::run_with(&mut c, &d, Input::Null, Duration::from_secs(60), &mut |_| false, &how);
    let asan = reports(&d, "asan.");
    let races = reports(&d, "tsan.");
    let doing = String::from_utf8_lossy(&std::fs::read(d.join("doing")).unwrap_or_default()).trim().to_string();
    // directories the guest may have made unreadable are removed by root
    proc::remove(&d);
    if let Some(v) = sanitized("ThreadSanitizer", &races, &format!("{kind} {args:?}")) {
        return v;
    }
    let text = String::from_utf8_lossy(&run.out).to_string();
    let mut done = false;
    let mut v = None;
    for l in text.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "case" => cx.st.case(u64::from_str_radix(rest, 16).ok()),
            "count" => {
                let names = &mut cx.child_names;
                let s: &'static str = match names.get(rest) {
                    Some(s) => s,
                    None => {
                        let s: &'static str = Box::leak(rest.to_string().into_boxed_str());
                        names.insert(rest.to_string(), s);
                        s
                    }
                };
                cx.st.count(s);
            }
            "add" => {
                let (n, v) = rest.rsplit_once(' ').unwrap_or((rest, "0"));
                if n == "instructions of programs among others" {
                    cx.st.add("instructions of programs among others", v.parse().unwrap_or(0));
                }
                if n == "host calls looked at" {
                    cx.st.add("buffers and names handed to the kernel looked at", v.parse().unwrap_or(0));
                }
            }
            "name" => cx.st.name(rest.to_string()),
            "sample" => cx.st.sample(|| rest.replace("\\n", "\n")),
            "viol" => {
                let (s, d) = rest.split_once('\t').unwrap_or((rest, ""));
                v = Some((s.to_string(), d.replace("\\n", "\n")));
            }
            "done" => done = true,
            _ => (),
        }
    }
    if let Some((s, d)) = v {
        return violation(s, format!("monitor {kind} {args:?}\n{d}"));
    }
    if !done {
        if run.timed_out {
            cx.st.inconclusive("a child did not end in time");
            cx.st.name(format!("not in time: {kind} {args:?} {}", &doing[..doing.len().min(200)]));
            return Ok(());
        }
        let last: Vec<&str> = text.lines().rev().filter(|l| !l.starts_with("case")).take(3).collect();
        if let Some(what) = asan.lines().find(|l| l.contains("ERROR: ")) {
            let what = what.split("AddressSanitizer: ").last().unwrap_or(what).split(' ').next().unwrap_or(what);
            let head: Vec<&str> = asan.lines().take(30).collect();
            return violation(format!("AddressSanitizer: {what}"), format!("{kind} {args:?}\ndoing: {doing}\nlast reports: {last:?}\n{}", head.join("\n")));
        }
        if run.signal == Some(libc::SIGKILL) {
            cx.st.inconclusive("a child was killed");
            return Ok(());
        }
        return violation(
            format!("the emulator's process ended: {}", run.ending()),
            format!("monitor {kind} {args:?}\nstderr: {}\ndoing: {doing}\nlast reports: {last:?}", run.err_text()),
        );
    }
    Ok(())
}

fn sequences(cx: &mut Ctx) -> Result<(), Violation> {
    let s = cx.rng.u64();
    let n = if cx.thorough { 600 } else { 250 };
    child(cx, "child-syscalls", &[s.to_string(), n.to_string()])
}

fn exhaustion(cx: &mut Ctx) -> Result<(), Violation> {
    let s = cx.rng.u64();
    child(cx, "child-exhaust", &[s.to_string()])
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        gens: vec![
            Gen { name: "call sequences next to the same calls on twin files", weight: 12, run: sequences },
            Gen { name: "running out of host descriptors", weight: 1, run: exhaustion },
            Gen { name: "programs at work on a file, in the binary", weight: 3, run: super::ends::files },
            Gen { name: "programs that close the standard streams, in the binary", weight: 3, run: super::ends::streams },
        ],
        quick: 4000,
        thorough: 30_000,
        rule: "one proxied call whose result, guest memory (both arenas in full), fromhost word and, every 16 calls and at the end, complete file tree were compared with the same call made by the harness on a twin tree; or one whole program at work on a file in the binary; distinct by call, result (capped at 64) and number of open descriptors",
        assumptions: &[
            "the host kernel defines what each call does: the oracle makes the same call on twin files",
            "requests are well-formed: the block and the buffers are inside DRAM, names end with NUL inside the length given, buffers do not overlap the block",
            "descriptor numbers are below 2^32; SEEK_DATA, SEEK_HOLE, O_DIRECT and O_TMPFILE are not used",
            "standard input is the UART's (C20): what a read of descriptor 0 gets of it is left open",
            "which value the emulator writes to fromhost is not checked beyond being nonzero, and unchanged if it was nonzero",
        ],
        must: &["proxied calls compared", "file trees compared", "stat results compared", "opens refused for want of descriptors", "files written by whole programs compared", "programs whose files took the number of a closed standard stream"],
    }
}

pub(super) fn built(what: &str) -> std::path::PathBuf {
    std::env::var(what).expect(what).into()
}

fn hostile(cx: &mut Ctx, kind: &str, n: u64) -> Result<(), Violation> {
    let s = cx.rng.u64();
    child_of(cx, &built("HOSTILE_BIN"), kind, &[s.to_string(), n.to_string()])
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        gens: vec![
            Gen { name: "hostile requests", weight: 8, run: |cx| hostile(cx, "requests", 1500) },
            Gen { name: "accesses at hostile addresses by instructions", weight: 3, run: |cx| hostile(cx, "programs", 400) },
            Gen { name: "images with fields out of place", weight: 2, run: |cx| hostile(cx, "images", 60) },
            Gen { name: "valid call sequences", weight: 2, run: |cx| hostile(cx, "child-syscalls", 100) },
        ],
        quick: 300,
        thorough: 20_000,
        rule: "one request, group of instructions or image, in an emulator compiled with AddressSanitizer whose calls to the host go through functions that look at every byte of the buffer before the kernel gets it; distinct by call, length, page and outcome (requests), code and place (instructions), seed (images)",
        assumptions: &[
            "AddressSanitizer reports the invalid accesses of the code compiled with it and of the memory functions it intercepts; the standard library's own compiled code is not instrumented",
            "a panic is an orderly stop; an abort or signal is not",
            "calls to the host are made through the C library's read, write, pread, pwrite, openat, fstat and fstatat",
        ],
        must: &["hostile requests", "buffers and names handed to the kernel looked at", "instructions with hostile addresses", "images taken", "orderly stops of requests"],
    }
}
