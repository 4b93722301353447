//! C30: what is on the command line, and what the guest gets of it.

use crate::asm::*;
use crate::dec::Op;
use crate::elf::{Elf, Seg};
use crate::proc::{self, Input, Run};
use crate::report::*;
use crate::rng::{mix, Rng};

use super::e2e::{crashed, hex};

const BASE: u64 = 0x8000_0000;
const BLOCKS: u64 = BASE + 0x1_0000;
const HTIF: u64 = BASE + 0x1_1000;
const NAME: u64 = BASE + 0x1_1100;
const HEAD: u64 = BASE + 0x1_1200;
const BUF: u64 = BASE + 0x2_0000;
const ROOM: usize = 0x1_0000;
/// where the second way in is
const ALT: u64 = BASE + 0x800;

/// A guest that asks for its arguments, writes the answer to the file "ran" and ends with 23, or
/// with 25 when it was entered at ALT. The file: which way in (1 byte), the result (8 bytes), the
/// buffer.
fn guest(r: &mut Rng, rv64: bool, limit: u64, fill: u8) -> Elf {
    let mut a = Asm::new(BASE, rv64);
    let (ld, st) = if rv64 { (Op::Ld, Op::Sd) } else { (Op::Lw, Op::Sw) };
    a.li(18, 1);
    a.label("go");
    a.li(8, HTIF);
    a.li(9, BLOCKS);
    a.li(21, HEAD);
    a.o(Op::Sb, 0, 21, 18, 0);
    let call = |a: &mut Asm, k: i64| {
        a.o(Op::Addi, 5, 9, 0, 64 * k);
        a.o(st, 0, 8, 5, 0);
        let l = format!("w{k}");
        a.label(&l);
        a.o(ld, 6, 8, 0, 64);
        a.to(Op::Beq, 0, 6, 0, &l);
        a.o(st, 0, 8, 0, 64);
    };
    call(&mut a, 0);
    for k in 0..2 {
        a.o(Op::Lw, 6, 9, 0, k * 4);
        a.o(Op::Sw, 0, 21, 6, 4 + k * 4);
    }
    call(&mut a, 1);
    a.o(ld, 6, 9, 0, 64);
    for k in 2..4 {
        a.o(st, 0, 9, 6, 64 * k + 8);
    }
    call(&mut a, 2);
    call(&mut a, 3);
    a.o(Op::Addi, 6, 18, 0, 10);
    a.o(Op::Slli, 6, 6, 0, 1);
    a.o(Op::Addi, 6, 6, 0, 1);
    a.o(st, 0, 8, 6, 0);
    a.label("end");
    a.jmp("end");
    assert!(a.here() < ALT);
    a.space((ALT - a.here()) as usize);
    a.li(18, 2);
    a.jmp("go");
    let code = a.finish();
    let mut b: Vec<u64> = vec![];
    b.extend([2011, BUF, limit, 0, 0, 0, 0, 0]);
    b.extend([56, (-100i64) as u64, NAME, 4, 0o1101, 0o666, 0, 0]);
    b.extend([64, 0, HEAD, 12, 0, 0, 0, 0]);
    b.extend([64, 0, BUF, ROOM as u64, 0, 0, 0, 0]);
    let mut e = Elf::simple(rv64, BASE, code);
    e.segs.push(Seg::load(BLOCKS, b.iter().flat_map(|x| x.to_le_bytes()).collect()));
    e.segs.push(Seg::load(NAME, b"ran\0".to_vec()));
    e.segs.push(Seg::load(BUF, vec![fill; ROOM]));
    if r.bool() {
        e.segs.swap(2, 3);
    }
    e.htif(HTIF, HTIF + 64)
}

const WORDS: &[&str] = &[
    "", " ", "-", "a", "argument", "two words", "tab\there", "new\nline", "a=b", "=", "x--pk", "é", "日本語", "\u{1f980}", "'", "\"quoted\"", "\\", "$HOME", "*", "0x80000000", "info", "image.elf", "0", "%s%n", "{}", "{0}", "\r", "\u{7f}", "\u{1}", "trailing ", " leading", "a,b", ";", "help", "@file", "~",
];
const DASHED: &[&str] = &["-x", "--foo", "--pk", "--loglv=debug", "-e", "-a", "--", "-h", "--help", "-V", "-1", "--pc=12", "---", "--kernel", "-d"];

fn word(r: &mut Rng) -> String {
    match r.below(8) {
        0 => {
            let most = if r.chance(1, 6) { 9000 } else { 200 };
            let n = r.range(1, most);
            (0..n).map(|_| r.pick(&['a', 'z', '0', 'é', ' ', '.', '/', '😀', '=', ',', '-'])).collect::<String>().trim_start_matches('-').to_string()
        }
        1 => format!("{}{}", r.pick(WORDS).trim_start_matches('-'), r.pick(WORDS)),
        _ => r.pick(WORDS).to_string(),
    }
}

struct Line {
    argv: Vec<String>,
    /// what the guest is to see
    want: Vec<String>,
    /// the file that is loaded
    loaded: String,
    named: String,
    pc: bool,
    pk: bool,
}

/// A command line: options before, between and behind the rest.
fn line(r: &mut Rng) -> Line {
    let names = ["image.elf", "./image.elf", "with space.elf", "dir/image.elf", "dir/../image.elf", "ü.elf", "=.elf", "noext"];
    let pk = r.chance(1, 3);
    let loaded = if pk { r.pick(&["pk", "./pk", "dir/the pk", "bbl.elf", "../pk"]) } else { r.pick(&names) }.to_string();
    let loaded = if loaded == "../pk" { "dir/../pk".to_string() } else { loaded };
    let named = if pk { r.pick(&["hello", "image.elf", "not/there", "./a b", "é"]).to_string() } else { loaded.clone() };
    let mut opts: Vec<Vec<String>> = vec![];
    let pc = r.chance(1, 3);
    let mut opt = |r: &mut Rng, n: &str, v: &str| {
        opts.push(if r.bool() { vec![format!("--{n}={v}")] } else { vec![format!("--{n}"), v.into()] });
    };
    if pk {
        opt(r, "pk", &loaded);
    }
    if pc {
        let v = match r.below(4) {
            0 => format!("{ALT:x}"),
            1 => format!("0x{ALT:X}"),
            2 => format!("0x{ALT:016x}"),
            _ => format!("0x{ALT:x}"),
        };
        opt(r, "pc", &v);
    }
    if r.chance(1, 3) {
        let v = r.pick(&["nolog", "info", "diff", "nolog"]);
        opt(r, "loglv", v);
    }
    if r.chance(1, 4) {
        opt(r, "kernel", "kernel.bin");
    }
    if r.chance(1, 4) {
        opt(r, "initrd", "initrd.bin");
    }
    for k in (1..opts.len()).rev() {
        let j = r.below(k as u64 + 1) as usize;
        opts.swap(k, j);
    }
    let n = match r.below(8) {
        0 | 1 => 0,
        2 if r.chance(1, 8) => r.range(120, 3000),
        2 => r.range(10, 120),
        _ => r.range(1, 8),
    };
    let mut rest: Vec<String> = vec![named.clone()];
    let mut size = 0;
    for _ in 0..n {
        let w = if n > 120 { r.pick(&["", "x", "yes", "-"]).to_string() } else { word(r) };
        size += w.len() + 9;
        if size < ROOM - 2000 {
            rest.push(w);
        }
    }
    let mut want: Vec<String> = if pk { vec![loaded.clone()] } else { vec![] };
    want.extend(rest.iter().cloned());
    let mut argv: Vec<String> = vec![];
    let mut left = opts.into_iter().peekable();
    for w in rest {
        while left.peek().is_some() && r.chance(2, 3) {
            argv.extend(left.next().unwrap());
        }
        argv.push(w);
    }
    for o in left {
        argv.extend(o);
    }
    if r.chance(1, 4) {
        argv.push("--".into());
        for _ in 0..r.range(1, 6) {
            let w = if r.bool() { r.pick(DASHED).to_string() } else { word(r) };
            want.push(w.clone());
            argv.push(w);
        }
    }
    Line { argv, want, loaded, named, pc, pk }
}

fn place(d: &std::path::Path, l: &Line, image: &[u8]) {
    std::fs::create_dir_all(d.join("dir")).unwrap();
    proc::own(&d.join("dir"));
    proc::put(d, &l.loaded, image);
    proc::put(d, "kernel.bin", &[0x13; 100]);
    proc::put(d, "initrd.bin", &[0x55; 100]);
}

fn start(d: &std::path::Path, argv: &[String]) -> Run {
    let a: Vec<&str> = argv.iter().map(|s| s.as_str()).collect();
    proc::carron(d, &a, || Input::Null)
}

/// argv, and what of the buffer belongs to the answer
fn answer(buf: &[u8]) -> Result<(Vec<Vec<u8>>, usize), String> {
    let w = |k: usize| buf.get(k * 8..k * 8 + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    let argc = w(0).unwrap() as usize;
    if argc > ROOM / 8 {
        return Err(format!("argc is {argc:#x}"));
    }
    let mut out = vec![];
    let mut end = (argc + 3) * 8;
    for k in 0..argc {
        let p = w(k + 1).ok_or("argv does not fit")?;
        let o = p.wrapping_sub(BUF) as usize;
        if o < (argc + 3) * 8 || o >= buf.len() {
            return Err(format!("argv[{k}] is {p:#x}, not in the strings behind the pointers at {BUF:#x}"));
        }
        let n = buf[o..].iter().position(|b| *b == 0).ok_or(format!("argv[{k}] has no end"))?;
        end = end.max(o + n + 1);
        out.push(buf[o..o + n].to_vec());
    }
    if w(argc + 1) != Some(0) || w(argc + 2) != Some(0) {
        return Err(format!("argv[argc] is {:x?} and envp[0] {:x?}", w(argc + 1), w(argc + 2)));
    }
    Ok((out, end))
}

fn size_of(want: &[String]) -> u64 {
    want.iter().map(|w| w.len() as u64 + 9).sum::<u64>() + 24
}

fn short(v: &[String]) -> String {
    let s: String = format!("{v:?}").chars().take(1500).collect();
    s
}

/// Programs that are given arguments.
fn arguments(cx: &mut Ctx) -> Result<(), Violation> {
    let l = line(&mut cx.rng);
    let size = size_of(&l.want);
    let rv64 = cx.rng.bool();
    let limit = match cx.rng.below(6) {
        0 => size,
        1 => size - 1,
        2 => size - 1 - cx.rng.below(size),
        _ => ROOM as u64,
    };
    let fill = cx.rng.u64() as u8;
    let e = guest(&mut cx.rng, rv64, limit, fill);
    let d = proc::dir("cli");
    place(&d, &l, &e.bytes());
    let run = start(&d, &l.argv);
    let ran = std::fs::read(d.join("ran"));
    proc::remove(&d);
    let tell = || format!("carron {}\nlimit {limit:#x} of {size:#x}; {}", short(&l.argv), run.ending());
    cx.st.case(Some(mix(size, mix(l.want.len() as u64, l.argv.iter().map(|a| a.len() as u64 * 31 + a.as_bytes().first().map_or(0, |b| *b as u64)).fold(0, mix)))));
    if run.timed_out {
        cx.st.inconclusive("a guest that asks for its arguments did not end in time");
        return Ok(());
    }
    if let Some(c) = crashed(&run) {
        return violation("the emulator stopped", format!("{}\n{c}", tell()));
    }
    let Ok(ran) = ran else {
        return violation("the guest did not run", format!("{}\n{}", tell(), run.err_text()));
    };
    if ran.len() != 12 + ROOM {
        return violation("the guest's file is incomplete", format!("{}\n{} bytes", tell(), ran.len()));
    }
    let way = if l.pc { 2 } else { 1 };
    if ran[0] != way {
        return violation("the guest was entered elsewhere", format!("{}\nentered at {:#x}", tell(), if ran[0] == 2 { ALT } else { BASE }));
    }
    if run.code != Some((10 + way as i32) << 1 | 1) {
        return violation("exit status differs", tell());
    }
    let hello = format!("\nIn file {}\nelfcheck: OK\n\n", l.named);
    if !run.out.starts_with(hello.as_bytes()) {
        return violation("the greeting names another file", format!("{}\n{}", tell(), hex(&run.out)));
    }
    let ret = i64::from_le_bytes(ran[4..12].try_into().unwrap());
    let buf = &ran[12..];
    if limit < size {
        if ret != -12 || buf.iter().any(|b| *b != fill) {
            let n = buf.iter().filter(|b| **b != fill).count();
            return violation("arguments that do not fit are not refused", format!("{}\nresult {ret}, {n} bytes of the buffer changed", tell()));
        }
        cx.st.count("arguments refused for want of room");
        return Ok(());
    }
    if ret != 0 {
        return violation("the arguments are refused", format!("{}\nresult {ret}", tell()));
    }
    let (got, end) = match answer(buf) {
        Ok(x) => x,
        Err(s) => return violation("the arguments are not in the form of a main function", format!("{}\n{s}", tell())),
    };
    let want: Vec<Vec<u8>> = l.want.iter().map(|s| s.as_bytes().to_vec()).collect();
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let t = |v: &[Vec<u8>]| v.get(k).map(|b| String::from_utf8_lossy(&b[..b.len().min(300)]).to_string());
        return violation("the guest got other arguments", format!("{}\nargument {k} of {} ({} expected): {:?} instead of {:?}", tell(), got.len(), want.len(), t(&got), t(&want)));
    }
    if end as u64 > limit || buf[end..].iter().any(|b| *b != fill) && buf[end.max(limit as usize)..].iter().any(|b| *b != fill) {
        return violation("the answer is longer than the room for it", tell());
    }
    cx.st.add("arguments compared", want.len() as u64);
    cx.st.count("command lines that reached the guest");
    if l.pk {
        cx.st.count("command lines with --pk");
    }
    if l.pc {
        cx.st.count("command lines with --pc");
    }
    if l.argv.iter().any(|a| a == "--") {
        cx.st.count("command lines with arguments behind --");
    }
    cx.st.sample(tell);
    Ok(())
}

/// Ways of asking for something else than a run.
fn no_run(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let mut l = line(r);
    l.argv.retain(|a| a != "--help" && a != "--");
    let e = guest(r, r.clone().bool(), ROOM as u64, 0);
    let d = proc::dir("cli");
    let image = e.bytes();
    place(&d, &l, &image);
    // the plain part of a good command line
    let mut good = vec![];
    if l.pk {
        good.extend(["--pk".to_string(), l.loaded.clone()]);
    }
    good.push(l.named.clone());
    good.extend(["one".to_string(), "two".into()]);
    let at = |r: &mut Rng, v: &mut Vec<String>, w: &[&str]| {
        // not between an option and its value
        let k = loop {
            let k = if r.bool() { 0 } else { r.below(v.len() as u64 + 1) as usize };
            if k == 0 || !["--pk", "--loglv"].contains(&v[k - 1].as_str()) {
                break k;
            }
        };
        for (i, x) in w.iter().enumerate() {
            v.insert(k + i, x.to_string());
        }
    };
    let mut ok = false;
    let what: String;
    match r.below(12) {
        k @ 0..=2 => {
            // looking at the file only
            let flags = ["-e", "-p", "-s", "-d", "-a", "--elfhead", "--program", "--section", "--disasem", "--all"];
            let f = r.pick(&flags);
            at(r, &mut good, &[f]);
            if k == 2 {
                at(r, &mut good, &["--loglv", "info"]);
            }
            ok = true;
            what = format!("{f}: a look at the file");
        }
        3 => {
            let f = r.pick(&["-h", "--help", "-V", "--version"]);
            at(r, &mut good, &[f]);
            ok = true;
            what = format!("{f}");
        }
        4 => {
            let (w, b): (&str, Option<Vec<u8>>) = match r.below(6) {
                0 => ("no such file", None),
                1 => ("an empty file", Some(vec![])),
                2 => ("a text", Some(b"#!/bin/sh\nexit 0\n".to_vec())),
                3 => ("an ELF file without its first byte", Some(image[1..].to_vec())),
                4 => ("three bytes of an ELF file", Some(image[..3].to_vec())),
                _ => {
                    let mut b = image.clone();
                    b[r.below(4) as usize] ^= 1 << r.below(8);
                    ("a wrong magic number", Some(b))
                }
            };
            let p = d.join(&l.loaded);
            match b {
                None => std::fs::remove_file(&p).unwrap(),
                Some(b) => std::fs::write(&p, b).unwrap(),
            }
            what = w.into();
        }
        5 => {
            let p = d.join(&l.loaded);
            use std::os::unix::fs::PermissionsExt;
            if r.bool() {
                std::fs::remove_file(&p).unwrap();
                std::fs::create_dir(&p).unwrap();
                what = "a directory".into();
            } else {
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
                what = "a file that may not be read".into();
            }
        }
        6 | 7 => {
            let o = r.pick(&["--kernel", "--initrd"]);
            let f = r.pick(&["absent", "dir", "", "image.elf/x", "dir/absent"]);
            at(r, &mut good, &[o, f]);
            what = format!("{o} with a file that is not there");
        }
        8 | 9 => {
            let v = r.pick(&["zz", "", "0x", "8000_0000", "80000000h", "0x1ffffffffffffffff", "8000 0000", "x80000000", "0q1", "main", "8.0", "-8", "80000000-", " 80000000"]);
            at(r, &mut good, &[&format!("--pc={v}")]);
            what = format!("--pc {v:?}");
        }
        10 => {
            let f = r.pick(&["--foo", "-x", "--break", "--pkg=pk", "--loglvl=info", "-z", "--Kernel=kernel.bin"]);
            at(r, &mut good, &[f]);
            what = format!("{f}, which does not exist");
        }
        _ => {
            good = match r.below(5) {
                0 => vec![],
                1 => vec!["--pk".into(), l.loaded.clone()],
                2 => vec![l.loaded.clone(), "--kernel".into()],
                3 => vec![l.loaded.clone(), "--pc".into()],
                _ => vec!["--loglv".into(), "info".into()],
            };
            what = "something missing".into();
        }
    }
    let run = start(&d, &good);
    let ran = d.join("ran").exists();
    proc::remove(&d);
    let tell = || format!("carron {}\n{what}: {}\n{}", short(&good), run.ending(), run.err_text());
    cx.st.case(Some(mix(good.len() as u64, good.iter().map(|a| a.bytes().fold(7, |h, b| mix(h, b as u64))).fold(0, mix))));
    if run.timed_out {
        cx.st.inconclusive("no end in time");
        cx.st.name(format!("not in time: {good:?} {what}"));
        return Ok(());
    }
    if ran {
        return violation(if ok { "the guest ran, though only a look was asked for" } else { "the guest ran in spite of an error" }, tell());
    }
    if run.signal.is_some() {
        return violation("the emulator was ended by a signal", tell());
    }
    if ok {
        if run.code != Some(0) || run.out.is_empty() {
            return violation("asked for a look, the emulator fails", tell());
        }
        cx.st.count("looks that ran nothing");
    } else {
        if run.code == Some(0) {
            return violation("an error is reported as success", tell());
        }
        if run.err.is_empty() && run.out.is_empty() {
            return violation("an error without a word", tell());
        }
        cx.st.count("command lines refused");
    }
    cx.st.name(what);
    Ok(())
}

pub fn c30() -> Check {
    Check {
        id: "C30",
        gens: vec![
            Gen { name: "programs that are given arguments", weight: 3, run: arguments },
            Gen { name: "command lines that run nothing", weight: 2, run: no_run },
        ],
        quick: 12_000,
        thorough: 200_000,
        rule: "one command line given to the binary; a case is distinct by its words",
        assumptions: &[
            "arguments are valid UTF-8 (others are refused by the argument parser)",
            "an option is given at most once; words that start with a dash come behind --, a lone dash excepted",
            "the guest asks with the request 2011 and walks the pointers of the answer; how the strings are laid out behind the pointers is not judged here",
        ],
        must: &["arguments compared", "command lines with --pk", "command lines with --pc", "command lines with arguments behind --", "arguments refused for want of room", "looks that ran nothing", "command lines refused"],
    }
}
