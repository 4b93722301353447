//! C21 (images load byte-exactly and start at their entry) and C22 (the device tree).

use crate::asm::*;
use crate::dec::Op;
use crate::elf::{Elf, Sec, Seg};
use crate::emu::{Emu, StepRes};
use crate::fdt::{self, Node};
use crate::genprog::{exit_with, open_pmp, UART};
use crate::proc::{self, Input};
use crate::report::*;
use crate::rng::{mix, Rng};
use std::collections::BTreeMap;

const DRAM: u64 = 0x8000_0000;
const MROM: u64 = 0x1000;

struct Image {
    elf: Elf,
    base: u64,
    start: u64, // physical
    kernel: Option<Vec<u8>>,
    initrd: Option<Vec<u8>>,
    pc: Option<u64>,
}

impl Image {
    fn kernel_at(&self) -> u64 {
        self.base + if self.elf.rv64 { 0x20_0000 } else { 0x40_0000 }
    }
    fn tell(&self) -> String {
        let mut s = format!("rv{} base {:#x} entry {:#x}", if self.elf.rv64 { 64 } else { 32 }, self.base, self.elf.entry);
        for g in &self.elf.segs {
            s += &format!("\n  segment type {} vaddr {:#x} paddr {:#x} filesz {:#x} memsz {:#x} align {:#x}", g.ptype, g.vaddr, g.paddr, g.data.len(), g.memsz, g.align);
        }
        let len = |o: &Option<Vec<u8>>| o.as_ref().map(|v| v.len());
        s + &format!("\n  kernel {:x?} initrd {:x?} --pc {:x?}", len(&self.kernel), len(&self.initrd), self.pc)
    }
}

fn bytes(r: &mut Rng, n: u64) -> Vec<u8> {
    if n > 0x10_0000 {
        // a block of odd length over and over
        let block: Vec<u8> = (0..65_521).map(|_| (r.u64() as u8).max(1)).collect();
        return block.iter().cycle().take(n as usize).copied().collect();
    }
    // no zero bytes, so that a missing or misplaced one shows
    (0..n).map(|_| (r.u64() as u8).max(1)).collect()
}

fn some_len(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 1 + r.below(8),
        1 => 0x1000 * r.below(4) + r.below(3),
        2 => r.below(0x8000),
        _ => 1 + r.below(0x600),
    }
}

/// A random well-formed image. `code` is put at the entry.
fn image(r: &mut Rng, code: &dyn Fn(u64) -> Vec<u8>) -> Image {
    let rv64 = r.bool();
    let initrd = r.chance(1, 3);
    let mut base = r.pick(&[0x8000_0000u64, 0x8000_0000, 0x8020_0000, 0x9000_0000, 0x4000_0000]);
    if rv64 && !initrd && r.chance(1, 4) {
        base = r.pick(&[0x1_0000_0000, 0x20_0000_0000, 0x4000_0000_0000, 0x7_ffff_f000]);
    }
    if r.chance(1, 8) {
        base += 0x10 * r.below(0x100);
    }
    let mut e = Elf::new(rv64, 0);
    e.pad = r.pick(&[0, 0, 3, 64]);
    e.sh_first = r.chance(1, 4);
    e.e_flags = r.pick(&[0, 1, 5]);
    let room = if rv64 { 0x1f_0000 } else { 0x3f_0000 };
    let mut at = base;
    let n = r.range(1, 7);
    let entry_seg = r.below(n);
    let split = r.bool(); // virtual addresses of their own
    let mut start = 0;
    for i in 0..n {
        if i > 0 {
            at += match r.below(4) {
                0 => 0,
                1 => r.below(16),
                2 => r.below(0x2000),
                _ => r.below(room / 8),
            };
            if r.chance(1, 16) {
                // far away, behind the kernel
                at = at.max(base + 0x100_0000 + (r.below(0x60) << 24));
            }
        }
        let data;
        let len = some_len(r);
        let mut off = 0;
        if i == entry_seg {
            at = (at + 7) & !7;
            off = 8 * r.below(4);
            let mut d = bytes(r, off);
            d.extend(code(at + off));
            d.extend(bytes(r, len));
            data = d;
        } else if i > 0 && r.chance(1, 8) {
            data = vec![];
        } else {
            data = bytes(r, len.max(1));
        }
        let memsz = data.len() as u64 + if r.chance(1, 3) { r.below(0x3000) } else { 0 };
        let vaddr = if split {
            let high = if rv64 { 0xffff_ffff_8000_0000 } else { 0xc000_0000 };
            // distinct virtual addresses for all of them
            match at - base {
                o if o < 0x3000_0000 => high + o,
                o if !rv64 => 0x1000_0000 + (o - 0x3000_0000),
                _ => at,
            }
        } else {
            at
        };
        if i == entry_seg {
            start = at + off;
            e.entry = vaddr + off;
        }
        let flags = r.below(8) as u32;
        e.segs.push(Seg { ptype: 1, flags, vaddr, paddr: at, data, memsz, align: r.pick(&[1, 4, 0x1000]) });
        at += memsz;
        if at > base + room && at < base + 0x100_0000 {
            at = base + 0x100_0000;
        }
    }
    // segments that are not to be loaded, anywhere
    for _ in 0..r.below(3) {
        let ptype = r.pick(&[0u32, 2, 4, 6, 0x6474_e551, 0x7000_0003]);
        let a = r.pick(&[0, base, base + 0x100, base - 0x1000, 0x10_0000]);
        let n = r.below(200);
        let g = Seg { ptype, flags: 4, vaddr: a, paddr: a, data: bytes(r, n), memsz: n, align: 4 };
        let k = r.below(e.segs.len() as u64 + 1) as usize;
        e.segs.insert(k, g);
    }
    // a lot of them
    if r.chance(1, 30) {
        let at = base + 0x6600_0000;
        for i in 0..r.pick(&[70u64, 140, 300, 1250, 2200]) {
            let g = if r.chance(1, 4) {
                Seg::load(at + 16 * i, bytes(r, 1 + i % 16))
            } else {
                Seg { ptype: r.pick(&[0u32, 4]), flags: 4, vaddr: 0, paddr: 0, data: vec![], memsz: 0, align: 1 }
            };
            let k = if r.bool() { 0 } else { e.segs.len() };
            e.segs.insert(k, g);
        }
    }
    // the order of the headers says nothing
    if r.bool() {
        for i in (1..e.segs.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            e.segs.swap(i, j);
        }
    }
    for i in 0..r.below(4) {
        let n = r.below(64);
        let d = bytes(r, n);
        e.secs.push(Sec::new(&format!(".s{i}"), r.pick(&[1, 7, 8]), r.pick(&[0, 2, 6]), base, d));
    }
    let large = r.chance(1, 150).then(|| r.below(4));
    if large == Some(0) {
        let at = base + 0x6800_0000;
        let n = r.range(0x10_0000, 0x200_0000);
        e.segs.push(Seg::load(at, bytes(r, n)));
    }
    let free = |lo: u64, hi: u64| e.segs.iter().all(|g| g.ptype != 1 || g.paddr >= hi || g.paddr + g.memsz <= lo);
    let k_at = base + if rv64 { 0x20_0000 } else { 0x40_0000 };
    let k_len = if large == Some(1) { r.range(0x10_0000, 0x200_0000) } else { some_len(r).max(1) * r.pick(&[1, 1, 3]) };
    let kernel = (r.chance(1, 3) && free(k_at, k_at + k_len)).then(|| bytes(r, k_len));
    let i_len = if large == Some(2) { r.range(0x10_0000, 0x400_0000) } else { some_len(r).max(1) * r.pick(&[1, 1, 5]) };
    let initrd = (initrd && free(base + 0x7000_0000, base + DRAM)).then(|| bytes(r, i_len));
    let pc = r.chance(1, 5).then(|| r.pick(&[start, base, base + 0x100, k_at]));
    Image { elf: e, base, start, kernel, initrd, pc }
}

fn boot(im: &Image) -> Emu {
    let mut files = vec![];
    let mut file = |d: &Option<Vec<u8>>| {
        d.as_ref().map(|d| {
            let p = crate::emu::temp_path("blob");
            std::fs::write(&p, d).unwrap();
            files.push(p.clone());
            p.to_str().unwrap().to_string()
        })
    };
    let (k, i) = (file(&im.kernel), file(&im.initrd));
    let e = Emu::with_args(&im.elf.bytes(), im.elf.rv64, im.base, |a| {
        a.kernel_path = k;
        a.initrd_path = i;
        a.init_pc = im.pc;
    });
    for f in files {
        let _ = std::fs::remove_file(f);
    }
    e
}

fn tree(e: &mut Emu) -> Result<Node, String> {
    fdt::parse(&e.rom(), 0x20)
}

fn initrd_range(n: &Node) -> Result<(u64, u64), String> {
    let c = n.at("chosen")?;
    let one = |p: &str| -> Result<u64, String> {
        let v = c.cells(p)?;
        match v.len() {
            1 => Ok(v[0] as u64),
            2 => Ok((v[0] as u64) << 32 | v[1] as u64),
            _ => Err(format!("{p} {v:x?}")),
        }
    };
    Ok((one("linux,initrd-start")?, one("linux,initrd-end")?))
}

/// Contents of memory after loading, by page of DRAM.
fn expected(im: &Image, initrd_at: u64) -> BTreeMap<u64, [u8; 4096]> {
    let mut m: BTreeMap<u64, [u8; 4096]> = BTreeMap::new();
    let mut put = |at: u64, d: &[u8]| {
        for (i, b) in d.iter().enumerate() {
            let o = at - im.base + i as u64;
            m.entry(o >> 12).or_insert([0; 4096])[(o & 0xfff) as usize] = *b;
        }
    };
    for g in im.elf.segs.iter().filter(|g| g.ptype == 1) {
        put(g.paddr, &g.data);
    }
    if let Some(k) = &im.kernel {
        put(im.kernel_at(), k);
    }
    if let Some(k) = &im.initrd {
        put(initrd_at, k);
    }
    m
}

fn load(cx: &mut Ctx) -> Result<(), Violation> {
    let im = image(&mut cx.rng, &|_| vec![0x13, 0, 0, 0]);
    let mut e = boot(&im);
    let what = im.tell();
    let host = crate::emu::dram_host_addr(&e).unwrap();
    let initrd_at = match &im.initrd {
        None => 0,
        Some(d) => {
            let (s, t) = match tree(&mut e).and_then(|n| initrd_range(&n)) {
                Ok(x) => x,
                Err(x) => return violation("the place of the initrd is not in the device tree", format!("{x}\n{what}")),
            };
            if t - s != d.len() as u64 || s < im.base || t > im.base + DRAM {
                return violation("the initrd is not where the device tree says", format!("{s:#x}..{t:#x} for {:#x} bytes\n{what}", d.len()));
            }
            s
        }
    };
    let want = expected(&im, initrd_at);
    let mut pages: std::collections::BTreeSet<u64> = crate::lock::present_pages(Some(host)).into_iter().collect();
    pages.extend(want.keys());
    let zero = [0u8; 4096];
    for p in &pages {
        let got = unsafe { std::slice::from_raw_parts((host as u64 + p * 4096) as *const u8, 4096) };
        let want = want.get(p).unwrap_or(&zero);
        if got != want {
            let i = (0..4096).find(|i| got[*i] != want[*i]).unwrap();
            return violation(
                if want[i] == 0 { "memory outside the images is not zero" } else { "a loaded byte is wrong" },
                format!("at {:#x}: {:#x} instead of {:#x}\n{what}", im.base + p * 4096 + i as u64, got[i], want[i]),
            );
        }
    }
    cx.st.add("pages compared", pages.len() as u64);
    // the same through the bus, at the edges
    for g in im.elf.segs.iter().filter(|g| g.ptype == 1 && !g.data.is_empty()) {
        for i in [0, g.data.len() - 1, g.data.len() / 2] {
            let b = e.e.cpu.bus.load8(g.paddr + i as u64).unwrap() as u8;
            if b != g.data[i] {
                return violation("a loaded byte is wrong", format!("at {:#x}: {b:#x} instead of {:#x}\n{what}", g.paddr + i as u64, g.data[i]));
            }
        }
    }
    // start
    if let Some(pc) = im.pc {
        if e.e.cpu.pc() != pc {
            return violation("--pc does not set the start address", format!("pc {:#x}\n{what}", e.e.cpu.pc()));
        }
        cx.st.count("starts at --pc");
    } else {
        if e.e.cpu.pc() != MROM || e.e.cpu.verif_priv() != 3 {
            return violation("reset state", format!("pc {:#x} privilege {}\n{what}", e.e.cpu.pc(), e.e.cpu.verif_priv()));
        }
        let mut n = 0;
        while (MROM..MROM + 0x1000).contains(&e.e.cpu.pc()) {
            match e.step() {
                StepRes::Retired => (),
                x => return violation("the reset code traps", format!("{x:?} at {:#x}\n{what}", e.e.cpu.pc())),
            }
            n += 1;
            if n > 32 {
                return violation("the reset code does not start the guest", what);
            }
        }
        let (pc, a0, a1) = (e.e.cpu.pc(), e.x(10), e.x(11));
        if pc != im.start || a0 != 0 || a1 != MROM + 0x20 || e.e.cpu.verif_priv() != 3 {
            return violation("the guest starts wrongly", format!("pc {pc:#x} (entry at physical {:#x}) a0 {a0:#x} a1 {a1:#x}\n{what}", im.start));
        }
        cx.st.count("starts through the reset code");
    }
    let misa = e.csr(0x301);
    let mxl = if im.elf.rv64 { misa >> 62 == 2 } else { misa >> 30 == 1 };
    if !mxl {
        return violation("the register width is not that of the ELF class", format!("misa {misa:#x}\n{what}"));
    }
    // arithmetic in that width
    let at = im.base + 0x1000;
    e.e.cpu.verif_set_pc(at);
    e.write_bytes(at, &enc(Op::Sltu, 5, 6, 0, 0).to_le_bytes());
    e.write_bytes(at, &enc(Op::Srli, 5, 6, 0, 31).to_le_bytes());
    e.set_x(6, if im.elf.rv64 { u64::MAX } else { 0xffff_ffff });
    e.step();
    if e.x(5) != if im.elf.rv64 { 0x1_ffff_ffff } else { 1 } {
        return violation("the register width is not that of the ELF class", format!("-1 >> 31 gives {:#x}\n{what}", e.x(5)));
    }
    let l = im.elf.segs.len() as u64;
    let k = mix(mix(im.base, l), (im.kernel.is_some() as u64) << 3 | (im.initrd.is_some() as u64) << 2 | (im.pc.is_some() as u64) << 1 | im.elf.rv64 as u64);
    cx.st.case(Some(mix(k, im.elf.segs.iter().fold(0, |h, g| mix(h, g.data.len() as u64 ^ g.paddr)))));
    cx.st.add("segments checked", im.elf.segs.iter().filter(|g| g.ptype == 1).count() as u64);
    cx.st.sample(|| what.replace('\n', ";"));
    Ok(())
}

/// A guest that prints memory as the binary loaded it.
fn dump_run(cx: &mut Ctx) -> Result<(), Violation> {
    // twice: the second time with the list of what to print
    let seed = cx.rng.u64();
    let empty: Vec<(u64, u64)> = vec![];
    let make = |regions: &[(u64, u64)]| {
        let mut r = Rng::new(seed);
        let code = |at: u64| {
            // rv64 is chosen first by image()
            let rv64 = Rng::new(seed).bool();
            let mut a = Asm::new(at, rv64);
            // a0 and a1 as the reset code left them
            a.o(Op::Addi, 28, 10, 0, 0);
            a.o(Op::Addi, 29, 11, 0, 0);
            open_pmp(&mut a);
            a.li(6, UART);
            for reg in [28, 29] {
                for _ in 0..4 {
                    a.o(Op::Sb, 0, 6, reg, 0);
                    a.o(Op::Srli, reg, reg, 0, 8);
                }
            }
            // the list follows the code
            a.la(7, at + 0x200);
            a.label("next");
            let (ld, sz) = if rv64 { (Op::Ld, 8) } else { (Op::Lw, 4) };
            a.o(ld, 8, 7, 0, 0);
            a.o(ld, 9, 7, 0, sz);
            a.o(Op::Addi, 7, 7, 0, 2 * sz);
            a.to(Op::Beq, 0, 9, 0, "end");
            a.label("byte");
            a.o(Op::Lbu, 10, 8, 0, 0);
            a.o(Op::Sb, 0, 6, 10, 0);
            a.o(Op::Addi, 8, 8, 0, 1);
            a.o(Op::Addi, 9, 9, 0, -1);
            a.to(Op::Bne, 0, 9, 0, "byte");
            a.jmp("next");
            a.label("end");
            exit_with(&mut a, (at + 0x3f8) & !7, 7);
            let mut c = a.finish();
            assert!(c.len() <= 0x200, "{:#x}", c.len());
            c.resize(0x200, 0);
            for (x, n) in regions.iter().chain([&(0, 0)]) {
                let w = |v: u64| v.to_le_bytes()[..sz as usize].to_vec();
                c.extend(w(*x));
                c.extend(w(*n));
            }
            assert!(c.len() <= 0x3f0);
            c.resize(0x410, 0);
            c
        };
        let mut im = image(&mut r, &code);
        im.pc = None;
        // not in the way of the copied code and the mailbox
        let th = (im.start + 0x3f8) & !7;
        im.elf = std::mem::replace(&mut im.elf, Elf::new(true, 0)).htif(th, th + 8);
        im
    };
    let im = make(&empty);
    let initrd_at = if im.initrd.is_some() {
        match tree(&mut boot(&im)).and_then(|n| initrd_range(&n)) {
            Ok(x) => x.0,
            Err(x) => return violation("the place of the initrd is not in the device tree", format!("{x}\n{}", im.tell())),
        }
    } else {
        0
    };
    let mut regions = vec![];
    let own = im.start & !0xfff..im.start + 0x1000;
    for g in im.elf.segs.iter().filter(|g| g.ptype == 1 && !own.contains(&g.paddr)) {
        let n = g.memsz + 8;
        if im.start >= g.paddr + n || im.start + 0x410 <= g.paddr {
            regions.push((g.paddr, n.min(400)));
            if n > 800 {
                regions.push((g.paddr + n - 300, 300));
            }
        }
    }
    if let Some(k) = &im.kernel {
        regions.push((im.kernel_at() - 8, (k.len() as u64 + 16).min(500)));
        regions.push((im.kernel_at() + k.len() as u64 - 1, 9));
    }
    if let Some(k) = &im.initrd {
        regions.push((initrd_at - 8, (k.len() as u64 + 8).min(500)));
        regions.push((initrd_at + k.len() as u64 - 1, 9));
    }
    regions.truncate(14);
    regions.retain(|(a, n)| a + n <= im.base + DRAM);
    let im = make(&regions);
    let mem = expected(&im, initrd_at);
    let mut want = vec![];
    want.extend(0u32.to_le_bytes());
    want.extend(0x1020u32.to_le_bytes());
    for (a, n) in &regions {
        for x in *a..a + n {
            let o = x - im.base;
            want.push(mem.get(&(o >> 12)).map_or(0, |p| p[(o & 0xfff) as usize]));
        }
    }
    let d = proc::dir("load");
    proc::put(&d, "image.elf", &im.elf.bytes());
    let mut args = vec![];
    if let Some(k) = &im.kernel {
        proc::put(&d, "kernel.bin", k);
        args.extend(["--kernel", "kernel.bin"]);
    }
    if let Some(k) = &im.initrd {
        proc::put(&d, "initrd.bin", k);
        args.extend(["--initrd", "initrd.bin"]);
    }
    match cx.rng.below(3) {
        0 => args.extend(["--pk", "image.elf", "other", "argument"]),
        _ => args.push("image.elf"),
    }
    let run = proc::carron(&d, &args, || Input::Null);
    proc::remove(&d);
    if let Some(c) = super::e2e::crashed(&run) {
        return violation("the emulator crashed while loading", format!("{c}\n{args:?}\n{}", im.tell()));
    }
    if run.timed_out {
        cx.st.inconclusive("a guest that prints memory did not end in time");
        return Ok(());
    }
    let got = run.guest_out().unwrap_or(&[]);
    if got != want || run.code != Some(7) {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return violation(
            "the guest does not find its image in memory",
            format!("{}; output byte {i} of {} ({} expected): {:x?} instead of {:x?}\nregions {regions:x?}\n{args:?}\n{}", run.ending(), got.len(), want.len(), got.get(i), want.get(i), im.tell()),
        );
    }
    cx.st.count("guests that printed their image");
    cx.st.case(Some(mix(seed, want.len() as u64)));
    Ok(())
}

/// --pc and the command line's way of giving it.
fn pc_run(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let base = 0x8000_0000u64;
    let th = base + 0x800;
    let mut a = Asm::new(base, rv64);
    let n = cx.rng.range(2, 9);
    for k in 0..n {
        while a.here() < base + 0x40 * k {
            a.w(0x13);
        }
        exit_with(&mut a, th, (k + 1) << 1 | 1);
    }
    let code = a.finish();
    assert!(code.len() < 0x800);
    let mut code = code;
    code.resize(0x900, 0);
    let e = Elf::simple(rv64, base, code).htif(th, th + 8);
    let k = cx.rng.below(n);
    let at = base + 0x40 * k;
    let arg = match cx.rng.below(4) {
        0 => format!("{at:x}"),
        1 => format!("0x{at:X}"),
        2 => format!("0x000{at:x}"),
        _ => format!("0x{at:x}"),
    };
    let d = proc::dir("pc");
    proc::put(&d, "image.elf", &e.bytes());
    let run = proc::carron(&d, &["image.elf", "--pc", &arg], || Input::Null);
    proc::remove(&d);
    if run.timed_out {
        cx.st.inconclusive("a run with --pc did not end in time");
        return Ok(());
    }
    let want = ((k + 1) << 1 | 1) as i32;
    if run.code != Some(want) {
        return violation("--pc does not start there", format!("--pc {arg}: {}, expected exit status {want}\nstderr {}", run.ending(), run.err_text()));
    }
    cx.st.count("runs with --pc");
    cx.st.case(Some(mix(at, arg.len() as u64)));
    Ok(())
}

fn not_elf(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let code = Elf::simple(true, 0x8000_0000, vec![0x6f, 0, 0, 0]).bytes();
    let data = match r.below(6) {
        0 => vec![],
        1 => {
            let n = r.below(200);
            bytes(r, n)
        }
        2 => {
            let n = r.below(64) + 2000;
            let mut b = bytes(r, n);
            b[4] = r.pick(&[1, 2]);
            b[0] = b'M';
            b
        }
        3 => b"#!/bin/sh\necho this is a script and not a program for any machine, whatever its length may be\n".to_vec(),
        _ => {
            // an ELF but for one bit of the magic number
            let mut b = code.clone();
            b[r.below(4) as usize] ^= 1 << r.below(8);
            b
        }
    };
    if data.starts_with(b"\x7fELF") {
        return Ok(());
    }
    let d = proc::dir("notelf");
    proc::put(&d, "file", &data);
    let opt = r.pick(&["", "", "-e", "-a", "-p", "-s", "-d"]);
    let args: Vec<&str> = if opt.is_empty() { vec!["file"] } else { vec![opt, "file"] };
    let run = proc::carron(&d, &args, || Input::Null);
    proc::remove(&d);
    let out = String::from_utf8_lossy(&run.out).to_string();
    if run.code.is_none() || run.code == Some(0) || out.contains("elfcheck: OK") || out.contains("elf header") {
        return violation(
            "a file that is not an ELF is accepted",
            format!("{opt}: {}; output {out:?}; file {}", run.ending(), super::e2e::hex(&data)),
        );
    }
    cx.st.count("files refused");
    cx.st.case(Some(mix(data.len() as u64, data.iter().take(16).fold(0, |h, b| mix(h, *b as u64)))));
    Ok(())
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        gens: vec![
            Gen { name: "random images in process, all of memory compared", weight: 24, run: load },
            Gen { name: "guests printing what the binary loaded", weight: 4, run: dump_run },
            Gen { name: "--pc on the command line", weight: 1, run: pc_run },
            Gen { name: "files that are not ELF", weight: 1, run: not_elf },
        ],
        quick: 13500,
        thorough: 400_000,
        rule: "ELF files of both classes with 1 to 6 loadable segments (any order, adjacent, unaligned, empty, far apart, virtual addresses of their own, zero-fill) and other segments and sections around them, DRAM at different bases, with and without kernel, initrd and --pc: every page the host has backed is compared with the files' bytes, the reset code is executed to the first guest instruction; distinct by layout and options; plus guests that print their own image, kernel and initrd through the binary, and files that are not ELF",
        assumptions: &["pages the host has not backed read as zero"],
        must: &["pages compared", "starts through the reset code", "starts at --pc", "guests that printed their image", "runs with --pc", "files refused"],
    }
}

// ---- the device tree ----------------------------------------------------------------------------

fn reg64(n: &Node) -> Result<(u64, u64), String> {
    let c = n.cells("reg")?;
    if c.len() != 4 {
        return Err(format!("reg of {} has {} cells", n.name, c.len()));
    }
    Ok(((c[0] as u64) << 32 | c[1] as u64, (c[2] as u64) << 32 | c[3] as u64))
}

fn is<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:x?} instead of {want:x?}"))
    }
}

fn unit(n: &Node, a: u64) -> Result<(), String> {
    match n.name.split_once('@') {
        Some((_, u)) if u64::from_str_radix(u, 16) == Ok(a) => Ok(()),
        _ => Err(format!("the unit address of {} is not {a:#x}", n.name)),
    }
}

fn only<'a>(root: &'a Node, compatible: &str) -> Result<(String, &'a Node), String> {
    let mut v = vec![];
    root.each("", &mut |p, n| {
        if n.strings("compatible").is_ok_and(|s| s.iter().any(|x| x == compatible)) {
            v.push((p.to_string(), n));
        }
    });
    match v.len() {
        1 => Ok(v.remove(0)),
        k => Err(format!("{k} nodes compatible with {compatible}")),
    }
}

/// What the tree says about the machine; compared with what the machine does.
fn describe(e: &mut Emu, im: &Image, root: &Node) -> Result<(), String> {
    let rv64 = im.elf.rv64;
    is("root #address-cells", root.cells("#address-cells")?, vec![2])?;
    is("root #size-cells", root.cells("#size-cells")?, vec![2])?;
    root.strings("compatible")?;
    root.strings("model")?;
    // memory
    let mems: Vec<&Node> = root.kids.iter().filter(|k| k.strings("device_type").is_ok_and(|s| s == ["memory"])).collect();
    is("number of memory nodes", mems.len(), 1)?;
    let (at, len) = reg64(mems[0])?;
    is("memory address", at, im.base)?;
    unit(mems[0], im.base)?;
    let bus = &mut e.e.cpu.bus;
    for (a, ok) in [(at, true), (at + len - 1, true), (at + len, false), (at.wrapping_sub(1), false)] {
        if bus.load8(a).is_ok() != ok {
            return Err(format!("memory is said to be {at:#x}+{len:#x}, but {a:#x} {}", if ok { "is not there" } else { "is" }));
        }
    }
    // cpu
    let cpus = root.at("cpus")?;
    is("cpus #address-cells", cpus.cells("#address-cells")?, vec![1])?;
    is("cpus #size-cells", cpus.cells("#size-cells")?, vec![0])?;
    is("timebase-frequency", cpus.cells("timebase-frequency")?, vec![10_000_000])?;
    let list: Vec<&Node> = cpus.kids.iter().filter(|k| k.strings("device_type").is_ok_and(|s| s == ["cpu"])).collect();
    is("number of cpus", list.len(), 1)?;
    let cpu = list[0];
    is("cpu reg", cpu.cells("reg")?, vec![0])?;
    unit(cpu, 0)?;
    is("cpu compatible", cpu.strings("compatible")?, vec!["riscv".to_string()])?;
    is("cpu status", cpu.strings("status")?, vec!["okay".to_string()])?;
    is("riscv,isa", cpu.strings("riscv,isa")?, vec![if rv64 { "rv64imac" } else { "rv32imac" }.to_string()])?;
    is("mmu-type", cpu.strings("mmu-type")?, vec![if rv64 { "riscv,sv39" } else { "riscv,sv32" }.to_string()])?;
    is("riscv,pmpregions", cpu.cells("riscv,pmpregions")?, vec![16])?;
    is("riscv,pmpgranularity", cpu.cells("riscv,pmpgranularity")?, vec![4])?;
    // the machine's side of it
    let misa = e.csr(0x301);
    for c in "imac".bytes() {
        is("misa letter", misa >> (c - b'a') & 1, 1)?;
    }
    let mode = if rv64 { 8 << 60 } else { 1 << 31 };
    e.set_csr(0x180, mode);
    is("satp mode", e.csr(0x180) & mode, mode)?;
    e.set_csr(0x180, 0);
    let intc: Vec<&Node> = cpu.kids.iter().filter(|k| k.props.contains_key("interrupt-controller")).collect();
    is("number of cpu interrupt controllers", intc.len(), 1)?;
    let intc = intc[0];
    is("cpu intc compatible", intc.strings("compatible")?, vec!["riscv,cpu-intc".to_string()])?;
    is("cpu intc #interrupt-cells", intc.cells("#interrupt-cells")?, vec![1])?;
    let ph = intc.phandle()?;
    // soc
    let soc = root.at("soc")?;
    is("soc #address-cells", soc.cells("#address-cells")?, vec![2])?;
    is("soc #size-cells", soc.cells("#size-cells")?, vec![2])?;
    if !soc.strings("compatible")?.contains(&"simple-bus".to_string()) {
        return Err("soc is not a simple-bus".into());
    }
    is("soc ranges", soc.props.get("ranges").map(|v| v.len()), Some(0))?;
    // clint
    let (p, clint) = only(root, "riscv,clint0")?;
    is("clint parent", p.rsplit_once('/').unwrap().0, "/soc")?;
    let (ca, cl) = reg64(clint)?;
    unit(clint, ca)?;
    is("clint reg", (ca, cl), (0x200_0000, 0x1_0000))?;
    is("clint interrupts-extended", clint.cells("interrupts-extended")?, vec![ph, 3, ph, 7])?;
    let bus = &mut e.e.cpu.bus;
    let inside = |bus: &mut carron::bus::Bus, a: u64, l: u64| bus.load32(a + l - 4).is_ok() && bus.load32(a + l).is_err() && bus.load32(a - 4).is_err();
    if !inside(bus, ca, cl) {
        return Err("the CLINT is not of that size".into());
    }
    bus.store64(ca + 0x4000, 0).map_err(|e| e.2)?;
    bus.store64(ca + 0xbff8, 5).map_err(|e| e.2)?;
    is("mtime of the CLINT", bus.load64(ca + 0xbff8).map_err(|e| e.2)?, 5)?;
    // plic
    let (p, plic) = only(root, "riscv,plic0")?;
    is("plic parent", p.rsplit_once('/').unwrap().0, "/soc")?;
    let (pa, pl) = reg64(plic)?;
    unit(plic, pa)?;
    is("plic reg", (pa, pl), (0xc00_0000, 0x100_0000))?;
    is("riscv,ndev", plic.cells("riscv,ndev")?, vec![31])?;
    is("riscv,max-priority", plic.cells("riscv,max-priority")?, vec![15])?;
    is("plic interrupts-extended", plic.cells("interrupts-extended")?, vec![ph, 11, ph, 9])?;
    is("plic #interrupt-cells", plic.cells("#interrupt-cells")?, vec![1])?;
    if !plic.props.contains_key("interrupt-controller") {
        return Err("the plic is not an interrupt-controller".into());
    }
    let ext = plic.cells("interrupts-extended")?;
    for ctx in 0..2u64 {
        // the last source, at the highest priority that others can be below
        let bus = &mut e.e.cpu.bus;
        bus.store32(pa + 4 * 31, 15).map_err(|e| e.2)?;
        is("priority register", bus.load32(pa + 4 * 31).map_err(|e| e.2)?, 15)?;
        bus.store32(pa + 0x2000 + 0x80 * ctx, 1 << 31).map_err(|e| e.2)?;
        bus.store32(pa + 0x20_0000 + 0x1000 * ctx, 14).map_err(|e| e.2)?;
        bus.plic.set_interrupt_level(31, 1);
        // what the hart sees of it, before any instruction; the one executed is the ROM's first
        e.e.cpu.verif_set_pc(MROM);
        e.step();
        let line = e.csr(crate::model::csr::MIP);
        let bus = &mut e.e.cpu.bus;
        let want = 1u64 << ext[2 * ctx as usize + 1];
        if line & 0xa00 != want {
            return Err(format!("PLIC context {ctx} drives mip bits {line:#x}, the tree says {want:#x}"));
        }
        is("claim", bus.load32(pa + 0x20_0004 + 0x1000 * ctx).map_err(|e| e.2)?, 31)?;
        bus.plic.set_interrupt_level(31, 0);
        bus.store32(pa + 0x20_0004 + 0x1000 * ctx, 31).map_err(|e| e.2)?;
        bus.store32(pa + 0x2000 + 0x80 * ctx, 0).map_err(|e| e.2)?;
    }
    // uart
    let (p, uart) = only(root, "ns16550a")?;
    is("uart parent", p.rsplit_once('/').unwrap().0, "/soc")?;
    let (ua, ul) = reg64(uart)?;
    unit(uart, ua)?;
    is("uart reg", (ua, ul), (UART, 0x100))?;
    is("reg-shift", uart.cells("reg-shift")?, vec![0])?;
    is("reg-io-width", uart.cells("reg-io-width")?, vec![1])?;
    is("uart interrupts", uart.cells("interrupts")?, vec![1])?;
    is("uart interrupt-parent", uart.cells("interrupt-parent")?, vec![plic.phandle()?])?;
    let bus = &mut e.e.cpu.bus;
    bus.store8(ua + 7, 0x5a).map_err(|e| e.2)?;
    is("uart scratch register", bus.load8(ua + 7).map_err(|e| e.2)? & 0xff, 0x5a)?;
    is("uart byte before", bus.load8(ua - 1).is_ok(), false)?;
    is("uart byte after", bus.load8(ua + ul).is_ok(), false)?;
    // its transmitter interrupt arrives at that source
    bus.store32(pa + 4, 7).map_err(|e| e.2)?;
    bus.store32(pa + 0x2000, 2).map_err(|e| e.2)?;
    bus.store32(pa + 0x20_0000, 0).map_err(|e| e.2)?;
    bus.store8(ua + 1, 2).map_err(|e| e.2)?;
    is("source of the uart", bus.load32(pa + 0x20_0004).map_err(|e| e.2)?, 1)?;
    // chosen
    let chosen = root.at("chosen")?;
    match chosen.props.get("stdout-path") {
        Some(v) if uart.phandle().is_ok_and(|h| v == &h.to_be_bytes()) => (),
        Some(_) if chosen.strings("stdout-path").is_ok_and(|s| s.len() == 1 && s[0].split(':').next() == Some(&p)) => (),
        v => return Err(format!("stdout-path is {v:x?}, not the uart")),
    }
    chosen.strings("bootargs")?;
    let (s, t) = initrd_range(root)?;
    match &im.initrd {
        None => is("initrd range without an initrd", t - s, 0)?,
        Some(d) => {
            is("size of the initrd", t.wrapping_sub(s), d.len() as u64)?;
            for i in [0, d.len() - 1, d.len() / 2, d.len() / 3] {
                match e.e.cpu.bus.load8(s + i as u64) {
                    Ok(b) if b as u8 == d[i] => (),
                    x => return Err(format!("initrd byte {i} at {:#x}: {:x?} instead of {:#x}", s + i as u64, x.map_err(|e| e.2), d[i])),
                }
            }
        }
    }
    only(root, "ucb,htif0")?;
    // every name used as a handle exists
    let mut handles = vec![];
    root.each("", &mut |_, n| {
        if let Ok(h) = n.phandle() {
            handles.push(h);
        }
    });
    for n in [clint, plic] {
        for c in n.cells("interrupts-extended")?.chunks(2) {
            if !handles.contains(&c[0]) {
                return Err(format!("{} refers to phandle {} that no node has", n.name, c[0]));
            }
        }
    }
    Ok(())
}

fn device_tree(cx: &mut Ctx) -> Result<(), Violation> {
    let r = &mut cx.rng;
    let rv64 = r.bool();
    let with_initrd = r.chance(2, 3);
    let base = match r.below(6) {
        0 => 0x8000_0000u64,
        1 => 0x8000_0000 + 0x1000 * r.below(0x7_0000),
        2 => 0x1200_0000 + 0x1000 * r.below(0x6_0000),
        3 => 0x2000_0000 + (r.below(12) << 28) + 4 * r.below(0x100),
        4 => 0x1000_0000 * (2 + r.below(13)),
        // digits that a naive formatting of the addresses would lose
        _ => r.pick(&[0x8000_0001_u64 & !3, 0x8a0b_0c00, 0x9000_0010, 0xa000_0000, 0xffff_f000 - 0x1000_0000]),
    };
    let base = if rv64 && !with_initrd && r.bool() {
        let any = ((r.u64() >> 20) + 0x1_0000_0000) & !0xfff;
        r.pick(&[0x1_0000_0000, 0x8_0000_0000, 0x12_3456_7000, 0x4000_0000_0000, any])
    } else {
        base
    };
    let elf = Elf::simple(rv64, base, vec![0x6f, 0, 0, 0]);
    let initrd = with_initrd.then(|| {
        let n = match r.below(6) {
            0 => 1 + r.below(16),
            1 => 0x1000 * (1 + r.below(32)),
            2 => r.below(0x40_0000) + 1,
            _ => 1 + r.below(0x1_0000),
        };
        let mut d = vec![0x5au8; n as usize];
        for _ in 0..32 {
            let i = r.below(n) as usize;
            d[i] = r.u64() as u8;
        }
        d[0] = 0x11;
        d[n as usize - 1] = 0x99;
        d
    });
    let im = Image { elf, base, start: base, kernel: None, initrd, pc: None };
    let mut e = boot(&im);
    let what = im.tell();
    let rom = e.rom();
    // as the guest gets there
    for _ in 0..32 {
        if !(MROM..MROM + 0x1000).contains(&e.e.cpu.pc()) {
            break;
        }
        e.step();
    }
    let a1 = e.x(11);
    if a1 % 8 != 0 || !(MROM..MROM + rom.len() as u64).contains(&a1) {
        return violation("the device tree is not 8-byte aligned in the boot ROM", format!("a1 {a1:#x}\n{what}"));
    }
    // the guest sees the same bytes
    for k in 0..64 {
        let i = if k < 4 { k } else { cx.rng.below(rom.len() as u64) };
        if e.e.cpu.bus.load8(MROM + i).map_or(true, |b| b as u8 != rom[i as usize]) {
            return violation("the boot ROM does not read as the device tree", format!("offset {i:#x}\n{what}"));
        }
    }
    let t = match fdt::parse(&rom, (a1 - MROM) as usize) {
        Ok(t) => t,
        Err(x) => return violation("the device tree is not well-formed", format!("{x}\n{what}")),
    };
    if let Err(x) = describe(&mut e, &im, &t) {
        return violation(format!("the device tree: {}", x.split(" is ").next().unwrap_or(&x).chars().take_while(|c| !c.is_ascii_digit()).collect::<String>()), format!("{x}\n{what}"));
    }
    let mut n = 0;
    t.each("", &mut |_, k| n += k.props.len() as u64);
    cx.st.add("device-tree properties read", n);
    cx.st.count("device trees");
    let il = im.initrd.as_ref().map_or(0, |d| d.len() as u64);
    cx.st.case(Some(mix(mix(base, il), rv64 as u64)));
    cx.st.sample(|| what.replace('\n', ";"));
    Ok(())
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        gens: vec![Gen { name: "device trees", weight: 1, run: device_tree }],
        quick: 24000,
        thorough: 400_000,
        rule: "XLEN x DRAM base (below, at and above 2 GiB and 4 GiB, aligned and not) x initrd of 1 byte to 4 MiB or none: the blob at the address the reset code passes is parsed by an independent strict parser and what it says is compared with the machine's behaviour (first and last byte of memory and devices, mtime, interrupt lines of both PLIC contexts, priorities, UART registers and interrupt source, satp mode, misa, the initrd's bytes); distinct by base, initrd size and XLEN",
        assumptions: &["the frequencies are constants of the documentation, not measured"],
        must: &["device trees"],
    }
}
