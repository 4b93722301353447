//! C27: what -e, -p, -s, -d and -a print, against the bytes of the file.

use crate::dec::{decode16, decode32, Op};
use crate::gen;
use crate::genprog;
use crate::proc::{self, Input};
use crate::report::*;
use crate::rng::{mix, Rng};

use super::e2e::crashed;

// ---- the file, read by the layout of the ELF specification

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    (0..n).rev().fold(0, |v, k| v << 8 | b[at + k] as u64)
}

type Line = Vec<String>;

fn line(s: String) -> Line {
    s.split_whitespace().map(|t| t.to_string()).collect()
}

struct File<'a> {
    b: &'a [u8],
    c64: bool,
}

impl File<'_> {
    fn head(&self, at32: usize, n32: usize, at64: usize, n64: usize) -> u64 {
        if self.c64 { le(self.b, at64, n64) } else { le(self.b, at32, n32) }
    }
    fn phoff(&self) -> u64 {
        self.head(28, 4, 32, 8)
    }
    fn shoff(&self) -> u64 {
        self.head(32, 4, 40, 8)
    }
    fn phentsize(&self) -> u64 {
        self.head(42, 2, 54, 2)
    }
    fn phnum(&self) -> u64 {
        self.head(44, 2, 56, 2)
    }
    fn shentsize(&self) -> u64 {
        self.head(46, 2, 58, 2)
    }
    fn shnum(&self) -> u64 {
        self.head(48, 2, 60, 2)
    }
    fn shstrndx(&self) -> u64 {
        self.head(50, 2, 62, 2)
    }

    fn elf_header(&self) -> Vec<Line> {
        let b = self.b;
        let mut v = vec![line("================ elf header ================".into())];
        v.push(line(format!("magic: {}", b[..16].iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" "))));
        for (n, i) in [("class:", 4), ("endian:", 5), ("version:", 6), ("os_abi:", 7), ("os_abi_ver:", 8)] {
            v.push(line(format!("{n} {}", b[i])));
        }
        let t = le(b, 16, 2);
        let t = ["ET_NONE", "ET_REL", "ET_EXEC", "ET_DYN", "ET_CORE"].get(t as usize).unwrap_or(&"unknown type");
        v.push(line(format!("e_type: {t}")));
        v.push(line(format!("e_machine: {}", le(b, 18, 2))));
        v.push(line(format!("e_version: {:#x}", le(b, 20, 4))));
        v.push(line(format!("e_entry: {:#x}", self.head(24, 4, 24, 8))));
        v.push(line(format!("e_phoff: {} (bytes into file)", self.phoff())));
        v.push(line(format!("e_shoff: {} (bytes into file)", self.shoff())));
        v.push(line(format!("e_flags: {:#x}", self.head(36, 4, 48, 4))));
        v.push(line(format!("e_ehsize: {} (bytes)", self.head(40, 2, 52, 2))));
        v.push(line(format!("e_phentsize: {} (bytes)", self.phentsize())));
        v.push(line(format!("e_phnum: {}", self.phnum())));
        v.push(line(format!("e_shentsize: {} (bytes)", self.shentsize())));
        v.push(line(format!("e_shnum: {}", self.shnum())));
        v.push(line(format!("e_shstrndx: {}", self.shstrndx())));
        v
    }

    /// type, offset, size in the file, and the lines
    fn segment(&self, k: u64) -> (u64, u64, u64, Vec<Line>) {
        let at = (self.phoff() + k * self.phentsize()) as usize;
        let f = |i: usize, n32: usize, at64: usize, n64: usize| {
            if self.c64 { le(self.b, at + at64, n64) } else { le(self.b, at + i, n32) }
        };
        let ptype = f(0, 4, 0, 4);
        let name = match ptype {
            0 => "PT_NULL",
            1 => "PT_LOAD",
            2 => "PT_DYNAMIC",
            3 => "PT_INTERP",
            4 => "PT_NOTE",
            5 => "PT_SHLIB",
            6 => "PT_PHDR",
            7 => "PT_TLS",
            0x7000_0000 => "PT_LOPROC",
            0x7fff_ffff => "PT_HIPROC",
            _ => "unknown type",
        };
        let (offset, filesz) = (f(4, 4, 8, 8), f(16, 4, 32, 8));
        let v = vec![
            line(format!("============== program header {}==============", k + 1)),
            line(format!("p_type: {name}")),
            line(format!("p_offset: {offset:#x}")),
            line(format!("p_vaddr: {:#x}", f(8, 4, 16, 8))),
            line(format!("p_paddr: {:#x}", f(12, 4, 24, 8))),
            line(format!("p_filesz: {filesz:#x}")),
            line(format!("p_memsz: {:#x}", f(20, 4, 40, 8))),
            line(format!("p_flags: {}", f(24, 4, 4, 4))),
            line(format!("p_align: {:#x}", f(28, 4, 48, 8))),
        ];
        (ptype, offset, filesz, v)
    }

    /// type, flags, offset, size, and the lines
    fn section(&self, k: u64) -> (u64, u64, u64, u64, Vec<Line>) {
        let at = |k: u64| (self.shoff() + k * self.shentsize()) as usize;
        let f = |k: u64, i32: usize, i64: usize, wide: bool| {
            let n = if wide && self.c64 { 8 } else { 4 };
            le(self.b, at(k) + if self.c64 { i64 } else { i32 }, n)
        };
        let stype = f(k, 4, 4, false);
        let tname = match stype {
            0..=11 => {
                ["SHT_NULL", "SHT_PROGBITS", "SHT_SYMTAB", "SHT_STRTAB", "SHT_RELA", "SHT_HASH", "SHT_DYNAMIC", "SHT_NOTE",
                 "SHT_NOBITS", "SHT_REL", "SHT_SHLIB", "SHT_DYNSYM"][stype as usize]
            }
            14..=18 => ["SHT_INIT_ARRAY", "SHT_FINI_ARRAY", "SHT_PREINIT_ARRAY", "SHT_GROUP", "SHT_SYMTAB_SHNDX"][stype as usize - 14],
            0x7000_0000 => "SHT_LOPROC",
            0x7fff_ffff => "SHT_HIPROC",
            0x8000_0000 => "SHT_LOUSER",
            0xffff_ffff => "SHT_HIUSER",
            _ => "unknown type",
        };
        let name = if self.shstrndx() == 0 {
            String::new()
        } else {
            let table = f(self.shstrndx(), 16, 24, true) as usize;
            self.b[table + f(k, 0, 0, false) as usize..].iter().take_while(|c| **c != 0).map(|c| *c as char).collect()
        };
        let flags = f(k, 8, 8, true);
        let (offset, size) = (f(k, 16, 24, true), f(k, 20, 32, true));
        let v = vec![
            line(format!("============== section header {}==============", k + 1)),
            line(format!("sh_name: {name}")),
            line(format!("sh_type: {tname}")),
            line(format!("sh_flags: {flags}")),
            line(format!("sh_addr: {:#x}", f(k, 12, 16, true))),
            line(format!("sh_offset: {offset:#x}")),
            line(format!("sh_size: {size}")),
            line(format!("sh_link: {}", f(k, 24, 40, false))),
            line(format!("sh_info: {}", f(k, 28, 44, false))),
            line(format!("sh_addralign: {}", f(k, 32, 48, true))),
            line(format!("sh_entsize: {}", f(k, 36, 56, true))),
        ];
        (stype, flags, offset, size, v)
    }
}

// ---- mnemonics

fn name32(op: Op) -> Vec<String> {
    use Op::*;
    let d = format!("{op:?}");
    let s = match op {
        FenceI => return vec!["fence.i".into(), "fence".into()],
        SfenceVma => "sfence.vma".into(),
        LrW | LrD | ScW | ScD => format!("{}.{}", &d[..2], &d[2..]),
        AmoswapW | AmoaddW | AmoxorW | AmoandW | AmoorW | AmominW | AmomaxW | AmominuW | AmomaxuW | AmoswapD | AmoaddD
        | AmoxorD | AmoandD | AmoorD | AmominD | AmomaxD | AmominuD | AmomaxuD => {
            format!("{}.{}", &d[..d.len() - 1], &d[d.len() - 1..])
        }
        _ => d,
    };
    vec![s.to_lowercase()]
}

/// The names a valid compressed instruction may go by: hints also by that of the no-operation.
pub(super) fn name16(h: u16, rv64: bool) -> Vec<String> {
    let rd = h >> 7 & 31;
    let rs2 = h >> 2 & 31;
    let b12 = h >> 12 & 1;
    let (n, hint) = match (h & 3, h >> 13) {
        (0, 0) => ("addi4spn", false),
        (0, 2) => ("lw", false),
        (0, 3) => ("ld", false),
        (0, 6) => ("sw", false),
        (0, 7) => ("sd", false),
        (1, 0) if rd == 0 => return if rs2 == 0 && b12 == 0 { vec!["c.nop".into()] } else { vec!["c.nop".into(), "c.addi".into()] },
        (1, 0) => ("addi", false),
        (1, 1) => (if rv64 { "addiw" } else { "jal" }, false),
        (1, 2) => ("li", rd == 0),
        (1, 3) if rd == 2 => ("addi16sp", false),
        (1, 3) => ("lui", rd == 0),
        (1, 4) => (
            match (h >> 10 & 3, b12, h >> 5 & 3) {
                (0, ..) => "srli",
                (1, ..) => "srai",
                (2, ..) => "andi",
                (_, 0, k) => ["sub", "xor", "or", "and"][k as usize],
                (_, _, 0) => "subw",
                _ => "addw",
            },
            false,
        ),
        (1, 5) => ("j", false),
        (1, 6) => ("beqz", false),
        (1, 7) => ("bnez", false),
        (2, 0) => ("slli", rd == 0),
        (2, 2) => ("lwsp", false),
        (2, 3) => ("ldsp", false),
        (2, 4) => match (b12, rd, rs2) {
            (0, _, 0) => ("jr", false),
            (0, ..) => ("mv", rd == 0),
            (_, 0, 0) => ("ebreak", false),
            (_, _, 0) => ("jalr", false),
            _ => ("add", rd == 0),
        },
        (2, 6) => ("swsp", false),
        (2, 7) => ("sdsp", false),
        _ => ("?", false),
    };
    let mut v = vec![format!("c.{n}")];
    if hint {
        v.push("c.nop".into());
    }
    v
}

/// What the disassembly of these bytes has to be: digits, and acceptable mnemonics.
fn listing(code: &[u8], rv64: bool) -> Vec<(String, Vec<String>)> {
    let mut v = vec![];
    let mut at = 0;
    while at < code.len() {
        let rest = code.len() - at;
        let unknown = || vec!["unknown".to_string()];
        if rest == 1 {
            v.push((format!("{:02x}", code[at]), unknown()));
            at += 1;
        } else if code[at] & 3 != 3 || rest < 4 {
            let h = le(code, at, 2) as u16;
            let ok = h & 3 != 3 && decode16(h, rv64).is_some();
            v.push((format!("{h:04x}"), if ok { name16(h, rv64) } else { unknown() }));
            at += 2;
        } else {
            let w = le(code, at, 4) as u32;
            v.push((format!("{w:08x}"), decode32(w, rv64).map_or_else(unknown, |i| name32(i.op))));
            at += 4;
        }
    }
    v
}

// ---- files

fn instructions(r: &mut Rng, rv64: bool, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let style = r.below(4);
    while v.len() < n {
        match if style == 3 { r.below(8) } else { style * 3 + r.below(3) } {
            0 => v.extend((r.u64() as u16).to_le_bytes()),
            1 | 2 => v.push(r.u64() as u8),
            3 => loop {
                let h = r.u64() as u16;
                if h & 3 != 3 && decode16(h, rv64).is_some() {
                    v.extend(h.to_le_bytes());
                    break;
                }
            },
            4 => v.extend((r.u64() as u32 | 3).to_le_bytes()),
            5 => {
                let w = r.u64() as u32;
                // with the opcode of something
                let op = r.pick(&[0x37u32, 0x17, 0x6f, 0x67, 0x63, 3, 0x23, 0x13, 0x33, 0x1b, 0x3b, 0xf, 0x73, 0x2f]);
                let w = if r.bool() { w & 0x01ff_f07f } else { w };
                v.extend((w & !0x7f | op).to_le_bytes());
            }
            _ => {
                use gen::K;
                let k = r.pick(&[K::Alu, K::MulDiv, K::Branch, K::Jump, K::Load, K::Store, K::Amo, K::LrSc, K::Csr, K::Sys, K::Fence, K::C16, K::C16, K::Half]);
                let (w, len) = gen::word_of(r, k, rv64);
                v.extend(&w.to_le_bytes()[..len as usize]);
            }
        }
    }
    v.truncate(n);
    v
}

struct Made {
    bytes: Vec<u8>,
    rv64: bool,
}

/// A well-formed file with its parts in any order, and anything in the fields that may hold anything.
fn make(r: &mut Rng) -> Made {
    let c64 = r.bool();
    let (ehsize, phstd, shstd) = if c64 { (64, 56, 64) } else { (52, 32, 40) };
    let phent = phstd + if r.chance(1, 4) { 8 * r.range(1, 4) as usize } else { 0 };
    let shent = shstd + if r.chance(1, 4) { 8 * r.range(1, 4) as usize } else { 0 };
    let phnum = if r.chance(1, 8) { 0 } else if r.chance(1, 10) { r.range(100, 1200) as usize } else { r.below(6) as usize };
    let shnum = if r.chance(1, 8) { 0 } else if r.chance(1, 10) { r.range(100, 1200) as usize } else { r.range(2, 9) as usize };
    let named = shnum > 0 && !r.chance(1, 10);
    let shstrndx = if named { r.range(1, shnum as u64 - 1) as usize } else { 0 };
    let word = |r: &mut Rng| if c64 { r.edgy(64) } else { r.edgy(32) };

    // the parts: tables, contents
    #[derive(Clone)]
    enum Part {
        Ph,
        Sh,
        Names,
        Blob(usize),
    }
    // names share tails
    let mut names = vec![0u8];
    for _ in 0..r.range(1, 12) {
        let n = r.range(1, 14);
        for k in 0..n {
            let c = match r.below(12) {
                0 => 0xa1 + r.below(0x5e) as u8,
                1 if k > 0 => b'.',
                _ => r.pick(b"abcdefghijklmnopqrstuvwxyz._-$0123456789ABCDEFGH"),
            };
            names.push(c);
        }
        names.push(0);
    }
    let blobs: Vec<Vec<u8>> = (0..r.range(1, 5))
        .map(|_| {
            let n = match r.below(6) {
                0 => r.below(5),
                1 => 4 * r.below(40),
                2 => r.below(3000),
                _ => r.below(200),
            } as usize;
            instructions(r, c64, n)
        })
        .collect();
    let mut parts = vec![Part::Names];
    parts.extend((0..blobs.len()).map(Part::Blob));
    if phnum > 0 {
        parts.push(Part::Ph);
    }
    if shnum > 0 {
        parts.push(Part::Sh);
    }
    for i in (1..parts.len()).rev() {
        parts.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut b = vec![0u8; ehsize + if r.chance(1, 6) { 16 } else { 0 }];
    if r.chance(1, 8) {
        // far apart
        b.resize(b.len() + 65_536 * r.range(1, 4) as usize, 0x5a);
    }
    let (mut phoff, mut shoff, mut names_at) = (0, 0, 0);
    let mut blob_at = vec![0; blobs.len()];
    for p in &parts {
        match p {
            Part::Ph | Part::Sh => {
                while b.len() % 8 != 0 {
                    b.push(0xcc);
                }
                if let Part::Ph = p {
                    phoff = b.len();
                    b.extend((0..phent * phnum).map(|_| 0xee));
                } else {
                    shoff = b.len();
                    b.extend((0..shent * shnum).map(|_| 0xdd));
                }
            }
            Part::Names => {
                names_at = b.len();
                b.extend(&names);
            }
            Part::Blob(k) => {
                blob_at[*k] = b.len();
                b.extend(&blobs[*k]);
            }
        }
        if r.chance(1, 3) {
            let n = r.below(20);
            for _ in 0..n {
                b.push(r.u64() as u8);
            }
        }
    }
    let put = |b: &mut Vec<u8>, at: usize, v: u64, n: usize| b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
    // a stretch of the file
    let stretch = |r: &mut Rng, len: usize| -> (u64, u64) {
        let k = r.below(blobs.len() as u64 + 1) as usize;
        if k < blobs.len() {
            let n = blobs[k].len() as u64;
            if r.chance(1, 3) {
                let o = r.below(n + 1);
                return (blob_at[k] as u64 + o, r.below(n - o + 1));
            }
            return (blob_at[k] as u64, n);
        }
        // up to the end of the file
        let n = r.below(len.min(500) as u64);
        ((len as u64) - n, n)
    };
    let len = b.len();
    let a = if c64 { 8 } else { 4 };
    b[..4].copy_from_slice(b"\x7fELF");
    b[4] = 1 + c64 as u8;
    b[5] = 1;
    b[6] = 1;
    b[7] = r.pick(&[0, 0, 3, 255]);
    b[8] = r.below(3) as u8;
    for k in 9..16 {
        b[k] = if r.chance(1, 4) { r.u64() as u8 } else { 0 };
    }
    let t = r.pick(&[2u64, 2, 1, 3, 4, 0, 5, 0xfe00, 0xffff]);
    put(&mut b, 16, t, 2);
    put(&mut b, 18, if r.bool() { 243 } else { r.below(65536) }, 2);
    put(&mut b, 20, 1, 4);
    let mut at = 24;
    put(&mut b, at, word(r), a);
    put(&mut b, at + a, phoff as u64, a);
    put(&mut b, at + 2 * a, shoff as u64, a);
    at += 3 * a;
    put(&mut b, at, r.edgy(32), 4);
    put(&mut b, at + 4, ehsize as u64, 2);
    put(&mut b, at + 6, if phnum > 0 { phent } else { 0 } as u64, 2);
    put(&mut b, at + 8, phnum as u64, 2);
    put(&mut b, at + 10, if shnum > 0 { shent } else { 0 } as u64, 2);
    put(&mut b, at + 12, shnum as u64, 2);
    put(&mut b, at + 14, shstrndx as u64, 2);
    for k in 0..phnum {
        let at = phoff + k * phent;
        let (o, n) = if phnum > 50 { (0, 0) } else { stretch(r, len) };
        let t = match r.below(5) {
            0 => r.below(9),
            1 => r.pick(&[0x6474_e550, 0x6474_e551, 0x7000_0000, 0x7000_0003, 0x7fff_ffff, 0x6000_0000]),
            _ => 1,
        };
        let f = if r.bool() { r.below(8) } else { r.edgy(32) };
        let (va, pa, ms, al) = (word(r), word(r), word(r), word(r));
        if c64 {
            for (i, (v, n)) in [(t, 4), (f, 4), (o, 8), (va, 8), (pa, 8), (n, 8), (ms, 8), (al, 8)].into_iter().enumerate() {
                put(&mut b, at + [0, 4, 8, 16, 24, 32, 40, 48][i], v, n);
            }
        } else {
            for (i, v) in [t, o, va, pa, n, ms, f, al].into_iter().enumerate() {
                put(&mut b, at + 4 * i, v, 4);
            }
        }
    }
    for k in 0..shnum {
        let at = shoff + k * shent;
        let (mut o, mut n) = stretch(r, len);
        let mut name = if named { r.below(names.len() as u64) } else { 0 };
        let mut t = match r.below(6) {
            0 => r.below(20),
            1 => r.pick(&[0x6fff_fff6u64, 0x7000_0000, 0x7000_0003, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x8000_0001]),
            2 => 8,
            _ => 1,
        };
        let mut flags = match r.below(4) {
            0 => word(r),
            1 => r.below(4096),
            _ => r.pick(&[6u64, 7, 6, 2, 3, 0x36, 4]),
        };
        let (addr, link, info, al, es) = (word(r), r.edgy(32), r.edgy(32), word(r), word(r));
        if shnum > 50 && !r.chance(1, 40) {
            flags &= !4;
        }
        if t == 8 {
            // nothing of it is in the file
            if r.bool() {
                o = word(r);
                n = word(r);
            }
        }
        if t == 0 {
            flags &= !4;
        }
        if k == shstrndx && named {
            (o, n, t) = (names_at as u64, names.len() as u64, 3);
            flags &= !4;
        }
        let rec = if k == 0 {
            name = 0;
            [0; 9]
        } else {
            [t, flags, addr, o, n, link, info, al, es]
        };
        put(&mut b, at, name, 4);
        let widths = [4, a, a, a, a, 4, 4, a, a];
        let mut p = at + 4;
        for (v, w) in rec.into_iter().zip(widths) {
            put(&mut b, p, v, w);
            p += w;
        }
    }
    Made { bytes: b, rv64: c64 }
}

fn options(r: &mut Rng) -> (char, &'static str) {
    let c = r.pick(&['e', 'p', 's', 'd', 'a', 'd']);
    let long = r.bool();
    (
        c,
        match (c, long) {
            ('e', true) => "--elfhead",
            ('e', _) => "-e",
            ('p', true) => "--program",
            ('p', _) => "-p",
            ('s', true) => "--section",
            ('s', _) => "-s",
            ('d', true) => "--disasem",
            ('d', _) => "-d",
            (_, true) => "--all",
            _ => "-a",
        },
    )
}

fn check(cx: &mut Ctx, m: &Made, what: &str) -> Result<(), Violation> {
    let f = File { b: &m.bytes, c64: m.rv64 };
    let (o, flag) = options(&mut cx.rng);
    let d = proc::dir("inspect");
    proc::put(&d, "file.elf", &m.bytes);
    let args = if cx.rng.bool() { [flag, "file.elf"] } else { ["file.elf", flag] };
    let run = proc::carron(&d, &args, || Input::Null);
    proc::remove(&d);
    let what = format!(
        "{what}, ELF{}, {} segments, {} sections, {flag}",
        if m.rv64 { 64 } else { 32 },
        f.phnum(),
        f.shnum()
    );
    if let Some(c) = crashed(&run) {
        return violation("the listing stops", format!("{what}: {c}"));
    }
    if run.timed_out {
        cx.st.inconclusive("deadline");
        return Ok(());
    }
    if run.code != Some(0) {
        return violation("the listing fails", format!("{what}: {} {}", run.ending(), run.err_text()));
    }
    let Some(body) = run.guest_out() else {
        return violation("no greeting before the listing", format!("{what}: {}", run.ending()));
    };
    let text = String::from_utf8_lossy(body).to_string();
    let got: Vec<Line> = text.lines().map(|l| line(l.into())).filter(|l: &Line| !l.is_empty()).collect();
    let mut at = 0;
    let take = |want: &Line, at: &mut usize, part: &str| -> Result<(), Violation> {
        let want_s = want.join(" ");
        match got.get(*at) {
            Some(g) if g == want => {
                *at += 1;
                Ok(())
            }
            g => violation(
                format!("{part}: {}", want[0].trim_end_matches(':')),
                format!("{what}: line {} (empty ones not counted) is {:?} and should be {want_s:?}", *at, g.map(|g| g.join(" "))),
            ),
        }
    };
    if o == 'e' || o == 'a' {
        for l in f.elf_header() {
            take(&l, &mut at, "ELF header")?;
        }
        cx.st.count("ELF headers compared");
    }
    if o == 'p' || o == 'a' {
        for k in 0..f.phnum() {
            let (_, off, n, v) = f.segment(k);
            for l in v {
                take(&l, &mut at, "program header")?;
            }
            cx.st.count("program headers compared");
            if o == 'p' {
                let mut data = m.bytes[off as usize..(off + n) as usize].to_vec();
                data.resize((data.len() + 3) & !3, 0);
                for row in data.chunks(32) {
                    let l = row.chunks(4).map(|w| format!("{:08x}", le(w, 0, 4))).collect();
                    take(&l, &mut at, "segment contents")?;
                }
                cx.st.add("bytes of segment dumps compared", n);
            }
        }
    }
    if o == 's' || o == 'd' || o == 'a' {
        for k in 0..f.shnum() {
            let (t, flags, off, n, v) = f.section(k);
            let dumped = flags & 4 != 0 && t != 8;
            if o != 'a' && !dumped {
                continue;
            }
            for l in v {
                take(&l, &mut at, "section header")?;
            }
            cx.st.count("section headers compared");
            if o == 'a' {
                continue;
            }
            take(&line("--------------------------------".into()), &mut at, "section")?;
            for (digits, names) in listing(&m.bytes[off as usize..(off + n) as usize], m.rv64) {
                let g = got.get(at).cloned().unwrap_or_default();
                if g.first() != Some(&digits) {
                    return violation(
                        "the disassembly does not walk the section",
                        format!("{what}, section {}: line {at} is {g:?} and should begin with {digits}", k + 1),
                    );
                }
                let n = g.get(1).map(|s| s.to_lowercase()).unwrap_or_default();
                if !names.contains(&n) {
                    return violation(
                        format!("the mnemonic of {}", names[0]),
                        format!("{what}, section {}: {digits} is listed as {:?} and is {names:?}", k + 1, g.get(1)),
                    );
                }
                cx.st.count(if names[0] == "unknown" { "data listed as such" } else { "instructions compared" });
                at += 1;
            }
            cx.st.add("bytes of code walked", n);
        }
    }
    if let Some(g) = got.get(at) {
        return violation("more than the file contains", format!("{what}: line {at} is {:?}", g.join(" ")));
    }
    cx.st.name(format!("-{o}"));
    cx.st.case(Some(mix(m.bytes.iter().fold(7, |h, b| mix(h, *b as u64)), o as u64)));
    Ok(())
}

fn made(cx: &mut Ctx) -> Result<(), Violation> {
    let m = make(&mut cx.rng);
    check(cx, &m, "made file")
}

/// Programs as the other checks run them.
fn programs(cx: &mut Ctx) -> Result<(), Violation> {
    let p = genprog::plan(&mut cx.rng);
    let mut e = genprog::generate(&mut cx.rng, &p);
    e.e_flags = cx.rng.edgy(32) as u32;
    let mut data = instructions(&mut cx.rng, p.rv64, 300);
    let n = cx.rng.below(300) as usize;
    data.truncate(n);
    e.secs.push(crate::elf::Sec::new(".text", 1, 6, p.base, data));
    let m = Made { bytes: e.bytes(), rv64: p.rv64 };
    check(cx, &m, "generated program")
}

/// Every halfword, in order, a part at a time; and all the words of some opcode.
fn sweep(cx: &mut Ctx) -> Result<(), Violation> {
    let rv64 = cx.rng.bool();
    let mut code = vec![];
    if cx.rng.bool() {
        let from = cx.rng.below(0x10000) as u16;
        for k in 0..4096 {
            let h = from.wrapping_add(k);
            if h & 3 != 3 {
                code.extend(h.to_le_bytes());
            }
        }
    } else {
        let op = cx.rng.pick(&[0x63u32, 3, 0x23, 0x13, 0x33, 0x1b, 0x3b, 0xf, 0x73, 0x2f, 0x67]);
        for f3 in 0..8u32 {
            for f7 in 0..128u32 {
                let (rs2, rs1, rd) = (cx.rng.u64() as u32, cx.rng.u64() as u32, cx.rng.u64() as u32);
                let z = if cx.rng.bool() { 0 } else { 31 };
                let w = f7 << 25 | (rs2 & z) << 20 | (rs1 & 31) << 15 | f3 << 12 | (rd & z) << 7 | op;
                code.extend(w.to_le_bytes());
            }
        }
    }
    let mut e = crate::elf::Elf::simple(rv64, 0x8000_0000, vec![0; 16]);
    e.secs.push(crate::elf::Sec::new(".text", 1, 6, 0x8000_0000, code));
    let m = Made { bytes: e.bytes(), rv64 };
    check(cx, &m, "sweep")
}

pub fn c27() -> Check {
    Check {
        id: "C27",
        gens: vec![
            Gen { name: "files with everything anywhere", weight: 6, run: made },
            Gen { name: "programs", weight: 1, run: programs },
            Gen { name: "sweeps over encodings", weight: 1, run: sweep },
        ],
        quick: 8000,
        thorough: 120_000,
        rule: "a run of the emulator binary with one of -e -p -s -d -a, every line of the listing compared with what an independent reader finds in the bytes of the file; distinct by file and option",
        assumptions: &[
            "white space and empty lines do not matter, nor does the case of mnemonics",
            "FENCE.I may be listed as fence, a hint also as c.nop; operands are not compared",
            "files are well-formed: fewer than 65,280 sections and 65,535 segments, unused table entries zero, contents within the file",
        ],
        must: &["ELF headers compared", "program headers compared", "section headers compared", "instructions compared", "data listed as such", "bytes of segment dumps compared"],
    }
}
