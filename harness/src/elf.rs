//! A small ELF writer (32/64-bit little-endian RISC-V executables) with full control over every
//! field, used to build guests for the emulator.

#[derive(Clone)]
pub struct Seg {
    pub ptype: u32,
    pub flags: u32,
    pub vaddr: u64,
    pub paddr: u64,
    pub data: Vec<u8>,
    pub memsz: u64,
    pub align: u64,
}

impl Seg {
    pub fn load(addr: u64, data: Vec<u8>) -> Seg {
        let memsz = data.len() as u64;
        Seg { ptype: 1, flags: 7, vaddr: addr, paddr: addr, data, memsz, align: 0x1000 }
    }
}

#[derive(Clone)]
pub struct Sec {
    pub name: String,
    pub stype: u32,
    pub flags: u64,
    pub addr: u64,
    pub data: Vec<u8>,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}

impl Sec {
    pub fn new(name: &str, stype: u32, flags: u64, addr: u64, data: Vec<u8>) -> Sec {
        let size = data.len() as u64;
        Sec { name: name.into(), stype, flags, addr, data, size, link: 0, info: 0, align: 4, entsize: 0 }
    }
}

#[derive(Clone)]
pub struct Elf {
    pub rv64: bool,
    pub entry: u64,
    pub segs: Vec<Seg>,
    pub secs: Vec<Sec>,
    pub syms: Vec<(String, u64)>,
    pub e_flags: u32,
    pub pad: usize,     // extra bytes between parts of the file
    pub sh_first: bool, // section headers before the contents
    /// where among the sections the symbol table is, and whether its strings come before it
    pub sym_at: Option<usize>,
    pub str_first: bool,
}

/// Where the parts of the written file are.
#[derive(Clone, Default, Debug)]
pub struct Layout {
    pub phoff: u64,
    pub shoff: u64,
    pub seg_off: Vec<u64>,
    pub sec_off: Vec<u64>,
    pub shstrndx: usize,
    pub shnum: usize,
    pub names: Vec<String>,
}

impl Elf {
    pub fn new(rv64: bool, entry: u64) -> Elf {
        Elf { rv64, entry, segs: vec![], secs: vec![], syms: vec![], e_flags: 1, pad: 0, sh_first: false, sym_at: None, str_first: false }
    }

    pub fn simple(rv64: bool, addr: u64, code: Vec<u8>) -> Elf {
        let mut e = Elf::new(rv64, addr);
        e.segs.push(Seg::load(addr, code));
        e
    }

    pub fn htif(mut self, tohost: u64, fromhost: u64) -> Elf {
        self.syms.push(("tohost".into(), tohost));
        self.syms.push(("fromhost".into(), fromhost));
        self
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.build().0
    }

    pub fn build(&self) -> (Vec<u8>, Layout) {
        let b64 = self.rv64;
        let (ehsz, phsz, shsz, symsz) = if b64 { (64, 56, 64, 24) } else { (52, 32, 40, 16) };
        let mut secs = vec![Sec::new("", 0, 0, 0, vec![])];
        secs[0].align = 0;
        secs.extend(self.secs.iter().cloned());
        if !self.syms.is_empty() {
            let mut strtab = vec![0u8];
            let mut symtab = vec![0u8; symsz];
            for (name, addr) in &self.syms {
                let off = strtab.len() as u32;
                strtab.extend(name.as_bytes());
                strtab.push(0);
                symtab.extend(off.to_le_bytes());
                if b64 {
                    symtab.extend([0x10, 0]);
                    symtab.extend(0xfff1u16.to_le_bytes());
                    symtab.extend(addr.to_le_bytes());
                    symtab.extend(0u64.to_le_bytes());
                } else {
                    symtab.extend((*addr as u32).to_le_bytes());
                    symtab.extend(0u32.to_le_bytes());
                    symtab.extend([0x10, 0]);
                    symtab.extend(0xfff1u16.to_le_bytes());
                }
            }
            let mut s = Sec::new(".symtab", 2, 0, 0, symtab);
            let at = self.sym_at.unwrap_or(self.secs.len()).min(self.secs.len()) + 1;
            s.link = if self.str_first { at } else { at + 1 } as u32;
            s.info = 1;
            s.entsize = symsz as u64;
            s.align = 8;
            let t = Sec::new(".strtab", 3, 0, 0, strtab);
            let both = if self.str_first { [t, s] } else { [s, t] };
            secs.splice(at..at, both);
        }
        let mut shstr = vec![];
        let mut name_off = vec![];
        let shstr_name = ".shstrtab";
        for s in secs.iter() {
            name_off.push(shstr.len() as u32);
            shstr.extend(s.name.as_bytes());
            shstr.push(0);
        }
        name_off.push(shstr.len() as u32);
        shstr.extend(shstr_name.as_bytes());
        shstr.push(0);
        secs.push(Sec::new(shstr_name, 3, 0, 0, shstr));
        let mut lay = Layout { shstrndx: secs.len() - 1, shnum: secs.len(), ..Default::default() };
        lay.names = secs.iter().map(|s| s.name.clone()).collect();

        let mut out = vec![0u8; ehsz];
        lay.phoff = ehsz as u64;
        out.resize(ehsz + phsz * self.segs.len(), 0);
        out.resize((out.len() + self.pad + 7) & !7, 0);
        if self.sh_first {
            lay.shoff = out.len() as u64;
            out.resize(out.len() + shsz * secs.len(), 0);
        }
        for s in &self.segs {
            out.resize((out.len() + self.pad + 7) & !7, 0);
            lay.seg_off.push(out.len() as u64);
            out.extend(&s.data);
        }
        for s in &secs {
            out.resize((out.len() + self.pad + 7) & !7, 0);
            lay.sec_off.push(out.len() as u64);
            if s.stype != 8 {
                out.extend(&s.data);
            }
        }
        if !self.sh_first {
            out.resize((out.len() + self.pad + 7) & !7, 0);
            lay.shoff = out.len() as u64;
            out.resize(out.len() + shsz * secs.len(), 0);
        }

        let mut h = vec![0x7f, b'E', b'L', b'F', if b64 { 2 } else { 1 }, 1, 1, 0];
        h.resize(16, 0);
        h.extend(2u16.to_le_bytes());
        h.extend(243u16.to_le_bytes());
        h.extend(1u32.to_le_bytes());
        let addr = |h: &mut Vec<u8>, v: u64| {
            if b64 {
                h.extend(v.to_le_bytes())
            } else {
                h.extend((v as u32).to_le_bytes())
            }
        };
        addr(&mut h, self.entry);
        addr(&mut h, lay.phoff);
        addr(&mut h, lay.shoff);
        h.extend(self.e_flags.to_le_bytes());
        h.extend((ehsz as u16).to_le_bytes());
        h.extend((phsz as u16).to_le_bytes());
        h.extend((self.segs.len() as u16).to_le_bytes());
        h.extend((shsz as u16).to_le_bytes());
        h.extend((secs.len() as u16).to_le_bytes());
        h.extend((lay.shstrndx as u16).to_le_bytes());
        out[..ehsz].copy_from_slice(&h);
        for (i, s) in self.segs.iter().enumerate() {
            let mut p = vec![];
            p.extend(s.ptype.to_le_bytes());
            if b64 {
                p.extend(s.flags.to_le_bytes());
            }
            addr(&mut p, lay.seg_off[i]);
            addr(&mut p, s.vaddr);
            addr(&mut p, s.paddr);
            addr(&mut p, s.data.len() as u64);
            addr(&mut p, s.memsz);
            if !b64 {
                p.extend(s.flags.to_le_bytes());
            }
            addr(&mut p, s.align);
            let o = lay.phoff as usize + i * phsz;
            out[o..o + phsz].copy_from_slice(&p);
        }
        for (i, s) in secs.iter().enumerate() {
            let mut p = vec![];
            p.extend(name_off[i].to_le_bytes());
            p.extend(s.stype.to_le_bytes());
            addr(&mut p, s.flags);
            addr(&mut p, s.addr);
            addr(&mut p, if i == 0 { 0 } else { lay.sec_off[i] });
            addr(&mut p, s.size);
            p.extend(s.link.to_le_bytes());
            p.extend(s.info.to_le_bytes());
            addr(&mut p, s.align);
            addr(&mut p, s.entsize);
            let o = lay.shoff as usize + i * shsz;
            out[o..o + shsz].copy_from_slice(&p);
        }
        (out, lay)
    }
}
