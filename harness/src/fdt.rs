//! A strict parser of flattened device trees (Devicetree Specification v0.4, chapter 5).

use std::collections::{BTreeMap, HashSet};

#[derive(Default, Debug, Clone)]
pub struct Node {
    pub name: String,
    pub props: BTreeMap<String, Vec<u8>>,
    pub kids: Vec<Node>,
}

impl Node {
    pub fn cells(&self, p: &str) -> Result<Vec<u32>, String> {
        let v = self.props.get(p).ok_or(format!("node {:?} has no property {p}", self.name))?;
        if v.len() % 4 != 0 {
            return Err(format!("{}/{p} is {} bytes long, not cells", self.name, v.len()));
        }
        Ok(v.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect())
    }
    pub fn strings(&self, p: &str) -> Result<Vec<String>, String> {
        let v = self.props.get(p).ok_or(format!("node {:?} has no property {p}", self.name))?;
        if v.last() != Some(&0) {
            return Err(format!("{}/{p} is not terminated: {v:x?}", self.name));
        }
        v[..v.len() - 1]
            .split(|b| *b == 0)
            .map(|s| {
                if s.iter().all(|b| (0x20..0x7f).contains(b)) {
                    Ok(String::from_utf8(s.to_vec()).unwrap())
                } else {
                    Err(format!("{}/{p} holds unprintable text {s:x?}", self.name))
                }
            })
            .collect()
    }
    pub fn at(&self, path: &str) -> Result<&Node, String> {
        let mut n = self;
        for part in path.split('/').filter(|s| !s.is_empty()) {
            n = n.kids.iter().find(|k| k.name == part).ok_or(format!("no node {path} ({part})"))?;
        }
        Ok(n)
    }
    pub fn each<'a>(&'a self, path: &str, f: &mut dyn FnMut(&str, &'a Node)) {
        let path = if self.name.is_empty() { String::new() } else { format!("{path}/{}", self.name) };
        f(&path, self);
        for k in &self.kids {
            k.each(&path, f);
        }
    }
    pub fn phandle(&self) -> Result<u32, String> {
        Ok(self.cells("phandle")?[0])
    }
}

fn name_ok(s: &str, unit: bool) -> bool {
    !s.is_empty()
        && s.bytes().all(|b| b.is_ascii_alphanumeric() || b",._+-".contains(&b) || (!unit && b"?#".contains(&b)) || (unit && b == b'@'))
}

/// The tree in `rom[off..]`.
pub fn parse(rom: &[u8], off: usize) -> Result<Node, String> {
    if off % 8 != 0 {
        return Err(format!("the tree is at offset {off:#x}, not a multiple of 8"));
    }
    let word = |at: usize| -> Result<u32, String> {
        rom.get(off + at..off + at + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).ok_or(format!("offset {at:#x} is outside the boot ROM"))
    };
    if word(0)? != 0xd00dfeed {
        return Err(format!("magic {:#x}", word(0)?));
    }
    let total = word(4)? as usize;
    let (o_struct, o_str, o_rsv) = (word(8)? as usize, word(12)? as usize, word(16)? as usize);
    let (version, last, n_str, n_struct) = (word(20)?, word(24)?, word(32)? as usize, word(36)? as usize);
    if off + total > rom.len() {
        return Err(format!("totalsize {total:#x} goes beyond the boot ROM"));
    }
    if version < 17 || last > 17 || last < 1 || last > version {
        return Err(format!("version {version}, compatible with {last}"));
    }
    if word(28)? != 0 {
        return Err(format!("boot cpu {}", word(28)?));
    }
    if o_struct % 4 != 0 || n_struct % 4 != 0 || o_rsv % 8 != 0 {
        return Err(format!("misaligned blocks: structure {o_struct:#x}+{n_struct:#x}, reservations {o_rsv:#x}"));
    }
    for (n, o, l) in [("structure", o_struct, n_struct), ("strings", o_str, n_str), ("reservations", o_rsv, 16)] {
        if o < 40 || o + l > total {
            return Err(format!("the {n} block {o:#x}+{l:#x} is outside the tree of {total:#x} bytes"));
        }
    }
    // the reservation map: terminated before the next block
    let mut at = o_rsv;
    let mut entries = 0;
    loop {
        if at + 16 > total {
            return Err("the reservation map does not end".into());
        }
        let e = [word(at)?, word(at + 4)?, word(at + 8)?, word(at + 12)?];
        at += 16;
        if e == [0; 4] {
            break;
        }
        entries += 1;
    }
    if entries != 0 {
        return Err(format!("{entries} memory reservations"));
    }
    let mut spans = [(o_rsv, at), (o_struct, o_struct + n_struct), (o_str, o_str + n_str)];
    spans.sort();
    if spans[0].1 > spans[1].0 || spans[1].1 > spans[2].0 {
        return Err(format!("blocks overlap: {spans:x?}"));
    }
    let string = |o: usize| -> Result<String, String> {
        if o >= n_str {
            return Err(format!("string offset {o:#x} outside the block of {n_str:#x}"));
        }
        let s = &rom[off + o_str + o..off + o_str + n_str];
        let e = s.iter().position(|b| *b == 0).ok_or("string without end")?;
        String::from_utf8(s[..e].to_vec()).map_err(|_| "string not text".into())
    };
    let mut stack: Vec<Node> = vec![];
    let mut root = None;
    let mut at = o_struct;
    let end = o_struct + n_struct;
    loop {
        if at + 4 > end {
            return Err("the structure block ends without FDT_END".into());
        }
        let t = word(at)?;
        at += 4;
        match t {
            1 => {
                if root.is_some() {
                    return Err("a second root".into());
                }
                let s = &rom[off + at..off + end];
                let e = s.iter().position(|b| *b == 0).ok_or("node name without end")?;
                let name = String::from_utf8(s[..e].to_vec()).map_err(|_| "node name not text")?;
                if stack.is_empty() != name.is_empty() || (!name.is_empty() && (!name_ok(&name, true) || name.matches('@').count() > 1)) {
                    return Err(format!("node name {name:?} at depth {}", stack.len()));
                }
                if s[e..(e + 4) & !3].iter().any(|b| *b != 0) {
                    return Err(format!("padding after the node name {name:?} is not zero"));
                }
                at += (e + 4) & !3;
                stack.push(Node { name, ..Default::default() });
            }
            2 => {
                let n = stack.pop().ok_or("FDT_END_NODE without a node")?;
                match stack.last_mut() {
                    Some(p) => {
                        if p.kids.iter().any(|k| k.name == n.name) {
                            return Err(format!("two nodes named {}", n.name));
                        }
                        p.kids.push(n)
                    }
                    None => root = Some(n),
                }
            }
            3 => {
                let (len, no) = (word(at)? as usize, word(at + 4)? as usize);
                at += 8;
                if at + len > end {
                    return Err("a property goes beyond the structure block".into());
                }
                let name = string(no)?;
                let n = stack.last_mut().ok_or("a property outside all nodes")?;
                if !name_ok(&name, false) {
                    return Err(format!("property name {name:?}"));
                }
                if !n.kids.is_empty() {
                    return Err(format!("property {name} after a subnode of {:?}", n.name));
                }
                if n.props.insert(name.clone(), rom[off + at..off + at + len].to_vec()).is_some() {
                    return Err(format!("property {name} twice in {:?}", n.name));
                }
                at += (len + 3) & !3;
            }
            4 => (),
            9 => break,
            t => return Err(format!("token {t:#x} in the structure block at {at:#x}")),
        }
    }
    if at != end {
        return Err(format!("FDT_END at {at:#x}, but the structure block ends at {end:#x}"));
    }
    if !stack.is_empty() {
        return Err("nodes left open".into());
    }
    let root = root.ok_or("no root node")?;
    let mut seen = HashSet::new();
    let mut bad = None;
    root.each("", &mut |p, n| {
        if let Some(v) = n.props.get("phandle") {
            if v.len() != 4 || v == &[0; 4] || v == &[0xff; 4] {
                bad = Some(format!("phandle {v:x?} of {p}"));
            } else if !seen.insert(v.clone()) {
                bad = Some(format!("phandle {v:x?} of {p} is not unique"));
            }
        }
    });
    match bad {
        Some(b) => Err(b),
        None => Ok(root),
    }
}
