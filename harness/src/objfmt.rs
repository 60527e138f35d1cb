//! Independent description of the object file format.
use std::collections::BTreeMap;
use telda2::aalv::obj::{
    Entry, Flags, HeapSize, Object, RelocationEntry, RelocationTable, SegmentType, StackSize, SymbolDefinition, SymbolTable,
};

pub const MAGIC: &[u8] = &[0xc3, 0xa1, b'l', b'v', b'u', b'r', b'2', b'\n'];
pub const SAVN: &[u8] = &[0xc3, 0xa1, b'l', b'v', b'a', b's', b'a', b'v', b'n', b'\n'];

/// Segment types by their number in the file
pub const ZERO: u8 = 0;
pub const DATA: u8 = 0x10;
pub const RODATA: u8 = 0x18;
pub const TEXT: u8 = 0x20;
pub const HEAP: u8 = 0x70;
pub const UNKNOWN: u8 = 0xff;
pub const TYPES: [u8; 6] = [ZERO, DATA, RODATA, TEXT, HEAP, UNKNOWN];

pub fn ty(n: u8) -> SegmentType {
    match n {
        0 => SegmentType::Zero,
        0x10 => SegmentType::Data,
        0x18 => SegmentType::RoData,
        0x20 => SegmentType::Text,
        0x70 => SegmentType::Heap,
        0xff => SegmentType::Unknown,
        _ => panic!("no such segment type"),
    }
}
pub fn nr(t: SegmentType) -> u8 {
    match t {
        SegmentType::Zero => 0,
        SegmentType::Data => 0x10,
        SegmentType::RoData => 0x18,
        SegmentType::Text => 0x20,
        SegmentType::Heap => 0x70,
        SegmentType::Unknown => 0xff,
    }
}
pub fn ty_name(n: u8) -> &'static str {
    match n {
        ZERO => "zero",
        DATA => "data",
        RODATA => "rodata",
        TEXT => "text",
        HEAP => "heap",
        _ => "unknown",
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct Sym {
    pub name: String,
    pub global: bool,
    pub ty: u8,
    pub loc: u16,
}
pub fn sym(name: &str, global: bool, ty: u8, loc: u16) -> Sym {
    Sym { name: name.into(), global, ty, loc }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct Rel {
    pub ty: u8,
    pub loc: u16,
    pub sym: u16,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Obj {
    pub entry: Option<(u8, u16)>,
    /// readable text
    pub flags: Option<bool>,
    pub stack: Option<u16>,
    pub heap: Option<u16>,
    pub segs: BTreeMap<u8, (u16, Vec<u8>)>,
    pub syms: Vec<Sym>,
    pub rels: Vec<Rel>,
}

impl Obj {
    pub fn to_real(&self, file_offset: u64) -> Object {
        Object {
            file_offset,
            entry: self.entry.map(|(t, a)| Entry(ty(t), a)),
            flags: self.flags.map(|r| Flags { readable_text: r }),
            stack_size: self.stack.map(StackSize),
            heap_size: self.heap.map(HeapSize),
            segs: self.segs.iter().map(|(&t, (o, b))| (ty(t), (*o, b.clone()))).collect(),
            symbols: SymbolTable(
                self.syms
                    .iter()
                    .map(|s| SymbolDefinition {
                        name: s.name.as_str().into(),
                        is_global: s.global,
                        segment_type: ty(s.ty),
                        location: s.loc,
                    })
                    .collect(),
            ),
            relocation_table: RelocationTable(
                self.rels
                    .iter()
                    .map(|r| RelocationEntry {
                        reference_segment: ty(r.ty),
                        reference_location: r.loc,
                        symbol_index: r.sym,
                    })
                    .collect(),
            ),
        }
    }
    pub fn from_real(o: &Object) -> Obj {
        Obj {
            entry: o.entry.map(|Entry(t, a)| (nr(t), a)),
            flags: o.flags.map(|f| f.readable_text),
            stack: o.stack_size.map(|s| s.0),
            heap: o.heap_size.map(|s| s.0),
            segs: o.segs.iter().map(|(&t, (a, b))| (nr(t), (*a, b.clone()))).collect(),
            syms: o
                .symbols
                .0
                .iter()
                .map(|s| Sym { name: s.name.to_string(), global: s.is_global, ty: nr(s.segment_type), loc: s.location })
                .collect(),
            rels: o
                .relocation_table
                .0
                .iter()
                .map(|r| Rel { ty: nr(r.reference_segment), loc: r.reference_location, sym: r.symbol_index })
                .collect(),
        }
    }
    /// Sections in the order of the object's parts: (name, content)
    pub fn sections(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = Vec::new();
        if let Some((t, a)) = self.entry {
            v.push(("_entry".into(), vec![t, a as u8, (a >> 8) as u8]));
        }
        if let Some(f) = self.flags {
            v.push(("_flags".into(), if f { b"R".to_vec() } else { vec![] }));
        }
        if let Some(s) = self.stack {
            v.push(("_stack_size".into(), s.to_le_bytes().to_vec()));
        }
        if let Some(s) = self.heap {
            v.push(("_heap_size".into(), s.to_le_bytes().to_vec()));
        }
        for (&t, (o, b)) in &self.segs {
            let mut c = vec![*o as u8, (*o >> 8) as u8, t];
            c.extend(b);
            v.push(("_seg".into(), c));
        }
        if !self.syms.is_empty() {
            let mut c = Vec::new();
            for s in &self.syms {
                if !s.global {
                    c.push(b' ');
                }
                c.extend(s.name.as_bytes());
                c.extend([0, s.ty, s.loc as u8, (s.loc >> 8) as u8]);
            }
            v.push(("_syms".into(), c));
        }
        if !self.rels.is_empty() {
            let mut c = Vec::new();
            for r in &self.rels {
                c.extend([r.ty, r.loc as u8, (r.loc >> 8) as u8, r.sym as u8, (r.sym >> 8) as u8]);
            }
            v.push(("_reloc".into(), c));
        }
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        file(&self.sections())
    }
    /// The largest section fits the 16-bit size field
    pub fn fits(&self) -> bool {
        self.sections().iter().all(|(_, c)| c.len() <= 0xffff)
    }
    pub fn bytes_at(&self, a: u8) -> Option<&(u16, Vec<u8>)> {
        self.segs.get(&a)
    }
}

/// Names of symbols that a tool might take for something else; no space at the ends, no NUL or line end
pub fn names() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "A", "Aa", "aA", "_", "__", "_x", "__x", "_start", "_entry", "_flags", "_seg", "_syms", "_reloc", ".", "..", ".a", ".L1", ".local", ".entry", ".text", "$a", "@L0", "@L1", "@", "1", "0", "00", "10", "0x80", "80", "-", "-a", "--all",
        "a b", "a  b", "a\tb", "a=b", "a = b", "a:b", "a:", "a,b", "a, b", "<a>", "a>", "<a", "(", "#c", ";c", "\"q\"", "'", "\\", "%s", "{}", "{a}", "%", "*", "/", "a/b", "a.to", "a.b.c", "main", "Main", "start", "entry", "stack", "heap", "text",
        "data", "rodata", "zero", "unknown", "UNDEFINED", "GLOBAL", "GLOBAL a", "local", "local a", "debug", "tmp", "L", "L0", "L1", "l1", "r1", "r0", "r0b", "rs", "rl", "add", "nop", "halt", "call", "ret", "ldi", "true", "null", "undefined", "Halt",
        "\u{e9}", "\u{c9}", "e\u{301}", "\u{df}", "SS", "\u{130}", "i", "I", "\u{131}", "\u{fb01}", "\u{65e5}\u{672c}", "\u{1f600}", "\u{200b}", "\u{feff}x", "\u{7f}", "\u{1b}[0m", "\u{1}", "x\u{300}\u{301}", "\u{10ffff}", "\u{fffd}",
        "\u{e6}\u{f8}\u{e5}", "\u{e1}lvur2", "\u{e1}lvasavn", "#!/bin/env t", "a_rather_long_name_of_a_function_in_a_library",
    ]
    .map(String::from)
    .to_vec();
    for c in (0x21..0x7fu8).map(|c| c as char) {
        v.extend([format!("a{c}b"), format!("{c}a"), format!("a{c}"), format!("{c}{c}")]);
    }
    for n in [7usize, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        v.extend(["n".repeat(n), "n".repeat(n - 1) + "m", "\u{e9}".repeat(n)]);
    }
    v.sort();
    v.dedup();
    v
}

/// Assemble a file from sections
pub fn file(sections: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut f = MAGIC.to_vec();
    for (n, c) in sections {
        f.extend(n.as_bytes());
        f.push(0);
        f.extend((c.len() as u16).to_le_bytes());
        f.extend(c);
    }
    f.push(0);
    f
}

/// What a reader has to make of a byte string
#[derive(Debug, PartialEq, Clone)]
pub enum Verdict {
    /// a valid object (offset of the signature); see `ends`
    Object(usize, Obj),
    /// must be rejected, because ...
    Reject(&'static str),
    /// not settled by the format's description
    Either(&'static str),
}

/// Whether the file ends with the sections whose signature is at `at`
pub fn ends(f: &[u8], at: usize) -> bool {
    let mut p = at + MAGIC.len();
    loop {
        match f[p.min(f.len())..].iter().position(|&b| b == 0) {
            None => return false,
            Some(0) => return p + 1 == f.len(),
            Some(e) if p + e + 3 > f.len() => return false,
            Some(e) => p += e + 3 + (f[p + e + 1] as usize | (f[p + e + 2] as usize) << 8),
        }
    }
}

pub fn judge(f: &[u8]) -> Verdict {
    use Verdict::*;
    let Some(at) = (0..f.len()).find(|&i| f[i..].starts_with(MAGIC)) else {
        return Reject("no signature");
    };
    let mut p = at + MAGIC.len();
    let mut secs: Vec<(Vec<u8>, &[u8])> = Vec::new();
    let mut beyond = false;
    loop {
        let Some(e) = f[p.min(f.len())..].iter().position(|&b| b == 0) else {
            return Reject("truncated");
        };
        let name = &f[p..p + e];
        p += e + 1;
        if name.is_empty() {
            break;
        }
        if p + 2 > f.len() {
            return Reject("truncated");
        }
        let len = f[p] as usize | (f[p + 1] as usize) << 8;
        p += 2;
        if p + len > f.len() {
            beyond = true;
            break;
        }
        secs.push((name.to_vec(), &f[p..p + len]));
        p += len;
    }
    if beyond {
        return Reject("truncated");
    }
    let mut o = Obj::default();
    let mut either = None;
    let mut seen: Vec<&[u8]> = Vec::new();
    let w = |a: u8, b: u8| a as u16 | (b as u16) << 8;
    let segty = |t: u8| TYPES.contains(&t);
    for (name, c) in &secs {
        if &name[..] != b"_seg" && name.starts_with(b"_") {
            if seen.contains(&&name[..]) {
                either = Some("repeated section");
                continue;
            }
            seen.push(name);
        }
        match &name[..] {
            b"_entry" => {
                if c.len() < 3 {
                    return Reject("short entry");
                }
                if !segty(c[0]) {
                    return Reject("unknown segment type");
                }
                if c.len() > 3 {
                    either = Some("long entry section");
                }
                o.entry = Some((c[0], w(c[1], c[2])));
            }
            b"_flags" => {
                if c.iter().any(|b| *b != b'R') {
                    return Reject("unknown flag letter");
                }
                o.flags = Some(!c.is_empty());
            }
            b"_stack_size" | b"_heap_size" => {
                if c.len() < 2 {
                    return Reject("short size");
                }
                if c.len() > 2 {
                    either = Some("long size section");
                }
                let v = Some(w(c[0], c[1]));
                if &name[..] == b"_stack_size" {
                    o.stack = v
                } else {
                    o.heap = v
                }
            }
            b"_seg" => {
                if c.len() < 3 {
                    return Reject("short segment");
                }
                if !segty(c[2]) {
                    return Reject("unknown segment type");
                }
                if o.segs.insert(c[2], (w(c[0], c[1]), c[3..].to_vec())).is_some() {
                    return Reject("duplicate segment");
                }
            }
            b"_syms" => {
                let mut p = 0;
                while p < c.len() {
                    let Some(e) = c[p..].iter().position(|&b| b == 0) else {
                        return Reject("unfinished symbol");
                    };
                    let n = &c[p..p + e];
                    p += e + 1;
                    if p + 3 > c.len() {
                        return Reject("unfinished symbol");
                    }
                    if !segty(c[p]) {
                        return Reject("unknown segment type");
                    }
                    let global = n.first() != Some(&b' ');
                    let n = if global { n } else { &n[1..] };
                    match std::str::from_utf8(n) {
                        Ok(s) => o.syms.push(Sym { name: s.into(), global, ty: c[p], loc: w(c[p + 1], c[p + 2]) }),
                        Err(_) => {
                            either = Some("symbol name is not UTF-8");
                            o.syms.push(Sym::default());
                        }
                    }
                    p += 3;
                }
            }
            b"_reloc" => {
                if c.len() % 5 != 0 {
                    either = Some("partial relocation entry");
                }
                for e in c.chunks_exact(5) {
                    if !segty(e[0]) {
                        return Reject("unknown segment type");
                    }
                    o.rels.push(Rel { ty: e[0], loc: w(e[1], e[2]), sym: w(e[3], e[4]) });
                }
            }
            n if n.starts_with(b"_") => return Reject("unknown reserved section"),
            _ => either = Some("section of another kind"),
        }
    }
    match either {
        Some(e) => Either(e),
        None => Object(at, o),
    }
}
