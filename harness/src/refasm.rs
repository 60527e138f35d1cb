//! Reference assembler, written from the documentation (README instruction and register tables).
use crate::objfmt::*;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Lit {
    Num(i64),
    Byte(u8),
    Wide(u16),
    /// an identifier
    Name(String),
    /// certainly an error, or at most an undefined label
    Bad,
    /// not settled: an error or this value
    Open(Box<Lit>),
    /// hexadecimal number whose last digit is b: the value, and the value when that b is taken for a suffix
    HexB(Box<Lit>, Box<Lit>),
}

pub fn unescape(s: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' {
            v.push(s[i]);
            i += 1;
            continue;
        }
        let c = *s.get(i + 1)?;
        i += 2;
        v.push(match c {
            b'r' => 13,
            b't' => 9,
            b'n' => 10,
            b'0' => 0,
            b'\\' | b'\'' | b'"' => c,
            b'x' => {
                let d = s.get(i..i + 2)?;
                let h = |c: u8| (c as char).to_digit(16);
                i += 2;
                (h(d[0])? * 16 + h(d[1])?) as u8
            }
            _ => return None,
        });
    }
    Some(v)
}

fn digits(s: &str, radix: u32) -> Option<i64> {
    if s.is_empty() {
        return None;
    }
    let mut v: i64 = 0;
    for c in s.chars() {
        v = (v * radix as i64 + c.to_digit(radix)? as i64).min(1 << 50);
    }
    Some(v)
}
fn suffixed(neg: bool, v: Option<i64>, suffix: &str) -> Lit {
    let Some(v) = v else { return Lit::Bad };
    let v = if neg { -v } else { v };
    match suffix {
        "b" if (-128..=255).contains(&v) => Lit::Byte(v as u8),
        "w" if (-32768..=65535).contains(&v) => Lit::Wide(v as u16),
        "" if v >= i32::MIN as i64 && v <= i32::MAX as i64 => Lit::Num(v),
        "" => Lit::Open(Box::new(Lit::Num(v))),
        _ => Lit::Bad,
    }
}
pub fn ident(s: &str) -> bool {
    !s.is_empty() && !s.starts_with(|c: char| c.is_ascii_digit()) && s.chars().all(|c| c.is_alphanumeric() || c == '_')
}

/// A literal, not a register name
pub fn lit(s: &str) -> Lit {
    if s.len() >= 2 && s.starts_with('\'') && s.ends_with('\'') {
        return match unescape(&s.as_bytes()[1..s.len() - 1]).as_deref() {
            Some([b]) => Lit::Byte(*b),
            _ => Lit::Bad,
        };
    }
    if ident(s) {
        return Lit::Name(s.to_string());
    }
    // sign, prefix, sign, digits, suffix
    let mut t = s;
    let mut neg = false;
    let mut signs = 0;
    let sign = |t: &mut &str, neg: &mut bool, signs: &mut i32| {
        if let Some(r) = t.strip_prefix('-') {
            *t = r;
            *neg = true;
            *signs += 1;
        } else if let Some(r) = t.strip_prefix('+') {
            *t = r;
            *signs += 1;
        }
    };
    sign(&mut t, &mut neg, &mut signs);
    let mut radix = 10;
    for (p, x) in [("0x", 16), ("0o", 8), ("0b", 2)] {
        if let Some(r) = t.strip_prefix(p) {
            radix = x;
            // a decimal zero with the suffix b
            if x == 2 && r.is_empty() {
                return Lit::Open(Box::new(Lit::Byte(0)));
            }
            t = r;
            break;
        }
    }
    let open = radix != 10 && signs > 0;
    if radix != 10 {
        sign(&mut t, &mut neg, &mut signs);
    }
    if signs > 1 {
        return Lit::Bad;
    }
    let wrap = |l: Lit| match l {
        Lit::Bad => Lit::Bad,
        Lit::Open(l) => Lit::Open(l),
        l if open => Lit::Open(Box::new(l)),
        l => l,
    };
    if let Some(d) = t.strip_suffix('b') {
        if radix == 16 {
            let doc = suffixed(neg, digits(t, 16), "");
            let alt = suffixed(neg, digits(d, 16), "b");
            return match doc {
                Lit::Bad => Lit::Bad,
                // both the placement of the sign and the b are open
                doc if open => Lit::HexB(Box::new(Lit::Open(Box::new(doc))), Box::new(Lit::Open(Box::new(alt)))),
                doc => Lit::HexB(Box::new(doc), Box::new(alt)),
            };
        }
        return wrap(suffixed(neg, digits(d, radix), "b"));
    }
    if let Some(d) = t.strip_suffix('w') {
        return wrap(suffixed(neg, digits(d, radix), "w"));
    }
    wrap(suffixed(neg, digits(t, radix), ""))
}

pub const BREGS: [&str; 16] = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"];
pub const WREGS: [&str; 16] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"];

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    B(u8),
    W(u8),
    L(Lit),
}
pub fn operand(s: &str) -> Op {
    let s = s.trim();
    if let Some(i) = BREGS.iter().position(|r| *r == s) {
        Op::B(i as u8)
    } else if let Some(i) = WREGS.iter().position(|r| *r == s) {
        Op::W(i as u8)
    } else {
        Op::L(lit(s))
    }
}

/// mnemonics, opcode, operand kinds (b/w register, 1 byte immediate, 2 wide immediate) in source order
pub const FORMS: &[(&[&str], u8, &str)] = &[
    (&["null"], 0x00, ""),
    (&["halt"], 0x0a, ""),
    (&["ctf"], 0x0b, ""),
    (&["syscall"], 0x0c, ""),
    (&["reth"], 0x0d, ""),
    (&["nop"], 0x20, ""),
    (&["push"], 0x21, "b"),
    (&["push"], 0x22, "w"),
    (&["pop"], 0x23, "b"),
    (&["pop"], 0x24, "w"),
    (&["call"], 0x25, "2"),
    (&["ret"], 0x26, ""),
    (&["ret"], 0x26, "1"),
    (&["store", "str"], 0x27, "w2b"),
    (&["store", "str"], 0x28, "w2w"),
    (&["store", "str"], 0x29, "wwb"),
    (&["store", "str"], 0x2a, "www"),
    (&["load"], 0x2b, "bw2"),
    (&["load"], 0x2c, "ww2"),
    (&["load"], 0x2d, "bww"),
    (&["load"], 0x2e, "www"),
    (&["jez"], 0x2f, "2"),
    (&["jlt"], 0x30, "2"),
    (&["jle"], 0x31, "2"),
    (&["jgt"], 0x32, "2"),
    (&["jge"], 0x33, "2"),
    (&["jnz", "jne"], 0x34, "2"),
    (&["jo"], 0x35, "2"),
    (&["jno"], 0x36, "2"),
    (&["jb", "jc"], 0x37, "2"),
    (&["jae", "jnc"], 0x38, "2"),
    (&["ja"], 0x39, "2"),
    (&["jbe"], 0x3a, "2"),
    (&["ldi"], 0x3f, "b1"),
    (&["ldi"], 0x40, "w2"),
    (&["jmp", "jump"], 0x40, "2"),
    (&["jmp", "jump"], 0x40, "w"),
    (&["add"], 0x41, "bbb"),
    (&["add"], 0x42, "www"),
    (&["sub"], 0x43, "bbb"),
    (&["sub"], 0x44, "www"),
    (&["and"], 0x45, "bbb"),
    (&["and"], 0x46, "www"),
    (&["or"], 0x47, "bbb"),
    (&["or"], 0x48, "www"),
    (&["xor"], 0x49, "bbb"),
    (&["xor"], 0x4a, "www"),
    (&["shl"], 0x4b, "bbb"),
    (&["shl"], 0x4c, "www"),
    (&["asr"], 0x4d, "bbb"),
    (&["asr"], 0x4e, "www"),
    (&["lsr"], 0x4f, "bbb"),
    (&["lsr"], 0x50, "www"),
    (&["div"], 0x51, "bbbb"),
    (&["div"], 0x52, "wwww"),
    (&["mul"], 0x53, "bbbb"),
    (&["mul"], 0x54, "wwww"),
];
/// Documented instructions that the assembler does not know: refused or assembled as documented
pub const EXTRA: &[(&[&str], u8, &str)] = &[
    (&["usr"], 0x10, ""),
    (&["vmon"], 0x11, ""),
    (&["vmoff"], 0x12, ""),
    (&["pstore"], 0x13, "bwb"),
    (&["pload"], 0x14, "bbw"),
];

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Nothing,
    Label(String),
    /// bytes, and a label whose address goes to the given offset
    Bytes(Vec<u8>, Option<(usize, String)>),
    Seg(u8),
    Entry,
    Global(String),
    Ref(String),
    Include(String),
    Invalid,
    /// not settled
    Open,
}

/// The opcode the ja/jb mix-up gives (known finding); `swap` selects what the implementation does
fn opc(m: &str, o: u8, swap: bool) -> u8 {
    match m {
        "jb" | "jc" if swap => 0x39,
        "ja" if swap => 0x37,
        _ => o,
    }
}

pub fn instruction(m: &str, ops: &[Op], swap: bool) -> Item {
    let fits = |k: char, o: &Op| -> Option<bool> {
        // None: not settled
        let l = |l: &Lit| -> Option<bool> {
            match (k, l) {
                (_, Lit::Open(_)) | (_, Lit::HexB(..)) => None,
                ('1', Lit::Num(_) | Lit::Byte(_)) => Some(true),
                ('2', Lit::Num(_) | Lit::Wide(_) | Lit::Name(_)) => Some(true),
                _ => Some(false),
            }
        };
        match o {
            Op::B(_) => Some(k == 'b'),
            Op::W(_) => Some(k == 'w'),
            Op::L(x) => {
                if k == '1' || k == '2' {
                    l(x)
                } else {
                    Some(false)
                }
            }
        }
    };
    let mut open = false;
    for (extra, &(ms, o, ks)) in FORMS.iter().map(|f| (false, f)).chain(EXTRA.iter().map(|f| (true, f))) {
        if !ms.contains(&m) || ks.len() != ops.len() {
            continue;
        }
        let f: Vec<Option<bool>> = ks.chars().zip(ops).map(|(k, o)| fits(k, o)).collect();
        if f.contains(&Some(false)) {
            continue;
        }
        if f.contains(&None) || extra {
            open = true;
            continue;
        }
        let mut regs = Vec::new();
        let mut imm = Vec::new();
        let mut label = None;
        for (k, op) in ks.chars().zip(ops) {
            match (k, op) {
                (_, Op::B(r)) | (_, Op::W(r)) => regs.push(*r),
                ('1', Op::L(Lit::Num(n))) => imm = vec![*n as u8],
                ('1', Op::L(Lit::Byte(n))) => imm = vec![*n],
                ('2', Op::L(Lit::Num(n))) => imm = (*n as u16).to_le_bytes().to_vec(),
                ('2', Op::L(Lit::Wide(n))) => imm = n.to_le_bytes().to_vec(),
                ('2', Op::L(Lit::Name(l))) => {
                    imm = vec![0, 0];
                    label = Some(l.clone());
                }
                _ => unreachable!(),
            }
        }
        match (m, ks) {
            ("ret", "") => imm = vec![0],
            ("jmp" | "jump", "2") => regs = vec![0, 1],
            ("jmp" | "jump", "w") => {
                if regs[0] == 0 {
                    return Item::Invalid;
                }
                regs.push(1);
                imm = vec![0, 0];
            }
            _ => (),
        }
        let mut b = vec![opc(m, o, swap)];
        for p in regs.chunks(2) {
            b.push(p[0] << 4 | p.get(1).copied().unwrap_or(0));
        }
        let at = b.len();
        b.extend(imm);
        return Item::Bytes(b, label.map(|l| (at, l)));
    }
    if open {
        Item::Open
    } else {
        Item::Invalid
    }
}

fn split_ops(s: &str) -> Vec<String> {
    // commas separate, except within the literal ','
    let s = s.replace("','", "'\u{1}'");
    s.split(',').map(|o| o.trim().replace('\u{1}', ",")).collect()
}

pub fn line(raw: &[u8], swap: bool) -> Item {
    let Ok(s) = std::str::from_utf8(raw) else { return Item::Invalid };
    let s = s.trim();
    if s.is_empty() || s.starts_with(';') || s.starts_with("//") || s.starts_with('#') {
        return Item::Nothing;
    }
    if let Some(d) = s.strip_prefix('.') {
        let (name, arg) = d.split_once(' ').map(|(n, a)| (n, a)).unwrap_or((d, ""));
        if arg.starts_with([' ', '\t']) && name != "string" {
            return Item::Open;
        }
        return match name {
            "string" => match unescape(arg.as_bytes()) {
                Some(b) => Item::Bytes(b, None),
                None => Item::Invalid,
            },
            "byte" => match lit(arg) {
                Lit::Byte(b) => Item::Bytes(vec![b], None),
                Lit::Num(n) => Item::Bytes(vec![n as u8], None),
                Lit::Open(_) | Lit::HexB(..) => Item::Open,
                _ => Item::Invalid,
            },
            "wide" | "word" => match lit(arg) {
                Lit::Wide(w) => Item::Bytes(w.to_le_bytes().to_vec(), None),
                Lit::Num(n) => Item::Bytes((n as u16).to_le_bytes().to_vec(), None),
                Lit::Name(l) => Item::Bytes(vec![0, 0], Some((0, l))),
                Lit::Open(_) | Lit::HexB(..) => Item::Open,
                _ => Item::Invalid,
            },
            "include" if !arg.is_empty() => Item::Include(arg.into()),
            "global" | "globl" if ident(arg) => Item::Global(arg.into()),
            "ref" | "reference" if ident(arg) => Item::Ref(arg.into()),
            "include" | "global" | "globl" | "ref" | "reference" => Item::Open,
            "seg" => match arg {
                "data" => Item::Seg(DATA),
                "rodata" => Item::Seg(RODATA),
                "text" => Item::Seg(TEXT),
                "heap" => Item::Seg(HEAP),
                _ => Item::Invalid,
            },
            "entry" => {
                if arg.is_empty() {
                    Item::Entry
                } else {
                    Item::Open
                }
            }
            _ => Item::Invalid,
        };
    }
    if let Some(l) = s.strip_suffix(':') {
        return if ident(l) { Item::Label(l.into()) } else { Item::Open };
    }
    let (m, ops) = match s.split_once(' ') {
        Some((m, a)) => (m, split_ops(a)),
        None => (s, vec![]),
    };
    let ops: Vec<Op> = ops.iter().map(|o| operand(o)).collect();
    instruction(m, &ops, swap)
}

#[derive(Debug, Default)]
pub struct Asm {
    /// lines that have to be reported
    pub errors: Vec<(String, usize)>,
    /// assembling has to fail
    pub fail: bool,
    /// something is not settled
    pub open: bool,
    segs: BTreeMap<u8, Vec<u8>>,
    /// first definition, uses
    labels: Vec<(String, LabelInfo)>,
    uses: Vec<(u8, usize, String)>,
    entry: Option<(u8, usize)>,
    entries: usize,
    including: Vec<String>,
}
#[derive(Debug, Default, Clone)]
struct LabelInfo {
    def: Option<(u8, usize)>,
    global: bool,
    reference: bool,
    used_at: Vec<(String, usize)>,
}

impl Asm {
    fn label(&mut self, n: &str) -> &mut LabelInfo {
        let i = match self.labels.iter().position(|l| l.0 == n) {
            Some(i) => i,
            None => {
                self.labels.push((n.to_string(), LabelInfo::default()));
                self.labels.len() - 1
            }
        };
        &mut self.labels[i].1
    }
    fn err(&mut self, p: &str, n: usize) {
        self.fail = true;
        self.errors.push((p.to_string(), n));
    }
    fn file(&mut self, path: &str, files: &dyn Fn(&str) -> Option<Vec<u8>>, swap: bool) -> bool {
        let Some(text) = files(path) else { return false };
        let norm = normal(path);
        if self.including.contains(&norm) {
            return false;
        }
        self.including.push(norm);
        let mut seg: Option<u8> = None;
        let mut lines: Vec<&[u8]> = text.split(|&b| b == b'\n').collect();
        if lines.last() == Some(&&b""[..]) {
            lines.pop();
        }
        for (i, l) in lines.iter().enumerate() {
            let n = i + 1;
            match line(l, swap) {
                Item::Nothing => (),
                Item::Invalid => self.err(path, n),
                Item::Open => self.open = true,
                Item::Seg(s) => seg = Some(s),
                Item::Entry => {
                    self.entries += 1;
                    if self.entries > 1 || seg.is_none() {
                        self.err(path, n);
                    } else {
                        self.entry = seg.map(|s| (s, self.segs.get(&s).map(|v| v.len()).unwrap_or(0)));
                    }
                }
                Item::Label(l) => {
                    let def = (seg.unwrap_or(0xff), seg.and_then(|s| self.segs.get(&s)).map(|v| v.len()).unwrap_or(0));
                    if self.label(&l).def.replace(def).is_some() || seg.is_none() {
                        self.err(path, n);
                    }
                }
                Item::Global(l) => self.label(&l).global = true,
                Item::Ref(l) => self.label(&l).reference = true,
                Item::Bytes(b, l) => match seg {
                    None => {
                        self.err(path, n);
                        if let Some((_, l)) = l {
                            self.label(&l).used_at.push((path.into(), n));
                        }
                    }
                    Some(s) => {
                        let v = self.segs.entry(s).or_default();
                        let at = v.len();
                        v.extend(b);
                        if let Some((o, l)) = l {
                            self.uses.push((s, at + o, l.clone()));
                            self.label(&l).used_at.push((path.into(), n));
                        }
                    }
                },
                Item::Include(f) => {
                    if f.starts_with('/') {
                        self.open = true;
                        continue;
                    }
                    let p = match path.rsplit_once('/') {
                        Some((d, _)) => format!("{d}/{f}"),
                        None => f,
                    };
                    if !self.file(&p, files, swap) {
                        // a missing file or one that includes itself
                        self.fail = true;
                    }
                }
            }
        }
        self.including.pop();
        true
    }
    /// Symbols located in segments that have no bytes: there is no line that follows
    pub fn loose(&self) -> Vec<String> {
        self.labels.iter().filter(|l| l.1.def.is_some_and(|d| !self.segs.contains_key(&d.0))).map(|l| l.0.clone()).collect()
    }
    /// The object, in comparable order; addresses of loose symbols are taken from `real`
    pub fn object(&self, real: Option<&Obj>) -> (Obj, bool) {
        let mut o = Obj::default();
        let mut end = 0x80usize;
        let mut start = BTreeMap::new();
        let mut fits = true;
        for (&t, v) in &self.segs {
            let s = end.div_ceil(128) * 128;
            end = s + v.len();
            fits &= end <= 0x10000 && v.len() <= 65532;
            start.insert(t, s);
            o.segs.insert(t, (s as u16, v.clone()));
        }
        if !fits {
            return (o, false);
        }
        let addr = |d: (u8, usize)| start.get(&d.0).map(|s| (s + d.1) as u16);
        for (n, l) in &self.labels {
            match l.def {
                Some(d) => {
                    let a = addr(d).unwrap_or_else(|| real.and_then(|r| r.syms.iter().find(|s| s.name == *n)).map(|s| s.loc).unwrap_or(0));
                    o.syms.push(sym(n, l.global, d.0, a));
                }
                None => o.syms.push(sym(n, true, UNKNOWN, 0xfaff)),
            }
        }
        for (t, at, l) in &self.uses {
            let i = o.syms.iter().position(|s| s.name == *l).unwrap();
            let a = o.syms[i].loc;
            let seg = o.segs.get_mut(t).unwrap();
            seg.1[*at..*at + 2].copy_from_slice(&a.to_le_bytes());
            let loc = seg.0 + *at as u16;
            o.rels.push(Rel { ty: *t, loc, sym: i as u16 });
        }
        o.entry = self.entry.map(|e| (e.0, addr(e).unwrap_or_else(|| real.and_then(|r| r.entry).map(|e| e.1).unwrap_or(0))));
        (o, true)
    }
}
fn normal(p: &str) -> String {
    let mut v: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "." | "" => (),
            ".." if !v.is_empty() && v.last() != Some(&"..") => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

pub fn assemble(path: &str, files: &dyn Fn(&str) -> Option<Vec<u8>>, swap: bool) -> Asm {
    let mut a = Asm::default();
    if !a.file(path, files, swap) {
        a.fail = true;
    }
    for (_, l) in a.labels.clone() {
        if l.def.is_some() && l.reference {
            a.fail = true;
        }
        if l.def.is_none() && !l.global && !l.reference {
            a.fail = true;
            a.errors.extend(l.used_at);
        }
    }
    a
}
/// One source text without includes
pub fn source(path: &str, text: &[u8], swap: bool) -> Asm {
    assemble(path, &|p| (p == path).then(|| text.to_vec()), swap)
}

/// Symbols and relocations in an order that does not matter
pub fn canonical(o: &Obj) -> Obj {
    let mut c = o.clone();
    let mut order: Vec<usize> = (0..o.syms.len()).collect();
    order.sort_by_key(|&i| o.syms[i].clone());
    c.syms = order.iter().map(|&i| o.syms[i].clone()).collect();
    for r in &mut c.rels {
        r.sym = order.iter().position(|&i| i == r.sym as usize).map(|i| i as u16).unwrap_or(0xffff);
    }
    c.rels.sort();
    c
}

/// can the assembler produce these bytes
pub fn producible(b: &[u8; 4]) -> bool {
    FORMS.iter().any(|f| f.1 == b[0]) && crate::refcpu::well_formed(b) && !(b[0] == 0x40 && b[1] & 15 == 1 && b[1] >> 4 != 0 && (b[2], b[3]) != (0, 0))
}

/// what is ambiguous as literal is given in decimal; true if there was such a literal
pub fn plain(text: &str) -> (String, bool) {
    let mut hexb = false;
    let (m, ops) = text.split_once(' ').unwrap_or((text, ""));
    let ops: Vec<String> = ops
        .split(", ")
        .map(|o| match lit(o) {
            Lit::HexB(doc, _) => {
                hexb = true;
                match *doc {
                    Lit::Num(n) => n.to_string(),
                    _ => o.to_string(),
                }
            }
            _ => o.to_string(),
        })
        .collect();
    (if ops.iter().all(|o| o.is_empty()) { m.to_string() } else { format!("{m} {}", ops.join(", ")) }, hexb)
}
