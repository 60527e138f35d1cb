//! Reference model of the Blf4 processor, written from the documented instruction set.
//!
//! A step yields one expected behaviour plus, where the documentation leaves a choice (which of
//! several justified traps is reported, how far a refused instruction got), the other accepted ones.

pub const Z: u8 = 0x80;
pub const O: u8 = 0x40;
pub const S: u8 = 0x20;
pub const C: u8 = 0x10;
pub const V: u8 = 0x08;
pub const T: u8 = 0x02;
pub const U: u8 = 0x01;

pub const INVALID: u8 = 0;
pub const SYSCALL: u8 = 5;
pub const ZERODIV: u8 = 8;
pub const HALT: u8 = 0xa;
pub const L1PF: u8 = 0xe;
pub const L2PF: u8 = 0xf;
pub const ILL_OP: u8 = 0x10;
pub const ILL_READ: u8 = 0x11;
pub const ILL_WRITE: u8 = 0x12;
pub const ILL_EXEC: u8 = 0x13;
pub const ILL_RETH: u8 = 0x1f;

pub const RS: usize = 11;
pub const RL: usize = 12;
pub const RF: usize = 13;
pub const RP: usize = 14;
pub const RH: usize = 15;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct RState {
    pub w: [u16; 16],
    pub pc: u16,
    pub fl: u8,
}
impl RState {
    pub fn rb(&self, i: usize) -> u8 {
        match i {
            0 => 0,
            1..=10 => {
                let w = self.w[(i + 1) / 2];
                if i % 2 == 1 {
                    w as u8
                } else {
                    (w >> 8) as u8
                }
            }
            _ => self.w[i - 5] as u8,
        }
    }
    pub fn wb(&mut self, i: usize, v: u8) {
        match i {
            0 => (),
            1..=10 => {
                let w = &mut self.w[(i + 1) / 2];
                *w = if i % 2 == 1 { (*w & 0xff00) | v as u16 } else { (*w & 0xff) | ((v as u16) << 8) };
            }
            _ => self.w[i - 5] = v as u16,
        }
    }
    pub fn ww(&mut self, i: usize, v: u16) {
        if i != 0 {
            self.w[i] = v
        }
    }
    pub fn user(&self) -> bool {
        self.fl & U != 0
    }
    pub fn virt(&self) -> bool {
        self.fl & V != 0
    }
    pub fn show(&self) -> String {
        let f: String = [(Z, 'Z'), (O, 'O'), (S, 'S'), (C, 'C'), (V, 'V'), (4, 'R'), (T, 'T'), (U, 'U')]
            .iter()
            .map(|&(b, c)| if self.fl & b != 0 { c } else { '-' })
            .collect();
        let names = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"];
        let r: Vec<String> = (1..16).map(|i| format!("{}={:04x}", names[i], self.w[i])).collect();
        format!("pc={:04x} flags={f} {}", self.pc, r.join(" "))
    }
}

pub trait Base {
    fn get(&self, pa: u32) -> u8;
}

/// Base memory plus the writes of the step in progress
pub struct Ov<'a> {
    pub base: &'a dyn Base,
    pub w: Vec<(u32, u8)>,
    /// physical addresses of data reads
    pub reads: Vec<u32>,
    /// physical page-table addresses used
    pub tables: Vec<u32>,
}
impl<'a> Ov<'a> {
    pub fn new(base: &'a dyn Base) -> Self {
        Ov { base, w: Vec::new(), reads: Vec::new(), tables: Vec::new() }
    }
    pub fn get(&self, a: u32) -> u8 {
        for &(p, v) in self.w.iter().rev() {
            if p == a {
                return v;
            }
        }
        self.base.get(a)
    }
    fn get32(&mut self, a: u32) -> u32 {
        self.tables.push(a);
        u32::from_le_bytes([self.get(a), self.get(a + 1), self.get(a + 2), self.get(a + 3)])
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    R,
    W,
    X,
}

/// One permission check of a table entry
fn check(e: u32, user: bool, a: Acc, missing: u8) -> Result<(), u8> {
    if e & 1 == 0 {
        return Err(missing);
    }
    if user && e & 0x20 == 0 {
        return Err(ILL_OP);
    }
    match a {
        Acc::R if e & 2 == 0 => Err(ILL_READ),
        Acc::W if e & 4 == 0 => Err(ILL_WRITE),
        Acc::X if e & 8 == 0 => Err(ILL_EXEC),
        _ => Ok(()),
    }
}

/// Where virtual address `va` leads; marks entries dirty when written
pub fn walk(s: &RState, m: &mut Ov, va: u16, a: Acc) -> Result<u32, u8> {
    if !s.virt() {
        return Ok(va as u32);
    }
    let a1 = s.w[RP] as u32 + 4 * (va as u32 / 0x1000);
    let e1 = m.get32(a1);
    check(e1, s.user(), a, L1PF)?;
    let page = |e: u32| (e / 0x8000) * 0x80;
    let a2 = page(e1) + 4 * ((va as u32 / 0x80) % 32);
    let e2 = m.get32(a2);
    check(e2, s.user(), a, L2PF)?;
    if a == Acc::W {
        for (ad, e) in [(a1, e1), (a2, e2)] {
            if e & 0x10 == 0 {
                m.w.push((ad, e as u8 | 0x10));
            }
        }
    }
    Ok(page(e2) + va as u32 % 0x80)
}

fn read(s: &RState, m: &mut Ov, va: u16) -> Result<u8, u8> {
    let p = walk(s, m, va, Acc::R)?;
    m.reads.push(p);
    Ok(m.get(p))
}
fn write(s: &RState, m: &mut Ov, va: u16, v: u8) -> Result<(), u8> {
    let p = walk(s, m, va, Acc::W)?;
    m.w.push((p, v));
    Ok(())
}
fn read16(s: &RState, m: &mut Ov, va: u16) -> Result<u16, u8> {
    let l = read(s, m, va)?;
    let h = read(s, m, va.wrapping_add(1))?;
    Ok(l as u16 | (h as u16) << 8)
}
fn write16(s: &RState, m: &mut Ov, va: u16, v: u16) -> Result<(), u8> {
    write(s, m, va, v as u8)?;
    write(s, m, va.wrapping_add(1), (v >> 8) as u8)
}
fn push16(s: &mut RState, m: &mut Ov, v: u16) -> Result<(), u8> {
    s.w[RS] = s.w[RS].wrapping_sub(2);
    write16(s, m, s.w[RS], v)
}

/// Operand shape of an opcode
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Bad,
    None,
    /// registers: kinds (b/w) packed in nibbles; padding nibble if odd
    Regs(&'static str),
    /// registers then byte immediate
    RegsB(&'static str),
    /// registers then wide immediate
    RegsW(&'static str),
    ImmB,
    ImmW,
    /// ldi wide / jmp: register, option nibble, wide immediate
    LdiW,
}

pub fn shape(op: u8) -> Shape {
    use Shape::*;
    match op {
        0x0a | 0x0b | 0x0c | 0x0d | 0x10 | 0x11 | 0x12 | 0x20 => None,
        0x13 => Regs("bwb"),
        0x14 => Regs("bbw"),
        0x21 | 0x23 => Regs("b"),
        0x22 | 0x24 => Regs("w"),
        0x25 => ImmW,
        0x26 => ImmB,
        0x27 => RegsW("wb"),
        0x28 => RegsW("ww"),
        0x29 => Regs("wwb"),
        0x2a => Regs("www"),
        0x2b => RegsW("bw"),
        0x2c => RegsW("ww"),
        0x2d => Regs("bww"),
        0x2e => Regs("www"),
        0x2f..=0x3a => ImmW,
        0x3f => RegsB("b"),
        0x40 => LdiW,
        0x41..=0x50 => Regs(if op % 2 == 1 { "bbb" } else { "www" }),
        0x51 | 0x53 => Regs("bbbb"),
        0x52 | 0x54 => Regs("wwww"),
        _ => Bad,
    }
}
pub fn len_of(sh: Shape) -> usize {
    match sh {
        Shape::Bad | Shape::None => 1,
        Shape::Regs(k) => 1 + k.len().div_ceil(2),
        Shape::RegsB(k) => 2 + k.len().div_ceil(2),
        Shape::RegsW(k) => 3 + k.len().div_ceil(2),
        Shape::ImmB => 2,
        Shape::ImmW => 3,
        Shape::LdiW => 4,
    }
}
/// does the documented format accept these bytes
pub fn well_formed(b: &[u8]) -> bool {
    match shape(b[0]) {
        Shape::Bad => false,
        Shape::Regs(k) | Shape::RegsB(k) | Shape::RegsW(k) => k.len() % 2 == 0 || b[1 + k.len() / 2] & 15 == 0,
        Shape::LdiW => b[1] & 15 < 2,
        _ => true,
    }
}

pub type Writes = Vec<(u32, u8)>;

/// What a step may do
pub enum Step {
    Done { s: RState },
    /// cause x interrupted state x memory effect: every combination is accepted, the first is usual
    Trap { causes: Vec<u8>, states: Vec<RState>, writes: Vec<Writes> },
    /// the cause is determined, but not how far the instruction got
    LooseTrap { causes: Vec<u8> },
}

fn alu8(op: u8, x: u8, y: u8) -> (u8, u8) {
    let (xi, yi) = (x as i8 as i32, y as i8 as i32);
    let n = (y % 8) as u32;
    let (r, c, o) = match op {
        0 => ((x as u32 + y as u32) as u8, x as u32 + y as u32 > 255, !(-128..128).contains(&(xi + yi))),
        1 => ((x as u32).wrapping_sub(y as u32) as u8, x < y, !(-128..128).contains(&(xi - yi))),
        2 => (x & y, false, false),
        3 => (x | y, false, false),
        4 => (x ^ y, false, false),
        5 => (((x as u32) << n) as u8, false, false),
        6 => ((xi >> n) as u8, false, false),
        _ => (((x as u32) >> n) as u8, false, false),
    };
    (r, flags(r == 0, r & 0x80 != 0, c, o))
}
fn alu16(op: u8, x: u16, y: u16) -> (u16, u8) {
    let (xi, yi) = (x as i16 as i32, y as i16 as i32);
    let n = (y % 16) as u32;
    let lim = -32768..32768;
    let (r, c, o) = match op {
        0 => ((x as u32 + y as u32) as u16, x as u32 + y as u32 > 65535, !lim.contains(&(xi + yi))),
        1 => ((x as u32).wrapping_sub(y as u32) as u16, x < y, !lim.contains(&(xi - yi))),
        2 => (x & y, false, false),
        3 => (x | y, false, false),
        4 => (x ^ y, false, false),
        5 => (((x as u32) << n) as u16, false, false),
        6 => ((xi >> n) as u16, false, false),
        _ => (((x as u32) >> n) as u16, false, false),
    };
    (r, flags(r == 0, r & 0x8000 != 0, c, o))
}
fn flags(z: bool, s: bool, c: bool, o: bool) -> u8 {
    (z as u8) * Z | (s as u8) * S | (c as u8) * C | (o as u8) * O
}
const ZSCO: u8 = Z | S | C | O;

pub fn cond(op: u8, f: u8) -> bool {
    let (z, s, c, o) = (f & Z != 0, f & S != 0, f & C != 0, f & O != 0);
    match op {
        0x2f => z,
        0x30 => s != o,
        0x31 => s != o && z,
        0x32 => s == o && !z,
        0x33 => s == o,
        0x34 => !z,
        0x35 => o,
        0x36 => !o,
        // finding KF2: the instruction table of the README swaps 37 and 39
        0x37 => !c && !z,
        0x38 => !c,
        0x39 => c,
        0x3a => c || z,
        _ => unreachable!(),
    }
}

/// All interrupted-state variants for an instruction that was refused before having any effect
fn early(s0: &RState, primary_len: usize, max_len: usize) -> Vec<RState> {
    let at = |n: usize| {
        let mut s = *s0;
        s.pc = s0.pc.wrapping_add(n as u16);
        s
    };
    let mut v = vec![at(primary_len)];
    v.extend((0..=max_len).filter(|&n| n != primary_len).map(at));
    v
}

/// Execute the instruction at pc. Returns what may happen before trap delivery.
pub fn step(s0: &RState, m: &mut Ov) -> Step {
    let mut bytes = [0u8; 4];
    let mut have = 0;
    let mut causes: Vec<u8> = Vec::new();
    let mut fault = None;
    let mut len = 1;
    let mut sh = Shape::Bad;
    while have < len {
        match walk(s0, m, s0.pc.wrapping_add(have as u16), Acc::X) {
            Ok(p) => {
                bytes[have] = m.get(p);
                if have == 0 {
                    sh = shape(bytes[0]);
                    len = len_of(sh);
                }
                have += 1;
            }
            Err(c) => {
                fault = Some(c);
                break;
            }
        }
    }
    // registers named
    let mut regs = [0usize; 4];
    let mut priv_src = false;
    let mut priv_dst = false;
    let (kinds, imm_at) = match sh {
        Shape::Regs(k) | Shape::RegsB(k) | Shape::RegsW(k) => (k, 1 + k.len().div_ceil(2)),
        Shape::LdiW => ("w", 2),
        _ => ("", 1),
    };
    let mut malformed = have > 0 && sh == Shape::Bad;
    let dests: usize = match bytes[0] {
        0x14 | 0x23 | 0x24 | 0x2b..=0x2e | 0x3f | 0x41..=0x50 => 1,
        0x51..=0x54 => 2,
        0x40 if bytes[1] & 15 != 1 => 1,
        _ => 0,
    };
    if have > 0 {
        for (i, k) in kinds.bytes().enumerate() {
            if 1 + i / 2 >= have {
                break;
            }
            let b = bytes[1 + i / 2];
            regs[i] = (if i % 2 == 0 { b >> 4 } else { b & 15 }) as usize;
            if k == b'w' && regs[i] >= RP {
                if i < dests {
                    priv_dst = true
                } else {
                    priv_src = true
                }
            }
        }
        if kinds.len() % 2 == 1 && 1 + kinds.len() / 2 < have {
            let z = bytes[1 + kinds.len() / 2] & 15;
            malformed |= if sh == Shape::LdiW { z > 1 } else { z != 0 };
        }
    }
    let privileged = have > 0 && matches!(bytes[0], 0x10..=0x14);
    let user = s0.user();
    // the order below is the usual one: privileged opcode, register use, format, fetch
    let jmp_reg = sh == Shape::LdiW && bytes[1] & 15 == 1;
    if user && privileged {
        causes.push(ILL_OP);
    }
    if malformed {
        causes.push(INVALID);
    }
    if let Some(f) = fault {
        if malformed && sh != Shape::Bad {
            causes.insert(0, f);
        } else {
            causes.push(f);
        }
    }
    if user && priv_src && !(jmp_reg && fault.is_some()) {
        // which of the two is reported first is not documented
        if sh == Shape::LdiW || matches!(bytes[0], 0x29..=0x2e) {
            causes.push(ILL_OP);
        } else {
            causes.insert(0, ILL_OP);
        }
    }
    if !causes.is_empty() {
        if user && priv_dst {
            causes.push(ILL_OP);
        }
        let primary = if user && privileged {
            1
        } else if fault.is_some() {
            have + 1
        } else if have > 0 && sh != Shape::Bad {
            match sh {
                Shape::RegsB(_) => 2,
                _ => len,
            }
        } else {
            1
        };
        return Step::Trap { causes, states: early(s0, primary, len.max(have + 1)), writes: vec![vec![]] };
    }

    let mut s = *s0;
    s.pc = s0.pc.wrapping_add(len as u16);
    let imm8 = bytes[imm_at.min(3)];
    let imm16 = u16::from_le_bytes([bytes[imm_at.min(3)], bytes[(imm_at + 1).min(3)]]);
    let r = regs;
    let op = bytes[0];
    let w0 = m.w.len();
    let before = s;

    // one refused destination in user mode: how much of the rest was done is left open
    let refuse = |i: usize| user && i >= RP;

    let trap1 = |c: u8, s: RState, m: &mut Ov| Step::Trap {
        causes: vec![c],
        states: vec![s],
        writes: vec![m.w.clone()],
    };
    macro_rules! mem {
        ($e:expr, $dstpriv:expr) => {
            match $e {
                Ok(v) => v,
                Err(c) => {
                    let mut causes = vec![c];
                    if $dstpriv {
                        causes.push(ILL_OP);
                    }
                    let mut writes = vec![m.w.clone()];
                    if m.w.len() > w0 {
                        writes.push(m.w[..w0].to_vec());
                    }
                    return Step::Trap { causes, states: vec![s], writes };
                }
            }
        };
    }
    match op {
        0x0a => return trap1(HALT, s, m),
        0x0c => return trap1(SYSCALL, s, m),
        0x0b => s.fl &= !T,
        0x0d => {
            if s.fl & T == 0 {
                return trap1(ILL_RETH, s, m);
            }
            if user {
                let mut up = s;
                up.w[RS] = s.w[RS].wrapping_add(2);
                let first = read16(&s, m, s.w[RS]).err();
                let mut causes = vec![ILL_OP];
                if let Some(c) = first {
                    causes.insert(0, c);
                    return Step::Trap { causes, states: vec![s, up], writes: vec![vec![]] };
                }
                return Step::Trap { causes, states: vec![up, s], writes: vec![vec![]] };
            }
            for i in (1..16).rev() {
                match read16(&s, m, s.w[RS]) {
                    Err(c) if i == 15 => return trap1(c, s, m),
                    Err(c) => return Step::LooseTrap { causes: vec![c] },
                    Ok(v) => {
                        s.w[RS] = s.w[RS].wrapping_add(2);
                        s.w[i] = v;
                    }
                }
            }
            let mut two = [0u16; 2];
            for t in &mut two {
                match read16(&s, m, s.w[RS]) {
                    Err(c) => return Step::LooseTrap { causes: vec![c] },
                    Ok(v) => {
                        s.w[RS] = s.w[RS].wrapping_add(2);
                        *t = v;
                    }
                }
            }
            s.pc = two[0];
            s.fl = two[1] as u8 & !T;
        }
        0x10 => s.fl |= U,
        0x11 => s.fl |= V,
        0x12 => s.fl &= !V,
        0x13 => {
            let a = (s.rb(r[0]) as u32) << 16 | s.w[r[1]] as u32;
            m.w.push((a, s.rb(r[2])));
        }
        0x14 => {
            let a = (s.rb(r[1]) as u32) << 16 | s.w[r[2]] as u32;
            m.reads.push(a);
            let v = m.get(a);
            s.wb(r[0], v);
        }
        0x20 => (),
        0x21 => {
            s.w[RS] = s.w[RS].wrapping_sub(1);
            let v = s0.rb(r[0]);
            mem!(write(&s, m, s.w[RS], v), false);
        }
        0x22 => {
            s.w[RS] = s.w[RS].wrapping_sub(2);
            let v = s0.w[r[0]];
            mem!(write16(&s, m, s.w[RS], v), false);
        }
        0x23 => {
            let v = mem!(read(&s, m, s.w[RS]), false);
            s.w[RS] = s.w[RS].wrapping_add(1);
            s.wb(r[0], v);
        }
        0x24 => {
            let v = mem!(read16(&s, m, s.w[RS]), refuse(r[0]));
            s.w[RS] = s.w[RS].wrapping_add(2);
            if refuse(r[0]) {
                return Step::Trap { causes: vec![ILL_OP], states: vec![s, before], writes: vec![m.w.clone()] };
            }
            s.ww(r[0], v);
        }
        0x25 => {
            s.w[RL] = s.pc;
            s.pc = imm16;
        }
        0x26 => {
            s.w[RS] = s.w[RS].wrapping_add(imm8 as u16);
            s.pc = s.w[RL];
        }
        0x27 => {
            let v = s.rb(r[1]);
            mem!(write(&s, m, s.w[r[0]].wrapping_add(imm16), v), false)
        }
        0x28 => {
            let v = s.w[r[1]];
            mem!(write16(&s, m, s.w[r[0]].wrapping_add(imm16), v), false)
        }
        0x29 => {
            let v = s.rb(r[2]);
            mem!(write(&s, m, s.w[r[0]].wrapping_add(s.w[r[1]]), v), false)
        }
        0x2a => {
            let v = s.w[r[2]];
            mem!(write16(&s, m, s.w[r[0]].wrapping_add(s.w[r[1]]), v), false)
        }
        0x2b | 0x2d => {
            let off = if op == 0x2b { imm16 } else { s.w[r[2]] };
            let v = mem!(read(&s, m, s.w[r[1]].wrapping_add(off)), false);
            s.wb(r[0], v);
        }
        0x2c | 0x2e => {
            let off = if op == 0x2c { imm16 } else { s.w[r[2]] };
            let v = mem!(read16(&s, m, s.w[r[1]].wrapping_add(off)), refuse(r[0]));
            if refuse(r[0]) {
                return Step::Trap { causes: vec![ILL_OP], states: vec![s], writes: vec![m.w.clone()] };
            }
            s.ww(r[0], v);
        }
        0x2f..=0x3a => {
            if cond(op, s.fl) {
                s.pc = imm16;
            }
        }
        0x3f => s.wb(r[0], imm8),
        0x40 => {
            if bytes[1] & 15 == 1 {
                s.pc = if r[0] == 0 { imm16 } else { s.w[r[0]] };
            } else if refuse(r[0]) {
                return Step::Trap { causes: vec![ILL_OP], states: vec![s], writes: vec![m.w.clone()] };
            } else {
                s.ww(r[0], imm16);
            }
        }
        0x41..=0x50 => {
            let which = (op - 0x41) / 2;
            if op % 2 == 1 {
                let (v, f) = alu8(which, s.rb(r[1]), s.rb(r[2]));
                s.fl = s.fl & !ZSCO | f;
                s.wb(r[0], v);
            } else {
                let (v, f) = alu16(which, s.w[r[1]], s.w[r[2]]);
                s.fl = s.fl & !ZSCO | f;
                if refuse(r[0]) {
                    return Step::Trap { causes: vec![ILL_OP], states: vec![s, before], writes: vec![m.w.clone()] };
                }
                s.ww(r[0], v);
            }
        }
        0x51..=0x54 => {
            let wide = op % 2 == 0;
            let (x, y) = if wide { (s.w[r[2]] as u32, s.w[r[3]] as u32) } else { (s.rb(r[2]) as u32, s.rb(r[3]) as u32) };
            let refused = wide && (refuse(r[0]) || refuse(r[1]));
            let (first, second) = if op < 0x53 {
                if y == 0 {
                    let mut causes = vec![ZERODIV];
                    if refused {
                        causes.push(ILL_OP);
                    }
                    return Step::Trap { causes, states: vec![s], writes: vec![m.w.clone()] };
                }
                (x / y, x % y)
            } else {
                let bits = if wide { 16 } else { 8 };
                let p = x * y;
                let (hi, lo) = (p >> bits, p & ((1 << bits) - 1));
                s.fl = s.fl & !ZSCO | flags(lo == 0, lo >> (bits - 1) != 0, hi != 0, hi != 0);
                // finding KF1: the README names the second destination as the upper half
                (hi, lo)
            };
            if refused {
                let mut full = s;
                if !refuse(r[0]) {
                    full.ww(r[0], first as u16);
                }
                let mut no_flags = full;
                no_flags.fl = before.fl;
                let mut only_second = s;
                if !refuse(r[1]) {
                    only_second.ww(r[1], second as u16);
                }
                return Step::Trap {
                    causes: vec![ILL_OP],
                    states: vec![full, s, before, no_flags, only_second],
                    writes: vec![m.w.clone()],
                };
            }
            if wide {
                s.ww(r[0], first as u16);
                s.ww(r[1], second as u16);
            } else {
                s.wb(r[0], first as u8);
                s.wb(r[1], second as u8);
            }
        }
        _ => unreachable!(),
    }
    s.w[0] = 0;
    Step::Done { s }
}

/// State after delivering a trap; Err if it stops the machine (second: state is not determined)
pub fn deliver(s: &RState, cause: u8, m: &mut Ov) -> (RState, Result<(), u8>, bool) {
    let mut n = *s;
    n.fl = (n.fl | T) & !U;
    if n.w[RH] == 0 {
        return (n, Err(cause), false);
    }
    let mut vals = [0u16; 17];
    vals[0] = s.fl as u16;
    vals[1] = s.pc;
    for (i, &v) in vals[..2].to_owned().iter().enumerate() {
        let _ = i;
        if let Err(c) = push16(&mut n, m, v) {
            return (n, Err(c), true);
        }
    }
    for r in 1..16 {
        let v = n.w[r];
        if let Err(c) = push16(&mut n, m, v) {
            return (n, Err(c), true);
        }
    }
    n.pc = n.w[RH];
    n.w[1] = cause as u16;
    (n, Ok(()), false)
}

/// A fully determined accepted behaviour
pub struct Alt {
    pub s: RState,
    pub res: Result<(), u8>,
    pub writes: Writes,
    /// only `res` is determined
    pub loose: bool,
    /// not even `res` is determined
    pub any: bool,
}

pub struct Expect {
    pub alts: Vec<Alt>,
    /// data reads of the usual behaviour
    pub reads: Vec<u32>,
    pub tables: Vec<u32>,
    pub trapped: Option<u8>,
}

/// Expected behaviours of one processor step. With `all` every accepted one, else the usual one only.
pub fn expect(s: &RState, base: &dyn Base, all: bool) -> Expect {
    let mut m = Ov::new(base);
    let st = step(s, &mut m);
    let reads = std::mem::take(&mut m.reads);
    let mut alts = Vec::new();
    let mut trapped = None;
    match st {
        Step::Done { s } => alts.push(Alt { s, res: Ok(()), writes: m.w, loose: false, any: false }),
        Step::LooseTrap { causes } => {
            trapped = Some(causes[0]);
            for c in causes {
                alts.push(Alt { s: *s, res: Err(c), writes: vec![], loose: true, any: true });
            }
        }
        Step::Trap { causes, states, writes } => {
            trapped = Some(causes[0]);
            'o: for c in &causes {
                for st in &states {
                    for w in &writes {
                        let mut m2 = Ov::new(base);
                        m2.w = w.clone();
                        let (s, res, loose) = deliver(st, *c, &mut m2);
                        alts.push(Alt { s, res, writes: m2.w, loose, any: false });
                        if !all {
                            break 'o;
                        }
                    }
                }
            }
        }
    }
    Expect { alts, reads, tables: m.tables, trapped }
}
