//! Reference model of the emulator: loader, processor (`refcpu`), emulated kernel and I/O
use crate::objfmt::*;
use crate::refcpu::*;
use std::cell::Cell;
use std::collections::HashMap;

/// Names of the trap causes
pub fn cause_name(c: u8) -> &'static str {
    match c {
        INVALID => "Invalid",
        SYSCALL => "SysCall",
        ZERODIV => "ZeroDiv",
        HALT => "Halt",
        L1PF => "Level1PageFault",
        L2PF => "Level2PageFault",
        ILL_OP => "IllegalOperation",
        ILL_READ => "IllegalRead",
        ILL_WRITE => "IllegalWrite",
        ILL_EXEC => "IllegalExecute",
        ILL_RETH => "IllegalHandlerReturn",
        _ => "?",
    }
}

/// Memory with the I/O page
#[derive(Clone)]
pub struct Bus {
    pub low: Vec<u8>,
    pub high: HashMap<u32, u8>,
    pub input: Vec<u8>,
    pub pos: Cell<usize>,
    /// more input was asked for than there was
    pub dry: Cell<bool>,
}
impl Bus {
    pub fn new(input: &[u8]) -> Self {
        Bus { low: vec![0; 0x20000], high: HashMap::new(), input: input.to_vec(), pos: Cell::new(0), dry: Cell::new(false) }
    }
    fn next(&self) -> u8 {
        let p = self.pos.get();
        self.pos.set(p + 1);
        self.input.get(p).copied().unwrap_or_else(|| {
            self.dry.set(true);
            0
        })
    }
    fn put(&mut self, a: u32, v: u8) {
        match self.low.get_mut(a as usize) {
            Some(b) => *b = v,
            None => {
                self.high.insert(a, v);
            }
        }
    }
    fn put_all(&mut self, a: u32, v: &[u8]) {
        for (i, &b) in v.iter().enumerate() {
            self.put(a + i as u32, b);
        }
    }
    fn get32(&self, a: u32) -> u32 {
        u32::from_le_bytes([self.get(a), self.get(a + 1), self.get(a + 2), self.get(a + 3)])
    }
}
impl Base for Bus {
    fn get(&self, a: u32) -> u8 {
        if a < 0x80 {
            return self.next();
        }
        match self.low.get(a as usize) {
            Some(&b) => b,
            None => self.high.get(&a).copied().unwrap_or(0),
        }
    }
}

#[derive(Clone)]
pub struct Vm {
    pub s: RState,
    pub bus: Bus,
    pub out: Vec<u8>,
    /// error handler of the emulated kernel; None without one
    pub kernel: Option<u16>,
    pub ended: Option<u8>,
    /// several causes or places are justified
    pub also: Vec<(u8, Option<u16>)>,
    /// the further behaviour is not determined
    pub open: Option<&'static str>,
    pub steps: u64,
    /// instructions that trapped and were handled
    pub handled: u64,
    next_page: u32,
}
impl Vm {
    /// A raw image at 0x80 in direct mode
    pub fn raw(image: &[u8], input: &[u8]) -> Self {
        let mut bus = Bus::new(input);
        bus.put_all(0x80, image);
        Vm { s: RState { pc: 0x80, ..RState::default() }, bus, out: vec![], kernel: None, ended: None, also: vec![], open: None, steps: 0, handled: 0, next_page: 0 }
    }
    /// A user program; general registers as given (they have no documented initial value)
    pub fn user(o: &Obj, input: &[u8], general: u16) -> Self {
        let mut v = Vm::raw(&[], input);
        v.next_page = 0x8000;
        v.kernel = Some(0);
        v.s.w = [general; 16];
        v.s.w[0] = 0;
        v.s.w[RS] = 0xffff;
        v.s.w[RF] = 0xffff;
        v.s.w[RH] = 0;
        v.s.fl = U | V;
        v.s.pc = o.entry.map(|e| e.1).unwrap_or(general);
        let rp = v.page();
        v.s.w[RP] = rp as u16;
        const R: u8 = 2;
        const W: u8 = 4;
        const X: u8 = 8;
        for (&t, (start, bytes)) in &o.segs {
            let p = match t {
                TEXT => X | if o.flags == Some(true) { R } else { 0 },
                RODATA => R,
                DATA | HEAP => R | W,
                _ => R | W | X,
            };
            for (i, &b) in bytes.iter().enumerate() {
                let a = v.map(*start + i as u16, p);
                v.bus.put(a, b);
            }
            if t == HEAP {
                for i in 0..o.heap.unwrap_or(0x400) as u32 {
                    if *start as u32 + i < 0x10000 {
                        v.map(*start + i as u16, R | W);
                    }
                }
            }
        }
        for i in 0..o.stack.unwrap_or(0x180) as u32 {
            v.map((0xffff - i) as u16, R | W);
        }
        v
    }
    fn page(&mut self) -> u32 {
        let p = self.next_page;
        self.next_page += 0x80;
        p
    }
    fn map(&mut self, va: u16, perm: u8) -> u32 {
        let perm = perm as u32 | 0x21;
        let a1 = self.s.w[RP] as u32 + 4 * (va as u32 >> 12);
        let mut e1 = self.bus.get32(a1);
        if e1 & 1 == 0 {
            e1 = self.page() << 8;
        }
        e1 |= perm;
        self.bus.put_all(a1, &e1.to_le_bytes());
        let a2 = ((e1 >> 8) & !0x7f) + 4 * (va as u32 >> 7 & 31);
        let mut e2 = self.bus.get32(a2);
        if e2 & 1 == 0 {
            e2 = self.page() << 8;
        }
        e2 |= perm;
        self.bus.put_all(a2, &e2.to_le_bytes());
        ((e2 >> 8) & !0x7f) + (va as u32 & 0x7f)
    }
    /// Byte at a virtual address as the program could read (execute) it
    pub fn peek(&self, va: u16, a: Acc) -> Result<u8, u8> {
        let mut m = Ov::new(&self.bus);
        let p = walk(&self.s, &mut m, va, a)?;
        if p < 0x80 {
            return Ok(0);
        }
        Ok(self.bus.get(p))
    }
    fn apply(&mut self, w: &[(u32, u8)]) {
        for &(a, v) in w {
            match a {
                0..=0x7f => self.out.push(v),
                0x80..=0x7fff => (),
                _ => self.bus.put(a, v),
            }
        }
    }
    /// One instruction, with the kernel's reaction
    pub fn step(&mut self) {
        if self.ended.is_some() || self.open.is_some() {
            return;
        }
        self.steps += 1;
        let pos = self.bus.pos.get();
        let e = expect(&self.s, &self.bus, false);
        let a = &e.alts[0];
        if let Err(c) = a.res {
            // the other justified ways to trap
            let after = self.bus.pos.get();
            self.bus.pos.set(pos);
            let all = expect(&self.s, &self.bus, true);
            self.bus.pos.set(after);
            self.also = all.alts.iter().filter_map(|x| x.res.err().map(|c| (c, (!x.loose && !x.any).then_some(x.s.pc)))).collect();
            if all.alts.iter().any(|x| x.res.is_ok()) {
                self.open = Some("whether an instruction traps is not settled");
                return;
            }
            if a.any || a.loose {
                if self.also.iter().any(|x| x.0 != c) && self.kernel.is_some_and(|h| h != 0) {
                    self.open = Some("the cause is not settled");
                    return;
                }
            }
        } else if a.any || a.loose {
            self.open = Some("not settled");
            return;
        }
        let (s, res, w) = (a.s, a.res, a.writes.clone());
        self.s = s;
        self.apply(&w);
        let Err(c) = res else { return };
        let Some(handler) = self.kernel else {
            self.ended = Some(c);
            return;
        };
        let n = self.s.w[1];
        match (c, n) {
            (SYSCALL, 0) => self.open = Some("memory map"),
            (SYSCALL, 3) => {
                let b = self.bus.next();
                self.s.wb(1, b);
            }
            (SYSCALL, 4) => self.out.push(self.s.rb(3)),
            (SYSCALL, 15) => self.kernel = Some(self.s.w[2]),
            (SYSCALL, _) | (HALT, _) => {
                self.ended = Some(c);
                return;
            }
            _ if handler != 0 => {
                if self.also.iter().any(|x| x.0 != c) {
                    self.open = Some("the cause is not settled");
                    return;
                }
                self.s.w[1] = c as u16;
                self.s.pc = handler;
            }
            _ => {
                self.ended = Some(c);
                return;
            }
        }
        self.handled += 1;
        self.also.clear();
        self.s.fl = (self.s.fl & !T) | U;
    }
    pub fn run(&mut self, limit: u64) {
        while self.ended.is_none() && self.open.is_none() {
            if self.steps >= limit {
                self.open = Some("too many steps");
                return;
            }
            self.step();
        }
    }
}
