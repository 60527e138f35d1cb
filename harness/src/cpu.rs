//! Driving the real processor one instruction at a time and comparing it with the reference.
use crate::refcpu::{expect, Base, Expect, RState};
use crate::report::{guard, mix, visit, Report};
use telda2::blf4::{Blf4, ByteRegister, TrapMode, WideRegister};
use telda2::machine::Cpu;
use telda2::mem::MainMemory;
use telda2::U4;

pub fn wr(i: usize) -> WideRegister {
    WideRegister(U4::new(i as u8))
}
pub fn br(i: usize) -> ByteRegister {
    ByteRegister(U4::new(i as u8))
}

pub fn cause(t: TrapMode) -> u8 {
    match t {
        TrapMode::Invalid => 0,
        TrapMode::SysCall => 5,
        TrapMode::ZeroDiv => 8,
        TrapMode::Halt => 0xa,
        TrapMode::Level1PageFault => 0xe,
        TrapMode::Level2PageFault => 0xf,
        TrapMode::IllegalOperation => 0x10,
        TrapMode::IllegalRead => 0x11,
        TrapMode::IllegalWrite => 0x12,
        TrapMode::IllegalExecute => 0x13,
        TrapMode::IllegalHandlerReturn => 0x1f,
    }
}

/// Put a state into the real processor
pub fn put(c: &mut Blf4, s: &RState) {
    c.flags = 0u16.into();
    for i in 1..11 {
        let _ = c.write_wr(wr(i), s.w[i]);
    }
    c.stack = s.w[11];
    c.link = s.w[12];
    c.frame = s.w[13];
    c.page = s.w[14];
    c.trap_handler = s.w[15];
    c.program_counter = s.pc;
    c.flags = (s.fl as u16).into();
}
pub fn get(c: &Blf4) -> RState {
    let mut s = RState::default();
    for i in 1..11 {
        s.w[i] = c.read_wr(wr(i)).unwrap_or(0xdead);
    }
    s.w[11] = c.stack;
    s.w[12] = c.link;
    s.w[13] = c.frame;
    s.w[14] = c.page;
    s.w[15] = c.trap_handler;
    s.pc = c.program_counter;
    s.fl = u16::from(c.flags) as u8;
    s
}

/// 16 MiB of plain memory with an undo journal; used as the real processor's memory
pub struct Mem {
    pub d: Vec<u8>,
    pub journal: Vec<(u32, u8)>,
    pub log: bool,
    pub reads: Vec<u32>,
    pub out_of_range: bool,
}
impl Mem {
    pub fn new() -> Self {
        Mem { d: vec![0; 1 << 24], journal: Vec::new(), log: false, reads: Vec::new(), out_of_range: false }
    }
    /// part of the set-up, not undone
    pub fn poke(&mut self, a: u32, v: u8) {
        self.d[a as usize] = v;
    }
    pub fn poke_all(&mut self, a: u32, v: &[u8]) {
        self.d[a as usize..a as usize + v.len()].copy_from_slice(v);
    }
    pub fn poke32(&mut self, a: u32, v: u32) {
        self.poke_all(a, &v.to_le_bytes());
    }
    /// write that can be undone
    pub fn set(&mut self, a: u32, v: u8) {
        self.write(a, v)
    }
    pub fn mark(&self) -> usize {
        self.journal.len()
    }
    pub fn undo(&mut self, to: usize) {
        while self.journal.len() > to {
            let (a, v) = self.journal.pop().unwrap();
            self.d[a as usize] = v;
        }
    }
}
impl Default for Mem {
    fn default() -> Self {
        Self::new()
    }
}
impl MainMemory for Mem {
    fn read(&mut self, a: u32) -> u8 {
        if self.log {
            self.reads.push(a);
        }
        match self.d.get(a as usize) {
            Some(v) => *v,
            None => {
                self.out_of_range = true;
                0
            }
        }
    }
    fn write(&mut self, a: u32, v: u8) {
        match self.d.get_mut(a as usize) {
            Some(p) => {
                self.journal.push((a, *p));
                *p = v;
            }
            None => self.out_of_range = true,
        }
    }
}
impl Base for Mem {
    fn get(&self, a: u32) -> u8 {
        self.d.get(a as usize).copied().unwrap_or(0)
    }
}

pub struct Rig {
    pub cpu: Blf4,
    pub mem: Mem,
    pub steps: u64,
    /// distinct states reached (by hash)
    pub seen: u64,
    pub causes: [u64; 33],
    /// address ranges where the dirty bit (0x10) is not compared
    pub dirty_blind: Vec<std::ops::Range<u32>>,
    /// compare data reads of the I/O page with the reference
    pub ports: bool,
}

#[derive(Debug)]
pub struct Diff(pub String);

pub struct Stepped {
    pub s: RState,
    pub res: Result<(), u8>,
    pub trapped: Option<u8>,
    pub reads: Vec<u32>,
    pub tables: Vec<u32>,
    /// the state after is not determined by the properties
    pub loose: bool,
}

impl Default for Rig {
    fn default() -> Self {
        Self::new()
    }
}
impl Rig {
    pub fn new() -> Self {
        Rig { cpu: Blf4::new(), mem: Mem::new(), steps: 0, seen: 0, causes: [0; 33], dirty_blind: Vec::new(), ports: false }
    }
    /// Execute one instruction for real; the reference is not consulted
    pub fn raw(&mut self, s: &RState) -> Result<(RState, Result<(), u8>), String> {
        put(&mut self.cpu, s);
        self.steps += 1;
        let mark = self.mem.mark();
        let (cpu, mem) = (&mut self.cpu, &mut self.mem);
        let res = guard(|| cpu.execute_instruction(mem))?;
        if self.mem.out_of_range {
            return Err("physical address beyond 24 bits".into());
        }
        let (n, res) = (get(&self.cpu), res.map_err(cause));
        let mut h = mix(n.pc as u64 | (n.fl as u64) << 16, res.err().unwrap_or(0x77) as u64);
        for q in n.w.chunks(4) {
            h = mix(h, q[0] as u64 | (q[1] as u64) << 16 | (q[2] as u64) << 32 | (q[3] as u64) << 48);
        }
        for &(a, _) in &self.mem.journal[mark..] {
            h = mix(h, (a as u64) << 8 | self.mem.d[a as usize] as u64);
        }
        self.seen += visit(h) as u64;
        Ok((n, res))
    }
    /// Execute one instruction for real and compare with every accepted behaviour
    pub fn step(&mut self, s: &RState) -> Result<Stepped, Diff> {
        let e = expect(s, &self.mem, false);
        let mark = self.mem.mark();
        self.mem.reads.clear();
        let r = self.raw(s);
        let (n, res) = match r {
            Ok(x) => x,
            Err(p) => return Err(Diff(format!("panic: {p}\n  state  {}\n  bytes  {}", s.show(), self.bytes(s, mark)))),
        };
        if self.ports && !s.virt() {
            let real: Vec<u32> = self.mem.reads.iter().copied().filter(|&a| a < 0x80).collect();
            let want: Vec<u32> = e.reads.iter().copied().filter(|&a| a < 0x80).collect();
            if real != want {
                return Err(Diff(format!("port reads {real:x?}, expected {want:x?}\n  state  {}\n  bytes  {}", s.show(), self.bytes(s, mark))));
            }
        }
        self.causes[e.trapped.map(|c| c as usize).unwrap_or(32)] += 1;
        let mut loose = false;
        if !self.matches(&e, &n, res, mark, &mut loose) {
            // consult the other accepted behaviours on the memory as it was
            let after: Vec<(u32, u8)> = self.mem.journal[mark..].iter().map(|&(a, _)| (a, self.mem.d[a as usize])).collect();
            let before = self.mem.journal[mark..].to_vec();
            self.mem.undo(mark);
            let full = expect(s, &self.mem, true);
            for &(a, v) in after.iter() {
                self.mem.d[a as usize] = v;
            }
            self.mem.journal.extend(before);
            if !self.matches(&full, &n, res, mark, &mut loose) {
                let w: Vec<String> = after.iter().map(|(a, v)| format!("{a:06x}<-{v:02x}")).collect();
                let exp: Vec<String> = full
                    .alts
                    .iter()
                    .take(6)
                    .map(|a| {
                        let w: Vec<String> = a.writes.iter().map(|(a, v)| format!("{a:06x}<-{v:02x}")).collect();
                        format!("  expect {} {:x?} [{}]", a.s.show(), a.res, w.join(" "))
                    })
                    .collect();
                return Err(Diff(format!(
                    "state  {}\n  bytes  {}\n  real   {} {:x?} [{}]\n{}",
                    s.show(),
                    self.bytes(s, mark),
                    n.show(),
                    res,
                    w.join(" "),
                    exp.join("\n")
                )));
            }
        }
        Ok(Stepped { s: n, res, trapped: e.trapped, reads: e.reads, tables: e.tables, loose })
    }
    /// instruction bytes at the program counter, for messages
    fn bytes(&mut self, s: &RState, mark: usize) -> String {
        let saved: Vec<(u32, u8)> = self.mem.journal[mark..].iter().map(|&(a, _)| (a, self.mem.d[a as usize])).collect();
        let before = self.mem.journal[mark..].to_vec();
        self.mem.undo(mark);
        let mut o = Vec::new();
        {
            let mut sup = *s;
            sup.fl &= !crate::refcpu::U;
            let mut m = crate::refcpu::Ov::new(&self.mem);
            for i in 0..4 {
                o.push(match crate::refcpu::walk(&sup, &mut m, s.pc.wrapping_add(i), crate::refcpu::Acc::X) {
                    Ok(p) => format!("{:02x}", m.get(p)),
                    Err(c) => format!("<{c:x}>"),
                });
            }
        }
        for (a, v) in saved {
            self.mem.d[a as usize] = v;
        }
        self.mem.journal.extend(before);
        o.join(" ")
    }
    fn differs(&self, a: u32, x: u8, y: u8) -> bool {
        x != y && (x ^ y != 0x10 || !self.dirty_blind.iter().any(|r| r.contains(&a)))
    }
    /// Put an instruction where the processor will fetch it (undone with the journal)
    pub fn inject(&mut self, s: &RState, bytes: &[u8]) {
        for (i, &b) in bytes.iter().enumerate() {
            let p = {
                let mut m = crate::refcpu::Ov::new(&self.mem);
                crate::refcpu::walk(s, &mut m, s.pc.wrapping_add(i as u16), crate::refcpu::Acc::X)
            };
            match p {
                Ok(p) => self.mem.set(p, b),
                Err(_) => break,
            }
        }
    }
    fn matches(&self, e: &Expect, n: &RState, res: Result<(), u8>, mark: usize, loose: &mut bool) -> bool {
        'alt: for a in &e.alts {
            if a.any {
                *loose = true;
                return true;
            }
            if a.res != res {
                continue;
            }
            if a.loose {
                *loose = true;
                return true;
            }
            if a.s != *n {
                continue;
            }
            // final values of everything written by either
            for (i, &(ad, _)) in a.writes.iter().enumerate() {
                if a.writes[i + 1..].iter().any(|x| x.0 == ad) {
                    continue;
                }
                if self.differs(ad, self.mem.d[ad as usize], a.writes[i].1) {
                    continue 'alt;
                }
            }
            for (i, &(ad, old)) in self.mem.journal[mark..].iter().enumerate() {
                // the first entry for an address holds its value before the step
                if self.mem.journal[mark..mark + i].iter().any(|x| x.0 == ad) {
                    continue;
                }
                if !a.writes.iter().any(|x| x.0 == ad) && self.differs(ad, self.mem.d[ad as usize], old) {
                    continue 'alt;
                }
            }
            return true;
        }
        false
    }
    pub fn report_causes(&self, r: &Report) {
        for (i, n) in self.causes.iter().enumerate() {
            if *n != 0 {
                let name = if i == 32 { "completed".to_string() } else { format!("trap {i:02x}") };
                r.outcome(&name, *n);
            }
        }
    }
}
