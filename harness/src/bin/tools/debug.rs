//! C31: sessions of the debugger against the reference machine
use super::*;
use mc::refasm::{line, plain, producible, Item};

/// name, source, line-wise input for the program is part of the command list
pub const PROGRAMS: &[(&str, &str)] = &[
    ("nested calls", "
.global _start
.seg text
.entry
_start:
ldi r3, 2
ldi r4, 1
again:
call outer
sub r3, r3, r4
jnz again
ldi r1, 4
ldi r2l, '!'
syscall
halt
.global outer
outer:
push rl
call inner
call inner
pop rl
ret
inner:
ldi r1, 4
ldi r2l, 'i'
syscall
ret
"),
    ("recursion", "
.seg text
.entry
ldi r3, 3
ldi r4, 1
call rec
done:
halt
rec:
push rl
sub r3, r3, r4
jez over
call rec
over:
ldi r1, 4
ldi r2l, 10
syscall
pop rl
ret
"),
    ("return at the top", "
.seg text
.entry
ldi r3, back
or rl, r3, r0
ret
null
back:
ldi r1, 4
ldi r2l, 'b'
syscall
call sub
or rl, r3, r0
ret
sub:
jmp out
null
out:
div r5, r6, r3, r0
"),
    ("lines", "
.seg rodata
text:
.string \"ab\\n\\ncd\"
.byte 0
.seg text
.entry
start:
ldi r6, text
ldi r7, 1
ldi r1, 4
next_one:
load r2l, r6, 0
sub r0b, r2l, r0b
jez end
syscall
add r6, r6, r7
jmp next_one
end:
call last
last:
halt
"),
    ("input", "
.seg text
.entry
call get
call put
call get
call put
call get
call put
halt
get:
ldi r1, 3
syscall
or r2l, r1l, r0b
ret
put:
ldi r1, 4
syscall
ret
"),
    ("error handler", "
.seg data
cell:
.wide 3
.seg text
.entry
ldi r1, 15
ldi r2, handler
syscall
div r5, r6, r4, r0
null
handler:
ldi r3l, 'a'
add r2l, r1l, r3l
ldi r1, 4
syscall
load r5, r0, cell
ldi r6, 1
sub r5, r5, r6
jlt fin
store r0, cell, r5
call deeper
fin:
halt
deeper:
ldi r7, 0x6000
load r8, r7, 0
ret
"),
    ("data and faults", "
.seg data
.global table
table:
.wide 0x1234
bytes:
.byte 1
.byte 0xff
.seg heap
pool:
.wide 0xbeef
.seg text
.entry
go:
ldi r6, table
load r5, r6, 0
load r4l, r6, 2
load r4h, r6, 3
store r6, 2, r5
ldi r7, pool
store r7, r5, r4l
call elsewhere
elsewhere:
add r8b, r4l, r4h
add r9b, r4h, r4h
push r5
pop r10
jmp bytes
"),
    ("flags", "
.seg text
.entry
ldi r3, 0x8000
ldi r4, 0xffff
add r5, r3, r3
sub r5, r0, r4
add r5, r3, r4
sub r5, r3, r3
add r5l, r6b, r7b
or r5, r4, r4
and r5, r4, r0
mul r5, r6, r3, r4
ctf
halt
"),
    ("off the end", "
.seg text
.entry
ldi r3, 0x0140
call near
near:
jmp r3
nop
nop
nop
tail:
nop
"),
    ("loop", "
.seg text
.entry
ldi r3, 40
ldi r4, 1
l:
call tick
sub r3, r3, r4
jnz l
halt
tick:
sub r0, r3, r4
jnz quiet
ldi r1, 4
ldi r2l, 't'
syscall
quiet:
ret
"),
    ("jumps", "
.seg rodata
targets:
.wide one
.wide two
.seg text
.entry
ldi r6, targets
load r5, r6, 0
jmp r5
null
one:
call inside
load r5, r6, 2
jmp r5
two:
push r5
push r6b
call three
halt
inside:
ldi r1, 99
ret
three:
ret 3
"),
];
/// Not linked, with symbols that are undefined or without a name
fn unlinked() -> Obj {
    let mut o = reference(".ref away\n.global here\n.seg text\n.entry\nhere:\nldi r3, away\ncall there\nhalt\nthere:\nload r4, r3, 0\nret\n");
    o.syms.push(sym("", false, TEXT, o.entry.unwrap().1 + 4));
    o
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    /// a line of output of the program
    Out(String),
    Ask,
    /// register or memory answer: values
    Reg(String, Vec<u32>),
    Flags(Vec<&'static str>),
    Mem(u8, u8),
    /// stop at an address
    Stop(u16),
    Ended(Vec<u8>),
}

/// What a session shows
struct Session<'a> {
    vm: Vm,
    obj: &'a Obj,
    depth: i32,
    lines: std::collections::VecDeque<String>,
    buf: std::collections::VecDeque<u8>,
    line: Vec<u8>,
    /// one list per prompt
    segs: Vec<Vec<Ev>>,
    /// stops: checked against the memory at that time
    shown: Vec<(u16, Result<[Option<u8>; 4], Vec<u8>>)>,
    errors: Vec<Vec<&'static str>>,
    exit: Option<i32>,
    open: bool,
    /// the last line has no end
    unfinished: bool,
}
const WREG: [&str; 16] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "rs", "rl", "rf", "rp", "rh"];
pub const BREG: [&str; 16] = ["r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h", "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b"];
fn number(s: &str) -> Option<u16> {
    let s = s.trim();
    for (p, b) in [("0x", 16), ("0o", 8), ("0b", 2)] {
        if let Some(d) = s.strip_prefix(p) {
            return (!d.starts_with('+')).then(|| u16::from_str_radix(d, b).ok()).flatten();
        }
    }
    s.parse().ok()
}
impl<'a> Session<'a> {
    fn new(vm: Vm, obj: &'a Obj, lines: &[String], unfinished: bool) -> Self {
        Session { vm, obj, depth: 0, lines: lines.to_vec().into(), buf: Default::default(), line: vec![], segs: vec![], shown: vec![], errors: vec![], exit: None, open: false, unfinished }
    }
    fn ev(&mut self, e: Ev) {
        self.segs.last_mut().unwrap().push(e)
    }
    fn flush(&mut self) {
        let l = String::from_utf8_lossy(&std::mem::take(&mut self.line)).into_owned();
        self.ev(Ev::Out(l));
    }
    fn finish(&mut self, code: i32) {
        if !self.line.is_empty() {
            self.flush();
        }
        self.exit = Some(code);
    }
    /// The instruction at an address: bytes as far as it goes, or why it cannot be read
    fn at(&self, pc: u16) -> Result<[Option<u8>; 4], Vec<u8>> {
        let mut b = [None; 4];
        let op = self.vm.peek(pc, Acc::X).map_err(|c| vec![c])?;
        for i in 0..len_of(shape(op)) {
            b[i] = Some(self.vm.peek(pc.wrapping_add(i as u16), Acc::X).map_err(|c| vec![c])?);
        }
        Ok(b)
    }
    fn stop(&mut self) {
        let pc = self.vm.s.pc;
        self.shown.push((pc, self.at(pc)));
        self.ev(Ev::Stop(pc));
        self.segs.push(vec![]);
    }
    /// run until the depth is reached; at least one instruction
    fn advance(&mut self, target: Target) {
        let mut target = match target {
            Target::This(d) => Some(d),
            Target::Next => None,
        };
        for _ in 0..60_000 {
            let ins = self.at(self.vm.s.pc);
            let d = match ins {
                Ok(b) if b[0] == Some(0x25) => 1,
                Ok(b) if b[0] == Some(0x26) => -1,
                _ => 0,
            };
            if ins == Ok([Some(0x0c), None, None, None]) && self.vm.s.w[1] == 3 && self.buf.is_empty() {
                self.ev(Ev::Ask);
                match self.lines.pop_front() {
                    Some(l) => {
                        let end = if self.unfinished && self.lines.is_empty() { "" } else { "\n" };
                        self.buf.extend([raw(&l), end.into()].concat())
                    }
                    None => {
                        self.errors.push(vec![]);
                        return self.finish(1);
                    }
                }
            }
            let (outs, pos) = (self.vm.out.len(), self.vm.bus.pos.get());
            if self.vm.bus.input.len() == pos {
                let b: Vec<u8> = self.buf.iter().copied().collect();
                self.vm.bus.input.extend(b);
            }
            self.vm.step();
            let used = self.vm.bus.pos.get() - pos;
            self.buf.drain(..used);
            let new = self.vm.out[outs..].to_vec();
            for b in new {
                if b == b'\n' {
                    self.flush()
                } else {
                    self.line.push(b)
                }
            }
            if self.vm.open.is_some() {
                self.open = true;
                return;
            }
            if let Some(c) = self.vm.ended {
                let all: Vec<u8> = if self.vm.also.is_empty() { vec![c] } else { self.vm.also.iter().map(|x| x.0).collect() };
                self.ev(Ev::Ended(all));
                return self.finish(0);
            }
            self.depth += d;
            if target.is_none() {
                target = Some(self.depth);
            }
            if target == Some(self.depth) {
                return self.stop();
            }
        }
        self.open = true;
    }
    fn command(&mut self, l: &str) {
        let l = l.trim();
        let s = &self.vm.s;
        if let Some(i) = WREG.iter().position(|n| *n == l) {
            let v = s.w[i] as u32;
            return self.answer(Ev::Reg(l.into(), vec![v]));
        }
        if let Some(i) = BREG.iter().position(|n| *n == l) {
            let v = s.rb(i) as u32;
            return self.answer(Ev::Reg(l.into(), vec![v]));
        }
        match l {
            "q" | "quit" => self.finish(0),
            "n" | "next" => self.advance(Target::This(self.depth)),
            "si" | "in" | "stepin" => self.advance(Target::Next),
            "so" | "out" | "stepout" => self.advance(Target::This(self.depth - 1)),
            "rpc" => self.answer(Ev::Reg("pc".into(), vec![s.pc as u32])),
            "flags" => {
                let f = s.fl;
                let all = [(Z, "zero"), (O, "overflow"), (S, "sign"), (C, "carry"), (V, "vm"), (U, "user")];
                self.answer(Ev::Flags(all.iter().filter(|x| f & x.0 != 0).map(|x| x.1).collect()))
            }
            _ if l.starts_with("r ") || l.starts_with("g ") => {
                let Some(a) = number(&l[2..]) else { return self.wrong(vec![]) };
                if l.starts_with("g ") {
                    self.vm.s.pc = a;
                    return self.stop();
                }
                let (x, y) = (self.vm.peek(a, Acc::R), self.vm.peek(a.wrapping_add(1), Acc::R));
                match (x, y) {
                    (Ok(x), Ok(y)) => self.answer(Ev::Mem(x, y)),
                    _ => self.wrong([x.err(), y.err()].into_iter().flatten().map(cause_name).collect()),
                }
            }
            _ => self.wrong(vec![]),
        }
    }
    fn answer(&mut self, e: Ev) {
        self.ev(e);
        self.segs.push(vec![]);
    }
    fn wrong(&mut self, names: Vec<&'static str>) {
        self.errors.push(names);
        self.segs.push(vec![]);
    }
    fn run(&mut self) {
        self.segs.push(vec![]);
        self.stop();
        while self.exit.is_none() && !self.open {
            match self.lines.pop_front() {
                Some(l) => self.command(&l),
                None => self.finish(0),
            }
        }
    }
}
enum Target {
    This(i32),
    Next,
}

/// Bytes of a line; U+E000 + b stands for a byte that is not part of UTF-8
fn raw(l: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in l.chars() {
        match c as u32 {
            x @ 0xe080..=0xe0ff => v.push(x as u8),
            _ => v.extend(c.to_string().into_bytes()),
        }
    }
    v
}
const PROMPT: &str = "+tdgb> ";

/// Events of the text between two prompts; stops give the address and the rest of the line
fn parse<'t>(text: &'t str, ev: &mut Vec<Ev>, stops: &mut Vec<(u16, &'t str, Option<&'t str>)>) -> Result<(), String> {
    let mut label = None;
    for l in text.split('\n') {
        let mut l = l;
        while let Some(x) = l.strip_prefix("STDIN requested: ") {
            ev.push(Ev::Ask);
            l = x;
        }
        if l.trim().is_empty() {
            continue;
        }
        if let Some(x) = l.strip_prefix("STDOUT line: ") {
            ev.push(Ev::Out(x.into()));
        } else if l.starts_with('<') && l.ends_with(">:") {
            label = Some(&l[1..l.len() - 2]);
        } else if let Some(x) = l.strip_prefix("ended with ") {
            ev.push(Ev::Ended((0..=255).filter(|&c| cause_name(c) == x.trim()).collect()));
        } else if let Some(x) = l.strip_prefix(" = ") {
            let b: Vec<Option<u8>> = x.split_whitespace().take(2).map(|t| t.strip_prefix("0x").and_then(|t| u8::from_str_radix(t, 16).ok())).collect();
            match b[..] {
                [Some(a), Some(b)] => ev.push(Ev::Mem(a, b)),
                _ => return Err(format!("unreadable answer {l:?}")),
            }
        } else if let Some(x) = l.strip_prefix("flags = ") {
            let all = ["zero", "overflow", "sign", "carry", "vm", "user"];
            let mut f = vec![];
            for t in x.split('|').map(|t| t.trim()).filter(|t| *t != "0") {
                match all.iter().find(|a| **a == t) {
                    Some(a) => f.push(*a),
                    None => return Err(format!("unknown flag in {l:?}")),
                }
            }
            ev.push(Ev::Flags(f));
        } else if let Some((n, v)) = l.split_once(" = ") {
            let mut t = v.splitn(3, ' ');
            let dec = t.next().and_then(|x| x.parse::<u32>().ok());
            let hex = t.next().and_then(|x| x.strip_prefix("0x")).and_then(|x| u32::from_str_radix(x, 16).ok());
            match (dec, hex) {
                (Some(d), Some(h)) if d == h => ev.push(Ev::Reg(n.into(), vec![d])),
                _ => return Err(format!("unreadable answer {l:?}")),
            }
        } else if let Some((a, rest)) = l.trim_start().split_once(':') {
            let Ok(a) = u16::from_str_radix(a, 16) else { return Err(format!("unreadable line {l:?}")) };
            ev.push(Ev::Stop(a));
            stops.push((a, rest, label.take()));
        } else {
            return Err(format!("unreadable line {l:?}"));
        }
    }
    match label {
        Some(l) => Err(format!("label {l:?} without an instruction")),
        None => Ok(()),
    }
}

/// The line of a stop against memory
pub fn shows(o: &Obj, pc: u16, rest: &str, label: Option<&str>, mem: &Result<[Option<u8>; 4], Vec<u8>>) -> Result<(), String> {
    let here = |s: &&Sym| s.loc == pc;
    match label {
        Some(l) if !o.syms.iter().filter(here).any(|s| s.name.trim() == l.trim()) => return Err(format!("no symbol {l:?} is there")),
        None if o.syms.iter().filter(here).any(|s| s.ty != UNKNOWN && !s.name.trim().is_empty()) => return Err("the label is not shown".into()),
        _ => (),
    }
    let b = match mem {
        Err(c) => {
            return match c.iter().any(|&c| rest.contains(cause_name(c))) {
                true => Ok(()),
                false => Err(format!("it cannot be read because of {:?}", c.iter().map(|&c| cause_name(c)).collect::<Vec<_>>())),
            }
        }
        Ok(b) => b,
    };
    let want: Vec<u8> = b.iter().flatten().copied().collect();
    let mut rest = rest.trim_start();
    let mut got = vec![];
    for _ in 0..want.len() {
        let (x, t) = rest.split_once(' ').unwrap_or((rest, ""));
        match u8::from_str_radix(x, 16) {
            Ok(v) if x.len() == 2 => got.push(v),
            _ => break,
        }
        rest = t.trim_start();
    }
    if got != want {
        return Err(format!("memory holds {want:02x?}"));
    }
    text(o, rest.trim_end(), &want)
}
/// The text of an instruction against its bytes
pub fn text(o: &Obj, text: &str, bytes: &[u8]) -> Result<(), String> {
    let mut b = [0; 4];
    b[..bytes.len()].copy_from_slice(bytes);
    if !producible(&b) {
        return Ok(());
    }
    let imm = match shape(b[0]) {
        Shape::ImmW => u16::from_le_bytes([b[1], b[2]]),
        _ => u16::from_le_bytes([b[2], b[3]]),
    };
    let (m, ops) = text.split_once(' ').unwrap_or((text, ""));
    let mut forms: Vec<Vec<String>> = vec![vec![]];
    for op in ops.split(", ").filter(|x| !x.is_empty()) {
        let named = o.syms.iter().any(|s| s.loc == imm && s.name.trim() == op.trim());
        forms = forms.into_iter().flat_map(|f| [Some(op.to_string()), named.then(|| imm.to_string())].into_iter().flatten().map(move |x| [&f[..], &[x]].concat())).collect();
    }
    for f in forms {
        let (t, _) = plain(&format!("{m} {}", f.join(", ")));
        if line(t.trim().as_bytes(), true) == Item::Bytes(bytes.to_vec(), None) {
            return Ok(());
        }
    }
    Err(format!("the text {text:?} does not stand for {bytes:02x?}"))
}

struct Start<'a> {
    name: &'a str,
    obj: &'a Obj,
    file: String,
    entry: Option<String>,
    pc: Option<u16>,
}
fn dump() -> Vec<String> {
    BREG.iter().chain(&WREG).chain(&["rpc", "flags"]).map(|s| s.to_string()).collect()
}

/// One session; false after a violation
fn session(r: &Report, dir: &Path, st: &Start, lines: &[String], unfinished: &str) -> bool {
    let mut all = dump();
    all.extend(lines.iter().cloned());
    let mut args = vec![];
    if let Some(e) = &st.entry {
        args.extend(["-E", e]);
    }
    args.push(&st.file);
    let mut input = all.join("\n") + "\n";
    input += unfinished;
    if !unfinished.is_empty() {
        all.push(unfinished.into());
    }
    // leave out what does not stop
    let mut vm = Vm::user(st.obj, b"", 0);
    if let Some(pc) = st.pc {
        vm.s.pc = pc;
    }
    let mut s = Session::new(vm, st.obj, &all, !unfinished.is_empty());
    s.run();
    if s.open {
        r.outcome("not settled", 1);
        return true;
    }
    let out = run(start(dir, "tdbg").args(&args), &raw(&input), 20);
    let bad = |w: &str, d: String| {
        r.violation(w, format!("program {}: tdbg {args:?}\nsession (after a dump of the registers) {lines:?} {unfinished:?}\n{d}\n{}", st.name, out.text()));
        false
    };
    if !out.timeout && (out.panicked() || out.code.is_none()) {
        return bad("the debugger crashes", String::new());
    }
    let text = text_of(&out.stdout);
    let parts: Vec<&str> = text.split(PROMPT).collect();
    let (mut got, mut stops) = (vec![], vec![]);
    for p in &parts {
        let mut e = vec![];
        if let Err(x) = parse(p, &mut e, &mut stops) {
            if out.timeout {
                break;
            }
            return bad("unexpected text", x);
        }
        got.push(e);
    }
    // general registers, rl and a missing entry point have no documented initial value
    let mut vm = Vm::user(st.obj, b"", 0);
    let learn = |seg: usize| match got.get(seg).map(|e| &e[..]) {
        Some([Ev::Reg(_, v)]) => Some(v[0] as u16),
        _ => None,
    };
    for i in (1..=10).chain([RL, RP]) {
        match learn(1 + 16 + i) {
            Some(v) => vm.s.w[i] = v,
            None => return bad("a register is not shown", format!("{:?}", got.get(17 + i))),
        }
    }
    // pages start where they are
    let model_rp = Vm::user(st.obj, b"", 0).s.w[RP];
    if vm.s.w[RP] != model_rp {
        // a different but consistent place of the tables: follow the model's
        vm.s.w[RP] = model_rp;
    }
    match st.pc {
        Some(pc) => vm.s.pc = pc,
        None => match learn(33) {
            Some(v) => vm.s.pc = v,
            None => return bad("the program counter is not shown", String::new()),
        },
    }
    let mut s = Session::new(vm, st.obj, &all, !unfinished.is_empty());
    s.run();
    if s.open {
        r.outcome("not settled", 1);
        return true;
    }
    if out.timeout {
        return bad("the debugger hangs", String::new());
    }
    r.add(s.segs.len() as u64, s.vm.steps + all.len() as u64, 1);
    // a register may be asked for by any name; rp is free
    for (n, w) in s.segs.iter().enumerate() {
        let g = got.get(n).cloned().unwrap_or_default();
        let same = g.len() == w.len()
            && g.iter().zip(w).all(|(g, w)| match (g, w) {
                (Ev::Ended(a), Ev::Ended(b)) => a.iter().any(|x| b.contains(x)),
                (Ev::Reg(a, _), Ev::Reg(b, _)) if b == "rp" => a == b,
                _ => g == w,
            });
        if !same {
            return bad("the debugger shows something else", format!("at prompt {n}: expected {w:x?}, got {g:x?}"));
        }
    }
    if got.len() != s.segs.len() {
        return bad("the debugger shows something else", format!("{} prompts expected, {} found", s.segs.len() - 1, got.len() - 1));
    }
    for ((pc, rest, label), (_, mem)) in stops.iter().zip(&s.shown) {
        if let Err(e) = shows(s.obj, *pc, rest, *label, mem) {
            return bad("a stop is shown wrongly", format!("{pc:04x}:{rest}\n{e}"));
        }
    }
    let err: Vec<String> = text_of(&out.stderr).lines().filter(|l| !l.trim().is_empty()).map(|l| l.to_string()).collect();
    if err.len() != s.errors.len() || err.iter().zip(&s.errors).any(|(l, n)| !n.is_empty() && !n.iter().any(|n| l.contains(n))) {
        return bad("errors are reported otherwise", format!("expected {:?}", s.errors));
    }
    if out.code != s.exit {
        return bad("exit status", format!("expected {:?}", s.exit));
    }
    r.outcome(
        match s.vm.ended {
            Some(c) => cause_name(c),
            None if s.exit == Some(1) => "input ended",
            None => "left",
        },
        1,
    );
    if r.want_sample() && st.obj.syms.len() > 3 {
        r.sample(format!("{}: {:?}: {} stops, {} instructions", st.name, lines.iter().filter(|l| !BREG.contains(&l.as_str()) && !WREG.contains(&l.as_str()) && *l != "rpc" && *l != "flags").collect::<Vec<_>>(), s.shown.len(), s.vm.steps));
    }
    true
}

pub fn c31(r: &'static Report) {
    let sc = Scratch::new("c31");
    // the text of the flags, also of those no debugged program reaches
    for n in 0..256u16 {
        let want: Vec<&str> = [(7, "zero"), (6, "overflow"), (5, "sign"), (4, "carry"), (3, "vm"), (0, "user")].iter().filter(|x| n >> x.0 & 1 == 1).map(|x| x.1).collect();
        let f = telda2::blf4::Blf4Flags::from(n);
        let text = f.to_string();
        let mut got: Vec<&str> = text.split('|').map(str::trim).filter(|t| !matches!(*t, "0" | "" | "trap" | "reserved")).collect();
        got.sort();
        let mut sorted = want.clone();
        sorted.sort();
        r.add(1, 1, 1);
        if got != sorted || u16::from(f) != n {
            return r.violation("the text of the flags", format!("flags {n:02x}: {want:?}, shown {text:?}, as number {:02x}", u16::from(f)));
        }
    }
    let mut objs: Vec<(String, Obj)> = PROGRAMS
        .iter()
        .map(|(n, t)| {
            let k = link(&[&reference(t)], Opts { align: 128, strip: false, exe: true, entry: None });
            assert!(k.fail.is_none(), "harness: {n}: {:?}", k.fail);
            (n.to_string(), k.obj)
        })
        .collect();
    objs.push(("not linked".into(), unlinked()));
    let mut no_entry = objs[0].1.clone();
    no_entry.entry = None;
    objs.push(("no entry point".into(), no_entry));
    let mut readable = objs[8].1.clone();
    readable.flags = Some(true);
    readable.stack = Some(0x80);
    objs.push(("readable text".into(), readable));
    let ticks = objs.iter().position(|o| o.0 == "loop").unwrap();
    let _ = ticks;
    let starts: Vec<Start> = objs.iter().enumerate().map(|(i, (n, o))| Start { name: n, obj: o, file: format!("p{i}"), entry: None, pc: o.entry.map(|e| e.1) }).collect();
    let place = |d: &Path| {
        if !d.join("p0").exists() {
            for (i, (_, o)) in objs.iter().enumerate() {
                std::fs::write(d.join(format!("p{i}")), o.bytes()).unwrap();
            }
        }
    };
    let t = r.thorough;
    // stepping
    let nav = ["n", "si", "so"];
    let long = if t { 9 } else { 6 };
    // everything
    let depth = if t { 4 } else { 3 };
    let mut jobs: Vec<(usize, Vec<String>)> = vec![];
    for (i, (_, o)) in objs.iter().enumerate() {
        for s in run_::sequences(3, long).into_iter().filter(|s| s.len() == long) {
            jobs.push((i, s.iter().map(|&k| nav[k].to_string()).collect()));
        }
        let e = o.entry.map(|e| e.1).unwrap_or(0x80);
        let text_end = o.segs.get(&TEXT).map(|s| s.0 as u32 + s.1.len() as u32).unwrap_or(0) as u16;
        let label = o.syms.iter().rev().find(|s| s.ty == TEXT && !s.name.is_empty()).map(|s| s.loc).unwrap_or(e);
        let data = o.segs.get(&DATA).map(|s| s.0).unwrap_or(0xfffe);
        let cmds: Vec<String> = vec![
            "next".into(),
            "in".into(),
            "out".into(),
            format!("g {e}"),
            format!("g 0x{label:x}"),
            format!("g 0x{:04X}", text_end.wrapping_sub(1)),
            "g 0x7001".into(),
            format!("r {data}"),
            "r 0xffff".into(),
            format!("r 0o{:o}", e),
            "r 12x".into(),
            "".into(),
            "r2h".into(),
        ];
        for s in run_::sequences(cmds.len(), depth).into_iter().filter(|s| s.len() == depth) {
            jobs.push((i, s.iter().map(|&k| cmds[k].clone()).collect()));
        }
    }
    let full = dump();
    let chunks: Vec<&[(usize, Vec<String>)]> = jobs.chunks(64).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        place(&d);
        for (i, cmds) in *c {
            // all registers after every command; without for long walks
            let mut lines = vec![];
            for c in cmds {
                lines.push(c.clone());
                if cmds.len() <= depth {
                    lines.extend(full.iter().cloned());
                }
            }
            if cmds.len() > depth {
                lines.extend(full.iter().cloned());
            }
            if !session(r, &d, &starts[*i], &lines, "") || r.stopped() {
                return;
            }
        }
    });
    r.bound(format!("{} programs; all sequences of {long} stepping commands, all sequences of {depth} out of 13 commands with all 34 register queries after each", objs.len()));
    // single stepping to the end and every spelling, number form, unfinished last line
    let d = thread_dir(&sc);
    place(&d);
    let mut singles: Vec<(usize, Vec<String>, &str)> = vec![];
    for i in 0..objs.len() {
        for w in ["si", "stepin", "in", "n", "next"] {
            singles.push((i, vec![w.to_string(); 400], ""));
        }
        for w in ["so", "stepout", "out"] {
            singles.push((i, vec![w.to_string(); 6], ""));
        }
        for q in ["q", "quit", " q ", "n", "r 5", "g 0x100", "xyz", ""] {
            singles.push((i, vec![], q));
            singles.push((i, vec!["si".into(), "si".into()], q));
            singles.push((i, vec![q.into(), "rpc".into()], "q"));
        }
        for a in 0..=16u32 {
            // boundaries of every page of the first blocks and of the last
            for x in [a * 128, a * 128 + 127, 0xffff - a * 128, 0xff80 - a * 128] {
                singles.push((i, vec![format!("r {x}"), format!("r 0x{x:x}"), format!("g 0b{x:b}"), "si".into(), format!("r 0o{x:o}")], ""));
            }
        }
        for w in ["r 65535", "r 65536", "g 65536", "g 0x10000", "r -1", "r 0x", "g", "r", "g ", "r\t5", "R1", "r11", "rx", "si 3", "g 0xg", "r 0b2", "r 0o8", "n n", "ｎ", "r ￥", "r +5", "r r1", "h", "\u{e0ff}", "si\u{e0ff}", "\u{e0c3}(", "r \u{e0b5}5", "r5\u{e080}", "g \u{e0e6}", "q\u{e0fe}"] {
            singles.push((i, vec![w.into(), "rpc".into(), "si".into(), w.into()], ""));
        }
    }
    // words and numbers that are almost commands
    let chars: Vec<char> = (0x20..0x7fu8).map(|c| c as char).chain(['\u{e9}', '\u{661}', '\u{ff11}', '\u{200b}']).collect();
    let mut words: Vec<String> = vec![];
    for a in &chars {
        words.push(a.to_string());
        for b in &chars {
            words.push(format!("{a}{b}"));
        }
    }
    let small: Vec<char> = ('a'..='z').chain('0'..='9').collect();
    for s in run_::sequences(small.len(), 3).into_iter().filter(|s| s.len() == 3) {
        words.push(s.iter().map(|&k| small[k]).collect());
    }
    let mut forms: Vec<String> = ["q", "quit", "n", "next", "si", "in", "stepin", "so", "out", "stepout", "rpc", "flags"].iter().chain(&WREG).chain(&BREG).map(|w| w.to_string()).collect();
    for (c, other) in [("r", "read"), ("g", "go")] {
        let mut nums: Vec<String> = vec![];
        for n in [0u16, 7, 128, 130, 0x1ab, 0xffff] {
            nums.extend([format!("{n}"), format!("0x{n:x}"), format!("0x{n:04X}"), format!("0o{n:o}"), format!("0b{n:b}"), format!("-{n}"), format!("0X{n:x}"), format!("0B{n:b}"), format!("{n:x}"), format!("${n:x}"), format!("{n:x}h"), format!("#{n}"), format!("-{}", 65536 - n as u32)]);
        }
        for o in &objs {
            nums.extend(o.1.syms.iter().filter(|s| !s.name.trim().is_empty()).map(|s| s.name.to_string()));
        }
        for n in nums {
            words.push(format!("{other} {n}"));
            words.push(format!("{c}{n}"));
            words.push(format!("{c}={n}"));
            words.push(format!("{c} {n} {n}"));
            forms.push(format!("{c} {n}"));
        }
    }
    for f in forms {
        let c: Vec<char> = f.chars().collect();
        for i in 0..=c.len() {
            for x in &chars {
                words.push(c[..i].iter().chain([x]).chain(&c[i..]).collect());
                if i < c.len() {
                    words.push(c[..i].iter().chain([x]).chain(&c[i + 1..]).collect());
                }
            }
            words.push(c[..i].iter().collect());
            words.push(c[i..].iter().collect());
            if i < c.len() {
                words.push(c[..i].iter().chain(&c[i + 1..]).collect());
            }
        }
        words.push(f.to_uppercase());
        words.push(f);
    }
    words.sort();
    words.dedup();
    // commands that go on or leave are tried above; a plus sign after a prefix is open
    words.retain(|w| !["q", "quit", "n", "next", "si", "in", "stepin", "so", "out", "stepout"].contains(&w.trim()) && !["0x+", "0o+", "0b+"].iter().any(|p| w.contains(p)));
    r.bound(format!("{} words and numbers that are commands or differ from one in a character", words.len()));
    let seen = objs.iter().position(|o| o.0 == "readable text").unwrap();
    let chunks: Vec<&[String]> = words.chunks(1000).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        place(&d);
        for i in [seen, 0] {
            let mut l = c.to_vec();
            l.push("rpc".into());
            if !session(r, &d, &starts[i], &l, "") || r.stopped() {
                return;
            }
        }
    });
    // input of the program
    let reader = objs.iter().position(|o| o.0 == "input").unwrap();
    let ins = ["", "x", " y ", "abc", "q", "n\t", "\u{e6}\r", "si", "\u{e0ff}", "\u{e080}n\u{e0c3}"];
    for s in run_::sequences(ins.len(), if t { 5 } else { 4 }) {
        let mut l: Vec<String> = vec!["so".into()];
        l.extend(s.iter().map(|&k| ins[k].to_string()));
        let last = l.pop().unwrap();
        singles.push((reader, [&l[..], &[last.clone()]].concat(), ""));
        if !last.is_empty() {
            singles.push((reader, l.clone(), ins[*s.last().unwrap()]));
        }
        l[0] = "si".into();
        l.insert(0, "n".into());
        l.insert(0, "si".into());
        singles.push((reader, [&l[..], &[last]].concat(), "q"));
    }
    let chunks: Vec<&[(usize, Vec<String>, &str)]> = singles.chunks(16).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        place(&d);
        for (i, l, u) in *c {
            if !session(r, &d, &starts[*i], l, u) || r.stopped() {
                return;
            }
        }
    });
    // deep nesting and long lines
    let mut far: Vec<(Obj, Vec<(Vec<String>, String)>)> = vec![];
    for n in [1u32, 2, 50, 127, 128, 129, 255, 256, 257, 300, if t { 40000 } else { 1000 }] {
        let o = link(&[&reference(&format!(".seg text\n.entry\nstart:\nldi r3, {n}\nldi r4, 1\nldi r5, {n}\ncall down\nhalt\ndown:\nsub r3, r3, r4\njez up\ncall down\nback:\nsub r5, r5, r4\njez over\nret\nup:\nldi rl, back\nret\nover:\nldi rl, last\nret\nlast:\nldi r1, 4\nldi r2l, 'e'\nsyscall\nhalt\n"))], Opts { align: 128, strip: false, exe: true, entry: None });
        let mut s = vec![];
        let mut k = 0usize;
        while k < 8 * n as usize + 20 && k < 4000 {
            for w in ["n", "so", "si"] {
                s.push(([vec!["si".to_string(); k], vec![w.to_string(); 5], vec!["rpc".into(), "r5".into(), "so".into(), "so".into(), "n".into(), "rpc".into()]].concat(), String::new()));
            }
            k += if n < 3 { 1 } else { 37 + n as usize / 10 };
        }
        far.push((o.obj, s));
    }
    // a return ends a call, a call begins one and nothing else does, whatever the operands are
    {
        let mut middle: Vec<String> = (0..=255).map(|n| format!("ret {n}")).collect();
        for s in ["nop", "ctf", "ldi r1, 0x4140", "ldi r1l, 64", "push r0", "push r0b", "pop r0b", "pop r0", "add r1, r1, r1", "mul r1, r2, r1, r1", "store r2, 0x4140, r1", "load r1, r2, 0x4041", "jez deep", "jo deep", "jmp deep", "jmp rl", "call deep", "call back", "call f", "syscall", "halt", "null", ".byte 0x40\n.byte 0x41", ".byte 0x41\n.byte 0x40"] {
            middle.push(s.into());
        }
        for m in &middle {
            // a call leaves the return address in rl; every return is followed by another one
            let o = link(&[&reference(&format!(".seg text\n.entry\nldi r5, 4\nldi r4, 1\ncall f\nback:\nsub r5, r5, r4\njgt again\nhalt\nagain:\ncall f\nnop\nhalt\nf:\n{m}\nret\ndeep:\nldi rl, back\nret 3\n"))], Opts { align: 128, strip: false, exe: true, entry: None });
            let mut s = vec![];
            for pre in [2usize, 3] {
                for w in ["n", "so", "si"] {
                    s.push(([vec!["si".to_string(); pre], vec![w.to_string(); 4], vec!["rpc".into(), "n".into(), "so".into(), "rpc".into(), "so".into()]].concat(), String::new()));
                }
            }
            far.push((o.obj, s));
        }
        r.bound(format!("next, step-in and step-out over {} instructions within a call (returns with every operand, all kinds of others)", middle.len()));
    }
    {
        // echoes lines; ends at a full stop
        let o = link(&[&reference(".seg text\n.entry\nldi r3l, '.'\nl:\nldi r1, 3\nsyscall\nor r2l, r1l, r0b\nldi r1, 4\nsyscall\nsub r0b, r2l, r3l\njnz l\nhalt\n")], Opts { align: 128, strip: false, exe: true, entry: None });
        let mut s = vec![];
        for n in (0..if t { 600 } else { 150 }).chain([255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 4095, 4096, 4097]) {
            let l: String = (0..n).map(|i| (b'a' + (i % 25) as u8) as char).collect();
            s.push((vec!["so".into(), l.clone() + "x"], String::new()));
            s.push((vec!["so".into(), l.clone(), "".into(), l.clone() + ".", "q".into()], String::new()));
            s.push((vec!["so".into(), l.clone() + "y"], l + "."));
        }
        far.push((o.obj, s));
    }
    r.bound(format!("calls nested up to {} deep, left and entered from every {} level on the way; input and output lines of every length up to {} and around powers of two up to 4097", if t { 40000 } else { 1000 }, 10, if t { 600 } else { 150 }));
    let jobs: Vec<(usize, usize)> = far.iter().enumerate().flat_map(|(i, f)| (0..f.1.len()).map(move |k| (i, k))).collect();
    par(r, &jobs.chunks(8).collect::<Vec<_>>(), |c| {
        let d = thread_dir(&sc);
        for &(i, k) in *c {
            let (o, s) = &far[i];
            std::fs::write(d.join("far"), o.bytes()).unwrap();
            let st = Start { name: "nesting and lines", obj: o, file: "far".into(), entry: None, pc: o.entry.map(|e| e.1) };
            if !session(r, &d, &st, &s[k].0, &s[k].1) || r.stopped() {
                return;
            }
        }
    });
    // start addresses
    for (i, (n, o)) in objs.iter().enumerate() {
        let mut es: Vec<(String, u16)> = vec![];
        for a in [0u16, 0x80, 0xffff, 0x7001] {
            es.push((format!("0x{a:x}"), a));
            es.push((format!("0x{a:04X}"), a));
        }
        let mut names: Vec<&str> = o.syms.iter().map(|s| s.name.trim()).filter(|n| !n.is_empty()).collect();
        names.sort();
        names.dedup();
        for n in names {
            let mut c: Vec<&Sym> = o.syms.iter().filter(|s| s.name.trim() == n && s.ty != UNKNOWN).collect();
            c.sort_by_key(|s| !s.global);
            if c.len() == 1 || c.len() > 1 && c[0].global {
                es.push((n.to_string(), c[0].loc));
            }
        }
        for (e, pc) in es {
            let s = Start { name: n, obj: o, file: format!("p{i}"), entry: Some(e), pc: Some(pc) };
            for l in [vec!["n".into(), "rpc".into(), "so".into()], vec!["si".into(), "si".into(), "n".into()]] {
                if !session(r, &d, &s, &l, "") {
                    break;
                }
            }
        }
    }
    // labels with names of all kinds
    let all: Vec<String> = mc::objfmt::names().into_iter().filter(|n| !n.contains([',', '>']) && !n.contains(" = ")).collect();
    r.bound(format!("labels with {} names, at stops, as targets and as places to start", all.len()));
    let jobs: Vec<usize> = (0..all.len()).collect();
    par(r, &jobs.chunks(16).collect::<Vec<_>>(), |c| {
        let d = thread_dir(&sc);
        for &k in *c {
            let name = |i: usize| all[(k + i) % all.len()].as_str();
            let mut o = Obj { entry: Some((TEXT, 0x80)), ..Obj::default() };
            o.segs.insert(TEXT, (0x80, vec![0x25, 0x87, 0, 0x40, 0x01, 0x89, 0, 0x26, 0, 0x20, 0x0a, 0x20, 0x26, 4]));
            for (i, a) in [0x80u16, 0x87, 0x89, 0x8b].into_iter().enumerate() {
                o.syms.push(sym(name([0, 1, 7, 50][i]), (k + i) % 2 == 0, TEXT, a));
            }
            std::fs::write(d.join("odd.to"), o.bytes()).unwrap();
            let go = |entry: Option<&str>, pc: u16, l: &[&str]| {
                let st = Start { name: "odd names", obj: &o, file: "odd.to".into(), entry: entry.map(String::from), pc: Some(pc) };
                session(r, &d, &st, &l.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "")
            };
            if !go(None, 0x80, &["si", "si", "si", "si", "si"]) || !go(None, 0x80, &["n", "n", "g 0x8b", "si"]) {
                return;
            }
            for s in &o.syms {
                // an address, or like an option
                if s.name.starts_with("0x") || s.name.starts_with('-') {
                    continue;
                }
                if !go(Some(&s.name), s.loc, &["si"]) || r.stopped() {
                    return;
                }
            }
        }
    });
    // an internal and a global symbol of the same name
    let mut o = objs[0].1.clone();
    let at = o.entry.unwrap().1;
    o.syms.insert(0, sym("two", false, TEXT, at + 3));
    o.syms.push(sym("two", true, TEXT, at + 6));
    o.syms.push(sym("two", false, TEXT, at));
    std::fs::write(d.join("two"), o.bytes()).unwrap();
    let s = Start { name: "symbols of one name", obj: &o, file: "two".into(), entry: Some("two".into()), pc: Some(at + 6) };
    session(r, &d, &s, &["si".into()], "");
    // files that are no objects
    std::fs::write(d.join("junk"), b"junk").unwrap();
    std::fs::write(d.join("none"), b"").unwrap();
    for args in [vec!["junk"], vec!["none"], vec!["missing"], vec!["."], vec!["-E", "0x80", "missing"], vec!["-E", "0xzz", "p0"]] {
        let out = call(&d, "tdbg", &args, b"si\nq\n");
        r.add(1, 1, 1);
        if !out.failed() || out.panicked() {
            r.violation("a file that cannot be debugged", format!("tdbg {args:?}: {}", out.text()));
        }
    }
    r.bound(format!("input of the program: all sequences of up to {} out of 10 lines (two of them no UTF-8), with and without an end of the last; 400 steps of each kind on every program; queries of the borders of the first and last 17 pages; {} wrong commands; start addresses and symbols", if t { 5 } else { 4 }, 30));
    r.assume("general registers, rl and the place of the page tables have no documented initial values: sessions start by asking for them");
    r.assume("sessions whose program does not reach the next stop within 60000 instructions are left out");
    r.rule("expected transcript from a reference machine and call depth; text of instructions assembled again by the reference assembler");
}
