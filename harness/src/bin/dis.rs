//! C23: disassembly against the reference decoder, the real processor and the real assembler
use mc::cpu::*;
use mc::objfmt::*;
use mc::proc::*;
use mc::refasm::*;
use mc::refcpu::{len_of, shape, walk, well_formed, Acc, Ov, RState, Shape, V};
use mc::report::*;
use std::cell::Cell;
use std::path::PathBuf;
use telda2::blf4::Blf4;
use telda2::disassemble::disassemble_instruction;
use telda2::machine::Machine;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    assert_eq!(id, "C23");
    c23(r);
    cleanup();
    r.finish()
}

struct Dis {
    m: Machine<Mem, Blf4>,
}
#[derive(Debug, PartialEq)]
struct Shown {
    addr: u16,
    bytes: Vec<u8>,
    text: String,
    next: u16,
}
impl Dis {
    fn new() -> Self {
        Dis { m: Machine::new(Mem::new(), Blf4::new()) }
    }
    /// Disassemble with the state; also checks that nothing changes
    fn run(&mut self, s: &RState, imm: u16, label: Option<&'static str>) -> Result<Result<Shown, u8>, String> {
        put(&mut self.m.cpu, s);
        let mark = self.m.memory.mark();
        let asked = Cell::new(None);
        let m = &mut self.m;
        let res = guard(|| {
            disassemble_instruction(m, |v| {
                asked.set(Some(v));
                if v == imm {
                    label
                } else {
                    Some("a_wrong_label")
                }
            })
        })
        .map_err(|p| format!("panic: {p}"))?;
        let n = get(&self.m.cpu);
        if n != *s {
            return Err(format!("the state changed to {}", n.show()));
        }
        if self.m.memory.mark() != mark {
            return Err("memory was written".into());
        }
        let d = match res {
            Ok(d) => d,
            Err(t) => return Ok(Err(cause(t))),
        };
        // "  aaaa:  b0 b1 b2 b3    text"
        let bad = || format!("unreadable line {:?}", d.annotated_source);
        let (a, rest) = d.annotated_source.trim_start().split_once(':').ok_or_else(bad)?;
        let addr = u16::from_str_radix(a, 16).map_err(|_| bad())?;
        let n = d.next_instruction_location.wrapping_sub(s.pc);
        if !(1..=4).contains(&n) {
            return Err(format!("length {n}"));
        }
        let mut bytes = Vec::new();
        let mut rest = rest.trim_start();
        for _ in 0..n {
            let (b, t) = rest.split_once(' ').ok_or_else(bad)?;
            if b.len() != 2 {
                return Err(bad());
            }
            bytes.push(u8::from_str_radix(b, 16).map_err(|_| bad())?);
            rest = t.trim_start();
        }
        Ok(Ok(Shown { addr, bytes, text: rest.trim_end().to_string(), next: d.next_instruction_location }))
    }
}

fn imm_of(b: &[u8; 4]) -> u16 {
    match shape(b[0]) {
        Shape::ImmW => u16::from_le_bytes([b[1], b[2]]),
        _ => u16::from_le_bytes([b[2], b[3]]),
    }
}
/// Texts to assemble and the bytes they have to give
#[derive(Default)]
struct Texts(Vec<(String, Vec<u8>)>);

fn one(r: &Report, d: &mut Dis, b: &[u8; 4], pc: u16, t: &mut Texts, hexb: &mut Vec<(String, Vec<u8>)>) -> bool {
    let s = RState { pc, ..RState { w: [0, 0x1111, 0x2222, 3, 4, 5, 6, 7, 8, 9, 10, 0x4000, 12, 13, 14, 0], pc: 0, fl: 0x50 } };
    let fail = |w: &str, x: String| {
        r.violation(w, format!("bytes {b:02x?} at {pc:04x}\n{x}"));
        false
    };
    for (i, &v) in b.iter().enumerate() {
        let a = pc.wrapping_add(i as u16);
        d.m.memory.poke(a as u32, v);
    }
    let n = len_of(shape(b[0]));
    let imm = imm_of(b);
    let wide = matches!(shape(b[0]), Shape::ImmW | Shape::LdiW | Shape::RegsW(_));
    for label in [None, Some("a_label")] {
        if label.is_some() && !wide {
            continue;
        }
        let x = match d.run(&s, imm, label) {
            Ok(Ok(x)) => x,
            Ok(Err(c)) => return fail("disassembling accessible memory traps", format!("trap {c:02x}")),
            Err(e) => return fail("disassembling goes wrong", e),
        };
        if x.addr != pc || x.bytes[..] != b[..n.min(x.bytes.len())] || x.bytes.len() != n || x.next != pc.wrapping_add(n as u16) {
            return fail("wrong length, address or bytes", format!("expected {n} bytes, got {x:x?}"));
        }
        if !well_formed(b) {
            continue;
        }
        if let Some(e) = EXTRA.iter().find(|e| e.1 == b[0]) {
            let regs = [b[1] >> 4, b[1] & 15, b[2] >> 4];
            let ops: Vec<&str> = e.2.chars().zip(regs).map(|(k, i)| if k == 'b' { BREGS[i as usize] } else { WREGS[i as usize] }).collect();
            let want = format!("{} {}", e.0[0], ops.join(", "));
            if x.text != want.trim() {
                return fail("wrong text", format!("expected {want:?}, got {:?}", x.text));
            }
            continue;
        }
        if !producible(b) {
            continue;
        }
        let text = if label.is_some() {
            if x.text.contains("a_wrong_label") {
                return fail("a label is looked up for another value than the operand", format!("{:?} for operand {imm:04x}", x.text));
            }
            x.text.replace("a_label", &imm.to_string())
        } else {
            x.text.clone()
        };
        let (p, amb) = plain(&text);
        if amb {
            hexb.push((text, b[..n].to_vec()));
        }
        // the same text twice needs no second assembly
        if label.is_none() || t.0.last().map(|l| l.0 != p).unwrap_or(true) {
            t.0.push((p, b[..n].to_vec()));
        }
    }
    true
}

/// Assemble one file; None if the assembler fails
fn assemble_text(dir: &PathBuf, text: &str) -> (Option<Vec<u8>>, String) {
    let src = dir.join("l.telda");
    let _ = std::fs::remove_file(src.with_extension("to"));
    std::fs::write(&src, text).unwrap();
    let out = run(std::process::Command::new(tool("tc")).current_dir(dir).arg("l.telda"), b"", 60);
    if !out.ok() {
        return (None, out.text());
    }
    let o = std::fs::read(src.with_extension("to")).ok().and_then(|b| match judge(&b) {
        Verdict::Object(_, o) => Some(o),
        _ => None,
    });
    (o.map(|o| o.segs.get(&TEXT).map(|s| s.1.clone()).unwrap_or_default()), out.text())
}
fn back(r: &Report, work: &Scratch, t: &[(String, Vec<u8>)]) {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    thread_local!(static T: u64 = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    let dir = work.path(format!("w{}", T.with(|t| *t)));
    let _ = std::fs::create_dir_all(&dir);
    for c in t.chunks(15000) {
        let mut s = String::from(".seg text\n");
        let mut want = Vec::new();
        for (l, b) in c {
            s.push_str(l);
            s.push('\n');
            want.extend(b);
        }
        r.add(c.len() as u64, c.len() as u64, 1);
        let (got, msg) = assemble_text(&dir, &s);
        if got.as_ref() == Some(&want) {
            continue;
        }
        // find the first one
        let mut p = 0;
        for (l, b) in c {
            let bad = match &got {
                Some(g) => g.get(p..p + b.len()) != Some(&b[..]),
                None => assemble_text(&dir, &format!(".seg text\n{l}\n")).0.as_ref() != Some(b),
            };
            p += b.len();
            if bad {
                return r.violation(format!("{l:?} does not assemble to the disassembled bytes {b:02x?}"), format!("{:02x?}\n{msg}", got.as_ref().map(|g| &g[p - b.len()..p.min(g.len())])));
            }
        }
        return r.violation("the texts assemble to something else", msg);
    }
}

fn c23(r: &Report) {
    let work = Scratch::new("c23");
    let full = r.thorough;
    r.bound(format!(
        "all 256 opcodes x all operand bytes: 1 to 3 byte instructions completely, with a 4 byte instruction all 256 register bytes x {}; at {} addresses for one pattern per opcode and register byte; length, address, bytes, text (assembled by the real tc), with and without a label; unchanged state after each; length compared with the real execution for every opcode x first byte x 8 second bytes; page ends: every opcode x 4 positions x 10 page states x supervisor/user x both levels",
        if full { "all 65536 immediates" } else { "61 border immediates, and all 65536 immediates for one register byte" },
        if full { "all 65408" } else { "8224" }
    ));
    let mut vals: Vec<u16> = vec![0, 1, 2, 9, 10, 11, 0x1b, 0xab, 0xfb, 0x1a, 0x99, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x10b, 0x123, 0xfff, 0x1000, 0x1001, 0x7fff, 0x8000, 0x8001, 0xa5c3, 0xfffd, 0xfffe, 0xffff];
    vals.extend((0..16).map(|i| 1u16 << i));
    vals.extend((0..16).map(|i| !(1u16 << i)));
    vals.sort();
    vals.dedup();
    // (opcode, first operand byte range) jobs
    let jobs: Vec<(u8, u8)> = (0..=255u8).flat_map(|op| (0..16u8).map(move |h| (op, h))).collect();
    let hexbs = std::sync::Mutex::new(Vec::new());
    let tier = full;
    par(r, &jobs, |&(op, h)| {
        thread_local!(static D: std::cell::RefCell<Dis> = std::cell::RefCell::new(Dis::new()));
        D.with(|d| {
            let d = &mut *d.borrow_mut();
            let n = len_of(shape(op));
            let (mut t, mut hb) = (Texts::default(), Vec::new());
            let mut cases = 0u64;
            'o: for l in 0..16u8 {
                let b1 = h << 4 | l;
                for b2 in 0..=255u8 {
                    if n < 3 && b2 % 85 != 0 {
                        continue;
                    }
                    for b3 in 0..=255u8 {
                        if n < 4 && b3 != b2 ^ 0x5a {
                            continue;
                        }
                        let imm = u16::from_le_bytes([b2, b3]);
                        if n == 4 && !tier && vals.binary_search(&imm).is_err() && b1 != 0x20 && b1 != 0x01 {
                            continue;
                        }
                        cases += 1;
                        if !one(r, d, &[op, b1, b2, b3], 0x1000, &mut t, &mut hb) {
                            break 'o;
                        }
                        if r.want_sample() && op == 0x40 && b1 == 0x21 {
                            r.sample(format!("{:02x?} -> {:?}", [op, b1, b2, b3], t.0.last()));
                        }
                    }
                    if r.stopped() {
                        break 'o;
                    }
                    if t.0.len() > 40000 {
                        back(r, &work, &t.0);
                        t.0.clear();
                    }
                }
            }
            r.add(cases, cases, 0);
            r.outcome(if shape(op) == Shape::Bad { "unknown opcode" } else { "instruction" }, cases);
            back(r, &work, &t.0);
            hb.truncate(64);
            hexbs.lock().unwrap().extend(hb);
        });
    });
    // literals ending in b
    if !r.violated() {
        let dir = work.path("hexb");
        let _ = std::fs::create_dir_all(&dir);
        let mut seen = std::collections::BTreeSet::new();
        let hexbs = hexbs.into_inner().unwrap();
        for (l, b) in hexbs.iter().filter(|(l, _)| seen.insert(l.split_once(' ').map(|x| x.0.to_string()).unwrap_or_default() + &l[l.len() - 3..])).take(400) {
            if assemble_text(&dir, &format!(".seg text\n{l}\n")).0.as_ref() != Some(b) {
                r.known("hex-b-suffix", l);
            }
        }
    }
    let opcodes: Vec<u8> = (0..=255u8).collect();
    // addresses
    par(r, &opcodes, |&op| {
        let mut d = Dis::new();
        let (mut t, mut hb) = (Texts::default(), Vec::new());
        let n = len_of(shape(op)) as u32;
        let mut cases = 0;
        for pc in 0x80..=0xffffu32 {
            // within the address space only: the first page is that of the ports
            if pc + n > 0x10000 || (!full && pc % 8 != 0 && pc < 0xffc0) {
                continue;
            }
            t.0.clear();
            hb.clear();
            cases += 1;
            let b = [op, (pc >> 3) as u8 & 0xf0, pc as u8 & 0xf0, (pc >> 8) as u8];
            if !one(r, &mut d, &b, pc as u16, &mut t, &mut hb) {
                break;
            }
        }
        r.add(cases, cases, 0);
        r.outcome("addresses", cases);
    });
    // the real execution
    par(r, &opcodes, |&op| {
        let mut rig = Rig::new();
        let mut d = Dis::new();
        let control = matches!(op, 0x0d | 0x25 | 0x26 | 0x2f..=0x3a);
        for b1 in 0..=255u8 {
            for b2 in [0u8, 0x10, 0xf0, 0x1f, 0x01, 0x23, 0x67, 0xb0] {
                // how far a refused instruction is fetched is left open
                if control || (op == 0x40 && b1 & 15 == 1) || !well_formed(&[op, b1, b2, 0x31]) {
                    continue;
                }
                let s = RState { w: [0, 0x211, 0x122, 3, 4, 5, 6, 7, 8, 9, 10, 0x4000, 12, 13, 0x300, 0], pc: 0x1000, fl: 0 };
                let b = [op, b1, b2, 0x31];
                rig.mem.undo(0);
                rig.mem.poke_all(0x1000, &b);
                d.m.memory.poke_all(0x1000, &b);
                let real = match rig.raw(&s) {
                    Ok((n, _)) => n.pc.wrapping_sub(0x1000),
                    Err(p) => return r.violation("the processor panics", p),
                };
                match d.run(&s, imm_of(&b), None) {
                    Ok(Ok(x)) if x.next.wrapping_sub(0x1000) == real => (),
                    x => return r.violation("disassembled length differs from that of the execution", format!("bytes {b:02x?}: executed {real}, {x:x?}")),
                }
            }
        }
        r.add(rig.steps, rig.steps, rig.steps);
        r.outcome("lengths compared with execution", rig.steps);
    });
    // page ends: tables at 0x200 (level 1) and 0x400 (level 2); code page 5 -> 0x8280, next page 6 -> 0x8480
    let flags: Vec<u32> = vec![0, 1, 3, 7, 9, 0xf, 0x29, 0x2f, 0x21, 0x2e];
    par(r, &opcodes, |&op| {
        let mut d = Dis::new();
        let mut cases = 0;
        let mut trapped = 0;
        let shapes: Vec<u8> = vec![0x00, 0x10, 0x21, 0xf0];
        for code in 0..2u32 {
            // second: at the end of the address space, continued at 0
            let first = if code == 0 { 0x5fffu16 } else { 0xffff };
            let (i1, i2) = (first as u32 >> 12, (first.wrapping_add(1)) as u32 >> 12);
            for &fa in &flags {
                for &fb in &flags {
                    for lvl in 0..2 {
                        for k in 0x200..0x500 {
                            d.m.memory.poke(k, 0);
                        }
                        // level 1: one table for the first page, one for the second
                        d.m.memory.poke32(0x200 + 4 * i1, (0x400 / 0x80) * 0x8000 | if lvl == 0 { fa } else { 0x2f });
                        d.m.memory.poke32(0x200 + 4 * i2, (0x480 / 0x80) * 0x8000 | if lvl == 0 { fb } else { 0x2f });
                        d.m.memory.poke32(0x400 + 4 * 31, 0x105 * 0x8000 | if lvl == 1 { fa } else { 0x2f });
                        d.m.memory.poke32(0x480, 0x109 * 0x8000 | if lvl == 1 { fb } else { 0x2f });
                        for back in 0..4u16 {
                            for &b1 in &shapes {
                                let b = [op, b1, 0x10, 0x22];
                                let pc = first.wrapping_sub(back);
                                for (i, &v) in b.iter().enumerate() {
                                    let a = if i as u16 <= back { 0x105 * 0x80 + 0x7f - back as u32 + i as u32 } else { 0x109 * 0x80 + i as u32 - back as u32 - 1 };
                                    d.m.memory.poke(a, v);
                                }
                                for user in 0..2u8 {
                                    let s = RState { w: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x4000, 12, 13, 0x200, 0], pc, fl: V | user };
                                    let mut m = Ov::new(&d.m.memory);
                                    let n = len_of(shape(op));
                                    let mut may = Vec::new();
                                    let mut want = None;
                                    for i in 0..n {
                                        match walk(&s, &mut m, pc.wrapping_add(i as u16), Acc::X) {
                                            Ok(p) => may.push(p),
                                            Err(c) => {
                                                want = Some(c);
                                                break;
                                            }
                                        }
                                    }
                                    may.extend(m.tables.iter().flat_map(|t| *t..*t + 4));
                                    d.m.memory.log = true;
                                    d.m.memory.reads.clear();
                                    let x = d.run(&s, imm_of(&b), None);
                                    d.m.memory.log = false;
                                    cases += 1;
                                    let show = || format!("bytes {b:02x?}, {} fa={fa:x} fb={fb:x} level {}", s.show(), lvl + 1);
                                    if let Some(a) = d.m.memory.reads.iter().find(|a| !may.contains(a)) {
                                        return r.violation("disassembling reads inaccessible memory", format!("{}\naddress {a:06x}", show()));
                                    }
                                    match (x, want) {
                                        (Ok(Ok(x)), None) if x.addr == pc && x.bytes == b[..n] && x.next == pc.wrapping_add(n as u16) => (),
                                        (Ok(Err(c)), Some(w)) if c == w => trapped += 1,
                                        (x, w) => return r.violation("disassembling at a page end goes wrong", format!("{}\nexpected trap {w:x?}, got {x:x?}", show())),
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        r.add(cases, cases, 0);
        r.outcome("page ends", cases - trapped);
        r.outcome("page ends with a trap", trapped);
    });
    r.assume("known finding hex-b-suffix: texts with a hexadecimal number ending in b are assembled with the number in decimal");
}
