use mc::cpu::*;
use mc::refcpu::*;
use mc::report::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use telda2::aalv::obj::{Entry, Flags, HeapSize, Object, SegmentType, StackSize};
use telda2::blf4::{Blf4, EKernel};
use telda2::machine::{Cpu, Machine};
use telda2::mem::{Io, LazyMain, MainMemory, ROM_SIZE};

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    Watchdog::start(r);
    match id.as_str() {
        "C10" => c10(r),
        "C12" => c12(r),
        "C13" => c13(r),
        "C14" => c14(r),
        _ => panic!("unknown property {id}"),
    }
    r.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    R(u8, u8),
    W(u8, u8),
}
/// Recording device: every read returns a value that depends on the port and the number of accesses so far
#[derive(Clone, Default)]
struct Rec(Rc<RefCell<Vec<Ev>>>);
fn device_value(port: u8, n: usize) -> u8 {
    port.wrapping_mul(7) ^ (n as u8).wrapping_mul(31) ^ 0x5a
}
impl Io for Rec {
    fn read(&mut self, a: u8) -> u8 {
        let mut v = self.0.borrow_mut();
        let x = device_value(a, v.len());
        v.push(Ev::R(a, x));
        x
    }
    fn write(&mut self, a: u8, x: u8) {
        self.0.borrow_mut().push(Ev::W(a, x));
    }
}

fn pattern(a: u32) -> u8 {
    (a.wrapping_mul(0x9e37_79b1) >> 23) as u8 | 1
}

fn c10(r: &Report) {
    let depth = if r.thorough { 4 } else { 3 };
    r.bound(format!("all sequences of {depth} reads/writes over 15 boundary addresses x 2 values, from 4 ROM contents, all boundary addresses read afterwards; a full write-then-read sweep of all 2^24 addresses; every ROM length 0..=ROM size at its borders; every port x every load/store/stack/physical access form through the processor"));
    r.assume("the device is the Io implementation of the memory; physical addresses are at most ffffff");
    let addrs: [u32; 15] = [
        0, 1, 0x7f, 0x80, 0x81, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_ffff, 0x2_0000, 0x7f_8000, 0xfe_ffff, 0xff_0000, 0xff_ffff,
    ];
    let roms: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0xa1, 0xa2]), Some((0..ROM_SIZE).map(|i| pattern(i as u32)).collect())];
    // operations: address index x (read, write v1, write v2)
    let ops: Vec<(usize, Option<u8>)> = (0..addrs.len()).flat_map(|a| [(a, None), (a, Some(0x5a)), (a, Some(0xc3))]).collect();
    let jobs: Vec<(usize, usize)> = (0..roms.len()).flat_map(|i| (0..ops.len()).map(move |o| (i, o))).collect();
    let rom_at = |rom: &Option<Vec<u8>>, a: u32| rom.as_ref().and_then(|v| v.get((a - 0x80) as usize).copied()).unwrap_or(0);
    par(r, &jobs, |&(ri, first)| {
        let rom = &roms[ri];
        let rec = Rec::default();
        // the memory is boxed: it is cloned per node
        let mk = || {
            let m = LazyMain::new(rec.clone());
            Box::new(match rom {
                Some(v) => m.with_rom(v),
                None => m,
            })
        };
        fn apply(m: &mut LazyMain<Rec>, model: &mut Vec<(u32, u8)>, rec: &Rec, a: u32, op: Option<u8>, rom: u8) -> Result<(), String> {
            let before = rec.0.borrow().len();
            match op {
                None => {
                    let got = m.read(a);
                    let want = if a < 0x80 {
                        device_value(a as u8, before)
                    } else if a < 0x8000 {
                        rom
                    } else {
                        model.iter().rev().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)
                    };
                    if got != want {
                        return Err(format!("read of {a:06x} gives {got:02x}, expected {want:02x}"));
                    }
                }
                Some(v) => {
                    m.write(a, v);
                    if a >= 0x8000 {
                        model.push((a, v));
                    }
                }
            }
            let evs = rec.0.borrow()[before..].to_vec();
            let want: Vec<Ev> = if a >= 0x80 {
                vec![]
            } else {
                vec![match op {
                    None => Ev::R(a as u8, device_value(a as u8, before)),
                    Some(v) => Ev::W(a as u8, v),
                }]
            };
            if evs != want {
                return Err(format!("access to {a:06x} ({op:x?}) reached the device as {evs:x?}, expected {want:x?}"));
            }
            Ok(())
        }
        let mut stack: Vec<usize> = vec![first];
        let mut mems: Vec<(Box<LazyMain<Rec>>, Vec<(u32, u8)>)> = vec![(mk(), vec![])];
        let (mut seen, mut steps, mut paths) = (0, 0, 0);
        loop {
            let (m, model) = mems.last().unwrap();
            let (mut m, mut model) = (m.clone(), model.clone());
            let (a, op) = ops[*stack.last().unwrap()];
            steps += 1;
            if let Err(e) = apply(&mut m, &mut model, &rec, addrs[a], op, if (0x80..0x8000).contains(&addrs[a]) { rom_at(rom, addrs[a]) } else { 0 }) {
                r.violation(e, format!("rom {ri}, operations {:x?}", stack.iter().map(|&i| (addrs[ops[i].0], ops[i].1)).collect::<Vec<_>>()));
                return;
            }
            let mut h = ri as u64;
            let mut sorted: BTreeMap<u32, u8> = BTreeMap::new();
            for &(a, v) in &model {
                sorted.insert(a, v);
            }
            for (a, v) in &sorted {
                h = mix(h, (*a as u64) << 8 | *v as u64);
            }
            seen += visit(h) as u64;
            if stack.len() < depth {
                mems.push((m, model));
                stack.push(0);
                continue;
            }
            // leaf: read everything
            for &a in &addrs {
                steps += 1;
                if let Err(e) = apply(&mut m, &mut model, &rec, a, None, if (0x80..0x8000).contains(&a) { rom_at(rom, a) } else { 0 }) {
                    r.violation(e, format!("rom {ri}, after operations {:x?}", stack.iter().map(|&i| (addrs[ops[i].0], ops[i].1)).collect::<Vec<_>>()));
                    return;
                }
            }
            paths += 1;
            rec.0.borrow_mut().clear();
            loop {
                let last = stack.pop().unwrap();
                if stack.is_empty() {
                    r.add(seen, steps, paths);
                    return;
                }
                if last + 1 < ops.len() {
                    stack.push(last + 1);
                    break;
                }
                mems.pop();
            }
            if r.stopped() {
                return;
            }
        }
    });
    // every address
    let rec = Rec::default();
    let mut m = Box::new(LazyMain::new(rec.clone()).with_rom(&[1, 2, 3]));
    let mut bad = None;
    for a in 0x8000..1u32 << 24 {
        if a % 0x8421 == 0 || a < 0x20000 {
            let v = m.read(a);
            if v != 0 {
                bad = Some((a, v, 0));
            }
        }
    }
    for a in 0x80..1u32 << 24 {
        m.write(a, pattern(a));
    }
    for a in 0x80..1u32 << 24 {
        if a == 0x200 {
            // reading the ROM is slow: only its borders
        }
        if (0x200..0x7f00).contains(&a) && a % 16 != 0 {
            continue;
        }
        let v = m.read(a);
        let want = if a < 0x8000 { if a < 0x83 { (a - 0x7f) as u8 } else { 0 } } else { pattern(a) };
        if v != want {
            bad = Some((a, v, want));
            break;
        }
    }
    if let Some((a, v, w)) = bad {
        r.violation("memory sweep", format!("{a:06x} reads {v:02x}, expected {w:02x}"));
    }
    if !rec.0.borrow().is_empty() {
        r.violation("an access outside of the I/O page reached the device", format!("{:x?}", &rec.0.borrow()[..4.min(rec.0.borrow().len())]));
    }
    r.add(1 << 24, 2 << 24, 1);
    // every ROM length
    let lens: Vec<usize> = (0..=ROM_SIZE).collect();
    let img: Vec<u8> = (0..ROM_SIZE).map(|i| pattern(i as u32)).collect();
    par(r, &lens, |&l| {
        let res = guard(|| {
            let mut m = LazyMain::new(Rec::default()).with_rom(&img[..l]);
            let full = l % 4096 < 2 || l + 2 > ROM_SIZE;
            let mut probe: Vec<usize> = vec![0, 1, l / 2, l.saturating_sub(2), l.saturating_sub(1), l, l + 1, ROM_SIZE - 1];
            if full {
                probe = (0..ROM_SIZE).collect();
            }
            for i in probe {
                if i < ROM_SIZE {
                    let want = if i < l { img[i] } else { 0 };
                    let got = m.read(0x80 + i as u32);
                    if got != want {
                        return Some(format!("ROM image of {l} bytes: address {:04x} reads {got:02x}, expected {want:02x}", 0x80 + i));
                    }
                }
            }
            if m.read(0x8000) != 0 {
                return Some(format!("ROM image of {l} bytes spills to 8000"));
            }
            None
        });
        match res {
            Ok(None) => r.add(1, 8, 1),
            Ok(Some(e)) => r.violation(e, ""),
            Err(p) => r.violation(format!("panic: {p}"), format!("ROM image of {l} bytes")),
        }
    });
    // the processor's accesses to ports
    let ports: Vec<u16> = (0..0x81).chain([0xffff]).collect();
    par(r, &ports, |&p| {
        struct Ram {
            ev: Rc<RefCell<Vec<Ev>>>,
        }
        impl Base for Ram {
            fn get(&self, a: u32) -> u8 {
                if a < 0x80 {
                    let n = self.ev.borrow().len();
                    let x = device_value(a as u8, n);
                    self.ev.borrow_mut().push(Ev::R(a as u8, x));
                    x
                } else {
                    0
                }
            }
        }
        let code = |op: u8| -> Vec<u8> {
            match op {
                0x13 => vec![op, 0x02, 0x70],
                0x14 => vec![op, 0x70, 0x20],
                0x21 | 0x22 => vec![op, 0x30],
                0x23 | 0x24 => vec![op, 0x40],
                0x27 | 0x28 => vec![op, 0x25, 0, 0],
                0x29 | 0x2a => vec![op, 0x20, 0x50],
                0x2b | 0x2c => vec![op, 0x42, 0, 0],
                _ => vec![op, 0x42, 0x00],
            }
        };
        for op in [0x13u8, 0x14, 0x21, 0x22, 0x23, 0x24, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e] {
            let rec = Rec::default();
            let mut m = Box::new(LazyMain::new(rec.clone()));
            let c = code(op);
            for (i, b) in c.iter().enumerate() {
                m.write(0x9000 + i as u32, *b);
            }
            let mut s = RState { pc: 0x9000, ..Default::default() };
            for i in 1..16 {
                s.w[i] = 0x1111 * i as u16;
            }
            s.w[2] = p;
            s.w[RS] = match op {
                0x21 => p.wrapping_add(1),
                0x22 => p.wrapping_add(2),
                _ => p,
            };
            s.w[RH] = 0;
            // reference over the code bytes
            struct Code<'a>(&'a [u8], Ram);
            impl Base for Code<'_> {
                fn get(&self, a: u32) -> u8 {
                    if (0x9000..0x9000 + self.0.len() as u32).contains(&a) {
                        self.0[a as usize - 0x9000]
                    } else {
                        self.1.get(a)
                    }
                }
            }
            let ev = Rc::new(RefCell::new(Vec::new()));
            let base = Code(&c, Ram { ev: ev.clone() });
            let e = expect(&s, &base, false);
            let want_reads = ev.borrow().clone();
            let mut cpu = Blf4::new();
            put(&mut cpu, &s);
            let res = guard(|| cpu.execute_instruction(&mut *m));
            let got = rec.0.borrow().clone();
            let mut want = want_reads;
            for &(a, v) in &e.alts[0].writes {
                if a < 0x80 {
                    want.push(Ev::W(a as u8, v));
                }
            }
            let n = get(&cpu);
            match res {
                Ok(Ok(())) if got == want && n == e.alts[0].s => (),
                x => {
                    r.violation("device accesses of an instruction", format!("{c:02x?} at port {p:x}: device saw {got:x?}, expected {want:x?}; {x:x?}\nreal {}\nwant {}", n.show(), e.alts[0].s.show()));
                    return;
                }
            }
            r.add(1, 1, 1);
        }
    });
    r.sample("write 7fff (ROM, ignored), write 8000, read 7fff -> 0");
    r.sample("wide load at 7f: device read of port 7f once, then ROM byte 80");
}

// ---------------------------------------------------------------- loader

const TYPES: [(SegmentType, u8); 6] = [
    (SegmentType::Zero, 0xe),
    (SegmentType::Data, 6),
    (SegmentType::RoData, 2),
    (SegmentType::Text, 8),
    (SegmentType::Heap, 6),
    (SegmentType::Unknown, 0xe),
];
fn obj(segs: &[(SegmentType, u16, usize)], heap: Option<u16>, stack: Option<u16>, flags: Option<bool>, entry: u16) -> Object {
    let mut o = Object { entry: Some(Entry(SegmentType::Text, entry)), ..Default::default() };
    o.heap_size = heap.map(HeapSize);
    o.stack_size = stack.map(StackSize);
    o.flags = flags.map(|readable_text| Flags { readable_text });
    for &(t, off, len) in segs {
        o.segs.insert(t, (off, (0..len).map(|i| pattern((off as u32 + i as u32) * 3 + t as u32)).collect()));
    }
    o
}
fn describe(o: &Object) -> String {
    format!(
        "entry {:?} flags {:?} stack {:?} heap {:?} segments {:x?}",
        o.entry.map(|e| e.1),
        o.flags.map(|f| f.readable_text),
        o.stack_size.map(|s| s.0),
        o.heap_size.map(|s| s.0),
        o.segs.iter().map(|(t, (o, b))| (*t, *o, b.len())).collect::<Vec<_>>()
    )
}

/// Expected image: permissions and bytes per page
fn image(o: &Object) -> (BTreeMap<u32, u8>, BTreeSet<u32>, HashMap<u32, u8>) {
    let mut pages: BTreeMap<u32, u8> = BTreeMap::new();
    // pages of segments without bytes: nothing is promised about them
    let mut maybe = BTreeSet::new();
    let mut bytes = HashMap::new();
    let mut cover = |from: u32, to: u32, perm: u8| {
        let mut p = from / 128;
        while p * 128 < to.min(0x10000) {
            *pages.entry(p).or_insert(0) |= perm;
            p += 1;
        }
    };
    let readable = o.flags.map(|f| f.readable_text).unwrap_or(false);
    for (t, (off, b)) in &o.segs {
        let mut perm = TYPES.iter().find(|x| x.0 == *t).unwrap().1;
        if *t == SegmentType::Text && readable {
            perm |= 2;
        }
        let (off, len) = (*off as u32, b.len() as u32);
        if len > 0 {
            cover(off, off + len, perm);
        } else {
            maybe.insert(off / 128);
        }
        if *t == SegmentType::Heap {
            let size = o.heap_size.map(|h| h.0).unwrap_or(0x400) as u32;
            if size > 0 {
                cover(off, off + size.max(len), 6);
            }
        }
        for (i, v) in b.iter().enumerate() {
            bytes.insert(off + i as u32, *v);
        }
    }
    let stack = o.stack_size.map(|h| h.0).unwrap_or(0x180) as u32;
    cover(0x10000 - stack, 0x10000, 6);
    (pages, maybe, bytes)
}

struct NoIo;
impl Io for NoIo {
    fn read(&mut self, _: u8) -> u8 {
        0
    }
    fn write(&mut self, _: u8, _: u8) {}
}

fn check_image<P: Io>(m: &mut Machine<LazyMain<P>, Blf4>, o: &Object, probe: bool) -> Result<u64, String> {
    let s = get(&m.cpu);
    if s.fl & (U | V) != U | V {
        return Err(format!("execution does not start in user mode with virtual memory: {}", s.show()));
    }
    if s.pc != o.entry.unwrap().1 || s.w[RS] != 0xffff || s.w[RF] != 0xffff {
        return Err(format!("start state: {}", s.show()));
    }
    let (pages, maybe, bytes) = image(o);
    let mut phys = BTreeMap::new();
    let rp = s.w[RP] as u32;
    let e = |m: &mut LazyMain<P>, a: u32| u32::from_le_bytes([m.read(a), m.read(a + 1), m.read(a + 2), m.read(a + 3)]);
    if rp % 128 != 0 {
        return Err(format!("table at {rp:x}"));
    }
    phys.insert(rp, "level 1 table".to_string());
    let mut n = 0;
    for v1 in 0..16u32 {
        let e1 = e(&mut m.memory, rp + 4 * v1);
        let t2 = (e1 >> 15) << 7;
        if e1 & 1 != 0 {
            if let Some(x) = phys.insert(t2, format!("level 2 table {v1}")) {
                return Err(format!("level 2 table {v1} shares physical page {t2:06x} with {x}"));
            }
        }
        for v2 in 0..32u32 {
            let vp = v1 * 32 + v2;
            let e2 = if e1 & 1 != 0 { e(&mut m.memory, t2 + 4 * v2) } else { 0 };
            let present = e1 & e2 & 1 != 0;
            n += 1;
            match pages.get(&vp) {
                None if maybe.contains(&vp) => {
                    if present {
                        phys.insert((e2 >> 15) << 7, "page of an empty segment".into());
                    }
                    continue;
                }
                None => {
                    if present {
                        return Err(format!("page {:04x} is mapped (entry {e2:08x}) although nothing is there", vp * 128));
                    }
                }
                Some(&perm) => {
                    if !present {
                        return Err(format!("page {:04x} is not mapped", vp * 128));
                    }
                    let both = e1 & e2;
                    let may = maybe.contains(&vp);
                    if both & 0x20 == 0 || (both as u8 & 0xe != perm && !(may && both as u8 & 0xe & perm == perm)) {
                        return Err(format!("page {:04x} has permissions {:02x} (entries {e1:08x} {e2:08x}), expected {perm:02x} and user", vp * 128, both & 0x2e));
                    }
                    let pa = (e2 >> 15) << 7;
                    if let Some(x) = phys.insert(pa, format!("page {:04x}", vp * 128)) {
                        return Err(format!("page {:04x} shares physical page {pa:06x} with {x}", vp * 128));
                    }
                    for i in 0..128 {
                        let got = m.memory.read(pa + i);
                        let want = bytes.get(&(vp * 128 + i)).copied().unwrap_or(0);
                        if got != want {
                            return Err(format!("address {:04x} holds {got:02x}, expected {want:02x}", vp * 128 + i));
                        }
                    }
                }
            }
        }
    }
    if probe {
        // through the processor: loads, stores and fetches at the first and last byte of every page,
        // from a scratch state; the code lies in an executable page that is extended for it
        let mut cpu = m.cpu.clone();
        for vp in 0..512u32 {
            if maybe.contains(&vp) {
                continue;
            }
            let perm = pages.get(&vp).copied().unwrap_or(0);
            for off in [0u32, 127] {
                let va = (vp * 128 + off) as u16;
                let mut ctx = cpu.context(&mut m.memory);
                let rd = ctx.read(va).map_err(cause);
                let want = bytes.get(&(va as u32)).copied().unwrap_or(0);
                if (perm & 2 != 0 && rd != Ok(want)) || (perm & 2 == 0 && rd.is_ok()) {
                    return Err(format!("the program reads {rd:x?} at {va:04x}, page permissions {perm:x}, byte {want:02x}"));
                }
                let wt = ctx.write(va, want).map_err(cause);
                if wt.is_ok() != (perm & 4 != 0) {
                    return Err(format!("the program's write at {va:04x}: {wt:x?}, page permissions {perm:x}"));
                }
                ctx.cpu.program_counter = va;
                let ex = ctx.fetch().map_err(cause);
                if ex.is_ok() != (perm & 8 != 0) {
                    return Err(format!("the program's fetch at {va:04x}: {ex:x?}, page permissions {perm:x}"));
                }
                n += 3;
            }
        }
    }
    Ok(n)
}

fn overlap(o: &Object) -> bool {
    let v: Vec<(u32, u32)> = o.segs.values().map(|(a, b)| (*a as u32, *a as u32 + b.len() as u32)).collect();
    v.iter().any(|x| x.1 > 0x10000) || (0..v.len()).any(|i| (0..i).any(|j| v[i].0 < v[j].1 && v[j].0 < v[i].1))
}

fn c12(r: &Report) {
    r.bound("single segments: 6 types x 10 offsets x 8 lengths x 8 heap sizes x 8 stack sizes x 3 flag settings; pairs: all type pairs x 6 offsets x 5 lengths each; triples: all type triples x 4 offsets x 3 lengths each; 9 fillings (zeroes, equal pages, ...) of single segments of up to 0xb000 bytes and of all type pairs; all objects also loaded into a machine that ran another program with dirty memory; every page's entries, every mapped byte, and (subset) loads/stores/fetches of the processor at every page's first and last byte");
    r.assume("segments do not overlap and lie in the address space; nothing is promised about the page of a segment without bytes");
    r.assume("the processor's own translation is decided by C08; the image is read through an independent table walk");
    let offs = [0u16, 0x40, 0x80, 0xff, 0x100, 0xfc0, 0x1000, 0x8001, 0xfe7f, 0xff81];
    let lens = [0usize, 1, 2, 127, 128, 129, 300, 0x1100];
    let sizes = [None, Some(0u16), Some(1), Some(0x7f), Some(0x80), Some(0x81), Some(0x1234), Some(0xffff)];
    let mut objs: Vec<Object> = Vec::new();
    let mut push = |o: Object| {
        if !overlap(&o) {
            objs.push(o)
        }
    };
    for (t, _) in TYPES {
        for off in offs {
            for len in lens {
                for heap in sizes {
                    if t != SegmentType::Heap && heap.is_some() && heap != Some(0x81) {
                        continue;
                    }
                    for stack in sizes {
                        for fl in [None, Some(false), Some(true)] {
                            if t != SegmentType::Text && fl.is_some() {
                                continue;
                            }
                            push(obj(&[(t, off, len)], heap, stack, fl, off));
                        }
                    }
                }
            }
        }
    }
    let offs2 = [0x10u16, 0x80, 0xf0, 0x100, 0x1000, 0xff00];
    let lens2 = [0usize, 1, 16, 128, 200];
    for a in 0..6 {
        for b in 0..a {
            for x in offs2 {
                for y in offs2 {
                    for l in lens2 {
                        for k in lens2 {
                            push(obj(&[(TYPES[a].0, x, l), (TYPES[b].0, y, k)], Some(0x81), None, Some(false), x));
                        }
                    }
                }
            }
        }
    }
    let offs3 = [0x80u16, 0x90, 0xc0, 0x110];
    let lens3 = [1usize, 16, 150];
    for a in 0..6 {
        for b in 0..a {
            for c in 0..b {
                for x in offs3 {
                    for y in offs3 {
                        for z in offs3 {
                            for l in lens3 {
                                for k in lens3 {
                                    for j in lens3 {
                                        push(obj(&[(TYPES[a].0, x, l), (TYPES[b].0, y, k), (TYPES[c].0, z, j)], None, Some(0x10), Some(true), z));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // what the bytes are must not matter
    let fills: [(&str, fn(usize, usize) -> u8); 9] = [
        ("zeroes", |_, _| 0),
        ("ff", |_, _| 0xff),
        ("one value", |_, _| 0x41),
        ("zeroes and a last byte", |i, n| (i + 1 == n) as u8),
        ("a first byte and zeroes", |i, _| (i == 0) as u8),
        ("a zero page every other page", |i, _| if i / 128 % 2 == 0 { 0 } else { 9 }),
        ("equal pages", |i, _| i as u8 & 0x7f),
        ("zeroes in the middle", |i, n| if i < n / 3 || i >= n - n / 3 { 0x77 } else { 0 }),
        ("ones as little-endian numbers", |i, _| (i % 4 == 0) as u8),
    ];
    for (t, _) in TYPES {
        for off in offs {
            for len in lens.into_iter().chain([0x2f00, 0x7f80, 0x8000, 0xb000]) {
                if off as usize + len > 0x10000 {
                    continue;
                }
                for (_, fill) in fills {
                    let mut o = obj(&[(t, off, 0)], Some(0x81), None, Some(false), off);
                    o.segs.get_mut(&t).unwrap().1 = (0..len).map(|i| fill(i, len)).collect();
                    push(o);
                }
            }
        }
    }
    for a in 0..6 {
        for b in 0..a {
            for (_, f) in fills {
                for (_, g) in fills {
                    let mut o = obj(&[(TYPES[a].0, 0x100, 0), (TYPES[b].0, 0x310, 0)], None, None, Some(true), 0x100);
                    o.segs.get_mut(&TYPES[a].0).unwrap().1 = (0..0x210).map(|i| f(i, 0x210)).collect();
                    o.segs.get_mut(&TYPES[b].0).unwrap().1 = (0..300).map(|i| g(i, 300)).collect();
                    push(o);
                }
            }
        }
    }
    // everything at once, next to each other, in both orders
    for rev in [false, true] {
        for step in [16u16, 100, 128, 130, 0x1000] {
            let mut v: Vec<(SegmentType, u16, usize)> = TYPES.iter().enumerate().map(|(i, t)| (t.0, 0x80 + step * i as u16, step.min(200) as usize)).collect();
            if rev {
                let o: Vec<u16> = v.iter().map(|x| x.1).rev().collect();
                v.iter_mut().zip(o).for_each(|(x, o)| x.1 = o);
            }
            for heap in sizes {
                for stack in sizes {
                    push(obj(&v, heap, stack, Some(rev), 0x80));
                }
            }
        }
    }
    r.count("objects", objs.len() as u64);
    // a program that leaves memory and registers dirty
    let dirty = || {
        let mut m = Box::new(Machine::new(LazyMain::new(NoIo), Blf4::new()));
        for a in 0x8000..0x1_2000u32 {
            m.memory.write(a, 0xbd);
        }
        m.cpu.stack = 0x1234;
        m.cpu.program_counter = 0x4321;
        m
    };
    let idx: Vec<usize> = (0..objs.len()).collect();
    par(r, &idx, |&i| {
        let o = &objs[i];
        for reused in [false, true] {
            let res = guard(|| {
                let mut m = if reused { dirty() } else { Box::new(Machine::new(LazyMain::new(NoIo), Blf4::new())) };
                if reused {
                    // a previous program, run to its end
                    let mut p = Object { entry: Some(Entry(SegmentType::Text, 0x80)), ..Default::default() };
                    p.segs.insert(SegmentType::Text, (0x80, vec![0x40, 0x10, 0xff, 0xff, 0x22, 0x10, 0x22, 0x10, 0x0a]));
                    p.segs.insert(SegmentType::Data, (0x300, vec![0xee; 700]));
                    m.load_user_binary(&p);
                    m.run_until_abort();
                }
                m.load_user_binary(o);
                check_image(&mut m, o, i % 7 == 0 || o.segs.len() > 3)
            });
            match res {
                Ok(Ok(n)) => r.add(visit(mix(hash_bytes(describe(o).as_bytes()), reused as u64)) as u64, n, 1),
                Ok(Err(e)) => r.violation(e, format!("{} ({})", describe(o), if reused { "reused machine" } else { "fresh machine" })),
                Err(p) => r.violation(format!("loading panics: {p}"), describe(o)),
            }
        }
    });
    r.sample("text at 0xc0 (16 bytes) and data at 0x90 share page 0x80: permissions xwr");
    r.sample("heap at ff81, heap size ffff: pages ff80..ffff read-write, no panic");
}

// ---------------------------------------------------------------- emulated kernel

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// standard output of this process goes nowhere while this lives
struct Mute(i32);
impl Mute {
    fn new() -> Self {
        Self::into(&std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap())
    }
    fn into(f: &std::fs::File) -> Self {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        let _ = std::io::stdout().flush();
        unsafe {
            let keep = dup(1);
            dup2(f.as_raw_fd(), 1);
            Mute(keep)
        }
    }
}
impl Drop for Mute {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
            close(self.0);
        }
    }
}

/// Memory for the reference: a copy of the physical memory that the program can reach
struct Flat(Vec<u8>);
impl Base for Flat {
    fn get(&self, a: u32) -> u8 {
        self.0.get(a as usize).copied().unwrap_or(0)
    }
}

fn le(v: u16) -> [u8; 2] {
    v.to_le_bytes()
}
fn ldi(reg: u8, v: u16) -> Vec<u8> {
    vec![0x40, reg << 4, le(v)[0], le(v)[1]]
}

fn c13(r: &Report) {
    let depth = if r.thorough { 5 } else { 4 };
    let syscall = |n: u16, r2: u16| {
        let mut v = ldi(1, n);
        v.extend(ldi(2, r2));
        v.push(0x0c);
        v
    };
    // 0xh... addresses: handler A at 0x1000 (emits r1 and continues), handler B at 0x1080 (halts)
    let snippets: Vec<(&str, Vec<u8>)> = vec![
        ("read", syscall(3, 0x77aa)),
        ("write", syscall(4, 0x4142)),
        ("set handler A", syscall(15, 0x1000)),
        ("set handler B", syscall(15, 0x1080)),
        ("set handler 0", syscall(15, 0)),
        ("show map", syscall(0, 0)),
        ("unknown syscall 1", syscall(1, 0)),
        ("unknown syscall 104 hex", syscall(0x104, 0x43)),
        ("divide by zero", vec![0x52, 0x34, 0x50]),
        ("load from missing page", vec![0x2b, 0x10, 0x00, 0x60]),
        ("store to text", vec![0x27, 0x00, 0x80, 0x00]),
        ("invalid", vec![0x15]),
        ("privileged", vec![0x10]),
        ("jump to data", vec![0x40, 0x01, 0x00, 0x20]),
        ("rp", vec![0x22, 0xe0]),
        ("reth", vec![0x0d]),
        ("halt", vec![0x0a]),
        ("syscall without setup", vec![0x0c]),
    ];
    r.bound(format!("all sequences of {depth} snippets from {} (every syscall, unknown ones, every trap cause, halt) with handlers that continue or stop; every step compared; plus syscalls with 17 register values each, and the printed memory map of 4 programs and of {} pairs of tables with every pair of permissions", snippets.len(), if r.thorough { 4096 } else { 1024 }));
    r.assume("standard user program (read-only text at 80, handlers at 1000, data at 2000); syscall 0 output goes to the emulator's standard output");
    let n = snippets.len();
    let total = n.pow(depth as u32);
    let mute = Mute::new();
    let mut handler_a = vec![0x42, 0x30, 0x00]; // add r3, r0, r0 placeholder: keeps flags changing
    handler_a[1] = 0x31; // r3 = r1 + r0
    handler_a.extend(ldi(1, 4));
    handler_a.extend([0x42, 0x23, 0x00]); // r2 = r3
    handler_a.push(0x0c);
    handler_a.extend([0x26, 0x00]); // ret 0 -> next snippet
    let run_seq = |seq: &[usize], init: Option<(u16, u16, u16)>| -> Result<(u64, u64), String> {
        let mut text = vec![];
        let mut at = 0x80u16;
        if let Some((a, b, c)) = init {
            text.extend(ldi(1, a));
            text.extend(ldi(2, b));
            text.extend(ldi(5, c));
        }
        at += text.len() as u16;
        for &i in seq {
            // beyond the snippets: write that byte
            let w = syscall(4, i.wrapping_sub(1000) as u16);
            let s = snippets.get(i).map(|s| &s.1).unwrap_or(&w);
            let next = at + 4 + s.len() as u16;
            text.extend(ldi(12, next));
            text.extend(s);
            at = next;
        }
        text.push(0x0a);
        text.resize(0x1000 - 0x80, 0x20);
        text.extend(&handler_a);
        text.resize(0x1080 - 0x80, 0x20);
        text.push(0x0a);
        let mut o = Object { entry: Some(Entry(SegmentType::Text, 0x80)), ..Default::default() };
        o.segs.insert(SegmentType::Text, (0x80, text));
        o.segs.insert(SegmentType::Data, (0x2000, vec![1, 2, 3, 4]));
        let rec = Rec::default();
        let mut m = Box::new(Machine::new(LazyMain::new(rec.clone()), Blf4::new()));
        m.cpu.link = 0x80;
        m.cpu.trap_handler = 0;
        m.load_user_binary(&o);
        let mut s = get(&m.cpu);
        // the reference memory
        let mut flat = Flat((0..0x1_2000u32).map(|a| if a < 0x8000 { 0 } else { m.memory.read(a) }).collect());
        let (mut handler, mut steps, mut seen) = (0u16, 0, 0);
        loop {
            if steps > 400 + 6 * seq.len() as u64 {
                break;
            }
            steps += 1;
            // reference
            let before = rec.0.borrow().len();
            let mut want_io = vec![];
            let e = expect(&s, &flat, true);
            let mut acc: Vec<(RState, Result<(), u8>, Writes)> = vec![];
            for a in &e.alts {
                let mut t = a.s;
                let mut res = a.res;
                match a.res {
                    Ok(()) => (),
                    Err(HALT) => (),
                    Err(SYSCALL) => {
                        match t.w[1] {
                            0 => res = Ok(()),
                            3 => {
                                let v = device_value(1, before);
                                want_io = vec![Ev::R(1, v)];
                                t.wb(1, v);
                                res = Ok(());
                            }
                            4 => {
                                want_io = vec![Ev::W(1, t.w[2] as u8)];
                                res = Ok(());
                            }
                            15 => {
                                handler = t.w[2];
                                res = Ok(());
                            }
                            _ => (),
                        }
                        if res.is_ok() {
                            t.fl = t.fl & !T | U;
                        }
                    }
                    Err(c) => {
                        if handler != 0 {
                            t.w[1] = c as u16;
                            t.pc = handler;
                            t.fl = t.fl & !T | U;
                            res = Ok(());
                        }
                    }
                }
                acc.push((t, res, a.writes.clone()));
            }
            let res = guard(|| m.execute_once()).map_err(|p| format!("panic: {p}"))?.map_err(cause);
            let got = get(&m.cpu);
            let io = rec.0.borrow()[before..].to_vec();
            let case = || {
                format!(
                    "step {steps} of {:?} (registers {init:x?})\nbefore {}\nreal   {} {res:x?} device {io:x?}\nwant   {} {:x?} device {want_io:x?}",
                    seq.iter().rev().take(8).rev().map(|&i| snippets.get(i).map(|s| s.0).unwrap_or("write any")).collect::<Vec<_>>(),
                    s.show(),
                    got.show(),
                    acc[0].0.show(),
                    acc[0].1
                )
            };
            // a trap that ends the run: the registers afterwards are the processor's business (C06)
            let hit = acc.iter().find(|(t, e, _)| *e == res && (res.is_err() || *t == got));
            let Some((t, _, w)) = hit else { return Err(case()) };
            if io != want_io {
                return Err(case());
            }
            for &(a, v) in w {
                if let Some(p) = flat.0.get_mut(a as usize) {
                    *p = v;
                }
            }
            s = *t;
            seen += visit(mix(mix(s.pc as u64, s.fl as u64 | (handler as u64) << 16), s.w[1] as u64 | (s.w[2] as u64) << 16 | (s.w[3] as u64) << 32)) as u64;
            if res.is_err() {
                break;
            }
        }
        // memory at the end
        for a in 0x8000..0x9000u32 {
            let v = m.memory.read(a);
            // dirty marking belongs to C09
            if v != flat.0[a as usize] && v ^ flat.0[a as usize] != 0x10 {
                return Err(format!("physical byte {a:06x} is {v:02x}, expected {:02x}, after {:?}", flat.0[a as usize], seq));
            }
        }
        Ok((seen, steps))
    };
    let jobs: Vec<usize> = (0..total).collect();
    par(r, &jobs, |&j| {
        let mut x = j;
        let seq: Vec<usize> = (0..depth)
            .map(|_| {
                let i = x % n;
                x /= n;
                i
            })
            .collect();
        // nothing follows a halt
        if seq[..depth - 1].contains(&16) && seq[depth - 1] != 16 {
            return;
        }
        match run_seq(&seq, None) {
            Ok((s, t)) => r.add(s, t, 1),
            Err(e) => r.violation("emulated kernel", e),
        }
    });
    // register values around syscalls
    let vals = [0u16, 1, 2, 3, 4, 5, 14, 15, 16, 0x41, 0xff, 0x100, 0x103, 0x104, 0x10f, 0x8000, 0xffff];
    let mut jobs = vec![];
    for a in vals {
        for b in vals {
            jobs.push((a, b));
        }
    }
    par(r, &jobs, |&(a, b)| {
        for c in [0u16, 0xffff] {
            match run_seq(&[17, 17, 17, 8], Some((a, b, c))) {
                Ok((s, t)) => r.add(s, t, 1),
                Err(e) => r.violation("emulated kernel", e),
            }
        }
    });
    // long runs: one snippet until the text is nearly full, then any other one, or any byte written
    let mut jobs: Vec<(Option<usize>, usize, usize)> = vec![];
    for i in (0..n).filter(|i| *i != 16) {
        for first in [None, Some(2), Some(3)] {
            for j in (0..n).chain(if i < 3 && first.is_none() { 1000..1256 } else { 0..0 }) {
                jobs.push((first, i, j));
            }
        }
    }
    r.bound("long runs: each snippet repeated up to 550 times (as often as the text holds), without and with a handler set before, followed by each snippet; after long runs of reads and writes every byte written");
    par(r, &jobs, |&(first, i, j)| {
        // (handler_a continues behind the snippet, handler B halts)
        let k = 3880 / (4 + snippets[i].1.len());
        let mut seq: Vec<usize> = first.into_iter().collect();
        seq.extend(std::iter::repeat(i).take(k));
        seq.push(j);
        match run_seq(&seq, None) {
            Ok((s, t)) => r.add(s, t, 1),
            Err(e) => r.violation("emulated kernel, long run", e),
        }
    });
    drop(mute);
    // the printed memory map
    let scratch = mc::proc::Scratch::new("c13");
    let mut maps: Vec<Object> = vec![];
    let prog = {
        let mut v = syscall(0, 0);
        v.push(0x0a);
        v
    };
    for k in 0..4usize {
        let mut o = Object { entry: Some(Entry(SegmentType::Text, 0x80)), ..Default::default() };
        o.segs.insert(SegmentType::Text, (0x80, prog.clone()));
        if k > 0 {
            o.segs.insert(SegmentType::RoData, (0xa0, vec![1; 300]));
            o.flags = Some(Flags { readable_text: k == 2 });
        }
        if k > 1 {
            o.segs.insert(SegmentType::Data, (0x1ff0, vec![1; 100]));
            o.segs.insert(SegmentType::Heap, (0x3000, vec![]));
        }
        if k > 2 {
            o.segs.insert(SegmentType::Unknown, (0x8000, vec![2; 10]));
        }
        maps.push(o);
    }
    for (k, o) in maps.iter().enumerate() {
        let f = scratch.path(format!("m{k}"));
        o.write_to_file(&f).unwrap();
        let out = mc::proc::run(std::process::Command::new(mc::proc::tool("t")).arg(&f), b"", 20);
        let mut m = Box::new(Machine::new(LazyMain::new(NoIo), Blf4::new()));
        m.load_user_binary(o);
        let (pages, maybe, _) = image(o);
        let mut want = BTreeMap::new();
        let s = get(&m.cpu);
        let mut e = |a: u32| u32::from_le_bytes([m.memory.read(a), m.memory.read(a + 1), m.memory.read(a + 2), m.memory.read(a + 3)]);
        for (&p, &perm) in &pages {
            let e1 = e(s.w[RP] as u32 + 4 * (p / 32));
            let e2 = e(((e1 >> 15) << 7) + 4 * (p % 32));
            let mut f = String::from("U");
            for (b, c) in [(8, 'X'), (4, 'W'), (2, 'R')] {
                if perm & b != 0 {
                    f.push(c);
                }
            }
            want.insert(format!("{:03x}", p * 8), (format!("{:05x}", ((e2 >> 15) << 7) >> 4), f));
        }
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut got = BTreeMap::new();
        for l in text.lines() {
            let parts: Vec<&str> = l.split(['_', ' ', '=', '>', '(', ')', '\u{1b}']).filter(|x| !x.is_empty()).collect();
            if parts.len() >= 3 {
                if maybe.contains(&(u32::from_str_radix(parts[0], 16).unwrap_or(0) / 8)) && !want.contains_key(parts[0]) {
                    continue;
                }
                let fl: String = parts[2..].concat().chars().filter(|c| c.is_ascii_uppercase()).collect();
                got.insert(parts[0].to_string(), (parts[1].to_string(), fl));
            }
        }
        if out.code != Some(0) || got != want {
            r.violation("memory map shown by syscall 0", format!("program {k}: {}\nexpected {want:?}\ngot      {got:?}\n{}", describe(o), out.text()));
        }
        r.add(1, 1, 1);
    }
    // the printed memory map of every pair of permissions, with frames from the whole physical memory
    let maps_n = if r.thorough { 4096 } else { 1024 };
    let shown = scratch.path("shown");
    let file = std::fs::OpenOptions::new().create(true).append(true).open(&shown).unwrap();
    for k in 0..maps_n as u32 {
        let (l1, dir) = (0x9000u32, 0xa000u32 + (k % 5) * 0x1000);
        let mut m = Box::new(Machine::new(LazyMain::new(NoIo), Blf4::new()));
        // installs the emulated kernel
        m.load_user_binary(&maps[0]);
        let mut w32 = |a: u32, v: u32| {
            for (i, b) in v.to_le_bytes().into_iter().enumerate() {
                m.memory.write(a + i as u32, b);
            }
        };
        let junk = |i: u32| (k.wrapping_mul(0x9e37) ^ i.wrapping_mul(0x3d)) & 0x7fd0;
        // bits of a combination: X W R and user
        let bits = |c: u32| (c & 7) << 1 | (c & 8) << 2;
        let mut want = BTreeMap::new();
        for i in 0..16u32 {
            // one table is the code's, some are absent
            let c1 = if i == 7 { 15 } else { (i + k) % 16 };
            let present1 = i == 7 || (k + i) % 11 != 3;
            let at = dir + i * 128;
            w32(l1 + 4 * i, (at >> 7) << 15 | junk(i) | bits(c1) | present1 as u32);
            for j in 0..32u32 {
                let code = i == 7 && j == 9;
                let c2 = if code { 15 } else { (j + k / 16 + i) % 16 };
                let present2 = code || (j * 7 + i + k) % 5 != 0;
                // frames: single bits, all, none, sequences
                let frame = match (j + i + k) % 4 {
                    _ if code => 0x200,
                    0 => 1 << ((k + j + i) % 17),
                    1 => 0x1ffff ^ 1 << ((k + j) % 17),
                    2 => (k * 512 + i * 32 + j) & 0x1ffff,
                    _ => (i * 32 + j).wrapping_mul(0x9e3) & 0x1ffff,
                };
                w32(at + 4 * j, frame << 15 | junk(i * 32 + j + 99) | bits(c2) | present2 as u32);
                if present1 && present2 {
                    // granted by both tables, by the second only, by the first only
                    let f: String = [(8, "U", "u"), (4, "X", "x"), (2, "W", "w"), (1, "R", "r")].iter().flat_map(|x| match (c1 & x.0 != 0, c2 & x.0 != 0) {
                        (true, true) => [x.1, ""],
                        (false, true) => [x.1, "!"],
                        (true, false) => [x.2, ""],
                        _ => ["", ""],
                    }).collect();
                    want.insert(format!("{:03x}", i * 256 + j * 8), (format!("{:05x}", frame << 3), f));
                }
            }
        }
        for (i, &b) in prog.iter().enumerate() {
            m.memory.write(0x1_0000 + i as u32, b);
        }
        let mut s = RState { pc: 0x7480, fl: V | U, ..Default::default() };
        s.w[RP] = l1 as u16;
        put(&mut m.cpu, &s);
        let before: Vec<u8> = (0x9000..0x1_0000).map(|a| m.memory.read(a)).collect();
        file.set_len(0).unwrap();
        let mute = Mute::into(&file);
        let mut res = Ok(());
        for _ in 0..3 {
            if res.is_ok() {
                res = m.execute_once();
            }
        }
        drop(mute);
        let text = std::fs::read_to_string(&shown).unwrap();
        let mut got = BTreeMap::new();
        for l in text.lines() {
            let Some((a, b)) = l.split_once("=>") else { continue };
            let Some((b, f)) = b.split_once('(') else { continue };
            let f: String = f.chars().filter(|c| !" )".contains(*c)).collect();
            got.insert(a.trim().trim_end_matches('_').to_string(), (b.trim().trim_end_matches('_').to_string(), f));
        }
        let after: Vec<u8> = (0x9000..0x1_0000).map(|a| m.memory.read(a)).collect();
        if res.is_err() || got != want || after != before || m.cpu.program_counter != 0x7480 + prog.len() as u16 - 1 {
            let diff: Vec<_> = want.iter().filter(|(a, b)| got.get(*a) != Some(b)).take(5).collect();
            let other: Vec<_> = got.iter().filter(|(a, b)| want.get(*a) != Some(b)).take(5).collect();
            r.violation("memory map shown by syscall 0", format!("tables {k}: {res:?}; expected {diff:?}, got {other:?}; {} and {} pages; tables unchanged: {}", want.len(), got.len(), before == after));
            break;
        }
        r.add(1, want.len() as u64, 1);
    }
    drop(scratch);
    r.sample("set handler A; divide by zero -> handler at 1000 with r1=8 in user mode; unknown syscall 104 -> stops with SysCall");
}

fn c14(r: &Report) {
    let depth = if r.thorough { 11 } else { 9 };
    r.bound(format!("all sequences of {depth} operations from: allocate and fill with one of 3 patterns (ff, little-endian 1, untouched), free the i-th allocated page (up to 4 held); from a zeroed and a dirty physical memory"));
    r.assume("callers free only pages they hold, at most once");
    // first two operations are split over threads
    struct St {
        held: Vec<u32>,
        freed: Vec<u32>,
        ever: BTreeSet<u32>,
    }
    #[derive(Clone, Copy)]
    enum Op {
        Alloc(u8),
        Free(usize),
    }
    fn exec(ops: &[Op], mem: &mut Mem) -> Result<u64, String> {
        let mut k = EKernel::new();
        let mut st = St { held: vec![], freed: vec![], ever: BTreeSet::new() };
        let mut h = 0;
        for op in ops {
            match *op {
                Op::Alloc(fill) => {
                    let p = k.allocate_page(mem);
                    if p % 128 != 0 {
                        return Err(format!("page at {p:06x} is not aligned"));
                    }
                    if p < 0x8000 || p + 128 > 1 << 24 {
                        return Err(format!("page at {p:06x} is not in memory"));
                    }
                    if st.held.contains(&p) {
                        return Err(format!("page {p:06x} is handed out twice"));
                    }
                    if !st.freed.is_empty() && !st.freed.contains(&p) {
                        return Err(format!("fresh page {p:06x} although {:x?} are free", st.freed));
                    }
                    st.freed.retain(|x| *x != p);
                    if let Some(i) = (0..128).find(|i| mem.d[p as usize + i] != 0) {
                        return Err(format!("page {p:06x} is not zeroed at {i}"));
                    }
                    // pages held by others are untouched: they keep their fill
                    st.held.push(p);
                    st.ever.insert(p);
                    let pat: [u8; 4] = match fill {
                        0 => [0; 4],
                        1 => [0xff; 4],
                        _ => [1, 0, 0, 0],
                    };
                    for i in 0..128 {
                        if fill != 0 {
                            mem.write(p + i, pat[i as usize % 4]);
                        }
                    }
                }
                Op::Free(i) => {
                    let p = st.held.remove(i);
                    let keep: Vec<Vec<u8>> = st.held.iter().map(|&q| mem.d[q as usize..q as usize + 128].to_vec()).collect();
                    k.free_page(p, mem);
                    for (q, v) in st.held.iter().zip(keep) {
                        if mem.d[*q as usize..*q as usize + 128] != v[..] {
                            return Err(format!("freeing {p:06x} changed the allocated page {q:06x}"));
                        }
                    }
                    st.freed.push(p);
                }
            }
            h = mix(h, st.held.iter().fold(st.freed.len() as u64, |a, &b| mix(a, b as u64)));
        }
        Ok(h)
    }
    fn show(ops: &[Op]) -> String {
        ops.iter().map(|o| match o { Op::Alloc(f) => format!("alloc(fill {f})"), Op::Free(i) => format!("free #{i}") }).collect::<Vec<_>>().join(", ")
    }
    fn dfs(ops: &mut Vec<Op>, held: usize, left: usize, mem: &mut Mem, r: &Report, seen: &mut u64, paths: &mut u64) {
        if left == 0 {
            let res = guard(|| exec(ops, mem));
            mem.undo(0);
            *paths += 1;
            match res {
                Ok(Ok(h)) => *seen += visit(h) as u64,
                Ok(Err(e)) => r.violation(e, show(ops)),
                Err(p) => r.violation(format!("panic: {p}"), show(ops)),
            }
            return;
        }
        if r.stopped() {
            return;
        }
        for f in 0..3 {
            if held < 4 {
                ops.push(Op::Alloc(f));
                dfs(ops, held + 1, left - 1, mem, r, seen, paths);
                ops.pop();
            }
        }
        for i in 0..held {
            ops.push(Op::Free(i));
            dfs(ops, held - 1, left - 1, mem, r, seen, paths);
            ops.pop();
        }
    }
    let jobs: Vec<(bool, u8, u8, u8)> = (0..54u8).map(|x| (x % 2 == 0, x / 2 % 3, x / 6 % 3, x / 18)).collect();
    par(r, &jobs, |&(dirty, a, b, c)| {
        let mut mem = Mem::new();
        if dirty {
            mem.d[0x8000..0x9000].fill(0xd5);
        }
        let (mut seen, mut paths) = (0, 0);
        // sequences start with an allocation; second operation: allocation or free
        let mut ops = vec![Op::Alloc(a)];
        if c == 2 {
            if b == 0 {
                ops.push(Op::Free(0));
                dfs(&mut ops, 0, depth - 2, &mut mem, r, &mut seen, &mut paths);
            }
        } else {
            ops.push(Op::Alloc(b));
            if c == 0 {
                for f in 0..3 {
                    ops.push(Op::Alloc(f));
                    dfs(&mut ops, 3, depth - 3, &mut mem, r, &mut seen, &mut paths);
                    ops.pop();
                }
            } else {
                for i in 0..2 {
                    ops.push(Op::Free(i));
                    dfs(&mut ops, 1, depth - 3, &mut mem, r, &mut seen, &mut paths);
                    ops.pop();
                }
            }
        }
        r.add(seen, paths * depth as u64, paths);
    });
    // many pages: all allocated, some freed in an order, allocated again, twice over
    let counts: Vec<usize> = (5..=if r.thorough { 600 } else { 200 }).chain([255, 256, 257, 511, 512, 513, 1000, 4096, 20_000, 130_000]).collect();
    r.bound(format!("{} numbers of pages up to almost the whole memory (130000 pages), all held at once and filled, freed forwards, backwards, every second, in strides, halves, and allocated again, two rounds", counts.len()));
    par(r, &counts, |&n| {
        let strides: &[usize] = if n > 10_000 { &[1, 7] } else { &[1, 2, 3, 7, 11, 64] };
        for &stride in strides {
            for back in [false, true] {
                for part in [1, 2] {
                    let res = guard(|| -> Result<(), String> {
                        let mut mem = Box::new(LazyMain::new(NoIo));
                        let mut k = EKernel::new();
                        let mut held: BTreeMap<u32, u8> = BTreeMap::new();
                        let mut order: Vec<u32> = vec![];
                        let mut free: BTreeSet<u32> = BTreeSet::new();
                        for round in 0..3u8 {
                            while held.len() < n {
                                let p = k.allocate_page(&mut *mem);
                                if p % 128 != 0 || p < 0x8000 || p > (1 << 24) - 128 {
                                    return Err(format!("page {p:06x} with {} held", held.len()));
                                }
                                if held.contains_key(&p) {
                                    return Err(format!("page {p:06x} is handed out twice ({} held, round {round})", held.len()));
                                }
                                if !free.remove(&p) && !free.is_empty() {
                                    return Err(format!("fresh page {p:06x} although {} are free", free.len()));
                                }
                                if (0..128).any(|i| mem.read(p + i) != 0) {
                                    return Err(format!("page {p:06x} is not zeroed (round {round})"));
                                }
                                let fill = (p / 128 * 7 + round as u32) as u8 | 1;
                                for i in 0..128 {
                                    mem.write(p + i, fill);
                                }
                                held.insert(p, fill);
                                order.push(p);
                            }
                            for (p, v) in &held {
                                if let Some(i) = (0..128).find(|&i| mem.read(p + i) != *v) {
                                    return Err(format!("byte {i} of the allocated page {p:06x} changed ({n} held, round {round})"));
                                }
                            }
                            // pages to give back
                            let mut give: Vec<u32> = (0..stride).flat_map(|s| order.iter().copied().skip(s).step_by(stride).collect::<Vec<_>>()).collect();
                            give.truncate(n / part);
                            if back {
                                give.reverse();
                            }
                            for p in give {
                                k.free_page(p, &mut *mem);
                                held.remove(&p);
                                free.insert(p);
                            }
                            order.retain(|p| held.contains_key(p));
                        }
                        Ok(())
                    });
                    r.add(n as u64, 4 * n as u64, 1);
                    let case = || format!("{n} pages allocated, {} freed in strides of {stride}{}, three rounds", n / part, if back { ", backwards" } else { "" });
                    match res {
                        Ok(Ok(())) => r.outcome("many pages", 1),
                        Ok(Err(e)) => return r.violation(e, case()),
                        Err(p) => return r.violation(format!("panic: {p}"), case()),
                    }
                }
            }
        }
    });
    r.assume("what happens when no page is left is not settled");
    r.sample("alloc, alloc, free #0, free #0, alloc, alloc: the two freed pages come back, zeroed");
}
