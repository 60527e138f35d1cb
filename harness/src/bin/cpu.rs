use mc::cpu::*;
use mc::refcpu::*;
use mc::report::*;
use std::sync::atomic::Ordering;
use telda2::machine::Cpu;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    let w = Watchdog::start(r);
    match id.as_str() {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r),
        "C09" => c09(r),
        "C11" => c11(r),
        _ => panic!("unknown property {id}"),
    }
    let _ = w;
    r.finish()
}

fn put_code(m: &mut Mem, at: u16, b: &[u8]) {
    for (i, &x) in b.iter().enumerate() {
        m.poke(at.wrapping_add(i as u16) as u32, x);
    }
}
fn fail(r: &Report, what: &str, d: Diff) {
    r.violation(what, d.0);
}
const W_EDGE: [u16; 34] = [
    0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x0f0f, 0x1234, 0x5555, 0x7ffe,
    0x7fff, 0x8000, 0x8001, 0x80ff, 0xaaaa, 0xfeff, 0xff00, 0xfff0, 0xfffe, 0xffff,
];
/// registers with pairwise different contents
fn base_state() -> RState {
    let mut s = RState { pc: 0x9000, ..Default::default() };
    for i in 1..16 {
        s.w[i] = 0x1357u16.wrapping_mul(i as u16 + 3) ^ 0x2a5c;
    }
    s.w[RS] = 0xa000;
    s.w[RP] = 0x4000;
    s.w[RH] = 0;
    s
}
/// paths are counted where they end
fn flush_paths(r: &Report, g: &Rig) {
    g.report_causes(r);
    r.add(g.seen, g.steps, 0);
}
fn flush(r: &Report, g: &Rig) {
    g.report_causes(r);
    r.add(g.seen, g.steps, g.steps);
}

fn c01(r: &Report) {
    r.bound("byte operations: all 65536 operand pairs x 4 prior flag values; wide operations: all boundary pairs (34x34) x 4 prior flags, all 65536 values x 34 boundary values in both positions; all register combinations (16^3 resp. 16^4, equal destinations included) x 3 assignments");
    r.assume("instructions outside of memory-mapped I/O, page tables not in play (C03, C08 cover memory)");
    {
        let mut g = Rig::new();
        let mut s = base_state();
        put_code(&mut g.mem, s.pc, &[0x53, 0xbc, 0x13]);
        s.wb(1, 0x12);
        s.wb(3, 0x34);
        if let Ok((n, Ok(()))) = g.raw(&s) {
            if (n.rb(11), n.rb(12)) == (0x03, 0xa8) {
                r.known("mul-destinations", "mul: first destination receives the upper half");
            }
        }
    }
    // all pairs
    let mut jobs = Vec::new();
    for op in 0x41u8..=0x54 {
        for chunk in 0..16u32 {
            jobs.push((op, chunk));
        }
    }
    par(r, &jobs, |&(op, chunk)| {
        let mut g = Rig::new();
        let byte = op % 2 == 1;
        let four = op >= 0x51;
        // destinations r6b/r7b resp. r6/r7, sources r1l, r2l resp. r1, r2
        let code: Vec<u8> = match (byte, four) {
            (true, false) => vec![op, 0xb1, 0x30],
            (true, true) => vec![op, 0xbc, 0x13],
            (false, false) => vec![op, 0x61, 0x20],
            (false, true) => vec![op, 0x67, 0x12],
        };
        let mut s = base_state();
        put_code(&mut g.mem, s.pc, &code);
        let one = |g: &mut Rig, s: &RState| -> bool {
            if let Err(d) = g.step(s) {
                fail(r, &format!("arithmetic result of opcode {op:02x}"), d);
            }
            r.stopped()
        };
        if byte {
            for a in chunk * 16..chunk * 16 + 16 {
                for b in 0..256 {
                    for fl in [0, 0xf0, 0xa6, 0x50] {
                        s.wb(1, a as u8);
                        s.wb(3, b as u8);
                        s.fl = fl;
                        if one(&mut g, &s) {
                            return;
                        }
                    }
                }
            }
        } else {
            for (i, &a) in W_EDGE.iter().enumerate() {
                if i as u32 % 16 == chunk {
                    for b in W_EDGE {
                        for fl in [0, 0xf0, 0xa6, 0x50] {
                            s.w[1] = a;
                            s.w[2] = b;
                            s.fl = fl;
                            if one(&mut g, &s) {
                                return;
                            }
                        }
                    }
                }
            }
            s.fl = 0;
            for a in chunk * 4096..chunk * 4096 + 4096 {
                for b in W_EDGE {
                    for (x, y) in [(a as u16, b), (b, a as u16)] {
                        s.w[1] = x;
                        s.w[2] = y;
                        if one(&mut g, &s) {
                            return;
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    // register combinations
    par(r, &jobs, |&(op, chunk)| {
        let mut g = Rig::new();
        let mut s = base_state();
        let lasts = if op >= 0x51 { 16 } else { 1 };
        for k in 0..3u16 {
            for i in 1..16 {
                s.w[i] = [0x1357u16.wrapping_mul(i as u16 + 3) ^ 0x2a5c, 0x0101u16.wrapping_mul(16 - i as u16), 0x8000u16.wrapping_sub(i as u16)][k as usize];
            }
            for x in 0..16u8 {
                for y in 0..16u8 {
                    for z in 0..lasts {
                        put_code(&mut g.mem, s.pc, &[op, (chunk as u8) << 4 | x, y << 4 | z]);
                        // no trap handler: a zero divisor stops the machine
                        let mut s = s;
                        if op == 0x51 || op == 0x52 {
                            s.w[RH] = 0;
                        }
                        match g.step(&s) {
                            Err(d) => fail(r, &format!("register selection of opcode {op:02x}"), d),
                            Ok(_) => (),
                        }
                        let l = g.mem.mark();
                        if l > 0 {
                            g.mem.undo(0);
                        }
                        if r.stopped() {
                            return;
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    // operands and results in the same registers
    let mut jobs: Vec<(u8, [u8; 4])> = Vec::new();
    for op in 0x41u8..=0x54 {
        for p in if op < 0x51 {
            vec![[1, 1, 3, 0], [3, 1, 3, 0], [6, 1, 1, 0], [1, 1, 1, 0], [0, 1, 3, 0], [6, 0, 1, 0], [6, 1, 0, 0], [2, 1, 3, 0], [4, 3, 1, 0]]
        } else {
            vec![[6, 7, 1, 1], [1, 3, 1, 3], [3, 1, 1, 3], [1, 7, 1, 3], [7, 1, 1, 3], [3, 7, 1, 3], [7, 3, 1, 3], [0, 7, 1, 3], [6, 0, 1, 3], [6, 6, 1, 3], [1, 3, 1, 1], [3, 3, 1, 3], [2, 4, 1, 3], [6, 7, 0, 1]]
        } {
            jobs.push((op, p));
        }
    }
    r.bound("9 resp. 14 patterns of registers used several times (and both halves of one register) x all pairs of bytes, resp. all 65536 values x 34 boundary values");
    par(r, &jobs, |&(op, p)| {
        let mut g = Rig::new();
        let mut s = base_state();
        if op == 0x51 || op == 0x52 {
            s.w[RH] = 0;
        }
        let code = if op >= 0x51 { vec![op, p[0] << 4 | p[1], p[2] << 4 | p[3]] } else { vec![op, p[0] << 4 | p[1], p[2] << 4] };
        put_code(&mut g.mem, s.pc, &code);
        let regs = if op >= 0x51 { [p[2], p[3]] } else { [p[1], p[2]] };
        for a in 0..=0xffffu32 {
            let bs = if op % 2 == 1 { 1 } else { W_EDGE.len() };
            for k in 0..bs {
                if op % 2 == 1 {
                    s.wb(regs[0] as usize, a as u8);
                    s.wb(regs[1] as usize, (a >> 8) as u8);
                } else {
                    s.ww(regs[0] as usize, a as u16);
                    s.ww(regs[1] as usize, W_EDGE[k]);
                    if a & 1 == 1 {
                        s.w.swap(regs[0] as usize, regs[1] as usize);
                        s.w[0] = 0;
                    }
                }
                if let Err(d) = g.step(&s) {
                    fail(r, &format!("arithmetic of opcode {op:02x} on shared registers"), d);
                }
                g.mem.undo(0);
                if r.stopped() {
                    return;
                }
            }
        }
        flush(r, &g);
    });
    if !r.stopped() {
        if r.thorough {
            r.bound("thorough: all 2^32 operand pairs of every wide operation");
            c01_wide(r, &(0..=0xffff).collect::<Vec<u16>>(), false);
        } else {
            let mut b: Vec<u16> = (0..=0xff).collect();
            b.extend((0..=0xffu16).map(|x| x << 8));
            b.extend((0..=0xffu16).map(|x| 0xff00 | x));
            b.extend((0..16).flat_map(|k| [(1u16 << k).wrapping_sub(1), 1 << k, (1 << k) + 1, !(1 << k), 0u16.wrapping_sub(1 << k)]));
            b.extend((1..256u16).map(|k| k.wrapping_mul(257)));
            b.extend((1..200u16).map(|k| k.wrapping_mul(331) ^ 0x5a5a));
            b.sort();
            b.dedup();
            r.bound(format!("wide operations: all 65536 values with {} values (all bytes, all multiples of 256, negated bytes, powers of two and their neighbours, repeated bytes, others spread evenly), in both orders", b.len()));
            c01_wide(r, &b, true);
        }
    }
    r.sample("sub r6, r1, r2 with r1=8000 r2=0001 -> 7fff, O set, C clear");
    r.sample("div r6, r7, r1, r2 with r2=0 -> zero-division trap, registers unchanged");
}

/// all 65536 values with these, in one or both orders, for every wide operation
fn c01_wide(r: &Report, seconds: &[u16], both: bool) {
    let jobs: Vec<(u8, u16)> = (0..256u16).flat_map(|a| (0..10u8).map(move |o| (0x42 + 2 * o, a << 8))).collect();
    par(r, &jobs, |&(op, hi)| {
        let mut g = Rig::new();
        let four = op >= 0x51;
        let code = if four { [op, 0x67, 0x12] } else { [op, 0x61, 0x20] };
        let mut s = base_state();
        put_code(&mut g.mem, s.pc, &code);
        put(&mut g.cpu, &s);
        let start = g.cpu.clone();
        let m = g.mem.d[0x9000..0x9003].to_vec();
        for lo in 0..256u16 {
            s.w[1] = hi | lo;
            let first = s.w[1];
            for (b, swap) in seconds.iter().flat_map(|&b| [(b, false), (b, true)]) {
                if swap && !both {
                    continue;
                }
                (s.w[1], s.w[2]) = if swap { (b, first) } else { (first, b) };
                let mut c = start.clone();
                let _ = c.write_wr(wr(1), s.w[1]);
                let _ = c.write_wr(wr(2), s.w[2]);
                let res = c.execute_instruction(&mut g.mem).map_err(cause);
                let (e, er) = wide_ref(op, &s);
                let got = (c.read_wr(wr(6)).unwrap(), c.read_wr(wr(7)).unwrap(), u16::from(c.flags) as u8, c.program_counter);
                if res != er || got != e {
                    r.violation(format!("opcode {op:02x} on all wide pairs"), format!("r1={:04x} r2={:04x}: got {got:x?} {res:x?}, expected {e:x?} {er:x?}", s.w[1], s.w[2]));
                    return;
                }
            }
            s.w[1] = first;
            if r.check_time() {
                return;
            }
        }
        let _ = m;
        let n = 256 * seconds.len() as u64 * if both { 2 } else { 1 };
        r.add(n, n, n);
    });
}
fn wide_ref(op: u8, s: &RState) -> ((u16, u16, u8, u16), Result<(), u8>) {
    let (a, b) = (s.w[1], s.w[2]);
    let fl = |z: bool, n: bool, c: bool, o: bool| (z as u8) * Z | (n as u8) * S | (c as u8) * C | (o as u8) * O;
    let sx = |v: u16| v as i16 as i32;
    let ok = |i: i32| (-32768..32768).contains(&i);
    let two = |v: u16, c: bool, o: bool| ((v, s.w[7], fl(v == 0, v >= 0x8000, c, o), 0x9003), Ok(()));
    match op {
        0x42 => two((a as u32 + b as u32) as u16, a as u32 + b as u32 >= 65536, !ok(sx(a) + sx(b))),
        0x44 => two((a as i32 - b as i32) as u16, a < b, !ok(sx(a) - sx(b))),
        0x46 => two(a & b, false, false),
        0x48 => two(a | b, false, false),
        0x4a => two(a ^ b, false, false),
        0x4c => two(((a as u32) << (b % 16)) as u16, false, false),
        0x4e => two((sx(a) >> (b % 16)) as u16, false, false),
        0x50 => two(((a as u32) >> (b % 16)) as u16, false, false),
        0x52 if b == 0 => ((s.w[6], s.w[7], T, 0x9003), Err(ZERODIV)),
        0x52 => ((a / b, a % b, 0, 0x9003), Ok(())),
        _ => {
            let p = a as u32 * b as u32;
            let (h, l) = ((p >> 16) as u16, p as u16);
            ((h, l, fl(l == 0, l >= 0x8000, h != 0, h != 0), 0x9003), Ok(()))
        }
    }
}

fn c02(r: &Report) {
    let depth = 4;
    r.bound(format!("all sequences of {depth} register writes (16 byte views x 2 values, 16 wide views x 2 values) executed as ldi and through the register interface, all 32 views read through the interface and through store instructions after each sequence; every byte view written with every value over every previous value of its register (16 x 2^16 x 2^8), every wide view with every value over 64 previous values; user mode: all opcodes with all operand bytes naming rp or rh, and the register interface"));
    r.assume("registers are set up through the public register interface, which is itself compared");
    let mut alphabet: Vec<(bool, usize, u16)> = Vec::new();
    for i in 0..16 {
        alphabet.push((false, i, 0x5a));
        alphabet.push((false, i, 0xff));
        // same low or high byte as the byte writes
        alphabet.push((true, i, 0xc35a));
        alphabet.push((true, i, 0x5aff));
    }
    let views = |g: &mut Rig, s: &RState, r: &Report| -> bool {
        for i in 0..16 {
            let (b, w) = (g.cpu.read_br(br(i)), g.cpu.read_wr(wr(i)));
            let eb = s.rb(i);
            let ew = if i == 0 { 0 } else { s.w[i] };
            if b != eb || w != Ok(ew) {
                r.violation("register views disagree", format!("byte register {i} reads {b:02x}, expected {eb:02x}; wide register {i} reads {w:04x?}, expected {ew:04x}\n after {}", s.show()));
                return false;
            }
        }
        true
    };
    fn dfs(g: &mut Rig, s: &RState, left: usize, al: &[(bool, usize, u16)], r: &Report, views: &dyn Fn(&mut Rig, &RState, &Report) -> bool) {
        if left == 0 {
            // read every view by storing it
            for i in 0..32usize {
                let mut t = *s;
                t.pc = 0x9100;
                t.w[0] = 0;
                let (op, b1) = if i < 16 { (0x27, i) } else { (0x28, i - 16) };
                let m = g.mem.mark();
                put_code(&mut g.mem, t.pc, &[op, b1 as u8, 0x00, 0xb0]);
                let res = g.step(&t);
                let got = u16::from_le_bytes([g.mem.d[0xb000], g.mem.d[0xb001]]);
                g.mem.undo(m);
                let want = if i < 16 { s.rb(i) as u16 } else if i == 16 { 0 } else { s.w[i - 16] };
                if let Err(d) = res {
                    return fail(r, "storing a register view", d);
                }
                if got != want {
                    return r.violation("stored register view", format!("view {i}: stored {got:04x}, expected {want:04x}, {}", s.show()));
                }
            }
            r.traces.fetch_add(1, Ordering::Relaxed);
            return;
        }
        for &(wide, i, v) in al {
            let mut n = *s;
            n.pc = 0x9000;
            let mut e = n;
            // reference register file
            if wide {
                put_code(&mut g.mem, 0x9000, &[0x40, (i as u8) << 4, v as u8, (v >> 8) as u8]);
                e.ww(i, v);
            } else {
                put_code(&mut g.mem, 0x9000, &[0x3f, (i as u8) << 4, v as u8]);
                e.wb(i, v as u8);
            }
            match g.step(&n) {
                Err(d) => return fail(r, "register write", d),
                Ok(st) => {
                    e.pc = st.s.pc;
                    if st.s != e {
                        return r.violation("register write", format!("got {}\nwant {}", st.s.show(), e.show()));
                    }
                }
            }
            if !views(g, &e, r) {
                return;
            }
            // the same write through the interface
            put(&mut g.cpu, s);
            if wide {
                if g.cpu.write_wr(wr(i), v).is_err() {
                    return r.violation("write_wr fails in supervisor mode", format!("register {i}"));
                }
            } else {
                g.cpu.write_br(br(i), v as u8);
            }
            if !views(g, &e, r) {
                return;
            }
            dfs(g, &e, left - 1, al, r, views);
            if r.stopped() {
                return;
            }
        }
    }
    let firsts: Vec<usize> = (0..alphabet.len()).collect();
    par(r, &firsts, |&f| {
        let mut g = Rig::new();
        let mut s = base_state();
        let (wide, i, v) = alphabet[f];
        if wide {
            s.ww(i, v)
        } else {
            s.wb(i, v as u8)
        }
        put(&mut g.cpu, &base_state());
        if wide {
            let _ = g.cpu.write_wr(wr(i), v);
        } else {
            g.cpu.write_br(br(i), v as u8);
        }
        if views(&mut g, &s, r) {
            dfs(&mut g, &s, depth - 1, &alphabet, r, &views);
        }
        flush_paths(r, &g);
    });
    // every value over every previous value
    let rows: Vec<(usize, u32)> = (0..16).flat_map(|i| (0..16).map(move |h| (i, h))).collect();
    par(r, &rows, |&(i, h)| {
        let mut g = Rig::new();
        let s0 = base_state();
        put(&mut g.cpu, &s0);
        // the wide register whose storage the byte view shares
        let w = { let mut a = s0; a.wb(i, !a.rb(i)); (0..16).find(|&j| a.w[j] != s0.w[j]) };
        let mut n = 0u64;
        for old in (h * 0x1000)..((h + 1) * 0x1000) {
            let old = old as u16;
            let mut s = s0;
            if let Some(w) = w { s.ww(w, old) }
            for v in 0..=255u8 {
                if let Some(w) = w { let _ = g.cpu.write_wr(wr(w), old); }
                g.cpu.write_br(br(i), v);
                let mut e = s;
                e.wb(i, v);
                let got = w.map(|w| g.cpu.read_wr(wr(w)));
                if g.cpu.read_br(br(i)) != e.rb(i) || w.is_some_and(|w| got != Some(Ok(e.w[w]))) {
                    return r.violation("byte register write", format!("register {i}, previous value of the wide register {old:04x}, written {v:02x}: the wide register reads {got:04x?}"));
                }
            }
            n += 256;
        }
        for k in 0..4u16 {
            let old = (h as u16 * 4 + k).wrapping_mul(0x1021) ^ 0x00ff;
            for v in 0..=0xffffu16 {
                let _ = g.cpu.write_wr(wr(i), old);
                let _ = g.cpu.write_wr(wr(i), v);
                let want = if i == 0 { 0 } else { v };
                if g.cpu.read_wr(wr(i)) != Ok(want) {
                    return r.violation("wide register write", format!("register {i}, previous value {old:04x}, written {v:04x}"));
                }
                n += 1;
            }
            let _ = g.cpu.write_wr(wr(i), s0.w[i]);
        }
        r.add(0, n, 1);
    });
    // user mode
    let ops: Vec<u8> = (0..=255).collect();
    par(r, &ops, |&op| {
        let k = match shape(op) {
            Shape::Regs(k) | Shape::RegsB(k) | Shape::RegsW(k) => k,
            Shape::LdiW => "w",
            _ => return,
        };
        if !k.contains('w') {
            return;
        }
        let mut g = Rig::new();
        let mut s = base_state();
        s.fl = U;
        let second = if k.len() > 2 || shape(op) == Shape::LdiW { 256 } else { 1 };
        for b1 in 0..256u32 {
            for b2 in 0..second {
                let code = [op, b1 as u8, b2 as u8, 0x12];
                put_code(&mut g.mem, s.pc, &code);
                let n = [b1 >> 4, b1 & 15, b2 >> 4, b2 & 15];
                if !k.bytes().enumerate().any(|(i, c)| c == b'w' && n[i] >= 14) {
                    continue;
                }
                let mark = g.mem.mark();
                match g.step(&s) {
                    Err(d) => fail(r, "page-table or trap-handler register in user mode", d),
                    Ok(st) => {
                        let jmp_imm = op == 0x40 && b1 & 15 == 1 && b1 >> 4 == 0;
                        if st.s.w[RP] != s.w[RP] || st.s.w[RH] != s.w[RH] || (st.res.is_ok() && !jmp_imm) {
                            r.violation("page-table or trap-handler register used in user mode", format!("{code:02x?}: {:x?} {}", st.res, st.s.show()));
                        }
                    }
                }
                g.mem.undo(mark);
                r.traces.fetch_add(1, Ordering::Relaxed);
                if r.stopped() {
                    return;
                }
            }
        }
        flush_paths(r, &g);
    });
    let mut g = Rig::new();
    let mut s = base_state();
    s.fl = U;
    put(&mut g.cpu, &s);
    for i in 0..16 {
        let rd = g.cpu.read_wr(wr(i)).map_err(cause);
        let want = if i >= RP { Err(ILL_OP) } else { Ok(s.w[i]) };
        let wt = g.cpu.write_wr(wr(i), 0x7777).map_err(cause);
        if rd != want || wt.is_err() != (i >= RP) || g.cpu.page != s.w[RP] || g.cpu.trap_handler != s.w[RH] {
            r.violation("register interface in user mode", format!("register {i}: read {rd:x?}, write {wt:x?}"));
        }
    }
    r.sample("ldi r6b, 5a; ldi r6, c33c; ldi r1h, ff -> r6b=3c r6=c33c r1=ff..");
}

/// Tables that map all 512 pages with all permissions to pairwise different scrambled pages from 0x100000
fn scrambled(m: &mut Mem, rp: u16, flags: u8) {
    for v1 in 0..16u32 {
        let t2 = 0x20000 + v1 * 0x80;
        m.poke32(rp as u32 + 4 * v1, t2 << 8 | flags as u32);
        for v2 in 0..32u32 {
            m.poke32(t2 + 4 * v2, (scr(v1 * 32 + v2)) << 8 | flags as u32);
        }
    }
}
fn scr(vpn: u32) -> u32 {
    0x100000 + ((vpn * 37 + 11) % 512) * 0x80
}
fn fill(m: &mut Mem) {
    let mut x = 0x1234_5678u32;
    for b in m.d.iter_mut() {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        *b = (x >> 24) as u8;
    }
}

fn c03(r: &Report) {
    r.bound("8 load/store forms x all register combinations x 8x8 boundary values of base and offset (immediate offsets: 8 values), direct and virtual addressing (every page mapped elsewhere); push/pop x 16 registers x all 65536 stack pointers, both addressing modes; memory filled with a fixed pattern; exact count of port reads");
    r.assume("the instruction itself lies outside the accessed bytes; tables in physical memory not mapped to the program");
    let edge: Vec<u16> = if r.thorough {
        vec![0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfff, 0x1000, 0x1234, 0x7f7f, 0x7fff, 0x8000, 0x8001, 0xff80, 0xfffe, 0xffff]
    } else {
        vec![0, 1, 0x7f, 0x80, 0x1fff, 0x8000, 0xfffe, 0xffff]
    };
    let mut jobs = Vec::new();
    for virt in [false, true] {
        for op in 0x27u8..=0x2e {
            for r1 in 0..16u8 {
                jobs.push((virt, op, r1));
            }
        }
        for op in 0x21..=0x24 {
            for r1 in 0..16u8 {
                jobs.push((virt, op, r1));
            }
        }
    }
    let mut proto = Mem::new();
    fill(&mut proto);
    let proto = &proto.d;
    par(r, &jobs, |&(virt, op, r1)| {
        let mut g = Rig::new();
        g.mem.d.copy_from_slice(proto);
        g.mem.log = true;
        g.ports = true;
        let mut s0 = base_state();
        s0.fl = if virt { V | 0xf0 } else { 0x04 };
        scrambled(&mut g.mem, s0.w[RP], 0x2f);
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let page = |a: u16| if virt { scr(a as u32 >> 7) + (a as u32 & 0x7f) } else { a as u32 };
        s0.pc = 0x9034;
        let mut one = |g: &mut Rig, s: &RState, code: &[u8]| -> bool {
            for (i, &b) in code.iter().enumerate() {
                let a = page(s.pc.wrapping_add(i as u16));
                g.mem.set(a, b);
            }
            let res = g.step(s);
            g.mem.undo(0);
            if let Err(d) = res {
                fail(r, &format!("memory access by opcode {op:02x}"), d);
            }
            r.stopped()
        };
        if op <= 0x24 {
            for rs in 0..=0xffffu16 {
                let mut s = s0;
                s.w[RS] = rs;
                if rs >= 0x8ff0 && rs < 0x9080 {
                    s.pc = 0x5034;
                }
                if one(&mut g, &s, &[op, r1 << 4]) {
                    return;
                }
            }
        } else {
            let imm = matches!(op, 0x27 | 0x28 | 0x2b | 0x2c);
            let store = op < 0x2b;
            for r2 in 0..16u8 {
                for r3 in 0..if imm { 1 } else { 16u8 } {
                    for &b in &edge {
                        for &o in &edge {
                            let mut s = s0;
                            // position of base and offset registers
                            let base = if store { r1 } else { r2 } as usize;
                            let off = if store { r2 } else { r3 } as usize;
                            let rp = s.w[RP];
                            s.ww(base, b);
                            let code = if imm {
                                [op, r1 << 4 | r2, o as u8, (o >> 8) as u8]
                            } else {
                                s.ww(off, o);
                                [op, r1 << 4 | r2, r3 << 4, 0]
                            };
                            if virt {
                                // the table pointer is needed for translation
                                s.w[RP] = rp;
                            }
                            if one(&mut g, &s, &code[..if imm { 4 } else { 3 }]) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    let jobs: Vec<(bool, u8, u8)> = [false, true].into_iter().flat_map(|v| (0x27u8..=0x2e).flat_map(move |op| (0..8u8).map(move |c| (v, op, c)))).collect();
    r.bound("8 load/store forms: all 65536 bases x 8 offsets and all 65536 offsets x 8 bases, direct and virtual addressing");
    par(r, &jobs, |&(virt, op, chunk)| {
        let mut g = Rig::new();
        g.mem.d.copy_from_slice(proto);
        g.mem.log = true;
        g.ports = true;
        let mut s0 = base_state();
        s0.fl = if virt { V | 0xf0 } else { 0x04 };
        scrambled(&mut g.mem, s0.w[RP], 0x2f);
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let imm = matches!(op, 0x27 | 0x28 | 0x2b | 0x2c);
        let store = op < 0x2b;
        for x in (chunk as u32 * 8192)..(chunk as u32 + 1) * 8192 {
            for y in [0u16, 1, 0x7f, 0x80, 0x1fff, 0x8000, 0xfffe, 0xffff] {
                for (b, o) in [(x as u16, y), (y, x as u16)] {
                    let mut s = s0;
                    let sum = b.wrapping_add(o);
                    s.pc = if (0x8ff0..0x9080).contains(&sum) { 0x5034 } else { 0x9034 };
                    s.w[2] = b;
                    s.w[5] = o;
                    // base r2, offset r5 or immediate, data r3 or r1l
                    let code = match (imm, store) {
                        (true, true) => [op, 0x23, o as u8, (o >> 8) as u8],
                        (true, false) => [op, 0x32, o as u8, (o >> 8) as u8],
                        (false, true) => [op, 0x25, 0x30, 0],
                        (false, false) => [op, 0x32, 0x50, 0],
                    };
                    for (i, &v) in code.iter().enumerate() {
                        let a = s.pc + i as u16;
                        g.mem.set(if virt { scr(a as u32 >> 7) + (a as u32 & 0x7f) } else { a as u32 }, v);
                    }
                    let res = g.step(&s);
                    g.mem.undo(0);
                    if let Err(d) = res {
                        fail(r, &format!("memory access by opcode {op:02x}"), d);
                    }
                    if r.stopped() {
                        return;
                    }
                }
            }
        }
        flush(r, &g);
    });
    r.bound("refused accesses: all pairs of 8 page conditions (accessible; missing, unreadable, write-protected, not executable, supervisor-only at level 2; missing or supervisor-only at level 1) on both sides of 3 page borders (inside a block, between blocks, end of the address space) x 12 memory instructions x 3 positions x 7 registers x user/supervisor");
    page_pairs(r, &DATA_OPS, true, &[0]);
    r.sample("store [rs+7f] wide with rs=ff80 in virtual mode: second byte at address 0 of another physical page");
    r.sample("pop rs with rs=ffff: low byte at ffff, high byte at 0000, rs = popped value");
}

fn c04(r: &Report) {
    r.bound("12 conditional jumps x 128 flag bytes (virtual memory off) x 9 targets x 14 program counters; ret: 256 immediates x 7 links x 7 stack pointers; call: 14 program counters x 9 targets; jmp: 16 registers x 9 values; every opcode with 13x13 operand byte pairs at 11 program counters around the end of the address space");
    let pcs = [0x80u16, 0x7f, 0, 1, 0x7ffe, 0x7fff, 0x8000, 0x9000, 0xfffa, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff];
    let targets = [0u16, 1, 0x80, 0x7fff, 0x8000, 0x1234, 0xff00, 0x00ff, 0xffff];
    let mut jobs: Vec<(u8, u16)> = Vec::new();
    for op in 0..=255u8 {
        for &p in &pcs {
            jobs.push((op, p));
        }
    }
    par(r, &jobs, |&(op, pc)| {
        let mut g = Rig::new();
        let mut s = base_state();
        s.pc = pc;
        let one = |g: &mut Rig, s: &RState, code: &[u8]| -> bool {
            for (i, &b) in code.iter().enumerate() {
                g.mem.set(s.pc.wrapping_add(i as u16) as u32, b);
            }
            let res = g.step(s);
            g.mem.undo(0);
            if let Err(d) = res {
                fail(r, &format!("control flow of opcode {op:02x} at {:04x}", s.pc), d);
            }
            r.stopped()
        };
        let b = |t: u16| [t as u8, (t >> 8) as u8];
        match op {
            0x2f..=0x3a => {
                for t in targets {
                    for fl in 0..=255u8 {
                        if fl & V == 0 {
                            s.fl = fl;
                            if one(&mut g, &s, &[op, b(t)[0], b(t)[1]]) {
                                return;
                            }
                        }
                    }
                }
            }
            0x25 => {
                for t in targets {
                    if one(&mut g, &s, &[op, b(t)[0], b(t)[1]]) {
                        return;
                    }
                }
            }
            0x26 => {
                for n in 0..=255u8 {
                    for l in [0u16, 0x80, 0x7fff, 0x8000, 0xffff, 0x1234, 0xff01] {
                        for rs in [0u16, 1, 0x7f80, 0xff00, 0xff01, 0xffff, 0x8000] {
                            s.w[RL] = l;
                            s.w[RS] = rs;
                            if one(&mut g, &s, &[op, n]) {
                                return;
                            }
                        }
                    }
                }
            }
            0x40 => {
                for reg in 0..16u8 {
                    for v in targets {
                        for imm in [0u16, 0x1234, 0xff00] {
                            let mut s = s;
                            s.ww(reg as usize, v);
                            if one(&mut g, &s, &[op, reg << 4 | 1, b(imm)[0], b(imm)[1]]) {
                                return;
                            }
                        }
                    }
                }
            }
            _ => (),
        }
        // length of every instruction, wrapping
        for b1 in [0u8, 0x10, 0x11, 0x12, 0x30, 0x5b, 0x61, 0x7c, 0xb0, 0xcd, 0xe0, 0xef, 0xf0] {
            for b2 in [0u8, 0x01, 0x10, 0x12, 0x30, 0x40, 0x5b, 0x61, 0xb0, 0xc7, 0xe0, 0xef, 0xff] {
                if one(&mut g, &s, &[op, b1, b2, 0xc0]) {
                    return;
                }
            }
        }
        flush(r, &g);
    });
    r.bound("conditional jumps: all 65536 targets x 16 settings of the four result flags x 2 program counters, all 65536 program counters x 16 settings x 2 targets; call, jmp: all 65536 targets x 3 program counters, all 65536 program counters x 3 targets, jmp to all 65536 register values in all registers; ret: all 65536 links and all 65536 stack pointers x 16 immediates; in user and supervisor mode");
    let mut jobs: Vec<(u8, u32)> = Vec::new();
    for op in (0x2f..=0x3au8).chain([0x25, 0x26, 0x40]) {
        for c in 0..16 {
            jobs.push((op, c));
        }
    }
    par(r, &jobs, |&(op, c)| {
        let mut g = Rig::new();
        let s0 = base_state();
        let one = |g: &mut Rig, s: &RState, code: &[u8]| -> bool {
            for (i, &b) in code.iter().enumerate() {
                g.mem.set(s.pc.wrapping_add(i as u16) as u32, b);
            }
            let res = g.step(s);
            g.mem.undo(0);
            if let Err(d) = res {
                fail(r, &format!("control flow of opcode {op:02x} at {:04x}", s.pc), d);
            }
            r.stopped()
        };
        let flags: Vec<u8> = (0..16u8).map(|f| (f & 1) * Z | (f >> 1 & 1) * S | (f >> 2 & 1) * C | (f >> 3) * O).collect();
        for x in c * 4096..(c + 1) * 4096 {
            let x = x as u16;
            let mut s = s0;
            let user = (x & 1) as u8 * U;
            s.fl = user;
            match op {
                0x25 | 0x40 => {
                    for (pc, t) in [(0x9000, x), (0x1234, x), (0xfffe, x), (x, 0), (x, 0xabcd), (x, 0x9000)] {
                        s.pc = pc;
                        let code: &[u8] = &[op, t as u8, (t >> 8) as u8];
                        let jump: &[u8] = &[op, 1, t as u8, (t >> 8) as u8];
                        if one(&mut g, &s, if op == 0x25 { code } else { jump }) {
                            return;
                        }
                    }
                    s.pc = 0x9000;
                    for reg in 1..16u8 {
                        let mut s = s;
                        s.ww(reg as usize, x);
                        if op == 0x40 && one(&mut g, &s, &[op, reg << 4 | 1, 0x34, 0x12]) {
                            return;
                        }
                    }
                }
                0x26 => {
                    for n in [0u8, 1, 2, 3, 4, 5, 6, 8, 15, 16, 32, 64, 127, 128, 254, 255] {
                        let mut s = s;
                        s.w[RL] = x;
                        if one(&mut g, &s, &[op, n]) {
                            return;
                        }
                        s.w[RL] = 0xa000;
                        s.w[RS] = x;
                        if one(&mut g, &s, &[op, n]) {
                            return;
                        }
                    }
                }
                _ => {
                    for &f in &flags {
                        s.fl = user | f;
                        for (pc, t) in [(0x9000, x), (0xfffd, x), (x, 0), (x, 0x9abc)] {
                            s.pc = pc;
                            if one(&mut g, &s, &[op, t as u8, (t >> 8) as u8]) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    r.bound("instructions across page borders: all pairs of 8 page conditions (accessible; missing, unreadable, write-protected, not executable, supervisor-only at level 2; missing or supervisor-only at level 1) on both sides of 3 page borders (inside a block, between blocks, end of the address space) x all opcodes x 4 positions x 6 operand patterns x 2 flag values x user/supervisor");
    let all: Vec<u8> = (0..=255).collect();
    page_pairs(r, &all, false, &[0]);
    r.sample("jgt with S=1 O=1 Z=0 jumps; jle with S=1 O=0 Z=0 does not");
    r.sample("call at fffd: link register becomes 0000");
}

fn c05(r: &Report) {
    r.bound(if r.thorough {
        "all 2^24 (opcode, operand bytes) x 5 fourth bytes x {supervisor, user} x {no handler, handler}, registers pairwise different, memory a fixed pattern; plus the same in virtual mode"
    } else {
        "all 2^24 (opcode, operand bytes) x {supervisor, user} x {no handler, handler}, one fourth byte per third byte, in direct and (with another fourth byte) in virtual mode, registers pairwise different (two sets), memory a fixed pattern"
    });
    {
        let mut g = Rig::new();
        let mut s = base_state();
        s.fl = C;
        put_code(&mut g.mem, s.pc, &[0x39, 0x34, 0x12]);
        if let Ok((n, Ok(()))) = g.raw(&s) {
            if n.pc == 0x1234 {
                r.known("ja-jb-opcodes", "opcode 37 acts as ja and opcode 39 as jb");
            }
        }
    }
    let jobs: Vec<(u8, u8)> = (0..=255u8).flat_map(|o| (0..4u8).map(move |m| (o, m))).collect();
    let mut proto = Mem::new();
    fill(&mut proto);
    let proto = &proto.d;
        let virts: &[bool] = &[false, true];
    par(r, &jobs, |&(op, mode)| {
        for &virt in virts {
            let fourths: &[u8] = if r.thorough { &[0, 0x7f, 0x80, 0xff, 0xa5] } else if virt { &[0xa5] } else { &[0] };
            let mut g = Rig::new();
            g.mem.d.copy_from_slice(proto);
            let mut s = base_state();
            s.w[RP] = 0x4000;
            s.fl = if mode & 1 != 0 { U } else { 0 } | 0x50;
            if virt {
                // other contents of the registers as well
                for i in (1..16).filter(|&i| ![RP, RH, RS].contains(&i)) {
                    s.w[i] = !s.w[i];
                }
                scrambled(&mut g.mem, s.w[RP], 0x2f);
                g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
                s.fl |= V;
            }
            let at = if virt { scr(s.pc as u32 >> 7) } else { s.pc as u32 } as usize;
            if mode & 2 != 0 {
                s.w[RH] = 0x7654;
            }
            for b1 in 0..=255u8 {
                for b2 in 0..=255u8 {
                    for &f in fourths {
                        let b3 = if r.thorough { f } else { f ^ b2.rotate_left(3) ^ 0x5a };
                        g.mem.d[at..at + 4].copy_from_slice(&[op, b1, b2, b3]);
                        if let Err(d) = g.step(&s) {
                            fail(r, &format!("decoding of {op:02x} {b1:02x} {b2:02x} {b3:02x}"), d);
                        }
                        g.mem.undo(0);
                    }
                }
                if r.check_time() {
                    return;
                }
            }
            flush(r, &g);
        }
    });
    r.sample("41 b1 35: non-zero padding nibble -> invalid, registers and flags unchanged");
    r.sample("40 12 ..: ldi option 2 -> invalid");
}

/// A small mapped world: rp=0x4000; level-2 tables at 0x20000+; virtual pages of block 0, 7, 8, 15
/// with one permission class each. `cls` gives the flag byte of (vpn1, vpn2).
fn world(m: &mut Mem, rp: u16, cls: &dyn Fn(u32, u32) -> (u8, u8)) {
    for v1 in 0..16u32 {
        let t2 = 0x20000 + v1 * 0x80;
        m.poke32(rp as u32 + 4 * v1, t2 << 8 | cls(v1, 0).0 as u32);
        for v2 in 0..32u32 {
            m.poke32(t2 + 4 * v2, scr(v1 * 32 + v2) << 8 | cls(v1, v2).1 as u32);
        }
    }
}

/// Refusals at page borders: every pair of page conditions on both sides of a border, with data accesses
/// (`data`) or the instruction's own bytes on it
fn page_pairs(r: &Report, ops: &[u8], data: bool, handlers: &[u16]) {
    let conditions = [(0x3fu8, 0x3fu8), (0x3f, 0x3e), (0x3f, 0x3d), (0x3f, 0x3b), (0x3f, 0x37), (0x3f, 0x1f), (0x3e, 0x3f), (0x1f, 0x3f)];
    let mut jobs = Vec::new();
    for border in [0x3080u16, 0x4000, 0] {
        for x in conditions {
            for y in conditions {
                jobs.push((border, x, y));
            }
        }
    }
    let regs: &[u8] = if r.thorough { &[0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 15] } else { &[0, 1, 3, 11, 12, 14, 15] };
    par(r, &jobs, |&(border, x, y)| {
        let below = border.wrapping_sub(1);
        let (pb, pa) = (below as u32 >> 7, border as u32 >> 7);
        if pb >> 5 == pa >> 5 && (x.0 != 0x3f || y.0 != 0x3f) {
            return;
        }
        let mut g = Rig::new();
        fill(&mut g.mem);
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let mut t0 = base_state();
        world(&mut g.mem, t0.w[RP], &|v1, v2| {
            let n = v1 * 32 + v2;
            let l1 = if pb >> 5 != pa >> 5 && v1 == pb >> 5 {
                x.0
            } else if pb >> 5 != pa >> 5 && v1 == pa >> 5 {
                y.0
            } else {
                0x3f
            };
            (l1, if n == pb { x.1 } else if n == pa { y.1 } else { 0x3f })
        });
        t0.w[RL] = 0x8765;
        t0.w[RS] = 0xa000;
        for user in [0, U] {
            for &h in handlers {
                let mut t1 = t0;
                t1.fl = V | user | 0x50;
                t1.w[RH] = h;
                for &op in ops {
                    if data {
                        for back in [2u16, 1, 0] {
                            let va = border.wrapping_sub(back);
                            for &d in regs {
                                let mut t = t1;
                                t.pc = 0x9000;
                                let code: [u8; 4] = match op {
                                    0x21 => { t.w[RS] = va.wrapping_add(1); [op, d << 4, 0, 0] }
                                    0x22 => { t.w[RS] = va.wrapping_add(2); [op, d << 4, 0, 0] }
                                    0x23 | 0x24 => { t.w[RS] = va; [op, d << 4, 0, 0] }
                                    0x27 | 0x28 => { t.w[9] = va; [op, 0x90 | d, 0, 0] }
                                    0x29 | 0x2a => { t.w[9] = va; [op, 0x90, d << 4, 0] }
                                    0x2b | 0x2c => { t.w[9] = va; [op, d << 4 | 9, 0, 0] }
                                    _ => { t.w[9] = va; [op, d << 4 | 9, 0, 0] }
                                };
                                g.inject(&t, &code);
                                access(r, &mut g, &t, &format!("data access by opcode {op:02x} at a page border"));
                                if r.stopped() {
                                    return;
                                }
                            }
                        }
                    } else {
                        for back in [3u16, 2, 1, 0] {
                            for pat in [[0x12u8, 0x30, 0x12], [0x10, 0x40, 0x13], [0xb1, 0x21, 0x80], [0x01, 0x34, 0x12], [0xe1, 0x20, 0x10], [0x31, 0xf0, 0xff]] {
                                for fl in [0x50u8, 0xa0] {
                                    let mut t = t1;
                                    t.fl = V | user | fl;
                                    t.pc = border.wrapping_sub(back);
                                    // put the bytes there whatever the permissions
                                    for (i, b) in [op, pat[0], pat[1], pat[2]].into_iter().enumerate() {
                                        let a = t.pc.wrapping_add(i as u16);
                                        g.mem.set(scr(a as u32 >> 7) + (a as u32 & 0x7f), b);
                                    }
                                    access(r, &mut g, &t, &format!("execution of opcode {op:02x} at a page border"));
                                    if r.stopped() {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
}
const DATA_OPS: [u8; 12] = [0x21, 0x22, 0x23, 0x24, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e];

fn c06(r: &Report) {
    let depth = if r.thorough { 6 } else { 5 };
    r.bound(format!("all sequences of {depth} injected instructions from an alphabet of 17 (every trap cause, reth, ctf, usr, vmon/vmoff, stack and handler changes) x 32 configurations (user/supervisor x virtual memory x trap flag x handler none / mapped / unmapped / stack unmapped); and trap-then-reth from every trapping instruction x all 128 flag bytes x 40 stack pointers"));
    r.assume("direct mode and one virtual world whose pages are rwx, read-only, supervisor-only or missing; dirty marking is decided by C09");
    // instruction alphabet
    let al: Vec<Vec<u8>> = vec![
        vec![0x0a],                   // halt
        vec![0x0c],                   // syscall
        vec![0x00],                   // invalid
        vec![0x51, 0x12, 0x10],       // div by r0b
        vec![0x0d],                   // reth
        vec![0x0b],                   // ctf
        vec![0x20],                   // nop
        vec![0x40, 0x10, 0x34, 0x12], // ldi r1
        vec![0x44, 0x20, 0x30],       // sub r2, r0, r3: flags
        vec![0x10],                   // usr
        vec![0x11],                   // vmon
        vec![0x12],                   // vmoff
        vec![0x40, 0xf0, 0x00, 0x86], // ldi rh 8600
        vec![0x40, 0xb0, 0x20, 0x9f], // ldi rs 9f20: the frame crosses pages
        vec![0x40, 0xb0, 0x10, 0x60], // ldi rs 6010: frame reaches a missing page in virtual mode
        vec![0x2b, 0x10, 0x00, 0x60], // load from read-protected/missing page
        vec![0x40, 0x01, 0x00, 0x60], // jmp to a page that is not executable
    ];
    let cls = |v1: u32, v2: u32| -> (u8, u8) {
        match (v1, v2) {
            (6, 0) => (0x3f, 0x00),            // 6000: missing
            (7, _) => (0x3f, 0x33),            // 7000: read only, user
            (5, 31) => (0x3f, 0x31 | 2),       // 5f80: read only
            (9, 30) => (0x3f, 0x3f),
            _ => (0x3f, 0x3f),
        }
    };
    let mut jobs = Vec::new();
    for cfg in 0..32u32 {
        for first in 0..al.len() {
            jobs.push((cfg, first));
        }
    }
    fn dfs(g: &mut Rig, s: &RState, left: usize, al: &[Vec<u8>], only: Option<usize>, r: &Report, prev: Option<(RState, RState)>) {
        for (i, ins) in al.iter().enumerate() {
            if only.is_some_and(|o| o != i) {
                continue;
            }
            let m = g.mem.mark();
            g.inject(s, ins);
            let entry = g.step(s);
            match entry {
                Err(d) => fail(r, "trap delivery / handler return", d),
                Ok(st) => {
                    // reth directly after a delivered trap restores the interrupted state
                    if let (Some((before, at_trap)), 4) = (&prev, i) {
                        // the injected reth must not overlay the frame
                        let clear = before.w[RS].wrapping_sub(s.pc) > 34;
                        if clear && at_trap == s && st.res.is_ok() && st.trapped.is_none() {
                            let mut want = *before;
                            want.fl &= !T;
                            want.pc = st.s.pc;
                            if want != st.s {
                                r.violation("reth does not restore the interrupted state", format!("interrupted {}\nrestored    {}", before.show(), st.s.show()));
                            }
                        }
                    }
                    if left > 1 && st.res.is_ok() && !st.loose && !r.stopped() {
                        // a refused reth has already consumed stack
                        let p = if i == 4 { None } else { st.trapped.map(|_| (*s, st.s)) };
                        dfs(g, &st.s, left - 1, al, None, r, p);
                    } else {
                        r.traces.fetch_add(1, Ordering::Relaxed);
                    }
                }
            }
            g.mem.undo(m);
            if r.stopped() {
                return;
            }
        }
    }
    par(r, &jobs, |&(cfg, first)| {
        let mut g = Rig::new();
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let mut s = base_state();
        world(&mut g.mem, s.w[RP], &cls);
        s.pc = 0x8100;
        s.fl = (cfg & 1) as u8 * U | (cfg >> 1 & 1) as u8 * V | (cfg >> 2 & 1) as u8 * T | 0x90;
        s.w[RH] = match cfg >> 3 {
            0 => 0,
            1 => 0x8500,
            2 => 0x6000,
            _ => 0x8500,
        };
        if cfg >> 3 == 3 {
            s.w[RS] = 0x6011;
        }
        dfs(&mut g, &s, depth, &al, Some(first), r, None);
        flush_paths(r, &g);
    });
    // trap, then reth, for each way to trap
    let traps: Vec<(&str, Vec<u8>, u16)> = vec![
        ("halt", vec![0x0a], 0x8100),
        ("syscall", vec![0x0c], 0x8100),
        ("null", vec![0], 0x8100),
        ("unassigned", vec![0xfe], 0x80ff),
        ("padding", vec![0x41, 0x12, 0x31], 0x8100),
        ("zero division byte", vec![0x51, 0x12, 0x10], 0x8100),
        ("zero division wide", vec![0x52, 0x12, 0x10], 0x817e),
        ("missing page load", vec![0x2c, 0x10, 0x00, 0x60], 0x8100),
        ("missing page jump target fetch", vec![], 0x6000),
        ("not executable fetch", vec![], 0x7000),
        ("fetch crossing into a missing page", vec![0x40], 0x5fff),
        ("store to read-only", vec![0x27, 0x00, 0x00, 0x70], 0x8100),
        ("privileged in user mode", vec![0x10], 0x8100),
        ("rp in user mode", vec![0x22, 0xe0], 0x8100),
        ("reth without trap flag", vec![0x0d], 0x8100),
    ];
    let mut stacks: Vec<u16> = vec![0, 1, 2, 33, 34, 35, 36, 0x10, 0x9fff, 0xa000, 0xa001, 0xa010, 0xa022, 0xffff, 0xfffe, 0xfff0];
    stacks.extend((0..24).map(|i| 0x9f80 + i * 2 - 3));
    let jobs2: Vec<usize> = (0..traps.len()).collect();
    par(r, &jobs2, |&ti| {
        let (name, code, pc) = &traps[ti];
        let mut g = Rig::new();
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let mut s0 = base_state();
        world(&mut g.mem, s0.w[RP], &cls);
        s0.pc = *pc;
        s0.w[RH] = 0x8500;
        for fl in 0..=255u8 {
            for &rs in &stacks {
                if fl & T != 0 && code == &[0x0d] {
                    continue;
                }
                let mut s = s0;
                s.fl = fl;
                s.w[RS] = rs;
                g.inject(&s, code);
                match g.step(&s) {
                    Err(d) => fail(r, &format!("trap delivery: {name}"), d),
                    Ok(st) => {
                        if st.trapped.is_some() && st.res.is_ok() && !st.loose {
                            let n = st.s;
                            if n.fl & U != 0 || n.fl & T == 0 || n.pc != 0x8500 || n.w[1] != st.trapped.unwrap() as u16 || n.w[RS] != rs.wrapping_sub(34) {
                                r.violation(format!("entry to the trap handler: {name}"), n.show());
                            }
                            let handler_pc = n.pc;
                            g.inject(&n, &[0x0d]);
                            match g.step(&n) {
                                Err(d) => fail(r, &format!("reth after {name}"), d),
                                Ok(b) if b.trapped.is_none() => {
                                    let mut want = s;
                                    want.fl &= !T;
                                    let done = b.s.pc.wrapping_sub(s.pc);
                                    want.pc = b.s.pc;
                                    // an overlap of the frame with the injected reth is not of interest
                                    let top = rs.wrapping_sub(handler_pc);
                                    if top > 34 && (b.s != want || done > 4) {
                                        r.violation(format!("reth after {name} does not restore the interrupted state"), format!("interrupted {}\nrestored    {}", s.show(), b.s.show()));
                                    }
                                }
                                Ok(_) => (),
                            }
                        }
                    }
                }
                g.mem.undo(0);
                r.traces.fetch_add(1, Ordering::Relaxed);
                if r.stopped() {
                    return;
                }
            }
        }
        flush_paths(r, &g);
    });
    r.bound("reth: all 2^16 pairs of flags before and flags in the frame x 3 kinds of frame");
    let all: Vec<u8> = (0..=255).collect();
    par(r, &all, |&fl| {
        let mut g = Rig::new();
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let mut s0 = base_state();
        world(&mut g.mem, s0.w[RP], &cls);
        s0.pc = 0x8100;
        s0.fl = fl;
        s0.w[RH] = 0x8500;
        for saved in 0..=255u8 {
            for kind in 0..3u16 {
                let mut s = s0;
                s.w[RS] = [0x9000, 0x9f6f, 0x7000][kind as usize];
                // 15 registers (last one first), program counter, flags
                for i in 0..34u16 {
                    let v = match i {
                        32 => saved,
                        33 => 0,
                        30 => 0x34,
                        31 => 0x82,
                        // the page table stays; the stack pointer as it was when it was pushed
                        2 => s.w[RP] as u8,
                        3 => (s.w[RP] >> 8) as u8,
                        8 => (s.w[RS] + 10) as u8,
                        9 => ((s.w[RS] + 10) >> 8) as u8,
                        _ => (i as u8).wrapping_mul(7) ^ 0x9e,
                    };
                    let a = s.w[RS] + i;
                    let p = if s.virt() { scr(a as u32 >> 7) + (a as u32 & 0x7f) } else { a as u32 };
                    g.mem.set(p, v);
                }
                g.inject(&s, &[0x0d]);
                match g.step(&s) {
                    Err(d) => fail(r, "handler return", d),
                    Ok(st) => {
                        r.count(if st.trapped.is_none() && st.res.is_ok() { "reth completed" } else { "reth trapped" }, 1);
                        if fl & T != 0 && st.trapped.is_none() && (st.s.fl != saved & !T || st.s.pc != 0x8234) {
                            r.violation("reth does not restore the frame", format!("flags {fl:02x}, frame flags {saved:02x}: {}", st.s.show()));
                        }
                    }
                }
                g.mem.undo(0);
                r.traces.fetch_add(1, Ordering::Relaxed);
                if r.stopped() {
                    return;
                }
            }
        }
        flush_paths(r, &g);
    });
    r.bound("traps at page borders: all pairs of 8 page conditions (accessible; missing, unreadable, write-protected, not executable, supervisor-only at level 2; missing or supervisor-only at level 1) on both sides of 3 page borders (inside a block, between blocks, end of the address space) x all opcodes fetched across the border and 12 memory instructions accessing it, with a handler");
    page_pairs(r, &all, false, &[0x8500]);
    page_pairs(r, &DATA_OPS, true, &[0x8500, 0x6000]);
    r.sample("user, virtual, handler 8500: load from missing page -> level-2 page fault in r1, frame of 34 bytes, reth restores mode and flags");
    r.sample("supervisor, frame reaching a missing page -> machine stops with the page fault");
}

fn c07(r: &Report) {
    r.bound(format!("every opcode with up to 12 operand patterns (all mnemonics, rp/rh operands, stack and address registers) injected in all sequences of length {}, from 4 user-mode configurations; plus a single-step sweep of all 2^16 operand byte pairs for all opcodes; every physical access logged", if r.thorough { "3" } else { "3 (virtual memory on) and 2 (the other configurations), the last instruction from those that trap, are privileged, access memory or write registers" }));
    r.assume("the access log is the memory interface of the processor (every physical byte access)");
    // user pages: block 8; supervisor-only: 9 (level 2), a (level 1); missing: b; user read-only: c, exec-only d
    let cls = |v1: u32, _v2: u32| -> (u8, u8) {
        match v1 {
            8 => (0x3f, 0x3f),
            9 => (0x3f, 0x1f),
            0xa => (0x1f, 0x3f),
            0xb => (0x3f, 0x3e),
            0xc => (0x23, 0x33),
            0xd => (0x39, 0x29),
            0xe => (0x35, 0x35),
            _ => (0x1f, 0x1f),
        }
    };
    let allowed = |va_page: u32| matches!(va_page / 32, 8 | 0xc | 0xd | 0xe);
    let mut al: Vec<Vec<u8>> = Vec::new();
    for op in 0..=255u8 {
        if shape(op) == Shape::Bad {
            if op == 0 || op == 0xff || op == 0x15 {
                al.push(vec![op, 0, 0, 0]);
            }
            continue;
        }
        let pats: &[[u8; 3]] = match shape(op) {
            Shape::None => &[[0, 0, 0]],
            // targets in each kind of page
            Shape::ImmW => &[[0x00, 0x81, 0], [0x00, 0x91, 0], [0x00, 0xa1, 0], [0x00, 0xb1, 0], [0xff, 0xdf, 0], [0xff, 0x8f, 0]],
            Shape::ImmB => &[[0, 0, 0], [0xfe, 0, 0]],
            Shape::LdiW => &[
                [0x10, 0, 0x91], [0x20, 0, 0x81], [0xb0, 0x01, 0x90], [0xb0, 0xff, 0x8f], [0xb0, 0x00, 0xc1], [0xe0, 0, 0x50], [0xf0, 0, 0x81],
                [0x01, 0, 0x91], [0x01, 0, 0x82], [0x21, 0, 0], [0xe1, 0, 0], [0xc0, 0x00, 0x81],
            ],
            Shape::Regs("b") | Shape::Regs("w") => &[[0x10, 0, 0], [0x20, 0, 0], [0xb0, 0, 0], [0xc0, 0, 0], [0xe0, 0, 0], [0xf0, 0, 0]],
            _ => &[
                [0x12, 0x30, 0x00], [0x31, 0x20, 0x00], [0x40, 0x00, 0x91], [0x04, 0x00, 0xa1], [0x22, 0x00, 0x00], [0xbb, 0x10, 0x00],
                [0x1e, 0x10, 0x00], [0xe1, 0x20, 0x00], [0xf2, 0xf0, 0x00], [0x12, 0xe0, 0x00], [0x50, 0x00, 0x00], [0x05, 0x60, 0xc1],
            ],
        };
        for p in pats {
            al.push(vec![op, p[0], p[1], p[2]]);
        }
    }
    let start = |cfg: u32| {
        let mut s = base_state();
        s.fl = U | if cfg & 1 == 0 { V } else { 0 } | if cfg & 2 != 0 { T } else { 0 } | 0xa0;
        s.pc = 0x8100;
        s.w[1] = 0x8200;
        s.w[2] = 0x9200;
        s.w[3] = 0x0003;
        s.w[4] = 0xa210;
        s.w[5] = 0xc000;
        s.w[6] = 0xd010;
        s.w[RS] = 0x8f80;
        s.w[RL] = 0x9100;
        s.w[RP] = 0x4000;
        // stop at the first trap
        s.w[RH] = 0;
        s
    };
    let invariants = |g: &Rig, s: &RState, st: &Stepped, mark: usize, r: &Report, ins: &[u8]| {
        let n = &st.s;
        let case = || format!("instruction {ins:02x?}\nbefore {}\nafter  {} {:x?}", s.show(), n.show(), st.res);
        if st.res.is_ok() && n.fl & U == 0 {
            r.violation("user mode left without a trap", case());
        }
        if n.w[RP] != s.w[RP] || n.w[RH] != s.w[RH] || (n.fl ^ s.fl) & V != 0 {
            r.violation("user mode changed a privileged register or the virtual-memory flag", case());
        }
        let privileged = matches!(ins[0], 0x10..=0x14);
        if privileged && st.res == Ok(()) {
            r.violation("privileged instruction executed in user mode", case());
        }
        if s.fl & V != 0 {
            for (kind, a) in g
                .mem
                .reads
                .iter()
                .map(|&a| ("read", a))
                .chain(g.mem.journal[mark..].iter().map(|&(a, _)| ("write", a)))
            {
                let table = (0x4000..0x4040).contains(&a) || (0x20000..0x20800).contains(&a);
                let page = (0..512u32).find(|&p| scr(p) == a & !0x7f);
                let ok = table && (kind == "read" || a % 4 == 0) || page.is_some_and(allowed);
                if !ok {
                    r.violation(format!("user-mode {kind} of physical {a:06x}, which is not user-accessible"), case());
                }
                if let Some(p) = page {
                    // the kind of access is permitted by both levels
                    let need = if kind == "write" { 4 } else { 2 | 8 };
                    let (x, y) = (cls_flags(p / 32).0, cls_flags(p / 32).1);
                    if ok && !table && x & y & need == 0 {
                        r.violation(format!("user-mode {kind} of physical {a:06x} without permission"), case());
                    }
                }
            }
        } else if privileged && !g.mem.journal[mark..].is_empty() {
            r.violation("privileged instruction wrote memory in user mode", case());
        }
    };
    fn cls_flags(v1: u32) -> (u8, u8) {
        match v1 {
            8 => (0x3f, 0x3f),
            0xc => (0x23, 0x33),
            0xd => (0x39, 0x29),
            0xe => (0x35, 0x35),
            _ => (0, 0),
        }
    }
    type Inv<'a> = &'a (dyn Fn(&Rig, &RState, &Stepped, usize, &Report, &[u8]) + Sync);
    fn dfs(g: &mut Rig, s: &RState, left: usize, al: &[Vec<u8>], only: Option<usize>, r: &Report, inv: Inv) {
        for (i, ins) in al.iter().enumerate() {
            if only.is_some_and(|o| o != i) {
                continue;
            }
            if left == 1 && only.is_none() && !r.thorough && !matches!(ins[0], 0x0b..=0x14 | 0x22 | 0x24 | 0x25 | 0x27 | 0x2b | 0x40 | 0x44) {
                continue;
            }
            let m0 = g.mem.mark();
            g.inject(s, ins);
            let m = g.mem.mark();
            g.mem.reads.clear();
            let raw = g.raw(s);
            match raw {
                // panics belong to C11
                Err(_) => (),
                Ok((n, res)) => {
                    g.causes[res.err().map(|c| c as usize).unwrap_or(32)] += 1;
                    let st = Stepped { s: n, res, trapped: None, reads: vec![], tables: vec![], loose: false };
                    inv(g, s, &st, m, r, ins);
                    if left > 1 && res.is_ok() && !r.stopped() {
                        dfs(g, &n, left - 1, al, None, r, inv);
                    } else {
                        r.traces.fetch_add(1, Ordering::Relaxed);
                    }
                }
            }
            g.mem.undo(m0);
            if r.stopped() {
                return;
            }
        }
    }
    let mut jobs = Vec::new();
    for cfg in 0..4 {
        for i in 0..al.len() {
            jobs.push((cfg, i));
        }
    }
    par(r, &jobs, |&(cfg, i)| {
        let mut g = Rig::new();
        world(&mut g.mem, 0x4000, &cls);
        g.mem.log = true;
        let depth = if r.thorough || cfg == 0 { 3 } else { 2 };
        dfs(&mut g, &start(cfg), depth, &al, Some(i), r, &invariants);
        flush_paths(r, &g);
    });
    // all operand bytes
    let sweep: Vec<(u32, u8)> = (0..4).flat_map(|c| (0..=255u8).map(move |o| (c, o))).collect();
    par(r, &sweep, |&(cfg, op)| {
        let mut g = Rig::new();
        world(&mut g.mem, 0x4000, &cls);
        g.mem.log = true;
        let mut s = start(cfg);
        // registers naming every kind of page
        for (i, v) in [0x8000u16, 0x9000, 0xa001, 0xb002, 0xc003, 0xd004, 0xe005, 0x4006, 0x8fff, 0x9fff].iter().enumerate() {
            s.w[i + 1] = *v;
        }
        s.w[RS] = 0xa000;
        for b1 in 0..=255u8 {
            for b2 in 0..=255u8 {
                let ins = [op, b1, b2, 0x80];
                g.inject(&s, &ins);
                let m = g.mem.mark();
                g.mem.reads.clear();
                if let Ok((n, res)) = g.raw(&s) {
                    g.causes[res.err().map(|c| c as usize).unwrap_or(32)] += 1;
                    let st = Stepped { s: n, res, trapped: None, reads: vec![], tables: vec![], loose: false };
                    invariants(&g, &s, &st, m, r, &ins);
                    // privileged instructions and registers: illegal operation
                    if matches!(op, 0x10..=0x14) && res != Err(ILL_OP) && !(op >= 0x13 && res == Err(INVALID)) {
                        r.violation("privileged instruction in user mode is not an illegal operation", format!("{ins:02x?} {res:x?}"));
                    }
                }
                g.mem.undo(0);
                if r.stopped() {
                    return;
                }
            }
        }
        flush(r, &g);
    });
    r.sample("user store through a register into a supervisor-only page -> illegal operation, no access");
    r.sample("user pload with registers addressing the page table -> illegal operation, no access");
}

/// Access kinds driven through instructions
fn access_code(kind: u8) -> [u8; 4] {
    match kind {
        0 => [0x2b, 0x12, 0, 0], // load r1l, [r2+0]
        1 => [0x27, 0x23, 0, 0], // store [r2+0], r2l
        _ => [0x20, 0, 0, 0],    // fetch of a nop at r2
    }
}

fn c08(r: &Report) {
    r.bound("64x64 flag bytes of both levels (all combinations of present, read, write, execute, dirty, user) x 4 accesses x user/supervisor x 6 addresses; all 512 virtual pages x 3 accesses x 2 offsets; 12 table pointers x 9 physical page numbers at both levels x reserved bits; wide accesses across page and block borders with 16x16 permission pairs; direct mode for all 65536 addresses");
    r.assume("dirty marking is not compared here (C09); physical memory is 16 MiB");
    let kinds = [0u8, 1, 2];
    // flags of both levels
    let jobs: Vec<(u8, u8)> = (0..64u8).flat_map(|a| [0u8, 1].map(|u| (a, u))).collect();
    par(r, &jobs, |&(f1, user)| {
        let mut g = Rig::new();
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let mut s = base_state();
        s.fl = V | user * U;
        for f2 in 0..64u8 {
            for va in [0x3000u16, 0x37ff, 0x3fff, 0x3080, 0x3f80, 0x3a5a] {
                world(&mut g.mem, s.w[RP], &|v1, _| if v1 == 3 { (f1, f2) } else { (0x3f, 0x3f) });
                g.mem.log = true;
                for k in kinds {
                    let mut t = s;
                    t.w[2] = va;
                    t.pc = 0x9000;
                    let code = access_code(k);
                    if k == 2 {
                        t.pc = va;
                        let p = scr(va as u32 >> 7) + (va as u32 & 0x7f);
                        g.mem.set(p, 0x20);
                    } else {
                        g.inject(&t, &code);
                    }
                    access(r, &mut g, &t, "access");
                    if r.stopped() {
                        return;
                    }
                }
            }
        }
        flush(r, &g);
    });
    // the same anywhere in the address space
    let jobs: Vec<(u8, u8)> = (0..64u8).flat_map(|a| [0u8, 1].map(|u| (a, u))).collect();
    r.bound("64x64 flag bytes of both levels x 3 accesses x user/supervisor on 8 pages of each of the 16 blocks");
    par(r, &jobs, |&(f1, user)| {
        let mut g = Rig::new();
        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
        let mut s = base_state();
        s.fl = V | user * U;
        world(&mut g.mem, s.w[RP], &|_, _| (0x3f, 0x3f));
        for v1 in 0..16u32 {
            for v2 in [0u32, 1, 7, 15, 16, 21, 30, 31] {
                let vpn = v1 * 32 + v2;
                for f2 in 0..64u8 {
                    for k in kinds {
                        let mut t = s;
                        t.w[2] = (vpn * 128 + 5 + 13 * (f2 as u32 % 8)) as u16;
                        t.pc = if v1 == 9 { 0xa000 } else { 0x9000 };
                        if k == 2 {
                            t.pc = t.w[2];
                        }
                        // the code has to be found while it is written: entries first
                        let p = scr(t.pc as u32 >> 7) + (t.pc as u32 & 0x7f);
                        for (i, &b) in if k == 2 { [0x20, 0, 0, 0] } else { access_code(k) }.iter().enumerate() {
                            g.mem.set(p + i as u32, b);
                        }
                        g.mem.set(s.w[RP] as u32 + 4 * v1, f1);
                        g.mem.set(0x20000 + v1 * 0x80 + 4 * v2, f2);
                        access(r, &mut g, &t, "access");
                        g.mem.undo(0);
                        if r.stopped() {
                            return;
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    // every virtual page
    let jobs: Vec<u16> = (0..512u16).collect();
    par(r, &jobs, |&p| {
        thread_local!(static RIG: std::cell::RefCell<Option<Rig>> = const { std::cell::RefCell::new(None) });
        RIG.with(|c| {
            let mut c = c.borrow_mut();
            let g = c.get_or_insert_with(|| {
                let mut g = Rig::new();
                fill(&mut g.mem);
                world(&mut g.mem, 0x4000, &|_, _| (0x3f, 0x3f));
                g.mem.log = true;
                g
            });
            g.steps = 0;
            g.seen = 0;
            g.causes = [0; 33];
            g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
            for off in [0u16, 0x7f] {
                for k in kinds {
                    let mut t = base_state();
                    t.fl = V | U;
                    t.w[2] = p * 128 + off;
                    t.pc = if p == 0x9000 / 128 { 0xa000 } else { 0x9000 };
                    if k == 2 {
                        t.pc = t.w[2];
                        g.inject(&t, &[0x20]);
                    } else {
                        g.inject(&t, &access_code(k));
                    }
                    access(r, g, &t, "page selection");
                }
            }
            flush(r, g);
        });
    });
    // table pointers and physical page numbers
    let rps = [0u16, 1, 2, 3, 0x7f, 0x80, 0x4000, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff];
    let ppns = [0u32, 1, 2, 0x1ff, 0x200, 0xffff, 0x10000, 0x1fffe, 0x1ffff];
    let mut jobs = Vec::new();
    for rp in rps {
        for p1 in ppns {
            jobs.push((rp, p1));
        }
    }
    par(r, &jobs, |&(rp, p1)| {
        let mut g = Rig::new();
        for p2 in ppns {
            for reserved in [0u32, 0x7fc0, 0x2a40, 0x5580] {
                for k in kinds {
                    for user in [0u8, 1] {
                        for bad in [0u32, 1, 2] {
                            let mut t = base_state();
                            t.fl = V | user * U;
                            t.w[RP] = rp;
                            t.w[2] = 0x5ab4;
                            t.pc = 0x9000;
                            // code: block 9, page 0, via its own tables at 0x300000
                            let put32 = |g: &mut Rig, a: u32, v: u32| {
                                for (i, b) in v.to_le_bytes().iter().enumerate() {
                                    g.mem.set(a + i as u32, *b);
                                }
                            };
                            let f1 = if bad == 1 { 0x3e } else { 0x3f };
                            let f2 = if bad == 2 { 0x1f } else { 0x3f };
                            put32(&mut g, 0x300000, 0x301000 << 8 | 0x3f);
                            put32(&mut g, (p1 << 7) + 4 * 0x15, p2 << 15 | reserved | f2);
                            put32(&mut g, rp as u32 + 4 * 5, p1 << 15 | reserved | f1);
                            put32(&mut g, rp as u32 + 4 * 9, 0x300000 << 8 | 0x3f);
                            g.dirty_blind = vec![rp as u32 + 20..rp as u32 + 21, (p1 << 7) + 0x54..(p1 << 7) + 0x55];
                            g.mem.log = true;
                            if k == 2 {
                                t.pc = t.w[2];
                            }
                            g.inject(&t, &access_code(k));
                            access(r, &mut g, &t, "table pointer and page number");
                            if r.stopped() {
                                return;
                            }
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    // wide accesses across borders
    let jobs: Vec<u8> = (0..16).collect();
    par(r, &jobs, |&x| {
        let mut g = Rig::new();
        let perms = |n: u8| 0x30 | (n & 7) << 1 | (n >> 3);
        for y in 0..16u8 {
            for va in [0x37ffu16, 0x3fff, 0xffff] {
                for op in [0x28u8, 0x2c, 0x22, 0x24] {
                    for user in [0u8, 1] {
                        let mut t = base_state();
                        t.fl = V | user * U;
                        world(&mut g.mem, t.w[RP], &|v1, v2| {
                            let n = v1 * 32 + v2;
                            if n == va as u32 >> 7 {
                                (0x3f, perms(x))
                            } else if n == va.wrapping_add(1) as u32 >> 7 {
                                (0x3f, perms(y))
                            } else {
                                (0x3f, 0x3f)
                            }
                        });
                        g.dirty_blind = vec![0x20000..0x21000, 0x4000..0x4040];
                        g.mem.log = true;
                        t.w[2] = va;
                        t.pc = 0x9000;
                        t.w[RS] = if op == 0x22 { va.wrapping_add(2) } else { va };
                        let code: [u8; 4] = match op {
                            0x28 => [op, 0x23, 0, 0],
                            0x2c => [op, 0x12, 0, 0],
                            _ => [op, 0x30, 0, 0],
                        };
                        g.inject(&t, &code);
                        access(r, &mut g, &t, "wide access across a page border");
                        if r.stopped() {
                            return;
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    // direct mode
    let mut g = Rig::new();
    fill(&mut g.mem);
    for a in 0..=0xffffu16 {
        for k in kinds {
            let mut t = base_state();
            t.fl = if a & 1 == 0 { U } else { 0 };
            t.w[2] = a;
            t.pc = if a < 0x9000 || a > 0x9010 { 0x9000 } else { 0xa000 };
            if k == 2 {
                t.pc = a;
            }
            g.inject(&t, &access_code(k));
            access(r, &mut g, &t, "direct mode");
            if r.stopped() {
                break;
            }
        }
    }
    flush(r, &g);
    r.sample("level-1 entry supervisor-only and write-protected, user store -> illegal operation");
    r.sample("rp=ffff, page numbers 1ffff: the access goes to fffff..");
}
/// step, undo, and check that refused accesses touch no data
fn access(r: &Report, g: &mut Rig, t: &RState, what: &str) {
    let m = g.mem.mark();
    match g.step(t) {
        Err(d) => fail(r, what, d),
        Ok(st) => {
            let _ = (st, m);
        }
    }
    g.mem.undo(0);
}

fn c09(r: &Report) {
    let depth = if r.thorough { 6 } else { 5 };
    r.bound(format!("64x64 flag bytes of both levels x (load, store, fetch, push, pop, wide store across pages) x user/supervisor x reserved bits; all sequences of {depth} accesses from an alphabet of 11 over pages sharing a level-1 entry, a level-2 table or neither, from 4 initial dirty states"));
    r.assume("page tables are not themselves mapped to the accessed pages");
    let jobs: Vec<(u8, u8)> = (0..64u8).flat_map(|a| [0u8, 1].map(|u| (a, u))).collect();
    let tables = |a: u32| (0x4000..0x4040).contains(&a) || (0x20000..0x20800).contains(&a);
    // explicit statement on top of the comparison: only the dirty bit of entries may change
    let only_dirty = |g: &Rig, mark: usize, r: &Report, t: &RState| {
        for &(a, old) in &g.mem.journal[mark..] {
            if tables(a) {
                let now = g.mem.d[a as usize];
                if a % 4 != 0 || now != old | 0x10 {
                    r.violation("a page-table byte changed other than by dirty marking", format!("{a:06x}: {old:02x} -> {now:02x}\n{}", t.show()));
                }
            }
        }
    };
    let acc: Vec<(&str, [u8; 4])> = vec![
        ("load", [0x2b, 0x12, 0, 0]),
        ("store", [0x27, 0x23, 0, 0]),
        ("wide store", [0x28, 0x23, 0, 0]),
        ("wide load", [0x2c, 0x12, 0, 0]),
        ("push", [0x22, 0x30, 0, 0]),
        ("pop", [0x24, 0x30, 0, 0]),
        ("fetch", [0x20, 0, 0, 0]),
    ];
    par(r, &jobs, |&(f1, user)| {
        let mut g = Rig::new();
        for f2 in 0..64u8 {
            for res in [0u32, 0x7fc0] {
                for (name, code) in &acc {
                    for va in [0x3a00u16, 0x3a7f] {
                        let mut t = base_state();
                        t.fl = V | user * U;
                        world(&mut g.mem, t.w[RP], &|v1, v2| match (v1, v2) {
                            (3, 0x14) => (f1, f2),
                            (3, _) => (f1, 0x2f),
                            _ => (0x2f, 0x2f),
                        });
                        for a in [0x400cu32, 0x20180 + 4 * 0x14] {
                            let e = u32::from_le_bytes(g.mem.d[a as usize..a as usize + 4].try_into().unwrap());
                            g.mem.poke32(a, e | res);
                        }
                        t.w[2] = va;
                        t.w[RS] = if *name == "push" { va.wrapping_add(2) } else { va };
                        t.pc = if *name == "fetch" { va } else { 0x9000 };
                        g.inject(&t, code);
                        let m = g.mem.mark();
                        match g.step(&t) {
                            Err(d) => fail(r, &format!("page tables after {name}"), d),
                            Ok(_) => only_dirty(&g, m, r, &t),
                        }
                        g.mem.undo(0);
                        if r.stopped() {
                            return;
                        }
                    }
                }
            }
        }
        flush(r, &g);
    });
    // sequences
    let al: Vec<(u16, [u8; 4])> = vec![
        (0x3a00, [0x27, 0x23, 0, 0]),
        (0x3a80, [0x27, 0x23, 0, 0]),
        (0x3aff, [0x28, 0x23, 0, 0]),
        (0x4a00, [0x27, 0x23, 0, 0]),
        (0x3a00, [0x2b, 0x12, 0, 0]),
        (0x4a00, [0x2c, 0x12, 0, 0]),
        (0x3b00, [0x27, 0x23, 0, 0]), // read-only page
        (0x5a00, [0x27, 0x23, 0, 0]), // level-1 read-only
        (0x3b80, [0x27, 0x23, 0, 0]), // missing
        (0x3c00, [0x27, 0x23, 0, 0]), // supervisor
        (0x3fff, [0x28, 0x23, 0, 0]), // across level-1 entries
    ];
    let jobs: Vec<(u8, usize)> = (0..8u8).flat_map(|i| (0..11usize).map(move |a| (i, a))).collect();
    par(r, &jobs, |&(init, first)| {
        let mut g = Rig::new();
        let d1 = (init & 1) * 0x10;
        let d2 = (init >> 1 & 1) * 0x10;
        let user = init >> 2 & 1;
        world(&mut g.mem, 0x4000, &|v1, v2| match (v1, v2) {
            (3, 0x16) => (0x2f | d1, 0x2b),
            (3, 0x17) => (0x2f | d1, 0x2e),
            (3, 0x18) => (0x2f | d1, 0x0f),
            (5, _) => (0x2b, 0x2f),
            (9, _) => (0x3f, 0x3f),
            _ => (0x2f | d1, 0x2f | d2),
        });
        let mut idx = vec![first];
        // iterative enumeration of all sequences with this first element
        let mut marks = vec![];
        loop {
            // execute the last element
            let (va, code) = al[*idx.last().unwrap()];
            let mut t = base_state();
            t.fl = V | user * U;
            t.w[2] = va;
            marks.push(g.mem.mark());
            g.inject(&t, &code);
            let m = g.mem.mark();
            match g.step(&t) {
                Err(d) => fail(r, &format!("page tables after access sequence {idx:?}"), d),
                Ok(_) => only_dirty(&g, m, r, &t),
            }
            if r.stopped() {
                return;
            }
            if idx.len() < depth {
                idx.push(0);
                continue;
            }
            r.traces.fetch_add(1, Ordering::Relaxed);
            // backtrack
            loop {
                g.mem.undo(marks.pop().unwrap());
                let last = idx.pop().unwrap();
                if idx.is_empty() {
                    flush_paths(r, &g);
                    return;
                }
                if last + 1 < al.len() {
                    idx.push(last + 1);
                    break;
                }
            }
        }
    });
    r.sample("store with level 1 dirty, level 2 clean: dirty set in the level-2 entry only");
    r.sample("wide store whose second page is missing: only the first page's entries become dirty");
}

struct NullIo;
impl telda2::mem::Io for NullIo {
    fn read(&mut self, _: u8) -> u8 {
        0
    }
    fn write(&mut self, _: u8, _: u8) {}
}

fn c11(r: &Report) {
    r.bound("every opcode x 256 first operand bytes x 6 second operand bytes x 6 (thorough: 10) program counters x 8 register assignments x 16 modes (user, virtual, trap, handler), one step each on 24-bit memory; every opcode at every program counter 0..ffff; the memory map implementation with page tables reaching ffffff; raw images: all 65536 two-byte images and 256 one-instruction images run for up to 200 steps, and through `t -r` images of 20 lengths up to the ROM size");
    r.assume("no panic = the step returns; a watchdog treats 20 s without progress as a hang");
    let all_pcs = [0u16, 0x80, 0x9000, 0xfffd, 0xfffe, 0xffff, 0x7f, 0x7ffe, 0x8000, 0xfffc];
    let pcs = &all_pcs[..if r.thorough { 10 } else { 6 }];
    let asg: Vec<[u16; 5]> = vec![
        // value of all registers, rs, rp, rh, salt
        [0, 0, 0, 0, 0],
        [0xffff, 0xffff, 0xffff, 0xffff, 0],
        [0x8000, 1, 0x8000, 0x7fff, 1],
        [0x7fff, 0x7fff, 0x7fff, 0x8000, 3],
        [0x0001, 0x21, 0xfffd, 0x0001, 5],
        [0x1234, 0x8001, 0x4000, 0x8080, 0x1111],
        [0xff80, 0xfffe, 0xfffe, 0x0010, 0x101],
        [0x00ff, 2, 1, 0xfffe, 0x2222],
    ];
    let jobs: Vec<(u8, usize)> = (0..=255u8).flat_map(|o| (0..asg.len()).map(move |a| (o, a))).collect();
    let wd = Watchdog::start_static(r);
    let mut proto = Mem::new();
    fill(&mut proto);
    let proto = &proto.d;
    par(r, &jobs, |&(op, ai)| {
        wd.run(|| format!("opcode {op:02x} assignment {ai}"), || {
            thread_local!(static RIG: std::cell::RefCell<Option<Rig>> = const { std::cell::RefCell::new(None) });
            RIG.with(|c| {
                let mut c = c.borrow_mut();
                let g = c.get_or_insert_with(|| {
                    let mut g = Rig::new();
                    g.mem.d.copy_from_slice(proto);
                    scrambled(&mut g.mem, 0x4000, 0x2f);
                    g
                });
                let a = asg[ai];
                let (s0, n0) = (g.steps, g.seen);
                for b1 in 0..=255u8 {
                    for b2 in [0u8, 0x10, 0x21, 0xe0, 0xff, 0x80] {
                        for &pc in pcs {
                            for mode in 0..16u8 {
                                let mut s = RState { pc, ..Default::default() };
                                for i in 1..16 {
                                    s.w[i] = a[0].wrapping_add((i as u16).wrapping_mul(a[4]));
                                }
                                s.w[RS] = a[1];
                                s.w[RP] = if mode & 8 != 0 { 0x4000 } else { a[2] };
                                s.w[RH] = if mode & 4 != 0 { a[3] } else { 0 };
                                s.fl = (mode & 1) * U | (mode >> 1 & 1) * V | (mode >> 3 & 1) * T;
                                g.inject(&s, &[op, b1, b2, b1 ^ b2]);
                                match g.raw(&s) {
                                    Ok((_, res)) => g.causes[res.err().map(|c| c as usize).unwrap_or(32)] += 1,
                                    Err(p) => r.violation(format!("the emulator panicked: {p}"), format!("{} bytes {op:02x} {b1:02x} {b2:02x}", s.show())),
                                }
                                g.mem.undo(0);
                            }
                        }
                    }
                    if r.stopped() {
                        return;
                    }
                }
                r.add(g.seen - n0, g.steps - s0, g.steps - s0);
                g.report_causes(r);
                g.causes = [0; 33];
            })
        })
    });
    // every opcode at every program counter
    let jobs: Vec<u8> = (0..=255).collect();
    par(r, &jobs, |&op| {
        let mut g = Rig::new();
        let mut s = base_state();
        for pc in 0..=0xffffu16 {
            for rs in [0u16, 1, 0xffff] {
                s.pc = pc;
                s.w[RS] = rs;
                g.inject(&s, &[op, 0x10, 0x10, 0xff]);
                if let Err(p) = g.raw(&s) {
                    return r.violation(format!("the emulator panicked: {p}"), format!("{} opcode {op:02x}", s.show()));
                }
                g.mem.undo(0);
            }
        }
        r.add(g.seen, g.steps, g.steps);
    });
    // the real memory map with tables at its far end
    use telda2::mem::{LazyMain, MainMemory};
    let jobs: Vec<u8> = (0..=255).collect();
    par(r, &jobs, |&op| {
        let res = guard(|| {
            let mut m = LazyMain::new(NullIo);
            let mut cpu = telda2::blf4::Blf4::new();
            // tables at fffff80: every entry names the last page
            for a in 0..0x80u32 {
                m.write(0xffff80 + a, [0xff, 0xff, 0xff, 0xff][a as usize % 4]);
            }
            for a in 0..64u32 {
                m.write(0xc000 + a, 0xff);
            }
            for rp in [0xc000u16, 0, 0x7fff, 0xffff, 0xfffd] {
                for fl in [V, V | U, 0, V | T] {
                    for b1 in [0u8, 0x12, 0xe0, 0xff] {
                        for rs in [0u16, 1, 0x7f, 0x80, 0x8000, 0xffff] {
                            let mut s = base_state();
                            s.w[RP] = rp;
                            s.w[RS] = rs;
                            s.fl = fl;
                            s.pc = 0x9000;
                            for (i, b) in [op, b1, 0x20, 0x80].iter().enumerate() {
                                m.write(0x9000 + i as u32, *b);
                                m.write(0xffff80 + i as u32, *b);
                            }
                            // restore the entries the code overlays
                            put(&mut cpu, &s);
                            for _ in 0..3 {
                                let _ = cpu.execute_instruction(&mut m);
                            }
                            for i in 0..4 {
                                m.write(0xffff80 + i, 0xff);
                            }
                        }
                    }
                }
            }
        });
        if let Err(p) = res {
            r.violation(format!("the emulator panicked: {p}"), format!("opcode {op:02x} on the real memory map"));
        }
        r.add(480, 1440, 0);
    });
    // raw images
    let jobs: Vec<u8> = (0..=255).collect();
    par(r, &jobs, |&b0| {
        wd.run(|| format!("raw image {b0:02x} .."), || {
            let mut m = LazyMain::new(NullIo);
            for b1 in 0..=255u8 {
                let res = guard(|| {
                    m = std::mem::replace(&mut m, LazyMain::new(NullIo)).with_rom(&[b0, b1]);
                    let mut machine = telda2::machine::Machine::new(std::mem::replace(&mut m, LazyMain::new(NullIo)), telda2::blf4::Blf4::new());
                    let mut n = 0;
                    while n < 200 && machine.execute_once().is_ok() {
                        n += 1;
                    }
                    n
                });
                match res {
                    Ok(n) => r.add(1, n, 0),
                    Err(p) => return r.violation(format!("the emulator panicked: {p}"), format!("raw image {b0:02x} {b1:02x}")),
                }
            }
        })
    });
    let scratch = mc::proc::Scratch::new("c11");
    let lens = [0usize, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 1000, 0x3fff, 0x4000, 0x7000, 0x7e00, 0x7eff, 0x7f00 - 129, 0x7f7e, 0x7f80 - 129, 0x7f7f, 0x7f80];
    let mut images: Vec<Vec<u8>> = Vec::new();
    for l in lens {
        if l <= telda2::mem::ROM_SIZE {
            images.push(vec![0x20; l]);
            let mut v = vec![0x20; l];
            if let Some(x) = v.last_mut() {
                *x = 0x0a;
            }
            images.push(v);
        }
    }
    for op in 0..=255u8 {
        images.push(vec![op, 0x12, 0x30, 0x00, 0x0a]);
    }
    let idx: Vec<usize> = (0..images.len()).collect();
    par(r, &idx, |&i| {
        let p = scratch.path(format!("img{i}"));
        std::fs::write(&p, &images[i]).unwrap();
        let o = mc::proc::run(std::process::Command::new(mc::proc::tool("t")).arg("-r").arg(&p), &[0u8; 4096], 10);
        let jumps = images[i].len() == 5 && matches!(images[i][0], 0x25 | 0x26 | 0x2f..=0x3a | 0x40);
        // reading past the end of standard input is outside of this property
        let stdin_end = String::from_utf8_lossy(&o.stderr).contains("stdin failed");
        if (o.panicked() && !stdin_end && !o.timeout) || (o.timeout && !jumps) {
            r.violation("t -r", format!("image {:02x?} ({} bytes): {}", &images[i][..images[i].len().min(8)], images[i].len(), o.text()));
        }
        r.add(1, 1, 0);
        let _ = std::fs::remove_file(&p);
    });
    drop(scratch);
    r.sample("rs=0001, push wide: wraps to ffff without panic");
    r.sample("raw image of exactly the ROM size");
}
