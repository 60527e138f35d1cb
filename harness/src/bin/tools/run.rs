//! C29: assemble, link and run
use super::*;

/// Library: kernel services, a mutual reference and equally named internal labels
pub const LIB: &str = "
.ref hook
.global putc
.global getc
.global twice
.global counter
.global back
.seg data
tmp:
counter:
.wide 0x0041
.seg rodata
loc0:
.byte 'L'
.seg text
putc:
ldi r1, 4
syscall
ret
getc:
ldi r1, 3
syscall
or r2l, r1l, r0b
ret
twice:
push rl
call putc
call putc
pop rl
ret
back:
push rl
load r2l, r0, loc0
call putc
call hook
pop rl
ret
";
pub const HOOK: &str = "
.global hook
.seg text
loc0:
halt
hook:
ldi r1, 4
ldi r2l, 'h'
syscall
ret 0
";
/// Archive members: `extra` needs `deep`; `unused` is never needed
pub const EXTRA: &str = "
.global extra
.ref deep
.seg data
.byte 0x55
.seg text
extra:
push rl
ldi r2, 0x45
ldi r1, 4
syscall
call deep
pop rl
ret
";
pub const DEEP: &str = "
.global deep
.seg rodata
msg:
.string \"dp\"
.seg text
deep:
load r2, r0, msg
ldi r1, 4
syscall
or r2l, r2h, r0b
syscall
ret
";
pub const UNUSED: &str = "
.global unused
.ref nowhere
.seg text
unused:
jmp nowhere
";

/// Program parts; `@` is replaced to keep labels apart
pub const PARTS: &[(&str, &str)] = &[
    ("write", ".seg text\nldi r1, 4\nldi r2, 0x4241\nsyscall\n"),
    ("library call", ".seg text\nldi r2l, 'b'\ncall twice\n"),
    ("string", ".seg rodata\ns@:\n.string \"h\\x01\\n!\"\n.byte 0\n.seg text\nldi r3, s@\nldi r4, 1\nl@:\nload r2l, r3, 0\nsub r0b, r2l, r0b\njez e@\ncall putc\nadd r3, r3, r4\njmp l@\ne@:\n"),
    ("echo", ".seg text\ncall getc\ncall putc\nldi r1, 3\nsyscall\nor r2l, r1l, r0b\ncall putc\n"),
    ("data", ".seg data\nv@:\n.wide 0x3130\n.seg text\nload r5, r0, v@\nldi r4, 0x102\nadd r5, r5, r4\nstore r0, v@, r5\nload r2, r0, v@\ncall putc\nor r2l, r2h, r0b\ncall putc\n"),
    ("counter", ".seg text\nload r2, r0, counter\ncall putc\nldi r3, 1\nadd r2, r2, r3\nstore r0, counter, r2\n"),
    ("heap", ".seg heap\nh@:\n.byte 'H'\n.seg text\nldi r6, h@\nldi r7, 0x101\nldi r2, 0x69\nstore r6, r7, r2l\nload r2l, r6, r0\ncall putc\nload r2l, r6, 0x101\ncall putc\n"),
    ("division", ".seg text\nldi r3, 1000\nldi r4, 7\ndiv r5, r6, r3, r4\nldi r7, 48\nadd r2, r6, r7\ncall putc\nor r2l, r5l, r0b\ncall putc\n"),
    ("stack", ".seg text\nldi r2, 0x5958\npush r2\nldi r3l, 'z'\npush r3l\ncall f@\ncall putc\njmp e@\nf@:\nload r2l, rs, 2\nadd r2l, r2l, r0b\nret 3\ne@:\n"),
    ("nested", ".seg text\ncall f@\njmp e@\nf@:\npush rl\nldi r2l, '('\ncall putc\ncall g@\nldi r2l, ')'\ncall putc\npop rl\nret\ng@:\npush rl\nldi r2l, '.'\ncall putc\npop rl\nret\ne@:\n"),
    ("loop", ".seg text\nldi r3, 4\nldi r4, 1\nl@:\nldi r2l, '*'\ncall putc\nsub r3, r3, r4\njnz l@\n"),
    ("comparisons", ".seg text\nldi r3, 0x8001\nldi r4, 0x7fff\nldi r2l, 'a'\nldi r5l, 1\nsub r0, r3, r4\njlt a@\nadd r2l, r2l, r5l\na@:\nsub r0, r3, r4\njbe b@\nldi r5h, 2\nadd r2l, r2l, r5h\nb@:\nsub r0, r4, r3\njge c@\nldi r5h, 4\nadd r2l, r2l, r5h\nc@:\nsub r0, r3, r3\njo d@\njle d@\nldi r5h, 8\nadd r2l, r2l, r5h\nd@:\ncall putc\n"),
    ("table", ".seg rodata\nt@:\n.wide a@\n.wide b@\n.seg text\nldi r6, t@\nload r5, r6, 2\njmp r5\na@:\nnull\nb@:\nldi r2l, 'T'\ncall putc\n"),
    ("mutual", ".seg text\ncall back\n"),
    ("archive", ".seg text\ncall extra\n"),
    ("same names", ".seg data\nloc0@:\n.byte 'q'\n.seg text\nload r2l, r0, loc0@\ncall putc\njmp tmp@\nnull\ntmp@:\n"),
    ("skip", ".seg text\njmp e@\n.seg rodata\n.byte 1\n.seg heap\n.byte 2\n.seg text\nnull\ne@:\n"),
    ("handler", ".seg text\nldi r1, 15\nldi r2, h@\nsyscall\njmp e@\nh@:\nldi r3l, 'a'\nadd r2l, r1l, r3l\nldi r1, 4\nsyscall\nldi r1, 15\nldi r2, 0\nsyscall\ne@:\n"),
    ("divide by zero", ".seg text\nldi r3, 5\ndiv r4, r5, r3, r0\n"),
    ("unknown syscall", ".seg text\nldi r1, 77\nsyscall\n"),
    ("store to text", ".seg text\nw@:\nldi r3l, 0\nstore r0, w@, r3l\n"),
    ("run data", ".seg data\nd@:\n.byte 10\n.seg text\njmp d@\n"),
    ("missing page", ".seg text\nldi r3, 0x6000\nload r2l, r3, 0\n"),
    ("read text", ".seg text\nw@:\nload r2l, r0, w@\n"),
    ("stack end", ".seg text\nldi r3, 0xfe80\nldi r2l, 's'\nstore r3, 0, r2l\nload r2h, r3, 0\nor r2l, r2h, r0b\ncall putc\nload r2l, r3, -1\n"),
    ("privileged", ".seg text\nldi r3, 0x1234\nor rh, r3, r0\n"),
    ("reth", ".seg text\nreth\n"),
    ("invalid", ".seg text\nnull\n"),
    ("halt", ".seg text\nhalt\n"),
    ("run stack", ".ref nowhere\n.seg text\njmp 0xfb00\n"),
];

pub fn program(parts: &[usize]) -> String {
    let mut t = String::from(".ref putc\n.ref getc\n.ref twice\n.ref counter\n.ref back\n.ref extra\n.global _start\n.seg text\n.entry\n_start:\n");
    // registers have no documented initial values
    for r in 1..=10 {
        t += &format!("ldi r{r}, {}\n", 0x1234 * r);
    }
    t += "ldi rl, 0x7654\nldi rf, 0x8765\n";
    for (n, &p) in parts.iter().enumerate() {
        t += &PARTS[p].1.replace('@', &format!("_{n}"));
    }
    t + ".seg text\nhalt\n"
}
pub const INPUT: &[u8] = b"\x00z\nq\xff7gJ..................................................";

/// Expected result of a run
pub fn expected(o: &Obj) -> Option<Vm> {
    let mut a = Vm::user(o, INPUT, 0x0100);
    a.run(20000);
    // registers have no documented initial values
    let mut b = Vm::user(o, INPUT, 0xabcd);
    b.run(20000);
    (a.open.is_none() && b.open.is_none() && !a.bus.dry.get() && a.out == b.out && a.ended == b.ended).then_some(a)
}

/// Compare a run of the emulator
fn ran(r: &Report, vm: &Vm, plain: &Out, what: &dyn Fn() -> String) -> bool {
    r.add(1, vm.steps, 1);
    if plain.stdout != vm.out {
        r.violation("output differs", format!("{}\nexpected {:?}\n{}", what(), text_of(&vm.out), plain.text()));
        return false;
    }
    let halts = vm.ended == Some(HALT);
    if if halts { !plain.ok() } else { !plain.failed() || plain.panicked() } {
        r.violation("exit status differs", format!("{}\nends with {}\n{}", what(), cause_name(vm.ended.unwrap()), plain.text()));
        return false;
    }
    if !halts {
        let e = text_of(&plain.stderr);
        let names: Vec<&str> = vm.also.iter().map(|x| cause_name(x.0)).collect();
        if !names.iter().any(|n| e.contains(n)) {
            r.violation("the message names another trap", format!("{}\nends with {names:?}\n{}", what(), plain.text()));
            return false;
        }
    }
    r.outcome(cause_name(vm.ended.unwrap()), 1);
    if r.want_sample() && vm.steps > 20 {
        r.sample(format!("{} steps, {} bytes of input, output {:?}, ends with {}: {}", vm.steps, vm.bus.pos.get(), text_of(&vm.out), cause_name(vm.ended.unwrap()), what().lines().next().unwrap_or("")));
    }
    true
}
/// Compare the termination point
fn termination(r: &Report, o: &Obj, vm: &Vm, out: &Out, what: &dyn Fn() -> String) -> bool {
    let bad = |m: &str| {
        r.violation(m, format!("{}\nends with {} at {:04x}, {:04x?}\n{}", what(), cause_name(vm.ended.unwrap()), vm.s.pc, vm.also, out.text()));
        false
    };
    r.add(1, 1, 1);
    if !out.ok() {
        return bad("exit status with the termination point requested");
    }
    let Some(tail) = out.stdout.strip_prefix(&vm.out[..]) else { return bad("output differs with the termination point requested") };
    let tail = text_of(tail);
    if tail.trim_end().contains('\n') {
        return bad("more than one line about the termination point");
    }
    // the trap
    let words: Vec<&str> = tail.split(|c: char| !c.is_ascii_alphanumeric()).collect();
    let cands: Vec<&(u8, Option<u16>)> = vm.also.iter().filter(|x| words.contains(&cause_name(x.0))).collect();
    if cands.is_empty() {
        return bad("the termination point names another trap");
    }
    // the symbol: the last of the form <symbol+offset>
    let place = tail.rfind('<').and_then(|i| tail[i + 1..].split_once('>')).and_then(|x| x.0.rsplit_once('+'));
    let Some((name, off)) = place else { return bad("no place of termination") };
    let Ok(off) = u32::from_str_radix(off, 16) else { return bad("no offset of termination") };
    for c in &cands {
        let Some(pc) = c.1 else { return true };
        let Some(base) = (pc as u32).checked_sub(off) else { continue };
        let before: Vec<&Sym> = o.syms.iter().filter(|s| !s.name.trim().is_empty() && s.ty != UNKNOWN && s.loc <= pc).collect();
        let nearest = before.iter().map(|s| s.loc).max();
        match nearest {
            // address 0 is what an unnamed place is relative to
            None | Some(0) if base == 0 && name.is_empty() => return true,
            None => (),
            Some(n) if n as u32 == base && before.iter().any(|s| s.loc == n && s.name.trim() == name.trim()) => return true,
            Some(_) => (),
        }
    }
    bad("the termination point is not relative to the nearest preceding symbol")
}

struct Libs {
    lib: Obj,
    hook: Obj,
    extra: Obj,
    deep: Obj,
    unused: Obj,
}

pub fn sequences(n: usize, depth: usize) -> Vec<Vec<usize>> {
    let mut all = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|s| (0..n).map(move |i| [&s[..], &[i]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

pub fn c29(r: &'static Report) {
    let sc = Scratch::new("c29");
    let libs = Libs { lib: reference(LIB), hook: reference(HOOK), extra: reference(EXTRA), deep: reference(DEEP), unused: reference(UNUSED) };
    for (n, t) in [("lib", LIB), ("hook", HOOK), ("extra", EXTRA), ("deep", DEEP), ("unused", UNUSED)] {
        std::fs::write(sc.path(format!("{n}.telda")), t).unwrap();
    }
    let o = call(&sc.0, "tc", &["lib.telda", "hook.telda", "extra.telda", "deep.telda", "unused.telda"], b"");
    let a = call(&sc.0, "tar", &["unused.to", "deep.to", "lib.to", "extra.to", "hook.to", "-o", "lib.savn"], b"");
    if !o.ok() || !a.ok() {
        return r.violation("the library cannot be built", format!("{}\n{}", o.text(), a.text()));
    }
    let n = PARTS.len();
    // a part after one that ends the program matters to the layout only: explored at depth 2
    let ends = |s: &[usize]| s[..s.len() - 1].iter().any(|&p| matches!(PARTS[p].0, "halt" | "unknown syscall"));
    let (all_routes, direct) = if r.thorough { (3, 3) } else { (2, 3) };
    let mut seqs = sequences(n, direct);
    seqs.retain(|s| s.len() < 3 || !ends(s));
    r.bound(format!("all programs of up to {direct} out of {n} parts (calls into other files and archive members, strings, input, data, heap, stack, tables of labels, loops, comparisons, error handlers, every trap) run directly and with the termination point; up to {all_routes} parts also through 9 other ways to link (archive, partial link, linked twice, stripped in three ways, alignments 1, 4, 256, other input orders, started by its script line)"));
    r.bound(format!("all raw images of up to {} out of 23 parts (ports, ROM and RAM accesses, virtual memory, traps and handlers, user mode, far memory)", if r.thorough { 4 } else { 3 }));
    r.assume("general registers have no documented initial value: programs whose result depends on them are left out");
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(40).collect();
    par(r, &chunks, |c| {
        let dir = thread_dir(&sc);
        for n in ["lib.to", "hook.to", "extra.to", "deep.to", "lib.savn"] {
            if !dir.join(n).exists() {
                std::fs::copy(sc.path(n), dir.join(n)).unwrap();
            }
        }
        let srcs: Vec<String> = c.iter().map(|s| program(s)).collect();
        let names: Vec<String> = (0..c.len()).map(|i| format!("m{i}.telda")).collect();
        for (n, s) in names.iter().zip(&srcs) {
            std::fs::write(dir.join(n), s).unwrap();
            let _ = std::fs::remove_file(dir.join(n).with_extension("to"));
        }
        let o = run(start(&dir, "tc").args(&names), b"", 60);
        if !o.ok() {
            return r.violation("valid programs are refused", o.text());
        }
        for (i, s) in c.iter().enumerate() {
            one(r, &dir, &libs, s, &srcs[i], &format!("m{i}.to"), s.len() <= all_routes);
            if r.stopped() {
                return;
            }
        }
    });
    symbols(r, &sc);
    raw(r, &sc);
    long(r, &sc);
}

/// Long runs and large programs
fn long(r: &Report, sc: &Scratch) {
    let t = r.thorough;
    let mut jobs: Vec<(String, String, Vec<u8>)> = Vec::new();
    let bytes = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 31 + i / 256 * 7 + i / 65536) as u8).collect() };
    // copies its input; r3: counter
    let mut sizes: Vec<usize> = (0..if t { 1100 } else { 300 }).collect();
    for b in [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65535] {
        sizes.extend((b - 2..=b + 2).filter(|&n| n < 65536));
    }
    for &n in &sizes {
        let copy = format!(".seg text\n.entry\nldi r3, {n}\nldi r4, 1\njmp test\nagain:\nldi r1, 3\nsyscall\nor r2l, r1l, r0b\nldi r1, 4\nsyscall\nsub r3, r3, r4\ntest:\nsub r0, r3, r0\njnz again\nhalt\n");
        let mut input = bytes(n);
        jobs.push((format!("copies {n} bytes"), copy.clone(), input.clone()));
        // lines, and none
        for (i, b) in input.iter_mut().enumerate() {
            *b = if i % 80 == 79 { b'\n' } else { b'a' + (i % 26) as u8 };
        }
        jobs.push((format!("copies {n} bytes of lines, more follow"), copy, [&input[..], b"rest"].concat()));
    }
    // recursion until the stack ends, and less deep
    for n in (0..if t { 700 } else { 200 }).chain([500, 1000, 10000]) {
        jobs.push((format!("recursion of depth {n}"), format!(".seg text\n.entry\nldi r6, 0\nldi r3, {n}\nldi r4, 1\ncall f\nldi r1, 4\nldi r2l, 'e'\nsyscall\nhalt\nf:\npush rl\npush r3\nsub r3, r3, r4\njlt over\ncall f\nover:\npop r5\nadd r6, r6, r5\nldi r1, 4\nor r2, r6, r0\nsyscall\npop rl\nret\n"), vec![]));
    }
    // loops around the borders of counters
    for n in [255u32, 256, 257, 4095, 32767, 32768, 65535, 0] {
        jobs.push((format!("a loop of {n} rounds"), format!(".seg text\n.entry\nldi r3, {n}\nldi r4, 1\nl:\nadd r5, r5, r3\nsub r3, r3, r4\njnz l\nldi r1, 4\nor r2, r5, r0\nsyscall\nor r2l, r2h, r0b\nsyscall\nhalt\n").replace(".entry\n", ".entry\nldi r5, 7\n"), vec![]));
    }
    // many instructions, with output on the way
    for outer in if t { vec![1u32, 6, 22, 86, 342] } else { vec![1, 6, 22, 86] } {
        jobs.push((format!("{outer} times a loop of 65536 rounds"), format!(".seg text\n.entry\nldi r4, 1\nldi r6, {outer}\nldi r1, 4\nldi r5, 7\no:\nldi r3, 0\nl:\nadd r5, r5, r3\nsub r3, r3, r4\njnz l\nor r2, r5, r0\nsyscall\nsub r6, r6, r4\njnz o\nor r2l, r5h, r0b\nsyscall\nhalt\n"), vec![]));
    }
    // programs and data over many pages; checked by a sum over all of it
    let mut lens: Vec<usize> = (1..if t { 500 } else { 120 }).map(|k| k * 128).collect();
    lens.extend((0..40).flat_map(|k| [k * 1600 + 127, k * 1600 + 1]));
    lens.retain(|&n| n < 63000);
    for n in lens {
        let fill: String = bytes(n).chunks(400).map(|c| format!(".string {}\n", c.iter().map(|b| format!("\\x{b:02x}")).collect::<String>())).collect();
        for (seg, name) in [("data", "data"), ("rodata", "constants"), ("heap", "heap")] {
            if seg != "data" && n % 3 != 0 {
                continue;
            }
            jobs.push((format!("sum over {n} bytes of {name}"), format!(".seg {seg}\nd:\n{fill}e:\n.byte 1\n.seg text\n.entry\nldi r3, d\nldi r4, e\nldi r5, 1\nldi r8, 0\nl:\nload r6b, r3, 0\nadd r8, r8, r8\nadd r8, r8, r6\nadd r3, r3, r5\nsub r0, r3, r4\njnz l\nldi r1, 4\nor r2, r8, r0\nsyscall\nor r2l, r2h, r0b\nsyscall\nhalt\n").replace("load r6b", "ldi r6, 0\nload r6b"), vec![]));
        }
        jobs.push((format!("runs through {n} instructions"), format!(".seg text\n.entry\n{}ldi r1, 4\nldi r2l, 'k'\nsyscall\njmp last\n{}last:\nldi r2l, 'l'\nsyscall\nhalt\n", "nop\n".repeat(n / 2), "null\n".repeat(n - n / 2)), vec![]));
    }
    r.bound(format!("copies of 0 to {} bytes and around powers of two up to 65535; recursion of every depth to {} and until the stack ends; loops of up to 65536 rounds, and nested of up to {} million instructions; programs and data of up to 63000 bytes in steps of a page: {} programs", if t { 1100 } else { 300 }, if t { 700 } else { 200 }, if t { 67 } else { 17 }, jobs.len()));
    let chunks: Vec<&[(String, String, Vec<u8>)]> = jobs.chunks(4).collect();
    par(r, &chunks, |c| {
        let dir = thread_dir(sc);
        for (name, src, input) in *c {
            let o = link(&[&reference(src)], Opts { align: 128, strip: false, exe: true, entry: None }).obj;
            std::fs::write(dir.join("long.telda"), src).unwrap();
            for (tool, args) in [("tc", vec!["long.telda"]), ("tl", vec!["-e", "-o", "long", "long.to"])] {
                let out = call(&dir, tool, &args, b"");
                if !out.ok() {
                    return r.violation("a valid program cannot be built", format!("{name}: {tool} {args:?}: {}", out.text()));
                }
            }
            // general registers have no documented initial values
            let mut vms: Vec<Vm> = [0x0100, 0xabcd].map(|g| Vm::user(&o, input, g)).into();
            for v in &mut vms {
                v.run(if t { 100_000_000 } else { 30_000_000 });
            }
            let b = vms.pop().unwrap();
            let a = vms.pop().unwrap();
            if a.ended.is_none() || a.ended != b.ended {
                panic!("harness: {name} does not end: {:?} {:?}", a.ended, b.ended);
            }
            if a.open.is_some() || a.bus.dry.get() || a.out != b.out {
                r.outcome("not settled", 1);
                continue;
            }
            std::fs::write(dir.join("long.in"), input).unwrap();
            // time enough for a slow machine with much else to do
            let limit = 60 + a.steps / 200_000;
            let out = run(start(&dir, "t").arg("long"), input, limit);
            // output to a file as well
            let mut sh = Command::new("sh");
            let file = run(sh.current_dir(&dir).args(["-c", "exec \"$0\" long <long.in >long.out"]).arg(mc::proc::tool("t")), b"", limit);
            r.add(0, a.steps, 1);
            if std::fs::read(dir.join("long.out")).ok() != Some(out.stdout.clone()) || file.code != out.code {
                return r.violation("output to a file differs from output to a pipe", format!("{name}: {}", file.text()));
            }
            let what = || format!("{name} ({} bytes of output, {} expected)", out.stdout.len(), a.out.len());
            if !ran(r, &a, &out, &what) {
                return;
            }
            r.outcome("long runs", 1);
        }
    });
}

/// Every small symbol table: the nearest preceding symbol
fn symbols(r: &Report, sc: &Scratch) {
    const END: u16 = 0x1005;
    let kinds: Vec<Sym> = [
        ("a", true, TEXT, 0), ("b", false, TEXT, -1), ("c", true, TEXT, 1), ("d", false, TEXT, -2), ("", false, TEXT, 0), ("", false, TEXT, -1),
        ("e", true, DATA, -0xf00), ("f", true, HEAP, 0x7000), ("u", true, UNKNOWN, 0), ("v", true, UNKNOWN, -1), ("w", false, ZERO, -0x1000), ("a", false, TEXT, -1), ("g", false, TEXT, -0x90),
    ].iter().map(|&(n, g, t, o)| sym(n, g, t, (END as i32 + o) as u16)).collect();
    let depth = if r.thorough { 4 } else { 3 };
    r.bound(format!("the termination point with all symbol tables of up to {depth} out of {} symbols around the end of the program", kinds.len()));
    let mut seqs = sequences(kinds.len(), depth);
    seqs.push(vec![]);
    // names of all kinds; the sign between name and offset and the brackets are the line's own
    let mut kinds = kinds;
    for n in mc::objfmt::names().iter().filter(|n| !n.contains(['<', '>'])) {
        let k = kinds.len();
        kinds.push(sym(n, k % 2 == 0, TEXT, END - 1));
        kinds.push(sym(n, k % 2 == 1, DATA, END - 0x90));
        seqs.extend([vec![k], vec![k + 1], vec![3, k], vec![k, 3, k + 1], vec![k + 1, 0]]);
    }
    let kinds = kinds;
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(100).collect();
    par(r, &chunks, |c| {
        let dir = thread_dir(sc);
        for s in *c {
            for halt in [true, false] {
                let mut o = Obj::default();
                // ends with the byte at END; what follows is at END + 1
                let mut code = vec![0x20; 6];
                code[5] = if halt { 0x0a } else { 0x00 };
                o.segs.insert(TEXT, (END - 5, code));
                o.entry = Some((TEXT, END - 5));
                o.syms = s.iter().map(|&k| kinds[k].clone()).collect();
                let mut vm = Vm::user(&o, b"", 1);
                vm.run(100);
                if vm.open.is_some() {
                    r.outcome("not settled", 1);
                    continue;
                }
                std::fs::write(dir.join("sy.to"), o.bytes()).unwrap();
                let what = || format!("symbols {:?}", o.syms);
                if !termination(r, &o, &vm, &call(&dir, "t", &["-t", "sy.to"], b""), &what) || r.stopped() {
                    return;
                }
            }
        }
        r.count("symbol tables", c.len() as u64);
    });
}

fn one(r: &Report, dir: &Path, l: &Libs, parts: &[usize], src: &str, main: &str, all: bool) {
    let m = reference(src);
    let describe = |route: &str| format!("parts {:?}, {route}\n{src}", parts.iter().map(|&p| PARTS[p].0).collect::<Vec<_>>());
    // link and compare the run with the reference's
    let go = |route: &str, o: &Obj, steps: &[(&str, Vec<&str>)], file: &str| -> bool {
        for (t, args) in steps {
            let out = call(dir, t, args, b"");
            if !out.ok() {
                r.violation("a valid program cannot be built", format!("{}\n{t} {args:?}: {}", describe(route), out.text()));
                return false;
            }
        }
        let Some(vm) = expected(o) else {
            r.outcome("not settled", 1);
            return true;
        };
        let plain = if route == "script" {
            let path = format!("{}:{}", tool("t").parent().unwrap().display(), std::env::var("PATH").unwrap_or_default());
            run(Command::new(dir.join(file)).current_dir(dir).env("PATH", path), INPUT, 60)
        } else {
            call(dir, "t", &[file], INPUT)
        };
        let w = || describe(route);
        if !ran(r, &vm, &plain, &w) {
            return false;
        }
        termination(r, o, &vm, &call(dir, "t", &["-t", file], INPUT), &w)
    };
    let lk = |objs: &[&Obj], align: u32, exe: bool, strip: bool| -> Obj {
        let k = link(objs, Opts { align, strip, exe, entry: None });
        assert!(k.fail.is_none(), "harness: {:?}", k.fail);
        k.obj
    };
    let four = [&m, &l.lib, &l.hook, &l.extra, &l.deep];
    let files = [main, "lib.to", "hook.to", "extra.to", "deep.to"];
    let exe = lk(&four, 128, true, false);
    let tl = |pre: &[&'static str], f: &[&str], out: &str| -> (&'static str, Vec<String>) { ("tl", pre.iter().map(|s| s.to_string()).chain(f.iter().map(|s| s.to_string())).chain(["-o".into(), out.into()]).collect()) };
    let steps = |v: &[(&'static str, Vec<String>)], go_: &dyn Fn(&[(&str, Vec<&str>)]) -> bool| -> bool {
        let v2: Vec<(&str, Vec<&str>)> = v.iter().map(|(t, a)| (*t, a.iter().map(|s| s.as_str()).collect())).collect();
        go_(&v2)
    };
    if !steps(&[tl(&["-e"], &files, "p")], &|s| go("direct", &exe, s, "p")) || !all {
        return;
    }
    if !go("script", &exe, &[], "p") {
        return;
    }
    // symbols of the library that are never needed do not matter: order of archive members
    let members = [&l.unused, &l.deep, &l.lib, &l.extra, &l.hook];
    let sel: Vec<&Obj> = std::iter::once(&m).chain(select(&[&m], &members).into_iter().map(|i| members[i])).collect();
    let ar = lk(&sel, 128, true, false);
    if !steps(&[tl(&["-e", "-l", "lib.savn"], &[main], "pa")], &|s| go("archive", &ar, s, "pa")) {
        return;
    }
    // linked but not executable
    let non = lk(&four, 128, false, false);
    if !steps(&[tl(&[], &files, "pn.to")], &|s| go("not executable", &non, s, "pn.to")) {
        return;
    }
    // partial, then the rest; and twice
    let part = lk(&[&l.lib, &m], 128, false, false);
    let whole = lk(&[&l.deep, &part, &l.extra, &l.hook], 128, true, false);
    if !steps(&[tl(&[], &["lib.to", main], "pp.to"), tl(&["-e"], &["deep.to", "pp.to", "extra.to", "hook.to"], "pq")], &|s| go("partial", &whole, s, "pq")) {
        return;
    }
    let again = lk(&[&exe], 128, true, false);
    if !steps(&[tl(&["-e"], &["p"], "pr")], &|s| go("linked again", &again, s, "pr")) {
        return;
    }
    // stripped
    let st = lk(&four, 128, true, true);
    if !steps(&[tl(&["-e", "-S"], &files, "ps")], &|s| go("stripped by the linker", &st, s, "ps")) {
        return;
    }
    for (a, name) in [(false, "stripped"), (true, "stripped completely")] {
        let mut o = exe.clone();
        if a {
            o.syms.clear();
            o.rels.clear();
        } else {
            for s in &mut o.syms {
                if !s.global {
                    s.name = "".into();
                }
            }
        }
        std::fs::copy(dir.join("p"), dir.join("pt")).unwrap();
        let mut args = vec!["pt"];
        if a {
            args.push("-a");
        }
        if !go(name, &o, &[("tstrip", args)], "pt") {
            return;
        }
    }
    for (al, txt) in [(1, "1"), (4, "4"), (256, "256")] {
        let o = lk(&four, al, true, false);
        let a: Vec<&str> = ["-e", "-A", txt].into_iter().chain(files).chain(["-o", "pl"]).collect();
        if !go(&format!("alignment {al}"), &o, &[("tl", a)], "pl") {
            return;
        }
    }
}

/// Raw images
fn raw(r: &Report, sc: &Scratch) {
    // bytes in place; positions depend on what comes before, so parts avoid absolute addresses of themselves or take `base`
    let parts: Vec<(&str, fn(u16) -> Vec<u8>)> = vec![
        ("write a port", |_| vec![0x3f, 0x30, b'p', 0x27, 0x03, 1, 0]),
        ("write a wide to ports", |_| vec![0x40, 0x20, b'v', b'w', 0x28, 0x02, 1, 0]),
        ("echo", |_| vec![0x2b, 0x30, 1, 0, 0x27, 0x03, 0x7f, 0]),
        ("read a wide", |_| vec![0x2c, 0x20, 0x10, 0, 0x28, 0x02, 0x20, 0]),
        ("rom is not written", |b| [&[0x3f, 0x30, 0, 0x27, 0x03][..], &(b + 1).to_le_bytes(), &[0x2b, 0x30], &(b + 1).to_le_bytes(), &[0x27, 0x03, 0, 0]].concat()),
        ("ram", |_| vec![0x40, 0x20, b'm', b'n', 0x28, 0x02, 0xff, 0x8f, 0x2c, 0x20, 0xff, 0x8f, 0x28, 0x02, 4, 0]),
        ("zeroes after the image", |_| vec![0x2b, 0x30, 0xf0, 0x7f, 0x3f, 0x40, b'0', 0x43, 0x33, 0x40, 0x27, 0x03, 4, 0]),
        ("stack", |_| vec![0x40, 0xb0, 0, 0xa0, 0x40, 0x20, b's', b't', 0x22, 0x20, 0x23, 0x30, 0x27, 0x03, 1, 0, 0x23, 0x30, 0x27, 0x03, 1, 0]),
        ("call and return", |b| [&[0x40, 0xb0, 0, 0xa0, 0x25][..], &(b + 10).to_le_bytes(), &[0x40, 0x01], &(b + 19).to_le_bytes()[..1], &[((b + 19) >> 8) as u8][..], &[0x3f, 0x30, b'c', 0x27, 0x03, 1, 0, 0x26, 0][..]].concat()),
        ("handler", |b| {
            let h = b + 17;
            [&[0x40, 0xf0][..], &h.to_le_bytes(), &[0x40, 0xb0, 0, 0xb0, 0x3f, 0x40, b'a', 0x0c, 0x40, 0x01], &(b + 27).to_le_bytes()[..], &[0][..], &[0x43, 0x31, 0x40, 0x27, 0x03, 1, 0, 0x0d, 0, 0][..]].concat()
        }),
        ("flags in a handler", |b| {
            let h = b + 13;
            [&[0x40, 0xf0][..], &h.to_le_bytes(), &[0x40, 0xb0, 0, 0xb0, 0], &[0x40, 0x01], &(b + 24).to_le_bytes()[..], &[0x0b, 0x2b, 0x3b, 32, 0, 0x27, 0x03, 1, 0, 0x20, 0x20][..]].concat()
        }),
        ("far memory", |_| vec![0x40, 0x20, 0x34, 0x12, 0x3f, 0x50, 0xab, 0x3f, 0x60, b'f', 0x13, 0x52, 0x60, 0x14, 0x35, 0x20, 0x27, 0x03, 1, 0]),
        ("near memory by far access", |_| vec![0x40, 0x20, 0x00, 0x90, 0x3f, 0x60, b'n', 0x13, 0x02, 0x60, 0x2b, 0x30, 0x00, 0x90, 0x27, 0x03, 1, 0]),
        ("arithmetic", |_| vec![0x3f, 0x30, b'0', 0x3f, 0x40, 5, 0x43, 0x33, 0x40, 0x27, 0x03, 1, 0]),
        ("virtual memory: identity of page 0", |_| {
            // level-1 table at 8000 -> level-2 table at 8080 -> 32 pages of block 0
            let mut v = vec![0x40, 0x20, 0x3f, 0x80, 0x28, 0x02, 0x00, 0x80, 0x40, 0x20, 0x80, 0x00, 0x28, 0x02, 0x02, 0x80];
            v[0..4].copy_from_slice(&[0x40, 0x20, 0x3f, 0x80]);
            // entries 0..3 of the level-2 table: pages 0000, 0080, 0100, 0180
            for i in 0..6u16 {
                let e = ((i as u32) * 0x80) << 8 | 0x3f;
                v.extend([0x40, 0x20, e as u8, (e >> 8) as u8, 0x28, 0x02]);
                v.extend((0x8080 + 4 * i).to_le_bytes());
                v.extend([0x40, 0x20, (e >> 16) as u8, (e >> 24) as u8, 0x28, 0x02]);
                v.extend((0x8082 + 4 * i).to_le_bytes());
            }
            v.extend([0x40, 0xe0, 0x00, 0x80, 0x11, 0x3f, 0x30, b'V', 0x27, 0x03, 1, 0, 0x12]);
            v
        }),
        ("user mode", |_| vec![0x10]),
        ("virtual memory on", |_| vec![0x11]),
        ("virtual memory off", |_| vec![0x12]),
        ("halt", |_| vec![0x0a]),
        ("syscall", |_| vec![0x0c]),
        ("division by zero", |_| vec![0x51, 0x34, 0x30]),
        ("code in ram that changes", |_| {
            // writes a character and returns; changes the instruction behind itself on the way
            let code = [0x20u8, 0x27, 0x04, 7, 0xd0, 0x3f, 0x30, b'x', 0x27, 0x03, 1, 0, 0x26, 0, 0x20, 0x20];
            let mut v = vec![0x40, 0xb0, 0, 0xa0];
            for (i, w) in code.chunks(2).enumerate() {
                v.extend([0x40, 0x20, w[0], w[1], 0x28, 0x02, 2 * i as u8, 0xd0]);
            }
            // called twice, then behind its own store by another store, then by pstore
            v.extend([0x3f, 0x40, b'y', 0x25, 0, 0xd0, 0x3f, 0x40, b'z', 0x25, 0, 0xd0, 0x25, 5, 0xd0]);
            v.extend([0x3f, 0x40, b'w', 0x27, 0x04, 7, 0xd0, 0x25, 5, 0xd0]);
            v.extend([0x3f, 0x60, b'u', 0x40, 0x20, 7, 0xd0, 0x13, 0x02, 0x60, 0x25, 5, 0xd0]);
            v
        }),
        ("jump to ram", |_| vec![0x40, 0x01, 0x00, 0xc0]),
    ];
    let depth = if r.thorough { 4 } else { 3 };
    let seqs = sequences(parts.len(), depth);
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(50).collect();
    par(r, &chunks, |c| {
        let dir = thread_dir(sc);
        for (k, s) in c.iter().enumerate() {
            // registers have no documented initial values
            let mut img: Vec<u8> = (1..16).filter(|&r| r != RH as u8).flat_map(|r| [0x40, r << 4, 0x11 * r, 0x90 + r]).collect();
            for &p in s {
                let b = parts[p].1(0x80 + img.len() as u16);
                img.extend(b);
            }
            img.push(0x0a);
            let mut vm = Vm::raw(&img, INPUT);
            vm.run(5000);
            let mut vm2 = Vm::raw(&img, INPUT);
            vm2.s.w = [0x3456; 16];
            vm2.s.w[0] = 0;
            // the handler starts as zero, everything else is not documented
            vm2.s.w[RH] = 0;
            vm2.run(5000);
            if vm.open.is_some() || vm2.open.is_some() || vm.out != vm2.out || vm.ended != vm2.ended || vm.bus.dry.get() {
                r.outcome(if vm.open == Some("too many steps") { "endless" } else { "not settled" }, 1);
                continue;
            }
            std::fs::write(dir.join("raw"), &img).unwrap();
            let what = || format!("raw image of {:?}: {img:02x?}", s.iter().map(|&p| parts[p].0).collect::<Vec<_>>());
            let out = call(&dir, "t", &["-r", "raw"], INPUT);
            if !ran(r, &vm, &out, &what) {
                return;
            }
            if k % 4 == 0 && !termination(r, &Obj::default(), &vm, &call(&dir, "t", &["-t", "-r", "raw"], INPUT), &what) {
                return;
            }
            if r.stopped() {
                return;
            }
        }
    });
    // boundaries of the image size; what exceeds the ROM cannot be run
    let dir = thread_dir(sc);
    for (n, ok) in [(0usize, false), (1, true), (0x7f7f, true), (0x7f80, true), (0x7f81, false), (0x8000, false), (0xff80, false), (0x10000, false), (0x17f80, false)] {
        let mut img = vec![0x20u8; n];
        if let Some(b) = img.last_mut() {
            *b = 0x0a;
        }
        std::fs::write(dir.join("raw"), &img).unwrap();
        let out = call(&dir, "t", &["-r", "raw"], b"");
        r.add(1, n as u64, 1);
        if out.ok() != ok || !out.stdout.is_empty() || out.panicked() {
            r.violation("raw image of extreme size", format!("{n} bytes: {}", out.text()));
        }
    }
    // files that cannot be run
    let o = Obj::default();
    std::fs::write(dir.join("noentry.to"), o.bytes()).unwrap();
    std::fs::write(dir.join("junk.to"), b"not an object").unwrap();
    for args in [vec!["noentry.to"], vec!["-t", "noentry.to"], vec!["junk.to"], vec!["missing.to"], vec!["-r", "missing"], vec!["-t", "missing.to"], vec!["."]] {
        let out = call(&dir, "t", &args, b"");
        r.add(1, 1, 1);
        if !out.failed() || out.panicked() {
            r.violation("a file that cannot be run", format!("t {args:?}: {}", out.text()));
        }
    }
}
