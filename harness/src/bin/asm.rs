//! C18-C22: the assembler against the reference assembler
use mc::objfmt::*;
use mc::proc::*;
use mc::refasm::*;
use mc::report::*;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    match id.as_str() {
        "C18" => c18(r),
        "C19" => c19(r),
        "C20" => c20(r),
        "C21" => c21(r),
        "C22" => c22(r),
        _ => panic!("unknown property {id}"),
    }
    cleanup();
    r.finish()
}

struct Work(Scratch);
impl Work {
    /// a directory of this thread
    fn dir(&self) -> PathBuf {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        thread_local!(static T: u64 = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        let d = self.0.path(format!("w{}", T.with(|t| *t)));
        let _ = std::fs::create_dir_all(&d);
        d
    }
}

#[derive(Debug)]
struct Res {
    obj: Option<Vec<u8>>,
    /// lines named in messages
    reported: HashSet<(String, usize)>,
    text: String,
}
fn parse_reports(stderr: &[u8]) -> HashSet<(String, usize)> {
    let mut s = HashSet::new();
    for l in String::from_utf8_lossy(stderr).lines() {
        let mut it = l.splitn(3, ':');
        if let (Some(p), Some(n), Some(_)) = (it.next(), it.next(), it.next()) {
            if let Ok(n) = n.parse() {
                s.insert((p.to_string(), n));
            }
        }
    }
    s
}
const SENTINEL: &[u8] = &[b'~'; 3000];

/// Assemble the named files (already written) in one process; if it crashes, one by one
fn tc(r: &Report, dir: &Path, names: &[String], old: bool) -> Option<Vec<Res>> {
    let objs: Vec<PathBuf> = names.iter().map(|n| dir.join(n).with_extension("to")).collect();
    let reset = || {
        for o in &objs {
            if old {
                std::fs::write(o, SENTINEL).unwrap();
            } else {
                let _ = std::fs::remove_file(o);
            }
        }
    };
    reset();
    let read = |o: &PathBuf| std::fs::read(o).ok().filter(|b| !old || b != SENTINEL);
    let out = run(std::process::Command::new(tool("tc")).current_dir(dir).args(names), b"", 60);
    if out.code == Some(0) || out.code == Some(1) {
        let reported = parse_reports(&out.stderr);
        let text = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut per: BTreeMap<&str, HashSet<(String, usize)>> = BTreeMap::new();
        let single = names.len() == 1;
        if !single {
            for (p, n) in &reported {
                per.entry(p).or_default().insert((p.clone(), *n));
            }
        }
        let v: Vec<Res> = names
            .iter()
            .zip(&objs)
            .map(|(n, o)| Res {
                obj: read(o),
                reported: if single { reported.clone() } else { per.get(n.as_str()).cloned().unwrap_or_default() },
                text: if single { text.clone() } else { text.lines().filter(|l| l.starts_with(&format!("{n}:"))).take(20).collect::<Vec<_>>().join("\n") },
            })
            .collect();
        if (out.code == Some(0)) != v.iter().all(|x| x.obj.is_some()) {
            // find the file it is about
            for (n, x) in names.iter().zip(&v) {
                let src = std::fs::read(dir.join(n)).unwrap_or_default();
                if x.obj.is_none() == out.ok() || single {
                    r.violation(
                        format!("exit status {:?} although {} object was written", out.code, if x.obj.is_some() { "the" } else { "no" }),
                        format!("{}\n{}", shown(&src), out.text()),
                    );
                    return None;
                }
            }
            r.violation("failing exit status although all objects were written", format!("{names:?} {}", out.text()));
            return None;
        }
        return Some(v);
    }
    if names.len() == 1 {
        let src = std::fs::read(dir.join(&names[0])).unwrap_or_default();
        r.violation(if out.timeout { "the assembler hangs" } else { "the assembler crashes" }, format!("{}\n{}", shown(&src), out.text()));
        return None;
    }
    let mut v = Vec::new();
    for n in names {
        v.extend(tc(r, dir, std::slice::from_ref(n), old)?);
    }
    Some(v)
}
fn shown(src: &[u8]) -> String {
    let s = String::from_utf8_lossy(src);
    if s.lines().count() > 60 {
        format!("source of {} lines:\n{}\n…", s.lines().count(), s.lines().take(40).collect::<Vec<_>>().join("\n"))
    } else {
        format!("source:\n{s}")
    }
}

/// Decide one assembled source
fn verdict(r: &Report, src: &dyn Fn() -> String, a: &Asm, res: &Res, require_lines: bool) {
    let real = match &res.obj {
        None => None,
        Some(b) => match judge(b) {
            Verdict::Object(_, o) => Some(o),
            v => return r.violation("the assembler wrote a malformed object", format!("{}\n{v:?}", src())),
        },
    };
    if a.open && !a.fail {
        return r.outcome("not settled", 1);
    }
    if a.fail {
        r.outcome("refused", 1);
        if real.is_some() {
            return r.violation("invalid source is accepted", format!("{}\ninvalid lines {:?}", src(), a.errors));
        }
        if require_lines {
            if let Some(m) = a.errors.iter().find(|e| !res.reported.contains(e)) {
                return r.violation(format!("line {} of {} is invalid but not reported", m.1, m.0), format!("{}\n{}", src(), res.text));
            }
        }
        return;
    }
    r.outcome("assembled", 1);
    let (want, fits) = a.object(real.as_ref());
    if !fits {
        if real.is_some() {
            r.violation("a program that does not fit the address space is accepted", src());
        }
        return;
    }
    let Some(real) = real else {
        return r.violation("valid source is refused", format!("{}\n{}", src(), res.text));
    };
    if canonical(&want) != canonical(&real) {
        r.violation("the object is not what the source says", format!("{}\nexpected {:x?}\ngot      {:x?}", src(), canonical(&want), canonical(&real)));
    }
}

/// Assemble many small sources
fn sources(r: &Report, w: &Work, texts: &[Vec<u8>], require_lines: bool, swap: bool) {
    let chunks: Vec<&[Vec<u8>]> = texts.chunks(200).collect();
    par(r, &chunks, |c| some_sources(r, w, c, require_lines, swap));
}
fn some_sources(r: &Report, w: &Work, c: &[Vec<u8>], require_lines: bool, swap: bool) {
    {
        let dir = w.dir();
        let names: Vec<String> = (0..c.len()).map(|i| format!("s{i}.telda")).collect();
        for (n, t) in names.iter().zip(c) {
            std::fs::write(dir.join(n), t).unwrap();
        }
        // an old object must not survive as if it were new, nor be replaced on failure
        let Some(res) = tc(r, &dir, &names, true) else { return };
        for ((n, t), x) in names.iter().zip(c).zip(&res) {
            let a = assemble(n, &|p| (p == n).then(|| t.clone()), swap);
            verdict(r, &|| shown(t), &a, x, require_lines);
            r.add(visit(hash_bytes(t)) as u64, t.iter().filter(|b| **b == b'\n').count() as u64, 1);
            if r.stopped() {
                return;
            }
        }
        if r.want_sample() {
            r.sample(format!("{} -> {}", String::from_utf8_lossy(&c[0]).replace('\n', " | "), if res[0].obj.is_some() { "object" } else { "refused" }));
        }
    }
}
/// All sources of exactly `depth` lines out of `al` that `keep` wants, as `wrap` presents them
fn all_sources(r: &Report, w: &Work, al: &[&str], depth: usize, require_lines: bool, keep: impl Fn(&str) -> bool + Sync, wrap: impl Fn(&str) -> Vec<Vec<u8>> + Sync) {
    let expand = |from: Vec<String>, n: usize| {
        let mut last = from;
        for _ in 0..n {
            last = last.iter().flat_map(|t| al.iter().map(move |l| format!("{t}{l}\n"))).collect();
        }
        last
    };
    let head = depth.saturating_sub(2);
    let jobs: Vec<String> = expand(vec![String::new()], head).into_iter().filter(|t| t.is_empty() || keep(t)).collect();
    par(r, &jobs, |p| {
        let texts: Vec<Vec<u8>> = expand(vec![p.clone()], depth - head).iter().filter(|t| keep(t)).flat_map(|t| wrap(t)).collect();
        for c in texts.chunks(300) {
            if !r.stopped() {
                some_sources(r, w, c, require_lines, false);
            }
        }
        r.count("files", texts.len() as u64);
    });
}

/// One source per thread with many lines, each with known bytes; finds the first line that differs.
fn listing(r: &Report, w: &Work, header: &str, lines: &[(String, Vec<u8>)], alt: Option<(&str, &dyn Fn(usize) -> Vec<u8>)>, what: &str) {
    let dir = w.dir();
    let mut t = String::from(header);
    let mut want = Vec::new();
    for (l, b) in lines {
        t.push_str(l);
        t.push('\n');
        want.extend(b);
    }
    std::fs::write(dir.join("list.telda"), &t).unwrap();
    let Some(res) = tc(r, &dir, &["list.telda".into()], false) else { return };
    r.add(lines.len() as u64, lines.len() as u64, 1);
    r.outcome(what, lines.len() as u64);
    let Some(b) = &res[0].obj else {
        let n = res[0].reported.iter().map(|x| x.1).min();
        let off = header.lines().count() + 1;
        let l = n.filter(|n| *n >= off).and_then(|n| lines.get(n - off)).map(|x| x.0.clone()).unwrap_or_default();
        return r.violation(format!("a valid line is refused: {l:?}"), res[0].text.clone());
    };
    let Verdict::Object(_, o) = judge(b) else {
        return r.violation("the assembler wrote a malformed object", what);
    };
    let got = o.segs.get(&TEXT).map(|s| s.1.clone()).unwrap_or_default();
    if got == want {
        return;
    }
    if let Some((key, alt)) = alt {
        let other: Vec<u8> = (0..lines.len()).flat_map(|i| alt(i)).collect();
        if got == other {
            return r.known(key, &lines[0].0);
        }
    }
    let mut p = 0;
    for (l, b) in lines {
        let g = &got[p.min(got.len())..(p + b.len()).min(got.len())];
        if g != &b[..] {
            return r.violation(format!("{l:?} does not assemble to its documented bytes"), format!("expected {b:02x?}\ngot      {g:02x?} (at {p:#x} of the segment)"));
        }
        p += b.len();
    }
    r.violation("surplus bytes behind the last line", format!("{what}: {} instead of {}", got.len(), want.len()));
}

fn bytes_of(l: &str) -> Vec<u8> {
    match line(l.as_bytes(), false) {
        Item::Bytes(b, None) => b,
        i => panic!("{l:?} is {i:?}"),
    }
}

// ---------------------------------------------------------------- C18

fn c18(r: &Report) {
    let w = Work(Scratch::new("c18"));
    r.bound("every mnemonic and alias x every register choice (all 16^n, also of the four-register instructions) x immediates: all bytes from -128 to 255; wides: all from -32768 to 65535 without registers, all borders of bytes for every register choice 4 register choices x all wides");
    let imm2: Vec<i64> = { (0..=0xffff).step_by(if r.thorough { 37 } else { 257 }).chain([1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe]).collect() };
    let mut jobs: Vec<(String, Vec<String>)> = Vec::new();
    for &(ms, _, ks) in FORMS {
        for m in ms {
            let mut lines: Vec<String> = vec![String::new()];
            for (i, k) in ks.chars().enumerate() {
                let vals: Vec<String> = match k {
                    'b' => BREGS.iter().map(|s| s.to_string()).collect(),
                    'w' => WREGS.iter().map(|s| s.to_string()).collect(),
                    '1' => (-128..256).map(|n| n.to_string()).collect(),
                    _ => {
                        if ks == "2" {
                            (-0x8000..=0xffff).map(|n| n.to_string()).collect()
                        } else {
                            imm2.iter().map(|n| n.to_string()).collect()
                        }
                    }
                };
                lines = lines.iter().flat_map(|l| vals.iter().map(move |v| format!("{l}{}{v}", if i == 0 { " " } else { ", " }))).collect();
            }
            // all wide values in register forms
            if ks.contains('2') && ks != "2" {
                for sel in 0..4 {
                    for n in -0x8000..=0xffffi32 {
                        let ops: Vec<String> = ks
                            .chars()
                            .enumerate()
                            .map(|(i, k)| match k {
                                'b' => BREGS[(5 + i * 3 + sel * 4) % 16].into(),
                                'w' => WREGS[(6 + i * 4 + sel * 5) % 16].into(),
                                _ => n.to_string(),
                            })
                            .collect();
                        lines.push(format!(" {}", ops.join(", ")));
                    }
                }
            }
            let lines: Vec<String> = lines.iter().map(|l| format!("{m}{l}")).filter(|l| *l != format!("{m} r0") || !m.starts_with('j')).collect();
            for c in lines.chunks(15000) {
                jobs.push((m.to_string(), c.to_vec()));
            }
        }
    }
    r.count("instructions", jobs.iter().map(|j| j.1.len() as u64).sum());
    par(r, &jobs, |(m, lines)| {
        let v: Vec<(String, Vec<u8>)> = lines.iter().map(|l| (l.clone(), bytes_of(l))).collect();
        let alt = |i: usize| match line(v[i].0.as_bytes(), true) {
            Item::Bytes(b, _) => b,
            _ => vec![],
        };
        listing(r, &w, ".seg text\n", &v, matches!(m.as_str(), "ja" | "jb" | "jc").then_some(("ja-jb-opcodes", &alt as &dyn Fn(usize) -> Vec<u8>)), "instructions");
    });
    // aliases of sizes and signs of immediates, spacing, mixed sequences: the bytes of a line do not depend on its neighbours
    let mut v: Vec<(String, Vec<u8>)> = Vec::new();
    let mut atoms: Vec<String> = Vec::new();
    for &(ms, _, ks) in FORMS {
        let m = ms[ms.len() - 1];
        if matches!(m, "ja" | "jc") {
            continue;
        }
        for sp in 0..2 {
            let mut i = 0;
            let ops: Vec<String> = ks
                .chars()
                .map(|k| {
                    i += 1;
                    match k {
                        'b' => BREGS[(i * 5 + sp) % 16].to_string(),
                        'w' => WREGS[(i * 7 + sp + 1) % 16].to_string(),
                        '1' => ["-1", "200b", "'x'", "0x7f"][(i + sp) % 4].to_string(),
                        _ => ["-2", "40000w", "0x7fff", "0o17w"][(i + sp) % 4].to_string(),
                    }
                })
                .collect();
            atoms.push(if ops.is_empty() { m.to_string() } else { format!("{}{m} {}", ["", "  \t"][sp], ops.join([",", " ,  "][sp])) });
        }
    }
    for a in &atoms {
        for b in &atoms {
            v.push((a.clone(), bytes_of(a)));
            v.push((b.clone(), bytes_of(b)));
        }
    }
    let chunks: Vec<&[(String, Vec<u8>)]> = v.chunks(10000).collect();
    par(r, &chunks, |c| listing(r, &w, ".seg text\n", c, None, "instructions next to each other"));
    // documented instructions the assembler does not know: refused, or assembled as documented
    let mut t = Vec::new();
    for (m, b) in [("usr", vec![0x10u8]), ("vmon", vec![0x11]), ("vmoff", vec![0x12]), ("pstore r1l, r2, r3l", vec![0x13, 0x12, 0x50]), ("pload r1l, r2l, r3", vec![0x14, 0x13, 0x30])] {
        t.push((m, b));
    }
    let dir = w.dir();
    for (m, b) in t {
        std::fs::write(dir.join("x.telda"), format!(".seg text\n{m}\n")).unwrap();
        let Some(res) = tc(r, &dir, &["x.telda".into()], false) else { return };
        r.add(1, 1, 1);
        if let Some(f) = &res[0].obj {
            let ok = matches!(judge(f), Verdict::Object(_, o) if o.segs.get(&TEXT).map(|s| &s.1) == Some(&b));
            if !ok {
                r.violation(format!("{m:?} does not assemble to its documented bytes {b:02x?}"), m);
            }
        } else {
            r.outcome("documented but unknown to the assembler", 1);
        }
    }
    r.assume("immediates out of range of 8 or 16 bits are not part of this property (see C21)");
}

// ---------------------------------------------------------------- C19

/// Every line on its own, many in a file: the valid ones have to assemble to their bytes, the invalid ones to be reported
fn one_by_one(r: &Report, w: &Work, lines: &[String]) {
    let (mut valid, mut invalid): (Vec<&String>, Vec<&String>) = Default::default();
    for l in lines {
        match line(l.as_bytes(), false) {
            Item::Invalid => invalid.push(l),
            Item::Bytes(_, Some((_, n))) if n != "lab" => (),
            Item::Bytes(..) | Item::Nothing => valid.push(l),
            _ => (),
        }
    }
    r.outcome("valid lines", valid.len() as u64);
    r.outcome("invalid lines", invalid.len() as u64);
    r.outcome("changed lines that do something else or are not settled", (lines.len() - valid.len() - invalid.len()) as u64);
    let mixed = |l: &str| ["ja ", "jb ", "jc "].iter().any(|m| l.trim_start().starts_with(m));
    valid.sort_by_key(|l| mixed(l));
    let jobs: Vec<(bool, &[&String])> = valid.chunk_by(|a, b| mixed(a) == mixed(b)).flat_map(|c| c.chunks(1000)).map(|c| (true, c)).chain(invalid.chunks(400).map(|c| (false, c))).collect();
    par(r, &jobs, |(good, c)| {
        let dir = w.dir();
        let t = format!(".seg text\nlab:\n{}\n", c.iter().map(|l| l.as_str()).collect::<Vec<_>>().join("\n"));
        std::fs::write(dir.join("e.telda"), &t).unwrap();
        let Some(res) = tc(r, &dir, &["e.telda".into()], false) else { return };
        r.add(c.len() as u64, c.len() as u64, 1);
        if *good {
            let mut a = assemble("e.telda", &|p| (p == "e.telda").then(|| t.clone().into_bytes()), false);
            // their opcodes are C18's business (and a known finding there)
            if mixed(c[0]) {
                match &res[0].obj {
                    None => r.violation("valid lines are refused", format!("{}\n{}", res[0].text, shown(t.as_bytes()))),
                    Some(_) => r.outcome("lines of ja and jb accepted", c.len() as u64),
                }
                a.open = true;
            }
            return verdict(r, &|| shown(t.as_bytes()), &a, &res[0], false);
        }
        if res[0].obj.is_some() {
            return r.violation("a file of invalid lines is accepted", shown(t.as_bytes()));
        }
        if let Some((n, l)) = c.iter().enumerate().map(|(i, l)| (i + 3, l)).find(|x| !res[0].reported.contains(&("e.telda".into(), x.0))) {
            r.violation(format!("invalid line {n} is not reported: {l:?}"), shown(t.as_bytes()));
        }
    });
}

/// Mnemonics and directives of other assemblers
const OTHER_WORDS: &str = "\
    adc adcs addb addc addi addu align alloca and andi ani aout arg ascii asciiz asciz asect asl asr assert b ball balign bcc \
    bcs beq beqz bge bgt bhi bhs bic bit ble blo bls blt bmi bne bnez bnz bpl br bra break brk bsr bss \
    bsw bvc bvs bx byt bytes bz c caddr call callf case cbw cfg cfi clc cld cli clr cls clz cmc cmn cmov \
    cmp cmpb cmpi cmpw code comm common const copy cpl cpu csect cwd d data db dc dcb dd ddw dec decb decw define \
    def defb defl defm defs defw delay desc di dim div divi divu djnz dl do double dq ds dsb dsw dt dup dw \
    dword eabi ei eight eject elif else elseif emit end endc endfunc endif endif endm endmacro endp endr endrep ends endsect enter eor equ \
    equb equs equw err error even ex exit exitm exitm export extern extrn exx fail fcb fcc fdb file fill float fn for func \
    function g globals goto half halfword hex hint hlt hword iadd ident idiv if ifdef ifeq ifndef ifne imul in inb inc incb incbin \
    include incw init inline ins insb int iret irp irpc isr j jae jal jalr jb jbe jc jcc jcs je jecxz jeq jg \
    jge jgt jl jle jlo jls jlt jmi jmpa jmpr jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz \
    jo jp jpe jpl jpo jr js jsr jump jvc jvs jz la label lahf lb lbu lcomm ld lda ldab ldaw ldb ldc \
    ldd ldh ldi ldib ldiw ldr ldrb ldrh lds ldw ldx ldy lea leave len lflags lh lhi lhu li line link list lit \
    lldb lli ln load loadb loadw loc local lodsb log long loop loopne lp lr lsl lsr ltorg lui lw macro main map mem \
    memory mfhi mflo mod mode module move movb movi movs movsx movw movz movzx mret msg mul muli mulu mv mvi mvn name nand \
    ndx neg negb next nl noop nop nor not notb null octa offset on opcode opt or orb org orgi ori orr orw out \
    outb p2align page pages paragraph pc pha php pla plp pool popa popb popf popsection popw prg print printf private proc procedure prot ps \
    ptr public pub purgem pusha pushb pushf pushi pushsection pushw quad radix ram rb rcl rcr read ref references rel reloc rem rep repe \
    repeat repne rept repz res resb resd reserve resq resw reti retf retn return rev rjmp rodata rol ror rori rom rsb rseg rst \
    rti rts s sahf sal sar save sb sbc sbb sbcs sbi scasb section sect seek seg2 segm sel set setb sete sets setz \
    sh shl shlb shr shra shrl shift si size skip skp sl sla sleep slk sll slr slt sltu sp space sr sra srl \
    st sta start stb stc std stdb sti stop stor store storeb storew stosb str strb string8 stringz strh stringw stru struct struc stw \
    stx sty sub subb subi subs subtitle subu subw sum svc sw swap swi sym symbol symver sys sysret syscalls sysexit t tab tasm \
    tax tay tbss tdata ten test testb text2 textequ title times trap tsx ttl tst two type txa txs u16 u32 u8 udiv uleb128 \
    undef union until use uses val var vectors version w wait warn warning weak wfi while width word16 wordb words x xchg xdef xor \
    xori xorb xref xt y z z80 zero zeros zext zp zpage .text \
";

fn c19(r: &Report) {
    let w = Work(Scratch::new("c19"));
    let kinds = ["r3l", "r4", "r0", "5", "5b", "7w", "'a'", "lab", "'ab'"];
    let depth = if r.thorough { 5 } else { 4 };
    let seqs_depth = if r.thorough { 5 } else { 4 };
    r.bound(format!("all mnemonics, aliases and 16 unknown ones x all sequences of up to {depth} operands of 9 kinds; every directive x every argument out of 30; all files of up to {seqs_depth} lines out of 27 lines; non-UTF-8 lines; one invalid line at every place of a file; files of up to {} errors; 9 unusual file names", if r.thorough { 1_000_000 } else { 300_000 }));
    let mut mnems: Vec<&str> = FORMS.iter().flat_map(|f| f.0.iter().copied()).collect();
    mnems.sort();
    mnems.dedup();
    let unknown = ["foo", "Halt", "NOP", "addw", "ldiw", "l", "jm", "jmpp", "nopp", "ret.", "r1", "5", "jz", "mov", "lea", "retn"];
    mnems.extend(unknown);
    let mut ops: Vec<String> = vec![String::new()];
    let mut last = ops.clone();
    for d in 0..depth {
        last = last.iter().flat_map(|l| kinds.iter().map(move |k| format!("{l}{}{k}", if d == 0 { " " } else { ", " }))).collect();
        ops.extend(last.clone());
    }
    r.count("operand sequences", ops.len() as u64);
    let jobs: Vec<(&str, &[String])> = mnems.iter().flat_map(|m| ops.chunks(8000).map(move |c| (*m, c))).collect();
    par(r, &jobs, |(m, ops)| {
        let dir = w.dir();
        let mut valid: Vec<String> = Vec::new();
        let mut invalid: Vec<String> = Vec::new();
        for o in *ops {
            let l = format!("{m}{o}");
            match line(l.as_bytes(), false) {
                Item::Invalid => invalid.push(l),
                Item::Bytes(..) => valid.push(l),
                i => panic!("{l:?}: {i:?}"),
            }
        }
        r.outcome("valid lines", valid.len() as u64);
        r.outcome("invalid lines", invalid.len() as u64);
        r.add((valid.len() + invalid.len()) as u64, (valid.len() + invalid.len()) as u64, 1);
        if !valid.is_empty() {
            let t = format!(".seg text\nlab:\n{}\n", valid.join("\n"));
            std::fs::write(dir.join("v.telda"), &t).unwrap();
            let Some(res) = tc(r, &dir, &["v.telda".into()], false) else { return };
            if res[0].obj.is_none() {
                return r.violation("valid lines are refused", format!("{}\n{}", res[0].text, shown(t.as_bytes())));
            }
        }
        for (k, c) in invalid.chunks(400).enumerate() {
            let mut t = String::from(".seg text\nlab:\n");
            let mut at = Vec::new();
            let mut n = 2;
            for (i, l) in c.iter().enumerate() {
                if (i + k) % 7 == 3 {
                    t.push_str("halt ; comment is not allowed here\n".split(" ;").next().unwrap());
                    t.push_str("\n\n");
                    n += 2;
                }
                t.push_str(l);
                t.push('\n');
                n += 1;
                at.push((n, l));
            }
            std::fs::write(dir.join("i.telda"), &t).unwrap();
            let Some(res) = tc(r, &dir, &["i.telda".into()], false) else { return };
            if res[0].obj.is_some() {
                return r.violation("a file of invalid lines is accepted", shown(t.as_bytes()));
            }
            if let Some((n, l)) = at.iter().find(|x| !res[0].reported.contains(&("i.telda".into(), x.0))) {
                return r.violation(format!("invalid line {n} is not reported: {l:?}"), shown(t.as_bytes()));
            }
        }
    });
    // lines that are valid but for one character
    let mut bases: Vec<String> = Vec::new();
    for (ms, _, ks) in FORMS {
        let ops: Vec<&str> = ks.chars().enumerate().map(|(i, k)| match k {
            'b' => ["r1l", "r10b", "r5h", "r0b"][i],
            'w' => ["r2", "rs", "r10", "r3"][i],
            '1' => ["5", "0x1f", "'a'", "-3b"][(ms[0].len() + i) % 4],
            _ => ["lab", "300", "0xabcw", "-5"][(ms[0].len() + i) % 4],
        }).collect();
        for m in *ms {
            bases.push(if ops.is_empty() { m.to_string() } else { format!("{m} {}", ops.join(", ")) });
        }
    }
    bases.extend([".string a b", ".string \\n;", ".byte 5", ".byte 'a'", ".wide lab", ".wide 0x1234", ".word 7w", "; comment", "// c", "# c", ".seg text", ".entry", "  nop  "].map(String::from));
    let mut lines: Vec<String> = bases.iter().flat_map(|b| edits(b, &printable())).collect();
    for b in &bases {
        for tail in [" ; comment", " // comment", " # comment", ";", " ;", "//", "#", ",", " ,", ", ", " nop", "\\", "()", " 1", ",,", ", r1", ",5", "; nop", ":", " :", "h"] {
            lines.push(format!("{b}{tail}"));
        }
        for head in [".", "*", "1 ", "lab: ", "lab ", "; ", "/", "@", "- "] {
            lines.push(format!("{head}{b}"));
        }
    }
    lines.sort();
    lines.dedup();
    r.bound(format!("{} lines (every documented form, directives, comments) with every single character inserted, replaced, removed or exchanged with its neighbour, over {} characters, in capitals, and with 21 tails and 9 heads: {} lines", bases.len(), printable().len(), lines.len()));
    one_by_one(r, &w, &lines);
    // words nobody has told the assembler, whatever they mean to other assemblers
    let words = |n: usize, al: &str| -> Vec<String> {
        let mut last = vec![String::new()];
        let mut all = vec![];
        for _ in 0..n {
            last = last.iter().flat_map(|t| al.chars().map(move |c| format!("{t}{c}"))).collect();
            all.extend(last.clone());
        }
        all
    };
    let mut dict: Vec<String> = words(if r.thorough { 4 } else { 3 }, "abcdefghijklmnopqrstuvwxyz");
    dict.extend(OTHER_WORDS.split_whitespace().map(String::from));
    for a in &mnems {
        for b in "abcdefghijklmnopqrstuvwxyz0123456789._-!?".chars() {
            dict.extend([format!("{a}{b}"), format!("{b}{a}"), format!("{a}.{b}"), format!("{a}{}", a.to_uppercase()), a.to_uppercase()]);
        }
        dict.extend(mnems.iter().map(|b| format!("{a}{b}")));
    }
    dict.sort();
    dict.dedup();
    let heads: Vec<String> = {
        let mut cs = printable();
        cs.extend(['\u{feff}', '\u{a0}', '\u{2028}', '\u{0}', '\u{1}', '\u{7f}', '\u{1b}', '\u{8}', '\u{300}', '\u{fffd}', '\u{ff1b}', '\u{10ffff}']);
        cs.iter().map(|c| c.to_string()).chain(cs.iter().flat_map(|a| cs.iter().map(move |b| format!("{a}{b}")))).collect()
    };
    r.bound(format!("{} words (all of up to {} letters, those of other assemblers, pairs of mnemonics) as mnemonic with 6 operand lists, as directive with 4 arguments and as segment; {} beginnings of one or two characters in front of 3 lines", dict.len(), if r.thorough { 4 } else { 3 }, heads.len()));
    for c in dict.chunks(20_000) {
        let mut lines: Vec<String> = Vec::new();
        for d in c {
            lines.extend(["", " r1", " r1l, r2l", " r1, r2, r3", " 5", " lab"].map(|o| format!("{d}{o}")));
            lines.extend(["", " 5", " lab", " text"].map(|o| format!(".{d}{o}")));
            lines.push(format!(".seg {d}"));
        }
        one_by_one(r, &w, &lines);
    }
    let lines: Vec<String> = heads.iter().flat_map(|h| ["a comment", "nop", ".byte 5"].map(|l| format!("{h}{l}"))).collect();
    one_by_one(r, &w, &lines);
    // directives
    let mut texts: Vec<Vec<u8>> = Vec::new();
    for h in &heads {
        texts.push(format!("{h}nop\n").into_bytes());
    }
    let dirs = ["string", "byte", "wide", "word", "include", "global", "globl", "ref", "reference", "seg", "entry", "foo", "Seg", "segment", "bytes", "", "text", "strin", "glob"];
    let args = ["", "text", "data", "rodata", "heap", "zero", "unknown", "Text", "5", "5b", "5w", "300", "-129", "'a'", "'ab'", "lab", "r1", "\\n", "\\q", "\\x1", "\\", "0x", "12x", "a b", "..", "256b", "65536w", "-129b", "missing.telda", "1 2"];
    for d in dirs {
        for a in args {
            let l = if a.is_empty() { format!(".{d}") } else { format!(".{d} {a}") };
            if let Item::Open = line(l.as_bytes(), false) {
                // not settled; must not crash though
            }
            texts.push(format!(".seg data\nlab:\n{l}\nnop\n").into_bytes());
            texts.push(format!("{l}\n.seg data\nlab:\nnop\n").into_bytes());
        }
    }
    // all short files
    let al = [
        ".seg text", ".seg data", "", "; comment", "a:", "b:", "nop", "jmp a", ".wide b", ".global a", ".ref a", ".ref b", ".entry", ".byte 1", ".string x", "foo", ".foo", "nop r1", "jmp r0",
        ".string \\q", ".byte 'xy'", ".seg bss", "ldi r1l, 'ab'", "push 5", "# .entry", ".include missing.telda", "  halt  ",
    ];
    for d in 1..=seqs_depth {
        all_sources(r, &w, &al, d, true, |_| true, |t| vec![t.as_bytes().to_vec()]);
    }
    // one invalid line at each place, several line ends
    let good: Vec<&str> = vec![".seg text", "a:", "nop", ".entry", "jmp a", ".seg data", ".wide a", ".string hello", "; end"];
    for bad in ["foo", "nop 1", ".bar", "add r1, r2", ".byte q", "a:", ".string \\", "caf\u{e9}", "ldi r1, 5b"] {
        for end in ["\n", "\r\n"] {
            for i in 0..=good.len() {
                let mut g = good.clone();
                g.insert(i, bad);
                texts.push(g.join(end).into_bytes());
                g.insert(g.len(), bad);
                texts.push((g.join(end) + end).into_bytes());
            }
        }
    }
    for i in 0..=good.len() {
        for bad in [&b"; caf\xe9"[..], b"\xff", b".string \xc3", b"a\xff:"] {
            let mut v: Vec<Vec<u8>> = good.iter().map(|s| s.as_bytes().to_vec()).collect();
            v.insert(i, bad.to_vec());
            v.push(b"foo".to_vec());
            texts.push(v.join(&b'\n'));
        }
    }
    r.count("files", texts.len() as u64);
    sources(r, &w, &texts, true, false);
    // very many errors: all of them reported, whichever way they come together
    let many = if r.thorough { 1_000_000 } else { 300_000 };
    let files: Vec<(&str, String, usize)> = vec![
        ("lines", "foo 1\n".repeat(many), 1),
        ("places", format!(".seg text\n{}", "halt 1\n.foo\njmp nowhere\n".repeat(many / 3)), 2),
        ("undefined", format!(".seg text\n{}", "jmp nowhere\n".repeat(15_000)), 2),
        ("included", format!(".seg text\n{}", ".include bad.telda\n".repeat(many / 3000)), 0),
    ];
    par(r, &files, |(what, t, first)| {
        let dir = w.dir();
        std::fs::write(dir.join("bad.telda"), "nop 1\n".repeat(3000)).unwrap();
        std::fs::write(dir.join("m.telda"), t).unwrap();
        let _ = std::fs::remove_file(dir.join("m.to"));
        let mut out = run(std::process::Command::new("sh").current_dir(&dir).args(["-c", "exec \"$0\" m.telda 2>messages"]).arg(tool("tc")), b"", 200);
        out.stderr = std::fs::read(dir.join("messages")).unwrap_or_default();
        let lines = t.lines().count();
        let case = || format!("many errors ({what}), {lines} lines, exit status {:?}{}, {} bytes of messages", out.code, if out.timeout { " (timeout)" } else { "" }, out.stderr.len());
        r.add(1, lines as u64, 1);
        if out.timeout || out.code != Some(1) {
            return r.violation("the assembler crashes, hangs or succeeds on a source of very many errors", case());
        }
        if dir.join("m.to").exists() {
            return r.violation("invalid source is accepted", case());
        }
        let reported = parse_reports(&out.stderr);
        let missing = match *first {
            0 => (1..=3000).find(|n| !reported.contains(&("bad.telda".into(), *n))),
            f => (f..=lines).find(|n| !reported.contains(&("m.telda".into(), *n))),
        };
        if let Some(n) = missing {
            return r.violation(format!("line {n} is invalid but not reported"), case());
        }
        r.outcome("very many errors: all reported", 1);
    });
    // whatever the file is called
    {
        use std::os::unix::ffi::OsStrExt;
        let dir = w.dir();
        let names: [&[u8]; 9] = [b"\xff", b"caf\xe9", b"caf\xc3\xa9", b"a b", b"-x", b".hidden", b"two.parts", b"\xc3(", b"100%"];
        let path = |n: &[u8], e: &str| dir.join(std::ffi::OsStr::from_bytes(&[n, e.as_bytes()].concat()));
        for n in names {
            for (t, valid) in [(".seg text\nnop\n", true), (".seg text\nnop 1\n", false), (".seg text\n.include inner.telda\n", true), (".seg text\nnop\n.include wrong.telda\n", false)] {
                std::fs::write(dir.join("inner.telda"), ".seg text\nhalt\n").unwrap();
                std::fs::write(dir.join("wrong.telda"), ".seg text\nhalt 1\n").unwrap();
                std::fs::write(path(n, ".telda"), t).unwrap();
                let _ = std::fs::remove_file(path(n, ".to"));
                let out = run(std::process::Command::new(tool("tc")).current_dir(&dir).arg(std::ffi::OsStr::from_bytes(&[n, b".telda"].concat())), b"", 30);
                r.add(1, 1, 1);
                let case = || format!("file {:?}, source {t:?}\n{}", String::from_utf8_lossy(n), out.text());
                if out.timeout || out.panicked() || out.code != Some(!valid as i32) {
                    return r.violation("the assembler's exit status depends on the name of the file", case());
                }
                if path(n, ".to").exists() != valid {
                    return r.violation("an object file is there for valid source only, whatever the name", case());
                }
                if !valid && out.stderr.is_empty() {
                    return r.violation("invalid source is not reported", case());
                }
                r.outcome("file names", 1);
            }
        }
    }
    r.assume("not settled and accepted either way: empty names, names with characters other than letters, digits and _, a second blank in front of an argument, an argument of .entry");
}

// ---------------------------------------------------------------- C20

fn c20(r: &Report) {
    let w = Work(Scratch::new("c20"));
    let al: Vec<&str> = vec![
        ".seg data", ".seg rodata", ".seg text", ".seg heap", "a:", "b:", "jmp a", ".wide b", ".global a", ".global b", ".ref b", ".entry", "nop", ".byte 7", ".string xyz", "load r1l, r2, b", "ret",
    ];
    let depth = if r.thorough { 6 } else { 5 };
    r.bound(format!("all programs of up to {depth} lines out of {}, also behind a header that starts a segment and in front of a tail that defines both labels; every combination of segment sizes 0,1,127,128,129,none in the four segments, in two orders, with labels at both ends and references from and to every segment; all pairs of kinds of lines (every instruction form and alias with numbers and labels, every directive) with labels between them; programs around the size limits", al.len()));
    for d in 1..=depth {
        // programs that start with anything else lack a segment and are covered by the shorter ones
        all_sources(r, &w, &al, d, false, |t| d <= 2 || t.starts_with(".seg") || t.starts_with(".global") || t.starts_with(".ref"), |t| vec![t.as_bytes().to_vec()]);
        if d < depth {
            all_sources(r, &w, &al, d, false, |_| true, |t| {
                vec![format!(".seg text\nnop\n{t}").into_bytes(), format!(".seg text\n{t}.seg data\na:\n.byte 1\nb:\n.byte 2\n").into_bytes()]
            });
        }
    }
    let mut texts: Vec<Vec<u8>> = Vec::new();
    // sizes and alignment
    let sizes: [Option<usize>; 6] = [None, Some(0), Some(1), Some(127), Some(128), Some(129)];
    let names = ["data", "rodata", "text", "heap"];
    for k in 0..6usize.pow(4) {
        for rev in [false, true] {
            let mut t = String::new();
            let mut order: Vec<usize> = (0..4).collect();
            if rev {
                order.reverse();
            }
            let size = |i: usize| sizes[k / 6usize.pow(i as u32) % 6];
            for &i in &order {
                let Some(n) = size(i) else { continue };
                t += &format!(".seg {}\ns{i}:\n.string {}\n", names[i], "x".repeat(n));
                if rev && i == 2 {
                    t += ".entry\n";
                }
                t += &format!("e{i}:\n");
            }
            for &i in &order {
                if size(i).is_none() {
                    continue;
                }
                t += &format!(".global e{i}\n.seg {}\n", names[i]);
                for &j in &order {
                    if size(j).is_some() {
                        t += &format!("ldi r{}, s{j}\n.wide e{j}\n", j + 1);
                    }
                }
            }
            texts.push(t.into_bytes());
        }
    }
    r.count("files", texts.len() as u64);
    sources(r, &w, &texts, false, false);
    // the place of what follows each kind of line: all pairs of instruction forms and directives, with
    // labels and numbers as wide operands
    let mut kinds: Vec<String> = [".byte 1", ".wide 2", ".wide c", ".word c", ".string abcde", ".string", "; nothing", "", "# x", "// y"].iter().map(|s| s.to_string()).collect();
    for &(ms, _, ks) in FORMS {
        for (n, m) in ms.iter().enumerate() {
            // their opcodes are a matter of C18
            if matches!(*m, "ja" | "jb" | "jc") {
                continue;
            }
            for label in [true, false] {
                if (n > 0 || !ks.contains('2')) && !label {
                    continue;
                }
                let ops: Vec<String> = ks.chars().enumerate().map(|(i, k)| match k {
                    'b' => BREGS[1 + (i * 3 + n) % 15].to_string(),
                    'w' => WREGS[1 + (i * 4 + n) % 13].to_string(),
                    '1' => "17".into(),
                    _ => if label { "c".to_string() } else { "4660".to_string() },
                }).collect();
                kinds.push(format!("{m} {}", ops.join(", ")).trim().to_string());
            }
        }
    }
    kinds.push("ret".into());
    let mut pairs: Vec<Vec<u8>> = Vec::new();
    for x in &kinds {
        for y in &kinds {
            pairs.push(format!(".seg text\na:\n{x}\nb:\n{y}\nc:\n.entry\nnop\n.wide a\n.wide b\n.wide c\nldi r1, b\n.seg heap\nd:\n.wide d\n").into_bytes());
        }
    }
    r.count("pairs of kinds of lines", pairs.len() as u64);
    for c in pairs.chunks(400).collect::<Vec<_>>() {
        sources(r, &w, c, false, false);
    }
    // near the limits: never accepted with a wrong layout
    let mut big: Vec<Vec<u8>> = Vec::new();
    for (a, b) in [
        (65000usize, 0usize), (65407, 0), (65408, 0), (65409, 0), (65531, 0), (65532, 0), (65533, 0), (65535, 0), (65536, 0), (65540, 0), (131072, 0), (32768, 32000), (32768, 32640), (32768, 32641), (40000, 40000), (65280, 127), (65280, 128), (65280, 129), (65408, 1),
    ] {
        let s = |n: usize| (0..n.div_ceil(5000)).map(|i| format!(".string {}\n", "y".repeat(5000.min(n - i * 5000)))).collect::<String>();
        big.push(format!(".seg data\n{}e:\n.seg text\n{}f:\n.wide e\n.wide f\n", s(a), s(b)).into_bytes());
        big.push(format!(".seg data\n.string {}\ne:\n.seg text\n{}f:\n.byte 1\n", "z".repeat(a), s(b)).into_bytes());
    }
    par(r, &big, |t| {
        let dir = w.dir();
        std::fs::write(dir.join("big.telda"), t).unwrap();
        let out = run(std::process::Command::new(tool("tc")).current_dir(&dir).arg("big.telda"), b"", 60);
        let a = source("big.telda", t, false);
        r.add(1, 1, 1);
        if out.ok() {
            let f = std::fs::read(dir.join("big.to")).unwrap_or_default();
            let res = Res { obj: Some(f), reported: HashSet::new(), text: out.text() };
            verdict(r, &|| shown(&t[..200.min(t.len())]), &a, &res, false);
        } else {
            r.outcome("too large: refused", 1);
            // it must fit with room to spare to be required to work
            let (o, fits) = a.object(None);
            let end = o.segs.values().map(|s| s.0 as usize + s.1.len()).max().unwrap_or(0);
            if out.timeout || out.panicked() || out.stderr.is_empty() {
                r.violation("the assembler crashes or says nothing about a program that is too large", format!("{} bytes of source, ends at {end:#x}: {}", t.len(), out.text()));
            }
            if fits && end < 0xfc00 {
                r.violation("a program that fits is refused", format!("{} bytes of source, ends at {end:#x}: {}", t.len(), out.text()));
            }
        }
        let _ = std::fs::remove_file(dir.join("big.to"));
    });
    // what follows a string of any length
    let mut lens: Vec<usize> = (0..if r.thorough { 3000 } else { 700 }).collect();
    for k in 10..16 {
        lens.extend([1usize << k, 3 << (k - 1)].iter().flat_map(|c| (c - 3)..=(c + 3)));
    }
    lens.extend((0..40).map(|k| 1000 + 1571 * k));
    lens.retain(|n| *n < 65000);
    r.bound(format!("{} lengths of strings (every one up to {}, around powers of two, up to 64000), of plain characters and of escapes, with labels, an entry and more data behind them", lens.len(), if r.thorough { 3000 } else { 700 }));
    for c in lens.chunks(40) {
        let texts: Vec<Vec<u8>> = c
            .iter()
            .flat_map(|&n| {
                ["y", "\\n", "\\x41", "\u{e9}"].map(|ch| {
                    let k = n / if ch == "\u{e9}" { 2 } else { 1 };
                    format!(".seg data\n.byte 1\n.string {}\ne:\n.byte 2\n.seg text\n.string {}\n.entry\nf:\njmp e\n.wide f\n", ch.repeat(k), &ch.repeat(k.min(700))).into_bytes()
                })
            })
            .collect();
        sources(r, &w, &texts, false, false);
    }
    // names: every ordered pair of different ones
    let mut names: Vec<String> = [
        "a", "A", "b", "w", "x", "o", "_", "__", "_0", "a0", "a00", "ab", "aB", "abc", "ABC", "Abc", "abcd", "bca", "xb", "aw", "b0", "x1", "r11", "rx", "r1x", "R1", "R1l", "rpc", "r10l", "rfl", "Rs", "rS", "data", "text", "heap", "zero", "entry", "include", "global", "nop", "add", "jmp", "main", "null", "true", "\u{e9}", "\u{c9}",
        "e\u{e9}", "\u{65e5}\u{672c}", "\u{3b1}", "\u{391}", "a_b", "a__b", "ab_", "_ab",
    ]
    .iter()
    .map(|n| n.to_string())
    .collect();
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65535, 65536] {
        // a long one that differs from the others in its last character only
        if n <= 20000 {
            names.push(format!("{}y", "n".repeat(n - 1)));
        }
        names.push(format!("{}z", "n".repeat(n - 1)));
    }
    r.bound(format!("all ordered pairs of {} names of labels (case, prefixes, names of registers in capitals, directives, mnemonics, other scripts, up to 65536 characters): one global, one internal, both used", names.len()));
    let texts: Vec<Vec<u8>> = names
        .iter()
        .flat_map(|a| names.iter().filter(move |b| *b != a && a.len() + b.len() < 30_000).map(move |b| format!(".global {a}\n.seg text\njmp {b}\n{a}:\nload r1, r2, {a}\n{b}:\n.seg data\n.wide {b}\n.wide {a}\n").into_bytes()))
        .chain(names.iter().map(|a| format!(".ref {a}\n.seg text\njez {a}\n").into_bytes()))
        .filter(|t| t.len() < 60_000)
        .collect();
    sources(r, &w, &texts, false, false);
    // names of source files: every file has its own object beside it
    let dir = w.dir();
    for (i, n) in ["two words", "a.b.c", ".hidden", ".hidden.telda", "noext", "x.to.telda", "x.TO", "se;mi.telda", "qu'o\"te", "caf\u{e9}.telda", "-v", "--", "sub/m.telda", "./sub/../m2.telda", "d.d/x", "UP.TELDA", "trail."].iter().enumerate() {
        let t = format!(".seg text\nl{i}:\njmp l{i}\n").into_bytes();
        std::fs::create_dir_all(dir.join(n).parent().unwrap()).unwrap();
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        std::fs::write(dir.join(n), &t).unwrap();
        let names = [n.to_string()];
        let Some(res) = tc(r, &dir, &names, true) else { return };
        r.add(1, 1, 1);
        r.outcome("names of files", 1);
        verdict(r, &|| format!("a source file called {n}"), &assemble(n, &|p| (p == *n).then(|| t.clone()), false), &res[0], false);
        if std::fs::read(dir.join(n)).ok() != Some(t) {
            r.violation("the assembler changes its source", format!("a source file called {n}"));
        }
    }
    // several sources in one call, of the same name in several folders too, and many
    let mut calls: Vec<Vec<String>> = vec![];
    let some = ["m.telda", "x/m.telda", "y/m.telda", "x/y/m.telda", "m", "M.telda", "n.telda"];
    for a in some {
        for b in some {
            for c in some {
                let mut v: Vec<String> = vec![];
                for n in [a, b, c] {
                    // two of them would have the same object
                    if !v.iter().any(|m| Path::new(m).with_extension("") == Path::new(n).with_extension("")) {
                        v.push(n.into());
                    }
                }
                calls.push(v);
            }
        }
    }
    for n in [10usize, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000] {
        calls.push((0..n).map(|i| format!("many{i}.telda")).collect());
        calls.push((0..n).map(|i| format!("f{i}/m.telda")).collect());
    }
    calls.sort();
    calls.dedup();
    r.bound(format!("{} calls with several sources: all choices of up to 3 of {} names in several folders, up to 1000 sources in one or as many folders; without a mistake and with one in the first, the middle or the last", calls.len(), some.len()));
    par(r, &calls, |names| {
        let dir = w.dir();
        for n in names {
            std::fs::create_dir_all(dir.join(n).parent().unwrap()).unwrap();
        }
        for bad in [None, Some(0), Some(names.len() / 2), Some(names.len() - 1)] {
            let text = |i: usize| format!(".seg text\nl{i}:\n{}jmp l{i}\n.wide {i}\n", if bad == Some(i) { "mistake\n" } else { "" }).into_bytes();
            for (i, n) in names.iter().enumerate() {
                std::fs::write(dir.join(n), text(i)).unwrap();
            }
            let Some(res) = tc(r, &dir, names, true) else { return };
            for (i, (n, x)) in names.iter().zip(&res).enumerate() {
                verdict(r, &|| format!("tc {names:?}, file {n}\n{}", shown(&text(i))), &assemble(n, &|p| (p == n).then(|| text(i)), false), x, false);
                r.add(visit(hash_bytes(format!("{names:?} {bad:?} {i}").as_bytes())) as u64, 1, 1);
            }
        }
    });
    // over the object of another program, which differs in little, from a source that may be older
    let bases = [
        ".global m\n.seg text\nm:\n.entry\ncall f\nhalt\nf:\nldi r1, x\nret 2\n.seg data\nx:\n.byte 7\n.wide f\n",
        ".ref q\n.seg rodata\ns:\n.string \"abc\"\n.seg text\nnop\njmp q\nt:\n.entry\njmp s\n",
    ];
    let changes = [
        ("m", "n"), (".global m\n", ""), (".global m", ".global x"), (".global m", ".global f"), (".entry\n", ""), ("f:\n", "f:\n.entry\n"), ("call f", "jmp f"), ("call f", "call x"), ("call f", "call m"), ("call f", "call 0"), ("halt\n", ""), ("halt\n", "nop\n"), ("r1, x", "r2, x"), ("ret 2", "ret 3"), ("ret 2", "ret"), ("seg data", "seg rodata"),
        ("seg data", "seg heap"), ("byte 7", "byte 8"), ("wide f", "wide x"), ("wide f", "wide 0"), (".wide f", ".byte 1\n.byte 2"), ("x:\n.byte 7\n", ".byte 7\nx:\n"), ("ref q", "ref r"), ("jmp q", "jez q"), ("jmp q", "jmp s"), ("abc", "abd"), ("abc", "ab"), ("abc", "abcdefghij"), ("t:\n", ""), ("s:", "z:\ns:"), ("jmp s", "jmp t"), (".ref q\n", ".global q\n"),
    ];
    let mut progs: Vec<String> = vec!["".into(), ".seg text\nhalt\n".into()];
    for b in bases {
        progs.push(b.into());
        for (o, n) in changes {
            let t = b.replace(o, n);
            let t = if (o, n) == (".entry\n", "") { t } else if n.contains(".entry") { t.replacen(".entry\n", "", 1) } else { t };
            if !progs.contains(&t) {
                progs.push(t);
            }
        }
    }
    let progs: Vec<Vec<u8>> = progs.into_iter().filter(|t| { let a = assemble("p", &|_| Some(t.clone().into_bytes()), false); !a.fail && !a.open }).map(|t| t.into_bytes()).collect();
    r.bound(format!("each of {} programs that differ in little assembled to the file that holds the object of each other one, the source being newer or older than that object", progs.len()));
    let olds: Vec<(usize, bool)> = (0..progs.len()).flat_map(|a| [(a, false), (a, true)]).collect();
    par(r, &olds, |&(a, past)| {
        let dir = w.dir();
        let names: Vec<String> = (0..progs.len()).map(|i| format!("s{i}.telda")).collect();
        for n in &names {
            std::fs::write(dir.join(n), &progs[a]).unwrap();
        }
        if tc(r, &dir, &names, true).is_none() {
            return;
        }
        for (n, t) in names.iter().zip(&progs) {
            std::fs::write(dir.join(n), t).unwrap();
            if past {
                let f = std::fs::File::options().write(true).open(dir.join(n)).unwrap();
                f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)).unwrap();
            }
        }
        let out = run(std::process::Command::new(tool("tc")).current_dir(&dir).args(&names), b"", 60);
        if !out.ok() {
            return r.violation("valid sources are refused where objects of others are", format!("{}\n{}", shown(&progs[a]), out.text()));
        }
        for (n, t) in names.iter().zip(&progs) {
            let x = Res { obj: std::fs::read(dir.join(n).with_extension("to")).ok(), reported: HashSet::new(), text: String::new() };
            verdict(r, &|| format!("{}\nassembled over the object of (source {} than it)\n{}", shown(t), if past { "older" } else { "newer" }, shown(&progs[a])), &assemble(n, &|p| (p == n).then(|| t.clone()), false), &x, false);
            r.add(visit(hash_bytes(format!("{a} {past} {n}").as_bytes())) as u64, 2, 1);
        }
    });
    // many labels and relocations: indices beyond a byte, all of them named
    for n in [255usize, 256, 257, 300, 1000] {
        let mut t = String::from(".seg text\n");
        for i in 0..n {
            t += &format!("l{i}:\njmp l{}\n", (i * 7 + 3) % n);
        }
        t += ".seg data\n";
        for i in 0..n {
            t += &format!(".wide l{i}\n");
        }
        sources(r, &w, &[t.into_bytes()], false, false);
    }
    r.assume("the address of a label in a segment without any byte is not settled; a program that ends within the last 1 KiB of the address space may be refused");
}

// ---------------------------------------------------------------- C21

/// what a position does with a literal: Some(bytes) or an error
fn place(pos: usize, l: &Lit) -> Option<Vec<u8>> {
    let (kind, head): (char, Vec<u8>) = match pos {
        0 => ('1', vec![]),
        1 => ('2', vec![]),
        2 => ('1', vec![0x3f, 0x10]),
        _ => ('2', vec![0x40, 0x10]),
    };
    let mut v = head;
    match (kind, l) {
        ('1', Lit::Num(n)) => v.push(*n as u8),
        ('1', Lit::Byte(n)) => v.push(*n),
        ('2', Lit::Num(n)) => v.extend((*n as u16).to_le_bytes()),
        ('2', Lit::Wide(n)) => v.extend(n.to_le_bytes()),
        _ => return None,
    }
    Some(v)
}
fn literal_line(pos: usize, s: &str) -> String {
    match pos {
        0 => format!(".byte {s}"),
        1 => format!(".wide {s}"),
        2 => format!("ldi r1l, {s}"),
        _ => format!("ldi r1, {s}"),
    }
}

/// Every text that one inserted, replaced or removed character makes of it, and all changes of case
fn edits(s: &str, chars: &[char]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    for i in 0..=c.len() {
        for &x in chars {
            v.push(c[..i].iter().chain([&x]).chain(&c[i..]).collect());
            if i < c.len() {
                v.push(c[..i].iter().chain([&x]).chain(&c[i + 1..]).collect());
            }
        }
        if i < c.len() {
            v.push(c[..i].iter().chain(&c[i + 1..]).collect());
        }
        if i + 1 < c.len() {
            v.push(c[..i].iter().chain([&c[i + 1], &c[i]]).chain(&c[i + 2..]).collect());
        }
    }
    v.push(s.to_uppercase());
    v.push(s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect());
    v
}
fn printable() -> Vec<char> {
    (0x20..0x7fu8).map(|c| c as char).chain(['\u{e9}', '\u{661}', '\u{ff11}', '\u{200b}']).collect()
}

fn c21(r: &Report) {
    let w = Work(Scratch::new("c21"));
    let full = true;
    let len = if r.thorough { 6 } else { 5 };
    r.bound(format!("all literals of up to {len} characters over 16 characters in 4 places (.byte, .wide, byte and wide immediate); all numbers -70000..70000 in decimal and all 65536 in hexadecimal, octal and binary with and without suffixes, numbers around 2^31; all character literals of one character and of every escape; every \\xHH over all 95x95 printable digit pairs; all strings of up to {} characters over 14 characters", if r.thorough { 6 } else { 5 }));
    let al = ["0", "1", "7", "8", "9", "a", "b", "f", "w", "x", "o", "-", "+", "'", "\\", "n"];
    let mut lits: Vec<String> = Vec::new();
    let mut last = vec![String::new()];
    for _ in 0..len {
        last = last.iter().flat_map(|t| al.iter().map(move |l| format!("{t}{l}"))).collect();
        lits.extend(last.clone());
    }
    // numbers
    let step = if full { 1 } else { 7 };
    for n in -70000i64..=70000 {
        if n % step == 0 || n.abs() < 600 || (n.abs() - 32768).abs() < 300 || (n.abs() - 65536).abs() < 300 {
            lits.push(format!("{n}"));
            lits.push(format!("{n}w"));
            if n.abs() < 600 {
                lits.push(format!("{n}b"));
                lits.push(format!("+{}", n.abs()));
                lits.push(format!("0{}", n.abs()));
            }
        }
    }
    for n in (0..=0x10400u32).filter(|n| *n as i64 % step == 0 || *n < 0x300 || *n > 0xff00) {
        for s in [format!("0x{n:x}"), format!("0o{n:o}"), format!("0b{n:b}"), format!("0x{n:X}w"), format!("0x{n:04x}"), format!("0o{n:o}w"), format!("0b{n:b}w")] {
            lits.push(s);
        }
        if n < 0x300 {
            for s in [format!("0x{n:x}b"), format!("0o{n:o}b"), format!("0b{n:b}b"), format!("0x-{n:x}"), format!("0b{n:016b}"), format!("-0x{n:x}")] {
                lits.push(s);
            }
        }
    }
    for n in [1i64 << 31, 1 << 32, 1 << 33, 1 << 16, 1 << 40] {
        for d in -2..=2 {
            for s in [n + d, -(n + d)] {
                lits.push(format!("{s}"));
                lits.push(format!("{s}w"));
                lits.push(format!("{s}b"));
                lits.push(format!("0x{:x}", s.abs()));
            }
        }
    }
    // characters
    for c in 0x20..0x7fu8 {
        let c = c as char;
        lits.push(format!("'{c}'"));
        lits.push(format!("'\\{c}'"));
        lits.push(format!("'{c}{c}'"));
        lits.push(format!("'{c}"));
        for d in 0x20..0x7fu8 {
            lits.push(format!("'\\x{c}{}'", d as char));
        }
    }
    lits.extend(["'é'".into(), "'ÿ'".into(), "'\t'".into(), "''".into(), "'".into(), "'\\x'".into(), "'\\x4'".into(), "'\\x411'".into(), "\\n".into(), "'\\xé'".into(), "'\\é'".into()]);
    // defined names would be references
    lits.retain(|l| !ident(l) && !l.contains([' ']) || l.starts_with('\''));
    let bases = [
        "0", "5", "+7", "-1", "127", "-128", "255", "256", "1000", "65535", "-32768", "0x1f", "0xA0", "0xfw", "0x7fffw", "0xab", "0o17", "0o377b", "0o17w", "0b101", "0b1w", "0b11111111b", "5b", "-5b", "300w", "-300w", "'a'", "' '", "','", "'\\n'", "'\\x41'", "'\\''", "'\\\\'", "0x0",
        "00012",
    ];
    r.bound(format!("{} literals with every single character inserted, replaced, removed or exchanged with its neighbour, over {} characters, and in capitals", bases.len(), printable().len()));
    for b in bases {
        lits.extend(edits(b, &printable()).into_iter().filter(|l| !ident(l)));
    }
    lits.sort();
    lits.dedup();
    // operands ending in a colon would be labels; blanks around are trimmed
    lits.retain(|l| l.trim() == l && !l.ends_with(':'));
    r.count("literals", lits.len() as u64);
    let mut valid: Vec<Vec<(String, Vec<u8>)>> = vec![vec![]; 4];
    let mut invalid: Vec<Vec<String>> = vec![vec![]; 4];
    // line, acceptable results; a result that is a known finding
    let mut special: Vec<(String, Vec<Option<Vec<u8>>>, Option<Option<Vec<u8>>>)> = Vec::new();
    for l in &lits {
        for pos in 0..4 {
            // a comma separates operands (except for that of the literal ',')
            if pos >= 2 && l.contains(',') && l != "','" {
                continue;
            }
            let t = literal_line(pos, l);
            // .byte takes a literal; a name in .wide or a wide immediate is an (undefined) label
            let flat = |x: &Lit| match x {
                Lit::Open(x) => (place(pos, x), true),
                x => (place(pos, x), false),
            };
            match lit(l) {
                Lit::HexB(doc, alt) => {
                    let (d, o1) = flat(&doc);
                    let (a, _) = flat(&alt);
                    let mut ok = vec![d];
                    if o1 {
                        ok.push(None);
                    }
                    special.push((t, ok, Some(a)));
                }
                Lit::Open(x) => special.push((t, vec![None, place(pos, &x)], None)),
                x => match place(pos, &x) {
                    Some(b) => valid[pos].push((t, b)),
                    None => invalid[pos].push(t),
                },
            }
        }
    }
    for p in 0..4 {
        r.outcome("valid literals", valid[p].len() as u64);
        r.outcome("invalid literals", invalid[p].len() as u64);
    }
    r.outcome("literals with several readings", special.len() as u64);
    let vj: Vec<&[(String, Vec<u8>)]> = valid.iter().flat_map(|v| v.chunks(12000)).collect();
    par(r, &vj, |c| listing(r, &w, ".seg text\n", c, None, "valid literals compared"));
    let ij: Vec<&[String]> = invalid.iter().flat_map(|v| v.chunks(400)).collect();
    par(r, &ij, |c| {
        let dir = w.dir();
        std::fs::write(dir.join("i.telda"), format!(".seg text\n{}\n", c.join("\n"))).unwrap();
        let Some(res) = tc(r, &dir, &["i.telda".into()], false) else { return };
        r.add(c.len() as u64, c.len() as u64, 1);
        for (i, l) in c.iter().enumerate() {
            if res[0].obj.is_some() || !res[0].reported.contains(&("i.telda".into(), i + 2)) {
                return r.violation(format!("a malformed or unsuitable literal is not reported: {l:?}"), format!("line {} of\n{}", i + 2, shown(c.join("\n").as_bytes())));
            }
        }
    });
    let sj: Vec<_> = special.chunks(200).collect();
    par(r, &sj, |c| {
        let dir = w.dir();
        let names: Vec<String> = (0..c.len()).map(|i| format!("s{i}.telda")).collect();
        for (n, s) in names.iter().zip(*c) {
            std::fs::write(dir.join(n), format!(".seg text\n{}\n", s.0)).unwrap();
        }
        let Some(res) = tc(r, &dir, &names, false) else { return };
        for ((t, ok, known), x) in c.iter().zip(&res) {
            let got = x.obj.as_ref().map(|f| match judge(f) {
                Verdict::Object(_, o) => o.segs.get(&TEXT).map(|s| s.1.clone()).unwrap_or_default(),
                _ => vec![0xde, 0xad],
            });
            r.add(1, 1, 1);
            if ok.contains(&got) {
                continue;
            }
            if known.as_ref() == Some(&got) {
                r.known("hex-b-suffix", t);
                continue;
            }
            r.violation(format!("{t:?} gives {got:02x?}"), format!("expected one of {ok:02x?}"));
        }
    });
    // strings
    let al = ["\\", "r", "t", "n", "0", "x", "'", "\"", "a", "f", "é", "g", " ", "1"];
    let mut strs: Vec<String> = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..(if r.thorough { 6 } else { 5 }) {
        last = last.iter().flat_map(|t| al.iter().map(move |l| format!("{t}{l}"))).collect();
        strs.extend(last.clone());
    }
    for c in 0x20..0x7fu8 {
        for d in 0x20..0x7fu8 {
            strs.push(format!("\\x{}{}", c as char, d as char));
            strs.push(format!("a\\{}{}", c as char, d as char));
        }
    }
    for c in ["ÿ", "€", "𝄞", "\t", "\u{7f}", "\u{1}"] {
        strs.push(format!("a{c}b"));
        strs.push(format!("\\{c}b"));
        strs.push(format!("\\x{c}b"));
    }
    // lines are trimmed
    strs.retain(|s| s.trim_end() == s);
    let (ok, bad): (Vec<String>, Vec<String>) = strs.into_iter().partition(|s| unescape(s.as_bytes()).is_some());
    r.outcome("valid strings", ok.len() as u64);
    r.outcome("invalid strings", bad.len() as u64);
    let v: Vec<(String, Vec<u8>)> = ok.iter().map(|s| (if s.is_empty() { ".string".into() } else { format!(".string {s}") }, unescape(s.as_bytes()).unwrap())).collect();
    let vj: Vec<&[(String, Vec<u8>)]> = v.chunks(10000).collect();
    par(r, &vj, |c| listing(r, &w, ".seg text\n", c, None, "strings compared"));
    let ij: Vec<&[String]> = bad.chunks(400).collect();
    par(r, &ij, |c| {
        let dir = w.dir();
        let t: String = c.iter().map(|s| format!(".string {s}\n")).collect();
        std::fs::write(dir.join("i.telda"), format!(".seg text\n{t}")).unwrap();
        let Some(res) = tc(r, &dir, &["i.telda".into()], false) else { return };
        r.add(c.len() as u64, c.len() as u64, 1);
        for (i, l) in c.iter().enumerate() {
            if res[0].obj.is_some() || !res[0].reported.contains(&("i.telda".into(), i + 2)) {
                return r.violation(format!("a malformed string is not reported: {l:?}"), format!("line {}", i + 2));
            }
        }
    });
    // long strings: what is special at any place, and lengths around every border
    let special = ["\\n", "\\x41", "\\\\", "\\0", "é", "𝄞", "\"", ";", " ", "\\'", "#", "//"];
    let near = if full { 130 } else { 66 };
    let mut long: Vec<(String, Vec<u8>)> = Vec::new();
    for n in 0..near {
        for k in 0..=n {
            for s in special.iter().take(if n % 8 < 2 || full { special.len() } else { 5 }) {
                long.push((format!(".string {}{s}{}z", "p".repeat(k), "q".repeat(n - k)), vec![]));
            }
        }
    }
    for n in (near..1100).chain([2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 40000, 65000]) {
        for s in ["y", "\\n", "\\x7fb", "é", "ab\\\\"] {
            let one = unescape(s.as_bytes()).unwrap().len();
            if n < 2000 || n * one <= 65000 {
                long.push((format!(".string {}z", s.repeat(n)), vec![]));
                long.push((format!(".string {}{s}{}z", "p".repeat(n / 2 - 1), "q".repeat(n / 2)), vec![]));
            }
        }
    }
    long.retain(|x| !x.0.ends_with(' '));
    for x in &mut long {
        x.1 = unescape(&x.0.as_bytes()[8..]).unwrap();
    }
    r.count("long strings", long.len() as u64);
    r.bound(format!("12 special items at every place of strings of up to {near} characters, strings of every length up to 1100 and around powers of two up to 65000"));
    // as many per file as fit into a segment
    let mut files: Vec<Vec<(String, Vec<u8>)>> = vec![vec![]];
    let mut size = 0;
    for x in long {
        size += x.1.len();
        if size > 60_000 {
            files.push(vec![]);
            size = x.1.len();
        }
        files.last_mut().unwrap().push(x);
    }
    par(r, &files, |c| listing(r, &w, ".seg text\n", c, None, "long strings compared"));
    r.assume("not settled: a sign in front of a prefix, numbers beyond 32 bits without suffix, the literal 0b");
}

// ---------------------------------------------------------------- C22

fn c22(r: &Report) {
    let w = Work(Scratch::new("c22"));
    let thorough = r.thorough;
    let inc: Vec<&str> = vec![
        "", ".seg text\nnop\n", "nop\n", ".seg data\nb:\n.byte 5\n", "b:\n", ".seg text\nb:\njmp a\n.entry\n", ".global b\n", ".seg text\nfoo\n\nbar r1\n", "; nothing\n.include two.telda\n.seg text\nret\n",
        ".seg text\na:\nhalt\n", ".include sub/three.telda\n.include sub/three.telda\n", ".seg heap\n.wide b\n.seg text\n.seg data\n", ".include one.telda\n", ".ref b\n.seg text\ncall b\n",
    ];
    let two: Vec<&str> = vec!["", ".seg text\nnop\nc:\n", "ret\n", ".seg data\n.wide a\n", ".seg text\nbad line\n", ".include ../main_none.telda\n", ".include sub/three.telda\n", ".include main0.telda\n"];
    let three: Vec<&str> = vec![".seg rodata\n.byte 3\n", "halt\n", ".include three_b.telda\n.seg text\nsyscall\n", ".include ../two.telda\n"];
    let three_b = ".seg data\n.byte 9\n";
    let al = [".include one.telda", ".include two.telda", ".include sub/three.telda", ".seg text", ".seg data", "a:", "jmp b", "nop", ".include ./sub/../one.telda", ".entry", ".include none.telda"];
    let depth = if thorough { 4 } else { 3 };
    r.bound(format!("all main files of up to {depth} lines out of {} x {} contents of the first x {} of the second x {} of the third included file (in a sub-folder, which includes relative to itself), nested, repeated, missing, cyclic", al.len(), inc.len(), two.len(), three.len()));
    let mut mains: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for _ in 0..depth {
        last = last.iter().flat_map(|t| al.iter().map(move |l| format!("{t}{l}\n"))).collect();
        mains.extend(last.clone());
    }
    mains.retain(|m| m.contains(".include"));
    // main0 can be included by others
    mains.insert(0, ".seg text\nm:\nnop\n".into());
    let uses = |m: &str, f: &str| m.contains(f);
    let mut jobs = Vec::new();
    for i in 0..inc.len() {
        for j in 0..two.len() {
            for k in 0..three.len() {
                jobs.push((i, j, k));
            }
        }
    }
    par(r, &jobs, |&(i, j, k)| {
        let dir = w.dir();
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        files.insert("one.telda".into(), inc[i].into());
        files.insert("two.telda".into(), two[j].into());
        files.insert("sub/three.telda".into(), three[k].into());
        files.insert("sub/three_b.telda".into(), three_b.into());
        for (n, m) in mains.iter().enumerate() {
            // which files matter for this main file: skip those explored with another index already
            let t1 = uses(m, "one.telda");
            let t2 = uses(m, "two.telda") || t1 && uses(inc[i], "two.telda") || (uses(m, "three.telda") || t1 && uses(inc[i], "three.telda")) && uses(three[k], "two.telda");
            let t3 = uses(m, "three.telda") || t1 && uses(inc[i], "three.telda") || t2 && uses(two[j], "three.telda");
            if n != 0 && (!t1 && i != 0 || !t2 && j != 0 || !t3 && k != 0) {
                continue;
            }
            files.insert(format!("main{n}.telda"), m.clone().into_bytes());
        }
        for (p, b) in &files {
            std::fs::write(dir.join(p), b).unwrap();
        }
        // through a folder in the path as well
        let names: Vec<String> = files.keys().filter(|n| n.starts_with("main")).enumerate().map(|(x, n)| if x % 5 == 4 { format!("./sub/../{n}") } else { n.clone() }).collect();
        let lookup = |p: &str| -> Option<Vec<u8>> {
            let mut v: Vec<&str> = Vec::new();
            for c in p.split('/') {
                match c {
                    "." => (),
                    ".." => {
                        v.pop()?;
                    }
                    c => v.push(c),
                }
            }
            files.get(&v.join("/")).cloned()
        };
        let describe = |n: &str| {
            let mut s = format!("main file {n}:\n{}", String::from_utf8_lossy(&lookup(n).unwrap()));
            for (p, b) in files.iter().filter(|f| !f.0.starts_with("main")) {
                s += &format!("--- {p}\n{}", String::from_utf8_lossy(b));
            }
            s
        };
        // errors in included files carry their own names: keep one process per failing file
        let (good, bad): (Vec<String>, Vec<String>) = names.into_iter().partition(|n| !assemble(n, &lookup, false).fail);
        for c in good.chunks(100).map(|c| c.to_vec()).chain(bad.iter().map(|b| vec![b.clone()])) {
            let Some(res) = tc(r, &dir, &c, true) else {
                println!("    in {}", describe(&c[0]));
                return;
            };
            for (n, x) in c.iter().zip(&res) {
                let a = assemble(n, &lookup, false);
                r.add(1, 1 + a.errors.len() as u64, 1);
                // paths in messages: compare the files they name
                let norm = |p: &str| -> String {
                    let mut v: Vec<&str> = Vec::new();
                    for c in p.split('/') {
                        match c {
                            "." => (),
                            ".." => {
                                v.pop();
                            }
                            c => v.push(c),
                        }
                    }
                    v.join("/")
                };
                let mut a2 = a;
                for e in &mut a2.errors {
                    e.0 = norm(&e.0);
                }
                let x2 = Res { obj: x.obj.clone(), reported: x.reported.iter().map(|(p, n)| (norm(p), *n)).collect(), text: x.text.clone() };
                verdict(r, &|| describe(n), &a2, &x2, true);
                if r.stopped() {
                    return;
                }
            }
        }
        for n in files.keys() {
            let _ = std::fs::remove_file(dir.join(n));
        }
    });
    // the segment goes on after an include, whatever the included file does
    let kinds = ["text", "data", "rodata", "heap"];
    r.bound("an include in every segment (or none) followed by further lines, all included files of up to 2 segments with and without bytes, nested twice, every kind of line after it");
    let mut jobs: Vec<(String, String, String, String)> = Vec::new();
    for before in std::iter::once("").chain(kinds) {
        for filled in [false, true] {
            for a in std::iter::once("").chain(kinds) {
                for b in std::iter::once("").chain(kinds) {
                    for nest in 0..3 {
                        for after in [".byte 2\n", "z:\n.byte 2\n.global z\n", ".wide x\n", "nop\n", ".entry\n.byte 1\n", ".include d.telda\n.byte 9\n"] {
                            let mut main = if before.is_empty() { String::new() } else { format!(".seg {before}\n") };
                            if filled && !before.is_empty() {
                                main += "x:\n.byte 1\n";
                            }
                            main += ".include b.telda\n";
                            main += after;
                            let part = |s: &str, n: u8| if s.is_empty() { String::new() } else { format!(".seg {s}\n.byte {n}\n") };
                            let (mut inc, mut c) = (format!("{}{}", part(a, 0x51), part(b, 0x52)), String::new());
                            if nest == 1 {
                                inc = format!("{}.include c.telda\n{}", part(a, 0x51), if a.is_empty() { "" } else { ".byte 0x53\n" });
                                c = part(b, 0x52);
                            } else if nest == 2 {
                                c = std::mem::replace(&mut inc, ".include c.telda\n; only that\n".into());
                            }
                            jobs.push((main, inc, c, ".seg heap\n.byte 0x61\n".into()));
                        }
                    }
                }
            }
        }
    }
    let chunks: Vec<&[(String, String, String, String)]> = jobs.chunks(60).collect();
    par(r, &chunks, |c| {
        let dir = w.dir();
        let mut names = Vec::new();
        let mut fs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (i, (m, b, c, d)) in c.iter().enumerate() {
            let _ = std::fs::create_dir_all(dir.join(format!("s{i}")));
            for (n, t) in [("a", m), ("b", b), ("c", c), ("d", d)] {
                let n = format!("s{i}/{n}.telda");
                std::fs::write(dir.join(&n), t).unwrap();
                fs.insert(n, t.clone().into_bytes());
            }
            names.push(format!("s{i}/a.telda"));
        }
        let Some(res) = tc(r, &dir, &names, true) else { return };
        for (n, x) in names.iter().zip(&res) {
            let a = assemble(n, &|p: &str| fs.get(p).cloned(), false);
            r.add(1, 1, 1);
            let show = || fs.iter().filter(|f| f.0.starts_with(&n[..n.len() - 7])).map(|(p, b)| format!("--- {p}\n{}", String::from_utf8_lossy(b))).collect::<String>();
            verdict(r, &show, &a, x, false);
        }
    });
    // deep nesting and many includes
    let dir = w.dir();
    let depths: Vec<usize> = (1..=if thorough { 400 } else { 150 }).collect();
    r.bound(format!("chains of includes up to {} deep through the same or ever deeper folders, under different names or one, with a segment, labels and a mistake at every depth; files included up to {} times in a row", depths.last().unwrap(), depths.last().unwrap()));
    par(r, &depths, |&n| {
        let dir = w.dir();
        for (folders, same) in [(false, false), (true, false), (true, true)] {
            // one name in every folder
            let called = |i: usize| if same { "f.telda".to_string() } else { format!("f{i}.telda") };
            // path lengths are limited
            if folders && n > 300 {
                continue;
            }
            for bad in [None, Some(n), Some(n / 2)] {
                let mut fs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
                let mut at = String::new();
                for i in 0..=n {
                    let seg = ["text", "data", "text", "rodata", "heap"][i % 5];
                    let mut t = format!(".seg {seg}\nl{i}:\n.byte {}\n", i % 256);
                    if bad == Some(i) {
                        t += "nonsense\n";
                    }
                    if i < n {
                        t += &format!(".include {}{}\n.wide l{}\n", if folders { "d/" } else { "" }, called(i + 1), i + 1);
                    } else {
                        t += ".wide l0\n.global l0\n";
                    }
                    let _ = std::fs::create_dir_all(dir.join(&at));
                    let name = format!("{at}{}", called(i));
                    std::fs::write(dir.join(&name), &t).unwrap();
                    fs.insert(name, t.into_bytes());
                    if folders {
                        at += "d/";
                    }
                }
                let Some(res) = tc(r, &dir, &[called(0)], true) else { return };
                let a = assemble(&called(0), &|p: &str| fs.get(p).cloned(), false);
                r.add(1, n as u64, 1);
                r.outcome("deep chains", 1);
                verdict(r, &|| format!("a chain of {n} includes, {}, mistake in {bad:?}", if same { "one name in deeper folders" } else if folders { "deeper folders" } else { "one folder" }), &a, &res[0], true);
                if r.stopped() {
                    return;
                }
            }
        }
        // in a row
        let mut fs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        fs.insert("r.telda".into(), b".byte 1\n.seg data\n.include s.telda\n.wide s\n".to_vec());
        fs.insert("s.telda".into(), b".byte 7\n.seg text\n".to_vec());
        let mut t = String::from(".seg text\ns:\n");
        for i in 0..n {
            t += &format!(".include r.telda\n.byte {}\n", i % 256);
            t += [".seg text\n", "", "; x\n"][i % 3];
        }
        fs.insert("row.telda".into(), t.into_bytes());
        for (n, b) in &mut fs {
            if n != "row.telda" {
                let mut t = b".seg text\n".to_vec();
                t.append(b);
                *b = t;
            }
            std::fs::write(dir.join(n), b).unwrap();
        }
        let Some(res) = tc(r, &dir, &["row.telda".into()], true) else { return };
        let a = assemble("row.telda", &|p: &str| fs.get(p).cloned(), false);
        r.add(1, n as u64, 1);
        verdict(r, &|| format!("{n} includes in a row"), &a, &res[0], true);
    });
    // names of files and folders
    let names: Vec<String> = [
        "plain.telda", "two words.telda", "a  b   c", "semi;colon.telda", "com,ma.telda", "quo\"te.telda", "'x'", ".hidden", "noext", "x.telda.telda", "x.to", "UPPER.TELDA", "#hash", "per%cent%20", "~", "~x", "$HOME",
        "*", "?.telda", "back\\slash.telda", "new\\nline", "\\x41", "tab\there", "equals=1", "(par)", "-v", "--help", "nop", "r1", ".include", "include", "text", "\u{e9}.telda", "\u{1f600}", "a//b".trim_end_matches("//b"), "...", "x:", ":", "0x10", "@at", "a.b.c", "<input>", "x y.z w",
    ]
    .iter()
    .map(|n| n.to_string())
    .chain([1, 2, 63, 64, 65, 127, 128, 129, 200, 254, 255].into_iter().map(|n| "n".repeat(n)))
    .collect();
    r.bound(format!("{} names of included files (with spaces, punctuation, quotes, escapes, other scripts, of up to 255 bytes) x {} names of the folder they are in (or none) x the including file in the same, another or no folder", names.len(), names.len()));
    let jobs: Vec<(usize, usize)> = (0..=names.len()).flat_map(|f| (0..names.len()).map(move |n| (f, n))).collect();
    par(r, &jobs, |&(f, n)| {
        let dir = w.dir();
        let (n, folder) = (&names[n], if f == names.len() { String::new() } else { format!("{}/", names[f]) });
        if folder.len() == n.len() + 1 && folder.starts_with(n.as_str()) && f % 5 != 0 {
            return;
        }
        let mut fs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut put = |p: &str, t: String| {
            let q = dir.join(p);
            std::fs::create_dir_all(q.parent().unwrap()).unwrap();
            std::fs::write(q, &t).unwrap();
            fs.insert(p.to_string(), t.into_bytes());
        };
        let top = format!("t{}/", f % 3);
        let main = format!("{}main.telda", if f % 3 == 0 { "" } else { &top });
        let top = if f % 3 == 0 { "" } else { &top };
        put(&format!("{top}{folder}{n}"), format!(".seg text\na:\nnop\n.include {}\n.wide b\n", if n == "last" { "end" } else { "last" }));
        if n != "plain.telda" || folder.is_empty() {
            put(&format!("{top}{folder}last"), ".seg data\nb:\n.byte 7\n.wide a\n".into());
        } else {
            put(&format!("{top}{folder}last"), ".seg data\nb:\nnonsense\n".into());
        }
        put(&main, format!(".seg rodata\n.include {folder}{n}\n.byte 3\n.wide b\n"));
        let Some(res) = tc(r, &dir, &[main.clone()], true) else { return };
        let a = assemble(&main, &|p: &str| fs.get(p).cloned(), false);
        r.add(1, 3, 1);
        r.outcome("names of files", 1);
        verdict(r, &|| format!("{main} includes {folder}{n}"), &a, &res[0], false);
        if let Some((p, l)) = a.errors.iter().find(|(p, l)| !res[0].text.lines().any(|t| t.starts_with(&format!("{p}:{l}")))) {
            r.violation(format!("line {l} of {p} is invalid but not reported"), format!("{main} includes {folder}{n}\n{}", res[0].text));
        }
        for p in fs.keys() {
            let _ = std::fs::remove_file(dir.join(p));
        }
        if !folder.is_empty() {
            let _ = std::fs::remove_dir_all(dir.join(format!("{top}{folder}")));
        }
    });
    // unreadable includes
    for t in [".include sub\n", ".seg text\nnop\n.include .\n", ".include nofolder/x.telda\n", ".include ..\n"] {
        std::fs::write(dir.join("u.telda"), t).unwrap();
        let Some(res) = tc(r, &dir, &["u.telda".into()], false) else { return };
        r.add(1, 1, 1);
        if res[0].obj.is_some() {
            r.violation("an include that cannot be read is accepted", t);
        }
    }
    r.assume("paths starting with / and empty paths are not settled");
}
