//! C32: the dump tool against the contents of the objects
use super::debug::text;
use super::*;
use std::collections::{BTreeMap, BTreeSet};

/// What is shown of one object
#[derive(Debug, Default)]
struct Part {
    head: String,
    symbols: Vec<(String, bool, Option<(u16, String)>)>,
    /// labels with the address of the next line, instructions, marked relocations
    lines: Vec<(u16, String)>,
    labels: Vec<(String, Option<u16>)>,
    relocs: Vec<(String, u16, Option<u16>)>,
    disassembly: bool,
}
fn hex(s: &str) -> Option<u16> {
    u16::from_str_radix(s.strip_prefix("0x")?, 16).ok()
}
/// Parse a listing; `heads` are the headings to expect in this order
fn parse(text: &str, heads: &[String]) -> Result<Vec<Part>, String> {
    let mut out: Vec<Part> = vec![];
    for l in text.lines() {
        if l.trim().is_empty() {
            if let Some(p) = out.last_mut() {
                p.labels.push(("".into(), None));
            }
            continue;
        }
        let bad = || Err(format!("unreadable line {l:?}"));
        if out.len() < heads.len() && l == format!("{}:", heads[out.len()]) {
            out.push(Part { head: heads[out.len()].clone(), ..Default::default() });
            continue;
        }
        let Some(p) = out.last_mut() else { return bad() };
        let t = l.trim();
        if let Some(s) = t.strip_prefix("RELOC: ") {
            let Some((n, a)) = s.rsplit_once(" @ ") else { return bad() };
            let Some(a) = hex(a.trim()) else { return bad() };
            p.relocs.push((n.trim().into(), a, None));
        } else if t.starts_with("GLOBAL ") || t.starts_with("local ") || t == "local" || t == "GLOBAL" {
            let (global, rest) = if let Some(x) = t.strip_prefix("GLOBAL") { (true, x) } else { (false, t.strip_prefix("local").unwrap()) };
            let rest = format!(" {} ", rest.trim());
            let Some((n, v)) = rest.rsplit_once(" = ") else { return bad() };
            let v = v.trim();
            let place = if v.starts_with("UNDEFINED") {
                None
            } else {
                let Some((a, s)) = v.split_once(" in ") else { return bad() };
                let Some(a) = hex(a) else { return bad() };
                Some((a, s.trim().to_string()))
            };
            p.symbols.push((n.trim().into(), global, place));
        } else if l.starts_with('<') {
            let Some(n) = l.strip_prefix('<').and_then(|x| x.split_once('>')) else { return bad() };
            if n.1 == ":" {
                p.labels.push((n.0.into(), None));
            }
        } else if let Some((a, x)) = t.split_once(':').filter(|x| x.0.len() == 4 && u16::from_str_radix(x.0, 16).is_ok()) {
            let a = u16::from_str_radix(a, 16).unwrap();
            for l in p.labels.iter_mut().rev().take_while(|l| l.1.is_none() && !l.0.is_empty()) {
                l.1 = Some(a);
            }
            for r in p.relocs.iter_mut().filter(|r| r.2.is_none()) {
                r.2 = Some(a);
            }
            p.lines.push((a, x.into()));
        } else if t == "disassembly:" {
            p.disassembly = true;
        } else if l.starts_with("  ") || t.ends_with(':') {
            // remarks such as data
        } else {
            return bad();
        }
    }
    Ok(out)
}

/// Names as the listing gives them: unnamed symbols have their number, the entry point its own
fn named(o: &Obj) -> Obj {
    let mut n = o.clone();
    for (i, s) in n.syms.iter_mut().enumerate() {
        s.name = s.name.trim().to_string();
        if s.name.is_empty() {
            s.name = format!("@L{i}");
        }
    }
    if let Some((t, a)) = o.entry {
        n.syms.push(sym(".entry", false, t, a));
    }
    n
}
fn ins(vm: &Vm, a: u16) -> Option<Vec<u8>> {
    let op = vm.peek(a, Acc::X).ok()?;
    (0..len_of(shape(op)) as u16).map(|i| vm.peek(a.wrapping_add(i), Acc::X).ok()).collect()
}
/// Code in straight line from the starts and everything named there
fn reach(n: &Obj, vm: &Vm, starts: &[u16]) -> BTreeMap<u16, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = starts.to_vec();
    while let Some(mut a) = todo.pop() {
        while !m.contains_key(&a) {
            let Some(b) = ins(vm, a) else { break };
            let imm = match shape(b[0]) {
                Shape::ImmW => Some(u16::from_le_bytes([b[1], b[2]])),
                Shape::LdiW | Shape::RegsW(_) if b.len() == 4 => Some(u16::from_le_bytes([b[2], b[3]])),
                _ => None,
            };
            if let Some(i) = imm.filter(|i| n.syms.iter().any(|s| s.loc == *i)) {
                todo.push(i);
            }
            let next = a.wrapping_add(b.len() as u16);
            let ends = matches!(b[0], 0 | 0x0a | 0x0d | 0x26) || b[0] == 0x40 && b[1] & 15 == 1 || shape_unknown(b[0]);
            m.insert(a, b);
            if ends {
                break;
            }
            a = next;
        }
    }
    m
}
fn shape_unknown(op: u8) -> bool {
    !mc::refasm::FORMS.iter().chain(mc::refasm::EXTRA).any(|f| f.1 == op) && op != 0
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Want<'a> {
    t: bool,
    d: bool,
    rel: bool,
    from: Option<&'a str>,
}
impl Want<'_> {
    fn args(&self) -> Vec<String> {
        let mut a = vec![];
        if self.t {
            a.push("-t".into());
        }
        if self.d {
            a.push("-d".into());
        }
        if self.rel {
            a.push("-R".into());
        }
        if let Some(f) = self.from {
            a.extend(["-D".into(), f.to_string()]);
        }
        a
    }
}

/// The listing of one object
fn holds(o: &Obj, p: &Part, w: &Want) -> Result<(), String> {
    // symbols
    let want: Vec<(String, bool, Option<(u16, String)>)> = match w.t {
        false => vec![],
        true => o.syms.iter().map(|s| (s.name.trim().to_string(), s.global, (s.ty != UNKNOWN).then(|| (s.loc, ty_name(s.ty).to_string())))).collect(),
    };
    let same = p.symbols.len() == want.len() && p.symbols.iter().zip(&want).all(|(a, b)| a.1 == b.1 && a.2 == b.2 && (a.0 == b.0 || b.0.is_empty() && a.0.starts_with('@')));
    if !same {
        return Err(format!("symbols {want:?}\nshown   {:?}", p.symbols));
    }
    // instructions
    if p.disassembly != w.d && w.d {
        return Err("no disassembly".into());
    }
    if !w.d {
        return match p.lines.is_empty() && p.relocs.is_empty() {
            true => Ok(()),
            false => Err("a disassembly that was not asked for".into()),
        };
    }
    let n = named(o);
    let vm = Vm::user(o, b"", 0);
    let starts: Vec<u16> = match w.from {
        Some(f) => f.split(',').map(|s| o.syms.iter().find(|x| x.name.trim() == s.trim()).expect("harness: symbol").loc).collect(),
        None => o.entry.iter().map(|e| e.1).chain(o.syms.iter().filter(|s| s.global).map(|s| s.loc)).collect(),
    };
    let code = reach(&n, &vm, &starts);
    let shown: BTreeSet<u16> = p.lines.iter().map(|l| l.0).collect();
    let expected: BTreeSet<u16> = code.keys().copied().collect();
    if let Some(a) = expected.difference(&shown).next() {
        return Err(format!("the instruction at {a:04x} is not shown"));
    }
    if let Some(a) = shown.difference(&expected).next() {
        return Err(format!("what is shown at {a:04x} is not reachable"));
    }
    for (a, rest) in &p.lines {
        let want = &code[a];
        let mut rest = rest.trim_start();
        let mut got = vec![];
        for _ in 0..want.len() {
            let (x, t) = rest.split_once(' ').unwrap_or((rest, ""));
            match u8::from_str_radix(x, 16) {
                Ok(v) if x.len() == 2 => got.push(v),
                _ => break,
            }
            rest = t.trim_start();
        }
        if got != *want {
            return Err(format!("the bytes at {a:04x} are {want:02x?}, shown {got:02x?}"));
        }
        text(&n, rest.trim_end(), want).map_err(|e| format!("at {a:04x}: {e}"))?;
    }
    // labels head what is at their address
    for (l, a) in p.labels.iter().filter(|l| !l.0.is_empty()) {
        let mut here = n.syms.iter().filter(|s| s.name == l.trim()).peekable();
        if here.peek().is_none() {
            return Err(format!("label {l:?} does not exist"));
        }
        if let Some(a) = a {
            if !here.any(|s| s.loc == *a) {
                return Err(format!("label {l:?} is shown at {a:04x}"));
            }
        } else if n.syms.iter().filter(|s| s.name == l.trim()).all(|s| ins(&vm, s.loc).is_some()) {
            return Err(format!("nothing is shown under label {l:?}"));
        }
    }
    // labels of code that is shown
    for s in n.syms.iter().filter(|s| starts.contains(&s.loc) && code.contains_key(&s.loc) && s.ty != UNKNOWN) {
        let is_start = s.global || Some(s.loc) == o.entry.map(|e| e.1);
        if is_start && w.from.is_none() && !p.labels.iter().any(|l| l.1 == Some(s.loc)) {
            return Err(format!("the label {:?} is not shown", s.name));
        }
    }
    // relocations
    let mut want: BTreeSet<(String, u16, u16)> = BTreeSet::new();
    if w.rel {
        for (a, b) in &code {
            for r in &o.rels {
                if r.loc >= *a && (r.loc as u32) < *a as u32 + b.len() as u32 {
                    want.insert((n.syms[r.sym as usize].name.clone(), r.loc, *a));
                }
            }
        }
    }
    let got: BTreeSet<(String, u16, u16)> = p.relocs.iter().filter_map(|r| r.2.map(|a| (r.0.clone(), r.1, a))).collect();
    if got != want || p.relocs.iter().any(|r| r.2.is_none()) {
        return Err(format!("relocations (symbol, location, instruction) {want:x?}\nshown {:x?}", p.relocs));
    }
    Ok(())
}

/// Dump files; `inside` gives the objects of each, None for unreadable ones
fn dump(r: &Report, d: &Path, files: &[String], inside: &[Option<Vec<(String, &Obj)>>], w: &Want) -> bool {
    let mut args = w.args();
    args.extend(files.iter().cloned());
    let out = run(start(d, "tobjdump").args(&args), b"", 60);
    let objs: Vec<&(String, &Obj)> = inside.iter().flatten().flatten().collect();
    let bad = |m: &str, e: String, o: Option<&Obj>| {
        let t = text_of(&out.stdout);
        r.violation(m, format!("tobjdump {:?}{}\n{e}\n{}exit={:?} stderr={:?}\n{}", w.args(), if files.len() < 8 { format!(" {files:?}") } else { String::new() }, o.map(|o| format!("{o:x?}\n")).unwrap_or_default(), out.code, text_of(&out.stderr), &t.chars().take(3000).collect::<String>()));
        false
    };
    if out.timeout || out.panicked() || out.code.is_none() {
        return bad("the dump crashes or hangs", String::new(), objs.first().filter(|_| objs.len() == 1).map(|o| o.1));
    }
    let unreadable = inside.iter().filter(|i| i.is_none()).count();
    if (unreadable > 0) != out.failed() {
        return bad("exit status", format!("{unreadable} of the files cannot be read"), None);
    }
    if unreadable > 0 && out.stderr.is_empty() {
        return bad("no message about the unreadable file", String::new(), None);
    }
    let heads: Vec<String> = objs.iter().map(|o| o.0.clone()).collect();
    let text = text_of(&out.stdout);
    let parts = match parse(&text, &heads) {
        Ok(p) => p,
        Err(e) => return bad("unexpected text", e, None),
    };
    if parts.len() != heads.len() {
        return bad("an object is not shown, or out of order", format!("expected {heads:?}, shown {:?}", parts.iter().map(|p| &p.head).collect::<Vec<_>>()), None);
    }
    for ((h, o), p) in objs.iter().map(|x| (&x.0, x.1)).zip(&parts) {
        if let Err(e) = holds(o, p, w) {
            return bad("the listing is wrong", format!("{h}: {e}"), Some(o));
        }
        r.add((o.syms.len() + p.lines.len()) as u64 + 1, p.lines.len() as u64, 1);
        if r.want_sample() && p.lines.len() > 3 && !p.relocs.is_empty() {
            r.sample(format!("{:?}: {} symbols, {} instructions, {} relocations shown", w.args(), p.symbols.len(), p.lines.len(), p.relocs.len()));
        }
        r.outcome(if p.lines.is_empty() { "no code shown" } else { "code shown" }, 1);
    }
    true
}
/// Write the objects and dump them, many at once
fn batch(r: &Report, d: &Path, objs: &[Obj], ws: &[Want]) -> bool {
    let names: Vec<String> = (0..objs.len()).map(|i| format!("o{i}.to")).collect();
    for (n, o) in names.iter().zip(objs) {
        std::fs::write(d.join(n), o.bytes()).unwrap();
    }
    for w in ws {
        let inside: Vec<Option<Vec<(String, &Obj)>>> = names.iter().zip(objs).map(|(n, o)| Some(vec![(n.clone(), o)])).collect();
        let first = !r.violated();
        if !dump(r, d, &names, &inside, w) {
            // the smallest instance
            if first && objs.len() > 1 {
                for i in 0..objs.len() {
                    if !dump(r, d, &names[i..=i], &inside[i..=i], w) {
                        break;
                    }
                }
            }
            return false;
        }
    }
    true
}

const T: Want = Want { t: true, d: false, rel: false, from: None };
const D: Want = Want { t: false, d: true, rel: false, from: None };
const DR: Want = Want { t: false, d: true, rel: true, from: None };
const ALL: Want = Want { t: true, d: true, rel: true, from: None };

/// Code blocks; wide operands are given as index of a target, relocated if so
type Ins = (&'static [u8], Option<u8>);
const CODE: &[Ins] = &[
    (&[0x20], None),
    (&[0x0a], None),
    (&[0x26, 3], None),
    (&[0x40, 0x01], Some(0)),
    (&[0x40, 0x01], Some(2)),
    (&[0x25], Some(1)),
    (&[0x30], Some(2)),
    (&[0x40, 0x10], Some(3)),
    (&[0x2c, 0x10], Some(4)),
    (&[0x40, 0x31, 0, 0], None),
    (&[0x00], None),
    (&[0x52, 0x12, 0x34], None),
    (&[0x25], Some(9)),
    // an address in the code
    (&[], Some(3)),
];

/// An object from code and a pattern of labels and layout
fn object(seq: &[usize], labels: usize, layout: usize) -> Obj {
    let size: usize = seq.iter().map(|&i| CODE[i].0.len() + if CODE[i].1.is_some() { 2 } else { 0 }).sum();
    // 6: ends with its page, 7: with the address space, nothing behind
    let start: u16 = [0x80, 0x17d, 0x80, 0x200, 0x17d, 0x90, 0x100 - size as u16, (0x10000 - size) as u16][layout];
    let code_ty = if layout == 4 { ZERO } else { TEXT };
    let mut at = vec![];
    let mut bytes: Vec<u8> = vec![];
    let mut rels = vec![];
    for &i in seq {
        at.push(start.wrapping_add(bytes.len() as u16));
        bytes.extend(CODE[i].0);
        if let Some(t) = CODE[i].1 {
            if t < 9 {
                rels.push((start + bytes.len() as u16, t));
            }
            bytes.extend([t, 0xee]);
        }
    }
    let end = start.wrapping_add(bytes.len() as u16);
    at.push(end);
    let mut o = Obj::default();
    // code may run on into data in the same page
    let data: u16 = if layout == 5 { end } else { (end + 0x7f) & !0x7f };
    // targets: entry, second instruction, third, data, undefined
    let mid = |k: usize| at.get(k).copied().unwrap_or(end);
    let targets = [at[0], mid(1), mid(2), data, 0xfaff];
    for &(p, t) in &rels {
        let v = targets[t as usize].to_le_bytes();
        let i = (p - start) as usize;
        bytes[i..i + 2].copy_from_slice(&v);
    }
    let names = ["first", "second", "third", "table", "away"];
    let kinds: [(bool, bool); 5] = match labels {
        // (global, named)
        0 => [(true, true), (false, true), (false, true), (false, true), (true, true)],
        1 => [(false, false), (true, true), (false, false), (true, true), (true, true)],
        2 => [(false, true), (true, false), (true, true), (false, false), (true, false)],
        _ => [(false, true), (false, false), (false, true), (true, true), (true, true)],
    };
    for i in 0..5 {
        let ty = [code_ty, code_ty, code_ty, DATA, UNKNOWN][i];
        o.syms.push(sym(if kinds[i].1 { names[i] } else { "" }, kinds[i].0, ty, targets[i]));
    }
    if labels == 2 {
        // two labels at one place
        o.syms.push(sym("again", false, code_ty, targets[1]));
    }
    if labels == 3 {
        o.syms.rotate_left(2);
    }
    let find = |t: u8| o.syms.iter().position(|s| s.loc == targets[t as usize]).unwrap() as u16;
    o.rels = rels.iter().map(|&(p, t)| Rel { ty: code_ty, loc: p, sym: find(t) }).collect();
    if labels != 1 {
        o.entry = Some((code_ty, if labels == 3 { mid(1) } else { at[0] }));
    }
    match layout {
        2 => {
            // code up to the end of its page, data in the next
            o.segs.insert(DATA, (data, vec![1, 2, 3]));
            o.flags = Some(true);
        }
        3 => {
            o.segs.insert(UNKNOWN, (0x1000, vec![0x20, 0x0a]));
            o.syms.push(sym("odd", true, UNKNOWN, 0x1000));
            o.segs.insert(RODATA, (data, vec![7]));
        }
        6 | 7 => {}
        5 => {
            let [l, h] = targets[2].to_le_bytes();
            o.segs.insert(DATA, (data, vec![0x20, 0x25, l, h, 0x0a]));
            o.rels.push(Rel { ty: DATA, loc: data + 2, sym: find(2) });
        }
        _ => {
            o.segs.insert(DATA, (data, vec![9; 4]));
        }
    }
    o.segs.insert(code_ty, (start, bytes));
    o
}

/// n functions of about `size` bytes that call each other; `shape`: the next, the one before, all from the first, twice the number
fn functions(n: usize, size: usize, shape: usize, labels: usize) -> Obj {
    let at = |i: usize| 0x80 + (i * size) as u16;
    let callees = |i: usize| -> Vec<usize> {
        match shape {
            0 => vec![i + 1],
            1 => vec![i.wrapping_sub(1), n - 1],
            2 if i == 0 => (1..n.min(size / 3)).collect(),
            2 => vec![],
            _ => vec![2 * i + 1, 2 * i + 2],
        }
        .into_iter()
        .filter(|&c| c < n)
        .collect()
    };
    let mut o = Obj::default();
    let mut text = vec![];
    for i in 0..n {
        let mut b = vec![];
        for c in callees(i) {
            if labels != 2 || c % 3 != 2 {
                o.rels.push(Rel { ty: TEXT, loc: at(i) + b.len() as u16 + 1, sym: c as u16 });
            }
            b.push([0x25, 0x30][c % 2]);
            b.extend(at(c).to_le_bytes());
        }
        b.truncate((size - 2) / 3 * 3);
        o.rels.retain(|r| (r.loc as usize) < at(i) as usize + b.len());
        b.resize(size - 2, 0x20);
        b.extend([0x26, 0]);
        text.extend(b);
        o.syms.push(match (labels, i) {
            (_, 0) => sym("start", true, TEXT, at(i)),
            (1, _) => sym("", false, TEXT, at(i)),
            (2, _) => sym(&format!("{}{i}", if n < 2000 { "function_number_" } else { "g" }), i % 5 == 0, TEXT, at(i)),
            _ => sym(&format!("f{i}"), false, TEXT, at(i)),
        });
    }
    o.entry = Some((TEXT, 0x80));
    o.segs.insert(TEXT, (0x80, text));
    o
}
/// Large objects and archives
fn large(r: &Report, sc: &Scratch) {
    let t = r.thorough;
    let counts: Vec<usize> = (2..=if t { 140 } else { 40 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 3000]).collect();
    r.bound(format!("{} numbers of functions up to 3000, of 8, 21, 129 and 1000 bytes, that call the next, the one before, all from the first or as a tree, with 3 kinds of labels; straight code of up to 60000 bytes; tables of up to 6000 symbols and names of up to 5000 bytes; archives of up to {} members", counts.len(), if t { 300 } else { 130 }));
    let mut jobs: Vec<Vec<Obj>> = vec![];
    for &n in &counts {
        for size in [8, 21, 129, 1000] {
            if n * size > 62000 {
                continue;
            }
            for shape in 0..4 {
                jobs.push((0..3).map(|l| functions(n, size, shape, l)).collect());
            }
        }
    }
    for n in [1usize, 127, 128, 1000, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 60000] {
        let mut o = Obj { entry: Some((TEXT, 0x80)), ..Obj::default() };
        let mut b = vec![0x20; n];
        b.extend([0x40, 0x01, 0x80, 0]);
        o.rels = vec![Rel { ty: TEXT, loc: 0x82 + n as u16, sym: 1 }];
        o.syms = vec![sym("end", true, TEXT, 0x80 + n as u16), sym("begin", false, TEXT, 0x80), sym("middle", false, TEXT, 0x80 + n as u16 / 2)];
        o.segs.insert(TEXT, (0x80, b));
        jobs.push(vec![o]);
    }
    for n in [100usize, 255, 256, 257, 300, 511, 513, 1000, 4097, 6000] {
        let o = Obj { syms: (0..n).map(|i| sym(&["", "x", "a_name_", "b"][i % 4].repeat(1 + i % 3), i % 3 == 1, TYPES[i % 6], (i * 77) as u16)).collect(), ..Obj::default() };
        jobs.push(vec![o, Obj { syms: vec![sym(&"n".repeat(n.min(5000)), true, TEXT, 1), sym(&"m".repeat(n.min(5000)), false, UNKNOWN, 1)], ..Obj::default() }]);
    }
    par(r, &jobs, |objs| {
        let d = thread_dir(sc);
        batch(r, &d, objs, &[ALL, D, T]);
    });
    let counts: Vec<usize> = (1..=if t { 300 } else { 130 }).collect();
    par(r, &counts, |&n| {
        let d = thread_dir(sc);
        let objs: Vec<Obj> = (0..n).map(|i| functions(1 + i % 4, 8, i % 4, i % 3)).collect();
        let mut a = SAVN.to_vec();
        for o in &objs {
            a.extend(o.bytes());
        }
        std::fs::write(d.join("n.savn"), a).unwrap();
        let inside = vec![Some(objs.iter().enumerate().map(|(i, o)| (format!("n.savn.{}", i + 1), o)).collect())];
        dump(r, &d, &["n.savn".into()], &inside, &ALL);
    });
}

/// Symbols with names of all kinds
fn odd_names(r: &Report, sc: &Scratch) {
    let all = mc::objfmt::names();
    let mut objs: Vec<Obj> = vec![];
    for (i, n) in all.iter().enumerate() {
        for (j, ty) in TYPES.into_iter().enumerate() {
            let o = Obj { syms: vec![sym("plain", j % 2 == 0, TEXT, 0x82), sym(n, (i + j) % 2 == 0, ty, 0x1234), sym(n, (i + j) % 2 == 1, TYPES[(j + 1) % 6], 0xffff)], ..Obj::default() };
            objs.push(o);
        }
    }
    let mut order: Vec<&String> = all.iter().collect();
    for k in 0..4 {
        objs.push(Obj { syms: order.iter().enumerate().map(|(i, n)| sym(n, (i + k) % 2 == 0, TYPES[(i + k) % 6], (i * 0x123) as u16)).collect(), ..Obj::default() });
        order.reverse();
        let n = order.len();
        order.rotate_left(n / 3);
    }
    par(r, &objs.chunks(100).collect::<Vec<_>>(), |c| {
        let d = thread_dir(sc);
        batch(r, &d, c, &[T]);
    });
    // as labels of code; names of the listing's own form are left out
    let usable: Vec<&String> = all.iter().filter(|n| !n.contains(['<', '>', ',']) && !n.starts_with("@L") && !n.starts_with("GLOBAL") && !n.starts_with("local") && *n != ".entry").collect();
    r.bound(format!("symbols of {} names (characters, words, lengths), in every segment; {} of them as labels of code, as targets, in relocations and as chosen starts", all.len(), usable.len()));
    let code = |f: &dyn Fn(usize) -> (String, bool)| -> Obj {
        let mut o = Obj { entry: Some((TEXT, 0x80)), ..Obj::default() };
        // call to the second; jump to the third; the second returns; the third halts; a fourth nobody names
        o.segs.insert(TEXT, (0x80, vec![0x25, 0x87, 0, 0x40, 0x01, 0x89, 0, 0x26, 0, 0x20, 0x0a, 0x20, 0x26, 4]));
        for (i, a) in [0x80u16, 0x87, 0x89, 0x8b].into_iter().enumerate() {
            let (n, g) = f(i);
            o.syms.push(sym(&n, g, TEXT, a));
        }
        o.rels = vec![Rel { ty: TEXT, loc: 0x81, sym: 1 }, Rel { ty: TEXT, loc: 0x85, sym: 2 }];
        o
    };
    let jobs: Vec<usize> = (0..usable.len()).collect();
    par(r, &jobs.chunks(40).collect::<Vec<_>>(), |c| {
        let d = thread_dir(sc);
        let name = |i: usize| usable[i % usable.len()].clone();
        let mut objs = vec![];
        for &i in *c {
            for g in 0..4 {
                objs.push(code(&|k| (if g < 2 { if k == 2 { name(i) } else { format!("other{k}") } } else { name(i + [0, 1, 7, 50][k]) }, (k + g) % 2 == 0)));
            }
        }
        if !batch(r, &d, &objs, &[ALL, D]) {
            return;
        }
        for o in &objs {
            for from in [o.syms[2].name.clone(), o.syms[3].name.clone(), format!("{},{}", o.syms[3].name, o.syms[1].name), format!(" {} , {} ", o.syms[1].name, o.syms[2].name)] {
                // an argument that looks like an option has to be attached
                if from.starts_with('-') || r.stopped() {
                    continue;
                }
                std::fs::write(d.join("o.to"), o.bytes()).unwrap();
                if !dump(r, &d, &["o.to".into()], &[Some(vec![("o.to".into(), o)])], &Want { from: Some(&from), ..ALL }) {
                    return;
                }
            }
        }
    });
    // names of files
    let files: Vec<String> = ["a b.to", "a.b.c", ".hidden", "noext", "\u{e6}.to", "x.savn", "y.to.savn", "l.TO", "a:b", "a=b.to", "'q'.to", "a,b.to", "%s.to", "{}.to"].map(String::from).into();
    r.bound(format!("{} names of files, each holding an object or an archive", files.len()));
    let o = code(&|k| (format!("f{k}"), k == 0));
    let p = object(&[5, 7, 3], 0, 0);
    let d = thread_dir(sc);
    for f in &files {
        std::fs::write(d.join(f), o.bytes()).unwrap();
        if !dump(r, &d, &[f.clone()], &[Some(vec![(f.clone(), &o)])], &ALL) {
            return;
        }
        std::fs::write(d.join(f), [SAVN, &p.bytes()[..], &o.bytes()].concat()).unwrap();
        if !dump(r, &d, &[f.clone(), f.clone()], &[Some(vec![(format!("{f}.1"), &p), (format!("{f}.2"), &o)]), Some(vec![(format!("{f}.1"), &p), (format!("{f}.2"), &o)])], &ALL) {
            return;
        }
    }
}

pub fn c32(r: &'static Report) {
    let sc = Scratch::new("c32");
    let deep = r.thorough;
    mc::proc::FLOOD.store(64 << 20, std::sync::atomic::Ordering::Relaxed);
    // symbol tables
    let mut alphabet = vec![];
    for (i, name) in ["", "a", "main", "a_rather_long_name_0123"].iter().enumerate() {
        for (j, ty) in [ZERO, DATA, RODATA, TEXT, HEAP, UNKNOWN].into_iter().enumerate() {
            let global = (i + j) % 2 == 0;
            alphabet.push(sym(name, global, ty, [0, 0x40, 0xffff, 0x1234][(i * 3 + j) % 4]));
            if i == 2 {
                alphabet.push(sym(name, !global, ty, [0x80, 0x1f, 0xfaff][j % 3]));
            }
        }
    }
    let n = alphabet.len();
    let mut tables: Vec<Vec<usize>> = vec![vec![]];
    tables.extend(run_::sequences(n, 3));
    let chunks: Vec<&[Vec<usize>]> = tables.chunks(200).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        let objs: Vec<Obj> = c.iter().map(|s| Obj { syms: s.iter().map(|&i| alphabet[i].clone()).collect(), ..Default::default() }).collect();
        if !batch(r, &d, &objs, &[T]) || r.stopped() {
            return;
        }
    });
    r.bound(format!("all symbol tables of up to 3 out of {n} symbols (unnamed to 23 characters, internal and global, every segment and undefined, addresses 0 to ffff)"));
    // code
    let len = if deep { 5 } else { 4 };
    let mut all: Vec<(Vec<usize>, usize, usize)> = vec![];
    for s in run_::sequences(CODE.len(), len) {
        for l in 0..4 {
            if s.len() < len || deep || (s[0] + s[1] + l) % 2 == 0 {
                all.push((s.clone(), l, 0));
            }
        }
        if s.len() < len {
            for y in 1..8 {
                for l in 0..4 {
                    all.push((s.clone(), l, y));
                }
            }
        }
    }
    let chunks: Vec<&[(Vec<usize>, usize, usize)]> = all.chunks(100).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        let objs: Vec<Obj> = c.iter().map(|(s, l, y)| object(s, *l, *y)).collect();
        let ws: &[Want] = if c[0].0.len() == len { &[DR] } else { &[D, DR, ALL, T] };
        if !batch(r, &d, &objs, ws) || r.stopped() {
            return;
        }
        // chosen starts
        if c[0].0.len() < len {
            for from in ["first", "third,second", " second , table", "away", "first,first"] {
                let have = |o: &Obj| from.split(',').all(|f| o.syms.iter().any(|s| s.name == f.trim()));
                let some: Vec<Obj> = objs.iter().filter(|o| have(o)).cloned().collect();
                if !some.is_empty() && !batch(r, &d, &some, &[Want { from: Some(from), ..D }, Want { from: Some(from), ..ALL }]) {
                    return;
                }
            }
        }
    });
    r.bound(format!("all code of up to {} out of {} instructions x 4 patterns of labels (internal, global, unnamed, two at one place, with and without entry point) x 8 layouts (from address 0x80, across pages, up to the end of the only page, up to the end of the address space, readable text, undefined segment, code in the zero segment, code that runs on into data on its page) x options -t, -d, -d -R, -t -d -R and 5 choices of start symbols; {}code of {len} instructions in the first layout", len - 1, CODE.len(), if deep { "" } else { "half of the " }));
    large(r, &sc);
    odd_names(r, &sc);
    // several files
    let d = sc.path("many");
    std::fs::create_dir_all(&d).unwrap();
    let a = object(&[5, 7, 3], 0, 0);
    let b = object(&[0, 6, 8, 1], 1, 2);
    let c = Obj::default();
    for (n, o) in [("a.to", &a), ("b.to", &b), ("c.to", &c)] {
        std::fs::write(d.join(n), o.bytes()).unwrap();
    }
    for args in [vec!["a.to", "-o", "one.savn"], vec!["b.to", "c.to", "a.to", "-o", "three.savn"]] {
        let o = call(&d, "tar", &args, b"");
        if !o.ok() {
            return r.violation("an archive cannot be made", o.text());
        }
    }
    std::fs::create_dir_all(d.join("sub")).unwrap();
    std::fs::write(d.join("sub/a.to"), b.bytes()).unwrap();
    let script = [b"#!/bin/env t\n".to_vec(), a.bytes()].concat();
    std::fs::write(d.join("exe"), script).unwrap();
    std::fs::write(d.join("junk.to"), b"no object here").unwrap();
    let mut cut = a.bytes();
    cut.truncate(cut.len() - 5);
    std::fs::write(d.join("cut.to"), cut).unwrap();
    std::fs::create_dir_all(d.join("dir.to")).unwrap();
    let three = std::fs::read(d.join("three.savn")).unwrap();
    std::fs::write(d.join("cut.savn"), &three[..three.len() - 9]).unwrap();
    let pool: Vec<(&str, Option<Vec<(String, &Obj)>>)> = vec![
        ("a.to", Some(vec![("a.to".into(), &a)])),
        ("b.to", Some(vec![("b.to".into(), &b)])),
        ("c.to", Some(vec![("c.to".into(), &c)])),
        ("sub/a.to", Some(vec![("sub/a.to".into(), &b)])),
        ("exe", Some(vec![("exe".into(), &a)])),
        ("one.savn", Some(vec![("one.savn.1".into(), &a)])),
        ("three.savn", Some(vec![("three.savn.1".into(), &b), ("three.savn.2".into(), &c), ("three.savn.3".into(), &a)])),
        ("missing.to", None),
        ("junk.to", None),
        ("cut.to", None),
        ("dir.to", None),
    ];
    let seqs = run_::sequences(pool.len(), if deep { 4 } else { 3 });
    par(r, &seqs, |s| {
        let files: Vec<String> = s.iter().map(|&i| pool[i].0.to_string()).collect();
        let inside: Vec<Option<Vec<(String, &Obj)>>> = s.iter().map(|&i| pool[i].1.clone()).collect();
        for w in [T, D, ALL] {
            if !dump(r, &d, &files, &inside, &w) {
                return;
            }
        }
    });
    r.bound(format!("all sequences of up to {} out of 11 files (objects, also of the same name in another folder, script, archives, missing, no object, cut, directory) x 3 option sets", if deep { 4 } else { 3 }));
    // an archive that breaks off: failure; what comes before may be shown
    for w in [T, D] {
        let mut args = w.args();
        args.extend(["cut.savn".into(), "a.to".into()]);
        let out = run(start(&d, "tobjdump").args(&args), b"", 60);
        r.add(1, 1, 1);
        let t = text_of(&out.stdout);
        let tail = t.find("a.to:").map(|i| &t[i..]);
        let ok = tail.and_then(|t| parse(t, &["a.to".into()]).ok()).is_some_and(|p| p.len() == 1 && holds(&a, &p[0], &w).is_ok());
        if !out.failed() || out.panicked() || !ok {
            r.violation("an archive that breaks off", out.text());
        }
    }
    r.assume("the wording of remarks (data, unmapped data) and the order of the blocks are free; a listing must show each reachable instruction at least once");
    r.rule("reachability and instruction lengths from the reference decoder, texts assembled again by the reference assembler");
}
