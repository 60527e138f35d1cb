//! C15 (round trip), C16 (malformed files), C17 (archives)
use mc::objfmt::*;
use mc::proc::*;
use mc::report::*;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::Path;
use telda2::aalv::{obj::Object, read_archive, AalvReader};

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    let w = Watchdog::start(r);
    match id.as_str() {
        "C15" => c15(r, w),
        "C16" => c16(r, w),
        "C17" => c17(r, w),
        _ => panic!("unknown property {id}"),
    }
    cleanup();
    r.finish()
}

fn hexdump(b: &[u8]) -> String {
    let s: String = b.iter().take(200).map(|b| if (0x20..0x7f).contains(b) { (*b as char).to_string() } else { format!("\\x{b:02x}") }).collect();
    format!("{} bytes: {s}", b.len())
}
fn brief(o: &impl std::fmt::Debug) -> String {
    let s = format!("{o:?}");
    if s.len() > 600 {
        format!("{}… ({} characters)", &s[..s.char_indices().nth(500).unwrap().0], s.len())
    } else {
        s
    }
}

/// Read bytes through the real reader
fn real_read(b: &[u8]) -> Result<Result<(u64, Obj), String>, String> {
    guard(|| {
        let mut rd = AalvReader::new(Cursor::new(b)).map_err(|e| e.to_string())?;
        let o = Object::from_aalv_reader(&mut rd).map_err(|e| e.to_string())?;
        Ok((o.file_offset, Obj::from_real(&o)))
    })
}

// ---------------------------------------------------------------- C15

/// Write the object behind `prefix` over a file of `old` further bytes and read it back
fn roundtrip(r: &Report, path: &Path, o: &Obj, prefix: &[u8], old: usize) {
    roundtrip_over(r, path, o, prefix, &vec![0xc3; old])
}
fn roundtrip_over(r: &Report, path: &Path, o: &Obj, prefix: &[u8], old: &[u8]) {
    let real = o.to_real(prefix.len() as u64);
    let before = [prefix, old].concat();
    let old = if old.starts_with(&[0xc3]) || old.is_empty() { old.len().to_string() } else { hexdump(old) };
    let _ = std::fs::remove_file(path);
    if !before.is_empty() {
        std::fs::write(path, &before).unwrap();
    }
    let what = |p: &str| format!("{p} (behind {} bytes {}, over {old} old bytes)", prefix.len(), hexdump(prefix));
    match guard(|| real.write_to_file(path)) {
        Err(p) => return r.violation(what(&format!("writing panics: {p}")), brief(o)),
        Ok(Err(e)) => {
            if o.fits() {
                r.violation(what(&format!("writing fails: {e}")), brief(o));
            } else {
                r.outcome("too large: reported", 1);
                r.add(1, 1, 1);
            }
            return;
        }
        Ok(Ok(())) => {
            if !o.fits() {
                return r.violation(what("writing a part that is too large for the format succeeds"), brief(o));
            }
        }
    }
    let f = std::fs::read(path).unwrap();
    if !f.starts_with(prefix) {
        return r.violation(what("the bytes in front of the object changed"), format!("{}\nfile {}", brief(o), hexdump(&f)));
    }
    // the file holds the object, as the format says
    match judge(&f) {
        Verdict::Object(at, got) if at == prefix.len() && got == *o => (),
        v => return r.violation(what("the written file does not hold the object"), format!("object {}\nfile {}\nholds {}", brief(o), hexdump(&f), brief(&v))),
    }
    // and ends with it, so that it can be a member of an archive
    if !ends(&f, prefix.len()) {
        return r.violation(what("something follows the written object"), format!("object {}\nfile {}", brief(o), hexdump(&f)));
    }
    let back = guard(|| Object::from_file(path).map(|b| (b.file_offset, Obj::from_real(&b))));
    match back {
        Ok(Ok((at, b))) if at == prefix.len() as u64 && b == *o => (),
        b => return r.violation(what("reading back gives something else"), format!("object {}\nread   {}\nfile {}", brief(o), brief(&b), hexdump(&f))),
    }
    r.add(visit(hash_bytes(&f)) as u64, 2, 1);
}

fn presence_objects() -> Vec<Obj> {
    let mut v = Vec::new();
    let syms = [sym("main", true, TEXT, 0x80), sym("x", false, DATA, 0xfffe)];
    let rels = [Rel { ty: TEXT, loc: 0x81, sym: 0 }, Rel { ty: DATA, loc: 0x100, sym: 1 }];
    for segs in 0..64u32 {
        for m in 0..144u32 {
            let mut o = Obj::default();
            for (i, t) in TYPES.iter().enumerate() {
                if segs >> i & 1 == 1 {
                    o.segs.insert(*t, ((i * 0x80) as u16, (0..(i * 3) as u8).collect()));
                }
            }
            if m & 1 == 1 {
                o.entry = Some((TEXT, 0x80));
            }
            o.flags = [None, None, Some(false), Some(true)][(m >> 1 & 3) as usize];
            if m >> 1 & 3 == 1 {
                o.stack = Some(0x1234);
            }
            if m >> 3 & 1 == 1 {
                o.heap = Some(0x5678);
            }
            let k = m / 16; // 0..9
            o.syms = syms[..(k % 3) as usize].to_vec();
            o.rels = rels[..(k / 3) as usize].to_vec();
            v.push(o);
        }
    }
    // all combinations of the four optional parts with flags
    for m in 0..24u32 {
        v.push(Obj {
            entry: (m & 1 == 1).then_some((ZERO, 0xffff)),
            stack: (m & 2 == 2).then_some(0x180),
            heap: (m & 4 == 4).then_some(0x400),
            flags: [None, Some(false), Some(true)][(m / 8) as usize],
            ..Obj::default()
        });
    }
    v
}

fn c15(r: &Report, w: &Watchdog) {
    let sc = Scratch::new("c15");
    // the whole space is cheap; the thorough tier has longer names and larger symbol tables
    let full = true;
    r.bound("objects: all subsets of the six segment types x all combinations of the other parts; every value of entry (per segment type), stack and heap size all 65536; segment and table sizes around every buffer and format border; every byte value as content; all symbol names of up to 3 (thorough 4) characters over 9 characters; every relocation field value at byte borders");
    r.bound("prefixes: all strings of up to 6 (thorough 7) bytes over 4 signature bytes, all concatenations of three partial signatures, a script line, lengths around the 8 KiB reader buffer; over files with 0, 1 and 5000 further bytes");
    let path = |n: u64| sc.path(format!("f{n}.to"));
    let thread_path = || {
        thread_local!(static T: u64 = { static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) });
        path(T.with(|t| *t))
    };
    let go = |o: &Obj, p: &[u8], old: usize| {
        if r.stopped() {
            return;
        }
        w.run(|| brief(o), || roundtrip(r, &thread_path(), o, p, old))
    };
    let line = b"#!/bin/env t\n".to_vec();
    // 1. presence
    let objs = presence_objects();
    r.count("objects: presence combinations", objs.len() as u64);
    par(r, &objs, |o| {
        go(o, b"", 0);
        go(o, &line, 5000);
    });
    // over the file of another object, which differs in little
    let others: Vec<Obj> = {
        let mut base = Obj { entry: Some((TEXT, 0x80)), flags: Some(true), stack: Some(0x200), heap: Some(0x300), ..Obj::default() };
        base.segs.insert(TEXT, (0x80, vec![1, 2, 3, 4]));
        base.segs.insert(DATA, (0x100, vec![5, 6]));
        base.syms = vec![sym("f", true, TEXT, 0x80), sym("loc", false, TEXT, 0x82), sym("u", true, UNKNOWN, 0xfaff)];
        base.rels = vec![Rel { ty: TEXT, loc: 0x81, sym: 1 }, Rel { ty: DATA, loc: 0x100, sym: 0 }];
        let mut v = vec![base.clone(), Obj::default()];
        let mut with = |f: &dyn Fn(&mut Obj)| {
            let mut o = base.clone();
            f(&mut o);
            v.push(o);
        };
        with(&|o| o.entry = None);
        with(&|o| o.entry = Some((TEXT, 0x81)));
        with(&|o| o.entry = Some((DATA, 0x80)));
        with(&|o| o.flags = None);
        with(&|o| o.flags = Some(false));
        with(&|o| o.stack = None);
        with(&|o| o.stack = Some(0x201));
        with(&|o| o.heap = None);
        with(&|o| o.heap = Some(0x301));
        with(&|o| std::mem::swap(&mut o.stack, &mut o.heap));
        for i in 0..4 {
            with(&|o| o.segs.get_mut(&TEXT).unwrap().1[i] ^= 0x10);
        }
        with(&|o| o.segs.get_mut(&TEXT).unwrap().0 = 0x81);
        with(&|o| o.segs.get_mut(&TEXT).unwrap().1.push(0));
        with(&|o| o.segs.get_mut(&TEXT).unwrap().1.truncate(3));
        with(&|o| o.segs.get_mut(&TEXT).unwrap().1.extend([9; 300]));
        with(&|o| _ = o.segs.remove(&DATA));
        with(&|o| {
            let s = o.segs.remove(&DATA).unwrap();
            o.segs.insert(RODATA, s);
        });
        with(&|o| o.syms.clear());
        with(&|o| o.syms.truncate(2));
        with(&|o| o.syms.swap(0, 1));
        with(&|o| o.syms[0].name = "g".into());
        with(&|o| o.syms[0].name = "F".into());
        with(&|o| o.syms[1].name = "".into());
        with(&|o| o.syms[1].global = true);
        with(&|o| o.syms[0].loc = 0x81);
        with(&|o| o.syms[0].ty = DATA);
        with(&|o| o.rels.clear());
        with(&|o| o.rels.truncate(1));
        with(&|o| o.rels.swap(0, 1));
        with(&|o| o.rels[0].sym = 0);
        with(&|o| o.rels[0].loc = 0x80);
        with(&|o| o.rels[0].ty = DATA);
        with(&|o| {
            o.syms.clear();
            o.rels.clear();
        });
        v
    };
    r.bound(format!("every one of {} objects that differ in little, written over the file of every other, without and with a script line", others.len()));
    let pairs: Vec<(usize, usize)> = (0..others.len()).flat_map(|a| (0..others.len()).map(move |b| (a, b))).collect();
    par(r, &pairs, |&(a, b)| {
        for p in [&b""[..], &line] {
            if !r.stopped() {
                w.run(|| brief(&others[b]), || roundtrip_over(r, &thread_path(), &others[b], p, &others[a].bytes()));
            }
        }
    });
    // 2. values
    let words: Vec<u16> = if full {
        (0..=0xffff).collect()
    } else {
        let mut v: Vec<u16> = (0..=0x17f).chain(0xff00..=0xffff).collect();
        for i in 0..=0xffu16 {
            v.extend([i << 8, i << 8 | 0x0a, i << 8 | 0xc3]);
        }
        v
    };
    par(r, &words, |&x| {
        for t in TYPES {
            go(&Obj { entry: Some((t, x)), ..Obj::default() }, b"", 0);
        }
        go(&Obj { stack: Some(x), ..Obj::default() }, b"", 1);
        go(&Obj { heap: Some(x), ..Obj::default() }, b"", 0);
        go(&Obj { stack: Some(x), heap: Some(!x), entry: Some((TEXT, x ^ 0x5555)), ..Obj::default() }, b"", 0);
        for t in TYPES {
            let mut o = Obj::default();
            o.segs.insert(t, (x, vec![x as u8]));
            o.syms = vec![sym("a", true, t, x), sym("a", false, t, !x)];
            o.rels = vec![Rel { ty: t, loc: x, sym: 1 }, Rel { ty: t, loc: 1, sym: x }];
            go(&o, b"", 0);
        }
    });
    // 3. sizes
    let mut sizes: Vec<usize> = (0..=(if full { 1200 } else { 300 })).collect();
    for b in [512usize, 1024, 4096, 8192, 16384, 32768, 65535] {
        sizes.extend(b - 24..=b + 4);
    }
    sizes.extend([65536 + 3, 70000, 131072]);
    par(r, &sizes, |&n| {
        for t in [TEXT, UNKNOWN] {
            let mut o = Obj { entry: Some((TEXT, 0x80)), heap: Some(3), ..Obj::default() };
            o.segs.insert(t, (0x80, (0..n).map(|i| (i * 7 + i / 256) as u8).collect()));
            o.segs.insert(HEAP, (0x80, vec![0; 2]));
            o.syms = vec![sym("tail", true, TEXT, 1)];
            o.rels = vec![Rel { ty: TEXT, loc: 0, sym: 0 }];
            go(&o, b"", 0);
            go(&o, &line, 3);
        }
        // table sizes: one symbol with a name of n characters; n bytes of small symbols; relocations
        let o = Obj { syms: vec![sym(&"n".repeat(n.max(1)), true, DATA, 7), sym("z", false, TEXT, 9)], ..Obj::default() };
        go(&o, b"", 0);
        let mut o = Obj::default();
        o.syms = (0..n / 5).map(|i| sym(["a", "b"][i % 2], true, TEXT, i as u16)).collect();
        if n % 5 != 0 && n > 5 {
            o.syms.push(sym(&"m".repeat(n % 5), true, TEXT, 0));
        }
        go(&o, b"", 0);
        let o = Obj { rels: (0..n / 5).map(|i| Rel { ty: TYPES[i % 6], loc: i as u16, sym: !i as u16 }).collect(), ..Obj::default() };
        go(&o, b"", 0);
    });
    // 4. content bytes and signature-like contents
    let mut cont: Vec<Vec<u8>> = (0..=255).map(|b| vec![b]).collect();
    for a in [0u8, 0x5f, 0xc3, 0xa1, 0x0a, 0xff] {
        cont.extend((0..=255u8).map(|b| vec![a, b]));
    }
    for n in 0..=MAGIC.len() {
        cont.push(MAGIC[..n].to_vec());
        cont.push([&MAGIC[..n], MAGIC].concat());
    }
    cont.push(b"_seg\0\x03\0\0\0\x20".to_vec());
    par(r, &cont, |c| {
        for t in TYPES {
            let mut o = Obj::default();
            o.segs.insert(t, (0, c.clone()));
            go(&o, b"", 0);
            go(&o, MAGIC.split_last().unwrap().1, 7);
        }
    });
    // 5. symbol names: any characters except zero, not starting with a blank
    let chars = ["a", "_", " ", "\n", "0", "é", "á", "\u{7f}", "𝄞"];
    let mut names: Vec<String> = chars.iter().map(|s| s.to_string()).collect();
    let mut last = names.clone();
    for _ in 1..(if r.thorough { 4 } else { 3 }) {
        last = last.iter().flat_map(|n| chars.iter().map(move |c| format!("{n}{c}"))).collect();
        names.extend(last.clone());
    }
    names.retain(|n| !n.starts_with(' '));
    names.extend(["_seg".into(), "álvur2\n".into(), "R".into()]);
    par(r, &names, |n| {
        for m in [String::new(), "b".into(), n.clone()] {
            // the name of a global symbol is not empty; internal symbols lose theirs when stripped
            for (ga, gb) in [(true, false), (false, true), (true, true), (false, false)] {
                if gb && m.is_empty() {
                    continue;
                }
                go(&Obj { syms: vec![sym(n, ga, TEXT, 0x0a00), sym(&m, gb, UNKNOWN, 0xfaff), sym("end", true, ZERO, 0)], ..Obj::default() }, b"", 0);
            }
        }
    });
    // tables of a few symbols: global and internal, with names and without, defined and not
    let kinds = [sym("n", true, TEXT, 0x81), sym("n", false, TEXT, 0x81), sym("", false, DATA, 0x82), sym("", false, UNKNOWN, 0xfaff), sym("m", true, UNKNOWN, 0xfaff), sym("m", false, UNKNOWN, 0)];
    let mut tables: Vec<Vec<Sym>> = vec![vec![]];
    let mut at = 0;
    for _ in 0..(if full { 6 } else { 4 }) {
        let end = tables.len();
        for k in at..end {
            for s in &kinds {
                tables.push(tables[k].iter().cloned().chain([s.clone()]).collect());
            }
        }
        at = end;
    }
    r.bound(format!("all symbol tables of up to {} symbols of {} kinds (global, internal, defined, undefined, nameless), with and without a relocation", if full { 6 } else { 4 }, kinds.len()));
    par(r, &tables, |t| {
        go(&Obj { syms: t.clone(), ..Obj::default() }, b"", 0);
        if !t.is_empty() {
            go(&Obj { syms: t.clone(), rels: vec![Rel { ty: TEXT, loc: 0x80, sym: t.len() as u16 - 1 }], ..Obj::default() }, b"", 0);
        }
    });
    // 6. prefixes
    let al = [0xc3u8, 0xa1, b'l', b'\n'];
    let mut pre: Vec<Vec<u8>> = vec![vec![]];
    let mut last = pre.clone();
    for _ in 0..(if r.thorough { 7 } else { 6 }) {
        last = last.iter().flat_map(|p| al.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
        pre.extend(last.clone());
    }
    let part: Vec<Vec<u8>> = (0..MAGIC.len()).flat_map(|n| [MAGIC[..n].to_vec(), [&MAGIC[..n], b"x"].concat(), MAGIC[n..].to_vec()]).filter(|p| p != MAGIC).collect();
    for a in &part {
        for b in &part {
            pre.push([&a[..], &b[..]].concat());
            if full {
                for c in &part {
                    pre.push([&a[..], &b[..], &c[..]].concat());
                }
            }
        }
    }
    for n in (8170..8210).chain(16370..16400) {
        pre.push(vec![b'x'; n]);
        pre.push([vec![b'x'; n], MAGIC[..5].to_vec()].concat());
    }
    pre.push(line.clone());
    pre.push(b"#!/bin/env t --heimil\n# \xff\0\0\n".to_vec());
    // the signature is the first one in the file
    pre.retain(|p| {
        let mut f = p.clone();
        f.extend(MAGIC);
        (0..f.len()).find(|&i| f[i..].starts_with(MAGIC)) == Some(p.len())
    });
    pre.sort();
    pre.dedup();
    r.count("prefixes", pre.len() as u64);
    let mut o = Obj { entry: Some((TEXT, 0x80)), flags: Some(true), stack: Some(1), heap: Some(2), syms: vec![sym("m", true, TEXT, 0x80)], rels: vec![Rel { ty: TEXT, loc: 0x80, sym: 0 }], ..Obj::default() };
    o.segs.insert(TEXT, (0x80, vec![1, 2, 3]));
    let objs = [o, Obj::default()];
    par(r, &pre, |p| {
        for o in &objs {
            for old in [0, 1, 5000] {
                go(o, p, old);
            }
        }
    });
    r.assume("symbol names contain no zero byte and do not start with a blank, names of global symbols are not empty (what the assembler and linker produce)");
}

// ---------------------------------------------------------------- C16

fn corpus() -> Vec<(Obj, Vec<u8>)> {
    let mut v = Vec::new();
    let mut a = Obj { entry: Some((TEXT, 0x81)), flags: Some(true), stack: Some(0x180), heap: Some(0x400), ..Obj::default() };
    a.segs.insert(TEXT, (0x80, vec![0x01, 0x00]));
    a.segs.insert(DATA, (0x100, vec![0x5f, 0x61, 0]));
    a.syms = vec![sym("ab", true, TEXT, 0x80), sym("c", false, DATA, 0x101), sym("u", true, UNKNOWN, 0xfaff)];
    a.rels = vec![Rel { ty: TEXT, loc: 0x80, sym: 1 }, Rel { ty: DATA, loc: 0x100, sym: 0 }];
    v.push((a.clone(), vec![]));
    v.push((Obj { flags: None, stack: None, ..a }, b"#!/bin/env t\n".to_vec()));
    v.push((Obj::default(), vec![]));
    let mut b = Obj::default();
    for (i, t) in TYPES.iter().enumerate() {
        b.segs.insert(*t, (i as u16, vec![0; i]));
    }
    v.push((b, vec![]));
    v.push((Obj { syms: vec![sym("", false, TEXT, 0)], flags: Some(false), ..Obj::default() }, vec![0xc3, 0xa1]));
    v
}

/// Compare the reader's decision with the reference for one byte string
fn decide(r: &Report, f: &[u8], must_reject: bool, how: &dyn Fn() -> String) {
    let v = judge(f);
    let got = real_read(f);
    let bad = match (&v, &got) {
        (_, Err(p)) => Some(format!("reading panics: {p}")),
        (Verdict::Object(at, o), Ok(Ok((p, g)))) if (*at as u64, o) == (*p, g) => {
            if must_reject {
                Some("a truncated file is accepted".into())
            } else {
                None
            }
        }
        (Verdict::Object(..), Ok(g)) => Some(format!("a valid object is read as {}", brief(g))),
        (Verdict::Reject(why), Ok(Ok(g))) => Some(format!("accepted although malformed ({why}): {}", brief(g))),
        (Verdict::Either(_), Ok(Ok(_))) if must_reject => Some("a truncated file is accepted".into()),
        _ => None,
    };
    r.add(visit(hash_bytes(f)) as u64, 1, 1);
    if let Some(b) = bad {
        r.violation(b, format!("{}\nfile {}\nreference {}", how(), hexdump(f), brief(&v)));
    }
}

fn tally(r: &Report, items: &[Vec<u8>]) {
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    for f in items {
        let k = match judge(f) {
            Verdict::Object(..) => "valid".to_string(),
            Verdict::Reject(w) => format!("reject: {w}"),
            Verdict::Either(w) => format!("open: {w}"),
        };
        *m.entry(k).or_default() += 1;
    }
    for (k, n) in m {
        r.outcome(&k, n);
    }
}

fn c16(r: &Report, w: &Watchdog) {
    let sc = Scratch::new("c16");
    let full = true;
    r.bound("5 valid objects: every proper prefix; every byte replaced by all 256 values, removed, doubled; all pairs of positions x 24 values each; every size field set to every value; every section duplicated, swapped, removed, renamed");
    r.bound("every byte string of up to 8 (thorough 9) bytes over 6 values, bare and behind the signature; every section name with contents of up to 5 bytes over 7 values");
    let base = corpus();
    let dec = |f: &[u8], cut: bool, how: &dyn Fn() -> String| w.run(|| hexdump(f), || decide(r, f, cut, how));
    // prefixes, also through a real file
    for (i, (o, pre)) in base.iter().enumerate() {
        let f = [&pre[..], &o.bytes()].concat();
        dec(&f, false, &|| "unchanged".into());
        for n in 0..f.len() {
            dec(&f[..n], true, &|| format!("object {i} cut to {n} of {} bytes", f.len()));
            let p = sc.path("cut.to");
            std::fs::write(&p, &f[..n]).unwrap();
            match guard(|| Object::from_file(&p).is_ok()) {
                Ok(false) => (),
                Ok(true) => r.violation("a truncated file is accepted by from_file", format!("object {i} cut to {n}: {}", hexdump(&f[..n]))),
                Err(p) => r.violation(format!("reading a truncated file panics: {p}"), hexdump(&f[..n])),
            }
            r.outcome("prefixes rejected", 1);
            if r.stopped() {
                return;
            }
        }
    }
    // large objects cut around the reader's buffer borders
    let mut big = Obj::default();
    big.segs.insert(TEXT, (0, vec![0; 8000]));
    big.segs.insert(HEAP, (0, vec![b'_'; 9000]));
    let f = big.bytes();
    for n in (0..40).chain(7990..8250).chain(16370..16400).chain(17000..f.len()) {
        dec(&f[..n], true, &|| format!("large object cut to {n}"));
    }
    // single and double changes
    let mut singles: Vec<Vec<u8>> = Vec::new();
    for (o, pre) in &base {
        let f = [&pre[..], &o.bytes()].concat();
        for i in 0..f.len() {
            for b in 0..=255 {
                let mut g = f.clone();
                g[i] = b;
                singles.push(g);
            }
            let mut g = f.clone();
            g.remove(i);
            singles.push(g);
            let mut g = f.clone();
            g.insert(i, f[i]);
            singles.push(g);
            let mut g = f.clone();
            g.insert(i, 0);
            singles.push(g);
        }
        // size fields
        let secs = o.sections();
        for k in 0..secs.len() {
            let at = pre.len() + MAGIC.len() + secs[..k].iter().map(|(n, c)| n.len() + 3 + c.len()).sum::<usize>() + secs[k].0.len() + 1;
            let step = if full { 1 } else { 7 };
            for v in (0..400).chain((400..=0xffffu32).step_by(step)) {
                let mut g = f.clone();
                g[at] = v as u8;
                g[at + 1] = (v >> 8) as u8;
                singles.push(g);
            }
        }
        // sections: duplicated, swapped, removed, renamed
        for k in 0..secs.len() {
            for j in 0..=secs.len() {
                let mut s = secs.clone();
                s.insert(j, secs[k].clone());
                singles.push([&pre[..], &file(&s)].concat());
                if j < secs.len() {
                    let mut s = secs.clone();
                    s.swap(k, j);
                    singles.push([&pre[..], &file(&s)].concat());
                }
            }
            let mut s = secs.clone();
            s.remove(k);
            singles.push([&pre[..], &file(&s)].concat());
            for name in ["_", "_x", "_segs", "_se", "__seg", "_sym", "_entry", "_flags", "_stack_size", "_heap_size", "_seg", "_syms", "_reloc", "name", "x", "_Seg", "_entry2"] {
                let mut s = secs.clone();
                s[k].0 = name.into();
                singles.push([&pre[..], &file(&s)].concat());
                let mut s = secs.clone();
                s.push((name.into(), secs[k].1.clone()));
                singles.push([&pre[..], &file(&s)].concat());
            }
        }
    }
    tally(r, &singles);
    par(r, &singles, |f| dec(f, false, &|| "single change".into()));
    let vals: &[u8] = if full {
        &[0, 1, 2, 3, 4, 5, 7, 0x0a, 0x10, 0x18, 0x20, b' ', b'R', b'_', b'a', b's', 0x70, 0x7f, 0x80, 0xa1, 0xc3, 0xfe, 0xff, 0x11]
    } else {
        &[0, 1, 3, 0x20, b'_', b'R', 0x10, 0x70, 0x7f, 0x80, 0xc3, 0xff]
    };
    let mut pairs: Vec<(usize, usize, usize)> = Vec::new();
    let files: Vec<Vec<u8>> = base.iter().map(|(o, p)| [&p[..], &o.bytes()].concat()).collect();
    for (k, f) in files.iter().enumerate() {
        for i in 0..f.len() {
            for j in i + 1..f.len() {
                if full || k != 1 {
                    pairs.push((k, i, j));
                }
            }
        }
    }
    par(r, &pairs, |&(k, i, j)| {
        for &a in vals {
            for &b in vals {
                let mut f = files[k].clone();
                f[i] = a;
                f[j] = b;
                dec(&f, false, &|| format!("object {k} with byte {i} = {a:#x} and byte {j} = {b:#x}"));
            }
        }
    });
    // short strings
    let al = [0u8, 1, 3, b'_', b'a', 0xff];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..=(if r.thorough { 9 } else { 8 }) {
        par(r, &last, |s| {
            dec(s, false, &|| "short file".into());
            dec(&[MAGIC, s].concat(), false, &|| "short string behind the signature".into());
        });
        last = last.iter().flat_map(|p| al.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
    }
    // section contents
    let al = [0u8, 1, b'R', b' ', 0x20, 0xff, 0xc3];
    let mut cont: Vec<Vec<u8>> = vec![vec![]];
    let mut last = cont.clone();
    for _ in 0..(if full { 6 } else { 5 }) {
        last = last.iter().flat_map(|p| al.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
        cont.extend(last.clone());
    }
    par(r, &cont, |c| {
        for n in ["_entry", "_flags", "_stack_size", "_heap_size", "_seg", "_syms", "_reloc", "_other", "other"] {
            let f = file(&[(n.to_string(), c.clone())]);
            dec(&f, false, &|| format!("section {n}"));
            if matches!(n, "_seg" | "_flags") {
                let f = file(&[("_seg".into(), vec![0, 0, 0x20, 9]), (n.to_string(), c.clone())]);
                dec(&f, false, &|| format!("section {n} behind a text segment"));
            }
        }
    });
    r.assume("not settled by the property and accepted either way: sections outside the reserved names, repeated reserved sections, surplus bytes in fixed-size sections, a partial last relocation entry, symbol names that are not UTF-8");
}

// ---------------------------------------------------------------- C17

fn read_all(path: &Path) -> Result<Result<Vec<Obj>, (usize, String)>, String> {
    guard(|| {
        let mut it = read_archive(path).map_err(|e| (0, e.to_string()))?;
        let mut v = Vec::new();
        for _ in 0..100_000 {
            match it.next(Object::from_aalv_reader) {
                Ok(Some(o)) => v.push(Obj::from_real(&o)),
                Ok(None) => {
                    // the end stays the end
                    match it.next(Object::from_aalv_reader) {
                        Ok(None) => return Ok(v),
                        _ => return Err((v.len(), "goes on after its end".into())),
                    }
                }
                Err(e) => return Err((v.len(), e.to_string())),
            }
        }
        Err((v.len(), "does not end".into()))
    })
}

fn c17(r: &Report, w: &Watchdog) {
    let sc = Scratch::new("c17");
    let depth = if r.thorough { 6 } else { 5 };
    r.bound(format!("all sequences of up to {depth} out of 9 object files (plain, with every kind of section, empty, executables with script lines, with parts of a signature in front, with signatures inside, larger than the read buffer), concatenated and through the tar tool (up to {} members), also with one of the inputs (by its name, a hard or a symbolic link) as output; every truncation of all archives of up to 2 small members; every change of a byte of the archive signature", depth.min(3)));
    let mut members: Vec<(Obj, Vec<u8>)> = Vec::new();
    let mut o = Obj { entry: Some((TEXT, 0x80)), ..Obj::default() };
    o.segs.insert(TEXT, (0x80, vec![1, 2, 3, 4]));
    o.syms = vec![sym("f", true, TEXT, 0x80), sym("loc", false, TEXT, 0x82)];
    o.rels = vec![Rel { ty: TEXT, loc: 0x81, sym: 1 }];
    members.push((o.clone(), vec![]));
    members.push((Obj::default(), vec![]));
    members.push((Obj { flags: Some(true), ..o.clone() }, b"#!/bin/env t\n".to_vec()));
    members.push((Obj { syms: vec![sym("g", true, UNKNOWN, 0xfaff)], ..Obj::default() }, MAGIC[..7].to_vec()));
    let mut q = Obj::default();
    q.segs.insert(DATA, (0, [MAGIC, &[0], SAVN, MAGIC].concat()));
    members.push((q.clone(), vec![0xc3]));
    members.push((Obj { stack: Some(0xa1c3), heap: Some(0), ..Obj::default() }, vec![0]));
    let mut big = o.clone();
    big.segs.insert(RODATA, (0x100, (0..8190).map(|i| (i % 251) as u8).collect()));
    members.push((big, vec![]));
    q.segs.insert(TEXT, (9, vec![0; 8150]));
    members.push((q, SAVN.to_vec()));
    // every kind of section at once
    let mut all = o.clone();
    for (i, t) in TYPES.iter().enumerate() {
        all.segs.entry(*t).or_insert((0x1000 + 0x100 * i as u16, vec![*t; i + 1]));
    }
    (all.flags, all.stack, all.heap) = (Some(false), Some(0x123), Some(0x4321));
    members.push((all, vec![]));
    let files: Vec<Vec<u8>> = members.iter().map(|(o, p)| [&p[..], &o.bytes()].concat()).collect();
    for (i, f) in files.iter().enumerate() {
        std::fs::write(sc.path(format!("m{i}.to")), f).unwrap();
    }
    let mut seqs: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|s| (0..files.len()).map(move |i| [&s[..], &[i]].concat())).collect();
        seqs.extend(last.clone());
    }
    let thread_path = |tag: &str| {
        thread_local!(static T: u64 = { static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) });
        sc.path(format!("{tag}{}.savn", T.with(|t| *t)))
    };
    let want = |s: &[usize]| s.iter().map(|&i| members[i].0.clone()).collect::<Vec<_>>();
    let whole = |s: &[usize], p: &Path, how: &str| {
        let got = w.run(|| format!("{s:?}"), || read_all(p));
        r.add(1, s.len() as u64 + 1, 1);
        match got {
            Ok(Ok(v)) if v == want(s) => r.outcome("complete", 1),
            g => r.violation(format!("archive of members {s:?} ({how}) reads differently"), format!("want {}\ngot  {}", brief(&want(s)), brief(&g))),
        }
    };
    par(r, &seqs, |s| {
        let p = thread_path("a");
        let mut a = SAVN.to_vec();
        for &i in s {
            a.extend(&files[i]);
        }
        std::fs::write(&p, &a).unwrap();
        whole(s, &p, "concatenated");
        if s.len() <= 3 {
            let p = thread_path("t");
            let mut c = std::process::Command::new(tool("tar"));
            c.current_dir(&sc.0);
            for &i in s {
                c.arg(format!("m{i}.to"));
            }
            // over an old longer file for some of them
            match s.iter().sum::<usize>() % 3 {
                0 => _ = std::fs::remove_file(&p),
                1 => std::fs::write(&p, vec![0xc3; 60000]).unwrap(),
                // the archive made before, of other members
                _ => (),
            }
            let out = run(c.arg("-o").arg(&p), b"", 30);
            if !out.ok() {
                return r.violation(format!("tar fails for members {s:?}"), out.text());
            }
            whole(s, &p, "through tar");
            // the output is one of the inputs, by its own or another name
            let dir = p.with_extension("d");
            std::fs::create_dir_all(&dir).unwrap();
            for at in 0..s.len() {
                for (n, other) in ["", "hard", "soft"].iter().enumerate().take(if s.len() < 3 { 3 } else { 1 }) {
                    for &i in s {
                        std::fs::write(dir.join(format!("m{i}.to")), &files[i]).unwrap();
                    }
                    let name = format!("m{}.to", s[at]);
                    let out = if n == 0 { name.clone() } else { other.to_string() };
                    let _ = std::fs::remove_file(dir.join(other));
                    match n {
                        1 => std::fs::hard_link(dir.join(&name), dir.join(other)).unwrap(),
                        2 => std::os::unix::fs::symlink(&name, dir.join(other)).unwrap(),
                        _ => (),
                    }
                    // endless output is stopped by the size limit
                    let mut c = std::process::Command::new("bash");
                    c.current_dir(&dir).args(["-c", "ulimit -f 4000; exec \"$@\"", "bash"]).arg(tool("tar"));
                    let o = run(c.args(s.iter().map(|i| format!("m{i}.to"))).arg("-o").arg(&out), b"", 30);
                    if o.ok() {
                        whole(s, &dir.join(&out), "the output is an input");
                    } else if !o.failed() || s.iter().any(|&i| std::fs::read(dir.join(format!("m{i}.to"))).ok() != Some(files[i].clone())) {
                        return r.violation(format!("tar of members {s:?} with the output over input {at} ({out})"), o.text());
                    } else {
                        r.outcome("output is an input: refused", 1);
                    }
                }
            }
        }
        // truncations
        if s.len() <= 2 && s.iter().all(|&i| files[i].len() < 300) {
            let ends: Vec<usize> = (0..=s.len()).map(|k| SAVN.len() + s[..k].iter().map(|&i| files[i].len()).sum::<usize>()).collect();
            let p = thread_path("c");
            for n in 0..a.len() {
                std::fs::write(&p, &a[..n]).unwrap();
                let got = w.run(|| format!("{s:?} cut to {n}"), || read_all(&p));
                r.add(1, 1, 1);
                let full = ends.iter().rposition(|&e| e <= n);
                let bad = match (&got, full) {
                    (Err(_), _) => true,
                    // within the signature
                    (Ok(Ok(_)), None) => true,
                    (Ok(Err(_)), None) => false,
                    (Ok(g), Some(k)) if ends[k] == n => match g {
                        Ok(v) => *v != want(&s[..k]),
                        // an archive without members may be refused
                        Err(_) => k != 0,
                    },
                    // within a member: an error, after the complete ones
                    (Ok(Ok(_)), Some(_)) => true,
                    (Ok(Err((m, _))), Some(k)) => *m != k,
                };
                r.outcome(if full.map(|k| ends[k] == n).unwrap_or(false) { "cut between members" } else { "cut rejected" }, 1);
                if bad {
                    return r.violation(format!("archive of {s:?} cut to {n} bytes (members end at {ends:?})"), brief(&got));
                }
            }
        }
    });
    // every position of a member's end relative to the buffer of the reader
    let sizes: Vec<usize> = (0..if r.thorough { 33000 } else { 8400 }).collect();
    r.bound(format!("archives of three members, the first with a segment of each size below {}, without and with other sections behind it", sizes.len()));
    par(r, &sizes, |&n| {
        for kind in 0..3 {
            let mut a = Obj::default();
            a.segs.insert(TEXT, (0x80, vec![0x20; n]));
            if kind == 1 {
                a.entry = Some((TEXT, 0x80));
                a.syms = vec![sym("f", true, TEXT, 0x80)];
                a.rels = vec![Rel { ty: TEXT, loc: 0x80, sym: 0 }];
            }
            let b = match kind {
                2 => members[6].0.clone(),
                _ => members[0].0.clone(),
            };
            let all = vec![a.clone(), b.clone(), a.clone()];
            let p = thread_path("s");
            std::fs::write(&p, [SAVN, &a.bytes(), &b.bytes(), &a.bytes()].concat()).unwrap();
            let got = w.run(|| format!("segment of {n} bytes, kind {kind}"), || read_all(&p));
            r.add(1, 4, 1);
            match got {
                Ok(Ok(v)) if v == all => r.outcome("complete", 1),
                g => return r.violation(format!("archive of three members with a segment of {n} bytes in the first (kind {kind}) reads differently"), format!("{} members wanted, got {}", all.len(), match &g { Ok(Ok(v)) => v.len().to_string(), _ => brief(&g) })),
            }
        }
    });
    // any number of members
    let counts: Vec<usize> = (5..=if r.thorough { 1100 } else { 300 }).chain([511, 512, 1000, 4096, if r.thorough { 66_000 } else { 5000 }]).collect();
    r.bound(format!("archives of every number of members up to {} and of {} members, all different, read and (some) made by tar from 1 to 300 files", counts[counts.len() - 6], counts.last().unwrap()));
    par(r, &counts, |&n| {
        let all: Vec<Obj> = (0..n)
            .map(|i| {
                let mut o = if i % 7 == 3 { Obj::default() } else { o.clone() };
                o.stack = Some(i as u16);
                if i % 3 == 0 {
                    o.segs.insert(DATA, (i as u16, vec![i as u8; i % 50]));
                    o.syms.push(sym(&format!("m{i}"), true, DATA, i as u16));
                }
                o
            })
            .collect();
        let p = thread_path("n");
        let mut a = SAVN.to_vec();
        for o in &all {
            a.extend(o.bytes());
        }
        std::fs::write(&p, &a).unwrap();
        let mut check = |how: &str| {
            let got = w.run(|| format!("{n} members"), || read_all(&p));
            r.add(1, n as u64 + 1, 1);
            match got {
                Ok(Ok(v)) if v == all => r.outcome("complete", 1),
                Ok(Ok(v)) => r.violation(format!("an archive of {n} members ({how}) reads differently"), format!("{} members, the first wrong one is number {:?}", v.len(), v.iter().zip(&all).position(|(a, b)| a != b))),
                g => r.violation(format!("an archive of {n} members ({how}) reads differently"), brief(&g)),
            }
        };
        check("concatenated");
        if n <= 300 && n % 9 == 0 {
            let dir = p.with_extension("many");
            std::fs::create_dir_all(&dir).unwrap();
            for (i, o) in all.iter().enumerate() {
                std::fs::write(dir.join(format!("{i}.to")), o.bytes()).unwrap();
            }
            let mut c = std::process::Command::new(tool("tar"));
            c.current_dir(&dir).args((0..n).map(|i| format!("{i}.to"))).arg("-o").arg(&p);
            let _ = std::fs::remove_file(&p);
            let out = run(&mut c, b"", 30);
            if !out.ok() {
                return r.violation(format!("tar fails for {n} members"), out.text());
            }
            check("through tar");
            let _ = std::fs::remove_dir_all(&dir);
        }
    });
    // signature
    let good = [SAVN, &files[0]].concat();
    let p = sc.path("sig.savn");
    for i in 0..SAVN.len() {
        for b in 0..=255u8 {
            if b == SAVN[i] {
                continue;
            }
            let mut a = good.clone();
            a[i] = b;
            std::fs::write(&p, &a).unwrap();
            let got = read_all(&p);
            r.add(1, 1, 1);
            if !matches!(got, Ok(Err((0, _)))) {
                r.violation("an archive with a wrong signature is accepted", format!("{}\n{}", hexdump(&a), brief(&got)));
            }
        }
    }
    for f in [files[0].clone(), files[2].clone(), vec![], [b"x", SAVN, &files[0]].concat(), [&SAVN[1..], &files[0]].concat()] {
        std::fs::write(&p, &f).unwrap();
        let got = read_all(&p);
        r.add(1, 1, 1);
        if !matches!(got, Ok(Err((0, _)))) {
            r.violation("a file without the archive signature is accepted", format!("{}\n{}", hexdump(&f), brief(&got)));
        }
    }
    let got = read_all(&sc.path("missing.savn"));
    if !matches!(got, Ok(Err(_))) {
        r.violation("a missing archive is accepted", brief(&got));
    }
}
