//! C24-C28: linker and stripper against the reference linker
use mc::linkmodel::*;
use mc::objfmt::*;
use mc::proc::*;
use mc::report::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    match id.as_str() {
        "C24" => c24(r),
        "C25" => c25(r),
        "C26" => c26(r),
        "C27" => c27(r),
        "C28" => c28(r),
        _ => panic!("unknown property {id}"),
    }
    cleanup();
    r.finish()
}

// ---------------------------------------------------------------- objects

/// Build an object piece by piece; symbol references are by name
#[derive(Default, Clone)]
struct B {
    o: Obj,
}
impl B {
    fn new() -> B {
        B::default()
    }
    /// a segment at `base` with `n` recognisable bytes
    fn seg(mut self, t: u8, base: u16, n: usize, tag: u8) -> B {
        self.o.segs.insert(t, (base, (0..n).map(|i| tag ^ (i as u8).wrapping_mul(7)).collect()));
        self
    }
    /// symbol at an offset in a segment
    fn def(mut self, name: &str, global: bool, t: u8, off: u16) -> B {
        let base = self.o.segs.get(&t).map(|s| s.0).unwrap_or(0);
        self.o.syms.push(sym(name, global, t, base + off));
        self
    }
    fn undef(mut self, name: &str) -> B {
        self.o.syms.push(sym(name, true, UNKNOWN, 0xfaff));
        self
    }
    /// the word at the offset refers to the k-th symbol; holds its present address
    fn rel(mut self, t: u8, off: u16, k: usize) -> B {
        let l = self.o.syms[k].loc;
        let s = self.o.segs.get_mut(&t).unwrap();
        s.1[off as usize..off as usize + 2].copy_from_slice(&l.to_le_bytes());
        self.o.rels.push(Rel { ty: t, loc: s.0 + off, sym: k as u16 });
        self
    }
    fn entry(mut self, t: u8, off: u16) -> B {
        self.o.entry = Some((t, self.o.segs[&t].0 + off));
        self
    }
}

/// Hand-picked objects
fn pool() -> Vec<(&'static str, Obj)> {
    let v = vec![
        ("main", B::new().seg(TEXT, 0x80, 9, 0x11).def("a", true, TEXT, 1).def("x", false, TEXT, 2).undef("b").rel(TEXT, 1, 1).rel(TEXT, 3, 2).rel(TEXT, 6, 0).entry(TEXT, 0)),
        ("data", B::new().seg(DATA, 0x80, 3, 0x21).seg(TEXT, 0x100, 8, 0x31).def("b", true, DATA, 1).def("x", false, DATA, 2).undef("a").rel(TEXT, 0, 2).rel(TEXT, 2, 1).rel(TEXT, 5, 1)),
        ("dup", B::new().seg(RODATA, 0x80, 2, 0x41).seg(TEXT, 0x100, 5, 0x51).def("a", true, RODATA, 0).def("b", false, TEXT, 3).rel(TEXT, 1, 1)),
        ("empty", B::new()),
        ("big", B::new().seg(DATA, 0x300, 130, 0x61).seg(TEXT, 0x200, 129, 0x71).undef("a").undef("b").def("x", false, TEXT, 128).rel(TEXT, 0, 0).rel(TEXT, 127, 1).rel(DATA, 128, 2).rel(DATA, 3, 0).entry(DATA, 129)),
        ("heap", B::new().seg(HEAP, 0x80, 5, 0x81).def("c", true, HEAP, 4).undef("d").rel(HEAP, 0, 0)),
        ("zero", B::new().seg(ZERO, 0, 4, 0x91).seg(RODATA, 0x80, 2, 0xa1).def("z", true, ZERO, 3).def("x", false, ZERO, 1).undef("c").rel(ZERO, 0, 1).rel(RODATA, 0, 2)),
        ("other", B::new().seg(TEXT, 0x80, 6, 0xb1).def("d", true, TEXT, 0).def("b", true, TEXT, 5).undef("z").rel(TEXT, 0, 2).rel(TEXT, 2, 0).entry(TEXT, 4)),
        ("label", B::new().seg(DATA, 0x80, 2, 0xc1).def("t", true, TEXT, 0).rel(DATA, 0, 0)),
        ("same", B::new().seg(TEXT, 0x90, 6, 0xd1).def("c", true, TEXT, 0).def("c", false, TEXT, 3).undef("t").rel(TEXT, 0, 1).rel(TEXT, 2, 0).rel(TEXT, 4, 2)),
        ("nameless", B::new().seg(TEXT, 0x80, 7, 0xe1).seg(DATA, 0x400, 1, 0xe2).def("", false, TEXT, 2).def("", false, DATA, 0).def("x", false, TEXT, 6).rel(TEXT, 1, 0).rel(TEXT, 3, 1).rel(TEXT, 5, 2)),
        ("twice", B::new().seg(RODATA, 0x80, 9, 0xf1).undef("a").undef("z").rel(RODATA, 0, 0).rel(RODATA, 2, 0).rel(RODATA, 4, 1).rel(RODATA, 7, 0)),
        ("hole", B::new().seg(DATA, 0x80, 0, 0).seg(TEXT, 0x80, 3, 0x14).def("e", true, DATA, 0).def("end", true, TEXT, 3).undef("end2").rel(TEXT, 0, 0)),
        ("sizes", {
            let mut b = B::new().seg(TEXT, 0x80, 4, 0x24).seg(HEAP, 0x200, 3, 0x34).def("end2", true, TEXT, 4).undef("e").rel(TEXT, 0, 1).entry(TEXT, 2);
            b.o.flags = Some(true);
            b.o.stack = Some(0x200);
            b.o.heap = Some(0x180);
            b
        }),
    ];
    v.into_iter().map(|(n, b)| (n, b.o)).collect()
}

/// All objects of a small grammar: what is done with the names a, b (global) and x (internal)
fn grammar(a_kinds: u8, b_kinds: u8, small: bool) -> Vec<Obj> {
    let mut v = Vec::new();
    for a in 0..a_kinds {
        for b in 0..b_kinds {
            for x in 0..2u8 {
                for entry in 0..2u8 {
                    for data in 0..if small { 1 } else { 3usize } {
                        let tag = (v.len() as u8).wrapping_mul(13) | 1;
                        let mut t = B::new();
                        let dn = if data == 0 { 3 } else { data - 1 };
                        if dn > 0 || a == 3 || b == 3 {
                            t = t.seg(DATA, 0x80, dn.max(1), tag ^ 0x55);
                        }
                        let n = 1 + 2 * (a > 0) as usize + 2 * (b > 0) as usize + 2 * x as usize;
                        t = t.seg(TEXT, 0x100, n, tag);
                        let mut at = 0;
                        for (name, k) in [("a", a), ("b", b)] {
                            match k {
                                0 => continue,
                                1 => t = t.undef(name),
                                2 => t = t.def(name, true, TEXT, at),
                                3 => t = t.def(name, true, DATA, 0),
                                // defined but not used here
                                4 => t = t.def(name, true, TEXT, at + 1),
                                // an internal symbol of that name
                                _ => t = t.def(name, false, TEXT, at),
                            }
                            let k2 = t.o.syms.len() - 1;
                            if k != 4 {
                                t = t.rel(TEXT, at, k2);
                            }
                            at += 2;
                        }
                        if x == 1 {
                            t = t.def("x", false, TEXT, at + 1);
                            let k = t.o.syms.len() - 1;
                            t = t.rel(TEXT, at, k);
                        }
                        if entry == 1 {
                            t = t.entry(TEXT, at);
                        }
                        v.push(t.o);
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- running

fn thread_dir(s: &Scratch) -> PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    thread_local!(static T: u64 = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    let d = s.path(format!("w{}", T.with(|t| *t)));
    let _ = std::fs::create_dir_all(&d);
    d
}
const OLD: &[u8] = &[b'~'; 3000];
thread_local!(
    /// Whether the linker is asked to tell what it does
    static VERBOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }
);

fn args_of(o: &Opts) -> Vec<String> {
    let mut v = vec!["-A".to_string(), o.align.to_string()];
    if o.strip {
        v.push("-S".into());
    }
    if o.exe {
        v.push("-e".into());
    }
    if let Some(e) = o.entry {
        v.push("-E".into());
        v.push(e.into());
    }
    v
}
fn tl(files: &[PathBuf], archives: &[PathBuf], o: &Opts, out: &Path) -> Out {
    let mut c = Command::new(tool("tl"));
    c.args(args_of(o)).arg("-o").arg(out).args(files);
    if VERBOSE.get() {
        c.arg("-v");
    }
    for a in archives {
        c.arg("-l").arg(a);
    }
    run(&mut c, b"", 30)
}
fn show(objs: &[&Obj]) -> String {
    objs.iter().map(|o| format!("  {o:x?}\n")).collect()
}

/// One link; `status`: what C27 says, otherwise what C24 says
fn one(r: &Report, s: &Scratch, files: &[PathBuf], objs: &[&Obj], o: Opts, status: bool) {
    let want = link(objs, o);
    if want.fail.is_some() && !status {
        r.outcome("has to fail: left to C27", 1);
        return;
    }
    let out = thread_dir(s).join("out.to");
    let case = |x: &Out| format!("tl {:?} of\n{}{}", args_of(&o), show(objs), x.text());
    // an output that exists already, and one that does not
    let mut befores = vec![false];
    if status && want.fail.is_some() {
        befores.push(true);
    }
    for before in befores {
        if before {
            std::fs::write(&out, OLD).unwrap();
        } else if want.fail.is_some() || status {
            let _ = std::fs::remove_file(&out);
        } else {
            // the result of the link before, newer than these inputs, is there still
        }
        let x = tl(files, &[], &o, &out);
        r.add(1, files.len() as u64, 1);
        if x.timeout || x.code.is_none() {
            return r.violation("the linker hangs or is ended by a signal", case(&x));
        }
        let file = std::fs::read(&out).ok();
        if let Some(why) = want.fail {
            r.outcome(why, 1);
            if x.ok() {
                return r.violation(format!("the linker succeeds although it has to fail: {why}"), case(&x));
            }
            if x.stderr.is_empty() {
                return r.violation(format!("no message for: {why}"), case(&x));
            }
            if x.panicked() {
                return r.violation(format!("the linker crashes where it has to fail: {why}"), case(&x));
            }
            let oversize = why == "beyond the format's limits";
            if !oversize && file.as_deref() != before.then_some(OLD) {
                return r.violation(format!("a failing link touches the output file ({why})"), case(&x));
            }
            continue;
        }
        if !x.ok() {
            if want.open.is_some() {
                r.outcome("not settled, refused", 1);
                continue;
            }
            return r.violation("a consistent link fails", case(&x));
        }
        let Some(f) = file else { return r.violation("success without output file", case(&x)) };
        let Verdict::Object(_, got) = judge(&f) else { return r.violation("the output is not a valid object", case(&x)) };
        r.outcome("linked", 1);
        if !status {
            if let Some(d) = differs(&want.obj, &want.undefined, &got) {
                return r.violation("the linked object is wrong", format!("{d}{}", case(&x)));
            }
            let mode = std::os::unix::fs::PermissionsExt::mode(&std::fs::metadata(&out).unwrap().permissions());
            if o.exe && mode & 0o111 != 0o111 {
                return r.violation("the executable may not be executed", format!("mode {mode:o}\n{}", case(&x)));
            }
        }
    }
}

fn save(s: &Scratch, tag: &str, objs: &[Obj]) -> Vec<PathBuf> {
    objs.iter()
        .enumerate()
        .map(|(i, o)| {
            let p = s.path(format!("{tag}{i}.to"));
            std::fs::write(&p, o.bytes()).unwrap();
            p
        })
        .collect()
}
fn tuples(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.iter().flat_map(|t: &Vec<usize>| (0..n).map(move |i| t.iter().copied().chain([i]).collect())).collect();
    }
    v
}

fn explore(r: &Report, status: bool) {
    let s = Scratch::new("link");
    let full = r.thorough;
    let named = pool();
    let pobj: Vec<Obj> = named.iter().map(|x| x.1.clone()).collect();
    let pfile = save(&s, "p", &pobj);
    let plain = Opts { align: 128, strip: false, exe: false, entry: None };
    let mut opts: Vec<Opts> = vec![plain, Opts { exe: true, ..plain }];
    for e in ["a", "b", "x", "c", "nosuch", "", "0x80", "0x0", "0xffff", "0x10000", "0xg1", "0x"] {
        opts.push(Opts { exe: true, entry: Some(e), ..plain });
    }
    if !status {
        opts.push(Opts { strip: true, ..plain });
        opts.push(Opts { strip: true, exe: true, ..plain });
    }
    for align in [1, 2, 4, 8, 16, 32, 64, 256, 512, 1024, 4096, 16384, 32768] {
        opts.push(Opts { align, ..plain });
        opts.push(Opts { align, strip: true, exe: align > 64, ..plain });
    }
    r.bound(format!(
        "all singles and ordered pairs of {} chosen objects x {} option sets, all ordered triples x {} option sets; all ordered pairs of the {} objects of a grammar (each of two global names: absent, referenced, defined in text or data, defined without use, internal; an internal name; entry; data size) x {} option sets",
        pobj.len(), opts.len(), if full { 9 } else { 3 }, grammar(6, 6, !full).len(), if full { 3 } else { 2 }
    ));
    // singles and pairs, all options
    let mut jobs: Vec<Vec<usize>> = tuples(pobj.len(), 1);
    jobs.extend(tuples(pobj.len(), 2));
    par(r, &jobs, |j| {
        let objs: Vec<&Obj> = j.iter().map(|&i| &pobj[i]).collect();
        let files: Vec<PathBuf> = j.iter().map(|&i| pfile[i].clone()).collect();
        for (k, o) in opts.iter().enumerate() {
            for v in [false, true] {
                if !r.stopped() && (!v || k < 3 || o.strip && o.align == 4) {
                    VERBOSE.set(v);
                    one(r, &s, &files, &objs, *o, status);
                    VERBOSE.set(false);
                }
            }
        }
    });
    r.bound("three of the option sets also with the linker telling what it does (-v), likewise every other set of archives");
    r.sample(format!("objects {:?}", named.iter().map(|x| x.0).collect::<Vec<_>>()));
    entries(r, &s, status, plain);
    alike(r, &s, status, plain);
    // inputs are what is in the files, whatever these are called
    let called = [["p/a.to", "q/a.to", "a.to"], ["a", "a.to", "a.to.to"], ["A.to", "a.to", "\u{e1}.to"], ["two words.to", "two", " .to"], [".to", "x.telda", "x.savn"], ["p/../a.to", "q/../b.to", "p/q/r/a.to"]];
    r.bound(format!("all triples of 8 objects under {} sets of file names (same names in several folders, without and with several extensions, case, spaces, paths)", called.len()));
    par(r, &tuples(pobj.len().min(8), 3), |j| {
        let objs: Vec<&Obj> = j.iter().map(|&i| &pobj[i]).collect();
        let d = thread_dir(&s).join("called");
        for c in &called {
            let files: Vec<PathBuf> = c.iter().map(|n| d.join(n)).collect();
            for f in &files {
                for p in ["p", "q", "p/q/r"] {
                    let _ = std::fs::create_dir_all(d.join(p));
                }
                std::fs::write(f, objs[files.iter().position(|x| x == f).unwrap()].bytes()).unwrap();
            }
            if !r.stopped() {
                one(r, &s, &files, &objs, plain, status);
            }
        }
    });
    // triples
    let few: Vec<Opts> = if full {
        opts.iter().copied().filter(|o| o.align == 128 || o.align == 1).take(9).collect()
    } else {
        vec![plain, Opts { exe: true, ..plain }, Opts { align: 4, strip: true, exe: true, entry: Some("b") }]
    };
    par(r, &tuples(pobj.len(), 3), |j| {
        let objs: Vec<&Obj> = j.iter().map(|&i| &pobj[i]).collect();
        let files: Vec<PathBuf> = j.iter().map(|&i| pfile[i].clone()).collect();
        for o in &few {
            if !r.stopped() {
                one(r, &s, &files, &objs, *o, status);
            }
        }
    });
    // grammar pairs
    let gobj = grammar(6, 6, !full);
    let gfile = save(&s, "g", &gobj);
    let gopts: Vec<Opts> = if full { vec![plain, Opts { exe: true, ..plain }, Opts { align: 2, strip: true, exe: true, entry: Some("a") }] } else { vec![plain, Opts { align: 1, strip: true, exe: true, ..plain }] };
    let rows: Vec<usize> = (0..gobj.len()).collect();
    par(r, &rows, |&i| {
        for j in 0..gobj.len() {
            for o in &gopts {
                if !r.stopped() && !r.check_time() {
                    one(r, &s, &[gfile[i].clone(), gfile[j].clone()], &[&gobj[i], &gobj[j]], *o, status);
                }
            }
        }
    });
}

/// Requested entry points that are almost an address or a name
fn entries(r: &Report, s: &Scratch, status: bool, plain: Opts) {
    let names = ["start", "Start", "a.b", "82", "x82", "0X82", "0b11", "e"];
    let mut b = B::new().seg(TEXT, 0x80, 40, 0x17).def("inner", false, TEXT, 3).undef("away");
    for (i, n) in names.iter().enumerate() {
        b = b.def(n, true, TEXT, 7 + 3 * i as u16);
    }
    let o = b.o;
    let file = save(s, "entries", std::slice::from_ref(&o));
    let chars: Vec<char> = (0x20..0x7fu8).map(|c| c as char).chain(['\t', '\u{e9}', '\u{661}', '\u{ff11}', '\u{200b}']).collect();
    let mut words: Vec<String> = vec![];
    let bases: Vec<&str> = names.iter().copied().chain(["inner", "away", "0x82", "0x0082", "0xABCD", "0xffff", "130", "0o202", "0b10000010", "82h", "$82"]).collect();
    for f in bases {
        let c: Vec<char> = f.chars().collect();
        for i in 0..=c.len() {
            for x in &chars {
                words.push(c[..i].iter().chain([x]).chain(&c[i..]).collect());
                if i < c.len() {
                    words.push(c[..i].iter().chain([x]).chain(&c[i + 1..]).collect());
                }
            }
            words.push(c[..i].iter().collect());
            words.push(c[i..].iter().collect());
            if i < c.len() {
                words.push(c[..i].iter().chain(&c[i + 1..]).collect());
            }
        }
        words.push(f.to_uppercase());
        words.push(f.to_lowercase());
    }
    words.sort();
    words.dedup();
    // like an option, or open
    words.retain(|w| !w.starts_with('-') && !w.starts_with("0x+"));
    r.bound(format!("{} requested entry points: addresses and names and what differs from one in a character", words.len()));
    // C27 only asks for those that have to fail, C24 for the others
    par(r, &words, |w| {
        let w: &'static str = Box::leak(w.clone().into_boxed_str());
        let o2 = Opts { exe: true, entry: Some(w), ..plain };
        if !r.stopped() && link(&[&o], o2).fail.is_some() == status {
            one(r, s, &file, &[&o], o2, status);
        }
    });
}

/// Many names that resemble one another, defined in one input and used in another
fn alike(r: &Report, s: &Scratch, status: bool, plain: Opts) {
    let mut groups: Vec<Vec<String>> = vec![];
    let al = ['a', 'A', 'b', '_', '0', '.', ' ', '\u{e9}', '\u{c9}'];
    let mut short: Vec<String> = vec![];
    for a in al {
        short.push(a.into());
        for b in al {
            short.push([a, b].iter().collect());
            for c in al {
                short.push([a, b, c].iter().collect());
            }
        }
    }
    // a space in front marks an internal symbol in the file
    short.retain(|n| !n.starts_with(' '));
    groups.push(short);
    for c in ["n", "\u{e9}"] {
        for from in [1, 100, 200] {
            groups.push((from..from + 100).flat_map(|n| [c.repeat(n), c.repeat(n - 1) + "m"]).collect());
        }
        groups.push([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097].iter().flat_map(|&n| [c.repeat(n), c.repeat(n - 1) + "m"]).collect());
    }
    // same front and back, one different character at every place
    for len in [8usize, 9, 16, 17, 32, 33, 64, 65, 128] {
        groups.push((0..len).map(|i| (0..len).map(|k| if k == i { 'y' } else { 'x' }).collect()).chain([("x").repeat(len)]).collect());
    }
    groups.push((0..400).map(|n| format!("l{n}")).chain((0..400).map(|n| format!("l{n:03}"))).chain((0..100).map(|n| format!("{n}l"))).collect());
    r.bound(format!("{} names that resemble one another, in {} groups: every one, every second and all but one defined in another input, with internal ones of the same names between", groups.iter().map(|g| g.len()).sum::<usize>(), groups.len()));
    let mut sets: Vec<(Vec<Obj>, Opts)> = vec![];
    for mut g in groups {
        g.sort();
        g.dedup();
        for keep in 0..5usize {
            let kept = |i: usize| match keep {
                0 => true,
                1 => i % 2 == 0,
                2 => i % 2 == 1,
                3 => i != g.len() / 2,
                _ => i != 0 && i + 1 != g.len(),
            };
            let mut d = B::new().seg(TEXT, 0x80, g.len() + 3, 0x19).entry(TEXT, 0);
            let mut inner = B::new().seg(TEXT, 0x80, 2 * g.len() + 3, 0x29);
            let mut u = B::new().seg(TEXT, 0x80, 2 * g.len() + 1, 0x39);
            for (i, n) in g.iter().enumerate() {
                if kept(i) {
                    d = d.def(n, true, TEXT, i as u16);
                }
                inner = inner.def(n, false, TEXT, i as u16);
                inner = inner.rel(TEXT, 2 * i as u16, i);
            }
            for (k, n) in g.iter().rev().enumerate() {
                u = u.undef(n).rel(TEXT, 2 * k as u16, k);
            }
            for v in [vec![&d, &u], vec![&u, &d], vec![&u, &inner, &d], vec![&d, &inner, &u]] {
                let v: Vec<Obj> = v.iter().map(|b| b.o.clone()).collect();
                sets.push((v.clone(), plain));
                sets.push((v.clone(), Opts { exe: true, ..plain }));
                sets.push((v, Opts { strip: true, ..plain }));
            }
            // all but one are defined again
            let v = vec![d.o.clone(), inner.o.clone(), {
                let mut e = B::new().seg(TEXT, 0x80, 4, 0x49);
                for (i, n) in g.iter().enumerate() {
                    if !kept(i) {
                        e = e.def(n, true, TEXT, i as u16 % 4);
                    }
                }
                e.o
            }, u.o.clone()];
            sets.push((v, Opts { exe: true, ..plain }));
        }
    }
    let nums: Vec<usize> = (0..sets.len()).collect();
    par(r, &nums, |&i| {
        if r.stopped() {
            return;
        }
        let (v, o) = &sets[i];
        let refs: Vec<&Obj> = v.iter().collect();
        if status == link(&refs, *o).fail.is_some() {
            let files = save(s, &format!("alike{i}"), v);
            one(r, s, &files, &refs, *o, status);
            for f in files {
                let _ = std::fs::remove_file(f);
            }
        }
    });
}

fn c24(r: &Report) {
    explore(r, false);
    // the highest addresses that still fit
    let s = Scratch::new("fit");
    r.bound("sizes around the end of the address space (two inputs, one and two segments)");
    oversize(r, &s, false);
    large(r, &s);
    r.assume("undefined symbols: their location and the bytes that refer to them are not compared in linked objects");
}
/// n objects that refer to each other
fn ring(n: usize, step: usize) -> Vec<Obj> {
    (0..n)
        .map(|i| {
            let mut b = B::new().seg(TEXT, 0x80 + i as u16, 8, i as u8 | 1);
            if i % 3 == 1 {
                b = b.seg(DATA, 0x100, 1 + i % 5, i as u8).def(&format!("d{i}"), true, DATA, 1);
            }
            b = b.def("x", false, TEXT, 5).rel(TEXT, 0, if i % 3 == 1 { 1 } else { 0 }).def(&format!("g{i}"), true, TEXT, 1);
            for (k, t) in [(i * step + 1) % n, (i + 1) % n].into_iter().enumerate() {
                if t != i && (k == 0 || t != (i * step + 1) % n) {
                    b = b.undef(&format!("g{t}"));
                    let s = b.o.syms.len() - 1;
                    b = b.rel(TEXT, 2 + 2 * k as u16, s);
                }
            }
            if i == n / 2 {
                b = b.entry(TEXT, 6);
            }
            b.o
        })
        .collect()
}
/// an object with n symbols, alternately internal and global (by the mask), each with a relocation
fn crowd(n: usize, mask: usize, tag: &str) -> Obj {
    let mut b = B::new().seg(TEXT, 0x200, 2 * n + 1, n as u8);
    for i in 0..n {
        b = match i & mask {
            0 => b.def(&format!("{tag}{i}"), true, TEXT, i as u16),
            1 => b.def(&format!("{tag}{i}"), false, TEXT, i as u16 + 1),
            2 => b.def("", false, TEXT, i as u16 + 1),
            _ => b.undef(&format!("{}{}", if tag == "p" { "q" } else { "p" }, i & !mask)),
        };
    }
    for i in 0..n {
        b = b.rel(TEXT, 2 * i as u16, (i * 7 + 3) % n);
    }
    b.o
}
/// Many inputs, many symbols, long names
fn large(r: &Report, s: &Scratch) {
    let full = r.thorough;
    let counts: Vec<usize> = (2..=if full { 130 } else { 40 }).chain([64, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    r.bound(format!("{} numbers of inputs up to 300 that refer to each other in 3 patterns, in plain, executable and stripped links; inputs with up to 6000 symbols and relocations (4 mixtures); names of up to 5000 bytes", counts.len()));
    let plain = Opts { align: 128, ..Opts::default() };
    let opts = [plain, Opts { exe: true, ..plain }, Opts { strip: true, align: 1, ..plain }];
    par(r, &counts, |&n| {
        for step in [1, 5, 0] {
            let objs = ring(n, step);
            let files = save(s, &format!("ring{n}-{step}-"), &objs);
            for o in opts {
                one(r, s, &files, &objs.iter().collect::<Vec<_>>(), o, false);
            }
            for f in files {
                let _ = std::fs::remove_file(f);
            }
        }
    });
    let mut pairs: Vec<(usize, usize, usize)> = Vec::new();
    for n in [127, 128, 129, 254, 255, 256, 257, 258, 300, 513, 1000, 4095, 4097, 6000] {
        for mask in 0..4 {
            for other in [1, 2, 256, 1000] {
                if n * other < 300_000 {
                    pairs.push((n, mask, other));
                }
            }
        }
    }
    par(r, &pairs, |&(n, mask, other)| {
        let objs = [crowd(n, mask, "p"), crowd(other, mask, "q"), crowd(3, 0, "r")];
        let files = save(s, &format!("crowd{n}-{mask}-{other}-"), &objs);
        for o in opts {
            for order in [[0, 1, 2], [2, 1, 0], [1, 2, 0]] {
                one(r, s, &order.map(|i| files[i].clone()), &order.map(|i| &objs[i]), o, false);
            }
        }
        for f in files {
            let _ = std::fs::remove_file(f);
        }
    });
    let lengths: Vec<usize> = (1..300).chain([511, 512, 1023, 1024, 4095, 4096, 5000]).collect();
    par(r, &lengths, |&n| {
        let (a, b) = ("n".repeat(n), "n".repeat(n) + "m");
        let objs = [
            B::new().seg(TEXT, 0x80, 8, 3).def(&a, true, TEXT, 1).undef(&b).rel(TEXT, 0, 1).rel(TEXT, 2, 0).o,
            B::new().seg(TEXT, 0x90, 8, 5).def(&b, true, TEXT, 3).def(&a, false, TEXT, 7).rel(TEXT, 0, 1).rel(TEXT, 2, 0).o,
            B::new().seg(TEXT, 0xa0, 8, 7).undef(&a).undef(&b).rel(TEXT, 0, 1).rel(TEXT, 2, 0).o,
        ];
        let files = save(s, &format!("name{n}-"), &objs);
        one(r, s, &files, &objs.iter().collect::<Vec<_>>(), plain, false);
        one(r, s, &files, &objs.iter().collect::<Vec<_>>(), Opts { exe: true, entry: Some(&a), ..plain }, false);
    });
}

/// Segment sizes around the limits
fn oversize(r: &Report, s: &Scratch, status: bool) {
    let mk = |t: u8, n: usize, with: bool| {
        let mut b = B::new().seg(t, if n > 0x7000 { 0 } else { 0x80 }, n, 5);
        if with && n > 4 {
            b = b.def(if t == TEXT { "t" } else { "d" }, true, t, n as u16 - 1).rel(t, 0, 0);
        }
        b.o
    };
    // (first object, second object, alignment)
    let mut cases: Vec<(Obj, Obj, u32)> = Vec::new();
    let up = |n: i64, a: u32| (n + a as i64 - 1) / a as i64 * a as i64;
    let near: Vec<i64> = (-3..=3).collect();
    for (t1, t2) in [(TEXT, TEXT), (DATA, TEXT), (TEXT, HEAP), (TEXT, DATA), (ZERO, TEXT), (ZERO, ZERO)] {
        for first in [1usize, 0x80, 0x7f00, 0x8000, 0xff00, 65532] {
            for &d in &near {
                for align in [1u32, 128, 4096, 32768] {
                    // so that the end is 0x10000 + d
                    for base in [0x10000i64, 0xff80, 65532] {
                        let used = match (t1 == t2, t1) {
                            (true, ZERO) => first as i64,
                            (true, _) => up(0x80, align) + first as i64,
                            (false, ZERO) => up(first.max(0x80) as i64, align),
                            _ => up(up(0x80, align) + first as i64, align),
                        };
                        let n = base + d - used;
                        if (0..=65532).contains(&n) && first <= 65532 {
                            cases.push((mk(t1, first, true), mk(t2, n as usize, false), align));
                        }
                    }
                }
            }
        }
    }
    // symbol tables beyond the limit
    for n in [8180usize, 8190, 8191, 8192, 8200] {
        let mut o = Obj::default();
        for i in 0..n {
            o.syms.push(sym(&format!("{:03x}", i % 4096), i >= 4096 && i < 4096 + 10, UNKNOWN, 0xfaff));
        }
        for s in &mut o.syms {
            if !s.global {
                s.ty = TEXT;
                s.loc = 0;
            }
        }
        o.segs.insert(TEXT, (0x80, vec![1, 2, 3]));
        for s in &mut o.syms {
            if s.ty == TEXT {
                s.loc = 0x81
            }
        }
        if o.fits() {
            cases.push((o.clone(), o.clone(), 128));
            cases.push((o, Obj::default(), 128));
        }
    }
    // relocation tables
    for n in [6552usize, 6553, 6554, 13106, 13107] {
        let mut o = B::new().seg(TEXT, 0x80, 5, 3).def("q", false, TEXT, 1).o;
        for _ in 0..n {
            o.rels.push(Rel { ty: TEXT, loc: 0x81, sym: 0 });
        }
        if o.fits() {
            cases.push((o.clone(), o.clone(), 128));
        }
    }
    r.count("sizes", cases.len() as u64);
    par(r, &cases, |(a, b, align)| {
        let d = thread_dir(s);
        let f = [d.join("a.to"), d.join("b.to")];
        std::fs::write(&f[0], a.bytes()).unwrap();
        std::fs::write(&f[1], b.bytes()).unwrap();
        let brief = |o: &Obj| format!("{:x?}", o.segs.iter().map(|(t, s)| (*t, s.1.len())).collect::<Vec<_>>());
        let o = Opts { align: *align, ..Opts::default() };
        let want = link(&[a, b], o);
        if want.fail.is_some() && !status {
            return;
        }
        let out = d.join("out.to");
        let _ = std::fs::remove_file(&out);
        let x = tl(&f, &[], &o, &out);
        r.add(1, 2, 1);
        let case = || format!("sizes {} and {}, alignment {align:#x}, {} symbols, {} relocations each\n{}", brief(a), brief(b), a.syms.len(), a.rels.len(), x.text());
        if x.timeout || x.code.is_none() {
            return r.violation("the linker hangs or is ended by a signal", case());
        }
        if let Some(w) = want.fail {
            r.outcome(w, 1);
            if x.ok() {
                r.violation(format!("the linker succeeds although it has to fail: {w}"), case());
            } else if x.panicked() || x.stderr.is_empty() {
                r.violation(format!("the linker crashes or says nothing where it has to fail: {w}"), case());
            } else if w == "beyond the address space" && out.exists() {
                r.violation(format!("a failing link touches the output file ({w})"), case());
            }
            return;
        }
        if !x.ok() {
            if want.open.is_none() {
                r.violation("inputs that fit the address space are refused", case());
            }
            return;
        }
        match std::fs::read(&out).map(|f| judge(&f)) {
            Ok(Verdict::Object(_, g)) => {
                r.outcome("fits", 1);
                if differs(&want.obj, &want.undefined, &g).is_some() {
                    r.violation("the linked object is wrong", case());
                }
            }
            _ => r.violation("the output is not a valid object", case()),
        }
    });
}

fn c27(r: &Report) {
    explore(r, true);
    let s = Scratch::new("over");
    r.bound("two inputs with sizes around the end of the address space and the 16-bit section limit (1764 combinations of segments, sizes and alignments), symbol and relocation tables around the limit; unreadable and malformed inputs and archives at each position; the option combinations that are refused");
    if !r.stopped() {
        oversize(r, &s, true);
    }
    // unreadable and malformed inputs
    let good = s.path("good.to");
    let objs = pool();
    std::fs::write(&good, objs[0].1.bytes()).unwrap();
    let bytes = objs[1].1.bytes();
    std::fs::create_dir_all(s.path("dir")).unwrap();
    let bad: Vec<(String, PathBuf)> = {
        let mut v: Vec<(String, PathBuf)> = vec![("missing".into(), s.path("missing")), ("directory".into(), s.path("dir"))];
        for n in 0..bytes.len() {
            let p = s.path(format!("cut{n}"));
            std::fs::write(&p, &bytes[..n]).unwrap();
            v.push((format!("cut after {n} bytes"), p));
        }
        let p = s.path("badrel");
        let mut o = objs[0].1.clone();
        o.rels[0].ty = HEAP;
        std::fs::write(&p, o.bytes()).unwrap();
        v.push(("relocation in a missing segment".into(), p));
        for (k, f) in [
            ("symbol number out of range", Box::new(|o: &mut Obj| o.rels[0].sym = 99) as Box<dyn Fn(&mut Obj)>),
            ("relocation beyond its segment", Box::new(|o: &mut Obj| o.rels[0].loc = 0x3000)),
            ("relocation across the end of its segment", Box::new(|o: &mut Obj| o.rels[0].loc = 0x88)),
            ("relocation before its segment", Box::new(|o: &mut Obj| o.rels[0].loc = 0x10)),
        ] {
            let mut o = objs[0].1.clone();
            f(&mut o);
            let p = s.path(k.replace(' ', "_"));
            std::fs::write(&p, o.bytes()).unwrap();
            v.push((k.into(), p));
        }
        v
    };
    par(r, &bad, |(what, p)| {
        let d = thread_dir(&s);
        let out = d.join("out.to");
        let arch = d.join("x.savn");
        for place in 0..3 {
            for before in [false, true] {
                if before {
                    std::fs::write(&out, OLD).unwrap();
                } else {
                    let _ = std::fs::remove_file(&out);
                }
                let o = Opts { align: 128, ..Opts::default() };
                let x = match place {
                    0 => tl(&[p.clone(), good.clone()], &[], &o, &out),
                    1 => tl(&[good.clone(), p.clone()], &[], &o, &out),
                    _ => {
                        // only files that are no archive at all
                        if what.starts_with("rel") || what.starts_with("sym") {
                            continue;
                        }
                        let a = match std::fs::read(p) {
                            Ok(b) if !b.is_empty() && b.len() != 1 => {
                                let mut f = SAVN.to_vec();
                                f.extend(bytes.iter());
                                f.extend(b);
                                std::fs::write(&arch, f).unwrap();
                                arch.clone()
                            }
                            Ok(_) => continue,
                            Err(_) => p.clone(),
                        };
                        tl(std::slice::from_ref(&good), &[a], &o, &out)
                    }
                };
                r.add(1, 1, 1);
                r.outcome("unreadable or malformed input", 1);
                let f = std::fs::read(&out).ok();
                let case = || format!("{what} at place {place}, output existed: {before}\n{}", x.text());
                if x.timeout || x.code.is_none() {
                    return r.violation("the linker hangs or is ended by a signal", case());
                }
                if x.ok() {
                    return r.violation("the linker succeeds with an unreadable or malformed input", case());
                }
                if f.as_deref() != before.then_some(OLD) {
                    return r.violation("a failing link touches the output file", case());
                }
            }
        }
    });
    // options
    if !r.stopped() {
        let out = s.path("opt.to");
        let g = good.to_str().unwrap();
        for a in [
            vec![], vec!["-e"], vec![g, "-E", "a"], vec![g, "-A", "0"], vec![g, "-A", "3"], vec![g, "-A", "65536"], vec![g, "-A", "-1"], vec![g, "-A", "x"], vec![g, "-A", "96"], vec![g, "-e", "-r"], vec![g, "-Z"],
        ] {
            let _ = std::fs::remove_file(&out);
            let x = run(Command::new(tool("tl")).args(&a).arg("-o").arg(&out), b"", 20);
            r.add(1, 1, 1);
            if !x.failed() || out.exists() {
                return r.violation("refused options give an output", format!("{a:?}\n{}", x.text()));
            }
        }
    }
}

// ---------------------------------------------------------------- C25

/// Links of sequences of pool objects, remembered
struct Parts<'a> {
    s: &'a Scratch,
    pool: &'a [PathBuf],
    done: Mutex<BTreeMap<(String, String), Option<PathBuf>>>,
}
impl Parts<'_> {
    /// Link the given parts (each named by its grouping); None if it fails
    fn link(&self, r: &Report, parts: &[String], o: &Opts, fin: bool) -> Option<PathBuf> {
        let name = if parts.len() == 1 && fin { parts[0].clone() } else { format!("({})", parts.join("_")) };
        let key = (name.clone(), format!("{o:?}"));
        if let Some(p) = self.done.lock().unwrap().get(&key) {
            return p.clone();
        }
        let files: Option<Vec<PathBuf>> = parts
            .iter()
            .map(|p| match p.parse::<usize>() {
                Ok(i) => Some(self.pool[i].clone()),
                Err(_) => self.done.lock().unwrap().get(&(p.clone(), format!("{:?}", Opts { exe: false, entry: None, ..*o }))).cloned().flatten(),
            })
            .collect();
        let p = files.and_then(|f| {
            let p = self.s.path(format!("{}-{}-{}{}{}.to", name.replace(['(', ')'], "."), o.align, o.strip as u8, o.exe as u8, o.entry.unwrap_or("")));
            let x = tl(&f, &[], o, &p);
            r.add(0, 1, 0);
            if x.timeout || x.code.is_none() {
                r.violation("the linker hangs or is ended by a signal", format!("{parts:?} {}", x.text()));
            }
            x.ok().then_some(p)
        });
        self.done.lock().unwrap().insert(key, p.clone());
        p
    }
}
/// All ways to group the sequence (as an ordered tree whose leaves are the numbers); the outermost list
fn groupings(q: &[usize]) -> Vec<Vec<String>> {
    // partitions of the sequence into consecutive parts; a part is a leaf or itself grouped
    fn parts(q: &[usize], whole: bool) -> Vec<Vec<Vec<String>>> {
        // each element: alternatives as nested names
        if q.is_empty() {
            return vec![vec![]];
        }
        let mut v = Vec::new();
        for n in 1..=q.len() {
            if n == q.len() && n > 1 && !whole {
                continue;
            }
            let alts = group(&q[..n]);
            for rest in parts(&q[n..], true) {
                let mut t = vec![alts.clone()];
                t.extend(rest);
                v.push(t);
            }
        }
        v
    }
    fn group(q: &[usize]) -> Vec<String> {
        let mut v = Vec::new();
        if q.len() == 1 {
            v.push(q[0].to_string());
            v.push(format!("({})", q[0]));
        } else {
            for p in parts(q, false) {
                if p.len() > 1 {
                    for t in product(&p) {
                        v.push(format!("({})", t.join("_")));
                    }
                }
            }
        }
        v
    }
    fn product(p: &[Vec<String>]) -> Vec<Vec<String>> {
        p.iter().fold(vec![vec![]], |acc, alts| acc.iter().flat_map(|t: &Vec<String>| alts.iter().map(move |a| t.iter().cloned().chain([a.clone()]).collect())).collect())
    }
    parts(q, false).iter().filter(|p| p.len() > 1 || q.len() == 1).flat_map(|p| product(p)).collect()
}

fn c25(r: &Report) {
    let s = Scratch::new("c25");
    let full = r.thorough;
    let named = pool();
    let plain = Opts { align: 128, strip: false, exe: false, entry: None };
    let opts = vec![plain, Opts { exe: true, ..plain }, Opts { align: 4, exe: true, entry: Some("b"), ..plain }, Opts { align: 256, strip: true, ..plain }];
    let quad = if full { 9 } else { 0 };
    r.bound(format!("all ordered pairs and triples of {} objects, {} in every nested grouping with each input also linked alone (quick: alone only with plain options), x {} final option sets (plain, executable, entry symbol, stripped; 3 alignments)", named.len(), if full { "quadruples of the first 9," } else { "" }, opts.len()));
    let objs: Vec<Obj> = named.iter().map(|x| x.1.clone()).collect();
    let files = save(&s, "p", &objs);
    let p = Parts { s: &s, pool: &files, done: Mutex::default() };
    let mut seqs = tuples(objs.len(), 1);
    seqs.extend(tuples(objs.len(), 2));
    seqs.extend(tuples(objs.len(), 3));
    // sequences that share the first two objects go to the same thread, so that parts are reused
    let mut jobs: BTreeMap<Vec<usize>, Vec<Vec<usize>>> = BTreeMap::new();
    for q in seqs {
        jobs.entry(q[..q.len().min(2)].to_vec()).or_default().push(q);
    }
    for q in tuples(quad, 4) {
        jobs.entry(q[..2].to_vec()).or_default().push(q);
    }
    let mut jobs: Vec<_> = jobs.into_values().collect();
    jobs.sort_by_key(|j| j[0].len());
    par(r, &jobs, |qs| {
        for q in qs {
            for o in &opts {
                if q.len() == 4 && (o.align != 128 || o.exe) {
                    continue;
                }
                if r.check_time() {
                    return;
                }
                let all: Vec<&Obj> = q.iter().map(|&i| &objs[i]).collect();
                let leaves: Vec<String> = q.iter().map(|i| i.to_string()).collect();
                // not settled cases are compared as well: both ways have to agree
                let direct = p.link(r, &leaves, o, false).map(|f| std::fs::read(f).unwrap());
                let direct = match direct.map(|f| judge(&f)) {
                    None => None,
                    Some(Verdict::Object(_, d)) => Some(d),
                    Some(_) => return r.violation("the output is not a valid object", format!("{q:?} {o:?}")),
                };
                let part = Opts { exe: false, entry: None, ..*o };
                for g in groupings(q) {
                    if g == leaves {
                        continue;
                    }
                    // quick: inputs linked alone only with plain options
                    if !full && q.len() == 3 && o.exe | o.strip && g.iter().any(|x| x.starts_with('(') && !x.contains('_')) {
                        continue;
                    }
                    r.add(1, 0, 1);
                    // inner parts first
                    let mut ok = true;
                    for x in &g {
                        ok &= build(r, &p, x, &part);
                    }
                    let got = if ok {
                        let f = s.path(format!("fin-{:?}.to", std::thread::current().id()));
                        let fs: Vec<PathBuf> = g
                            .iter()
                            .map(|x| match x.parse::<usize>() {
                                Ok(i) => files[i].clone(),
                                Err(_) => p.done.lock().unwrap()[&(x.clone(), format!("{part:?}"))].clone().unwrap(),
                            })
                            .collect();
                        let _ = std::fs::remove_file(&f);
                        let x = tl(&fs, &[], o, &f);
                        r.add(0, 1, 0);
                        if x.ok() {
                            match judge(&std::fs::read(&f).unwrap_or_default()) {
                                Verdict::Object(_, d) => Some(d),
                                _ => return r.violation("the output is not a valid object", format!("{g:?} {o:?}")),
                            }
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    let case = || format!("grouping {g:?} of {:?} with {o:?}\n{}", q.iter().map(|&i| named[i].0).collect::<Vec<_>>(), show(&all));
                    match (&direct, got) {
                        (None, None) => r.outcome("both ways fail", 1),
                        (Some(a), Some(b)) => {
                            r.outcome("same result", 1);
                            let u = link(&all, *o).undefined;
                            // internal symbols and relocations are not part of the statement
                            let strip = |o: &Obj| {
                                let mut o = o.clone();
                                o.syms.retain(|s| s.global);
                                o.rels.clear();
                                o
                            };
                            if let Some(d) = differs(&strip(a), &u, &strip(&b)) {
                                return r.violation("linking in steps gives another result than linking at once", format!("{d}{}", case()));
                            }
                        }
                        (a, _) => return r.violation(format!("linking at once {}, linking in steps does not", if a.is_some() { "succeeds" } else { "fails" }), case()),
                    }
                }
            }
        }
    });
    // many inputs, one after the other, from behind, halved, in groups
    let counts: Vec<usize> = (4..=if full { 40 } else { 16 }).collect();
    r.bound(format!("4..={} inputs that refer to each other in 3 patterns, linked one by one, from the last backwards, in halves, in groups of three, and the same groups in two rounds", counts.last().unwrap()));
    par(r, &counts, |&n| {
        for step in [1, 5, 0] {
            let objs = ring(n, step);
            let files = save(&s, &format!("ring{n}-{step}-"), &objs);
            let d = thread_dir(&s);
            let part = Opts { align: 128, ..Opts::default() };
            let all: Vec<&Obj> = objs.iter().collect();
            let want = link(&all, Opts { exe: true, ..part });
            let ways: [(&str, Box<dyn Fn(&[PathBuf]) -> Vec<Vec<PathBuf>>>); 4] = [
                ("one by one", Box::new(|f| std::iter::once(f[..2].to_vec()).chain(f[2..].iter().map(|x| vec![x.clone()])).collect())),
                ("from behind", Box::new(|f| f[..f.len() - 2].iter().map(|x| vec![x.clone()]).chain([f[f.len() - 2..].to_vec()]).collect())),
                ("in halves", Box::new(|f| if f.len() < 4 { vec![f.to_vec()] } else { vec![f[..f.len() / 2].to_vec(), f[f.len() / 2..].to_vec()] })),
                ("in threes", Box::new(|f| f.chunks(3).map(|c| c.to_vec()).collect())),
            ];
            for (way, cut) in &ways {
                let mut fs = files.clone();
                let mut k = 0;
                // parts of one file stay as they are
                while fs.len() > 1 {
                    let parts = cut(&fs);
                    let last = parts.len() == 1 || parts.iter().all(|p| p.len() == 1);
                    let parts = if last { vec![fs.clone()] } else { parts };
                    let mut next = Vec::new();
                    for p in parts {
                        if p.len() == 1 {
                            next.push(p[0].clone());
                            continue;
                        }
                        k += 1;
                        let out = d.join(format!("part{k}.to"));
                        let _ = std::fs::remove_file(&out);
                        let x = tl(&p, &[], &Opts { exe: last, ..part }, &out);
                        r.add(1, 1, 0);
                        if !x.ok() {
                            return r.violation(format!("linking {n} inputs {way} fails"), x.text());
                        }
                        next.push(out);
                    }
                    fs = next;
                    if last {
                        break;
                    }
                }
                r.add(0, 0, 1);
                r.outcome("many inputs in steps", 1);
                let strip = |o: &Obj| {
                    let mut o = o.clone();
                    o.syms.retain(|s| s.global);
                    o.rels.clear();
                    o
                };
                match judge(&std::fs::read(&fs[0]).unwrap_or_default()) {
                    Verdict::Object(_, g) => {
                        if let Some(d) = differs(&strip(&want.obj), &want.undefined, &strip(&g)) {
                            return r.violation(format!("linking {n} inputs {way} gives another result than linking at once"), format!("{d}{}", show(&all)));
                        }
                    }
                    _ => return r.violation("the output is not a valid object", format!("{n} inputs {way}")),
                }
            }
        }
    });
}
/// Link the group with this name and everything within
fn build(r: &Report, p: &Parts, name: &str, o: &Opts) -> bool {
    if name.parse::<usize>().is_ok() {
        return true;
    }
    if let Some(x) = p.done.lock().unwrap().get(&(name.to_string(), format!("{o:?}"))) {
        return x.is_some();
    }
    // split at the top level
    let inner = &name[1..name.len() - 1];
    let mut parts = vec![String::new()];
    let mut depth = 0;
    for c in inner.chars() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            '_' if depth == 0 => {
                parts.push(String::new());
                continue;
            }
            _ => (),
        }
        parts.last_mut().unwrap().push(c);
    }
    for q in &parts {
        if !build(r, p, q, o) {
            p.done.lock().unwrap().insert((name.to_string(), format!("{o:?}")), None);
            return false;
        }
    }
    p.link(r, &parts, o, false).is_some()
}

// ---------------------------------------------------------------- C26

fn c26(r: &Report) {
    let s = Scratch::new("c26");
    let full = r.thorough;
    // one object per set of defined and referenced names
    let mk = |defs: &[&str], refs: &[&str], tag: u8| {
        let n = 2 * (defs.len() + refs.len()) + 3;
        let mut b = B::new().seg(TEXT, 0x80, n, tag).def("x", false, TEXT, 1);
        let mut at = 1;
        b = b.rel(TEXT, 0, 0);
        for d in defs {
            b = b.def(d, true, TEXT, at);
            at += 2;
        }
        for d in refs {
            b = b.undef(d);
            let k = b.o.syms.len() - 1;
            b = b.rel(TEXT, at - 1, k);
            at += 2;
        }
        b.o
    };
    let inputs: Vec<Obj> = vec![
        mk(&["main"], &["a"], 0x10),
        mk(&["main"], &["a", "b"], 0x11),
        mk(&[], &["c"], 0x12),
        mk(&["a"], &["b"], 0x13),
        mk(&["c"], &[], 0x14),
        mk(&["main", "b"], &["d"], 0x15),
        Obj::default(),
    ];
    let members: Vec<Obj> = vec![
        mk(&["a"], &[], 0x20),
        mk(&["b"], &["c"], 0x21),
        mk(&["c"], &["a"], 0x22),
        mk(&["a", "d"], &["b"], 0x23),
        mk(&["e"], &["main"], 0x24),
        mk(&["d"], &["e", "main"], 0x25),
        mk(&[], &["b"], 0x26),
        mk(&[], &[], 0x27),
        mk(&["main"], &["d"], 0x28),
        // internal names do not matter
        B::new().seg(TEXT, 0x80, 3, 0x29).def("a", false, TEXT, 1).def("c", false, TEXT, 2).rel(TEXT, 0, 0).o,
    ];
    let ifile = save(&s, "i", &inputs);
    let mfile = save(&s, "m", &members);
    let mut sets: Vec<Vec<usize>> = tuples(inputs.len(), 1);
    sets.extend(tuples(inputs.len(), 2));
    let depth = 3;
    let mut arch: Vec<Vec<usize>> = Vec::new();
    for n in 1..=depth {
        arch.extend(tuples(members.len(), n));
    }
    if full {
        // four different members in every order
        arch.extend(tuples(8, 4).into_iter().filter(|t| (0..4).all(|i| !t[..i].contains(&t[i]))));
    }
    r.bound(format!("{} inputs (singles, for archives of up to {} members all ordered pairs) x all archives of up to {depth} out of {} members in every order, with repetition {}; every split into two archives for those of two or three members with a single input; executable and not; each compared with the explicit link of the members selected by the rule", inputs.len(), if full { 3 } else { 2 }, members.len(), if full { "and all of four different out of 8" } else { "" }));
    type Key = (Vec<usize>, Vec<usize>, bool);
    // (status, bytes of the output)
    let explicit: Mutex<BTreeMap<Key, Option<Vec<u8>>>> = Mutex::default();
    let plain = Opts { align: 128, strip: false, exe: false, entry: None };
    par(r, &arch, |m| {
        let d = thread_dir(&s);
        let ms: Vec<&Obj> = m.iter().map(|&i| &members[i]).collect();
        for set in &sets {
            if set.len() == 2 && m.len() > if full { 3 } else { 2 } {
                continue;
            }
            let is: Vec<&Obj> = set.iter().map(|&i| &inputs[i]).collect();
            let chosen = select(&is, &ms);
            let seq: Vec<usize> = chosen.iter().map(|&k| m[k]).collect();
            r.add(1, 0, 0);
            for exe in [false, true] {
                if exe && set.len() == 2 {
                    continue;
                }
                if r.check_time() {
                    return;
                }
                let o = Opts { exe, entry: exe.then_some("0x80"), ..plain };
                let read = |x: &Out, p: &Path| x.ok().then(|| std::fs::read(p).unwrap_or_default());
                let key = (set.clone(), seq.clone(), exe);
                let known = explicit.lock().unwrap().get(&key).cloned();
                let files: Vec<PathBuf> = set.iter().map(|&i| ifile[i].clone()).collect();
                let want = match known {
                    Some(w) => w,
                    None => {
                        let p = d.join("explicit.to");
                        let _ = std::fs::remove_file(&p);
                        let all: Vec<PathBuf> = files.iter().cloned().chain(seq.iter().map(|&i| mfile[i].clone())).collect();
                        let x = tl(&all, &[], &o, &p);
                        r.add(0, 1, 0);
                        let w = read(&x, &p);
                        explicit.lock().unwrap().insert(key, w.clone());
                        w
                    }
                };
                let mut splits = vec![vec![m.clone()]];
                if set.len() == 1 && m.len() <= 3 {
                    for k in 1..m.len() {
                        splits.push(vec![m[..k].to_vec(), m[k..].to_vec()]);
                    }
                }
                for sp in splits {
                    let mut av = Vec::new();
                    for (k, part) in sp.iter().enumerate() {
                        let p = d.join(format!("a{k}.savn"));
                        let mut f = SAVN.to_vec();
                        for &i in part {
                            f.extend(members[i].bytes());
                        }
                        std::fs::write(&p, f).unwrap();
                        av.push(p);
                    }
                    let p = d.join("arch.to");
                    let _ = std::fs::remove_file(&p);
                    VERBOSE.set(sp.iter().flatten().enumerate().map(|(k, &i)| (k + 1) * i).sum::<usize>() % 2 == 1);
                    let x = tl(&files, &av, &o, &p);
                    VERBOSE.set(false);
                    r.add(0, 1, 1);
                    let got = read(&x, &p);
                    let case = || format!("inputs {set:?}, archives {sp:?}, members to be included {seq:?} (executable: {exe})\n{}members:\n{}{}", show(&is), show(&ms), x.text());
                    if x.timeout || x.code.is_none() {
                        return r.violation("the linker hangs or is ended by a signal", case());
                    }
                    let same = match (&want, &got) {
                        (None, None) => true,
                        (Some(a), Some(b)) => {
                            a == b
                                || match (judge(a), judge(b)) {
                                    (Verdict::Object(_, a), Verdict::Object(_, b)) => {
                                        let all: Vec<&Obj> = is.iter().copied().chain(seq.iter().map(|&i| &members[i])).collect();
                                        differs(&a, &link(&all, o).undefined, &b).is_none()
                                    }
                                    _ => false,
                                }
                        }
                        _ => false,
                    };
                    r.outcome(if want.is_some() { "linked" } else { "both fail" }, 1);
                    r.outcome(&format!("{} members included", seq.len()), 1);
                    if !same {
                        return r.violation("linking with an archive differs from linking the needed members", case());
                    }
                }
            }
        }
    });
    // all kinds of objects as members, with all options
    let named = pool();
    let objs: Vec<Obj> = named.iter().map(|x| x.1.clone()).collect();
    let pfile = save(&s, "p", &objs);
    let opts = [
        Opts { strip: true, ..plain },
        Opts { exe: true, ..plain },
        Opts { align: 4, exe: true, entry: Some("b"), ..plain },
        Opts { align: 1, strip: true, exe: true, entry: Some("c"), ..plain },
    ];
    let mut sets = tuples(objs.len(), 1);
    if full {
        sets.extend(tuples(objs.len(), 2));
    }
    r.bound(format!("{} inputs (quick: singles) x all archives of one or two of {} objects with entry points, internal and nameless symbols, several segments, flags and sizes x 4 option sets (stripped, executable, entry symbol, all with other alignments)", sets.len(), objs.len()));
    par(r, &sets, |set| {
        let d = thread_dir(&s);
        let is: Vec<&Obj> = set.iter().map(|&i| &objs[i]).collect();
        let files: Vec<PathBuf> = set.iter().map(|&i| pfile[i].clone()).collect();
        let mut explicit: BTreeMap<(Vec<usize>, usize), Option<Vec<u8>>> = BTreeMap::new();
        for m in tuples(objs.len(), 1).into_iter().chain(tuples(objs.len(), 2)) {
            let ms: Vec<&Obj> = m.iter().map(|&i| &objs[i]).collect();
            let seq: Vec<usize> = select(&is, &ms).into_iter().map(|k| m[k]).collect();
            let mut f = SAVN.to_vec();
            for o in &ms {
                f.extend(o.bytes());
            }
            let a = d.join("pool.savn");
            std::fs::write(&a, f).unwrap();
            for (k, &o) in opts.iter().enumerate() {
                if r.check_time() {
                    return;
                }
                let p = d.join("pool.to");
                let run = |f: &[PathBuf], a: &[PathBuf]| {
                    let _ = std::fs::remove_file(&p);
                    let x = tl(f, a, &o, &p);
                    r.add(0, 1, 0);
                    let w = x.ok().then(|| std::fs::read(&p).unwrap_or_default());
                    (x, w)
                };
                let want = explicit
                    .entry((seq.clone(), k))
                    .or_insert_with(|| {
                        let all: Vec<PathBuf> = files.iter().cloned().chain(seq.iter().map(|&i| pfile[i].clone())).collect();
                        run(&all, &[]).1
                    })
                    .clone();
                let (x, got) = run(&files, &[a.clone()]);
                r.add(1, 0, 1);
                let case = || format!("inputs {set:?}, archive {m:?}, members to be included {seq:?}, {o:?}\n{}members:\n{}{}", show(&is), show(&ms), x.text());
                if x.timeout || x.code.is_none() {
                    return r.violation("the linker hangs or is ended by a signal", case());
                }
                let same = match (&want, &got) {
                    (None, None) => true,
                    (Some(a), Some(b)) => {
                        a == b
                            || match (judge(a), judge(b)) {
                                (Verdict::Object(_, a), Verdict::Object(_, b)) => {
                                    let all: Vec<&Obj> = is.iter().copied().chain(seq.iter().map(|&i| &objs[i])).collect();
                                    differs(&a, &link(&all, o).undefined, &b).is_none()
                                }
                                _ => false,
                            }
                    }
                    _ => false,
                };
                r.outcome(if want.is_some() { "linked with options" } else { "both fail with options" }, 1);
                if !same {
                    return r.violation("linking with an archive differs from linking the needed members", case());
                }
            }
        }
    });
    named_members(r, &s, plain);
    // chains: each member needs the next
    let chain = |n: usize| -> (Obj, Vec<Obj>) {
        let names: Vec<String> = (0..=n).map(|i| format!("c{i}")).collect();
        (mk(&["main"], &["c0"], 0x30), (0..n).map(|i| if i + 1 < n { mk(&[&names[i]], &[&names[i + 1]], i as u8) } else { mk(&[&names[i]], &[], i as u8) }).collect())
    };
    let mut jobs: Vec<(usize, Vec<usize>, Vec<usize>)> = Vec::new();
    // all orders of up to five (thorough six), over up to three archives
    for n in 2..=if full { 6 } else { 5 } {
        for t in tuples(n, n).into_iter().filter(|t| (0..n).all(|i| !t[..i].contains(&t[i]))) {
            for a in 0..=n {
                for b in a..=n {
                    if a > 0 && (b > a || a == n) && (n < 5 || full || a + b <= 6) {
                        jobs.push((n, t.clone(), if a == n { vec![] } else if b == n { vec![a] } else { vec![a, b] }));
                    }
                }
            }
        }
    }
    // long ones in every stride
    for n in (6..=24).chain([50, 64, 100, 128, 200, 256, 300]) {
        for k in 1..n {
            if (2..n).any(|d| n % d == 0 && k % d == 0) || n > 24 && k > 3 && k + 3 < n {
                continue;
            }
            let order: Vec<usize> = (0..n).map(|i| i * k % n).collect();
            jobs.push((n, order.clone(), vec![]));
            jobs.push((n, order, vec![n / 3]));
        }
    }
    r.bound(format!("chains of members that need the next: all orders of up to {} over up to three archives; chains of 6 to 300 in every (from 25: 6) stride over one and two archives", if full { 6 } else { 5 }));
    r.count("chains", jobs.len() as u64);
    par(r, &jobs, |(n, order, cuts)| {
        if r.check_time() {
            return;
        }
        let d = thread_dir(&s);
        let (main, chain) = chain(*n);
        let ms: Vec<&Obj> = order.iter().map(|&i| &chain[i]).collect();
        std::fs::write(d.join("main.to"), main.bytes()).unwrap();
        let mut av = Vec::new();
        let mut from = 0;
        for (k, &to) in cuts.iter().chain([n]).enumerate() {
            let p = d.join(format!("c{k}.savn"));
            let mut f = SAVN.to_vec();
            for m in &ms[from..to] {
                f.extend(m.bytes());
            }
            from = to;
            std::fs::write(&p, f).unwrap();
            av.push(p);
        }
        let all: Vec<&Obj> = std::iter::once(&main).chain(select(&[&main], &ms).into_iter().map(|k| ms[k])).collect();
        let o = Opts { exe: true, entry: Some("0x80"), align: 128, ..plain };
        let want = link(&all, o);
        let p = d.join("chain.to");
        let _ = std::fs::remove_file(&p);
        let x = tl(&[d.join("main.to")], &av, &o, &p);
        r.add(1, *n as u64, 1);
        let case = || format!("a chain of {n} members in the order {order:?}, archives end at {cuts:?}\n{}", x.text());
        if want.fail.is_some() || all.len() != n + 1 {
            panic!("harness: {}", case());
        }
        if !x.ok() {
            return r.violation("a chain of members is not linked", case());
        }
        match judge(&std::fs::read(&p).unwrap_or_default()) {
            Verdict::Object(_, g) => {
                if let Some(e) = differs(&want.obj, &want.undefined, &g) {
                    return r.violation("linking with an archive differs from linking the needed members", format!("{e}{}", case()));
                }
            }
            _ => return r.violation("the output is not a valid object", case()),
        }
        r.outcome("chains linked", 1);
    });
}

/// One link with archives against the model; `what` describes it
fn with_archives(r: &Report, d: &Path, is: &[&Obj], archives: &[(&str, Vec<&Obj>)], o: Opts, what: &str) {
    let mut files = vec![];
    for (k, i) in is.iter().enumerate() {
        files.push(d.join(format!("in{k}.to")));
        std::fs::write(&files[k], i.bytes()).unwrap();
    }
    let mut av = vec![];
    for (n, ms) in archives {
        let mut f = SAVN.to_vec();
        for m in ms {
            f.extend(m.bytes());
        }
        av.push(d.join(n));
        let _ = std::fs::create_dir_all(d.join(n).parent().unwrap());
        std::fs::write(d.join(n), f).unwrap();
    }
    let ms: Vec<&Obj> = archives.iter().flat_map(|a| a.1.iter().copied()).collect();
    let chosen = select(is, &ms);
    let all: Vec<&Obj> = is.iter().copied().chain(chosen.iter().map(|&k| ms[k])).collect();
    let want = link(&all, o);
    // the result of the link before, if any, is there still
    let p = d.join("named.to");
    if want.fail.is_some() {
        let _ = std::fs::remove_file(&p);
    }
    let x = tl(&files, &av, &o, &p);
    r.add(1, ms.len() as u64, 1);
    let case = || {
        let mut t = format!("{what}, {o:?}, archives {:?}, members to be included {chosen:?}\n{}members:\n{}{}", archives.iter().map(|a| (a.0, a.1.len())).collect::<Vec<_>>(), show(is), show(&ms), x.text());
        t.truncate(t.char_indices().nth(20000).map(|c| c.0).unwrap_or(t.len()));
        t
    };
    if x.timeout || x.code.is_none() {
        return r.violation("the linker hangs or is ended by a signal", case());
    }
    match (&want.fail, x.ok()) {
        (Some(_), false) => r.outcome("both fail", 1),
        (None, true) => match judge(&std::fs::read(&p).unwrap_or_default()) {
            Verdict::Object(_, g) => {
                r.outcome("linked", 1);
                if let Some(e) = differs(&want.obj, &want.undefined, &g) {
                    r.violation("linking with an archive differs from linking the needed members", format!("{e}\n{}", case()));
                }
            }
            _ => r.violation("the output is not a valid object", case()),
        },
        _ => r.violation("linking with an archive differs from linking the needed members", format!("{:?}\n{}", want.fail, case())),
    }
}

/// Members that are told apart by names of all kinds, by many symbols, in archives of all kinds of names
fn named_members(r: &Report, s: &Scratch, plain: Opts) {
    let odd = names();
    let exe = Opts { exe: true, entry: Some("0x80"), ..plain };
    let dummy = || B::new().seg(TEXT, 0x80, 5, 0x43);
    // each member defines one name; the input needs one of them, or what looks like it is internal there
    let defs: Vec<Obj> = odd.iter().enumerate().map(|(i, n)| B::new().seg(TEXT, 0x80, 3 + i % 5, i as u8).def(n, true, TEXT, (i % 3) as u16).o).collect();
    let mixed: Vec<Obj> = odd.iter().enumerate().map(|(i, n)| B::new().seg(TEXT, 0x80, 3 + i % 5, i as u8).def(n, i % 2 == 0, TEXT, 1).o).collect();
    // each member needs one name; the input defines one of them
    let uses: Vec<Obj> = odd.iter().enumerate().map(|(i, n)| B::new().seg(TEXT, 0x80, 3 + i % 5, i as u8).undef(n).rel(TEXT, 1, 0).o).collect();
    r.bound(format!("archives of {} members, told apart by a name each (defined, defined or internal, used), with each of the names needed or defined by the input, and with all but one", odd.len()));
    let jobs: Vec<usize> = (0..odd.len()).collect();
    par(r, &jobs, |&k| {
        if r.stopped() {
            return;
        }
        let d = thread_dir(s);
        let n = &odd[k];
        let needs = dummy().undef(n).rel(TEXT, 1, 0).o;
        let has = dummy().def(n, true, TEXT, 2).rel(TEXT, 1, 0).o;
        let inner = dummy().def(n, false, TEXT, 2).rel(TEXT, 1, 0).o;
        for (i, ms) in [(&needs, &defs), (&needs, &mixed), (&has, &uses), (&has, &defs), (&inner, &defs), (&inner, &uses)] {
            with_archives(r, &d, &[i], &[("names.savn", ms.iter().collect())], exe, &format!("the name {n:?}"));
        }
        if k % 4 == 0 {
            // everything else is needed
            let mut b = B::new().seg(TEXT, 0x80, 2 * odd.len(), 0x53);
            for (i, n) in odd.iter().enumerate().filter(|x| x.0 != k) {
                b = b.undef(n);
                let l = b.o.syms.len() - 1;
                b = b.rel(TEXT, 2 * i as u16, l);
            }
            with_archives(r, &d, &[&b.o], &[("names.savn", defs.iter().collect())], plain, &format!("all but the name {n:?}"));
            with_archives(r, &d, &[&b.o], &[("names.savn", defs.iter().rev().collect())], exe, &format!("all but the name {n:?}"));
        }
    });
    // which of many symbols is needed
    let sizes = [1usize, 2, 3, 31, 63, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 6000];
    r.bound(format!("members and inputs with {:?} global symbols of which the first, one in the middle, the one before the last or the last is shared, in either direction", sizes));
    let mut jobs: Vec<(usize, usize)> = vec![];
    for n in sizes {
        let mut at = vec![0, n / 2, n.saturating_sub(2), n - 1];
        at.dedup();
        jobs.extend(at.into_iter().map(|k| (n, k)));
    }
    par(r, &jobs, |&(n, k)| {
        if r.stopped() {
            return;
        }
        let d = thread_dir(s);
        let many = |def: bool, tag: &str, seed: u8| {
            let mut b = B::new().seg(TEXT, 0x80, 7, seed);
            for i in 0..n {
                let name = if i == k { "shared".to_string() } else { format!("{tag}{i}") };
                b = if def { b.def(&name, true, TEXT, (i % 7) as u16) } else { b.undef(&name) };
            }
            b.o
        };
        let one_def = dummy().def("shared", true, TEXT, 3).o;
        let one_use = dummy().undef("shared").rel(TEXT, 1, 0).o;
        let other = dummy().def("x9", true, TEXT, 3).o;
        let (md, mu) = (many(true, "y", 0x61), many(false, "y", 0x62));
        for (i, m) in [(&one_use, &md), (&one_def, &mu), (&mu, &one_def), (&md, &one_use), (&md, &mu), (&mu, &md)] {
            if n > 3000 && std::ptr::eq(i, &mu) && std::ptr::eq(m, &md) {
                continue;
            }
            with_archives(r, &d, &[i], &[("many.savn", vec![&other, m])], plain, &format!("{n} symbols, number {k} is shared"));
        }
    });
    // archives are searched in the order given, whatever they are called
    let mk = |name: &str, needs: &str, tag: u8| B::new().seg(TEXT, 0x80, 6, tag).def(name, true, TEXT, 2).undef(needs).rel(TEXT, 1, 1).o;
    let pool = [mk("a", "b", 1), mk("b", "c", 2), mk("c", "a", 3), mk("a", "c", 4), mk("d", "main", 5), mk("b", "d", 6)];
    let main = B::new().seg(TEXT, 0x80, 6, 9).def("main", true, TEXT, 0).undef("a").rel(TEXT, 1, 1).o;
    let call_them = [["a.savn", "b.savn", "c.savn"], ["c.savn", "b.savn", "a.savn"], ["b.savn", "c.savn", "a.savn"], ["lib 10.savn", "lib 9.savn", "lib.savn"], ["p/lib.savn", "q/lib.savn", "lib.savn"], ["q/lib", "q/lib.savn", "q/lib.to"], ["z", "y.to", "\u{e6}.savn"]];
    r.bound(format!("three archives with one of {} members each under {} sets of file names, in every order; the same archive given again", pool.len(), call_them.len()));
    par(r, &tuples(pool.len(), 3), |t| {
        if r.stopped() {
            return;
        }
        let d = thread_dir(s);
        for n in &call_them {
            let av: Vec<(&str, Vec<&Obj>)> = (0..3).map(|i| (n[i], vec![&pool[t[i]]])).collect();
            with_archives(r, &d, &[&main], &av, plain, "three archives");
        }
        let (x, y) = (vec![&pool[t[0]], &pool[t[1]]], vec![&pool[t[2]]]);
        for av in [vec![("x.savn", x.clone()), ("y.savn", y.clone()), ("x.savn", x.clone())], vec![("y.savn", y.clone()), ("y.savn", y.clone())], vec![("x.savn", x.clone()), ("x.savn", x.clone())]] {
            with_archives(r, &d, &[&main], &av, plain, "an archive given again");
        }
    });
}

// ---------------------------------------------------------------- C28

fn c28(r: &Report) {
    use std::os::unix::fs::PermissionsExt;
    let s = Scratch::new("c28");
    let full = r.thorough;
    let mut objs: Vec<Obj> = pool().into_iter().map(|x| x.1).collect();
    let hand = objs.len();
    for (k, o) in grammar(6, 6, true).into_iter().enumerate() {
        if full || k % 4 < 2 {
            objs.push(o);
        }
    }
    // every combination of the optional parts
    for e in 0..2 {
        for f in 0..3 {
            for st in 0..2 {
                for h in 0..2 {
                    let mut o = objs[(e + f + st + h) % hand].clone();
                    o.flags = [None, Some(false), Some(true)][f];
                    o.stack = (st == 1).then_some(0x1234);
                    o.heap = (h == 1).then_some(0xffff);
                    if e == 0 {
                        o.entry = None;
                    } else if o.entry.is_none() {
                        o.entry = Some((ZERO, 0x80));
                    }
                    objs.push(o);
                }
            }
        }
    }
    // every kind of name, and what has the default sizes
    let odd = names();
    for n in &odd {
        let mut b = B::new().seg(TEXT, 0x80, 9, 0x33).def(n, false, TEXT, 2).undef("b").rel(TEXT, 1, 0).rel(TEXT, 3, 1).entry(TEXT, 0);
        if n != "b" {
            b = b.def(n, true, TEXT, 1).rel(TEXT, 5, 2);
        }
        // undefined, but of this file only
        b.o.syms.push(sym(n, false, UNKNOWN, 0xfaff));
        objs.push(b.o);
    }
    for (i, n) in odd.iter().enumerate() {
        let b = B::new().seg(DATA, 0x80, 9, 0x33).def("d", false, DATA, 2).undef(n).rel(DATA, 1, 1).rel(DATA, 3, 0).entry(DATA, 0);
        objs.push(b.o);
        let l = objs.len() - 1;
        objs[l].stack = [None, Some(0x180), Some(0), Some(0x400), Some(1)][i % 5];
        objs[l].heap = [None, Some(0x400), Some(0), Some(0x180), Some(0x80)][i / 5 % 5];
        objs[l].flags = [None, Some(false), Some(true)][i % 3];
    }
    // symbol indices beyond a byte
    for n in [255, 256, 257, 300, 1000, 6000] {
        for mask in 0..4 {
            objs.push(crowd(n, mask, "p"));
        }
        let l = objs.len() - 1;
        objs[l].entry = Some((TEXT, 0x201));
    }
    let prefixes: Vec<Vec<u8>> = vec![vec![], b"#!/bin/env t\n".to_vec(), (0..300u32).map(|i| (i * 7) as u8).collect(), MAGIC[..5].to_vec(), vec![0; 5000]];
    let optsets: Vec<Vec<&str>> = vec![vec![], vec!["-a"], vec!["-a", "-f"]];
    r.bound(format!("{} objects (chosen, grammar, all combinations of optional parts, names of all kinds) x {} prefixes x 3 option sets; sequences of up to 3 files out of 8 kinds (object with and without entry, executable, missing, directory, garbage, cut off, unwritable format) x option sets; {} links of stripped and unstripped inputs", objs.len(), prefixes.len(), hand * hand));
    let want_of = |o: &Obj, all: bool, force: bool| -> Option<Obj> {
        let mut w = o.clone();
        if all {
            if o.entry.is_none() && !force {
                return None;
            }
            w.syms.clear();
            w.rels.clear();
        } else {
            for s in w.syms.iter_mut().filter(|s| !s.global) {
                s.name.clear();
            }
        }
        Some(w)
    };
    let jobs: Vec<usize> = (0..objs.len()).collect();
    let compare = |file: &[u8], before: &[u8], want: &Option<Obj>, at: usize| -> Option<String> {
        match want {
            None => (file != before).then(|| "a file that is refused was changed".to_string()),
            Some(w) => {
                if file.len() < at || file[..at] != before[..at] {
                    return Some("the bytes before the object changed".into());
                }
                match judge(&file[at..]) {
                    Verdict::Object(0, _) if !ends(&file[at..], 0) => Some("something follows the object".into()),
                    Verdict::Object(0, g) => (&g != w).then(|| format!("expected {w:x?}\ngot      {g:x?}")),
                    x => Some(format!("not a valid object any more: {x:?}")),
                }
            }
        }
    };
    par(r, &jobs, |&i| {
        let d = thread_dir(&s);
        let f = d.join("o.to");
        for p in &prefixes {
            for os in &optsets {
                let o = &objs[i];
                let mut b = p.clone();
                b.extend(o.bytes());
                let at = p.len();
                std::fs::write(&f, &b).unwrap();
                let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755));
                let x = run(Command::new(tool("tstrip")).args(os).arg(&f), b"", 20);
                r.add(1, 1, 1);
                let want = want_of(o, os.contains(&"-a"), os.contains(&"-f"));
                let case = || format!("tstrip {os:?} of {} bytes and {o:x?}\n{}", p.len(), x.text());
                if x.timeout || x.code.is_none() {
                    return r.violation("the stripper hangs or is ended by a signal", case());
                }
                if x.ok() != want.is_some() {
                    return r.violation(if x.ok() { "success although the object cannot be stripped" } else { "stripping fails" }, case());
                }
                r.outcome(if want.is_some() { "stripped" } else { "refused" }, 1);
                if let Some(m) = compare(&std::fs::read(&f).unwrap_or_default(), &b, &want, at) {
                    return r.violation("the stripped file is wrong", format!("{m}\n{}", case()));
                }
                if std::fs::metadata(&f).map(|m| m.permissions().mode() & 0o777).unwrap_or(0) != 0o755 {
                    return r.violation("the file is no longer executable", case());
                }
            }
        }
    });
    // several files
    let kinds: Vec<(&str, Option<Vec<u8>>, Option<&Obj>, usize)> = {
        let ex = &objs[0];
        let no = &objs[1];
        let mut pre = prefixes[1].clone();
        pre.extend(ex.bytes());
        let mut cut = no.bytes();
        cut.truncate(cut.len() - 9);
        vec![
            ("entry", Some(ex.bytes()), Some(ex), 0),
            ("noentry", Some(no.bytes()), Some(no), 0),
            ("exe", Some(pre), Some(ex), prefixes[1].len()),
            ("missing", None, None, 0),
            ("garbage", Some(b"nothing of interest".to_vec()), None, 0),
            ("cut", Some(cut), None, 0),
            ("nothing", Some(vec![]), None, 0),
            ("dir", None, None, 0),
        ]
    };
    let mut seqs = tuples(kinds.len(), 2);
    seqs.extend(tuples(kinds.len(), 3));
    par(r, &seqs, |q| {
        let d = thread_dir(&s);
        for os in &optsets {
            let mut names = Vec::new();
            for (k, &i) in q.iter().enumerate() {
                let p = d.join(format!("{k}-{}.to", kinds[i].0));
                if kinds[i].0 == "dir" {
                    let _ = std::fs::create_dir_all(&p);
                } else if let Some(b) = &kinds[i].1 {
                    std::fs::write(&p, b).unwrap();
                }
                names.push(p);
            }
            let x = run(Command::new(tool("tstrip")).args(os).args(&names), b"", 20);
            r.add(1, q.len() as u64, 1);
            let mut all = true;
            for (k, &i) in q.iter().enumerate() {
                let want = kinds[i].2.and_then(|o| want_of(o, os.contains(&"-a"), os.contains(&"-f")));
                all &= want.is_some();
                if let Some(b) = &kinds[i].1 {
                    if let Some(m) = compare(&std::fs::read(&names[k]).unwrap_or_default(), b, &want, kinds[i].3) {
                        return r.violation("a file out of several is wrong", format!("{m}\ntstrip {os:?} {:?}, file {k}\n{}", q.iter().map(|&i| kinds[i].0).collect::<Vec<_>>(), x.text()));
                    }
                } else if kinds[i].0 == "missing" && names[k].exists() {
                    return r.violation("a missing file was created", x.text());
                }
            }
            r.outcome(if all { "several, all well" } else { "several, some fail" }, 1);
            if x.ok() != all || x.timeout || x.code.is_none() {
                return r.violation("wrong exit status for several files", format!("tstrip {os:?} {:?}\n{}", q.iter().map(|&i| kinds[i].0).collect::<Vec<_>>(), x.text()));
            }
        }
    });
    // many files, also of one name in many folders, and one file by several names
    let counts: Vec<usize> = (2..20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    r.bound(format!("2 to {} files at once, in one folder or of one name each in its own folder, all well or one of them bad in every one of the first, middle and last positions; the same file given several times by one or several names", counts.last().unwrap()));
    let many: Vec<(usize, bool, Option<usize>)> = counts.iter().flat_map(|&n| [false, true].into_iter().flat_map(move |f| [None, Some(0), Some(n / 2), Some(n - 1)].into_iter().map(move |b| (n, f, b)))).collect();
    par(r, &many, |&(n, folders, bad)| {
        let d = thread_dir(&s).join(format!("many{n}{folders}"));
        std::fs::create_dir_all(&d).unwrap();
        for os in &optsets {
            let mut names = Vec::new();
            for k in 0..n {
                let p = if folders { d.join(format!("f{k}")) } else { d.clone() };
                let _ = std::fs::create_dir_all(&p);
                names.push(p.join(if folders { "x.to".to_string() } else { format!("x{k}.to") }));
                let kind = if bad == Some(k) { &kinds[4] } else { &kinds[[0, 2, 1][k % 3]] };
                std::fs::write(&names[k], kind.1.as_ref().unwrap()).unwrap();
            }
            let x = run(Command::new(tool("tstrip")).args(os).args(&names), b"", 60);
            r.add(1, n as u64, 1);
            let mut all = true;
            for (k, p) in names.iter().enumerate() {
                let kind = if bad == Some(k) { &kinds[4] } else { &kinds[[0, 2, 1][k % 3]] };
                let want = kind.2.and_then(|o| want_of(o, os.contains(&"-a"), os.contains(&"-f")));
                all &= want.is_some();
                if let Some(m) = compare(&std::fs::read(p).unwrap_or_default(), kind.1.as_ref().unwrap(), &want, kind.3) {
                    return r.violation("a file out of many is wrong", format!("{m}\ntstrip {os:?}, file {k} ({}) of {n}{}\n{}", kind.0, if folders { ", each in its own folder" } else { "" }, x.text()));
                }
            }
            if x.ok() != all || x.timeout || x.code.is_none() {
                return r.violation("wrong exit status for many files", format!("tstrip {os:?}, {n} files, bad {bad:?}\n{}", x.text()));
            }
        }
    });
    {
        let d = thread_dir(&s).join("same");
        let _ = std::fs::create_dir_all(d.join("sub"));
        for given in [&["a.to", "a.to"][..], &["a.to", "./a.to", "sub/../a.to"], &["a.to", "hard.to"], &["soft.to", "a.to", "soft.to"], &["soft.to"], &["sub/a.to", "a.to"]] {
            for os in &optsets {
                for n in ["hard.to", "soft.to"] {
                    let _ = std::fs::remove_file(d.join(n));
                }
                for n in ["a.to", "sub/a.to"] {
                    std::fs::write(d.join(n), kinds[2].1.as_ref().unwrap()).unwrap();
                }
                std::fs::hard_link(d.join("a.to"), d.join("hard.to")).unwrap();
                std::os::unix::fs::symlink("a.to", d.join("soft.to")).unwrap();
                let x = run(Command::new(tool("tstrip")).current_dir(&d).args(os).args(given), b"", 60);
                r.add(1, given.len() as u64, 1);
                let want = want_of(kinds[2].2.unwrap(), os.contains(&"-a"), os.contains(&"-f"));
                for n in given.iter().copied().chain(["sub/a.to"]) {
                    let touched = given.contains(&n);
                    let b = kinds[2].1.as_ref().unwrap();
                    let got = std::fs::read(d.join(n)).unwrap_or_default();
                    if let Some(m) = if touched { compare(&got, b, &want, kinds[2].3) } else { (got != *b).then(|| "it was not given, but changed".to_string()) } {
                        return r.violation("a file given by several names is wrong", format!("{m}\ntstrip {os:?} {given:?}, {n}\n{}", x.text()));
                    }
                }
                if x.ok() != want.is_some() {
                    return r.violation("wrong exit status for a file given by several names", format!("tstrip {os:?} {given:?}\n{}", x.text()));
                }
            }
        }
    }
    // links as before: only names of internal symbols differ
    let files = save(&s, "p", &objs[..hand]);
    let stripped: Vec<PathBuf> = (0..hand)
        .map(|i| {
            let p = s.path(format!("s{i}.to"));
            std::fs::copy(&files[i], &p).unwrap();
            let _ = run(Command::new(tool("tstrip")).arg(&p), b"", 20);
            p
        })
        .collect();
    par(r, &tuples(hand, 2), |q| {
        let d = thread_dir(&s);
        let o = Opts { align: 128, ..Opts::default() };
        let mut res = Vec::new();
        for which in 0..4 {
            let p = d.join("l.to");
            let _ = std::fs::remove_file(&p);
            let f: Vec<PathBuf> = q.iter().enumerate().map(|(k, &i)| if which >> k & 1 == 1 { stripped[i].clone() } else { files[i].clone() }).collect();
            let x = tl(&f, &[], &o, &p);
            r.add(1, 2, 1);
            res.push(x.ok().then(|| match judge(&std::fs::read(&p).unwrap_or_default()) {
                Verdict::Object(_, mut g) => {
                    for s in g.syms.iter_mut().filter(|s| !s.global) {
                        s.name.clear();
                    }
                    Some(normal(&g))
                }
                _ => None,
            }));
        }
        if res.iter().any(|x| *x != res[0]) {
            r.violation("a stripped object links to another result", format!("{q:?}\n{}", show(&[&objs[q[0]], &objs[q[1]]])));
        }
    });
    // refused options
    if !r.stopped() {
        let f = s.path("x.to");
        let b = objs[0].bytes();
        for a in [vec!["-f"], vec!["-z"]] {
            std::fs::write(&f, &b).unwrap();
            let x = run(Command::new(tool("tstrip")).args(&a).arg(&f), b"", 20);
            if x.ok() || std::fs::read(&f).unwrap() != b {
                r.violation("refused options change the file", format!("{a:?} {}", x.text()));
            }
        }
    }
}
