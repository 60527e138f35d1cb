//! C30: faults while writing and reading
use super::*;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// Content and whether it can be executed
type Files = BTreeMap<String, (Vec<u8>, bool)>;

pub struct Scenario {
    pub name: &'static str,
    pub tool: &'static str,
    pub args: Vec<&'static str>,
    pub inputs: Vec<(&'static str, Vec<u8>)>,
    pub outputs: Vec<&'static str>,
}
fn snapshot(dir: &Path, names: &[&str]) -> Files {
    let mut f = Files::new();
    for n in names {
        let p = dir.join(n);
        if let Ok(b) = std::fs::read(&p) {
            let x = std::fs::metadata(&p).map(|m| m.permissions().mode() & 0o111 != 0).unwrap_or(false);
            f.insert(n.to_string(), (b, x));
        }
    }
    f
}
impl Scenario {
    /// Put the inputs in place, and old outputs if asked for
    fn prepare(&self, dir: &Path, old: bool) {
        for o in &self.outputs {
            let _ = std::fs::remove_file(dir.join(o));
            if old {
                std::fs::write(dir.join(o), vec![0xee; 30000]).unwrap();
            }
        }
        for (n, b) in &self.inputs {
            let p = dir.join(n);
            std::fs::write(&p, b).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644)).unwrap();
        }
    }
    fn cmd(&self, dir: &Path) -> Command {
        let mut c = start(dir, self.tool);
        c.args(&self.args);
        c
    }
    fn clean(&self, dir: &Path) {
        for n in self.outputs.iter().chain(self.inputs.iter().map(|i| &i.0)) {
            let _ = std::fs::remove_file(dir.join(n));
        }
    }
}

fn scenarios(big: bool) -> Vec<Scenario> {
    let src_a = ".seg text\n.global _start\n.ref f\n.entry\n_start:\ncall f\nl:\nhalt\n.seg data\n.wide l\n";
    let src_b = ".global f\n.seg text\nf:\nldi r2l, 'x'\nret\n.seg rodata\n.string \"text\"\n";
    let inc = ".include b.telda\n.seg heap\n.byte 1\n";
    let (a, b) = (reference(src_a), reference(src_b));
    let mut a_big = a.clone();
    a_big.segs.insert(RODATA, (0x400, (0..18000u32).map(|i| (i % 253) as u8).collect()));
    let exe = link(&[&a, &b], Opts { align: 128, exe: true, strip: false, entry: None }).obj;
    let script = |o: &Obj| [b"#!/bin/env t\n", &o.bytes()[..]].concat();
    let arch = [SAVN, &b.bytes()[..], &Obj::default().bytes()[..]].concat();
    if big {
        let text = format!("{src_a}.seg rodata\n{}", ".string \"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\"\n".repeat(250));
        let mut s = link(&[&a_big, &b], Opts { align: 128, exe: true, strip: false, entry: None }).obj;
        s.flags = Some(true);
        return vec![
            Scenario { name: "assemble much data", tool: "tc", args: vec!["a.telda"], inputs: vec![("a.telda", text.into_bytes())], outputs: vec!["a.to"] },
            Scenario { name: "link much data", tool: "tl", args: vec!["-e", "a.to", "b.to", "-o", "out"], inputs: vec![("a.to", a_big.bytes()), ("b.to", b.bytes())], outputs: vec!["out"] },
            Scenario { name: "archive much data", tool: "tar", args: vec!["a.to", "b.to", "a.to", "-o", "out"], inputs: vec![("a.to", a_big.bytes()), ("b.to", b.bytes())], outputs: vec!["out"] },
            Scenario { name: "strip much data", tool: "tstrip", args: vec!["out"], inputs: vec![("out", script(&s))], outputs: vec!["out"] },
        ];
    }
    vec![
        Scenario { name: "assemble", tool: "tc", args: vec!["a.telda"], inputs: vec![("a.telda", src_a.into())], outputs: vec!["a.to"] },
        Scenario { name: "assemble two files, one with an include", tool: "tc", args: vec!["c.telda", "a.telda"], inputs: vec![("a.telda", src_a.into()), ("c.telda", inc.into()), ("b.telda", src_b.into())], outputs: vec!["a.to", "c.to"] },
        Scenario { name: "assemble an empty file", tool: "tc", args: vec!["a.telda"], inputs: vec![("a.telda", vec![])], outputs: vec!["a.to"] },
        Scenario { name: "link", tool: "tl", args: vec!["a.to", "b.to", "-o", "out.to"], inputs: vec![("a.to", a.bytes()), ("b.to", b.bytes())], outputs: vec!["out.to"] },
        Scenario { name: "link to the default output", tool: "tl", args: vec!["a1.to", "b.to"], inputs: vec![("a1.to", a.bytes()), ("b.to", b.bytes())], outputs: vec!["a.to"] },
        Scenario { name: "link an executable", tool: "tl", args: vec!["-e", "a.to", "b.to", "-o", "out"], inputs: vec![("a.to", a.bytes()), ("b.to", b.bytes())], outputs: vec!["out"] },
        Scenario { name: "link with an archive", tool: "tl", args: vec!["-e", "-S", "-v", "a.to", "-l", "x.savn", "-o", "out"], inputs: vec![("a.to", a.bytes()), ("x.savn", arch.clone())], outputs: vec!["out"] },
        Scenario { name: "link with two archives", tool: "tl", args: vec!["a.to", "-l", "y.savn", "-l", "x.savn", "-o", "out"], inputs: vec![("a.to", a.bytes()), ("x.savn", arch), ("y.savn", [SAVN, &Obj::default().bytes()[..]].concat())], outputs: vec!["out"] },
        Scenario { name: "link stripping", tool: "tl", args: vec!["-S", "a.to", "b.to", "-o", "out"], inputs: vec![("a.to", a.bytes()), ("b.to", b.bytes())], outputs: vec!["out"] },
        Scenario { name: "archive one", tool: "tar", args: vec!["a.to", "-o", "out"], inputs: vec![("a.to", a.bytes())], outputs: vec!["out"] },
        Scenario { name: "archive", tool: "tar", args: vec!["a.to", "b.to", "p", "-o", "out"], inputs: vec![("a.to", a.bytes()), ("b.to", b.bytes()), ("p", script(&exe))], outputs: vec!["out"] },
        Scenario { name: "strip", tool: "tstrip", args: vec!["out"], inputs: vec![("out", script(&exe))], outputs: vec!["out"] },
        Scenario { name: "strip two files", tool: "tstrip", args: vec!["a.to", "out"], inputs: vec![("a.to", a.bytes()), ("out", exe.bytes())], outputs: vec!["a.to", "out"] },
        Scenario { name: "strip everything", tool: "tstrip", args: vec!["-a", "out"], inputs: vec![("out", script(&exe))], outputs: vec!["out"] },
        Scenario { name: "strip everything by force", tool: "tstrip", args: vec!["-a", "-f", "out"], inputs: vec![("out", b.bytes())], outputs: vec!["out"] },
    ]
}

fn decide(r: &Report, want: &Files, got: &Files, out: &Out, what: &dyn Fn() -> String) -> bool {
    r.add(1, 1, 1);
    if out.timeout {
        r.violation("hangs when a file operation fails", what());
        return false;
    }
    if out.ok() {
        if got != want {
            let d: Vec<String> = want
                .iter()
                .filter(|(n, c)| got.get(*n) != Some(c))
                .map(|(n, c)| match got.get(n) {
                    None => format!("{n} missing"),
                    Some(g) => format!("{n}: {} bytes of {}{}", g.0.len(), c.0.len(), if g.1 != c.1 { ", execute permission differs" } else if g.0.len() == c.0.len() { ", content differs" } else { "" }),
                })
                .collect();
            r.violation("success is reported although the output is not complete", format!("{}\n{}\n{}", what(), d.join("\n"), out.text()));
            return false;
        }
        r.outcome("success, complete", 1);
    } else {
        r.outcome(if out.panicked() { "failure by a panic" } else { "failure" }, 1);
    }
    true
}

pub fn c30(r: &'static Report) {
    let sc = Scratch::new("c30");
    r.rule("every byte of every output is a failure point; every file operation of every run is a fault point");
    let shim = PathBuf::from(std::env::var("MC_FAULT").unwrap_or_else(|_| "/verif/.build/fault.so".into()));
    assert!(shim.exists(), "harness: no fault injector");
    let small = scenarios(false);
    let large = scenarios(true);
    // fault-free results
    let base = |s: &Scenario, old: bool| -> Option<(Files, Vec<u8>)> {
        let d = thread_dir(&sc);
        s.prepare(&d, old);
        let log = d.join("ops.log");
        let out = run(s.cmd(&d).env("LD_PRELOAD", &shim).env("FAULT_LOG", &log), b"", 60);
        let ops = std::fs::read(&log).unwrap_or_default();
        let f = snapshot(&d, &s.outputs);
        s.prepare(&d, old);
        let again = run(&mut s.cmd(&d), b"", 60);
        let g = snapshot(&d, &s.outputs);
        s.clean(&d);
        if !out.ok() || !again.ok() || f != g || f.len() != s.outputs.len() {
            r.violation(format!("{}: fails without a fault", s.name), format!("{}\n{}", out.text(), again.text()));
            return None;
        }
        if ops.iter().all(|&c| c != b'w' && c != b'c') || !ops.contains(&b'o') {
            r.violation(format!("{}: the fault injector saw no output", s.name), String::from_utf8_lossy(&ops));
            return None;
        }
        Some((f, ops))
    };
    // size limits: a failure at every byte
    let mut jobs: Vec<(&Scenario, bool, u64, Files)> = Vec::new();
    for s in small.iter().chain(&large) {
        let Some((want, _)) = base(s, false) else { return };
        let n = want.values().map(|f| f.0.len()).max().unwrap() as u64;
        let big = n > 5000;
        for old in [false, true] {
            if s.inputs.iter().any(|i| s.outputs.contains(&i.0)) && old {
                continue;
            }
            for k in 0..=n + 1 {
                let edge = k < 120 || k + 60 > n || k % 8192 < 24 || k % 8192 > 8170;
                if !big || edge || k % 181 == 0 || r.thorough && !old {
                    jobs.push((s, old, k, want.clone()));
                }
            }
        }
    }
    r.bound(format!("size limits: {} runs; failure at every byte of all outputs of {} uses of the four tools (with and without an old longer output), and for {} uses with outputs of 18 kB {}", jobs.len(), small.len(), large.len(), if r.thorough { "at every byte" } else { "at every byte of the first and last 100, around multiples of 8192, and each 181st" }));
    let chunks: Vec<&[(&Scenario, bool, u64, Files)]> = jobs.chunks(20).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        for (s, old, k, want) in c.iter() {
            s.prepare(&d, *old);
            let lim = *k;
            let mut cmd = s.cmd(&d);
            unsafe {
                cmd.pre_exec(move || {
                    signal(SIGXFSZ, 1);
                    if setrlimit(RLIMIT_FSIZE, &[lim, lim]) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
            let out = run(&mut cmd, b"", 60);
            let got = snapshot(&d, &s.outputs);
            let what = || format!("{}: {} {:?} with files limited to {lim} bytes{}", s.name, s.tool, s.args, if *old { ", over old files" } else { "" });
            s.clean(&d);
            if !decide(r, want, &got, &out, &what) {
                return;
            }
            let need = want.values().map(|f| f.0.len()).max().unwrap() as u64;
            if lim > need && !out.ok() {
                return r.violation("fails although everything could be written", format!("{}\n{}", what(), out.text()));
            }
            if r.stopped() {
                return;
            }
        }
    });
    // every file operation fails
    let kinds = |c: u8| -> &'static [&'static str] {
        match c {
            b'o' => &["13", "5", "28", "4"],
            b'r' => &["5", "4", "s1"],
            b'w' => &["5", "28", "4", "s1", "s0", "s7"],
            b'l' | b't' | b'm' | b'f' | b'n' => &["5", "4"],
            _ => &["5", "28", "38", "s1", "s3"],
        }
    };
    let mut jobs: Vec<(&Scenario, String, Files)> = Vec::new();
    for s in small.iter().chain(&large) {
        let Some((want, ops)) = base(s, false) else { return };
        r.count("file operations", ops.len() as u64);
        for (i, &c) in ops.iter().enumerate() {
            for k in kinds(c) {
                jobs.push((s, format!("{i}:{k}"), want.clone()));
            }
        }
        // every other error
        for (i, _) in ops.iter().enumerate() {
            for e in 1..=133u8 {
                let few = [1, 2, 6, 7, 9, 11, 12, 14, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 32, 75, 95, 103, 104, 110, 116, 122, 125].contains(&e);
                if few || r.thorough {
                    jobs.push((s, format!("{i}:{e}"), want.clone()));
                }
            }
        }
        // pairs: an operation that has to be repeated or goes another way, then a failure
        for (i, &c) in ops.iter().enumerate() {
            for k in kinds(c).iter().filter(|k| k.starts_with('s') || **k == "4" || **k == "38" || r.thorough) {
                for j in i + 1..(ops.len() + 8).min(if r.thorough { usize::MAX } else { i + 12 }) {
                    for f in if r.thorough { &["5", "28", "s1"][..] } else { &["5"][..] } {
                        jobs.push((s, format!("{i}:{k},{j}:{f}"), want.clone()));
                    }
                }
            }
        }
    }
    r.bound(format!("fault injection: {} runs; every open, read, write, seek, truncate, copy, chmod, sync and rename of every use fails, is interrupted, fails with any of {} other errors, or transfers less; and pairs of such faults{}", jobs.len(), if r.thorough { "133" } else { "30" }, if r.thorough { "" } else { " up to 11 operations apart" }));
    let chunks: Vec<&[(&Scenario, String, Files)]> = jobs.chunks(20).collect();
    par(r, &chunks, |c| {
        let d = thread_dir(&sc);
        for (s, f, want) in c.iter() {
            s.prepare(&d, false);
            let out = run(s.cmd(&d).env("LD_PRELOAD", &shim).env("FAULT", f), b"", 60);
            let got = snapshot(&d, &s.outputs);
            s.clean(&d);
            let what = || format!("{}: {} {:?} with faults {f} (operation:errno or s<bytes>)", s.name, s.tool, s.args);
            if !decide(r, want, &got, &out, &what) || r.stopped() {
                return;
            }
        }
    });
    unreadable(r, &sc, &small);
    outputs(r, &sc, &small);
    r.sample("link an executable, files limited to 40 bytes -> exit status 1");
    r.sample("tar: copy of the second member fails with EIO -> exit status 1");
}

/// Inputs that cannot be read
fn unreadable(r: &Report, sc: &Scratch, small: &[Scenario]) {
    r.bound("every non-empty choice of inputs that are missing, directories, or (objects and archives) not of their format, cut short");
    let mut jobs: Vec<(&Scenario, Vec<u8>)> = Vec::new();
    for s in small {
        for m in sequences_exact(4, s.inputs.len()) {
            if m.iter().any(|&x| x != 0) {
                jobs.push((s, m.iter().map(|&x| x as u8).collect()));
            }
        }
    }
    par(r, &jobs, |(s, m)| {
        let d = thread_dir(sc);
        s.prepare(&d, false);
        let mut must_fail = false;
        for ((n, b), &k) in s.inputs.iter().zip(m) {
            let p = d.join(n);
            let source = n.ends_with(".telda");
            match k {
                1 => {
                    let _ = std::fs::remove_file(&p);
                    must_fail = true;
                }
                2 => {
                    let _ = std::fs::remove_file(&p);
                    std::fs::create_dir(&p).unwrap();
                    must_fail = true;
                }
                3 if !source => {
                    std::fs::write(&p, &b[..b.len() - 2]).unwrap();
                    must_fail |= s.tool != "tar";
                }
                _ => (),
            }
        }
        let out = run(&mut s.cmd(&d), b"", 60);
        r.add(1, 1, 1);
        for (n, _) in &s.inputs {
            let _ = std::fs::remove_dir(d.join(n));
        }
        s.clean(&d);
        r.outcome("unreadable input", 1);
        if must_fail && (out.ok() || out.timeout) {
            r.violation("success although an input could not be read", format!("{}: {} {:?}, inputs {:?} (1 missing, 2 directory, 3 cut): {}", s.name, s.tool, s.args, m, out.text()));
        }
    });
}
fn sequences_exact(n: usize, depth: usize) -> Vec<Vec<usize>> {
    run_::sequences(n, depth).into_iter().filter(|s| s.len() == depth).collect()
}
/// Outputs that cannot be created or are always full
fn outputs(r: &Report, sc: &Scratch, small: &[Scenario]) {
    r.bound("every output a directory, in a missing directory (link), or a link to /dev/full");
    for s in small {
        for o in &s.outputs {
            for k in 0..3 {
                let d = thread_dir(sc);
                s.prepare(&d, false);
                let p = d.join(o);
                if s.inputs.iter().any(|i| i.0 == *o) {
                    continue;
                }
                let _ = std::fs::remove_file(&p);
                match k {
                    0 => std::fs::create_dir(&p).unwrap(),
                    1 => std::os::unix::fs::symlink("/dev/full", &p).unwrap(),
                    _ => std::os::unix::fs::symlink("nowhere/x", &p).unwrap(),
                }
                let out = run(&mut s.cmd(&d), b"", 60);
                r.add(1, 1, 1);
                let _ = std::fs::remove_dir(&p);
                s.clean(&d);
                r.outcome("impossible output", 1);
                if out.ok() || out.timeout {
                    r.violation("success although the output cannot be written", format!("{}: {} {:?}, {o} is {}: {}", s.name, s.tool, s.args, ["a directory", "/dev/full", "in a missing directory"][k], out.text()));
                }
            }
        }
    }
}
