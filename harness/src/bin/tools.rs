//! C29-C32: the command line tools end to end
use mc::linkmodel::{link, select, Opts};
use mc::objfmt::*;
use mc::proc::*;
use mc::refasm::*;
use mc::refcpu::*;
use mc::refvm::*;
use mc::report::*;
use std::path::{Path, PathBuf};
use std::process::Command;

#[path = "tools/run.rs"]
mod run_;
#[path = "tools/faults.rs"]
mod faults;
#[path = "tools/debug.rs"]
mod debug;
#[path = "tools/dump.rs"]
mod dump;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let r: &'static Report = Box::leak(Box::new(Report::new(&id)));
    install_panic_hook(r);
    match id.as_str() {
        "C29" => run_::c29(r),
        "C31" => debug::c31(r),
        "C32" => dump::c32(r),
        "C30" => faults::c30(r),
        _ => panic!("unknown property {id}"),
    }
    cleanup();
    r.finish()
}

/// A directory of this thread
pub fn thread_dir(sc: &Scratch) -> PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    thread_local!(static T: u64 = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    let d = sc.path(format!("w{}", T.with(|t| *t)));
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn start(dir: &Path, name: &str) -> Command {
    let mut c = Command::new(tool(name));
    c.current_dir(dir);
    c
}
/// Run a tool; a tool that hangs is a violation by itself
pub fn call(dir: &Path, name: &str, args: &[&str], input: &[u8]) -> Out {
    run(start(dir, name).args(args), input, 60)
}
pub fn text_of(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// What the reference assembler makes of a source
pub fn reference(text: &str) -> Obj {
    let a = source("p.telda", text.as_bytes(), true);
    assert!(!a.fail && !a.open, "harness: bad source {:?}\n{text}", a.errors);
    a.object(None).0
}
