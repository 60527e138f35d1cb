//! Scratch directories and running the tools under test.
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// A scratch directory (in memory if possible), removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = PathBuf::from(format!(
            "{base}/telda-mc-{}-{tag}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch directory");
        REG.lock().unwrap().push(p.clone());
        Scratch(p)
    }
    pub fn path(&self, name: impl AsRef<Path>) -> PathBuf {
        self.0.join(name)
    }
}
static REG: std::sync::Mutex<Vec<PathBuf>> = std::sync::Mutex::new(Vec::new());
/// Remove all scratch directories (before leaving with process::exit)
pub fn cleanup() {
    for p in REG.lock().unwrap().drain(..) {
        let _ = std::fs::remove_dir_all(p);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        REG.lock().unwrap().retain(|p| *p != self.0);
    }
}

/// Path of a tool built from /repo
pub fn tool(name: &str) -> PathBuf {
    let dir = std::env::var("MC_TOOLS").unwrap_or_else(|_| "/verif/.build/r/debug".into());
    Path::new(&dir).join(name)
}

#[derive(Debug, Clone)]
pub struct Out {
    /// exit code; None if ended by a signal or a timeout
    pub code: Option<i32>,
    pub timeout: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// a failure reported by the tool itself, not a signal or hang
    pub fn failed(&self) -> bool {
        matches!(self.code, Some(c) if c != 0)
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.code.is_none()
    }
    pub fn text(&self) -> String {
        format!(
            "exit={:?}{} stdout={:?} stderr={:?}",
            self.code,
            if self.timeout { " TIMEOUT" } else { "" },
            clip(&self.stdout),
            clip(&self.stderr)
        )
    }
}

/// The most that is taken of each output
pub static FLOOD: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1 << 20);

/// Run a command with the given input; ended after `secs` seconds.
pub fn run(cmd: &mut Command, input: &[u8], secs: u64) -> Out {
    cmd.env("RUST_BACKTRACE", "0");
    let mut ch = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start {cmd:?}: {e}"));
    let mut si = ch.stdin.take().unwrap();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let wr = if input.len() > 4096 {
        let inp = input.to_vec();
        Some(std::thread::spawn(move || {
            let _ = si.write_all(&inp);
        }))
    } else {
        // fits the pipe buffer
        let _ = si.write_all(input);
        drop(si);
        None
    };
    finish(ch, wr, &mut so, &mut se, secs)
}

fn finish(
    mut ch: std::process::Child,
    wr: Option<std::thread::JoinHandle<()>>,
    so: &mut std::process::ChildStdout,
    se: &mut std::process::ChildStderr,
    secs: u64,
) -> Out {
    let mut stdout = Vec::new();
    let mut stderr = Vec::new();
    let mut timeout = false;
    // a program that never stops printing is ended early
    let most = FLOOD.load(std::sync::atomic::Ordering::Relaxed);
    let flood = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        let a = s.spawn(|| {
            let mut v = Vec::new();
            let _ = so.take(most).read_to_end(&mut v);
            if v.len() as u64 == most {
                flood.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            v
        });
        let b = s.spawn(|| {
            let mut v = Vec::new();
            let _ = se.take(most).read_to_end(&mut v);
            if v.len() as u64 == most {
                flood.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            v
        });
        let start = Instant::now();
        let mut nap = 100;
        loop {
            match ch.try_wait() {
                Ok(Some(_)) => break,
                _ => {
                    if start.elapsed() > Duration::from_secs(secs) || flood.load(std::sync::atomic::Ordering::Relaxed) {
                        timeout = true;
                        let _ = ch.kill();
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 3 / 2).min(5000);
                }
            }
        }
        stdout = a.join().unwrap();
        stderr = b.join().unwrap();
    });
    if let Some(w) = wr {
        let _ = w.join();
    }
    let st = ch.wait();
    Out {
        code: if timeout { None } else { st.ok().and_then(|s| s.code()) },
        timeout,
        stdout,
        stderr,
    }
}

fn clip(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(&b[..b.len().min(2000)]).into_owned();
    if b.len() > 2000 {
        t + "..."
    } else {
        t
    }
}
