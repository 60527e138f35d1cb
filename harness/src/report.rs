//! Accounting of what was explored, evidence files, violations and known findings.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Lines for the caller: a check may mute or redirect the standard output of the code it runs
macro_rules! say {
    ($r:expr, $($a:tt)*) => {
        let _ = writeln!($r.out.lock().unwrap(), $($a)*);
    };
}

pub struct Report {
    out: Mutex<std::fs::File>,
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    /// distinct states (inputs, configurations, program points) visited
    pub states: AtomicU64,
    /// executed steps of the implementation
    pub transitions: AtomicU64,
    /// executions (paths, runs) of the implementation compared with the reference model
    pub traces: AtomicU64,
    /// named secondary counters
    extra: Mutex<BTreeMap<String, u64>>,
    /// distinct observed outcome classes
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: AtomicUsize,
    findings: Mutex<BTreeMap<String, u64>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    level: &'static str,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    deadline: Duration,
    rule: Mutex<String>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub const ROOT: &str = "/verif";

impl Report {
    pub fn new(id: &str) -> Self {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Report {
            out: Mutex::new(std::os::fd::AsFd::as_fd(&std::io::stdout()).try_clone_to_owned().expect("stdout").into()),
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            extra: Mutex::default(),
            outcomes: Mutex::default(),
            samples: Mutex::default(),
            violations: AtomicUsize::new(0),
            findings: Mutex::default(),
            bounds: Mutex::default(),
            assumptions: Mutex::default(),
            level: if id == "C30" { "fault_enumeration" } else { "model_checking" },
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            deadline: Duration::from_secs(if thorough { 760 } else { 400 }),
            rule: Mutex::default(),
        }
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Ordering::Relaxed);
        self.transitions.fetch_add(transitions, Ordering::Relaxed);
        self.traces.fetch_add(traces, Ordering::Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.extra.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn outcome(&self, name: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn rule(&self, s: impl Into<String>) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }
    pub fn want_sample(&self) -> bool {
        self.samples.lock().unwrap().len() < 12
    }
    /// True once a violation was found or the wall-clock cap was reached
    #[inline]
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn check_time(&self) -> bool {
        if self.start.elapsed() > self.deadline {
            self.capped.store(true, Ordering::Relaxed);
            self.stop.store(true, Ordering::Relaxed);
        }
        self.stopped()
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Record a violation: `detail` describes the complete case, so that it can be replayed by hand;
    /// the same command deterministically finds it again.
    pub fn violation(&self, what: impl AsRef<str>, detail: impl AsRef<str>) {
        let n = self.violations.fetch_add(1, Ordering::SeqCst);
        self.stop.store(true, Ordering::SeqCst);
        if n >= 3 {
            return;
        }
        let dir = format!("{ROOT}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{n}.json", self.id);
        let body = format!(
            "{{\n  \"property\": {},\n  \"what\": {},\n  \"case\": {},\n  \"rerun\": {}\n}}\n",
            esc(&self.id),
            esc(what.as_ref()),
            esc(detail.as_ref()),
            esc(&format!("VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {}", self.seed, if self.thorough { "thorough" } else { "quick" }, self.id)),
        );
        let _ = std::fs::write(&path, body);
        say!(self, "VIOLATION property={} replay={path}", self.id);
        say!(self, "  {}", what.as_ref());
        for l in detail.as_ref().lines().take(40) {
            say!(self, "    {}", l.chars().take(3000).collect::<String>());
        }
    }
    /// A failure listed in the committed known-findings file. `key` must be listed there.
    pub fn known(&self, key: &str, case: impl AsRef<str>) {
        let mut f = self.findings.lock().unwrap();
        if let Some(n) = f.get_mut(key) {
            *n += 1;
            return;
        }
        let list = std::fs::read_to_string(format!("{ROOT}/known_findings.txt")).unwrap_or_default();
        let prefix = format!("finding: property={} key={key} ", self.id);
        match list.lines().find(|l| l.starts_with(&prefix)) {
            Some(l) => {
                say!(self, "KNOWN-FINDING: property={} {}", self.id, &l[prefix.len()..]);
                f.insert(key.to_string(), 1);
            }
            None => {
                drop(f);
                self.violation(format!("finding {key} is not listed"), case);
            }
        }
    }
    pub fn violated(&self) -> bool {
        self.violations.load(Ordering::SeqCst) != 0
    }
    pub fn finish(&self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let v = self.violations.load(Ordering::SeqCst);
        let mut o = String::new();
        let list = |v: &Vec<String>| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
        let map = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")
        };
        let (s, t, tr) = (
            self.states.load(Ordering::SeqCst),
            self.transitions.load(Ordering::SeqCst),
            self.traces.load(Ordering::SeqCst),
        );
        let capped = self.capped.load(Ordering::SeqCst);
        let _ = write!(
            o,
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n",
            esc(&self.id),
            esc(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            esc(self.level)
        );
        if self.level == "fault_enumeration" {
            let _ = write!(
                o,
                "    \"evaluations\": {t},\n    \"distinct_nontrivial\": {s},\n    \"rule\": {},\n",
                esc(&self.rule.lock().unwrap())
            );
        } else {
            let _ = write!(
                o,
                "    \"states\": {s},\n    \"transitions\": {t},\n    \"traces_validated_against_impl\": {tr},\n"
            );
        }
        let _ = write!(
            o,
            "    \"exhaustive\": {},\n    \"capped\": {capped},\n    \"bounds\": [{}],\n    \"counters\": {{{}}},\n    \"outcomes\": {{{}}},\n    \"known_findings\": {{{}}},\n    \"samples\": [{}]\n  }},\n",
            !capped && v == 0,
            list(&self.bounds.lock().unwrap()),
            map(&self.extra.lock().unwrap()),
            map(&self.outcomes.lock().unwrap()),
            map(&self.findings.lock().unwrap()),
            list(&self.samples.lock().unwrap()),
        );
        let _ = write!(
            o,
            "  \"assumptions\": [{}],\n  \"wall_s\": {wall:.3},\n  \"violations\": {v}\n}}\n",
            list(&self.assumptions.lock().unwrap())
        );
        let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
        if let Err(e) = std::fs::write(format!("{ROOT}/evidence/{}.json", self.id), o) {
            eprintln!("could not write evidence: {e}");
            std::process::exit(3);
        }
        say!(
            self,
            "{}: states={s} transitions={t} traces={tr} capped={capped} violations={v} wall={wall:.1}s",
            self.id
        );
        if v == 0 && s == 0 {
            eprintln!("nothing was explored");
            std::process::exit(3);
        }
        std::process::exit(if v == 0 { 0 } else { 1 })
    }
}

static SEEN: std::sync::OnceLock<Vec<AtomicU64>> = std::sync::OnceLock::new();
const SEEN_BITS: u32 = 30;

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29)
}
/// Record a state by its hash; true if it is new. The count of new ones is a lower bound of the
/// number of distinct states.
#[inline]
pub fn visit(h: u64) -> bool {
    let t = SEEN.get_or_init(|| (0..1usize << (SEEN_BITS - 6)).map(|_| AtomicU64::new(0)).collect());
    let i = (h.wrapping_mul(0xd6e8_feb8_6659_fd93) >> (64 - SEEN_BITS)) as usize;
    let bit = 1u64 << (i & 63);
    let w = &t[i >> 6];
    w.load(Ordering::Relaxed) & bit == 0 && w.fetch_or(bit, Ordering::Relaxed) & bit == 0
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    h
}

/// Run `f(item)` for all items on 8 threads (dynamic distribution, every item once).
/// A panic of the harness itself is an error of the check, never a verdict.
pub fn par<T: Send + Sync, F: Fn(&T) + Sync>(r: &Report, items: &[T], f: F) {
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() || r.check_time() {
                        break;
                    }
                    f(&items[i]);
                })
                .unwrap();
        }
    });
}

static CURRENT: std::sync::atomic::AtomicPtr<Report> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Panics inside `guard` are silent and reported as Err; other panics print and exit with 4.
pub fn install_panic_hook(r: &'static Report) {
    CURRENT.store(r as *const Report as *mut Report, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if QUIET.with(|q| q.get()) > 0 {
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            // outside `guard`: a panic of the code under test is a violation, one of the harness
            // leaves the check without an answer
            let report = CURRENT.load(Ordering::SeqCst);
            if loc.starts_with("/repo/") && !report.is_null() {
                let r: &Report = unsafe { &*report };
                r.violation(format!("the code under test panics: {msg} at {loc}"), "the case is one of those in the evidence's bounds; rerun with RUST_BACKTRACE=1");
                if std::env::var("RUST_BACKTRACE").is_ok_and(|v| v != "0") {
                    eprintln!("{}", std::backtrace::Backtrace::force_capture());
                }
                r.finish();
            }
            eprintln!("harness panic: {msg} at {loc}");
            std::process::exit(4);
        }
    }));
}

/// Call the code under test; a panic is returned as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// If a single case makes no progress for a minute, that is a hang of the code under test.
pub struct Watchdog {
    slots: Vec<Mutex<Option<(Instant, String)>>>,
}
impl Watchdog {
    pub fn start_static(r: &Report) -> &'static Watchdog {
        // reports live until the process ends
        Self::start(unsafe { std::mem::transmute::<&Report, &'static Report>(r) })
    }
    pub fn start(r: &'static Report) -> &'static Watchdog {
        let w: &'static Watchdog = Box::leak(Box::new(Watchdog {
            slots: (0..64).map(|_| Mutex::new(None)).collect(),
        }));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &w.slots {
                let g = s.lock().unwrap();
                if let Some((t, c)) = &*g {
                    if t.elapsed() > Duration::from_secs(20) {
                        let c = c.clone();
                        drop(g);
                        r.violation("no progress for 20 s: the code under test hangs", c);
                        r.finish();
                    }
                }
            }
        });
        w
    }
    pub fn run<T>(&self, case: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
        thread_local!(static SLOT: usize = NEXT.fetch_add(1, Ordering::Relaxed) % 64);
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let slot = SLOT.with(|s| *s);
        *self.slots[slot].lock().unwrap() = Some((Instant::now(), case()));
        let t = f();
        *self.slots[slot].lock().unwrap() = None;
        t
    }
}
