//! Collecting what the monitors saw, and the verdicts.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Counts steps of the workload, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub struct Violation {
    pub sig: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// Report this property instead of the one whose workload it is.
    pub report_as: Option<String>,
    /// Divides numbers of cases.
    pub scale: u64,
    /// Replay only this case.
    pub only: Option<u64>,
    pub start: Instant,
    pub budget: Duration,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub known: BTreeSet<String>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    /// Description of the case being run, prefixed to every violation.
    pub case: String,
    pub case_id: u64,
    /// Problems of the harness itself.
    pub errors: Vec<String>,
    crumb: Option<std::fs::File>,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Self {
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            report_as: None,
            scale: 1,
            only: None,
            start: Instant::now(),
            budget: Duration::from_secs(if thorough { 600 } else { 60 }),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            stats: BTreeMap::new(),
            violations: vec![],
            known: BTreeSet::new(),
            known_hits: BTreeMap::new(),
            case: String::new(),
            case_id: 0,
            errors: vec![],
            crumb: None,
        }
    }
    pub fn own(&self, prop: &str) -> bool {
        self.prop == prop
    }
    /// Scale a number of cases by tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        (n / self.scale).max(1)
    }
    /// Start a case, unless it's time to stop or another one is to be replayed.
    pub fn begin(&mut self, id: u64) -> bool {
        if self.bad() || !self.errors.is_empty() || !self.time_left() || self.only.map_or(false, |o| o != id) {
            return false;
        }
        self.case_id = id;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if let Some(f) = &self.crumb {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&id.to_le_bytes(), 0);
        }
        true
    }
    /// Leave the id of the current case in a file, for when the process dies.
    pub fn crumbs(&mut self, path: &str) {
        self.crumb = std::fs::File::create(path).ok();
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }
    /// Record a violation of `prop`, if that's the property being decided.
    pub fn fail(&mut self, prop: &str, sig: &str, msg: String) {
        if self.report_as.as_deref().unwrap_or(&self.prop) != prop {
            return;
        }
        if self.known.contains(sig) {
            let e = self.known_hits.entry(sig.to_string()).or_insert((0, msg));
            e.0 += 1;
            return;
        }
        if std::env::var_os("VH_COLLECT").is_some() {
            // for writing the list of known findings by hand
            println!("{sig}\t{msg}");
            self.known.insert(sig.to_string());
            return;
        }
        if self.violations.len() < 20 && !self.violations.iter().any(|v| v.sig == sig) {
            let case = format!("{} [case {}]", self.case, self.case_id);
            self.violations.push(Violation {
                sig: sig.to_string(),
                msg: format!("{case}: {msg}"),
            });
        }
    }
    /// A violation of whatever property is being decided: an operation it needs did not work.
    pub fn fail_any(&mut self, sig: &str, msg: String) {
        // C06 is about nothing else, in any workload
        let p = match self.report_as.as_deref() {
            Some("C06") => "C06".to_string(),
            _ => self.prop.clone(),
        };
        self.fail(&p, sig, msg);
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        if let Some(x) = self.stats.get_mut(k) {
            *x += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let x = self.stats.entry(k.to_string()).or_insert(0);
        *x = (*x).max(n);
    }
    /// Count one evaluated case; `h` identifies what was nontrivial about it (`None`: trivial).
    pub fn eval(&mut self, h: Option<u64>) {
        self.evals += 1;
        if let Some(h) = h {
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(h);
            }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let k = self.evals;
        if self.samples.len() < 6 && (k < 3 || k.is_power_of_two() && k > 64) {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn bad(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn to_json(&self) -> String {
        let mut o = String::from("{");
        let q = |s: &str| quote(s);
        o.push_str(&format!("\"property\":{},", q(&self.prop)));
        o.push_str(&format!("\"evaluations\":{},\"distinct\":{},", self.evals, self.distinct.len()));
        o.push_str(&format!("\"errors\":[{}],", self.errors.iter().map(|s| q(s)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"wall_s\":{:.3},", self.start.elapsed().as_secs_f64()));
        o.push_str(&format!("\"samples\":[{}],", self.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!(
            "\"stats\":{{{}}},",
            self.stats.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",")
        ));
        o.push_str(&format!(
            "\"known\":[{}],",
            self.known_hits
                .iter()
                .map(|(k, v)| format!("{{\"sig\":{},\"count\":{},\"msg\":{}}}", q(k), v.0, q(&v.1)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"violations\":[{}]",
            self.violations
                .iter()
                .map(|v| format!("{{\"sig\":{},\"msg\":{}}}", q(&v.sig), q(&v.msg)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push('}');
        o
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A panic the workload injects on purpose.
pub struct Injected;

/// Keep panics quiet, and remember what they said.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string payload".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/crates/").map(|x| x.1).unwrap_or(f);
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if std::env::var_os("VH_LOUD").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// A logger that formats everything and keeps nothing.
struct Sink;
static LOGGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct N;
        impl std::fmt::Write for N {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                std::hint::black_box(s);
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut N, *r.args());
        LOGGED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    let _ = log::set_logger(&Sink);
}
/// Have what the crates log formatted, or not.
pub fn logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
pub fn logged() -> u64 {
    LOGGED.swap(0, std::sync::atomic::Ordering::Relaxed)
}

pub enum Caught {
    Injected,
    Panic(String),
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        if e.is::<Injected>() {
            Caught::Injected
        } else {
            Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    })
}

/// Run something while the thread unwinds from a panic that has nothing to do with it.
pub fn unwinding<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    struct D<'a, F: FnOnce() -> R, R>(Option<F>, &'a mut Option<Result<R, Caught>>);
    impl<F: FnOnce() -> R, R> Drop for D<'_, F, R> {
        fn drop(&mut self) {
            *self.1 = self.0.take().map(guarded);
        }
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _d = D(Some(f), &mut out);
        std::panic::panic_any(Injected);
    }));
    out.unwrap_or(Err(Caught::Panic("harness: nothing ran".into())))
}

/// Run code of the harness that calls the crates; a panic is reported as a violation.
pub fn must<R>(ctx: &mut Ctx, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match guarded(f) {
        Ok(r) => Some(r),
        Err(Caught::Injected) => None,
        Err(Caught::Panic(m)) => {
            if harness_panic(&m) {
                ctx.errors.push(format!("{what}: {m}"));
            } else {
                ctx.fail_any(&format!("panic:{what}"), format!("{what} panicked: {m}"));
            }
            None
        }
    }
}

/// Is this a panic of the harness' own code? (derived code counts as code under test)
pub fn harness_panic(m: &str) -> bool {
    m.rsplit_once(" at src/").map_or(false, |(_, l)| !l.starts_with("gen")) || m.contains("harness:")
}

/// CPU time of this process, in clock ticks (1/100 s), and the states of its threads.
fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit_once(')').map(|x| x.1).unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn others_asleep(me: u32) -> bool {
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    for e in d.flatten() {
        let tid = e.file_name().to_string_lossy().parse::<u32>().unwrap_or(0);
        if tid == me {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        match s.rsplit_once(')').and_then(|x| x.1.trim().chars().next()) {
            Some('S') => {}
            _ => return false,
        }
    }
    true
}

pub const EXIT_STUCK: i32 = 71;
pub const EXIT_SPIN: i32 = 72;

/// End the process when the code under test deadlocks (all threads asleep for seconds, none of them
/// using any CPU time) or spins (a step that takes milliseconds has burnt a minute of CPU time).
/// Decided on CPU time and thread states, not on wall time, so that a loaded machine is no violation.
pub fn watchdog() {
    std::thread::spawn(|| {
        let me = std::fs::read_link("/proc/thread-self")
            .ok()
            .and_then(|p| p.file_name().and_then(|f| f.to_string_lossy().parse().ok()))
            .unwrap_or(0);
        let (mut last, mut cpu0, mut asleep, mut cpu_prev) = (u64::MAX, 0, 0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let p = PROGRESS.load(Ordering::Relaxed);
            let cpu = cpu_ticks();
            if p != last {
                last = p;
                cpu0 = cpu;
                asleep = 0;
            } else if others_asleep(me) && cpu <= cpu_prev + 1 {
                asleep += 1;
                if asleep >= 40 {
                    eprintln!("STUCK: every thread has been asleep for 10 s");
                    std::process::exit(EXIT_STUCK);
                }
            } else {
                asleep = 0;
                if cpu > cpu0 + 6000 {
                    eprintln!("SPIN: one step has used 60 s of CPU time");
                    std::process::exit(EXIT_SPIN);
                }
            }
            cpu_prev = cpu;
        }
    });
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..100_000_000u64 {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        std::hint::spin_loop();
    }
    panic!("harness: a future never became ready");
}
