//! What every check shares: arguments, findings, evidence, replay files, panic capture.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Where this harness lives.
pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub start: Instant,
    known: Vec<(String, String)>,
    inner: Mutex<Inner>,
}
#[derive(Default)]
struct Inner {
    found: BTreeMap<String, J>,
    known_hit: BTreeSet<usize>,
    states: u64,
    transitions: u64,
    executions: u64,
    validated: u64,
    outcomes: BTreeMap<String, u64>,
    notes: Vec<String>,
    samples: Vec<J>,
    parts: Vec<J>,
    capped: bool,
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("ferrite/").next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

/// Calls the code under test; a panic becomes Err(message).
#[track_caller]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let at = std::panic::Location::caller();
    let _case = Case::unless_named(move || format!("the call made at {at}"));
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| format!("panic: {}", p.borrow())))
}

impl Ctx {
    pub fn new(id: &str, tier: &str) -> Self {
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", verif())) {
            let v: J = serde_json::from_str(&t).expect("known_findings.json");
            for f in v["findings"].as_array().into_iter().flatten() {
                if f["property"] == id {
                    known.push((f["signature"].as_str().unwrap().into(), f["what"].as_str().unwrap().into()));
                }
            }
        }
        Ctx {
            id: id.into(),
            thorough: tier == "thorough",
            start: Instant::now(),
            known,
            inner: Mutex::new(Inner::default()),
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn deadline(&self, quick_s: u64, thorough_s: u64) -> Instant {
        self.start + Duration::from_secs(self.pick(quick_s, thorough_s))
    }
    /// Is this exact failing case a listed finding?
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(s, _)| s == sig)
    }
    /// Reports a violation. `sig` identifies the failing input, history or schedule.
    pub fn violation(&self, sig: &str, detail: J) {
        let mut g = self.inner.lock().unwrap();
        if let Some(i) = self.known.iter().position(|(s, _)| s == sig) {
            g.known_hit.insert(i);
            return;
        }
        if g.found.len() < 200 {
            g.found.entry(sig.to_string()).or_insert(detail);
        }
    }
    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().found.is_empty()
    }
    pub fn n_violations(&self) -> usize {
        self.inner.lock().unwrap().found.len()
    }
    pub fn add(&self, states: u64, transitions: u64, executions: u64) {
        let mut g = self.inner.lock().unwrap();
        g.states += states;
        g.transitions += transitions;
        g.executions += executions;
    }
    pub fn validated(&self, n: u64) {
        self.inner.lock().unwrap().validated += n;
    }
    pub fn outcome(&self, o: &str) {
        self.outcome_n(o, 1);
    }
    pub fn outcome_n(&self, o: &str, n: u64) {
        let mut g = self.inner.lock().unwrap();
        if g.outcomes.len() < 60 || g.outcomes.contains_key(o) {
            *g.outcomes.entry(o.to_string()).or_insert(0) += n;
        } else {
            *g.outcomes.entry("(others)".into()).or_insert(0) += n;
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().notes.push(s.into());
    }
    pub fn sample(&self, j: J) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 6 {
            g.samples.push(j);
        }
    }
    pub fn capped(&self) {
        self.inner.lock().unwrap().capped = true;
    }
    pub fn part(&self, j: J) {
        self.inner.lock().unwrap().parts.push(j);
    }
    /// Enumerates the schedules of one scenario and records the result.
    pub fn schedules(&self, name: &str, opt: &mcrt::Options, make: &(dyn Fn() -> mcrt::Scenario + Sync)) -> mcrt::Report {
        let t = Instant::now();
        if self.inner.lock().unwrap().found.keys().any(|k| k.contains("HANG")) {
            // each hang costs its whole timeout; one is enough
            return mcrt::Report::default();
        }
        let rep = mcrt::explore(opt, make);
        if let Some(e) = &rep.error {
            eprintln!("internal error in {name}: {e}");
            std::process::exit(2);
        }
        for (m, ch) in &rep.violations {
            // a failure counts only if its schedule fails again when replayed
            let (_, v) = mcrt::replay(make, ch, opt.horizon);
            match v {
                Err(m2) if &m2 == m => {},
                other => {
                    eprintln!("internal error in {name}: schedule {ch:?} does not replay: {m} vs {other:?}");
                    std::process::exit(2);
                },
            }
            self.violation(&format!("{name}: {m}"), json!({"scenario": name, "schedule": ch, "what": m}));
        }
        {
            let mut g = self.inner.lock().unwrap();
            g.executions += rep.schedules;
            g.transitions += rep.points;
            g.states += rep.nodes + 1;
            g.validated += rep.schedules;
            if rep.capped {
                g.capped = true;
            }
            g.parts.push(json!({"scenario": name, "preemption_bound": opt.preemptions, "schedules": rep.schedules,
                "choice_points": rep.points, "longest": rep.max_points, "outcomes": rep.outcomes, "capped": rep.capped,
                "wall_s": t.elapsed().as_secs_f64()}));
        }
        for (o, n) in &rep.outcomes {
            self.outcome_n(&format!("{name}: {o}"), *n);
        }
        rep
    }
    pub fn finish(&self, level: &str, rule: &str) -> ! {
        let g = self.inner.lock().unwrap();
        let replay_dir = format!("{}/work/replay", verif());
        let _ = std::fs::create_dir_all(&replay_dir);
        let mut cov = json!({
            "rule": rule, "samples": g.samples, "outcomes": g.outcomes, "parts": g.parts,
            "distinct_outcomes": g.outcomes.len(), "exhaustive": !g.capped, "notes": g.notes,
        });
        if level == "model_checking" {
            cov["states"] = json!(g.states);
            cov["transitions"] = json!(g.transitions);
            cov["traces_validated_against_impl"] = json!(g.validated);
        } else {
            cov["evaluations"] = json!(g.executions);
            cov["distinct_nontrivial"] = json!(g.states);
        }
        let ev = json!({
            "property": self.id, "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
            "level": level,
            "coverage": cov,
            "known_findings_seen": g.known_hit.len(),
            "violations": g.found.len(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
        std::fs::write(format!("{}/evidence/{}.json", verif(), self.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for i in &g.known_hit {
            println!("KNOWN-FINDING: property={} {}", self.id, self.known[*i].1);
        }
        println!(
            "{} {}: executions={} states={} transitions={} outcomes={} capped={} wall={:.1}s",
            self.id, if self.thorough { "thorough" } else { "quick" }, g.executions, g.states, g.transitions, g.outcomes.len(), g.capped,
            self.start.elapsed().as_secs_f64()
        );
        if g.found.is_empty() {
            std::process::exit(0);
        }
        // the shortest failing case first
        let mut v: Vec<_> = g.found.iter().collect();
        v.sort_by_key(|(s, _)| (s.len(), s.to_string()));
        for (n, (s, d)) in v.iter().take(5).enumerate() {
            let p = format!("{replay_dir}/{}-{n}.json", self.id);
            std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": self.id, "case": s, "detail": d})).unwrap()).unwrap();
            println!("VIOLATION property={} replay={p} {}", self.id, s.chars().take(400).collect::<String>());
        }
        std::process::exit(1);
    }
}

/// Runs `f(i)` for i in 0..n on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let next = AtomicUsize::new(0);
    let k = std::thread::available_parallelism().map_or(8, |x| x.get()).min(8);
    std::thread::scope(|s| {
        for _ in 0..k.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        return;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}
/// The i-th sequence of length `len` over an alphabet of `k` symbols.
pub fn word(mut i: u64, k: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for x in v.iter_mut().rev() {
        *x = (i % k as u64) as usize;
        i /= k as u64;
    }
    v
}
/// A scratch directory removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        Self::at(if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, tag)
    }
    /// On a file system of a disk, which has rules for direct I/O.
    pub fn on_disk(tag: &str) -> Self {
        Self::at("/tmp", tag)
    }
    /// Whether files there can be opened for direct I/O.
    pub fn direct_io(&self) -> bool {
        use std::os::unix::fs::OpenOptionsExt;
        let f = self.file("direct");
        let ok = std::fs::OpenOptions::new().write(true).create(true).truncate(true).custom_flags(0o40000).open(&f).is_ok();
        let _ = std::fs::remove_file(f);
        ok
    }
    fn at(base: &str, tag: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::path::PathBuf::from(format!("{base}/ferrite-mc-{}-{tag}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn file(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- operation sequences

/// One system under exploration: the real object next to its reference.
pub trait System {
    /// Applies operation `op`. Ok(false): not applicable here (the branch is cut). Err: the property fails.
    fn step(&mut self, op: usize) -> Result<bool, String>;
    /// Digest of the state the property can observe (used only to count distinct states).
    fn digest(&self) -> u64;
    /// Checked once at the end of each sequence.
    fn end(&mut self) -> Result<(), String> {
        Ok(())
    }
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

type Slot = std::sync::Arc<Mutex<Option<(Instant, Box<dyn Fn() -> String + Send>)>>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: Slot = {
        let s: Slot = Default::default();
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
/// Registers the case the calling thread is about to run, so that one that never returns is reported.
pub struct Case(bool);
impl Case {
    pub fn new(what: impl Fn() -> String + Send + 'static) -> Self {
        SLOT.with(|s| *s.lock().unwrap() = Some((Instant::now(), Box::new(what))));
        Case(true)
    }
    fn unless_named(what: impl Fn() -> String + Send + 'static) -> Self {
        SLOT.with(|s| {
            let mut s = s.lock().unwrap();
            let free = s.is_none();
            if free {
                *s = Some((Instant::now(), Box::new(what)));
            }
            Case(free)
        })
    }
}
impl Drop for Case {
    fn drop(&mut self) {
        if self.0 {
            SLOT.with(|s| *s.lock().unwrap() = None);
        }
    }
}
pub const HANG_S: u64 = 60;
/// No check comes near this; a case that has been running for seconds when the process holds as much is
/// filling the memory without end.
const FULL_MB: u64 = 12_000;
fn rss_mb() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}
/// Reports a case that does not return within HANG_S seconds (they take micro- to milliseconds), or that
/// fills the memory, as a violation.
pub fn watchdog(ctx: &'static Ctx, level: &'static str, rule: &'static str) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let slots: Vec<Slot> = SLOTS.lock().unwrap().clone();
        let full = rss_mb() > FULL_MB;
        let limit = if full { 1.0 } else { HANG_S as f64 };
        let mut hung: Vec<(f64, String)> = slots
            .iter()
            .filter_map(|s| s.lock().unwrap().as_ref().map(|(t, f)| (t.elapsed().as_secs_f64(), f)).filter(|(t, _)| *t > limit).map(|(t, f)| (t, f())))
            .collect();
        hung.sort_by(|a, b| b.0.total_cmp(&a.0));
        if full {
            hung.truncate(1);
        }
        let hung: Vec<String> = hung.into_iter().map(|h| h.1).collect();
        if !hung.is_empty() {
            for h in hung {
                ctx.violation(&format!("{h}: does not return"), json!({"case": h, "what": "does not return"}));
            }
            ctx.finish(level, rule);
        }
    });
}

/// Runs every sequence of `depth` operations out of `nops` (checking after every step, so every shorter
/// sequence too), each on a fresh system.
pub fn sequences<S: System>(
    ctx: &Ctx, name: &str, nops: usize, depth: usize, deadline: Instant, show: impl Fn(usize) -> String + Sync + Send + 'static, make: &(dyn Fn() -> S + Sync),
) {
    sequences_from(ctx, name, &[], nops, depth, deadline, show, make)
}
pub fn sequences_from<S: System>(
    ctx: &Ctx, name: &str, start: &[usize], nops: usize, depth: usize, deadline: Instant,
    show: impl Fn(usize) -> String + Sync + Send + 'static, make: &(dyn Fn() -> S + Sync),
) {
    use std::collections::HashSet;
    use std::sync::atomic::{AtomicBool, Ordering};
    let t0 = Instant::now();
    let show: std::sync::Arc<dyn Fn(usize) -> String + Sync + Send> = std::sync::Arc::new(show);
    let name: std::sync::Arc<str> = name.into();
    let split = depth.min(2);
    let jobs = nops.pow(split as u32);
    let capped = AtomicBool::new(false);
    let tot = Mutex::new((0u64, 0u64, HashSet::<u64>::new(), 0usize));
    par(jobs, |j| {
        let pre = word(j as u64, nops, split);
        let mut seq = vec![0usize; depth];
        seq[..split].copy_from_slice(&pre);
        let (mut runs, mut ops, mut longest) = (0u64, 0u64, 0usize);
        let mut seen: HashSet<u64> = HashSet::new();
        'outer: loop {
            if runs & 15 == 0 && Instant::now() > deadline {
                capped.store(true, Ordering::SeqCst);
                break;
            }
            let mut cut = depth;
            let _case = {
                let (name, s) = (name.clone(), seq.clone());
                let show = show.clone();
                Case::new(move || format!("{name}: {}", s.iter().map(|&o| show(o)).collect::<Vec<_>>().join("; ")))
            };
            let made = guard(make);
            let mut fail: Option<(usize, String)> = None;
            match made {
                Err(e) => fail = Some((0, e)),
                Ok(mut sys) => {
                    for (i, &o) in start.iter().enumerate() {
                        match guard(|| sys.step(o)) {
                            Ok(Ok(_)) => {},
                            Ok(Err(e)) | Err(e) => fail = Some((0, format!("start step {i}: {e}"))),
                        }
                    }
                    if fail.is_none() {
                        for (i, &o) in seq.iter().enumerate() {
                            match guard(|| sys.step(o)) {
                                Ok(Ok(true)) => {
                                    ops += 1;
                                    longest = longest.max(i + 1);
                                    seen.insert(sys.digest());
                                },
                                Ok(Ok(false)) => {
                                    cut = i;
                                    break;
                                },
                                Ok(Err(e)) | Err(e) => {
                                    fail = Some((i + 1, e));
                                    cut = i;
                                    break;
                                },
                            }
                        }
                    }
                    if fail.is_none() {
                        match guard(|| sys.end()) {
                            Ok(Ok(())) => {},
                            Ok(Err(e)) | Err(e) => fail = Some((cut, format!("at the end: {e}"))),
                        }
                    }
                    // a destructor that panics must not take the check down
                    let _ = guard(move || drop(sys));
                },
            }
            runs += 1;
            if let Some((n, e)) = fail {
                let ops: Vec<String> = start.iter().chain(seq[..n].iter()).map(|&o| show(o)).collect();
                ctx.violation(&format!("{name}: {} => {e}", ops.join("; ")), json!({"scenario": &*name, "operations": ops, "what": e}));
                if ctx.n_violations() >= 40 {
                    break 'outer;
                }
            } else if runs == 1 && j == jobs / 2 {
                ctx.sample(json!({"scenario": &*name, "operations": seq[..cut].iter().map(|&o| show(o)).collect::<Vec<_>>()}));
            }
            // next sequence: bump at `cut` if the branch was cut there
            let mut i = cut.min(depth - 1);
            loop {
                if i < split {
                    break 'outer;
                }
                seq[i] += 1;
                if seq[i] < nops {
                    break;
                }
                seq[i] = 0;
                i -= 1;
            }
            for x in seq.iter_mut().skip(i + 1) {
                *x = 0;
            }
        }
        let mut g = tot.lock().unwrap();
        g.0 += runs;
        g.1 += ops;
        g.2.extend(seen);
        g.3 = g.3.max(longest);
    });
    let g = tot.into_inner().unwrap();
    let c = capped.load(Ordering::SeqCst);
    if c {
        ctx.capped();
    }
    ctx.add(g.2.len() as u64, g.1, g.0);
    ctx.validated(g.0);
    ctx.part(json!({"scenario": &*name, "operations": nops, "depth": depth, "sequences": g.0, "steps": g.1, "distinct_states": g.2.len(),
        "longest": g.3, "capped": c, "wall_s": t0.elapsed().as_secs_f64()}));
}
