//! Controlled scheduler: runs a fixed set of OS threads one at a time (baton passing) and
//! enumerates, depth first, every choice sequence within a preemption bound.
//!
//! Threads that are not part of an execution see the plain behaviour of every primitive.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Runnable,
    /// waits for the primitive at this address; `timed` waits may also end when nothing else can run
    Blocked { addr: usize, timed: bool },
    Done,
}

#[derive(Clone, Debug)]
pub struct Point {
    pub enabled: Vec<u8>,
    pub chosen: u8,
    /// the running thread could have gone on (choosing another one is a preemption)
    pub free: bool,
}

struct Th {
    status: Status,
    want_excl: usize,
    yielded: bool,
    timed_out: bool,
}

struct St {
    th: Vec<Th>,
    cur: usize,
    prefix: Vec<u8>,
    points: Vec<Point>,
    finished: bool,
    dead: Option<String>,
    diverged: Option<String>,
    horizon: usize,
    steps: usize,
    max_steps: usize,
    panics: Vec<(usize, String)>,
    log: Vec<String>,
}

pub struct Exec {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    done: Condvar,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static NOPOINT: Cell<u32> = const { Cell::new(0) };
    static CLOCK: Cell<Option<u64>> = const { Cell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn ctx() -> Option<(Arc<Exec>, usize)> {
    if NOPOINT.with(|n| n.get()) > 0 {
        return None;
    }
    CTX.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// Is the calling thread under the controlled scheduler?
pub fn controlled() -> bool {
    ctx().is_some()
}

static QUIET: std::sync::RwLock<Vec<&'static str>> = std::sync::RwLock::new(Vec::new());
/// Makes everything in the source files whose path contains one of these run without scheduling points.
pub fn quiet(paths: &[&'static str]) {
    *QUIET.write().unwrap() = paths.to_vec();
}
/// Makes everything in storage/disk run without scheduling points: each poll of a disk operation is one atomic step.
pub fn quiet_disk(on: bool) {
    quiet(if on { &["/storage/disk/"] } else { &[] });
}
/// May a lock or atomic used at this place be a scheduling point?
pub fn audible(at: &std::panic::Location) -> bool {
    !QUIET.read().unwrap().iter().any(|p| at.file().contains(p))
}
/// Is the calling thread under the controlled scheduler, and this place one where it waits for other threads under
/// it? (A quiet disk layer shares its locks with threads outside; elsewhere quiet only means no preemption.)
#[track_caller]
pub fn controlled_here() -> bool {
    let at = std::panic::Location::caller();
    controlled() && (audible(at) || !at.file().contains("/storage/disk/"))
}
/// `point`, unless the caller is in a quiet place
#[track_caller]
pub fn point_here() {
    if audible(std::panic::Location::caller()) {
        point();
    }
}

/// Runs `f` as one atomic step (no scheduling point inside).
pub fn atomic_step<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NOPOINT.with(|n| n.set(n.get() - 1));
        }
    }
    NOPOINT.with(|n| n.set(n.get() + 1));
    let _g = G;
    f()
}

impl Exec {
    /// Picks the next thread; called with the state locked. Returns false when nothing can run.
    fn pick(&self, st: &mut St, me: usize, is_yield: bool) -> bool {
        st.steps += 1;
        let mut enabled: Vec<u8> = (0..st.th.len())
            .filter(|&i| st.th[i].status == Status::Runnable)
            .map(|i| i as u8)
            .collect();
        if enabled.is_empty() {
            // the earliest timed wait ends
            for i in 0..st.th.len() {
                if let Status::Blocked { timed: true, .. } = st.th[i].status {
                    st.th[i].status = Status::Runnable;
                    st.th[i].timed_out = true;
                    enabled.push(i as u8);
                    break;
                }
            }
        }
        if enabled.is_empty() {
            return false;
        }
        let me_on = st.th.get(me).is_some_and(|t| t.status == Status::Runnable);
        if is_yield && enabled.len() > 1 {
            enabled.retain(|&t| t as usize != me);
        }
        // threads that yielded and have not seen another thread run since go last
        let free;
        if me_on && enabled.contains(&(me as u8)) {
            free = false;
            enabled.retain(|&t| t as usize != me);
            enabled.insert(0, me as u8);
        } else {
            free = true;
            if enabled.len() > 1 && enabled.iter().any(|&t| !st.th[t as usize].yielded) {
                enabled.retain(|&t| !st.th[t as usize].yielded);
            }
        }
        let next = if enabled.len() == 1 {
            enabled[0]
        } else {
            let i = st.points.len();
            let k = if i < st.prefix.len() { st.prefix[i] as usize } else { 0 };
            if k >= enabled.len() {
                st.diverged = Some(format!("choice {k} of {} at point {i}", enabled.len()));
                return false;
            }
            let t = enabled[k];
            st.points.push(Point { enabled, chosen: k as u8, free });
            t
        };
        let next = next as usize;
        if next != me {
            for t in st.th.iter_mut() {
                t.yielded = false;
            }
            if is_yield && me < st.th.len() {
                st.th[me].yielded = true;
            }
        }
        st.cur = next;
        true
    }

    fn stop(&self, st: &mut St, why: String) {
        if st.dead.is_none() {
            st.dead = Some(why);
        }
        st.finished = true;
        self.done.notify_all();
    }

    fn park_forever<'a>(&self, mut g: std::sync::MutexGuard<'a, St>, me: usize) -> ! {
        loop {
            g = self.cvs[me].wait(g).unwrap();
        }
    }

    fn hand_over<'a>(&self, mut g: std::sync::MutexGuard<'a, St>, me: usize) {
        if g.cur != me {
            self.cvs[g.cur].notify_one();
        }
        while g.cur != me || g.finished {
            g = self.cvs[me].wait(g).unwrap();
        }
    }

    fn point(&self, me: usize, is_yield: bool) {
        let mut g = self.st.lock().unwrap();
        if g.finished {
            self.park_forever(g, me);
        }
        if g.points.len() > g.horizon || g.steps > g.max_steps {
            self.stop(&mut g, "HORIZON".into());
            self.park_forever(g, me);
        }
        if !self.pick(&mut g, me, is_yield) {
            let why = g.diverged.clone().map_or("STUCK".to_string(), |d| format!("DIVERGED {d}"));
            self.stop(&mut g, why);
            self.park_forever(g, me);
        }
        self.hand_over(g, me);
    }

    fn block(&self, me: usize, addr: usize, timed: bool) -> bool {
        let mut g = self.st.lock().unwrap();
        if g.finished {
            self.park_forever(g, me);
        }
        g.th[me].status = Status::Blocked { addr, timed };
        g.th[me].timed_out = false;
        if !self.pick(&mut g, me, false) {
            let why = match &g.diverged {
                Some(d) => format!("DIVERGED {d}"),
                None => {
                    let w: Vec<String> = g
                        .th
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| matches!(t.status, Status::Blocked { .. }))
                        .map(|(i, _)| format!("t{i}"))
                        .collect();
                    format!("DEADLOCK of {}", w.join(","))
                },
            };
            self.stop(&mut g, why);
            self.park_forever(g, me);
        }
        if g.cur == me {
            return g.th[me].timed_out;
        }
        self.cvs[g.cur].notify_one();
        while g.cur != me || g.finished {
            g = self.cvs[me].wait(g).unwrap();
        }
        g.th[me].timed_out
    }

    fn wake(&self, addr: usize, n: usize) -> usize {
        let mut g = self.st.lock().unwrap();
        let mut k = 0;
        for t in g.th.iter_mut() {
            if k == n {
                break;
            }
            if let Status::Blocked { addr: a, .. } = t.status {
                if a == addr {
                    t.status = Status::Runnable;
                    k += 1;
                }
            }
        }
        k
    }
}

/// Scheduling point before a synchronisation operation.
pub fn point() {
    if let Some((e, me)) = ctx() {
        e.point(me, false);
    }
}
/// Scheduling point in a waiting loop. Returns false when the thread is not controlled.
pub fn yield_point() -> bool {
    if let Some((e, me)) = ctx() {
        e.point(me, true);
        true
    } else {
        false
    }
}
/// Blocks until `wake(addr)`; returns true if the wait timed out. Only for controlled threads.
pub fn block(addr: usize, timed: bool) -> bool {
    match ctx() {
        Some((e, me)) => e.block(me, addr, timed),
        None => {
            std::thread::yield_now();
            false
        },
    }
}
pub fn wake_all(addr: usize) {
    if let Ok(Some((e, _))) = CTX.try_with(|c| c.borrow().clone()) {
        e.wake(addr, usize::MAX);
    }
}
pub fn wake_n(addr: usize, n: usize) -> usize {
    if let Ok(Some((e, _))) = CTX.try_with(|c| c.borrow().clone()) {
        return e.wake(addr, n);
    }
    0
}
/// Marks the calling thread as waiting for exclusive access (0 = none).
pub fn want_excl(addr: usize) {
    if let Some((e, me)) = ctx() {
        e.st.lock().unwrap().th[me].want_excl = addr;
    }
}
/// Does another controlled thread wait for exclusive access at `addr`?
pub fn other_wants_excl(addr: usize) -> bool {
    if let Some((e, me)) = ctx() {
        let g = e.st.lock().unwrap();
        return g.th.iter().enumerate().any(|(i, t)| i != me && t.want_excl == addr);
    }
    false
}
/// Appends to the execution's event log (a history the oracle reads afterwards).
pub fn event(s: String) {
    if let Ok(Some((e, _))) = CTX.try_with(|c| c.borrow().clone()) {
        e.st.lock().unwrap().log.push(s);
    }
}
/// Index of the calling thread in the current execution.
pub fn tid() -> usize {
    CTX.with(|c| c.borrow().as_ref().map_or(usize::MAX, |x| x.1))
}

// ---------------------------------------------------------------- virtual clock

/// Switches the calling thread to a virtual clock starting at `t` microseconds.
pub fn set_clock(t: Option<u64>) {
    CLOCK.with(|c| c.set(t));
}
pub fn clock() -> Option<u64> {
    CLOCK.with(|c| c.get())
}
static SHARED_CLOCK: AtomicU64 = AtomicU64::new(1_000_000);
/// Current virtual time (each reading is later than the one before unless frozen), if there is one.
pub fn virtual_now() -> Option<u64> {
    if let Some(t) = CLOCK.with(|c| c.get()) {
        CLOCK.with(|c| c.set(Some(t + FREEZE.with(|f| if f.get() { 0 } else { 1 }))));
        return Some(t);
    }
    if CTX.try_with(|c| c.borrow().is_some()).unwrap_or(false) {
        return Some(SHARED_CLOCK.fetch_add(1, Ordering::SeqCst));
    }
    None
}
thread_local! { static FREEZE: Cell<bool> = const { Cell::new(false) }; }
pub fn freeze_clock(f: bool) {
    FREEZE.with(|x| x.set(f));
}

// ---------------------------------------------------------------- threads created by the code

static SUPPRESS_SPAWN: AtomicBool = AtomicBool::new(false);
/// While set, threads the code under test creates never start (their work is an explicit step of the
/// harness instead).
pub fn suppress_spawn(s: bool) {
    SUPPRESS_SPAWN.store(s, Ordering::SeqCst);
}
pub fn spawn_suppressed() -> bool {
    SUPPRESS_SPAWN.load(Ordering::SeqCst)
}

/// A background thread of the code under test that runs one iteration of its loop per tick: its `sleep`
/// waits for the next tick.
struct Gate {
    st: Mutex<(u64, u64, bool, bool)>, // allowed, done, killed, exited
    cv: Condvar,
}
pub struct Killed;
thread_local! {
    static CAPTURE: RefCell<Option<Vec<Arc<Gate>>>> = const { RefCell::new(None) };
    static MYGATE: RefCell<Option<Arc<Gate>>> = const { RefCell::new(None) };
}
/// From here on, threads created by the calling thread become daemons.
pub fn capture_daemons() {
    CAPTURE.with(|c| *c.borrow_mut() = Some(Vec::new()));
}
pub fn capturing() -> bool {
    CAPTURE.with(|c| c.borrow().is_some())
}
impl Gate {
    fn pause(&self) {
        let mut g = self.st.lock().unwrap();
        while g.0 <= g.1 && !g.2 {
            g = self.cv.wait(g).unwrap();
        }
        if g.2 {
            drop(g);
            std::panic::resume_unwind(Box::new(Killed));
        }
    }
    fn done(&self, exit: bool) {
        let mut g = self.st.lock().unwrap();
        g.1 += 1;
        g.3 |= exit;
        self.cv.notify_all();
    }
}
pub fn spawn_daemon<F, T>(f: F) -> std::thread::JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let gate = Arc::new(Gate { st: Mutex::new((0, 0, false, false)), cv: Condvar::new() });
    CAPTURE.with(|c| c.borrow_mut().as_mut().unwrap().push(gate.clone()));
    std::thread::spawn(move || {
        MYGATE.with(|m| *m.borrow_mut() = Some(gate.clone()));
        struct Exit(Arc<Gate>);
        impl Drop for Exit {
            fn drop(&mut self) {
                self.0.done(true);
            }
        }
        let _e = Exit(gate.clone());
        gate.pause();
        f()
    })
}
/// `sleep` of a daemon: the iteration is over. Returns false when the thread is not a daemon.
pub fn daemon_sleep() -> bool {
    let Some(g) = MYGATE.with(|m| m.borrow().clone()) else { return false };
    g.done(false);
    g.pause();
    true
}
/// Lets every captured daemon run one iteration and waits for it.
pub fn tick_daemons() {
    let gs: Vec<Arc<Gate>> = CAPTURE.with(|c| c.borrow().clone().unwrap_or_default());
    for gate in gs {
        let mut g = gate.st.lock().unwrap();
        if g.3 {
            continue;
        }
        g.0 += 1;
        gate.cv.notify_all();
        let want = g.0;
        while g.1 < want && !g.3 {
            g = gate.cv.wait(g).unwrap();
        }
    }
}
/// Ends the captured daemons.
pub fn end_daemons() {
    for gate in CAPTURE.with(|c| c.borrow_mut().take()).unwrap_or_default() {
        let mut g = gate.st.lock().unwrap();
        g.2 = true;
        gate.cv.notify_all();
    }
}

// ---------------------------------------------------------------- exploration

pub type Body = Box<dyn FnOnce() + Send>;
pub struct RunInfo {
    pub panics: Vec<(usize, String)>,
    pub dead: Option<String>,
    pub log: Vec<String>,
    pub choices: Vec<u8>,
}
pub struct Scenario {
    pub threads: Vec<Body>,
    /// Judges the complete execution: Ok(outcome label) or Err(what is violated).
    pub finish: Box<dyn FnOnce(&RunInfo) -> Result<String, String>>,
}
#[derive(Clone, Debug)]
pub struct Options {
    pub preemptions: usize,
    pub horizon: usize,
    pub workers: usize,
    pub max_schedules: u64,
    pub stop_at: usize,
    pub deadline: Option<std::time::Instant>,
}
impl Default for Options {
    fn default() -> Self {
        Options { preemptions: 2, horizon: 20_000, workers: 8, max_schedules: u64::MAX, stop_at: 1, deadline: None }
    }
}
#[derive(Default, Debug, Clone)]
pub struct Report {
    pub schedules: u64,
    pub points: u64,
    /// nodes of the schedule tree (choice points not already counted for a shorter prefix)
    pub nodes: u64,
    pub max_points: usize,
    pub outcomes: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, Vec<u8>>,
    pub capped: bool,
    pub error: Option<String>,
}

struct Pool {
    jobs: Vec<std::sync::mpsc::Sender<Job>>,
}
struct Job {
    exec: Arc<Exec>,
    me: usize,
    body: Body,
}
fn worker(rx: std::sync::mpsc::Receiver<Job>) {
    while let Ok(Job { exec, me, body }) = rx.recv() {
        CTX.with(|c| *c.borrow_mut() = Some((exec.clone(), me)));
        {
            let mut g = exec.st.lock().unwrap();
            while g.cur != me || g.finished {
                g = exec.cvs[me].wait(g).unwrap();
            }
        }
        let r = catch_unwind(AssertUnwindSafe(body));
        let msg = r.err().map(|p| panic_text(&p));
        CTX.with(|c| *c.borrow_mut() = None);
        let mut g = exec.st.lock().unwrap();
        if let Some(m) = msg {
            g.panics.push((me, m));
        }
        g.th[me].status = Status::Done;
        if g.th.iter().all(|t| t.status == Status::Done) {
            g.finished = true;
            exec.done.notify_all();
        } else if exec.pick(&mut g, me, false) {
            exec.cvs[g.cur].notify_one();
        } else {
            let why = match &g.diverged {
                Some(d) => format!("DIVERGED {d}"),
                None => {
                    let w: Vec<String> = g
                        .th
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| matches!(t.status, Status::Blocked { .. }))
                        .map(|(i, _)| format!("t{i}"))
                        .collect();
                    format!("DEADLOCK of {}", w.join(","))
                },
            };
            exec.stop(&mut g, why);
        }
    }
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}
impl Pool {
    fn new(n: usize) -> Self {
        let jobs = (0..n)
            .map(|_| {
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || worker(rx))
                    .unwrap();
                tx
            })
            .collect();
        Pool { jobs }
    }
}

/// Runs one schedule given by `prefix` (then default choices).
fn run_one(pool: &mut Option<Pool>, sc: Scenario, prefix: &[u8], horizon: usize) -> (Vec<Point>, RunInfo, Result<String, String>, bool) {
    let n = sc.threads.len();
    let exec = Arc::new(Exec {
        st: Mutex::new(St {
            th: (0..n)
                .map(|_| Th { status: Status::Runnable, want_excl: 0, yielded: false, timed_out: false })
                .collect(),
            cur: usize::MAX,
            prefix: prefix.to_vec(),
            points: Vec::new(),
            finished: false,
            dead: None,
            diverged: None,
            horizon,
            steps: 0,
            max_steps: horizon * 20,
            panics: Vec::new(),
            log: Vec::new(),
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    });
    if pool.is_none() {
        *pool = Some(Pool::new(n));
    }
    for (i, body) in sc.threads.into_iter().enumerate() {
        pool.as_ref().unwrap().jobs[i]
            .send(Job { exec: exec.clone(), me: i, body })
            .unwrap();
    }
    let mut g = exec.st.lock().unwrap();
    let ok = exec.pick(&mut g, usize::MAX, false);
    if ok {
        exec.cvs[g.cur].notify_one();
    } else {
        g.finished = true;
        g.dead = Some("DIVERGED at start".into());
    }
    while !g.finished {
        let (g2, to) = exec.done.wait_timeout(g, std::time::Duration::from_secs(40)).unwrap();
        g = g2;
        if to.timed_out() && !g.finished {
            g.finished = true;
            g.dead = Some("HANG (a step did not return within 40 s)".into());
        }
    }
    let info = RunInfo {
        panics: std::mem::take(&mut g.panics),
        dead: g.dead.clone(),
        log: std::mem::take(&mut g.log),
        choices: g.points.iter().map(|p| p.chosen).collect(),
    };
    let pts = std::mem::take(&mut g.points);
    drop(g);
    let dirty = info.dead.is_some();
    if dirty {
        *pool = None; // its threads are parked for good
    }
    let verdict = (sc.finish)(&info);
    (pts, info, verdict, dirty)
}

/// Enumerates every schedule of `make()` within the preemption bound.
pub fn explore(opt: &Options, make: &(dyn Fn() -> Scenario + Sync)) -> Report {
    struct Shared {
        work: Vec<Vec<u8>>,
        busy: usize,
        rep: Report,
    }
    let sh = Mutex::new(Shared { work: vec![vec![]], busy: 0, rep: Report::default() });
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let count = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..opt.workers.max(1) {
            s.spawn(|| {
                let mut pool: Option<Pool> = None;
                loop {
                    let prefix = {
                        let mut g = sh.lock().unwrap();
                        loop {
                            if stop.load(Ordering::SeqCst) {
                                return;
                            }
                            if let Some(p) = g.work.pop() {
                                g.busy += 1;
                                break p;
                            }
                            if g.busy == 0 {
                                cv.notify_all();
                                return;
                            }
                            g = cv.wait(g).unwrap();
                        }
                    };
                    let sc = make();
                    let (pts, info, verdict, _) = run_one(&mut pool, sc, &prefix, opt.horizon);
                    count.fetch_add(1, Ordering::SeqCst);
                    let mut children = Vec::new();
                    let mut cost = 0;
                    for (i, p) in pts.iter().enumerate() {
                        if i >= prefix.len() {
                            let c = cost + usize::from(!p.free);
                            if c <= opt.preemptions {
                                for alt in 0..p.enabled.len() as u8 {
                                    if alt != p.chosen {
                                        let mut v: Vec<u8> = pts[..i].iter().map(|q| q.chosen).collect();
                                        v.push(alt);
                                        children.push(v);
                                    }
                                }
                            }
                        }
                        if !p.free && p.chosen != 0 {
                            cost += 1;
                        }
                    }
                    let mut g = sh.lock().unwrap();
                    g.busy -= 1;
                    g.rep.schedules += 1;
                    g.rep.points += pts.len() as u64;
                    g.rep.nodes += (pts.len() - prefix.len().min(pts.len())) as u64;
                    g.rep.max_points = g.rep.max_points.max(pts.len());
                    if let Some(d) = &info.dead {
                        if d.starts_with("DIVERGED") || d.starts_with("STUCK") {
                            g.rep.error = Some(d.clone());
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    match verdict {
                        Ok(o) => *g.rep.outcomes.entry(o).or_insert(0) += 1,
                        Err(m) => {
                            let better = g.rep.violations.get(&m).is_none_or(|old| old.len() > info.choices.len());
                            if better {
                                g.rep.violations.insert(m, info.choices.clone());
                            }
                            if g.rep.violations.len() >= opt.stop_at {
                                stop.store(true, Ordering::SeqCst);
                            }
                        },
                    }
                    children.reverse();
                    g.work.extend(children);
                    if g.rep.schedules >= opt.max_schedules || opt.deadline.is_some_and(|d| std::time::Instant::now() > d) {
                        g.rep.capped = true;
                        stop.store(true, Ordering::SeqCst);
                    }
                    drop(g);
                    cv.notify_all();
                }
            });
        }
    });
    sh.into_inner().unwrap().rep
}

/// Replays one schedule.
pub fn replay(make: &(dyn Fn() -> Scenario + Sync), choices: &[u8], horizon: usize) -> (RunInfo, Result<String, String>) {
    let mut pool = None;
    let (_, info, v, _) = run_one(&mut pool, make(), choices, horizon);
    (info, v)
}
