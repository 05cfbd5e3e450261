//! C16: I/O queues, operation tracking and the log file.
use crate::common::*;
use crate::disk;
use ferrite::storage::disk::async_disk::config::IOPriority;
use ferrite::storage::disk::async_disk::io::completion::CompletionTracker;
use ferrite::storage::disk::async_disk::io::operation_status::OperationResult;
use ferrite::storage::disk::async_disk::io::operations::IOOperationType;
use ferrite::storage::disk::async_disk::io::queue::IOQueueManager;
use ferrite::storage::disk::async_disk::io::AsyncIOEngine;
use ferrite::storage::disk::async_disk::scheduler::{IOTask, IOTaskType, PriorityTaskScheduler, WorkStealingScheduler};
use ferrite::storage::disk::direct_io::DirectIOConfig;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

fn tick() {
    let t = Instant::now();
    while Instant::now() <= t {}
}
fn poll<T>(f: &mut Pin<Box<dyn Future<Output = T>>>) -> Poll<T> {
    let rt = disk::runtime();
    let _g = rt.enter();
    f.as_mut().poll(&mut Context::from_waker(Waker::noop()))
}
// ---- priority queue of operations
struct Queue {
    q: IOQueueManager,
    want: Vec<(u8, u64)>,
    n: u64,
}
const PRIOS: [u8; 4] = [0, 5, 9, 255];
impl Queue {
    fn pop(&mut self) -> Option<(u8, u64)> {
        let i = (0..self.want.len()).min_by_key(|&i| (255 - self.want[i].0, self.want[i].1))?;
        Some(self.want.remove(i))
    }
}
impl System for Queue {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        match op {
            0..=3 => {
                self.n += 1;
                tick();
                // ids run against the order of submission, so that they cannot stand in for it
                let id = 1000 - self.n;
                disk::block_on(self.q.enqueue_operation(IOOperationType::ReadPage { page_id: self.n }, PRIOS[op], id));
                self.want.push((PRIOS[op], self.n));
            },
            4 => {
                let got = disk::block_on(self.q.dequeue_operation());
                let g = got.as_ref().map(|o| (o.priority, 1000 - o.id));
                let w = self.pop();
                if g != w {
                    return Err(format!("dequeued {g:?} (priority, arrival); {w:?} was due"));
                }
                if let (Some(o), Some((_, n))) = (got, w) {
                    if !matches!(o.operation_type, IOOperationType::ReadPage { page_id } if page_id == n) {
                        return Err(format!("the operation of id {} came out as {:?}", o.id, o.operation_type));
                    }
                }
            },
            _ => {
                let got: Vec<_> = disk::block_on(self.q.drain_queue()).iter().map(|o| (o.priority, 1000 - o.id)).collect();
                let mut want = vec![];
                while let Some(x) = self.pop() {
                    want.push(x);
                }
                if got != want {
                    return Err(format!("draining gave {got:?}; {want:?} is right"));
                }
            },
        }
        let (n, e, p) = (disk::block_on(self.q.queue_size()), disk::block_on(self.q.is_empty()), disk::block_on(self.q.peek_highest_priority()));
        if (n, e, p) != (self.want.len(), self.want.is_empty(), self.want.iter().map(|w| w.0).max()) {
            return Err(format!("size {n}, empty {e}, highest priority {p:?} with {:?} queued", self.want));
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.want.iter().map(|w| w.0).collect::<Vec<_>>())
    }
    fn end(&mut self) -> Result<(), String> {
        while !self.want.is_empty() {
            self.step(4)?;
        }
        self.step(4).map(|_| ())
    }
}
// ---- the two task schedulers
fn task(p: IOPriority, n: u64) -> IOTask {
    IOTask { task_type: IOTaskType::Read(n), priority: p, creation_time: Instant::now(), completion_callback: None }
}
fn number(t: &IOTask) -> u64 {
    match t.task_type {
        IOTaskType::Read(n) => n,
        _ => u64::MAX,
    }
}
struct Prio {
    s: Arc<PriorityTaskScheduler>,
    want: Vec<(u8, u64)>,
    n: u64,
    waiting: Option<Pin<Box<dyn Future<Output = IOTask>>>>,
}
impl Prio {
    fn pop(&mut self) -> Option<u64> {
        let i = (0..self.want.len()).min_by_key(|&i| self.want[i])?;
        Some(self.want.remove(i).1)
    }
}
impl System for Prio {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        match op {
            0..=3 => {
                self.n += 1;
                let (p, class) = [(IOPriority::Low, 2), (IOPriority::Normal, 1), (IOPriority::High, 0), (IOPriority::Critical, 0)][op].clone();
                disk::block_on(self.s.submit_task(task(p, self.n))).map_err(|_| "submit failed")?;
                self.want.push((class, self.n));
            },
            4 => {
                let got = self.s.get_next_task().map(|t| number(&t));
                let want = self.pop();
                if got != want {
                    return Err(format!("task {got:?} came next; {want:?} was due"));
                }
            },
            _ => {
                if self.waiting.is_some() {
                    return Ok(false);
                }
                let s = self.s.clone();
                self.waiting = Some(Box::pin(async move { s.next_task().await }));
            },
        }
        if let Some(f) = &mut self.waiting {
            match poll(f) {
                Poll::Ready(t) => {
                    self.waiting = None;
                    let want = self.pop();
                    if Some(number(&t)) != want {
                        return Err(format!("a waiting worker got task {}; {want:?} was due", number(&t)));
                    }
                },
                Poll::Pending if !self.want.is_empty() => return Err(format!("a waiting worker gets none of the tasks {:?}", self.want)),
                Poll::Pending => {},
            }
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(self.want.iter().map(|w| w.0).collect::<Vec<_>>(), self.waiting.is_some()))
    }
    fn end(&mut self) -> Result<(), String> {
        for _ in 0..=self.want.len() {
            self.step(4)?;
        }
        Ok(())
    }
}
struct Steal {
    s: WorkStealingScheduler,
    workers: usize,
    want: Vec<u64>,
    n: u64,
}
impl System for Steal {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let got = match op {
            0 | 1 => {
                self.n += 1;
                let t = task(IOPriority::Normal, self.n);
                let ok = if op == 0 { disk::block_on(self.s.submit_task(t)).is_ok() } else { self.s.try_submit_task(t).is_ok() };
                if !ok {
                    return Err("a task was refused".into());
                }
                self.want.push(self.n);
                return Ok(true);
            },
            _ if op - 2 < self.workers => {
                let w = op - 2;
                let mut rx = self.s.get_worker_receiver(w).try_lock().map_err(|_| "receiver locked")?;
                rx.try_recv().ok()
            },
            _ => {
                let w = op - 2 - self.workers;
                if w >= self.workers {
                    return Ok(false);
                }
                let got = self.s.try_steal_work(w);
                if got.is_none() {
                    // own queue aside, there must be nothing left
                    let mut own = vec![];
                    let mut rx = self.s.get_worker_receiver(w).try_lock().map_err(|_| "receiver locked")?;
                    while let Ok(t) = rx.try_recv() {
                        own.push(number(&t));
                    }
                    if own.len() != self.want.len() {
                        return Err(format!("worker {w} could steal nothing, but {:?} are queued and its own queue has {own:?}", self.want));
                    }
                    self.want.clear();
                }
                got
            },
        };
        if let Some(t) = got {
            let n = number(&t);
            let Some(i) = self.want.iter().position(|x| *x == n) else { return Err(format!("task {n} was handed out, but {:?} are queued", self.want)) };
            self.want.remove(i);
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(self.want.len(), self.n))
    }
    fn end(&mut self) -> Result<(), String> {
        let mut turns = 0;
        while !self.want.is_empty() {
            for w in 0..self.workers {
                self.step(2 + w)?;
            }
            turns += 1;
            if turns > 1000 {
                return Err(format!("tasks {:?} are never handed out", self.want));
            }
        }
        Ok(())
    }
}
// ---- completion tracking
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Pending,
    Ok(Vec<u8>),
    Failed(String),
    Cancelled(String),
}
fn fits(got: &Result<OperationResult, String>, want: &Out) -> bool {
    match (got, want) {
        (Ok(OperationResult::Success(d)), Out::Ok(w)) => d == w,
        (Ok(OperationResult::Error(e)), Out::Failed(w)) => e == w,
        (Ok(OperationResult::Error(e)), Out::Cancelled(w)) | (Err(e), Out::Cancelled(w)) => e.contains(w.as_str()),
        _ => false,
    }
}
type Rx = tokio::sync::oneshot::Receiver<OperationResult>;
struct Op1 {
    id: u64,
    rx: Option<Rx>,
    zero: bool,
    out: Out,
}
type Wait1 = Pin<Box<dyn Future<Output = Result<OperationResult, String>>>>;
type WaitAll = Pin<Box<dyn Future<Output = Result<Vec<(u64, OperationResult)>, String>>>>;
struct Track {
    t: Arc<CompletionTracker>,
    ops: Vec<Op1>,
    one: Vec<(usize, Wait1)>,
    all: Vec<(Vec<usize>, WaitAll)>,
    counts: [u64; 4],
    n: u64,
}
const OPS: usize = 3;
fn track_ops() -> Vec<String> {
    let mut v = vec!["start".to_string(), "start with a timeout of 0".into(), "cancel all".into(), "check timeouts".into(), "wait for all".into(), "1200 other operations".into()];
    for i in 0..OPS {
        for w in ["complete", "fail", "cancel", "wait for"] {
            v.push(format!("{w} {i}"));
        }
    }
    v
}
impl Track {
    fn new() -> Self {
        disk::renew();
        let t = disk::block_on(async {
            let t = CompletionTracker::new();
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
            t
        });
        Track { t: Arc::new(t), ops: vec![], one: vec![], all: vec![], counts: [0; 4], n: 0 }
    }
    fn settle(&mut self, i: usize, out: Out, got: Result<(), String>, what: &str) -> Result<(), String> {
        let pending = self.ops[i].out == Out::Pending;
        if got.is_ok() != pending {
            return Err(format!("{what} of operation {i} ({:?}) returned {got:?}", self.ops[i].out));
        }
        if pending {
            self.counts[match out {
                Out::Ok(_) => 1,
                Out::Failed(_) => 2,
                _ => 3,
            }] += 1;
            self.ops[i].out = out;
        }
        Ok(())
    }
    fn check(&mut self) -> Result<(), String> {
        let t = self.t.clone();
        for (i, o) in self.ops.iter_mut().enumerate() {
            let pend = o.out == Out::Pending;
            let (s, p) = (disk::block_on(t.get_operation_status(o.id)), disk::block_on(t.is_operation_pending(o.id)));
            let done = matches!(o.out, Out::Ok(_) | Out::Failed(_));
            if s != Some(done) || p != pend {
                return Err(format!("operation {i} is {:?}, but reports completed {s:?} and pending {p}", o.out));
            }
            if let Some(rx) = &mut o.rx {
                use tokio::sync::oneshot::error::TryRecvError::*;
                let ok = match (rx.try_recv(), &o.out) {
                    (Err(Empty), Out::Pending) => true,
                    (Err(Closed), Out::Cancelled(_)) => true,
                    (Ok(r), w) => fits(&Ok(r), w),
                    _ => false,
                };
                if !ok {
                    return Err(format!("the receiver of operation {i} does not say {:?}", o.out));
                }
                if !pend {
                    o.rx = None;
                }
            }
        }
        let mut i = 0;
        while i < self.one.len() {
            let (op, f) = &mut self.one[i];
            let want = &self.ops[*op].out;
            match poll(f) {
                Poll::Pending if *want == Out::Pending => i += 1,
                Poll::Ready(r) if *want != Out::Pending && fits(&r, want) => {
                    let _ = self.one.remove(i);
                },
                Poll::Pending => return Err(format!("operation {op} is {want:?}, but the one waiting for it is not told")),
                Poll::Ready(r) => return Err(format!("operation {op} is {want:?}, but the one waiting for it got {r:?}")),
            }
        }
        let mut i = 0;
        while i < self.all.len() {
            let (ops, f) = &mut self.all[i];
            let ready = ops.iter().all(|o| self.ops[*o].out != Out::Pending);
            match poll(f) {
                Poll::Pending if !ready => i += 1,
                Poll::Ready(Ok(mut r)) if ready => {
                    r.sort_by_key(|x| x.0);
                    let good = r.len() == ops.len() && r.iter().zip(ops.iter()).all(|((id, r), o)| *id == self.ops[*o].id && fits(&Ok(r.clone()), &self.ops[*o].out));
                    if !good {
                        return Err(format!("waiting for operations {ops:?} gave {r:?}"));
                    }
                    let _ = self.all.remove(i);
                },
                Poll::Pending => return Err(format!("operations {ops:?} are over, but the one waiting for all of them is not told")),
                Poll::Ready(r) => return Err(format!("the one waiting for operations {ops:?} got {r:?} (all over: {ready})")),
            }
        }
        let pend = self.ops.iter().filter(|o| o.out == Out::Pending).count();
        let m = t.metrics();
        let got = (disk::block_on(t.pending_operations_count()), m.pending_operations(), m.total_operations(), m.completed_operations(), m.cancelled_operations());
        let want = (pend, pend, self.counts[0], self.counts[1], self.counts[3]);
        if got != want {
            return Err(format!("(pending, pending by metrics, total, completed, cancelled) are {got:?} instead of {want:?}"));
        }
        if disk::block_on(t.tracked_operations_count()) as u64 != self.counts[0] {
            return Err("an operation is not tracked any more".into());
        }
        let st = disk::block_on(t.get_operation_stats());
        let want = (self.counts[0] as usize, pend, (self.counts[1] + self.counts[2]) as usize, self.counts[3] as usize);
        if (st.total_count, st.pending_count, st.completed_count, st.cancelled_count) != want {
            return Err(format!("statistics are {st:?} instead of {want:?}"));
        }
        Ok(())
    }
}
impl System for Track {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let t = self.t.clone();
        self.n += 1;
        match op {
            0 | 1 => {
                if self.ops.len() == OPS {
                    return Ok(false);
                }
                let (id, rx) = disk::block_on(t.start_operation(Some(if op == 1 { Duration::ZERO } else { Duration::from_secs(9999) })));
                if self.ops.iter().any(|o| o.id == id) {
                    return Err(format!("two operations have id {id}"));
                }
                tick();
                self.ops.push(Op1 { id, rx: Some(rx), zero: op == 1, out: Out::Pending });
                self.counts[0] += 1;
            },
            2 => {
                let why = format!("reason {}", self.n);
                let got = disk::block_on(t.cancel_all_pending(why.clone()));
                let mut want = 0;
                for i in 0..self.ops.len() {
                    if self.ops[i].out == Out::Pending {
                        self.settle(i, Out::Cancelled(why.clone()), Ok(()), "")?;
                        want += 1;
                    }
                }
                if got != want {
                    return Err(format!("cancelling all reports {got} operations instead of {want}"));
                }
            },
            3 => {
                let got = disk::block_on(t.check_timeouts());
                let mut want = 0;
                for i in 0..self.ops.len() {
                    if self.ops[i].out == Out::Pending && self.ops[i].zero {
                        self.settle(i, Out::Failed("Operation timed out".into()), Ok(()), "")?;
                        want += 1;
                    }
                }
                if got != want {
                    return Err(format!("{got} operations timed out instead of {want}"));
                }
            },
            4 => {
                if self.ops.is_empty() {
                    return Ok(false);
                }
                let ids: Vec<u64> = self.ops.iter().map(|o| o.id).collect();
                let t = t.clone();
                self.all.push(((0..ids.len()).collect(), Box::pin(async move { t.wait_for_operations(&ids, Duration::from_secs(9999)).await })));
            },
            5 => {
                // more events than the notification channel holds, while those who wait are not running
                if self.one.is_empty() && self.all.is_empty() {
                    return Ok(false);
                }
                disk::block_on(async {
                    for _ in 0..1200 {
                        let (id, _rx) = t.start_operation(None).await;
                        t.complete_operation(id, vec![]).await.unwrap();
                    }
                });
                self.counts[0] += 1200;
                self.counts[1] += 1200;
            },
            _ => {
                let i = (op - 6) / 4;
                if i >= self.ops.len() {
                    return Ok(false);
                }
                let id = self.ops[i].id;
                let word = format!("reason {}", self.n);
                match (op - 6) % 4 {
                    0 => {
                        let d = vec![self.n as u8; self.n as usize];
                        let r = disk::block_on(t.complete_operation(id, d.clone()));
                        self.settle(i, Out::Ok(d), r, "completion")?;
                    },
                    1 => {
                        let r = disk::block_on(t.fail_operation(id, word.clone()));
                        self.settle(i, Out::Failed(word), r, "failure")?;
                    },
                    2 => {
                        let r = disk::block_on(t.cancel_operation(id, word.clone()));
                        self.settle(i, Out::Cancelled(word), r, "cancellation")?;
                    },
                    _ => {
                        let t = t.clone();
                        self.one.push((i, Box::pin(async move { t.wait_for_operation(id, Duration::from_secs(9999)).await })));
                    },
                }
            },
        }
        self.check()?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(self.ops.iter().map(|o| (format!("{:?}", o.out).chars().next(), o.zero)).collect::<Vec<_>>(), self.one.len(), self.all.len()))
    }
}
// ---- the engine: log and page operations, alone and together
struct Engine {
    e: AsyncIOEngine,
    log: Vec<u8>,
    pages: [Option<u8>; 3],
    n: u8,
    running: bool,
    waiting: Vec<Pin<Box<dyn Future<Output = std::io::Result<()>>>>>,
    _s: Scratch,
}
const LENS: [usize; 3] = [1, 300, 5000];
fn engine_ops() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in LENS {
        v.push(format!("append {l} bytes"));
    }
    v.push("append 300 bytes directly".into());
    v.push("append nothing".into());
    v.push("overwrite 3 bytes in the middle of the log".into());
    v.push("write 10 bytes across the end of the log".into());
    for p in 0..3 {
        v.push(format!("write page {p}"));
    }
    v.push("several at once".into());
    v.push("sync both".into());
    v.push("stop and start".into());
    v
}
impl Engine {
    fn new(workers: usize) -> Self {
        disk::renew();
        let s = Scratch::new("c16");
        let e = disk::block_on(async {
            let open = |p: String| async move { mcstd::fs_now::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).await.unwrap() };
            let db = Arc::new(tokio::sync::Mutex::new(open(s.file("db")).await));
            let log = Arc::new(tokio::sync::Mutex::new(open(s.file("log")).await));
            let mut e = AsyncIOEngine::with_config(db, log, DirectIOConfig { enabled: false, ..Default::default() }).unwrap();
            e.start(workers);
            e
        });
        Engine { e, log: vec![], pages: [None; 3], n: 0, running: true, waiting: vec![], _s: s }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        self.n += 1;
        (0..n).map(|i| self.n.wrapping_mul(31).wrapping_add(i as u8)).collect()
    }
    fn check(&mut self) -> Result<(), String> {
        let (e, n) = (&self.e, self.log.len());
        let parts = [(0, n), (n / 2, n - n / 2), (n.saturating_sub(1), n.min(1)), (n / 3, n / 3), (0, 0)];
        for (at, len) in parts {
            let got = disk::block_on(e.read_log(at as u64, len)).map_err(|x| format!("reading {len} bytes of the log at {at}: {x}"))?;
            if got != self.log[at..at + len] {
                return Err(format!("the {len} log bytes at {at} are not the ones written"));
            }
        }
        if disk::block_on(e.read_log(n as u64, 1)).is_ok() || disk::block_on(e.read_log(n as u64 / 2, n + 1)).is_ok() {
            return Err("reading past the end of the log succeeded".into());
        }
        let top = self.pages.iter().rposition(|p| p.is_some()).map_or(0, |p| p + 1);
        if disk::block_on(e.get_db_file_size()).unwrap() != (top * 4096) as u64 {
            return Err("the database file has the wrong size".into());
        }
        for (p, w) in self.pages.iter().enumerate() {
            match (disk::block_on(e.read_page(p as u64)), w) {
                (Ok(d), Some(b)) if d.len() == 4096 && d.iter().all(|x| x == b) => {},
                (Ok(d), None) if p < top && d.iter().all(|x| *x == 0) => {},
                (Err(_), None) if p >= top => {},
                (r, w) => return Err(format!("page {p} (written with {w:?}) is read as {:?}", r.map(|d| d[0]))),
            }
        }
        let t = (disk::block_on(e.pending_operations_count()), disk::block_on(e.queue_size()));
        if t != (0, 0) {
            return Err(format!("(pending, queued) operations are {t:?} although all have ended"));
        }
        Ok(())
    }
}
impl System for Engine {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let x = |e: std::io::Error| format!("operation failed: {e}");
        match op {
            0..=4 => {
                let d = if op == 4 { vec![] } else { self.bytes(if op == 3 { 300 } else { LENS[op] }) };
                let at = if op == 3 { disk::block_on(self.e.append_log_direct(&d)) } else { disk::block_on(self.e.append_log(&d)) }.map_err(x)?;
                if at != self.log.len() as u64 {
                    return Err(format!("the append went to {at}, the log ended at {}", self.log.len()));
                }
                self.log.extend(d);
            },
            5 | 6 => {
                let (at, len) = if op == 5 { (self.log.len() / 2, 3) } else { (self.log.len().saturating_sub(4), 10) };
                if op == 5 && self.log.len() < 6 {
                    return Ok(false);
                }
                let d = self.bytes(len);
                disk::block_on(self.e.write_log(&d, at as u64)).map_err(x)?;
                self.log.truncate(self.log.len().max(at + len));
                if self.log.len() < at + len {
                    self.log.resize(at + len, 0);
                }
                self.log[at..at + len].copy_from_slice(&d);
            },
            7..=9 => {
                self.n += 1;
                disk::block_on(self.e.write_page(op as u64 - 7, &[self.n; 4096])).map_err(x)?;
                self.pages[op - 7] = Some(self.n);
            },
            10 => {
                // two pages, an append and reads of an old page in the queue at the same time
                self.n += 1;
                let (n, old) = (self.n, self.pages[2]);
                let d = self.bytes(77);
                let (e, p0, p1) = (&self.e, [n; 4096], [n ^ 255; 4096]);
                let (a, b, c, r) = disk::block_on(async { tokio::join!(e.write_page(0, &p0), e.append_log(&d), e.write_page(1, &p1), e.read_page(2)) });
                a.map_err(x)?;
                c.map_err(x)?;
                if b.map_err(x)? != self.log.len() as u64 {
                    return Err("an append among other operations went to the wrong place".into());
                }
                self.log.extend(d);
                self.pages[0] = Some(n);
                self.pages[1] = Some(n ^ 255);
                match (r, old) {
                    (Ok(d), Some(o)) if d.iter().all(|x| *x == o) => {},
                    (Err(_), None) => {},
                    // a page that was never written may be seen before or after the file grew, but it is the last one
                    (r, o) => return Err(format!("page 2 ({o:?}) is read as {:?} among other operations", r.map(|d| d[0]))),
                }
                if disk::block_on(self.e.write_page(0, &[0; 17])).is_ok() {
                    return Err("a page of 17 bytes was written".into());
                }
            },
            11 => {
                disk::block_on(self.e.sync()).map_err(x)?;
                disk::block_on(self.e.sync_log()).map_err(x)?;
                disk::block_on(self.e.sync_log_direct()).map_err(x)?;
            },
            _ => {
                disk::block_on(self.e.stop());
                let rt = disk::runtime();
                let _g = rt.enter();
                self.e.start(2);
            },
        }
        self.check()?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(self.log.len(), self.pages.map(|p| p.is_some())))
    }
}
/// Requests queued while no worker runs: clearing or cancelling ends each of them, the rest is served later.
struct Stopped(Engine);
impl Stopped {
    fn ask(&mut self, i: u64) {
        // the engine outlives the request: both live in this structure, and requests are dropped first
        let e: &'static AsyncIOEngine = unsafe { &*(&self.0.e as *const AsyncIOEngine) };
        let mut f: Pin<Box<dyn Future<Output = std::io::Result<()>>>> = Box::pin(async move { e.write_page(i, &[7; 4096]).await });
        assert!(poll(&mut f).is_pending());
        self.0.waiting.push(f);
    }
}
impl Drop for Stopped {
    fn drop(&mut self) {
        self.0.waiting.clear();
    }
}
impl System for Stopped {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let n = self.0.waiting.len();
        let mut ended = None;
        match op {
            0 => {
                if self.0.running {
                    return Ok(false);
                }
                self.ask(n as u64)
            },
            1 | 2 => {
                let e = &self.0.e;
                let got = disk::block_on(async { if op == 1 { e.clear_queue().await } else { e.cancel_all_pending_operations("no").await } });
                if got != n {
                    return Err(format!("{got} of {n} requests were cancelled"));
                }
                ended = Some(false);
            },
            _ => {
                if self.0.running {
                    disk::block_on(self.0.e.stop());
                    self.0.running = false;
                } else {
                    let rt = disk::runtime();
                    {
                        let _g = rt.enter();
                        self.0.e.start(2);
                    }
                    self.0.running = true;
                    ended = Some(true);
                }
            },
        }
        if let Some(ok) = ended {
            for (i, f) in std::mem::take(&mut self.0.waiting).into_iter().enumerate() {
                let r = disk::block_on(async { tokio::time::timeout(Duration::from_secs(20), f).await }).map_err(|_| format!("request {i} never ends"))?;
                if r.is_ok() != ok {
                    return Err(format!("request {i} ended with {r:?}"));
                }
            }
        }
        let c = (disk::block_on(self.0.e.pending_operations_count()), disk::block_on(self.0.e.queue_size()));
        let w = self.0.waiting.len();
        if c != (w, w) {
            return Err(format!("(pending, queued) operations are {c:?} with {w} waiting"));
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(self.0.waiting.len(), self.0.running))
    }
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(55, 800);
    let s = |v: &'static [&'static str]| move |i: usize| v[i].to_string();
    let d = ctx.pick(7, 8);
    sequences(ctx, "operation queue", 6, d, dl, s(&["enqueue at 0", "enqueue at 5", "enqueue at 9", "enqueue at 255", "dequeue", "drain"]), &|| Queue { q: IOQueueManager::new(), want: vec![], n: 0 });
    sequences(ctx, "priority scheduler", 6, d, dl, s(&["submit low", "submit normal", "submit high", "submit critical", "next task", "worker waits"]), &|| Prio {
        s: Arc::new(PriorityTaskScheduler::new()),
        want: vec![],
        n: 0,
        waiting: None,
    });
    for workers in 1..=3usize {
        let d = ctx.pick([8, 7, 6], [10, 9, 8])[workers - 1];
        sequences(ctx, &format!("work stealing, {workers} workers"), 2 + 2 * workers, d, dl, move |i| if i == 0 { "submit".into() } else if i == 1 { "try to submit".into() } else if i < 2 + workers { format!("worker {} takes", i - 2) } else { format!("worker {} steals", i - 2 - workers) }, &|| Steal { s: WorkStealingScheduler::new(workers), workers, want: vec![], n: 0 });
    }
    let names = track_ops();
    let n2 = names.clone();
    sequences(ctx, "operation tracking", names.len(), ctx.pick(5, 6), dl, move |i| n2[i].clone(), &Track::new);
    for workers in [1usize, 3] {
        let names = engine_ops();
        let n = names.len();
        sequences(ctx, &format!("log and page I/O, {workers} workers"), n, ctx.pick(3, 4), dl, move |i| names[i].clone(), &|| Engine::new(workers));
    }
    sequences(ctx, "requests while stopped", 4, ctx.pick(7, 9), dl, s(&["request", "clear the queue", "cancel all", "stop or start"]), &|| Stopped(Engine::new(1)));
}
