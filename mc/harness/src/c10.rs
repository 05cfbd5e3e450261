//! C10: the log. Every record comes back as it was written, log sequence numbers are consecutive, what is called
//! persistent is in the file and synced, and a log cut anywhere reads as the records that are wholly there.
use crate::c09::{schema, tuple, Life};
use crate::common::*;
use crate::disk;
use ferrite::common::config::INVALID_LSN;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::storage::disk::async_disk::config::{DiskManagerConfig, FsyncPolicy};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::value::Value;
use serde_json::json;
use std::sync::{Arc, Mutex};

/// Everything a record says.
type Seen = (u64, u64, u64, i32, Vec<Option<(RID, Option<Vec<Value>>)>>, Option<Vec<Value>>, Option<u64>, Option<u64>);
fn seen(r: &LogRecord) -> Seen {
    let vals = |t: Option<&Tuple>| t.map(|t| t.get_values().to_vec());
    let pair = |rid: Option<&RID>, t: Option<&Tuple>| rid.map(|r| (*r, vals(t)));
    (
        r.get_lsn(),
        r.get_txn_id(),
        r.get_prev_lsn(),
        r.get_log_record_type() as i32,
        vec![pair(r.get_insert_rid(), r.get_insert_tuple()), pair(r.get_delete_rid(), r.get_delete_tuple()), pair(r.get_update_rid(), r.get_update_tuple())],
        vals(r.get_original_tuple()),
        r.get_new_page_record(),
        r.get_page_id().copied(),
    )
}
const KINDS: [LogRecordType; 9] = [
    LogRecordType::Insert,
    LogRecordType::MarkDelete,
    LogRecordType::ApplyDelete,
    LogRecordType::RollbackDelete,
    LogRecordType::Update,
    LogRecordType::Begin,
    LogRecordType::Commit,
    LogRecordType::Abort,
    LogRecordType::NewPage,
];
fn record(kind: LogRecordType, txn: u64, prev: u64, rid: RID, a: &Tuple, b: &Tuple) -> LogRecord {
    match kind {
        LogRecordType::Begin | LogRecordType::Commit | LogRecordType::Abort => LogRecord::new_transaction_record(txn, prev, kind),
        LogRecordType::Update => LogRecord::new_update_record(txn, prev, kind, rid, Arc::new(a.clone()), Arc::new(b.clone())),
        LogRecordType::NewPage => LogRecord::new_page_record(txn, prev, kind, rid.get_page_id(), rid.get_page_id().wrapping_add(1)),
        _ => LogRecord::new_insert_delete_record(txn, prev, kind, rid, Arc::new(a.clone())),
    }
}
/// What the record should say, from what it was made of.
fn want(kind: LogRecordType, lsn: u64, txn: u64, prev: u64, rid: RID, a: &Tuple, b: &Tuple) -> Seen {
    let (va, vb) = (Some(a.get_values().to_vec()), Some(b.get_values().to_vec()));
    let mut s: Seen = (lsn, txn, prev, kind as i32, vec![None, None, None], None, None, None);
    match kind {
        LogRecordType::Begin | LogRecordType::Commit | LogRecordType::Abort => {},
        LogRecordType::Update => {
            s.4[2] = Some((rid, vb));
            s.5 = va;
        },
        LogRecordType::NewPage => {
            s.6 = Some(rid.get_page_id());
            s.7 = Some(rid.get_page_id().wrapping_add(1));
        },
        LogRecordType::Insert => s.4[0] = Some((rid, va)),
        _ => s.4[1] = Some((rid, va)),
    }
    s
}

/// Every kind of record with every combination of field values, encoded and decoded.
fn records(ctx: &'static Ctx) {
    let nums: &[u64] = ctx.pick(&[0, 1, 127, 128, u64::MAX - 1, u64::MAX], &[0, 1, 127, 128, 16383, 16384, (1 << 31) - 1, 1 << 31, 1 << 32, u64::MAX - 1, u64::MAX]);
    let rids = [RID::new(0, 0), RID::new(300, 70_000), RID::new(u64::MAX, u32::MAX)];
    let tuples: Vec<Tuple> = [0usize, 1, 100, 3000].iter().map(|n| tuple(*n as i32 - 1, *n, RID::new(1, 1))).chain([Tuple::new(&[Value::new(i32::MIN), Value::new("ü\0\u{1F980}")], &schema(), RID::new(0, 2))]).collect();
    let (mut n, mut distinct) = (0u64, std::collections::HashSet::new());
    for kind in KINDS {
        for &txn in nums {
            for &prev in nums {
                for &lsn in nums {
                    for rid in rids {
                        for a in &tuples {
                            for b in &tuples[..if kind == LogRecordType::Update { tuples.len() } else { 1 }] {
                                let r = record(kind, txn, prev, rid, a, b);
                                r.set_lsn(lsn);
                                n += 1;
                                let res: Result<u64, String> = guard(|| {
                                    let bytes = r.to_bytes().map_err(|e| e.to_string())?;
                                    let head = i32::from_le_bytes(bytes[..4].try_into().unwrap());
                                    if head as usize != bytes.len() {
                                        return Err(format!("the record says it has {head} bytes, but has {}", bytes.len()));
                                    }
                                    let back = LogRecord::from_bytes(&bytes).map_err(|e| format!("does not decode: {e}"))?;
                                    let w = want(kind, lsn, txn, prev, rid, a, b);
                                    if seen(&back) != w {
                                        return Err(format!("reads back as {:?}, written as {w:?}", seen(&back)));
                                    }
                                    if back.is_commit() != (kind == LogRecordType::Commit) {
                                        return Err("is_commit is wrong".into());
                                    }
                                    Ok(hash(&bytes))
                                })
                                .and_then(|r| r);
                                match res {
                                    Ok(h) => {
                                        distinct.insert(h);
                                    },
                                    Err(e) => return ctx.violation(&format!("{kind:?} record: {e}"), json!({"kind": format!("{kind:?}"), "txn": txn, "prev": prev, "lsn": lsn, "rid": format!("{rid:?}")})),
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.add(distinct.len() as u64, n, n);
    ctx.part(json!({"scenario": "every record encoded and decoded", "records": n, "distinct_encodings": distinct.len(), "capped": false}));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// transaction, kind, bytes of the row
    Log(usize, LogRecordType, usize),
    /// the log thread gets to run
    Rest,
    /// the n-th disk operation from now fails after some bytes; all later ones too?
    Fail(usize, usize, bool),
    /// somebody else appends this right before the n-th disk operation from now (unless that is for a commit,
    /// which keeps others out)
    Meanwhile(usize, LogRecordType),
    /// the manager is shut down
    Shut,
}
struct Sys {
    life: Life,
    watch: Arc<mcstd::fs_now::Watch>,
    ops: Arc<Vec<Op>>,
    txns: Vec<Transaction>,
    wrote: Arc<Mutex<Vec<Seen>>>,
    shut: bool,
    faults: bool,
    s: Scratch,
}
/// Runs something that blocks on the runtime from another thread, as the code expects, while this thread drives it.
fn apart<T: Send>(rt: &tokio::runtime::Runtime, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = s.spawn(f);
        while !h.is_finished() {
            rt.block_on(async { tokio::time::sleep(std::time::Duration::from_millis(1)).await });
        }
        h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
impl Sys {
    fn new(ops: Arc<Vec<Op>>) -> Sys {
        let s = Scratch::new("c10");
        let watch = Arc::new(mcstd::fs_now::Watch::default());
        mcstd::fs_now::watch(Some(watch.clone()));
        let config = DiskManagerConfig { fsync_policy: FsyncPolicy::OnFlush, ..disk::config() };
        let life = Life::with(&s, config);
        mcstd::fs_now::watch(None);
        let txns = (0..2).map(|i| Transaction::new(i, IsolationLevel::ReadCommitted)).collect();
        Sys { life, watch, ops, txns, wrote: Default::default(), shut: false, faults: false, s }
    }
    fn shut(&mut self) {
        if !self.shut {
            self.shut = true;
            let life = &self.life;
            apart(&life.rt, || life.log.write().shut_down());
        }
    }
    /// The records wholly in the file, where each ends, and how many were synced.
    fn whole(&self) -> Result<(usize, usize), String> {
        let b = std::fs::read(self.s.file("log")).unwrap_or_default();
        let synced = self.watch.synced(self.s.file("log")) as usize;
        let (mut at, mut n, mut safe) = (0usize, 0usize, 0usize);
        while at + 4 <= b.len() {
            let len = i32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            if len < 4 || at + len > b.len() {
                break;
            }
            let Ok(r) = LogRecord::from_bytes(&b[at..at + len]) else { break };
            if self.wrote.lock().unwrap().get(n) != Some(&seen(&r)) {
                if self.faults {
                    break;
                }
                return Err(format!("record {n} of the file is {:?}, appended as {:?}", seen(&r), self.wrote.lock().unwrap().get(n)));
            }
            at += len;
            n += 1;
            safe = if at <= synced { n } else { safe };
        }
        Ok((n, safe))
    }
    fn check(&self) -> Result<(usize, usize), String> {
        let (n, safe) = self.whole()?;
        let p = self.life.log.read().get_persistent_lsn();
        if p != INVALID_LSN && p >= safe as u64 {
            return Err(format!("LSN {p} is called persistent, but only {n} whole records are in the file and {safe} of them synced"));
        }
        let next = self.life.log.read().get_next_lsn();
        if next != self.wrote.lock().unwrap().len() as u64 {
            return Err(format!("the next LSN is {next} after {} records", self.wrote.lock().unwrap().len()));
        }
        Ok((n, safe))
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        mcstd::use_runtime(Some(self.life.rt.clone()));
        match self.ops[op] {
            Op::Log(t, kind, size) => {
                if self.shut {
                    return Ok(false);
                }
                let x = &self.txns[t];
                let (prev, lsn) = (x.get_prev_lsn(), self.wrote.lock().unwrap().len() as u64);
                let rid = RID::new(3, lsn as u32);
                let (a, b) = (tuple(lsn as i32, size, rid), tuple(-(lsn as i32) - 1, size / 2, rid));
                let prev = if kind == LogRecordType::Begin { INVALID_LSN } else { prev };
                self.wrote.lock().unwrap().push(want(kind, lsn, t as u64, prev, rid, &a, &b));
                let got = match kind {
                    LogRecordType::Begin => self.life.wal.write_begin_record(x),
                    LogRecordType::Commit => self.life.wal.write_commit_record(x),
                    LogRecordType::Abort => self.life.wal.write_abort_record(x),
                    LogRecordType::Update => self.life.wal.write_update_record(x, rid, a, b),
                    _ => self.life.log.write().append_log_record(Arc::new(record(kind, t as u64, prev, rid, &a, &b))),
                };
                if got != lsn {
                    return Err(format!("record {lsn} got the LSN {got}"));
                }
                x.set_prev_lsn(got);
                if kind == LogRecordType::Commit && !self.faults {
                    let (n, safe) = self.whole()?;
                    if safe <= lsn as usize {
                        return Err(format!("the commit with LSN {lsn} returned when {n} records were in the file and {safe} of them synced"));
                    }
                    let p = self.life.log.read().get_persistent_lsn();
                    if p == INVALID_LSN || p < lsn {
                        return Err(format!("the commit with LSN {lsn} returned when LSN {p} was persistent"));
                    }
                }
            },
            Op::Rest => {
                self.life.rt.block_on(async { tokio::time::sleep(std::time::Duration::from_millis(50)).await });
                if !self.faults && !self.shut {
                    let (n, safe) = self.check()?;
                    if safe != self.wrote.lock().unwrap().len() || n != safe {
                        return Err(format!("{n} of {} records are in the file ({safe} synced) 50 ms after the last one was appended", self.wrote.lock().unwrap().len()));
                    }
                }
            },
            Op::Fail(n, bytes, sticky) => {
                if self.faults {
                    return Ok(false);
                }
                self.faults = true;
                self.watch.fail(Some((self.watch.ops() + n, bytes, sticky)));
            },
            Op::Meanwhile(n, kind) => {
                let (log, wrote) = (self.life.log.clone(), self.wrote.clone());
                self.watch.meanwhile(self.watch.ops() + n, move || {
                    let Some(mut log) = log.try_write() else { return };
                    let mut wrote = wrote.lock().unwrap();
                    let rid = RID::new(9, wrote.len() as u32);
                    let t = tuple(1, 3, rid);
                    let w = want(kind, wrote.len() as u64, 7, INVALID_LSN, rid, &t, &t);
                    wrote.push(w);
                    log.append_log_record(Arc::new(record(kind, 7, INVALID_LSN, rid, &t, &t)));
                });
            },
            Op::Shut => {
                if self.shut {
                    return Ok(false);
                }
                self.shut();
                let (n, safe) = self.check()?;
                if !self.faults && (n != self.wrote.lock().unwrap().len() || safe != n) {
                    return Err(format!("{n} of {} records are in the file ({safe} synced) after the log was shut down", self.wrote.lock().unwrap().len()));
                }
            },
        }
        self.check()?;
        Ok(true)
    }
    fn end(&mut self) -> Result<(), String> {
        mcstd::use_runtime(Some(self.life.rt.clone()));
        self.shut();
        let (n, safe) = self.check()?;
        if self.watch.failed() > 0 {
            return Ok(());
        }
        if n != self.wrote.lock().unwrap().len() || safe != n {
            return Err(format!("{n} of {} records are in the file ({safe} synced) after the log was shut down", self.wrote.lock().unwrap().len()));
        }
        let all = self.wrote.lock().unwrap().clone();
        // read back: all of them, each alone, and from each on
        let disk = self.life.disk.clone();
        let mut at = vec![0u64];
        let mut it = LogIterator::new(disk.clone());
        for (i, w) in all.iter().enumerate() {
            match mcstd::drive(it.next()) {
                Some(r) if seen(&r) == *w => at.push(it.get_offset()),
                r => return Err(format!("the iterator reads record {i} as {:?}, appended as {w:?}", r.as_ref().map(seen))),
            }
        }
        if mcstd::drive(it.next()).is_some() || !it.is_end() {
            return Err("the iterator does not end after the last record".into());
        }
        it.reset();
        if mcstd::drive(it.collect()).iter().map(seen).collect::<Vec<_>>() != all {
            return Err("the iterator reads something else after reset".into());
        }
        for (i, w) in all.iter().enumerate() {
            match mcstd::drive(self.life.log.read().read_log_record_async(at[i])) {
                Some(r) if seen(&r) == *w => {},
                r => return Err(format!("reading record {i} (at {}) gives {:?}, appended as {w:?}", at[i], r.as_ref().map(seen))),
            }
            it.set_offset(at[i]);
            let mut from = LogIterator::with_offset(disk.clone(), at[i]);
            for mut r in [mcstd::drive(it.collect()), mcstd::drive(from.collect())] {
                if r.drain(..).map(|r| seen(&r)).collect::<Vec<_>>() != all[i..] {
                    return Err(format!("the iterator started at record {i} reads something else"));
                }
            }
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash(&(self.wrote.lock().unwrap().iter().map(|w| (w.1, w.3)).collect::<Vec<_>>(), self.shut, self.faults, self.watch.ops()))
    }
}
impl Drop for Sys {
    fn drop(&mut self) {
        mcstd::use_runtime(None);
    }
}

/// Every log of up to n records of every kind, cut after every byte.
fn cuts(ctx: &'static Ctx) {
    let parts: Vec<(LogRecordType, usize)> = vec![(LogRecordType::Begin, 0), (LogRecordType::Commit, 0), (LogRecordType::NewPage, 0), (LogRecordType::Insert, 5), (LogRecordType::Update, 70), (LogRecordType::ApplyDelete, 0)];
    let depth = ctx.pick(2, 3);
    let mut logs = vec![vec![]];
    for d in 1..=depth {
        for w in 0..parts.len().pow(d as u32) {
            logs.push(word(w as u64, parts.len(), d));
        }
    }
    // and one with records longer than a page
    let long = vec![(LogRecordType::Begin, 0), (LogRecordType::Insert, 5000), (LogRecordType::Commit, 0)];
    let stride = |len: usize| if len > 4000 { ctx.pick(97, 1) } else { 1 };
    let all: Vec<Vec<(LogRecordType, usize)>> = logs.into_iter().map(|l: Vec<usize>| l.into_iter().map(|i| parts[i]).collect()).chain([long]).collect();
    let deadline = ctx.deadline(45, 700);
    let n = std::sync::atomic::AtomicU64::new(0);
    let capped = std::sync::atomic::AtomicBool::new(false);
    let bad = std::sync::atomic::AtomicBool::new(false);
    let count = all.len();
    par(count, |i| {
        if bad.load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        if std::time::Instant::now() > deadline {
            capped.store(true, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        let log = &all[i];
        let mut bytes = vec![];
        let (mut wrote, mut ends) = (vec![], vec![0usize]);
        for (lsn, (kind, size)) in log.iter().enumerate() {
            let rid = RID::new(lsn as u64, 300);
            let (a, b) = (tuple(lsn as i32, *size, rid), tuple(7, size / 2, rid));
            let r = record(*kind, 5, lsn as u64, rid, &a, &b);
            r.set_lsn(lsn as u64);
            wrote.push(seen(&r));
            bytes.extend(r.to_bytes().unwrap());
            ends.push(bytes.len());
        }
        let s = Scratch::new("c10");
        for cut in (0..=bytes.len()).rev().filter(|c| c % stride(bytes.len()) == 0 || ends.contains(c)) {
            std::fs::write(s.file("log"), &bytes[..cut]).unwrap();
            n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let rt = disk::new_runtime();
            mcstd::use_runtime(Some(rt.clone()));
            let res: Result<(), String> = guard(|| {
                let d = Arc::new(rt.block_on(ferrite::storage::disk::async_disk::AsyncDiskManager::new(s.file("db"), s.file("log"), disk::config())).map_err(|e| e.to_string())?);
                let whole = ends.iter().filter(|e| **e <= cut).count() - 1;
                for start in 0..=whole {
                    let mut it = LogIterator::with_offset(d.clone(), ends[start] as u64);
                    let got = rt.block_on(it.collect());
                    if got.iter().map(seen).collect::<Vec<_>>() != wrote[start..whole] {
                        return Err(format!("cut after {cut} of {} bytes, records {start} to {whole} are there, but the iterator reads {} of them", bytes.len(), got.len()));
                    }
                    if it.get_offset() != ends[whole] as u64 {
                        return Err(format!("cut after {cut} bytes, the whole records end at {}, but the iterator says {}", ends[whole], it.get_offset()));
                    }
                }
                Ok(())
            })
            .and_then(|r| r);
            mcstd::use_runtime(None);
            if let Err(e) = res {
                bad.store(true, std::sync::atomic::Ordering::Relaxed);
                return ctx.violation(&format!("log {log:?}: {e}"), json!({"log": format!("{log:?}"), "cut": cut}));
            }
        }
    });
    let n = n.into_inner();
    if capped.into_inner() {
        ctx.capped();
    }
    ctx.add(n, n, n);
    ctx.part(json!({"scenario": "logs cut after every byte", "logs": count, "cuts": n, "capped": false}));
}

pub fn run(ctx: &'static Ctx) {
    use LogRecordType as T;
    use Op::*;
    records(ctx);
    cuts(ctx);
    let cases: Vec<(&str, Vec<Op>, usize, usize)> = vec![
        ("two transactions", vec![Log(0, T::Update, 10), Log(0, T::Commit, 0), Log(1, T::Insert, 3000), Log(1, T::Commit, 0), Log(1, T::Abort, 0), Rest, Shut], 5, 7),
        ("every kind of record", vec![Log(0, T::Insert, 0), Log(0, T::MarkDelete, 20), Log(0, T::ApplyDelete, 1), Log(0, T::RollbackDelete, 1), Log(0, T::NewPage, 0), Log(0, T::Update, 1500), Log(0, T::Commit, 0), Rest], 4, 5),
        ("appends while the log is written", vec![Log(0, T::Update, 10), Log(0, T::Commit, 0), Log(1, T::Insert, 100), Rest, Shut, Meanwhile(0, T::Insert), Meanwhile(1, T::Begin), Fail(0, 0, false), Fail(0, 5, false), Fail(1, 2, false)], 4, 5),
        ("a disk operation fails", vec![Log(0, T::Update, 10), Log(0, T::Commit, 0), Log(1, T::Insert, 100), Rest, Shut, Fail(0, 0, false), Fail(0, 5, false), Fail(1, 0, false), Fail(2, 3, false), Fail(0, 0, true), Fail(1, 7, true)], 4, 5),
    ];
    let n = cases.len() as u64;
    for (i, (name, ops, quick, thorough)) in cases.into_iter().enumerate() {
        let ops = Arc::new(ops);
        let o2 = ops.clone();
        let depth = ctx.pick(quick, thorough);
        let deadline = ctx.deadline(15 * (i as u64 + 1), 800 / n * (i as u64 + 1));
        sequences(ctx, name, ops.len(), depth, deadline, move |o| format!("{:?}", o2[o]), &|| Sys::new(ops.clone()));
    }
}
