//! C09: crash recovery of table pages from the log, at every point of every history.
use crate::common::*;
use crate::disk;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::INVALID_LSN;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use std::sync::Arc;

pub fn schema() -> Schema {
    Schema::new(vec![Column::new("id", TypeId::Integer), Column::new("text", TypeId::VarChar)])
}
pub fn tuple(v: i32, len: usize, rid: RID) -> Tuple {
    Tuple::new(&[Value::new(v), Value::new("x".repeat(len))], &schema(), rid)
}
/// One life of the database: everything that is lost in a crash.
pub struct Life {
    pub rt: Arc<tokio::runtime::Runtime>,
    pub disk: Arc<AsyncDiskManager>,
    pub bpm: Arc<BufferPoolManager>,
    pub log: Arc<RwLock<LogManager>>,
    pub wal: WALManager,
}
impl Life {
    pub fn new(s: &Scratch) -> Life {
        Self::with(s, disk::config())
    }
    pub fn with(s: &Scratch, config: ferrite::storage::disk::async_disk::DiskManagerConfig) -> Life {
        let rt = disk::new_runtime();
        mcstd::use_runtime(Some(rt.clone()));
        let disk = Arc::new(rt.block_on(AsyncDiskManager::new(s.file("db"), s.file("log"), config)).expect("open the database files"));
        let log = rt.block_on(async { Arc::new(RwLock::new(LogManager::new(disk.clone()))) });
        log.write().run_flush_thread();
        let bpm = Arc::new(BufferPoolManager::new(8, disk.clone(), Arc::new(RwLock::new(LRUKReplacer::new(8, 2)))).unwrap());
        Life { rt, wal: WALManager::new(log.clone()), disk, bpm, log }
    }
    /// Waits until the log thread has written everything appended so far.
    pub fn drain(&self) {
        let next = self.log.read().get_next_lsn();
        for _ in 0..2000 {
            let p = self.log.read().get_persistent_lsn();
            if next == 0 || p != INVALID_LSN && p + 1 >= next {
                return;
            }
            self.rt.block_on(async { tokio::time::sleep(std::time::Duration::from_millis(1)).await });
        }
    }
    pub fn recover(&self) -> Result<(), String> {
        let r = LogRecoveryManager::new(self.disk.clone(), self.log.clone(), self.bpm.clone());
        mcstd::drive(r.start_recovery())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// transaction slot, page
    Ins(usize, usize),
    /// transaction slot, row, long?
    Upd(usize, usize, bool),
    /// transaction slot, row, logged as a delete that is applied at once?
    Del(usize, usize, bool),
    Commit(usize),
    Abort(usize),
    /// write one page to the file
    Flush(usize),
    /// everything logged is in the log file
    Crash,
    /// the last record is lost / only its first bytes are there (if nothing promised that it is durable)
    Torn(usize),
}
#[derive(Clone)]
struct Row {
    rid: RID,
    page: usize,
    committed: Option<(i32, usize)>,
    cur: Option<(i32, usize)>,
    writer: Option<usize>,
}
struct Sys {
    life: Option<Life>,
    ops: Arc<Vec<Op>>,
    rows: Vec<Row>,
    txns: Vec<Option<Transaction>>,
    next_txn: u64,
    next_val: i32,
    pages: usize,
    /// length of the log file that is promised to be durable
    durable: u64,
    crashes: u32,
    s: Scratch,
}
const SIZES: [usize; 2] = [4, 40];
impl Sys {
    fn new(ops: Arc<Vec<Op>>, pages: usize, rows: usize, on_disk: bool) -> Sys {
        let s = Scratch::new("c09");
        let life = Life::new(&s);
        let mut x = Sys { life: Some(life), ops, rows: vec![], txns: vec![None, None], next_txn: 0, next_val: 0, pages, durable: 0, crashes: 0, s };
        // a first transaction creates the pages and rows
        x.begin(0);
        for p in 0..pages {
            let g = x.l().bpm.new_page::<TablePage>().expect("page");
            assert_eq!(g.get_page_id(), p as u64);
            let id = x.txns[0].as_ref().unwrap();
            let rec = LogRecord::new_page_record(id.get_transaction_id(), id.get_prev_lsn(), LogRecordType::NewPage, if p == 0 { u64::MAX } else { p as u64 - 1 }, p as u64);
            x.log(0, rec);
        }
        for r in 0..rows {
            x.insert(0, r % pages).expect("setup");
        }
        if on_disk {
            x.end_txn(0, true).expect("setup");
            x.life.as_ref().unwrap().rt.block_on(x.l().bpm.flush_all_pages_durable()).expect("flush");
        } else {
            x.end_txn(0, true).expect("setup");
        }
        x
    }
    fn l(&self) -> &Life {
        self.life.as_ref().unwrap()
    }
    fn log_len(&self) -> u64 {
        std::fs::metadata(self.s.file("log")).map_or(0, |m| m.len())
    }
    fn log(&self, t: usize, r: LogRecord) {
        let lsn = self.l().log.write().append_log_record(Arc::new(r));
        self.txns[t].as_ref().unwrap().set_prev_lsn(lsn);
    }
    fn begin(&mut self, t: usize) {
        if self.txns[t].is_none() {
            let x = Transaction::new(self.next_txn, IsolationLevel::ReadCommitted);
            self.next_txn += 1;
            let lsn = self.l().wal.write_begin_record(&x);
            x.set_prev_lsn(lsn);
            self.txns[t] = Some(x);
        }
    }
    fn meta(&self, t: usize) -> TupleMeta {
        TupleMeta::new(self.txns[t].as_ref().unwrap().get_transaction_id())
    }
    fn insert(&mut self, t: usize, p: usize) -> Result<(), String> {
        self.begin(t);
        let v = self.next_val;
        self.next_val += 1;
        let meta = self.meta(t);
        let g = self.l().bpm.fetch_page::<TablePage>(p as u64).ok_or_else(|| format!("page {p} cannot be read"))?;
        let mut page = g.write();
        let tup = tuple(v, SIZES[0], page.get_next_rid());
        let rid = page.insert_tuple(&meta, &tup).ok_or("no room for a row")?;
        drop(page);
        let x = self.txns[t].as_ref().unwrap();
        self.log(t, LogRecord::new_insert_delete_record(x.get_transaction_id(), x.get_prev_lsn(), LogRecordType::Insert, rid, Arc::new(tup)));
        self.rows.push(Row { rid, page: p, committed: None, cur: Some((v, SIZES[0])), writer: Some(t) });
        Ok(())
    }
    /// Changes the row on its page; None: a delete.
    fn apply(&self, meta: TupleMeta, rid: RID, new: Option<(i32, usize)>) -> Result<(Tuple, Tuple), String> {
        let g = self.l().bpm.fetch_page::<TablePage>(rid.get_page_id()).ok_or_else(|| format!("page {} cannot be read", rid.get_page_id()))?;
        let mut page = g.write();
        let (_, old) = page.get_tuple(&rid, true)?;
        let mut meta = meta;
        let tup = match new {
            Some((v, n)) => tuple(v, n, rid),
            None => {
                meta.set_deleted(true);
                old.clone()
            },
        };
        page.update_tuple(meta, &tup, rid).map_err(|e| e.to_string())?;
        Ok((old, tup))
    }
    fn end_txn(&mut self, t: usize, commit: bool) -> Result<(), String> {
        let x = self.txns[t].take().unwrap();
        if commit {
            let lsn = self.l().wal.write_commit_record(&x);
            let p = self.l().log.read().get_persistent_lsn();
            if p == INVALID_LSN || p < lsn {
                return Err(format!("the commit with LSN {lsn} returned when the log was written up to {p}"));
            }
            self.durable = self.log_len();
        } else {
            self.l().wal.write_abort_record(&x);
        }
        for i in 0..self.rows.len() {
            if self.rows[i].writer != Some(t) {
                continue;
            }
            self.rows[i].writer = None;
            if commit {
                self.rows[i].committed = self.rows[i].cur;
            } else {
                self.rows[i].cur = self.rows[i].committed;
                self.apply(TupleMeta::new(x.get_transaction_id()), self.rows[i].rid, self.rows[i].committed)?;
            }
        }
        Ok(())
    }
    fn crash(&mut self, torn: Option<usize>) -> Result<bool, String> {
        self.l().drain();
        let len = self.log_len();
        let mut keep = None;
        if let Some(k) = torn {
            // where the last record starts
            let bytes = std::fs::read(self.s.file("log")).unwrap();
            let (mut at, mut last) = (0usize, 0usize);
            while at + 4 <= bytes.len() {
                last = at;
                at += i32::from_le_bytes(bytes[at..at + 4].try_into().unwrap()).max(4) as usize;
            }
            let n = len as usize - last;
            let k = [0, 2, 4, n / 2, n - 1][k];
            if (last as u64) < self.durable {
                return Ok(false);
            }
            keep = Some((last + k) as u64);
        }
        self.life = None;
        if let Some(k) = keep {
            std::fs::OpenOptions::new().write(true).open(self.s.file("log")).unwrap().set_len(k).unwrap();
        }
        self.txns = vec![None, None];
        self.next_txn = 0;
        for r in self.rows.iter_mut() {
            r.cur = r.committed;
            r.writer = None;
        }
        self.crashes += 1;
        self.life = Some(Life::new(&self.s));
        self.l().recover().map_err(|e| format!("recovery failed: {e}"))?;
        self.durable = 0;
        self.l().drain();
        self.durable = self.log_len();
        // slots of rows that nobody knows of any more may be given to others
        for p in 0..self.pages {
            if let Some(g) = self.l().bpm.fetch_page::<TablePage>(p as u64) {
                let n = g.read().get_num_tuples() as u32;
                self.rows.retain(|r| r.page != p || r.committed.is_some() || r.rid.get_slot_num() < n);
            }
        }
        self.check()?;
        Ok(true)
    }
    fn check(&self) -> Result<(), String> {
        for p in 0..self.pages {
            let g = self.l().bpm.fetch_page::<TablePage>(p as u64).ok_or_else(|| format!("page {p} cannot be read after recovery"))?;
            let page = g.read();
            let mut live = 0;
            for slot in 0..page.get_num_tuples() as u32 {
                live += page.get_tuple(&RID::new(p as u64, slot), false).is_ok() as usize;
            }
            for (i, r) in self.rows.iter().enumerate().filter(|r| r.1.page == p) {
                match (r.cur, page.get_tuple(&r.rid, false)) {
                    (Some((v, n)), Ok((_, t))) => {
                        live -= 1;
                        let want = [Value::new(v), Value::new("x".repeat(n))];
                        if t.get_values() != &want[..] || t.get_rid() != r.rid {
                            return Err(format!("row {i} is {:?} at {:?} after recovery, last committed as {v} ({n} bytes)", t.get_values(), t.get_rid()));
                        }
                    },
                    (None, Err(_)) => {},
                    (Some((v, n)), Err(e)) => return Err(format!("row {i}, committed as {v} ({n} bytes), is lost after recovery: {e}")),
                    (None, Ok((_, t))) => return Err(format!("row {i} was never committed (or its delete was), but is {:?} after recovery", t.get_values())),
                }
            }
            if live != 0 {
                return Err(format!("page {p} has {live} rows nobody inserted"));
            }
        }
        Ok(())
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        mcstd::use_runtime(Some(self.l().rt.clone()));
        match self.ops[op] {
            Op::Ins(t, p) => self.insert(t, p)?,
            Op::Upd(t, r, _) | Op::Del(t, r, _) => {
                let Some(row) = self.rows.get(r) else { return Ok(false) };
                if row.cur.is_none() || row.writer.is_some_and(|w| w != t) {
                    return Ok(false);
                }
                self.begin(t);
                let new = if let Op::Upd(_, _, long) = self.ops[op] {
                    self.next_val += 1;
                    Some((self.next_val, SIZES[long as usize]))
                } else {
                    None
                };
                let rid = self.rows[r].rid;
                let (old, tup) = self.apply(self.meta(t), rid, new)?;
                let x = self.txns[t].as_ref().unwrap();
                match self.ops[op] {
                    Op::Upd(..) => {
                        let lsn = self.l().wal.write_update_record(x, rid, old, tup);
                        x.set_prev_lsn(lsn);
                    },
                    Op::Del(_, _, apply) => {
                        let kind = if apply { LogRecordType::ApplyDelete } else { LogRecordType::MarkDelete };
                        self.log(t, LogRecord::new_insert_delete_record(x.get_transaction_id(), x.get_prev_lsn(), kind, rid, Arc::new(old)));
                    },
                    _ => unreachable!(),
                }
                self.rows[r].cur = new;
                self.rows[r].writer = Some(t);
            },
            Op::Commit(t) | Op::Abort(t) => {
                if self.txns[t].is_none() {
                    return Ok(false);
                }
                self.end_txn(t, self.ops[op] == Op::Commit(t))?;
            },
            Op::Flush(p) => {
                let l = self.l();
                l.drain();
                l.rt.block_on(async {
                    l.bpm.flush_page_async(p as u64).await?;
                    l.disk.flush().await.map_err(|e| e.to_string())
                })
                .map_err(|e| format!("flushing page {p}: {e}"))?;
                self.durable = self.log_len();
            },
            Op::Crash | Op::Torn(_) => {
                if self.crashes >= 3 {
                    return Ok(false);
                }
                return self.crash(if let Op::Torn(k) = self.ops[op] { Some(k) } else { None });
            },
        }
        Ok(true)
    }
    fn end(&mut self) -> Result<(), String> {
        mcstd::use_runtime(Some(self.l().rt.clone()));
        self.crash(None)?;
        self.crash(None).map_err(|e| format!("second recovery of the same log: {e}"))?;
        // the recovered database is used again, by transactions with the same numbers
        for commit in [false, true] {
            for p in 0..self.pages {
                self.insert(0, p)?;
            }
            for r in 0..self.rows.len() {
                if self.rows[r].committed.is_some() {
                    self.begin(0);
                    let new = Some((self.next_val, SIZES[commit as usize]));
                    self.next_val += 1;
                    let rid = self.rows[r].rid;
                    let (old, tup) = self.apply(self.meta(0), rid, new)?;
                    let x = self.txns[0].as_ref().unwrap();
                    let lsn = self.l().wal.write_update_record(x, rid, old, tup);
                    x.set_prev_lsn(lsn);
                    self.rows[r].cur = new;
                    self.rows[r].writer = Some(0);
                }
            }
            if commit {
                self.end_txn(0, true)?;
            }
            self.crash(None).map_err(|e| format!("used again after recovery ({}): {e}", if commit { "committed" } else { "not committed" }))?;
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash(&(self.rows.iter().map(|r| (r.cur, r.committed, r.writer)).collect::<Vec<_>>(), self.crashes))
    }
}
impl Drop for Sys {
    fn drop(&mut self) {
        self.life = None;
        mcstd::use_runtime(None);
    }
}

pub fn run(ctx: &'static Ctx) {
    use Op::*;
    let cases: Vec<(&str, Vec<Op>, usize, usize, bool, usize, usize)> = vec![
        ("one row, two transactions", vec![Upd(0, 0, false), Upd(1, 0, true), Commit(0), Abort(0), Commit(1), Abort(1), Flush(0), Crash], 1, 1, true, 5, 7),
        ("one row deleted", vec![Upd(0, 0, false), Del(0, 0, false), Del(1, 0, true), Commit(0), Abort(0), Commit(1), Abort(1), Flush(0), Crash], 1, 1, true, 5, 6),
        ("inserted rows, torn log", vec![Ins(0, 0), Ins(1, 0), Upd(0, 0, true), Upd(1, 1, false), Commit(0), Commit(1), Flush(0), Torn(0), Torn(1), Torn(2), Torn(3), Torn(4)], 1, 0, true, 4, 6),
        ("two pages never written before", vec![Ins(0, 1), Upd(0, 0, false), Upd(0, 1, true), Del(0, 1, false), Abort(0), Commit(0), Flush(0), Flush(1), Crash], 2, 2, false, 4, 6),
        ("two pages, two transactions", vec![Upd(0, 0, false), Upd(0, 1, false), Upd(1, 0, false), Upd(1, 1, true), Commit(0), Abort(0), Commit(1), Abort(1), Flush(0), Flush(1), Crash], 2, 2, true, 4, 6),
    ];
    let n = cases.len() as u64;
    for (i, (name, ops, pages, rows, on_disk, quick, thorough)) in cases.into_iter().enumerate() {
        let ops = Arc::new(ops);
        let o2 = ops.clone();
        let depth = ctx.pick(quick, thorough);
        let deadline = ctx.deadline(10 * (i as u64 + 1), 800 / n * (i as u64 + 1));
        sequences(ctx, name, ops.len(), depth, deadline, move |o| format!("{:?}", o2[o]), &|| Sys::new(ops.clone(), pages, rows, on_disk));
    }
}
