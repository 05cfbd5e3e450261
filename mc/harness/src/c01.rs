//! C01-C05: transactions on a table against a reference with explicit row versions.
use crate::common::*;
use crate::disk;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, TransactionState};
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::Type;
use ferrite::types_db::value::Value;
use std::sync::{Arc, Mutex};
use IsolationLevel as L;

fn schema() -> Schema {
    Schema::new(vec![Column::new("id", TypeId::Integer), Column::new("text", TypeId::VarChar)])
}
fn text(v: i32, len: usize) -> String {
    format!("{v:06}").repeat(len / 6 + 1)[..len].to_string()
}
const SHORT: usize = 6;
const LONG: usize = 1500;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Begin,
    Insert(usize, usize),
    Update(usize, usize, usize),
    Delete(usize, usize),
    Commit(usize),
    Abort(usize),
    Collect,
}
fn show(o: Op) -> String {
    let z = |n: usize| if n == LONG { " (long)" } else { "" };
    match o {
        Op::Begin => "begin".into(),
        Op::Insert(t, n) => format!("T{t} inserts{}", z(n)),
        Op::Update(t, r, n) => format!("T{t} updates row {r}{}", z(n)),
        Op::Delete(t, r) => format!("T{t} deletes row {r}"),
        Op::Commit(t) => format!("T{t} commits"),
        Op::Abort(t) => format!("T{t} aborts"),
        Op::Collect => "collect garbage".into(),
    }
}
#[derive(Clone)]
pub struct Plan {
    pub levels: Vec<IsolationLevel>,
    /// lengths of the rows that are there at the start
    pub rows: Vec<usize>,
    pub max_rows: usize,
    pub sizes: Vec<usize>,
    pub collect: bool,
}
impl Plan {
    pub fn ops(&self) -> Vec<Op> {
        let mut v = vec![Op::Begin];
        for t in 0..self.levels.len() {
            for r in 0..self.max_rows {
                for z in &self.sizes {
                    v.push(Op::Update(t, r, *z));
                }
            }
            v.push(Op::Commit(t));
            v.push(Op::Abort(t));
            for r in 0..self.max_rows {
                v.push(Op::Delete(t, r));
            }
            if self.max_rows > self.rows.len() {
                for z in &self.sizes {
                    v.push(Op::Insert(t, *z));
                }
            }
        }
        if self.collect {
            v.push(Op::Collect);
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
struct Version {
    /// None: the row is deleted
    value: Option<(i32, usize)>,
    writer: usize,
    commit: Option<u64>,
}
const SETUP: usize = 99;
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Phase {
    Running,
    Committed,
    Aborted,
}
struct Txn {
    ctx: Arc<TransactionContext>,
    level: IsolationLevel,
    phase: Phase,
    snapshot: u64,
}
pub struct Table {
    pub bpm: Arc<BufferPoolManager>,
    pub factory: Arc<TransactionManagerFactory>,
    pub heap: Arc<TransactionalTableHeap>,
}
impl Table {
    pub fn new(bpm: Arc<BufferPoolManager>) -> Self {
        let factory = Arc::new(TransactionManagerFactory::new(bpm.clone()));
        let heap = Arc::new(TransactionalTableHeap::new(Arc::new(TableHeap::new(bpm.clone(), 1)), 1));
        factory.get_transaction_manager().register_table(heap.clone());
        Table { bpm, factory, heap }
    }
    fn insert(&self, c: &Arc<TransactionContext>, v: i32, len: usize) -> Result<RID, String> {
        self.heap.insert_tuple_from_values(vec![Value::new(v), Value::new(text(v, len))], &schema(), c.clone())
    }
    fn update(&self, c: &Arc<TransactionContext>, rid: RID, v: i32, len: usize) -> Result<(), String> {
        let t = Tuple::new(&[Value::new(v), Value::new(text(v, len))], &schema(), rid);
        // the update executor passes bookkeeping of transaction 0, whoever it works for
        let r = self.heap.update_tuple(&TupleMeta::new(0), &t, rid, c.clone())?;
        if r != rid { Err(format!("MOVED from {rid:?} to {r:?}")) } else { Ok(()) }
    }
    fn value(t: &Tuple) -> Result<(i32, usize), String> {
        let v = t.get_value(0).as_integer().map_err(|e| format!("{e:?}"))?;
        for n in [SHORT, LONG] {
            if t.get_value(1) == Value::new(text(v, n)) {
                return Ok((v, n));
            }
        }
        Err(format!("a row mixes two rows: {:?}", t.get_value(0)))
    }
    fn read(&self, c: &Arc<TransactionContext>, rid: RID) -> Result<Option<(i32, usize)>, String> {
        match self.heap.get_tuple(rid, c.clone()) {
            Ok((_, t)) => Self::value(&t).map(Some),
            Err(_) => Ok(None),
        }
    }
    fn scan(&self, c: &Arc<TransactionContext>) -> Result<Vec<(RID, (i32, usize))>, String> {
        let mut v = vec![];
        for (_, t) in self.heap.make_iterator(Some(c.clone())) {
            v.push((t.get_rid(), Self::value(&t)?));
        }
        Ok(v)
    }
}
struct Sys {
    plan: Arc<Plan>,
    ops: Arc<Vec<Op>>,
    table: Table,
    txns: Vec<Txn>,
    rows: Vec<(RID, Vec<Version>)>,
    commits: u64,
    next: i32,
    what: What,
    collected: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum What {
    Visible,
    Abort,
    Conflict,
    Collect,
}
thread_local! {
    static POOL: std::cell::RefCell<Option<(u32, Arc<BufferPoolManager>, Scratch)>> = const { std::cell::RefCell::new(None) };
}
fn pool() -> Arc<BufferPoolManager> {
    disk::renew();
    disk::runtime();
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if p.as_ref().is_none_or(|x| x.0 >= 120) {
            *p = None;
            let s = Scratch::new("c01");
            *p = Some((0, crate::c17::pool(600, &s), s));
        }
        let x = p.as_mut().unwrap();
        x.0 += 1;
        x.1.clone()
    })
}
impl Sys {
    fn new(plan: Arc<Plan>, ops: Arc<Vec<Op>>, what: What) -> Self {
        let table = Table::new(pool());
        let mut s = Sys { plan: plan.clone(), ops, table, txns: vec![], rows: vec![], commits: 0, next: 0, what, collected: false };
        let c = s.table.factory.begin_transaction(L::ReadCommitted);
        for len in &plan.rows {
            s.next += 1;
            let rid = s.table.insert(&c, s.next, *len).expect("setup insert");
            s.rows.push((rid, vec![Version { value: Some((s.next, *len)), writer: SETUP, commit: Some(0) }]));
        }
        assert!(disk::block_on(s.table.factory.commit_transaction(c)), "setup commit");
        s
    }
    fn want(&self, t: usize, r: usize) -> Option<(i32, usize)> {
        let x = &self.txns[t];
        visible(x.level, t, x.snapshot, &self.rows[r].1)
    }
    fn look(&self, t: usize) -> Result<(), String> {
        let x = &self.txns[t];
        let mut there = vec![];
        for (r, (rid, _)) in self.rows.iter().enumerate() {
            let (got, want) = (self.table.read(&x.ctx, *rid)?, self.want(t, r));
            if got != want {
                return Err(format!("T{t} ({}) reads {got:?} in row {r}; {want:?} is right", x.level));
            }
            if let Some(w) = want {
                there.push((*rid, w));
            }
        }
        let got = self.table.scan(&x.ctx)?;
        if got != there {
            return Err(format!("T{t} ({}) scans {got:?}; {there:?} is right", x.level));
        }
        Ok(())
    }
    fn check(&self) -> Result<(), String> {
        for t in 0..self.txns.len() {
            if self.txns[t].phase == Phase::Running {
                self.look(t)?;
            }
        }
        let tm = self.table.factory.get_transaction_manager();
        let w = tm.get_watermark();
        let min = self.txns.iter().filter(|x| x.phase == Phase::Running).map(|x| x.ctx.get_transaction().read_ts()).min();
        match min {
            Some(m) if m != w => return Err(format!("the watermark is {w}; the oldest running transaction reads as of {m}")),
            None => {
                let last = self.txns.iter().filter(|x| x.phase == Phase::Committed).map(|x| x.ctx.get_transaction().commit_ts()).max();
                if last.is_some_and(|l| w <= l) {
                    return Err(format!("nothing runs and the watermark {w} is not past the last commit {last:?}"));
                }
            },
            _ => {},
        }
        Ok(())
    }
    /// what an update or delete of row r by t must do: Some(true) succeed, Some(false) fail, None: either
    fn may_write(&self, t: usize, r: usize) -> Option<bool> {
        let x = &self.txns[t];
        if x.phase != Phase::Running {
            return Some(false);
        }
        let Some(v) = self.rows[r].1.last() else { return Some(false) };
        if v.value.is_none() || (v.commit.is_none() && v.writer != t) {
            return Some(false);
        }
        match x.level {
            L::ReadUncommitted | L::ReadCommitted => Some(true),
            // changed since the snapshot: refusing it is as good as allowing it
            _ if v.commit.is_some_and(|c| c > x.snapshot) => None,
            _ => Some(true),
        }
    }
    fn outcome(&self, what: &str, may: Option<bool>, got: &Result<(), String>) -> Result<(), String> {
        match (may, got) {
            (_, Err(e)) if e.starts_with("MOVED") => Err(format!("{what}: {e}")),
            (Some(true), Err(e)) => Err(format!("{what} was refused: {e}")),
            (Some(false), Ok(())) => Err(format!("{what} was allowed")),
            _ => Ok(()),
        }
    }
}
fn visible(level: IsolationLevel, t: usize, snapshot: u64, vs: &[Version]) -> Option<(i32, usize)> {
    vs.iter()
        .rev()
        .find(|v| match level {
            L::ReadUncommitted => true,
            L::ReadCommitted => v.writer == t || v.commit.is_some(),
            _ => v.writer == t || v.commit.is_some_and(|c| c <= snapshot),
        })
        .and_then(|v| v.value)
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        disk::runtime();
        let n = self.txns.len();
        let running = |s: &Sys, t: usize| t < n && s.txns[t].phase == Phase::Running;
        match self.ops[op] {
            Op::Begin => {
                if n == self.plan.levels.len() {
                    return Ok(false);
                }
                let level = self.plan.levels[n];
                let ctx = self.table.factory.begin_transaction(level);
                self.txns.push(Txn { ctx, level, phase: Phase::Running, snapshot: self.commits });
            },
            Op::Insert(t, len) => {
                if !running(self, t) || self.rows.len() == self.plan.max_rows {
                    return Ok(false);
                }
                self.next += 1;
                let rid = self.table.insert(&self.txns[t].ctx, self.next, len).map_err(|e| format!("T{t} cannot insert: {e}"))?;
                if self.rows.iter().any(|r| r.0 == rid) {
                    return Err(format!("the new row was stored over another one at {rid:?}"));
                }
                self.rows.push((rid, vec![Version { value: Some((self.next, len)), writer: t, commit: None }]));
            },
            Op::Update(t, r, len) => {
                if !running(self, t) || r >= self.rows.len() {
                    return Ok(false);
                }
                self.next += 1;
                let mut may = self.may_write(t, r);
                let (rid, v) = (self.rows[r].0, self.next);
                if may == Some(true) && self.rows[r].1.last().unwrap().value.unwrap().1 < len {
                    may = None; // there may be no room for a longer row
                }
                let got = self.table.update(&self.txns[t].ctx, rid, v, len);
                self.outcome(&format!("the update of row {r} by T{t}"), may, &got)?;
                if got.is_ok() {
                    self.rows[r].1.push(Version { value: Some((v, len)), writer: t, commit: None });
                }
            },
            Op::Delete(t, r) => {
                if !running(self, t) || r >= self.rows.len() {
                    return Ok(false);
                }
                let may = self.may_write(t, r);
                let got = self.table.heap.delete_tuple(self.rows[r].0, self.txns[t].ctx.clone());
                self.outcome(&format!("the deletion of row {r} by T{t}"), may, &got)?;
                if got.is_ok() {
                    self.rows[r].1.push(Version { value: None, writer: t, commit: None });
                }
            },
            Op::Commit(t) => {
                if !running(self, t) {
                    return Ok(false);
                }
                if !disk::block_on(self.table.factory.commit_transaction(self.txns[t].ctx.clone())) {
                    return Err(format!("T{t} cannot commit"));
                }
                self.commits += 1;
                self.txns[t].phase = Phase::Committed;
                let ts = self.txns[t].ctx.get_transaction().commit_ts();
                if self.txns.iter().enumerate().any(|(i, x)| i != t && (x.ctx.get_transaction().read_ts() >= ts || x.phase == Phase::Committed && x.ctx.get_transaction().commit_ts() >= ts)) {
                    return Err(format!("T{t} committed at {ts}, which is not after everything before it"));
                }
                let c = self.commits;
                for v in self.rows.iter_mut().flat_map(|r| r.1.iter_mut()) {
                    if v.writer == t {
                        v.commit = Some(c);
                    }
                }
            },
            Op::Abort(t) => {
                if !running(self, t) {
                    return Ok(false);
                }
                self.table.factory.abort_transaction(self.txns[t].ctx.clone());
                self.txns[t].phase = Phase::Aborted;
                for r in self.rows.iter_mut() {
                    r.1.retain(|v| v.writer != t);
                }
            },
            Op::Collect => {
                if self.collected {
                    return Ok(false);
                }
                self.table.factory.get_transaction_manager().garbage_collection();
            },
        }
        self.collected = self.ops[op] == Op::Collect;
        if let Op::Commit(t) | Op::Abort(t) = self.ops[op] {
            let (want, got) = (if self.txns[t].phase == Phase::Committed { TransactionState::Committed } else { TransactionState::Aborted }, self.txns[t].ctx.get_transaction().get_state());
            if want != got {
                return Err(format!("T{t} is {got} instead of {want}"));
            }
        }
        self.check()?;
        Ok(true)
    }
    fn end(&mut self) -> Result<(), String> {
        let tm = self.table.factory.get_transaction_manager();
        // finished transactions stay finished and change nothing any more
        for t in 0..self.txns.len() {
            let (phase, ctx) = (self.txns[t].phase, self.txns[t].ctx.clone());
            if phase == Phase::Running {
                continue;
            }
            let again = disk::block_on(self.table.factory.commit_transaction(ctx.clone()));
            if again != (phase == Phase::Committed) {
                return Err(format!("committing T{t} ({phase:?}) again returned {again}"));
            }
            self.table.factory.abort_transaction(ctx.clone());
            if ctx.get_transaction().get_state() != (if phase == Phase::Committed { TransactionState::Committed } else { TransactionState::Aborted }) {
                return Err(format!("T{t} ({phase:?}) became {} when it was aborted after its end", ctx.get_transaction().get_state()));
            }
            for r in 0..self.rows.len() {
                if self.table.update(&ctx, self.rows[r].0, -1, SHORT).is_ok() || self.table.heap.delete_tuple(self.rows[r].0, ctx.clone()).is_ok() {
                    return Err(format!("T{t} changed row {r} after it had ended"));
                }
            }
            if self.table.insert(&ctx, -1, SHORT).is_ok() {
                return Err(format!("T{t} inserted a row after it had ended"));
            }
            self.check()?;
        }
        // what transactions that start now see, with the others still open and after they are gone
        for round in 0..2 {
            for level in [L::Snapshot, L::ReadCommitted] {
                let ctx = self.table.factory.begin_transaction(level);
                self.txns.push(Txn { ctx, level, phase: Phase::Running, snapshot: self.commits });
                let t = self.txns.len() - 1;
                self.look(t).map_err(|e| format!("a new transaction: {e}"))?;
                self.table.factory.abort_transaction(self.txns.pop().unwrap().ctx);
            }
            if round == 0 {
                for t in (0..self.txns.len()).rev() {
                    if self.txns[t].phase == Phase::Running {
                        self.table.factory.abort_transaction(self.txns[t].ctx.clone());
                        self.txns[t].phase = Phase::Aborted;
                        for r in self.rows.iter_mut() {
                            r.1.retain(|v| v.writer != t);
                        }
                        self.check()?;
                    }
                }
                if self.what == What::Collect {
                    tm.garbage_collection();
                    for (r, (rid, _)) in self.rows.iter().enumerate() {
                        if let Some(l) = tm.get_undo_link(*rid) {
                            return Err(format!("nothing runs, but old versions of row {r} are kept after garbage collection ({l:?})"));
                        }
                    }
                    let left: Vec<_> = tm.get_transactions().iter().map(|t| (t.get_transaction_id(), t.get_state())).collect();
                    if !left.is_empty() {
                        return Err(format!("nothing runs, but finished transactions are kept after garbage collection: {left:?}"));
                    }
                }
            }
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash(&(&self.rows.iter().map(|r| r.1.clone()).collect::<Vec<_>>(), self.txns.iter().map(|t| (t.phase, t.snapshot)).collect::<Vec<_>>()))
    }
}

fn run(ctx: &'static Ctx, what: What, plans: &[(&str, Plan, usize, usize)], budget: (u64, u64)) {
    mcrt::suppress_spawn(true);
    for (i, (name, plan, quick, thorough)) in plans.iter().enumerate() {
        let depth = ctx.pick(*quick, *thorough);
        if depth == 0 {
            continue;
        }
        let plan = Arc::new(plan.clone());
        let ops = Arc::new(plan.ops());
        let deadline = ctx.deadline(budget.0 * (i as u64 + 1), budget.1 * (i as u64 + 1));
        let o2 = ops.clone();
        sequences(ctx, name, ops.len(), depth, deadline, move |o| show(o2[o]), &|| Sys::new(plan.clone(), ops.clone(), what));
    }
}
fn plan(levels: &[IsolationLevel], rows: &[usize], max_rows: usize, sizes: &[usize], collect: bool) -> Plan {
    Plan { levels: levels.to_vec(), rows: rows.to_vec(), max_rows, sizes: sizes.to_vec(), collect }
}
pub fn snapshots(ctx: &'static Ctx) {
    use IsolationLevel::*;
    run(ctx, What::Visible, &[
        ("one row, three transactions", plan(&[Snapshot, Serializable, RepeatableRead], &[SHORT], 1, &[SHORT], false), 7, 11),
        ("one row, four mixed levels", plan(&[RepeatableRead, ReadCommitted, Serializable, ReadUncommitted], &[SHORT], 1, &[SHORT], false), 6, 9),
        ("one row and one inserted", plan(&[Snapshot, ReadCommitted, RepeatableRead], &[SHORT], 2, &[SHORT], false), 6, 8),
        ("two rows", plan(&[Serializable, Snapshot], &[SHORT, SHORT], 2, &[SHORT], false), 6, 9),
    ], (18, 200));
}
pub fn aborts(ctx: &'static Ctx) {
    use IsolationLevel::*;
    run(ctx, What::Abort, &[
        ("one row changed again and again", plan(&[ReadCommitted, Snapshot], &[SHORT], 1, &[SHORT], false), 8, 12),
        ("rows of different length in a full page", plan(&[ReadCommitted, Snapshot], &[LONG], 3, &[SHORT, LONG], false), 5, 8),
        ("inserted, changed and deleted again", plan(&[RepeatableRead, ReadUncommitted], &[], 2, &[SHORT], false), 7, 10),
        ("three transactions", plan(&[Snapshot, ReadCommitted, Snapshot], &[SHORT], 2, &[SHORT], false), 6, 8),
    ], (16, 200));
    sched(ctx, 3, (10, 60));
}
pub fn conflicts(ctx: &'static Ctx) {
    use IsolationLevel::*;
    run(ctx, What::Conflict, &[
        ("one row, three writers", plan(&[ReadCommitted, ReadUncommitted, RepeatableRead], &[SHORT], 1, &[SHORT], false), 7, 10),
        ("two rows, two writers", plan(&[Serializable, ReadCommitted], &[SHORT, SHORT], 2, &[SHORT], false), 6, 9),
        ("one row and one inserted", plan(&[ReadCommitted, ReadCommitted, Snapshot], &[SHORT], 2, &[SHORT], false), 6, 8),
    ], (18, 240));
    sched(ctx, 4, (15, 120));
}
pub fn collection(ctx: &'static Ctx) {
    use IsolationLevel::*;
    run(ctx, What::Collect, &[
        ("one row, three transactions", plan(&[Snapshot; 3], &[SHORT], 1, &[SHORT], true), 6, 10),
        ("one row, mixed levels", plan(&[ReadCommitted, Snapshot, ReadUncommitted, RepeatableRead], &[SHORT], 1, &[SHORT], true), 6, 9),
        ("one row and one inserted", plan(&[Serializable, Snapshot, ReadCommitted], &[SHORT], 2, &[SHORT], true), 6, 8),
    ], (18, 240));
    sched(ctx, 5, (15, 120));
}

// ---------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum Act {
    Begin(IsolationLevel),
    /// continue the transaction the setup began for this thread
    Adopt,
    Upd(usize),
    Del(usize),
    Ins,
    Read(usize),
    Scan,
    Commit,
    Abort,
    Gc,
}
/// what happened, in order (writes carry the thread and the value)
#[derive(Clone, Debug)]
enum Ev {
    /// a write returned: thread, row, new value
    Wrote(usize, usize, Option<i32>),
    /// a transaction is about to end / has ended (true: commit)
    Ending(usize, bool),
    Ended(usize, bool),
    Began(usize),
}
struct Shared {
    table: Table,
    rt: Arc<tokio::runtime::Runtime>,
    rids: Vec<RID>,
    adopted: Vec<Option<Arc<TransactionContext>>>,
    ctxs: Mutex<Vec<Option<Arc<TransactionContext>>>>,
    evs: Mutex<Vec<Ev>>,
    /// thread, row, value read
    reads: Mutex<Vec<(usize, usize, Option<i32>, usize)>>,
    new_rows: Mutex<Vec<(usize, RID, i32)>>,
    /// thread, scan result
    scans: Mutex<Vec<(usize, Vec<(RID, i32)>)>>,
    bad: Mutex<Option<String>>,
    _s: Scratch,
}
struct Case2 {
    name: &'static str,
    /// values each row got from earlier committed transactions
    history: Vec<usize>,
    /// threads whose transaction begins after this many of the earlier transactions
    early: Vec<Option<(usize, IsolationLevel)>>,
    programs: Vec<Vec<Act>>,
    /// the other property it belongs to
    of: u8,
    /// preemption bounds (quick, thorough)
    bound: (usize, usize),
}
fn note(x: &Shared, e: Ev) {
    mcrt::atomic_step(|| x.evs.lock().unwrap().push(e));
}
fn act(x: &Shared, t: usize, k: usize, a: Act) -> Result<(), String> {
    let ctx = || x.ctxs.lock().unwrap()[t].clone().unwrap();
    match a {
        Act::Begin(l) => {
            let c = x.table.factory.begin_transaction(l);
            mcrt::atomic_step(|| x.ctxs.lock().unwrap()[t] = Some(c));
            note(x, Ev::Began(t));
        },
        Act::Adopt => {
            mcrt::atomic_step(|| x.ctxs.lock().unwrap()[t] = x.adopted[t].clone());
            note(x, Ev::Began(t));
        },
        Act::Upd(r) => {
            let v = 1000 * (t as i32 + 1) + k as i32;
            match x.table.update(&ctx(), x.rids[r], v, SHORT) {
                Ok(()) => {
                    note(x, Ev::Wrote(t, r, Some(v)));
                    mcrt::event(format!("{t}u{r}"));
                },
                Err(e) if e.starts_with("MOVED") => return Err(e),
                Err(_) => mcrt::event(format!("{t}no{r}")),
            }
        },
        Act::Del(r) => match x.table.heap.delete_tuple(x.rids[r], ctx()) {
            Ok(()) => {
                note(x, Ev::Wrote(t, r, None));
                mcrt::event(format!("{t}d{r}"));
            },
            Err(_) => mcrt::event(format!("{t}no{r}")),
        },
        Act::Ins => {
            let v = 1000 * (t as i32 + 1) + k as i32;
            let rid = x.table.insert(&ctx(), v, SHORT)?;
            mcrt::atomic_step(|| x.new_rows.lock().unwrap().push((t, rid, v)));
        },
        Act::Read(r) => {
            let v = x.table.read(&ctx(), x.rids[r])?.map(|v| v.0);
            let at = x.evs.lock().unwrap().len();
            mcrt::atomic_step(|| x.reads.lock().unwrap().push((t, r, v, at)));
            mcrt::event(format!("{t}r{r}={v:?}"));
        },
        Act::Scan => {
            let v: Vec<_> = x.table.scan(&ctx())?.into_iter().map(|(r, v)| (r, v.0)).collect();
            mcrt::event(format!("{t}s{:?}", v.iter().map(|x| x.1).collect::<Vec<_>>()));
            mcrt::atomic_step(|| x.scans.lock().unwrap().push((t, v)));
        },
        Act::Commit => {
            note(x, Ev::Ending(t, true));
            if !mcstd::drive(x.table.factory.commit_transaction(ctx())) {
                return Err(format!("thread {t} cannot commit"));
            }
            note(x, Ev::Ended(t, true));
        },
        Act::Abort => {
            note(x, Ev::Ending(t, false));
            x.table.factory.abort_transaction(ctx());
            note(x, Ev::Ended(t, false));
        },
        Act::Gc => x.table.factory.get_transaction_manager().garbage_collection(),
    }
    Ok(())
}
fn scenario(c: &Case2) -> mcrt::Scenario {
    let s = Scratch::new("c02");
    let rt = disk::new_runtime();
    mcstd::use_runtime(Some(rt.clone()));
    let m = Arc::new(rt.block_on(ferrite::storage::disk::async_disk::AsyncDiskManager::new(s.file("db"), s.file("log"), disk::config())).expect("open"));
    let bpm = Arc::new(BufferPoolManager::new(10, m, Arc::new(parking_lot::RwLock::new(ferrite::buffer::lru_k_replacer::LRUKReplacer::new(10, 2)))).unwrap());
    let table = Table::new(bpm);
    // row r has value 10 r + g after its g-th earlier transaction; (value, commit timestamp) per row
    let gens = c.history.iter().copied().max().unwrap_or(0);
    let mut rids: Vec<RID> = vec![];
    let mut past: Vec<Vec<(i32, u64)>> = vec![vec![]; c.history.len()];
    let mut adopted: Vec<Option<Arc<TransactionContext>>> = vec![None; c.programs.len()];
    for g in 0..=gens {
        let w = table.factory.begin_transaction(L::ReadCommitted);
        for (r, n) in c.history.iter().enumerate() {
            let v = 10 * r as i32 + g as i32;
            if g == 0 {
                rids.push(table.insert(&w, v, SHORT).expect("setup"));
            } else if g <= *n {
                table.update(&w, rids[r], v, SHORT).expect("setup");
            } else {
                continue;
            }
            past[r].push((v, 0));
        }
        assert!(rt.block_on(table.factory.commit_transaction(w.clone())));
        let ts = w.get_transaction().commit_ts();
        past.iter_mut().flatten().filter(|x| x.1 == 0).for_each(|x| x.1 = ts);
        for (t, e) in c.early.iter().enumerate() {
            if let Some((at, l)) = e {
                if *at == g {
                    adopted[t] = Some(table.factory.begin_transaction(*l));
                }
            }
        }
    }
    let n = c.programs.len();
    let x = Arc::new(Shared {
        table, rt, rids, adopted, ctxs: Mutex::new(vec![None; n]), evs: Mutex::default(), reads: Mutex::default(), new_rows: Mutex::default(), scans: Mutex::default(), bad: Mutex::default(), _s: s,
    });
    let mut threads: Vec<mcrt::Body> = vec![];
    for (t, prog) in c.programs.iter().enumerate() {
        let (x, prog) = (x.clone(), prog.clone());
        threads.push(Box::new(move || {
            mcstd::use_runtime(Some(x.rt.clone()));
            for (k, a) in prog.into_iter().enumerate() {
                if let Err(e) = act(&x, t, k, a) {
                    *x.bad.lock().unwrap() = Some(e);
                }
            }
            mcstd::use_runtime(None);
        }));
    }
    mcrt::Scenario {
        threads,
        finish: Box::new(move |info| {
            if let Some(d) = &info.dead {
                return Err(d.clone());
            }
            if let Some((t, p)) = info.panics.first() {
                return Err(format!("thread {t}: {p}"));
            }
            if let Some(b) = x.bad.lock().unwrap().clone() {
                return Err(b);
            }
            mcstd::use_runtime(Some(x.rt.clone()));
            judge(&x, &past)?;
            mcstd::use_runtime(None);
            let mut l = info.log.clone();
            l.sort();
            Ok(l.join(","))
        }),
    }
}
fn judge(x: &Shared, past: &[Vec<(i32, u64)>]) -> Result<(), String> {
    let evs = x.evs.lock().unwrap().clone();
    let ctxs = x.ctxs.lock().unwrap().clone();
    let txn = |t: usize| ctxs[t].as_ref().unwrap().get_transaction();
    let pos = |f: &dyn Fn(&Ev) -> bool| evs.iter().position(f);
    let ending = |t: usize| pos(&|e| matches!(e, Ev::Ending(u, _) if *u == t)).unwrap_or(usize::MAX);
    let ended = |t: usize| pos(&|e| matches!(e, Ev::Ended(u, _) if *u == t)).unwrap_or(usize::MAX);
    let began = |t: usize| pos(&|e| matches!(e, Ev::Began(u) if *u == t)).unwrap_or(usize::MAX);
    let committed = |t: usize| evs.iter().any(|e| matches!(e, Ev::Ended(u, true) if *u == t));
    for (i, e) in evs.iter().enumerate() {
        let Ev::Wrote(t, r, _) = e else { continue };
        for f in &evs[..i] {
            if let Ev::Wrote(u, r2, _) = f {
                if u != t && r == r2 && ending(*u) > i {
                    return Err(format!("thread {t} changed row {r} while thread {u} had changed it and not ended"));
                }
            }
        }
    }
    // transactions that ended before another began are in its past, and timestamps say so
    for t in 0..ctxs.len() {
        for u in 0..ctxs.len() {
            if t != u && ctxs[t].is_some() && ctxs[u].is_some() && committed(t) {
                if ended(t) < began(u) && x.adopted[u].is_none() && txn(t).commit_ts() > txn(u).read_ts() {
                    return Err(format!("thread {u} began after thread {t} had committed, and reads as of an earlier time"));
                }
                if committed(u) && txn(t).commit_ts() == txn(u).commit_ts() {
                    return Err(format!("threads {t} and {u} committed at the same time"));
                }
            }
        }
    }
    // versions of each row: (value, commit time, writer), oldest first
    let mut rows: Vec<Vec<(Option<i32>, u64, usize)>> = past.iter().map(|p| p.iter().map(|v| (Some(v.0), v.1, SETUP)).collect()).collect();
    let mut order: Vec<usize> = (0..ctxs.len()).filter(|t| ctxs[*t].is_some() && committed(*t)).collect();
    order.sort_by_key(|t| txn(*t).commit_ts());
    for t in order {
        for e in &evs {
            if let Ev::Wrote(u, r, v) = e {
                if *u == t {
                    rows[*r].push((*v, txn(t).commit_ts(), t));
                }
            }
        }
    }
    let snapshot = |t: usize, r: usize| rows[r].iter().rev().find(|v| v.1 <= txn(t).read_ts()).and_then(|v| v.0);
    for (t, r, got, at) in x.reads.lock().unwrap().iter() {
        let own = evs[..*at].iter().rev().find_map(|e| match e {
            Ev::Wrote(u, r2, v) if u == t && r2 == r => Some(*v),
            _ => None,
        });
        match (own, txn(*t).get_isolation_level()) {
            (Some(v), _) if v == *got => {},
            (Some(v), _) => return Err(format!("thread {t} reads {got:?} in row {r} after it wrote {v:?} there")),
            (None, L::ReadUncommitted) => {},
            (None, L::ReadCommitted) => {
                // some committed version that was not replaced before the read started and whose commit had started
                let ok = rows[*r].iter().any(|v| v.0 == *got && (v.2 == SETUP || ending(v.2) < *at));
                if !ok {
                    return Err(format!("thread {t} (read committed) reads {got:?} in row {r}, which nobody had committed"));
                }
            },
            _ => {
                let want = snapshot(*t, *r);
                if want != *got {
                    return Err(format!("thread {t} reads {got:?} in row {r}; its snapshot has {want:?}"));
                }
            },
        }
    }
    let new_rows = x.new_rows.lock().unwrap().clone();
    for (i, a) in new_rows.iter().enumerate() {
        if x.rids.contains(&a.1) || new_rows[..i].iter().any(|b| b.1 == a.1) {
            return Err(format!("two rows were stored at {:?}", a.1));
        }
    }
    for (t, got) in x.scans.lock().unwrap().iter() {
        let mut want: Vec<(RID, i32)> = x.rids.iter().enumerate().filter_map(|(r, rid)| snapshot(*t, r).map(|v| (*rid, v))).collect();
        for (u, rid, v) in &new_rows {
            if committed(*u) && txn(*u).commit_ts() <= txn(*t).read_ts() {
                want.push((*rid, *v));
            }
        }
        want.sort_by_key(|w| (w.0.get_page_id(), w.0.get_slot_num()));
        if *got != want {
            return Err(format!("thread {t} scans {got:?}; its snapshot has {want:?}"));
        }
    }
    // in the end
    let c = x.table.factory.begin_transaction(L::ReadCommitted);
    for (r, rid) in x.rids.iter().enumerate() {
        let (got, want) = (x.table.read(&c, *rid)?.map(|v| v.0), rows[r].last().and_then(|v| v.0));
        if got != want {
            return Err(format!("row {r} has {got:?} in the end; the last commit left {want:?}"));
        }
    }
    for (u, rid, v) in &new_rows {
        let (got, want) = (x.table.read(&c, *rid)?.map(|v| v.0), if committed(*u) { Some(*v) } else { None });
        if got != want {
            return Err(format!("the row thread {u} inserted reads {got:?} in the end; {want:?} is right"));
        }
    }
    x.table.factory.abort_transaction(c);
    Ok(())
}
pub fn schedules(ctx: &'static Ctx) {
    sched(ctx, 0, (50, 850));
}
fn sched(ctx: &'static Ctx, of: u8, budget: (u64, u64)) {
    use Act::*;
    mcrt::suppress_spawn(true);
    // the pool, the disk layer and the lock manager have checks of their own (C12, C15, C16, C06)
    mcrt::quiet(&["/storage/disk/", "/buffer/", "/concurrency/lock_manager", "/storage/index/"]);
    let all = vec![
        Case2 { name: "commit of two rows against a reader", of: 2, history: vec![0, 0], early: vec![None, None], bound: (2, 4),
            programs: vec![vec![Begin(L::Snapshot), Upd(0), Upd(1), Commit], vec![Begin(L::Snapshot), Read(0), Read(1), Commit]] },
        Case2 { name: "abort of two rows against a reader", of: 3, history: vec![1, 1], early: vec![None, None], bound: (2, 4),
            programs: vec![vec![Begin(L::RepeatableRead), Upd(0), Upd(0), Upd(1), Abort], vec![Begin(L::Snapshot), Read(0), Read(1), Read(0), Commit]] },
        Case2 { name: "abort against a reader of an older version", of: 3, history: vec![2], early: vec![None, Some((0, L::Snapshot))], bound: (2, 4),
            programs: vec![vec![Begin(L::Snapshot), Upd(0), Abort], vec![Adopt, Read(0), Read(0), Commit]] },
        Case2 { name: "delete and insert against a scan", of: 2, history: vec![0, 0], early: vec![None, None], bound: (2, 4),
            programs: vec![vec![Begin(L::Snapshot), Del(0), Ins, Commit], vec![Begin(L::Serializable), Scan, Commit]] },
        Case2 { name: "two writers of a row", of: 4, history: vec![0], early: vec![None, None], bound: (2, 4),
            programs: vec![vec![Begin(L::ReadCommitted), Upd(0), Read(0), Commit], vec![Begin(L::ReadCommitted), Upd(0), Read(0), Commit]] },
        Case2 { name: "a writer that aborts and one that commits", of: 4, history: vec![0], early: vec![None, None], bound: (2, 4),
            programs: vec![vec![Begin(L::ReadCommitted), Upd(0), Read(0), Abort], vec![Begin(L::ReadCommitted), Del(0), Read(0), Commit]] },
        Case2 { name: "garbage collection against an old reader", of: 5, history: vec![0], early: vec![None, Some((0, L::Snapshot)), None], bound: (2, 3),
            programs: vec![vec![Begin(L::Snapshot), Upd(0), Commit], vec![Adopt, Read(0), Read(0), Commit], vec![Gc, Gc]] },
        Case2 { name: "three transactions", of: 2, history: vec![0, 0], early: vec![None, None, None], bound: (1, 3),
            programs: vec![vec![Begin(L::Snapshot), Upd(0), Upd(1), Commit], vec![Begin(L::Snapshot), Upd(1), Upd(0), Abort], vec![Begin(L::Snapshot), Read(0), Read(1), Commit]] },
        Case2 { name: "two inserters and a scan", of: 2, history: vec![0], early: vec![None, None, None], bound: (1, 3),
            programs: vec![vec![Begin(L::Snapshot), Ins, Commit], vec![Begin(L::Snapshot), Ins, Abort], vec![Begin(L::Snapshot), Scan, Commit]] },
        Case2 { name: "read committed against two commits", of: 2, history: vec![0], early: vec![None, None, None], bound: (2, 3),
            programs: vec![vec![Begin(L::Snapshot), Upd(0), Commit], vec![Begin(L::Snapshot), Upd(0), Abort], vec![Begin(L::ReadCommitted), Read(0), Read(0), Commit]] },
    ];
    let all: Vec<Case2> = all.into_iter().filter(|c| of == 0 || c.of == of).collect();
    let dl = std::time::Instant::now() + std::time::Duration::from_secs(ctx.pick(budget.0, budget.1));
    let n = all.len();
    for (i, c) in all.iter().enumerate() {
        let left = dl.saturating_duration_since(std::time::Instant::now());
        let opt = mcrt::Options { preemptions: ctx.pick(c.bound.0, c.bound.1), deadline: Some(std::time::Instant::now() + left / (n - i) as u32), ..Default::default() };
        ctx.schedules(c.name, &opt, &|| scenario(c));
    }
    ctx.note("the buffer pool, the disk layer and the lock manager run without scheduling points here; C06, C12, C15 and C16 explore them");
}
