//! C06 lock grants, C07 deadlock detection, C08 two-phase rules: the real LockManager next to a lock table.
use crate::common::*;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::{DeadlockDetector, LockManager, LockMode};
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use LockMode::*;

const MODES: [LockMode; 5] = [IntentionShared, IntentionExclusive, Shared, SharedIntentionExclusive, Exclusive];
fn ix(m: LockMode) -> usize {
    MODES.iter().position(|x| *x == m).unwrap()
}
/// The documented matrix, rows and columns in the order of MODES.
fn compatible(a: LockMode, b: LockMode) -> bool {
    const T: [[u8; 5]; 5] = [[1, 1, 1, 1, 0], [1, 1, 0, 0, 0], [1, 0, 1, 0, 0], [1, 0, 0, 0, 0], [0, 0, 0, 0, 0]];
    T[ix(a)][ix(b)] == 1
}
fn upgrade(held: LockMode, new: LockMode) -> bool {
    match held {
        IntentionShared => new != IntentionShared,
        Shared | IntentionExclusive => matches!(new, Exclusive | SharedIntentionExclusive),
        SharedIntentionExclusive => new == Exclusive,
        Exclusive => false,
    }
}
fn covers(held: LockMode, new: LockMode) -> bool {
    held == new
        || match held {
            Exclusive => true,
            SharedIntentionExclusive => new != Exclusive,
            Shared | IntentionExclusive => new == IntentionShared,
            IntentionShared => false,
        }
}

#[derive(Default, Clone)]
struct Res {
    held: BTreeMap<u64, BTreeSet<usize>>,
    wait: Vec<(u64, LockMode)>,
    upgrading: Option<u64>,
}
impl Res {
    fn holds(&self, t: u64) -> bool {
        self.held.contains_key(&t)
    }
    fn free_for(&self, t: u64, m: LockMode) -> bool {
        self.held.iter().all(|(o, ms)| *o == t || ms.iter().all(|&h| compatible(MODES[h], m)))
    }
    fn put(&mut self, t: u64, m: LockMode) {
        let h = self.held.entry(t).or_default();
        // an upgrade replaces what it upgrades, except that IS stays next to S and IX next to X
        h.retain(|&x| matches!((MODES[x], m), (IntentionShared, Shared) | (IntentionExclusive, Exclusive)));
        h.insert(ix(m));
        if self.upgrading == Some(t) {
            self.upgrading = None;
        }
    }
    fn lock(&mut self, t: u64, m: LockMode) -> bool {
        let mut up = false;
        if let Some(h) = self.held.get(&t) {
            if h.iter().any(|&x| covers(MODES[x], m)) {
                return true;
            }
            if h.iter().any(|&x| !upgrade(MODES[x], m)) || self.upgrading.is_some_and(|u| u != t) {
                return false;
            }
            up = true;
        }
        self.forget(t);
        if self.upgrading.is_none() && self.free_for(t, m) {
            self.put(t, m);
            return true;
        }
        if up {
            self.upgrading = Some(t);
        }
        self.wait.push((t, m));
        false
    }
    fn forget(&mut self, t: u64) {
        self.wait.retain(|w| w.0 != t);
        if self.upgrading == Some(t) {
            self.upgrading = None;
        }
    }
    fn grant_waiting(&mut self) {
        let mut w = self.wait.clone();
        w.sort_by_key(|x| Some(x.0) != self.upgrading);
        for (t, m) in w {
            if self.upgrading.is_some_and(|u| u != t) {
                continue;
            }
            let own_ok = self.held.get(&t).is_none_or(|h| h.iter().all(|&x| upgrade(MODES[x], m) || MODES[x] == m));
            if own_ok && self.free_for(t, m) {
                self.put(t, m);
                self.wait.retain(|x| *x != (t, m));
            }
        }
    }
    fn release(&mut self, t: u64) {
        self.held.remove(&t);
        self.grant_waiting();
    }
    fn drop_txn(&mut self, t: u64) {
        if self.holds(t) || self.wait.iter().any(|w| w.0 == t) {
            self.forget(t);
            self.held.remove(&t);
            self.grant_waiting();
        }
    }
    /// who each waiter waits for
    fn edges(&self, out: &mut BTreeMap<u64, BTreeSet<u64>>) {
        for (t, m) in &self.wait {
            let e = out.entry(*t).or_default();
            for (o, ms) in &self.held {
                if o != t && (self.upgrading == Some(*o) || ms.iter().any(|&h| !compatible(MODES[h], *m))) {
                    e.insert(*o);
                }
            }
        }
    }
    fn line(&self) -> String {
        let mut v: Vec<String> = self.held.iter().flat_map(|(t, ms)| ms.iter().map(move |m| format!("{t}:{:?}:true", MODES[*m]))).collect();
        v.extend(self.wait.iter().map(|(t, m)| format!("{t}:{m:?}:false")));
        v.sort();
        v.join(" ")
    }
}

fn rid() -> RID {
    RID::new(7, 0)
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Lock(u64, LockMode, u64),
    Unlock(u64, u64),
    Row(u64, LockMode),
    UnlockRow(u64),
    Release(u64),
    Tick,
    Check(u64),
}
struct Sys {
    lm: LockManager,
    txns: Vec<Arc<Transaction>>,
    tables: BTreeMap<u64, Res>,
    row: Res,
    ops: Arc<Vec<Op>>,
    /// whom the last detection pass that saw a cycle may have chosen, and whether that notice is surely pending
    notice: BTreeSet<u64>,
    sure: bool,
    daemon: bool,
}
impl Drop for Sys {
    fn drop(&mut self) {
        if self.daemon {
            mcrt::end_daemons();
        }
    }
}
impl Sys {
    fn new(ops: Arc<Vec<Op>>, n: u64, daemon: bool) -> Self {
        if daemon {
            mcrt::capture_daemons();
        }
        let lm = LockManager::new();
        let txns = (1..=n).map(|i| Arc::new(Transaction::new(i as _, IsolationLevel::Serializable))).collect();
        Sys { lm, txns, tables: BTreeMap::new(), row: Res::default(), ops, notice: BTreeSet::new(), sure: false, daemon }
    }
    fn txn(&self, t: u64) -> Arc<Transaction> {
        self.txns[t as usize - 1].clone()
    }
    /// table queues as the lock manager reports them
    fn dump(&self) -> BTreeMap<u64, String> {
        let mut out: BTreeMap<u64, Vec<String>> = BTreeMap::new();
        let mut cur = 0;
        for l in self.lm.debug_state().lines() {
            if let Some(r) = l.strip_prefix("Table ") {
                cur = r.trim_end_matches(':').parse().unwrap();
            } else if let Some(r) = l.trim().strip_prefix("Txn:") {
                let f: Vec<&str> = r.split(' ').collect();
                out.entry(cur).or_default().push(format!("{}:{}:{}", f[0], f[1].trim_start_matches("Mode:"), f[2].trim_start_matches("Granted:")));
            }
        }
        out.into_iter()
            .map(|(k, mut v)| {
                v.sort();
                (k, v.join(" "))
            })
            .collect()
    }
    fn edges(&self) -> BTreeMap<u64, BTreeSet<u64>> {
        let mut e = BTreeMap::new();
        for r in self.tables.values() {
            r.edges(&mut e);
        }
        self.row.edges(&mut e);
        e
    }
    fn cycles(&self) -> BTreeSet<u64> {
        in_cycle(&self.edges())
    }
    /// What a transaction that asks (or whose request is refused) is told must be right.
    fn judge(&mut self, t: u64, told: bool) -> Result<(), String> {
        let cyc = self.cycles().contains(&t);
        let may = self.notice.contains(&t);
        if told && !cyc {
            return Err(format!("transaction {t} is told to abort but is in no cycle"));
        }
        if told && !may {
            return Err(format!("transaction {t} is told to abort; the youngest of a cycle: {:?}", self.notice));
        }
        if !told && cyc && self.sure && self.notice.len() == 1 && may {
            return Err(format!("transaction {t} is the youngest of the only cycle and is not told"));
        }
        if told || (may && self.notice.len() == 1) {
            self.notice.clear();
            self.sure = false;
        } else if may {
            self.sure = false;
        }
        Ok(())
    }
}
fn in_cycle(e: &BTreeMap<u64, BTreeSet<u64>>) -> BTreeSet<u64> {
    let reach = |s: u64| {
        let mut seen = BTreeSet::new();
        let mut st = vec![s];
        while let Some(x) = st.pop() {
            for &y in e.get(&x).into_iter().flatten() {
                if seen.insert(y) {
                    st.push(y);
                }
            }
        }
        seen
    };
    e.keys().copied().filter(|&k| reach(k).contains(&k)).collect()
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let o = self.ops[op];
        let t = match o {
            Op::Lock(t, ..) | Op::Unlock(t, _) | Op::Row(t, _) | Op::UnlockRow(t) | Op::Release(t) | Op::Check(t) => t,
            Op::Tick => 0,
        };
        // an aborted transaction can only release
        if t > 0 && self.txn(t).get_state() == TransactionState::Aborted && !matches!(o, Op::Release(_)) {
            return Ok(false);
        }
        match o {
            Op::Lock(t, m, oid) => {
                let want = self.tables.entry(oid).or_default().lock(t, m);
                let got = self.lm.lock_table(self.txn(t), m, oid).map_err(|e| format!("lock_table: {e:?}"))?;
                if got != want {
                    return Err(format!("lock_table returned {got}, expected {want} ({})", self.tables[&oid].line()));
                }
                let told = self.txn(t).get_state() == TransactionState::Aborted;
                if want && told {
                    return Err(format!("transaction {t} is aborted although its request was granted"));
                }
                if !want {
                    self.judge(t, told)?;
                }
            },
            Op::Unlock(t, oid) => {
                let row_held = oid == 1 && self.row.holds(t);
                let held = self.tables.get(&oid).is_some_and(|r| r.holds(t));
                let got = self.lm.unlock_table(self.txn(t), IntentionShared, oid);
                if held && !row_held {
                    self.tables.get_mut(&oid).unwrap().release(t);
                    if !matches!(got, Ok(true)) {
                        return Err(format!("unlock_table of a held lock: {got:?}"));
                    }
                } else {
                    if got.is_ok() {
                        return Err(format!("unlock_table succeeded (held: {held}, row held: {row_held})"));
                    }
                    if self.txn(t).get_state() != TransactionState::Aborted {
                        return Err("a refused unlock leaves the transaction running".into());
                    }
                }
            },
            Op::Row(t, m) => {
                let table: Vec<LockMode> = self.tables.get(&1).and_then(|r| r.held.get(&t)).into_iter().flatten().map(|&i| MODES[i]).collect();
                let ok = table.iter().any(|h| {
                    if m == Exclusive {
                        matches!(h, Exclusive | IntentionExclusive | SharedIntentionExclusive)
                    } else {
                        matches!(h, Shared | IntentionShared | SharedIntentionExclusive)
                    }
                }) && matches!(m, Shared | Exclusive);
                let got = self.lm.lock_row(self.txn(t), m, 1, rid());
                if !ok {
                    if got.is_ok() {
                        return Err(format!("lock_row {m:?} without a suitable table lock (holds {table:?}): {got:?}"));
                    }
                    return match self.txn(t).get_state() {
                        TransactionState::Aborted => Ok(true),
                        s => Err(format!("a refused row lock leaves the transaction {s:?}")),
                    };
                }
                let want = self.row.lock(t, m);
                let got = got.map_err(|e| format!("lock_row: {e:?}"))?;
                if got != want {
                    return Err(format!("lock_row returned {got}, expected {want} ({})", self.row.line()));
                }
                let told = self.txn(t).get_state() == TransactionState::Aborted;
                if want && told {
                    return Err(format!("transaction {t} is aborted although its request was granted"));
                }
                if !want {
                    self.judge(t, told)?;
                }
            },
            Op::UnlockRow(t) => {
                let held = self.row.holds(t);
                let got = self.lm.unlock_row(self.txn(t), Shared, 1, rid());
                if held {
                    self.row.release(t);
                    self.txn(t).set_state(TransactionState::Growing);
                    if !matches!(got, Ok(true)) {
                        return Err(format!("unlock_row of a held lock: {got:?}"));
                    }
                } else if got.is_ok() {
                    return Err("unlock_row of a row that is not locked succeeded".into());
                }
            },
            Op::Release(t) => {
                self.lm.force_release_txn(t as _).map_err(|e| format!("force_release_txn: {e:?}"))?;
                self.row.drop_txn(t);
                for r in self.tables.values_mut() {
                    r.drop_txn(t);
                }
                self.txn(t).set_state(TransactionState::Growing);
            },
            Op::Tick => {
                mcrt::tick_daemons();
                if !self.cycles().is_empty() {
                    self.notice = youngest_of_cycles(&self.edges());
                    self.sure = true;
                }
            },
            Op::Check(t) => {
                let got = self.lm.check_deadlock(self.txn(t)).map_err(|e| format!("check_deadlock: {e:?}"))?;
                if got != (self.txn(t).get_state() == TransactionState::Aborted) {
                    return Err(format!("check_deadlock returned {got}, the transaction is {:?}", self.txn(t).get_state()));
                }
                self.judge(t, got)?;
            },
        }
        let d = self.dump();
        for (oid, r) in &self.tables {
            let got = d.get(oid).cloned().unwrap_or_default();
            if got != r.line() {
                return Err(format!("table {oid} holds [{got}], expected [{}]", r.line()));
            }
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        let v: Vec<String> = self.tables.values().map(|r| r.line()).collect();
        let s: Vec<String> = self.txns.iter().map(|t| format!("{:?}", t.get_state())).collect();
        hash(&(v, self.row.line(), s, &self.notice))
    }
    /// every transaction ends: nothing may be left behind that blocks the next one
    fn end(&mut self) -> Result<(), String> {
        for t in &self.txns {
            self.lm.force_release_txn(t.get_transaction_id()).map_err(|e| format!("{e:?}"))?;
        }
        for oid in 1..=2 {
            let n = Arc::new(Transaction::new(99, IsolationLevel::Serializable));
            if !self.lm.lock_table(n.clone(), Exclusive, oid).map_err(|e| format!("{e:?}"))? {
                return Err(format!("table {oid} is still blocked after every transaction released its locks"));
            }
            if oid == 1 && !self.lm.lock_row(n, Exclusive, 1, rid()).map_err(|e| format!("{e:?}"))? {
                return Err("the row is still blocked after every transaction released its locks".into());
            }
        }
        Ok(())
    }
}
/// The youngest (highest id) member of each elementary cycle.
fn youngest_of_cycles(e: &BTreeMap<u64, BTreeSet<u64>>) -> BTreeSet<u64> {
    fn walk(e: &BTreeMap<u64, BTreeSet<u64>>, s: u64, path: &mut Vec<u64>, out: &mut BTreeSet<u64>) {
        for &y in e.get(path.last().unwrap()).into_iter().flatten() {
            if y == s {
                out.insert(*path.iter().max().unwrap());
            } else if !path.contains(&y) {
                path.push(y);
                walk(e, s, path, out);
                path.pop();
            }
        }
    }
    let mut out = BTreeSet::new();
    for &s in e.keys() {
        walk(e, s, &mut vec![s], &mut out);
    }
    out
}

pub fn grants(ctx: &'static Ctx) {
    mcrt::suppress_spawn(true);
    let dl = ctx.deadline(55, 800);
    let go = |name: &str, n: u64, ops: Vec<Op>, start: Vec<usize>, depth: usize| {
        let ops = Arc::new(ops);
        let o2 = ops.clone();
        sequences_from(ctx, name, &start, ops.len(), depth, dl, move |i| format!("{:?}", o2[i]), &|| Sys::new(ops.clone(), n, false));
    };
    for (n, d) in [(2u64, ctx.pick(5, 6)), (3, ctx.pick(4, 5))] {
        let mut ops = Vec::new();
        for t in 1..=n {
            ops.extend(MODES.iter().map(|&m| Op::Lock(t, m, 1)));
            ops.push(Op::Unlock(t, 1));
            ops.push(Op::Release(t));
        }
        go(&format!("one table, {n} transactions"), n, ops.clone(), vec![], d);
        if n == 3 {
            // everyone shares the table and the first one already waits to upgrade
            let at = |t: u64, m: LockMode| (t as usize - 1) * 7 + ix(m);
            for (nm, st) in [
                ("three readers, one waits to upgrade", vec![at(1, Shared), at(2, Shared), at(3, Shared), at(1, Exclusive)]),
                ("intention holders, one waits to upgrade", vec![at(1, IntentionShared), at(2, IntentionExclusive), at(3, IntentionShared), at(1, Shared)]),
                ("one writer, two waiters", vec![at(1, Exclusive), at(2, Shared), at(3, IntentionExclusive)]),
            ] {
                go(nm, n, ops.clone(), st, ctx.pick(3, 4));
            }
        }
    }
    let mut ops = Vec::new();
    for t in 1..=2 {
        ops.extend([IntentionShared, IntentionExclusive, Exclusive].iter().map(|&m| Op::Lock(t, m, 1)));
        ops.extend([Shared, Exclusive, IntentionShared].iter().map(|&m| Op::Row(t, m)));
        ops.push(Op::UnlockRow(t));
        ops.push(Op::Unlock(t, 1));
        ops.push(Op::Release(t));
    }
    go("table and row", 2, ops, vec![], ctx.pick(5, 6));
    schedules(ctx);
}

/// Threads take, hold and give back locks; at no moment two of them hold conflicting modes.
fn schedules(ctx: &'static Ctx) {
    let cases: Vec<(&str, Vec<Vec<(char, LockMode)>>)> = vec![
        ("X|X", vec![vec![('l', Exclusive)], vec![('l', Exclusive)]]),
        ("S->X|S->X", vec![vec![('l', Shared), ('l', Exclusive)], vec![('l', Shared), ('l', Exclusive)]]),
        ("S->X|X|S", vec![vec![('l', Shared), ('l', Exclusive)], vec![('l', Exclusive)], vec![('l', Shared)]]),
        ("IX|S|SIX", vec![vec![('l', IntentionExclusive)], vec![('l', Shared)], vec![('l', SharedIntentionExclusive)]]),
        ("IX+rowX|IX+rowX", vec![vec![('l', IntentionExclusive), ('r', Exclusive)], vec![('l', IntentionExclusive), ('r', Exclusive)]]),
        ("IS+rowS->X|IX+rowX", vec![vec![('l', IntentionShared), ('r', Shared)], vec![('l', IntentionExclusive), ('r', Exclusive)]]),
    ];
    for (name, threads) in cases {
        let make = || {
            let lm = Arc::new(LockManager::new());
            // (resource, txn, mode) held, as the threads know it
            let held: Arc<std::sync::Mutex<Vec<(char, u64, LockMode)>>> = Default::default();
            let bad: Arc<std::sync::Mutex<Option<String>>> = Default::default();
            let bodies: Vec<mcrt::Body> = threads
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, script)| {
                    let (lm, held, bad) = (lm.clone(), held.clone(), bad.clone());
                    Box::new(move || {
                        let t = i as u64 + 1;
                        let txn = Arc::new(Transaction::new(t as _, IsolationLevel::Serializable));
                        let mut got = 0;
                        for (what, m) in script {
                            let ok = if what == 'l' { lm.lock_table(txn.clone(), m, 1) } else { lm.lock_row(txn.clone(), m, 1, rid()) };
                            if matches!(ok, Ok(true)) {
                                got += 1;
                                mcrt::atomic_step(|| {
                                    let mut h = held.lock().unwrap();
                                    h.retain(|x| !(x.0 == what && x.1 == t));
                                    for x in h.iter() {
                                        if x.0 == what && !compatible(x.2, m) {
                                            *bad.lock().unwrap() = Some(format!("transaction {t} got {m:?} while transaction {} holds {:?}", x.1, x.2));
                                        }
                                    }
                                    h.push((what, t, m));
                                });
                            } else {
                                break;
                            }
                        }
                        mcrt::event(format!("{t}:{got}"));
                        held.lock().unwrap().retain(|x| x.1 != t);
                        lm.force_release_txn(t as _).unwrap();
                    }) as mcrt::Body
                })
                .collect();
            mcrt::Scenario {
                threads: bodies,
                finish: Box::new(move |info| {
                    if let Some(d) = &info.dead {
                        return Err(d.clone());
                    }
                    if let Some((t, p)) = info.panics.first() {
                        return Err(format!("thread {t}: {p}"));
                    }
                    if let Some(b) = bad.lock().unwrap().clone() {
                        return Err(b);
                    }
                    let n = Arc::new(Transaction::new(99, IsolationLevel::Serializable));
                    if !matches!(lm.lock_table(n, Exclusive, 1), Ok(true)) {
                        return Err("the table is still blocked after every transaction released its locks".into());
                    }
                    let mut l = info.log.clone();
                    l.sort();
                    Ok(l.join(","))
                }),
            }
        };
        let opt = mcrt::Options { preemptions: ctx.pick(1, 2), deadline: Some(ctx.deadline(55, 850)), ..Default::default() };
        ctx.schedules(name, &opt, &make);
    }
}

pub fn deadlock(ctx: &'static Ctx) {
    // the cycle search on every waits-for graph
    for n in [3u64, 4] {
        let bits = n * n;
        let total = 1u64 << bits;
        let blocks = 256u64.min(total);
        par(blocks as usize, |b| {
            let (mut runs, mut cyc) = (0, 0);
            for g in (b as u64 * total / blocks)..((b as u64 + 1) * total / blocks) {
                if (0..n).any(|i| g >> (i * n + i) & 1 == 1) {
                    continue; // nobody waits for itself
                }
                let mut e: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
                let d = DeadlockDetector::new();
                for i in 0..n {
                    for j in 0..n {
                        if g >> (i * n + j) & 1 == 1 {
                            d.add_edge(i as _, j as _);
                            e.entry(i).or_default().insert(j);
                        }
                    }
                }
                let mut v = 77;
                let got = guard(|| d.has_cycle(&mut v));
                let want = !in_cycle(&e).is_empty();
                runs += 1;
                cyc += u64::from(want);
                if got != Ok(want) {
                    ctx.violation(&format!("graph {e:?}: cycle reported {got:?}, expected {want}"), json!({"graph": format!("{e:?}")}));
                } else if want && !youngest_of_cycles(&e).contains(&(v as u64)) {
                    ctx.violation(&format!("graph {e:?}: victim {v} is not the youngest of a cycle"), json!({"graph": format!("{e:?}")}));
                }
                // once the victim is gone the others are looked at again
                if want && got == Ok(true) {
                    d.remove_edge(v);
                    e.remove(&(v as u64));
                    let want = !in_cycle(&e).is_empty();
                    let mut v2 = 0;
                    if d.has_cycle(&mut v2) != want {
                        ctx.violation(&format!("graph {e:?} after removing {v}: cycle expected {want}"), json!({"graph": format!("{e:?}")}));
                    }
                }
            }
            ctx.add(runs, runs, runs);
            ctx.validated(runs);
            ctx.outcome_n(&format!("graphs of {n} with a cycle"), cyc);
            ctx.outcome_n(&format!("graphs of {n} without"), runs - cyc);
        });
    }
    let dl = ctx.deadline(55, 800);
    let go = |name: &str, n: u64, ops: Vec<Op>, start: Vec<usize>, depth: usize| {
        let ops = Arc::new(ops);
        let o2 = ops.clone();
        sequences_from(ctx, name, &start, ops.len(), depth, dl, move |i| format!("{:?}", o2[i]), &|| Sys::new(ops.clone(), n, true));
    };
    let mut ops = Vec::new();
    for t in 1..=2 {
        ops.extend([Op::Lock(t, Exclusive, 1), Op::Lock(t, Shared, 2), Op::Lock(t, Exclusive, 2), Op::Check(t), Op::Unlock(t, 1), Op::Release(t)]);
    }
    ops.push(Op::Tick);
    go("two tables, two transactions", 2, ops.clone(), vec![], ctx.pick(4, 5));
    go("two tables, two transactions, crossed", 2, ops, vec![0, 8, 2, 6], ctx.pick(4, 5));
    let mut ops = Vec::new();
    for t in 1..=3 {
        ops.extend([Op::Lock(t, Exclusive, 1), Op::Lock(t, Exclusive, 2), Op::Lock(t, Exclusive, 3), Op::Check(t), Op::Release(t)]);
    }
    ops.push(Op::Tick);
    go("three tables, three transactions, each holds one", 3, ops, vec![0, 6, 12], ctx.pick(4, 5));
    // a cycle through a row and a table
    let mut ops = vec![Op::Lock(1, IntentionExclusive, 1), Op::Lock(2, IntentionExclusive, 1)];
    for t in 1..=2 {
        ops.extend([Op::Row(t, Exclusive), Op::Row(t, Shared), Op::Lock(t, Exclusive, 2), Op::Check(t), Op::Release(t)]);
    }
    ops.push(Op::Tick);
    go("a row and a table, two transactions", 2, ops, vec![0, 1, 2, 9], ctx.pick(4, 5));
}

/// C08: the growing/shrinking rules, for every isolation level and every short history.
pub fn two_phase(ctx: &'static Ctx) {
    mcrt::suppress_spawn(true);
    struct P {
        lm: LockManager,
        txn: Arc<Transaction>,
        level: IsolationLevel,
        held: BTreeMap<u64, LockMode>,
        row: Option<LockMode>,
        state: TransactionState,
    }
    #[derive(Clone, Copy, Debug)]
    enum Q {
        Lock(LockMode, u64),
        Unlock(u64),
        Row(LockMode),
        UnlockRow,
        Set(TransactionState),
    }
    fn ops() -> Vec<Q> {
        let mut v: Vec<Q> = MODES.iter().map(|&m| Q::Lock(m, 1)).collect();
        v.extend(MODES.iter().map(|&m| Q::Lock(m, 2)));
        v.extend([Q::Unlock(1), Q::Unlock(2), Q::Row(Shared), Q::Row(Exclusive), Q::UnlockRow]);
        v.extend([Q::Set(TransactionState::Committed), Q::Set(TransactionState::Aborted)]);
        v
    }
    impl P {
        /// may a lock be requested in this state at all?
        fn allowed(&self, m: LockMode) -> bool {
            let shrinking = self.state == TransactionState::Shrinking;
            let ended = matches!(self.state, TransactionState::Aborted | TransactionState::Committed);
            match self.level {
                IsolationLevel::ReadUncommitted => matches!(m, Exclusive | IntentionExclusive) && !shrinking,
                IsolationLevel::ReadCommitted => !ended && (!shrinking || matches!(m, Shared | IntentionShared)),
                _ => !ended && !shrinking,
            }
        }
        fn released(&mut self, m: LockMode) {
            let ends = match self.level {
                IsolationLevel::RepeatableRead => matches!(m, Shared | Exclusive),
                _ => m == Exclusive,
            };
            if ends {
                self.state = TransactionState::Shrinking;
            }
        }
    }
    impl System for P {
        fn step(&mut self, op: usize) -> Result<bool, String> {
            match ops()[op] {
                Q::Lock(m, oid) => {
                    // one mode per table: upgrades are C06's business
                    if self.held.contains_key(&oid) {
                        return Ok(false);
                    }
                    let ok = self.allowed(m);
                    let got = self.lm.lock_table(self.txn.clone(), m, oid);
                    match (ok, &got) {
                        (true, Ok(true)) => {
                            self.held.insert(oid, m);
                        },
                        (false, Err(_)) => {},
                        _ => return Err(format!("{:?} in {:?}: lock_table {m:?} gave {got:?}", self.level, self.state)),
                    }
                },
                Q::Unlock(oid) => {
                    let m = self.held.get(&oid).copied();
                    let got = self.lm.unlock_table(self.txn.clone(), m.unwrap_or(Shared), oid);
                    match m {
                        Some(m) if !(oid == 1 && self.row.is_some()) => {
                            if got.is_err() {
                                return Err(format!("unlock_table of a held lock: {got:?}"));
                            }
                            self.held.remove(&oid);
                            self.released(m);
                        },
                        _ => {
                            if got.is_ok() {
                                return Err("unlock_table succeeded".into());
                            }
                            self.state = TransactionState::Aborted;
                        },
                    }
                },
                Q::Row(m) => {
                    if self.row.is_some() {
                        return Ok(false);
                    }
                    let ok = self.allowed(m);
                    let suits = self.held.get(&1).is_some_and(|h| match m {
                        Exclusive => matches!(h, Exclusive | IntentionExclusive | SharedIntentionExclusive),
                        _ => matches!(h, Shared | IntentionShared | SharedIntentionExclusive),
                    });
                    let got = self.lm.lock_row(self.txn.clone(), m, 1, rid());
                    match (ok && suits, &got) {
                        (true, Ok(true)) => self.row = Some(m),
                        (false, Err(_)) => {
                            if ok {
                                self.state = TransactionState::Aborted;
                            }
                        },
                        _ => return Err(format!("{:?} in {:?}: lock_row {m:?} gave {got:?}", self.level, self.state)),
                    }
                },
                Q::UnlockRow => {
                    let got = self.lm.unlock_row(self.txn.clone(), self.row.unwrap_or(Shared), 1, rid());
                    match self.row.take() {
                        Some(m) => {
                            if got.is_err() {
                                return Err(format!("unlock_row of a held lock: {got:?}"));
                            }
                            self.released(m);
                        },
                        None => {
                            if got.is_ok() {
                                return Err("unlock_row succeeded".into());
                            }
                            self.state = TransactionState::Aborted;
                        },
                    }
                },
                Q::Set(s) => {
                    // RC and RR refuse ended transactions; nothing is documented for the others
                    if self.level == IsolationLevel::ReadUncommitted || self.state == s {
                        return Ok(false);
                    }
                    self.txn.set_state(s);
                    self.state = s;
                },
            }
            let got = self.txn.get_state();
            let same = got == self.state || (matches!(got, TransactionState::Running | TransactionState::Growing) && self.state == TransactionState::Running);
            if !same {
                return Err(format!("{:?}: transaction is {got:?}, expected {:?}", self.level, self.state));
            }
            Ok(true)
        }
        fn digest(&self) -> u64 {
            hash(&format!("{:?}{:?}{:?}{:?}", self.level, self.held, self.row, self.state))
        }
    }
    let dl = ctx.deadline(55, 800);
    for level in [IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead] {
        sequences(ctx, &format!("{level:?}"), ops().len(), ctx.pick(4, 5), dl, |i| format!("{:?}", ops()[i]), &|| {
            let txn = Arc::new(Transaction::new(1, level));
            P { lm: LockManager::new(), txn, level, held: BTreeMap::new(), row: None, state: TransactionState::Running }
        });
    }
}
