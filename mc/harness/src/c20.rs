//! C20: the in-memory B+ tree index and its iterator against a sorted set of entries.
use crate::common::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::storage::index::b_plus_tree::BPlusTree;
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::Type;
use ferrite::types_db::value::Value;
use std::collections::BTreeSet;
use std::sync::Arc;

fn info() -> (Arc<IndexInfo>, Schema) {
    let s = Schema::new(vec![Column::new("k", TypeId::Integer)]);
    (Arc::new(IndexInfo::new(s.clone(), "i".into(), 1, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![0])), s)
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(i32, u32),
    Delete(i32, u32),
}
fn rid(k: i32, r: u32) -> RID {
    RID::new((100 + k) as u64, r)
}
struct Sys {
    tree: BPlusTree,
    schema: Schema,
    ops: Arc<Vec<Op>>,
    keys: i32,
    txn: Transaction,
    m: BTreeSet<(i32, u32)>,
}
type Entries = Vec<(i32, RID)>;
impl Sys {
    fn new(order: usize, keys: i32, ops: Arc<Vec<Op>>, pre: &[i32]) -> Self {
        let (i, schema) = info();
        let mut s = Sys { tree: BPlusTree::new(order, i), schema, ops, keys, txn: Transaction::new(1, IsolationLevel::ReadCommitted), m: BTreeSet::new() };
        for &k in pre {
            s.insert(k, 0).unwrap();
        }
        s
    }
    /// Key -1 is NULL; it comes before all others.
    fn key(&self, k: i32) -> Tuple {
        let v = if k < 0 { Value::new_with_type(ferrite::types_db::value::Val::Null, ferrite::types_db::type_id::TypeId::Integer) } else { Value::new(k) };
        Tuple::new(&[v], &self.schema, RID::new(0, 0))
    }
    fn insert(&mut self, k: i32, r: u32) -> Result<(), String> {
        let want = self.m.insert((k, r));
        let t = self.key(k);
        let got = self.tree.insert_entry(&t, rid(k, r), &self.txn);
        (got == want).then_some(()).ok_or(format!("inserting key {k} row {r} returned {got}, expected {want}"))
    }
    fn want(&self, lo: i32, hi: i32, incl: bool) -> Entries {
        self.m.iter().filter(|(k, _)| *k >= lo && (*k < hi || incl && *k == hi)).map(|&(k, r)| (k, rid(k, r))).collect()
    }
    fn same(&self, what: String, got: Result<Vec<(Value, RID)>, String>, want: Entries) -> Result<(), String> {
        let got: Entries = got.map_err(|e| format!("{what} failed: {e}"))?.into_iter().map(|(k, r)| (if k.is_null() { -1 } else { k.as_integer().unwrap() }, r)).collect();
        if got.windows(2).any(|w| w[0].0 > w[1].0) {
            return Err(format!("{what} is out of order: {got:?}"));
        }
        let mut s = got.clone();
        s.sort_by_key(|(k, r)| (*k, r.get_slot_num()));
        if s != want {
            return Err(format!("{what} returns {got:?}, expected {want:?}"));
        }
        Ok(())
    }
    fn ranges(&self) -> Result<(), String> {
        for lo in -1..=self.keys {
            self.same(format!("looking up {lo}"), self.tree.scan_key(&self.key(lo), &self.txn), self.want(lo, lo, true))?;
            for hi in lo..=self.keys {
                for incl in [false, true] {
                    self.same(format!("scanning {lo}..{hi} inclusive={incl}"), self.tree.scan_range(&self.key(lo), &self.key(hi), incl), self.want(lo, hi, incl))?;
                }
            }
        }
        Ok(())
    }
    fn drain(&self, what: String, mut it: impl FnMut() -> Option<RID>, want: &Entries) -> Result<(), String> {
        let mut got = Vec::new();
        while let Some(r) = it() {
            got.push(r);
            if got.len() > want.len() + 3 {
                break;
            }
        }
        got.sort_by_key(|r| (r.get_page_id(), r.get_slot_num()));
        let want: Vec<RID> = want.iter().map(|x| x.1).collect();
        if got != want {
            return Err(format!("{what} returns {got:?}, expected {want:?}"));
        }
        Ok(())
    }
    fn iterators(&self) -> Result<(), String> {
        let all = self.want(-1, self.keys, true);
        let mut it = self.tree.create_iterator(None, None);
        self.drain("a full iterator".into(), || it.next(), &all)?;
        if !it.is_end() {
            return Err("a drained iterator is not at its end".into());
        }
        it.reset();
        self.drain("a reset iterator".into(), || it.next(), &all)?;
        for lo in -1..=self.keys {
            let mut it = self.tree.create_point_iterator(&self.key(lo));
            self.drain(format!("a point iterator at {lo}"), || it.next(), &self.want(lo, lo, true))?;
            for hi in lo..=self.keys {
                let w = self.want(lo, hi, true);
                let mut it = self.tree.create_iterator(Some(self.key(lo)), Some(self.key(hi)));
                self.drain(format!("an iterator over {lo}..={hi}"), || it.next(), &w)?;
                it.reset();
                self.drain(format!("a reset iterator over {lo}..={hi}"), || it.next(), &w)?;
                it.reset();
                let mut n = 0;
                self.drain(
                    format!("an iterator over {lo}..={hi} used from both ends"),
                    || {
                        n += 1;
                        if n % 2 == 1 { it.next_back() } else { it.next() }
                    },
                    &w,
                )?;
                it.reset();
                let mid = (lo + hi) / 2;
                let mut first = Some(it.seek(&self.key(mid)));
                self.drain(format!("an iterator over {lo}..={hi} after seeking {mid}"), || first.take().unwrap_or_else(|| it.next()), &self.want(mid, hi, true))?;
            }
        }
        Ok(())
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let op = self.ops[op];
        let k = match op {
            Op::Insert(k, r) => {
                self.insert(k, r)?;
                k
            },
            Op::Delete(k, r) => {
                let want = self.m.remove(&(k, r));
                let t = self.key(k);
                let got = self.tree.delete_entry(&t, rid(k, r), &self.txn);
                if got != want {
                    return Err(format!("deleting key {k} row {r} returned {got}, expected {want}"));
                }
                k
            },
        };
        self.same("a full scan".into(), self.tree.scan_full(), self.want(-1, self.keys, true))?;
        self.same(format!("looking up {k}"), self.tree.scan_key(&self.key(k), &self.txn), self.want(k, k, true))?;
        self.same(format!("scanning from {k}"), self.tree.scan_range(&self.key(k), &self.key(self.keys), true), self.want(k, self.keys, true))?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.tree.visualize())
    }
    fn end(&mut self) -> Result<(), String> {
        self.ranges()?;
        self.iterators()
    }
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(58, 850);
    // few keys with up to two rows each, from an empty tree
    for order in [3usize, 4, 5] {
        let mut ops: Vec<Op> = (-1..2).map(|k| Op::Insert(k, 0)).collect();
        ops.extend((-1..1).map(|k| Op::Insert(k, 1)));
        ops.extend((-1..2).map(|k| Op::Delete(k, 0)));
        ops.extend((-1..1).map(|k| Op::Delete(k, 1)));
        let ops = Arc::new(ops);
        let (o, show) = (ops.clone(), ops.clone());
        sequences(ctx, &format!("order {order}, duplicate keys"), ops.len(), ctx.pick(4, 6), dl, move |i| format!("{:?}", show[i]), &|| Sys::new(order, 3, o.clone(), &[]));
    }
    // every insertion order of n keys and every deletion order after it
    for (order, n) in [(3usize, ctx.pick(5usize, 6)), (4, ctx.pick(5, 6))] {
        let perms = permutations(n);
        let tot = std::sync::Mutex::new((0u64, 0u64, std::collections::HashSet::new()));
        par(perms.len(), |i| {
            let ops = Arc::new(Vec::new());
            let (mut ex, mut tr, mut seen) = (0, 0, std::collections::HashSet::new());
            for del in &perms {
                if std::time::Instant::now() > dl {
                    ctx.capped();
                    break;
                }
                let mut s = Sys::new(order, n as i32, ops.clone(), &[]);
                let r = guard(|| -> Result<(), String> {
                    for &k in &perms[i] {
                        s.ops = Arc::new(vec![Op::Insert(k as i32 - 1, 0)]);
                        s.step(0)?;
                        seen.insert(s.digest());
                    }
                    for &k in del {
                        s.ops = Arc::new(vec![Op::Delete(k as i32 - 1, 0)]);
                        s.step(0)?;
                        seen.insert(s.digest());
                    }
                    Ok(())
                });
                ex += 1;
                tr += 2 * n as u64;
                if let Ok(Err(e)) | Err(e) = r {
                    ctx.violation(&format!("order {order}: insert {:?} then delete {del:?}: {e}", perms[i]), serde_json::json!({"what": e}));
                }
            }
            let mut t = tot.lock().unwrap();
            t.0 += ex;
            t.1 += tr;
            t.2.extend(seen);
        });
        let t = tot.into_inner().unwrap();
        ctx.add(t.2.len() as u64, t.1, t.0);
        ctx.validated(t.0);
        ctx.part(serde_json::json!({"scenario": format!("order {order}: all insertion and deletion orders of {n} keys"), "runs": t.0, "trees": t.2.len()}));
    }
    // from larger trees of three levels
    for (order, n) in [(3usize, 9i32), (4, 13), (5, 20)] {
        let up: Vec<i32> = (0..n).collect();
        let down: Vec<i32> = (0..n).rev().collect();
        let mixed: Vec<i32> = (0..n).map(|i| i * 7 % n.max(8)).filter(|i| *i < n).collect();
        let mixed = if mixed.iter().collect::<BTreeSet<_>>().len() == mixed.len() { mixed } else { (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect() };
        for (name, pre) in [("ascending", up), ("descending", down), ("mixed", mixed)] {
            let mut ops: Vec<Op> = (0..n).map(|k| Op::Delete(k, 0)).collect();
            ops.extend([Op::Insert(0, 0), Op::Insert(n / 2, 1), Op::Insert(n - 1, 0)]);
            let ops = Arc::new(ops);
            let (o, show) = (ops.clone(), ops.clone());
            let d = match order { 3 => ctx.pick(3, 5), 4 => ctx.pick(3, 4), _ => ctx.pick(2, 4) };
            sequences(ctx, &format!("order {order}, {n} keys {name}"), ops.len(), d, dl, move |i| format!("{:?}", show[i]), &|| Sys::new(order, n, o.clone(), &pre));
        }
    }
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
