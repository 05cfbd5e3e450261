//! C19: the disk-resident B+ tree index against a sorted map.
use crate::common::*;
use crate::disk;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::storage::index::b_plus_tree_index::BPlusTreeIndex;
use ferrite::storage::index::types::comparators::{i32_comparator, I32Comparator};
use ferrite::storage::index::{IndexInfo, IndexType};
use ferrite::types_db::type_id::TypeId;
use std::collections::BTreeMap;
use std::sync::Arc;

type Tree = BPlusTreeIndex<i32, RID, I32Comparator>;
#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(i32),
    Delete(i32),
    InsertCrabbing(i32),
    DeleteCrabbing(i32),
}
struct Sys {
    tree: Tree,
    bpm: Arc<BufferPoolManager>,
    ops: Arc<Vec<Op>>,
    keys: i32,
    m: BTreeMap<i32, RID>,
    version: u32,
    _s: Scratch,
}
impl Sys {
    fn new(order: u32, keys: i32, ops: Arc<Vec<Op>>, pre: &[i32]) -> Self {
        disk::renew();
        disk::runtime();
        let scratch = Scratch::new("c19");
        let bpm = crate::c17::pool(80, &scratch);
        let schema = Schema::new(vec![Column::new("k", TypeId::Integer)]);
        let info = IndexInfo::new(schema, "i".into(), 1, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![0]);
        let mut tree = Tree::new(i32_comparator, info, bpm.clone());
        tree.init_with_order(order).unwrap();
        let mut s = Sys { tree, bpm, ops, keys, m: BTreeMap::new(), version: 0, _s: scratch };
        for &k in pre {
            s.apply(Op::Insert(k)).unwrap();
        }
        s
    }
    fn apply(&mut self, op: Op) -> Result<(), String> {
        self.version += 1;
        match op {
            Op::Insert(k) | Op::InsertCrabbing(k) => {
                let r = RID::new((200 + k) as u64, self.version);
                let got = if matches!(op, Op::Insert(_)) { self.tree.insert(k, r) } else { self.tree.insert_with_latch_crabbing(k, r) };
                got.map_err(|e| format!("{op:?} failed: {e}"))?;
                self.m.insert(k, r);
            },
            Op::Delete(k) | Op::DeleteCrabbing(k) => {
                let want = self.m.remove(&k).is_some();
                let got = if matches!(op, Op::Delete(_)) { self.tree.remove(&k) } else { self.tree.remove_with_latch_crabbing(&k) };
                if got.as_ref().map_err(|e| format!("{op:?} failed: {e}"))? != &want {
                    return Err(format!("{op:?} returned {got:?}, expected {want}"));
                }
            },
        }
        Ok(())
    }
    fn check(&self) -> Result<(), String> {
        for k in -1..=self.keys {
            let got = self.tree.search(&k).map_err(|e| format!("searching {k}: {e}"))?;
            if got != self.m.get(&k).copied() {
                return Err(format!("searching {k} returns {got:?}, expected {:?}", self.m.get(&k)));
            }
        }
        let want: Vec<i32> = self.m.keys().copied().collect();
        let got = self.tree.in_order_traversal().map_err(|e| format!("traversal: {e}"))?;
        if got != want {
            return Err(format!("the traversal gives {got:?}, expected {want:?}"));
        }
        if self.tree.get_size() != want.len() || self.tree.is_empty() != want.is_empty() {
            return Err(format!("the size is {}, expected {}", self.tree.get_size(), want.len()));
        }
        self.tree.validate_tree().map_err(|e| format!("the tree is not valid: {e}"))?;
        self.tree.validate_leaf_links().map_err(|e| format!("leaf links: {e}"))?;
        let pinned: Vec<_> = self.bpm.get_pages().read().iter().flatten().filter(|p| p.read().get_pin_count() != 0).map(|p| p.read().get_page_id()).collect();
        if !pinned.is_empty() {
            return Err(format!("pages {pinned:?} stay pinned"));
        }
        self.range(-1, self.keys)
    }
    fn range(&self, lo: i32, hi: i32) -> Result<(), String> {
        let got = self.tree.range_scan(&lo, &hi).map_err(|e| format!("scanning {lo}..={hi}: {e}"))?;
        let want: Vec<(i32, RID)> = if lo > hi { vec![] } else { self.m.range(lo..=hi).map(|(k, r)| (*k, *r)).collect() };
        (got == want).then_some(()).ok_or_else(|| format!("scanning {lo}..={hi} gives {got:?}, expected {want:?}"))
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        disk::runtime();
        self.apply(self.ops[op])?;
        self.check()?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&(self.m.keys().collect::<Vec<_>>(), self.tree.get_height(), self.tree.pre_order_traversal().map(|v| v.len()).unwrap_or(0)))
    }
    fn end(&mut self) -> Result<(), String> {
        disk::runtime();
        for lo in -1..=self.keys {
            for hi in lo - 1..=self.keys {
                self.range(lo, hi)?;
            }
        }
        Ok(())
    }
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(55, 850);
    for order in [3u32, 4] {
        let mut ops = vec![];
        for k in 0..4 {
            ops.push(Op::Insert(k));
            ops.push(Op::Delete(k));
        }
        ops.extend([Op::InsertCrabbing(1), Op::DeleteCrabbing(1), Op::InsertCrabbing(4), Op::DeleteCrabbing(3)]);
        let ops = Arc::new(ops);
        let (o, show) = (ops.clone(), ops.clone());
        sequences(ctx, &format!("order {order}, from empty"), ops.len(), ctx.pick(4, 5), dl, move |i| format!("{:?}", show[i]), &|| Sys::new(order, 5, o.clone(), &[]));
    }
    for (order, n) in [(3u32, ctx.pick(5usize, 6)), (4, ctx.pick(5, 6))] {
        let perms = crate::c20::permutations(n);
        let tot = std::sync::Mutex::new((0u64, 0u64, std::collections::HashSet::new()));
        par(perms.len(), |i| {
            let none = Arc::new(Vec::new());
            let (mut ex, mut tr, mut seen) = (0, 0, std::collections::HashSet::new());
            for (j, del) in perms.iter().enumerate() {
                if std::time::Instant::now() > dl {
                    ctx.capped();
                    break;
                }
                let crab = (i + j) % 2 == 1;
                let mut s = Sys::new(order, n as i32, none.clone(), &[]);
                let r = guard(|| -> Result<(), String> {
                    for &k in &perms[i] {
                        let k = k as i32;
                        s.ops = Arc::new(vec![if crab { Op::InsertCrabbing(k) } else { Op::Insert(k) }]);
                        s.step(0)?;
                        seen.insert(s.digest());
                    }
                    for &k in del {
                        let k = k as i32;
                        s.ops = Arc::new(vec![if crab { Op::DeleteCrabbing(k) } else { Op::Delete(k) }]);
                        s.step(0)?;
                        seen.insert(s.digest());
                    }
                    Ok(())
                });
                ex += 1;
                tr += 2 * n as u64;
                if let Ok(Err(e)) | Err(e) = r {
                    ctx.violation(&format!("order {order}: insert {:?} then delete {del:?} (latch crabbing: {crab}): {e}", perms[i]), serde_json::json!({"what": e}));
                }
            }
            let mut t = tot.lock().unwrap();
            t.0 += ex;
            t.1 += tr;
            t.2.extend(seen);
        });
        let t = tot.into_inner().unwrap();
        ctx.add(t.2.len() as u64, t.1, t.0);
        ctx.validated(t.0);
        ctx.part(serde_json::json!({"scenario": format!("order {order}: all insertion and deletion orders of {n} keys"), "runs": t.0, "states": t.2.len()}));
    }
    for (order, n) in [(3u32, 9i32), (3, 16), (4, 13), (5, 20)] {
        let up: Vec<i32> = (0..n).collect();
        let down: Vec<i32> = (0..n).rev().collect();
        let mixed: Vec<i32> = (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect();
        for (name, pre) in [("ascending", up), ("descending", down), ("mixed", mixed)] {
            let mut ops: Vec<Op> = (0..n).map(Op::Delete).collect();
            ops.extend([Op::Insert(-1), Op::Insert(n / 2), Op::Insert(n), Op::DeleteCrabbing(1), Op::InsertCrabbing(n)]);
            let ops = Arc::new(ops);
            let (o, show) = (ops.clone(), ops.clone());
            let d = ctx.pick(if n > 13 { 2 } else { 3 }, if n > 13 { 3 } else { 4 });
            sequences(ctx, &format!("order {order}, {n} keys {name}"), ops.len(), d, dl, move |i| format!("{:?}", show[i]), &|| Sys::new(order, n + 1, o.clone(), &pre));
        }
    }
    // emptying larger trees in every rotation of both directions
    for (order, n) in [(3u32, 16i32), (4, 20)] {
        let words: Vec<(bool, i32, bool)> = (0..n).flat_map(|r| [(true, r, true), (true, r, false), (false, r, true), (false, r, false)]).collect();
        par(words.len(), |w| {
            let (up, rot, pre_up) = words[w];
            let pre: Vec<i32> = if pre_up { (0..n).collect() } else { (0..n).rev().collect() };
            let mut s = Sys::new(order, n, Arc::new(vec![]), &pre);
            let r = guard(|| -> Result<(), String> {
                for i in 0..n {
                    let k = (if up { i + rot } else { 2 * n - 1 - i + rot }) % n;
                    s.ops = Arc::new(vec![Op::Delete(k)]);
                    s.step(0).map_err(|e| format!("at step {i}: {e}"))?;
                }
                s.end()
            });
            ctx.add(0, n as u64, 1);
            ctx.validated(1);
            if let Ok(Err(e)) | Err(e) = r {
                ctx.violation(&format!("order {order}, {n} keys inserted {}, deleted {} from {rot}: {e}", if pre_up { "ascending" } else { "descending" }, if up { "upwards" } else { "downwards" }), serde_json::json!({"what": e}));
            }
        });
    }
}
