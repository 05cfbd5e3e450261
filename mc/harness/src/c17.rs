//! C17: table heaps (pages, heap, scan) against a map from locations to rows.
use crate::common::*;
use crate::disk;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::PageTrait;
use ferrite::storage::table::table_heap::{TableHeap, TableInfo};
use ferrite::storage::table::table_iterator::TableScanIterator;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use std::collections::BTreeMap;
use std::sync::Arc;

fn schema() -> Schema {
    Schema::new(vec![Column::new("id", TypeId::Integer), Column::new("text", TypeId::VarChar)])
}
pub fn pool(frames: usize, s: &Scratch) -> Arc<BufferPoolManager> {
    let m = Arc::new(disk::open(s, disk::config()));
    Arc::new(BufferPoolManager::new(frames, m, Arc::new(parking_lot::RwLock::new(LRUKReplacer::new(frames, 2)))).unwrap())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Size {
    S,
    M,
    L,
    XL,
}
fn text(z: Size, v: i32) -> String {
    let n = match z {
        Size::S => 6,
        Size::M => 1100,
        Size::L => 2600,
        Size::XL => 5000,
    };
    format!("{v:06}").repeat(n / 6 + 1)[..n].to_string()
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(Size),
    /// update the oldest / newest live row
    Update(bool, Size),
    Delete(bool),
    Commit(bool),
    Foreign(bool),
    DeleteAgain,
    /// take the deletion of the oldest deleted row back, as an abort does
    Undelete,
    Restart,
}
fn ops() -> Vec<Op> {
    use Op::*;
    use Size::*;
    vec![
        Insert(S), Insert(M), Update(false, S), Delete(false), Insert(L), Update(true, M), Delete(true), Update(false, L), Restart, Commit(true), Foreign(true), Insert(XL), Update(true, XL),
        Commit(false), DeleteAgain, Undelete,
    ]
}
#[derive(Clone, Debug, PartialEq)]
struct Row {
    id: i32,
    text: String,
    meta: TupleMeta,
}
struct Sys {
    heap: Option<Arc<TableHeap>>,
    bpm: Option<Arc<BufferPoolManager>>,
    frames: usize,
    rows: BTreeMap<(u64, u32), Row>,
    order: Vec<(u64, u32)>,
    next: i32,
    s: Scratch,
}
fn key(r: RID) -> (u64, u32) {
    (r.get_page_id(), r.get_slot_num())
}
fn same_meta(a: &TupleMeta, b: &TupleMeta) -> bool {
    a == b
}
impl Sys {
    fn new(frames: usize) -> Self {
        disk::renew();
        disk::runtime();
        let s = Scratch::new("c17");
        let bpm = pool(frames, &s);
        Sys { heap: Some(Arc::new(TableHeap::new(bpm.clone(), 1))), bpm: Some(bpm), frames, rows: BTreeMap::new(), order: vec![], next: 0, s }
    }
    fn h(&self) -> &Arc<TableHeap> {
        self.heap.as_ref().unwrap()
    }
    fn live(&self, newest: bool) -> Option<(u64, u32)> {
        let mut it = self.order.iter().filter(|k| !self.rows[*k].meta.is_deleted());
        if newest { it.next_back().copied() } else { it.next().copied() }
    }
    fn check(&self) -> Result<(), String> {
        for (k, r) in &self.rows {
            let rid = RID::new(k.0, k.1);
            let got = self.h().get_tuple(rid);
            match (r.meta.is_deleted(), got) {
                (true, Ok(_)) => return Err(format!("the deleted row {} is still found at {k:?}", r.id)),
                (false, Err(e)) => return Err(format!("row {} at {k:?} is not found: {e}", r.id)),
                (false, Ok((m, t))) => {
                    if t.get_value(0) != Value::new(r.id) || t.get_value(1) != Value::new(r.text.clone()) {
                        return Err(format!("the row at {k:?} is not the one stored there last (id {})", r.id));
                    }
                    if t.get_rid() != rid {
                        return Err(format!("the row at {k:?} says it is at {:?}", t.get_rid()));
                    }
                    if !same_meta(&m, &r.meta) {
                        return Err(format!("row {} at {k:?} has {m:?} instead of {:?}", r.id, r.meta));
                    }
                },
                (true, Err(_)) => {},
            }
        }
        let info = Arc::new(TableInfo::new(schema(), "t".into(), self.h().clone(), 1));
        let mut it = TableScanIterator::new(info);
        for round in 0..2 {
            let mut seen = vec![];
            while let Some((_, t)) = it.next() {
                if key(t.get_rid()) != key(it.get_rid()) {
                    return Err(format!("the scan says {:?} for the row at {:?}", it.get_rid(), t.get_rid()));
                }
                seen.push((key(t.get_rid()), t.get_value(0)));
                if seen.len() > self.rows.len() {
                    return Err("a scan returned more rows than there are".into());
                }
            }
            let want: Vec<_> = self.rows.iter().filter(|(_, r)| !r.meta.is_deleted()).map(|(k, r)| (*k, Value::new(r.id))).collect();
            if seen != want {
                return Err(format!(
                    "a scan (round {round}) returned rows {:?}; {:?} are there",
                    seen.iter().map(|x| x.0).collect::<Vec<_>>(),
                    want.iter().map(|x| x.0).collect::<Vec<_>>()
                ));
            }
            it.reset();
        }
        if self.h().get_num_tuples() != self.rows.len() {
            return Err(format!("the heap counts {} rows (deleted ones included); {} were inserted", self.h().get_num_tuples(), self.rows.len()));
        }
        Ok(())
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        disk::runtime();
        match ops()[op] {
            Op::Insert(z) => {
                self.next += 1;
                let meta = TupleMeta::new(7);
                let t = text(z, self.next);
                let r = self.h().insert_tuple_from_values(vec![Value::new(self.next), Value::new(t.clone())], &schema(), Arc::new(meta));
                match (z, r) {
                    (Size::XL, Ok(r)) => return Err(format!("a row larger than a page was stored at {r:?}")),
                    (Size::XL, Err(_)) => {},
                    (_, Err(e)) => return Err(format!("inserting row {} failed: {e}", self.next)),
                    (_, Ok(r)) => {
                        if self.rows.insert(key(r), Row { id: self.next, text: t, meta }).is_some() {
                            return Err(format!("row {} was stored over another one at {r:?}", self.next));
                        }
                        self.order.push(key(r));
                    },
                }
            },
            Op::Update(newest, z) => {
                let Some(k) = self.live(newest) else { return Ok(false) };
                self.next += 1;
                let old = self.rows[&k].clone();
                let mut meta = old.meta;
                meta.set_undo_log_idx(self.next as usize * 100).unwrap();
                let t = text(z, self.next);
                let rid = RID::new(k.0, k.1);
                let tuple = Tuple::new(&[Value::new(self.next), Value::new(t.clone())], &schema(), rid);
                match self.h().update_tuple(Arc::new(meta), &tuple, rid, None) {
                    Ok(r) if r != rid => return Err(format!("the update moved the row from {k:?} to {r:?}")),
                    Ok(_) if z == Size::XL => return Err("a row was updated to more than a page".into()),
                    Ok(_) => {
                        self.rows.insert(k, Row { id: self.next, text: t, meta });
                    },
                    Err(e) if t.len() <= old.text.len() => return Err(format!("the update of row {} to a shorter one failed: {e}", old.id)),
                    Err(_) => {},
                }
            },
            Op::Delete(newest) => {
                let Some(k) = self.live(newest) else { return Ok(false) };
                let mut meta = self.rows[&k].meta;
                meta.set_deleted(true);
                self.h().update_tuple_meta(Arc::new(meta), RID::new(k.0, k.1)).map_err(|e| format!("deleting the row at {k:?}: {e}"))?;
                self.rows.get_mut(&k).unwrap().meta = meta;
            },
            Op::DeleteAgain => {
                let Some((k, r)) = self.rows.iter().find(|(_, r)| r.meta.is_deleted()) else { return Ok(false) };
                let t = Tuple::new(&[Value::new(0), Value::new("x")], &schema(), RID::new(k.0, k.1));
                if self.h().update_tuple(Arc::new(TupleMeta::new(7)), &t, RID::new(k.0, k.1), None).is_ok() {
                    return Err(format!("the deleted row {} was updated", r.id));
                }
            },
            Op::Undelete => {
                let Some(k) = self.order.iter().find(|k| self.rows[*k].meta.is_deleted()).copied() else { return Ok(false) };
                let mut meta = self.rows[&k].meta;
                meta.set_deleted(false);
                let g = self.bpm.as_ref().unwrap().fetch_page::<TablePage>(k.0).ok_or("the page is gone")?;
                g.write().update_tuple_meta(meta, &RID::new(k.0, k.1)).map_err(|e| format!("bringing the row at {k:?} back: {e}"))?;
                g.write().set_dirty(true);
                self.rows.get_mut(&k).unwrap().meta = meta;
            },
            Op::Commit(newest) => {
                let Some(k) = self.live(newest) else { return Ok(false) };
                self.next += 1;
                let mut meta = self.rows[&k].meta;
                meta.set_commit_timestamp(1 << self.next);
                self.h().update_tuple_meta(Arc::new(meta), RID::new(k.0, k.1)).map_err(|e| format!("committing the row at {k:?}: {e}"))?;
                self.rows.get_mut(&k).unwrap().meta = meta;
            },
            Op::Foreign(newest) => {
                // another transaction (8) may only change committed rows
                let Some(k) = self.live(newest) else { return Ok(false) };
                let rid = RID::new(k.0, k.1);
                let r = self.rows[&k].clone();
                if r.meta.get_creator_txn_id() == 8 {
                    return Ok(false);
                }
                let t = Tuple::new(&[Value::new(-r.id), Value::new(r.text.clone())], &schema(), rid);
                let got = self.h().update_tuple(Arc::new(TupleMeta::new(8)), &t, rid, None);
                if got.is_ok() != r.meta.is_committed() {
                    return Err(format!("an update of the row at {k:?} ({:?}) by another transaction returned {got:?}", r.meta));
                }
                if got.is_ok() {
                    self.rows.insert(k, Row { id: -r.id, text: r.text, meta: TupleMeta::new(8) });
                }
            },
            Op::Restart => {
                let h = self.heap.take().unwrap();
                let (first, last) = (h.get_first_page_id_raw(), h.get_last_page_id_raw());
                drop(h);
                let b = self.bpm.take().unwrap();
                disk::block_on(b.flush_all_pages_durable()).map_err(|e| format!("durable flush: {e}"))?;
                drop(b);
                let bpm = pool(self.frames, &self.s);
                self.heap = Some(Arc::new(TableHeap::reopen(bpm.clone(), 1, first, last)));
                self.bpm = Some(bpm);
            },
        }
        self.check()?;
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.rows.iter().map(|(k, r)| (*k, r.text.len(), r.meta.is_deleted(), r.meta.is_committed())).collect::<Vec<_>>())
    }
}
/// Many small rows and their bookkeeping fill a page to the last byte: every mix of row sizes, on the bare page.
struct PageSys {
    page: TablePage,
    rows: Vec<(String, TupleMeta)>,
    n: u64,
}
impl System for PageSys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        self.n += 1;
        let meta_of = |n: u64, big: bool| {
            let mut m = TupleMeta::new(if big { u64::MAX - n } else { n });
            if big {
                m.set_commit_timestamp(u64::MAX - n);
                m.set_undo_log_idx(usize::MAX / 2).unwrap();
            }
            m
        };
        match op {
            0..=2 => {
                // fill with rows of one size until no more fit
                let len = [1usize, 37, 400][op];
                loop {
                    let rid = self.page.get_next_rid();
                    let t = "y".repeat(len);
                    let tuple = Tuple::new(&[Value::new(1), Value::new(t.clone())], &schema(), rid);
                    let m = meta_of(self.n, false);
                    let fits = self.page.has_space_for(&m, &tuple);
                    match self.page.insert_tuple(&m, &tuple) {
                        Some(r) if r != rid || !fits => return Err(format!("the row went to {r:?} instead of {rid:?} (room was promised: {fits})")),
                        Some(_) => self.rows.push((t, m)),
                        None if fits => return Err("there was room for a row, but it was not stored".into()),
                        None => break,
                    }
                    if op == 2 && self.rows.len() % 3 == 2 {
                        break;
                    }
                }
            },
            3..=5 => {
                // bookkeeping of the first / middle / last row grows to its largest
                if self.rows.is_empty() {
                    return Ok(false);
                }
                let i = [0, self.rows.len() / 2, self.rows.len() - 1][op - 3];
                let m = meta_of(self.n, true);
                let rid = RID::new(9, i as u32);
                if self.page.update_tuple_meta(m, &rid).is_ok() {
                    self.rows[i].1 = m;
                }
            },
            6 | 7 => {
                if self.rows.is_empty() {
                    return Ok(false);
                }
                let i = if op == 6 { 0 } else { self.rows.len() - 1 };
                let t = "z".repeat(if op == 6 { self.rows[0].0.len() + 44 } else { 3 });
                let rid = RID::new(9, i as u32);
                let m = meta_of(self.n, true);
                if self.page.update_tuple(m, &Tuple::new(&[Value::new(1), Value::new(t.clone())], &schema(), rid), rid).is_ok() {
                    self.rows[i] = (t, m);
                }
            },
            9 | 10 => {
                // the first or last row is deleted, or brought back
                if self.rows.is_empty() {
                    return Ok(false);
                }
                let i = if op == 9 { 0 } else { self.rows.len() - 1 };
                let mut m = self.rows[i].1;
                m.set_deleted(!m.is_deleted());
                if self.page.update_tuple_meta(m, &RID::new(9, i as u32)).is_ok() {
                    self.rows[i].1 = m;
                }
            },
            _ => {
                // all bookkeeping grows
                for i in 0..self.rows.len() {
                    let m = meta_of(self.n, true);
                    if self.page.update_tuple_meta(m, &RID::new(9, i as u32)).is_ok() {
                        self.rows[i].1 = m;
                    }
                }
            },
        }
        let mut copy = <TablePage as ferrite::storage::page::Page>::new(9);
        copy.set_data(0, &self.page.to_bytes()).map_err(|e| format!("the stored page cannot be loaded: {e:?}"))?;
        for (what, p) in [("the page", &self.page), ("the page after storing and loading it", &copy)] {
            if p.get_num_tuples() as usize != self.rows.len() {
                return Err(format!("{what} has {} rows; {} were stored", p.get_num_tuples(), self.rows.len()));
            }
            for (i, (t, m)) in self.rows.iter().enumerate() {
                match p.get_tuple(&RID::new(9, i as u32), true) {
                    Ok((m2, t2)) => {
                        if t2.get_value(1) != Value::new(t.clone()) || m2 != *m {
                            return Err(format!("row {i} of {what} is not what was stored"));
                        }
                    },
                    Err(e) => return Err(format!("row {i} of {what}: {e}")),
                }
            }
        }
        Ok(true)
    }
    fn digest(&self) -> u64 {
        hash(&self.rows.iter().map(|(t, m)| (t.len(), m.is_committed(), m.is_deleted())).collect::<Vec<_>>())
    }
}
pub fn run(ctx: &'static Ctx) {
    let dl = ctx.deadline(55, 800);
    let show = |i: usize| format!("{:?}", ops()[i]);
    sequences(ctx, "one heap, large pool", ops().len(), ctx.pick(4, 6), dl, show, &|| Sys::new(20));
    sequences(ctx, "one heap, three frames", ops().len(), ctx.pick(4, 5), dl, show, &|| Sys::new(3));
    let at = |o: &str| ops().iter().position(|x| format!("{x:?}") == o).unwrap();
    // two pages, the first full; three pages with the middle one deleted
    let start: Vec<usize> = ["Insert(M)", "Insert(L)", "Insert(L)", "Insert(S)", "Commit(true)"].iter().map(|o| at(o)).collect();
    sequences_from(ctx, "rows on several pages", &start, ops().len(), ctx.pick(4, 5), dl, show, &|| Sys::new(3));
    sequences(ctx, "one page filled to the end", 11, ctx.pick(4, 6), dl, |i| {
        ["fill with tiny rows", "fill with small rows", "add rows of 400", "grow first meta", "grow middle meta", "grow last meta", "grow first row", "shrink last row", "grow all metas", "delete or bring back first row", "delete or bring back last row"][i].into()
    }, &|| PageSys { page: { let mut p = <TablePage as ferrite::storage::page::Page>::new(9); p.init(); p }, rows: vec![], n: 0 });
}
