//! C27: reading tables. Every access path - sequential, over an index, as the inner side of an
//! index join - against the rows that the transaction sees.
use crate::common::*;
use crate::query::*;
use ferrite::common::config::TableOidT;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::create_index_plan::CreateIndexPlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::plans::table_scan_plan::TableScanNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::types_db::type_id::TypeId;
use serde_json::json;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

const T: Cols = &[("k", TypeId::Integer), ("v", TypeId::Integer)];
const L: Cols = &[("l.a", TypeId::Integer), ("l.b", TypeId::Integer)];

#[derive(Clone, Debug)]
pub enum P {
    /// column op constant
    K(usize, &'static str, C),
    /// constant op column
    R(C, &'static str, usize),
    /// column op column
    CC(usize, &'static str, usize),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
    Not(Box<P>),
}
impl P {
    pub fn ex(&self, t: Cols) -> Ex {
        match self {
            P::K(c, o, v) => cmp(o, col(0, t, *c), lit(v, t[*c].1)),
            P::R(v, o, c) => cmp(o, lit(v, t[*c].1), col(0, t, *c)),
            P::CC(a, o, b) => cmp(o, col(0, t, *a), col(0, t, *b)),
            P::And(a, b) => and(a.ex(t), b.ex(t)),
            P::Or(a, b) => or(a.ex(t), b.ex(t)),
            P::Not(a) => not(a.ex(t)),
        }
    }
    pub fn holds(&self, r: &[C]) -> Option<bool> {
        match self {
            P::K(c, o, v) => test(o, &r[*c], v),
            P::R(v, o, c) => test(o, v, &r[*c]),
            P::CC(a, o, b) => test(o, &r[*a], &r[*b]),
            P::And(a, b) => and3(a.holds(r), b.holds(r)),
            P::Or(a, b) => and3(a.holds(r).map(|x| !x), b.holds(r).map(|x| !x)).map(|x| !x),
            P::Not(a) => a.holds(r).map(|x| !x),
        }
    }
}
const OPS: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];
fn k(o: &'static str, c: i64) -> P {
    P::K(0, o, C::I(c))
}
fn b(p: &P) -> Box<P> {
    Box::new(p.clone())
}
/// Conditions over the columns; the lists are conjunctions.
fn conditions(deep: bool) -> Vec<Vec<P>> {
    let mut base: Vec<P> = OPS.iter().flat_map(|o| (1..4).map(|c| k(o, c))).collect();
    let simple = base.clone();
    for o in OPS {
        base.push(P::R(C::I(2), o, 0));
        base.push(P::CC(0, o, 1));
    }
    base.push(P::CC(1, "<", 0));
    base.push(P::K(0, "=", C::N));
    base.push(P::K(0, "<", C::N));
    base.push(P::K(1, "=", C::I(1)));
    base.push(P::K(1, ">", C::I(2)));
    base.push(P::K(1, "<", C::I(2)));
    let some: Vec<P> = if deep {
        base.iter().filter(|p| !matches!(p, P::K(_, "<=", _) | P::K(_, ">=", _))).cloned().collect()
    } else {
        vec![k("=", 1), k("=", 3), k("<", 2), k(">", 2), k("<>", 2), k("<=", 1), P::R(C::I(2), "<", 0), P::K(1, "=", C::I(1)), P::K(0, "=", C::N)]
    };
    let mut all: Vec<Vec<P>> = vec![vec![]];
    all.extend(base.iter().map(|p| vec![p.clone()]));
    all.extend(simple.iter().map(|p| vec![P::Not(b(p))]));
    for x in &some {
        for y in &some {
            all.push(vec![P::And(b(x), b(y))]);
            all.push(vec![P::Or(b(x), b(y))]);
            all.push(vec![x.clone(), y.clone()]);
        }
    }
    for x in &some[..4] {
        for y in &some[..4] {
            all.push(vec![P::Not(Box::new(P::And(b(x), b(y))))]);
            all.push(vec![P::Not(Box::new(P::Or(b(x), b(y))))]);
            for z in &some[..4] {
                all.push(vec![P::And(Box::new(P::Or(b(x), b(y))), b(z))]);
                all.push(vec![P::Or(Box::new(P::And(b(x), b(y))), b(z))]);
            }
        }
    }
    all
}
#[derive(Clone, Debug, PartialEq)]
enum Dml {
    Insert(Vec<Row>),
    Update(i64, C),
    Delete(i64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Commit,
    Abort,
    /// the reader's own, still running
    Own,
    /// somebody else's, still running
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    First,
    AfterRows,
    Last,
}
pub fn table_plan(db: &Db, name: &str) -> (PlanNode, TableOidT) {
    let c = db.catalog.read();
    let t = c.get_table(name).expect("table");
    (PlanNode::SeqScan(SeqScanPlanNode::new(t.get_table_schema(), t.get_table_oidt(), name.into())), t.get_table_oidt())
}
pub fn filter(child: PlanNode, oid: TableOidT, name: &str, cols: Cols, p: Ex) -> PlanNode {
    PlanNode::Filter(FilterNode::new(schema(cols), oid, name.into(), p, vec![child]))
}
fn dml(db: &Db, d: &Dml) -> PlanNode {
    let (scan, oid) = table_plan(db, "t");
    match d {
        Dml::Insert(rows) => {
            let child = rows_plan(T, rows, false);
            PlanNode::Insert(InsertNode::new(schema(T), oid, "t".into(), vec![], vec![child]))
        },
        Dml::Update(from, to) => {
            let set = Arc::new(ferrite::sql::execution::expressions::abstract_expression::Expression::Assignment(
                ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression::new(0, column(T[0].0, T[0].1), lit(to, T[0].1)),
            ));
            PlanNode::Update(UpdateNode::new(schema(T), "t".into(), oid, vec![set], vec![filter(scan, oid, "t", T, k("=", *from).ex(T))]))
        },
        Dml::Delete(from) => PlanNode::Delete(DeleteNode::new(schema(T), "t".into(), oid, vec![filter(scan, oid, "t", T, k("=", *from).ex(T))])),
    }
}
fn exec(db: &Db, tx: &Arc<TransactionContext>, p: &PlanNode) -> Result<Option<i64>, String> {
    statement(p, &db.context(tx))
}
pub fn commit(db: &Db, tx: &Arc<TransactionContext>) -> bool {
    crate::disk::block_on(db.txns.commit(tx.get_transaction(), db.pool.clone()))
}
/// A row as everybody sees it, and as the changing transaction does if it changed it.
#[derive(Default)]
struct Slot {
    committed: Option<Row>,
    own: Option<Option<Row>>,
}
impl Slot {
    fn mine(&self) -> Option<Row> {
        self.own.clone().unwrap_or(self.committed.clone())
    }
}
fn apply(c: &mut Vec<Slot>, d: &Dml, own: bool) {
    let set = |s: &mut Slot, r: Option<Row>| if own { s.own = Some(r) } else { s.committed = r };
    if let Dml::Insert(rows) = d {
        for r in rows {
            let mut s = Slot::default();
            set(&mut s, Some(r.clone()));
            c.push(s);
        }
        return;
    }
    for s in c.iter_mut() {
        let Some(r) = (if own { s.mine() } else { s.committed.clone() }) else { continue };
        match d {
            Dml::Update(f, t) if r[0] == C::I(*f) => set(s, Some(vec![t.clone(), r[1].clone()])),
            Dml::Delete(f) if r[0] == C::I(*f) => set(s, None),
            _ => {},
        }
    }
}
struct Case<'a> {
    rows: &'a [Row],
    changes: &'a [(Dml, End)],
    when: When,
    key: &'a [usize],
}
fn case(ctx: &Ctx, c: &Case, conds: &[Vec<P>], count: &AtomicU64) {
    let db = Db::new("c27");
    let fail = |what: String| {
        ctx.violation(
            &format!("index on columns {:?} made {:?}, rows {:?}, changes {:?}: {what}", c.key, c.when, c.rows, c.changes),
            json!({"rows": format!("{:?}", c.rows), "changes": format!("{:?}", c.changes), "index": format!("{:?} {:?}", c.key, c.when), "what": what}),
        )
    };
    {
        let mut cat = db.catalog.write();
        cat.create_table("t".into(), schema(T)).expect("table");
    }
    let index = |db: &Db| {
        let tx = db.begin();
        let cols: Vec<_> = c.key.iter().map(|i| T[*i]).collect();
        let p = PlanNode::CreateIndex(CreateIndexPlanNode::new(schema(&cols), "t".into(), "i".into(), c.key.to_vec(), false));
        exec(&db, &tx, &p).and_then(|_| if commit(db, &tx) { Ok(()) } else { Err("commit".into()) })
    };
    let mut slots: Vec<Slot> = c.rows.iter().map(|r| Slot { committed: Some(r.clone()), own: None }).collect();
    let setup = || -> Result<_, String> {
        if c.when == When::First {
            index(&db)?;
        }
        let tx = db.begin();
        if !c.rows.is_empty() {
            exec(&db, &tx, &dml(&db, &Dml::Insert(c.rows.to_vec())))?;
        }
        if !commit(&db, &tx) {
            return Err("commit".into());
        }
        if c.when == When::AfterRows {
            index(&db)?;
        }
        Ok(())
    };
    if let Err(e) = setup() {
        return fail(format!("preparing: {e}"));
    }
    // one that reads what was there before the changes
    let old = db.of(db.txns.begin(IsolationLevel::RepeatableRead).expect("begin"));
    let mut own: Option<Arc<TransactionContext>> = None;
    let mut others = vec![];
    for (d, end) in c.changes {
        let tx = match end {
            End::Own => own.get_or_insert_with(|| db.begin()).clone(),
            _ => db.begin(),
        };
        match exec(&db, &tx, &dml(&db, d)) {
            Ok(_) => {},
            Err(e) => return fail(format!("{d:?}: {e}")),
        }
        match end {
            End::Commit => {
                if !commit(&db, &tx) {
                    return fail("commit failed".into());
                }
                apply(&mut slots, d, false);
            },
            End::Abort => db.txns.abort(tx.get_transaction()),
            End::Own => apply(&mut slots, d, true),
            End::Other => others.push(tx),
        }
    }
    if c.when == When::Last {
        if let Err(e) = index(&db) {
            return fail(format!("create index: {e}"));
        }
    }
    let content: Vec<Row> = slots.iter().filter_map(|s| s.committed.clone()).collect();
    let mine: Vec<Row> = slots.iter().filter_map(|s| s.mine()).collect();
    let before = c.rows.to_vec();
    let new = db.begin();
    let mut readers: Vec<(&str, &Arc<TransactionContext>, &Vec<Row>)> = vec![("a new transaction", &new, &content), ("an older snapshot", &old, &before)];
    if let Some(o) = &own {
        readers.push(("the changing transaction", o, &mine));
    }
    let (scan, oid) = table_plan(&db, "t");
    let oid_index = db.catalog.read().get_table_indexes("t").first().map(|i| i.get_index_oid());
    let Some(index) = oid_index else { return fail("no index".into()) };
    for (who, tx, want) in readers {
        let cx = db.context(tx);
        let rids = |p: &PlanNode| -> Result<BTreeMap<RID2, Row>, String> {
            let got = execute_rids(p, &cx, 100)?;
            let n = got.len();
            let m: BTreeMap<RID2, Row> = got.into_iter().map(|(r, rid)| (rid2(rid), r)).collect();
            if m.len() == n {
                Ok(m)
            } else {
                Err("a row comes twice".into())
            }
        };
        count.fetch_add(1, Relaxed);
        let all = match rids(&scan) {
            Ok(m) if sorted(m.values().cloned().collect()) == sorted(want.clone()) => m,
            o => return fail(format!("{who} scans {o:?}, expected {want:?}")),
        };
        if others.is_empty() && own.is_none() && c.changes.is_empty() {
            let t = db.catalog.read().get_table("t").unwrap().clone();
            let p = PlanNode::TableScan(TableScanNode::new(t, Arc::new(schema(T)), None));
            count.fetch_add(1, Relaxed);
            match rids(&p) {
                Ok(m) if m == all => {},
                o => return fail(format!("a table scan gives {o:?}, expected {all:?}")),
            }
        }
        for cond in conds {
            let p = PlanNode::IndexScan(IndexScanNode::new(schema(T), "t".into(), oid, "i".into(), index, cond.iter().map(|p| p.ex(T)).collect()));
            let want: BTreeMap<_, _> = all.iter().filter(|(_, r)| cond.iter().all(|p| p.holds(r) == Some(true))).map(|(a, b)| (*a, b.clone())).collect();
            count.fetch_add(1, Relaxed);
            match rids(&p) {
                Ok(m) if m == want => {},
                o => return fail(format!("{who} finds {o:?} by index where {cond:?}, expected {want:?}")),
            }
        }
        // as the inner side of a join
        let left: Vec<Row> = vec![vec![C::I(1), C::I(1)], vec![C::I(3), C::I(2)], vec![C::N, C::I(1)], vec![C::I(1), C::I(3)], vec![C::I(2), C::N]];
        for on in 0..4 {
            // a = k; a = v; a = k and b = v; a = k and b < v
            let pair = |a: usize, b: usize| (col(0, L, a), col(1, T, b));
            let (keys, pred): (Vec<(Ex, Ex)>, Ex) = match on {
                0 => (vec![pair(0, 0)], cmp("=", pair(0, 0).0, pair(0, 0).1)),
                1 => (vec![pair(0, 1)], cmp("=", pair(0, 1).0, pair(0, 1).1)),
                2 => (vec![pair(0, 0), pair(1, 1)], and(cmp("=", pair(0, 0).0, pair(0, 0).1), cmp("=", pair(1, 1).0, pair(1, 1).1))),
                _ => (vec![pair(0, 0)], and(cmp("=", pair(0, 0).0, pair(0, 0).1), cmp("<", pair(1, 1).0, pair(1, 1).1))),
            };
            let (lk, rk) = keys.into_iter().unzip();
            let p = PlanNode::NestedIndexJoin(NestedIndexJoinNode::new(
                schema(L),
                schema(T),
                pred,
                JoinOperator::Inner(JoinConstraint::None),
                lk,
                rk,
                vec![rows_plan(L, &left, true), scan.clone()],
            ));
            let mut want: Vec<Row> = vec![];
            for l in &left {
                for r in all.values() {
                    let h = match on {
                        0 => test("=", &l[0], &r[0]),
                        1 => test("=", &l[0], &r[1]),
                        2 => and3(test("=", &l[0], &r[0]), test("=", &l[1], &r[1])),
                        _ => and3(test("=", &l[0], &r[0]), test("<", &l[1], &r[1])),
                    };
                    if h == Some(true) {
                        want.push([l.clone(), r.clone()].concat());
                    }
                }
            }
            count.fetch_add(1, Relaxed);
            match execute(&p, &cx, 100) {
                Ok(m) if sorted(m.clone()) == sorted(want.clone()) => {},
                o => return fail(format!("{who} joins (condition {on}) {o:?}, expected {want:?}")),
            }
        }
    }
}
type RID2 = (u64, u32);
fn rid2(r: RID) -> RID2 {
    (r.get_page_id(), r.get_slot_num())
}
pub fn run(ctx: &Ctx) {
    let domain: Vec<Row> = [C::N, C::I(1), C::I(2), C::I(3)].iter().map(|k| vec![k.clone(), C::N]).collect();
    let number = |l: Vec<Row>| -> Vec<Row> { l.into_iter().enumerate().map(|(i, r)| vec![r[0].clone(), C::I(1 + i as i64 % 3)]).collect() };
    let keys: [&[usize]; 3] = [&[0], &[1], &[0, 1]];
    let count = AtomicU64::new(0);
    let mut cases: Vec<(Vec<Row>, Vec<(Dml, End)>, When, &[usize])> = vec![];
    // tables and their indexes
    for l in lists(&domain, ctx.pick(4, 5)) {
        for key in keys {
            for w in [When::First, When::AfterRows] {
                cases.push((number(l.clone()), vec![], w, key));
            }
        }
    }
    let still = cases.len();
    let changes: Vec<Dml> = vec![
        Dml::Insert(vec![vec![C::I(2), C::I(1)]]),
        Dml::Insert(vec![vec![C::N, C::I(2)], vec![C::I(1), C::I(3)]]),
        Dml::Update(1, C::I(3)),
        Dml::Update(1, C::N),
        Dml::Update(3, C::I(1)),
        Dml::Update(2, C::I(2)),
        Dml::Delete(1),
        Dml::Delete(3),
    ];
    let ends = [End::Commit, End::Abort, End::Own, End::Other];
    let tables: Vec<Vec<Row>> = ctx.pick(vec![vec![1, 3]], vec![vec![], vec![1, 3], vec![1, 1, 2], vec![3, 0, 1, 2]]).into_iter().map(|l: Vec<i64>| l.iter().enumerate().map(|(i, k)| vec![if *k == 0 { C::N } else { C::I(*k) }, C::I(1 + i as i64)]).collect()).collect();
    for t in &tables {
        for (d, e) in changes.iter().flat_map(|d| ends.iter().map(move |e| (d, *e))) {
            for w in [When::First, When::AfterRows, When::Last] {
                for key in keys {
                    cases.push((t.clone(), vec![(d.clone(), e)], w, key));
                }
                for (d2, e2) in changes.iter().flat_map(|d| ends.iter().map(move |e| (d, *e))) {
                    // two running transactions may not change the same rows; one changes, the other one ends or adds
                    let open = |e: End| matches!(e, End::Own | End::Other);
                    if open(e) && e != e2 && !matches!(d2, Dml::Insert(_)) {
                        continue;
                    }
                    if e == End::Other && e2 == End::Other {
                        continue;
                    }
                    cases.push((t.clone(), vec![(d.clone(), e), (d2.clone(), e2)], w, keys[0]));
                }
            }
        }
    }
    let (full, some) = (conditions(ctx.pick(false, true)), conditions(false));
    par(cases.len(), |i| {
        if ctx.n_violations() > 20 {
            return;
        }
        let (rows, changes, when, key) = &cases[i];
        case(ctx, &Case { rows, changes, when: *when, key }, if i < still { &full } else { &some }, &count);
        crate::disk::renew();
    });
    let c = count.load(Relaxed);
    ctx.part(json!({"tables_without_changes": still, "histories": cases.len() - still, "conditions": full.len(), "executions": c}));
    ctx.add(cases.len() as u64, c, c);
    ctx.validated(c);
}
