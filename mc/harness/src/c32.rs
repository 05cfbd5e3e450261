//! C32: statements of concurrent sessions. They end, lose nothing, see nothing that was never there, and leave tables,
//! indexes and catalog agreeing.
use crate::c27::{filter, table_plan};
use crate::common::*;
use crate::disk;
use crate::query::*;
use ferrite::catalog::column::ForeignKeyConstraint;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::create_index_plan::CreateIndexPlanNode;
use ferrite::sql::execution::plans::create_table_plan::CreateTablePlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::optimizer::optimizer_impl::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalToPhysical};
use ferrite::types_db::type_id::TypeId;
use std::sync::{Arc, Mutex};

const T: Cols = &[("k", TypeId::Integer), ("v", TypeId::Integer)];
#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    /// SELECT * FROM t WHERE k > 0, through the optimizer
    Select,
    /// one row
    Insert(i64),
    /// one row, given up
    Undone(i64),
    /// UPDATE t SET k = k + 10 WHERE k = ..
    Move(i64),
    Delete(i64),
    Table(&'static str),
    Index(&'static str),
    /// a row of c that refers to row .. of t
    Child(i64),
    /// a table, made by the catalog itself
    Make(&'static str),
    /// SELECT k FROM t WHERE .., by index i
    Find(i64),
}
use S::*;
#[derive(Clone)]
struct Case {
    name: &'static str,
    /// t declares k its primary key, so that the optimizer makes an index when it is first used
    key: bool,
    /// an index made before
    indexed: bool,
    threads: Vec<Vec<S>>,
    bound: (usize, usize),
}
fn table(key: bool) -> ferrite::catalog::schema::Schema {
    let mut s = schema(T);
    s.get_columns_mut()[0].set_primary_key(key);
    s
}
/// (k -> t.k)
fn child() -> ferrite::catalog::schema::Schema {
    let mut s = schema(&T[..1]);
    s.get_columns_mut()[0].set_foreign_key(Some(ForeignKeyConstraint { referenced_table: "t".into(), referenced_column: "k".into(), on_delete: None, on_update: None }));
    s
}
struct Shared {
    db: Db,
    rt: Arc<tokio::runtime::Runtime>,
    /// what each statement did: thread, statement, outcome
    done: Mutex<Vec<(usize, S, Result<Option<Vec<Row>>, String>)>>,
}
fn int(i: i64) -> Ex {
    lit(&C::I(i), TypeId::Integer)
}
fn exec(x: &Shared, key: bool, s: S) -> Result<Option<Vec<Row>>, String> {
    let db = &x.db;
    let tx = db.begin();
    let cx = db.context(&tx);
    let name = "t";
    let cond = |i: i64| {
        let (scan, oid) = table_plan(db, name);
        (filter(scan, oid, name, T, cmp("=", col(0, T, 0), int(i))), oid)
    };
    let r = match s {
        Select => guard(|| {
            let (_, oid) = table_plan(db, name);
            let l = LogicalPlan::filter(table(key), name.into(), oid, cmp(">", col(0, T, 0), int(0)), LogicalPlan::table_scan(name.into(), table(key), oid));
            let mut o = CheckOptions::new();
            o.add_check(CheckOption::EnableTopnCheck);
            let p = Optimizer::new(db.catalog.clone()).optimize(l, Arc::new(o)).map_err(|e| format!("optimizer: {e}"))?;
            p.to_physical_plan().map_err(|e| format!("conversion: {e}"))
        })
        .and_then(|r| r)
        .and_then(|p| execute(&p, &cx, 100))
        .map(|r| Some(sorted(r))),
        Insert(i) | Undone(i) => {
            let (_, oid) = table_plan(db, name);
            statement(&PlanNode::Insert(InsertNode::new(table(key), oid, name.into(), vec![], vec![rows_plan(T, &[vec![C::I(i), C::I(i)]], false)])), &cx).map(|_| None)
        },
        Move(i) => {
            let (from, oid) = cond(i);
            let set = vec![Arc::new(Expression::Assignment(AssignmentExpression::new(0, column("k", TypeId::Integer), plus(col(0, T, 0), int(10)))))];
            statement(&PlanNode::Update(UpdateNode::new(table(key), name.into(), oid, set, vec![from])), &cx).map(|n| n.map(|n| vec![vec![C::I(n)]]))
        },
        Delete(i) => {
            let (from, oid) = cond(i);
            statement(&PlanNode::Delete(DeleteNode::new(table(key), name.into(), oid, vec![from])), &cx).map(|n| n.map(|n| vec![vec![C::I(n)]]))
        },
        Child(i) => {
            let (_, oid) = table_plan(db, "c");
            statement(&PlanNode::Insert(InsertNode::new(child(), oid, "c".into(), vec![], vec![rows_plan(&T[..1], &[vec![C::I(i)]], false)])), &cx).map(|_| None)
        },
        Make(n) => db.catalog.write().create_table(n.into(), schema(T)).map(|_| None).ok_or("refused".into()),
        Find(i) => {
            let (_, oid) = table_plan(db, name);
            let index = db.catalog.read().get_table_indexes(name).iter().find(|x| x.get_index_name() == "i").map(|x| x.get_index_oid()).expect("index");
            execute(&PlanNode::IndexScan(IndexScanNode::new(schema(T), name.into(), oid, "i".into(), index, vec![cmp("=", col(0, T, 0), int(i))])), &cx, 100).map(|r| Some(sorted(r)))
        },
        Table(n) => statement(&PlanNode::CreateTable(CreateTablePlanNode::new(schema(T), n.into(), false)), &cx).map(|_| None),
        Index(n) => statement(&PlanNode::CreateIndex(CreateIndexPlanNode::new(schema(&T[..1]), name.into(), n.into(), vec![0], false)), &cx).map(|_| None),
    };
    let keep = r.is_ok() && !matches!(s, Undone(_));
    if keep {
        if !x.rt.block_on(db.txns.commit(tx.get_transaction(), db.pool.clone())) {
            return Err("commit failed".into());
        }
    } else {
        db.txns.abort(tx.get_transaction());
    }
    r
}
fn scenario(c: &Case) -> mcrt::Scenario {
    let rt = disk::runtime();
    let db = Db::new("c32");
    db.catalog.write().create_table("t".into(), table(c.key)).expect("create table");
    db.catalog.write().create_table("c".into(), child()).expect("create table");
    let x = Arc::new(Shared { db, rt, done: Mutex::default() });
    for i in [1, 2] {
        exec(&x, c.key, Insert(i)).expect("setup");
    }
    if c.indexed {
        exec(&x, c.key, Index("i")).expect("setup");
    }
    let (key, indexed) = (c.key, c.indexed);
    let mut threads: Vec<mcrt::Body> = vec![];
    for (t, program) in c.threads.iter().enumerate() {
        let (x, program) = (x.clone(), program.clone());
        threads.push(Box::new(move || {
            mcstd::use_runtime(Some(x.rt.clone()));
            for s in program {
                let r = exec(&x, key, s);
                mcrt::event(format!("{t}{s:?}{r:?}"));
                mcrt::atomic_step(|| x.done.lock().unwrap().push((t, s, r)));
            }
            mcstd::use_runtime(None);
        }));
    }
    mcrt::Scenario {
        threads,
        finish: Box::new(move |info| {
            if let Some(d) = &info.dead {
                return Err(d.clone());
            }
            if let Some((t, p)) = info.panics.first() {
                return Err(format!("thread {t}: {p}"));
            }
            mcstd::use_runtime(Some(x.rt.clone()));
            judge(&x, indexed)?;
            mcstd::use_runtime(None);
            disk::renew();
            let mut l = info.log.clone();
            l.sort();
            Ok(l.join(","))
        }),
    }
}
fn judge(x: &Shared, indexed: bool) -> Result<(), String> {
    let done = x.done.lock().unwrap().clone();
    let row = |k: i64, v: i64| vec![C::I(k), C::I(v)];
    let mut rows = vec![row(1, 1), row(2, 2)];
    let mut ever = rows.clone();
    let mut always = rows.clone();
    let mut children = 0;
    let mut either: Vec<Row> = vec![];
    let (mut tables, mut indexes) = (vec!["c".to_string(), "t".to_string()], if indexed { vec!["i".to_string()] } else { vec![] });
    // a statement may fail because of another one; if not, its effect counts once
    for (_, s, r) in &done {
        match (s, r) {
            (Insert(i), Ok(_)) => {
                rows.push(row(*i, *i));
                ever.push(row(*i, *i));
            },
            (Child(_), Ok(_)) => children += 1,
            (Insert(_) | Undone(_) | Select | Child(_) | Make(_) | Find(_), Err(e)) => return Err(format!("{s:?} fails: {e}")),
            (Table(n) | Make(n), Ok(_)) => tables.push(n.to_string()),
            (Index(n), Ok(_)) => indexes.push(n.to_string()),
            (Index(_), Err(e)) if !indexes.is_empty() || e.contains("exist") || e.contains("contention") => {},
            (Index(n), Err(e)) => return Err(format!("CREATE INDEX {n} fails: {e}")),
            (Table(_), Err(e)) if e.contains("contention") => {},
            (Table(n), Err(e)) if done.iter().any(|(_, s, r)| *s == Table(n) && r.is_ok()) || e.is_empty() => {},
            (Table(n), Err(e)) => return Err(format!("CREATE TABLE {n} fails: {e}")),
            _ => {},
        }
    }
    for i in [1, 2] {
        let changes: Vec<&S> = done.iter().filter(|(_, s, r)| matches!(s, Move(j) | Delete(j) if *j == i) && matches!(r, Ok(Some(n)) if n[0][0] == C::I(1))).map(|d| &d.1).collect();
        if done.iter().any(|(_, s, _)| matches!(s, Move(j) | Delete(j) if *j == i)) {
            always.retain(|r| *r != row(i, i));
            ever.push(row(i + 10, i));
            if changes.is_empty() && !done.iter().any(|(_, s, r)| matches!(s, Move(j) | Delete(j) if *j == i) && r.is_err()) {
                return Err(format!("nothing changed row {i}"));
            }
        }
        if !changes.is_empty() {
            rows.retain(|r| *r != row(i, i));
            // at read committed the later one may have worked on what the earlier one left
            match changes.iter().filter(|s| matches!(s, Move(_))).count() {
                0 => {},
                n if n == changes.len() => rows.push(row(i + 10, i)),
                _ => either.push(row(i + 10, i)),
            }
        }
    }
    for (t, s, r) in &done {
        if let (Find(i), Ok(Some(got))) = (s, r) {
            if got.iter().any(|r| !ever.contains(r) || r[0] != C::I(*i)) || always.iter().any(|r| r[0] == C::I(*i) && !got.contains(r)) || got.len() > 1 {
                return Err(format!("thread {t} finds {got:?} where k = {i}; there were always {always:?}, at times {ever:?}"));
            }
        }
        if let (Select, Ok(Some(got))) = (s, r) {
            if got.iter().any(|r| !ever.contains(r)) || always.iter().any(|r| !got.contains(r)) || (1..got.len()).any(|i| got[i] == got[i - 1]) {
                return Err(format!("thread {t} reads {got:?}; there were always {always:?}, at times {ever:?}"));
            }
        }
    }
    let mut got = x.db.catalog.read().get_table_names();
    got.sort();
    tables.sort();
    tables.dedup();
    if got != tables {
        return Err(format!("there are tables {got:?}, made were {tables:?}"));
    }
    let tx = x.db.begin();
    let cx = x.db.context(&tx);
    let (scan, oid) = table_plan(&x.db, "t");
    let want = sorted(rows);
    let got = execute(&table_plan(&x.db, "c").0, &cx, 100)?;
    if got.len() != children {
        return Err(format!("c has {got:?}, {children} rows were inserted"));
    }
    let got = execute(&scan, &cx, 100).map(sorted)?;
    if got != want && got != sorted([want.clone(), either].concat()) {
        return Err(format!("t has {got:?}, expected {want:?}"));
    }
    let want = got;
    let have: Vec<(u64, String)> = x.db.catalog.read().get_table_indexes("t").iter().map(|i| (i.get_index_oid() as u64, i.get_index_name().clone())).collect();
    for n in &indexes {
        if !have.iter().any(|h| h.1 == *n) {
            return Err(format!("index {n} is lost, there are {have:?}"));
        }
    }
    for (index, name) in have {
        let p = PlanNode::IndexScan(IndexScanNode::new(schema(T), "t".into(), oid, name.clone(), index as _, vec![cmp(">", col(0, T, 0), int(0))]));
        let got = execute(&p, &cx, 100).map(sorted);
        if got != Ok(want.clone()) {
            return Err(format!("index {name} finds {got:?}, t has {want:?}"));
        }
    }
    x.db.txns.abort(tx.get_transaction());
    Ok(())
}
pub fn run(ctx: &'static Ctx) {
    mcrt::suppress_spawn(true);
    // these have checks of their own (C12, C15, C16, C06)
    mcrt::quiet(&["/storage/disk/", "/buffer/", "/concurrency/lock_manager", "/storage/page/"]);
    let case = |name, key, indexed, threads, bound| Case { name, key, indexed, threads, bound };
    let all = vec![
        case("a query and a new table", true, false, vec![vec![Select, Select], vec![Table("u")]], (2, 4)),
        case("two queries", true, false, vec![vec![Select], vec![Select]], (2, 3)),
        case("two queries and a new table", true, false, vec![vec![Select], vec![Select], vec![Table("u")]], (1, 2)),
        case("a new index and an insert", false, false, vec![vec![Index("j")], vec![Insert(3)]], (2, 4)),
        case("a new index and a change", false, false, vec![vec![Index("j")], vec![Move(1)]], (2, 4)),
        case("a new index and an insert given up", false, false, vec![vec![Index("j")], vec![Undone(3)], vec![Insert(4)]], (1, 2)),
        case("a query by key and an insert", true, false, vec![vec![Select], vec![Insert(3)]], (2, 3)),
        case("an index, a query and a change", false, true, vec![vec![Select], vec![Move(1)]], (2, 3)),
        case("an index, a query and a deletion", false, true, vec![vec![Select], vec![Delete(1), Insert(3)]], (2, 3)),
        case("two changes of a row", false, true, vec![vec![Move(1)], vec![Move(1)]], (2, 3)),
        case("a change and a deletion of a row", false, true, vec![vec![Move(1)], vec![Delete(1)]], (2, 3)),
        case("two inserts", false, true, vec![vec![Insert(3)], vec![Insert(4)]], (2, 3)),
        case("a table made twice", false, false, vec![vec![Table("u")], vec![Table("u")], vec![Select]], (1, 2)),
        case("a reference, a new table and a query", true, false, vec![vec![Child(1)], vec![Make("u")], vec![Select]], (1, 2)),
        case("references and a new index", false, false, vec![vec![Child(1)], vec![Child(2)], vec![Index("j")]], (1, 2)),
        case("an index search, a new table and a change", false, true, vec![vec![Find(1)], vec![Make("u")], vec![Move(1)]], (1, 2)),
        case("index searches and an insert", false, true, vec![vec![Find(1), Find(3)], vec![Insert(3)]], (2, 3)),
        case("an index search and a new index", false, true, vec![vec![Find(2)], vec![Index("j")], vec![Insert(3)]], (1, 2)),
        case("an index search and a change", false, true, vec![vec![Find(1), Find(11)], vec![Move(1)]], (2, 3)),
        case("two tables", false, false, vec![vec![Table("u")], vec![Table("w")]], (2, 4)),
        case("an index made twice", false, false, vec![vec![Index("j")], vec![Index("j")]], (2, 4)),
    ];
    let dl = std::time::Instant::now() + std::time::Duration::from_secs(ctx.pick(45, 800));
    for (i, c) in all.iter().enumerate() {
        let left = dl.saturating_duration_since(std::time::Instant::now());
        let opt = mcrt::Options { preemptions: ctx.pick(c.bound.0, c.bound.1), deadline: Some(std::time::Instant::now() + left / (all.len() - i) as u32), ..Default::default() };
        ctx.schedules(c.name, &opt, &|| scenario(c));
    }
    ctx.note("the buffer pool, the disk layer, the pages and the lock manager run without scheduling points here; C06, C12, C15 and C16 explore them");
}
