//! C29: planning. Logical plans, as they are and optimised, converted and executed on tables with and without indexes,
//! against the results the definitions of their operators allow (those of C26).
use ferrite::sql::execution::plans::abstract_plan::AbstractPlanNode;
use crate::c26::{self, Agg, Item, Op, Out};
use crate::c27::{commit, table_plan};
use crate::common::*;
use crate::query::*;
use ferrite::catalog::schema::Schema;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::create_index_plan::CreateIndexPlanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection};
use ferrite::sql::optimizer::optimizer_impl::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalToPhysical};
use ferrite::types_db::type_id::TypeId;
use serde_json::json;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// An operator of a logical plan, and what it means.
#[derive(Clone, Debug)]
enum L {
    Op(Op),
    /// WHERE TRUE
    True,
    /// the first rows in ascending order
    TopUp(usize, Vec<usize>),
}
impl L {
    fn meaning(&self) -> Vec<Op> {
        match self {
            L::Op(o) => vec![o.clone()],
            L::True => vec![],
            L::TopUp(n, k) => vec![Op::Sort(k.iter().map(|k| (*k, true)).collect()), Op::Limit(*n)],
        }
    }
    fn types(&self, t: &[TypeId]) -> Option<Vec<TypeId>> {
        let mut t = t.to_vec();
        for o in self.meaning() {
            t = c26::types(&o, &t)?;
        }
        Some(t)
    }
}
type Plan = Box<LogicalPlan>;
fn logical(op: &L, child: Plan, t: &[TypeId], names: &[String], out: &[TypeId]) -> (Plan, Vec<String>) {
    let ic: Vec<(&str, TypeId)> = names.iter().map(|n| n.as_str()).zip(t.iter().copied()).collect();
    let ic = &ic[..];
    let new: Vec<String> = (0..out.len()).map(|i| format!("e{i}")).collect();
    let oc: Vec<(&str, TypeId)> = new.iter().map(|n| n.as_str()).zip(out.iter().copied()).collect();
    let c = |i: &usize| col(0, ic, *i);
    let filter = |e: Ex, child: Plan| LogicalPlan::filter(schema(ic), "t".into(), 0, e, child);
    let specs = |k: &[(usize, bool)]| -> Vec<OrderBySpec> { k.iter().map(|(i, up)| OrderBySpec::new(c(i), if *up { OrderDirection::Asc } else { OrderDirection::Desc })).collect() };
    let same = names.to_vec();
    match op {
        L::True => (filter(lit(&C::B(true), TypeId::Boolean), child), same),
        L::TopUp(n, k) => (LogicalPlan::top_n(*n, specs(&k.iter().map(|k| (*k, true)).collect::<Vec<_>>()), schema(ic), child), same),
        L::Op(op) => match op {
            Op::FilterEq(a, n) => (filter(cmp("=", c(a), lit(&C::I(*n), TypeId::Integer)), child), same),
            Op::FilterLess(a, b) => (filter(cmp("<", c(a), c(b)), child), same),
            Op::FilterNot(a, b) => (filter(not(cmp("=", c(a), c(b))), child), same),
            Op::FilterNull => (filter(lit(&C::N, TypeId::Boolean), child), same),
            Op::Project(items) => (LogicalPlan::project(c26::items_of(items, ic), schema(&oc), child), new.clone()),
            Op::Sort(k) => (LogicalPlan::sort(specs(k), schema(ic), child), same),
            Op::Limit(n) => (LogicalPlan::limit(*n, schema(ic), child), same),
            Op::Offset(n) => (LogicalPlan::offset(*n, schema(ic), child), same),
            Op::Distinct => (LogicalPlan::distinct(schema(ic), child), same),
            Op::TopN(n, k) => (LogicalPlan::top_n(*n, specs(&k.iter().map(|k| (*k, false)).collect::<Vec<_>>()), schema(ic), child), same),
            Op::Aggregate(g, a) => {
                let groups = g.iter().map(|i| c(i)).collect();
                (LogicalPlan::aggregate(groups, c26::aggregates(g, a, ic, out), schema(&oc), child), new.clone())
            },
            _ => unreachable!(),
        },
    }
}
fn operators() -> Vec<L> {
    use Agg::*;
    use Item::*;
    let mut o: Vec<L> = vec![
        Op::FilterEq(0, 1),
        Op::FilterLess(0, 1),
        Op::FilterNot(0, 1),
        Op::FilterNull,
        Op::Project(vec![Col(1), Col(0)]),
        Op::Project(vec![Col(1), Col(2), Col(0), Eq(0, 1)]),
        Op::Project(vec![Plus(0, 1), Col(1)]),
        Op::Project(vec![One, Col(0), Col(0)]),
        Op::Sort(vec![(0, true)]),
        Op::Sort(vec![(0, false), (1, true)]),
        Op::Sort(vec![(1, false)]),
        Op::Limit(0),
        Op::Limit(2),
        Op::Offset(1),
        Op::Distinct,
        Op::TopN(2, vec![0, 1]),
        Op::Aggregate(vec![0], vec![CountStar, Sum(1)]),
        Op::Aggregate(vec![], vec![Max(0), Count(1)]),
    ]
    .into_iter()
    .map(L::Op)
    .collect();
    o.push(L::True);
    o.push(L::TopUp(2, vec![1]));
    o
}
const T: [TypeId; 3] = [TypeId::Integer, TypeId::Integer, TypeId::VarChar];
fn named(alias: &str) -> Vec<String> {
    ["x", "y", "z"].iter().map(|n| format!("{alias}.{n}")).collect()
}
fn join_type(n: usize) -> JoinOperator {
    let c = JoinConstraint::None;
    match n {
        0 => JoinOperator::Inner(c),
        1 => JoinOperator::LeftOuter(c),
        2 => JoinOperator::RightOuter(c),
        _ => JoinOperator::FullOuter(c),
    }
}
/// Join conditions over the columns of both sides, as the planner numbers them.
fn on(n: usize, c: Cols) -> (Ex, fn(&[C]) -> Option<bool>) {
    let k = |i: usize| col(0, c, i);
    match n {
        0 => (cmp("=", k(0), k(3)), |r| test("=", &r[0], &r[3])),
        1 => (cmp("=", k(1), k(3)), |r| test("=", &r[1], &r[3])),
        2 => (cmp("=", k(0), k(4)), |r| test("=", &r[0], &r[4])),
        3 => (cmp("=", k(4), k(0)), |r| test("=", &r[4], &r[0])),
        4 => (and(cmp("=", k(0), k(3)), cmp("=", k(1), k(4))), |r| and3(test("=", &r[0], &r[3]), test("=", &r[1], &r[4]))),
        5 => (and(cmp("=", k(3), k(0)), cmp("=", k(1), k(4))), |r| and3(test("=", &r[0], &r[3]), test("=", &r[1], &r[4]))),
        6 => (cmp("<", k(0), k(3)), |r| test("<", &r[0], &r[3])),
        7 => (cmp("<", k(3), k(1)), |r| test("<", &r[3], &r[1])),
        8 => (cmp("=", k(0), k(1)), |r| test("=", &r[0], &r[1])),
        9 => (and(cmp("=", k(0), k(3)), cmp("=", k(4), lit(&C::I(1), TypeId::Integer))), |r| and3(test("=", &r[0], &r[3]), test("=", &r[4], &C::I(1)))),
        10 => (or(cmp("=", k(0), k(3)), cmp("=", k(1), k(4))), |r| and3(test("<>", &r[0], &r[3]), test("<>", &r[1], &r[4])).map(|x| !x)),
        _ => (not(cmp("=", k(0), k(3))), |r| test("<>", &r[0], &r[3])),
    }
}
const CONDITIONS: usize = 12;
fn joined(kind: usize, l: &[Row], r: &[Row], f: fn(&[C]) -> Option<bool>) -> Vec<Row> {
    let mut out = vec![];
    let mut hit = vec![false; r.len()];
    let nulls = || vec![C::N; 3];
    for a in l {
        let m: Vec<usize> = (0..r.len()).filter(|j| f(&[a.clone(), r[*j].clone()].concat()) == Some(true)).collect();
        for j in &m {
            hit[*j] = true;
            out.push([a.clone(), r[*j].clone()].concat());
        }
        if m.is_empty() && (kind == 1 || kind == 3) {
            out.push([a.clone(), nulls()].concat());
        }
    }
    if kind == 2 || kind == 3 {
        out.extend((0..r.len()).filter(|j| !hit[*j]).map(|j| [nulls(), r[j].clone()].concat()));
    }
    out
}
/// Does the conversion of a plan end? Asked in a process of its own.
fn conversions(t: &[TypeId]) {
    let c: Vec<(&str, TypeId)> = [("l.x", t[0]), ("l.y", t[1]), ("l.z", t[2]), ("r.x", t[0]), ("r.y", t[1]), ("r.z", t[2])].to_vec();
    let conditions = (0..CONDITIONS).map(|n| on(n, &c).0).chain([lit(&C::B(true), TypeId::Boolean), lit(&C::N, TypeId::Boolean), col(0, &c, 0)]);
    for cond in conditions {
        for up in 0..3 {
            let scan = |n: usize| LogicalPlan::table_scan("t".into(), schema(&c[3 * n..3 * n + 3]), 0);
            let mut p = LogicalPlan::nested_loop_join(schema(&c[..3]), schema(&c[3..]), cond.clone(), join_type(0), scan(0), scan(1));
            for _ in 0..up {
                p = LogicalPlan::limit(1, schema(&c), p);
            }
            let h = LogicalPlan::hash_join(schema(&c[..3]), schema(&c[3..]), cond.clone(), join_type(0), scan(0), LogicalPlan::limit(1, schema(&c[3..]), scan(1)));
            let _ = p.to_physical_plan();
            let _ = LogicalPlan::limit(1, schema(&c), h).to_physical_plan();
        }
    }
}
/// The schema with the keys of a case declared: the optimizer makes indexes for them.
fn declared(mut s: Schema, index: usize) -> Schema {
    for (i, c) in s.get_columns_mut().iter_mut().enumerate() {
        c.set_primary_key(index == 3 && i == 0 || index == 4 && i < 2);
        c.set_unique(index == 5 && i == 1);
    }
    s
}
/// Whether the rows keep to them.
fn fits(rows: &[Row], index: usize) -> bool {
    let keys: Vec<&[C]> = rows.iter().map(|r| match index {
        3 => &r[..1],
        4 => &r[..2],
        5 => &r[1..2],
        _ => &r[..0],
    }).collect();
    index < 3 || keys.iter().enumerate().all(|(i, k)| if k.contains(&C::N) { index == 5 } else { !keys[..i].contains(k) })
}
pub fn run(ctx: &Ctx) {
    if std::env::var_os("MC_CONVERT").is_some() {
        conversions(&T);
        std::process::exit(0);
    }
    let mut child = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(std::env::args().skip(1))
        .env("MC_CONVERT", "1")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("run");
    let start = std::time::Instant::now();
    let converts = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break s.success().then_some(()).ok_or(format!("ends with {s:?}")),
            None if start.elapsed().as_secs() > 40 => {
                let _ = child.kill();
                let _ = child.wait();
                break Err("does not end".to_string());
            },
            None => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    };
    if let Err(e) = converts {
        ctx.violation(&format!("converting a plan with a join whose condition cannot be split {e}"), json!({"part": "conversion"}));
        // it would hang here, too
        return;
    }
    let n = C::N;
    let row = |a: &C, b: &C, z: &str| vec![a.clone(), b.clone(), if z.is_empty() { C::N } else { C::T(z.into()) }];
    let i = C::I;
    let tables: Vec<Vec<Row>> = {
        let domain = [row(&i(1), &i(2), "a"), row(&n, &i(1), ""), row(&i(2), &i(1), "b"), row(&i(1), &n, "a"), row(&i(1), &i(1), "c")];
        let mut all = lists(&domain, 2);
        all.extend(lists(&domain, 3).into_iter().filter(|l| l.len() == 3 && (0..2).all(|i| l[i] <= l[i + 1])));
        let mut some: Vec<Vec<Row>> = all.iter().enumerate().filter(|(i, _)| i % 7 == 0).map(|x| x.1.clone()).collect();
        // as long as a key of two columns can be and one of them cannot
        some.push(vec![domain[0].clone(), domain[4].clone()]);
        ctx.pick(some, all)
    };
    let ops = operators();
    let count = AtomicU64::new(0);
    let options = |n: usize| {
        let mut o = CheckOptions::new();
        if n & 1 == 1 {
            o.add_check(CheckOption::EnableNljCheck);
        }
        if n & 2 == 2 {
            o.add_check(CheckOption::EnableTopnCheck);
        }
        Arc::new(o)
    };
    // pipelines over one table
    let pipes = |from: &[TypeId], depth: usize| {
        let mut all: Vec<Vec<usize>> = vec![vec![]];
        let mut last: Vec<(Vec<usize>, Vec<TypeId>)> = vec![(vec![], from.to_vec())];
        for _ in 0..depth {
            last = last.iter().flat_map(|(p, t)| ops.iter().enumerate().filter_map(move |(o, op)| op.types(t).map(|t| ([p.clone(), vec![o]].concat(), t)))).collect();
            all.extend(last.iter().map(|x| x.0.clone()));
        }
        all
    };
    let single = pipes(&T, 3);
    let over_join = pipes(&[T, T].concat(), ctx.pick(1, 2));
    let cache: Mutex<BTreeMap<(Vec<usize>, Vec<Row>), Arc<Vec<Out>>>> = Mutex::new(BTreeMap::new());
    let make = |db: &Db, name: &str, rows: &[Row], index: usize| -> Result<(), String> {
        let names = ["x", "y", "z"];
        let c: Vec<(&str, TypeId)> = names.iter().copied().zip(T).collect();
        db.catalog.write().create_table(name.into(), declared(schema(&c), index)).ok_or("create table")?;
        let tx = db.begin();
        if index > 0 && index < 3 {
            let p = PlanNode::CreateIndex(CreateIndexPlanNode::new(schema(&c[index - 1..index]), name.into(), format!("{name}i"), vec![index - 1], false));
            statement(&p, &db.context(&tx))?;
        }
        if !rows.is_empty() {
            let (_, oid) = table_plan(db, name);
            statement(&PlanNode::Insert(InsertNode::new(schema(&c), oid, name.into(), vec![], vec![rows_plan(&c, rows, false)])), &db.context(&tx))?;
        }
        if commit(db, &tx) {
            Ok(())
        } else {
            Err("commit".into())
        }
    };
    let check = |db: &Db, from: &str, base: &dyn Fn() -> Plan, t0: &[TypeId], names0: &[String], pipe: &[usize], want: &[Out]| {
        let (mut plan, mut t, mut names) = (base(), t0.to_vec(), names0.to_vec());
        for o in pipe {
            let out = ops[*o].types(&t).unwrap();
            let (p, n) = logical(&ops[*o], plan, &t, &names, &out);
            (plan, t, names) = (p, out, n);
        }
        let tx = db.begin();
        let cx = db.context(&tx);
        for n in 0..4 {
            let got = guard(|| {
                let o = Optimizer::new(db.catalog.clone()).optimize(plan.clone(), options(n)).map_err(|e| format!("optimizer: {e}"))?;
                let p = o.to_physical_plan().map_err(|e| format!("conversion: {e}"))?;
                // the columns it says it has are those of the result
                for (what, s) in [("logical", o.get_schema()), ("physical", Some(p.get_output_schema().clone()))] {
                    let got = s.map(|s| s.get_columns().iter().map(|c| c.get_type()).collect::<Vec<_>>());
                    if got.as_ref() != Some(&t) {
                        return Err(format!("{what} columns {got:?} instead of {t:?}"));
                    }
                }
                Ok(p)
            })
            .and_then(|r| r)
            .and_then(|p| execute(&p, &cx, 200));
            count.fetch_add(1, Relaxed);
            let fine = match &got {
                Err(e) => e.starts_with("error:") && want.iter().any(|o| o.err),
                Ok(r) => want.iter().any(|o| !o.err && if o.ordered { o.rows == *r } else { sorted(o.rows.clone()) == sorted(r.clone()) }),
            };
            if !fine {
                let list: Vec<_> = pipe.iter().map(|o| &ops[*o]).collect();
                let how = ["not optimised", "optimised", "optimised (top-n)", "optimised (all)"][n];
                ctx.violation(&format!("{list:?} of {from}, {how}, gives {got:?}, expected {:?}", want.first()), json!({"operators": format!("{list:?}"), "from": from, "options": n, "result": format!("{got:?}")}));
            }
        }
        db.txns.abort(tx.get_transaction());
    };
    let cases: Vec<(usize, usize)> = (0..tables.len()).flat_map(|t| (0..6).map(move |i| (t, i))).filter(|(t, i)| fits(&tables[*t], *i)).collect();
    par(cases.len(), |case| {
        if ctx.n_violations() > 20 {
            return;
        }
        let (rows, index) = (&tables[cases[case].0], cases[case].1);
        let db = Db::new("c29");
        if let Err(e) = make(&db, "t", rows, index) {
            ctx.violation(&format!("preparing {rows:?}: {e}"), json!({}));
            return;
        }
        let (_, oid) = table_plan(&db, "t");
        let names = ["x", "y", "z"].map(String::from);
        let c: Vec<(&str, TypeId)> = names.iter().map(|s| s.as_str()).zip(T).collect();
        let base = || LogicalPlan::table_scan("t".into(), declared(schema(&c), index), oid);
        for pipe in &single {
            if ctx.n_violations() > 20 {
                break;
            }
            let key = (pipe.clone(), rows.clone());
            let known = cache.lock().unwrap().get(&key).cloned();
            let want = known.unwrap_or_else(|| {
                let meaning: Vec<Op> = pipe.iter().flat_map(|o| ops[*o].meaning()).collect();
                let w = Arc::new(c26::allowed_of(&meaning, Out { rows: rows.clone(), err: false, ordered: false }, &T));
                cache.lock().unwrap().insert(key, w.clone());
                w
            });
            check(&db, &format!("{rows:?} with index {index}"), &base, &T, &names, pipe, &want);
        }
        drop(db);
        crate::disk::renew();
    });
    let of_tables = count.load(Relaxed);
    // joins
    let sides: Vec<Vec<Row>> = tables.iter().filter(|t| t.len() <= 2).cloned().collect();
    let pairs: Vec<(usize, usize)> = (0..sides.len()).flat_map(|a| (0..sides.len()).map(move |b| (a, b))).filter(|(a, b)| ctx.pick(true, (a + b) % 3 == 0)).collect();
    par(pairs.len(), |case| {
        if ctx.n_violations() > 20 {
            return;
        }
        let (l, r) = (&sides[pairs[case].0], &sides[pairs[case].1]);
        let db = Db::new("c29");
        if let Err(e) = make(&db, "l", l, case % 3).and_then(|_| make(&db, "r", r, (case / 3) % 3)) {
            ctx.violation(&format!("preparing {l:?} and {r:?}: {e}"), json!({}));
            return;
        }
        let names: Vec<String> = [named("l"), named("d")].concat();
        let mut c: Vec<(&str, TypeId)> = names.iter().map(|s| s.as_str()).zip([T, T].concat()).collect();
        // a name that is used for another column elsewhere
        c[4].0 = "d.id";
        let (lo, ro) = (table_plan(&db, "l").1, table_plan(&db, "r").1);
        for (cond, kind) in (0..CONDITIONS).flat_map(|c| (0..4).map(move |k| (c, k))) {
            let (e, f) = on(cond, &c);
            let base = || {
                let (a, b) = (schema(&c[..3]), schema(&c[3..]));
                LogicalPlan::nested_loop_join(a.clone(), b.clone(), e.clone(), join_type(kind), LogicalPlan::table_scan("l".into(), a, lo), LogicalPlan::table_scan("r".into(), b, ro))
            };
            let rows = joined(kind, l, r, f);
            let t = [T, T].concat();
            for pipe in &over_join {
                if ctx.n_violations() > 20 {
                    break;
                }
                let meaning: Vec<Op> = pipe.iter().flat_map(|o| ops[*o].meaning()).collect();
                if rows.len() > 5 && meaning.len() > 1 {
                    continue;
                }
                let want = c26::allowed_of(&meaning, Out { rows: rows.clone(), err: false, ordered: false }, &t);
                check(&db, &format!("join {cond} of kind {kind} of {l:?} and {r:?}"), &base, &t, &c.iter().map(|c| c.0.to_string()).collect::<Vec<_>>(), pipe, &want);
            }
        }
        drop(db);
        crate::disk::renew();
    });
    let c = count.load(Relaxed);
    ctx.part(json!({"part": "one table", "tables": tables.len(), "pipelines": single.len(), "executions": of_tables}));
    ctx.part(json!({"part": "joins", "pairs": pairs.len(), "conditions": CONDITIONS, "pipelines": over_join.len(), "executions": c - of_tables}));
    ctx.add(c, c, c);
    ctx.validated(c);
}
