//! C28: changing tables. INSERT, UPDATE and DELETE do to the table what they say, count what they did, and only to
//! what their transaction sees; inserted values go to the columns they are meant for; references are to existing rows.
use crate::c27::{commit, filter, table_plan};
use crate::common::*;
use crate::query::*;
use ferrite::catalog::column::{Column, ForeignKeyConstraint};
use ferrite::catalog::schema::Schema;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

const T: Cols = &[("k", TypeId::Integer), ("v", TypeId::Integer)];
/// How many tables share a database.
const SHARE: usize = 16;

fn set(i: usize, e: Ex) -> Ex {
    Arc::new(Expression::Assignment(AssignmentExpression::new(i, column(T[i].0, T[i].1), e)))
}
fn int(i: i64) -> Ex {
    lit(&C::I(i), TypeId::Integer)
}
fn values(cols: Cols, rows: &[Row]) -> PlanNode {
    let r = rows.iter().map(|r| r.iter().zip(cols).map(|(c, (_, t))| lit(c, *t)).collect()).collect();
    PlanNode::Values(ValuesNode::new(schema(cols), r, vec![]))
}
fn with_schema(s: Schema, db: &Db, name: &str, child: PlanNode) -> PlanNode {
    let (_, oid) = table_plan(db, name);
    PlanNode::Insert(InsertNode::new(s, oid, name.into(), vec![], vec![child]))
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    InsertOne,
    InsertTwo,
    InsertDirect,
    /// INSERT INTO t SELECT * FROM t WHERE k < 3
    InsertSelect,
    /// UPDATE t SET v = 0 WHERE k = 1
    Set,
    /// UPDATE t SET v = NULL WHERE k > 1
    SetNull,
    /// UPDATE t SET k = k + 1 WHERE k < 3
    Next,
    /// UPDATE t SET k = v, v = k WHERE v >= 0
    Swap,
    /// The same WHERE k < 3, with its assignments as pairs of column and value
    Pairs,
    /// UPDATE t SET v = k
    Copy,
    /// DELETE FROM t WHERE k = 1
    Delete,
    /// DELETE FROM t WHERE v = NULL or v > 1
    DeleteOther,
    /// DELETE FROM t
    DeleteAll,
    Commit,
    Abort,
}
use Op::*;
const OPS: [Op; 15] = [InsertOne, InsertTwo, InsertDirect, InsertSelect, Set, SetNull, Next, Swap, Pairs, Copy, Delete, DeleteOther, DeleteAll, Commit, Abort];

fn plan(db: &Db, name: &str, op: Op) -> PlanNode {
    let (scan, oid) = table_plan(db, name);
    let k = || col(0, T, 0);
    let v = || col(0, T, 1);
    let narrow = |e: Ex| filter(scan.clone(), oid, name, T, e);
    let update = |sets: Vec<Ex>, child: PlanNode| PlanNode::Update(UpdateNode::new(schema(T), name.into(), oid, sets, vec![child]));
    let insert = |child: PlanNode| with_schema(schema(T), db, name, child);
    match op {
        InsertOne => insert(values(T, &[vec![C::I(1), C::I(1)]])),
        InsertTwo => insert(rows_plan(T, &[vec![C::I(2), C::N], vec![C::I(1), C::I(2)]], false)),
        InsertDirect => {
            let v = [C::I(3), C::I(0)].iter().map(|c| value(c, TypeId::Integer)).collect::<Vec<Value>>();
            PlanNode::Insert(InsertNode::new(schema(T), oid, name.into(), vec![v], vec![]))
        },
        InsertSelect => insert(narrow(cmp("<", k(), int(3)))),
        Set => update(vec![set(1, int(0))], narrow(cmp("=", k(), int(1)))),
        SetNull => update(vec![set(1, lit(&C::N, TypeId::Integer))], narrow(cmp(">", k(), int(1)))),
        Next => update(vec![set(0, plus(k(), int(1)))], narrow(cmp("<", k(), int(3)))),
        Swap => update(vec![set(0, v()), set(1, k())], narrow(cmp(">=", v(), int(0)))),
        Pairs => update(vec![k(), v(), v(), k()], narrow(cmp("<", k(), int(3)))),
        Copy => update(vec![set(1, k())], scan),
        Delete => PlanNode::Delete(DeleteNode::new(schema(T), name.into(), oid, vec![narrow(cmp("=", k(), int(1)))])),
        DeleteOther => PlanNode::Delete(DeleteNode::new(schema(T), name.into(), oid, vec![narrow(cmp(">", v(), int(1)))])),
        _ => PlanNode::Delete(DeleteNode::new(schema(T), name.into(), oid, vec![scan])),
    }
}
/// The rows after a statement, and how many it touched.
fn model(rows: &[Row], op: Op) -> (Vec<Row>, i64) {
    let mut out = rows.to_vec();
    let mut n = 0;
    let i = |c: &C| if let C::I(i) = c { Some(*i) } else { None };
    match op {
        InsertOne => out.push(vec![C::I(1), C::I(1)]),
        InsertTwo => out.extend([vec![C::I(2), C::N], vec![C::I(1), C::I(2)]]),
        InsertDirect => out.push(vec![C::I(3), C::I(0)]),
        InsertSelect => out.extend(rows.iter().filter(|r| i(&r[0]).map_or(false, |k| k < 3)).cloned()),
        Commit | Abort => {},
        Delete | DeleteOther | DeleteAll => {
            out.retain(|r| match op {
                Delete => i(&r[0]) != Some(1),
                DeleteOther => !i(&r[1]).map_or(false, |v| v > 1),
                _ => false,
            });
            n = (rows.len() - out.len()) as i64;
        },
        _ => {
            for r in out.iter_mut() {
                let (k, v) = (r[0].clone(), r[1].clone());
                let hit = match op {
                    Set => i(&k) == Some(1),
                    SetNull => i(&k).map_or(false, |k| k > 1),
                    Next | Pairs => i(&k).map_or(false, |k| k < 3),
                    Swap => i(&v).map_or(false, |v| v >= 0),
                    _ => true,
                };
                if hit {
                    n += 1;
                    *r = match op {
                        Set => vec![k, C::I(0)],
                        SetNull => vec![k, C::N],
                        Next => vec![C::I(i(&k).unwrap() + 1), v],
                        Swap | Pairs => vec![v, k],
                        _ => vec![k.clone(), k],
                    };
                }
            }
        },
    }
    (out, n)
}
fn history(db: &Db, name: &str, ops: &[Op], count: &AtomicU64) -> Result<(), String> {
    let start: Vec<Row> = vec![vec![C::I(1), C::I(2)], vec![C::I(2), C::I(1)]];
    db.catalog.write().create_table(name.into(), schema(T)).ok_or("create table")?;
    let run = |tx: &Arc<TransactionContext>, p: &PlanNode| {
        count.fetch_add(1, Relaxed);
        statement(p, &db.context(tx))
    };
    let tx = db.begin();
    run(&tx, &with_schema(schema(T), db, name, rows_plan(T, &start, false)))?;
    if !commit(db, &tx) {
        return Err("commit failed".into());
    }
    let old = db.of(db.txns.begin(IsolationLevel::RepeatableRead).map_err(|e| e.to_string())?);
    let (scan, _) = table_plan(db, name);
    let see = |tx: &Arc<TransactionContext>| {
        count.fetch_add(1, Relaxed);
        execute(&scan, &db.context(tx), 200).map(sorted)
    };
    let mut committed = start.clone();
    let mut own: Option<(Arc<TransactionContext>, Vec<Row>)> = None;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Commit => {
                if let Some((tx, rows)) = own.take() {
                    if !commit(db, &tx) {
                        return Err(format!("step {i}: commit failed"));
                    }
                    committed = rows;
                }
            },
            Abort => {
                if let Some((tx, _)) = own.take() {
                    db.txns.abort(tx.get_transaction());
                }
            },
            _ => {
                let (tx, rows) = own.get_or_insert_with(|| (db.begin(), committed.clone()));
                let (next, n) = model(rows, *op);
                let got = run(tx, &plan(db, name, *op)).map_err(|e| format!("step {i}, {op:?}: {e}"))?;
                // an INSERT reports nothing, nor do the others if nothing was touched
                if got.unwrap_or(0) != n {
                    return Err(format!("step {i}: {op:?} reports {got:?}, {n} rows were affected"));
                }
                *rows = next;
            },
        }
        if let Some((tx, rows)) = &own {
            let got = see(tx);
            if got != Ok(sorted(rows.clone())) {
                return Err(format!("step {i}: after {op:?} its transaction sees {got:?}, expected {:?}", sorted(rows.clone())));
            }
        }
        let new = db.begin();
        let got = see(&new);
        if got != Ok(sorted(committed.clone())) {
            return Err(format!("step {i}: after {op:?} a new transaction sees {got:?}, committed is {:?}", sorted(committed)));
        }
        db.txns.abort(new.get_transaction());
        let got = see(&old);
        if got != Ok(sorted(start.clone())) {
            return Err(format!("step {i}: after {op:?} the old snapshot is {got:?}, expected {:?}", sorted(start)));
        }
    }
    if let Some((tx, _)) = own {
        db.txns.abort(tx.get_transaction());
    }
    db.txns.abort(old.get_transaction());
    Ok(())
}
/// A value as every column type can hold it.
fn as_type(c: &C, t: TypeId) -> C {
    match (c, t) {
        (C::I(i), TypeId::VarChar) => C::T(i.to_string()),
        (C::I(i), TypeId::Decimal) => C::F(i * 1_000_000),
        (C::T(s), TypeId::Integer | TypeId::BigInt | TypeId::SmallInt) => C::I(s.parse().unwrap()),
        (C::T(s), TypeId::Decimal) => C::F(s.parse::<i64>().unwrap() * 1_000_000),
        _ => c.clone(),
    }
}
const TYPES: [TypeId; 4] = [TypeId::Integer, TypeId::BigInt, TypeId::VarChar, TypeId::SmallInt];
/// Which value of the source goes where.
fn mapped(source: &[(&str, TypeId)], row: &Row, target: &[(&str, TypeId)]) -> Row {
    let by_name = source.iter().all(|(n, _)| target.iter().any(|(m, _)| m == n));
    let at = |i: usize, n: &str| if by_name { source.iter().position(|(m, _)| *m == n) } else { Some(i).filter(|i| *i < source.len()) };
    target.iter().enumerate().map(|(i, (n, t))| at(i, n).map_or(C::N, |j| as_type(&row[j], *t))).collect()
}
fn mapping(db: &Db, i: usize, source: &[(&str, TypeId)], direct: bool, count: &AtomicU64) -> Result<(), String> {
    let target: Cols = &[("a", TypeId::Integer), ("b", TypeId::VarChar), ("c", TypeId::BigInt), ("d", TypeId::Decimal)];
    let name = format!("m{i}{direct}");
    db.catalog.write().create_table(name.clone(), schema(target)).ok_or("create table")?;
    let text = |t: TypeId, i: i64| if t == TypeId::VarChar { C::T(i.to_string()) } else { C::I(i) };
    let rows: Vec<Row> = vec![
        source.iter().enumerate().map(|(i, (_, t))| text(*t, 10 + i as i64)).collect(),
        source.iter().enumerate().map(|(i, (_, t))| if i % 2 == 0 { C::N } else { text(*t, 20 + i as i64) }).collect(),
    ];
    let tx = db.begin();
    let child = if direct { values(source, &rows) } else { rows_plan(source, &rows, false) };
    count.fetch_add(2, Relaxed);
    statement(&with_schema(schema(target), db, &name, child), &db.context(&tx))?;
    let want: Vec<Row> = rows.iter().map(|r| mapped(source, r, target)).collect();
    let got = execute(&table_plan(db, &name).0, &db.context(&tx), 10).map(sorted);
    db.txns.abort(tx.get_transaction());
    if got == Ok(sorted(want.clone())) {
        Ok(())
    } else {
        Err(format!("{rows:?} of {source:?} became {got:?}, expected {want:?}"))
    }
}
/// Parents and children: what may refer to what.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ref {
    /// insert parent 1 or 2
    Parent(i64),
    DropParent(i64),
    /// insert a child of parent 1 or 2, or of none
    Child(i64),
    Orphan,
    /// children of 1 and of 2
    Children,
    ChildDirect(i64),
    Commit,
    Abort,
    /// the same by another transaction, committed at once
    OtherParent(i64),
}
const REFS: [Ref; 13] = [
    Ref::Parent(1),
    Ref::Parent(2),
    Ref::DropParent(1),
    Ref::Child(1),
    Ref::Child(2),
    Ref::Orphan,
    Ref::Children,
    Ref::ChildDirect(1),
    Ref::ChildDirect(2),
    Ref::Commit,
    Ref::Abort,
    Ref::OtherParent(1),
    Ref::OtherParent(2),
];
const PARENT: Cols = &[("x", TypeId::Integer), ("id", TypeId::Integer)];
const CHILD: Cols = &[("n", TypeId::Integer), ("p", TypeId::Integer)];
fn references(db: &Db, n: usize, ops: &[Ref], count: &AtomicU64) -> Result<(), String> {
    let (parent, child) = (format!("p{n}"), format!("c{n}"));
    let key = Column::builder("p", TypeId::Integer)
        .with_foreign_key(ForeignKeyConstraint { referenced_table: parent.clone(), referenced_column: "id".into(), on_delete: None, on_update: None })
        .build();
    let child_schema = || Schema::new(vec![column("n", TypeId::Integer), key.clone()]);
    {
        let mut c = db.catalog.write();
        c.create_table(parent.clone(), schema(PARENT)).ok_or("create table")?;
        c.create_table(child.clone(), child_schema()).ok_or("create table")?;
    }
    let mut own: Option<(Arc<TransactionContext>, Vec<i64>, Vec<C>)> = None;
    let mut committed: (Vec<i64>, Vec<C>) = (vec![], vec![]);
    let run = |tx: &Arc<TransactionContext>, p: &PlanNode| {
        count.fetch_add(1, Relaxed);
        statement(p, &db.context(tx))
    };
    let insert_parent = |i: i64| with_schema(schema(PARENT), db, &parent, values(PARENT, &[vec![C::I(7), C::I(i)]]));
    for (step, op) in ops.iter().enumerate() {
        match op {
            Ref::Commit => {
                if let Some((tx, p, c)) = own.take() {
                    if !commit(db, &tx) {
                        return Err(format!("step {step}: commit failed"));
                    }
                    committed = (p, c);
                }
            },
            Ref::Abort => {
                if let Some((tx, ..)) = own.take() {
                    db.txns.abort(tx.get_transaction());
                }
            },
            Ref::OtherParent(i) => {
                let tx = db.begin();
                run(&tx, &insert_parent(*i)).map_err(|e| format!("step {step}: {e}"))?;
                if !commit(db, &tx) {
                    return Err(format!("step {step}: commit failed"));
                }
                committed.0.push(*i);
                if let Some((_, p, _)) = &mut own {
                    // read committed: the next statement sees it
                    p.push(*i);
                }
            },
            _ => {
                let (tx, p, c) = own.get_or_insert_with(|| (db.begin(), committed.0.clone(), committed.1.clone()));
                let (plan, new): (PlanNode, Vec<C>) = match op {
                    Ref::Parent(i) => {
                        p.push(*i);
                        (insert_parent(*i), vec![])
                    },
                    Ref::DropParent(i) => {
                        // not while somebody refers to it
                        if c.contains(&C::I(*i)) {
                            continue;
                        }
                        p.retain(|x| x != i);
                        let (scan, oid) = table_plan(db, &parent);
                        let some = filter(scan, oid, &parent, PARENT, cmp("=", col(0, PARENT, 1), int(*i)));
                        (PlanNode::Delete(DeleteNode::new(schema(PARENT), parent.clone(), oid, vec![some])), vec![])
                    },
                    Ref::ChildDirect(i) => {
                        let v = [C::I(2), C::I(*i)].iter().map(|c| value(c, TypeId::Integer)).collect::<Vec<Value>>();
                        let (_, oid) = table_plan(db, &child);
                        (PlanNode::Insert(InsertNode::new(child_schema(), oid, child.clone(), vec![v], vec![])), vec![C::I(*i)])
                    },
                    o => {
                        let to = match o {
                            Ref::Child(i) => vec![C::I(*i)],
                            Ref::Children => vec![C::I(1), C::I(2)],
                            _ => vec![C::N],
                        };
                        // the number is not a key
                        let rows: Vec<Row> = to.iter().map(|t| vec![C::I(3), t.clone()]).collect();
                        (with_schema(child_schema(), db, &child, values(CHILD, &rows)), to)
                    },
                };
                let ok = new.iter().all(|t| *t == C::N || p.iter().any(|x| C::I(*x) == *t));
                let got = run(tx, &plan);
                if got.is_ok() != ok {
                    return Err(format!("step {step}: {op:?} with parents {p:?} gives {got:?}"));
                }
                if ok {
                    c.extend(new);
                } else {
                    // the statement failed, so does its transaction
                    db.txns.abort(tx.get_transaction());
                    own = None;
                }
            },
        }
        let new = db.begin();
        let who = [Some((&new, &committed.0, &committed.1)), own.as_ref().map(|(t, p, c)| (t, p, c))];
        for (tx, p, c) in who.into_iter().flatten() {
            for (name, want) in [(&parent, p.iter().map(|i| C::I(*i)).collect::<Vec<_>>()), (&child, c.clone())] {
                count.fetch_add(1, Relaxed);
                let got = execute(&table_plan(db, name).0, &db.context(tx), 100)?;
                let mut got: Vec<C> = got.into_iter().map(|r| r[1].clone()).collect();
                let mut want = want;
                got.sort();
                want.sort();
                if got != want {
                    return Err(format!("step {step}: after {op:?} {} has {got:?}, expected {want:?}", &name[..1]));
                }
            }
        }
        db.txns.abort(new.get_transaction());
    }
    if let Some((tx, ..)) = own {
        db.txns.abort(tx.get_transaction());
    }
    Ok(())
}
fn words<T: std::marker::Copy>(ops: &[T], depth: usize) -> Vec<Vec<T>> {
    let n = ops.len().pow(depth as u32);
    (0..n)
        .map(|mut w| {
            (0..depth)
                .map(|_| {
                    let o = ops[w % ops.len()];
                    w /= ops.len();
                    o
                })
                .collect()
        })
        .collect()
}
pub fn run(ctx: &Ctx) {
    let count = AtomicU64::new(0);
    let blocks = |n: usize, f: &(dyn Fn(&Db, usize) -> Result<(), (String, serde_json::Value)> + Sync)| {
        par(n.div_ceil(SHARE), |b| {
            if ctx.n_violations() > 10 {
                return;
            }
            let db = Db::new("c28");
            for i in b * SHARE..(b * SHARE + SHARE).min(n) {
                match guard(|| f(&db, i)) {
                    Ok(Ok(())) => {},
                    Ok(Err((sig, replay))) => ctx.violation(&sig, replay),
                    Err(p) => ctx.violation(&format!("panic: {p}"), json!({"case": i, "panic": p})),
                }
            }
            drop(db);
            crate::disk::renew();
        });
    };
    // histories; those that begin by ending are shorter ones
    let all: Vec<Vec<Op>> = words(&OPS, ctx.pick(4, 5)).into_iter().filter(|w| !matches!(w[0], Commit | Abort)).collect();
    blocks(all.len(), &|db, i| {
        history(db, &format!("t{i}"), &all[i], &count).map_err(|e| (format!("{:?}: {e}", all[i]), json!({"history": format!("{:?}", all[i]), "what": e})))
    });
    let n_histories = all.len();
    // sources of up to three columns
    let names = ["a", "b", "c", "d", "x"];
    let mut sources: Vec<Vec<(&str, TypeId)>> = vec![vec![]];
    let mut i = 0;
    while i < sources.len() {
        if sources[i].len() < ctx.pick(3, 4) {
            for n in names {
                if sources[i].iter().all(|(m, _)| *m != n) {
                    for t in TYPES.iter().take(ctx.pick(3, 4)) {
                        let mut s = sources[i].clone();
                        s.push((n, *t));
                        sources.push(s);
                    }
                }
            }
        }
        i += 1;
    }
    sources.remove(0);
    blocks(sources.len(), &|db, i| {
        for direct in [false, true] {
            mapping(db, i, &sources[i], direct, &count).map_err(|e| (e.clone(), json!({"source": format!("{:?}", sources[i]), "what": e})))?;
        }
        Ok(())
    });
    let refs: Vec<Vec<Ref>> = words(&REFS, ctx.pick(3, 5)).into_iter().filter(|w| !matches!(w[0], Ref::Commit | Ref::Abort)).collect();
    blocks(refs.len(), &|db, i| {
        references(db, i, &refs[i], &count).map_err(|e| (format!("{:?}: {e}", refs[i]), json!({"history": format!("{:?}", refs[i]), "what": e})))
    });
    let c = count.load(Relaxed);
    ctx.part(json!({"histories": n_histories, "sources": sources.len(), "reference_histories": refs.len(), "executions": c}));
    ctx.add((n_histories + 2 * sources.len() + refs.len()) as u64, c, c);
    ctx.validated(c);
}
