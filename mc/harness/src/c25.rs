//! C25: joins. All pairs of small tables under all join types and several conditions, against the
//! definition of a join.
use crate::common::*;
use crate::query::*;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::hash_join_plan::HashJoinNode;
use ferrite::sql::execution::plans::nested_loop_join_plan::NestedLoopJoinNode;
use ferrite::types_db::type_id::TypeId;
use serde_json::json;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const L: Cols = &[("l.k", TypeId::Integer), ("l.v", TypeId::Integer)];
const R: Cols = &[("r.k", TypeId::BigInt), ("r.v", TypeId::Integer)];
const J: Cols = &[("l.k", TypeId::Integer), ("l.v", TypeId::Integer), ("r.k", TypeId::BigInt), ("r.v", TypeId::Integer)];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cond {
    Key,
    TwoKeys,
    KeyAndLess,
    Less,
    Not,
    True,
}
const CONDS: [Cond; 6] = [Cond::Key, Cond::TwoKeys, Cond::KeyAndLess, Cond::Less, Cond::Not, Cond::True];
/// Columns of the right side may be numbered from 0 or from the end of the left side.
fn condition(c: Cond, left: Cols, k: usize, absolute: bool) -> Ex {
    let n = if absolute { left.len() } else { 0 };
    let (lk, lv) = (col(0, left, k), col(0, left, k + 1));
    let r = |i: usize| {
        let mut cols = vec![("pad", TypeId::Integer); n];
        cols.extend(R);
        col(1, &cols, n + i)
    };
    match c {
        Cond::Key => cmp("=", lk, r(0)),
        Cond::TwoKeys => and(cmp("=", lk, r(0)), cmp("=", lv, r(1))),
        Cond::KeyAndLess => and(cmp("=", lk, r(0)), cmp("<", lv, r(1))),
        Cond::Less => cmp("<", lk, r(0)),
        Cond::Not => not(cmp("=", lk, r(0))),
        Cond::True => lit(&C::B(true), TypeId::Boolean),
    }
}
fn holds(c: Cond, l: &[C], r: &[C]) -> bool {
    let key = test("=", &l[0], &r[0]);
    (match c {
        Cond::Key => key,
        Cond::TwoKeys => and3(key, test("=", &l[1], &r[1])),
        Cond::KeyAndLess => and3(key, test("<", &l[1], &r[1])),
        Cond::Less => test("<", &l[0], &r[0]),
        Cond::Not => key.map(|b| !b),
        Cond::True => Some(true),
    }) == Some(true)
}
fn types() -> Vec<(&'static str, JoinOperator, bool, bool)> {
    use JoinOperator::*;
    let c = || JoinConstraint::None;
    vec![
        ("JOIN", Join(c()), false, false),
        ("INNER JOIN", Inner(c()), false, false),
        ("LEFT JOIN", Left(c()), true, false),
        ("LEFT OUTER JOIN", LeftOuter(c()), true, false),
        ("RIGHT JOIN", Right(c()), false, true),
        ("RIGHT OUTER JOIN", RightOuter(c()), false, true),
        ("FULL OUTER JOIN", FullOuter(c()), true, true),
        ("CROSS JOIN", CrossJoin(c()), false, false),
    ]
}
/// The join by definition; `k` is the first of the two columns of the left side the condition uses.
fn join(l: &[Row], r: &[Row], c: Cond, k: usize, left: bool, right: bool, width: usize) -> Vec<Row> {
    let mut out = Vec::new();
    for a in l {
        let before = out.len();
        out.extend(r.iter().filter(|b| holds(c, &a[k..], b)).map(|b| [&a[..], &b[..]].concat()));
        if left && out.len() == before {
            out.push([&a[..], &[C::N, C::N]].concat());
        }
    }
    if right {
        let none = vec![C::N; width];
        out.extend(r.iter().filter(|b| !l.iter().any(|a| holds(c, &a[k..], b))).map(|b| [&none[..], &b[..]].concat()));
    }
    out
}
fn plan(hash: bool, l: PlanNode, r: PlanNode, left: Cols, c: Cond, k: usize, t: JoinOperator, absolute: bool) -> PlanNode {
    let (ls, rs) = (schema(left), schema(R));
    // the keys: all equalities of the condition
    let keys = match c {
        Cond::TwoKeys => 2,
        _ => 1,
    };
    let lk: Vec<Ex> = (0..keys).map(|i| col(0, left, k + i)).collect();
    let rk: Vec<Ex> = (0..keys).map(|i| col(1, R, i)).collect();
    let cond = condition(c, left, k, absolute);
    if hash {
        PlanNode::HashJoin(HashJoinNode::new(ls, rs, cond, t, lk, rk, vec![l, r]))
    } else {
        PlanNode::NestedLoopJoin(NestedLoopJoinNode::new(ls, rs, cond, t, lk, rk, vec![l, r]))
    }
}
pub fn run(ctx: &Ctx) {
    let one = |k: C, v: i64| vec![k, C::I(v)];
    let domain: Vec<Row> = vec![one(C::N, 1), one(C::I(1), 1), one(C::I(1), 2), one(C::I(2), 1), vec![C::I(2), C::N]];
    let (nl, nr) = ctx.pick((3, 3), (4, 3));
    let (ls, rs) = (lists(&domain[..4], nl), lists(&domain, nr));
    let n = AtomicU64::new(0);
    let ts = types();
    par(ls.len(), |i| {
        let db = Db::new("c25");
        let t = db.begin();
        let cx = db.context(&t);
        let l = &ls[i];
        for r in &rs {
            for c in CONDS {
                for (name, t, left, right) in &ts {
                    let cross = matches!(t, JoinOperator::CrossJoin(_));
                    if cross && c != Cond::True {
                        continue;
                    }
                    let want = sorted(join(l, r, c, 0, *left, *right, 2));
                    for hash in [false, true] {
                        if hash && (cross || !matches!(c, Cond::Key | Cond::TwoKeys | Cond::KeyAndLess)) {
                            continue;
                        }
                        for distinct in [true, false] {
                            // rows from tables have distinct locations, computed rows all the same
                            if ctx.n_violations() > 20 {
                                return;
                            }
                            let p = plan(hash, rows_plan(L, l, distinct), rows_plan(R, r, distinct), L, c, 0, t.clone(), distinct);
                            let got = execute(&p, &cx, 64).map(sorted);
                            n.fetch_add(1, Relaxed);
                            if got.as_ref() != Ok(&want) {
                                let kind = if hash { "hash" } else { "nested loop" };
                                ctx.violation(
                                    &format!("{kind} {name} on {c:?}{} of {l:?} and {r:?} gives {got:?}, expected {want:?}", if distinct { "" } else { " of computed rows" }),
                                    json!({"join": name, "implementation": kind, "condition": format!("{c:?}"), "left": format!("{l:?}"), "right": format!("{r:?}")}),
                                );
                            }
                        }
                    }
                }
            }
        }
        crate::disk::renew();
    });
    let pairs = n.load(Relaxed);
    ctx.part(json!({"part": "two tables", "left_tables": ls.len(), "right_tables": rs.len(), "joins": pairs}));
    // a join of a join
    let small = lists(&domain[1..4], 2);
    let m = AtomicU64::new(0);
    let inner: Vec<_> = ts.iter().filter(|t| matches!(t.1, JoinOperator::Inner(_) | JoinOperator::LeftOuter(_) | JoinOperator::FullOuter(_))).collect();
    par(small.len() * small.len(), |i| {
        let db = Db::new("c25");
        let t = db.begin();
        let cx = db.context(&t);
        let (a, b) = (&small[i / small.len()], &small[i % small.len()]);
        for c in &small {
            for (n1, t1, l1, r1) in &inner {
                for (n2, t2, l2, r2) in &inner {
                    for k in [0, 2] {
                        for (h1, h2) in [(false, false), (true, true), (false, true)] {
                            for cond in [Cond::Key, Cond::KeyAndLess] {
                                if ctx.n_violations() > 20 {
                                    return;
                                }
                                let first = join(a, b, Cond::Key, 0, *l1, *r1, 2);
                                let want = sorted(join(&first, c, cond, k, *l2, *r2, 4));
                                let p1 = plan(h1, rows_plan(L, a, true), rows_plan(R, b, true), L, Cond::Key, 0, t1.clone(), true);
                                let p = plan(h2, p1, rows_plan(R, c, true), J, cond, k, t2.clone(), true);
                                let got = execute(&p, &cx, 256).map(sorted);
                                m.fetch_add(1, Relaxed);
                                if got.as_ref() != Ok(&want) {
                                    ctx.violation(
                                        &format!("({a:?} {n1} {b:?}) {n2} {c:?} on {cond:?} of column {k}, hash joins {h1} {h2}, gives {got:?}, expected {want:?}"),
                                        json!({"joins": [n1, n2], "tables": [format!("{a:?}"), format!("{b:?}"), format!("{c:?}")]}),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
        crate::disk::renew();
    });
    let chains = m.load(Relaxed);
    ctx.part(json!({"part": "three tables", "joins": chains}));
    ctx.add(pairs + chains, pairs + chains, pairs + chains);
    ctx.validated(pairs + chains);
}
