//! C26: operators with one input. All small tables under all pipelines of one to three operators,
//! against the set of results the definitions of the operators allow.
use crate::common::*;
use crate::query::*;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::aggregate_expression::{AggregateExpression, AggregationType};
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::aggregation_plan::AggregationPlanNode;
use ferrite::sql::execution::plans::distinct_plan::DistinctNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::limit_plan::LimitNode;
use ferrite::sql::execution::plans::offset_plan::OffsetNode;
use ferrite::sql::execution::plans::projection_plan::ProjectionNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
use ferrite::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
use ferrite::sql::execution::plans::topn_plan::TopNNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::sql::execution::plans::window_plan::{WindowFunction, WindowFunctionType, WindowNode};
use ferrite::types_db::type_id::TypeId;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Agg {
    CountStar,
    Count(usize),
    Sum(usize),
    Min(usize),
    Max(usize),
    Avg(usize),
}
#[derive(Clone, Debug)]
pub enum Item {
    Col(usize),
    Eq(usize, usize),
    Plus(usize, usize),
    One,
}
#[derive(Clone, Debug)]
pub enum Op {
    FilterEq(usize, i64),
    FilterLess(usize, usize),
    FilterNot(usize, usize),
    FilterNull,
    Project(Vec<Item>),
    Sort(Vec<(usize, bool)>),
    Limit(usize),
    Offset(usize),
    Distinct,
    TopN(usize, Vec<usize>),
    TopNPerGroup(usize, Vec<usize>, Vec<usize>),
    Aggregate(Vec<usize>, Vec<Agg>),
    RowNumber(Vec<usize>, Vec<usize>),
}
pub const NAMES: [&str; 8] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"];
pub type Types = Vec<TypeId>;
pub fn cols(t: &[TypeId]) -> Vec<(&'static str, TypeId)> {
    t.iter().enumerate().map(|(i, t)| (NAMES[i], *t)).collect()
}
fn numeric(t: TypeId) -> bool {
    matches!(t, TypeId::TinyInt | TypeId::SmallInt | TypeId::Integer | TypeId::BigInt | TypeId::Decimal)
}
/// The types of the result, if the operator fits the input.
pub fn types(op: &Op, t: &[TypeId]) -> Option<Types> {
    let has = |c: &usize| *c < t.len();
    let num = |c: &usize| has(c) && numeric(t[*c]);
    let same = t.to_vec();
    match op {
        Op::FilterEq(a, _) => num(a).then_some(same),
        Op::FilterLess(a, b) | Op::FilterNot(a, b) => (num(a) && num(b)).then_some(same),
        Op::FilterNull | Op::Limit(_) | Op::Offset(_) | Op::Distinct => Some(same),
        Op::Project(items) => items
            .iter()
            .map(|i| match i {
                Item::Col(c) => has(c).then(|| t[*c]),
                Item::Eq(a, b) => (num(a) && num(b)).then_some(TypeId::Boolean),
                Item::Plus(a, b) => (num(a) && num(b) && t[*a] == t[*b]).then(|| t[*a]),
                Item::One => Some(TypeId::Integer),
            })
            .collect(),
        Op::Sort(k) => k.iter().all(|k| has(&k.0)).then_some(same),
        Op::TopN(_, k) => k.iter().all(has).then_some(same),
        Op::TopNPerGroup(_, s, g) => s.iter().chain(g).all(has).then_some(same),
        Op::Aggregate(g, a) => {
            let mut out: Types = Vec::new();
            for g in g {
                out.push(*t.get(*g)?);
            }
            for a in a {
                out.push(match a {
                    Agg::CountStar => TypeId::BigInt,
                    Agg::Count(c) => has(c).then_some(TypeId::BigInt)?,
                    Agg::Sum(c) => num(c).then(|| t[*c])?,
                    Agg::Min(c) | Agg::Max(c) => *t.get(*c)?,
                    Agg::Avg(c) => num(c).then_some(TypeId::Decimal)?,
                });
            }
            Some(out)
        }
        Op::RowNumber(p, o) => p.iter().chain(o).all(has).then(|| [same, vec![TypeId::Integer]].concat()),
    }
}
pub fn items_of(items: &[Item], ic: Cols) -> Vec<Ex> {
    let c = |i: &usize| col(0, ic, *i);
    items
        .iter()
        .map(|i| match i {
            Item::Col(i) => c(i),
            Item::Eq(a, b) => cmp("=", c(a), c(b)),
            Item::Plus(a, b) => plus(c(a), c(b)),
            Item::One => lit(&C::I(1), TypeId::Integer),
        })
        .collect()
}
pub fn aggregates(g: &[usize], a: &[Agg], ic: Cols, out: &[TypeId]) -> Vec<Ex> {
    a
                .iter()
                .enumerate()
                .map(|(i, a)| {
                    let (k, arg, name) = match a {
                        Agg::CountStar => (AggregationType::CountStar, vec![], "COUNT"),
                        Agg::Count(x) => (AggregationType::Count, vec![col(0, ic, *x)], "COUNT"),
                        Agg::Sum(x) => (AggregationType::Sum, vec![col(0, ic, *x)], "SUM"),
                        Agg::Min(x) => (AggregationType::Min, vec![col(0, ic, *x)], "MIN"),
                        Agg::Max(x) => (AggregationType::Max, vec![col(0, ic, *x)], "MAX"),
                        Agg::Avg(x) => (AggregationType::Avg, vec![col(0, ic, *x)], "AVG"),
                    };
                    Arc::new(Expression::Aggregate(AggregateExpression::new(k, arg, column(NAMES[g.len() + i], out[g.len() + i]), name.into())))
                })
                .collect()
}
fn plan(op: &Op, child: PlanNode, t: &[TypeId], out: &[TypeId]) -> PlanNode {
    let (ic, oc) = (cols(t), cols(out));
    let (is, os) = (schema(&ic), schema(&oc));
    let c = |i: &usize| col(0, &ic, *i);
    let all = |l: &[usize]| l.iter().map(c).collect::<Vec<_>>();
    let filter = |e: Ex| PlanNode::Filter(FilterNode::new(is.clone(), 0, "rows".into(), e, vec![child.clone()]));
    match op {
        Op::FilterEq(a, n) => filter(cmp("=", c(a), lit(&C::I(*n), TypeId::Integer))),
        Op::FilterLess(a, b) => filter(cmp("<", c(a), c(b))),
        Op::FilterNot(a, b) => filter(not(cmp("=", c(a), c(b)))),
        Op::FilterNull => filter(lit(&C::N, TypeId::Boolean)),
        Op::Project(items) => {
            let e = items_of(items, &ic);
            PlanNode::Projection(ProjectionNode::new(os, e, vec![]).with_children(vec![child]))
        }
        Op::Sort(k) => {
            let k = k.iter().map(|(i, asc)| OrderBySpec::new(c(i), if *asc { OrderDirection::Asc } else { OrderDirection::Desc })).collect();
            PlanNode::Sort(SortNode::new(is, k, vec![child]))
        }
        Op::Limit(n) => PlanNode::Limit(LimitNode::new(*n, is, vec![child])),
        Op::Offset(n) => PlanNode::Offset(OffsetNode::new(*n, is, vec![child])),
        Op::Distinct => PlanNode::Distinct(DistinctNode::new(is).with_children(vec![child])),
        Op::TopN(n, k) => PlanNode::TopN(TopNNode::new(is, all(k), *n, vec![child])),
        Op::TopNPerGroup(n, s, g) => PlanNode::TopNPerGroup(TopNPerGroupNode::new(*n, all(s), all(g), is, vec![child])),
        Op::Aggregate(g, a) => {
            let a = aggregates(g, a, &ic, out);
            PlanNode::Aggregation(AggregationPlanNode::new(vec![child], all(g), a))
        }
        Op::RowNumber(p, o) => {
            let f = WindowFunction::new(WindowFunctionType::RowNumber, lit(&C::I(1), TypeId::Integer), all(p), all(o));
            PlanNode::Window(WindowNode::new(os, vec![f], vec![child]))
        }
    }
}
/// A result: rows, possibly followed by an error.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out {
    pub rows: Vec<Row>,
    pub err: bool,
    /// whether the rows come in this order, or in any
    pub ordered: bool,
}
fn orders(r: &[Row]) -> Vec<Vec<Row>> {
    let mut all: Vec<Vec<Row>> = vec![vec![]];
    let mut done = HashSet::new();
    if r.is_empty() {
        return all;
    }
    all.clear();
    for i in 0..r.len() {
        if done.insert(&r[i]) {
            let rest: Vec<Row> = r[..i].iter().chain(&r[i + 1..]).cloned().collect();
            all.extend(orders(&rest).into_iter().map(|o| [vec![r[i].clone()], o].concat()));
        }
    }
    all
}
/// Integers and fractions compare by value.
pub fn norm(c: &C) -> C {
    match c {
        C::I(i) => C::F(*i * 1_000_000),
        c => c.clone(),
    }
}
fn keys(r: &Row, k: &[(usize, bool)]) -> Vec<C> {
    k.iter().map(|k| norm(&r[k.0])).collect()
}
pub fn sorted_by(r: &[Row], k: &[(usize, bool)]) -> bool {
    r.windows(2).all(|w| {
        let (a, b) = (keys(&w[0], k), keys(&w[1], k));
        match (0..k.len()).find(|i| a[*i] != b[*i]) {
            None => true,
            Some(i) => (a[i] < b[i]) == k[i].1,
        }
    })
}
fn down(k: &[usize]) -> Vec<(usize, bool)> {
    k.iter().map(|c| (*c, false)).collect()
}
fn range(t: TypeId) -> (i64, i64) {
    match t {
        TypeId::TinyInt => (i8::MIN as i64, i8::MAX as i64),
        TypeId::SmallInt => (i16::MIN as i64, i16::MAX as i64),
        TypeId::Integer => (i32::MIN as i64, i32::MAX as i64),
        _ => (i64::MIN / 2, i64::MAX / 2),
    }
}
pub fn add(a: &C, b: &C, t: TypeId) -> Option<C> {
    match (a, b) {
        (C::I(a), C::I(b)) => {
            let (lo, hi) = range(t);
            let s = a + b;
            (lo <= s && s <= hi).then_some(C::I(s))
        }
        (C::F(a), C::F(b)) => Some(C::F(a + b)),
        _ => None,
    }
}
/// The values an aggregate may have; none means an error.
fn aggregate(a: Agg, rows: &[Row], t: &[TypeId]) -> Vec<Option<C>> {
    let values = |c: usize| rows.iter().map(move |r| r[c].clone()).filter(|c| *c != C::N).collect::<Vec<_>>();
    match a {
        Agg::CountStar => vec![Some(C::I(rows.len() as i64))],
        Agg::Count(c) => vec![Some(C::I(values(c).len() as i64))],
        Agg::Min(c) => vec![Some(values(c).into_iter().min().unwrap_or(C::N))],
        Agg::Max(c) => vec![Some(values(c).into_iter().max().unwrap_or(C::N))],
        Agg::Sum(c) => {
            let v = values(c);
            let Some(first) = v.first() else {
                return if rows.is_empty() { vec![Some(C::N), Some(C::I(0)), Some(C::F(0))] } else { vec![Some(C::N)] };
            };
            let total: i64 = v.iter().map(|v| if let C::I(i) | C::F(i) = v { *i } else { 0 }).sum();
            let (lo, hi) = range(t[c]);
            let fraction = matches!(first, C::F(_));
            if !fraction && (total < lo || total > hi) {
                return vec![None];
            }
            let sum = Some(if fraction { C::F(total) } else { C::I(total) });
            // whether it overflows in between depends on the order of the rows
            let low: i64 = v.iter().map(|v| if let C::I(i) = v { (*i).min(0) } else { 0 }).sum();
            let high: i64 = v.iter().map(|v| if let C::I(i) = v { (*i).max(0) } else { 0 }).sum();
            if low < lo || high > hi {
                return vec![sum, None];
            }
            vec![sum]
        }
        Agg::Avg(c) => {
            let v: Vec<f64> = values(c).iter().map(|v| match v { C::I(i) => *i as f64, C::F(i) => *i as f64 / 1e6, _ => 0.0 }).collect();
            vec![Some(if v.is_empty() { C::N } else { C::F((v.iter().sum::<f64>() / v.len() as f64 * 1e6).round() as i64) })]
        }
    }
}
fn product<T: Clone>(l: Vec<Vec<T>>) -> Vec<Vec<T>> {
    l.into_iter().fold(vec![vec![]], |acc, c| acc.iter().flat_map(|a| c.iter().map(move |x| { let mut a = a.clone(); a.push(x.clone()); a })).collect())
}
/// Everything the operator may make of this input.
pub fn apply(op: &Op, i: &Out, t: &[TypeId]) -> Vec<Out> {
    let with = |rows: Vec<Row>| vec![Out { rows, ..i.clone() }];
    let keep = |f: &dyn Fn(&Row) -> Option<bool>| with(i.rows.iter().filter(|r| f(r) == Some(true)).cloned().collect());
    let failed = || vec![Out { rows: vec![], err: true, ordered: true }];
    let inputs = || if i.ordered { vec![i.rows.clone()] } else { orders(&i.rows) };
    let blocking = matches!(op, Op::Sort(_) | Op::TopN(..) | Op::TopNPerGroup(..) | Op::Aggregate(..) | Op::RowNumber(..));
    if blocking && i.err {
        return failed();
    }
    match op {
        Op::FilterEq(a, n) => keep(&|r| test("=", &norm(&r[*a]), &norm(&C::I(*n)))),
        Op::FilterLess(a, b) => keep(&|r| test("<", &norm(&r[*a]), &norm(&r[*b]))),
        Op::FilterNot(a, b) => keep(&|r| test("<>", &norm(&r[*a]), &norm(&r[*b]))),
        Op::FilterNull => with(vec![]),
        Op::Project(items) => {
            let one = |r: &Row| -> Option<Row> {
                items
                    .iter()
                    .map(|x| match x {
                        Item::Col(c) => Some(r[*c].clone()),
                        Item::Eq(a, b) => Some(test("=", &norm(&r[*a]), &norm(&r[*b])).map_or(C::N, C::B)),
                        Item::Plus(a, b) => add(&r[*a], &r[*b], t[*a]),
                        Item::One => Some(C::I(1)),
                    })
                    .collect()
            };
            if i.rows.iter().all(|r| one(r).is_some()) {
                return with(i.rows.iter().filter_map(one).collect());
            }
            // the rows before the failure
            inputs().into_iter().map(|r| Out { rows: r.iter().map_while(one).collect(), err: true, ordered: true }).collect()
        }
        Op::Sort(k) => orders(&i.rows).into_iter().filter(|o| sorted_by(o, k)).map(|rows| Out { rows, err: false, ordered: true }).collect(),
        Op::Limit(n) => inputs()
            .into_iter()
            .flat_map(|mut rows| {
                let enough = rows.len() >= *n;
                rows.truncate(*n);
                let mut o = vec![Out { rows: rows.clone(), err: i.err && !enough, ordered: true }];
                if i.err {
                    o.push(Out { rows, err: true, ordered: true });
                }
                o
            })
            .collect(),
        Op::Offset(n) => inputs().into_iter().map(|rows| Out { rows: rows.into_iter().skip(*n).collect(), err: i.err, ordered: true }).collect(),
        Op::Distinct => {
            let mut seen = HashSet::new();
            with(i.rows.iter().filter(|r| seen.insert((*r).clone())).cloned().collect())
        }
        Op::TopN(n, k) => orders(&i.rows)
            .into_iter()
            .filter(|o| sorted_by(o, &down(k)))
            .map(|mut rows| {
                rows.truncate(*n);
                Out { rows, err: false, ordered: true }
            })
            .collect(),
        Op::TopNPerGroup(n, s, g) => {
            let mut groups: BTreeMap<Vec<C>, Vec<Row>> = BTreeMap::new();
            for r in &i.rows {
                groups.entry(keys(r, &down(g))).or_default().push(r.clone());
            }
            let choices = groups
                .into_values()
                .map(|v| {
                    orders(&v)
                        .into_iter()
                        .filter(|o| sorted_by(o, &down(s)))
                        .map(|mut r| {
                            r.truncate(*n);
                            r
                        })
                        .collect()
                })
                .collect();
            product(choices).into_iter().map(|l| Out { rows: l.concat(), err: false, ordered: true }).collect()
        }
        Op::Aggregate(g, a) => {
            let mut groups: BTreeMap<Vec<C>, Vec<Row>> = BTreeMap::new();
            for r in &i.rows {
                groups.entry(g.iter().map(|c| r[*c].clone()).collect()).or_default().push(r.clone());
            }
            if g.is_empty() {
                groups.entry(vec![]).or_default();
            }
            let mut per_group = Vec::new();
            for (k, rows) in groups {
                let parts = product(a.iter().map(|a| aggregate(*a, &rows, t)).collect());
                per_group.push(parts.into_iter().map(|p| p.into_iter().collect::<Option<Row>>().map(|p| [k.clone(), p].concat())).collect());
            }
            product(per_group)
                .into_iter()
                .map(|rows| match rows.into_iter().collect::<Option<Vec<Row>>>() {
                    Some(rows) => Out { rows, err: false, ordered: false },
                    None => Out { rows: vec![], err: true, ordered: true },
                })
                .collect()
        }
        Op::RowNumber(p, o) => {
            let mut groups: BTreeMap<Vec<C>, Vec<Row>> = BTreeMap::new();
            for r in &i.rows {
                groups.entry(keys(r, &down(p))).or_default().push(r.clone());
            }
            let up: Vec<_> = o.iter().map(|c| (*c, true)).collect();
            let choices = groups
                .into_values()
                .map(|v| {
                    orders(&v)
                        .into_iter()
                        .filter(|o| sorted_by(o, &up))
                        .map(|r| r.into_iter().enumerate().map(|(i, r)| [r, vec![C::I(i as i64 + 1)]].concat()).collect::<Vec<Row>>())
                        .collect()
                })
                .collect();
            product(choices).into_iter().map(|l| Out { rows: sorted(l.concat()), err: false, ordered: false }).collect()
        }
    }
}
pub fn allowed(ops: &[Op], rows: &[Row], t: &[TypeId]) -> Vec<Out> {
    allowed_of(ops, Out { rows: rows.to_vec(), err: false, ordered: true }, t)
}
pub fn allowed_of(ops: &[Op], from: Out, t: &[TypeId]) -> Vec<Out> {
    let mut outs = vec![from];
    let mut t = t.to_vec();
    for op in ops {
        let mut seen = HashSet::new();
        let next: Vec<Out> = outs.iter().flat_map(|o| apply(op, o, &t)).filter(|o| seen.insert(o.clone())).collect();
        outs = next;
        t = types(op, &t).unwrap();
    }
    outs
}
pub fn operators() -> Vec<Op> {
    use Agg::*;
    use Item::*;
    let mut o = vec![
        Op::FilterEq(0, 1),
        Op::FilterLess(0, 1),
        Op::FilterNot(0, 1),
        Op::FilterNull,
        Op::Project(vec![Col(1), Col(0)]),
        Op::Project(vec![Col(0), Col(0), Eq(0, 1), One]),
        Op::Project(vec![Plus(0, 1), Col(1)]),
        Op::Project(vec![Col(2), Col(1)]),
        Op::Sort(vec![(0, true)]),
        Op::Sort(vec![(0, false), (1, true)]),
        Op::Sort(vec![(1, true), (0, false)]),
        Op::Sort(vec![(2, false)]),
        Op::Sort(vec![(2, true), (1, false)]),
        Op::Distinct,
        Op::TopN(2, vec![0, 1]),
        Op::TopN(2, vec![2]),
        Op::TopNPerGroup(1, vec![1], vec![0]),
        Op::TopNPerGroup(2, vec![1, 2], vec![0]),
        Op::TopNPerGroup(2, vec![0], vec![]),
        Op::TopNPerGroup(1, vec![0], vec![2, 1]),
        Op::Aggregate(vec![], vec![CountStar, Count(0), Sum(1), Min(0), Max(1), Avg(0)]),
        Op::Aggregate(vec![0], vec![CountStar, Count(1), Sum(1), Avg(1)]),
        Op::Aggregate(vec![0], vec![Max(1), Min(1)]),
        Op::Aggregate(vec![2], vec![Min(2), Count(2), Max(0)]),
        Op::Aggregate(vec![1, 0], vec![]),
        Op::Aggregate(vec![0, 1], vec![Count(2), Avg(0), Sum(0)]),
        Op::RowNumber(vec![0], vec![1]),
        Op::RowNumber(vec![], vec![0, 1]),
        Op::RowNumber(vec![1, 2], vec![0]),
    ];
    o.extend((0..=3).map(Op::Limit));
    o.extend((0..=3).map(Op::Offset));
    o.extend([0, 1, 3].map(|n| Op::TopN(n, vec![0])));
    o
}
fn source(values: bool, t: &[TypeId], rows: &[Row], distinct: bool) -> PlanNode {
    let c = cols(t);
    if values {
        let e = rows.iter().map(|r| r.iter().zip(t).map(|(v, t)| lit(v, *t)).collect()).collect();
        PlanNode::Values(ValuesNode::new(schema(&c), e, vec![]))
    } else {
        rows_plan(&c, rows, distinct)
    }
}
pub fn run(ctx: &Ctx) {
    let b = C::B;
    let i = C::I;
    let s = |s: &str| C::T(s.into());
    let n = C::N;
    let max = i32::MAX as i64;
    let sets: Vec<(Types, Vec<Row>)> = vec![
        (
            vec![TypeId::Integer, TypeId::Integer, TypeId::VarChar],
            vec![
                vec![n.clone(), i(-1), s("a")],
                vec![i(-1), n.clone(), s("a")],
                vec![i(1), i(1), s("b")],
                vec![i(1), i(2), n.clone()],
                vec![i(2), i(1), s("")],
                vec![i(1), i(max), s("b")],
            ],
        ),
        (
            vec![TypeId::BigInt, TypeId::SmallInt, TypeId::Boolean],
            vec![
                vec![n.clone(), i(-1), b(true)],
                vec![i(-1), n.clone(), b(true)],
                vec![i(1), i(1), b(false)],
                vec![i(1), i(32767), n.clone()],
                vec![i(2), i(1), b(false)],
            ],
        ),
        (
            vec![TypeId::Decimal, TypeId::TinyInt, TypeId::Decimal],
            vec![
                vec![n.clone(), i(-1), C::F(500_000)],
                vec![C::F(-1_000_000), n.clone(), C::F(500_000)],
                vec![C::F(1_000_000), i(1), n.clone()],
                vec![C::F(1_000_000), i(127), C::F(-250_000)],
                vec![C::F(1_500_000), i(1), C::F(0)],
            ],
        ),
    ];
    let ops = operators();
    // EXPLAIN must end, for every plan: tried in a process of its own
    if std::env::var_os("MC_EXPLAIN").is_some() {
        for (t, rows) in &sets {
            for op in &ops {
                if let Some(o) = types(op, t) {
                    let p = plan(op, source(false, t, rows, true), t, &o);
                    if !p.explain().contains('→') {
                        std::process::exit(3);
                    }
                }
            }
        }
        std::process::exit(0);
    }
    let explained = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(std::env::args().skip(1))
        .env("MC_EXPLAIN", "1")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("run");
    if !explained.success() {
        ctx.violation(&format!("explaining plans of one operator ends with {explained:?}"), json!({"part": "explain"}));
    }
    let count = AtomicU64::new(0);
    let allowed_total = AtomicU64::new(0);
    let mut parts = Vec::new();
    let depths: Vec<(usize, usize)> = ctx.pick(vec![(1, 4), (2, 3), (3, 2)], vec![(1, 5), (2, 4), (3, 3)]);
    for (depth, size) in depths {
        for (t, domain) in &sets {
            let domain = if depth == 3 { &domain[..4] } else { &domain[..] };
            let tables = lists(domain, size);
            let tables: Vec<_> = if depth == 3 { tables.into_iter().filter(|t| t.len() == size).collect() } else { tables };
            // pipelines that fit
            let mut pipes: Vec<(Vec<usize>, Types)> = vec![(vec![], t.clone())];
            for _ in 0..depth {
                pipes = pipes
                    .iter()
                    .flat_map(|(p, t)| {
                        let ops = &ops;
                        (0..ops.len()).filter_map(move |o| types(&ops[o], t).filter(|t| !t.is_empty() && t.len() <= 8).map(|t| ([p.clone(), vec![o]].concat(), t)))
                    })
                    .collect();
            }
            let before = count.load(Relaxed);
            let share = (tables.len() / 64).clamp(1, 32);
            par(tables.len().div_ceil(share), |block| {
                let db = Db::new("c26");
                let tx = db.begin();
                let cx = db.context(&tx);
                for (rows, (p, _)) in tables.iter().skip(block * share).take(share).flat_map(|r| pipes.iter().map(move |p| (r, p))) {
                    if ctx.n_violations() > 20 {
                        return;
                    }
                    let list: Vec<Op> = p.iter().map(|o| ops[*o].clone()).collect();
                    let want = allowed(&list, rows, t);
                    allowed_total.fetch_add(want.len() as u64, Relaxed);
                    let sources: &[(bool, bool)] = if depth == 1 { &[(false, true), (false, false), (true, false)] } else { &[(false, true)] };
                    for (values, distinct) in sources {
                        let mut plan_ = source(*values, t, rows, *distinct);
                        let mut ty = t.clone();
                        for op in &list {
                            let o = types(op, &ty).unwrap();
                            plan_ = plan(op, plan_, &ty, &o);
                            ty = o;
                        }
                        let got = execute(&plan_, &cx, 64);
                        count.fetch_add(1, Relaxed);
                        let fine = match &got {
                            Err(e) => e.starts_with("error:") && want.iter().any(|o| o.err),
                            Ok(r) => want.iter().any(|o| !o.err && if o.ordered { o.rows == *r } else { sorted(o.rows.clone()) == sorted(r.clone()) }),
                        };
                        if !fine {
                            ctx.violation(
                                &format!("{list:?} of {rows:?} gives {got:?}, expected {}{:?}", if want.len() > 1 { "for example " } else { "" }, want.first()),
                                json!({"operators": format!("{list:?}"), "rows": format!("{rows:?}"), "types": format!("{t:?}"), "result": format!("{got:?}")}),
                            );
                        }
                    }
                }
                crate::disk::renew();
            });
            parts.push(json!({"operators": depth, "types": format!("{t:?}"), "tables": tables.len(), "pipelines": pipes.len(), "executions": count.load(Relaxed) - before}));
        }
    }
    for p in parts {
        ctx.part(p);
    }
    let c = count.load(Relaxed);
    ctx.part(json!({"part": "all", "executions": c, "allowed_results": allowed_total.load(Relaxed)}));
    ctx.add(c, c, c);
    ctx.validated(c);
}
