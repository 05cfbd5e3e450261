//! C18: arrays, quantified comparisons, subquery results and member access. Every vector up to a length over a small
//! domain with NULLs under every operator, subscript, range and key, as constants, columns and columns of either side
//! of a join, against lists and three-valued logic.
use crate::c31::{check, column, Ex, A, R};
use crate::c22::universe;
use crate::c23::image;
use crate::common::*;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::all_expression::AllExpression;
use ferrite::sql::execution::expressions::any_expression::AnyExpression;
use ferrite::sql::execution::expressions::array_expression::ArrayExpression;
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::convert_expression::ConvertExpression;
use ferrite::sql::execution::expressions::exists_expression::ExistsExpression;
use ferrite::sql::execution::expressions::filter_expression::FilterExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::literal_value_expression::LiteralValueExpression;
use ferrite::sql::execution::expressions::map_access_expression::{MapAccessExpression, MapAccessKey};
use ferrite::sql::execution::expressions::method_expression::MethodExpression;
use ferrite::sql::execution::expressions::struct_expression::{StructExpression, StructField};
use ferrite::sql::execution::expressions::subquery_expression::{SubqueryExpression, SubqueryType};
use ferrite::sql::execution::expressions::subscript_expression::{Subscript, SubscriptExpression};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Val;
use serde_json::json;
use sqlparser::ast::BinaryOperator as Op;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

const OPS: [Op; 6] = [Op::Eq, Op::NotEq, Op::Lt, Op::LtEq, Op::Gt, Op::GtEq];
/// Every list of up to `len` of the elements.
fn lists(domain: &[A], len: usize) -> Vec<Vec<A>> {
    (0..=len).flat_map(|l| (0..(domain.len() as u64).pow(l as u32)).map(move |w| word(w, domain.len(), l).into_iter().map(|i| domain[i].clone()).collect())).collect()
}
fn order(a: &A, b: &A) -> Option<Ordering> {
    match (a, b) {
        (A::T(a), A::T(b)) => Some(a.cmp(b)),
        (A::I(_, a), A::I(_, b)) => Some(a.cmp(b)),
        (A::D(a), A::D(b)) => a.partial_cmp(b),
        _ => None,
    }
}
fn holds(op: &Op, a: &A, b: &A) -> Option<bool> {
    order(a, b).map(|o| match op {
        Op::Eq => o.is_eq(),
        Op::NotEq => o.is_ne(),
        Op::Lt => o.is_lt(),
        Op::LtEq => o.is_le(),
        Op::Gt => o.is_gt(),
        _ => o.is_ge(),
    })
}
fn truth(b: Option<bool>) -> R {
    b.map_or(R::Null, R::B)
}
fn any(mut l: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    l.try_fold(Some(false), |s: Option<bool>, b| match b {
        Some(true) => Err(()),
        None => Ok(None),
        _ => Ok(s),
    })
    .unwrap_or(Some(true))
}
fn all(l: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    any(l.map(|b| b.map(|b| !b))).map(|b| !b)
}
fn value(a: &A) -> R {
    match a {
        A::T(s) => R::T(s.clone()),
        A::I(_, i) => R::I(*i),
        A::D(d) => R::D(*d),
        A::S(s) => R::S(*s),
        A::Null(_) => R::Null,
        A::V(l) => R::V(l.iter().map(value).collect()),
    }
}
fn boolean() -> ferrite::catalog::column::Column {
    column("b", TypeId::Boolean)
}
fn result(t: TypeId) -> ferrite::catalog::column::Column {
    column("r", t)
}
fn quantified(ctx: &Ctx, n: &AtomicU64, left: &A, list: &[A]) {
    let args = [left.clone(), A::V(list.to_vec())];
    for op in &OPS {
        let each = || list.iter().map(|r| holds(op, left, r));
        for some in [false, true] {
            check(ctx, n, &format!("{op} {}", if some { "SOME" } else { "ANY" }), &args, &|e: Vec<Ex>| Arc::new(Expression::Any(AnyExpression::new(e[0].clone(), e[1].clone(), op.clone(), some))), &[truth(any(each()))]);
        }
        check(ctx, n, &format!("{op} ALL"), &args, &|e: Vec<Ex>| Arc::new(Expression::All(AllExpression::new(e[0].clone(), e[1].clone(), op.clone()))), &[truth(all(each()))]);
    }
    let found = any(list.iter().map(|r| holds(&Op::Eq, left, r)));
    for not in [false, true] {
        let mut want = vec![truth(found.map(|f| f != not))];
        // `NULL [NOT] IN` an empty list is NULL by its comments
        if matches!(left, A::Null(_)) {
            want.push(R::Null);
        }
        let name = if not { "NOT IN" } else { "IN" };
        check(ctx, n, &format!("{name} list"), &args, &|e: Vec<Ex>| Arc::new(Expression::In(InExpression::new_list(e[0].clone(), e[1].clone(), not, boolean()))), &want);
        check(ctx, n, &format!("{name} UNNEST"), &args, &|e: Vec<Ex>| Arc::new(Expression::In(InExpression::new_unnest(e[0].clone(), e[1].clone(), not, boolean()))), &want);
        for kind in [SubqueryType::InList, SubqueryType::Quantified] {
            check(
                ctx,
                n,
                &format!("{name} subquery {kind:?}"),
                &args,
                &|e: Vec<Ex>| {
                    let q = Expression::Subquery(SubqueryExpression::new(e[1].clone(), kind.clone(), result(TypeId::Vector)));
                    Arc::new(Expression::In(InExpression::new_subquery(e[0].clone(), Arc::new(q), not, boolean())))
                },
                &want,
            );
        }
    }
}
/// Position of a subscript, or none if it lies before the list.
fn place(i: i128, len: usize) -> Option<usize> {
    let at = if i < 0 { len as i128 + i } else { i };
    usize::try_from(at).ok()
}
fn index_values(reach: i64) -> Vec<A> {
    let mut out = vec![];
    for (t, lo, hi) in [(TypeId::TinyInt, i8::MIN as i64, i8::MAX as i64), (TypeId::SmallInt, i16::MIN as i64, i16::MAX as i64), (TypeId::Integer, i32::MIN as i64, i32::MAX as i64), (TypeId::BigInt, i64::MIN, i64::MAX)] {
        out.extend((-reach..=reach).map(|i| A::I(t, i)));
        out.extend([lo, lo + 1, hi - 1, hi].map(|i| A::I(t, i)));
    }
    for i in [31, 32, 33, 62] {
        for d in [-1i64, 0, 1, 2] {
            out.extend([A::I(TypeId::BigInt, (1 << i) + d), A::I(TypeId::BigInt, -(1 << i) + d)]);
        }
    }
    out
}
fn as_int(a: &A) -> i128 {
    match a {
        A::I(_, i) => *i as i128,
        _ => unreachable!(),
    }
}
fn subscripts(ctx: &Ctx, n: &AtomicU64, list: &[A], indices: &[A], bounds: &[A]) {
    let v = A::V(list.to_vec());
    for i in indices {
        let at = place(as_int(i), list.len()).filter(|at| *at < list.len());
        let want = at.map_or(R::Error, |at| value(&list[at]));
        let args = [v.clone(), i.clone()];
        check(ctx, n, "[i]", &args, &|e: Vec<Ex>| Arc::new(Expression::Subscript(SubscriptExpression::new(e[0].clone(), Subscript::Single(e[1].clone()), result(TypeId::Integer)))), std::slice::from_ref(&want));
        let got = if as_int(i) < 0 { R::Error } else { want };
        for name in ["get", "at"] {
            check(ctx, n, name, &args, &|e: Vec<Ex>| Arc::new(Expression::Method(MethodExpression::new(e[0].clone(), name.into(), vec![e[1].clone()], result(TypeId::Integer)))), std::slice::from_ref(&got));
        }
    }
    for name in ["size", "count"] {
        check(ctx, n, name, &[v.clone()], &|e: Vec<Ex>| Arc::new(Expression::Method(MethodExpression::new(e[0].clone(), name.into(), vec![], result(TypeId::Integer)))), &[R::I(list.len() as i64)]);
    }
    // a range is what lies from its start, the beginning if that is before it, up to its end, and empty if the end
    // lies behind the list (pinned by tests)
    let range = |from: Option<&A>, to: Option<&A>| {
        let at = |a: &A| place(as_int(a), list.len()).unwrap_or(0);
        let (s, e) = (from.map_or(0, at), to.map_or(list.len(), at));
        R::V(if s <= e && e <= list.len() { list[s..e].iter().map(value).collect() } else { vec![] })
    };
    let ends: Vec<Option<&A>> = std::iter::once(None).chain(bounds.iter().map(Some)).collect();
    for from in &ends {
        for to in &ends {
            let args: Vec<A> = std::iter::once(&v).chain(*from).chain(*to).cloned().collect();
            let (f, t) = (from.is_some(), to.is_some());
            check(
                ctx,
                n,
                &format!("[{}:{}]", if f { "i" } else { "" }, if t { "j" } else { "" }),
                &args,
                &|e: Vec<Ex>| {
                    let mut rest = e[1..].iter().cloned();
                    let start = if f { rest.next() } else { None };
                    Arc::new(Expression::Subscript(SubscriptExpression::new(e[0].clone(), Subscript::Range { start, end: if t { rest.next() } else { None } }, result(TypeId::Vector))))
                },
                &[range(*from, *to)],
            );
        }
    }
}
/// A document, and what it is as a value.
fn documents(depth: usize) -> Vec<serde_json::Value> {
    let mut out = vec![json!(null), json!(true), json!(7), json!(-9007199254740993i64), json!(2.5), json!("x"), json!("a\"b"), json!([]), json!({})];
    if depth > 0 {
        let below = documents(depth - 1);
        for d in &below {
            out.extend([json!([d]), json!([1, d]), json!({"a": d}), json!({"a": 1, "b": d}), json!([d, {"b": d}])]);
        }
    }
    out
}
fn of_document(d: &serde_json::Value) -> R {
    use serde_json::Value as J;
    match d {
        J::Null => R::Null,
        J::Bool(b) => R::B(*b),
        J::Number(x) => x.as_i64().map_or_else(|| R::D(x.as_f64().unwrap()), R::I),
        J::String(s) => R::T(s.clone()),
        J::Array(l) => R::V(l.iter().map(of_document).collect()),
        J::Object(_) => R::T(d.to_string()),
    }
}
fn members(ctx: &Ctx, n: &AtomicU64, doc: &serde_json::Value) {
    let one: Vec<MapAccessKey> = vec![MapAccessKey::String("a".into()), MapAccessKey::String("b".into()), MapAccessKey::String("".into()), MapAccessKey::Number(0), MapAccessKey::Number(1), MapAccessKey::Number(-1), MapAccessKey::Number(i64::MAX)];
    for len in 1..=3 {
        for w in 0..(one.len() as u64).pow(len) {
            let keys: Vec<MapAccessKey> = word(w, one.len(), len as usize).into_iter().map(|i| one[i].clone()).collect();
            let mut at = Some(doc);
            let mut inside_text = false;
            for k in &keys {
                at = at.and_then(|d| match k {
                    MapAccessKey::String(s) => d.as_object().and_then(|o| o.get(s)),
                    MapAccessKey::Number(i) => d.as_array().and_then(|l| usize::try_from(*i).ok().and_then(|i| l.get(i))),
                });
                // what is a text may itself be read as a document
                inside_text |= at.map_or(false, |d| d.is_string());
            }
            if inside_text && at.is_none() {
                continue;
            }
            let want = at.map_or(R::Error, of_document);
            check(ctx, n, &format!("{keys:?}"), &[A::T(doc.to_string())], &|e: Vec<Ex>| Arc::new(Expression::MapAccess(MapAccessExpression::new(e[0].clone(), keys.clone(), result(TypeId::VarChar)))), &[want]);
        }
    }
}
fn scalars(ctx: &Ctx, n: &AtomicU64, args: &[A]) {
    let want: Vec<R> = args.iter().map(value).collect();
    if !args.is_empty() {
        check(ctx, n, "ARRAY", args, &|e: Vec<Ex>| Arc::new(Expression::Array(ArrayExpression::new(e, result(TypeId::Vector)))), &[R::V(want.clone())]);
        let fields: Vec<StructField> = args.iter().enumerate().map(|(i, a)| StructField::new(format!("f{i}"), column("f", a.t()))).collect();
        check(ctx, n, "STRUCT", args, &|e: Vec<Ex>| Arc::new(Expression::Struct(StructExpression::new(e, fields.clone(), result(TypeId::Struct)))), &[R::V(want.clone())]);
    }
    // the rows of a subquery
    let rows = [A::V(args.to_vec())];
    let one = match want.as_slice() {
        [one] => one.clone(),
        _ => R::Error,
    };
    let subquery = |e: &Ex, kind: SubqueryType, t: TypeId| -> Ex { Arc::new(Expression::Subquery(SubqueryExpression::new(e.clone(), kind, result(t)))) };
    check(ctx, n, "scalar subquery", &rows, &|e: Vec<Ex>| subquery(&e[0], SubqueryType::Scalar, TypeId::Integer), &[one]);
    check(ctx, n, "subquery for IN", &rows, &|e: Vec<Ex>| subquery(&e[0], SubqueryType::InList, TypeId::Vector), &[R::V(want.clone())]);
    check(ctx, n, "quantified subquery", &rows, &|e: Vec<Ex>| subquery(&e[0], SubqueryType::Quantified, TypeId::Vector), &[R::V(want.clone())]);
    if let [a] = args {
        let null = want[0] == R::Null;
        check(ctx, n, "scalar subquery of a value", args, &|e: Vec<Ex>| subquery(&e[0], SubqueryType::Scalar, TypeId::Integer), &[want[0].clone()]);
        check(ctx, n, "EXISTS subquery", args, &|e: Vec<Ex>| subquery(&e[0], SubqueryType::Exists, TypeId::Boolean), &[R::B(!null)]);
        for not in [false, true] {
            check(ctx, n, if not { "NOT EXISTS" } else { "EXISTS" }, args, &|e: Vec<Ex>| Arc::new(Expression::Exists(ExistsExpression::new(e[0].clone(), not, boolean()))), &[R::B(null == not)]);
        }
        for t in [TypeId::TinyInt, TypeId::SmallInt, TypeId::Integer, TypeId::BigInt, TypeId::Decimal, TypeId::VarChar, TypeId::Boolean] {
            let plain = guard(|| a.value().cast_to(t).map_err(|e| e.to_string())).and_then(|r| r);
            for tries in [false, true] {
                let want = match &plain {
                    Ok(v) => crate::c31::of(Ok(v.clone())),
                    Err(_) if tries => Ok(R::Null),
                    Err(_) => Ok(R::Error),
                };
                if let Ok(w) = want {
                    check(ctx, n, &format!("{}CONVERT to {t:?}", if tries { "TRY_" } else { "" }), args, &|e: Vec<Ex>| Arc::new(Expression::Convert(ConvertExpression::new(e[0].clone(), Some(t), None, tries, vec![], result(t)))), &[w]);
                }
            }
        }
        for (set, known) in [("utf8", true), ("UTF8MB4", true), ("latin1", false)] {
            check(ctx, n, "CONVERT USING", args, &|e: Vec<Ex>| Arc::new(Expression::Convert(ConvertExpression::new(e[0].clone(), None, Some(set.into()), false, vec![], result(TypeId::VarChar)))), &[if known { want[0].clone() } else { R::Error }]);
        }
    }
}
/// WHERE and HAVING keep what is true.
fn filters(ctx: &Ctx, n: &AtomicU64, a: &A, b: &A) {
    for op in &OPS {
        let args = [a.clone(), A::V(vec![b.clone()])];
        let want = [R::B(holds(op, a, b) == Some(true))];
        let compare = |e: &[Ex]| -> Ex { Arc::new(Expression::Any(AnyExpression::new(e[0].clone(), e[1].clone(), op.clone(), false))) };
        check(ctx, n, &format!("WHERE {op}"), &args, &|e: Vec<Ex>| Arc::new(Expression::Filter(FilterExpression::new_where(compare(&e), boolean()))), &want);
    }
}
fn literals(ctx: &Ctx, n: &AtomicU64) {
    let mut numbers: Vec<i128> = (-130..=130).collect();
    for bits in [7, 8, 15, 16, 31, 32, 53, 63, 64] {
        for d in -2..=2i128 {
            numbers.extend([(1i128 << bits) + d, -(1i128 << bits) + d]);
        }
    }
    let literal = |v: sqlparser::ast::Value, want: R, name: String| match LiteralValueExpression::new(v) {
        Ok(e) => check(ctx, n, &name, &[], &|_| Arc::new(Expression::Literal(e.clone())), &[want]),
        Err(_) if want == R::Error => {
            n.fetch_add(1, Relaxed);
        },
        Err(e) => {
            ctx.violation(&format!("literal {name} is refused: {e}"), json!({"literal": name, "what": e}));
        },
    };
    use sqlparser::ast::Value as V;
    for i in numbers {
        literal(V::Number(i.to_string(), false), i64::try_from(i).map_or(R::Error, R::I), format!("literal {i}"));
        for frac in ["0", "5", "25", "125"] {
            let t = format!("{i}.{frac}");
            let d: f64 = t.parse().unwrap();
            literal(V::Number(t.clone(), false), R::D(d), format!("literal {t}"));
        }
    }
    for s in ["", "a", "'", "é€", " a ", "NULL"] {
        literal(V::SingleQuotedString(s.into()), R::T(s.into()), format!("literal '{s}'"));
        literal(V::DoubleQuotedString(s.into()), R::T(s.into()), format!("literal \"{s}\""));
    }
    for b in [false, true] {
        literal(V::Boolean(b), R::B(b), format!("literal {b}"));
    }
    literal(V::Null, R::Null, "literal NULL".into());
}

pub fn run(ctx: &'static Ctx) {
    let total = AtomicU64::new(0);
    let give_up = || ctx.n_violations() > 20;
    let part = |name: &str, n: AtomicU64| {
        let c = n.load(Relaxed);
        ctx.part(json!({"part": name, "evaluations": c}));
        total.fetch_add(c, Relaxed);
    };
    let i = |t: TypeId, l: &[i64]| -> Vec<A> { std::iter::once(A::Null(t)).chain(l.iter().map(|i| A::I(t, *i))).collect() };
    let text: Vec<A> = std::iter::once(A::Null(TypeId::VarChar)).chain(["", "a", "ab", "é"].map(|s| A::T(s.into()))).collect();
    let decimals: Vec<A> = std::iter::once(A::Null(TypeId::Decimal)).chain([-1.5, 0.0, 0.5].map(A::D)).collect();
    let (tiny, big) = (i(TypeId::TinyInt, &[-1, 0, 1]), i(TypeId::BigInt, &[i64::MIN, 0, i64::MAX]));
    let ints = i(TypeId::Integer, &[-1, 0, 1]);

    let n = AtomicU64::new(0);
    let mut cases: Vec<(A, Vec<A>)> = vec![];
    for domain in [&ints, &text, &decimals, &tiny, &big] {
        for l in lists(domain, ctx.pick(3, 4)) {
            cases.extend(domain.iter().map(|a| (a.clone(), l.clone())));
        }
    }
    // integers of different types, and values not in the list
    for l in lists(&[A::I(TypeId::TinyInt, 1), A::I(TypeId::SmallInt, -1), A::I(TypeId::BigInt, 1 << 40), A::Null(TypeId::Integer)], 3) {
        cases.extend([-1i64, 0, 1].map(|v| (A::I(TypeId::Integer, v), l.clone())));
        cases.push((A::I(TypeId::BigInt, 1 << 40), l.clone()));
    }
    par(cases.len(), |k| {
        if !give_up() {
            quantified(ctx, &n, &cases[k].0, &cases[k].1);
        }
    });
    part("quantified comparisons and membership", n);

    let n = AtomicU64::new(0);
    let domain = [A::I(TypeId::Integer, 10), A::I(TypeId::Integer, 20), A::Null(TypeId::Integer), A::T("x".into())];
    let mut all_lists = lists(&domain, ctx.pick(2, 3));
    all_lists.extend((3..=ctx.pick(5, 8)).map(|len| (0..len).map(|i| A::I(TypeId::Integer, 10 * i as i64)).collect()));
    let indices = index_values(ctx.pick(6, 9));
    let mut bounds: Vec<A> = (-7..=7).map(|i| A::I(TypeId::Integer, i)).collect();
    bounds.extend([A::I(TypeId::TinyInt, -2), A::I(TypeId::SmallInt, 2), A::I(TypeId::BigInt, 1), A::I(TypeId::TinyInt, i8::MIN as i64), A::I(TypeId::Integer, i32::MIN as i64), A::I(TypeId::Integer, i32::MAX as i64), A::I(TypeId::BigInt, 1 << 32), A::I(TypeId::BigInt, (1 << 32) + 1), A::I(TypeId::BigInt, -(1 << 32) + 1), A::I(TypeId::BigInt, i64::MIN), A::I(TypeId::BigInt, i64::MAX)]);
    par(all_lists.len(), |k| {
        if !give_up() {
            subscripts(ctx, &n, &all_lists[k], &indices, &bounds);
        }
    });
    part("subscripts, ranges and methods", n);

    let n = AtomicU64::new(0);
    let docs = documents(2);
    par(docs.len(), |k| {
        if !give_up() {
            members(ctx, &n, &docs[k]);
        }
    });
    for s in ["", "{", "nul", "[1,", "{\"a\":}"] {
        check(ctx, &n, "[0] of no document", &[A::T(s.into())], &|e: Vec<Ex>| Arc::new(Expression::MapAccess(MapAccessExpression::new(e[0].clone(), vec![MapAccessKey::Number(0)], result(TypeId::VarChar)))), &[R::Error]);
    }
    for l in lists(&domain, 3) {
        for k in [-1i64, 0, 1, 2, 3, i64::MIN, i64::MAX] {
            let want = usize::try_from(k).ok().and_then(|k| l.get(k)).map_or(R::Error, value);
            check(ctx, &n, &format!("member {k}"), &[A::V(l.clone())], &|e: Vec<Ex>| Arc::new(Expression::MapAccess(MapAccessExpression::new(e[0].clone(), vec![MapAccessKey::Number(k)], result(TypeId::VarChar)))), &[want]);
        }
    }
    part("members of documents", n);

    let n = AtomicU64::new(0);
    let mut values: Vec<A> = [ints.clone(), text.clone(), decimals.clone(), big].concat();
    values.extend([A::S(0), A::S(1 << 40), A::T("12".into()), A::T("-1.5".into()), A::T("true".into()), A::I(TypeId::Integer, 300)]);
    let rows = lists(&values, 2);
    par(rows.len(), |k| {
        if !give_up() {
            scalars(ctx, &n, &rows[k]);
        }
    });
    for d in [&ints, &text, &decimals] {
        for a in d {
            for b in d {
                filters(ctx, &n, a, b);
            }
        }
    }
    literals(ctx, &n);
    // values of every type go through unchanged
    for v in universe(true) {
        let k: Ex = Arc::new(Expression::Constant(ConstantExpression::new(v.v.clone(), column("k", v.v.get_type_id()), vec![])));
        let list: Ex = Arc::new(Expression::Array(ArrayExpression::new(vec![k.clone(), k.clone()], result(TypeId::Vector))));
        let at: Ex = Arc::new(Expression::Constant(ConstantExpression::new(A::I(TypeId::Integer, -1).value(), column("i", TypeId::Integer), vec![])));
        let subquery = |e: &Ex| -> Ex { Arc::new(Expression::Subquery(SubqueryExpression::new(e.clone(), SubqueryType::Scalar, result(TypeId::Integer)))) };
        let row: Ex = Arc::new(Expression::Array(ArrayExpression::new(vec![k.clone()], result(TypeId::Vector))));
        let whole = Schema::new(vec![column("k", v.v.get_type_id())]);
        let t = Tuple::new(&[v.v.clone()], &whole, RID::new(0, 0));
        let mut forms = vec![("[-1]", Arc::new(Expression::Subscript(SubscriptExpression::new(list, Subscript::Single(at), result(TypeId::Integer))))), ("scalar subquery of one row", subquery(&row))];
        if !matches!(v.v.get_val(), Val::Vector(_) | Val::Array(_) | Val::Struct) {
            forms.push(("scalar subquery", subquery(&k)));
        }
        for (name, e) in forms {
            n.fetch_add(2, Relaxed);
            let one = guard(|| e.evaluate(&t, &whole).map_err(|e| e.to_string())).and_then(|r| r);
            let two = guard(|| e.evaluate_join(&t, &whole, &t, &whole).map_err(|e| e.to_string())).and_then(|r| r);
            for got in [one, two] {
                let got = got.map_or_else(|e| e, |v| image(&v));
                if got != image(&v.v) {
                    let m = format!("{name} of {:?} gives {got}", v.v);
                    ctx.violation(&m, json!({"what": m}));
                }
            }
        }
    }
    part("arrays, subqueries, conversions, filters, literals", n);

    let t = total.load(Relaxed);
    ctx.add(t, t, t);
    ctx.validated(t);
}
