//! C31: text and rounding functions. Every argument up to a length and around every boundary, with NULLs, as
//! constants, as columns, and as columns of either side of a join, against definitions on lists of characters,
//! exact decimals and the civil calendar.
use crate::common::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::ceil_floor_expression::{CeilFloorExpression, CeilFloorOperation};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::datetime_expression::DateTimeField;
use ferrite::sql::execution::expressions::function_expression::FunctionExpression;
use ferrite::sql::execution::expressions::overlay_expression::OverlayExpression;
use ferrite::sql::execution::expressions::position_expression::PositionExpression;
use ferrite::sql::execution::expressions::regex_expression::{RegexExpression, RegexOperator};
use ferrite::sql::execution::expressions::string_expression::{StringExpression, StringExpressionType};
use ferrite::sql::execution::expressions::substring_expression::SubstringExpression;
use ferrite::sql::execution::expressions::trim_expression::{TrimExpression, TrimType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

pub(crate) type Ex = Arc<Expression>;
/// An argument: text, an integer of some type, a decimal, a time stamp, NULL of a type, or a vector.
#[derive(Clone, Debug, PartialEq)]
pub(crate) enum A {
    T(String),
    I(TypeId, i64),
    D(f64),
    S(u64),
    Null(TypeId),
    V(Vec<A>),
}
impl A {
    pub(crate) fn t(&self) -> TypeId {
        match self {
            A::T(_) => TypeId::VarChar,
            A::I(t, _) | A::Null(t) => *t,
            A::D(_) => TypeId::Decimal,
            A::S(_) => TypeId::Timestamp,
            A::V(_) => TypeId::Vector,
        }
    }
    pub(crate) fn value(&self) -> Value {
        let v = match self {
            A::T(s) => Val::VarLen(s.clone()),
            A::I(TypeId::TinyInt, i) => Val::TinyInt(*i as i8),
            A::I(TypeId::SmallInt, i) => Val::SmallInt(*i as i16),
            A::I(TypeId::Integer, i) => Val::Integer(*i as i32),
            A::I(_, i) => Val::BigInt(*i),
            A::D(d) => Val::Decimal(*d),
            A::S(s) => Val::Timestamp(*s),
            A::Null(_) => Val::Null,
            A::V(l) => Val::Vector(l.iter().map(A::value).collect()),
        };
        Value::new_with_type(v, self.t())
    }
    fn text(&self) -> Vec<char> {
        match self {
            A::T(s) => s.chars().collect(),
            _ => vec![],
        }
    }
    fn int(&self) -> i64 {
        match self {
            A::I(_, i) => *i,
            _ => 0,
        }
    }
}
pub(crate) fn int(i: i64) -> A {
    A::I(if i32::try_from(i).is_ok() { TypeId::Integer } else { TypeId::BigInt }, i)
}
/// What an expression may give: an error, or a value.
#[derive(Clone, Debug, PartialEq)]
pub(crate) enum R {
    Error,
    Null,
    T(String),
    I(i64),
    D(f64),
    S(u64),
    B(bool),
    V(Vec<R>),
}
pub(crate) fn of(r: Result<Value, String>) -> Result<R, String> {
    Ok(match r {
        Err(e) if e.starts_with("panic") => return Err(e),
        Err(_) => R::Error,
        Ok(v) if v.is_null() => R::Null,
        Ok(v) => match v.get_val() {
            Val::VarLen(s) | Val::ConstLen(s) => R::T(s.clone()),
            Val::TinyInt(i) => R::I(*i as i64),
            Val::SmallInt(i) => R::I(*i as i64),
            Val::Integer(i) => R::I(*i as i64),
            Val::BigInt(i) => R::I(*i),
            Val::Decimal(d) => R::D(*d),
            Val::Timestamp(s) => R::S(*s),
            Val::Boolean(b) => R::B(*b),
            Val::Vector(l) => R::V(l.iter().map(|v| of(Ok(v.clone()))).collect::<Result<_, _>>()?),
            _ if !v.get_struct_field_names().is_empty() => {
                let f = v.get_struct_field_names();
                R::T(f.iter().map(|f| format!("{f} {}", v.get_struct_field(f).unwrap())).collect::<Vec<_>>().join(", "))
            },
            _ => return Err(format!("unexpected {v:?}")),
        },
    })
}
pub(crate) fn constant(a: &A) -> Ex {
    Arc::new(Expression::Constant(ConstantExpression::new(a.value(), column("k", a.t()), vec![])))
}
pub(crate) fn column(name: &str, t: TypeId) -> Column {
    if t == TypeId::VarChar {
        Column::new_varlen(name, t, 64)
    } else {
        Column::new(name, t)
    }
}
/// Evaluates `make(arguments)` with the arguments as constants, as columns, and as columns of either side of a join
/// for every distribution over the sides; all must give one of `want`.
pub(crate) fn check(ctx: &Ctx, n: &AtomicU64, name: &str, args: &[A], make: &dyn Fn(Vec<Ex>) -> Ex, want: &[R]) {
    let mut forms: Vec<(String, Result<Value, String>)> = vec![];
    let run = |f: &mut dyn FnMut() -> Result<Value, String>| guard(|| f()).map_err(|e| format!("panic {e}")).and_then(|r| r);
    let vals: Vec<Value> = args.iter().map(|a| a.value()).collect();
    let whole = Schema::new(args.iter().enumerate().map(|(i, a)| column(&format!("c{i}"), a.t())).collect());
    let t = Tuple::new(&vals, &whole, RID::new(0, 0));
    forms.push(("constants".into(), run(&mut || make(args.iter().map(constant).collect()).evaluate(&t, &whole).map_err(|e| e.to_string()))));
    let by_col = |side: &dyn Fn(usize) -> (usize, usize)| -> Vec<Ex> {
        args.iter()
            .enumerate()
            .map(|(i, a)| {
                let (s, c) = side(i);
                Arc::new(Expression::ColumnRef(ColumnRefExpression::new(s, c, column(&format!("c{i}"), a.t()), vec![]))) as Ex
            })
            .collect()
    };
    forms.push(("columns".into(), run(&mut || make(by_col(&|i| (0, i))).evaluate(&t, &whole).map_err(|e| e.to_string()))));
    for split in 0..=args.len() {
        // the last ones on the left and the first on the right: indices are absolute on the right
        let (l, r) = args.split_at(split);
        let sch = |a: &[A], from: usize| Schema::new(a.iter().enumerate().map(|(i, a)| column(&format!("c{}", from + i), a.t())).collect());
        let (ls, rs) = (sch(l, 0), sch(r, split));
        let (lt, rt) = (Tuple::new(&vals[..split], &ls, RID::new(0, 0)), Tuple::new(&vals[split..], &rs, RID::new(0, 1)));
        forms.push((
            format!("columns of a join split before {split}"),
            run(&mut || {
                let e = make(by_col(&|i| if i < split { (0, i) } else { (1, i) }));
                let e = e.clone_with_children(e.get_children().clone());
                e.evaluate_join(&lt, &ls, &rt, &rs).map_err(|e| e.to_string())
            }),
        ));
    }
    n.fetch_add(forms.len() as u64, Relaxed);
    for (form, got) in forms {
        let r = of(got.clone());
        if !matches!(&r, Ok(r) if want.contains(r)) {
            let m = format!("{name} of {args:?} as {form} gives {r:?}, expected {want:?}");
            ctx.violation(&m, json!({"function": name, "arguments": format!("{args:?}"), "form": form, "what": m}));
            return;
        }
    }
}
fn texts(alphabet: &[char], n: usize) -> Vec<A> {
    let mut out = vec![];
    for len in 0..=n {
        for w in 0..(alphabet.len() as u64).pow(len as u32) {
            out.push(A::T(word(w, alphabet.len(), len).into_iter().map(|i| alphabet[i]).collect()));
        }
    }
    out
}
fn substring(a: &[A]) -> Vec<R> {
    if a.iter().any(|a| matches!(a, A::Null(_))) {
        return vec![R::Null];
    }
    let s = a[0].text();
    let (from, n) = (a[1].int(), s.len() as i64);
    let start = if from > 0 { from - 1 } else if from < 0 { n.saturating_add(from).max(0) } else { 0 }.min(n);
    let len = a.get(2).map_or(i64::MAX, |a| a.int().max(0)).min(n - start);
    vec![R::T(s[start as usize..(start + len) as usize].iter().collect())]
}
fn overlay(a: &[A]) -> Vec<R> {
    let bad = |i: usize, least: i64| matches!(a.get(i), Some(A::I(_, v)) if *v < least);
    let wrong = bad(2, 1) || bad(3, 0);
    if a.iter().any(|a| matches!(a, A::Null(_))) {
        return if wrong { vec![R::Null, R::Error] } else { vec![R::Null] };
    }
    if wrong {
        return vec![R::Error];
    }
    let (s, w) = (a[0].text(), a[1].text());
    let start = (a[2].int() - 1).min(s.len() as i64) as usize;
    let len = a.get(3).map_or(w.len() as i64, |a| a.int());
    let end = (start as i64).saturating_add(len).min(s.len() as i64) as usize;
    vec![R::T(s[..start].iter().chain(&w).chain(&s[end..]).collect())]
}
fn position(a: &[A]) -> Vec<R> {
    if a.iter().any(|a| matches!(a, A::Null(_))) {
        return vec![R::Null];
    }
    let (w, s) = (a[0].text(), a[1].text());
    vec![R::I((0..=s.len()).find(|i| s[*i..].starts_with(&w)).map_or(0, |i| i as i64 + 1))]
}
fn trim(kind: usize, a: &[A]) -> Vec<R> {
    if a.iter().any(|a| matches!(a, A::Null(_))) {
        return vec![R::Null];
    }
    let mut s = a[0].text();
    let set = a.get(1).map_or(vec![' ', '\t', '\n', '\r'], |a| a.text());
    while kind != 1 && s.last().is_some_and(|c| set.contains(c)) {
        s.pop();
    }
    while kind != 2 && s.first().is_some_and(|c| set.contains(c)) {
        s.remove(0);
    }
    vec![R::T(s.into_iter().collect())]
}
fn similar(s: &[char], p: &[char], esc: char) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| similar(&s[i..], &p[1..], esc)),
        Some('_') => !s.is_empty() && similar(&s[1..], &p[1..], esc),
        Some(c) if *c == esc => s.first() == p.get(1) && !s.is_empty() && similar(&s[1..], &p[2..], esc),
        Some(c) => s.first() == Some(c) && similar(&s[1..], &p[1..], esc),
    }
}
/// `k` / 10^`digits`, as the nearest number.
fn decimal(k: i64, digits: u32) -> f64 {
    format!("{k}e-{digits}").parse().unwrap()
}
fn days(y: i64) -> i64 {
    // days from 1970-01-01 to the first of January of year y
    let z = y - 1;
    365 * (y - 1970) + (z / 4 - z / 100 + z / 400) - (1969 / 4 - 1969 / 100 + 1969 / 400)
}
pub(crate) const MONTHS: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
/// The moments a month (or a year) begins.
fn begins(by_year: bool) -> Vec<u64> {
    let mut out = vec![];
    for y in 1970..2200 {
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let mut d = days(y);
        for (m, n) in MONTHS.iter().enumerate() {
            if m == 0 || !by_year {
                out.push(d as u64 * 86400);
            }
            d += n + (m == 1 && leap) as i64;
        }
    }
    out
}
pub fn run(ctx: &Ctx) {
    let total = AtomicU64::new(0);
    let part = |name: &str, n: &AtomicU64| {
        let c = n.load(Relaxed);
        ctx.part(json!({"part": name, "evaluations": c}));
        total.fetch_add(c, Relaxed);
    };
    let null = |t| A::Null(t);
    let text = |n: usize| {
        let mut t = texts(&['a', 'b', 'é', '✓'], n);
        t.push(null(TypeId::VarChar));
        t
    };
    let mut ints: Vec<A> = (-7..8).map(int).collect();
    ints.extend([i32::MIN as i64, i32::MAX as i64, i64::MIN, i64::MAX, 1 << 32, (1 << 32) + 1, -(1 << 32)].map(int));
    ints.extend([TypeId::TinyInt, TypeId::SmallInt, TypeId::BigInt].iter().flat_map(|t| [-2, 1, 2].map(|i| A::I(*t, i))));
    ints.push(null(TypeId::Integer));
    let give_up = || ctx.n_violations() > 30;

    let n = AtomicU64::new(0);
    let ts = text(ctx.pick(4, 5));
    par(ts.len(), |i| {
        for f in &ints {
            for l in std::iter::once(None).chain(ints.iter().map(Some)) {
                if give_up() {
                    return;
                }
                let mut a = vec![ts[i].clone(), f.clone()];
                a.extend(l.cloned());
                check(ctx, &n, "SUBSTRING", &a, &|c| Arc::new(Expression::Substring(SubstringExpression::new(c[0].clone(), c[1].clone(), c.get(2).cloned()))), &substring(&a));
            }
        }
    });
    part("SUBSTRING", &n);

    let n = AtomicU64::new(0);
    let (base, what) = (text(ctx.pick(3, 4)), text(ctx.pick(1, 2)));
    par(base.len(), |i| {
        for w in &what {
            for f in &ints {
                for l in std::iter::once(None).chain(ints.iter().map(Some)) {
                    if give_up() {
                        return;
                    }
                    let mut a = vec![base[i].clone(), w.clone(), f.clone()];
                    a.extend(l.cloned());
                    check(
                        ctx,
                        &n,
                        "OVERLAY",
                        &a,
                        &|c| Arc::new(Expression::Overlay(OverlayExpression::new(c[0].clone(), c[1].clone(), c[2].clone(), c.get(3).cloned(), column("r", TypeId::VarChar)))),
                        &overlay(&a),
                    );
                }
            }
        }
    });
    part("OVERLAY", &n);

    let n = AtomicU64::new(0);
    let (base, what) = (text(ctx.pick(5, 6)), text(2));
    par(base.len(), |i| {
        for w in &what {
            if give_up() {
                return;
            }
            let a = vec![w.clone(), base[i].clone()];
            check(ctx, &n, "POSITION", &a, &|c| Arc::new(Expression::Position(PositionExpression::new(c[0].clone(), c[1].clone()))), &position(&a));
        }
    });
    part("POSITION", &n);

    let n = AtomicU64::new(0);
    let mut base = texts(&['a', ' ', '\n', 'é'], ctx.pick(5, 6));
    base.push(null(TypeId::VarChar));
    let mut sets = texts(&['a', ' ', 'é'], 2);
    sets.push(null(TypeId::VarChar));
    par(base.len(), |i| {
        for kind in 0..3 {
            for set in std::iter::once(None).chain(sets.iter().map(Some)) {
                if give_up() {
                    return;
                }
                let mut a = vec![base[i].clone()];
                a.extend(set.cloned());
                let k = || [TrimType::Both, TrimType::Leading, TrimType::Trailing][kind].clone();
                check(ctx, &n, &format!("TRIM {:?}", k()), &a, &|c| Arc::new(Expression::Trim(TrimExpression::new(k(), c, column("r", TypeId::VarChar)))), &trim(kind, &a));
            }
        }
    });
    part("TRIM", &n);

    let n = AtomicU64::new(0);
    let mut base = texts(&['a', 'Z', 'é', 'ß', '1'], ctx.pick(3, 5));
    base.push(null(TypeId::VarChar));
    par(base.len(), |i| {
        for up in [false, true] {
            if give_up() {
                return;
            }
            let a = vec![base[i].clone()];
            let want = match &a[0] {
                A::T(s) => R::T(s.chars().flat_map(|c| if up { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect() }).collect()),
                _ => R::Null,
            };
            let name = if up { "UPPER" } else { "LOWER" };
            let kind = if up { StringExpressionType::Upper } else { StringExpressionType::Lower };
            check(ctx, &n, name, &a, &|c| Arc::new(Expression::String(StringExpression::new(c[0].clone(), kind, c))), &[want.clone()]);
            check(ctx, &n, &format!("function {name}"), &a, &|c| Arc::new(Expression::Function(FunctionExpression::new(name.into(), c, column("r", TypeId::VarChar)))), &[want]);
        }
    });
    part("UPPER and LOWER", &n);

    let n = AtomicU64::new(0);
    let mut base = texts(&['a', 'b', '%', '\n', 'é'], ctx.pick(3, 4));
    base.push(null(TypeId::VarChar));
    let mut pats = texts(&['a', '%', '_', '.', '\\', 'é'], ctx.pick(3, 4));
    // an escape character at the end of a pattern escapes nothing
    pats.retain(|p| {
        let t = p.text();
        let mut i = 0;
        while i < t.len() {
            i += if t[i] == '\\' { 2 } else { 1 };
        }
        i == t.len()
    });
    pats.push(null(TypeId::VarChar));
    par(base.len(), |i| {
        for p in &pats {
            for negated in [false, true] {
                if give_up() {
                    return;
                }
                let a = vec![base[i].clone(), p.clone()];
                let want = if a.iter().any(|a| matches!(a, A::Null(_))) { R::Null } else { R::B(similar(&a[0].text(), &a[1].text(), '\\') != negated) };
                let op = || if negated { RegexOperator::NotSimilarTo } else { RegexOperator::SimilarTo };
                let make = |c: Vec<Ex>| Arc::new(Expression::Regex(RegexExpression::new(c[0].clone(), c[1].clone(), op(), None, column("r", TypeId::Boolean))));
                check(ctx, &n, "SIMILAR TO", &a, &make, &[want]);
            }
        }
    });
    // regular expressions: literals, with and without regard to case
    let (base, pats) = (texts(&['a', 'A', 'b'], 3), texts(&['a', 'A', 'b'], 2));
    par(base.len() + 1, |i| {
        let a0 = base.get(i).cloned().unwrap_or(null(TypeId::VarChar));
        for p in pats.iter().cloned().chain([null(TypeId::VarChar)]) {
            for o in 0..6 {
                if give_up() {
                    return;
                }
                let op = || [RegexOperator::Match, RegexOperator::NotMatch, RegexOperator::IMatch, RegexOperator::NotIMatch, RegexOperator::RLike, RegexOperator::NotRLike][o].clone();
                let a = vec![a0.clone(), p.clone()];
                let want = match (&a[0], &a[1]) {
                    (A::T(s), A::T(p)) => R::B(if o < 2 { s.contains(p.as_str()) } else { s.to_lowercase().contains(&p.to_lowercase()) } != (o % 2 == 1)),
                    _ => R::Null,
                };
                let make = |c: Vec<Ex>| Arc::new(Expression::Regex(RegexExpression::new(c[0].clone(), c[1].clone(), op(), None, column("r", TypeId::Boolean))));
                check(ctx, &n, &format!("{:?}", op()), &a, &make, &[want]);
            }
        }
    });
    part("patterns", &n);

    let n = AtomicU64::new(0);
    let ops = || [CeilFloorOperation::Ceil, CeilFloorOperation::Floor];
    let most = ctx.pick(1200, 30000);
    par(2 * most as usize + 1, |i| {
        let k = i as i64 - most;
        for digits in 0..4u32 {
            for scale in [None, Some(-2), Some(-1), Some(0), Some(1), Some(2), Some(3), Some(5), Some(15)] {
                for op in ops() {
                    if give_up() {
                        return;
                    }
                    let s = scale.unwrap_or(0);
                    let up = op == CeilFloorOperation::Ceil;
                    // k / 10^digits to s digits
                    let want = if s >= digits as i64 {
                        decimal(k, digits)
                    } else {
                        let unit = 10i64.pow(digits - s as u32 * (s > 0) as u32 + if s < 0 { -s as u32 } else { 0 });
                        let q = k.div_euclid(unit) + (up && k.rem_euclid(unit) != 0) as i64;
                        if s >= 0 { decimal(q, s as u32) } else { (q * 10i64.pow(-s as u32)) as f64 }
                    };
                    let mut a = vec![A::D(decimal(k, digits))];
                    a.extend(scale.map(int));
                    let make = |c: Vec<Ex>| Arc::new(Expression::CeilFloor(CeilFloorExpression::new(op.clone(), c[0].clone(), c.get(1).cloned(), None).unwrap()));
                    check(ctx, &n, &format!("{op:?}"), &a, &make, &[R::D(want)]);
                }
            }
        }
    });
    for op in ops() {
        let make = |c: Vec<Ex>| Arc::new(Expression::CeilFloor(CeilFloorExpression::new(op.clone(), c[0].clone(), c.get(1).cloned(), None).unwrap()));
        for i in &ints {
            check(ctx, &n, &format!("{op:?}"), &[i.clone()], &make, &[if let A::I(_, v) = i { R::I(*v) } else { R::Null }]);
        }
        for a in [vec![null(TypeId::Decimal)], vec![A::D(1.5), null(TypeId::Integer)], vec![null(TypeId::Decimal), int(1)]] {
            check(ctx, &n, &format!("{op:?}"), &a, &make, &[R::Null]);
        }
    }
    part("CEIL and FLOOR of numbers", &n);

    let n = AtomicU64::new(0);
    let all = begins(false);
    let fields: Vec<(DateTimeField, Vec<u64>)> = vec![(DateTimeField::Month, begins(false)), (DateTimeField::Year, begins(true))];
    par(all.len() - 24, |i| {
        for t in [all[i].saturating_sub(1), all[i], all[i] + 1, all[i] + 59, all[i] + 60, all[i] + 3599, all[i] + 3600, all[i] + 3661, all[i] + 86399, all[i] + 86400, all[i] + 86401, all[i] + 2_000_000] {
            for op in ops() {
                let up = op == CeilFloorOperation::Ceil;
                let one = |field: &DateTimeField, want: u64| {
                    if give_up() {
                        return;
                    }
                    let make = |c: Vec<Ex>| Arc::new(Expression::CeilFloor(CeilFloorExpression::new(op.clone(), c[0].clone(), None, Some(field.clone())).unwrap()));
                    check(ctx, &n, &format!("{op:?} to {field:?}"), &[A::S(t)], &make, &[R::S(want)]);
                };
                for (f, unit) in [(DateTimeField::Second, 1), (DateTimeField::Minute, 60), (DateTimeField::Hour, 3600), (DateTimeField::Day, 86400)] {
                    one(&f, if up { t.div_ceil(unit) * unit } else { t / unit * unit });
                }
                for (f, b) in &fields {
                    let at = b.partition_point(|x| *x <= t) - 1;
                    one(f, if up && b[at] != t { b[at + 1] } else { b[at] });
                }
            }
        }
    });
    part("CEIL and FLOOR of time stamps", &n);
    let c = total.load(Relaxed);
    ctx.add(c, c, c);
    ctx.validated(c);
}
