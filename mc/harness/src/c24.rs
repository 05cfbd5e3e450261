//! C24: what SQL expressions evaluate to. All expression trees up to a depth over columns and boundary
//! constants are evaluated on all rows of boundary values, alone and split over the two sides of a join
//! (there through a clone), against an evaluator written from the SQL rules.
use crate::c22::{boolean, int, is_int, is_number, null, num_cmp, range, real, show, text, D, V};
use crate::common::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::between_expression::BetweenExpression;
use ferrite::sql::execution::expressions::binary_op_expression::BinaryOpExpression;
use ferrite::sql::execution::expressions::case_expression::CaseExpression;
use ferrite::sql::execution::expressions::cast_expression::CastExpression;
use ferrite::sql::execution::expressions::coalesce_expression::CoalesceExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::is_check_expression::{IsCheckExpression, IsCheckType};
use ferrite::sql::execution::expressions::is_distinct_expression::IsDistinctExpression;
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::expressions::unary_op_expression::UnaryOpExpression;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use serde_json::json;
use sqlparser::ast::{BinaryOperator, UnaryOperator};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

#[derive(Clone)]
pub enum E {
    K(V),
    C(usize),
    Arith(char, X, X),
    Cmp(&'static str, X, X),
    And(X, X),
    Or(X, X),
    Not(X),
    /// IS [NOT] TRUE / FALSE / UNKNOWN / NULL
    Is(u8, bool, X),
    Between(bool, X, X, X),
    In(bool, X, Vec<V>),
    Case(Option<X>, Vec<(X, X)>, Option<X>),
    Coalesce(Vec<X>),
    Like(bool, bool, Option<char>, X, X),
    Neg(X),
    Bang(X),
    Distinct(bool, X, X),
    Cast(X, TypeId),
    Bin(&'static str, X, X),
}
pub type X = Arc<E>;
fn k(v: V) -> X {
    Arc::new(E::K(v))
}
fn c(i: usize) -> X {
    Arc::new(E::C(i))
}
fn x(e: E) -> X {
    Arc::new(e)
}
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let not = |n: &bool| if *n { "NOT " } else { "" };
        match self {
            E::K(v) => write!(f, "[{}]", show(v)),
            E::C(i) => write!(f, "c{i}"),
            E::Arith(o, a, b) => write!(f, "({a} {o} {b})"),
            E::Cmp(o, a, b) | E::Bin(o, a, b) => write!(f, "({a} {o} {b})"),
            E::And(a, b) => write!(f, "({a} AND {b})"),
            E::Or(a, b) => write!(f, "({a} OR {b})"),
            E::Not(a) | E::Bang(a) => write!(f, "(NOT {a})"),
            E::Is(w, n, a) => write!(f, "({a} IS {}{})", not(n), ["TRUE", "FALSE", "UNKNOWN", "NULL"][*w as usize]),
            E::Between(n, a, b, c) => write!(f, "({a} {}BETWEEN {b} AND {c})", not(n)),
            E::In(n, a, l) => write!(f, "({a} {}IN [{}])", not(n), l.iter().map(show).collect::<Vec<_>>().join(", ")),
            E::Case(b, w, e) => {
                write!(f, "(CASE")?;
                b.iter().try_for_each(|b| write!(f, " {b}"))?;
                w.iter().try_for_each(|(c, t)| write!(f, " WHEN {c} THEN {t}"))?;
                e.iter().try_for_each(|e| write!(f, " ELSE {e}"))?;
                write!(f, " END)")
            },
            E::Coalesce(l) => write!(f, "COALESCE({})", l.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")),
            E::Like(n, ci, esc, a, b) => write!(f, "({a} {}{}LIKE {b} ESCAPE {esc:?})", not(n), if *ci { "I" } else { "" }),
            E::Neg(a) => write!(f, "(-{a})"),
            E::Distinct(n, a, b) => write!(f, "({a} IS {}DISTINCT FROM {b})", not(n)),
            E::Cast(a, t) => write!(f, "CAST({a} AS {t:?})"),
        }
    }
}
/// The columns of the row: two booleans, five kinds of number, two of text.
pub const COLS: [TypeId; 9] = [TypeId::Boolean, TypeId::Boolean, TypeId::TinyInt, TypeId::Integer, TypeId::BigInt, TypeId::Decimal, TypeId::Float, TypeId::VarChar, TypeId::Char];
fn domain(col: usize, rich: bool) -> Vec<V> {
    use TypeId::*;
    let t = COLS[col];
    let mut d = vec![null(t)];
    match t {
        Boolean => d.extend([boolean(true), boolean(false)]),
        TinyInt => d.extend([-128, 0, 1, 127].map(|i| int(t, i))),
        Integer => d.extend([-2147483648, -1, 0, 1, 2147483647].map(|i| int(t, i))),
        BigInt => d.extend([i64::MIN, -1, 0, 1, 2147483648].map(|i| int(t, i))),
        Decimal => d.extend([-2.5, 0.0, 1.0, 1.5, 2147483648.0].map(|i| real(t, i))),
        Float => d.extend([-0.5, 0.0, 1.0, 16777216.0].map(|i| real(t, i))),
        _ => d.extend(["", "a", "ab", "B", "é"].map(|i| text(t, i))),
    }
    if rich && is_int(t) {
        d.extend([2, 3, 7, -7].map(|i| int(t, i)));
    }
    d
}
fn column(t: TypeId) -> Column {
    match t {
        TypeId::VarChar | TypeId::Char => Column::new_varlen("c", t, 20),
        _ => Column::new("c", t),
    }
}
fn schema(cols: &[TypeId]) -> Schema {
    Schema::new(cols.iter().map(|&t| column(t)).collect())
}
fn constant(v: &V) -> Arc<Expression> {
    Arc::new(Expression::Constant(ConstantExpression::new(v.v.clone(), column(v.t), vec![])))
}
/// The expression of the code; columns from `split` on belong to the right side of a join.
fn build(e: &E, split: usize) -> Arc<Expression> {
    let b = |e: &X| build(e, split);
    let boolean = || Column::new("b", TypeId::Boolean);
    Arc::new(match e {
        E::K(v) => return constant(v),
        E::C(i) => Expression::ColumnRef(ColumnRefExpression::new((*i >= split) as usize, *i, column(COLS[*i]), vec![])),
        E::Arith(o, l, r) => {
            let op = match o {
                '+' => ArithmeticOp::Add,
                '-' => ArithmeticOp::Subtract,
                '*' => ArithmeticOp::Multiply,
                _ => ArithmeticOp::Divide,
            };
            Expression::Arithmetic(ArithmeticExpression::new(op, vec![b(l), b(r)]))
        },
        E::Cmp(o, l, r) => {
            let op = match *o {
                "=" => ComparisonType::Equal,
                "<>" => ComparisonType::NotEqual,
                "<" => ComparisonType::LessThan,
                "<=" => ComparisonType::LessThanOrEqual,
                ">" => ComparisonType::GreaterThan,
                _ => ComparisonType::GreaterThanOrEqual,
            };
            let (l, r) = (b(l), b(r));
            Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), op, vec![l, r]))
        },
        E::And(l, r) | E::Or(l, r) => {
            let t = if matches!(e, E::And(..)) { LogicType::And } else { LogicType::Or };
            let (l, r) = (b(l), b(r));
            Expression::Logic(LogicExpression::new(l.clone(), r.clone(), t, vec![l, r]))
        },
        E::Not(a) => Expression::Logic(LogicExpression::new_not(b(a))),
        E::Is(w, negated, a) => {
            let negated = *negated;
            let t = match w {
                0 => IsCheckType::True { negated },
                1 => IsCheckType::False { negated },
                2 => IsCheckType::Unknown { negated },
                _ => IsCheckType::Null { negated },
            };
            Expression::IsCheck(IsCheckExpression::new(b(a), t, boolean()))
        },
        E::Between(n, v, lo, hi) => Expression::Between(BetweenExpression::new(b(v), b(lo), b(hi), *n, boolean())),
        E::In(n, v, l) => {
            let list = ConstantExpression::new_vector(l.iter().map(|v| v.v.clone()).collect(), vec![]);
            Expression::In(InExpression::new_list(b(v), Arc::new(Expression::Constant(list)), *n, boolean()))
        },
        E::Case(base, w, other) => Expression::Case(
            CaseExpression::new(base.as_ref().map(b), w.iter().map(|(c, _)| b(c)).collect(), w.iter().map(|(_, t)| b(t)).collect(), other.as_ref().map(b)).expect("CASE"),
        ),
        E::Coalesce(l) => {
            let l: Vec<_> = l.iter().map(b).collect();
            let t = l[0].get_return_type().clone();
            Expression::Coalesce(CoalesceExpression::new(l, t))
        },
        E::Like(n, ci, esc, v, p) => Expression::Like(LikeExpression::new(b(v), b(p), *esc, *n, !*ci, boolean())),
        E::Neg(a) => Expression::UnaryOp(UnaryOpExpression::new(b(a), UnaryOperator::Minus).expect("minus")),
        E::Bang(a) => Expression::UnaryOp(UnaryOpExpression::new(b(a), UnaryOperator::Not).expect("not")),
        E::Distinct(n, l, r) => Expression::IsDistinct(IsDistinctExpression::new(b(l), b(r), *n, boolean())),
        E::Cast(a, t) => Expression::Cast(CastExpression::new(b(a), *t)),
        E::Bin(o, l, r) => {
            let op = match *o {
                "+" => BinaryOperator::Plus,
                "-" => BinaryOperator::Minus,
                "*" => BinaryOperator::Multiply,
                "/" => BinaryOperator::Divide,
                "%" => BinaryOperator::Modulo,
                "=" => BinaryOperator::Eq,
                "<" => BinaryOperator::Lt,
                ">=" => BinaryOperator::GtEq,
                _ => BinaryOperator::StringConcat,
            };
            let (l, r) = (b(l), b(r));
            Expression::BinaryOp(BinaryOpExpression::new(l.clone(), r.clone(), op, vec![l, r]).expect("binary"))
        },
    })
}

/// What an expression should give: a value, an error, or anything (the property says nothing).
#[derive(Clone, Debug, PartialEq)]
enum R {
    Val(TypeId, D),
    Null,
    Err,
    Any,
}
use R::*;
fn truth(b: Option<bool>) -> R {
    b.map_or(Null, |b| Val(TypeId::Boolean, D::Bool(b)))
}
/// The comparison of two results; Err(result) where there is none.
fn compare(a: &R, b: &R) -> Result<Ordering, R> {
    match (a, b) {
        (Err, _) | (_, Err) => Result::Err(Err),
        (Any, _) | (_, Any) => Result::Err(Any),
        (Null, _) | (_, Null) => Result::Err(Null),
        (Val(ta, da), Val(tb, db)) => {
            if is_number(*ta) && is_number(*tb) {
                return num_cmp(da, db).ok_or(Any);
            }
            match (da, db) {
                (D::Bool(x), D::Bool(y)) => Ok(x.cmp(y)),
                (D::Text(x), D::Text(y)) if ta == tb => Ok(x.cmp(y)),
                _ => Result::Err(Any),
            }
        },
    }
}
fn wider(a: TypeId, b: TypeId) -> TypeId {
    use TypeId::*;
    let rank = |t| [TinyInt, SmallInt, Integer, BigInt, Float, Decimal].iter().position(|&x| x == t).unwrap();
    if rank(a) >= rank(b) { a } else { b }
}
fn number(d: &D) -> f64 {
    match d {
        D::Int(i) => *i as f64,
        D::Real(f) => *f,
        _ => unreachable!(),
    }
}
fn single(d: &D) -> f32 {
    match d {
        D::Int(i) => *i as f32,
        D::Real(f) => *f as f32,
        _ => unreachable!(),
    }
}
fn arith(op: char, a: R, b: R) -> R {
    let ((ta, da), (tb, db)) = match (a, b) {
        (Any, _) | (_, Any) => return Any,
        (Val(ta, da), Val(tb, db)) if is_number(ta) && is_number(tb) => ((ta, da), (tb, db)),
        _ => return Err,
    };
    let t = wider(ta, tb);
    if let (D::Int(p), D::Int(q)) = (&da, &db) {
        let r = match op {
            '+' => Some(p + q),
            '-' => Some(p - q),
            '*' => p.checked_mul(*q),
            '/' => p.checked_div(*q),
            _ => p.checked_rem(*q),
        };
        return r.filter(|r| *r >= range(t).0 && *r <= range(t).1).map_or(Err, |r| Val(t, D::Int(r)));
    }
    let r = if t == TypeId::Float {
        let (p, q) = (single(&da), single(&db));
        (match op {
            '+' => p + q,
            '-' => p - q,
            '*' => p * q,
            _ if q == 0.0 => return Err,
            _ => p / q,
        }) as f64
    } else {
        let (p, q) = (number(&da), number(&db));
        match op {
            '+' => p + q,
            '-' => p - q,
            '*' => p * q,
            _ if q == 0.0 => return Err,
            _ => p / q,
        }
    };
    Val(t, D::Real(r))
}
fn bit(r: &R) -> Result<Option<bool>, R> {
    match r {
        Val(_, D::Bool(b)) => Ok(Some(*b)),
        Null => Ok(None),
        Err => Result::Err(Err),
        _ => Result::Err(Any),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Tok {
    One,
    Many,
    Lit(char),
}
fn like(ci: bool, esc: Option<char>, s: &str, p: &str) -> Option<bool> {
    let mut t = Vec::new();
    let mut it = p.chars();
    while let Some(ch) = it.next() {
        t.push(match ch {
            ch if Some(ch) == esc => Tok::Lit(it.next()?),
            '%' => Tok::Many,
            '_' => Tok::One,
            ch => Tok::Lit(ch),
        });
    }
    let s: Vec<char> = s.chars().collect();
    // reach[i]: the pattern so far can match the first i characters
    let mut reach = vec![false; s.len() + 1];
    reach[0] = true;
    for k in t {
        let mut next = vec![false; s.len() + 1];
        match k {
            Tok::Many => {
                let mut on = false;
                for i in 0..=s.len() {
                    on |= reach[i];
                    next[i] = on;
                }
            },
            _ => {
                for i in 0..s.len() {
                    let ok = match k {
                        Tok::Lit(l) => s[i] == l || ci && s[i].to_ascii_lowercase() == l.to_ascii_lowercase(),
                        _ => true,
                    };
                    next[i + 1] = reach[i] && ok;
                }
            },
        }
        reach = next;
    }
    Some(reach[s.len()])
}
fn eval(e: &E, row: &[V]) -> R {
    let ev = |e: &X| eval(e, row);
    let of = |v: &V| if v.d == D::Null { Null } else { Val(v.t, v.d.clone()) };
    let test = |o: &str, c: Ordering| match o {
        "=" => c.is_eq(),
        "<>" => c.is_ne(),
        "<" => c.is_lt(),
        "<=" => c.is_le(),
        ">" => c.is_gt(),
        _ => c.is_ge(),
    };
    match e {
        E::K(v) => of(v),
        E::C(i) => of(&row[*i]),
        E::Arith(o, a, b) => arith(*o, ev(a), ev(b)),
        E::Cmp(o, a, b) => match compare(&ev(a), &ev(b)) {
            Ok(c) => truth(Some(test(o, c))),
            Result::Err(r) => r,
        },
        E::And(a, b) | E::Or(a, b) => {
            let dominant = matches!(e, E::Or(..));
            let (l, r) = (bit(&ev(a)), bit(&ev(b)));
            match (l, r) {
                (Ok(l), Ok(r)) if l == Some(dominant) || r == Some(dominant) => truth(Some(dominant)),
                (Ok(l), Ok(r)) => truth(l.and(r).map(|_| !dominant)),
                // an error on one side may or may not be noticed if the other decides
                (Ok(Some(d)), _) | (_, Ok(Some(d))) if d == dominant => Any,
                (Result::Err(Err), Result::Err(Err) | Ok(_)) | (Ok(_), Result::Err(Err)) => Err,
                _ => Any,
            }
        },
        E::Not(a) | E::Bang(a) => match bit(&ev(a)) {
            Ok(b) => truth(b.map(|b| !b)),
            Result::Err(r) => r,
        },
        E::Is(w, n, a) => {
            let r = ev(a);
            match (w, &r) {
                (_, Err | Any) => r,
                (3, _) => truth(Some((r == Null) != *n)),
                _ => match bit(&r) {
                    Ok(b) => truth(Some(
                        (match w {
                            0 => b == Some(true),
                            1 => b == Some(false),
                            _ => b.is_none(),
                        }) != *n,
                    )),
                    Result::Err(_) => Any,
                },
            }
        },
        E::Between(n, v, lo, hi) => {
            let (v, lo, hi) = (ev(v), ev(lo), ev(hi));
            if [&v, &lo, &hi].contains(&&Err) {
                return Err;
            }
            let (l, h) = (compare(&v, &lo), compare(&v, &hi));
            if matches!(l, Result::Err(Any)) || matches!(h, Result::Err(Any)) {
                return Any;
            }
            let (l, h) = (l.ok().map(|c| c.is_ge()), h.ok().map(|c| c.is_le()));
            let b = match (l, h) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            };
            truth(b.map(|b| b != *n))
        },
        E::In(n, v, l) => {
            let v = ev(v);
            let (mut found, mut unknown) = (false, false);
            for y in l {
                match compare(&v, &of(y)) {
                    Ok(c) => found |= c.is_eq(),
                    Result::Err(Null) => unknown = true,
                    Result::Err(r) => return r,
                }
            }
            truth(if found { Some(!n) } else if unknown { None } else { Some(*n) })
        },
        E::Case(base, w, other) => {
            let base = base.as_ref().map(ev);
            if matches!(base, Some(Err | Any)) {
                return base.unwrap();
            }
            for (cond, then) in w {
                let cv = ev(cond);
                let holds = match &base {
                    Some(b) => match compare(b, &cv) {
                        Ok(c) => c.is_eq(),
                        Result::Err(Null) => false,
                        Result::Err(r) => return r,
                    },
                    None => match bit(&cv) {
                        Ok(b) => b == Some(true),
                        Result::Err(r) => return r,
                    },
                };
                if holds {
                    return ev(then);
                }
            }
            other.as_ref().map_or(Null, ev)
        },
        E::Coalesce(l) => l.iter().map(ev).find(|r| *r != Null).unwrap_or(Null),
        E::Like(n, ci, esc, v, p) => match (ev(v), ev(p)) {
            (Err, _) | (_, Err) => Err,
            (Null, Val(_, D::Text(_)) | Null) | (Val(_, D::Text(_)), Null) => Null,
            (Val(_, D::Text(s)), Val(_, D::Text(p))) => like(*ci, *esc, &s, &p).map_or(Any, |b| truth(Some(b != *n))),
            _ => Any,
        },
        E::Neg(a) => match ev(a) {
            Val(t, D::Int(i)) if is_int(t) => {
                if -i > range(t).1 {
                    Err
                } else {
                    Val(t, D::Int(-i))
                }
            },
            Val(t, D::Real(f)) => Val(t, D::Real(-f)),
            Val(..) => Err,
            r => r,
        },
        E::Distinct(n, a, b) => {
            let (a, b) = (ev(a), ev(b));
            match (&a, &b) {
                (Err, _) | (_, Err) => Err,
                (Any, _) | (_, Any) => Any,
                (Null, Null) => truth(Some(*n)),
                (Null, _) | (_, Null) => truth(Some(!n)),
                _ => match compare(&a, &b) {
                    Ok(c) => truth(Some(c.is_ne() != *n)),
                    Result::Err(r) => r,
                },
            }
        },
        E::Cast(a, to) => {
            use TypeId::*;
            match ev(a) {
                Val(t, d) if t == *to => Val(t, d),
                Val(VarChar, d) if *to == Char => Val(Char, d),
                Val(Char, d) if *to == VarChar => Val(VarChar, d),
                Val(Integer | BigInt, D::Int(i)) if matches!(to, Integer | BigInt) => {
                    if i >= range(*to).0 && i <= range(*to).1 {
                        Val(*to, D::Int(i))
                    } else {
                        Err
                    }
                },
                Val(Integer | BigInt, D::Int(i)) if *to == Decimal => Val(Decimal, D::Real(i as f64)),
                Val(Decimal, D::Real(f)) if matches!(to, Integer | BigInt) => {
                    let f = f.round();
                    if f >= -(2f64.powi(if *to == Integer { 31 } else { 63 })) && f < 2f64.powi(if *to == Integer { 31 } else { 63 }) {
                        Val(*to, D::Int(f as i128))
                    } else {
                        Err
                    }
                },
                Val(..) => Any,
                r => r,
            }
        },
        E::Bin(o, a, b) => {
            let (a, b) = (ev(a), ev(b));
            match *o {
                "=" | "<" | ">=" => match compare(&a, &b) {
                    Ok(c) => truth(Some(test(o, c))),
                    Result::Err(r) => r,
                },
                "||" => match (a, b) {
                    (Val(TypeId::VarChar, D::Text(a)), Val(TypeId::VarChar, D::Text(b))) => Val(TypeId::VarChar, D::Text(a + &b)),
                    (Err, _) | (_, Err) => Err,
                    _ => Any,
                },
                _ => match (&a, &b) {
                    (Err, _) | (_, Err) => Err,
                    (Val(s, _), Val(t, _)) if s == t && (*o != "%" || *s == TypeId::Integer) => match arith(o.chars().next().unwrap(), a, b) {
                        // a remainder by zero is NULL
                        Err if *o == "%" => Any,
                        r => r,
                    },
                    _ => Any,
                },
            }
        },
    }
}
fn used(e: &E, m: &mut [bool; 9]) {
    match e {
        E::K(_) => {},
        E::C(i) => m[*i] = true,
        E::Arith(_, a, b) | E::Cmp(_, a, b) | E::Bin(_, a, b) | E::And(a, b) | E::Or(a, b) | E::Distinct(_, a, b) | E::Like(_, _, _, a, b) => {
            used(a, m);
            used(b, m);
        },
        E::Not(a) | E::Bang(a) | E::Is(_, _, a) | E::In(_, a, _) | E::Neg(a) | E::Cast(a, _) => used(a, m),
        E::Between(_, a, b, c) => [a, b, c].iter().for_each(|e| used(e, m)),
        E::Case(a, w, o) => {
            a.iter().chain(o).for_each(|e| used(e, m));
            w.iter().for_each(|(a, b)| {
                used(a, m);
                used(b, m);
            });
        },
        E::Coalesce(l) => l.iter().for_each(|e| used(e, m)),
    }
}
fn matches(want: &R, got: &Result<Value, String>) -> bool {
    let same = |a: &D, b: &D| a == b || matches!((a, b), (D::Real(x), D::Real(y)) if x.is_nan() && y.is_nan());
    match (want, got) {
        (_, Result::Err(m)) if m.starts_with("panic") => false,
        (Any, _) => true,
        (Err, g) => g.is_err(),
        (Null, Ok(v)) => v.is_null(),
        (Val(t, d), Ok(v)) => !v.is_null() && v.get_type_id() == *t && same(d, &crate::c22::denotes(v)),
        (_, Result::Err(_)) => false,
    }
}
struct Count {
    exprs: AtomicU64,
    rows: AtomicU64,
}
fn check(ctx: &Ctx, n: &Count, e: &E, rich: bool) {
    let mut cols = [false; 9];
    used(e, &mut cols);
    let doms: Vec<Vec<V>> = (0..9).map(|i| if cols[i] { domain(i, rich) } else { vec![null(COLS[i])] }).collect();
    let total: usize = doms.iter().map(|d| d.len()).product();
    let full = schema(&COLS);
    // where the join splits the row: in the middle of the columns used
    let us: Vec<usize> = (0..9).filter(|&i| cols[i]).collect();
    let split = us.get(us.len() / 2).copied().unwrap_or(4);
    let (ls, rs) = (schema(&COLS[..split]), schema(&COLS[split..]));
    let made = guard(|| {
        let one = build(e, 9);
        let two = build(e, split);
        let kids = two.get_children().clone();
        (one, two.clone_with_children(kids))
    });
    let (one, two) = match made {
        Ok(m) => m,
        Result::Err(m) => return ctx.violation(&format!("{e}: {m}"), json!({"expression": e.to_string(), "what": m})),
    };
    n.exprs.fetch_add(1, Relaxed);
    n.rows.fetch_add(total as u64, Relaxed);
    for mut w in 0..total {
        let row: Vec<V> = doms
            .iter()
            .map(|d| {
                let v = d[w % d.len()].clone();
                w /= d.len();
                v
            })
            .collect();
        let want = eval(e, &row);
        let vals: Vec<Value> = row.iter().map(|v| v.v.clone()).collect();
        let t = Tuple::new(&vals, &full, RID::new(0, 0));
        let got = guard(|| one.evaluate(&t, &full).map_err(|e| e.to_string())).and_then(|r| r);
        let describe = |g: &Result<Value, String>| match g {
            Ok(v) => format!("{:?} {:?}", v.get_type_id(), crate::c22::denotes(v)),
            Result::Err(m) => format!("error {m}"),
        };
        let at = || us.iter().map(|&i| format!("c{i}={}", show(&row[i]))).collect::<Vec<_>>().join(" ");
        if !matches(&want, &got) {
            let m = format!("{e} at {} gives {}, expected {want:?}", at(), describe(&got));
            ctx.violation(&m, json!({"expression": e.to_string(), "row": at(), "what": m}));
            return;
        }
        let (l, r) = (Tuple::new(&vals[..split], &ls, RID::new(0, 0)), Tuple::new(&vals[split..], &rs, RID::new(0, 1)));
        let got2 = guard(|| two.evaluate_join(&l, &ls, &r, &rs).map_err(|e| e.to_string())).and_then(|r| r);
        if !matches(&want, &got2) || got.is_ok() != got2.is_ok() {
            let m = format!("{e} at {} split before c{split} in a join gives {}, expected {want:?} (as without a join: {})", at(), describe(&got2), describe(&got));
            ctx.violation(&m, json!({"expression": e.to_string(), "row": at(), "split": split, "what": m}));
            return;
        }
    }
}
fn part(ctx: &Ctx, name: &str, rich: bool, n: usize, make: &(dyn Fn(usize) -> Vec<E> + Sync)) {
    let t = std::time::Instant::now();
    let c = Count { exprs: AtomicU64::new(0), rows: AtomicU64::new(0) };
    par(n, |i| {
        for e in make(i) {
            if ctx.n_violations() < 30 {
                check(ctx, &c, &e, rich);
            }
        }
    });
    let (e, r) = (c.exprs.load(Relaxed), c.rows.load(Relaxed));
    ctx.add(e, r * 2, r * 2);
    ctx.validated(r);
    ctx.part(json!({"part": name, "expressions": e, "evaluations": r * 2, "wall_s": t.elapsed().as_secs_f64()}));
}
const CMPS: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];
pub fn run(ctx: &Ctx) {
    use TypeId::*;
    let rich = ctx.thorough;
    let mut n0: Vec<X> = vec![c(2), c(3), c(4), c(5), c(6)];
    n0.extend([null(Integer), int(Integer, 0), int(Integer, -1), int(Integer, 2), int(BigInt, 2147483648), real(Decimal, 1.5), int(TinyInt, 127), int(SmallInt, -32768), real(Float, 0.5)].map(k));
    let n = n0.len();
    // numbers one operation deep
    let mut n1: Vec<X> = n0.clone();
    for a in &n0 {
        for b in &n0 {
            for o in ['+', '-', '*', '/'] {
                n1.push(x(E::Arith(o, a.clone(), b.clone())));
            }
        }
        n1.push(x(E::Neg(a.clone())));
        for t in [Integer, BigInt, Decimal] {
            n1.push(x(E::Cast(a.clone(), t)));
        }
    }
    part(ctx, "arithmetic over all pairs of numbers one operation deep and leaves", rich, n1.len(), &|i| {
        let mut v = Vec::new();
        for b in &n0 {
            for o in ['+', '-', '*', '/'] {
                v.push(E::Arith(o, n1[i].clone(), b.clone()));
                v.push(E::Arith(o, b.clone(), n1[i].clone()));
            }
        }
        v.push(E::Neg(n1[i].clone()));
        for t in [Integer, BigInt, Decimal] {
            v.push(E::Cast(n1[i].clone(), t));
        }
        v
    });
    part(ctx, "comparisons of numbers one operation deep with leaves", rich, n1.len(), &|i| {
        let mut v = Vec::new();
        for b in &n0 {
            for o in CMPS {
                v.push(E::Cmp(o, n1[i].clone(), b.clone()));
                v.push(E::Cmp(o, b.clone(), n1[i].clone()));
            }
            for neg in [false, true] {
                v.push(E::Distinct(neg, n1[i].clone(), b.clone()));
            }
        }
        for w in 2..4 {
            v.push(E::Is(w, w == 2, n1[i].clone()));
        }
        v
    });
    part(ctx, "BETWEEN and COALESCE over all triples of numbers, CASE with a base", rich, n * n, &|i| {
        let (a, b) = (&n0[i / n], &n0[i % n]);
        let mut v = Vec::new();
        for d in &n0 {
            for neg in [false, true] {
                v.push(E::Between(neg, a.clone(), b.clone(), d.clone()));
            }
            v.push(E::Coalesce(vec![a.clone(), b.clone(), d.clone()]));
            for other in [None, Some(c(7))] {
                v.push(E::Case(Some(a.clone()), vec![(b.clone(), k(text(VarChar, "x"))), (d.clone(), k(text(VarChar, "y")))], other));
            }
        }
        v
    });
    // lists of constants
    let ks: Vec<V> = vec![null(Integer), int(Integer, 0), int(Integer, -1), int(Integer, 1), int(TinyInt, 127), int(BigInt, 1), int(BigInt, 2147483648), real(Decimal, 1.5), real(Decimal, 1.0), real(Float, 1.0)];
    part(ctx, "IN over all lists of up to 3 numbers", rich, ks.len() * ks.len(), &|i| {
        let (p, q) = (&ks[i / ks.len()], &ks[i % ks.len()]);
        let mut v = Vec::new();
        for a in &n0 {
            for neg in [false, true] {
                v.push(E::In(neg, a.clone(), vec![p.clone()]));
                v.push(E::In(neg, a.clone(), vec![p.clone(), q.clone()]));
                for r in &ks {
                    v.push(E::In(neg, a.clone(), vec![p.clone(), q.clone(), r.clone()]));
                }
            }
        }
        v
    });
    // truth values
    let l0: Vec<X> = vec![c(0), c(1), k(boolean(true)), k(boolean(false)), k(null(Boolean)), x(E::Cmp("<", c(3), k(int(Integer, 1)))), x(E::Cmp("=", x(E::Arith('/', k(int(Integer, 1)), c(2))), k(int(Integer, 1))))];
    let up = |l: &[X]| -> Vec<X> {
        let mut v: Vec<X> = l.to_vec();
        for a in l {
            v.push(x(E::Not(a.clone())));
            v.push(x(E::Bang(a.clone())));
            for w in 0..4 {
                for neg in [false, true] {
                    v.push(x(E::Is(w, neg, a.clone())));
                }
            }
            for b in l {
                v.push(x(E::And(a.clone(), b.clone())));
                v.push(x(E::Or(a.clone(), b.clone())));
            }
        }
        v
    };
    let l1 = up(&l0);
    part(ctx, "AND, OR, NOT and IS over truth values one operation deep", false, l1.len(), &|i| {
        let mut v = vec![E::Not(l1[i].clone()), E::Bang(l1[i].clone())];
        for w in 0..4 {
            for neg in [false, true] {
                v.push(E::Is(w, neg, l1[i].clone()));
            }
        }
        for b in &l1 {
            v.push(E::And(l1[i].clone(), b.clone()));
            v.push(E::Or(l1[i].clone(), b.clone()));
            v.push(E::Cmp("=", l1[i].clone(), b.clone()));
        }
        v
    });
    part(ctx, "CASE with two conditions", false, l0.len() * l0.len(), &|i| {
        let (a, b) = (&l0[i / l0.len()], &l0[i % l0.len()]);
        let thens = [k(int(Integer, 7)), c(3), k(null(Integer)), x(E::Arith('+', c(3), k(int(Integer, 1))))];
        let mut v = Vec::new();
        for t in &thens {
            for u in &thens {
                for o in [None, Some(c(3)), Some(k(int(Integer, 9)))] {
                    v.push(E::Case(None, vec![(a.clone(), t.clone()), (b.clone(), u.clone())], o));
                }
            }
        }
        v
    });
    // text
    let t0: Vec<X> = vec![c(7), k(text(VarChar, "a")), k(text(VarChar, "")), k(text(VarChar, "é")), k(null(VarChar)), x(E::Cast(c(8), VarChar)), x(E::Bin("||", c(7), k(text(VarChar, "a"))))];
    part(ctx, "text: comparisons, IN, BETWEEN, COALESCE, CASE, concatenation", false, t0.len() * t0.len(), &|i| {
        let (a, b) = (&t0[i / t0.len()], &t0[i % t0.len()]);
        let mut v: Vec<E> = CMPS.iter().map(|o| E::Cmp(o, a.clone(), b.clone())).collect();
        v.push(E::Bin("||", a.clone(), b.clone()));
        v.push(E::Cmp("<", c(8), k(text(Char, "ab"))));
        v.push(E::Cast(c(8), VarChar));
        v.push(E::Cast(a.clone(), Char));
        for neg in [false, true] {
            v.push(E::Distinct(neg, a.clone(), b.clone()));
            v.push(E::In(neg, a.clone(), vec![text(VarChar, "a"), text(VarChar, "é"), null(VarChar)]));
            v.push(E::In(neg, a.clone(), vec![text(VarChar, "a"), text(VarChar, "")]));
            for d in &t0 {
                v.push(E::Between(neg, a.clone(), b.clone(), d.clone()));
            }
        }
        for d in &t0 {
            v.push(E::Coalesce(vec![a.clone(), b.clone(), d.clone()]));
            v.push(E::Case(Some(a.clone()), vec![(b.clone(), c(3)), (d.clone(), k(int(Integer, 1)))], None));
        }
        v
    });
    // every pattern against every text
    let words = |sigma: &[&str], len: usize| -> Vec<String> {
        let mut all = vec![String::new()];
        let mut last = all.clone();
        for _ in 0..len {
            last = last.iter().flat_map(|w| sigma.iter().map(move |s| format!("{w}{s}"))).collect();
            all.extend(last.iter().cloned());
        }
        all
    };
    let pats = words(&["a", "%", "_", "\\", "é"], ctx.pick(4, 5));
    let texts = words(&["a", "A", "é", "%"], ctx.pick(3, 4));
    part(ctx, "LIKE: every pattern against every text", false, pats.len(), &|i| {
        let mut v = Vec::new();
        for s in &texts {
            for (neg, ci, esc) in [(false, false, None), (true, true, Some('\\')), (false, false, Some('\\'))] {
                v.push(E::Like(neg, ci, esc, k(text(VarChar, s)), k(text(VarChar, &pats[i]))));
            }
        }
        v.push(E::Like(false, false, None, c(7), k(text(VarChar, &pats[i]))));
        v.push(E::Like(true, true, None, x(E::Cast(c(8), VarChar)), k(text(VarChar, &pats[i]))));
        v.push(E::Like(true, false, None, k(text(VarChar, "a")), k(null(VarChar))));
        v.push(E::Like(false, false, None, k(text(VarChar, &pats[i])), c(7)));
        v
    });
    // the other implementation of binary operators
    let bs: Vec<X> = vec![c(3), k(int(Integer, -1)), k(int(Integer, 0)), k(int(Integer, 2147483647)), k(int(Integer, 7)), c(4), k(int(BigInt, i64::MAX)), c(5), k(real(Decimal, 2.5)), k(null(Integer))];
    part(ctx, "binary operators", rich, bs.len() * bs.len(), &|i| {
        let (a, b) = (&bs[i / bs.len()], &bs[i % bs.len()]);
        ["+", "-", "*", "/", "%", "=", "<", ">="].iter().map(|o| E::Bin(o, a.clone(), b.clone())).collect()
    });
    if ctx.thorough {
        let small: Vec<X> = n1.iter().filter(|e| matches!(&***e, E::Arith(_, a, b) if [a, b].iter().all(|e| matches!(&***e, E::C(3..=5) | E::K(_))))).cloned().collect();
        part(ctx, "arithmetic and comparisons over all pairs of numbers one operation deep", false, small.len(), &|i| {
            let mut v = Vec::new();
            for b in &small {
                for o in ['+', '-', '*', '/'] {
                    v.push(E::Arith(o, small[i].clone(), b.clone()));
                }
                for o in ["=", "<"] {
                    v.push(E::Cmp(o, small[i].clone(), b.clone()));
                }
            }
            v
        });
    }
    let _ = Val::Null;
}
