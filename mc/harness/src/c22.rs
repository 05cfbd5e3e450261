//! C22: what values mean. Every pair (and triple) of a universe of boundary values of every type is
//! compared, ordered, hashed, computed with and cast, against what the values denote.
use crate::common::*;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::{CmpBool, Type};
use ferrite::types_db::value::{Val, Value};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// What a value denotes.
#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Null,
    Int(i128),
    Real(f64),
    Bool(bool),
    Text(String),
    Bytes(Vec<u8>),
    Other(String),
}
#[derive(Clone)]
pub struct V {
    pub v: Value,
    pub t: TypeId,
    pub d: D,
}
pub const TYPES: [TypeId; 20] = [
    TypeId::Boolean,
    TypeId::TinyInt,
    TypeId::SmallInt,
    TypeId::Integer,
    TypeId::BigInt,
    TypeId::Decimal,
    TypeId::Float,
    TypeId::Timestamp,
    TypeId::Date,
    TypeId::Time,
    TypeId::Interval,
    TypeId::VarChar,
    TypeId::Char,
    TypeId::Binary,
    TypeId::JSON,
    TypeId::UUID,
    TypeId::Vector,
    TypeId::Array,
    TypeId::Enum,
    TypeId::Point,
];
pub fn int(t: TypeId, i: i64) -> V {
    let v = match t {
        TypeId::TinyInt => Val::TinyInt(i as i8),
        TypeId::SmallInt => Val::SmallInt(i as i16),
        TypeId::Integer => Val::Integer(i as i32),
        TypeId::BigInt => Val::BigInt(i),
        TypeId::Timestamp => Val::Timestamp(i as u64),
        TypeId::Date => Val::Date(i as i32),
        TypeId::Time => Val::Time(i as i32),
        TypeId::Interval => Val::Interval(i),
        _ => unreachable!(),
    };
    let d = if t == TypeId::Timestamp { i as u64 as i128 } else { i as i128 };
    V { v: Value::new_with_type(v, t), t, d: D::Int(d) }
}
pub fn real(t: TypeId, f: f64) -> V {
    let v = if t == TypeId::Float { Val::Float(f as f32) } else { Val::Decimal(f) };
    let d = if t == TypeId::Float { f as f32 as f64 } else { f };
    V { v: Value::new_with_type(v, t), t, d: D::Real(d) }
}
pub fn text(t: TypeId, s: &str) -> V {
    let v = match t {
        TypeId::VarChar => Val::VarLen(s.into()),
        TypeId::Char => Val::ConstLen(s.into()),
        TypeId::JSON => Val::JSON(s.into()),
        _ => Val::UUID(s.into()),
    };
    V { v: Value::new_with_type(v, t), t, d: D::Text(s.into()) }
}
pub fn null(t: TypeId) -> V {
    V { v: Value::new_with_type(Val::Null, t), t, d: D::Null }
}
pub fn boolean(b: bool) -> V {
    V { v: Value::new(b), t: TypeId::Boolean, d: D::Bool(b) }
}
fn other(t: TypeId, v: Val) -> V {
    let d = D::Other(format!("{v:?}"));
    V { v: Value::new_with_type(v, t), t, d }
}
pub fn universe(more: bool) -> Vec<V> {
    use TypeId::*;
    // every 8-bit integer, the boundaries of the others
    let mut u: Vec<V> = (-128..=127).map(|i| int(TinyInt, i)).collect();
    let ints: &[(TypeId, &[i64])] = &[
        (SmallInt, &[-32768, -32767, -129, -128, -1, 0, 1, 2, 127, 128, 181, 182, 32767]),
        (Integer, &[-2147483648, -2147483647, -32769, -129, -1, 0, 1, 2, 3, 32768, 46340, 46341, 16777216, 16777217, 2147483647]),
        (BigInt, &[i64::MIN, i64::MIN + 1, -9007199254740992, -2147483649, -2147483648, -1, 0, 1, 2, 7, 2147483647, 2147483648, 3037000499, 3037000500, 16777217, 9007199254740992, i64::MAX]),
        (Timestamp, &[0, 1, 5, 2147483647, 2147483648, i64::MAX, -1]),
        (Date, &[-2147483648, -1, 0, 1, 2147483647]),
        (Time, &[-1, 0, 1, 86399]),
        (Interval, &[i64::MIN, -1, 0, 1, 2147483648, i64::MAX]),
    ];
    for (t, l) in ints {
        u.extend(l.iter().map(|&i| int(*t, i)));
    }
    if more {
        for t in [SmallInt, Integer, BigInt] {
            for i in [-100i64, -64, -10, -7, -5, -3, -2, 4, 5, 6, 8, 9, 10, 16, 63, 64, 65, 100] {
                u.push(int(t, i));
            }
        }
    }
    for f in [f64::NEG_INFINITY, -1e300, -2147483649.0, -2147483648.0, -129.0, -2.5, -1.0, -0.5, -0.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 127.0, 127.5, 128.0, 32767.0, 32768.0, 16777216.0, 16777217.0, 2147483647.0, 2147483648.0, 9.2e18, 9223372036854775808.0, 1e300, f64::INFINITY, f64::NAN] {
        u.push(real(Decimal, f));
    }
    for f in [f64::NEG_INFINITY, -1e30, -1.5, -1.0, -0.0, 0.0, 0.5, 1.0, 1.5, 2.0, 128.0, 32768.0, 16777216.0, 16777218.0, 2147483648.0, 1e30, f64::INFINITY, f64::NAN] {
        u.push(real(Float, f));
    }
    for s in ["", " ", "0", "1", "-5", "1.5", "a", "A", "ab", "b", "true", "no", "128", "999999999999", "é", "ß", "\u{1F600}", "NULL", "%"] {
        u.push(text(VarChar, s));
        u.push(text(Char, s));
    }
    u.push(boolean(false));
    u.push(boolean(true));
    for b in [vec![], vec![0], vec![0, 0], vec![1], vec![255]] {
        u.push(V { v: Value::new_with_type(Val::Binary(b.clone()), Binary), t: Binary, d: D::Bytes(b) });
    }
    for s in ["{}", "[1]"] {
        u.push(text(JSON, s));
        u.push(text(UUID, s));
    }
    let one = || Value::new(1);
    for l in [vec![], vec![one()], vec![Value::new(2)], vec![one(), one()], vec![Value::new("a")], vec![Value::new_with_type(Val::Null, Integer)]] {
        u.push(other(Vector, Val::Vector(l.clone())));
        u.push(other(Array, Val::Array(l)));
    }
    u.push(other(Enum, Val::Enum(0, "a".into())));
    u.push(other(Enum, Val::Enum(1, "a".into())));
    u.push(other(Enum, Val::Enum(1, "b".into())));
    u.push(other(Point, Val::Point(0.0, 1.0)));
    u.push(other(Point, Val::Point(1.0, 0.0)));
    for t in TYPES {
        u.push(null(t));
    }
    u
}
pub fn show(v: &V) -> String {
    format!("{:?} {:?}", v.t, v.d)
}
pub fn is_number(t: TypeId) -> bool {
    matches!(t, TypeId::TinyInt | TypeId::SmallInt | TypeId::Integer | TypeId::BigInt | TypeId::Decimal | TypeId::Float)
}
pub fn is_int(t: TypeId) -> bool {
    matches!(t, TypeId::TinyInt | TypeId::SmallInt | TypeId::Integer | TypeId::BigInt)
}
const EXACT: i128 = 1 << 53;
/// The order of two numbers; None where the property says nothing (NaN; an integer beyond 2^53 against
/// a floating point number).
pub fn num_cmp(a: &D, b: &D) -> Option<Ordering> {
    match (a, b) {
        (D::Int(a), D::Int(b)) => Some(a.cmp(b)),
        (D::Real(a), D::Real(b)) => a.partial_cmp(b),
        (D::Int(a), D::Real(b)) => (a.abs() <= EXACT).then(|| (*a as f64).partial_cmp(b)).flatten(),
        (D::Real(a), D::Int(b)) => (b.abs() <= EXACT).then(|| a.partial_cmp(&(*b as f64))).flatten(),
        _ => None,
    }
}
/// How two non-null values compare: Ok(order), Err(Some(equal)) where only equality is defined,
/// Err(None) where nothing is said.
pub fn cmp(a: &V, b: &V) -> Result<Ordering, Option<bool>> {
    if is_number(a.t) && is_number(b.t) {
        return num_cmp(&a.d, &b.d).ok_or(None);
    }
    if a.t != b.t {
        return Err(Some(false));
    }
    match (&a.d, &b.d) {
        (D::Bool(x), D::Bool(y)) => Ok(x.cmp(y)),
        (D::Int(x), D::Int(y)) => Ok(x.cmp(y)),
        (D::Text(x), D::Text(y)) => Ok(x.cmp(y)),
        (D::Bytes(x), D::Bytes(y)) => Ok(x.cmp(y)),
        (x, y) => Err(Some(x == y)),
    }
}
fn bit(c: CmpBool) -> Option<bool> {
    match c {
        CmpBool::CmpTrue => Some(true),
        CmpBool::CmpFalse => Some(false),
        CmpBool::CmpNull => None,
    }
}
fn compares(a: &V, b: &V) -> Result<(), String> {
    let (x, y) = (&a.v, &b.v);
    let got = guard(|| {
        [
            bit(x.compare_equals(y)),
            bit(x.compare_not_equals(y)),
            bit(x.compare_less_than(y)),
            bit(x.compare_less_than_equals(y)),
            bit(x.compare_greater_than(y)),
            bit(x.compare_greater_than_equals(y)),
        ]
    })?;
    let names = ["=", "<>", "<", "<=", ">", ">="];
    let want: Vec<Option<Option<bool>>> = if a.d == D::Null || b.d == D::Null {
        vec![Some(None); 6]
    } else {
        match cmp(a, b) {
            Ok(o) => [o.is_eq(), o.is_ne(), o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()].iter().map(|&x| Some(Some(x))).collect(),
            Err(Some(e)) => vec![Some(Some(e)), Some(Some(!e)), None, None, None, None],
            Err(None) => vec![None; 6],
        }
    };
    for i in 0..6 {
        if let Some(w) = want[i] {
            if w != got[i] {
                return Err(format!("{} {} {} is {:?}, expected {w:?}", show(a), names[i], show(b), got[i]));
            }
        }
    }
    // the least and the greatest of two
    if a.d != D::Null && b.d != D::Null {
        if let Ok(o) = cmp(a, b) {
            let (lo, hi) = guard(|| (x.min(y), x.max(y)))?;
            let want = |less: bool| if o.is_eq() { None } else if o.is_lt() == less { Some(x) } else { Some(y) };
            for (n, g, w) in [("least", lo, want(true)), ("greatest", hi, want(false))] {
                let ok = w.map_or(g == *x || g == *y, |w| g == *w);
                if !ok {
                    return Err(format!("the {n} of {} and {} is {g:?}", show(a), show(b)));
                }
            }
        }
    } else {
        let (lo, hi) = guard(|| (x.min(y), x.max(y)))?;
        if !lo.is_null() || !hi.is_null() {
            return Err(format!("the least or greatest of {} and {} is not NULL", show(a), show(b)));
        }
    }
    Ok(())
}
fn hash(v: &Value) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// The two notions used for sorting, grouping and hashing.
fn orders(a: &V, b: &V) -> Result<(), String> {
    let (x, y) = (&a.v, &b.v);
    let (eq, ord, rev) = guard(|| (x == y, x.partial_cmp(y), y.partial_cmp(x)))?;
    let nan = |v: &V| matches!(v.d, D::Real(f) if f.is_nan());
    let want = if a.d == D::Null || b.d == D::Null {
        a.d == b.d
    } else {
        a.t == b.t && (a.d == b.d || nan(a) && nan(b))
    };
    if eq != want || (y == x) != eq {
        return Err(format!("{} == {} is {eq}, expected {want}", show(a), show(b)));
    }
    if eq && hash(x) != hash(y) {
        return Err(format!("{} and {} are equal but hash differently", show(a), show(b)));
    }
    if nan(a) != nan(b) && a.t == b.t {
        return Ok(());
    }
    if ord != rev.map(Ordering::reverse) || (ord == Some(Ordering::Equal)) != eq || ord.is_none() {
        return Err(format!("{} against {} is ordered {ord:?}, the other way round {rev:?}, equal: {eq}", show(a), show(b)));
    }
    let want = match (&a.d, &b.d) {
        (D::Null, D::Null) => Some(Ordering::Equal),
        (D::Null, _) => Some(Ordering::Less),
        (_, D::Null) => Some(Ordering::Greater),
        _ if a.t == b.t => cmp(a, b).ok(),
        _ => None,
    };
    if want.is_some() && want != ord {
        return Err(format!("{} against {} is ordered {ord:?}, expected {want:?}", show(a), show(b)));
    }
    Ok(())
}
pub fn range(t: TypeId) -> (i128, i128) {
    match t {
        TypeId::TinyInt => (i8::MIN as i128, i8::MAX as i128),
        TypeId::SmallInt => (i16::MIN as i128, i16::MAX as i128),
        TypeId::Integer | TypeId::Date | TypeId::Time => (i32::MIN as i128, i32::MAX as i128),
        TypeId::Timestamp => (0, u64::MAX as i128),
        _ => (i64::MIN as i128, i64::MAX as i128),
    }
}
/// What a value returned by the code denotes.
pub fn denotes(v: &Value) -> D {
    match v.get_val() {
        Val::Null => D::Null,
        Val::Boolean(b) => D::Bool(*b),
        Val::TinyInt(i) => D::Int(*i as i128),
        Val::SmallInt(i) => D::Int(*i as i128),
        Val::Integer(i) | Val::Date(i) | Val::Time(i) => D::Int(*i as i128),
        Val::BigInt(i) | Val::Interval(i) => D::Int(*i as i128),
        Val::Timestamp(i) => D::Int(*i as i128),
        Val::Decimal(f) => D::Real(*f),
        Val::Float(f) => D::Real(*f as f64),
        Val::VarLen(s) | Val::ConstLen(s) | Val::JSON(s) | Val::UUID(s) => D::Text(s.clone()),
        Val::Binary(b) => D::Bytes(b.clone()),
        o => D::Other(format!("{o:?}")),
    }
}
fn same(a: &D, b: &D) -> bool {
    a == b || matches!((a, b), (D::Real(x), D::Real(y)) if x.is_nan() && y.is_nan())
}
fn arith(a: &V, b: &V) -> Result<(), String> {
    let (x, y) = (&a.v, &b.v);
    for op in ['+', '-', '*', '/', '%'] {
        let got: Option<Value> = guard(|| match op {
            '+' => x.add(y).ok(),
            '-' => x.subtract(y).ok(),
            '*' => x.multiply(y).ok(),
            '/' => x.divide(y).ok(),
            _ => Some(x.modulo(y)),
        })
        .map_err(|e| format!("{} {op} {}: {e}", show(a), show(b)))?;
        let got = got.filter(|g| !g.is_null());
        let describe = || got.as_ref().map_or("no value".into(), |g| format!("{:?} {:?}", g.get_type_id(), denotes(g)));
        let bad = |w: String| Err(format!("{} {op} {} is {}, expected {w}", show(a), show(b), describe()));
        // the mathematical result, if there is one
        let result: Option<D> = match (&a.d, &b.d) {
            (D::Int(p), D::Int(q)) => match op {
                '+' => Some(p + q),
                '-' => Some(p - q),
                '*' => p.checked_mul(*q),
                '/' => p.checked_div(*q),
                _ => p.checked_rem(*q),
            }
            .map(D::Int),
            (D::Real(p), D::Real(q)) => {
                let f = |x: f64| Some(D::Real(if a.t == TypeId::Float { x as f32 as f64 } else { x }));
                match op {
                    '+' => f(p + q),
                    '-' => f(p - q),
                    '*' => f(p * q),
                    '/' if *q != 0.0 => f(p / q),
                    _ => None,
                }
            },
            (D::Text(p), D::Text(q)) if op == '+' => Some(D::Text(format!("{p}{q}"))),
            _ => None,
        };
        let Some(g) = &got else {
            // a missing result is right where the result does not fit, and for operations between
            // different types
            let must = a.t == b.t
                && match (&result, a.t) {
                    (Some(D::Int(i)), t) if is_int(t) => *i >= range(t).0 && *i <= range(t).1 && (op != '%' || t == TypeId::Integer),
                    (Some(D::Real(_)), t) => is_number(t),
                    (Some(D::Text(_)), TypeId::VarChar) => true,
                    _ => false,
                };
            if must {
                return bad(format!("{result:?}"));
            }
            continue;
        };
        let t = g.get_type_id();
        match &result {
            None => return bad("no value".into()),
            Some(w @ D::Int(i)) => {
                if !(is_int(t) || t == TypeId::Interval) || denotes(g) != *w || *i < range(t).0 || *i > range(t).1 {
                    return bad(format!("{w:?} or no value"));
                }
                if a.t == b.t && t != a.t {
                    return bad(format!("the type {:?}", a.t));
                }
            },
            Some(w) => {
                if !same(&denotes(g), w) {
                    return bad(format!("{w:?}"));
                }
            },
        }
    }
    Ok(())
}
fn casts(a: &V, to: TypeId) -> Result<(), String> {
    let got = guard(|| a.v.cast_to(to)).map_err(|e| format!("casting {} to {to:?}: {e}", show(a)))?;
    let shown = got.as_ref().map(|g| format!("{:?} {:?}", g.get_type_id(), denotes(g)));
    let bad = |w: &str| Err(format!("casting {} to {to:?} gives {shown:?}, expected {w}", show(a)));
    if let Ok(g) = &got {
        if g.get_type_id() != to {
            return bad("a value of that type");
        }
    }
    if a.d == D::Null {
        return if matches!(&got, Ok(g) if g.is_null()) { Ok(()) } else { bad("NULL") };
    }
    if a.t == to {
        return if matches!(&got, Ok(g) if *g == a.v) { Ok(()) } else { bad("the same value") };
    }
    let d = got.as_ref().ok().map(denotes);
    let fits = |i: i128| i >= range(to).0 && i <= range(to).1;
    match (&a.d, &d) {
        // between integers: the same number or an error, and an error only if it does not fit
        (D::Int(i), Some(D::Int(j))) => {
            if i != j {
                return bad("the same number or an error");
            }
        },
        (D::Int(i), None) if is_int(a.t) && is_int(to) && fits(*i) => return bad("the same number"),
        (D::Int(i), Some(D::Real(f))) => {
            let exact = if to == TypeId::Float { 1 << 24 } else { EXACT };
            if i.abs() <= exact && *f != *i as f64 || i.abs() > exact && (*f - *i as f64).abs() > i.unsigned_abs() as f64 * 1e-7 {
                return bad("the same number");
            }
        },
        (D::Int(_), None) if is_int(a.t) && matches!(to, TypeId::Decimal | TypeId::Float) => return bad("the same number"),
        (D::Real(f), Some(D::Int(j))) => {
            if f.is_nan() || (*j as f64 - f).abs() >= 1.0 {
                return bad("the number without its fraction, or an error");
            }
        },
        (D::Real(f), None) if is_int(to) && f.is_finite() && fits(f.trunc() as i128) && f.abs() < 9e18 => return bad("the number without its fraction"),
        (D::Real(f), Some(D::Real(g))) => {
            let w = if to == TypeId::Float { *f as f32 as f64 } else { *f };
            if !same(&D::Real(w), &D::Real(*g)) {
                return bad("the same number");
            }
        },
        (D::Real(_), None) if matches!(to, TypeId::Decimal | TypeId::Float) => return bad("the same number"),
        (D::Bool(b), Some(D::Int(j))) => {
            if *j != *b as i128 {
                return bad("0 or 1");
            }
        },
        (D::Int(i), Some(D::Bool(b))) => {
            if *b != (*i != 0) {
                return bad("whether it is not zero");
            }
        },
        (D::Int(i), Some(D::Text(s))) if is_int(a.t) => {
            if *s != i.to_string() {
                return bad("its digits");
            }
        },
        (D::Int(_), None) if is_int(a.t) && matches!(to, TypeId::VarChar | TypeId::Char) => return bad("its digits"),
        (D::Text(s), Some(D::Int(j))) if is_int(to) => {
            if s.parse::<i128>() != Ok(*j) {
                return bad("the number it spells");
            }
        },
        (D::Text(s), None) if is_int(to) && a.t == TypeId::VarChar && s.parse::<i128>().is_ok_and(fits) => return bad("the number it spells"),
        (D::Text(s), Some(D::Text(t))) if matches!(a.t, TypeId::VarChar | TypeId::Char) && matches!(to, TypeId::VarChar | TypeId::Char) => {
            if s != t {
                return bad("the same text");
            }
        },
        (D::Text(_), None) if matches!(a.t, TypeId::VarChar | TypeId::Char) && matches!(to, TypeId::VarChar | TypeId::Char) => return bad("the same text"),
        (_, Some(D::Null)) => return bad("a value or an error"),
        _ => {},
    }
    // conversions to a Rust number
    let as_ints: [(TypeId, Result<Result<i128, String>, String>); 4] = [
        (TypeId::TinyInt, guard(|| a.v.as_tinyint().map(i128::from))),
        (TypeId::SmallInt, guard(|| a.v.as_smallint().map(i128::from))),
        (TypeId::Integer, guard(|| a.v.as_integer().map(i128::from))),
        (TypeId::BigInt, guard(|| a.v.as_bigint().map(i128::from))),
    ];
    for (t, r) in as_ints {
        let r = r?;
        let ok = match (&a.d, &r) {
            (D::Int(i), Ok(j)) => i == j,
            (D::Real(f), Ok(j)) => !f.is_nan() && (*j as f64 - f).abs() < 1.0,
            (D::Int(i), Err(_)) => !is_int(a.t) || *i < range(t).0 || *i > range(t).1,
            (D::Null, Ok(_)) => false,
            _ => true,
        };
        if !ok {
            return Err(format!("{} as {t:?} is {r:?}", show(a)));
        }
    }
    Ok(())
}
pub fn run(ctx: &Ctx) {
    let u = universe(ctx.thorough);
    let n = u.len();
    let fail = |what: &str, m: String| ctx.violation(&m, json!({"part": what, "what": m}));
    let pairs = AtomicU64::new(0);
    par(n, |i| {
        for b in &u {
            let a = &u[i];
            for (what, r) in [("compare", compares(a, b)), ("order and hash", orders(a, b)), ("arithmetic", arith(a, b))] {
                if let Err(m) = r {
                    fail(what, m);
                }
            }
            pairs.fetch_add(1, Relaxed);
        }
        for to in TYPES {
            if let Err(m) = casts(&u[i], to) {
                fail("cast", m);
            }
        }
    });
    let p = pairs.load(Relaxed);
    // a sort needs a transitive order
    let w: Vec<&V> = u.iter().filter(|v| !matches!(v.d, D::Real(f) if f.is_nan())).collect();
    let m = w.len();
    let ord: Vec<Vec<Ordering>> = w.iter().map(|a| w.iter().map(|b| a.v.partial_cmp(&b.v).unwrap_or(Ordering::Equal)).collect()).collect();
    for i in 0..m {
        for j in 0..m {
            for k in 0..m {
                if ord[i][j].is_le() && ord[j][k].is_le() && !ord[i][k].is_le() {
                    fail("order", format!("{} <= {} <= {} but not {} <= {}", show(w[i]), show(w[j]), show(w[k]), show(w[i]), show(w[k])));
                }
            }
        }
    }
    let t = (m * m * m) as u64;
    ctx.add(n as u64, p * 20 + t + (n * TYPES.len()) as u64, p + t + (n * TYPES.len()) as u64);
    ctx.validated(p);
    ctx.part(json!({"values": n, "pairs": p, "triples": t, "casts": n * TYPES.len()}));
}
