//! C33: dates and times. Every day of a range with leap years and centuries, at the beginning, in the middle and at
//! the end of the day, under truncation, parts, making, adding, literals and time zones, as text, time stamps,
//! columns and columns of either side of a join, against a calendar counted day by day.
use crate::c31::{check, column, int, Ex, A, MONTHS, R};
use crate::common::*;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::at_timezone_expression::AtTimeZoneExpression;
use ferrite::sql::execution::expressions::datetime_expression::{DateTimeExpression, DateTimeField, DateTimeOperation};
use ferrite::sql::execution::expressions::extract_expression::{ExtractExpression, ExtractField};
use ferrite::sql::execution::expressions::interval_expression::{IntervalExpression, IntervalField};
use ferrite::sql::execution::expressions::typed_string_expression::TypedStringExpression;
use ferrite::types_db::type_id::TypeId;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

/// A day: its number from 1970-01-01, the date, the day of the year and of the week (Monday is 0).
#[derive(Clone, Copy, Debug, PartialEq)]
struct Day {
    n: i64,
    y: i64,
    m: i64,
    d: i64,
    of_year: i64,
    of_week: i64,
}
fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn month_len(y: i64, m: i64) -> i64 {
    MONTHS[m as usize - 1] + (m == 2 && leap(y)) as i64
}
/// Every day of the years, counted from 1600-01-01, which was a Saturday 135140 days before 1970.
fn calendar(from: i64, to: i64) -> Vec<Day> {
    let mut out = vec![];
    let mut n = -135_140;
    for y in 1600..=to {
        let mut of_year = 1;
        for m in 1..=12 {
            for d in 1..=month_len(y, m) {
                if y >= from {
                    out.push(Day { n, y, m, d, of_year, of_week: (n + 3).rem_euclid(7) });
                }
                n += 1;
                of_year += 1;
            }
        }
    }
    out
}
struct Cal {
    all: Vec<Day>,
}
impl Cal {
    fn at(&self, n: i64) -> Day {
        self.all[(n - self.all[0].n) as usize]
    }
    fn date(&self, y: i64, m: i64, d: i64) -> Option<Day> {
        let i = self.all.partition_point(|x| (x.y, x.m, x.d) < (y, m, d));
        self.all.get(i).copied().filter(|x| (x.y, x.m, x.d) == (y, m, d))
    }
    /// The year and number of the ISO week: that of its Thursday.
    fn iso_week(&self, d: Day) -> (i64, i64) {
        let thu = self.at(d.n - d.of_week + 3);
        (thu.y, (thu.of_year - 1) / 7 + 1)
    }
    fn text(&self, secs: i64, form: &str) -> String {
        let d = self.at(secs.div_euclid(86400));
        let s = secs.rem_euclid(86400);
        let (date, time) = (format!("{:04}-{:02}-{:02}", d.y, d.m, d.d), format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60));
        form.replace('D', &date).replace('H', &time)
    }
}
const ISO: &str = "DTHZ";
fn result(t: TypeId) -> ferrite::catalog::column::Column {
    column("r", t)
}
fn date_time(op: DateTimeOperation, part: Option<DateTimeField>, t: TypeId) -> impl Fn(Vec<Ex>) -> Ex {
    move |c| Arc::new(Expression::DateTime(DateTimeExpression::new(op.clone(), c, part.clone(), result(t))))
}
fn extract(f: ExtractField) -> impl Fn(Vec<Ex>) -> Ex {
    move |c| Arc::new(Expression::Extract(ExtractExpression::new(f.clone(), c[0].clone(), result(TypeId::Integer))))
}
fn small(v: i64) -> R {
    // a number that does not fit the result is refused
    if i32::try_from(v).is_ok() { R::I(v) } else { R::Error }
}
fn days(ctx: &Ctx, cal: &Cal, n: &AtomicU64, d: Day) {
    use DateTimeField as F;
    for time in [0i64, 45296, 86399] {
        let secs = d.n * 86400 + time;
        let s = secs.rem_euclid(86400);
        let first = |y, m| cal.date(y, m, 1).unwrap().n * 86400;
        let mut forms = vec![A::T(cal.text(secs, ISO))];
        if secs >= 0 {
            forms.push(A::S(secs as u64));
        }
        let week = || F::Week(Some("monday".into()));
        let truncs = [
            (F::Second, secs),
            (F::Minute, secs - s % 60),
            (F::Hour, secs - s % 3600),
            (F::Day, secs - s),
            (week(), (d.n - d.of_week) * 86400),
            (F::Month, first(d.y, d.m)),
            (F::Quarter, first(d.y, (d.m - 1) / 3 * 3 + 1)),
            (F::Year, first(d.y, 1)),
            (F::Decade, first(d.y / 10 * 10, 1)),
            (F::Century, first(d.y / 100 * 100, 1)),
        ];
        let (iso_year, iso_week) = cal.iso_week(d);
        let parts = [
            (F::Year, d.y),
            (F::Month, d.m),
            (F::Day, d.d),
            (F::DayOfWeek, d.of_week),
            (F::Dow, d.of_week),
            (F::DayOfYear, d.of_year),
            (F::Doy, d.of_year),
            (F::Hour, s / 3600),
            (F::Minute, s / 60 % 60),
            (F::Second, s % 60),
            (F::Quarter, (d.m - 1) / 3 + 1),
            (week(), iso_week),
            (F::IsoWeek, iso_week),
            (F::Isoyear, iso_year),
            (F::Isodow, d.of_week + 1),
            (F::Epoch, secs),
            (F::Millisecond, 0),
            (F::Microseconds, 0),
        ];
        for a in &forms {
            for (f, want) in &truncs {
                check(ctx, n, &format!("DATE_TRUNC {f:?}"), &[a.clone()], &date_time(DateTimeOperation::DateTrunc, Some(f.clone()), TypeId::VarChar), &[R::T(cal.text(*want, ISO))]);
            }
            for (f, want) in &parts {
                check(ctx, n, &format!("DATE_PART {f:?}"), &[a.clone()], &date_time(DateTimeOperation::DatePart, Some(f.clone()), TypeId::Integer), &[small(*want)]);
            }
        }
        use ExtractField as E;
        let parts = [
            (E::Year, d.y),
            (E::Month, d.m),
            (E::Day, d.d),
            (E::Hour, s / 3600),
            (E::Minute, s / 60 % 60),
            (E::Second, s % 60),
            (E::Quarter, (d.m - 1) / 3 + 1),
            (E::Week, iso_week),
            (E::DayOfWeek, d.of_week + 1),
            (E::DayOfYear, d.of_year),
            (E::Epoch, secs),
        ];
        forms[0] = A::T(cal.text(secs, "D H"));
        for a in &forms {
            for (f, want) in &parts {
                check(ctx, n, &format!("EXTRACT {f:?}"), &[a.clone()], &extract(f.clone()), &[small(*want)]);
            }
        }
        // adding and subtracting whole days and times
        if let A::T(_) = forms[0] {
            forms[0] = A::T(cal.text(secs, ISO));
        }
        let edge = d.d <= 1 || d.d + 1 > month_len(d.y, d.m);
        for a in forms.iter().filter(|_| time == 45296 || edge && d.m < 4 || ctx.thorough) {
            for (text, by) in [
                ("P0D", 0),
                ("P1D", 86400),
                ("P31D", 31 * 86400),
                ("P366D", 366 * 86400),
                ("PT1S", 1),
                ("PT1M", 60),
                ("PT1H", 3600),
                ("PT25H61M61S", 25 * 3600 + 61 * 60 + 61),
                ("P2DT3H4M5S", 2 * 86400 + 3 * 3600 + 4 * 60 + 5),
                ("PT86400S", 86400),
            ] {
                if !edge && !ctx.thorough && by != 25 * 3600 + 61 * 60 + 61 {
                    continue; // every one is compiled anew
                }
                let i = A::T(text.into());
                check(ctx, n, "timestamp + interval", &[a.clone(), i.clone()], &date_time(DateTimeOperation::Add, None, TypeId::VarChar), &[R::T(cal.text(secs + by, ISO))]);
                check(ctx, n, "timestamp - interval", &[a.clone(), i.clone()], &date_time(DateTimeOperation::Subtract, None, TypeId::VarChar), &[R::T(cal.text(secs - by, ISO))]);
                if let A::S(_) = a {
                    check(ctx, n, "interval + timestamp", &[i, a.clone()], &date_time(DateTimeOperation::Add, None, TypeId::VarChar), &[R::T(cal.text(secs + by, ISO))]);
                }
            }
        }
        // literals
        if secs >= 0 {
            let lit = |ty: &str, text: String, want: R| {
                let make = |_: Vec<Ex>| -> Ex { Arc::new(Expression::TypedString(TypedStringExpression::new(ty.into(), text.clone(), result(TypeId::Timestamp)))) };
                check(ctx, n, &format!("{ty} '{text}'"), &[], &make, &[want]);
            };
            lit("DATE", cal.text(secs, "D"), R::S((secs - s) as u64));
            lit("TIME", cal.text(secs, "H"), R::S(s as u64));
            for form in [ISO, "DTH", "D H", "'D H'", "D H.5", "DTH+00:00"] {
                lit("TIMESTAMP", cal.text(secs, form), R::S(secs as u64));
            }
            lit("TIMESTAMP", cal.text(secs, "DTH+01:30"), R::S((secs - 5400) as u64));
            lit("timestamp", secs.to_string(), R::S(secs as u64));
        }
    }
    // texts with an offset name the instant
    let noon = d.n * 86400 + 43200;
    for (off, by) in [("+05:30", 19800), ("-08:00", -28800), ("+14:00", 50400), ("-12:00", -43200)] {
        let a = A::T(cal.text(noon, "DTH") + off);
        check(ctx, n, "DATE_TRUNC Day", &[a.clone()], &date_time(DateTimeOperation::DateTrunc, Some(F::Day), TypeId::VarChar), &[R::T(cal.text((noon - by).div_euclid(86400) * 86400, ISO))]);
        check(ctx, n, "DATE_PART Hour", &[a], &date_time(DateTimeOperation::DatePart, Some(F::Hour), TypeId::Integer), &[R::I((noon - by).rem_euclid(86400) / 3600)]);
    }
}
/// The offset from UTC at an instant, under the rules of 2008 to 2037.
fn offset(cal: &Cal, zone: usize, secs: i64) -> i64 {
    let y = cal.at(secs.div_euclid(86400)).y;
    // the k-th Sunday of a month (0: the last)
    let sunday = |m: i64, k: i64| {
        let d = if k == 0 { cal.date(y, m, month_len(y, m)).unwrap() } else { cal.date(y, m, 7 * k).unwrap() };
        (d.n - (d.of_week + 1) % 7) * 86400
    };
    match zone {
        0 => 0,
        1 => {
            let summer = secs >= sunday(3, 2) + 7 * 3600 && secs < sunday(11, 1) + 6 * 3600;
            if summer { -4 * 3600 } else { -5 * 3600 }
        },
        2 => {
            let summer = secs >= sunday(3, 0) + 3600 && secs < sunday(10, 0) + 3600;
            if summer { 7200 } else { 3600 }
        },
        _ => 19800,
    }
}
const ZONES: [&str; 4] = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata"];

pub fn run(ctx: &'static Ctx) {
    let total = AtomicU64::new(0);
    let give_up = || ctx.n_violations() > 20;
    let part = |name: &str, n: &AtomicU64| {
        let c = n.load(Relaxed);
        ctx.part(json!({"part": name, "evaluations": c}));
        total.fetch_add(c, Relaxed);
    };
    let cal = Cal { all: calendar(1600, 2410) };
    assert!(cal.date(1970, 1, 1).unwrap().n == 0 && cal.date(2024, 2, 29).unwrap().of_week == 3);

    let n = AtomicU64::new(0);
    let dates: Vec<Day> = cal
        .all
        .iter()
        .filter(|d| {
            // a margin for what adds to and subtracts from them
            let inside = (1602..2400).contains(&d.y);
            let near = |m: i64| d.d <= m || d.d + m > month_len(d.y, d.m);
            inside && if ctx.thorough { (1890..2120).contains(&d.y) || near(2) } else { (2019..2025).contains(&d.y) || (near(1) && [1699, 1700, 1899, 1900, 1904, 1968, 1969, 1970, 1971, 2000, 2001, 2037, 2038, 2096, 2100, 2399].contains(&d.y)) }
        })
        .copied()
        .collect();
    let end = ctx.deadline(45, 600);
    let done = AtomicU64::new(0);
    par(dates.len(), |i| {
        if !give_up() && std::time::Instant::now() < end {
            days(ctx, &cal, &n, dates[i]);
            done.fetch_add(1, Relaxed);
        }
    });
    if done.load(Relaxed) < dates.len() as u64 {
        ctx.capped();
        ctx.note(format!("{} of {} days before the time was up", done.load(Relaxed), dates.len()));
    }
    part("days", &n);

    // making dates and times from parts that do and do not exist
    let n = AtomicU64::new(0);
    let years = [-1i64, 0, 1, 1899, 1900, 1999, 2000, 2023, 2024, 2100];
    par(years.len(), |i| {
        let y = years[i];
        for m in -1..=14 {
            for d in -1..=33 {
                if give_up() {
                    return;
                }
                let ok = (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m);
                let date = |h: i64, mi: i64, s: i64, good: bool| if good { R::T(format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")) } else { R::Error };
                let args = [int(y), int(m), int(d)];
                // years before 0 have several notations
                if y >= 0 {
                    check(ctx, &n, "MAKE_DATE", &args, &date_time(DateTimeOperation::MakeDate, None, TypeId::VarChar), &[date(0, 0, 0, ok)]);
                    for (h, mi, s) in [(0, 0, 0), (23, 59, 59), (24, 0, 0), (-1, 0, 0), (0, 60, 0), (0, 0, 60), (0, -1, 0), (12, 30, -1)] {
                        let good = ok && (0..24).contains(&h) && (0..60).contains(&mi) && (0..60).contains(&s);
                        let args = [int(y), int(m), int(d), int(h), int(mi), int(s)];
                        check(ctx, &n, "MAKE_TIMESTAMP", &args, &date_time(DateTimeOperation::MakeTimestamp, None, TypeId::VarChar), &[date(h, mi, s, good)]);
                    }
                }
            }
        }
    });
    for h in -1..=25 {
        for m in [-1, 0, 1, 30, 59, 60, i32::MAX as i64, i32::MIN as i64] {
            for s in [-1, 0, 7, 59, 60, 61] {
                let good = (0..24).contains(&h) && (0..60).contains(&m) && (0..60).contains(&s);
                let want = if good { R::T(format!("{h:02}:{m:02}:{s:02}")) } else { R::Error };
                check(ctx, &n, "MAKE_TIME", &[int(h), int(m), int(s)], &date_time(DateTimeOperation::MakeTime, None, TypeId::VarChar), &[want]);
            }
        }
    }
    // NULL in any place gives NULL, and what is no date is refused
    let ts = A::T("2024-02-29T12:00:00Z".into());
    let nul = |t| A::Null(t);
    use DateTimeOperation::*;
    for at in 0..6 {
        let args = |k: usize| (0..k).map(|i| if i == at % k { nul(TypeId::Integer) } else { int(1) }).collect::<Vec<A>>();
        for (op, k) in [(MakeDate, 3), (MakeTime, 3), (MakeTimestamp, 6)] {
            check(ctx, &n, &format!("{op:?}"), &args(k), &date_time(op, None, TypeId::VarChar), &[R::Null]);
        }
    }
    for t in [TypeId::Timestamp, TypeId::VarChar] {
        for op in [Add, Subtract] {
            for a in [[nul(t), A::T("P1D".into())], [ts.clone(), nul(TypeId::VarChar)], [nul(t), nul(TypeId::VarChar)]] {
                check(ctx, &n, &format!("{op:?}"), &a, &date_time(op.clone(), None, TypeId::VarChar), &[R::Null]);
            }
            for bad in ["", "1D", "P", "P1", "PD", "P-1D", "P1H", "PT1D", "P99999999999999999999D", "P9999999999999D", "PT9999999999999999S", "P1DP1D", " P1D"] {
                // "P" and "PT" alone say nothing
                let want = if bad == "P" { vec![R::Error, R::T("2024-02-29T12:00:00Z".into())] } else { vec![R::Error] };
                check(ctx, &n, &format!("{op:?} {bad:?}"), &[ts.clone(), A::T(bad.into())], &date_time(op.clone(), None, TypeId::VarChar), &want);
            }
        }
        check(ctx, &n, "DATE_TRUNC", &[nul(t)], &date_time(DateTrunc, Some(DateTimeField::Month), TypeId::VarChar), &[R::Null]);
        check(ctx, &n, "DATE_PART", &[nul(t)], &date_time(DatePart, Some(DateTimeField::Month), TypeId::Integer), &[R::Null]);
        check(ctx, &n, "EXTRACT", &[nul(t)], &extract(ExtractField::Month), &[R::Null]);
    }
    for bad in ["", "x", "2023-02-29", "2023-02-29T00:00:00Z", "2024-13-01T00:00:00Z", "2024-01-32T00:00:00Z", "2024-01-01T24:00:00Z", "2024-01-01T00:60:00Z", "24-1-1"] {
        check(ctx, &n, "DATE_TRUNC", &[A::T(bad.into())], &date_time(DateTrunc, Some(DateTimeField::Month), TypeId::VarChar), &[R::Error]);
        check(ctx, &n, "DATE_PART", &[A::T(bad.into())], &date_time(DatePart, Some(DateTimeField::Month), TypeId::Integer), &[R::Error]);
        check(ctx, &n, "EXTRACT", &[A::T(bad.replace('T', " ").replace('Z', ""))], &extract(ExtractField::Month), &[R::Error]);
        for (ty, t) in [("DATE", bad.split('T').next().unwrap()), ("TIMESTAMP", bad)] {
            if ty == "DATE" && bad.contains("-01-01T") || bad == "24-1-1" {
                continue; // a good date
            }
            let make = |_: Vec<Ex>| -> Ex { Arc::new(Expression::TypedString(TypedStringExpression::new(ty.into(), t.into(), result(TypeId::Timestamp)))) };
            check(ctx, &n, &format!("{ty} '{t}'"), &[], &make, &[R::Error]);
        }
    }
    part("parts that do not exist and NULL", &n);

    // intervals
    let n = AtomicU64::new(0);
    use IntervalField as I;
    for (f, name) in [(I::Year, "years"), (I::Month, "months"), (I::Day, "days"), (I::Hour, "hours"), (I::Minute, "minutes"), (I::Second, "seconds")] {
        let make = |c: Vec<Ex>| -> Ex { Arc::new(Expression::Interval(IntervalExpression::new(f.clone(), c[0].clone(), result(TypeId::Struct)))) };
        for v in [0i64, 1, -1, 127, 128, -32769, i32::MAX as i64, i64::MAX, i64::MIN] {
            check(ctx, &n, "INTERVAL", &[int(v)], &make, &[R::T(format!("{name} {v}"))]);
            check(ctx, &n, "INTERVAL", &[A::T(v.to_string())], &make, &[R::T(format!("{name} {v}"))]);
        }
        for bad in ["", "x", "1.5", "9223372036854775808", " 1"] {
            check(ctx, &n, "INTERVAL", &[A::T(bad.into())], &make, &[R::Error]);
        }
        check(ctx, &n, "INTERVAL", &[nul(TypeId::Integer)], &make, &[R::Null]);
    }
    part("intervals", &n);

    // time zones: around every change of the offset, and every noon
    let n = AtomicU64::new(0);
    let from = cal.date(2008, 1, 2).unwrap().n;
    let to = cal.date(ctx.pick(2011, 2037), 12, 30).unwrap().n;
    let make = |c: Vec<Ex>| -> Ex { Arc::new(Expression::AtTimeZone(AtTimeZoneExpression::new(c[0].clone(), c[1].clone(), result(TypeId::Timestamp)))) };
    par((to - from) as usize, |i| {
        let day = (from + i as i64) * 86400;
        for zone in 0..ZONES.len() {
            let mut at = vec![day, day + 43200];
            for t in (day..=day + 86400).step_by(1800) {
                if offset(&cal, zone, t) != offset(&cal, zone, t - 1) {
                    at.extend([t - 1, t, t + 1]);
                }
            }
            for t in at {
                if give_up() {
                    return;
                }
                let off = offset(&cal, zone, t);
                let sign = if off < 0 { '-' } else { '+' };
                let want = cal.text(t + off, "DTH") + &format!("{sign}{:02}:{:02}", off.abs() / 3600, off.abs() / 60 % 60);
                for a in [A::S(t as u64), A::T(cal.text(t, ISO)), A::T(cal.text(t + 7200, "DTH+02:00"))] {
                    check(ctx, &n, "AT TIME ZONE", &[a, A::T(ZONES[zone].into())], &make, &[R::T(want.clone())]);
                }
            }
        }
    });
    for (a, want) in [([ts.clone(), A::T("No/Where".into())], R::Error), ([A::T("soon".into()), A::T("UTC".into())], R::Error), ([nul(TypeId::Timestamp), A::T("UTC".into())], R::Null), ([ts.clone(), nul(TypeId::VarChar)], R::Null)] {
        check(ctx, &n, "AT TIME ZONE", &a, &make, &[want]);
    }
    part("time zones", &n);
    let c = total.load(Relaxed);
    ctx.add(c, c, c);
    ctx.validated(c);
}
