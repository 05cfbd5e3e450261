//! C23: what is stored or sent reads back as it was. Every value of the boundary universe, every row of up to three
//! of them at every buffer size and truncation, every column definition, every schema of up to three columns with
//! every selection and every name, row locations and the messages of the server.
use crate::c22::{universe, TYPES};
use crate::common::*;
use ferrite::catalog::column::{Column, ForeignKeyConstraint, ReferentialAction};
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::server::protocol::{DatabaseRequest, DatabaseResponse, QueryResults};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Everything a value holds, to the bit.
pub(crate) fn image(v: &Value) -> String {
    let nested = |l: &[Value]| l.iter().map(image).collect::<Vec<_>>().join(",");
    let val = match &v.value_ {
        Val::Decimal(d) => format!("Decimal {:x}", d.to_bits()),
        Val::Float(f) => format!("Float {:x}", f.to_bits()),
        Val::Point(a, b) => format!("Point {:x} {:x}", a.to_bits(), b.to_bits()),
        Val::Vector(l) => format!("Vector [{}]", nested(l)),
        Val::Array(l) => format!("Array [{}]", nested(l)),
        o => format!("{o:?}"),
    };
    format!("{:?} {val} {:?} {} {:?}", v.type_id_, v.size_, v.manage_data_, v.struct_data.as_ref().map(|l| nested(l)))
}
fn images(l: &[Value]) -> Vec<String> {
    l.iter().map(image).collect()
}
fn values(more: bool) -> Vec<Value> {
    let mut u: Vec<Value> = universe(more).into_iter().map(|v| v.v).collect();
    let nested: Vec<Value> = u.iter().step_by(7).map(|v| Value::new_with_type(Val::Vector(vec![v.clone(), Value::new(1)]), TypeId::Vector)).collect();
    let mut s = Value::new_with_type(Val::Struct, TypeId::Struct);
    s.struct_data = Some(vec![Value::new(1), Value::new("x"), Value::new_with_type(Val::Null, TypeId::Integer)]);
    for len in [1usize, 126, 127, 128, 129, 255, 256, 16383, 16384] {
        u.push(Value::new("x".repeat(len)));
        u.push(Value::new_with_type(Val::Binary(vec![7; len]), TypeId::Binary));
    }
    u.extend(nested);
    u.push(s);
    u
}
fn row_schema(l: &[Value]) -> Schema {
    Schema::new(l.iter().enumerate().map(|(i, v)| Column::new(&format!("c{i}"), v.get_type_id())).collect())
}
fn row(l: &[Value]) -> Result<u64, String> {
    let schema = row_schema(l);
    let rid = RID::new(7, 9);
    let t = Tuple::try_new(l, &schema, rid).map_err(|e| e.to_string())?;
    let want = images(l);
    if images(&t.get_values()) != want || images(t.values()) != want || t.get_rid() != rid || t.get_column_count() != l.len() {
        return Err("the row does not hold the values it was made of".into());
    }
    for i in 0..l.len() {
        if image(&t.get_value(i)) != want[i] || image(t.get_value_ref(i)) != want[i] {
            return Err(format!("column {i} is {:?}", t.get_value(i)));
        }
    }
    let len = t.get_length().map_err(|e| e.to_string())?;
    let mut whole = vec![0xabu8; len + 3];
    let mut n = 0;
    for room in (0..=len + 1).filter(|r| len < 80 || *r < 5 || *r + 5 > len) {
        n += 1;
        let mut b = vec![0xabu8; len + 3];
        match t.serialize_to(&mut b[..room]) {
            Ok(k) if room >= len => {
                if k != len {
                    return Err(format!("{k} bytes written, the length is said to be {len}"));
                }
                whole = b.clone();
            },
            Err(_) if room < len => {},
            o => return Err(format!("writing {len} bytes into {room} gives {o:?}")),
        }
        if b[room..].iter().any(|x| *x != 0xab) {
            return Err(format!("writing into {room} bytes wrote beyond them"));
        }
    }
    for cut in (0..=len + 3).filter(|r| len < 80 || *r < 5 || *r + 5 > len) {
        n += 1;
        match Tuple::deserialize_from(&whole[..cut]) {
            Ok(b) if cut >= len => {
                if images(&b.get_values()) != want || b != t && !want.iter().any(|w| w.contains("NaN")) {
                    return Err(format!("reads back as {:?}", b.get_values()));
                }
            },
            Err(_) if cut < len => {},
            o => return Err(format!("reading the first {cut} of {len} bytes gives {:?}", o.map(|t| t.get_values()))),
        }
    }
    // selections of its columns and joining with another
    for w in 0..(l.len() as u64 + 1).pow(2) {
        let at = word(w, l.len() + 1, 2);
        let want_keys: Option<Vec<String>> = at.iter().map(|i| want.get(*i).cloned()).collect();
        let got = t.keys_from_tuple_checked(&at).ok().map(|k| images(&k));
        if got != want_keys {
            return Err(format!("columns {at:?} are {got:?}"));
        }
        if want_keys.is_some() && Some(images(&t.keys_from_tuple(&at))) != want_keys {
            return Err(format!("columns {at:?} are {:?}", t.keys_from_tuple(&at)));
        }
        n += 1;
    }
    let other = Tuple::new(&[Value::new(5)], &row_schema(&[Value::new(5)]), RID::new(1, 1));
    let both: Vec<String> = want.iter().cloned().chain([image(&Value::new(5))]).collect();
    if images(&t.combine(&other).get_values()) != both {
        return Err(format!("joined with 5 it holds {:?}", t.combine(&other).get_values()));
    }
    for wrong in [l.len() + 1, l.len().wrapping_sub(1)] {
        let v = vec![Value::new(1); wrong.min(9)];
        let mut u = t.clone();
        if wrong < 9 && (Tuple::try_new(&v, &schema, rid).is_ok() || u.set_values_checked(v, &schema).is_ok() || images(&u.get_values()) != want) {
            return Err(format!("{wrong} values are taken for a row of {}", l.len()));
        }
    }
    Ok(n)
}
fn columns() -> Vec<Column> {
    use ReferentialAction::*;
    let fk = |a: Option<ReferentialAction>, b: Option<ReferentialAction>| ForeignKeyConstraint { referenced_table: "r".into(), referenced_column: "k".into(), on_delete: a, on_update: b };
    let mut fks = vec![None, Some(fk(None, None))];
    for a in [Cascade, SetNull, SetDefault, Restrict, NoAction] {
        fks.push(Some(fk(Some(a.clone()), None)));
        fks.push(Some(fk(None, Some(a))));
    }
    let mut out = vec![];
    for t in TYPES {
        for flags in 0..8 {
            for check in [None, Some("k > 1".to_string())] {
                for default in [None, Some(Value::new(3)), Some(Value::new_with_type(Val::Null, t))] {
                    for fk in &fks {
                        for (p, s) in [(None, None), (Some(9), None), (Some(200), Some(3))] {
                            for len in [None, Some(1), Some(300)] {
                                out.push(Column::from_sql_info("c", t, len, p, s, flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, check.clone(), default.clone(), fk.clone()));
                                let (c, i) = (out.last().unwrap(), out.len());
                                let same = c.get_type() == t
                                    && (c.is_primary_key(), c.is_not_null(), c.is_unique()) == (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0)
                                    && *c.get_check_constraint() == check
                                    && c.get_default_value().as_ref().map(image) == default.as_ref().map(image)
                                    && c.get_foreign_key() == fk
                                    && (c.get_precision(), c.get_scale()) == (p, s)
                                    && len.map_or(true, |l| c.get_length() == if t == TypeId::Vector { 8 * l } else { l });
                                if !same {
                                    // reported by the caller
                                    out[i - 1].set_name("!".into());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
fn col_image(c: &Column) -> String {
    format!("{c:?} default {:?}", c.get_default_value().as_ref().map(image))
}
fn schema_image(s: &Schema) -> String {
    format!(
        "{:?} {} {} {:?} {} {:?}",
        s.get_columns().iter().map(col_image).collect::<Vec<_>>(),
        s.get_column_count(),
        s.get_inlined_storage_size(),
        s.get_unlined_columns(),
        s.is_inlined(),
        s.get_primary_key_columns()
    )
}
fn schema(cols: &[(String, TypeId)]) -> Result<u64, String> {
    let mut s = Schema::new(cols.iter().map(|(n, t)| Column::new(n, *t)).collect());
    let mut n = 0;
    if s.get_column_count() as usize != cols.len() || s.get_columns().iter().zip(cols).any(|(c, (n, t))| c.get_name() != n || c.get_type() != *t) {
        return Err("does not hold the columns it was made of".into());
    }
    let text: Vec<u32> = (0..cols.len()).filter(|i| cols[*i].1 == TypeId::VarChar).map(|i| i as u32).collect();
    if *s.get_unlined_columns() != text || s.is_inlined() != text.is_empty() {
        return Err(format!("its columns stored elsewhere are {:?}, not {text:?}", s.get_unlined_columns()));
    }
    // no two columns share bytes
    let mut at = 0;
    for c in s.get_columns() {
        if c.get_offset() != at {
            return Err(format!("column {} is at offset {}, not {at}", c.get_name(), c.get_offset()));
        }
        at += if c.is_inlined() { c.get_storage_size() } else { 8 };
    }
    if s.get_inlined_storage_size() as usize != at {
        return Err(format!("length {}, not {at}", s.get_inlined_storage_size()));
    }
    if !cols.is_empty() {
        s.set_primary_key_columns(vec![cols.len() - 1, 0]);
    }
    let b = postcard::to_allocvec(&s).map_err(|e| e.to_string())?;
    let r: Schema = postcard::from_bytes(&b).map_err(|e| e.to_string())?;
    if schema_image(&r) != schema_image(&s) || (r != s) {
        return Err(format!("reads back as {}", schema_image(&r)));
    }
    for cut in 0..b.len() {
        n += 1;
        if postcard::from_bytes::<Schema>(&b[..cut]).is_ok() {
            return Err(format!("the first {cut} of {} bytes read as a schema", b.len()));
        }
    }
    for w in 0..(cols.len() as u64).pow(2) {
        n += 1;
        let at = word(w, cols.len(), 2);
        let c = Schema::copy_schema(&s, &at);
        let got: Vec<(String, TypeId)> = c.get_columns().iter().map(|c| (c.get_name().to_string(), c.get_type())).collect();
        if got != at.iter().map(|i| cols[*i].clone()).collect::<Vec<_>>() {
            return Err(format!("its columns {at:?} are {got:?}"));
        }
    }
    for look in ["a", "b", "t.a", "u.a", "t.b", "c", "v.a", "", "."] {
        n += 1;
        let find = |f: &dyn Fn(&str) -> bool| cols.iter().position(|(n, _)| f(n));
        let exact = find(&|n| n == look);
        if s.get_column_index(look) != exact {
            return Err(format!("column {look:?} is found at {:?}, not {exact:?}", s.get_column_index(look)));
        }
        // the exact name, or else the unqualified column of that name, or a qualified one for an unqualified name
        let want = exact.or_else(|| match look.split_once('.') {
            Some((_, c)) => find(&|n| n == c),
            None => find(&|n| n.split_once('.').map_or(false, |(_, c)| c == look)),
        });
        if s.get_qualified_column_index(look) != want {
            return Err(format!("qualified column {look:?} is found at {:?}, not {want:?}", s.get_qualified_column_index(look)));
        }
    }
    Ok(n)
}
fn merged(l: &[(String, TypeId)], r: &[(String, TypeId)]) -> Result<u64, String> {
    let make = |c: &[(String, TypeId)]| Schema::new(c.iter().map(|(n, t)| Column::new(n, *t)).collect());
    let (a, b) = (make(l), make(r));
    let both: Vec<(String, TypeId)> = l.iter().chain(r).cloned().collect();
    if schema_image(&Schema::merge(&a, &b)) != schema_image(&make(&both)) {
        return Err(format!("together they are {}", Schema::merge(&a, &b)));
    }
    for (x, y) in [(None, None), (Some("x"), None), (None, Some("y")), (Some("x"), Some("y")), (Some("t"), Some("u"))] {
        let alias = |c: &[(String, TypeId)], a: Option<&str>| -> Vec<(String, TypeId)> {
            c.iter().map(|(n, t)| (a.map_or(n.clone(), |a| format!("{a}.{}", n.rsplit('.').next().unwrap())), *t)).collect()
        };
        let want = make(&[alias(l, x), alias(r, y)].concat());
        let got = Schema::merge_with_aliases(&a, &b, x, y);
        if schema_image(&got) != schema_image(&want) {
            return Err(format!("as {x:?} and {y:?} they are {got}, not {want}"));
        }
    }
    Ok(6)
}

pub fn run(ctx: &'static Ctx) {
    let total = AtomicU64::new(0);
    let give_up = || ctx.n_violations() > 20;
    let part = |name: &str, n: u64| {
        total.fetch_add(n, Relaxed);
        ctx.part(json!({"part": name, "cases": n}));
    };
    let fail = |what: String| ctx.violation(&what, json!({"what": what}));

    let all = values(true);
    let mut n = 0u64;
    for v in &all {
        n += 1;
        let r = guard(|| -> Result<(), String> {
            let b = postcard::to_allocvec(v).map_err(|e| e.to_string())?;
            let back: Value = postcard::from_bytes(&b).map_err(|e| e.to_string())?;
            if image(&back) != image(v) {
                return Err(format!("reads back as {}", image(&back)));
            }
            let j = postcard::from_bytes::<Value>(&b[..b.len() - 1]);
            if j.is_ok() {
                return Err(format!("a part of it reads as {j:?}"));
            }
            Ok(())
        });
        if let Err(e) = r.and_then(|r| r) {
            fail(format!("value {}: {e}", image(v)));
        }
    }
    part("values", n);

    // rows of none, one and two of all values, and of three (thorough: four) of one or two values per type
    let some: Vec<Value> = {
        let mut seen = std::collections::HashMap::new();
        all.iter()
            .filter(|v| {
                let k: &mut usize = seen.entry((v.get_type_id(), v.is_null())).or_default();
                *k += 1;
                *k <= ctx.pick(1, 2)
            })
            .cloned()
            .collect()
    };
    let n = AtomicU64::new(0);
    let try_row = |l: &[Value]| {
        match guard(|| row(l)).and_then(|r| r) {
            Ok(k) => drop(n.fetch_add(k, Relaxed)),
            Err(e) => fail(format!("row {:?}: {e}", images(l))),
        };
    };
    try_row(&[]);
    par(all.len(), |i| {
        try_row(&all[i..=i]);
        for v in &all[..] {
            if give_up() {
                return;
            }
            if ctx.thorough || v.get_type_id() != all[i].get_type_id() || i % 8 == 0 {
                try_row(&[all[i].clone(), v.clone()]);
            }
        }
    });
    par(some.len(), |i| {
        for a in &some {
            for b in &some {
                if give_up() {
                    return;
                }
                try_row(&[some[i].clone(), a.clone(), b.clone()]);
            }
        }
    });
    part("rows", n.load(Relaxed));

    let cols = columns();
    for c in &cols {
        let r = guard(|| -> Result<(), String> {
            if c.get_name() != "c" {
                return Err("does not hold what it was made of".into());
            }
            let b = postcard::to_allocvec(c).map_err(|e| e.to_string())?;
            let back: Column = postcard::from_bytes(&b).map_err(|e| e.to_string())?;
            if col_image(&back) != col_image(c) {
                return Err(format!("reads back as {}", col_image(&back)));
            }
            for other in [c.replicate("d"), c.with_name("d")] {
                let mut want = c.clone();
                want.set_name("d".into());
                if col_image(&other) != col_image(&want) {
                    return Err(format!("renamed it is {}", col_image(&other)));
                }
            }
            Ok(())
        });
        if let Err(e) = r.and_then(|r| r) {
            if !give_up() {
                fail(format!("column {}: {e}", col_image(c)));
            }
        }
    }
    part("columns", cols.len() as u64);

    let names = ["a", "b", "t.a", "u.a", "t.b"];
    let types = [TypeId::TinyInt, TypeId::Integer, TypeId::VarChar, TypeId::BigInt];
    let k = names.len() * types.len();
    let lists: Vec<Vec<(String, TypeId)>> =
        (0..=3).flat_map(|len| (0..(k as u64).pow(len as u32)).map(move |w| word(w, k, len).iter().map(|i| (names[i / 4].to_string(), types[i % 4])).collect())).collect();
    let n = AtomicU64::new(0);
    par(lists.len(), |i| {
        if give_up() {
            return;
        }
        match guard(|| schema(&lists[i])).and_then(|r| r) {
            Ok(k) => drop(n.fetch_add(k, Relaxed)),
            Err(e) => fail(format!("schema {:?}: {e}", lists[i])),
        };
    });
    let few: Vec<&Vec<(String, TypeId)>> = lists.iter().filter(|l| l.len() <= 2).collect();
    par(few.len(), |i| {
        for r in &few {
            if give_up() {
                return;
            }
            match guard(|| merged(few[i], r)).and_then(|r| r) {
                Ok(k) => drop(n.fetch_add(k, Relaxed)),
                Err(e) => fail(format!("schemas {:?} and {r:?}: {e}", few[i])),
            };
        }
    });
    part("schemas", n.load(Relaxed));

    let mut n = 0;
    let edges32 = [0u32, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let pages: Vec<u64> = edges32.iter().map(|e| *e as u64).chain([1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX]).collect();
    for &p in &pages {
        for &s in &edges32 {
            n += 1;
            let r = RID::new(p, s);
            let got = guard(|| (r.to_i64().map(RID::from_i64), RID::try_deserialize(&r.to_bytes_le()), RID::deserialize(&r.to_bytes_le()), RID::try_deserialize(&r.to_bytes_le()[..11])));
            let packed = (p <= u32::MAX as u64).then_some(r);
            if got != Ok((packed, Some(r), r, None)) || (r.get_page_id(), r.get_slot_num()) != (p, s) {
                fail(format!("location {p}, {s}: reads back as {got:?}"));
            }
        }
    }
    part("locations", n);

    // messages: requests and responses of up to two rows of up to two values
    let mut requests: Vec<DatabaseRequest> = vec![DatabaseRequest::Commit, DatabaseRequest::Rollback];
    let texts = ["", "SELECT 1", "é\u{1F600}", "\0"];
    requests.extend(texts.iter().flat_map(|t| [DatabaseRequest::Query(t.to_string()), DatabaseRequest::Prepare(t.to_string())]));
    for isolation_level in [IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot] {
        requests.push(DatabaseRequest::BeginTransaction { isolation_level });
    }
    for id in [0u64, 1, 127, 128, u64::MAX] {
        requests.push(DatabaseRequest::Close(id));
        requests.push(DatabaseRequest::Execute { stmt_id: id, params: vec![] });
        for v in &all {
            requests.push(DatabaseRequest::Execute { stmt_id: id, params: vec![v.clone(), v.clone()] });
        }
    }
    let mut responses: Vec<DatabaseResponse> = texts.iter().map(|t| DatabaseResponse::Error(t.to_string())).collect();
    for t in TYPES {
        responses.push(DatabaseResponse::PrepareOk { stmt_id: 5, param_types: vec![t, TypeId::Integer] });
    }
    for a in &some {
        for b in &all {
            let mut r = QueryResults::new(vec!["a".into(), "é".into()], vec![vec![a.clone(), b.clone()], vec![b.clone(), a.clone()]]);
            r.messages.push("done".into());
            responses.push(DatabaseResponse::Results(r));
        }
    }
    responses.push(DatabaseResponse::Results(QueryResults::empty()));
    let show = |rows: &[Vec<Value>]| rows.iter().map(|r| images(r)).collect::<Vec<_>>();
    let req = |r: &DatabaseRequest| match r {
        DatabaseRequest::Execute { stmt_id, params } => format!("Execute {stmt_id} {:?}", images(params)),
        o => format!("{o:?}"),
    };
    let res = |r: &DatabaseResponse| match r {
        DatabaseResponse::Results(q) => format!("Results {:?} {:?} {:?}", q.column_names, show(&q.rows), q.messages),
        o => format!("{o:?}"),
    };
    let n = requests.len() + responses.len();
    for r in &requests {
        let back = guard(|| postcard::to_allocvec(r).and_then(|b| postcard::from_bytes::<DatabaseRequest>(&b)).map(|b| req(&b)).map_err(|e| e.to_string())).and_then(|r| r);
        if back != Ok(req(r)) && !give_up() {
            fail(format!("request {} arrives as {back:?}", req(r)));
        }
    }
    for r in &responses {
        let back = guard(|| postcard::to_allocvec(r).and_then(|b| postcard::from_bytes::<DatabaseResponse>(&b)).map(|b| res(&b)).map_err(|e| e.to_string())).and_then(|r| r);
        if back != Ok(res(r)) && !give_up() {
            fail(format!("response {} arrives as {back:?}", res(r)));
        }
    }
    part("messages", n as u64);
    let c = total.load(Relaxed);
    ctx.add(c, c, c);
    ctx.validated(c);
}
