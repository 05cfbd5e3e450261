//! C30: the catalog. Databases, tables and indexes are found under the names they were created with and nowhere else;
//! what is refused changes nothing; every table keeps its own rows; rebuilding from the system tables keeps all of it.
use crate::c27::{commit, table_plan};
use crate::common::*;
use crate::query::*;
use ferrite::catalog::column::{Column, ForeignKeyConstraint};
use ferrite::catalog::schema::Schema;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::create_table_plan::CreateTablePlanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// The layouts tables are created with.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Layout {
    /// (a, s)
    Plain,
    /// (s, a)
    Swapped,
    /// (a -> t.a, s)
    Child,
    /// (a -> t.z, s)
    NoColumn,
    /// (a -> w.a, s)
    NoTable,
}
use Layout::*;
impl Layout {
    fn cols(self) -> &'static [(&'static str, TypeId)] {
        match self {
            Swapped => &[("s", TypeId::VarChar), ("a", TypeId::Integer)],
            _ => &[("a", TypeId::Integer), ("s", TypeId::VarChar)],
        }
    }
    fn schema(self) -> Schema {
        let mut c: Vec<Column> = self
            .cols()
            .iter()
            .map(|(n, t)| if *t == TypeId::VarChar { Column::new_varlen(n, *t, 3500) } else { Column::new(n, *t) })
            .collect();
        let to = |t: &str, k: &str| ForeignKeyConstraint { referenced_table: t.into(), referenced_column: k.into(), on_delete: None, on_update: None };
        match self {
            Child => c[0].set_foreign_key(Some(to("t", "a"))),
            NoColumn => c[0].set_foreign_key(Some(to("t", "z"))),
            NoTable => c[0].set_foreign_key(Some(to("w", "a"))),
            _ => {},
        }
        Schema::new(c)
    }
    fn key(self) -> usize {
        (self == Swapped) as usize
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Database(&'static str),
    Use(&'static str),
    Table(&'static str, Layout),
    /// CREATE TABLE as a statement, IF NOT EXISTS or not
    Statement(&'static str, Layout, bool),
    Index(&'static str, &'static str),
    Insert(&'static str),
    /// a row that nearly fills a page
    Large(&'static str),
    Undone(&'static str),
    Rebuild,
}
use Op::*;
const OPS: [Op; 19] = [
    Database("d"),
    Database("default"),
    Use("d"),
    Use("default"),
    Use("e"),
    Table("t", Plain),
    Table("t", Swapped),
    Table("u", Child),
    Table("u", NoColumn),
    Table("u", NoTable),
    Statement("u", Swapped, false),
    Statement("t", Plain, true),
    Index("i", "t"),
    Index("i", "u"),
    Index("j", "u"),
    Insert("t"),
    Insert("u"),
    Undone("u"),
    Large("t"),
];
const REBUILD: [Op; 12] = [Database("d"), Use("d"), Use("default"), Table("t", Plain), Table("u", Swapped), Index("i", "t"), Insert("t"), Large("t"), Large("u"), Undone("t"), Insert("u"), Rebuild];

#[derive(Clone, Default)]
struct MTable {
    layout: Option<Layout>,
    rows: Vec<Row>,
    oid: u64,
}
#[derive(Clone, Default)]
struct MDb {
    tables: BTreeMap<&'static str, MTable>,
    indexes: BTreeMap<&'static str, (&'static str, u64)>,
}
struct Sys {
    db: Db,
    at: &'static str,
    dbs: BTreeMap<&'static str, MDb>,
    ops: &'static [Op],
    number: i64,
}
thread_local! {
    static POOL: RefCell<Option<(Db, u32)>> = const { RefCell::new(None) };
}
fn make(ops: &'static [Op]) -> Sys {
    // a pool is used for a number of histories: each has its own catalog
    let db = POOL.with(|p| {
        let mut p = p.borrow_mut();
        if p.as_ref().map_or(true, |(_, n)| *n > 200) {
            *p = None;
            crate::disk::renew();
            *p = Some((Db::new("c30"), 0));
        }
        let p = p.as_mut().unwrap();
        p.1 += 1;
        p.0.again()
    });
    if ops.contains(&Rebuild) {
        // the snapshot of the catalog is kept in the working directory: each thread has its own
        let (_dir, path) = CWD.with(|c| {
            let mut c = c.borrow_mut();
            if c.is_none() {
                assert_eq!(unsafe { libc::unshare(libc::CLONE_FS) }, 0);
                let d = Scratch::new("c30cwd");
                std::env::set_current_dir(&d.0).expect("scratch");
                *c = Some(d);
            }
            ((), c.as_ref().unwrap().0.clone())
        });
        let _ = std::fs::remove_file(path.join("catalog.snapshot"));
    }
    Sys { db, at: "default", dbs: BTreeMap::from([("default", MDb::default())]), ops, number: 0 }
}
thread_local! {
    static CWD: RefCell<Option<Scratch>> = const { RefCell::new(None) };
}
impl Sys {
    fn insert(&mut self, name: &'static str, large: bool, keep: bool) -> Result<(), String> {
        let me = self.dbs.get_mut(self.at).unwrap();
        let layout = me.tables.get(name).and_then(|t| t.layout);
        let parent = me.tables.get("t").map_or(false, |t| t.rows.iter().any(|r| r.contains(&C::I(7))));
        self.number += 1;
        // referenced and referencing rows have key 7; the text tells rows apart
        let text = if large { format!("{:03000}", self.number) } else { self.number.to_string() };
        let l = layout.unwrap_or(Plain);
        let mut row = vec![C::I(7), C::T(text)];
        if l == Swapped {
            row.reverse();
        }
        let p = {
            let v = row.iter().zip(l.cols()).map(|(c, (_, t))| lit(c, *t)).collect();
            let child = PlanNode::Values(ValuesNode::new(l.schema(), vec![v], vec![]));
            PlanNode::Insert(InsertNode::new(l.schema(), 0, name.into(), vec![], vec![child]))
        };
        let tx = self.db.begin();
        let got = statement(&p, &self.db.context(&tx));
        let ok = layout.is_some() && (l != Child || parent);
        if got.is_ok() != ok {
            return Err(format!("inserting into {name} gives {got:?}"));
        }
        if ok && keep {
            if !commit(&self.db, &tx) {
                return Err("commit failed".into());
            }
            me.tables.get_mut(name).unwrap().rows.push(row);
        } else {
            self.db.txns.abort(tx.get_transaction());
        }
        Ok(())
    }
    fn observe(&self) -> Result<(), String> {
        let c = self.db.catalog.read();
        let set = |mut v: Vec<String>| {
            v.sort();
            v
        };
        let want: Vec<String> = self.dbs.keys().map(|s| s.to_string()).collect();
        if set(c.get_database_names()) != want {
            return Err(format!("the databases are {:?}, expected {want:?}", set(c.get_database_names())));
        }
        if c.get_current_database_name().map(|s| s.as_str()) != Some(self.at) || c.get_current_database().map(|d| d.get_name()) != Some(self.at) {
            return Err(format!("the current database is {:?}, expected {}", c.get_current_database_name(), self.at));
        }
        let mut oids: Vec<u64> = self.dbs.keys().filter_map(|n| c.get_database(n)).map(|d| d.get_oid()).collect();
        oids.sort();
        oids.dedup();
        if oids.len() != self.dbs.len() || c.get_database("e").is_some() {
            return Err("databases are not told apart".into());
        }
        for (name, m) in &self.dbs {
            let d = c.get_database(name).unwrap();
            let want: Vec<String> = m.tables.keys().map(|s| s.to_string()).collect();
            for got in [set(d.get_table_names()), set(d.get_all_tables())] {
                if got != want {
                    return Err(format!("database {name} has tables {got:?}, expected {want:?}"));
                }
            }
            if d.get_all_table_info().len() != want.len() {
                return Err(format!("database {name} has {} tables, expected {want:?}", d.get_all_table_info().len()));
            }
            for t in ["t", "u", "w"] {
                let mt = m.tables.get(t);
                let got = d.get_table(t);
                let describe = |s: &Schema| format!("{:?}", s.get_columns().iter().map(|c| (c.get_name().to_string(), c.get_type(), c.get_length(), c.get_foreign_key().as_ref().map(|f| (f.referenced_table.clone(), f.referenced_column.clone())))).collect::<Vec<_>>());
                let Some(mt) = mt else {
                    if got.is_some() || d.get_table_schema(t).is_some() || d.get_table_heap(t).is_some() || d.get_table_columns(t).is_some() {
                        return Err(format!("database {name} finds {t}, which was not created"));
                    }
                    continue;
                };
                let want = describe(&mt.layout.unwrap().schema());
                let Some(info) = got else { return Err(format!("{name}.{t} is lost")) };
                let (s, k) = (d.get_table_schema(t).ok_or("no schema")?, d.get_table_columns(t).ok_or("no columns")?);
                if describe(&s) != want || describe(&info.get_table_schema()) != want || describe(&Schema::new(k)) != want {
                    return Err(format!("the schema of {name}.{t} is {}, expected {want}", describe(&s)));
                }
                if info.get_table_name() != t || info.get_table_oidt() != mt.oid || d.get_table_by_oid(mt.oid).map(|i| i.get_table_name().to_string()).as_deref() != Some(t) {
                    return Err(format!("{name}.{t} has name {:?} and number {}, created with {}", info.get_table_name(), info.get_table_oidt(), mt.oid));
                }
                let mut got: Vec<String> = d.get_table_indexes(t).iter().map(|i| i.get_index_name().to_string()).collect();
                got.sort();
                let want: Vec<String> = m.indexes.iter().filter(|(_, (of, _))| *of == t).map(|(n, _)| n.to_string()).collect();
                if got != want {
                    return Err(format!("{name}.{t} has indexes {got:?}, expected {want:?}"));
                }
            }
            for (i, (of, oid)) in &m.indexes {
                let Some((info, _)) = d.get_index_by_index_oid(*oid) else { return Err(format!("index {i} of {name} is lost")) };
                if info.get_index_name() != i || info.get_table_name() != of || info.get_index_oid() != *oid {
                    return Err(format!("index {oid} of {name} is {} of {}, created as {i} of {of}", info.get_index_name(), info.get_table_name()));
                }
            }
        }
        drop(c);
        // the rows of the current database, through a statement
        let m = &self.dbs[self.at];
        for (t, mt) in &m.tables {
            let tx = self.db.begin();
            let got = execute(&table_plan(&self.db, t).0, &self.db.context(&tx), 100).map(sorted);
            self.db.txns.abort(tx.get_transaction());
            if got != Ok(sorted(mt.rows.clone())) {
                return Err(format!("{}.{t} has the rows {}, expected {}", self.at, brief(&got), brief(&Ok(mt.rows.clone()))));
            }
        }
        for (i, (of, oid)) in &m.indexes {
            let (_, tree) = self.db.catalog.read().get_index_by_index_oid(*oid).ok_or("index lost")?;
            let keys = tree.read().scan_full().map_err(|e| format!("{e:?}"))?.len();
            if keys < m.tables[of].rows.len() {
                return Err(format!("index {i} of {of} has {keys} entries, {of} has {} rows", m.tables[of].rows.len()));
            }
        }
        Ok(())
    }
}
fn brief(r: &Result<Vec<Row>, String>) -> String {
    match r {
        Ok(r) => format!(
            "{:?}",
            sorted(r.clone())
                .iter()
                .map(|r| r.iter().map(|c| if let C::T(s) = c { s.trim_start_matches('0').to_string() } else { format!("{c:?}") }).collect::<Vec<_>>().join(","))
                .collect::<Vec<_>>()
        ),
        Err(e) => e.clone(),
    }
}
impl System for Sys {
    fn step(&mut self, op: usize) -> Result<bool, String> {
        let at = self.at;
        match self.ops[op] {
            Database(n) => {
                let got = self.db.catalog.write().create_database(n.into());
                if got == self.dbs.contains_key(n) {
                    return Err(format!("CREATE DATABASE {n} gives {got}"));
                }
                self.dbs.entry(n).or_default();
            },
            Use(n) => {
                let got = self.db.catalog.write().use_database(n);
                if got != self.dbs.contains_key(n) {
                    return Err(format!("USE {n} gives {got}"));
                }
                if got {
                    self.at = n;
                }
            },
            Table(n, l) | Statement(n, l, _) => {
                let me = self.dbs.get_mut(at).unwrap();
                let exists = me.tables.contains_key(n);
                let ok = !exists
                    && match l {
                        Child => me.tables.contains_key("t"),
                        NoColumn | NoTable => false,
                        _ => true,
                    };
                let made = if let Statement(_, _, lenient) = self.ops[op] {
                    let tx = self.db.begin();
                    let p = PlanNode::CreateTable(CreateTablePlanNode::new(l.schema(), n.into(), lenient));
                    let got = guard(|| {
                        let mut e = p.create_executor(self.db.context(&tx))?;
                        e.init();
                        e.next().map_err(|e| e.to_string())
                    })
                    .and_then(|r| r);
                    self.db.txns.abort(tx.get_transaction());
                    if got.is_err() && (ok || exists && lenient) || got.is_ok() && !ok && !(exists && lenient) {
                        return Err(format!("{:?} gives {:?}", self.ops[op], got.map(|_| ())));
                    }
                    ok
                } else {
                    let got = self.db.catalog.write().create_table(n.into(), l.schema()).is_some();
                    if got != ok {
                        return Err(format!("{:?} gives {got}", self.ops[op]));
                    }
                    got
                };
                if made {
                    let oid = self.db.catalog.read().get_table(n).ok_or("the new table is not found")?.get_table_oidt();
                    if me.tables.values().any(|t| t.oid == oid) {
                        return Err(format!("{n} has the number of another table, {oid}"));
                    }
                    me.tables.insert(n, MTable { layout: Some(l), rows: vec![], oid });
                }
            },
            Index(i, t) => {
                let me = self.dbs.get_mut(at).unwrap();
                let layout = me.tables.get(t).and_then(|t| t.layout);
                let l = layout.unwrap_or(Plain);
                let key = Schema::copy_schema(&l.schema(), &[l.key()]);
                let got = self.db.catalog.write().create_index(i, t, key, vec![l.key()], 4, false, IndexType::BPlusTreeIndex);
                if got.is_some() != (layout.is_some() && !me.indexes.contains_key(i)) {
                    return Err(format!("CREATE INDEX {i} ON {t} gives {}", got.is_some()));
                }
                if let Some((info, _)) = got {
                    me.indexes.insert(i, (t, info.get_index_oid()));
                }
            },
            Insert(n) => self.insert(n, false, true)?,
            Large(n) => self.insert(n, true, true)?,
            Undone(n) => self.insert(n, false, false)?,
            Rebuild => self.db.catalog.write().rebuild_from_system_catalog(),
        }
        self.observe().map(|_| true)
    }
    fn digest(&self) -> u64 {
        hash(&(
            self.at,
            self.dbs
                .iter()
                .map(|(n, d)| {
                    (*n, d.tables.iter().map(|(n, t)| (*n, format!("{:?}", t.layout), t.rows.len())).collect::<Vec<_>>(), d.indexes.iter().map(|(n, i)| (*n, i.0)).collect::<Vec<_>>())
                })
                .collect::<Vec<_>>(),
        ))
    }
}
fn show(o: Op) -> String {
    format!("{o:?}")
}
pub fn run(ctx: &Ctx) {
    let deadline = ctx.deadline(40, 700);
    sequences(ctx, "databases, tables and indexes", OPS.len(), ctx.pick(4, 5), deadline, |o| show(OPS[o]), &|| make(&OPS));
    // deeper, within two databases that both have tables
    let i = |o: Op| OPS.iter().position(|p| *p == o).unwrap();
    let both = [i(Database("d")), i(Table("t", Plain)), i(Insert("t")), i(Use("d")), i(Table("t", Swapped)), i(Statement("u", Swapped, false)), i(Insert("t"))];
    sequences_from(ctx, "two databases with tables", &both, OPS.len(), ctx.pick(3, 4), deadline, |o| show(OPS[o]), &|| make(&OPS));
    let r = |o: Op| REBUILD.iter().position(|p| *p == o).unwrap();
    sequences(ctx, "rebuilding from the system tables", REBUILD.len(), ctx.pick(4, 5), deadline, |o| show(REBUILD[o]), &|| make(&REBUILD));
    let two = [r(Table("t", Plain)), r(Insert("t")), r(Database("d")), r(Use("d")), r(Table("u", Swapped)), r(Table("t", Plain)), r(Insert("t"))];
    sequences_from(ctx, "rebuilding two databases", &two, REBUILD.len(), ctx.pick(3, 5), deadline, |o| show(REBUILD[o]), &|| make(&REBUILD));
    let grown = [r(Table("t", Plain)), r(Large("t")), r(Large("t")), r(Table("u", Swapped)), r(Rebuild)];
    sequences_from(ctx, "rebuilding with tables of several pages", &grown, REBUILD.len(), ctx.pick(3, 5), deadline, |o| show(REBUILD[o]), &|| make(&REBUILD));
}
