//! What the checks of the executors share: a database, plans over given rows, and their results.
use crate::common::*;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::catalog_impl::Catalog;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockManager;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::mock_scan_plan::MockScanNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use std::sync::Arc;

/// A number, a text, a truth value or NULL, as the references see them.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum C {
    N,
    B(bool),
    I(i64),
    /// a fraction, in 1/1000000
    F(i64),
    T(String),
}
impl std::fmt::Debug for C {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            C::N => write!(f, "NULL"),
            C::B(b) => write!(f, "{b}"),
            C::I(i) => write!(f, "{i}"),
            C::F(i) => write!(f, "{}", *i as f64 / 1e6),
            C::T(s) => write!(f, "'{s}'"),
        }
    }
}
pub type Row = Vec<C>;
pub fn cell(v: &Value) -> C {
    match v.get_val() {
        Val::Null => C::N,
        Val::Boolean(b) => C::B(*b),
        Val::TinyInt(i) => C::I(*i as i64),
        Val::SmallInt(i) => C::I(*i as i64),
        Val::Integer(i) => C::I(*i as i64),
        Val::BigInt(i) => C::I(*i),
        Val::Decimal(d) => C::F((*d * 1e6).round() as i64),
        Val::Float(d) => C::F((*d as f64 * 1e6).round() as i64),
        Val::VarLen(s) | Val::ConstLen(s) => C::T(s.clone()),
        o => C::T(format!("{o:?}")),
    }
}
pub fn value(c: &C, t: TypeId) -> Value {
    let v = match (c, t) {
        (C::N, _) => Val::Null,
        (C::B(b), _) => Val::Boolean(*b),
        (C::I(i), TypeId::TinyInt) => Val::TinyInt(*i as i8),
        (C::I(i), TypeId::SmallInt) => Val::SmallInt(*i as i16),
        (C::I(i), TypeId::Integer) => Val::Integer(*i as i32),
        (C::I(i), TypeId::Decimal) => Val::Decimal(*i as f64),
        (C::I(i), _) => Val::BigInt(*i),
        (C::F(i), _) => Val::Decimal(*i as f64 / 1e6),
        (C::T(s), TypeId::Char) => Val::ConstLen(s.clone()),
        (C::T(s), _) => Val::VarLen(s.clone()),
    };
    Value::new_with_type(v, t)
}
pub type Cols<'a> = &'a [(&'a str, TypeId)];
pub fn column(name: &str, t: TypeId) -> Column {
    match t {
        TypeId::VarChar | TypeId::Char => Column::new_varlen(name, t, 20),
        _ => Column::new(name, t),
    }
}
pub fn schema(c: Cols) -> Schema {
    Schema::new(c.iter().map(|(n, t)| column(n, *t)).collect())
}
/// A plan that gives these rows.
pub fn rows_plan(c: Cols, rows: &[Row], distinct_rids: bool) -> PlanNode {
    let t = rows
        .iter()
        .enumerate()
        .map(|(i, r)| (r.iter().zip(c).map(|(v, (_, t))| value(v, *t)).collect(), if distinct_rids { RID::new(1 + i as u64 / 2, i as u32 % 2) } else { RID::default() }))
        .collect();
    PlanNode::MockScan(MockScanNode::new(schema(c), "rows".into(), vec![]).with_tuples(t))
}
pub type Ex = Arc<Expression>;
pub fn col(side: usize, c: Cols, i: usize) -> Ex {
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(side, i, column(c[i].0, c[i].1), vec![])))
}
pub fn lit(c: &C, t: TypeId) -> Ex {
    Arc::new(Expression::Constant(ConstantExpression::new(value(c, t), column("constant", t), vec![])))
}
pub fn cmp(op: &str, a: Ex, b: Ex) -> Ex {
    let t = match op {
        "=" => ComparisonType::Equal,
        "<>" => ComparisonType::NotEqual,
        "<" => ComparisonType::LessThan,
        "<=" => ComparisonType::LessThanOrEqual,
        ">" => ComparisonType::GreaterThan,
        _ => ComparisonType::GreaterThanOrEqual,
    };
    Arc::new(Expression::Comparison(ComparisonExpression::new(a.clone(), b.clone(), t, vec![a, b])))
}
pub fn and(a: Ex, b: Ex) -> Ex {
    Arc::new(Expression::Logic(LogicExpression::new(a.clone(), b.clone(), LogicType::And, vec![a, b])))
}
pub fn or(a: Ex, b: Ex) -> Ex {
    Arc::new(Expression::Logic(LogicExpression::new(a.clone(), b.clone(), LogicType::Or, vec![a, b])))
}
pub fn not(a: Ex) -> Ex {
    Arc::new(Expression::Logic(LogicExpression::new_not(a)))
}
pub fn plus(a: Ex, b: Ex) -> Ex {
    Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Add, vec![a, b])))
}
/// A comparison of cells in SQL.
pub fn test(op: &str, a: &C, b: &C) -> Option<bool> {
    if *a == C::N || *b == C::N {
        return None;
    }
    Some(match op {
        "=" => a == b,
        "<>" => a != b,
        "<" => a < b,
        "<=" => a <= b,
        ">" => a > b,
        _ => a >= b,
    })
}
pub fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
/// One for all: statements take no locks, and every lock manager keeps a thread for ever.
static LOCKS: std::sync::OnceLock<Arc<LockManager>> = std::sync::OnceLock::new();
/// A database with an empty catalog.
pub struct Db {
    pub pool: Arc<BufferPoolManager>,
    pub catalog: Arc<RwLock<Catalog>>,
    pub txns: Arc<TransactionManager>,
    pub locks: Arc<LockManager>,
    _dir: Arc<Scratch>,
}
impl Db {
    pub fn new(tag: &str) -> Self {
        let dir = Arc::new(Scratch::new(tag));
        let pool = crate::c17::pool(64, &dir);
        Self::on(pool, dir)
    }
    /// An empty catalog and transaction manager over the same pool.
    pub fn again(&self) -> Self {
        Self::on(self.pool.clone(), self._dir.clone())
    }
    fn on(pool: Arc<BufferPoolManager>, dir: Arc<Scratch>) -> Self {
        let txns = Arc::new(TransactionManager::new());
        let catalog = Arc::new(RwLock::new(Catalog::new(pool.clone(), txns.clone())));
        Db { pool, catalog, txns, locks: if mcrt::spawn_suppressed() { Arc::new(LockManager::new()) } else { LOCKS.get_or_init(|| Arc::new(LockManager::new())).clone() }, _dir: dir }
    }
    pub fn begin(&self) -> Arc<TransactionContext> {
        let t = self.txns.begin(IsolationLevel::ReadCommitted).expect("begin");
        self.of(t)
    }
    pub fn of(&self, t: Arc<Transaction>) -> Arc<TransactionContext> {
        Arc::new(TransactionContext::new(t, self.locks.clone(), self.txns.clone()))
    }
    pub fn context(&self, t: &Arc<TransactionContext>) -> Arc<RwLock<ExecutionContext>> {
        Arc::new(RwLock::new(ExecutionContext::new(self.pool.clone(), self.catalog.clone(), t.clone())))
    }
}
/// All rows a plan gives, in order. Ends with an error if it gives more than `most`.
pub fn execute(plan: &PlanNode, context: &Arc<RwLock<ExecutionContext>>, most: usize) -> Result<Vec<Row>, String> {
    Ok(execute_rids(plan, context, most)?.into_iter().map(|r| r.0).collect())
}
pub fn execute_rids(plan: &PlanNode, context: &Arc<RwLock<ExecutionContext>>, most: usize) -> Result<Vec<(Row, RID)>, String> {
    guard(|| {
        let mut e = plan.create_executor(context.clone())?;
        e.init();
        let width = e.get_output_schema().get_column_count() as usize;
        let mut out = Vec::new();
        while let Some((t, rid)) = e.next().map_err(|e| format!("error: {e}"))? {
            let r: Row = t.get_values().iter().map(cell).collect();
            if r.len() != width {
                return Err(format!("a row of {} columns, the schema has {width}", r.len()));
            }
            out.push((r, rid));
            if out.len() > most {
                return Err("more rows than there can be".into());
            }
        }
        // the end stays the end
        match e.next() {
            Ok(None) => Ok(out),
            _ => Err("rows after the end".into()),
        }
    })
    .and_then(|r| r)
}
/// All lists of up to `n` of these rows.
pub fn lists(of: &[Row], n: usize) -> Vec<Vec<Row>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<Row>> = vec![vec![]];
    for _ in 0..n {
        last = last
            .iter()
            .flat_map(|l| {
                of.iter().map(move |r| {
                    let mut l = l.clone();
                    l.push(r.clone());
                    l
                })
            })
            .collect();
        all.extend(last.iter().cloned());
    }
    all
}
pub fn sorted(mut r: Vec<Row>) -> Vec<Row> {
    r.sort();
    r
}
/// Runs a statement that changes something; returns the number it reports, if any.
pub fn statement(plan: &PlanNode, context: &Arc<RwLock<ExecutionContext>>) -> Result<Option<i64>, String> {
    guard(|| {
        let mut e = plan.create_executor(context.clone())?;
        e.init();
        let n = match e.next().map_err(|e| format!("error: {e}"))? {
            None => None,
            Some((t, _)) => match cell(&t.get_value(0)) {
                C::I(i) => Some(i),
                o => return Err(format!("a result of {o:?}")),
            },
        };
        match e.next() {
            Ok(None) => Ok(n),
            o => Err(format!("then {}", if o.is_ok() { "another row" } else { "an error" })),
        }
    })
    .and_then(|r| r)
}
